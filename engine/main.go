package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math/big"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"runtime/pprof"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Harness is one bounded proof obligation over the real code.
type Harness struct {
	Prop    string
	Pkg     string // below the module path
	Func    string
	Cfg     map[string]int
	Tier    string // "q": quick and thorough; "t": thorough only
	Unwind  int
	Cut     int // rejection sampling: how many redraws are followed (see cutRandom)
	Reach   []string
	Timeout int // seconds
	Mem     int // weight, out of 8
}

func (h *Harness) name() string {
	s := h.Pkg + "." + h.Func
	for _, k := range sortedKeys(h.Cfg) {
		s += fmt.Sprintf(" %s=%d", k, h.Cfg[k])
	}
	return s
}

type Outcome struct {
	H       *Harness
	Res     *RunResult
	Stats   RunStats
	Funcs   []string
	Wall    float64
	Queries int64
	Err     string
}

func runHarness(ld *Loaded, h *Harness) (out *Outcome) {
	t0 := time.Now()
	out = &Outcome{H: h}
	to := h.Timeout
	if to == 0 {
		to = 240
	}
	x := &Exec{
		tm: NewTM(), prog: ld.prog, ld: ld,
		consts: map[*ssa.Const]Value{}, fnInfo: map[*ssa.Function]*FnInfo{},
		globals: map[*ssa.Global]int{}, globRev: map[int]*ssa.Global{}, inited: map[*ssa.Package]int{},
		cfg: h.Cfg, depthAt: map[string]int{}, maxUnwind: h.Unwind, funcs: map[string]bool{},
		intrMemo: map[*ssa.Function]intrFn{},
		deadline: time.Now().Add(time.Duration(to) * time.Second),
	}
	x.init()
	known := readKnown()
	x.isKnown = func(msg string) bool {
		for _, kf := range known {
			if kf.matches(h, msg) {
				return true
			}
		}
		return false
	}
	if x.cfg == nil {
		x.cfg = map[string]int{}
	}
	if x.maxUnwind == 0 {
		x.maxUnwind = 70
	}
	x.cut = h.Cut
	if x.cut == 0 {
		x.cut = 2
	}
	x.assertTO = time.Duration(to) * time.Second
	x.inc = NewInc(x.tm, 20000)
	defer x.inc.Close()
	x.res = &RunResult{Reached: map[string]bool{}}
	out.Res = x.res
	defer func() {
		out.Wall = time.Since(t0).Seconds()
		out.Stats = x.stats
		for f := range x.funcs {
			out.Funcs = append(out.Funcs, f)
		}
		sort.Strings(out.Funcs)
		if r := recover(); r != nil {
			if tu, ok := r.(timeUp); ok {
				if tu.enough {
					out.Res.inconclusive("stopped early after a violation")
				} else {
					out.Res.inconclusive("time limit %d s", to)
				}
				return
			}
			out.Err = fmt.Sprintf("engine: %v", r)
			if os.Getenv("VP_DEBUG") != "" {
				fmt.Fprintf(os.Stderr, "%v\n%s\n", r, debug.Stack())
			}
		}
	}()
	pkg := ld.pkgs[modPath+"/"+h.Pkg]
	if pkg == nil {
		out.Err = "package " + h.Pkg + " not loaded"
		return
	}
	fn := pkg.Func(h.Func)
	if fn == nil {
		out.Err = "no function " + h.Func
		return
	}
	x.initPkg(pkg)
	s := &State{owner: x.newOwner(), names: map[string]int{}}
	s.gs = []*Gor{{id: 0}}
	x.ending = func(s *State) {
		if r, _, _ := x.tm.Check(s.pc.list(nil), 30*time.Second, false); r == Sat {
			x.res.Completed++
		}
	}
	x.pushFrame(s, fn, nil, nil, 2, 0)
	x.run(s, nil)
	return
}

// ---------- replay

type modelFile struct {
	Property string
	Harness  string
	Pkg      string
	Func     string
	Kind     string
	Message  string
	Pos      string
	Vars     map[string]string
	UF       map[string]map[string]string
	Cfg      map[string]int
}

func toModelFile(h *Harness, v *Violation) *modelFile {
	m := &modelFile{Property: h.Prop, Harness: h.name(), Pkg: h.Pkg, Func: h.Func, Kind: v.Kind, Message: v.Msg, Pos: v.Pos,
		Vars: map[string]string{}, UF: map[string]map[string]string{}, Cfg: h.Cfg}
	if v.Model == nil {
		return m
	}
	for k, b := range v.Model.Vars {
		if b.Sign() != 0 {
			m.Vars[k] = b.Text(16)
		}
	}
	for n, es := range v.Model.UF {
		// name: base/len,len/out
		p := strings.LastIndex(n, "/")
		q := strings.LastIndex(n[:p], "/")
		total := 0
		for _, l := range strings.Split(n[q+1:p], ",") {
			k, _ := strconv.Atoi(l)
			total += k
		}
		if total == 0 {
			total = 1
		}
		outN, _ := strconv.Atoi(n[p+1:])
		t := map[string]string{}
		for _, e := range es {
			t[hexPad(e.Args[0], total)] = hexPad(e.Val, outN)
		}
		m.UF[n] = t
	}
	return m
}

func hexPad(b *big.Int, n int) string {
	s := b.Text(16)
	for len(s) < 2*n {
		s = "0" + s
	}
	return s
}

var replayMu sync.Mutex
var replayBins = map[string]string{}

func buildReplay(ld *Loaded, pkg string, race bool) (string, error) {
	replayMu.Lock()
	defer replayMu.Unlock()
	key := fmt.Sprintf("%s/%v", pkg, race)
	if b, ok := replayBins[key]; ok {
		if b == "" {
			return "", fmt.Errorf("replay build failed earlier")
		}
		return b, nil
	}
	replayBins[key] = ""
	sp := ld.pkgs[modPath+"/"+pkg]
	var fns []string
	for n, m := range sp.Members {
		if f, ok := m.(*ssa.Function); ok && strings.HasPrefix(n, "VP") && f.Signature.Params().Len() == 0 && f.Signature.Results().Len() == 0 {
			fns = append(fns, n)
		}
	}
	sort.Strings(fns)
	var b strings.Builder
	fmt.Fprintf(&b, "package %s\n\nimport (\n\t\"os\"\n\t\"testing\"\n\tvpr %q\n)\n\nfunc TestVPReplay(t *testing.T) {\n\tvpr.RunNative(map[string]func(){\n", sp.Pkg.Name(), vpPath)
	for _, f := range fns {
		fmt.Fprintf(&b, "\t\t%q: %s,\n", f, f)
	}
	b.WriteString("\t}[os.Getenv(\"VP_HARNESS\")])\n}\n")
	ov, err := ld.writeOverlay(map[string][]byte{filepath.Join(repoDir, pkg, "vp_replay_test.go"): []byte(b.String())}, "overlay-"+strings.ReplaceAll(key, "/", "_")+".json")
	if err != nil {
		return "", err
	}
	bin := filepath.Join(ld.dir, "replay-"+strings.ReplaceAll(key, "/", "_"))
	args := []string{"test", "-c", "-vet=off", "-overlay", ov, "-o", bin}
	if race {
		args = append(args, "-race")
	}
	args = append(args, "./"+pkg)
	c := goCmd(args...)
	o, err := c.CombinedOutput()
	if err != nil {
		return "", fmt.Errorf("go test -c: %v\n%s", err, o)
	}
	replayBins[key] = bin
	return bin, nil
}

// replayModel runs the model natively; ok when the real code misbehaves.
func replayModel(ld *Loaded, m *modelFile, file string) (bool, string) {
	bin, err := buildReplay(ld, m.Pkg, m.Kind == "race")
	if err != nil {
		return false, err.Error()
	}
	tries := 1
	if m.Kind == "race" || m.Kind == "deadlock" || m.Cfg["sched"] == 1 || m.Cfg["maporder"] == 1 {
		tries = 60
	}
	wd, err := os.MkdirTemp(ld.dir, "run")
	if err != nil {
		return false, err.Error()
	}
	last := ""
	for i := 0; i < tries; i++ {
		c := exec.Command("timeout", "-k", "2", "60", bin, "-test.run", "^TestVPReplay$", "-test.timeout", "40s")
		c.Dir = wd
		c.Env = append(os.Environ(), "VP_MODEL="+file, "VP_HARNESS="+m.Func)
		o, err := c.CombinedOutput()
		last = string(o)
		if err == nil {
			continue
		}
		if strings.Contains(last, "VP-ASSUME-FAILED") {
			return false, "the model violates an assumption natively: " + tail(last, 1200)
		}
		return true, last
	}
	return false, "does not reproduce natively: " + tail(last, 1200)
}

func tail(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

// ---------- check

func die(f string, a ...interface{}) {
	fmt.Fprintf(os.Stderr, f+"\n", a...)
	os.Exit(2)
}

type knownFinding struct{ prop, harness, msg, text string }

func (kf knownFinding) matches(h *Harness, msg string) bool {
	return kf.prop == h.Prop && strings.Contains(h.name(), kf.harness) && strings.Contains(msg, kf.msg)
}

func readKnown() []knownFinding {
	b, err := os.ReadFile(filepath.Join(verifDir, "known-findings.txt"))
	if err != nil {
		return nil
	}
	var out []knownFinding
	for _, l := range strings.Split(string(b), "\n") {
		if !strings.HasPrefix(l, "finding: ") {
			continue
		}
		p := strings.SplitN(strings.TrimPrefix(l, "finding: "), " | ", 4)
		if len(p) == 4 {
			out = append(out, knownFinding{p[0], p[1], p[2], p[3]})
		}
	}
	return out
}

func main() {
	if len(os.Args) < 2 {
		die("usage: vpcheck check PROP [quick|thorough] | replay FILE | list | selftest")
	}
	if v := os.Getenv("VP_REPO"); v != "" {
		repoDir = v
	}
	if exe, err := os.Executable(); err == nil {
		if d := filepath.Dir(filepath.Dir(exe)); fileExists(filepath.Join(d, "overlay")) {
			verifDir = d
		}
	}
	if v := os.Getenv("VP_VERIF"); v != "" {
		verifDir = v
	}
	debug.SetGCPercent(150)
	if f := os.Getenv("VP_PROF"); f != "" {
		w, _ := os.Create(f)
		pprof.StartCPUProfile(w)
		defer pprof.StopCPUProfile()
	}
	switch os.Args[1] {
	case "list":
		for _, h := range registry {
			fmt.Println(h.Prop, h.Tier, h.name())
		}
	case "selftest":
		os.Exit(selftest())
	case "check":
		tier := os.Getenv("VERIF_TIER")
		if len(os.Args) > 3 {
			tier = os.Args[3]
		}
		if tier != "thorough" {
			tier = "quick"
		}
		rc := check(os.Args[2], tier)
		pprof.StopCPUProfile()
		os.Exit(rc)
	case "replay":
		os.Exit(replayCmd(os.Args[2]))
	default:
		die("unknown command")
	}
}

func fileExists(p string) bool { _, err := os.Stat(p); return err == nil }

func mkScratch() string {
	d, err := os.MkdirTemp("", "vpcheck")
	if err != nil {
		die("%v", err)
	}
	return d
}

func replayCmd(file string) int {
	file, _ = filepath.Abs(file)
	b, err := os.ReadFile(file)
	if err != nil {
		die("%v", err)
	}
	var m modelFile
	if err := json.Unmarshal(b, &m); err != nil {
		die("%v", err)
	}
	d := mkScratch()
	defer os.RemoveAll(d)
	ld, err := Load(d, []string{m.Pkg})
	if err != nil {
		die("%v", err)
	}
	ok, o := replayModel(ld, &m, file)
	fmt.Println(o)
	if ok {
		return 1
	}
	return 0
}

func check(prop, tier string) int {
	t0 := time.Now()
	only := os.Getenv("VP_ONLY")
	var hs []*Harness
	pk := map[string]bool{}
	for i := range registry {
		h := &registry[i]
		if h.Prop != prop || (tier == "quick" && h.Tier == "t") || (h.Tier == "Q" && tier != "quick") {
			continue
		}
		if only != "" && !strings.Contains(h.name(), only) {
			continue
		}
		hs = append(hs, h)
		pk[h.Pkg] = true
	}
	if len(hs) == 0 {
		die("no harness for %s", prop)
	}
	d := mkScratch()
	defer os.RemoveAll(d)
	ld, err := Load(d, sortedKeys(pk))
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	var skipped []string
	if len(ld.dropped) > 0 {
		var keep []*Harness
		for _, h := range hs {
			if p := ld.pkgs[modPath+"/"+h.Pkg]; p == nil || p.Func(h.Func) == nil {
				skipped = append(skipped, h.name())
				fmt.Printf("NOTE: %s does not compile against this tree and was left out\n", h.name())
				continue
			}
			keep = append(keep, h)
		}
		hs = keep
		if len(hs) == 0 {
			fmt.Println("no harness compiles against this tree")
			return 2
		}
	}
	loadT := time.Since(t0).Seconds()
	// run
	outs := make([]*Outcome, len(hs))
	par := runtime.NumCPU()
	if par > 8 {
		par = 8
	}
	weights := make(chan struct{}, par)
	var wg sync.WaitGroup
	for i, h := range hs {
		i, h := i, h
		w := h.Mem
		if w == 0 {
			w = 1
		}
		if w > par {
			w = par
		}
		for k := 0; k < w; k++ {
			weights <- struct{}{}
		}
		wg.Add(1)
		go func() {
			defer wg.Done()
			outs[i] = runHarness(ld, h)
			if os.Getenv("VP_VERBOSE") != "" {
				o := outs[i]
				fmt.Fprintf(os.Stderr, "%-60s %6.1fs steps=%d forks=%d merges=%d asserts=%d completed=%d viol=%d inc=%v err=%s\n", h.name(), o.Wall, o.Stats.Steps, o.Stats.Forks, o.Stats.Merges, o.Stats.Asserts, o.Res.Completed, len(o.Res.Violations), o.Res.Inconclusive, o.Err)
			}
			for k := 0; k < w; k++ {
				<-weights
			}
		}()
	}
	wg.Wait()
	// judge
	known := readKnown()
	var reported []string
	var inconclusive []string
	knownHit := map[string]bool{}
	nviol := 0
	replayed := 0
	repDir := filepath.Join(verifDir, "evidence", "replays")
	os.MkdirAll(repDir, 0o755)
	old, _ := filepath.Glob(filepath.Join(repDir, prop+"-*.json"))
	for _, f := range old {
		os.Remove(f)
	}
	for _, o := range outs {
		if o.Err != "" {
			inconclusive = append(inconclusive, o.H.name()+": "+o.Err)
		}
		for _, m := range o.Res.Inconclusive {
			inconclusive = append(inconclusive, o.H.name()+": "+m)
		}
		seen := map[string]int{}
		for _, v := range o.Res.Violations {
			k := v.Kind + v.Msg
			if seen[k] >= 3 {
				continue
			}
			if seen[k] > 0 && len(reported) > 0 {
				continue
			}
			seen[k]++
			m := toModelFile(o.H, v)
			js, _ := json.MarshalIndent(m, "", " ")
			fn := filepath.Join(repDir, fmt.Sprintf("%s-%d.json", prop, replayed))
			os.WriteFile(fn, js, 0o644)
			replayed++
			ok, text := replayModel(ld, m, fn)
			if !ok {
				inconclusive = append(inconclusive, fmt.Sprintf("%s: counterexample for %q (%s) not confirmed: %s", o.H.name(), v.Msg, v.Pos, text))
				continue
			}
			isKnown := false
			for _, kf := range known {
				if kf.matches(o.H, v.Msg) {
					isKnown = true
					if !knownHit[kf.text] {
						knownHit[kf.text] = true
						fmt.Printf("KNOWN-FINDING: property=%s %s\n", prop, kf.text)
					}
				}
			}
			if isKnown {
				continue
			}
			nviol++
			fmt.Printf("%s: %s\n  at %s\n", o.H.name(), v.Msg, v.Pos)
			for _, l := range strings.Split(text, "\n") {
				if strings.Contains(l, "VP-") || strings.HasPrefix(l, "panic:") || strings.Contains(l, "DATA RACE") || strings.Contains(l, "deadlock") {
					fmt.Println("  native replay:", strings.TrimSpace(l))
					break
				}
			}
			reported = append(reported, fn)
			if len(reported) >= 3 {
				break
			}
		}
		if len(reported) >= 3 {
			break
		}
	}
	for _, o := range outs {
		if o.Err != "" || len(o.Res.Inconclusive) > 0 || len(o.Res.Violations) > 0 {
			continue
		}
		if o.Res.Completed == 0 {
			inconclusive = append(inconclusive, o.H.name()+": vacuous: no execution completes")
		}
		for _, t := range o.H.Reach {
			if !o.Res.Reached[t] {
				inconclusive = append(inconclusive, o.H.name()+": vacuous: "+t+" is never reached")
			}
		}
	}
	writeEvidence(prop, tier, skipped, outs, nviol, replayed, inconclusive, loadT, time.Since(t0).Seconds())
	for _, m := range inconclusive {
		if len(reported) == 0 {
			fmt.Println("INCONCLUSIVE:", m)
		}
	}
	if len(reported) > 0 {
		for _, f := range reported {
			fmt.Printf("VIOLATION property=%s replay=%s\n", prop, f)
		}
		return 1
	}
	if len(inconclusive) > 0 {
		return 2
	}
	fmt.Printf("%s holds within its bounds (%d harnesses, %.1f s)\n", prop, len(outs), time.Since(t0).Seconds())
	return 0
}

func writeEvidence(prop, tier string, skipped []string, outs []*Outcome, nviol, replayed int, inc []string, loadT, wall float64) {
	fset := map[string]bool{}
	var hl []map[string]interface{}
	var steps, forks, merges, asserts, completed int64
	ass := map[string]bool{}
	for _, o := range outs {
		for _, f := range o.Funcs {
			fset[f] = true
		}
		steps += o.Stats.Steps
		forks += o.Stats.Forks
		merges += o.Stats.Merges
		asserts += o.Stats.Asserts
		completed += int64(o.Res.Completed)
		hl = append(hl, map[string]interface{}{
			"harness": o.H.name(), "unwind_limit": o.H.Unwind, "seconds": o.Wall, "ssa_steps": o.Stats.Steps,
			"forks": o.Stats.Forks, "merges": o.Stats.Merges, "assertions": o.Stats.Asserts, "completed_paths": o.Res.Completed, "reached": sortedKeys(o.Res.Reached),
		})
	}
	for _, a := range assumptions[""] {
		ass[a] = true
	}
	for _, a := range assumptions[prop] {
		ass[a] = true
	}
	by := map[string]int64{}
	gstats.BySolver.Range(func(k, v interface{}) bool { by[k.(string)] = atomic.LoadInt64(v.(*int64)); return true })
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	ev := map[string]interface{}{
		"property": prop, "tier": tier, "seed": seed, "level": "other", "wall_s": wall, "violations": nviol,
		"assumptions": sortedKeys(ass),
		"coverage": map[string]interface{}{
			"explanation":       "Bounded symbolic execution of the real code (Go SSA and clang IR regenerated from /repo on this run); every assertion, panic and bounds check on every path is decided by an SMT solver over all values of the symbolic inputs within the bounds of the listed harness configurations.",
			"functions_encoded": sortedKeys(fset),
			"skipped_harnesses": skipped,
			"harnesses":         hl,
			"bounds":            bounds[prop],
			"ssa_steps":         steps,
			"forks":             forks,
			"merges":            merges,
			"assertion_checks":  asserts,
			"completed_paths":   completed,
			"solver_queries":    atomic.LoadInt64(&gstats.Queries),
			"branch_queries":    atomic.LoadInt64(&gstats.Branch),
			"answers_by_solver": by,
			"solver_unknowns":   atomic.LoadInt64(&gstats.Unknowns),
			"solver_seconds":    float64(atomic.LoadInt64(&gstats.TimeNs)) / 1e9,
			"load_seconds":      loadT,
			"models_replayed":   replayed,
			"inconclusive":      inc,
		},
	}
	var b bytes.Buffer
	e := json.NewEncoder(&b)
	e.SetIndent("", " ")
	e.SetEscapeHTML(false)
	e.Encode(ev)
	os.MkdirAll(filepath.Join(verifDir, "evidence"), 0o755)
	os.WriteFile(filepath.Join(verifDir, "evidence", prop+".json"), b.Bytes(), 0o644)
}
