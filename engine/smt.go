package main

import (
	"path/filepath"
	"runtime"

	"bufio"
	"bytes"
	"context"
	"fmt"
	"io"
	"math/big"
	"os"
	"os/exec"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// ---------- SMT-LIB2 printing

type smtPrinter struct {
	tm    *TM
	out   *bytes.Buffer
	done  map[*Term]bool
	decl  map[string]bool
	vars  []*Term
	apps  []*Term
	maxed []*Term
}

func newPrinter(tm *TM) *smtPrinter {
	return &smtPrinter{tm: tm, out: &bytes.Buffer{}, done: map[*Term]bool{}, decl: map[string]bool{}}
}

func quoteSym(s string) string {
	return "|" + strings.NewReplacer("|", "_", "\\", "_").Replace(s) + "|"
}

func bvConst(w int, v *big.Int) string {
	if w%4 == 0 {
		s := v.Text(16)
		return "#x" + strings.Repeat("0", w/4-len(s)) + s
	}
	s := v.Text(2)
	return "#b" + strings.Repeat("0", w-len(s)) + s
}

func (p *smtPrinter) ref(t *Term) string {
	switch t.op {
	case OpConst:
		return bvConst(t.w, t.bigv())
	case OpVar:
		return quoteSym(t.name)
	}
	return fmt.Sprintf("t%d", t.id)
}

// define emits definitions for t and everything below it.
func (p *smtPrinter) define(root *Term) {
	type fr struct {
		t *Term
		i int
	}
	if p.done[root] {
		return
	}
	st := []fr{{root, 0}}
	for len(st) > 0 {
		f := &st[len(st)-1]
		if p.done[f.t] {
			st = st[:len(st)-1]
			continue
		}
		if f.i < len(f.t.args) {
			a := f.t.args[f.i]
			f.i++
			if !p.done[a] {
				st = append(st, fr{a, 0})
			}
			continue
		}
		p.emit(f.t)
		p.done[f.t] = true
		st = st[:len(st)-1]
	}
}

func (p *smtPrinter) emit(t *Term) {
	o := p.out
	switch t.op {
	case OpConst:
		return
	case OpVar:
		fmt.Fprintf(o, "(declare-fun %s () (_ BitVec %d))\n", quoteSym(t.name), t.w)
		p.vars = append(p.vars, t)
		if t.vmax != nil {
			fmt.Fprintf(o, "(assert (bvule %s %s))\n", quoteSym(t.name), bvConst(t.w, t.vmax))
		}
		return
	case OpUF:
		if !p.decl[t.name] {
			p.decl[t.name] = true
			d := p.tm.ufs[t.name]
			fmt.Fprintf(o, "(declare-fun %s (", quoteSym("uf:"+t.name))
			for _, w := range d.argW {
				fmt.Fprintf(o, "(_ BitVec %d) ", w)
			}
			fmt.Fprintf(o, ") (_ BitVec %d))\n", d.w)
		}
	}
	fmt.Fprintf(o, "(define-fun t%d () (_ BitVec %d) ", t.id, t.w)
	r := func(i int) string { return p.ref(t.args[i]) }
	bin := func(n string) { fmt.Fprintf(o, "(%s %s %s)", n, r(0), r(1)) }
	chain := func(n string, k int, f func(i int) string) {
		for i := 0; i < k-1; i++ {
			fmt.Fprintf(o, "(%s %s ", n, f(i))
		}
		o.WriteString(f(k - 1))
		o.WriteString(strings.Repeat(")", k-1))
	}
	switch t.op {
	case OpNot:
		fmt.Fprintf(o, "(bvnot %s)", r(0))
	case OpAnd:
		chain("bvand", len(t.args), r)
	case OpOr:
		chain("bvor", len(t.args), r)
	case OpXor:
		chain("bvxor", len(t.args), r)
	case OpIte:
		fmt.Fprintf(o, "(ite (= %s #b1) %s %s)", r(0), r(1), r(2))
	case OpEq:
		fmt.Fprintf(o, "(ite (= %s %s) #b1 #b0)", r(0), r(1))
	case OpUlt:
		fmt.Fprintf(o, "(ite (bvult %s %s) #b1 #b0)", r(0), r(1))
	case OpSlt:
		fmt.Fprintf(o, "(ite (bvslt %s %s) #b1 #b0)", r(0), r(1))
	case OpSum:
		var parts []string
		if k := p.tm.sumK(t); k.Sign() != 0 {
			parts = append(parts, bvConst(t.w, k))
		}
		m := bigMask(t.w)
		for i := range t.args {
			c := p.tm.coef(t, i)
			switch {
			case c.Cmp(bigOne) == 0:
				parts = append(parts, r(i))
			case c.Cmp(m) == 0:
				parts = append(parts, "(bvneg "+r(i)+")")
			default:
				parts = append(parts, fmt.Sprintf("(bvmul %s %s)", bvConst(t.w, c), r(i)))
			}
		}
		chain("bvadd", len(parts), func(i int) string { return parts[i] })
	case OpMul:
		chain("bvmul", len(t.args), r)
	case OpUdiv:
		bin("bvudiv")
	case OpUrem:
		bin("bvurem")
	case OpSdiv:
		bin("bvsdiv")
	case OpSrem:
		bin("bvsrem")
	case OpShl:
		bin("bvshl")
	case OpLshr:
		bin("bvlshr")
	case OpAshr:
		bin("bvashr")
	case OpConcat:
		chain("concat", len(t.args), r)
	case OpExtract:
		fmt.Fprintf(o, "((_ extract %d %d) %s)", int(t.k)+t.w-1, t.k, r(0))
	case OpSext:
		fmt.Fprintf(o, "((_ sign_extend %d) %s)", t.w-t.args[0].w, r(0))
	case OpUF:
		fmt.Fprintf(o, "(%s", quoteSym("uf:"+t.name))
		for i := range t.args {
			o.WriteString(" " + r(i))
		}
		o.WriteString(")")
		p.apps = append(p.apps, t)
	default:
		panic("smt: op " + opNames[t.op])
	}
	o.WriteString(")\n")
}

// ufGroup: "inj:name/len" -> "inj:name"; other UFs are not injective
func injGroup(name string) string {
	if !strings.HasPrefix(name, "inj:") {
		return ""
	}
	if i := strings.IndexByte(name, '/'); i > 0 {
		return name[:i]
	}
	return name
}

// injectivity constraints between two applications; returns "" when implied
func (p *smtPrinter) injPair(a, b *Term) string {
	if a == b || a.w != b.w {
		return ""
	}
	if a.name != b.name {
		return fmt.Sprintf("(assert (not (= t%d t%d)))\n", a.id, b.id)
	}
	var s strings.Builder
	fmt.Fprintf(&s, "(assert (=> (= t%d t%d) (and", a.id, b.id)
	for i := range a.args {
		fmt.Fprintf(&s, " (= %s %s)", p.ref(a.args[i]), p.ref(b.args[i]))
	}
	s.WriteString(" true)))\n")
	return s.String()
}

func (p *smtPrinter) injAll(apps []*Term, from int) {
	for i := from; i < len(apps); i++ {
		g := injGroup(apps[i].name)
		if g == "" {
			continue
		}
		for j := 0; j < i; j++ {
			if injGroup(apps[j].name) == g {
				p.out.WriteString(p.injPair(apps[j], apps[i]))
			}
		}
	}
}

// ---------- results

type SatResult int

const (
	Unknown SatResult = iota
	Sat
	Unsat
)

func (r SatResult) String() string { return [...]string{"unknown", "sat", "unsat"}[r] }

type Model struct {
	Vars map[string]*big.Int
	UF   map[string][]UFEntry
}

type UFEntry struct {
	Args []*big.Int
	Val  *big.Int
	W    int
}

type SolverStats struct {
	Queries  int64
	Branch   int64
	TimeNs   int64
	BySolver sync.Map
	Unknowns int64
}

var gstats SolverStats

// ---------- one-shot portfolio

type solverSpec struct {
	name string
	args []string
}

var portfolio = []solverSpec{
	{"z3-new", []string{"z3-new", "-in", "-smt2"}},
	{"cvc5", []string{"cvc5", "--lang=smt2", "--produce-models", "--bitblast=lazy", "-q"}},
	{"z3", []string{"z3", "-in", "-smt2"}},
}

var solverSem = make(chan struct{}, 8)

// Check decides the conjunction of conds; on Sat a model is returned.
func (tm *TM) Check(conds []*Term, timeout time.Duration, wantModel bool) (SatResult, *Model, string) {
	if debugOn {
		t0 := time.Now()
		defer func() {
			if d := time.Since(t0); d > 500*time.Millisecond {
				_, f, l, _ := runtime.Caller(2)
				_, f2, l2, _ := runtime.Caller(3)
				fmt.Fprintf(os.Stderr, "slow check %v %s:%d %s:%d\n", d, filepath.Base(f), l, filepath.Base(f2), l2)
			}
		}()
	}
	c := tm.And(append([]*Term{tm.True()}, conds...)...)
	if c.isFalse() {
		return Unsat, nil, "simplifier"
	}
	p := newPrinter(tm)
	p.define(c)
	p.injAll(p.apps, 0)
	var q bytes.Buffer
	q.WriteString("(set-option :produce-models true)\n(set-logic QF_UFBV)\n")
	q.Write(p.out.Bytes())
	fmt.Fprintf(&q, "(assert (= %s #b1))\n(check-sat)\n", p.ref(c))
	if wantModel {
		var names []string
		for _, v := range p.vars {
			names = append(names, quoteSym(v.name))
		}
		seen := map[*Term]bool{}
		for _, a := range p.apps {
			names = append(names, fmt.Sprintf("t%d", a.id))
			for _, x := range a.args {
				if !x.isC() && x.op != OpVar && !seen[x] {
					seen[x] = true
					names = append(names, fmt.Sprintf("t%d", x.id))
				}
			}
		}
		if len(names) > 0 {
			fmt.Fprintf(&q, "(get-value (%s))\n", strings.Join(names, " "))
		}
	}
	q.WriteString("(exit)\n")
	if d := os.Getenv("VP_DUMP"); d != "" {
		os.WriteFile(fmt.Sprintf("%s/q%d.smt2", d, atomic.LoadInt64(&gstats.Queries)), q.Bytes(), 0644)
	}
	atomic.AddInt64(&gstats.Queries, 1)
	t0 := time.Now()
	defer func() { atomic.AddInt64(&gstats.TimeNs, int64(time.Since(t0))) }()
	ctx, cancel := context.WithTimeout(context.Background(), timeout)
	defer cancel()
	type ans struct {
		r    SatResult
		out  string
		name string
	}
	ch := make(chan ans, len(portfolio))
	started := 0
	start := func(i int) {
		started++
		sp := portfolio[i]
		go func() {
			solverSem <- struct{}{}
			defer func() { <-solverSem }()
			if ctx.Err() != nil {
				ch <- ans{Unknown, "", sp.name}
				return
			}
			cmd := exec.CommandContext(ctx, sp.args[0], sp.args[1:]...)
			cmd.Stdin = bytes.NewReader(q.Bytes())
			var ob bytes.Buffer
			cmd.Stdout = &ob
			cmd.Stderr = io.Discard
			cmd.Run()
			o := ob.String()
			r := Unknown
			first := strings.TrimSpace(strings.SplitN(o, "\n", 2)[0])
			switch first {
			case "sat":
				r = Sat
			case "unsat":
				r = Unsat
			}
			if strings.Contains(o, "(error") && r == Sat {
				r = Unknown
			}
			if strings.HasPrefix(first, "(error") {
				r = Unknown
			}
			ch <- ans{r, o, sp.name}
		}()
	}
	start(0)
	stagger := time.NewTimer(2 * time.Second)
	defer stagger.Stop()
	got := 0
	for {
		select {
		case a := <-ch:
			got++
			if a.r != Unknown {
				var n *int64
				v, _ := gstats.BySolver.LoadOrStore(a.name, new(int64))
				n = v.(*int64)
				atomic.AddInt64(n, 1)
				if a.r == Sat && wantModel {
					return Sat, p.parseModel(a.out), a.name
				}
				return a.r, nil, a.name
			}
			if started < len(portfolio) && ctx.Err() == nil {
				for i := started; i < len(portfolio); i++ {
					start(i)
				}
			}
			if got == started {
				atomic.AddInt64(&gstats.Unknowns, 1)
				return Unknown, nil, ""
			}
		case <-stagger.C:
			for i := started; i < len(portfolio); i++ {
				start(i)
			}
		case <-ctx.Done():
			atomic.AddInt64(&gstats.Unknowns, 1)
			return Unknown, nil, ""
		}
	}
}

func parseBV(s string) *big.Int {
	v := new(big.Int)
	switch {
	case strings.HasPrefix(s, "#x"):
		v.SetString(s[2:], 16)
	case strings.HasPrefix(s, "#b"):
		v.SetString(s[2:], 2)
	case strings.HasPrefix(s, "bv"):
		v.SetString(s[2:], 10)
	default:
		v.SetString(s, 10)
	}
	return v
}

func tokenize(s string) []string {
	var out []string
	i := 0
	for i < len(s) {
		c := s[i]
		switch {
		case c == '(' || c == ')':
			out = append(out, string(c))
			i++
		case c == ' ' || c == '\n' || c == '\t' || c == '\r':
			i++
		case c == '|':
			j := strings.IndexByte(s[i+1:], '|')
			if j < 0 {
				return out
			}
			out = append(out, s[i:i+j+2])
			i += j + 2
		default:
			j := i
			for j < len(s) && !strings.ContainsRune("() \n\t\r", rune(s[j])) {
				j++
			}
			out = append(out, s[i:j])
			i = j
		}
	}
	return out
}

func (p *smtPrinter) parseModel(out string) *Model {
	i := strings.Index(out, "\n")
	toks := tokenize(out[i+1:])
	vals := map[string]*big.Int{}
	// ((name val) (name val) ...), val possibly (_ bvN w)
	for i := 0; i < len(toks); i++ {
		if toks[i] == "(" && i+2 < len(toks) && toks[i+1] != "(" && toks[i+1] != "_" {
			name := toks[i+1]
			v := toks[i+2]
			if v == "(" && i+4 < len(toks) {
				vals[name] = parseBV(toks[i+4])
				i += 5
			} else {
				vals[name] = parseBV(v)
				i += 2
			}
		}
	}
	m := &Model{Vars: map[string]*big.Int{}, UF: map[string][]UFEntry{}}
	for _, v := range p.vars {
		if x := vals[quoteSym(v.name)]; x != nil {
			m.Vars[v.name] = x
		}
	}
	get := func(t *Term) *big.Int {
		if t.isC() {
			return t.bigv()
		}
		if x := vals[p.ref(t)]; x != nil {
			return x
		}
		return bigZero
	}
	for _, a := range p.apps {
		var as []*big.Int
		for _, x := range a.args {
			as = append(as, get(x))
		}
		m.UF[a.name] = append(m.UF[a.name], UFEntry{as, get(a), a.w})
	}
	return m
}

// ---------- incremental solver for branch feasibility

type IncSolver struct {
	tm    *TM
	cmd   *exec.Cmd
	in    io.WriteCloser
	out   *bufio.Reader
	p     *smtPrinter
	nApps int
	memo  map[*Term]SatResult
	toMs  int
	bad   bool
	curMs int
	N     int
}

func NewInc(tm *TM, toMs int) *IncSolver {
	s := &IncSolver{tm: tm, memo: map[*Term]SatResult{}, toMs: toMs}
	s.start()
	return s
}

func (s *IncSolver) start() {
	s.p = newPrinter(s.tm)
	s.nApps = 0
	s.curMs = 0
	s.cmd = exec.Command("z3-new", "-in", "-smt2")
	s.in, _ = s.cmd.StdinPipe()
	o, _ := s.cmd.StdoutPipe()
	s.out = bufio.NewReader(o)
	if err := s.cmd.Start(); err != nil {
		panic(err)
	}
	fmt.Fprintf(s.in, "(set-option :timeout %d)\n(set-logic QF_UFBV)\n", s.toMs)
}

func (s *IncSolver) Close() {
	if s.cmd != nil {
		s.in.Close()
		s.cmd.Process.Kill()
		s.cmd.Wait()
		s.cmd = nil
	}
}

func (s *IncSolver) Check(c *Term, ms int) SatResult {
	if c.isFalse() {
		return Unsat
	}
	if c.isTrue() {
		return Sat
	}
	if r, ok := s.memo[c]; ok {
		return r
	}
	if s.cmd == nil {
		s.start()
	}
	s.N++
	atomic.AddInt64(&gstats.Branch, 1)
	t0 := time.Now()
	defer func() { atomic.AddInt64(&gstats.TimeNs, int64(time.Since(t0))) }()
	s.p.out.Reset()
	s.p.define(c)
	if len(s.p.apps) > s.nApps {
		s.p.injAll(s.p.apps, s.nApps)
		s.nApps = len(s.p.apps)
	}
	if ms <= 0 || ms > s.toMs {
		ms = s.toMs
	}
	if ms != s.curMs {
		fmt.Fprintf(s.p.out, "(set-option :timeout %d)\n", ms)
		s.curMs = ms
	}
	fmt.Fprintf(s.p.out, "(push 1)\n(assert (= %s #b1))\n(check-sat)\n(pop 1)\n(echo \"done\")\n", s.p.ref(c))
	done := make(chan SatResult, 1)
	go func() {
		s.in.Write(s.p.out.Bytes())
		r := Unknown
		for {
			l, err := s.out.ReadString('\n')
			if err != nil {
				done <- Unknown
				return
			}
			l = strings.TrimSpace(l)
			switch {
			case l == "sat":
				r = Sat
			case l == "unsat":
				r = Unsat
			case strings.HasPrefix(l, "(error"):
				r = Unknown
				fmt.Fprintln(os.Stderr, "solver error:", l)
			case l == "done":
				done <- r
				return
			}
		}
	}()
	var r SatResult
	select {
	case r = <-done:
	case <-time.After(time.Duration(s.toMs)*time.Millisecond*3 + 5*time.Second):
		s.Close()
		r = Unknown
	}
	if r == Unknown && s.cmd != nil && s.cmd.ProcessState != nil {
		s.Close()
	}
	if r != Unknown || ms == s.toMs {
		s.memo[c] = r
	}
	return r
}

func sortedKeys[V any](m map[string]V) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

var debugOn = os.Getenv("VP_DEBUG") != ""
