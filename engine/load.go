package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// Loaded is the program under verification: /repo's current source, the
// harnesses and the stubs of its environment, in SSA form.
type Loaded struct {
	prog    *ssa.Program
	pkgs    map[string]*ssa.Package
	dir     string // scratch directory
	overlay string // overlay file, also used to build the replay natively
	files   map[string][]byte
	sizes   types.Sizes
	harness map[string]bool // harness files
	dropped []string        // harness files that do not compile against this tree
}

var repoDir = "/repo"
var verifDir = "/verif"

// imports redirected to stubs in the code under test
var redirect = map[string]string{
	"crypto/aes":                      "aes",
	"crypto/cipher":                   "cipher",
	"crypto/rand":                     "rand",
	"crypto":                          "crypto",
	"log":                             "log",
	"math/rand":                       "mrand",
	"hash/fnv":                        "fnv",
	"lukechampine.com/blake3":         "blake3",
	"golang.org/x/crypto/blake2b":     "blake2b",
	"github.com/dkales/dpf-go/dpf":    "dpf",
	"github.com/lukechampine/fastxor": "fastxor",
}

// imports redirected in some directories only
var redirectIn = map[string]map[string]string{
	"lib/pgp":    {"os": "os", "io/ioutil": "ioutil", "time": "time"},
	"lib/server": {"time": "time"},
	"lib/query":  {"time": "time"},
}

// mirrors: command packages (package main) are also loaded as libraries, under
// another path and name and with their transport stubbed, so that harnesses can
// run their functions and their main.
type mirror struct {
	src string
	red map[string]string
}

const repoPath = "github.com/si-co/vpir-code"

var transport = map[string]string{
	"context": "context", "net": "net", "net/http": "http", "os": "os", "os/signal": "signal", "flag": "flag",
	repoPath + "/lib/proto": "proto", repoPath + "/cmd/grpc/sdnotify": "sdnotify",
	"google.golang.org/grpc": "grpc", "google.golang.org/grpc/credentials": "credentials",
	"google.golang.org/grpc/encoding/gzip": "gzip",
}

func withT(m map[string]string) map[string]string {
	r := map[string]string{}
	for k, v := range transport {
		r[k] = v
	}
	for k, v := range m {
		r[k] = v
	}
	return r
}

var mirrors = map[string]mirror{
	"vpmirror/grpcclient": {"cmd/grpc/client", transport},
	"vpmirror/grpcask": {"cmd/grpc/client", withT(map[string]string{
		"time": "time", repoPath + "/lib/pgp": "asklib/pgp"})},
	"vpmirror/asking": {"", withT(map[string]string{"time": "time", repoPath + "/lib/pgp": "asklib/pgp"})},
	"vpmirror/ask/manager": {"cmd/grpc/client/manager", withT(map[string]string{
		"time": "time", repoPath + "/lib/pgp": "asklib/pgp"})},
	"vpmirror/web": {"cmd/grpc/client/web", withT(map[string]string{
		"time": "time", "net/http": "askhttp", "fmt": "askfmt", "embed": "embed", "html/template": "template",
		repoPath + "/lib/pgp": "asklib/pgp", repoPath + "/cmd/grpc/client/manager": "/vpmirror/ask/manager"})},
	"vpmirror/interactive": {"cmd/grpc/client/interactive", withT(map[string]string{
		"fmt": "askfmt", "github.com/AlecAivazis/survey/v2": "survey",
		repoPath + "/lib/pgp": "asklib/pgp", repoPath + "/cmd/grpc/client/manager": "/vpmirror/ask/manager"})},
	"vpmirror/manager":    {"cmd/grpc/client/manager", transport},
	"vpmirror/simclient":  {"simulations/multi/client", transport},
	"vpmirror/grpcserver": {"cmd/grpc/server", transport},
	"vpmirror/simserver":  {"simulations/multi/server", transport},
	"vpmirror/pgp": {"lib/pgp", map[string]string{
		"os": "os", "io/ioutil": "ioutil", "time": "time",
		"github.com/nikirill/go-crypto/openpgp": "openpgp", "github.com/nikirill/go-crypto/openpgp/armor": "armor"}},
	"vpmirror/grpcmain": {"cmd/grpc/server", withT(map[string]string{
		repoPath + "/lib/database": "srvlib/database", repoPath + "/lib/pgp": "srvlib/pgp",
		repoPath + "/lib/utils": "srvlib/utils", repoPath + "/lib/server": "srvlib/server"})},
}

func init() {
	for k, m := range mirrors {
		redirectIn[k] = m.red
	}
}

func redirects(dir string) map[string]string {
	ex, ok := redirectIn[dir]
	if !ok {
		return redirect
	}
	m := map[string]string{}
	for k, v := range redirect {
		m[k] = v
	}
	for k, v := range ex {
		m[k] = v
	}
	return m
}

func rewriteImports(src []byte, redirect map[string]string, keep map[string]bool) ([]byte, bool, error) {
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, "x.go", src, parser.ImportsOnly)
	if err != nil {
		return nil, false, err
	}
	type edit struct {
		off, end int
		s        string
	}
	var ed []edit
	for _, im := range f.Imports {
		p, _ := strconv.Unquote(im.Path.Value)
		st, ok := redirect[p]
		if !ok || keep[p] {
			continue
		}
		off := fset.Position(im.Path.Pos()).Offset
		s := strconv.Quote(stubPath + "/" + st)
		if st[0] == '/' {
			s = strconv.Quote(repoPath + st)
		}
		ed = append(ed, edit{off, off + len(im.Path.Value), s})
	}
	if len(ed) == 0 {
		return src, false, nil
	}
	var out bytes.Buffer
	last := 0
	for _, e := range ed {
		out.Write(src[last:e.off])
		out.WriteString(e.s)
		last = e.end
	}
	out.Write(src[last:])
	return out.Bytes(), true, nil
}

// renamePackage changes the package clause.
func renamePackage(src []byte, name string) []byte {
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, "x.go", src, parser.PackageClauseOnly)
	if err != nil {
		return src
	}
	o := fset.Position(f.Name.Pos()).Offset
	return []byte(string(src[:o]) + name + string(src[o+len(f.Name.Name):]))
}

func goCmd(args ...string) *exec.Cmd {
	c := exec.Command("go", args...)
	c.Dir = repoDir
	c.Env = goEnv()
	return c
}

func goEnv() []string {
	env := os.Environ()
	set := func(k, v string) {
		for _, e := range env {
			if strings.HasPrefix(e, k+"=") && len(e) > len(k)+1 {
				return
			}
		}
		env = append(env, k+"="+v)
	}
	set("HOME", "/root")
	force := map[string]string{"GOPROXY": "off", "GOFLAGS": "-mod=mod", "GOTOOLCHAIN": "local", "GO111MODULE": "on", "CGO_ENABLED": "1", "GOWORK": "off", "GONOSUMDB": "*", "GONOSUMCHECK": "1", "GOFLAGS_": ""}
	for k, v := range force {
		env = append(env, k+"="+v)
	}
	return env
}

// buildOverlay writes the rewritten files and the overlay description.
func buildOverlay(scratch string) (*Loaded, error) {
	ld := &Loaded{dir: scratch, files: map[string][]byte{}, harness: map[string]bool{}, pkgs: map[string]*ssa.Package{}}
	add := func(path string, content []byte) { ld.files[path] = content }
	// 1. the repository's own files, with the environment's imports redirected
	err := filepath.Walk(repoDir, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		if fi.IsDir() {
			if fi.Name() == ".git" || fi.Name() == "testdata" {
				return filepath.SkipDir
			}
			return nil
		}
		if !strings.HasSuffix(p, ".go") || strings.HasSuffix(p, "_test.go") {
			return nil
		}
		src, err := os.ReadFile(p)
		if err != nil {
			return err
		}
		rel, _ := filepath.Rel(repoDir, filepath.Dir(p))
		out, changed, err := rewriteImports(src, redirects(rel), nil)
		if err != nil {
			return nil // the type checker reports it
		}
		if changed {
			add(p, out)
		}
		for to, m := range mirrors {
			if m.src != rel {
				continue
			}
			out, _, err := rewriteImports(src, redirects(to), nil)
			if err != nil {
				continue
			}
			out = renamePackage(out, filepath.Base(to))
			out = bytes.ReplaceAll(out, []byte("\n//go:embed"), []byte("\n// go:embed"))
			add(filepath.Join(repoDir, to, "m_"+filepath.Base(p)), out)
		}
		return nil
	})
	if err != nil {
		return nil, err
	}
	// 2. vp, stubs, harnesses
	base := filepath.Join(verifDir, "overlay")
	err = filepath.Walk(base, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		if fi.IsDir() || !strings.HasSuffix(p, ".go") {
			return nil
		}
		rel, _ := filepath.Rel(base, p)
		src, err := os.ReadFile(p)
		if err != nil {
			return err
		}
		harness := strings.HasPrefix(rel, "vpharness/") || strings.HasPrefix(rel, "vpmirror/") || strings.HasPrefix(rel, "inpkg/")
		if harness {
			src, _, err = rewriteImports(src, redirects(strings.TrimPrefix(filepath.Dir(rel), "inpkg/")), nil)
			if err != nil {
				return fmt.Errorf("%s: %v", p, err)
			}
		}
		if strings.HasPrefix(rel, "inpkg/") {
			rel = strings.TrimPrefix(rel, "inpkg/")
		}
		add(filepath.Join(repoDir, rel), src)
		if harness {
			ld.harness[filepath.Join(repoDir, rel)] = true
		}
		return nil
	})
	if err != nil {
		return nil, err
	}
	// 3. third-party code executed from its own source, assembly replaced
	c := goCmd("env", "GOMODCACHE")
	mb, err := c.Output()
	if err != nil {
		return nil, fmt.Errorf("go env: %v", err)
	}
	modcache := strings.TrimSpace(string(mb))
	gomod, err := os.ReadFile(filepath.Join(repoDir, "go.mod"))
	if err != nil {
		return nil, err
	}
	modDir := func(mod string) string {
		for _, l := range strings.Split(string(gomod), "\n") {
			f := strings.Fields(strings.TrimPrefix(strings.TrimSpace(l), "require "))
			if len(f) >= 2 && f[0] == mod {
				return filepath.Join(modcache, escapeMod(mod)+"@"+f[1])
			}
		}
		return ""
	}
	copyFrom := func(mod, file, to string, keep map[string]bool, f func(string) string) error {
		d := modDir(mod)
		if d == "" {
			return nil
		}
		b, err := os.ReadFile(filepath.Join(d, file))
		if err != nil {
			return err
		}
		s := string(b)
		if f != nil {
			s = f(s)
		}
		out, _, err := rewriteImports([]byte(s), redirect, keep)
		if err != nil {
			return err
		}
		add(filepath.Join(repoDir, "vpstub", to), out)
		return nil
	}
	if err := copyFrom("github.com/dkales/dpf-go", "dpf/dpf.go", "dpf/dpf.go", nil, nil); err != nil {
		return nil, err
	}
	if err := copyFrom("github.com/dkales/dpf-go", "dpf/aes.go", "dpf/aes.go", nil, func(s string) string {
		for _, n := range []string{"func xor16(dst, a, b *byte)", "func encryptAes128(xk *uint32, dst, src *byte)", "func aes128MMO(xk *uint32, dst, src *byte)", "func expandKeyAsm(key *byte, enc *uint32)"} {
			s = strings.Replace(s, "\n"+n+"\n", "\n", 1)
		}
		return s
	}); err != nil {
		return nil, err
	}
	if err := copyFrom("github.com/lukechampine/fastxor", "xor.go", "fastxor/xor.go", nil, func(s string) string {
		return strings.Replace(s, "// +build", "// was +build", 1)
	}); err != nil {
		return nil, err
	}
	return ld, nil
}

func escapeMod(m string) string {
	var b strings.Builder
	for _, r := range m {
		if r >= 'A' && r <= 'Z' {
			b.WriteByte('!')
			r += 'a' - 'A'
		}
		b.WriteRune(r)
	}
	return b.String()
}

func (ld *Loaded) writeOverlay(extra map[string][]byte, name string) (string, error) {
	m := map[string]string{}
	put := func(path string, b []byte) error {
		fn := filepath.Join(ld.dir, strings.ReplaceAll(strings.TrimPrefix(path, "/"), "/", "__"))
		if err := os.WriteFile(fn, b, 0o644); err != nil {
			return err
		}
		m[path] = fn
		return nil
	}
	for p, b := range ld.files {
		if err := put(p, b); err != nil {
			return "", err
		}
	}
	for p, b := range extra {
		if err := put(p, b); err != nil {
			return "", err
		}
	}
	js, _ := json.Marshal(map[string]interface{}{"Replace": m})
	fn := filepath.Join(ld.dir, name)
	return fn, os.WriteFile(fn, js, 0o644)
}

// Load builds SSA for the given packages (import paths below the module).
func Load(scratch string, paths []string) (*Loaded, error) {
	ld, err := buildOverlay(scratch)
	if err != nil {
		return nil, err
	}
	cfg := &packages.Config{
		Mode: packages.LoadAllSyntax,
		Dir:  repoDir,
		Env:  goEnv(),
		ParseFile: func(fset *token.FileSet, filename string, src []byte) (*ast.File, error) {
			return parser.ParseFile(fset, filename, src, parser.SkipObjectResolution)
		},
	}
	var initial []*packages.Package
	for try := 0; ; try++ {
		cfg.Overlay = ld.files
		var pats []string
		for _, p := range paths {
			some := !strings.HasPrefix(p, "vpharness/") && !strings.HasPrefix(p, "vpmirror/")
			for f := range ld.files {
				some = some || filepath.Dir(f) == filepath.Join(repoDir, p)
			}
			if some {
				pats = append(pats, modPath+"/"+p)
			}
		}
		pats = append(pats, vpPath, "errors", "time")
		initial, err = packages.Load(cfg, pats...)
		if err != nil {
			return nil, err
		}
		var errs []string
		drop := map[string]bool{}
		packages.Visit(initial, nil, func(p *packages.Package) {
			if !strings.HasPrefix(p.PkgPath, modPath) {
				return
			}
			for _, e := range p.Errors {
				errs = append(errs, e.Error())
				if f := strings.SplitN(e.Pos, ":", 2)[0]; ld.harness[f] {
					drop[f] = true
				}
			}
		})
		if len(errs) == 0 {
			break
		}
		sort.Strings(errs)
		if len(drop) == 0 || try > 3 {
			return nil, fmt.Errorf("the code does not load:\n%s", strings.Join(errs, "\n"))
		}
		// harnesses that do not compile against this tree are left out (and reported)
		for f := range drop {
			delete(ld.files, f)
			ld.dropped = append(ld.dropped, f)
		}
		for _, e := range errs {
			fmt.Fprintln(os.Stderr, "NOTE:", e)
		}
	}
	prog, _ := ssautil.AllPackages(initial, ssa.InstantiateGenerics|ssa.SanityCheckFunctions*0)
	ld.prog = prog
	prog.Build()
	for _, p := range prog.AllPackages() {
		ld.pkgs[p.Pkg.Path()] = p
	}
	return ld, nil
}
