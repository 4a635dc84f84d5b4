package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/format"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

var dbgw io.Writer = io.Discard

const modPath = "github.com/nareix/joy5"

type Harness struct {
	Name   string
	Dir    string // repo-relative package dir
	File   string
	Opts   map[string]string
	Covers []string
	fn     *ssa.Function
	Title  string
}

type Violation struct {
	Kind, Msg string
	Harness   string
	Inputs    []Input
	Replay    string
	Status    string // reproduced / not reproduced / known
	Native    string
}

type Engine struct {
	repo, verif string
	tmp         string
	prog        *ssa.Program
	pkgs        map[string]*ssa.Package
	thorough    bool
	noMerge     bool
	verbose     bool
	maxPreempt  int
	fifo        bool

	errStringType types.Type
	errorType     types.Type

	mu      sync.Mutex
	cond    *sync.Cond
	stack   []*Task
	busy    int
	stopped bool
	cover   map[*ssa.Function]bool
	coverMu sync.RWMutex
	viol    map[string]*Violation
	notes   map[string]int

	mcache sync.Map
	curH   *Harness
}

func (e *Engine) note(s string) {
	e.mu.Lock()
	e.notes[s]++
	e.mu.Unlock()
}

func (e *Engine) coverFn(f *ssa.Function) {
	e.coverMu.RLock()
	ok := e.cover[f]
	e.coverMu.RUnlock()
	if !ok {
		e.coverMu.Lock()
		e.cover[f] = true
		e.coverMu.Unlock()
	}
}

func (e *Engine) push(t *Task) {
	e.mu.Lock()
	e.stack = append(e.stack, t)
	e.mu.Unlock()
	e.cond.Signal()
}

func (e *Engine) addViolation(kind, msg string, in []Input) {
	e.mu.Lock()
	defer e.mu.Unlock()
	k := kind + "|" + msg
	if _, ok := e.viol[k]; ok {
		return
	}
	if len(e.viol) > 40 {
		return
	}
	e.viol[k] = &Violation{Kind: kind, Msg: msg, Harness: e.curH.Name, Inputs: in}
}

type mkey struct {
	t types.Type
	m string
}

func (e *Engine) method(t types.Type, m *types.Func) *ssa.Function {
	return e.methodIn(t, m.Pkg(), m.Name())
}

func (e *Engine) methodIn(t types.Type, pkg *types.Package, name string) *ssa.Function {
	pp := ""
	if pkg != nil {
		pp = pkg.Path()
	}
	k := mkey{t, pp + "." + name}
	if v, ok := e.mcache.Load(k); ok {
		return v.(*ssa.Function)
	}
	compileMu.Lock()
	defer compileMu.Unlock()
	sel := e.prog.MethodSets.MethodSet(t).Lookup(pkg, name)
	var f *ssa.Function
	if sel != nil {
		f = e.prog.MethodValue(sel)
	}
	e.mcache.Store(k, f)
	return f
}

func (e *Engine) methodByName(t types.Type, name string) *ssa.Function {
	return e.methodIn(t, nil, name)
}

func (e *Engine) lookup(pkg, fn string) *ssa.Function {
	p := e.pkgs[pkg]
	if p == nil {
		panic(pathEnd{endUnsupported, "package not loaded: " + pkg})
	}
	f := p.Func(fn)
	if f == nil {
		panic(pathEnd{endUnsupported, "no function " + pkg + "." + fn})
	}
	return f
}

func (e *Engine) namedType(pkg, name string) types.Type {
	p := e.pkgs[pkg]
	if p == nil {
		panic(pathEnd{endUnsupported, "package not loaded: " + pkg})
	}
	return p.Type(name).Type()
}

// ---- harness discovery

func scanHarness(dir string, only *regexp.Regexp) (hs []*Harness, overlayFiles map[string]string, errs []string) {
	overlayFiles = map[string]string{} // repo-relative -> verif path
	id := filepath.Base(dir)
	fs, _ := filepath.Glob(filepath.Join(dir, "*.go"))
	sort.Strings(fs)
	for _, f := range fs {
		src, err := os.ReadFile(f)
		if err != nil {
			errs = append(errs, err.Error())
			continue
		}
		fset := token.NewFileSet()
		af, err := parser.ParseFile(fset, f, src, parser.ParseComments)
		if err != nil {
			errs = append(errs, err.Error())
			continue
		}
		base := strings.TrimSuffix(filepath.Base(f), ".go")
		pdir := "zzvf/h_" + strings.ToLower(id) + "_" + base
		for _, cg := range af.Comments {
			for _, c := range cg.List {
				if s, ok := strings.CutPrefix(c.Text, "//vf:dir "); ok {
					pdir = strings.TrimSpace(s)
				}
			}
		}
		overlayFiles[filepath.Join(pdir, "zz_vf_"+strings.ToLower(id)+"_"+base+".go")] = f
		for _, d := range af.Decls {
			fd, ok := d.(*ast.FuncDecl)
			if !ok || !strings.HasPrefix(fd.Name.Name, "VF_") {
				continue
			}
			h := &Harness{Name: fd.Name.Name, Dir: pdir, File: f, Opts: map[string]string{}}
			if fd.Doc != nil {
				for _, c := range fd.Doc.List {
					if s, ok := strings.CutPrefix(c.Text, "//vf:"); ok {
						k, v, _ := strings.Cut(s, " ")
						h.Opts[k] = strings.TrimSpace(v)
					} else if s, ok := strings.CutPrefix(c.Text, "// "); ok && h.Title == "" {
						h.Title = s
					}
				}
			}
			ast.Inspect(fd, func(n ast.Node) bool {
				if c, ok := n.(*ast.CallExpr); ok {
					if s, ok := c.Fun.(*ast.SelectorExpr); ok && s.Sel.Name == "Cover" && len(c.Args) == 1 {
						if l, ok := c.Args[0].(*ast.BasicLit); ok {
							if v, err := strconv.Unquote(l.Value); err == nil {
								h.Covers = append(h.Covers, v)
							}
						}
					}
				}
				return true
			})
			if only == nil || only.MatchString(h.Name) {
				hs = append(hs, h)
			}
		}
	}
	return
}

func goCache() string {
	if c := os.Getenv("GOCACHE"); c != "" {
		return c
	}
	if h := os.Getenv("HOME"); h != "" {
		return filepath.Join(h, ".cache", "go-build")
	}
	return "/tmp/gocache"
}

func goEnv() []string {
	env := os.Environ()
	return append(env, "GOTOOLCHAIN=local", "GOPROXY=off", "GOSUMDB=off", "GOWORK=off", "GOFLAGS=-mod=mod", "GOENV=off", "CGO_ENABLED=0", "GOCACHE="+goCache())
}

func (e *Engine) overlayMap(files map[string]string) map[string]string {
	m := map[string]string{}
	m[filepath.Join(e.repo, "zzvf", "vf.go")] = filepath.Join(e.verif, "vf", "vf.go")
	libs, _ := filepath.Glob(filepath.Join(e.verif, "harness", "lib", "*.go"))
	for _, l := range libs {
		m[filepath.Join(e.repo, "zzvf", "lib", filepath.Base(l))] = l
	}
	used := map[string]bool{}
	for r, v := range files {
		m[filepath.Join(e.repo, r)] = v
		if b, err := os.ReadFile(v); err == nil {
			for l := range stdHooks {
				used[l] = used[l] || strings.Contains(string(b), "/zzvf/lib/"+l+"\"")
			}
		}
	}
	for l, u := range used {
		if !u {
			continue
		}
		libs, _ := filepath.Glob(filepath.Join(e.verif, "harness", "lib", l, "*.go"))
		for _, f := range libs {
			m[filepath.Join(e.repo, "zzvf", "lib", l, filepath.Base(f))] = f
		}
		e.hooks(m, l)
	}
	return m
}

// hooks lets harnesses stand in for the network and the files, in the
// standard library of both the engine and the replays.
var stdHooks = map[string]map[string]struct {
	decl string
	ins  [][2]string
}{
	"dial": {
		"net/dial.go": {"var ZZDial func(network, address string) (Conn, error)\nvar ZZListen func(network, address string) (Listener, error)\n", [][2]string{
			{"func (d *Dialer) DialContext(ctx context.Context, network, address string) (Conn, error) {\n", "\tif ZZDial != nil {\n\t\treturn ZZDial(network, address)\n\t}\n"},
			{"func Listen(network, address string) (Listener, error) {\n", "\tif ZZListen != nil {\n\t\treturn ZZListen(network, address)\n\t}\n"},
		}},
	},
	"vfs": {
		"os/file.go": {"type ZZFile interface {\n\tRead(b []byte) (int, error)\n\tWrite(b []byte) (int, error)\n\tSeek(offset int64, whence int) (int64, error)\n\tClose() error\n}\n\nvar ZZOpen func(name string, flag int) (ZZFile, error)\nvar zzFiles map[*File]ZZFile\n", [][2]string{
			{"func OpenFile(name string, flag int, perm FileMode) (*File, error) {\n", "\tif ZZOpen != nil {\n\t\tz, err := ZZOpen(name, flag)\n\t\tif err != nil {\n\t\t\treturn nil, &PathError{Op: \"open\", Path: name, Err: err}\n\t\t}\n\t\tf := &File{}\n\t\tif zzFiles == nil {\n\t\t\tzzFiles = map[*File]ZZFile{}\n\t\t}\n\t\tzzFiles[f] = z\n\t\treturn f, nil\n\t}\n"},
			{"func (f *File) Read(b []byte) (n int, err error) {\n", "\tif z := zzFiles[f]; z != nil {\n\t\treturn z.Read(b)\n\t}\n"},
			{"func (f *File) Write(b []byte) (n int, err error) {\n", "\tif z := zzFiles[f]; z != nil {\n\t\treturn z.Write(b)\n\t}\n"},
			{"func (f *File) Seek(offset int64, whence int) (ret int64, err error) {\n", "\tif z := zzFiles[f]; z != nil {\n\t\treturn z.Seek(offset, whence)\n\t}\n"},
		}},
		"os/file_posix.go": {"", [][2]string{
			{"func (f *File) Close() error {\n", "\tif z := zzFiles[f]; z != nil {\n\t\treturn z.Close()\n\t}\n"},
		}},
		"net/http/client.go": {"var ZZGet func(url string) (*Response, error)\n", [][2]string{
			{"func Get(url string) (resp *Response, err error) {\n", "\tif ZZGet != nil {\n\t\treturn ZZGet(url)\n\t}\n"},
		}},
	},
}

func (e *Engine) hooks(m map[string]string, lib string) {
	out, err := exec.Command("go", "env", "GOROOT").Output()
	if err != nil {
		return
	}
	for name, h := range stdHooks[lib] {
		f := filepath.Join(strings.TrimSpace(string(out)), "src", name)
		b, err := os.ReadFile(f)
		if err != nil {
			continue
		}
		s := string(b)
		for _, h := range h.ins {
			s = strings.Replace(s, h[0], h[0]+h[1], 1)
		}
		g := filepath.Join(e.tmp, lib+"_"+strings.ReplaceAll(name, "/", "_"))
		if os.WriteFile(g, []byte(s+"\n"+h.decl), 0644) == nil {
			m[f] = g
		}
	}
}

func (e *Engine) load(files map[string]string, dirs []string) []string {
	ov := map[string][]byte{}
	for r, v := range e.overlayMap(files) {
		b, err := os.ReadFile(v)
		if err != nil {
			return []string{err.Error()}
		}
		ov[r] = b
	}
	cfg := &packages.Config{
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports | packages.NeedDeps |
			packages.NeedTypes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedTypesSizes | packages.NeedModule,
		Dir: e.repo, Env: goEnv(), Overlay: ov,
	}
	var pats []string
	for _, d := range dirs {
		pats = append(pats, "./"+d)
	}
	pats = append(pats, "./zzvf", "errors", "unicode/utf8", "sync")
	pk, err := packages.Load(cfg, pats...)
	if err != nil {
		return []string{"load: " + err.Error()}
	}
	var errs []string
	bad := map[string]bool{}
	packages.Visit(pk, nil, func(p *packages.Package) {
		for _, er := range p.Errors {
			errs = append(errs, er.Error())
			bad[p.PkgPath] = true
		}
	})
	prog, _ := ssautil.AllPackages(pk, ssa.InstantiateGenerics)
	e.prog = prog
	e.pkgs = map[string]*ssa.Package{}
	for _, p := range prog.AllPackages() {
		e.pkgs[p.Pkg.Path()] = p
		if strings.HasPrefix(p.Pkg.Path(), modPath) && !bad[p.Pkg.Path()] {
			p.Build()
		}
	}
	if p := e.pkgs["errors"]; p != nil {
		e.errStringType = types.NewPointer(p.Type("errorString").Type())
	}
	e.errorType = types.Universe.Lookup("error").Type()
	return errs
}

// ---- exploration

type HResult struct {
	Name        string          `json:"name"`
	Title       string          `json:"what,omitempty"`
	Paths       int             `json:"paths_completed"`
	Assumed     int             `json:"paths_cut_by_assumption"`
	ViolPaths   int             `json:"paths_violating"`
	Unsupported map[string]int  `json:"unsupported,omitempty"`
	Incomplete  map[string]int  `json:"incomplete,omitempty"`
	Steps       int64           `json:"ssa_instructions"`
	Branches    int64           `json:"symbolic_branches"`
	Obligations int             `json:"assertions_checked"`
	Queries     int             `json:"solver_queries"`
	Sat         int             `json:"sat"`
	Unsat       int             `json:"unsat"`
	Unknown     int             `json:"unknown"`
	CacheHits   int             `json:"cache_hits"`
	Ints        int             `json:"integer_queries"`
	IntsOK      int             `json:"integer_queries_decided"`
	Hard        int             `json:"hard_queries"`
	IntTime     float64         `json:"integer_time_s"`
	SolverS     float64         `json:"solver_s"`
	MaxQueryS   float64         `json:"max_query_s"`
	WallS       float64         `json:"wall_s"`
	Exhaustive  bool            `json:"exhaustive_within_bounds"`
	Covers      map[string]bool `json:"reachability_witnesses"`
	Missing     []string        `json:"missing_witnesses,omitempty"`
	Validated   int             `json:"paths_replayed_natively"`
	Mismatch    []string        `json:"native_mismatches,omitempty"`
	Inputs      int             `json:"max_symbolic_inputs"`
	samples     []sample
	stuck       []sample
	seen        int
}

type sample struct {
	msg    string
	inputs []Input
	obs    []string
	covers []string
}

func (e *Engine) obsStrings(in *Interp) []string {
	var r []string
	for _, o := range in.obs {
		if o.w == 64 {
			r = append(r, fmt.Sprintf("%s=%x", o.name, in.eval(in.term(o.vals[0], 64))))
		} else {
			s := o.name + "="
			for _, v := range o.vals {
				s += fmt.Sprintf("%02x", in.eval(in.term(v, 8)))
			}
			r = append(r, s)
		}
	}
	return r
}

func (e *Engine) explore(h *Harness, budget time.Duration, workers int) *HResult {
	e.curH = h
	e.viol = map[string]*Violation{}
	e.stack = []*Task{{}}
	e.busy = 0
	e.stopped = false
	e.maxPreempt = 2
	e.fifo = h.Opts["sched"] == "fifo"
	if s := h.Opts["preempt"]; s != "" {
		e.maxPreempt, _ = strconv.Atoi(s)
	}
	if s := h.Opts["tpreempt"]; s != "" && e.thorough {
		e.maxPreempt, _ = strconv.Atoi(s)
	}
	maxSteps := 3000000
	if s := h.Opts["steps"]; s != "" {
		maxSteps, _ = strconv.Atoi(s)
	}
	maxPaths := 1 << 30
	if s := h.Opts["maxpaths"]; s != "" {
		maxPaths, _ = strconv.Atoi(s)
	}
	_, hang := h.Opts["hang"]
	res := &HResult{Name: h.Name, Title: h.Title, Unsupported: map[string]int{}, Incomplete: map[string]int{}, Covers: map[string]bool{}}
	for _, c := range h.Covers {
		res.Covers[c] = false
	}
	t0 := time.Now()
	deadline := t0.Add(budget)
	var rmu sync.Mutex
	var wg sync.WaitGroup
	var firstViol time.Time
	worker := func() {
		defer wg.Done()
		in := &Interp{eng: e}
		in.reset()
		collect := func() {
			s := in.sol.st
			rmu.Lock()
			res.Queries += s.Queries
			res.Sat += s.SatN
			res.Unsat += s.UnsatN
			res.Unknown += s.UnknownN
			res.CacheHits += s.CacheHits
			res.Ints += s.Ints
			res.IntsOK += s.IntsOK
			res.Hard += s.Hard
			res.IntTime += s.IntTime.Seconds()
			res.SolverS += s.Time.Seconds()
			if s.MaxTime.Seconds() > res.MaxQueryS {
				res.MaxQueryS = s.MaxTime.Seconds()
			}
			rmu.Unlock()
			in.sol.Close()
		}
		defer func() { collect() }()
		for {
			e.mu.Lock()
			for len(e.stack) == 0 && e.busy > 0 && !e.stopped {
				e.cond.Wait()
			}
			if e.stopped || len(e.stack) == 0 {
				e.mu.Unlock()
				e.cond.Broadcast()
				return
			}
			t := e.stack[len(e.stack)-1]
			e.stack = e.stack[:len(e.stack)-1]
			e.busy++
			nv := len(e.viol)
			e.mu.Unlock()

			in.maxSteps = maxSteps
			in.obligations = 0
			in.incompl = map[string]int{}
			in.beginPath(t)
			end := in.runPath(h.fn, hang)
			if end.kind == endOK {
				for _, c := range in.pc {
					if in.eval(c) != 1 {
						end = pathEnd{endUnsupported, "engine: model does not satisfy the path condition"}
						break
					}
				}
			}
			rmu.Lock()
			res.Steps += int64(in.steps)
			res.Obligations += in.obligations
			if in.decs != nil {
				res.Branches += int64(in.decs.n - len(in.prefix))
			}
			for k, v := range in.incompl {
				res.Incomplete[k] += v
			}
			if len(in.inputs) > res.Inputs {
				res.Inputs = len(in.inputs)
			}
			switch end.kind {
			case endOK:
				res.Paths++
				res.seen++
				// reservoir of samples for native validation, spread over the run
				if res.seen&(res.seen-1) == 0 || res.seen%97 == 0 && len(res.samples) < 64 {
					func() {
						defer func() { recover() }()
						s := sample{obs: e.obsStrings(in)}
						for c := range in.covers {
							s.covers = append(s.covers, c)
						}
						for _, x := range in.inputs {
							x.Val = in.eval(x.t)
							x.t = nil
							s.inputs = append(s.inputs, x)
						}
						if in.side["uf"] == nil {
							res.samples = append(res.samples, s)
						}
					}()
				}
			case endAssume:
				res.Assumed++
			case endViolation:
				res.ViolPaths++
			case endSteps, endUnsupported, endUnknown:
				res.Unsupported[end.msg]++
				// where the engine cannot go on, the native run does
				if res.Unsupported[end.msg] <= 3 && len(res.stuck) < 12 {
					func() {
						defer func() { recover() }()
						s := sample{msg: end.msg}
						for _, x := range in.inputs {
							x.Val = in.eval(x.t)
							x.t = nil
							s.inputs = append(s.inputs, x)
						}
						res.stuck = append(res.stuck, s)
					}()
				}
			}
			for c := range in.covers {
				res.Covers[c] = true
			}
			np := res.Paths + res.Assumed + res.ViolPaths
			rmu.Unlock()
			in.endPath()
			if len(in.tt.tab) > 3000000 || in.sol.fast != nil && in.sol.st.Queries%20000 == 19999 {
				st := in.sol.st
				in.sol.Close()
				old := in
				in = &Interp{eng: e}
				in.reset()
				in.sol.st = st
				_ = old
			}
			e.mu.Lock()
			e.busy--
			if nv > 0 && firstViol.IsZero() {
				firstViol = time.Now()
			}
			now := time.Now()
			if now.After(deadline) || np >= maxPaths || (!firstViol.IsZero() && now.Sub(firstViol) > 15*time.Second && len(e.viol) > 0) {
				if len(e.stack) > 0 || e.busy > 0 {
					e.stopped = true
				}
			}
			e.mu.Unlock()
			e.cond.Broadcast()
		}
	}
	for i := 0; i < workers; i++ {
		wg.Add(1)
		go worker()
	}
	wg.Wait()
	res.WallS = time.Since(t0).Seconds()
	res.Exhaustive = !e.stopped && len(res.Unsupported) == 0 && len(res.Incomplete) == 0
	if e.stopped {
		res.Incomplete[fmt.Sprintf("stopped with %d pending paths (time/path budget)", len(e.stack))]++
	}
	for c, ok := range res.Covers {
		if !ok {
			res.Missing = append(res.Missing, c)
		}
	}
	sort.Strings(res.Missing)
	return res
}

func (in *Interp) reset() {
	in.tt = NewTermTab()
	in.sol = NewSolver(in.tt)
	in.globals = map[*ssa.Global]*Obj{}
	in.inited = map[*ssa.Package]bool{}
	in.epoch = 0
	in.cur = &G{}
}

func (in *Interp) runPath(fn *ssa.Function, hang bool) (end pathEnd) {
	defer func() {
		r := recover()
		if len(in.gs) > 1 {
			in.killAll()
		}
		in.spec = 0
		switch x := r.(type) {
		case nil:
			return
		case pathEnd:
			end = x
			if x.kind == endSteps {
				if hang {
					in.reportViolation("hang", x.msg, in.model)
					end = pathEnd{endViolation, x.msg}
				}
			}
		case *goPanic:
			if x.goexit {
				return
			}
			in.reportViolation("panic", x.msg+" in "+x.where, in.model)
			if in.eng.verbose {
				fmt.Fprintln(os.Stderr, "  panic:", x.msg, "stack:", x.stack)
			}
			end = pathEnd{endViolation, x.msg}
		default:
			if in.eng.verbose {
				fmt.Fprintln(os.Stderr, "engine crash:", r, in.stack())
				debug.PrintStack()
			}
			end = pathEnd{endUnsupported, fmt.Sprintf("engine: %v at %s", r, in.stack())}
		}
	}()
	in.callFn(nil, fn, nil, nil, nil)
	return pathEnd{endOK, ""}
}

// ---- native replay

type replayer struct {
	e     *Engine
	files map[string]string
	hs    []*Harness
	tmp   string
	bins  map[string]string
	errs  map[string]string
}

// bin builds the test binary of a directory; its code and that of the
// directories in jitter is interspersed with random delays.
func (r *replayer) bin(dir, jitter string) (string, error) {
	if b, ok := r.bins[dir+"|"+jitter]; ok {
		if b == "" {
			return "", fmt.Errorf("%s", r.errs[dir+"|"+jitter])
		}
		return b, nil
	}
	// registry test file
	pkgName := filepath.Base(dir)
	var reg strings.Builder
	for _, h := range r.hs {
		if h.Dir == dir {
			fset := token.NewFileSet()
			if af, err := parser.ParseFile(fset, h.File, nil, parser.PackageClauseOnly); err == nil {
				pkgName = af.Name.Name
			}
			fmt.Fprintf(&reg, "\t\t%q: %s,\n", h.Name, h.Name)
		}
	}
	imp, set := "", ""
	for _, h := range r.hs {
		if _, ok := h.Opts["bubble"]; ok && h.Dir == dir {
			imp = "\t\"testing/synctest\"\n"
			set = "\tvfmain.Bubble = func(f func()) { synctest.Test(t, func(*testing.T) { f() }) }\n"
		}
	}
	src := fmt.Sprintf("package %s\n\nimport (\n\t\"testing\"\n"+imp+"\tvfmain %q\n)\n\nfunc TestVFReplay(t *testing.T) {\n"+set+"\tvfmain.Main(map[string]func(){\n%s\t})\n}\n", pkgName, vfPath, reg.String())
	n := len(r.bins)
	tf := filepath.Join(r.tmp, fmt.Sprintf("reg%d_test.go", n))
	os.WriteFile(tf, []byte(src), 0644)
	m := r.e.overlayMap(r.files)
	m[filepath.Join(r.e.repo, dir, "zz_vf_reg_test.go")] = tf
	// existing tests of the package are not needed in the replay binary
	old, _ := filepath.Glob(filepath.Join(r.e.repo, dir, "*_test.go"))
	for _, o := range old {
		m[o] = ""
	}
	for i, d := range strings.Fields(jitter) {
		fs, _ := filepath.Glob(filepath.Join(r.e.repo, d, "*.go"))
		for k := range m {
			if _, err := os.Stat(k); err != nil && filepath.Dir(k) == filepath.Join(r.e.repo, d) {
				fs = append(fs, k)
			}
		}
		for k, f := range fs {
			if strings.HasSuffix(f, "_test.go") {
				continue
			}
			src := f
			if v, ok := m[f]; ok {
				src = v
			}
			if b, ok := jittered(src); ok {
				jf := filepath.Join(r.tmp, fmt.Sprintf("jitter%d_%d_%d.go", n, i, k))
				os.WriteFile(jf, b, 0644)
				m[f] = jf
			}
		}
	}
	ov, _ := json.Marshal(map[string]any{"Replace": m})
	of := filepath.Join(r.tmp, fmt.Sprintf("ov%d.json", n))
	os.WriteFile(of, ov, 0644)
	out := filepath.Join(r.tmp, fmt.Sprintf("replay%d.test", n))
	cmd := exec.Command("go", "test", "-c", "-vet=off", "-overlay", of, "-o", out, "./"+dir)
	cmd.Dir = r.e.repo
	cmd.Env = goEnv()
	b, err := cmd.CombinedOutput()
	if err != nil {
		r.bins[dir+"|"+jitter] = ""
		r.errs[dir+"|"+jitter] = string(b)
		return "", fmt.Errorf("%s", b)
	}
	r.bins[dir+"|"+jitter] = out
	return out, nil
}

type ReplayFile struct {
	Harness  string  `json:"harness"`
	Kind     string  `json:"kind"`
	Msg      string  `json:"msg"`
	Thorough bool    `json:"thorough"`
	Inputs   []Input `json:"inputs"`
	Retry    int     `json:"retry,omitempty"`
	Bubble   bool    `json:"bubble,omitempty"`
	Lax      bool    `json:"lax,omitempty"`
}

type Outcome struct {
	Kind   string   `json:"kind"`
	Msg    string   `json:"msg"`
	Obs    []string `json:"obs"`
	Covers []string `json:"covers"`
}

// jittered puts a call of vf.Jitter before every statement of a file.
func jittered(f string) ([]byte, bool) {
	fset := token.NewFileSet()
	af, err := parser.ParseFile(fset, f, nil, 0)
	if err != nil {
		return nil, false
	}
	call := func() ast.Stmt {
		return &ast.ExprStmt{X: &ast.CallExpr{Fun: &ast.SelectorExpr{X: ast.NewIdent("zzvfjitter"), Sel: ast.NewIdent("Jitter")}}}
	}
	found := false
	mix := func(l []ast.Stmt) (r []ast.Stmt) {
		for _, st := range l {
			found = true
			r = append(r, call(), st)
		}
		return
	}
	ast.Inspect(af, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.BlockStmt:
			if len(n.List) > 0 {
				switch n.List[0].(type) {
				case *ast.CaseClause, *ast.CommClause:
					return true
				}
			}
			n.List = mix(n.List)
		case *ast.CaseClause:
			n.Body = mix(n.Body)
		case *ast.CommClause:
			n.Body = mix(n.Body)
		}
		return true
	})
	if !found {
		return nil, false
	}
	var b bytes.Buffer
	if err := format.Node(&b, fset, af); err != nil {
		return nil, false
	}
	// the import goes after the package clause
	src := b.String()
	k := strings.Index(src, "package ")
	i := k + strings.Index(src[k:], "\n") + 1
	return []byte(src[:i] + "\nimport zzvfjitter \"" + vfPath + "\"\n" + src[i:]), true
}

func (r *replayer) run(dir, jitter string, rfs []ReplayFile) ([]Outcome, error) {
	bin, err := r.bin(dir, jitter)
	if err != nil {
		return nil, err
	}
	f := filepath.Join(r.tmp, "in.json")
	o := filepath.Join(r.tmp, "out.json")
	os.Remove(o)
	b, _ := json.Marshal(rfs)
	os.WriteFile(f, b, 0644)
	wd := filepath.Join(r.tmp, "wd")
	os.MkdirAll(wd, 0755)
	cmd := exec.Command("timeout", "-s", "KILL", "120", bin, "-test.run", "TestVFReplay")
	cmd.Dir = wd
	cmd.Env = append(os.Environ(), "VF_REPLAY="+f, "VF_OUT="+o, "GOMEMLIMIT=2GiB", "TMPDIR="+wd)
	cmd.Env = append(cmd.Env, "GOTRACEBACK=single")
	out, rerr := cmd.CombinedOutput()
	ob, _ := os.ReadFile(o)
	var res []Outcome
	json.Unmarshal(ob, &res)
	if len(res) < len(rfs) {
		// the process died (fatal error, OOM, uncaught panic in a goroutine)
		msg := string(out)
		if len(msg) > 600 {
			msg = msg[:600]
		}
		res = append(res, Outcome{Kind: "crash", Msg: fmt.Sprintf("%v: %s", rerr, msg)})
	}
	return res, nil
}

// reproduced decides whether a native outcome confirms the violation.
func reproduced(v *Violation, o Outcome) bool {
	switch v.Kind {
	case "assert":
		return o.Kind == "assert" && o.Msg == v.Msg
	case "panic":
		return o.Kind == "panic" || o.Kind == "crash"
	case "hang":
		return o.Kind == "hang"
	case "alloc":
		return o.Kind == "alloc" || o.Kind == "crash" || o.Kind == "panic"
	case "deadlock":
		return o.Kind == "hang" || o.Kind == "crash"
	}
	return false
}
