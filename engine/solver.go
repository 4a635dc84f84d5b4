package main

import (
	"bufio"
	"fmt"
	"io"
	"os"
	"os/exec"
	"sort"
	"strconv"
	"strings"
	"time"
)

type Res int

const (
	Unsat Res = iota
	Sat
	Unknown
)

type SolverStats struct {
	Queries, SatN, UnsatN, UnknownN, CacheHits int
	Time                                       time.Duration
	MaxTime                                    time.Duration
	Errors                                     int
	Hard                                       int
	Ints, IntsOK                               int
	IntTime                                    time.Duration
}

type proc struct {
	cmd   *exec.Cmd
	in    io.WriteCloser
	lines chan string
}

type Solver struct {
	tt      *TermTab
	fast    *proc // incremental, short timeout
	full    *proc // reset per query, tactic-based
	ints    *proc // reset per query, integer arithmetic
	st      SolverStats
	cmd     string // how to check
	cache   map[string]cacheEnt
	timeout time.Duration
}

type cacheEnt struct {
	r Res
	m map[int32]uint64
}

var z3bin = "z3-new"
var slowDir string

const intTimeout = 15 * time.Second

const lgAll = "(set-logic ALL)\n"

func NewSolver(tt *TermTab) *Solver {
	return &Solver{tt: tt, cmd: "(check-sat)", cache: map[string]cacheEnt{}, timeout: 20 * time.Second}
}

func startProc() *proc {
	p := &proc{}
	p.cmd = exec.Command(z3bin, "-in", "-smt2", "-memory:3000")
	p.in, _ = p.cmd.StdinPipe()
	o, _ := p.cmd.StdoutPipe()
	p.cmd.Stderr = p.cmd.Stdout
	if err := p.cmd.Start(); err != nil {
		panic(err)
	}
	ch := make(chan string, 64)
	p.lines = ch
	rd := bufio.NewReaderSize(o, 1<<16)
	go func() {
		for {
			l, err := rd.ReadString('\n')
			if l != "" {
				ch <- strings.TrimSpace(l)
			}
			if err != nil {
				close(ch)
				return
			}
		}
	}()
	return p
}

func (p *proc) close() {
	if p != nil {
		p.in.Close()
		p.cmd.Process.Kill()
		go func() {
			for range p.lines {
			}
		}()
		p.cmd.Wait()
	}
}

func (s *Solver) Close() {
	s.fast.close()
	s.full.close()
	s.ints.close()
	s.fast, s.full, s.ints = nil, nil, nil
}

// Slice returns constraints of pc transitively sharing variables with cond.
func slicePC(pc []*Term, conds []*Term) []*Term {
	vs := map[int32]bool{}
	for _, c := range conds {
		for _, v := range c.vars {
			vs[v] = true
		}
	}
	used := make([]bool, len(pc))
	for changed := true; changed; {
		changed = false
		for i, p := range pc {
			if used[i] {
				continue
			}
			hit := false
			for _, v := range p.vars {
				if vs[v] {
					hit = true
					break
				}
			}
			if hit {
				used[i] = true
				for _, v := range p.vars {
					if !vs[v] {
						vs[v] = true
						changed = true
					}
				}
			}
		}
	}
	var r []*Term
	for i := range pc {
		if used[i] {
			r = append(r, pc[i])
		}
	}
	return r
}

// Check decides satisfiability of the conjunction.
func (s *Solver) Check(cs []*Term) (Res, map[int32]uint64) {
	ids := make([]int, 0, len(cs))
	seen := map[int32]bool{}
	var list []*Term
	for _, c := range cs {
		if c.isC() {
			if c.k == 0 {
				return Unsat, nil
			}
			continue
		}
		if seen[c.id] {
			continue
		}
		seen[c.id] = true
		list = append(list, c)
		ids = append(ids, int(c.id))
	}
	if len(list) == 0 {
		return Sat, nil
	}
	sort.Ints(ids)
	var kb strings.Builder
	for _, i := range ids {
		kb.WriteString(strconv.Itoa(i))
		kb.WriteByte(',')
	}
	key := kb.String()
	if e, ok := s.cache[key]; ok {
		s.st.CacheHits++
		return e.r, e.m
	}
	// print
	var sb strings.Builder
	vars := map[int32]bool{}
	for _, c := range list {
		for _, v := range c.vars {
			vars[v] = true
		}
	}
	vl := make([]int, 0, len(vars))
	for v := range vars {
		vl = append(vl, int(v))
	}
	sort.Ints(vl)
	fpUsed := false
	hard, wide := 0, 0
	for _, v := range vl {
		fmt.Fprintf(&sb, "(declare-const v%d %s)\n", v, sortName(s.tt.vars[v].w))
	}
	printed := map[int32]bool{}
	name := func(t *Term) string {
		if l := leafName(t); l != "" {
			return l
		}
		return "t" + strconv.Itoa(int(t.id))
	}
	var emit func(t *Term)
	emit = func(t *Term) {
		if t.op == OConst || t.op == OVar || printed[t.id] {
			return
		}
		printed[t.id] = true
		switch {
		case t.op >= OFAdd:
			fpUsed = true
		case t.w > 32 && (t.op == OUDiv || t.op == OSDiv || t.op == OURem || t.op == OSRem || t.op == OMul):
			hard++
		case t.w > 32 && (t.op == OAdd || t.op == OSub):
			wide++
		}
		for _, x := range []*Term{t.a, t.b, t.c} {
			if x != nil {
				emit(x)
			}
		}
		fmt.Fprintf(&sb, "(define-fun t%d () %s %s)\n", t.id, sortName(t.w), t.body(name))
	}
	for _, c := range list {
		emit(c)
		fmt.Fprintf(&sb, "(assert %s)\n", name(c))
	}
	body := sb.String()
	t0 := time.Now()
	r, m := Unknown, map[int32]uint64(nil)
	ints := func(to time.Duration) {
		q, ok := intQuery(s.tt, list, vl)
		if !ok {
			return
		}
		s.st.Ints++
		t := time.Now()
		// the old arithmetic solver is best at most of them, this tactic at
		// the rest
		opt := ""
		if to > time.Second {
			s.cmd = "(check-sat-using qflia)"
		} else {
			opt = "(set-option :smt.arith.solver 2)\n"
		}
		ri, mi := s.run(&s.ints, fmt.Sprintf("(reset)\n(set-option :timeout %d)\n", to.Milliseconds())+opt+q, "", vl, to)
		s.cmd = "(check-sat)"
		s.st.IntTime += time.Since(t)
		if slowDir != "" && ri == Unknown {
			os.WriteFile(fmt.Sprintf("%s/i%d.smt2", slowDir, time.Now().UnixNano()), []byte(lgAll+q+"(check-sat)\n"), 0644)
		}
		if ri == Sat && !s.holds(list, mi) {
			ri = Unknown
		}
		if ri != Unknown {
			r, m = ri, mi
			s.st.IntsOK++
		}
	}
	tried := false
	if !fpUsed && (hard > 2 || wide > 5) {
		tried = true
		ints(time.Second)
	}
	if r == Unknown {
		r, m = s.run(&s.fast, "(push)\n"+body, "(pop)\n", vl, 400*time.Millisecond)
	}
	if r == Unknown && !fpUsed && (hard > 0 || wide > 0) {
		if tried {
			ints(intTimeout)
		} else {
			ints(2 * time.Second)
		}
	}
	if r == Unknown {
		lg := "(set-logic QF_BV)\n"
		if fpUsed {
			lg = ""
		}
		s.st.Hard++
		r, m = s.run(&s.full, fmt.Sprintf("(reset)\n(set-option :timeout %d)\n", s.timeout.Milliseconds())+lg+body, "", vl, s.timeout)
	}
	d := time.Since(t0)
	s.st.Time += d
	if d > s.st.MaxTime {
		s.st.MaxTime = d
	}
	if d > 2*time.Second {
		fmt.Fprintf(dbgw, "slow query %.1fs res=%d size=%d\n", d.Seconds(), r, len(body))
		if slowDir != "" {
			os.WriteFile(fmt.Sprintf("%s/q%d.smt2", slowDir, time.Now().UnixNano()), []byte(lgAll+body+"(check-sat)\n"), 0644)
		}
	}
	s.st.Queries++
	switch r {
	case Sat:
		s.st.SatN++
	case Unsat:
		s.st.UnsatN++
	default:
		s.st.UnknownN++
	}
	if len(s.cache) > 200000 {
		s.cache = map[string]cacheEnt{}
	}
	s.cache[key] = cacheEnt{r, m}
	return r, m
}

func (p *proc) readUntilDone(timeout time.Duration) ([]string, bool) {
	var ls []string
	tm := time.NewTimer(timeout + 10*time.Second)
	defer tm.Stop()
	for {
		select {
		case l, ok := <-p.lines:
			if !ok {
				return ls, false
			}
			if l == "done" || l == "\"done\"" {
				return ls, true
			}
			ls = append(ls, l)
		case <-tm.C:
			return ls, false
		}
	}
}

func (s *Solver) run(pp **proc, q, end string, vl []int, timeout time.Duration) (Res, map[int32]uint64) {
	if *pp == nil {
		*pp = startProc()
		io.WriteString((*pp).in, fmt.Sprintf("(set-option :timeout %d)\n", timeout.Milliseconds()))
	}
	p := *pp
	fail := func() (Res, map[int32]uint64) {
		s.st.Errors++
		p.close()
		*pp = nil
		return Unknown, nil
	}
	if _, err := io.WriteString(p.in, q+s.cmd+"\n(echo \"done\")\n"); err != nil {
		return fail()
	}
	ls, ok := p.readUntilDone(timeout)
	if !ok {
		return fail()
	}
	r := Unknown
	for _, l := range ls {
		if strings.HasPrefix(l, "(error") {
			fmt.Fprintln(dbgw, "solver error:", l)
			return fail()
		}
	}
	if len(ls) > 0 {
		switch ls[0] {
		case "sat":
			r = Sat
		case "unsat":
			r = Unsat
		}
	}
	m := map[int32]uint64{}
	if r != Sat || len(vl) == 0 {
		io.WriteString(p.in, end)
		return r, m
	}
	var sb strings.Builder
	sb.WriteString("(get-value (")
	for _, v := range vl {
		fmt.Fprintf(&sb, "v%d ", v)
	}
	sb.WriteString("))\n" + end + "(echo \"done\")\n")
	io.WriteString(p.in, sb.String())
	ls, ok = p.readUntilDone(timeout)
	if !ok {
		return fail()
	}
	txt := strings.Join(ls, " ")
	if strings.Contains(txt, "(error") {
		return fail()
	}
	txt = strings.NewReplacer("(", " ", ")", " ").Replace(txt)
	f := strings.Fields(txt)
	for i := 0; i+1 < len(f); i += 2 {
		n, err := strconv.Atoi(f[i][1:])
		if err != nil {
			return fail()
		}
		v := f[i+1]
		neg := v == "-" && i+2 < len(f)
		if neg {
			i++
			v = f[i+1]
		}
		var x uint64
		switch {
		case v == "true":
			x = 1
		case v == "false":
			x = 0
		case strings.HasPrefix(v, "#x"):
			x, _ = strconv.ParseUint(v[2:], 16, 64)
		case strings.HasPrefix(v, "#b"):
			x, _ = strconv.ParseUint(v[2:], 2, 64)
		case v[0] >= '0' && v[0] <= '9':
			x, _ = strconv.ParseUint(v, 10, 64)
		default:
			return fail()
		}
		if neg { // an integer for a signed value
			x = -x
		}
		if w := s.tt.vars[n].w; w > 0 {
			x &= mask(w)
		}
		m[int32(n)] = x
	}
	return Sat, m
}

// holds reports that the model satisfies the constraints.
func (s *Solver) holds(list []*Term, m map[int32]uint64) bool {
	md := make(Model, len(s.tt.vars))
	for v, x := range m {
		md[v] = x
	}
	s.tt.gen++
	ok := true
	for _, c := range list {
		ok = ok && s.tt.Eval(c, md) == 1
	}
	s.tt.gen++
	return ok
}
