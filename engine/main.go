package main

import (
	"bufio"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"regexp"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

type known struct {
	prop, harness string
	re            *regexp.Regexp
	text          string
}

// KNOWN_FINDINGS lines: known: property=<id> harness=<name> match=/<regexp>/ <what fails>
func readKnown(path, prop string) []known {
	f, err := os.Open(path)
	if err != nil {
		return nil
	}
	defer f.Close()
	var r []known
	re := regexp.MustCompile(`^known: property=(\S+) harness=(\S+) match=/(.*?)/ (.*)$`)
	sc := bufio.NewScanner(f)
	for sc.Scan() {
		if m := re.FindStringSubmatch(sc.Text()); m != nil && m[1] == prop {
			r = append(r, known{m[1], m[2], regexp.MustCompile(m[3]), m[4]})
		}
	}
	return r
}

func main() {
	prop := flag.String("prop", "", "property id")
	repo := flag.String("repo", "/repo", "")
	verif := flag.String("verif", "/verif", "")
	only := flag.String("h", "", "harness regexp")
	verbose := flag.Bool("v", false, "")
	tier := flag.String("tier", os.Getenv("VERIF_TIER"), "")
	workers := flag.Int("j", 8, "")
	noMerge := flag.Bool("nomerge", false, "")
	total := flag.Duration("budget", 0, "")
	noReplay := flag.Bool("noreplay", false, "")
	slow := flag.String("slow", "", "dir for slow queries")
	flag.Parse()
	debug.SetMaxStack(4 << 30)
	start := time.Now()
	if *tier == "" {
		*tier = "quick"
	}
	if *verbose {
		dbgw = os.Stderr
	}
	slowDir = *slow
	e := &Engine{repo: *repo, verif: *verif, thorough: *tier == "thorough", verbose: *verbose, noMerge: *noMerge,
		cover: map[*ssa.Function]bool{}, notes: map[string]int{}}
	e.cond = sync.NewCond(&e.mu)
	var re *regexp.Regexp
	if *only != "" {
		re = regexp.MustCompile(*only)
	}
	hs, files, errs := scanHarness(filepath.Join(*verif, "harness", *prop), re)
	dirset := map[string]bool{}
	var dirs []string
	for f := range files {
		d := filepath.Dir(f)
		if !dirset[d] {
			dirset[d] = true
			dirs = append(dirs, d)
		}
	}
	sort.Strings(dirs)
	tmp, err := os.MkdirTemp("", "symgo")
	if err != nil {
		fmt.Println("NOTE:", err)
		os.Exit(2)
	}
	cleanup := func() { os.RemoveAll(tmp) }
	defer cleanup()
	e.tmp = tmp
	errs = append(errs, e.load(files, dirs)...)
	for _, x := range errs {
		fmt.Println("NOTE: load:", x)
	}
	loadS := time.Since(start).Seconds()
	rp := &replayer{e: e, files: files, hs: hs, tmp: tmp, bins: map[string]string{}, errs: map[string]string{}}
	budget := 300 * time.Second
	if e.thorough {
		budget = 800 * time.Second
	}
	if *total > 0 {
		budget = *total
	}
	kn := readKnown(filepath.Join(*verif, "KNOWN_FINDINGS"), *prop)
	var results []*HResult
	var viols []*Violation
	knownHit := map[string]bool{}
	var unrepro []string
	notRun := []string{}
	for hi, h := range hs {
		p := e.pkgs[modPath+"/"+h.Dir]
		if p == nil || p.Func(h.Name) == nil {
			notRun = append(notRun, h.Name+": package did not load")
			continue
		}
		h.fn = p.Func(h.Name)
		left := budget - time.Since(start)
		b := left / time.Duration(len(hs)-hi)
		if b < 5*time.Second {
			b = 5 * time.Second
		}
		// a harness may use at most half of what remains
		if b2 := left / 2; b2 > b {
			b = b2
		}
		opt := "time"
		if e.thorough {
			opt = "ttime"
		}
		if s := h.Opts[opt]; s != "" {
			if n, err := strconv.Atoi(s); err == nil && time.Duration(n)*time.Second < b {
				b = time.Duration(n) * time.Second
			}
		}
		res := e.explore(h, b, *workers)
		results = append(results, res)
		fmt.Printf("%s: paths=%d assumed=%d viol=%d steps=%d queries=%d (sat %d unsat %d unk %d) solver=%.1fs wall=%.1fs exhaustive=%v\n", h.Name, res.Paths, res.Assumed, res.ViolPaths, res.Steps, res.Queries, res.Sat, res.Unsat, res.Unknown, res.SolverS, res.WallS, res.Exhaustive)
		if res.Hard+res.Ints > 0 {
			fmt.Printf("  hard queries %d, as integers %d (decided %d, %.1fs)\n", res.Hard, res.Ints, res.IntsOK, res.IntTime)
		}
		for k, v := range res.Unsupported {
			fmt.Printf("  NOTE unsupported x%d: %s\n", v, k)
		}
		for k, v := range res.Incomplete {
			fmt.Printf("  NOTE reduced bound x%d: %s\n", v, k)
		}
		for _, m := range res.Missing {
			fmt.Printf("  NOTE witness not reached: %s\n", m)
		}
		if *noReplay {
			for _, v := range e.viol {
				fmt.Printf("  candidate %s: %s  %s\n", v.Kind, v.Msg, inputStr(v.Inputs))
			}
			continue
		}
		// violations
		keys := make([]string, 0, len(e.viol))
		for k := range e.viol {
			keys = append(keys, k)
		}
		sort.Strings(keys)
		got := 0
		found := func(v *Violation, rf ReplayFile, out Outcome) {
			v.Native = out.Kind + ": " + out.Msg
			for _, q := range kn {
				if q.harness == h.Name && q.re.MatchString(v.Kind+": "+v.Msg) {
					if !knownHit[q.text] {
						knownHit[q.text] = true
						fmt.Printf("KNOWN-FINDING: property=%s %s\n", *prop, q.text)
					}
					return
				}
			}
			got++
			rd := filepath.Join(*verif, "evidence", "replay")
			os.MkdirAll(rd, 0755)
			rpth := filepath.Join(rd, fmt.Sprintf("%s_%s_%d.json", *prop, h.Name, got))
			b, _ := json.MarshalIndent(rf, "", " ")
			os.WriteFile(rpth, b, 0644)
			v.Replay = rpth
			viols = append(viols, v)
			fmt.Printf("  counterexample %s: %s | native %s | %s\n", v.Kind, v.Msg, v.Native, inputStr(v.Inputs))
			fmt.Printf("VIOLATION property=%s replay=%s\n", *prop, rpth)
		}
		for _, k := range keys {
			v := e.viol[k]
			if got >= 6 {
				break
			}
			rf := ReplayFile{Harness: h.Name, Kind: v.Kind, Msg: v.Msg, Thorough: e.thorough, Inputs: v.Inputs}
			_, rf.Bubble = h.Opts["bubble"]
			// the option names the directories whose code is delayed at random
			jitter, sched := h.Opts["jitter"]
			if sched {
				rf.Retry = 1 << 20
			}
			rep := false
			var out Outcome
			list := []ReplayFile{rf}
			os_, err := rp.run(h.Dir, jitter, list)
			if err != nil {
				unrepro = append(unrepro, h.Name+": replay build failed: "+err.Error())
				fmt.Printf("  NOTE replay build failed: %v\n", err)
				break
			}
			for _, o := range os_ {
				out = o
				if reproduced(v, o) {
					rep = true
					break
				}
			}
			if !rep {
				unrepro = append(unrepro, fmt.Sprintf("%s: %s %s (native: %s %s)", h.Name, v.Kind, v.Msg, out.Kind, out.Msg))
				fmt.Printf("  NOTE counterexample did not reproduce natively: %s %q native=%s %q inputs=%s\n", v.Kind, v.Msg, out.Kind, out.Msg, inputStr(v.Inputs))
				continue
			}
			found(v, rf, out)
		}
		// paths the engine could not follow to their end go on natively, from the
		// inputs the solver gave them
		for _, x := range res.stuck {
			if got > 0 {
				break
			}
			rf := ReplayFile{Harness: h.Name, Thorough: e.thorough, Inputs: x.inputs, Lax: true}
			_, rf.Bubble = h.Opts["bubble"]
			os_, err := rp.run(h.Dir, "", []ReplayFile{rf})
			if err != nil || len(os_) == 0 {
				break
			}
			switch o := os_[0]; o.Kind {
			case "assert", "panic", "crash", "alloc", "hang":
				found(&Violation{Kind: o.Kind, Msg: o.Msg, Harness: h.Name, Inputs: x.inputs}, rf, o)
			}
		}
		// native validation of explored paths
		if len(e.viol) == 0 && len(res.samples) > 0 && h.Opts["novalidate"] == "" {
			var rfs []ReplayFile
			for _, s := range res.samples {
				rf := ReplayFile{Harness: h.Name, Thorough: e.thorough, Inputs: s.inputs}
				_, rf.Bubble = h.Opts["bubble"]
				rfs = append(rfs, rf)
			}
			outs, err := rp.run(h.Dir, "", rfs)
			if err != nil {
				fmt.Printf("  NOTE native validation build failed: %v\n", err)
			}
			for i, o := range outs {
				if i >= len(res.samples) {
					break
				}
				s := res.samples[i]
				if o.Kind == "ok" && strings.Join(o.Obs, ";") == strings.Join(s.obs, ";") {
					res.Validated++
				} else {
					m := fmt.Sprintf("native=%s %s obs=%v engine obs=%v inputs=%s", o.Kind, o.Msg, o.Obs, s.obs, inputStr(s.inputs))
					if len(m) > 1500 {
						m = m[:1500]
					}
					res.Mismatch = append(res.Mismatch, m)
					fmt.Println("  NOTE engine/native mismatch:", m)
				}
			}
		}
		if len(viols) > 0 && !*verbose {
			break
		}
	}
	for _, n := range notRun {
		fmt.Println("NOTE not run:", n)
	}
	if *verbose {
		var ns []string
		for k, v := range e.notes {
			ns = append(ns, fmt.Sprintf("  init note x%d %s", v, k))
		}
		sort.Strings(ns)
		for _, n := range ns {
			fmt.Println(n)
		}
	}
	writeEvidence(e, *prop, *tier, results, viols, unrepro, notRun, knownHit, loadS, time.Since(start).Seconds(), hs)
	cleanup()
	if len(viols) > 0 {
		os.Exit(1)
	}
	if len(results) == 0 {
		fmt.Printf("%s: no harness could be run, nothing decided\n", *prop)
		os.Exit(2)
	}
	fmt.Printf("%s: held on everything explored (%.1fs)\n", *prop, time.Since(start).Seconds())
}

func inputStr(in []Input) string {
	var sb strings.Builder
	for i, x := range in {
		if i > 0 {
			sb.WriteByte(' ')
		}
		if i > 80 {
			sb.WriteString("...")
			break
		}
		fmt.Fprintf(&sb, "%s=%x", x.Name, x.Val)
	}
	return sb.String()
}

func writeEvidence(e *Engine, prop, tier string, rs []*HResult, vs []*Violation, unrepro, notRun []string, kn map[string]bool, loadS, wall float64, hs []*Harness) {
	var fns []string
	for f := range e.cover {
		if f.Pkg != nil && strings.HasPrefix(f.Pkg.Pkg.Path(), modPath) && !strings.Contains(f.Pkg.Pkg.Path(), "/zzvf") && !strings.HasPrefix(f.Name(), "VF_") {
			fns = append(fns, shortFn(f))
		}
	}
	sort.Strings(fns)
	std := len(e.cover) - len(fns)
	states, trans, q, sat, uns, unk, val, obl := 0, int64(0), 0, 0, 0, 0, 0, 0
	ss := 0.0
	exh := len(notRun) == 0 && len(rs) == len(hs)
	var samples []string
	for _, r := range rs {
		states += r.Paths + r.Assumed + r.ViolPaths
		trans += r.Steps
		q += r.Queries
		sat += r.Sat
		uns += r.Unsat
		unk += r.Unknown
		val += r.Validated
		obl += r.Obligations
		ss += r.SolverS
		exh = exh && r.Exhaustive
		for i, s := range r.samples {
			if i < 3 {
				samples = append(samples, r.Name+": "+inputStr(s.inputs)+" => "+strings.Join(s.obs, " "))
			}
		}
	}
	for _, v := range vs {
		samples = append(samples, "VIOLATION "+v.Harness+" "+v.Kind+" "+v.Msg+": "+inputStr(v.Inputs))
	}
	if len(samples) == 0 {
		samples = []string{"no completed path"}
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	var bounds []string
	for _, h := range hs {
		if b := h.Opts["bound"]; b != "" {
			bounds = append(bounds, h.Name+": "+b)
		}
	}
	var knl []string
	for k := range kn {
		knl = append(knl, k)
	}
	ev := map[string]any{
		"property": prop, "tier": tier, "seed": seed, "level": "model_checking", "wall_s": wall, "violations": len(vs),
		"coverage": map[string]any{
			"states": states, "transitions": trans, "traces_validated_against_impl": val, "samples": samples,
			"states_meaning":        "symbolic paths explored to their end (each stands for every input satisfying its path condition); transitions = SSA instructions executed symbolically",
			"exhaustive":            exh,
			"functions_encoded":     fns,
			"std_functions_encoded": std,
			"bounds":                bounds,
			"assertions_checked":    obl,
			"solver":                "z3 (" + z3bin + ")",
			"solver_queries":        q, "solver_sat": sat, "solver_unsat": uns, "solver_unknown": unk, "solver_s": ss,
			"load_s":                       loadS,
			"harnesses":                    rs,
			"unreproduced_counterexamples": unrepro,
			"harnesses_not_run":            notRun,
			"known_findings_hit":           knl,
		},
		"assumptions": []string{
			"Go SSA (x/tools go/ssa) represents the compiled program; the symbolic executor's semantics are validated by replaying sampled paths natively",
			"standard library executed from its SSA source except the modelled functions listed in DESIGN.md",
			"claims hold within the stated bounds only",
		},
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(e.verif, "evidence"), 0755)
	os.WriteFile(filepath.Join(e.verif, "evidence", prop+".json"), b, 0644)
}
