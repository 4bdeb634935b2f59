package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"go/types"
	"os"
	"os/exec"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

type TargetReport struct {
	Name        string
	Pkg         string
	Props       []string
	Status      string // proved, failed, unsupported, missing
	Why         string
	Paths       int
	Obls        []*Obl
	Trivial     int
	Loops       int
	Invariants  int
	Uses        []string
	Inlined     []string
	WallMS      int64
	FeasN       int
	FeasMS      int64
	Externals   []string
	Models      []string
	Assumptions []string
	Covered     []string
	ExecMS      int64
}

type Report struct {
	Targets []*TargetReport
	Dropped []string
	WallMS  int64
}

func runTarget(p *Program, c *Contract, timeoutMS int) (rep *TargetReport) {
	t0 := time.Now()
	rep = &TargetReport{Name: c.Name, Pkg: c.Pkg, Props: allProps(c)}
	p.assumptions, p.externals, p.modelsUsed = map[string]bool{}, map[string]bool{}, map[string]bool{}
	nf, ft := nFeas, feasTime
	x := &Exec{P: p, cur: c, covers: map[string]bool{}, assumes: map[string]bool{}, unfolded: map[string]bool{}, axFacts: map[string][]*Term{}, axioms: map[string]*Term{}, maxSteps: 3000000}
	x.globals = globalCells
	if c.MaxSteps > 0 {
		x.maxSteps = c.MaxSteps
	}
	defer func() {
		rep.WallMS = time.Since(t0).Milliseconds()
		rep.FeasN = nFeas - nf
		rep.FeasMS = (feasTime - ft).Milliseconds()
		rep.Trivial = c.trivial
		rep.Loops, rep.Invariants = c.Loops, c.Invariants
		rep.Uses = keys(c.Uses)
		rep.Inlined = keys(c.InlinedFns)
		rep.Externals, rep.Models, rep.Assumptions = keys(p.externals), keys(p.modelsUsed), keys(p.assumptions)
		rep.Covered = keys(x.covers)
	}()
	if c.Missing != "" {
		rep.Status, rep.Why = "missing", c.Missing
		return rep
	}
	func() {
		defer func() {
			if r := recover(); r != nil {
				if u, ok := r.(unsupported); ok {
					rep.Status, rep.Why = "unsupported", u.msg
					if debugStack {
						fmt.Fprintln(os.Stderr, string(debug_Stack()))
					}
					return
				}
				rep.Status, rep.Why = "unsupported", fmt.Sprintf("internal: %v\n%s", r, debug_Stack())
			}
		}()
		st := newState()
		st.assume(raw("<=", "Bool", mkInt(1), allocTerm(0, 0)))
		var args []Val
		c.params = map[string]Val{}
		for _, pa := range c.Wrapper.Params {
			t := symbol("p_"+pa.Name(), sortOf(pa.Type()), 0)
			st.assume(wellFormed(pa.Type(), t))
			switch pa.Type().Underlying().(type) {
			case *types.Pointer, *types.Map:
				st.assume(raw("<", "Bool", t, allocTerm(0, 0)))
			case *types.Slice:
				if t.sort == "Slice" {
					st.assume(raw("<", "Bool", tSel("s_ref", t), allocTerm(0, 0)))
				}
			}
			args = append(args, t)
			c.params[pa.Name()] = t
		}
		x.callFn(nil, c.Wrapper, args, nil, st, func(st *State, _ Val) {
			rep.Paths++
			if rep.Paths == 1 || len(x.lastPC) == 0 {
				x.lastPC = st.pc
			}
		})
	}()
	rep.ExecMS = time.Since(t0).Milliseconds()
	rep.Obls = x.obls
	if rep.Status != "" {
		return rep
	}
	if rep.Paths == 0 {
		rep.Status, rep.Why = "failed", "vacuous: no path reaches the end of the contract"
		return rep
	}
	if c.Fn != nil && x.calledTarget == 0 {
		rep.Status, rep.Why = "failed", "vacuous: the contract never calls the function"
		return rep
	}
	if quickCheck(x.lastPC, 3000) == "unsat" {
		rep.Status, rep.Why = "failed", "vacuous: contradictory assumptions"
		return rep
	}
	rep.Status = "proved"
	var proc *solverProc
	done := map[string]*Obl{}
	tlimit := time.Now().Add(time.Duration(*targetBudget) * time.Second)
	nfail := 0
	for _, o := range x.obls {
		if o.cond == tTrue {
			o.Status, o.Solver = "proved", "simplifier"
			continue
		}
		var sb strings.Builder
		fmt.Fprintf(&sb, "%d", o.cond.id)
		for _, a := range o.pc {
			fmt.Fprintf(&sb, ",%d", a.id)
		}
		if d := done[sb.String()]; d != nil {
			o.Status, o.Solver = d.Status, d.Solver
			continue
		}
		done[sb.String()] = o
		t1 := time.Now()
		if time.Now().After(tlimit) || nfail >= 4 {
			o.Status = "undecided"
		} else {
			as := append(append([]*Term{}, o.pc...), tNot(o.cond))
			s := buildScript(append(as, instances(as)...))
			r, solver, _ := proveScript(s, timeoutMS, &proc)
			o.Solver = solver
			switch r {
			case "unsat":
				o.Status = "proved"
			case "sat":
				o.Status = "failed"
			default:
				o.Status = "undecided"
			}
			if o.Status != "proved" && *dumpDir != "" {
				o.Query = filepath.Join(*dumpDir, fmt.Sprintf("%s_%d.smt2", sanitize(c.Name), len(done)))
				os.WriteFile(o.Query, []byte(s.text+"(check-sat)\n(get-model)\n"), 0o644)
			}
		}
		o.MS = time.Since(t1).Milliseconds()
		if o.Status != "proved" {
			nfail++
			rep.Status = "failed"
			if rep.Why == "" {
				rep.Why = fmt.Sprintf("%s: %s (%s)", o.Kind, o.Label, o.Pos)
			}
		}
	}
	if proc != nil {
		proc.kill()
	}
	return rep
}

var globalCells = map[*ssa.Global]*Cell{}

func debug_Stack() []byte { return debug.Stack() }

func allProps(c *Contract) []string {
	m := map[string]bool{}
	for _, l := range [][]string{c.Props, c.FrameProps, c.SafetyProps} {
		for _, p := range l {
			if p != "" {
				m[p] = true
			}
		}
	}
	return keys(m)
}

func keys(m map[string]bool) []string {
	out := []string{}
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

var (
	repoDir      = flag.String("repo", "/repo", "repository")
	contractsDir = flag.String("contracts", "/verif/contracts", "contracts")
	targetsFlag  = flag.String("targets", "", "comma separated contract names")
	propFlag     = flag.String("prop", "", "only contracts serving this property")
	jsonOut      = flag.String("json", "", "write the report here")
	worker       = flag.Bool("worker", false, "internal")
	jobs         = flag.Int("j", 8, "parallel workers")
	timeout      = flag.Int("timeout", 8000, "solver timeout per obligation, ms")
	dumpDir      = flag.String("dump", "", "dump failed queries here")
	verbose      = flag.Bool("v", false, "verbose")
	targetBudget = flag.Int("budget", 240, "seconds per contract")
	totalBudget  = flag.Int("total", 0, "seconds for the whole run, 0 for no limit")
	emitDir      = flag.String("emit", "", "write the executable form of the contracts here")
	nativeDir    = flag.String("native", "/verif/native", "hand-written oracles")
	symbolsOut   = flag.String("symbols", "", "write the table of names of the repository and stop")
	onlyPkgs     = flag.String("pkgs", "", "packages")
	debugStack   = os.Getenv("GOVC_STACK") != ""
)

func main() {
	flag.Parse()
	debug.SetMaxStack(4 << 30)
	if *worker {
		workerMain()
		return
	}
	if *symbolsOut != "" {
		if err := writeSymbols(*repoDir, *symbolsOut); err != nil {
			fmt.Fprintln(os.Stderr, "govc:", err)
			os.Exit(3)
		}
		return
	}
	t0 := time.Now()
	var only []string
	if *onlyPkgs != "" {
		only = strings.Split(*onlyPkgs, ",")
	}
	p, err := load(*repoDir, *contractsDir, only)
	if err != nil {
		fmt.Fprintln(os.Stderr, "govc:", err)
		os.Exit(3)
	}
	if *emitDir != "" {
		if err := emit(p, *nativeDir, *emitDir); err != nil {
			fmt.Fprintln(os.Stderr, "govc: emit:", err)
			os.Exit(3)
		}
		if *targetsFlag == "none" {
			return
		}
	}
	want := map[string]bool{}
	if *targetsFlag != "" {
		for _, t := range strings.Split(*targetsFlag, ",") {
			want[t] = true
		}
	}
	var list []*Contract
	for _, c := range p.Targets {
		if len(want) > 0 && !want[c.Name] {
			continue
		}
		if *propFlag != "" && !containsStr(allProps(c), *propFlag) {
			continue
		}
		list = append(list, c)
	}
	rep := &Report{Dropped: p.Dropped}
	if *jobs <= 1 {
		for _, c := range list {
			rep.Targets = append(rep.Targets, runTarget(p, c, *timeout))
		}
	} else {
		ch := make(chan string)
		var mu sync.Mutex
		var wg sync.WaitGroup
		self, _ := os.Executable()
		for i := 0; i < *jobs && i < len(list); i++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				var cmd *exec.Cmd
				var enc *json.Encoder
				var dec *json.Decoder
				var errb bytes.Buffer
				start := func() {
					cmd = exec.Command(self, "-worker", "-repo", *repoDir, "-contracts", *contractsDir, "-pkgs", *onlyPkgs, fmt.Sprintf("-timeout=%d", *timeout), fmt.Sprintf("-budget=%d", *targetBudget), "-dump", *dumpDir)
					in, _ := cmd.StdinPipe()
					out, _ := cmd.StdoutPipe()
					cmd.Stderr = &errb
					if dbg {
						cmd.Stderr = os.Stderr
					}
					if err := cmd.Start(); err != nil {
						panic(err)
					}
					enc, dec = json.NewEncoder(in), json.NewDecoder(out)
				}
				for name := range ch {
					limit := time.Duration(*targetBudget+60) * time.Second
					if *totalBudget > 0 {
						left := time.Duration(*totalBudget)*time.Second - time.Since(t0)
						if left < limit {
							limit = left
						}
					}
					var r TargetReport
					var err error
					if limit < 3*time.Second {
						err = fmt.Errorf("no time left")
					} else {
						if cmd == nil {
							start()
						}
						enc.Encode(name)
						pr := cmd.Process
						kill := time.AfterFunc(limit, func() { pr.Kill() })
						err = dec.Decode(&r)
						kill.Stop()
					}
					if err != nil {
						r = TargetReport{Name: name, Status: "unsupported", Why: "worker ended: " + err.Error() + tail(errb.String())}
						for _, c := range list {
							if c.Name == name {
								r.Props, r.Pkg = allProps(c), c.Pkg
							}
						}
						if cmd != nil {
							cmd.Process.Kill()
							cmd.Wait()
							cmd = nil
						}
					}
					mu.Lock()
					rep.Targets = append(rep.Targets, &r)
					mu.Unlock()
				}
				if cmd != nil {
					cmd.Process.Kill()
					cmd.Wait()
				}
			}()
		}
		for _, c := range list {
			ch <- c.Name
		}
		close(ch)
		wg.Wait()
		sort.Slice(rep.Targets, func(i, j int) bool { return rep.Targets[i].Name < rep.Targets[j].Name })
	}
	rep.WallMS = time.Since(t0).Milliseconds()
	if *jsonOut != "" {
		b, _ := json.MarshalIndent(rep, "", " ")
		os.WriteFile(*jsonOut, b, 0o644)
	}
	for _, d := range rep.Dropped {
		fmt.Println("DROPPED", d)
	}
	for _, t := range rep.Targets {
		n, ok := 0, 0
		for _, o := range t.Obls {
			n++
			if o.Status == "proved" {
				ok++
			}
		}
		fmt.Printf("%-12s %-50s obl %d/%d +%d paths %d loops %d inv %d feas %d/%dms exec %dms wall %dms %s\n", t.Status, t.Name, ok, n, t.Trivial, t.Paths, t.Loops, t.Invariants, t.FeasN, t.FeasMS, t.ExecMS, t.WallMS, t.Why)
		if *verbose {
			for _, o := range t.Obls {
				if o.Status != "proved" || os.Getenv("GOVC_ALL") != "" {
					fmt.Printf("    %-10s %s %q %s %s %dms %s\n", o.Status, o.Kind, o.Label, o.Pos, o.Solver, o.MS, o.Query)
				}
			}
		}
	}
}

func tail(s string) string {
	if len(s) > 1500 {
		return s[:1500]
	}
	return s
}

func containsStr(l []string, s string) bool {
	for _, x := range l {
		if x == s {
			return true
		}
	}
	return false
}

func workerMain() {
	var only []string
	if *onlyPkgs != "" {
		only = strings.Split(*onlyPkgs, ",")
	}
	p, err := load(*repoDir, *contractsDir, only)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	dec := json.NewDecoder(os.Stdin)
	enc := json.NewEncoder(os.Stdout)
	for {
		var name string
		if err := dec.Decode(&name); err != nil {
			return
		}
		for _, c := range p.Targets {
			if c.Name == name {
				enc.Encode(runTarget(p, c, *timeout))
			}
		}
	}
}
