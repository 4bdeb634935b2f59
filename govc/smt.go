package main

import (
	"bufio"
	"fmt"
	"io"
	"os"
	"os/exec"
	"sort"
	"strconv"
	"strings"
	"time"
)

// eras: constraints between allocation eras, emitted when used
type eraInfo struct {
	parent int
	minK   int // top!era >= top!parent + minK
}

var eras = []eraInfo{{-1, 0}}

func newEra(parent, minK int) int {
	eras = append(eras, eraInfo{parent, minK})
	return len(eras) - 1
}

// axiom generators that look at the applications in a query
type appAxiom func(t *Term) []*Term

var fnAxioms = map[string]appAxiom{} // by function name: axioms for one application
var contentFns = map[string]bool{}   // functions whose applications are congruent modulo content (frz_*)

// floating point: operations and constants are named; a query is first tried with the names uninterpreted
var fpConsts = map[string]string{} // name -> definition
var fpConstName = map[string]string{}

func fpConst(srt, def string) *Term {
	n := fpConstName[def]
	if n == "" {
		n = fmt.Sprintf("fc%d_%s", len(fpConstName), srt)
		fpConstName[def] = n
		fpConsts[n] = def
	}
	return mkConst(n, srt, 'o', 0, "")
}

func fpOp(op, ret string, args ...*Term) *Term {
	return raw("fp"+op+args[0].sort, ret, args...)
}

func fpHeader(abstract bool) string {
	var sb strings.Builder
	if abstract {
		sb.WriteString("(declare-sort F64 0)\n(declare-sort F32 0)\n")
	} else {
		sb.WriteString("(define-sort F64 () (_ FloatingPoint 11 53))\n(define-sort F32 () (_ FloatingPoint 8 24))\n")
	}
	for _, srt := range []string{"F64", "F32"} {
		for _, op := range []string{"lt", "leq", "eq"} {
			if abstract {
				fmt.Fprintf(&sb, "(declare-fun fp%s%s (%s %s) Bool)\n", op, srt, srt, srt)
			} else {
				fmt.Fprintf(&sb, "(define-fun fp%s%s ((a %s) (b %s)) Bool (fp.%s a b))\n", op, srt, srt, srt, op)
			}
		}
		if abstract {
			fmt.Fprintf(&sb, "(declare-fun fpneg%s (%s) %s)\n", srt, srt, srt)
		} else {
			fmt.Fprintf(&sb, "(define-fun fpneg%s ((a %s)) %s (fp.neg a))\n", srt, srt, srt)
		}
		var ns []string
		for n := range fpConsts {
			if strings.HasSuffix(n, srt) {
				ns = append(ns, n)
			}
		}
		sort.Strings(ns)
		for _, n := range ns {
			if abstract {
				fmt.Fprintf(&sb, "(declare-const %s %s)\n", n, srt)
			} else {
				fmt.Fprintf(&sb, "(define-fun %s () %s %s)\n", n, srt, fpConsts[n])
			}
		}
		if abstract && len(ns) > 1 {
			fmt.Fprintf(&sb, "(assert (distinct %s))\n", strings.Join(ns, " "))
		}
	}
	return sb.String()
}

type script struct {
	text string
	abs  string // floating point uninterpreted; empty if there is none
	size int
}

func collect(ts []*Term, visit func(*Term)) {
	seen := map[*Term]bool{}
	var rec func(t *Term)
	rec = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		for _, a := range t.args {
			rec(a)
		}
		visit(t)
	}
	for _, t := range ts {
		rec(t)
	}
}

const maxUnfold = 3

// buildScript makes a satisfiability query of the conjunction of the assertions.
func buildScript(asserts []*Term) *script {
	all := append([]*Term{}, asserts...)
	done := map[*Term]bool{}
	gen := map[*Term]int{}
	pairDone := map[[2]int]bool{}
	contentApps := map[string][]*Term{}
	frontier := all
	for round := 0; len(frontier) > 0 && round < 12; round++ {
		var next []*Term
		collect(frontier, func(t *Term) {
			if done[t] || t.bound {
				return
			}
			done[t] = true
			if f := hframes[t]; f != nil {
				ks, _ := elemSort(t.sort)
				_ = ks
				r := boundVar("r", "Int")
				var cs []*Term
				cs = append(cs, tLt(r, f.pos))
				for _, e := range f.exempt {
					cs = append(cs, tNot(tEq(r, e)))
				}
				lhs := raw("select", mustElem(t.sort), t, r)
				rhs := raw("select", mustElem(t.sort), f.old, r)
				next = append(next, tForall([]*Term{r}, tImp(tAnd(cs...), raw("=", "Bool", lhs, rhs)), lhs))
			}
			if t.op == "select" && t.args[0].op == "sym" && strings.HasPrefix(t.args[0].name, "H0_E_P.") && strings.HasPrefix(t.sort, "(Array") {
				// pointers in the memory of the caller point to that memory
				i := boundVar("i", "Int")
				el := raw("select", mustElem(t.sort), t, i)
				next = append(next, tForall([]*Term{i}, raw("<", "Bool", el, allocTerm(0, 0)), el))
			}
			if t.op != "app" && t.op != "sym" {
				if g := opAxiom(t); g != nil {
					next = append(next, g...)
				}
				return
			}
			if ax := fnAxioms[t.name]; ax != nil && gen[t] < maxUnfold {
				for _, n := range ax(t) {
					collect([]*Term{n}, func(u *Term) {
						if !done[u] && u.op == "app" && fnAxioms[u.name] != nil && gen[u] < gen[t]+1 {
							gen[u] = gen[t] + 1
						}
					})
					next = append(next, n)
				}
			}
			if t.op == "app" && contentFns[t.name] {
				for _, o := range contentApps[t.name] {
					k := [2]int{o.id, t.id}
					if !pairDone[k] && len(contentApps[t.name]) < 40 {
						pairDone[k] = true
						next = append(next, contentCongruence(o, t)...)
					}
				}
				contentApps[t.name] = append(contentApps[t.name], t)
			}
		})
		all = append(all, next...)
		frontier = next
	}
	// declarations
	count := map[*Term]int{}
	var order []*Term
	fp := false
	usedSort := map[string]bool{}
	usedEra := map[int]bool{}
	funs := map[string]bool{}
	syms := map[string]string{}
	collect(all, func(t *Term) {
		order = append(order, t)
		usedSort[t.sort] = true
		if t.sort == "F64" || t.sort == "F32" {
			fp = true
		}
		for _, a := range t.args {
			count[a]++
		}
		switch t.op {
		case "sym":
			if !t.bound {
				syms[t.name] = t.sort
			}
		case "app":
			funs[t.name] = true
		case "alloc":
			for e := int(t.ival >> eraShift); e >= 0; e = eras[e].parent {
				usedEra[e] = true
			}
		}
	})
	for _, t := range all {
		count[t]++
	}
	var sb strings.Builder
	var us []string
	for s := range uninterpSorts {
		us = append(us, s)
	}
	sort.Strings(us)
	for _, s := range us {
		fmt.Fprintf(&sb, "(declare-sort %s 0)\n", s)
	}
	var ds []string
	for s := range sortCtors {
		ds = append(ds, s)
	}
	sort.Strings(ds)
	sb.WriteString("(declare-datatypes (")
	for _, s := range ds {
		fmt.Fprintf(&sb, "(%s 0)", s)
	}
	sb.WriteString(") (")
	for _, s := range ds {
		sb.WriteString("(")
		for _, c := range sortCtors[s] {
			ci := ctors[c]
			sb.WriteString("(" + c)
			for i := range ci.sels {
				fmt.Fprintf(&sb, " (%s %s)", ci.sels[i], ci.srts[i])
			}
			sb.WriteString(")")
		}
		sb.WriteString(")")
	}
	sb.WriteString("))\n")
	var names []string
	for n := range syms {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		fmt.Fprintf(&sb, "(declare-const %s %s)\n", n, syms[n])
	}
	names = names[:0]
	for n := range funs {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		d := funDecl[n]
		fmt.Fprintf(&sb, "(declare-fun %s (%s) %s)\n", n, strings.Join(d.args, " "), d.ret)
	}
	var es []int
	for e := range usedEra {
		es = append(es, e)
	}
	sort.Ints(es)
	for _, e := range es {
		fmt.Fprintf(&sb, "(declare-const top!%d Int)\n", e)
		if p := eras[e].parent; p >= 0 {
			fmt.Fprintf(&sb, "(assert (>= top!%d (+ top!%d %d)))\n", e, p, eras[e].minK)
		} else {
			fmt.Fprintf(&sb, "(assert (>= top!%d 1))\n", e)
		}
	}
	named := map[*Term]string{}
	for _, t := range order {
		if t.bound || t.op == "const" || t.op == "sym" || t.op == "alloc" || len(t.args) == 0 {
			continue
		}
		if count[t] > 1 {
			n := "t" + strconv.Itoa(t.id)
			sb.WriteString("(define-fun " + n + " () " + t.sort + " ")
			printTo(&sb, t, named, true)
			sb.WriteString(")\n")
			named[t] = n
		}
	}
	for _, t := range all {
		sb.WriteString("(assert ")
		printTo(&sb, t, named, false)
		sb.WriteString(")\n")
	}
	sc := &script{text: fpHeader(false) + sb.String(), size: len(order)}
	if fp {
		sc.abs = fpHeader(true) + sb.String()
	}
	return sc
}

func mustElem(arr string) string { _, v := elemSort(arr); return v }

// opAxiom gives the facts about built-in terms that the solver does not know.
func opAxiom(t *Term) []*Term {
	if t.op == "sel" && (t.name == "s_len") {
		x := t.args[0]
		if x.op != "ctor" {
			return []*Term{sliceWF(x)}
		}
	}
	return nil
}

func sliceWF(x *Term) *Term {
	ref, off, ln, cp := raw1sel("s_ref", x), raw1sel("s_off", x), raw1sel("s_len", x), raw1sel("s_cap", x)
	return raw("and", "Bool",
		raw("<=", "Bool", mkInt(0), off), raw("<=", "Bool", mkInt(0), ln), raw("<=", "Bool", ln, cp), raw("<=", "Bool", mkInt(0), ref),
		raw("<=", "Bool", cp, mkInt(1<<48)),
		raw("<=", "Bool", off, mkInt(1<<48)),
		raw("=>", "Bool", raw("=", "Bool", ref, mkInt(0)), raw("=", "Bool", cp, mkInt(0))))
}

func raw1sel(sel string, x *Term) *Term { return tSel(sel, x) }

// contentCongruence: applications of a freeze function to equal contents are equal.
func contentCongruence(a, b *Term) []*Term {
	k := fresh("k", "Int", 0)
	_ = k
	switch {
	case strings.HasPrefix(a.name, "frzs"): // (elems, off, len)
		same := tAnd(tEq(a.args[2], b.args[2]))
		for i := 3; i < len(a.args); i++ {
			same = tAnd(same, tEq(a.args[i], b.args[i]))
		}
		ea := tSelect(a.args[0], tAdd(a.args[1], k))
		eb := tSelect(b.args[0], tAdd(b.args[1], k))
		diff := tAnd(tLe(mkInt(0), k), tLt(k, a.args[2]), tNot(tEq(ea, eb)))
		return []*Term{tOr(tEq(a, b), tNot(same), diff)}
	case strings.HasPrefix(a.name, "frzm"): // (dom, vals)
		ks, _ := elemSort(a.args[0].sort)
		k := fresh("k", ks, 0)
		da, db := tSelect(a.args[0], k), tSelect(b.args[0], k)
		diff := tOr(tNot(tEq(da, db)), tAnd(da, tNot(tEq(tSelect(a.args[1], k), tSelect(b.args[1], k)))))
		return []*Term{tOr(tEq(a, b), diff)}
	}
	return nil
}

// --- solver processes

type solverProc struct {
	cmd *exec.Cmd
	in  io.WriteCloser
	out *bufio.Reader
}

func startZ3() *solverProc {
	cmd := exec.Command("z3-new", "-in", "-smt2", "auto_config=false")
	in, err := cmd.StdinPipe()
	if err != nil {
		panic(err)
	}
	out, err := cmd.StdoutPipe()
	if err != nil {
		panic(err)
	}
	cmd.Stderr = os.Stderr
	if err := cmd.Start(); err != nil {
		panic(err)
	}
	return &solverProc{cmd, in, bufio.NewReaderSize(out, 1<<16)}
}

func (p *solverProc) kill() { p.cmd.Process.Kill(); p.cmd.Wait() }

const noMBQI = 1 // no model-based instantiation: gives up where the patterns yield nothing more

func (p *solverProc) check(s *script, timeoutMS int, mode int) (string, error) {
	res := make(chan string, 1)
	go func() {
		fmt.Fprintf(p.in, "(reset)\n(set-option :timeout %d)\n(set-option :smt.mbqi %v)\n", timeoutMS, mode&noMBQI == 0)
		io.WriteString(p.in, s.text)
		io.WriteString(p.in, "(check-sat)\n(echo \"done\")\n")
		var last string
		for {
			line, err := p.out.ReadString('\n')
			if err != nil {
				res <- "error: solver ended"
				return
			}
			line = strings.TrimSpace(line)
			if line == "done" {
				res <- last
				return
			}
			if strings.HasPrefix(line, "(error") && !strings.HasPrefix(last, "error") {
				last = "error: " + line
			} else if !strings.HasPrefix(last, "error") {
				last = line
			}
		}
	}()
	select {
	case r := <-res:
		return r, nil
	case <-time.After(time.Duration(timeoutMS)*time.Millisecond*2 + 3*time.Second):
		p.kill()
		return "timeout", fmt.Errorf("killed")
	}
}

var feasProc *solverProc
var nFeas int
var feasTime time.Duration

// sat3 answers sat / unsat / unknown quickly (used for path pruning and invariants).
func quickCheck(asserts []*Term, timeoutMS int, precise ...bool) string {
	for _, a := range asserts {
		if a == tFalse {
			return "unsat"
		}
	}
	if feasProc == nil {
		feasProc = startZ3()
	}
	nFeas++
	t0 := time.Now()
	if len(precise) > 0 {
		asserts = append(asserts[:len(asserts):len(asserts)], instances(asserts)...)
	}
	s := buildScript(asserts)
	first := s
	if s.abs != "" {
		first = &script{text: s.abs}
	}
	r, err := feasProc.check(first, timeoutMS, noMBQI)
	if r == "unknown" && err == nil && len(precise) > 0 && time.Since(t0) < time.Duration(timeoutMS)*time.Millisecond/2 {
		r, err = feasProc.check(first, timeoutMS, 0)
	}
	if r != "unsat" && err == nil && s.abs != "" && len(precise) > 0 {
		r, err = feasProc.check(s, timeoutMS/3, 0)
	}
	if err != nil {
		feasProc = nil
		r = "unknown"
	}
	feasTime += time.Since(t0)
	if d := os.Getenv("GOVC_DUMPSLOW"); d != "" && time.Since(t0) > 80*time.Millisecond {
		fmt.Fprintf(os.Stderr, "  slow %d %s %v timeout %d precise %v last %.200s\n", nFeas, r, time.Since(t0).Round(time.Millisecond), timeoutMS, len(precise) > 0, asserts[len(asserts)-1])
		os.WriteFile(fmt.Sprintf("%s/slow%d.smt2", d, nFeas), []byte(first.text+"(check-sat)\n"), 0o644)
	}
	if strings.HasPrefix(r, "error") {
		if d := os.Getenv("GOVC_DUMP"); d != "" {
			os.WriteFile(d+"/err.smt2", []byte(s.text), 0o644)
		}
		panic("solver error: " + r)
	}
	return r
}

// prove runs a portfolio on one validity query; returns status and back end.
func proveScript(s *script, timeoutMS int, proc **solverProc) (string, string, time.Duration) {
	t0 := time.Now()
	if *proc == nil {
		*proc = startZ3()
	}
	if s.abs != "" {
		r, err := (*proc).check(&script{text: s.abs}, timeoutMS/2, noMBQI)
		if r == "unknown" && err == nil {
			r, err = (*proc).check(&script{text: s.abs}, timeoutMS/2, 0)
		}
		if err != nil {
			*proc = startZ3()
		}
		if r == "unsat" {
			return r, "z3-5.3.2", time.Since(t0)
		}
	}
	if timeoutMS > 3000 && strings.Contains(s.text, "(forall") && strings.Contains(s.text, "str.") {
		// z3 rarely needs long; cvc5 is good at quantifiers over strings
		r, err := (*proc).check(s, 1500, noMBQI)
		if err != nil {
			*proc = startZ3()
		}
		if r == "unsat" || r == "sat" || strings.HasPrefix(r, "error") {
			return r, "z3-5.3.2", time.Since(t0)
		}
		if r := cvc5Check(s, 4000); r == "unsat" || r == "sat" {
			return r, "cvc5", time.Since(t0)
		}
	}
	r, err := (*proc).check(s, timeoutMS, 0)
	if err != nil {
		*proc = nil
	}
	if r == "unsat" || r == "sat" || strings.HasPrefix(r, "error") {
		return r, "z3-5.3.2", time.Since(t0)
	}
	// fall back
	for _, alt := range [][]string{{"cvc5", "--lang=smt2", "--strings-exp", "--fp-exp", fmt.Sprintf("--tlimit=%d", timeoutMS)}, {"z3", "-smt2", "-in", fmt.Sprintf("-t:%d", timeoutMS)}, {"z3-new", "-smt2", "-in", fmt.Sprintf("-t:%d", 2*timeoutMS), "smt.random_seed=7", "smt.arith.solver=2"}} {
		args := append([]string{}, alt[1:]...)
		cmd := exec.Command(alt[0], args...)
		text := s.text
		if alt[0] == "cvc5" {
			text = "(set-logic ALL)\n" + text
			cmd.Args = append(cmd.Args, "-")
		}
		cmd.Stdin = strings.NewReader(text + "(check-sat)\n")
		done := time.AfterFunc(time.Duration(timeoutMS*2+3000)*time.Millisecond, func() {
			if cmd.Process != nil {
				cmd.Process.Kill()
			}
		})
		out, _ := cmd.Output()
		done.Stop()
		o := strings.TrimSpace(string(out))
		if i := strings.LastIndexByte(o, '\n'); i >= 0 {
			o = o[i+1:]
		}
		if o == "unsat" || o == "sat" {
			return o, alt[0], time.Since(t0)
		}
	}
	return r, "none", time.Since(t0)
}

var cvc5Known = map[string]string{}

// cvc5Check asks cvc5 alone.
func cvc5Check(s *script, timeoutMS int) string {
	if r, ok := cvc5Known[s.text]; ok {
		return r
	}
	cmd := exec.Command("cvc5", "--lang=smt2", "--strings-exp", "--fp-exp", fmt.Sprintf("--tlimit=%d", timeoutMS), "-")
	cmd.Stdin = strings.NewReader("(set-logic ALL)\n" + s.text + "(check-sat)\n")
	done := time.AfterFunc(time.Duration(timeoutMS*2+3000)*time.Millisecond, func() {
		if cmd.Process != nil {
			cmd.Process.Kill()
		}
	})
	t0 := time.Now()
	out, _ := cmd.Output()
	done.Stop()
	feasTime += time.Since(t0)
	o := strings.TrimSpace(string(out))
	if i := strings.LastIndexByte(o, '\n'); i >= 0 {
		o = o[i+1:]
	}
	cvc5Known[s.text] = o
	return o
}
