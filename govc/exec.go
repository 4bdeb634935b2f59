package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// State is the symbolic state of one path.
type State struct {
	pc     []*Term
	facts  map[*Term]int // assumed facts (not branch conditions): 1 universal, 2 on this path
	pcset  map[*Term]bool
	cells  map[*Cell]Val
	heaps  map[string]*Term
	iters  map[int]*Term
	era, k int
	frozen map[*Term]bool // references whose content was passed on
	fcells map[*Cell]bool
	writes []writeRec
	epochs map[string]int // writes to older memory, by kind of memory
	newer  map[string]int // writes to unknown objects made during the call, by the position they were made at or after and kind of memory
	events *Term
	mods   []*Term // objects the function may modify
	panicV *Term
	recov  bool
}

type writeRec struct {
	heap string
	hs   string
	ref  *Term
	cell *Cell
	iter int
}

func newState() *State {
	return &State{facts: map[*Term]int{}, pcset: map[*Term]bool{}, cells: map[*Cell]Val{}, heaps: map[string]*Term{}, iters: map[int]*Term{}, frozen: map[*Term]bool{}, epochs: map[string]int{}, newer: map[string]int{}, fcells: map[*Cell]bool{}, events: symbol("noev", "Ev", 0)}
}

func (s *State) clone() *State {
	n := *s
	n.pc = s.pc[:len(s.pc):len(s.pc)]
	n.writes = s.writes[:len(s.writes):len(s.writes)]
	n.mods = s.mods[:len(s.mods):len(s.mods)]
	n.pcset = cp(s.pcset)
	n.facts = cp(s.facts)
	n.cells = cp(s.cells)
	n.heaps = cp(s.heaps)
	n.iters = cp(s.iters)
	n.frozen = cp(s.frozen)
	n.epochs = cp(s.epochs)
	n.newer = cp(s.newer)
	n.fcells = cp(s.fcells)
	return &n
}

func cp[K comparable, V any](m map[K]V) map[K]V {
	n := make(map[K]V, len(m))
	for k, v := range m {
		n[k] = v
	}
	return n
}

// assume adds a fact; false means the path is contradictory.
func (s *State) assume(c *Term) bool {
	if c == tTrue {
		return true
	}
	if c == tFalse {
		return false
	}
	if c.op == "and" {
		for _, a := range c.args {
			if !s.assume(a) {
				return false
			}
		}
		return true
	}
	if s.pcset[c] {
		return true
	}
	if s.pcset[tNot(c)] {
		return false
	}
	s.pcset[c] = true
	s.pc = append(s.pc, c)
	return true
}

// fact assumes something that is known to hold, as opposed to a branch condition.
func (s *State) fact(c *Term, kind int) bool {
	if c == tTrue {
		return true
	}
	if c.op == "and" {
		for _, a := range c.args {
			if !s.fact(a, kind) {
				return false
			}
		}
		return true
	}
	if !s.pcset[c] {
		s.facts[c] = kind
	}
	return s.assume(c)
}

func (s *State) pos() int64 { return int64(s.era)<<eraShift + int64(s.k) }

func (s *State) alloc() *Term {
	t := allocTerm(s.era, s.k)
	s.k++
	return t
}

type Frame struct {
	fn     *ssa.Function
	env    map[ssa.Value]Val
	ret    func(*State, Val)
	caller *Frame
	defers []deferred
	loops  map[*ssa.BasicBlock]*loopCtx
	depth  int
	wrap   *Contract // this frame is the contract wrapper of a function under verification
}

type deferred struct {
	fn   Val
	call *ssa.CallCommon
	args []Val
}

func (f *Frame) clone() *Frame {
	n := *f
	n.env = cp(f.env)
	n.loops = cp(f.loops)
	n.defers = f.defers[:len(f.defers):len(f.defers)]
	return &n
}

type Exec struct {
	P            *Program
	cur          *Contract
	obls         []*Obl
	dry          int
	npath        int
	cellN        int
	iterN        int
	steps        int
	covers       map[string]bool
	stack        []*ssa.Function
	noPrune      bool
	invs         []*invFn
	globals      map[*ssa.Global]*Cell
	lastPC       []*Term
	assumes      map[string]bool
	calledTarget int
	inlined      map[string]bool
	maxSteps     int
	sink         *pureSink
	unfolded     map[string]bool
	axioms       map[string]*Term
	recDepth     int
	quant        int
	total        int
	qvars        map[*Term]bool
	axFacts      map[string][]*Term
	recAx        map[*Term]*Term // unfolding fact -> the application it unfolds
	curVis       []*Term
}

type Obl struct {
	Target string
	Kind   string // ensures, frame, safety, requires, loop, facts
	Label  string
	Props  []string
	Pos    string
	pc     []*Term
	cond   *Term
	Status string
	Solver string
	MS     int64
	Query  string
}

func (x *Exec) heap(st *State, name, srt string) *Term {
	h, ok := st.heaps[name]
	if !ok {
		h = symbol("H0_"+name, srt, 0)
		st.heaps[name] = h
	}
	return h
}

func (x *Exec) setHeap(st *State, name, srt string, ref, v *Term) {
	h := x.heap(st, name, srt)
	st.heaps[name] = tStore(h, ref, v)
	st.writes = append(st.writes, writeRec{heap: name, hs: srt, ref: ref})
}

// feasible reports whether the path condition with c may hold.
func (x *Exec) feasible(st *State, c *Term) bool {
	if c == tTrue {
		return true
	}
	if c == tFalse {
		return false
	}
	if st.pcset[c] {
		return true
	}
	if st.pcset[tNot(c)] {
		return false
	}
	if x.noPrune {
		return true
	}
	as := append(append([]*Term{}, st.pc...), c)
	var ground []*Term
	for _, a := range as {
		if !hasForall(a) {
			ground = append(ground, a)
		}
	}
	if len(ground) < len(as) {
		// instances instead of quantifiers: only fewer paths are found infeasible
		as = append(ground, instances(as)...)
	}
	r := quickCheck(as, 400)
	return r != "unsat"
}

func (x *Exec) valid(st *State, c *Term) bool {
	if c == tTrue || st.pcset[c] {
		return true
	}
	if c == tFalse {
		return false
	}
	return quickCheck(append(append([]*Term{}, st.pc...), tNot(c)), 1500, true) == "unsat"
}

func (x *Exec) oblige(st *State, kind, label string, props []string, pos token.Pos, c *Term) {
	if x.dry > 0 {
		return
	}
	o := &Obl{Target: x.cur.Name, Kind: kind, Label: label, Props: props, Pos: x.P.posStr(pos), pc: st.pc, cond: c}
	x.obls = append(x.obls, o)
}

func (x *Exec) safety(st *State, what string, pos token.Pos, c *Term) bool {
	if c == tTrue {
		if x.dry == 0 {
			x.cur.trivial++
		}
		return true
	}
	for _, a := range st.pc {
		if a == c { // already known on this path
			if x.dry == 0 {
				x.cur.trivial++
			}
			return true
		}
	}
	if x.sink != nil && x.total > 0 {
		return true // specification functions are total
	}
	if x.sink != nil {
		// in a specification an undefined value makes the statement false
		if !x.valid(st, c) {
			s := st.clone()
			if s.assume(tNot(c)) {
				x.sink.out = append(x.sink.out, pureRes{s.pc[x.sink.mark:], tFalse, s.facts})
			}
		}
		return st.assume(c)
	}
	x.oblige(st, "safety", what, x.cur.SafetyProps, pos, c)
	return st.assume(c)
}

func (x *Exec) frame(st *State, what string, pos token.Pos, ref *Term, heap string) bool {
	// the object must have been made during this call or be listed as modified
	var alts []*Term
	if ref.op == "alloc" {
		alts = append(alts, tTrue)
	} else if ref.op == "const" && ref.ival == 0 {
		alts = append(alts, tTrue) // a nil reference is a safety matter
	} else {
		alts = append(alts, tLe(allocTerm(0, 0), ref))
		for _, m := range st.mods {
			alts = append(alts, tEq(m, ref))
		}
	}
	c := tOr(alts...)
	for f := range st.frozen {
		if !distinct(f, ref) {
			c = tAnd(c, tNot(tEq(f, ref)))
		}
	}
	isNew := ref.op == "alloc"
	if !isNew {
		if x.valid(st, tLe(allocTerm(0, 0), ref)) {
			st.newer[fmt.Sprintf("%d|%s", max(floorOf(ref), 0), heapClass(heap))]++
		} else {
			st.epochs[heapClass(heap)]++
		}
	}
	if c == tTrue {
		if x.dry == 0 {
			x.cur.trivial++
		}
		return true
	}
	x.oblige(st, "frame", what, x.cur.FrameProps, pos, c)
	return st.assume(c)
}

// heapClass: all struct fields are one class.
func heapClass(h string) string {
	if strings.HasPrefix(h, "F_") {
		return "F_"
	}
	if strings.HasPrefix(h, "MD_") || strings.HasPrefix(h, "ML_") {
		return "MV_" + h[3:]
	}
	return h
}

func mapClass(t types.Type) string {
	mv, _, _, _, _ := mapHeaps(t.Underlying().(*types.Map))
	return mv
}

func (x *Exec) eval(fr *Frame, st *State, v ssa.Value) Val {
	switch v := v.(type) {
	case *ssa.Const:
		return x.constVal(v)
	case *ssa.Function:
		return &VFunc{fn: v, sig: v.Signature}
	case *ssa.Builtin:
		return v
	case *ssa.Global:
		return x.globalPtr(st, v)
	}
	r, ok := fr.env[v]
	if !ok {
		unsup("no value for %s in %s", v.Name(), fr.fn)
	}
	return r
}

func (x *Exec) globalPtr(st *State, g *ssa.Global) Val {
	et := g.Type().Underlying().(*types.Pointer).Elem()
	if isStruct(et) && !opaqueStruct(et) {
		return symbol("gref_"+g.Pkg.Pkg.Name()+"_"+g.Name(), "Int", 0)
	}
	c := x.globals[g]
	if c == nil {
		c = &Cell{id: -1, typ: et, name: g.Name(), global: true}
		x.globals[g] = c
	}
	if _, ok := st.cells[c]; !ok {
		if x.P.mutableGlobal[g] {
			st.cells[c] = fresh("g_"+g.Pkg.Pkg.Name()+"_"+g.Name(), sortOf(et), 0)
		} else if iv := x.P.globalInit[g]; iv != nil && g.Pkg.Pkg.Path() != "" {
			st.cells[c] = x.constVal(iv)
		} else {
			s := symbol("g_"+g.Pkg.Pkg.Name()+"_"+g.Name(), sortOf(et), 0)
			if _, isI := et.Underlying().(*types.Interface); isI && !isRepoPkg(g.Pkg.Pkg.Path()) || strings.HasPrefix(types.TypeString(et, nil), "*") {
				st.assume(tNot(tEq(s, zero(et))))
			}
			st.cells[c] = s
			if ups, ok := x.P.globalMap[g]; ok {
				// a map literal which is only read
				mt := et.Underlying().(*types.Map)
				mv, md, _, ks, vs := mapHeaps(mt)
				dom, vals := constArr(arraySort(ks, "Bool"), tFalse), constArr(arraySort(ks, vs), zero(mt.Elem()))
				for _, u := range ups {
					kt, okk := x.constVal(u.Key.(*ssa.Const)).(*Term)
					vt, okv := x.constVal(u.Value.(*ssa.Const)).(*Term)
					if !okk || !okv {
						return &VPtr{kind: "cell", cell: c, typ: et}
					}
					dom, vals = tStore(dom, kt, tTrue), tStore(vals, kt, vt)
				}
				st.fact(raw("<=", "Bool", mkInt(1), s), 1)
				st.fact(raw("<", "Bool", s, allocTerm(0, 0)), 1)
				st.fact(raw("=", "Bool", tSelect(symbol("H0_"+md, arraySort("Int", arraySort(ks, "Bool")), 0), s), dom), 1)
				st.fact(raw("=", "Bool", tSelect(symbol("H0_"+mv, arraySort("Int", arraySort(ks, vs)), 0), s), vals), 1)
			}
		}
	}
	return &VPtr{kind: "cell", cell: c, typ: et}
}

func (x *Exec) constVal(c *ssa.Const) Val {
	t := c.Type()
	if c.Value == nil {
		if _, ok := t.Underlying().(*types.Tuple); ok {
			unsup("const tuple")
		}
		return zero(t)
	}
	switch sortOf(t) {
	case "Bool":
		return mkBool(constant.BoolVal(c.Value))
	case "Int":
		if i, ok := constant.Int64Val(constant.ToInt(c.Value)); ok {
			return mkInt(i)
		}
		return mkConst(c.Value.ExactString(), "Int", 'o', 0, "")
	case "String":
		return mkStr(constant.StringVal(c.Value))
	case "F64", "F32":
		f, _ := constant.Float64Val(constant.ToFloat(c.Value))
		if f == 0 {
			return zero(t)
		}
		if sortOf(t) == "F64" {
			return fpConst("F64", fmt.Sprintf("((_ to_fp 11 53) RNE %s)", realLit(f)))
		}
		return fpConst("F32", fmt.Sprintf("((_ to_fp 8 24) RNE %s)", realLit(f)))
	}
	unsup("constant %s", c)
	return nil
}

func realLit(f float64) string {
	s := fmt.Sprintf("%f", f)
	if strings.HasPrefix(s, "-") {
		return "(- " + s[1:] + ")"
	}
	return s
}

func (x *Exec) term(v Val) *Term {
	switch v := v.(type) {
	case *Term:
		return v
	case *VFunc:
		return x.funcTerm(nil, v)
	}
	unsup("not a term: %T", v)
	return nil
}

func (x *Exec) termSt(st *State, v Val) *Term {
	switch v := v.(type) {
	case *Term:
		return v
	case *VFunc:
		return x.funcTerm(st, v)
	case *VPtr:
		if v.kind == "cell" && v.cell != nil {
			unsup("address of local variable %s escapes", v.cell.name)
		}
		if len(v.path) == 0 && v.kind == "obj" {
			return v.base
		}
		unsup("interior pointer %s used as a value", v.kind)
	case *VBox:
		unsup("boxed pointer used as a value")
	}
	unsup("not a term: %T", v)
	return nil
}

var funcOf = map[*Term]*VFunc{}

// funcTerm reifies a function value.
func (x *Exec) funcTerm(st *State, f *VFunc) *Term {
	if f.term != nil {
		return f.term
	}
	var args []*Term
	for _, b := range f.binds {
		switch b := b.(type) {
		case *VPtr:
			if b.kind != "cell" || st == nil || len(b.path) > 0 {
				unsup("closure over %s", b.kind)
			}
			st.fcells[b.cell] = true
			args = append(args, x.termSt(st, st.cells[b.cell]))
		default:
			args = append(args, x.freeze(st, x.termSt(st, b), nil))
		}
	}
	if f.recv != nil {
		args = append(args, x.termSt(st, f.recv))
	}
	name := "clo_unknown"
	if f.fn != nil {
		name = "clo_" + fnKey(f.fn)
	}
	t := tCtor("someF", app(name, "Int", args...))
	if _, ok := funcOf[t]; !ok {
		// keep the captured values, not the cells
		g := &VFunc{fn: f.fn, sig: f.sig, recv: f.recv, term: t}
		for _, b := range f.binds {
			if p, ok := b.(*VPtr); ok {
				c := &Cell{id: -2, typ: p.cell.typ, name: p.cell.name}
				g.binds = append(g.binds, &VPtr{kind: "cell", cell: c, typ: p.typ})
				g.init = append(g.init, cellInit{c, st.cells[p.cell]})
			} else {
				g.binds = append(g.binds, b)
			}
		}
		funcOf[t] = g
	}
	return t
}

func fnKey(f *ssa.Function) string {
	n := f.RelString(nil)
	if i := strings.LastIndexByte(n, '/'); i >= 0 {
		n = n[i+1:]
	}
	return sanitize(n)
}

// --- memory

func (x *Exec) load(st *State, p Val, t types.Type, pos token.Pos) (Val, bool) {
	switch p := p.(type) {
	case *Term: // struct reference
		if !x.safety(st, "nil dereference", pos, tNot(tEq(p, mkInt(0)))) {
			return nil, false
		}
		return x.loadStruct(st, p, t), true
	case *VPtr:
		if p.base != nil && (p.kind == "fld" || p.kind == "obj") {
			if !x.safety(st, "nil dereference", pos, tNot(tEq(p.base, mkInt(0)))) {
				return nil, false
			}
		}
		return x.readPtr(st, p), true
	}
	unsup("load through %T", p)
	return nil, false
}

func (x *Exec) loadStruct(st *State, ref *Term, t types.Type) *Term {
	if opaqueStruct(t) {
		h, hs := objHeap(t)
		return tSelect(x.heap(st, h, hs), ref)
	}
	u, ok := t.Underlying().(*types.Struct)
	if !ok {
		h, hs := objHeap(t)
		return x.wf(st, t, tSelect(x.heap(st, h, hs), ref))
	}
	var as []*Term
	for i := 0; i < u.NumFields(); i++ {
		ft := u.Field(i).Type()
		if isStruct(ft) && !opaqueStruct(ft) {
			x.uniqueNested(t, ft)
			as = append(as, x.loadStruct(st, ref, ft))
			continue
		}
		h, hs := fieldHeap(t, i)
		as = append(as, x.wf(st, ft, tSelect(x.heap(st, h, hs), ref)))
	}
	if len(as) == 0 {
		as = []*Term{tFalse}
	}
	return tCtor(structCtor(t), as...)
}

func (x *Exec) uniqueNested(t, ft types.Type) {
	n := 0
	var rec func(t types.Type)
	rec = func(t types.Type) {
		u, ok := t.Underlying().(*types.Struct)
		if !ok || opaqueStruct(t) {
			return
		}
		for i := 0; i < u.NumFields(); i++ {
			if types.Identical(u.Field(i).Type(), ft) {
				n++
			}
			rec(u.Field(i).Type())
		}
	}
	rec(t)
	if n > 1 {
		unsup("struct %s nests %s twice", t, ft)
	}
}

func (x *Exec) storeStruct(st *State, ref *Term, t types.Type, v *Term) {
	u := t.Underlying().(*types.Struct)
	for i := 0; i < u.NumFields(); i++ {
		ft := u.Field(i).Type()
		fv := tSel(fieldSel(t, i), v)
		if isStruct(ft) && !opaqueStruct(ft) {
			x.uniqueNested(t, ft)
			x.storeStruct(st, ref, ft, fv)
			continue
		}
		h, hs := fieldHeap(t, i)
		x.setHeap(st, h, hs, ref, fv)
	}
}

// wf assumes the facts every value of the type satisfies.
func (x *Exec) wf(st *State, t types.Type, v *Term) *Term {
	if v.bound {
		return v
	}
	st.fact(wellFormed(t, v), 1)
	// references read from memory are older than the term that denotes them
	if v.op != "const" && v.op != "ctor" && v.op != "alloc" && v.stamp < infStamp {
		lim := allocTerm(int(v.stamp>>eraShift), int(v.stamp&(1<<eraShift-1)))
		switch t.Underlying().(type) {
		case *types.Pointer, *types.Map:
			st.fact(raw("<", "Bool", v, lim), 1)
		case *types.Slice:
			if v.sort == "Slice" {
				st.fact(raw("<", "Bool", tSel("s_ref", v), lim), 1)
			}
		}
	}
	return v
}

func (x *Exec) baseRead(st *State, p *VPtr) Val {
	switch p.kind {
	case "cell":
		v, ok := st.cells[p.cell]
		if !ok {
			unsup("cell %s without value", p.cell.name)
		}
		return v
	case "fld", "obj":
		return tSelect(x.heap(st, p.heap, p.hsort), p.base)
	case "elem":
		return tSelect(tSelect(x.heap(st, p.heap, p.hsort), p.base), p.idx)
	}
	panic("kind " + p.kind)
}

func (x *Exec) readPtr(st *State, p *VPtr) Val {
	v := x.baseRead(st, p)
	for _, f := range p.path {
		v = tSel(fieldSel(f.t, f.i), v.(*Term))
	}
	if t, ok := v.(*Term); ok {
		x.wf(st, p.typ, t)
	}
	return v
}

func (x *Exec) writePtr(st *State, p *VPtr, v Val, pos token.Pos) bool {
	if len(p.path) > 0 {
		base := x.baseRead(st, p).(*Term)
		v = updPath(base, p.path, x.termSt(st, v))
	}
	switch p.kind {
	case "cell":
		if st.fcells[p.cell] {
			unsup("write to captured variable %s after the closure was passed on", p.cell.name)
		}
		if p.cell.global {
			x.oblige(st, "frame", "write to package variable "+p.cell.name, x.cur.FrameProps, pos, tFalse)
		}
		st.cells[p.cell] = v
		st.writes = append(st.writes, writeRec{cell: p.cell})
	case "fld", "obj":
		if !x.safety(st, "nil dereference", pos, tNot(tEq(p.base, mkInt(0)))) {
			return false
		}
		if !x.frame(st, "write to "+p.heap, pos, p.base, p.heap) {
			return false
		}
		x.setHeap(st, p.heap, p.hsort, p.base, x.termSt(st, v))
	case "elem":
		if !x.frame(st, "write to element of "+p.heap, pos, p.base, p.heap) {
			return false
		}
		h := x.heap(st, p.heap, p.hsort)
		x.setHeap(st, p.heap, p.hsort, p.base, tStore(tSelect(h, p.base), p.idx, x.termSt(st, v)))
	}
	return true
}

func updPath(base *Term, path []fstep, v *Term) *Term {
	if len(path) == 0 {
		return v
	}
	f := path[0]
	ci := ctors[structCtor(f.t)]
	as := make([]*Term, len(ci.sels))
	for i, s := range ci.sels {
		as[i] = tSel(s, base)
	}
	as[f.i] = updPath(as[f.i], path[1:], v)
	return tCtor(structCtor(f.t), as...)
}

func (x *Exec) store(st *State, p, v Val, t types.Type, pos token.Pos) bool {
	switch p := p.(type) {
	case *Term:
		if !x.safety(st, "nil dereference", pos, tNot(tEq(p, mkInt(0)))) {
			return false
		}
		oh := "F_"
		if opaqueStruct(t) || !isStruct(t) {
			oh, _ = objHeap(t)
		}
		if !x.frame(st, "write to "+shortType(t), pos, p, oh) {
			return false
		}
		if opaqueStruct(t) || !isStruct(t) {
			h, hs := objHeap(t)
			x.setHeap(st, h, hs, p, x.termSt(st, v))
			return true
		}
		x.storeStruct(st, p, t, x.termSt(st, v))
		return true
	case *VPtr:
		return x.writePtr(st, p, v, pos)
	}
	unsup("store through %T", p)
	return false
}

// --- running

func (x *Exec) callFn(fr *Frame, fn *ssa.Function, args []Val, binds []Val, st *State, k func(*State, Val)) {
	if len(fn.Blocks) == 0 {
		unsup("no body for %s", fn)
	}
	n := &Frame{fn: fn, env: map[ssa.Value]Val{}, ret: k, caller: fr, loops: map[*ssa.BasicBlock]*loopCtx{}}
	if fr != nil {
		n.depth = fr.depth + 1
		cnt := 0
		for f := fr; f != nil; f = f.caller {
			if f.fn == fn {
				cnt++
			}
		}
		if cnt > 3 {
			unsup("recursion of %s without contract", fn)
		}
	}
	if n.depth > 60 {
		unsup("call depth")
	}
	if len(args) != len(fn.Params) {
		unsup("args of %s: %d want %d", fn, len(args), len(fn.Params))
	}
	for i, p := range fn.Params {
		n.env[p] = args[i]
	}
	for i, fv := range fn.FreeVars {
		n.env[fv] = binds[i]
	}
	x.enter(n, fn.Blocks[0], nil, st)
}

// enter goes to block b from prev.
func (x *Exec) enter(fr *Frame, b, prev *ssa.BasicBlock, st *State) {
	// leaving loops
	if prev != nil {
		for h, c := range fr.loops {
			if c != nil && !c.body[b] {
				if c.dry {
					return
				}
				delete(fr.loops, h)
			}
		}
	}
	li := x.P.loopsOf(fr.fn)
	if body := li[b]; body != nil {
		back := prev != nil && body[prev]
		c := fr.loops[b]
		if back && c != nil && c.inv {
			c.backedge(fr, prev, st)
			return
		}
		if !back {
			c = &loopCtx{head: b, body: body}
			fr.loops[b] = c
		}
		if !c.inv {
			c.count++
			// remember the arrival for a switch to invariants
			c2 := *c
			c2.snapFr = fr.clone()
			c2.snapSt = st.clone()
			c2.snapPrev = prev
			fr.loops[b] = &c2
			if c.count > 40 || !hasIf(b) {
				x.invLoop(&c2)
				return
			}
		}
	}
	x.phis(fr, b, prev, st)
	x.run(fr, b, nPhis(b), st)
}

func hasIf(b *ssa.BasicBlock) bool {
	_, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
	return ok
}

func nPhis(b *ssa.BasicBlock) int {
	for i, in := range b.Instrs {
		if _, ok := in.(*ssa.Phi); !ok {
			return i
		}
	}
	return len(b.Instrs)
}

func (x *Exec) phis(fr *Frame, b, prev *ssa.BasicBlock, st *State) {
	if prev == nil {
		return
	}
	idx := -1
	for i, p := range b.Preds {
		if p == prev {
			idx = i
		}
	}
	var vals []Val
	n := nPhis(b)
	for i := 0; i < n; i++ {
		vals = append(vals, x.eval(fr, st, b.Instrs[i].(*ssa.Phi).Edges[idx]))
	}
	for i := 0; i < n; i++ {
		fr.env[b.Instrs[i].(*ssa.Phi)] = vals[i]
	}
}

var dbg = os.Getenv("GOVC_DEBUG") != ""

func (x *Exec) run(fr *Frame, b *ssa.BasicBlock, i int, st *State) {
	for ; i < len(b.Instrs); i++ {
		x.steps++
		if x.steps > x.maxSteps {
			unsup("too many steps")
		}
		in := b.Instrs[i]
		switch in := in.(type) {
		case *ssa.DebugRef:
		case *ssa.Alloc:
			et := in.Type().Underlying().(*types.Pointer).Elem()
			if isStruct(et) && !opaqueStruct(et) {
				r := st.alloc()
				x.storeStruct(st, r, et, zero(et))
				fr.env[in] = r
			} else if at, ok := et.Underlying().(*types.Array); ok {
				r := st.alloc()
				h, hs := elemHeap(at.Elem())
				x.setHeap(st, h, hs, r, constArr(mustElem(hs), zero(at.Elem())))
				fr.env[in] = &VPtr{kind: "arr", base: r, typ: et}
			} else {
				x.cellN++
				c := &Cell{id: x.cellN, typ: et, name: in.Comment}
				st.cells[c] = zero(et)
				fr.env[in] = &VPtr{kind: "cell", cell: c, typ: et}
			}
		case *ssa.BinOp:
			v, ok := x.binop(st, in, x.eval(fr, st, in.X), x.eval(fr, st, in.Y))
			if !ok {
				return
			}
			fr.env[in] = v
		case *ssa.UnOp:
			switch in.Op {
			case token.MUL:
				v, ok := x.load(st, x.eval(fr, st, in.X), in.Type(), in.Pos())
				if !ok {
					return
				}
				fr.env[in] = v
			case token.NOT:
				fr.env[in] = tNot(x.eval(fr, st, in.X).(*Term))
			case token.SUB:
				t := x.eval(fr, st, in.X).(*Term)
				if t.sort == "Int" {
					fr.env[in] = x.wrap(st, in.Type(), tNeg(t))
				} else {
					fr.env[in] = fpOp("neg", t.sort, t)
				}
			default:
				unsup("unary %s", in.Op)
			}
		case *ssa.Call:
			fr := fr
			b := b
			i := i
			x.call(fr, in, st, func(st *State, v Val) {
				f2 := fr.clone()
				f2.env[in] = v
				x.run(f2, b, i+1, st)
			})
			return
		case *ssa.ChangeInterface:
			fr.env[in] = x.eval(fr, st, in.X)
		case *ssa.ChangeType:
			v := x.eval(fr, st, in.X)
			if t, ok := v.(*Term); ok && strings.HasPrefix(t.sort, "T_") && sortOf(in.Type()) != t.sort {
				v = x.convStruct(t, in.X.Type(), in.Type())
			}
			fr.env[in] = v
		case *ssa.Convert:
			fr.env[in] = x.convert(st, in.X.Type(), in.Type(), x.eval(fr, st, in.X))
		case *ssa.Defer:
			d := deferred{call: &in.Call}
			if !in.Call.IsInvoke() {
				d.fn = x.eval(fr, st, in.Call.Value)
			} else {
				unsup("deferred interface call")
			}
			for _, a := range in.Call.Args {
				d.args = append(d.args, x.eval(fr, st, a))
			}
			fr.defers = append(fr.defers, d)
		case *ssa.RunDefers:
			fr := fr
			b := b
			i := i
			x.runDefers(fr, st, func(f *Frame, st *State) { x.run(f, b, i+1, st) })
			return
		case *ssa.Extract:
			tv, ok := x.eval(fr, st, in.Tuple).(VTuple)
			if !ok {
				unsup("extract from %T", x.eval(fr, st, in.Tuple))
			}
			fr.env[in] = tv[in.Index]
		case *ssa.Field:
			fr.env[in] = x.wf(st, in.Type(), tSel(fieldSel(in.X.Type(), in.Field), x.eval(fr, st, in.X).(*Term)))
		case *ssa.FieldAddr:
			v, ok := x.fieldAddr(st, in, x.eval(fr, st, in.X))
			if !ok {
				return
			}
			fr.env[in] = v
		case *ssa.If:
			c := x.eval(fr, st, in.Cond).(*Term)
			if lc := fr.loops[b]; lc != nil && !lc.inv && c.op != "const" {
				// the loop cannot be unrolled
				x.invLoop(lc)
				return
			}
			if c == tTrue {
				x.enter(fr, b.Succs[0], b, st)
				return
			}
			if c == tFalse {
				x.enter(fr, b.Succs[1], b, st)
				return
			}
			ft := x.feasible(st, c)
			ff := x.feasible(st, tNot(c))
			if !ft && !ff {
				return
			}
			if ft && ff {
				st2 := st.clone()
				f2 := fr.clone()
				if st2.assume(c) {
					x.enter(f2, b.Succs[0], b, st2)
				}
				if st.assume(tNot(c)) {
					x.enter(fr, b.Succs[1], b, st)
				}
			} else if ft {
				st.assume(c)
				x.enter(fr, b.Succs[0], b, st)
			} else {
				st.assume(tNot(c))
				x.enter(fr, b.Succs[1], b, st)
			}
			return
		case *ssa.Index:
			xv := x.eval(fr, st, in.X).(*Term)
			iv := x.eval(fr, st, in.Index).(*Term)
			if xv.sort != "String" {
				unsup("index of %s", xv.sort)
			}
			if !x.safety(st, "index out of range", in.Pos(), tAnd(tLe(mkInt(0), iv), tLt(iv, tLen(xv)))) {
				return
			}
			fr.env[in] = strByte(xv, iv)
		case *ssa.IndexAddr:
			v, ok := x.indexAddr(st, in, x.eval(fr, st, in.X), x.eval(fr, st, in.Index).(*Term))
			if !ok {
				return
			}
			fr.env[in] = v
		case *ssa.Jump:
			x.enter(fr, b.Succs[0], b, st)
			return
		case *ssa.Lookup:
			xv := x.eval(fr, st, in.X)
			iv := x.eval(fr, st, in.Index)
			if _, ok := in.X.Type().Underlying().(*types.Map); !ok {
				s := xv.(*Term)
				i := iv.(*Term)
				if !x.safety(st, "index out of range", in.Pos(), tAnd(tLe(mkInt(0), i), tLt(i, tLen(s)))) {
					return
				}
				fr.env[in] = strByte(s, i)
				continue
			}
			mt := in.X.Type().Underlying().(*types.Map)
			v, ok := x.mapLookup(st, mt, xv.(*Term), x.termSt(st, iv))
			if in.CommaOk {
				fr.env[in] = VTuple{v, ok}
			} else {
				fr.env[in] = v
			}
		case *ssa.MakeClosure:
			f := &VFunc{fn: in.Fn.(*ssa.Function), sig: in.Fn.(*ssa.Function).Signature}
			for _, a := range in.Bindings {
				f.binds = append(f.binds, x.eval(fr, st, a))
			}
			fr.env[in] = f
		case *ssa.MakeInterface:
			fr.env[in] = x.makeIface(st, in.X.Type(), x.eval(fr, st, in.X))
		case *ssa.MakeMap:
			fr.env[in] = x.newMap(st, in.Type().Underlying().(*types.Map))
		case *ssa.MakeSlice:
			ln := x.eval(fr, st, in.Len).(*Term)
			cp := x.eval(fr, st, in.Cap).(*Term)
			if !x.safety(st, "makeslice: len out of range", in.Pos(), tAnd(tLe(mkInt(0), ln), tLe(ln, cp))) {
				return
			}
			if isBytes(in.Type()) {
				if ln != mkInt(0) {
					unsup("make([]byte, n)")
				}
				fr.env[in] = tCtor("mkB", tFalse, mkStr(""))
				continue
			}
			et := in.Type().Underlying().(*types.Slice).Elem()
			r := st.alloc()
			h, hs := elemHeap(et)
			x.setHeap(st, h, hs, r, constArr(mustElem(hs), zero(et)))
			fr.env[in] = mkSlice(r, mkInt(0), ln, cp)
		case *ssa.MapUpdate:
			mt := in.Map.Type().Underlying().(*types.Map)
			m := x.eval(fr, st, in.Map).(*Term)
			if !x.safety(st, "assignment to nil map", in.Pos(), tNot(tEq(m, mkInt(0)))) {
				return
			}
			if !x.frame(st, "map update", in.Pos(), m, mapClass(in.Map.Type())) {
				return
			}
			x.mapSet(st, mt, m, x.termSt(st, x.eval(fr, st, in.Key)), x.termSt(st, x.eval(fr, st, in.Value)))
		case *ssa.Next:
			it := x.eval(fr, st, in.Iter).(*VIter)
			if it.str {
				unsup("range over a string")
			}
			if lc := fr.loops[b]; lc != nil && !lc.inv {
				x.invLoop(lc)
				return
			}
			x.next(fr, b, i, in, it, st)
			return
		case *ssa.Panic:
			v := x.eval(fr, st, in.X)
			_ = v
			x.doPanic(fr, st, nil, in.Pos())
			return
		case *ssa.Phi:
			panic("phi")
		case *ssa.Range:
			x.iterN++
			it := &VIter{id: x.iterN}
			if mt, ok := in.X.Type().Underlying().(*types.Map); ok {
				it.m = x.eval(fr, st, in.X).(*Term)
				it.mt = mt
				st.iters[it.id] = constArr(arraySort(sortOf(mt.Key()), "Bool"), tFalse)
				_, md, _, ks, _ := mapHeaps(mt)
				dom := tSelect(x.heap(st, md, arraySort("Int", arraySort(ks, "Bool"))), it.m)
				if tEq(it.m, mkInt(0)) == tTrue {
					dom = constArr(arraySort(ks, "Bool"), tFalse)
				} else if it.m.op != "alloc" {
					dom = tIte(tEq(it.m, mkInt(0)), constArr(arraySort(ks, "Bool"), tFalse), dom)
				}
				it.dom = dom
				it.vals = x.mapVals(st, mt, it.m)
			} else {
				it.str = true
			}
			fr.env[in] = it
		case *ssa.Return:
			for _, c := range fr.loops {
				if c != nil && c.dry {
					return
				}
			}
			var v Val
			switch len(in.Results) {
			case 0:
			case 1:
				v = x.eval(fr, st, in.Results[0])
			default:
				var t VTuple
				for _, r := range in.Results {
					t = append(t, x.eval(fr, st, r))
				}
				v = t
			}
			fr.ret(st, v)
			return
		case *ssa.Slice:
			v, ok := x.slice(fr, st, in)
			if !ok {
				return
			}
			fr.env[in] = v
		case *ssa.Store:
			et := in.Addr.Type().Underlying().(*types.Pointer).Elem()
			if !x.store(st, x.eval(fr, st, in.Addr), x.eval(fr, st, in.Val), et, in.Pos()) {
				return
			}
		case *ssa.TypeAssert:
			v, ok := x.typeAssert(st, in, x.eval(fr, st, in.X))
			if !ok {
				return
			}
			fr.env[in] = v
		default:
			unsup("instruction %T in %s", in, fr.fn)
		}
	}
}

func strByte(s, i *Term) *Term {
	if strConsts(s, i) && i.ival >= 0 && int(i.ival) < len(s.sval) {
		return mkInt(int64(s.sval[i.ival]))
	}
	return raw("str.to_code", "Int", raw("str.at", "String", s, i))
}

func (x *Exec) convStruct(t *Term, from, to types.Type) *Term {
	uf := from.Underlying().(*types.Struct)
	ut := to.Underlying().(*types.Struct)
	var as []*Term
	for i := 0; i < ut.NumFields(); i++ {
		f := tSel(fieldSel(from, i), t)
		if f.sort != sortOf(ut.Field(i).Type()) {
			f = x.convStruct(f, uf.Field(i).Type(), ut.Field(i).Type())
		}
		as = append(as, f)
	}
	if len(as) == 0 {
		as = []*Term{tFalse}
	}
	return tCtor(structCtor(to), as...)
}

func (x *Exec) runDefers(fr *Frame, st *State, k func(*Frame, *State)) {
	if len(fr.defers) == 0 {
		k(fr, st)
		return
	}
	f2 := fr.clone()
	d := f2.defers[len(f2.defers)-1]
	f2.defers = f2.defers[:len(f2.defers)-1]
	x.callVal(f2, d.fn, d.args, d.call.Signature(), st, d.call.Pos(), func(st *State, _ Val) {
		x.runDefers(f2.clone(), st, k)
	})
}

// doPanic unwinds: allowed only when a deferred function recovers.
func (x *Exec) doPanic(fr *Frame, st *State, val *Term, pos token.Pos) {
	for f := fr; f != nil; f = f.caller {
		for _, c := range f.loops {
			if c != nil && c.dry {
				return
			}
		}
		if len(f.defers) > 0 {
			if val == nil {
				val = fresh("panicval", "Any", 0)
				st.assume(tNot(tEq(val, nilAny())))
			}
			st.panicV, st.recov = val, false
			f := f
			x.runDefers(f.clone(), st, func(f2 *Frame, st *State) {
				if !st.recov {
					x.doPanic(f.caller, st, val, pos)
					return
				}
				st.panicV = nil
				if f2.fn.Recover != nil {
					x.enter(f2, f2.fn.Recover, nil, st)
					return
				}
				f2.ret(st, zeroResults(f2.fn.Signature))
			})
			return
		}
	}
	x.oblige(st, "safety", "panic", x.cur.SafetyProps, pos, tFalse)
}

func zeroResults(sig *types.Signature) Val {
	switch sig.Results().Len() {
	case 0:
		return nil
	case 1:
		return zero(sig.Results().At(0).Type())
	}
	var t VTuple
	for i := 0; i < sig.Results().Len(); i++ {
		t = append(t, zero(sig.Results().At(i).Type()))
	}
	return t
}

// --- operators

func (x *Exec) wrap(st *State, t types.Type, v *Term) *Term {
	if v.op == "const" && v.kind == 'i' {
		return v
	}
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return v
	}
	lo, hi := intRange(b)
	if x.noPrune || v.bound {
		return v
	}
	if x.smallInt(v, 8) || x.valid(st, tAnd(raw("<=", "Bool", lo, v), raw("<=", "Bool", v, hi))) {
		return v
	}
	name := "wrap_" + b.Name()
	fnAxioms[name] = func(t *Term) []*Term {
		return []*Term{raw("=>", "Bool", tAnd(raw("<=", "Bool", lo, t.args[0]), raw("<=", "Bool", t.args[0], hi)), raw("=", "Bool", t, t.args[0])),
			raw("<=", "Bool", lo, t), raw("<=", "Bool", t, hi)}
	}
	return app(name, "Int", v)
}

// smallInt: a linear combination of lengths and small constants
func (x *Exec) smallInt(v *Term, maxk int64) bool {
	l := toLin(v)
	if l.c > 1<<40 || l.c < -(1<<40) {
		return false
	}
	for t, k := range l.m {
		if k > maxk || k < -maxk {
			return false
		}
		if t.op == "sel" && (t.name == "s_len" || t.name == "s_cap" || t.name == "s_off") {
			continue
		}
		return false
	}
	return true
}

func (x *Exec) binop(st *State, in *ssa.BinOp, av, bv Val) (Val, bool) {
	t := in.X.Type()
	switch in.Op {
	case token.EQL, token.NEQ:
		c := x.equal(st, t, in.Y.Type(), av, bv)
		if in.Op == token.NEQ {
			c = tNot(c)
		}
		return c, true
	}
	a, b := x.termSt(st, av), x.termSt(st, bv)
	switch a.sort {
	case "String":
		switch in.Op {
		case token.ADD:
			return tConcat(a, b), true
		case token.LSS:
			return strLt(a, b), true
		case token.GTR:
			return strLt(b, a), true
		case token.LEQ:
			return tNot(strLt(b, a)), true
		case token.GEQ:
			return tNot(strLt(a, b)), true
		}
	case "Int":
		switch in.Op {
		case token.ADD:
			return x.wrap(st, in.Type(), tAdd(a, b)), true
		case token.SUB:
			return x.wrap(st, in.Type(), tSub(a, b)), true
		case token.MUL:
			return x.wrap(st, in.Type(), tMul(a, b)), true
		case token.LSS:
			return tLt(a, b), true
		case token.LEQ:
			return tLe(a, b), true
		case token.GTR:
			return tLt(b, a), true
		case token.GEQ:
			return tLe(b, a), true
		case token.QUO, token.REM:
			if !x.safety(st, "division by zero", in.Pos(), tNot(tEq(b, mkInt(0)))) {
				return nil, false
			}
			q := raw("div", "Int", raw("abs", "Int", a), raw("abs", "Int", b))
			q = tIte(raw("=", "Bool", raw(">=", "Bool", a, mkInt(0)), raw(">=", "Bool", b, mkInt(0))), q, tNeg(q))
			if in.Op == token.QUO {
				return x.wrap(st, in.Type(), q), true
			}
			return tSub(a, tMul(b, q)), true
		default:
			return app("int_"+sanitize(opName(in.Op)), "Int", a, b), true
		}
	case "F64", "F32":
		switch in.Op {
		case token.LSS:
			return fpOp("lt", "Bool", a, b), true
		case token.LEQ:
			return fpOp("leq", "Bool", a, b), true
		case token.GTR:
			return fpOp("lt", "Bool", b, a), true
		case token.GEQ:
			return fpOp("leq", "Bool", b, a), true
		default:
			return app("fp_"+opName(in.Op)+"_"+a.sort, a.sort, a, b), true
		}
	case "Bool":
		switch in.Op {
		case token.AND:
			return tAnd(a, b), true
		case token.OR:
			return tOr(a, b), true
		}
	}
	unsup("operator %s on %s", in.Op, a.sort)
	return nil, false
}

func opName(o token.Token) string {
	return map[token.Token]string{token.ADD: "add", token.SUB: "sub", token.MUL: "mul", token.QUO: "quo", token.AND: "and", token.OR: "or", token.XOR: "xor", token.SHL: "shl", token.SHR: "shr", token.AND_NOT: "andnot", token.REM: "rem"}[o]
}

func strLt(a, b *Term) *Term {
	if strConsts(a, b) {
		return mkBool(a.sval < b.sval)
	}
	return raw("str.<", "Bool", a, b)
}

func (x *Exec) equal(st *State, at, bt types.Type, av, bv Val) *Term {
	if vb, ok := av.(*VBox); ok {
		if t, ok := bv.(*Term); ok && t == nilAny() {
			_ = vb
			return tFalse
		}
	}
	if f, ok := av.(*VFunc); ok {
		if t, ok := bv.(*Term); ok && t.op == "ctor" && t.name == "nilF" && f.term == nil {
			return tFalse
		}
	}
	if f, ok := bv.(*VFunc); ok {
		if t, ok := av.(*Term); ok && t.op == "ctor" && t.name == "nilF" && f.term == nil {
			return tFalse
		}
	}
	if p, ok := av.(*VPtr); ok {
		if t, ok := bv.(*Term); ok && t.op == "const" && t.ival == 0 && (p.kind == "cell" || p.kind == "elem" || p.kind == "fld") {
			return tFalse
		}
	}
	a, b := x.termSt(st, av), x.termSt(st, bv)
	if a.sort != b.sort { // interface compared with a concrete value
		if a.sort == "Any" {
			b = box(bt, b)
		} else if b.sort == "Any" {
			a = box(at, a)
		}
	}
	switch a.sort {
	case "F64", "F32":
		return fpOp("eq", "Bool", a, b)
	case "Slice": // only comparison with nil is possible
		if isNilSlice(b) {
			return tEq(tSel("s_ref", a), mkInt(0))
		}
		if isNilSlice(a) {
			return tEq(tSel("s_ref", b), mkInt(0))
		}
	case "Bytes":
		return tEq(tSel("by_nil", a), tSel("by_nil", b))
	case "Any":
		if a.op != "ctor" && b.op != "ctor" {
			// equal terms of uncomparable dynamic type would panic; equality of JSON values is not used by the code
			x.P.assumption("comparison of two interface values: dynamic types comparable, no NaN")
		}
	}
	return tEq(a, b)
}

func isNilSlice(t *Term) bool {
	return t.op == "ctor" && t.args[0] == mkInt(0)
}

func (x *Exec) convert(st *State, from, to types.Type, v Val) Val {
	t, ok := v.(*Term)
	if !ok {
		return v
	}
	sf, sto := t.sort, sortOf(to)
	fb, _ := from.Underlying().(*types.Basic)
	tb, _ := to.Underlying().(*types.Basic)
	switch {
	case sf == "Int" && sto == "Int":
		if fb != nil && tb != nil && fb.Info()&types.IsInteger != 0 && tb.Info()&types.IsInteger != 0 {
			lo, hi := intRange(tb)
			flo, fhi := intRange(fb)
			if le(lo, flo) && le(fhi, hi) {
				return t
			}
			return x.wrap(st, to, t)
		}
		return t
	case sf == "Int" && sto == "F64":
		return app("i2f", "F64", t)
	case sf == "Int" && sto == "F32":
		return app("i2f32", "F32", t)
	case (sf == "F64" || sf == "F32") && sto == "Int":
		r := app("f2i_"+sf+"_"+tb.Name(), "Int", t)
		return x.wf(st, to, r)
	case sf == "F32" && sto == "F64":
		return app("f32to64", "F64", t)
	case sf == "F64" && sto == "F32":
		return app("f64to32", "F32", t)
	case sf == sto && sf != "String":
		return t
	case sf == "String" && sto == "String":
		return t
	case sf == "String" && sto == "Bytes":
		return tCtor("mkB", tFalse, t)
	case sf == "Bytes" && sto == "String":
		return tSel("by_str", t)
	case sf == "Int" && sto == "String":
		if t.op == "const" && t.ival < 128 {
			return mkStr(string(rune(t.ival)))
		}
		return app("rune2str", "String", t)
	case sf == "String" && sto == "Slice":
		return app("str2runes", "Slice", t)
	case sf == "Slice" && sto == "String":
		h, hs := elemHeap(types.Typ[types.Int32])
		return app("runes2str", "String", x.freezeSlice(st, t, h, hs))
	}
	unsup("conversion %s to %s", from, to)
	return nil
}

func le(a, b *Term) bool {
	if a.kind == 'o' {
		return false
	}
	if b.kind == 'o' {
		return true
	}
	return a.ival <= b.ival
}

func (x *Exec) fieldAddr(st *State, in *ssa.FieldAddr, v Val) (Val, bool) {
	stt := in.X.Type().Underlying().(*types.Pointer).Elem()
	ft := stt.Underlying().(*types.Struct).Field(in.Field).Type()
	switch p := v.(type) {
	case *Term:
		if !x.safety(st, "nil dereference", in.Pos(), tNot(tEq(p, mkInt(0)))) {
			return nil, false
		}
		if isStruct(ft) && !opaqueStruct(ft) {
			x.uniqueNested(stt, ft)
			return p, true
		}
		if opaqueStruct(stt) {
			unsup("field of opaque struct %s", stt)
		}
		h, hs := fieldHeap(stt, in.Field)
		return &VPtr{kind: "fld", base: p, heap: h, hsort: hs, typ: ft}, true
	case *VPtr:
		n := *p
		n.path = append(append([]fstep{}, p.path...), fstep{stt, in.Field})
		n.typ = ft
		return &n, true
	}
	unsup("field address of %T", v)
	return nil, false
}

func (x *Exec) indexAddr(st *State, in *ssa.IndexAddr, v Val, i *Term) (Val, bool) {
	switch u := in.X.Type().Underlying().(type) {
	case *types.Slice:
		s := v.(*Term)
		if s.sort == "Bytes" {
			if !x.safety(st, "index out of range", in.Pos(), tAnd(tLe(mkInt(0), i), tLt(i, tLen(tSel("by_str", s))))) {
				return nil, false
			}
			x.cellN++
			c := &Cell{id: x.cellN, typ: u.Elem(), name: "byte"}
			st.cells[c] = strByte(tSel("by_str", s), i)
			st.fcells[c] = true // writing is not supported
			return &VPtr{kind: "cell", cell: c, typ: u.Elem()}, true
		}
		if !x.safety(st, "index out of range", in.Pos(), tAnd(tLe(mkInt(0), i), tLt(i, tSel("s_len", s)))) {
			return nil, false
		}
		h, hs := elemHeap(u.Elem())
		return &VPtr{kind: "elem", base: tSel("s_ref", s), idx: tAdd(tSel("s_off", s), i), heap: h, hsort: hs, typ: u.Elem()}, true
	case *types.Pointer:
		p := v.(*VPtr)
		at := u.Elem().Underlying().(*types.Array)
		if p.kind != "arr" {
			unsup("array pointer")
		}
		if !x.safety(st, "index out of range", in.Pos(), tAnd(tLe(mkInt(0), i), tLt(i, mkInt(at.Len())))) {
			return nil, false
		}
		h, hs := elemHeap(at.Elem())
		return &VPtr{kind: "elem", base: p.base, idx: i, heap: h, hsort: hs, typ: at.Elem()}, true
	}
	unsup("index address of %s", in.X.Type())
	return nil, false
}

func (x *Exec) slice(fr *Frame, st *State, in *ssa.Slice) (Val, bool) {
	v := x.eval(fr, st, in.X)
	get := func(e ssa.Value, def *Term) *Term {
		if e == nil {
			return def
		}
		return x.eval(fr, st, e).(*Term)
	}
	if p, ok := v.(*VPtr); ok && p.kind == "arr" {
		n := p.typ.Underlying().(*types.Array).Len()
		lo := get(in.Low, mkInt(0))
		hi := get(in.High, mkInt(n))
		if !x.safety(st, "slice bounds", in.Pos(), tAnd(tLe(mkInt(0), lo), tLe(lo, hi), tLe(hi, mkInt(n)))) {
			return nil, false
		}
		return mkSlice(p.base, lo, tSub(hi, lo), tSub(mkInt(n), lo)), true
	}
	s := v.(*Term)
	switch s.sort {
	case "String":
		lo, hi := get(in.Low, mkInt(0)), get(in.High, tLen(s))
		if !x.safety(st, "slice bounds", in.Pos(), tAnd(tLe(mkInt(0), lo), tLe(lo, hi), tLe(hi, tLen(s)))) {
			return nil, false
		}
		return tSubstr(s, lo, tSub(hi, lo)), true
	case "Bytes":
		str := tSel("by_str", s)
		lo, hi := get(in.Low, mkInt(0)), get(in.High, tLen(str))
		if !x.safety(st, "slice bounds", in.Pos(), tAnd(tLe(mkInt(0), lo), tLe(lo, hi), tLe(hi, tLen(str)))) {
			return nil, false
		}
		return tCtor("mkB", tSel("by_nil", s), tSubstr(str, lo, tSub(hi, lo))), true
	case "Slice":
		if in.Max != nil {
			unsup("3-index slice")
		}
		ln, cap := tSel("s_len", s), tSel("s_cap", s)
		lo, hi := get(in.Low, mkInt(0)), get(in.High, ln)
		if !x.safety(st, "slice bounds", in.Pos(), tAnd(tLe(mkInt(0), lo), tLe(lo, hi), tLe(hi, cap))) {
			return nil, false
		}
		if hi != ln && !x.valid(st, tLe(hi, ln)) {
			unsup("slice beyond the length")
		}
		return mkSlice(tSel("s_ref", s), tAdd(tSel("s_off", s), lo), tSub(hi, lo), tSub(cap, lo)), true
	}
	unsup("slice of %s", s.sort)
	return nil, false
}

func (x *Exec) makeIface(st *State, t types.Type, v Val) Val {
	if _, ok := t.Underlying().(*types.Interface); ok {
		return v
	}
	switch p := v.(type) {
	case *VPtr:
		if p.kind == "fld" && len(p.path) == 0 {
			if n, ok := p.typ.(*types.Named); ok && n.Obj().Pkg() != nil && !isRepoPkg(n.Obj().Pkg().Path()) {
				// a part of another package inside an object: only its identity matters
				return box(t, app("addr_"+p.heap, "Int", p.base))
			}
		}
		return &VBox{t, v}
	case *VFunc:
		_ = p
		return &VBox{t, v}
	}
	return box(t, v.(*Term))
}

func (x *Exec) typeAssert(st *State, in *ssa.TypeAssert, v Val) (Val, bool) {
	if vb, ok := v.(*VBox); ok {
		if types.Identical(vb.typ, in.AssertedType) {
			if in.CommaOk {
				return VTuple{vb.v, tTrue}, true
			}
			return vb.v, true
		}
		if _, isI := in.AssertedType.Underlying().(*types.Interface); isI {
			if in.CommaOk {
				return VTuple{v, tTrue}, true
			}
			return v, true
		}
		if in.CommaOk {
			return VTuple{zero(in.AssertedType), tFalse}, true
		}
		x.safety(st, "type assertion", in.Pos(), tFalse)
		return nil, false
	}
	t := v.(*Term)
	if _, isI := in.AssertedType.Underlying().(*types.Interface); isI {
		nn := tNot(tEq(t, nilAny()))
		ok := nn
		if types.NewMethodSet(in.AssertedType).Len() > 0 && !types.Implements(in.X.Type(), in.AssertedType.Underlying().(*types.Interface)) {
			ok = tAnd(nn, app("implements_"+typeKey(in.AssertedType), "Bool", t))
		}
		if in.CommaOk {
			return VTuple{tIte(ok, t, nilAny()), ok}, true
		}
		if !x.safety(st, "type assertion", in.Pos(), ok) {
			return nil, false
		}
		return t, true
	}
	c, sel := boxCtor(in.AssertedType)
	ok := tIs(c, t)
	if in.CommaOk {
		val := tIte(ok, tSel(sel, t), zero(in.AssertedType))
		if ok != tTrue && ok != tFalse {
			// split on the type: later code depends on it
			st.fact(tImp(ok, wellFormed(in.AssertedType, tSel(sel, t))), 1)
		} else if ok == tTrue {
			x.wf(st, in.AssertedType, val)
		}
		return VTuple{val, ok}, true
	}
	if !x.safety(st, "type assertion", in.Pos(), ok) {
		return nil, false
	}
	return x.wf(st, in.AssertedType, tSel(sel, t)), true
}

// --- maps

func card(dom *Term) *Term {
	if dom.op == "constarr" && dom.args[0] == tFalse {
		return mkInt(0)
	}
	ks, _ := elemSort(dom.sort)
	name := "nn_card_" + sanitize(ks)
	if fnAxioms[name] == nil {
		fnAxioms[name] = func(t *Term) []*Term {
			d := t.args[0]
			k := boundVar("k", ks)
			w := app("cardwit_"+sanitize(ks), ks, d)
			out := []*Term{
				raw("<=", "Bool", mkInt(0), t), raw("<=", "Bool", t, mkInt(1<<48)),
				tOr(tNot(raw("=", "Bool", t, mkInt(0))), tForall([]*Term{k}, tNot(raw("select", "Bool", d, k)), raw("select", "Bool", d, k))),
				tOr(raw("=", "Bool", t, mkInt(0)), tSelect(d, w)),
			}
			if d.op == "store" && d.args[2] == tTrue {
				out = append(out, raw("=", "Bool", t, tIte(tSelect(d.args[0], d.args[1]), card(d.args[0]), tAdd(card(d.args[0]), mkInt(1)))))
			}
			if d.op == "store" && d.args[2] == tFalse {
				out = append(out, raw("=", "Bool", t, tIte(tSelect(d.args[0], d.args[1]), tSub(card(d.args[0]), mkInt(1)), card(d.args[0]))))
			}
			return out
		}
	}
	return app(name, "Int", dom)
}

func (x *Exec) mapDom(st *State, mt *types.Map, m *Term) *Term {
	_, md, _, ks, _ := mapHeaps(mt)
	fa := constArr(arraySort(ks, "Bool"), tFalse)
	d := tSelect(x.heap(st, md, arraySort("Int", arraySort(ks, "Bool"))), m)
	if tEq(m, mkInt(0)) == tTrue {
		return fa
	}
	if m.op == "alloc" {
		return d
	}
	return tIte(tEq(m, mkInt(0)), fa, d)
}

func (x *Exec) mapVals(st *State, mt *types.Map, m *Term) *Term {
	mv, _, _, ks, vs := mapHeaps(mt)
	return tSelect(x.heap(st, mv, arraySort("Int", arraySort(ks, vs))), m)
}

func (x *Exec) mapLookup(st *State, mt *types.Map, m, k *Term) (*Term, *Term) {
	_, md, _, ks, _ := mapHeaps(mt)
	in := tSelect(tSelect(x.heap(st, md, arraySort("Int", arraySort(ks, "Bool"))), m), k)
	ok := tAnd(tNot(tEq(m, mkInt(0))), in)
	v := tSelect(x.mapVals(st, mt, m), k)
	if ok != tFalse {
		x.wf(st, mt.Elem(), v)
	}
	return tIte(ok, v, zero(mt.Elem())), ok
}

func (x *Exec) newMap(st *State, mt *types.Map) *Term {
	r := st.alloc()
	mv, md, _, ks, vs := mapHeaps(mt)
	x.setHeap(st, md, arraySort("Int", arraySort(ks, "Bool")), r, constArr(arraySort(ks, "Bool"), tFalse))
	x.setHeap(st, mv, arraySort("Int", arraySort(ks, vs)), r, constArr(arraySort(ks, vs), zero(mt.Elem())))
	return r
}

func (x *Exec) mapSet(st *State, mt *types.Map, m, k, v *Term) {
	mv, md, _, ks, vs := mapHeaps(mt)
	ds, vsrt := arraySort("Int", arraySort(ks, "Bool")), arraySort("Int", arraySort(ks, vs))
	x.setHeap(st, md, ds, m, tStore(tSelect(x.heap(st, md, ds), m), k, tTrue))
	x.setHeap(st, mv, vsrt, m, tStore(tSelect(x.heap(st, mv, vsrt), m), k, v))
}

func (x *Exec) mapDelete(st *State, mt *types.Map, m, k *Term) {
	_, md, _, ks, _ := mapHeaps(mt)
	ds := arraySort("Int", arraySort(ks, "Bool"))
	x.setHeap(st, md, ds, m, tStore(tSelect(x.heap(st, md, ds), m), k, tFalse))
}

func (x *Exec) next(fr *Frame, b *ssa.BasicBlock, i int, in *ssa.Next, it *VIter, st *State) {
	ks := sortOf(it.mt.Key())
	vis := st.iters[it.id]
	if vals, dom := x.mapVals(st, it.mt, it.m), x.mapDom(st, it.mt, it.m); vals != it.vals || dom != it.dom {
		if same := tAnd(tEq(vals, it.vals), tEq(dom, it.dom)); x.feasible(st, tNot(same)) {
			unsup("map changed while ranging over it")
		}
	}
	// one more entry
	{
		s2, f2 := st.clone(), fr.clone()
		k := fresh("key", ks, 0)
		ok := s2.assume(tSelect(it.dom, k)) && s2.assume(tNot(tSelect(vis, k)))
		if ok && x.feasible(s2, tNot(tEq(it.m, mkInt(0)))) {
			s2.assume(tNot(tEq(it.m, mkInt(0))))
			v := tSelect(it.vals, k)
			x.wf(s2, it.mt.Elem(), v)
			s2.iters[it.id] = tStore(vis, k, tTrue)
			s2.writes = append(s2.writes, writeRec{iter: it.id})
			f2.env[in] = VTuple{tTrue, k, v}
			x.run(f2, b, i+1, s2)
		}
	}
	k := boundVar("k", ks)
	st.assume(tForall([]*Term{k}, tImp(tSelect(it.dom, k), tSelect(vis, k)), tSelect(it.dom, k)))
	fr.env[in] = VTuple{tFalse, zero(it.mt.Key()), zero(it.mt.Elem())}
	x.run(fr, b, i+1, st)
}
