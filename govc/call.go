package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func (x *Exec) call(fr *Frame, in *ssa.Call, st *State, k func(*State, Val)) {
	c := &in.Call
	if c.IsInvoke() {
		recv := x.eval(fr, st, c.Value)
		var args []Val
		for _, a := range c.Args {
			args = append(args, x.eval(fr, st, a))
		}
		x.invoke(fr, c, recv, args, st, in.Pos(), k)
		return
	}
	if b, ok := c.Value.(*ssa.Builtin); ok {
		var args []Val
		for _, a := range c.Args {
			args = append(args, x.eval(fr, st, a))
		}
		x.builtin(fr, b, c, args, st, in, k)
		return
	}
	f := x.eval(fr, st, c.Value)
	var args []Val
	for _, a := range c.Args {
		args = append(args, x.eval(fr, st, a))
	}
	if vf, ok := f.(*VFunc); ok && vf.fn != nil && vf.recv == nil {
		x.callStatic(fr, vf, args, st, in, k)
		return
	}
	x.callVal(fr, f, args, c.Signature(), st, in.Pos(), k)
}

// callVal calls a function value.
func (x *Exec) callVal(fr *Frame, f Val, args []Val, sig *types.Signature, st *State, pos token.Pos, k func(*State, Val)) {
	switch f := f.(type) {
	case *VFunc:
		if f.fn != nil {
			for _, ci := range f.init {
				if _, ok := st.cells[ci.c]; !ok {
					st.cells[ci.c] = ci.v
				}
			}
			if f.recv != nil {
				args = append([]Val{f.recv}, args...)
			}
			x.callStatic(fr, &VFunc{fn: f.fn, binds: f.binds, sig: f.sig}, args, st, nil, k)
			return
		}
		x.callVal(fr, f.term, args, sig, st, pos, k)
	case *Term:
		if g := funcOf[f]; g != nil && g.fn != nil {
			x.callVal(fr, g, args, sig, st, pos, k)
			return
		}
		if f.op == "ite" {
			s2 := st.clone()
			if x.feasible(s2, f.args[0]) && s2.assume(f.args[0]) {
				x.callVal(fr, f.args[1], args, sig, s2, pos, k)
			}
			if x.feasible(st, tNot(f.args[0])) && st.assume(tNot(f.args[0])) {
				x.callVal(fr, f.args[2], args, sig, st, pos, k)
			}
			return
		}
		if !x.safety(st, "call of nil function", pos, tNot(tEq(f, tCtor("nilF")))) {
			return
		}
		// an unknown function value: a deterministic function of its arguments
		x.P.assumption("unknown function values (" + shortType(sig) + ") are deterministic and have no effects")
		ts := []*Term{f}
		for i, a := range args {
			ts = append(ts, x.freeze(st, x.termSt(st, a), sig.Params().At(i).Type()))
		}
		k(st, x.ufResults(st, "apply_"+typeKey(sig), sig, ts))
	default:
		unsup("call of %T", f)
	}
}

// reachesMemory: the arguments can hold references to objects this repository changes.
// reached gives the kinds of memory the arguments lead to; all: any memory.
func reached(sig *types.Signature) (classes map[string]bool, all bool) {
	classes = map[string]bool{}
	seen := map[string]bool{}
	var reach func(t types.Type)
	reach = func(t types.Type) {
		k := types.TypeString(t, nil)
		if all || seen[k] {
			return
		}
		seen[k] = true
		if types.IsInterface(t) {
			all = true
			return
		}
		if opaqueStruct(t) {
			return
		}
		switch u := t.Underlying().(type) {
		case *types.Basic:
			if u.Kind() == types.UnsafePointer {
				all = true
			}
		case *types.Pointer:
			switch {
			case opaqueStruct(u.Elem()) && !types.IsInterface(u.Elem()):
				h, _ := objHeap(u.Elem())
				classes[h] = true
			case isStruct(u.Elem()):
				classes["F_"] = true
				reach(u.Elem())
			default:
				h, _ := objHeap(u.Elem())
				classes[h] = true
				reach(u.Elem())
			}
		case *types.Slice:
			h, _ := elemHeap(u.Elem())
			classes[h] = true
			reach(u.Elem())
		case *types.Map:
			classes[mapClass(u)] = true
			reach(u.Key())
			reach(u.Elem())
		case *types.Array:
			reach(u.Elem())
		case *types.Struct:
			for i := 0; i < u.NumFields(); i++ {
				reach(u.Field(i).Type())
			}
		default:
			all = true
		}
	}
	if sig.Recv() != nil {
		reach(sig.Recv().Type())
	}
	for i := 0; i < sig.Params().Len(); i++ {
		reach(sig.Params().At(i).Type())
	}
	return
}

func newerKey(k string) (int64, string) {
	f, c, _ := strings.Cut(k, "|")
	n, _ := strconv.ParseInt(f, 10, 64)
	return n, c
}

func epochOf(st *State, sig *types.Signature, ts []*Term) int {
	if len(st.epochs) == 0 && len(st.newer) == 0 {
		return 0
	}
	cl, all := reached(sig)
	n := 0
	for c, k := range st.epochs {
		if all || cl[c] {
			n += k
		}
	}
	// what older memory leads to is older
	stamp := int64(0)
	for _, t := range ts {
		if t.stamp > stamp {
			stamp = t.stamp
		}
	}
	if stamp > 0 {
		floor := int64(math.MaxInt64)
		for c := range st.newer {
			if f, _ := newerKey(c); f < floor {
				floor = f
			}
		}
		if len(st.epochs) > 0 {
			floor = 0
		}
		for c, k := range st.newer {
			_, c := newerKey(c)
			if stamp > floor && (all || cl[c]) {
				n += k << 16
			}
		}
	}
	return n
}

func (x *Exec) ufResults(st *State, name string, sig *types.Signature, ts []*Term) Val {
	if e := epochOf(st, sig, ts); e > 0 {
		ts = append(append([]*Term{}, ts...), mkInt(int64(e)))
	}
	n := sig.Results().Len()
	one := func(i int) *Term {
		rt := sig.Results().At(i).Type()
		nm := name
		if n > 1 {
			nm = fmt.Sprintf("%s.%d", name, i)
		}
		r := app(nm, sortOf(rt), ts...)
		return x.wf(st, rt, r)
	}
	switch n {
	case 0:
		return nil
	case 1:
		return one(0)
	}
	var t VTuple
	for i := 0; i < n; i++ {
		t = append(t, one(i))
	}
	return t
}

func (x *Exec) invoke(fr *Frame, c *ssa.CallCommon, recv Val, args []Val, st *State, pos token.Pos, k func(*State, Val)) {
	it := c.Value.Type()
	mname := c.Method.Name()
	if vb, ok := recv.(*VBox); ok {
		ms := x.P.prog.MethodSets.MethodSet(vb.typ)
		sel := ms.Lookup(c.Method.Pkg(), mname)
		if sel == nil {
			unsup("method %s", mname)
		}
		x.callStatic(fr, &VFunc{fn: x.P.prog.MethodValue(sel)}, append([]Val{vb.v}, args...), st, nil, k)
		return
	}
	r := x.termSt(st, recv)
	if r.op == "ctor" && r.name != "nilA" && boxTypes[r.name] != nil {
		t := boxTypes[r.name]
		ms := x.P.prog.MethodSets.MethodSet(t)
		sel := ms.Lookup(c.Method.Pkg(), mname)
		if sel != nil {
			if fn := x.P.prog.MethodValue(sel); fn != nil && (len(fn.Blocks) > 0 && isRepoFn(fn)) {
				x.callStatic(fr, &VFunc{fn: fn}, append([]Val{r.args[0]}, args...), st, nil, k)
				return
			}
		}
	}
	if !x.safety(st, "method call on nil interface", pos, tNot(tEq(r, nilAny()))) {
		return
	}
	key := shortType(it) + "." + mname
	if key == "reflect.Type.String" && r.op == "ctor" && r.name == "otherA" && r.args[1].op == "app" && r.args[1].name == "rtype" {
		k(st, typeStr(r.args[1].args[0]))
		return
	}
	if st2 := x.stub("invoke " + key); st2 != nil {
		x.callFn(fr, st2, append([]Val{r}, args...), nil, st, k)
		return
	}
	ic := x.P.ifaces[key]
	if ic == nil && !x.P.pureExternal("invoke "+key) {
		if mname == "Error" || mname == "String" {
			k(st, app("m_"+mname, "String", r))
			return
		}
		unsup("interface method %s without contract", key)
	}
	sig := c.Method.Type().(*types.Signature)
	run := func(st *State) {
		if x.isReqTarget() && ic != nil && ic.Req != nil {
		}
		ts := []*Term{r}
		for i, a := range args {
			ts = append(ts, x.freeze(st, x.termSt(st, a), sig.Params().At(i).Type()))
		}
		if ic == nil {
			x.P.useExternal("invoke " + key)
		}
		res := x.ufResults(st, "i_"+sanitize(key), sig, ts)
		if ic != nil && ic.Facts != nil {
			fa := append([]Val{r}, args...)
			fa = append(fa, flat(res)...)
			x.callFacts(fr, ic.Facts, fa, st, func(st *State) { k(st, res) })
			return
		}
		k(st, res)
	}
	if ic != nil && ic.Req != nil && x.sink == nil {
		t := x.evalPure(st, ic.Req, x.pad(st, ic.Req, append([]Val{r}, args...)), nil)
		x.oblige(st, "requires", "precondition of "+key, x.cur.Props, pos, t)
		if !st.assume(t) {
			return
		}
	}
	run(st)
}

func (x *Exec) isReqTarget() bool { return false }

func flat(v Val) []Val {
	if v == nil {
		return nil
	}
	if t, ok := v.(VTuple); ok {
		return t
	}
	return []Val{v}
}

func isRepoFn(fn *ssa.Function) bool {
	f := fn
	for f.Parent() != nil {
		f = f.Parent()
	}
	if f.Pkg == nil {
		if f.Object() != nil && f.Object().Pkg() != nil {
			return isRepoPkg(f.Object().Pkg().Path())
		}
		if f.Origin() != nil && f.Origin().Pkg != nil {
			return isRepoPkg(f.Origin().Pkg.Pkg.Path())
		}
		return false
	}
	return isRepoPkg(f.Pkg.Pkg.Path())
}

func (x *Exec) callStatic(fr *Frame, f *VFunc, args []Val, st *State, in *ssa.Call, k func(*State, Val)) {
	fn := f.fn
	pos := fn.Pos()
	if in != nil {
		pos = in.Pos()
	}
	name := fn.RelString(nil)
	if fn.Pkg != nil && isRepoPkg(fn.Pkg.Pkg.Path()) && strings.HasPrefix(fn.Name(), "v") {
		if x.intrinsic(fr, fn, args, st, in, k) {
			return
		}
	}
	if o := fn.Origin(); o != nil {
		if isRepoFn(fn) && x.intrinsic(fr, fn, args, st, in, k) {
			return
		}
		name = o.RelString(nil)
	}
	if c := x.P.contractOf[fn]; c != nil {
		if x.cur.Fn == fn && fr != nil && fr.fn == x.cur.Wrapper {
			c = x.cur
		}
		if c == x.cur && fr != nil && fr.fn == c.Wrapper {
			// the body under verification
			x.calledTarget++
			x.callTarget(fr, c, fn, args, f.binds, st, pos, k)
			return
		}
		if stub := x.stub(name); stub != nil {
			// what a call of the function does to the ghost state, by its contract
			x.P.assumption("calls of " + c.Name + " as in " + stub.Name() + " (its contract is proved for the same ghost state)")
			x.callFn(fr, stub, args, nil, st, k)
			return
		}
		if !c.Inline {
			x.applyContract(fr, c, args, st, pos, k)
			return
		}
	}
	if stub := x.stub(name); stub != nil && stub != fn {
		x.P.useExternal("model of " + name)
		x.callFn(fr, stub, args, nil, st, k)
		return
	}
	if x.P.mergeSpecs[fn] {
		x.total++
		t := x.evalPure(st, fn, args, nil)
		x.total--
		k(st, t)
		return
	}
	if x.P.recSpecs[fn] {
		// recursive specification function: uninterpreted, unfolded on demand
		x.recSpec(fr, fn, args, st, k)
		return
	}
	if m := models[name]; m != nil && (!x.cur.Opaque[name] || name == "strings.Split") {
		x.P.useModel(name)
		m(x, fr, fn, args, st, pos, k)
		return
	}
	if isRepoFn(fn) || fn.Synthetic != "" && len(fn.Blocks) > 0 && isRepoBound(fn) {
		if x.dry == 0 && x.cur.InlinedFns != nil && !x.P.isContractFile(fn) {
			x.cur.InlinedFns[fn.RelString(nil)] = true
		}
		x.callFn(fr, fn, args, f.binds, st, k)
		return
	}
	if x.P.nondet[name] {
		x.P.useExternal(name + " (any result)")
		k(st, x.ufResults(st, "n_"+sanitize(name), fn.Signature, []*Term{fresh("nd", "Int", 0)}))
		return
	}
	if x.P.pureExternal(name) {
		x.P.useExternal(name)
		var ts []*Term
		sig := fn.Signature
		ps := fn.Params
		_ = ps
		var pts []types.Type
		if sig.Recv() != nil {
			pts = append(pts, sig.Recv().Type())
		}
		for i := 0; i < sig.Params().Len(); i++ {
			pts = append(pts, sig.Params().At(i).Type())
		}
		for i, a := range args {
			ts = append(ts, x.freeze(st, x.argTerm(st, a), pts[i]))
		}
		if x.P.mayPanic[name] && x.sink == nil && (fr == nil || !x.P.isContractFile(fr.fn)) {
			pan := app("panics_"+sanitize(strings.ReplaceAll(name, "github.com/", "")), "Bool", ts...)
			s2 := st.clone()
			if s2.assume(pan) {
				x.doPanic(fr, s2, nil, pos)
			}
			if !st.assume(tNot(pan)) {
				return
			}
		}
		res := x.ufResults(st, "x_"+sanitize(strings.ReplaceAll(name, "github.com/", "")), sig, ts)
		if ff := x.P.extFacts[name]; ff != nil {
			x.P.assumption("fact about " + name + ": " + ff.Name())
			x.callFacts(fr, ff, append(append([]Val{}, args...), flat(res)...), st, func(st *State) { k(st, res) })
			return
		}
		k(st, res)
		return
	}
	unsup("external function %s", name)
}

func recvPtr(sig *types.Signature) bool {
	if sig.Recv() == nil {
		return false
	}
	_, ok := sig.Recv().Type().Underlying().(*types.Pointer)
	return ok
}

// callTarget runs the body under verification and proves what its callers are told about it.
func (x *Exec) callTarget(fr *Frame, c *Contract, fn *ssa.Function, args, binds []Val, st *State, pos token.Pos, k func(*State, Val)) {
	if recvPtr(fn.Signature) {
		// callers are checked for it; interface values hold non-nil pointers
		if !st.assume(tNot(tEq(x.termSt(st, args[0]), mkInt(0)))) {
			return
		}
	}
	if c.Req != nil {
		if !st.assume(x.evalPure(st, c.Req, x.pad(st, c.Req, args), nil)) {
			return
		}
	}
	var ifc []*ifaceContract
	for _, n := range c.Implements {
		ic := x.P.ifaces[n]
		if ic == nil {
			unsup("unknown interface contract %s", n)
		}
		ifc = append(ifc, ic)
	}
	boxed := func() []Val {
		a := append([]Val{}, args...)
		a[0] = box(fn.Signature.Recv().Type(), x.termSt(st, args[0]))
		return a
	}
	for _, ic := range ifc {
		if ic.Req != nil {
			if !st.assume(x.evalPure(st, ic.Req, x.pad(st, ic.Req, boxed()), nil)) {
				return
			}
		}
	}
	x.callFn(fr, fn, args, binds, st, func(st *State, res Val) {
		prove := func(fact *ssa.Function, as []Val, what string) bool {
			t := x.evalPure(st, fact, append(append([]Val{}, as...), flat(res)...), nil)
			x.oblige(st, "ensures", what, c.Props, pos, t)
			return st.assume(t)
		}
		if c.Facts != nil && !prove(c.Facts, args, "facts callers use ("+c.Facts.Name()+")") {
			return
		}
		for _, ic := range ifc {
			if ic.Facts != nil && !prove(ic.Facts, boxed(), "facts of the interface contract ("+ic.Facts.Name()+")") {
				return
			}
		}
		if c.Ret != nil {
			x.callFn(fr, c.Ret, args, nil, st, func(st *State, want Val) {
				rs, ws := flat(res), flat(want)
				for i := range rs {
					t := x.same(st, fn.Signature.Results().At(i).Type(), x.termSt(st, rs[i]), x.termSt(st, ws[i]))
					x.oblige(st, "ensures", "result callers use ("+c.Ret.Name()+")", c.Props, pos, t)
				}
				k(st, res)
			})
			return
		}
		k(st, res)
	})
}

func (x *Exec) argTerm(st *State, v Val) *Term {
	if vb, ok := v.(*VBox); ok {
		if p, ok := vb.v.(*VPtr); ok && p.kind == "cell" {
			// a pointer to a local: its content is what matters
			return box(p.typ, x.termSt(st, st.cells[p.cell]))
		}
	}
	return x.termSt(st, v)
}

func isRepoBound(fn *ssa.Function) bool {
	if fn.Object() != nil && fn.Object().Pkg() != nil {
		return isRepoPkg(fn.Object().Pkg().Path())
	}
	return false
}

// --- freezing contents for uninterpreted functions

func (x *Exec) freeze(st *State, t *Term, typ types.Type) *Term {
	if t.op == "ite" && (t.sort == "Any" || t.sort == "Slice" || t.sort == "Int" && t.stamp > 0) {
		return tIte(t.args[0], x.freeze(st, t.args[1], typ), x.freeze(st, t.args[2], typ))
	}
	switch t.sort {
	case "Any":
		if t.op == "ctor" && len(t.args) == 1 && boxTypes[t.name] != nil {
			return tCtor(t.name, x.freeze(st, t.args[0], boxTypes[t.name]))
		}
		if t.stamp > 0 {
			x.markFrozen(st, t)
		}
		return t
	case "Slice":
		if typ == nil {
			return t
		}
		u, ok := typ.Underlying().(*types.Slice)
		if !ok {
			return t
		}
		h, hs := elemHeap(u.Elem())
		return x.freezeSlice(st, t, h, hs)
	case "Int":
		if typ == nil {
			return t
		}
		switch u := typ.Underlying().(type) {
		case *types.Map:
			if t.stamp <= 0 {
				return t
			}
			if x.old(st, t) {
				return t
			}
			mv, md, _, ks, vs := mapHeaps(u)
			dom := tSelect(x.heap(st, md, arraySort("Int", arraySort(ks, "Bool"))), t)
			vals := tSelect(x.heap(st, mv, arraySort("Int", arraySort(ks, vs))), t)
			x.markFrozen(st, t)
			x.markFrozen(st, dom)
			x.markFrozen(st, vals)
			name := "frzm_" + typeKey(u.Key()) + "_" + typeKey(u.Elem())
			contentFns[name] = true
			return app(name, "Int", dom, vals)
		case *types.Pointer:
			if t.stamp > 0 && isStruct(u.Elem()) {
				if x.old(st, t) {
					return t
				}
				x.markFrozen(st, t)
				if opaqueStruct(u.Elem()) {
					return t
				}
				v := x.loadStruct(st, t, u.Elem())
				x.markFrozen(st, v)
				return app("frzp_"+typeKey(u.Elem()), "Int", x.freezeDeep(st, v, u.Elem()))
			}
		}
	}
	if strings.HasPrefix(t.sort, "T_") && typ != nil {
		return x.freezeDeep(st, t, typ)
	}
	return t
}

// old: the object was made before the call.
func (x *Exec) old(st *State, t *Term) bool {
	if t.bound || t.op == "alloc" {
		return false
	}
	old := raw("<", "Bool", t, allocTerm(0, 0))
	if !st.pcset[old] && quickCheck(append(append([]*Term{}, st.pc...), tNot(old)), 300, true) != "unsat" {
		return false
	}
	st.fact(old, 1)
	return true
}

func (x *Exec) freezeDeep(st *State, v *Term, typ types.Type) *Term {
	u, ok := typ.Underlying().(*types.Struct)
	if !ok || u.NumFields() == 0 {
		return v
	}
	var as []*Term
	for i := 0; i < u.NumFields(); i++ {
		as = append(as, x.freeze(st, tSel(fieldSel(typ, i), v), u.Field(i).Type()))
	}
	return tCtor(structCtor(typ), as...)
}

func (x *Exec) freezeSlice(st *State, t *Term, h, hs string) *Term {
	if t == nilSlice() {
		return t
	}
	ref, off, ln := tSel("s_ref", t), tSel("s_off", t), tSel("s_len", t)
	if ref.op == "app" && strings.HasPrefix(ref.name, "frzs_") {
		return t
	}
	el := tSelect(x.heap(st, h, hs), ref)
	if ref.stamp > 0 {
		x.markFrozen(st, ref)
		x.markFrozen(st, el)
	}
	name := "frzs_" + sanitize(strings.TrimPrefix(h, "E_"))
	contentFns[name] = true
	return mkSlice(app(name, "Int", el, off, ln, tEq(ref, mkInt(0))), mkInt(0), ln, ln)
}

func (x *Exec) markFrozen(st *State, t *Term) {
	seen := map[*Term]bool{}
	var rec func(t *Term)
	rec = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		if t.op == "alloc" {
			st.frozen[t] = true
		}
		if len(t.args) > 1 && heapRoot(t.args[0]) && (t.op == "select" || t.op == "store") {
			// an object whose content is looked at or changed is no part of the content
			rec(t.args[0])
			if t.op == "store" {
				rec(t.args[2])
			}
			return
		}
		for _, a := range t.args {
			rec(a)
		}
	}
	rec(t)
}

// heapRoot: t is a heap (indexed by object), not the content of an object.
func heapRoot(t *Term) bool {
	for t.op == "store" {
		t = t.args[0]
	}
	return (t.op == "sym" || t.op == "const") && (strings.HasPrefix(t.name, "H0_") || strings.HasPrefix(t.name, "lh_"))
}

// --- contracts

func (x *Exec) applyContract(fr *Frame, c *Contract, args []Val, st *State, pos token.Pos, k func(*State, Val)) {
	sig := c.Fn.Signature
	if x.dry == 0 {
		x.cur.Uses[c.Name] = true
	}
	if recvPtr(sig) {
		if t := x.termSt(st, args[0]); !x.safety(st, "method call on nil pointer", pos, tNot(tEq(t, mkInt(0)))) {
			return
		}
	}
	if c.Req != nil && x.sink == nil {
		t := x.evalPure(st, c.Req, x.pad(st, c.Req, args), nil)
		x.oblige(st, "requires", "precondition of "+c.Name, x.cur.Props, pos, t)
		if x.sink == nil && !st.assume(t) {
			return
		}
	}
	if c.Ret != nil { // functional contract: the result is given by an expression
		x.callFn(fr, c.Ret, args, nil, st, k)
		return
	}
	var pts []types.Type
	if sig.Recv() != nil {
		pts = append(pts, sig.Recv().Type())
	}
	for i := 0; i < sig.Params().Len(); i++ {
		pts = append(pts, sig.Params().At(i).Type())
	}
	var ts []*Term
	upd := -1
	for i, a := range args {
		t := x.termSt(st, a)
		if c.Updates == c.paramName(i) && c.Updates != "" {
			upd = i
			mt := pts[i].Underlying().(*types.Map)
			was := st.frozen[t]
			f := x.freeze(st, t, pts[i])
			if !was {
				delete(st.frozen, t)
			}
			if f == t { // an object of the caller: content all the same
				mv, md, _, ks, vs := mapHeaps(mt)
				f = app("frzm_"+typeKey(mt.Key())+"_"+typeKey(mt.Elem()), "Int", tSelect(x.heap(st, md, arraySort("Int", arraySort(ks, "Bool"))), t), tSelect(x.heap(st, mv, arraySort("Int", arraySort(ks, vs))), t))
				contentFns["frzm_"+typeKey(mt.Key())+"_"+typeKey(mt.Elem())] = true
			}
			ts = append(ts, f)
			continue
		}
		ts = append(ts, x.freeze(st, t, pts[i]))
	}
	uf := "f_" + sanitize(c.Name)
	if c.Fresh {
		x.P.assumption("results of " + c.Name + " are not shared with earlier objects")
	}
	res := x.ufResults(st, uf, sig, ts)
	if upd >= 0 {
		t := x.termSt(st, args[upd])
		if !x.safety(st, "update of nil map", pos, tNot(tEq(t, mkInt(0)))) {
			return
		}
		if !x.frame(st, "map update by "+c.Name, pos, t, mapClass(pts[upd])) {
			return
		}
		mt := pts[upd].Underlying().(*types.Map)
		mv, md, _, ks, vs := mapHeaps(mt)
		x.setHeap(st, md, arraySort("Int", arraySort(ks, "Bool")), t, app(uf+".dom", arraySort(ks, "Bool"), ts...))
		x.setHeap(st, mv, arraySort("Int", arraySort(ks, vs)), t, app(uf+".vals", arraySort(ks, vs), ts...))
	}
	if c.Facts != nil {
		fa := append(append([]Val{}, args...), flat(res)...)
		x.callFacts(fr, c.Facts, fa, st, func(st *State) { k(st, res) })
		return
	}
	k(st, res)
}

func (x *Exec) pad(st *State, fn *ssa.Function, args []Val) []Val {
	return args[:len(fn.Params)]
}

// callFacts runs a fact function assuming what it states.
func (x *Exec) callFacts(fr *Frame, fn *ssa.Function, args []Val, st *State, k func(*State)) {
	t := x.evalPure(st, fn, args, nil)
	if !st.fact(t, 2) {
		return
	}
	k(st)
}

type pureSink struct {
	mark int
	out  []pureRes
}

type pureRes struct {
	pc    []*Term
	val   *Term
	facts map[*Term]int
}

// evalPure evaluates a side-effect free function to one term.
func (x *Exec) evalPure(st *State, fn *ssa.Function, args, binds []Val) *Term {
	s := st.clone()
	sink := &pureSink{mark: len(s.pc)}
	old := x.sink
	x.sink = sink
	x.dry++
	x.callFn(nil, fn, args, binds, s, func(st *State, v Val) {
		sink.out = append(sink.out, pureRes{st.pc[sink.mark:], x.termSt(st, v), st.facts})
	})
	x.dry--
	x.sink = old
	if len(sink.out) == 0 {
		return tTrue // no feasible path
	}
	{
		// facts are kept (not those about a quantified variable), results are told apart by the branch conditions only
		for i, r := range sink.out {
			var cs []*Term
			for _, c := range r.pc {
				switch {
				case r.facts[c] == 0 || r.facts[c] == 2 && x.quant > 0:
					cs = append(cs, c)
				case r.facts[c] == 1:
					if x.quant == 0 || !x.mentionsQuantified(c) || x.recAx[c] != nil {
						st.fact(c, 1)
					}
				default:
					st.fact(tImp(tAnd(cs...), c), 2)
				}
			}
			sink.out[i].pc = cs
		}
	}
	isBool := fn.Signature.Results().Len() == 1 && sortOf(fn.Signature.Results().At(0).Type()) == "Bool"
	var ok []pureRes
	for _, r := range sink.out {
		if r.val.sort != "Bool" { // a path which panics has no value
			ok = append(ok, r)
		}
	}
	if len(ok) > 0 && !isBool {
		sink.out = ok
	}
	if !isBool && sink.out[0].val.sort == "Bool" {
		unsup("specification %s panics", fn.Name())
	}
	if isBool {
		var cs []*Term
		for _, r := range sink.out {
			cs = append(cs, tImp(tAnd(r.pc...), r.val))
		}
		return tAnd(cs...)
	}
	v := sink.out[len(sink.out)-1].val
	for i := len(sink.out) - 2; i >= 0; i-- {
		v = tIte(tAnd(sink.out[i].pc...), sink.out[i].val, v)
	}
	return v
}

// recSpec treats a recursive spec function as uninterpreted with unfolding axioms.
func (x *Exec) recSpec(fr *Frame, fn *ssa.Function, args []Val, st *State, k func(*State, Val)) {
	sig := fn.Signature
	var ts []*Term
	for i, a := range args {
		ts = append(ts, x.freeze(st, x.termSt(st, a), sig.Params().At(i).Type()))
	}
	name := "r_" + fnKey(fn)
	res := x.ufResults(st, name, sig, ts)
	// unfold: evaluate the body once per application, in the present state
	key := fmt.Sprint(name, ids(ts), heapKey(st))
	if !x.unfolded[key] && x.recDepth < 1 {
		x.unfolded[key] = true
		x.recDepth++
		for i, r := range flat(res) {
			i := i
			_ = r
			if sig.Results().Len() > 1 {
				unsup("recursive spec with several results")
			}
			// the unfolding holds whatever the path: branch conditions are not used
			s2 := st.clone()
			s2.pc, s2.pcset = nil, map[*Term]bool{}
			for _, f := range st.pc {
				if st.facts[f] == 1 {
					s2.fact(f, 1)
				}
			}
			x.total++
			body := x.evalPure(s2, fn, args, nil)
			x.total--
			for _, f := range s2.pc {
				if s2.facts[f] == 1 {
					x.axFacts[key] = append(x.axFacts[key], f)
				}
			}
			x.axioms[key] = raw("=", "Bool", r.(*Term), body)
			if x.recAx == nil {
				x.recAx = map[*Term]*Term{}
			}
			x.recAx[x.axioms[key]] = r.(*Term)
			_ = i
		}
		x.recDepth--
	}
	if a := x.axioms[key]; a != nil {
		for _, f := range x.axFacts[key] {
			st.fact(f, 1)
		}
		st.fact(a, 1)
	}
	k(st, res)
}

func heapKey(st *State) string { return "" }

func ids(ts []*Term) string {
	var sb strings.Builder
	for _, t := range ts {
		fmt.Fprintf(&sb, ",%d", t.id)
	}
	return sb.String()
}

// --- builtins

func (x *Exec) builtin(fr *Frame, b *ssa.Builtin, c *ssa.CallCommon, args []Val, st *State, in *ssa.Call, k func(*State, Val)) {
	switch b.Name() {
	case "len", "cap":
		t := x.termSt(st, args[0])
		switch t.sort {
		case "Slice":
			if b.Name() == "cap" {
				k(st, tSel("s_cap", t))
				return
			}
			k(st, tSel("s_len", t))
			return
		case "String":
			k(st, tLen(t))
			return
		case "Bytes":
			k(st, tLen(tSel("by_str", t)))
			return
		case "Int":
			mt := c.Args[0].Type().Underlying().(*types.Map)
			k(st, card(x.mapDom(st, mt, t)))
			return
		}
	case "append":
		x.append(fr, c, args, st, in.Pos(), k)
		return
	case "recover":
		if st.panicV != nil && !st.recov {
			st.recov = true
			k(st, st.panicV)
			return
		}
		k(st, nilAny())
		return
	case "delete":
		mt := c.Args[0].Type().Underlying().(*types.Map)
		m := args[0].(*Term)
		if tEq(m, mkInt(0)) == tTrue {
			k(st, nil)
			return
		}
		if !x.frame(st, "map delete", in.Pos(), m, mapClass(mt)) {
			return
		}
		x.mapDelete(st, mt, m, x.termSt(st, args[1]))
		k(st, nil)
		return
	case "copy":
		x.copy(fr, c, args, st, in.Pos(), k)
		return
	case "print", "println":
		k(st, nil)
		return
	case "min", "max":
		r := x.termSt(st, args[0])
		if r.sort == "Int" {
			for _, a := range args[1:] {
				t := x.termSt(st, a)
				cnd := tLe(r, t)
				if b.Name() == "max" {
					cnd = tLe(t, r)
				}
				r = tIte(cnd, r, t)
			}
			k(st, r)
			return
		}
	case "ssa:wrapnilchk":
		k(st, args[0])
		return
	}
	unsup("builtin %s", b.Name())
}

func (x *Exec) append(fr *Frame, c *ssa.CallCommon, args []Val, st *State, pos token.Pos, k func(*State, Val)) {
	s := x.termSt(st, args[0])
	t := x.termSt(st, args[1])
	if s.sort == "Bytes" {
		ts := t
		if t.sort == "Bytes" {
			ts = tSel("by_str", t)
		}
		nl := tAnd(tSel("by_nil", s), tEq(tLen(ts), mkInt(0)))
		k(st, tCtor("mkB", nl, tConcat(tSel("by_str", s), ts)))
		return
	}
	et := c.Args[0].Type().Underlying().(*types.Slice).Elem()
	h, hs := elemHeap(et)
	ref, off, ln, cp := tSel("s_ref", s), tSel("s_off", s), tSel("s_len", s), tSel("s_cap", s)
	tn := tSel("s_len", t)
	if tn == mkInt(0) {
		k(st, s)
		return
	}
	tref, toff := tSel("s_ref", t), tSel("s_off", t)
	content := func(st *State) *Term {
		base := tSelect(x.heap(st, h, hs), ref)
		src := tSelect(x.heap(st, h, hs), tref)
		if tn.op == "const" && tn.ival <= 16 {
			for i := int64(0); i < tn.ival; i++ {
				base = tStore(base, tAdd(off, tAdd(ln, mkInt(i))), tSelect(src, tAdd(toff, mkInt(i))))
			}
			return base
		}
		if ln == mkInt(0) {
			d := tSub(toff, off)
			if d == mkInt(0) {
				return src
			}
			return shiftArr(src, d)
		}
		return catArr(base, tAdd(off, ln), src, toff, tn)
	}
	nl := tAdd(ln, tn)
	grow := tLt(cp, nl)
	// room in the backing array
	if cg := tNot(grow); x.feasible(st, cg) {
		s2 := st.clone()
		if s2.assume(cg) && x.frame(s2, "append in place", pos, ref, h) {
			v := content(s2)
			x.setHeap(s2, h, hs, ref, v)
			k(s2, mkSlice(ref, off, nl, cp))
		}
	}
	if x.feasible(st, grow) && st.assume(grow) {
		v := content(st)
		r := st.alloc()
		x.setHeap(st, h, hs, r, v)
		ncap := app("growcap", "Int", cp, nl)
		st.assume(raw("<=", "Bool", nl, ncap))
		st.assume(raw("<=", "Bool", ncap, mkInt(1<<48)))
		k(st, mkSlice(r, off, nl, ncap))
	}
}

func shiftArr(a, d *Term) *Term {
	name := "shift_" + sanitize(a.sort)
	if fnAxioms[name] == nil {
		fnAxioms[name] = func(t *Term) []*Term {
			k := boundVar("k", "Int")
			l := raw("select", mustElem(t.sort), t, k)
			return []*Term{tForall([]*Term{k}, raw("=", "Bool", l, tSelect(t.args[0], tAdd(k, t.args[1]))), l)}
		}
	}
	return app(name, a.sort, a, d)
}

// catArr: a with b[boff..boff+n) copied to position p.
func catArr(a, p, b, boff, n *Term) *Term {
	name := "cat_" + sanitize(a.sort)
	if fnAxioms[name] == nil {
		fnAxioms[name] = func(t *Term) []*Term {
			k := boundVar("k", "Int")
			l := raw("select", mustElem(t.sort), t, k)
			a, p, b, boff, n := t.args[0], t.args[1], t.args[2], t.args[3], t.args[4]
			in := tAnd(tLe(p, k), tLt(k, tAdd(p, n)))
			return []*Term{tForall([]*Term{k}, raw("=", "Bool", l, raw("ite", l.sort, in, tSelect(b, tAdd(tSub(k, p), boff)), tSelect(a, k))), l)}
		}
	}
	return app(name, a.sort, a, p, b, boff, n)
}

func (x *Exec) copy(fr *Frame, c *ssa.CallCommon, args []Val, st *State, pos token.Pos, k func(*State, Val)) {
	s, t := x.termSt(st, args[0]), x.termSt(st, args[1])
	if s.sort != "Slice" || t.sort != "Slice" {
		unsup("copy of %s", s.sort)
	}
	et := c.Args[0].Type().Underlying().(*types.Slice).Elem()
	h, hs := elemHeap(et)
	n := tIte(tLe(tSel("s_len", s), tSel("s_len", t)), tSel("s_len", s), tSel("s_len", t))
	if !x.frame(st, "copy", pos, tSel("s_ref", s), h) {
		return
	}
	hp := x.heap(st, h, hs)
	v := catArr(tSelect(hp, tSel("s_ref", s)), tSel("s_off", s), tSelect(hp, tSel("s_ref", t)), tSel("s_off", t), n)
	x.setHeap(st, h, hs, tSel("s_ref", s), v)
	k(st, n)
}

// --- intrinsics of the contract language

func (x *Exec) intrinsic(fr *Frame, fn *ssa.Function, args []Val, st *State, in *ssa.Call, k func(*State, Val)) bool {
	name := fn.Name()
	if i := strings.IndexByte(name, '['); i >= 0 {
		name = name[:i]
	}
	pos := token.NoPos
	if in != nil {
		pos = in.Pos()
	}
	switch name {
	case "vRequires":
		if st.assume(x.termSt(st, args[0])) {
			k(st, nil)
		}
	case "vEnsures":
		lbl := args[0].(*Term)
		if lbl.op != "const" {
			unsup("label must be constant")
		}
		c := x.termSt(st, args[1])
		props, text := splitLabel(lbl.sval)
		x.oblige(st, "ensures", text, props, pos, c)
		if x.dry == 0 && !x.covers[text] {
			x.covers[text] = true
		}
		if st.assume(c) {
			k(st, nil)
		}
	case "vAssume":
		x.P.assumption("assumed in a contract: " + x.P.posStr(pos))
		if st.assume(x.termSt(st, args[0])) {
			k(st, nil)
		}
	case "vModifies":
		for _, a := range variadic(x, st, args[0]) {
			t := x.termSt(st, a)
			if t.op == "ctor" && len(t.args) == 1 {
				t = t.args[0]
			}
			if t.sort == "Slice" {
				t = tSel("s_ref", t)
			}
			st.mods = append(st.mods, t)
		}
		k(st, nil)
	case "vAll": // vAll(n, func(i int) bool)
		n := x.termSt(st, args[0])
		k(st, x.forallInt(st, n, args[1]))
	case "vAllKeys": // vAllKeys[V](m map[string]V, func(k string) bool): for all strings k
		k(st, x.forallStr(st, args[len(args)-1]))
	case "vSame":
		k(st, x.same(st, fn.Signature.Params().At(0).Type(), x.termSt(st, args[0]), x.termSt(st, args[1])))
	case "vIdent": // the same object
		k(st, tEq(x.termSt(st, args[0]), x.termSt(st, args[1])))
	case "vSetMap": // the map gets the content of another
		mt := fn.Signature.Params().At(0).Type().Underlying().(*types.Map)
		m, src := x.termSt(st, args[0]), x.termSt(st, args[1])
		dom, vals := x.mapDom(st, mt, src), x.mapVals(st, mt, src)
		if !x.frame(st, "map update", pos, m, mapClass(mt)) {
			return true
		}
		mv, md, _, ks, vs := mapHeaps(mt)
		x.setHeap(st, md, arraySort("Int", arraySort(ks, "Bool")), m, dom)
		x.setHeap(st, mv, arraySort("Int", arraySort(ks, vs)), m, vals)
		k(st, nil)
	case "vCopyMap": // a new map with the same entries
		mt := fn.Signature.Params().At(0).Type().Underlying().(*types.Map)
		m := x.termSt(st, args[0])
		dom, vals := x.mapDom(st, mt, m), x.mapVals(st, mt, m)
		r := st.alloc()
		mv, md, _, ks, vs := mapHeaps(mt)
		x.setHeap(st, md, arraySort("Int", arraySort(ks, "Bool")), r, dom)
		x.setHeap(st, mv, arraySort("Int", arraySort(ks, vs)), r, vals)
		k(st, r)
	case "vSeq": // vSeq(n, func(i int) T) []T
		et := fn.Signature.Results().At(0).Type().Underlying().(*types.Slice).Elem()
		n := x.termSt(st, args[0])
		h, hs := elemHeap(et)
		arr := x.seqTerm(st, n, args[1], sortOf(et))
		r := st.alloc()
		x.setHeap(st, h, hs, r, arr)
		st.assume(tLe(mkInt(0), n))
		k(st, mkSlice(r, mkInt(0), n, n))
	case "vSeen":
		kx := x.termSt(st, args[0])
		if len(x.curVis) == 0 {
			unsup("vSeen outside an invariant of a map loop")
		}
		var v *Term
		for _, vt := range x.curVis {
			if a, _ := elemSort(vt.sort); a == kx.sort {
				v = vt
			}
		}
		if v == nil {
			unsup("vSeen: no visited set")
		}
		k(st, tSelect(v, kx))
	case "vFresh": // the object was made during the call
		t := x.termSt(st, args[0])
		if t.op == "ctor" && len(t.args) == 1 {
			t = t.args[0]
		}
		if t.sort == "Slice" {
			t = tSel("s_ref", t)
		}
		if t.sort != "Int" {
			unsup("vFresh of %s", t)
		}
		if t.op == "alloc" {
			k(st, tTrue)
			return true
		}
		k(st, tLe(allocTerm(0, 0), t))
	case "vUnsupported":
		unsup("%s", args[0].(*Term).sval)
	case "vMayPanic":
		s2 := st.clone()
		x.doPanic(fr, s2, nil, pos)
		k(st, nil)
	case "vNondet":
		rt := fn.Signature.Results().At(0).Type()
		v := fresh("nondet", sortOf(rt), 0)
		k(st, x.wf(st, rt, v))
	case "vEvent":
		t := st.events
		var as []*Term
		as = append(as, t)
		for _, a := range variadic(x, st, args[1]) {
			as = append(as, x.freeze(st, x.termSt(st, a), nil))
		}
		st.events = app("ev_"+sanitize(args[0].(*Term).sval), "Ev", as...)
		k(st, nil)
	case "vUF": // vUF[T](name string, args ...any) T: an uninterpreted function of the arguments
		rt := fn.Signature.Results().At(0).Type()
		nm := args[0].(*Term)
		var as []*Term
		for _, a := range variadic(x, st, args[1]) {
			as = append(as, x.freeze(st, x.argTerm(st, a), nil))
		}
		v := app("u_"+sanitize(nm.sval), sortOf(rt), as...)
		k(st, x.wf(st, rt, v))
	default:
		return false
	}
	return true
}

func splitLabel(s string) ([]string, string) {
	i := strings.Index(s, ":")
	if i < 0 {
		return nil, s
	}
	return strings.Split(strings.ReplaceAll(s[:i], " ", ""), ","), strings.TrimSpace(s[i+1:])
}

// variadic gives the elements of a variadic interface slice of known length.
func variadic(x *Exec, st *State, v Val) []Val {
	s := x.termSt(st, v)
	n := tSel("s_len", s)
	if n.op != "const" {
		unsup("variadic arguments of unknown number")
	}
	h, hs := elemHeap(types.NewInterfaceType(nil, nil))
	for _, name := range []string{h} {
		_ = name
	}
	arr := tSelect(x.heap(st, h, hs), tSel("s_ref", s))
	var out []Val
	for i := int64(0); i < n.ival; i++ {
		out = append(out, tSelect(arr, tAdd(tSel("s_off", s), mkInt(i))))
	}
	return out
}

func (x *Exec) closure(v Val) (*ssa.Function, []Val) {
	f, ok := v.(*VFunc)
	if !ok || f.fn == nil {
		unsup("quantifier over an unknown function")
	}
	return f.fn, f.binds
}

func (x *Exec) mentionsQuantified(t *Term) bool {
	found := false
	collect([]*Term{t}, func(u *Term) {
		if x.qvars[u] {
			found = true
		}
	})
	return found
}

func (x *Exec) generalise(st *State, srt string, t types.Type, range_ func(i *Term) *Term, v Val) (*Term, *Term) {
	i := fresh("q", srt, 0)
	mark := len(termTab)
	s := st.clone()
	s.assume(range_(i))
	fn, binds := x.closure(v)
	era, kk := s.era, s.k
	x.quant++
	if x.qvars == nil {
		x.qvars = map[*Term]bool{}
	}
	x.qvars[i] = true
	m0 := len(s.pc)
	body := x.evalPure(s, fn, []Val{i}, binds)
	x.quant--
	for _, f := range s.pc[m0:] {
		if s.facts[f] != 1 {
			continue
		}
		if !x.mentionsQuantified(f) {
			st.fact(f, 1)
		} else if ap := x.recAx[f]; ap != nil && srt != "Int" {
			// the unfolding of a recursive specification applied to the bound variable
			b := boundVar("u", srt)
			m := map[*Term]*Term{i: b}
			g := tForall([]*Term{b}, subst(tImp(range_(i), f), m), subst(ap, m))
			if !x.mentionsQuantified(g) {
				st.fact(g, 1)
			}
		}
	}
	collect([]*Term{body}, func(u *Term) {
		if u.id > mark && u.op == "sym" && strings.Contains(u.name, "!") && !u.bound && !strings.HasPrefix(u.name, "top!") {
			unsup("fresh value %s under a quantifier", u.name)
		}
		if u.op == "alloc" && u.ival >= int64(era)<<eraShift+int64(kk) {
			unsup("allocation under a quantifier")
		}
	})
	return i, body
}

func (x *Exec) forallInt(st *State, n *Term, f Val) *Term {
	if n.op == "const" && n.ival <= 8 {
		r := tTrue
		fn, binds := x.closure(f)
		for i := int64(0); i < n.ival; i++ {
			r = tAnd(r, x.evalPure(st, fn, []Val{mkInt(i)}, binds))
		}
		return r
	}
	rng := func(i *Term) *Term { return tAnd(tLe(mkInt(0), i), tLt(i, n)) }
	i, body := x.generalise(st, "Int", types.Typ[types.Int], rng, f)
	b := boundVar("i", "Int")
	return tForall([]*Term{b}, tImp(rng(b), subst(body, map[*Term]*Term{i: b})))
}

func (x *Exec) forallStr(st *State, f Val) *Term {
	i, body := x.generalise(st, "String", types.Typ[types.String], func(i *Term) *Term { return tTrue }, f)
	b := boundVar("s", "String")
	return tForall([]*Term{b}, subst(body, map[*Term]*Term{i: b}))
}

// seqTerm: an array term defined pointwise.
func (x *Exec) seqTerm(st *State, n *Term, f Val, es string) *Term {
	rng := func(i *Term) *Term { return tAnd(tLe(mkInt(0), i), tLt(i, n)) }
	i, body := x.generalise(st, "Int", types.Typ[types.Int], rng, f)
	// name the array by its body: equal bodies give equal arrays
	key := subst(body, map[*Term]*Term{i: seqVar()})
	name := fmt.Sprintf("seq%d", key.id)
	arr := symbol(name, arraySort("Int", es), body.stamp)
	if _, ok := seqDefs[name]; !ok {
		b := boundVar("i", "Int")
		l := raw("select", es, arr, b)
		seqDefs[name] = tForall([]*Term{b}, raw("=", "Bool", l, subst(body, map[*Term]*Term{i: b})), l)
		fnAxioms[arr.name] = func(t *Term) []*Term { return []*Term{seqDefs[name]} }
	}
	return arr
}

var seqDefs = map[string]*Term{}

func seqVar() *Term { return symbol("seqvar", "Int", 0) }

// same: equality of contents.
func (x *Exec) same(st *State, t types.Type, a, b *Term) *Term {
	if a == b {
		return tTrue
	}
	switch u := t.Underlying().(type) {
	case *types.Slice:
		if isBytes(t) {
			return tEq(tSel("by_str", a), tSel("by_str", b))
		}
		h, hs := elemHeap(u.Elem())
		ea, eb := tSelect(x.heap(st, h, hs), tSel("s_ref", a)), tSelect(x.heap(st, h, hs), tSel("s_ref", b))
		oa, ob := tSel("s_off", a), tSel("s_off", b)
		n := tSel("s_len", a)
		cond := tEq(n, tSel("s_len", b))
		if n.op == "const" && n.ival <= 8 {
			for i := int64(0); i < n.ival; i++ {
				cond = tAnd(cond, x.same(st, u.Elem(), tSelect(ea, tAdd(oa, mkInt(i))), tSelect(eb, tAdd(ob, mkInt(i)))))
			}
			return cond
		}
		i := boundVar("i", "Int")
		return tAnd(cond, tForall([]*Term{i}, tImp(tAnd(tLe(mkInt(0), i), tLt(i, n)), tEq(tSelect(ea, tAdd(oa, i)), tSelect(eb, tAdd(ob, i))))))
	case *types.Map:
		da, db := x.mapDom(st, u, a), x.mapDom(st, u, b)
		va, vb := x.mapVals(st, u, a), x.mapVals(st, u, b)
		k := boundVar("k", sortOf(u.Key()))
		return tForall([]*Term{k}, tAnd(tEq(tSelect(da, k), tSelect(db, k)), tImp(tSelect(da, k), tEq(tSelect(va, k), tSelect(vb, k)))))
	case *types.Interface:
		if a.op == "ite" {
			return tIte(a.args[0], x.same(st, t, a.args[1], b), x.same(st, t, a.args[2], b))
		}
		if b.op == "ite" {
			return tIte(b.args[0], x.same(st, t, a, b.args[1]), x.same(st, t, a, b.args[2]))
		}
		if a.op == "ctor" && b.op == "ctor" && a.name == b.name && len(a.args) == 1 {
			return x.same(st, boxTypes[a.name], a.args[0], b.args[0])
		}
		if a.op == "ctor" && len(a.args) == 1 && boxTypes[a.name] != nil {
			_, sel := boxCtor(boxTypes[a.name])
			return tAnd(tIs(a.name, b), x.same(st, boxTypes[a.name], a.args[0], tSel(sel, b)))
		}
		if b.op == "ctor" && len(b.args) == 1 && boxTypes[b.name] != nil {
			return x.same(st, t, b, a)
		}
		return tEq(a, b)
	case *types.Basic:
		return tEq(a, b)
	}
	return tEq(a, b)
}

// stub gives the model of a function: that of the package under verification, or the only one.
func (x *Exec) stub(name string) *ssa.Function {
	m := x.P.stubs[name]
	if x.cur != nil && x.cur.Wrapper != nil {
		if f := x.P.stubs[name+"@"+x.cur.Name][x.cur.Wrapper.Pkg]; f != nil {
			return f
		}
	}
	if len(m) == 0 {
		return nil
	}
	if x.cur != nil && x.cur.Wrapper != nil {
		if f := m[x.cur.Wrapper.Pkg]; f != nil {
			return f
		}
	}
	var best *ssa.Function
	for _, f := range m {
		if best == nil || f.Pkg.Pkg.Path() < best.Pkg.Pkg.Path() {
			best = f
		}
	}
	return best
}
