package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type loopCtx struct {
	head     *ssa.BasicBlock
	body     map[*ssa.BasicBlock]bool
	count    int
	inv      bool
	dry      bool
	snapFr   *Frame
	snapSt   *State
	snapPrev *ssa.BasicBlock
	backedge func(fr *Frame, prev *ssa.BasicBlock, st *State)
}

// naturalLoops maps loop heads to their bodies.
func naturalLoops(fn *ssa.Function) map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool {
	res := map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool{}
	for _, b := range fn.Blocks {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				body := res[s]
				if body == nil {
					body = map[*ssa.BasicBlock]bool{s: true}
					res[s] = body
				}
				var add func(n *ssa.BasicBlock)
				add = func(n *ssa.BasicBlock) {
					if body[n] {
						return
					}
					body[n] = true
					for _, p := range n.Preds {
						add(p)
					}
				}
				add(b)
			}
		}
	}
	return res
}

type loopView struct {
	phis map[*ssa.Phi]*Term
	st   *State
	fr   *Frame
	iter *Term
}

type cand struct {
	name string
	f    func(v *loopView) *Term
	dead bool
}

type loopState struct {
	lc      *loopCtx
	phis    []*ssa.Phi
	init    map[*ssa.Phi]*Term
	st0     *State
	fr0     *Frame
	heaps   map[string]string // heap -> sort
	cells   map[*Cell]bool
	iters   map[int]bool
	noframe map[string]bool
	exempt  map[string][]*Term
	slots   []heapSlot // places in memory that hold a reference the loop writes through
	pos     *Term
	hv      *State // havoced head state (template)
	hphi    map[*ssa.Phi]*Term
	iter    *Term
	syms    map[*Term]bool
	era     int
}

func (x *Exec) invLoop(lc *loopCtx) {
	ls := &loopState{lc: lc, st0: lc.snapSt, fr0: lc.snapFr, init: map[*ssa.Phi]*Term{}, heaps: map[string]string{}, cells: map[*Cell]bool{}, iters: map[int]bool{}, noframe: map[string]bool{}, exempt: map[string][]*Term{}}
	idx := -1
	for i, p := range lc.head.Preds {
		if p == lc.snapPrev {
			idx = i
		}
	}
	for i := 0; i < nPhis(lc.head); i++ {
		ph := lc.head.Instrs[i].(*ssa.Phi)
		ls.phis = append(ls.phis, ph)
		ls.init[ph] = x.termSt(ls.st0, x.eval(ls.fr0, ls.st0, ph.Edges[idx]))
	}
	// which memory does the loop change?
	for round := 0; ; round++ {
		if round > 8 {
			unsup("loop effects do not stabilise")
		}
		x.havocHead(ls)
		if !x.effects(ls) {
			break
		}
	}
	x.havocHead(ls)
	cands := x.candidates(ls)
	// they must hold on entry
	v0 := &loopView{phis: ls.init, st: ls.st0, fr: ls.fr0, iter: mkInt(0)}
	var live []*cand
	for _, c := range cands {
		t := x.tryCand(c, v0)
		if t == nil {
			continue
		}
		if t != tTrue && !x.validInv(c, ls.st0, t) {
			if dbg {
				fmt.Fprintf(os.Stderr, "  drop(init) %s: %s\n", c.name, t)
			}
			continue
		}
		live = append(live, c)
	}
	// Houdini
	for round := 0; round < 30; round++ {
		dropped := false
		x.dry++
		x.runBody(ls, live, true, func(v *loopView) {
			for _, c := range live {
				if c.dead {
					continue
				}
				t := x.tryCand(c, v)
				if t == nil || t != tTrue && !x.validInv(c, v.st, t) {
					if dbg {
						fmt.Fprintf(os.Stderr, "  drop(step) %s: %v\n", c.name, t)
						if d := os.Getenv("GOVC_DUMPDROP"); d != "" && t != nil && strings.HasPrefix(c.name, "inv") {
							s := buildScript(append(append([]*Term{}, v.st.pc...), tNot(t)))
							os.WriteFile(d+"/drop_"+sanitize(c.name)+".smt2", []byte(s.text+"(check-sat)\n"), 0o644)
						}
					}
					c.dead = true
					dropped = true
				}
			}
		})
		x.dry--
		if !dropped {
			break
		}
		var l2 []*cand
		for _, c := range live {
			if !c.dead {
				l2 = append(l2, c)
			}
		}
		live = l2
	}
	if dbg {
		for _, c := range live {
			fmt.Fprintf(os.Stderr, "  inv %s\n", c.name)
		}
	}
	if x.dry == 0 {
		x.cur.Loops++
		x.cur.Invariants += len(live)
	}
	// final run; the invariants were proved by the rounds above, on the same paths
	nw := len(ls.hv.writes)
	x.runBody(ls, live, false, func(v *loopView) {
		for _, w := range v.st.writes[nw:] {
			if w.heap == "" || ls.noframe[w.heap] {
				continue
			}
			var alts []*Term
			if w.ref.op == "alloc" && w.ref.ival >= ls.pos.ival {
				continue
			}
			alts = append(alts, tLe(ls.pos, w.ref))
			for _, e := range ls.exempt[w.heap] {
				alts = append(alts, tEq(e, w.ref))
			}
			x.oblige(v.st, "loop", "loop effects on "+w.heap, x.cur.Props, lc.head.Instrs[0].Pos(), tOr(alts...))
		}
	})
}

func (x *Exec) tryCand(c *cand, v *loopView) (t *Term) {
	defer func() {
		if r := recover(); r != nil {
			if u, ok := r.(unsupported); ok {
				if dbg {
					fmt.Fprintf(os.Stderr, "  cand %s: unsupported %s\n", c.name, u.msg)
				}
				t = nil
				return
			}
			panic(r)
		}
	}()
	return c.f(v)
}

// appendOnly: the loop leaves the slice alone or appends to it.
func appendOnly(ph *ssa.Phi, body map[*ssa.BasicBlock]bool) bool {
	seen := map[ssa.Value]bool{ph: true}
	var ok func(v ssa.Value) bool
	ok = func(v ssa.Value) bool {
		if seen[v] {
			return true
		}
		seen[v] = true
		switch v := v.(type) {
		case *ssa.Phi:
			if !body[v.Block()] {
				return false
			}
			for _, e := range v.Edges {
				if !ok(e) {
					return false
				}
			}
			return true
		case *ssa.Call:
			b, isB := v.Call.Value.(*ssa.Builtin)
			return isB && b.Name() == "append" && body[v.Block()] && ok(v.Call.Args[0])
		}
		return false
	}
	for i, e := range ph.Edges {
		if body[ph.Block().Preds[i]] && !ok(e) {
			return false
		}
	}
	return true
}

func (x *Exec) havocHead(ls *loopState) {
	st := ls.st0.clone()
	ls.pos = allocTerm(st.era, st.k)
	ls.era = newEra(st.era, st.k)
	st.era, st.k = ls.era, 0
	stamp := int64(ls.era) << eraShift
	top := allocTerm(ls.era, 0)
	ls.syms = map[*Term]bool{}
	ls.hphi = map[*ssa.Phi]*Term{}
	mk := func(name string, t types.Type, srt string) *Term {
		sp := stamp
		if b, ok := t.Underlying().(*types.Basic); ok && b.Kind() != types.UnsafePointer {
			sp = 0 // no reference
		}
		s := fresh("l_"+name, srt, sp)
		ls.syms[s] = true
		st.assume(wellFormed(t, s))
		switch srt {
		case "Slice":
			st.assume(raw("<", "Bool", tSel("s_ref", s), top))
		case "Int":
			switch t.Underlying().(type) {
			case *types.Pointer, *types.Map:
				st.assume(raw("<", "Bool", s, top))
			}
		}
		return s
	}
	for _, ph := range ls.phis {
		ls.hphi[ph] = mk(ph.Comment, ph.Type(), ls.init[ph].sort)
		if i := ls.init[ph]; i.sort == "Slice" && appendOnly(ph, ls.lc.body) {
			if r := tSel("s_ref", i); r.op == "alloc" {
				floors[ls.hphi[ph]] = r.ival
			}
		}
	}
	var cs []*Cell
	for c := range ls.cells {
		cs = append(cs, c)
	}
	sort.Slice(cs, func(i, j int) bool { return cs[i].id < cs[j].id })
	for _, c := range cs {
		v := x.termSt(st, st.cells[c])
		st.cells[c] = mk(c.name, c.typ, v.sort)
	}
	var hs []string
	for h := range ls.heaps {
		hs = append(hs, h)
	}
	sort.Strings(hs)
	for _, h := range hs {
		old := x.heap(st, h, ls.heaps[h])
		n := fresh("lh_"+h, ls.heaps[h], stamp)
		ls.syms[n] = true
		if !ls.noframe[h] {
			hframes[n] = &hframe{old: old, pos: ls.pos, exempt: ls.exempt[h]}
		}
		older := ls.noframe[h]
		for _, e := range ls.exempt[h] {
			older = older || e.op != "alloc"
		}
		if older { // earlier iterations wrote to older memory
			st.epochs[heapClass(h)]++
		}
		st.heaps[h] = n
	}
	for id := range ls.iters {
		v := fresh("vis", st.iters[id].sort, 0)
		ls.syms[v] = true
		st.iters[id] = v
	}
	ls.iter = fresh("iter", "Int", 0)
	ls.syms[ls.iter] = true
	st.assume(raw("<=", "Bool", mkInt(0), ls.iter))
	st.assume(raw("<=", "Bool", ls.iter, mkInt(1<<50)))
	ls.hv = st
}

// runBody executes one iteration from the havoced head.
func (x *Exec) runBody(ls *loopState, inv []*cand, dry bool, onBack func(v *loopView)) {
	st := ls.hv.clone()
	fr := ls.fr0.clone()
	if dry {
		for h, c := range fr.loops {
			_ = h
			_ = c
		}
	}
	for _, ph := range ls.phis {
		fr.env[ph] = ls.hphi[ph]
		if f := funcOf[ls.hphi[ph]]; f != nil {
			fr.env[ph] = f
		}
	}
	v := &loopView{phis: ls.hphi, st: st, fr: fr, iter: ls.iter}
	for _, c := range inv {
		t := x.tryCand(c, v)
		if t != nil {
			if !st.assume(t) {
				return
			}
		}
	}
	nc := &loopCtx{head: ls.lc.head, body: ls.lc.body, inv: true, dry: dry}
	nc.backedge = func(fr *Frame, prev *ssa.BasicBlock, st *State) {
		idx := -1
		for i, p := range ls.lc.head.Preds {
			if p == prev {
				idx = i
			}
		}
		nv := &loopView{phis: map[*ssa.Phi]*Term{}, st: st, fr: fr, iter: tAdd(ls.iter, mkInt(1))}
		for _, ph := range ls.phis {
			nv.phis[ph] = x.termSt(st, x.eval(fr, st, ph.Edges[idx]))
		}
		onBack(nv)
	}
	fr.loops[ls.lc.head] = nc
	x.run(fr, ls.lc.head, nPhis(ls.lc.head), st)
}

// effects finds the memory one iteration changes; true if something new was found.
func (x *Exec) effects(ls *loopState) bool {
	grown := false
	nw := len(ls.hv.writes)
	x.dry++
	x.runBody(ls, nil, true, func(v *loopView) {
		for _, w := range v.st.writes[nw:] {
			switch {
			case w.cell != nil:
				if _, ok := ls.st0.cells[w.cell]; ok && !ls.cells[w.cell] {
					ls.cells[w.cell] = true
					grown = true
				}
			case w.iter != 0:
				if _, ok := ls.st0.iters[w.iter]; ok && !ls.iters[w.iter] {
					ls.iters[w.iter] = true
					grown = true
				}
			default:
				if _, ok := ls.heaps[w.heap]; !ok {
					ls.heaps[w.heap] = w.hs
					grown = true
				}
				if w.ref.op == "alloc" && w.ref.ival >= int64(ls.era)<<eraShift || ls.noframe[w.heap] {
					continue
				}
				add := func(r *Term) bool {
					if r.op == "const" {
						return true
					}
					for _, e := range ls.exempt[w.heap] {
						if e == r {
							return true
						}
					}
					ls.exempt[w.heap] = append(ls.exempt[w.heap], r)
					grown = true
					return true
				}
				if !x.dependsOn(w.ref, ls.syms) {
					add(w.ref)
					continue
				}
				// reference carried by the loop: start with the initial ones
				if ref := w.ref; true {
					found := false
					for _, ph := range ls.phis {
						h := ls.hphi[ph]
						if h.sort == "Slice" && tSel("s_ref", h) == ref {
							add(tSel("s_ref", ls.init[ph]))
							found = true
						} else if h == ref {
							add(ls.init[ph])
							found = true
						}
					}
					for c := range ls.cells {
						h, _ := ls.hv.cells[c].(*Term)
						o, _ := ls.st0.cells[c].(*Term)
						if h == nil || o == nil {
							continue
						}
						if h.sort == "Slice" && tSel("s_ref", h) == ref {
							add(tSel("s_ref", o))
							found = true
						} else if h == ref {
							add(o)
							found = true
						}
					}
					if !found {
						if sl, ok := ls.slotOf(x, ref); ok {
							ls.addSlot(sl)
							add(sl.get(x, ls.st0))
							found = true
						}
					}
					if !found {
						if dbg {
							fmt.Fprintf(os.Stderr, "  no frame for %s (%s)\n", w.heap, w.ref)
						}
						ls.noframe[w.heap] = true
						grown = true
					}
				}
			}
		}
	})
	x.dry--
	return grown
}

func (x *Exec) dependsOn(t *Term, syms map[*Term]bool) bool {
	found := false
	collect([]*Term{t}, func(u *Term) {
		if syms[u] {
			found = true
		}
		if u.op == "sym" && strings.HasPrefix(u.name, "key!") {
			found = true
		}
	})
	return found
}

type heapSlot struct {
	heap, hs string
	base     *Term
	slice    bool
}

func (sl heapSlot) get(x *Exec, st *State) *Term {
	r := tSelect(x.heap(st, sl.heap, sl.hs), sl.base)
	if sl.slice {
		r = tSel("s_ref", r)
	}
	return r
}

// slotOf: the reference is read from a place in memory the loop changes, in an object older than the loop.
func (ls *loopState) slotOf(x *Exec, ref *Term) (heapSlot, bool) {
	sl := heapSlot{}
	if ref.op == "sel" && ref.name == "s_ref" {
		sl.slice = true
		ref = ref.args[0]
	}
	if ref.op != "select" || x.dependsOn(ref.args[1], ls.syms) {
		return sl, false
	}
	for h, hs := range ls.heaps {
		if ls.hv.heaps[h] == ref.args[0] {
			sl.heap, sl.hs, sl.base = h, hs, ref.args[1]
			return sl, true
		}
	}
	return sl, false
}

func (ls *loopState) addSlot(sl heapSlot) {
	for _, o := range ls.slots {
		if o == sl {
			return
		}
	}
	ls.slots = append(ls.slots, sl)
}

// --- candidates

func (x *Exec) candidates(ls *loopState) []*cand {
	var out []*cand
	add := func(name string, f func(v *loopView) *Term) { out = append(out, &cand{name: name, f: f}) }
	type varAcc struct {
		name string
		typ  types.Type
		cur  func(v *loopView) *Term
		init *Term
	}
	var vars []varAcc
	for _, ph := range ls.phis {
		ph := ph
		vars = append(vars, varAcc{ph.Comment + "/" + ph.Name(), ph.Type(), func(v *loopView) *Term { return v.phis[ph] }, ls.init[ph]})
	}
	var cs []*Cell
	for c := range ls.cells {
		cs = append(cs, c)
	}
	sort.Slice(cs, func(i, j int) bool { return cs[i].id < cs[j].id })
	for _, c := range cs {
		c := c
		vars = append(vars, varAcc{c.name, c.typ, func(v *loopView) *Term { return x.termSt(v.st, v.st.cells[c]) }, x.termSt(ls.st0, ls.st0.cells[c])})
	}
	for _, va := range vars {
		va := va
		in := va.init
		switch in.sort {
		case "Int":
			_, isB := va.typ.Underlying().(*types.Basic)
			add(va.name+" unchanged", func(v *loopView) *Term { return tEq(va.cur(v), in) })
			if isB {
				add(va.name+" == init+iter", func(v *loopView) *Term { return tEq(va.cur(v), tAdd(in, v.iter)) })
				add(va.name+" == init-iter", func(v *loopView) *Term { return tEq(va.cur(v), tSub(in, v.iter)) })
				add(va.name+" >= init", func(v *loopView) *Term { return tLe(in, va.cur(v)) })
				add(va.name+" <= init+iter", func(v *loopView) *Term { return tLe(va.cur(v), tAdd(in, v.iter)) })
				add(va.name+" >= 0", func(v *loopView) *Term { return tLe(mkInt(0), va.cur(v)) })
			} else {
				add(va.name+" fresh", func(v *loopView) *Term { return tLe(ls.pos, va.cur(v)) })
				add(va.name+" init or fresh", func(v *loopView) *Term { return tOr(tEq(va.cur(v), in), tLe(ls.pos, va.cur(v))) })
			}
		case "Slice":
			add(va.name+" unchanged", func(v *loopView) *Term { return tEq(va.cur(v), in) })
			add(va.name+" ref init or fresh", func(v *loopView) *Term {
				r := tSel("s_ref", va.cur(v))
				return tOr(tEq(r, tSel("s_ref", in)), tLe(ls.pos, r))
			})
			add(va.name+" nil or fresh", func(v *loopView) *Term {
				r := tSel("s_ref", va.cur(v))
				return tOr(tEq(r, mkInt(0)), tLe(allocTerm(0, 0), r))
			})
			if st, ok := va.typ.Underlying().(*types.Slice); ok {
				if _, ok := st.Elem().Underlying().(*types.Pointer); ok {
					h, hs := elemHeap(st.Elem())
					add(va.name+" holds old pointers", func(v *loopView) *Term {
						i := boundVar("i", "Int")
						sl := va.cur(v)
						el := tSelect(tSelect(x.heap(v.st, h, hs), tSel("s_ref", sl)), tAdd(tSel("s_off", sl), i))
						return tForall([]*Term{i}, tImp(tAnd(tLe(mkInt(0), i), tLt(i, tSel("s_len", sl))), raw("<", "Bool", el, allocTerm(0, 0))))
					})
				}
			}
			add(va.name+" off", func(v *loopView) *Term { return tEq(tSel("s_off", va.cur(v)), tSel("s_off", in)) })
			add(va.name+" len == init+iter", func(v *loopView) *Term {
				return tEq(tSel("s_len", va.cur(v)), tAdd(tSel("s_len", in), v.iter))
			})
			add(va.name+" len <= init+iter", func(v *loopView) *Term {
				return tLe(tSel("s_len", va.cur(v)), tAdd(tSel("s_len", in), v.iter))
			})
		default:
			add(va.name+" unchanged", func(v *loopView) *Term { return tEq(va.cur(v), in) })
		}
	}
	for _, sl := range ls.slots {
		sl := sl
		in := sl.get(x, ls.st0)
		add("reference in "+sl.heap+" init or fresh", func(v *loopView) *Term {
			r := sl.get(x, v.st)
			return tOr(tEq(r, in), tLe(ls.pos, r))
		})
	}
	// bounds from exit conditions in the body that compare a phi with something fixed
	for b := range ls.lc.body {
		iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
		if !ok {
			continue
		}
		bo, ok := iff.Cond.(*ssa.BinOp)
		if !ok || sortOfSafe(bo.X.Type()) != "Int" {
			continue
		}
		try := func(a, c ssa.Value, op token.Token) {
			get := x.phiLin(ls, a)
			lim := x.fixed(ls, c)
			if get == nil || lim == nil {
				return
			}
			var ks []int64
			switch op {
			case token.LSS, token.LEQ, token.NEQ, token.GEQ, token.GTR, token.EQL:
				ks = []int64{-1, 0, 1}
			default:
				return
			}
			for _, k := range ks {
				k := k
				add(fmt.Sprintf("%s <= %s%+d", a.Name(), c.Name(), k), func(v *loopView) *Term { return tLe(get(v), tAdd(lim, mkInt(k))) })
				add(fmt.Sprintf("%s >= %s%+d", a.Name(), c.Name(), k), func(v *loopView) *Term { return tLe(tAdd(lim, mkInt(k)), get(v)) })
			}
		}
		try(bo.X, bo.Y, bo.Op)
		try(bo.Y, bo.X, bo.Op)
	}
	// visited keys are keys
	for id := range ls.iters {
		id := id
		it := x.findIter(ls.fr0, id)
		if it == nil {
			continue
		}
		ks := sortOf(it.mt.Key())
		add("visited keys in the map", func(v *loopView) *Term {
			k := boundVar("k", ks)
			vis := v.st.iters[id]
			return tForall([]*Term{k}, tImp(tSelect(vis, k), tSelect(it.dom, k)), raw("select", "Bool", vis, k))
		})
	}
	// user invariants
	for _, iv := range x.P.invsFor(x.cur) {
		x.userInv(ls, iv, add)
	}
	return out
}

func sortOfSafe(t types.Type) (s string) {
	defer func() {
		if r := recover(); r != nil {
			s = "?"
		}
	}()
	return sortOf(t)
}

func (x *Exec) findIter(fr *Frame, id int) *VIter {
	for f := fr; f != nil; f = f.caller {
		for _, v := range f.env {
			if it, ok := v.(*VIter); ok && it.id == id {
				return it
			}
		}
	}
	return nil
}

// phiLin gives a function for a phi or phi+const.
func (x *Exec) phiLin(ls *loopState, a ssa.Value) func(v *loopView) *Term {
	if ph, ok := a.(*ssa.Phi); ok {
		for _, p := range ls.phis {
			if p == ph {
				return func(v *loopView) *Term { return v.phis[ph] }
			}
		}
		return nil
	}
	if bo, ok := a.(*ssa.BinOp); ok && (bo.Op == token.ADD || bo.Op == token.SUB) {
		if c, ok := bo.Y.(*ssa.Const); ok {
			if g := x.phiLin(ls, bo.X); g != nil {
				k := x.constVal(c).(*Term)
				if bo.Op == token.SUB {
					return func(v *loopView) *Term { return tSub(g(v), k) }
				}
				return func(v *loopView) *Term { return tAdd(g(v), k) }
			}
		}
	}
	if u, ok := a.(*ssa.UnOp); ok && u.Op == token.MUL {
		if p, ok := ls.fr0.env[u.X].(*VPtr); ok && p.kind == "cell" && ls.cells[p.cell] && len(p.path) == 0 {
			return func(v *loopView) *Term { return x.termSt(v.st, v.st.cells[p.cell]) }
		}
	}
	return nil
}

// fixed gives the value of something the loop does not compute from its variables, as it is before the loop.
func (x *Exec) fixed(ls *loopState, a ssa.Value) (out *Term) {
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(unsupported); !ok {
				panic(r)
			}
			out = nil
		}
	}()
	x.dry++
	defer func() { x.dry-- }()
	t, _ := x.outside(ls, ls.st0.clone(), a).(*Term)
	if t != nil && t.sort != "Int" {
		return nil
	}
	return t
}

func (x *Exec) outside(ls *loopState, st *State, a ssa.Value) Val {
	if c, ok := a.(*ssa.Const); ok {
		if c.Value == nil {
			return nil
		}
		return x.constVal(c)
	}
	in, ok := a.(ssa.Instruction)
	if !ok || !ls.lc.body[in.Block()] {
		if v, ok := ls.fr0.env[a]; ok {
			return v
		}
		if g, ok := a.(*ssa.Global); ok {
			return x.globalPtr(st, g)
		}
		return nil
	}
	switch in := a.(type) {
	case *ssa.Call:
		if b, ok := in.Call.Value.(*ssa.Builtin); ok && b.Name() == "len" {
			if t, ok := x.outside(ls, st, in.Call.Args[0]).(*Term); ok {
				switch t.sort {
				case "Slice":
					return tSel("s_len", t)
				case "String":
					return tLen(t)
				}
			}
		}
	case *ssa.UnOp:
		if in.Op == token.MUL {
			p := x.outside(ls, st, in.X)
			if p == nil {
				return nil
			}
			if vp, ok := p.(*VPtr); ok && vp.kind == "cell" && ls.cells[vp.cell] {
				return nil
			}
			if v, ok := x.load(st, p, in.Type(), in.Pos()); ok {
				return v
			}
		}
	case *ssa.FieldAddr:
		if p := x.outside(ls, st, in.X); p != nil {
			if v, ok := x.fieldAddr(st, in, p); ok {
				return v
			}
		}
	case *ssa.BinOp:
		a, ok1 := x.outside(ls, st, in.X).(*Term)
		b, ok2 := x.outside(ls, st, in.Y).(*Term)
		if ok1 && ok2 && a.sort == "Int" && b.sort == "Int" {
			switch in.Op {
			case token.ADD:
				return tAdd(a, b)
			case token.SUB:
				return tSub(a, b)
			}
		}
	}
	return nil
}

// validInv decides a loop invariant candidate; for stated invariants cvc5 is asked as well.
func (x *Exec) validInv(c *cand, st *State, t *Term) bool {
	if t == tTrue || st.pcset[t] {
		return true
	}
	as := append(append([]*Term{}, st.pc...), tNot(t))
	if t == tFalse { // still fine where the state is impossible
		return strings.HasPrefix(c.name, "inv") && quickCheck(as, 1500, true) == "unsat"
	}
	if !strings.HasPrefix(c.name, "inv") {
		return quickCheck(as, 1500, true) == "unsat"
	}
	r := quickCheck(as, 250, true)
	if r == "unsat" || r == "sat" {
		return r == "unsat"
	}
	r = cvc5Check(buildScript(as), 1500)
	if r == "unsat" || r == "sat" {
		return r == "unsat"
	}
	return quickCheck(as, 1500, true) == "unsat" || cvc5Check(buildScript(as), 4000) == "unsat"
}
