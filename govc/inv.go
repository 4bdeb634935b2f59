package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// userInv enumerates the ways to bind the parameters of an invariant function to a loop.
func (x *Exec) userInv(ls *loopState, iv *invFn, add func(string, func(v *loopView) *Term)) {
	type binder struct {
		name string
		f    func(v *loopView) Val
	}
	params := iv.fn.Params
	var rec func(i int, bs []binder, used map[string]string)
	count := 0
	rec = func(i int, bs []binder, used map[string]string) {
		if count > 60 {
			return
		}
		if i == len(params) {
			count++
			var nm []string
			for _, b := range bs {
				nm = append(nm, b.name)
			}
			bs2 := append([]binder{}, bs...)
			add(iv.fn.Name()+"("+strings.Join(nm, ",")+")", func(v *loopView) *Term {
				st := v.st.clone()
				var args []Val
				for _, b := range bs2 {
					a := b.f(&loopView{phis: v.phis, st: st, fr: v.fr, iter: v.iter})
					if a == nil {
						unsup("unbound")
					}
					args = append(args, a)
				}
				old := x.curVis
				x.curVis = nil
				for id := range ls.iters {
					x.curVis = append(x.curVis, v.st.iters[id])
				}
				defer func() { x.curVis = old }()
				mark := len(st.pc)
				t := x.evalPure(st, iv.fn, args, nil)
				for _, f := range st.pc[mark:] {
					if st.facts[f] == 1 {
						v.st.fact(f, 1)
					}
				}
				return t
			})
			return
		}
		p := params[i]
		t := p.Type()
		n := p.Name()
		next := func(name string, f func(v *loopView) Val, u map[string]string) {
			rec(i+1, append(bs[:len(bs):len(bs)], binder{name, f}), u)
		}
		suffix := strings.TrimLeft(n, "abcdefghijklmnopqrstuvwxyz")
		switch {
		case n == "iter":
			next("iter", func(v *loopView) Val { return v.iter }, used)
		case strings.HasPrefix(n, "p_"):
			pv, ok := x.cur.params[n[2:]]
			if !ok {
				return
			}
			next(n, func(v *loopView) Val { return pv }, used)
		case strings.HasPrefix(n, "acc"):
			for _, ph := range ls.phis {
				ph := ph
				if types.Identical(ph.Type(), t) {
					u := cp(used)
					u["acc"+suffix] = "phi " + ph.Name()
					next(ph.Comment, func(v *loopView) Val { return v.phis[ph] }, u)
				}
			}
			for c := range ls.cells {
				c := c
				if types.Identical(c.typ, t) {
					u := cp(used)
					u["acc"+suffix] = fmt.Sprintf("cell %d", c.id)
					next(c.name, func(v *loopView) Val { return v.st.cells[c] }, u)
				}
			}
			// variables the loop does not change
		case strings.HasPrefix(n, "init"):
			a := used["acc"+suffix]
			for _, ph := range ls.phis {
				if a == "phi "+ph.Name() {
					in := ls.init[ph]
					next("init", func(v *loopView) Val { return in }, used)
				}
			}
			for c := range ls.cells {
				if a == fmt.Sprintf("cell %d", c.id) {
					in := ls.st0.cells[c]
					next("init", func(v *loopView) Val { return in }, used)
				}
			}
		case strings.HasPrefix(n, "modold"):
			a := used["mod"+strings.TrimPrefix(n, "modold")]
			for i, r := range x.modRefs(ls, t) {
				if a == fmt.Sprint(i) {
					r := r
					mt := t.Underlying().(*types.Map)
					dom, vals := x.mapDom(ls.st0, mt, r), x.mapVals(ls.st0, mt, r)
					next("old", func(v *loopView) Val {
						m := v.st.alloc()
						mv, md, _, ks, vs := mapHeaps(mt)
						x.setHeap(v.st, md, arraySort("Int", arraySort(ks, "Bool")), m, dom)
						x.setHeap(v.st, mv, arraySort("Int", arraySort(ks, vs)), m, vals)
						return m
					}, used)
				}
			}
		case strings.HasPrefix(n, "mod"):
			for i, r := range x.modRefs(ls, t) {
				r := r
				u := cp(used)
				u["mod"+strings.TrimPrefix(n, "mod")] = fmt.Sprint(i)
				next("mod", func(v *loopView) Val { return r }, u)
			}
		case strings.HasPrefix(n, "v_"):
			for _, c := range x.liveIn(ls, t) {
				c := c
				next(c.name, func(v *loopView) Val { return c.val }, used)
			}
		}
	}
	rec(0, nil, map[string]string{})
}

// modRefs: objects of the type the loop writes to that exist before it.
func (x *Exec) modRefs(ls *loopState, t types.Type) []*Term {
	var out []*Term
	if mt, ok := t.Underlying().(*types.Map); ok {
		mv, _, _, _, _ := mapHeaps(mt)
		for _, r := range ls.exempt[mv] {
			out = append(out, r)
		}
	}
	return out
}

type live struct {
	name string
	val  Val
}

// liveIn: values of the type made before the loop and used in it.
func (x *Exec) liveIn(ls *loopState, t types.Type) []live {
	var out []live
	seen := map[ssa.Value]bool{}
	seenT := map[Val]bool{}
	addv := func(n string, v Val) {
		if tt, ok := v.(*Term); ok {
			if seenT[tt] {
				return
			}
			seenT[tt] = true
		}
		out = append(out, live{n, v})
	}
	for _, b := range ls.fr0.fn.Blocks {
		if !ls.lc.body[b] {
			continue
		}
		for _, in := range b.Instrs {
			var ops []ssa.Value
			if ph, ok := in.(*ssa.Phi); ok && b == ls.lc.head && ls.init[ph] != nil {
				continue // initial values
			}
			for _, op := range in.Operands(nil) {
				ops = append(ops, *op)
				// what a length made before the loop is the length of
				if c, ok := (*op).(*ssa.Call); ok && !ls.lc.body[c.Block()] {
					if b, ok := c.Call.Value.(*ssa.Builtin); ok && b.Name() == "len" {
						ops = append(ops, c.Call.Args[0])
					}
				}
			}
			for _, v := range ops {
				if v == nil || seen[v] {
					continue
				}
				seen[v] = true
				if i, ok := v.(ssa.Instruction); ok && ls.lc.body[i.Block()] {
					continue
				}
				val, ok := ls.fr0.env[v]
				if !ok {
					continue
				}
				if sameType(v.Type(), t) {
					if _, isT := val.(*Term); isT {
						addv(v.Name(), val)
					} else if f, isF := val.(*VFunc); isF {
						addv(v.Name(), f)
					}
				}
				if p, ok := val.(*VPtr); ok && p.kind == "cell" && len(p.path) == 0 && !ls.cells[p.cell] && types.Identical(p.cell.typ, t) {
					if cv, ok := ls.st0.cells[p.cell]; ok {
						addv(p.cell.name, cv)
					}
				}
			}
		}
	}
	return out
}

// sameType: types.Identical, also for the types of the SSA form (map iterators) it does not know.
func sameType(a, b types.Type) (same bool) {
	defer func() {
		if recover() != nil {
			same = false
		}
	}()
	return types.Identical(a, b)
}
