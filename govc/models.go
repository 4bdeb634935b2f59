package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type model func(x *Exec, fr *Frame, fn *ssa.Function, args []Val, st *State, pos token.Pos, k func(*State, Val))

var models = map[string]model{}

// errAt is the error value made at a place in the code.
func (x *Exec) errAt(pos token.Pos, name string) *Term {
	return tCtor("otherA", mkInt(1), symbol("err_"+sanitize(x.P.posStr(pos)), "Int", 0))
}

func strModel(f func(a []*Term) *Term) model {
	return func(x *Exec, fr *Frame, fn *ssa.Function, args []Val, st *State, pos token.Pos, k func(*State, Val)) {
		var ts []*Term
		for _, a := range args {
			ts = append(ts, x.termSt(st, a))
		}
		r := f(ts)
		if r == nil {
			r = app("x_"+sanitize(fn.RelString(nil)), sortOf(fn.Signature.Results().At(0).Type()), ts...)
		}
		k(st, r)
	}
}

func init() {
	uninterpSorts["Ev"] = true
	models["errors.New"] = func(x *Exec, fr *Frame, fn *ssa.Function, args []Val, st *State, pos token.Pos, k func(*State, Val)) {
		k(st, x.errAt(pos, "new"))
	}
	models["fmt.Errorf"] = models["errors.New"]
	models["fmt.Sprintf"] = func(x *Exec, fr *Frame, fn *ssa.Function, args []Val, st *State, pos token.Pos, k func(*State, Val)) {
		k(st, x.sprintf(st, args[0].(*Term), args[1].(*Term)))
	}
	models["strings.HasPrefix"] = strModel(func(a []*Term) *Term { return tPrefixOf(a[1], a[0]) })
	models["strings.HasSuffix"] = strModel(func(a []*Term) *Term { return tSuffixOf(a[1], a[0]) })
	models["strings.Contains"] = strModel(func(a []*Term) *Term { return tContains(a[0], a[1]) })
	models["strings.Replace"] = strModel(func(a []*Term) *Term {
		if a[3] == mkInt(1) {
			return tReplace1(a[0], a[1], a[2])
		}
		return nil
	})
	models["strings.ReplaceAll"] = strModel(func(a []*Term) *Term {
		if strConsts(a[0], a[1], a[2]) {
			return mkStr(strings.ReplaceAll(a[0].sval, a[1].sval, a[2].sval))
		}
		return nil
	})
	models["strings.TrimPrefix"] = strModel(func(a []*Term) *Term {
		return tIte(tPrefixOf(a[1], a[0]), tSubstr(a[0], tLen(a[1]), tSub(tLen(a[0]), tLen(a[1]))), a[0])
	})
	models["strings.TrimSuffix"] = strModel(func(a []*Term) *Term {
		return tIte(tSuffixOf(a[1], a[0]), tSubstr(a[0], mkInt(0), tSub(tLen(a[0]), tLen(a[1]))), a[0])
	})
	models["strings.Index"] = strModel(func(a []*Term) *Term {
		if strConsts(a[0], a[1]) {
			return mkInt(int64(strings.Index(a[0].sval, a[1].sval)))
		}
		return raw("str.indexof", "Int", a[0], a[1], mkInt(0))
	})
	models["strings.IndexByte"] = strModel(func(a []*Term) *Term {
		if a[1].op == "const" && a[1].ival < 0x80 {
			return raw("str.indexof", "Int", a[0], mkStr(string(rune(a[1].ival))), mkInt(0))
		}
		return nil
	})
	models["strings.IndexRune"] = models["strings.IndexByte"]
	models["strings.ContainsRune"] = strModel(func(a []*Term) *Term {
		if a[1].op == "const" && a[1].ival < 0x80 {
			return tContains(a[0], mkStr(string(rune(a[1].ival))))
		}
		return nil
	})
	models["strings.Count"] = strModel(func(a []*Term) *Term { return nil })
	models["strings.ToLower"] = strModel(func(a []*Term) *Term {
		if strConsts(a[0]) {
			return mkStr(strings.ToLower(a[0].sval))
		}
		return nil
	})
	models["strings.ToUpper"] = strModel(func(a []*Term) *Term {
		if strConsts(a[0]) {
			return mkStr(strings.ToUpper(a[0].sval))
		}
		return nil
	})
	models["strings.Split"] = func(x *Exec, fr *Frame, fn *ssa.Function, args []Val, st *State, pos token.Pos, k func(*State, Val)) {
		s, sep := x.termSt(st, args[0]), x.termSt(st, args[1])
		strT := types.Typ[types.String]
		h, hs := elemHeap(strT)
		r := st.alloc()
		if strConsts(s, sep) {
			parts := strings.Split(s.sval, sep.sval)
			a := constArr(mustElem(hs), mkStr(""))
			for i, p := range parts {
				a = tStore(a, mkInt(int64(i)), mkStr(p))
			}
			x.setHeap(st, h, hs, r, a)
			n := mkInt(int64(len(parts)))
			k(st, mkSlice(r, mkInt(0), n, n))
			return
		}
		if x.cur.Opaque["strings.Split"] {
			n := app("osplit_len", "Int", s, sep)
			st.fact(tAnd(raw("<=", "Bool", mkInt(0), n), raw("<=", "Bool", n, mkInt(1<<48))), 1)
			x.setHeap(st, h, hs, r, app("osplit_elems", mustElem(hs), s, sep))
			k(st, mkSlice(r, mkInt(0), n, n))
			return
		}
		x.setHeap(st, h, hs, r, splitElems(s, sep))
		n := splitLen(s, sep)
		for _, a := range fnAxioms["nn_splitlen"](n) {
			_ = a
		}
		k(st, mkSlice(r, mkInt(0), n, n))
	}
	models["strings.SplitN"] = func(x *Exec, fr *Frame, fn *ssa.Function, args []Val, st *State, pos token.Pos, k func(*State, Val)) {
		s, sep, n := x.termSt(st, args[0]), x.termSt(st, args[1]), x.termSt(st, args[2])
		if n != mkInt(2) || sep.op != "const" || sep.sval == "" {
			unsup("strings.SplitN with other arguments than a constant separator and 2")
		}
		h, hs := elemHeap(types.Typ[types.String])
		r := st.alloc()
		head, rest, has := cut(s, sep)
		a := constArr(mustElem(hs), mkStr(""))
		a = tStore(a, mkInt(0), tIte(has, head, s))
		a = tStore(a, mkInt(1), tIte(has, rest, mkStr("")))
		x.setHeap(st, h, hs, r, a)
		ln := tIte(has, mkInt(2), mkInt(1))
		k(st, mkSlice(r, mkInt(0), ln, ln))
	}
	models["strings.Cut"] = func(x *Exec, fr *Frame, fn *ssa.Function, args []Val, st *State, pos token.Pos, k func(*State, Val)) {
		s, sep := x.termSt(st, args[0]), x.termSt(st, args[1])
		head, rest, has := cut(s, sep)
		k(st, VTuple{tIte(has, head, s), tIte(has, rest, mkStr("")), has})
	}
	models["strings.Join"] = func(x *Exec, fr *Frame, fn *ssa.Function, args []Val, st *State, pos token.Pos, k func(*State, Val)) {
		s, sep := x.termSt(st, args[0]), x.termSt(st, args[1])
		h, hs := elemHeap(types.Typ[types.String])
		el := tSelect(x.heap(st, h, hs), tSel("s_ref", s))
		k(st, joinTerm(el, tSel("s_off", s), tSel("s_len", s), sep))
	}
	models["strconv.Itoa"] = strModel(func(a []*Term) *Term { return itoa(a[0]) })
	models["reflect.TypeOf"] = func(x *Exec, fr *Frame, fn *ssa.Function, args []Val, st *State, pos token.Pos, k func(*State, Val)) {
		a := x.argTerm(st, args[0])
		rt := tCtor("otherA", mkInt(2), app("rtype", "Int", a))
		switch {
		case x.valid(st, tNot(tEq(a, nilAny()))):
			k(st, rt)
		default:
			k(st, tIte(tEq(a, nilAny()), nilAny(), rt))
		}
	}
}

func cut(s, sep *Term) (head, rest, has *Term) {
	if strConsts(s, sep) {
		h, r, ok := strings.Cut(s.sval, sep.sval)
		return mkStr(h), mkStr(r), mkBool(ok)
	}
	i := raw("str.indexof", "Int", s, sep, mkInt(0))
	return tSubstr(s, mkInt(0), i), tSubstr(s, tAdd(i, tLen(sep)), tSub(tLen(s), tAdd(i, tLen(sep)))), tContains(s, sep)
}

func splitLen(s, sep *Term) *Term {
	name := "nn_splitlen"
	if fnAxioms[name] == nil {
		fnAxioms[name] = splitAxiom
		fnAxioms["split_elems"] = func(t *Term) []*Term { return nil }
	}
	return app(name, "Int", s, sep)
}

func splitElems(s, sep *Term) *Term {
	splitLen(s, sep)
	return app("split_elems", arraySort("Int", "String"), s, sep)
}

func splitAxiom(t *Term) []*Term {
	s, sep := t.args[0], t.args[1]
	el := splitElems(s, sep)
	one := mkInt(1)
	i := raw("str.indexof", "Int", s, sep, mkInt(0))
	rest := tSubstr(s, tAdd(i, tLen(sep)), tSub(tLen(s), tAdd(i, tLen(sep))))
	// s = lit ++ x with the separator inside the literal: the solver need not find it
	var head *Term = tSubstr(s, mkInt(0), i)
	has := tContains(s, sep)
	if s.op == "str.++" && sep.op == "const" && s.args[0].op == "const" {
		if j := strings.Index(s.args[0].sval, sep.sval); j >= 0 {
			head = mkStr(s.args[0].sval[:j])
			rest = tConcat(append([]*Term{mkStr(s.args[0].sval[j+len(sep.sval):])}, s.args[1:]...)...)
			has = tTrue
		}
	}
	if strConsts(s, sep) && sep.sval != "" {
		parts := strings.Split(s.sval, sep.sval)
		out := []*Term{raw("=", "Bool", t, mkInt(int64(len(parts))))}
		for i, p := range parts {
			out = append(out, raw("=", "Bool", tSelect(el, mkInt(int64(i))), mkStr(p)))
		}
		return out
	}
	k := boundVar("k", "Int")
	rl, re := splitLen(rest, sep), splitElems(rest, sep)
	lhs := tSelect(el, tAdd(k, one))
	nonempty := tNot(tEq(sep, mkStr("")))
	return []*Term{
		tImp(nonempty, tLe(one, t)),
		raw("<=", "Bool", t, mkInt(1<<48)),
		tImp(tAnd(nonempty, tNot(has)), tAnd(raw("=", "Bool", t, one), tEq(tSelect(el, mkInt(0)), s))),
		tImp(tAnd(nonempty, has), tAnd(raw("=", "Bool", t, tAdd(rl, one)), raw("=", "Bool", tSelect(el, mkInt(0)), head),
			raw("=", "Bool", tSelect(el, one), tSelect(re, mkInt(0))), raw("=", "Bool", tSelect(el, mkInt(2)), tSelect(re, one)),
			tForall([]*Term{k}, tImp(tLe(mkInt(0), k), raw("=", "Bool", lhs, tSelect(re, k))), lhs))),
	}
}

func joinTerm(el, off, ln, sep *Term) *Term {
	if ln.op == "const" && ln.ival <= 6 && ln.ival >= 0 {
		var ts []*Term
		for i := int64(0); i < ln.ival; i++ {
			if i > 0 {
				ts = append(ts, sep)
			}
			ts = append(ts, tSelect(el, tAdd(off, mkInt(i))))
		}
		return tConcat(ts...)
	}
	name := "frzs_strjoin"
	contentFns[name] = true
	if fnAxioms[name] == nil {
		fnAxioms[name] = func(t *Term) []*Term {
			el, off, ln, sep := t.args[0], t.args[1], t.args[2], t.args[3]
			e0 := tSelect(el, off)
			return []*Term{
				tImp(raw("=", "Bool", ln, mkInt(0)), raw("=", "Bool", t, mkStr(""))),
				tImp(raw("=", "Bool", ln, mkInt(1)), raw("=", "Bool", t, e0)),
				tImp(raw("<=", "Bool", mkInt(2), ln), raw("=", "Bool", t, tConcat(e0, sep, joinTerm(el, tAdd(off, mkInt(1)), tSub(ln, mkInt(1)), sep)))),
			}
		}
	}
	return app(name, "String", el, off, ln, sep)
}

func itoa(n *Term) *Term {
	if n.op == "const" && n.kind == 'i' {
		return mkStr(strings.Trim(strings.Replace(n.name, "(- ", "-", 1), ")"))
	}
	if fnAxioms["itoa"] == nil {
		fnAxioms["itoa"] = func(t *Term) []*Term {
			a := t.args[0]
			return []*Term{
				tImp(tLe(mkInt(0), a), raw("=", "Bool", t, raw("str.from_int", "String", a))),
				tNot(raw("str.contains", "Bool", t, mkStr("."))),
				tNot(raw("str.contains", "Bool", t, mkStr("["))),
				tNot(raw("str.contains", "Bool", t, mkStr("]"))),
				tNot(raw("=", "Bool", t, mkStr(""))),
			}
		}
	}
	return app("itoa", "String", n)
}

func (x *Exec) sprintf(st *State, f, as *Term) *Term {
	fallback := func() *Term {
		ts := x.freeze(st, as, types.NewSlice(types.NewInterfaceType(nil, nil)))
		return app("sprintf", "String", f, ts)
	}
	if f.op != "const" || tSel("s_len", as).op != "const" {
		return fallback()
	}
	args := variadic(x, st, as)
	var out []*Term
	s := f.sval
	ai := 0
	for len(s) > 0 {
		i := strings.IndexByte(s, '%')
		if i < 0 {
			out = append(out, mkStr(s))
			break
		}
		out = append(out, mkStr(s[:i]))
		if i+1 >= len(s) {
			return fallback()
		}
		v := s[i+1]
		s = s[i+2:]
		if v == '%' {
			out = append(out, mkStr("%"))
			continue
		}
		if ai >= len(args) {
			return fallback()
		}
		a := args[ai].(*Term)
		ai++
		switch v {
		case 'd':
			if a.op == "ctor" && a.args[0].sort == "Int" {
				out = append(out, itoa(a.args[0]))
				continue
			}
		case 's', 'v':
			if a.op == "ctor" && len(a.args) == 1 && a.args[0].sort == "String" && plainString(boxTypes[a.name]) {
				out = append(out, a.args[0])
				continue
			}
			if v == 'v' && a.op == "ctor" && len(a.args) == 1 && a.args[0].sort == "Int" {
				if b, ok := boxTypes[a.name].(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
					out = append(out, itoa(a.args[0]))
					continue
				}
			}
		case 'q':
			if a.op == "ctor" && len(a.args) == 1 && a.args[0].sort == "String" && plainString(boxTypes[a.name]) {
				out = append(out, app("quote", "String", a.args[0]))
				continue
			}
		case 'T':
		default:
			return fallback()
		}
		out = append(out, app("fmt_"+string(v), "String", x.freeze(st, a, types.NewInterfaceType(nil, nil))))
	}
	return tConcat(out...)
}

// plainString: a string type without its own formatting methods
func plainString(t types.Type) bool {
	if t == nil {
		return false
	}
	ms := types.NewMethodSet(t)
	return ms.Lookup(nil, "String") == nil && ms.Lookup(nil, "Error") == nil
}

// typeString of an interface value: reflect.TypeOf(x).String()
func typeStr(a *Term) *Term {
	if a.op == "ctor" && boxTypes[a.name] != nil {
		return mkStr(types.TypeString(boxTypes[a.name], func(p *types.Package) string { return p.Name() }))
	}
	if fnAxioms["typestr"] == nil {
		fnAxioms["typestr"] = func(t *Term) []*Term {
			var out []*Term
			for c, ty := range boxTypes {
				n := mkStr(types.TypeString(ty, func(p *types.Package) string { return p.Name() }))
				if _, ok := ty.(*types.Basic); ok {
					out = append(out, tEq(tIs(c, t.args[0]), raw("=", "Bool", t, n)))
				} else {
					out = append(out, tImp(tIs(c, t.args[0]), raw("=", "Bool", t, n)))
				}
			}
			return out
		}
	}
	return app("typestr", "String", a)
}
