package main

// subst rebuilds a term with replacements through the simplifying constructors.
func subst(t *Term, m map[*Term]*Term) *Term {
	memo := map[*Term]*Term{}
	var rec func(t *Term) *Term
	rec = func(t *Term) *Term {
		if r, ok := m[t]; ok {
			return r
		}
		if len(t.args) == 0 {
			return t
		}
		if r, ok := memo[t]; ok {
			return r
		}
		as := make([]*Term, len(t.args))
		same := true
		for i, a := range t.args {
			as[i] = rec(a)
			if as[i] != a {
				same = false
			}
		}
		r := t
		if !same {
			r = rebuild(t, as)
		}
		memo[t] = r
		return r
	}
	return rec(t)
}

func rebuild(t *Term, as []*Term) *Term {
	switch t.op {
	case "not":
		return tNot(as[0])
	case "and":
		return tAnd(as...)
	case "or":
		return tOr(as...)
	case "ite":
		return tIte(as[0], as[1], as[2])
	case "=":
		return tEq(as[0], as[1])
	case "select":
		return tSelect(as[0], as[1])
	case "store":
		return tStore(as[0], as[1], as[2])
	case "+":
		r := as[0]
		for _, a := range as[1:] {
			r = tAdd(r, a)
		}
		return r
	case "*":
		return tMul(as[0], as[1])
	case "<=":
		return tLe(as[0], as[1])
	case "ctor":
		return tCtor(t.name, as...)
	case "sel":
		return tSel(t.name, as[0])
	case "is":
		return tIs(t.name, as[0])
	case "app":
		return app(t.name, t.sort, as...)
	case "str.++":
		return tConcat(as...)
	case "str.len":
		return tLen(as[0])
	case "forall":
		n := &Term{op: "forall", name: t.name, args: as, sort: "Bool"}
		return intern(n)
	}
	return intern(&Term{op: t.op, name: t.name, args: as, sort: t.sort})
}
