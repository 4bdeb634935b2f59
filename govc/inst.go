package main

// Ground instances of the universally quantified assertions, found by matching their array reads and function
// applications with those of the ground assertions modulo linear arithmetic. Solvers match patterns only up to syntax,
// which index arithmetic defeats. An instance of an assertion follows from it, so adding it is always sound; a negated
// quantifier is replaced by a witness, which does not change satisfiability.

type quant struct {
	vars []*Term
	body *Term
}

var skolems = map[*Term][]*Term{}
var freeMemo = map[*Term]map[*Term]bool{}

// freeBound gives the bound variables free in t.
func freeBound(t *Term) map[*Term]bool {
	if !t.bound {
		return nil
	}
	if r, ok := freeMemo[t]; ok {
		return r
	}
	r := map[*Term]bool{}
	if t.op == "sym" {
		r[t] = true
	}
	for _, a := range t.args {
		for v := range freeBound(a) {
			r[v] = true
		}
	}
	if t.op == "forall" {
		n := forallVars(t)
		for _, v := range t.args[1 : 1+n] {
			delete(r, v)
		}
	}
	freeMemo[t] = r
	return r
}

func forallVars(t *Term) int {
	n := 0
	for _, c := range t.name {
		n = n*10 + int(c-'0')
	}
	return n
}

type instor struct {
	quants []quant
	seenQ  map[*Term]bool
	extra  []*Term
	seen   map[*Term]bool
	sel    map[*Term][]*Term // base array -> indexes read
	app    map[string][]*Term
	ground map[*Term]bool
	done   map[[2]*Term]bool
}

func baseArray(t *Term) *Term {
	for t.op == "store" {
		t = t.args[0]
	}
	return t
}

// norm takes an assertion apart.
func (in *instor) norm(t *Term, guard []*Term, top bool) {
	switch t.op {
	case "and":
		for _, a := range t.args {
			in.norm(a, guard, top)
		}
		return
	case "=>":
		in.norm(t.args[1], append(guard[:len(guard):len(guard)], tNot(t.args[0])), top)
		return
	case "not":
		u := t.args[0]
		switch u.op {
		case "or":
			for _, a := range u.args {
				in.norm(tNot(a), guard, false)
			}
			return
		case "=>":
			in.norm(u.args[0], guard, false)
			in.norm(tNot(u.args[1]), guard, false)
			return
		case "forall":
			sk := skolems[u]
			n := forallVars(u)
			if sk == nil {
				for _, v := range u.args[1 : 1+n] {
					sk = append(sk, fresh("sk", v.sort, infStamp))
				}
				skolems[u] = sk
			}
			m := map[*Term]*Term{}
			for i, v := range u.args[1 : 1+n] {
				m[v] = sk[i]
			}
			in.norm(tNot(subst(u.args[0], m)), guard, false)
			return
		}
	case "or":
		// lift the quantified disjuncts one at a time
		qi := -1
		for i, a := range t.args {
			if a.op == "forall" || a.op == "and" && hasForall(a) || a.op == "not" && a.args[0].op == "forall" || a.op == "not" && a.args[0].op == "or" && hasForall(a) {
				qi = i
				break
			}
		}
		if qi >= 0 && len(guard) < 12 {
			g := append([]*Term{}, guard...)
			for i, a := range t.args {
				if i != qi {
					g = append(g, a)
				}
			}
			in.norm(t.args[qi], g, false)
			return
		}
	case "forall":
		n := forallVars(t)
		body := t.args[0]
		if len(guard) > 0 {
			body = tOr(append(append([]*Term{}, guard...), body)...)
		}
		key := t
		if len(guard) > 0 {
			key = body
		}
		if !in.seenQ[key] {
			in.seenQ[key] = true
			in.quants = append(in.quants, quant{t.args[1 : 1+n], body})
		}
		return
	}
	if len(freeBound(t)) > 0 {
		return
	}
	if len(guard) > 0 {
		t = tOr(append(append([]*Term{}, guard...), t)...)
	}
	if t == tTrue || in.seen[t] {
		return
	}
	in.seen[t] = true
	if !top || len(guard) > 0 {
		in.extra = append(in.extra, t)
	}
	in.read(t)
}

func hasForall(t *Term) bool {
	f := false
	collect([]*Term{t}, func(u *Term) {
		if u.op == "forall" {
			f = true
		}
	})
	return f
}

// read collects the ground reads and applications.
func (in *instor) read(t *Term) {
	if in.ground[t] {
		return
	}
	in.ground[t] = true
	for _, a := range t.args {
		in.read(a)
	}
	if len(freeBound(t)) > 0 {
		return
	}
	switch t.op {
	case "select":
		b := baseArray(t.args[0])
		in.sel[b] = append(in.sel[b], t.args[1])
	case "app":
		in.app[t.name] = append(in.app[t.name], t)
	}
}

// solve finds e with idx[v := e] = g, for idx linear in v with coefficient 1 or -1.
func solve(idx, v, g *Term) *Term {
	if idx == v {
		if g.sort != v.sort {
			return nil
		}
		return g
	}
	if v.sort != "Int" || idx.sort != "Int" {
		return nil
	}
	l := toLin(idx)
	k := l.m[v]
	if k != 1 && k != -1 {
		return nil
	}
	delete(l.m, v)
	rest := fromLin(l)
	if len(freeBound(rest)) > 0 {
		return nil
	}
	if k == 1 {
		return tSub(g, rest)
	}
	return tSub(rest, g)
}

func (in *instor) match(q quant, add func(e *Term)) {
	v := q.vars[0]
	var visit func(t *Term)
	seen := map[*Term]bool{}
	visit = func(t *Term) {
		if seen[t] || !t.bound {
			return
		}
		seen[t] = true
		for _, a := range t.args {
			visit(a)
		}
		fb := freeBound(t)
		if !fb[v] || len(fb) != 1 {
			return
		}
		switch t.op {
		case "select":
			if len(freeBound(t.args[0])) > 0 {
				return
			}
			for _, g := range in.sel[baseArray(t.args[0])] {
				if e := solve(t.args[1], v, g); e != nil {
					add(e)
				}
			}
		case "app":
			k := -1
			for i, a := range t.args {
				if fb := freeBound(a); len(fb) > 0 {
					if k >= 0 {
						return
					}
					k = i
				}
			}
			if k < 0 {
				return
			}
			for _, g := range in.app[t.name] {
				same := len(g.args) == len(t.args)
				for i := range t.args {
					if same && i != k && g.args[i] != t.args[i] {
						same = false
					}
				}
				if !same {
					continue
				}
				if e := solve(t.args[k], v, g.args[k]); e != nil {
					add(e)
				}
			}
		}
	}
	visit(q.body)
}

const maxInstances = 160

func instances(asserts []*Term) []*Term {
	any := false
	for _, a := range asserts {
		if hasForall(a) {
			any = true
			break
		}
	}
	if !any {
		return nil
	}
	in := &instor{seenQ: map[*Term]bool{}, seen: map[*Term]bool{}, sel: map[*Term][]*Term{}, app: map[string][]*Term{}, ground: map[*Term]bool{}, done: map[[2]*Term]bool{}}
	for _, a := range asserts {
		in.norm(a, nil, true)
	}
	n := 0
	for round := 0; round < 3; round++ {
		var news []*Term
		for _, q := range in.quants {
			if len(q.vars) != 1 || len(freeBound(q.body)) > 1 {
				continue
			}
			q := q
			in.match(q, func(e *Term) {
				k := [2]*Term{q.body, e}
				if in.done[k] || n >= maxInstances || len(freeBound(e)) > 0 {
					return
				}
				in.done[k] = true
				n++
				news = append(news, subst(q.body, map[*Term]*Term{q.vars[0]: e}))
			})
		}
		if len(news) == 0 {
			break
		}
		for _, t := range news {
			in.norm(t, nil, false)
		}
	}
	return in.extra
}
