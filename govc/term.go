package main

import (
	"fmt"
	"sort"
	"strconv"
	"strings"
)

// Term is a hash-consed SMT term.
type Term struct {
	id    int
	op    string // const, sym, alloc, app (declared function), or an SMT operator
	name  string // symbol / function / literal text
	args  []*Term
	sort  string
	ival  int64
	sval  string
	kind  byte  // for const: 'i','s','b','o'
	stamp int64 // every reference this term can denote is below this allocation position
	bound bool  // contains a bound variable
}

const infStamp = int64(1) << 60
const eraShift = 20

var (
	termTab  = map[string]*Term{}
	funDecl  = map[string]*fdecl{}
	tTrue    = mkConst("true", "Bool", 'b', 1, "")
	tFalse   = mkConst("false", "Bool", 'b', 0, "")
	symCount = map[string]int{}
	hframes  = map[*Term]*hframe{}
)

type fdecl struct {
	args []string
	ret  string
}

type hframe struct {
	old    *Term
	pos    *Term // alloc term: references below it are framed
	exempt []*Term
}

func intern(t *Term) *Term {
	var sb strings.Builder
	sb.WriteString(t.op)
	sb.WriteByte('|')
	sb.WriteString(t.name)
	sb.WriteByte('|')
	sb.WriteString(t.sort)
	for _, a := range t.args {
		sb.WriteByte(',')
		sb.WriteString(strconv.Itoa(a.id))
	}
	k := sb.String()
	if x, ok := termTab[k]; ok {
		return x
	}
	for _, a := range t.args {
		if a.stamp > t.stamp {
			t.stamp = a.stamp
		}
		if a.bound {
			t.bound = true
		}
	}
	t.id = len(termTab) + 1
	termTab[k] = t
	return t
}

func mkConst(name, srt string, kind byte, iv int64, sv string) *Term {
	return intern(&Term{op: "const", name: name, sort: srt, kind: kind, ival: iv, sval: sv})
}

func mkInt(v int64) *Term {
	if v < 0 {
		if v == -v {
			return mkConst("(- 9223372036854775808)", "Int", 'i', v, "")
		}
		return mkConst(fmt.Sprintf("(- %d)", -v), "Int", 'i', v, "")
	}
	return mkConst(strconv.FormatInt(v, 10), "Int", 'i', v, "")
}

func mkBool(b bool) *Term {
	if b {
		return tTrue
	}
	return tFalse
}

func smtString(s string) string {
	var sb strings.Builder
	sb.WriteByte('"')
	for i := 0; i < len(s); i++ {
		c := s[i]
		if c == '"' {
			sb.WriteString(`""`)
		} else if c < 32 || c > 126 || c == '\\' {
			fmt.Fprintf(&sb, "\\u{%x}", c)
		} else {
			sb.WriteByte(c)
		}
	}
	sb.WriteByte('"')
	return sb.String()
}

func mkStr(s string) *Term { return mkConst(smtString(s), "String", 's', 0, s) }

// fresh makes a new symbol; base names it.
func fresh(base, srt string, stamp int64) *Term {
	base = sanitize(base)
	n := symCount[base]
	symCount[base] = n + 1
	return intern(&Term{op: "sym", name: fmt.Sprintf("%s!%d", base, n), sort: srt, stamp: stamp})
}

func symbol(name, srt string, stamp int64) *Term {
	return intern(&Term{op: "sym", name: sanitize(name), sort: srt, stamp: stamp})
}

func boundVar(base, srt string) *Term {
	t := fresh("?"+base, srt, infStamp)
	t.bound = true
	return t
}

func sanitize(s string) string {
	var sb strings.Builder
	for _, r := range s {
		if r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' || r >= '0' && r <= '9' || strings.ContainsRune("_.!$?*/<>-", r) {
			sb.WriteRune(r)
		} else {
			sb.WriteByte('_')
		}
	}
	return sb.String()
}

func allocTerm(era, k int) *Term {
	return intern(&Term{op: "alloc", name: fmt.Sprintf("%d/%d", era, k), sort: "Int", ival: int64(era)<<eraShift + int64(k), stamp: int64(era)<<eraShift + int64(k) + 1})
}

func app(fn, ret string, args ...*Term) *Term {
	as := make([]string, len(args))
	for i, a := range args {
		as[i] = a.sort
	}
	if len(args) == 0 {
		return symbol(fn, ret, 0)
	}
	fn = sanitize(fn)
	if d, ok := funDecl[fn]; ok {
		if d.ret != ret || strings.Join(d.args, ",") != strings.Join(as, ",") {
			// same name with other sorts: disambiguate
			return app(fn+"$"+sanitize(strings.Join(as, "_")+"_"+ret), ret, args...)
		}
	} else {
		funDecl[fn] = &fdecl{as, ret}
	}
	return intern(&Term{op: "app", name: fn, args: args, sort: ret})
}

func raw(op, srt string, args ...*Term) *Term {
	return intern(&Term{op: op, args: args, sort: srt})
}

func isConst(t *Term) bool { return t.op == "const" }

func tNot(a *Term) *Term {
	switch {
	case a == tTrue:
		return tFalse
	case a == tFalse:
		return tTrue
	case a.op == "not":
		return a.args[0]
	}
	return raw("not", "Bool", a)
}

func tAnd(xs ...*Term) *Term {
	var out []*Term
	seen := map[*Term]bool{}
	var add func(x *Term) bool
	add = func(x *Term) bool {
		if x == tFalse {
			return false
		}
		if x == tTrue || seen[x] {
			return true
		}
		if x.op == "and" {
			for _, y := range x.args {
				if !add(y) {
					return false
				}
			}
			return true
		}
		if seen[tNot(x)] {
			return false
		}
		seen[x] = true
		out = append(out, x)
		return true
	}
	for _, x := range xs {
		if !add(x) {
			return tFalse
		}
	}
	if len(out) == 0 {
		return tTrue
	}
	if len(out) == 1 {
		return out[0]
	}
	return raw("and", "Bool", out...)
}

func tOr(xs ...*Term) *Term {
	ns := make([]*Term, len(xs))
	for i, x := range xs {
		ns[i] = tNot(x)
	}
	r := tAnd(ns...)
	if r.op == "and" {
		out := make([]*Term, len(r.args))
		for i, x := range r.args {
			out[i] = tNot(x)
		}
		return raw("or", "Bool", out...)
	}
	return tNot(r)
}

func tImp(a, b *Term) *Term { return tOr(tNot(a), b) }

func tIte(c, a, b *Term) *Term {
	if c == tTrue || a == b {
		return a
	}
	if c == tFalse {
		return b
	}
	if a.sort == "Bool" {
		if a == tTrue {
			return tOr(c, b)
		}
		if a == tFalse {
			return tAnd(tNot(c), b)
		}
		if b == tTrue {
			return tOr(tNot(c), a)
		}
		if b == tFalse {
			return tAnd(c, a)
		}
	}
	if c.op == "not" {
		return tIte(c.args[0], b, a)
	}
	if a.op == "ite" && a.args[0] == c {
		a = a.args[1]
	}
	if b.op == "ite" && b.args[0] == c {
		b = b.args[2]
	}
	if a == b {
		return a
	}
	return raw("ite", a.sort, c, a, b)
}

// constructor registry: name -> selectors
type ctorInfo struct {
	sort string
	sels []string
	srts []string
}

var ctors = map[string]*ctorInfo{}
var selOf = map[string]struct {
	ctor string
	idx  int
}{}
var sortCtors = map[string][]string{} // datatype sort -> constructors in order
var uninterpSorts = map[string]bool{}

func regCtor(name, srt string, sels, srts []string) {
	if _, ok := ctors[name]; ok {
		return
	}
	ctors[name] = &ctorInfo{srt, sels, srts}
	for i, s := range sels {
		selOf[s] = struct {
			ctor string
			idx  int
		}{name, i}
	}
	sortCtors[srt] = append(sortCtors[srt], name)
}

func tCtor(name string, args ...*Term) *Term {
	ci := ctors[name]
	if ci == nil {
		panic("no ctor " + name)
	}
	for i, a := range args {
		if a.sort != ci.srts[i] {
			panic(fmt.Sprintf("ctor %s arg %d sort %s want %s", name, i, a.sort, ci.srts[i]))
		}
	}
	// eta: C(sel0(x), sel1(x), ...) for single-constructor sorts is x
	if len(args) > 0 && len(sortCtors[ci.sort]) == 1 {
		var x *Term
		ok := true
		for i, a := range args {
			if a.op != "sel" || a.name != ci.sels[i] || x != nil && a.args[0] != x {
				ok = false
				break
			}
			x = a.args[0]
		}
		if ok {
			return x
		}
	}
	return intern(&Term{op: "ctor", name: name, args: args, sort: ci.sort})
}

func tSel(sel string, x *Term) *Term {
	si := selOf[sel]
	ci := ctors[si.ctor]
	if x.op == "ctor" {
		if x.name == si.ctor {
			return x.args[si.idx]
		}
	}
	if x.op == "ite" && (x.args[1].op == "ctor" || x.args[2].op == "ctor" || x.args[1].op == "ite" || x.args[2].op == "ite") {
		return tIte(x.args[0], tSel(sel, x.args[1]), tSel(sel, x.args[2]))
	}
	return intern(&Term{op: "sel", name: sel, args: []*Term{x}, sort: ci.srts[si.idx]})
}

func tIs(ctor string, x *Term) *Term {
	if x.op == "ctor" {
		return mkBool(x.name == ctor)
	}
	if len(sortCtors[x.sort]) == 1 {
		return tTrue
	}
	if x.op == "ite" && (x.args[1].op == "ctor" || x.args[2].op == "ctor") {
		return tIte(x.args[0], tIs(ctor, x.args[1]), tIs(ctor, x.args[2]))
	}
	return intern(&Term{op: "is", name: ctor, args: []*Term{x}, sort: "Bool"})
}

// --- linear integer normal form

type lin struct {
	c int64
	m map[*Term]int64
}

func toLin(t *Term) lin {
	l := lin{m: map[*Term]int64{}}
	var add func(t *Term, k int64)
	add = func(t *Term, k int64) {
		switch {
		case t.op == "const":
			l.c += k * t.ival
		case t.op == "+":
			for _, a := range t.args {
				add(a, k)
			}
		case t.op == "*" && t.args[0].op == "const":
			add(t.args[1], k*t.args[0].ival)
		default:
			l.m[t] += k
			if l.m[t] == 0 {
				delete(l.m, t)
			}
		}
	}
	add(t, 1)
	return l
}

func fromLin(l lin) *Term {
	var ts []*Term
	for t := range l.m {
		ts = append(ts, t)
	}
	sort.Slice(ts, func(i, j int) bool { return ts[i].id < ts[j].id })
	var out []*Term
	for _, t := range ts {
		if k := l.m[t]; k == 1 {
			out = append(out, t)
		} else {
			out = append(out, raw("*", "Int", mkInt(k), t))
		}
	}
	if l.c != 0 || len(out) == 0 {
		out = append(out, mkInt(l.c))
	}
	if len(out) == 1 {
		return out[0]
	}
	return raw("+", "Int", out...)
}

func tAdd(a, b *Term) *Term {
	l := toLin(a)
	for t, k := range toLin(b).m {
		l.m[t] += k
		if l.m[t] == 0 {
			delete(l.m, t)
		}
	}
	l.c += toLin(b).c
	return fromLin(l)
}

func tNeg(a *Term) *Term {
	l := toLin(a)
	l.c = -l.c
	for t := range l.m {
		l.m[t] = -l.m[t]
	}
	return fromLin(l)
}

func tSub(a, b *Term) *Term { return tAdd(a, tNeg(b)) }

func tMul(a, b *Term) *Term {
	if b.op == "const" {
		a, b = b, a
	}
	if a.op == "const" {
		l := toLin(b)
		l.c *= a.ival
		for t := range l.m {
			l.m[t] *= a.ival
			if l.m[t] == 0 {
				delete(l.m, t)
			}
		}
		return fromLin(l)
	}
	return raw("*", "Int", a, b)
}

func tLe(a, b *Term) *Term {
	d := toLin(tSub(a, b)) // a-b <= 0
	if len(d.m) == 0 {
		return mkBool(d.c <= 0)
	}
	if len(d.m) == 1 {
		for t, k := range d.m {
			if nonneg(t) && k < 0 && d.c <= 0 {
				return tTrue
			}
			if nonneg(t) && k > 0 && d.c > 0 {
				return tFalse
			}
		}
	}
	return raw("<=", "Bool", a, b)
}

func nonneg(t *Term) bool {
	return t.op == "str.len" || t.op == "sel" && (t.name == "s_len" || t.name == "s_cap" || t.name == "s_off") || t.op == "app" && strings.HasPrefix(t.name, "nn_") || t.op == "sym" && strings.HasPrefix(t.name, "iter!")
}

func tLt(a, b *Term) *Term { return tLe(tAdd(a, mkInt(1)), b) }

// floors: slices a loop only appends to; their arrays were all made at or after an allocation position.
var floors = map[*Term]int64{}

func floorOf(ref *Term) int64 {
	if ref.op == "sel" && ref.name == "s_ref" {
		if f, ok := floors[ref.args[0]]; ok {
			return f
		}
	}
	return -1
}

// distinct reports that two terms certainly denote different values.
func distinct(a, b *Term) bool {
	if a == b {
		return false
	}
	if a.op == "const" && b.op == "const" {
		return a.kind != 'o' && b.kind != 'o'
	}
	if b.op == "alloc" {
		a, b = b, a
	}
	if a.op == "alloc" {
		if b.op == "alloc" {
			return true
		}
		return b.stamp <= a.ival
	}
	if f := floorOf(a); f >= 0 && b.stamp <= f {
		return true
	}
	if f := floorOf(b); f >= 0 && a.stamp <= f {
		return true
	}
	if a.sort == "Int" {
		d := toLin(tSub(a, b))
		return len(d.m) == 0 && d.c != 0
	}
	if a.op == "ctor" && b.op == "ctor" {
		if a.name != b.name {
			return true
		}
		for i := range a.args {
			if distinct(a.args[i], b.args[i]) {
				return true
			}
		}
	}
	return false
}

func tEq(a, b *Term) *Term {
	if a == b {
		return tTrue
	}
	if a.sort != b.sort {
		panic(fmt.Sprintf("eq sorts %s %s: %s = %s", a.sort, b.sort, a, b))
	}
	if distinct(a, b) {
		return tFalse
	}
	if a.sort == "Bool" {
		if a == tTrue {
			return b
		}
		if b == tTrue {
			return a
		}
		if a == tFalse {
			return tNot(b)
		}
		if b == tFalse {
			return tNot(a)
		}
	}
	if a.op == "ctor" && b.op == "ctor" { // same constructor
		var cs []*Term
		for i := range a.args {
			cs = append(cs, tEq(a.args[i], b.args[i]))
		}
		return tAnd(cs...)
	}
	if b.op == "ctor" {
		a, b = b, a
	}
	if a.op == "ctor" && len(a.args) == 0 {
		return tIs(a.name, b)
	}
	if a.op == "ite" && b.op == "const" {
		if a.args[1].op == "const" || a.args[2].op == "const" {
			return tIte(a.args[0], tEq(a.args[1], b), tEq(a.args[2], b))
		}
	}
	if b.op == "ite" && a.op == "const" {
		return tEq(b, a)
	}
	if a.sort == "Int" {
		d := toLin(tSub(a, b))
		if len(d.m) == 0 {
			return mkBool(d.c == 0)
		}
	}
	if a.id > b.id {
		a, b = b, a
	}
	return raw("=", "Bool", a, b)
}

// --- arrays

func arraySort(k, v string) string { return "(Array " + k + " " + v + ")" }

func elemSort(arr string) (string, string) {
	s := strings.TrimSuffix(strings.TrimPrefix(arr, "(Array "), ")")
	depth := 0
	for i := 0; i < len(s); i++ {
		switch s[i] {
		case '(':
			depth++
		case ')':
			depth--
		case ' ':
			if depth == 0 {
				return s[:i], s[i+1:]
			}
		}
	}
	panic("bad array sort " + arr)
}

func tSelect(a, i *Term) *Term {
	_, vs := elemSort(a.sort)
	cur := a
	for {
		if cur.op == "store" {
			if cur.args[1] == i {
				return cur.args[2]
			}
			if distinct(cur.args[1], i) {
				cur = cur.args[0]
				continue
			}
		} else if cur.op == "constarr" {
			return cur.args[0]
		} else if f := hframes[cur]; f != nil && i.stamp <= f.pos.ival {
			ok := true
			for _, e := range f.exempt {
				if !distinct(e, i) {
					ok = false
				}
			}
			if ok {
				cur = f.old
				continue
			}
		} else if cur.op == "ite" && (cur.args[1].op == "store" || cur.args[2].op == "store" || cur.args[1].op == "constarr") {
			return tIte(cur.args[0], tSelect(cur.args[1], i), tSelect(cur.args[2], i))
		}
		break
	}
	return raw("select", vs, cur, i)
}

func tStore(a, i, v *Term) *Term {
	_, vs := elemSort(a.sort)
	if v.sort != vs {
		panic(fmt.Sprintf("store sort %s into %s: %s", v.sort, a.sort, v))
	}
	if a.op == "store" && a.args[1] == i {
		a = a.args[0]
	}
	if v.op == "select" && v.args[0] == a && v.args[1] == i {
		return a
	}
	return raw("store", a.sort, a, i, v)
}

func constArr(srt string, v *Term) *Term { return raw("constarr", srt, v) }

// --- strings

func tLen(s *Term) *Term {
	if s.kind == 's' && s.op == "const" {
		return mkInt(int64(len(s.sval)))
	}
	if s.op == "str.++" {
		r := mkInt(0)
		for _, a := range s.args {
			r = tAdd(r, tLen(a))
		}
		return r
	}
	return raw("str.len", "Int", s)
}

func tConcat(xs ...*Term) *Term {
	var out []*Term
	for _, x := range xs {
		ys := []*Term{x}
		if x.op == "str.++" {
			ys = x.args
		}
		for _, y := range ys {
			if y.op == "const" && y.sval == "" {
				continue
			}
			if n := len(out); n > 0 && y.op == "const" && out[n-1].op == "const" {
				out[n-1] = mkStr(out[n-1].sval + y.sval)
				continue
			}
			out = append(out, y)
		}
	}
	if len(out) == 0 {
		return mkStr("")
	}
	if len(out) == 1 {
		return out[0]
	}
	return raw("str.++", "String", out...)
}

func strConsts(xs ...*Term) bool {
	for _, x := range xs {
		if x.op != "const" {
			return false
		}
	}
	return true
}

func tSubstr(s, from, n *Term) *Term {
	if strConsts(s, from, n) {
		f, l := int(from.ival), int(n.ival)
		if f >= 0 && l >= 0 && f+l <= len(s.sval) {
			return mkStr(s.sval[f : f+l])
		}
	}
	if from.op == "const" && from.ival == 0 && n == tLen(s) {
		return s
	}
	if s.op == "str.++" && from.op == "const" && n == tSub(tLen(s), from) && s.args[0].op == "const" && int(from.ival) <= len(s.args[0].sval) && from.ival >= 0 {
		return tConcat(append([]*Term{mkStr(s.args[0].sval[from.ival:])}, s.args[1:]...)...)
	}
	return raw("str.substr", "String", s, from, n)
}

func tPrefixOf(p, s *Term) *Term {
	if strConsts(p, s) {
		return mkBool(strings.HasPrefix(s.sval, p.sval))
	}
	if p == s {
		return tTrue
	}
	if s.op == "str.++" {
		if s.args[0] == p {
			return tTrue
		}
		if p.op == "const" && s.args[0].op == "const" {
			if strings.HasPrefix(s.args[0].sval, p.sval) {
				return tTrue
			}
			if !strings.HasPrefix(p.sval, s.args[0].sval) {
				return tFalse
			}
		}
	}
	return raw("str.prefixof", "Bool", p, s)
}

func tSuffixOf(p, s *Term) *Term {
	if strConsts(p, s) {
		return mkBool(strings.HasSuffix(s.sval, p.sval))
	}
	if s.op == "str.++" && s.args[len(s.args)-1] == p {
		return tTrue
	}
	return raw("str.suffixof", "Bool", p, s)
}

func tContains(s, p *Term) *Term {
	if strConsts(p, s) {
		return mkBool(strings.Contains(s.sval, p.sval))
	}
	return raw("str.contains", "Bool", s, p)
}

func tReplace1(s, a, b *Term) *Term {
	if strConsts(s, a, b) {
		return mkStr(strings.Replace(s.sval, a.sval, b.sval, 1))
	}
	if s == a {
		return b
	}
	if s.op == "str.++" && s.args[0] == a {
		return tConcat(append([]*Term{b}, s.args[1:]...)...)
	}
	return raw("str.replace", "String", s, a, b)
}

func tForall(vars []*Term, body *Term, pats ...*Term) *Term {
	if body == tTrue {
		return tTrue
	}
	if body == tFalse {
		return tFalse
	}
	args := append([]*Term{body}, vars...)
	for _, p := range pats {
		ok := true
		collect([]*Term{p}, func(u *Term) {
			switch u.op {
			case "not", "and", "or", "=", "=>", "ite", "forall", "<=", "<":
				ok = false
			}
		})
		if ok {
			args = append(args, p)
		}
	}
	t := &Term{op: "forall", args: args, sort: "Bool", name: strconv.Itoa(len(vars))}
	r := intern(t)
	return r
}

func tExists(vars []*Term, body *Term) *Term { return tNot(tForall(vars, tNot(body))) }

func (t *Term) String() string {
	s := printTerm(t, nil)
	if len(s) > 4000 {
		s = s[:4000] + "..."
	}
	return s
}

func printTerm(t *Term, named map[*Term]string) string {
	var sb strings.Builder
	printTo(&sb, t, named, true)
	return sb.String()
}

func printTo(sb *strings.Builder, t *Term, named map[*Term]string, top bool) {
	if !top {
		if n, ok := named[t]; ok {
			sb.WriteString(n)
			return
		}
	}
	switch t.op {
	case "const":
		sb.WriteString(t.name)
		return
	case "sym":
		sb.WriteString(t.name)
		return
	case "alloc":
		era := t.ival >> eraShift
		fmt.Fprintf(sb, "(+ top!%d %d)", era, t.ival&(1<<eraShift-1))
		return
	case "forall":
		n, _ := strconv.Atoi(t.name)
		sb.WriteString("(forall (")
		for _, v := range t.args[1 : 1+n] {
			fmt.Fprintf(sb, "(%s %s)", v.name, v.sort)
		}
		sb.WriteString(") ")
		if len(t.args) > 1+n {
			sb.WriteString("(! ")
		}
		printTo(sb, t.args[0], named, false)
		if len(t.args) > 1+n {
			for _, p := range t.args[1+n:] {
				sb.WriteString(" :pattern (")
				printTo(sb, p, named, false)
				sb.WriteString(")")
			}
			sb.WriteString(")")
		}
		sb.WriteString(")")
		return
	case "constarr":
		sb.WriteString("((as const " + t.sort + ") ")
		printTo(sb, t.args[0], named, false)
		sb.WriteString(")")
		return
	case "ctor":
		if len(t.args) == 0 {
			sb.WriteString(t.name)
			return
		}
		sb.WriteString("(" + t.name)
	case "sel":
		sb.WriteString("(" + t.name)
	case "is":
		sb.WriteString("((_ is " + t.name + ")")
	case "app":
		sb.WriteString("(" + t.name)
	default:
		sb.WriteString("(" + t.op)
	}
	for _, a := range t.args {
		sb.WriteByte(' ')
		printTo(sb, a, named, false)
	}
	sb.WriteByte(')')
}
