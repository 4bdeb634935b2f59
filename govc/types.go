package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Val is a value during execution: *Term, *VPtr, *VFunc, VTuple, *VIter, *VMap (unused) or nil.
type Val interface{}

type VTuple []Val

// VPtr is an address that is not a plain struct reference.
type VPtr struct {
	kind  string // cell, field, elem, obj (opaque object heap), arr (array backing: base is the slice ref)
	cell  *Cell
	base  *Term
	idx   *Term
	heap  string
	hsort string // sort of the stored value
	typ   types.Type
	path  []fstep // fields of a struct held by value
}

type fstep struct {
	t types.Type
	i int
}

// VBox is an interface value holding something that is not a term.
type VBox struct {
	typ types.Type
	v   Val
}

// Cell is a local variable; content lives in State.cells.
type Cell struct {
	id     int
	typ    types.Type
	name   string
	global bool
}

type VFunc struct {
	fn    *ssa.Function
	binds []Val
	recv  Val   // bound method value
	term  *Term // unknown function value
	sig   *types.Signature
	init  []cellInit
}

type cellInit struct {
	c *Cell
	v Val
}

type VIter struct {
	id   int
	m    *Term
	mt   *types.Map
	dom  *Term
	vals *Term
	str  bool
}

func shortType(t types.Type) string {
	return types.TypeString(t, func(p *types.Package) string { return p.Name() })
}

var typeKeyCache = map[string]string{}

func typeKey(t types.Type) string {
	s := shortType(t)
	s = strings.NewReplacer("interface {}", "any", "interface{}", "any", "*", "P.", "[]", "L.", "map[", "M.", "]", ".", " ", "", "{", "<", "}", ">", ";", ".").Replace(s)
	if len(s) > 60 {
		if k, ok := typeKeyCache[s]; ok {
			return k
		}
		k := fmt.Sprintf("anon%d", len(typeKeyCache))
		typeKeyCache[s] = k
		return k
	}
	return sanitize(s)
}

func isBytes(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	if !ok {
		return false
	}
	b, ok := s.Elem().Underlying().(*types.Basic)
	return ok && b.Kind() == types.Uint8
}

type unsupported struct{ msg string }

func unsup(f string, a ...any) { panic(unsupported{fmt.Sprintf(f, a...)}) }

func init() {
	regCtor("mkS", "Slice", []string{"s_ref", "s_off", "s_len", "s_cap"}, []string{"Int", "Int", "Int", "Int"})
	regCtor("mkB", "Bytes", []string{"by_nil", "by_str"}, []string{"Bool", "String"})
	regCtor("nilA", "Any", nil, nil)
	regCtor("otherA", "Any", []string{"otag", "oid"}, []string{"Int", "Int"})
	regCtor("nilF", "Fn", nil, nil)
	regCtor("someF", "Fn", []string{"fid"}, []string{"Int"})
}

func mkSlice(ref, off, ln, cp *Term) *Term { return tCtor("mkS", ref, off, ln, cp) }

var nilSlice = func() *Term { return mkSlice(mkInt(0), mkInt(0), mkInt(0), mkInt(0)) }
var nilAny = func() *Term { return tCtor("nilA") }

// opaqueStruct: struct types that are values of an uninterpreted sort.
func opaqueStruct(n types.Type) bool {
	named, ok := n.(*types.Named)
	if !ok {
		return false
	}
	p := named.Obj().Pkg()
	if p == nil || isRepoPkg(p.Path()) {
		return false
	}
	return true
}

func isRepoPkg(path string) bool {
	return strings.HasPrefix(path, "github.com/GannettDigital/jstransform")
}

func isStruct(t types.Type) bool {
	_, ok := t.Underlying().(*types.Struct)
	return ok
}

func sortOf(t types.Type) string {
	if tp, ok := t.(*types.TypeParam); ok {
		unsup("type parameter %s", tp)
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return "Bool"
		case u.Info()&types.IsInteger != 0:
			return "Int"
		case u.Info()&types.IsString != 0:
			return "String"
		case u.Kind() == types.Float64 || u.Kind() == types.UntypedFloat:
			return "F64"
		case u.Kind() == types.Float32:
			return "F32"
		case u.Kind() == types.UnsafePointer || u.Kind() == types.UntypedNil:
			return "Int"
		}
	case *types.Interface:
		return "Any"
	case *types.Pointer, *types.Map, *types.Chan:
		return "Int"
	case *types.Signature:
		return "Fn"
	case *types.Slice:
		if isBytes(t) {
			return "Bytes"
		}
		return "Slice"
	case *types.Struct:
		if opaqueStruct(t) {
			s := "U_" + typeKey(t)
			uninterpSorts[s] = true
			return s
		}
		return structSort(t, u)
	case *types.Array:
		s := "U_arr_" + typeKey(t)
		uninterpSorts[s] = true
		return s
	}
	unsup("sort of %s", t)
	return ""
}

func structSort(t types.Type, u *types.Struct) string {
	s := "T_" + typeKey(t)
	c := "mk_" + typeKey(t)
	if _, ok := ctors[c]; ok {
		return s
	}
	var sels, srts []string
	for i := 0; i < u.NumFields(); i++ {
		sels = append(sels, fmt.Sprintf("f_%s_%d_%s", typeKey(t), i, sanitize(u.Field(i).Name())))
		srts = append(srts, sortOf(u.Field(i).Type()))
	}
	if len(sels) == 0 {
		sels, srts = []string{"f_" + typeKey(t) + "_unit"}, []string{"Bool"}
	}
	regCtor(c, s, sels, srts)
	return s
}

func structCtor(t types.Type) string { sortOf(t); return "mk_" + typeKey(t) }

func fieldSel(t types.Type, i int) string { sortOf(t); return ctors["mk_"+typeKey(t)].sels[i] }

func zero(t types.Type) *Term {
	s := sortOf(t)
	return zeroSort(s, t)
}

func zeroSort(s string, t types.Type) *Term {
	switch s {
	case "Bool":
		return tFalse
	case "Int":
		return mkInt(0)
	case "String":
		return mkStr("")
	case "F64":
		return fpConst("F64", "(_ +zero 11 53)")
	case "F32":
		return fpConst("F32", "(_ +zero 8 24)")
	case "Any":
		return nilAny()
	case "Slice":
		return nilSlice()
	case "Bytes":
		return tCtor("mkB", tTrue, mkStr(""))
	case "Fn":
		return tCtor("nilF")
	}
	if strings.HasPrefix(s, "U_") {
		return symbol("zero_"+s, s, 0)
	}
	if strings.HasPrefix(s, "T_") {
		u := t.Underlying().(*types.Struct)
		var as []*Term
		for i := 0; i < u.NumFields(); i++ {
			as = append(as, zero(u.Field(i).Type()))
		}
		if len(as) == 0 {
			as = []*Term{tFalse}
		}
		return tCtor(structCtor(t), as...)
	}
	panic("zero of " + s)
}

// boxCtor is the Any constructor for a concrete type.
func boxCtor(t types.Type) (ctor, sel string) {
	t = types.Unalias(t)
	k := typeKey(t)
	c := "b_" + k
	if _, ok := ctors[c]; !ok {
		regCtor(c, "Any", []string{"u_" + k}, []string{sortOf(t)})
		boxTypes[c] = t
	}
	return c, "u_" + k
}

var boxTypes = map[string]types.Type{}

func box(t types.Type, v *Term) *Term {
	c, _ := boxCtor(t)
	return tCtor(c, v)
}

// wellFormed gives the facts every Go value of the type satisfies.
func wellFormed(t types.Type, x *Term) *Term {
	if x.op == "const" || x.op == "ctor" || x.op == "alloc" {
		return tTrue
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if u.Info()&types.IsInteger != 0 {
			lo, hi := intRange(u)
			return tAnd(raw("<=", "Bool", lo, x), raw("<=", "Bool", x, hi))
		}
		if u.Info()&types.IsString != 0 {
			return raw("<=", "Bool", tLen(x), mkInt(1<<48))
		}
	case *types.Pointer, *types.Map:
		return raw("<=", "Bool", mkInt(0), x)
	case *types.Slice:
		if !isBytes(t) {
			return sliceWF(x)
		}
	}
	return tTrue
}

func intRange(u *types.Basic) (lo, hi *Term) {
	switch u.Kind() {
	case types.Int8:
		return mkInt(-128), mkInt(127)
	case types.Int16:
		return mkInt(-32768), mkInt(32767)
	case types.Int32:
		return mkInt(-1 << 31), mkInt(1<<31 - 1)
	case types.Uint8:
		return mkInt(0), mkInt(255)
	case types.Uint16:
		return mkInt(0), mkInt(65535)
	case types.Uint32:
		return mkInt(0), mkInt(1<<32 - 1)
	case types.Uint, types.Uint64, types.Uintptr:
		return mkInt(0), mkConst("18446744073709551615", "Int", 'o', 0, "")
	}
	return mkInt(-1 << 63), mkInt(1<<63 - 1)
}

// heap names
func fieldHeap(st types.Type, i int) (string, string) {
	u := st.Underlying().(*types.Struct)
	return fmt.Sprintf("F_%s_%s", typeKey(st), sanitize(u.Field(i).Name())), arraySort("Int", sortOf(u.Field(i).Type()))
}

func elemHeap(t types.Type) (string, string) {
	s := sortOf(t)
	return "E_" + typeKey(t), arraySort("Int", arraySort("Int", s))
}

func objHeap(t types.Type) (string, string) { return "P_" + typeKey(t), arraySort("Int", sortOf(t)) }

func mapHeaps(m *types.Map) (mv, md, ml string, ks, vs string) {
	k := typeKey(m.Key()) + "_" + typeKey(m.Elem())
	return "MV_" + k, "MD_" + k, "ML_" + k, sortOf(m.Key()), sortOf(m.Elem())
}
