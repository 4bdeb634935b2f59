package generate

import (
	"bytes"
	"fmt"
	"go/ast"
	"go/parser"
	"go/printer"
	"go/token"
	"reflect"
	"strconv"
	"strings"

	"github.com/GannettDigital/jstransform/jsonschema"
)

// C20, C24: generated Go structs.

func nBase(kind string) string {
	return map[string]string{"boolean": "bool", "number": "float64", "integer": "int64", "string": "string", "date-time": "time.Time"}[kind]
}

type nWant struct {
	f    *nField
	typ  string // "" for an inline struct
	pre  string // before an inline struct
	sub  *nField
	omit bool
}

// nGoType is the expected type of a field of owner.
func nGoType(owner *nField, f *nField, path string, pointers, nested bool) nWant {
	req := owner.isRequired(f.name)
	w := nWant{f: f, omit: !req}
	x, slice := f, ""
	if f.kind == "array" {
		x, slice = f.item, "[]"
	}
	nullable := f.nullable
	switch x.kind {
	case "object":
		switch {
		case len(x.fields) == 0 || x.onlyHydration():
			w.typ = slice + "map[string]string"
			if nullable && nested {
				w.typ = slice + "*map[string]string"
			}
			if !nested && (x.nullable || nullable || pointers && !req) {
				w.typ = slice + "*map[string]string"
			}
		case nested:
			w.sub = x
			w.pre = slice
			if nullable {
				w.pre += "*"
			}
		default:
			w.typ = slice
			if x.nullable || pointers && !req {
				w.typ += "*"
			}
			w.typ += path
		}
	case "date-time":
		w.typ = slice + "time.Time"
		if nullable || pointers && !req {
			w.typ = slice + "*time.Time"
		}
	default:
		w.typ = slice + nBase(x.kind)
		if nullable {
			w.typ = slice + "*" + nBase(x.kind)
		}
	}
	return w
}

func (f *nField) onlyHydration() bool {
	for _, c := range f.fields {
		if c.kind != "hydration" {
			return false
		}
	}
	return true
}

func nExpr(fs *token.FileSet, e ast.Expr) string {
	var b bytes.Buffer
	printer.Fprint(&b, fs, e)
	return b.String()
}

// nCheckStruct compares a struct with the fields of owner.
func nCheckStruct(fset *token.FileSet, where string, list *ast.FieldList, owner *nField, path string, args BuildArgs) {
	var want []*nField
	for _, f := range byName(owner.fields, args.FieldNameMap) {
		if f.kind != "hydration" {
			want = append(want, f)
		}
	}
	var got []*ast.Field
	if list != nil {
		got = list.List
	}
	var names []string
	for _, f := range got {
		for _, n := range f.Names {
			names = append(names, n.Name)
		}
	}
	var wantNames []string
	for _, f := range want {
		wantNames = append(wantNames, nShown(f.name, args.FieldNameMap))
	}
	if !vCheck(strings.Join(names, " ") == strings.Join(wantNames, " ") && len(got) == len(want), "C24,C20", "%s has the fields %v, not %v", where, names, wantNames) {
		return
	}
	for i, f := range want {
		at := where + "." + names[i]
		w := nGoType(owner, f, path+nTitle(f.name), args.Pointers, !args.NoNestedStructs)
		tag := ""
		if got[i].Tag != nil {
			tag, _ = strconv.Unquote(got[i].Tag.Value)
		}
		parts := strings.Split(reflect.StructTag(tag).Get("json"), ",")
		vCheck(parts[0] == f.name, "C20", "%s has the JSON name %q, not %q", at, parts[0], f.name)
		omit := len(parts) == 2 && (parts[1] == "omitempty" || parts[1] == "omitzero")
		vCheck(omit == w.omit && len(parts) == map[bool]int{true: 2, false: 1}[w.omit], "C20", "%s has the JSON tag %q, required is %v", at, strings.Join(parts, ","), !w.omit)
		if w.sub == nil {
			t := nExpr(fset, got[i].Type)
			vCheck(t == w.typ, "C20", "%s has the type %s, not %s", at, t, w.typ)
			continue
		}
		t := got[i].Type
		pre := ""
		for {
			if a, ok := t.(*ast.ArrayType); ok && a.Len == nil {
				t, pre = a.Elt, pre+"[]"
				continue
			}
			if p, ok := t.(*ast.StarExpr); ok {
				t, pre = p.X, pre+"*"
				continue
			}
			break
		}
		st, ok := t.(*ast.StructType)
		if !vCheck(ok && pre == w.pre, "C20", "%s has the type %s, not %sstruct", at, nExpr(fset, got[i].Type), w.pre) {
			continue
		}
		nCheckStruct(fset, at, st.Fields, w.sub, path, args)
	}
}

func nGoFile(g *vG) {
	args := BuildArgs{DescriptionAsStructTag: g.one(2), NoNestedStructs: g.one(2), Pointers: g.one(2)}
	root := nRoot(g, 3, nOpt{hydration: true, anyObject: true})
	if g.one(3) {
		args.FieldNameMap = map[string]string{}
		for i := 1 + g.Intn(2); i > 0; i-- {
			args.FieldNameMap[nNames[g.Intn(len(nNames))]] = g.pick("Renamed", "other", "Zz", "A1")
		}
		if len(args.FieldNameMap) == 2 {
			seen := map[string]bool{}
			for _, v := range args.FieldNameMap {
				if seen[v] {
					panic(vSkip{"one name for two fields"})
				}
				seen[v] = true
			}
		}
	}
	vNote("arguments: nested structs %v, pointers %v, description tags %v, renamed %v", !args.NoNestedStructs, args.Pointers, args.DescriptionAsStructTag, args.FieldNameMap)
	s := nSchema(g, root)
	if root.onlyHydration() {
		panic(vSkip{"empty struct"})
	}
	var text string
	for i := 0; i < 3; i++ {
		gof, err := newGeneratedGoFile(s, "root", "pkg", nil, args)
		if !vCheck(err == nil, "C20", "building failed: %v", err) {
			return
		}
		var b bytes.Buffer
		err = gof.write(&b)
		if !vCheck(err == nil, "C20,C24", "writing failed: %v", err) {
			return
		}
		if i > 0 && !vCheck(b.String() == text, "C24", "two runs generate different texts:\n%s\nand\n%s", text, b.String()) {
			return
		}
		text = b.String()
	}
	vNote("generated:\n%s", text)
	fset := token.NewFileSet()
	file, err := parser.ParseFile(fset, "x.go", text, 0)
	if !vCheck(err == nil, "C20,C24", "the generated file is not Go: %v", err) {
		return
	}
	imports := false
	for _, im := range file.Imports {
		vCheck(im.Path.Value == `"time"`, "C24", "%s is imported", im.Path.Value)
		imports = true
	}
	vCheck(imports == root.hasTime(), "C24", "time is imported: %v, there are date-time fields: %v", imports, root.hasTime())
	var decls []string
	structs := map[string]*ast.StructType{}
	for _, d := range file.Decls {
		if gd, ok := d.(*ast.GenDecl); ok && gd.Tok == token.TYPE {
			for _, sp := range gd.Specs {
				ts := sp.(*ast.TypeSpec)
				decls = append(decls, ts.Name.Name)
				st, ok := ts.Type.(*ast.StructType)
				vCheck(ok && structs[ts.Name.Name] == nil, "C24", "%s is not declared once as a struct", ts.Name.Name)
				structs[ts.Name.Name] = st
			}
		}
	}
	want := []string{"Root"}
	owners := map[string]*nField{"Root": root}
	if args.NoNestedStructs {
		var rec func(o *nField, path string)
		rec = func(o *nField, path string) {
			for _, f := range o.fields {
				x := f
				if f.item != nil {
					x = f.item
				}
				if x.kind == "object" {
					if !x.onlyHydration() {
						owners[path+nTitle(f.name)] = x
					}
					rec(x, path+nTitle(f.name))
				}
			}
		}
		rec(root, "Root")
		var more []string
		for n := range owners {
			if n != "Root" {
				more = append(more, n)
			}
		}
		want = append(want, nSorted(more)...)
	}
	if !vCheck(strings.Join(decls, " ") == strings.Join(want, " "), "C24", "the types are %v, not %v", decls, want) {
		return
	}
	for _, n := range want {
		if structs[n] != nil {
			nCheckStruct(fset, n, structs[n].Fields, owners[n], n, args)
		}
	}
}

func nSorted(xs []string) []string {
	for i := range xs {
		for j := i; j > 0 && xs[j] < xs[j-1]; j-- {
			xs[j], xs[j-1] = xs[j-1], xs[j]
		}
	}
	return xs
}

// nUnion: union types are rejected.
func nUnion(g *vG) {
	n := 2 + g.Intn(2)
	types := []string{}
	for i := 0; i < n; i++ {
		types = append(types, g.pick("string", "integer", "boolean", "number", "object"))
		if g.one(4) {
			types = append(types, "null")
		}
	}
	inst := jsonschema.Instance{Type: types}
	vNote("types: %v", types)
	tree := []string{"x"}
	if g.one(3) {
		tree = []string{"y", "x"}
	}
	err := addField(extractedFields{}, tree, inst, nil)
	vCheck(err != nil, "C20", "a field of the types %v is accepted", types)
	gf := &gqlExtractedField{fields: gqlExtractedFields{}, requiredFields: map[string]bool{}}
	err = gf.addField(tree, nil, inst)
	vCheck(err != nil, "C21", "a field of the types %v is accepted", types)
}

func init() {
	vOracleFn("generated Go files", "C20,C24", "C20", 4, nGoFile)
	vOracleFn("union types", "C20,C21", "C20", 1, nUnion)
	_ = fmt.Sprint
}
