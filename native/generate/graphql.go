package generate

import (
	"bytes"
	"fmt"
	"strings"
	"time"
)

// C21, C24: GraphQL types.

const nListArgs = `(
    "A List Filter expression such as '{Field: \"position\", Operation: \"<=\", Argument: {Value: 10}}'"
    filter: ListFilter

    "Sort the list, ie '{Field: \"position\", Order: \"ASC\"}'"
    sort: ListSortParams
  )`

func nScalar(kind string) string {
	return map[string]string{"boolean": "Boolean", "number": "Float", "integer": "Int", "string": "String", "date-time": "DateTime"}[kind]
}

// nComment is the description as a comment, line by line.
func nComment(prefix, d string) []string {
	if !strings.Contains(d, "\n") {
		return []string{prefix + `"` + d + `"`}
	}
	out := []string{prefix + `"""`}
	for _, l := range strings.Split(d, "\n") {
		if l != "" {
			l = prefix + l
		}
		out = append(out, l)
	}
	return append(out, prefix+`"""`)
}

// nGQLField is the expected text of a field.
func nGQLField(owner, f *nField, typeName string, args BuildArgs) []string {
	var out []string
	d, attr := f.desc, ""
	if strings.HasPrefix(d, "DEPRECATED:") {
		ls := strings.Split(d, "\n")
		attr = fmt.Sprintf(" @deprecated(reason: %q)", strings.TrimSpace(strings.TrimPrefix(ls[0], "DEPRECATED:")))
		d = strings.TrimSpace(strings.Join(ls[1:], "\n"))
	}
	if d != "" {
		out = append(out, nComment("  ", d)...)
	}
	req := owner.isRequired(f.name)
	text := "  " + f.name
	if f.kind == "hydration" {
		if len(f.args) > 0 {
			text += "(\n"
			for _, a := range f.args {
				if a != "" {
					text += "    " + a
				}
				text += "\n"
			}
			text += "  )"
		}
		text += ": " + f.target
		return append(out, strings.Split(text+attr, "\n")...)
	}
	x, list := f, false
	if f.kind == "array" {
		x, list = f.item, true
	}
	var typ string
	nonNull := req || !args.Pointers
	nullable := f.nullable && !list // the nullability of items is not looked at
	switch {
	case f.target != "" && !list:
		typ = f.target
	case x.kind == "object" && len(x.fields) == 0:
		typ = "Any"
		nonNull = false
	case x.kind == "object":
		typ = typeName
	case x.kind == "date-time":
		typ = "DateTime"
		nonNull = false
	default:
		typ = nScalar(x.kind)
		nonNull = nonNull || !nullable
	}
	if nonNull {
		typ += "!"
	}
	if list {
		typ = "[" + typ + "]"
		if !f.nullable && (req || !args.Pointers) {
			typ += "!"
		}
		typ += " @goField(forceResolver: true)"
		text += nListArgs
	}
	return append(out, strings.Split(text+": "+typ+attr, "\n")...)
}

func nField1(name string, rename map[string]string) string {
	if r, ok := rename[name]; ok {
		return r
	}
	return name
}

type nGQLType struct {
	path, name string
	f          *nField
}

func nGraphQL(g *vG) {
	args := BuildArgs{NoNestedStructs: true, Pointers: g.one(2), DescriptionAsStructTag: g.one(2), ImportPath: "example.com/x"}
	root := nRoot(g, 3, nOpt{hydration: true, anyObject: true})
	root.desc = g.pick("", "", "root type", "two\nlines")
	if g.one(3) {
		args.GraphQLTypeNameMap = map[string]string{g.pick("root", "RootAlpha", "RootBeta", "RootABeta", "RootB"): g.pick("Renamed", "X")}
	}
	if g.one(3) {
		args.FieldNameMap = map[string]string{nNames[g.Intn(len(nNames))]: g.pick("Renamed", "other", "Zz", "a1")}
	}
	vNote("arguments: pointers %v, renamed types %v, renamed fields %v", args.Pointers, args.GraphQLTypeNameMap, args.FieldNameMap)
	s := nSchema(g, root)
	var text string
	for i := 0; i < 3; i++ {
		gof, err := newGeneratedGraphQLFile(s.Instance, "root", "pkg", false, args)
		if !vCheck(err == nil, "C21", "building failed: %v", err) {
			return
		}
		var b bytes.Buffer
		err = gof.write(&b)
		if !vCheck(err == nil, "C21,C24", "writing failed: %v", err) {
			return
		}
		if i > 0 && !vCheck(b.String() == text, "C24", "two runs generate different texts:\n%s\nand\n%s", text, b.String()) {
			return
		}
		text = b.String()
	}
	vNote("generated:\n%s", text)
	rename := func(n string) string {
		if r, ok := args.GraphQLTypeNameMap[n]; ok {
			return r
		}
		return n
	}
	// the types in the order of their names
	rootName := "Root"
	if r, ok := args.GraphQLTypeNameMap["root"]; ok {
		rootName = r
	}
	types := []nGQLType{{"Root", rootName, root}}
	var rec func(t nGQLType)
	byPath := map[string]nGQLType{}
	rec = func(t nGQLType) {
		for _, f := range t.f.fields {
			x := f
			if f.item != nil {
				x = f.item
			}
			if x.kind == "object" {
				base := t.name
				if t.path == "Root" {
					base = nTitle(t.name)
				}
				n := nGQLType{t.path + nTitle(f.name), rename(base + nTitle(f.name)), x}
				byPath[n.path] = n
				if len(x.fields) > 0 {
					types = append(types, n)
				}
				rec(n)
			}
		}
	}
	rec(types[0])
	for i := 1; i < len(types); i++ {
		for j := i; j > 1 && types[j].path < types[j-1].path; j-- {
			types[j], types[j-1] = types[j-1], types[j]
		}
	}
	var out []string
	for _, t := range types {
		out = append(out, "")
		if t.f.desc != "" {
			out = append(out, nComment("", t.f.desc)...)
		}
		model := ""
		if !t.f.onlyHydration() {
			model = `@goModel(model: "example.com/x.` + t.path + `") `
		}
		out = append(out, "type "+t.name+" "+model+"{")
		type entry struct {
			key  string
			text []string
		}
		var es []entry
		for _, f := range t.f.fields {
			shown := nShown(f.name, args.FieldNameMap)
			es = append(es, entry{shown, nGQLField(t.f, f, byPath[t.path+nTitle(f.name)].name, args)})
			if f.kind == "array" {
				var c []string
				d := fmt.Sprintf("The total length of the %s list at this same level in the data, this number is unaffected by filtering.", nField1(f.name, args.FieldNameMap))
				tot := &nField{name: "total" + shown, kind: "integer", desc: d}
				if strings.HasPrefix(f.desc, "DEPRECATED:") {
					tot.desc = strings.Split(f.desc, "\n")[0] + "\n" + d
				}
				o := &nField{required: []string{tot.name}}
				c = nGQLField(o, tot, "", args)
				es = append(es, entry{"Total" + shown, c})
			}
		}
		for i := range es {
			for j := i; j > 0 && es[j].key < es[j-1].key; j-- {
				es[j], es[j-1] = es[j-1], es[j]
			}
		}
		for i, e := range es {
			if i > 0 {
				out = append(out, "")
			}
			out = append(out, e.text...)
		}
		out = append(out, "}")
	}
	want := strings.Join(out, "\n") + "\n"
	if text != want {
		a, b := strings.Split(text, "\n"), strings.Split(want, "\n")
		for i := 0; i < len(a) || i < len(b); i++ {
			x, y := "(end)", "(end)"
			if i < len(a) {
				x = a[i]
			}
			if i < len(b) {
				y = b[i]
			}
			if x != y {
				prop := "C21"
				if len(a) != len(b) || strings.HasPrefix(y, "type ") || strings.HasPrefix(x, "type ") || strings.Split(strings.Trim(x, " "), ":")[0] != strings.Split(strings.Trim(y, " "), ":")[0] {
					prop = "C21,C24"
				}
				vCheck(false, prop, "line %d is %q, not %q", i+1, x, y)
				return
			}
		}
	}
}

// C22.
func nAvro(g *vG) {
	var ts []time.Time
	for i := g.Intn(5); i > 0; i-- {
		ts = append(ts, vGens["time.Time"](g).(time.Time))
		if g.one(3) {
			ts[len(ts)-1] = time.Date(g.Intn(20000)-5000, time.Month(g.Intn(12)+1), g.Intn(28)+1, g.Intn(24), g.Intn(60), g.Intn(60), g.Intn(1000000000), time.UTC)
		}
	}
	ms := func(t time.Time) int64 { return t.Unix()*1000 + int64(t.Nanosecond()/1000000) }
	var ps []*time.Time
	var want, wantOpt []int64
	for i := range ts {
		vNote("time %v", ts[i])
		vCheck(AvroTime(ts[i]) == ms(ts[i]), "C22", "AvroTime(%v) is %d, not %d", ts[i], AvroTime(ts[i]), ms(ts[i]))
		vCheck(AvroOptionalTime(&ts[i]) == ms(ts[i]), "C22", "AvroOptionalTime(%v) is %d, not %d", ts[i], AvroOptionalTime(&ts[i]), ms(ts[i]))
		want = append(want, ms(ts[i]))
		if g.one(3) {
			ps = append(ps, nil)
		}
		if g.Intn(4) > 0 {
			ps = append(ps, &ts[i])
			wantOpt = append(wantOpt, ms(ts[i]))
		}
	}
	vCheck(AvroOptionalTime(nil) == 0, "C22", "an absent time is %d", AvroOptionalTime(nil))
	got, gotOpt := AvroTimeSlice(ts), AvroOptionalTimeSlice(ps)
	vCheck(fmt.Sprint(got) == fmt.Sprint(want), "C22", "the list is %v, not %v", got, want)
	vCheck(fmt.Sprint(gotOpt) == fmt.Sprint(wantOpt), "C22", "the list with absent times is %v, not %v", gotOpt, wantOpt)
}

func init() {
	vOracleFn("generated GraphQL", "C21,C24", "C21", 4, nGraphQL)
	vOracleFn("Avro times", "C22", "C22", 1, nAvro)
}
