package generate

import (
	"encoding/json"
	"fmt"
	"sort"
	"strings"

	"github.com/GannettDigital/jstransform/jsonschema"
)

// A generated schema.
type nField struct {
	name     string
	kind     string // object, array, string, boolean, number, integer, date-time, hydration
	nullable bool
	listType bool // the type is written as a list
	fields   []*nField
	item     *nField
	required []string
	desc     string
	target   string
	args     []string
}

var nNames = []string{"alpha", "beta", "gamma", "delta", "a", "b", "ab", "zeta", "url", "x9", "kind", "type"}

type nOpt struct {
	hydration bool
	union     int
	anyObject bool
}

func nGen(g *vG, name string, depth int, o nOpt, inArray bool) *nField {
	f := &nField{name: name}
	f.kind = g.pick("object", "object", "array", "array", "string", "boolean", "number", "integer", "date-time", "date-time")
	if o.hydration && g.one(7) && !inArray {
		f.kind = "hydration"
	}
	if depth <= 0 && (f.kind == "object" || f.kind == "array") {
		f.kind = "string"
	}
	if inArray && f.kind == "array" {
		f.kind = "integer"
	}
	f.nullable = g.one(4)
	f.listType = f.nullable || g.one(6)
	if g.one(3) {
		f.desc = g.pick("one line", "first line\nsecond line", "a\n\nb\n", "DEPRECATED: old", "DEPRECATED: use x\nthe rest\nof it", "x", "trailing\n")
	}
	switch f.kind {
	case "object":
		if !(o.anyObject && g.one(5)) {
			f.fields, f.required = nFields(g, depth-1, o)
		}
	case "array":
		f.item = nGen(g, "", depth-1, o, true)
		f.item.desc = ""
	case "hydration":
		f.nullable, f.listType = false, false
		f.target = g.pick("Asset", "[Asset!]!", "[Tag]", "Int!")
		for i := g.Intn(4); i > 0; i-- {
			f.args = append(f.args, g.pick("first: Int", "\"a comment\"", "", "site: String!", "id: ID"))
		}
	}
	return f
}

func nFields(g *vG, depth int, o nOpt) (fs []*nField, req []string) {
	used := map[string]bool{}
	for i := 1 + g.Intn(4); i > 0; i-- {
		n := nNames[g.Intn(len(nNames))]
		if used[n] {
			continue
		}
		used[n] = true
		fs = append(fs, nGen(g, n, depth, o, false))
		if g.one(2) {
			req = append(req, n)
		}
	}
	if g.one(6) {
		req = append(req, "elsewhere")
	}
	return
}

// schema is the JSON Schema value of the field.
func (f *nField) schema() map[string]interface{} {
	m := map[string]interface{}{}
	t := f.kind
	switch t {
	case "date-time":
		t = "string"
		m["format"] = "date-time"
	case "hydration":
		t = "graphql-hydration"
	}
	switch {
	case f.nullable && len(f.name)%2 == 0:
		m["type"] = []string{"null", t}
	case f.nullable:
		m["type"] = []string{t, "null"}
	case f.listType:
		m["type"] = []string{t}
	default:
		m["type"] = t
	}
	if f.desc != "" {
		m["description"] = f.desc
	}
	if f.kind == "object" {
		ps := map[string]interface{}{}
		for _, c := range f.fields {
			ps[c.name] = c.schema()
		}
		m["properties"] = ps
	}
	if f.required != nil {
		m["required"] = f.required
	}
	if f.item != nil {
		m["items"] = f.item.schema()
	}
	if f.target != "" {
		m["target"] = f.target
	}
	if f.args != nil {
		m["graphql-arguments"] = f.args
	}
	return m
}

func (f *nField) isRequired(name string) bool {
	for _, r := range f.required {
		if r == name {
			return true
		}
	}
	return false
}

func (f *nField) hasTime() bool {
	if f.kind == "date-time" {
		return true
	}
	for _, c := range f.fields {
		if c.hasTime() {
			return true
		}
	}
	return f.item != nil && f.item.hasTime()
}

func nSchema(g *vG, root *nField) *jsonschema.Schema {
	b, _ := json.Marshal(root.schema())
	vNote("schema: %s", b)
	s := &jsonschema.Schema{}
	if err := json.Unmarshal(b, &s.Instance); err != nil {
		panic(vSkip{err.Error()})
	}
	return s
}

func nRoot(g *vG, depth int, o nOpt) *nField {
	root := &nField{name: "root", kind: "object"}
	root.fields, root.required = nFields(g, depth, o)
	return root
}

func nTitle(s string) string { return strings.ToUpper(s[:1]) + s[1:] }

// byName sorts the fields by the name in the generated text.
func byName(fs []*nField, rename map[string]string) []*nField {
	out := append([]*nField(nil), fs...)
	sort.SliceStable(out, func(i, j int) bool { return nShown(out[i].name, rename) < nShown(out[j].name, rename) })
	return out
}

func nShown(name string, rename map[string]string) string {
	if n, ok := rename[name]; ok {
		name = n
	}
	return nTitle(name)
}

var _ = fmt.Sprint
