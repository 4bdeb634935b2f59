package jsonschema

import (
	"encoding/json"
	"fmt"
	"strings"
)

// A generated definition with its text.
type jNode struct {
	kind     string
	typ      string // JSON of the type
	props    []string
	kids     []*jNode
	item     *jNode
	text     string
	bad      string // what is wrong with this definition
	extra    string
	nullable bool
}

var jNames = []string{"a", "b", "c", "type", "items", "properties", "x y", "é", "A", "a-b", "$ref2", "0", "ab", "abc"}

func jSpace(g *vG) string { return g.pick("", "", "", " ", "\n", "\t ") }

// jObject writes the members in random order.
func jObject(g *vG, members []string) string {
	g.Shuffle(len(members), func(i, j int) { members[i], members[j] = members[j], members[i] })
	var sb strings.Builder
	sb.WriteString("{" + jSpace(g))
	for i, m := range members {
		if i > 0 {
			sb.WriteString("," + jSpace(g))
		}
		sb.WriteString(m + jSpace(g))
	}
	sb.WriteString("}")
	return sb.String()
}

func jMember(g *vG, k, v string) string {
	b, _ := json.Marshal(k)
	return string(b) + jSpace(g) + ":" + jSpace(g) + v
}

func jGen(g *vG, depth int, bad int) *jNode {
	n := &jNode{kind: g.pick("object", "object", "array", "array", "string", "number", "integer", "boolean")}
	if depth <= 0 && (n.kind == "object" || n.kind == "array") {
		n.kind = "string"
	}
	n.nullable = g.one(6)
	q := `"` + n.kind + `"`
	switch {
	case n.nullable && g.one(2):
		n.typ = `["null",` + jSpace(g) + q + `]`
	case n.nullable:
		n.typ = `[` + q + `,"null"` + jSpace(g) + `]`
	case g.one(6):
		n.typ = `[` + q + `]`
	default:
		n.typ = q
	}
	members := []string{jMember(g, "type", n.typ)}
	if bad > 0 && g.one(bad) {
		n.bad = g.pick("type", "type", "syntax", "children")
		if n.bad == "children" && n.kind != "object" && n.kind != "array" {
			n.bad = ""
		}
	}
	if n.bad == "type" {
		members[0] = jMember(g, "type", g.pick(`5`, `{}`, `{"a":1}`, `true`))
	}
	switch n.kind {
	case "object":
		used := map[string]bool{}
		var ps []string
		for i := g.Intn(4); i > 0; i-- {
			name := jNames[g.Intn(len(jNames))]
			if used[name] {
				continue
			}
			used[name] = true
			k := jGen(g, depth-1, bad)
			n.props = append(n.props, name)
			n.kids = append(n.kids, k)
			ps = append(ps, jMember(g, name, k.text))
		}
		if n.bad != "children" {
			members = append(members, jMember(g, "properties", jObject(g, ps)))
		}
		if g.one(3) && len(n.props) > 0 {
			b, _ := json.Marshal(n.props[:g.Intn(len(n.props))+1])
			members = append(members, jMember(g, "required", string(b)))
		}
	case "array":
		n.item = jGen(g, depth-1, bad)
		if n.bad != "children" {
			members = append(members, jMember(g, "items", n.item.text))
		}
	}
	if g.one(3) {
		b, _ := json.Marshal(vString(g))
		members = append(members, jMember(g, "description", string(b)))
	}
	if g.one(5) {
		members = append(members, jMember(g, "format", g.pick(`"date-time"`, `"uri"`, `""`)))
	}
	if g.one(8) {
		members = append(members, jMember(g, "transform", `{"x":{"from":[{"jsonPath":"$.type","properties":{"q":{"type":"string"}}}]}}`))
	}
	if g.one(8) {
		members = append(members, jMember(g, "additionalProperties", g.pick("true", "false")))
	}
	if g.one(10) {
		members = append(members, jMember(g, "default", g.pick(`"x"`, `{"type":"object","properties":{"n":{"type":"string"}}}`, `[1]`, `null`)))
	}
	n.text = jObject(g, members)
	if n.bad == "syntax" {
		n.text = g.pick(`5`, `"x"`, `[]`, `[1]`, `true`)
	}
	return n
}

type jVisit struct {
	path, def, parent string
	bad               bool
}

// jExpect lists the instances below n: what a walk has to visit.
func (n *jNode) jExpect(path, parent string, out *[]jVisit) {
	*out = append(*out, jVisit{path, n.text, parent, n.bad != ""})
	for i, k := range n.kids {
		k.jExpect(path+"."+n.props[i], path, out)
	}
	if n.item != nil {
		n.item.jExpect(path+"[*]", path, out)
	}
}

func (n *jNode) anyBad() bool {
	if n.bad != "" {
		return true
	}
	for _, k := range n.kids {
		if k.anyBad() {
			return true
		}
	}
	return n.item != nil && n.item.anyBad()
}

// jCanon is the JSON value of a text in a canonical form.
func jCanon(b []byte) string {
	var x interface{}
	if err := json.Unmarshal(b, &x); err != nil {
		return "not JSON: " + string(b)
	}
	o, _ := json.Marshal(x)
	return string(o)
}

func jSchemaOf(g *vG, root *jNode) (*Schema, error) {
	s := &Schema{}
	err := json.Unmarshal([]byte(root.text), &s.Instance)
	return s, err
}

type jErr struct{ n int }

func (e jErr) Error() string { return fmt.Sprintf("callback error %d!", e.n) }
