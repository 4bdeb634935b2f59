package transform

import (
	"encoding/json"
	"fmt"
	"strings"

	"github.com/GannettDigital/jstransform/jsonschema"
	"github.com/antchfx/xmlquery"
)

// A generated schema, apart from its JSON form.

type eNode struct {
	kind     string // object, array, emptyobj, string, boolean, number, integer, date-time
	name     string
	children []*eNode
	item     *eNode
	def      interface{}
	tr       *eTrans
	path     string // as in the schema
	parent   *eNode
	xname    string // the element of the generated XML document
	nullable bool
}

type eTrans struct {
	method, delim string
	from          []*eInstr
}

type eInstr struct {
	json, xml string
	ops       []eOp
}

type eOp struct {
	name string
	args map[string]string
}

var eNames = []string{"a", "b", "c", "d", "ab", "abc", "a1"}

type eSpecGen struct {
	*vG
	xml    bool
	hard   bool // unusual paths
	paths  []string
	xpaths []string
	budget int
	arrays int // depth
	nocc   bool
}

func (s *eSpecGen) node(name, path string, depth int, parent *eNode) *eNode {
	n := &eNode{name: name, path: path, parent: parent, xname: name}
	s.budget--
	k := s.Intn(12)
	switch {
	case k < 3 && depth > 0 && s.budget > 0:
		n.kind = "object"
		s.props(n, depth)
		if s.one(4) {
			n.def = s.defObject(n)
		}
	case k < 6 && depth > 0 && s.budget > 0:
		n.kind = "array"
		n.item = s.node("item", path+"[*]", depth-1, n)
		if s.one(4) {
			n.def = s.defList(n)
		}
	case k == 6 && s.one(3):
		n.kind = "emptyobj"
		if s.one(3) {
			n.def = map[string]interface{}{"z": 1.0}
		}
	default:
		n.kind = s.pick("string", "string", "string", "boolean", "number", "integer", "date-time")
		if s.one(3) {
			n.def = s.defScalar(n.kind)
		}
	}
	n.nullable = s.one(10)
	s.paths = append(s.paths, path)
	if s.one(3) {
		n.tr = &eTrans{} // filled when all paths are known
	}
	return n
}

func (s *eSpecGen) props(n *eNode, depth int) {
	used := map[string]bool{}
	for i := 1 + s.Intn(3); i > 0; i-- {
		name := eNames[s.Intn(len(eNames))]
		if used[name] {
			continue
		}
		used[name] = true
		n.children = append(n.children, s.node(name, n.path+"."+name, depth-1, n))
	}
}

func (s *eSpecGen) defScalar(kind string) interface{} {
	switch kind {
	case "string":
		return s.pick("def", "", "dflt")
	case "boolean":
		return s.one(2)
	case "date-time":
		return "2001-02-03T04:05:06Z"
	}
	return float64(s.Intn(9))
}

func (s *eSpecGen) defObject(n *eNode) interface{} {
	out := map[string]interface{}{}
	for _, c := range n.children {
		if s.one(2) {
			out[c.name] = s.value(c, 2)
		}
	}
	if s.one(3) {
		out["extra"] = "x"
	}
	return out
}

func (s *eSpecGen) defList(n *eNode) interface{} {
	out := []interface{}{}
	for i := s.Intn(4); i > 0; i-- {
		out = append(out, s.value(n.item, 2))
	}
	return out
}

// value is a JSON value which more or less fits the node.
func (s *eSpecGen) value(n *eNode, depth int) interface{} {
	if s.one(9) {
		return vPlain(vJSONValue(s.vG, 1))
	}
	switch n.kind {
	case "object", "emptyobj":
		out := map[string]interface{}{}
		for _, c := range n.children {
			if !s.one(4) {
				out[c.name] = s.value(c, depth-1)
			}
		}
		if s.one(4) {
			out[eNames[s.Intn(len(eNames))]] = s.pick("q", "7", "true")
		}
		if s.one(3) {
			out[s.pick("l", "l", "ab")] = s.records()
			if s.one(2) {
				out["k"] = s.pick("x", "y")
			}
		}
		return out
	case "array":
		out := []interface{}{}
		for i := s.Intn(4); i > 0; i-- {
			out = append(out, s.value(n.item, depth-1))
		}
		if s.one(10) {
			return s.value(n.item, depth-1)
		}
		return out
	case "string":
		if s.one(5) {
			return s.pick("1:30", "01:02:03", "2019-07-01", "<b>x</b> &amp; y", "a,b,c", "", "snake_case_word", "TRUE")
		}
		return fmt.Sprintf("%s%d", s.pick("v", "W x", "é"), s.Intn(50))
	case "boolean":
		return s.one(2)
	case "date-time":
		return s.pick("2019-07-01T00:00:00Z", "2001-01-01T10:00:00-05:00", "", "0001-01-01T00:00:00Z")
	}
	return float64(s.Intn(400)-100) / 4
}

// records is a list a filter may select from.
func (s *eSpecGen) records() []interface{} {
	l := []interface{}{}
	for i := s.Intn(4); i > 0; i-- {
		m := map[string]interface{}{"n": float64(s.Intn(5))}
		if s.one(2) {
			m["z"] = nil
		}
		if !s.one(5) {
			m["k"] = s.pick("x", "y")
		}
		if !s.one(5) {
			m["v"] = s.pick("one", "two", "7")
		}
		l = append(l, m)
	}
	return l
}

// vPlain makes a value one encoding/json would produce.
func vPlain(x interface{}) interface{} {
	b, err := json.Marshal(x)
	if err != nil {
		return nil
	}
	var out interface{}
	json.Unmarshal(b, &out)
	return out
}

func (s *eSpecGen) fill(n *eNode) {
	if n.tr != nil {
		n.tr = s.trans(n)
	}
	for _, c := range n.children {
		s.fill(c)
	}
	if n.item != nil {
		s.fill(n.item)
	}
}

func (s *eSpecGen) trans(n *eNode) *eTrans {
	t := &eTrans{method: s.pick("", "first", "last", "concatenate", "")}
	if t.method == "concatenate" {
		t.delim = s.pick("", ", ", "-")
	}
	for i := 1 + s.Intn(3); i > 0; i-- {
		in := &eInstr{json: s.jsonPath(n), xml: s.xmlPath(n)}
		for j := s.Intn(3); j > 0 && s.one(2); j-- {
			in.ops = append(in.ops, s.op(n))
		}
		if s.one(16) {
			in.json = s.pick("@.", "$.") + "l"
			in.ops = []eOp{{"max", map[string]string{"by": "@.n", "return": s.pick("@.k", "@.z", "@.z")}}, s.op(n)}
			if s.one(2) {
				in.ops[1] = eOp{"valueExists", nil}
			}
		}
		t.from = append(t.from, in)
	}
	return t
}

func (s *eSpecGen) jsonPath(n *eNode) string {
	if s.hard && s.one(3) {
		return s.pick("", "$", "$[", "$.a[-1]", "$.*", "$..a", "$.a[0:2]", "$.a[?(@.b > 1)].c", "@.", "@[0]", "a", "$.a[99]", "$['a']", "$.a[*].b[*]", "$[0]", "@", "$.a[?(@.b=='x')]", "$..*", "$.a.*.b")
	}
	p := s.paths[s.Intn(len(s.paths))]
	switch s.Intn(9) {
	case 8: // a filter in a relative path or in one below the root
		return s.pick("@.", "@.", "$.") + s.pick("l", "ab") + s.pick("[?(@.k == \"x\")]", "[?(@.k == \"x\")].v", "[?(@.k == \"y\")].v", "[*].v", "[?(@.v)].k", "[1].v")
	case 0, 1: // relative
		return "@." + eNames[s.Intn(len(eNames))]
	case 2:
		return "@." + eNames[s.Intn(len(eNames))] + s.pick("[0]", "[*]", "."+eNames[s.Intn(len(eNames))])
	case 3: // a place the array this one is in
		if n.parent != nil {
			q := n.parent
			for q.parent != nil && q.kind != "array" {
				q = q.parent
			}
			return q.path + s.pick("", "[*]", "[*]", "."+eNames[s.Intn(len(eNames))], "[*]."+eNames[s.Intn(len(eNames))])
		}
	case 4:
		return strings.Replace(p, "[*]", "[0]", 1)
	case 5:
		if n.kind == "array" && s.one(2) {
			return p + "[?(@." + eNames[s.Intn(len(eNames))] + " == \"v1\")]"
		}
		return "$." + eNames[s.Intn(len(eNames))]
	case 6:
		if n.kind != "object" && n.kind != "array" && s.one(2) {
			return "@[" + s.pick("0", "1", "*") + "]"
		}
	}
	return p
}

func (s *eSpecGen) xmlPath(n *eNode) string {
	if s.hard && s.one(3) {
		return s.pick("", "/", "//", "//*", "[", "a[", "//a[1]", "a/b/", "@id", "*[1]", "//a[@id='1']", "true()", "count(//a)", "//a[last()]", "a|b", "..", ".", "//text()", "not(", "string(a)")
	}
	if s.one(4) {
		return "@id"
	}
	e := eNames[s.Intn(len(eNames))]
	f := eNames[s.Intn(len(eNames))]
	return s.pick(e, "//"+e, e+"/"+f, "//"+e+"/"+f, "/root/"+e, "//"+e+"[1]", ".")
}

func (s *eSpecGen) op(n *eNode) eOp {
	switch s.Intn(14) {
	case 0, 1:
		return eOp{"changeCase", map[string]string{"to": s.pick("lower", "upper")}}
	case 2:
		return eOp{"inverse", nil}
	case 3:
		return eOp{"max", map[string]string{"by": "@.a", "return": s.pick("@.b", "@.a")}}
	case 4, 5:
		return eOp{"replace", map[string]string{"regex": s.pick("v", "[0-9]+", "(.)"), "new": s.pick("", "_", "$1$1")}}
	case 6:
		return eOp{"split", map[string]string{"on": s.pick(",", " ", "")}}
	case 7:
		return eOp{"timeParse", map[string]string{"format": "2006-01-02", "layout": "02 Jan 2006"}}
	case 8:
		return eOp{"toCamelCase", map[string]string{"delimiter": s.pick("_", " ")}}
	case 9:
		return eOp{"removeHTML", nil}
	case 10:
		return eOp{"convertToFloat64", nil}
	case 11:
		return eOp{"convertToInt64", nil}
	case 12:
		return eOp{"convertToBool", nil}
	}
	return eOp{s.pick("valueExists", "duration"), nil}
}

// schema is the JSON form of the node.
func (n *eNode) schema() map[string]interface{} {
	m := map[string]interface{}{}
	typ := n.kind
	switch n.kind {
	case "object":
		ps := map[string]interface{}{}
		for _, c := range n.children {
			ps[c.name] = c.schema()
		}
		m["properties"] = ps
	case "emptyobj":
		typ = "object"
		m["properties"] = map[string]interface{}{}
	case "array":
		m["items"] = n.item.schema()
	case "date-time":
		typ = "string"
		m["format"] = "date-time"
	}
	m["type"] = typ
	if n.nullable {
		m["type"] = []string{"null", typ}
	}
	if n.def != nil {
		m["default"] = n.def
	}
	if n.tr != nil {
		m["transform"] = map[string]interface{}{
			"other": map[string]interface{}{"from": []interface{}{map[string]interface{}{"jsonPath": "$.nowhere"}}},
			"id":    n.tr.schema(),
		}
	}
	return m
}

func (t *eTrans) schema() interface{} {
	var from []interface{}
	for _, in := range t.from {
		i := map[string]interface{}{"jsonPath": in.json, "xmlPath": in.xml}
		var ops []interface{}
		for _, o := range in.ops {
			om := map[string]interface{}{"type": o.name}
			if o.args != nil {
				om["args"] = o.args
			}
			ops = append(ops, om)
		}
		if ops != nil {
			i["operations"] = ops
		}
		from = append(from, i)
	}
	out := map[string]interface{}{"from": from}
	if t.method != "" {
		out["method"] = t.method
	}
	if t.delim != "" {
		out["methodOptions"] = map[string]interface{}{"concatenateDelimiter": t.delim}
	}
	return out
}

// eSpec generates a whole schema.
func eSpec(g *vG, xml, hard bool) (*eNode, *eSpecGen) {
	s := &eSpecGen{vG: g, xml: xml, hard: hard, budget: 12}
	root := &eNode{kind: "object", path: "$"}
	if g.one(8) {
		root.kind = "array"
		root.item = s.node("item", "$[*]", 3, root)
	} else {
		s.props(root, 3)
		for len(root.children) < 2 && g.one(2) {
			s.props(root, 3)
			root.children = uniq(root.children)
		}
		root.children = uniq(root.children)
	}
	s.fill(root)
	return root, s
}

func uniq(ns []*eNode) []*eNode {
	seen := map[string]bool{}
	var out []*eNode
	for _, n := range ns {
		if !seen[n.name] {
			seen[n.name] = true
			out = append(out, n)
		}
	}
	return out
}

// vValidator records what it is asked.
type vValidator struct {
	got [][]byte
	ok  bool
	err error
}

func (v *vValidator) Validate(raw json.RawMessage) (bool, error) {
	v.got = append(v.got, append([]byte{}, raw...))
	return v.ok, v.err
}

func eSchema(root *eNode, v jsonschema.Validator) (*jsonschema.Schema, string) {
	b, err := json.Marshal(root.schema())
	if err != nil {
		panic(vSkip{"schema"})
	}
	s := &jsonschema.Schema{Validator: v}
	if err := json.Unmarshal(b, &s.Instance); err != nil {
		panic(err)
	}
	return s, string(b)
}

func eTransformer(s *jsonschema.Schema, xml bool) (*Transformer, error) {
	if xml {
		return NewXMLTransformer(s, "id")
	}
	return NewTransformer(s, "id")
}

// doc is an input document.
func (s *eSpecGen) doc(root *eNode) []byte {
	if s.xml {
		var sb strings.Builder
		sb.WriteString("<root>")
		s.xmlKids(&sb, root, 3)
		sb.WriteString("</root>")
		return []byte(sb.String())
	}
	var v interface{}
	if s.one(12) {
		v = vPlain(vJSONValue(s.vG, 4))
	} else {
		v = s.value(root, 4)
		if m, ok := v.(map[string]interface{}); ok && s.one(3) {
			m[eNames[s.Intn(len(eNames))]] = vPlain(vJSONValue(s.vG, 3))
		}
	}
	b, err := json.Marshal(v)
	if err != nil {
		panic(vSkip{"doc"})
	}
	return b
}

func (s *eSpecGen) xmlKids(sb *strings.Builder, n *eNode, depth int) {
	for i := s.Intn(4); i > 0; i-- {
		name := eNames[s.Intn(len(eNames))]
		fmt.Fprintf(sb, "<%s", name)
		if s.one(3) {
			fmt.Fprintf(sb, " id=\"%d\"", s.Intn(3))
		}
		sb.WriteString(">")
		if depth > 0 && s.one(2) {
			s.xmlKids(sb, n, depth-1)
		} else {
			sb.WriteString(s.pick("", "x", "12", "true", "3.5", "2019-07-01T00:00:00Z", "1:30", "some text", "a,b", "v1"))
		}
		fmt.Fprintf(sb, "</%s>", name)
	}
}

// arguments for the contracts of the package

var vOpNames = []string{"changeCase", "currentTime", "duration", "inverse", "max", "replace", "split", "timeParse", "toCamelCase", "removeHTML", "convertToFloat64", "convertToInt64", "convertToBool", "valueExists"}

func vXMLNode(g *vG) *xmlquery.Node {
	s := &eSpecGen{vG: g, xml: true}
	d, err := xmlquery.Parse(strings.NewReader(string(s.doc(nil))))
	if err != nil {
		panic(vSkip{"xml"})
	}
	if g.one(3) {
		if ns, err := xmlquery.QueryAll(d, "//"+eNames[g.Intn(len(eNames))]); err == nil && len(ns) > 0 {
			return ns[g.Intn(len(ns))]
		}
	}
	return d
}

func init() {
	vGens["*xmlquery.Node"] = func(g *vG) interface{} { return vXMLNode(g) }
	vGens["format transform.inputFormat"] = func(g *vG) interface{} { return inputFormat(g.pick("JSON", "XML", "JSON", "XML", "x")) }
	vGens["fieldType string"] = func(g *vG) interface{} {
		return g.pick("string", "boolean", "number", "integer", "date-time", "array", "object", "scalar")
	}
	vGens["jsonPath string"] = func(g *vG) interface{} {
		return g.pick("$", "$.a", "$.b", "$.a.b", "$.a[0]", "$[0]", "$.c", "@.a", "@[0]", "$.a[*]", "$[*].a", "")
	}
	vGens["xmlPath string"] = func(g *vG) interface{} {
		return g.pick("a", "//a", "//b", "a/b", "/root/a", ".", "*", "//c", "//a[", "@id")
	}
	vGens["in interface {}"] = func(g *vG) interface{} {
		if g.one(3) {
			return vXMLNode(g)
		}
		return vJSONValue(g, 3)
	}
}
