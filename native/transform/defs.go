package transform

import (
	"encoding/json"
	"fmt"
	"regexp"
	"strings"
)

// C13, C14: transform definitions.

var eOpArgs = map[string][]string{
	"changeCase": {"to"}, "currentTime": {"format"}, "max": {"by", "return"}, "replace": {"regex", "new"},
	"split": {"on"}, "timeParse": {"format", "layout"}, "toCamelCase": {"delimiter"},
}

func eRandomOp(g *vG) (eOp, bool) {
	o := eOp{name: vOpNames[g.Intn(len(vOpNames))]}
	ok := true
	if g.one(12) {
		o.name = g.pick("", "ChangeCase", "nothing", "max ", "split2", "null")
		ok = false
	}
	want := eOpArgs[o.name]
	if want == nil {
		if g.one(4) {
			o.args = map[string]string{"x": "y"}
		}
		return o, ok
	}
	o.args = map[string]string{}
	for _, a := range want {
		o.args[a] = vString(g)
	}
	switch o.name {
	case "changeCase":
		o.args["to"] = g.pick("lower", "upper", "lower", "upper", "Lower", "", "title")
		ok = ok && (o.args["to"] == "lower" || o.args["to"] == "upper")
	case "replace":
		o.args["regex"] = g.pick("a", "[0-9]+", "(", "[", "a**", "", "\\", "x{2,1}", "(?P<n>a)")
	}
	switch g.Intn(10) {
	case 0:
		delete(o.args, want[g.Intn(len(want))])
		ok = false
	case 1:
		o.args["extra"] = vString(g)
		ok = false
	case 2:
		a := want[g.Intn(len(want))]
		v := o.args[a]
		delete(o.args, a)
		o.args[strings.ToUpper(a)] = v
		ok = false
	}
	if o.name == "replace" {
		_, err := regexp.Compile(o.args["regex"])
		ok = ok && err == nil
	}
	return o, ok
}

func eDefinitions(g *vG) {
	t := &eTrans{method: g.pick("", "first", "last", "concatenate"), delim: g.pick("", ",", " ")}
	ok := true
	if g.one(10) {
		t.method = g.pick("First", "all", "concat", "last ", "null", "0")
		ok = false
	}
	for i := g.Intn(4); i > 0; i-- {
		in := &eInstr{json: g.pick("$.a", "@.b", "@[0]", "$.c[*].d", ""), xml: g.pick("a", "//b", "", "@id")}
		for j := g.Intn(4); j > 0; j-- {
			o, k := eRandomOp(g)
			ok = ok && k
			in.ops = append(in.ops, o)
		}
		t.from = append(t.from, in)
	}
	b, _ := json.Marshal(t.schema())
	vNote("definition: %s", b)
	var tis transformInstructions
	err := json.Unmarshal(b, &tis)
	if !vCheck((err == nil) == ok, "C13", "error %v, the definition is well-formed: %v", err, ok) || err != nil {
		return
	}
	wantMethod := map[string]transformMethod{"": first, "first": first, "last": last, "concatenate": concatenate}[t.method]
	vCheck(tis.Method == wantMethod && tis.MethodOptions.ConcatenateDelimiter == t.delim, "C13", "method %v with delimiter %q", tis.Method, tis.MethodOptions.ConcatenateDelimiter)
	if !vCheck(len(tis.From) == len(t.from), "C13", "%d instructions", len(tis.From)) {
		return
	}
	for i, in := range t.from {
		got := tis.From[i]
		vCheck(got.jsonPath == in.json && got.xmlPath == in.xml, "C13,C14", "instruction %d has the paths %q and %q", i, got.jsonPath, got.xmlPath)
		if !vCheck(len(got.Operations) == len(in.ops), "C13", "instruction %d has %d operations", i, len(got.Operations)) {
			continue
		}
		for j, o := range in.ops {
			a, w := eOpDump(got.Operations[j]), eOpDump(eNewOp(o))
			vCheck(a == w, "C13", "operation %d of instruction %d is %s, written was %s", j, i, a, w)
		}
	}
}

var eHex = regexp.MustCompile(`@[0-9a-f]+`)

// eOpDump describes an operation; compiled expressions by their text.
func eOpDump(op transformOperation) string {
	s := eHex.ReplaceAllString(vDump(op), "")
	if r, ok := op.(*replace); ok && r.regex != nil {
		s += fmt.Sprintf(" regex %q", r.regex)
	}
	return s
}

// eBuildDefinitions: the same through the transformer.
func eBuildDefinitions(g *vG) {
	root, _ := eSpec(g, false, false)
	ok, n := true, 0
	var rec func(x *eNode)
	rec = func(x *eNode) {
		if x.tr != nil {
			for _, in := range x.tr.from {
				for j := range in.ops {
					var k bool
					in.ops[j], k = eRandomOp(g)
					ok = ok && k
					n++
				}
			}
			if g.one(6) {
				x.tr.method = "no method"
				ok = false
			}
		}
		for _, c := range x.children {
			rec(c)
		}
		if x.item != nil {
			rec(x.item)
		}
	}
	rec(root)
	schema, text := eSchema(root, &vValidator{ok: true})
	vNote("schema: %s", text)
	_, err := eTransformer(schema, g.one(2))
	vCheck((err == nil) == ok, "C13", "building the transformer returned the error %v, the definitions are well-formed: %v", err, ok)
}

func init() {
	vOracleFn("transform definitions", "C13,C14", "C13,C03", 2, eDefinitions)
	vOracleFn("building transformers", "C13", "C13,C03", 1, eBuildDefinitions)
}
