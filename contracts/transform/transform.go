package transform

import (
	"encoding/json"
	"errors"
	"strings"

	jsonpath "github.com/GannettDigital/PaesslerAG_jsonpath"
	"github.com/antchfx/xmlquery"
)

//vc:maypanic github.com/antchfx/xmlquery.QueryAll
//vc:pure (*github.com/antchfx/xmlquery.Node).InnerText

// nodes which are found exist
//
//vc:extfacts github.com/antchfx/xmlquery.QueryAll
func factQueryAll(top *xmlquery.Node, expr string, nodes []*xmlquery.Node, err error) bool {
	return (err == nil || nodes == nil) && (nodes == nil || len(nodes) > 0) && vAll(len(nodes), func(i int) bool { return nodes[i] != nil })
}

func factNodes(top *xmlquery.Node, path string, nodes []*xmlquery.Node, err error) bool {
	return (err == nil || nodes == nil) && (nodes == nil || len(nodes) > 0) && vAll(len(nodes), func(i int) bool { return nodes[i] != nil })
}

//vc:target findNodes nonative props=C09 safety=C03,C09 facts=factNodes
func vcFindNodes(top *xmlquery.Node, path string) {
	nodes, err := findNodes(top, path)
	want, werr := xmlquery.QueryAll(top, path)
	if err == nil {
		vEnsures("C09: the nodes the expression selects", vSame(nodes, want) && werr == nil)
	}
}

// --- one instruction

func opsReady(ops []transformOperation) bool {
	return vAll(len(ops), func(i int) bool { return opReady(ops[i]) })
}

//vc:rec
func tiOps(ti *transformInstruction) bool { return opsReady(ti.Operations) }

func tiReady(ti *transformInstruction) bool { return ti != nil && tiOps(ti) }

func tiReq(ti *transformInstruction, in interface{}, fieldType string, modifier pathModifier) bool {
	return tiReady(ti)
}

// chainVal is the result of the first n operations, each applied to the result of the one before.
//
//vc:rec
func chainVal(ops []transformOperation, v interface{}, n int) interface{} {
	if n <= 0 {
		return v
	}
	r, _ := ops[n-1].transform(chainVal(ops, v, n-1))
	return r
}

// opFails tells whether operation n fails on the result of the operations before it.
//
//vc:merge
func opFails(ops []transformOperation, v interface{}, n int) bool {
	_, err := ops[n].transform(chainVal(ops, v, n))
	return err != nil
}

//vc:inv (*transformInstruction).jsonTransform (*transformInstruction).xmlTransform
func invChain(iter int, acc interface{}, init interface{}, p_ti *transformInstruction) bool {
	return vSame(acc, chainVal(p_ti.Operations, init, iter))
}

//vc:inv (*transformInstruction).jsonTransform (*transformInstruction).xmlTransform
func invChainOK(iter int, acc interface{}, init interface{}, p_ti *transformInstruction) bool {
	return vAll(iter, func(i int) bool { return !opFails(p_ti.Operations, init, i) })
}

func modified(m pathModifier, path string) string {
	if m == nil {
		return path
	}
	return m(path)
}

//vc:target (*transformInstruction).jsonTransform req=tiReq props=C09,C14 safety=C03,C09 frame=C01,C09
func vcJSONInstruction(ti *transformInstruction, in interface{}, fieldType string, modifier pathModifier) {
	v, err := ti.jsonTransform(in, fieldType, modifier)
	raw, rerr := jsonpath.Get(modified(modifier, ti.jsonPath), in)
	if rerr != nil || raw == nil {
		vEnsures("C09: nothing found yields nothing", v == nil && err == nil)
		return
	}
	found, cerr := convert(raw, fieldType)
	if cerr != nil {
		found = raw
	}
	if found == nil {
		vEnsures("C09: nothing found yields nothing", v == nil && err == nil)
		return
	}
	specChain(ti.Operations, found, v, err)
}

func specChain(ops []transformOperation, found, v interface{}, err error) {
	if vAll(len(ops), func(i int) bool { return !opFails(ops, found, i) }) {
		vEnsures("C09: every operation is applied once, in order, to the result of the one before", err == nil && vSame(v, chainVal(ops, found, len(ops))))
	} else {
		vEnsures("C09: a failing operation fails the instruction", err != nil && v == nil)
	}
}

//vc:target (*transformInstruction).xmlTransform req=tiReq props=C09,C14 safety=C03,C09 frame=C01,C09
func vcXMLInstruction(ti *transformInstruction, in interface{}, fieldType string, modifier pathModifier) {
	v, err := ti.xmlTransform(in, fieldType, modifier)
	path := modified(modifier, ti.xmlPath)
	node, ok := in.(*xmlquery.Node)
	if !ok {
		vEnsures("C09: an error unless the input is a node", v == nil && err != nil)
		return
	}
	nodes, nerr := findNodes(node, path)
	if nerr != nil {
		vEnsures("C09: an invalid expression is an error", v == nil && err != nil)
		return
	}
	if nodes == nil {
		vEnsures("C09: nothing found yields nothing", v == nil && err == nil)
		return
	}
	with, werr := findNodes(node, path+"[*]")
	without, oerr := findNodes(node, path+"[not(*)]")
	if werr != nil || oerr != nil {
		vEnsures("C09: an invalid expression is an error", v == nil && err != nil)
		return
	}
	found := xmlFound(nodes, len(with) == 0 && len(without) == 1, fieldType)
	if found == nil {
		vEnsures("C09: nothing found yields nothing", v == nil && err == nil)
		return
	}
	specChain(ti.Operations, found, v, err)
}

// xmlFound is the value of the nodes found: the text of a single leaf, else the nodes or their texts as the field needs.
//
//vc:merge
func xmlFound(nodes []*xmlquery.Node, leaf bool, fieldType string) interface{} {
	if leaf {
		v, err := convert(nodes[0].InnerText(), fieldType)
		if err != nil {
			return nil
		}
		return v
	}
	if fieldType == "array" || fieldType == "object" {
		return nodes
	}
	if fieldType == "string" {
		return strings.Join(vSeq(len(nodes), func(i int) string { return nodes[i].InnerText() }), " ")
	}
	v, err := convert(nodes[0].InnerText(), fieldType)
	if err != nil {
		return nodes
	}
	return v
}

//vc:inv (*transformInstruction).xmlTransform
func invTexts(iter int, v_xmlNode []*xmlquery.Node, v_values []string) bool {
	return len(v_values) == len(v_xmlNode) && vAll(iter, func(i int) bool { return i >= len(v_values) || v_values[i] == v_xmlNode[i].InnerText() })
}

func tiReq5(ti *transformInstruction, in interface{}, fieldType string, modifier pathModifier, format inputFormat) bool {
	return tiReady(ti)
}

//vc:target (*transformInstruction).transform req=tiReq5 props=C09 safety=C03,C09 frame=C01,C09
func vcInstruction(ti *transformInstruction, in interface{}, fieldType string, modifier pathModifier, format inputFormat) {
	v, err := ti.transform(in, fieldType, modifier, format)
	var want interface{}
	var werr error
	if format == xmlInput {
		want, werr = ti.xmlTransform(in, fieldType, modifier)
	} else if format == jsonInput {
		want, werr = ti.jsonTransform(in, fieldType, modifier)
	} else {
		werr = errors.New("format")
	}
	vEnsures("C09: the path for the format of the input is used", vSame(v, want) && (err == nil) == (werr == nil))
}

// --- several instructions

func tisReady(tis *transformInstructions) bool {
	return tis != nil && vAll(len(tis.From), func(i int) bool { return tiReady(tis.From[i]) })
}

func tisReq(tis *transformInstructions, in interface{}, fieldType string, modifier pathModifier, format inputFormat) bool {
	return tisReady(tis)
}

// skips tells whether the instruction finds nothing.
//
//vc:merge
func skips(ti *transformInstruction, in interface{}, fieldType string, modifier pathModifier, format inputFormat) bool {
	v, err := ti.transform(in, fieldType, modifier, format)
	return v == nil && err == nil
}

//vc:merge
func fails(ti *transformInstruction, in interface{}, fieldType string, modifier pathModifier, format inputFormat) bool {
	_, err := ti.transform(in, fieldType, modifier, format)
	return err != nil
}

//vc:merge
func yields(ti *transformInstruction, in interface{}, fieldType string, modifier pathModifier, format inputFormat) interface{} {
	v, _ := ti.transform(in, fieldType, modifier, format)
	return v
}

// joined is the values of the first n instructions joined in order.
//
//vc:rec
func joined(from []*transformInstruction, in interface{}, fieldType string, modifier pathModifier, format inputFormat, delimiter string, n int) interface{} {
	if n <= 0 {
		return nil
	}
	v, _ := concat(joined(from, in, fieldType, modifier, format, delimiter, n-1), yields(from[n-1], in, fieldType, modifier, format), delimiter)
	return v
}

//vc:merge
func joinFails(from []*transformInstruction, in interface{}, fieldType string, modifier pathModifier, format inputFormat, delimiter string, n int) bool {
	_, err := concat(joined(from, in, fieldType, modifier, format, delimiter, n), yields(from[n], in, fieldType, modifier, format), delimiter)
	return err != nil
}

//vc:target (*transformInstructions).transform req=tisReq props=C08 safety=C03,C08 frame=C01,C08
func vcInstructions(tis *transformInstructions, in interface{}, fieldType string, modifier pathModifier, format inputFormat) {
	v, err := tis.transform(in, fieldType, modifier, format)
	from := tis.From
	n := len(from)
	if tis.Method == concatenate {
		d := tis.MethodOptions.ConcatenateDelimiter
		if vAll(n, func(i int) bool {
			return !fails(from[i], in, fieldType, modifier, format) && !joinFails(from, in, fieldType, modifier, format, d, i)
		}) {
			vEnsures("C08: concatenate joins all values in order", err == nil && vSame(v, joined(from, in, fieldType, modifier, format, d, n)))
		} else {
			vEnsures("C08: concatenate fails if an instruction fails or values cannot be joined", err != nil && v == nil)
		}
		return
	}
	vEnsures("C08: no value if no instruction has one", !vAll(n, func(i int) bool { return skips(from[i], in, fieldType, modifier, format) }) || v == nil && err == nil)
	if tis.Method == last {
		vEnsures("C08: last yields the value of the last instruction which has one", vAll(n, func(i int) bool {
			return skips(from[i], in, fieldType, modifier, format) || !vAll(n-1-i, func(j int) bool { return skips(from[n-1-j], in, fieldType, modifier, format) }) ||
				fails(from[i], in, fieldType, modifier, format) && err != nil && v == nil || !fails(from[i], in, fieldType, modifier, format) && err == nil && vSame(v, yields(from[i], in, fieldType, modifier, format))
		}))
		return
	}
	vEnsures("C08: first yields the value of the first instruction which has one", vAll(n, func(i int) bool {
		return skips(from[i], in, fieldType, modifier, format) || !vAll(i, func(j int) bool { return skips(from[j], in, fieldType, modifier, format) }) ||
			fails(from[i], in, fieldType, modifier, format) && err != nil && v == nil || !fails(from[i], in, fieldType, modifier, format) && err == nil && vSame(v, yields(from[i], in, fieldType, modifier, format))
	}))
}

//vc:inv (*transformInstructions).transform
func invReversed(iter int, acc []*transformInstruction, p_tis *transformInstructions) bool {
	n := len(p_tis.From)
	return iter <= n && len(acc) == iter && vAll(iter, func(i int) bool { return acc[i] == p_tis.From[n-1-i] })
}

//vc:inv (*transformInstructions).transform
func invSkipped(iter int, v_instructions []*transformInstruction, p_in interface{}, p_fieldType string, p_modifier pathModifier, p_format inputFormat, p_tis *transformInstructions) bool {
	return p_tis.Method == concatenate || vAll(iter, func(i int) bool {
		return i >= len(v_instructions) || skips(v_instructions[i], p_in, p_fieldType, p_modifier, p_format)
	})
}

// inOrder: instruction i in the order they are evaluated in
func inOrder(tis *transformInstructions, i int) *transformInstruction {
	if tis.Method == last {
		return tis.From[len(tis.From)-1-i]
	}
	return tis.From[i]
}

//vc:inv (*transformInstructions).transform
func invSkippedInOrder(iter int, p_in interface{}, p_fieldType string, p_modifier pathModifier, p_format inputFormat, p_tis *transformInstructions) bool {
	return p_tis.Method == concatenate || vAll(iter, func(i int) bool {
		return i >= len(p_tis.From) || skips(inOrder(p_tis, i), p_in, p_fieldType, p_modifier, p_format)
	})
}

//vc:inv (*transformInstructions).transform
func invJoined(iter int, acc interface{}, p_in interface{}, p_fieldType string, p_modifier pathModifier, p_format inputFormat, p_tis *transformInstructions) bool {
	return p_tis.Method != concatenate && acc == nil || p_tis.Method == concatenate && vSame(acc, joined(p_tis.From, p_in, p_fieldType, p_modifier, p_format, p_tis.MethodOptions.ConcatenateDelimiter, iter))
}

//vc:inv (*transformInstructions).transform
func invJoinOK(iter int, p_in interface{}, p_fieldType string, p_modifier pathModifier, p_format inputFormat, p_tis *transformInstructions) bool {
	return p_tis.Method != concatenate || vAll(iter, func(i int) bool {
		return !fails(p_tis.From[i], p_in, p_fieldType, p_modifier, p_format) && !joinFails(p_tis.From, p_in, p_fieldType, p_modifier, p_format, p_tis.MethodOptions.ConcatenateDelimiter, i)
	})
}

var _ = json.Unmarshal
