package transform

import (
	"encoding/json"
	"errors"
	"fmt"
	"strconv"
	"strings"
	"time"

	jsonpath "github.com/GannettDigital/PaesslerAG_jsonpath"
	"github.com/antchfx/xmlquery"
)

// The reference: what the documentation and the properties say a transformer computes, evaluated on the generated
// schema. jsonpath and xmlquery are trusted to find what a path selects, the operations have contracts of their own.

type eIndex struct {
	array string // concrete path of the array
	i     int
}

type eRef struct {
	xml  bool
	seen map[*eNode]bool
}

var errRef = errors.New("reference: error")

func eWithIndex(path string, idx []eIndex) string {
	for _, x := range idx {
		path = strings.Replace(path, x.array+"[*]", fmt.Sprintf("%s[%d]", x.array, x.i), 1)
	}
	return path
}

// written is the path of an instruction as it is used: relative paths start at the parent of the instance.
func (r *eRef) written(n *eNode, p string) string {
	scalar := n.kind != "object" && n.kind != "array"
	parent := n.path
	if !(scalar && strings.HasSuffix(n.path, "[*]")) {
		parent = n.path[:strings.LastIndexByte(n.path, '.')+1]
		parent = strings.TrimSuffix(parent, ".")
	}
	if strings.HasPrefix(p, "@.") {
		return parent + p[1:]
	}
	if strings.HasPrefix(p, "@[") {
		return parent + p[1:]
	}
	return p
}

// eConvert returns the converted value or an error.
func eConvert(raw interface{}, typ string) (interface{}, error) {
	for nested := false; ; nested = true {
		l, ok := raw.([]interface{})
		if !ok {
			if nested && raw == nil {
				panic(vSkip{"null in a list"})
			}
			break
		}
		if len(l) == 0 {
			return nil, nil
		}
		if typ == "array" && len(l) != 1 {
			return raw, nil
		}
		if typ == "array" {
			if in, ok := l[0].([]interface{}); ok && len(in) > 0 {
				panic(vSkip{"list of one list"})
			}
			return l[0], nil
		}
		if in, ok := l[0].([]interface{}); ok && len(in) == 0 {
			panic(vSkip{"list of an empty list"})
		}
		raw = l[0]
	}
	if raw == nil {
		switch typ {
		case "boolean", "string", "array", "object":
			return nil, nil
		}
		return nil, errRef
	}
	switch typ {
	case "boolean":
		switch t := raw.(type) {
		case bool:
			return t, nil
		case string:
			if t == "" {
				return false, nil
			}
			b, err := strconv.ParseBool(t)
			if err != nil {
				return nil, err
			}
			return b, nil
		case int:
			return t > 0, nil
		case float64:
			return t > 0, nil
		}
		return nil, errRef
	case "number", "integer":
		switch t := raw.(type) {
		case bool:
			if t {
				return 1, nil
			}
			return 0, nil
		case string:
			if t == "" {
				return nil, nil
			}
			if v, err := strconv.Atoi(t); err == nil {
				return v, nil
			}
			if v, err := strconv.ParseFloat(t, 64); err == nil {
				return v, nil
			}
			return nil, errRef
		case int, float64:
			return raw, nil
		}
		return nil, errRef
	case "string":
		switch t := raw.(type) {
		case bool:
			return strconv.FormatBool(t), nil
		case string:
			return t, nil
		case int:
			return strconv.Itoa(t), nil
		case float64:
			return strconv.FormatFloat(t, 'f', -1, 64), nil
		}
		return nil, errRef
	case "date-time":
		switch t := raw.(type) {
		case string:
			if t == "" {
				return nil, nil
			}
			v, err := time.Parse(time.RFC3339, t)
			if err != nil {
				return nil, err
			}
			if v.IsZero() {
				return nil, nil
			}
			return v, nil
		case int:
			return time.Unix(int64(t), 0).UTC(), nil
		case float64:
			return time.Unix(int64(t), 0).UTC(), nil
		}
		return nil, errRef
	}
	return raw, nil
}

func eQuery(node *xmlquery.Node, path string) (nodes []*xmlquery.Node, err error) {
	defer func() {
		if r := recover(); r != nil {
			nodes, err = nil, errRef
		}
	}()
	return xmlquery.QueryAll(node, path)
}

func (r *eRef) instruction(n *eNode, in *eInstr, typ string, doc interface{}, idx []eIndex) (interface{}, error) {
	var value interface{}
	if r.xml {
		node := doc.(*xmlquery.Node)
		nodes, err := eQuery(node, eWithIndex(r.written(n, in.xml), idx))
		if err != nil {
			return nil, errRef
		}
		if nodes == nil {
			return nil, nil
		}
		leaf := len(nodes) == 1
		if leaf {
			for c := nodes[0].FirstChild; c != nil; c = c.NextSibling {
				if c.Type == xmlquery.ElementNode {
					leaf = false
				}
			}
		}
		if leaf {
			value, _ = eConvert(nodes[0].InnerText(), typ)
		} else if typ == "array" || typ == "object" {
			value = nodes
		} else if typ == "string" {
			var ss []string
			for _, x := range nodes {
				ss = append(ss, x.InnerText())
			}
			value = strings.Join(ss, " ")
		} else if v, err := eConvert(nodes[0].InnerText(), typ); err == nil {
			value = v
		} else {
			value = nodes
		}
	} else {
		raw, err := jsonpath.Get(eWithIndex(r.written(n, in.json), idx), doc)
		if err != nil || raw == nil {
			return nil, nil
		}
		if value, err = eConvert(raw, typ); err != nil {
			value = raw
		}
	}
	if value == nil {
		return nil, nil
	}
	for _, o := range in.ops {
		var err error
		if value, err = eNewOp(o).transform(value); err != nil {
			return nil, errRef
		}
	}
	return value, nil
}

func (r *eRef) instructions(n *eNode, typ string, doc interface{}, idx []eIndex) (interface{}, error) {
	t := n.tr
	if t.method == "concatenate" {
		var acc interface{}
		for _, in := range t.from {
			v, err := r.instruction(n, in, typ, doc, idx)
			if err != nil {
				return nil, err
			}
			if v == nil {
				continue
			}
			if acc == nil {
				acc = v
				continue
			}
			a, ok1 := acc.(string)
			b, ok2 := v.(string)
			if !ok1 || !ok2 {
				return nil, errRef
			}
			if a != "" && b != "" {
				a += t.delim
			}
			acc = a + b
		}
		return acc, nil
	}
	for i := range t.from {
		in := t.from[i]
		if t.method == "last" {
			in = t.from[len(t.from)-1-i]
		}
		v, err := r.instruction(n, in, typ, doc, idx)
		if err != nil || v != nil {
			return v, err
		}
	}
	return nil, nil
}

// eAt navigates a concrete path of names and indexes.
func eAt(doc interface{}, path string) (interface{}, bool) {
	for _, s := range eSegments(path) {
		switch k := s.(type) {
		case string:
			m, ok := doc.(map[string]interface{})
			if !ok {
				return nil, false
			}
			if doc, ok = m[k]; !ok {
				return nil, false
			}
		case int:
			l, ok := doc.([]interface{})
			if !ok || k >= len(l) {
				return nil, false
			}
			doc = l[k]
		}
	}
	return doc, true
}

func eSegments(path string) []interface{} {
	var out []interface{}
	for _, p := range strings.FieldsFunc(strings.TrimPrefix(path, "$"), func(r rune) bool { return r == '.' || r == '[' }) {
		if strings.HasSuffix(p, "]") {
			i, err := strconv.Atoi(strings.TrimSuffix(p, "]"))
			if err != nil {
				panic("path " + path)
			}
			out = append(out, i)
		} else {
			out = append(out, p)
		}
	}
	return out
}

// eSet is a copy of doc with the value at the path.
func eSet(doc interface{}, segs []interface{}, v interface{}) interface{} {
	if len(segs) == 0 {
		return v
	}
	switch k := segs[0].(type) {
	case string:
		m, ok := doc.(map[string]interface{})
		if !ok && doc != nil {
			panic(vSkip{"the place of an array base is taken"})
		}
		out := map[string]interface{}{}
		for k, x := range m {
			out[k] = x
		}
		out[k] = eSet(out[k], segs[1:], v)
		return out
	default:
		l, ok := doc.([]interface{})
		if !ok && doc != nil {
			panic(vSkip{"the place of an array base is taken"})
		}
		out := append([]interface{}{}, l...)
		for len(out) <= k.(int) {
			out = append(out, nil)
		}
		out[k.(int)] = eSet(out[k.(int)], segs[1:], v)
		return out
	}
}

func (r *eRef) eval(n *eNode, doc interface{}, idx []eIndex) (interface{}, error) {
	r.seen[n] = true
	switch n.kind {
	case "object":
		return r.object(n, doc, idx)
	case "array":
		return r.array(n, doc, idx)
	}
	typ := n.kind
	if typ == "emptyobj" {
		typ = "object"
	}
	if n.tr != nil {
		v, err := r.instructions(n, typ, doc, idx)
		if err != nil || v != nil {
			return v, err
		}
	}
	if !r.xml {
		if raw, ok := eAt(doc, eWithIndex(n.path, idx)); ok {
			if v, err := eConvert(raw, typ); err == nil && v != nil {
				return v, nil
			}
		}
	}
	return n.def, nil
}

func (r *eRef) object(n *eNode, doc interface{}, idx []eIndex) (interface{}, error) {
	var base map[string]interface{}
	if n.tr != nil {
		v, err := r.instructions(n, "object", doc, idx)
		if err != nil {
			return nil, err
		}
		if r.xml {
			switch t := v.(type) {
			case nil:
				return n.def, nil
			case *xmlquery.Node:
				doc = t
			case []*xmlquery.Node:
				if len(t) > 0 {
					doc = t[0]
				}
			case string:
				if t == "" {
					return nil, nil
				}
				return nil, errRef
			default:
				return nil, errRef
			}
		} else if v != nil {
			m, ok := v.(map[string]interface{})
			if !ok {
				return nil, errRef
			}
			base = m
		}
	}
	if base == nil && n.def != nil {
		base = n.def.(map[string]interface{})
	}
	out := map[string]interface{}{}
	for k, v := range base {
		out[k] = v
	}
	for _, c := range n.children {
		v, err := r.eval(c, doc, idx)
		if err != nil {
			return nil, err
		}
		if v != nil {
			out[c.name] = v
		}
	}
	if len(out) == 0 {
		return nil, nil
	}
	return out, nil
}

func (r *eRef) array(n *eNode, doc interface{}, idx []eIndex) (interface{}, error) {
	path := eWithIndex(n.path, idx)
	var base []interface{}
	found, save := false, false
	take := func(v interface{}) {
		found = true
		if l, ok := v.([]interface{}); ok {
			base = l
			return
		}
		base = []interface{}{v}
	}
	if n.tr != nil {
		v, err := r.instructions(n, "array", doc, idx)
		if err != nil {
			return nil, err
		}
		if nodes, ok := v.([]*xmlquery.Node); ok && r.xml {
			found = true
			for _, x := range nodes {
				base = append(base, x)
			}
		} else if v != nil {
			take(v)
			save = true
		}
	}
	if !found && !r.xml {
		if v, ok := eAt(doc, path); ok && v != nil {
			take(v)
		}
	}
	if !found && n.def != nil {
		base = n.def.([]interface{})
		save = true
	}
	if save && !r.xml {
		if _, ok := doc.(map[string]interface{}); !ok {
			return nil, errRef
		}
		if base == nil {
			base = []interface{}{}
		}
		doc = eSet(doc, eSegments(path), base)
	}
	var out []interface{}
	for i := range base {
		v := base[i]
		if r.xml {
			if x, ok := v.(*xmlquery.Node); ok {
				var err error
				if v, err = r.eval(n.item, x, append(append([]eIndex{}, idx...), eIndex{path, i})); err != nil {
					return nil, err
				}
			}
		} else {
			var err error
			if v, err = r.eval(n.item, doc, append(append([]eIndex{}, idx...), eIndex{path, i})); err != nil {
				return nil, err
			}
		}
		if v != nil {
			out = append(out, v)
		}
	}
	if len(out) == 0 {
		return nil, nil
	}
	return out, nil
}

// eReference is the expected output, or an error.
func eReference(root *eNode, raw []byte, xml bool) ([]byte, error) {
	r := &eRef{xml: xml, seen: map[*eNode]bool{}}
	var doc interface{}
	if xml {
		d, err := xmlquery.Parse(strings.NewReader(string(raw)))
		if err != nil {
			return nil, errRef
		}
		doc = d
	} else if json.Unmarshal(raw, &doc) != nil {
		return nil, errRef
	}
	v, err := r.eval(root, doc, nil)
	if err != nil {
		return nil, err
	}
	b, err := json.Marshal(v)
	if err != nil {
		return nil, errRef
	}
	return b, nil
}

// eBlame names the properties of the place where two outputs differ.
func eBlame(n *eNode, got, want interface{}, indexed bool) string {
	indexed = indexed || n.kind == "array"
	switch n.kind {
	case "object":
		g, ok1 := got.(map[string]interface{})
		w, ok2 := want.(map[string]interface{})
		if !ok1 || !ok2 {
			return "C07"
		}
		for _, c := range n.children {
			gv, gok := g[c.name]
			wv, wok := w[c.name]
			if gok != wok || vDump(gv) != vDump(wv) {
				return eBlame(c, gv, wv, indexed)
			}
		}
		return "C07"
	case "array":
		g, ok1 := got.([]interface{})
		w, ok2 := want.([]interface{})
		p := "C06"
		if n.tr != nil {
			p += "," + eTrProps(n)
		}
		if n.item.tr != nil {
			p += ",C14"
		}
		if !ok1 || !ok2 || len(g) != len(w) {
			return p
		}
		for i := range g {
			if vDump(g[i]) != vDump(w[i]) {
				b := eBlame(n.item, g[i], w[i], true)
				if !strings.Contains(b, "C06") {
					b += ",C06"
				}
				return b
			}
		}
		return p
	}
	p := "C05"
	if n.tr != nil {
		p += "," + eTrProps(n)
	}
	if indexed {
		p += ",C14"
	}
	return p
}

func eTrProps(n *eNode) string {
	p := "C09"
	if len(n.tr.from) > 1 {
		p += ",C08"
	}
	for _, in := range n.tr.from {
		if strings.HasPrefix(in.json, "@") {
			p += ",C14"
			break
		}
	}
	return p
}

// eFeatures names the properties a schema exercises.
func eFeatures(n *eNode) map[string]bool {
	out := map[string]bool{}
	var rec func(n *eNode)
	rec = func(n *eNode) {
		switch n.kind {
		case "object":
			out["C07"] = true
		case "array":
			out["C06"] = true
			rec(n.item)
		default:
			out["C05"] = true
		}
		if n.tr != nil {
			out["C09"] = true
			if len(n.tr.from) > 1 {
				out["C08"] = true
			}
		}
		for _, c := range n.children {
			rec(c)
		}
	}
	rec(n)
	return out
}
