package transform

import (
	"errors"
	"fmt"

	jsonpath "github.com/GannettDigital/PaesslerAG_jsonpath"
	"github.com/antchfx/xmlquery"
)

// --- arrays

// saving an array changes the tree alone, in a way the tree, the path and the array determine
//
//vc:stub self saveInTree for=(*arrayTransformer).transform
func stubSaveArray(tree map[string]interface{}, path string, value interface{}) error {
	array, ok := value.([]interface{})
	vRequires(ok)
	was := vCopyMap(tree)
	if vUF[bool]("save_fails", was, path, array) {
		return errors.New("save")
	}
	vSetMap(tree, vUF[map[string]interface{}]("saved", was, path, array))
	return nil
}

func elemModifier(path string, modifier pathModifier, i int) pathModifier {
	return pathReplace(path+"[*]", path+fmt.Sprintf("[%d]", i), modifier)
}

// elemJSON gives what element i of the base becomes.
//
//vc:merge
func elemJSON(at *arrayTransformer, in interface{}, path string, modifier pathModifier, i int) interface{} {
	v, _ := at.childTransformer.transform(in, elemModifier(path, modifier, i))
	return v
}

//vc:merge
func elemJSONFails(at *arrayTransformer, in interface{}, path string, modifier pathModifier, i int) bool {
	_, err := at.childTransformer.transform(in, elemModifier(path, modifier, i))
	return err != nil
}

// keptJSON: how many of the first n elements yield a value
//
//vc:rec
func keptJSON(at *arrayTransformer, in interface{}, path string, modifier pathModifier, n int) int {
	if n <= 0 {
		return 0
	}
	if elemJSON(at, in, path, modifier, n-1) == nil {
		return keptJSON(at, in, path, modifier, n-1)
	}
	return keptJSON(at, in, path, modifier, n-1) + 1
}

func reqArray(at *arrayTransformer, in interface{}, path string, modifier pathModifier) bool {
	return at != nil && trReady(at.transforms)
}

//vc:target (*arrayTransformer).baseValue props=C06 safety=C03 frame=C01,C02 req=reqArray nonative
func vcBaseValue(at *arrayTransformer, in interface{}, path string, modifier pathModifier, probe int) {
	base, changed, err := at.baseValue(in, path, modifier)
	if at.format != jsonInput && at.format != xmlInput {
		vEnsures("C06: an unknown format is an error", err != nil)
		return
	}
	var tv interface{}
	if at.transforms != nil {
		var terr error
		tv, terr = at.transforms.transform(in, "array", modifier, at.format)
		if terr != nil {
			vEnsures("C06: an error of the transform is returned", err != nil)
			return
		}
	}
	vEnsures("C06: finding the base does not fail by itself", err == nil)
	if nodes, ok := tv.([]*xmlquery.Node); ok && at.format == xmlInput {
		vEnsures("C06: nodes are the base as they are", !changed && len(base) == len(nodes))
		if 0 <= probe && probe < len(nodes) {
			n, ok := base[probe].(*xmlquery.Node)
			vEnsures("C06: node by node", ok && n == nodes[probe])
		}
		return
	}
	if tv != nil {
		vEnsures("C06: what the transform gives is the base and has to be saved", changed)
		vEnsures("C06: the base is the array or its only element", isBase(base, tv))
		return
	}
	if at.format == jsonInput {
		if raw, perr := jsonpath.Get(path, in); perr == nil && raw != nil {
			vEnsures("C06: what the input has is the base and is in the input", !changed)
			vEnsures("C06: the base is the array or its only element", isBase(base, raw))
			return
		}
	}
	vEnsures("C06: the default is the base", vSame(base, at.defaultValue) && changed == (at.defaultValue != nil))
}

func isBase(base []interface{}, v interface{}) bool {
	if l, ok := v.([]interface{}); ok {
		return vSame(base, l)
	}
	return len(base) == 1 && vSame(base[0], v)
}

//vc:target (*arrayTransformer).transform props=C06,C14 safety=C03 frame=C01,C02 implements=transform.instanceTransformer.transform nonative
func vcArrayJSON(at *arrayTransformer, in interface{}, modifier pathModifier, probe int) {
	vRequires(at != nil)
	if at.format == xmlInput {
		return
	}
	v, err := at.transform(in, modifier)
	if at.format != jsonInput {
		vEnsures("C06: an unknown format is an error", err != nil && v == nil)
		return
	}
	path := modified(modifier, at.jsonPath)
	base, changed, berr := at.baseValue(in, path, modifier)
	if berr != nil {
		vEnsures("C06: an error finding the base is returned", err != nil && v == nil)
		return
	}
	if changed {
		if path == "$" {
			in = base
		} else {
			m, ok := in.(map[string]interface{})
			if !ok {
				vEnsures("C06: only an object holds an array", err != nil && v == nil)
				return
			}
			m = vCopyMap(m)
			if saveInTree(m, path, base) != nil {
				vEnsures("C06: an array which cannot be saved is an error", err != nil && v == nil)
				return
			}
			in = m
		}
	}
	if at.childTransformer == nil {
		vEnsures("C06: without a child the base is the value", err == nil && vSame[interface{}](v, base))
		return
	}
	n := len(base)
	if !vAll(n, func(i int) bool { return !elemJSONFails(at, in, path, modifier, i) }) {
		vEnsures("C06: a failing element fails the array", err != nil && v == nil)
		return
	}
	k := keptJSON(at, in, path, modifier, n)
	if k == 0 {
		vEnsures("C06: an array of nothing is nothing", err == nil && v == nil)
		return
	}
	out, ok := v.([]interface{})
	vEnsures("C06: the array has one element per element that has a value", err == nil && ok && len(out) == k)
	if 0 <= probe && probe < n && elemJSON(at, in, path, modifier, probe) != nil {
		vEnsures("C06,C14: elements are in order, each built for its own index", vSame(out[keptJSON(at, in, path, modifier, probe)], elemJSON(at, in, path, modifier, probe)))
	}
}

//vc:inv (*arrayTransformer).transform
func invKeptJSON(iter int, acc []interface{}, v_in interface{}, p_at *arrayTransformer, p_modifier pathModifier) bool {
	k := keptJSON(p_at, v_in, modified(p_modifier, p_at.jsonPath), p_modifier, iter)
	return p_at.format != jsonInput || 0 <= k && k <= iter && len(acc) == k
}

//vc:inv (*arrayTransformer).transform
func invElementsJSON(iter int, acc []interface{}, v_in interface{}, p_at *arrayTransformer, p_modifier pathModifier) bool {
	path := modified(p_modifier, p_at.jsonPath)
	return p_at.format != jsonInput || vAll(iter, func(i int) bool {
		e := elemJSON(p_at, v_in, path, p_modifier, i)
		at := keptJSON(p_at, v_in, path, p_modifier, i)
		return e == nil || 0 <= at && at < len(acc) && vSame(acc[at], e)
	})
}

//vc:inv (*arrayTransformer).transform
func invNoElementFailsJSON(iter int, v_in interface{}, p_at *arrayTransformer, p_modifier pathModifier) bool {
	path := modified(p_modifier, p_at.jsonPath)
	return p_at.format != jsonInput || vAll(iter, func(i int) bool {
		return !elemJSONFails(p_at, v_in, path, p_modifier, i)
	})
}

//vc:inv (*arrayTransformer).baseValue
func invNodes(iter int, v_nodes []*xmlquery.Node, v_base []interface{}) bool {
	return len(v_base) == len(v_nodes) && vAll(iter, func(i int) bool {
		if i >= len(v_nodes) {
			return true
		}
		n, ok := v_base[i].(*xmlquery.Node)
		return ok && n == v_nodes[i]
	})
}

// elemXML gives what element i of the base becomes.
//
//vc:merge
func elemXML(at *arrayTransformer, base []interface{}, path string, modifier pathModifier, i int) interface{} {
	if _, ok := base[i].(*xmlquery.Node); !ok {
		return base[i]
	}
	v, _ := at.childTransformer.transform(base[i], elemModifier(path, modifier, i))
	return v
}

//vc:merge
func elemXMLFails(at *arrayTransformer, base []interface{}, path string, modifier pathModifier, i int) bool {
	if _, ok := base[i].(*xmlquery.Node); !ok {
		return false
	}
	_, err := at.childTransformer.transform(base[i], elemModifier(path, modifier, i))
	return err != nil
}

// keptXML: how many of the first n elements yield a value
//
//vc:rec
func keptXML(at *arrayTransformer, base []interface{}, path string, modifier pathModifier, n int) int {
	if n <= 0 {
		return 0
	}
	if elemXML(at, base, path, modifier, n-1) == nil {
		return keptXML(at, base, path, modifier, n-1)
	}
	return keptXML(at, base, path, modifier, n-1) + 1
}

//vc:target (*arrayTransformer).transform case=XML props=C06,C14 safety=C03 frame=C01,C02 implements=transform.instanceTransformer.transform nonative
func vcArrayXML(at *arrayTransformer, in interface{}, modifier pathModifier, probe int) {
	vRequires(at != nil)
	if at.format != xmlInput {
		return
	}
	v, err := at.transform(in, modifier)
	path := modified(modifier, at.jsonPath)
	base, _, berr := at.baseValue(in, path, modifier)
	if berr != nil {
		vEnsures("C06: an error finding the base is returned", err != nil && v == nil)
		return
	}
	if at.childTransformer == nil {
		vEnsures("C06: without a child the base is the value", err == nil && vSame[interface{}](v, base))
		return
	}
	n := len(base)
	if !vAll(n, func(i int) bool { return !elemXMLFails(at, base, path, modifier, i) }) {
		vEnsures("C06: a failing element fails the array", err != nil && v == nil)
		return
	}
	k := keptXML(at, base, path, modifier, n)
	if k == 0 {
		vEnsures("C06: an array of nothing is nothing", err == nil && v == nil)
		return
	}
	out, ok := v.([]interface{})
	vEnsures("C06: the array has one element per element that has a value", err == nil && ok && len(out) == k)
	if 0 <= probe && probe < n && elemXML(at, base, path, modifier, probe) != nil {
		vEnsures("C06,C14: elements are in order, each built for its own index", vSame(out[keptXML(at, base, path, modifier, probe)], elemXML(at, base, path, modifier, probe)))
	}
}

//vc:inv (*arrayTransformer).transform/XML
func invKeptXML(iter int, acc []interface{}, v_base []interface{}, p_at *arrayTransformer, p_modifier pathModifier) bool {
	k := keptXML(p_at, v_base, modified(p_modifier, p_at.jsonPath), p_modifier, iter)
	return iter <= len(v_base) && 0 <= k && k <= iter && len(acc) == k
}

//vc:inv (*arrayTransformer).transform/XML
func invElementsXML(iter int, acc []interface{}, v_base []interface{}, p_at *arrayTransformer, p_modifier pathModifier) bool {
	path := modified(p_modifier, p_at.jsonPath)
	return vAll(iter, func(i int) bool {
		if i >= len(v_base) {
			return true
		}
		e := elemXML(p_at, v_base, path, p_modifier, i)
		at := keptXML(p_at, v_base, path, p_modifier, i)
		return e == nil || 0 <= at && at < len(acc) && vSame(acc[at], e)
	})
}

//vc:inv (*arrayTransformer).transform/XML
func invNoElementFailsXML(iter int, v_base []interface{}, p_at *arrayTransformer, p_modifier pathModifier) bool {
	path := modified(p_modifier, p_at.jsonPath)
	return vAll(iter, func(i int) bool {
		return i >= len(v_base) || !elemXMLFails(p_at, v_base, path, p_modifier, i)
	})
}
