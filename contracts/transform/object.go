package transform

import (
	"strings"

	"github.com/antchfx/xmlquery"
)

// --- objects

// what saving at a path of one name does (the contract of saveInTree below)
//
//vc:stub self saveInTree for=(*objectTransformer).transform
func stubSave(tree map[string]interface{}, path string, value interface{}) error {
	if value == nil {
		return nil
	}
	vRequires(strings.HasPrefix(path, "$."))
	vRequires(simpleName(path[2:]))
	tree[path[2:]] = value
	return nil
}

// child gives what the child for a field yields.
//
//vc:merge
func childValue(t *objectTransformer, name string, in interface{}, modifier pathModifier) interface{} {
	c, ok := t.children[name]
	if !ok {
		return nil
	}
	v, _ := c.transform(in, modifier)
	return v
}

//vc:merge
func childFails(t *objectTransformer, name string, in interface{}, modifier pathModifier) bool {
	c, ok := t.children[name]
	if !ok {
		return false
	}
	_, err := c.transform(in, modifier)
	return err != nil
}

//vc:target (*objectTransformer).transform props=C07,C02 safety=C03 frame=C01,C02 implements=transform.instanceTransformer.transform nonative
func vcObject(ot *objectTransformer, in interface{}, modifier pathModifier, probe string) {
	v, err := ot.transform(in, modifier)
	if ot.format != jsonInput && ot.format != xmlInput {
		vEnsures("C07: an unknown format is an error", err != nil && v == nil)
		return
	}
	base := ot.defaultValue
	if ot.transforms != nil {
		tv, terr := ot.transforms.transform(in, "object", modifier, ot.format)
		if terr != nil {
			vEnsures("C07: an error of the transform is returned", err != nil && v == nil)
			return
		}
		if ot.format == jsonInput && tv != nil {
			m, ok := tv.(map[string]interface{})
			if !ok {
				vEnsures("C07: only objects can be the base of an object", err != nil && v == nil)
				return
			}
			if m != nil {
				base = m
			}
		}
		if ot.format == xmlInput {
			if tv == nil {
				vEnsures("C07: the default if the node is not found", err == nil && (ot.defaultValue == nil && v == nil || ot.defaultValue != nil && vSame[interface{}](v, ot.defaultValue)))
				return
			}
			if s, ok := tv.(string); ok && s == "" {
				vEnsures("C07: an empty node yields nothing", err == nil && v == nil)
				return
			}
			n, ok := tv.(*xmlquery.Node)
			ns, oks := tv.([]*xmlquery.Node)
			if !ok && !oks {
				vEnsures("C07: only nodes can be the base of an object", err != nil && v == nil)
				return
			}
			if ok {
				in = n
			} else if len(ns) > 0 {
				in = ns[0]
			}
		}
	}
	if !vAllKeys(ot.children, func(k string) bool { return !childFails(ot, k, in, modifier) }) {
		vEnsures("C07: a failing field fails the object", err != nil && v == nil)
		return
	}
	vEnsures("C07: no error if no field fails", err == nil)
	want, has := base[probe]
	if c := childValue(ot, probe, in, modifier); c != nil {
		want, has = c, true
	}
	if v == nil {
		vEnsures("C07: nothing only if there is no field", !has)
		return
	}
	m, ok := v.(map[string]interface{})
	vEnsures("C07: an object yields an object", ok && len(m) > 0)
	got, hasGot := m[probe]
	vEnsures("C07,C02: every field has the value of its child, or that of the base", has == hasGot && (!has || vSame(got, want)))
}

//vc:inv (*objectTransformer).transform
func invFields(v_in interface{}, p_ot *objectTransformer, p_modifier pathModifier, modOut, modoldOut map[string]interface{}) bool {
	return vAllKeys(modOut, func(k string) bool {
		got, hasGot := modOut[k]
		want, has := modoldOut[k]
		if c := childValue(p_ot, k, v_in, p_modifier); vSeen(k) && c != nil {
			want, has = c, true
		}
		return has == hasGot && (!has || got == want)
	})
}

//vc:inv (*objectTransformer).transform
func invNoFailure(v_in interface{}, p_ot *objectTransformer, p_modifier pathModifier) bool {
	return vAllKeys(p_ot.children, func(k string) bool { return !vSeen(k) || !childFails(p_ot, k, v_in, p_modifier) })
}
