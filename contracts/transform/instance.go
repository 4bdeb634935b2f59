package transform

import (
	"strings"

	jsonpath "github.com/GannettDigital/PaesslerAG_jsonpath"
	"github.com/antchfx/xmlquery"
)

// --- the transformer tree

//vc:iface transform.instanceTransformer.transform
//vc:iface transform.instanceTransformer.path
//vc:iface transform.instanceTransformer.child
//vc:iface transform.instanceTransformer.selectChild

// itReady: the instructions and the children of a built transformer exist.
//
//vc:rec
func itReady(it instanceTransformer) bool {
	switch t := it.(type) {
	case *scalarTransformer:
		return trReady(t.transforms)
	case *arrayTransformer:
		return trReady(t.transforms) && (t.childTransformer == nil || itReady(t.childTransformer))
	case *objectTransformer:
		return trReady(t.transforms) && vAllKeys(t.children, func(k string) bool {
			c, ok := t.children[k]
			return !ok || childReady(t, k, c)
		})
	}
	return false
}

func childReady(t *objectTransformer, name string, c instanceTransformer) bool {
	return c != nil && itReady(c) && strings.Replace(c.path(), t.jsonPath, "$", 1) == "$."+name && simpleName(name)
}

func simpleName(name string) bool {
	return !strings.Contains(name, ".") && !strings.Contains(name, "[")
}

func trReady(tis *transformInstructions) bool { return tis == nil || tisReady(tis) }

//vc:ifacereq transform.instanceTransformer.transform
func reqInstance(it instanceTransformer, in interface{}, modifier pathModifier) bool {
	return itReady(it)
}

// an instance which fails yields no value
//
//vc:ifacefacts transform.instanceTransformer.transform
func factInstance(it instanceTransformer, in interface{}, modifier pathModifier, v interface{}, err error) bool {
	return err == nil || v == nil
}

// --- scalars

//vc:target (*scalarTransformer).transform props=C05 safety=C03 frame=C01,C02 implements=transform.instanceTransformer.transform nonative
func vcScalar(st *scalarTransformer, in interface{}, modifier pathModifier) {
	v, err := st.transform(in, modifier)
	if st.format != jsonInput && st.format != xmlInput {
		vEnsures("C05: an unknown format is an error", err != nil && v == nil)
		return
	}
	if st.transforms != nil {
		tv, terr := st.transforms.transform(in, st.jsonType, modifier, st.format)
		if terr != nil {
			vEnsures("C05: an error of the transform is returned", err != nil && v == nil)
			return
		}
		if tv != nil {
			vEnsures("C05: the value of the transform comes first", err == nil && vSame(v, tv))
			return
		}
	}
	if st.format == jsonInput {
		raw, perr := jsonpath.Get(modified(modifier, st.jsonPath), in)
		if perr == nil {
			c, cerr := convert(raw, st.jsonType)
			if cerr == nil && c != nil {
				vEnsures("C05: then the converted value at the same path", err == nil && vSame(v, c))
				return
			}
		}
	}
	vEnsures("C05: then the schema default", err == nil && vSame(v, st.defaultValue))
}

var _ = xmlquery.Parse
