package jsonschema

import (
	"encoding/json"

	"github.com/GannettDigital/gojsonschema"
)

//vc:target prependJSONPath inline props=C15 safety=C15
func vcPrependJSONPath(parent, child string) {
	p := prependJSONPath(parent, child)
	switch {
	case parent == "":
		vEnsures("C15: the path of a root is its name", p == child)
	case child == "":
		vEnsures("C15: no name adds nothing", p == parent)
	default:
		vEnsures("C15: the path is the path of the parent with .name", p == parent+"."+child)
	}
}

// --- merging

// two maps
func reqMerge(parent, child map[string]json.RawMessage) bool {
	return parent == nil || !vSame(parent, child)
}

//vc:target mergeProperties req=reqMerge props=C17 safety=C17 frame=C17
func vcMergeProperties(parent, child map[string]json.RawMessage) {
	old := vCopyMap(parent)
	vModifies(parent)
	out := mergeProperties(parent, child)
	vEnsures("C17: a property which is there is not replaced", vAllKeys(old, func(k string) bool {
		o, was := old[k]
		v, is := out[k]
		return !was || is && vSame(o, v)
	}))
	vEnsures("C17: every property of the part is present", vAllKeys(child, func(k string) bool {
		_, was := old[k]
		c, in := child[k]
		v, is := out[k]
		return was || !in || is && vSame(c, v)
	}))
	vEnsures("C17: there is no other property", vAllKeys(out, func(k string) bool {
		_, was := old[k]
		_, in := child[k]
		_, is := out[k]
		return !is || was || in
	}))
	vEnsures("C17: the merged properties exist", out != nil)
}

//vc:inv mergeProperties
func invMerge(p_child, modNew, modoldNew map[string]json.RawMessage) bool {
	return vAllKeys(modNew, func(k string) bool {
		v, ok := modNew[k]
		o, was := modoldNew[k]
		c, in := p_child[k]
		if was {
			return ok && vSame(v, o)
		}
		return ok == (in && vSeen(k)) && (!ok || vSame(v, c))
	})
}

// --- validation

//vc:pure github.com/GannettDigital/gojsonschema.NewBytesLoader;(*github.com/GannettDigital/gojsonschema.Schema).Validate;(*github.com/GannettDigital/gojsonschema.Result).Errors;(*github.com/GannettDigital/gojsonschema.Result).Valid
//vc:iface jsonschema.Validator.Validate

// a result is valid if it has no errors
//
//vc:extfacts (*github.com/GannettDigital/gojsonschema.Result).Valid
func factValid(r *gojsonschema.Result, ok bool) bool { return ok == (len(r.Errors()) == 0) }

//vc:extfacts (*github.com/GannettDigital/gojsonschema.Schema).Validate
func factEngine(s *gojsonschema.Schema, l gojsonschema.JSONLoader, r *gojsonschema.Result, err error) bool {
	return err != nil || r != nil
}

//vc:stub sort.Slice
func stubSlice(x interface{}, less func(i, j int) bool) {}

func reqValidator(v *validator, raw json.RawMessage) bool { return v.schema != nil }

//vc:target (*validator).Validate req=reqValidator props=C19,C04 safety=C19 frame=C19 nonative
func vcValidate(v *validator, raw json.RawMessage) {
	ok, err := v.Validate(raw)
	res, rerr := v.schema.Validate(gojsonschema.NewBytesLoader(raw))
	if rerr != nil {
		vEnsures("C19,C04: a failure of the engine is an error with the answer false", err != nil && !ok)
		return
	}
	if len(res.Errors()) > 0 {
		vEnsures("C19,C04: a validation error is an error with the answer false", err != nil && !ok)
		return
	}
	vEnsures("C19: a document without validation errors is valid", err == nil && ok)
}

//vc:target (*Schema).Validate inline req=reqSchema props=C19,C04 safety=C19 frame=C19 nonative
func vcSchemaValidate(s *Schema, raw json.RawMessage) {
	ok, err := s.Validate(raw)
	want, werr := s.Validator.Validate(raw)
	vEnsures("C19,C04: the schema answers what its validator answers", ok == want && vSame(err, werr))
}

func reqSchema(s *Schema, raw json.RawMessage) bool { return s.Validator != nil }
