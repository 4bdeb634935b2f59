package jsonschema

import (
	"encoding/json"
	"errors"
	"strings"

	"github.com/GannettDigital/jsonparser"
)

//vc:stub encoding/json.Unmarshal
func stubUnmarshal(data []byte, v interface{}) error {
	p, ok := v.(*Instance)
	if !ok {
		vUnsupported("json.Unmarshal")
	}
	if vUF[bool]("json_bad_instance", data) {
		return errors.New("json")
	}
	p.AdditionalProperties = p.AdditionalProperties || vUF[bool]("inst_additional", data)
	p.AllOf = vUF[[]Instance]("inst_all", data)
	p.OneOf = vUF[[]Instance]("inst_one", data)
	p.Description = vUF[string]("inst_description", data)
	p.Format = vUF[string]("inst_format", data)
	p.FromRef = vUF[string]("inst_fromref", data)
	p.GraphQLArguments = vUF[[]string]("inst_args", data)
	p.Items = vUF[json.RawMessage]("inst_items", data)
	p.Properties = vUF[map[string]json.RawMessage]("inst_properties", data)
	p.Ref = vUF[string]("inst_ref", data)
	p.Required = vUF[[]string]("inst_required", data)
	p.Target = vUF[string]("inst_target", data)
	p.Type = vUF[[]string]("inst_type", data)
	return nil
}

// specHas: the first n strings of the list contain s
//
//vc:rec
func specHas(list []string, s string, n int) bool {
	if n <= 0 {
		return false
	}
	return list[n-1] == s || specHas(list, s, n-1)
}

//vc:stub golang.org/x/exp/slices.Contains
func stubContains(list []string, s string) bool { return specHas(list, s, len(list)) }

// --- ghost state: how often each path was walked and with which definition

func walked() map[string]int       { return vUF[map[string]int]("walked") }
func walkedDef() map[string]string { return vUF[map[string]string]("walked_definition") }

// walkResult: the error of walking a definition at a path
func walkResult(def json.RawMessage, path string) error { return vUF[error]("walk_result", def, path) }

func walk(def json.RawMessage, path string) error {
	walked()[path]++
	walkedDef()[path] = string(def)
	return walkResult(def, path)
}

//vc:stub self walkInstance
func stubWalkInstance(raw json.RawMessage, path string, walkFn WalkInstanceFunc) error {
	return walk(raw, path)
}

// childName: the property of the object at path that probe is the path of
//
//vc:merge
func childName(path, probe string) string {
	if !strings.HasPrefix(probe, path+".") {
		return ""
	}
	return probe[len(path)+1:]
}

func isChild(path, probe string, props map[string]json.RawMessage) bool {
	if !strings.HasPrefix(probe, path+".") {
		return false
	}
	_, ok := props[probe[len(path)+1:]]
	return ok
}

// properties have names
func named(props map[string]json.RawMessage) bool {
	_, ok := props[""]
	return !ok
}

//vc:target walkInstance props=C15 safety=C15 frame=C15 nonative
func vcWalkInstance(raw json.RawMessage, path, probe string, fail bool) {
	times, defs := walked(), walkedDef()
	vRequires(times != nil && defs != nil && path != "")
	before := vCopyMap(times)
	vModifies(times)
	vModifies(defs)
	var def Instance
	bad := json.Unmarshal(raw, &def) != nil
	vRequires(named(def.Properties))
	calls, right, first := 0, true, true
	failure := errors.New("callback")
	err := walkInstance(raw, path, func(p string, i Instance) error {
		calls++
		right = right && p == path && vSame(i, def)
		first = first && times[probe] == before[probe]
		if fail {
			return failure
		}
		return nil
	})
	if bad {
		vEnsures("C15: a malformed definition is an error", err != nil && calls == 0)
		return
	}
	vEnsures("C15: the callback is called once with the path and definition of the instance", calls == 1 && right)
	vEnsures("C15: an instance comes before its children", first)
	if fail {
		vEnsures("C15: an error of the callback stops the walk and is returned", err != nil && times[probe] == before[probe])
		return
	}
	switch {
	case specHas(def.Type, "object", len(def.Type)):
		if def.Properties == nil {
			vEnsures("C15: an object without properties is an error", err != nil)
			return
		}
		vEnsures("C15: an error is returned exactly if one of a child is", (err == nil) == vAllKeys(def.Properties, func(k string) bool {
			v, ok := def.Properties[k]
			return !ok || walkResult(v, path+"."+k) == nil
		}))
		if err != nil {
			return
		}
		if isChild(path, probe, def.Properties) {
			vEnsures("C15: every property is walked once", times[probe] == before[probe]+1)
			vEnsures("C15: every property is walked with its definition", defs[probe] == string(def.Properties[childName(path, probe)]))
		} else {
			vEnsures("C15: nothing but the properties is walked", times[probe] == before[probe])
		}
	case specHas(def.Type, "array", len(def.Type)):
		if def.Items == nil {
			vEnsures("C15: an array without items is an error", err != nil)
			return
		}
		vEnsures("C15: an error is returned exactly if the items give one", (err == nil) == (walkResult(def.Items, path+"[*]") == nil))
		vEnsures("C15: the items are walked once with their definition", probe != path+"[*]" || times[probe] == before[probe]+1 && defs[probe] == string(def.Items))
		vEnsures("C15: nothing but the items is walked", probe == path+"[*]" || times[probe] == before[probe])
	default:
		vEnsures("C15: a scalar has no children", err == nil && times[probe] == before[probe])
	}
}

//vc:inv walkInstance
func invWalked(p_raw json.RawMessage, p_path string, modT, modoldT map[string]int) bool {
	props := vUF[map[string]json.RawMessage]("inst_properties", []byte(p_raw))
	return vAllKeys(modT, func(p string) bool {
		if isChild(p_path, p, props) && vSeen(childName(p_path, p)) {
			return modT[p] == modoldT[p]+1
		}
		return modT[p] == modoldT[p]
	})
}

//vc:inv walkInstance
func invWalkedDefs(p_raw json.RawMessage, p_path string, modD map[string]string) bool {
	props := vUF[map[string]json.RawMessage]("inst_properties", []byte(p_raw))
	return vAllKeys(props, func(k string) bool {
		v, ok := props[k]
		return !ok || !vSeen(k) || modD[p_path+"."+k] == string(v)
	})
}

//vc:inv walkInstance
func invWalkedOK(p_raw json.RawMessage, p_path string) bool {
	props := vUF[map[string]json.RawMessage]("inst_properties", []byte(p_raw))
	return vAllKeys(props, func(k string) bool {
		v, ok := props[k]
		return !ok || !vSeen(k) || walkResult(v, p_path+"."+k) == nil
	})
}

// --- raw definitions

//vc:merge
func objLen(obj []byte) int {
	if n := vUF[int]("obj_len", obj); n > 0 {
		return n
	}
	return 0
}
func objKey(obj []byte, i int) []byte { return vUF[[]byte]("obj_key", obj, i) }
func objVal(obj []byte, i int) []byte { return vUF[[]byte]("obj_val", obj, i) }
func objErr(obj []byte) error         { return vUF[error]("obj_err", obj) }

// the callback gets every property up to the first error of its own or in the text
//
//vc:stub github.com/GannettDigital/jsonparser.ObjectEach
func stubObjectEach(data []byte, cb func(key, value []byte, dataType jsonparser.ValueType, offset int) error, keys ...string) error {
	obj := data
	if len(keys) > 0 {
		v, _, _, err := jsonparser.Get(data, keys...)
		if err != nil {
			return err
		}
		obj = v
	}
	n := objLen(obj)
	for i := 0; i < n; i++ {
		if err := cb(objKey(obj, i), objVal(obj, i), vUF[jsonparser.ValueType]("obj_type", obj, i), vUF[int]("obj_off", obj, i)); err != nil {
			return err
		}
	}
	return objErr(obj)
}

//vc:stub self walkRaw
func stubWalkRaw(raw json.RawMessage, path string, walkFn WalkRawFunc) error {
	return walk(raw, path)
}

// propPath: the path of property i of the object at path
func propPath(obj []byte, path string, i int) string {
	if len(objKey(obj, i)) == 0 {
		return path
	}
	return path + "." + string(objKey(obj, i))
}

// specTimes: start plus how many of the first n properties have the path probe
//
//vc:rec
func specTimes(obj []byte, path, probe string, start, n int) int {
	if n <= 0 {
		return start
	}
	if propPath(obj, path, n-1) == probe {
		return specTimes(obj, path, probe, start, n-1) + 1
	}
	return specTimes(obj, path, probe, start, n-1)
}

// specDef: the definition of the last of the first n properties with the path probe
//
//vc:rec
func specDef(obj []byte, path, probe, none string, n int) string {
	if n <= 0 {
		return none
	}
	if propPath(obj, path, n-1) == probe {
		return string(objVal(obj, n-1))
	}
	return specDef(obj, path, probe, none, n-1)
}

//vc:target walkRaw props=C15 safety=C15 frame=C15 nonative
func vcWalkRaw(raw json.RawMessage, path, probe string, fail bool) {
	times, defs := walked(), walkedDef()
	vRequires(times != nil && defs != nil && path != "")
	before, defBefore := times[probe], defs[probe]
	vModifies(times)
	vModifies(defs)
	calls, right, first := 0, true, true
	failure := errors.New("callback")
	err := walkRaw(raw, path, func(p string, v json.RawMessage) error {
		calls++
		right = right && p == path && string(v) == string(raw)
		first = first && times[probe] == before
		if fail {
			return failure
		}
		return nil
	})
	vEnsures("C15: the callback is called once with the path and definition of the instance", calls == 1 && right)
	vEnsures("C15: an instance comes before its children", first)
	if fail {
		vEnsures("C15: an error of the callback stops the walk and is returned", err != nil && times[probe] == before)
		return
	}
	kind, _, kerr := FieldType(raw)
	switch {
	case kerr != nil:
		vEnsures("C15: a definition without a type is an error", err != nil && times[probe] == before)
	case kind == "object":
		obj, _, _, oerr := jsonparser.Get(raw, "properties")
		if oerr != nil {
			vEnsures("C15: an object without properties is an error", err != nil)
			return
		}
		n := objLen(obj)
		vEnsures("C15: an error is returned exactly if one of a child is or the text is malformed", (err == nil) == (objErr(obj) == nil && vAll(n, func(i int) bool {
			return walkResult(objVal(obj, i), propPath(obj, path, i)) == nil
		})))
		if err == nil {
			vEnsures("C15: every property is walked once, nothing else is", times[probe] == specTimes(obj, path, probe, before, n))
			vEnsures("C15: every property is walked with its definition", defs[probe] == specDef(obj, path, probe, defBefore, n))
		}
	case kind == "array":
		items, _, _, ierr := jsonparser.Get(raw, "items")
		if ierr != nil {
			vEnsures("C15: an array without items is an error", err != nil)
			return
		}
		vEnsures("C15: an error is returned exactly if the items give one", (err == nil) == (walkResult(items, path+"[*]") == nil))
		vEnsures("C15: the items are walked once with their definition", probe != path+"[*]" || times[probe] == before+1 && defs[probe] == string(items))
		vEnsures("C15: nothing but the items is walked", probe == path+"[*]" || times[probe] == before)
	default:
		vEnsures("C15: a scalar has no children", err == nil && times[probe] == before)
	}
}

//vc:inv walkRaw
func invRawTimes(p_raw json.RawMessage, p_path string, modT, modoldT map[string]int, iter int) bool {
	obj, _, _, _ := jsonparser.Get(p_raw, "properties")
	return vAllKeys(modT, func(p string) bool { return modT[p] == specTimes(obj, p_path, p, modoldT[p], iter) })
}

//vc:inv walkRaw
func invRawDefs(p_raw json.RawMessage, p_path string, modD, modoldD map[string]string, iter int) bool {
	obj, _, _, _ := jsonparser.Get(p_raw, "properties")
	return vAllKeys(modD, func(p string) bool { return modD[p] == specDef(obj, p_path, p, modoldD[p], iter) })
}

//vc:inv walkRaw
func invRawOK(p_raw json.RawMessage, p_path string, iter int) bool {
	obj, _, _, _ := jsonparser.Get(p_raw, "properties")
	return iter <= objLen(obj) && vAll(iter, func(i int) bool { return walkResult(objVal(obj, i), propPath(obj, p_path, i)) == nil })
}

// --- the root

func reqRoot(s *Schema) bool {
	return s != nil && named(s.Properties)
}

//vc:target Walk props=C15 safety=C15 frame=C15 nonative
func vcWalk(s *Schema, probe string) {
	vRequires(reqRoot(s))
	times, defs := walked(), walkedDef()
	vRequires(times != nil && defs != nil)
	before := times[probe]
	vModifies(times)
	vModifies(defs)
	err := Walk(s, func(path string, i Instance) error { return nil })
	rootWalked(s, probe, before, times, defs, err)
}

//vc:target WalkRaw props=C15 safety=C15 frame=C15 nonative
func vcWalkRawRoot(s *Schema, probe string) {
	vRequires(reqRoot(s))
	times, defs := walked(), walkedDef()
	vRequires(times != nil && defs != nil)
	before := times[probe]
	vModifies(times)
	vModifies(defs)
	err := WalkRaw(s, func(path string, value json.RawMessage) error { return nil })
	rootWalked(s, probe, before, times, defs, err)
}

func rootWalked(s *Schema, probe string, before int, times map[string]int, defs map[string]string, err error) {
	vEnsures("C15: an error is returned exactly if one of a property or of the items is", (err == nil) == (vAllKeys(s.Properties, func(k string) bool {
		v, ok := s.Properties[k]
		return !ok || walkResult(v, "$."+k) == nil
	}) && (s.Items == nil || walkResult(s.Items, "$[*]") == nil)))
	if err != nil {
		return
	}
	switch {
	case isChild("$", probe, s.Properties):
		vEnsures("C15: every property of the root is walked once with its definition", times[probe] == before+1 && defs[probe] == string(s.Properties[childName("$", probe)]))
	case probe == "$[*]" && s.Items != nil:
		vEnsures("C15: the items of the root are walked once with their definition", times[probe] == before+1 && defs[probe] == string(s.Items))
	default:
		vEnsures("C15: nothing but the properties and items of the root is walked", times[probe] == before)
	}
}

//vc:inv Walk WalkRaw
func invRootWalked(p_s *Schema, modT, modoldT map[string]int) bool {
	return vAllKeys(modT, func(p string) bool {
		if isChild("$", p, p_s.Properties) && vSeen(childName("$", p)) {
			return modT[p] == modoldT[p]+1
		}
		return modT[p] == modoldT[p]
	})
}

//vc:inv Walk WalkRaw
func invRootDefs(p_s *Schema, modD map[string]string) bool {
	return vAllKeys(p_s.Properties, func(k string) bool {
		v, ok := p_s.Properties[k]
		return !ok || !vSeen(k) || modD["$."+k] == string(v)
	})
}

//vc:inv Walk WalkRaw
func invRootOK(p_s *Schema) bool {
	return vAllKeys(p_s.Properties, func(k string) bool {
		v, ok := p_s.Properties[k]
		return !ok || !vSeen(k) || walkResult(v, "$."+k) == nil
	})
}
