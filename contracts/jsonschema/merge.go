package jsonschema

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"strings"

	"github.com/GannettDigital/gojsonschema"
)

//vc:pure strconv.FormatBool;path/filepath.Abs;path/filepath.Base;os.ReadFile

// what the cache does for a key it does not hold (its contract: C18)
//
//vc:stub self (*Cache[*Schema]).Load
func stubCacheLoad(c *Cache[*Schema], key string, build func() (*Schema, error)) (*Schema, error) {
	return build()
}

// the decoder makes the list of required names
//
//vc:stub encoding/json.Unmarshal for=schemaFromFile
func stubUnmarshalOwn(data []byte, v interface{}) error {
	err := stubUnmarshal(data, v)
	if p, ok := v.(*Instance); ok && err == nil {
		required := p.Required
		p.Required = vSeq(len(required), func(i int) string { return required[i] })
	}
	return err
}

//vc:stub self NewValidator
func stubNewValidator(path string) (*validator, error) {
	if vUF[bool]("no_validator", path) {
		return nil, fmt.Errorf("no validator")
	}
	return &validator{schema: vUF[*gojsonschema.Schema]("engine", path)}, nil
}

//vc:stub self dereference
func stubDereference(schemaPath string, data json.RawMessage, oneOfType string, flatten bool) (json.RawMessage, error) {
	return resolved(schemaPath, data, oneOfType, flatten), unresolved(schemaPath, data, oneOfType, flatten)
}

func resolved(schemaPath string, data json.RawMessage, oneOfType string, flatten bool) json.RawMessage {
	return vUF[json.RawMessage]("resolved", schemaPath, data, oneOfType, flatten)
}

func unresolved(schemaPath string, data json.RawMessage, oneOfType string, flatten bool) error {
	return vUF[error]("unresolved", schemaPath, data, oneOfType, flatten)
}

// merged: the properties of parent together with those of child (what that is: contract of mergeProperties)
func merged(parent, child map[string]json.RawMessage) map[string]json.RawMessage {
	return vUF[map[string]json.RawMessage]("merged", parent, child)
}

//vc:stub self mergeProperties
func stubMergeProperties(parent, child map[string]json.RawMessage) map[string]json.RawMessage {
	return merged(parent, child)
}

// --- the parts that count

// taken: allOf part i of a schema is merged
func takesAll(flatten bool, props map[string]json.RawMessage) bool { return flatten || props == nil }

func takesOne(part Instance, oneOfType string) bool {
	return strings.Split(filepath.Base(part.FromRef), ".")[0] == oneOfType
}

// specAll: the properties with those of the first n allOf parts
//
//vc:rec
func specAll(props map[string]json.RawMessage, parts []Instance, flatten bool, n int) map[string]json.RawMessage {
	if n <= 0 || !takesAll(flatten, props) {
		return props
	}
	return merged(specAll(props, parts, flatten, n-1), parts[n-1].Properties)
}

// specOne: the properties with those of the matching ones among the first n oneOf parts
//
//vc:rec
func specOne(props map[string]json.RawMessage, parts []Instance, oneOfType string, n int) map[string]json.RawMessage {
	if n <= 0 {
		return props
	}
	if !takesOne(parts[n-1], oneOfType) {
		return specOne(props, parts, oneOfType, n-1)
	}
	return merged(specOne(props, parts, oneOfType, n-1), parts[n-1].Properties)
}

// specAllItems: the items of the schema or of the first of n allOf parts that has some
//
//vc:rec
func specAllItems(items json.RawMessage, props map[string]json.RawMessage, parts []Instance, flatten bool, n int) json.RawMessage {
	if n <= 0 || !takesAll(flatten, props) {
		return items
	}
	if before := specAllItems(items, props, parts, flatten, n-1); before != nil {
		return before
	}
	return parts[n-1].Items
}

//vc:rec
func specOneItems(items json.RawMessage, parts []Instance, oneOfType string, n int) json.RawMessage {
	if n <= 0 {
		return items
	}
	before := specOneItems(items, parts, oneOfType, n-1)
	if before != nil || !takesOne(parts[n-1], oneOfType) {
		return before
	}
	return parts[n-1].Items
}

//vc:target schemaFromFile props=C17 safety=C17 nonative
func vcSchemaFromFile(file, oneOfType string, flatten bool) {
	s, err := schemaFromFile(file, oneOfType, flatten)
	path, perr := filepath.Abs(file)
	data, rerr := os.ReadFile(path)
	if perr != nil || rerr != nil || vUF[bool]("no_validator", path) || unresolved(path, data, oneOfType, flatten) != nil {
		vEnsures("C17: a schema that cannot be read is an error", err != nil && s == nil)
		return
	}
	def := Instance{AdditionalProperties: true}
	if json.Unmarshal(resolved(path, data, oneOfType, flatten), &def) != nil {
		vEnsures("C17: a malformed schema is an error", err != nil && s == nil)
		return
	}
	vEnsures("C17: a schema that can be read is loaded", err == nil && s != nil)
	all := specAll(def.Properties, def.AllOf, flatten, len(def.AllOf))
	vEnsures("C17: the properties are those of the schema, its allOf parts and the matching oneOf parts", sameProps(s.Properties, specOne(all, def.OneOf, oneOfType, len(def.OneOf))))
	items := specAllItems(def.Items, def.Properties, def.AllOf, flatten, len(def.AllOf))
	vEnsures("C17: the items are those of the first source that has some", sameItems(s.Items, specOneItems(items, def.OneOf, oneOfType, len(def.OneOf))))
	vEnsures("C17: the other fields are those of the schema", s.AdditionalProperties == def.AdditionalProperties && s.Description == def.Description && s.Format == def.Format && vSame(s.Type, def.Type))
}

func sameItems(a, b json.RawMessage) bool { return vSame(a, b) && (a == nil) == (b == nil) }

func sameProps(a, b map[string]json.RawMessage) bool { return vSame(a, b) && (a == nil) == (b == nil) }

// read gives the definition a schema is made of.
func read(file, oneOfType string, flatten bool) Instance {
	path, _ := filepath.Abs(file)
	data, _ := os.ReadFile(path)
	def := Instance{AdditionalProperties: true}
	if json.Unmarshal(resolved(path, data, oneOfType, flatten), &def) != nil {
		return Instance{}
	}
	return def
}

//vc:inv schemaFromFile
func invAll(p_file, p_oneOfType string, p_flatten bool, v_s *Schema, iter int) bool {
	def := read(p_file, p_oneOfType, p_flatten)
	return iter <= len(def.AllOf) && vIdent(v_s.Properties, specAll(def.Properties, def.AllOf, p_flatten, iter))
}

//vc:inv schemaFromFile
func invAllItems(p_file, p_oneOfType string, p_flatten bool, v_s *Schema, iter int) bool {
	def := read(p_file, p_oneOfType, p_flatten)
	return iter <= len(def.AllOf) && sameItems(v_s.Items, specAllItems(def.Items, def.Properties, def.AllOf, p_flatten, iter))
}

//vc:inv schemaFromFile
func invOne(p_file, p_oneOfType string, p_flatten bool, v_s *Schema, iter int) bool {
	def := read(p_file, p_oneOfType, p_flatten)
	all := specAll(def.Properties, def.AllOf, p_flatten, len(def.AllOf))
	return iter <= len(def.OneOf) && vIdent(v_s.Properties, specOne(all, def.OneOf, p_oneOfType, iter))
}

//vc:inv schemaFromFile
func invOneItems(p_file, p_oneOfType string, p_flatten bool, v_s *Schema, iter int) bool {
	def := read(p_file, p_oneOfType, p_flatten)
	items := specAllItems(def.Items, def.Properties, def.AllOf, p_flatten, len(def.AllOf))
	return iter <= len(def.OneOf) && sameItems(v_s.Items, specOneItems(items, def.OneOf, p_oneOfType, iter))
}

//vc:inv schemaFromFile
func invRequired(v_s *Schema) bool { return vFresh(v_s.Required) }
