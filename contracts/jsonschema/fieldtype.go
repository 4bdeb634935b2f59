package jsonschema

import (
	"errors"

	"github.com/GannettDigital/jsonparser"
)

//vc:pure github.com/GannettDigital/jsonparser.Get;errors.Is

// --- the elements of a JSON array

//vc:merge
func arrLen(data []byte) int {
	if n := vUF[int]("arr_len", data); n > 0 {
		return n
	}
	return 0
}
func arrVal(data []byte, i int) []byte { return vUF[[]byte]("arr_val", data, i) }
func arrType(data []byte, i int) jsonparser.ValueType {
	return vUF[jsonparser.ValueType]("arr_type", data, i)
}
func arrErr(data []byte) error { return vUF[error]("arr_err", data) }

// the callback gets every element up to the first malformed one
//
//vc:stub github.com/GannettDigital/jsonparser.ArrayEach
func stubArrayEach(data []byte, cb func(value []byte, dataType jsonparser.ValueType, offset int, err error), keys ...string) (int, error) {
	if len(keys) > 0 {
		vUnsupported("ArrayEach with a path")
	}
	n := arrLen(data)
	for i := 0; i < n; i++ {
		cb(arrVal(data, i), arrType(data, i), vUF[int]("arr_off", data, i), vUF[error]("arr_elem_err", data, i))
	}
	return vUF[int]("arr_end", data), arrErr(data)
}

// --- the type of a field

// specNull: one of the first n elements is null
//
//vc:rec
func specNull(list []byte, n int) bool {
	if n <= 0 {
		return false
	}
	if arrType(list, n-1) == jsonparser.String && string(arrVal(list, n-1)) == "null" {
		return true
	}
	return specNull(list, n-1)
}

// specName: the last type among the first n elements which is not null
//
//vc:rec
func specName(list []byte, n int) string {
	if n <= 0 {
		return ""
	}
	if arrType(list, n-1) == jsonparser.String && string(arrVal(list, n-1)) != "null" {
		return string(arrVal(list, n-1))
	}
	return specName(list, n-1)
}

// specUnion: the first n elements name more than one type
//
//vc:rec
func specUnion(list []byte, n int) bool {
	if n <= 0 {
		return false
	}
	if arrType(list, n-1) == jsonparser.String && string(arrVal(list, n-1)) != "null" && specName(list, n-1) != "" {
		return true
	}
	return specUnion(list, n-1)
}

//vc:target FieldType props=C16 safety=C16 frame=C16 nonative
func vcFieldType(data []byte) {
	name, nullable, err := FieldType(data)
	value, kind, _, gerr := jsonparser.Get(data, "type")
	switch {
	case gerr != nil && !errors.Is(gerr, jsonparser.KeyPathNotFoundError):
		vEnsures("C16: a definition that cannot be read is an error", err != nil)
	case kind == jsonparser.String:
		vEnsures("C16: the type is the string given, not nullable", err == nil && name == string(value) && !nullable)
	case kind == jsonparser.Array:
		n := arrLen(value)
		if specUnion(value, n) || arrErr(value) != nil {
			vEnsures("C16: a list naming two types or a malformed list is an error", err != nil)
			return
		}
		vEnsures("C16: the type is the entry of the list which is not null", err == nil && name == specName(value, n))
		vEnsures("C16: the field is nullable exactly if the list contains null", nullable == specNull(value, n))
	default:
		vEnsures("C16: a missing type or one of another kind is an error", err != nil)
	}
	vEnsures("C16: an error comes without a type", err == nil || name == "" && !nullable)
}

//vc:inv FieldType
func invFieldName(p_data []byte, acc string, iter int) bool {
	value, _, _, _ := jsonparser.Get(p_data, "type")
	return iter <= arrLen(value) && acc == specName(value, iter)
}

//vc:inv FieldType
func invFieldNull(p_data []byte, acc bool, iter int) bool {
	value, _, _, _ := jsonparser.Get(p_data, "type")
	return acc == specNull(value, iter)
}

//vc:inv FieldType
func invFieldUnion(p_data []byte, acc, init error, iter int) bool {
	value, _, _, _ := jsonparser.Get(p_data, "type")
	return (acc == nil) == (init == nil && !specUnion(value, iter))
}

// nothing is found where the error is that nothing is there
//
//vc:extfacts github.com/GannettDigital/jsonparser.Get
func factGet(data []byte, keys []string, value []byte, kind jsonparser.ValueType, offset int, err error) bool {
	return !errors.Is(err, jsonparser.KeyPathNotFoundError) || kind == jsonparser.NotExist
}
