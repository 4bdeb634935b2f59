package transform

import (
	"strconv"
	"time"
)

//vc:pure strconv.Atoi;strconv.ParseFloat;strconv.ParseBool;strconv.ParseInt;strconv.FormatBool;strconv.FormatFloat;strconv.FormatUint;strconv.FormatInt
//vc:pure time.Parse;time.Unix;(time.Time).UTC;(time.Time).IsZero;(time.Time).Format

// specScalarOf: the conversion of a value which is not unwrapped.
func specScalarOf(raw interface{}, jsonType string) (interface{}, error) {
	if jsonType == "boolean" {
		return convertBoolean(raw)
	}
	if jsonType == "number" || jsonType == "integer" {
		return convertNumber(raw)
	}
	if jsonType == "string" {
		return convertString(raw)
	}
	if jsonType == "date-time" {
		return convertDateTime(raw)
	}
	return raw, nil
}

// specConvert: an array stands for its first element unless an array of several elements is wanted.
func specConvert(raw interface{}, jsonType string) (interface{}, error) {
	if raw == nil {
		return nil, nil
	}
	a, ok := raw.([]interface{})
	if !ok {
		return specScalarOf(raw, jsonType)
	}
	if len(a) == 0 {
		return nil, nil
	}
	if len(a) > 1 && jsonType == "array" {
		return raw, nil
	}
	if b, ok := a[0].([]interface{}); ok && len(b) > 0 {
		return convert(b[0], jsonType)
	}
	return specScalarOf(a[0], jsonType)
}

// a value which cannot be converted is no value
func factConvert(raw interface{}, jsonType string, v interface{}, err error) bool {
	return err == nil || v == nil
}

func factConvertTo(raw, v interface{}, err error) bool { return err == nil || v == nil }

//vc:target convert props=C10,C05,C06 safety=C03,C10 frame=C01,C10 facts=factConvert
func vcConvert(raw interface{}, jsonType string) {
	v, err := convert(raw, jsonType)
	want, werr := specConvert(raw, jsonType)
	vEnsures("C10: an error exactly for the values which have no conversion", (err == nil) == (werr == nil))
	vEnsures("C10,C05,C06: the value converted to the type of the field", vSame(v, want))
}

func specBool(raw interface{}) (interface{}, bool) {
	if b, ok := raw.(bool); ok {
		return b, true
	}
	if s, ok := raw.(string); ok {
		if s == "" {
			return false, true
		}
		b, err := strconv.ParseBool(s)
		if err != nil {
			return nil, false
		}
		return b, true
	}
	if n, ok := raw.(int); ok {
		return n > 0, true
	}
	if n, ok := raw.(float32); ok {
		return n > 0, true
	}
	if n, ok := raw.(float64); ok {
		return n > 0, true
	}
	return nil, raw == nil
}

func specNumber(raw interface{}) (interface{}, bool) {
	if b, ok := raw.(bool); ok {
		if b {
			return 1, true
		}
		return 0, true
	}
	if s, ok := raw.(string); ok {
		if s == "" {
			return nil, true
		}
		n, err := strconv.Atoi(s)
		if err == nil {
			return n, true
		}
		f, err := strconv.ParseFloat(s, 64)
		if err == nil {
			return f, true
		}
		return nil, false
	}
	if n, ok := raw.(int); ok {
		return n, true
	}
	if n, ok := raw.(float32); ok {
		return n, true
	}
	if n, ok := raw.(float64); ok {
		return n, true
	}
	return nil, false
}

func specString(raw interface{}) (interface{}, bool) {
	if b, ok := raw.(bool); ok {
		return strconv.FormatBool(b), true
	}
	if s, ok := raw.(string); ok {
		return s, true
	}
	if n, ok := raw.(int); ok {
		return strconv.Itoa(n), true
	}
	if n, ok := raw.(uint64); ok {
		return strconv.FormatUint(n, 10), true
	}
	if n, ok := raw.(float32); ok {
		return strconv.FormatFloat(float64(n), 'f', -1, 32), true
	}
	if n, ok := raw.(float64); ok {
		return strconv.FormatFloat(n, 'f', -1, 64), true
	}
	return nil, raw == nil
}

func specTime(raw interface{}) (interface{}, bool) {
	if s, ok := raw.(string); ok {
		if s == "" {
			return nil, true
		}
		t, err := time.Parse(time.RFC3339, s)
		if err != nil {
			return nil, false
		}
		if t.IsZero() {
			return nil, true
		}
		return t, true
	}
	if n, ok := raw.(int); ok {
		return time.Unix(int64(n), 0).UTC(), true
	}
	if n, ok := raw.(float64); ok {
		return time.Unix(int64(n), 0).UTC(), true
	}
	return nil, false
}

//vc:target convertBoolean props=C10,C05 safety=C03,C10 facts=factConvertTo
func vcConvertBoolean(raw interface{}) {
	v, err := convertBoolean(raw)
	want, ok := specBool(raw)
	vEnsures("C10: an error exactly for the values which have no conversion to boolean", (err == nil) == ok)
	vEnsures("C10,C05: the boolean a value converts to", vSame(v, want))
}

//vc:target convertNumber props=C10 safety=C03,C10 facts=factConvertTo
func vcConvertNumber(raw interface{}) {
	v, err := convertNumber(raw)
	want, ok := specNumber(raw)
	vEnsures("C10: an error exactly for the values which have no conversion to number", (err == nil) == ok)
	vEnsures("C10: the number a value converts to", vSame(v, want))
}

//vc:target convertString props=C10 safety=C03,C10 facts=factConvertTo
func vcConvertString(raw interface{}) {
	v, err := convertString(raw)
	want, ok := specString(raw)
	vEnsures("C10: an error exactly for the values which have no conversion to string", (err == nil) == ok)
	vEnsures("C10: the string a value converts to", vSame(v, want))
}

//vc:target convertDateTime props=C10 safety=C03,C10 facts=factConvertTo
func vcConvertDateTime(raw interface{}) {
	v, err := convertDateTime(raw)
	want, ok := specTime(raw)
	vEnsures("C10: an error exactly for the values which have no conversion to date-time", (err == nil) == ok)
	vEnsures("C10: the time a value converts to", vSame(v, want))
}
