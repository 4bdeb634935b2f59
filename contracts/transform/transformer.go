package transform

import (
	"bytes"
	"encoding/json"
	"errors"

	"github.com/GannettDigital/jstransform/jsonschema"
	"github.com/antchfx/xmlquery"
)

//vc:pure encoding/json.Marshal;bytes.NewReader;github.com/antchfx/xmlquery.Parse
//vc:iface jsonschema.Validator.Validate

// a document which is parsed exists
//
//vc:extfacts github.com/antchfx/xmlquery.Parse
func factParse(r interface{}, n *xmlquery.Node, err error) bool { return (err == nil) == (n != nil) }

//vc:extfacts encoding/json.Marshal
func factMarshal(v interface{}, b []byte, err error) bool { return err == nil || b == nil }

// plain is the transformation of a document without validation.
func plain(tr *Transformer, raw json.RawMessage) (json.RawMessage, error) {
	var in interface{}
	if tr.format == jsonInput {
		if err := json.Unmarshal(raw, &in); err != nil {
			return nil, err
		}
	} else if tr.format == xmlInput {
		doc, err := xmlquery.Parse(bytes.NewReader(raw))
		if err != nil {
			return nil, err
		}
		in = doc
	} else {
		return nil, errors.New("unknown format")
	}
	v, err := tr.root.transform(in, nil)
	if err != nil {
		return nil, err
	}
	return json.Marshal(v)
}

func reqTransformer(tr *Transformer, raw json.RawMessage) bool {
	return tr.root != nil && itReady(tr.root) && tr.schema != nil && tr.schema.Validator != nil
}

//vc:target (*Transformer).TransformNoValidation req=reqTransformer props=C04,C05,C06,C07 safety=C03 frame=C01,C02 nonative
func vcTransformNoValidation(tr *Transformer, raw json.RawMessage) {
	out, err := tr.TransformNoValidation(raw)
	want, werr := plain(tr, raw)
	vEnsures("C04,C05,C06,C07: an error exactly if parsing, transformation or marshalling fails", (err == nil) == (werr == nil))
	vEnsures("C04: no output with an error", err == nil || out == nil)
	vEnsures("C04,C05,C06,C07: the marshalled result of the root instance", err != nil || vSame(out, want))
}

//vc:target (*Transformer).Transform req=reqTransformer props=C04 safety=C03 frame=C01,C02 nonative
func vcTransform(tr *Transformer, raw json.RawMessage) {
	out, err := tr.Transform(raw)
	want, werr := plain(tr, raw)
	vEnsures("C04: no output with an error", err == nil || out == nil)
	if err == nil {
		valid, verr := tr.schema.Validator.Validate(out)
		vEnsures("C04: the validator accepted exactly the output", valid && verr == nil)
		vEnsures("C04: the output TransformNoValidation returns", werr == nil && vSame(out, want))
		return
	}
	if werr == nil {
		valid, verr := tr.schema.Validator.Validate(want)
		vEnsures("C04: an error only for output the validator does not accept", !valid || verr != nil)
	}
}

//vc:stub encoding/json.Unmarshal
func stubUnmarshal(data []byte, v interface{}) error {
	if vUF[bool]("json_bad", data) {
		return errors.New("json")
	}
	switch p := v.(type) {
	case *interface{}:
		*p = vUF[interface{}]("json_any", data)
	case *struct {
		Default interface{} `json:"default"`
	}:
		p.Default = vUF[interface{}]("json_default", data)
	default:
		vUnsupported("json.Unmarshal")
	}
	return nil
}

var _ jsonschema.Validator
