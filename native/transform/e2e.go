package transform

import (
	"bytes"
	"encoding/json"
	"errors"
	"sort"
	"strings"
	"sync"
)

func eRun(tr *Transformer, doc []byte) ([]byte, error) {
	return tr.TransformNoValidation(append([]byte{}, doc...))
}

// eCompare compares the real output with the reference.
func eCompare(root *eNode, got []byte, gotErr error, want []byte, wantErr error, what string) {
	if (gotErr != nil) != (wantErr != nil) {
		f := eFeatures(root)
		var ps []string
		for p := range f {
			ps = append(ps, p)
		}
		sort.Strings(ps)
		vCheck(false, strings.Join(ps, ","), "%s: got error %v, want error %v; got %s want %s", what, gotErr, wantErr, got, want)
		return
	}
	if gotErr != nil || bytes.Equal(got, want) {
		return
	}
	var g, w interface{}
	json.Unmarshal(got, &g)
	json.Unmarshal(want, &w)
	vCheck(false, eBlame(root, g, w, false), "%s: got %s want %s", what, got, want)
}

func eOracle(xml bool) func(g *vG) {
	return func(g *vG) {
		root, s := eSpec(g, xml, false)
		v := &vValidator{ok: true}
		schema, text := eSchema(root, v)
		vNote("schema: %s", text)
		tr, err := eTransformer(schema, xml)
		if err != nil {
			vCheck(false, "C13,C05,C06,C07", "a well-formed definition was rejected: %v", err)
			return
		}
		before := vDump(tr.root)
		for i := 0; i < 4; i++ {
			doc := s.doc(root)
			vNote("document %d: %s", i, doc)
			var want []byte
			var wantErr error
			skipped := false
			func() {
				defer func() {
					if r := recover(); r != nil {
						if _, ok := r.(vSkip); !ok {
							panic(r)
						}
						skipped = true
					}
				}()
				want, wantErr = eReference(root, doc, xml)
			}()
			got, gotErr := eRun(tr, doc)
			n := len(vCur.fails)
			if !skipped {
				eCompare(root, got, gotErr, want, wantErr, "transformed document")
			}
			again, againErr := eRun(tr, doc)
			vCheck((gotErr != nil) == (againErr != nil) && bytes.Equal(got, again), "C01,C02", "the same document again: got %s (%v), before %s (%v)", again, againErr, got, gotErr)
			if len(vCur.fails) > n || i == 3 {
				if tr2, err := eTransformer(schema, xml); err == nil {
					fresh, freshErr := eRun(tr2, doc)
					vCheck((gotErr != nil) == (freshErr != nil) && bytes.Equal(got, fresh), "C01,C02", "with a new transformer: got %s (%v), with the used one %s (%v)", fresh, freshErr, got, gotErr)
				}
			}
			after := vDump(tr.root)
			if !vCheck(before == after, "C01", "the transformer changed from\n%s\nto\n%s", before, after) {
				return
			}
		}
		if g.one(10) {
			// several goroutines share the transformer
			doc := s.doc(root)
			want, wantErr := eRun(tr, doc)
			var wg sync.WaitGroup
			outs := make([][]byte, 4)
			errs := make([]error, 4)
			for i := range outs {
				wg.Add(1)
				go func(i int) {
					defer wg.Done()
					for j := 0; j < 3; j++ {
						outs[i], errs[i] = eRun(tr, doc)
					}
				}(i)
			}
			wg.Wait()
			for i := range outs {
				vCheck((errs[i] != nil) == (wantErr != nil) && bytes.Equal(outs[i], want), "C01,C02", "in a goroutine: got %s (%v) want %s (%v)", outs[i], errs[i], want, wantErr)
			}
		}
	}
}

// eHostile looks for panics.
func eHostile(xml bool) func(g *vG) {
	return func(g *vG) {
		root, s := eSpec(g, xml, true)
		schema, text := eSchema(root, &vValidator{ok: true})
		vNote("schema: %s", text)
		tr, err := eTransformer(schema, xml)
		if err != nil {
			return
		}
		for i := 0; i < 3; i++ {
			var doc []byte
			switch g.Intn(4) {
			case 0:
				b, err := json.Marshal(vPlain(vJSONValue(g, 5)))
				if err == nil {
					doc = b
				}
				if xml {
					doc = []byte("<" + vString(g) + ">")
				}
			case 1:
				doc = []byte(vString(g))
			default:
				doc = s.doc(root)
			}
			vNote("document: %s", doc)
			tr.TransformNoValidation(doc)
			tr.Transform(doc)
		}
	}
}

func eValidate(g *vG) {
	xml := g.one(3)
	root, s := eSpec(g, xml, false)
	v := &vValidator{ok: !g.one(3)}
	if g.one(3) {
		v.err = errors.New("validation error")
	}
	schema, text := eSchema(root, v)
	vNote("schema: %s\nvalidator answers %v, %v", text, v.ok, v.err)
	tr, err := eTransformer(schema, xml)
	if err != nil {
		return
	}
	doc := s.doc(root)
	if g.one(8) {
		doc = append(doc, '<', '{')
	}
	vNote("document: %s", doc)
	plain, plainErr := tr.TransformNoValidation(append([]byte{}, doc...))
	vCheck(len(v.got) == 0, "C04", "TransformNoValidation consulted the validator")
	vCheck(plainErr == nil || plain == nil, "C04", "output %q with the error %v", plain, plainErr)
	v.got = nil
	out, err := tr.Transform(append([]byte{}, doc...))
	vCheck(err == nil || out == nil, "C04", "output %q with the error %v", out, err)
	want := plainErr == nil && v.ok && v.err == nil
	vCheck((err == nil) == want, "C04", "Transform returned the error %v; TransformNoValidation %v, the validator %v %v", err, plainErr, v.ok, v.err)
	if err == nil {
		vCheck(bytes.Equal(out, plain), "C04", "Transform returned %s and TransformNoValidation %s", out, plain)
		vCheck(len(v.got) > 0 && bytes.Equal(v.got[len(v.got)-1], out), "C04", "the validator was given %q, the output is %q", v.got, out)
	}
}

func init() {
	vOracleFn("JSON transformer against the reference", "C01,C02,C05,C06,C07,C08,C09,C14", "C03", 6, eOracle(false))
	vOracleFn("XML transformer against the reference", "C01,C02,C05,C06,C07,C08,C09", "C03", 3, eOracle(true))
	vOracleFn("JSON transformer on unusual input", "C03", "C03", 4, eHostile(false))
	vOracleFn("XML transformer on unusual input", "C03", "C03", 3, eHostile(true))
	vOracleFn("Transform and the validator", "C04", "C03", 2, eValidate)
}
