package jsonschema

import (
	"encoding/json"
	"errors"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"

	"github.com/GannettDigital/gojsonschema"
)

// C17: loading of schema files with allOf and oneOf parts.

type jFile struct {
	name  string
	props map[string]string // nil: none
	req   []string
	items string
	all   []jPart
	one   []jPart
	defs  map[string]*jFile
	text  string
}

type jPart struct {
	ref    string // file or definition
	file   int    // -1: a definition or inline
	def    *jFile
	inline bool
}

type jMerged struct {
	props map[string]string
	req   map[string]int
	items string
}

func jSimpleDef(g *vG, tag string) string {
	b, _ := json.Marshal(tag + " " + g.pick("x", "two words", "q"))
	return jObject(g, []string{jMember(g, "type", g.pick(`"string"`, `"number"`, `["integer","null"]`, `"boolean"`)), jMember(g, "description", string(b))})
}

func jPlainFile(g *vG, tag string, needProps bool) *jFile {
	f := &jFile{name: tag}
	if needProps || g.one(2) {
		f.props = map[string]string{}
		for i := 1 + g.Intn(3); i > 0; i-- {
			n := g.pick("a", "b", "c", "d", "e", "f g", "properties", "allOf", "items", "type")
			f.props[n] = jSimpleDef(g, tag+"."+n)
		}
		for n := range f.props {
			if g.one(3) {
				f.req = append(f.req, n)
			}
		}
		sort.Strings(f.req)
	}
	if g.one(4) {
		f.items = jSimpleDef(g, tag+" items")
	}
	return f
}

// jLoadWant is what loading f has to give, from the definition of merging.
func jLoadWant(files []*jFile, f *jFile, oneOf string, flatten bool) jMerged {
	m := jMerged{req: map[string]int{}, items: f.items, props: map[string]string{}}
	own := f.props != nil
	for k, v := range f.props {
		m.props[k] = v
	}
	for _, r := range f.req {
		m.req[r]++
	}
	add := func(x jPart) {
		var o jMerged
		if x.file >= 0 {
			o = jLoadWant(files, files[x.file], oneOf, flatten)
		} else {
			// parts which are not files are included as they are
			o = jMerged{props: x.def.props, req: map[string]int{}, items: x.def.items}
			for _, r := range x.def.req {
				o.req[r]++
			}
		}
		for k, v := range o.props {
			if _, ok := m.props[k]; !ok {
				m.props[k] = v
			}
		}
		for r, n := range o.req {
			m.req[r] += n
		}
		if m.items == "" {
			m.items = o.items
		}
	}
	for _, a := range f.all {
		if flatten || !own {
			add(a)
		}
	}
	for _, o := range f.one {
		if strings.Split(filepath.Base(o.ref), ".")[0] == oneOf && !o.inline {
			add(o)
		}
	}
	return m
}

func (f *jFile) members(g *vG) []string {
	ms := []string{jMember(g, "type", `"object"`)}
	if f.items != "" {
		ms = append(ms, jMember(g, "items", f.items))
	}
	if f.props != nil {
		var ps []string
		var names []string
		for n := range f.props {
			names = append(names, n)
		}
		sort.Strings(names)
		for _, n := range names {
			ps = append(ps, jMember(g, n, f.props[n]))
		}
		ms = append(ms, jMember(g, "properties", jObject(g, ps)))
	}
	if f.req != nil {
		b, _ := json.Marshal(f.req)
		ms = append(ms, jMember(g, "required", string(b)))
	}
	return ms
}

func (f *jFile) write(g *vG) string {
	ms := f.members(g)
	list := func(key string, ps []jPart) {
		if len(ps) == 0 {
			return
		}
		var es []string
		for _, p := range ps {
			if p.inline {
				es = append(es, jObject(g, p.def.members(g)))
			} else {
				b, _ := json.Marshal(p.ref)
				es = append(es, jObject(g, []string{jMember(g, "$ref", string(b))}))
			}
		}
		ms = append(ms, jMember(g, key, "["+strings.Join(es, ","+jSpace(g))+"]"))
	}
	list("allOf", f.all)
	list("oneOf", f.one)
	if len(f.defs) > 0 {
		var ds []string
		for _, n := range []string{"d0", "d1"} {
			if d := f.defs[n]; d != nil {
				ds = append(ds, jMember(g, n, jObject(g, d.members(g))))
			}
		}
		ms = append(ms, jMember(g, "definitions", jObject(g, ds)))
	}
	f.text = jObject(g, ms)
	return f.text
}

func jFiles(g *vG) []*jFile {
	n := 2 + g.Intn(4)
	files := make([]*jFile, n)
	for i := n - 1; i >= 0; i-- {
		f := jPlainFile(g, fmt.Sprintf("f%d", i), i == n-1)
		part := func(one bool) (jPart, bool) {
			if i+1 < n && g.Intn(3) > 0 {
				j := i + 1 + g.Intn(n-i-1)
				return jPart{ref: g.pick("", "./") + fmt.Sprintf("f%d.json", j), file: j}, true
			}
			if one {
				return jPart{}, false
			}
			d := jPlainFile(g, fmt.Sprintf("f%d.def%d", i, len(f.defs)), true)
			if g.one(2) && len(f.defs) < 2 {
				name := fmt.Sprintf("d%d", len(f.defs))
				if f.defs == nil {
					f.defs = map[string]*jFile{}
				}
				f.defs[name] = d
				return jPart{ref: "#/definitions/" + name, file: -1, def: d}, true
			}
			return jPart{file: -1, def: d, inline: true}, true
		}
		for k := g.Intn(4); k > 0; k-- {
			if p, ok := part(false); ok {
				f.all = append(f.all, p)
			}
		}
		for k := g.Intn(3); k > 0; k-- {
			if p, ok := part(true); ok {
				f.one = append(f.one, p)
			}
		}
		files[i] = f
	}
	return files
}

var jDir int

func jLoad(g *vG) {
	files := jFiles(g)
	root := os.Getenv("VERIF_OUT") + ".files"
	jDir++
	dir := filepath.Join(root, fmt.Sprint(jDir))
	if err := os.MkdirAll(dir, 0o777); err != nil {
		panic(vSkip{err.Error()})
	}
	defer os.RemoveAll(dir)
	for i, f := range files {
		t := f.write(g)
		vNote("f%d.json: %s", i, t)
		if err := os.WriteFile(filepath.Join(dir, fmt.Sprintf("f%d.json", i)), []byte(t), 0o666); err != nil {
			panic(vSkip{err.Error()})
		}
	}
	path := filepath.Join(dir, "f0.json")
	for k := 0; k < 3; k++ {
		oneOf, flatten := g.pick("", "f1", "f2", "f3", "f"), g.one(2)
		vNote("load with oneOf type %q, flatten %v", oneOf, flatten)
		var s *Schema
		var err error
		if flatten {
			s, err = SchemaFromFile(path, oneOf)
		} else {
			s, err = SchemaFromFileNoFlatten(path, oneOf)
		}
		if !vCheck(err == nil, "C17", "loading failed: %v", err) {
			return
		}
		want := jLoadWant(files, files[0], oneOf, flatten)
		for n, d := range want.props {
			got, ok := s.Properties[n]
			vCheck(ok, "C17", "the property %q is lost", n)
			vCheck(!ok || jCanon(got) == jCanon([]byte(d)), "C17", "the property %q is %s, not %s", n, got, d)
		}
		for n := range s.Properties {
			_, ok := want.props[n]
			vCheck(ok, "C17", "the property %q is in no included part", n)
		}
		got := map[string]bool{}
		for _, r := range s.Required {
			got[r] = true
			vCheck(want.req[r] > 0, "C17", "%q is required by no included part", r)
		}
		for r := range want.req {
			vCheck(got[r], "C17", "the required field %q is lost", r)
		}
		if want.items == "" {
			vCheck(len(s.Items) == 0, "C17", "there are items %s", s.Items)
		} else {
			vCheck(jCanon(s.Items) == jCanon([]byte(want.items)), "C17", "the items are %s, not %s", s.Items, want.items)
		}
	}
	all, one, props, err := SchemaTypes(path)
	if !vCheck(err == nil, "C17", "SchemaTypes failed: %v", err) {
		return
	}
	refs := func(ps []jPart) (out []string) {
		for _, p := range ps {
			out = append(out, p.ref)
		}
		return
	}
	var names []string
	for n := range files[0].props {
		names = append(names, n)
	}
	sort.Strings(names)
	vCheck(fmt.Sprint(all) == fmt.Sprint(refs(files[0].all)) && len(all) == len(files[0].all), "C17", "the allOf references are %q", all)
	vCheck(fmt.Sprint(one) == fmt.Sprint(refs(files[0].one)) && len(one) == len(files[0].one), "C17", "the oneOf references are %q", one)
	vCheck(fmt.Sprint(props) == fmt.Sprint(names) && len(props) == len(names), "C17", "the property names are %q", props)
}

// C18: the cache.

func jCache(g *vG) {
	var c Cache[string]
	have := map[string]string{}
	n := 1 + g.Intn(12)
	for i := 0; i < n; i++ {
		key := g.pick("", "a", "b", "a|", "c")
		val := g.pick("", "x", "y") + fmt.Sprint(i)
		if g.one(5) {
			val = ""
		}
		var fail error
		if g.one(3) {
			fail = fmt.Errorf("build %d failed", i)
		}
		calls := 0
		got, err := c.Load(key, func() (string, error) { calls++; return val, fail })
		vNote("Load(%q) with a builder giving %q, %v: %q, %v, %d builds", key, val, fail, got, err, calls)
		if old, ok := have[key]; ok {
			vCheck(calls == 0 && got == old && err == nil, "C18", "the cached value of %q was %q; got %q, error %v, %d builds", key, old, got, err, calls)
			continue
		}
		vCheck(calls == 1, "C18", "the builder of %q was called %d times", key, calls)
		if fail != nil {
			vCheck(errors.Is(err, fail) && got == "", "C18", "the builder of %q failed; got %q, error %v", key, got, err)
			continue
		}
		vCheck(err == nil && got == val, "C18", "the builder of %q gave %q; got %q, error %v", key, val, got, err)
		have[key] = val
	}
}

func jCacheConcurrent(g *vG) {
	var c Cache[*int]
	var mu sync.Mutex
	built := map[string]map[*int]bool{}
	failed := map[string]int{}
	keys := []string{"a", "b", "c"}
	rounds := 2 + g.Intn(4)
	var fails []string
	add := func(f string, a ...interface{}) { mu.Lock(); fails = append(fails, fmt.Sprintf(f, a...)); mu.Unlock() }
	got := map[string]*int{}
	var wg sync.WaitGroup
	for w := 0; w < 4; w++ {
		seed := g.Intn(1000)
		wg.Add(1)
		go func(w int) {
			defer wg.Done()
			for i := 0; i < rounds; i++ {
				key := keys[(seed+i*7+w)%3]
				fail := (seed+i+w)%4 == 0
				v, err := c.Load(key, func() (*int, error) {
					p := new(int)
					mu.Lock()
					defer mu.Unlock()
					if fail {
						failed[key]++
						return p, errors.New("fail")
					}
					if built[key] == nil {
						built[key] = map[*int]bool{}
					}
					built[key][p] = true
					return p, nil
				})
				if err != nil {
					if v != nil {
						add("an error comes with a value")
					}
					continue
				}
				mu.Lock()
				if !built[key][v] {
					fails = append(fails, fmt.Sprintf("the value of %q was not built for it", key))
				}
				if o := got[key]; o != nil && o != v {
					fails = append(fails, fmt.Sprintf("two values were returned for %q", key))
				}
				got[key] = v
				mu.Unlock()
			}
		}(w)
	}
	wg.Wait()
	for _, f := range fails {
		vCheck(false, "C18", "%s", f)
	}
	for k, b := range built {
		vCheck(len(b) == 1, "C18", "%d values were built for %q", len(b), k)
	}
}

// C19: the validator.

func jValidator(g *vG) {
	root := jGen(g, 2, 0)
	if root.kind != "object" && root.kind != "array" {
		root = jGen(g, 2, 0)
	}
	jDir++
	dir := filepath.Join(os.Getenv("VERIF_OUT")+".files", fmt.Sprint(jDir))
	if err := os.MkdirAll(dir, 0o777); err != nil {
		panic(vSkip{err.Error()})
	}
	defer os.RemoveAll(dir)
	path := filepath.Join(dir, "s.json")
	if err := os.WriteFile(path, []byte(root.text), 0o666); err != nil {
		panic(vSkip{err.Error()})
	}
	vNote("schema: %s", root.text)
	ref, err := gojsonschema.NewSchema(gojsonschema.NewBytesLoader([]byte(root.text)))
	v, verr := NewValidator(path)
	vCheck((err == nil) == (verr == nil), "C19", "NewValidator returned the error %v, the engine %v", verr, err)
	if err != nil || verr != nil {
		return
	}
	for i := 0; i < 4; i++ {
		doc := jDocument(g, root)
		vNote("document: %s", doc)
		res, rerr := ref.Validate(gojsonschema.NewBytesLoader([]byte(doc)))
		valid := rerr == nil && len(res.Errors()) == 0
		ok, oerr := v.Validate([]byte(doc))
		vCheck(ok == valid, "C19", "the answer is %v, the document is valid: %v", ok, valid)
		vCheck((oerr == nil) == valid, "C19", "the error is %v, the document is valid: %v", oerr, valid)
		s := Schema{Validator: v}
		ok2, oerr2 := s.Validate([]byte(doc))
		vCheck(ok2 == ok && (oerr2 == nil) == (oerr == nil), "C19,C04", "the schema answers %v, %v, its validator %v, %v", ok2, oerr2, ok, oerr)
	}
}

func jDocument(g *vG, n *jNode) string {
	if g.one(8) {
		return g.pick(`null`, `1`, `"x"`, `{}`, `[]`, `[1]`, `{"a":1}`, ``, `{`, `{"a":}`, `true`)
	}
	switch n.kind {
	case "object":
		var ms []string
		for i, p := range n.props {
			if g.Intn(4) > 0 {
				ms = append(ms, jMember(g, p, jDocument(g, n.kids[i])))
			}
		}
		return jObject(g, ms)
	case "array":
		var es []string
		for i := g.Intn(3); i > 0; i-- {
			es = append(es, jDocument(g, n.item))
		}
		return "[" + strings.Join(es, ",") + "]"
	case "string":
		return g.pick(`"x"`, `""`, `"2001-02-03T04:05:06Z"`)
	case "number":
		return g.pick("1.5", "0", "-3")
	case "integer":
		return g.pick("1", "0", "-3")
	}
	return g.pick("true", "false")
}

func init() {
	vOracleFn("loading schema files", "C17", "C17", 3, jLoad)
	vOracleFn("cache", "C18", "C18", 1, jCache)
	vOracleFn("cache, concurrent loads", "C18", "C18", 1, jCacheConcurrent)
	vOracleFn("validator", "C19", "C19", 2, jValidator)
}
