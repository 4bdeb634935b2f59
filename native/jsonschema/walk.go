package jsonschema

import (
	"encoding/json"
	"fmt"
	"strings"
)

// C15: Walk and WalkRaw.

func jWalk(g *vG) { jWalkAny(g, false) }
func jRaw(g *vG)  { jWalkAny(g, true) }

func jWalkAny(g *vG, raw bool) {
	root := jGen(g, 4, map[bool]int{true: 25, false: 0}[g.one(3)])
	if root.bad != "" {
		panic(vSkip{"root"})
	}
	vNote("schema: %s", root.text)
	s, err := jSchemaOf(g, root)
	if err != nil {
		panic(vSkip{"root"})
	}
	var want []jVisit
	for i, k := range root.kids {
		k.jExpect("$."+root.props[i], "$", &want)
	}
	if root.item != nil {
		root.item.jExpect("$[*]", "$", &want)
	}
	failAt := -1
	if g.one(4) && len(want) > 0 {
		failAt = g.Intn(len(want))
	}
	index := map[string]int{}
	for i, w := range want {
		index[w.path] = i
	}
	seen := map[string]bool{"$": true}
	calls := 0
	failed := false
	var before []byte
	if !raw {
		before, _ = json.Marshal(s.Instance)
	}
	visit := func(path string, def string) error {
		vCheck(!failed, "C15", "the callback is called for %s after it failed", path)
		i, ok := index[path]
		if !vCheck(ok, "C15", "the callback is called for %s, which is not in the schema", path) {
			return nil
		}
		vCheck(!seen[path], "C15", "the callback is called twice for %s", path)
		vCheck(seen[want[i].parent], "C15", "the callback is called for %s before its parent %s", path, want[i].parent)
		seen[path] = true
		exp := want[i].def
		if want[i].bad {
			exp = def
		} else if raw {
			exp = jCanon([]byte(exp))
		} else {
			var in Instance
			if err := json.Unmarshal([]byte(exp), &in); err != nil {
				panic(vSkip{"definition"})
			}
			exp = vDump(in)
		}
		vCheck(def == exp, "C15", "the callback for %s got the definition %s, not %s", path, def, exp)
		calls++
		if calls-1 == failAt {
			failed = true
			return jErr{calls}
		}
		return nil
	}
	if raw {
		err = WalkRaw(s, func(path string, value json.RawMessage) error { return visit(path, jCanon(value)) })
	} else {
		err = Walk(s, func(path string, i Instance) error { return visit(path, vDump(i)) })
	}
	if failed {
		vCheck(err != nil && strings.Contains(err.Error(), jErr{calls}.Error()), "C15", "the callback failed at call %d, the walk returned %v", calls, err)
		return
	}
	if root.anyBad() {
		vCheck(err != nil, "C15", "a malformed definition was not reported")
		return
	}
	vCheck(err == nil, "C15", "the walk returned the error %v", err)
	if err == nil {
		for _, w := range want {
			vCheck(seen[w.path], "C15", "the callback was not called for %s", w.path)
		}
	}
	if !raw {
		after, _ := json.Marshal(s.Instance)
		vCheck(string(before) == string(after), "C15", "the walk changed the schema")
	}
}

// C16: FieldType.

func jFieldType(g *vG) {
	if g.one(6) {
		jBadFieldType(g)
		return
	}
	var entries []string
	var members []string
	wantErr, want, nullable := false, "", false
	name := func() string {
		return g.pick("string", "number", "object", "array", "boolean", "integer", "null", "date-time", "x", "Null", "nullable")
	}
	switch g.Intn(8) {
	case 0:
		wantErr = true // no type
	case 1:
		wantErr = true
		members = append(members, jMember(g, "type", g.pick("5", "true", "null", "{}", `{"type":"string"}`, "1.5")))
	case 2, 3:
		want = name()
		members = append(members, jMember(g, "type", `"`+want+`"`))
	default:
		n := 1 + g.Intn(4)
		others := 0
		for i := 0; i < n; i++ {
			e := name()
			if g.one(3) {
				e = "null"
			}
			entries = append(entries, jSpace(g)+`"`+e+`"`+jSpace(g))
			if e == "null" {
				nullable = true
			} else {
				want = e
				others++
			}
		}
		if others == 0 {
			panic(vSkip{"no type but null"})
		}
		wantErr = others > 1
		members = append(members, jMember(g, "type", "["+strings.Join(entries, ",")+"]"))
	}
	if g.one(2) {
		members = append(members, jMember(g, "properties", `{"type":{"type":["integer","null"]},"b":{"type":"number"}}`))
	}
	if g.one(2) {
		members = append(members, jMember(g, "items", `{"type":"boolean"}`))
	}
	if g.one(3) {
		members = append(members, jMember(g, g.pick("types", "Type", "", "typ", "x-type"), g.pick(`"string"`, `["string"]`)))
	}
	text := jObject(g, members)
	vNote("definition: %s", text)
	typ, null, err := FieldType([]byte(text))
	if wantErr {
		vCheck(err != nil, "C16", "the type %q (nullable %v) is reported", typ, null)
		vCheck(err == nil || typ == "" && !null, "C16", "an error comes with the type %q, nullable %v", typ, null)
		return
	}
	vCheck(err == nil && typ == want && null == nullable, "C16", "the type %q, nullable %v, error %v is reported, not %q, nullable %v", typ, null, err, want, nullable)
}

func jBadFieldType(g *vG) {
	text := g.pick(`{"type":["string" "null"]}`, `{"type":["string","null"`, `{"type":["string",}`, `{"type":"string`, `{"type":[string]}`,
		`{"type":string}`, `{"type":["null",string]}`, ``, `{`, `[`, `"type"`, `{"type"}`, `{"type":}`, `{"type":["string"`, `{"type":[`, `{"type":["string`, `{"type":["string",]}`, `{"typ":"string"}`, `[]`, `5`, `null`)
	vNote("definition: %s", text)
	typ, null, err := FieldType([]byte(text))
	vCheck(err != nil, "C16", "the type %q (nullable %v) is reported for a malformed definition", typ, null)
}

func init() {
	vOracleFn("Walk", "C15", "C15", 2, jWalk)
	vOracleFn("WalkRaw", "C15", "C15", 2, jRaw)
	vOracleFn("FieldType", "C16", "C16", 1, jFieldType)
	_ = fmt.Sprint
}
