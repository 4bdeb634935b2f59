package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"strings"
)

// C25: the command line.

func mPairs(g *vG) (string, bool) {
	var ps []string
	ok := true
	for i := 1 + g.Intn(3); i > 0; i-- {
		k := g.pick("a", "b", "old", "x y", "", "Ä")
		v := g.pick("A", "new", "", "p=q", "=", "a=b=c", "z z", "=x")
		p := k + "=" + v
		if g.one(6) {
			p = g.pick("a", "", "old new", "a:b")
			ok = false
		}
		ps = append(ps, p)
	}
	return strings.Join(ps, ","), ok
}

func mFlags(g *vG) {
	mf := &mapFlags{kv: map[string]string{}}
	want := map[string]string{}
	for i := g.Intn(3); i > 0; i-- {
		k, v := g.pick("a", "c", "old"), vString(g)
		mf.kv[k], want[k] = v, v
	}
	for i := 1 + g.Intn(3); i > 0; i-- {
		text, ok := mPairs(g)
		if g.one(8) {
			text = vString(g)
			ok = true
			for _, p := range strings.Split(text, ",") {
				ok = ok && strings.Contains(p, "=")
			}
		}
		vNote("option %q", text)
		err := mf.Set(text)
		if !vCheck((err == nil) == ok, "C25", "the option %q gives the error %v", text, err) || err != nil {
			return
		}
		for _, p := range strings.Split(text, ",") {
			at := strings.IndexByte(p, '=')
			want[p[:at]] = p[at+1:]
		}
		vCheck(vDump(mf.kv) == vDump(want), "C25", "the pairs are %q, not %q", mf.kv, want)
	}
}

var mDir int

// mMain runs the command with rename options.
func mMain(g *vG) {
	mDir++
	dir := filepath.Join(os.Getenv("VERIF_OUT")+".files", fmt.Sprint(mDir))
	out := filepath.Join(dir, "pkg")
	if err := os.MkdirAll(out, 0o777); err != nil {
		panic(vSkip{err.Error()})
	}
	defer os.RemoveAll(dir)
	schema, _ := json.Marshal(map[string]interface{}{"type": "object", "properties": map[string]interface{}{
		"alpha": map[string]string{"type": "string"}, "beta": map[string]string{"type": "integer"}, "gamma": map[string]string{"type": "boolean"}}})
	path := filepath.Join(dir, "thing.json")
	if err := os.WriteFile(path, schema, 0o666); err != nil {
		panic(vSkip{err.Error()})
	}
	names := map[string]string{"alpha": "Alpha", "beta": "Beta", "gamma": "Gamma"}
	var opts []string
	n := 0
	for i := g.Intn(3); i > 0; i-- {
		var ps []string
		for j := 1 + g.Intn(2); j > 0; j-- {
			k := g.pick("alpha", "beta", "gamma")
			n++
			v := g.pick("Xx", "Other") + fmt.Sprint(n)
			ps = append(ps, k+"="+v)
			names[k] = v
		}
		opts = append(opts, "-renameFields", strings.Join(ps, ","))
	}
	typ := "Thing"
	if g.one(2) {
		typ = g.pick("Renamed", "Zz")
		opts = append(opts, "-rename="+g.pick("", "other=Abc,")+"thing="+typ)
	}
	gql := ""
	if g.one(2) {
		gql = typ
		opts = append(opts, "-graphql", "-importPath", "example.com/p")
		if g.one(2) {
			gql = "Gql"
			opts = append(opts, "-renameGraphQLType", "thing=Gql")
		}
	}
	os.Args = append(append([]string{"jstransform"}, opts...), path, out)
	vNote("%q", os.Args[1:])
	flag.CommandLine = flag.NewFlagSet("jstransform", flag.PanicOnError)
	main()
	text, err := os.ReadFile(filepath.Join(out, "thing.go"))
	vCheck(err == nil, "C25", "no file is generated: %v", err)
	vNote("generated:\n%s", text)
	got := strings.Join(strings.Fields(string(text)), " ")
	vCheck(strings.Contains(got, "type "+typ+" struct"), "C25", "the struct is not named %s", typ)
	for k, v := range names {
		vCheck(strings.Contains(got, " "+v+" "), "C25", "the field %s is not named %s", k, v)
	}
	if gql != "" {
		text, err := os.ReadFile(filepath.Join(out, "thing.graphqls"))
		vCheck(err == nil && strings.Contains(string(text), "type "+gql+" "), "C25", "the GraphQL type is not named %s: %v %s", gql, err, text)
	}
}

func init() {
	vOracleFn("rename options", "C25", "C25", 2, mFlags)
	vOracleFn("the command", "C25", "C25", 1, mMain)
}
