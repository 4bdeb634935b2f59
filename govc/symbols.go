package main

import (
	"bytes"
	"encoding/json"
	"go/ast"
	"go/parser"
	"go/printer"
	"go/token"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
)

// repoSymbol is an unexported function, method, type or struct field of the repository.
// The table of the tree the contracts were written for tells a rename from a removal.
type repoSymbol struct {
	Kind string // func, type, field
	Name string
	Sig  string         // parameter and result types, underlying type, or field type
	Of   string         // receiver or struct
	Bag  map[string]int `json:",omitempty"` // identifiers and literals of the body
}

func exprText(e interface{}) string {
	if e == nil {
		return ""
	}
	var b bytes.Buffer
	printer.Fprint(&b, token.NewFileSet(), e)
	return strings.Join(strings.Fields(b.String()), " ")
}

func fieldTypes(l *ast.FieldList) string {
	if l == nil {
		return ""
	}
	var out []string
	for _, f := range l.List {
		n := len(f.Names)
		if n == 0 {
			n = 1
		}
		for i := 0; i < n; i++ {
			out = append(out, exprText(f.Type))
		}
	}
	return strings.Join(out, ",")
}

func bagOf(n ast.Node) map[string]int {
	m := map[string]int{}
	ast.Inspect(n, func(x ast.Node) bool {
		switch x := x.(type) {
		case *ast.Ident:
			m[x.Name]++
		case *ast.BasicLit:
			m[x.Value]++
		}
		return true
	})
	return m
}

func similarity(a, b map[string]int) float64 {
	in, un := 0, 0
	for k, x := range a {
		y := b[k]
		if x < y {
			in, un = in+x, un+y
		} else {
			in, un = in+y, un+x
		}
	}
	for k, y := range b {
		if a[k] == 0 {
			un += y
		}
	}
	if un == 0 {
		return 1
	}
	return float64(in) / float64(un)
}

func symbolsOf(dir string) []repoSymbol {
	files, _ := filepath.Glob(filepath.Join(dir, "*.go"))
	sort.Strings(files)
	var out []repoSymbol
	for _, f := range files {
		if strings.HasSuffix(f, "_test.go") {
			continue
		}
		af, err := parser.ParseFile(token.NewFileSet(), f, nil, 0)
		if err != nil {
			continue
		}
		for _, d := range af.Decls {
			switch d := d.(type) {
			case *ast.FuncDecl:
				s := repoSymbol{Kind: "func", Name: d.Name.Name, Sig: fieldTypes(d.Type.Params) + " -> " + fieldTypes(d.Type.Results)}
				if d.Recv != nil {
					s.Of = fieldTypes(d.Recv)
				}
				if d.Body != nil {
					s.Bag = bagOf(d.Body)
				}
				out = append(out, s)
			case *ast.GenDecl:
				for _, sp := range d.Specs {
					t, ok := sp.(*ast.TypeSpec)
					if !ok {
						continue
					}
					out = append(out, repoSymbol{Kind: "type", Name: t.Name.Name, Sig: exprText(t.Type)})
					if st, ok := t.Type.(*ast.StructType); ok {
						for _, fl := range st.Fields.List {
							for _, n := range fl.Names {
								out = append(out, repoSymbol{Kind: "field", Name: n.Name, Sig: exprText(fl.Type), Of: t.Name.Name})
							}
						}
					}
					if it, ok := t.Type.(*ast.InterfaceType); ok {
						for _, fl := range it.Methods.List {
							for _, n := range fl.Names {
								out = append(out, repoSymbol{Kind: "field", Name: n.Name, Sig: exprText(fl.Type), Of: t.Name.Name})
							}
						}
					}
				}
			}
		}
	}
	return out
}

func writeSymbols(repo, file string) error {
	m := map[string][]repoSymbol{}
	for n, d := range pkgDirs {
		m[n] = symbolsOf(filepath.Join(repo, d))
	}
	b, _ := json.MarshalIndent(m, "", " ")
	return os.WriteFile(file, append(b, '\n'), 0o644)
}

// renamesIn pairs the unexported names that are gone with those that are new and have the same shape.
func renamesIn(repo, contracts, pkg string) map[string]string {
	b, err := os.ReadFile(filepath.Join(contracts, "symbols.json"))
	if err != nil {
		return nil
	}
	var base map[string][]repoSymbol
	if json.Unmarshal(b, &base) != nil {
		return nil
	}
	now := symbolsOf(filepath.Join(repo, pkgDirs[pkg]))
	out := map[string]string{}
	ren := func(s string) string {
		for o, n := range out {
			s = regexp.MustCompile(`\b`+regexp.QuoteMeta(o)+`\b`).ReplaceAllString(s, n)
		}
		return s
	}
	for _, kind := range []string{"type", "field", "func"} {
		have := map[string]bool{}
		for _, s := range now {
			if s.Kind == kind {
				have[s.Of+" "+s.Name] = true
			}
		}
		was := map[string]bool{}
		for _, s := range base[pkg] {
			if s.Kind == kind {
				was[ren(s.Of)+" "+s.Name] = true
			}
		}
		taken := map[string]bool{}
		for _, s := range base[pkg] {
			if s.Kind != kind || ast.IsExported(s.Name) || have[ren(s.Of)+" "+s.Name] || out[s.Name] != "" {
				continue
			}
			best, bestSim := "", -1.0
			for _, c := range now {
				if c.Kind != kind || was[c.Of+" "+c.Name] || taken[c.Of+" "+c.Name] || c.Of != ren(s.Of) || c.Sig != ren(s.Sig) {
					continue
				}
				if sim := similarity(s.Bag, c.Bag); sim > bestSim {
					best, bestSim = c.Name, sim
				}
			}
			if best != "" && (kind != "func" || bestSim >= 0.3) {
				out[s.Name] = best
				taken[ren(s.Of)+" "+best] = true
			}
		}
	}
	return out
}

// applyRenames rewrites the identifiers of a contract file and its vc: directives.
func applyRenames(src []byte, ren map[string]string) []byte {
	if len(ren) == 0 {
		return src
	}
	fs := token.NewFileSet()
	f, err := parser.ParseFile(fs, "x.go", src, parser.ParseComments)
	if err != nil {
		return src
	}
	type edit struct {
		off, n int
		s      string
	}
	var edits []edit
	ast.Inspect(f, func(n ast.Node) bool {
		if id, ok := n.(*ast.Ident); ok && ren[id.Name] != "" {
			edits = append(edits, edit{fs.Position(id.Pos()).Offset, len(id.Name), ren[id.Name]})
		}
		return true
	})
	for _, g := range f.Comments {
		for _, c := range g.List {
			if !strings.HasPrefix(c.Text, "//vc:") {
				continue
			}
			t := regexp.MustCompile(`[A-Za-z_]\w*`).ReplaceAllStringFunc(c.Text, func(w string) string {
				if r := ren[w]; r != "" {
					return r
				}
				return w
			})
			edits = append(edits, edit{fs.Position(c.Pos()).Offset, len(c.Text), t})
		}
	}
	sort.Slice(edits, func(i, j int) bool { return edits[i].off > edits[j].off })
	out := string(src)
	for _, e := range edits {
		out = out[:e.off] + e.s + out[e.off+e.n:]
	}
	return []byte(out)
}
