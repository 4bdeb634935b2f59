package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"strconv"
	"strings"

	"golang.org/x/tools/go/packages"
)

var pkgDirs = map[string]string{"transform": "transform", "jsonschema": "jsonschema", "generate": "generate", "main": "."}

// emit writes the contracts as an executable test overlay: the same wrappers, run on concrete arguments.
func emit(p *Program, native, dir string) error {
	removed := map[string]map[string]bool{}
	var dropped []string
	for round := 0; round < 12; round++ {
		overlay := map[string][]byte{}
		var pats []string
		for n, d := range pkgDirs {
			rt, err := os.ReadFile(filepath.Join(native, "rt_native.go.txt"))
			if err != nil {
				return err
			}
			pd := filepath.Join(p.repo, d)
			own, _ := filepath.Glob(filepath.Join(native, n, "*.go"))
			cs := p.kept[n]
			if len(own) == 0 && len(cs) == 0 {
				continue
			}
			overlay[filepath.Join(pd, "zz_vc_rt_test.go")] = []byte(strings.Replace(string(rt), "package PKG", "package "+n, 1))
			for f, b := range cs {
				dst := filepath.Join(pd, strings.TrimSuffix(filepath.Base(f), ".go")+"_test.go")
				overlay[dst] = dropDecls(b, removed[dst])
			}
			for _, f := range own {
				b, err := os.ReadFile(f)
				if err != nil {
					return err
				}
				dst := filepath.Join(pd, "zz_vn_"+strings.TrimSuffix(filepath.Base(f), ".go")+"_test.go")
				if _, ok := p.renames[n]; !ok {
					p.renames[n] = renamesIn(p.repo, p.contracts, n)
				}
				overlay[dst] = dropDecls(applyRenames(b, p.renames[n]), removed[dst])
			}
			var reg strings.Builder
			fmt.Fprintf(&reg, "package %s\n\nfunc init() {\n", n)
			strs, ints := literals(pd)
			fmt.Fprintf(&reg, "\tvDict = %#v\n\tvDictInts = %#v\n", strs, ints)
			for _, c := range p.Targets {
				if c.Pkg != n || c.Wrapper == nil || c.NoNative {
					continue
				}
				gone := false
				for _, m := range removed {
					if m[c.Wrapper.Name()] {
						gone = true
					}
				}
				if gone {
					continue
				}
				var ps []string
				for _, a := range c.Wrapper.Params {
					ps = append(ps, fmt.Sprintf("%q", a.Name()))
				}
				props := map[string]bool{}
				for _, x := range c.Props {
					props[x] = true
				}
				fmt.Fprintf(&reg, "\tvContract(%q, %q, %q, %q, []string{%s}, %s)\n", c.Name, strings.Join(c.Props, ","), strings.Join(c.SafetyProps, ","), strings.Join(c.FrameProps, ","), strings.Join(ps, ", "), c.Wrapper.Name())
			}
			reg.WriteString("}\n")
			overlay[filepath.Join(pd, "zz_vc_registry_test.go")] = []byte(reg.String())
			pats = append(pats, "./"+d)
		}
		cfg := &packages.Config{
			Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports | packages.NeedTypes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedExportFile,
			Dir:  p.repo, Overlay: overlay, Fset: token.NewFileSet(), Tests: true,
		}
		pkgs, err := packages.Load(cfg, pats...)
		if err != nil {
			return err
		}
		bad := false
		for _, pk := range pkgs {
			if strings.HasSuffix(pk.ID, ".test") {
				continue
			}
			for _, e := range pk.Errors {
				file, line := splitPos(e.Pos)
				if !strings.HasPrefix(filepath.Base(file), "zz_v") {
					continue
				}
				d := declAt(overlay[file], line)
				if d == "" {
					return fmt.Errorf("native file: %v", e)
				}
				if removed[file] == nil {
					removed[file] = map[string]bool{}
				}
				if !removed[file][d] {
					removed[file][d] = true
					dropped = append(dropped, fmt.Sprintf("%s: %s", d, e.Msg))
				}
				bad = true
			}
		}
		if bad {
			continue
		}
		os.MkdirAll(dir, 0o755)
		repl := map[string]string{}
		for dst, b := range overlay {
			rel, _ := filepath.Rel(p.repo, dst)
			src := filepath.Join(dir, strings.ReplaceAll(rel, "/", "__"))
			if err := os.WriteFile(src, b, 0o644); err != nil {
				return err
			}
			repl[dst] = src
		}
		js, _ := json.Marshal(map[string]interface{}{"Replace": repl})
		if err := os.WriteFile(filepath.Join(dir, "overlay.json"), js, 0o644); err != nil {
			return err
		}
		dj, _ := json.Marshal(dropped)
		return os.WriteFile(filepath.Join(dir, "dropped.json"), dj, 0o644)
	}
	return fmt.Errorf("native files do not settle: %v", dropped)
}

// literals collects the string and integer constants of the package as it is now.
func literals(dir string) ([]string, []int64) {
	files, _ := filepath.Glob(filepath.Join(dir, "*.go"))
	seen := map[string]bool{}
	var strs []string
	ints := []int64{}
	for _, f := range files {
		if strings.HasSuffix(f, "_test.go") {
			continue
		}
		af, err := parser.ParseFile(token.NewFileSet(), f, nil, 0)
		if err != nil {
			continue
		}
		ast.Inspect(af, func(n ast.Node) bool {
			switch n := n.(type) {
			case *ast.ImportSpec:
				return false
			case *ast.BasicLit:
				if seen[n.Value] {
					return true
				}
				seen[n.Value] = true
				if n.Kind == token.STRING || n.Kind == token.CHAR {
					if s, err := strconv.Unquote(n.Value); err == nil && len(s) < 24 && !strings.Contains(s, " ") {
						strs = append(strs, s)
					}
				}
				if n.Kind == token.INT {
					if v, err := strconv.ParseInt(n.Value, 0, 64); err == nil {
						ints = append(ints, v)
					}
				}
			}
			return true
		})
	}
	return strs, ints
}
