package main

import (
	"fmt"
	"go/ast"
	"go/constant"
	"go/parser"
	"go/printer"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const repoMod = "github.com/GannettDigital/jstransform"

type Contract struct {
	Name        string
	Pkg         string
	Fn          *ssa.Function
	Wrapper     *ssa.Function
	Req         *ssa.Function
	Facts       *ssa.Function
	Ret         *ssa.Function
	Inline      bool
	Fresh       bool
	Updates     string
	Props       []string
	FrameProps  []string
	SafetyProps []string
	WithInv     []string
	Missing     string // why the target cannot be verified
	trivial     int
	Loops       int
	Invariants  int
	Uses        map[string]bool
	InlinedFns  map[string]bool
	MaxSteps    int
	NoNative    bool
	Opaque      map[string]bool
	Implements  []string
	params      map[string]Val
}

func (c *Contract) paramName(i int) string {
	if c.Fn != nil && i < len(c.Fn.Params) {
		// names of the contract wrapper
		if c.Wrapper != nil && i < len(c.Wrapper.Params) {
			return c.Wrapper.Params[i].Name()
		}
		return c.Fn.Params[i].Name()
	}
	return ""
}

type invFn struct {
	fn      *ssa.Function
	targets []string
}

type ifaceContract struct {
	Key   string
	Req   *ssa.Function
	Facts *ssa.Function
}

type Program struct {
	repo          string
	contracts     string
	fset          *token.FileSet
	prog          *ssa.Program
	pkgs          map[string]*ssa.Package
	Targets       []*Contract
	contractOf    map[*ssa.Function]*Contract
	ifaces        map[string]*ifaceContract
	stubs         map[string]map[*ssa.Package]*ssa.Function
	nondet        map[string]bool
	mayPanic      map[string]bool
	mergeSpecs    map[*ssa.Function]bool
	extFacts      map[string]*ssa.Function
	pure          map[string]bool
	invs          []*invFn
	recSpecs      map[*ssa.Function]bool
	loops         map[*ssa.Function]map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool
	mutableGlobal map[*ssa.Global]bool
	globalInit    map[*ssa.Global]*ssa.Const
	globalMap     map[*ssa.Global][]*ssa.MapUpdate
	assumptions   map[string]bool
	externals     map[string]bool
	modelsUsed    map[string]bool
	Dropped       []string // contract declarations that do not type-check against the current code
	contractFiles map[string]bool
	kept          map[string]map[string][]byte
	renames       map[string]map[string]string
}

func (p *Program) posStr(pos token.Pos) string {
	if !pos.IsValid() {
		return "-"
	}
	q := p.fset.Position(pos)
	return fmt.Sprintf("%s:%d:%d", strings.TrimPrefix(strings.TrimPrefix(q.Filename, p.repo+"/"), "/verif/"), q.Line, q.Column)
}

func (p *Program) assumption(s string)  { p.assumptions[s] = true }
func (p *Program) useExternal(s string) { p.externals[s] = true }
func (p *Program) useModel(s string)    { p.modelsUsed[s] = true }

func (p *Program) pureExternal(name string) bool {
	if p.pure[name] {
		return true
	}
	for k := range p.pure {
		if strings.HasSuffix(k, "*") && strings.HasPrefix(name, k[:len(k)-1]) {
			return true
		}
	}
	return false
}

func (p *Program) loopsOf(fn *ssa.Function) map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool {
	l, ok := p.loops[fn]
	if !ok {
		l = naturalLoops(fn)
		p.loops[fn] = l
	}
	return l
}

func (p *Program) invsFor(c *Contract) []*invFn {
	var out []*invFn
	for _, iv := range p.invs {
		if len(iv.targets) == 0 {
			out = append(out, iv)
			continue
		}
		for _, t := range iv.targets {
			if t == c.Name {
				out = append(out, iv)
			}
		}
	}
	return out
}

func (p *Program) isContractFile(fn *ssa.Function) bool {
	f := fn
	for f.Parent() != nil {
		f = f.Parent()
	}
	return strings.Contains(p.fset.Position(f.Pos()).Filename, "/zz_vc_")
}

// load type-checks the repository with the contract files overlaid.
// Declarations of the contract files that no longer fit the code are dropped and reported.
func load(repo, contracts string, only []string) (*Program, error) {
	dirs := map[string]string{"transform": "transform", "jsonschema": "jsonschema", "generate": "generate", "main": "."}
	var names []string
	for n := range dirs {
		if len(only) > 0 {
			found := false
			for _, o := range only {
				if o == n {
					found = true
				}
			}
			if !found {
				continue
			}
		}
		names = append(names, n)
	}
	sort.Strings(names)
	removed := map[string]map[string]bool{} // file -> decl names
	var dropped []string
	renames := map[string]map[string]string{}
	for _, n := range names {
		renames[n] = renamesIn(repo, contracts, n)
	}
	for round := 0; round < 12; round++ {
		overlay := map[string][]byte{}
		kept := map[string]map[string][]byte{}
		var pats []string
		for _, n := range names {
			dir := filepath.Join(repo, dirs[n])
			files, _ := filepath.Glob(filepath.Join(contracts, n, "*.go"))
			if len(files) == 0 {
				continue
			}
			pkgName := n
			rt, err := os.ReadFile(filepath.Join(contracts, "rt_prover.go.txt"))
			if err != nil {
				return nil, err
			}
			overlay[filepath.Join(dir, "zz_vc_rt.go")] = []byte(strings.Replace(string(rt), "package PKG", "package "+pkgName, 1))
			for _, f := range files {
				if strings.HasSuffix(f, "_test.go") {
					continue
				}
				b, err := os.ReadFile(f)
				if err != nil {
					return nil, err
				}
				dst := filepath.Join(dir, "zz_vc_"+filepath.Base(f))
				overlay[dst] = dropDecls(applyRenames(b, renames[n]), removed[dst])
				if kept[n] == nil {
					kept[n] = map[string][]byte{}
				}
				kept[n][dst] = overlay[dst]
			}
			pats = append(pats, "./"+dirs[n])
		}
		cfg := &packages.Config{
			Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports | packages.NeedTypes | packages.NeedTypesSizes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedDeps | packages.NeedExportFile | packages.NeedModule,
			Dir:  repo, Overlay: overlay, Fset: token.NewFileSet(),
		}
		cfg.Mode &^= packages.NeedDeps
		cfg.Mode |= packages.NeedDeps
		pkgs, err := packages.Load(cfg, pats...)
		if err != nil {
			return nil, err
		}
		bad := false
		var other error
		for _, pk := range pkgs {
			for _, e := range pk.Errors {
				file, line := splitPos(e.Pos)
				if !strings.Contains(filepath.Base(file), "zz_vc_") {
					other = fmt.Errorf("the repository does not type-check: %v", e)
					continue
				}
				d := declAt(overlay[file], line)
				if d == "" {
					return nil, fmt.Errorf("contract file: %v", e)
				}
				if removed[file] == nil {
					removed[file] = map[string]bool{}
				}
				if !removed[file][d] {
					removed[file][d] = true
					dropped = append(dropped, fmt.Sprintf("%s: %s", d, e.Msg))
				}
				bad = true
			}
		}
		if bad {
			continue
		}
		if other != nil {
			return nil, other
		}
		p, err := build(repo, contracts, pkgs, cfg.Fset, dropped)
		if p != nil {
			p.kept = kept
			p.renames = renames
		}
		return p, err
	}
	return nil, fmt.Errorf("contract files do not settle: %v", dropped)
}

func splitPos(s string) (string, int) {
	parts := strings.Split(s, ":")
	if len(parts) < 2 {
		return s, 0
	}
	n := 0
	fmt.Sscanf(parts[1], "%d", &n)
	return parts[0], n
}

func declKey(d ast.Decl) string {
	switch d := d.(type) {
	case *ast.FuncDecl:
		if d.Recv != nil {
			return "method " + d.Name.Name
		}
		return d.Name.Name
	case *ast.GenDecl:
		for _, s := range d.Specs {
			switch s := s.(type) {
			case *ast.TypeSpec:
				return s.Name.Name
			case *ast.ValueSpec:
				return s.Names[0].Name
			case *ast.ImportSpec:
				return "import " + s.Path.Value
			}
		}
	}
	return ""
}

func declAt(src []byte, line int) string {
	fs := token.NewFileSet()
	f, err := parser.ParseFile(fs, "x.go", src, parser.ParseComments)
	if err != nil {
		return ""
	}
	for _, d := range f.Decls {
		if fs.Position(d.Pos()).Line <= line && line <= fs.Position(d.End()).Line {
			if gd, ok := d.(*ast.GenDecl); ok && gd.Tok == token.IMPORT {
				for _, s := range gd.Specs {
					if fs.Position(s.Pos()).Line == line {
						return "import " + s.(*ast.ImportSpec).Path.Value
					}
				}
			}
			return declKey(d)
		}
	}
	return ""
}

// dropDecls blanks the declarations but keeps the line numbers.
func dropDecls(src []byte, names map[string]bool) []byte {
	if len(names) == 0 {
		return src
	}
	fs := token.NewFileSet()
	f, err := parser.ParseFile(fs, "x.go", src, parser.ParseComments)
	if err != nil {
		return src
	}
	out := append([]byte{}, src...)
	blank := func(a, b token.Pos) {
		for i := fs.Position(a).Offset; i < fs.Position(b).Offset; i++ {
			if out[i] != '\n' {
				out[i] = ' '
			}
		}
	}
	for _, d := range f.Decls {
		if gd, ok := d.(*ast.GenDecl); ok && gd.Tok == token.IMPORT {
			for _, s := range gd.Specs {
				if names["import "+s.(*ast.ImportSpec).Path.Value] {
					blank(s.Pos(), s.End())
				}
			}
			continue
		}
		if names[declKey(d)] {
			blank(d.Pos(), d.End())
			if fd, ok := d.(*ast.FuncDecl); ok && fd.Doc != nil {
				blank(fd.Doc.Pos(), fd.Doc.End())
			}
		}
	}
	return out
}

var _ = printer.Fprint

func build(repo, contracts string, pkgs []*packages.Package, fset *token.FileSet, dropped []string) (*Program, error) {
	prog, spkgs := ssautil.Packages(pkgs, ssa.InstantiateGenerics|ssa.BuildSerially)
	p := &Program{repo: repo, contracts: contracts, fset: fset, prog: prog, pkgs: map[string]*ssa.Package{}, contractOf: map[*ssa.Function]*Contract{}, ifaces: map[string]*ifaceContract{}, stubs: map[string]map[*ssa.Package]*ssa.Function{}, nondet: map[string]bool{}, mayPanic: map[string]bool{}, mergeSpecs: map[*ssa.Function]bool{}, extFacts: map[string]*ssa.Function{}, pure: map[string]bool{}, recSpecs: map[*ssa.Function]bool{}, loops: map[*ssa.Function]map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool{}, mutableGlobal: map[*ssa.Global]bool{}, globalInit: map[*ssa.Global]*ssa.Const{}, globalMap: map[*ssa.Global][]*ssa.MapUpdate{}, assumptions: map[string]bool{}, externals: map[string]bool{}, modelsUsed: map[string]bool{}, Dropped: dropped, contractFiles: map[string]bool{}}
	for i, pk := range pkgs {
		if spkgs[i] == nil {
			return nil, fmt.Errorf("no SSA for %s", pk.PkgPath)
		}
		p.pkgs[pk.PkgPath] = spkgs[i]
	}
	// repository packages imported by others are built from source as well
	for _, sp := range prog.AllPackages() {
		if isRepoPkg(sp.Pkg.Path()) {
			p.pkgs[sp.Pkg.Path()] = sp
		}
	}
	for _, sp := range p.pkgs {
		sp.Build()
	}
	p.scanGlobals()
	for _, pk := range pkgs {
		sp := p.pkgs[pk.PkgPath]
		for _, f := range pk.Syntax {
			name := fset.Position(f.Pos()).Filename
			if !strings.Contains(filepath.Base(name), "zz_vc_") {
				continue
			}
			if err := p.directives(sp, f); err != nil {
				return nil, err
			}
		}
	}
	sort.Slice(p.Targets, func(i, j int) bool { return p.Targets[i].Name < p.Targets[j].Name })
	return p, nil
}

// constUpdates: the entries of a map literal of constants.
func constUpdates(m *ssa.MakeMap, st *ssa.Store) ([]*ssa.MapUpdate, bool) {
	var out []*ssa.MapUpdate
	for _, r := range *m.Referrers() {
		switch r := r.(type) {
		case *ssa.MapUpdate:
			_, ok1 := r.Key.(*ssa.Const)
			_, ok2 := r.Value.(*ssa.Const)
			if !ok1 || !ok2 || r.Map != m || r.Block() != m.Block() {
				return nil, false
			}
			out = append(out, r)
		case *ssa.DebugRef:
		default:
			if r != ssa.Instruction(st) {
				return nil, false
			}
		}
	}
	return out, true
}

// onlyRead: the instruction loads the map for lookups only, or stores it in initialisation.
func onlyRead(in ssa.Instruction, g *ssa.Global, init bool) bool {
	switch in := in.(type) {
	case *ssa.Store:
		return init && in.Addr == g
	case *ssa.DebugRef:
		return true
	case *ssa.UnOp:
		for _, r := range *in.Referrers() {
			switch r := r.(type) {
			case *ssa.Lookup, *ssa.Range, *ssa.DebugRef:
			case *ssa.Call:
				if b, ok := r.Call.Value.(*ssa.Builtin); !ok || b.Name() != "len" {
					return false
				}
			default:
				return false
			}
		}
		return true
	}
	return false
}

// scanGlobals finds package variables assigned outside initialisation.
func (p *Program) scanGlobals() {
	shared := map[*ssa.Global]bool{} // the map gets elsewhere than into reads
	defer func() {
		for g := range shared {
			delete(p.globalMap, g)
		}
		for g := range p.mutableGlobal {
			delete(p.globalMap, g)
		}
	}()
	for _, sp := range p.pkgs {
		var visit func(fn *ssa.Function, init bool)
		seen := map[*ssa.Function]bool{}
		visit = func(fn *ssa.Function, init bool) {
			if seen[fn] {
				return
			}
			seen[fn] = true
			for _, b := range fn.Blocks {
				for _, in := range b.Instrs {
					for _, op := range in.Operands(nil) {
						if g, ok := (*op).(*ssa.Global); ok {
							if _, isMap := g.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Map); isMap && !onlyRead(in, g, init) {
								shared[g] = true
							}
						}
					}
					if s, ok := in.(*ssa.Store); ok {
						if g, ok := s.Addr.(*ssa.Global); ok {
							if init {
								if m, ok := s.Val.(*ssa.MakeMap); ok {
									if ups, ok := constUpdates(m, s); ok {
										p.globalMap[g] = ups
									}
								}
								if c, ok := s.Val.(*ssa.Const); ok && c.Value != nil && (c.Value.Kind() == constant.String || c.Value.Kind() == constant.Int || c.Value.Kind() == constant.Bool) {
									p.globalInit[g] = c
								}
							} else {
								p.mutableGlobal[g] = true
							}
						}
					}
				}
			}
			for _, a := range fn.AnonFuncs {
				visit(a, false)
			}
		}
		for _, m := range sp.Members {
			switch m := m.(type) {
			case *ssa.Function:
				visit(m, m.Name() == "init")
			case *ssa.Type:
				for _, t := range []types.Type{m.Type(), types.NewPointer(m.Type())} {
					ms := p.prog.MethodSets.MethodSet(t)
					for i := 0; i < ms.Len(); i++ {
						if fn := p.prog.MethodValue(ms.At(i)); fn != nil && fn.Pkg == sp {
							visit(fn, false)
						}
					}
				}
			}
		}
	}
}

func (p *Program) findFn(sp *ssa.Package, name string) *ssa.Function {
	if strings.HasPrefix(name, "(") { // (*T).m or (T).m
		i := strings.Index(name, ").")
		tn, m := name[1:i], name[i+2:]
		ptr := strings.HasPrefix(tn, "*")
		tn = strings.TrimPrefix(tn, "*")
		var t types.Type
		if strings.Contains(tn, "[") {
			tv, err := types.Eval(p.prog.Fset, sp.Pkg, token.NoPos, tn)
			if err != nil || !tv.IsType() {
				return nil
			}
			t = tv.Type
		} else {
			mem, ok := sp.Members[tn].(*ssa.Type)
			if !ok {
				return nil
			}
			t = mem.Type()
		}
		if ptr {
			t = types.NewPointer(t)
		}
		sel := p.prog.MethodSets.MethodSet(t).Lookup(sp.Pkg, m)
		if sel == nil {
			return nil
		}
		fn := p.prog.MethodValue(sel)
		if fn != nil && fn.Synthetic != "" {
			// declared with the other receiver kind
			if o := p.prog.FuncValue(sel.Obj().(*types.Func)); o != nil {
				return o
			}
		}
		return fn
	}
	f, _ := sp.Members[name].(*ssa.Function)
	return f
}

// directives reads the //vc: lines of a contract file.
func (p *Program) directives(sp *ssa.Package, f *ast.File) error {
	for _, cg := range f.Comments {
		for _, c := range cg.List {
			if strings.HasPrefix(c.Text, "//vc:pure ") {
				for _, n := range strings.Split(strings.TrimPrefix(c.Text, "//vc:pure "), ";") {
					p.pure[strings.TrimSpace(n)] = true
				}
			}
			if strings.HasPrefix(c.Text, "//vc:nondet ") {
				for _, n := range strings.Split(strings.TrimPrefix(c.Text, "//vc:nondet "), ";") {
					p.nondet[strings.TrimSpace(n)] = true
				}
			}
			if strings.HasPrefix(c.Text, "//vc:maypanic ") {
				for _, n := range strings.Split(strings.TrimPrefix(c.Text, "//vc:maypanic "), ";") {
					p.pure[strings.TrimSpace(n)] = true
					p.mayPanic[strings.TrimSpace(n)] = true
				}
			}
			if strings.HasPrefix(c.Text, "//vc:iface ") {
				p.iface(strings.TrimSpace(strings.TrimPrefix(c.Text, "//vc:iface ")))
			}
		}
	}
	for _, d := range f.Decls {
		fd, ok := d.(*ast.FuncDecl)
		if !ok || fd.Doc == nil {
			continue
		}
		fn, _ := sp.Members[fd.Name.Name].(*ssa.Function)
		if fn == nil {
			continue
		}
		for _, c := range fd.Doc.List {
			t := strings.TrimSpace(c.Text)
			switch {
			case strings.HasPrefix(t, "//vc:target "):
				fs := strings.Fields(strings.TrimPrefix(t, "//vc:target "))
				ct := &Contract{Pkg: sp.Pkg.Name(), Name: sp.Pkg.Name() + "." + fs[0], Wrapper: fn, Uses: map[string]bool{}, InlinedFns: map[string]bool{}}
				further := false
				for _, o := range fs[1:] {
					kv := strings.SplitN(o, "=", 2)
					v := ""
					if len(kv) > 1 {
						v = kv[1]
					}
					member := func(n string) *ssa.Function {
						m, _ := sp.Members[n].(*ssa.Function)
						if m == nil {
							ct.Missing = "contract part " + n + " does not fit the code"
						}
						return m
					}
					switch kv[0] {
					case "opaque":
						if ct.Opaque == nil {
							ct.Opaque = map[string]bool{}
						}
						for _, n := range strings.Split(v, ",") {
							ct.Opaque[n] = true
						}
					case "nonative":
						ct.NoNative = true
					case "implements":
						ct.Implements = strings.Split(v, ",")
					case "inline":
						ct.Inline = true
					case "fresh":
						ct.Fresh = true
					case "props":
						ct.Props = strings.Split(v, ",")
					case "frame":
						ct.FrameProps = strings.Split(v, ",")
					case "safety":
						ct.SafetyProps = strings.Split(v, ",")
					case "req":
						ct.Req = member(v)
					case "facts":
						ct.Facts = member(v)
					case "ret":
						ct.Ret = member(v)
					case "updates":
						ct.Updates = v
					case "steps":
						fmt.Sscanf(v, "%d", &ct.MaxSteps)
					case "case": // a further contract of a function, for a part of its inputs; callers see the first
						further = true
						ct.Name += "/" + v
					case "name":
						ct.Name = sp.Pkg.Name() + "." + v
					default:
						return fmt.Errorf("directive %s: unknown option %s", t, o)
					}
				}
				if ct.FrameProps == nil {
					ct.FrameProps = ct.Props
				}
				if ct.SafetyProps == nil {
					ct.SafetyProps = ct.Props
				}
				if fs[0] != "-" { // "-": a lemma, no function of its own
					ct.Fn = p.findFn(sp, fs[0])
					if ct.Fn == nil {
						ct.Missing = "function " + fs[0] + " not found"
					} else {
						if !further {
							p.contractOf[ct.Fn] = ct
						}
					}
				}
				p.Targets = append(p.Targets, ct)
			case strings.HasPrefix(t, "//vc:stub "):
				n, forTarget, _ := strings.Cut(strings.TrimSpace(strings.TrimPrefix(t, "//vc:stub ")), " for=")
				if o, ok := strings.CutPrefix(n, "self "); ok { // a function of the package
					if f := p.findFn(sp, o); f != nil {
						if g := f.Origin(); g != nil {
							f = g
						}
						n = f.RelString(nil)
					} else {
						n = "self " + o
					}
				}
				if forTarget != "" {
					n += "@" + sp.Pkg.Name() + "." + forTarget
				}
				if p.stubs[n] == nil {
					p.stubs[n] = map[*ssa.Package]*ssa.Function{}
				}
				p.stubs[n][fn.Pkg] = fn
			case strings.HasPrefix(t, "//vc:inv"):
				iv := &invFn{fn: fn}
				for _, n := range strings.Fields(strings.TrimPrefix(t, "//vc:inv")) {
					iv.targets = append(iv.targets, sp.Pkg.Name()+"."+n)
				}
				p.invs = append(p.invs, iv)
			case t == "//vc:merge":
				p.mergeSpecs[fn] = true
			case strings.HasPrefix(t, "//vc:rec"):
				p.recSpecs[fn] = true
			case strings.HasPrefix(t, "//vc:extfacts "):
				p.extFacts[strings.TrimSpace(strings.TrimPrefix(t, "//vc:extfacts "))] = fn
			case strings.HasPrefix(t, "//vc:ifacereq "):
				k := strings.TrimSpace(strings.TrimPrefix(t, "//vc:ifacereq "))
				p.iface(k).Req = fn
			case strings.HasPrefix(t, "//vc:ifacefacts "):
				p.iface(strings.TrimSpace(strings.TrimPrefix(t, "//vc:ifacefacts "))).Facts = fn
			}
		}
	}
	return nil
}

func (p *Program) iface(k string) *ifaceContract {
	c := p.ifaces[k]
	if c == nil {
		c = &ifaceContract{Key: k}
		p.ifaces[k] = c
	}
	return c
}
