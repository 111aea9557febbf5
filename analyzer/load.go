package main

// Loader: parses and type-checks the packages of /repo from their current
// source and builds SSA for them.  Standard library packages are type-checked
// from GOROOT source without bodies.

import (
	"fmt"
	"go/ast"
	"go/build"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Pkg struct {
	path  string
	dir   string
	files []*ast.File
	types *types.Package
	info  *types.Info
	ssa   *ssa.Package
}

type Loader struct {
	callerIdx map[*ssa.Function][]*ssa.Function
	root      string
	modPath   string
	goVer     string
	fset      *token.FileSet
	prog      *ssa.Program
	pkgs      map[string]*Pkg
	order     []*Pkg
	loading   map[string]bool
	std       types.ImporterFrom
	errs      []error
	bigInt    types.Type
}

func loadRepo(root string) (*Loader, error) {
	ld := &Loader{root: root, fset: token.NewFileSet(), pkgs: map[string]*Pkg{}, loading: map[string]bool{}}
	mod, err := os.ReadFile(filepath.Join(root, "go.mod"))
	if err != nil {
		return nil, err
	}
	for _, l := range strings.Split(string(mod), "\n") {
		f := strings.Fields(l)
		if len(f) >= 2 && f[0] == "module" {
			ld.modPath = f[1]
		}
		if len(f) >= 2 && f[0] == "go" {
			ld.goVer = "go" + f[1]
		}
	}
	build.Default.CgoEnabled = false
	ld.std = importer.ForCompiler(ld.fset, "source", nil).(types.ImporterFrom)
	var dirs []string
	filepath.Walk(root, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return nil
		}
		if fi.IsDir() {
			n := fi.Name()
			if p != root && (strings.HasPrefix(n, ".") || strings.HasPrefix(n, "_") || n == "testdata" || n == "vendor") {
				return filepath.SkipDir
			}
			dirs = append(dirs, p)
		}
		return nil
	})
	sort.Strings(dirs)
	for _, d := range dirs {
		bp, err := build.Default.ImportDir(d, 0)
		if err != nil {
			if _, ok := err.(*build.NoGoError); ok {
				continue
			}
			return nil, fmt.Errorf("%s: %v", d, err)
		}
		if bp.Name == "main" {
			continue
		}
		rel, _ := filepath.Rel(root, d)
		path := ld.modPath
		if rel != "." {
			path += "/" + filepath.ToSlash(rel)
		}
		if _, err := ld.Import(path); err != nil {
			return nil, err
		}
	}
	if len(ld.errs) > 0 {
		return nil, ld.errs[0]
	}
	big, err := ld.std.Import("math/big")
	if err != nil {
		return nil, err
	}
	ld.bigInt = big.Scope().Lookup("Int").Type()
	ld.buildSSA()
	return ld, nil
}

func (ld *Loader) Import(path string) (*types.Package, error) { return ld.ImportFrom(path, "", 0) }
func (ld *Loader) ImportFrom(path, dir string, mode types.ImportMode) (*types.Package, error) {
	if path == "unsafe" {
		return types.Unsafe, nil
	}
	if path != ld.modPath && !strings.HasPrefix(path, ld.modPath+"/") {
		if dir == "" {
			dir = ld.root
		}
		return ld.std.ImportFrom(path, dir, mode)
	}
	if p := ld.pkgs[path]; p != nil {
		return p.types, nil
	}
	if ld.loading[path] {
		return nil, fmt.Errorf("import cycle through %s", path)
	}
	ld.loading[path] = true
	d := filepath.Join(ld.root, filepath.FromSlash(strings.TrimPrefix(strings.TrimPrefix(path, ld.modPath), "/")))
	bp, err := build.Default.ImportDir(d, 0)
	if err != nil {
		return nil, err
	}
	p := &Pkg{path: path, dir: d}
	for _, f := range bp.GoFiles {
		af, err := parser.ParseFile(ld.fset, filepath.Join(d, f), nil, parser.ParseComments|parser.SkipObjectResolution)
		if err != nil {
			return nil, err
		}
		p.files = append(p.files, af)
	}
	p.info = &types.Info{
		Types: map[ast.Expr]types.TypeAndValue{}, Defs: map[*ast.Ident]types.Object{}, Uses: map[*ast.Ident]types.Object{},
		Implicits: map[ast.Node]types.Object{}, Selections: map[*ast.SelectorExpr]*types.Selection{},
		Scopes: map[ast.Node]*types.Scope{}, Instances: map[*ast.Ident]types.Instance{}, FileVersions: map[*ast.File]string{},
	}
	cfg := types.Config{Importer: ld, GoVersion: ld.goVer, Sizes: types.SizesFor("gc", "amd64"),
		Error: func(err error) { ld.errs = append(ld.errs, err) }}
	tp, err := cfg.Check(path, ld.fset, p.files, p.info)
	if err != nil {
		return nil, err
	}
	p.types = tp
	ld.pkgs[path] = p
	ld.order = append(ld.order, p)
	return tp, nil
}

func (ld *Loader) buildSSA() {
	ld.prog = ssa.NewProgram(ld.fset, ssa.InstantiateGenerics)
	seen := map[*types.Package]bool{}
	var create func(p *types.Package)
	create = func(p *types.Package) {
		if seen[p] {
			return
		}
		seen[p] = true
		for _, q := range p.Imports() {
			create(q)
		}
		if m := ld.pkgs[p.Path()]; m != nil && m.types == p {
			m.ssa = ld.prog.CreatePackage(p, m.files, m.info, true)
			return
		}
		ld.prog.CreatePackage(p, nil, nil, true)
	}
	for _, p := range ld.order {
		create(p.types)
	}
	if big, err := ld.std.Import("math/big"); err == nil {
		create(big)
	}
	for _, p := range ld.order {
		p.ssa.Build()
	}
}

func (ld *Loader) rel(f string) string {
	if r, err := filepath.Rel(ld.root, f); err == nil {
		return r
	}
	return f
}
func (ld *Loader) inModule(p *types.Package) bool {
	if p == nil {
		return false
	}
	return p.Path() == ld.modPath || strings.HasPrefix(p.Path(), ld.modPath+"/")
}
func (ld *Loader) bigIntType() types.Type { return ld.bigInt }

// pkg by path relative to the module ("sm2", "sm2/cert", ...).
func (ld *Loader) pkg(rel string) *Pkg { return ld.pkgs[ld.modPath+"/"+rel] }

// fn looks up a function or method: "Verify", "(*Builder).Bytes", "String.Empty".
func (ld *Loader) fn(rel, name string) *ssa.Function {
	p := ld.pkg(rel)
	if p == nil {
		return nil
	}
	if !strings.Contains(name, ".") {
		return p.ssa.Func(name)
	}
	ptr := strings.HasPrefix(name, "(*")
	name = strings.NewReplacer("(*", "", ")", "").Replace(name)
	i := strings.Index(name, ".")
	tn, mn := name[:i], name[i+1:]
	o, ok := p.types.Scope().Lookup(tn).(*types.TypeName)
	if !ok {
		return nil
	}
	var t types.Type = o.Type()
	if ptr {
		t = types.NewPointer(t)
	}
	sel := ld.prog.MethodSets.MethodSet(t).Lookup(p.types, mn)
	if sel == nil {
		return nil
	}
	return ld.prog.MethodValue(sel)
}

// allFuncs: every source function of the module with a body, closures included.
func (ld *Loader) allFuncs() []*ssa.Function {
	var out []*ssa.Function
	seen := map[*ssa.Function]bool{}
	var add func(f *ssa.Function)
	add = func(f *ssa.Function) {
		if f == nil || seen[f] || len(f.Blocks) == 0 {
			return
		}
		seen[f] = true
		out = append(out, f)
		for _, a := range f.AnonFuncs {
			add(a)
		}
	}
	for _, p := range ld.order {
		var names []string
		for n := range p.ssa.Members {
			names = append(names, n)
		}
		sort.Strings(names)
		for _, n := range names {
			switch m := p.ssa.Members[n].(type) {
			case *ssa.Function:
				add(m)
			case *ssa.Type:
				for _, t := range []types.Type{m.Type(), types.NewPointer(m.Type())} {
					ms := ld.prog.MethodSets.MethodSet(t)
					for i := 0; i < ms.Len(); i++ {
						f := ld.prog.MethodValue(ms.At(i))
						if f != nil && f.Synthetic == "" {
							add(f)
						}
					}
				}
			}
		}
	}
	return out
}

// typ: a package-level type.
func (ld *Loader) typ(rel, name string) types.Type {
	p := ld.pkg(rel)
	if p == nil || p.types == nil {
		return nil
	}
	if o, ok := p.types.Scope().Lookup(name).(*types.TypeName); ok {
		return o.Type()
	}
	return nil
}

// funcsOf: the functions of a package, closures included.
func (ld *Loader) funcsOf(rel string) []*ssa.Function {
	p := ld.pkg(rel)
	var out []*ssa.Function
	for _, f := range ld.allFuncs() {
		if p != nil && f.Pkg == p.ssa {
			out = append(out, f)
		}
	}
	return out
}
