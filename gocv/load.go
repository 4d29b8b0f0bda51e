package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
)

// Pkg is one package of /repo, parsed and type checked from its current source.
type Pkg struct {
	Path  string
	Files []*ast.File
	Types *types.Package
	Info  *types.Info
}

// Prog holds all packages of the repository that the targets depend on.
type Prog struct {
	Fset    *token.FileSet
	Pkgs    map[string]*Pkg
	Funcs   map[*types.Func]*FuncSrc
	ByKey   map[string]*FuncSrc // "pkgpath.Name" or "pkgpath.T.Name"
	RepoDir string
	cur     *token.FileSet
	imp     types.Importer
}

type FuncSrc struct {
	Key  string
	Decl *ast.FuncDecl
	Pkg  *Pkg
	Obj  *types.Func
}

type listPkg struct {
	ImportPath string
	Dir        string
	GoFiles    []string
	CgoFiles   []string
	Export     string
	Standard   bool
	Module     *struct{ Path, Dir string }
	Imports    []string
	ImportMap  map[string]string
	Error      *struct{ Err string }
}

type progImporter struct {
	p  *Prog
	gc types.Importer
}

func (i progImporter) Import(path string) (*types.Package, error) {
	if pk, ok := i.p.Pkgs[path]; ok && pk.Types != nil {
		return pk.Types, nil
	}
	return i.gc.Import(path)
}

func loadProg(repo string, patterns []string) (*Prog, error) {
	args := append([]string{"list", "-e", "-export", "-deps", "-json=ImportPath,Dir,GoFiles,CgoFiles,Export,Standard,Module,Imports,ImportMap,Error"}, patterns...)
	cmd := exec.Command("go", args...)
	cmd.Dir = repo
	cmd.Stderr = os.Stderr
	out, err := cmd.Output()
	if err != nil {
		return nil, fmt.Errorf("go list: %w", err)
	}
	dec := json.NewDecoder(strings.NewReader(string(out)))
	p := &Prog{Fset: token.NewFileSet(), Pkgs: map[string]*Pkg{}, Funcs: map[*types.Func]*FuncSrc{},
		ByKey: map[string]*FuncSrc{}, RepoDir: repo}
	exports := map[string]string{}
	var own []listPkg
	repoAbs, _ := filepath.Abs(repo)
	for {
		var lp listPkg
		if err := dec.Decode(&lp); err == io.EOF {
			break
		} else if err != nil {
			return nil, err
		}
		if lp.Error != nil {
			return nil, fmt.Errorf("package %s: %s", lp.ImportPath, lp.Error.Err)
		}
		if lp.Export != "" {
			exports[lp.ImportPath] = lp.Export
		}
		if !lp.Standard && strings.HasPrefix(lp.Dir, repoAbs+"/") {
			own = append(own, lp)
		}
	}
	lookup := func(path string) (io.ReadCloser, error) {
		f, ok := exports[path]
		if !ok {
			return nil, fmt.Errorf("no export data for %s", path)
		}
		return os.Open(f)
	}
	gc := importer.ForCompiler(p.Fset, "gc", lookup)
	imp := progImporter{p, gc}
	for _, lp := range own { // go list -deps is in dependency order
		pk := &Pkg{Path: lp.ImportPath, Info: &types.Info{
			Types: map[ast.Expr]types.TypeAndValue{}, Defs: map[*ast.Ident]types.Object{},
			Uses: map[*ast.Ident]types.Object{}, Selections: map[*ast.SelectorExpr]*types.Selection{},
			Instances: map[*ast.Ident]types.Instance{}, Implicits: map[ast.Node]types.Object{},
			Scopes: map[ast.Node]*types.Scope{},
		}}
		for _, f := range lp.GoFiles {
			af, err := parser.ParseFile(p.Fset, filepath.Join(lp.Dir, f), nil, parser.ParseComments)
			if err != nil {
				return nil, err
			}
			pk.Files = append(pk.Files, af)
		}
		conf := types.Config{Importer: imp, Sizes: types.SizesFor("gc", "amd64")}
		tp, err := conf.Check(lp.ImportPath, p.Fset, pk.Files, pk.Info)
		if err != nil {
			return nil, err
		}
		pk.Types = tp
		p.Pkgs[lp.ImportPath] = pk
		for _, f := range pk.Files {
			for _, d := range f.Decls {
				fd, ok := d.(*ast.FuncDecl)
				if !ok {
					continue
				}
				obj, _ := pk.Info.Defs[fd.Name].(*types.Func)
				if obj == nil {
					continue
				}
				fs := &FuncSrc{Key: funcKey(obj), Decl: fd, Pkg: pk, Obj: obj}
				p.Funcs[obj] = fs
				p.ByKey[fs.Key] = fs
			}
		}
	}
	return p, nil
}

// funcKey gives "pkgpath.Name" for functions and "pkgpath.T.Name" for methods.
func funcKey(f *types.Func) string {
	f = f.Origin()
	pk := ""
	if f.Pkg() != nil {
		pk = f.Pkg().Path()
	}
	sig := f.Type().(*types.Signature)
	if r := sig.Recv(); r != nil {
		t := r.Type()
		if pt, ok := t.(*types.Pointer); ok {
			t = pt.Elem()
		}
		switch t := t.(type) {
		case *types.Named:
			if t.Obj().Pkg() != nil {
				pk = t.Obj().Pkg().Path()
			}
			return pk + "." + t.Obj().Name() + "." + f.Name()
		}
		return pk + ".?." + f.Name()
	}
	return pk + "." + f.Name()
}

func sortedKeys[V any](m map[string]V) []string {
	ks := make([]string, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}
