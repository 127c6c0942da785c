package main

// Loading and type checking of the repository under verification.

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
)

type Pkg struct {
	Path  string
	Name  string
	Files []*ast.File
	Types *types.Package
	Info  *types.Info
}

type FuncInfo struct {
	Key  string
	Decl *ast.FuncDecl
	Obj  *types.Func
	Pkg  *Pkg
	Sig  *types.Signature
}

type Program struct {
	Fset  *token.FileSet
	Pkgs  map[string]*Pkg // by import path
	ByPkg map[string]*Pkg // by package name
	Funcs map[string]*FuncInfo
	ByObj map[*types.Func]*FuncInfo
	Root  string
	Mod   string
	Srcs  []string
	imp   types.Importer
}

type listPkg struct {
	ImportPath string
	Name       string
	Dir        string
	Export     string
	GoFiles    []string
	Imports    []string
	Standard   bool
	Module     *struct{ Path string }
	Error      *struct{ Err string }
}

func LoadProgram(root string) (*Program, error) {
	cmd := exec.Command("go", "list", "-e", "-export", "-deps", "-json=ImportPath,Name,Dir,Export,GoFiles,Imports,Standard,Module,Error", "./...")
	cmd.Dir = root
	cmd.Stderr = os.Stderr
	out, err := cmd.Output()
	if err != nil {
		return nil, fmt.Errorf("go list: %v", err)
	}
	dec := json.NewDecoder(strings.NewReader(string(out)))
	exports := map[string]string{}
	var repo []*listPkg
	mod := ""
	for {
		var p listPkg
		if err := dec.Decode(&p); err == io.EOF {
			break
		} else if err != nil {
			return nil, err
		}
		if p.Export != "" {
			exports[p.ImportPath] = p.Export
		}
		if strings.HasPrefix(p.Dir, root+"/") || p.Dir == root {
			q := p
			repo = append(repo, &q)
			if p.Module != nil {
				mod = p.Module.Path
			}
		}
	}
	pr := &Program{Fset: token.NewFileSet(), Pkgs: map[string]*Pkg{}, ByPkg: map[string]*Pkg{}, Funcs: map[string]*FuncInfo{}, ByObj: map[*types.Func]*FuncInfo{}, Root: root, Mod: mod}
	gc := importer.ForCompiler(pr.Fset, "gc", func(path string) (io.ReadCloser, error) {
		f, ok := exports[path]
		if !ok {
			return nil, fmt.Errorf("no export data for %s", path)
		}
		return os.Open(f)
	})
	byPath := map[string]*listPkg{}
	for _, p := range repo {
		byPath[p.ImportPath] = p
	}
	imp := &repoImporter{gc: gc, pr: pr}
	var load func(p *listPkg) error
	loading := map[string]bool{}
	load = func(p *listPkg) error {
		if pr.Pkgs[p.ImportPath] != nil || loading[p.ImportPath] {
			return nil
		}
		loading[p.ImportPath] = true
		for _, i := range p.Imports {
			if q, ok := byPath[i]; ok {
				if err := load(q); err != nil {
					return err
				}
			}
		}
		if len(p.GoFiles) == 0 {
			return nil
		}
		pk := &Pkg{Path: p.ImportPath, Name: p.Name}
		for _, f := range p.GoFiles {
			fn := filepath.Join(p.Dir, f)
			af, err := parser.ParseFile(pr.Fset, fn, nil, parser.ParseComments)
			if err != nil {
				return err
			}
			pk.Files = append(pk.Files, af)
			pr.Srcs = append(pr.Srcs, fn)
		}
		pk.Info = &types.Info{Types: map[ast.Expr]types.TypeAndValue{}, Defs: map[*ast.Ident]types.Object{}, Uses: map[*ast.Ident]types.Object{}, Selections: map[*ast.SelectorExpr]*types.Selection{}, Implicits: map[ast.Node]types.Object{}, Scopes: map[ast.Node]*types.Scope{}}
		conf := types.Config{Importer: imp, GoVersion: "go1.16", Error: func(err error) {}}
		tp, err := conf.Check(p.ImportPath, pr.Fset, pk.Files, pk.Info)
		if err != nil {
			return fmt.Errorf("typecheck %s: %v", p.ImportPath, err)
		}
		pk.Types = tp
		pr.Pkgs[p.ImportPath] = pk
		if pr.ByPkg[p.Name] == nil || p.Name != "main" {
			pr.ByPkg[p.Name] = pk
		}
		for _, f := range pk.Files {
			for _, d := range f.Decls {
				fd, ok := d.(*ast.FuncDecl)
				if !ok {
					continue
				}
				obj, ok := pk.Info.Defs[fd.Name].(*types.Func)
				if !ok {
					continue
				}
				key := funcKey(obj)
				fi := &FuncInfo{Key: key, Decl: fd, Obj: obj, Pkg: pk, Sig: obj.Type().(*types.Signature)}
				if fd.Name.Name != "init" && fd.Name.Name != "_" {
					pr.Funcs[key] = fi
				}
				pr.ByObj[obj] = fi
			}
		}
		return nil
	}
	for _, p := range repo {
		if p.Error != nil {
			return nil, fmt.Errorf("%s: %s", p.ImportPath, p.Error.Err)
		}
		if err := load(p); err != nil {
			return nil, err
		}
	}
	sort.Strings(pr.Srcs)
	pr.imp = imp
	return pr, nil
}

// LoadStubs reads Go bodies that stand for external functions: pkg_F in dir stands for pkg.F.
// A file that does not type check against the current tree (an import is gone, say) is left out.
func (pr *Program) LoadStubs(dir string) {
	fs, _ := filepath.Glob(filepath.Join(dir, "*.go"))
	sort.Strings(fs)
	for _, fn := range fs {
		af, err := parser.ParseFile(pr.Fset, fn, nil, 0)
		if err != nil {
			fmt.Fprintln(os.Stderr, "stub:", err)
			continue
		}
		pk := &Pkg{Path: "stubs/" + filepath.Base(fn), Name: "stubs", Files: []*ast.File{af}}
		pk.Info = &types.Info{Types: map[ast.Expr]types.TypeAndValue{}, Defs: map[*ast.Ident]types.Object{}, Uses: map[*ast.Ident]types.Object{}, Selections: map[*ast.SelectorExpr]*types.Selection{}, Implicits: map[ast.Node]types.Object{}, Scopes: map[ast.Node]*types.Scope{}}
		conf := types.Config{Importer: pr.imp, GoVersion: "go1.16", Error: func(err error) {}}
		tp, err := conf.Check(pk.Path, pr.Fset, pk.Files, pk.Info)
		if err != nil {
			continue
		}
		pk.Types = tp
		for _, d := range af.Decls {
			if fd, ok := d.(*ast.FuncDecl); ok {
				obj := pk.Info.Defs[fd.Name].(*types.Func)
				fi := &FuncInfo{Key: "stubs." + fd.Name.Name, Decl: fd, Obj: obj, Pkg: pk, Sig: obj.Type().(*types.Signature)}
				pr.Funcs[fi.Key] = fi
				pr.ByObj[obj] = fi
			}
		}
	}
}

type repoImporter struct {
	gc types.Importer
	pr *Program
}

func (r *repoImporter) Import(path string) (*types.Package, error) {
	if p, ok := r.pr.Pkgs[path]; ok {
		return p.Types, nil
	}
	return r.gc.Import(path)
}

func recvName(t types.Type) string {
	if p, ok := t.(*types.Pointer); ok {
		t = p.Elem()
	}
	if n, ok := t.(*types.Named); ok {
		return n.Obj().Name()
	}
	return "?"
}

// funcKey gives "pkg.Func" or "pkg.Type.Method".
func funcKey(f *types.Func) string {
	pk := ""
	if f.Pkg() != nil {
		pk = f.Pkg().Name()
	}
	sig := f.Type().(*types.Signature)
	if sig.Recv() != nil {
		return pk + "." + recvName(sig.Recv().Type()) + "." + f.Name()
	}
	return pk + "." + f.Name()
}

func (pr *Program) lookupType(name string) types.Type {
	// "pkg.Type"
	i := strings.Index(name, ".")
	if i < 0 {
		return nil
	}
	p := pr.ByPkg[name[:i]]
	if p == nil {
		// external package
		for _, q := range pr.Pkgs {
			for _, im := range q.Types.Imports() {
				if im.Name() == name[:i] {
					if o := im.Scope().Lookup(name[i+1:]); o != nil {
						return o.Type()
					}
				}
			}
		}
		return nil
	}
	o := p.Types.Scope().Lookup(name[i+1:])
	if o == nil {
		return nil
	}
	if tn, ok := o.(*types.TypeName); ok {
		return tn.Type()
	}
	return nil
}
