package main

// Loads and type-checks the packages of the repository from source (plus
// optional lemma files injected into a package), resolving imports from the
// compiler's export data.

import (
	"bytes"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
)

type Pkg struct {
	Path  string
	Dir   string
	Short string // path relative to the module, "" for the root
	Files []*ast.File
	Types *types.Package
	Info  *types.Info
}

type Program struct {
	Fset  *token.FileSet
	Mod   string
	Dir   string
	Pkgs  map[string]*Pkg // by import path
	Decls map[*types.Func]*FuncInfo
	ByKey map[string]*FuncInfo
	Src   map[string][]byte
}

type FuncInfo struct {
	Key  string
	Pkg  *Pkg
	Decl *ast.FuncDecl
	Obj  *types.Func
}

type listPkg struct {
	ImportPath string
	Dir        string
	Export     string
	GoFiles    []string
	Standard   bool
	Module     *struct{ Path, Dir string }
	Imports    []string
}

func goList(dir string) ([]listPkg, error) {
	if f := os.Getenv("GVC_LIST"); f != "" {
		if b, err := os.ReadFile(f); err == nil {
			var ps []listPkg
			if json.Unmarshal(b, &ps) == nil && len(ps) > 0 {
				return ps, nil
			}
		}
	}
	cmd := exec.Command("go", "list", "-e", "-export", "-deps", "-json=ImportPath,Dir,Export,GoFiles,Standard,Module,Imports", "./...")
	cmd.Dir = dir
	var out, errb bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &errb
	if err := cmd.Run(); err != nil {
		return nil, fmt.Errorf("go list: %v: %s", err, errb.String())
	}
	dec := json.NewDecoder(&out)
	var ps []listPkg
	for {
		var p listPkg
		if err := dec.Decode(&p); err == io.EOF {
			break
		} else if err != nil {
			return nil, err
		}
		ps = append(ps, p)
	}
	return ps, nil
}

type mixImporter struct {
	src map[string]*types.Package
	gc  types.Importer
}

func (m *mixImporter) Import(path string) (*types.Package, error) {
	if p, ok := m.src[path]; ok {
		return p, nil
	}
	return m.gc.Import(path)
}

// Load reads the module at dir; extra maps an import path to extra Go files
// (absolute names) that are checked as part of that package.
func Load(dir string, extra map[string][]string) (*Program, error) {
	ps, err := goList(dir)
	if err != nil {
		return nil, err
	}
	prog := &Program{Fset: token.NewFileSet(), Dir: dir, Pkgs: map[string]*Pkg{}, Decls: map[*types.Func]*FuncInfo{}, ByKey: map[string]*FuncInfo{}, Src: map[string][]byte{}}
	exports := map[string]string{}
	var own []listPkg
	for _, p := range ps {
		if p.Export != "" {
			exports[p.ImportPath] = p.Export
		}
		if p.Module != nil && filepath.Clean(p.Module.Dir) == filepath.Clean(dir) {
			own = append(own, p)
			prog.Mod = p.Module.Path
		}
	}
	gc := importer.ForCompiler(prog.Fset, "gc", func(path string) (io.ReadCloser, error) {
		f, ok := exports[path]
		if !ok {
			return nil, fmt.Errorf("no export data for %s", path)
		}
		return os.Open(f)
	})
	imp := &mixImporter{src: map[string]*types.Package{}, gc: gc}
	for _, p := range own { // -deps lists dependencies first
		pkg := &Pkg{Path: p.ImportPath, Dir: p.Dir}
		pkg.Short = strings.TrimPrefix(strings.TrimPrefix(p.ImportPath, prog.Mod), "/")
		var files []string
		for _, f := range p.GoFiles {
			files = append(files, filepath.Join(p.Dir, f))
		}
		files = append(files, extra[pkg.Short]...)
		for _, f := range files {
			src, err := os.ReadFile(f)
			if err != nil {
				return nil, err
			}
			prog.Src[f] = src
			af, err := parser.ParseFile(prog.Fset, f, src, parser.SkipObjectResolution)
			if err != nil {
				return nil, err
			}
			pkg.Files = append(pkg.Files, af)
		}
		pkg.Info = &types.Info{
			Types:      map[ast.Expr]types.TypeAndValue{},
			Defs:       map[*ast.Ident]types.Object{},
			Uses:       map[*ast.Ident]types.Object{},
			Selections: map[*ast.SelectorExpr]*types.Selection{},
			Implicits:  map[ast.Node]types.Object{},
			Scopes:     map[ast.Node]*types.Scope{},
			Instances:  map[*ast.Ident]types.Instance{},
		}
		conf := types.Config{Importer: imp, Sizes: types.SizesFor("gc", "amd64"), Error: func(error) {}}
		tp, err := conf.Check(p.ImportPath, prog.Fset, pkg.Files, pkg.Info)
		if err != nil {
			return nil, fmt.Errorf("type-checking %s: %v", p.ImportPath, err)
		}
		pkg.Types = tp
		imp.src[p.ImportPath] = tp
		prog.Pkgs[p.ImportPath] = pkg
		for _, f := range pkg.Files {
			for _, d := range f.Decls {
				fd, ok := d.(*ast.FuncDecl)
				if !ok || fd.Body == nil {
					continue
				}
				obj, _ := pkg.Info.Defs[fd.Name].(*types.Func)
				if obj == nil {
					continue
				}
				fi := &FuncInfo{Key: funcKey(pkg.Short, obj), Pkg: pkg, Decl: fd, Obj: obj}
				prog.Decls[obj] = fi
				prog.ByKey[fi.Key] = fi
			}
		}
	}
	return prog, nil
}

// funcKey names a function as pkg.Func or pkg.Type.Method ("root" for the
// module's root package).
func funcKey(short string, obj *types.Func) string {
	p := short
	if p == "" {
		p = "root"
	}
	sig := obj.Type().(*types.Signature)
	if r := sig.Recv(); r != nil {
		t := r.Type()
		if pt, ok := t.(*types.Pointer); ok {
			t = pt.Elem()
		}
		if n, ok := t.(*types.Named); ok {
			return p + "." + n.Obj().Name() + "." + obj.Name()
		}
	}
	return p + "." + obj.Name()
}

func (p *Program) sortedKeys() []string {
	var ks []string
	for k := range p.ByKey {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

// pkgNamed finds a package by the name contracts use for it ("root" for the
// module's own package).
func (p *Program) pkgNamed(name string) *Pkg {
	for _, q := range p.Pkgs {
		if filepath.Base(q.Short) == name || name == "root" && q.Short == "" {
			return q
		}
	}
	return nil
}
