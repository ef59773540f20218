package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"sort"
	"strings"
	"sync"
)

const modPath = "github.com/succinctlabs/gnark-plonky2-verifier"

// Pkg is one type-checked package.
type Pkg struct {
	Path  string
	Dir   string
	Files []*ast.File
	Types *types.Package
	Info  *types.Info // only for packages whose bodies are analysed
	Repo  bool
	Spec  bool
}

// World is the loaded program: every package of the repository with bodies, everything
// it depends on with declarations only, and the specification package.
type World struct {
	Fset  *token.FileSet
	Pkgs  map[string]*Pkg
	Decls map[*types.Func]*FuncSrc
	Order []*Pkg // repo packages in dependency order, then inlined std, then spec
	Sizes types.Sizes
}

// FuncSrc is the source of a function or method with a body.
type FuncSrc struct {
	Decl *ast.FuncDecl
	Pkg  *Pkg
	Obj  *types.Func
}

type listPkg struct {
	ImportPath string
	Dir        string
	GoFiles    []string
	Imports    []string
	ImportMap  map[string]string
	Standard   bool
	Module     *struct{ Path string }
}

// std packages whose bodies are interpreted rather than modelled
var inlineStd = map[string]bool{"slices": true, "sort": true, "maps": true, "cmp": true, "errors": false,
	"strings": true, "bytes": true, "io": true, "math/bits": true, "unicode/utf8": true, "container/list": true, "container/heap": true,
	"container/ring": true, "path": true, "iter": true, "internal/stringslite": true, "encoding/binary": true, "strconv": true,
	"encoding/hex": true, "unicode": true, "sync": true, "sync/atomic": true, "math": true, "internal/byteorder": true}

func goList(repo string) ([]*listPkg, error) {
	cmd := exec.Command("/usr/local/bin/go1.23", "list", "-e", "-deps", "-json=ImportPath,Dir,GoFiles,Imports,ImportMap,Standard,Module", "./...", "slices", "sort", "maps", "cmp", "strings", "strconv", "errors", "sync", "math/bits", "bytes", "sync/atomic", "container/list", "container/heap", "container/ring", "path", "encoding/binary", "encoding/hex")
	cmd.Dir = repo
	cmd.Env = append(os.Environ(), "HOME=/root", "GOTOOLCHAIN=local", "GOPROXY=off", "GOFLAGS=-mod=mod", "CGO_ENABLED=0", "GOCACHE=/root/.cache/go-build", "GOMODCACHE=/root/go/pkg/mod", "GOWORK=off")
	var errb strings.Builder
	cmd.Stderr = &errb
	out, err := cmd.Output()
	if err != nil {
		return nil, fmt.Errorf("go list: %v: %s", err, errb.String())
	}
	dec := json.NewDecoder(strings.NewReader(string(out)))
	var res []*listPkg
	for dec.More() {
		p := &listPkg{}
		if err := dec.Decode(p); err != nil {
			return nil, err
		}
		res = append(res, p)
	}
	return res, nil
}

type mapImporter struct {
	w  *World
	im map[string]string
}

func (m mapImporter) Import(path string) (*types.Package, error) {
	if m.im != nil {
		if q, ok := m.im[path]; ok {
			path = q
		}
	}
	if path == "unsafe" {
		return types.Unsafe, nil
	}
	if p, ok := m.w.Pkgs[path]; ok && p.Types != nil {
		return p.Types, nil
	}
	return nil, fmt.Errorf("package %s not loaded", path)
}

func newInfo() *types.Info {
	return &types.Info{
		Types:      map[ast.Expr]types.TypeAndValue{},
		Defs:       map[*ast.Ident]types.Object{},
		Uses:       map[*ast.Ident]types.Object{},
		Selections: map[*ast.SelectorExpr]*types.Selection{},
		Implicits:  map[ast.Node]types.Object{},
		Scopes:     map[ast.Node]*types.Scope{},
		Instances:  map[*ast.Ident]types.Instance{},
	}
}

// Load type-checks /repo's current working tree.
func Load(repo, specDir string) (*World, error) {
	lps, err := goList(repo)
	if err != nil {
		return nil, err
	}
	w := &World{Fset: token.NewFileSet(), Pkgs: map[string]*Pkg{}, Decls: map[*types.Func]*FuncSrc{}, Sizes: types.SizesFor("gc", "amd64")}
	parsed := make([][]*ast.File, len(lps))
	errs := make([]error, len(lps))
	var wg sync.WaitGroup
	sem := make(chan struct{}, runtime.NumCPU())
	isFull := func(lp *listPkg) bool {
		return (lp.Module != nil && lp.Module.Path == modPath) || inlineStd[lp.ImportPath]
	}
	for i, lp := range lps {
		wg.Add(1)
		go func(i int, lp *listPkg) {
			defer wg.Done()
			sem <- struct{}{}
			defer func() { <-sem }()
			mode := parser.SkipObjectResolution
			if isFull(lp) {
				mode |= parser.ParseComments
			}
			for _, f := range lp.GoFiles {
				af, err := parser.ParseFile(w.Fset, filepath.Join(lp.Dir, f), nil, mode)
				if err != nil {
					errs[i] = err
					return
				}
				if !isFull(lp) {
					stripBodies(af)
				}
				parsed[i] = append(parsed[i], af)
			}
		}(i, lp)
	}
	wg.Wait()
	done := make([]chan struct{}, len(lps))
	idx := map[string]int{}
	for i, lp := range lps {
		done[i] = make(chan struct{})
		idx[lp.ImportPath] = i
		p := &Pkg{Path: lp.ImportPath, Dir: lp.Dir, Files: parsed[i]}
		p.Repo = lp.Module != nil && lp.Module.Path == modPath
		w.Pkgs[lp.ImportPath] = p
	}
	var mu sync.Mutex
	var firstErr error
	fail := func(e error) {
		mu.Lock()
		if firstErr == nil {
			firstErr = e
		}
		mu.Unlock()
	}
	for i, lp := range lps {
		wg.Add(1)
		go func(i int, lp *listPkg) {
			defer wg.Done()
			defer close(done[i])
			for _, im := range lp.Imports {
				if q, ok := lp.ImportMap[im]; ok {
					im = q
				}
				if j, ok := idx[im]; ok {
					<-done[j]
				}
			}
			sem <- struct{}{}
			defer func() { <-sem }()
			p := w.Pkgs[lp.ImportPath]
			if lp.ImportPath == "unsafe" {
				p.Types = types.Unsafe
				return
			}
			full := isFull(lp)
			if errs[i] != nil && full {
				fail(errs[i])
				return
			}
			var info *types.Info
			if full {
				info = newInfo()
			}
			conf := types.Config{Importer: mapImporter{w, lp.ImportMap}, IgnoreFuncBodies: !full, Sizes: w.Sizes, FakeImportC: true}
			if full && p.Repo {
				conf.GoVersion = "go1.20"
			}
			var terr error
			conf.Error = func(e error) {
				if terr == nil {
					terr = e
				}
			}
			tp, _ := conf.Check(lp.ImportPath, w.Fset, p.Files, info)
			p.Types = tp
			p.Info = info
			if terr != nil && full && p.Repo {
				fail(fmt.Errorf("type error: %v", terr))
			}
		}(i, lp)
	}
	wg.Wait()
	if firstErr != nil {
		return nil, firstErr
	}
	for _, lp := range lps {
		p := w.Pkgs[lp.ImportPath]
		if p.Info != nil {
			w.Order = append(w.Order, p)
		}
	}
	if specDir != "" {
		if err := w.loadSpec(specDir); err != nil {
			return nil, err
		}
	}
	for _, p := range w.Order {
		for _, f := range p.Files {
			for _, d := range f.Decls {
				if fd, ok := d.(*ast.FuncDecl); ok && fd.Body != nil {
					if obj, ok := p.Info.Defs[fd.Name].(*types.Func); ok {
						w.Decls[obj] = &FuncSrc{fd, p, obj}
					}
				}
			}
		}
	}
	return w, nil
}

func (w *World) loadSpec(dir string) error {
	names, err := filepath.Glob(filepath.Join(dir, "*.go"))
	if err != nil {
		return err
	}
	sort.Strings(names)
	p := &Pkg{Path: "verif/spec", Dir: dir, Spec: true}
	for _, n := range names {
		f, err := parser.ParseFile(w.Fset, n, nil, parser.SkipObjectResolution|parser.ParseComments)
		if err != nil {
			return err
		}
		p.Files = append(p.Files, f)
	}
	p.Info = newInfo()
	conf := types.Config{Importer: mapImporter{w, nil}, Sizes: w.Sizes}
	var first error
	n := 0
	conf.Error = func(e error) {
		if first == nil {
			first = e
		}
		if n < 20 {
			fmt.Fprintln(os.Stderr, "spec:", e)
		}
		n++
	}
	tp, _ := conf.Check(p.Path, w.Fset, p.Files, p.Info)
	if first != nil {
		return fmt.Errorf("the public API used by the specification no longer type-checks: %v", first)
	}
	p.Types = tp
	w.Pkgs[p.Path] = p
	w.Order = append(w.Order, p)
	return nil
}

func stripBodies(f *ast.File) {
	for _, d := range f.Decls {
		if fd, ok := d.(*ast.FuncDecl); ok && fd.Body != nil {
			fd.Body = &ast.BlockStmt{Lbrace: fd.Body.Lbrace, Rbrace: fd.Body.Rbrace}
		}
	}
}

func (w *World) Pos(p token.Pos) string {
	if !p.IsValid() {
		return "?"
	}
	ps := w.Fset.Position(p)
	fn := ps.Filename
	if i := strings.Index(fn, "/repo/"); i == 0 {
		fn = fn[len("/repo/"):]
	} else if strings.HasPrefix(fn, "/verif/") {
		fn = fn[len("/verif/"):]
	}
	return fmt.Sprintf("%s:%d", fn, ps.Line)
}
