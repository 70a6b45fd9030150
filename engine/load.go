package main

import (
	"fmt"
	"go/types"
	"os"
	"path/filepath"
	"strings"
	"sync"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
	"golang.org/x/tools/go/types/typeutil"
)

// Program is the SSA form of /repo plus the harness packages.
type Program struct {
	ssa   *ssa.Program
	pkgs  map[string]*ssa.Package
	sizes types.Sizes
	rtErr types.Type

	mu    sync.Mutex
	canon typeutil.Map
	ids   sync.Map // types.Type -> int
	nids  int
	impl  sync.Map
	msets typeutil.MethodSetCache
}

// harnessOverlay maps the harness sources into /repo/zzverif.
func harnessOverlay(repo, hdir string) (map[string]string, []string, error) {
	files := map[string]string{}
	dirs := map[string]bool{}
	err := filepath.Walk(hdir, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		if fi.IsDir() || !strings.HasSuffix(p, ".go") {
			return nil
		}
		rel, _ := filepath.Rel(hdir, p)
		files[filepath.Join(repo, "zzverif", rel)] = p
		dirs[filepath.Dir(rel)] = true
		return nil
	})
	var ds []string
	for d := range dirs {
		ds = append(ds, d)
	}
	return files, ds, err
}

func loadProgram(repo, hdir string, pats []string) (*Program, error) {
	files, _, err := harnessOverlay(repo, hdir)
	if err != nil {
		return nil, err
	}
	ov := map[string][]byte{}
	for dst, src := range files {
		b, err := os.ReadFile(src)
		if err != nil {
			return nil, err
		}
		ov[dst] = b
	}
	cfg := &packages.Config{
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports | packages.NeedDeps |
			packages.NeedTypes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedTypesSizes,
		Dir:     repo,
		Overlay: ov,
		Env:     os.Environ(),
	}
	pkgs, err := packages.Load(cfg, pats...)
	if err != nil {
		return nil, err
	}
	var errs []string
	packages.Visit(pkgs, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
	})
	if len(errs) > 0 {
		return nil, fmt.Errorf("load errors: %s", strings.Join(errs, "; "))
	}
	prog, _ := ssautil.AllPackages(pkgs, ssa.InstantiateGenerics)
	prog.Build()
	p := &Program{ssa: prog, pkgs: map[string]*ssa.Package{}, sizes: types.SizesFor("gc", "amd64")}
	for _, x := range prog.AllPackages() {
		p.pkgs[x.Pkg.Path()] = x
	}
	p.rtErr = types.Typ[types.String]
	if rt := p.pkgs["runtime"]; rt != nil {
		if o := rt.Pkg.Scope().Lookup("plainError"); o != nil {
			p.rtErr = o.Type()
		}
	}
	return p, nil
}

func (p *Program) typeID(t types.Type) int {
	if v, ok := p.ids.Load(t); ok {
		return v.(int)
	}
	p.mu.Lock()
	defer p.mu.Unlock()
	if v := p.canon.At(t); v != nil {
		p.ids.Store(t, v)
		return v.(int)
	}
	p.nids++
	p.canon.Set(t, p.nids)
	p.ids.Store(t, p.nids)
	return p.nids
}

func (p *Program) identical(a, b types.Type) bool {
	return a == b || p.typeID(a) == p.typeID(b)
}

func (p *Program) implements(t types.Type, it *types.Interface) bool {
	k := [2]int{p.typeID(t), p.typeID(it)}
	if v, ok := p.impl.Load(k); ok {
		return v.(bool)
	}
	p.mu.Lock()
	v := types.Implements(t, it)
	p.mu.Unlock()
	p.impl.Store(k, v)
	return v
}

func (p *Program) lookupMethod(t types.Type, meth *types.Func) *ssa.Function {
	p.mu.Lock()
	defer p.mu.Unlock()
	sel := p.msets.MethodSet(t).Lookup(meth.Pkg(), meth.Name())
	if sel == nil {
		return nil
	}
	return p.ssa.MethodValue(sel)
}

func (p *Program) lookupMethodName(t types.Type, name string) *ssa.Function {
	p.mu.Lock()
	defer p.mu.Unlock()
	ms := p.msets.MethodSet(t)
	for i := 0; i < ms.Len(); i++ {
		if ms.At(i).Obj().Name() == name {
			return p.ssa.MethodValue(ms.At(i))
		}
	}
	return nil
}

func (p *Program) sizeof(t types.Type) uintptr {
	p.mu.Lock()
	defer p.mu.Unlock()
	return uintptr(p.sizes.Sizeof(t))
}

func (p *Program) fn(pkg, name string) *ssa.Function {
	sp := p.pkgs[pkg]
	if sp == nil {
		panic(pathEnd{"unsupported", "package " + pkg + " not loaded"})
	}
	f := sp.Func(name)
	if f == nil {
		panic(pathEnd{"unsupported", "function " + pkg + "." + name + " not found"})
	}
	return f
}

// stubOK lists body-less functions with no effect on results.
func (p *Program) stubOK(fn *ssa.Function) bool {
	switch fn.String() {
	case "runtime.KeepAlive", "internal/race.Acquire", "internal/race.Release", "internal/race.ReleaseMerge", "internal/race.Enable", "internal/race.Disable",
		"internal/race.Write", "internal/race.Read", "runtime.GC", "runtime.Gosched":
		return true
	}
	return false
}
