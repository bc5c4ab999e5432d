package main

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const (
	repoMod     = "github.com/patrickhuber/go-wasm"
	harnessPath = repoMod + "/internal/zzverif"
)

var repoDir = "/repo"

// World is the type-checked program together with its SSA form.
type World struct {
	fset       *token.FileSet
	pkgs       map[string]*packages.Package
	prog       *ssa.Program
	globalObjs map[string]*Term
	sole       map[string]types.Type
	mods       map[*ssa.Function]map[string]bool
	named      []types.Type
	allFuncs   map[*ssa.Function]bool
	consts     map[*ssa.Package]map[*Term]*Term // values of constant package variables
	mutg       map[*ssa.Global]bool
	hfuncs     map[string]*ssa.Function // reference definitions
	hdocs      map[string]string
	inHarness  map[*ssa.Function]bool
	insts      map[string]types.Type
	prods      map[string]bool
}

// loadWorld type-checks /repo's current working tree plus the in-memory
// reference package.
func loadWorld(overlay map[string][]byte) (*World, error) {
	cfg := &packages.Config{
		Mode:    packages.LoadAllSyntax,
		Dir:     repoDir,
		Env:     append(os.Environ(), "GOFLAGS=-mod=readonly", "GOPROXY=off", "GOWORK=off", "GOTOOLCHAIN=local"),
		Overlay: overlay,
	}
	pats := []string{"./..."}
	for f := range overlay {
		if filepath.Dir(f) == filepath.Join(repoDir, "internal/zzverif") {
			pats = append(pats, harnessPath)
			break
		}
	}
	ps, err := packages.Load(cfg, pats...)
	if err != nil {
		return nil, err
	}
	w := &World{pkgs: map[string]*packages.Package{}, globalObjs: map[string]*Term{}, sole: map[string]types.Type{}, mods: map[*ssa.Function]map[string]bool{}, hdocs: map[string]string{}, inHarness: map[*ssa.Function]bool{}, insts: map[string]types.Type{}}
	var errs []string
	packages.Visit(ps, nil, func(p *packages.Package) {
		w.pkgs[p.PkgPath] = p
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
	})
	if len(errs) > 0 {
		if len(errs) > 5 {
			errs = errs[:5]
		}
		return nil, fmt.Errorf("type check: %s", strings.Join(errs, "; "))
	}
	prog, _ := ssautil.AllPackages(ps, ssa.InstantiateGenerics)
	prog.Build()
	w.prog = prog
	w.fset = prog.Fset
	w.allFuncs = ssautil.AllFunctions(prog)
	var paths []string
	for p := range w.pkgs {
		if isRepoPath(p) {
			paths = append(paths, p)
		}
	}
	sort.Strings(paths)
	for _, p := range paths {
		sc := w.pkgs[p].Types.Scope()
		for _, n := range sc.Names() {
			tn, ok := sc.Lookup(n).(*types.TypeName)
			if !ok || tn.IsAlias() {
				continue
			}
			nt, ok := tn.Type().(*types.Named)
			if !ok || nt.TypeParams().Len() > 0 || types.IsInterface(nt) {
				continue
			}
			w.named = append(w.named, nt)
		}
	}
	w.hfuncs = map[string]*ssa.Function{}
	for _, p := range paths {
		hp := w.pkgs[p]
		for i, f := range hp.Syntax {
			if !strings.HasPrefix(filepath.Base(hp.CompiledGoFiles[i]), harnessPrefix) {
				continue
			}
			for _, d := range f.Decls {
				fd, ok := d.(*ast.FuncDecl)
				if !ok || fd.Recv != nil {
					continue
				}
				n := fd.Name.Name
				if sf := prog.Package(hp.Types).Func(n); sf != nil {
					if w.hfuncs[n] != nil && pairRe.MatchString(n) {
						return nil, fmt.Errorf("reference %s defined twice", n)
					}
					w.hfuncs[n] = sf
				}
				if fd.Doc != nil {
					var ls []string
					for _, c := range fd.Doc.List {
						ls = append(ls, c.Text)
					}
					w.hdocs[n] = strings.Join(ls, "\n")
				}
			}
		}
	}
	return w, nil
}

func (w *World) hfunc(name string) *ssa.Function { return w.hfuncs[name] }

// isHarness reports that fn is part of the reference definitions.
func (w *World) isHarness(fn *ssa.Function) bool {
	r, ok := w.inHarness[fn]
	if !ok {
		r = w.isHarness1(fn)
		w.inHarness[fn] = r
	}
	return r
}

func (w *World) isHarness1(fn *ssa.Function) bool {
	for fn.Parent() != nil {
		fn = fn.Parent()
	}
	if o := fn.Origin(); o != nil {
		fn = o
	}
	if pkgPathOf(fn) == harnessPath {
		return true
	}
	return fn.Pos().IsValid() && strings.HasPrefix(filepath.Base(w.fset.Position(fn.Pos()).Filename), harnessPrefix)
}

func isRepoPath(p string) bool {
	return p == repoMod || strings.HasPrefix(p, repoMod+"/")
}

func pkgPathOf(fn *ssa.Function) string {
	if fn.Pkg != nil {
		return fn.Pkg.Pkg.Path()
	}
	if o := fn.Origin(); o != nil && o.Pkg != nil {
		return o.Pkg.Pkg.Path()
	}
	if fn.Parent() != nil {
		return pkgPathOf(fn.Parent())
	}
	if fn.Object() != nil && fn.Object().Pkg() != nil {
		return fn.Object().Pkg().Path()
	}
	if r := fn.Signature.Recv(); r != nil {
		t := r.Type()
		if p, ok := t.(*types.Pointer); ok {
			t = p.Elem()
		}
		if n, ok := t.(*types.Named); ok && n.Obj().Pkg() != nil {
			return n.Obj().Pkg().Path()
		}
	}
	return ""
}

func (w *World) inlinable(fn *ssa.Function) bool {
	p := pkgPathOf(fn)
	return isRepoPath(p) || strings.HasPrefix(p, "github.com/patrickhuber/go-types")
}

// soleImpl returns the only repository type implementing an interface that
// carries an unexported method (so no other package can implement it).
func (w *World) soleImpl(t types.Type) types.Type {
	k := typeKey(t)
	if r, ok := w.sole[k]; ok {
		return r
	}
	w.sole[k] = nil
	it, ok := t.Underlying().(*types.Interface)
	if !ok || it.NumMethods() == 0 {
		return nil
	}
	closed := false
	for i := 0; i < it.NumMethods(); i++ {
		if !it.Method(i).Exported() {
			closed = true
		}
	}
	if !closed {
		return nil
	}
	var found []types.Type
	for _, n := range w.named {
		if types.Implements(n, it) {
			found = append(found, n)
		} else if p := types.NewPointer(n); types.Implements(p, it) {
			found = append(found, p)
		}
	}
	if len(found) == 1 {
		w.sole[k] = found[0]
	}
	return w.sole[k]
}

// ---- anchors ----

const ioPath = repoMod + "/abi/io"

// anchors are the recursive entry points of the canonical ABI. Applied to a
// type that is not known, they are treated as uninterpreted functions of it;
// applied to a known type constructor they are expanded.
var anchors = map[string]struct {
	arg  int
	mode CallMode
}{
	ioPath + ".Alignment":   {0, modePure},
	ioPath + ".Size":        {0, modePure},
	ioPath + ".FlattenType": {0, modePure},
	ioPath + ".Load":        {1, modeEvent},
	ioPath + ".Store":       {2, modeEvent},
	ioPath + ".LiftFlat":    {2, modeEvent},
	ioPath + ".LowerFlat":   {2, modeEvent},
}

func (w *World) anchorArg(key string) int {
	if a, ok := anchors[key]; ok {
		return a.arg
	}
	return -1
}

// ---- modified fields ----

// modSet is the set of struct fields that fn or anything it may call assigns.
func (w *World) modSet(fn *ssa.Function) map[string]bool {
	if m, ok := w.mods[fn]; ok {
		return m
	}
	m := map[string]bool{}
	seen := map[*ssa.Function]bool{}
	work := []*ssa.Function{fn}
	for len(work) > 0 {
		f := work[len(work)-1]
		work = work[:len(work)-1]
		if seen[f] {
			continue
		}
		seen[f] = true
		if !w.inlinable(f) {
			continue
		}
		for _, a := range f.AnonFuncs {
			work = append(work, a)
		}
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				if s, ok := ins.(*ssa.Store); ok {
					if fa, ok := s.Addr.(*ssa.FieldAddr); ok {
						if _, isAlloc := fa.X.(*ssa.Alloc); isAlloc {
							continue
						}
						st := fa.X.Type().Underlying().(*types.Pointer).Elem()
						m[typeKey(st)+"."+st.Underlying().(*types.Struct).Field(fa.Field).Name()] = true
					}
				}
				ci, ok := ins.(ssa.CallInstruction)
				if !ok {
					continue
				}
				cc := ci.Common()
				if c := cc.StaticCallee(); c != nil {
					work = append(work, c)
				} else if cc.IsInvoke() {
					work = append(work, w.implementors(cc)...)
				}
			}
		}
	}
	w.mods[fn] = m
	return m
}

func (w *World) implementors(cc *ssa.CallCommon) []*ssa.Function {
	var out []*ssa.Function
	it := cc.Value.Type().Underlying().(*types.Interface)
	for _, n := range w.named {
		for _, t := range []types.Type{n, types.NewPointer(n)} {
			if types.Implements(t, it) {
				if f := w.prog.LookupMethod(t, cc.Method.Pkg(), cc.Method.Name()); f != nil {
					out = append(out, f)
				}
				break
			}
		}
	}
	return out
}

func (w *World) pos(p token.Pos) string {
	if !p.IsValid() {
		return "?"
	}
	q := w.fset.Position(p)
	if r, err := filepath.Rel(repoDir, q.Filename); err == nil {
		q.Filename = r
	}
	return fmt.Sprintf("%s:%d", q.Filename, q.Line)
}
