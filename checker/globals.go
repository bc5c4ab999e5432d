package main

import (
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Package variables that are assigned only by their declaration are constants:
// their initial values are evaluated once and read as values.

func (w *World) initGlobals() map[*Term]*Term { return nil }

// constLoc is the value of a location inside a constant package variable.
func (w *World) constLoc(loc *Term) (*Term, bool) {
	r := locRoot(loc)
	if r == nil || r.op != "addr" {
		return nil, false
	}
	o, ok := r.obj.(*Object)
	if !ok || o.fresh || o.g == nil || o.g.Pkg == nil || !isRepoPath(o.g.Pkg.Pkg.Path()) {
		return nil, false
	}
	m := w.pkgConsts(o.g.Pkg)
	v, ok := m[loc]
	return v, ok
}

func (w *World) pkgConsts(p *ssa.Package) map[*Term]*Term {
	if m, ok := w.consts[p]; ok {
		return m
	}
	if w.consts == nil {
		w.consts = map[*ssa.Package]map[*Term]*Term{}
	}
	out := map[*Term]*Term{}
	w.consts[p] = out
	init := p.Func("init")
	if init == nil {
		return out
	}
	defer func() {
		if x := recover(); x != nil {
			if _, ok := x.(undecided); !ok {
				panic(x)
			}
		}
	}()
	mut := w.mutated()
	e := &Engine{w: w, budget: 400_000, funcs: map[*ssa.Function]bool{}, seenObl: map[string]bool{}, replace: map[string]*ssa.Function{}}
	st := e.newState()
	fr := &Frame{fn: init, env: map[ssa.Value]*Term{}}
	collect := func(st *State) {
		var ks []*Term
		for k := range st.heap {
			ks = append(ks, k)
		}
		sort.Slice(ks, func(i, j int) bool { return ks[i].id < ks[j].id })
		for _, k := range ks {
			r := locRoot(k)
			if r == nil || r.op != "addr" {
				continue
			}
			o := r.obj.(*Object)
			if o.fresh || o.g == nil || mut[o.g] || isErrorType(o.typ) || strings.HasPrefix(o.g.Name(), "init$") {
				continue
			}
			v := e.snap(st, st.heap[k])
			if has(v, func(t *Term) bool { return t.op == "addr" && t.obj.(*Object).fresh || t.op == "ev" || t.op == "loop" }) {
				continue
			}
			out[k] = v
		}
	}
	for _, b := range init.Blocks {
		if b.Comment != "init.start" {
			continue
		}
		for _, ins := range b.Instrs {
			switch x := ins.(type) {
			case *ssa.Jump:
				collect(st)
				return out
			case *ssa.If, *ssa.Return:
				collect(st)
				return out
			case *ssa.Call:
				if c := x.Call.StaticCallee(); c != nil && (c.Name() == "init" || strings.HasPrefix(c.Name(), "init#")) {
					fr.env[x] = tNil
					continue
				}
				r, s := e.doCall(fr, x, &x.Call, st)
				if s == nil {
					collect(st)
					return out
				}
				st = s
				fr.env[x] = r
			case *ssa.DebugRef, *ssa.Phi:
			default:
				if !e.simple(fr, ins, st) {
					collect(st)
					return out
				}
			}
		}
	}
	return out
}

// mutated lists the package variables assigned, or whose contents are
// assigned, outside their package's initialisation.
func (w *World) mutated() map[*ssa.Global]bool {
	if w.mutg != nil {
		return w.mutg
	}
	w.mutg = map[*ssa.Global]bool{}
	var root func(v ssa.Value, d int) *ssa.Global
	root = func(v ssa.Value, d int) *ssa.Global {
		if d > 8 {
			return nil
		}
		switch x := v.(type) {
		case *ssa.Global:
			return x
		case *ssa.IndexAddr:
			return root(x.X, d+1)
		case *ssa.FieldAddr:
			return root(x.X, d+1)
		case *ssa.UnOp:
			return root(x.X, d+1)
		case *ssa.Slice:
			return root(x.X, d+1)
		}
		return nil
	}
	for fn := range w.allFuncs {
		if fn.Pkg == nil || !isRepoPath(pkgPathOf(fn)) || fn.Synthetic == "package initializer" {
			continue
		}
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				var g *ssa.Global
				switch x := ins.(type) {
				case *ssa.Store:
					g = root(x.Addr, 0)
				case *ssa.MapUpdate:
					g = root(x.Map, 0)
				}
				if g != nil {
					w.mutg[g] = true
				}
				// an address that is handed on may be written through
				for _, op := range ins.Operands(nil) {
					if gg, ok := (*op).(*ssa.Global); ok {
						switch y := ins.(type) {
						case *ssa.UnOp, *ssa.FieldAddr, *ssa.IndexAddr:
							_ = y
						case *ssa.Store:
							if y.Val == gg {
								w.mutg[gg] = true
							}
						default:
							w.mutg[gg] = true
						}
					}
				}
			}
		}
	}
	return w.mutg
}

// sentinel: an error variable that is never assigned after its declaration.
func (w *World) sentinel(loc *Term) bool {
	if loc.op != "fa" || loc.args[0].op != "addr" {
		return false
	}
	o, ok := loc.args[0].obj.(*Object)
	return ok && o.g != nil && isErrorType(o.typ) && (!isRepoPath(o.g.Pkg.Pkg.Path()) || !w.mutated()[o.g])
}

var _ = types.Typ
