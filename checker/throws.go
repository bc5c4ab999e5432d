package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Escaping failures (P26). Unwrapping a failed result throws; a deferred
// handle.Error turns the throw into a failed result. An effect analysis over
// the call graph finds the functions a throw can leave; no exported function
// of the text packages may be one of them.

func isTextPkg(p string) bool {
	for _, d := range []string{"wat", "wit", "wast"} {
		if p == repoMod+"/"+d || strings.HasPrefix(p, repoMod+"/"+d+"/") {
			return true
		}
	}
	return false
}

type throwSite struct {
	pos  token.Pos
	what string
}

type throwInfo struct {
	w     *World
	funcs []*ssa.Function
	taken map[string][]*ssa.Function // functions used as values, by signature
	may   map[*ssa.Function]*throwSite
}

func originOf(f *ssa.Function) *ssa.Function {
	if o := f.Origin(); o != nil {
		return o
	}
	return f
}

// handled reports that every throw from the instruction is caught: a handler
// for the function's own result was deferred on every path to it.
func handled(ins ssa.Instruction) bool {
	fn := ins.Parent()
	for _, b := range fn.Blocks {
		for i, x := range b.Instrs {
			d, ok := x.(*ssa.Defer)
			if !ok {
				continue
			}
			if !catches(fn, d) {
				continue
			}
			if b != ins.Block() {
				if b.Dominates(ins.Block()) {
					return true
				}
				continue
			}
			for j, y := range b.Instrs {
				if y == ins && j > i {
					return true
				}
			}
		}
	}
	return false
}

// catches reports that a deferred call is handle.Error on the address of the
// variable the function returns.
func catches(fn *ssa.Function, d *ssa.Defer) bool {
	f := d.Call.StaticCallee()
	if f == nil || fnKey(f) != goTypes+"/handle.Error" || len(d.Call.Args) != 1 || fn.Recover == nil {
		return false
	}
	// the recovery block returns the variable
	for _, ins := range fn.Recover.Instrs {
		if u, ok := ins.(*ssa.UnOp); ok && u.Op == token.MUL && u.X == d.Call.Args[0] {
			return true
		}
	}
	return false
}

func (t *throwInfo) callees(cc *ssa.CallCommon) []*ssa.Function {
	if f := cc.StaticCallee(); f != nil {
		return []*ssa.Function{originOf(f)}
	}
	if cc.IsInvoke() {
		return t.w.implementors(cc)
	}
	return t.taken[sigShape(cc.Signature())]
}

// sigShape identifies a signature up to type arguments.
func sigShape(s *types.Signature) string {
	var sb strings.Builder
	for _, tu := range []*types.Tuple{s.Params(), s.Results()} {
		for i := 0; i < tu.Len(); i++ {
			t := types.Unalias(tu.At(i).Type())
			if n, ok := t.(*types.Named); ok {
				sb.WriteString(n.Obj().Name() + ",")
				continue
			}
			if _, ok := t.(*types.TypeParam); ok {
				sb.WriteString("?,")
				continue
			}
			sb.WriteString(fmt.Sprintf("%T,", t))
		}
		sb.WriteString(";")
	}
	return sb.String()
}

func newThrowInfo(w *World) *throwInfo {
	t := &throwInfo{w: w, taken: map[string][]*ssa.Function{}, may: map[*ssa.Function]*throwSite{}}
	for _, f := range w.sourceFuncs() {
		t.funcs = append(t.funcs, f)
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				for _, op := range ins.Operands(nil) {
					var g *ssa.Function
					switch x := (*op).(type) {
					case *ssa.Function:
						g = x
					case *ssa.MakeClosure:
						g = x.Fn.(*ssa.Function)
					}
					if ci, ok := ins.(ssa.CallInstruction); ok && ci.Common().Value == *op {
						continue
					}
					if mc, ok := ins.(*ssa.MakeClosure); ok {
						g = mc.Fn.(*ssa.Function)
					}
					if g != nil {
						k := sigShape(g.Signature)
						t.taken[k] = append(t.taken[k], originOf(g))
					}
				}
			}
		}
	}
	for ch := true; ch; {
		ch = false
		for _, f := range t.funcs {
			if t.may[f] != nil {
				continue
			}
			if s := t.site(f); s != nil {
				t.may[f] = s
				ch = true
			}
		}
	}
	return t
}

// site finds a throw that leaves f.
func (t *throwInfo) site(f *ssa.Function) *throwSite {
	for _, b := range f.Blocks {
		for _, ins := range b.Instrs {
			ci, ok := ins.(ssa.CallInstruction)
			if !ok {
				continue
			}
			cc := ci.Common()
			what := ""
			if cc.IsInvoke() && cc.Method.Name() == "Unwrap" && cc.Method.Pkg() != nil && cc.Method.Pkg().Path() == goTypes {
				if surelyOk(cc.Value) {
					continue
				}
				what = "a failed result is unwrapped"
			} else if g := cc.StaticCallee(); g != nil && fnKey(g) == goTypes+".Throw" {
				what = "an error is thrown"
			} else {
				for _, g := range t.callees(cc) {
					if s := t.may[g]; s != nil {
						what = fmt.Sprintf("%s throws (%s at %s)", strings.TrimPrefix(fnKey(g), repoMod+"/"), s.what, t.w.pos(s.pos))
						break
					}
				}
			}
			if what == "" {
				continue
			}
			if handled(ins) {
				continue
			}
			return &throwSite{ins.Pos(), what}
		}
	}
	return nil
}

// surelyOk recognises a value just built as a success.
func surelyOk(v ssa.Value) bool {
	c, ok := v.(*ssa.Call)
	if !ok {
		return false
	}
	f := c.Call.StaticCallee()
	if f == nil {
		return false
	}
	k := fnKey(f)
	return k == goTypes+"/result.Ok" || k == goTypes+"/option.Some"
}

func throwRule(w *World, r *Report) {
	t := newThrowInfo(w)
	n := 0
	for _, f := range t.funcs {
		if !isTextPkg(pkgPathOf(f)) {
			continue
		}
		key := strings.TrimPrefix(fnKey(f), repoMod+"/")
		uses := 0
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				if ci, ok := ins.(ssa.CallInstruction); ok && ci.Common().IsInvoke() && ci.Common().Method.Name() == "Unwrap" {
					uses++
				}
				// explicit panics
				switch x := ins.(type) {
				case *ssa.Panic:
					r.fail("no-panic", key, w.pos(x.Pos()), "panics")
				}
			}
		}
		n += uses
		exported := f.Parent() == nil && f.Object() != nil && f.Object().Exported()
		if !exported {
			continue
		}
		if s := t.may[f]; s != nil {
			r.fail("failure-stays-inside", key, w.pos(s.pos), s.what+" and nothing catches it before it leaves "+key)
		} else {
			r.add(Item{Rule: "failure-stays-inside", Key: key, OK: true, Pos: w.pos(f.Pos()), Funcs: []string{fnKey(f)}})
		}
	}
	r.count("results unwrapped", n)
	var th []string
	for f := range t.may {
		if isTextPkg(pkgPathOf(f)) {
			th = append(th, strings.TrimPrefix(fnKey(f), repoMod+"/"))
		}
	}
	sort.Strings(th)
	r.count("internal functions a throw can leave", len(th))
}

func init() { rules["P26"] = append(rules["P26"], throwRule) }
