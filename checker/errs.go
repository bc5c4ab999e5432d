package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Failure propagation (P18). For every call that can fail, a forward dataflow
// analysis assumes that it did fail and follows that fact through branches,
// joins, local variables, wrappers and results: every return reached must
// carry a failure.

type fval uint8

const (
	fTop   fval = iota // not known
	fFail              // an error that is not nil, or a failed result
	fNil               // nil error, or a successful result
	fTrue              //
	fFalse             //
)

type fstate struct {
	v     map[ssa.Value]fval
	cells map[*ssa.Alloc]fval
}

func (s *fstate) clone() *fstate {
	n := &fstate{map[ssa.Value]fval{}, map[*ssa.Alloc]fval{}}
	for k, v := range s.v {
		n.v[k] = v
	}
	for k, v := range s.cells {
		n.cells[k] = v
	}
	return n
}

func (s *fstate) set(v ssa.Value, a fval) {
	if a == fTop {
		delete(s.v, v)
	} else {
		s.v[v] = a
	}
}

// meet keeps what both states know; it reports whether s lost something.
func (s *fstate) meet(o *fstate) bool {
	ch := false
	for k, v := range s.v {
		if o.v[k] != v {
			delete(s.v, k)
			ch = true
		}
	}
	for k, v := range s.cells {
		if o.cells[k] != v {
			delete(s.cells, k)
			ch = true
		}
	}
	return ch
}

type errFlow struct {
	w       *World
	never   map[*ssa.Function]bool // error result always nil
	always  map[*ssa.Function]bool // error result never nil
	wraps   map[string]int         // memo of parameter propagation: 1 yes, -1 no
	inwraps map[string]bool
	tests   map[string]fval
}

// isResultT recognises types.Result[T].
func isResultT(t types.Type) bool {
	n, ok := types.Unalias(t).(*types.Named)
	return ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "github.com/patrickhuber/go-types" && n.Obj().Name() == "Result"
}

// failIndex is the position of the result that reports failure.
func failIndex(sig *types.Signature) int {
	n := sig.Results().Len()
	if n == 0 {
		return -1
	}
	t := sig.Results().At(n - 1).Type()
	if isErrorType(t) || isResultT(t) {
		return n - 1
	}
	return -1
}

func calleeOf(cc *ssa.CallCommon) *ssa.Function { return cc.StaticCallee() }

func calleeName(cc *ssa.CallCommon) string {
	if cc.IsInvoke() {
		return shortType(cc.Value.Type()) + "." + cc.Method.Name()
	}
	if f := cc.StaticCallee(); f != nil {
		if f.Parent() != nil {
			return "closure"
		}
		return strings.TrimPrefix(fnKey(f), repoMod+"/")
	}
	return "function value " + cc.Value.Name()
}

func isNilConst(v ssa.Value) bool {
	c, ok := v.(*ssa.Const)
	return ok && c.Value == nil
}

func (ef *errFlow) val(s *fstate, v ssa.Value) fval {
	switch x := v.(type) {
	case *ssa.Const:
		if x.Value == nil {
			return fNil
		}
		if x.Value.Kind() == constant.Bool {
			if constant.BoolVal(x.Value) {
				return fTrue
			}
			return fFalse
		}
		return fTop
	}
	return s.v[v]
}

const goTypes = "github.com/patrickhuber/go-types"

// callVal evaluates a call: abs of the failure result, and whether the call
// surely ends the path by throwing.
func (ef *errFlow) callVal(s *fstate, cc *ssa.CallCommon) (fval, bool) {
	if cc.IsInvoke() {
		if isResultT(cc.Value.Type()) {
			r := ef.val(s, cc.Value)
			switch cc.Method.Name() {
			case "Unwrap":
				return fTop, r == fFail
			case "IsOk":
				return map[fval]fval{fFail: fFalse, fNil: fTrue}[r], false
			case "IsError":
				if r == fNil {
					return fFalse, false
				}
				if c, ok := cc.Args[0].(*ssa.Const); ok && c.Value == nil && r == fFail {
					return fTrue, false
				}
			case "Deconstruct":
				return r, false
			}
		}
		return fTop, false
	}
	f := cc.StaticCallee()
	if f == nil {
		return fTop, false
	}
	key := fnKey(f)
	switch key {
	case "fmt.Errorf", "errors.New", goTypes + "/result.Errorf":
		return fFail, false
	case "errors.Join":
		return fTop, false
	case goTypes + "/result.Ok":
		return fNil, false
	case goTypes + "/result.Error":
		return ef.val(s, cc.Args[0]), false
	case goTypes + "/result.New", goTypes + "/result.New2", goTypes + "/result.New3":
		return ef.val(s, cc.Args[len(cc.Args)-1]), false
	case goTypes + ".Throw":
		return fTop, true
	}
	if o := f.Origin(); o != nil {
		f = o
	}
	if ef.always[f] {
		return fFail, false
	}
	if ef.never[f] {
		return fNil, false
	}
	for i, a := range cc.Args {
		if v := ef.val(s, a); (v == fFail || v == fNil) && ef.test(f, i, v) != fTop {
			return ef.test(f, i, v), false
		}
	}
	// a failed argument makes the callee fail
	if len(f.Blocks) > 0 && ef.w.inlinable(f) && failIndex(f.Signature) >= 0 {
		for i, a := range cc.Args {
			if ef.val(s, a) == fFail && i < len(f.Params) && ef.propagates(f, i) {
				return fFail, false
			}
		}
	}
	return fTop, false
}

// propagates reports that f fails whenever its i-th argument is a failure.
func (ef *errFlow) propagates(f *ssa.Function, i int) bool {
	k := fmt.Sprintf("%s#%d", fnKey(f), i)
	if ef.wraps[k] == 0 {
		if ef.inwraps[k] {
			return false
		}
		ef.inwraps[k] = true
		st := &fstate{map[ssa.Value]fval{f.Params[i]: fFail}, map[*ssa.Alloc]fval{}}
		ef.wraps[k] = -1
		if ef.run(f, f.Blocks[0], 0, st, nil) == nil {
			ef.wraps[k] = 1
		}
	}
	return ef.wraps[k] == 1
}

// test is what f, a function of the repository with a boolean result, answers
// whenever its i-th argument, an error or a result, is v.
func (ef *errFlow) test(f *ssa.Function, i int, v fval) fval {
	rs := f.Signature.Results()
	if rs.Len() != 1 || len(f.Blocks) == 0 || i >= len(f.Params) || !isRepoPath(pkgPathOf(f)) || !types.Identical(rs.At(0).Type().Underlying(), types.Typ[types.Bool]) {
		return fTop
	}
	if t := f.Params[i].Type(); !isErrorType(t) && !isResultT(t) {
		return fTop
	}
	k := fmt.Sprintf("%s#%d=%d", fnKey(f), i, v)
	if r, ok := ef.tests[k]; ok {
		return r
	}
	ef.tests[k] = fTop
	st := &fstate{map[ssa.Value]fval{f.Params[i]: v}, map[*ssa.Alloc]fval{}}
	var all []fval
	ef.run(f, f.Blocks[0], 0, st, func(r *ssa.Return, _ fval, s *fstate) { all = append(all, ef.val(s, r.Results[0])) })
	if len(all) == 0 {
		return fTop
	}
	for _, a := range all {
		if a != all[0] {
			return fTop
		}
	}
	ef.tests[k] = all[0]
	return all[0]
}

// eofTolerated: the end of input between two module sections is not a failure.
func eofTolerated(fn *ssa.Function, c ssa.Value) bool {
	if !strings.HasPrefix(pkgPathOf(fn), repoMod+"/binary") {
		return false
	}
	isEOF := func(v ssa.Value) bool {
		u, ok := v.(*ssa.UnOp)
		if !ok {
			return false
		}
		g, ok := u.X.(*ssa.Global)
		return ok && g.RelString(nil) == "io.EOF"
	}
	switch x := c.(type) {
	case *ssa.Call:
		f := x.Call.StaticCallee()
		return f != nil && fnKey(f) == "errors.Is" && isEOF(x.Call.Args[1])
	case *ssa.BinOp:
		return x.Op == token.EQL && (isEOF(x.X) || isEOF(x.Y))
	}
	return false
}

// simpleCell: a local variable only read, written, or handed to the deferred
// failure handler.
func simpleCell(a *ssa.Alloc) bool {
	for _, r := range *a.Referrers() {
		switch x := r.(type) {
		case *ssa.UnOp, *ssa.DebugRef:
		case *ssa.Store:
			if x.Val == a {
				return false
			}
		case *ssa.Defer:
			f := x.Call.StaticCallee()
			if f == nil || fnKey(f) != goTypes+"/handle.Error" {
				return false
			}
		default:
			return false
		}
	}
	return true
}

type badReturn struct {
	pos token.Pos
	why string
}

// run follows the state from instruction i of block b; it returns the first
// return that does not carry a failure. visit, if given, is told every return.
func (ef *errFlow) run(fn *ssa.Function, b *ssa.BasicBlock, i int, st *fstate, visit func(*ssa.Return, fval, *fstate)) *badReturn {
	in := map[*ssa.BasicBlock]*fstate{}
	var work []*ssa.BasicBlock
	var bad *badReturn
	edge := func(from, to *ssa.BasicBlock, s *fstate) {
		s = s.clone()
		var ps []*ssa.Phi
		var vs []fval
		for _, ins := range to.Instrs {
			p, ok := ins.(*ssa.Phi)
			if !ok {
				break
			}
			ps = append(ps, p)
			vs = append(vs, ef.val(s, p.Edges[predIndex(from, to)]))
		}
		for i, p := range ps {
			s.set(p, vs[i])
		}
		if old, ok := in[to]; ok {
			if !old.meet(s) {
				return
			}
		} else {
			in[to] = s
		}
		work = append(work, to)
	}
	fi := failIndex(fn.Signature)
	block := func(b *ssa.BasicBlock, i int, s *fstate) {
		for ; i < len(b.Instrs); i++ {
			switch x := b.Instrs[i].(type) {
			case *ssa.Phi, *ssa.DebugRef:
			case *ssa.Call:
				a, throws := ef.callVal(s, &x.Call)
				if throws {
					return
				}
				s.set(x, a)
			case *ssa.Extract:
				t := x.Tuple.Type().(*types.Tuple)
				s.set(x, fTop)
				if x.Index == t.Len()-1 && (isErrorType(x.Type()) || isResultT(x.Type())) {
					s.set(x, s.v[x.Tuple])
				}
			case *ssa.ChangeInterface:
				s.set(x, ef.val(s, x.X))
			case *ssa.MakeInterface:
				s.set(x, fTop)
				switch {
				case isErrorType(x.Type()):
					s.set(x, fFail) // a concrete error
				case isResultT(x.Type()):
					if baseTypeName(x.X.Type()) == "Error" {
						s.set(x, fFail)
					}
				}
			case *ssa.UnOp:
				switch x.Op {
				case token.MUL:
					s.set(x, fTop)
					if a, ok := x.X.(*ssa.Alloc); ok && simpleCell(a) {
						s.set(x, s.cells[a])
					} else if g, ok := x.X.(*ssa.Global); ok && isErrorType(x.Type()) && ef.w.sentinelGlobal(g) {
						s.set(x, fFail)
					}
				case token.NOT:
					s.set(x, map[fval]fval{fTrue: fFalse, fFalse: fTrue}[ef.val(s, x.X)])
				default:
					s.set(x, fTop)
				}
			case *ssa.Store:
				if a, ok := x.Addr.(*ssa.Alloc); ok && simpleCell(a) {
					if v := ef.val(s, x.Val); v == fTop {
						delete(s.cells, a)
					} else {
						s.cells[a] = v
					}
				}
			case *ssa.BinOp:
				s.set(x, fTop)
				if x.Op == token.EQL || x.Op == token.NEQ {
					a, b := ef.val(s, x.X), ef.val(s, x.Y)
					r := fTop
					if a == fFail && b == fNil || a == fNil && b == fFail {
						r = fFalse
					} else if a == fNil && b == fNil {
						r = fTrue
					}
					if x.Op == token.NEQ {
						r = map[fval]fval{fTrue: fFalse, fFalse: fTrue}[r]
					}
					s.set(x, r)
				}
			case *ssa.If:
				c := ef.val(s, x.Cond)
				for k, want := range []fval{fTrue, fFalse} {
					if c != fTop && c != want {
						continue
					}
					if k == 0 && eofTolerated(fn, x.Cond) {
						continue
					}
					s2 := s.clone()
					s2.set(x.Cond, want)
					ef.refine(s2, x.Cond, want == fTrue)
					edge(b, b.Succs[k], s2)
				}
				return
			case *ssa.Jump:
				edge(b, b.Succs[0], s)
				return
			case *ssa.Panic:
				return
			case *ssa.Return:
				a := fTop
				if fi >= 0 {
					a = ef.val(s, x.Results[fi])
				}
				if visit != nil {
					visit(x, a, s)
				}
				if a != fFail && bad == nil {
					why := "returns an error that may be nil"
					if a == fNil {
						why = "returns success"
					}
					if fi < 0 {
						why = "returns without reporting it (the function has no error result)"
					}
					bad = &badReturn{x.Pos(), why}
				}
				return
			case ssa.Value:
				s.set(x, fTop)
			}
		}
	}
	block(b, i, st.clone())
	for n := 0; len(work) > 0; n++ {
		if n > 200000 {
			panic(undecided{"failure propagation did not stabilise in " + fn.String()})
		}
		x := work[0]
		work = work[1:]
		block(x, 0, in[x].clone())
	}
	return bad
}

// refine learns from a nil test.
func (ef *errFlow) refine(s *fstate, c ssa.Value, truth bool) {
	if call, ok := c.(*ssa.Call); ok && !call.Call.IsInvoke() {
		f := call.Call.StaticCallee()
		if f == nil {
			return
		}
		if o := f.Origin(); o != nil {
			f = o
		}
		got := fFalse
		if truth {
			got = fTrue
		}
		for i, a := range call.Call.Args {
			for v, o := range map[fval]fval{fNil: fFail, fFail: fNil} {
				if t := ef.test(f, i, v); t != fTop && t != got && ef.val(s, a) == fTop {
					s.set(a, o)
				}
			}
		}
		return
	}
	b, ok := c.(*ssa.BinOp)
	if !ok || b.Op != token.EQL && b.Op != token.NEQ {
		if u, ok := c.(*ssa.UnOp); ok && u.Op == token.NOT {
			ef.refine(s, u.X, !truth)
		}
		return
	}
	x, y := b.X, b.Y
	if isNilConst(x) {
		x, y = y, x
	}
	if !isNilConst(y) || !isErrorType(x.Type()) {
		return
	}
	if truth == (b.Op == token.EQL) {
		s.set(x, fNil)
	} else {
		s.set(x, fFail)
	}
}

// sentinelGlobal: a package-level error initialised once and never reassigned.
func (w *World) sentinelGlobal(g *ssa.Global) bool {
	return isErrorType(g.Type().(*types.Pointer).Elem()) && (!isRepoPath(g.Pkg.Pkg.Path()) || !w.mutated()[g])
}

// sourceFuncs lists the functions written in the repository.
func (w *World) sourceFuncs() []*ssa.Function {
	var out []*ssa.Function
	for f := range w.allFuncs {
		p := pkgPathOf(f)
		if !isRepoPath(p) || w.isHarness(f) || f.Synthetic != "" || f.Origin() != nil && f.Origin() != f || len(f.Blocks) == 0 {
			continue
		}
		if pf := f.Parent(); pf != nil && pf.Origin() != nil && pf.Origin() != pf {
			continue
		}
		out = append(out, f)
	}
	sort.Slice(out, func(i, j int) bool { return out[i].Pos() < out[j].Pos() })
	return out
}

// Writers that document that they never fail.
func neverFails(key string) bool {
	return strings.HasPrefix(key, "(*bytes.Buffer).Write") || strings.HasPrefix(key, "(*strings.Builder).Write") ||
		key == "fmt.Print" || key == "fmt.Println" || key == "fmt.Printf"
}

func newErrFlow(w *World) *errFlow {
	ef := &errFlow{w: w, never: map[*ssa.Function]bool{}, always: map[*ssa.Function]bool{}, wraps: map[string]int{}, inwraps: map[string]bool{}, tests: map[string]fval{}}
	fs := w.sourceFuncs()
	for f := range w.allFuncs {
		if strings.HasPrefix(pkgPathOf(f), goTypes) && f.Synthetic == "" && len(f.Blocks) > 0 {
			fs = append(fs, f)
		}
	}
	// least fixpoint from callees to callers
	for ch := true; ch; {
		ch = false
		for _, f := range fs {
			if failIndex(f.Signature) < 0 || ef.never[f] || ef.always[f] || f.Recover != nil {
				continue
			}
			nv, al, n := true, true, 0
			ef.run(f, f.Blocks[0], 0, &fstate{map[ssa.Value]fval{}, map[*ssa.Alloc]fval{}}, func(_ *ssa.Return, a fval, _ *fstate) {
				n++
				nv = nv && a == fNil
				al = al && a == fFail
			})
			if n == 0 {
				continue
			}
			if nv {
				ef.never[f], ch = true, true
			} else if al {
				ef.always[f], ch = true, true
			}
		}
	}
	return ef
}

func errRule(in func(pkg string) bool) func(w *World, r *Report) {
	return func(w *World, r *Report) { errFlowRule(w, r, in) }
}

func errFlowRule(w *World, r *Report, in func(pkg string) bool) {
	ef := newErrFlow(w)
	nf := 0
	noErr := map[string]int{}
	for _, fn := range w.sourceFuncs() {
		if !in(pkgPathOf(fn)) {
			continue
		}
		seen := map[string]int{}
		any := false
		for _, b := range fn.Blocks {
			for i, ins := range b.Instrs {
				ci, ok := ins.(ssa.CallInstruction)
				if !ok {
					// a conversion or lookup whose outcome is thrown away
					ef.unchecked(r, fn, ins, seen)
					continue
				}
				cc := ci.Common()
				if _, isB := cc.Value.(*ssa.Builtin); isB && !cc.IsInvoke() || failIndex(cc.Signature()) < 0 {
					continue
				}
				f := cc.StaticCallee()
				if f != nil {
					o := f
					if f.Origin() != nil {
						o = f.Origin()
					}
					k := fnKey(f)
					// constructors of errors and results are not steps that fail
					if ef.always[o] || ef.never[o] || neverFails(k) || k == "fmt.Errorf" || k == "errors.New" ||
						strings.HasPrefix(k, goTypes+"/result.") || strings.HasPrefix(k, goTypes+".New") {
						continue
					}
				}
				if cc.IsInvoke() && isResultT(cc.Value.Type()) {
					continue // unpacks a failure that already happened
				}
				name := calleeName(cc)
				seen[name]++
				key := fmt.Sprintf("%s->%s", strings.TrimPrefix(fnKey(fn), repoMod+"/"), name)
				if seen[name] > 1 {
					key += fmt.Sprintf("#%d", seen[name])
				}
				pos := w.pos(ins.Pos())
				any = true
				call, isCall := ins.(*ssa.Call)
				if !isCall {
					r.fail("failure-propagation", key, pos, "the failure of a deferred or concurrent call is dropped")
					continue
				}
				st := &fstate{map[ssa.Value]fval{call: fFail}, map[*ssa.Alloc]fval{}}
				if bad := ef.run(fn, b, i+1, st, nil); bad != nil {
					if failIndex(fn.Signature) < 0 {
						// named by what it calls: such functions are often literals
						key = strings.TrimPrefix(pkgPathOf(fn), repoMod+"/") + ":no-error-result->" + strings.ReplaceAll(name, repoMod+"/", "")
						noErr[key]++
						if noErr[key] > 1 {
							key += fmt.Sprintf("#%d", noErr[key])
						}
					}
					r.fail("failure-propagation", key, pos, fmt.Sprintf("when %s fails, %s at %s %s", name, strings.TrimPrefix(fnKey(fn), repoMod+"/"), w.pos(bad.pos), bad.why))
				} else {
					r.add(Item{Rule: "failure-propagation", Key: key, OK: true, Pos: pos, Funcs: []string{fnKey(fn)}})
				}
			}
		}
		if any {
			nf++
		}
	}
	r.count("functions containing fallible calls", nf)
	r.count("functions that never fail", len(ef.never))
	r.count("functions that always fail", len(ef.always))
}

func (ef *errFlow) unchecked(r *Report, fn *ssa.Function, ins ssa.Instruction, seen map[string]int) {
	var what string
	switch x := ins.(type) {
	case *ssa.TypeAssert:
		if !x.CommaOk {
			return
		}
		what = "conversion to " + shortType(x.AssertedType)
	case *ssa.Lookup:
		if !x.CommaOk {
			return
		}
		what = "lookup"
	default:
		return
	}
	val, ok := false, false
	for _, u := range *ins.(ssa.Value).Referrers() {
		if e, is := u.(*ssa.Extract); is {
			used := false
			for _, q := range *e.Referrers() {
				if _, dbg := q.(*ssa.DebugRef); !dbg {
					used = true
				}
			}
			if e.Index == 0 {
				val = val || used
			} else {
				ok = ok || used
			}
		}
	}
	seen[what]++
	key := fmt.Sprintf("%s->%s", strings.TrimPrefix(fnKey(fn), repoMod+"/"), what)
	if seen[what] > 1 {
		key += fmt.Sprintf("#%d", seen[what])
	}
	r.check(!val || ok, "outcome-used", key, ef.w.pos(ins.Pos()), "the %s may not succeed and its outcome is not looked at", what)
}

func init() {
	rules["P18"] = append(rules["P18"], errRule(func(string) bool { return true }))
	rules["P26"] = append(rules["P26"], errRule(isTextPkg))
}
