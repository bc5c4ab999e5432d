package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- recoverable failures ----

// Result.Unwrap of a failure throws; a deferred handle.Error turns the throw
// into the failure result of its function. A throw leaves the block it occurs
// in along an edge to a block of its own outside every loop, where the
// deferred calls registered so far are run.

var panicKey = app("sym", "@panic", nil)

type throw struct {
	st  *State
	pos token.Pos
	fn  *ssa.Function
}

// throwTo is the block receiving the throws of block b.
func (fr *Frame) throwTo(b *ssa.BasicBlock) *ssa.BasicBlock {
	for _, d := range fr.defers {
		if !d.ins.Block().Dominates(b) {
			fail("conditional defer in %s", fr.fn)
		}
	}
	for len(fr.throwBlocks) <= len(fr.defers) {
		fr.throwBlocks = append(fr.throwBlocks, &ssa.BasicBlock{Index: -1, Comment: "throw"})
	}
	return fr.throwBlocks[len(fr.defers)]
}

// unwind runs the first n deferred calls for a thrown state.
func (e *Engine) unwind(fr *Frame, n int, st *State) {
	for i := n - 1; i >= 0; i-- {
		d := fr.defers[i]
		cond := st.cond
		_, s := e.applyFn(fr, d.ins, d.fn, d.args, &d.ins.Call, st)
		if s == nil {
			return
		}
		st = s
		st.cond = cond
	}
	if st.heap[panicKey] != nil {
		fr.throws = append(fr.throws, throw{st, fr.fn.Pos(), fr.fn})
		return
	}
	if fr.fn.Recover == nil {
		fail("no recovery block in %s", fr.fn)
	}
	e.block(fr, fr.fn.Recover, st, func(from, to *ssa.BasicBlock, s *State) { fail("branch in the recovery block of %s", fr.fn) })
}

// instance returns the instantiation of a generic type of go-types.
func (w *World) instance(name string, arg types.Type) types.Type {
	k := name + "[" + types.TypeString(arg, nil) + "]"
	if t, ok := w.insts[k]; ok {
		return t
	}
	p := w.pkgs[goTypes]
	if p == nil {
		fail("package %s is not loaded", goTypes)
	}
	o := p.Types.Scope().Lookup(name)
	if o == nil {
		fail("no type %s in %s", name, goTypes)
	}
	t, err := types.Instantiate(nil, o.Type(), []types.Type{arg}, false)
	if err != nil {
		fail("%v", err)
	}
	w.insts[k] = t
	return t
}

// resultArg returns T for the type types.Result[T].
func resultArg(t types.Type) types.Type {
	n, ok := t.(*types.Named)
	if !ok || n.Obj().Name() != "Result" || n.Obj().Pkg() == nil || n.Obj().Pkg().Path() != goTypes || n.TypeArgs().Len() != 1 {
		return nil
	}
	return n.TypeArgs().At(0)
}

// results builds the values returned by a call that is not looked into.
func (e *Engine) results(call *Term, results *types.Tuple) *Term {
	n := results.Len()
	rs := make([]*Term, n)
	for i := 0; i < n; i++ {
		t := results.At(i).Type()
		if i == n-1 && isErrorType(t) {
			rs[i] = mkIte(app("ok", "", nil, call), tNil, app("err", "call", nil, call))
			continue
		}
		if a := resultArg(t); a != nil {
			ot, et := e.w.instance("Ok", a), e.w.instance("Error", a)
			rs[i] = mkIte(app("ok", "", nil, call),
				app("iface", "", ot, app("struct", "", ot, app("res", fmt.Sprint(i), a, call))),
				app("iface", "", et, app("struct", "", et, app("err", "call", nil, call))))
			continue
		}
		rs[i] = app("res", fmt.Sprint(i), t, call)
	}
	return packRes(rs)
}

func init() {
	intrinsics[goTypes+".Throw"] = func(e *Engine, fr *Frame, ins ssa.Instruction, fn *ssa.Function, args []*Term, st *State) (*Term, *State) {
		s := st.clone()
		s.heap[panicKey] = app("err", "new", nil)
		e.thrown = append(e.thrown, throw{s, ins.Pos(), fr.fn})
		return nil, nil
	}
	intrinsics[goTypes+"/handle.Error"] = func(e *Engine, fr *Frame, ins ssa.Instruction, fn *ssa.Function, args []*Term, st *State) (*Term, *State) {
		err := st.heap[panicKey]
		if err == nil {
			return tNil, st
		}
		st = st.clone()
		delete(st.heap, panicKey)
		rt := fn.Params[0].Type().(*types.Pointer).Elem()
		et := e.w.instance("Error", resultArg(rt))
		e.store(st, args[0], app("iface", "", et, app("struct", "", et, err)), rt)
		return tNil, st
	}
}

// ---- token streams ----

// A parser sees its lexer as a position in the token sequence of the input.
// The parsers' next and peek deliver the token at the position that is not
// whitespace or a comment (established by their own pairs); next moves past
// it. A production that has a pair of its own is a function of the position
// that yields a result and a new position.

func posKey(lexer *Term) *Term { return app("lexpos", "", nil, lexer) }

func isLexerType(t types.Type) bool {
	n, ok := t.(*types.Named)
	return ok && n.Obj().Name() == "Lexer" && n.Obj().Pkg() != nil && isTextPkg(n.Obj().Pkg().Path())
}

func isLexerPtr(t types.Type) bool {
	p, ok := t.(*types.Pointer)
	return ok && isLexerType(p.Elem())
}

// productions lists the parser functions that have a pair. Those whose pair is
// marked inline are small enough to be entered wherever they are called.
func (w *World) productions() map[string]bool {
	if w.prods != nil {
		return w.prods
	}
	w.prods = map[string]bool{}
	for n, f := range w.hfuncs {
		if !strings.HasPrefix(n, "P29_impl_") && !strings.HasPrefix(n, "P30_impl_") || len(w.annot(n, "raw")) > 0 || len(w.annot(n, "inline")) > 0 {
			continue
		}
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				for _, op := range ins.Operands(nil) {
					c, ok := (*op).(*ssa.Function)
					if ok && !w.isHarness(c) && isRepoPath(pkgPathOf(c)) && len(c.Params) > 0 && isLexerPtr(c.Params[0].Type()) {
						w.prods[fnKey(c)] = true
					}
				}
			}
		}
	}
	return w.prods
}

// tokenCall models the calls by which a parser moves along its tokens.
func (e *Engine) tokenCall(fr *Frame, ins ssa.Instruction, fn *ssa.Function, key string, args []*Term, st *State) (*Term, *State, bool) {
	if len(args) > 0 && len(fn.Params) > 0 && isLexerPtr(fn.Params[0].Type()) && args[0].op == "ite" {
		special := e.tokenKind(fr, fn, key) != ""
		if special {
			r, s := e.perLeaf(st, args[0], func(a *Term, st *State) (*Term, *State) {
				as := append([]*Term{a}, args[1:]...)
				return e.callFn(fr, ins, fn, nil, as, st)
			})
			return r, s, true
		}
	}
	switch e.tokenKind(fr, fn, key) {
	case "new":
		st = st.clone()
		o := e.newObj(st, "lexer", fn.Signature.Results().At(0).Type().(*types.Pointer).Elem())
		st.heap[posKey(o)] = app("start", "", nil, args[0])
		return o, st, true
	case "clone":
		st = st.clone()
		o := e.newObj(st, "lexer", fn.Signature.Results().At(0).Type().(*types.Pointer).Elem())
		st.heap[posKey(o)] = e.getLoc(st, posKey(args[0]))
		return o, st, true
	case "next", "peek":
		st = st.clone()
		name := "token"
		if e.rawTokens {
			name = "lexeme"
		}
		call := app("call", name, nil, e.getLoc(st, posKey(args[0])))
		if e.tokenKind(fr, fn, key) == "next" {
			st.heap[posKey(args[0])] = app("after", "", nil, call)
		}
		return e.results(call, fn.Signature.Results()), st, true
	case "production":
		st = st.clone()
		as := []*Term{e.getLoc(st, posKey(args[0]))}
		for _, a := range args[1:] {
			as = append(as, e.snap(st, a))
		}
		call := app("call", key, nil, as...)
		st.heap[posKey(args[0])] = app("after", "", nil, call)
		return e.results(call, fn.Signature.Results()), st, true
	}
	return nil, nil, false
}

func (e *Engine) tokenKind(fr *Frame, fn *ssa.Function, key string) string {
	p := pkgPathOf(fn)
	if !isTextPkg(p) {
		return ""
	}
	if strings.HasSuffix(p, "/lex") {
		switch {
		case fn.Name() == "New" && fn.Signature.Recv() == nil:
			return "new"
		case fn.Name() == "Clone" && isLexerPtr(fn.Params[0].Type()):
			return "clone"
		case e.rawTokens && (fn.Name() == "Next" || fn.Name() == "Peek") && isLexerPtr(fn.Params[0].Type()):
			return strings.ToLower(fn.Name())
		}
		return ""
	}
	if e.rawTokens || len(fn.Params) == 0 || !isLexerPtr(fn.Params[0].Type()) {
		return ""
	}
	if n := fnName(fn); n == "next" || n == "peek" {
		return n
	}
	if e.w.productions()[key] && !(fr != nil && e.w.isHarness(fr.fn) && strings.HasPrefix(fr.fn.Name(), "vcRun")) {
		return "production"
	}
	return ""
}
