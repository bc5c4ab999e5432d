package main

import (
	"fmt"
	"go/types"
	"regexp"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- calls ----

func packRes(rs []*Term) *Term {
	switch len(rs) {
	case 0:
		return tNil
	case 1:
		return rs[0]
	}
	return app("tuple", "", nil, rs...)
}

func (e *Engine) doCall(fr *Frame, ins ssa.Instruction, cc *ssa.CallCommon, st *State) (*Term, *State) {
	if b, ok := cc.Value.(*ssa.Builtin); ok {
		return e.builtin(fr, ins, b, cc, st)
	}
	var args []*Term
	for _, a := range cc.Args {
		args = append(args, e.val(fr, a, st))
	}
	if cc.IsInvoke() {
		recv := e.resolveIface(st, e.val(fr, cc.Value, st), cc.Value.Type())
		return e.perLeaf(st, recv, func(r *Term, st *State) (*Term, *State) {
			return e.invoke(fr, ins, r, cc, args, st)
		})
	}
	fn := e.val(fr, cc.Value, st)
	return e.applyFn(fr, ins, fn, args, cc, st)
}

// perLeaf evaluates g for every alternative of a gated value and joins.
func (e *Engine) perLeaf(st *State, v *Term, g func(*Term, *State) (*Term, *State)) (*Term, *State) {
	if v.op != "ite" {
		return g(v, st)
	}
	// group leaves
	type grp struct {
		leaf *Term
		cond *Term
	}
	var gs []*grp
	leaves(st.facts, v, func(f *FactSet, c, l *Term) {
		for _, x := range gs {
			if x.leaf == l {
				x.cond = bOr(x.cond, c)
				return
			}
		}
		gs = append(gs, &grp{l, c})
	})
	var es []*State
	var vs []*Term
	nthrown := len(e.thrown)
	for _, x := range gs {
		s := st.clone()
		s.cond = x.cond
		s.facts = st.facts.withCond(x.cond)
		if s.facts.unsat {
			continue
		}
		r, s2 := g(x.leaf, s)
		if s2 == nil || s2.facts.unsat {
			continue
		}
		if len(e.thrown) == nthrown {
			s2.cond = x.cond
		}
		es = append(es, s2)
		vs = append(vs, r)
	}
	for _, t := range e.thrown[nthrown:] {
		t.st.cond = bAnd(st.cond, t.st.cond)
	}
	if len(es) == 0 {
		return nil, nil
	}
	m := e.merge(es)
	r := restrict(gateTuple(es, vs), m.facts)
	if len(e.thrown) == nthrown {
		m.cond = st.cond
	} else {
		m.facts = m.facts.withCond(m.cond)
		m.cond = bAnd(st.cond, m.cond)
	}
	return r, m
}

func gateTuple(es []*State, vs []*Term) *Term {
	for _, v := range vs {
		if v == nil {
			return tNil
		}
	}
	return gate(es, vs)
}

func (e *Engine) invoke(fr *Frame, ins ssa.Instruction, r *Term, cc *ssa.CallCommon, args []*Term, st *State) (*Term, *State) {
	switch r.op {
	case "nil":
		e.obligation(fr, st, tFalse, "nil", "method "+cc.Method.Name()+" on nil interface", ins.Pos())
		return nil, nil
	case "iface":
		m := e.w.prog.LookupMethod(r.typ, cc.Method.Pkg(), cc.Method.Name())
		if m == nil {
			fail("no method %s on %s", cc.Method.Name(), r.typ)
		}
		return e.callFn(fr, ins, m, nil, append([]*Term{r.args[0]}, args...), st)
	}
	if e.symNil {
		if !e.obligation(fr, st, mkNot(mkIsNil(r)), "nil", "method "+cc.Method.Name()+" on "+r.String(), ins.Pos()) {
			return nil, nil
		}
	}
	key := "inv:" + shortType(cc.Value.Type()) + "." + cc.Method.Name()
	mode := modeEvent
	if e.imode != nil {
		mode = e.imode(cc.Value.Type(), cc.Method.Name())
	}
	if isErrorType(cc.Value.Type()) {
		mode = modePure
	}
	return e.opaque(fr, ins, key, mode, append([]*Term{r}, args...), cc.Signature().Results(), st, nil)
}

func (e *Engine) applyFn(fr *Frame, ins ssa.Instruction, fn *Term, args []*Term, cc *ssa.CallCommon, st *State) (*Term, *State) {
	return e.perLeaf(st, fn, func(fn *Term, st *State) (*Term, *State) {
		switch fn.op {
		case "fn":
			return e.callFn(fr, ins, fn.obj.(*ssa.Function), nil, args, st)
		case "clo":
			return e.callFn(fr, ins, fn.obj.(*ssa.Function), fn.args, args, st)
		case "nil":
			e.obligation(fr, st, tFalse, "nil", "call of nil function", ins.Pos())
			return nil, nil
		case "builtin":
			fail("deferred builtin")
		}
		if e.symNil {
			if !e.obligation(fr, st, mkNot(mkIsNil(fn)), "nil", "call of "+fn.String(), ins.Pos()) {
				return nil, nil
			}
		}
		return e.opaque(fr, ins, "callback", modeEvent, append([]*Term{fn}, args...), cc.Signature().Results(), st, nil)
	})
}

func (e *Engine) callFn(fr *Frame, ins ssa.Instruction, fn *ssa.Function, binds, args []*Term, st *State) (*Term, *State) {
	key := fnKey(fn)
	if r, ok := e.replace[key]; ok {
		fn = r
		key = fnKey(r)
	}
	if e.tokens {
		if r, s, ok := e.tokenCall(fr, ins, fn, key, args, st); ok {
			return r, s
		}
	}
	if in, ok := intrinsics[key]; ok {
		return in(e, fr, ins, fn, args, st)
	}
	if e.w.isHarness(fn) {
		switch fn.Name() {
		case "assume", "axiom", "vcAssume":
			if fn.Name() == "axiom" {
				e.axioms = append(e.axioms, args[0])
				if e.loopDepth == 0 {
					e.given = append(e.given, args[0])
				}
			} else if e.loopDepth == 0 && fr != nil && topRe.MatchString(fr.fn.Name()) && st.cond == tTrue {
				// the precondition of the whole pair
				e.given = append(e.given, args[0])
			}
			st = st.clone()
			st.facts = st.facts.withCond(args[0])
			if st.facts.unsat {
				return nil, nil
			}
			return tNil, st
		}
		if strings.HasPrefix(fn.Name(), "any") && len(fn.Blocks) > 0 {
			// pure uninterpreted function of its arguments
			return e.opaque(fr, ins, key, modePure, args, fn.Signature.Results(), st, nil)
		}
	}
	if key == ioPath+".AlignTo" && !e.inlineAlign {
		// contract established by the alignment pairs of P01
		r := lift2(st.facts, args[0], args[1], func(_ *FactSet, p, a *Term) *Term { return alignUp(p, a) })
		return packRes([]*Term{r, tNil}), st
	}
	if e.mode != nil {
		// an anchor whose deciding argument is gated is dispatched per leaf
		if i := e.w.anchorArg(key); i >= 0 && i < len(args) && args[i].op == "ite" {
			return e.perLeaf(st, args[i], func(a *Term, st *State) (*Term, *State) {
				as := append([]*Term{}, args...)
				as[i] = a
				for j := range as {
					if j != i {
						as[j] = restrict(as[j], st.facts)
					}
				}
				return e.callFn(fr, ins, fn, binds, as, st)
			})
		}
		if m, ok := e.mode(e, fr, fn, args, st); ok && m != modeInline {
			return e.opaque(fr, ins, key, m, args, fn.Signature.Results(), st, fn)
		}
	}
	if e.w.inlinable(fn) && len(fn.Blocks) > 0 {
		n := 0
		for f := fr; f != nil; f = f.parent {
			if f.fn == fn {
				n++
			}
		}
		if n < 6 {
			rs, s := e.call(fr, ins, fn, args, binds, st)
			if s == nil {
				return nil, nil
			}
			return packRes(rs), s
		}
		fail("unbounded recursion through %s", fn)
	}
	mode := modeEvent
	if strings.HasPrefix(key, "(*strings.") || strings.HasPrefix(key, "fmt.F") || strings.HasPrefix(key, "fmt.P") || strings.HasPrefix(key, "fmt.Sc") {
		// has effects
	} else if fn.Pkg != nil && purePkgs[fn.Pkg.Pkg.Path()] {
		mode = modePure
	} else if o := fn.Origin(); o != nil && o.Pkg != nil && purePkgs[o.Pkg.Pkg.Path()] {
		mode = modePure
	}
	return e.opaque(fr, ins, key, mode, args, fn.Signature.Results(), st, fn)
}

var purePkgs = map[string]bool{
	"math": true, "math/bits": true, "strings": true, "strconv": true, "unicode": true,
	"unicode/utf8": true, "unicode/utf16": true, "fmt": true, "errors": true, "reflect": true, "slices": true, "maps": true, "cmp": true,
	"golang.org/x/text/encoding/charmap": true, "golang.org/x/text/encoding/unicode": true, "golang.org/x/text/encoding": true, "golang.org/x/text/transform": true,
}

// opaque models a call whose body is not looked into.
func (e *Engine) opaque(fr *Frame, ins ssa.Instruction, key string, mode CallMode, args []*Term, results *types.Tuple, st *State, fn *ssa.Function) (*Term, *State) {
	st = st.clone()
	var sn []*Term
	for _, a := range args {
		sn = append(sn, e.snap(st, a))
	}
	var call *Term
	switch mode {
	case modePure:
		call = app("call", key, nil, sn...)
	case modeRead:
		call = app("call", key, nil, append(sn, e.getLoc(st, traceKey))...)
	default:
		sn = append(sn, e.deltas(st)...)
		call = e.event(st, key, sn...)
		st.heap[lenverKey] = call
		if e.events != nil && ins != nil {
			if _, ok := e.events[key]; !ok {
				e.events[key] = ins.Pos()
			}
		}
		e.havoc(st, fn, args, call)
	}
	return e.results(call, results), st
}

// deltas lists the modified parts of objects that exist outside the
// activation, which an effectful callee may observe.
func (e *Engine) deltas(st *State) []*Term {
	var ks []*Term
	for k, v := range st.heap {
		if k == traceKey || k == lenverKey || k.op == "alive" || k.op == "itpos" || rootFresh(k) || k.op == "modver" {
			continue
		}
		if g, ok := e.globals[k]; ok && g == v {
			continue
		}
		if v == e.defaultVal(k) {
			continue
		}
		ks = append(ks, k)
	}
	sort.Slice(ks, func(i, j int) bool { return ks[i].id < ks[j].id })
	var out []*Term
	for _, k := range ks {
		out = append(out, app("delta", "", nil, k, e.snap(st, st.heap[k])))
	}
	return out
}

// havoc forgets the fields that the callee may modify.
func (e *Engine) havoc(st *State, fn *ssa.Function, args []*Term, ev *Term) {
	if fn == nil {
		return
	}
	mod := e.w.modSet(fn)
	if len(mod) == 0 {
		return
	}
	// objects reachable from the arguments, named by access path
	var names []string
	for f := range mod {
		names = append(names, f)
	}
	sort.Strings(names)
	for _, f := range names {
		st.heap[app("modver", f, nil)] = ev
	}
	for k := range st.heap {
		if k.op == "fa" && !rootFresh(k) {
			if mod[e.fieldKey(k)] {
				delete(st.heap, k)
			}
		}
	}
	seen := map[*Term]bool{}
	var walk func(path string, v *Term, t types.Type, d int)
	walk = func(path string, v *Term, t types.Type, d int) {
		if d > 6 {
			return
		}
		switch v.op {
		case "iface":
			walk(path, v.args[0], v.typ, d+1)
			return
		case "ite":
			walk(path, v.args[1], t, d+1)
			walk(path, v.args[2], t, d+1)
			return
		case "clo":
			for i, b := range v.args {
				walk(fmt.Sprintf("%s.b%d", path, i), b, nil, d+1)
			}
			return
		case "addr":
		default:
			return
		}
		if seen[v] {
			return
		}
		seen[v] = true
		o := v.obj.(*Object)
		if !o.fresh {
			return
		}
		s, ok := o.typ.Underlying().(*types.Struct)
		if !ok {
			if _, isB := o.typ.Underlying().(*types.Basic); !isB {
				walk(path+".*", e.load(st, v, o.typ), o.typ, d+1)
			}
			return
		}
		for i := 0; i < s.NumFields(); i++ {
			fl := e.fieldAddr(v, i, s.Field(i).Type(), s.Field(i).Name())
			if mod[typeKey(o.typ)+"."+s.Field(i).Name()] {
				st.heap[fl] = app("hv", path+"."+s.Field(i).Name(), s.Field(i).Type(), ev)
				continue
			}
			walk(path+"."+s.Field(i).Name(), e.load(st, fl, s.Field(i).Type()), s.Field(i).Type(), d+1)
		}
	}
	for i, a := range args {
		walk(fmt.Sprintf("a%d", i), a, nil, 0)
	}
}

// fieldKey names the struct field a location denotes.
func (e *Engine) fieldKey(loc *Term) string {
	p := loc.args[0]
	var t types.Type
	switch p.op {
	case "addr":
		t = p.obj.(*Object).typ
	case "fa", "ia":
		t = p.typ
	default:
		t = p.typ
		if t != nil {
			if pt, ok := t.Underlying().(*types.Pointer); ok {
				t = pt.Elem()
			}
		}
	}
	if t == nil {
		return ""
	}
	i := strings.IndexByte(loc.aux, ' ')
	return typeKey(t) + "." + loc.aux[i+1:]
}

// ---- builtins ----

func (e *Engine) builtin(fr *Frame, ins ssa.Instruction, b *ssa.Builtin, cc *ssa.CallCommon, st *State) (*Term, *State) {
	var args []*Term
	for _, a := range cc.Args {
		args = append(args, e.val(fr, a, st))
	}
	f := st.facts
	switch b.Name() {
	case "len":
		switch cc.Args[0].Type().Underlying().(type) {
		case *types.Slice:
			return e.sliceLen(st, args[0]), st
		case *types.Map:
			return lift(f, e.mapContent(st, args[0]), func(_ *FactSet, m *Term) *Term { return mapLen(m) }), st
		}
		if p, ok := cc.Args[0].Type().Underlying().(*types.Pointer); ok {
			return mkInt(p.Elem().Underlying().(*types.Array).Len()), st
		}
		return seqLenL(args[0]), st
	case "cap":
		return app("cap", "", types.Typ[types.Int], e.snap(st, args[0])), st
	case "append":
		if len(args) == 1 {
			return args[0], st
		}
		elem := cc.Args[0].Type().Underlying().(*types.Slice).Elem()
		c1 := e.sliceContent(st, args[0])
		c2 := e.sliceContent(st, args[1])
		c := lift2(f, c1, c2, func(_ *FactSet, x, y *Term) *Term { return seqCat(x, y) })
		st = st.clone()
		return e.newSlice(st, "append", elem, c), st
	case "copy":
		return e.copyBuiltin(fr, ins, args, st)
	case "delete":
		st = st.clone()
		ck := contentKey(args[0])
		st.heap[ck] = app("mdel", "", nil, e.getLoc(st, ck), args[1])
		return tNil, st
	case "min", "max":
		t := cc.Args[0].Type()
		if _, ok := intKind(t); !ok {
			return app("call", "builtin:"+b.Name(), t, args...), st
		}
		r := args[0]
		for _, a := range args[1:] {
			r = lift2(f, r, a, func(_ *FactSet, x, y *Term) *Term {
				c := mkGe0(sub(x, y)) // x >= y
				if b.Name() == "min" {
					c = mkGe0(sub(y, x))
				}
				return mkIte(c, x, y)
			})
		}
		return r, st
	case "print", "println":
		return tNil, st
	case "recover":
		return tNil, st
	case "ssa:wrapnilchk":
		return args[0], st
	}
	fail("unsupported builtin %s in %s", b.Name(), fr.fn)
	return nil, nil
}

func (e *Engine) copyBuiltin(fr *Frame, ins ssa.Instruction, args []*Term, st *State) (*Term, *State) {
	st = st.clone()
	dst, src := args[0], args[1]
	if dst.op == "ite" {
		fail("copy into a conditional slice")
	}
	sc := e.sliceContent(st, src)
	dn, sn := e.sliceLen(st, dst), seqLenL(sc)
	n := lift2(st.facts, dn, sn, func(f *FactSet, a, b *Term) *Term {
		if f.entails(sub(a, b)) {
			return b
		}
		if f.entails(sub(b, a)) {
			return a
		}
		return mkIte(mkGe0(sub(a, b)), b, a)
	})
	part := lift2(st.facts, sc, n, func(f *FactSet, c, n *Term) *Term { return seqSub(c, mkInt(0), n, f) })
	switch dst.op {
	case "msl":
		tr := e.getLoc(st, traceKey)
		st.heap[traceKey] = lift2(st.facts, tr, part, func(_ *FactSet, tr, p *Term) *Term {
			return app("memcpy", "", nil, tr, dst.args[0], dst.args[1], p)
		})
	default:
		off := mkInt(0)
		if dst.op == "sl" {
			off = dst.args[1]
		}
		k := contentKey(dst)
		c := e.getLoc(st, k)
		st.heap[k] = liftN(st.facts, []*Term{c, part, n}, func(f *FactSet, a []*Term) *Term {
			return seqCat(seqSub(a[0], mkInt(0), off, f), a[1], seqSub(a[0], add(off, a[2]), seqLen(a[0]), f))
		})
	}
	return n, st
}

var topRe = regexp.MustCompile(`^P\d\d_(impl|spec|alt|alt2)_`)
