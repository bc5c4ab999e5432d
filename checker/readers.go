package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Input streams: reading n bytes from a reader is one effect, whichever of
// the library's ways of filling a buffer is used. A successful read yields n
// bytes that only the effect identifies; a failed one yields an error.

func (e *Engine) readN(st *State, r, n *Term) (ev, bytes, ok *Term) {
	// reading no bytes has no effect
	none := liftEq0(st.facts, n)
	tr, lv := e.getLoc(st, traceKey), e.getLoc(st, lenverKey)
	ev = e.event(st, "read", append([]*Term{e.snap(st, r), n}, e.deltas(st)...)...)
	st.heap[lenverKey] = ev
	if none.op != "false" {
		st.heap[traceKey] = mkIte(none, tr, st.heap[traceKey])
		st.heap[lenverKey] = mkIte(none, lv, ev)
	}
	R := app("res", "bytes", types.NewSlice(types.Typ[types.Uint8]), ev)
	if k, isc := constInt(n); isc && k >= 0 && k <= 64 {
		var es []*Term
		for i := int64(0); i < k; i++ {
			es = append(es, app("idx", "", types.Typ[types.Uint8], R, mkInt(i)))
		}
		bytes = seqLit(es...)
	} else {
		bytes = seqSub(R, mkInt(0), n, st.facts)
	}
	return ev, bytes, mkIte(none, tTrue, app("ok", "", nil, ev))
}

func liftEq0(f *FactSet, n *Term) *Term {
	return lift(f, n, func(g *FactSet, x *Term) *Term {
		switch c := mkEq0(x); g.decide(c) {
		case 1:
			return tTrue
		case -1:
			return tFalse
		default:
			return c
		}
	})
}

func (e *Engine) fill(st *State, s, bytes *Term) {
	off := mkInt(0)
	if s.op == "sl" {
		off = s.args[1]
	}
	k := contentKey(s)
	c := e.getLoc(st, k)
	st.heap[k] = seqCat(seqSub(c, mkInt(0), off, st.facts), bytes, seqSub(c, add(off, seqLen(bytes)), seqLenL(c), st.facts))
}

func init() {
	intrinsics["io.ReadFull"] = func(e *Engine, fr *Frame, ins ssa.Instruction, fn *ssa.Function, args []*Term, st *State) (*Term, *State) {
		if args[1].op != "sl" {
			return e.opaque(fr, ins, fnKey(fn), modeEvent, args, fn.Signature.Results(), st, nil)
		}
		st = st.clone()
		n := e.sliceLen(st, args[1])
		ev, bs, ok := e.readN(st, args[0], n)
		e.fill(st, args[1], bs)
		return packRes([]*Term{mkIte(ok, n, app("res", "0", types.Typ[types.Int], ev)), mkIte(ok, tNil, app("err", "call", nil, ev))}), st
	}
	intrinsics["encoding/binary.Read"] = func(e *Engine, fr *Frame, ins ssa.Instruction, fn *ssa.Function, args []*Term, st *State) (*Term, *State) {
		d := args[2]
		little := args[1].op == "iface" && args[1].typ.String() == "encoding/binary.littleEndian"
		opaque := func() (*Term, *State) {
			return e.opaque(fr, ins, fnKey(fn), modeEvent, args, fn.Signature.Results(), st, nil)
		}
		if d.op != "iface" {
			return opaque()
		}
		switch t := d.typ.Underlying().(type) {
		case *types.Slice:
			if b, ok := t.Elem().Underlying().(*types.Basic); !ok || b.Kind() != types.Uint8 || d.args[0].op != "sl" {
				return opaque()
			}
			st = st.clone()
			ev, bs, ok := e.readN(st, args[0], e.sliceLen(st, d.args[0]))
			e.fill(st, d.args[0], bs)
			return mkIte(ok, tNil, app("err", "call", nil, ev)), st
		case *types.Pointer:
			b, ok := t.Elem().Underlying().(*types.Basic)
			if !ok {
				return opaque()
			}
			w, ok := map[types.BasicKind]int{types.Uint8: 1, types.Uint16: 2, types.Uint32: 4, types.Uint64: 8}[b.Kind()]
			if !ok || !little && w > 1 {
				return opaque()
			}
			st = st.clone()
			ev, bs, okT := e.readN(st, args[0], mkInt(int64(w)))
			v := mkInt(0)
			for i := 0; i < w; i++ {
				v = add(v, scale(bs.args[i], bpow(uint(8*i))))
			}
			old := e.load(st, d.args[0], t.Elem())
			e.store(st, d.args[0], mkIte(okT, v, old), t.Elem())
			return mkIte(okT, tNil, app("err", "call", nil, ev)), st
		}
		return opaque()
	}
	intrinsics["slices.Equal"] = func(e *Engine, fr *Frame, ins ssa.Instruction, fn *ssa.Function, args []*Term, st *State) (*Term, *State) {
		a, b := e.sliceContent(st, args[0]), e.sliceContent(st, args[1])
		if a.op == "seq" && b.op == "seq" {
			if len(a.args) != len(b.args) {
				return tFalse, st
			}
			r := tTrue
			for i := range a.args {
				et := fn.Signature.Params().At(0).Type().Underlying().(*types.Slice).Elem()
				r = bAnd(r, eqVal(a.args[i], b.args[i], et))
			}
			return r, st
		}
		return e.opaque(fr, ins, fnKey(fn), modePure, args, fn.Signature.Results(), st, nil)
	}
	intrinsics["bytes.Equal"] = intrinsics["slices.Equal"]
	intrinsics["errors.Is"] = func(e *Engine, fr *Frame, ins ssa.Instruction, fn *ssa.Function, args []*Term, st *State) (*Term, *State) {
		tgt := e.snap(st, args[1])
		return lift(st.facts, e.snap(st, args[0]), func(_ *FactSet, x *Term) *Term {
			switch {
			case x.op == "nil":
				return mkBool(tgt.op == "nil")
			case x == tgt:
				return tTrue
			case x.op == "err" && x.aux == "new" && len(x.args) == 0:
				return tFalse
			case e.w.plainErr(x) && e.w.plainErr(tgt):
				return tFalse
			}
			return app("call", "errors.Is", types.Typ[types.Bool], x, tgt)
		}), st
	}
}

// plainErr: a sentinel error variable that wraps no other error.
func (w *World) plainErr(t *Term) bool {
	if t.op != "err" || !strings.HasPrefix(t.aux, "global ") {
		return false
	}
	name := strings.TrimPrefix(t.aux, "global ")
	if strings.HasPrefix(name, "io.") {
		return true
	}
	for fn := range w.allFuncs {
		if fn.Synthetic != "package initializer" || !isRepoPath(pkgPathOf(fn)) {
			continue
		}
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				st, ok := ins.(*ssa.Store)
				if !ok {
					continue
				}
				g, ok := st.Addr.(*ssa.Global)
				if !ok || g.RelString(nil) != name {
					continue
				}
				c, ok := st.Val.(*ssa.Call)
				return ok && c.Call.StaticCallee() != nil && fnKey(c.Call.StaticCallee()) == "errors.New"
			}
		}
	}
	return false
}
