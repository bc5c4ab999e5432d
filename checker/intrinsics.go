package main

import (
	"fmt"
	"go/types"
	"math/big"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type intrinsic func(e *Engine, fr *Frame, ins ssa.Instruction, fn *ssa.Function, args []*Term, st *State) (*Term, *State)

func pure1(g func(f *FactSet, x *Term) *Term) intrinsic {
	return func(e *Engine, fr *Frame, ins ssa.Instruction, fn *ssa.Function, args []*Term, st *State) (*Term, *State) {
		return lift(st.facts, args[0], g), st
	}
}

var intrinsics map[string]intrinsic

func ceilTerm(x *Term) *Term {
	// ceil(y/d) = floor((y+d-1)/d) for integral y
	l := big.NewInt(1)
	p := toPoly(x)
	for _, atom := range p.atoms() {
		k := p.m[atom]
		l = lcm(l, k.Denom())
	}
	l = lcm(l, p.c.Denom())
	return floorTerm(add(x, mkRat(new(big.Rat).SetFrac(new(big.Int).Sub(l, one), l))))
}

func floorTerm(x *Term) *Term {
	if !exactNum(x) {
		return app("floor", "", types.Typ[types.Float64], x)
	}
	// clear denominators: floor((1/d)·y) = fdiv(y,d)
	l := big.NewInt(1)
	p := toPoly(x)
	for _, a := range p.atoms() {
		k := p.m[a]
		if a.op == "log2" {
			return app("floor", "", nil, x)
		}
		l = lcm(l, k.Denom())
	}
	l = lcm(l, p.c.Denom())
	if l.Cmp(one) == 0 {
		return x
	}
	lr := new(big.Rat).SetInt(l)
	return floorDiv(scale(x, lr), mkRat(lr), nil)
}

func hasLog2(x *Term) bool {
	for a := range toPoly(x).m {
		if a.op == "log2" {
			return true
		}
	}
	return false
}

func errTerm(e *Engine, st *State, args []*Term) *Term {
	var ws []*Term
	for _, a := range args {
		c := e.sliceContent(st, a)
		if c.op != "seq" {
			continue
		}
		for _, x := range c.args {
			switch {
			case x.op == "err":
				ws = append(ws, x)
			case x.op == "iface" && types.Implements(x.typ, types.Universe.Lookup("error").Type().Underlying().(*types.Interface)):
				ws = append(ws, app("errval", "", x.typ))
			}
		}
	}
	return app("err", "new", nil, ws...)
}

func init() {
	f64 := types.Typ[types.Float64]
	f32 := types.Typ[types.Float32]
	u8, u16, u32, u64 := types.Typ[types.Uint8], types.Typ[types.Uint16], types.Typ[types.Uint32], types.Typ[types.Uint64]
	_ = u8
	intrinsics = map[string]intrinsic{
		"math.Ceil": pure1(func(f *FactSet, x *Term) *Term {
			if exactNum(x) && !hasLog2(x) {
				return ceilTerm(x)
			}
			return app("ceil", "", nil, x)
		}),
		"math.Floor": pure1(func(f *FactSet, x *Term) *Term { return floorTerm(x) }),
		"math.Log2": pure1(func(f *FactSet, x *Term) *Term {
			if n, ok := constInt(x); ok && isPow2(big.NewInt(n)) {
				return mkInt(int64(big.NewInt(n).BitLen() - 1))
			}
			return app("log2", "", nil, x)
		}),
		"math.IsNaN":           pure1(func(f *FactSet, x *Term) *Term { return isNaN(x) }),
		"math.Float32bits":     pure1(func(f *FactSet, x *Term) *Term { return fbits("f32bits", "f32frombits", u32, x) }),
		"math.Float64bits":     pure1(func(f *FactSet, x *Term) *Term { return fbits("f64bits", "f64frombits", u64, x) }),
		"math.Float32frombits": pure1(func(f *FactSet, x *Term) *Term { return fbits("f32frombits", "f32bits", f32, x) }),
		"math.Float64frombits": pure1(func(f *FactSet, x *Term) *Term { return fbits("f64frombits", "f64bits", f64, x) }),
		"math.NaN": func(e *Engine, fr *Frame, ins ssa.Instruction, fn *ssa.Function, args []*Term, st *State) (*Term, *State) {
			return fbits("f64frombits", "f64bits", f64, mkBig(new(big.Int).SetUint64(0x7FF8000000000001))), st
		},
		"math/bits.Len":   pure1(func(f *FactSet, x *Term) *Term { return app("bitlen", "", nil, x) }),
		"math/bits.Len32": pure1(func(f *FactSet, x *Term) *Term { return app("bitlen", "", nil, x) }),
		"math/bits.Len64": pure1(func(f *FactSet, x *Term) *Term { return app("bitlen", "", nil, x) }),
		"unicode/utf8.ValidRune": pure1(func(f *FactSet, x *Term) *Term {
			// a negative rune is no more valid than the unsigned number it is made of
			if x.op == "wrap" && x.aux == "s32" && inKind(f, "u32", x.args[0]) {
				x = x.args[0]
			}
			low := bAnd(mkGe0(x), mkGe0(sub(mkInt(0xd7ff), x)))
			return bOr(low, bAnd(mkGe0(addc(x, -0xe000)), mkGe0(sub(mkInt(0x10ffff), x))))
		}),
		"strconv.Itoa": pure1(func(f *FactSet, x *Term) *Term { return itoa(x) }),
		"strconv.FormatInt": func(e *Engine, fr *Frame, ins ssa.Instruction, fn *ssa.Function, args []*Term, st *State) (*Term, *State) {
			if n, ok := constInt(args[1]); ok && n == 10 {
				return lift(st.facts, args[0], func(_ *FactSet, x *Term) *Term { return itoa(x) }), st
			}
			return e.opaque(fr, ins, fnKey(fn), modePure, args, fn.Signature.Results(), st, nil)
		},
		"fmt.Errorf": func(e *Engine, fr *Frame, ins ssa.Instruction, fn *ssa.Function, args []*Term, st *State) (*Term, *State) {
			return errTerm(e, st, args), st
		},
		"errors.New": func(e *Engine, fr *Frame, ins ssa.Instruction, fn *ssa.Function, args []*Term, st *State) (*Term, *State) {
			return app("err", "new", nil), st
		},
		"fmt.Sprintf": func(e *Engine, fr *Frame, ins ssa.Instruction, fn *ssa.Function, args []*Term, st *State) (*Term, *State) {
			if args[0].op == "str" && args[0].aux == "%d" {
				c := e.sliceContent(st, args[1])
				if c.op == "seq" && len(c.args) == 1 && c.args[0].op == "iface" {
					if _, ok := intKind(c.args[0].typ); ok {
						return lift(st.facts, c.args[0].args[0], func(_ *FactSet, x *Term) *Term { return itoa(x) }), st
					}
				}
			}
			return e.opaque(fr, ins, fnKey(fn), modePure, args, fn.Signature.Results(), st, nil)
		},
		"(*bytes.Buffer).Bytes": func(e *Engine, fr *Frame, ins ssa.Instruction, fn *ssa.Function, args []*Term, st *State) (*Term, *State) {
			if args[0].op == "addr" { // not guest memory
				return e.opaque(fr, ins, fnKey(fn), modeEvent, args, fn.Signature.Results(), st, nil)
			}
			return lift(st.facts, args[0], func(_ *FactSet, b *Term) *Term {
				return app("msl", "", types.NewSlice(types.Typ[types.Uint8]), b, mkInt(0), memlen(b, e.getLoc(st, lenverKey)))
			}), st
		},
		// ISO 8859-1 encodes exactly the first 256 code points
		"(*golang.org/x/text/encoding/charmap.Charmap).EncodeRune": func(e *Engine, fr *Frame, ins ssa.Instruction, fn *ssa.Function, args []*Term, st *State) (*Term, *State) {
			if args[0].op != "ld" || !has(args[0], func(t *Term) bool { return strings.HasSuffix(t.aux, "charmap.ISO8859_1") }) {
				return e.opaque(fr, ins, fnKey(fn), modePure, args, fn.Signature.Results(), st, nil)
			}
			in := lift(st.facts, args[1], func(_ *FactSet, r *Term) *Term { return bAnd(mkGe0(r), mkGe0(sub(mkInt(255), r))) })
			b := lift(st.facts, args[1], func(f *FactSet, r *Term) *Term { return wrapTerm("u8", r, f) })
			return packRes([]*Term{mkIte(in, b, app("sub", "", types.Typ[types.Uint8])), in}), st
		},
		"(*bytes.Buffer).Len": func(e *Engine, fr *Frame, ins ssa.Instruction, fn *ssa.Function, args []*Term, st *State) (*Term, *State) {
			if args[0].op == "addr" { // not guest memory
				return e.opaque(fr, ins, fnKey(fn), modeEvent, args, fn.Signature.Results(), st, nil)
			}
			return lift(st.facts, args[0], func(_ *FactSet, b *Term) *Term { return memlen(b, e.getLoc(st, lenverKey)) }), st
		},
	}
	for n, w := range map[string]int{"16": 2, "32": 4, "64": 8} {
		w := w
		t := map[int]types.Type{2: u16, 4: u32, 8: u64}[w]
		for _, be := range []bool{false, true} {
			be := be
			recv := "(encoding/binary.littleEndian)"
			if be {
				recv = "(encoding/binary.bigEndian)"
			}
			intrinsics[recv+".Uint"+n] = func(e *Engine, fr *Frame, ins ssa.Instruction, fn *ssa.Function, args []*Term, st *State) (*Term, *State) {
				st = st.clone()
				b := args[1]
				if !e.inBounds(fr, st, mkInt(int64(w-1)), e.sliceLen(st, b), boundsRule(b), ins.Pos()) {
					return nil, nil
				}
				r := mkInt(0)
				for i := 0; i < w; i++ {
					x := e.loadElem(st, app("ia", "", types.Typ[types.Uint8], b, mkInt(int64(i))), types.Typ[types.Uint8])
					sh := i
					if be {
						sh = w - 1 - i
					}
					r = lift2(st.facts, r, x, func(_ *FactSet, r, x *Term) *Term { return add(r, scale(x, bpow(uint(8*sh)))) })
				}
				_ = t
				return r, st
			}
			intrinsics[recv+".PutUint"+n] = func(e *Engine, fr *Frame, ins ssa.Instruction, fn *ssa.Function, args []*Term, st *State) (*Term, *State) {
				st = st.clone()
				b := args[1]
				if !e.inBounds(fr, st, mkInt(int64(w-1)), e.sliceLen(st, b), boundsRule(b), ins.Pos()) {
					return nil, nil
				}
				for i := 0; i < w; i++ {
					sh := i
					if be {
						sh = w - 1 - i
					}
					v := lift(st.facts, args[2], func(f *FactSet, x *Term) *Term {
						return wrapTerm("u8", shr(x, mkInt(int64(8*sh)), f), f)
					})
					e.storeElem(st, app("ia", "", types.Typ[types.Uint8], b, mkInt(int64(i))), v)
				}
				return tNil, st
			}
		}
	}
}

func boundsRule(b *Term) string {
	if b.op == "msl" {
		return "mem"
	}
	return "index"
}

func memlen(buf, ver *Term) *Term {
	return app("len", "mem", nil, buf, ver)
}

func itoa(x *Term) *Term {
	if n, ok := constInt(x); ok {
		return mkStr(strconv.FormatInt(n, 10))
	}
	return app("itoa", "", types.Typ[types.String], x)
}

func fbits(op, inv string, t types.Type, x *Term) *Term {
	if x.op == inv {
		return x.args[0]
	}
	return app(op, "", t, x)
}

var _ = fmt.Sprint

// Cutting a prefix or suffix off is testing for it and taking the rest.
func init() {
	cut := func(test string, prefix, tell bool) func(*Engine, *Frame, ssa.Instruction, *ssa.Function, []*Term, *State) (*Term, *State) {
		return func(e *Engine, fr *Frame, ins ssa.Instruction, fn *ssa.Function, args []*Term, st *State) (*Term, *State) {
			has := app("res", "0", types.Typ[types.Bool], app("call", test, nil, e.snap(st, args[0]), e.snap(st, args[1])))
			rest := lift2(st.facts.with(has), args[0], args[1], func(f *FactSet, s, x *Term) *Term {
				if prefix {
					return seqSub(s, seqLen(x), seqLen(s), f)
				}
				return seqSub(s, mkInt(0), sub(seqLen(s), seqLen(x)), f)
			})
			r := mkIte(has, rest, args[0])
			if tell {
				return app("tuple", "", nil, r, has), st
			}
			return r, st
		}
	}
	intrinsics["strings.CutPrefix"] = cut("strings.HasPrefix", true, true)
	intrinsics["strings.CutSuffix"] = cut("strings.HasSuffix", false, true)
	intrinsics["strings.TrimPrefix"] = cut("strings.HasPrefix", true, false)
	intrinsics["strings.TrimSuffix"] = cut("strings.HasSuffix", false, false)
}
