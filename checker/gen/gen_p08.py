ints=[("u8","U8","uint8","U32","uint32"),("u16","U16","uint16","U32","uint32"),("u32","U32","uint32","U32","uint32"),("u64","U64","uint64","U64","uint64"),
("s8","S8","int8","U32","uint32"),("s16","S16","int16","U32","uint32"),("s32","S32","int32","U32","uint32"),("s64","S64","int64","U64","uint64")]
out='''//go:build ignore

package zzverif

import (
	"math"

	"github.com/patrickhuber/go-wasm/abi/io"
	"github.com/patrickhuber/go-wasm/abi/kind"
	"github.com/patrickhuber/go-wasm/abi/types"
	"github.com/patrickhuber/go-wasm/abi/values"
)

func next32(vi values.ValueIterator) (uint32, error) {
	x, err := vi.Next(kind.U32)
	if err != nil {
		return 0, reject()
	}
	u, ok := x.(uint32)
	if !ok {
		return 0, reject()
	}
	return u, nil
}
func next64(vi values.ValueIterator) (uint64, error) {
	x, err := vi.Next(kind.U64)
	if err != nil {
		return 0, reject()
	}
	u, ok := x.(uint64)
	if !ok {
		return 0, reject()
	}
	return u, nil
}
'''
for n,T,g,K,w in ints:
    b="32" if K=="U32" else "64"
    out+=f'''
func P08_impl_lift_{n}(cx *types.CallContext, vi values.ValueIterator) (any, error) {{
	return io.LiftFlat(cx, vi, types.New{T}())
}}
func P08_spec_lift_{n}(cx *types.CallContext, vi values.ValueIterator) (any, error) {{
	u, err := next{b}(vi)
	if err != nil {{
		return nil, err
	}}
	return {g}(u), nil
}}
func P08_impl_lower_{n}(cx *types.CallContext, v any) ([]values.Value, error) {{
	return io.LowerFlat(cx, v, types.New{T}())
}}
func P08_spec_lower_{n}(cx *types.CallContext, v any) ([]values.Value, error) {{
	x, ok := v.({g})
	if !ok {{
		return nil, reject()
	}}
	return []values.Value{{values.{K}({'int64(x)' if K=='U64' else w+'(x)'})}}, nil
}}
'''
out+='''
func P08_impl_lift_bool(cx *types.CallContext, vi values.ValueIterator) (any, error) {
	return io.LiftFlat(cx, vi, types.NewBool())
}
func P08_spec_lift_bool(cx *types.CallContext, vi values.ValueIterator) (any, error) {
	u, err := next32(vi)
	if err != nil {
		return nil, err
	}
	return u != 0, nil
}
func P08_impl_lower_bool(cx *types.CallContext, v any) ([]values.Value, error) {
	return io.LowerFlat(cx, v, types.NewBool())
}
func P08_spec_lower_bool(cx *types.CallContext, v any) ([]values.Value, error) {
	b, ok := v.(bool)
	if !ok {
		return nil, reject()
	}
	if b {
		return []values.Value{values.U32(1)}, nil
	}
	return []values.Value{values.U32(0)}, nil
}
func P08_impl_lower_char(cx *types.CallContext, v any) ([]values.Value, error) {
	return io.LowerFlat(cx, v, types.NewChar())
}
func P08_spec_lower_char(cx *types.CallContext, v any) ([]values.Value, error) {
	c, ok := v.(rune)
	if !ok {
		return nil, reject()
	}
	return []values.Value{values.U32(uint32(c))}, nil
}

// a core value reports its own kind and payload

func P08_impl_core_u32(x uint32) (kind.Kind, any) { v := values.U32(x); return v.Kind(), v.Value() }
func P08_spec_core_u32(x uint32) (kind.Kind, any) { return kind.U32, x }
func P08_impl_core_u64(x uint64) (kind.Kind, any) { v := values.U64(x); return v.Kind(), v.Value() }
func P08_spec_core_u64(x uint64) (kind.Kind, any) { return kind.U64, x }
func P08_impl_core_f32(x float32) (kind.Kind, any) {
	v := values.Float32(x)
	return v.Kind(), v.Value()
}
func P08_spec_core_f32(x float32) (kind.Kind, any) { return kind.Float32, x }
func P08_impl_core_f64(x float64) (kind.Kind, any) {
	v := values.Float64(x)
	return v.Kind(), v.Value()
}
func P08_spec_core_f64(x float64) (kind.Kind, any) { return kind.Float64, x }

// the iterator hands out its values in order, checking their kinds

func P08_impl_iterator_two(vs []values.Value, k1, k2 kind.Kind) (any, any, int, error) {
	it := values.NewIterator(vs...)
	a, err := it.Next(k1)
	if err != nil {
		return nil, nil, 0, err
	}
	b, err := it.Next(k2)
	if err != nil {
		return nil, nil, 0, err
	}
	return a, b, it.Index(), nil
}
func P08_spec_iterator_two(vs []values.Value, k1, k2 kind.Kind) (any, any, int, error) {
	if len(vs) < 2 || vs[0].Kind() != k1 || vs[1].Kind() != k2 {
		return nil, nil, 0, reject()
	}
	return vs[0].Value(), vs[1].Value(), 2, nil
}
func P08_impl_iterator_end(vs []values.Value, k kind.Kind) (any, error) {
	it := values.NewIterator(vs...)
	return it.Next(k)
}
func P08_spec_iterator_end(vs []values.Value, k kind.Kind) (any, error) {
	if len(vs) == 0 || vs[0].Kind() != k {
		return nil, reject()
	}
	return vs[0].Value(), nil
}

// ---- chars ----

func P06_impl_lift_char(cx *types.CallContext, vi values.ValueIterator) (any, error) {
	return io.LiftFlat(cx, vi, types.NewChar())
}
func P06_spec_lift_char(cx *types.CallContext, vi values.ValueIterator) (any, error) {
	u, err := next32(vi)
	if err != nil {
		return nil, err
	}
	if u >= 0x110000 || u >= 0xd800 && u <= 0xdfff {
		return nil, reject()
	}
	return rune(u), nil
}
func P06_impl_load_char(cx *types.CallContext, ptr uint32) (any, error) {
	return io.Load(cx, types.NewChar(), ptr)
}
func P06_spec_load_char(cx *types.CallContext, ptr uint32) (any, error) {
	return P03_spec_load_char(cx, ptr)
}
func P06_impl_convert(u uint32) (rune, error) { return io.ConvertU32ToRune(u) }
func P06_spec_convert(u uint32) (rune, error) {
	if u < 0xd800 || u > 0xdfff && u <= 0x10ffff {
		return rune(u), nil
	}
	return 0, reject()
}

// ---- NaN ----

func P07_impl_load_f32(cx *types.CallContext, ptr uint32) (any, error) {
	return io.Load(cx, types.NewF32(), ptr)
}
func P07_spec_load_f32(cx *types.CallContext, ptr uint32) (any, error) {
	return P03_spec_load_f32(cx, ptr)
}
func P07_impl_load_f64(cx *types.CallContext, ptr uint32) (any, error) {
	return io.Load(cx, types.NewF64(), ptr)
}
func P07_spec_load_f64(cx *types.CallContext, ptr uint32) (any, error) {
	return P03_spec_load_f64(cx, ptr)
}
func P07_impl_store_f32(cx *types.CallContext, ptr uint32, v float32) error {
	return io.Store(cx, v, types.NewF32(), ptr)
}
func P07_spec_store_f32(cx *types.CallContext, ptr uint32, v float32) error {
	return P03_spec_store_f32(cx, ptr, v)
}
func P07_impl_store_f64(cx *types.CallContext, ptr uint32, v float64) error {
	return io.Store(cx, v, types.NewF64(), ptr)
}
func P07_spec_store_f64(cx *types.CallContext, ptr uint32, v float64) error {
	return P03_spec_store_f64(cx, ptr, v)
}
func P07_impl_lift_f32(cx *types.CallContext, vi values.ValueIterator) (any, error) {
	return io.LiftFlat(cx, vi, types.NewF32())
}
func P07_spec_lift_f32(cx *types.CallContext, vi values.ValueIterator) (any, error) {
	x, err := vi.Next(kind.Float32)
	if err != nil {
		return nil, reject()
	}
	f, ok := x.(float32)
	if !ok {
		return nil, reject()
	}
	return math.Float32frombits(canon32(math.Float32bits(f))), nil
}
func P07_impl_lift_f64(cx *types.CallContext, vi values.ValueIterator) (any, error) {
	return io.LiftFlat(cx, vi, types.NewF64())
}
func P07_spec_lift_f64(cx *types.CallContext, vi values.ValueIterator) (any, error) {
	x, err := vi.Next(kind.Float64)
	if err != nil {
		return nil, reject()
	}
	f, ok := x.(float64)
	if !ok {
		return nil, reject()
	}
	return math.Float64frombits(canon64(math.Float64bits(f))), nil
}
func P07_impl_lower_f32(cx *types.CallContext, v any) ([]values.Value, error) {
	return io.LowerFlat(cx, v, types.NewF32())
}
func P07_spec_lower_f32(cx *types.CallContext, v any) ([]values.Value, error) {
	f, ok := v.(float32)
	if !ok {
		return nil, reject()
	}
	return []values.Value{values.Float32(math.Float32frombits(canon32(math.Float32bits(f))))}, nil
}
func P07_impl_lower_f64(cx *types.CallContext, v any) ([]values.Value, error) {
	return io.LowerFlat(cx, v, types.NewF64())
}
func P07_spec_lower_f64(cx *types.CallContext, v any) ([]values.Value, error) {
	f, ok := v.(float64)
	if !ok {
		return nil, reject()
	}
	return []values.Value{values.Float64(math.Float64frombits(canon64(math.Float64bits(f))))}, nil
}
'''
open('../harness/p08.go','w').write(out)
