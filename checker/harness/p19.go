//go:build ignore

package zzverif

import (
	"github.com/patrickhuber/go-wasm/abi/io"
	"github.com/patrickhuber/go-wasm/abi/kind"
	"github.com/patrickhuber/go-wasm/abi/types"
	"github.com/patrickhuber/go-wasm/abi/values"
)

// first core value, if it is of kind k
func firstCore(vs []values.Value, k kind.Kind) (any, bool) {
	if len(vs) == 0 || vs[0].Kind() != k {
		return nil, false
	}
	return vs[0].Value(), true
}

// fits: v is a sized integer of the given sign and at most n bytes
func fits(v any, signed bool, n int) bool {
	switch x := v.(type) {
	case uint8:
		return !signed
	case uint16:
		return !signed && (n >= 2 || x < 1<<8)
	case uint32:
		return !signed && (n >= 4 || x < 1<<(8*n))
	case uint64:
		return !signed && (n >= 8 || x < 1<<(8*n))
	case int8:
		return signed
	case int16:
		return signed && (n >= 2 || x >= -1<<7 && x < 1<<7)
	case int32:
		return signed && (n >= 4 || x >= -1<<(8*n-1) && x < 1<<(8*n-1))
	case int64:
		return signed && (n >= 8 || x >= -1<<(8*n-1) && x < 1<<(8*n-1))
	}
	return false
}

func P19_impl_lower_bool(cx *types.CallContext, v any) bool {
	_, err := io.LowerFlat(cx, v, types.NewBool())
	return err == nil
}
func P19_spec_lower_bool(cx *types.CallContext, v any) bool {
	_, ok := v.(bool)
	return ok
}

func P19_impl_lift_bool(cx *types.CallContext, vs []values.Value) bool {
	_, err := io.LiftFlat(cx, values.NewIterator(vs...), types.NewBool())
	return err == nil
}
func P19_spec_lift_bool(cx *types.CallContext, vs []values.Value) bool {
	x, ok := firstCore(vs, kind.U32)
	if !ok {
		return false
	}
	_, ok = x.(uint32)
	return ok
}

//vc:resultonly
func P19_impl_store_bool(cx *types.CallContext, v any, ptr uint32) bool {
	assume(ptr%1 == 0 && inMem(cx, ptr, 1))
	return io.Store(cx, v, types.NewBool(), ptr) == nil
}
func P19_spec_store_bool(cx *types.CallContext, v any, ptr uint32) bool {
	_, ok := v.(bool)
	return ok
}

func P19_impl_lower_u8(cx *types.CallContext, v any) bool {
	_, err := io.LowerFlat(cx, v, types.NewU8())
	return err == nil
}
func P19_spec_lower_u8(cx *types.CallContext, v any) bool {
	_, ok := v.(uint8)
	return ok
}

func P19_impl_lift_u8(cx *types.CallContext, vs []values.Value) bool {
	_, err := io.LiftFlat(cx, values.NewIterator(vs...), types.NewU8())
	return err == nil
}
func P19_spec_lift_u8(cx *types.CallContext, vs []values.Value) bool {
	x, ok := firstCore(vs, kind.U32)
	if !ok {
		return false
	}
	_, ok = x.(uint32)
	return ok
}

//vc:resultonly
func P19_impl_store_u8(cx *types.CallContext, v any, ptr uint32) bool {
	assume(ptr%1 == 0 && inMem(cx, ptr, 1))
	return io.Store(cx, v, types.NewU8(), ptr) == nil
}
func P19_spec_store_u8(cx *types.CallContext, v any, ptr uint32) bool {
	return fits(v, false, 1)
}

func P19_impl_lower_u16(cx *types.CallContext, v any) bool {
	_, err := io.LowerFlat(cx, v, types.NewU16())
	return err == nil
}
func P19_spec_lower_u16(cx *types.CallContext, v any) bool {
	_, ok := v.(uint16)
	return ok
}

func P19_impl_lift_u16(cx *types.CallContext, vs []values.Value) bool {
	_, err := io.LiftFlat(cx, values.NewIterator(vs...), types.NewU16())
	return err == nil
}
func P19_spec_lift_u16(cx *types.CallContext, vs []values.Value) bool {
	x, ok := firstCore(vs, kind.U32)
	if !ok {
		return false
	}
	_, ok = x.(uint32)
	return ok
}

//vc:resultonly
func P19_impl_store_u16(cx *types.CallContext, v any, ptr uint32) bool {
	assume(ptr%2 == 0 && inMem(cx, ptr, 2))
	return io.Store(cx, v, types.NewU16(), ptr) == nil
}
func P19_spec_store_u16(cx *types.CallContext, v any, ptr uint32) bool {
	return fits(v, false, 2)
}

func P19_impl_lower_u32(cx *types.CallContext, v any) bool {
	_, err := io.LowerFlat(cx, v, types.NewU32())
	return err == nil
}
func P19_spec_lower_u32(cx *types.CallContext, v any) bool {
	_, ok := v.(uint32)
	return ok
}

func P19_impl_lift_u32(cx *types.CallContext, vs []values.Value) bool {
	_, err := io.LiftFlat(cx, values.NewIterator(vs...), types.NewU32())
	return err == nil
}
func P19_spec_lift_u32(cx *types.CallContext, vs []values.Value) bool {
	x, ok := firstCore(vs, kind.U32)
	if !ok {
		return false
	}
	_, ok = x.(uint32)
	return ok
}

//vc:resultonly
func P19_impl_store_u32(cx *types.CallContext, v any, ptr uint32) bool {
	assume(ptr%4 == 0 && inMem(cx, ptr, 4))
	return io.Store(cx, v, types.NewU32(), ptr) == nil
}
func P19_spec_store_u32(cx *types.CallContext, v any, ptr uint32) bool {
	return fits(v, false, 4)
}

func P19_impl_lower_u64(cx *types.CallContext, v any) bool {
	_, err := io.LowerFlat(cx, v, types.NewU64())
	return err == nil
}
func P19_spec_lower_u64(cx *types.CallContext, v any) bool {
	_, ok := v.(uint64)
	return ok
}

func P19_impl_lift_u64(cx *types.CallContext, vs []values.Value) bool {
	_, err := io.LiftFlat(cx, values.NewIterator(vs...), types.NewU64())
	return err == nil
}
func P19_spec_lift_u64(cx *types.CallContext, vs []values.Value) bool {
	x, ok := firstCore(vs, kind.U64)
	if !ok {
		return false
	}
	_, ok = x.(uint64)
	return ok
}

//vc:resultonly
func P19_impl_store_u64(cx *types.CallContext, v any, ptr uint32) bool {
	assume(ptr%8 == 0 && inMem(cx, ptr, 8))
	return io.Store(cx, v, types.NewU64(), ptr) == nil
}
func P19_spec_store_u64(cx *types.CallContext, v any, ptr uint32) bool {
	return fits(v, false, 8)
}

func P19_impl_lower_s8(cx *types.CallContext, v any) bool {
	_, err := io.LowerFlat(cx, v, types.NewS8())
	return err == nil
}
func P19_spec_lower_s8(cx *types.CallContext, v any) bool {
	_, ok := v.(int8)
	return ok
}

func P19_impl_lift_s8(cx *types.CallContext, vs []values.Value) bool {
	_, err := io.LiftFlat(cx, values.NewIterator(vs...), types.NewS8())
	return err == nil
}
func P19_spec_lift_s8(cx *types.CallContext, vs []values.Value) bool {
	x, ok := firstCore(vs, kind.U32)
	if !ok {
		return false
	}
	_, ok = x.(uint32)
	return ok
}

//vc:resultonly
func P19_impl_store_s8(cx *types.CallContext, v any, ptr uint32) bool {
	assume(ptr%1 == 0 && inMem(cx, ptr, 1))
	return io.Store(cx, v, types.NewS8(), ptr) == nil
}
func P19_spec_store_s8(cx *types.CallContext, v any, ptr uint32) bool {
	return fits(v, true, 1)
}

func P19_impl_lower_s16(cx *types.CallContext, v any) bool {
	_, err := io.LowerFlat(cx, v, types.NewS16())
	return err == nil
}
func P19_spec_lower_s16(cx *types.CallContext, v any) bool {
	_, ok := v.(int16)
	return ok
}

func P19_impl_lift_s16(cx *types.CallContext, vs []values.Value) bool {
	_, err := io.LiftFlat(cx, values.NewIterator(vs...), types.NewS16())
	return err == nil
}
func P19_spec_lift_s16(cx *types.CallContext, vs []values.Value) bool {
	x, ok := firstCore(vs, kind.U32)
	if !ok {
		return false
	}
	_, ok = x.(uint32)
	return ok
}

//vc:resultonly
func P19_impl_store_s16(cx *types.CallContext, v any, ptr uint32) bool {
	assume(ptr%2 == 0 && inMem(cx, ptr, 2))
	return io.Store(cx, v, types.NewS16(), ptr) == nil
}
func P19_spec_store_s16(cx *types.CallContext, v any, ptr uint32) bool {
	return fits(v, true, 2)
}

func P19_impl_lower_s32(cx *types.CallContext, v any) bool {
	_, err := io.LowerFlat(cx, v, types.NewS32())
	return err == nil
}
func P19_spec_lower_s32(cx *types.CallContext, v any) bool {
	_, ok := v.(int32)
	return ok
}

func P19_impl_lift_s32(cx *types.CallContext, vs []values.Value) bool {
	_, err := io.LiftFlat(cx, values.NewIterator(vs...), types.NewS32())
	return err == nil
}
func P19_spec_lift_s32(cx *types.CallContext, vs []values.Value) bool {
	x, ok := firstCore(vs, kind.U32)
	if !ok {
		return false
	}
	_, ok = x.(uint32)
	return ok
}

//vc:resultonly
func P19_impl_store_s32(cx *types.CallContext, v any, ptr uint32) bool {
	assume(ptr%4 == 0 && inMem(cx, ptr, 4))
	return io.Store(cx, v, types.NewS32(), ptr) == nil
}
func P19_spec_store_s32(cx *types.CallContext, v any, ptr uint32) bool {
	return fits(v, true, 4)
}

func P19_impl_lower_s64(cx *types.CallContext, v any) bool {
	_, err := io.LowerFlat(cx, v, types.NewS64())
	return err == nil
}
func P19_spec_lower_s64(cx *types.CallContext, v any) bool {
	_, ok := v.(int64)
	return ok
}

func P19_impl_lift_s64(cx *types.CallContext, vs []values.Value) bool {
	_, err := io.LiftFlat(cx, values.NewIterator(vs...), types.NewS64())
	return err == nil
}
func P19_spec_lift_s64(cx *types.CallContext, vs []values.Value) bool {
	x, ok := firstCore(vs, kind.U64)
	if !ok {
		return false
	}
	_, ok = x.(uint64)
	return ok
}

//vc:resultonly
func P19_impl_store_s64(cx *types.CallContext, v any, ptr uint32) bool {
	assume(ptr%8 == 0 && inMem(cx, ptr, 8))
	return io.Store(cx, v, types.NewS64(), ptr) == nil
}
func P19_spec_store_s64(cx *types.CallContext, v any, ptr uint32) bool {
	return fits(v, true, 8)
}

func P19_impl_lower_f32(cx *types.CallContext, v any) bool {
	_, err := io.LowerFlat(cx, v, types.NewF32())
	return err == nil
}
func P19_spec_lower_f32(cx *types.CallContext, v any) bool {
	_, ok := v.(float32)
	return ok
}

func P19_impl_lift_f32(cx *types.CallContext, vs []values.Value) bool {
	_, err := io.LiftFlat(cx, values.NewIterator(vs...), types.NewF32())
	return err == nil
}
func P19_spec_lift_f32(cx *types.CallContext, vs []values.Value) bool {
	x, ok := firstCore(vs, kind.Float32)
	if !ok {
		return false
	}
	_, ok = x.(float32)
	return ok
}

//vc:resultonly
func P19_impl_store_f32(cx *types.CallContext, v any, ptr uint32) bool {
	assume(ptr%4 == 0 && inMem(cx, ptr, 4))
	return io.Store(cx, v, types.NewF32(), ptr) == nil
}
func P19_spec_store_f32(cx *types.CallContext, v any, ptr uint32) bool {
	_, ok := v.(float32)
	return ok
}

func P19_impl_lower_f64(cx *types.CallContext, v any) bool {
	_, err := io.LowerFlat(cx, v, types.NewF64())
	return err == nil
}
func P19_spec_lower_f64(cx *types.CallContext, v any) bool {
	_, ok := v.(float64)
	return ok
}

func P19_impl_lift_f64(cx *types.CallContext, vs []values.Value) bool {
	_, err := io.LiftFlat(cx, values.NewIterator(vs...), types.NewF64())
	return err == nil
}
func P19_spec_lift_f64(cx *types.CallContext, vs []values.Value) bool {
	x, ok := firstCore(vs, kind.Float64)
	if !ok {
		return false
	}
	_, ok = x.(float64)
	return ok
}

//vc:resultonly
func P19_impl_store_f64(cx *types.CallContext, v any, ptr uint32) bool {
	assume(ptr%8 == 0 && inMem(cx, ptr, 8))
	return io.Store(cx, v, types.NewF64(), ptr) == nil
}
func P19_spec_store_f64(cx *types.CallContext, v any, ptr uint32) bool {
	_, ok := v.(float64)
	return ok
}

func P19_impl_lower_char(cx *types.CallContext, v any) bool {
	_, err := io.LowerFlat(cx, v, types.NewChar())
	return err == nil
}
func P19_spec_lower_char(cx *types.CallContext, v any) bool {
	_, ok := v.(rune)
	return ok
}

func P19_impl_lift_char(cx *types.CallContext, vs []values.Value) bool {
	_, err := io.LiftFlat(cx, values.NewIterator(vs...), types.NewChar())
	return err == nil
}
func P19_spec_lift_char(cx *types.CallContext, vs []values.Value) bool {
	x, ok := firstCore(vs, kind.U32)
	if !ok {
		return false
	}
	u, ok := x.(uint32)
	return ok && (u < 0xd800 || u > 0xdfff && u < 0x110000)
}

//vc:resultonly
func P19_impl_store_char(cx *types.CallContext, v any, ptr uint32) bool {
	assume(ptr%4 == 0 && inMem(cx, ptr, 4))
	return io.Store(cx, v, types.NewChar(), ptr) == nil
}
func P19_spec_store_char(cx *types.CallContext, v any, ptr uint32) bool {
	_, ok := v.(rune)
	return ok
}

//vc:resultonly
func P19_impl_lower_record(cx *types.CallContext, v any, fs []types.Field) bool {
	_, err := io.LowerFlat(cx, v, types.NewRecord(fs...))
	return err == nil
}
func P19_spec_lower_record(cx *types.CallContext, v any, fs []types.Field) bool {
	_, err := P11_spec_lower_record(cx, v, fs)
	return err == nil
}

//vc:resultonly
func P19_impl_lower_list(cx *types.CallContext, v any, t types.ValType) bool {
	hostList(v)
	_, err := io.LowerFlat(cx, v, types.NewList(t))
	return err == nil
}
func P19_spec_lower_list(cx *types.CallContext, v any, t types.ValType) bool {
	_, err := P11_spec_lower_list(cx, v, t)
	return err == nil
}

//vc:resultonly
func P19_impl_lower_flags(cx *types.CallContext, v any, ls []string) bool {
	assume(len(ls) <= 64)
	_, err := io.LowerFlat(cx, v, types.NewFlags(ls...))
	return err == nil
}
func P19_spec_lower_flags(cx *types.CallContext, v any, ls []string) bool {
	_, err := P10_spec_lower(cx, v, ls)
	return err == nil
}

//vc:resultonly
//vc:replace abi/io.MatchCase=matched
//vc:opaquetype abi/io.FlattenType:VariantImpl
func P19_impl_lower_variant(cx *types.CallContext, v any, cs []types.Case) bool {
	assume(len(cs) <= 1<<24)
	_, err := io.LowerFlat(cx, v, types.NewVariant(cs...))
	return err == nil
}
func P19_spec_lower_variant(cx *types.CallContext, v any, cs []types.Case) bool {
	_, err := P09_spec_lower(cx, v, cs)
	return err == nil
}
func P19_alt_lower_variant(cx *types.CallContext, v any, cs []types.Case) bool {
	_, err := P09_alt_lower(cx, v, cs)
	return err == nil
}

//vc:resultonly
//vc:opaquetype abi/io.Size:RecordImpl abi/io.Alignment:RecordImpl
func P19_impl_store_record(cx *types.CallContext, v any, ptr uint32, fs []types.Field) bool {
	return io.Store(cx, v, types.NewRecord(fs...), ptr) == nil
}
func P19_spec_store_record(cx *types.CallContext, v any, ptr uint32, fs []types.Field) bool {
	return P11_spec_store_record(cx, v, ptr, fs) == nil
}

//vc:resultonly
func P19_impl_store_list(cx *types.CallContext, v any, ptr uint32, t types.ValType) bool {
	hostList(v)
	return io.Store(cx, v, types.NewList(t), ptr) == nil
}
func P19_spec_store_list(cx *types.CallContext, v any, ptr uint32, t types.ValType) bool {
	return P11_spec_store_list(cx, v, ptr, t) == nil
}

//vc:resultonly
func P19_impl_store_flags(cx *types.CallContext, v any, ptr uint32, ls []string) bool {
	assume(len(ls) <= 64)
	return io.Store(cx, v, types.NewFlags(ls...), ptr) == nil
}
func P19_spec_store_flags(cx *types.CallContext, v any, ptr uint32, ls []string) bool {
	return P10_spec_store(cx, v, ptr, ls) == nil
}

//vc:resultonly
//vc:replace abi/io.MatchCase=matched
//vc:opaque abi/io.MaxCaseAlignment
//vc:opaquetype abi/io.Size:VariantImpl abi/io.Alignment:VariantImpl
func P19_impl_store_variant(cx *types.CallContext, v any, ptr uint32, cs []types.Case) bool {
	assume(len(cs) <= 1<<24)
	return io.Store(cx, v, types.NewVariant(cs...), ptr) == nil
}
func P19_spec_store_variant(cx *types.CallContext, v any, ptr uint32, cs []types.Case) bool {
	return P09_spec_store(cx, v, ptr, cs) == nil
}

func P19_impl_match_case(v any, cs []types.Case) bool {
	assume(len(cs) <= 1<<24)
	_, _, err := io.MatchCase(v, cs)
	return err == nil
}
func P19_spec_match_case(v any, cs []types.Case) bool {
	assume(len(cs) <= 1<<24)
	_, _, err := matchCase(v, cs, lastCase)
	return err == nil
}

func P19_impl_lower_own(cx *types.CallContext, v any, rt types.ResourceType) bool {
	_, ok := v.(uint32)
	assume(!ok)
	_, err := io.LowerFlat(cx, v, types.NewOwn(rt))
	return err != nil
}
func P19_spec_lower_own(cx *types.CallContext, v any, rt types.ResourceType) bool {
	return true
}

func P19_impl_store_own(cx *types.CallContext, v any, rt types.ResourceType, ptr uint32) bool {
	_, ok := v.(uint32)
	assume(!ok)
	return io.Store(cx, v, types.NewOwn(rt), ptr) != nil
}
func P19_spec_store_own(cx *types.CallContext, v any, rt types.ResourceType, ptr uint32) bool {
	return true
}

//vc:resultonly
func P19_impl_lift_own(cx *types.CallContext, vs []values.Value, rt types.ResourceType) bool {
	assume(len(vs) == 0 || vs[0].Kind() != kind.U32)
	_, err := io.LiftFlat(cx, values.NewIterator(vs...), types.NewOwn(rt))
	return err != nil
}
func P19_spec_lift_own(cx *types.CallContext, vs []values.Value, rt types.ResourceType) bool {
	return true
}

func P19_impl_lower_borrow(cx *types.CallContext, v any, rt types.ResourceType) bool {
	_, ok := v.(uint32)
	assume(!ok)
	_, err := io.LowerFlat(cx, v, types.NewBorrow(rt))
	return err != nil
}
func P19_spec_lower_borrow(cx *types.CallContext, v any, rt types.ResourceType) bool {
	return true
}

func P19_impl_store_borrow(cx *types.CallContext, v any, rt types.ResourceType, ptr uint32) bool {
	_, ok := v.(uint32)
	assume(!ok)
	return io.Store(cx, v, types.NewBorrow(rt), ptr) != nil
}
func P19_spec_store_borrow(cx *types.CallContext, v any, rt types.ResourceType, ptr uint32) bool {
	return true
}

//vc:resultonly
func P19_impl_lift_borrow(cx *types.CallContext, vs []values.Value, rt types.ResourceType) bool {
	assume(len(vs) == 0 || vs[0].Kind() != kind.U32)
	_, err := io.LiftFlat(cx, values.NewIterator(vs...), types.NewBorrow(rt))
	return err != nil
}
func P19_spec_lift_borrow(cx *types.CallContext, vs []values.Value, rt types.ResourceType) bool {
	return true
}

//vc:resultonly
//vc:replace encoding.DecodeString=decodeNamed
func P19_impl_lift_string_short(cx *types.CallContext, vs []values.Value) bool {
	assume(len(vs) < 2 || vs[0].Kind() != kind.U32 || vs[1].Kind() != kind.U32)
	_, err := io.LiftFlat(cx, values.NewIterator(vs...), types.NewString())
	return err != nil
}
func P19_spec_lift_string_short(cx *types.CallContext, vs []values.Value) bool {
	return true
}

//vc:resultonly
//vc:replace encoding.DecodeString=decodeNamed
func P19_impl_lift_list_short(cx *types.CallContext, vs []values.Value, t types.ValType) bool {
	assume(len(vs) < 2 || vs[0].Kind() != kind.U32 || vs[1].Kind() != kind.U32)
	_, err := io.LiftFlat(cx, values.NewIterator(vs...), types.NewList(t))
	return err != nil
}
func P19_spec_lift_list_short(cx *types.CallContext, vs []values.Value, t types.ValType) bool {
	return true
}

//vc:replace encoding.EncodeString=encodeNamed
func P19_impl_lower_string(cx *types.CallContext, v any) bool {
	_, ok := v.(string)
	assume(!ok)
	_, err := io.LowerFlat(cx, v, types.NewString())
	return err != nil
}
func P19_spec_lower_string(cx *types.CallContext, v any) bool {
	return true
}

//vc:replace encoding.EncodeString=encodeNamed
func P19_impl_store_string(cx *types.CallContext, v any, ptr uint32) bool {
	_, ok := v.(string)
	assume(!ok)
	return io.Store(cx, v, types.NewString(), ptr) != nil
}
func P19_spec_store_string(cx *types.CallContext, v any, ptr uint32) bool {
	return true
}

// an exhausted or ill-typed sequence of core values

func P19_impl_next(vs []values.Value, k, k2 kind.Kind) (any, any, error) {
	it := values.NewIterator(vs...)
	a, err := it.Next(k)
	if err != nil {
		return nil, nil, err
	}
	b, err := it.Next(k2)
	return a, b, err
}
func P19_spec_next(vs []values.Value, k, k2 kind.Kind) (any, any, error) {
	if len(vs) < 2 || vs[0].Kind() != k || vs[1].Kind() != k2 {
		return nil, nil, reject()
	}
	return vs[0].Value(), vs[1].Value(), nil
}
