//go:build ignore

package zzverif

import (
	"strconv"

	"github.com/patrickhuber/go-wasm/abi/io"
	"github.com/patrickhuber/go-wasm/abi/types"
	"github.com/patrickhuber/go-wasm/abi/values"
)

// described: t has a size, an alignment and a flattening
func described(t types.ValType) bool {
	_, e1 := io.Size(t)
	_, e2 := io.Alignment(t)
	_, e3 := io.FlattenType(t)
	return e1 == nil && e2 == nil && e3 == nil
}

func P13_impl_describe_bool() bool { return described(types.NewBool()) }
func P13_spec_describe_bool() bool { return true }

func P13_impl_load_bool(cx *types.CallContext, ptr uint32) bool {
	assume(ptr%1 == 0 && inMem(cx, ptr, 1))
	v, err := io.Load(cx, types.NewBool(), ptr)
	_, ok := v.(bool)
	return err == nil && ok
}
func P13_spec_load_bool(cx *types.CallContext, ptr uint32) bool { return true }

//vc:resultonly
func P13_impl_store_bool(cx *types.CallContext, v bool, ptr uint32) bool {
	assume(ptr%1 == 0 && inMem(cx, ptr, 1))
	return io.Store(cx, v, types.NewBool(), ptr) == nil
}
func P13_spec_store_bool(cx *types.CallContext, v bool, ptr uint32) bool { return true }

func P13_impl_lift_bool(cx *types.CallContext, x uint32) bool {
	v, err := io.LiftFlat(cx, values.NewIterator(values.U32(x)), types.NewBool())
	_, ok := v.(bool)
	return err == nil && ok
}
func P13_spec_lift_bool(cx *types.CallContext, x uint32) bool { return true }

func P13_impl_lower_bool(cx *types.CallContext, v bool) bool {
	vs, err := io.LowerFlat(cx, v, types.NewBool())
	if err != nil || len(vs) != 1 {
		return false
	}
	_, ok := vs[0].(values.U32)
	return ok
}
func P13_spec_lower_bool(cx *types.CallContext, v bool) bool { return true }

func P13_impl_describe_u8() bool { return described(types.NewU8()) }
func P13_spec_describe_u8() bool { return true }

func P13_impl_load_u8(cx *types.CallContext, ptr uint32) bool {
	assume(ptr%1 == 0 && inMem(cx, ptr, 1))
	v, err := io.Load(cx, types.NewU8(), ptr)
	_, ok := v.(uint8)
	return err == nil && ok
}
func P13_spec_load_u8(cx *types.CallContext, ptr uint32) bool { return true }

//vc:resultonly
func P13_impl_store_u8(cx *types.CallContext, v uint8, ptr uint32) bool {
	assume(ptr%1 == 0 && inMem(cx, ptr, 1))
	return io.Store(cx, v, types.NewU8(), ptr) == nil
}
func P13_spec_store_u8(cx *types.CallContext, v uint8, ptr uint32) bool { return true }

func P13_impl_lift_u8(cx *types.CallContext, x uint32) bool {
	v, err := io.LiftFlat(cx, values.NewIterator(values.U32(x)), types.NewU8())
	_, ok := v.(uint8)
	return err == nil && ok
}
func P13_spec_lift_u8(cx *types.CallContext, x uint32) bool { return true }

func P13_impl_lower_u8(cx *types.CallContext, v uint8) bool {
	vs, err := io.LowerFlat(cx, v, types.NewU8())
	if err != nil || len(vs) != 1 {
		return false
	}
	_, ok := vs[0].(values.U32)
	return ok
}
func P13_spec_lower_u8(cx *types.CallContext, v uint8) bool { return true }

func P13_impl_describe_u16() bool { return described(types.NewU16()) }
func P13_spec_describe_u16() bool { return true }

func P13_impl_load_u16(cx *types.CallContext, ptr uint32) bool {
	assume(ptr%2 == 0 && inMem(cx, ptr, 2))
	v, err := io.Load(cx, types.NewU16(), ptr)
	_, ok := v.(uint16)
	return err == nil && ok
}
func P13_spec_load_u16(cx *types.CallContext, ptr uint32) bool { return true }

//vc:resultonly
func P13_impl_store_u16(cx *types.CallContext, v uint16, ptr uint32) bool {
	assume(ptr%2 == 0 && inMem(cx, ptr, 2))
	return io.Store(cx, v, types.NewU16(), ptr) == nil
}
func P13_spec_store_u16(cx *types.CallContext, v uint16, ptr uint32) bool { return true }

func P13_impl_lift_u16(cx *types.CallContext, x uint32) bool {
	v, err := io.LiftFlat(cx, values.NewIterator(values.U32(x)), types.NewU16())
	_, ok := v.(uint16)
	return err == nil && ok
}
func P13_spec_lift_u16(cx *types.CallContext, x uint32) bool { return true }

func P13_impl_lower_u16(cx *types.CallContext, v uint16) bool {
	vs, err := io.LowerFlat(cx, v, types.NewU16())
	if err != nil || len(vs) != 1 {
		return false
	}
	_, ok := vs[0].(values.U32)
	return ok
}
func P13_spec_lower_u16(cx *types.CallContext, v uint16) bool { return true }

func P13_impl_describe_u32() bool { return described(types.NewU32()) }
func P13_spec_describe_u32() bool { return true }

func P13_impl_load_u32(cx *types.CallContext, ptr uint32) bool {
	assume(ptr%4 == 0 && inMem(cx, ptr, 4))
	v, err := io.Load(cx, types.NewU32(), ptr)
	_, ok := v.(uint32)
	return err == nil && ok
}
func P13_spec_load_u32(cx *types.CallContext, ptr uint32) bool { return true }

//vc:resultonly
func P13_impl_store_u32(cx *types.CallContext, v uint32, ptr uint32) bool {
	assume(ptr%4 == 0 && inMem(cx, ptr, 4))
	return io.Store(cx, v, types.NewU32(), ptr) == nil
}
func P13_spec_store_u32(cx *types.CallContext, v uint32, ptr uint32) bool { return true }

func P13_impl_lift_u32(cx *types.CallContext, x uint32) bool {
	v, err := io.LiftFlat(cx, values.NewIterator(values.U32(x)), types.NewU32())
	_, ok := v.(uint32)
	return err == nil && ok
}
func P13_spec_lift_u32(cx *types.CallContext, x uint32) bool { return true }

func P13_impl_lower_u32(cx *types.CallContext, v uint32) bool {
	vs, err := io.LowerFlat(cx, v, types.NewU32())
	if err != nil || len(vs) != 1 {
		return false
	}
	_, ok := vs[0].(values.U32)
	return ok
}
func P13_spec_lower_u32(cx *types.CallContext, v uint32) bool { return true }

func P13_impl_describe_u64() bool { return described(types.NewU64()) }
func P13_spec_describe_u64() bool { return true }

func P13_impl_load_u64(cx *types.CallContext, ptr uint32) bool {
	assume(ptr%8 == 0 && inMem(cx, ptr, 8))
	v, err := io.Load(cx, types.NewU64(), ptr)
	_, ok := v.(uint64)
	return err == nil && ok
}
func P13_spec_load_u64(cx *types.CallContext, ptr uint32) bool { return true }

//vc:resultonly
func P13_impl_store_u64(cx *types.CallContext, v uint64, ptr uint32) bool {
	assume(ptr%8 == 0 && inMem(cx, ptr, 8))
	return io.Store(cx, v, types.NewU64(), ptr) == nil
}
func P13_spec_store_u64(cx *types.CallContext, v uint64, ptr uint32) bool { return true }

func P13_impl_lift_u64(cx *types.CallContext, x uint64) bool {
	v, err := io.LiftFlat(cx, values.NewIterator(values.U64(x)), types.NewU64())
	_, ok := v.(uint64)
	return err == nil && ok
}
func P13_spec_lift_u64(cx *types.CallContext, x uint64) bool { return true }

func P13_impl_lower_u64(cx *types.CallContext, v uint64) bool {
	vs, err := io.LowerFlat(cx, v, types.NewU64())
	if err != nil || len(vs) != 1 {
		return false
	}
	_, ok := vs[0].(values.U64)
	return ok
}
func P13_spec_lower_u64(cx *types.CallContext, v uint64) bool { return true }

func P13_impl_describe_s8() bool { return described(types.NewS8()) }
func P13_spec_describe_s8() bool { return true }

func P13_impl_load_s8(cx *types.CallContext, ptr uint32) bool {
	assume(ptr%1 == 0 && inMem(cx, ptr, 1))
	v, err := io.Load(cx, types.NewS8(), ptr)
	_, ok := v.(int8)
	return err == nil && ok
}
func P13_spec_load_s8(cx *types.CallContext, ptr uint32) bool { return true }

//vc:resultonly
func P13_impl_store_s8(cx *types.CallContext, v int8, ptr uint32) bool {
	assume(ptr%1 == 0 && inMem(cx, ptr, 1))
	return io.Store(cx, v, types.NewS8(), ptr) == nil
}
func P13_spec_store_s8(cx *types.CallContext, v int8, ptr uint32) bool { return true }

func P13_impl_lift_s8(cx *types.CallContext, x uint32) bool {
	v, err := io.LiftFlat(cx, values.NewIterator(values.U32(x)), types.NewS8())
	_, ok := v.(int8)
	return err == nil && ok
}
func P13_spec_lift_s8(cx *types.CallContext, x uint32) bool { return true }

func P13_impl_lower_s8(cx *types.CallContext, v int8) bool {
	vs, err := io.LowerFlat(cx, v, types.NewS8())
	if err != nil || len(vs) != 1 {
		return false
	}
	_, ok := vs[0].(values.U32)
	return ok
}
func P13_spec_lower_s8(cx *types.CallContext, v int8) bool { return true }

func P13_impl_describe_s16() bool { return described(types.NewS16()) }
func P13_spec_describe_s16() bool { return true }

func P13_impl_load_s16(cx *types.CallContext, ptr uint32) bool {
	assume(ptr%2 == 0 && inMem(cx, ptr, 2))
	v, err := io.Load(cx, types.NewS16(), ptr)
	_, ok := v.(int16)
	return err == nil && ok
}
func P13_spec_load_s16(cx *types.CallContext, ptr uint32) bool { return true }

//vc:resultonly
func P13_impl_store_s16(cx *types.CallContext, v int16, ptr uint32) bool {
	assume(ptr%2 == 0 && inMem(cx, ptr, 2))
	return io.Store(cx, v, types.NewS16(), ptr) == nil
}
func P13_spec_store_s16(cx *types.CallContext, v int16, ptr uint32) bool { return true }

func P13_impl_lift_s16(cx *types.CallContext, x uint32) bool {
	v, err := io.LiftFlat(cx, values.NewIterator(values.U32(x)), types.NewS16())
	_, ok := v.(int16)
	return err == nil && ok
}
func P13_spec_lift_s16(cx *types.CallContext, x uint32) bool { return true }

func P13_impl_lower_s16(cx *types.CallContext, v int16) bool {
	vs, err := io.LowerFlat(cx, v, types.NewS16())
	if err != nil || len(vs) != 1 {
		return false
	}
	_, ok := vs[0].(values.U32)
	return ok
}
func P13_spec_lower_s16(cx *types.CallContext, v int16) bool { return true }

func P13_impl_describe_s32() bool { return described(types.NewS32()) }
func P13_spec_describe_s32() bool { return true }

func P13_impl_load_s32(cx *types.CallContext, ptr uint32) bool {
	assume(ptr%4 == 0 && inMem(cx, ptr, 4))
	v, err := io.Load(cx, types.NewS32(), ptr)
	_, ok := v.(int32)
	return err == nil && ok
}
func P13_spec_load_s32(cx *types.CallContext, ptr uint32) bool { return true }

//vc:resultonly
func P13_impl_store_s32(cx *types.CallContext, v int32, ptr uint32) bool {
	assume(ptr%4 == 0 && inMem(cx, ptr, 4))
	return io.Store(cx, v, types.NewS32(), ptr) == nil
}
func P13_spec_store_s32(cx *types.CallContext, v int32, ptr uint32) bool { return true }

func P13_impl_lift_s32(cx *types.CallContext, x uint32) bool {
	v, err := io.LiftFlat(cx, values.NewIterator(values.U32(x)), types.NewS32())
	_, ok := v.(int32)
	return err == nil && ok
}
func P13_spec_lift_s32(cx *types.CallContext, x uint32) bool { return true }

func P13_impl_lower_s32(cx *types.CallContext, v int32) bool {
	vs, err := io.LowerFlat(cx, v, types.NewS32())
	if err != nil || len(vs) != 1 {
		return false
	}
	_, ok := vs[0].(values.U32)
	return ok
}
func P13_spec_lower_s32(cx *types.CallContext, v int32) bool { return true }

func P13_impl_describe_s64() bool { return described(types.NewS64()) }
func P13_spec_describe_s64() bool { return true }

func P13_impl_load_s64(cx *types.CallContext, ptr uint32) bool {
	assume(ptr%8 == 0 && inMem(cx, ptr, 8))
	v, err := io.Load(cx, types.NewS64(), ptr)
	_, ok := v.(int64)
	return err == nil && ok
}
func P13_spec_load_s64(cx *types.CallContext, ptr uint32) bool { return true }

//vc:resultonly
func P13_impl_store_s64(cx *types.CallContext, v int64, ptr uint32) bool {
	assume(ptr%8 == 0 && inMem(cx, ptr, 8))
	return io.Store(cx, v, types.NewS64(), ptr) == nil
}
func P13_spec_store_s64(cx *types.CallContext, v int64, ptr uint32) bool { return true }

func P13_impl_lift_s64(cx *types.CallContext, x uint64) bool {
	v, err := io.LiftFlat(cx, values.NewIterator(values.U64(x)), types.NewS64())
	_, ok := v.(int64)
	return err == nil && ok
}
func P13_spec_lift_s64(cx *types.CallContext, x uint64) bool { return true }

func P13_impl_lower_s64(cx *types.CallContext, v int64) bool {
	vs, err := io.LowerFlat(cx, v, types.NewS64())
	if err != nil || len(vs) != 1 {
		return false
	}
	_, ok := vs[0].(values.U64)
	return ok
}
func P13_spec_lower_s64(cx *types.CallContext, v int64) bool { return true }

func P13_impl_describe_f32() bool { return described(types.NewF32()) }
func P13_spec_describe_f32() bool { return true }

func P13_impl_load_f32(cx *types.CallContext, ptr uint32) bool {
	assume(ptr%4 == 0 && inMem(cx, ptr, 4))
	v, err := io.Load(cx, types.NewF32(), ptr)
	_, ok := v.(float32)
	return err == nil && ok
}
func P13_spec_load_f32(cx *types.CallContext, ptr uint32) bool { return true }

//vc:resultonly
func P13_impl_store_f32(cx *types.CallContext, v float32, ptr uint32) bool {
	assume(ptr%4 == 0 && inMem(cx, ptr, 4))
	return io.Store(cx, v, types.NewF32(), ptr) == nil
}
func P13_spec_store_f32(cx *types.CallContext, v float32, ptr uint32) bool { return true }

func P13_impl_lift_f32(cx *types.CallContext, x float32) bool {
	v, err := io.LiftFlat(cx, values.NewIterator(values.Float32(x)), types.NewF32())
	_, ok := v.(float32)
	return err == nil && ok
}
func P13_spec_lift_f32(cx *types.CallContext, x float32) bool { return true }

func P13_impl_lower_f32(cx *types.CallContext, v float32) bool {
	vs, err := io.LowerFlat(cx, v, types.NewF32())
	if err != nil || len(vs) != 1 {
		return false
	}
	_, ok := vs[0].(values.Float32)
	return ok
}
func P13_spec_lower_f32(cx *types.CallContext, v float32) bool { return true }

func P13_impl_describe_f64() bool { return described(types.NewF64()) }
func P13_spec_describe_f64() bool { return true }

func P13_impl_load_f64(cx *types.CallContext, ptr uint32) bool {
	assume(ptr%8 == 0 && inMem(cx, ptr, 8))
	v, err := io.Load(cx, types.NewF64(), ptr)
	_, ok := v.(float64)
	return err == nil && ok
}
func P13_spec_load_f64(cx *types.CallContext, ptr uint32) bool { return true }

//vc:resultonly
func P13_impl_store_f64(cx *types.CallContext, v float64, ptr uint32) bool {
	assume(ptr%8 == 0 && inMem(cx, ptr, 8))
	return io.Store(cx, v, types.NewF64(), ptr) == nil
}
func P13_spec_store_f64(cx *types.CallContext, v float64, ptr uint32) bool { return true }

func P13_impl_lift_f64(cx *types.CallContext, x float64) bool {
	v, err := io.LiftFlat(cx, values.NewIterator(values.Float64(x)), types.NewF64())
	_, ok := v.(float64)
	return err == nil && ok
}
func P13_spec_lift_f64(cx *types.CallContext, x float64) bool { return true }

func P13_impl_lower_f64(cx *types.CallContext, v float64) bool {
	vs, err := io.LowerFlat(cx, v, types.NewF64())
	if err != nil || len(vs) != 1 {
		return false
	}
	_, ok := vs[0].(values.Float64)
	return ok
}
func P13_spec_lower_f64(cx *types.CallContext, v float64) bool { return true }

func P13_impl_describe_char() bool { return described(types.NewChar()) }
func P13_spec_describe_char() bool { return true }

func P13_impl_load_char(cx *types.CallContext, ptr uint32) bool {
	assume(ptr%4 == 0 && inMem(cx, ptr, 4))
	assume(le(cx, ptr, 4) < 0xd800)
	v, err := io.Load(cx, types.NewChar(), ptr)
	_, ok := v.(rune)
	return err == nil && ok
}
func P13_spec_load_char(cx *types.CallContext, ptr uint32) bool { return true }

//vc:resultonly
func P13_impl_store_char(cx *types.CallContext, v rune, ptr uint32) bool {
	assume(ptr%4 == 0 && inMem(cx, ptr, 4))
	assume(v >= 0 && v < 0xd800)
	return io.Store(cx, v, types.NewChar(), ptr) == nil
}
func P13_spec_store_char(cx *types.CallContext, v rune, ptr uint32) bool { return true }

func P13_impl_lift_char(cx *types.CallContext, x uint32) bool {
	assume(x < 0xd800)
	v, err := io.LiftFlat(cx, values.NewIterator(values.U32(x)), types.NewChar())
	_, ok := v.(rune)
	return err == nil && ok
}
func P13_spec_lift_char(cx *types.CallContext, x uint32) bool { return true }

func P13_impl_lower_char(cx *types.CallContext, v rune) bool {
	assume(v >= 0 && v < 0xd800)
	vs, err := io.LowerFlat(cx, v, types.NewChar())
	if err != nil || len(vs) != 1 {
		return false
	}
	_, ok := vs[0].(values.U32)
	return ok
}
func P13_spec_lower_char(cx *types.CallContext, v rune) bool { return true }

func P13_impl_describe_handles(rt types.ResourceType) bool {
	return described(types.NewOwn(rt)) && described(types.NewBorrow(rt))
}
func P13_spec_describe_handles(rt types.ResourceType) bool { return true }

func P13_impl_describe_contents(t types.ValType) bool {
	return described(types.NewString()) && described(types.NewList(t))
}
func P13_spec_describe_contents(t types.ValType) bool { return true }

func asRecord(ts []types.ValType) types.ValType {
	var fs []types.Field
	for i := 0; i < len(ts); i++ {
		fs = append(fs, types.Field{Label: strconv.Itoa(i), Type: ts[i]})
	}
	return types.NewRecord(fs...)
}

func asVariant(ts []types.ValType) types.ValType {
	var cs []types.Case
	for i := 0; i < len(ts); i++ {
		cs = append(cs, types.Case{Label: strconv.Itoa(i), Type: ts[i]})
	}
	return types.NewVariant(cs...)
}

func asEnum(ls []string) types.ValType {
	var cs []types.Case
	for i := 0; i < len(ls); i++ {
		cs = append(cs, types.Case{Label: ls[i]})
	}
	return types.NewVariant(cs...)
}

func P13_impl_size_tuple(ts []types.ValType) (uint32, error) {
	return io.Size(types.NewTuple(ts...))
}
func P13_spec_size_tuple(ts []types.ValType) (uint32, error) {
	return io.Size(asRecord(ts))
}

func P13_impl_alignment_tuple(ts []types.ValType) (uint32, error) {
	return io.Alignment(types.NewTuple(ts...))
}
func P13_spec_alignment_tuple(ts []types.ValType) (uint32, error) {
	return io.Alignment(asRecord(ts))
}

func P13_impl_load_tuple(cx *types.CallContext, ptr uint32, ts []types.ValType) (any, error) {
	return io.Load(cx, types.NewTuple(ts...), ptr)
}
func P13_spec_load_tuple(cx *types.CallContext, ptr uint32, ts []types.ValType) (any, error) {
	return io.Load(cx, asRecord(ts), ptr)
}

func P13_impl_store_tuple(cx *types.CallContext, v any, ptr uint32, ts []types.ValType) error {
	return io.Store(cx, v, types.NewTuple(ts...), ptr)
}
func P13_spec_store_tuple(cx *types.CallContext, v any, ptr uint32, ts []types.ValType) error {
	return io.Store(cx, v, asRecord(ts), ptr)
}

func P13_impl_lift_tuple(cx *types.CallContext, vi values.ValueIterator, ts []types.ValType) (any, error) {
	return io.LiftFlat(cx, vi, types.NewTuple(ts...))
}
func P13_spec_lift_tuple(cx *types.CallContext, vi values.ValueIterator, ts []types.ValType) (any, error) {
	return io.LiftFlat(cx, vi, asRecord(ts))
}

func P13_impl_lower_tuple(cx *types.CallContext, v any, ts []types.ValType) ([]values.Value, error) {
	return io.LowerFlat(cx, v, types.NewTuple(ts...))
}
func P13_spec_lower_tuple(cx *types.CallContext, v any, ts []types.ValType) ([]values.Value, error) {
	return io.LowerFlat(cx, v, asRecord(ts))
}

func P13_impl_size_union(ts []types.ValType) (uint32, error) {
	return io.Size(types.NewUnion(ts...))
}
func P13_spec_size_union(ts []types.ValType) (uint32, error) {
	return io.Size(asVariant(ts))
}

func P13_impl_alignment_union(ts []types.ValType) (uint32, error) {
	return io.Alignment(types.NewUnion(ts...))
}
func P13_spec_alignment_union(ts []types.ValType) (uint32, error) {
	return io.Alignment(asVariant(ts))
}

func P13_impl_load_union(cx *types.CallContext, ptr uint32, ts []types.ValType) (any, error) {
	return io.Load(cx, types.NewUnion(ts...), ptr)
}
func P13_spec_load_union(cx *types.CallContext, ptr uint32, ts []types.ValType) (any, error) {
	return io.Load(cx, asVariant(ts), ptr)
}

func P13_impl_store_union(cx *types.CallContext, v any, ptr uint32, ts []types.ValType) error {
	return io.Store(cx, v, types.NewUnion(ts...), ptr)
}
func P13_spec_store_union(cx *types.CallContext, v any, ptr uint32, ts []types.ValType) error {
	return io.Store(cx, v, asVariant(ts), ptr)
}

func P13_impl_lift_union(cx *types.CallContext, vi values.ValueIterator, ts []types.ValType) (any, error) {
	return io.LiftFlat(cx, vi, types.NewUnion(ts...))
}
func P13_spec_lift_union(cx *types.CallContext, vi values.ValueIterator, ts []types.ValType) (any, error) {
	return io.LiftFlat(cx, vi, asVariant(ts))
}

func P13_impl_lower_union(cx *types.CallContext, v any, ts []types.ValType) ([]values.Value, error) {
	return io.LowerFlat(cx, v, types.NewUnion(ts...))
}
func P13_spec_lower_union(cx *types.CallContext, v any, ts []types.ValType) ([]values.Value, error) {
	return io.LowerFlat(cx, v, asVariant(ts))
}

func P13_impl_size_enum(ls []string) (uint32, error) {
	return io.Size(types.NewEnum(ls...))
}
func P13_spec_size_enum(ls []string) (uint32, error) {
	return io.Size(asEnum(ls))
}

func P13_impl_alignment_enum(ls []string) (uint32, error) {
	return io.Alignment(types.NewEnum(ls...))
}
func P13_spec_alignment_enum(ls []string) (uint32, error) {
	return io.Alignment(asEnum(ls))
}

func P13_impl_load_enum(cx *types.CallContext, ptr uint32, ls []string) (any, error) {
	return io.Load(cx, types.NewEnum(ls...), ptr)
}
func P13_spec_load_enum(cx *types.CallContext, ptr uint32, ls []string) (any, error) {
	return io.Load(cx, asEnum(ls), ptr)
}

func P13_impl_store_enum(cx *types.CallContext, v any, ptr uint32, ls []string) error {
	return io.Store(cx, v, types.NewEnum(ls...), ptr)
}
func P13_spec_store_enum(cx *types.CallContext, v any, ptr uint32, ls []string) error {
	return io.Store(cx, v, asEnum(ls), ptr)
}

func P13_impl_lift_enum(cx *types.CallContext, vi values.ValueIterator, ls []string) (any, error) {
	return io.LiftFlat(cx, vi, types.NewEnum(ls...))
}
func P13_spec_lift_enum(cx *types.CallContext, vi values.ValueIterator, ls []string) (any, error) {
	return io.LiftFlat(cx, vi, asEnum(ls))
}

func P13_impl_lower_enum(cx *types.CallContext, v any, ls []string) ([]values.Value, error) {
	return io.LowerFlat(cx, v, types.NewEnum(ls...))
}
func P13_spec_lower_enum(cx *types.CallContext, v any, ls []string) ([]values.Value, error) {
	return io.LowerFlat(cx, v, asEnum(ls))
}

func P13_impl_size_option(t types.ValType) (uint32, error) {
	return io.Size(types.NewOption(t))
}
func P13_spec_size_option(t types.ValType) (uint32, error) {
	return io.Size(types.NewVariant(types.Case{Label: "none"}, types.Case{Label: "some", Type: t}))
}

func P13_impl_alignment_option(t types.ValType) (uint32, error) {
	return io.Alignment(types.NewOption(t))
}
func P13_spec_alignment_option(t types.ValType) (uint32, error) {
	return io.Alignment(types.NewVariant(types.Case{Label: "none"}, types.Case{Label: "some", Type: t}))
}

func P13_impl_load_option(cx *types.CallContext, ptr uint32, t types.ValType) (any, error) {
	return io.Load(cx, types.NewOption(t), ptr)
}
func P13_spec_load_option(cx *types.CallContext, ptr uint32, t types.ValType) (any, error) {
	return io.Load(cx, types.NewVariant(types.Case{Label: "none"}, types.Case{Label: "some", Type: t}), ptr)
}

func P13_impl_store_option(cx *types.CallContext, v any, ptr uint32, t types.ValType) error {
	return io.Store(cx, v, types.NewOption(t), ptr)
}
func P13_spec_store_option(cx *types.CallContext, v any, ptr uint32, t types.ValType) error {
	return io.Store(cx, v, types.NewVariant(types.Case{Label: "none"}, types.Case{Label: "some", Type: t}), ptr)
}

func P13_impl_lift_option(cx *types.CallContext, vi values.ValueIterator, t types.ValType) (any, error) {
	return io.LiftFlat(cx, vi, types.NewOption(t))
}
func P13_spec_lift_option(cx *types.CallContext, vi values.ValueIterator, t types.ValType) (any, error) {
	return io.LiftFlat(cx, vi, types.NewVariant(types.Case{Label: "none"}, types.Case{Label: "some", Type: t}))
}

func P13_impl_lower_option(cx *types.CallContext, v any, t types.ValType) ([]values.Value, error) {
	return io.LowerFlat(cx, v, types.NewOption(t))
}
func P13_spec_lower_option(cx *types.CallContext, v any, t types.ValType) ([]values.Value, error) {
	return io.LowerFlat(cx, v, types.NewVariant(types.Case{Label: "none"}, types.Case{Label: "some", Type: t}))
}

func P13_impl_size_result(a, b types.ValType) (uint32, error) {
	return io.Size(types.NewResult(a, b))
}
func P13_spec_size_result(a, b types.ValType) (uint32, error) {
	return io.Size(types.NewVariant(types.Case{Label: "ok", Type: a}, types.Case{Label: "error", Type: b}))
}

func P13_impl_alignment_result(a, b types.ValType) (uint32, error) {
	return io.Alignment(types.NewResult(a, b))
}
func P13_spec_alignment_result(a, b types.ValType) (uint32, error) {
	return io.Alignment(types.NewVariant(types.Case{Label: "ok", Type: a}, types.Case{Label: "error", Type: b}))
}

func P13_impl_load_result(cx *types.CallContext, ptr uint32, a, b types.ValType) (any, error) {
	return io.Load(cx, types.NewResult(a, b), ptr)
}
func P13_spec_load_result(cx *types.CallContext, ptr uint32, a, b types.ValType) (any, error) {
	return io.Load(cx, types.NewVariant(types.Case{Label: "ok", Type: a}, types.Case{Label: "error", Type: b}), ptr)
}

func P13_impl_store_result(cx *types.CallContext, v any, ptr uint32, a, b types.ValType) error {
	return io.Store(cx, v, types.NewResult(a, b), ptr)
}
func P13_spec_store_result(cx *types.CallContext, v any, ptr uint32, a, b types.ValType) error {
	return io.Store(cx, v, types.NewVariant(types.Case{Label: "ok", Type: a}, types.Case{Label: "error", Type: b}), ptr)
}

func P13_impl_lift_result(cx *types.CallContext, vi values.ValueIterator, a, b types.ValType) (any, error) {
	return io.LiftFlat(cx, vi, types.NewResult(a, b))
}
func P13_spec_lift_result(cx *types.CallContext, vi values.ValueIterator, a, b types.ValType) (any, error) {
	return io.LiftFlat(cx, vi, types.NewVariant(types.Case{Label: "ok", Type: a}, types.Case{Label: "error", Type: b}))
}

func P13_impl_lower_result(cx *types.CallContext, v any, a, b types.ValType) ([]values.Value, error) {
	return io.LowerFlat(cx, v, types.NewResult(a, b))
}
func P13_spec_lower_result(cx *types.CallContext, v any, a, b types.ValType) ([]values.Value, error) {
	return io.LowerFlat(cx, v, types.NewVariant(types.Case{Label: "ok", Type: a}, types.Case{Label: "error", Type: b}))
}

// a type that no operation knows

func P13_impl_unknown_describe(a, b types.ValType) bool {
	t := types.NewStream(a, b)
	_, e1 := io.Size(t)
	_, e2 := io.Alignment(t)
	_, e3 := io.FlattenType(t)
	return e1 != nil && e2 != nil && e3 != nil
}
func P13_spec_unknown_describe(a, b types.ValType) bool { return true }

func P13_impl_unknown_load(cx *types.CallContext, ptr uint32, a, b types.ValType) bool {
	_, err := io.Load(cx, types.NewStream(a, b), ptr)
	return err != nil
}
func P13_spec_unknown_load(cx *types.CallContext, ptr uint32, a, b types.ValType) bool { return true }

func P13_impl_unknown_store(cx *types.CallContext, v any, ptr uint32, a, b types.ValType) bool {
	return io.Store(cx, v, types.NewStream(a, b), ptr) != nil
}
func P13_spec_unknown_store(cx *types.CallContext, v any, ptr uint32, a, b types.ValType) bool {
	return true
}

func P13_impl_unknown_lift(cx *types.CallContext, vi values.ValueIterator, a, b types.ValType) bool {
	_, err := io.LiftFlat(cx, vi, types.NewStream(a, b))
	return err != nil
}
func P13_spec_unknown_lift(cx *types.CallContext, vi values.ValueIterator, a, b types.ValType) bool {
	return true
}

func P13_impl_unknown_lower(cx *types.CallContext, v any, a, b types.ValType) bool {
	_, err := io.LowerFlat(cx, v, types.NewStream(a, b))
	return err != nil
}
func P13_spec_unknown_lower(cx *types.CallContext, v any, a, b types.ValType) bool { return true }

//vc:opaque abi/io.MaxCaseAlignment
//vc:opaquetype abi/io.Size:VariantImpl
//vc:resultonly
func P13_impl_load_variant(cx *types.CallContext, ptr uint32, cs []types.Case) bool {
	assume(len(cs) <= 1<<24)
	_, err := io.Load(cx, types.NewVariant(cs...), ptr)
	return err == nil
}
func P13_spec_load_variant(cx *types.CallContext, ptr uint32, cs []types.Case) bool {
	_, err := P09_spec_load(cx, ptr, cs)
	return err == nil
}

//vc:replace abi/io.MatchCase=matched
//vc:opaque abi/io.MaxCaseAlignment
//vc:opaquetype abi/io.Size:VariantImpl abi/io.Alignment:VariantImpl
//vc:resultonly
func P13_impl_store_variant(cx *types.CallContext, v any, ptr uint32, cs []types.Case) bool {
	assume(len(cs) <= 1<<24)
	return io.Store(cx, v, types.NewVariant(cs...), ptr) == nil
}
func P13_spec_store_variant(cx *types.CallContext, v any, ptr uint32, cs []types.Case) bool {
	return P09_spec_store(cx, v, ptr, cs) == nil
}

//vc:resultonly
func P13_impl_lift_variant(cx *types.CallContext, vi values.ValueIterator, cs []types.Case) bool {
	assume(len(cs) <= 1<<24)
	_, err := io.LiftFlat(cx, vi, types.NewVariant(cs...))
	return err == nil
}
func P13_spec_lift_variant(cx *types.CallContext, vi values.ValueIterator, cs []types.Case) bool {
	_, err := P09_spec_lift(cx, vi, cs)
	return err == nil
}

//vc:replace abi/io.MatchCase=matched
//vc:opaquetype abi/io.FlattenType:VariantImpl
//vc:resultonly
func P13_impl_lower_variant(cx *types.CallContext, v any, cs []types.Case) bool {
	assume(len(cs) <= 1<<24)
	_, err := io.LowerFlat(cx, v, types.NewVariant(cs...))
	return err == nil
}
func P13_spec_lower_variant(cx *types.CallContext, v any, cs []types.Case) bool {
	_, err := P09_spec_lower(cx, v, cs)
	return err == nil
}
func P13_alt_lower_variant(cx *types.CallContext, v any, cs []types.Case) bool {
	_, err := P09_alt_lower(cx, v, cs)
	return err == nil
}

//vc:resultonly
func P13_impl_load_flags(cx *types.CallContext, ptr uint32, labels []string) bool {
	assume(len(labels) <= 64)
	_, err := io.Load(cx, types.NewFlags(labels...), ptr)
	return err == nil
}
func P13_spec_load_flags(cx *types.CallContext, ptr uint32, labels []string) bool {
	_, err := P10_spec_load(cx, ptr, labels)
	return err == nil
}

//vc:resultonly
func P13_impl_store_flags(cx *types.CallContext, v any, ptr uint32, labels []string) bool {
	assume(len(labels) <= 64)
	return io.Store(cx, v, types.NewFlags(labels...), ptr) == nil
}
func P13_spec_store_flags(cx *types.CallContext, v any, ptr uint32, labels []string) bool {
	return P10_spec_store(cx, v, ptr, labels) == nil
}

//vc:resultonly
func P13_impl_lift_flags(cx *types.CallContext, vi values.ValueIterator, labels []string) bool {
	assume(len(labels) <= 64)
	_, err := io.LiftFlat(cx, vi, types.NewFlags(labels...))
	return err == nil
}
func P13_spec_lift_flags(cx *types.CallContext, vi values.ValueIterator, labels []string) bool {
	_, err := P10_spec_lift(cx, vi, labels)
	return err == nil
}

//vc:resultonly
func P13_impl_lower_flags(cx *types.CallContext, v any, labels []string) bool {
	assume(len(labels) <= 64)
	_, err := io.LowerFlat(cx, v, types.NewFlags(labels...))
	return err == nil
}
func P13_spec_lower_flags(cx *types.CallContext, v any, labels []string) bool {
	_, err := P10_spec_lower(cx, v, labels)
	return err == nil
}

//vc:opaquetype abi/io.Size:RecordImpl
//vc:resultonly
func P13_impl_load_record(cx *types.CallContext, ptr uint32, fs []types.Field) bool {
	_, err := io.Load(cx, types.NewRecord(fs...), ptr)
	return err == nil
}
func P13_spec_load_record(cx *types.CallContext, ptr uint32, fs []types.Field) bool {
	_, err := P11_spec_load_record(cx, ptr, fs)
	return err == nil
}

//vc:opaquetype abi/io.Size:RecordImpl abi/io.Alignment:RecordImpl
//vc:resultonly
func P13_impl_store_record(cx *types.CallContext, v any, ptr uint32, fs []types.Field) bool {
	return io.Store(cx, v, types.NewRecord(fs...), ptr) == nil
}
func P13_spec_store_record(cx *types.CallContext, v any, ptr uint32, fs []types.Field) bool {
	return P11_spec_store_record(cx, v, ptr, fs) == nil
}

//vc:resultonly
func P13_impl_lift_record(cx *types.CallContext, vi values.ValueIterator, fs []types.Field) bool {
	_, err := io.LiftFlat(cx, vi, types.NewRecord(fs...))
	return err == nil
}
func P13_spec_lift_record(cx *types.CallContext, vi values.ValueIterator, fs []types.Field) bool {
	_, err := P11_spec_lift_record(cx, vi, fs)
	return err == nil
}

//vc:resultonly
func P13_impl_lower_record(cx *types.CallContext, v any, fs []types.Field) bool {
	_, err := io.LowerFlat(cx, v, types.NewRecord(fs...))
	return err == nil
}
func P13_spec_lower_record(cx *types.CallContext, v any, fs []types.Field) bool {
	_, err := P11_spec_lower_record(cx, v, fs)
	return err == nil
}

//vc:resultonly
func P13_impl_load_list(cx *types.CallContext, ptr uint32, t types.ValType) bool {
	_, err := io.Load(cx, types.NewList(t), ptr)
	return err == nil
}
func P13_spec_load_list(cx *types.CallContext, ptr uint32, t types.ValType) bool {
	_, err := P11_spec_load_list(cx, ptr, t)
	return err == nil
}

//vc:resultonly
func P13_impl_lift_list(cx *types.CallContext, vi values.ValueIterator, t types.ValType) bool {
	_, err := io.LiftFlat(cx, vi, types.NewList(t))
	return err == nil
}
func P13_spec_lift_list(cx *types.CallContext, vi values.ValueIterator, t types.ValType) bool {
	_, err := P11_spec_lift_list(cx, vi, t)
	return err == nil
}

//vc:resultonly
func P13_impl_store_list(cx *types.CallContext, v any, ptr uint32, t types.ValType) bool {
	hostList(v)
	return io.Store(cx, v, types.NewList(t), ptr) == nil
}
func P13_spec_store_list(cx *types.CallContext, v any, ptr uint32, t types.ValType) bool {
	return P11_spec_store_list(cx, v, ptr, t) == nil
}

//vc:resultonly
func P13_impl_lower_list(cx *types.CallContext, v any, t types.ValType) bool {
	hostList(v)
	_, err := io.LowerFlat(cx, v, types.NewList(t))
	return err == nil
}
func P13_spec_lower_list(cx *types.CallContext, v any, t types.ValType) bool {
	_, err := P11_spec_lower_list(cx, v, t)
	return err == nil
}

//vc:replace encoding.DecodeString=decodeNamed
//vc:resultonly
func P13_impl_load_string(cx *types.CallContext, ptr uint32) bool {
	_, err := io.Load(cx, types.NewString(), ptr)
	return err == nil
}
func P13_spec_load_string(cx *types.CallContext, ptr uint32) bool {
	_, err := P12_spec_load(cx, ptr)
	return err == nil
}

//vc:replace encoding.DecodeString=decodeNamed
//vc:resultonly
func P13_impl_lift_string(cx *types.CallContext, vi values.ValueIterator) bool {
	_, err := io.LiftFlat(cx, vi, types.NewString())
	return err == nil
}
func P13_spec_lift_string(cx *types.CallContext, vi values.ValueIterator) bool {
	_, err := P12_spec_lift(cx, vi)
	return err == nil
}

//vc:replace encoding.EncodeString=encodeNamed
//vc:resultonly
func P13_impl_store_string(cx *types.CallContext, v any, ptr uint32) bool {
	assume(cx.Options.StringEncoding == "utf-8")
	return io.Store(cx, v, types.NewString(), ptr) == nil
}
func P13_spec_store_string(cx *types.CallContext, v any, ptr uint32) bool {
	return P12_spec_store_utf8(cx, v, ptr) == nil
}

//vc:replace encoding.EncodeString=encodeNamed
//vc:resultonly
func P13_impl_lower_string(cx *types.CallContext, v any) bool {
	assume(cx.Options.StringEncoding == "utf-8")
	_, err := io.LowerFlat(cx, v, types.NewString())
	return err == nil
}
func P13_spec_lower_string(cx *types.CallContext, v any) bool {
	_, err := P12_spec_lower_utf8(cx, v)
	return err == nil
}

//vc:resultonly
func P13_impl_load_own(cx *types.CallContext, rt types.ResourceType, ptr uint32) bool {
	_, err := io.Load(cx, types.NewOwn(rt), ptr)
	return err == nil
}
func P13_spec_load_own(cx *types.CallContext, rt types.ResourceType, ptr uint32) bool {
	_, err := P15_spec_load_own(cx, rt, ptr)
	return err == nil
}

//vc:resultonly
func P13_impl_load_borrow(cx *types.CallContext, rt types.ResourceType, ptr uint32) bool {
	_, err := io.Load(cx, types.NewBorrow(rt), ptr)
	return err == nil
}
func P13_spec_load_borrow(cx *types.CallContext, rt types.ResourceType, ptr uint32) bool {
	_, err := P15_spec_load_borrow(cx, rt, ptr)
	return err == nil
}

//vc:resultonly
func P13_impl_lift_own(cx *types.CallContext, rt types.ResourceType, vi values.ValueIterator) bool {
	_, err := io.LiftFlat(cx, vi, types.NewOwn(rt))
	return err == nil
}
func P13_spec_lift_own(cx *types.CallContext, rt types.ResourceType, vi values.ValueIterator) bool {
	_, err := P15_spec_lift_own(cx, rt, vi)
	return err == nil
}

//vc:resultonly
func P13_impl_lift_borrow(cx *types.CallContext, rt types.ResourceType, vi values.ValueIterator) bool {
	_, err := io.LiftFlat(cx, vi, types.NewBorrow(rt))
	return err == nil
}
func P13_spec_lift_borrow(cx *types.CallContext, rt types.ResourceType, vi values.ValueIterator) bool {
	_, err := P15_spec_lift_borrow(cx, rt, vi)
	return err == nil
}

//vc:resultonly
func P13_impl_lower_own(cx *types.CallContext, rt types.ResourceType, v any) bool {
	_, err := io.LowerFlat(cx, v, types.NewOwn(rt))
	return err == nil
}
func P13_spec_lower_own(cx *types.CallContext, rt types.ResourceType, v any) bool {
	_, err := P15_spec_lower_own(cx, rt, v)
	return err == nil
}

//vc:resultonly
func P13_impl_lower_borrow(cx *types.CallContext, rt types.ResourceType, v any) bool {
	_, err := io.LowerFlat(cx, v, types.NewBorrow(rt))
	return err == nil
}
func P13_spec_lower_borrow(cx *types.CallContext, rt types.ResourceType, v any) bool {
	_, err := P15_spec_lower_borrow(cx, rt, v)
	return err == nil
}

//vc:resultonly
func P13_impl_store_own(cx *types.CallContext, rt types.ResourceType, v any, ptr uint32) bool {
	return io.Store(cx, v, types.NewOwn(rt), ptr) == nil
}
func P13_spec_store_own(cx *types.CallContext, rt types.ResourceType, v any, ptr uint32) bool {
	return P15_spec_store_own(cx, rt, v, ptr) == nil
}

//vc:resultonly
func P13_impl_store_borrow(cx *types.CallContext, rt types.ResourceType, v any, ptr uint32) bool {
	return io.Store(cx, v, types.NewBorrow(rt), ptr) == nil
}
func P13_spec_store_borrow(cx *types.CallContext, rt types.ResourceType, v any, ptr uint32) bool {
	return P15_spec_store_borrow(cx, rt, v, ptr) == nil
}
