//go:build ignore

package zzverif

import (
	"github.com/patrickhuber/go-wasm/abi/io"
	"github.com/patrickhuber/go-wasm/abi/types"
	"github.com/patrickhuber/go-wasm/abi/values"
)

// outside: some byte of [ptr, ptr+n) is not guest memory
func outside(cx *types.CallContext, ptr uint32, n uint64) bool {
	return n > 0 && uint64(ptr)+n > uint64(len(cx.Options.Memory.Bytes()))
}

// wildAlloc is an allocator whose areas do not lie in memory.
func withWildAlloc(cx *types.CallContext) *types.CallContext {
	mem := cx.Options.Memory
	return &types.CallContext{
		Options: &types.CanonicalOptions{
			Memory:         mem,
			StringEncoding: cx.Options.StringEncoding,
			Realloc: func(a, b, align, n uint32) (uint32, error) {
				p := anyAlloc(a, b, align, n)
				assume(n > 0 && uint64(p)+uint64(n) > uint64(len(mem.Bytes())))
				return p, nil
			},
		},
		Instance: cx.Instance,
	}
}

func P04_impl_load_bool(cx *types.CallContext, ptr uint32) bool {
	assume(outside(cx, ptr, 1))
	_, err := io.Load(cx, types.NewBool(), ptr)
	return err != nil
}
func P04_spec_load_bool(cx *types.CallContext, ptr uint32) bool {
	return true
}

func P04_impl_store_bool(cx *types.CallContext, v any, ptr uint32) bool {
	assume(outside(cx, ptr, 1))
	return io.Store(cx, v, types.NewBool(), ptr) != nil
}
func P04_spec_store_bool(cx *types.CallContext, v any, ptr uint32) bool {
	return true
}

func P04_impl_load_u8(cx *types.CallContext, ptr uint32) bool {
	assume(outside(cx, ptr, 1))
	_, err := io.Load(cx, types.NewU8(), ptr)
	return err != nil
}
func P04_spec_load_u8(cx *types.CallContext, ptr uint32) bool {
	return true
}

func P04_impl_store_u8(cx *types.CallContext, v any, ptr uint32) bool {
	assume(outside(cx, ptr, 1))
	return io.Store(cx, v, types.NewU8(), ptr) != nil
}
func P04_spec_store_u8(cx *types.CallContext, v any, ptr uint32) bool {
	return true
}

func P04_impl_load_u16(cx *types.CallContext, ptr uint32) bool {
	assume(outside(cx, ptr, 2))
	_, err := io.Load(cx, types.NewU16(), ptr)
	return err != nil
}
func P04_spec_load_u16(cx *types.CallContext, ptr uint32) bool {
	return true
}

func P04_impl_store_u16(cx *types.CallContext, v any, ptr uint32) bool {
	assume(outside(cx, ptr, 2))
	return io.Store(cx, v, types.NewU16(), ptr) != nil
}
func P04_spec_store_u16(cx *types.CallContext, v any, ptr uint32) bool {
	return true
}

func P04_impl_load_u32(cx *types.CallContext, ptr uint32) bool {
	assume(outside(cx, ptr, 4))
	_, err := io.Load(cx, types.NewU32(), ptr)
	return err != nil
}
func P04_spec_load_u32(cx *types.CallContext, ptr uint32) bool {
	return true
}

func P04_impl_store_u32(cx *types.CallContext, v any, ptr uint32) bool {
	assume(outside(cx, ptr, 4))
	return io.Store(cx, v, types.NewU32(), ptr) != nil
}
func P04_spec_store_u32(cx *types.CallContext, v any, ptr uint32) bool {
	return true
}

func P04_impl_load_u64(cx *types.CallContext, ptr uint32) bool {
	assume(outside(cx, ptr, 8))
	_, err := io.Load(cx, types.NewU64(), ptr)
	return err != nil
}
func P04_spec_load_u64(cx *types.CallContext, ptr uint32) bool {
	return true
}

func P04_impl_store_u64(cx *types.CallContext, v any, ptr uint32) bool {
	assume(outside(cx, ptr, 8))
	return io.Store(cx, v, types.NewU64(), ptr) != nil
}
func P04_spec_store_u64(cx *types.CallContext, v any, ptr uint32) bool {
	return true
}

func P04_impl_load_s8(cx *types.CallContext, ptr uint32) bool {
	assume(outside(cx, ptr, 1))
	_, err := io.Load(cx, types.NewS8(), ptr)
	return err != nil
}
func P04_spec_load_s8(cx *types.CallContext, ptr uint32) bool {
	return true
}

func P04_impl_store_s8(cx *types.CallContext, v any, ptr uint32) bool {
	assume(outside(cx, ptr, 1))
	return io.Store(cx, v, types.NewS8(), ptr) != nil
}
func P04_spec_store_s8(cx *types.CallContext, v any, ptr uint32) bool {
	return true
}

func P04_impl_load_s16(cx *types.CallContext, ptr uint32) bool {
	assume(outside(cx, ptr, 2))
	_, err := io.Load(cx, types.NewS16(), ptr)
	return err != nil
}
func P04_spec_load_s16(cx *types.CallContext, ptr uint32) bool {
	return true
}

func P04_impl_store_s16(cx *types.CallContext, v any, ptr uint32) bool {
	assume(outside(cx, ptr, 2))
	return io.Store(cx, v, types.NewS16(), ptr) != nil
}
func P04_spec_store_s16(cx *types.CallContext, v any, ptr uint32) bool {
	return true
}

func P04_impl_load_s32(cx *types.CallContext, ptr uint32) bool {
	assume(outside(cx, ptr, 4))
	_, err := io.Load(cx, types.NewS32(), ptr)
	return err != nil
}
func P04_spec_load_s32(cx *types.CallContext, ptr uint32) bool {
	return true
}

func P04_impl_store_s32(cx *types.CallContext, v any, ptr uint32) bool {
	assume(outside(cx, ptr, 4))
	return io.Store(cx, v, types.NewS32(), ptr) != nil
}
func P04_spec_store_s32(cx *types.CallContext, v any, ptr uint32) bool {
	return true
}

func P04_impl_load_s64(cx *types.CallContext, ptr uint32) bool {
	assume(outside(cx, ptr, 8))
	_, err := io.Load(cx, types.NewS64(), ptr)
	return err != nil
}
func P04_spec_load_s64(cx *types.CallContext, ptr uint32) bool {
	return true
}

func P04_impl_store_s64(cx *types.CallContext, v any, ptr uint32) bool {
	assume(outside(cx, ptr, 8))
	return io.Store(cx, v, types.NewS64(), ptr) != nil
}
func P04_spec_store_s64(cx *types.CallContext, v any, ptr uint32) bool {
	return true
}

func P04_impl_load_f32(cx *types.CallContext, ptr uint32) bool {
	assume(outside(cx, ptr, 4))
	_, err := io.Load(cx, types.NewF32(), ptr)
	return err != nil
}
func P04_spec_load_f32(cx *types.CallContext, ptr uint32) bool {
	return true
}

func P04_impl_store_f32(cx *types.CallContext, v any, ptr uint32) bool {
	assume(outside(cx, ptr, 4))
	return io.Store(cx, v, types.NewF32(), ptr) != nil
}
func P04_spec_store_f32(cx *types.CallContext, v any, ptr uint32) bool {
	return true
}

func P04_impl_load_f64(cx *types.CallContext, ptr uint32) bool {
	assume(outside(cx, ptr, 8))
	_, err := io.Load(cx, types.NewF64(), ptr)
	return err != nil
}
func P04_spec_load_f64(cx *types.CallContext, ptr uint32) bool {
	return true
}

func P04_impl_store_f64(cx *types.CallContext, v any, ptr uint32) bool {
	assume(outside(cx, ptr, 8))
	return io.Store(cx, v, types.NewF64(), ptr) != nil
}
func P04_spec_store_f64(cx *types.CallContext, v any, ptr uint32) bool {
	return true
}

func P04_impl_load_char(cx *types.CallContext, ptr uint32) bool {
	assume(outside(cx, ptr, 4))
	_, err := io.Load(cx, types.NewChar(), ptr)
	return err != nil
}
func P04_spec_load_char(cx *types.CallContext, ptr uint32) bool {
	return true
}

func P04_impl_store_char(cx *types.CallContext, v any, ptr uint32) bool {
	assume(outside(cx, ptr, 4))
	return io.Store(cx, v, types.NewChar(), ptr) != nil
}
func P04_spec_store_char(cx *types.CallContext, v any, ptr uint32) bool {
	return true
}

func P04_impl_load_own(cx *types.CallContext, ptr uint32, rt types.ResourceType) bool {
	assume(outside(cx, ptr, 4))
	_, err := io.Load(cx, types.NewOwn(rt), ptr)
	return err != nil
}
func P04_spec_load_own(cx *types.CallContext, ptr uint32, rt types.ResourceType) bool {
	return true
}

func P04_impl_store_own(cx *types.CallContext, v any, ptr uint32, rt types.ResourceType) bool {
	assume(outside(cx, ptr, 4))
	return io.Store(cx, v, types.NewOwn(rt), ptr) != nil
}
func P04_spec_store_own(cx *types.CallContext, v any, ptr uint32, rt types.ResourceType) bool {
	return true
}

func P04_impl_load_borrow(cx *types.CallContext, ptr uint32, rt types.ResourceType) bool {
	assume(outside(cx, ptr, 4))
	_, err := io.Load(cx, types.NewBorrow(rt), ptr)
	return err != nil
}
func P04_spec_load_borrow(cx *types.CallContext, ptr uint32, rt types.ResourceType) bool {
	return true
}

func P04_impl_store_borrow(cx *types.CallContext, v any, ptr uint32, rt types.ResourceType) bool {
	assume(outside(cx, ptr, 4))
	return io.Store(cx, v, types.NewBorrow(rt), ptr) != nil
}
func P04_spec_store_borrow(cx *types.CallContext, v any, ptr uint32, rt types.ResourceType) bool {
	return true
}

func P04_impl_load_string(cx *types.CallContext, ptr uint32) bool {
	assume(outside(cx, ptr, 8))
	_, err := io.Load(cx, types.NewString(), ptr)
	return err != nil
}
func P04_spec_load_string(cx *types.CallContext, ptr uint32) bool {
	return true
}

func P04_impl_store_string(cx *types.CallContext, v any, ptr uint32) bool {
	assume(outside(cx, ptr, 8))
	return io.Store(cx, v, types.NewString(), ptr) != nil
}
func P04_spec_store_string(cx *types.CallContext, v any, ptr uint32) bool {
	return true
}

func P04_impl_load_list(cx *types.CallContext, ptr uint32, t types.ValType) bool {
	assume(outside(cx, ptr, 8))
	_, err := io.Load(cx, types.NewList(t), ptr)
	return err != nil
}
func P04_spec_load_list(cx *types.CallContext, ptr uint32, t types.ValType) bool {
	return true
}

func P04_impl_store_list(cx *types.CallContext, v any, ptr uint32, t types.ValType) bool {
	assume(outside(cx, ptr, 8))
	return io.Store(cx, v, types.NewList(t), ptr) != nil
}
func P04_spec_store_list(cx *types.CallContext, v any, ptr uint32, t types.ValType) bool {
	return true
}

//vc:opaquetype abi/io.Size:RecordImpl abi/io.Alignment:RecordImpl
func P04_impl_store_record(cx *types.CallContext, v any, ptr uint32, fs []types.Field) bool {
	n, err := io.Size(types.NewRecord(fs...))
	assume(err == nil && outside(cx, ptr, uint64(n)))
	return io.Store(cx, v, types.NewRecord(fs...), ptr) != nil
}
func P04_spec_store_record(cx *types.CallContext, v any, ptr uint32, fs []types.Field) bool {
	return true
}

//vc:opaquetype abi/io.Size:RecordImpl abi/io.Alignment:RecordImpl
func P04_impl_load_record(cx *types.CallContext, ptr uint32, fs []types.Field) bool {
	n, err := io.Size(types.NewRecord(fs...))
	assume(err == nil && outside(cx, ptr, uint64(n)))
	_, err = io.Load(cx, types.NewRecord(fs...), ptr)
	return err != nil
}
func P04_spec_load_record(cx *types.CallContext, ptr uint32, fs []types.Field) bool {
	return true
}

//vc:opaquetype abi/io.Size:VariantImpl abi/io.Alignment:VariantImpl
func P04_impl_store_variant(cx *types.CallContext, v any, ptr uint32, cs []types.Case) bool {
	n, err := io.Size(types.NewVariant(cs...))
	assume(err == nil && outside(cx, ptr, uint64(n)))
	return io.Store(cx, v, types.NewVariant(cs...), ptr) != nil
}
func P04_spec_store_variant(cx *types.CallContext, v any, ptr uint32, cs []types.Case) bool {
	return true
}

//vc:opaquetype abi/io.Size:VariantImpl abi/io.Alignment:VariantImpl
func P04_impl_load_variant(cx *types.CallContext, ptr uint32, cs []types.Case) bool {
	n, err := io.Size(types.NewVariant(cs...))
	assume(err == nil && outside(cx, ptr, uint64(n)))
	_, err = io.Load(cx, types.NewVariant(cs...), ptr)
	return err != nil
}
func P04_spec_load_variant(cx *types.CallContext, ptr uint32, cs []types.Case) bool {
	return true
}

//vc:opaquetype abi/io.Size:FlagsImpl abi/io.Alignment:FlagsImpl
func P04_impl_store_flags(cx *types.CallContext, v any, ptr uint32, ls []string) bool {
	n, err := io.Size(types.NewFlags(ls...))
	assume(err == nil && outside(cx, ptr, uint64(n)))
	return io.Store(cx, v, types.NewFlags(ls...), ptr) != nil
}
func P04_spec_store_flags(cx *types.CallContext, v any, ptr uint32, ls []string) bool {
	return true
}

//vc:opaquetype abi/io.Size:FlagsImpl abi/io.Alignment:FlagsImpl
func P04_impl_load_flags(cx *types.CallContext, ptr uint32, ls []string) bool {
	n, err := io.Size(types.NewFlags(ls...))
	assume(err == nil && outside(cx, ptr, uint64(n)))
	_, err = io.Load(cx, types.NewFlags(ls...), ptr)
	return err != nil
}
func P04_spec_load_flags(cx *types.CallContext, ptr uint32, ls []string) bool {
	return true
}

func P04_impl_list_contents(cx *types.CallContext, ptr, n uint32, t types.ValType) bool {
	size, err := io.Size(t)
	assume(err == nil && outside(cx, ptr, uint64(n)*uint64(size)))
	_, err = io.LoadListFromRange(cx, ptr, n, t)
	return err != nil
}
func P04_spec_list_contents(cx *types.CallContext, ptr, n uint32, t types.ValType) bool {
	return true
}

func P04_impl_list_lift(cx *types.CallContext, ptr, n uint32, t types.ValType) bool {
	size, err := io.Size(t)
	assume(err == nil && outside(cx, ptr, uint64(n)*uint64(size)))
	_, err = io.LiftFlat(cx, values.NewIterator(values.U32(ptr), values.U32(n)), types.NewList(t))
	return err != nil
}
func P04_spec_list_lift(cx *types.CallContext, ptr, n uint32, t types.ValType) bool {
	return true
}

//vc:replace encoding.DecodeString=decodeNamed
func P04_impl_string_contents_utf8(cx *types.CallContext, ptr, n uint32) bool {
	assume(cx.Options.StringEncoding == "utf-8" && outside(cx, ptr, 1*uint64(n%tag)))
	_, err := io.LoadStringFromRange(cx, ptr, n)
	return err != nil
}
func P04_spec_string_contents_utf8(cx *types.CallContext, ptr, n uint32) bool {
	return true
}

//vc:replace encoding.DecodeString=decodeNamed
func P04_impl_string_lift_utf8(cx *types.CallContext, ptr, n uint32) bool {
	assume(cx.Options.StringEncoding == "utf-8" && outside(cx, ptr, 1*uint64(n%tag)))
	_, err := io.LiftFlat(cx, values.NewIterator(values.U32(ptr), values.U32(n)), types.NewString())
	return err != nil
}
func P04_spec_string_lift_utf8(cx *types.CallContext, ptr, n uint32) bool {
	return true
}

//vc:replace encoding.DecodeString=decodeNamed
func P04_impl_string_contents_latin1(cx *types.CallContext, ptr, n uint32) bool {
	assume(cx.Options.StringEncoding == "latin1" && outside(cx, ptr, 1*uint64(n%tag)))
	_, err := io.LoadStringFromRange(cx, ptr, n)
	return err != nil
}
func P04_spec_string_contents_latin1(cx *types.CallContext, ptr, n uint32) bool {
	return true
}

//vc:replace encoding.DecodeString=decodeNamed
func P04_impl_string_lift_latin1(cx *types.CallContext, ptr, n uint32) bool {
	assume(cx.Options.StringEncoding == "latin1" && outside(cx, ptr, 1*uint64(n%tag)))
	_, err := io.LiftFlat(cx, values.NewIterator(values.U32(ptr), values.U32(n)), types.NewString())
	return err != nil
}
func P04_spec_string_lift_latin1(cx *types.CallContext, ptr, n uint32) bool {
	return true
}

//vc:replace encoding.DecodeString=decodeNamed
func P04_impl_string_contents_utf16(cx *types.CallContext, ptr, n uint32) bool {
	assume(cx.Options.StringEncoding == "utf-16" && outside(cx, ptr, 2*uint64(n%tag)))
	_, err := io.LoadStringFromRange(cx, ptr, n)
	return err != nil
}
func P04_spec_string_contents_utf16(cx *types.CallContext, ptr, n uint32) bool {
	return true
}

//vc:replace encoding.DecodeString=decodeNamed
func P04_impl_string_lift_utf16(cx *types.CallContext, ptr, n uint32) bool {
	assume(cx.Options.StringEncoding == "utf-16" && outside(cx, ptr, 2*uint64(n%tag)))
	_, err := io.LiftFlat(cx, values.NewIterator(values.U32(ptr), values.U32(n)), types.NewString())
	return err != nil
}
func P04_spec_string_lift_utf16(cx *types.CallContext, ptr, n uint32) bool {
	return true
}

//vc:replace encoding.DecodeString=decodeNamed
func P04_impl_string_contents_utf16le(cx *types.CallContext, ptr, n uint32) bool {
	assume(cx.Options.StringEncoding == "utf-16-le" && outside(cx, ptr, 2*uint64(n%tag)))
	_, err := io.LoadStringFromRange(cx, ptr, n)
	return err != nil
}
func P04_spec_string_contents_utf16le(cx *types.CallContext, ptr, n uint32) bool {
	return true
}

//vc:replace encoding.DecodeString=decodeNamed
func P04_impl_string_lift_utf16le(cx *types.CallContext, ptr, n uint32) bool {
	assume(cx.Options.StringEncoding == "utf-16-le" && outside(cx, ptr, 2*uint64(n%tag)))
	_, err := io.LiftFlat(cx, values.NewIterator(values.U32(ptr), values.U32(n)), types.NewString())
	return err != nil
}
func P04_spec_string_lift_utf16le(cx *types.CallContext, ptr, n uint32) bool {
	return true
}

//vc:replace encoding.DecodeString=decodeNamed
func P04_impl_string_contents_utf16be(cx *types.CallContext, ptr, n uint32) bool {
	assume(cx.Options.StringEncoding == "utf-16-be" && outside(cx, ptr, 2*uint64(n%tag)))
	_, err := io.LoadStringFromRange(cx, ptr, n)
	return err != nil
}
func P04_spec_string_contents_utf16be(cx *types.CallContext, ptr, n uint32) bool {
	return true
}

//vc:replace encoding.DecodeString=decodeNamed
func P04_impl_string_lift_utf16be(cx *types.CallContext, ptr, n uint32) bool {
	assume(cx.Options.StringEncoding == "utf-16-be" && outside(cx, ptr, 2*uint64(n%tag)))
	_, err := io.LiftFlat(cx, values.NewIterator(values.U32(ptr), values.U32(n)), types.NewString())
	return err != nil
}
func P04_spec_string_lift_utf16be(cx *types.CallContext, ptr, n uint32) bool {
	return true
}

//vc:replace encoding.DecodeString=decodeNamed
func P04_impl_string_contents_dynamic_narrow(cx *types.CallContext, ptr, n uint32) bool {
	assume(cx.Options.StringEncoding == "latin1+utf16" && n < tag && outside(cx, ptr, 1*uint64(n%tag)))
	_, err := io.LoadStringFromRange(cx, ptr, n)
	return err != nil
}
func P04_spec_string_contents_dynamic_narrow(cx *types.CallContext, ptr, n uint32) bool {
	return true
}

//vc:replace encoding.DecodeString=decodeNamed
func P04_impl_string_contents_dynamic_wide(cx *types.CallContext, ptr, n uint32) bool {
	assume(cx.Options.StringEncoding == "latin1+utf16" && n >= tag && outside(cx, ptr, 2*uint64(n%tag)))
	_, err := io.LoadStringFromRange(cx, ptr, n)
	return err != nil
}
func P04_spec_string_contents_dynamic_wide(cx *types.CallContext, ptr, n uint32) bool {
	return true
}

//vc:replace encoding.EncodeString=encodeNamed
func P04_impl_alloc_utf8(cx *types.CallContext, s string) bool {
	assume(cx.Options.StringEncoding == "utf-8")
	_, _, err := io.StoreStringIntoRange(withWildAlloc(cx), s)
	return err != nil
}
func P04_spec_alloc_utf8(cx *types.CallContext, s string) bool {
	return true
}

//vc:replace encoding.EncodeString=encodeNamed
func P04_impl_alloc_latin1(cx *types.CallContext, s string) bool {
	assume(cx.Options.StringEncoding == "latin1")
	_, _, err := io.StoreStringIntoRange(withWildAlloc(cx), s)
	return err != nil
}
func P04_spec_alloc_latin1(cx *types.CallContext, s string) bool {
	return true
}

//vc:replace encoding.EncodeString=encodeNamed
func P04_impl_alloc_utf16(cx *types.CallContext, s string) bool {
	assume(cx.Options.StringEncoding == "utf-16")
	_, _, err := io.StoreStringIntoRange(withWildAlloc(cx), s)
	return err != nil
}
func P04_spec_alloc_utf16(cx *types.CallContext, s string) bool {
	return true
}

//vc:replace encoding.EncodeString=encodeNamed
func P04_impl_alloc_utf16le(cx *types.CallContext, s string) bool {
	assume(cx.Options.StringEncoding == "utf-16-le")
	_, _, err := io.StoreStringIntoRange(withWildAlloc(cx), s)
	return err != nil
}
func P04_spec_alloc_utf16le(cx *types.CallContext, s string) bool {
	return true
}

//vc:replace encoding.EncodeString=encodeNamed
func P04_impl_alloc_utf16be(cx *types.CallContext, s string) bool {
	assume(cx.Options.StringEncoding == "utf-16-be")
	_, _, err := io.StoreStringIntoRange(withWildAlloc(cx), s)
	return err != nil
}
func P04_spec_alloc_utf16be(cx *types.CallContext, s string) bool {
	return true
}

//vc:replace encoding.EncodeString=encodeNamed
func P04_impl_alloc_dynamic(cx *types.CallContext, s string) bool {
	assume(cx.Options.StringEncoding == "latin1+utf16")
	_, _, err := io.StoreStringIntoRange(withWildAlloc(cx), s)
	return err != nil
}
func P04_spec_alloc_dynamic(cx *types.CallContext, s string) bool {
	return true
}

func P04_impl_alloc_list(cx *types.CallContext, v any, t types.ValType) bool {
	hostList(v)
	_, _, err := io.StoreListIntoRange(withWildAlloc(cx), v, t)
	return err != nil
}
func P04_spec_alloc_list(cx *types.CallContext, v any, t types.ValType) bool {
	return true
}

//vc:opaquetype abi/io.Size:TupleImpl abi/io.Alignment:TupleImpl
func P04_impl_lift_spilled(cx *types.CallContext, ptr uint32, n int, ts []types.ValType) bool {
	t := types.NewTuple(ts...)
	fs, err := io.FlattenTypes(ts)
	assume(err == nil && len(fs) > n)
	size, err := io.Size(t)
	assume(err == nil && outside(cx, ptr, uint64(size)))
	_, err = io.LiftValues(cx, n, values.NewIterator(values.U32(ptr)), ts)
	return err != nil
}
func P04_spec_lift_spilled(cx *types.CallContext, ptr uint32, n int, ts []types.ValType) bool {
	return true
}

//vc:opaquetype abi/io.Size:TupleImpl abi/io.Alignment:TupleImpl
func P04_impl_lower_spilled(cx *types.CallContext, ptr uint32, n int, vs []any, ts []types.ValType) bool {
	t := types.NewTuple(ts...)
	fs, err := io.FlattenTypes(ts)
	assume(err == nil && len(fs) > n)
	size, err := io.Size(t)
	assume(err == nil && outside(cx, ptr, uint64(size)))
	_, err = io.LowerValues(cx, n, vs, ts, values.NewIterator(values.U32(ptr)))
	return err != nil
}
func P04_spec_lower_spilled(cx *types.CallContext, ptr uint32, n int, vs []any, ts []types.ValType) bool {
	return true
}

//vc:opaquetype abi/io.Size:TupleImpl abi/io.Alignment:TupleImpl
func P04_impl_alloc_spilled(cx *types.CallContext, n int, vs []any, ts []types.ValType) bool {
	fs, err := io.FlattenTypes(ts)
	assume(err == nil && len(fs) > n)
	_, err = io.LowerValues(withWildAlloc(cx), n, vs, ts, nil)
	return err != nil
}
func P04_spec_alloc_spilled(cx *types.CallContext, n int, vs []any, ts []types.ValType) bool {
	return true
}
