//go:build ignore

package zzverif

import (
	"github.com/patrickhuber/go-wasm/abi/io"
	"github.com/patrickhuber/go-wasm/abi/types"
	"github.com/patrickhuber/go-wasm/abi/values"
)

// A misaligned pointer makes the operation fail without any effect; results
// are booleans so that effects are compared although the operation fails.

func P05_impl_store_2(cx *types.CallContext, v any, ptr uint32, k int) bool {
	assume(ptr%2 != 0)
	switch k {
	case 0:
		return io.Store(cx, v, types.NewU16(), ptr) != nil
	case 1:
		return io.Store(cx, v, types.NewS16(), ptr) != nil
	}
	return true
}
func P05_spec_store_2(cx *types.CallContext, v any, ptr uint32, k int) bool { return true }

func P05_impl_store_4(cx *types.CallContext, v any, ptr uint32, k int) bool {
	assume(ptr%4 != 0)
	switch k {
	case 0:
		return io.Store(cx, v, types.NewU32(), ptr) != nil
	case 1:
		return io.Store(cx, v, types.NewS32(), ptr) != nil
	case 2:
		return io.Store(cx, v, types.NewF32(), ptr) != nil
	case 3:
		return io.Store(cx, v, types.NewChar(), ptr) != nil
	case 4:
		return io.Store(cx, v, types.NewString(), ptr) != nil
	}
	return true
}
func P05_spec_store_4(cx *types.CallContext, v any, ptr uint32, k int) bool { return true }

func P05_impl_store_8(cx *types.CallContext, v any, ptr uint32, k int) bool {
	assume(ptr%8 != 0)
	switch k {
	case 0:
		return io.Store(cx, v, types.NewU64(), ptr) != nil
	case 1:
		return io.Store(cx, v, types.NewS64(), ptr) != nil
	case 2:
		return io.Store(cx, v, types.NewF64(), ptr) != nil
	}
	return true
}
func P05_spec_store_8(cx *types.CallContext, v any, ptr uint32, k int) bool { return true }

func P05_impl_store_list(cx *types.CallContext, v any, ptr uint32, t types.ValType) bool {
	assume(ptr%4 != 0)
	return io.Store(cx, v, types.NewList(t), ptr) != nil
}
func P05_spec_store_list(cx *types.CallContext, v any, ptr uint32, t types.ValType) bool { return true }

func P05_impl_store_own(cx *types.CallContext, v any, ptr uint32, rt types.ResourceType) bool {
	assume(ptr%4 != 0)
	return io.Store(cx, v, types.NewOwn(rt), ptr) != nil
}
func P05_spec_store_own(cx *types.CallContext, v any, ptr uint32, rt types.ResourceType) bool {
	return true
}

func P05_impl_store_borrow(cx *types.CallContext, v any, ptr uint32, rt types.ResourceType) bool {
	assume(ptr%4 != 0)
	return io.Store(cx, v, types.NewBorrow(rt), ptr) != nil
}
func P05_spec_store_borrow(cx *types.CallContext, v any, ptr uint32, rt types.ResourceType) bool {
	return true
}

// misaligned: ptr is not a multiple of the alignment of t, or t has none
func misaligned(t types.ValType, ptr uint32) bool {
	a, err := io.Alignment(t)
	return err != nil || ptr%a != 0
}

//vc:opaquetype abi/io.Size:RecordImpl abi/io.Alignment:RecordImpl
func P05_impl_store_record(cx *types.CallContext, v any, ptr uint32, fs []types.Field) bool {
	assume(misaligned(types.NewRecord(fs...), ptr))
	return io.Store(cx, v, types.NewRecord(fs...), ptr) != nil
}
func P05_spec_store_record(cx *types.CallContext, v any, ptr uint32, fs []types.Field) bool {
	return true
}

//vc:opaquetype abi/io.Size:VariantImpl abi/io.Alignment:VariantImpl
func P05_impl_store_variant(cx *types.CallContext, v any, ptr uint32, cs []types.Case) bool {
	assume(misaligned(types.NewVariant(cs...), ptr))
	return io.Store(cx, v, types.NewVariant(cs...), ptr) != nil
}
func P05_spec_store_variant(cx *types.CallContext, v any, ptr uint32, cs []types.Case) bool {
	return true
}

//vc:opaquetype abi/io.Size:FlagsImpl abi/io.Alignment:FlagsImpl
func P05_impl_store_flags(cx *types.CallContext, v any, ptr uint32, labels []string) bool {
	assume(misaligned(types.NewFlags(labels...), ptr))
	return io.Store(cx, v, types.NewFlags(labels...), ptr) != nil
}
func P05_spec_store_flags(cx *types.CallContext, v any, ptr uint32, labels []string) bool {
	return true
}

// contents of lists and strings being lifted

func P05_impl_list_contents(cx *types.CallContext, ptr, n uint32, t types.ValType) bool {
	assume(misaligned(t, ptr))
	_, err := io.LoadListFromRange(cx, ptr, n, t)
	return err != nil
}
func P05_spec_list_contents(cx *types.CallContext, ptr, n uint32, t types.ValType) bool { return true }

func P05_impl_string_contents(cx *types.CallContext, ptr, n uint32) bool {
	assume(ptr%2 != 0 && cx.Options.StringEncoding != "utf-8")
	_, err := io.LoadStringFromRange(cx, ptr, n)
	return err != nil
}
func P05_spec_string_contents(cx *types.CallContext, ptr, n uint32) bool { return true }

// arguments and results passed in memory

//vc:opaquetype abi/io.Size:TupleImpl abi/io.Alignment:TupleImpl
func P05_impl_lift_spilled(cx *types.CallContext, ptr uint32, n int, ts []types.ValType) bool {
	assume(misaligned(types.NewTuple(ts...), ptr))
	fs, err := io.FlattenTypes(ts)
	assume(err == nil && len(fs) > n)
	_, err = io.LiftValues(cx, n, values.NewIterator(values.U32(ptr)), ts)
	return err != nil
}
func P05_spec_lift_spilled(cx *types.CallContext, ptr uint32, n int, ts []types.ValType) bool {
	return true
}

//vc:opaquetype abi/io.Size:TupleImpl abi/io.Alignment:TupleImpl
func P05_impl_lower_spilled(cx *types.CallContext, ptr uint32, n int, vs []any, ts []types.ValType) bool {
	assume(misaligned(types.NewTuple(ts...), ptr))
	fs, err := io.FlattenTypes(ts)
	assume(err == nil && len(fs) > n)
	_, err = io.LowerValues(cx, n, vs, ts, values.NewIterator(values.U32(ptr)))
	return err != nil
}
func P05_spec_lower_spilled(cx *types.CallContext, ptr uint32, n int, vs []any, ts []types.ValType) bool {
	return true
}

// pointers handed out by the guest allocator

func anyAlloc(a, b, c, d uint32) uint32 { return 0 }

// badAlloc is an allocator whose pointers ignore the alignment asked for.
func badAlloc(a, b, align, d uint32) (uint32, error) {
	p := anyAlloc(a, b, align, d)
	assume(p%align != 0)
	return p, nil
}

func withBadAlloc(cx *types.CallContext) *types.CallContext {
	return &types.CallContext{
		Options: &types.CanonicalOptions{
			Memory:         cx.Options.Memory,
			StringEncoding: cx.Options.StringEncoding,
			Realloc:        badAlloc,
		},
		Instance: cx.Instance,
	}
}

//vc:replace encoding.EncodeString=encodeNamed
func P05_impl_alloc_latin1(cx *types.CallContext, s string) bool {
	assume(cx.Options.StringEncoding == "latin1")
	_, _, err := io.StoreStringIntoRange(withBadAlloc(cx), s)
	return err != nil
}
func P05_spec_alloc_latin1(cx *types.CallContext, s string) bool { return true }

//vc:replace encoding.EncodeString=encodeNamed
func P05_impl_alloc_dynamic(cx *types.CallContext, s string) bool {
	assume(cx.Options.StringEncoding == "latin1+utf16")
	_, _, err := io.StoreStringIntoRange(withBadAlloc(cx), s)
	return err != nil
}
func P05_spec_alloc_dynamic(cx *types.CallContext, s string) bool { return true }

//vc:replace encoding.EncodeString=encodeNamed
func P05_impl_alloc_utf16(cx *types.CallContext, s string) bool {
	assume(cx.Options.StringEncoding == "utf-16")
	_, _, err := io.StoreStringIntoRange(withBadAlloc(cx), s)
	return err != nil
}
func P05_spec_alloc_utf16(cx *types.CallContext, s string) bool { return true }

//vc:replace encoding.EncodeString=encodeNamed
func P05_impl_alloc_utf16le(cx *types.CallContext, s string) bool {
	assume(cx.Options.StringEncoding == "utf-16-le")
	_, _, err := io.StoreStringIntoRange(withBadAlloc(cx), s)
	return err != nil
}
func P05_spec_alloc_utf16le(cx *types.CallContext, s string) bool { return true }

//vc:replace encoding.EncodeString=encodeNamed
func P05_impl_alloc_utf16be(cx *types.CallContext, s string) bool {
	assume(cx.Options.StringEncoding == "utf-16-be")
	_, _, err := io.StoreStringIntoRange(withBadAlloc(cx), s)
	return err != nil
}
func P05_spec_alloc_utf16be(cx *types.CallContext, s string) bool { return true }

func P05_impl_alloc_list(cx *types.CallContext, v any, t types.ValType) bool {
	hostList(v)
	_, _, err := io.StoreListIntoRange(withBadAlloc(cx), v, t)
	return err != nil
}
func P05_spec_alloc_list(cx *types.CallContext, v any, t types.ValType) bool { return true }

//vc:opaquetype abi/io.Size:TupleImpl abi/io.Alignment:TupleImpl
func P05_impl_alloc_spilled(cx *types.CallContext, n int, vs []any, ts []types.ValType) bool {
	fs, err := io.FlattenTypes(ts)
	assume(err == nil && len(fs) > n)
	_, err = io.LowerValues(withBadAlloc(cx), n, vs, ts, nil)
	return err != nil
}
func P05_spec_alloc_spilled(cx *types.CallContext, n int, vs []any, ts []types.ValType) bool {
	return true
}
