//go:build ignore

package zzverif

import (
	"math"

	"github.com/patrickhuber/go-wasm/abi/io"
	"github.com/patrickhuber/go-wasm/abi/types"
)

func inMem(cx *types.CallContext, ptr uint32, n uint64) bool {
	return uint64(ptr)+n <= uint64(len(cx.Options.Memory.Bytes()))
}

// le reads n bytes little-endian.
func le(cx *types.CallContext, ptr uint32, n int) uint64 {
	m := cx.Options.Memory.Bytes()
	var v uint64
	for i := n - 1; i >= 0; i-- {
		v = v*256 + uint64(m[int(ptr)+i])
	}
	return v
}

// putle writes n bytes little-endian.
func putle(cx *types.CallContext, ptr uint32, n int, v uint64) {
	m := cx.Options.Memory.Bytes()
	for i := 0; i < n; i++ {
		m[int(ptr)+i] = byte(v)
		v = v / 256
	}
}

func P03_impl_load_bool(cx *types.CallContext, ptr uint32) (any, error) {
	return io.Load(cx, types.NewBool(), ptr)
}
func P03_spec_load_bool(cx *types.CallContext, ptr uint32) (any, error) {
	if !inMem(cx, ptr, 1) {
		return nil, reject()
	}
	return le(cx, ptr, 1) != 0, nil
}
func P03_impl_store_bool(cx *types.CallContext, ptr uint32, v bool) error {
	return io.Store(cx, v, types.NewBool(), ptr)
}
func P03_spec_store_bool(cx *types.CallContext, ptr uint32, v bool) error {
	if ptr%1 != 0 || !inMem(cx, ptr, 1) {
		return reject()
	}
	putle(cx, ptr, 1, b2i(v))
	return nil
}

func P03_impl_load_u8(cx *types.CallContext, ptr uint32) (any, error) {
	return io.Load(cx, types.NewU8(), ptr)
}
func P03_spec_load_u8(cx *types.CallContext, ptr uint32) (any, error) {
	if !inMem(cx, ptr, 1) {
		return nil, reject()
	}
	return uint8(le(cx, ptr, 1)), nil
}
func P03_impl_store_u8(cx *types.CallContext, ptr uint32, v uint8) error {
	return io.Store(cx, v, types.NewU8(), ptr)
}
func P03_spec_store_u8(cx *types.CallContext, ptr uint32, v uint8) error {
	if ptr%1 != 0 || !inMem(cx, ptr, 1) {
		return reject()
	}
	putle(cx, ptr, 1, uint64(v))
	return nil
}

func P03_impl_load_u16(cx *types.CallContext, ptr uint32) (any, error) {
	return io.Load(cx, types.NewU16(), ptr)
}
func P03_spec_load_u16(cx *types.CallContext, ptr uint32) (any, error) {
	if !inMem(cx, ptr, 2) {
		return nil, reject()
	}
	return uint16(le(cx, ptr, 2)), nil
}
func P03_impl_store_u16(cx *types.CallContext, ptr uint32, v uint16) error {
	return io.Store(cx, v, types.NewU16(), ptr)
}
func P03_spec_store_u16(cx *types.CallContext, ptr uint32, v uint16) error {
	if ptr%2 != 0 || !inMem(cx, ptr, 2) {
		return reject()
	}
	putle(cx, ptr, 2, uint64(v))
	return nil
}

func P03_impl_load_u32(cx *types.CallContext, ptr uint32) (any, error) {
	return io.Load(cx, types.NewU32(), ptr)
}
func P03_spec_load_u32(cx *types.CallContext, ptr uint32) (any, error) {
	if !inMem(cx, ptr, 4) {
		return nil, reject()
	}
	return uint32(le(cx, ptr, 4)), nil
}
func P03_impl_store_u32(cx *types.CallContext, ptr uint32, v uint32) error {
	return io.Store(cx, v, types.NewU32(), ptr)
}
func P03_spec_store_u32(cx *types.CallContext, ptr uint32, v uint32) error {
	if ptr%4 != 0 || !inMem(cx, ptr, 4) {
		return reject()
	}
	putle(cx, ptr, 4, uint64(v))
	return nil
}

func P03_impl_load_u64(cx *types.CallContext, ptr uint32) (any, error) {
	return io.Load(cx, types.NewU64(), ptr)
}
func P03_spec_load_u64(cx *types.CallContext, ptr uint32) (any, error) {
	if !inMem(cx, ptr, 8) {
		return nil, reject()
	}
	return uint64(le(cx, ptr, 8)), nil
}
func P03_impl_store_u64(cx *types.CallContext, ptr uint32, v uint64) error {
	return io.Store(cx, v, types.NewU64(), ptr)
}
func P03_spec_store_u64(cx *types.CallContext, ptr uint32, v uint64) error {
	if ptr%8 != 0 || !inMem(cx, ptr, 8) {
		return reject()
	}
	putle(cx, ptr, 8, uint64(v))
	return nil
}

func P03_impl_load_s8(cx *types.CallContext, ptr uint32) (any, error) {
	return io.Load(cx, types.NewS8(), ptr)
}
func P03_spec_load_s8(cx *types.CallContext, ptr uint32) (any, error) {
	if !inMem(cx, ptr, 1) {
		return nil, reject()
	}
	return int8(le(cx, ptr, 1)), nil
}
func P03_impl_store_s8(cx *types.CallContext, ptr uint32, v int8) error {
	return io.Store(cx, v, types.NewS8(), ptr)
}
func P03_spec_store_s8(cx *types.CallContext, ptr uint32, v int8) error {
	if ptr%1 != 0 || !inMem(cx, ptr, 1) {
		return reject()
	}
	putle(cx, ptr, 1, uint64(v))
	return nil
}

func P03_impl_load_s16(cx *types.CallContext, ptr uint32) (any, error) {
	return io.Load(cx, types.NewS16(), ptr)
}
func P03_spec_load_s16(cx *types.CallContext, ptr uint32) (any, error) {
	if !inMem(cx, ptr, 2) {
		return nil, reject()
	}
	return int16(le(cx, ptr, 2)), nil
}
func P03_impl_store_s16(cx *types.CallContext, ptr uint32, v int16) error {
	return io.Store(cx, v, types.NewS16(), ptr)
}
func P03_spec_store_s16(cx *types.CallContext, ptr uint32, v int16) error {
	if ptr%2 != 0 || !inMem(cx, ptr, 2) {
		return reject()
	}
	putle(cx, ptr, 2, uint64(v))
	return nil
}

func P03_impl_load_s32(cx *types.CallContext, ptr uint32) (any, error) {
	return io.Load(cx, types.NewS32(), ptr)
}
func P03_spec_load_s32(cx *types.CallContext, ptr uint32) (any, error) {
	if !inMem(cx, ptr, 4) {
		return nil, reject()
	}
	return int32(le(cx, ptr, 4)), nil
}
func P03_impl_store_s32(cx *types.CallContext, ptr uint32, v int32) error {
	return io.Store(cx, v, types.NewS32(), ptr)
}
func P03_spec_store_s32(cx *types.CallContext, ptr uint32, v int32) error {
	if ptr%4 != 0 || !inMem(cx, ptr, 4) {
		return reject()
	}
	putle(cx, ptr, 4, uint64(v))
	return nil
}

func P03_impl_load_s64(cx *types.CallContext, ptr uint32) (any, error) {
	return io.Load(cx, types.NewS64(), ptr)
}
func P03_spec_load_s64(cx *types.CallContext, ptr uint32) (any, error) {
	if !inMem(cx, ptr, 8) {
		return nil, reject()
	}
	return int64(le(cx, ptr, 8)), nil
}
func P03_impl_store_s64(cx *types.CallContext, ptr uint32, v int64) error {
	return io.Store(cx, v, types.NewS64(), ptr)
}
func P03_spec_store_s64(cx *types.CallContext, ptr uint32, v int64) error {
	if ptr%8 != 0 || !inMem(cx, ptr, 8) {
		return reject()
	}
	putle(cx, ptr, 8, uint64(v))
	return nil
}

func b2i(b bool) uint64 {
	if b {
		return 1
	}
	return 0
}

func P03_impl_load_char(cx *types.CallContext, ptr uint32) (any, error) {
	return io.Load(cx, types.NewChar(), ptr)
}
func P03_spec_load_char(cx *types.CallContext, ptr uint32) (any, error) {
	if !inMem(cx, ptr, 4) {
		return nil, reject()
	}
	c := uint32(le(cx, ptr, 4))
	if c >= 0x110000 || c >= 0xd800 && c <= 0xdfff {
		return nil, reject()
	}
	return rune(c), nil
}
func P03_impl_store_char(cx *types.CallContext, ptr uint32, v rune) error {
	return io.Store(cx, v, types.NewChar(), ptr)
}
func P03_spec_store_char(cx *types.CallContext, ptr uint32, v rune) error {
	if ptr%4 != 0 || !inMem(cx, ptr, 4) {
		return reject()
	}
	putle(cx, ptr, 4, uint64(uint32(v)))
	return nil
}

func canon32(b uint32) uint32 {
	f := math.Float32frombits(b)
	if f != f {
		return 0x7fc00000
	}
	return b
}
func canon64(b uint64) uint64 {
	f := math.Float64frombits(b)
	if f != f {
		return 0x7ff8000000000000
	}
	return b
}

func P03_impl_load_f32(cx *types.CallContext, ptr uint32) (any, error) {
	return io.Load(cx, types.NewF32(), ptr)
}
func P03_spec_load_f32(cx *types.CallContext, ptr uint32) (any, error) {
	if !inMem(cx, ptr, 4) {
		return nil, reject()
	}
	return math.Float32frombits(canon32(uint32(le(cx, ptr, 4)))), nil
}
func P03_impl_load_f64(cx *types.CallContext, ptr uint32) (any, error) {
	return io.Load(cx, types.NewF64(), ptr)
}
func P03_spec_load_f64(cx *types.CallContext, ptr uint32) (any, error) {
	if !inMem(cx, ptr, 8) {
		return nil, reject()
	}
	return math.Float64frombits(canon64(le(cx, ptr, 8))), nil
}
func P03_impl_store_f32(cx *types.CallContext, ptr uint32, v float32) error {
	return io.Store(cx, v, types.NewF32(), ptr)
}
func P03_spec_store_f32(cx *types.CallContext, ptr uint32, v float32) error {
	if ptr%4 != 0 || !inMem(cx, ptr, 4) {
		return reject()
	}
	putle(cx, ptr, 4, uint64(canon32(math.Float32bits(v))))
	return nil
}
func P03_impl_store_f64(cx *types.CallContext, ptr uint32, v float64) error {
	return io.Store(cx, v, types.NewF64(), ptr)
}
func P03_spec_store_f64(cx *types.CallContext, ptr uint32, v float64) error {
	if ptr%8 != 0 || !inMem(cx, ptr, 8) {
		return reject()
	}
	putle(cx, ptr, 8, canon64(math.Float64bits(v)))
	return nil
}
