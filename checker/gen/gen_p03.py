# writes p03.go: one pair per scalar type and direction
types = [("bool","Bool",1,"uint8"),("u8","U8",1,"uint8"),("u16","U16",2,"uint16"),("u32","U32",4,"uint32"),("u64","U64",8,"uint64"),
 ("s8","S8",1,"int8"),("s16","S16",2,"int16"),("s32","S32",4,"int32"),("s64","S64",8,"int64")]
out='''//go:build ignore

package zzverif

import (
	"math"

	"github.com/patrickhuber/go-wasm/abi/io"
	"github.com/patrickhuber/go-wasm/abi/types"
)

func inMem(cx *types.CallContext, ptr uint32, n uint64) bool {
	return uint64(ptr)+n <= uint64(len(cx.Options.Memory.Bytes()))
}

// le reads n bytes little-endian.
func le(cx *types.CallContext, ptr uint32, n int) uint64 {
	m := cx.Options.Memory.Bytes()
	var v uint64
	for i := n - 1; i >= 0; i-- {
		v = v*256 + uint64(m[int(ptr)+i])
	}
	return v
}

// putle writes n bytes little-endian.
func putle(cx *types.CallContext, ptr uint32, n int, v uint64) {
	m := cx.Options.Memory.Bytes()
	for i := 0; i < n; i++ {
		m[int(ptr)+i] = byte(v)
		v = v / 256
	}
}
'''
for n,T,w,g in types:
    out+='''
func P03_impl_load_%s(cx *types.CallContext, ptr uint32) (any, error) {
	return io.Load(cx, types.New%s(), ptr)
}
func P03_spec_load_%s(cx *types.CallContext, ptr uint32) (any, error) {
	if !inMem(cx, ptr, %d) {
		return nil, reject()
	}
	return %s, nil
}
func P03_impl_store_%s(cx *types.CallContext, ptr uint32, v %s) error {
	return io.Store(cx, v, types.New%s(), ptr)
}
func P03_spec_store_%s(cx *types.CallContext, ptr uint32, v %s) error {
	if ptr%%%d != 0 || !inMem(cx, ptr, %d) {
		return reject()
	}
	putle(cx, ptr, %d, %s)
	return nil
}
'''%(n,T,n,w,("le(cx, ptr, 1) != 0" if n=="bool" else "%s(le(cx, ptr, %d))"%(g,w)),n,("bool" if n=="bool" else g),T,n,("bool" if n=="bool" else g),w,w,w,("b2i(v)" if n=="bool" else "uint64(v)"))
out+='''
func b2i(b bool) uint64 {
	if b {
		return 1
	}
	return 0
}

func P03_impl_load_char(cx *types.CallContext, ptr uint32) (any, error) {
	return io.Load(cx, types.NewChar(), ptr)
}
func P03_spec_load_char(cx *types.CallContext, ptr uint32) (any, error) {
	if !inMem(cx, ptr, 4) {
		return nil, reject()
	}
	c := uint32(le(cx, ptr, 4))
	if c >= 0x110000 || c >= 0xd800 && c <= 0xdfff {
		return nil, reject()
	}
	return rune(c), nil
}
func P03_impl_store_char(cx *types.CallContext, ptr uint32, v rune) error {
	return io.Store(cx, v, types.NewChar(), ptr)
}
func P03_spec_store_char(cx *types.CallContext, ptr uint32, v rune) error {
	if ptr%4 != 0 || !inMem(cx, ptr, 4) {
		return reject()
	}
	putle(cx, ptr, 4, uint64(uint32(v)))
	return nil
}

func canon32(b uint32) uint32 {
	f := math.Float32frombits(b)
	if f != f {
		return 0x7fc00000
	}
	return b
}
func canon64(b uint64) uint64 {
	f := math.Float64frombits(b)
	if f != f {
		return 0x7ff8000000000000
	}
	return b
}

func P03_impl_load_f32(cx *types.CallContext, ptr uint32) (any, error) {
	return io.Load(cx, types.NewF32(), ptr)
}
func P03_spec_load_f32(cx *types.CallContext, ptr uint32) (any, error) {
	if !inMem(cx, ptr, 4) {
		return nil, reject()
	}
	return math.Float32frombits(canon32(uint32(le(cx, ptr, 4)))), nil
}
func P03_impl_load_f64(cx *types.CallContext, ptr uint32) (any, error) {
	return io.Load(cx, types.NewF64(), ptr)
}
func P03_spec_load_f64(cx *types.CallContext, ptr uint32) (any, error) {
	if !inMem(cx, ptr, 8) {
		return nil, reject()
	}
	return math.Float64frombits(canon64(le(cx, ptr, 8))), nil
}
func P03_impl_store_f32(cx *types.CallContext, ptr uint32, v float32) error {
	return io.Store(cx, v, types.NewF32(), ptr)
}
func P03_spec_store_f32(cx *types.CallContext, ptr uint32, v float32) error {
	if ptr%4 != 0 || !inMem(cx, ptr, 4) {
		return reject()
	}
	putle(cx, ptr, 4, uint64(canon32(math.Float32bits(v))))
	return nil
}
func P03_impl_store_f64(cx *types.CallContext, ptr uint32, v float64) error {
	return io.Store(cx, v, types.NewF64(), ptr)
}
func P03_spec_store_f64(cx *types.CallContext, ptr uint32, v float64) error {
	if ptr%8 != 0 || !inMem(cx, ptr, 8) {
		return reject()
	}
	putle(cx, ptr, 8, canon64(math.Float64bits(v)))
	return nil
}
'''
open('../harness/p03.go','w').write(out)
