//go:build ignore

package zzverif

import (
	"github.com/patrickhuber/go-wasm/abi/io"
	"github.com/patrickhuber/go-wasm/abi/kind"
	"github.com/patrickhuber/go-wasm/abi/types"
	"github.com/patrickhuber/go-wasm/abi/values"
)

// bytes taken by n flags in memory
func flagBytes(n int) int {
	if n == 0 {
		return 0
	}
	if n <= 8 {
		return 1
	}
	if n <= 16 {
		return 2
	}
	return 4 * ((n + 31) / 32)
}

// label i is bit i of w
func bitsOf(w uint64, labels []string) map[string]any {
	m := map[string]any{}
	for i, l := range labels {
		m[l] = (w>>i)&1 == 1
	}
	return m
}

func packBits(v any, labels []string) (uint64, error) {
	m, ok := v.(map[string]any)
	if !ok || len(labels) > 64 {
		return 0, reject()
	}
	var w uint64
	for i := 0; i < len(labels); i++ {
		b, ok := m[labels[i]].(bool)
		if !ok {
			return 0, reject()
		}
		if b {
			w |= uint64(1) << i
		}
	}
	return w, nil
}

func P10_impl_load(cx *types.CallContext, ptr uint32, labels []string) (any, error) {
	assume(len(labels) <= 64)
	return io.Load(cx, types.NewFlags(labels...), ptr)
}
func P10_spec_load(cx *types.CallContext, ptr uint32, labels []string) (any, error) {
	assume(len(labels) <= 64)
	n := flagBytes(len(labels))
	if !inMem(cx, ptr, uint64(n)) {
		return nil, reject()
	}
	var w uint64
	switch n {
	case 1:
		w = le(cx, ptr, 1)
	case 2:
		w = le(cx, ptr, 2)
	case 4:
		w = le(cx, ptr, 4)
	case 8:
		w = le(cx, ptr, 8)
	}
	return bitsOf(w, labels), nil
}

// more labels than fit in the integers used are refused
func P10_impl_load_many(cx *types.CallContext, ptr uint32, labels []string) bool {
	assume(len(labels) > 64 && len(labels) <= 1<<24)
	_, err := io.Load(cx, types.NewFlags(labels...), ptr)
	return err != nil
}
func P10_spec_load_many(cx *types.CallContext, ptr uint32, labels []string) bool { return true }

func P10_impl_store_many(cx *types.CallContext, v any, ptr uint32, labels []string) bool {
	assume(len(labels) > 64 && len(labels) <= 1<<24)
	return io.Store(cx, v, types.NewFlags(labels...), ptr) != nil
}
func P10_spec_store_many(cx *types.CallContext, v any, ptr uint32, labels []string) bool { return true }

func P10_impl_lift_many(cx *types.CallContext, vi values.ValueIterator, labels []string) error {
	assume(len(labels) > 64 && len(labels) <= 1<<24)
	_, err := io.LiftFlat(cx, vi, types.NewFlags(labels...))
	return err
}
func P10_spec_lift_many(cx *types.CallContext, vi values.ValueIterator, labels []string) error {
	return reject()
}

func P10_impl_lower_many(cx *types.CallContext, v any, labels []string) error {
	assume(len(labels) > 64 && len(labels) <= 1<<24)
	_, err := io.LowerFlat(cx, v, types.NewFlags(labels...))
	return err
}
func P10_spec_lower_many(cx *types.CallContext, v any, labels []string) error { return reject() }

func P10_impl_store(cx *types.CallContext, v any, ptr uint32, labels []string) error {
	assume(len(labels) <= 64)
	return io.Store(cx, v, types.NewFlags(labels...), ptr)
}
func P10_spec_store(cx *types.CallContext, v any, ptr uint32, labels []string) error {
	assume(len(labels) <= 64)
	n := flagBytes(len(labels))
	if n > 0 {
		a := n
		if n > 4 {
			a = 4
		}
		if ptr%uint32(a) != 0 {
			return reject()
		}
	}
	if !inMem(cx, ptr, uint64(n)) {
		return reject()
	}
	w, err := packBits(v, labels)
	if err != nil {
		return err
	}
	switch n {
	case 1:
		putle(cx, ptr, 1, w)
	case 2:
		putle(cx, ptr, 2, w)
	case 4:
		putle(cx, ptr, 4, w)
	case 8:
		putle(cx, ptr, 8, w)
	}
	return nil
}

func P10_impl_lift(cx *types.CallContext, vi values.ValueIterator, labels []string) (any, error) {
	assume(len(labels) <= 64)
	return io.LiftFlat(cx, vi, types.NewFlags(labels...))
}
func P10_spec_lift(cx *types.CallContext, vi values.ValueIterator, labels []string) (any, error) {
	assume(len(labels) <= 64)
	var w uint64
	if len(labels) > 0 {
		lo, err := next32(vi)
		if err != nil {
			return nil, err
		}
		w = uint64(lo)
	}
	if len(labels) > 32 {
		hi, err := next32(vi)
		if err != nil {
			return nil, err
		}
		w += uint64(hi) << 32
	}
	return bitsOf(w, labels), nil
}

func P10_impl_lower(cx *types.CallContext, v any, labels []string) ([]values.Value, error) {
	assume(len(labels) <= 64)
	return io.LowerFlat(cx, v, types.NewFlags(labels...))
}
func P10_spec_lower(cx *types.CallContext, v any, labels []string) ([]values.Value, error) {
	assume(len(labels) <= 64)
	w, err := packBits(v, labels)
	if err != nil {
		return nil, err
	}
	if len(labels) == 0 {
		return nil, nil
	}
	if len(labels) <= 32 {
		return []values.Value{values.U32(w)}, nil
	}
	return []values.Value{values.U32(w), values.U32(w >> 32)}, nil
}

var _ = kind.U32
