//go:build ignore

package zzverif

import (
	"strconv"

	"github.com/patrickhuber/go-wasm/abi/io"
	"github.com/patrickhuber/go-wasm/abi/types"
	"github.com/patrickhuber/go-wasm/abi/values"
)

func liftAll(cx *types.CallContext, limit int, vi values.ValueIterator, ts []types.ValType) ([]any, error) {
	flat, err := io.FlattenTypes(ts)
	if err != nil {
		return nil, err
	}
	var out []any
	if len(flat) <= limit {
		for i := 0; i < len(ts); i++ {
			v, err := io.LiftFlat(cx, vi, ts[i])
			if err != nil {
				return nil, err
			}
			out = append(out, v)
		}
		return out, nil
	}
	ptr, err := next32(vi)
	if err != nil {
		return nil, err
	}
	t := types.NewTuple(ts...)
	a, err := io.Alignment(t)
	if err != nil || ptr%a != 0 {
		return nil, reject()
	}
	n, err := io.Size(t)
	if err != nil || !inMem(cx, ptr, uint64(n)) {
		return nil, reject()
	}
	r, err := io.Load(cx, t, ptr)
	if err != nil {
		return nil, err
	}
	m, ok := r.(map[string]any)
	if !ok {
		return nil, reject()
	}
	for i := 0; i < len(ts); i++ {
		out = append(out, m[strconv.Itoa(i)])
	}
	return out, nil
}

//vc:opaquetype abi/io.Size:TupleImpl abi/io.Alignment:TupleImpl abi/io.Load:TupleImpl abi/io.Store:TupleImpl
func P17_impl_lift(cx *types.CallContext, limit int, vi values.ValueIterator, ts []types.ValType) ([]any, error) {
	return io.LiftValues(cx, limit, vi, ts)
}
func P17_spec_lift(cx *types.CallContext, limit int, vi values.ValueIterator, ts []types.ValType) ([]any, error) {
	return liftAll(cx, limit, vi, ts)
}

func lowerAll(cx *types.CallContext, limit int, vs []any, ts []types.ValType, out values.ValueIterator) ([]any, error) {
	if len(vs) != len(ts) {
		return nil, reject()
	}
	flat, err := io.FlattenTypes(ts)
	if err != nil {
		return nil, err
	}
	if len(flat) <= limit {
		var all []any
		for i := 0; i < len(vs); i++ {
			vs, err := io.LowerFlat(cx, vs[i], ts[i])
			if err != nil {
				return nil, err
			}
			for j := 0; j < len(vs); j++ {
				all = append(all, vs[j])
			}
		}
		return all, nil
	}
	t := types.NewTuple(ts...)
	m := map[string]any{}
	for i := 0; i < len(vs); i++ {
		m[strconv.Itoa(i)] = vs[i]
	}
	a, err := io.Alignment(t)
	if err != nil {
		return nil, err
	}
	n, err := io.Size(t)
	if err != nil {
		return nil, err
	}
	var ptr uint32
	if out == nil {
		ptr, err = cx.Options.Realloc(0, 0, a, n)
	} else {
		ptr, err = next32(out)
	}
	if err != nil {
		return nil, err
	}
	if ptr%a != 0 || !inMem(cx, ptr, uint64(n)) {
		return nil, reject()
	}
	if err := io.Store(cx, m, t, ptr); err != nil {
		return nil, err
	}
	return []any{values.U32(ptr)}, nil
}

//vc:opaquetype abi/io.Size:TupleImpl abi/io.Alignment:TupleImpl abi/io.Load:TupleImpl abi/io.Store:TupleImpl
func P17_impl_lower(cx *types.CallContext, limit int, vs []any, ts []types.ValType, out values.ValueIterator) ([]any, error) {
	return io.LowerValues(cx, limit, vs, ts, out)
}
func P17_spec_lower(cx *types.CallContext, limit int, vs []any, ts []types.ValType, out values.ValueIterator) ([]any, error) {
	return lowerAll(cx, limit, vs, ts, out)
}

// the members of a spilled tuple are the fields "0", "1", … of a record

func P17_impl_tuple_load(cx *types.CallContext, ts []types.ValType, ptr uint32) (any, error) {
	return io.Load(cx, types.NewTuple(ts...), ptr)
}
func P17_spec_tuple_load(cx *types.CallContext, ts []types.ValType, ptr uint32) (any, error) {
	return io.Load(cx, asRecord(ts), ptr)
}

func P17_impl_tuple_store(cx *types.CallContext, v any, ts []types.ValType, ptr uint32) error {
	return io.Store(cx, v, types.NewTuple(ts...), ptr)
}
func P17_spec_tuple_store(cx *types.CallContext, v any, ts []types.ValType, ptr uint32) error {
	return io.Store(cx, v, asRecord(ts), ptr)
}
