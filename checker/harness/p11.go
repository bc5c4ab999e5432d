//go:build ignore

package zzverif

import (
	"github.com/patrickhuber/go-wasm/abi/io"
	"github.com/patrickhuber/go-wasm/abi/types"
	"github.com/patrickhuber/go-wasm/abi/values"
)

// loadRecord reads each field at the next offset aligned for it.
func loadRecord(cx *types.CallContext, ptr uint32, fs []types.Field) (map[string]any, error) {
	m := map[string]any{}
	for i := 0; i < len(fs); i++ {
		a, err := io.Alignment(fs[i].Type)
		if err != nil {
			return nil, err
		}
		ptr, err = io.AlignTo(ptr, a)
		if err != nil {
			return nil, err
		}
		v, err := io.Load(cx, fs[i].Type, ptr)
		if err != nil {
			return nil, err
		}
		m[fs[i].Label] = v
		n, err := io.Size(fs[i].Type)
		if err != nil {
			return nil, err
		}
		ptr += n
	}
	return m, nil
}

//vc:opaquetype abi/io.Size:RecordImpl
func P11_impl_load_record(cx *types.CallContext, ptr uint32, fs []types.Field) (any, error) {
	return io.Load(cx, types.NewRecord(fs...), ptr)
}
func P11_spec_load_record(cx *types.CallContext, ptr uint32, fs []types.Field) (any, error) {
	n, err := io.Size(types.NewRecord(fs...))
	if err != nil || !inMem(cx, ptr, uint64(n)) {
		return nil, reject()
	}
	return loadRecord(cx, ptr, fs)
}

//vc:opaquetype abi/io.Size:RecordImpl abi/io.Alignment:RecordImpl
func P11_impl_store_record(cx *types.CallContext, v any, ptr uint32, fs []types.Field) error {
	return io.Store(cx, v, types.NewRecord(fs...), ptr)
}
func P11_spec_store_record(cx *types.CallContext, v any, ptr uint32, fs []types.Field) error {
	if err := storable(cx, types.NewRecord(fs...), ptr); err != nil {
		return err
	}
	m, ok := v.(map[string]any)
	if !ok {
		return reject()
	}
	for i := 0; i < len(fs); i++ {
		a, err := io.Alignment(fs[i].Type)
		if err != nil {
			return err
		}
		ptr, err = io.AlignTo(ptr, a)
		if err != nil {
			return err
		}
		if err := io.Store(cx, m[fs[i].Label], fs[i].Type, ptr); err != nil {
			return err
		}
		n, err := io.Size(fs[i].Type)
		if err != nil {
			return err
		}
		ptr += n
	}
	return nil
}

func P11_impl_lift_record(cx *types.CallContext, vi values.ValueIterator, fs []types.Field) (any, error) {
	return io.LiftFlat(cx, vi, types.NewRecord(fs...))
}
func P11_spec_lift_record(cx *types.CallContext, vi values.ValueIterator, fs []types.Field) (any, error) {
	m := map[string]any{}
	for _, f := range fs {
		v, err := io.LiftFlat(cx, vi, f.Type)
		if err != nil {
			return nil, err
		}
		m[f.Label] = v
	}
	return m, nil
}

func P11_impl_lower_record(cx *types.CallContext, v any, fs []types.Field) ([]values.Value, error) {
	return io.LowerFlat(cx, v, types.NewRecord(fs...))
}
func P11_spec_lower_record(cx *types.CallContext, v any, fs []types.Field) ([]values.Value, error) {
	m, ok := v.(map[string]any)
	if !ok {
		return nil, reject()
	}
	var flat []values.Value
	for i := 0; i < len(fs); i++ {
		vs, err := io.LowerFlat(cx, m[fs[i].Label], fs[i].Type)
		if err != nil {
			return nil, err
		}
		flat = append(flat, vs...)
	}
	return flat, nil
}

func listAt(cx *types.CallContext, t types.ValType, ptr, n uint32) ([]any, error) {
	a, err := io.Alignment(t)
	if err != nil {
		return nil, err
	}
	if ptr%a != 0 {
		return nil, reject()
	}
	size, err := io.Size(t)
	if err != nil {
		return nil, err
	}
	if !inMem(cx, ptr, uint64(n)*uint64(size)) {
		return nil, reject()
	}
	var out []any
	for i := uint32(0); i < n; i++ {
		v, err := io.Load(cx, t, ptr+i*size)
		if err != nil {
			return nil, err
		}
		out = append(out, v)
	}
	return out, nil
}

func P11_impl_load_list(cx *types.CallContext, ptr uint32, t types.ValType) (any, error) {
	return io.Load(cx, types.NewList(t), ptr)
}
func P11_spec_load_list(cx *types.CallContext, ptr uint32, t types.ValType) (any, error) {
	if !inMem(cx, ptr, 8) {
		return nil, reject()
	}
	begin := uint32(le(cx, ptr, 4))
	return listAt(cx, t, begin, uint32(le(cx, ptr+4, 4)))
}

func P11_impl_lift_list(cx *types.CallContext, vi values.ValueIterator, t types.ValType) (any, error) {
	return io.LiftFlat(cx, vi, types.NewList(t))
}
func P11_spec_lift_list(cx *types.CallContext, vi values.ValueIterator, t types.ValType) (any, error) {
	begin, err := next32(vi)
	if err != nil {
		return nil, err
	}
	n, err := next32(vi)
	if err != nil {
		return nil, err
	}
	return listAt(cx, t, begin, n)
}

func putList(cx *types.CallContext, v any, t types.ValType) (uint32, uint32, error) {
	vs, ok := v.([]any)
	if !ok {
		return 0, 0, reject()
	}
	size, err := io.Size(t)
	if err != nil {
		return 0, 0, err
	}
	a, err := io.Alignment(t)
	if err != nil {
		return 0, 0, err
	}
	bytes := len(vs) * int(size)
	if bytes >= 1<<32 {
		return 0, 0, reject()
	}
	p, err := cx.Options.Realloc(0, 0, a, uint32(bytes))
	if err != nil {
		return 0, 0, err
	}
	if p%a != 0 || !inMem(cx, p, uint64(bytes)) {
		return 0, 0, reject()
	}
	for i := 0; i < len(vs); i++ {
		if err := io.Store(cx, vs[i], t, p+uint32(i)*size); err != nil {
			return 0, 0, err
		}
	}
	return p, uint32(len(vs)), nil
}

func P11_impl_store_list(cx *types.CallContext, v any, ptr uint32, t types.ValType) error {
	hostList(v)
	return io.Store(cx, v, types.NewList(t), ptr)
}
func P11_spec_store_list(cx *types.CallContext, v any, ptr uint32, t types.ValType) error {
	hostList(v)
	if ptr%4 != 0 || !inMem(cx, ptr, 8) {
		return reject()
	}
	p, n, err := putList(cx, v, t)
	if err != nil {
		return err
	}
	if !inMem(cx, ptr, 4) {
		return reject()
	}
	putle(cx, ptr, 4, uint64(p))
	if !inMem(cx, ptr+4, 4) {
		return reject()
	}
	putle(cx, ptr+4, 4, uint64(n))
	return nil
}

func P11_impl_lower_list(cx *types.CallContext, v any, t types.ValType) ([]values.Value, error) {
	hostList(v)
	return io.LowerFlat(cx, v, types.NewList(t))
}
func P11_spec_lower_list(cx *types.CallContext, v any, t types.ValType) ([]values.Value, error) {
	hostList(v)
	p, n, err := putList(cx, v, t)
	if err != nil {
		return nil, err
	}
	return []values.Value{values.U32(p), values.U32(n)}, nil
}

// hostList: 1<<31 interface values take 32 GiB of host memory.
func hostList(v any) {
	vs, ok := v.([]any)
	axiom(!ok || len(vs) <= 1<<31)
}
