//go:build ignore

package zzverif

import (
	"github.com/patrickhuber/go-wasm/abi/io"
	"github.com/patrickhuber/go-wasm/abi/kind"
	"github.com/patrickhuber/go-wasm/abi/types"
)

func P02_impl_scalars() ([][]kind.Kind, error) {
	var out [][]kind.Kind
	for _, t := range scalars() {
		n, err := io.FlattenType(t)
		if err != nil {
			return nil, err
		}
		out = append(out, n)
	}
	return out, nil
}

func k32() []kind.Kind { return []kind.Kind{kind.U32} }
func k64() []kind.Kind { return []kind.Kind{kind.U64} }

func P02_spec_scalars() ([][]kind.Kind, error) {
	return [][]kind.Kind{
		k32(), k32(), k32(),
		k32(), k32(),
		k32(), k32(), {kind.Float32}, k32(),
		k64(), k64(), {kind.Float64},
	}, nil
}

func P02_impl_string() ([]kind.Kind, error) { return io.FlattenType(types.NewString()) }
func P02_spec_string() ([]kind.Kind, error) { return []kind.Kind{kind.U32, kind.U32}, nil }
func P02_impl_list(t types.ValType) ([]kind.Kind, error) {
	return io.FlattenType(types.NewList(t))
}
func P02_spec_list(t types.ValType) ([]kind.Kind, error) {
	return []kind.Kind{kind.U32, kind.U32}, nil
}
func P02_impl_own(rt types.ResourceType) ([]kind.Kind, error) {
	return io.FlattenType(types.NewOwn(rt))
}
func P02_spec_own(rt types.ResourceType) ([]kind.Kind, error) { return k32(), nil }
func P02_impl_borrow(rt types.ResourceType) ([]kind.Kind, error) {
	return io.FlattenType(types.NewBorrow(rt))
}
func P02_spec_borrow(rt types.ResourceType) ([]kind.Kind, error) { return k32(), nil }

// the kinds are four distinct values
func P02_impl_kinds() bool {
	ks := []kind.Kind{kind.U32, kind.U64, kind.Float32, kind.Float64}
	for i := range ks {
		for j := range ks {
			if i != j && ks[i] == ks[j] {
				return false
			}
		}
	}
	return true
}
func P02_spec_kinds() bool { return true }

func flatAll(ts []types.ValType) ([]kind.Kind, error) {
	flat := []kind.Kind{}
	for i := 0; i < len(ts); i++ {
		f, err := io.FlattenType(ts[i])
		if err != nil {
			return nil, reject()
		}
		flat = append(flat, f...)
	}
	return flat, nil
}

func P02_impl_types(ts []types.ValType) ([]kind.Kind, error) { return io.FlattenTypes(ts) }
func P02_spec_types(ts []types.ValType) ([]kind.Kind, error) { return flatAll(ts) }

func P02_impl_record(fs []types.Field) ([]kind.Kind, error) {
	return io.FlattenType(types.NewRecord(fs...))
}
func P02_spec_record(fs []types.Field) ([]kind.Kind, error) {
	flat := []kind.Kind{}
	for i := 0; i < len(fs); i++ {
		f, err := io.FlattenType(fs[i].Type)
		if err != nil {
			return nil, reject()
		}
		flat = append(flat, f...)
	}
	return flat, nil
}
func P02_impl_tuple(ts []types.ValType) ([]kind.Kind, error) {
	return io.FlattenType(types.NewTuple(ts...))
}
func P02_spec_tuple(ts []types.ValType) ([]kind.Kind, error) { return flatAll(ts) }

func joinKind(a, b kind.Kind) kind.Kind {
	if a == b {
		return a
	}
	if (a == kind.U32 || a == kind.Float32) && (b == kind.U32 || b == kind.Float32) {
		return kind.U32
	}
	return kind.U64
}

func joinFlat(flat []kind.Kind, f []kind.Kind) []kind.Kind {
	for i := 0; i < len(f); i++ {
		if i < len(flat) {
			flat[i] = joinKind(flat[i], f[i])
		} else {
			flat = append(flat, f[i])
		}
	}
	return flat
}

func flatVariant(cs []types.Case) ([]kind.Kind, error) {
	if len(cs) == 0 {
		return nil, reject()
	}
	flat := []kind.Kind{}
	for i := 0; i < len(cs); i++ {
		if cs[i].Type == nil {
			continue
		}
		f, err := io.FlattenType(cs[i].Type)
		if err != nil {
			return nil, reject()
		}
		flat = joinFlat(flat, f)
	}
	return append([]kind.Kind{kind.U32}, flat...), nil
}

func P02_impl_variant(cs []types.Case) ([]kind.Kind, error) {
	assume(len(cs) <= 1<<24)
	return io.FlattenType(types.NewVariant(cs...))
}
func P02_spec_variant(cs []types.Case) ([]kind.Kind, error) {
	assume(len(cs) <= 1<<24)
	return flatVariant(cs)
}

func P02_impl_option(t types.ValType) ([]kind.Kind, error) {
	return io.FlattenType(types.NewOption(t))
}
func P02_spec_option(t types.ValType) ([]kind.Kind, error) {
	return flatVariant([]types.Case{{}, {Type: t}})
}
func P02_impl_result(a, b types.ValType) ([]kind.Kind, error) {
	return io.FlattenType(types.NewResult(a, b))
}
func P02_spec_result(a, b types.ValType) ([]kind.Kind, error) {
	return flatVariant([]types.Case{{Type: a}, {Type: b}})
}
func P02_impl_enum(ls []string) ([]kind.Kind, error) {
	assume(len(ls) <= 1<<24)
	return io.FlattenType(types.NewEnum(ls...))
}
func P02_spec_enum(ls []string) ([]kind.Kind, error) {
	assume(len(ls) <= 1<<24)
	if len(ls) == 0 {
		return nil, reject()
	}
	return k32(), nil
}
func P02_impl_union(ts []types.ValType) ([]kind.Kind, error) {
	assume(len(ts) <= 1<<24)
	return io.FlattenType(types.NewUnion(ts...))
}
func P02_spec_union(ts []types.ValType) ([]kind.Kind, error) {
	assume(len(ts) <= 1<<24)
	if len(ts) == 0 {
		return nil, reject()
	}
	flat := []kind.Kind{}
	for i := 0; i < len(ts); i++ {
		if ts[i] == nil {
			continue
		}
		f, err := io.FlattenType(ts[i])
		if err != nil {
			return nil, reject()
		}
		flat = joinFlat(flat, f)
	}
	return append([]kind.Kind{kind.U32}, flat...), nil
}
func P02_impl_flags(ls []string) ([]kind.Kind, error) {
	assume(len(ls) <= 1<<24)
	return io.FlattenType(types.NewFlags(ls...))
}
func P02_spec_flags(ls []string) ([]kind.Kind, error) {
	assume(len(ls) <= 1<<24)
	out := []kind.Kind{}
	for i := uint32(0); i < uint32((len(ls)+31)/32); i++ {
		out = append(out, kind.U32)
	}
	return out, nil
}

func P02_impl_lift(ft types.FuncType, mp, mr int) ([]kind.Kind, []kind.Kind, error) {
	c, err := io.FlattenFuncTypeLift(ft, mp, mr)
	if err != nil {
		return nil, nil, err
	}
	return c.Params(), c.Results(), nil
}
func P02_spec_lift(ft types.FuncType, mp, mr int) ([]kind.Kind, []kind.Kind, error) {
	ps, err := flatAll(ft.ParamTypes())
	if err != nil {
		return nil, nil, err
	}
	rs, err := flatAll(ft.ResultTypes())
	if err != nil {
		return nil, nil, err
	}
	if len(ps) > mp {
		ps = k32()
	}
	if len(rs) > mr {
		rs = k32()
	}
	return ps, rs, nil
}
func P02_impl_lower(ft types.FuncType, mp, mr int) ([]kind.Kind, []kind.Kind, error) {
	c, err := io.FlattenFuncTypeLower(ft, mp, mr)
	if err != nil {
		return nil, nil, err
	}
	return c.Params(), c.Results(), nil
}
func P02_spec_lower(ft types.FuncType, mp, mr int) ([]kind.Kind, []kind.Kind, error) {
	ps, err := flatAll(ft.ParamTypes())
	if err != nil {
		return nil, nil, err
	}
	rs, err := flatAll(ft.ResultTypes())
	if err != nil {
		return nil, nil, err
	}
	if len(ps) > mp {
		ps = k32()
	}
	if len(rs) > mr {
		return append(ps, kind.U32), []kind.Kind{}, nil
	}
	return ps, rs, nil
}

func P02_impl_signature(ps, rs []types.Parameter) ([]types.ValType, []types.ValType) {
	f := types.NewFuncType(ps, rs)
	return f.ParamTypes(), f.ResultTypes()
}
func P02_spec_signature(ps, rs []types.Parameter) ([]types.ValType, []types.ValType) {
	a := []types.ValType{}
	for i := range ps {
		a = append(a, ps[i].Type)
	}
	b := []types.ValType{}
	for i := range rs {
		b = append(b, rs[i].Type)
	}
	return a, b
}
