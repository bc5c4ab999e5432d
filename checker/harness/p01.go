//go:build ignore

package zzverif

import (
	"github.com/patrickhuber/go-wasm/abi/io"
	"github.com/patrickhuber/go-wasm/abi/types"
)

// ---- reference layout ----

func maxu32(a, b uint32) uint32 {
	if a < b {
		return b
	}
	return a
}

func scalars() []types.ValType {
	return []types.ValType{
		types.NewBool(), types.NewU8(), types.NewS8(),
		types.NewU16(), types.NewS16(),
		types.NewU32(), types.NewS32(), types.NewF32(), types.NewChar(),
		types.NewU64(), types.NewS64(), types.NewF64(),
	}
}

func P01_impl_scalar_sizes() ([]uint32, error) {
	var out []uint32
	for _, t := range scalars() {
		n, err := io.Size(t)
		if err != nil {
			return nil, err
		}
		out = append(out, n)
	}
	return out, nil
}
func P01_spec_scalar_sizes() ([]uint32, error) {
	return []uint32{1, 1, 1, 2, 2, 4, 4, 4, 4, 8, 8, 8}, nil
}

func P01_impl_scalar_alignments() ([]uint32, error) {
	var out []uint32
	for _, t := range scalars() {
		n, err := io.Alignment(t)
		if err != nil {
			return nil, err
		}
		out = append(out, n)
	}
	return out, nil
}
func P01_spec_scalar_alignments() ([]uint32, error) {
	return []uint32{1, 1, 1, 2, 2, 4, 4, 4, 4, 8, 8, 8}, nil
}

func P01_impl_string_size() (uint32, error)              { return io.Size(types.NewString()) }
func P01_spec_string_size() (uint32, error)              { return 8, nil }
func P01_impl_string_alignment() (uint32, error)         { return io.Alignment(types.NewString()) }
func P01_spec_string_alignment() (uint32, error)         { return 4, nil }
func P01_impl_list_size(t types.ValType) (uint32, error) { return io.Size(types.NewList(t)) }
func P01_spec_list_size(t types.ValType) (uint32, error) { return 8, nil }
func P01_impl_list_alignment(t types.ValType) (uint32, error) {
	return io.Alignment(types.NewList(t))
}
func P01_spec_list_alignment(t types.ValType) (uint32, error) { return 4, nil }

func P01_impl_own_size(rt types.ResourceType) (uint32, error) { return io.Size(types.NewOwn(rt)) }
func P01_spec_own_size(rt types.ResourceType) (uint32, error) { return 4, nil }
func P01_impl_own_alignment(rt types.ResourceType) (uint32, error) {
	return io.Alignment(types.NewOwn(rt))
}
func P01_spec_own_alignment(rt types.ResourceType) (uint32, error) { return 4, nil }
func P01_impl_borrow_size(rt types.ResourceType) (uint32, error)   { return io.Size(types.NewBorrow(rt)) }
func P01_spec_borrow_size(rt types.ResourceType) (uint32, error)   { return 4, nil }
func P01_impl_borrow_alignment(rt types.ResourceType) (uint32, error) {
	return io.Alignment(types.NewBorrow(rt))
}
func P01_spec_borrow_alignment(rt types.ResourceType) (uint32, error) { return 4, nil }

// rounding up, for every alignment a type can have

//vc:inline abi/io.AlignTo
func P01_impl_align_to_1(p uint32) (uint32, error) { return io.AlignTo(p, 1) }
func P01_spec_align_to_1(p uint32) (uint32, error) { return p, nil }

//vc:inline abi/io.AlignTo
func P01_impl_align_to_2(p uint32) (uint32, error) {
	assume(p <= 0xfffffff0)
	return io.AlignTo(p, 2)
}
func P01_spec_align_to_2(p uint32) (uint32, error) {
	assume(p <= 0xfffffff0)
	return (p + 1) / 2 * 2, nil
}
func P01_alt_align_to_2(p uint32) (uint32, error) {
	assume(p <= 0xfffffff0)
	if p%2 != 0 {
		return p + 2 - p%2, nil
	}
	return p, nil
}

//vc:inline abi/io.AlignTo
func P01_impl_align_to_4(p uint32) (uint32, error) {
	assume(p <= 0xfffffff0)
	return io.AlignTo(p, 4)
}
func P01_spec_align_to_4(p uint32) (uint32, error) {
	assume(p <= 0xfffffff0)
	return (p + 3) / 4 * 4, nil
}
func P01_alt_align_to_4(p uint32) (uint32, error) {
	assume(p <= 0xfffffff0)
	if p%4 != 0 {
		return p + 4 - p%4, nil
	}
	return p, nil
}

//vc:inline abi/io.AlignTo
func P01_impl_align_to_8(p uint32) (uint32, error) {
	assume(p <= 0xfffffff0)
	return io.AlignTo(p, 8)
}
func P01_spec_align_to_8(p uint32) (uint32, error) {
	assume(p <= 0xfffffff0)
	return (p + 7) / 8 * 8, nil
}
func P01_alt_align_to_8(p uint32) (uint32, error) {
	assume(p <= 0xfffffff0)
	if p%8 != 0 {
		return p + 8 - p%8, nil
	}
	return p, nil
}

// records and tuples

func P01_impl_record_alignment(fs []types.Field) (uint32, error) {
	return io.Alignment(types.NewRecord(fs...))
}
func P01_spec_record_alignment(fs []types.Field) (uint32, error) {
	a := uint32(1)
	for i := 0; i < len(fs); i++ {
		x, err := io.Alignment(fs[i].Type)
		if err != nil {
			return 0, err
		}
		a = maxu32(a, x)
	}
	return a, nil
}

func P01_impl_record_size(fs []types.Field) (uint32, error) {
	return io.Size(types.NewRecord(fs...))
}
func P01_spec_record_size(fs []types.Field) (uint32, error) {
	s := uint32(0)
	for i := 0; i < len(fs); i++ {
		a, err := io.Alignment(fs[i].Type)
		if err != nil {
			return 0, err
		}
		s, err = io.AlignTo(s, a)
		if err != nil {
			return 0, err
		}
		n, err := io.Size(fs[i].Type)
		if err != nil {
			return 0, err
		}
		s += n
	}
	a, err := P01_spec_record_alignment(fs)
	if err != nil {
		return 0, err
	}
	return io.AlignTo(s, a)
}

// the same with the alignments taken in one pass
func P01_alt_record_size(fs []types.Field) (uint32, error) {
	s, m := uint32(0), uint32(1)
	for i := 0; i < len(fs); i++ {
		a, err := io.Alignment(fs[i].Type)
		if err != nil {
			return 0, err
		}
		if a > m {
			m = a
		}
		s, err = io.AlignTo(s, a)
		if err != nil {
			return 0, err
		}
		n, err := io.Size(fs[i].Type)
		if err != nil {
			return 0, err
		}
		s += n
	}
	return io.AlignTo(s, m)
}

func P01_impl_tuple_alignment(ts []types.ValType) (uint32, error) {
	return io.Alignment(types.NewTuple(ts...))
}
func P01_spec_tuple_alignment(ts []types.ValType) (uint32, error) {
	a := uint32(1)
	for i := 0; i < len(ts); i++ {
		x, err := io.Alignment(ts[i])
		if err != nil {
			return 0, err
		}
		a = maxu32(a, x)
	}
	return a, nil
}

func P01_impl_tuple_size(ts []types.ValType) (uint32, error) {
	return io.Size(types.NewTuple(ts...))
}
func P01_spec_tuple_size(ts []types.ValType) (uint32, error) {
	s := uint32(0)
	for i := 0; i < len(ts); i++ {
		a, err := io.Alignment(ts[i])
		if err != nil {
			return 0, err
		}
		s, err = io.AlignTo(s, a)
		if err != nil {
			return 0, err
		}
		n, err := io.Size(ts[i])
		if err != nil {
			return 0, err
		}
		s += n
	}
	a, err := P01_spec_tuple_alignment(ts)
	if err != nil {
		return 0, err
	}
	return io.AlignTo(s, a)
}

// the same with the alignments taken in one pass
func P01_alt_tuple_size(ts []types.ValType) (uint32, error) {
	s, m := uint32(0), uint32(1)
	for i := 0; i < len(ts); i++ {
		a, err := io.Alignment(ts[i])
		if err != nil {
			return 0, err
		}
		if a > m {
			m = a
		}
		s, err = io.AlignTo(s, a)
		if err != nil {
			return 0, err
		}
		n, err := io.Size(ts[i])
		if err != nil {
			return 0, err
		}
		s += n
	}
	return io.AlignTo(s, m)
}

// variants and their specialisations

func P01_impl_discriminant(cs []types.Case) (uint32, error) {
	assume(len(cs) <= 1<<24)
	dt, err := io.DiscriminantType(cs)
	if err != nil {
		return 0, err
	}
	return io.Size(dt)
}
func P01_spec_discriminant(cs []types.Case) (uint32, error) {
	assume(len(cs) <= 1<<24)
	return discSize(len(cs))
}

func discSize(n int) (uint32, error) {
	if n <= 0 {
		return 0, reject()
	}
	if n <= 256 {
		return 1, nil
	}
	if n <= 65536 {
		return 2, nil
	}
	return 4, nil
}

func caseAlign(cs []types.Case) (uint32, error) {
	a := uint32(1)
	for i := 0; i < len(cs); i++ {
		if cs[i].Type != nil {
			x, err := io.Alignment(cs[i].Type)
			if err != nil {
				return 0, err
			}
			a = maxu32(a, x)
		}
	}
	return a, nil
}

func P01_impl_variant_alignment(cs []types.Case) (uint32, error) {
	assume(len(cs) <= 1<<24)
	return io.Alignment(types.NewVariant(cs...))
}
func P01_spec_variant_alignment(cs []types.Case) (uint32, error) {
	assume(len(cs) <= 1<<24)
	d, err := discSize(len(cs))
	if err != nil {
		return 0, err
	}
	a, err := caseAlign(cs)
	if err != nil {
		return 0, err
	}
	return maxu32(d, a), nil
}

func P01_impl_variant_size(cs []types.Case) (uint32, error) {
	assume(len(cs) <= 1<<24)
	return io.Size(types.NewVariant(cs...))
}
func P01_spec_variant_size(cs []types.Case) (uint32, error) {
	assume(len(cs) <= 1<<24)
	d, err := discSize(len(cs))
	if err != nil {
		return 0, err
	}
	a, err := caseAlign(cs)
	if err != nil {
		return 0, err
	}
	s, err := io.AlignTo(d, a)
	if err != nil {
		return 0, err
	}
	p := uint32(0)
	for i := 0; i < len(cs); i++ {
		if cs[i].Type != nil {
			n, err := io.Size(cs[i].Type)
			if err != nil {
				return 0, err
			}
			p = maxu32(p, n)
		}
	}
	return io.AlignTo(s+p, maxu32(d, a))
}

func P01_impl_enum_size(ls []string) (uint32, error) {
	assume(len(ls) <= 1<<24)
	return io.Size(types.NewEnum(ls...))
}
func P01_spec_enum_size(ls []string) (uint32, error) {
	assume(len(ls) <= 1<<24)
	return discSize(len(ls))
}
func P01_impl_enum_alignment(ls []string) (uint32, error) {
	assume(len(ls) <= 1<<24)
	return io.Alignment(types.NewEnum(ls...))
}
func P01_spec_enum_alignment(ls []string) (uint32, error) {
	assume(len(ls) <= 1<<24)
	return discSize(len(ls))
}

func P01_impl_union_size(ts []types.ValType) (uint32, error) {
	assume(len(ts) <= 1<<24)
	return io.Size(types.NewUnion(ts...))
}
func P01_spec_union_size(ts []types.ValType) (uint32, error) {
	assume(len(ts) <= 1<<24)
	var cs []types.Case
	for _, t := range ts {
		cs = append(cs, types.Case{Type: t})
	}
	return P01_spec_variant_size(cs)
}

func P01_impl_option_size(t types.ValType) (uint32, error) {
	assume(t != nil)
	return io.Size(types.NewOption(t))
}
func P01_spec_option_size(t types.ValType) (uint32, error) {
	assume(t != nil)
	a, err := io.Alignment(t)
	if err != nil {
		return 0, err
	}
	a = maxu32(1, a)
	s, err := io.AlignTo(1, a)
	if err != nil {
		return 0, err
	}
	n, err := io.Size(t)
	if err != nil {
		return 0, err
	}
	return io.AlignTo(s+n, a)
}
func P01_impl_option_alignment(t types.ValType) (uint32, error) {
	assume(t != nil)
	return io.Alignment(types.NewOption(t))
}
func P01_spec_option_alignment(t types.ValType) (uint32, error) {
	assume(t != nil)
	a, err := io.Alignment(t)
	return maxu32(1, a), err
}

func P01_impl_result_size(t, u types.ValType) (uint32, error) {
	return io.Size(types.NewResult(t, u))
}
func P01_spec_result_size(t, u types.ValType) (uint32, error) {
	return P01_spec_variant_size([]types.Case{{Type: t}, {Type: u}})
}
func P01_impl_result_alignment(t, u types.ValType) (uint32, error) {
	return io.Alignment(types.NewResult(t, u))
}
func P01_spec_result_alignment(t, u types.ValType) (uint32, error) {
	return P01_spec_variant_alignment([]types.Case{{Type: t}, {Type: u}})
}

// flags

func P01_impl_flags_size(ls []string) (uint32, error) { return io.Size(types.NewFlags(ls...)) }
func P01_spec_flags_size(ls []string) (uint32, error) {
	n := len(ls)
	assume(n < 1<<30)
	if n == 0 {
		return 0, nil
	}
	if n <= 8 {
		return 1, nil
	}
	if n <= 16 {
		return 2, nil
	}
	return 4 * uint32((n+31)/32), nil
}
func P01_impl_flags_alignment(ls []string) (uint32, error) {
	return io.Alignment(types.NewFlags(ls...))
}
func P01_spec_flags_alignment(ls []string) (uint32, error) {
	if len(ls) <= 8 {
		return 1, nil
	}
	if len(ls) <= 16 {
		return 2, nil
	}
	return 4, nil
}
