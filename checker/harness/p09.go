//go:build ignore

package zzverif

import (
	"math"
	"strings"

	"github.com/patrickhuber/go-wasm/abi/io"
	"github.com/patrickhuber/go-wasm/abi/kind"
	"github.com/patrickhuber/go-wasm/abi/types"
	"github.com/patrickhuber/go-wasm/abi/values"
)

func findCase(cs []types.Case, label string) int {
	for i := 0; i < len(cs); i++ {
		if cs[i].Label == label {
			return i
		}
	}
	return -1
}

func refLabel(c types.Case, cs []types.Case) string {
	label := c.Label
	for c.Refines != nil {
		j := findCase(cs, *c.Refines)
		if j < 0 {
			break
		}
		c = cs[j]
		label = label + "|" + c.Label
	}
	return label
}

func P09_impl_label(c types.Case, cs []types.Case) string {
	return io.CaseLabelWithRefinements(c, cs)
}
func P09_spec_label(c types.Case, cs []types.Case) string { return refLabel(c, cs) }

//vc:opaque abi/io.MaxCaseAlignment
//vc:opaquetype abi/io.Size:VariantImpl
func P09_impl_load(cx *types.CallContext, ptr uint32, cs []types.Case) (any, error) {
	assume(len(cs) <= 1<<24)
	return io.Load(cx, types.NewVariant(cs...), ptr)
}
func P09_spec_load(cx *types.CallContext, ptr uint32, cs []types.Case) (any, error) {
	assume(len(cs) <= 1<<24)
	n, err := io.Size(types.NewVariant(cs...))
	if err != nil || !inMem(cx, ptr, uint64(n)) {
		return nil, reject()
	}
	d, err := discSize(len(cs))
	if err != nil {
		return nil, err
	}
	if !inMem(cx, ptr, uint64(d)) {
		return nil, reject()
	}
	var i uint64
	if d == 1 {
		i = le(cx, ptr, 1)
	} else if d == 2 {
		i = le(cx, ptr, 2)
	} else {
		i = le(cx, ptr, 4)
	}
	if i >= uint64(len(cs)) {
		return nil, reject()
	}
	a, err := io.MaxCaseAlignment(cs)
	if err != nil {
		return nil, err
	}
	at, err := io.AlignTo(ptr+d, a)
	if err != nil {
		return nil, err
	}
	if cs[i].Type == nil {
		return map[string]any{refLabel(cs[i], cs): nil}, nil
	}
	v, err := io.Load(cx, cs[i].Type, at)
	if err != nil {
		return nil, err
	}
	return map[string]any{refLabel(cs[i], cs): v}, nil
}

// the only entry of a one-entry map
func onlyEntry(m map[string]any) (string, any) {
	var k string
	var v any
	for k, v = range m {
	}
	return k, v
}

func matchCase(v any, cs []types.Case, find func([]types.Case, string) (uint32, bool)) (uint32, any, error) {
	m, ok := v.(map[string]any)
	if !ok || len(m) != 1 {
		return 0, nil, reject()
	}
	k, x := onlyEntry(m)
	for _, l := range strings.Split(k, "|") {
		if i, ok := find(cs, l); ok {
			return i, x, nil
		}
	}
	return 0, nil, reject()
}

// Labels are unique in a valid variant, so the first and the last case with a
// label are the same one; either reading is accepted.
func lastCase(cs []types.Case, label string) (uint32, bool) {
	m := map[string]int{}
	for i, c := range cs {
		m[c.Label] = i
	}
	j, ok := m[label]
	return uint32(j), ok
}

func firstCase(cs []types.Case, label string) (uint32, bool) {
	for i, c := range cs {
		if c.Label == label {
			return uint32(i), true
		}
	}
	return 0, false
}

func P09_impl_match(v any, cs []types.Case) (uint32, any, error) {
	assume(len(cs) <= 1<<24)
	return io.MatchCase(v, cs)
}
func P09_spec_match(v any, cs []types.Case) (uint32, any, error) {
	assume(len(cs) <= 1<<24)
	return matchCase(v, cs, lastCase)
}
func P09_alt_match(v any, cs []types.Case) (uint32, any, error) {
	assume(len(cs) <= 1<<24)
	return matchCase(v, cs, firstCase)
}

func P09_alt2_match(v any, cs []types.Case) (uint32, any, error) {
	assume(len(cs) <= 1<<24)
	return matchCase(v, cs, lastCaseU32)
}
func lastCaseU32(cs []types.Case, label string) (uint32, bool) {
	m := map[string]uint32{}
	for i, c := range cs {
		m[c.Label] = uint32(i)
	}
	j, ok := m[label]
	return j, ok
}

// matched stands for MatchCase in the pairs below: the match pair shows which
// case it selects, and a selected case is one of cs.
func matched(v any, cs []types.Case) (uint32, any, error) {
	i, x, err := anyMatch(v, cs)
	axiom(err != nil || uint64(i) < uint64(len(cs)))
	return i, x, err
}
func anyMatch(v any, cs []types.Case) (uint32, any, error) { return 0, nil, nil }

//vc:replace abi/io.MatchCase=matched
//vc:opaque abi/io.MaxCaseAlignment
//vc:opaquetype abi/io.Size:VariantImpl abi/io.Alignment:VariantImpl
func P09_impl_store(cx *types.CallContext, v any, ptr uint32, cs []types.Case) error {
	assume(len(cs) <= 1<<24)
	return io.Store(cx, v, types.NewVariant(cs...), ptr)
}
func P09_spec_store(cx *types.CallContext, v any, ptr uint32, cs []types.Case) error {
	assume(len(cs) <= 1<<24)
	t := types.NewVariant(cs...)
	if err := storable(cx, t, ptr); err != nil {
		return err
	}
	i, x, err := matched(v, cs)
	if err != nil {
		return err
	}
	d, err := discSize(len(cs))
	if err != nil {
		return err
	}
	if !inMem(cx, ptr, uint64(d)) {
		return reject()
	}
	if d == 1 {
		putle(cx, ptr, 1, uint64(i))
	} else if d == 2 {
		putle(cx, ptr, 2, uint64(i))
	} else {
		putle(cx, ptr, 4, uint64(i))
	}
	a, err := io.MaxCaseAlignment(cs)
	if err != nil {
		return err
	}
	at, err := io.AlignTo(ptr+d, a)
	if err != nil {
		return err
	}
	if cs[i].Type == nil {
		return nil
	}
	return io.Store(cx, x, cs[i].Type, at)
}

// storable: ptr is aligned for t and t fits in memory there.
func storable(cx *types.CallContext, t types.ValType, ptr uint32) error {
	a, err := io.Alignment(t)
	if err != nil {
		return reject()
	}
	if ptr%a != 0 {
		return reject()
	}
	n, err := io.Size(t)
	if err != nil {
		return reject()
	}
	if !inMem(cx, ptr, uint64(n)) {
		return reject()
	}
	return nil
}

// flat form

func P09_impl_coerce(vi values.ValueIterator, have []kind.Kind, want kind.Kind) (any, []kind.Kind, error) {
	c := values.NewCoerceValueIterator(vi, have)
	x, err := c.Next(want)
	return x, c.FlatTypes(), err
}
func P09_spec_coerce(vi values.ValueIterator, have []kind.Kind, want kind.Kind) (any, []kind.Kind, error) {
	if vi == nil || len(have) == 0 {
		return nil, nil, reject()
	}
	x, err := vi.Next(have[0])
	if err != nil {
		return nil, nil, reject()
	}
	h := have[0]
	rest := have[1:]
	if h == kind.U32 && want == kind.Float32 {
		u, ok := x.(uint32)
		if !ok {
			return nil, nil, reject()
		}
		return math.Float32frombits(u), rest, nil
	}
	if h == kind.U64 && want != kind.U64 {
		if want == kind.U32 || want == kind.Float32 || want == kind.Float64 {
			u, ok := x.(uint64)
			if !ok {
				return nil, nil, reject()
			}
			if want == kind.U32 {
				return uint32(u), rest, nil
			}
			if want == kind.Float32 {
				return math.Float32frombits(uint32(u)), rest, nil
			}
			return math.Float64frombits(u), rest, nil
		}
	}
	return x, rest, nil
}

func P09_impl_lift(cx *types.CallContext, vi values.ValueIterator, cs []types.Case) (any, error) {
	assume(len(cs) <= 1<<24)
	return io.LiftFlat(cx, vi, types.NewVariant(cs...))
}
func P09_spec_lift(cx *types.CallContext, vi values.ValueIterator, cs []types.Case) (any, error) {
	assume(len(cs) <= 1<<24)
	flat, err := flatVariant(cs)
	if err != nil {
		return nil, err
	}
	i, err := next32(vi)
	if err != nil {
		return nil, err
	}
	if uint64(i) >= uint64(len(cs)) {
		return nil, reject()
	}
	slots := flat[1:]
	var v any
	if cs[i].Type != nil {
		cvi := values.NewCoerceValueIterator(vi, slots)
		v, err = io.LiftFlat(cx, cvi, cs[i].Type)
		if err != nil {
			return nil, err
		}
		slots = cvi.FlatTypes()
	}
	for j := 0; j < len(slots); j++ {
		if _, err := vi.Next(slots[j]); err != nil {
			return nil, reject()
		}
	}
	return map[string]any{refLabel(cs[i], cs): v}, nil
}

// a core value moved to a slot of kind want
func toSlot(v values.Value, want kind.Kind) (values.Value, error) {
	switch v.Kind() {
	case kind.Float32:
		if want == kind.U32 || want == kind.U64 {
			f, ok := v.Value().(float32)
			if !ok {
				return nil, reject()
			}
			if want == kind.U32 {
				return values.U32(math.Float32bits(f)), nil
			}
			return values.U64(math.Float32bits(f)), nil
		}
	case kind.U32:
		if want == kind.U64 {
			u, ok := v.Value().(uint32)
			if !ok {
				return nil, reject()
			}
			return values.U64(u), nil
		}
	case kind.Float64:
		if want == kind.U64 {
			f, ok := v.Value().(float64)
			if !ok {
				return nil, reject()
			}
			return values.U64(math.Float64bits(f)), nil
		}
	}
	return v, nil
}

func zeroOf(k kind.Kind) (values.Value, error) {
	switch k {
	case kind.U32:
		return values.U32(0), nil
	case kind.U64:
		return values.U64(0), nil
	case kind.Float32:
		return values.Float32(0), nil
	case kind.Float64:
		return values.Float64(0), nil
	}
	return nil, reject()
}

//vc:replace abi/io.MatchCase=matched
//vc:opaquetype abi/io.FlattenType:VariantImpl
func P09_impl_lower(cx *types.CallContext, v any, cs []types.Case) ([]values.Value, error) {
	assume(len(cs) <= 1<<24)
	return io.LowerFlat(cx, v, types.NewVariant(cs...))
}
func P09_spec_lower(cx *types.CallContext, v any, cs []types.Case) ([]values.Value, error) {
	assume(len(cs) <= 1<<24)
	i, x, err := matched(v, cs)
	if err != nil {
		return nil, err
	}
	flat, err := io.FlattenType(types.NewVariant(cs...))
	if err != nil {
		return nil, err
	}
	if len(flat) == 0 || flat[0] != kind.U32 {
		return nil, reject()
	}
	slots := flat[1:]
	var payload []values.Value
	if cs[i].Type != nil {
		payload, err = io.LowerFlat(cx, x, cs[i].Type)
		if err != nil {
			return nil, err
		}
	}
	for j := 0; j < len(payload); j++ {
		if len(slots) == 0 {
			return nil, reject()
		}
		payload[j], err = toSlot(payload[j], slots[0])
		if err != nil {
			return nil, err
		}
		slots = slots[1:]
	}
	for j := 0; j < len(slots); j++ {
		z, err := zeroOf(slots[j])
		if err != nil {
			return nil, err
		}
		payload = append(payload, z)
	}
	return append([]values.Value{values.U32(i)}, payload...), nil
}

// the same, with the number of slots compared in advance
func P09_alt_lower(cx *types.CallContext, v any, cs []types.Case) ([]values.Value, error) {
	assume(len(cs) <= 1<<24)
	i, x, err := matched(v, cs)
	if err != nil {
		return nil, err
	}
	flat, err := io.FlattenType(types.NewVariant(cs...))
	if err != nil {
		return nil, err
	}
	if len(flat) == 0 || flat[0] != kind.U32 {
		return nil, reject()
	}
	var payload []values.Value
	if cs[i].Type != nil {
		payload, err = io.LowerFlat(cx, x, cs[i].Type)
		if err != nil {
			return nil, err
		}
	}
	if len(payload) > len(flat)-1 {
		return nil, reject()
	}
	for j := 0; j < len(payload); j++ {
		payload[j], err = toSlot(payload[j], flat[j+1])
		if err != nil {
			return nil, err
		}
	}
	rest := flat[1+len(payload):]
	for j := 0; j < len(rest); j++ {
		z, err := zeroOf(rest[j])
		if err != nil {
			return nil, err
		}
		payload = append(payload, z)
	}
	return append([]values.Value{values.U32(i)}, payload...), nil
}

func P09_impl_case(l string, t types.ValType) types.Case { return types.NewCase(l, t) }
func P09_spec_case(l string, t types.ValType) types.Case { return types.Case{Label: l, Type: t} }

func P09_impl_refining_case(l string, t types.ValType, of string) (string, types.ValType, string) {
	c := types.NewCaseRefines(l, t, of)
	return c.Label, c.Type, *c.Refines
}
func P09_spec_refining_case(l string, t types.ValType, of string) (string, types.ValType, string) {
	return l, t, of
}
