//go:build ignore

package zzverif

import (
	"github.com/patrickhuber/go-wasm/abi/io"
	"github.com/patrickhuber/go-wasm/abi/types"
	"github.com/patrickhuber/go-wasm/abi/values"
)

func takeOwn(cx *types.CallContext, rt types.ResourceType, i uint32) (uint32, error) {
	h, err := removeHandle(tableOf(&cx.Instance.Handles, rt), i)
	if err != nil {
		return 0, err
	}
	if !h.Own {
		return 0, reject()
	}
	return h.Rep, nil
}

func lend(cx *types.CallContext, rt types.ResourceType, i uint32) (uint32, error) {
	h, err := getHandle(tableOf(&cx.Instance.Handles, rt), i)
	if err != nil {
		return 0, err
	}
	h.LendCount++
	cx.Lenders = append(cx.Lenders, h)
	return h.Rep, nil
}

func giveOwn(cx *types.CallContext, rt types.ResourceType, v any) (uint32, error) {
	rep, ok := v.(uint32)
	if !ok {
		return 0, reject()
	}
	return addHandle(tableOf(&cx.Instance.Handles, rt), &types.HandleElem{Rep: rep, Own: true})
}

func giveBorrow(cx *types.CallContext, rt types.ResourceType, v any) (uint32, error) {
	rep, ok := v.(uint32)
	if !ok {
		return 0, reject()
	}
	if rt.Impl() == cx.Instance {
		return rep, nil
	}
	return addHandle(tableOf(&cx.Instance.Handles, rt), &types.HandleElem{Rep: rep, Scope: cx})
}

func P15_impl_load_own(cx *types.CallContext, rt types.ResourceType, ptr uint32) (any, error) {
	return io.Load(cx, types.NewOwn(rt), ptr)
}
func P15_spec_load_own(cx *types.CallContext, rt types.ResourceType, ptr uint32) (any, error) {
	if !inMem(cx, ptr, 4) {
		return nil, reject()
	}
	return takeOwn(cx, rt, uint32(le(cx, ptr, 4)))
}

func P15_impl_load_borrow(cx *types.CallContext, rt types.ResourceType, ptr uint32) (any, error) {
	return io.Load(cx, types.NewBorrow(rt), ptr)
}
func P15_spec_load_borrow(cx *types.CallContext, rt types.ResourceType, ptr uint32) (any, error) {
	if !inMem(cx, ptr, 4) {
		return nil, reject()
	}
	return lend(cx, rt, uint32(le(cx, ptr, 4)))
}

func P15_impl_lift_own(cx *types.CallContext, rt types.ResourceType, vi values.ValueIterator) (any, error) {
	return io.LiftFlat(cx, vi, types.NewOwn(rt))
}
func P15_spec_lift_own(cx *types.CallContext, rt types.ResourceType, vi values.ValueIterator) (any, error) {
	i, err := next32(vi)
	if err != nil {
		return nil, err
	}
	return takeOwn(cx, rt, i)
}

func P15_impl_lift_borrow(cx *types.CallContext, rt types.ResourceType, vi values.ValueIterator) (any, error) {
	return io.LiftFlat(cx, vi, types.NewBorrow(rt))
}
func P15_spec_lift_borrow(cx *types.CallContext, rt types.ResourceType, vi values.ValueIterator) (any, error) {
	i, err := next32(vi)
	if err != nil {
		return nil, err
	}
	return lend(cx, rt, i)
}

func P15_impl_lower_own(cx *types.CallContext, rt types.ResourceType, v any) ([]values.Value, error) {
	return io.LowerFlat(cx, v, types.NewOwn(rt))
}
func P15_spec_lower_own(cx *types.CallContext, rt types.ResourceType, v any) ([]values.Value, error) {
	i, err := giveOwn(cx, rt, v)
	if err != nil {
		return nil, err
	}
	return []values.Value{values.U32(i)}, nil
}

func P15_impl_lower_borrow(cx *types.CallContext, rt types.ResourceType, v any) ([]values.Value, error) {
	return io.LowerFlat(cx, v, types.NewBorrow(rt))
}
func P15_spec_lower_borrow(cx *types.CallContext, rt types.ResourceType, v any) ([]values.Value, error) {
	i, err := giveBorrow(cx, rt, v)
	if err != nil {
		return nil, err
	}
	return []values.Value{values.U32(i)}, nil
}

func P15_impl_store_own(cx *types.CallContext, rt types.ResourceType, v any, ptr uint32) error {
	return io.Store(cx, v, types.NewOwn(rt), ptr)
}
func P15_spec_store_own(cx *types.CallContext, rt types.ResourceType, v any, ptr uint32) error {
	if ptr%4 != 0 || !inMem(cx, ptr, 4) {
		return reject()
	}
	i, err := giveOwn(cx, rt, v)
	if err != nil {
		return err
	}
	putle(cx, ptr, 4, uint64(i))
	return nil
}

func P15_impl_store_borrow(cx *types.CallContext, rt types.ResourceType, v any, ptr uint32) error {
	return io.Store(cx, v, types.NewBorrow(rt), ptr)
}
func P15_spec_store_borrow(cx *types.CallContext, rt types.ResourceType, v any, ptr uint32) error {
	if ptr%4 != 0 || !inMem(cx, ptr, 4) {
		return reject()
	}
	i, err := giveBorrow(cx, rt, v)
	if err != nil {
		return err
	}
	putle(cx, ptr, 4, uint64(i))
	return nil
}

//vc:fieldevents abi/types.HandleElem.LendCount
func P15_impl_exit_call(cx *types.CallContext) error { return cx.ExitCall() }
func P15_spec_exit_call(cx *types.CallContext) error {
	if cx.BorrowCount != 0 {
		return reject()
	}
	for i := 0; i < len(cx.Lenders); i++ {
		cx.Lenders[i].LendCount--
	}
	return nil
}

func P15_impl_resource_new(inst *types.ComponentInstance, rt types.ResourceType, rep uint32) (any, error) {
	return io.CanonResourceNew(inst, rt, rep)
}
func P15_spec_resource_new(inst *types.ComponentInstance, rt types.ResourceType, rep uint32) (any, error) {
	return addHandle(tableOf(&inst.Handles, rt), &types.HandleElem{Rep: rep, Own: true})
}

func P15_impl_resource_rep(inst *types.ComponentInstance, rt types.ResourceType, i uint32) (uint32, error) {
	return io.CanonResourceRep(inst, rt, i)
}
func P15_spec_resource_rep(inst *types.ComponentInstance, rt types.ResourceType, i uint32) (uint32, error) {
	h, err := getHandle(tableOf(&inst.Handles, rt), i)
	if err != nil {
		return 0, err
	}
	return h.Rep, nil
}

func P15_impl_resource_drop(inst *types.ComponentInstance, rt types.ResourceType, i uint32) error {
	return io.CanonResourceDrop(inst, rt, i)
}
func P15_spec_resource_drop(inst *types.ComponentInstance, rt types.ResourceType, i uint32) error {
	h, err := removeHandle(tableOf(&inst.Handles, rt), i)
	if err != nil || !h.Own {
		return err
	}
	if inst != rt.Impl() && !rt.Impl().MayEnter {
		return reject()
	}
	if d := rt.DTor(); d != nil {
		d(h.Rep)
	}
	return nil
}

func P15_impl_resource(d types.DTorFunc, i *types.ComponentInstance) (types.DTorFunc, *types.ComponentInstance) {
	r := types.NewResourceType(d, i)
	return r.DTor(), r.Impl()
}
func P15_spec_resource(d types.DTorFunc, i *types.ComponentInstance) (types.DTorFunc, *types.ComponentInstance) {
	return d, i
}

//vc:resultonly
func P15_impl_resource_drop_refused(inst, impl *types.ComponentInstance, i uint32) bool {
	assume(inst != impl && !impl.MayEnter)
	ran := false
	rt := types.NewResourceType(func(uint32) { ran = true }, impl)
	io.CanonResourceDrop(inst, rt, i)
	return ran
}
func P15_spec_resource_drop_refused(inst, impl *types.ComponentInstance, i uint32) bool {
	return false
}
