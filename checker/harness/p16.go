//go:build ignore

package zzverif

import (
	"github.com/patrickhuber/go-wasm/abi/io"
	"github.com/patrickhuber/go-wasm/abi/types"
	"github.com/patrickhuber/go-wasm/abi/values"
)

func coreValues(vs []any) ([]values.Value, error) {
	out := []values.Value{}
	for i := 0; i < len(vs); i++ {
		v, ok := vs[i].(values.Value)
		if !ok {
			return nil, reject()
		}
		out = append(out, v)
	}
	return out, nil
}

func refLift(opts *types.CanonicalOptions, inst *types.ComponentInstance, callee func(any) (any, error), ft types.FuncType, args []any, maxP, maxR int) ([]any, *types.CallContext, error) {
	if !inst.MayEnter || !inst.MayLeave {
		return nil, nil, reject()
	}
	cx := &types.CallContext{Options: opts, Instance: inst}
	inst.MayLeave = false
	flat, err := io.LowerValues(cx, maxP, args, ft.ParamTypes(), nil)
	if err != nil {
		return nil, nil, err
	}
	inst.MayLeave = true
	r, err := callee(flat)
	if err != nil {
		return nil, nil, err
	}
	rs, ok := r.([]any)
	if !ok {
		return nil, nil, reject()
	}
	vs, err := coreValues(rs)
	if err != nil {
		return nil, nil, err
	}
	out, err := io.LiftValues(cx, maxR, values.NewIterator(vs...), ft.ResultTypes())
	return out, cx, err
}

//vc:event abi/io.LowerValues abi/io.LiftValues
func P16_impl_lift(opts *types.CanonicalOptions, inst *types.ComponentInstance, callee func(any) (any, error), ft types.FuncType, args []any, maxP, maxR int) ([]any, error) {
	vs, _, err := io.CanonLift(opts, inst, callee, ft, args, maxP, maxR)
	return vs, err
}
func P16_spec_lift(opts *types.CanonicalOptions, inst *types.ComponentInstance, callee func(any) (any, error), ft types.FuncType, args []any, maxP, maxR int) ([]any, error) {
	vs, _, err := refLift(opts, inst, callee, ft, args, maxP, maxR)
	return vs, err
}

//vc:event abi/io.LowerValues abi/io.LiftValues
//vc:fieldevents abi/types.HandleElem.LendCount
func P16_impl_lift_post(opts *types.CanonicalOptions, inst *types.ComponentInstance, callee func(any) (any, error), ft types.FuncType, args []any, maxP, maxR int) ([]any, error) {
	vs, post, err := io.CanonLift(opts, inst, callee, ft, args, maxP, maxR)
	if err != nil {
		return nil, err
	}
	post()
	return vs, err
}
func P16_spec_lift_post(opts *types.CanonicalOptions, inst *types.ComponentInstance, callee func(any) (any, error), ft types.FuncType, args []any, maxP, maxR int) ([]any, error) {
	vs, cx, err := refLift(opts, inst, callee, ft, args, maxP, maxR)
	if err != nil {
		return nil, err
	}
	if opts.PostReturn != nil {
		opts.PostReturn()
	}
	endCall(cx)
	return vs, nil
}

func endCall(cx *types.CallContext) error {
	if cx.BorrowCount != 0 {
		return reject()
	}
	for _, h := range cx.Lenders {
		h.LendCount--
	}
	return nil
}

//vc:event abi/io.LowerValues abi/io.LiftValues
func P16_impl_lift_refused(opts *types.CanonicalOptions, inst *types.ComponentInstance, callee func(any) (any, error), ft types.FuncType, args []any, maxP, maxR int) bool {
	assume(!inst.MayEnter || !inst.MayLeave)
	_, _, err := io.CanonLift(opts, inst, callee, ft, args, maxP, maxR)
	return err != nil
}
func P16_spec_lift_refused(opts *types.CanonicalOptions, inst *types.ComponentInstance, callee func(any) (any, error), ft types.FuncType, args []any, maxP, maxR int) bool {
	return true
}

//vc:event abi/io.LowerValues abi/io.LiftValues
//vc:fieldevents abi/types.HandleElem.LendCount
func P16_impl_lower(opts *types.CanonicalOptions, inst *types.ComponentInstance, callee func([]any) ([]any, types.PostReturnFunc, error), importing bool, ft types.FuncType, args []any, maxP, maxR int) ([]any, error) {
	return io.CanonLower(opts, inst, callee, importing, ft, args, maxP, maxR)
}
func P16_spec_lower(opts *types.CanonicalOptions, inst *types.ComponentInstance, callee func([]any) ([]any, types.PostReturnFunc, error), importing bool, ft types.FuncType, args []any, maxP, maxR int) ([]any, error) {
	if !inst.MayEnter || !inst.MayLeave {
		return nil, reject()
	}
	cx := &types.CallContext{Options: opts, Instance: inst}
	vs, err := coreValues(args)
	if err != nil {
		return nil, err
	}
	vi := values.NewIterator(vs...)
	in, err := io.LiftValues(cx, maxP, vi, ft.ParamTypes())
	if err != nil {
		return nil, err
	}
	if importing {
		inst.MayEnter = false
	}
	rs, post, err := callee(in)
	if err != nil {
		return nil, err
	}
	inst.MayLeave = false
	flat, err := io.LowerValues(cx, maxR, rs, ft.ResultTypes(), vi)
	if err != nil {
		return nil, err
	}
	inst.MayLeave = true
	post()
	if err := endCall(cx); err != nil {
		return nil, err
	}
	if importing {
		inst.MayEnter = true
	}
	return flat, nil
}

//vc:event abi/io.LowerValues abi/io.LiftValues
func P16_impl_lower_refused(opts *types.CanonicalOptions, inst *types.ComponentInstance, callee func([]any) ([]any, types.PostReturnFunc, error), importing bool, ft types.FuncType, args []any, maxP, maxR int) bool {
	assume(!inst.MayEnter || !inst.MayLeave)
	_, err := io.CanonLower(opts, inst, callee, importing, ft, args, maxP, maxR)
	return err != nil
}
func P16_spec_lower_refused(opts *types.CanonicalOptions, inst *types.ComponentInstance, callee func([]any) ([]any, types.PostReturnFunc, error), importing bool, ft types.FuncType, args []any, maxP, maxR int) bool {
	return true
}
