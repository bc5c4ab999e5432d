//go:build ignore

package zzverif

import (
	"bufio"
	stdio "io"

	"github.com/patrickhuber/go-wasm/api"
	"github.com/patrickhuber/go-wasm/binary"
	"github.com/patrickhuber/go-wasm/leb128"
)

// P22: what is accepted, whatever value is built from it.

//vc:replace leb128.DecodeReader=lebNumber
//vc:event internal/zzverif.rawNumber
//vc:resultonly
func P22_impl_valtype(r stdio.Reader) error {
	_, err := binary.ReadValueType(r)
	return err
}
func P22_spec_valtype(r stdio.Reader) error {
	_, err := valType(r)
	return err
}

//vc:replace leb128.DecodeReader=lebNumber
//vc:event internal/zzverif.rawNumber
//vc:resultonly
func P22_impl_valtypes(r stdio.Reader) error {
	_, err := binary.ReadValueTypeVector(r)
	return err
}
func P22_spec_valtypes(r stdio.Reader) error {
	_, err := valTypes(r)
	return err
}

//vc:replace leb128.DecodeReader=lebNumber
//vc:event internal/zzverif.rawNumber
//vc:resultonly
func P22_impl_functype(r stdio.Reader) error {
	_, err := binary.ReadType(r)
	return err
}
func P22_spec_functype(r stdio.Reader) error {
	_, err := funcType(r)
	return err
}

//vc:replace leb128.DecodeReader=lebNumber
//vc:event internal/zzverif.rawNumber
//vc:resultonly
func P22_impl_function(r stdio.Reader) error {
	_, err := binary.ReadFunc(r)
	return err
}
func P22_spec_function(r stdio.Reader) error {
	_, err := function(r)
	return err
}

//vc:replace leb128.DecodeReader=lebNumber
//vc:event internal/zzverif.rawNumber
//vc:resultonly
func P22_impl_name(r stdio.Reader) error {
	_, err := binary.ReadString(r)
	return err
}
func P22_spec_name(r stdio.Reader) error {
	_, err := name(r)
	return err
}

//vc:replace leb128.DecodeReader=lebNumber
//vc:event internal/zzverif.rawNumber
//vc:resultonly
func P22_impl_export(r stdio.Reader) error {
	_, err := binary.ReadExport(r)
	return err
}
func P22_spec_export(r stdio.Reader) error {
	_, err := export(r)
	return err
}

//vc:replace leb128.DecodeReader=lebNumber
//vc:event internal/zzverif.rawNumber
//vc:resultonly
func P22_impl_locals(r stdio.Reader) error {
	_, err := binary.ReadLocals(r)
	return err
}
func P22_spec_locals(r stdio.Reader) error {
	_, err := locals(r)
	return err
}

//vc:replace leb128.DecodeReader=lebNumber
//vc:event internal/zzverif.rawNumber
//vc:resultonly
func P22_impl_instruction(r stdio.Reader) error {
	_, err := binary.ReadInstruction(r)
	return err
}
func P22_spec_instruction(r stdio.Reader) error {
	_, err := instruction(r)
	return err
}

//vc:replace leb128.DecodeReader=lebNumber
//vc:event internal/zzverif.rawNumber
//vc:resultonly
func P22_impl_expression(r stdio.Reader) error {
	_, err := binary.ReadExpression(r)
	return err
}
func P22_spec_expression(r stdio.Reader) error {
	_, err := expression(r)
	return err
}

//vc:replace leb128.DecodeReader=lebNumber
//vc:event internal/zzverif.rawNumber
//vc:resultonly
func P22_impl_preamble(r stdio.Reader) error {
	_, err := binary.ReadPreamble(r)
	return err
}
func P22_spec_preamble(r stdio.Reader) error {
	_, err := preamble(r)
	return err
}

//vc:replace leb128.DecodeReader=lebNumber
//vc:event internal/zzverif.rawNumber
//vc:resultonly
func P22_impl_functypes(n uint32, r stdio.Reader) error {
	_, err := binary.ReadFuncTypes(n, r)
	return err
}
func P22_spec_functypes(n uint32, r stdio.Reader) error {
	_, err := funcTypes(r)
	return err
}

//vc:replace leb128.DecodeReader=lebNumber
//vc:event internal/zzverif.rawNumber
//vc:resultonly
func P22_impl_functions(n uint32, r stdio.Reader) error {
	_, err := binary.ReadFuncs(n, r)
	return err
}
func P22_spec_functions(n uint32, r stdio.Reader) error {
	_, err := functions(r)
	return err
}

//vc:replace leb128.DecodeReader=lebNumber
//vc:event internal/zzverif.rawNumber
//vc:resultonly
func P22_impl_exports(n uint32, r stdio.Reader) error {
	_, err := binary.ReadExports(n, r)
	return err
}
func P22_spec_exports(n uint32, r stdio.Reader) error {
	_, err := exports(r)
	return err
}

//vc:replace leb128.DecodeReader=lebNumber
//vc:event internal/zzverif.rawNumber
//vc:resultonly
//vc:fieldevents api.Func.Locals api.Func.Body
func P22_impl_code(m *api.Module, n uint32, r stdio.Reader) error {
	return binary.UpdateFuncsWithCode(m, n, r)
}
func P22_spec_code(m *api.Module, n uint32, r stdio.Reader) error { return code(m, r, 0) }
func P22_alt_code(m *api.Module, n uint32, r stdio.Reader) error  { return code(m, r, 1) }
func P22_alt2_code(m *api.Module, n uint32, r stdio.Reader) error { return code(m, r, 2) }

//vc:replace leb128.DecodeReader=lebNumber
//vc:event internal/zzverif.rawNumber binary.ReadFuncTypes binary.ReadFuncs binary.ReadExports binary.UpdateFuncsWithCode
//vc:resultonly
func P22_impl_module(r stdio.Reader) error {
	_, err := binary.ReadModule(r)
	return err
}
func P22_spec_module(r stdio.Reader) error {
	_, err := module(r)
	return err
}

//vc:event binary.ReadModule
//vc:resultonly
func P22_impl_read(r stdio.Reader) error {
	_, err := binary.Read(r)
	return err
}
func P22_spec_read(r stdio.Reader) error {
	_, err := P21_spec_read(r)
	return err
}

//vc:resultonly
func P22_impl_number(r stdio.Reader) error {
	_, _, err := leb128.DecodeReader(r)
	return err
}
func P22_spec_number(r stdio.Reader) error {
	_, _, err := P20_spec_reader(r)
	return err
}

//vc:resultonly
func P22_impl_number_slice(s []byte) error {
	_, _, err := leb128.DecodeSlice(s)
	return err
}
func P22_spec_number_slice(s []byte) error {
	_, _, err := P20_spec_slice(s)
	return err
}

//vc:resultonly
func P22_impl_number_buffered(r *bufio.Reader) error {
	_, _, err := leb128.Decode(r)
	return err
}
func P22_spec_number_buffered(r *bufio.Reader) error {
	_, _, err := P20_spec_buffered(r)
	return err
}
