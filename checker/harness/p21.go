//go:build ignore

package zzverif

import (
	"errors"
	stdio "io"

	"github.com/patrickhuber/go-wasm/api"
	"github.com/patrickhuber/go-wasm/binary"
)

// rawNumber stands for reading one LEB128 number (decided by P20).
func rawNumber(r stdio.Reader) (uint32, int, error) { panic("opaque") }

// lebNumber: a number that cannot be read is never reported as a clean end of
// input (decided by P20).
func lebNumber(r stdio.Reader) (uint32, int, error) {
	v, n, err := rawNumber(r)
	if err != nil {
		return 0, 0, reject()
	}
	return v, n, nil
}

func number(r stdio.Reader) (uint32, error) {
	v, _, err := lebNumber(r)
	return v, err
}

func oneByte(r stdio.Reader) (byte, error) {
	b := make([]byte, 1)
	if _, err := stdio.ReadFull(r, b); err != nil {
		return 0, err
	}
	return b[0], nil
}

func twoBytes(r stdio.Reader) (uint16, error) {
	b := make([]byte, 2)
	if _, err := stdio.ReadFull(r, b); err != nil {
		return 0, err
	}
	return uint16(b[0]) + uint16(b[1])*256, nil
}

func valType(r stdio.Reader) (api.ValType, error) {
	b, err := oneByte(r)
	if err != nil {
		return nil, err
	}
	if b == 0x7f {
		return api.I32Type, nil
	}
	if b == 0x7e {
		return api.I64Type, nil
	}
	if b == 0x7d {
		return api.F32Type, nil
	}
	if b == 0x7c {
		return api.F64Type, nil
	}
	return nil, reject()
}

func valTypes(r stdio.Reader) ([]api.ValType, error) {
	n, err := number(r)
	if err != nil {
		return nil, err
	}
	out := []api.ValType{}
	for i := 0; i < int(n); i++ {
		t, err := valType(r)
		if err != nil {
			return nil, err
		}
		out = append(out, t)
	}
	return out, nil
}

func funcType(r stdio.Reader) (*api.FuncType, error) {
	b, err := oneByte(r)
	if err != nil {
		return nil, err
	}
	if b != 0x60 {
		return nil, reject()
	}
	ps, err := valTypes(r)
	if err != nil {
		return nil, err
	}
	rs, err := valTypes(r)
	if err != nil {
		return nil, err
	}
	ft := &api.FuncType{}
	ft.Parameters.Types = ps
	ft.Returns.Types = rs
	return ft, nil
}

func funcTypes(r stdio.Reader) ([]*api.FuncType, error) {
	n, err := number(r)
	if err != nil {
		return nil, err
	}
	out := []*api.FuncType{}
	for i := 0; i < int(n); i++ {
		t, err := funcType(r)
		if err != nil {
			return nil, err
		}
		out = append(out, t)
	}
	return out, nil
}

func function(r stdio.Reader) (*api.Func, error) {
	n, err := number(r)
	if err != nil {
		return nil, err
	}
	return &api.Func{Type: api.TypeIndex(n)}, nil
}

func functions(r stdio.Reader) ([]*api.Func, error) {
	n, err := number(r)
	if err != nil {
		return nil, err
	}
	out := []*api.Func{}
	for i := 0; i < int(n); i++ {
		f, err := function(r)
		if err != nil {
			return nil, err
		}
		out = append(out, f)
	}
	return out, nil
}

func name(r stdio.Reader) (string, error) {
	n, err := number(r)
	if err != nil {
		return "", err
	}
	b := make([]byte, n)
	if _, err := stdio.ReadFull(r, b); err != nil {
		return "", err
	}
	return string(b), nil
}

func export(r stdio.Reader) (api.Export, error) {
	s, err := name(r)
	if err != nil {
		return api.Export{}, err
	}
	k, err := oneByte(r)
	if err != nil {
		return api.Export{}, err
	}
	n, err := number(r)
	if err != nil {
		return api.Export{}, err
	}
	if k != 0 {
		return api.Export{}, reject()
	}
	return api.Export{Name: s, Description: &api.FuncExportDescription{FuncIdx: api.FuncIndex(n)}}, nil
}

func exports(r stdio.Reader) ([]api.Export, error) {
	n, err := number(r)
	if err != nil {
		return nil, err
	}
	out := []api.Export{}
	for i := 0; i < int(n); i++ {
		x, err := export(r)
		if err != nil {
			return nil, err
		}
		out = append(out, x)
	}
	return out, nil
}

func locals(r stdio.Reader) ([]api.ValType, error) {
	n, err := number(r)
	if err != nil {
		return nil, err
	}
	out := []api.ValType{}
	for i := 0; i < int(n); i++ {
		k, err := number(r)
		if err != nil {
			return nil, err
		}
		t, err := valType(r)
		if err != nil {
			return nil, err
		}
		if len(out)+int(k) > binary.MaxLocals {
			return nil, reject()
		}
		for j := 0; j < int(k); j++ {
			out = append(out, t)
		}
	}
	return out, nil
}

func instruction(r stdio.Reader) (api.Instruction, error) {
	b, err := oneByte(r)
	if err != nil {
		return nil, err
	}
	if b == 0x0b {
		return api.End{}, nil
	}
	if b == 0x20 {
		n, err := number(r)
		if err != nil {
			return nil, err
		}
		return api.LocalGet{Index: api.LocalIndex(n)}, nil
	}
	if b == 0x6a {
		return api.I32Add{}, nil
	}
	return nil, reject()
}

func expression(r stdio.Reader) (*api.Expression, error) {
	out := []api.Instruction{}
	for {
		x, err := instruction(r)
		if err != nil {
			return nil, err
		}
		out = append(out, x)
		if _, end := x.(api.End); end {
			return &api.Expression{Instructions: out}, nil
		}
	}
}

func P21_impl_byte(r stdio.Reader) (byte, error) { return binary.ReadByte(r) }
func P21_spec_byte(r stdio.Reader) (byte, error) { return oneByte(r) }

func P21_impl_u16(r stdio.Reader) (uint16, error) { return binary.ReadUInt16(r) }
func P21_spec_u16(r stdio.Reader) (uint16, error) { return twoBytes(r) }

//vc:replace leb128.DecodeReader=lebNumber
//vc:event internal/zzverif.rawNumber
func P21_impl_number(r stdio.Reader) (uint32, error) { return binary.ReadLebU128(r) }
func P21_spec_number(r stdio.Reader) (uint32, error) { return number(r) }

//vc:replace leb128.DecodeReader=lebNumber
//vc:event internal/zzverif.rawNumber
func P21_impl_valtype(r stdio.Reader) (api.ValType, error) { return binary.ReadValueType(r) }
func P21_spec_valtype(r stdio.Reader) (api.ValType, error) { return valType(r) }

//vc:replace leb128.DecodeReader=lebNumber
//vc:event internal/zzverif.rawNumber
func P21_impl_valtypes(r stdio.Reader) ([]api.ValType, error) { return binary.ReadValueTypeVector(r) }
func P21_spec_valtypes(r stdio.Reader) ([]api.ValType, error) { return valTypes(r) }

//vc:replace leb128.DecodeReader=lebNumber
//vc:event internal/zzverif.rawNumber
func P21_impl_functype(r stdio.Reader) (*api.FuncType, error) { return binary.ReadType(r) }
func P21_spec_functype(r stdio.Reader) (*api.FuncType, error) { return funcType(r) }

//vc:replace leb128.DecodeReader=lebNumber
//vc:event internal/zzverif.rawNumber
func P21_impl_functypes(n uint32, r stdio.Reader) ([]*api.FuncType, error) {
	return binary.ReadFuncTypes(n, r)
}
func P21_spec_functypes(n uint32, r stdio.Reader) ([]*api.FuncType, error) { return funcTypes(r) }

//vc:replace leb128.DecodeReader=lebNumber
//vc:event internal/zzverif.rawNumber
func P21_impl_function(r stdio.Reader) (*api.Func, error) { return binary.ReadFunc(r) }
func P21_spec_function(r stdio.Reader) (*api.Func, error) { return function(r) }

//vc:replace leb128.DecodeReader=lebNumber
//vc:event internal/zzverif.rawNumber
func P21_impl_functions(n uint32, r stdio.Reader) ([]*api.Func, error) { return binary.ReadFuncs(n, r) }
func P21_spec_functions(n uint32, r stdio.Reader) ([]*api.Func, error) { return functions(r) }

//vc:replace leb128.DecodeReader=lebNumber
//vc:event internal/zzverif.rawNumber
func P21_impl_name(r stdio.Reader) (string, error) { return binary.ReadString(r) }
func P21_spec_name(r stdio.Reader) (string, error) { return name(r) }

//vc:replace leb128.DecodeReader=lebNumber
//vc:event internal/zzverif.rawNumber
func P21_impl_export(r stdio.Reader) (api.Export, error) { return binary.ReadExport(r) }
func P21_spec_export(r stdio.Reader) (api.Export, error) { return export(r) }

//vc:replace leb128.DecodeReader=lebNumber
//vc:event internal/zzverif.rawNumber
func P21_impl_exports(n uint32, r stdio.Reader) ([]api.Export, error) {
	return binary.ReadExports(n, r)
}
func P21_spec_exports(n uint32, r stdio.Reader) ([]api.Export, error) { return exports(r) }

//vc:replace leb128.DecodeReader=lebNumber
//vc:event internal/zzverif.rawNumber
func P21_impl_locals(r stdio.Reader) ([]api.ValType, error) { return binary.ReadLocals(r) }
func P21_spec_locals(r stdio.Reader) ([]api.ValType, error) { return locals(r) }

//vc:replace leb128.DecodeReader=lebNumber
//vc:event internal/zzverif.rawNumber
func P21_impl_instruction(r stdio.Reader) (api.Instruction, error) { return binary.ReadInstruction(r) }
func P21_spec_instruction(r stdio.Reader) (api.Instruction, error) { return instruction(r) }

//vc:replace leb128.DecodeReader=lebNumber
//vc:event internal/zzverif.rawNumber
func P21_impl_expression(r stdio.Reader) (*api.Expression, error) { return binary.ReadExpression(r) }
func P21_spec_expression(r stdio.Reader) (*api.Expression, error) { return expression(r) }

// order: 0 stores each part when read, 1 and 2 store both at the end
func code(m *api.Module, r stdio.Reader, order int) error {
	n, err := number(r)
	if err != nil {
		return err
	}
	for i := 0; i < int(n); i++ {
		if i >= len(m.Funcs) {
			return reject()
		}
		if _, err := number(r); err != nil {
			return err
		}
		ls, err := locals(r)
		if err != nil {
			return err
		}
		if order == 0 {
			m.Funcs[i].Locals = ls
		}
		x, err := expression(r)
		if err != nil {
			return err
		}
		if order == 1 {
			m.Funcs[i].Locals = ls
		}
		m.Funcs[i].Body = x
		if order == 2 {
			m.Funcs[i].Locals = ls
		}
	}
	return nil
}

//vc:replace leb128.DecodeReader=lebNumber
//vc:event internal/zzverif.rawNumber
//vc:fieldevents api.Func.Locals api.Func.Body
func P21_impl_code(m *api.Module, n uint32, r stdio.Reader) error {
	return binary.UpdateFuncsWithCode(m, n, r)
}
func P21_spec_code(m *api.Module, n uint32, r stdio.Reader) error { return code(m, r, 0) }
func P21_alt_code(m *api.Module, n uint32, r stdio.Reader) error  { return code(m, r, 1) }
func P21_alt2_code(m *api.Module, n uint32, r stdio.Reader) error { return code(m, r, 2) }

//vc:replace leb128.DecodeReader=lebNumber
//vc:event internal/zzverif.rawNumber
func P21_impl_header(r stdio.Reader) (binary.SectionID, uint32, error) {
	return binary.ReadSectionHeader(r)
}
func P21_spec_header(r stdio.Reader) (binary.SectionID, uint32, error) {
	id, err := oneByte(r)
	if err != nil {
		return 0, 0, err
	}
	n, err := number(r)
	return binary.SectionID(id), n, err
}

func preamble(r stdio.Reader) (api.Preamble, error) {
	m := make([]byte, 4)
	if _, err := stdio.ReadFull(r, m); err != nil {
		return api.Preamble{}, err
	}
	if m[0] != 0 || m[1] != 'a' || m[2] != 's' || m[3] != 'm' {
		return api.Preamble{}, reject()
	}
	v, err := twoBytes(r)
	if err != nil {
		return api.Preamble{}, err
	}
	l, err := twoBytes(r)
	return api.Preamble{Version: v, Layer: l}, err
}

func P21_impl_preamble(r stdio.Reader) (api.Preamble, error) { return binary.ReadPreamble(r) }
func P21_spec_preamble(r stdio.Reader) (api.Preamble, error) { return preamble(r) }

func module(r stdio.Reader) (*api.Module, error) {
	m := &api.Module{}
	for {
		id, err := oneByte(r)
		if errors.Is(err, stdio.EOF) {
			break
		}
		if err != nil {
			return nil, err
		}
		n, err := number(r)
		if err != nil {
			return nil, err
		}
		if id == 1 {
			if m.Types, err = binary.ReadFuncTypes(n, r); err != nil {
				return nil, err
			}
		} else if id == 3 {
			if m.Funcs, err = binary.ReadFuncs(n, r); err != nil {
				return nil, err
			}
		} else if id == 7 {
			if m.Exports, err = binary.ReadExports(n, r); err != nil {
				return nil, err
			}
		} else if id == 10 {
			if err = binary.UpdateFuncsWithCode(m, n, r); err != nil {
				return nil, err
			}
		} else if _, err = stdio.ReadFull(r, make([]byte, n)); err != nil {
			return nil, err
		}
	}
	for i := 0; i < len(m.Funcs); i++ {
		if m.Funcs[i].Body == nil {
			return nil, reject()
		}
	}
	return m, nil
}

//vc:replace leb128.DecodeReader=lebNumber
//vc:event internal/zzverif.rawNumber binary.ReadFuncTypes binary.ReadFuncs binary.ReadExports binary.UpdateFuncsWithCode
func P21_impl_module(r stdio.Reader) (*api.Module, error) { return binary.ReadModule(r) }
func P21_spec_module(r stdio.Reader) (*api.Module, error) { return module(r) }

//vc:event binary.ReadModule
func P21_impl_read(r stdio.Reader) (*api.Document, error) { return binary.Read(r) }
func P21_spec_read(r stdio.Reader) (*api.Document, error) {
	p, err := preamble(r)
	if err != nil {
		return nil, err
	}
	if p.Version == 1 {
		m, err := binary.ReadModule(r)
		if err != nil {
			return nil, err
		}
		return &api.Document{Preamble: p, Directive: m}, nil
	}
	if p.Version == 10 {
		return &api.Document{Preamble: p, Directive: &api.Component{}}, nil
	}
	return nil, reject()
}
