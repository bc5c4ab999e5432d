//go:build ignore

package zzverif

import (
	"github.com/patrickhuber/go-wasm/address"
	"github.com/patrickhuber/go-wasm/api"
	"github.com/patrickhuber/go-wasm/runtime"
)

func P31_impl_instantiate(s *runtime.Store, m *api.Module) ([]address.Function, error) {
	mi, err := runtime.NewModuleInstance(s, m)
	if err != nil {
		return nil, err
	}
	return mi.FunctionAddresses, nil
}
func P31_spec_instantiate(s *runtime.Store, m *api.Module) ([]address.Function, error) {
	n := len(s.Funcs)
	as := []address.Function{}
	for i := 0; i < len(m.Funcs); i++ {
		s.Funcs = append(s.Funcs, m.Funcs[i])
		as = append(as, address.Function(n+i))
	}
	return as, nil
}

func P31_impl_export(m *runtime.ModuleInstance, name string) (runtime.ExportInstance, bool) {
	return m.GetExport(name)
}
func P31_spec_export(m *runtime.ModuleInstance, name string) (runtime.ExportInstance, bool) {
	for i := 0; i < len(m.Exports); i++ {
		if m.Exports[i].Name == name {
			return m.Exports[i], true
		}
	}
	return runtime.ExportInstance{}, false
}
