//go:build ignore

package zzverif

import (
	"github.com/patrickhuber/go-wasm/abi/io"
	"github.com/patrickhuber/go-wasm/abi/types"
	"github.com/patrickhuber/go-wasm/abi/values"
)

func addHandle(ht *types.HandleTable, h *types.HandleElem) (uint32, error) {
	var i uint32
	if n := len(ht.Free); n > 0 {
		i = ht.Free[n-1]
		ht.Free = ht.Free[:n-1]
		if ht.Array[i] != nil {
			return 0, reject()
		}
		ht.Array[i] = h
	} else {
		i = uint32(len(ht.Array))
		ht.Array = append(ht.Array, h)
	}
	if h.Scope != nil {
		h.Scope.BorrowCount++
	}
	return i, nil
}

func getHandle(ht *types.HandleTable, i uint32) (*types.HandleElem, error) {
	if i >= uint32(len(ht.Array)) || ht.Array[i] == nil {
		return nil, reject()
	}
	return ht.Array[i], nil
}

func removeHandle(ht *types.HandleTable, i uint32) (*types.HandleElem, error) {
	h, err := getHandle(ht, i)
	if err != nil {
		return nil, err
	}
	if h.LendCount != 0 {
		return nil, reject()
	}
	ht.Array[i] = nil
	ht.Free = append(ht.Free, i)
	if h.Scope != nil {
		h.Scope.BorrowCount--
	}
	return h, nil
}

func tableOf(hs *types.HandleTables, rt types.ResourceType) *types.HandleTable {
	t, ok := hs.ResourceTypeToTable[rt]
	if !ok {
		t = &types.HandleTable{}
		if hs.ResourceTypeToTable == nil {
			hs.ResourceTypeToTable = map[types.ResourceType]*types.HandleTable{}
		}
		hs.ResourceTypeToTable[rt] = t
	}
	return t
}

// tables of an instance: a table for every resource type that was used
func wholeTable(ht *types.HandleTable) {
	assume(len(ht.Array) < 1<<31 && len(ht.Free) < 1<<31)
}

func P14_impl_add(ht *types.HandleTable, h *types.HandleElem) (uint32, error) {
	wholeTable(ht)
	return ht.Add(h)
}
func P14_spec_add(ht *types.HandleTable, h *types.HandleElem) (uint32, error) {
	wholeTable(ht)
	return addHandle(ht, h)
}

func P14_impl_get(ht *types.HandleTable, i uint32) (*types.HandleElem, error) {
	wholeTable(ht)
	return ht.Get(i)
}
func P14_spec_get(ht *types.HandleTable, i uint32) (*types.HandleElem, error) {
	wholeTable(ht)
	return getHandle(ht, i)
}

func P14_impl_remove(ht *types.HandleTable, rt types.ResourceType, i uint32) (*types.HandleElem, error) {
	wholeTable(ht)
	return ht.Remove(rt, i)
}
func P14_spec_remove(ht *types.HandleTable, rt types.ResourceType, i uint32) (*types.HandleElem, error) {
	wholeTable(ht)
	return removeHandle(ht, i)
}

func P14_impl_table(hs *types.HandleTables, rt types.ResourceType) *types.HandleTable {
	return hs.Table(rt)
}
func P14_spec_table(hs *types.HandleTables, rt types.ResourceType) *types.HandleTable {
	return tableOf(hs, rt)
}

func P14_impl_tables_add(hs *types.HandleTables, rt types.ResourceType, h *types.HandleElem) (uint32, error) {
	return hs.Add(rt, h)
}
func P14_spec_tables_add(hs *types.HandleTables, rt types.ResourceType, h *types.HandleElem) (uint32, error) {
	return addHandle(tableOf(hs, rt), h)
}

func P14_impl_tables_get(hs *types.HandleTables, rt types.ResourceType, i uint32) (*types.HandleElem, error) {
	return hs.Get(rt, i)
}
func P14_spec_tables_get(hs *types.HandleTables, rt types.ResourceType, i uint32) (*types.HandleElem, error) {
	return getHandle(tableOf(hs, rt), i)
}

func P14_impl_tables_remove(hs *types.HandleTables, rt types.ResourceType, i uint32) (*types.HandleElem, error) {
	return hs.Remove(rt, i)
}
func P14_spec_tables_remove(hs *types.HandleTables, rt types.ResourceType, i uint32) (*types.HandleElem, error) {
	return removeHandle(tableOf(hs, rt), i)
}

var _ = io.Load
var _ values.Value

// A refused operation leaves the table as it was.
func P14_impl_remove_state(ht *types.HandleTable, rt types.ResourceType, i uint32) bool {
	_, err := ht.Remove(rt, i)
	return err == nil
}
func P14_spec_remove_state(ht *types.HandleTable, rt types.ResourceType, i uint32) bool {
	_, err := removeHandle(ht, i)
	return err == nil
}

func P14_impl_get_state(ht *types.HandleTable, i uint32) bool {
	_, err := ht.Get(i)
	return err == nil
}
func P14_spec_get_state(ht *types.HandleTable, i uint32) bool {
	_, err := getHandle(ht, i)
	return err == nil
}
