//go:build ignore

package zzverif

import (
	"bytes"
	stdio "io"

	"github.com/patrickhuber/go-wasm/abi/io"
	"github.com/patrickhuber/go-wasm/abi/types"
	"github.com/patrickhuber/go-wasm/abi/values"
	"github.com/patrickhuber/go-wasm/encoding"
)

const tag = uint32(1) << 31

// text decoding and encoding by name; that a codec does what its name says is
// the subject of the codec pairs.
func anyDecode(name encoding.Encoding, r stdio.Reader) (string, error) { return "", nil }
func anyEncode(name encoding.Encoding, s string) ([]byte, error)       { return nil, nil }

func decodeNamed(d encoding.Decoder, r stdio.Reader) (string, error) {
	return anyDecode(d.(encoding.Codec).Encoding(), r)
}
func encodeNamed(d encoding.Encoder, s string) ([]byte, error) {
	return anyEncode(d.(encoding.Codec).Encoding(), s)
}

// layout of the registered encodings
func textLayout(name encoding.Encoding) (align, unit uint32, ok bool) {
	switch name {
	case "utf-8":
		return 1, 1, true
	case "latin1", "latin1+utf16":
		return 2, 1, true
	case "utf-16", "utf-16-le", "utf-16-be":
		return 2, 2, true
	}
	return 0, 0, false
}

func text(cx *types.CallContext, ptr, length uint32) (string, error) {
	name := cx.Options.StringEncoding
	if name == "latin1+utf16" {
		name = "latin1"
		if length >= tag {
			name = "utf-16-le"
		}
	}
	align, unit, ok := textLayout(name)
	if !ok || ptr%align != 0 {
		return "", reject()
	}
	n := uint64(length%tag) * uint64(unit)
	if !inMem(cx, ptr, n) {
		return "", reject()
	}
	return anyDecode(name, bytes.NewReader(cx.Options.Memory.Bytes()[ptr:uint64(ptr)+n]))
}

//vc:replace encoding.DecodeString=decodeNamed
func P12_impl_load(cx *types.CallContext, ptr uint32) (any, error) {
	return io.Load(cx, types.NewString(), ptr)
}
func P12_spec_load(cx *types.CallContext, ptr uint32) (any, error) {
	if !inMem(cx, ptr, 8) {
		return nil, reject()
	}
	begin := uint32(le(cx, ptr, 4))
	return text(cx, begin, uint32(le(cx, ptr+4, 4)))
}

//vc:replace encoding.DecodeString=decodeNamed
func P12_impl_lift(cx *types.CallContext, vi values.ValueIterator) (any, error) {
	return io.LiftFlat(cx, vi, types.NewString())
}
func P12_spec_lift(cx *types.CallContext, vi values.ValueIterator) (any, error) {
	begin, err := next32(vi)
	if err != nil {
		return nil, err
	}
	n, err := next32(vi)
	if err != nil {
		return nil, err
	}
	return text(cx, begin, n)
}

func latin(s string) bool {
	for _, r := range s {
		if r > 0xff {
			return false
		}
	}
	return true
}

func putText(cx *types.CallContext, s string) (uint32, uint32, error) {
	name := cx.Options.StringEncoding
	mark := uint32(0)
	if name == "latin1+utf16" {
		name = "latin1"
		if !latin(s) {
			name = "utf-16-le"
			mark = tag
		}
	}
	align, unit, ok := textLayout(name)
	if !ok {
		return 0, 0, reject()
	}
	b, err := anyEncode(name, s)
	if err != nil {
		return 0, 0, err
	}
	if len(b) >= 1<<31 {
		return 0, 0, reject()
	}
	p, err := cx.Options.Realloc(0, 0, align, uint32(len(b)))
	if err != nil {
		return 0, 0, err
	}
	if p%align != 0 || !inMem(cx, p, uint64(len(b))) {
		return 0, 0, reject()
	}
	copy(cx.Options.Memory.Bytes()[p:], b)
	return p, uint32(len(b))/unit + mark, nil
}

func storeText(cx *types.CallContext, v any, ptr uint32) error {
	s, ok := v.(string)
	if !ok || ptr%4 != 0 || !inMem(cx, ptr, 8) {
		return reject()
	}
	p, n, err := putText(cx, s)
	if err != nil {
		return err
	}
	if !inMem(cx, ptr, 4) {
		return reject()
	}
	putle(cx, ptr, 4, uint64(p))
	if !inMem(cx, ptr+4, 4) {
		return reject()
	}
	putle(cx, ptr+4, 4, uint64(n))
	return nil
}

func lowerText(cx *types.CallContext, v any) ([]values.Value, error) {
	s, ok := v.(string)
	if !ok {
		return nil, reject()
	}
	p, n, err := putText(cx, s)
	if err != nil {
		return nil, err
	}
	return []values.Value{values.U32(p), values.U32(n)}, nil
}

//vc:replace encoding.EncodeString=encodeNamed
func P12_impl_store_utf8(cx *types.CallContext, v any, ptr uint32) error {
	assume(cx.Options.StringEncoding == "utf-8")
	return io.Store(cx, v, types.NewString(), ptr)
}
func P12_spec_store_utf8(cx *types.CallContext, v any, ptr uint32) error {
	assume(cx.Options.StringEncoding == "utf-8")
	return storeText(cx, v, ptr)
}

//vc:replace encoding.EncodeString=encodeNamed
func P12_impl_lower_utf8(cx *types.CallContext, v any) ([]values.Value, error) {
	assume(cx.Options.StringEncoding == "utf-8")
	return io.LowerFlat(cx, v, types.NewString())
}
func P12_spec_lower_utf8(cx *types.CallContext, v any) ([]values.Value, error) {
	assume(cx.Options.StringEncoding == "utf-8")
	return lowerText(cx, v)
}

//vc:replace encoding.EncodeString=encodeNamed
func P12_impl_store_latin1(cx *types.CallContext, v any, ptr uint32) error {
	assume(cx.Options.StringEncoding == "latin1")
	return io.Store(cx, v, types.NewString(), ptr)
}
func P12_spec_store_latin1(cx *types.CallContext, v any, ptr uint32) error {
	assume(cx.Options.StringEncoding == "latin1")
	return storeText(cx, v, ptr)
}

//vc:replace encoding.EncodeString=encodeNamed
func P12_impl_lower_latin1(cx *types.CallContext, v any) ([]values.Value, error) {
	assume(cx.Options.StringEncoding == "latin1")
	return io.LowerFlat(cx, v, types.NewString())
}
func P12_spec_lower_latin1(cx *types.CallContext, v any) ([]values.Value, error) {
	assume(cx.Options.StringEncoding == "latin1")
	return lowerText(cx, v)
}

//vc:replace encoding.EncodeString=encodeNamed
func P12_impl_store_dynamic(cx *types.CallContext, v any, ptr uint32) error {
	assume(cx.Options.StringEncoding == "latin1+utf16")
	return io.Store(cx, v, types.NewString(), ptr)
}
func P12_spec_store_dynamic(cx *types.CallContext, v any, ptr uint32) error {
	assume(cx.Options.StringEncoding == "latin1+utf16")
	return storeText(cx, v, ptr)
}

//vc:replace encoding.EncodeString=encodeNamed
func P12_impl_lower_dynamic(cx *types.CallContext, v any) ([]values.Value, error) {
	assume(cx.Options.StringEncoding == "latin1+utf16")
	return io.LowerFlat(cx, v, types.NewString())
}
func P12_spec_lower_dynamic(cx *types.CallContext, v any) ([]values.Value, error) {
	assume(cx.Options.StringEncoding == "latin1+utf16")
	return lowerText(cx, v)
}

//vc:replace encoding.EncodeString=encodeNamed
func P12_impl_store_utf16(cx *types.CallContext, v any, ptr uint32) error {
	assume(cx.Options.StringEncoding == "utf-16")
	return io.Store(cx, v, types.NewString(), ptr)
}
func P12_spec_store_utf16(cx *types.CallContext, v any, ptr uint32) error {
	assume(cx.Options.StringEncoding == "utf-16")
	return storeText(cx, v, ptr)
}

//vc:replace encoding.EncodeString=encodeNamed
func P12_impl_lower_utf16(cx *types.CallContext, v any) ([]values.Value, error) {
	assume(cx.Options.StringEncoding == "utf-16")
	return io.LowerFlat(cx, v, types.NewString())
}
func P12_spec_lower_utf16(cx *types.CallContext, v any) ([]values.Value, error) {
	assume(cx.Options.StringEncoding == "utf-16")
	return lowerText(cx, v)
}

//vc:replace encoding.EncodeString=encodeNamed
func P12_impl_store_utf16le(cx *types.CallContext, v any, ptr uint32) error {
	assume(cx.Options.StringEncoding == "utf-16-le")
	return io.Store(cx, v, types.NewString(), ptr)
}
func P12_spec_store_utf16le(cx *types.CallContext, v any, ptr uint32) error {
	assume(cx.Options.StringEncoding == "utf-16-le")
	return storeText(cx, v, ptr)
}

//vc:replace encoding.EncodeString=encodeNamed
func P12_impl_lower_utf16le(cx *types.CallContext, v any) ([]values.Value, error) {
	assume(cx.Options.StringEncoding == "utf-16-le")
	return io.LowerFlat(cx, v, types.NewString())
}
func P12_spec_lower_utf16le(cx *types.CallContext, v any) ([]values.Value, error) {
	assume(cx.Options.StringEncoding == "utf-16-le")
	return lowerText(cx, v)
}

//vc:replace encoding.EncodeString=encodeNamed
func P12_impl_store_utf16be(cx *types.CallContext, v any, ptr uint32) error {
	assume(cx.Options.StringEncoding == "utf-16-be")
	return io.Store(cx, v, types.NewString(), ptr)
}
func P12_spec_store_utf16be(cx *types.CallContext, v any, ptr uint32) error {
	assume(cx.Options.StringEncoding == "utf-16-be")
	return storeText(cx, v, ptr)
}

//vc:replace encoding.EncodeString=encodeNamed
func P12_impl_lower_utf16be(cx *types.CallContext, v any) ([]values.Value, error) {
	assume(cx.Options.StringEncoding == "utf-16-be")
	return io.LowerFlat(cx, v, types.NewString())
}
func P12_spec_lower_utf16be(cx *types.CallContext, v any) ([]values.Value, error) {
	assume(cx.Options.StringEncoding == "utf-16-be")
	return lowerText(cx, v)
}

//vc:replace encoding.EncodeString=encodeNamed
func P12_impl_store_unknown(cx *types.CallContext, v any, ptr uint32) error {
	enc := cx.Options.StringEncoding
	assume(enc != "utf-8" && enc != "latin1" && enc != "latin1+utf16" && enc != "utf-16" && enc != "utf-16-le" && enc != "utf-16-be")
	return io.Store(cx, v, types.NewString(), ptr)
}
func P12_spec_store_unknown(cx *types.CallContext, v any, ptr uint32) error {
	enc := cx.Options.StringEncoding
	assume(enc != "utf-8" && enc != "latin1" && enc != "latin1+utf16" && enc != "utf-16" && enc != "utf-16-le" && enc != "utf-16-be")
	return storeText(cx, v, ptr)
}

//vc:replace encoding.EncodeString=encodeNamed
func P12_impl_lower_unknown(cx *types.CallContext, v any) ([]values.Value, error) {
	enc := cx.Options.StringEncoding
	assume(enc != "utf-8" && enc != "latin1" && enc != "latin1+utf16" && enc != "utf-16" && enc != "utf-16-le" && enc != "utf-16-be")
	return io.LowerFlat(cx, v, types.NewString())
}
func P12_spec_lower_unknown(cx *types.CallContext, v any) ([]values.Value, error) {
	enc := cx.Options.StringEncoding
	assume(enc != "utf-8" && enc != "latin1" && enc != "latin1+utf16" && enc != "utf-16" && enc != "utf-16-le" && enc != "utf-16-be")
	return lowerText(cx, v)
}
