//go:build ignore

package zzverif

import (
	"bytes"
	stdio "io"
	"strings"

	"github.com/patrickhuber/go-wasm/abi/io"
	"github.com/patrickhuber/go-wasm/abi/types"
	"github.com/patrickhuber/go-wasm/encoding"
	xenc "golang.org/x/text/encoding"
	"golang.org/x/text/encoding/charmap"
	"golang.org/x/text/encoding/unicode"
)

func encodeBy(e xenc.Encoding, dst stdio.Writer, src stdio.Reader) error {
	_, err := stdio.Copy(e.NewEncoder().Writer(dst), src)
	return err
}

func decodeBy(e xenc.Encoding, dst stdio.Writer, src stdio.Reader) error {
	_, err := stdio.Copy(dst, e.NewDecoder().Reader(src))
	return err
}

func P12_impl_encode_string(c encoding.Encoder, s string) ([]byte, error) {
	return encoding.EncodeString(c, s)
}
func P12_spec_encode_string(c encoding.Encoder, s string) ([]byte, error) {
	w := &bytes.Buffer{}
	if err := c.Encode(w, strings.NewReader(s)); err != nil {
		return nil, err
	}
	return w.Bytes(), nil
}

func P12_impl_decode_string(c encoding.Decoder, r stdio.Reader) (string, error) {
	return encoding.DecodeString(c, r)
}
func P12_spec_decode_string(c encoding.Decoder, r stdio.Reader) (string, error) {
	w := &strings.Builder{}
	if err := c.Decode(w, r); err != nil {
		return "", err
	}
	return w.String(), nil
}

func P12_impl_registry(name encoding.Encoding) (encoding.Encoding, int, int, error) {
	c, err := encoding.DefaultFactory().Get(name)
	if err != nil {
		return "", 0, 0, err
	}
	return c.Encoding(), c.Alignment(), c.RuneSize(), nil
}
func P12_spec_registry(name encoding.Encoding) (encoding.Encoding, int, int, error) {
	a, u, ok := textLayout(name)
	if !ok {
		return "", 0, 0, reject()
	}
	return name, int(a), int(u), nil
}

func P12_impl_lookup(name encoding.Encoding) (encoding.Encoding, bool) {
	c, ok := encoding.DefaultFactory().Lookup(name)
	if !ok {
		return "", false
	}
	return c.Encoding(), true
}
func P12_spec_lookup(name encoding.Encoding) (encoding.Encoding, bool) {
	if _, _, ok := textLayout(name); ok {
		return name, true
	}
	return "", false
}

func P12_impl_codec_utf8() (encoding.Encoding, int, int) {
	c := encoding.NewUTF8()
	return c.Encoding(), c.Alignment(), c.RuneSize()
}
func P12_spec_codec_utf8() (encoding.Encoding, int, int) { return "utf-8", 1, 1 }

func P12_impl_encode_utf8(dst stdio.Writer, src stdio.Reader) error {
	c, err := encoding.DefaultFactory().Get("utf-8")
	if err != nil {
		return err
	}
	return c.Encode(dst, src)
}
func P12_spec_encode_utf8(dst stdio.Writer, src stdio.Reader) error {
	return encodeBy(unicode.UTF8, dst, src)
}

func P12_impl_decode_utf8(dst stdio.Writer, src stdio.Reader) error {
	c, err := encoding.DefaultFactory().Get("utf-8")
	if err != nil {
		return err
	}
	return c.Decode(dst, src)
}
func P12_spec_decode_utf8(dst stdio.Writer, src stdio.Reader) error {
	return decodeBy(unicode.UTF8, dst, src)
}

func P12_impl_codec_latin1() (encoding.Encoding, int, int) {
	c := encoding.NewLatin1()
	return c.Encoding(), c.Alignment(), c.RuneSize()
}
func P12_spec_codec_latin1() (encoding.Encoding, int, int) { return "latin1", 2, 1 }

func P12_impl_encode_latin1(dst stdio.Writer, src stdio.Reader) error {
	c, err := encoding.DefaultFactory().Get("latin1")
	if err != nil {
		return err
	}
	return c.Encode(dst, src)
}
func P12_spec_encode_latin1(dst stdio.Writer, src stdio.Reader) error {
	return encodeBy(charmap.ISO8859_1, dst, src)
}

func P12_impl_decode_latin1(dst stdio.Writer, src stdio.Reader) error {
	c, err := encoding.DefaultFactory().Get("latin1")
	if err != nil {
		return err
	}
	return c.Decode(dst, src)
}
func P12_spec_decode_latin1(dst stdio.Writer, src stdio.Reader) error {
	return decodeBy(charmap.ISO8859_1, dst, src)
}

func P12_impl_codec_dynamic() (encoding.Encoding, int, int) {
	c := encoding.NewLatin1Utf16()
	return c.Encoding(), c.Alignment(), c.RuneSize()
}
func P12_spec_codec_dynamic() (encoding.Encoding, int, int) { return "latin1+utf16", 2, 1 }

func P12_impl_encode_dynamic(dst stdio.Writer, src stdio.Reader) error {
	c, err := encoding.DefaultFactory().Get("latin1+utf16")
	if err != nil {
		return err
	}
	return c.Encode(dst, src)
}
func P12_spec_encode_dynamic(dst stdio.Writer, src stdio.Reader) error {
	return encodeBy(charmap.ISO8859_1, dst, src)
}

func P12_impl_decode_dynamic(dst stdio.Writer, src stdio.Reader) error {
	c, err := encoding.DefaultFactory().Get("latin1+utf16")
	if err != nil {
		return err
	}
	return c.Decode(dst, src)
}
func P12_spec_decode_dynamic(dst stdio.Writer, src stdio.Reader) error {
	return decodeBy(charmap.ISO8859_1, dst, src)
}

func P12_impl_codec_utf16() (encoding.Encoding, int, int) {
	c := encoding.NewUTF16()
	return c.Encoding(), c.Alignment(), c.RuneSize()
}
func P12_spec_codec_utf16() (encoding.Encoding, int, int) { return "utf-16", 2, 2 }

func P12_impl_encode_utf16(dst stdio.Writer, src stdio.Reader) error {
	c, err := encoding.DefaultFactory().Get("utf-16")
	if err != nil {
		return err
	}
	return c.Encode(dst, src)
}
func P12_spec_encode_utf16(dst stdio.Writer, src stdio.Reader) error {
	return encodeBy(unicode.UTF16(unicode.LittleEndian, unicode.IgnoreBOM), dst, src)
}

func P12_impl_decode_utf16(dst stdio.Writer, src stdio.Reader) error {
	c, err := encoding.DefaultFactory().Get("utf-16")
	if err != nil {
		return err
	}
	return c.Decode(dst, src)
}
func P12_spec_decode_utf16(dst stdio.Writer, src stdio.Reader) error {
	return decodeBy(unicode.UTF16(unicode.LittleEndian, unicode.IgnoreBOM), dst, src)
}

func P12_impl_codec_utf16le() (encoding.Encoding, int, int) {
	c := encoding.NewUTF16WithEndianess(unicode.LittleEndian)
	return c.Encoding(), c.Alignment(), c.RuneSize()
}
func P12_spec_codec_utf16le() (encoding.Encoding, int, int) { return "utf-16-le", 2, 2 }

func P12_impl_encode_utf16le(dst stdio.Writer, src stdio.Reader) error {
	c, err := encoding.DefaultFactory().Get("utf-16-le")
	if err != nil {
		return err
	}
	return c.Encode(dst, src)
}
func P12_spec_encode_utf16le(dst stdio.Writer, src stdio.Reader) error {
	return encodeBy(unicode.UTF16(unicode.LittleEndian, unicode.IgnoreBOM), dst, src)
}

func P12_impl_decode_utf16le(dst stdio.Writer, src stdio.Reader) error {
	c, err := encoding.DefaultFactory().Get("utf-16-le")
	if err != nil {
		return err
	}
	return c.Decode(dst, src)
}
func P12_spec_decode_utf16le(dst stdio.Writer, src stdio.Reader) error {
	return decodeBy(unicode.UTF16(unicode.LittleEndian, unicode.IgnoreBOM), dst, src)
}

func P12_impl_codec_utf16be() (encoding.Encoding, int, int) {
	c := encoding.NewUTF16WithEndianess(unicode.BigEndian)
	return c.Encoding(), c.Alignment(), c.RuneSize()
}
func P12_spec_codec_utf16be() (encoding.Encoding, int, int) { return "utf-16-be", 2, 2 }

func P12_impl_encode_utf16be(dst stdio.Writer, src stdio.Reader) error {
	c, err := encoding.DefaultFactory().Get("utf-16-be")
	if err != nil {
		return err
	}
	return c.Encode(dst, src)
}
func P12_spec_encode_utf16be(dst stdio.Writer, src stdio.Reader) error {
	return encodeBy(unicode.UTF16(unicode.BigEndian, unicode.IgnoreBOM), dst, src)
}

func P12_impl_decode_utf16be(dst stdio.Writer, src stdio.Reader) error {
	c, err := encoding.DefaultFactory().Get("utf-16-be")
	if err != nil {
		return err
	}
	return c.Decode(dst, src)
}
func P12_spec_decode_utf16be(dst stdio.Writer, src stdio.Reader) error {
	return decodeBy(unicode.UTF16(unicode.BigEndian, unicode.IgnoreBOM), dst, src)
}

func anyEncodeBy(e encoding.Encoder, s string) ([]byte, error) { return nil, nil }

//vc:replace encoding.EncodeString=anyEncodeBy
func P12_impl_transcode(cx *types.CallContext, s string, units, size, align uint32, e encoding.Encoder) (uint32, uint32, error) {
	assume(align >= 1)
	return io.StoreStringCopy(cx, s, units, size, align, e)
}
func P12_spec_transcode(cx *types.CallContext, s string, units, size, align uint32, e encoding.Encoder) (uint32, uint32, error) {
	assume(align >= 1)
	n := uint64(units) * uint64(size)
	if n > 1<<31-1 {
		return 0, 0, reject()
	}
	ptr, err := cx.Options.Realloc(0, 0, align, uint32(n))
	if err != nil {
		return 0, 0, err
	}
	if a, err := io.AlignTo(ptr, align); err != nil || a != ptr {
		return 0, 0, reject()
	}
	if !inMem(cx, ptr, n) {
		return 0, 0, reject()
	}
	b, err := anyEncodeBy(e, s)
	if err != nil {
		return 0, 0, err
	}
	copy(cx.Options.Memory.Bytes()[ptr:uint64(ptr)+n], b)
	return ptr, units, nil
}

//vc:replace encoding.EncodeString=encodeNamed
func P12_impl_widen(cx *types.CallContext, s string, units uint32) (uint32, uint32, error) {
	return io.StoreUtf8ToUtf16(cx, s, units)
}
func P12_spec_widen(cx *types.CallContext, s string, units uint32) (uint32, uint32, error) {
	n := uint64(units) * 2
	if n > 1<<31-1 {
		return 0, 0, reject()
	}
	ptr, err := cx.Options.Realloc(0, 0, 2, uint32(n))
	if err != nil {
		return 0, 0, err
	}
	if ptr%2 != 0 || !inMem(cx, ptr, n) {
		return 0, 0, reject()
	}
	b, err := anyEncode("utf-16", s)
	if err != nil {
		return 0, 0, err
	}
	copy(cx.Options.Memory.Bytes()[ptr:uint64(ptr)+n], b)
	if uint64(len(b)) < n {
		ptr, err = cx.Options.Realloc(ptr, uint32(n), 2, uint32(len(b)))
		if err != nil {
			return 0, 0, err
		}
		if ptr%2 != 0 || !inMem(cx, ptr, uint64(len(b))) {
			return 0, 0, reject()
		}
	}
	return ptr, uint32(len(b) / 2), nil
}
