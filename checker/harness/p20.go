//go:build ignore

package zzverif

import (
	"bufio"
	"errors"
	stdio "io"

	"github.com/patrickhuber/go-wasm/leb128"
)

// group adds the k-th 7-bit group of an unsigned 32-bit number.
func group(v uint32, b byte, k int) (uint32, bool, error) {
	if k == 4 && b > 15 {
		return 0, false, reject()
	}
	return v | uint32(b%128)<<(7*k), b < 128, nil
}

// addGroup is group with the bits summed rather than combined.
func addGroup(v uint32, b byte, k int) (uint32, bool, error) {
	if k == 4 && b > 15 {
		return 0, false, reject()
	}
	return v + uint32(b%128)<<(7*k), b < 128, nil
}

func P20_impl_slice(s []byte) (uint32, int, error) { return leb128.DecodeSlice(s) }
func P20_spec_slice(s []byte) (uint32, int, error) {
	v := uint32(0)
	for k := 0; k < len(s); k++ {
		w, last, err := group(v, s[k], k)
		if err != nil {
			return 0, 0, err
		}
		v = w
		if last {
			return v, k + 1, nil
		}
	}
	return 0, 0, reject()
}
func P20_alt_slice(s []byte) (uint32, int, error) {
	v := uint32(0)
	for k := 0; k < len(s); k++ {
		w, last, err := addGroup(v, s[k], k)
		if err != nil {
			return 0, 0, err
		}
		v = w
		if last {
			return v, k + 1, nil
		}
	}
	return 0, 0, reject()
}

func P20_impl_reader(r stdio.Reader) (uint32, int, error) { return leb128.DecodeReader(r) }
func P20_spec_reader(r stdio.Reader) (uint32, int, error) {
	v := uint32(0)
	b := make([]byte, 1)
	for k := 0; ; k++ {
		if _, err := stdio.ReadFull(r, b); err != nil {
			return 0, 0, err
		}
		w, last, err := group(v, b[0], k)
		if err != nil {
			return 0, 0, err
		}
		v = w
		if last {
			return v, k + 1, nil
		}
	}
}
func P20_alt_reader(r stdio.Reader) (uint32, int, error) {
	v := uint32(0)
	b := make([]byte, 1)
	for k := 0; ; k++ {
		if _, err := stdio.ReadFull(r, b); err != nil {
			return 0, 0, err
		}
		w, last, err := addGroup(v, b[0], k)
		if err != nil {
			return 0, 0, err
		}
		v = w
		if last {
			return v, k + 1, nil
		}
	}
}

func P20_impl_buffered(r *bufio.Reader) (uint32, int, error) { return leb128.Decode(r) }
func P20_spec_buffered(r *bufio.Reader) (uint32, int, error) {
	v := uint32(0)
	for k := 0; ; k++ {
		b, err := r.ReadByte()
		if err != nil {
			return 0, 0, err
		}
		w, last, err := group(v, b, k)
		if err != nil {
			return 0, 0, err
		}
		v = w
		if last {
			return v, k + 1, nil
		}
	}
}
func P20_alt_buffered(r *bufio.Reader) (uint32, int, error) {
	v := uint32(0)
	for k := 0; ; k++ {
		b, err := r.ReadByte()
		if err != nil {
			return 0, 0, err
		}
		w, last, err := addGroup(v, b, k)
		if err != nil {
			return 0, 0, err
		}
		v = w
		if last {
			return v, k + 1, nil
		}
	}
}

func P20_impl_encode(w *bufio.Writer, v uint32) (int, error) { return leb128.Encode(w, v) }
func P20_spec_encode(w *bufio.Writer, v uint32) (int, error) {
	k := 0
	for v >= 128 {
		if err := w.WriteByte(byte(v%128 + 128)); err != nil {
			return 0, err
		}
		v /= 128
		k++
	}
	if err := w.WriteByte(byte(v)); err != nil {
		return 0, err
	}
	return k + 1, nil
}

// a number cut short is never reported as a clean end of input
func P20_impl_truncated(r stdio.Reader) bool {
	_, _, err := leb128.DecodeReader(r)
	return errors.Is(err, stdio.EOF)
}
func P20_spec_truncated(r stdio.Reader) bool {
	P20_spec_reader(r)
	return false
}
