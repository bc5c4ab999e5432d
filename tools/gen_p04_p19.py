#!/usr/bin/env python3
"""Writes the repetitive reference pairs checker/harness/p04.go and p19.go."""
import os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
H = root + "/checker/harness/"
IMPORT = '''//go:build ignore

package zzverif

import (
%s)
'''
P = '\t"github.com/patrickhuber/go-wasm/'
scal = [("bool", "Bool", 1, "bool", "U32"), ("u8", "U8", 1, "uint8", "U32"), ("u16", "U16", 2, "uint16", "U32"),
        ("u32", "U32", 4, "uint32", "U32"), ("u64", "U64", 8, "uint64", "U64"), ("s8", "S8", 1, "int8", "U32"),
        ("s16", "S16", 2, "int16", "U32"), ("s32", "S32", 4, "int32", "U32"), ("s64", "S64", 8, "int64", "U64"),
        ("f32", "F32", 4, "float32", "Float32"), ("f64", "F64", 8, "float64", "Float64"), ("char", "Char", 4, "rune", "U32")]

def pair(prop, name, args, ret, impl, spec, ann=""):
    return "\n%sfunc %s_impl_%s(%s) %s {\n%s}\nfunc %s_spec_%s(%s) %s {\n%s}\n" % (
        ann, prop, name, args, ret, impl, prop, name, args, ret, spec)

T = "\treturn true\n"
out = [IMPORT % (P + 'abi/io"\n' + P + 'abi/types"\n' + P + 'abi/values"\n')]
out.append('''
// outside: some byte of [ptr, ptr+n) is not guest memory
func outside(cx *types.CallContext, ptr uint32, n uint64) bool {
	return n > 0 && uint64(ptr)+n > uint64(len(cx.Options.Memory.Bytes()))
}

// wildAlloc is an allocator whose areas do not lie in memory.
func withWildAlloc(cx *types.CallContext) *types.CallContext {
	mem := cx.Options.Memory
	return &types.CallContext{
		Options: &types.CanonicalOptions{
			Memory:         mem,
			StringEncoding: cx.Options.StringEncoding,
			Realloc: func(a, b, align, n uint32) (uint32, error) {
				p := anyAlloc(a, b, align, n)
				assume(n > 0 && uint64(p)+uint64(n) > uint64(len(mem.Bytes())))
				return p, nil
			},
		},
		Instance: cx.Instance,
	}
}
''')
more = [("own", "Own(rt)", 4, "rt types.ResourceType"), ("borrow", "Borrow(rt)", 4, "rt types.ResourceType"),
        ("string", "String()", 8, ""), ("list", "List(t)", 8, "t types.ValType")]
for n, c, sz, g, k in scal:
    out.append(pair("P04", "load_" + n, "cx *types.CallContext, ptr uint32", "bool",
        "\tassume(outside(cx, ptr, %d))\n\t_, err := io.Load(cx, types.New%s(), ptr)\n\treturn err != nil\n" % (sz, c), T))
    out.append(pair("P04", "store_" + n, "cx *types.CallContext, v any, ptr uint32", "bool",
        "\tassume(outside(cx, ptr, %d))\n\treturn io.Store(cx, v, types.New%s(), ptr) != nil\n" % (sz, c), T))
for n, c, sz, ex in more:
    a = "cx *types.CallContext, ptr uint32" + (", " + ex if ex else "")
    b = "cx *types.CallContext, v any, ptr uint32" + (", " + ex if ex else "")
    out.append(pair("P04", "load_" + n, a, "bool",
        "\tassume(outside(cx, ptr, %d))\n\t_, err := io.Load(cx, types.New%s, ptr)\n\treturn err != nil\n" % (sz, c), T))
    out.append(pair("P04", "store_" + n, b, "bool",
        "\tassume(outside(cx, ptr, %d))\n\treturn io.Store(cx, v, types.New%s, ptr) != nil\n" % (sz, c), T))
comp = [("record", "fs []types.Field", "Record(fs...)", "RecordImpl"), ("variant", "cs []types.Case", "Variant(cs...)", "VariantImpl"),
        ("flags", "ls []string", "Flags(ls...)", "FlagsImpl")]
for n, ex, c, im in comp:
    out.append(pair("P04", "store_" + n, "cx *types.CallContext, v any, ptr uint32, " + ex, "bool",
        "\tn, err := io.Size(types.New%s)\n\tassume(err == nil && outside(cx, ptr, uint64(n)))\n\treturn io.Store(cx, v, types.New%s, ptr) != nil\n" % (c, c), T,
        "//vc:opaquetype abi/io.Size:%s abi/io.Alignment:%s\n" % (im, im)))
    out.append(pair("P04", "load_" + n, "cx *types.CallContext, ptr uint32, " + ex, "bool",
        "\tn, err := io.Size(types.New%s)\n\tassume(err == nil && outside(cx, ptr, uint64(n)))\n\t_, err = io.Load(cx, types.New%s, ptr)\n\treturn err != nil\n" % (c, c), T,
        "//vc:opaquetype abi/io.Size:%s abi/io.Alignment:%s\n" % (im, im)))
# contents
out.append(pair("P04", "list_contents", "cx *types.CallContext, ptr, n uint32, t types.ValType", "bool",
    "\tsize, err := io.Size(t)\n\tassume(err == nil && outside(cx, ptr, uint64(n)*uint64(size)))\n\t_, err = io.LoadListFromRange(cx, ptr, n, t)\n\treturn err != nil\n", T))
out.append(pair("P04", "list_lift", "cx *types.CallContext, ptr, n uint32, t types.ValType", "bool",
    "\tsize, err := io.Size(t)\n\tassume(err == nil && outside(cx, ptr, uint64(n)*uint64(size)))\n\t_, err = io.LiftFlat(cx, values.NewIterator(values.U32(ptr), values.U32(n)), types.NewList(t))\n\treturn err != nil\n", T))
encs = [("utf8", "utf-8", "n%tag", 1), ("latin1", "latin1", "n%tag", 1), ("utf16", "utf-16", "n%tag", 2), ("utf16le", "utf-16-le", "n%tag", 2),
        ("utf16be", "utf-16-be", "n%tag", 2)]
for n, e, l, u in encs:
    for kind, call in (("contents", "_, err := io.LoadStringFromRange(cx, ptr, n)"), ("lift", "_, err := io.LiftFlat(cx, values.NewIterator(values.U32(ptr), values.U32(n)), types.NewString())")):
        out.append(pair("P04", "string_%s_%s" % (kind, n), "cx *types.CallContext, ptr, n uint32", "bool",
            '\tassume(cx.Options.StringEncoding == "%s" && outside(cx, ptr, %d*uint64(%s)))\n\t%s\n\treturn err != nil\n' % (e, u, l, call), T,
            "//vc:replace encoding.DecodeString=decodeNamed\n"))
for nm, cond, u in (("narrow", "n < tag", 1), ("wide", "n >= tag", 2)):
    out.append(pair("P04", "string_contents_dynamic_" + nm, "cx *types.CallContext, ptr, n uint32", "bool",
        '\tassume(cx.Options.StringEncoding == "latin1+utf16" && %s && outside(cx, ptr, %d*uint64(n%%tag)))\n\t_, err := io.LoadStringFromRange(cx, ptr, n)\n\treturn err != nil\n' % (cond, u), T,
        "//vc:replace encoding.DecodeString=decodeNamed\n"))
for n, e, l, u in encs + [("dynamic", "latin1+utf16", "", 1)]:
    out.append(pair("P04", "alloc_" + n, "cx *types.CallContext, s string", "bool",
        '\tassume(cx.Options.StringEncoding == "%s")\n\t_, _, err := io.StoreStringIntoRange(withWildAlloc(cx), s)\n\treturn err != nil\n' % e, T,
        "//vc:replace encoding.EncodeString=encodeNamed\n"))
out.append(pair("P04", "alloc_list", "cx *types.CallContext, v any, t types.ValType", "bool",
    "\thostList(v)\n\t_, _, err := io.StoreListIntoRange(withWildAlloc(cx), v, t)\n\treturn err != nil\n", T))
sp = "\tt := types.NewTuple(ts...)\n\tfs, err := io.FlattenTypes(ts)\n\tassume(err == nil && len(fs) > n)\n"
sz = "\tsize, err := io.Size(t)\n\tassume(err == nil && outside(cx, ptr, uint64(size)))\n"
ann = "//vc:opaquetype abi/io.Size:TupleImpl abi/io.Alignment:TupleImpl\n"
out.append(pair("P04", "lift_spilled", "cx *types.CallContext, ptr uint32, n int, ts []types.ValType", "bool",
    sp + sz + "\t_, err = io.LiftValues(cx, n, values.NewIterator(values.U32(ptr)), ts)\n\treturn err != nil\n", T, ann))
out.append(pair("P04", "lower_spilled", "cx *types.CallContext, ptr uint32, n int, vs []any, ts []types.ValType", "bool",
    sp + sz + "\t_, err = io.LowerValues(cx, n, vs, ts, values.NewIterator(values.U32(ptr)))\n\treturn err != nil\n", T, ann))
out.append(pair("P04", "alloc_spilled", "cx *types.CallContext, n int, vs []any, ts []types.ValType", "bool",
    sp.replace("\tt := types.NewTuple(ts...)\n", "") + "\t_, err = io.LowerValues(withWildAlloc(cx), n, vs, ts, nil)\n\treturn err != nil\n", T, ann))
open(H + "p04.go", "w").write("".join(out))

out = [IMPORT % (P + 'abi/io"\n' + P + 'abi/kind"\n' + P + 'abi/types"\n' + P + 'abi/values"\n')]
out.append('''
// first core value, if it is of kind k
func firstCore(vs []values.Value, k kind.Kind) (any, bool) {
	if len(vs) == 0 || vs[0].Kind() != k {
		return nil, false
	}
	return vs[0].Value(), true
}

// fits: v is a sized integer of the given sign and at most n bytes
func fits(v any, signed bool, n int) bool {
	switch x := v.(type) {
	case uint8:
		return !signed
	case uint16:
		return !signed && (n >= 2 || x < 1<<8)
	case uint32:
		return !signed && (n >= 4 || x < 1<<(8*n))
	case uint64:
		return !signed && (n >= 8 || x < 1<<(8*n))
	case int8:
		return signed
	case int16:
		return signed && (n >= 2 || x >= -1<<7 && x < 1<<7)
	case int32:
		return signed && (n >= 4 || x >= -1<<(8*n-1) && x < 1<<(8*n-1))
	case int64:
		return signed && (n >= 8 || x >= -1<<(8*n-1) && x < 1<<(8*n-1))
	}
	return false
}
''')
for n, c, sz, g, k in scal:
    out.append(pair("P19", "lower_" + n, "cx *types.CallContext, v any", "bool",
        "\t_, err := io.LowerFlat(cx, v, types.New%s())\n\treturn err == nil\n" % c, "\t_, ok := v.(%s)\n\treturn ok\n" % g))
    goty = {"U32": "uint32", "U64": "uint64", "Float32": "float32", "Float64": "float64"}[k]
    ok = "\tx, ok := firstCore(vs, kind.%s)\n\tif !ok {\n\t\treturn false\n\t}\n\t" % k
    if n == "char":
        ok += "u, ok := x.(uint32)\n\treturn ok && (u < 0xd800 || u > 0xdfff && u < 0x110000)\n"
    else:
        ok += "_, ok = x.(%s)\n\treturn ok\n" % goty
    out.append(pair("P19", "lift_" + n, "cx *types.CallContext, vs []values.Value", "bool",
        "\t_, err := io.LiftFlat(cx, values.NewIterator(vs...), types.New%s())\n\treturn err == nil\n" % c, ok))
    if n[0] in "us" and n != "string":
        ok = "\treturn fits(v, %s, %d)\n" % ("true" if n[0] == "s" else "false", sz)
    else:
        ok = "\t_, ok := v.(%s)\n\treturn ok\n" % g
    out.append(pair("P19", "store_" + n, "cx *types.CallContext, v any, ptr uint32", "bool",
        "\tassume(ptr%%%d == 0 && inMem(cx, ptr, %d))\n\treturn io.Store(cx, v, types.New%s(), ptr) == nil\n" % (sz, sz, c), ok, "//vc:resultonly\n"))
# composite host values: accepted exactly when the reference accepts them
for src, dst, args, ex, call in [
    ("P11_spec_lower_record", "lower_record", "cx, v, fs", "cx *types.CallContext, v any, fs []types.Field", "_, err := io.LowerFlat(cx, v, types.NewRecord(fs...))"),
    ("P11_spec_lower_list", "lower_list", "cx, v, t", "cx *types.CallContext, v any, t types.ValType", "_, err := io.LowerFlat(cx, v, types.NewList(t))"),
    ("P10_spec_lower", "lower_flags", "cx, v, ls", "cx *types.CallContext, v any, ls []string", "_, err := io.LowerFlat(cx, v, types.NewFlags(ls...))"),
    ("P09_spec_lower", "lower_variant", "cx, v, cs", "cx *types.CallContext, v any, cs []types.Case", "_, err := io.LowerFlat(cx, v, types.NewVariant(cs...))"),
]:
    pre = ""
    ann = "//vc:resultonly\n"
    if "list" in dst: pre = "\thostList(v)\n"
    if "flags" in dst: pre = "\tassume(len(ls) <= 64)\n"
    if "variant" in dst:
        pre = "\tassume(len(cs) <= 1<<24)\n"
        ann += "//vc:replace abi/io.MatchCase=matched\n//vc:opaquetype abi/io.FlattenType:VariantImpl\n"
    out.append(pair("P19", dst, ex, "bool", pre + "\t" + call + "\n\treturn err == nil\n", "\t_, err := %s(%s)\n\treturn err == nil\n" % (src, args), ann))
for src, dst, args, ex, call in [
    ("P11_spec_store_record", "store_record", "cx, v, ptr, fs", "cx *types.CallContext, v any, ptr uint32, fs []types.Field", "types.NewRecord(fs...)"),
    ("P11_spec_store_list", "store_list", "cx, v, ptr, t", "cx *types.CallContext, v any, ptr uint32, t types.ValType", "types.NewList(t)"),
    ("P10_spec_store", "store_flags", "cx, v, ptr, ls", "cx *types.CallContext, v any, ptr uint32, ls []string", "types.NewFlags(ls...)"),
    ("P09_spec_store", "store_variant", "cx, v, ptr, cs", "cx *types.CallContext, v any, ptr uint32, cs []types.Case", "types.NewVariant(cs...)"),
]:
    pre = ""
    ann = "//vc:resultonly\n"
    if "list" in dst: pre = "\thostList(v)\n"
    if "flags" in dst: pre = "\tassume(len(ls) <= 64)\n"
    if "record" in dst: ann += "//vc:opaquetype abi/io.Size:RecordImpl abi/io.Alignment:RecordImpl\n"
    if "variant" in dst:
        pre = "\tassume(len(cs) <= 1<<24)\n"
        ann += "//vc:replace abi/io.MatchCase=matched\n//vc:opaque abi/io.MaxCaseAlignment\n//vc:opaquetype abi/io.Size:VariantImpl abi/io.Alignment:VariantImpl\n"
    out.append(pair("P19", dst, ex, "bool", pre + "\treturn io.Store(cx, v, %s, ptr) == nil\n" % call, "\treturn %s(%s) == nil\n" % (src, args), ann))
out.append(pair("P19", "match_case", "v any, cs []types.Case", "bool", "\tassume(len(cs) <= 1<<24)\n\t_, _, err := io.MatchCase(v, cs)\n\treturn err == nil\n",
    "\tassume(len(cs) <= 1<<24)\n\t_, _, err := matchCase(v, cs, lastCase)\n\treturn err == nil\n"))
for n, ty in (("own", "Own"), ("borrow", "Borrow")):
    out.append(pair("P19", "lower_" + n, "cx *types.CallContext, v any, rt types.ResourceType", "bool",
        "\t_, ok := v.(uint32)\n\tassume(!ok)\n\t_, err := io.LowerFlat(cx, v, types.New%s(rt))\n\treturn err != nil\n" % ty, T))
    out.append(pair("P19", "store_" + n, "cx *types.CallContext, v any, rt types.ResourceType, ptr uint32", "bool",
        "\t_, ok := v.(uint32)\n\tassume(!ok)\n\treturn io.Store(cx, v, types.New%s(rt), ptr) != nil\n" % ty, T))
    out.append(pair("P19", "lift_" + n, "cx *types.CallContext, vs []values.Value, rt types.ResourceType", "bool",
        "\tassume(len(vs) == 0 || vs[0].Kind() != kind.U32)\n\t_, err := io.LiftFlat(cx, values.NewIterator(vs...), types.New%s(rt))\n\treturn err != nil\n" % ty, T, "//vc:resultonly\n"))
for n, ty in (("string", "String()"), ("list", "List(t)")):
    ex = ", t types.ValType" if n == "list" else ""
    out.append(pair("P19", "lift_%s_short" % n, "cx *types.CallContext, vs []values.Value" + ex, "bool",
        "\tassume(len(vs) < 2 || vs[0].Kind() != kind.U32 || vs[1].Kind() != kind.U32)\n\t_, err := io.LiftFlat(cx, values.NewIterator(vs...), types.New%s)\n\treturn err != nil\n" % ty, T,
        "//vc:resultonly\n//vc:replace encoding.DecodeString=decodeNamed\n"))
out.append(pair("P19", "lower_string", "cx *types.CallContext, v any", "bool",
    "\t_, ok := v.(string)\n\tassume(!ok)\n\t_, err := io.LowerFlat(cx, v, types.NewString())\n\treturn err != nil\n", T, "//vc:replace encoding.EncodeString=encodeNamed\n"))
out.append(pair("P19", "store_string", "cx *types.CallContext, v any, ptr uint32", "bool",
    "\t_, ok := v.(string)\n\tassume(!ok)\n\treturn io.Store(cx, v, types.NewString(), ptr) != nil\n", T, "//vc:replace encoding.EncodeString=encodeNamed\n"))
out.append('''
// an exhausted or ill-typed sequence of core values

func P19_impl_next(vs []values.Value, k, k2 kind.Kind) (any, any, error) {
	it := values.NewIterator(vs...)
	a, err := it.Next(k)
	if err != nil {
		return nil, nil, err
	}
	b, err := it.Next(k2)
	return a, b, err
}
func P19_spec_next(vs []values.Value, k, k2 kind.Kind) (any, any, error) {
	if len(vs) < 2 || vs[0].Kind() != k || vs[1].Kind() != k2 {
		return nil, nil, reject()
	}
	return vs[0].Value(), vs[1].Value(), nil
}
''')
open(H + "p19.go", "w").write("".join(out))
