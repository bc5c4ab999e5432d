H = '''package %s_test

import (
	"testing"
%s)
'''
def imp(pkg, *ps):
    return H % (pkg, "".join('\t"%s"\n' % p for p in ps))
M = "github.com/patrickhuber/go-wasm/"
SEEDS = []
def seed(**k): SEEDS.append(k)

seed(id="s02-join-floats", property="P02", pkg="abi/io",
  needs="a variant with a float32 payload in one case and a float64 payload in another",
  breaks="the joined slot of f32 and f64 flattens to f64 instead of i64",
  edits=[("abi/io/flatten.go", "		return kind.U32\n	default:", "		return kind.U32\n	case a == kind.Float64 && b == kind.Float32:\n		return kind.Float64\n	default:")],
  test=imp("io", M+"abi/io", M+"abi/types", M+"abi/kind") + '''
func TestDemo(t *testing.T) {
	ks, err := io.FlattenType(types.NewUnion(types.NewF64(), types.NewF32()))
	if err != nil {
		t.Fatal(err)
	}
	if len(ks) != 2 || ks[1] != kind.U64 {
		t.Fatalf("got %v", ks)
	}
}
''')
seed(id="s03-free-early", property="P14", pkg="abi/types",
  needs="a failed removal of a lent handle followed by an addition",
  breaks="removing a handle that is lent out puts its index on the free list although the handle stays live",
  edits=[("abi/types/handle.go", '''	// open handles?
	if h.LendCount != 0 {
		return nil, TrapWith("handle table end count != 0")
	}
	ht.Array[i] = nil
	ht.Free = stack.Push(ht.Free, i)
''', '''	ht.Free = stack.Push(ht.Free, i)

	// open handles?
	if h.LendCount != 0 {
		return nil, TrapWith("handle table end count != 0")
	}
	ht.Array[i] = nil
''')],
  test=imp("types", M+"abi/types") + '''
func TestDemo(t *testing.T) {
	ht := &types.HandleTable{}
	rt := types.NewResourceType(nil, nil)
	i, _ := ht.Add(&types.HandleElem{Rep: 1, Own: true, LendCount: 1})
	if _, err := ht.Remove(rt, i); err == nil {
		t.Fatal("expected a trap")
	}
	j, err := ht.Add(&types.HandleElem{Rep: 2, Own: true})
	if err != nil || j == i {
		t.Fatalf("index %d, %v", j, err)
	}
}
''')
seed(id="s05-lender-leak", property="P15", pkg="abi/types",
  needs="the same handle lent twice during one call",
  breaks="a handle lent twice in one call is recorded once, so a loan is never returned",
  edits=[("abi/types/context.go", "	cx.Lenders = append(cx.Lenders, lendingHandle)", '''	for _, h := range cx.Lenders {
		if h == lendingHandle {
			return
		}
	}
	cx.Lenders = append(cx.Lenders, lendingHandle)''')],
  test=imp("types", M+"abi/types") + '''
func TestDemo(t *testing.T) {
	cx := &types.CallContext{}
	h := &types.HandleElem{Own: true}
	cx.LiftBorrowFrom(h)
	cx.LiftBorrowFrom(h)
	if err := cx.ExitCall(); err != nil || h.LendCount != 0 {
		t.Fatal(err, h.LendCount)
	}
}
''')
seed(id="s04-leave-open", property="P16", pkg="abi/io",
  needs="a guest allocator that runs while a result string is being lowered",
  breaks="the instance may be left while results are lowered by CanonLower",
  edits=[("abi/io/canon_lower.go", "	inst.MayLeave = false\n	flatResults, err", "	flatResults, err")],
  test=imp("io", "bytes", M+"abi/io", M+"abi/types") + '''
func TestDemo(t *testing.T) {
	inst := &types.ComponentInstance{MayEnter: true, MayLeave: true}
	seen := true
	opts := &types.CanonicalOptions{
		Memory:         bytes.NewBuffer(make([]byte, 64)),
		StringEncoding: "utf-8",
		Realloc: func(a, b, c, d uint32) (uint32, error) {
			seen = inst.MayLeave
			return 8, nil
		},
	}
	ft := types.NewFuncType(nil, []types.Parameter{{Type: types.NewString()}})
	callee := func([]any) ([]any, types.PostReturnFunc, error) { return []any{"x"}, func() {}, nil }
	_, err := io.CanonLower(opts, inst, callee, false, ft, nil, 16, 2)
	if err != nil || seen {
		t.Fatal(err, seen)
	}
}
''')
seed(id="s07-flat-limit", property="P17", pkg="abi/io",
  needs="values whose flattened form has exactly as many items as the limit",
  breaks="values whose flattened form has exactly as many items as the limit are read from memory",
  edits=[("abi/io/canon_lift.go", "	if len(flatTypes) <= maxFlat {", "	if len(flatTypes) < maxFlat {")],
  test=imp("io", "bytes", M+"abi/io", M+"abi/types", M+"abi/values") + '''
func TestDemo(t *testing.T) {
	cx := &types.CallContext{Options: &types.CanonicalOptions{Memory: bytes.NewBuffer(make([]byte, 8))}}
	vs, err := io.LiftValues(cx, 2, values.NewIterator(values.U32(4), values.U32(5)), []types.ValType{types.NewU32(), types.NewU32()})
	if err != nil || len(vs) != 2 || vs[0] != uint32(4) || vs[1] != uint32(5) {
		t.Fatalf("got %v, %v", vs, err)
	}
}
''')
seed(id="s08-id-chars", property="P24", pkg="wat/lex",
  needs="an identifier that contains a vertical bar",
  breaks="an identifier ends at a vertical bar",
  edits=[("wat/lex/lexer.go", "	'|':  {},\n", "")],
  test=imp("lex", M+"wat/lex") + '''
func TestDemo(t *testing.T) {
	tok, err := lex.New("$a|b").Next()
	if err != nil || tok.Capture != "$a|b" {
		t.Fatal(tok, err)
	}
}
''')
seed(id="s09-cut-short", property="P22", pkg="binary",
  needs="a module cut off between the identifier and the size of a section",
  breaks="a module cut off inside a section header is accepted",
  edits=[("binary/read.go", '''	size, err := ReadLebU128(reader)
	if err != nil {
		return SectionID(0), 0, err
	}
	return SectionID(id), size, nil''', '''	size, _ := ReadLebU128(reader)
	return SectionID(id), size, nil''')],
  test=imp("binary", "bytes", M+"binary") + '''
func TestDemo(t *testing.T) {
	_, err := binary.ReadModule(bytes.NewReader([]byte{0}))
	if err == nil {
		t.Fatal("accepted")
	}
}
''')
seed(id="s10-list-align", property="P11", pkg="abi/io",
  needs="a list whose elements are larger than their alignment",
  breaks="memory for a list is requested with the size of an element as its alignment",
  edits=[("abi/io/store.go", "	ptr, err := cx.Options.Realloc(0, 0, alignment, byteLength)", "	ptr, err := cx.Options.Realloc(0, 0, size, byteLength)")],
  test=imp("io", "bytes", M+"abi/io", M+"abi/types") + '''
func TestDemo(t *testing.T) {
	var asked uint32
	cx := &types.CallContext{Options: &types.CanonicalOptions{
		Memory: bytes.NewBuffer(make([]byte, 64)),
		Realloc: func(a, b, c, d uint32) (uint32, error) {
			asked = c
			return 8, nil
		},
	}}
	_, _, err := io.StoreListIntoRange(cx, []any{map[string]any{"0": uint32(1), "1": uint32(2)}}, types.NewTuple(types.NewU32(), types.NewU32()))
	if err != nil || asked != 4 {
		t.Fatal(err, asked)
	}
}
''')
seed(id="s11-stream-end", property="P29", pkg="wit/parse",
  needs="a stream type without elements that has an end type",
  breaks="the end type of a stream without elements is recorded as its element type",
  edits=[("wit/parse/parser.go", "			expect(lexer, token.Comma).Unwrap()\n			stream.End = option.Some(parseType(lexer).Unwrap())", "			expect(lexer, token.Comma).Unwrap()\n			stream.Element = option.Some(parseType(lexer).Unwrap())")],
  test=imp("wit", "encoding/json", M+"wit/parse") + '''
func TestDemo(t *testing.T) {
	a, err := wit.Parse("interface foo { type a = stream<_, u8>; }")
	if err != nil {
		t.Fatal(err)
	}
	b, err := wit.Parse("interface foo { type a = stream<u8>; }")
	if err != nil {
		t.Fatal(err)
	}
	x, _ := json.Marshal(a)
	y, _ := json.Marshal(b)
	if string(x) == string(y) {
		t.Fatalf("%s", x)
	}
}
''')
seed(id="s12-list-comma", property="P27", pkg="wit/parse",
  needs="a list of fields in which a comma is left out",
  breaks="an item list is accepted although two items are not separated by a comma",
  edits=[("wit/parse/parser.go", '''		if !eat(lexer, token.Comma).Unwrap() {
			expect(lexer, end).Unwrap()
			break
		}
	}
	return result.Ok(itemList)''', '''		// the comma after the last item is optional
		eat(lexer, token.Comma).Unwrap()
	}
	return result.Ok(itemList)''')],
  test=imp("wit", M+"wit/parse") + '''
func TestDemo(t *testing.T) {
	_, err := wit.Parse("interface foo { record r { a: u8 b: u8 } }")
	if err == nil {
		t.Fatal("accepted")
	}
}
''')
seed(id="s13-record-cast", property="P19", pkg="abi/io",
  needs="a value that is not a record lowered as a record",
  breaks="lowering a value that is not a record as a record panics",
  edits=[("abi/io/lower.go", '''	var flat []values.Value
	vMap, ok := v.(map[string]any)
	if !ok {
		return nil, types.NewCastError(v, "map[string]any")
	}
''', '''	var flat []values.Value
	vMap := v.(map[string]any)
''')],
  test=imp("io", M+"abi/io", M+"abi/types") + '''
func TestDemo(t *testing.T) {
	_, err := io.LowerFlat(&types.CallContext{}, "x", types.NewRecord(types.Field{Label: "a", Type: types.NewU32()}))
	if err == nil {
		t.Fatal("accepted")
	}
}
''')
seed(id="s14-leb-edge", property="P20", pkg="leb128",
  needs="a value whose remaining bits are exactly 0x80",
  breaks="a value whose remaining bits are exactly 0x80 is written without its last byte",
  edits=[("leb128/encode.go", """	for {
		b := byte(value & 0b_0111_1111)
		value >>= 7
		if value != 0 {
			b |= 0b_1000_0000
		}
		err := w.WriteByte(b)
		if err != nil {
			return 0, err
		}
		total++
		if value == 0 {
			break
		}
	}
	return total, nil
""", """	for value > 0b_1000_0000 {
		err := w.WriteByte(byte(value) | 0b_1000_0000)
		if err != nil {
			return 0, err
		}
		value >>= 7
		total++
	}
	err := w.WriteByte(byte(value))
	if err != nil {
		return 0, err
	}
	return total + 1, nil
""")],
  test=imp("leb128", "bufio", "bytes", M+"leb128") + '''
func TestDemo(t *testing.T) {
	for _, want := range []uint32{0, 127, 128, 129, 1 << 14, 1 << 31} {
		var buf bytes.Buffer
		w := bufio.NewWriter(&buf)
		leb128.Encode(w, want)
		w.Flush()
		got, _, err := leb128.DecodeSlice(buf.Bytes())
		if err != nil || got != want {
			t.Fatal(want, got, err)
		}
	}
}
''')
seed(id="s15-block-results", property="P28", pkg="wat/parse",
  needs="a block whose result clause is followed by a clause that is not a result",
  breaks="a block keeps looking for result clauses with the lexer of the block, so the instruction after them loses its parenthesis",
  edits=[("wat/parse/parser.go", "		// create a new clone and continue parsing\n		clone = lexer.Clone()\n", "		// continue parsing\n		clone = lexer\n")],
  test=imp("parse", M+"wat/lex", M+"wat/parse") + '''
func TestDemo(t *testing.T) {
	_, err := parse.Parse(lex.New("(module (func (block (result i32) (i32.const 1))))"))
	if err != nil {
		t.Fatal(err)
	}
}
''')
seed(id="s16-late-leave", property="P16", pkg="abi/io",
  needs="cleanup after a call that leaves the instance",
  breaks="the instance may not be left while the cleanup after a lowered call runs",
  edits=[("abi/io/canon_lower.go", "	inst.MayLeave = true\n\n	postReturn()\n", "	postReturn()\n	inst.MayLeave = true\n\n")],
  test=imp("io", M+"abi/io", M+"abi/types") + '''
func TestDemo(t *testing.T) {
	inst := &types.ComponentInstance{MayEnter: true, MayLeave: true}
	seen := false
	callee := func([]any) ([]any, types.PostReturnFunc, error) {
		return nil, func() { seen = inst.MayLeave }, nil
	}
	_, err := io.CanonLower(&types.CanonicalOptions{}, inst, callee, false, types.NewFuncType(nil, nil), nil, 16, 1)
	if err != nil || !seen {
		t.Fatal(err, seen)
	}
}
''')
seed(id="s17-flags-edge", property="P01", pkg="abi/io",
  needs="flags with exactly 16 labels",
  breaks="flags with exactly 16 labels take four bytes",
  edits=[("abi/io/size.go", "	if n <= 16 {", "	if n < 16 {")],
  test=imp("io", M+"abi/io", M+"abi/types") + '''
func TestDemo(t *testing.T) {
	n, err := io.Size(types.NewFlags("a", "b", "c", "d", "e", "f", "g", "h", "i", "j", "k", "l", "m", "n", "o", "p"))
	if err != nil || n != 2 {
		t.Fatal(n, err)
	}
}
''')
seed(id="s18-comment-depth", property="P25", pkg="wit/lex",
  needs="a block comment that contains a star directly followed by the end of an inner comment",
  breaks="a star before the end of a block comment hides that end",
  edits=[("wit/lex/lexer.go", '''				case '*':
					if l.eat('/').Unwrap() {
						depth--
					}
''', '''				case '*':
					r, ok = l.readRune().Deconstruct()
					if ok && r == '/' {
						depth--
					}
''')],
  test=imp("lex", M+"wit/lex") + '''
func TestDemo(t *testing.T) {
	tok, err := lex.New("/* a **/").Next()
	if err != nil || tok.Capture != "/* a **/" {
		t.Fatal(tok, err)
	}
}
''')
seed(id="s19-column", property="P23", pkg="wat/lex",
  needs="a token that follows a line break",
  breaks="the columns of tokens after the first line count from one while those of the first line count from zero",
  edits=[("wat/lex/lexer.go", "			l.column = 0\n", "			l.column = 1\n")],
  test=imp("lex", M+"wat/lex") + '''
func TestDemo(t *testing.T) {
	l := lex.New("(\\n(")
	for {
		tok, err := l.Next()
		if err != nil {
			t.Fatal(err)
		}
		if tok.Position == 2 {
			if tok.Column != 0 {
				t.Fatal(tok.Column)
			}
			return
		}
	}
}
''')
seed(id="s21-lost-error", property="P18", pkg="abi/io",
  needs="a list with an element that cannot be stored",
  breaks="an element of a list that cannot be stored is left out without an error",
  edits=[("abi/io/store.go", """		err = Store(cx, element, elementType, ptr+u32Index*size)
		if err != nil {
			return 0, 0, err
		}
""", """		if err := Store(cx, element, elementType, ptr+u32Index*size); err != nil {
			break
		}
""")],
  test=imp("io", "bytes", M+"abi/io", M+"abi/types") + '''
func TestDemo(t *testing.T) {
	cx := &types.CallContext{Options: &types.CanonicalOptions{
		Memory:  bytes.NewBuffer(make([]byte, 64)),
		Realloc: func(a, b, c, d uint32) (uint32, error) { return 8, nil },
	}}
	_, _, err := io.StoreListIntoRange(cx, []any{map[string]any{}}, types.NewFlags("a", "b"))
	if err == nil {
		_, _, err = io.StoreListIntoRange(cx, []any{"x"}, types.NewU32())
	}
	if err == nil {
		t.Fatal("accepted")
	}
}
''')
seed(id="s22-nan-lower", property="P07", pkg="abi/io",
  needs="a negative 32-bit float that is a NaN, lowered to a flat value",
  breaks="a 32-bit NaN is lowered with its sign and payload when its sign is set",
  edits=[("abi/io/lower.go", "	f32 = CanonicalizeFloat32(f32)\n", "	if !math.Signbit(float64(f32)) {\n		f32 = CanonicalizeFloat32(f32)\n	}\n")],
  test=imp("io", "math", M+"abi/io", M+"abi/types", M+"abi/values") + '''
func TestDemo(t *testing.T) {
	for _, b := range []uint32{0x7fc00001, 0xffc00001} {
		vs, err := io.LowerFlat(&types.CallContext{}, math.Float32frombits(b), types.NewF32())
		if err != nil || math.Float32bits(float32(vs[0].(values.Float32))) != values.Float32Nan {
			t.Fatal(vs, err)
		}
	}
}
''')
seed(id="s23-char-mask", property="P06", pkg="abi/io",
  needs="a stored char with one of the upper eleven bits set",
  breaks="the upper bits of a stored char are cut off instead of being refused",
  edits=[("abi/io/load.go", "	return ConvertU32ToRune(u32)\n", "	return ConvertU32ToRune(u32 & 0x1fffff)\n")],
  test=imp("io", "bytes", M+"abi/io", M+"abi/types") + '''
func TestDemo(t *testing.T) {
	cx := &types.CallContext{Options: &types.CanonicalOptions{Memory: bytes.NewBuffer([]byte{0x41, 0, 0, 0x80})}}
	if v, err := io.Load(cx, types.NewChar(), 0); err == nil {
		t.Fatal(v)
	}
}
''')
seed(id="s24-sign-lost", property="P08", pkg="abi/io",
  needs="a negative 16-bit integer that is lowered",
  breaks="a negative 16-bit integer is lowered without extending its sign",
  edits=[("abi/io/lower.go", "	i := values.U32(s16)\n", "	i := values.U32(uint16(s16))\n")],
  test=imp("io", M+"abi/io", M+"abi/types", M+"abi/values") + '''
func TestDemo(t *testing.T) {
	vs, err := io.LowerFlat(&types.CallContext{}, int16(-2), types.NewS16())
	if err != nil || len(vs) != 1 || vs[0] != values.U32(0xfffffffe) {
		t.Fatal(vs, err)
	}
}
''')
seed(id="s26-tag-mask", property="P12", pkg="abi/io",
  needs="a tagged string of 2^28 or more code units",
  breaks="the upper bits of a code-unit count are dropped together with the encoding tag",
  edits=[("abi/io/code_units.go", "		CodeUnits: i &^ UTF16Tag,\n", "		CodeUnits: i & 0x0fffffff,\n")],
  test=imp("io", M+"abi/io") + '''
func TestDemo(t *testing.T) {
	if u := io.UInt32ToTaggedCodeUnits(0x90000001); !u.UTF16 || u.CodeUnits != 0x10000001 {
		t.Fatal(u)
	}
}
''')
seed(id="s28-empty-list", property="P05", pkg="abi/io",
  needs="an empty list whose pointer is not aligned",
  breaks="the pointer of an empty list is not required to be aligned",
  edits=[("abi/io/load.go", """	if ptr != align {
		return nil, types.TrapWith("unable to align ptr %d with %d", ptr, alignment)
""", """	if length > 0 && ptr != align {
		return nil, types.TrapWith("unable to align ptr %d with %d", ptr, alignment)
""")],
  test=imp("io", "bytes", M+"abi/io", M+"abi/types") + '''
func TestDemo(t *testing.T) {
	cx := &types.CallContext{Options: &types.CanonicalOptions{Memory: bytes.NewBuffer(make([]byte, 64))}}
	if _, err := io.LoadListFromRange(cx, 3, 0, types.NewU32()); err == nil {
		t.Fatal("accepted")
	}
}
''')
seed(id="s29-fold-export", property="P31", pkg="runtime",
  needs="exports whose names differ in case only",
  breaks="an export is found by a name that differs from its own in case",
  edits=[("runtime/instance.go", """import (
""", """import (
	"strings"

"""), ("runtime/instance.go", "		if export.Name == name {\n", "		if strings.EqualFold(export.Name, name) {\n")],
  test=imp("runtime", M+"runtime") + '''
func TestDemo(t *testing.T) {
	m := &runtime.ModuleInstance{Exports: []runtime.ExportInstance{{Name: "Run"}, {Name: "run"}}}
	if e, ok := m.GetExport("run"); !ok || e.Name != "run" {
		t.Fatal(e, ok)
	}
	if _, ok := m.GetExport("RUN"); ok {
		t.Fatal("found")
	}
}
''')

seed(id="s30-wide-zero", property="P09", pkg="abi/io",
  needs="a variant whose cases have 32-bit and 64-bit payloads, lowered without one",
  breaks="an unused 64-bit payload position of a variant is filled with a 32-bit zero",
  edits=[("abi/values/factory.go", "		return U64(0), nil\n", "		return U32(0), nil\n")],
  test=imp("io", M+"abi/io", M+"abi/types", M+"abi/values") + '''
func TestDemo(t *testing.T) {
	v := types.NewVariant(types.NewCase("a", nil), types.NewCase("b", types.NewU64()))
	vs, err := io.LowerFlat(&types.CallContext{}, map[string]any{"a": nil}, v)
	if err != nil || len(vs) != 2 || vs[1] != values.U64(0) {
		t.Fatalf("%T %v %v", vs[1], vs, err)
	}
}
''')
seed(id="s31-bool-ones", property="P03", pkg="abi/io",
  needs="the byte of a stored boolean to be looked at",
  breaks="a true boolean is stored as a byte of ones instead of as one",
  edits=[("abi/io/store.go", """		if b {
			v = 1
		}
		return StoreInt(c, v, ptr, SizeOfBool, false)
""", """		if b {
			v = ^v
		}
		return StoreInt(c, v, ptr, SizeOfBool, false)
""")],
  test=imp("io", "bytes", M+"abi/io", M+"abi/types") + '''
func TestDemo(t *testing.T) {
	b := make([]byte, 4)
	cx := &types.CallContext{Options: &types.CanonicalOptions{Memory: bytes.NewBuffer(b)}}
	if err := io.Store(cx, true, types.NewBool(), 1); err != nil || b[1] != 1 {
		t.Fatal(b, err)
	}
}
''')
seed(id="s32-no-borrow", property="P13", pkg="abi/io",
  needs="a borrowed handle stored in memory",
  breaks="a borrowed handle has a size but no alignment, so nothing that contains one can be stored",
  edits=[("abi/io/alignment.go", """	case types.Own:
		return 4, nil
	case types.Borrow:
		return 4, nil
	}
""", """	case types.Own:
		return 4, nil
	}
""")],
  test=imp("io", M+"abi/io", M+"abi/types") + '''
func TestDemo(t *testing.T) {
	if a, err := io.Alignment(types.NewTuple(types.NewU8(), types.NewBorrow(nil))); err != nil || a != 4 {
		t.Fatal(a, err)
	}
}
''')
seed(id="s33-type-byte", property="P21", pkg="binary",
  needs="a module in which a function has a type with an index above 255",
  breaks="the index of the type of a function is cut to one byte",
  edits=[("binary/read.go", """	return &api.Func{
		Type: api.TypeIndex(index),
""", """	return &api.Func{
		Type: api.TypeIndex(byte(index)),
""")],
  test=imp("binary", "bytes", M+"binary") + '''
func TestDemo(t *testing.T) {
	f, err := binary.ReadFunc(bytes.NewReader([]byte{0x81, 0x02}))
	if err != nil || f.Type != 257 {
		t.Fatal(f, err)
	}
}
''')
seed(id="s34-lex-end", property="P26", pkg="wit/parse",
  needs="a character that starts no token after a complete item",
  breaks="a lexing error after a top-level item ends the document instead of being reported",
  edits=[("wit/parse/parser.go", """		n.Items = append(n.Items, *item)

		tok = next(lexer).Unwrap()
	}
""", """		n.Items = append(n.Items, *item)

		following, err := next(lexer).Deconstruct()
		if err != nil {
			break
		}
		tok = following
	}
""")],
  test=imp("wit", M+"wit/parse") + '''
func TestDemo(t *testing.T) {
	if a, err := wit.Parse("interface a {} ^"); err == nil {
		t.Fatal(a)
	}
}
''')
seed(id="s35-narrow-const", property="P30", pkg="wast/parse",
  needs="a 64-bit constant of a script that does not fit in 32 bits",
  breaks="64-bit integer constants of scripts are held to the range of 32-bit ones",
  edits=[("wast/parse/parser.go", """	i, err := watparse.ParseInt64(lexer)
	return result.New(i, err)
""", """	i, err := watparse.ParseInt32(lexer)
	return result.New(int64(i), err)
""")],
  test=imp("parse", M+"wast/parse") + '''
func TestDemo(t *testing.T) {
	_, err := parse.Parse(`(assert_return (invoke "f" (i64.const 4294967296)) (i64.const 4294967296))`)
	if err != nil {
		t.Fatal(err)
	}
}
''')
seed(id="s36-body-end", property="P18", pkg="binary",
  needs="a function body that ends after an instruction without an end marker",
  breaks="the end of input within a function body is taken for the end of the body",
  edits=[("binary/read.go", """		inst, err := ReadInstruction(reader)
		if err != nil {
			return nil, err
		}
""", """		inst, err := ReadInstruction(reader)
		if errors.Is(err, io.EOF) && len(insts) > 0 {
			break
		}
		if err != nil {
			return nil, err
		}
""")],
  test=imp("binary", "bytes", M+"binary") + '''
func TestDemo(t *testing.T) {
	if e, err := binary.ReadExpression(bytes.NewReader([]byte{0x20, 0x00})); err == nil {
		t.Fatal(e)
	}
}
''')
