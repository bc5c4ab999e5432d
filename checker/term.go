package main

import (
	"fmt"
	"go/types"
	"math/big"
	"sort"
	"strconv"
	"strings"
	"time"
)

// Term is an immutable, hash-consed abstract value. Integers (and the exact
// rationals that int->float conversions produce) are polynomials: op "lin"
// with constant c and coefficients ks over the atoms in args. Every other op
// is an atom for arithmetic purposes.
type Term struct {
	id    int
	op    string
	aux   string
	typ   types.Type
	args  []*Term
	c     *big.Rat
	ks    []*big.Rat
	obj   any
	lo    *big.Rat
	hi    *big.Rat
	ite   int8
	fixed int8 // sameLength: 0 not asked, 1 no, else 2 + slots
	hasmu int8
	not   *Term
	flat  bool // no ite below an arithmetic operation
}

var (
	internTab = map[string]*Term{}
	termSeq   int
	typeKeys  = map[types.Type]string{}
)

func typeKey(t types.Type) string {
	if t == nil {
		return ""
	}
	if s, ok := typeKeys[t]; ok {
		return s
	}
	s := types.TypeString(t, nil)
	typeKeys[t] = s
	return s
}

var internBuf []byte

// The work spent on one comparison is bounded; beyond the bound it is undecided.
var (
	work      int
	workMax   = 60_000_000
	workUntil = time.Now().Add(300 * time.Second)
	runUntil  = time.Now().Add(720 * time.Second)
)

func tick() {
	work++
	if work&0xfff != 0 {
		return
	}
	if work > workMax || len(internTab) > 12_000_000 {
		panic(undecided{"analysis budget exceeded"})
	}
	if work&0xffff == 0 {
		if now := time.Now(); now.After(workUntil) || now.After(runUntil) {
			panic(undecided{"analysis time exceeded"})
		}
	}
}

func intern(t *Term) *Term {
	tick()
	b := internBuf[:0]
	b = append(b, t.op...)
	b = append(b, '|')
	b = append(b, t.aux...)
	b = append(b, '|')
	b = append(b, typeKey(t.typ)...)
	b = append(b, '|')
	if t.c != nil {
		b = appendRat(b, t.c)
	}
	for i, a := range t.args {
		b = append(b, ',')
		if t.ks != nil {
			b = appendRat(b, t.ks[i])
			b = append(b, '*')
		}
		b = strconv.AppendInt(b, int64(a.id), 36)
	}
	if t.obj != nil {
		b = fmt.Appendf(b, "|%p", t.obj)
	}
	internBuf = b
	if x, ok := internTab[string(b)]; ok {
		return x
	}
	termSeq++
	t.id = termSeq
	internTab[string(b)] = t
	return t
}

func appendRat(b []byte, r *big.Rat) []byte {
	if r.IsInt() {
		if n := r.Num(); n.IsInt64() {
			return strconv.AppendInt(b, n.Int64(), 10)
		}
	}
	return append(b, r.RatString()...)
}

func app(op, aux string, typ types.Type, args ...*Term) *Term {
	return intern(&Term{op: op, aux: aux, typ: typ, args: args})
}

var (
	tTrue  = app("true", "", nil)
	tFalse = app("false", "", nil)
	tNil   = app("nil", "", nil)
	tTop   = app("top", "", nil)
)

func mkBool(b bool) *Term {
	if b {
		return tTrue
	}
	return tFalse
}
func mkStr(s string) *Term { return app("str", s, nil) }

func sym(name string, typ types.Type) *Term { return app("sym", name, typ) }

// ---- polynomials ----

func rat(i int64) *big.Rat { return new(big.Rat).SetInt64(i) }

func mkInt(i int64) *Term      { return mkRat(rat(i)) }
func mkRat(r *big.Rat) *Term   { return intern(&Term{op: "lin", c: r}) }
func mkBig(i *big.Int) *Term   { return mkRat(new(big.Rat).SetInt(i)) }
func isConst(t *Term) bool     { return t.op == "lin" && len(t.args) == 0 }
func constOf(t *Term) *big.Rat { return t.c }

func constInt(t *Term) (int64, bool) {
	if isConst(t) && t.c.IsInt() && t.c.Num().IsInt64() {
		return t.c.Num().Int64(), true
	}
	return 0, false
}

type poly struct {
	c *big.Rat
	m map[*Term]*big.Rat
}

func toPoly(t *Term) poly {
	p := poly{new(big.Rat), map[*Term]*big.Rat{}}
	if t.op == "lin" {
		p.c.Set(t.c)
		for i, a := range t.args {
			p.m[a] = t.ks[i]
		}
		return p
	}
	p.m[t] = rat(1)
	return p
}

func (p poly) term() *Term {
	var as []*Term
	for _, a := range p.atoms() {
		k := p.m[a]
		if k.Sign() != 0 {
			as = append(as, a)
		}
	}
	sort.Slice(as, func(i, j int) bool { return as[i].id < as[j].id })
	if len(as) == 1 && p.c.Sign() == 0 && p.m[as[0]].Cmp(rat(1)) == 0 {
		return as[0]
	}
	ks := make([]*big.Rat, len(as))
	for i, a := range as {
		ks[i] = p.m[a]
	}
	if len(as) == 0 {
		return mkRat(p.c)
	}
	return intern(&Term{op: "lin", c: p.c, args: as, ks: ks})
}

func addScaled(a, b *Term, k *big.Rat) *Term {
	p := toPoly(a)
	q := toPoly(b)
	p.c = new(big.Rat).Add(p.c, new(big.Rat).Mul(q.c, k))
	for t, c := range q.m {
		n := new(big.Rat).Mul(c, k)
		if o, ok := p.m[t]; ok {
			n.Add(n, o)
		}
		p.m[t] = n
	}
	return p.term()
}
func add(a, b *Term) *Term            { return addScaled(a, b, rat(1)) }
func sub(a, b *Term) *Term            { return addScaled(a, b, rat(-1)) }
func addc(a *Term, c int64) *Term     { return add(a, mkInt(c)) }
func neg(a *Term) *Term               { return addScaled(mkInt(0), a, rat(-1)) }
func scale(a *Term, k *big.Rat) *Term { return addScaled(mkInt(0), a, k) }

func mulAtoms(a, b *Term) *Term {
	var fs []*Term
	for _, x := range []*Term{a, b} {
		if x.op == "mul" {
			fs = append(fs, x.args...)
		} else {
			fs = append(fs, x)
		}
	}
	// pow2(x)*pow2(y) = pow2(x+y)
	var rest []*Term
	var pw *Term
	for _, f := range fs {
		if f.op == "pow2" {
			if pw == nil {
				pw = f.args[0]
			} else {
				pw = add(pw, f.args[0])
			}
			continue
		}
		rest = append(rest, f)
	}
	if pw != nil {
		rest = append(rest, pow2(pw))
	}
	sort.Slice(rest, func(i, j int) bool { return rest[i].id < rest[j].id })
	if len(rest) == 1 {
		return rest[0]
	}
	return app("mul", "", nil, rest...)
}

// pow2 of a non-negative integer exponent polynomial
func pow2(e *Term) *Term {
	if n, ok := constInt(e); ok && n >= 0 && n < 4096 {
		return mkBig(new(big.Int).Lsh(big.NewInt(1), uint(n)))
	}
	p := toPoly(e)
	if p.c.Sign() > 0 && p.c.IsInt() && p.c.Num().Int64() < 4096 {
		k := new(big.Int).Lsh(big.NewInt(1), uint(p.c.Num().Int64()))
		p.c = new(big.Rat)
		return scale(app("pow2", "", nil, p.term()), new(big.Rat).SetInt(k))
	}
	return app("pow2", "", nil, e)
}

func mul(a, b *Term) *Term {
	if isConst(a) {
		return scale(b, a.c)
	}
	if isConst(b) {
		return scale(a, b.c)
	}
	p, q := toPoly(a), toPoly(b)
	if len(p.m) > 6 || len(q.m) > 6 {
		x, y := a, b
		if x.id > y.id {
			x, y = y, x
		}
		return app("mul", "", nil, x, y)
	}
	r := mkRat(new(big.Rat).Mul(p.c, q.c))
	for t, c := range q.m {
		r = add(r, scale(t, new(big.Rat).Mul(p.c, c)))
	}
	for _, t := range p.atoms() {
		c := p.m[t]
		r = add(r, scale(t, new(big.Rat).Mul(q.c, c)))
		for u, d := range q.m {
			r = add(r, scale(mulAtoms(t, u), new(big.Rat).Mul(c, d)))
		}
	}
	return r
}

// ---- traversal ----

// substitute rebuilds t with f applied bottom-up to leaves; f returns nil to
// keep a term. Constructors are re-applied so normal forms are preserved.
func subst(t *Term, m map[*Term]*Term, memo map[*Term]*Term) *Term {
	if len(m) == 0 {
		return t
	}
	if r, ok := m[t]; ok {
		return r
	}
	if len(t.args) == 0 {
		return t
	}
	if r, ok := memo[t]; ok {
		return r
	}
	nargs := make([]*Term, len(t.args))
	ch := false
	inner, lo, hi := shadow(t, m)
	imemo := memo
	if inner != nil {
		imemo = map[*Term]*Term{}
	}
	for i, a := range t.args {
		if inner != nil && lo <= i && i < hi {
			nargs[i] = subst(a, inner, imemo)
		} else {
			nargs[i] = subst(a, m, memo)
		}
		if nargs[i] != a {
			ch = true
		}
	}
	r := t
	if ch {
		r = rebuild(t, nargs)
	}
	memo[t] = r
	return r
}

// scope returns the height of a binder and its arguments in which its
// variables are bound.
func scope(t *Term) (h, lo, hi int) {
	switch t.op {
	case "comp":
		return int(mustInt(t.aux)), 1, 2
	case "mu":
		n, h, _ := muParts(t)
		return h, 0, 1 + n
	}
	return 0, 0, 0
}

// shadow: a binder hides variables of its own name; returns the substitution
// that applies inside it, or nil if nothing is hidden.
func shadow(t *Term, m map[*Term]*Term) (map[*Term]*Term, int, int) {
	if t.op != "comp" && t.op != "mu" {
		return nil, 0, 0
	}
	h, lo, hi := scope(t)
	hit := false
	for k := range m {
		if k.op == "bv" && bvHeight(k) == h {
			hit = true
			break
		}
	}
	if !hit {
		return nil, 0, 0
	}
	r := map[*Term]*Term{}
	for k, v := range m {
		if k.op != "bv" || bvHeight(k) != h {
			r[k] = v
		}
	}
	return r, lo, hi
}

func bvHeight(t *Term) int {
	i := strings.IndexByte(t.aux, '@')
	return int(mustInt(t.aux[i+1:]))
}

// openTerm: a variable occurs outside the scope of its binder.
func openTerm(t *Term) bool { return len(freeVars(t)) > 0 }

var freeMemo = map[*Term]map[int]bool{}

func freeVars(t *Term) map[int]bool {
	if r, ok := freeMemo[t]; ok {
		return r
	}
	var r map[int]bool
	put := func(h int) {
		if r == nil {
			r = map[int]bool{}
		}
		r[h] = true
	}
	if t.op == "bv" {
		put(bvHeight(t))
	}
	h, lo, hi := scope(t)
	for i, a := range t.args {
		for x := range freeVars(a) {
			if !(lo <= i && i < hi && x == h) {
				put(x)
			}
		}
	}
	freeMemo[t] = r
	return r
}

func rebuild(t *Term, args []*Term) *Term {
	switch t.op {
	case "lin":
		r := mkRat(t.c)
		for i, a := range args {
			r = add(r, scale(a, t.ks[i]))
		}
		return r
	case "mul":
		r := args[0]
		for _, a := range args[1:] {
			r = mul(r, a)
		}
		return r
	case "pow2":
		return pow2(args[0])
	case "wrap":
		return wrapTerm(t.aux, args[0], nil)
	case "shr":
		return shr(args[0], args[1], nil)
	case "fdiv":
		return floorDiv(args[0], args[1], nil)
	case "rem":
		if isConst(args[1]) && args[1].c.Sign() > 0 && noFacts.entails(args[0]) {
			return addScaled(args[0], floorDiv(args[0], args[1], nil), new(big.Rat).Neg(args[1].c))
		}
	case "or":
		return orTerm(args[0], args[1], nil)
	case "and":
		return andTerm(args[0], args[1], nil)
	case "not":
		return mkNot(args[0])
	case "ge0":
		return mkGe0(args[0])
	case "eq0":
		return mkEq0(args[0])
	case "eq":
		return mkEq(args[0], args[1])
	case "isnil":
		return mkIsNil(args[0])
	case "upd":
		if t.typ != nil && args[2] == app("idx", "", t.typ, args[0], args[1]) {
			return args[0]
		}
	case "idx":
		return seqIndex(args[0], args[1], t.typ, nil)
	case "len":
		if t.aux == "" {
			return seqLen(args[0])
		}
	case "cat":
		return seqCat(args...)
	case "sub":
		return seqSub(args[0], args[1], args[2], nil)
	case "ite":
		return mkIte(args[0], args[1], args[2])
	case "comp":
		return mkComp(args[0], args[1], int(mustInt(t.aux)))
	case "field":
		return fieldOf(args[0], int(mustInt(t.aux)), t.typ)
	case "conv":
		if t.aux == "string" && args[0].op == "seq" && len(args[0].args) == 0 {
			return mkStr("")
		}
	case "hist":
		return histTerm(args[0], t.aux, args[1], t.typ)
	case "alignup":
		return alignUp(args[0], args[1])
	case "byteof":
		return byteOf(args[0], int(mustInt(t.aux)))
	}
	return intern(&Term{op: t.op, aux: t.aux, typ: t.typ, args: args, c: t.c, ks: t.ks, obj: t.obj})
}

func mustInt(s string) int64 {
	var n int64
	fmt.Sscanf(s, "%d", &n)
	return n
}

// contains reports whether pred holds for some subterm.
func contains(t *Term, pred func(*Term) bool, seen map[*Term]bool) bool {
	if seen[t] {
		return false
	}
	seen[t] = true
	if pred(t) {
		return true
	}
	for _, a := range t.args {
		if contains(a, pred, seen) {
			return true
		}
	}
	return false
}
func has(t *Term, pred func(*Term) bool) bool { return contains(t, pred, map[*Term]bool{}) }

// ---- printing ----

func (t *Term) String() string { return t.str(0) }

func (t *Term) str(d int) string {
	if d > strDepth {
		return "…"
	}
	switch t.op {
	case "lin":
		var ps []string
		for i, a := range t.args {
			k := t.ks[i]
			switch {
			case k.Cmp(rat(1)) == 0:
				ps = append(ps, a.str(d+1))
			case k.Cmp(rat(-1)) == 0:
				ps = append(ps, "-"+a.str(d+1))
			default:
				ps = append(ps, k.RatString()+"·"+a.str(d+1))
			}
		}
		if t.c.Sign() != 0 || len(ps) == 0 {
			ps = append(ps, t.c.RatString())
		}
		s := strings.Join(ps, "+")
		if len(ps) > 1 {
			s = "(" + s + ")"
		}
		return s
	case "sym":
		return t.aux
	case "str":
		return fmt.Sprintf("%q", t.aux)
	case "ge0":
		return t.args[0].str(d+1) + "≥0"
	case "eq0":
		return t.args[0].str(d+1) + "=0"
	case "eq":
		return t.args[0].str(d+1) + "==" + t.args[1].str(d+1)
	case "not":
		return "¬(" + t.args[0].str(d+1) + ")"
	case "iface":
		return shortType(t.typ) + "{" + t.args[0].str(d+1) + "}"
	case "nil", "true", "false", "top":
		return t.op
	}
	var ps []string
	for _, a := range t.args {
		ps = append(ps, a.str(d+1))
	}
	n := t.op
	if t.aux != "" {
		n += ":" + t.aux
	}
	if t.typ != nil && (t.op == "new" || t.op == "as" || t.op == "typeis" || t.op == "struct") {
		n += "<" + shortType(t.typ) + ">"
	}
	if len(ps) == 0 {
		return n
	}
	return n + "(" + strings.Join(ps, ",") + ")"
}

func shortType(t types.Type) string {
	if t == nil {
		return "?"
	}
	return types.TypeString(t, func(p *types.Package) string { return p.Name() })
}

// atoms lists the non-constant parts of a sum in a fixed order.
func (p poly) atoms() []*Term {
	if len(p.m) == 0 {
		return nil
	}
	as := make([]*Term, 0, len(p.m))
	for a := range p.m {
		as = append(as, a)
	}
	if len(as) > 1 {
		sort.Slice(as, func(i, j int) bool { return as[i].id < as[j].id })
	}
	return as
}

var strDepth = envInt("VC_DEPTH", 7)

var baseTerms map[string]*Term
var baseSeq int

// resetTerms forgets every term built since the program started, so that one
// comparison cannot influence the next.
func resetTerms(w *World) {
	if baseTerms == nil {
		baseTerms = map[string]*Term{}
		for k, t := range internTab {
			baseTerms[k] = t
		}
		baseSeq = termSeq
	}
	internTab = map[string]*Term{}
	for k, t := range baseTerms {
		internTab[k] = t
	}
	termSeq = baseSeq
	work, workUntil = 0, time.Now().Add(100*time.Second)
	iteMemo = map[iteKey]*Term{}
	constrainMemo = map[[2]*Term]*Term{}
	fmMemo = map[string]bool{}
	diagSizes = map[*Term]int{}
	slotLen = map[*Term]*Term{}
	noFacts = newFactSet()
	w.globalObjs = map[string]*Term{}
	w.consts = nil
	kendMemo = map[*Term][]*Term{}
	freeMemo = map[*Term]map[int]bool{}
}
