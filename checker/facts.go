package main

import (
	"fmt"
	"go/types"
	"math"
	"math/big"
	"sort"
	"strconv"
	"strings"
)

// ---- integer kinds ----

func intKind(t types.Type) (string, bool) {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return "", false
	}
	switch b.Kind() {
	case types.Int8:
		return "s8", true
	case types.Int16:
		return "s16", true
	case types.Int32:
		return "s32", true
	case types.Int64, types.Int, types.UntypedInt:
		return "s64", true
	case types.Uint8:
		return "u8", true
	case types.Uint16:
		return "u16", true
	case types.Uint32:
		return "u32", true
	case types.Uint64, types.Uint, types.Uintptr:
		return "u64", true
	case types.UntypedRune:
		return "s32", true
	}
	return "", false
}

func isFloat(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsFloat != 0
}
func isBoolT(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsBoolean != 0
}
func isStringT(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

func kindWidth(k string) (w uint, signed bool) {
	n, err := strconv.Atoi(k[1:])
	if err != nil || n <= 0 {
		n = 64
	}
	return uint(n), k[0] == 's'
}

func bpow(n uint) *big.Rat {
	return new(big.Rat).SetInt(new(big.Int).Lsh(big.NewInt(1), n))
}

func kindRange(k string) (lo, hi *big.Rat) {
	w, s := kindWidth(k)
	if s {
		h := bpow(w - 1)
		return new(big.Rat).Neg(h), new(big.Rat).Sub(h, rat(1))
	}
	return rat(0), new(big.Rat).Sub(bpow(w), rat(1))
}

var maxLen = bpow(48)

// ---- fact sets ----

type FactSet struct {
	all   []*Term
	eqall []*Term // those of all that are equalities
	set   map[*Term]bool
	ge    []*Term // L >= 0
	ne    []*Term // L != 0
	cl    []*Term // boolean diagrams known to hold
	unsat bool
	memo  map[*Term]int8
	rmemo map[*Term]*Term
	smemo map[*Term]*Term
	mmemo map[*Term]*Term
	kids  map[*Term]*FactSet
	eqs   map[*Term]*Term // solved equalities
	lits  *FactSet
	deep  int8 // contradictory: 1 yes, -1 no, 0 not asked
}

var noFacts = newFactSet()

func newFactSet() *FactSet {
	return &FactSet{set: map[*Term]bool{}, memo: map[*Term]int8{}, rmemo: map[*Term]*Term{}, smemo: map[*Term]*Term{}, mmemo: map[*Term]*Term{}, kids: map[*Term]*FactSet{}}
}

func (f *FactSet) clone() *FactSet {
	n := newFactSet()
	n.all = append([]*Term(nil), f.all...)
	n.eqall = f.eqall[:len(f.eqall):len(f.eqall)]
	n.ge = append([]*Term(nil), f.ge...)
	n.ne = append([]*Term(nil), f.ne...)
	n.cl = append([]*Term(nil), f.cl...)
	n.unsat = f.unsat
	if len(f.eqs) > 0 {
		n.eqs = make(map[*Term]*Term, len(f.eqs)+1)
		for k, v := range f.eqs {
			n.eqs[k] = v
		}
	}
	for k, v := range f.set {
		n.set[k] = v
	}
	return n
}

// with returns the facts extended by an atom or its negation.
func (f *FactSet) with(cond *Term) *FactSet {
	if cond == tTrue || f.set[cond] {
		return f
	}
	if cond.op == "ite" {
		return f.withCond(cond)
	}
	if n, ok := f.kids[cond]; ok {
		return n
	}
	n := f.clone()
	if f.decide(cond) == -1 {
		n.unsat = true
	}
	n.addFact(cond)
	n.propagate(cond)
	f.kids[cond] = n
	return n
}

// literals is the fact set without its larger clauses.
func (f *FactSet) literals() *FactSet {
	if f.lits != nil {
		return f.lits
	}
	var small []*Term
	for _, c := range f.cl {
		if diagSize(c) <= 8 {
			small = append(small, c)
		}
	}
	if len(small) == len(f.cl) {
		return f
	}
	n := f.clone()
	n.cl = small
	f.lits = n
	return n
}

var diagSizes = map[*Term]int{}

// diagSize counts the decisions in a diagram, up to a bound.
func diagSize(t *Term) int {
	if t.op != "ite" {
		return 0
	}
	if n, ok := diagSizes[t]; ok {
		return n
	}
	n := 1 + diagSize(t.args[1]) + diagSize(t.args[2])
	if n > 1000 {
		n = 1000
	}
	diagSizes[t] = n
	return n
}

// contradictory re-examines the facts modulo the equalities among them. It is
// only consulted where two values differ, since it is dear.
func (f *FactSet) contradictory() bool {
	if f.unsat {
		return true
	}
	if f.deep != 0 {
		return f.deep > 0
	}
	f.deep = -1
	n := f.literals().clone()
	for _, c := range f.all {
		for _, q := range entailedEqualities(c, n) {
			n = n.with(q).clone()
		}
	}
	for round := 0; round < 3; round++ {
		before := len(n.all)
		for _, c := range append(append([]*Term(nil), n.all...), f.cl...) {
			r := restrict(n.simplify(restrict(hoist(n.resolve(restrictMu(c, n))), n), n.smemo), n)
			if r.op == "ite" {
				r = restrict(hoist(n.resolve(r)), n)
			}
			if n.set[r] {
				continue
			}
			if r == tFalse || decideB(r, n) == -1 {
				f.deep = 1
				return true
			}
			n = n.withCond(r).literals()
			if n.unsat {
				f.deep = 1
				return true
			}
		}
		if len(n.all) == before {
			break
		}
	}
	for _, l := range n.ge {
		if n.entails(addc(neg(l), -1)) {
			f.deep = 1
			return true
		}
	}
	for _, l := range n.ne {
		if n.entails(l) && n.entails(neg(l)) {
			f.deep = 1
			return true
		}
	}
	// a fact about a value that depends on an open decision: either way
	if caseSplits < 2 {
		caseSplits++
		defer func() { caseSplits-- }()
		tried := 0
		for _, c := range n.all {
			v := openDecision(c, n)
			if v == nil {
				continue
			}
			if n.with(v).contradictory() && n.with(mkNot(v)).contradictory() {
				f.deep = 1
				return true
			}
			if tried++; tried == 2 {
				break
			}
		}
	}
	return false
}

var caseSplits int

// entailedEqualities are the equalities t decides on that follow from f.
func entailedEqualities(t *Term, f *FactSet) (r []*Term) {
	if !hasIte(t) || t.op == "mu" || t.op == "comp" {
		return nil
	}
	if t.op == "ite" && t.args[0].op == "eq0" && !f.set[t.args[0]] && f.decide(t.args[0]) == 1 {
		r = append(r, t.args[0])
	}
	for _, a := range t.args {
		r = append(r, entailedEqualities(a, f)...)
	}
	return r
}

// openDecision is a condition the value of t depends on and f does not decide.
func openDecision(t *Term, f *FactSet) *Term {
	if !hasIte(t) || t.op == "mu" || t.op == "comp" {
		return nil
	}
	if t.op == "ite" {
		if v := t.args[0]; f.decide(v) == 0 {
			return v
		}
	}
	for _, a := range t.args {
		if v := openDecision(a, f); v != nil {
			return v
		}
	}
	return nil
}

// withCond extends the facts by a boolean diagram: forced literals are
// extracted, the rest is kept as a clause.
func (f *FactSet) withCond(c *Term) *FactSet {
	if c.op != "ite" {
		return f.with(c)
	}
	if f.set[c] {
		return f
	}
	if n, ok := f.kids[c]; ok {
		return n
	}
	c0 := c
	n := f
	for {
		c = restrict(c, n)
		if c.op != "ite" {
			n = n.with(c)
			break
		}
		v, a, b := c.args[0], c.args[1], c.args[2]
		if a == tFalse {
			n = n.with(mkNot(v))
			c = b
			continue
		}
		if b == tFalse {
			n = n.with(v)
			c = a
			continue
		}
		n = n.clone()
		n.set[c] = true
		n.cl = append(n.cl, c)
		break
	}
	f.kids[c0] = n
	return n
}

// propagate simplifies stored clauses and facts after a new literal.
func (n *FactSet) propagate(lit *Term) {
	if n.unsat {
		return
	}
	before := len(n.all)
	cls := n.cl
	n.cl = nil
	memo, known := map[*Term]*Term{}, before
	for _, c := range cls {
		if len(n.all) > known {
			memo, known = map[*Term]*Term{}, len(n.all)
		}
		r := prune(c, n, memo)
		n.rmemo, n.lits = map[*Term]*Term{}, nil
		for r.op == "ite" {
			if r.args[1] == tFalse {
				n.addFact(mkNot(r.args[0]))
				r = r.args[2]
			} else if r.args[2] == tFalse {
				n.addFact(r.args[0])
				r = r.args[1]
			} else {
				break
			}
		}
		if r.op != "ite" {
			if r == tFalse || n.decide(r) == -1 {
				n.unsat = true
			}
			n.addFact(r)
			continue
		}
		n.set[r] = true
		n.cl = append(n.cl, r)
	}
	for _, c := range append([]*Term(nil), n.all...) {
		if hasIte(c) {
			if len(n.all) > known {
				memo, known = map[*Term]*Term{}, len(n.all)
			}
			r := prune(c, n, memo)
			if r != c && r.op != "ite" {
				n.addFact(r)
			}
		}
	}
	n.rmemo = map[*Term]*Term{}
	n.smemo = map[*Term]*Term{}
	n.mmemo = map[*Term]*Term{}
	n.kids = map[*Term]*FactSet{}
	n.lits = nil
	if len(n.all) > before && len(n.cl) > 0 {
		n.propagate(lit) // the new units may decide earlier clauses
	}
}

func (n *FactSet) addFact(cond *Term) {
	if cond == tTrue || n.set[cond] {
		return
	}
	if cond.op == "ite" {
		n.set[cond] = true
		n.cl = append(n.cl, cond)
		return
	}
	if cond == tFalse {
		n.unsat = true
		return
	}
	if n.set[mkNot(cond)] {
		n.unsat = true
	}
	n.set[cond] = true
	n.all = append(n.all, cond)
	if cond.op == "eq" {
		n.eqall = append(n.eqall, cond)
	}
	switch cond.op {
	case "ge0":
		if n.entails(neg(cond.args[0])) {
			n.solve(cond.args[0])
		}
		n.ge = append(n.ge, cond.args[0])
		n.logBound(cond.args[0])
	case "eq0":
		n.solve(cond.args[0])
		n.ge = append(n.ge, cond.args[0], neg(cond.args[0]))
		n.logBound(cond.args[0])
		n.logBound(neg(cond.args[0]))
	case "eq":
		a, b := cond.args[0], cond.args[1]
		if constLike(a) {
			a, b = b, a
		}
		if constLike(b) && !constLike(a) {
			n.setEq(a, b)
		}
	case "ok":
		// alignments are 1, 2, 4 or 8 (P01)
		if c := cond.args[0]; c.op == "call" && c.aux == ioPath+".Alignment" {
			n.ge = append(n.ge, addc(app("res", "0", types.Typ[types.Uint32], c), -1))
		}
	case "res":
		// a string that contains another is at least as long
		switch c := cond.args[0]; c.aux {
		case "strings.HasPrefix", "strings.HasSuffix", "strings.Contains":
			if c.op == "call" && len(c.args) == 2 && c.args[0].op != "ite" && c.args[1].op == "str" {
				n.ge = append(n.ge, sub(seqLen(c.args[0]), seqLen(c.args[1])))
			}
		}
	case "not":
		if cond.args[0].op == "eq0" {
			n.ne = append(n.ne, cond.args[0].args[0])
		}
	}
	n.memo = map[*Term]int8{}
	for _, g := range n.ge {
		if derivedRange(g) {
			if r := n.rangeOf(g); r.hi != nil && r.hi.Sign() < 0 {
				n.unsat = true
				return
			}
		}
	}
	// tighten disequalities
	for pass := 0; pass < 2; pass++ {
		for i := 0; i < len(n.ne); i++ {
			l := n.ne[i]
			if n.entails(l) {
				if n.entails(neg(l)) {
					n.unsat = true
					return
				}
				n.ge = append(n.ge, addc(l, -1))
				n.ne = append(n.ne[:i:i], n.ne[i+1:]...)
				n.memo = map[*Term]int8{}
				i--
			} else if n.entails(neg(l)) {
				n.ge = append(n.ge, addc(neg(l), -1))
				n.ne = append(n.ne[:i:i], n.ne[i+1:]...)
				n.memo = map[*Term]int8{}
				i--
			}
		}
	}
}

// logBound turns a bound on ceil(q·log2(x)) into one on x.
func (n *FactSet) logBound(l *Term) {
	if l.op != "lin" {
		l = intern(&Term{op: "lin", c: rat(0), args: []*Term{l}, ks: []*big.Rat{rat(1)}})
	}
	if len(l.args) != 1 {
		return
	}
	a, k := l.args[0], l.ks[0]
	b := new(big.Rat).Neg(l.c)
	b.Quo(b, k)
	upper := k.Sign() < 0 // a <= b, otherwise a >= b
	if a.op == "f2i" {
		y := a.args[0]
		if !upper && b.Sign() <= 0 || upper && !n.rangeOf(y).nonneg() {
			return
		}
		a = y
	}
	if a.op != "ceil" {
		return
	}
	y := a.args[0]
	q, c0 := rat(1), rat(0)
	if y.op == "lin" && len(y.args) == 1 {
		q, c0, y = y.ks[0], y.c, y.args[0]
	}
	if y.op != "log2" || q.Sign() <= 0 {
		return
	}
	if upper {
		b = ratFloor(b)
	} else {
		b = new(big.Rat).Sub(ratCeil(b), rat(1)) // strict
	}
	e := new(big.Rat).Quo(new(big.Rat).Sub(b, c0), q)
	if !e.IsInt() || !e.Num().IsInt64() || e.Sign() < 0 || e.Num().Int64() > 4096 {
		return
	}
	p := mkRat(bpow(uint(e.Num().Int64())))
	x := y.args[0]
	var g *Term
	if upper {
		if n.rangeOf(x).lo == nil || n.rangeOf(x).lo.Sign() <= 0 {
			// log2 of zero is -Inf, which the bound covers
			if !n.entails(x) {
				return
			}
		}
		g = sub(p, x)
	} else {
		g = addc(sub(x, p), -1)
	}
	n.ge = append(n.ge, g)
}

// solve records an equality L = 0 as a substitution for one of its atoms.
func (n *FactSet) solve(L *Term) {
	L = n.resolve(L)
	p := toPoly(L)
	var best *Term
	for _, a := range p.atoms() {
		k := p.m[a]
		if !k.IsInt() || k.Num().CmpAbs(one) != 0 {
			continue
		}
		if best == nil || a.id > best.id {
			best = a
		}
	}
	if best == nil {
		return
	}
	// k*best + rest = 0
	k := p.m[best]
	rest := addScaled(L, best, new(big.Rat).Neg(k))
	v := scale(rest, new(big.Rat).Neg(new(big.Rat).Inv(k)))
	if has(v, func(t *Term) bool { return t == best }) {
		return
	}
	n.setEq(best, v)
}

func (n *FactSet) setEq(a, v *Term) {
	if a.typ != nil && isFloat(a.typ) || has(v, func(t *Term) bool { return t == a }) {
		return
	}
	m := map[*Term]*Term{a: v}
	ne := make(map[*Term]*Term, len(n.eqs)+1)
	memo := map[*Term]*Term{}
	for k, x := range n.eqs {
		ne[k] = subst(x, m, memo)
	}
	ne[a] = v
	n.eqs = ne
}

// resolve applies the solved equalities.
func (f *FactSet) resolve(t *Term) *Term {
	if len(f.eqs) == 0 {
		return t
	}
	return subst(t, f.eqs, map[*Term]*Term{})
}

// derivedRange: the interval of t depends on facts about subterms.
func derivedRange(t *Term) bool {
	d := func(a *Term) bool {
		switch a.op {
		case "ceil", "floor", "log2", "bitlen", "shr", "fdiv", "f2i", "mul", "and", "rem":
			return true
		}
		return false
	}
	if t.op != "lin" {
		return d(t)
	}
	for _, a := range t.args {
		if d(a) {
			return true
		}
	}
	return false
}

// ---- intervals ----

type ivl struct{ lo, hi *big.Rat } // nil = unbounded

func (i ivl) nonneg() bool { return i.lo != nil && i.lo.Sign() >= 0 }

func (f *FactSet) atomRange(a *Term) ivl {
	r := intrinsicRange(f, a)
	if f != nil {
		for _, l := range f.ge {
			// c + k*a >= 0
			if l == a {
				r = tightenLo(r, rat(0))
				continue
			}
			if l.op == "lin" && len(l.args) == 1 && l.args[0] == a {
				b := new(big.Rat).Neg(l.c)
				b.Quo(b, l.ks[0])
				if l.ks[0].Sign() > 0 {
					r = tightenLo(r, b)
				} else {
					r = tightenHi(r, b)
				}
			}
		}
	}
	return r
}

// tightRange also uses facts that relate a to one or two other atoms.
func (f *FactSet) tightRange(a *Term) ivl {
	r := f.rangeOf(a)
	for _, l := range f.ge {
		if l.op != "lin" || len(l.args) < 2 || len(l.args) > 3 {
			continue
		}
		for i, b := range l.args {
			if b != a {
				continue
			}
			// k*a >= -(l - k*a)
			o := f.rangeOf(addScaled(l, a, new(big.Rat).Neg(l.ks[i])))
			if o.hi == nil {
				continue
			}
			v := new(big.Rat).Neg(o.hi)
			v.Quo(v, l.ks[i])
			if l.ks[i].Sign() > 0 {
				r = tightenLo(r, v)
			} else {
				r = tightenHi(r, v)
			}
		}
	}
	return r
}

func tightenLo(r ivl, v *big.Rat) ivl {
	if r.lo == nil || v.Cmp(r.lo) > 0 {
		r.lo = v
	}
	return r
}
func tightenHi(r ivl, v *big.Rat) ivl {
	if r.hi == nil || v.Cmp(r.hi) < 0 {
		r.hi = v
	}
	return r
}

// isHandleArray tells the array of a handle table. Its indices have 32 bits, so
// no table is assumed to grow beyond what they can count.
func isHandleArray(t types.Type) bool {
	if t == nil {
		return false
	}
	s, ok := t.Underlying().(*types.Slice)
	if !ok {
		return false
	}
	p, ok := s.Elem().(*types.Pointer)
	if !ok {
		return false
	}
	n, ok := p.Elem().(*types.Named)
	return ok && n.Obj().Name() == "HandleElem" && n.Obj().Pkg() != nil && strings.HasSuffix(n.Obj().Pkg().Path(), "abi/types")
}

var inPow2 bool

func intrinsicRange(f *FactSet, a *Term) ivl {
	if a.lo != nil || a.hi != nil {
		return ivl{a.lo, a.hi}
	}
	switch a.op {
	case "len":
		if isHandleArray(a.args[0].typ) {
			return ivl{rat(0), rat(1<<32 - 1)}
		}
		return ivl{rat(0), maxLen}
	case "kappa", "cap":
		return ivl{rat(0), maxLen}
	case "kend":
		return ivl{rat(0), maxLen}
	case "strrune":
		return ivl{rat(0), rat(0x10ffff)}
	case "bv":
		if strings.HasPrefix(a.aux, "k@") {
			return ivl{rat(0), maxLen}
		}
	case "wrap":
		lo, hi := kindRange(a.aux)
		return ivl{lo, hi}
	case "pow2":
		r := ivl{rat(1), nil}
		if x := f.tightRange(a.args[0]); x.hi != nil && x.hi.Cmp(rat(4096)) < 0 && x.hi.Sign() >= 0 {
			r.hi = bpow(uint(ratFloor(x.hi).Num().Int64()))
		}
		if f != nil && len(f.ge) > 0 && !inPow2 {
			inPow2 = true
			for _, h := range []int64{8, 16, 32, 63, 64} {
				if r.hi != nil && r.hi.Cmp(bpow(uint(h))) <= 0 {
					break
				}
				if f.entails(sub(mkInt(h), a.args[0])) {
					r.hi = bpow(uint(h))
					break
				}
			}
			inPow2 = false
		}
		return r
	case "mul":
		r := ivl{rat(1), rat(1)}
		for _, x := range a.args {
			xr := f.rangeOf(x)
			if !xr.nonneg() || !r.nonneg() {
				return ivl{}
			}
			nr := ivl{new(big.Rat).Mul(r.lo, xr.lo), nil}
			if r.hi != nil && xr.hi != nil {
				nr.hi = new(big.Rat).Mul(r.hi, xr.hi)
			}
			r = nr
		}
		return r
	case "shr":
		xr := f.rangeOf(a.args[0])
		if xr.nonneg() {
			r := ivl{rat(0), xr.hi}
			if k, ok := constInt(a.args[1]); ok && xr.hi != nil && 0 <= k && k < 4096 {
				r.hi = ratFloor(new(big.Rat).Quo(xr.hi, bpow(uint(k))))
				r.lo = ratFloor(new(big.Rat).Quo(xr.lo, bpow(uint(k))))
			}
			return r
		}
		return ivl{}
	case "fdiv":
		xr, yr := f.rangeOf(a.args[0]), f.rangeOf(a.args[1])
		if xr.nonneg() && yr.nonneg() {
			return ivl{rat(0), xr.hi}
		}
		return ivl{}
	case "rem":
		xr, yr := f.rangeOf(a.args[0]), f.rangeOf(a.args[1])
		if xr.nonneg() && yr.nonneg() {
			return ivl{rat(0), minHi(xr.hi, yr.hi)}
		}
	case "and":
		x, y := f.rangeOf(a.args[0]), f.rangeOf(a.args[1])
		if x.nonneg() && y.nonneg() {
			return ivl{rat(0), minHi(x.hi, y.hi)}
		}
	case "or", "xor":
		x, y := f.rangeOf(a.args[0]), f.rangeOf(a.args[1])
		if x.nonneg() && y.nonneg() && x.hi != nil && y.hi != nil {
			m := x.hi
			if y.hi.Cmp(m) > 0 {
				m = y.hi
			}
			n := uint(ratFloor(m).Num().BitLen())
			return ivl{rat(0), new(big.Rat).Sub(bpow(n), rat(1))}
		}
	case "res":
		if isRuneCall(a.args[0]) {
			if a.aux == "0" {
				return ivl{rat(0), rat(0x10ffff)}
			}
			return ivl{rat(0), rat(4)}
		}
		// the value of strconv.ParseUint has at most the given number of bits
		if c := a.args[0]; c.op == "call" && c.aux == "strconv.ParseUint" && a.aux == "0" && len(c.args) == 3 {
			if n, ok := constInt(c.args[2]); ok && 0 < n && n < 64 {
				return ivl{rat(0), new(big.Rat).Sub(bpow(uint(n)), rat(1))}
			}
		}
	case "log2":
		x := f.tightRange(a.args[0])
		r := ivl{}
		if x.lo != nil && x.lo.Sign() > 0 {
			v, _ := x.lo.Float64()
			r.lo = new(big.Rat).SetFloat64(math.Log2(v))
		}
		if x.hi != nil && x.hi.Sign() > 0 {
			v, _ := x.hi.Float64()
			r.hi = new(big.Rat).SetFloat64(math.Log2(v))
		}
		return r
	case "ceil", "floor", "trunc", "round":
		x := f.rangeOf(a.args[0])
		r := ivl{}
		g := ratFloor
		if a.op == "ceil" {
			g = ratCeil
		}
		if a.op == "trunc" && !x.nonneg() || a.op == "round" {
			return ivl{}
		}
		if x.lo != nil {
			r.lo = g(x.lo)
		}
		if x.hi != nil {
			r.hi = g(x.hi)
		}
		return r
	case "f2i":
		x := f.rangeOf(a.args[0])
		if k, ok := intKind(a.typ); ok && a.aux != "" {
			lo, hi := kindRange(k)
			if x.lo != nil && x.lo.Cmp(lo) >= 0 && x.hi != nil && x.hi.Cmp(hi) <= 0 {
				return x
			}
			return ivl{lo, hi}
		}
	case "bitlen":
		x := f.rangeOf(a.args[0])
		if x.nonneg() {
			r := ivl{lo: rat(int64(ratFloor(x.lo).Num().BitLen()))}
			if x.hi != nil {
				r.hi = rat(int64(ratFloor(x.hi).Num().BitLen()))
			}
			return r
		}
	}
	if a.typ != nil {
		if k, ok := intKind(a.typ); ok {
			lo, hi := kindRange(k)
			return ivl{lo, hi}
		}
	}
	return ivl{}
}

func minHi(a, b *big.Rat) *big.Rat {
	if a == nil {
		return b
	}
	if b == nil || a.Cmp(b) < 0 {
		return a
	}
	return b
}

func ratFloor(r *big.Rat) *big.Rat {
	q := new(big.Int).Div(r.Num(), r.Denom()) // Euclidean; denom>0 -> floor
	return new(big.Rat).SetInt(q)
}
func ratCeil(r *big.Rat) *big.Rat {
	n := new(big.Rat).Neg(r)
	return new(big.Rat).Neg(ratFloor(n))
}

func (f *FactSet) rangeOf(t *Term) ivl {
	if t.op != "lin" {
		return f.atomRange(t)
	}
	r := ivl{new(big.Rat).Set(t.c), new(big.Rat).Set(t.c)}
	for i, a := range t.args {
		ar := f.atomRange(a)
		k := t.ks[i]
		lo, hi := ar.lo, ar.hi
		if k.Sign() < 0 {
			lo, hi = hi, lo
		}
		if r.lo != nil {
			if lo == nil {
				r.lo = nil
			} else {
				r.lo = new(big.Rat).Add(r.lo, new(big.Rat).Mul(lo, k))
			}
		}
		if r.hi != nil {
			if hi == nil {
				r.hi = nil
			} else {
				r.hi = new(big.Rat).Add(r.hi, new(big.Rat).Mul(hi, k))
			}
		}
	}
	return r
}

// entails decides whether the facts imply L >= 0 (over the integers) using
// interval evaluation and then bounded Fourier-Motzkin elimination in the
// polyhedral domain.
func (f *FactSet) entails(L *Term) bool {
	if isConst(L) {
		return L.c.Sign() >= 0
	}
	if f == nil {
		f = noFacts
	}
	if v, ok := f.memo[L]; ok {
		return v == 1
	}
	r := f.rangeOf(L)
	res := false
	if r.lo != nil && r.lo.Sign() >= 0 {
		res = true
	} else if r.hi != nil && r.hi.Sign() < 0 {
		res = false
	} else {
		f.memo[L] = 0
		res = f.fm(L)
	}
	if res {
		f.memo[L] = 1
	} else {
		f.memo[L] = 0
	}
	return res
}

// ---- arithmetic constructors ----

func inKind(f *FactSet, k string, x *Term) bool {
	lo, hi := kindRange(k)
	r := f.rangeOf(x)
	if r.lo != nil && r.lo.Cmp(lo) >= 0 && r.hi != nil && r.hi.Cmp(hi) <= 0 {
		return true
	}
	return f.entails(sub(x, mkRat(lo))) && f.entails(sub(mkRat(hi), x))
}

func wrapTerm(kind string, x *Term, f *FactSet) *Term {
	if f == nil {
		f = noFacts
	}
	w, signed := kindWidth(kind)
	mod := bpow(w)
	if isConst(x) {
		if !x.c.IsInt() {
			return app("wrap", kind, nil, x)
		}
		v := new(big.Int).Mod(x.c.Num(), mod.Num())
		if signed && new(big.Rat).SetInt(v).Cmp(bpow(w-1)) >= 0 {
			v.Sub(v, mod.Num())
		}
		return mkBig(v)
	}
	if inKind(f, kind, x) {
		return x
	}
	// modular normal form
	p := stripWraps(x, w)
	q := toPoly(p)
	r := mkInt(0)
	half := bpow(w - 1)
	red := func(k *big.Rat) *big.Rat {
		if !k.IsInt() {
			return k
		}
		v := new(big.Rat).SetInt(new(big.Int).Mod(k.Num(), mod.Num()))
		if v.Cmp(half) > 0 {
			v.Sub(v, mod)
		}
		return v
	}
	for a, k := range q.m {
		r = add(r, scale(a, red(k)))
	}
	r = add(r, mkRat(red(q.c)))
	if isConst(r) {
		return wrapTerm(kind, r, f)
	}
	if inKind(f, kind, r) {
		return r
	}
	return app("wrap", kind, nil, r)
}

// stripWraps removes inner wraps of width >= w (congruent modulo 2^w).
func stripWraps(x *Term, w uint) *Term {
	p := toPoly(x)
	r := mkRat(p.c)
	for _, a := range p.atoms() {
		k := p.m[a]
		b := a
		if k.IsInt() {
			switch a.op {
			case "wrap":
				if aw, _ := kindWidth(a.aux); aw >= w {
					b = stripWraps(a.args[0], w)
				}
			case "mul":
				b = mkInt(1)
				for _, y := range a.args {
					z := y
					if y.op == "wrap" {
						if yw, _ := kindWidth(y.aux); yw >= w {
							z = stripWraps(y.args[0], w)
						}
					}
					b = mul(b, z)
				}
			}
		}
		r = add(r, scale(b, k))
	}
	return r
}

func divisible(k, d *big.Rat) bool { return new(big.Rat).Quo(k, d).IsInt() }

// shr is floor(x / 2^k)
func shr(x, k *Term, f *FactSet) *Term {
	if f == nil {
		f = noFacts
	}
	n, ok := constInt(k)
	if !ok {
		if isConst(x) && x.c.Sign() == 0 {
			return x
		}
		if x.op == "shr" {
			return shr(x.args[0], add(x.args[1], k), f)
		}
		return app("shr", "", nil, x, k)
	}
	if n == 0 {
		return x
	}
	if n < 0 || n > 4096 {
		return app("shr", "", nil, x, k)
	}
	d := bpow(uint(n))
	k0 := k
	return divConst(x, d, f, func(b *Term) *Term {
		if b.op == "wrap" {
			// (x mod 2^w) / 2^n = (x / 2^n) mod 2^(w-n)
			if w, s := kindWidth(b.aux); w > uint(n) {
				k := "u"
				if s {
					k = "s"
				}
				return wrapTerm(fmt.Sprintf("%s%d", k, w-uint(n)), shr(b.args[0], k0, nil), f)
			}
		}
		if b.op == "shr" {
			return shr(b.args[0], add(b.args[1], k), f)
		}
		if b.op == "fdiv" && isConst(b.args[1]) {
			return floorDiv(b.args[0], mkRat(new(big.Rat).Mul(b.args[1].c, d)), f)
		}
		return app("shr", "", nil, b, k)
	})
}

func divConst(x *Term, d *big.Rat, f *FactSet, atom func(*Term) *Term) *Term {
	p := toPoly(x)
	A, B := mkInt(0), mkInt(0)
	for _, a := range p.atoms() {
		c := p.m[a]
		if !c.IsInt() {
			return atom(x)
		}
		if divisible(c, d) {
			A = add(A, scale(a, new(big.Rat).Quo(c, d)))
			continue
		}
		if c.Sign() > 0 {
			q := ratFloor(new(big.Rat).Quo(c, d))
			A = add(A, scale(a, q))
			B = add(B, scale(a, new(big.Rat).Sub(c, new(big.Rat).Mul(q, d))))
		} else {
			B = add(B, scale(a, c))
		}
	}
	if !p.c.IsInt() {
		return atom(x)
	}
	q := ratFloor(new(big.Rat).Quo(p.c, d))
	A = add(A, mkRat(q))
	B = add(B, mkRat(new(big.Rat).Sub(p.c, new(big.Rat).Mul(q, d))))
	if isConst(B) {
		return A
	}
	// 0 <= B < d ?
	if f.entails(B) && f.entails(sub(mkRat(new(big.Rat).Sub(d, rat(1))), B)) {
		return A
	}
	return add(A, atom(B))
}

func floorDiv(x, y *Term, f *FactSet) *Term {
	if f == nil {
		f = noFacts
	}
	if isConst(y) && y.c.IsInt() && y.c.Sign() > 0 {
		n := y.c.Num()
		if n.BitLen() > 0 && new(big.Int).Lsh(big.NewInt(1), uint(n.BitLen()-1)).Cmp(n) == 0 {
			return shr(x, mkInt(int64(n.BitLen()-1)), f)
		}
		return divConst(x, y.c, f, func(b *Term) *Term { return app("fdiv", "", nil, b, y) })
	}
	if x == y {
		return mkInt(1)
	}
	return app("fdiv", "", nil, x, y)
}

func modPow2(x *Term, n uint, f *FactSet) *Term {
	if n == 0 {
		return mkInt(0)
	}
	return addScaled(x, shr(x, mkInt(int64(n)), f), new(big.Rat).Neg(bpow(n)))
}

func andTerm(x, y *Term, f *FactSet) *Term {
	if f == nil {
		f = noFacts
	}
	if isConst(x) {
		x, y = y, x
	}
	if isConst(x) && isConst(y) {
		return mkBig(new(big.Int).And(x.c.Num(), y.c.Num()))
	}
	if x == y {
		return x
	}
	if isConst(y) && y.c.IsInt() {
		m := y.c.Num()
		if m.Sign() == 0 {
			return mkInt(0)
		}
		if m.Sign() < 0 {
			nm := new(big.Int).Neg(m)
			if isPow2(nm) {
				return sub(x, modPow2(x, uint(nm.BitLen()-1), f))
			}
		} else {
			// contiguous run of ones [a,b)
			a := m.TrailingZeroBits()
			t := new(big.Int).Rsh(m, a)
			t.Add(t, big.NewInt(1))
			if isPow2(t) {
				b := uint(a) + uint(t.BitLen()-1)
				if f.entails(x) {
					return sub(modPow2(x, b, f), modPow2(x, uint(a), f))
				}
				if a == 0 {
					return modPow2(x, b, f)
				}
			}
		}
	}
	if x.id > y.id {
		x, y = y, x
	}
	return app("and", "", nil, x, y)
}

func isPow2(n *big.Int) bool {
	return n.Sign() > 0 && new(big.Int).Lsh(big.NewInt(1), uint(n.BitLen()-1)).Cmp(n) == 0
}

func orTerm(x, y *Term, f *FactSet) *Term {
	if f == nil {
		f = noFacts
	}
	if isConst(x) && isConst(y) {
		return mkBig(new(big.Int).Or(x.c.Num(), y.c.Num()))
	}
	if isConst(x) && x.c.Sign() == 0 {
		return y
	}
	if isConst(y) && y.c.Sign() == 0 {
		return x
	}
	if x == y {
		return x
	}
	for _, pr := range [][2]*Term{{x, y}, {y, x}} {
		hi, lo := pr[0], pr[1]
		lr := f.rangeOf(lo)
		if !lr.nonneg() || lr.hi == nil {
			continue
		}
		n := uint(ratFloor(lr.hi).Num().BitLen())
		d := bpow(n)
		okd := divisible(toPoly(hi).c, d)
		for _, k := range toPoly(hi).m {
			if !divisible(k, d) {
				okd = false
			}
		}
		if okd && f.rangeOf(hi).nonneg() {
			return add(x, y)
		}
	}
	// lo < 2^e has no bits in common with c·2^e
	for _, pr := range [][2]*Term{{x, y}, {y, x}} {
		hi, lo := toPoly(pr[0]), pr[1]
		if len(hi.m) == 0 && hi.c.IsInt() && hi.c.Sign() > 0 {
			low := new(big.Rat).SetInt(new(big.Int).Lsh(one, hi.c.Num().TrailingZeroBits()))
			if f.entails(lo) && f.entails(addc(sub(mkRat(low), lo), -1)) {
				return add(x, y)
			}
		}
		if hi.c.Sign() != 0 || len(hi.m) != 1 {
			continue
		}
		p := hi.atoms()[0]
		if p.op == "pow2" && hi.m[p].IsInt() && hi.m[p].Sign() > 0 && f.entails(lo) && f.entails(addc(sub(p, lo), -1)) {
			return add(x, y)
		}
	}
	// setting the topmost bit
	for _, pr := range [][2]*Term{{x, y}, {y, x}} {
		if c, t := pr[0], pr[1]; isConst(c) && c.c.IsInt() && c.c.Sign() > 0 && isPow2(c.c.Num()) {
			b := uint(c.c.Num().BitLen() - 1)
			if r := f.rangeOf(t); r.nonneg() && r.hi != nil && r.hi.Cmp(bpow(b+1)) < 0 {
				return add(c, modPow2(stripWraps(t, b), b, f))
			}
		}
	}
	// operands in a fixed order, constants together
	var ts []*Term
	c := new(big.Int)
	var collect func(t *Term)
	collect = func(t *Term) {
		switch {
		case t.op == "or":
			collect(t.args[0])
			collect(t.args[1])
		case isConst(t) && t.c.IsInt():
			c.Or(c, t.c.Num())
		default:
			ts = append(ts, t)
		}
	}
	collect(x)
	collect(y)
	sort.Slice(ts, func(i, j int) bool { return ts[i].id < ts[j].id })
	var r *Term
	if c.Sign() != 0 {
		r = mkBig(c)
	}
	for i, t := range ts {
		if i > 0 && ts[i-1] == t {
			continue
		}
		if r == nil {
			r = t
		} else {
			r = app("or", "", nil, r, t)
		}
	}
	return r
}

func byteOf(x *Term, i int) *Term {
	return wrapTerm("u8", shr(x, mkInt(int64(8*i)), nil), nil)
}

// alignUp is p rounded up to a multiple of a.
func alignUp(p, a *Term) *Term {
	if n, ok := constInt(a); ok && isPow2(big.NewInt(n)) {
		return wrapTerm("u32", mul(a, floorDiv(addc(p, n-1), a, nil)), nil)
	}
	return app("alignup", "", types.Typ[types.Uint32], p, a)
}

// ---- conditions ----

func mkNot(c *Term) *Term {
	if c.not == nil {
		c.not = negation(c)
	}
	return c.not
}

func negation(c *Term) *Term {
	switch c.op {
	case "true":
		return tFalse
	case "false":
		return tTrue
	case "not":
		return c.args[0]
	case "ge0":
		return mkGe0(addc(neg(c.args[0]), -1))
	}
	return app("not", "", nil, c)
}

func gcdNorm(L *Term) (*Term, *big.Rat) {
	p := toPoly(L)
	g := new(big.Int)
	for _, atom := range p.atoms() {
		k := p.m[atom]
		if !k.IsInt() {
			return L, nil
		}
		g.GCD(nil, nil, g, new(big.Int).Abs(k.Num()))
	}
	if g.Sign() == 0 {
		return L, nil
	}
	return L, new(big.Rat).SetInt(g)
}

func intAtoms(L *Term) bool {
	for a := range toPoly(L).m {
		if a.op == "log2" || (a.typ != nil && isFloat(a.typ)) {
			return false
		}
	}
	return true
}

var one = big.NewInt(1)

// intScale clears denominators so that conditions have integer coefficients.
func intScale(L *Term) *Term {
	l := big.NewInt(1)
	p := toPoly(L)
	for _, atom := range p.atoms() {
		k := p.m[atom]
		l = lcm(l, k.Denom())
	}
	l = lcm(l, p.c.Denom())
	if l.Cmp(one) == 0 {
		return L
	}
	return scale(L, new(big.Rat).SetInt(l))
}

func lcm(a, b *big.Int) *big.Int {
	g := new(big.Int).GCD(nil, nil, a, b)
	return new(big.Int).Div(new(big.Int).Mul(a, b), g)
}

func mkGe0(L *Term) *Term {
	if isConst(L) {
		return mkBool(L.c.Sign() >= 0)
	}
	if intAtoms(L) {
		L = intScale(L)
	}
	if _, g := gcdNorm(L); g != nil && intAtoms(L) {
		p := toPoly(L)
		r := mkRat(ratFloor(new(big.Rat).Quo(p.c, g)))
		for _, a := range p.atoms() {
			k := p.m[a]
			r = add(r, scale(a, new(big.Rat).Quo(k, g)))
		}
		L = r
	}
	if L.op == "lin" && len(L.args) == 2 && L.c.Cmp(rat(-1)) == 0 && isBit(addc(L, 1)) {
		return mkNot(mkEq0(addc(L, 1)))
	}
	if L.op == "lin" && len(L.args) == 1 && L.c.Cmp(rat(-1)) == 0 && L.ks[0].Cmp(rat(1)) == 0 && singleBit(L.args[0]) != nil {
		return mkNot(mkEq0(L.args[0]))
	}
	if L.op != "lin" || len(L.args) == 1 {
		// decided by what the atom is
		r := noFacts.rangeOf(L)
		if r.lo != nil && r.lo.Sign() >= 0 {
			return tTrue
		}
		if r.hi != nil && r.hi.Sign() < 0 {
			return tFalse
		}
	}
	return app("ge0", "", nil, L)
}

func mkEq0(L *Term) *Term {
	if isConst(L) {
		return mkBool(L.c.Sign() == 0)
	}
	if intAtoms(L) {
		L = intScale(L)
	}
	if _, g := gcdNorm(L); g != nil {
		p := toPoly(L)
		c := new(big.Rat).Quo(p.c, g)
		if !c.IsInt() && intAtoms(L) {
			return tFalse
		}
		// leading coefficient positive
		var first *Term
		for _, a := range p.atoms() {
			k := p.m[a]
			if k.Sign() != 0 && (first == nil || a.id < first.id) {
				first = a
			}
		}
		if p.m[first].Sign() < 0 {
			g = new(big.Rat).Neg(g)
		}
		L = scale(L, new(big.Rat).Inv(g))
	}
	if r := roundedEq(L); r != nil {
		return r
	}
	// x & 1<<k = 0 says that bit k of x is clear, x & 1<<k = 1<<k that it is set
	if b := singleBit(L); b != nil {
		return mkEq0(b)
	}
	if L.op == "lin" && len(L.args) == 2 && L.c.Sign() == 0 {
		for i, a := range L.args {
			if b := singleBit(a); b != nil && L.ks[0].Cmp(new(big.Rat).Neg(L.ks[1])) == 0 && (L.args[1-i] == a.args[0] || L.args[1-i] == a.args[1]) && L.args[1-i].op == "pow2" {
				return mkNot(mkEq0(b))
			}
		}
	}
	// pow2(e)*x = 0 <=> x = 0
	if L.op == "mul" {
		var rest []*Term
		for _, a := range L.args {
			if a.op != "pow2" {
				rest = append(rest, a)
			}
		}
		if len(rest) == 1 && len(L.args) > 1 {
			return mkEq0(rest[0])
		}
	}
	// (x mod 2)=1  <=> not ((x mod 2)=0): keep the =0 form for one-bit values
	if L.op == "lin" && L.c.Cmp(rat(-1)) == 0 {
		b := addc(L, 1)
		r := noFacts.rangeOf(b)
		if r.lo != nil && r.lo.Sign() == 0 && r.hi != nil && r.hi.Cmp(rat(1)) == 0 {
			return mkNot(mkEq0(b))
		}
		if isBit(b) {
			return mkNot(mkEq0(b))
		}
	}
	return app("eq0", "", nil, L)
}

// roundedEq rewrites "x rounded up to a multiple of a equals x" to "x mod a
// is zero".
func roundedEq(L *Term) *Term {
	p := toPoly(L)
	for _, t := range p.atoms() {
		k := p.m[t]
		if !k.IsInt() || k.Num().CmpAbs(one) != 0 {
			continue
		}
		x := addScaled(L, t, new(big.Rat).Neg(k))
		if k.Sign() > 0 {
			x = neg(x)
		}
		switch {
		case t.op == "alignup":
			if t.args[0] == x {
				return mkEq0(app("rem", "", types.Typ[types.Uint32], x, t.args[1]))
			}
		case t.op == "wrap" && t.aux == "u32" && inKind(noFacts, "u32", x):
			for _, n := range []int64{1, 2, 3, 4} {
				c := bpow(uint(n))
				if scale(shr(add(x, mkRat(new(big.Rat).Sub(c, rat(1)))), mkInt(n), nil), c) == t.args[0] {
					return mkEq0(sub(x, scale(shr(x, mkInt(n), nil), c)))
				}
			}
		}
	}
	return nil
}

// isBit recognises floor(x/2^k) - 2*floor(x/2^(k+1)), a value in {0,1}.
func isBit(b *Term) bool {
	p := toPoly(b)
	if p.c.Sign() != 0 || len(p.m) != 2 {
		return false
	}
	var hi, lo *Term
	for _, a := range p.atoms() {
		k := p.m[a]
		if k.Cmp(rat(1)) == 0 {
			lo = a
		} else if k.Cmp(rat(-2)) == 0 {
			hi = a
		}
	}
	if hi == nil || lo == nil {
		return false
	}
	return shr(lo, mkInt(1), nil) == hi
}

// singleBit is bit k of x where t is x & 1<<k.
func singleBit(t *Term) *Term {
	if t.op != "and" {
		return nil
	}
	for i, p := range t.args {
		if p.op == "pow2" {
			x, k := t.args[1-i], p.args[0]
			return sub(shr(x, k, nil), scale(shr(x, addc(k, 1), nil), rat(2)))
		}
	}
	return nil
}

func nonNilOp(op string) bool {
	switch op {
	case "addr", "iface", "sl", "msl", "clo", "fn", "err", "new", "fa", "ia", "mapv", "mset", "map0", "rok", "rerr":
		return true
	}
	return false
}

func mkIsNil(x *Term) *Term {
	if x.op == "nil" {
		return tTrue
	}
	if nonNilOp(x.op) {
		return tFalse
	}
	return app("isnil", "", nil, x)
}

func isFresh(x *Term) bool {
	if x.op == "addr" {
		o, ok := x.obj.(*Object)
		return ok && o.fresh
	}
	return false
}

func mkEq(a, b *Term) *Term {
	if a == b {
		return tTrue
	}
	if a.op == "nil" || b.op == "nil" {
		if a.op == "nil" {
			a = b
		}
		return mkIsNil(a)
	}
	if a == tTrue || a == tFalse {
		a, b = b, a
	}
	if b == tTrue {
		return a
	}
	if b == tFalse {
		return mkNot(a)
	}
	if a.op == "str" && b.op == "str" {
		return tFalse
	}
	if a.op == "lin" || b.op == "lin" {
		return mkEq0(sub(a, b))
	}
	if a.op == "iface" && b.op == "iface" {
		if !types.Identical(a.typ, b.typ) {
			return tFalse
		}
		if _, ok := intKind(a.typ); ok {
			return mkEq0(sub(a.args[0], b.args[0]))
		}
		return mkEq(a.args[0], b.args[0])
	}
	if a.op == "addr" && b.op == "addr" {
		return tFalse
	}
	if isFresh(a) || isFresh(b) {
		return tFalse
	}
	if a.id > b.id {
		a, b = b, a
	}
	return app("eq", "", nil, a, b)
}

// decide: 1 true, -1 false, 0 unknown
func (f *FactSet) decide(c *Term) int {
	switch c {
	case tTrue:
		return 1
	case tFalse:
		return -1
	}
	if f.set[c] {
		return 1
	}
	n := mkNot(c)
	if f.set[n] {
		return -1
	}
	switch c.op {
	case "not":
		return -f.decide(c.args[0])
	case "ge0":
		L := c.args[0]
		if f.entails(L) {
			return 1
		}
		if f.entails(addc(neg(L), -1)) {
			return -1
		}
	case "eq0":
		L := c.args[0]
		ge, le := f.entails(L), f.entails(neg(L))
		if ge && le {
			return 1
		}
		if f.entails(addc(L, -1)) || f.entails(addc(neg(L), -1)) {
			return -1
		}
		for _, x := range f.ne {
			if x == L || x == neg(L) {
				return -1
			}
		}
	case "eq":
		a, b := c.args[0], c.args[1]
		for _, k := range f.eqall {
			// a==c1 known, asking a==c2
			for _, pr := range [][2]*Term{{a, b}, {b, a}} {
				for _, kr := range [][2]*Term{{k.args[0], k.args[1]}, {k.args[1], k.args[0]}} {
					if pr[0] == kr[0] && constLike(pr[1]) && constLike(kr[1]) && pr[1] != kr[1] {
						return -1
					}
				}
			}
		}
		// transitivity through known equalities (one step)
		for _, k := range f.eqall {
			x, y := k.args[0], k.args[1]
			for _, pr := range [][2]*Term{{x, y}, {y, x}} {
				if pr[0] == a && pr[1] != b {
					e := mkEq(pr[1], b)
					if f.set[e] || e == tTrue {
						return 1
					}
					if e == tFalse || f.set[mkNot(e)] {
						return -1
					}
				}
				if pr[0] == b && pr[1] != a {
					e := mkEq(pr[1], a)
					if f.set[e] || e == tTrue {
						return 1
					}
					if e == tFalse || f.set[mkNot(e)] {
						return -1
					}
				}
			}
		}
	case "typeis":
		x := c.args[0]
		for _, k := range f.all {
			if k.op == "typeis" && k.args[0] == x {
				kc, cc := !types.IsInterface(k.typ), !types.IsInterface(c.typ)
				if kc && cc {
					if !types.Identical(k.typ, c.typ) {
						return -1
					}
					return 1
				}
				if kc && !cc {
					if types.Implements(k.typ, c.typ.Underlying().(*types.Interface)) {
						return 1
					}
					return -1
				}
				if !kc && cc {
					if !types.Implements(c.typ, k.typ.Underlying().(*types.Interface)) {
						return -1
					}
				}
			}
			if k.op == "isnil" && k.args[0] == x {
				return -1
			}
		}
	case "isnil":
		x := c.args[0]
		for _, k := range f.all {
			if k.op == "typeis" && k.args[0] == x {
				return -1
			}
			if k.op == "eq" {
				if k.args[0] == x && nonNilOp(k.args[1].op) || k.args[1] == x && nonNilOp(k.args[0].op) {
					return -1
				}
			}
		}
	}
	return 0
}

func constLike(t *Term) bool {
	return t.op == "str" || isConst(t) || t.op == "addr" || t.op == "nil"
}

// simplify re-normalises t under the facts: wraps that are provably exact,
// conditions that are decided, and equalities with constants.
func (f *FactSet) simplify(t *Term, memo map[*Term]*Term) *Term {
	if len(t.args) == 0 || t.op == "mu" || t.op == "comp" {
		return t
	}
	if r, ok := memo[t]; ok {
		return r
	}
	nargs := make([]*Term, len(t.args))
	ch := false
	for i, a := range t.args {
		nargs[i] = f.simplify(a, memo)
		ch = ch || nargs[i] != a
	}
	r := t
	if ch {
		r = rebuild(t, nargs)
	}
	switch r.op {
	case "wrap":
		r = wrapTerm(r.aux, r.args[0], f)
	case "shr":
		r = shr(r.args[0], r.args[1], f)
	case "or":
		r = orTerm(r.args[0], r.args[1], f)
	case "and":
		r = andTerm(r.args[0], r.args[1], f)
	case "idx":
		r = seqIndex(r.args[0], r.args[1], r.typ, f)
	case "f2i":
		if r.aux != "" && inKind(f, r.aux, r.args[0]) {
			r = r.args[0]
		}
	case "at", "kend":
		if z := zeroTrip(r, f); z != nil {
			r = f.simplify(z, memo)
		}
	case "ge0", "eq0", "eq", "isnil", "typeis", "not":
		switch f.decide(r) {
		case 1:
			r = tTrue
		case -1:
			r = tFalse
		}
	}
	memo[t] = r
	return r
}
