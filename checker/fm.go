package main

import (
	"math/big"
	"math/bits"
	"sort"
	"strconv"
)

// row is one inequality c + Σ k[i]·order[i] ≥ 0 with integer coefficients.
type row struct {
	c *big.Int
	k []int64
}

var fmMemo = map[string]bool{}

// linAtoms lists the non-constant parts of a sum without building a polynomial.
func linAtoms(t *Term) []*Term {
	if t.op == "lin" {
		return t.args
	}
	return []*Term{t}
}

// fm looks for a contradiction between the facts and L < 0 by Fourier-Motzkin
// elimination. Only facts connected to L through shared atoms take part.
func (f *FactSet) fm(L *Term) bool {
	goal := addc(neg(L), -1)
	cs := []*Term{goal}
	inSet := map[*Term]bool{}
	var order []*Term
	addAtoms := func(t *Term) {
		for _, a := range linAtoms(t) {
			if !inSet[a] {
				inSet[a] = true
				order = append(order, a)
			}
		}
	}
	addAtoms(goal)
	used := make([]bool, len(f.ge))
	defd := 0
	for round := 0; round < 4; round++ {
		ch := false
		for i, g := range f.ge {
			if used[i] {
				continue
			}
			rel := false
			for _, a := range linAtoms(g) {
				if inSet[a] {
					rel = true
					break
				}
				// a quotient is tied to its dividend
				if (a.op == "shr" || a.op == "fdiv") && isConst(a.args[1]) {
					for _, b := range linAtoms(a.args[0]) {
						rel = rel || inSet[b]
					}
				} else if a.op == "shr" {
					for _, b := range order {
						if _, ok := shiftGap(a, b); ok {
							rel = true
						}
					}
				}
			}
			if rel {
				used[i] = true
				cs = append(cs, g)
				addAtoms(g)
				ch = true
			}
		}
		for n := len(order); defd < n; defd++ {
			a := order[defd]
			var d *big.Rat
			if a.op == "shr" && !isConst(a.args[1]) {
				// x>>(s+c) is the quotient of x>>s by 2^c
				for _, b := range order[:defd] {
					k, ok := shiftGap(a, b)
					lo, hi := b, a
					if k < 0 {
						lo, hi, k = a, b, -k
					}
					if ok && k > 0 && k < 64 {
						q := bpow(uint(k))
						rem := addScaled(lo, hi, new(big.Rat).Neg(q))
						cs = append(cs, rem, sub(mkRat(new(big.Rat).Sub(q, rat(1))), rem))
						ch = true
					}
				}
			}
			switch {
			case a.op == "kend":
				for _, n := range kendBounds(a) {
					cs = append(cs, sub(n, a))
					addAtoms(n)
					ch = true
				}
			case a.op == "wrap" && a.aux[0] == 'u':
				// reducing a non-negative number never increases it
				if r := noFacts.rangeOf(a.args[0]); r.lo != nil && r.lo.Sign() >= 0 {
					cs = append(cs, sub(a.args[0], a))
					addAtoms(a.args[0])
					ch = true
				}
			case a.op == "res" && a.aux == "1" && isRuneCall(a.args[0]):
				// the width of a rune: within the string, positive unless it is empty
				n := seqLen(a.args[0].args[0])
				cs = append(cs, sub(n, a))
				if f.entails(addc(n, -1)) {
					cs = append(cs, addc(a, -1))
				}
				addAtoms(n)
				ch = true
			case a.op == "shr":
				if k, ok := constInt(a.args[1]); ok && 0 <= k && k < 4096 {
					d = bpow(uint(k))
				}
			case a.op == "fdiv" && isConst(a.args[1]):
				d = a.args[1].c
			}
			if d != nil {
				rem := addScaled(a.args[0], a, new(big.Rat).Neg(d))
				cs = append(cs, rem, sub(mkRat(new(big.Rat).Sub(d, rat(1))), rem))
				addAtoms(a.args[0])
				ch = true
			}
		}
		if !ch || len(cs) > 60 {
			break
		}
	}
	// the outcome is a function of the constraints collected so far
	key := make([]byte, 0, 128)
	for _, t := range cs {
		key = strconv.AppendInt(key, int64(t.id), 36)
		key = append(key, ',')
	}
	rg := make([]ivl, len(order))
	for i, a := range order {
		rg[i] = intrinsicRange(f, a)
		if a.lo == nil && a.hi == nil && len(a.args) > 0 {
			key = append(key, ';')
			if rg[i].lo != nil {
				key = appendRat(key, rg[i].lo)
			}
			key = append(key, ':')
			if rg[i].hi != nil {
				key = appendRat(key, rg[i].hi)
			}
		}
	}
	if v, ok := fmMemo[string(key)]; ok {
		return v
	}
	v := eliminate(cs, order, rg)
	fmMemo[string(key)] = v
	return v
}

func eliminate(cs []*Term, order []*Term, rg []ivl) bool {
	n := len(order)
	ord := append([]*Term(nil), order...)
	perm := make([]int, n)
	for i := range perm {
		perm[i] = i
	}
	sort.Slice(perm, func(i, j int) bool { return ord[perm[i]].id < ord[perm[j]].id })
	idx := make(map[*Term]int, n)
	for i, p := range perm {
		idx[ord[p]] = i
	}
	real := make([]bool, n)
	for i, p := range perm {
		real[i] = !isIntAtom(ord[p])
	}
	var rows []row
	// reports a contradiction
	push := func(t *Term) bool {
		r, ok, bad := mkRow(t, idx, real)
		if bad {
			return true
		}
		if ok {
			rows = append(rows, r)
		}
		return false
	}
	for _, t := range cs {
		if push(t) {
			return true
		}
	}
	for i, p := range perm {
		_ = i
		a, r := ord[p], rg[p]
		if r.lo != nil && push(sub(a, mkRat(r.lo))) {
			return true
		}
		if r.hi != nil && push(sub(mkRat(r.hi), a)) {
			return true
		}
	}
	left := make([]int, n)
	for i := range left {
		left[i] = i
	}
	for len(left) > 0 {
		// the variable with the smallest product goes first
		best, bi := -1, -1
		for i, v := range left {
			p, m := 0, 0
			for _, q := range rows {
				if q.k[v] > 0 {
					p++
				} else if q.k[v] < 0 {
					m++
				}
			}
			if best < 0 || p*m < best {
				best, bi = p*m, i
			}
		}
		v := left[bi]
		left = append(left[:bi], left[bi+1:]...)
		var pos, negs, rest []row
		for _, q := range rows {
			switch {
			case q.k[v] == 0:
				rest = append(rest, q)
			case q.k[v] > 0:
				pos = append(pos, q)
			default:
				negs = append(negs, q)
			}
		}
		if len(pos)*len(negs)+len(rest) > 400 {
			return false
		}
		for _, p := range pos {
			for _, m := range negs {
				q, ok, bad := combine(p, m, v, real)
				if bad {
					return true
				}
				if ok {
					rest = append(rest, q)
				}
			}
		}
		rows = rest
	}
	return false
}

// mkRow converts c + Σ k·a ≥ 0. ok is false for a constraint that says nothing
// (or whose coefficients are too large to handle, which only loses precision);
// bad is true for a contradiction.
func mkRow(t *Term, idx map[*Term]int, real []bool) (r row, ok, bad bool) {
	n := len(real)
	if t.op != "lin" {
		r = row{new(big.Int), make([]int64, n)}
		r.k[idx[t]] = 1
		return r, true, false
	}
	if len(t.args) == 0 {
		return r, false, t.c.Sign() < 0
	}
	l := big.NewInt(1)
	whole := true
	for _, k := range t.ks {
		if !k.IsInt() {
			whole = false
			g := new(big.Int).GCD(nil, nil, l, k.Denom())
			l.Mul(l, k.Denom())
			l.Div(l, g)
		}
	}
	for _, a := range t.args {
		if real[idx[a]] && !t.c.IsInt() {
			// keep the constant exact
			whole = false
			g := new(big.Int).GCD(nil, nil, l, t.c.Denom())
			l.Mul(l, t.c.Denom())
			l.Div(l, g)
			break
		}
	}
	r = row{nil, make([]int64, n)}
	for i, a := range t.args {
		x := t.ks[i].Num()
		if !whole {
			x = new(big.Int).Mul(t.ks[i].Num(), l)
			x.Div(x, t.ks[i].Denom())
		}
		if !x.IsInt64() {
			return r, false, false
		}
		r.k[idx[a]] = x.Int64()
	}
	if whole && t.c.IsInt() {
		r.c = new(big.Int).Set(t.c.Num())
	} else {
		c := new(big.Int).Mul(t.c.Num(), l)
		r.c = c.Div(c, t.c.Denom()) // floor: the left part is an integer
	}
	return normRow(r, real)
}

func normRow(r row, real []bool) (row, bool, bool) {
	var g uint64
	whole := true
	for i, k := range r.k {
		if k != 0 {
			g = gcd(g, absU(k))
			if real[i] {
				whole = false
			}
		}
	}
	if g == 0 {
		return r, false, r.c.Sign() < 0
	}
	if g > 1 && g < 1<<63 && whole {
		for i := range r.k {
			r.k[i] /= int64(g)
		}
		r.c.Div(r.c, new(big.Int).SetUint64(g)) // Euclidean, divisor positive: floor
	}
	return r, true, false
}

func absU(k int64) uint64 {
	if k < 0 {
		return uint64(-k)
	}
	return uint64(k)
}

func gcd(a, b uint64) uint64 {
	for b != 0 {
		a, b = b, a%b
	}
	return a
}

func mulOK(a, b int64) (int64, bool) {
	if a == 0 || b == 0 {
		return 0, true
	}
	h, l := bits.Mul64(absU(a), absU(b))
	if h != 0 || l >= 1<<62 {
		return 0, false
	}
	if (a < 0) != (b < 0) {
		return -int64(l), true
	}
	return int64(l), true
}

// combine adds p and m scaled so that variable v cancels.
func combine(p, m row, v int, real []bool) (row, bool, bool) {
	kp, km := p.k[v], -m.k[v]
	if g := int64(gcd(uint64(kp), uint64(km))); g > 1 {
		kp, km = kp/g, km/g
	}
	r := row{nil, make([]int64, len(p.k))}
	for i := range p.k {
		if i == v || p.k[i] == 0 && m.k[i] == 0 {
			continue
		}
		a, ok1 := mulOK(p.k[i], km)
		b, ok2 := mulOK(m.k[i], kp)
		if !ok1 || !ok2 {
			return r, false, false
		}
		r.k[i] = a + b
	}
	r.c = new(big.Int).Mul(p.c, big.NewInt(km))
	r.c.Add(r.c, new(big.Int).Mul(m.c, big.NewInt(kp)))
	return normRow(r, real)
}

// isIntAtom reports whether an atom only takes integer values.
func isIntAtom(a *Term) bool {
	switch a.op {
	case "log2":
		return false
	case "mul":
		for _, x := range a.args {
			for _, y := range linAtoms(x) {
				if !isIntAtom(y) {
					return false
				}
			}
		}
		return true
	case "ceil", "floor", "trunc", "round", "f2i":
		return true
	}
	return a.typ == nil || !isFloat(a.typ)
}

// shiftGap is the constant by which the shift of a exceeds that of b.
func shiftGap(a, b *Term) (int64, bool) {
	if a == b || a.op != "shr" || b.op != "shr" || a.args[0] != b.args[0] {
		return 0, false
	}
	return constInt(sub(a.args[1], b.args[1]))
}

var kendMemo = map[*Term][]*Term{}

// kendBounds lists numbers n at which the loop surely stops, so that it stops
// after at most n iterations.
func kendBounds(a *Term) []*Term {
	if r, ok := kendMemo[a]; ok {
		return r
	}
	kendMemo[a] = nil
	mu := a.args[0]
	if mu.op != "mu" || openTerm(mu) {
		return nil
	}
	_, h, _ := muParts(mu)
	k := bv("k", h, nil)
	var out []*Term
	seen := map[*Term]bool{}
	has(mu.args[0], func(x *Term) bool {
		if x.op != "ge0" {
			return false
		}
		if q := toPoly(x.args[0]).m[k]; q == nil || q.Cmp(rat(1)) != 0 && q.Cmp(rat(-1)) != 0 {
			return false
		} else if n := sub(k, scale(x.args[0], q)); !openTerm(n) {
			// k - n >= 0 stops at n; n - k >= 0 goes on up to n
			if q.Sign() < 0 {
				n = addc(n, 1)
			}
			if seen[n] {
				return false
			}
			seen[n] = true
			if noFacts.entails(n) && decideB(subst(mu.args[0], map[*Term]*Term{k: n}, map[*Term]*Term{}), noFacts) == 1 {
				out = append(out, n)
			}
		}
		return false
	})
	kendMemo[a] = out
	return out
}

func isRuneCall(c *Term) bool {
	return c.op == "call" && (c.aux == "unicode/utf8.DecodeRuneInString" || c.aux == "unicode/utf8.DecodeRune") && len(c.args) == 1 && !hasIte(c.args[0])
}
