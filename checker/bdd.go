package main

import (
	"go/types"
)

// Gated values. A value that depends on control flow is a decision diagram:
// ite(atom, then, else) with atoms ordered by term id, and plain terms as
// leaves. Boolean values are diagrams with true/false leaves; a lone atom
// stands for ite(atom,true,false).

func isBoolTerm(t *Term) bool {
	switch t.op {
	case "true", "false", "ge0", "eq0", "eq", "not", "isnil", "typeis", "ok", "mhas", "isnan", "feq", "flt", "fle", "strcmp", "strmore", "iterr":
		return true
	case "ite":
		return isBoolTerm(t.args[1]) || isBoolTerm(t.args[2])
	}
	return t.typ != nil && isBoolT(t.typ)
}

// canonAtom returns the atom of a literal and its polarity.
func canonAtom(c *Term) (*Term, bool) {
	switch c.op {
	case "not":
		a, p := canonAtom(c.args[0])
		return a, !p
	case "ge0":
		L := c.args[0]
		if L.op == "lin" && len(L.ks) > 0 && L.ks[0].Sign() < 0 {
			return mkNot(c), false
		}
	}
	return c, true
}

// topVar returns the splitting atom of t, or nil if t is a leaf.
func topVar(t *Term) *Term {
	if t.op == "ite" {
		return t.args[0]
	}
	if t != tTrue && t != tFalse && isBoolTerm(t) {
		a, _ := canonAtom(t)
		return a
	}
	return nil
}

// cof is the cofactor of t (whose top atom is v or larger) for v = pol.
func cof(t, v *Term, pol bool) *Term {
	if t.op == "ite" {
		if t.args[0] == v {
			if pol {
				return t.args[1]
			}
			return t.args[2]
		}
		return t
	}
	if t != tTrue && t != tFalse && isBoolTerm(t) {
		a, p := canonAtom(t)
		if a == v {
			return mkBool(p == pol)
		}
	}
	return t
}

func node(v, a, b *Term) *Term {
	if a == b {
		return a
	}
	if a == tTrue && b == tFalse {
		return v
	}
	if a == tFalse && b == tTrue {
		return mkNot(v)
	}
	// conditional updates of one element are an update by a conditional value
	if a.op == "upd" || b.op == "upd" {
		x, y := a, b
		if x.op != "upd" {
			x, y = b, a
		}
		s, i := x.args[0], x.args[1]
		if y == s && x.typ != nil {
			y = app("upd", "", x.typ, s, i, seqIndex(s, i, x.typ, noFacts))
		}
		if y.op == "upd" && y.args[0] == s && y.args[1] == i {
			if x == b {
				x, y = y, x
			}
			return app("upd", "", x.typ, s, i, mkIte(v, x.args[2], y.args[2]))
		}
	}
	// push through equal constructors so structure stays visible
	if a.op == b.op && a.aux == b.aux && len(a.args) == len(b.args) && len(a.args) > 0 && sameType(a.typ, b.typ) && a.obj == b.obj {
		switch a.op {
		case "struct", "tuple", "new", "iface", "seq":
			as := make([]*Term, len(a.args))
			for i := range as {
				as[i] = mkIte(v, a.args[i], b.args[i])
			}
			return app(a.op, a.aux, a.typ, as...)
		}
	}
	return app("ite", "", nil, v, a, b)
}

func sameType(a, b types.Type) bool {
	if a == nil || b == nil {
		return a == b
	}
	return types.Identical(a, b)
}

type iteKey struct{ c, a, b int }

var iteMemo = map[iteKey]*Term{}

// mkIte builds the diagram "if c then a else b" for a boolean diagram c.
func mkIte(c, a, b *Term) *Term {
	if c == tTrue {
		return a
	}
	if c == tFalse {
		return b
	}
	if a == b {
		return a
	}
	k := iteKey{c.id, a.id, b.id}
	if r, ok := iteMemo[k]; ok {
		return r
	}
	v := topVar(c)
	if v == nil {
		panic(undecided{"non-boolean condition " + c.String()})
	}
	for _, x := range []*Term{a, b} {
		if u := topVar(x); u != nil && u.id < v.id {
			v = u
		}
	}
	t := mkIte(cof(c, v, true), cof(a, v, true), cof(b, v, true))
	e := mkIte(cof(c, v, false), cof(a, v, false), cof(b, v, false))
	r := node(v, t, e)
	iteMemo[k] = r
	return r
}

func bNot(c *Term) *Term {
	if c.op != "ite" {
		return mkNot(c)
	}
	return mkIte(c, tFalse, tTrue)
}
func bAnd(a, b *Term) *Term { return mkIte(a, b, tFalse) }
func bOr(a, b *Term) *Term  { return mkIte(a, tTrue, b) }

// hasIte reports whether a diagram node occurs anywhere in t.
func hasIte(t *Term) bool {
	if t.ite == 0 {
		t.ite = 1
		if t.op == "ite" {
			t.ite = 2
		} else if t.op != "mu" && t.op != "comp" { // binders are compared separately
			for _, a := range t.args {
				if hasIte(a) {
					t.ite = 2
					break
				}
			}
		}
	}
	return t.ite == 2
}

var constrainMemo = map[[2]*Term]*Term{}

// constrain drops the branches of t that the diagram c rules out.
func constrain(t, c *Term) *Term {
	if c == tTrue || c == tFalse {
		return t
	}
	v := topVar(t)
	if v == nil && !hasIte(t) {
		return t
	}
	k := [2]*Term{t, c}
	if r, ok := constrainMemo[k]; ok {
		return r
	}
	if v == nil {
		nargs := make([]*Term, len(t.args))
		for i, a := range t.args {
			nargs[i] = constrain(a, c)
		}
		r := rebuild(t, nargs)
		constrainMemo[k] = r
		return r
	}
	u := topVar(c)
	var r *Term
	switch {
	case u == nil:
		r = t
	case u.id < v.id:
		r = constrain(t, bOr(cof(c, u, true), cof(c, u, false)))
	case u == v:
		c1, c0 := cof(c, u, true), cof(c, u, false)
		switch {
		case c1 == tFalse:
			r = constrain(cof(t, v, false), c0)
		case c0 == tFalse:
			r = constrain(cof(t, v, true), c1)
		default:
			r = mkIte(v, constrain(cof(t, v, true), c1), constrain(cof(t, v, false), c0))
		}
	default:
		r = mkIte(v, constrain(cof(t, v, true), c), constrain(cof(t, v, false), c))
	}
	constrainMemo[k] = r
	return r
}

// constrainIn applies constrain to every diagram inside t.
func constrainIn(t, c *Term, memo map[*Term]*Term) *Term {
	if !hasIte(t) || c.op == "true" || c.op == "false" {
		return t
	}
	if r, ok := memo[t]; ok {
		return r
	}
	r := t
	if t.op == "ite" {
		r = constrain(t, c)
	} else {
		nargs := make([]*Term, len(t.args))
		ch := false
		for i, a := range t.args {
			nargs[i] = constrainIn(a, c, memo)
			ch = ch || nargs[i] != a
		}
		if ch {
			r = rebuild(t, nargs)
		}
	}
	memo[t] = r
	return r
}

// restrict prunes branches of t that contradict the facts.
func restrict(t *Term, f *FactSet) *Term {
	if f == nil || !hasIte(t) {
		return t
	}
	if r, ok := f.rmemo[t]; ok {
		return r
	}
	if t.op == "ite" && len(f.cl) > 0 {
		t0 := t
		for _, c := range f.cl {
			t = constrain(t, c)
		}
		if t != t0 {
			r := restrict(t, f)
			f.rmemo[t0] = r
			return r
		}
	}
	var r *Term
	if t.op == "ite" {
		v := restrict(t.args[0], f)
		switch decideB(v, f) {
		case 1:
			r = restrict(t.args[1], f)
		case -1:
			r = restrict(t.args[2], f)
		default:
			lf := f.literals()
			ft, fe := lf.withCond(v), lf.withCond(bNot(v))
			switch {
			case ft.unsat:
				r = restrict(t.args[2], f)
			case fe.unsat:
				r = restrict(t.args[1], f)
			default:
				r = mkIte(v, restrict(t.args[1], ft), restrict(t.args[2], fe))
			}
		}
	} else {
		nargs := make([]*Term, len(t.args))
		ch := false
		for i, a := range t.args {
			nargs[i] = restrict(a, f)
			ch = ch || nargs[i] != a
		}
		r = t
		if ch {
			r = rebuild(t, nargs)
		}
	}
	f.rmemo[t] = r
	return r
}

// prune is restrict without carrying branch conditions downwards.
func prune(t *Term, f *FactSet, memo map[*Term]*Term) *Term {
	if !hasIte(t) {
		return t
	}
	if r, ok := memo[t]; ok {
		return r
	}
	var r *Term
	if t.op == "ite" {
		v := prune(t.args[0], f, memo)
		d := 0
		if v.op != "ite" {
			d = f.decide(v)
		}
		switch d {
		case 1:
			r = prune(t.args[1], f, memo)
		case -1:
			r = prune(t.args[2], f, memo)
		default:
			r = mkIte(v, prune(t.args[1], f, memo), prune(t.args[2], f, memo))
		}
	} else {
		nargs := make([]*Term, len(t.args))
		ch := false
		for i, a := range t.args {
			nargs[i] = prune(a, f, memo)
			ch = ch || nargs[i] != a
		}
		r = t
		if ch {
			r = rebuild(t, nargs)
		}
	}
	memo[t] = r
	return r
}

// decideB decides a boolean diagram under facts.
func decideB(c *Term, f *FactSet) int {
	if c.op != "ite" {
		return f.decide(c)
	}
	if f.set[c] {
		return 1
	}
	r := restrict(c, f)
	switch r {
	case tTrue:
		return 1
	case tFalse:
		return -1
	}
	var leaf func(t *Term) int
	leaf = func(t *Term) int {
		if t.op != "ite" {
			return f.decide(t)
		}
		a := leaf(t.args[1])
		if a == 0 || leaf(t.args[2]) != a {
			return 0
		}
		return a
	}
	return leaf(r)
}

// lift applies g to the leaves of x.
func lift(f *FactSet, x *Term, g func(*FactSet, *Term) *Term) *Term {
	if x.op != "ite" {
		return g(f, x)
	}
	v := x.args[0]
	ft, fe := f.with(v), f.with(mkNot(v))
	if ft.unsat {
		return lift(f, x.args[2], g)
	}
	if fe.unsat {
		return lift(f, x.args[1], g)
	}
	return mkIte(v, lift(ft, x.args[1], g), lift(fe, x.args[2], g))
}

func lift2(f *FactSet, x, y *Term, g func(*FactSet, *Term, *Term) *Term) *Term {
	return lift(f, x, func(f *FactSet, x *Term) *Term {
		return lift(f, restrict(y, f), func(f *FactSet, y *Term) *Term { return g(f, x, y) })
	})
}

func liftN(f *FactSet, xs []*Term, g func(*FactSet, []*Term) *Term) *Term {
	for i, x := range xs {
		if x.op == "ite" {
			return lift(f, x, func(f *FactSet, l *Term) *Term {
				ys := append([]*Term{}, xs...)
				ys[i] = l
				for j := i + 1; j < len(ys); j++ {
					ys[j] = restrict(ys[j], f)
				}
				return liftN(f, ys, g)
			})
		}
	}
	return g(f, xs)
}

// leaves enumerates the leaves of a diagram with the facts that reach them.
func leaves(f *FactSet, x *Term, g func(*FactSet, *Term, *Term)) {
	var rec func(f *FactSet, c, x *Term)
	rec = func(f *FactSet, c, x *Term) {
		if f.unsat {
			return
		}
		if x.op != "ite" {
			g(f, c, x)
			return
		}
		v := x.args[0]
		rec(f.with(v), bAnd(c, v), x.args[1])
		rec(f.with(mkNot(v)), bAnd(c, mkNot(v)), x.args[2])
	}
	rec(f, tTrue, x)
}

// someIteVar finds a splitting atom anywhere inside t.
func someIteVar(t *Term) *Term {
	if !hasIte(t) {
		return nil
	}
	if t.op == "ite" {
		return t.args[0]
	}
	if t.op == "mu" || t.op == "comp" {
		return nil
	}
	for _, a := range t.args {
		if v := someIteVar(a); v != nil {
			return v
		}
	}
	return nil
}

// hoist brings diagram nodes nested under arithmetic to the top.
func hoist(t *Term) *Term {
	for n := 0; n < 64; n++ {
		v := nestedArithIte(t)
		if v == nil {
			return t
		}
		a := subst(t, map[*Term]*Term{v: v.args[1]}, map[*Term]*Term{})
		b := subst(t, map[*Term]*Term{v: v.args[2]}, map[*Term]*Term{})
		return mkIte(v.args[0], hoist(a), hoist(b))
	}
	return t
}

func nestedArithIte(t *Term) *Term {
	if !hasIte(t) || t.flat {
		return nil
	}
	v := nestedArith(t)
	t.flat = v == nil
	return v
}

func nestedArith(t *Term) *Term {
	switch t.op {
	case "ite":
		for _, a := range t.args {
			if v := nestedArithIte(a); v != nil {
				return v
			}
		}
		return nil
	case "lin", "mul", "wrap", "shr", "ge0", "eq0", "eq", "isnil", "idx", "len", "sub", "cat", "not", "and", "or", "fdiv", "pow2", "field", "typeis", "as":
		for _, a := range t.args {
			if a.op == "ite" {
				return a
			}
			if v := nestedArithIte(a); v != nil {
				return v
			}
		}
	}
	return nil
}
