package main

import (
	"fmt"
	"go/types"
)

// Sequences (slice, array and string contents) are functional terms:
// seq(e…) literal, cat(s…), mkseq(n) zero-filled, upd(s,i,v), sub(s,lo,hi),
// or any opaque term.

func seqLit(es ...*Term) *Term { return app("seq", "", nil, es...) }

func seqLen(s *Term) *Term {
	switch s.op {
	case "nil":
		return mkInt(0)
	case "seq":
		return mkInt(int64(len(s.args)))
	case "cat":
		r := mkInt(0)
		for _, a := range s.args {
			r = add(r, seqLen(a))
		}
		return r
	case "mkseq":
		return s.args[0]
	case "upd":
		return seqLen(s.args[0])
	case "sub":
		return sub(s.args[2], s.args[1])
	case "str":
		return mkInt(int64(len(s.aux)))
	case "sl":
		return s.args[2]
	case "msl":
		return s.args[2]
	case "mrange":
		return s.args[3]
	case "comp":
		return s.args[0]
	case "ite":
		return seqLenL(s)
	case "conv":
		if s.aux == "[]byte" {
			return seqLen(s.args[0])
		}
	}
	if n, ok := slotLen[s]; ok {
		return n
	}
	if s.op == "at" || s.op == "att" {
		if init := sameLength(s.args[0]); init != nil {
			return seqLenL(init)
		}
	}
	return app("len", "", nil, s)
}

// sameLength is what the first variable of a loop starts out with if the loop
// never changes its length, else nil.
func sameLength(mu *Term) *Term {
	if mu.op != "mu" {
		return nil
	}
	if mu.fixed == 0 {
		mu.fixed = 1
		n, h, kind := muParts(mu)
		if kind == "slot" {
			var own *Term
			has(mu.args[1], func(x *Term) bool {
				if x.op == "bv" && x.aux == fmt.Sprintf("s0@%d", h) {
					own = x
				}
				return false
			})
			if own != nil && has(mu.args[1], func(x *Term) bool { return x.op == "upd" }) && seqLenL(mu.args[1]) == app("len", "", nil, own) {
				mu.fixed = int8(n + 2)
			}
		}
	}
	if mu.fixed == 1 {
		return nil
	}
	return mu.args[1+int(mu.fixed)-2]
}

func seqCat(parts ...*Term) *Term {
	var fl []*Term
	for _, p := range parts {
		switch {
		case p.op == "nil" || p.op == "seq" && len(p.args) == 0 || p.op == "str" && p.aux == "":
		case p.op == "cat":
			fl = append(fl, p.args...)
		default:
			fl = append(fl, p)
		}
	}
	var out []*Term
	for _, p := range fl {
		if n := len(out); n > 0 {
			l := out[n-1]
			if l.op == "seq" && p.op == "seq" {
				out[n-1] = seqLit(append(append([]*Term{}, l.args...), p.args...)...)
				continue
			}
			if l.op == "str" && p.op == "str" {
				out[n-1] = mkStr(l.aux + p.aux)
				continue
			}
			if l.op == "comp" && p.op == "seq" {
				// [e(k) | k<n] ++ [e(n)] = [e(k) | k<n+1]
				for p.op == "seq" && len(p.args) > 0 && compAt(l, l.args[0]) == p.args[0] {
					l = mkComp(addc(l.args[0], 1), l.args[1], int(mustInt(l.aux)))
					p = seqLit(p.args[1:]...)
				}
				out[n-1] = l
				if len(p.args) == 0 {
					continue
				}
			}
			if l.op == "sub" && p.op == "seq" {
				// s[a:b] ++ [s[b]] = s[a:b+1]
				for len(p.args) > 0 && p.args[0].op == "idx" && p.args[0].args[0] == l.args[0] && p.args[0].args[1] == l.args[2] {
					l = seqSub(l.args[0], l.args[1], addc(l.args[2], 1), nil)
					p = seqLit(p.args[1:]...)
					if l.op != "sub" {
						break
					}
				}
				out[n-1] = l
				if len(p.args) == 0 {
					continue
				}
			}
			if l.op == "sub" && p.op == "sub" && l.args[0] == p.args[0] && l.args[2] == p.args[1] {
				out[n-1] = seqSub(l.args[0], l.args[1], p.args[2], nil)
				continue
			}
		}
		out = append(out, p)
	}
	switch len(out) {
	case 0:
		return seqLit()
	case 1:
		return out[0]
	}
	return app("cat", "", nil, out...)
}

func seqSub(s, lo, hi *Term, f *FactSet) *Term {
	if z, ok := constInt(lo); ok && z == 0 && hi == seqLen(s) {
		return s
	}
	if lo == hi {
		return seqLit()
	}
	l, lok := constInt(lo)
	h, hok := constInt(hi)
	switch s.op {
	case "seq":
		if lok && hok && l >= 0 && h <= int64(len(s.args)) && l <= h {
			return seqLit(s.args[l:h]...)
		}
	case "str":
		if lok && hok && l >= 0 && h <= int64(len(s.aux)) && l <= h {
			return mkStr(s.aux[l:h])
		}
	case "sub":
		return seqSub(s.args[0], add(s.args[1], lo), add(s.args[1], hi), f)
	case "cat":
		// align with part boundaries, or within a leading literal
		pos := mkInt(0)
		var acc []*Term
		in := false
		for _, p := range s.args {
			end := add(pos, seqLen(p))
			if !in {
				if pos == lo {
					in = true
				} else if p.op == "seq" || p.op == "str" {
					if pl, ok := constInt(sub(lo, pos)); ok && pl >= 0 {
						if n, ok2 := constInt(seqLen(p)); ok2 && pl < n {
							if eh, ok3 := constInt(sub(hi, pos)); ok3 && eh <= n {
								return seqSub(p, mkInt(pl), mkInt(eh), f)
							}
							acc = append(acc, seqSub(p, mkInt(pl), mkInt(n), f))
							in = true
							pos = end
							continue
						}
					}
				}
			}
			if in {
				if end == hi {
					acc = append(acc, p)
					return seqCat(acc...)
				}
				acc = append(acc, p)
			}
			pos = end
		}
	}
	return app("sub", "", nil, s, lo, hi)
}

func seqIndex(s, i *Term, typ types.Type, f *FactSet) *Term {
	if f == nil {
		f = noFacts
	}
	n, cok := constInt(i)
	switch s.op {
	case "seq":
		if cok && n >= 0 && n < int64(len(s.args)) {
			return s.args[n]
		}
	case "str":
		if cok && n >= 0 && n < int64(len(s.aux)) {
			return mkInt(int64(s.aux[n]))
		}
	case "sub":
		return seqIndex(s.args[0], add(s.args[1], i), typ, f)
	case "conv":
		// the bytes of a string
		if s.aux == "[]byte" {
			return seqIndex(s.args[0], i, types.Typ[types.Uint8], f)
		}
	case "mkseq":
		return zero(typ)
	case "comp":
		return compAt(s, i)
	case "mrange":
		return mbyte(s.args[0], s.args[1], add(s.args[2], i))
	case "upd":
		switch f.decide(mkEq0(sub(i, s.args[1]))) {
		case 1:
			return s.args[2]
		case -1:
			return seqIndex(s.args[0], i, typ, f)
		}
	case "cat":
		pos := mkInt(0)
		for _, p := range s.args {
			end := add(pos, seqLen(p))
			rel := sub(i, pos)
			// pos <= i < end ?
			if f.entails(rel) && f.entails(addc(sub(end, i), -1)) {
				return seqIndex(p, rel, typ, f)
			}
			if !f.entails(sub(i, end)) {
				break
			}
			pos = end
		}
	}
	return app("idx", "", typ, s, i)
}

func seqUpd(s, i, v *Term, elem types.Type) *Term {
	if n, ok := constInt(i); ok {
		if s.op == "seq" && n >= 0 && n < int64(len(s.args)) {
			as := append([]*Term{}, s.args...)
			as[n] = v
			return seqLit(as...)
		}
		if s.op == "cat" && s.args[0].op == "seq" && n >= 0 && n < int64(len(s.args[0].args)) {
			as := append([]*Term{}, s.args...)
			as[0] = seqUpd(as[0], i, v, elem)
			return seqCat(as...)
		}
	}
	if s.op == "cat" {
		// the first element of the last part: in bounds, so it exists
		n := len(s.args) - 1
		pos := seqLen(seqCat(s.args[:n]...))
		if l := s.args[n]; pos == i && (l.op == "sub" || l.op == "mkseq") {
			return seqCat(append(append([]*Term{}, s.args[:n]...), seqLit(v), seqSub(l, mkInt(1), seqLen(l), nil))...)
		}
	}
	if s.op == "upd" && s.args[1] == i {
		return app("upd", "", elem, s.args[0], i, v)
	}
	return app("upd", "", elem, s, i, v)
}

// zero value of a type
func zero(t types.Type) *Term {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return tFalse
		case u.Info()&types.IsString != 0:
			return mkStr("")
		case u.Info()&(types.IsInteger|types.IsFloat) != 0:
			return mkInt(0)
		}
		return tNil
	case *types.Struct:
		var fs []*Term
		for i := 0; i < u.NumFields(); i++ {
			fs = append(fs, zero(u.Field(i).Type()))
		}
		return app("struct", "", t, fs...)
	case *types.Slice:
		return seqLit()
	case *types.Array:
		if u.Len() <= 64 {
			var es []*Term
			for i := int64(0); i < u.Len(); i++ {
				es = append(es, zero(u.Elem()))
			}
			return seqLit(es...)
		}
		return app("mkseq", "", u.Elem(), mkInt(u.Len()))
	}
	return tNil
}

// functional maps
func mapSet(m, k, v *Term) *Term {
	if m.op == "mset" && m.args[1] == k {
		return app("mset", "", nil, m.args[0], k, v)
	}
	return app("mset", "", nil, m, k, v)
}

// mapGet returns (value, present) where present is a condition term.
func mapGet(m, k *Term, vt types.Type, f *FactSet) (*Term, *Term) {
	switch m.op {
	case "map0", "nil":
		return zero(vt), tFalse
	case "mset":
		switch f.decide(mkEq(m.args[1], k)) {
		case 1:
			return m.args[2], tTrue
		case -1:
			return mapGet(m.args[0], k, vt, f)
		}
		// a map with constant keys is a case analysis over them
		n, base := 0, m
		for base.op == "mset" && (base.args[1].op == "str" || isConst(base.args[1])) {
			n, base = n+1, base.args[0]
		}
		if n <= 64 && (base.op == "map0" || base.op == "nil") && !hasIte(k) {
			eq := mkEq(m.args[1], k)
			v, h := mapGet(m.args[0], k, vt, f.with(mkNot(eq)))
			return mkIte(eq, m.args[2], v), mkIte(eq, tTrue, h)
		}
	}
	return app("mget", "", vt, m, k), app("mhas", "", nil, m, k)
}
