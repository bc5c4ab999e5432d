package main

import (
	"fmt"
	"go/types"
	"math/big"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Loop summaries. A loop is evaluated once with symbolic header values until
// the set of modified locations, the closed forms of its induction variables
// and its inductive facts are stable. Remaining loop-carried values become
// mu terms mu(stop; next…; init…) over bound variables; the loop runs until
// the first iteration count kend at which stop holds.

type acc struct {
	sym    *Term
	init   *Term
	typ    types.Type
	phi    *ssa.Phi
	loc    *Term
	closed *Term
	nocl   bool
	next   *Term
	dep    bool // closed is in terms of another loop-carried value
	part   bool // the field fld of a struct variable
	fld    int
	start  *Term
	owner  *ssa.Phi // variable holding the only pointer to a lexer; loc is its position
}

type Loop struct {
	id    int
	tok   *Term
	kappa *Term
	accs  []*acc
	invs  []*Term
}

const unrollMax = 40

// setPhi sets a loop variable, or one field of it, in the environment.
func (L *Loop) setPhi(fr *Frame, a *acc, v *Term) {
	if !a.part {
		fr.env[a.phi] = v
		return
	}
	s := a.phi.Type().Underlying().(*types.Struct)
	fs := make([]*Term, s.NumFields())
	old := fr.env[a.phi]
	for j := range fs {
		fs[j] = fieldOf(old, j, s.Field(j).Type())
	}
	fs[a.fld] = v
	fr.env[a.phi] = app("struct", "", a.phi.Type(), fs...)
}

// ownedLexer says whether a loop variable holds the only pointer to a copy of
// a lexer: whatever is assigned to it is a fresh copy used for nothing else.
func (e *Engine) ownedLexer(p *ssa.Phi) bool {
	if !e.tokens || !isLexerPtr(p.Type()) {
		return false
	}
	for _, v := range p.Edges {
		c, ok := v.(*ssa.Call)
		if v == p {
			continue
		}
		if !ok || c.Call.StaticCallee() == nil || e.tokenKind(nil, c.Call.StaticCallee(), "") != "clone" || len(*c.Referrers()) != 1 {
			return false
		}
	}
	return true
}

func (e *Engine) loop(fr *Frame, header *ssa.BasicBlock, blocks map[*ssa.BasicBlock]bool, eds []edge, push func(from, to *ssa.BasicBlock, s *State)) {
	e.nloops++
	e.loopSeq++
	L := &Loop{id: e.loopSeq}
	L.tok = intern(&Term{op: "loop", aux: fmt.Sprintf("L%d", L.id), obj: L})
	L.kappa = app("kappa", "", nil, L.tok)
	pre := e.enter(fr, header, eds) // sets the phis to their initial values
	objID := e.objSeq
	for i, ins := range header.Instrs {
		p, ok := ins.(*ssa.Phi)
		if !ok {
			break
		}
		if e.ownedLexer(p) {
			o := e.newObj(pre, "lexer", p.Type().(*types.Pointer).Elem())
			loc := posKey(o)
			a := &acc{owner: p, loc: loc, typ: loc.typ, init: e.getLoc(pre, posKey(fr.env[p])), start: fr.env[p]}
			a.sym = app("slot", fmt.Sprintf("%d.%s", i, p.Comment), loc.typ, L.tok)
			fr.env[p] = o
			L.accs = append(L.accs, a)
			continue
		}
		if s, ok := p.Type().Underlying().(*types.Struct); ok && s.NumFields() > 0 {
			v := fr.env[p]
			for j := 0; j < s.NumFields(); j++ {
				ft := s.Field(j).Type()
				a := &acc{phi: p, part: true, fld: j, typ: ft, init: fieldOf(v, j, ft)}
				if isSliceT(ft) {
					a.init = e.snap(pre, a.init)
				}
				a.sym = app("slot", fmt.Sprintf("%d.%s.%d", i, p.Comment, j), ft, L.tok)
				L.accs = append(L.accs, a)
			}
			continue
		}
		a := &acc{phi: p, typ: p.Type(), init: fr.env[p]}
		if isSliceT(p.Type()) {
			a.start = a.init
			a.init = e.snap(pre, a.init)
		}
		a.sym = app("slot", fmt.Sprintf("%d.%s", i, p.Comment), p.Type(), L.tok)
		L.accs = append(L.accs, a)
	}
	type exitRec struct {
		to *ssa.BasicBlock
		ed edge
	}
	nrets := len(fr.rets)
	var backs []edge
	var exits []exitRec
	body := func(set func(a *acc) *Term) *State {
		s := pre.clone()
		s.cond = tTrue
		for _, a := range L.accs {
			v := set(a)
			if a.phi != nil {
				L.setPhi(fr, a, v)
			} else {
				s.heap[a.loc] = v
			}
		}
		return s
	}
	run := func(s *State) {
		e.loopDepth++
		defer func() { e.loopDepth-- }()
		backs, exits = nil, nil
		fr.rets = fr.rets[:nrets]
		e.region(fr, blocks, header, s,
			func(ed edge) { backs = append(backs, ed) },
			func(to *ssa.BasicBlock, ed edge) { exits = append(exits, exitRec{to, ed}) })
		if len(fr.rets) > nrets {
			fail("return inside loop body region of %s", fr.fn)
		}
	}
	symbolic := func(a *acc) *Term {
		if a.closed != nil {
			return a.closed
		}
		return a.sym
	}
	nextOf := func(a *acc, ed edge) *Term {
		if a.phi != nil {
			v := e.valIn(fr, a.phi.Edges[predIndex(ed.from, header)], ed.st)
			if a.part {
				v = fieldOf(v, a.fld, a.typ)
			}
			if isSliceT(a.typ) {
				v = e.snap(ed.st, v)
			}
			return v
		}
		if a.owner != nil {
			return e.getLoc(ed.st, posKey(e.valIn(fr, a.owner.Edges[predIndex(ed.from, header)], ed.st)))
		}
		return e.getLoc(ed.st, a.loc)
	}
	local := func(x *Term) bool {
		return has(x, func(t *Term) bool {
			if t.op == "loop" {
				return t.obj.(*Loop).id >= L.id
			}
			if t.op == "addr" {
				o := t.obj.(*Object)
				return o.fresh && o.id > objID
			}
			return false
		})
	}
	shift := map[*Term]*Term{L.kappa: addc(L.kappa, 1)}
	stepMap := func(ed edge) map[*Term]*Term {
		m := map[*Term]*Term{L.kappa: addc(L.kappa, 1)}
		for _, a := range L.accs {
			if a.closed == nil {
				m[a.sym] = nextOf(a, ed)
			}
		}
		return m
	}
	tried := map[*Term]bool{}
	e.probe++
	for pass := 0; ; pass++ {
		if pass > 20 {
			fail("loop in %s did not stabilise", fr.fn)
		}
		s := body(symbolic)
		for _, iv := range L.invs {
			s.facts = s.facts.withCond(iv)
		}
		base := s.facts
		run(s)
		changed := false
		// modified locations
		seen := map[*Term]bool{}
		var locs []*Term
		for _, ed := range backs {
			for _, loc := range heapKeys(ed.st.heap) {
				v := ed.st.heap[loc]
				if seen[loc] || loc.op == "alive" || local(loc) && rootFresh(loc) {
					continue
				}
				isAcc := false
				for _, a := range L.accs {
					isAcc = isAcc || a.loc == loc
					// elements of a slice variable are part of its value
					isAcc = isAcc || loc.op == "content" && loc.args[0] == a.sym && a.phi != nil
				}
				if isAcc {
					continue
				}
				old, ok := pre.heap[loc]
				if !ok {
					old = e.defaultVal(loc)
				}
				if old == v || restrict(old, ed.st.facts) == v {
					continue
				}
				if local(loc) {
					// a per-iteration location of an input object
					fail("loop in %s writes an iteration-dependent location %s", fr.fn, loc)
				}
				seen[loc] = true
				locs = append(locs, loc)
			}
		}
		sort.Slice(locs, func(i, j int) bool { return locs[i].id < locs[j].id })
		for _, loc := range locs {
			init, ok := pre.heap[loc]
			if !ok {
				init = e.defaultVal(loc)
			}
			if hasIte(init) {
				init = restrict(init, pre.facts)
			}
			a := &acc{loc: loc, init: init, typ: loc.typ}
			a.sym = app("slot", "", loc.typ, L.tok, loc)
			if loc.op == "content" && init.op != "ite" && isSeqTerm(init) {
				// element writes keep the length
				slotLen[a.sym] = seqLen(init)
			}
			L.accs = append(L.accs, a)
			changed = true
		}
		if changed {
			for _, a := range L.accs {
				a.closed, a.dep = nil, false
			}
			L.invs = nil
			tried = map[*Term]bool{}
			continue
		}
		if len(backs) == 0 {
			break
		}
		// induction variables
		var histories []func()
		for _, a := range L.accs {
			if a.closed != nil {
				nx := subst(a.closed, shift, map[*Term]*Term{})
				for _, ed := range backs {
					if a.dep {
						nx = hoist(subst(a.closed, stepMap(ed), map[*Term]*Term{}))
					}
					if !eqUnder(ed.st.facts, ed.st.facts.counts(e.snapLocal(ed.st, nextOf(a, ed), objID)), nx) {
						a.closed, a.nocl, a.dep, changed = nil, true, false, true
						break
					}
				}
				continue
			}
			if a.nocl {
				continue
			}
			var vs []*Term
			for _, ed := range backs {
				vs = append(vs, ed.st.facts.simplify(ed.st.facts.counts(e.snapLocal(ed.st, nextOf(a, ed), objID)), map[*Term]*Term{}))
			}
			if cf := closedForm(L, a, vs, local, false); cf != nil {
				a.closed = cf
				changed = true
			} else if cf := closedForm(L, a, vs, local, true); cf != nil {
				histories = append(histories, func() { a.closed = cf })
			}
		}
		// a token looked at in advance is that of the current position
		for _, b := range L.accs {
			if b.loc == nil || b.loc.op != "lexpos" || b.closed != nil || changed {
				continue
			}
			for _, a := range L.accs {
				if a == b || a.closed != nil || a.nocl {
					continue
				}
				ai, bi := restrict(a.init, pre.facts), restrict(b.init, pre.facts)
				g := subst(ai, map[*Term]*Term{bi: b.sym}, map[*Term]*Term{})
				if g == ai {
					continue
				}
				ok := true
				for _, ed := range backs {
					ok = ok && eqUnder(ed.st.facts, nextOf(a, ed), hoist(subst(g, map[*Term]*Term{b.sym: nextOf(b, ed)}, map[*Term]*Term{})))
				}
				if ok {
					a.closed, a.dep, changed = g, true, true
				}
			}
		}
		if !changed && len(histories) > 0 {
			// only once no simpler form is left
			for _, f := range histories {
				f()
			}
			changed = true
		}
		if changed {
			continue
		}
		// inductive facts
		for i := 0; i < len(L.invs); i++ {
			for _, ed := range backs {
				if decideB(hoist(subst(L.invs[i], stepMap(ed), map[*Term]*Term{})), ed.st.facts) != 1 {
					L.invs = append(L.invs[:i:i], L.invs[i+1:]...)
					i--
					changed = true
					break
				}
			}
		}
		if changed {
			continue
		}
		var cands []*Term
		for _, ed := range backs {
			for _, c := range ed.st.facts.all {
				if (c.op == "ge0" || c.op == "eq0") && has(c, func(t *Term) bool { return t == L.kappa }) {
					ls := []*Term{c.args[0]}
					if c.op == "eq0" {
						ls = append(ls, neg(c.args[0]))
					}
					for _, l := range ls {
						cands = append(cands, mkGe0(subst(l, map[*Term]*Term{L.kappa: addc(L.kappa, -1)}, map[*Term]*Term{})))
					}
				}
				if c.op == "ge0" {
					cands = append(cands, c)
					// x < n guards give x <= n
					cands = append(cands, mkGe0(addc(c.args[0], 1)))
				}
			}
		}
		for _, a := range L.accs {
			if a.closed != nil || a.typ == nil {
				continue
			}
			if isSliceT(a.typ) && a.init.op != "ite" {
				d := sub(sub(seqLen(a.sym), seqLen(a.init)), L.kappa)
				cands = append(cands, mkGe0(d), mkGe0(neg(d)))
			}
			if _, ok := intKind(a.typ); ok && a.init.op != "ite" {
				cands = append(cands, mkGe0(sub(a.sym, a.init)), mkGe0(sub(a.init, a.sym)))
				// one more bit per iteration
				cands = append(cands, mkGe0(addc(sub(pow2(L.kappa), a.sym), -1)))
			}
		}
		for _, c := range cands {
			if tried[c] || c == tTrue || c == tFalse || !local(c) {
				continue
			}
			tried[c] = true
			m0 := map[*Term]*Term{L.kappa: mkInt(0)}
			for _, a := range L.accs {
				m0[a.sym] = a.init
			}
			if local(subst(c, m0, map[*Term]*Term{})) || decideB(hoist(subst(c, m0, map[*Term]*Term{})), pre.facts) != 1 || decideB(c, base) == 1 {
				continue
			}
			ok := true
			for _, ed := range backs {
				g := ed.st.facts.withCond(c)
				m := stepMap(ed)
				for k, v := range m {
					m[k] = g.simplify(v, map[*Term]*Term{})
				}
				if decideB(hoist(subst(c, m, map[*Term]*Term{})), g) != 1 {
					ok = false
					break
				}
			}
			if ok {
				L.invs = append(L.invs, c)
				changed = true
			}
		}
		if !changed {
			break
		}
	}
	e.probe--
	// small constant trip counts are unrolled
	if bound, ok := tripBound(L, backs); ok && bound <= unrollMax {
		e.unroll(fr, header, blocks, pre, L, int(bound), push)
		return
	}
	// final pass
	s := body(symbolic)
	for _, iv := range L.invs {
		s.facts = s.facts.withCond(iv)
	}
	run(s)
	if len(backs) == 0 {
		for _, x := range exits {
			st := x.ed.st
			st.cond = bAnd(pre.cond, st.cond)
			m := map[*Term]*Term{}
			for _, a := range L.accs {
				m[a.sym] = a.init
			}
			m[L.kappa] = mkInt(0)
			e.substState(fr, st, m, blocks, false)
			push(x.ed.from, x.to, st)
		}
		return
	}
	for _, a := range L.accs {
		if a.closed != nil {
			continue
		}
		var vs []*Term
		var es []*State
		for _, ed := range backs {
			vs = append(vs, ed.st.facts.simplify(ed.st.facts.counts(e.snapLocal(ed.st, nextOf(a, ed), objID)), map[*Term]*Term{}))
			es = append(es, ed.st)
		}
		a.next = gate(es, vs)
		a.init = e.snap(pre, a.init)
	}
	cont := tFalse
	for _, ed := range backs {
		cont = bOr(cont, ed.st.cond)
	}
	cont = e.snapLocal(pre, cont, objID)
	stop := bNot(cont)
	m := map[*Term]*Term{}
	kend := L.kend(stop)
	m[L.kappa] = kend
	for _, a := range L.accs {
		if a.closed == nil {
			m[a.sym] = app("at", "", a.typ, L.mu(stop, a))
		}
	}
	mus := map[*Term]*Term{}
	sub1 := func(t *Term) *Term { return hoist(L.unhist(stop, subst(t, m, map[*Term]*Term{}), mus)) }
	stopAt := sub1(stop)
	// values defined in the loop are seen from outside at the last iteration
	substEnv(fr, blocks, sub1)
	// loop invariants bound the final values wherever the loop is reached
	if e.loopDepth == 0 && e.probe == 0 {
		reached := tTrue
		for _, c := range pre.facts.all {
			reached = bAnd(reached, c)
		}
		for _, iv := range L.invs {
			e.axioms = append(e.axioms, bOr(bNot(reached), sub1(iv)))
		}
		if has(stopAt, func(t *Term) bool { return t.op == "at" }) {
			ax := bOr(bNot(reached), stopAt)
			if has(stopAt, func(t *Term) bool { return t.op == "kend" }) {
				e.stops = append(e.stops, ax)
			} else {
				e.axioms = append(e.axioms, ax)
			}
		}
	}
	for _, x := range exits {
		st := &State{cond: bAnd(pre.cond, sub1(x.ed.st.cond)), facts: pre.facts, heap: map[*Term]*Term{}}
		if len(exits) == 1 {
			st.cond = pre.cond
		}
		for _, iv := range L.invs {
			st.facts = st.facts.withCond(sub1(iv))
		}
		st.facts = st.facts.withCond(stopAt)
		for _, c := range x.ed.st.facts.all {
			st.facts = st.facts.withCond(sub1(c))
		}
		// an exit that pins the iteration count makes it explicit
		if kend.op == "kend" {
			for _, c := range st.facts.ge {
				k := toPoly(c).m[kend]
				if k == nil || !k.IsInt() || k.Num().CmpAbs(one) != 0 {
					continue
				}
				if st.facts.entails(neg(c)) && !isConst(c) {
					st.facts = st.facts.with(mkEq0(c))
				}
			}
		}
		for _, k := range heapKeys(x.ed.st.heap) {
			st.heap[sub1(k)] = sub1(x.ed.st.heap[k])
		}
		if st.facts.unsat {
			continue
		}
		push(x.ed.from, x.to, st)
	}
}

// counts rewrites iteration counts that the facts pin down.
func (f *FactSet) counts(t *Term) *Term {
	m := map[*Term]*Term{}
	has(t, func(k *Term) bool {
		if k.op != "kend" || openTerm(k) {
			return false
		}
		if v, ok := f.eqs[k]; ok {
			m[k] = v
			return false
		}
		for _, c := range f.ge {
			q := toPoly(c).m[k]
			if q == nil || !q.IsInt() || q.Num().CmpAbs(one) != 0 {
				continue
			}
			v := scale(addScaled(c, k, new(big.Rat).Neg(q)), new(big.Rat).Neg(q))
			if !has(v, func(x *Term) bool { return x == k }) && f.entails(neg(c)) {
				m[k] = v
				return false
			}
		}
		return false
	})
	return subst(t, m, map[*Term]*Term{})
}

var slotLen = map[*Term]*Term{}

// isSeqTerm: the content of a slice, as opposed to that of a map.
func isSeqTerm(t *Term) bool {
	if t.typ != nil {
		return isSliceT(t.typ)
	}
	return seqLike(t)
}

// heapKeys lists locations in a fixed order, so that results do not depend on
// map iteration.
func heapKeys(h map[*Term]*Term) []*Term {
	ks := make([]*Term, 0, len(h))
	for k := range h {
		ks = append(ks, k)
	}
	sort.Slice(ks, func(i, j int) bool { return ks[i].id < ks[j].id })
	return ks
}

func substEnv(fr *Frame, blocks map[*ssa.BasicBlock]bool, s1 func(*Term) *Term) {
	for _, b := range fr.fn.Blocks {
		if !blocks[b] {
			continue
		}
		for _, ins := range b.Instrs {
			if v, ok := ins.(ssa.Value); ok {
				if t, ok := fr.env[v]; ok {
					fr.env[v] = s1(t)
				}
			}
		}
	}
}

func (e *Engine) substState(fr *Frame, st *State, m map[*Term]*Term, blocks map[*ssa.BasicBlock]bool, _ bool) {
	memo := map[*Term]*Term{}
	s1 := func(t *Term) *Term { return hoist(subst(t, m, memo)) }
	st.cond = s1(st.cond)
	f := noFacts
	for _, c := range st.facts.all {
		f = f.withCond(s1(c))
	}
	st.facts = f
	for _, k := range heapKeys(st.heap) {
		st.heap[k] = s1(st.heap[k])
	}
	substEnv(fr, blocks, s1)
}

// tripBound finds a small constant upper bound on the iteration count.
func tripBound(L *Loop, backs []edge) (int64, bool) {
	best := int64(-1)
	for _, ed := range backs {
		r := ed.st.facts.rangeOf(L.kappa)
		h := int64(unrollMax + 1)
		if r.hi != nil && ratFloor(r.hi).Num().IsInt64() {
			h = ratFloor(r.hi).Num().Int64() + 1
		}
		if h > unrollMax {
			for k := int64(1); k <= 4; k++ {
				if ed.st.facts.entails(addc(neg(L.kappa), k-1)) {
					h = k
					break
				}
			}
		}
		if h > unrollMax {
			h = caseBound(ed.st.facts, L.kappa)
		}
		if h > best {
			best = h
		}
	}
	if best < 0 || best > unrollMax {
		return 0, false
	}
	return best, true
}

// caseBound bounds the iteration count by a case analysis of a condition known
// to hold, such as one on a length that takes one of a few values.
func caseBound(f *FactSet, kappa *Term) int64 {
	best := int64(unrollMax + 1)
	for _, c := range f.cl {
		if !has(c, func(x *Term) bool { return x == kappa }) {
			continue
		}
		h, n := int64(0), 0
		var walk func(c *Term, f *FactSet)
		walk = func(c *Term, f *FactSet) {
			if c == tFalse || f.unsat || h > unrollMax {
				return
			}
			if c.op == "ite" {
				walk(c.args[1], f.with(c.args[0]))
				walk(c.args[2], f.with(mkNot(c.args[0])))
				return
			}
			if c != tTrue {
				f = f.with(c)
			}
			n++
			r := f.rangeOf(kappa)
			if r.hi != nil && r.hi.Cmp(rat(unrollMax)) < 0 {
				h = max(h, ratFloor(r.hi).Num().Int64()+1)
				return
			}
			for _, k := range []int64{1, 2, 4, 8, 12, 16} {
				if n <= 16 && f.entails(addc(neg(kappa), k-1)) {
					h = max(h, k)
					return
				}
			}
			h = unrollMax + 1
		}
		walk(c, f)
		if h > 0 && h < best {
			best = h
		}
	}
	return best
}

// unroll evaluates the body a bounded number of times.
func (e *Engine) unroll(fr *Frame, header *ssa.BasicBlock, blocks map[*ssa.BasicBlock]bool, pre *State, L *Loop, n int, push func(from, to *ssa.BasicBlock, s *State)) {
	type exitRec struct {
		to *ssa.BasicBlock
		ed edge
	}
	e.loopDepth++
	defer func() { e.loopDepth-- }()
	cur := pre.clone()
	for _, a := range L.accs {
		if a.phi != nil && a.start != nil && e.mapOrder != 0 {
			L.setPhi(fr, a, a.start)
		} else if a.phi != nil {
			L.setPhi(fr, a, a.init)
		} else if a.owner != nil {
			fr.env[a.owner] = a.start
		}
	}
	type snapEnv map[ssa.Value]*Term
	var exits []exitRec
	var envs []snapEnv
	absCond := pre.cond
	cur.cond = tTrue
	for it := 0; it <= n; it++ {
		var backs []edge
		e.region(fr, blocks, header, cur.clone(),
			func(ed edge) { backs = append(backs, ed) },
			func(to *ssa.BasicBlock, ed edge) {
				exits = append(exits, exitRec{to, ed})
				sn := snapEnv{}
				for v, t := range fr.env {
					if ins, ok := v.(ssa.Instruction); ok && blocks[ins.Block()] {
						sn[v] = t
					}
				}
				envs = append(envs, sn)
			})
		if len(backs) == 0 {
			break
		}
		if it == n {
			fail("unrolling bound exceeded in %s", fr.fn)
		}
		cur = e.enter(fr, header, backs)
	}
	// values defined in the loop and used after it are selected by exit
	if len(exits) > 1 {
		all := map[ssa.Value]bool{}
		for _, sn := range envs {
			for v := range sn {
				all[v] = true
			}
		}
		for v := range all {
			var vs []*Term
			var es []*State
			for i, sn := range envs {
				if t, ok := sn[v]; ok {
					vs = append(vs, t)
					es = append(es, exits[i].ed.st)
				}
			}
			same := true
			for _, t := range vs {
				same = same && t == vs[0]
			}
			if same {
				fr.env[v] = vs[0]
				continue
			}
			fr.env[v] = gateSafe(es, vs)
		}
	}
	// one edge per (from,to): merge the iterations
	type ft struct{ f, t *ssa.BasicBlock }
	var order []ft
	groups := map[ft][]*State{}
	for _, x := range exits {
		k := ft{x.ed.from, x.to}
		if groups[k] == nil {
			order = append(order, k)
		}
		groups[k] = append(groups[k], x.ed.st)
	}
	for _, k := range order {
		s := e.merge(groups[k])
		s.cond = bAnd(absCond, s.cond)
		push(k.f, k.t, s)
	}
}

func gateSafe(es []*State, vs []*Term) *Term { return gate(es, vs) }

// snapLocal snapshots references to objects created inside the loop body.
func (e *Engine) snapLocal(st *State, v *Term, objID int) *Term {
	if !has(v, func(t *Term) bool {
		return t.op == "addr" && t.obj.(*Object).fresh && t.obj.(*Object).id > objID
	}) {
		return v
	}
	return e.snap(st, v)
}

// eqUnder decides equality of two values under facts.
func eqUnder(f *FactSet, a, b *Term) bool {
	if a == b {
		return true
	}
	a, b = f.simplify(a, map[*Term]*Term{}), f.simplify(b, map[*Term]*Term{})
	if a == b {
		return true
	}
	if a.op == "lin" || b.op == "lin" || a.op == "wrap" {
		if a.op == "ite" || b.op == "ite" {
			return false
		}
		return f.decide(mkEq0(sub(a, b))) == 1
	}
	return false
}

// closedForm recognises x' = x, x' = x + c, x' = x >> c and sequence
// comprehensions.
func closedForm(L *Loop, a *acc, vs []*Term, local func(*Term) bool, hist bool) *Term {
	for _, v := range vs {
		if v != vs[0] {
			return nil
		}
	}
	v := vs[0]
	if v == a.sym {
		return a.init
	}
	if v == a.init && !local(v) {
		return a.init
	}
	if v.op == "shr" && v.args[0] == a.sym && !local(v.args[1]) {
		return lift(noFacts, a.init, func(_ *FactSet, x *Term) *Term { return shr(x, mul(v.args[1], L.kappa), nil) })
	}
	if v.op == "ite" {
		return nil
	}
	if a.init.op == "ite" {
		// an integer starting at one of several constants
		if a.typ == nil || !isIntType(a.typ) || !constLeaves(a.init) {
			return nil
		}
		d := sub(v, a.sym)
		if local(d) || d.op == "ite" {
			return nil
		}
		return lift(noFacts, a.init, func(_ *FactSet, x *Term) *Term { return add(x, mul(d, L.kappa)) })
	}
	if a.loc != nil && a.loc.op == "itpos" {
		d := sub(v, a.sym)
		if !local(d) {
			return add(a.init, mul(d, L.kappa))
		}
		return nil
	}
	if a.typ != nil {
		if k, ok := intKind(a.typ); ok {
			body := v
			if v.op == "wrap" && v.aux == k {
				body = v.args[0]
			}
			d := sub(body, a.sym)
			if !local(d) {
				cf := add(a.init, mul(d, L.kappa))
				if v == body {
					return cf // no overflow; confirmed on the next pass
				}
				return wrapTerm(k, cf, nil)
			}
			return nil
		}
	}
	usesSelf := func(t *Term) bool {
		return has(t, func(x *Term) bool { return x == a.sym || !hist && x.op == "slot" && x.args[0] == L.tok })
	}
	// append: x' = x ++ [v(κ)]
	if v.op == "cat" && len(v.args) == 2 && v.args[0] == a.sym && v.args[1].op == "seq" && len(v.args[1].args) == 1 && !usesSelf(v.args[1]) && isContent(a) {
		return seqCat(a.init, L.compOf(v.args[1].args[0]))
	}
	// indexed fill: x' = upd(x, κ, v(κ))
	if v.op == "upd" && v.args[0] == a.sym && v.args[1] == L.kappa && !usesSelf(v.args[2]) && isContent(a) {
		n := seqLen(a.init)
		return seqCat(L.compOf(v.args[2]), seqSub(a.init, L.kappa, n, nil))
	}
	return nil
}

func constLeaves(t *Term) bool {
	if t.op == "ite" {
		return constLeaves(t.args[1]) && constLeaves(t.args[2])
	}
	_, ok := constInt(t)
	return ok
}

// compOf builds [ v(k) | k < κ ]; loop-carried values in v are read as they
// were at iteration k.
func (L *Loop) compOf(v *Term) *Term {
	h := muHeight(v, map[*Term]int{}) + 1
	k := bv("k", h, nil)
	m := map[*Term]*Term{L.kappa: k}
	for i, a := range L.accs {
		m[a.sym] = app("hist", fmt.Sprint(i), a.typ, L.tok, k)
	}
	return mkComp(L.kappa, subst(v, m, map[*Term]*Term{}), h)
}

// histTerm is the value of the i-th loop-carried variable at iteration k.
func histTerm(tok *Term, i string, k *Term, typ types.Type) *Term {
	L := tok.obj.(*Loop)
	if k == L.kappa {
		return L.accs[mustInt(i)].sym
	}
	return app("hist", i, typ, tok, k)
}

// unhist expresses values at earlier iterations through the closed loop.
func (L *Loop) unhist(stop, t *Term, memo map[*Term]*Term) *Term {
	m := map[*Term]*Term{}
	// what an earlier iteration did matters only where it went on
	isHist := func(x *Term) bool { return x.op == "hist" && x.args[0] == L.tok }
	if has(t, isHist) {
		kend, high := L.kend(stop), muHeight(stop, map[*Term]int{})
		has(t, func(x *Term) bool {
			if x.op != "comp" || x.args[0] != kend || !has(x.args[1], isHist) {
				return false
			}
			h := int(mustInt(x.aux))
			if high >= h {
				return false
			}
			k := bv("k", h, nil)
			at := map[*Term]*Term{L.kappa: k}
			for i, a := range L.accs {
				if a.closed == nil {
					at[a.sym] = histTerm(L.tok, fmt.Sprint(i), k, a.typ)
				}
			}
			cont := bNot(hoist(subst(stop, at, map[*Term]*Term{})))
			if b := constrainIn(hoist(x.args[1]), cont, map[*Term]*Term{}); b != x.args[1] {
				m[x] = mkComp(x.args[0], b, h)
			}
			return false
		})
		t = subst(t, m, map[*Term]*Term{})
		m = map[*Term]*Term{}
	}
	has(t, func(x *Term) bool {
		if x.op == "hist" && x.args[0] == L.tok {
			a := L.accs[mustInt(x.aux)]
			if a.closed != nil {
				m[x] = subst(a.closed, map[*Term]*Term{L.kappa: x.args[1]}, map[*Term]*Term{})
				if has(m[x], func(y *Term) bool { return y.op == "hist" }) {
					fail("loop-carried value of unexpected shape")
				}
				return false
			}
			mu, ok := memo[a.sym]
			if !ok {
				mu = L.mu(stop, a)
				memo[a.sym] = mu
			}
			m[x] = app("att", "", x.typ, mu, x.args[1])
		}
		return false
	})
	return subst(t, m, map[*Term]*Term{})
}

func isContent(a *acc) bool {
	if a.loc != nil && a.loc.op == "content" {
		return true
	}
	return a.typ != nil && (isStringT(a.typ) || isSliceT(a.typ))
}

func isSliceT(t types.Type) bool {
	_, ok := t.Underlying().(*types.Slice)
	return ok
}

// height of bound variables below t
func muHeight(t *Term, memo map[*Term]int) int {
	if h, ok := memo[t]; ok {
		return h
	}
	h := 0
	for _, a := range t.args {
		if x := muHeight(a, memo); x > h {
			h = x
		}
	}
	if t.op == "mu" || t.op == "comp" {
		h++
	}
	memo[t] = h
	return h
}

func bv(name string, h int, typ types.Type) *Term {
	return app("bv", fmt.Sprintf("%s@%d", name, h), typ)
}

// mkCompFrom builds [ body(k) | k < n ] abstracting kappa in body.
func mkCompFrom(n, body, kappa *Term) *Term {
	h := muHeight(body, map[*Term]int{}) + 1
	k := bv("k", h, nil)
	return mkComp(n, subst(body, map[*Term]*Term{kappa: k}, map[*Term]*Term{}), h)
}

func mkComp(n, body *Term, h int) *Term {
	k := bv("k", h, nil)
	// [ s[k] | k < len s ] = s ; [ s[k+c] | k<n ] = s[c:c+n]
	if body.op == "idx" {
		s, i := body.args[0], body.args[1]
		d := sub(i, k)
		usesK := func(t *Term) bool { return has(t, func(x *Term) bool { return x == k }) }
		if !usesK(s) && !usesK(d) {
			return seqSub(s, d, add(d, n), nil)
		}
	}
	if c, ok := constInt(n); ok && c == 0 {
		return seqLit()
	}
	return app("comp", fmt.Sprint(h), nil, n, body)
}

// compAt instantiates the body of a comprehension.
func compAt(c, i *Term) *Term {
	h := int(mustInt(c.aux))
	return hoist(subst(c.args[1], map[*Term]*Term{bv("k", h, nil): i}, map[*Term]*Term{}))
}

// cone returns the slots (transitively) used by ts.
func (L *Loop) cone(ts ...*Term) []*acc {
	in := map[*acc]bool{}
	var order []*acc
	var visit func(t *Term, seen map[*Term]bool)
	visit = func(t *Term, seen map[*Term]bool) {
		if seen[t] {
			return
		}
		seen[t] = true
		if t.op == "slot" && t.args[0] == L.tok {
			for _, a := range L.accs {
				if a.sym == t && !in[a] {
					in[a] = true
					order = append(order, a)
					visit(a.next, map[*Term]bool{})
				}
			}
			return
		}
		for _, x := range t.args {
			visit(x, seen)
		}
	}
	for _, t := range ts {
		visit(t, map[*Term]bool{})
	}
	return order
}

func (a *acc) sortKey() string {
	k := typeKey(a.typ)
	if a.loc == traceKey {
		k = "!trace"
	}
	if a.loc == lenverKey {
		k = "!lenver"
	}
	return k + "|" + fmt.Sprintf("%08d", a.init.id)
}

// mu closes the loop over the slot a (nil: over the stop condition only).
func (L *Loop) mu(stop *Term, a *acc) *Term {
	roots := []*Term{stop}
	if a != nil {
		roots = append(roots, a.sym)
	}
	cone := L.cone(roots...)
	sort.SliceStable(cone, func(i, j int) bool {
		if (cone[i] == a) != (cone[j] == a) {
			return cone[i] == a
		}
		return cone[i].sortKey() < cone[j].sortKey()
	})
	memo := map[*Term]int{}
	h := muHeight(stop, memo)
	for _, c := range cone {
		if x := muHeight(c.next, memo); x > h {
			h = x
		}
	}
	h++
	m := map[*Term]*Term{L.kappa: bv("k", h, nil)}
	for i, c := range cone {
		m[c.sym] = bv(fmt.Sprintf("s%d", i), h, c.typ)
	}
	sm := map[*Term]*Term{}
	args := []*Term{restrict(hoist(subst(stop, m, sm)), newFactSet())}
	cont := bNot(args[0])
	cm := map[*Term]*Term{}
	for _, c := range cone {
		// the next value only matters where the loop goes on
		args = append(args, constrainIn(subst(c.next, m, sm), cont, cm))
	}
	for _, c := range cone {
		args = append(args, c.init)
	}
	for _, x := range args {
		if has(x, func(y *Term) bool { return y.op == "hist" && y.args[0] == L.tok }) {
			fail("loop-carried value of unexpected shape")
		}
	}
	aux := "stop"
	if a != nil {
		aux = "slot"
	}
	return app("mu", fmt.Sprintf("%s %d %d", aux, len(cone), h), nil, args...)
}

// kend is the iteration at which the loop stops: the bound itself for counted
// loops, an opaque count otherwise.
func (L *Loop) kend(stop *Term) *Term {
	// stop = ge0(κ - n) with κ <= n invariant and κ initially <= n
	if stop.op == "ge0" {
		p := toPoly(stop.args[0])
		if k := p.m[L.kappa]; k != nil && k.Cmp(rat(1)) == 0 {
			n := sub(L.kappa, stop.args[0])
			if !has(n, func(t *Term) bool { return t == L.tok }) {
				for _, iv := range L.invs {
					if iv == mkGe0(sub(n, L.kappa)) {
						return n
					}
				}
				if noFacts.entails(n) {
					return n
				}
			}
		}
	}
	return app("kend", "", nil, L.mu(stop, nil))
}

// muParts splits a mu term: its binder height and slot count.
func muParts(mu *Term) (slots, h int, kind string) {
	fmt.Sscanf(mu.aux, "%s %d %d", &kind, &slots, &h)
	return
}

// stopFact instantiates the stop condition recorded in kend(mu…).
func stopFact(kend *Term) *Term {
	mu := kend.args[0]
	n, h, _ := muParts(mu)
	if n != 0 {
		return tTrue
	}
	return hoist(subst(mu.args[0], map[*Term]*Term{bv("k", h, nil): kend}, map[*Term]*Term{}))
}

// zeroTrip returns what at(mu)/kend(mu) denotes when the facts make the loop
// stop before its first iteration, or nil.
func zeroTrip(t *Term, f *FactSet) *Term {
	mu := t.args[0]
	if mu.op != "mu" {
		return nil
	}
	n, h, _ := muParts(mu)
	m := map[*Term]*Term{bv("k", h, nil): mkInt(0)}
	suffix := fmt.Sprintf("@%d", h)
	has(mu.args[0], func(x *Term) bool {
		if x.op == "bv" && strings.HasPrefix(x.aux, "s") && strings.HasSuffix(x.aux, suffix) {
			var i int
			fmt.Sscanf(x.aux, "s%d@", &i)
			if 1+n+i < len(mu.args) {
				m[x] = mu.args[1+n+i]
			}
		}
		return false
	})
	if decideB(hoist(subst(mu.args[0], m, map[*Term]*Term{})), f) != 1 {
		return nil
	}
	if t.op == "kend" {
		return mkInt(0)
	}
	return mu.args[1+n]
}

func isIntType(t types.Type) bool {
	_, ok := intKind(t)
	return ok
}
