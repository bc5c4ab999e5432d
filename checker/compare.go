package main

import (
	"fmt"
	"os"
	"sort"
	"strconv"
	"strings"
)

// Comparison of value graphs. Two graphs agree if they are the same term, or
// become so under every valuation of the gates that occur in them.

type Cmp struct {
	steps  int
	max    int
	fresh  int
	report []string
	trial  int
	cases  int // nesting of case distinctions on clauses
	memo   map[cmpKey]bool

	aspect     string
	stops      bool
	resultOnly bool // effects are left to other pairs
}

type cmpKey struct {
	a, b *Term
	f    *FactSet
}

func newCmp() *Cmp { return &Cmp{max: 60000, memo: map[cmpKey]bool{}} }

func (c *Cmp) miss(f *FactSet, a, b *Term, path string) bool {
	if f.contradictory() {
		return true
	}
	if logMisses && c.trial > 0 {
		var fs []string
		for _, x := range f.all {
			fs = append(fs, x.String())
		}
		fmt.Fprintf(os.Stderr, "trial %s: %s ≠ %s when %s\n", path, clip(a.String(), 600), clip(b.String(), 600), clip(strings.Join(fs, " ∧ "), clipFacts))
	}
	if c.trial == 0 && len(c.report) < 3 {
		var fs []string
		for _, x := range f.all {
			fs = append(fs, x.String())
		}
		c.report = append(c.report, fmt.Sprintf("%s: %s ≠ %s when %s", path, clip(a.String(), 400), clip(b.String(), 400), clip(strings.Join(fs, " ∧ "), clipFacts)))
	}
	return false
}

var logMisses = os.Getenv("VC_MISSES") != ""

var clipFacts = envInt("VC_FACTS", 600)

func clip(s string, n int) string {
	r := []rune(s)
	if len(r) > n {
		return string(r[:n]) + "…"
	}
	return s
}

// kendFacts adds, for every loop exit count occurring in t, that the loop's
// stop condition holds there.
func kendFacts(f *FactSet, ts ...*Term) *FactSet {
	seen := map[*Term]bool{}
	var ks []*Term
	var walk func(t *Term)
	walk = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		if t.op == "mu" || t.op == "comp" {
			return
		}
		if t.op == "kend" {
			ks = append(ks, t)
		}
		for _, a := range t.args {
			walk(a)
		}
	}
	for _, t := range ts {
		walk(t)
	}
	for _, k := range ks {
		s := stopFact(k)
		if s != tTrue {
			f = f.withCond(s)
		}
	}
	return f
}

// restrictMu prunes loop bodies by facts that hold outside the loop.
func restrictMu(t *Term, f *FactSet) *Term {
	if len(t.args) == 0 || !hasMu(t) {
		return t
	}
	if r, ok := f.mmemo[t]; ok {
		return r
	}
	nargs := make([]*Term, len(t.args))
	ch := false
	for i, a := range t.args {
		nargs[i] = restrictMu(a, f)
		if t.op == "mu" || t.op == "comp" {
			nargs[i] = restrict(nargs[i], f)
		}
		ch = ch || nargs[i] != a
	}
	r := t
	if ch {
		if t.op == "mu" {
			n, _, _ := muParts(t)
			cont, cm := bNot(nargs[0]), map[*Term]*Term{}
			for i := 1; i <= n; i++ {
				nargs[i] = constrainIn(nargs[i], cont, cm)
			}
		}
		r = rebuild(t, nargs)
	}
	f.mmemo[t] = r
	return r
}

func hasMu(t *Term) bool {
	if t.hasmu == 0 {
		t.hasmu = 1
		if t.op == "mu" || t.op == "comp" {
			t.hasmu = 2
		}
		for _, a := range t.args {
			if t.hasmu == 1 && hasMu(a) {
				t.hasmu = 2
			}
		}
	}
	return t.hasmu == 2
}

func (c *Cmp) norm(t *Term, f *FactSet) *Term {
	for i := 0; i < 4; i++ {
		n := hoist(f.resolve(restrictMu(restrict(t, f), f)))
		n = hoist(n)
		n = restrict(n, f)
		n = f.simplify(n, f.smemo)
		if n == t {
			break
		}
		t = n
	}
	return t
}

func (c *Cmp) eq(a, b *Term, f *FactSet, path string) bool {
	if a == b || f.unsat {
		return true
	}
	k := cmpKey{a, b, f}
	if r, ok := c.memo[k]; ok && (r || c.trial > 0) {
		return r
	}
	r := c.eq1(a, b, f, path)
	c.memo[k] = r
	return r
}

func isErrLike(t *Term) bool { return t.op == "err" || t.op == "iface" }

func (c *Cmp) eq1(a, b *Term, f *FactSet, path string) bool {
	c.steps++
	tick()
	if c.steps > c.max {
		panic(undecided{"comparison budget exceeded at " + path})
	}
	a, b = c.norm(a, f), c.norm(b, f)
	if a == b {
		return true
	}
	if a.op == "err" || b.op == "err" {
		if isErrLike(a) && isErrLike(b) {
			return true
		}
	}
	var v *Term
	for _, x := range []*Term{a, b} {
		if u := topVar(x); u != nil && (v == nil || u.id < v.id) {
			v = u
		}
	}
	if v != nil {
		if isBoolTerm(a) && isBoolTerm(b) && a.op != "ite" && b.op != "ite" {
			// two literals: equal as conditions?
			c.trial++
			r := c.sameAtom(a, b, f, path)
			c.trial--
			if r {
				return true
			}
		}
		return c.split(v, a, b, f, path)
	}
	if a.op == "nil" && f.decide(app("isnil", "", nil, b)) == 1 || b.op == "nil" && f.decide(app("isnil", "", nil, a)) == 1 {
		return true
	}
	// numeric
	if a.op == "lin" || b.op == "lin" || a.op == "wrap" || b.op == "wrap" {
		if isNumLike(a) && isNumLike(b) {
			if u := firstVar(a, b); u != nil {
				return c.split(u, a, b, f, path)
			}
			if f.decide(mkEq0(sub(a, b))) == 1 {
				return true
			}
			if c.polyEq(a, b, f, path) {
				return true
			}
			// neither may be the larger one
			if d := sub(a, b); f.with(mkGe0(addc(d, -1))).contradictory() && f.with(mkGe0(addc(neg(d), -1))).contradictory() {
				return true
			}
			if x, y := unwrapMod(a), unwrapMod(b); (x != a || y != b) && f.decide(mkEq0(sub(x, y))) == 1 {
				return true
			}
		}
		if a.op == b.op && a.op == "wrap" && a.aux == b.aux {
			return c.eq(a.args[0], b.args[0], f, path)
		}
		// equal in every case of a condition known to hold?
		if v := c.caseVar(a, b, f); v != nil {
			c.cases++
			r := c.split(v, a, b, f, path)
			c.cases--
			return r
		}
		return c.miss(f, a, b, path)
	}
	if a.op == b.op && (a.op == "mu" || a.op == "comp") {
		return c.binder(a, b, f, path)
	}
	if isNumLike(a) && isNumLike(b) && f.decide(mkEq(a, b)) == 1 {
		return true
	}
	if a.op == b.op && a.aux == b.aux && sameType(a.typ, b.typ) && len(a.args) == len(b.args) && a.obj == b.obj && len(a.args) > 0 {
		for i := range a.args {
			if !c.eq(a.args[i], b.args[i], f, path+"/"+a.op+label(a)+fmt.Sprint(i)) {
				return false
			}
		}
		return true
	}
	if u := firstVar(a, b); u != nil {
		return c.split(u, a, b, f, path)
	}
	if isNumLike(a) && isNumLike(b) {
		if f.decide(mkEq0(sub(a, b))) == 1 {
			return true
		}
	}
	// sequences of different construction
	if seqLike(a) && seqLike(b) {
		if c.seqEq(a, b, f, path) {
			return true
		}
	}
	return c.miss(f, a, b, path)
}

// caseVar is an undecided condition, within one known to hold, on the numbers
// whose wrapping tells a and b apart.
func (c *Cmp) caseVar(a, b *Term, f *FactSet) *Term {
	if c.cases >= 3 {
		return nil
	}
	for _, w := range []*Term{a, b} {
		if w.op != "wrap" {
			continue
		}
		for _, x := range toPoly(w.args[0]).atoms() {
			for _, cl := range f.cl {
				for cl.op == "ite" {
					if v := cl.args[0]; f.decide(v) == 0 && has(v, func(t *Term) bool { return t == x }) {
						return v
					}
					cl = cl.args[2]
				}
			}
		}
	}
	return nil
}

// unwrapMod writes x mod 2^n as x - 2^n·floor(x/2^n).
func unwrapMod(t *Term) *Term {
	p := toPoly(t)
	r := mkRat(p.c)
	for _, a := range p.atoms() {
		b := a
		if a.op == "wrap" {
			if w, signed := kindWidth(a.aux); !signed {
				b = modPow2(a.args[0], w, nil)
			}
		}
		r = add(r, scale(b, p.m[a]))
	}
	return r
}

func label(t *Term) string {
	if t.aux == "" {
		return "."
	}
	return "[" + t.aux + "]."
}

func isNumLike(t *Term) bool {
	switch t.op {
	case "struct", "iface", "seq", "cat", "nil", "str", "tuple", "new", "addr", "err", "true", "false", "mset", "ev":
		return false
	}
	return true
}

func seqLike(t *Term) bool {
	switch t.op {
	case "seq", "cat", "comp", "sub", "upd", "mkseq", "mrange":
		return true
	}
	return false
}

func firstVar(a, b *Term) *Term {
	v := someIteVar(a)
	if u := someIteVar(b); u != nil && (v == nil || u.id < v.id) {
		v = u
	}
	return v
}

func (c *Cmp) split(v, a, b *Term, f *FactSet, path string) bool {
	ft, fe := f.withCond(v), f.withCond(bNot(v))
	ft, fe = kendFacts(ft, v), kendFacts(fe, v)
	if ft == f || fe == f {
		// the condition is already known; avoid splitting forever
		if ft == f && fe == f {
			return c.miss(f, a, b, path)
		}
	}
	ok := true
	if !ft.unsat {
		ok = c.eq(c.force(a, v, true), c.force(b, v, true), ft, path)
	}
	if ok && !fe.unsat {
		ok = c.eq(c.force(a, v, false), c.force(b, v, false), fe, path)
	}
	return ok
}

// force substitutes the truth value of an atom at diagram nodes.
func (c *Cmp) force(t, v *Term, pol bool) *Term {
	memo := map[*Term]*Term{}
	var rec func(t *Term) *Term
	rec = func(t *Term) *Term {
		if t == v {
			return mkBool(pol)
		}
		if !hasIte(t) && !isBoolTerm(t) || t.op == "mu" || t.op == "comp" {
			return t
		}
		if r, ok := memo[t]; ok {
			return r
		}
		r := t
		if t.op == "ite" {
			x := rec(t.args[0])
			switch x {
			case tTrue:
				r = rec(t.args[1])
			case tFalse:
				r = rec(t.args[2])
			default:
				r = mkIte(x, rec(t.args[1]), rec(t.args[2]))
			}
		} else if len(t.args) > 0 {
			na := make([]*Term, len(t.args))
			ch := false
			for i, x := range t.args {
				na[i] = rec(x)
				ch = ch || na[i] != x
			}
			if ch {
				r = rebuild(t, na)
			}
		}
		memo[t] = r
		return r
	}
	return rec(t)
}

func (c *Cmp) sameAtom(a, b *Term, f *FactSet, path string) bool {
	if a.op != b.op || a.aux != b.aux || len(a.args) != len(b.args) || !sameType(a.typ, b.typ) || len(a.args) == 0 {
		return false
	}
	for i := range a.args {
		if !c.eq(a.args[i], b.args[i], f, path) {
			return false
		}
	}
	return true
}

// polyEq matches the atoms of two polynomials up to value-graph equality.
func (c *Cmp) polyEq(a, b *Term, f *FactSet, path string) bool {
	p, q := toPoly(a), toPoly(b)
	if p.c.Cmp(q.c) != 0 {
		return false
	}
	var as, bs []*Term
	for _, t := range p.atoms() {
		k := p.m[t]
		if k.Sign() == 0 {
			continue
		}
		if o, ok := q.m[t]; ok && o.Cmp(k) == 0 || f.decide(mkEq0(t)) == 1 {
			continue
		}
		as = append(as, t)
	}
	for t, k := range q.m {
		if k.Sign() == 0 {
			continue
		}
		if o, ok := p.m[t]; ok && o.Cmp(k) == 0 || f.decide(mkEq0(t)) == 1 {
			continue
		}
		bs = append(bs, t)
	}
	if len(as) != len(bs) || len(as) == 0 {
		return false
	}
	sort.Slice(as, func(i, j int) bool { return as[i].id < as[j].id })
	sort.Slice(bs, func(i, j int) bool { return bs[i].id < bs[j].id })
	used := map[*Term]bool{}
	for _, x := range as {
		found := false
		for _, y := range bs {
			if used[y] || p.m[x].Cmp(q.m[y]) != 0 || x.op != y.op {
				continue
			}
			if x == a && y == b {
				continue
			}
			if len(as) > 1 {
				c.trial++
			}
			r := c.eqAtom(x, y, f, path)
			if len(as) > 1 {
				c.trial--
			}
			if r {
				used[y] = true
				found = true
				break
			}
		}
		if !found {
			return false
		}
	}
	return true
}

func (c *Cmp) eqAtom(x, y *Term, f *FactSet, path string) bool {
	if x.op == "mu" || x.op == "comp" {
		return c.binder(x, y, f, path)
	}
	if x.aux != y.aux || len(x.args) != len(y.args) || x.obj != y.obj || len(x.args) == 0 {
		return false
	}
	for i := range x.args {
		if !c.eq(x.args[i], y.args[i], f, path+"/"+x.op) {
			return false
		}
	}
	return true
}

// binder compares loop terms under a common name for their bound variables.
func (c *Cmp) binder(a, b *Term, f *FactSet, path string) bool {
	c.fresh++
	if a.op == "comp" {
		ha, hb := int(mustInt(a.aux)), int(mustInt(b.aux))
		if !c.eq(a.args[0], b.args[0], f, path+"/count") {
			return false
		}
		k := app("kappa", fmt.Sprintf("c%d", c.fresh), nil)
		x := subst(a.args[1], map[*Term]*Term{bv("k", ha, nil): k}, map[*Term]*Term{})
		y := subst(b.args[1], map[*Term]*Term{bv("k", hb, nil): k}, map[*Term]*Term{})
		g := f.with(mkGe0(addc(sub(a.args[0], k), -1)))
		g = goesOn(goesOn(g, x, k, a.args[0]), y, k, b.args[0])
		return c.eq(x, y, g, path+"/each")
	}
	na, ha, ka := muParts(a)
	nb, hb, kb := muParts(b)
	if na != nb || ka != kb || len(a.args) != len(b.args) {
		return c.miss(f, a, b, path)
	}
	k := app("kappa", fmt.Sprintf("c%d", c.fresh), nil)
	ma := map[*Term]*Term{bv("k", ha, nil): k}
	mb := map[*Term]*Term{bv("k", hb, nil): k}
	for i := 0; i < na; i++ {
		it := a.args[1+na+i]
		jt := b.args[1+na+i]
		if !c.eq(it, jt, f, path+"/init") {
			return false
		}
	}
	collect := func(t *Term, h int, m map[*Term]*Term) {
		seen := map[*Term]bool{}
		var walk func(t *Term)
		walk = func(t *Term) {
			if seen[t] {
				return
			}
			seen[t] = true
			if t.op == "bv" {
				var nm string
				var hh int
				if i := strings.IndexByte(t.aux, '@'); i >= 0 {
					nm = t.aux[:i]
					fmt.Sscanf(t.aux[i+1:], "%d", &hh)
				}
				if hh == h && nm != "k" {
					m[t] = app("slot", fmt.Sprintf("c%d.%s", c.fresh, nm), t.typ)
				}
			}
			for _, x := range t.args {
				walk(x)
			}
		}
		walk(t)
	}
	for i := 0; i <= na; i++ {
		collect(a.args[i], ha, ma)
		collect(b.args[i], hb, mb)
	}
	as, bs := make([]*Term, na+1), make([]*Term, na+1)
	for i := 0; i <= na; i++ {
		as[i] = subst(a.args[i], ma, map[*Term]*Term{})
		bs[i] = subst(b.args[i], mb, map[*Term]*Term{})
	}
	// loops inside of the loop
	if inner(as) || inner(bs) {
		if m := c.unifyLoops(append(append([]*Term{}, as...), bs...)); len(m) > 0 {
			for i := range as {
				as[i] = hoist(subst(as[i], m, map[*Term]*Term{}))
				bs[i] = hoist(subst(bs[i], m, map[*Term]*Term{}))
			}
		}
	}
	if !c.eq(as[0], bs[0], f, path+"/stop") {
		return false
	}
	g := f.withCond(bNot(as[0]))
	for i := 1; i <= na; i++ {
		if !c.eq(as[i], bs[i], g, path+"/step") {
			return false
		}
	}
	return true
}

func inner(ts []*Term) bool {
	for _, t := range ts {
		if has(t, func(x *Term) bool { return x.op == "mu" || x.op == "comp" }) {
			return true
		}
	}
	return false
}

// goesOn adds what the values of loops at iteration k tell: a loop that is known
// to run beyond k did not stop there.
func goesOn(f *FactSet, t, k, count *Term) *FactSet {
	var mus []*Term
	has(t, func(x *Term) bool {
		if x.op == "att" && x.args[1] == k && x.args[0].op == "mu" {
			mus = append(mus, x)
		}
		return false
	})
	if len(mus) == 0 {
		return f
	}
	var ends []*Term
	add := func(x *Term) bool {
		if x.op == "kend" {
			ends = append(ends, x)
		}
		return false
	}
	has(count, add)
	for _, x := range f.all {
		has(x, add)
	}
	done := map[*Term]bool{}
	for _, e := range ends {
		if done[e] || e.args[0].op != "mu" {
			continue
		}
		done[e] = true
		n, h, _ := muParts(e.args[0])
		if n == 0 || !f.entails(addc(sub(e, k), -1)) {
			continue
		}
		m := map[*Term]*Term{bv("k", h, nil): k}
		slotVars(e.args[0].args[0], h, func(x *Term, i int) {
			m[x] = app("att", "", x.typ, ownFirst(e.args[0], i), k)
		})
		f = f.withCond(bNot(hoist(subst(e.args[0].args[0], m, map[*Term]*Term{}))))
	}
	return f
}

// slotVars visits the variables of t that stand for slots of the loop at height h.
func slotVars(t *Term, h int, visit func(x *Term, i int)) {
	suffix := fmt.Sprintf("@%d", h)
	has(t, func(x *Term) bool {
		if x.op == "bv" && strings.HasPrefix(x.aux, "s") && strings.HasSuffix(x.aux, suffix) {
			var i int
			fmt.Sscanf(x.aux, "s%d@", &i)
			visit(x, i)
		}
		return false
	})
}

// ownFirst is the loop of mu seen from its slot i, which comes first.
func ownFirst(mu *Term, i int) *Term {
	n, h, _ := muParts(mu)
	order := []int{i}
	place := map[int]int{i: 0}
	for j := 0; j < n; j++ {
		if j != i {
			place[j] = len(order)
			order = append(order, j)
		}
	}
	m := map[*Term]*Term{}
	for j := 0; j <= n; j++ {
		slotVars(mu.args[j], h, func(x *Term, o int) { m[x] = bv(fmt.Sprintf("s%d", place[o]), h, x.typ) })
	}
	sm := map[*Term]*Term{}
	args := []*Term{hoist(subst(mu.args[0], m, sm))}
	for _, j := range order {
		args = append(args, hoist(subst(mu.args[1+j], m, sm)))
	}
	for _, j := range order {
		args = append(args, mu.args[1+n+j])
	}
	return app("mu", fmt.Sprintf("slot %d %d", n, h), nil, args...)
}

func (c *Cmp) seqEq(a, b *Term, f *FactSet, path string) bool {
	if !c.eq(seqLen(a), seqLen(b), f, path+"/len") {
		return false
	}
	n, ok := constInt(seqLen(a))
	if ok && n <= 64 {
		for i := int64(0); i < n; i++ {
			if !c.eq(seqIndex(a, mkInt(i), nil, f), seqIndex(b, mkInt(i), nil, f), f, fmt.Sprintf("%s[%d]", path, i)) {
				return false
			}
		}
		return true
	}
	// generic element
	c.fresh++
	k := app("kappa", fmt.Sprintf("c%d", c.fresh), nil)
	g := f.with(mkGe0(addc(sub(seqLen(a), k), -1)))
	x, y := seqIndex(a, k, nil, g), seqIndex(b, k, nil, g)
	if x.op == "idx" && y.op == "idx" && x.args[0] == a && y.args[0] == b {
		return false
	}
	return c.eq(x, y, g, path+"[k]")
}

// unifyLoops maps every closed loop term to a representative of its
// equivalence class.
func (c *Cmp) unifyLoops(roots []*Term) map[*Term]*Term {
	seen := map[*Term]bool{}
	var ms []*Term
	var walk func(t *Term)
	walk = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		if (t.op == "mu" || t.op == "comp") && !openTerm(t) {
			ms = append(ms, t)
		}
		for _, a := range t.args {
			walk(a)
		}
	}
	for _, r := range roots {
		walk(r)
	}
	hm := map[*Term]int{}
	sort.Slice(ms, func(i, j int) bool {
		if x, y := muHeight(ms[i], hm), muHeight(ms[j], hm); x != y {
			return x < y
		}
		return ms[i].id < ms[j].id
	})
	m := map[*Term]*Term{}
	var reps []*Term
	for _, t := range ms {
		u := subst(t, m, map[*Term]*Term{})
		if u.op != "mu" && u.op != "comp" {
			m[t] = u
			continue
		}
		var rep *Term
		for _, r := range reps {
			if r == u {
				rep = r
				break
			}
			if r.op != u.op || len(r.args) != len(u.args) {
				continue
			}
			c.trial++
			same := c.tryBinder(r, u)
			c.trial--
			if same {
				rep = r
				break
			}
		}
		if rep == nil {
			reps = append(reps, u)
			rep = u
		}
		if rep != t {
			m[t] = rep
		}
	}
	return m
}

func (c *Cmp) tryBinder(a, b *Term) (ok bool) {
	defer func() {
		if x := recover(); x != nil {
			if _, is := x.(undecided); !is {
				panic(x)
			}
			ok = false
		}
	}()
	return c.binder(a, b, noFacts, "")
}

// freeBV recognises bound variables of binders that enclose t.
func envInt(k string, d int) int {
	if n, err := strconv.Atoi(os.Getenv(k)); err == nil {
		return n
	}
	return d
}
