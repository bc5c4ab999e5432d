package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Object is an abstract allocation (one per evaluation of its site) or a global.
type Object struct {
	id    int
	name  string
	typ   types.Type
	fresh bool
	g     *ssa.Global // a package variable
}

// State is the abstract state at a program point: the reach condition within
// the current activation, the facts that dominate the point, and the heap.
type State struct {
	cond  *Term
	facts *FactSet
	heap  map[*Term]*Term
}

func (s *State) clone() *State {
	n := &State{cond: s.cond, facts: s.facts, heap: make(map[*Term]*Term, len(s.heap)+4)}
	for k, v := range s.heap {
		n.heap[k] = v
	}
	return n
}

type edge struct {
	from *ssa.BasicBlock
	st   *State
}

type ret struct {
	st  *State
	res []*Term
	pos token.Pos
}

type Frame struct {
	fn     *ssa.Function
	env    map[ssa.Value]*Term
	parent *Frame
	depth  int
	rets   []ret
	defers []deferred
	site   ssa.Instruction

	throws      []throw // failures leaving the function
	throwBlocks []*ssa.BasicBlock
}

type deferred struct {
	ins  *ssa.Defer
	fn   *Term
	args []*Term
}

// Obl is a safety obligation that the facts at its point do not establish.
type Obl struct {
	rule string
	why  string
	pos  token.Pos
	fn   *ssa.Function
	cond *Term
	f    *FactSet
}

type CallMode int

const (
	modeInline CallMode = iota
	modePure
	modeRead
	modeEvent
)

type Engine struct {
	axioms      []*Term
	stops       []*Term         // why loops with several exits stop
	hfam        map[string]bool // fields whose accesses are effects
	given       []*Term         // axioms of the harness
	loopDepth   int
	w           *World
	objSeq      int
	loopSeq     int
	probe       int
	steps       int
	budget      int
	mode        func(e *Engine, fr *Frame, fn *ssa.Function, args []*Term, st *State) (CallMode, bool)
	imode       func(iface types.Type, method string) CallMode
	replace     map[string]*ssa.Function
	obls        []Obl
	seenObl     map[string]bool
	nobl        int // obligations examined
	ncalls      int
	nloops      int
	funcs       map[*ssa.Function]bool
	globals     map[*Term]*Term
	assumes     bool
	events      map[string]token.Pos
	depthMax    int
	inlineAlign bool
	symNil      bool // symbolic pointers may be nil
	thrown      []throw
	symGlobals  map[string]bool
	mapOrder    int   // 1, -1: constant maps are ranged over in this order
	fatal       []Obl // operations that fail whenever they are reached
	tokens      bool  // lexers are positions in a token sequence
	rawTokens   bool  // the parsers' next and peek are looked into
}

type undecided struct{ msg string }

func fail(format string, a ...any) { panic(undecided{fmt.Sprintf(format, a...)}) }

func (e *Engine) newState() *State {
	h := map[*Term]*Term{}
	for k, v := range e.globals {
		h[k] = v
	}
	return &State{cond: tTrue, facts: noFacts, heap: h}
}

func fnKey(fn *ssa.Function) string {
	if o := fn.Origin(); o != nil {
		fn = o
	}
	k := fn.RelString(nil)
	if c, ok := canonical[k]; ok {
		return c
	}
	return k
}

// fnName is the name the references know fn by.
func fnName(fn *ssa.Function) string {
	k := fnKey(fn)
	return k[strings.LastIndex(k, ".")+1:]
}

var loopInfoCache = map[*ssa.Function]map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool{}

func loopsOf(fn *ssa.Function) map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool {
	if l, ok := loopInfoCache[fn]; ok {
		return l
	}
	m := map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool{}
	for _, b := range fn.Blocks {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				set := m[s]
				if set == nil {
					set = map[*ssa.BasicBlock]bool{s: true}
					m[s] = set
				}
				work := []*ssa.BasicBlock{b}
				for len(work) > 0 {
					x := work[len(work)-1]
					work = work[:len(work)-1]
					if set[x] {
						continue
					}
					set[x] = true
					work = append(work, x.Preds...)
				}
			}
		}
	}
	loopInfoCache[fn] = m
	return m
}

var rpoCache = map[*ssa.Function][]*ssa.BasicBlock{}

func rpo(fn *ssa.Function) []*ssa.BasicBlock {
	if r, ok := rpoCache[fn]; ok {
		return r
	}
	seen := map[*ssa.BasicBlock]bool{}
	var out []*ssa.BasicBlock
	var dfs func(b *ssa.BasicBlock)
	dfs = func(b *ssa.BasicBlock) {
		seen[b] = true
		for _, s := range b.Succs {
			if !seen[s] {
				dfs(s)
			}
		}
		out = append(out, b)
	}
	dfs(fn.Blocks[0])
	for i, j := 0, len(out)-1; i < j; i, j = i+1, j-1 {
		out[i], out[j] = out[j], out[i]
	}
	rpoCache[fn] = out
	return out
}

func predIndex(from, to *ssa.BasicBlock) int {
	for i, p := range to.Preds {
		if p == from {
			return i
		}
	}
	return 0
}

// ---- activations ----

// call evaluates fn and returns its merged result (nil state if it never
// returns normally).
func (e *Engine) call(fr *Frame, site ssa.Instruction, fn *ssa.Function, args, binds []*Term, st *State) ([]*Term, *State) {
	if len(fn.Blocks) == 0 {
		fail("no body for %s", fn)
	}
	nf := &Frame{fn: fn, env: map[ssa.Value]*Term{}, parent: fr, site: site}
	if fr != nil {
		nf.depth = fr.depth + 1
	}
	if nf.depth > 60 {
		fail("call depth exceeded at %s", fn)
	}
	e.funcs[fn] = true
	e.ncalls++
	if len(args) != len(fn.Params) {
		fail("arity mismatch calling %s", fn)
	}
	for i, p := range fn.Params {
		nf.env[p] = args[i]
	}
	for i, fv := range fn.FreeVars {
		nf.env[fv] = binds[i]
	}
	s := st.clone()
	s.cond = tTrue
	e.region(nf, nil, fn.Blocks[0], s, nil, nil)
	for _, t := range nf.throws {
		t.st.cond = bAnd(st.cond, t.st.cond)
		e.thrown = append(e.thrown, t)
	}
	if len(nf.rets) == 0 {
		return nil, nil
	}
	var es []*State
	for _, r := range nf.rets {
		es = append(es, r.st)
	}
	m := e.merge(es)
	res := make([]*Term, len(nf.rets[0].res))
	for i := range res {
		var vs []*Term
		for _, r := range nf.rets {
			vs = append(vs, r.res[i])
		}
		res[i] = restrict(gate(es, vs), m.facts)
	}
	if len(nf.throws) == 0 {
		m.cond = st.cond
		return res, m
	}
	m.facts = m.facts.withCond(m.cond)
	m.cond = bAnd(st.cond, m.cond)
	return res, m
}

// gate selects the value belonging to the edge that is taken.
func gate(es []*State, vs []*Term) *Term {
	r, any := vs[len(vs)-1], es[len(vs)-1].cond
	for i := len(vs) - 2; i >= 0; i-- {
		r = mkIte(es[i].cond, vs[i], r)
		any = bOr(any, es[i].cond)
	}
	// elsewhere the value does not matter
	return constrain(r, any)
}

func (e *Engine) merge(es []*State) *State {
	if len(es) == 1 {
		return es[0].clone()
	}
	m := &State{cond: tFalse, heap: map[*Term]*Term{}}
	for _, s := range es {
		m.cond = bOr(m.cond, s.cond)
	}
	m.facts = joinFacts(es)
	for _, c := range e.given {
		m.facts = m.facts.withCond(c)
	}
	keys := map[*Term]bool{}
	for _, s := range es {
		for k := range s.heap {
			keys[k] = true
		}
	}
	ks := make([]*Term, 0, len(keys))
	for k := range keys {
		ks = append(ks, k)
	}
	sort.Slice(ks, func(i, j int) bool { return ks[i].id < ks[j].id })
	for _, k := range ks {
		var vs []*Term
		var ss []*State
		same := true
		for _, s := range es {
			v, ok := s.heap[k]
			if !ok {
				if r := locRoot(k); r.op == "addr" && r.obj.(*Object).fresh && s.heap[aliveKey(r)] == nil {
					continue
				}
				v = e.defaultVal(k)
			}
			if len(vs) > 0 && v != vs[0] {
				same = false
			}
			vs = append(vs, v)
			ss = append(ss, s)
		}
		if same {
			m.heap[k] = vs[0]
			continue
		}
		m.heap[k] = restrict(gate(ss, vs), m.facts)
	}
	return m
}

func joinFacts(es []*State) *FactSet {
	base := es[0].facts
	for _, s := range es[1:] {
		if len(s.facts.all) < len(base.all) {
			base = s.facts
		}
	}
	all := true
	for _, s := range es {
		if s.facts != base {
			all = false
		}
	}
	if all {
		return base
	}
	f := noFacts
	for _, c := range base.all {
		ok := true
		for _, s := range es {
			if !s.facts.set[c] && s.facts.decide(c) != 1 {
				ok = false
				break
			}
		}
		if ok {
			f = f.with(c)
		}
	}
	// bounds that some of the states imply rather than hold
	for _, s := range es {
		for _, c := range s.facts.all {
			if s.facts == base || base.set[c] || f.set[c] || c.op != "ge0" {
				continue
			}
			if l := c.args[0]; l.op == "lin" && len(l.args) > 1 {
				continue
			}
			ok := true
			for _, o := range es {
				if o != s && !o.facts.set[c] {
					if r := o.facts.rangeOf(c.args[0]); r.lo == nil || r.lo.Sign() < 0 {
						ok = false
						break
					}
				}
			}
			if ok {
				f = f.with(c)
			}
		}
	}
	for _, c := range base.cl {
		ok := true
		for _, s := range es {
			if !s.facts.set[c] {
				ok = false
			}
		}
		if ok {
			f = f.withCond(c)
		}
	}
	return f
}

func aliveKey(a *Term) *Term { return app("alive", "", nil, a) }

func locRoot(loc *Term) *Term {
	for {
		switch loc.op {
		case "fa", "ia", "content", "itpos", "alive", "sl", "lexpos":
			loc = loc.args[0]
			continue
		}
		return loc
	}
}

func rootFresh(loc *Term) bool {
	r := locRoot(loc)
	return r.op == "addr" && r.obj.(*Object).fresh
}

// region evaluates the blocks of a function body (in == nil) or of a loop in
// topological order, merging states where control flow joins.
func (e *Engine) region(fr *Frame, in map[*ssa.BasicBlock]bool, entry *ssa.BasicBlock, st *State, back func(edge), exit func(to *ssa.BasicBlock, ed edge)) {
	loops := loopsOf(fr.fn)
	pending := map[*ssa.BasicBlock][]edge{}
	push := func(from, to *ssa.BasicBlock, s *State) {
		if s.facts.unsat || s.cond == tFalse {
			return
		}
		if in != nil && to == entry {
			back(edge{from, s})
			return
		}
		if in != nil && !in[to] {
			exit(to, edge{from, s})
			return
		}
		pending[to] = append(pending[to], edge{from, s})
	}
	for _, b := range rpo(fr.fn) {
		if in != nil && !in[b] {
			continue
		}
		if b == entry {
			e.block(fr, b, st, push)
			continue
		}
		eds := pending[b]
		if len(eds) == 0 {
			continue
		}
		if blocks, ok := loops[b]; ok {
			e.loop(fr, b, blocks, eds, push)
			continue
		}
		s := e.enter(fr, b, eds)
		e.block(fr, b, s, push)
	}
	if in == nil {
		for n := range fr.throwBlocks {
			var es []*State
			for _, ed := range pending[fr.throwBlocks[n]] {
				es = append(es, ed.st)
			}
			if len(es) > 0 {
				e.unwind(fr, n, e.merge(es))
			}
		}
	}
}

func (e *Engine) enter(fr *Frame, b *ssa.BasicBlock, eds []edge) *State {
	var es []*State
	for _, x := range eds {
		es = append(es, x.st)
	}
	s := e.merge(es)
	var vals []*Term
	var ps []*ssa.Phi
	for _, ins := range b.Instrs {
		p, ok := ins.(*ssa.Phi)
		if !ok {
			break
		}
		var vs []*Term
		for _, x := range eds {
			vs = append(vs, e.valIn(fr, p.Edges[predIndex(x.from, b)], x.st))
		}
		ps = append(ps, p)
		vals = append(vals, restrict(gate(es, vs), s.facts))
	}
	for i, p := range ps {
		fr.env[p] = vals[i]
	}
	return s
}

// block evaluates one basic block; push hands the state to successors.
func (e *Engine) block(fr *Frame, b *ssa.BasicBlock, st *State, push func(from, to *ssa.BasicBlock, s *State)) {
	for _, ins := range b.Instrs {
		e.steps++
		if e.steps > e.budget {
			fail("analysis budget exceeded in %s", fr.fn)
		}
		switch x := ins.(type) {
		case *ssa.Phi, *ssa.DebugRef:
		case *ssa.If:
			c := e.val(fr, x.Cond, st)
			switch decideB(c, st.facts) {
			case 1:
				push(b, b.Succs[0], st)
			case -1:
				push(b, b.Succs[1], st)
			default:
				s2 := st.clone()
				st.cond = bAnd(st.cond, c)
				st.facts = st.facts.withCond(c)
				n := bNot(c)
				s2.cond = bAnd(s2.cond, n)
				s2.facts = s2.facts.withCond(n)
				push(b, b.Succs[0], st)
				push(b, b.Succs[1], s2)
			}
			return
		case *ssa.Jump:
			push(b, b.Succs[0], st)
			return
		case *ssa.Return:
			var rs []*Term
			for _, r := range x.Results {
				rs = append(rs, e.val(fr, r, st))
			}
			if e.probe == 0 || true {
				fr.rets = append(fr.rets, ret{st, rs, x.Pos()})
			}
			return
		case *ssa.Panic:
			e.obligation(fr, st, tFalse, "panic", "panic reachable", x.Pos())
			return
		case *ssa.RunDefers:
			for i := len(fr.defers) - 1; i >= 0; i-- {
				d := fr.defers[i]
				if !d.ins.Block().Dominates(b) {
					fail("conditional defer in %s", fr.fn)
				}
				_, s := e.applyFn(fr, d.ins, d.fn, d.args, &d.ins.Call, st)
				if s == nil {
					return
				}
				st = s
			}
		case *ssa.Defer:
			if x.Call.IsInvoke() {
				fail("deferred interface call in %s", fr.fn)
			}
			var as []*Term
			for _, a := range x.Call.Args {
				as = append(as, e.val(fr, a, st))
			}
			fr.defers = append(fr.defers, deferred{x, e.val(fr, x.Call.Value, st), as})
		case *ssa.Call:
			outer := e.thrown
			e.thrown = nil
			r, s := e.doCall(fr, x, &x.Call, st)
			for _, t := range e.thrown {
				push(b, fr.throwTo(b), t.st)
			}
			e.thrown = outer
			if s == nil {
				return
			}
			st = s
			fr.env[x] = r
		default:
			if !e.simple(fr, ins, st) {
				return
			}
			if st.facts.unsat {
				return
			}
		}
	}
}

// ---- obligations ----

var sizes = types.SizesFor("gc", "amd64")

// obligation requires cond to follow from the facts; execution is assumed to
// continue only where it holds.
func (e *Engine) obligation(fr *Frame, st *State, cond *Term, rule, why string, pos token.Pos) bool {
	e.nobl++
	cond = restrict(cond, st.facts)
	d := decideB(cond, st.facts)
	if d == 1 {
		return true
	}
	if e.probe == 0 {
		k := fmt.Sprintf("%s|%d|%s", rule, pos, fr.fn)
		if !e.seenObl[k] {
			if st.facts.contradictory() {
				return false
			}
			if d == 0 && refute(st.facts.withCond(bNot(cond)), 6) {
				return true
			}
			e.seenObl[k] = true
			e.obls = append(e.obls, Obl{rule, why, pos, fr.fn, cond, st.facts})
		}
	}
	if d == -1 {
		if e.probe == 0 && e.loopDepth == 0 {
			e.fatal = append(e.fatal, Obl{rule, why, pos, fr.fn, cond, st.facts})
		}
		return false
	}
	st.facts = st.facts.withCond(cond)
	return !st.facts.unsat
}

// refute reports that f is contradictory, case by case of the gates it holds.
func refute(f *FactSet, depth int) bool {
	if f.contradictory() {
		return true
	}
	if depth == 0 {
		return false
	}
	for _, c := range f.cl {
		if a := c.args[0]; c.op == "ite" && decideB(a, f) == 0 {
			return refute(f.withCond(a), depth-1) && refute(f.withCond(bNot(a)), depth-1)
		}
	}
	return false
}

// ---- heap ----

func (e *Engine) newObj(st *State, name string, t types.Type) *Term {
	e.objSeq++
	if name == "" {
		name = "obj"
	}
	o := &Object{id: e.objSeq, name: fmt.Sprintf("%s#%d", name, e.objSeq), typ: t, fresh: true}
	a := intern(&Term{op: "addr", aux: o.name, typ: types.NewPointer(t), obj: o})
	st.heap[aliveKey(a)] = tTrue
	return a
}

func (e *Engine) globalAddr(g *ssa.Global) *Term {
	t := g.Type().(*types.Pointer).Elem()
	key := g.RelString(nil)
	if x, ok := e.w.globalObjs[key]; ok {
		return x
	}
	o := &Object{name: key, typ: t, g: g}
	x := intern(&Term{op: "addr", aux: o.name, typ: types.NewPointer(t), obj: o})
	e.w.globalObjs[key] = x
	return x
}

var traceKey = app("sym", "@trace", nil)
var lenverKey = app("sym", "@lenver", nil)
var trace0 = app("sym", "@start", nil)

func (e *Engine) defaultVal(loc *Term) *Term {
	switch loc.op {
	case "content":
		b := loc.args[0]
		if b.op == "addr" {
			o := b.obj.(*Object)
			if o.fresh {
				switch o.typ.Underlying().(type) {
				case *types.Map:
					return app("map0", "", nil)
				case *types.Array:
					return zero(o.typ)
				case *types.Slice:
					return seqLit()
				}
			}
			return app("ld", "", nil, loc)
		}
		if b.op == "fa" {
			if rootFresh(b) && b.typ != nil {
				return zero(b.typ)
			}
			return app("ld", "", nil, loc)
		}
		return b
	case "itpos":
		return mkInt(0)
	case "lexpos":
		return app("pos0", "", nil, loc.args[0])
	case "alive":
		return tTrue
	case "sym":
		if loc == traceKey || loc == lenverKey {
			return trace0
		}
	}
	if rootFresh(loc) && loc.typ != nil {
		return zero(loc.typ)
	}
	if e.w.sentinel(loc) {
		return app("err", "global "+loc.args[0].aux, nil)
	}
	return app("ld", "", loc.typ, loc)
}

func (e *Engine) getLoc(st *State, loc *Term) *Term {
	if v, ok := st.heap[loc]; ok {
		return restrict(v, st.facts)
	}
	if v, ok := e.w.constLoc(loc); ok && !e.isSymGlobal(loc) {
		return v
	}
	return e.defaultVal(loc)
}

// isSymGlobal says that a package variable is looked at as an unknown.
func (e *Engine) isSymGlobal(loc *Term) bool {
	if len(e.symGlobals) == 0 {
		return false
	}
	o := locRoot(loc).obj.(*Object)
	k := o.g.Pkg.Pkg.Path() + "." + o.g.Name()
	if c, ok := canonical[k]; ok {
		k = c
	}
	return e.symGlobals[k]
}

func contentKey(base *Term) *Term {
	if base.op == "sl" {
		base = base.args[0]
	}
	return app("content", "", nil, base)
}

func (e *Engine) fieldAddr(p *Term, i int, ft types.Type, name string) *Term {
	return app("fa", fmt.Sprintf("%d %s", i, name), ft, p)
}

func fieldOf(v *Term, i int, ft types.Type) *Term {
	if v.op == "ite" {
		return mkIte(v.args[0], fieldOf(v.args[1], i, ft), fieldOf(v.args[2], i, ft))
	}
	if v.op == "struct" && i < len(v.args) {
		return v.args[i]
	}
	return app("field", fmt.Sprint(i), ft, v)
}

func hasElemRoot(p *Term) bool {
	for {
		switch p.op {
		case "ia":
			return true
		case "fa":
			p = p.args[0]
			continue
		}
		return false
	}
}

func leafLoc(p *Term, t types.Type) *Term {
	if p.op == "fa" {
		return p
	}
	return app("fa", "*", t, p)
}

// load reads a value of type t through a pointer.
// isFieldEvent reports whether accesses to a field are kept in order as
// effects, as needed for fields of objects that may alias.
func (e *Engine) isFieldEvent(p *Term) bool {
	return len(e.hfam) > 0 && !rootFresh(p) && e.hfam[e.fieldKey(p)]
}

func (e *Engine) load(st *State, p *Term, t types.Type) *Term {
	if p.op == "ite" {
		return lift(st.facts, p, func(f *FactSet, q *Term) *Term {
			s := *st
			s.facts = f
			return e.load(&s, q, t)
		})
	}
	if p.op == "new" { // immutable snapshot
		return p.args[0]
	}
	if e.tokens && isLexerType(t) {
		return app("lexval", "", t, e.getLoc(st, posKey(p)))
	}
	switch u := t.Underlying().(type) {
	case *types.Struct:
		if p.op == "ia" {
			return e.loadElem(st, p, t)
		}
		fs := make([]*Term, u.NumFields())
		for i := range fs {
			fs[i] = e.load(st, e.fieldAddr(p, i, u.Field(i).Type(), u.Field(i).Name()), u.Field(i).Type())
		}
		// a structure read back unchanged is the structure itself
		if len(fs) > 0 && fs[0].op == "field" && fs[0].aux == "0" {
			same := true
			for i, x := range fs {
				if x.op != "field" || x.aux != fmt.Sprint(i) || x.args[0] != fs[0].args[0] {
					same = false
				}
			}
			if same {
				return fs[0].args[0]
			}
		}
		return app("struct", "", t, fs...)
	case *types.Array:
		return e.getLoc(st, contentKey(p))
	}
	switch p.op {
	case "ia":
		return e.loadElem(st, p, t)
	case "fa":
		b := p.args[0]
		if b.op == "ite" {
			return lift(st.facts, b, func(f *FactSet, q *Term) *Term {
				s := *st
				s.facts = f
				return e.load(&s, app("fa", p.aux, p.typ, q), t)
			})
		}
		if b.op == "new" {
			return fieldOf(b.args[0], int(mustInt(p.aux)), t)
		}
		if e.isFieldEvent(p) {
			return app("hld", p.aux, t, b, e.getLoc(st, traceKey))
		}
		if hasElemRoot(b) {
			sv := e.load(st, b, b.typ)
			return fieldOf(sv, int(mustInt(p.aux)), t)
		}
	}
	return e.getLoc(st, leafLoc(p, t))
}

func (e *Engine) loadElem(st *State, p *Term, t types.Type) *Term {
	base, i := p.args[0], p.args[1]
	return lift2(st.facts, base, i, func(f *FactSet, base, i *Term) *Term {
		s := *st
		s.facts = f
		switch base.op {
		case "msl":
			return mbyte(base.args[0], e.getLoc(&s, traceKey), add(base.args[1], i))
		case "fa", "ia":
			c := e.load(&s, base, base.typ)
			return seqIndexL(c, i, t, f)
		}
		off := mkInt(0)
		if base.op == "sl" {
			off = base.args[1]
			if base.args[0].op == "fa" || base.args[0].op == "ia" {
				c := e.load(&s, base.args[0], base.args[0].typ)
				return seqIndexL(c, add(off, i), t, f)
			}
		}
		c := e.getLoc(&s, contentKey(base))
		return seqIndexL(c, add(off, i), t, f)
	})
}

func seqIndexL(c, i *Term, t types.Type, f *FactSet) *Term {
	return lift(f, restrict(c, f), func(f *FactSet, c *Term) *Term { return seqIndex(c, i, t, f) })
}

// mbyte reads guest memory, looking through recorded writes.
func mbyte(buf, trace, addr *Term) *Term {
	return app("mbyte", "", types.Typ[types.Uint8], buf, trace, addr)
}

func (e *Engine) store(st *State, p, v *Term, t types.Type) {
	if p.op == "ite" {
		leaves(st.facts, p, func(f *FactSet, c, q *Term) {
			s := *st
			s.facts = f
			old := e.load(&s, q, t)
			e.store(st, q, mkIte(c, v, old), t)
		})
		return
	}
	if p.op == "fa" && p.args[0].op == "ite" {
		leaves(st.facts, p.args[0], func(f *FactSet, c, q *Term) {
			s := *st
			s.facts = f
			l := app("fa", p.aux, p.typ, q)
			old := e.load(&s, l, t)
			e.store(st, l, mkIte(c, v, old), t)
		})
		return
	}
	if v.op == "lexval" {
		st.heap[posKey(p)] = v.args[0]
		return
	}
	if p.op == "new" || locRoot(p).op == "new" {
		fail("write to a value captured in a loop accumulator")
	}
	switch u := t.Underlying().(type) {
	case *types.Struct:
		if p.op == "ia" {
			e.storeElem(st, p, v)
			return
		}
		if !hasElemRoot(p) {
			for i := 0; i < u.NumFields(); i++ {
				ft := u.Field(i).Type()
				e.store(st, e.fieldAddr(p, i, ft, u.Field(i).Name()), fieldOf(v, i, ft), ft)
			}
			return
		}
	case *types.Array:
		st.heap[contentKey(p)] = v
		return
	}
	switch p.op {
	case "ia":
		e.storeElem(st, p, v)
		return
	case "fa":
		if e.isFieldEvent(p) {
			e.event(st, "hstore:"+e.fieldKey(p), p.args[0], e.snap(st, v))
			return
		}
		if b := p.args[0]; hasElemRoot(b) {
			bt := b.typ
			sv := e.load(st, b, bt)
			su, ok := bt.Underlying().(*types.Struct)
			if !ok {
				fail("store through unsupported location")
			}
			fi := int(mustInt(p.aux))
			fs := make([]*Term, su.NumFields())
			for i := range fs {
				fs[i] = fieldOf(sv, i, su.Field(i).Type())
			}
			fs[fi] = v
			e.store(st, b, app("struct", "", bt, fs...), bt)
			return
		}
	}
	st.heap[leafLoc(p, t)] = v
}

func (e *Engine) storeElem(st *State, p, v *Term) {
	base, i := p.args[0], p.args[1]
	if base.op == "ite" {
		// every alternative is written under its own condition
		leaves(st.facts, base, func(f *FactSet, c, l *Term) {
			s := st.clone()
			s.facts = f
			e.storeElem(s, app("ia", p.aux, p.typ, l, i), v)
			for _, k := range heapKeys(s.heap) {
				old, ok := st.heap[k]
				if !ok {
					old = e.defaultVal(k)
				}
				if s.heap[k] != old {
					st.heap[k] = mkIte(c, s.heap[k], old)
				}
			}
		})
		return
	}
	if base.op == "msl" {
		e.memWrite(st, base.args[0], add(base.args[1], i), v)
		return
	}
	off := mkInt(0)
	if base.op == "sl" {
		off = base.args[1]
		if base.args[0].op == "fa" || base.args[0].op == "ia" {
			base = base.args[0]
		}
	}
	if base.op == "fa" || base.op == "ia" {
		c := e.load(st, base, base.typ)
		e.store(st, base, seqUpdL(c, add(off, i), v, p.typ), base.typ)
		return
	}
	k := contentKey(base)
	st.heap[k] = seqUpdL(e.getLoc(st, k), add(off, i), v, p.typ)
}

func seqUpdL(c, i, v *Term, elem types.Type) *Term {
	return lift(noFacts, c, func(_ *FactSet, c *Term) *Term { return seqUpd(c, i, v, elem) })
}

// memWrite appends a guest memory byte write to the trace; writes at constant
// distances commute and are kept sorted.
func (e *Engine) memWrite(st *State, buf, addr, v *Term) {
	tr := e.getLoc(st, traceKey)
	st.heap[traceKey] = lift2(st.facts, tr, addr, func(f *FactSet, tr, addr *Term) *Term {
		return memw(tr, buf, addr, v)
	})
}

func memw(tr, buf, addr, v *Term) *Term {
	if tr.op == "memw" && tr.args[1] == buf {
		if d, ok := constInt(sub(addr, tr.args[2])); ok {
			if d == 0 {
				return memw(tr.args[0], buf, addr, v)
			}
			if d < 0 {
				return app("memw", "", nil, memw(tr.args[0], buf, addr, v), buf, tr.args[2], tr.args[3])
			}
		}
	}
	return app("memw", "", nil, tr, buf, addr, v)
}

// sliceContent returns the functional contents of a slice or string value.
func (e *Engine) sliceContent(st *State, s *Term) *Term {
	switch s.op {
	case "ite":
		return lift(st.facts, s, func(f *FactSet, s *Term) *Term {
			s2 := *st
			s2.facts = f
			return e.sliceContent(&s2, s)
		})
	case "nil":
		return seqLit()
	case "sl":
		var c *Term
		if b := s.args[0]; b.op == "fa" || b.op == "ia" {
			c = e.load(st, b, b.typ)
		} else {
			c = e.getLoc(st, contentKey(s))
		}
		return lift2(st.facts, c, add(s.args[1], s.args[2]), func(f *FactSet, c, hi *Term) *Term {
			return seqSub(c, s.args[1], hi, f)
		})
	case "msl":
		return app("mrange", "", nil, s.args[0], e.getLoc(st, traceKey), s.args[1], s.args[2])
	case "str":
		return s
	}
	return e.getLoc(st, contentKey(s))
}

func (e *Engine) newSlice(st *State, name string, elem types.Type, content *Term) *Term {
	a := e.newObj(st, name, types.NewSlice(elem))
	st.heap[contentKey(a)] = content
	return app("sl", "", types.NewSlice(elem), a, mkInt(0), seqLenL(content))
}

func seqLenL(c *Term) *Term {
	if c.op == "ite" {
		return mkIte(c.args[0], seqLenL(c.args[1]), seqLenL(c.args[2]))
	}
	return seqLen(c)
}

// event appends an observable effect to the trace.
func (e *Engine) event(st *State, key string, args ...*Term) *Term {
	tr := e.getLoc(st, traceKey)
	t := app("ev", key, nil, append([]*Term{tr}, args...)...)
	st.heap[traceKey] = t
	return t
}

// snap closes a value over the heap: fresh objects become constructor terms
// and slices become their contents.
func (e *Engine) snap(st *State, v *Term) *Term {
	return e.snapRec(st, v, map[*Term]bool{}, map[*Term]*Term{})
}

func (e *Engine) snapRec(st *State, v *Term, busy map[*Term]bool, memo map[*Term]*Term) *Term {
	if r, ok := memo[v]; ok {
		return r
	}
	r := v
	switch v.op {
	case "ite":
		f := st.facts.with(v.args[0])
		g := st.facts.with(mkNot(v.args[0]))
		s1, s2 := *st, *st
		s1.facts, s2.facts = f, g
		return mkIte(v.args[0], e.snapRec(&s1, v.args[1], busy, map[*Term]*Term{}), e.snapRec(&s2, v.args[2], busy, map[*Term]*Term{}))
	case "addr":
		o := v.obj.(*Object)
		if !o.fresh {
			return v
		}
		if busy[v] {
			return app("cyc", "", nil)
		}
		busy[v] = true
		switch o.typ.Underlying().(type) {
		case *types.Map:
			r = app("mapv", "", o.typ, e.snapRec(st, e.getLoc(st, contentKey(v)), busy, memo))
		case *types.Array, *types.Slice:
			r = app("newarr", "", o.typ, e.snapRec(st, e.getLoc(st, contentKey(v)), busy, memo))
		default:
			r = app("new", "", o.typ, e.snapRec(st, e.load(st, v, o.typ), busy, memo))
		}
		delete(busy, v)
		return r
	case "sl":
		if busy[v.args[0]] {
			return app("cyc", "", nil)
		}
		busy[v.args[0]] = true
		r = e.snapRec(st, e.sliceContent(st, v), busy, memo)
		delete(busy, v.args[0])
		return r
	case "msl":
		return e.sliceContent(st, v)
	case "clo", "fn", "loop", "mu", "slot", "ev", "memw", "ok", "kend", "at", "att", "sym", "kappa", "bv":
		if c, ok := st.heap[app("content", "", nil, v)]; ok && !busy[v] {
			busy[v] = true
			r = e.snapRec(st, c, busy, memo)
			delete(busy, v)
		}
		return r
	}
	if c, ok := st.heap[app("content", "", nil, v)]; ok && !busy[v] && v.op != "seq" {
		busy[v] = true
		r = e.snapRec(st, c, busy, memo)
		delete(busy, v)
		return r
	}
	if v.op == "ld" {
		return v
	}
	if len(v.args) > 0 {
		nargs := make([]*Term, len(v.args))
		ch := false
		for i, a := range v.args {
			nargs[i] = e.snapRec(st, a, busy, memo)
			ch = ch || nargs[i] != a
		}
		if ch {
			r = rebuild(v, nargs)
		}
	}
	if len(busy) == 0 {
		memo[v] = r
	}
	return r
}

// ---- values ----

func (e *Engine) constTerm(c *ssa.Const) *Term {
	t := c.Type()
	if c.Value == nil {
		if t == nil {
			return tNil
		}
		return zero(t)
	}
	switch c.Value.Kind() {
	case constant.Bool:
		return mkBool(constant.BoolVal(c.Value))
	case constant.String:
		return mkStr(constant.StringVal(c.Value))
	case constant.Int, constant.Float:
		if r, ok := new(big.Rat).SetString(c.Value.ExactString()); ok {
			return mkRat(r)
		}
	}
	return app("const", c.Value.ExactString(), t)
}

func (e *Engine) val(fr *Frame, v ssa.Value, st *State) *Term {
	return restrict(e.valIn(fr, v, st), st.facts)
}

func (e *Engine) valIn(fr *Frame, v ssa.Value, st *State) *Term {
	switch x := v.(type) {
	case *ssa.Const:
		return e.constTerm(x)
	case *ssa.Function:
		return intern(&Term{op: "fn", aux: fnKey(x), obj: x})
	case *ssa.Global:
		return e.globalAddr(x)
	case *ssa.Builtin:
		return app("builtin", x.Name(), nil)
	}
	if t, ok := fr.env[v]; ok {
		return restrict(t, st.facts)
	}
	fail("unevaluated value %s in %s", v.Name(), fr.fn)
	return nil
}

func isErrorType(t types.Type) bool {
	return types.Identical(t, types.Universe.Lookup("error").Type())
}

// resolveIface concretises a symbolic interface value when its dynamic type
// is known from a dominating assertion or only one type implements it.
func (e *Engine) resolveIface(st *State, v *Term, static types.Type) *Term {
	switch v.op {
	case "iface", "nil", "err", "seq", "addr", "lin", "str", "true", "false":
		return v
	case "ite":
		return lift(st.facts, v, func(f *FactSet, v *Term) *Term {
			s := *st
			s.facts = f
			return e.resolveIface(&s, v, static)
		})
	}
	for _, k := range st.facts.all {
		if k.op == "typeis" && k.args[0] == v && !types.IsInterface(k.typ) {
			return app("iface", "", k.typ, asTerm(k.typ, v))
		}
	}
	cands := []types.Type{static}
	if v.typ != nil {
		cands = append(cands, v.typ)
	}
	for _, k := range st.facts.all {
		if k.op == "typeis" && k.args[0] == v {
			cands = append(cands, k.typ)
		}
	}
	for _, c := range cands {
		if c == nil || !types.IsInterface(c) {
			continue
		}
		if impl := e.w.soleImpl(c); impl != nil {
			return app("iface", "", impl, asTerm(impl, v))
		}
	}
	return v
}

// asTerm is v viewed at a type; views of views collapse.
func asTerm(t types.Type, v *Term) *Term {
	for v.op == "as" {
		v = v.args[0]
	}
	return app("as", "", t, v)
}

func typeIs(t types.Type, v *Term) *Term {
	for v.op == "as" {
		v = v.args[0]
	}
	return app("typeis", "", t, v)
}

func (e *Engine) typeAssert(fr *Frame, x *ssa.TypeAssert, st *State) bool {
	v := e.resolveIface(st, e.val(fr, x.X, st), x.X.Type())
	T := x.AssertedType
	cond := lift(st.facts, v, func(f *FactSet, v *Term) *Term {
		switch v.op {
		case "iface":
			if types.IsInterface(T) {
				return mkBool(types.Implements(v.typ, T.Underlying().(*types.Interface)))
			}
			return mkBool(types.Identical(v.typ, T))
		case "nil":
			return tFalse
		case "err":
			if types.IsInterface(T) && (isErrorType(T) || T.Underlying().(*types.Interface).NumMethods() == 0) {
				return tTrue
			}
			return app("typeis", "", T, v)
		}
		if types.IsInterface(T) && types.AssignableTo(x.X.Type(), T) {
			return mkNot(mkIsNil(v))
		}
		return typeIs(T, v)
	})
	res := lift(st.facts, v, func(f *FactSet, v *Term) *Term {
		switch v.op {
		case "iface":
			if types.IsInterface(T) {
				return v
			}
			if types.Identical(v.typ, T) {
				return v.args[0]
			}
			return zero(T)
		case "nil":
			return zero(T)
		case "err":
			return v
		}
		if types.IsInterface(T) && v.typ != nil && types.Identical(v.typ, T) {
			return v
		}
		return asTerm(T, v)
	})
	if !x.CommaOk {
		if !e.obligation(fr, st, cond, "assert", "unchecked type assertion to "+shortType(T), x.Pos()) {
			return false
		}
		fr.env[x] = restrict(res, st.facts)
		return true
	}
	fr.env[x] = app("tuple", "", nil, mkIte(cond, res, zero(T)), cond)
	return true
}

func (e *Engine) simple(fr *Frame, ins ssa.Instruction, st *State) bool {
	f := st.facts
	switch x := ins.(type) {
	case *ssa.TypeAssert:
		return e.typeAssert(fr, x, st)
	case *ssa.Next:
		e.next(fr, x, st)
	case *ssa.Lookup:
		return e.lookup(fr, x, st)
	case *ssa.Alloc:
		t := x.Type().(*types.Pointer).Elem()
		fr.env[x] = e.newObj(st, x.Comment, t)
	case *ssa.BinOp:
		return e.binop(fr, x, st)
	case *ssa.UnOp:
		v := e.val(fr, x.X, st)
		switch x.Op {
		case token.MUL:
			if !e.notNil(fr, st, v, x.Pos()) {
				return false
			}
			fr.env[x] = e.load(st, restrict(v, st.facts), x.Type())
		case token.NOT:
			fr.env[x] = bNot(v)
		case token.SUB:
			fr.env[x] = lift(f, v, func(f *FactSet, v *Term) *Term {
				if k, ok := intKind(x.Type()); ok {
					return wrapTerm(k, neg(v), f)
				}
				if exactNum(v) {
					return neg(v)
				}
				return app("fneg", "", x.Type(), v)
			})
		case token.XOR:
			k, _ := intKind(x.Type())
			_, signed := kindWidth(k)
			fr.env[x] = lift(f, v, func(f *FactSet, v *Term) *Term {
				if signed {
					return addc(neg(v), -1)
				}
				_, hi := kindRange(k)
				return sub(mkRat(hi), v)
			})
		default:
			fail("unsupported unary %s", x.Op)
		}
	case *ssa.ChangeInterface:
		fr.env[x] = e.val(fr, x.X, st)
	case *ssa.ChangeType:
		v := e.val(fr, x.X, st)
		if v.op == "struct" {
			v = app("struct", "", x.Type(), v.args...)
		}
		fr.env[x] = v
	case *ssa.Convert:
		v := e.val(fr, x.X, st)
		fr.env[x] = lift(f, v, func(f *FactSet, v *Term) *Term {
			s := *st
			s.facts = f
			return e.convert(&s, v, x.X.Type(), x.Type())
		})
	case *ssa.MultiConvert:
		fr.env[x] = app("conv", typeKey(x.Type()), x.Type(), e.val(fr, x.X, st))
	case *ssa.Extract:
		t := e.val(fr, x.Tuple, st)
		fr.env[x] = lift(f, t, func(_ *FactSet, t *Term) *Term {
			if t.op == "tuple" {
				return t.args[x.Index]
			}
			return app("res", fmt.Sprint(x.Index), x.Type(), t)
		})
	case *ssa.Field:
		fr.env[x] = fieldOf(e.val(fr, x.X, st), x.Field, x.Type())
	case *ssa.FieldAddr:
		p := e.val(fr, x.X, st)
		if !e.notNil(fr, st, p, x.Pos()) {
			return false
		}
		p = restrict(p, st.facts)
		s := x.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct)
		ft := s.Field(x.Field).Type()
		fr.env[x] = lift(st.facts, p, func(_ *FactSet, p *Term) *Term {
			return e.fieldAddr(p, x.Field, ft, s.Field(x.Field).Name())
		})
	case *ssa.IndexAddr:
		base := e.val(fr, x.X, st)
		i := e.val(fr, x.Index, st)
		var n *Term
		var et types.Type
		switch u := x.X.Type().Underlying().(type) {
		case *types.Slice:
			n = e.sliceLen(st, base)
			et = u.Elem()
		case *types.Pointer:
			at := u.Elem().Underlying().(*types.Array)
			n = mkInt(at.Len())
			et = at.Elem()
		}
		rule := "index"
		if base.op == "msl" {
			rule = "mem"
		}
		if !e.inBounds(fr, st, i, n, rule, x.Pos()) {
			return false
		}
		fr.env[x] = lift2(st.facts, restrict(base, st.facts), restrict(i, st.facts), func(_ *FactSet, b, i *Term) *Term {
			if b.op == "msl" {
				// the address does not depend on how long the slice is
				b, i = app("msl", "", b.typ, b.args[0], add(b.args[1], i), mkInt(1)), mkInt(0)
			}
			return app("ia", "", et, b, i)
		})
	case *ssa.Index:
		base := e.val(fr, x.X, st)
		i := e.val(fr, x.Index, st)
		n := seqLenL(base)
		if at, ok := x.X.Type().Underlying().(*types.Array); ok {
			n = mkInt(at.Len())
		}
		if !e.inBounds(fr, st, i, n, "index", x.Pos()) {
			return false
		}
		fr.env[x] = lift2(st.facts, restrict(base, st.facts), restrict(i, st.facts), func(f *FactSet, b, i *Term) *Term { return seqIndex(b, i, x.Type(), f) })
	case *ssa.MakeClosure:
		fn := x.Fn.(*ssa.Function)
		var bs []*Term
		for _, b := range x.Bindings {
			bs = append(bs, e.val(fr, b, st))
		}
		fr.env[x] = intern(&Term{op: "clo", aux: fnKey(fn), obj: fn, args: bs})
	case *ssa.MakeInterface:
		v := e.val(fr, x.X, st)
		fr.env[x] = app("iface", "", x.X.Type(), v)
	case *ssa.MakeMap:
		fr.env[x] = e.newObj(st, "map", x.Type())
	case *ssa.MakeSlice:
		n := e.val(fr, x.Len, st)
		if !e.obligation(fr, st, liftGe0(f, n), "make", "make with negative length", x.Pos()) {
			return false
		}
		et := x.Type().Underlying().(*types.Slice).Elem()
		cp := n
		if x.Cap != x.Len {
			cp = e.val(fr, x.Cap, st)
			if !e.obligation(fr, st, liftGe0(st.facts, sub(cp, n)), "make", "make with capacity below length", x.Pos()) {
				return false
			}
		}
		tmp := *st
		e.obligation(fr, &tmp, liftGe0(st.facts, sub(mkRat(bpow(32)), scale(cp, rat(sizes.Sizeof(et))))), "alloc", "allocation of unbounded size", x.Pos())
		c := lift(st.facts, n, func(_ *FactSet, n *Term) *Term { return mkSeq(n, et) })
		fr.env[x] = e.newSlice(st, "make", et, c)
	case *ssa.MapUpdate:
		m, k, v := e.val(fr, x.Map, st), e.val(fr, x.Key, st), e.val(fr, x.Value, st)
		if m.op == "nil" {
			e.obligation(fr, st, tFalse, "nilmap", "write to nil map", x.Pos())
			return false
		}
		if m.op == "ite" {
			// each alternative is updated under its own condition
			type alt struct{ m, cond *Term }
			var alts []alt
			isNil := tFalse
			leaves(f, m, func(_ *FactSet, c, l *Term) {
				if l.op == "nil" {
					isNil = bOr(isNil, c)
					return
				}
				for i := range alts {
					if alts[i].m == l {
						alts[i].cond = bOr(alts[i].cond, c)
						return
					}
				}
				alts = append(alts, alt{l, c})
			})
			if isNil != tFalse && !e.obligation(fr, st, bNot(isNil), "nilmap", "write to nil map", x.Pos()) {
				return false
			}
			for _, a := range alts {
				ck := contentKey(a.m)
				old := e.getLoc(st, ck)
				st.heap[ck] = mkIte(a.cond, lift(f, old, func(f *FactSet, c *Term) *Term { return mapSet(c, k, v) }), old)
			}
			break
		}
		ck := contentKey(m)
		st.heap[ck] = lift(f, e.getLoc(st, ck), func(f *FactSet, c *Term) *Term { return mapSet(c, k, v) })
	case *ssa.Range:
		src := e.val(fr, x.X, st)
		if !isStringT(x.X.Type()) {
			src = e.getLoc(st, contentKey(src))
		}
		o := e.newObj(st, "iter", types.Typ[types.Int])
		st.heap[app("itpos", "", nil, o)] = mkInt(0)
		fr.env[x] = app("iter", "", nil, o, src)
	case *ssa.Slice:
		return e.slice(fr, x, st)
	case *ssa.Store:
		p := e.val(fr, x.Addr, st)
		if !e.notNil(fr, st, p, x.Pos()) {
			return false
		}
		e.store(st, restrict(p, st.facts), e.val(fr, x.Val, st), x.Val.Type())
	default:
		fail("unsupported instruction %T in %s", ins, fr.fn)
	}
	return true
}

func mkSeq(n *Term, et types.Type) *Term {
	if k, ok := constInt(n); ok && k <= 64 {
		var es []*Term
		for j := int64(0); j < k; j++ {
			es = append(es, zero(et))
		}
		return seqLit(es...)
	}
	return app("mkseq", "", et, n)
}

func liftGe0(f *FactSet, x *Term) *Term {
	return lift(f, x, func(_ *FactSet, x *Term) *Term { return mkGe0(x) })
}

func (e *Engine) inBounds(fr *Frame, st *State, i, n *Term, rule string, pos token.Pos) bool {
	lo := liftGe0(st.facts, i)
	hi := lift2(st.facts, i, n, func(_ *FactSet, i, n *Term) *Term { return mkGe0(addc(sub(n, i), -1)) })
	return e.obligation(fr, st, bAnd(lo, hi), rule, fmt.Sprintf("index %s within length %s", i, n), pos)
}

func (e *Engine) notNil(fr *Frame, st *State, p *Term, pos token.Pos) bool {
	c := lift(st.facts, p, func(_ *FactSet, p *Term) *Term {
		if p.op == "nil" {
			return tFalse
		}
		if !e.symNil && (p.op == "sym" || p.op == "ld" || p.op == "as" || p.op == "idx" || p.op == "field" || p.op == "res" || p.op == "at" || p.op == "att" || p.op == "slot" || p.op == "mapval" || p.op == "mapkey" || p.op == "mget") {
			return tTrue
		}
		return mkNot(mkIsNil(p))
	})
	return e.obligation(fr, st, c, "nil", "dereference of "+p.String(), pos)
}

func (e *Engine) sliceLen(st *State, s *Term) *Term {
	switch s.op {
	case "ite":
		return lift(st.facts, s, func(f *FactSet, s *Term) *Term {
			s2 := *st
			s2.facts = f
			return e.sliceLen(&s2, s)
		})
	case "sl", "msl":
		return s.args[2]
	}
	if v, ok := st.heap[contentKey(s)]; ok {
		return seqLenL(restrict(v, st.facts))
	}
	return seqLen(s)
}

func (e *Engine) slice(fr *Frame, x *ssa.Slice, st *State) bool {
	base := e.val(fr, x.X, st)
	lo := mkInt(0)
	if x.Low != nil {
		lo = e.val(fr, x.Low, st)
	}
	var n *Term
	switch u := x.X.Type().Underlying().(type) {
	case *types.Pointer:
		n = mkInt(u.Elem().Underlying().(*types.Array).Len())
	case *types.Slice:
		n = e.sliceLen(st, base)
	default:
		n = seqLenL(base)
	}
	hi := n
	if x.High != nil {
		hi = e.val(fr, x.High, st)
	}
	rule := "slice"
	if base.op == "msl" {
		rule = "mem"
	}
	ok := liftN(st.facts, []*Term{lo, hi, n}, func(_ *FactSet, a []*Term) *Term {
		return bAnd(mkGe0(a[0]), bAnd(mkGe0(sub(a[1], a[0])), mkGe0(sub(a[2], a[1]))))
	})
	if !e.obligation(fr, st, ok, rule, fmt.Sprintf("slice [%s:%s] within length %s", lo, hi, n), x.Pos()) {
		return false
	}
	f := st.facts
	full := x.High == nil
	fr.env[x] = liftN(f, []*Term{restrict(base, f), restrict(lo, f), restrict(hi, f)}, func(f *FactSet, a []*Term) *Term {
		base, lo, hi := a[0], a[1], a[2]
		switch base.op {
		case "msl":
			return app("msl", "", x.Type(), base.args[0], add(base.args[1], lo), sub(hi, lo))
		case "sl":
			return app("sl", "", x.Type(), base.args[0], add(base.args[1], lo), sub(hi, lo))
		case "addr", "fa":
			return app("sl", "", x.Type(), base, lo, sub(hi, lo))
		}
		if isStringT(x.X.Type()) {
			return seqSub(base, lo, hi, f)
		}
		if z, ok := constInt(lo); ok && z == 0 && full {
			return base
		}
		return app("sl", "", x.Type(), base, lo, sub(hi, lo))
	})
	return true
}

func (e *Engine) next(fr *Frame, x *ssa.Next, st *State) {
	it := e.val(fr, x.Iter, st)
	src := it.args[1]
	posLoc := app("itpos", "", nil, it.args[0])
	pos := e.getLoc(st, posLoc)
	tt := x.Type().(*types.Tuple)
	var more, k, v *Term
	if x.IsString {
		more = app("strmore", "", nil, src, pos)
		k = app("stridx", "", tt.At(1).Type(), src, pos)
		v = app("strrune", "", tt.At(2).Type(), src, pos)
	} else if es := constEntries(src); e.mapOrder != 0 && es != nil {
		more = lift(st.facts, pos, func(_ *FactSet, pos *Term) *Term { return mkGe0(addc(sub(mkInt(int64(len(es))), pos), -1)) })
		k, v = app("mapkey", "", tt.At(1).Type(), src, pos), app("mapval", "", tt.At(2).Type(), src, pos)
		if i, ok := constInt(pos); ok && i >= 0 && int(i) < len(es) {
			if e.mapOrder < 0 {
				i = int64(len(es)) - 1 - i
			}
			k, v = es[i].args[1], es[i].args[2]
		}
	} else {
		more = lift2(st.facts, src, pos, func(_ *FactSet, src, pos *Term) *Term {
			return mkGe0(addc(sub(mapLen(src), pos), -1))
		})
		k = app("mapkey", "", nil, src, pos)
		v = app("mapval", "", nil, src, pos)
		if t := tt.At(1).Type(); t != types.Typ[types.Invalid] {
			k = app("mapkey", "", t, src, pos)
		}
		if t := tt.At(2).Type(); t != types.Typ[types.Invalid] {
			v = app("mapval", "", t, src, pos)
		}
	}
	st.heap[posLoc] = lift(st.facts, pos, func(_ *FactSet, p *Term) *Term { return addc(p, 1) })
	fr.env[x] = app("tuple", "", nil, more, k, v)
}

// constEntries are the entries of a map with distinct constant keys.
func constEntries(m *Term) []*Term {
	if m.op == "mapv" {
		m = m.args[0]
	}
	seen := map[*Term]bool{}
	var es []*Term
	for ; m.op == "mset"; m = m.args[0] {
		if k := m.args[1]; k.op != "str" && !isConst(k) || seen[k] {
			return nil
		}
		seen[m.args[1]] = true
		es = append(es, m)
	}
	if m.op != "map0" {
		return nil
	}
	return es
}

func mapLen(m *Term) *Term {
	switch m.op {
	case "map0", "nil":
		return mkInt(0)
	}
	return app("len", "", nil, m)
}

func (e *Engine) lookup(fr *Frame, x *ssa.Lookup, st *State) bool {
	m, k := e.val(fr, x.X, st), e.val(fr, x.Index, st)
	mt, ok := x.X.Type().Underlying().(*types.Map)
	if !ok {
		if !e.inBounds(fr, st, k, seqLenL(m), "index", x.Pos()) {
			return false
		}
		fr.env[x] = lift2(st.facts, restrict(m, st.facts), restrict(k, st.facts), func(f *FactSet, s, i *Term) *Term {
			return seqIndex(s, i, types.Typ[types.Uint8], f)
		})
		return true
	}
	c := e.mapContent(st, m)
	v := lift2(st.facts, c, k, func(f *FactSet, c, k *Term) *Term {
		v, _ := mapGet(c, k, mt.Elem(), f)
		return v
	})
	has := lift2(st.facts, c, k, func(f *FactSet, c, k *Term) *Term {
		_, h := mapGet(c, k, mt.Elem(), f)
		return h
	})
	if x.CommaOk {
		fr.env[x] = app("tuple", "", nil, v, has)
	} else {
		fr.env[x] = mkIte(has, v, zero(mt.Elem()))
	}
	return true
}

func (e *Engine) mapContent(st *State, m *Term) *Term {
	return lift(st.facts, m, func(f *FactSet, m *Term) *Term {
		if m.op == "nil" {
			return m
		}
		if m.op == "mapv" {
			return m.args[0]
		}
		s := *st
		s.facts = f
		return e.getLoc(&s, contentKey(m))
	})
}

func exactNum(t *Term) bool {
	for a := range toPoly(t).m {
		if a.typ != nil && isFloat(a.typ) {
			return false
		}
		switch a.op {
		case "i2f", "fop", "f32frombits", "f64frombits", "fneg", "f32to64", "f64to32":
			return false
		}
	}
	return true
}

func (e *Engine) convert(st *State, v *Term, from, to types.Type) *Term {
	_, fi := intKind(from)
	tk, ti := intKind(to)
	switch {
	case fi && ti:
		return wrapTerm(tk, v, st.facts)
	case fi && isFloat(to):
		lim := bpow(53)
		if to.Underlying().(*types.Basic).Kind() == types.Float32 {
			lim = bpow(24)
		}
		r := st.facts.rangeOf(v)
		if r.lo != nil && r.hi != nil && r.hi.Cmp(lim) <= 0 && r.lo.Cmp(new(big.Rat).Neg(lim)) >= 0 {
			return v
		}
		return app("i2f", "", to, v)
	case isFloat(from) && ti:
		if exactNum(v) && integral(v) {
			if inKind(st.facts, tk, v) {
				return v
			}
			return app("f2i", tk, to, v)
		}
		return app("f2i", "", to, v)
	case isFloat(from) && isFloat(to):
		fb, tb := from.Underlying().(*types.Basic).Kind(), to.Underlying().(*types.Basic).Kind()
		if fb == tb || exactNum(v) {
			return v
		}
		if tb == types.Float64 {
			return app("f32to64", "", to, v)
		}
		if v.op == "f32to64" {
			return v.args[0]
		}
		return app("f64to32", "", to, v)
	}
	if isStringT(to) && isStringT(from) {
		return v
	}
	if isStringT(to) && fi {
		if i, ok := constInt(v); ok && i >= 0 && i <= 0x10ffff {
			return mkStr(string(rune(i)))
		}
	}
	if _, ok := from.Underlying().(*types.Slice); ok {
		v = e.snap(st, v)
		if v.op == "conv" && len(v.args) == 1 && v.aux == typeKey(from.Underlying()) {
			return v.args[0]
		}
	}
	if sl, ok := to.Underlying().(*types.Slice); ok && isStringT(from) {
		if v.op == "str" && len(v.aux) <= 64 {
			if b, okb := sl.Elem().Underlying().(*types.Basic); okb && b.Kind() == types.Uint8 {
				var es []*Term
				for i := 0; i < len(v.aux); i++ {
					es = append(es, mkInt(int64(v.aux[i])))
				}
				return e.newSlice(st, "bytes", sl.Elem(), seqLit(es...))
			}
		}
	}
	if types.Identical(from.Underlying(), to.Underlying()) {
		return v
	}
	return app("conv", typeKey(to.Underlying()), to, v)
}

func integral(t *Term) bool {
	p := toPoly(t)
	if !p.c.IsInt() {
		return false
	}
	for _, a := range p.atoms() {
		k := p.m[a]
		if !k.IsInt() || a.op == "log2" {
			return false
		}
	}
	return true
}

func (e *Engine) binop(fr *Frame, x *ssa.BinOp, st *State) bool {
	a, b := e.val(fr, x.X, st), e.val(fr, x.Y, st)
	xt := x.X.Type()
	if _, ok := intKind(xt); ok {
		switch x.Op {
		case token.QUO, token.REM:
			c := lift(st.facts, b, func(_ *FactSet, b *Term) *Term { return mkNot(mkEq0(b)) })
			if !e.obligation(fr, st, c, "div", "division by zero", x.Pos()) {
				return false
			}
		case token.SHL, token.SHR:
			if k, ok := intKind(x.Y.Type()); ok && k[0] == 's' {
				if !e.obligation(fr, st, liftGe0(st.facts, b), "shift", "negative shift", x.Pos()) {
					return false
				}
			}
		}
		a, b = restrict(a, st.facts), restrict(b, st.facts)
	}
	if isBoolT(xt) {
		switch x.Op {
		case token.EQL:
			fr.env[x] = mkIte(a, b, bNot(b))
			return true
		case token.NEQ:
			fr.env[x] = mkIte(a, bNot(b), b)
			return true
		case token.AND:
			fr.env[x] = bAnd(a, b)
			return true
		case token.OR:
			fr.env[x] = bOr(a, b)
			return true
		}
	}
	fr.env[x] = lift2(st.facts, a, b, func(f *FactSet, a, b *Term) *Term { return e.binTerm(x, f, a, b) })
	return true
}

func (e *Engine) binTerm(x *ssa.BinOp, f *FactSet, a, b *Term) *Term {
	xt := x.X.Type()
	if k, ok := intKind(xt); ok {
		switch x.Op {
		case token.ADD:
			return wrapTerm(k, add(a, b), f)
		case token.SUB:
			return wrapTerm(k, sub(a, b), f)
		case token.MUL:
			return wrapTerm(k, mul(a, b), f)
		case token.QUO, token.REM:
			if isConst(a) && isConst(b) && b.c.Sign() != 0 {
				if x.Op == token.QUO {
					return mkBig(new(big.Int).Quo(a.c.Num(), b.c.Num()))
				}
				return mkBig(new(big.Int).Rem(a.c.Num(), b.c.Num()))
			}
			if f.entails(a) && f.entails(b) {
				q := floorDiv(a, b, f)
				if x.Op == token.QUO {
					return q
				}
				if isConst(b) {
					return sub(a, mul(b, q))
				}
				return app("rem", "", xt, a, b)
			}
			return app("go"+x.Op.String(), "", xt, a, b)
		case token.AND:
			return andTerm(a, b, f)
		case token.OR:
			return orTerm(a, b, f)
		case token.XOR:
			if isConst(a) && isConst(b) {
				return mkBig(new(big.Int).Xor(a.c.Num(), b.c.Num()))
			}
			if a.id > b.id {
				a, b = b, a
			}
			return app("xor", "", xt, a, b)
		case token.AND_NOT:
			if isConst(b) {
				w, signed := kindWidth(k)
				m := new(big.Int).Sub(bpow(w).Num(), big.NewInt(1))
				m.AndNot(m, b.c.Num())
				if signed {
					m = new(big.Int).Not(b.c.Num())
				}
				return andTerm(a, mkBig(m), f)
			}
			return app("andnot", "", xt, a, b)
		case token.SHL:
			if isConst(b) && !isConst(a) || isConst(a) && isConst(b) {
				if n, ok := constInt(b); ok && n >= 64 {
					return mkInt(0)
				}
			}
			return wrapTerm(k, mul(a, pow2(b)), f)
		case token.SHR:
			return shr(a, b, f)
		case token.EQL:
			return mkEq0(sub(a, b))
		case token.NEQ:
			return mkNot(mkEq0(sub(a, b)))
		case token.LSS:
			return mkGe0(addc(sub(b, a), -1))
		case token.LEQ:
			return mkGe0(sub(b, a))
		case token.GTR:
			return mkGe0(addc(sub(a, b), -1))
		case token.GEQ:
			return mkGe0(sub(a, b))
		}
	}
	if isFloat(xt) {
		return e.floatOp(x, a, b)
	}
	if isStringT(xt) {
		switch x.Op {
		case token.ADD:
			return seqCat(a, b)
		case token.EQL:
			return strEq(a, b)
		case token.NEQ:
			return mkNot(strEq(a, b))
		}
		return app("strcmp", x.Op.String(), nil, a, b)
	}
	switch x.Op {
	case token.EQL:
		return eqVal(a, b, xt)
	case token.NEQ:
		return bNot(eqVal(a, b, xt))
	}
	fail("unsupported binary %s on %s", x.Op, xt)
	return nil
}

// eqVal compares values of a non-numeric type.
func eqVal(a, b *Term, t types.Type) *Term {
	if _, ok := t.Underlying().(*types.Slice); ok {
		// comparison with nil
		if a.op == "seq" && len(a.args) == 0 {
			a = b
		}
		switch a.op {
		case "sl", "msl":
			return tFalse
		case "seq":
			return mkBool(len(a.args) == 0)
		}
		return app("isnil", "", nil, a)
	}
	if a.op == "struct" && b.op == "struct" {
		r := tTrue
		st, _ := t.Underlying().(*types.Struct)
		for i := range a.args {
			r = bAnd(r, eqField(a.args[i], b.args[i], st, i))
		}
		return r
	}
	return mkEq(a, b)
}

func eqField(a, b *Term, st *types.Struct, i int) *Term {
	return lift2(noFacts, a, b, func(_ *FactSet, a, b *Term) *Term {
		if st != nil {
			if _, ok := intKind(st.Field(i).Type()); ok {
				return mkEq0(sub(a, b))
			}
			if isStringT(st.Field(i).Type()) {
				return strEq(a, b)
			}
		}
		return mkEq(a, b)
	})
}

func strEq(a, b *Term) *Term {
	if a.op == "seq" && len(a.args) == 0 {
		a = mkStr("")
	}
	if b.op == "seq" && len(b.args) == 0 {
		b = mkStr("")
	}
	if a == b {
		return tTrue
	}
	if b.op == "str" && b.aux == "" && a.op != "str" {
		return mkEq0(seqLen(a))
	}
	if a.op == "str" && a.aux == "" && b.op != "str" {
		return mkEq0(seqLen(b))
	}
	return mkEq(a, b)
}

func (e *Engine) floatOp(x *ssa.BinOp, a, b *Term) *Term {
	ex := exactNum(a) && exactNum(b)
	switch x.Op {
	case token.ADD:
		if ex {
			return add(a, b)
		}
	case token.SUB:
		if ex {
			return sub(a, b)
		}
	case token.MUL:
		if ex && (isConst(a) || isConst(b)) {
			return mul(a, b)
		}
	case token.QUO:
		if ex && isConst(b) && b.c.Sign() != 0 {
			return scale(a, new(big.Rat).Inv(b.c))
		}
	case token.EQL, token.NEQ:
		c := tTrue
		if a == b && !exactNum(a) {
			c = mkNot(isNaN(a))
		} else if ex {
			c = mkEq0(sub(a, b))
		} else {
			p, q := a, b
			if p.id > q.id {
				p, q = q, p
			}
			c = app("feq", "", nil, p, q)
		}
		if x.Op == token.NEQ {
			return mkNot(c)
		}
		return c
	case token.LSS:
		if ex {
			return mkNot(mkGe0(sub(a, b)))
		}
		return app("flt", "", nil, a, b)
	case token.GTR:
		if ex {
			return mkNot(mkGe0(sub(b, a)))
		}
		return app("flt", "", nil, b, a)
	case token.LEQ:
		if ex {
			return mkGe0(sub(b, a))
		}
		return app("fle", "", nil, a, b)
	case token.GEQ:
		if ex {
			return mkGe0(sub(a, b))
		}
		return app("fle", "", nil, b, a)
	}
	return app("fop", x.Op.String(), x.Type(), a, b)
}

func isNaN(x *Term) *Term {
	for x.op == "f32to64" || x.op == "fneg" {
		x = x.args[0]
	}
	if exactNum(x) {
		return tFalse
	}
	return app("isnan", "", nil, x)
}
