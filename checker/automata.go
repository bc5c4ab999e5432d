package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"sort"
	"strings"
)

// ---- automata of the text lexer's rules ----

// A rule's lexeme is an automaton in code: Eat moves it along the edge for a
// byte, Accepted tells final states. The value graph of Eat at a state, for an
// arbitrary byte, is a case analysis on that byte; its cases are the edges and
// the heap they leave behind are the next states. The machine of a lexer runs
// all its rules side by side as the longest match does; it is compared with
// the machine of the lexical grammar.

func init() {
	rules["P24"] = append(rules["P24"], lexRule)
	rules["P28"] = append(rules["P28"], lexRule)
}

// machine is a deterministic tokeniser: out is the token type emitted when
// the next byte does not continue ("" for none), next the state after a byte,
// -1 if it does not continue.
type machine interface {
	next(s int, c byte) int
	out(s int) string
}

// ---- extraction ----

type lexAuto struct {
	e      *Engine
	w      *World
	char   *Term
	starts []lexRuleStart
	states []*autoState
	index  map[string]int
	combos [][]int // states of the live rules
	ckeys  map[string]int
	edges  [][256]int
}

type lexRuleStart struct {
	check [256]bool
	next  [256]int // state after the first byte
}

type autoState struct {
	lexeme *Term
	st     *State
	ok     [256]bool
	next   [256]int
	final  bool
	typ    string
	done   bool
}

const autoMax = 200

func (a *lexAuto) run(name string, st *State, args ...*Term) ([]*Term, *State) {
	fn := a.w.hfunc(name)
	if fn == nil {
		fail("no function %s", name)
	}
	rs, s := a.e.call(nil, nil, fn, args, nil, st)
	if s == nil || s.cond != tTrue {
		fail("%s does not return", name)
	}
	return rs, s
}

// at is a value for one byte.
func (a *lexAuto) at(t *Term, c int, memo map[*Term]*Term) *Term {
	return subst(t, map[*Term]*Term{a.char: mkInt(int64(c))}, memo)
}

func (a *lexAuto) truth(t *Term, what string) bool {
	switch t {
	case tTrue:
		return true
	case tFalse:
		return false
	}
	fail("%s is not determined by the byte: %s", what, clip(t.String(), 300))
	return false
}

// move is the state a lexeme is in after eating each byte.
func (a *lexAuto) move(lexeme *Term, base *State) (ok [256]bool, next [256]int) {
	rs, st := a.run("vcEat", base, lexeme, a.char)
	var changed []*Term
	for _, k := range heapKeys(st.heap) {
		if base.heap[k] != st.heap[k] {
			changed = append(changed, k)
		}
	}
	for c := 0; c < 256; c++ {
		memo := map[*Term]*Term{}
		ok[c] = a.truth(a.at(rs[0], c, memo), "the outcome of Eat")
		n := base.clone()
		for _, k := range changed {
			n.heap[k] = a.at(st.heap[k], c, memo)
		}
		next[c] = a.state(lexeme, n)
	}
	return
}

// state is the number of the automaton state of a lexeme in a heap.
func (a *lexAuto) state(lexeme *Term, st *State) int {
	st = reachable(lexeme, st)
	key := fmt.Sprintf("%d", lexeme.id)
	for _, k := range heapKeys(st.heap) {
		key += fmt.Sprintf(" %d=%d", k.id, st.heap[k].id)
	}
	if i, ok := a.index[key]; ok {
		return i
	}
	if len(a.states) >= autoMax {
		fail("a rule of the lexer has more than %d states", autoMax)
	}
	a.index[key] = len(a.states)
	a.states = append(a.states, &autoState{lexeme: lexeme, st: st})
	return a.index[key]
}

// reachable drops the objects of a heap that t does not refer to.
func reachable(t *Term, st *State) *State {
	roots := map[*Term]bool{}
	seen := map[*Term]bool{}
	var visit func(t *Term)
	visit = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		if t.op == "addr" {
			roots[t] = true
		}
		for _, x := range t.args {
			visit(x)
		}
	}
	visit(t)
	keys := heapKeys(st.heap)
	kept := map[*Term]bool{}
	for more := true; more; {
		more = false
		for _, k := range keys {
			if !kept[k] && (!rootFresh(k) || roots[locRoot(k)]) {
				kept[k], more = true, true
				visit(st.heap[k])
			}
		}
	}
	n := st.clone()
	for _, k := range keys {
		if !kept[k] {
			delete(n.heap, k)
		}
	}
	return n
}

func (a *lexAuto) get(i int) *autoState {
	s := a.states[i]
	if !s.done {
		s.done = true
		rs, _ := a.run("vcAccepted", s.st, s.lexeme)
		s.final = a.truth(rs[0], "Accepted")
		if rs[1].op != "str" {
			fail("the type of a rule is not a constant: %s", clip(rs[1].String(), 300))
		}
		s.typ = rs[1].aux
		s.ok, s.next = a.move(s.lexeme, s.st)
	}
	return s
}

func (a *lexAuto) combo(c []int) int {
	key := fmt.Sprint(c)
	if i, ok := a.ckeys[key]; ok {
		return i
	}
	a.ckeys[key] = len(a.combos)
	a.combos = append(a.combos, c)
	return a.ckeys[key]
}

func (a *lexAuto) next(s int, c byte) int {
	var live []int
	if s == 0 {
		for _, r := range a.starts {
			if r.check[c] {
				live = append(live, r.next[c])
			}
		}
	} else {
		for _, i := range a.combos[s] {
			if q := a.get(i); q.ok[c] {
				live = append(live, q.next[c])
			}
		}
	}
	if len(live) == 0 {
		return -1
	}
	return a.combo(live)
}

func (a *lexAuto) out(s int) string {
	for _, i := range a.combos[s] {
		if q := a.get(i); q.final {
			return q.typ
		}
	}
	return ""
}

func extractLexer(w *World, order int) *lexAuto {
	resetTerms(w)
	e := newEngine(w)
	e.mapOrder = order
	fn := w.hfunc("vcEat")
	if fn == nil {
		fail("the lexer's interface is not as expected")
	}
	a := &lexAuto{e: e, w: w, char: sym("c", fn.Params[1].Type()), index: map[string]int{}, ckeys: map[string]int{}}
	rs, st := a.run("vcNew", e.newState())
	content := e.sliceContent(st, rs[0])
	n, ok := constInt(seqLenL(content))
	if !ok {
		fail("the number of rules is not a constant")
	}
	a.combo(nil)
	for i := 0; i < int(n); i++ {
		rule := seqIndex(content, mkInt(int64(i)), fn.Params[0].Type(), noFacts)
		var r lexRuleStart
		cs, s1 := a.run("vcCheck", st, rule, a.char)
		for _, k := range heapKeys(s1.heap) {
			if st.heap[k] != nil && st.heap[k] != s1.heap[k] {
				fail("Check changes the rule")
			}
		}
		ls, s2 := a.run("vcLexeme", st, rule)
		_, r.next = a.move(ls[0], s2)
		for c := 0; c < 256; c++ {
			r.check[c] = a.truth(a.at(cs[0], c, map[*Term]*Term{}), "the outcome of Check")
		}
		a.starts = append(a.starts, r)
	}
	return a
}

// ---- the lexical grammar ----

// grammar is the machine of the text format's tokens. States are short
// descriptions of what has been read.
type grammar struct {
	names []string
	index map[string]int
}

func idChar(c byte) bool {
	return '0' <= c && c <= '9' || 'A' <= c && c <= 'Z' || 'a' <= c && c <= 'z' || strings.IndexByte("!#$%&'*+-./:<=>?@\\^_`|~", c) >= 0
}

func blank(c byte) bool { return strings.IndexByte(" \t\n\f\r\v", c) >= 0 }

func (g *grammar) step(s string, c byte) string {
	switch s {
	case "":
		switch {
		case blank(c):
			return "blanks"
		case c == '$':
			return "dollar"
		case idChar(c):
			return "word"
		case c == ';', c == '(', c == ')', c == '"':
			return string(c)
		}
	case "blanks":
		if blank(c) {
			return s
		}
	case "dollar", "id":
		if idChar(c) {
			return "id"
		}
	case "word":
		if idChar(c) {
			return s
		}
	case ";":
		if c == ';' {
			return "line"
		}
	case "line":
		if c == '\n' {
			return "endline"
		}
		return s
	case "(":
		if c == ';' {
			return "block"
		}
	case "block", "block;":
		switch {
		case c == ';':
			return "block;"
		case c == ')' && s == "block;":
			return "endblock"
		}
		return "block"
	case `"`:
		if c == '"' {
			return "string"
		}
		return s
	}
	return "stop"
}

func (g *grammar) of(name string) int {
	if i, ok := g.index[name]; ok {
		return i
	}
	g.index[name] = len(g.names)
	g.names = append(g.names, name)
	return g.index[name]
}

func (g *grammar) next(s int, c byte) int {
	n := g.step(g.names[s], c)
	if n == "stop" {
		return -1
	}
	return g.of(n)
}

var tokenTypes = map[string]string{
	"blanks": "Whitespace", "dollar": "Reserved", "word": "Reserved", "id": "Id", "line": "LineComment", "endline": "LineComment",
	"endblock": "BlockComment", "string": "String", "(": "OpenParen", ")": "CloseParen",
}

func lexRule(w *World, r *Report) {
	pkg := w.pkgs[repoMod+"/wat/token"]
	if pkg == nil {
		fail("no package wat/token")
	}
	typ := func(s string) string {
		n := tokenTypes[s]
		if n == "" {
			return ""
		}
		c, ok := pkg.Types.Scope().Lookup(n).(*types.Const)
		if !ok {
			fail("no token type %s", n)
		}
		return constant.StringVal(c.Val())
	}
	var states, edges int
	for _, order := range []int{1, -1} {
		a := extractLexer(w, order)
		g := &grammar{index: map[string]int{}}
		g.of("")
		type pair struct{ a, g int }
		seen := map[pair]string{{0, 0}: ""}
		queue := []pair{{0, 0}}
		bad := map[string]string{}
		for len(queue) > 0 {
			p := queue[0]
			queue = queue[1:]
			text := seen[p]
			name := g.names[p.g]
			if name != "" {
				if x, y := a.out(p.a), typ(name); x != y {
					bad[name] = fmt.Sprintf("the text %q is a token of type %q, its grammar makes it %q", text, x, y)
				}
			}
			for c := 0; c < 256; c++ {
				x, y := a.next(p.a, byte(c)), g.next(p.g, byte(c))
				edges++
				if (x < 0) != (y < 0) {
					verb := "ends before"
					if x >= 0 {
						verb = "continues with"
					}
					if bad[name] == "" {
						bad[name] = fmt.Sprintf("after the text %q the token %s the byte %q, which its grammar does not say", text, verb, rune(c))
					}
					continue
				}
				if q := (pair{x, y}); x >= 0 {
					if _, ok := seen[q]; !ok {
						seen[q] = text + string([]byte{byte(c)})
						queue = append(queue, q)
					}
				}
			}
			if len(seen) > 4*autoMax {
				fail("too many states of the lexer")
			}
		}
		states += len(seen)
		for _, o := range a.e.fatal {
			r.fail("automaton", "operations", w.pos(o.pos), fmt.Sprintf("%s in %s: %s", o.rule, fnKey(o.fn), o.why))
		}
		if order < 0 && len(bad) == 0 {
			continue
		}
		names := append([]string{}, g.names...)
		sort.Strings(names)
		pos := w.pos(w.pkgs[repoMod+"/wat/lex"].Types.Scope().Lookup("New").Pos())
		for _, n := range names {
			r.add(Item{Rule: "automaton", Key: "state " + map[bool]string{true: "start", false: n}[n == ""], OK: bad[n] == "", Pos: pos, Msg: bad[n]})
		}
	}
	r.count("automaton states compared", states)
	r.count("automaton edges compared", edges)
}
