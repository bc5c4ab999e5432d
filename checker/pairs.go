package main

import (
	"embed"
	"fmt"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"regexp"
	"runtime/debug"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

//go:embed harness/*.go
var harnessFS embed.FS

// groupsOf lists the reference groups a property needs. Only those are
// type-checked together with the program, so that code the property does not
// speak about cannot disturb its check.
func groupsOf(prop string) []string {
	switch prop {
	case "P18", "P20", "P21", "P22":
		return []string{"binary"}
	case "P23":
		return []string{"wat/lex", "wit/lex"}
	case "P24":
		return []string{"wat/lex"}
	case "P25":
		return []string{"wit/lex"}
	case "P26":
		return []string{"wat/lex", "wit/lex", "wat/parse", "wit/parse", "wast/parse"}
	case "P27":
		return []string{"wit/parse", "wit/lex"}
	case "P28":
		return []string{"wat/parse", "wast/parse", "wat/lex"}
	case "P30":
		return []string{"wat/parse", "wast/parse"}
	case "P29":
		return []string{"wat/parse", "wit/parse", "wast/parse"}
	case "P31":
		return []string{"runtime"}
	}
	return []string{"abi"}
}

var dirRe = regexp.MustCompile(`(?m)^//vc:dir (\S+)$`)

const harnessPrefix = "zzverif_"

// harnessOverlay returns the reference files of a property (of all properties
// for "") as in-memory files of the program.
func harnessOverlay(prop string) (map[string][]byte, error) {
	want := map[string]bool{}
	for _, p := range strings.Split(prop, ",") {
		for _, g := range groupsOf(p) {
			want[g] = true
		}
	}
	ov := map[string][]byte{}
	es, err := harnessFS.ReadDir("harness")
	if err != nil {
		return nil, err
	}
	main := false
	var base []byte
	for _, x := range es {
		b, err := harnessFS.ReadFile("harness/" + x.Name())
		if err != nil {
			return nil, err
		}
		b = []byte(strings.Replace(string(b), "//go:build ignore\n", "", 1))
		dir, group := "internal/zzverif", "abi"
		if m := dirRe.FindSubmatch(b); m != nil {
			dir = string(m[1])
			group = dir
		} else {
			switch x.Name() {
			case "base.go":
				base = b
				continue
			case "p20.go", "p21.go", "p22.go":
				group = "binary"
			case "p31.go":
				group = "runtime"
			}
		}
		if prop != "" && !want[group] {
			continue
		}
		if dir == "internal/zzverif" {
			main = true
		}
		if group == dir {
			names, err := renamed(dir)
			if err != nil {
				return nil, err
			}
			b = follow(dir, x.Name(), b, names)
		}
		ov[filepath.Join(repoDir, dir, harnessPrefix+x.Name())] = b
	}
	if main {
		ov[filepath.Join(repoDir, "internal/zzverif", harnessPrefix+"base.go")] = base
	}
	return ov, nil
}

// PairResult is the verdict on one implementation/reference pair.
type PairResult struct {
	Prop, Name string
	OK         bool
	Msg        string
	Funcs      []string
	Calls      int
	Loops      int
	Steps      int
	Obls       int
	Open       []Obl
	Pos        string
	Dur        time.Duration
	w          *World
}

func (r *PairResult) String() string {
	s := "ok  "
	if !r.OK {
		s = "FAIL"
	}
	out := fmt.Sprintf("%s %s/%s funcs=%d calls=%d loops=%d cmp=%d obl=%d/%d %.1fs", s, r.Prop, r.Name, len(r.Funcs), r.Calls, r.Loops, r.Steps, r.Obls-len(r.Open), r.Obls, r.Dur.Seconds())
	if r.Msg != "" {
		out += "\n     " + r.Msg
	}
	return out
}

var pairRe = regexp.MustCompile(`^(P\d\d)_impl_(\w+)$`)

type evalOut struct {
	rs []*Term
	st *State
	e  *Engine
}

func newEngine(w *World) *Engine {
	e := &Engine{w: w, budget: 4_000_000, funcs: map[*ssa.Function]bool{}, seenObl: map[string]bool{}, globals: w.initGlobals(), events: map[string]token.Pos{}, replace: map[string]*ssa.Function{}}
	e.mode = defaultMode
	e.imode = defaultIMode
	return e
}

func (w *World) annot(name, key string) []string {
	var out []string
	for _, l := range strings.Split(w.hdocs[name], "\n") {
		if strings.HasPrefix(l, "//vc:"+key) {
			out = append(out, strings.Fields(strings.TrimPrefix(l, "//vc:"+key))...)
		}
	}
	return out
}

// repoKey is the key of a function or method named relative to the repository.
func repoKey(name string) string {
	if strings.HasPrefix(name, "(*") {
		return "(*" + repoMod + "/" + name[2:]
	}
	return repoMod + "/" + name
}

func evalFn(w *World, fn *ssa.Function, annotFrom string, alt map[string]*ssa.Function) (out evalOut, err error) {
	defer func() {
		if x := recover(); x != nil {
			if u, ok := x.(undecided); ok {
				err = fmt.Errorf("%s", u.msg)
				return
			}
			err = fmt.Errorf("internal: %v\n%s", x, debug.Stack())
		}
	}()
	e := newEngine(w)
	for k, f := range alt {
		e.replace[k] = f
	}
	for _, r := range w.annot(annotFrom, "replace") {
		kv := strings.SplitN(r, "=", 2)
		f := w.hfunc(kv[1])
		if f == nil {
			return out, fmt.Errorf("no replacement %s", kv[1])
		}
		e.replace[repoKey(kv[0])] = f
	}
	opq := map[string]CallMode{}
	for _, r := range w.annot(annotFrom, "opaque") {
		opq[repoKey(r)] = modePure
	}
	for _, r := range w.annot(annotFrom, "event") {
		opq[repoKey(r)] = modeEvent
	}
	e.hfam = map[string]bool{}
	for _, r := range w.annot(annotFrom, "fieldevents") {
		e.hfam[repoMod+"/"+r] = true
	}
	e.symGlobals = map[string]bool{}
	for _, r := range w.annot(annotFrom, "symglobal") {
		e.symGlobals[repoMod+"/"+r] = true
	}
	for _, r := range w.annot(annotFrom, "read") {
		opq[repoKey(r)] = modeRead
	}
	for _, r := range w.annot(annotFrom, "inline") {
		if r == "abi/io.AlignTo" {
			e.inlineAlign = true
		}
		opq[repoKey(r)] = modeInline
	}
	// opaquetype fn:Type keeps an anchor opaque for one type constructor, whose
	// own pairs establish what the anchor does there
	opt := map[string]bool{}
	for _, r := range w.annot(annotFrom, "opaquetype") {
		opt[repoMod+"/"+r] = true
	}
	if len(opq)+len(opt) > 0 {
		e.mode = func(e *Engine, fr *Frame, fn *ssa.Function, args []*Term, st *State) (CallMode, bool) {
			if m, ok := opq[fnKey(fn)]; ok {
				return m, true
			}
			if a, ok := anchors[fnKey(fn)]; ok && len(opt) > 0 {
				v := e.resolveIface(st, args[a.arg], fn.Params[a.arg].Type())
				if v.op == "iface" && opt[fnKey(fn)+":"+baseTypeName(v.typ)] {
					return a.mode, true
				}
			}
			return defaultMode(e, fr, fn, args, st)
		}
	}
	if len(w.annot(annotFrom, "symnil")) > 0 {
		e.symNil = true
	}
	var args []*Term
	for _, p := range fn.Params {
		args = append(args, sym(p.Name(), p.Type()))
	}
	st := e.newState()
	e.rawTokens = strings.Contains(w.hdocs[annotFrom], "//vc:lexemes")
	e.tokens = e.rawTokens || strings.Contains(w.hdocs[annotFrom], "//vc:tokens")
	rs, s := e.call(nil, nil, fn, args, nil, st)
	if len(e.thrown) > 0 {
		return out, fmt.Errorf("a failure raised at %s escapes", w.pos(e.thrown[0].pos))
	}
	return evalOut{rs, s, e}, nil
}

func baseTypeName(t types.Type) string {
	if p, ok := t.(*types.Pointer); ok {
		t = p.Elem()
	}
	if n, ok := t.(*types.Named); ok {
		return n.Obj().Name()
	}
	return ""
}

func defaultMode(e *Engine, fr *Frame, fn *ssa.Function, args []*Term, st *State) (CallMode, bool) {
	key := fnKey(fn)
	if a, ok := anchors[key]; ok {
		v := args[a.arg]
		if it := fn.Params[a.arg].Type(); it != nil {
			v = e.resolveIface(st, v, it)
		}
		if v.op == "iface" || v.op == "nil" {
			return modeInline, true
		}
		return a.mode, true
	}

	return modeInline, false
}

// aspects of a pair of parsers a property looks at
const (
	acceptance = "acceptance" // what is accepted and where parsing stops
	trees      = "trees"      // what is returned for accepted input
	refusal    = "refusal"    // that nothing is accepted beyond the reference
)

// The pairs of the parsers' productions serve several properties.
func aspectOf(prop, pair, name string) (aspect string, ok bool) {
	switch prop {
	case "P27":
		if pair == "P29" {
			return acceptance, strings.HasPrefix(name, "wit_")
		}
	case "P28":
		if pair == "P29" {
			return acceptance, !strings.HasPrefix(name, "wit_")
		}
	case "P29":
		return trees, pair == "P29"
	}
	return "", prop == "" || pair == prop
}

// reliesOn names the comparisons of other properties that a property's own
// ones take for granted, so that a defect found there counts against it too.
var reliesOn = map[string]*regexp.Regexp{
	"P03": regexp.MustCompile(`^P11_(load|store)_list$`),
	"P05": regexp.MustCompile(`^P01_(align_to_\d|\w+_alignments?)$`),
	"P08": regexp.MustCompile(`^P02_(scalars|kinds)$`),
	"P09": regexp.MustCompile(`^P01_(align_to_\d|discriminant|\w+_alignments?|(variant|union|enum|option|result)_size)$|^P02_(kinds|scalars|variant|union|enum|option|result)$`),
	"P10": regexp.MustCompile(`^P01_flags_\w+$|^P02_flags$`),
	"P11": regexp.MustCompile(`^P01_`),
	"P15": regexp.MustCompile(`^P14_`),
	"P17": regexp.MustCompile(`^P01_(align_to_\d|tuple_\w+)$|^P02_(kinds|types|tuple)$`),
	"P18": regexp.MustCompile(`^P22_`),
	"P21": regexp.MustCompile(`^P20_(reader|buffered)$`),
	"P22": regexp.MustCompile(`^P20_(reader|buffered|truncated)$`),
	"P26": regexp.MustCompile(`^P29_|^P28_|^P25_wit_next$`),
	"P27": regexp.MustCompile(`^P25_wit_next$|^P23_wit_(clone|peek|peektwice)$`),
	"P28": regexp.MustCompile(`^P30_|^P24_wat_\w+$|^P23_wat_(clone|peek|peektwice)$`),
	"P29": regexp.MustCompile(`^P30_`),
	"P30": regexp.MustCompile(`^P29_(wast_(consts|results)|wat_instruction)$`),
}

// runRelied compares the pairs of other properties that prop relies on.
func runRelied(w *World, prop string) []*PairResult {
	re := reliesOn[prop]
	if re == nil {
		return nil
	}
	aspect := ""
	if prop == "P18" || prop == "P26" {
		aspect = refusal
	}
	return comparePairs(w, func(pair, name string) (string, bool) { return aspect, re.MatchString(pair + "_" + name) })
}

func runPairs(w *World, prop, only string) []*PairResult {
	return comparePairs(w, func(pair, name string) (string, bool) {
		if only != "" && name != only {
			return "", false
		}
		return aspectOf(prop, pair, name)
	})
}

func comparePairs(w *World, want func(pair, name string) (aspect string, ok bool)) []*PairResult {
	var names []string
	for n := range w.hfuncs {
		m := pairRe.FindStringSubmatch(n)
		if m == nil {
			continue
		}
		if _, ok := want(m[1], m[2]); ok {
			names = append(names, n)
		}
	}
	sort.Strings(names)
	var out []*PairResult
	for _, n := range names {
		m := pairRe.FindStringSubmatch(n)
		t0 := time.Now()
		aspect, _ := want(m[1], m[2])
		r := runPair(w, m[1], m[2], aspect)
		r.Dur = time.Since(t0)
		out = append(out, r)
		if os.Getenv("VC_LOG") != "" {
			fmt.Fprintln(os.Stderr, r, "work", work, "terms", len(internTab))
		}
	}
	return out
}

func runPair(w *World, prop, name, aspect string) *PairResult {
	resetTerms(w)
	r := &PairResult{Prop: prop, Name: name, w: w}
	in := prop + "_impl_" + name
	impl, spec := w.hfunc(in), w.hfunc(prop+"_spec_"+name)
	if impl == nil || spec == nil {
		r.Msg = "missing pair member"
		return r
	}
	a, err := evalFn(w, impl, in, nil)
	if err != nil {
		r.Msg = "implementation not decided: " + err.Error()
		return r
	}
	for f := range a.e.funcs {
		if isRepoPath(pkgPathOf(f)) && !w.isHarness(f) {
			r.Funcs = append(r.Funcs, fnKey(f))
		}
	}
	sort.Strings(r.Funcs)
	if f := w.firstRepoCall(impl, map[*ssa.Function]bool{}); f != nil {
		r.Pos = w.pos(f.Pos())
	}
	r.Calls, r.Loops, r.Obls, r.Open = a.e.ncalls, a.e.nloops, a.e.nobl, a.e.obls
	if len(a.e.fatal) > 0 {
		o := a.e.fatal[0]
		r.Msg = fmt.Sprintf("panics at %s in %s: %s", w.pos(o.pos), fnKey(o.fn), o.why)
		return r
	}
	// a reference may come with equally acceptable alternatives
	for _, k := range []string{"_spec_", "_alt_", "_alt2_"} {
		s := w.hfunc(prop + k + name)
		if s == nil {
			break
		}
		// the reference's loops may take any of their equivalent shapes
		for shape := 1; ; shape++ {
			alt := w.shapes(s, shape)
			if alt == nil {
				break
			}
			ok, msg, steps := compareTo(w, a, s, in, aspect, alt)
			r.Steps += steps
			if ok {
				r.OK, r.Msg = true, ""
				return r
			}
			if os.Getenv("VC_ALTS") != "" {
				fmt.Fprintf(os.Stderr, "%s%s%s shape %d: %s\n", prop, k, name, shape, msg)
			}
			if r.Msg == "" {
				r.Msg = msg
			}
		}
	}
	return r
}

// shapes maps the reference helpers fn uses that come in several shapes (f,
// f__2, f__3, …) to the n-th combination of them; nil if there is none.
func (w *World) shapes(fn *ssa.Function, n int) map[string]*ssa.Function {
	m := map[string]*ssa.Function{}
	if n == 1 {
		return m
	}
	used := map[string]bool{}
	seen := map[*ssa.Function]bool{}
	var walk func(f *ssa.Function)
	walk = func(f *ssa.Function) {
		if seen[f] || !w.isHarness(f) {
			return
		}
		seen[f] = true
		used[f.Name()] = true
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				for _, op := range ins.Operands(nil) {
					if c, ok := (*op).(*ssa.Function); ok {
						walk(c)
					}
				}
			}
		}
		for _, c := range f.AnonFuncs {
			walk(c)
		}
	}
	walk(fn)
	var bases []string
	for name := range used {
		if fn.Pkg.Func(name+"__2") != nil {
			bases = append(bases, name)
		}
	}
	sort.Strings(bases)
	n--
	for _, base := range bases {
		count := 2
		for fn.Pkg.Func(fmt.Sprintf("%s__%d", base, count+1)) != nil {
			count++
		}
		if k := n % count; k > 0 {
			m[fnKey(fn.Pkg.Func(base))] = fn.Pkg.Func(fmt.Sprintf("%s__%d", base, k+1))
		}
		n /= count
	}
	if n > 0 {
		return nil
	}
	return m
}

func compareTo(w *World, a evalOut, spec *ssa.Function, in, aspect string, alt map[string]*ssa.Function) (ok bool, msg string, steps int) {
	b, err := evalFn(w, spec, in, alt)
	if err != nil {
		return false, "reference not decided: " + err.Error(), 0
	}
	ok, msg, steps = compareWith(w, a, b, in, aspect, false)
	if !ok && len(a.e.stops)+len(b.e.stops) > 0 {
		ok2, _, n := compareWith(w, a, b, in, aspect, true)
		steps += n
		if ok2 {
			return true, "", steps
		}
	}
	return ok, msg, steps
}

// compareWith compares two value graphs, with or without the loops' reasons to
// stop as facts.
func compareWith(w *World, a, b evalOut, in, aspect string, stops bool) (ok bool, msg string, steps int) {
	c := newCmp()
	c.aspect = aspect
	c.stops = stops
	c.resultOnly = aspect == trees || strings.Contains(w.hdocs[in], "//vc:resultonly")
	defer func() {
		if x := recover(); x != nil {
			ok, steps = false, c.steps
			if u, is := x.(undecided); is {
				msg = "comparison not decided: " + u.msg
				return
			}
			msg = fmt.Sprintf("internal: %v\n%s", x, debug.Stack())
		}
	}()
	ok = compareOut(c, a, b)
	return ok, strings.Join(c.report, "\n     "), c.steps
}

func compareOut(c *Cmp, a, b evalOut) bool {
	if (a.st == nil) != (b.st == nil) {
		c.report = append(c.report, "one side never returns normally")
		return false
	}
	if a.st == nil {
		return true
	}
	type item struct {
		name string
		a, b *Term
	}
	n := len(a.rs)
	// equivalent loops on the two sides get one representative
	var roots []*Term
	var fl []*Term
	for _, o := range []evalOut{a, b} {
		for i := range o.rs {
			roots = append(roots, o.e.snap(o.st, o.rs[i]))
		}
		for _, k := range heapKeys(o.st.heap) {
			if k.op != "alive" && !rootFresh(k) {
				roots = append(roots, o.e.snap(o.st, o.st.heap[k]))
			}
		}
		fl = append(fl, o.e.axioms...)
		if c.stops {
			fl = append(fl, o.e.stops...)
		}
		fl = append(fl, o.st.facts.all...)
		fl = append(fl, o.st.facts.cl...)
	}
	canon := c.unifyLoops(append(roots, fl...))
	cm := map[*Term]*Term{}
	cn := func(t *Term) *Term { return hoist(subst(t, canon, cm)) }
	f := noFacts
	for _, x := range fl {
		f = f.withCond(cn(x))
	}
	var items []item
	sig := func(o evalOut, i int) *Term { return cn(o.e.snap(o.st, o.rs[i])) }
	errI := -1
	if n > 0 {
		// last result an error?
		x, y := a.rs[n-1], b.rs[n-1]
		_ = y
		if isErrResult(x) || isErrResult(y) {
			errI = n - 1
		}
	}
	ok, ok2 := tTrue, tTrue
	if errI >= 0 {
		en := func(t *Term) *Term {
			return lift(f, t, func(_ *FactSet, t *Term) *Term { return mkIsNil(t) })
		}
		x, y := en(sig(a, errI)), en(sig(b, errI))
		if c.aspect == refusal {
			return c.eq(mkIte(x, y, tFalse), x, f, "success condition")
		}
		if c.aspect != trees && !c.eq(x, y, f, "success condition") {
			return false
		}
		ok, ok2 = x, y
	}
	for i := 0; i < n; i++ {
		if i != errI && c.aspect != acceptance {
			items = append(items, item{fmt.Sprintf("result %d", i), sig(a, i), sig(b, i)})
		}
	}
	if !c.resultOnly {
		items = append(items, item{"effects", cn(a.e.getLoc(a.st, traceKey)), cn(b.e.getLoc(b.st, traceKey))})
	}
	// deltas
	keys := map[*Term]bool{}
	for _, o := range []evalOut{a, b} {
		for k, v := range o.st.heap {
			if k == traceKey || k == lenverKey || k.op == "alive" || k.op == "itpos" || k.op == "modver" || rootFresh(k) {
				continue
			}
			if g, ok := o.e.globals[k]; ok && g == v {
				continue
			}
			keys[k] = !c.resultOnly
		}
	}
	var ks []*Term
	for k, in := range keys {
		if in {
			ks = append(ks, k)
		}
	}
	sort.Slice(ks, func(i, j int) bool { return ks[i].id < ks[j].id })
	for _, k := range ks {
		x, y := cn(a.e.snap(a.st, a.e.getLoc(a.st, k))), cn(b.e.snap(b.st, b.e.getLoc(b.st, k)))
		items = append(items, item{"final " + k.String(), x, y})
	}
	g := f.withCond(ok).withCond(ok2)
	if g.unsat {
		return true
	}
	for _, it := range items {
		if !c.eq(it.a, it.b, g, it.name) {
			return false
		}
	}
	return true
}

func isErrResult(t *Term) bool {
	switch t.op {
	case "err":
		return true
	case "ite":
		return isErrResult(t.args[1]) || isErrResult(t.args[2])
	}
	return false
}

func debugFn(w *World, name string) {
	f := w.hfunc(name)
	o, err := evalFn(w, f, name, nil)
	if err != nil {
		fmt.Println("ERR", err)
		return
	}
	if o.st == nil {
		fmt.Println("no return")
		return
	}
	for i, r := range o.rs {
		fmt.Println(i, o.e.snap(o.st, r))
	}
	fmt.Println("trace", o.e.getLoc(o.st, traceKey))
	for _, x := range o.st.facts.all {
		fmt.Println("fact", x)
	}
	for _, x := range o.e.obls {
		fmt.Println("obl", x.rule, x.why, w.pos(x.pos), x.cond)
	}
}

// firstRepoCall finds the implementation function a pair is about.
func (w *World) firstRepoCall(fn *ssa.Function, seen map[*ssa.Function]bool) *ssa.Function {
	if seen[fn] {
		return nil
	}
	seen[fn] = true
	var deeper []*ssa.Function
	var first *ssa.Function
	for _, b := range fn.Blocks {
		for _, ins := range b.Instrs {
			ci, ok := ins.(ssa.CallInstruction)
			if !ok {
				continue
			}
			c := ci.Common().StaticCallee()
			if c == nil {
				continue
			}
			// a production handed to the function that runs it
			for _, a := range ci.Common().Args {
				if f, ok := a.(*ssa.Function); ok && !w.isHarness(f) && isRepoPath(pkgPathOf(f)) {
					return f
				}
			}
			p := pkgPathOf(c)
			if w.isHarness(c) {
				deeper = append(deeper, c)
			} else if isRepoPath(p) && !strings.HasSuffix(p, "abi/types") {
				return c
			} else if isRepoPath(p) && first == nil && !strings.HasPrefix(c.Name(), "New") {
				first = c
			}
		}
	}
	if first != nil {
		return first
	}
	for _, d := range deeper {
		if f := w.firstRepoCall(d, seen); f != nil {
			return f
		}
	}
	return nil
}
