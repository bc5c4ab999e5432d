package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"runtime/debug"
	"runtime/pprof"
	"sort"
	"strconv"
	"strings"
	"time"
)

// Item is one decided obligation of a property.
type Item struct {
	Rule  string   // the rule that was applied
	Key   string   // construct it was applied to (stable across edits)
	OK    bool     //
	Pos   string   // file:line of the construct
	Msg   string   // why it is violated
	Funcs []string // source functions looked at
}

// Report collects what a property's analyses did.
type Report struct {
	Prop  string
	Items []Item
	Stats map[string]int
	Notes []string
}

func (r *Report) add(it Item)           { r.Items = append(r.Items, it) }
func (r *Report) count(k string, n int) { r.Stats[k] += n }
func (r *Report) pass(rule, key, pos string) {
	r.add(Item{Rule: rule, Key: key, OK: true, Pos: pos})
}
func (r *Report) fail(rule, key, pos, msg string) {
	r.add(Item{Rule: rule, Key: key, Pos: pos, Msg: msg})
}

// check adds a verdict.
func (r *Report) check(ok bool, rule, key, pos, format string, a ...any) {
	it := Item{Rule: rule, Key: key, OK: ok, Pos: pos}
	if !ok {
		it.Msg = fmt.Sprintf(format, a...)
	}
	r.add(it)
}

// rules are the analyses of a property other than reference comparison.
var rules = map[string][]func(w *World, r *Report){}

// minItems guards against a check that silently looks at nothing.
var minItems = map[string]int{
	"P01": 28, "P02": 15, "P03": 24, "P06": 3, "P07": 8, "P08": 25, "P09": 36, "P10": 10, "P11": 36, "P12": 36,
	"P04": 350, "P19": 350, "P05": 34, "P13": 120, "P14": 7, "P15": 12, "P16": 5, "P17": 12, "P20": 5, "P21": 21, "P22": 42, "P31": 2, "P18": 900, "P26": 400,
	"P23": 15, "P24": 21, "P25": 1, "P27": 32, "P28": 60, "P29": 58, "P30": 5,
}

// hardLimit ends an analysis whose own bounds did not.
const hardLimit = 820 * time.Second

type known struct{ prop, key, text string }

func loadKnown(dir string) ([]known, error) {
	b, err := os.ReadFile(filepath.Join(dir, "known_findings.txt"))
	if err != nil {
		if os.IsNotExist(err) {
			return nil, nil
		}
		return nil, err
	}
	var out []known
	for _, l := range strings.Split(string(b), "\n") {
		if !strings.HasPrefix(l, "known: ") {
			continue
		}
		var k known
		rest := strings.TrimPrefix(l, "known: ")
		fs := strings.SplitN(rest, " ", 3)
		if len(fs) != 3 || !strings.HasPrefix(fs[0], "property=") || !strings.HasPrefix(fs[1], "key=") {
			return nil, fmt.Errorf("malformed known finding: %s", l)
		}
		k.prop, k.key, k.text = strings.TrimPrefix(fs[0], "property="), strings.TrimPrefix(fs[1], "key="), fs[2]
		out = append(out, k)
	}
	return out, nil
}

func analyse(prop string, w *World) (rep *Report) {
	rep = &Report{Prop: prop, Stats: map[string]int{}}
	own := runPairs(w, prop, "")
	for i, pr := range append(own, runRelied(w, prop)...) {
		rep.count("value graphs compared", 1)
		rep.count("calls expanded", pr.Calls)
		rep.count("loops summarised", pr.Loops)
		rep.count("comparison steps", pr.Steps)
		key := pr.Name
		if i >= len(own) {
			rep.count("of these shared with another property", 1)
			key = pr.Prop + "/" + key
		}
		rep.add(Item{Rule: "value-graph", Key: key, OK: pr.OK, Pos: pr.Pos, Msg: pr.Msg, Funcs: pr.Funcs})
	}
	for _, rule := range rules[prop] {
		func() {
			defer func() {
				if x := recover(); x != nil {
					if u, ok := x.(undecided); ok {
						rep.fail("undecided", prop, "", u.msg)
						return
					}
					rep.fail("internal", prop, "", fmt.Sprintf("%v\n%s", x, debug.Stack()))
				}
			}()
			rule(w, rep)
		}()
	}
	if n := len(rep.Items); n < minItems[prop] || n == 0 {
		rep.fail("coverage", "minimum", "", fmt.Sprintf("only %d obligations examined, at least %d expected", n, minItems[prop]))
	}
	return rep
}

func main() {
	prop := flag.String("prop", "", "property id")
	dbg := flag.String("debug", "", "show the value graph of a harness function")
	one := flag.String("pair", "", "single pair")
	prof := flag.String("cpuprofile", "", "")
	verifDir := flag.String("verif", "/verif", "directory of the framework")
	verbose := flag.Bool("v", false, "list every obligation")
	all := flag.Bool("all", false, "every property, summary only")
	only := flag.String("only", "", "with -all: comma-separated properties")
	flag.IntVar(&clipFacts, "clip", 600, "")
	flag.StringVar(&repoDir, "repo", "/repo", "")
	flag.Parse()
	t0 := time.Now()
	if *prop != "" && *one == "" {
		go func() {
			time.Sleep(hardLimit)
			rep := &Report{Prop: *prop, Stats: map[string]int{}}
			rep.fail("undecided", "time", "", "the analysis did not finish in time")
			os.Exit(finish(rep, nil, *verifDir, false, t0))
		}()
	}
	if *prof != "" {
		f, _ := os.Create(*prof)
		pprof.StartCPUProfile(f)
		go func() {
			time.Sleep(8 * time.Second)
			pprof.StopCPUProfile()
			os.Exit(3)
		}()
		defer pprof.StopCPUProfile()
	}
	lp := *prop
	if *all || *dbg != "" {
		lp = *only
	}
	w, err := load(lp)
	if *dbg == "names" {
		showNames(w)
		return
	}
	if *dbg == "obls" {
		dumpObls(w)
		return
	}
	if *dbg != "" {
		debugFn(w, *dbg)
		return
	}
	if *one != "" {
		if err != nil {
			fmt.Println(err)
			return
		}
		for _, r := range runPairs(w, *prop, *one) {
			fmt.Println(r.String())
		}
		return
	}
	if *all {
		if err != nil {
			fmt.Println(err)
			os.Exit(1)
		}
		props := map[string]bool{}
		for n := range w.hfuncs {
			if m := pairRe.FindStringSubmatch(n); m != nil {
				props[m[1]] = true
			}
		}
		for p := range rules {
			props[p] = true
		}
		var ps []string
		for p := range props {
			ps = append(ps, p)
		}
		sort.Strings(ps)
		for _, p := range ps {
			if *only != "" && !strings.Contains(","+*only+",", ","+p+",") {
				continue
			}
			t1 := time.Now()
			rep := analyse(p, w)
			bad := 0
			for _, it := range rep.Items {
				if !it.OK {
					bad++
					fmt.Printf("  %s %s %s at %s: %s\n", p, it.Rule, it.Key, it.Pos, clip(it.Msg, clipFacts))
				}
			}
			fmt.Printf("%s items=%d violated=%d %.1fs\n", p, len(rep.Items), bad, time.Since(t1).Seconds())
		}
		return
	}
	if *prop == "" {
		fmt.Println("usage: vc -prop ID")
		os.Exit(2)
	}
	var rep *Report
	if err != nil {
		rep = &Report{Prop: *prop, Stats: map[string]int{}}
		rep.fail("load", "program", "", "the program could not be analysed: "+err.Error())
	} else {
		rep = analyse(*prop, w)
	}
	os.Exit(finish(rep, w, *verifDir, *verbose, t0))
}

func load(prop string) (w *World, err error) {
	defer func() {
		if x := recover(); x != nil {
			err = fmt.Errorf("panic while loading: %v", x)
		}
	}()
	ov, err := harnessOverlay(prop)
	if err != nil {
		return nil, err
	}
	return loadWorld(ov)
}

func finish(rep *Report, w *World, dir string, verbose bool, t0 time.Time) int {
	kn, err := loadKnown(dir)
	if err != nil {
		rep.fail("known-findings", "file", "", err.Error())
	}
	funcs := map[string]bool{}
	perRule := map[string]int{}
	var bad []Item
	var knownHit []string
	for _, it := range rep.Items {
		for _, f := range it.Funcs {
			funcs[f] = true
		}
		perRule[it.Rule]++
		if it.OK {
			if verbose {
				fmt.Printf("ok   %s %s %s\n", it.Rule, it.Key, it.Pos)
			}
			continue
		}
		hit := false
		for _, k := range kn {
			if k.prop == rep.Prop && k.key == it.Rule+"/"+it.Key {
				fmt.Printf("KNOWN-FINDING: property=%s %s (%s/%s at %s)\n", rep.Prop, k.text, it.Rule, it.Key, it.Pos)
				knownHit = append(knownHit, k.key)
				hit = true
				break
			}
		}
		if !hit {
			bad = append(bad, it)
		}
	}
	fs := make([]string, 0, len(funcs))
	for f := range funcs {
		fs = append(fs, strings.TrimPrefix(f, repoMod+"/"))
	}
	sort.Strings(fs)
	discharged := len(rep.Items) - len(bad) - len(knownHit)
	fmt.Printf("%s: %d obligations, %d hold, %d known, %d violated; %d source functions; rules %v\n", rep.Prop, len(rep.Items), discharged, len(knownHit), len(bad), len(fs), perRule)
	edir := filepath.Join(dir, "evidence")
	os.MkdirAll(edir, 0o755)
	replay := filepath.Join(edir, rep.Prop+".replay.txt")
	var sb strings.Builder
	for _, it := range bad {
		fmt.Fprintf(&sb, "property %s\nrule     %s\nconstruct %s\nat       %s\nanalysed %s\nreason   %s\n\n", rep.Prop, it.Rule, it.Key, it.Pos, strings.Join(it.Funcs, ", "), it.Msg)
	}
	if len(bad) > 0 {
		fmt.Fprintf(&sb, "re-run with: cd %s && .bin/vc -prop %s\n", dir, rep.Prop)
	}
	if err := os.WriteFile(replay, []byte(sb.String()), 0o644); err != nil {
		fmt.Println(err)
	}
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	var samples []string
	step := len(rep.Items)/8 + 1
	for i := 0; i < len(rep.Items); i += step {
		it := rep.Items[i]
		samples = append(samples, fmt.Sprintf("%s/%s at %s: %v", it.Rule, it.Key, it.Pos, it.OK))
	}
	cov := map[string]any{
		"explanation":          explain(rep.Prop),
		"obligations":          len(rep.Items),
		"discharged":           discharged,
		"known_findings":       knownHit,
		"obligations_per_rule": perRule,
		"source_functions":     fs,
		"counts":               rep.Stats,
		"samples":              samples,
		"checker_cmd":          ".bin/vc -prop " + rep.Prop,
	}
	if w != nil {
		np := 0
		for p := range w.pkgs {
			if isRepoPath(p) && p != harnessPath {
				np++
			}
		}
		cov["packages_type_checked"] = np
	}
	ev := map[string]any{
		"property": rep.Prop, "tier": tier, "seed": seed, "level": "other", "coverage": cov,
		"wall_s": time.Since(t0).Seconds(), "violations": len(bad),
		"assumptions": append([]string{"the Go type checker and the SSA construction of golang.org/x/tools are correct", "the reference models and rule tables under checker/ state the intended behaviour"}, rep.Notes...),
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	if err := os.WriteFile(filepath.Join(edir, rep.Prop+".json"), b, 0o644); err != nil {
		fmt.Println(err)
	}
	if len(bad) > 0 {
		for i, it := range bad {
			if i >= 10 {
				fmt.Printf("  … %d more in %s\n", len(bad)-i, replay)
				break
			}
			fmt.Printf("  %s %s at %s: %s\n", it.Rule, it.Key, it.Pos, clip(it.Msg, 1500))
		}
		fmt.Printf("VIOLATION property=%s replay=%s\n", rep.Prop, replay)
		return 1
	}
	return 0
}

var explanations = map[string]string{
	"P18": "Static analysis of the type-checked SSA form of the current working tree. For every call that can fail, a forward dataflow analysis assumes that it failed and propagates that through branches, joins, local variables, wrappers and result values; every return it reaches must carry a failure. Comma-ok conversions and lookups whose value is used must have their outcome looked at. The end of input is tolerated between two module sections only: the readers' value graphs accept nothing beyond their references (as for P22).",
	"P26": "Static analysis of the type-checked SSA form of the current working tree. An effect analysis over the call graph computes which functions a thrown failure can leave (unwrapping a failed result throws; a deferred handler for the function's own result, registered on every path, catches); no exported function of the text packages may be among them. Failed results are followed as for P18. In the value graphs of the productions every operation that may panic is excluded by the facts holding there.",
	"P23": "Static analysis of the type-checked SSA form of the current working tree. The token emission, look-ahead, reading, copying and creation of both lexers are turned into gated value graphs and compared with reference definitions over an arbitrary scanner; the scanners themselves are shown to move past at least one byte, and never past the input, in every token.",
	"P24": "Static analysis of the type-checked SSA form of the current working tree. The automaton of every lexer rule is extracted from the value graphs of its transition functions (one evaluation per state for an arbitrary byte; the cases of the resulting diagram are the edges) and the rules running side by side are compared, state by state and byte by byte, with the machine of the lexical grammar. The longest-match loop and the classification of reserved words are compared with reference definitions as gated value graphs.",
	"P25": "Static analysis of the type-checked SSA form of the current working tree. The scanner of the interface lexer is turned into a gated value graph over the input text and compared with a reference scanner: same token type, same end, same failures, for every text.",
	"P27": "Static analysis of the type-checked SSA form of the current working tree. Each production of the interface parser is turned into a gated value graph over token positions and compared with a reference production: both must succeed under the same condition and leave the same position, for every token sequence.",
	"P28": "Static analysis of the type-checked SSA form of the current working tree. Each production of the text and script parsers is turned into a gated value graph over token positions and compared with a reference production: both must succeed under the same condition and leave the same position, for every token sequence.",
	"P29": "Static analysis of the type-checked SSA form of the current working tree. Each production of the parsers is turned into a gated value graph over token positions; wherever it succeeds, the tree it returns must be, member by member, the one the reference production builds.",
}

func explain(p string) string {
	if s, ok := explanations[p]; ok {
		return s
	}
	return "Static analysis of the type-checked SSA form of the current working tree. Each obligation pairs an entry point of the implementation with a reference definition; both are abstracted to gated value graphs by one forward dataflow pass (joins at merges, loops summarised) and the graphs are compared for every input. An obligation that cannot be decided counts as violated."
}
