package main

import (
	"fmt"
	"go/token"
	"os"
	"regexp"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Obligations that stay open because they rest on an invariant another
// check establishes, by package, rule and what is asked.
var restsOn = []struct {
	pkg, rule string
	why       *regexp.Regexp
	inv       string
}{
	// the free list only ever holds indices below the table's length: Add
	// and Remove are the only writers and P14 fixes both of them
	{"abi/types", "index", regexp.MustCompile(`^index idx\(ld\(fa:\d+ Free\(.* within length len\(ld\(fa:\d+ Array\(`), "free list invariant (P14)"},
	// every rule type has a factory: P24 makes a lexeme of each rule of New
	{"wat/lex", "nil", regexp.MustCompile(`^method Lexeme on nil interface$`), "rules have factories (P24)"},
}

func rests(o Obl) bool {
	for _, r := range restsOn {
		if o.rule == r.rule && strings.HasSuffix(fnPkg(o.fn), "/"+r.pkg) && r.why.MatchString(o.why) {
			return true
		}
	}
	return false
}

func fnPkg(f *ssa.Function) string {
	for f.Parent() != nil {
		f = f.Parent()
	}
	if f.Pkg == nil {
		return ""
	}
	return f.Pkg.Pkg.Path()
}

// In these value graphs a variant is reached through the enum, union, option
// or result abbreviating it, whose case list is itself a summarised loop. The
// same code is examined for every case list by the variant pairs.
var desugared = regexp.MustCompile(`^(lift|lower|load|store)_(enum|union|option|result)`)

var oblProps = []string{"P01", "P02", "P03", "P04", "P05", "P06", "P07", "P08", "P09", "P10", "P11", "P12", "P13", "P14", "P15", "P16", "P17", "P19"}

// oblRule examines every operation that may fail at run time (of the given
// kinds) in every value graph of the given properties: the facts holding there must exclude it.
func oblRule(props []string, kind func(rule string) bool, what string) func(w *World, r *Report) {
	return func(w *World, r *Report) {
		for _, prop := range props {
			type bucket struct {
				n    int
				open []string
				pos  token.Pos
			}
			by := map[string]*bucket{}
			for _, pr := range runPairs(w, prop, "") {
				if prop == "P13" && desugared.MatchString(pr.Name) {
					continue
				}
				if prop != r.Prop && !pr.OK && pr.Obls == 0 {
					by[pr.Name] = &bucket{open: []string{pr.Name + " could not be examined: " + pr.Msg}}
					continue
				}
				b := &bucket{n: pr.Obls}
				by[pr.Name] = b
				for _, o := range pr.Open {
					if !kind(o.rule) || rests(o) || w.isHarness(o.fn) {
						continue
					}
					b.pos = o.pos
					b.open = append(b.open, fmt.Sprintf("%s at %s in %s: %s", o.rule, w.pos(o.pos), fnKey(o.fn), o.why))
				}
				r.count("operations examined", pr.Obls)
			}
			var names []string
			for n := range by {
				names = append(names, n)
			}
			sort.Strings(names)
			for _, n := range names {
				b := by[n]
				r.check(len(b.open) == 0, what, prop+"/"+n, w.pos(b.pos), "%s", strings.Join(b.open, "; "))
			}
		}
	}
}

func init() {
	rules["P04"] = append(rules["P04"], oblRule(oblProps, func(k string) bool { return k == "mem" }, "memory-access"))
	rules["P19"] = append(rules["P19"], oblRule(oblProps, func(k string) bool { return k != "mem" && k != "alloc" }, "runtime-failure"))
	rules["P26"] = append(rules["P26"], oblRule([]string{"P23", "P24", "P25", "P29", "P30"}, func(string) bool { return true }, "runtime-failure"))
	rules["P22"] = append(rules["P22"], oblRule([]string{"P20", "P21"}, func(string) bool { return true }, "runtime-failure"))
}

func dumpObls(w *World) {
	seen := map[string]int{}
	for _, r := range runPairs(w, os.Getenv("VC_PROP"), "") {
		for _, o := range r.Open {
			k := fmt.Sprintf("%s %s %s %s", o.rule, w.pos(o.pos), fnKey(o.fn), o.why)
			if seen[k] == 0 && os.Getenv("VC_OBL") == r.Prop+"/"+r.Name {
				fmt.Println("  cond", o.cond)
				for _, x := range o.f.all {
					fmt.Println("  fact", x)
				}
				for _, x := range o.f.cl {
					fmt.Println("  clause", x)
				}
			}
			if seen[k] == 0 {
				fmt.Println(clip(k, 400), "in", r.Prop, r.Name)
			}
			seen[k]++
		}
	}
}
