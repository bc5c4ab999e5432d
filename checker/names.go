package main

import (
	_ "embed"
	"fmt"
	"go/ast"
	"go/parser"
	"go/printer"
	"go/scanner"
	"go/token"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
)

// The references of the lexers and parsers live inside their packages and name
// unexported functions and fields. If one of those was renamed, the reference
// follows it: the new name is the one unexpected declaration of the same kind
// and type, or among several the one using the most of the same names. A wrong
// guess cannot hide anything, since the guessed function is then compared with
// the reference, and its callers with ones that call it. A production that is
// gone was merged into its callers; the references then use its definition
// instead of a call.

//go:embed names.txt
var namesTxt string

// decl is an unexported declaration of a package.
type decl struct {
	kind string // func, method, field or var
	name string
	sig  string
	uses map[string]bool
	rank int // order of declaration
}

func (d *decl) id() string { return d.kind + " " + d.name }

// packageDecls lists the declarations of the package in dir, from syntax.
func packageDecls(dir string) (map[string]*decl, error) {
	fset := token.NewFileSet()
	es, err := os.ReadDir(dir)
	if err != nil {
		return nil, err
	}
	out := map[string]*decl{}
	add := func(kind, name, sig string, body ast.Node) {
		d := &decl{kind: kind, name: name, sig: sig, uses: map[string]bool{}, rank: len(out)}
		if body != nil {
			ast.Inspect(body, func(n ast.Node) bool {
				if i, ok := n.(*ast.Ident); ok && len(i.Name) > 3 {
					d.uses[i.Name] = true
				}
				return true
			})
		}
		out[d.id()] = d
	}
	show := func(n ast.Node) string {
		var sb strings.Builder
		printer.Fprint(&sb, fset, n)
		return strings.Join(strings.Fields(sb.String()), " ")
	}
	list := func(fl *ast.FieldList) string {
		var ts []string
		if fl != nil {
			for _, f := range fl.List {
				for i := 0; i < max(1, len(f.Names)); i++ {
					ts = append(ts, show(f.Type))
				}
			}
		}
		return "(" + strings.Join(ts, ",") + ")"
	}
	for _, x := range es {
		n := x.Name()
		if !strings.HasSuffix(n, ".go") || strings.HasSuffix(n, "_test.go") {
			continue
		}
		f, err := parser.ParseFile(fset, filepath.Join(dir, n), nil, parser.SkipObjectResolution)
		if err != nil {
			return nil, err
		}
		for _, d := range f.Decls {
			switch d := d.(type) {
			case *ast.FuncDecl:
				kind, sig := "func", list(d.Type.Params)+list(d.Type.Results)
				if d.Recv != nil {
					kind, sig = "method", list(d.Recv)+sig
				}
				var body ast.Node
				if d.Body != nil {
					body = d.Body
				}
				add(kind, d.Name.Name, sig, body)
			case *ast.GenDecl:
				for _, s := range d.Specs {
					switch s := s.(type) {
					case *ast.ValueSpec:
						for _, v := range s.Names {
							t := ""
							if s.Type != nil {
								t = show(s.Type)
							}
							add("var", v.Name, t, s)
						}
					case *ast.TypeSpec:
						if st, ok := s.Type.(*ast.StructType); ok && s.Name.Name == "Lexer" {
							for _, f := range st.Fields.List {
								for _, v := range f.Names {
									add("field", v.Name, show(f.Type), nil)
								}
							}
						}
					}
				}
			}
		}
	}
	return out, nil
}

// expectedDecls are the unexported declarations the references in dir name.
func expectedDecls(dir string) []*decl {
	var out []*decl
	for _, l := range strings.Split(namesTxt, "\n") {
		fs := strings.Split(l, "\t")
		if len(fs) != 5 || fs[0] != dir {
			continue
		}
		d := &decl{kind: fs[1], name: fs[2], sig: fs[3], uses: map[string]bool{}, rank: len(out)}
		for _, u := range strings.Fields(fs[4]) {
			d.uses[u] = true
		}
		out = append(out, d)
	}
	return out
}

func likeness(a, b map[string]bool) float64 {
	both := 0
	for k := range a {
		if b[k] {
			both++
		}
	}
	return float64(both+1) / float64(len(a)+len(b)-both+1)
}

// renamed maps the identities of expected declarations of dir that are no
// longer there to their new names, "" if there is none.
func renamed(dir string) (map[string]string, error) {
	exp := expectedDecls(dir)
	if len(exp) == 0 {
		return nil, nil
	}
	have, err := packageDecls(filepath.Join(repoDir, dir))
	if err != nil {
		return nil, err
	}
	known := map[string]bool{}
	for _, d := range exp {
		known[d.id()] = true
	}
	var free []*decl
	for id, d := range have {
		if !known[id] && !ast.IsExported(d.name) {
			free = append(free, d)
		}
	}
	sort.Slice(free, func(i, j int) bool { return free[i].rank < free[j].rank })
	out := map[string]string{}
	var gone []*decl
	for _, d := range exp {
		if h := have[d.id()]; h == nil || h.sig != d.sig && (d.kind == "func" || d.kind == "method") {
			gone = append(gone, d)
			out[d.id()] = ""
		}
	}
	// most alike first
	type match struct {
		d, f *decl
		like float64
	}
	var ms []match
	for _, d := range gone {
		for _, f := range free {
			if f.kind == d.kind && f.sig == d.sig {
				ms = append(ms, match{d, f, likeness(d.uses, f.uses)})
			}
		}
	}
	sort.SliceStable(ms, func(i, j int) bool { return ms[i].like > ms[j].like })
	taken := map[*decl]bool{}
	for _, m := range ms {
		// a small helper of the same type is no new name for a function gone
		if out[m.d.id()] == "" && !taken[m.f] && (len(m.d.uses) == 0 || m.like > 0.3) {
			out[m.d.id()] = m.f.name
			taken[m.f] = true
		}
	}
	return out, nil
}

// canonical maps functions that were renamed to the names the references use.
var canonical = map[string]string{}

var refRe = regexp.MustCompile(`func (P(?:29|30)_impl_\w+)\(.*?\) \(([^()]*(?:\[[^()]*\])?), error\) \{\s*return vcRun\(l, (\w+)\)`)

// follow rewrites a reference file of dir for the renamed declarations.
func follow(dir, name string, src []byte, names map[string]string) []byte {
	if len(names) == 0 {
		return src
	}
	pkg := repoMod + "/" + dir
	text := string(src)
	var extra strings.Builder
	fn := map[string]string{}
	member := map[string]string{}
	for id, to := range names {
		kind, old, _ := strings.Cut(id, " ")
		switch {
		case to == "" && kind == "func":
			for _, m := range refRe.FindAllStringSubmatch(text, -1) {
				if m[3] == old {
					fn[old] = "vcWas_" + old
					fmt.Fprintf(&extra, "\nfunc vcWas_%s(l *lex.Lexer) types.Result[%s] {\n\treturn result.New(%s(l))\n}\n", old, m[2], strings.Replace(m[1], "_impl_", "_spec_", 1))
				}
			}
		case to == "":
		case kind == "func" || kind == "var":
			fn[old] = to
			canonical[pkg+"."+to] = pkg + "." + old
		default:
			member[old] = to
			canonical["(*"+pkg+".Lexer)."+to] = "(*" + pkg + ".Lexer)." + old
		}
	}
	var sb strings.Builder
	var sc scanner.Scanner
	fset := token.NewFileSet()
	sc.Init(fset.AddFile(name, -1, len(src)), src, nil, scanner.ScanComments)
	last, prev := 0, token.ILLEGAL
	base := fset.File(1).Base()
	type tok struct {
		off  int
		tok  token.Token
		text string
	}
	var ts []tok
	for {
		p, t, lit := sc.Scan()
		if t == token.EOF {
			break
		}
		ts = append(ts, tok{int(p) - base, t, lit})
	}
	for i, t := range ts {
		if t.tok == token.IDENT && prev != token.PACKAGE {
			to := ""
			switch {
			case prev == token.PERIOD:
				to = member[t.text]
			case i+1 < len(ts) && ts[i+1].tok == token.COLON && member[t.text] != "":
				to = member[t.text]
			default:
				to = fn[t.text]
			}
			if to != "" {
				sb.WriteString(text[last:t.off])
				sb.WriteString(to)
				last = t.off + len(t.text)
			}
		}
		prev = t.tok
	}
	sb.WriteString(text[last:])
	sb.WriteString(extra.String())
	return []byte(sb.String())
}

// showNames prints the table of names.txt for the current program.
func showNames(w *World) {
	for _, dir := range []string{"wast/parse", "wat/lex", "wat/parse", "wit/lex", "wit/parse"} {
		have, err := packageDecls(filepath.Join(repoDir, dir))
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(1)
		}
		used := map[string]bool{}
		hp := w.pkgs[repoMod+"/"+dir]
		for id, o := range hp.TypesInfo.Uses {
			in := filepath.Base(w.fset.Position(id.Pos()).Filename)
			at := filepath.Base(w.fset.Position(o.Pos()).Filename)
			if o.Pkg() == hp.Types && !o.Exported() && strings.HasPrefix(in, harnessPrefix) && !strings.HasPrefix(at, harnessPrefix) {
				used[o.Name()] = true
			}
		}
		var ds []*decl
		for _, d := range have {
			if used[d.name] {
				ds = append(ds, d)
			}
		}
		sort.Slice(ds, func(i, j int) bool { return ds[i].rank < ds[j].rank })
		for _, d := range ds {
			var us []string
			for u := range d.uses {
				us = append(us, u)
			}
			sort.Strings(us)
			fmt.Printf("%s\t%s\t%s\t%s\t%s\n", dir, d.kind, d.name, d.sig, strings.Join(us, " "))
		}
	}
}
