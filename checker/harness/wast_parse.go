//go:build ignore

//vc:dir wast/parse

package parse

import (
	"github.com/patrickhuber/go-types"
	"github.com/patrickhuber/go-types/handle"
	"github.com/patrickhuber/go-types/option"
	"github.com/patrickhuber/go-types/result"
	"github.com/patrickhuber/go-wasm/wast/ast"
	"github.com/patrickhuber/go-wasm/wat/lex"
	watparse "github.com/patrickhuber/go-wasm/wat/parse"
	"github.com/patrickhuber/go-wasm/wat/token"
)

// vcRun runs a production of the parser.
func vcRun[T any](l *lex.Lexer, p func(*lex.Lexer) types.Result[T]) (T, error) {
	return vcRun1(l, p).Deconstruct()
}

func vcRun1[T any](l *lex.Lexer, p func(*lex.Lexer) types.Result[T]) (res types.Result[T]) {
	defer handle.Error(&res)
	return p(l)
}

// vcRef runs a reference production.
func vcRef[T any](l *lex.Lexer, p func(*lex.Lexer) T) (T, error) {
	return vcRef1(l, p).Deconstruct()
}

func vcRef1[T any](l *lex.Lexer, p func(*lex.Lexer) T) (res types.Result[T]) {
	defer handle.Error(&res)
	return result.Ok(p(l))
}

func vcBad() { types.Throw(nil) }

func vcNext(l *lex.Lexer) *token.Token { return next(l).Unwrap() }
func vcLook(l *lex.Lexer) *token.Token { return peek(l).Unwrap() }

func vcWant(l *lex.Lexer, ty token.Type) {
	if vcNext(l).Type != ty {
		vcBad()
	}
}

func vcWord(l *lex.Lexer, word string) {
	t := vcNext(l)
	if t.Type != token.Reserved || t.Capture != word {
		vcBad()
	}
}

func vcHas(l *lex.Lexer, ty token.Type) bool {
	if vcLook(l).Type != ty {
		return false
	}
	vcNext(l)
	return true
}

// ('(' clause ')')*
func vcClauses(l *lex.Lexer, clause func()) {
	for vcHas(l, token.OpenParen) {
		clause()
		vcWant(l, token.CloseParen)
	}
}

func vcClauses__2(l *lex.Lexer, clause func()) {
	t := vcLook(l)
	for t.Type == token.OpenParen {
		vcNext(l)
		clause()
		vcWant(l, token.CloseParen)
		t = vcLook(l)
	}
}

func vcText(l *lex.Lexer) string {
	s, err := watparse.ParseString(l)
	if err != nil {
		vcBad()
	}
	return s
}

//vc:tokens
func P29_impl_wast_parse(input string) (*ast.Wast, error) { return Parse(input) }
func P29_spec_wast_parse(input string) (*ast.Wast, error) {
	return vcRef(lex.New(input), func(l *lex.Lexer) *ast.Wast {
		var ds []ast.Directive
		for vcLook(l).Type != token.EndOfStream {
			ds = append(ds, parseDirective(l).Unwrap())
		}
		return &ast.Wast{Directives: ds}
	})
}
func P29_alt_wast_parse(input string) (*ast.Wast, error) {
	return vcRef(lex.New(input), func(l *lex.Lexer) *ast.Wast {
		var ds []ast.Directive
		t := vcLook(l)
		for t.Type != token.EndOfStream {
			ds = append(ds, parseDirective(l).Unwrap())
			t = vcLook(l)
		}
		return &ast.Wast{Directives: ds}
	})
}

//vc:tokens
func P29_impl_wast_directive(l *lex.Lexer) (ast.Directive, error) { return vcRun(l, parseDirective) }
func P29_spec_wast_directive(l *lex.Lexer) (ast.Directive, error) {
	return vcRef(l, func(l *lex.Lexer) ast.Directive {
		ahead := l.Clone()
		vcWant(ahead, token.OpenParen)
		t := vcLook(ahead)
		if t.Capture == "module" || t.Capture == "component" {
			return ast.WatDirective{Wat: parseQuoteWat(l).Unwrap()}
		}
		vcWant(l, token.OpenParen)
		var d ast.Directive
		w := vcNext(l)
		if w.Type != token.Reserved {
			vcBad()
		}
		if w.Capture == "assert_return" {
			a := parseAction(l).Unwrap()
			d = ast.AssertReturn{Action: a, Results: parseResults(l).Unwrap()}
		} else if w.Capture == "assert_trap" {
			a := parseAction(l).Unwrap()
			d = ast.AssertTrap{Action: a, Failure: vcText(l)}
		} else if w.Capture == "assert_invalid" {
			m := parseQuoteWat(l).Unwrap()
			d = ast.AssertInvalid{Module: m, Failure: vcText(l)}
		} else if w.Capture == "assert_malformed" {
			m := parseQuoteWat(l).Unwrap()
			d = ast.AssertMalformed{Module: m, Failure: vcText(l)}
		} else {
			vcBad()
		}
		vcWant(l, token.CloseParen)
		return d
	})
}

//vc:tokens
func P29_impl_wast_quotewat(l *lex.Lexer) (ast.QuoteWat, error) { return vcRun(l, parseQuoteWat) }
func P29_spec_wast_quotewat(l *lex.Lexer) (ast.QuoteWat, error) {
	return vcRef(l, func(l *lex.Lexer) ast.QuoteWat {
		ahead := l.Clone()
		vcWant(ahead, token.OpenParen)
		kind := vcNext(ahead)
		if kind.Type != token.Module && kind.Type != token.Component {
			vcBad()
		}
		if q := vcNext(ahead); q.Type != token.Reserved || q.Capture != "quote" {
			d, err := watparse.Parse(l)
			if err != nil {
				vcBad()
			}
			return &ast.Wat{Wat: d}
		}
		*l = *ahead
		text := vcText(l)
		vcWant(l, token.CloseParen)
		if kind.Type == token.Module {
			return &ast.QuoteModule{Quote: text}
		}
		return &ast.QuoteComponent{Quote: text}
	})
}

//vc:tokens
func P29_impl_wast_action(l *lex.Lexer) (ast.Action, error) { return vcRun(l, parseAction) }
func P29_spec_wast_action(l *lex.Lexer) (ast.Action, error) {
	return vcRef(l, func(l *lex.Lexer) ast.Action {
		vcWant(l, token.OpenParen)
		vcWord(l, "invoke")
		i := ast.Invoke{Name: option.None[string]()}
		if vcLook(l).Type == token.Id {
			i.Name = option.Some(vcNext(l).Capture)
		}
		i.String = vcText(l)
		i.Const = parseConsts(l).Unwrap()
		vcWant(l, token.CloseParen)
		return i
	})
}

func vcConst(l *lex.Lexer) (ast.Const, ast.Result) {
	t := vcNext(l)
	if t.Type != token.Reserved {
		vcBad()
	}
	if t.Capture == "i32.const" {
		v, err := watparse.ParseInt32(l)
		if err != nil {
			vcBad()
		}
		return ast.I32Const{Value: v}, ast.I32Const{Value: v}
	}
	if t.Capture == "i64.const" {
		v, err := watparse.ParseInt64(l)
		if err != nil {
			vcBad()
		}
		return ast.I64Const{Value: v}, ast.I64Const{Value: v}
	}
	if t.Capture == "f32.const" {
		v, err := watparse.ParseFloat32(l)
		if err != nil {
			vcBad()
		}
		return ast.F32Const{Value: v}, ast.F32Const{Value: v}
	}
	if t.Capture != "f64.const" {
		vcBad()
	}
	v, err := watparse.ParseFloat64(l)
	if err != nil {
		vcBad()
	}
	return ast.F64Const{Value: v}, ast.F64Const{Value: v}
}

//vc:tokens
func P29_impl_wast_consts(l *lex.Lexer) ([]ast.Const, error) { return vcRun(l, parseConsts) }
func P29_spec_wast_consts(l *lex.Lexer) ([]ast.Const, error) {
	return vcRef(l, func(l *lex.Lexer) (cs []ast.Const) {
		vcClauses(l, func() {
			c, _ := vcConst(l)
			cs = append(cs, c)
		})
		return cs
	})
}

//vc:tokens
func P29_impl_wast_results(l *lex.Lexer) ([]ast.Result, error) { return vcRun(l, parseResults) }
func P29_spec_wast_results(l *lex.Lexer) ([]ast.Result, error) {
	return vcRef(l, func(l *lex.Lexer) (rs []ast.Result) {
		vcClauses(l, func() {
			_, r := vcConst(l)
			rs = append(rs, r)
		})
		return rs
	})
}

func vcBlank(t *token.Token) bool {
	return t.Type == token.Whitespace || t.Type == token.LineComment || t.Type == token.BlockComment
}

func vcSkip(l *lex.Lexer) {
	for {
		t, err := l.Peek()
		if err != nil {
			vcBad()
		}
		if !vcBlank(t) {
			return
		}
		l.Next()
	}
}

//vc:lexemes
func P28_impl_wast_next(l *lex.Lexer) (*token.Token, error) { return vcRun(l, next) }
func P28_spec_wast_next(l *lex.Lexer) (*token.Token, error) {
	return vcRef(l, func(l *lex.Lexer) *token.Token {
		for {
			t, err := l.Next()
			if err != nil {
				vcBad()
			}
			if !vcBlank(t) {
				return t
			}
		}
	})
}
func P28_alt_wast_next(l *lex.Lexer) (*token.Token, error) {
	return vcRef(l, func(l *lex.Lexer) *token.Token {
		vcSkip(l)
		t, _ := l.Next()
		return t
	})
}

//vc:lexemes
func P28_impl_wast_peek(l *lex.Lexer) (*token.Token, error) { return vcRun(l, peek) }
func P28_spec_wast_peek(l *lex.Lexer) (*token.Token, error) {
	return vcRef(l, func(l *lex.Lexer) *token.Token {
		vcSkip(l)
		t, _ := l.Peek()
		return t
	})
}
