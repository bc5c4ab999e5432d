//go:build ignore

//vc:dir wat/lex

package lex

import (
	"errors"
	"strings"

	"github.com/patrickhuber/go-types"
	"github.com/patrickhuber/go-types/result"
	"github.com/patrickhuber/go-wasm/wat/token"
)

func vcAssume(b bool) {}

func vcReject() error { return errors.New("rejected") }

// vcPlaced says that the lexer is between two tokens or inside the next one.
func vcPlaced(l *Lexer) bool {
	return 0 <= l.offset && l.offset <= l.position && l.position <= len(l.input)
}

// vcStart says that the lexer is at the start of a token.
func vcStart(l *Lexer) bool {
	return 0 <= l.offset && l.offset == l.position && l.position <= len(l.input)
}

// ---- positions ----

//vc:opaque wat/lex.isInteger wat/lex.isFloat wat/lex.keyword
func P23_impl_wat_token(l *Lexer, ty token.Type) (*token.Token, error) {
	vcAssume(vcPlaced(l))
	return l.token(ty).Deconstruct()
}
func P23_spec_wat_token(l *Lexer, ty token.Type) (*token.Token, error) {
	vcAssume(vcPlaced(l))
	text := l.input[l.offset:l.position]
	t := &token.Token{Type: vcClass(ty, text), Position: l.offset, Line: l.line, Column: l.column, Capture: text}
	for i := 0; i < len(text); i++ {
		if text[i] == '\n' {
			l.line, l.column = l.line+1, 0
		} else {
			l.column++
		}
	}
	l.offset = l.position
	return t, nil
}

// vcClass is the type of a token of a rule with the given text.
func vcClass(ty token.Type, text string) token.Type {
	if ty != token.Reserved {
		return ty
	}
	if isInteger(text) {
		return token.Integer
	}
	if isFloat(text) {
		return token.Float
	}
	if kw, ok := keyword(text); ok {
		return kw
	}
	return ty
}

// anyNext is what the scanner finds at a place with some rules.
func anyNext(input string, offset, position, column, line int, rules []Rule) (o, p, c, n int, t token.Token, err error) {
	return
}

func vcScanText(l *Lexer) types.Result[*token.Token] {
	o, p, c, n, t, err := anyNext(l.input, l.offset, l.position, l.column, l.line, l.Rules)
	if err != nil {
		return result.Error[*token.Token](err)
	}
	l.offset, l.position, l.column, l.line = o, p, c, n
	return result.Ok(&t)
}

//vc:symnil l.peekToken
//vc:replace (*wat/lex.Lexer).next=vcScanText
func P23_impl_wat_next(l *Lexer) (*token.Token, error) {
	vcAssume(l != nil)
	return l.Next()
}
func P23_spec_wat_next(l *Lexer) (*token.Token, error) {
	vcAssume(l != nil)
	if t := l.peekToken; t != nil {
		l.peekToken = nil
		return t, nil
	}
	return vcScanText(l).Deconstruct()
}

//vc:symnil l.peekToken
//vc:replace (*wat/lex.Lexer).next=vcScanText
func P23_impl_wat_peek(l *Lexer) (*token.Token, error) {
	vcAssume(l != nil)
	t, err := l.Peek()
	if err != nil {
		return nil, err
	}
	u, err := l.Next()
	if err != nil {
		return nil, err
	}
	if t != u {
		return nil, vcReject()
	}
	return u, nil
}
func P23_spec_wat_peek(l *Lexer) (*token.Token, error) {
	vcAssume(l != nil)
	return l.Next()
}

//vc:symnil l.peekToken
//vc:replace (*wat/lex.Lexer).next=vcScanText
func P23_impl_wat_peektwice(l *Lexer) (*token.Token, error) {
	vcAssume(l != nil)
	if _, err := l.Peek(); err != nil {
		return nil, err
	}
	return l.Peek()
}
func P23_spec_wat_peektwice(l *Lexer) (*token.Token, error) {
	vcAssume(l != nil)
	return l.Peek()
}

//vc:symnil l.peekToken
//vc:replace (*wat/lex.Lexer).next=vcScanText
func P23_impl_wat_clone(l *Lexer) (*token.Token, error) {
	vcAssume(l != nil)
	return l.Clone().Next()
}
func P23_spec_wat_clone(l *Lexer) (*token.Token, error) {
	vcAssume(l != nil)
	c := *l
	return c.Next()
}

//vc:symnil l.peekToken
//vc:replace (*wat/lex.Lexer).next=vcScanText
func P23_impl_wat_original(l *Lexer) (*token.Token, error) {
	vcAssume(l != nil)
	l.Clone().Next()
	return l.Next()
}
func P23_spec_wat_original(l *Lexer) (*token.Token, error) {
	vcAssume(l != nil)
	return l.Next()
}

func P23_impl_wat_new(input string) (string, int, int, int, int, bool) {
	l := New(input)
	return l.input, l.offset, l.position, l.column, l.line, l.peekToken == nil
}
func P23_spec_wat_new(input string) (string, int, int, int, int, bool) {
	return input, 0, 0, 0, 0, true
}

// ---- token types ----

func P24_impl_wat_keyword(s string) (token.Type, bool) { return keyword(s) }
func P24_spec_wat_keyword(s string) (token.Type, bool) {
	if s == "module" {
		return token.Module, true
	}
	if s == "component" {
		return token.Component, true
	}
	return "", false
}

func vcDigit(c byte) bool { return '0' <= c && c <= '9' }
func vcHex(c byte) bool   { return vcDigit(c) || 'a' <= c && c <= 'f' || 'A' <= c && c <= 'F' }
func vcSign(c byte) bool  { return c == '+' || c == '-' }

// vcDigits is the end of the digits at i, underscores allowed after the first.
func vcDigits(s string, i int, digit func(byte) bool) (int, bool) {
	if i >= len(s) || !digit(s[i]) {
		return i, false
	}
	for i < len(s) && (s[i] == '_' || digit(s[i])) {
		i++
	}
	return i, true
}

// vcWhole says that all of s are digits.
func vcWhole(s string, digit func(byte) bool) bool {
	i, ok := vcDigits(s, 0, digit)
	return ok && i == len(s)
}

// vcScientific says that s is digits from i on, with an optional fraction and
// exponent.
func vcScientific(s string, i int, digit func(byte) bool, lower, upper byte) bool {
	i, ok := vcDigits(s, i, digit)
	if !ok {
		return false
	}
	if i < len(s) && s[i] == '.' {
		i, _ = vcDigits(s, i+1, digit)
	}
	if i < len(s) && (s[i] == lower || s[i] == upper) {
		i++
		if i < len(s) && vcSign(s[i]) {
			i++
		}
		i, ok = vcDigits(s, i, vcDigit)
	}
	return ok && i == len(s)
}

func vcUnsigned(s string) string {
	if len(s) > 0 && vcSign(s[0]) {
		return s[1:]
	}
	return s
}

func P24_impl_wat_integer(s string) bool { return isInteger(s) }
func P24_spec_wat_integer(s string) bool {
	s = vcUnsigned(s)
	if vcWhole(s, vcDigit) {
		return true
	}
	return strings.HasPrefix(s, "0x") && vcWhole(strings.TrimPrefix(s, "0x"), vcHex)
}

func P24_impl_wat_decimal(s string) bool {
	n, ok := float(s, 0)
	return ok && n == len(s)
}
func P24_spec_wat_decimal(s string) bool {
	return vcScientific(s, 0, vcDigit, 'e', 'E')
}

func P24_impl_wat_hexadecimal(s string) bool {
	n, ok := hexfloat(s, 0)
	return ok && n == len(s)
}
func P24_spec_wat_hexadecimal(s string) bool {
	return strings.HasPrefix(s, "0x") && vcScientific(s, 2, vcHex, 'p', 'P')
}

//vc:opaque wat/lex.float wat/lex.hexfloat
func P24_impl_wat_float(s string) bool { return isFloat(s) }
func P24_spec_wat_float(s string) bool {
	if len(s) == 0 {
		return false
	}
	s = vcUnsigned(s)
	switch s {
	case "inf", "nan", "nan:arithmetic", "nan:canonical":
		return true
	}
	if strings.HasPrefix(s, "nan:0x") {
		s = strings.TrimPrefix(s, "nan:0x")
		return vcWhole(s, vcHex)
	}
	if n, ok := float(s, 0); ok && n == len(s) {
		return true
	}
	n, ok := hexfloat(s, 0)
	return ok && n == len(s)
}

//vc:opaque wat/lex.isInteger wat/lex.isFloat
//vc:resultonly
func P24_impl_wat_type(l *Lexer, ty token.Type) (token.Type, string, bool) {
	vcAssume(vcPlaced(l))
	t, err := l.token(ty).Deconstruct()
	if err != nil {
		return ty, "", false
	}
	return t.Type, t.Capture, true
}
func P24_spec_wat_type(l *Lexer, ty token.Type) (token.Type, string, bool) {
	vcAssume(vcPlaced(l))
	text := l.input[l.offset:l.position]
	return vcClass(ty, text), text, true
}

// ---- the rules' automata ----

func vcNew() []Rule                          { return New("").Rules }
func vcCheck(r Rule, c byte) bool            { return r.Check(c) }
func vcType(r Rule) token.Type               { return r.Type() }
func vcLexeme(r Rule) Lexeme                 { return registry[r.RuleType()].Lexeme(r) }
func vcEat(x Lexeme, c byte) bool            { return x.Eat(c) }
func vcAccepted(x Lexeme) (bool, token.Type) { return x.Accepted(), x.Rule().Type() }

// ---- longest match ----

func vcTokenText(l *Lexer, ty token.Type) types.Result[*token.Token] {
	t := &token.Token{Type: ty, Position: l.offset, Capture: l.input[l.offset:l.position]}
	l.offset = l.position
	return result.Ok(t)
}

//vc:replace (*wat/lex.Lexer).token=vcTokenText
//vc:symglobal wat/lex.registry
func P24_impl_wat_next(l *Lexer) (*token.Token, error) {
	vcAssume(vcStart(l))
	return l.next().Deconstruct()
}
func P24_spec_wat_next(l *Lexer) (*token.Token, error) {
	vcAssume(vcStart(l))
	if l.position >= len(l.input) {
		return vcTokenText(l, token.EndOfStream).Deconstruct()
	}
	c := l.input[l.position]
	l.position++
	var live []Lexeme
	for _, r := range l.Rules {
		if r.Check(c) {
			x := registry[r.RuleType()].Lexeme(r)
			x.Eat(c)
			live = append(live, x)
		}
	}
	if len(live) == 0 {
		return nil, vcReject()
	}
	for {
		if l.position >= len(l.input) {
			return vcFirst(l, live)
		}
		c := l.input[l.position]
		var next []Lexeme
		for _, x := range live {
			if x.Eat(c) {
				next = append(next, x)
			}
		}
		if len(next) == 0 {
			return vcFirst(l, live)
		}
		l.position++
		live = next
	}
}

// vcFirst is the token of the first rule that accepts.
func vcFirst(l *Lexer, live []Lexeme) (*token.Token, error) {
	for _, x := range live {
		if x.Accepted() {
			return vcTokenText(l, x.Rule().Type()).Deconstruct()
		}
	}
	return nil, vcReject()
}

//vc:replace (*wat/lex.Lexer).token=vcTokenText
//vc:symglobal wat/lex.registry
//vc:resultonly
func P23_impl_wat_progress(l *Lexer) bool {
	vcAssume(vcStart(l))
	start := l.offset
	if _, err := l.next().Deconstruct(); err != nil {
		return true
	}
	return (l.position > start || start == len(l.input)) && l.position <= len(l.input)
}
func P23_spec_wat_progress(l *Lexer) bool {
	vcAssume(vcStart(l))
	return true
}
