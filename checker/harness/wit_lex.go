//go:build ignore

//vc:dir wit/lex

package lex

import (
	"errors"
	"unicode"
	"unicode/utf8"

	"github.com/patrickhuber/go-types"
	"github.com/patrickhuber/go-types/result"
	"github.com/patrickhuber/go-wasm/wit/token"
)

func vcAssume(b bool) {}

func vcReject() error { return errors.New("rejected") }

// vcPlaced says that the lexer is between two tokens or inside the next one.
func vcPlaced(l *Lexer) bool {
	return 0 <= l.offset && l.offset <= l.position && l.position <= len(l.input)
}

// vcStart says that the lexer is at the start of a token.
func vcStart(l *Lexer) bool {
	return 0 <= l.offset && l.offset == l.position && l.position <= len(l.input)
}

// ---- positions ----

func P23_impl_wit_token(l *Lexer, ty token.TokenType) (*token.Token, error) {
	vcAssume(vcPlaced(l))
	return l.token(ty).Deconstruct()
}
func P23_spec_wit_token(l *Lexer, ty token.TokenType) (*token.Token, error) {
	vcAssume(vcPlaced(l))
	text := l.input[l.offset:l.position]
	t := &token.Token{Type: ty, Position: l.offset, Line: l.line, Column: l.column, Capture: text}
	for i := 0; i < len(text); i++ {
		if text[i] == '\n' {
			l.line, l.column = l.line+1, 0
		} else {
			l.column++
		}
	}
	l.offset = l.position
	return t, nil
}

// anyNext is what the scanner finds at a place.
func anyNext(input string, offset, position, column, line int) (o, p, c, n int, t token.Token, err error) {
	return
}

func vcScan(l *Lexer) types.Result[*token.Token] {
	o, p, c, n, t, err := anyNext(l.input, l.offset, l.position, l.column, l.line)
	if err != nil {
		return result.Error[*token.Token](err)
	}
	l.offset, l.position, l.column, l.line = o, p, c, n
	return result.Ok(&t)
}

//vc:symnil l.peekToken
//vc:replace (*wit/lex.Lexer).next=vcScan
func P23_impl_wit_next(l *Lexer) (*token.Token, error) {
	vcAssume(l != nil)
	return l.Next()
}
func P23_spec_wit_next(l *Lexer) (*token.Token, error) {
	vcAssume(l != nil)
	if t := l.peekToken; t != nil {
		l.peekToken = nil
		return t, nil
	}
	return vcScan(l).Deconstruct()
}

//vc:symnil l.peekToken
//vc:replace (*wit/lex.Lexer).next=vcScan
func P23_impl_wit_peek(l *Lexer) (*token.Token, error) {
	vcAssume(l != nil)
	t, err := l.Peek()
	if err != nil {
		return nil, err
	}
	u, err := l.Next()
	if err != nil {
		return nil, err
	}
	if t != u {
		return nil, vcReject()
	}
	return u, nil
}
func P23_spec_wit_peek(l *Lexer) (*token.Token, error) {
	vcAssume(l != nil)
	return l.Next()
}

//vc:symnil l.peekToken
//vc:replace (*wit/lex.Lexer).next=vcScan
func P23_impl_wit_peektwice(l *Lexer) (*token.Token, error) {
	vcAssume(l != nil)
	if _, err := l.Peek(); err != nil {
		return nil, err
	}
	return l.Peek()
}
func P23_spec_wit_peektwice(l *Lexer) (*token.Token, error) {
	vcAssume(l != nil)
	return l.Peek()
}

//vc:symnil l.peekToken
//vc:replace (*wit/lex.Lexer).next=vcScan
func P23_impl_wit_clone(l *Lexer) (*token.Token, error) {
	vcAssume(l != nil)
	return l.Clone().Next()
}
func P23_spec_wit_clone(l *Lexer) (*token.Token, error) {
	vcAssume(l != nil)
	c := *l
	return c.Next()
}

//vc:symnil l.peekToken
//vc:replace (*wit/lex.Lexer).next=vcScan
func P23_impl_wit_original(l *Lexer) (*token.Token, error) {
	vcAssume(l != nil)
	l.Clone().Next()
	return l.Next()
}
func P23_spec_wit_original(l *Lexer) (*token.Token, error) {
	vcAssume(l != nil)
	return l.Next()
}

func P23_impl_wit_new(input string) *Lexer { return New(input) }
func P23_spec_wit_new(input string) *Lexer { return &Lexer{input: input} }

// ---- token types ----

func vcRune(in string, i int) (rune, int) {
	r, w := utf8.DecodeRuneInString(in[i:])
	return r, i + w
}

func vcWhile(in string, i int, class func(rune) bool) int {
	for i < len(in) {
		r, n := vcRune(in, i)
		if !class(r) {
			break
		}
		i = n
	}
	return i
}

func vcNotLine(r rune) bool { return r != '\n' }

func vcStartsWord(r rune) bool { return unicode.IsLetter(r) || r == '_' || r == '-' }
func vcInWord(r rune) bool     { return unicode.IsLetter(r) || unicode.IsDigit(r) || r == '-' }

func vcFollows(in string, i int, c rune) bool {
	if i >= len(in) {
		return false
	}
	r, _ := vcRune(in, i)
	return r == c
}

func vcAfter(in string, i int) int {
	_, n := vcRune(in, i)
	return n
}

// vcToken stands for the emission of a token, see P23.
func vcToken(l *Lexer, ty token.TokenType) types.Result[*token.Token] {
	t := &token.Token{Type: ty, Position: l.offset, Line: l.line, Column: l.column, Capture: l.input[l.offset:l.position]}
	return result.Ok(t)
}

func vcEmit(l *Lexer, end int, ty token.TokenType) (*token.Token, error) {
	l.position = end
	return vcToken(l, ty).Deconstruct()
}

func vcKeyword(w string) token.TokenType {
	switch w {
	case "use", "type", "func", "u8", "u16", "u32", "u64", "s8", "s16", "s32", "s64", "float32", "float64", "char",
		"resource", "own", "borrow", "record", "flags", "variant", "enum", "union", "bool", "string", "option", "result",
		"future", "stream", "list", "_", "as", "from", "static", "interface", "tuple", "world", "import", "export",
		"package", "constructor", "include", "with":
		return token.TokenType(w)
	}
	return token.Id
}

//vc:replace (*wit/lex.Lexer).token=vcToken
func P25_impl_wit_next(l *Lexer) (*token.Token, error) {
	vcAssume(vcStart(l))
	return l.next().Deconstruct()
}
func P25_spec_wit_next(l *Lexer) (*token.Token, error) {
	vcAssume(vcStart(l))
	in := l.input
	if l.offset >= len(in) {
		return vcEmit(l, l.offset, token.EndOfStream)
	}
	r, i := vcRune(in, l.offset)
	if unicode.IsSpace(r) {
		return vcEmit(l, vcWhile(in, i, unicode.IsSpace), token.Whitespace)
	}
	if r == '/' {
		if vcFollows(in, i, '/') {
			return vcEmit(l, vcWhile(in, vcAfter(in, i), vcNotLine), token.LineComment)
		}
		if !vcFollows(in, i, '*') {
			return vcEmit(l, i, token.Slash)
		}
		i = vcAfter(in, i)
		for depth := 1; depth > 0; {
			if i >= len(in) {
				return nil, vcReject()
			}
			r, n := vcRune(in, i)
			i = n
			if r == '/' {
				if vcFollows(in, i, '*') {
					i = vcAfter(in, i)
					depth++
				}
			} else if r == '*' && vcFollows(in, i, '/') {
				i = vcAfter(in, i)
				depth--
			}
		}
		return vcEmit(l, i, token.BlockComment)
	}
	for _, m := range []token.TokenType{token.Equal, token.Comma, token.Colon, token.Period, token.Semicolon, token.OpenParen, token.CloseParen,
		token.OpenBrace, token.CloseBrace, token.Less, token.Greater, token.Star, token.At, token.Plus} {
		if r == rune(m[0]) {
			return vcEmit(l, i, m)
		}
	}
	if r == '-' {
		if vcFollows(in, i, '>') {
			return vcEmit(l, vcAfter(in, i), token.RightArrow)
		}
		return vcEmit(l, i, token.Minus)
	}
	if r == '%' {
		if i >= len(in) {
			return nil, vcReject()
		}
		r, n := vcRune(in, i)
		if !vcStartsWord(r) {
			return nil, vcReject()
		}
		return vcEmit(l, vcWhile(in, n, vcInWord), token.ExplicitId)
	}
	if vcStartsWord(r) {
		end := vcWhile(in, i, vcInWord)
		return vcEmit(l, end, vcKeyword(in[l.offset:end]))
	}
	if unicode.IsDigit(r) {
		return vcEmit(l, vcWhile(in, i, unicode.IsDigit), token.Integer)
	}
	return nil, vcReject()
}

//vc:replace (*wit/lex.Lexer).token=vcToken
//vc:resultonly
func P23_impl_wit_progress(l *Lexer) bool {
	vcAssume(vcStart(l))
	start := l.offset
	if _, err := l.next().Deconstruct(); err != nil {
		return true
	}
	return (l.position > start || start == len(l.input)) && l.position <= len(l.input)
}
func P23_spec_wit_progress(l *Lexer) bool {
	vcAssume(vcStart(l))
	return true
}
