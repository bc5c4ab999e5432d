//go:build ignore

//vc:dir wit/parse

package wit

import (
	"strconv"

	"github.com/patrickhuber/go-types"
	"github.com/patrickhuber/go-types/handle"
	"github.com/patrickhuber/go-types/option"
	"github.com/patrickhuber/go-types/result"
	"github.com/patrickhuber/go-wasm/wit/ast"
	"github.com/patrickhuber/go-wasm/wit/lex"
	"github.com/patrickhuber/go-wasm/wit/token"
)

func vcAssume(bool) {}

// vcRun runs a production of the parser.
func vcRun[T any](l *lex.Lexer, p func(*lex.Lexer) types.Result[T]) (T, error) {
	return vcRun1(l, p).Deconstruct()
}

func vcRun1[T any](l *lex.Lexer, p func(*lex.Lexer) types.Result[T]) (res types.Result[T]) {
	defer handle.Error(&res)
	return p(l)
}

// vcRef runs a reference production.
func vcRef[T any](l *lex.Lexer, p func(*lex.Lexer) T) (T, error) {
	return vcRef1(l, p).Deconstruct()
}

func vcRef1[T any](l *lex.Lexer, p func(*lex.Lexer) T) (res types.Result[T]) {
	defer handle.Error(&res)
	return result.Ok(p(l))
}

func vcBad() { types.Throw(nil) }

func vcNext(l *lex.Lexer) *token.Token { return next(l).Unwrap() }
func vcLook(l *lex.Lexer) token.TokenType {
	return peek(l).Unwrap().Type
}

func vcWant(l *lex.Lexer, ty token.TokenType) {
	if vcNext(l).Type != ty {
		vcBad()
	}
}

func vcHas(l *lex.Lexer, ty token.TokenType) bool {
	if vcLook(l) != ty {
		return false
	}
	vcNext(l)
	return true
}

// open item (',' item)* ','? close, possibly without items
func vcList[T any](l *lex.Lexer, open, close token.TokenType, item func(*lex.Lexer) T) []T {
	var out []T
	vcWant(l, open)
	vcSep(l, close, func() { out = append(out, item(l)) })
	return out
}

// Loops over items come in equivalent shapes; vcSep__2 is tried where vcSep
// does not match, and so on.
func vcSep(l *lex.Lexer, close token.TokenType, item func()) {
	for !vcHas(l, close) {
		item()
		if !vcHas(l, token.Comma) {
			vcWant(l, close)
			break
		}
	}
}

func vcSep__2(l *lex.Lexer, close token.TokenType, item func()) {
	t := vcLook(l)
	for t != close {
		item()
		if !vcHas(l, token.Comma) {
			break
		}
		t = vcLook(l)
	}
	vcWant(l, close)
}

// item* close
func vcUntil(l *lex.Lexer, close token.TokenType, item func()) {
	for !vcHas(l, close) {
		item()
	}
}

func vcUntil__2(l *lex.Lexer, close token.TokenType, item func()) {
	t := vcLook(l)
	for t != close {
		item()
		t = vcLook(l)
	}
	vcNext(l)
}

// (token item)* close
func vcFrom(l *lex.Lexer, close token.TokenType, item func(*token.Token)) {
	for {
		t := vcNext(l)
		if t.Type == close {
			break
		}
		item(t)
	}
}

func vcFrom__2(l *lex.Lexer, close token.TokenType, item func(*token.Token)) {
	t := vcNext(l)
	for t.Type != close {
		item(t)
		t = vcNext(l)
	}
}

func vcId(l *lex.Lexer) string { return parseId(l).Unwrap() }

//vc:tokens
func P29_impl_wit_ast(l *lex.Lexer) (*ast.Ast, error) { return vcRun(l, parseAst) }
func P29_spec_wit_ast(l *lex.Lexer) (*ast.Ast, error) {
	return vcRef(l, func(l *lex.Lexer) *ast.Ast {
		pkg := option.None[ast.PackageDeclaration]()
		if vcHas(l, token.Package) {
			pkg = option.Some(*parsePackageDeclaration(l).Unwrap())
		}
		var items []ast.AstItem
		vcFrom(l, token.EndOfStream, func(t *token.Token) {
			items = append(items, vcAstItem(l, t))
		})
		return &ast.Ast{PackageDeclaration: pkg, Items: items}
	})
}

// the same, fetching the first token before looking for a package
func P29_alt_wit_ast(l *lex.Lexer) (*ast.Ast, error) {
	return vcRef(l, func(l *lex.Lexer) *ast.Ast {
		pkg := option.None[ast.PackageDeclaration]()
		t := vcNext(l)
		if t.Type == token.Package {
			pkg = option.Some(*parsePackageDeclaration(l).Unwrap())
			t = vcNext(l)
		}
		var items []ast.AstItem
		for t.Type != token.EndOfStream {
			items = append(items, vcAstItem(l, t))
			t = vcNext(l)
		}
		return &ast.Ast{PackageDeclaration: pkg, Items: items}
	})
}

func vcAstItem(l *lex.Lexer, t *token.Token) (it ast.AstItem) {
	if t.Type == token.Use {
		it.Use = parseTopLevelUse(l).Unwrap()
	} else if t.Type == token.World {
		it.World = parseWorld(l).Unwrap()
	} else if t.Type == token.Interface {
		it.Interface = parseInterface(l).Unwrap()
	} else {
		vcBad()
	}
	return it
}

//vc:tokens
func P29_impl_wit_package(l *lex.Lexer) (*ast.PackageDeclaration, error) {
	return vcRun(l, parsePackageDeclaration)
}
func P29_spec_wit_package(l *lex.Lexer) (*ast.PackageDeclaration, error) {
	return vcRef(l, func(l *lex.Lexer) *ast.PackageDeclaration {
		p := &ast.PackageDeclaration{Version: option.None[ast.Version]()}
		p.Namespace = vcId(l)
		vcWant(l, token.Colon)
		p.Name = vcId(l)
		if vcHas(l, token.At) {
			p.Version = option.Some(*parseVersion(l).Unwrap())
		}
		vcWant(l, token.Semicolon)
		return p
	})
}

//vc:tokens
func P29_impl_wit_version(l *lex.Lexer) (*ast.Version, error) { return vcRun(l, parseVersion) }
func P29_spec_wit_version(l *lex.Lexer) (*ast.Version, error) {
	return vcRef(l, func(l *lex.Lexer) *ast.Version {
		v := &ast.Version{}
		v.Major = uint64(parseInteger(l).Unwrap())
		vcWant(l, token.Period)
		v.Minor = uint64(parseInteger(l).Unwrap())
		vcWant(l, token.Period)
		v.Patch = uint64(parseInteger(l).Unwrap())
		return v
	})
}

//vc:tokens
//vc:inline everywhere
func P29_impl_wit_optversion(l *lex.Lexer) (types.Option[ast.Version], error) {
	return vcRun(l, parseOptionalVersion)
}
func P29_spec_wit_optversion(l *lex.Lexer) (types.Option[ast.Version], error) {
	return vcRef(l, func(l *lex.Lexer) types.Option[ast.Version] {
		if vcHas(l, token.At) {
			return option.Some(*parseVersion(l).Unwrap())
		}
		return option.None[ast.Version]()
	})
}

//vc:tokens
func P29_impl_wit_topuse(l *lex.Lexer) (*ast.TopLevelUse, error) { return vcRun(l, parseTopLevelUse) }
func P29_spec_wit_topuse(l *lex.Lexer) (*ast.TopLevelUse, error) {
	return vcRef(l, func(l *lex.Lexer) *ast.TopLevelUse {
		u := &ast.TopLevelUse{As: option.None[string]()}
		u.Item = parseUsePath(l).Unwrap()
		if vcHas(l, token.As) {
			u.As = option.Some(vcId(l))
		}
		vcWant(l, token.Semicolon)
		return u
	})
}

//vc:tokens
func P29_impl_wit_interface(l *lex.Lexer) (*ast.Interface, error) { return vcRun(l, parseInterface) }
func P29_spec_wit_interface(l *lex.Lexer) (*ast.Interface, error) {
	return vcRef(l, func(l *lex.Lexer) *ast.Interface {
		n := vcId(l)
		return &ast.Interface{Name: n, Items: parseInterfaceItems(l).Unwrap()}
	})
}

//vc:tokens
func P29_impl_wit_interfaceitems(l *lex.Lexer) ([]ast.InterfaceItem, error) {
	return vcRun(l, parseInterfaceItems)
}
func P29_spec_wit_interfaceitems(l *lex.Lexer) ([]ast.InterfaceItem, error) {
	return vcRef(l, func(l *lex.Lexer) []ast.InterfaceItem {
		var out []ast.InterfaceItem
		vcWant(l, token.OpenBrace)
		vcUntil(l, token.CloseBrace, func() { out = append(out, parseInterfaceItem(l).Unwrap()) })
		return out
	})
}

//vc:tokens
func P29_impl_wit_interfaceitem(l *lex.Lexer) (ast.InterfaceItem, error) {
	return vcRun(l, parseInterfaceItem)
}
func P29_spec_wit_interfaceitem(l *lex.Lexer) (ast.InterfaceItem, error) {
	return vcRef(l, func(l *lex.Lexer) ast.InterfaceItem {
		t := vcLook(l)
		if t == token.Use {
			return parseUse(l).Unwrap()
		}
		if t == token.Resource || t == token.Record || t == token.Flags || t == token.Variant || t == token.Enum || t == token.Type {
			return vcTypeDef(l, t)
		}
		return parseFuncItem(l).Unwrap()
	})
}

func vcTypeDef(l *lex.Lexer, t token.TokenType) ast.TypeDef {
	switch t {
	case token.Resource:
		return parseResource(l).Unwrap()
	case token.Record:
		return parseRecord(l).Unwrap()
	case token.Flags:
		return parseFlags(l).Unwrap()
	case token.Variant:
		return parseVariant(l).Unwrap()
	case token.Enum:
		return parseEnum(l).Unwrap()
	case token.Type:
		return parseTypeItem(l).Unwrap()
	}
	vcBad()
	return nil
}

//vc:tokens
func P29_impl_wit_resource(l *lex.Lexer) (ast.Resource, error) { return vcRun(l, parseResource) }
func P29_spec_wit_resource(l *lex.Lexer) (ast.Resource, error) {
	return vcRef(l, func(l *lex.Lexer) ast.Resource {
		vcWant(l, token.Resource)
		r := ast.Resource{ID: vcId(l)}
		if vcHas(l, token.Semicolon) {
			return r
		}
		vcWant(l, token.OpenBrace)
		var ms []ast.ResourceMethod
		vcUntil(l, token.CloseBrace, func() { ms = append(ms, parseResourceMethod(l).Unwrap()) })
		r.Methods = ms
		return r
	})
}

//vc:tokens
func P29_impl_wit_resourcemethod(l *lex.Lexer) (ast.ResourceMethod, error) {
	return vcRun(l, parseResourceMethod)
}
func P29_spec_wit_resourcemethod(l *lex.Lexer) (ast.ResourceMethod, error) {
	return vcRef(l, func(l *lex.Lexer) ast.ResourceMethod {
		if vcHas(l, token.Constructor) {
			ps := parseParameters(l).Unwrap()
			vcWant(l, token.Semicolon)
			return &ast.Constructor{ParameterList: ps}
		}
		ahead := l.Clone()
		id := vcId(ahead)
		vcWant(ahead, token.Colon)
		if vcLook(ahead) == token.Static {
			vcId(l)
			vcWant(l, token.Colon)
			vcWant(l, token.Static)
			ft := parseFunc(l).Unwrap()
			vcWant(l, token.Semicolon)
			return ast.Static{ID: id, FuncType: ft}
		}
		return ast.Method{ID: id, Func: parseFuncItem(l).Unwrap()}
	})
}

//vc:tokens
func P29_impl_wit_use(l *lex.Lexer) (*ast.Use, error) { return vcRun(l, parseUse) }
func P29_spec_wit_use(l *lex.Lexer) (*ast.Use, error) {
	return vcRef(l, func(l *lex.Lexer) *ast.Use {
		vcWant(l, token.Use)
		u := &ast.Use{}
		u.From = parseUsePath(l).Unwrap()
		vcWant(l, token.Period)
		u.Names = vcList(l, token.OpenBrace, token.CloseBrace, func(l *lex.Lexer) ast.UseName {
			n := ast.UseName{Name: vcId(l), As: option.None[string]()}
			if vcHas(l, token.As) {
				n.As = option.Some(vcId(l))
			}
			return n
		})
		vcWant(l, token.Semicolon)
		return u
	})
}

//vc:tokens
func P29_impl_wit_usepath(l *lex.Lexer) (*ast.UsePath, error) { return vcRun(l, parseUsePath) }
func P29_spec_wit_usepath(l *lex.Lexer) (*ast.UsePath, error) {
	return vcRef(l, func(l *lex.Lexer) *ast.UsePath {
		id := vcId(l)
		if !vcHas(l, token.Colon) {
			return &ast.UsePath{Id: id}
		}
		p := &ast.UsePath{}
		d := &ast.PackageDeclaration{Namespace: id}
		d.Name = vcId(l)
		vcWant(l, token.Slash)
		p.Package.Name = vcId(l)
		d.Version = parseOptionalVersion(l).Unwrap()
		p.Package.Id = d
		return p
	})
}

//vc:tokens
//vc:inline everywhere
func P29_impl_wit_funcitem(l *lex.Lexer) (*ast.FuncItem, error) { return vcRun(l, parseFuncItem) }
func P29_spec_wit_funcitem(l *lex.Lexer) (*ast.FuncItem, error) {
	return vcRef(l, func(l *lex.Lexer) *ast.FuncItem {
		f := &ast.FuncItem{}
		f.ID = vcId(l)
		vcWant(l, token.Colon)
		f.FuncType = parseFunc(l).Unwrap()
		vcWant(l, token.Semicolon)
		return f
	})
}

//vc:tokens
func P29_impl_wit_func(l *lex.Lexer) (*ast.FuncType, error) { return vcRun(l, parseFunc) }
func P29_spec_wit_func(l *lex.Lexer) (*ast.FuncType, error) {
	return vcRef(l, func(l *lex.Lexer) *ast.FuncType {
		vcWant(l, token.Func)
		f := &ast.FuncType{Results: &ast.ResultList{}}
		f.Params = parseParameters(l).Unwrap()
		if vcHas(l, token.RightArrow) {
			if vcLook(l) == token.OpenParen {
				f.Results.Named = parseParameters(l).Unwrap()
			} else {
				f.Results.Anonymous = parseType(l).Unwrap()
			}
		}
		return f
	})
}

//vc:tokens
func P29_impl_wit_params(l *lex.Lexer) ([]ast.Parameter, error) { return vcRun(l, parseParameters) }
func P29_spec_wit_params(l *lex.Lexer) ([]ast.Parameter, error) {
	return vcRef(l, func(l *lex.Lexer) []ast.Parameter {
		return vcList(l, token.OpenParen, token.CloseParen, func(l *lex.Lexer) ast.Parameter { return *parseParameter(l).Unwrap() })
	})
}

//vc:tokens
//vc:inline everywhere
func P29_impl_wit_param(l *lex.Lexer) (*ast.Parameter, error) { return vcRun(l, parseParameter) }
func P29_spec_wit_param(l *lex.Lexer) (*ast.Parameter, error) {
	return vcRef(l, func(l *lex.Lexer) *ast.Parameter {
		id := vcId(l)
		vcWant(l, token.Colon)
		return &ast.Parameter{Id: id, Type: parseType(l).Unwrap()}
	})
}

//vc:tokens
//vc:inline everywhere
func P29_impl_wit_typeitem(l *lex.Lexer) (*ast.TypeItem, error) { return vcRun(l, parseTypeItem) }
func P29_spec_wit_typeitem(l *lex.Lexer) (*ast.TypeItem, error) {
	return vcRef(l, func(l *lex.Lexer) *ast.TypeItem {
		vcWant(l, token.Type)
		id := vcId(l)
		vcWant(l, token.Equal)
		ty := parseType(l).Unwrap()
		vcWant(l, token.Semicolon)
		return &ast.TypeItem{ID: id, Type: ty}
	})
}

//vc:tokens
func P29_impl_wit_type(l *lex.Lexer) (ast.Type, error) { return vcRun(l, parseType) }
func P29_spec_wit_type(l *lex.Lexer) (ast.Type, error) {
	return vcRef(l, func(l *lex.Lexer) ast.Type {
		t := vcNext(l)
		switch t.Type {
		case token.Bool:
			return &ast.Bool{}
		case token.S8:
			return &ast.S8{}
		case token.S16:
			return &ast.S16{}
		case token.S32:
			return &ast.S32{}
		case token.S64:
			return &ast.S64{}
		case token.U8:
			return &ast.U8{}
		case token.U16:
			return &ast.U16{}
		case token.U32:
			return &ast.U32{}
		case token.U64:
			return &ast.U64{}
		case token.Float32:
			return &ast.Float32{}
		case token.Float64:
			return &ast.Float64{}
		case token.Char:
			return &ast.Char{}
		case token.String:
			return &ast.String{}
		case token.Id, token.ExplicitId:
			return &ast.Id{Value: t.Capture}
		case token.List:
			vcWant(l, token.Less)
			e := parseType(l).Unwrap()
			vcWant(l, token.Greater)
			return &ast.List{ItemType: e}
		case token.Option:
			vcWant(l, token.Less)
			e := parseType(l).Unwrap()
			vcWant(l, token.Greater)
			return &ast.Option{ItemType: e}
		case token.Tuple:
			return &ast.Tuple{Types: vcList(l, token.Less, token.Greater, func(l *lex.Lexer) ast.Type { return parseType(l).Unwrap() })}
		case token.Result:
			a, b := vcTwo(l)
			return &ast.Result{Ok: a, Error: b}
		case token.Stream:
			a, b := vcTwo(l)
			return &ast.Stream{Element: a, End: b}
		case token.Future:
			f := &ast.Future{ItemType: option.None[ast.Type]()}
			if vcHas(l, token.Less) {
				f.ItemType = option.Some(parseType(l).Unwrap())
				vcWant(l, token.Greater)
			}
			return f
		case token.Own:
			vcWant(l, token.Less)
			id := vcId(l)
			vcWant(l, token.Greater)
			return &ast.Own{Id: id}
		case token.Borrow:
			vcWant(l, token.Less)
			id := vcId(l)
			vcWant(l, token.Greater)
			return &ast.Borrow{Id: id}
		}
		vcBad()
		return nil
	})
}

// ('<' ty '>' | '<' ty ',' ty '>' | '<' '_' ',' ty '>')?
func vcTwo(l *lex.Lexer) (types.Option[ast.Type], types.Option[ast.Type]) {
	a, b := option.None[ast.Type](), option.None[ast.Type]()
	if vcHas(l, token.Less) {
		if vcHas(l, token.Underscore) {
			vcWant(l, token.Comma)
			b = option.Some(parseType(l).Unwrap())
		} else {
			a = option.Some(parseType(l).Unwrap())
			if vcHas(l, token.Comma) {
				b = option.Some(parseType(l).Unwrap())
			}
		}
		vcWant(l, token.Greater)
	}
	return a, b
}

//vc:tokens
func P29_impl_wit_world(l *lex.Lexer) (*ast.World, error) { return vcRun(l, parseWorld) }
func P29_spec_wit_world(l *lex.Lexer) (*ast.World, error) {
	return vcRef(l, func(l *lex.Lexer) *ast.World {
		w := &ast.World{Id: vcId(l)}
		vcWant(l, token.OpenBrace)
		var items []ast.WorldItem
		vcUntil(l, token.CloseBrace, func() { items = append(items, parseWorldItem(l).Unwrap()) })
		w.Items = items
		return w
	})
}

//vc:tokens
func P29_impl_wit_worlditem(l *lex.Lexer) (ast.WorldItem, error) { return vcRun(l, parseWorldItem) }
func P29_spec_wit_worlditem(l *lex.Lexer) (ast.WorldItem, error) {
	return vcRef(l, func(l *lex.Lexer) ast.WorldItem {
		t := vcLook(l)
		switch t {
		case token.Export:
			vcNext(l)
			return &ast.Export{ExternType: parseExternType(l).Unwrap()}
		case token.Import:
			vcNext(l)
			return &ast.Import{ExternType: parseExternType(l).Unwrap()}
		case token.Use:
			return parseUse(l).Unwrap()
		case token.Include:
			return parseInclude(l).Unwrap()
		}
		return vcTypeDef(l, t)
	})
}

//vc:tokens
func P29_impl_wit_include(l *lex.Lexer) (ast.WorldItem, error) { return vcRun(l, parseInclude) }
func P29_spec_wit_include(l *lex.Lexer) (ast.WorldItem, error) {
	return vcRef(l, func(l *lex.Lexer) ast.WorldItem {
		vcWant(l, token.Include)
		in := &ast.Include{From: parseUsePath(l).Unwrap()}
		if !vcHas(l, token.With) {
			vcWant(l, token.Semicolon)
			return in
		}
		in.Names = vcList(l, token.OpenBrace, token.CloseBrace, func(l *lex.Lexer) ast.IncludeName {
			n := vcId(l)
			vcWant(l, token.As)
			return ast.IncludeName{Name: n, As: vcId(l)}
		})
		return in
	})
}

//vc:tokens
func P29_impl_wit_externtype(l *lex.Lexer) (ast.ExternType, error) { return vcRun(l, parseExternType) }
func P29_spec_wit_externtype(l *lex.Lexer) (ast.ExternType, error) {
	return vcRef(l, func(l *lex.Lexer) ast.ExternType {
		ahead := l.Clone()
		id := vcId(ahead)
		if vcHas(ahead, token.Colon) {
			t := vcLook(ahead)
			if t == token.Func || t == token.Interface {
				vcId(l)
				vcWant(l, token.Colon)
				if t == token.Func {
					f := parseFunc(l).Unwrap()
					vcWant(l, token.Semicolon)
					return &ast.ExternTypeFunc{ID: id, Func: f}
				}
				vcWant(l, token.Interface)
				return &ast.ExternTypeInterface{ID: id, InterfaceItems: parseInterfaceItems(l).Unwrap()}
			}
		}
		p := parseUsePath(l).Unwrap()
		vcWant(l, token.Semicolon)
		return &ast.ExternTypeUsePath{UsePath: p}
	})
}

//vc:tokens
func P29_impl_wit_record(l *lex.Lexer) (*ast.Record, error) { return vcRun(l, parseRecord) }
func P29_spec_wit_record(l *lex.Lexer) (*ast.Record, error) {
	return vcRef(l, func(l *lex.Lexer) *ast.Record {
		vcWant(l, token.Record)
		id := vcId(l)
		return &ast.Record{ID: id, Fields: vcList(l, token.OpenBrace, token.CloseBrace, func(l *lex.Lexer) ast.Field {
			n := vcId(l)
			vcWant(l, token.Colon)
			return ast.Field{Name: n, Type: parseType(l).Unwrap()}
		})}
	})
}

//vc:tokens
func P29_impl_wit_flags(l *lex.Lexer) (*ast.Flags, error) { return vcRun(l, parseFlags) }
func P29_spec_wit_flags(l *lex.Lexer) (*ast.Flags, error) {
	return vcRef(l, func(l *lex.Lexer) *ast.Flags {
		vcWant(l, token.Flags)
		id := vcId(l)
		return &ast.Flags{ID: id, Flags: vcList(l, token.OpenBrace, token.CloseBrace, func(l *lex.Lexer) ast.Flag { return ast.Flag{Id: vcId(l)} })}
	})
}

//vc:tokens
func P29_impl_wit_variant(l *lex.Lexer) (*ast.Variant, error) { return vcRun(l, parseVariant) }
func P29_spec_wit_variant(l *lex.Lexer) (*ast.Variant, error) {
	return vcRef(l, func(l *lex.Lexer) *ast.Variant {
		vcWant(l, token.Variant)
		id := vcId(l)
		return &ast.Variant{ID: id, Cases: vcList(l, token.OpenBrace, token.CloseBrace, func(l *lex.Lexer) ast.Case {
			c := ast.Case{Name: vcId(l), Type: option.None[ast.Type]()}
			if vcHas(l, token.OpenParen) {
				c.Type = option.Some(parseType(l).Unwrap())
				vcWant(l, token.CloseParen)
			}
			return c
		})}
	})
}

//vc:tokens
func P29_impl_wit_enum(l *lex.Lexer) (*ast.Enum, error) { return vcRun(l, parseEnum) }
func P29_spec_wit_enum(l *lex.Lexer) (*ast.Enum, error) {
	return vcRef(l, func(l *lex.Lexer) *ast.Enum {
		vcWant(l, token.Enum)
		id := vcId(l)
		return &ast.Enum{ID: id, Cases: vcList(l, token.OpenBrace, token.CloseBrace, func(l *lex.Lexer) ast.EnumCase { return ast.EnumCase{Name: vcId(l)} })}
	})
}

//vc:tokens
func P29_impl_wit_id(l *lex.Lexer) (string, error) { return vcRun(l, parseId) }
func P29_spec_wit_id(l *lex.Lexer) (string, error) {
	return vcRef(l, func(l *lex.Lexer) string {
		t := vcNext(l)
		if t.Type != token.Id && t.Type != token.ExplicitId {
			vcBad()
		}
		return t.Capture
	})
}

//vc:tokens
func P29_impl_wit_integer(l *lex.Lexer) (int64, error) { return vcRun(l, parseInteger) }
func P29_spec_wit_integer(l *lex.Lexer) (int64, error) {
	return vcRef(l, func(l *lex.Lexer) int64 {
		t := vcNext(l)
		if t.Type != token.Integer {
			vcBad()
		}
		v, err := strconv.ParseInt(t.Capture, 0, 32)
		if err != nil {
			vcBad()
		}
		return v
	})
}

// what the parser reads: the first token that is not blank or a comment

func vcBlank(t *token.Token) bool {
	return t.Type == token.Whitespace || t.Type == token.LineComment || t.Type == token.BlockComment
}

func vcSkip(l *lex.Lexer) {
	for {
		t, err := l.Peek()
		if err != nil {
			vcBad()
		}
		if !vcBlank(t) {
			return
		}
		l.Next()
	}
}

//vc:lexemes
func P27_impl_wit_next(l *lex.Lexer) (*token.Token, error) { return vcRun(l, next) }
func P27_spec_wit_next(l *lex.Lexer) (*token.Token, error) {
	return vcRef(l, func(l *lex.Lexer) *token.Token {
		for {
			t, err := l.Next()
			if err != nil {
				vcBad()
			}
			if !vcBlank(t) {
				return t
			}
		}
	})
}
func P27_alt_wit_next(l *lex.Lexer) (*token.Token, error) {
	return vcRef(l, func(l *lex.Lexer) *token.Token {
		vcSkip(l)
		t, _ := l.Next()
		return t
	})
}

//vc:lexemes
func P27_impl_wit_peek(l *lex.Lexer) (*token.Token, error) { return vcRun(l, peek) }
func P27_spec_wit_peek(l *lex.Lexer) (*token.Token, error) {
	return vcRef(l, func(l *lex.Lexer) *token.Token {
		vcSkip(l)
		t, _ := l.Peek()
		return t
	})
}
