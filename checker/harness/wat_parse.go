//go:build ignore

//vc:dir wat/parse

package parse

import (
	"math"
	"strconv"
	"strings"

	"github.com/patrickhuber/go-types"
	"github.com/patrickhuber/go-types/handle"
	"github.com/patrickhuber/go-types/option"
	"github.com/patrickhuber/go-types/result"
	"github.com/patrickhuber/go-wasm/wat/ast"
	"github.com/patrickhuber/go-wasm/wat/lex"
	"github.com/patrickhuber/go-wasm/wat/token"
)

// vcRun runs a production of the parser.
func vcRun[T any](l *lex.Lexer, p func(*lex.Lexer) types.Result[T]) (T, error) {
	return vcRun1(l, p).Deconstruct()
}

func vcRun1[T any](l *lex.Lexer, p func(*lex.Lexer) types.Result[T]) (res types.Result[T]) {
	defer handle.Error(&res)
	return p(l)
}

// vcRef runs a reference production.
func vcRef[T any](l *lex.Lexer, p func(*lex.Lexer) T) (T, error) {
	return vcRef1(l, p).Deconstruct()
}

func vcRef1[T any](l *lex.Lexer, p func(*lex.Lexer) T) (res types.Result[T]) {
	defer handle.Error(&res)
	return result.Ok(p(l))
}

func vcBad() { types.Throw(nil) }

func vcNext(l *lex.Lexer) *token.Token { return next(l).Unwrap() }
func vcLook(l *lex.Lexer) *token.Token { return peek(l).Unwrap() }

func vcWant(l *lex.Lexer, ty token.Type) {
	if vcNext(l).Type != ty {
		vcBad()
	}
}

func vcWord(l *lex.Lexer, word string) {
	t := vcNext(l)
	if t.Type != token.Reserved || t.Capture != word {
		vcBad()
	}
}

func vcHas(l *lex.Lexer, ty token.Type) bool {
	if vcLook(l).Type != ty {
		return false
	}
	vcNext(l)
	return true
}

// ('(' clause ')')*
func vcClauses(l *lex.Lexer, clause func()) {
	for vcHas(l, token.OpenParen) {
		clause()
		vcWant(l, token.CloseParen)
	}
}

func vcClauses__2(l *lex.Lexer, clause func()) {
	t := vcLook(l)
	for t.Type == token.OpenParen {
		vcNext(l)
		clause()
		vcWant(l, token.CloseParen)
		t = vcLook(l)
	}
}

// item* up to a closing parenthesis
func vcItems(l *lex.Lexer, item func()) {
	for vcLook(l).Type != token.CloseParen {
		item()
	}
}

func vcItems__2(l *lex.Lexer, item func()) {
	t := vcLook(l)
	for t.Type != token.CloseParen {
		item()
		t = vcLook(l)
	}
}

func vcOptId(l *lex.Lexer) types.Option[string] {
	if vcLook(l).Type == token.Id {
		return option.Some(vcNext(l).Capture)
	}
	return option.None[string]()
}

//vc:tokens
func P29_impl_wat_parse(l *lex.Lexer) (ast.Directive, error) { return vcRun(l, parse) }
func P29_spec_wat_parse(l *lex.Lexer) (ast.Directive, error) {
	return vcRef(l, func(l *lex.Lexer) ast.Directive {
		vcWant(l, token.OpenParen)
		var d ast.Directive
		if t := vcLook(l); t.Type == token.Module {
			d = parseModule(l).Unwrap()
		} else if t.Type == token.Component {
			d = parseComponent(l).Unwrap()
		} else {
			vcBad()
		}
		vcWant(l, token.CloseParen)
		return d
	})
}

//vc:tokens
func P29_impl_wat_component(l *lex.Lexer) (*ast.Component, error) { return vcRun(l, parseComponent) }
func P29_spec_wat_component(l *lex.Lexer) (*ast.Component, error) {
	return vcRef(l, func(l *lex.Lexer) *ast.Component {
		vcWant(l, token.Component)
		return &ast.Component{}
	})
}

//vc:tokens
func P29_impl_wat_module(l *lex.Lexer) (*ast.Module, error) { return vcRun(l, parseModule) }
func P29_spec_wat_module(l *lex.Lexer) (*ast.Module, error) {
	return vcRef(l, func(l *lex.Lexer) *ast.Module {
		vcWant(l, token.Module)
		m := &ast.Module{}
		vcClauses(l, func() {
			t := vcLook(l)
			if t.Capture == "func" {
				m.Functions = append(m.Functions, *parseFunc(l).Unwrap())
			} else if t.Capture == "type" {
				m.Types = append(m.Types, parseType(l).Unwrap())
			} else if t.Capture == "table" {
				m.Tables = append(m.Tables, parseTable(l).Unwrap())
			} else if t.Capture == "global" {
				m.Globals = append(m.Globals, parseGlobal(l).Unwrap())
			} else if t.Capture == "memory" {
				m.Memory = append(m.Memory, parseMemory(l).Unwrap())
			} else {
				vcBad()
			}
		})
		return m
	})
}

//vc:tokens
func P29_impl_wat_func(l *lex.Lexer) (*ast.Function, error) { return vcRun(l, parseFunc) }
func P29_spec_wat_func(l *lex.Lexer) (*ast.Function, error) {
	return vcRef(l, func(l *lex.Lexer) *ast.Function {
		vcWord(l, "func")
		f := &ast.Function{}
		if vcLook(l).Type == token.Id {
			f.ID = option.Some(vcNext(l).Capture)
		}
		vcClauses(l, func() {
			t := vcLook(l)
			if t.Capture == "local" {
				f.Locals = append(f.Locals, parseLocal(l).Unwrap())
			} else if t.Capture == "param" {
				f.Parameters = append(f.Parameters, *parseParameter(l).Unwrap())
			} else if t.Capture == "result" {
				f.Results = append(f.Results, *parseResult(l).Unwrap())
			} else if t.Capture == "export" {
				f.Exports = append(f.Exports, parseExport(l).Unwrap())
			} else if t.Capture == "import" {
				f.Imports = append(f.Imports, parseImport(l).Unwrap())
			} else {
				f.Instructions = append(f.Instructions, parseInstruction(l).Unwrap())
			}
		})
		vcItems(l, func() {
			f.Instructions = append(f.Instructions, parseInstruction(l).Unwrap())
		})
		return f
	})
}

//vc:tokens
//vc:inline everywhere
func P29_impl_wat_local(l *lex.Lexer) (ast.Local, error) { return vcRun(l, parseLocal) }
func P29_spec_wat_local(l *lex.Lexer) (ast.Local, error) {
	return vcRef(l, func(l *lex.Lexer) ast.Local {
		vcWord(l, "local")
		return ast.Local{Type: parseValType(l).Unwrap()}
	})
}

// val_type* while words follow
func vcTypes(l *lex.Lexer, ty func()) {
	for vcLook(l).Type == token.Reserved {
		ty()
	}
}

func vcTypes__2(l *lex.Lexer, ty func()) {
	t := vcLook(l)
	for t.Type == token.Reserved {
		ty()
		t = vcLook(l)
	}
}

//vc:tokens
//vc:inline everywhere
func P29_impl_wat_parameter(l *lex.Lexer) (*ast.Parameter, error) { return vcRun(l, parseParameter) }
func P29_spec_wat_parameter(l *lex.Lexer) (*ast.Parameter, error) {
	return vcRef(l, func(l *lex.Lexer) *ast.Parameter {
		vcWord(l, "param")
		p := &ast.Parameter{ID: option.None[string]()}
		if vcLook(l).Type == token.Id {
			p.ID = option.Some(vcNext(l).Capture)
			p.Types = []ast.ValType{parseValType(l).Unwrap()}
			return p
		}
		vcTypes(l, func() { p.Types = append(p.Types, parseValType(l).Unwrap()) })
		return p
	})
}

//vc:tokens
//vc:inline everywhere
func P29_impl_wat_result(l *lex.Lexer) (*ast.Result, error) { return vcRun(l, parseResult) }
func P29_spec_wat_result(l *lex.Lexer) (*ast.Result, error) {
	return vcRef(l, func(l *lex.Lexer) *ast.Result {
		vcWord(l, "result")
		return &ast.Result{Types: []ast.ValType{parseValType(l).Unwrap()}}
	})
}

//vc:tokens
func P29_impl_wat_type(l *lex.Lexer) (ast.Type, error) { return vcRun(l, parseType) }
func P29_spec_wat_type(l *lex.Lexer) (ast.Type, error) {
	return vcRef(l, func(l *lex.Lexer) (t ast.Type) {
		vcWord(l, "type")
		t.ID = vcOptId(l)
		if vcHas(l, token.OpenParen) {
			t.FuncType = parseFuncType(l).Unwrap()
			vcWant(l, token.CloseParen)
		}
		return t
	})
}

//vc:tokens
func P29_impl_wat_functype(l *lex.Lexer) (ast.FuncType, error) { return vcRun(l, parseFuncType) }
func P29_spec_wat_functype(l *lex.Lexer) (ast.FuncType, error) {
	return vcRef(l, func(l *lex.Lexer) ast.FuncType {
		vcWord(l, "func")
		var ps []ast.Parameter
		var rs []ast.Result
		vcClauses(l, func() {
			t := vcLook(l)
			if t.Capture == "param" {
				ps = append(ps, *parseParameter(l).Unwrap())
			} else if t.Capture == "result" {
				rs = append(rs, *parseResult(l).Unwrap())
			} else {
				vcBad()
			}
		})
		return ast.FuncType{Parameters: ps, Results: rs}
	})
}

//vc:tokens
func P29_impl_wat_table(l *lex.Lexer) (ast.Table, error) { return vcRun(l, parseTable) }
func P29_spec_wat_table(l *lex.Lexer) (ast.Table, error) {
	return vcRef(l, func(l *lex.Lexer) (t ast.Table) {
		vcWord(l, "table")
		t.ID = vcOptId(l)
		t.TableType = parseTableType(l).Unwrap()
		var es []ast.Element
		vcClauses(l, func() {
			vcWord(l, "elem")
			id := vcNext(l)
			if id.Type != token.Id {
				vcBad()
			}
			es = append(es, ast.Element{ID: id.Capture})
		})
		t.Elements = es
		return t
	})
}

//vc:tokens
//vc:inline everywhere
func P29_impl_wat_tabletype(l *lex.Lexer) (ast.TableType, error) { return vcRun(l, parseTableType) }
func P29_spec_wat_tabletype(l *lex.Lexer) (ast.TableType, error) {
	return vcRef(l, func(l *lex.Lexer) (t ast.TableType) {
		if vcLook(l).Type == token.Integer {
			t.Limits = parseLimits(l).Unwrap()
		}
		r := vcNext(l)
		if r.Type != token.Reserved {
			vcBad()
		}
		if r.Capture == "externref" {
			t.RefType = ast.ExternRef{}
		} else if r.Capture == "funcref" {
			t.RefType = ast.FuncRef{}
		} else {
			vcBad()
		}
		return t
	})
}

//vc:tokens
func P29_impl_wat_global(l *lex.Lexer) (ast.Global, error) { return vcRun(l, parseGlobal) }
func P29_spec_wat_global(l *lex.Lexer) (ast.Global, error) {
	return vcRef(l, func(l *lex.Lexer) (g ast.Global) {
		vcWord(l, "global")
		g.ID = vcOptId(l)
		g.Type = parseGlobalType(l).Unwrap()
		g.Instructions = parseInstructions(l).Unwrap()
		return g
	})
}

//vc:tokens
//vc:inline everywhere
func P29_impl_wat_globaltype(l *lex.Lexer) (ast.GlobalType, error) { return vcRun(l, parseGlobalType) }
func P29_spec_wat_globaltype(l *lex.Lexer) (ast.GlobalType, error) {
	return vcRef(l, func(l *lex.Lexer) (g ast.GlobalType) {
		if vcHas(l, token.OpenParen) {
			vcWord(l, "mut")
			g.Mutable = true
			g.Type = parseValType(l).Unwrap()
			vcWant(l, token.CloseParen)
			return g
		}
		g.Type = parseValType(l).Unwrap()
		return g
	})
}

//vc:tokens
//vc:inline everywhere
func P29_impl_wat_memory(l *lex.Lexer) (ast.Memory, error) { return vcRun(l, parseMemory) }
func P29_spec_wat_memory(l *lex.Lexer) (ast.Memory, error) {
	return vcRef(l, func(l *lex.Lexer) (m ast.Memory) {
		vcWord(l, "memory")
		m.ID = vcOptId(l)
		m.Limits = parseLimits(l).Unwrap()
		return m
	})
}

//vc:tokens
//vc:inline everywhere
func P29_impl_wat_limits(l *lex.Lexer) (ast.Limits, error) { return vcRun(l, parseLimits) }
func P29_spec_wat_limits(l *lex.Lexer) (ast.Limits, error) {
	return vcRef(l, func(l *lex.Lexer) (m ast.Limits) {
		m.Min = parseUint32(l).Unwrap()
		m.Max = option.None[uint32]()
		if vcLook(l).Type == token.Integer {
			m.Max = option.Some(parseUint32(l).Unwrap())
		}
		return m
	})
}

//vc:tokens
//vc:inline everywhere
func P29_impl_wat_export(l *lex.Lexer) (ast.InlineExport, error) { return vcRun(l, parseExport) }
func P29_spec_wat_export(l *lex.Lexer) (ast.InlineExport, error) {
	return vcRef(l, func(l *lex.Lexer) ast.InlineExport {
		vcWord(l, "export")
		return ast.InlineExport{Name: parseString(l).Unwrap()}
	})
}

//vc:tokens
//vc:inline everywhere
func P29_impl_wat_import(l *lex.Lexer) (ast.InlineImport, error) { return vcRun(l, parseImport) }
func P29_spec_wat_import(l *lex.Lexer) (ast.InlineImport, error) {
	return vcRef(l, func(l *lex.Lexer) (i ast.InlineImport) {
		vcWord(l, "import")
		i.Module = parseString(l).Unwrap()
		i.Field = parseString(l).Unwrap()
		return i
	})
}

//vc:tokens
func P29_impl_wat_instructions(l *lex.Lexer) ([]ast.Instruction, error) {
	return vcRun(l, parseInstructions)
}
func P29_spec_wat_instructions(l *lex.Lexer) ([]ast.Instruction, error) {
	return vcRef(l, func(l *lex.Lexer) []ast.Instruction {
		var is []ast.Instruction
		vcClauses(l, func() { is = append(is, parseInstruction(l).Unwrap()) })
		return is
	})
}

// what an instruction is, without the operands folded into it
func vcPlain(l *lex.Lexer, w string) ast.Instruction {
	switch w {
	case "br":
		return ast.Br{Index: parseIndex(l).Unwrap()}
	case "br_if":
		return ast.BrIf{Index: parseIndex(l).Unwrap()}
	case "br_table":
		return ast.BrTable{Indicies: []ast.Index{parseIndex(l).Unwrap()}}
	case "call":
		return ast.Call{Index: parseIndex(l).Unwrap()}
	case "local.get":
		return ast.LocalGet{Index: parseIndex(l).Unwrap()}
	case "local.set":
		return ast.LocalSet{Index: parseIndex(l).Unwrap()}
	case "local.tee":
		return ast.LocalTee{Index: parseIndex(l).Unwrap()}
	case "global.get":
		return ast.GlobalGet{Index: parseIndex(l).Unwrap()}
	case "global.set":
		return ast.GlobalSet{Index: parseIndex(l).Unwrap()}
	case "i32.const":
		return ast.I32Const{Value: parseInt32(l).Unwrap()}
	case "i64.const":
		return ast.I64Const{Value: parseInt64(l).Unwrap()}
	case "f32.const":
		return ast.F32Const{Value: parseFloat32(l).Unwrap()}
	case "f64.const":
		return ast.F64Const{Value: parseFloat64(l).Unwrap()}
	case "block":
		return parseBlock(l).Unwrap()
	case "loop":
		return parseLoop(l).Unwrap()
	case "if":
		return parseIf(l).Unwrap()
	case "call_indirect":
		return parseCallIndirect(l).Unwrap()
	case "return":
		return ast.Return{}
	case "drop":
		return ast.Drop{}
	case "select":
		return ast.Select{}
	case "memory.grow":
		return ast.MemoryGrow{}
	case "i32.load":
		return ast.I32Load{}
	case "i32.store":
		return ast.I32Store{}
	case "f32.add":
		return ast.F32Add{}
	case "f32.sub":
		return ast.F32Sub{}
	case "f32.mul":
		return ast.F32Mul{}
	case "f32.div":
		return ast.F32Div{}
	case "f32.sqrt":
		return ast.F32Sqrt{}
	case "f32.min":
		return ast.F32Min{}
	case "f32.max":
		return ast.F32Max{}
	case "f32.ceil":
		return ast.F32Ceil{}
	case "f32.floor":
		return ast.F32Floor{}
	case "f32.trunc":
		return ast.F32Trunc{}
	case "f32.nearest":
		return ast.F32Nearest{}
	case "i32.eqz":
		return ast.I32Eqz{}
	case "i32.add":
		return ast.I32Add{}
	case "i32.sub":
		return ast.I32Sub{}
	case "i32.mul":
		return ast.I32Mul{}
	case "i32.div_s":
		return ast.I32DivS{}
	case "i32.div_u":
		return ast.I32DivU{}
	case "i32.rem_s":
		return ast.I32RemS{}
	case "i32.rem_u":
		return ast.I32RemU{}
	case "i32.and":
		return ast.I32And{}
	case "i32.or":
		return ast.I32Or{}
	case "i32.xor":
		return ast.I32Xor{}
	case "i32.shl":
		return ast.I32Shl{}
	case "i32.shr_s":
		return ast.I32ShrS{}
	case "i32.shr_u":
		return ast.I32ShrU{}
	case "i32.rotl":
		return ast.I32Rotl{}
	case "i32.rotr":
		return ast.I32Rotr{}
	case "i32.clz":
		return ast.I32Clz{}
	case "i32.ctz":
		return ast.I32Ctz{}
	case "i32.popcnt":
		return ast.I32Popcnt{}
	case "i32.extend8_s":
		return ast.I32Extend8S{}
	case "i32.extend16_s":
		return ast.I32Extend16S{}
	case "i32.eq":
		return ast.I32Eq{}
	case "i32.ne":
		return ast.I32Ne{}
	case "i32.lt_s":
		return ast.I32LtS{}
	case "i32.lt_u":
		return ast.I32LtU{}
	case "i32.le_s":
		return ast.I32LeS{}
	case "i32.le_u":
		return ast.I32LeU{}
	case "i32.gt_s":
		return ast.I32GtS{}
	case "i32.gt_u":
		return ast.I32GtU{}
	case "i32.ge_s":
		return ast.I32GeS{}
	case "i32.ge_u":
		return ast.I32GeU{}
	}
	vcBad()
	return nil
}

//vc:tokens
func P29_impl_wat_instruction(l *lex.Lexer) (ast.Instruction, error) {
	return vcRun(l, parseInstruction)
}
func P29_spec_wat_instruction(l *lex.Lexer) (ast.Instruction, error) {
	return vcRef(l, func(l *lex.Lexer) ast.Instruction {
		t := vcNext(l)
		if t.Type != token.Reserved {
			vcBad()
		}
		inst := vcPlain(l, t.Capture)
		if vcLook(l).Type != token.OpenParen {
			return inst
		}
		f := ast.Folded{Instruction: inst}
		vcClauses(l, func() {
			f.Parameters = append(f.Parameters, parseInstruction(l).Unwrap())
		})
		return f
	})
}

//vc:tokens
func P29_impl_wat_valtype(l *lex.Lexer) (ast.ValType, error) { return vcRun(l, parseValType) }
func P29_spec_wat_valtype(l *lex.Lexer) (ast.ValType, error) {
	return vcRef(l, func(l *lex.Lexer) ast.ValType {
		switch vcNext(l).Capture {
		case "i32":
			return ast.I32{}
		case "i64":
			return ast.I64{}
		case "f32":
			return ast.F32{}
		case "f64":
			return ast.F64{}
		}
		vcBad()
		return nil
	})
}

//vc:tokens
func P29_impl_wat_block(l *lex.Lexer) (ast.Block, error) { return vcRun(l, parseBlock) }
func P29_spec_wat_block(l *lex.Lexer) (ast.Block, error) {
	return vcRef(l, func(l *lex.Lexer) (b ast.Block) {
		b.Name = vcOptId(l)
		b.BlockType = parseBlockType(l).Unwrap()
		b.Instructions = parseInstructions(l).Unwrap()
		return b
	})
}

//vc:tokens
func P29_impl_wat_loop(l *lex.Lexer) (ast.Loop, error) { return vcRun(l, parseLoop) }
func P29_spec_wat_loop(l *lex.Lexer) (ast.Loop, error) {
	return vcRef(l, func(l *lex.Lexer) (b ast.Loop) {
		b.Name = vcOptId(l)
		b.BlockType = parseBlockType(l).Unwrap()
		b.Instructions = parseInstructions(l).Unwrap()
		return b
	})
}

//vc:tokens
func P29_impl_wat_if(l *lex.Lexer) (ast.If, error) { return vcRun(l, parseIf) }
func P29_spec_wat_if(l *lex.Lexer) (ast.If, error) {
	return vcRef(l, func(l *lex.Lexer) ast.If {
		name := vcOptId(l)
		var rs []ast.Result
		var is []ast.Instruction
		var then ast.Then
		els := option.None[ast.Else]()
		hasThen := false
		vcClauses(l, func() {
			t := vcLook(l)
			if t.Capture == "result" {
				rs = append(rs, *parseResult(l).Unwrap())
			} else if t.Capture == "then" {
				if hasThen {
					vcBad()
				}
				hasThen = true
				then = parseThen(l).Unwrap()
			} else if t.Capture == "else" {
				if els.IsSome() {
					vcBad()
				}
				els = option.Some(parseElse(l).Unwrap())
			} else {
				is = append(is, parseInstruction(l).Unwrap())
			}
		})
		return ast.If{Name: name, Clause: is, BlockType: ast.BlockType{Results: rs}, Then: then, Else: els}
	})
}

//vc:tokens
//vc:inline everywhere
func P29_impl_wat_else(l *lex.Lexer) (ast.Else, error) { return vcRun(l, parseElse) }
func P29_spec_wat_else(l *lex.Lexer) (ast.Else, error) {
	return vcRef(l, func(l *lex.Lexer) ast.Else {
		vcWord(l, "else")
		return ast.Else{Instructions: parseInstructions(l).Unwrap()}
	})
}

//vc:tokens
//vc:inline everywhere
func P29_impl_wat_then(l *lex.Lexer) (ast.Then, error) { return vcRun(l, parseThen) }
func P29_spec_wat_then(l *lex.Lexer) (ast.Then, error) {
	return vcRef(l, func(l *lex.Lexer) ast.Then {
		vcWord(l, "then")
		return ast.Then{Instructions: parseInstructions(l).Unwrap()}
	})
}

//vc:tokens
//vc:inline everywhere
func P29_impl_wat_callindirect(l *lex.Lexer) (ast.CallIndirect, error) {
	return vcRun(l, parseCallIndirect)
}
func P29_spec_wat_callindirect(l *lex.Lexer) (ast.CallIndirect, error) {
	return vcRef(l, func(l *lex.Lexer) (c ast.CallIndirect) {
		vcWant(l, token.OpenParen)
		vcWord(l, "type")
		t := vcNext(l)
		if t.Type != token.Id {
			vcBad()
		}
		vcWant(l, token.CloseParen)
		c.Type.Index = t.Capture
		return c
	})
}

//vc:tokens
func P29_impl_wat_blocktype(l *lex.Lexer) (ast.BlockType, error) { return vcRun(l, parseBlockType) }
func P29_spec_wat_blocktype(l *lex.Lexer) (ast.BlockType, error) {
	return vcRef(l, func(l *lex.Lexer) ast.BlockType {
		var rs []ast.Result
		for {
			ahead := l.Clone()
			if !vcHas(ahead, token.OpenParen) || vcLook(ahead).Capture != "result" {
				break
			}
			vcWant(l, token.OpenParen)
			vcWord(l, "result")
			var ts []ast.ValType
			vcItems(l, func() { ts = append(ts, parseValType(l).Unwrap()) })
			vcWant(l, token.CloseParen)
			rs = append(rs, ast.Result{Types: ts})
		}
		return ast.BlockType{Results: rs}
	})
}

//vc:tokens
//vc:inline everywhere
func P29_impl_wat_index(l *lex.Lexer) (ast.Index, error) { return vcRun(l, parseIndex) }
func P29_spec_wat_index(l *lex.Lexer) (ast.Index, error) {
	return vcRef(l, func(l *lex.Lexer) ast.Index {
		t := vcNext(l)
		if t.Type == token.Id {
			return &ast.IDIndex{ID: t.Capture}
		}
		if t.Type != token.Integer {
			vcBad()
		}
		i, err := vcUint(t.Capture, 32)
		if err != nil {
			vcBad()
		}
		return &ast.RawIndex{Index: uint32(i)}
	})
}

//vc:tokens
func P29_impl_wat_string(l *lex.Lexer) (string, error) { return vcRun(l, parseString) }
func P29_spec_wat_string(l *lex.Lexer) (string, error) {
	return vcRef(l, func(l *lex.Lexer) string {
		t := vcNext(l)
		if t.Type != token.String {
			vcBad()
		}
		return strings.Trim(t.Capture, "\"")
	})
}
func P29_alt_wat_string(l *lex.Lexer) (string, error) {
	return vcRef(l, func(l *lex.Lexer) string {
		t := vcNext(l)
		if t.Type != token.String {
			vcBad()
		}
		return t.Capture[1 : len(t.Capture)-1]
	})
}

// what the parser reads: the first token that is not blank or a comment

func vcBlank(t *token.Token) bool {
	return t.Type == token.Whitespace || t.Type == token.LineComment || t.Type == token.BlockComment
}

func vcSkip(l *lex.Lexer) {
	for {
		t, err := l.Peek()
		if err != nil {
			vcBad()
		}
		if !vcBlank(t) {
			return
		}
		l.Next()
	}
}

//vc:lexemes
func P28_impl_wat_next(l *lex.Lexer) (*token.Token, error) { return vcRun(l, next) }
func P28_spec_wat_next(l *lex.Lexer) (*token.Token, error) {
	return vcRef(l, func(l *lex.Lexer) *token.Token {
		for {
			t, err := l.Next()
			if err != nil {
				vcBad()
			}
			if !vcBlank(t) {
				return t
			}
		}
	})
}
func P28_alt_wat_next(l *lex.Lexer) (*token.Token, error) {
	return vcRef(l, func(l *lex.Lexer) *token.Token {
		vcSkip(l)
		t, _ := l.Next()
		return t
	})
}

//vc:lexemes
func P28_impl_wat_peek(l *lex.Lexer) (*token.Token, error) { return vcRun(l, peek) }
func P28_spec_wat_peek(l *lex.Lexer) (*token.Token, error) {
	return vcRef(l, func(l *lex.Lexer) *token.Token {
		vcSkip(l)
		t, _ := l.Peek()
		return t
	})
}

// numbers: decimal unless marked 0x, digits possibly separated by '_'

func vcDigits(s string) (string, int) {
	s = strings.ReplaceAll(s, "_", "")
	if strings.HasPrefix(s, "0x") {
		return s[2:], 16
	}
	return s, 10
}

func vcUint(s string, bits int) (uint64, error) {
	digits, base := vcDigits(s)
	return strconv.ParseUint(digits, base, bits)
}

func vcInt(s string, bits int) (int64, error) {
	if strings.HasPrefix(s, "-") {
		digits, base := vcDigits(s[1:])
		return strconv.ParseInt("-"+digits, base, bits)
	}
	i, err := vcUint(strings.TrimPrefix(s, "+"), bits)
	return int64(i), err
}

//vc:tokens
func P30_impl_wat_int32(l *lex.Lexer) (int32, error) { return vcRun(l, parseInt32) }
func P30_spec_wat_int32(l *lex.Lexer) (int32, error) {
	return vcRef(l, func(l *lex.Lexer) int32 {
		t := vcNext(l)
		if t.Type != token.Integer {
			vcBad()
		}
		i, err := vcInt(t.Capture, 32)
		if err != nil {
			vcBad()
		}
		return int32(i)
	})
}

//vc:tokens
func P30_impl_wat_int64(l *lex.Lexer) (int64, error) { return vcRun(l, parseInt64) }
func P30_spec_wat_int64(l *lex.Lexer) (int64, error) {
	return vcRef(l, func(l *lex.Lexer) int64 {
		t := vcNext(l)
		if t.Type != token.Integer {
			vcBad()
		}
		i, err := vcInt(t.Capture, 64)
		if err != nil {
			vcBad()
		}
		return i
	})
}

//vc:tokens
//vc:inline everywhere
func P30_impl_wat_uint32(l *lex.Lexer) (uint32, error) { return vcRun(l, parseUint32) }
func P30_spec_wat_uint32(l *lex.Lexer) (uint32, error) {
	return vcRef(l, func(l *lex.Lexer) uint32 {
		t := vcNext(l)
		if t.Type != token.Integer {
			vcBad()
		}
		i, err := vcUint(t.Capture, 32)
		if err != nil {
			vcBad()
		}
		return uint32(i)
	})
}

// the bits of a NaN of the given size
func vcNaN(number string, name string, size, mantissa int) uint64 {
	payload := uint64(1) << (mantissa - 1)
	p := strings.TrimPrefix(name, "nan")
	if p != "" && p != ":canonical" && p != ":arithmetic" {
		u, err := strconv.ParseUint(strings.TrimPrefix(p, ":0x"), 16, mantissa)
		if err != nil || u == 0 {
			vcBad()
		}
		payload = u
	}
	var exponent uint64
	if size == 32 {
		exponent = 0x7f800000
	} else {
		exponent = 0x7ff0000000000000
	}
	if !strings.HasPrefix(number, "-") {
		return exponent | payload
	}
	return uint64(1)<<(size-1) | exponent | payload
}

// a number text as strconv reads it
func vcFloatText(number string) string {
	if strings.Contains(number, "0x") && !strings.ContainsAny(number, "pP") {
		return number + "p0"
	}
	return number
}

//vc:tokens
func P30_impl_wat_float32(l *lex.Lexer) (float32, error) { return vcRun(l, parseFloat32) }
func P30_spec_wat_float32(l *lex.Lexer) (float32, error) {
	return vcRef(l, func(l *lex.Lexer) float32 {
		t := vcNext(l)
		if t.Type != token.Float && t.Type != token.Integer {
			vcBad()
		}
		number := strings.ReplaceAll(t.Capture, "_", "")
		name := strings.TrimLeft(number, "+-")
		if strings.HasPrefix(name, "nan") {
			return math.Float32frombits(uint32(vcNaN(number, name, 32, 23)))
		}
		f, err := strconv.ParseFloat(vcFloatText(number), 32)
		if err != nil {
			vcBad()
		}
		return float32(f)
	})
}

//vc:tokens
func P30_impl_wat_float64(l *lex.Lexer) (float64, error) { return vcRun(l, parseFloat64) }
func P30_spec_wat_float64(l *lex.Lexer) (float64, error) {
	return vcRef(l, func(l *lex.Lexer) float64 {
		t := vcNext(l)
		if t.Type != token.Float && t.Type != token.Integer {
			vcBad()
		}
		number := strings.ReplaceAll(t.Capture, "_", "")
		name := strings.TrimLeft(number, "+-")
		if strings.HasPrefix(name, "nan") {
			return math.Float64frombits(vcNaN(number, name, 64, 52))
		}
		f, err := strconv.ParseFloat(vcFloatText(number), 64)
		if err != nil {
			vcBad()
		}
		return f
	})
}
