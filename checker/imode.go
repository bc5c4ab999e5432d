package main

import (
	"go/types"
	"strings"
)

// defaultIMode classifies calls through interfaces whose dynamic type is not
// known: accessors are uninterpreted functions, everything else is an effect.
func defaultIMode(t types.Type, method string) CallMode {
	n := types.TypeString(t, nil)
	switch {
	case strings.HasPrefix(n, repoMod+"/abi/types."):
		return modePure
	case strings.HasPrefix(n, goTypes+"."):
		return modePure
	case n == repoMod+"/wat/lex.Rule", n == repoMod+"/wat/lex.Lexeme" && method == "Rule":
		return modePure
	case n == repoMod+"/wat/lex.Lexeme" && method == "Accepted":
		return modeRead
	case n == repoMod+"/abi/values.Value":
		return modePure
	case strings.HasPrefix(n, repoMod+"/encoding.") && (method == "Alignment" || method == "RuneSize" || method == "Encoding"):
		return modePure
	}
	return modeEvent
}
