//go:build ignore

package zzverif

import "errors"

// assume restricts the inputs a pair is compared on.
func assume(b bool) {}

func reject() error { return errors.New("rejected") }

// axiom states a fact about uninterpreted functions that holds everywhere.
func axiom(bool) {}
