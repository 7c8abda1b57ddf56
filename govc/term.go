package main

import (
	"fmt"
	"math/big"
	"strconv"
	"strings"
)

// Term is an SMT-LIB term together with its sort.
type Term struct {
	S    string
	Sort string
}

const (
	SInt  = "Int"
	SReal = "Real"
	SBool = "Bool"
)

func arr(k, v string) string { return "(Array " + k + " " + v + ")" }

// elemSort returns the value sort of an array sort.
func elemSort(s string) string {
	if !strings.HasPrefix(s, "(Array ") {
		panic("elemSort of " + s)
	}
	body := s[7 : len(s)-1]
	// skip the key sort
	depth := 0
	for i := 0; i < len(body); i++ {
		switch body[i] {
		case '(':
			depth++
		case ')':
			depth--
		case ' ':
			if depth == 0 {
				return body[i+1:]
			}
		}
	}
	panic("elemSort of " + s)
}

func keySort(s string) string {
	e := elemSort(s)
	return strings.TrimSpace(s[7 : len(s)-1-len(e)])
}

var TTrue = Term{"true", SBool}
var TFalse = Term{"false", SBool}

func TI(n int64) Term {
	if n < 0 {
		return Term{fmt.Sprintf("(- %d)", -n), SInt}
	}
	return Term{strconv.FormatInt(n, 10), SInt}
}

func TR(s string) Term { return Term{s, SReal} }

func ratTerm(r *big.Rat) Term {
	neg := r.Sign() < 0
	a := new(big.Rat).Abs(r)
	s := ""
	if a.IsInt() {
		s = a.Num().String() + ".0"
	} else {
		s = "(/ " + a.Num().String() + ".0 " + a.Denom().String() + ".0)"
	}
	if neg {
		s = "(- " + s + ")"
	}
	return Term{s, SReal}
}

func (t Term) isConstInt() (int64, bool) {
	if t.Sort != SInt {
		return 0, false
	}
	s := t.S
	if strings.HasPrefix(s, "(- ") && strings.HasSuffix(s, ")") {
		n, err := strconv.ParseInt(s[3:len(s)-1], 10, 64)
		return -n, err == nil
	}
	n, err := strconv.ParseInt(s, 10, 64)
	return n, err == nil
}

func app(sort, f string, args ...Term) Term {
	if len(args) == 0 {
		return Term{f, sort}
	}
	var b strings.Builder
	b.WriteByte('(')
	b.WriteString(f)
	for _, a := range args {
		b.WriteByte(' ')
		b.WriteString(a.S)
	}
	b.WriteByte(')')
	return Term{b.String(), sort}
}

func And(ts ...Term) Term {
	var out []Term
	seen := map[string]bool{}
	for _, t := range ts {
		if t.S == "true" || seen[t.S] {
			continue
		}
		if t.S == "false" {
			return TFalse
		}
		seen[t.S] = true
		out = append(out, t)
	}
	switch len(out) {
	case 0:
		return TTrue
	case 1:
		return out[0]
	}
	return app(SBool, "and", out...)
}

func Or(ts ...Term) Term {
	var out []Term
	seen := map[string]bool{}
	for _, t := range ts {
		if t.S == "false" || seen[t.S] {
			continue
		}
		if t.S == "true" {
			return TTrue
		}
		seen[t.S] = true
		out = append(out, t)
	}
	switch len(out) {
	case 0:
		return TFalse
	case 1:
		return out[0]
	}
	return app(SBool, "or", out...)
}

func Not(t Term) Term {
	switch t.S {
	case "true":
		return TFalse
	case "false":
		return TTrue
	}
	if strings.HasPrefix(t.S, "(not ") {
		return Term{t.S[5 : len(t.S)-1], SBool}
	}
	return app(SBool, "not", t)
}

func Imp(a, b Term) Term {
	if a.S == "true" {
		return b
	}
	if a.S == "false" || b.S == "true" {
		return TTrue
	}
	if b.S == "false" {
		return Not(a)
	}
	return app(SBool, "=>", a, b)
}

func Eq(a, b Term) Term {
	if a.S == b.S {
		return TTrue
	}
	if x, ok := a.isConstInt(); ok {
		if y, ok := b.isConstInt(); ok && x != y {
			return TFalse
		}
	}
	if a.Sort == SInt && b.Sort == SReal {
		a = ToReal(a)
	} else if a.Sort == SReal && b.Sort == SInt {
		b = ToReal(b)
	}
	if a.Sort != b.Sort {
		panic(unsup("sort mismatch in equality: %s:%s = %s:%s", a.S, a.Sort, b.S, b.Sort))
	}
	if a.Sort == SBool {
		if b.S == "true" {
			return a
		}
		if a.S == "true" {
			return b
		}
		if b.S == "false" {
			return Not(a)
		}
		if a.S == "false" {
			return Not(b)
		}
	}
	return app(SBool, "=", a, b)
}

func Ite(c, a, b Term) Term {
	if c.S == "true" {
		return a
	}
	if c.S == "false" {
		return b
	}
	if a.S == b.S {
		return a
	}
	if a.Sort != b.Sort {
		if a.Sort == SInt && b.Sort == SReal {
			a = ToReal(a)
		} else if a.Sort == SReal && b.Sort == SInt {
			b = ToReal(b)
		} else {
			panic(unsup("sort mismatch in ite: %s:%s / %s:%s", a.S, a.Sort, b.S, b.Sort))
		}
	}
	if a.Sort == SBool {
		if a.S == "true" {
			return Or(c, b)
		}
		if a.S == "false" {
			return And(Not(c), b)
		}
		if b.S == "true" {
			return Or(Not(c), a)
		}
		if b.S == "false" {
			return And(c, a)
		}
	}
	return app(a.Sort, "ite", c, a, b)
}

func ToReal(t Term) Term {
	if t.Sort == SReal {
		return t
	}
	if n, ok := t.isConstInt(); ok {
		if n < 0 {
			return TR(fmt.Sprintf("(- %d.0)", -n))
		}
		return TR(fmt.Sprintf("%d.0", n))
	}
	return app(SReal, "to_real", t)
}

func arith(op string, a, b Term) Term {
	if a.Sort == SReal || b.Sort == SReal {
		a, b = ToReal(a), ToReal(b)
		return app(SReal, op, a, b)
	}
	x, okx := a.isConstInt()
	y, oky := b.isConstInt()
	if okx && oky {
		switch op {
		case "+":
			return TI(x + y)
		case "-":
			return TI(x - y)
		case "*":
			return TI(x * y)
		}
	}
	switch op {
	case "+":
		if okx && x == 0 {
			return b
		}
		if oky && y == 0 {
			return a
		}
		// (x + c1) + c2
		if oky {
			if base, c, ok := splitPlusConst(a); ok {
				return Add(base, TI(c+y))
			}
		}
	case "-":
		if oky && y == 0 {
			return a
		}
		if a.S == b.S {
			return TI(0)
		}
		if oky {
			return Add(a, TI(-y))
		}
	case "*":
		if okx && x == 1 {
			return b
		}
		if oky && y == 1 {
			return a
		}
		if okx && x == 0 || oky && y == 0 {
			return TI(0)
		}
	}
	return app(SInt, op, a, b)
}

// splitPlusConst recognises (+ base const)
func splitPlusConst(t Term) (Term, int64, bool) {
	if t.Sort != SInt || !strings.HasPrefix(t.S, "(+ ") {
		return t, 0, false
	}
	args := splitArgs(t.S)
	if len(args) != 3 {
		return t, 0, false
	}
	if c, ok := (Term{args[2], SInt}).isConstInt(); ok {
		return Term{args[1], SInt}, c, true
	}
	return t, 0, false
}

// splitArgs splits "(f a b)" in its top-level items.
func splitArgs(s string) []string {
	s = s[1 : len(s)-1]
	var out []string
	depth, start := 0, 0
	for i := 0; i < len(s); i++ {
		switch s[i] {
		case '(':
			depth++
		case ')':
			depth--
		case ' ':
			if depth == 0 {
				if i > start {
					out = append(out, s[start:i])
				}
				start = i + 1
			}
		}
	}
	if start < len(s) {
		out = append(out, s[start:])
	}
	return out
}

func Add(a, b Term) Term { return arith("+", a, b) }
func Sub(a, b Term) Term { return arith("-", a, b) }
func Mul(a, b Term) Term { return arith("*", a, b) }

func cmp(op string, a, b Term) Term {
	if a.Sort == SReal || b.Sort == SReal {
		a, b = ToReal(a), ToReal(b)
	}
	x, okx := a.isConstInt()
	y, oky := b.isConstInt()
	if okx && oky {
		r := false
		switch op {
		case "<":
			r = x < y
		case "<=":
			r = x <= y
		case ">":
			r = x > y
		case ">=":
			r = x >= y
		}
		if r {
			return TTrue
		}
		return TFalse
	}
	if a.S == b.S {
		if op == "<=" || op == ">=" {
			return TTrue
		}
		return TFalse
	}
	return app(SBool, op, a, b)
}

func Lt(a, b Term) Term { return cmp("<", a, b) }
func Le(a, b Term) Term { return cmp("<=", a, b) }

func Sel(a, i Term) Term {
	// select over store with the same index
	if strings.HasPrefix(a.S, "(store ") {
		p := splitArgs(a.S)
		if len(p) == 4 && p[2] == i.S {
			return Term{p[3], elemSort(a.Sort)}
		}
	}
	return app(elemSort(a.Sort), "select", a, i)
}

func Store(a, i, v Term) Term {
	if es := elemSort(a.Sort); es != v.Sort {
		if es == SReal && v.Sort == SInt {
			v = ToReal(v)
		} else {
			panic(unsup("sort mismatch in store: %s into %s", v.Sort, a.Sort))
		}
	}
	return app(a.Sort, "store", a, i, v)
}

// unsupported is raised (as a panic) for code or specifications outside the subset.
type unsupported struct{ msg string }

func (u unsupported) Error() string { return u.msg }

func unsup(f string, args ...interface{}) unsupported {
	return unsupported{fmt.Sprintf(f, args...)}
}
