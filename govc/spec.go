package main

import (
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

// Ex is a specification expression.
type Ex struct {
	Op   string // int real str id call index slice field deref bin un forall exists hole
	Name string
	Args []*Ex
	Vars []BVar
	Trig [][]*Ex
}

type BVar struct{ Name, Type string }

func (e *Ex) String() string {
	switch e.Op {
	case "int", "real", "id", "hole":
		return e.Name
	case "str":
		return fmt.Sprintf("%q", e.Name)
	case "call":
		var a []string
		for _, x := range e.Args {
			a = append(a, x.String())
		}
		return e.Name + "(" + strings.Join(a, ", ") + ")"
	case "index":
		return e.Args[0].String() + "[" + e.Args[1].String() + "]"
	case "field":
		return e.Args[0].String() + "." + e.Name
	case "deref":
		return "(*" + e.Args[0].String() + ")"
	case "un":
		return e.Name + e.Args[0].String()
	case "bin":
		return "(" + e.Args[0].String() + " " + e.Name + " " + e.Args[1].String() + ")"
	case "forall", "exists":
		var v []string
		for _, b := range e.Vars {
			v = append(v, b.Name+": "+b.Type)
		}
		return "(" + e.Op + " " + strings.Join(v, ", ") + " :: " + e.Args[0].String() + ")"
	case "slice":
		return e.Args[0].String() + "[..:..]"
	}
	return e.Op
}

type parser struct {
	toks []string
	pos  int
	src  string
}

func lex(s string) []string {
	var out []string
	ops := []string{"<==>", "==>", "::", "&&", "||", "==", "!=", "<=", ">=", ":="}
	i := 0
	isId := func(c byte) bool {
		return c == '_' || c == '$' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' || c == '\''
	}
loop:
	for i < len(s) {
		c := s[i]
		if c == ' ' || c == '\t' || c == '\n' {
			i++
			continue
		}
		if c == '"' {
			j := i + 1
			for j < len(s) && s[j] != '"' {
				j++
			}
			out = append(out, s[i:j+1])
			i = j + 1
			continue
		}
		for _, o := range ops {
			if strings.HasPrefix(s[i:], o) {
				out = append(out, o)
				i += len(o)
				continue loop
			}
		}
		if c >= '0' && c <= '9' {
			j := i
			for j < len(s) && (s[j] >= '0' && s[j] <= '9' || s[j] == '.' && j+1 < len(s) && s[j+1] >= '0' && s[j+1] <= '9') {
				j++
			}
			out = append(out, s[i:j])
			i = j
			continue
		}
		if isId(c) {
			j := i
			for j < len(s) && isId(s[j]) {
				j++
			}
			out = append(out, s[i:j])
			i = j
			continue
		}
		out = append(out, string(c))
		i++
	}
	return out
}

func parseExpr(s string) *Ex {
	p := &parser{toks: lex(s), src: s}
	e := p.expr()
	if p.pos != len(p.toks) {
		panic(fmt.Sprintf("spec syntax: unexpected %q in %q", p.toks[p.pos], s))
	}
	return e
}

func (p *parser) peek() string {
	if p.pos < len(p.toks) {
		return p.toks[p.pos]
	}
	return ""
}
func (p *parser) next() string { t := p.peek(); p.pos++; return t }
func (p *parser) accept(t string) bool {
	if p.peek() == t {
		p.pos++
		return true
	}
	return false
}
func (p *parser) expect(t string) {
	if !p.accept(t) {
		panic(fmt.Sprintf("spec syntax: expected %q, got %q at token %d in %q", t, p.peek(), p.pos, p.src))
	}
}

func bin(op string, a, b *Ex) *Ex { return &Ex{Op: "bin", Name: op, Args: []*Ex{a, b}} }

func (p *parser) expr() *Ex { return p.iff() }
func (p *parser) iff() *Ex {
	a := p.imp()
	for p.accept("<==>") {
		a = bin("<==>", a, p.imp())
	}
	return a
}
func (p *parser) imp() *Ex {
	a := p.or()
	if p.accept("==>") {
		return bin("==>", a, p.imp())
	}
	return a
}
func (p *parser) or() *Ex {
	a := p.and()
	for p.accept("||") {
		a = bin("||", a, p.and())
	}
	return a
}
func (p *parser) and() *Ex {
	a := p.cmp()
	for p.accept("&&") {
		a = bin("&&", a, p.cmp())
	}
	return a
}
func (p *parser) cmp() *Ex {
	a := p.add()
	var res *Ex
	for {
		op := p.peek()
		switch op {
		case "==", "!=", "<", "<=", ">", ">=":
			p.pos++
			b := p.add()
			c := bin(op, a, b)
			if res == nil {
				res = c
			} else {
				res = bin("&&", res, c)
			}
			a = b
			continue
		}
		break
	}
	if res != nil {
		return res
	}
	return a
}
func (p *parser) add() *Ex {
	a := p.mul()
	for p.peek() == "+" || p.peek() == "-" {
		op := p.next()
		a = bin(op, a, p.mul())
	}
	return a
}
func (p *parser) mul() *Ex {
	a := p.unary()
	for p.peek() == "*" || p.peek() == "/" || p.peek() == "%" {
		op := p.next()
		a = bin(op, a, p.unary())
	}
	return a
}
func (p *parser) unary() *Ex {
	switch p.peek() {
	case "!", "-":
		op := p.next()
		return &Ex{Op: "un", Name: op, Args: []*Ex{p.unary()}}
	case "*":
		p.next()
		return &Ex{Op: "deref", Args: []*Ex{p.unary()}}
	case "forall", "exists":
		return p.quant()
	}
	return p.postfix()
}
func (p *parser) typ() string {
	s := ""
	for {
		t := p.peek()
		if t == "[" {
			p.next()
			if p.accept("]") {
				s += "[]"
				continue
			}
			s += "[" + p.typ()
			p.expect("]")
			s += "]"
			return s
		}
		if t == "*" {
			p.next()
			s += "*"
			continue
		}
		s += p.next()
		if p.peek() == "." {
			p.next()
			s += "." + p.next()
		}
		if p.peek() == "[" { // seq[int], map[..]
			p.next()
			s += "[" + p.typ()
			p.expect("]")
			s += "]"
		}
		return s
	}
}
func (p *parser) quant() *Ex {
	e := &Ex{Op: p.next()}
	for {
		n := p.next()
		t := "int"
		if p.accept(":") {
			t = p.typ()
		}
		e.Vars = append(e.Vars, BVar{n, t})
		if !p.accept(",") {
			break
		}
	}
	for p.accept("{") {
		var tr []*Ex
		for {
			tr = append(tr, p.expr())
			if !p.accept(",") {
				break
			}
		}
		p.expect("}")
		e.Trig = append(e.Trig, tr)
	}
	p.expect("::")
	e.Args = []*Ex{p.expr()}
	return e
}
func (p *parser) postfix() *Ex {
	a := p.primary()
	for {
		switch {
		case p.accept("."):
			n := p.next()
			if p.peek() == "(" && a.Op == "id" {
				// qualified spec function or package member call
				p.next()
				a = &Ex{Op: "call", Name: a.Name + "." + n, Args: p.args()}
				continue
			}
			a = &Ex{Op: "field", Name: n, Args: []*Ex{a}}
		case p.accept("["):
			var lo, hi *Ex
			if p.peek() != ":" {
				lo = p.expr()
			}
			if p.accept(":") {
				if p.peek() != "]" {
					hi = p.expr()
				}
				p.expect("]")
				a = &Ex{Op: "slice", Args: []*Ex{a, lo, hi}}
				continue
			}
			p.expect("]")
			a = &Ex{Op: "index", Args: []*Ex{a, lo}}
		default:
			return a
		}
	}
}
func (p *parser) args() []*Ex {
	var out []*Ex
	if p.accept(")") {
		return out
	}
	for {
		out = append(out, p.expr())
		if p.accept(")") {
			return out
		}
		p.expect(",")
	}
}
func (p *parser) primary() *Ex {
	t := p.next()
	if t == "" {
		panic("spec syntax: unexpected end in " + p.src)
	}
	switch {
	case t == "(":
		e := p.expr()
		p.expect(")")
		return e
	case t[0] == '"':
		return &Ex{Op: "str", Name: t[1 : len(t)-1]}
	case t[0] >= '0' && t[0] <= '9':
		if strings.Contains(t, ".") {
			return &Ex{Op: "real", Name: t}
		}
		return &Ex{Op: "int", Name: t}
	case t[0] == '$':
		return &Ex{Op: "hole", Name: t}
	}
	if p.accept("(") {
		return &Ex{Op: "call", Name: t, Args: p.args()}
	}
	return &Ex{Op: "id", Name: t}
}

// Clause is a named specification clause.
type Clause struct {
	Holes []BVar
	Name  string
	E     *Ex
	Src   string
	Props []string
}

type InvT struct {
	Holes []BVar
	E     *Ex
	Src   string
	Id    int
}

type Contract struct {
	Kind     string // func extern iface functype
	Key      string
	Params   []string
	Results  []string
	Requires []Clause
	Ensures  []Clause
	Modifies []string
	Invs     []InvT
	Uses     []string
	Hints    []Clause // facts to prove at function exit before the ensures
	Props    []string
	Flags    map[string]string
	File     string
	Assumes  []Clause // assumed of each call, not proved of the body
	Holding  string // the mutex held for writing at entry and at exit
	Calls    []CallClause
	Sets     []SetClause // ghost assignments after a call
}

// SetClause assigns a ghost after a call.
type SetClause struct {
	Ghost string
	E     string
	Props []string
}

// CallClause is what a function promises at its calls of another one.
type CallClause struct {
	Key    string
	Params []string
	Clause Clause
}

type SpecFn struct {
	Kind   string // spec rec def
	Name   string
	Params []BVar
	Ret    string
	On     string
	On2    string
	Body   *Ex
}

type Lemma struct {
	Name     string
	Params   []BVar
	On       string
	Requires []*Ex
	Ensures  *Ex
	Trig     [][]*Ex
	Uses     []string
	Axiom    bool
	Src      string
	Props    []string
}

type PropDef struct {
	ID     string
	Verify []string
	Lemmas []string
	Assume []string
	Rank   int
}

type Specs struct {
	Contracts map[string]*Contract
	Fns       map[string]*SpecFn
	FnOrder   []string
	Lemmas    map[string]*Lemma
	Ghosts    map[string]string
	Props     map[string]*PropDef
	Guards    map[string]*Guard
	Dispatch  map[string][]string // interface -> closed list of implementers
	Chans     map[string]*Contract
	Funcs     map[string]*Contract // function-valued fields/params
}

// Guard declares which fields a mutex protects.
// ReadRule: reads of some fields (of all, if none is named) need the lock, except in some states.
type ReadRule struct {
	Fields []string
	Unless *Ex
}

type Guard struct {
	Mutex    string // core.Algo.modelMutex
	Fields   []string
	Before   []string // mutexes of the same object that may not be held when this one is acquired
	Reads    []ReadRule // reads need the lock too
	Inv      []Clause
	Steps    []Clause    // relation between the states at acquisition (acq) and release
	Releases [][2]string // ghost assignments at release
	Changes  []Clause    // what holds of each write of a guarded field (old: before the write)
	Changed  [][2]string // ghost assignments at each write
	Props    []string    // the properties in which the guard counts (all when empty)
	Acquires []string    // ghosts that change while the lock is not held
}

func loadSpecs(dir string) *Specs {
	sp := &Specs{Contracts: map[string]*Contract{}, Fns: map[string]*SpecFn{}, Lemmas: map[string]*Lemma{},
		Ghosts: map[string]string{}, Props: map[string]*PropDef{}, Guards: map[string]*Guard{}, Dispatch: map[string][]string{}, Chans: map[string]*Contract{}, Funcs: map[string]*Contract{}}
	files, _ := filepath.Glob(filepath.Join(dir, "*.spec"))
	sort.Strings(files)
	for _, f := range files {
		b, err := os.ReadFile(f)
		if err != nil {
			panic(err)
		}
		sp.parse(filepath.Base(f), string(b))
	}
	return sp
}

var itemKw = map[string]bool{"func": true, "extern": true, "iface": true, "spec": true, "rec": true, "def": true, "axiom": true, "lemma": true, "ghost": true, "property": true, "guard": true, "dispatch": true, "chan": true, "functype": true}
var clauseKw = map[string]bool{"requires": true, "ensures": true, "modifies": true, "inv": true, "use": true, "props": true, "flag": true, "verify": true, "lemmas": true, "trigger": true, "hint": true, "assume": true, "fields": true, "after": true, "holds": true, "change": true, "changed": true, "sets": true, "assumes": true, "step": true, "reads": true, "acquires": true, "release": true, "call": true, "holding": true}

func (sp *Specs) parse(file, src string) {
	type item struct {
		head    string
		clauses []string
	}
	var items []item
	for ln, line := range strings.Split(src, "\n") {
		if i := strings.Index(line, "#"); i >= 0 {
			line = line[:i]
		}
		if strings.TrimSpace(line) == "" {
			continue
		}
		w := strings.Fields(line)[0]
		w = strings.TrimRight(w, ":")
		if line[0] != ' ' && line[0] != '\t' {
			if !itemKw[w] {
				panic(fmt.Sprintf("%s:%d: unknown item %q", file, ln+1, w))
			}
			items = append(items, item{head: strings.TrimSpace(line)})
			continue
		}
		it := &items[len(items)-1]
		if clauseKw[w] {
			it.clauses = append(it.clauses, strings.TrimSpace(line))
		} else if len(it.clauses) > 0 {
			it.clauses[len(it.clauses)-1] += " " + strings.TrimSpace(line)
		} else {
			it.head += " " + strings.TrimSpace(line)
		}
	}
	for _, it := range items {
		sp.item(file, it.head, it.clauses)
	}
}

func splitWord(s string) (string, string) {
	i := strings.IndexAny(s, " \t")
	if i < 0 {
		return s, ""
	}
	return s[:i], strings.TrimSpace(s[i:])
}

func commaList(s string) []string {
	var out []string
	depth := 0
	start := 0
	for i := 0; i < len(s); i++ {
		switch s[i] {
		case '(', '[':
			depth++
		case ')', ']':
			depth--
		case ',':
			if depth == 0 {
				out = append(out, strings.TrimSpace(s[start:i]))
				start = i + 1
			}
		}
	}
	if strings.TrimSpace(s[start:]) != "" {
		out = append(out, strings.TrimSpace(s[start:]))
	}
	return out
}

// matchParen returns the index of the parenthesis closing s[i].
func matchParen(s string, i int) int {
	d := 0
	for j := i; j < len(s); j++ {
		if s[j] == '(' {
			d++
		} else if s[j] == ')' {
			d--
			if d == 0 {
				return j
			}
		}
	}
	panic("unbalanced parentheses in " + s)
}

func parseBVars(s string) []BVar {
	var out []BVar
	for _, p := range commaList(s) {
		i := strings.Index(p, ":")
		if i < 0 {
			panic("missing type in " + s)
		}
		out = append(out, BVar{strings.TrimSpace(p[:i]), strings.TrimSpace(p[i+1:])})
	}
	return out
}

func namedClause(s string) Clause {
	// optional "[name]" prefix
	c := Clause{Src: s}
	if strings.HasPrefix(s, "[") {
		i := strings.Index(s, "]")
		c.Name = s[1:i]
		if k := strings.Index(c.Name, " "); k >= 0 {
			c.Props = strings.Fields(c.Name[k:])
			c.Name = c.Name[:k]
		}
		s = strings.TrimSpace(s[i+1:])
		c.Src = s
	}
	if strings.HasPrefix(s, "($") {
		// witnesses: the clause holds of some local values
		j := matchParen(s, 0)
		c.Holes = parseBVars(s[1:j])
		s = strings.TrimSpace(s[j+1:])
	}
	c.E = parseExpr(s)
	return c
}

func (sp *Specs) item(file, head string, clauses []string) {
	kw, rest := splitWord(head)
	switch kw {
	case "func", "extern", "iface", "chan", "functype":
		c := &Contract{Kind: kw, Flags: map[string]string{}, File: file}
		// key: up to the parameter list: last two parenthesised groups are params and results
		s := strings.TrimSpace(rest)
		// find results group
		var groups [][2]int
		for i := 0; i < len(s); i++ {
			if s[i] == '(' {
				j := matchParen(s, i)
				groups = append(groups, [2]int{i, j})
				i = j
			}
		}
		// a receiver group directly follows "pkg."
		gi := 0
		if len(groups) > 0 && strings.HasSuffix(s[:groups[0][0]], ".") {
			gi = 1
		}
		if gi >= len(groups) {
			panic("contract without parameter list: " + head)
		}
		c.Key = strings.TrimSpace(s[:groups[gi][0]])
		c.Params = commaList(s[groups[gi][0]+1 : groups[gi][1]])
		if gi+1 < len(groups) {
			c.Results = commaList(s[groups[gi+1][0]+1 : groups[gi+1][1]])
		}
		for _, cl := range clauses {
			w, r := splitWord(cl)
			switch w {
			case "requires":
				c.Requires = append(c.Requires, namedClause(r))
			case "ensures":
				c.Ensures = append(c.Ensures, namedClause(r))
			case "hint":
				c.Hints = append(c.Hints, namedClause(r))
			case "modifies":
				tag := ""
				if strings.HasPrefix(r, "[") {
					j := strings.Index(r, "]")
					tag, r = r[:j+1]+" ", strings.TrimSpace(r[j+1:])
				}
				for _, m := range commaList(r) {
					c.Modifies = append(c.Modifies, tag+m)
				}
			case "use":
				c.Uses = append(c.Uses, commaList(r)...)
			case "props":
				c.Props = commaList(r)
			case "assumes":
				c.Assumes = append(c.Assumes, namedClause(r))
			case "holding":
				c.Holding = r
			case "sets":
				var s SetClause
				if strings.HasPrefix(r, "[") {
					j := strings.Index(r, "]")
					s.Props = strings.Fields(r[1:j])
					r = r[j+1:]
				}
				i := strings.Index(r, ":=")
				s.Ghost, s.E = strings.TrimSpace(r[:i]), r[i+2:]
				c.Sets = append(c.Sets, s)
			case "call":
				i := strings.Index(r, "(")
				for strings.HasSuffix(r[:i], ".") {
					i = matchParen(r, i) + 1
					i += strings.Index(r[i:], "(")
				}
				j := matchParen(r, i)
				c.Calls = append(c.Calls, CallClause{Key: strings.TrimSpace(r[:i]), Params: commaList(r[i+1 : j]), Clause: namedClause(strings.TrimSpace(r[j+1:]))})
			case "flag":
				k, v := splitWord(r)
				c.Flags[k] = v
			case "inv":
				inv := InvT{Src: r, Id: len(c.Invs)}
				if strings.HasPrefix(r, "($") {
					j := matchParen(r, 0)
					inv.Holes = parseBVars(r[1:j])
					r = strings.TrimSpace(r[j+1:])
				}
				inv.E = parseExpr(r)
				c.Invs = append(c.Invs, inv)
			default:
				panic("clause " + w + " in " + head)
			}
		}
		switch kw {
		case "chan":
			sp.Chans[c.Key] = c
		case "functype":
			sp.Funcs[c.Key] = c
		default:
			if sp.Contracts[c.Key] != nil {
				panic("duplicate contract " + c.Key)
			}
			sp.Contracts[c.Key] = c
		}
	case "spec", "rec", "def":
		i := strings.Index(rest, "(")
		j := matchParen(rest, i)
		f := &SpecFn{Kind: kw, Name: strings.TrimSpace(rest[:i]), Params: parseBVars(rest[i+1 : j])}
		tail := strings.TrimSpace(rest[j+1:])
		if !strings.HasPrefix(tail, ":") {
			panic("missing return sort: " + head)
		}
		tail = strings.TrimSpace(tail[1:])
		if k := strings.Index(tail, ":="); k >= 0 {
			f.Body = parseExpr(strings.TrimSpace(tail[k+2:]))
			tail = strings.TrimSpace(tail[:k])
		}
		w := strings.Fields(tail)
		f.Ret = w[0]
		if len(w) == 3 && w[1] == "on" {
			f.On = w[2]
			if a, b, two := strings.Cut(f.On, ","); two { // lexicographic
				f.On, f.On2 = a, b
			}
		}
		if sp.Fns[f.Name] != nil {
			panic("duplicate spec function " + f.Name)
		}
		sp.Fns[f.Name] = f
		sp.FnOrder = append(sp.FnOrder, f.Name)
	case "axiom", "lemma":
		l := &Lemma{Axiom: kw == "axiom"}
		i := strings.Index(rest, "(")
		j := matchParen(rest, i)
		l.Name = strings.TrimSpace(rest[:i])
		l.Params = parseBVars(rest[i+1 : j])
		tail := strings.Fields(rest[j+1:])
		if len(tail) == 2 && tail[0] == "induction" {
			l.On = tail[1]
		} else if len(tail) != 0 {
			panic("lemma head: " + head)
		}
		for _, cl := range clauses {
			w, r := splitWord(cl)
			switch w {
			case "requires":
				l.Requires = append(l.Requires, parseExpr(r))
			case "ensures":
				l.Ensures = parseExpr(r)
				l.Src = r
			case "trigger":
				var tr []*Ex
				for _, t := range commaList(r) {
					tr = append(tr, parseExpr(t))
				}
				l.Trig = append(l.Trig, tr)
			case "use":
				l.Uses = append(l.Uses, commaList(r)...)
			case "props":
				l.Props = commaList(r)
			default:
				panic("clause " + w + " in " + head)
			}
		}
		if sp.Lemmas[l.Name] != nil {
			panic("duplicate lemma " + l.Name)
		}
		sp.Lemmas[l.Name] = l
	case "ghost":
		for _, g := range commaList(rest) {
			i := strings.Index(g, ":")
			sp.Ghosts[strings.TrimSpace(g[:i])] = strings.TrimSpace(g[i+1:])
		}
	case "property":
		p := &PropDef{ID: strings.TrimRight(rest, ":")}
		for _, cl := range clauses {
			w, r := splitWord(cl)
			switch w {
			case "verify":
				p.Verify = append(p.Verify, commaList(r)...)
			case "lemmas":
				p.Lemmas = append(p.Lemmas, commaList(r)...)
			case "assume":
				p.Assume = append(p.Assume, r)
			}
		}
		sp.Props[p.ID] = p
	case "guard":
		g := &Guard{Mutex: rest}
		for _, cl := range clauses {
			w, r := splitWord(cl)
			switch w {
			case "fields":
				g.Fields = append(g.Fields, commaList(r)...)
			case "after":
				g.Before = append(g.Before, commaList(r)...)
			case "holds":
				g.Inv = append(g.Inv, namedClause(r))
			case "step":
				g.Steps = append(g.Steps, namedClause(r))
			case "reads":
				// reads [FIELD, ...] [unless EXPR]
				var rr ReadRule
				if i := strings.Index(" "+r, " unless "); i >= 0 {
					rr.Unless = parseExpr(r[i+7-1:])
					r = strings.TrimSpace(r[:max(i-1, 0)])
				}
				if r != "" {
					rr.Fields = commaList(r)
				}
				g.Reads = append(g.Reads, rr)
			case "acquires":
				g.Acquires = append(g.Acquires, commaList(r)...)
			case "change":
				g.Changes = append(g.Changes, namedClause(r))
			case "changed":
				i := strings.Index(r, ":=")
				g.Changed = append(g.Changed, [2]string{strings.TrimSpace(r[:i]), r[i+2:]})
			case "props":
				g.Props = commaList(r)
			case "release":
				i := strings.Index(r, ":=")
				g.Releases = append(g.Releases, [2]string{strings.TrimSpace(r[:i]), r[i+2:]})
			}
		}
		sp.Guards[g.Mutex] = g
	case "dispatch":
		i := strings.Index(rest, ":")
		sp.Dispatch[strings.TrimSpace(rest[:i])] = commaList(rest[i+1:])
	}
}
