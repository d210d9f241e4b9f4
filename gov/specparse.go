package main

import (
	"fmt"
	"os"
	"strconv"
	"strings"
)

type Expr struct {
	Op   string // ident, int, str, call, field, index, slice, unary ops, binary ops, forall, exists, if, old, ...
	Name string
	Args []*Expr
	Vars []VarDecl
	Trig [][]*Expr
	File string
	Line int
}

type VarDecl struct {
	Name string
	Type *TypeExpr
}

type TypeExpr struct {
	Kind string // name, ptr, slice, seq, smt, map
	Name string
	Elem *TypeExpr
	Key  *TypeExpr
}

type Clause struct {
	Tags []string
	E    *Expr
	Src  string
	Line int
	File string
}

func (c *Clause) active(prop string) bool {
	if len(c.Tags) == 0 {
		return true
	}
	for _, t := range c.Tags {
		if t == prop {
			return true
		}
	}
	return false
}

type LoopSpec struct {
	Key   string
	Invs  []*Clause
	Steps []*Clause
	Decr  []*Clause
	Uses  []*Clause
	Sets  []*GhostSet
}

type GhostSet struct {
	Name string
	E    *Expr
	Tags []string
}

type CallAssert struct {
	Callee string
	Clause *Clause
}

type Contract struct {
	Kind      string // func, extern, iface, functype
	Key       string
	Params    []string
	Results   []string
	Requires  []*Clause
	Ensures   []*Clause
	Exits     []*Clause
	Uses      []*Clause // lemma instances assumed at returns
	Assumes   []*Clause
	Modifies  []*Clause
	ModAll    bool
	BlankTags []string
	Only      *Clause     // for other properties its calls must be unreachable
	Blank     []*TypeExpr // memory not allocated yet is zero at these types (assumed where the memory model forgets it)
	Writes    []*TypeExpr // heap keys written (externs)
	GhostMods []string
	GhostSets []*GhostSet
	Enters    []*GhostSet // ghost assignments before the body
	NoPanic   *Clause     // tags only
	Loops     []*LoopSpec
	Inline    bool
	Nop       bool
	Allocates bool
	CallPre   []*CallAssert
	Always    []*Clause
	Options   map[string]bool
	File      string
	Line      int
	TagsOnly  []string // property tags listed by `for C01 C02`
}

type SpecFun struct {
	Name   string
	Params []VarDecl
	Result *TypeExpr
	Reads  []*TypeExpr
	Body   *Expr
	Fuel   bool
	Macro  bool
	File   string
	Line   int
}

type AxiomDecl struct {
	Name   string
	Kind   string // axiom or lemma
	Vars   []VarDecl
	Reads  []*TypeExpr
	Req    []*Expr
	Ens    []*Expr
	Trig   [][]*Expr
	Induct string
	Hints  []*Expr
	File   string
	Line   int
	Why    string
	Uses   []string
}

type GhostVar struct {
	Name string
	Type *TypeExpr
}

// ArgFunc says which contract is that of the function passed to Callee from
// the package of Target.
type ArgFunc struct {
	Callee string
	Arg    int
	Target string
}

type SpecFile struct {
	Contracts  []*Contract
	Funs       []*SpecFun
	Axioms     []*AxiomDecl
	Ghosts     []*GhostVar
	Smt        []string
	Models     []ModelDecl
	FieldFuncs map[string]string
	ArgFuncs   []ArgFunc
}

type ModelDecl struct {
	Key  string
	Type *TypeExpr
}

type tok struct {
	k    string // id, int, str, op, eof
	s    string
	line int
	end  int
	pos  int
}

type parser struct {
	toks []tok
	p    int
	file string
	src  string
}

func lexSpec(file, src string) []tok {
	var out []tok
	line := 1
	i := 0
	isId := func(c byte) bool {
		return c == '_' || c == '$' || c == '#' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9'
	}
	ops := []string{"<==>", "==>", "::", "==", "!=", "<=", ">=", "&&", "||", "++", "..."}
	for i < len(src) {
		c := src[i]
		switch {
		case c == '\n':
			line++
			i++
		case c == ' ' || c == '\t' || c == '\r':
			i++
		case c == '/' && i+1 < len(src) && src[i+1] == '/':
			for i < len(src) && src[i] != '\n' {
				i++
			}
		case c == '"':
			j := i + 1
			var b strings.Builder
			for src[j] != '"' {
				if src[j] == '\\' {
					j++
					switch src[j] {
					case 'n':
						b.WriteByte('\n')
					case 't':
						b.WriteByte('\t')
					default:
						b.WriteByte(src[j])
					}
				} else {
					if src[j] == '\n' {
						line++
					}
					b.WriteByte(src[j])
				}
				j++
			}
			out = append(out, tok{"str", b.String(), line, j + 1, i})
			i = j + 1
		case c == '`':
			j := i + 1
			for src[j] != '`' {
				if src[j] == '\n' {
					line++
				}
				j++
			}
			out = append(out, tok{"str", src[i+1 : j], line, j + 1, i})
			i = j + 1
		case c == '\'':
			// character literal
			j := i + 1
			var v byte
			if src[j] == '\\' {
				j++
				switch src[j] {
				case 'n':
					v = '\n'
				case 't':
					v = '\t'
				default:
					v = src[j]
				}
			} else {
				v = src[j]
			}
			out = append(out, tok{"int", fmt.Sprint(v), line, j + 2, i})
			i = j + 2
		case c >= '0' && c <= '9':
			j := i
			for j < len(src) && src[j] >= '0' && src[j] <= '9' {
				j++
			}
			out = append(out, tok{"int", src[i:j], line, j, i})
			i = j
		case isId(c):
			j := i
			for j < len(src) && isId(src[j]) {
				j++
			}
			out = append(out, tok{"id", src[i:j], line, j, i})
			i = j
		default:
			found := false
			for _, o := range ops {
				if strings.HasPrefix(src[i:], o) {
					out = append(out, tok{"op", o, line, i + len(o), i})
					i += len(o)
					found = true
					break
				}
			}
			if !found {
				out = append(out, tok{"op", string(c), line, i + 1, i})
				i++
			}
		}
	}
	out = append(out, tok{"eof", "", line, len(src), len(src)})
	return out
}

func (p *parser) cur() tok { return p.toks[p.p] }
func (p *parser) peek(n int) tok {
	if p.p+n < len(p.toks) {
		return p.toks[p.p+n]
	}
	return p.toks[len(p.toks)-1]
}
func (p *parser) fail(msg string) {
	panic(fmt.Sprintf("%s:%d: %s (at %q)", p.file, p.cur().line, msg, p.cur().s))
}
func (p *parser) accept(s string) bool {
	if p.cur().s == s && p.cur().k != "str" {
		p.p++
		return true
	}
	return false
}
func (p *parser) expect(s string) {
	if !p.accept(s) {
		p.fail("expected " + s)
	}
}
func (p *parser) ident() string {
	if p.cur().k != "id" {
		p.fail("identifier expected")
	}
	s := p.cur().s
	p.p++
	return s
}

func (p *parser) mk(op string, args ...*Expr) *Expr {
	return &Expr{Op: op, Args: args, File: p.file, Line: p.cur().line}
}

func (p *parser) parseType() *TypeExpr {
	switch {
	case p.accept("*"):
		return &TypeExpr{Kind: "ptr", Elem: p.parseType()}
	case p.accept("["):
		p.expect("]")
		return &TypeExpr{Kind: "slice", Elem: p.parseType()}
	}
	if p.cur().k == "id" && p.cur().s == "interface" {
		p.p++
		p.expect("{")
		p.expect("}")
		return &TypeExpr{Kind: "name", Name: "interface{}"}
	}
	if p.cur().s == "seq" && p.peek(1).s == "[" {
		p.p += 2
		e := p.parseType()
		p.expect("]")
		return &TypeExpr{Kind: "seq", Elem: e}
	}
	if p.cur().s == "map" && p.peek(1).s == "[" {
		p.p += 2
		k := p.parseType()
		p.expect("]")
		return &TypeExpr{Kind: "map", Key: k, Elem: p.parseType()}
	}
	if p.cur().s == "smt" && p.peek(1).k == "str" {
		p.p++
		s := p.cur().s
		p.p++
		return &TypeExpr{Kind: "smt", Name: s}
	}
	n := p.ident()
	for p.cur().s == "." || p.cur().s == "/" && p.peek(1).k == "id" {
		n += p.cur().s
		p.p++
		n += p.ident()
	}
	return &TypeExpr{Kind: "name", Name: n}
}

func (p *parser) parseVars() []VarDecl {
	var out []VarDecl
	for {
		var names []string
		names = append(names, p.ident())
		for p.cur().s == "," {
			p.p++
			names = append(names, p.ident())
		}
		// a, b int, c str : names before a type; ambiguity resolved as Go does
		t := p.parseType()
		for _, n := range names {
			out = append(out, VarDecl{n, t})
		}
		if p.cur().s == "," {
			p.p++
			continue
		}
		return out
	}
}

func (p *parser) parseTriggers() [][]*Expr {
	var out [][]*Expr
	for p.cur().s == "{" {
		p.p++
		var g []*Expr
		for {
			g = append(g, p.expr())
			if !p.accept(",") {
				break
			}
		}
		p.expect("}")
		out = append(out, g)
	}
	return out
}

func (p *parser) expr() *Expr { return p.iff() }

func (p *parser) iff() *Expr {
	l := p.implies()
	for p.cur().s == "<==>" {
		p.p++
		r := p.implies()
		l = p.mk("<==>", l, r)
	}
	return l
}

func (p *parser) implies() *Expr {
	l := p.or()
	if p.cur().s == "==>" {
		p.p++
		r := p.implies()
		return p.mk("==>", l, r)
	}
	return l
}

func (p *parser) or() *Expr {
	l := p.and()
	for p.cur().s == "||" && p.cur().k == "op" {
		p.p++
		l = p.mk("||", l, p.and())
	}
	return l
}

func (p *parser) and() *Expr {
	l := p.cmp()
	for p.cur().s == "&&" && p.cur().k == "op" {
		p.p++
		l = p.mk("&&", l, p.cmp())
	}
	return l
}

func isCmp(t tok) bool {
	if t.k == "id" {
		return t.s == "in"
	}
	if t.k != "op" {
		return false
	}
	switch t.s {
	case "==", "!=", "<", "<=", ">", ">=":
		return true
	}
	return false
}

func (p *parser) cmp() *Expr {
	l := p.add()
	var res *Expr
	for isCmp(p.cur()) {
		op := p.cur().s
		p.p++
		r := p.add()
		e := p.mk(op, l, r)
		if res == nil {
			res = e
		} else {
			res = p.mk("&&", res, e)
		}
		l = r
	}
	if res == nil {
		return l
	}
	return res
}

func (p *parser) add() *Expr {
	l := p.mul()
	for p.cur().k == "op" && (p.cur().s == "+" || p.cur().s == "-" || p.cur().s == "++") {
		op := p.cur().s
		p.p++
		l = p.mk(op, l, p.mul())
	}
	return l
}

func (p *parser) mul() *Expr {
	l := p.unary()
	for p.cur().k == "op" && (p.cur().s == "*" || p.cur().s == "/" || p.cur().s == "%") {
		op := p.cur().s
		p.p++
		l = p.mk(op, l, p.unary())
	}
	return l
}

func (p *parser) unary() *Expr {
	if p.cur().k == "op" {
		switch p.cur().s {
		case "!":
			p.p++
			return p.mk("!", p.unary())
		case "-":
			p.p++
			return p.mk("neg", p.unary())
		case "*":
			p.p++
			return p.mk("deref", p.unary())
		}
	}
	return p.postfix()
}

func (p *parser) postfix() *Expr {
	e := p.primary()
	for {
		switch {
		case p.cur().k == "op" && p.cur().s == ".":
			p.p++
			n := p.ident()
			x := p.mk("field", e)
			x.Name = n
			e = x
		case p.cur().k == "op" && p.cur().s == "[":
			p.p++
			if p.accept(":") {
				hi := p.expr()
				p.expect("]")
				e = p.mk("slice", e, nil, hi)
				continue
			}
			i := p.expr()
			if p.accept(":") {
				var hi *Expr
				if p.cur().s != "]" {
					hi = p.expr()
				}
				p.expect("]")
				e = p.mk("slice", e, i, hi)
				continue
			}
			p.expect("]")
			e = p.mk("index", e, i)
		default:
			return e
		}
	}
}

func (p *parser) primary() *Expr {
	t := p.cur()
	switch t.k {
	case "int":
		p.p++
		e := p.mk("int")
		e.Name = t.s
		return e
	case "str":
		p.p++
		e := p.mk("str")
		e.Name = t.s
		return e
	case "op":
		if t.s == "(" {
			p.p++
			e := p.expr()
			p.expect(")")
			return e
		}
		p.fail("expression expected")
	case "id":
		switch t.s {
		case "forall", "exists":
			p.p++
			vs := p.parseVars()
			tr := p.parseTriggers()
			p.expect("::")
			b := p.expr()
			e := p.mk(t.s, b)
			e.Vars = vs
			e.Trig = tr
			return e
		case "if":
			p.p++
			c := p.expr()
			p.expect("then")
			a := p.expr()
			p.expect("else")
			b := p.expr()
			return p.mk("if", c, a, b)
		case "let":
			p.p++
			n := p.ident()
			p.expect("=")
			v := p.expr()
			p.expect("in")
			b := p.expr()
			e := p.mk("let", v, b)
			e.Name = n
			return e
		case "is", "dyn", "iface", "heap", "boxed":
			if p.peek(1).s == "(" {
				// is(x, T) ; dyn(x, T) ; iface(x, T)
				p.p += 2
				x := p.expr()
				p.expect(",")
				ty := p.parseType()
				p.expect(")")
				e := p.mk(t.s, x)
				e.Vars = []VarDecl{{"", ty}}
				return e
			}
		case "zero", "tagof":
			if p.peek(1).s == "(" {
				p.p += 2
				ty := p.parseType()
				p.expect(")")
				e := p.mk(t.s)
				e.Vars = []VarDecl{{"", ty}}
				return e
			}
		}
		p.p++
		if p.cur().k == "op" && p.cur().s == "(" {
			p.p++
			e := p.mk("call")
			e.Name = t.s
			for p.cur().s != ")" {
				e.Args = append(e.Args, p.expr())
				if !p.accept(",") {
					break
				}
			}
			p.expect(")")
			return e
		}
		e := p.mk("ident")
		e.Name = t.s
		return e
	}
	p.fail("expression expected")
	return nil
}

func (p *parser) tags() []string {
	var out []string
	if p.cur().k == "op" && p.cur().s == "[" {
		p.p++
		for p.cur().s != "]" {
			out = append(out, p.ident())
			p.accept(",")
		}
		p.expect("]")
	}
	return out
}

func (p *parser) clause() *Clause {
	tags := p.tags()
	start := p.cur()
	e := p.expr()
	end := p.toks[p.p-1]
	return &Clause{Tags: tags, E: e, Src: strings.Join(strings.Fields(p.src[start.pos:end.end]), " "), Line: start.line, File: p.file}
}

// fnKey parses  (*pkg.T).M  |  pkg.F  |  pkg/sub.F$1 | pkg.T.M
func (p *parser) fnKey() string {
	var b strings.Builder
	if p.accept("(") {
		b.WriteString("(")
		if p.accept("*") {
			b.WriteString("*")
		}
		b.WriteString(p.path())
		p.expect(")")
		b.WriteString(")")
		p.expect(".")
		b.WriteString(".")
		b.WriteString(p.ident())
		return b.String()
	}
	return p.path()
}

func (p *parser) path() string {
	n := p.ident()
	for (p.cur().s == "." || p.cur().s == "/") && p.peek(1).k == "id" {
		n += p.cur().s
		p.p++
		n += p.ident()
	}
	return n
}

func (p *parser) nameList() []string {
	var out []string
	p.expect("(")
	for p.cur().s != ")" {
		out = append(out, p.ident())
		p.accept(",")
	}
	p.expect(")")
	return out
}

func (p *parser) contract(kind string) *Contract {
	c := &Contract{Kind: kind, File: p.file, Line: p.cur().line, Options: map[string]bool{}}
	c.Key = p.fnKey()
	if p.cur().s == "(" {
		c.Params = p.nameList()
		if p.cur().s == "(" {
			c.Results = p.nameList()
		}
	}
	var loop *LoopSpec
	for {
		t := p.cur()
		if t.k != "id" {
			if t.k == "eof" {
				return c
			}
			p.fail("clause expected")
		}
		switch t.s {
		case "requires":
			p.p++
			c.Requires = append(c.Requires, p.clause())
		case "ensures":
			p.p++
			c.Ensures = append(c.Ensures, p.clause())
		case "exit":
			p.p++
			c.Exits = append(c.Exits, p.clause())
		case "assume":
			p.p++
			c.Assumes = append(c.Assumes, p.clause())
		case "always":
			p.p++
			c.Always = append(c.Always, p.clause())
		case "modifies":
			p.p++
			if p.cur().s == "*" && p.peek(1).line != p.cur().line {
				p.p++
				c.ModAll = true
				break
			}
			if p.accept("nothing") {
				break
			}
			for {
				if p.cur().s == "ghost" {
					p.p++
					c.GhostMods = append(c.GhostMods, p.ident())
				} else {
					c.Modifies = append(c.Modifies, p.clause())
				}
				if !p.accept(",") {
					break
				}
			}
		case "blank":
			p.p++
			tags := p.tags()
			c.BlankTags = tags
			for {
				c.Blank = append(c.Blank, p.parseType())
				if !p.accept(",") {
					break
				}
			}
		case "writes":
			p.p++
			for {
				c.Writes = append(c.Writes, p.parseType())
				if !p.accept(",") {
					break
				}
			}
		case "allocates":
			p.p++
			c.Allocates = true
		case "enter":
			p.p++
			tags := p.tags()
			n := p.ident()
			p.expect("=")
			c.Enters = append(c.Enters, &GhostSet{n, p.expr(), tags})
		case "ghostset":
			p.p++
			tags := p.tags()
			n := p.ident()
			p.expect("=")
			g := &GhostSet{n, p.expr(), tags}
			if loop != nil {
				loop.Sets = append(loop.Sets, g) // at the end of every iteration
			} else {
				c.GhostSets = append(c.GhostSets, g)
			}
		case "nopanic":
			p.p++
			c.NoPanic = &Clause{Tags: p.tags(), Line: t.line}
		case "only":
			p.p++
			c.Only = &Clause{Tags: p.tags(), Line: t.line}
		case "for":
			p.p++
			c.TagsOnly = append(c.TagsOnly, p.tags()...)
		case "inline":
			p.p++
			c.Inline = true
		case "nop":
			p.p++
			c.Nop = true
		case "option":
			p.p++
			c.Options[p.ident()] = true
		case "callpre":
			p.p++
			tags := p.tags()
			k := p.fnKey()
			p.expect("::")
			cl := p.clause()
			cl.Tags = tags
			c.CallPre = append(c.CallPre, &CallAssert{k, cl})
		case "loop":
			p.p++
			loop = &LoopSpec{Key: p.cur().s}
			p.p++
			c.Loops = append(c.Loops, loop)
		case "invariant":
			p.p++
			loop.Invs = append(loop.Invs, p.clause())
		case "step":
			p.p++
			loop.Steps = append(loop.Steps, p.clause())
		case "use":
			p.p++
			u := p.clause()
			if !isLemmaUse(u.E) {
				p.fail("use takes lemma instances only")
			}
			if loop == nil {
				c.Uses = append(c.Uses, u)
			} else {
				loop.Uses = append(loop.Uses, u)
			}
		case "decreases":
			p.p++
			loop.Decr = append(loop.Decr, p.clause())
		default:
			return c
		}
	}
}

// isLemmaUse: an expression that holds because lemmas do
func isLemmaUse(e *Expr) bool {
	switch e.Op {
	case "call":
		return true // a call of anything but a lemma is rejected where it is evaluated
	case "==>":
		return isLemmaUse(e.Args[1])
	case "&&":
		return isLemmaUse(e.Args[0]) && isLemmaUse(e.Args[1])
	case "forall":
		return isLemmaUse(e.Args[0])
	}
	return false
}

func parseSpec(file string) *SpecFile {
	b, err := os.ReadFile(file)
	if err != nil {
		panic(err)
	}
	p := &parser{toks: lexSpec(file, string(b)), file: file, src: string(b)}
	sf := &SpecFile{FieldFuncs: map[string]string{}}
	for p.cur().k != "eof" {
		t := p.cur()
		p.p++
		switch t.s {
		case "func", "extern", "iface", "functype", "ifacedispatch":
			sf.Contracts = append(sf.Contracts, p.contract(t.s))
		case "ghost":
			p.accept("var")
			n := p.ident()
			sf.Ghosts = append(sf.Ghosts, &GhostVar{n, p.parseType()})
		case "model":
			k := ""
			for p.cur().s != "=" {
				k += p.cur().s
				p.p++
			}
			p.expect("=")
			sf.Models = append(sf.Models, ModelDecl{k, p.parseType()})
		case "fieldfunc":
			k := p.path()
			p.expect("=")
			sf.FieldFuncs[k] = p.path()
		case "argfunc":
			a := ArgFunc{Callee: p.fnKey()}
			a.Arg, _ = strconv.Atoi(p.cur().s)
			p.p++
			p.expect("=")
			a.Target = p.fnKey()
			sf.ArgFuncs = append(sf.ArgFuncs, a)
		case "smt":
			sf.Smt = append(sf.Smt, p.cur().s)
			p.p++
		case "spec", "macro":
			f := &SpecFun{Name: p.ident(), File: file, Line: t.line, Macro: t.s == "macro"}
			p.expect("(")
			if p.cur().s != ")" {
				f.Params = p.parseVars()
			}
			p.expect(")")
			f.Result = p.parseType()
			if p.accept("reads") {
				for {
					f.Reads = append(f.Reads, p.parseType())
					if !p.accept(",") {
						break
					}
				}
			}
			if p.accept("fuel") {
				f.Fuel = true
			}
			if p.accept("=") {
				f.Body = p.expr()
			}
			sf.Funs = append(sf.Funs, f)
		case "axiom", "lemma":
			a := &AxiomDecl{Kind: t.s, Name: p.ident(), File: file, Line: t.line}
			p.expect("(")
			if p.cur().s != ")" {
				a.Vars = p.parseVars()
			}
			p.expect(")")
			if p.accept("reads") {
				for {
					a.Reads = append(a.Reads, p.parseType())
					if !p.accept(",") {
						break
					}
				}
			}
			a.Trig = p.parseTriggers()
			for {
				switch p.cur().s {
				case "requires":
					p.p++
					a.Req = append(a.Req, p.expr())
					continue
				case "ensures":
					p.p++
					a.Ens = append(a.Ens, p.expr())
					continue
				case "induction":
					p.p++
					a.Induct = p.ident()
					continue
				case "hint":
					p.p++
					a.Hints = append(a.Hints, p.expr())
					continue
				case "uses":
					p.p++
					a.Uses = append(a.Uses, p.ident())
					continue
				case "because":
					p.p++
					a.Why = p.cur().s
					p.p++
					continue
				}
				break
			}
			sf.Axioms = append(sf.Axioms, a)
		default:
			p.p--
			p.fail("declaration expected")
		}
	}
	return sf
}
