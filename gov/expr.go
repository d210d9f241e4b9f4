package main

import (
	"fmt"
	"go/ast"
	"go/constant"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// SV is a value of the specification language.
type SV struct {
	L *Addr // where the value was loaded from
	S string
	T *Ty
	A *Addr // pointer whose target is known
	v *Val
}

type Env struct {
	t      *Task
	c      *Ctx
	vars   map[string]SV
	st     *State
	old    *State
	reach  string
	bound  int
	lookup func(name string) (SV, bool)
	initEn *Env
	heaps  map[string]string // inside spec functions: heap parameters
	limit  map[string]bool   // spec functions to be applied in their limited form
	pkg    *types.Package
}

type specErr struct{ msg string }

func (e *Env) fail(x *Expr, f string, a ...interface{}) {
	panic(specErr{fmt.Sprintf("%s:%d: ", x.File, x.Line) + fmt.Sprintf(f, a...)})
}

func (e *Env) with(name string, v SV) *Env {
	n := *e
	n.vars = make(map[string]SV, len(e.vars)+1)
	for k, x := range e.vars {
		n.vars[k] = x
	}
	n.vars[name] = v
	return &n
}

func (t *Task) sv(v Val) SV {
	s := SV{T: t.c.goTy(v.T), v: &v}
	switch v.K {
	case vTerm:
		s.S = v.S
	case vAddr:
		s.A = v.A
		if (v.A.Kind == "heap" || v.A.Kind == "arr") && len(v.A.Path) == 0 {
			s.S = v.A.Ref
		}
	}
	return s
}

func (e *Env) term(x *Expr, v SV) string {
	if v.S == "" {
		if v.v != nil && e.t != nil {
			return e.t.reify(*v.v)
		}
		e.fail(x, "value has no term")
	}
	return v.S
}

func (c *Ctx) specTy(te *TypeExpr) *Ty {
	switch te.Kind {
	case "smt":
		return &Ty{Sort: te.Name}
	case "seq":
		return c.seqTy(c.specTy(te.Elem))
	case "ptr":
		el := c.specTy(te.Elem)
		if el.G == nil {
			panic(specErr{"pointer to non-Go type"})
		}
		return c.goTy(types.NewPointer(el.G))
	case "slice":
		el := c.specTy(te.Elem)
		if el.G == nil {
			panic(specErr{"slice of non-Go type " + te.Elem.Name})
		}
		return c.goTy(types.NewSlice(el.G))
	case "map":
		k, el := c.specTy(te.Key), c.specTy(te.Elem)
		return c.goTy(types.NewMap(k.G, el.G))
	}
	switch te.Name {
	case "int":
		return c.goTy(types.Typ[types.Int])
	case "bool":
		return c.goTy(types.Typ[types.Bool])
	case "str", "string":
		return c.goTy(types.Typ[types.String])
	case "ref":
		return tyInt
	case "byte":
		return c.goTy(types.Typ[types.Uint8])
	case "rune":
		return c.goTy(types.Typ[types.Int32])
	case "interface{}":
		return c.goTy(types.NewInterfaceType(nil, nil))
	}
	t := c.prog.findType(te.Name)
	if t == nil {
		panic(specErr{"unknown type " + te.Name})
	}
	return c.goTy(t)
}

func (e *Env) get(key string, x *Expr) string {
	if e.heaps != nil {
		h, ok := e.heaps[key]
		if !ok {
			e.fail(x, "spec function reads %s without declaring it", key)
		}
		return h
	}
	return e.t.get(e.st, key)
}

// key helpers usable without a task
func (e *Env) keyH(ty types.Type) string {
	if e.t != nil {
		return e.t.keyH(ty)
	}
	return "H:" + typeKey(ty)
}
func (e *Env) keyA(ty types.Type) string {
	if e.t != nil {
		return e.t.keyA(ty)
	}
	return "A:" + typeKey(ty)
}
func (e *Env) keysM(m *types.Map) (string, string) {
	if e.t != nil {
		return e.t.keysM(m)
	}
	k := typeKey(m.Key()) + "=>" + typeKey(m.Elem())
	return "MD:" + k, "MV:" + k
}

func isSeq(t *Ty) bool { return t != nil && t.Seq }

// asSeq converts slices to the sequence of their elements.
func (e *Env) asSeq(x *Expr, v SV) SV {
	if isSeq(v.T) {
		return v
	}
	if v.T.Sort == "Slice" && v.T.G != nil {
		el := v.T.G.Underlying().(*types.Slice).Elem()
		ct := e.c.goTy(el)
		st := e.c.seqTy(ct)
		s := e.term(x, v)
		return SV{S: fmt.Sprintf("(seqof_%s (select %s (sref %s)) (soff %s) (slen %s))", sanitize(ct.Sort), e.get(e.keyA(el), x), s, s, s), T: st}
	}
	e.fail(x, "sequence expected, have %s", v.T.Sort)
	return SV{}
}

func seqSuffix(t *Ty) string { return strings.TrimPrefix(t.Sort, "Seq_") }

func (e *Env) pathTo(x *Expr, T types.Type, name string) ([]int, types.Type) {
	var pkg *types.Package
	b := T
	if p, ok := types.Unalias(b).Underlying().(*types.Pointer); ok {
		b = p.Elem()
	}
	if n, ok := types.Unalias(b).(*types.Named); ok {
		pkg = n.Obj().Pkg()
	}
	obj, idx, _ := types.LookupFieldOrMethod(T, true, pkg, name)
	f, ok := obj.(*types.Var)
	if !ok {
		// a field renamed: fall back to nothing
		e.fail(x, "no field %s in %s", name, typeKey(T))
	}
	return idx, f.Type()
}

// lval gives the address denoted by a field selection or dereference.
func (e *Env) lval(x *Expr) (*Addr, bool) {
	switch x.Op {
	case "deref":
		v := e.eval(x.Args[0])
		return e.ptrAddr(x, v), true
	case "field":
		var base *Addr
		bt := types.Type(nil)
		if x.Args[0].Op == "field" || x.Args[0].Op == "deref" {
			if e.isPkg(x.Args[0]) {
				return nil, false
			}
			if a, ok := e.lval(x.Args[0]); ok {
				at := addrTypeOf(a)
				if _, ok := at.Underlying().(*types.Pointer); !ok {
					base, bt = a, at
				}
			}
		}
		if base == nil {
			if e.isPkg(x.Args[0]) {
				if g := e.c.prog.findGlobal(x.Args[0].Name, x.Name); g != nil && e.t != nil {
					return e.t.globalAddr(g).A, true
				}
				return nil, false
			}
			v := e.eval(x.Args[0])
			if v.T.G == nil {
				return nil, false
			}
			if _, ok := types.Unalias(v.T.G).Underlying().(*types.Pointer); !ok {
				return nil, false
			}
			base = e.ptrAddr(x, v)
			bt = addrTypeOf(base)
		}
		idx, _ := e.pathTo(x, bt, x.Name)
		a := *base
		cur := bt
		for _, i := range idx {
			if p, ok := cur.Underlying().(*types.Pointer); ok {
				s := e.loadAddr(x, &a)
				b := Addr{Kind: "heap", Key: e.keyH(p.Elem()), Ref: s, Root: p.Elem()}
				a = b
				cur = p.Elem()
			}
			a.Path = append(append([]step{}, a.Path...), step{field: i})
			cur = cur.Underlying().(*types.Struct).Field(i).Type()
		}
		return &a, true
	case "ident":
		if v, ok := e.vars[x.Name]; ok && v.A != nil {
			return v.A, true
		}
	}
	return nil, false
}

func addrTypeOf(a *Addr) types.Type {
	ty := a.Root
	for _, s := range a.Path {
		switch u := ty.Underlying().(type) {
		case *types.Struct:
			ty = u.Field(s.field).Type()
		case *types.Array:
			ty = u.Elem()
		}
	}
	return ty
}

func (e *Env) ptrAddr(x *Expr, v SV) *Addr {
	if v.A != nil {
		return v.A
	}
	p, ok := types.Unalias(v.T.G).Underlying().(*types.Pointer)
	if !ok {
		e.fail(x, "pointer expected")
	}
	return &Addr{Kind: "heap", Key: e.keyH(p.Elem()), Ref: e.term(x, v), Root: p.Elem()}
}

func (e *Env) loadAddr(x *Expr, a *Addr) string {
	var root string
	switch a.Kind {
	case "local":
		root = e.t.rootTerm(a, e.st)
	case "heap", "arr":
		root = "(select " + e.get(a.Key, x) + " " + a.Ref + ")"
	case "elem":
		root = "(select (select " + e.get(a.Key, x) + " " + a.Ref + ") " + a.Idx + ")"
	}
	ty := a.Root
	for _, p := range a.Path {
		if p.arr {
			root = "(select " + root + " " + p.idx + ")"
			ty = ty.Underlying().(*types.Array).Elem()
		} else {
			f := ty.Underlying().(*types.Struct).Field(p.field)
			root = "(" + selName(e.c.goTy(ty).Sort, p.field, f.Name()) + " " + root + ")"
			ty = f.Type()
		}
	}
	if e.t != nil && e.heaps == nil && e.bound == 0 && e.st != nil {
		root = e.t.named("sld", root, e.c.goTy(ty).Sort)
		e.t.assumeR(e.reachOr(), e.t.facts(root, ty, e.t.get(e.st, e.t.keyNext()), 1))
	}
	return root
}

func (e *Env) reachOr() string {
	if e.reach == "" {
		return "true"
	}
	return e.reach
}

func (e *Env) isPkg(x *Expr) bool {
	if x.Op != "ident" {
		return false
	}
	if _, ok := e.vars[x.Name]; ok {
		return false
	}
	for _, sp := range e.c.prog.prog.AllPackages() {
		if sp.Pkg.Name() == x.Name || qualifier(sp.Pkg) == x.Name {
			return true
		}
	}
	return false
}

func (e *Env) boolT(x *Expr) string {
	v := e.eval(x)
	if v.T.Sort != "Bool" {
		e.fail(x, "boolean expected, have %s", v.T.Sort)
	}
	return v.S
}

func (e *Env) intT(x *Expr) string {
	v := e.eval(x)
	if v.T.Sort != "Int" {
		e.fail(x, "integer expected, have %s", v.T.Sort)
	}
	return e.term(x, v)
}

var tyNil = &Ty{Sort: "nil"}

func (e *Env) evalIdent(x *Expr) (SV, bool) {
	if v, ok := e.vars[x.Name]; ok {
		return v, true
	}
	switch x.Name {
	case "true", "false":
		return SV{S: x.Name, T: tyBool}, true
	case "nil":
		return SV{S: "nil", T: tyNil}, true
	case "empty":
		return SV{S: "seqempty_Int", T: tyStr}, true
	}
	if e.lookup != nil {
		if v, ok := e.lookup(x.Name); ok {
			return v, true
		}
	}
	if e.t != nil {
		for _, g := range e.t.v.ghosts {
			if g.Name == x.Name {
				return SV{S: e.get(e.t.keyG(g.Name), x), T: e.c.specTy(g.Type)}, true
			}
		}
		if f, ok := e.t.v.funs[x.Name]; ok && len(f.Params) == 0 {
			return e.apply(x, f, nil), true
		}
	} else if f, ok := e.c.v.funs[x.Name]; ok && len(f.Params) == 0 {
		return e.apply(x, f, nil), true
	}
	return SV{}, false
}

func (e *Env) eval(x *Expr) SV {
	c := e.c
	switch x.Op {
	case "int":
		return SV{S: x.Name, T: tyInt}
	case "str":
		return SV{S: c.lit(x.Name), T: tyStr}
	case "ident":
		if v, ok := e.evalIdent(x); ok {
			return v
		}
		e.fail(x, "unknown name %s", x.Name)
	case "field":
		if e.isPkg(x.Args[0]) {
			return e.pkgMember(x)
		}
		if a, ok := e.lval(x); ok {
			ty := addrTypeOf(a)
			return SV{S: e.loadAddr(x, a), T: c.goTy(ty)}
		}
		v := e.eval(x.Args[0])
		if v.T.G == nil {
			e.fail(x, "field %s of non-Go value", x.Name)
		}
		if sn, ok := types.Unalias(v.T.G).Underlying().(*types.Struct); ok {
			_ = sn
			idx, _ := e.pathTo(x, v.T.G, x.Name)
			s, ty := e.term(x, v), v.T.G
			for _, i := range idx {
				if p, ok := ty.Underlying().(*types.Pointer); ok {
					s = "(select " + e.get(e.keyH(p.Elem()), x) + " " + s + ")"
					ty = p.Elem()
				}
				f := ty.Underlying().(*types.Struct).Field(i)
				s = "(" + selName(c.goTy(ty).Sort, i, f.Name()) + " " + s + ")"
				ty = f.Type()
			}
			return SV{S: s, T: c.goTy(ty)}
		}
		e.fail(x, "field %s of %s", x.Name, typeKey(v.T.G))
	case "deref":
		a, _ := e.lval(x)
		return SV{S: e.loadAddr(x, a), T: c.goTy(addrTypeOf(a))}
	case "index":
		b := e.eval(x.Args[0])
		i := e.eval(x.Args[1])
		switch {
		case isSeq(b.T):
			return SV{S: fmt.Sprintf("(seqat_%s %s %s)", seqSuffix(b.T), b.S, e.term(x, i)), T: b.T.Elem}
		case b.T.Sort == "Slice":
			el := b.T.G.Underlying().(*types.Slice).Elem()
			s := e.term(x, b)
			r := fmt.Sprintf("(select (select %s (sref %s)) %s)", e.get(e.keyA(el), x), s, addInt("(soff "+s+")", e.term(x, i)))
			if e.t != nil && e.heaps == nil && e.bound == 0 {
				r = e.t.named("sld", r, c.goTy(el).Sort)
				e.t.assumeR(e.reachOr(), e.t.facts(r, el, e.t.get(e.st, e.t.keyNext()), 1))
			}
			return SV{S: r, T: c.goTy(el)}
		case b.T.G != nil:
			switch u := types.Unalias(b.T.G).Underlying().(type) {
			case *types.Map:
				_, vk := e.keysM(u)
				return SV{S: fmt.Sprintf("(select (select %s %s) %s)", e.get(vk, x), b.S, e.term(x, i)), T: c.goTy(u.Elem())}
			case *types.Array:
				return SV{S: fmt.Sprintf("(select %s %s)", e.term(x, b), e.term(x, i)), T: c.goTy(u.Elem())}
			case *types.Pointer:
				if at, ok := u.Elem().Underlying().(*types.Array); ok && b.A != nil {
					a := *b.A
					a.Path = append(append([]step{}, a.Path...), step{arr: true, idx: e.term(x, i)})
					return SV{S: e.loadAddr(x, &a), T: c.goTy(at.Elem())}
				}
			}
		case strings.HasPrefix(b.T.Sort, "(Array "):
			es := b.T.Elem
			if es == nil {
				es = arrayElem(b.T.Sort)
			}
			return SV{S: fmt.Sprintf("(select %s %s)", b.S, e.term(x, i)), T: es}
		}
		e.fail(x, "cannot index %s", b.T.Sort)
	case "slice":
		b := e.asSeq(x, e.eval(x.Args[0]))
		s := b.S
		k := seqSuffix(b.T)
		if x.Args[2] != nil {
			s = fmt.Sprintf("(seqtake_%s %s %s)", k, s, e.intT(x.Args[2]))
		}
		if x.Args[1] != nil {
			lo := e.intT(x.Args[1])
			if lo != "0" {
				s = fmt.Sprintf("(seqdrop_%s %s %s)", k, s, lo)
			}
		}
		return SV{S: s, T: b.T}
	case "!":
		return SV{S: not(e.boolT(x.Args[0])), T: tyBool}
	case "neg":
		return SV{S: "(- " + e.intT(x.Args[0]) + ")", T: tyInt}
	case "&&":
		return SV{S: and(e.boolT(x.Args[0]), e.boolT(x.Args[1])), T: tyBool}
	case "||":
		return SV{S: or(e.boolT(x.Args[0]), e.boolT(x.Args[1])), T: tyBool}
	case "==>":
		return SV{S: imp(e.boolT(x.Args[0]), e.boolT(x.Args[1])), T: tyBool}
	case "<==>":
		return SV{S: eq(e.boolT(x.Args[0]), e.boolT(x.Args[1])), T: tyBool}
	case "==", "!=":
		r := e.equal(x, e.eval(x.Args[0]), e.eval(x.Args[1]))
		if x.Op == "!=" {
			r = not(r)
		}
		return SV{S: r, T: tyBool}
	case "<", "<=", ">", ">=":
		a, b := e.eval(x.Args[0]), e.eval(x.Args[1])
		if isSeq(a.T) && x.Op == "<" {
			return SV{S: "(strlt " + a.S + " " + b.S + ")", T: tyBool}
		}
		if a.T.Sort != "Int" || b.T.Sort != "Int" {
			e.fail(x, "cannot compare %s and %s", a.T.Sort, b.T.Sort)
		}
		return SV{S: "(" + x.Op + " " + e.term(x, a) + " " + e.term(x, b) + ")", T: tyBool}
	case "in":
		a, b := e.eval(x.Args[0]), e.eval(x.Args[1])
		if b.T.G != nil {
			if m, ok := types.Unalias(b.T.G).Underlying().(*types.Map); ok {
				d, _ := e.keysM(m)
				return SV{S: fmt.Sprintf("(and (not (= %s 0)) (select (select %s %s) %s))", b.S, e.get(d, x), b.S, e.term(x, a)), T: tyBool}
			}
		}
		if strings.HasPrefix(b.T.Sort, "(Array ") {
			return SV{S: "(select " + b.S + " " + e.term(x, a) + ")", T: tyBool}
		}
		b = e.asSeq(x, b)
		k := seqSuffix(b.T)
		return SV{S: fmt.Sprintf("(exists ((k Int)) (! (and (<= 0 k) (< k (seqlen_%s %s)) (= (seqat_%s %s k) %s)) :pattern ((seqat_%s %s k))))", k, b.S, k, b.S, e.term(x, a), k, b.S), T: tyBool}
	case "+", "-", "*", "/", "%", "++":
		a, b := e.eval(x.Args[0]), e.eval(x.Args[1])
		if isSeq(a.T) || isSeq(b.T) || x.Op == "++" {
			a, b = e.asSeq(x, a), e.asSeq(x, b)
			return SV{S: fmt.Sprintf("(seqcat_%s %s %s)", seqSuffix(a.T), a.S, b.S), T: a.T}
		}
		if a.T.Sort != "Int" || b.T.Sort != "Int" {
			e.fail(x, "arithmetic on %s and %s", a.T.Sort, b.T.Sort)
		}
		op := map[string]string{"+": "+", "-": "-", "*": "*", "/": "tdiv", "%": "trem"}[x.Op]
		return SV{S: "(" + op + " " + e.term(x, a) + " " + e.term(x, b) + ")", T: tyInt}
	case "if":
		cnd := e.boolT(x.Args[0])
		a, b := e.eval(x.Args[1]), e.eval(x.Args[2])
		ty := a.T
		if a.T.Sort == "nil" {
			a = e.nilOf(x, b.T)
			ty = b.T
		} else if b.T.Sort == "nil" {
			b = e.nilOf(x, a.T)
		} else if isSeq(a.T) != isSeq(b.T) {
			a, b = e.asSeq(x, a), e.asSeq(x, b)
			ty = a.T
		}
		return SV{S: ite(cnd, e.term(x, a), e.term(x, b)), T: ty}
	case "let":
		v := e.eval(x.Args[0])
		if v.S != "" && len(v.S) > 60 && e.t != nil && e.heaps == nil && e.bound == 0 {
			v.S = e.t.named("let", v.S, v.T.Sort)
		}
		return e.with(x.Name, v).eval(x.Args[1])
	case "forall", "exists":
		return e.quant(x)
	case "is":
		v := e.eval(x.Args[0])
		ty := c.specTy(x.Vars[0].Type)
		if types.IsInterface(ty.G) {
			return SV{S: "(" + c.implSym(ty.G) + " (itag " + e.term(x, v) + "))", T: tyBool}
		}
		return SV{S: fmt.Sprintf("(= (itag %s) %d)", e.term(x, v), c.tag(ty.G)), T: tyBool}
	case "dyn":
		v := e.eval(x.Args[0])
		ty := c.specTy(x.Vars[0].Type)
		if pointerShaped(ty.G) {
			return SV{S: "(iref " + e.term(x, v) + ")", T: ty}
		}
		_, unbox := c.box(ty.Sort)
		return SV{S: "(" + unbox + " (iref " + e.term(x, v) + "))", T: ty}
	case "iface":
		v := e.eval(x.Args[0])
		ty := c.specTy(x.Vars[0].Type)
		return SV{S: e.mkIface(x, v, ty.G), T: c.goTy(types.NewInterfaceType(nil, nil))}
	case "heap":
		v := e.eval(x.Args[0])
		ty := c.specTy(x.Vars[0].Type)
		if sl, ok := types.Unalias(ty.G).(*types.Slice); ok {
			el := sl.Elem()
			return SV{S: "(select " + e.get(e.keyA(el), x) + " " + e.term(x, v) + ")", T: &Ty{Sort: "(Array Int " + c.goTy(el).Sort + ")", Elem: c.goTy(el)}}
		}
		return SV{S: "(select " + e.get(e.keyH(ty.G), x) + " " + e.term(x, v) + ")", T: ty}
	case "boxed":
		v := e.eval(x.Args[0])
		ty := c.specTy(x.Vars[0].Type)
		box, _ := c.box(ty.Sort)
		return SV{S: "(" + box + " " + e.term(x, v) + ")", T: tyInt}
	case "zero":
		ty := c.specTy(x.Vars[0].Type)
		return SV{S: c.zero(ty.G), T: ty}
	case "tagof":
		ty := c.specTy(x.Vars[0].Type)
		return SV{S: fmt.Sprint(c.tag(ty.G)), T: tyInt}
	case "call":
		return e.call(x)
	}
	e.fail(x, "cannot evaluate %s", x.Op)
	return SV{}
}

func arrayElem(s string) *Ty {
	// "(Array K V)"
	in := s[len("(Array ") : len(s)-1]
	d := 0
	for i := 0; i < len(in); i++ {
		switch in[i] {
		case '(':
			d++
		case ')':
			d--
		case ' ':
			if d == 0 {
				el := in[i+1:]
				ty := &Ty{Sort: el}
				if strings.HasPrefix(el, "Seq_") {
					ty.Seq = true
					ty.Elem = &Ty{Sort: el[4:]}
				}
				return ty
			}
		}
	}
	return nil
}

func (e *Env) mkIface(x *Expr, v SV, ty types.Type) string {
	tag := e.c.tag(ty)
	if pointerShaped(ty) {
		return fmt.Sprintf("(mk-iface %d %s)", tag, e.term(x, v))
	}
	box, _ := e.c.box(e.c.goTy(ty).Sort)
	return fmt.Sprintf("(mk-iface %d (%s %s))", tag, box, e.term(x, v))
}

func (e *Env) nilOf(x *Expr, t *Ty) SV {
	switch t.Sort {
	case "Int":
		return SV{S: "0", T: t}
	case "Slice":
		return SV{S: "(mk-slice 0 0 0 0)", T: t}
	case "Iface":
		return SV{S: "(mk-iface 0 0)", T: t}
	}
	e.fail(x, "nil of %s", t.Sort)
	return SV{}
}

func (e *Env) equal(x *Expr, a, b SV) string {
	if a.T.Sort == "nil" {
		a, b = b, a
	}
	if b.T.Sort == "nil" {
		switch a.T.Sort {
		case "Slice":
			return "(= (sref " + e.term(x, a) + ") 0)"
		case "Iface":
			return "(= (itag " + e.term(x, a) + ") 0)"
		case "Int":
			return "(= " + e.term(x, a) + " 0)"
		}
		e.fail(x, "comparison of %s with nil", a.T.Sort)
	}
	if isSeq(a.T) && b.T.Sort == "Slice" {
		b = e.asSeq(x, b)
	}
	if isSeq(b.T) && a.T.Sort == "Slice" {
		a = e.asSeq(x, a)
	}
	if isSeq(a.T) && isSeq(b.T) {
		if a.T.Sort != b.T.Sort {
			e.fail(x, "comparison of %s and %s", a.T.Sort, b.T.Sort)
		}
		if a.S == b.S {
			return "true"
		}
		return fmt.Sprintf("(seqeq_%s %s %s)", seqSuffix(a.T), a.S, b.S)
	}
	if a.T.Sort == "Iface" && b.T.Sort != "Iface" && b.T.G != nil {
		return eq(e.term(x, a), e.mkIface(x, b, b.T.G))
	}
	if b.T.Sort == "Iface" && a.T.Sort != "Iface" && a.T.G != nil {
		return eq(e.term(x, b), e.mkIface(x, a, a.T.G))
	}
	if a.T.Sort != b.T.Sort {
		e.fail(x, "comparison of %s and %s", a.T.Sort, b.T.Sort)
	}
	return eq(e.term(x, a), e.term(x, b))
}

var qn int

func (e *Env) quant(x *Expr) SV {
	n := *e
	n.bound++
	n.vars = map[string]SV{}
	for k, v := range e.vars {
		n.vars[k] = v
	}
	var bs []string
	for _, v := range x.Vars {
		ty := e.c.specTy(v.Type)
		qn++
		nm := fmt.Sprintf("%s?%d", sanitize(v.Name), qn)
		bs = append(bs, fmt.Sprintf("(%s %s)", nm, ty.Sort))
		n.vars[v.Name] = SV{S: nm, T: ty}
	}
	body := n.boolT(x.Args[0])
	var pats []string
	for _, g := range x.Trig {
		var ts []string
		for _, p := range g {
			pv := n.eval(p)
			ts = append(ts, n.term(p, pv))
		}
		pats = append(pats, ":pattern ("+strings.Join(ts, " ")+")")
	}
	if body == "true" || body == "false" {
		return SV{S: body, T: tyBool}
	}
	if len(pats) > 0 {
		body = "(! " + body + " " + strings.Join(pats, " ") + ")"
	}
	return SV{S: "(" + x.Op + " (" + strings.Join(bs, " ") + ") " + body + ")", T: tyBool}
}

func (e *Env) pkgMember(x *Expr) SV {
	pkg := x.Args[0].Name
	for _, sp := range e.c.prog.prog.AllPackages() {
		if sp.Pkg.Name() != pkg && qualifier(sp.Pkg) != pkg {
			continue
		}
		switch m := sp.Pkg.Scope().Lookup(x.Name).(type) {
		case *types.Const:
			switch m.Val().Kind() {
			case constant.Int:
				return SV{S: smtInt(m.Val().ExactString()), T: e.c.goTy(m.Type())}
			case constant.String:
				return SV{S: e.c.lit(constant.StringVal(m.Val())), T: tyStr}
			case constant.Bool:
				return SV{S: fmt.Sprint(constant.BoolVal(m.Val())), T: tyBool}
			}
		case *types.Var:
			g := e.c.prog.findGlobal(qualifier(sp.Pkg), x.Name)
			if g == nil || e.t == nil {
				e.fail(x, "global %s.%s not available here", pkg, x.Name)
			}
			if v, ok := e.t.constGlobal(g); ok {
				return e.t.sv(v)
			}
			a := e.t.globalAddr(g).A
			return SV{S: e.loadAddr(x, a), T: e.c.goTy(addrTypeOf(a))}
		}
	}
	e.fail(x, "unknown %s.%s", pkg, x.Name)
	return SV{}
}

func (e *Env) call(x *Expr) SV {
	c := e.c
	arg := func(i int) SV {
		if i >= len(x.Args) {
			e.fail(x, "missing argument of %s", x.Name)
		}
		return e.eval(x.Args[i])
	}
	seq := func(i int) SV { return e.asSeq(x, arg(i)) }
	switch x.Name {
	case "old":
		n := *e
		n.st = e.old
		return n.eval(x.Args[0])
	case "init":
		if e.initEn == nil {
			e.fail(x, "init outside a loop")
		}
		n := *e.initEn
		// bound variables stay visible
		vars := map[string]SV{}
		for k, v := range e.vars {
			vars[k] = v
		}
		for k, v := range e.initEn.vars {
			vars[k] = v
		}
		n.vars = vars
		n.bound = e.bound
		return n.eval(x.Args[0])
	case "len":
		v := arg(0)
		if isSeq(v.T) {
			return SV{S: fmt.Sprintf("(seqlen_%s %s)", seqSuffix(v.T), v.S), T: tyInt}
		}
		if v.T.Sort == "Slice" {
			return SV{S: "(slen " + e.term(x, v) + ")", T: tyInt}
		}
		if v.T.G != nil {
			if m, ok := types.Unalias(v.T.G).Underlying().(*types.Map); ok && e.t != nil {
				d, _ := e.keysM(m)
				return SV{S: fmt.Sprintf("(%s (select %s %s))", e.t.mapLen(m), e.get(d, x), v.S), T: tyInt}
			}
		}
		e.fail(x, "len of %s", v.T.Sort)
	case "cap":
		return SV{S: "(scap " + e.term(x, arg(0)) + ")", T: tyInt}
	case "sref", "soff":
		return SV{S: "(" + x.Name + " " + e.term(x, arg(0)) + ")", T: tyInt}
	case "itag", "iref":
		return SV{S: "(" + x.Name + " " + e.term(x, arg(0)) + ")", T: tyInt}
	case "seq":
		return seq(0)
	case "dom":
		v := arg(0)
		m := types.Unalias(v.T.G).Underlying().(*types.Map)
		d, _ := e.keysM(m)
		return SV{S: fmt.Sprintf("(select %s %s)", e.get(d, x), v.S), T: &Ty{Sort: "(Array " + c.goTy(m.Key()).Sort + " Bool)", Elem: tyBool}}
	case "backing":
		v := arg(0)
		el := v.T.G.Underlying().(*types.Slice).Elem()
		return SV{S: fmt.Sprintf("(select %s (sref %s))", e.get(e.keyA(el), x), e.term(x, v)), T: &Ty{Sort: "(Array Int " + c.goTy(el).Sort + ")", Elem: c.goTy(el)}}
	case "arrsel":
		at := arg(0).T
		if at.Elem != nil {
			return SV{S: fmt.Sprintf("(select %s %s)", arg(0).S, e.term(x, arg(1))), T: at.Elem}
		}
		return SV{S: fmt.Sprintf("(select %s %s)", arg(0).S, e.term(x, arg(1))), T: arrayElem(at.Sort)}
	case "fresh":
		v := arg(0)
		r := e.term(x, v)
		switch v.T.Sort {
		case "Slice":
			r = "(sref " + r + ")"
		case "Iface":
			r = "(iref " + r + ")"
		}
		return SV{S: fmt.Sprintf("(and (<= %s %s) (< %s %s))", e.t.get(e.old, e.t.keyNext()), r, r, e.t.get(e.st, e.t.keyNext())), T: tyBool}
	case "allocated":
		v := arg(0)
		r := e.term(x, v)
		switch v.T.Sort {
		case "Slice":
			r = "(sref " + r + ")"
		case "Iface":
			r = "(iref " + r + ")"
		}
		return SV{S: fmt.Sprintf("(< %s %s)", r, e.t.get(e.st, e.t.keyNext())), T: tyBool}
	case "addr":
		a, ok := e.lval(x.Args[0])
		if id := x.Args[0]; !ok && id.Op == "ident" && e.lookup != nil {
			if v, found := e.lookup(id.Name); found && v.L != nil {
				a, ok = v.L, true
			}
		}
		if !ok {
			e.fail(x, "addr of something that has no address")
		}
		if len(a.Path) == 0 && a.Kind == "heap" {
			return SV{S: a.Ref, T: tyInt}
		}
		return SV{S: e.t.reify(Val{K: vAddr, A: a, T: types.NewPointer(addrTypeOf(a))}), T: tyInt}
	case "next":
		return SV{S: e.t.get(e.st, e.t.keyNext()), T: tyInt}
	case "hasprefix", "hassuffix", "contains":
		f := map[string]string{"hasprefix": "seqpfx", "hassuffix": "seqsfx", "contains": "seqhas"}[x.Name]
		a, b := seq(0), seq(1)
		return SV{S: fmt.Sprintf("(%s_%s %s %s)", f, seqSuffix(a.T), a.S, b.S), T: tyBool}
	case "unit":
		v := arg(0)
		st := c.seqTy(v.T)
		return SV{S: fmt.Sprintf("(sequnit_%s %s)", seqSuffix(st), e.term(x, v)), T: st}
	case "emptyof":
		v := arg(0)
		if v.T.Sort == "Slice" {
			v = e.asSeq(x, v)
		}
		return SV{S: "seqempty_" + seqSuffix(v.T), T: v.T}
	case "runes":
		return SV{S: "(runesof " + arg(0).S + ")", T: tyStr}
	case "runepos":
		return SV{S: "(runepos " + arg(0).S + " " + e.term(x, arg(1)) + ")", T: tyInt}
	case "utf8":
		return SV{S: "(utf8enc " + seq(0).S + ")", T: tyStr}
	case "validutf8":
		return SV{S: "(validutf8 " + seq(0).S + ")", T: tyBool}
	case "min", "max":
		a, b := e.intT(x.Args[0]), e.intT(x.Args[1])
		op := map[string]string{"min": "<=", "max": ">="}[x.Name]
		return SV{S: fmt.Sprintf("(ite (%s %s %s) %s %s)", op, a, b, a, b), T: tyInt}
	case "abs":
		a := e.intT(x.Args[0])
		return SV{S: fmt.Sprintf("(ite (>= %s 0) %s (- %s))", a, a, a), T: tyInt}
	case "bit":
		return SV{S: fmt.Sprintf("(bit %s %s)", e.intT(x.Args[0]), e.intT(x.Args[1])), T: tyBool}
	case "bitand", "bitor":
		a, b := e.intT(x.Args[0]), e.intT(x.Args[1])
		if e.t != nil {
			e.t.bitFacts(a)
			e.t.bitFacts(b)
		}
		return SV{S: fmt.Sprintf("(%s %s %s)", x.Name, a, b), T: tyInt}
	case "mod":
		return SV{S: fmt.Sprintf("(mod %s %s)", e.intT(x.Args[0]), e.intT(x.Args[1])), T: tyInt}
	case "div":
		return SV{S: fmt.Sprintf("(div %s %s)", e.intT(x.Args[0]), e.intT(x.Args[1])), T: tyInt}
	case "store":
		a, i, v := arg(0), arg(1), arg(2)
		return SV{S: fmt.Sprintf("(store %s %s %s)", a.S, e.term(x, i), e.term(x, v)), T: a.T}
	case "ref":
		return SV{S: e.term(x, arg(0)), T: tyInt}
	case "sameheap":
		// every cell of the named heap that existed before is unchanged: sameheap(x) with x of type *T or []T
		v := arg(0)
		var k string
		switch u := types.Unalias(v.T.G).Underlying().(type) {
		case *types.Pointer:
			k = e.keyH(u.Elem())
		case *types.Slice:
			k = e.keyA(u.Elem())
		}
		return SV{S: eq(e.t.get(e.st, k), e.t.get(e.old, k)), T: tyBool}
	}
	var f *SpecFun
	if e.t != nil {
		f = e.t.v.funs[x.Name]
	} else {
		f = c.v.funs[x.Name]
	}
	if f == nil {
		if l := c.v.lemmas[x.Name]; l != nil {
			return e.lemmaInst(x, l)
		}
		e.fail(x, "unknown function %s", x.Name)
	}
	var args []SV
	for _, a := range x.Args {
		args = append(args, e.eval(a))
	}
	return e.apply(x, f, args)
}

func (e *Env) coerce(x *Expr, v SV, ty *Ty) SV {
	if v.T.Sort == "nil" {
		return e.nilOf(x, ty)
	}
	if isSeq(ty) && !isSeq(v.T) {
		return e.asSeq(x, v)
	}
	if ty.Sort == "Iface" && v.T.Sort != "Iface" && v.T.G != nil {
		return SV{S: e.mkIface(x, v, v.T.G), T: ty}
	}
	if v.T.Sort != ty.Sort {
		e.fail(x, "argument has sort %s, want %s", v.T.Sort, ty.Sort)
	}
	if v.S == "" && v.A != nil && v.v != nil {
		return v
	}
	return SV{S: v.S, T: ty, A: v.A, v: v.v}
}

func (e *Env) apply(x *Expr, f *SpecFun, args []SV) SV {
	if len(args) != len(f.Params) {
		e.fail(x, "%s takes %d arguments", f.Name, len(f.Params))
	}
	if f.Macro {
		n := *e
		n.vars = map[string]SV{}
		for k, v := range e.vars {
			if strings.HasPrefix(k, "$") {
				n.vars[k] = v
			}
		}
		n.lookup = nil
		for i, p := range f.Params {
			n.vars[p.Name] = e.coerce(x, args[i], e.c.specTy(p.Type))
		}
		return n.eval(f.Body)
	}
	rt := e.c.v.specFun(f)
	var b strings.Builder
	name := "f." + f.Name
	if e.limit[f.Name] {
		name = "f0." + f.Name
	}
	b.WriteString(name)
	for i, p := range f.Params {
		a := e.coerce(x, args[i], e.c.specTy(p.Type))
		b.WriteString(" " + e.term(x, a))
	}
	for _, r := range f.Reads {
		for _, k := range e.readKeys(x, r) {
			b.WriteString(" " + e.get(k, x))
		}
	}
	s := b.String()
	if s != name {
		s = "(" + s + ")"
	}
	return SV{S: s, T: rt}
}

func (e *Env) readKeys(x *Expr, r *TypeExpr) []string {
	if r.Kind == "name" && e.c.v.ghost(r.Name) != nil {
		if e.t != nil {
			e.t.keyG(r.Name)
		}
		return []string{"G:" + r.Name}
	}
	ty := e.c.specTy(r)
	switch u := types.Unalias(ty.G).(type) {
	case *types.Slice:
		return []string{e.keyA(u.Elem())}
	case *types.Map:
		d, v := e.keysM(u)
		return []string{d, v}
	}
	return []string{e.keyH(ty.G)}
}

// local variable lookup

func (t *Task) valueSV(fr *Frame, v ssa.Value, isAddr bool, st *State, reach string) (SV, bool) {
	var val Val
	switch v.(type) {
	case *ssa.Const, *ssa.Function:
		val = t.val(fr, v)
	case *ssa.Global:
		val = t.val(fr, v)
	default:
		r, ok := fr.vals[v]
		if !ok {
			return SV{}, false
		}
		val = r
	}
	if isAddr {
		a := t.addrOf(val)
		return SV{S: t.loadRaw(a, st), T: t.c.goTy(t.addrType(a)), L: a}, true
	}
	return t.sv(val), true
}

// lookupBefore finds a variable as of instruction number at of block b.
func (t *Task) lookupBefore(fr *Frame, b *ssa.BasicBlock, at int, name string, st *State) (SV, bool) {
	for i := at - 1; i >= 0; i-- {
		switch x := b.Instrs[i].(type) {
		case *ssa.DebugRef:
			id, ok := x.Expr.(*ast.Ident)
			if !ok || id.Name != name {
				continue
			}
			if _, isFn := x.X.(*ssa.Function); isFn {
				continue
			}
			if !x.IsAddr && cellNamed(b, i, name) {
				continue
			}
			if sv, ok := t.valueSV(fr, x.X, x.IsAddr, st, ""); ok {
				return sv, true
			}
		case *ssa.Alloc:
			if x.Comment == name {
				if sv, ok := t.valueSV(fr, x, true, st, ""); ok {
					return sv, true
				}
			}
		}
	}
	return t.lookupIn(fr, b, false, name, st, nil)
}

func (t *Task) lookupIn(fr *Frame, blk *ssa.BasicBlock, whole bool, name string, st *State, phi func(*ssa.Phi) (Val, bool)) (SV, bool) {
	for b := blk; b != nil; b = b.Idom() {
		if b != blk || whole {
			for i := len(b.Instrs) - 1; i >= 0; i-- {
				switch x := b.Instrs[i].(type) {
				case *ssa.DebugRef:
					id, ok := x.Expr.(*ast.Ident)
					if !ok || id.Name != name {
						continue
					}
					if _, isFn := x.X.(*ssa.Function); isFn {
						continue
					}
					if !x.IsAddr && cellNamed(b, i, name) {
						continue
					}
					if sv, ok := t.valueSV(fr, x.X, x.IsAddr, st, ""); ok {
						return sv, true
					}
				case *ssa.Alloc:
					if x.Comment == name {
						if sv, ok := t.valueSV(fr, x, true, st, ""); ok {
							return sv, true
						}
					}
				}
			}
		}
		for _, in := range b.Instrs {
			ph, ok := in.(*ssa.Phi)
			if !ok {
				continue
			}
			if ph.Comment == name {
				if phi != nil {
					if v, ok := phi(ph); ok {
						return t.sv(v), true
					}
				}
				if v, ok := fr.vals[ph]; ok {
					return t.sv(v), true
				}
			}
		}
	}
	for _, p := range fr.fn.Params {
		if p.Name() == name {
			return t.sv(fr.vals[p]), true
		}
	}
	for _, p := range fr.fn.FreeVars {
		if p.Name() == name {
			if v, ok := fr.vals[p]; ok {
				if _, isPtr := p.Type().Underlying().(*types.Pointer); isPtr {
					a := t.addrOf(v)
					return SV{S: t.loadRaw(a, st), T: t.c.goTy(t.addrType(a))}, true
				}
				return t.sv(v), true
			}
		}
	}
	if fr.parent != nil && fr.cblock != nil {
		return t.lookupIn(fr.parent, fr.cblock, true, name, st, nil)
	}
	return SV{}, false
}

// cellNamed tells that the variable of this name lives in memory where
// instruction at of block b runs: a value assigned to it is not the variable.
func cellNamed(b *ssa.BasicBlock, at int, name string) bool {
	for ; b != nil; b, at = b.Idom(), -1 {
		for i, in := range b.Instrs {
			if at >= 0 && i >= at {
				break
			}
			if x, ok := in.(*ssa.Alloc); ok && x.Comment == name {
				return true
			}
		}
	}
	return false
}
