package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func isNilable(ty types.Type) bool {
	switch ty.Underlying().(type) {
	case *types.Pointer, *types.Slice, *types.Map, *types.Interface, *types.Signature, *types.Chan:
		return true
	}
	return false
}

// arith gives the result of a machine operation: exact when it fits, otherwise
// some value of the type.
func (t *Task) arith(e string, ty types.Type, reach string) string {
	lo, hi, ok := intRange(ty)
	if !ok {
		return e
	}
	n := t.fresh("a", "Int")
	bits, signed := intBits(ty)
	if !signed && bits < 64 {
		t.assume(eq(n, fmt.Sprintf("(mod %s %s)", e, pow2(bits))))
		t.assume(imp(fmt.Sprintf("(<= %s %s %s)", lo, e, hi), eq(n, e)))
		return n
	}
	t.assume(imp(fmt.Sprintf("(<= %s %s %s)", lo, e, hi), eq(n, e)))
	t.assume(fmt.Sprintf("(<= %s %s %s)", lo, n, hi))
	return n
}

func pow2(b int) string {
	switch b {
	case 8:
		return "256"
	case 16:
		return "65536"
	case 32:
		return "4294967296"
	}
	return "18446744073709551616"
}

func isLit(s string) bool {
	s = strings.TrimPrefix(s, "(- ")
	s = strings.TrimSuffix(s, ")")
	for _, c := range s {
		if c < '0' || c > '9' {
			return false
		}
	}
	return s != ""
}

func (t *Task) binop(op token.Token, a, b Val, rt types.Type, fr *Frame, pos token.Pos, st *State, reach string) string {
	x, y := "", ""
	// pointer comparison with statically known addresses
	if (op == token.EQL || op == token.NEQ) && (a.K == vAddr || b.K == vAddr || a.K == vClosure || b.K == vClosure) {
		nilCmp := func(v, w Val) bool { return (v.K == vAddr || v.K == vClosure) && w.K == vTerm && w.S == "0" }
		if nilCmp(a, b) || nilCmp(b, a) {
			// the address of a variable is never nil; interior pointers and heap refs
			v := a
			if b.K != vTerm {
				v = b
			}
			if v.K == vClosure || v.A.Kind == "local" || len(v.A.Path) > 0 || v.A.Kind == "elem" {
				return map[token.Token]string{token.EQL: "false", token.NEQ: "true"}[op]
			}
		}
	}
	x, y = t.reify(a), t.reify(b)
	sort := t.c.goTy(a.T).Sort
	switch op {
	case token.EQL, token.NEQ:
		var e string
		switch {
		case sort == "Slice":
			// only comparison with nil is legal
			if y == "(mk-slice 0 0 0 0)" {
				e = "(= (sref " + x + ") 0)"
			} else {
				e = "(= (sref " + y + ") 0)"
			}
		case sort == "Seq_Int":
			e = t.seqEq(x, y)
		default:
			if sort == "Iface" && t.c.goTy(b.T).Sort != "Iface" {
				y = t.mkIface(b)
			}
			e = eq(x, y)
		}
		if op == token.NEQ {
			return not(e)
		}
		return e
	}
	if sort == "Seq_Int" {
		switch op {
		case token.ADD:
			return "(seqcat_Int " + x + " " + y + ")"
		case token.LSS:
			return "(strlt " + x + " " + y + ")"
		case token.GTR:
			return "(strlt " + y + " " + x + ")"
		case token.LEQ:
			return not("(strlt " + y + " " + x + ")")
		case token.GEQ:
			return not("(strlt " + x + " " + y + ")")
		}
	}
	if sort == "Float" {
		return t.fresh("fl", t.c.goTy(rt).Sort)
	}
	switch op {
	case token.LSS, token.GTR, token.LEQ, token.GEQ:
		return "(" + op.String() + " " + x + " " + y + ")"
	case token.ADD, token.SUB:
		return t.arith("("+op.String()+" "+x+" "+y+")", rt, reach)
	case token.MUL:
		if !isLit(x) && !isLit(y) {
			// keep products abstract apart from their exact value
			return t.arith("(* "+x+" "+y+")", rt, reach)
		}
		return t.arith("(* "+x+" "+y+")", rt, reach)
	case token.QUO, token.REM:
		t.panicIf(fr, "integer division by zero", pos, reach, eq(y, "0"))
		if op == token.QUO {
			return t.arith("(tdiv "+x+" "+y+")", rt, reach)
		}
		return "(trem " + x + " " + y + ")"
	case token.LAND:
		return and(x, y)
	case token.LOR:
		return or(x, y)
	case token.AND, token.OR, token.XOR, token.AND_NOT:
		if sort == "Bool" {
			return map[token.Token]string{token.AND: and(x, y), token.OR: or(x, y)}[op]
		}
		f := map[token.Token]string{token.AND: "bitand", token.OR: "bitor", token.XOR: "bitxor", token.AND_NOT: "bitandnot"}[op]
		for _, z := range []string{x, y} {
			t.bitFacts(z)
		}
		n := t.fresh("bits", "Int")
		t.assume(eq(n, "("+f+" "+x+" "+y+")"))
		if op == token.AND {
			for _, m := range [][2]string{{x, y}, {y, x}} {
				if isLit(m[1]) && !strings.HasPrefix(m[1], "(") {
					var k uint64
					fmt.Sscan(m[1], &k)
					var bs []string
					for i := 0; i < 64; i++ {
						if k>>uint(i)&1 != 0 {
							bs = append(bs, fmt.Sprintf("(bit %s %d)", m[0], i))
						}
					}
					if len(bs) <= 16 {
						t.assume(eq(not(eq(n, "0")), or(bs...)))
					}
				}
			}
		}
		t.assumeR(reach, t.facts(n, rt, t.get(st, t.keyNext()), 0))
		return n
	case token.SHL, token.SHR:
		if isLit(y) {
			var k int
			fmt.Sscan(y, &k)
			if k < 62 {
				if op == token.SHL {
					return t.arith(fmt.Sprintf("(* %s %d)", x, int64(1)<<uint(k)), rt, reach)
				}
				return fmt.Sprintf("(div %s %d)", x, int64(1)<<uint(k))
			}
		}
		n := t.fresh("sh", "Int")
		t.assume(t.facts(n, rt, "0", 0))
		return n
	}
	t.unsup("operator %s", op)
	return ""
}

func (t *Task) bitFacts(z string) {
	if !isLit(z) || strings.HasPrefix(z, "(") {
		return
	}
	var k uint64
	fmt.Sscan(z, &k)
	var fs []string
	for i := 0; i < 32; i++ {
		f := fmt.Sprintf("(bit %d %d)", k, i)
		if k>>uint(i)&1 == 0 {
			f = not(f)
		}
		fs = append(fs, f)
	}
	// keyed on the literal through the formula itself
	t.assume(and(fs...))
}

func (t *Task) seqEq(x, y string) string {
	if x == y {
		return "true"
	}
	if y == "seqempty_Int" {
		return "(= (seqlen_Int " + x + ") 0)"
	}
	if x == "seqempty_Int" {
		return "(= (seqlen_Int " + y + ") 0)"
	}
	return "(seqeq_Int " + x + " " + y + ")"
}

func pointerShaped(ty types.Type) bool {
	switch types.Unalias(ty).Underlying().(type) {
	case *types.Pointer, *types.Map, *types.Chan, *types.Signature:
		return true
	}
	return false
}

func (t *Task) mkIface(v Val) string {
	tag := t.c.tag(v.T)
	s := t.reify(v)
	if pointerShaped(v.T) {
		return fmt.Sprintf("(mk-iface %d %s)", tag, s)
	}
	box, _ := t.c.box(t.c.goTy(v.T).Sort)
	return fmt.Sprintf("(mk-iface %d (%s %s))", tag, box, s)
}

func (t *Task) unIface(i string, ty types.Type) string {
	if pointerShaped(ty) {
		return "(iref " + i + ")"
	}
	_, unbox := t.c.box(t.c.goTy(ty).Sort)
	return "(" + unbox + " (iref " + i + "))"
}

func (t *Task) implSym(it types.Type) string {
	return t.c.implSym(it)
}

func (c *Ctx) implSym(it types.Type) string {
	n := "impl." + sanitize(typeKey(it))
	if len(n) > 100 {
		n = fmt.Sprintf("impl.anon%d", len(c.impls))
	}
	if c.impls[n] {
		return n
	}
	c.impls[n] = true
	c.reg.declare(n, fmt.Sprintf("(declare-fun %s (Int) Bool)", n))
	ii := it.Underlying().(*types.Interface)
	var fs []string
	for _, ty := range c.prog.impls {
		fs = append(fs, fmt.Sprintf("(= (%s %d) %v)", n, c.tag(ty), types.Implements(ty, ii)))
	}
	fs = append(fs, fmt.Sprintf("(not (%s 0))", n))
	c.reg.axiom("theory", n, and(fs...), []string{n})
	return n
}

func (t *Task) instr(fr *Frame, in ssa.Instruction, st *State, reach string) (*State, string) {
	switch x := in.(type) {
	case *ssa.Alloc:
		el := x.Type().(*types.Pointer).Elem()
		fr.vals[x] = t.allocVal(fr, x, el, st)
	case *ssa.UnOp:
		switch x.Op {
		case token.MUL:
			if g, ok := x.X.(*ssa.Global); ok {
				if g.Name() == "init$guard" {
					// a package is initialized once
					fr.vals[x] = Val{S: "false", T: x.Type()}
					return st, reach
				}
				if v, ok := t.constGlobal(g); ok {
					fr.vals[x] = v
					return st, reach
				}
			}
			p := t.val(fr, x.X)
			t.nilCheck(fr, p, x.Pos(), reach)
			fr.vals[x] = t.load(t.addrOf(p), st, reach)
		case token.NOT:
			fr.vals[x] = Val{S: not(t.reify(t.val(fr, x.X))), T: x.Type()}
		case token.SUB:
			if t.c.goTy(x.Type()).Sort == "Float" {
				fr.vals[x] = Val{S: t.fresh("fl", "Float"), T: x.Type()}
			} else {
				fr.vals[x] = Val{S: t.arith("(- "+t.reify(t.val(fr, x.X))+")", x.Type(), reach), T: x.Type()}
			}
		case token.XOR:
			fr.vals[x] = t.term("xor", x.Type(), st, reach)
		default:
			t.unsup("unary %s", x.Op)
		}
	case *ssa.BinOp:
		e := t.binop(x.Op, t.val(fr, x.X), t.val(fr, x.Y), x.Type(), fr, x.Pos(), st, reach)
		fr.vals[x] = Val{S: t.named("b", e, t.c.goTy(x.Type()).Sort), T: x.Type()}
	case *ssa.Store:
		p := t.val(fr, x.Addr)
		t.nilCheck(fr, p, x.Pos(), reach)
		v := t.val(fr, x.Val)
		a := t.addrOf(p)
		if v.K == vClosure || v.K == vAddr {
			if a.Kind == "local" && len(a.Path) == 0 && v.K == vClosure {
				// remember the static closure
				s := t.closureLocal(a, v, st)
				_ = s
			}
			if v.K == vClosure && t.fieldFuncStore(fr, x, a, v) {
				fp := t.fresh("fieldfn", "Int")
				t.assume(not(eq(fp, "0")))
				t.store(a, st, fp)
				return st, reach
			}
		}
		if a.Kind == "local" && len(a.Path) == 0 && v.K == vClosure {
			return st, reach
		}
		if a.Kind == "heap" && t.c.goTy(v.T).Sort != t.c.goTy(t.addrType(a)).Sort {
			t.unsup("store sort mismatch")
		}
		t.store(a, st, t.reify(v))
		if a.Kind == "local" && len(a.Path) == 0 {
			delete(t.v.closureLocals, a.Key)
		}
	case *ssa.FieldAddr:
		p := t.val(fr, x.X)
		t.nilCheck(fr, p, x.Pos(), reach)
		a := *t.addrOf(p)
		a.Path = append(append([]step{}, a.Path...), step{field: x.Field})
		fr.vals[x] = Val{K: vAddr, A: &a, T: x.Type()}
	case *ssa.Field:
		s := t.reify(t.val(fr, x.X))
		sty := x.X.Type()
		r := t.project(s, sty, []step{{field: x.Field}})
		fr.vals[x] = Val{S: t.named("fld", r, t.c.goTy(x.Type()).Sort), T: x.Type()}
		t.assumeR(reach, t.facts(fr.vals[x].S, x.Type(), t.get(st, t.keyNext()), 0))
	case *ssa.IndexAddr:
		base := t.val(fr, x.X)
		idx := t.reify(t.val(fr, x.Index))
		switch u := x.X.Type().Underlying().(type) {
		case *types.Slice:
			s := t.reify(base)
			t.panicIf(fr, "index out of range", x.Pos(), reach, fmt.Sprintf("(not (and (<= 0 %s) (< %s (slen %s))))", idx, idx, s))
			i := t.named("ix", addInt("(soff "+s+")", idx), "Int")
			fr.vals[x] = Val{K: vAddr, T: x.Type(), A: &Addr{Kind: "elem", Key: t.keyA(u.Elem()), Ref: t.named("sr", "(sref "+s+")", "Int"), Idx: i, Root: u.Elem()}}
		case *types.Pointer:
			at := u.Elem().Underlying().(*types.Array)
			t.panicIf(fr, "index out of range", x.Pos(), reach, fmt.Sprintf("(not (and (<= 0 %s) (< %s %d)))", idx, idx, at.Len()))
			a := t.addrOf(base)
			if a.Kind == "arr" {
				if len(a.Path) > 0 {
					t.unsup("nested array")
				}
				fr.vals[x] = Val{K: vAddr, T: x.Type(), A: &Addr{Kind: "elem", Key: a.Key, Ref: a.Ref, Idx: idx, Root: at.Elem()}}
			} else {
				b := *a
				b.Path = append(append([]step{}, a.Path...), step{arr: true, idx: idx})
				fr.vals[x] = Val{K: vAddr, A: &b, T: x.Type()}
			}
		}
	case *ssa.Index:
		s := t.reify(t.val(fr, x.X))
		idx := t.reify(t.val(fr, x.Index))
		switch u := x.X.Type().Underlying().(type) {
		case *types.Array:
			fr.vals[x] = Val{S: "(select " + s + " " + idx + ")", T: x.Type()}
			_ = u
		default:
			t.panicIf(fr, "string index out of range", x.Pos(), reach, fmt.Sprintf("(not (and (<= 0 %s) (< %s (seqlen_Int %s))))", idx, idx, s))
			v := Val{S: t.named("ch", "(seqat_Int "+s+" "+idx+")", "Int"), T: x.Type()}
			t.assumeR(reach, t.facts(v.S, x.Type(), "0", 0))
			fr.vals[x] = v
		}
	case *ssa.Slice:
		fr.vals[x] = t.sliceOp(fr, x, st, reach)
	case *ssa.MakeSlice:
		el := x.Type().Underlying().(*types.Slice).Elem()
		n, c := t.reify(t.val(fr, x.Len)), t.reify(t.val(fr, x.Cap))
		t.panicIf(fr, "makeslice: len out of range", x.Pos(), reach, fmt.Sprintf("(not (and (<= 0 %s) (<= %s %s)))", n, n, c))
		r := t.alloc(st)
		k := t.keyA(el)
		t.set(st, k, fmt.Sprintf("(store %s %s %s)", t.get(st, k), r, t.c.constArr(t.arrSort(k), t.c.zero(el))))
		fr.vals[x] = Val{S: t.named("mks", fmt.Sprintf("(mk-slice %s 0 %s %s)", r, n, c), "Slice"), T: x.Type()}
	case *ssa.MakeMap:
		m := x.Type().Underlying().(*types.Map)
		d, _ := t.keysM(m)
		r := t.alloc(st)
		ks := t.c.goTy(m.Key()).Sort
		empty := "((as const (Array " + ks + " Bool)) false)"
		t.set(st, d, fmt.Sprintf("(store %s %s %s)", t.get(st, d), r, empty))
		t.assume(fmt.Sprintf("(= (%s %s) 0)", t.mapLen(m), empty))
		fr.vals[x] = Val{S: r, T: x.Type()}
	case *ssa.MakeInterface:
		v := t.val(fr, x.X)
		fr.vals[x] = Val{S: t.named("if", t.mkIface(v), "Iface"), T: x.Type()}
	case *ssa.ChangeInterface:
		v := t.val(fr, x.X)
		v.T = x.Type()
		fr.vals[x] = v
	case *ssa.ChangeType:
		v := t.val(fr, x.X)
		v.T = x.Type()
		fr.vals[x] = v
	case *ssa.Convert:
		fr.vals[x] = t.convert(fr, x, st, reach)
	case *ssa.MakeClosure:
		v := Val{K: vClosure, Fn: x.Fn.(*ssa.Function), T: x.Type()}
		for _, b := range x.Bindings {
			v.Bind = append(v.Bind, t.val(fr, b))
		}
		fr.vals[x] = v
	case *ssa.TypeAssert:
		t.typeAssert(fr, x, st, reach)
	case *ssa.Extract:
		tv := t.val(fr, x.Tuple)
		if tv.K != vTuple || x.Index >= len(tv.Tup) {
			t.unsup("extract")
		}
		fr.vals[x] = tv.Tup[x.Index]
	case *ssa.Lookup:
		t.lookup(fr, x, st, reach)
	case *ssa.MapUpdate:
		m := x.Map.Type().Underlying().(*types.Map)
		d, v := t.keysM(m)
		mv := t.reify(t.val(fr, x.Map))
		k := t.reify(t.val(fr, x.Key))
		t.panicIf(fr, "assignment to entry in nil map", x.Pos(), reach, eq(mv, "0"))
		od := t.named("dom", "(select "+t.get(st, d)+" "+mv+")", "(Array "+t.c.goTy(m.Key()).Sort+" Bool)")
		nd := t.named("dom", "(store "+od+" "+k+" true)", "(Array "+t.c.goTy(m.Key()).Sort+" Bool)")
		ml := t.mapLen(m)
		t.assumeR(reach, fmt.Sprintf("(= (%s %s) (ite (select %s %s) (%s %s) (+ 1 (%s %s))))", ml, nd, od, k, ml, od, ml, od))
		t.set(st, d, "(store "+t.get(st, d)+" "+mv+" "+nd+")")
		ov := "(select " + t.get(st, v) + " " + mv + ")"
		t.set(st, v, "(store "+t.get(st, v)+" "+mv+" (store "+ov+" "+k+" "+t.reify(t.val(fr, x.Value))+"))")
	case *ssa.Range:
		t.rangeInit(fr, x, st)
	case *ssa.Next:
		t.next(fr, x, st, reach)
	case *ssa.Call:
		args := t.args(fr, &x.Call)
		fnv := Val{}
		if !x.Call.IsInvoke() {
			fnv = t.val(fr, x.Call.Value)
		} else {
			fnv = t.val(fr, x.Call.Value)
		}
		r, s2, r2 := t.call(fr, &x.Call, fnv, args, st, reach, x)
		if s2 == nil {
			return nil, ""
		}
		fr.vals[x] = r
		return s2, r2
	case *ssa.Defer:
		d := deferRec{reach: reach, call: &x.Call, args: t.args(fr, &x.Call), fnv: t.val(fr, x.Call.Value), instr: x}
		for _, lp := range fr.loops {
			if lp.body[x.Block()] {
				d.loop = true
			}
		}
		fr.defers = append(fr.defers, d)
	case *ssa.Go, *ssa.Send, *ssa.Select:
		t.unsup("concurrency instruction %T", in)
	default:
		t.unsup("instruction %T", in)
	}
	return st, reach
}

func addInt(a, b string) string {
	if b == "0" {
		return a
	}
	if a == "0" {
		return b
	}
	return "(+ " + a + " " + b + ")"
}

func (t *Task) args(fr *Frame, c *ssa.CallCommon) []Val {
	var out []Val
	for _, a := range c.Args {
		out = append(out, t.val(fr, a))
	}
	return out
}

func (t *Task) nilCheck(fr *Frame, p Val, pos token.Pos, reach string) {
	if p.K != vTerm {
		if p.K == vAddr && p.A.Kind == "heap" && len(p.A.Path) == 0 && !isLit(p.A.Ref) && !strings.HasPrefix(p.A.Ref, "new!") {
			t.panicIf(fr, "nil pointer dereference", pos, reach, eq(p.A.Ref, "0"))
		}
		return
	}
	if strings.HasPrefix(p.S, "new!") {
		return
	}
	t.panicIf(fr, "nil pointer dereference", pos, reach, eq(p.S, "0"))
}

func slicedArray(x *ssa.Alloc) bool {
	if x.Referrers() == nil {
		return false
	}
	for _, r := range *x.Referrers() {
		if _, ok := r.(*ssa.Slice); ok {
			return true
		}
	}
	return false
}

func (t *Task) allocVal(fr *Frame, x *ssa.Alloc, el types.Type, st *State) Val {
	if at, ok := el.Underlying().(*types.Array); ok && slicedArray(x) {
		r := t.alloc(st)
		k := t.keyA(at.Elem())
		t.set(st, k, fmt.Sprintf("(store %s %s %s)", t.get(st, k), r, t.c.constArr(t.arrSort(k), t.c.zero(at.Elem()))))
		return Val{K: vAddr, T: x.Type(), A: &Addr{Kind: "arr", Key: k, Ref: r, Root: el}}
	}
	if t.forceH[x] {
		r := t.alloc(st)
		k := t.keyH(el)
		t.set(st, k, fmt.Sprintf("(store %s %s %s)", t.get(st, k), r, t.c.zero(el)))
		return Val{K: vTerm, S: r, T: x.Type()}
	}
	key := fmt.Sprintf("L:%d:%s", fr.id, x.Name())
	if x.Comment != "" {
		key += ":" + sanitize(x.Comment)
	}
	t.keySort[key] = t.c.goTy(el).Sort
	t.v.localAllocs[key] = x
	t.v.localTypes[key] = el
	t.set(st, key, t.c.zero(el))
	return Val{K: vAddr, T: x.Type(), A: &Addr{Kind: "local", Key: key, Root: el}}
}

func (t *Task) closureLocal(a *Addr, v Val, st *State) string {
	if prev, ok := t.v.closureLocals[a.Key]; ok && !sameVal(prev, v) {
		t.unsup("function variable %s assigned twice", a.Key)
	}
	t.v.closureLocals[a.Key] = v
	n := t.fresh("clolocal", "Int")
	t.set(st, a.Key, n)
	t.v.closureTerms[n] = v
	return n
}

func (t *Task) sliceOp(fr *Frame, x *ssa.Slice, st *State, reach string) Val {
	base := t.val(fr, x.X)
	get := func(v ssa.Value) string {
		if v == nil {
			return ""
		}
		return t.reify(t.val(fr, v))
	}
	lo, hi, max := get(x.Low), get(x.High), get(x.Max)
	if lo == "" {
		lo = "0"
	}
	if pt, ok := x.X.Type().Underlying().(*types.Pointer); ok {
		at := pt.Elem().Underlying().(*types.Array)
		a := t.addrOf(base)
		if a.Kind != "arr" {
			t.unsup("slice of a local array")
		}
		n := fmt.Sprint(at.Len())
		if hi == "" {
			hi = n
		}
		c := n
		if max != "" {
			c = max
		}
		t.panicIf(fr, "slice bounds out of range", x.Pos(), reach, fmt.Sprintf("(not (and (<= 0 %s) (<= %s %s) (<= %s %s)))", lo, lo, hi, hi, c))
		if at.Len() <= 8 {
			// name the elements, so that contracts about slices see them
			row := "(select " + t.get(st, t.keyA(at.Elem())) + " " + a.Ref + ")"
			for i := int64(0); i < at.Len(); i++ {
				t.assume(eq(fmt.Sprintf("(select %s %d)", row, i), t.fresh("el", t.c.goTy(at.Elem()).Sort)))
			}
		}
		return Val{S: t.named("sl", fmt.Sprintf("(mk-slice %s %s %s %s)", a.Ref, lo, subInt(hi, lo), subInt(c, lo)), "Slice"), T: x.Type()}
	}
	s := t.reify(base)
	if t.c.goTy(x.X.Type()).Sort == "Seq_Int" {
		if hi == "" {
			hi = "(seqlen_Int " + s + ")"
		}
		t.panicIf(fr, "slice bounds out of range", x.Pos(), reach, fmt.Sprintf("(not (and (<= 0 %s) (<= %s %s) (<= %s (seqlen_Int %s))))", lo, lo, hi, hi, s))
		r := s
		if x.High != nil {
			r = "(seqtake_Int " + r + " " + hi + ")"
		}
		if lo != "0" {
			r = "(seqdrop_Int " + r + " " + lo + ")"
		}
		return Val{S: t.named("str", r, "Seq_Int"), T: x.Type()}
	}
	if hi == "" {
		hi = "(slen " + s + ")"
	}
	c := "(scap " + s + ")"
	if max != "" {
		c = max
	}
	cond := fmt.Sprintf("(not (and (<= 0 %s) (<= %s %s) (<= %s %s) (<= %s (scap %s))))", lo, lo, hi, hi, c, c, s)
	t.panicIf(fr, "slice bounds out of range", x.Pos(), reach, cond)
	return Val{S: t.named("sl", fmt.Sprintf("(mk-slice (sref %s) %s %s %s)", s, addInt("(soff "+s+")", lo), subInt(hi, lo), subInt(c, lo)), "Slice"), T: x.Type()}
}

func subInt(a, b string) string {
	if b == "0" {
		return a
	}
	return "(- " + a + " " + b + ")"
}

func (t *Task) elemSeqOf(elem types.Type) string {
	ct := t.c.goTy(elem)
	t.c.seqSort(ct.Sort)
	return "seqof_" + sanitize(ct.Sort)
}

func (t *Task) convert(fr *Frame, x *ssa.Convert, st *State, reach string) Val {
	v := t.val(fr, x.X)
	from, to := x.X.Type().Underlying(), x.Type().Underlying()
	fs, ts := t.c.goTy(x.X.Type()).Sort, t.c.goTy(x.Type()).Sort
	fb, fok := from.(*types.Basic)
	tb, tok := to.(*types.Basic)
	switch {
	case fok && tok && fb.Info()&types.IsInteger != 0 && tb.Info()&types.IsInteger != 0:
		s := t.reify(v)
		lo, hi, ok := intRange(x.Type())
		flo, fhi, fok2 := intRange(x.X.Type())
		if ok && fok2 {
			if widens(x.X.Type(), x.Type()) {
				return Val{S: s, T: x.Type()}
			}
			if isLit(s) {
				n := t.arith(s, x.Type(), reach)
				return Val{S: n, T: x.Type()}
			}
			_, _ = flo, fhi
			bits, signed := intBits(x.Type())
			n := t.fresh("cv", "Int")
			t.assume(imp(fmt.Sprintf("(<= %s %s %s)", lo, s, hi), eq(n, s)))
			t.assume(fmt.Sprintf("(<= %s %s %s)", lo, n, hi))
			if !signed {
				t.assume(eq(n, fmt.Sprintf("(mod %s %s)", s, pow2(bits))))
			}
			return Val{S: n, T: x.Type()}
		}
		return Val{S: s, T: x.Type()}
	case fok && fb.Info()&types.IsString != 0 && ts == "Slice":
		// []byte(s), []rune(s)
		s := t.reify(v)
		el := to.(*types.Slice).Elem()
		r := t.alloc(st)
		k := t.keyA(el)
		seq := s
		if eb := el.Underlying().(*types.Basic); eb.Kind() == types.Int32 {
			seq = "(runesof " + s + ")"
		}
		n := t.named("n", "(seqlen_Int "+seq+")", "Int")
		arr := t.fresh("bytes", t.arrSort(k))
		t.assume(eq("(seqof_Int "+arr+" 0 "+n+")", seq))
		t.assume(fmt.Sprintf("(forall ((i Int)) (! (=> (and (<= 0 i) (< i %s)) (= (select %s i) (seqat_Int %s i))) :pattern ((select %s i))))", n, arr, seq, arr))
		t.set(st, k, fmt.Sprintf("(store %s %s %s)", t.get(st, k), r, arr))
		return Val{S: t.named("sl", fmt.Sprintf("(mk-slice %s 0 %s %s)", r, n, n), "Slice"), T: x.Type()}
	case tok && tb.Info()&types.IsString != 0 && fs == "Slice":
		s := t.reify(v)
		el := from.(*types.Slice).Elem()
		k := t.keyA(el)
		seq := fmt.Sprintf("(seqof_Int (select %s (sref %s)) (soff %s) (slen %s))", t.get(st, k), s, s, s)
		if eb := el.Underlying().(*types.Basic); eb.Kind() == types.Int32 {
			seq = "(utf8enc " + seq + ")"
		}
		return Val{S: t.named("str", seq, "Seq_Int"), T: x.Type()}
	case tok && tb.Info()&types.IsString != 0 && fok && fb.Info()&types.IsInteger != 0:
		return Val{S: t.named("str", "(utf8enc (sequnit_Int "+t.reify(v)+"))", "Seq_Int"), T: x.Type()}
	case fs == ts && fs != "Float":
		v.T = x.Type()
		return v
	}
	return t.term("conv", x.Type(), st, reach)
}

func widens(from, to types.Type) bool {
	fb, fs := intBits(from)
	tb, ts := intBits(to)
	if fs == ts {
		return tb >= fb
	}
	return !fs && ts && tb > fb
}

func (t *Task) typeAssert(fr *Frame, x *ssa.TypeAssert, st *State, reach string) {
	v := t.val(fr, x.X)
	i := t.reify(v)
	var ok, res string
	if types.IsInterface(x.AssertedType) {
		ok = "(" + t.implSym(x.AssertedType) + " (itag " + i + "))"
		res = i
	} else {
		ok = fmt.Sprintf("(= (itag %s) %d)", i, t.c.tag(x.AssertedType))
		res = t.unIface(i, x.AssertedType)
	}
	if x.CommaOk {
		okn := t.shareBool(ok)
		s := t.named("ta", ite(okn, res, t.c.zero(x.AssertedType)), t.c.goTy(x.AssertedType).Sort)
		t.assumeR(reach, t.facts(s, x.AssertedType, t.get(st, t.keyNext()), 0))
		fr.vals[x] = Val{K: vTuple, Tup: []Val{{S: s, T: x.AssertedType}, {S: okn, T: types.Typ[types.Bool]}}}
		return
	}
	t.panicIf(fr, "failed type assertion", x.Pos(), reach, not(ok))
	s := t.named("ta", res, t.c.goTy(x.AssertedType).Sort)
	t.assumeR(reach, t.facts(s, x.AssertedType, t.get(st, t.keyNext()), 0))
	fr.vals[x] = Val{S: s, T: x.AssertedType}
}

func (t *Task) lookup(fr *Frame, x *ssa.Lookup, st *State, reach string) {
	m, ok := x.X.Type().Underlying().(*types.Map)
	if !ok {
		// string index
		s := t.reify(t.val(fr, x.X))
		idx := t.reify(t.val(fr, x.Index))
		t.panicIf(fr, "string index out of range", x.Pos(), reach, fmt.Sprintf("(not (and (<= 0 %s) (< %s (seqlen_Int %s))))", idx, idx, s))
		v := Val{S: t.named("ch", "(seqat_Int "+s+" "+idx+")", "Int"), T: x.Type()}
		t.assumeR(reach, t.facts(v.S, x.Type(), "0", 0))
		fr.vals[x] = v
		return
	}
	d, vk := t.keysM(m)
	mv := t.reify(t.val(fr, x.X))
	k := t.reify(t.val(fr, x.Index))
	has := t.shareBool(fmt.Sprintf("(and (not (= %s 0)) (select (select %s %s) %s))", mv, t.get(st, d), mv, k))
	s := t.named("lk", ite(has, fmt.Sprintf("(select (select %s %s) %s)", t.get(st, vk), mv, k), t.c.zero(m.Elem())), t.c.goTy(m.Elem()).Sort)
	t.assumeR(reach, t.facts(s, m.Elem(), t.get(st, t.keyNext()), 1))
	if x.CommaOk {
		fr.vals[x] = Val{K: vTuple, Tup: []Val{{S: s, T: m.Elem()}, {S: has, T: types.Typ[types.Bool]}}}
	} else {
		fr.vals[x] = Val{S: s, T: m.Elem()}
	}
}

// iterators: a local counter (strings) or the set of visited keys (maps)
func (t *Task) rangeInit(fr *Frame, x *ssa.Range, st *State) {
	base := t.val(fr, x.X)
	key := fmt.Sprintf("L:%d:iter:%s", fr.id, x.Name())
	t.keySort[key] = "Int"
	t.set(st, key, "0")
	t.v.iterInv[key] = func(t *Task, st *State) string { return "(<= 0 " + st.vars[key] + ")" }
	if m, ok := x.X.Type().Underlying().(*types.Map); ok {
		vk := key + ":visited"
		t.keySort[vk] = "(Array " + t.c.goTy(m.Key()).Sort + " Bool)"
		t.set(st, vk, "((as const "+t.keySort[vk]+") false)")
	} else {
		s := t.reify(base)
		t.v.iterInv[key] = func(t *Task, st *State) string {
			return "(and (<= 0 " + st.vars[key] + ") (<= " + st.vars[key] + " (seqlen_Int (runesof " + s + "))))"
		}
	}
	fr.vals[x] = Val{K: vTerm, S: t.reify(base), T: x.X.Type(), Tup: []Val{{S: key}}}
}

func (t *Task) next(fr *Frame, x *ssa.Next, st *State, reach string) {
	it := t.val(fr, x.Iter)
	key := it.Tup[0].S
	pos := st.vars[key]
	if x.IsString {
		rs := t.named("runes", "(runesof "+it.S+")", "Seq_Int")
		ok := t.shareBool("(< " + pos + " (seqlen_Int " + rs + "))")
		k := t.fresh("rpos", "Int")
		t.assume(eq(k, "(runepos "+it.S+" "+pos+")"))
		t.assumeR(and(reach, ok), fmt.Sprintf("(and (<= %s %s) (< %s (seqlen_Int %s)))", pos, k, k, it.S))
		v := t.fresh("rune", "Int")
		t.assume(eq(v, "(seqat_Int "+rs+" "+pos+")"))
		t.assumeR(and(reach, ok), fmt.Sprintf("(<= 0 %s 1114111)", v))
		t.set(st, key, ite(ok, "(+ "+pos+" 1)", pos))
		fr.vals[x] = Val{K: vTuple, Tup: []Val{{S: ok, T: types.Typ[types.Bool]}, {S: k, T: types.Typ[types.Int]}, {S: v, T: types.Typ[types.Int32]}}}
		return
	}
	m := it.T.Underlying().(*types.Map)
	d, vk := t.keysM(m)
	dom := t.named("dom", "(select "+t.get(st, d)+" "+it.S+")", "(Array "+t.c.goTy(m.Key()).Sort+" Bool)")
	vis := st.vars[key+":visited"]
	ok := t.fresh("more", "Bool")
	k := t.fresh("key", t.c.goTy(m.Key()).Sort)
	t.assumeR(and(reach, ok), fmt.Sprintf("(and (select %s %s) (not (select %s %s)) (< %s (%s %s)))", dom, k, vis, k, pos, t.mapLen(m), dom))
	t.assumeR(and(reach, not(ok)), fmt.Sprintf("(and (= %s (%s %s)) (forall ((k %s)) (! (=> (select %s k) (select %s k)) :pattern ((select %s k)) :pattern ((select %s k)))))", pos, t.mapLen(m), dom, t.c.goTy(m.Key()).Sort, dom, vis, dom, vis))
	t.assumeR(and(reach, ok), t.facts(k, m.Key(), t.get(st, t.keyNext()), 1))
	v := t.fresh("mval", t.c.goTy(m.Elem()).Sort)
	t.assume(eq(v, fmt.Sprintf("(select (select %s %s) %s)", t.get(st, vk), it.S, k)))
	t.assumeR(and(reach, ok), t.facts(v, m.Elem(), t.get(st, t.keyNext()), 1))
	t.set(st, key, ite(ok, "(+ "+pos+" 1)", pos))
	t.set(st, key+":visited", ite(ok, "(store "+vis+" "+k+" true)", vis))
	fr.vals[x] = Val{K: vTuple, Tup: []Val{{S: ok, T: types.Typ[types.Bool]}, {S: k, T: m.Key()}, {S: v, T: m.Elem()}}}
	// the map must not change while it is ranged over for the counts to hold
	t.notes["maps are not modified while ranged over"] = true
}
