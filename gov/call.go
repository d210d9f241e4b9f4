package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"regexp"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type modLoc struct {
	key     string
	whole   bool
	pred    func(r string) string
	partial func(cur, old string) string // relation kept for the modified cell (other fields)
	upd     func(cur, old string) string
	havoc   func(t *Task, cell string) string
	ref     string
	addr    *Addr
}

// effects: which parts of the state code may write
type effects struct {
	keys map[string]bool
	all  bool
}

func newEffects() *effects { return &effects{keys: map[string]bool{}} }

func (e *effects) join(o *effects) {
	if o.all {
		e.all = true
	}
	for k := range o.keys {
		e.keys[k] = true
	}
}

func (v *Verifier) effKey(e *effects, k string, mk func(t *Task)) {
	e.keys[k] = true
	v.keyMakers[k] = mk
}

func (v *Verifier) effH(e *effects, ty types.Type) {
	v.effKey(e, "H:"+typeKey(ty), func(t *Task) { t.keyH(ty) })
}
func (v *Verifier) effA(e *effects, ty types.Type) {
	v.effKey(e, "A:"+typeKey(ty), func(t *Task) { t.keyA(ty) })
}
func (v *Verifier) effM(e *effects, m *types.Map) {
	k := typeKey(m.Key()) + "=>" + typeKey(m.Elem())
	v.effKey(e, "MD:"+k, func(t *Task) { t.keysM(m) })
	v.effKey(e, "MV:"+k, func(t *Task) { t.keysM(m) })
}
func (v *Verifier) effNext(e *effects) {
	v.effKey(e, "next", func(t *Task) { t.keyNext() })
}
func (v *Verifier) effG(e *effects, g string) {
	v.effKey(e, "G:"+g, func(t *Task) { t.keyG(g) })
}

func (v *Verifier) effAddr(e *effects, a ssa.Value) {
	switch x := a.(type) {
	case *ssa.FieldAddr:
		v.effAddr(e, x.X)
		return
	case *ssa.IndexAddr:
		if s, ok := x.X.Type().Underlying().(*types.Slice); ok {
			v.effA(e, s.Elem())
			return
		}
		at := x.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array)
		v.effA(e, at.Elem())
		v.effAddr(e, x.X)
		return
	}
	if pt, ok := a.Type().Underlying().(*types.Pointer); ok {
		if at, ok := pt.Elem().Underlying().(*types.Array); ok {
			v.effA(e, at.Elem())
			return
		}
		v.effH(e, pt.Elem())
	}
}

func (v *Verifier) fnEffects(fn *ssa.Function) *effects {
	if e, ok := v.effCache[fn]; ok {
		return e
	}
	e := newEffects()
	v.effCache[fn] = e // recursion: fixed point by repetition below
	for pass := 0; pass < 3; pass++ {
		n := len(e.keys)
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case *ssa.Store:
					v.effAddr(e, x.Addr)
				case *ssa.Alloc:
					v.effNext(e)
					el := x.Type().(*types.Pointer).Elem()
					if at, ok := el.Underlying().(*types.Array); ok {
						v.effA(e, at.Elem())
					} else {
						v.effH(e, el)
					}
				case *ssa.MakeSlice:
					v.effNext(e)
					v.effA(e, x.Type().Underlying().(*types.Slice).Elem())
				case *ssa.MakeMap:
					v.effNext(e)
					v.effM(e, x.Type().Underlying().(*types.Map))
				case *ssa.MapUpdate:
					v.effM(e, x.Map.Type().Underlying().(*types.Map))
				case *ssa.Convert:
					if s, ok := x.Type().Underlying().(*types.Slice); ok {
						v.effNext(e)
						v.effA(e, s.Elem())
					}
				case *ssa.Call:
					v.callEffects(&x.Call, e)
				case *ssa.Defer:
					v.callEffects(&x.Call, e)
				case *ssa.Go:
					e.all = true
				}
			}
		}
		if len(e.keys) == n && pass > 0 {
			break
		}
	}
	return e
}

func (v *Verifier) contractEffects(con *Contract, e *effects) {
	if con.ModAll {
		e.all = true
	}
	if con.Allocates {
		v.effNext(e)
	}
	for _, w := range con.Writes {
		ty := v.c.specTy(w)
		if ty.G == nil {
			panic(fmt.Sprintf("%s: writes needs Go types", con.Key))
		}
		switch u := types.Unalias(ty.G).(type) {
		case *types.Slice:
			v.effA(e, u.Elem())
		case *types.Map:
			v.effM(e, u)
		default:
			v.effH(e, ty.G)
		}
	}
	for _, g := range con.GhostMods {
		v.effG(e, g)
	}
}

func (v *Verifier) callEffects(c *ssa.CallCommon, e *effects) {
	if c.IsInvoke() {
		if f, _ := v.staticMethod(c); f != nil {
			if con := v.contract(f); con != nil {
				v.contractEffects(con, e)
			}
			if inModuleFn(f) {
				e.join(v.fnEffects(f))
			}
			return
		}
		if con := v.ifaceContract(c); con != nil {
			v.contractEffects(con, e)
			v.implEffects(c, e)
			return
		}
		it := c.Value.Type().Underlying().(*types.Interface)
		if n, ok := types.Unalias(c.Value.Type()).(*types.Named); ok && inModule(n.Obj().Pkg()) {
			_ = it
			v.implEffects(c, e)
			return
		}
		e.all = true
		return
	}
	switch f := c.Value.(type) {
	case *ssa.Builtin:
		switch f.Name() {
		case "append", "copy":
			if s, ok := c.Args[0].Type().Underlying().(*types.Slice); ok {
				v.effNext(e)
				v.effA(e, s.Elem())
			}
		case "delete":
			v.effM(e, c.Args[0].Type().Underlying().(*types.Map))
		}
		return
	case *ssa.MakeClosure:
		e.join(v.fnEffects(f.Fn.(*ssa.Function)))
		return
	case *ssa.Function:
		if f.Synthetic == "package initializer" {
			return
		}
		if isOnceDo(f) {
			v.effH(e, f.Signature.Recv().Type().(*types.Pointer).Elem())
			if con := v.fieldFuncContract(c.Args[1]); con != nil {
				v.contractEffects(con, e)
				if g := v.p.funcs[con.Key]; g != nil {
					e.join(v.fnEffects(g))
				}
				return
			}
			e.all = true
			return
		}
		if con := v.contract(f); con != nil {
			v.contractEffects(con, e)
			if con.Kind == "func" {
				e.join(v.fnEffects(f))
			}
			return
		}
		if inModuleFn(f) {
			e.join(v.fnEffects(f))
			return
		}
		e.all = true
		return
	}
	if con := v.functypeContract(c.Value.Type()); con != nil {
		v.contractEffects(con, e)
		return
	}
	if con := v.fieldFuncContract(c.Value); con != nil {
		v.contractEffects(con, e)
		if g := v.p.funcs[con.Key]; g != nil {
			e.join(v.fnEffects(g))
		}
		return
	}
	// parameters or free variables holding a closure of an inlined caller
	e.all = true
}

// staticMethod finds the method of an interface value made in place from a
// concrete one, and the concrete value.
func (v *Verifier) staticMethod(c *ssa.CallCommon) (*ssa.Function, ssa.Value) {
	x := c.Value
	for {
		ci, ok := x.(*ssa.ChangeInterface)
		if !ok {
			break
		}
		x = ci.X
	}
	mi, ok := x.(*ssa.MakeInterface)
	if !ok {
		return nil, nil
	}
	sel := v.p.prog.MethodSets.MethodSet(mi.X.Type()).Lookup(c.Method.Pkg(), c.Method.Name())
	if sel == nil {
		return nil, nil
	}
	m := v.p.prog.MethodValue(sel)
	if m == nil || v.contract(m) == nil && !inModuleFn(m) {
		return nil, nil
	}
	return m, mi.X
}

func (v *Verifier) implEffects(c *ssa.CallCommon, e *effects) {
	it := c.Value.Type().Underlying().(*types.Interface)
	for _, ty := range v.p.candidates(it) {
		sel := v.p.prog.MethodSets.MethodSet(ty).Lookup(c.Method.Pkg(), c.Method.Name())
		if sel == nil {
			continue
		}
		m := v.p.prog.MethodValue(sel)
		if con := v.contract(m); con != nil {
			v.contractEffects(con, e)
		}
		e.join(v.fnEffects(m))
	}
}

func inModuleFn(f *ssa.Function) bool {
	if len(f.Blocks) == 0 {
		return false
	}
	if f.Pkg != nil {
		return inModule(f.Pkg.Pkg)
	}
	// synthetic wrappers and bound methods have bodies but no package
	if f.Object() != nil && f.Object().Pkg() != nil {
		return inModule(f.Object().Pkg()) || f.Synthetic != ""
	}
	return f.Synthetic != ""
}

func isOnceDo(f *ssa.Function) bool { return f.String() == "(*sync.Once).Do" }

// ---- calls

func (t *Task) call(fr *Frame, c *ssa.CallCommon, fnv Val, args []Val, st *State, reach string, site ssa.Instruction) (Val, *State, string) {
	if c.IsInvoke() {
		return t.invoke(fr, c, fnv, args, st, reach, site)
	}
	if fnv.K == vBuiltin {
		return t.builtin(fr, fnv.S, c, args, st, reach, site)
	}
	if fnv.K == vTerm {
		if cl, ok := t.v.closureTerms[fnv.S]; ok {
			fnv = cl
		}
	}
	if fnv.K == vClosure {
		return t.callFn(fr, fnv.Fn, fnv.Bind, args, st, reach, site)
	}
	// dynamic function value
	if con := t.v.functypeContract(c.Value.Type()); con != nil {
		all := append([]Val{fnv}, args...)
		t.callPre(fr, nil, con.Key, args, st, reach, site)
		return t.applyContract(fr, con, con.Key, c.Signature(), all, nil, st, reach, site, nil)
	}
	if con := t.v.fieldFuncContract(c.Value); con != nil {
		return t.callFieldFunc(fr, con, c.Value, args, st, reach, site)
	}
	t.panicIf(fr, "call of nil function", site.Pos(), reach, eq(t.reify(fnv), "0"))
	t.notes["call of unknown function value in "+fnKeyOf(fr.fn)+" havocs everything"] = true
	return t.havocCall(c.Signature(), st, reach)
}

func (t *Task) havocCall(sig *types.Signature, st *State, reach string) (Val, *State, string) {
	st = st.clone()
	t.havocAll(st)
	return t.results(sig, st, reach, "res"), st, reach
}

func (t *Task) results(sig *types.Signature, st *State, reach, hint string) Val {
	n := sig.Results().Len()
	var rs []Val
	for i := 0; i < n; i++ {
		rs = append(rs, t.term(hint, sig.Results().At(i).Type(), st, reach))
	}
	switch n {
	case 0:
		return Val{K: vTuple}
	case 1:
		return rs[0]
	}
	return Val{K: vTuple, Tup: rs}
}

func (t *Task) callFn(fr *Frame, f *ssa.Function, bind, args []Val, st *State, reach string, site ssa.Instruction) (Val, *State, string) {
	if f.Synthetic == "package initializer" {
		// dependencies are initialized before, they cannot reach this package
		return Val{K: vTuple}, st, reach
	}
	t.callPre(fr, f, fnKeyOf(f), args, st, reach, site)
	if isOnceDo(f) {
		return t.onceDo(fr, args, st, reach, site)
	}
	if con := t.v.contract(f); con != nil && !con.Inline {
		if t.con == con {
			t.notes["recursive call of "+con.Key+" checked against its own contract; termination is not proved"] = true
		}
		if con.Kind == "func" {
			t.callees[con.Key] = true
		}
		all := append(append([]Val{}, args...), bind...)
		return t.applyContract(fr, con, fnKeyOf(f), f.Signature, all, f, st, reach, site, nil)
	}
	if inModuleFn(f) {
		var cb *ssa.BasicBlock
		if site != nil {
			cb = site.Block()
		}
		return t.inline(f, args, bind, st, reach, fr, cb)
	}
	t.notes["no contract for "+f.String()+": call havocs everything"] = true
	for _, a := range args {
		if a.K == vAddr && a.A.Kind == "local" {
			t.forceLocal(a.A.Key)
		}
	}
	return t.havocCall(f.Signature, st, reach)
}

func (t *Task) inline(f *ssa.Function, args, bind []Val, st *State, reach string, fr *Frame, cb *ssa.BasicBlock) (Val, *State, string) {
	for p := fr; p != nil; p = p.parent {
		if p.fn == f {
			// a recursive call is not unrolled: it must be unreachable
			t.oblige(t.name+"/recursion-"+f.Name(), "recursive call of "+fnKeyOf(f)+", which has no contract, must be unreachable", t.p.pos(f.Pos()), reach, "false")
			return Val{}, nil, ""
		}
	}
	return t.execBody(f, args, bind, st.clone(), reach, fr, cb)
}

func (t *Task) onceDo(fr *Frame, args []Val, st *State, reach string, site ssa.Instruction) (Val, *State, string) {
	a := t.addrOf(args[0])
	done := t.shareBool(t.loadRaw(a, st))
	c1 := t.reachBool(and(reach, not(done)))
	c2 := t.reachBool(and(reach, done))
	s1 := st.clone()
	var r1 string
	cc := site.(ssa.CallInstruction).Common()
	f := args[1]
	if f.K == vTerm {
		if cl, ok := t.v.closureTerms[f.S]; ok {
			f = cl
		}
	}
	switch {
	case f.K == vClosure:
		_, s1, r1 = t.callFn(fr, f.Fn, f.Bind, nil, s1, c1, site)
	default:
		con := t.v.fieldFuncContract(cc.Args[1])
		if con == nil {
			t.unsup("sync.Once.Do with an unknown function")
		}
		_, s1, r1 = t.callFieldFunc(fr, con, cc.Args[1], nil, s1, c1, site)
	}
	if s1 != nil {
		t.store(a, s1, "true")
		st, reach = t.merge([]inEdge{{r1, s1, nil}, {c2, st, nil}})
		return Val{K: vTuple}, st, reach
	}
	return Val{K: vTuple}, st, c2
}

// a function value read from a struct field whose only closure is under contract
func (t *Task) callFieldFunc(fr *Frame, con *Contract, v ssa.Value, args []Val, st *State, reach string, site ssa.Instruction) (Val, *State, string) {
	ld := v.(*ssa.UnOp)
	fa := ld.X.(*ssa.FieldAddr)
	base := t.val(fr, fa.X)
	f := t.p.funcs[con.Key]
	t.panicIf(fr, "call of nil function", site.Pos(), reach, eq(t.reify(t.val(fr, v)), "0"))
	// free variables: the struct pointer itself (checked at the store)
	all := append([]Val{}, args...)
	switch {
	case len(f.FreeVars) == 1:
		all = append(all, base)
	case f.Signature.Recv() != nil:
		all = append([]Val{base}, all...)
	}
	t.callees[con.Key] = true
	return t.applyContract(fr, con, con.Key, f.Signature, all, f, st, reach, site, nil)
}

func (v *Verifier) fieldFuncContract(x ssa.Value) *Contract {
	ld, ok := x.(*ssa.UnOp)
	if !ok {
		return nil
	}
	fa, ok := ld.X.(*ssa.FieldAddr)
	if !ok {
		return nil
	}
	pt, ok := fa.X.Type().Underlying().(*types.Pointer)
	if !ok {
		return nil
	}
	n, ok := types.Unalias(pt.Elem()).(*types.Named)
	if !ok {
		return nil
	}
	key := typeKey(n) + "." + n.Underlying().(*types.Struct).Field(fa.Field).Name()
	target, ok := v.fieldFuncs[key]
	if !ok {
		return nil
	}
	return v.contracts[target]
}

// fieldFuncStore checks a store into such a field: the value must be the
// declared closure over the very object.
func (t *Task) fieldFuncStore(fr *Frame, x *ssa.Store, a *Addr, v Val) bool {
	if len(a.Path) == 0 {
		return false
	}
	pt := a.Root
	n, ok := types.Unalias(pt).(*types.Named)
	if !ok {
		return false
	}
	stt, ok := n.Underlying().(*types.Struct)
	if !ok {
		return false
	}
	key := typeKey(n) + "." + stt.Field(a.Path[0].field).Name()
	target, ok := t.v.fieldFuncs[key]
	if !ok {
		return false
	}
	good := v.Fn != nil && fnKeyOf(boundMethod(t.p, v.Fn)) == target && len(v.Bind) <= 1
	if good && len(v.Bind) == 1 {
		b := v.Bind[0]
		if b.K == vAddr {
			good = b.A.Kind == a.Kind && b.A.Ref == a.Ref && b.A.Key == a.Key && len(b.A.Path) == 0
		} else {
			good = a.Kind == "heap" && b.S == a.Ref
		}
	}
	if !good {
		t.oblige(t.name+"/fieldfunc/"+key, "function stored in "+key+" is "+target+" over the object itself", t.p.pos(x.Pos()), "true", "false")
	}
	return true
}

func (t *Task) callPre(fr *Frame, f *ssa.Function, key string, args []Val, st *State, reach string, site ssa.Instruction) {
	if t.con == nil || t.dry > 0 {
		return
	}
	for i, cp := range t.con.CallPre {
		if cp.Callee != key || !cp.Clause.active(t.prop) {
			continue
		}
		env := t.siteEnv(fr, st, site)
		for k, a := range args {
			env.vars[fmt.Sprintf("$%d", k)] = t.sv(a)
		}
		f := t.safeBool(env, cp.Clause, fmt.Sprintf("%s/callpre%d", t.name, i))
		pos := ""
		if site != nil {
			pos = t.p.pos(site.Pos())
		}
		t.v.usedCallPre[fmt.Sprintf("%s/%d", t.con.Key, i)] = true
		t.oblige(fmt.Sprintf("%s/call-%s/pre%d", t.name, cp.Callee, i), cp.Clause.Src, pos, reach, f)
	}
}

func (t *Task) invoke(fr *Frame, c *ssa.CallCommon, recv Val, args []Val, st *State, reach string, site ssa.Instruction) (Val, *State, string) {
	i := t.reify(recv)
	t.panicIf(fr, "method call on nil interface", site.Pos(), reach, "(= (itag "+i+") 0)")
	name := ifaceMethodKey(c)
	t.callPre(fr, nil, name, append([]Val{recv}, args...), st, reach, site)
	if m, x := t.v.staticMethod(c); m != nil {
		if _, ok := fr.vals[x]; ok {
			return t.callFn(fr, m, nil, append([]Val{t.val(fr, x)}, args...), st, reach, site)
		}
	}
	if con := t.v.ifaceContract(c); con != nil {
		all := append([]Val{recv}, args...)
		t.notes["interface contract assumed: "+con.Key] = con.Kind == "iface"
		return t.applyContract(fr, con, con.Key, c.Signature(), all, nil, st, reach, site, nil)
	}
	n, ok := types.Unalias(c.Value.Type()).(*types.Named)
	if !ok || !inModule(n.Obj().Pkg()) {
		t.notes["no contract for "+name+": call havocs everything"] = true
		return t.havocCall(c.Signature(), st, reach)
	}
	cands := t.p.candidates(n.Underlying().(*types.Interface))
	if len(cands) == 0 {
		t.notes["no implementation of "+name+" in the module"] = true
		return t.havocCall(c.Signature(), st, reach)
	}
	t.notes["closed world: "+typeKey(n)+" is implemented only by the module's types"] = true
	var ins []inEdge
	var vals []Val
	var conds []string
	for _, ty := range cands {
		conds = append(conds, fmt.Sprintf("(= (itag %s) %d)", i, t.c.tag(ty)))
	}
	t.assumeR(reach, or(conds...))
	for k, ty := range cands {
		m := t.p.prog.MethodValue(t.p.prog.MethodSets.MethodSet(ty).Lookup(c.Method.Pkg(), c.Method.Name()))
		cond := t.reachBool(and(reach, conds[k]))
		rv := Val{K: vTerm, S: t.named("recv", t.unIface(i, ty), t.c.goTy(ty).Sort), T: ty}
		v, s2, r2 := t.callFn(fr, m, nil, append([]Val{rv}, args...), st.clone(), cond, site)
		if s2 == nil {
			continue
		}
		ins = append(ins, inEdge{r2, s2, nil})
		vals = append(vals, v)
	}
	if len(ins) == 0 {
		return Val{}, nil, ""
	}
	out, rr := t.merge(ins)
	var v Val
	if c.Signature().Results().Len() > 0 {
		rt := types.Type(c.Signature().Results())
		if c.Signature().Results().Len() == 1 {
			rt = c.Signature().Results().At(0).Type()
		}
		v = t.mergeVals(vals, ins, rt, "inv")
	} else {
		v = Val{K: vTuple}
	}
	return v, out, rr
}

func ifaceMethodKey(c *ssa.CallCommon) string {
	return typeKey(c.Value.Type()) + "." + c.Method.Name()
}

// ---- contracts at call sites

func (t *Task) applyContract(fr *Frame, con *Contract, key string, sig *types.Signature, args []Val, f *ssa.Function, st *State, reach string, site ssa.Instruction, _ interface{}) (Val, *State, string) {
	pos := ""
	if site != nil {
		pos = t.p.pos(site.Pos())
	}
	if con.Kind != "func" {
		t.v.usedExterns[con.Key] = true
	}
	pre := st
	if con.Only != nil && !con.Only.active(t.prop) {
		delete(t.callees, con.Key)
		t.oblige(fmt.Sprintf("%s/call-%s/unreachable", t.name, key), key+" is not called here", pos, reach, "false")
		return Val{}, nil, ""
	}
	env := t.contractEnv(con, sig, f, args, pre, pre)
	for i, r := range con.Requires {
		if !r.active(t.prop) {
			continue
		}
		g := t.safeBool(env, r, fmt.Sprintf("%s/call-%s/requires%d", t.name, key, i))
		t.oblige(fmt.Sprintf("%s/call-%s/requires%d", t.name, key, i), "precondition of "+key+": "+r.Src, pos, reach, g)
		t.assumeR(reach, g)
	}
	if con.Nop {
		return t.results(sig, st, reach, "res"), st, reach
	}
	post := st.clone()
	eff := newEffects()
	t.v.contractEffects(con, eff)
	if con.Kind == "func" && f != nil {
		eff.join(t.v.fnEffects(f))
	}
	if eff.all {
		t.havocAll(post)
	} else {
		t.havocFor(con, eff, env, pre, post, reach)
	}
	res := t.results(sig, post, reach, "res")
	env2 := t.contractEnv(con, sig, f, args, post, pre)
	t.bindResults(env2, con, sig, res)
	for _, e := range con.Ensures {
		if !e.active(t.prop) {
			continue
		}
		t.assumeR(reach, t.safeBool(env2, e, key+"/ensures"))
	}
	for _, e := range con.Assumes {
		if !e.active(t.prop) {
			continue
		}
		t.assumeR(reach, t.safeBool(env2, e, key+"/assume"))
	}
	if key == "fmt.Sprintf" && site != nil {
		if e := sprintfMeaning(site, con); e != nil {
			t.assumeR(reach, t.safeBool(env2, e, key+"/format"))
		}
	}
	if (key == "regexp.MustCompile" || key == "regexp.Compile") && site != nil {
		if e := regexpMeaning(site, con); e != nil {
			t.assumeR(reach, t.safeBool(env2, e, key+"/pattern"))
		}
	}
	return res, post, reach
}

// havocFor gives the state after a call with the given frame.
func (t *Task) havocFor(con *Contract, eff *effects, env *Env, pre, post *State, reach string) {
	mods := t.modLocs(con, env)
	byKey := map[string][]modLoc{}
	defer t.blank(post)
	for _, m := range mods {
		if m.addr != nil && m.addr.Kind == "local" {
			// a local passed by address
			n := t.fresh("loc", t.c.goTy(t.addrType(m.addr)).Sort)
			t.assumeR(reach, t.facts(n, t.addrType(m.addr), t.get(pre, t.keyNext()), 1))
			t.store(m.addr, post, n)
			continue
		}
		eff.keys[m.key] = true
		byKey[m.key] = append(byKey[m.key], m)
	}
	next0 := t.get(pre, t.keyNext())
	if eff.keys["next"] {
		n := t.havocKey(post, "next")
		t.assumeR(reach, fmt.Sprintf("(<= %s %s)", next0, n))
	}
	ghostOK := map[string]bool{}
	for _, g := range con.GhostMods {
		ghostOK["G:"+g] = true
	}
	for _, k := range sortedKeys(eff.keys) {
		if k == "next" || strings.HasPrefix(k, "L:") {
			continue
		}
		t.keyKnown(k)
		if strings.HasPrefix(k, "G:") {
			if ghostOK[k] {
				t.havocKey(post, k)
			}
			continue
		}
		old := t.get(pre, k)
		ms := byKey[k]
		if !eff.keys["next"] && len(ms) == 0 {
			continue // writes only to objects it allocates, and it allocates none
		}
		simple := !eff.keys["next"]
		for _, m := range ms {
			if m.whole || m.ref == "" {
				simple = false
			}
		}
		if simple {
			cur := old
			for _, m := range ms {
				cell := t.fresh("cell", t.cellSortOf(k))
				if m.partial != nil {
					t.assumeR(reach, m.partial(cell, "(select "+cur+" "+m.ref+")"))
				}
				cur = "(store " + cur + " " + m.ref + " " + cell + ")"
				t.assumeCellFacts(k, cell, post, reach)
			}
			t.set(post, k, cur)
			continue
		}
		n := t.havocKey(post, k)
		var exc []string
		partial := []string{}
		whole := false
		for i, m := range ms {
			if m.whole {
				whole = true
				continue
			}
			exc = append(exc, not(m.pred("r")))
			if m.partial != nil {
				partial = append(partial, imp(lonely(ms, i, "r"), m.partial("(select "+n+" r)", "(select "+old+" r)")))
			}
		}
		if whole {
			continue
		}
		exc = append([]string{fmt.Sprintf("(< (root r) %s)", next0)}, exc...)
		t.assumeR(reach, fmt.Sprintf("(forall ((r Int)) (! (=> %s (= (select %s r) (select %s r))) :pattern ((select %s r))))", and(exc...), n, old, n))
		if len(partial) > 0 {
			t.assumeR(reach, fmt.Sprintf("(forall ((r Int)) (! %s :pattern ((select %s r))))", and(partial...), n))
		}
	}
}

func (t *Task) cellSortOf(key string) string { return t.arrSort(key) }

func (t *Task) assumeCellFacts(key, cell string, st *State, reach string) {}

func (t *Task) bindResults(env *Env, con *Contract, sig *types.Signature, res Val) {
	n := sig.Results().Len()
	get := func(i int) Val {
		if n == 1 {
			return res
		}
		return res.Tup[i]
	}
	for i := 0; i < n; i++ {
		v := t.sv(get(i))
		v.T = t.c.goTy(sig.Results().At(i).Type())
		if i < len(con.Results) {
			env.vars[con.Results[i]] = v
		}
		if nm := sig.Results().At(i).Name(); nm != "" && len(con.Results) == 0 {
			env.vars[nm] = v
		}
		env.vars[fmt.Sprintf("result%d", i)] = v
		if i == 0 {
			env.vars["result"] = v
		}
	}
}

// ---- builtins

func (t *Task) builtin(fr *Frame, name string, c *ssa.CallCommon, args []Val, st *State, reach string, site ssa.Instruction) (Val, *State, string) {
	rt := types.Type(types.Typ[types.Int])
	if v, ok := site.(ssa.Value); ok {
		rt = v.Type()
	}
	tv := func(s string) (Val, *State, string) {
		return Val{S: t.named("bi", s, t.c.goTy(rt).Sort), T: rt}, st, reach
	}
	switch name {
	case "len", "cap":
		a := args[0]
		aty := c.Args[0].Type()
		if pt, ok := aty.Underlying().(*types.Pointer); ok {
			aty = pt.Elem()
		}
		switch u := aty.Underlying().(type) {
		case *types.Slice:
			if name == "len" {
				return tv("(slen " + t.reify(a) + ")")
			}
			return tv("(scap " + t.reify(a) + ")")
		case *types.Array:
			return tv(fmt.Sprint(u.Len()))
		case *types.Map:
			d, _ := t.keysM(u)
			m := t.reify(a)
			return tv(ite(eq(m, "0"), "0", "("+t.mapLen(u)+" (select "+t.get(st, d)+" "+m+"))"))
		case *types.Basic:
			return tv("(seqlen_Int " + t.reify(a) + ")")
		}
	case "append":
		return t.appendOp(fr, c, args, st, reach, rt)
	case "copy":
		d, s := t.reify(args[0]), t.reify(args[1])
		el := c.Args[0].Type().Underlying().(*types.Slice).Elem()
		k := t.keyA(el)
		if t.c.goTy(c.Args[1].Type()).Sort == "Seq_Int" {
			t.unsup("copy from string")
		}
		n := t.fresh("n", "Int")
		t.assume(eq(n, fmt.Sprintf("(ite (< (slen %s) (slen %s)) (slen %s) (slen %s))", d, s, d, s)))
		es := t.c.goTy(el).Sort
		t.c.seqSort(es)
		_, blend := t.c.arrOps(es, t.c.zero(el))
		h := t.get(st, k)
		arr := t.fresh("cp", t.arrSort(k))
		t.assume(eq(arr, fmt.Sprintf("(%s (select %s (sref %s)) (soff %s) (select %s (sref %s)) (soff %s) %s)", blend, h, d, d, h, s, s, n)))
		t.set(st, k, fmt.Sprintf("(store %s (sref %s) %s)", h, d, arr))
		return tv(n)
	case "delete":
		m := c.Args[0].Type().Underlying().(*types.Map)
		d, _ := t.keysM(m)
		mv, k := t.reify(args[0]), t.reify(args[1])
		ds := "(Array " + t.c.goTy(m.Key()).Sort + " Bool)"
		od := t.named("dom", "(select "+t.get(st, d)+" "+mv+")", ds)
		nd := t.named("dom", "(store "+od+" "+k+" false)", ds)
		ml := t.mapLen(m)
		t.assumeR(reach, fmt.Sprintf("(= (%s %s) (ite (select %s %s) (- (%s %s) 1) (%s %s)))", ml, nd, od, k, ml, od, ml, od))
		t.set(st, d, "(store "+t.get(st, d)+" "+mv+" "+nd+")")
		return Val{K: vTuple}, st, reach
	case "print", "println":
		return Val{K: vTuple}, st, reach
	case "min", "max":
		op := "<="
		if name == "max" {
			op = ">="
		}
		r := t.reify(args[0])
		for _, a := range args[1:] {
			s := t.reify(a)
			r = "(ite (" + op + " " + r + " " + s + ") " + r + " " + s + ")"
		}
		return tv(r)
	case "ssa:wrapnilchk":
		return args[0], st, reach
	case "recover":
		return Val{S: "(mk-iface 0 0)", T: rt}, st, reach
	}
	t.unsup("builtin %s", name)
	return Val{}, nil, ""
}

func (t *Task) appendOp(fr *Frame, c *ssa.CallCommon, args []Val, st *State, reach string, rt types.Type) (Val, *State, string) {
	s := t.reify(args[0])
	el := rt.Underlying().(*types.Slice).Elem()
	k := t.keyA(el)
	es := t.c.goTy(el).Sort
	seqof := t.elemSeqOf(el)
	ek := sanitize(es)
	mask, blend := t.c.arrOps(es, t.c.zero(el))
	h := t.get(st, k)
	base := t.named("base", fmt.Sprintf("(select %s (sref %s))", h, s), t.arrSort(k))
	var m, srcSeq string
	var elems []string
	if t.c.goTy(c.Args[1].Type()).Sort == "Seq_Int" {
		x := t.reify(args[1])
		m = t.named("m", "(seqlen_Int "+x+")", "Int")
		srcSeq = x
	} else {
		x := t.reify(args[1])
		if x == "(mk-slice 0 0 0 0)" {
			return args[0], st, reach
		}
		if n, ok := varargsLen(c.Args[1]); ok && n <= 4 {
			m = fmt.Sprint(n)
			for i := 0; i < n; i++ {
				e := fmt.Sprintf("(select (select %s (sref %s)) %s)", h, x, addInt("(soff "+x+")", fmt.Sprint(i)))
				elems = append(elems, t.named("el", e, es))
			}
		} else {
			m = t.named("m", "(slen "+x+")", "Int")
		}
		srcSeq = fmt.Sprintf("(%s (select %s (sref %s)) (soff %s) %s)", seqof, h, x, x, m)
	}
	n := t.named("n", "(slen "+s+")", "Int")
	fits := t.shareBool(fmt.Sprintf("(<= (+ %s %s) (scap %s))", n, m, s))
	if m == "0" {
		return args[0], st, reach
	}
	r := t.alloc(st)
	arr := t.fresh("app", t.arrSort(k))
	off := t.named("off", "(soff "+s+")", "Int")
	end := t.named("end", "(+ "+off+" "+n+")", "Int")
	start := t.fresh("start", t.arrSort(k))
	t.assume(eq(start, ite(fits, base, fmt.Sprintf("(%s %s %s)", mask, base, end))))
	if elems != nil {
		x := start
		for i, e := range elems {
			x = fmt.Sprintf("(store %s %s %s)", x, addInt(end, fmt.Sprint(i)), e)
		}
		t.assume(eq(arr, x))
		rhs := fmt.Sprintf("(%s %s %s %s)", seqof, base, off, n)
		for _, e := range elems {
			rhs = fmt.Sprintf("(seqcat_%s %s (sequnit_%s %s))", ek, rhs, ek, e)
		}
		t.assumeR(reach, eq(fmt.Sprintf("(%s %s %s (+ %s %s))", seqof, arr, off, n, m), rhs))
	} else if srcSeq != "" && strings.HasPrefix(srcSeq, "("+seqof) {
		x := t.reify(args[1])
		t.assume(eq(arr, fmt.Sprintf("(%s %s %s (select %s (sref %s)) (soff %s) %s)", blend, start, end, h, x, x, m)))
		t.assumeR(reach, eq(fmt.Sprintf("(%s %s %s (+ %s %s))", seqof, arr, off, n, m), fmt.Sprintf("(seqcat_%s (%s %s %s %s) %s)", ek, seqof, base, off, n, srcSeq)))
	} else {
		t.assumeR(reach, fmt.Sprintf("(forall ((i Int)) (! (= (select %s i) (ite (and (<= %s i) (< i (+ %s %s))) (seqat_Int %s (- i %s)) (select %s i))) :pattern ((select %s i))))", arr, end, end, m, srcSeq, end, start, arr))
		t.assumeR(reach, eq(fmt.Sprintf("(%s %s %s (+ %s %s))", seqof, arr, off, n, m), fmt.Sprintf("(seqcat_%s (%s %s %s %s) %s)", ek, seqof, base, off, n, srcSeq)))
	}
	tr := t.named("tr", ite(fits, "(sref "+s+")", r), "Int")
	if m != "1" && elems == nil {
		// appending nothing leaves the slice alone
		z := t.shareBool(eq(m, "0"))
		t.set(st, k, ite(z, h, "(store "+h+" "+tr+" "+arr+")"))
		cp := t.fresh("cap", "Int")
		t.assume(fmt.Sprintf("(and (>= %s (+ %s %s)) (<= (+ %s %s) 281474976710656))", cp, n, m, off, cp))
		res := t.fresh("aps", "Slice")
		t.assume(eq(res, ite(z, s, fmt.Sprintf("(mk-slice %s %s (+ %s %s) %s)", tr, off, n, m, ite(fits, "(scap "+s+")", cp)))))
		return Val{S: res, T: rt}, st, reach
	}
	t.set(st, k, "(store "+h+" "+tr+" "+arr+")")
	cp := t.fresh("cap", "Int")
	t.assume(imp(not(fits), fmt.Sprintf("(and (>= %s (+ %s %s)) (<= (+ %s %s) 281474976710656))", cp, n, m, off, cp)))
	t.assume(imp(fits, eq(cp, "(scap "+s+")")))
	res := t.fresh("aps", "Slice")
	t.assume(eq(res, fmt.Sprintf("(mk-slice %s %s (+ %s %s) %s)", tr, off, n, m, cp)))
	return Val{S: res, T: rt}, st, reach
}

func varargsLen(v ssa.Value) (int, bool) {
	sl, ok := v.(*ssa.Slice)
	if !ok || sl.Low != nil || sl.High != nil {
		return 0, false
	}
	a, ok := sl.X.(*ssa.Alloc)
	if !ok {
		return 0, false
	}
	at, ok := a.Type().(*types.Pointer).Elem().Underlying().(*types.Array)
	if !ok {
		return 0, false
	}
	return int(at.Len()), true
}

// sprintfMeaning is what fmt.Sprintf does with a constant format made of text,
// %s for strings and %d for ints; nil for any other format.
func sprintfMeaning(site ssa.Instruction, con *Contract) *Clause {
	ci, ok := site.(ssa.CallInstruction)
	if !ok || len(ci.Common().Args) == 0 || len(con.Params) != 2 || len(con.Results) != 1 {
		return nil
	}
	c, ok := ci.Common().Args[0].(*ssa.Const)
	if !ok || c.Value == nil || c.Value.Kind() != constant.String {
		return nil
	}
	f := constant.StringVal(c.Value)
	quote := func(s string) string {
		r := strings.NewReplacer("\\", "\\\\", "\"", "\\\"", "\n", "\\n", "\t", "\\t")
		return "\"" + r.Replace(s) + "\""
	}
	var parts, guards []string
	text, n := "", 0
	for i := 0; i < len(f); i++ {
		if f[i] != '%' {
			text += f[i : i+1]
			continue
		}
		i++
		if i == len(f) {
			return nil
		}
		switch f[i] {
		case '%':
			text += "%"
			continue
		case 's', 'd':
			if text != "" {
				parts = append(parts, quote(text))
				text = ""
			}
			a := fmt.Sprintf("%s[%d]", con.Params[1], n)
			if f[i] == 's' {
				guards = append(guards, "is("+a+", string)")
				parts = append(parts, "dyn("+a+", string)")
			} else {
				guards = append(guards, "is("+a+", int)")
				parts = append(parts, "decimal(dyn("+a+", int))")
			}
			n++
		default:
			return nil
		}
	}
	if text != "" || len(parts) == 0 {
		parts = append(parts, quote(text))
	}
	guards = append(guards, fmt.Sprintf("len(%s) == %d", con.Params[1], n))
	src := strings.Join(guards, " && ") + " ==> " + con.Results[0] + " == " + strings.Join(parts, " ++ ")
	p := &parser{file: "fmt.Sprintf", src: src, toks: lexSpec("fmt.Sprintf", src)}
	return p.clause()
}

// regexpMeaning is what regexp/syntax knows about a constant pattern: that it
// is valid and the number of its groups.
func regexpMeaning(site ssa.Instruction, con *Contract) *Clause {
	ci, ok := site.(ssa.CallInstruction)
	if !ok || len(ci.Common().Args) == 0 || len(con.Params) != 1 {
		return nil
	}
	c, ok := ci.Common().Args[0].(*ssa.Const)
	if !ok || c.Value == nil || c.Value.Kind() != constant.String {
		return nil
	}
	re, err := regexp.Compile(constant.StringVal(c.Value))
	src := fmt.Sprintf("!revalid(%s)", con.Params[0])
	if err == nil {
		src = fmt.Sprintf("revalid(%s) && regroups(%s) == %d", con.Params[0], con.Params[0], re.NumSubexp())
	}
	p := &parser{file: "regexp", src: src, toks: lexSpec("regexp", src)}
	return p.clause()
}
