package main

import (
	"fmt"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Verifier holds the specification and generates obligations.
type Verifier struct {
	c       *Ctx
	p       *Program
	trivial int

	ghosts     []*GhostVar
	funs       map[string]*SpecFun
	funTy      map[string]*Ty
	lemmas     map[string]*AxiomDecl
	lemmaOrder []string
	axiomDecls []*AxiomDecl
	contracts  map[string]*Contract
	fieldFuncs map[string]string

	usedLoops   map[string]bool
	usedCallPre map[string]bool
	dropped     map[string]bool // guessed invariants that do not hold
	usedExterns map[string]bool
	usedLemmas  map[string]bool

	localAllocs    map[string]ssa.Value
	localTypes     map[string]types.Type
	closureLocals  map[string]Val
	closureTerms   map[string]Val
	iterInv        map[string]func(*Task, *State) string
	keyMakers      map[string]func(*Task)
	effCache       map[*ssa.Function]*effects
	mutableGlobals map[string]bool
	specErrors     []string
}

func newVerifier(repo string, specs []string) (*Verifier, error) {
	p, err := loadProgram(repo)
	if err != nil {
		return nil, err
	}
	c := newCtx()
	v := &Verifier{c: c, p: p, funs: map[string]*SpecFun{}, funTy: map[string]*Ty{}, lemmas: map[string]*AxiomDecl{},
		contracts: map[string]*Contract{}, fieldFuncs: map[string]string{},
		usedLoops: map[string]bool{}, usedCallPre: map[string]bool{}, dropped: map[string]bool{}, usedExterns: map[string]bool{}, usedLemmas: map[string]bool{},
		keyMakers: map[string]func(*Task){}, effCache: map[*ssa.Function]*effects{}, mutableGlobals: map[string]bool{}}
	c.prog = p
	c.v = v
	v.resetTask()
	var argFuncs []ArgFunc
	for _, f := range specs {
		sf := parseSpec(f)
		for _, m := range sf.Models {
			p.models[m.Key] = m.Type
		}
		for k, x := range sf.FieldFuncs {
			v.fieldFuncs[k] = x
		}
		argFuncs = append(argFuncs, sf.ArgFuncs...)
		v.ghosts = append(v.ghosts, sf.Ghosts...)
		for _, x := range sf.Funs {
			if v.funs[x.Name] != nil {
				return nil, fmt.Errorf("spec function %s declared twice", x.Name)
			}
			v.funs[x.Name] = x
		}
		for _, x := range sf.Contracts {
			if v.contracts[x.Key] != nil {
				return nil, fmt.Errorf("contract of %s declared twice", x.Key)
			}
			v.contracts[x.Key] = x
		}
		for _, x := range sf.Axioms {
			if v.lemmas[x.Name] != nil {
				return nil, fmt.Errorf("lemma %s declared twice", x.Name)
			}
			v.lemmas[x.Name] = x
			v.lemmaOrder = append(v.lemmaOrder, x.Name)
			v.axiomDecls = append(v.axiomDecls, x)
		}
		for _, s := range sf.Smt {
			v.rawSmt(s)
		}
	}
	v.bindFieldFuncs()
	for _, a := range argFuncs {
		if err := v.bindArgFunc(a); err != nil {
			return nil, err
		}
	}
	for _, con := range v.contracts {
		us := con.Uses
		for _, l := range con.Loops {
			us = append(append([]*Clause{}, us...), l.Uses...)
		}
		for _, u := range us {
			if n := nonLemma(v, u.E); n != "" {
				return nil, fmt.Errorf("%s: use of %s, which is no lemma", con.Key, n)
			}
		}
	}
	for _, a := range v.axiomDecls {
		if len(a.Trig) > 0 {
			if err := v.declLemma(a); err != nil {
				// the lemma names something the source no longer has
				v.specErrors = append(v.specErrors, err.Error())
			}
		}
	}
	return v, nil
}

// bindFieldFuncs finds the function that is kept in a field when the one named
// is gone: the contract goes with the role, not with the name.
func (v *Verifier) bindFieldFuncs() {
	var keys []string
	for k := range v.fieldFuncs {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		target := v.fieldFuncs[k]
		if f := v.p.funcs[target]; f != nil && !strings.Contains(target, "$") {
			continue
		}
		found := ""
		for _, st := range v.p.fstores[k] {
			x := st.Val
			if ct, ok := x.(*ssa.ChangeType); ok {
				x = ct.X
			}
			var f *ssa.Function
			switch y := x.(type) {
			case *ssa.MakeClosure:
				f = y.Fn.(*ssa.Function)
			case *ssa.Function:
				f = y
			default:
				continue
			}
			n := fnKeyOf(boundMethod(v.p, f))
			if found != "" && found != n {
				found = "?"
				break
			}
			found = n
		}
		if found == "" || found == "?" || found == target || v.p.funcs[found] == nil || v.contracts[found] != nil {
			continue
		}
		if con := v.contracts[target]; con != nil {
			delete(v.contracts, target)
			con.Key = found
			v.contracts[found] = con
		}
		v.fieldFuncs[k] = found
	}
}

// bindArgFunc puts the contract of a.Target on the function that is passed to
// a.Callee from its package, whatever it is called now.
func (v *Verifier) bindArgFunc(a ArgFunc) error {
	con := v.contracts[a.Target]
	if con == nil {
		return fmt.Errorf("argfunc %s: no contract of %s", a.Callee, a.Target)
	}
	pkg := a.Target[:strings.LastIndex(a.Target, ".")]
	if i := strings.Index(pkg, ")"); i >= 0 {
		pkg = pkg[:i]
		pkg = strings.TrimLeft(pkg[:strings.LastIndex(pkg, ".")], "(*")
	}
	found := map[string]bool{}
	var see func(x ssa.Value, depth int)
	see = func(x ssa.Value, depth int) {
		switch y := x.(type) {
		case *ssa.ChangeType:
			see(y.X, depth)
			return
		case *ssa.Phi:
			if depth < 4 {
				for _, e := range y.Edges {
					see(e, depth+1)
				}
				return
			}
		case *ssa.MakeClosure:
			found[fnKeyOf(boundMethod(v.p, y.Fn.(*ssa.Function)))] = true
			return
		case *ssa.Function:
			found[fnKeyOf(y)] = true
			return
		case *ssa.Call:
			if g := y.Call.StaticCallee(); g != nil && depth < 4 && len(g.Blocks) > 0 {
				for _, b := range g.Blocks {
					if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && len(r.Results) == 1 {
						see(r.Results[0], depth+1)
					}
				}
				return
			}
		}
		found["?"] = true
	}
	var keys []string
	for k := range v.p.funcs {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		f := v.p.funcs[k]
		root := f
		for root.Parent() != nil {
			root = root.Parent()
		}
		if root.Pkg == nil || !strings.HasSuffix(root.Pkg.Pkg.Path(), "/"+pkg) {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				c, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				if g := c.Common().StaticCallee(); g != nil && fnKeyOf(g) == a.Callee && a.Arg < len(c.Common().Args) {
					see(c.Common().Args[a.Arg], 0)
				}
			}
		}
	}
	if len(found) != 1 || found["?"] {
		return nil
	}
	for n := range found {
		if n != a.Target && v.contracts[n] == nil && v.p.funcs[n] != nil {
			delete(v.contracts, a.Target)
			con.Key = n
			v.contracts[n] = con
		}
	}
	return nil
}

// boundMethod gives the method behind a method value.
func boundMethod(p *Program, f *ssa.Function) *ssa.Function {
	if strings.HasSuffix(f.Name(), "$bound") {
		if o, ok := f.Object().(*types.Func); ok {
			if m := p.prog.FuncValue(o); m != nil {
				return m
			}
		}
	}
	return f
}

func nonLemma(v *Verifier, e *Expr) string {
	switch e.Op {
	case "call":
		if v.lemmas[e.Name] == nil {
			return e.Name
		}
	case "==>":
		return nonLemma(v, e.Args[1])
	case "forall":
		return nonLemma(v, e.Args[0])
	case "&&":
		if n := nonLemma(v, e.Args[0]); n != "" {
			return n
		}
		return nonLemma(v, e.Args[1])
	}
	return ""
}

func loadSpecs(dir string) []string {
	fs, _ := filepath.Glob(filepath.Join(dir, "*.gov"))
	sort.Strings(fs)
	return fs
}

// rawSmt registers raw declarations: "sym: (declare-fun ...)" or "axiom name keys: (...)"
func (v *Verifier) rawSmt(s string) {
	i := strings.Index(s, ":")
	head, body := strings.Fields(s[:i]), strings.TrimSpace(s[i+1:])
	if head[0] == "axiom" {
		v.c.reg.axiom("axiom", head[1], body, head[2:])
		return
	}
	v.c.reg.declare(head[0], body)
}

func (v *Verifier) resetTask() {
	v.localAllocs = map[string]ssa.Value{}
	v.localTypes = map[string]types.Type{}
	v.closureLocals = map[string]Val{}
	v.closureTerms = map[string]Val{}
	v.iterInv = map[string]func(*Task, *State) string{}
}

func (v *Verifier) ghost(name string) *GhostVar {
	for _, g := range v.ghosts {
		if g.Name == name {
			return g
		}
	}
	return nil
}

func (v *Verifier) contract(f *ssa.Function) *Contract {
	c := v.contracts[fnKeyOf(f)]
	if c != nil && (c.Kind == "func" || c.Kind == "extern") {
		return c
	}
	return nil
}

func (v *Verifier) ifaceContract(c *ssa.CallCommon) *Contract {
	k := ifaceMethodKey(c)
	if con := v.contracts[k]; con != nil && con.Kind == "iface" {
		return con
	}
	// the method may be declared by an embedded interface
	if sig := c.Method.Type().(*types.Signature); sig.Recv() != nil {
		k = typeKey(sig.Recv().Type()) + "." + c.Method.Name()
		if con := v.contracts[k]; con != nil && con.Kind == "iface" {
			return con
		}
	}
	return nil
}

func (v *Verifier) functypeContract(t types.Type) *Contract {
	if con := v.contracts[typeKey(t)]; con != nil && con.Kind == "functype" {
		return con
	}
	return nil
}

// ---- spec functions

func (v *Verifier) readSorts(r *TypeExpr) []string {
	if r.Kind == "name" && v.ghost(r.Name) != nil {
		return []string{v.c.specTy(v.ghost(r.Name).Type).Sort}
	}
	ty := v.c.specTy(r)
	switch u := types.Unalias(ty.G).(type) {
	case *types.Slice:
		return []string{"(Array Int (Array Int " + v.c.goTy(u.Elem()).Sort + "))"}
	case *types.Map:
		k := v.c.goTy(u.Key()).Sort
		return []string{"(Array Int (Array " + k + " Bool))", "(Array Int (Array " + k + " " + v.c.goTy(u.Elem()).Sort + "))"}
	}
	return []string{"(Array Int " + ty.Sort + ")"}
}

// binders for parameters and heaps of a spec function or lemma
func (v *Verifier) binders(params []VarDecl, reads []*TypeExpr) (bs []string, names []string, sorts []string, env *Env) {
	env = &Env{c: v.c, vars: map[string]SV{}, heaps: map[string]string{}}
	for i, p := range params {
		ty := v.c.specTy(p.Type)
		n := fmt.Sprintf("p%d.%s", i, sanitize(p.Name))
		bs = append(bs, fmt.Sprintf("(%s %s)", n, ty.Sort))
		names = append(names, n)
		sorts = append(sorts, ty.Sort)
		env.vars[p.Name] = SV{S: n, T: ty}
	}
	for _, r := range reads {
		keys := env.readKeys(nil, r)
		ss := v.readSorts(r)
		for i, k := range keys {
			n := "h." + sanitize(k)
			bs = append(bs, fmt.Sprintf("(%s %s)", n, ss[i]))
			names = append(names, n)
			sorts = append(sorts, ss[i])
			env.heaps[k] = n
		}
	}
	return
}

func (v *Verifier) specFun(f *SpecFun) *Ty {
	if t, ok := v.funTy[f.Name]; ok {
		return t
	}
	rt := v.c.specTy(f.Result)
	v.funTy[f.Name] = rt
	bs, names, sorts, env := v.binders(f.Params, f.Reads)
	sym := "f." + f.Name
	v.c.reg.declare(sym, fmt.Sprintf("(declare-fun %s (%s) %s)", sym, strings.Join(sorts, " "), rt.Sort))
	app := func(s string) string {
		if len(names) == 0 {
			return s
		}
		return "(" + s + " " + strings.Join(names, " ") + ")"
	}
	all := func(body, pat string) string {
		if len(bs) == 0 {
			return body
		}
		return fmt.Sprintf("(forall (%s) (! %s :pattern (%s)))", strings.Join(bs, " "), body, pat)
	}
	if f.Fuel {
		s0 := "f0." + f.Name
		v.c.reg.declare(s0, fmt.Sprintf("(declare-fun %s (%s) %s)", s0, strings.Join(sorts, " "), rt.Sort))
		v.c.reg.axiom("def", sym+"-fuel", all(eq(app(sym), app(s0)), app(sym)), []string{sym})
		env.limit = map[string]bool{f.Name: true}
	}
	if f.Body == nil {
		return rt
	}
	b := env.coerce(f.Body, env.eval(f.Body), rt)
	v.c.reg.axiom("def", sym+"-def", all(eq(app(sym), b.S), app(sym)), []string{sym})
	return rt
}

// ---- axioms and lemmas

func (v *Verifier) declLemma(a *AxiomDecl) (err error) {
	defer func() {
		if r := recover(); r != nil {
			if s, ok := r.(specErr); ok {
				err = fmt.Errorf("%s: %s", a.Name, s.msg)
				return
			}
			panic(r)
		}
	}()
	bs, _, _, env := v.binders(a.Vars, a.Reads)
	var pats []string
	var keys []string
	for _, g := range a.Trig {
		var ts []string
		for _, x := range g {
			t := env.eval(x)
			ts = append(ts, t.S)
			if len(keys) == 0 {
				keys = nil
			}
		}
		pats = append(pats, ":pattern ("+strings.Join(ts, " ")+")")
	}
	var groups [][]string
	for _, g := range a.Trig {
		var ks []string
		for _, x := range g {
			t := env.eval(x)
			for _, s := range symTokens(t.S) {
				if v.c.reg.find(s) != nil {
					ks = append(ks, s)
				}
			}
		}
		groups = append(groups, ks)
	}
	_ = keys
	body := imp(v.conj(env, a.Req), v.conj(env, a.Ens))
	if len(bs) > 0 {
		body = fmt.Sprintf("(forall (%s) (! %s %s))", strings.Join(bs, " "), body, strings.Join(pats, " "))
	}
	v.c.reg.axiom(a.Kind, a.Name, body, groups...)
	return nil
}

func (v *Verifier) conj(env *Env, xs []*Expr) string {
	var out []string
	for _, x := range xs {
		out = append(out, env.boolT(x))
	}
	return and(out...)
}

// lemmaInst is the instance of a proved lemma (or axiom) at the given arguments.
func (e *Env) lemmaInst(x *Expr, l *AxiomDecl) SV {
	if len(x.Args) != len(l.Vars) {
		e.fail(x, "%s takes %d arguments", l.Name, len(l.Vars))
	}
	e.c.v.usedLemmas[l.Name] = true
	n := *e
	n.vars = map[string]SV{}
	n.lookup = nil
	for i, p := range l.Vars {
		n.vars[p.Name] = e.coerce(x, e.eval(x.Args[i]), e.c.specTy(p.Type))
	}
	return SV{S: imp(e.c.v.conj(&n, l.Req), e.c.v.conj(&n, l.Ens)), T: tyBool}
}

// proveLemma makes the proof obligations of a lemma.
func (v *Verifier) proveLemma(a *AxiomDecl, prop string) (t *Task) {
	t = v.newTask(nil, nil, prop)
	t.name = prop + "/lemma-" + a.Name
	defer func() {
		if r := recover(); r != nil {
			if s, ok := r.(specErr); ok {
				t.fail(t.name+"/spec-error", s.msg)
				return
			}
			panic(r)
		}
	}()
	_, names, sorts, env := v.binders(a.Vars, a.Reads)
	for i, n := range names {
		t.reg.declare(n, fmt.Sprintf("(declare-const %s %s)", n, sorts[i]))
	}
	excl := map[string]bool{}
	seen := false
	for _, o := range v.lemmaOrder {
		if o == a.Name {
			seen = true
		}
		if seen && v.lemmas[o].Kind == "lemma" {
			excl[o] = true
		}
	}
	t.assume(v.conj(env, a.Req))
	if a.Induct != "" {
		ind := env.vars[a.Induct].S
		var bs []string
		e2 := *env
		e2.vars = map[string]SV{}
		for k, x := range env.vars {
			e2.vars[k] = x
		}
		for _, p := range a.Vars {
			qn++
			n := fmt.Sprintf("ih%d", qn)
			bs = append(bs, fmt.Sprintf("(%s %s)", n, env.vars[p.Name].T.Sort))
			e2.vars[p.Name] = SV{S: n, T: env.vars[p.Name].T}
		}
		in := e2.vars[a.Induct].S
		hyp := imp(and("(<= 0 "+in+")", "(< "+in+" "+ind+")", v.conj(&e2, a.Req)), v.conj(&e2, a.Ens))
		var pats []string
		for _, g := range a.Trig {
			var ts []string
			for _, x := range g {
				ts = append(ts, e2.eval(x).S)
			}
			pats = append(pats, ":pattern ("+strings.Join(ts, " ")+")")
		}
		if len(pats) > 0 {
			hyp = "(! " + hyp + " " + strings.Join(pats, " ") + ")"
			t.assume("(forall (" + strings.Join(bs, " ") + ") " + hyp + ")")
		}
	}
	for _, h := range a.Hints {
		t.assume(v.hint(env, a, h))
	}
	for i, x := range a.Ens {
		t.oblige(fmt.Sprintf("%s/ensures%d", t.name, i), "lemma "+a.Name, fmt.Sprintf("%s:%d", filepath.Base(a.File), a.Line), "true", env.boolT(x))
	}
	for _, o := range t.obs {
		o.Excl = excl
	}
	return t
}

// hint: an instance of the induction hypothesis or of an earlier lemma, or a
// term to consider (p || !p).
func (v *Verifier) hint(env *Env, a *AxiomDecl, h *Expr) string {
	if h.Op == "==>" {
		return imp(env.boolT(h.Args[0]), v.hint(env, a, h.Args[1]))
	}
	if h.Op == "call" && h.Name == a.Name && a.Induct != "" {
		n := *env
		n.vars = map[string]SV{}
		for i, p := range a.Vars {
			n.vars[p.Name] = env.coerce(h, env.eval(h.Args[i]), v.c.specTy(p.Type))
		}
		in := n.vars[a.Induct].S
		return imp(and("(<= 0 "+in+")", "(< "+in+" "+env.vars[a.Induct].S+")", v.conj(&n, a.Req)), v.conj(&n, a.Ens))
	}
	if h.Op == "call" {
		if l := v.lemmas[h.Name]; l != nil {
			// only earlier lemmas
			for _, o := range v.lemmaOrder {
				if o == a.Name {
					panic(specErr{"lemma " + a.Name + " uses the later lemma " + h.Name})
				}
				if o == h.Name {
					break
				}
			}
			return env.lemmaInst(h, l).S
		}
	}
	s := env.boolT(h)
	return or(s, "(not "+s+")")
}

// ---- environments

func (t *Task) contractEnv(con *Contract, sig *types.Signature, f *ssa.Function, args []Val, st, old *State) *Env {
	e := &Env{t: t, c: t.c, vars: map[string]SV{}, st: st, old: old}
	for i, a := range args {
		s := t.sv(a)
		if a.K == vTerm || a.K == vAddr {
			// keep the declared type
		}
		if f != nil {
			if i < len(f.Params) {
				if len(con.Params) == 0 && f.Params[i].Name() != "" {
					e.vars[f.Params[i].Name()] = s
				}
			} else if len(con.Params) == 0 && i-len(f.Params) < len(f.FreeVars) {
				e.vars[f.FreeVars[i-len(f.Params)].Name()] = s
			}
		}
		if i < len(con.Params) {
			e.vars[con.Params[i]] = s
		}
	}
	return e
}

func (t *Task) entryVars() map[string]SV {
	m := map[string]SV{}
	if t.entryEn != nil {
		for k, x := range t.entryEn.vars {
			m[k] = x
		}
	}
	return m
}

func (t *Task) entryLookup(name string) (SV, bool) {
	if t.rootFr != nil {
		for _, p := range t.rootFr.fn.Params {
			if p.Name() == name {
				return t.sv(t.rootFr.vals[p]), true
			}
		}
	}
	return SV{}, false
}

func (t *Task) iterIndex(fr *Frame, lp *loopInfo, st *State, phi func(*ssa.Phi) Val) (SV, bool) {
	for _, in := range lp.head.Instrs {
		if ph, ok := in.(*ssa.Phi); ok && ph.Comment == "rangeindex" {
			return SV{S: "(+ " + t.reify(phi(ph)) + " 1)", T: tyInt}, true
		}
	}
	for _, in := range lp.head.Instrs {
		if nx, ok := in.(*ssa.Next); ok {
			if it, ok := fr.vals[nx.Iter]; ok {
				if s, ok := st.vars[it.Tup[0].S]; ok {
					return SV{S: s, T: tyInt}, true
				}
			}
		}
	}
	back := "" // a counter that goes down
	for _, in := range lp.head.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok || t.c.goTy(ph.Type()).Sort != "Int" {
			continue
		}
		up, down := true, true
		for k, p := range lp.head.Preds {
			if lp.body[p] {
				d, ok := constStep(ph.Edges[k], ph)
				if !ok || d != 1 {
					up = false
				}
				if !ok || d != -1 {
					down = false
				}
			}
		}
		if up {
			return t.sv(phi(ph)), true
		}
		if in, ok := lp.phiIn[ph]; ok && down {
			back = fmt.Sprintf("(- %s %s)", t.reify(in), t.reify(phi(ph)))
		}
	}
	if back != "" {
		return SV{S: back, T: tyInt}, true
	}
	return SV{}, false
}

func (t *Task) loopEnv(fr *Frame, lp *loopInfo, st *State, phi func(*ssa.Phi) Val) *Env {
	mk := func(st *State, phi func(*ssa.Phi) Val) *Env {
		e := &Env{t: t, c: t.c, vars: t.entryVars(), st: st, old: t.entry}
		e.lookup = func(name string) (SV, bool) {
			switch {
			case name == "$i":
				return t.iterIndex(fr, lp, st, phi)
			case strings.HasPrefix(name, "$i") && len(name) > 2:
				for f := fr; f != nil; f = f.parent {
					for _, l := range f.loops {
						if l != lp && l.pre != nil && fmt.Sprintf("$i%d", l.no) == name {
							g := f
							return t.iterIndex(f, l, st, func(p *ssa.Phi) Val { return g.vals[p] })
						}
					}
				}
				return SV{}, false
			case name == "$visited":
				for _, in := range lp.head.Instrs {
					if nx, ok := in.(*ssa.Next); ok {
						if it, ok := fr.vals[nx.Iter]; ok {
							k := it.Tup[0].S + ":visited"
							if s, ok := st.vars[k]; ok {
								return SV{S: s, T: &Ty{Sort: t.keySort[k], Elem: tyBool}}, true
							}
						}
					}
				}
				return SV{}, false
			}
			sv, ok := t.lookupIn(fr, lp.head, false, name, st, func(p *ssa.Phi) (Val, bool) {
				if p.Block() == lp.head {
					return phi(p), true
				}
				v, ok := fr.vals[p]
				return v, ok
			})
			if ok {
				return sv, true
			}
			return t.entryLookup(name)
		}
		return e
	}
	e := mk(st, phi)
	if lp.pre != nil {
		e.initEn = mk(lp.pre, func(p *ssa.Phi) Val { return lp.phiIn[p] })
	}
	return e
}

func (t *Task) siteEnv(fr *Frame, st *State, site ssa.Instruction) *Env {
	e := &Env{t: t, c: t.c, vars: t.entryVars(), st: st, old: t.entry}
	e.lookup = func(name string) (SV, bool) {
		if site != nil {
			b := site.Block()
			at := len(b.Instrs)
			for i, in := range b.Instrs {
				if in == site {
					at = i
				}
			}
			if sv, ok := t.lookupBefore(fr, b, at, name, st); ok {
				return sv, true
			}
		}
		return t.entryLookup(name)
	}
	return e
}

func (t *Task) safeBool(env *Env, cl *Clause, name string) (res string) {
	defer func() {
		if r := recover(); r != nil {
			s, ok := r.(specErr)
			if !ok {
				panic(r)
			}
			soft := strings.Contains(name, "/inv") || strings.Contains(name, "/use")
			msg := name + ": " + s.msg
			dup := false
			for _, m := range t.v.specErrors {
				if m == msg {
					dup = true
				}
			}
			if !dup {
				t.v.specErrors = append(t.v.specErrors, msg)
			}
			if !soft && t.dry == 0 {
				t.fail(name+"/spec-error", s.msg+" in: "+cl.Src)
			}
			res = "true"
		}
	}()
	return env.boolT(cl.E)
}

// fail records an obligation that cannot be discharged.
func (t *Task) fail(name, reason string) {
	t.obs = append(t.obs, &Ob{Name: name, Desc: reason, Reach: "true", Goal: "false", NAsm: 0, Task: t, Status: "failed", Reason: reason})
}

func (t *Task) modLocs(con *Contract, env *Env) []modLoc {
	var out []modLoc
	for _, cl := range con.Modifies {
		if !cl.active(t.prop) && len(cl.Tags) > 0 {
			continue
		}
		func() {
			defer func() {
				if r := recover(); r != nil {
					if s, ok := r.(specErr); ok {
						t.fail(t.name+"/modifies/spec-error", s.msg)
						return
					}
					panic(r)
				}
			}()
			out = append(out, t.modLoc(cl.E, env)...)
		}()
	}
	return mergeLocs(out)
}

// mergeLocs joins locations inside one cell.
func mergeLocs(in []modLoc) []modLoc {
	var out []modLoc
next:
	for _, m := range in {
		if m.ref == "" || m.whole {
			out = append(out, m)
			continue
		}
		for i := range out {
			o := &out[i]
			if o.key != m.key || o.ref != m.ref || o.whole {
				continue
			}
			if o.upd != nil && m.upd != nil {
				a, b := o.upd, m.upd
				u := func(cur, old string) string { return b(cur, a(cur, old)) }
				o.upd = u
				o.partial = func(cur, old string) string { return eq(cur, u(cur, old)) }
			} else {
				o.upd, o.partial = nil, nil
			}
			continue next
		}
		out = append(out, m)
	}
	return out
}

// lonely: cell r belongs to m and to no other location
func lonely(ms []modLoc, i int, r string) string {
	cs := []string{ms[i].pred(r)}
	for k, o := range ms {
		if k != i && !o.whole && o.pred != nil {
			cs = append(cs, not(o.pred(r)))
		}
	}
	return and(cs...)
}

func (t *Task) modLoc(x *Expr, env *Env) []modLoc {
	is := func(ref string) func(string) string {
		return func(r string) string { return eq(r, ref) }
	}
	switch {
	case x.Op == "call" && x.Name == "elems":
		s := env.eval(x.Args[0])
		el := s.T.G.Underlying().(*types.Slice).Elem()
		sl := env.term(x, s)
		ref := "(sref " + sl + ")"
		return []modLoc{{key: t.keyA(el), pred: is(ref), ref: ref, partial: func(cur, old string) string {
			return fmt.Sprintf("(forall ((i Int)) (! (=> (or (< i (soff %s)) (>= i (+ (soff %s) (slen %s)))) (= (select %s i) (select %s i))) :pattern ((select %s i))))", sl, sl, sl, cur, old, cur)
		}}}
	case x.Op == "call" && x.Name == "capelems":
		// everything reachable by append through this slice
		s := env.eval(x.Args[0])
		el := s.T.G.Underlying().(*types.Slice).Elem()
		sl := env.term(x, s)
		ref := "(sref " + sl + ")"
		return []modLoc{{key: t.keyA(el), pred: is(ref), ref: ref, partial: func(cur, old string) string {
			return fmt.Sprintf("(forall ((i Int)) (! (=> (or (< i (soff %s)) (>= i (+ (soff %s) (scap %s)))) (= (select %s i) (select %s i))) :pattern ((select %s i))))", sl, sl, sl, cur, old, cur)
		}}}
	case x.Op == "call" && x.Name == "map":
		m := env.eval(x.Args[0])
		d, vv := t.keysM(types.Unalias(m.T.G).Underlying().(*types.Map))
		r := env.term(x, m)
		return []modLoc{{key: d, pred: is(r), ref: r}, {key: vv, pred: is(r), ref: r}}
	case x.Op == "heap":
		ty := t.c.specTy(x.Vars[0].Type)
		pr := func(r string) string {
			return env.with("$r", SV{S: r, T: tyInt}).boolT(x.Args[0])
		}
		whole := x.Args[0].Op == "ident" && x.Args[0].Name == "true"
		var ks []string
		switch u := types.Unalias(ty.G).(type) {
		case *types.Slice:
			ks = []string{t.keyA(u.Elem())}
		case *types.Map:
			d, vv := t.keysM(u)
			ks = []string{d, vv}
		default:
			ks = []string{t.keyH(ty.G)}
		}
		var out []modLoc
		for _, k := range ks {
			out = append(out, modLoc{key: k, whole: whole, pred: pr})
		}
		return out
	}
	a, ok := env.lval(x)
	if !ok {
		env.fail(x, "not a location")
	}
	if a.Kind == "local" {
		return []modLoc{{key: a.Key, addr: a}}
	}
	m := modLoc{key: a.Key, ref: a.Ref, pred: is(a.Ref), addr: a}
	if len(a.Path) > 0 {
		root := a.Root
		path := a.Path
		m.upd = func(cur, old string) string {
			return t.update(old, root, path, t.project(cur, root, path))
		}
		m.partial = func(cur, old string) string {
			// all else in the cell is unchanged: cur = old with the field updated to cur's
			return eq(cur, m.upd(cur, old))
		}
	}
	return []modLoc{m}
}

// ---- verification of one function

func (v *Verifier) newTask(fn *ssa.Function, con *Contract, prop string) *Task {
	t := &Task{c: v.c, p: v.p, v: v, prop: prop, fn: fn, con: con, reg: newRegistry(v.c.reg), keySort: map[string]string{},
		forceH: map[ssa.Value]bool{}, callees: map[string]bool{}, notes: map[string]bool{}, obNames: map[string]int{}}
	if con != nil {
		t.name = prop + "/" + con.Key
	}
	return t
}

func (v *Verifier) verifyFn(key, prop string) *Task {
	con := v.contracts[key]
	fn := v.p.funcs[key]
	if fn == nil || len(fn.Blocks) == 0 {
		t := v.newTask(nil, con, prop)
		t.fail(t.name+"/missing", "function "+key+" is under contract but not in the source")
		return t
	}
	forced := map[ssa.Value]bool{}
	for attempt := 0; attempt < 40; attempt++ {
		t := v.newTask(fn, con, prop)
		t.forceH = forced
		v.resetTask()
		again := func() (again bool) {
			defer func() {
				r := recover()
				switch x := r.(type) {
				case nil:
				case restart:
					again = true
				case unsupported:
					t.fail(t.name+"/unsupported", "outside the supported subset: "+x.msg)
				case specErr:
					t.fail(t.name+"/spec-error", x.msg)
				default:
					panic(r)
				}
			}()
			t.run()
			return false
		}()
		if !again {
			return t
		}
	}
	t := v.newTask(fn, con, prop)
	t.fail(t.name+"/unsupported", "too many restarts")
	return t
}

func (t *Task) run() {
	con, fn := t.con, t.fn
	st := &State{vars: map[string]string{}, ep: &epoch{id: 0, memo: map[string]string{}}}
	t.entry = st.clone()
	next := t.get(t.entry, t.keyNext())
	t.modBase = next
	t.assume("(>= " + next + " 100000)")
	t.nopanic = con.NoPanic != nil && con.NoPanic.active(t.prop)
	t.modAll = con.ModAll
	var args, bind []Val
	for _, p := range fn.Params {
		args = append(args, t.term("arg."+p.Name(), p.Type(), t.entry, "true"))
	}
	for _, p := range fn.FreeVars {
		x := t.term("free."+p.Name(), p.Type(), t.entry, "true")
		if _, ok := p.Type().Underlying().(*types.Pointer); ok {
			t.assume("(< 0 " + x.S + ")")
		}
		bind = append(bind, x)
	}
	all := append(append([]Val{}, args...), bind...)
	env := t.contractEnv(con, fn.Signature, fn, all, t.entry, t.entry)
	env.lookup = func(name string) (SV, bool) { return SV{}, false }
	t.entryEn = env
	for i, r := range append(append([]*Clause{}, con.Requires...), con.Always...) {
		if r.active(t.prop) {
			t.assume(t.safeBool(env, r, fmt.Sprintf("%s/requires%d", t.name, i)))
		}
	}
	t.blank(t.entry)
	t.mods = t.modLocs(con, env)
	t.probe(t.name+"/requires", "true")
	for _, g := range con.Enters {
		if (&Clause{Tags: g.Tags}).active(t.prop) {
			t.set(st, t.keyG(g.Name), env.eval(g.E).S)
		}
	}
	fr := t.newFrame(fn, args, bind, nil, nil)
	t.rootFr = fr
	rets := t.runFn(fr, st, "true")
	var conds []string
	for k, r := range rets {
		conds = append(conds, r.cond)
		t.atReturn(k, r, all, fr)
	}
	if len(rets) > 0 {
		t.probe(t.name+"/returns", or(conds...))
	}
	for i, cp := range con.CallPre {
		if cp.Clause.active(t.prop) && !t.v.usedCallPre[fmt.Sprintf("%s/%d", con.Key, i)] {
			t.oblige(fmt.Sprintf("%s/call-%s/pre%d/absent", t.name, cp.Callee, i), "a call of "+cp.Callee+" with "+cp.Clause.Src, t.p.pos(fn.Pos()), "true", "false")
		}
	}
}

func (t *Task) atReturn(k int, r retRec, all []Val, fr *Frame) {
	con, fn := t.con, t.fn
	where := t.p.pos(r.pos)
	post := r.st.clone()
	env := t.contractEnv(con, fn.Signature, fn, all, post, t.entry)
	env.reach = r.cond
	n := fn.Signature.Results().Len()
	if n > 0 {
		res := Val{K: vTuple, Tup: r.results}
		if n == 1 {
			res = r.results[0]
		}
		t.bindResults(env, con, fn.Signature, res)
	}
	for _, g := range con.GhostSets {
		if len(g.Tags) == 0 || (&Clause{Tags: g.Tags}).active(t.prop) {
			t.set(post, t.keyG(g.Name), env.eval(g.E).S)
		}
	}
	site := ssa.Instruction(nil)
	if r.block != nil {
		site = r.block.Instrs[len(r.block.Instrs)-1]
	}
	if len(con.Uses) > 0 {
		e := t.siteEnv(fr, post, site)
		e.reach = r.cond
		for k2, x := range env.vars {
			e.vars[k2] = x
		}
		for i, u := range con.Uses {
			if u.active(t.prop) {
				t.assumeR(r.cond, t.safeBool(e, u, fmt.Sprintf("%s/use%d", t.name, i)))
			}
		}
	}
	check := func(kind string, i int, cl *Clause, e *Env) {
		if !cl.active(t.prop) {
			return
		}
		nm := fmt.Sprintf("%s/%s%d", t.name, kind, i)
		f := t.safeBool(e, cl, nm)
		t.oblige(nm, kind+" "+cl.Src, where, r.cond, f)
		if kind == "exit" {
			t.assumeR(r.cond, f) // a step for the clauses after it
		}
	}
	if len(con.Exits) > 0 {
		e := t.siteEnv(fr, post, site)
		e.reach = r.cond
		for k2, x := range env.vars {
			e.vars[k2] = x
		}
		for i, cl := range con.Exits {
			check("exit", i, cl, e)
		}
	}
	for i, cl := range con.Ensures {
		check("ensures", i, cl, env)
	}
	for i, cl := range con.Always {
		check("always", i, cl, env)
	}
	if t.modAll {
		return
	}
	if post.ep != t.entry.ep && post.ep.id != 0 {
		t.oblige(t.name+"/frame/all", "code without a contract may modify anything", where, r.cond, "false")
		return
	}
	var keys []string
	for key := range t.keySort {
		keys = append(keys, key)
	}
	sort.Strings(keys)
	for _, key := range keys {
		if strings.HasPrefix(key, "L:") || key == "next" {
			if key == "next" && !con.Allocates && t.get(post, key) != t.get(t.entry, key) {
				// callers learn from fnEffects whether a function allocates
			}
			continue
		}
		if f, ok := t.frameFormula(key, post); ok {
			t.oblige(t.name+"/frame/"+key, "objects outside the frame keep their contents: "+key, where, r.cond, f)
		}
	}
}

// ---- properties

func (con *Contract) tagged(prop string) bool {
	has := func(cs []*Clause) bool {
		for _, c := range cs {
			for _, t := range c.Tags {
				if t == prop {
					return true
				}
			}
		}
		return false
	}
	for _, t := range con.TagsOnly {
		if t == prop {
			return true
		}
	}
	if con.NoPanic != nil && has([]*Clause{con.NoPanic}) {
		return true
	}
	var cps []*Clause
	for _, cp := range con.CallPre {
		cps = append(cps, cp.Clause)
	}
	return has(con.Ensures) || has(con.Exits) || has(con.Always) || has(cps)
}

// tasksFor generates the obligations of a property.
func (v *Verifier) tasksFor(prop string) []*Task {
	var keys []string
	for k, con := range v.contracts {
		if con.Kind == "func" && con.tagged(prop) {
			keys = append(keys, k)
		}
	}
	sort.Strings(keys)
	var out []*Task
	done := map[string]bool{}
	for len(keys) > 0 {
		k := keys[0]
		keys = keys[1:]
		if done[k] {
			continue
		}
		done[k] = true
		t := v.verifyFn(k, prop)
		out = append(out, t)
		keys = append(keys, sortedKeys(t.callees)...)
	}
	return out
}

func readFile(f string) string {
	b, _ := os.ReadFile(f)
	return string(b)
}
