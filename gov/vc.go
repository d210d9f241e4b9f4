package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"regexp"
	"sort"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
)

type valKind int

const (
	vTerm valKind = iota
	vAddr
	vTuple
	vClosure
	vBuiltin
)

type Val struct {
	K    valKind
	S    string
	T    types.Type
	A    *Addr
	Tup  []Val
	Fn   *ssa.Function
	Bind []Val
}

type step struct {
	field int
	idx   string
	arr   bool
}

// Addr is a pointer whose base is statically known.
type Addr struct {
	Kind string // local, heap, elem, arr
	Key  string
	Ref  string
	Idx  string
	Root types.Type
	Path []step
}

type epoch struct {
	id    int
	memo  map[string]string
	preds []epochPred
}

type epochPred struct {
	cond string
	st   *State
}

type State struct {
	vars map[string]string
	ep   *epoch
}

func (s *State) clone() *State {
	n := &State{vars: make(map[string]string, len(s.vars)), ep: s.ep}
	for k, v := range s.vars {
		n.vars[k] = v
	}
	return n
}

type Ob struct {
	Name  string
	Desc  string
	Where string
	Reach string
	Goal  string
	NAsm  int
	Task  *Task
	Excl  map[string]bool
	Vac   bool // vacuity probe: must not be provable
	// result
	Status  string
	Backend string
	Millis  int64
	Model   string
	Reason  string
}

type Task struct {
	c       *Ctx
	p       *Program
	v       *Verifier
	prop    string
	name    string
	fn      *ssa.Function
	con     *Contract
	reg     *Registry
	asm     []string
	lazy    []string
	info    map[string]*asmInfo
	infoMu  sync.Mutex
	obs     []*Ob
	n       int
	dry     int
	writes  []map[string]bool
	keySort map[string]string
	forceH  map[ssa.Value]bool
	entry   *State
	entryEn *Env
	loopNo  int
	frames  int
	rootFr  *Frame
	mods    []modLoc
	modAll  bool
	callees map[string]bool // contracted callees
	notes   map[string]bool
	epochs  int
	obNames map[string]int
	nopanic bool
	blanked map[string]bool
	modBase string // value of "next" at entry
}

type deferRec struct {
	reach string
	call  *ssa.CallCommon
	args  []Val
	fnv   Val
	instr ssa.Instruction
	loop  bool
}

type Frame struct {
	fn     *ssa.Function
	vals   map[ssa.Value]Val
	defers []deferRec
	parent *Frame
	cblock *ssa.BasicBlock
	id     int
	depth  int
	loops  map[*ssa.BasicBlock]*loopInfo
}

type loopInfo struct {
	head    *ssa.BasicBlock
	body    map[*ssa.BasicBlock]bool
	spec    *LoopSpec
	no      int
	phiIn   map[*ssa.Phi]Val
	pre     *State
	autos   []autoInv
	written map[string]bool
}

type autoInv struct {
	name string
	f    func(st *State, phi func(*ssa.Phi) string) string
}

type unsupported struct{ msg string }
type restart struct{}

func (t *Task) unsup(format string, a ...interface{}) {
	panic(unsupported{fmt.Sprintf(format, a...)})
}

func (t *Task) fresh(hint, sort string) string {
	t.n++
	n := fmt.Sprintf("%s!%d", sanitize(hint), t.n)
	t.reg.declare(n, fmt.Sprintf("(declare-const %s %s)", n, sort))
	return n
}

func (t *Task) assume(f string) {
	if f == "true" || f == "" {
		return
	}
	t.asm = append(t.asm, f)
}

func (t *Task) assumeR(reach, f string) {
	if f == "true" || f == "" {
		return
	}
	t.assume(imp(reach, f))
}

func imp(a, b string) string {
	if a == "true" {
		return b
	}
	if a == "false" || b == "true" {
		return "true"
	}
	return "(=> " + a + " " + b + ")"
}

func and(xs ...string) string {
	var ys []string
	for _, x := range xs {
		if x == "false" {
			return "false"
		}
		if x != "true" && x != "" {
			ys = append(ys, x)
		}
	}
	switch len(ys) {
	case 0:
		return "true"
	case 1:
		return ys[0]
	}
	return "(and " + strings.Join(ys, " ") + ")"
}

func or(xs ...string) string {
	var ys []string
	for _, x := range xs {
		if x == "true" {
			return "true"
		}
		if x != "false" && x != "" {
			ys = append(ys, x)
		}
	}
	switch len(ys) {
	case 0:
		return "false"
	case 1:
		return ys[0]
	}
	return "(or " + strings.Join(ys, " ") + ")"
}

func not(x string) string {
	if x == "true" {
		return "false"
	}
	if x == "false" {
		return "true"
	}
	return "(not " + x + ")"
}

func eq(a, b string) string {
	if a == b {
		return "true"
	}
	return "(= " + a + " " + b + ")"
}

func ite(c, a, b string) string {
	if c == "true" || a == b {
		return a
	}
	if c == "false" {
		return b
	}
	return "(ite " + c + " " + a + " " + b + ")"
}

// obligation

func (t *Task) oblige(name, desc, where, reach, goal string) {
	if t.dry > 0 || goal == "true" || reach == "false" {
		if t.dry == 0 && goal == "true" {
			t.v.trivial++
		}
		return
	}
	k := t.obNames[name]
	t.obNames[name] = k + 1
	if k > 0 {
		name = fmt.Sprintf("%s#%d", name, k+1)
	}
	t.obs = append(t.obs, &Ob{Name: name, Desc: desc, Where: where, Reach: reach, Goal: goal, NAsm: len(t.asm), Task: t})
}

func (t *Task) probe(name, reach string) {
	if t.dry > 0 {
		return
	}
	t.obs = append(t.obs, &Ob{Name: name, Desc: "vacuity probe", Reach: reach, Goal: "false", NAsm: len(t.asm), Task: t, Vac: true})
}

// state

func (t *Task) newEpoch() *epoch {
	t.epochs++
	return &epoch{id: t.epochs, memo: map[string]string{}}
}

func (t *Task) sortOf(key string) string {
	if s, ok := t.keySort[key]; ok {
		return s
	}
	t.unsup("internal: no sort for state key %s", key)
	return ""
}

func (t *Task) get(st *State, key string) string {
	if v, ok := st.vars[key]; ok {
		return v
	}
	if v, ok := st.ep.memo[key]; ok {
		return v
	}
	s := t.sortOf(key)
	n := fmt.Sprintf("%s@%d", sanitize(key), st.ep.id)
	t.reg.declare(n, fmt.Sprintf("(declare-const %s %s)", n, s))
	st.ep.memo[key] = n
	for _, p := range st.ep.preds {
		t.lazy = append(t.lazy, imp(p.cond, eq(n, t.get(p.st, key))))
	}
	return n
}

func (t *Task) set(st *State, key, val string) {
	if len(val) > 40 {
		n := t.fresh(key, t.sortOf(key))
		t.assume(eq(n, val))
		val = n
	}
	st.vars[key] = val
	for _, w := range t.writes {
		w[key] = true
	}
}

func (t *Task) havocKey(st *State, key string) string {
	n := t.fresh(key, t.sortOf(key))
	st.vars[key] = n
	for _, w := range t.writes {
		w[key] = true
	}
	return n
}

func (t *Task) havocAll(st *State) {
	for _, w := range t.writes {
		w["*"] = true
	}
	oldNext := t.get(st, t.keyNext())
	keep := map[string]string{}
	for k, v := range st.vars {
		if strings.HasPrefix(k, "L:") {
			keep[k] = v
		}
	}
	st.vars = keep
	st.ep = t.newEpoch()
	n := t.get(st, t.keyNext())
	t.lazy = append(t.lazy, fmt.Sprintf("(<= %s %s)", oldNext, n))
	t.blank(st)
}

type inEdge struct {
	cond string
	st   *State
	from *ssa.BasicBlock
}

func (t *Task) merge(ins []inEdge) (*State, string) {
	if len(ins) == 1 {
		return ins[0].st.clone(), ins[0].cond
	}
	var conds []string
	for _, e := range ins {
		conds = append(conds, e.cond)
	}
	r := t.fresh("r", "Bool")
	t.assume(eq(r, or(conds...)))
	st := &State{vars: map[string]string{}}
	st.ep = ins[0].st.ep
	same := true
	for _, e := range ins {
		if e.st.ep != st.ep {
			same = false
		}
	}
	keys := map[string]bool{}
	for _, e := range ins {
		for k := range e.st.vars {
			keys[k] = true
		}
	}
	if !same {
		st.ep = t.newEpoch()
		for _, e := range ins {
			st.ep.preds = append(st.ep.preds, epochPred{e.cond, e.st.clone()})
		}
	}
	ks := sortedKeys(keys)
	for _, k := range ks {
		if strings.HasPrefix(k, "L:") {
			// locals may be missing where they are not yet allocated
			var have []inEdge
			for _, e := range ins {
				if _, ok := e.st.vars[k]; ok {
					have = append(have, e)
				}
			}
			v := have[0].st.vars[k]
			diff := false
			for _, e := range have {
				if e.st.vars[k] != v {
					diff = true
				}
			}
			if diff {
				n := t.fresh(k, t.sortOf(k))
				for _, e := range have {
					t.assume(imp(e.cond, eq(n, e.st.vars[k])))
				}
				v = n
			}
			st.vars[k] = v
			continue
		}
		v := t.get(ins[0].st, k)
		diff := false
		for _, e := range ins[1:] {
			if t.get(e.st, k) != v {
				diff = true
			}
		}
		if diff {
			n := t.fresh(k, t.sortOf(k))
			for _, e := range ins {
				t.assume(imp(e.cond, eq(n, t.get(e.st, k))))
			}
			v = n
		}
		st.vars[k] = v
	}
	return st, r
}

func sortedKeys(m map[string]bool) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

// heap keys

func (t *Task) keyNext() string { t.keySort["next"] = "Int"; return "next" }

func (t *Task) keyH(ty types.Type) string {
	k := "H:" + typeKey(ty)
	if _, ok := t.keySort[k]; !ok {
		t.keySort[k] = "(Array Int " + t.c.goTy(ty).Sort + ")"
	}
	return k
}

func (t *Task) keyA(ty types.Type) string {
	k := "A:" + typeKey(ty)
	if _, ok := t.keySort[k]; !ok {
		t.keySort[k] = "(Array Int (Array Int " + t.c.goTy(ty).Sort + "))"
	}
	return k
}

func (t *Task) keysM(m *types.Map) (dom, val string) {
	k := typeKey(m.Key()) + "=>" + typeKey(m.Elem())
	dom, val = "MD:"+k, "MV:"+k
	ks := t.c.goTy(m.Key()).Sort
	t.keySort[dom] = "(Array Int (Array " + ks + " Bool))"
	t.keySort[val] = "(Array Int (Array " + ks + " " + t.c.goTy(m.Elem()).Sort + "))"
	return
}

func (t *Task) mapLen(m *types.Map) string {
	ks := t.c.goTy(m.Key()).Sort
	f := "maplen_" + sanitize(ks)
	if t.c.reg.find(f) == nil {
		t.c.reg.declare(f, fmt.Sprintf("(declare-fun %s ((Array %s Bool)) Int)", f, ks))
		t.c.reg.axiom("theory", f, fmt.Sprintf("(forall ((d (Array %s Bool))) (! (>= (%s d) 0) :pattern ((%s d))))", ks, f, f), []string{f})
	}
	return f
}

func (t *Task) keyG(name string) string {
	k := "G:" + name
	if _, ok := t.keySort[k]; !ok {
		for _, g := range t.v.ghosts {
			if g.Name == name {
				t.keySort[k] = t.c.specTy(g.Type).Sort
			}
		}
	}
	return k
}

// facts about a value of a Go type

func (t *Task) facts(s string, ty types.Type, next string, depth int) string {
	ct := t.c.goTy(ty)
	if ct.Model {
		return "true"
	}
	switch u := types.Unalias(ty).Underlying().(type) {
	case *types.Basic:
		if u.Info()&types.IsInteger != 0 {
			lo, hi, ok := intRange(ty)
			if ok {
				return fmt.Sprintf("(and (<= %s %s) (<= %s %s))", lo, s, s, hi)
			}
		}
	case *types.Pointer:
		return fmt.Sprintf("(and (< %s %s) (=> (<= 0 %s) (= (root %s) %s)))", s, next, s, s, s)
	case *types.Map, *types.Chan:
		return fmt.Sprintf("(and (<= 0 %s) (< %s %s))", s, s, next)
	case *types.Slice:
		return fmt.Sprintf("(and (<= 0 (sref %s)) (< (sref %s) %s) (<= 0 (soff %s)) (<= 0 (slen %s)) (<= (slen %s) (scap %s)) (<= (+ (soff %s) (scap %s)) 281474976710656) (=> (= (sref %s) 0) (= (scap %s) 0)))",
			s, s, next, s, s, s, s, s, s, s, s)
	case *types.Interface:
		return fmt.Sprintf("(and (<= 0 (itag %s)) (< (iref %s) %s) (=> (= (itag %s) 0) (= (iref %s) 0)))", s, s, next, s, s)
	case *types.Struct:
		if depth > 0 {
			var fs []string
			for i := 0; i < u.NumFields(); i++ {
				fs = append(fs, t.facts("("+selName(ct.Sort, i, u.Field(i).Name())+" "+s+")", u.Field(i).Type(), next, depth-1))
			}
			return and(fs...)
		}
	}
	if ct.Sort == "Seq_Int" {
		return fmt.Sprintf("(<= (seqlen_Int %s) 281474976710656)", s)
	}
	return "true"
}

func (t *Task) term(hint string, ty types.Type, st *State, reach string) Val {
	s := t.fresh(hint, t.c.goTy(ty).Sort)
	t.assumeR(reach, t.facts(s, ty, t.get(st, t.keyNext()), 2))
	return Val{K: vTerm, S: s, T: ty}
}

// named shares a long term
func (t *Task) named(hint, s, sort string) string {
	if len(s) <= 60 {
		return s
	}
	n := t.fresh(hint, sort)
	t.assume(eq(n, s))
	return n
}

// reify turns a value into a term
func (t *Task) reify(v Val) string {
	switch v.K {
	case vTerm:
		return v.S
	case vAddr:
		a := v.A
		switch a.Kind {
		case "heap", "arr":
			if len(a.Path) == 0 {
				return a.Ref
			}
			f := "fld." + sanitize(typeKey(a.Root))
			for _, s := range a.Path {
				if s.arr {
					t.unsup("pointer to array element of a field")
				}
				f += fmt.Sprintf(".%d", s.field)
			}
			t.fieldPtrFun(f)
			t.notes["interior pointer "+f+" passed by value"] = true
			return "(" + f + " " + a.Ref + ")"
		case "elem":
			f := "eaddr." + sanitize(typeKey(a.Root))
			if t.c.reg.find(f) == nil {
				t.c.reg.declare(f, fmt.Sprintf("(declare-fun %s (Int Int) Int)", f))
				t.c.reg.axiom("theory", f, fmt.Sprintf("(forall ((r Int) (i Int)) (! (< (%s r i) 0) :pattern ((%s r i))))", f, f), []string{f})
			}
			t.notes["pointer to slice element reified"] = true
			return "(" + f + " " + a.Ref + " " + a.Idx + ")"
		case "local":
			t.forceLocal(a.Key)
		}
	case vClosure:
		n := "fn." + sanitize(fnKeyOf(v.Fn))
		if len(v.Bind) == 0 {
			t.c.reg.declare(n, fmt.Sprintf("(declare-const %s Int)", n))
			t.c.reg.axiom("theory", n, fmt.Sprintf("(< %s 0)", n), []string{n})
			return n
		}
		args := ""
		for _, b := range v.Bind {
			args += " " + t.reify(b)
		}
		sorts := ""
		for _, b := range v.Bind {
			sorts += " " + t.c.goTy(b.T).Sort
		}
		n = "clo." + sanitize(fnKeyOf(v.Fn))
		t.c.reg.declare(n, fmt.Sprintf("(declare-fun %s (%s) Int)", n, strings.TrimSpace(sorts)))
		c := t.named("clo", "("+n+args+")", "Int")
		t.assume("(not (= " + c + " 0))")
		return c
	}
	t.unsup("cannot reify value kind %d", v.K)
	return ""
}

func (t *Task) fieldPtrFun(f string) {
	if t.c.reg.find(f) == nil {
		t.c.reg.declare(f, fmt.Sprintf("(declare-fun %s (Int) Int)", f))
		t.c.reg.declare(f+".inv", fmt.Sprintf("(declare-fun %s.inv (Int) Int)", f))
		t.c.reg.axiom("theory", f, fmt.Sprintf("(forall ((r Int)) (! (and (< (%s r) 0) (= (root (%s r)) (root r)) (= (%s.inv (%s r)) r)) :pattern ((%s r))))", f, f, f, f, f), []string{f})
	}
}

func (t *Task) forceLocal(key string) {
	a := t.v.localAllocs[key]
	if a == nil {
		t.unsup("local %s escapes", key)
	}
	t.forceH[a] = true
	panic(restart{})
}

// addresses

func (t *Task) addrOf(v Val) *Addr {
	if v.K == vAddr {
		return v.A
	}
	if v.K != vTerm {
		t.unsup("address of non-pointer")
	}
	pt, ok := types.Unalias(v.T).Underlying().(*types.Pointer)
	if !ok {
		t.unsup("pointer expected, have %v", v.T)
	}
	if at, ok := pt.Elem().Underlying().(*types.Array); ok {
		return &Addr{Kind: "arr", Key: t.keyA(at.Elem()), Ref: v.S, Root: pt.Elem()}
	}
	return &Addr{Kind: "heap", Key: t.keyH(pt.Elem()), Ref: v.S, Root: pt.Elem()}
}

func (t *Task) stepType(ty types.Type, s step) types.Type {
	switch u := ty.Underlying().(type) {
	case *types.Struct:
		return u.Field(s.field).Type()
	case *types.Array:
		return u.Elem()
	}
	t.unsup("bad path")
	return nil
}

func (t *Task) addrType(a *Addr) types.Type {
	ty := a.Root
	for _, s := range a.Path {
		ty = t.stepType(ty, s)
	}
	return ty
}

func (t *Task) rootTerm(a *Addr, st *State) string {
	switch a.Kind {
	case "local":
		v, ok := st.vars[a.Key]
		if !ok {
			v = t.c.zero(a.Root)
		}
		return v
	case "heap", "arr":
		return "(select " + t.get(st, a.Key) + " " + a.Ref + ")"
	case "elem":
		return "(select (select " + t.get(st, a.Key) + " " + a.Ref + ") " + a.Idx + ")"
	}
	t.unsup("bad address")
	return ""
}

func (t *Task) project(s string, ty types.Type, path []step) string {
	for _, p := range path {
		if p.arr {
			s = "(select " + s + " " + p.idx + ")"
		} else {
			s = "(" + selName(t.c.goTy(ty).Sort, p.field, ty.Underlying().(*types.Struct).Field(p.field).Name()) + " " + s + ")"
		}
		ty = t.stepType(ty, p)
	}
	return s
}

func (t *Task) update(s string, ty types.Type, path []step, v string) string {
	if len(path) == 0 {
		return v
	}
	p := path[0]
	sub := t.stepType(ty, p)
	if p.arr {
		return "(store " + s + " " + p.idx + " " + t.update("(select "+s+" "+p.idx+")", sub, path[1:], v) + ")"
	}
	st := ty.Underlying().(*types.Struct)
	sort := t.c.goTy(ty).Sort
	var b strings.Builder
	b.WriteString("(mk." + sort)
	for i := 0; i < st.NumFields(); i++ {
		f := "(" + selName(sort, i, st.Field(i).Name()) + " " + s + ")"
		if i == p.field {
			f = t.update(f, sub, path[1:], v)
		}
		b.WriteString(" " + f)
	}
	b.WriteString(")")
	return b.String()
}

func (t *Task) loadRaw(a *Addr, st *State) string {
	return t.project(t.rootTerm(a, st), a.Root, a.Path)
}

func (t *Task) load(a *Addr, st *State, reach string) Val {
	ty := t.addrType(a)
	s := t.loadRaw(a, st)
	s = t.named("ld", s, t.c.goTy(ty).Sort)
	if a.Kind != "local" || true {
		t.assumeR(reach, t.facts(s, ty, t.get(st, t.keyNext()), 1))
	}
	return Val{K: vTerm, S: s, T: ty}
}

func (t *Task) store(a *Addr, st *State, v string) {
	switch a.Kind {
	case "local":
		old := t.rootTerm(a, st)
		t.set(st, a.Key, t.update(old, a.Root, a.Path, v))
	case "heap", "arr":
		h := t.get(st, a.Key)
		nv := t.named("cell", t.update("(select "+h+" "+a.Ref+")", a.Root, a.Path, v), t.cellSort(a))
		t.set(st, a.Key, "(store "+h+" "+a.Ref+" "+nv+")")
	case "elem":
		h := t.get(st, a.Key)
		arr := t.named("arr", "(select "+h+" "+a.Ref+")", t.arrSort(a.Key))
		nv := t.update("(select "+arr+" "+a.Idx+")", a.Root, a.Path, v)
		t.set(st, a.Key, "(store "+h+" "+a.Ref+" (store "+arr+" "+a.Idx+" "+nv+"))")
	}
}

func (t *Task) cellSort(a *Addr) string {
	if a.Kind == "arr" {
		return t.arrSort(a.Key)
	}
	return t.c.goTy(a.Root).Sort
}

func (t *Task) arrSort(key string) string {
	s := t.keySort[key]
	return s[len("(Array Int ") : len(s)-1]
}

// allocation of a fresh reference
func (t *Task) alloc(st *State) string {
	next := t.get(st, t.keyNext())
	n := t.fresh("new", "Int")
	t.assume(eq(n, next))
	t.set(st, "next", "(+ "+n+" 1)")
	return n
}

// values

func (t *Task) constVal(c *ssa.Const) Val {
	ty := c.Type()
	if c.Value == nil {
		return Val{K: vTerm, S: t.c.zero(ty), T: ty}
	}
	switch c.Value.Kind() {
	case constant.Bool:
		return Val{K: vTerm, S: fmt.Sprint(constant.BoolVal(c.Value)), T: ty}
	case constant.String:
		return Val{K: vTerm, S: t.c.lit(constant.StringVal(c.Value)), T: ty}
	case constant.Int:
		if b, ok := ty.Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
			return Val{K: vTerm, S: smtInt(c.Value.ExactString()), T: ty}
		}
	}
	return Val{K: vTerm, S: t.fresh("const", t.c.goTy(ty).Sort), T: ty}
}

func smtInt(s string) string {
	if strings.HasPrefix(s, "-") {
		return "(- " + s[1:] + ")"
	}
	return s
}

func (t *Task) val(fr *Frame, v ssa.Value) Val {
	switch x := v.(type) {
	case *ssa.Const:
		return t.constVal(x)
	case *ssa.Global:
		return t.globalAddr(x)
	case *ssa.Function:
		return Val{K: vClosure, Fn: x, T: x.Type()}
	case *ssa.Builtin:
		return Val{K: vBuiltin, S: x.Name(), T: x.Type()}
	}
	r, ok := fr.vals[v]
	if !ok {
		t.unsup("value %s (%T) of %s undefined", v.Name(), v, fr.fn)
	}
	return r
}

func (t *Task) globalAddr(g *ssa.Global) Val {
	n, ok := t.p.globals[g]
	if !ok {
		t.p.globals[g] = len(t.p.globals) + 1
		n = t.p.globals[g]
	}
	el := g.Type().(*types.Pointer).Elem()
	if at, ok := el.Underlying().(*types.Array); ok {
		return Val{K: vAddr, T: g.Type(), A: &Addr{Kind: "arr", Key: t.keyA(at.Elem()), Ref: fmt.Sprint(n), Root: el}}
	}
	return Val{K: vAddr, T: g.Type(), A: &Addr{Kind: "heap", Key: t.keyH(el), Ref: fmt.Sprint(n), Root: el}}
}

// constGlobal gives the fixed value of a package variable that is never
// reassigned outside initialisation.
func (t *Task) constGlobal(g *ssa.Global) (Val, bool) {
	if t.p.gmut[g] || t.v.mutableGlobals[globalName(g)] {
		return Val{}, false
	}
	el := g.Type().(*types.Pointer).Elem()
	if inModule(g.Pkg.Pkg) {
		init := t.p.ginit[g]
		if init == nil {
			return Val{K: vTerm, S: t.c.zero(el), T: el}, true
		}
		if c, ok := init.(*ssa.Const); ok {
			return t.constVal(c), true
		}
	}
	n := "gv." + sanitize(globalName(g))
	if t.c.reg.find(n) == nil {
		t.c.reg.declare(n, fmt.Sprintf("(declare-const %s %s)", n, t.c.goTy(el).Sort))
		isErr := typeKey(el) == "error"
		if isErr {
			k := t.p.globals[g]
			if k == 0 {
				t.p.globals[g] = len(t.p.globals) + 1
				k = t.p.globals[g]
			}
			known := true
			if inModule(g.Pkg.Pkg) {
				known = false
				if call, ok := t.p.ginit[g].(*ssa.Call); ok {
					if f := call.Call.StaticCallee(); f != nil && (f.String() == "errors.New" || f.String() == "fmt.Errorf") {
						known = true
					}
				}
			}
			if known {
				// sentinel error: not nil and different from every other sentinel
				t.c.reg.axiom("theory", n, fmt.Sprintf("(and (= (itag %s) 1) (= (iref %s) %d))", n, n, k), []string{n})
			}
		} else {
			t.c.reg.axiom("theory", n, t.facts(n, el, "next@0", 1), []string{n})
			t.get(t.entry, t.keyNext())
			if call, ok := t.p.ginit[g].(*ssa.Call); ok {
				if f := call.Call.StaticCallee(); f != nil && f.String() == "regexp.MustCompile" {
					t.patternGlobal(n, call.Call.Args[0])
				}
			}
		}
	}
	return Val{K: vTerm, S: n, T: el}, true
}

// patternGlobal records what a package variable set once by regexp.MustCompile
// with a constant pattern stands for.
func (t *Task) patternGlobal(n string, arg ssa.Value) {
	c, ok := arg.(*ssa.Const)
	if !ok || t.v.funs["repat"] == nil || t.v.funs["regroups"] == nil || t.v.funs["revalid"] == nil {
		return
	}
	pat := constant.StringVal(c.Value)
	re, err := regexp.Compile(pat)
	if err != nil {
		return
	}
	for _, f := range []string{"repat", "regroups", "revalid"} {
		t.v.specFun(t.v.funs[f])
	}
	l := t.c.lit(pat)
	t.c.reg.axiom("theory", n+"-pattern", fmt.Sprintf("(and (not (= %s 0)) (= (f.repat %s) %s) (= (f.regroups %s) %d) (f.revalid %s))", n, n, l, l, re.NumSubexp(), l), []string{n})
}

// blank states that memory which is not allocated yet is zero, for the types
// listed in the contract. The memory model allocates at increasing addresses
// and never writes above, but the state after a loop or a call is unknown there.
func (t *Task) blank(st *State) {
	if t.con == nil || len(t.con.Blank) == 0 || !(&Clause{Tags: t.con.BlankTags}).active(t.prop) {
		return
	}
	if t.blanked == nil {
		t.blanked = map[string]bool{}
	}
	next := t.get(st, t.keyNext())
	for _, te := range t.con.Blank {
		ty := t.v.c.specTy(te)
		if ty.G == nil {
			panic(t.con.Key + ": blank needs Go types")
		}
		gt := types.Unalias(ty.G)
		if sl, ok := gt.(*types.Slice); ok {
			h := t.get(st, t.keyA(sl.Elem()))
			id := h
			if !t.blanked[id] {
				t.blanked[id] = t.dry == 0
				t.assume(fmt.Sprintf("(forall ((r Int) (k Int)) (! (=> (or (= r 0) (>= r %s)) (= (select (select %s r) k) %s)) :pattern ((select (select %s r) k))))", next, h, t.c.zero(sl.Elem()), h))
			}
			continue
		}
		h := t.get(st, t.keyH(gt))
		id := h
		if !t.blanked[id] {
			t.blanked[id] = t.dry == 0
			t.assume(fmt.Sprintf("(forall ((r Int)) (! (=> (>= r %s) (= (select %s r) %s)) :pattern ((select %s r))))", next, h, t.c.zero(gt), h))
		}
	}
}
