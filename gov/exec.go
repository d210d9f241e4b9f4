package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func rpo(fn *ssa.Function) []*ssa.BasicBlock {
	var out []*ssa.BasicBlock
	seen := map[*ssa.BasicBlock]bool{}
	var dfs func(b *ssa.BasicBlock)
	dfs = func(b *ssa.BasicBlock) {
		seen[b] = true
		for i := len(b.Succs) - 1; i >= 0; i-- {
			if s := b.Succs[i]; !seen[s] {
				dfs(s)
			}
		}
		out = append(out, b)
	}
	dfs(fn.Blocks[0])
	for i, j := 0, len(out)-1; i < j; i, j = i+1, j-1 {
		out[i], out[j] = out[j], out[i]
	}
	return out
}

func findLoops(fn *ssa.Function) map[*ssa.BasicBlock]*loopInfo {
	loops := map[*ssa.BasicBlock]*loopInfo{}
	for _, b := range fn.Blocks {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				l := loops[s]
				if l == nil {
					l = &loopInfo{head: s, body: map[*ssa.BasicBlock]bool{s: true}}
					loops[s] = l
				}
				var up func(x *ssa.BasicBlock)
				up = func(x *ssa.BasicBlock) {
					if l.body[x] {
						return
					}
					l.body[x] = true
					for _, p := range x.Preds {
						up(p)
					}
				}
				up(b)
			}
		}
	}
	return loops
}

type retRec struct {
	cond    string
	st      *State
	results []Val
	block   *ssa.BasicBlock
	pos     token.Pos
}

// runBlocks executes the blocks in set (nil: all) starting from start with the
// given incoming edges; edges leaving the set are dropped.
func (t *Task) runBlocks(fr *Frame, order []*ssa.BasicBlock, set map[*ssa.BasicBlock]bool, ins map[*ssa.BasicBlock][]inEdge, skipHead *ssa.BasicBlock, headSt *State, headReach string) []retRec {
	var rets []retRec
	for _, b := range order {
		if set != nil && !set[b] {
			continue
		}
		var st *State
		var reach string
		if b == skipHead {
			st, reach = headSt.clone(), headReach
		} else {
			in := ins[b]
			if len(in) == 0 {
				continue
			}
			lp := fr.loops[b]
			if lp == nil {
				st, reach = t.merge(in)
				t.phis(fr, b, in, reach)
			} else {
				st, reach = t.enterLoop(fr, order, lp, in)
			}
		}
		st, reach = t.block(fr, b, st, reach, &rets)
		if st == nil {
			continue
		}
		// successors
		edge := func(s *ssa.BasicBlock, cond string) {
			if cond == "false" {
				return
			}
			e := inEdge{t.reachBool(cond), st, b}
			if s.Dominates(b) {
				if lp := fr.loops[s]; lp != nil {
					t.backEdge(fr, lp, e)
					return
				}
			}
			ins[s] = append(ins[s], e)
		}
		switch x := b.Instrs[len(b.Instrs)-1].(type) {
		case *ssa.If:
			c := t.reify(t.val(fr, x.Cond))
			edge(b.Succs[0], and(reach, c))
			edge(b.Succs[1], and(reach, not(c)))
		case *ssa.Jump:
			edge(b.Succs[0], reach)
		}
	}
	return rets
}

// shareBool names a condition; conditions to reach a place are named by reachBool.
func (t *Task) shareBool(c string) string { return t.nameBool("c", c) }
func (t *Task) reachBool(c string) string { return t.nameBool("e", c) }

func (t *Task) nameBool(hint, c string) string {
	if len(c) < 24 && !strings.Contains(c, "(") {
		return c
	}
	n := t.fresh(hint, "Bool")
	t.assume(eq(n, c))
	return n
}

func (t *Task) phis(fr *Frame, b *ssa.BasicBlock, in []inEdge, reach string) {
	for _, i := range b.Instrs {
		ph, ok := i.(*ssa.Phi)
		if !ok {
			if _, dbg := i.(*ssa.DebugRef); dbg {
				continue
			}
			break
		}
		var vals []Val
		for _, e := range in {
			for k, p := range b.Preds {
				if p == e.from {
					vals = append(vals, t.val(fr, ph.Edges[k]))
					break
				}
			}
		}
		// two edges from the same predecessor: If with equal targets has equal phi values
		fr.vals[ph] = t.mergeVals(vals, in, ph.Type(), ph.Comment)
	}
}

func sameVal(a, b Val) bool {
	if a.K != b.K {
		return false
	}
	switch a.K {
	case vTerm:
		return a.S == b.S
	case vAddr:
		if a.A.Kind != b.A.Kind || a.A.Key != b.A.Key || a.A.Ref != b.A.Ref || a.A.Idx != b.A.Idx || len(a.A.Path) != len(b.A.Path) {
			return false
		}
		for i := range a.A.Path {
			if a.A.Path[i] != b.A.Path[i] {
				return false
			}
		}
		return true
	case vClosure:
		if a.Fn != b.Fn || len(a.Bind) != len(b.Bind) {
			return false
		}
		for i := range a.Bind {
			if !sameVal(a.Bind[i], b.Bind[i]) {
				return false
			}
		}
		return true
	case vTuple:
		if len(a.Tup) != len(b.Tup) {
			return false
		}
		for i := range a.Tup {
			if !sameVal(a.Tup[i], b.Tup[i]) {
				return false
			}
		}
		return true
	}
	return false
}

func (t *Task) mergeVals(vals []Val, in []inEdge, ty types.Type, hint string) Val {
	if len(vals) == 0 {
		t.unsup("phi without values")
	}
	same := true
	for _, v := range vals[1:] {
		if !sameVal(vals[0], v) {
			same = false
		}
	}
	if same {
		return vals[0]
	}
	if vals[0].K == vTuple {
		r := Val{K: vTuple}
		for i := range vals[0].Tup {
			var vs []Val
			for _, v := range vals {
				vs = append(vs, v.Tup[i])
			}
			r.Tup = append(r.Tup, t.mergeVals(vs, in, vs[0].T, hint))
		}
		return r
	}
	if hint == "" {
		hint = "phi"
	}
	n := t.fresh(hint, t.c.goTy(ty).Sort)
	for i, v := range vals {
		t.assume(imp(in[i].cond, eq(n, t.reify(v))))
	}
	return Val{K: vTerm, S: n, T: ty}
}

func loopSpecFor(con *Contract, no int) *LoopSpec {
	if con == nil {
		return nil
	}
	for _, l := range con.Loops {
		if l.Key == fmt.Sprint(no) {
			return l
		}
	}
	return nil
}

func (t *Task) enterLoop(fr *Frame, order []*ssa.BasicBlock, lp *loopInfo, in []inEdge) (*State, string) {
	b := lp.head
	pre, reach := t.merge(in)
	// values of phis on entry
	entry := map[*ssa.Phi]Val{}
	var phis []*ssa.Phi
	for _, i := range b.Instrs {
		ph, ok := i.(*ssa.Phi)
		if !ok {
			if _, dbg := i.(*ssa.DebugRef); dbg {
				continue
			}
			break
		}
		var vals []Val
		for _, e := range in {
			for k, p := range b.Preds {
				if p == e.from {
					vals = append(vals, t.val(fr, ph.Edges[k]))
					break
				}
			}
		}
		entry[ph] = t.mergeVals(vals, in, ph.Type(), ph.Comment)
		phis = append(phis, ph)
	}
	no := t.loopNo
	t.loopNo++
	lp.no = no
	lp.spec = loopSpecFor(t.con, no)
	if lp.spec != nil {
		t.v.usedLoops[t.con.Key+"/"+lp.spec.Key] = true
	}
	// values a loop body keeps: phi whose back edges carry itself
	// dry run to collect what the body writes
	written := map[string]bool{}
	{
		saveN, saveDefer, saveLoop := len(t.asm), len(fr.defers), t.loopNo
		t.dry++
		w := map[string]bool{}
		t.writes = append(t.writes, w)
		st := pre.clone()
		for _, ph := range phis {
			fr.vals[ph] = Val{K: vTerm, S: t.fresh("dry", t.c.goTy(ph.Type()).Sort), T: ph.Type()}
		}
		ins := map[*ssa.BasicBlock][]inEdge{}
		lp.pre = nil
		t.runBlocks(fr, order, lp.body, ins, b, st, "true")
		t.writes = t.writes[:len(t.writes)-1]
		t.dry--
		t.asm = t.asm[:saveN]
		fr.defers = fr.defers[:saveDefer]
		t.loopNo = saveLoop
		for k := range w {
			written[k] = true
		}
	}
	if lp.spec != nil {
		for _, g := range lp.spec.Sets {
			if len(g.Tags) == 0 || (&Clause{Tags: g.Tags}).active(t.prop) {
				written[t.keyG(g.Name)] = true
			}
		}
	}
	st := pre.clone()
	lp.pre = pre
	lp.written = written
	if written["*"] {
		t.havocAll(st)
		for k := range written {
			if strings.HasPrefix(k, "L:") {
				if _, ok := pre.vars[k]; ok {
					t.havocKey(st, k)
				}
			}
		}
	}
	// entry check of invariants
	lp.phiIn = entry
	t.invariants(fr, lp, pre, reach, func(ph *ssa.Phi) Val { return entry[ph] }, "entry")
	// havoc
	if !written["*"] {
		for _, k := range sortedKeys(written) {
			if strings.HasPrefix(k, "L:") {
				if _, ok := pre.vars[k]; !ok {
					continue // allocated inside the loop
				}
			}
			old := t.get(pre, k)
			n := t.havocKey(st, k)
			if k == "next" {
				t.assumeR(reach, fmt.Sprintf("(<= %s %s)", old, n))
			}
		}
	}
	for _, ph := range phis {
		ev := entry[ph]
		// unchanged through the loop?
		same := true
		for k, p := range b.Preds {
			if lp.body[p] && ph.Edges[k] != ssa.Value(ph) {
				same = false
			}
		}
		if same {
			fr.vals[ph] = ev
			continue
		}
		hint := ph.Comment
		if hint == "" {
			hint = ph.Name()
		}
		fr.vals[ph] = t.term(hint, ph.Type(), st, reach)
	}
	for _, k := range sortedKeys(written) {
		if strings.HasPrefix(k, "L:") {
			if _, ok := pre.vars[k]; ok {
				if ty := t.v.localTypes[k]; ty != nil {
					t.assumeR(reach, t.facts(st.vars[k], ty, t.get(st, t.keyNext()), 1))
				}
			}
		}
	}
	t.blank(st)
	// assume invariants
	t.invariants(fr, lp, st, reach, func(ph *ssa.Phi) Val { return fr.vals[ph] }, "assume")
	if t.dry == 0 {
		t.probe(fmt.Sprintf("loop%d", no), reach)
	}
	return st, reach
}

func (t *Task) backEdge(fr *Frame, lp *loopInfo, e inEdge) {
	if t.dry > 0 && lp.pre == nil {
		return
	}
	over := func(ph *ssa.Phi) Val {
		for k, p := range lp.head.Preds {
			if p == e.from {
				return t.val(fr, ph.Edges[k])
			}
		}
		return fr.vals[ph]
	}
	if lp.spec != nil && len(lp.spec.Sets) > 0 {
		e.st = e.st.clone()
		env := t.loopEnv(fr, lp, e.st, over)
		for _, g := range lp.spec.Sets {
			if len(g.Tags) == 0 || (&Clause{Tags: g.Tags}).active(t.prop) {
				t.set(e.st, t.keyG(g.Name), env.eval(g.E).S)
			}
		}
	}
	t.invariants(fr, lp, e.st, e.cond, over, "preserved")
}

// invariants checks or assumes the invariants of a loop.
func (t *Task) invariants(fr *Frame, lp *loopInfo, st *State, reach string, phi func(*ssa.Phi) Val, mode string) {
	if t.dry > 0 && mode != "assume" {
		return
	}
	where := t.p.pos(lp.head.Instrs[len(lp.head.Instrs)-1].Pos())
	do := func(name, desc, f string) {
		if t.v.dropped[fmt.Sprintf("%s/loop%d/%s/", t.name, lp.no, name)] {
			return
		}
		if mode == "assume" {
			t.assumeR(reach, f)
		} else {
			t.oblige(fmt.Sprintf("%s/loop%d/%s/%s", t.name, lp.no, name, mode), desc, where, reach, f)
		}
	}
	t.autoInvariants(fr, lp, st, phi, do)
	if lp.spec == nil {
		return
	}
	env := t.loopEnv(fr, lp, st, phi)
	for i, u := range lp.spec.Uses {
		if !u.active(t.prop) {
			continue
		}
		_ = i
		f := t.safeBool(env, u, fmt.Sprintf("%s/loop%d/use%d", t.name, lp.no, i))
		// a lemma instance holds anywhere
		t.assumeR(reach, f)
	}
	for i, inv := range lp.spec.Invs {
		if !inv.active(t.prop) {
			continue
		}
		f := t.safeBool(env, inv, fmt.Sprintf("%s/loop%d/inv%d", t.name, lp.no, i))
		do(fmt.Sprintf("inv%d", i), inv.Src, f)
		// later invariants may rely on earlier ones
		if mode != "assume" {
			t.assumeR(reach, f)
		}
	}
	if mode == "preserved" {
		for i, s := range lp.spec.Steps {
			if s.active(t.prop) {
				f := t.safeBool(env, s, fmt.Sprintf("%s/loop%d/step%d", t.name, lp.no, i))
				t.oblige(fmt.Sprintf("%s/loop%d/step%d", t.name, lp.no, i), s.Src, where, reach, f)
			}
		}
	}
}

func (t *Task) autoInvariants(fr *Frame, lp *loopInfo, st *State, phi func(*ssa.Phi) Val, do func(name, desc, f string)) {
	b := lp.head
	for _, i := range b.Instrs {
		ph, ok := i.(*ssa.Phi)
		if !ok {
			continue
		}
		if t.c.goTy(ph.Type()).Sort == "Slice" {
			// every back edge carries the slice itself or an append to it
			keepsArr := true
			for k, p := range b.Preds {
				if lp.body[p] && !sliceKeeps(ph.Edges[k], ph, 0) {
					keepsArr = false
				}
			}
			_ = keepsArr
			continue
		}
		if t.c.goTy(ph.Type()).Sort != "Int" {
			continue
		}
		if bt, ok := ph.Type().Underlying().(*types.Basic); !ok || bt.Info()&types.IsInteger == 0 {
			continue
		}
		// constant step
		up, down, unit := true, true, true
		for k, p := range b.Preds {
			if !lp.body[p] {
				continue
			}
			d, ok := constStep(ph.Edges[k], ph)
			if !ok {
				up, down = false, false
				break
			}
			if d < 0 {
				up = false
			}
			if d > 0 {
				down = false
			}
			if d != 1 && d != -1 {
				unit = false
			}
		}
		if !up && !down {
			continue
		}
		cur := t.reify(phi(ph))
		init := t.reify(lp.phiIn[ph])
		name := ph.Comment
		if name == "" {
			name = ph.Name()
		}
		if up {
			do("auto-"+name+"-lo", name+" >= initial value", fmt.Sprintf("(<= %s %s)", init, cur))
		} else {
			do("auto-"+name+"-hi", name+" <= initial value", fmt.Sprintf("(<= %s %s)", cur, init))
		}
		if !unit {
			continue
		}
		// the bound tested by the loop
		if bound, strict, onNext := headBound(lp, ph); bound != nil {
			if bv, ok := t.invariantVal(fr, lp, bound); ok && up {
				lim := bv
				if strict != "<" {
					lim = "(+ " + bv + " 1)"
				}
				if onNext {
					lim = "(- " + lim + " 1)"
				}
				do("auto-"+name+"-bound", name+" within the bound tested by the loop", imp(fmt.Sprintf("(<= %s %s)", init, lim), fmt.Sprintf("(<= %s %s)", cur, lim)))
			}
		}
	}
	t.keepInvariants(fr, lp, st, phi, do)
	// objects that existed when the function was entered and that it may not modify keep their contents
	if t.dry > 0 && lp.written == nil {
		return
	}
	if t.modAll {
		return
	}
	for _, k := range sortedKeys(lp.written) {
		if f, ok := t.frameFormula(k, st); ok {
			do("frame-"+sanitize(k), "objects outside the frame keep their contents: "+k, f)
		}
	}
	// iterators
	for _, k := range sortedKeys(lp.written) {
		if f := t.v.iterInv[k]; f != nil {
			if _, ok := lp.pre.vars[k]; ok {
				do("auto-iter", "iterator position", f(t, st))
			}
		}
	}
}

// keepInvariants: arrays made before the loop and read in it are not
// written by it, nor are they those that the loop extends.
func (t *Task) keepInvariants(fr *Frame, lp *loopInfo, st *State, phi func(*ssa.Phi) Val, do func(name, desc, f string)) {
	seen := map[ssa.Value]bool{}
	n := 0
	for _, b := range fr.fn.Blocks {
		if !lp.body[b] {
			continue
		}
		for _, in := range b.Instrs {
			ia, ok := in.(*ssa.IndexAddr)
			if !ok || seen[ia.X] {
				continue
			}
			seen[ia.X] = true
			sl, ok := ia.X.Type().Underlying().(*types.Slice)
			if !ok {
				continue
			}
			k := t.keyA(sl.Elem())
			if !lp.written[k] {
				continue
			}
			if _, isInstr := ia.X.(ssa.Instruction); !isInstr {
				continue
			}
			x, ok := t.invariantVal(fr, lp, ia.X)
			if !ok || lp.pre == nil {
				continue
			}
			n++
			tag := fmt.Sprint(n)
			for _, i := range lp.head.Instrs {
				ph, ok := i.(*ssa.Phi)
				if !ok {
					continue
				}
				ps, ok := ph.Type().Underlying().(*types.Slice)
				if !ok || t.keyA(ps.Elem()) != k {
					continue
				}
				do("auto-apart"+tag+"-"+ph.Name(), ph.Comment+" does not share memory with what the loop ranges over", fmt.Sprintf("(or (= (sref %s) 0) (not (= (sref %s) (sref %s))))", x, t.reify(phi(ph)), x))
			}
			do("auto-keep"+tag, "what the loop ranges over is not written", fmt.Sprintf("(= (select %s (sref %s)) (select %s (sref %s)))", t.get(st, k), x, t.get(lp.pre, k), x))
		}
	}
}

func sliceKeeps(v ssa.Value, ph *ssa.Phi, d int) bool { return v == ssa.Value(ph) }

func constStep(v ssa.Value, ph *ssa.Phi) (int64, bool) {
	return constStepD(v, ph, 0)
}

func constStepD(v ssa.Value, ph *ssa.Phi, d int) (int64, bool) {
	if v == ssa.Value(ph) {
		return 0, true
	}
	if d > 6 {
		return 0, false
	}
	switch bo := v.(type) {
	case *ssa.BinOp:
		c, okc := bo.Y.(*ssa.Const)
		if !okc || c.Value == nil {
			return 0, false
		}
		if bo.Op != token.ADD && bo.Op != token.SUB {
			return 0, false
		}
		base, ok := constStepD(bo.X, ph, d+1)
		if !ok {
			return 0, false
		}
		n := c.Int64()
		if bo.Op == token.SUB {
			n = -n
		}
		if n < -1000 || n > 1000 {
			return 0, false
		}
		return base + n, true
	}
	return 0, false
}

// headBound finds a test "i < n" (or i+1 < n) of the loop counter in the header.
func headBound(lp *loopInfo, ph *ssa.Phi) (bound ssa.Value, op string, onNext bool) {
	iff, ok := lp.head.Instrs[len(lp.head.Instrs)-1].(*ssa.If)
	if !ok || !lp.body[lp.head.Succs[0]] || lp.body[lp.head.Succs[1]] {
		return
	}
	c, ok := iff.Cond.(*ssa.BinOp)
	if !ok {
		return
	}
	try := func(x, y ssa.Value, op string) bool {
		if op != "<" && op != "<=" {
			return false
		}
		if x == ssa.Value(ph) {
			bound = y
			return true
		}
		if d, ok := constStep(x, ph); ok && d == 1 {
			bound = y
			onNext = true
			return true
		}
		return false
	}
	switch c.Op {
	case token.LSS:
		if try(c.X, c.Y, "<") {
			return bound, "<", onNext
		}
	case token.LEQ:
		if try(c.X, c.Y, "<=") {
			return bound, "<=", onNext
		}
	case token.GTR:
		if try(c.Y, c.X, "<") {
			return bound, "<", onNext
		}
	case token.GEQ:
		if try(c.Y, c.X, "<=") {
			return bound, "<=", onNext
		}
	}
	return nil, "", false
}

// invariantVal gives the term of a value defined outside the loop.
func (t *Task) invariantVal(fr *Frame, lp *loopInfo, v ssa.Value) (string, bool) {
	switch x := v.(type) {
	case *ssa.Const:
		return t.constVal(x).S, true
	case ssa.Instruction:
		if call, ok := v.(*ssa.Call); ok && lp.body[call.Block()] {
			if bi, ok := call.Call.Value.(*ssa.Builtin); ok && bi.Name() == "len" {
				a := call.Call.Args[0]
				if ai, ok := a.(ssa.Instruction); ok && lp.body[ai.Block()] {
					return "", false
				}
				if av, ok := fr.vals[a]; ok && av.K == vTerm && t.c.goTy(av.T).Sort == "Slice" {
					return "(slen " + av.S + ")", true
				}
				if av, ok := fr.vals[a]; ok && av.K == vTerm && t.c.goTy(av.T).Sort == "Seq_Int" {
					return "(seqlen_Int " + av.S + ")", true
				}
			}
			return "", false
		}
		if lp.body[x.Block()] {
			return "", false
		}
	}
	r, ok := fr.vals[v]
	if !ok || r.K != vTerm {
		return "", false
	}
	return r.S, true
}

// frameFormula: cells outside the function's modifies clause are as at entry.
func (t *Task) frameFormula(key string, st *State) (string, bool) {
	cur := t.get(st, key)
	if strings.HasPrefix(key, "L:") || key == "next" || key == "*" {
		return "", false
	}
	old := t.get(t.entry, key)
	if cur == old {
		return "true", true
	}
	if strings.HasPrefix(key, "G:") {
		if t.con != nil {
			for _, g := range t.con.GhostMods {
				if "G:"+g == key {
					return "", false
				}
			}
		}
		return eq(cur, old), true
	}
	exc := []string{fmt.Sprintf("(< (root r) %s)", t.get(t.entry, t.keyNext()))}
	partial := ""
	var ms []modLoc
	for _, m := range t.mods {
		if m.key == key {
			ms = append(ms, m)
		}
	}
	for i, m := range ms {
		if m.whole {
			return "", false
		}
		exc = append(exc, not(m.pred("r")))
		if m.partial != nil {
			partial += " " + imp(lonely(ms, i, "r"), m.partial("(select "+cur+" r)", "(select "+old+" r)"))
		}
	}
	f := fmt.Sprintf("(forall ((r Int)) (! (=> %s (= (select %s r) (select %s r))) :pattern ((select %s r))))", and(exc...), cur, old, cur)
	if partial != "" {
		f = fmt.Sprintf("(and %s (forall ((r Int)) (! (and true%s) :pattern ((select %s r)))))", f, partial, cur)
	}
	return f, true
}

// block executes the instructions of a block.
func (t *Task) block(fr *Frame, b *ssa.BasicBlock, st *State, reach string, rets *[]retRec) (*State, string) {
	for _, in := range b.Instrs {
		switch x := in.(type) {
		case *ssa.Phi, *ssa.DebugRef, *ssa.If, *ssa.Jump:
		case *ssa.Return:
			var rs []Val
			for _, r := range x.Results {
				rs = append(rs, t.val(fr, r))
			}
			*rets = append(*rets, retRec{reach, st, rs, b, x.Pos()})
			return nil, ""
		case *ssa.Panic:
			t.panicIf(fr, "explicit panic", x.Pos(), reach, "true")
			return nil, ""
		case *ssa.RunDefers:
			st, reach = t.runDefers(fr, st, reach)
		default:
			st, reach = t.instr(fr, in, st, reach)
			if st == nil {
				return nil, ""
			}
		}
	}
	return st, reach
}

func (t *Task) panicIf(fr *Frame, what string, pos token.Pos, reach, cond string) {
	if t.nopanic && cond != "false" {
		t.oblige(t.name+"/nopanic/"+what, what+" must be unreachable", t.p.pos(pos), and(reach, cond), "false")
	}
	t.assumeR(reach, not(cond))
}

func (t *Task) runDefers(fr *Frame, st *State, reach string) (*State, string) {
	for i := len(fr.defers) - 1; i >= 0; i-- {
		d := fr.defers[i]
		if d.loop {
			// any number of executions: havoc what the call may write
			eff := newEffects()
			t.v.callEffects(d.call, eff)
			st = st.clone()
			if eff.all {
				t.havocAll(st)
				continue
			}
			for _, k := range sortedKeys(eff.keys) {
				t.keyKnown(k)
				t.havocKey(st, k)
			}
			t.notes["deferred call in a loop abstracted to its write set"] = true
			continue
		}
		if reach == d.reach {
			_, st, reach = t.call(fr, d.call, d.fnv, d.args, st, reach, d.instr)
			continue
		}
		c1 := t.reachBool(and(reach, d.reach))
		c2 := t.reachBool(and(reach, not(d.reach)))
		_, s1, r1 := t.call(fr, d.call, d.fnv, d.args, st.clone(), c1, d.instr)
		if s1 == nil {
			reach = c2
			continue
		}
		st, reach = t.merge([]inEdge{{r1, s1, nil}, {c2, st, nil}})
	}
	return st, reach
}

func (t *Task) keyKnown(k string) {
	if _, ok := t.keySort[k]; ok {
		return
	}
	if f := t.v.keyMakers[k]; f != nil {
		f(t)
	}
}

// execBody runs fn to completion and merges its returns.
func (t *Task) execBody(fn *ssa.Function, args []Val, bind []Val, st *State, reach string, parent *Frame, cb *ssa.BasicBlock) (Val, *State, string) {
	fr := t.newFrame(fn, args, bind, parent, cb)
	rets := t.runFn(fr, st, reach)
	if len(rets) == 0 {
		return Val{}, nil, ""
	}
	var ins []inEdge
	for _, r := range rets {
		ins = append(ins, inEdge{r.cond, r.st, nil})
	}
	out, rr := t.merge(ins)
	n := len(rets[0].results)
	var res []Val
	for i := 0; i < n; i++ {
		var vs []Val
		for _, r := range rets {
			vs = append(vs, r.results[i])
		}
		res = append(res, t.mergeVals(vs, ins, fn.Signature.Results().At(i).Type(), "ret"))
	}
	switch n {
	case 0:
		return Val{K: vTuple}, out, rr
	case 1:
		return res[0], out, rr
	}
	return Val{K: vTuple, Tup: res}, out, rr
}

func (t *Task) newFrame(fn *ssa.Function, args []Val, bind []Val, parent *Frame, cb *ssa.BasicBlock) *Frame {
	t.frames++
	fr := &Frame{fn: fn, vals: map[ssa.Value]Val{}, parent: parent, cblock: cb, id: t.frames}
	if parent != nil {
		fr.depth = parent.depth + 1
	}
	if fr.depth > 24 {
		t.unsup("inlining too deep at %s", fn)
	}
	for p := parent; p != nil; p = p.parent {
		if p.fn == fn {
			t.unsup("recursive function %s without a contract", fn)
		}
	}
	if len(args) != len(fn.Params) {
		t.unsup("argument count for %s", fn)
	}
	for i, p := range fn.Params {
		fr.vals[p] = args[i]
	}
	for i, v := range fn.FreeVars {
		if i < len(bind) {
			fr.vals[v] = bind[i]
		}
	}
	fr.loops = findLoops(fn)
	return fr
}

func (t *Task) runFn(fr *Frame, st *State, reach string) []retRec {
	order := rpo(fr.fn)
	// irreducible control flow is not supported
	ins := map[*ssa.BasicBlock][]inEdge{}
	ins[fr.fn.Blocks[0]] = []inEdge{{reach, st, nil}}
	return t.runBlocks(fr, order, nil, ins, nil, nil, "")
}

func sortVals(vs []ssa.Value) {
	sort.Slice(vs, func(i, j int) bool { return vs[i].Name() < vs[j].Name() })
}
