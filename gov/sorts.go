package main

import (
	"fmt"
	"go/types"
	"regexp"
	"sort"
	"strings"
)

// Ty is a type of the logic: an SMT sort plus, where it has one, the Go type.
type Ty struct {
	Sort  string
	G     types.Type
	Elem  *Ty // for sequences
	Seq   bool
	Lit   bool // untyped literal
	Model bool // model of an opaque library type
}

type Term struct {
	S string
	T *Ty
}

var (
	tyInt  = &Ty{Sort: "Int"}
	tyBool = &Ty{Sort: "Bool"}
	tyStr  = &Ty{Sort: "Seq_Int", Seq: true, Elem: &Ty{Sort: "Int"}}
)

// Decl is one declaration of the prelude; it is emitted only where its symbol is used.
type Decl struct {
	Sym   string
	Text  string
	Deps  []string
	order int
}

// Axiom is emitted when every symbol in one of its key groups is in use.
type Axiom struct {
	Name  string
	Text  string
	Keys  [][]string
	order int
	Kind  string // "theory", "def", "axiom", "lemma"
	seen  bool
	Excl  map[string]bool
}

type Registry struct {
	decls  map[string]*Decl
	axioms []*Axiom
	n      int
	parent *Registry
}

func newRegistry(p *Registry) *Registry {
	return &Registry{decls: map[string]*Decl{}, parent: p}
}

func (r *Registry) find(s string) *Decl {
	for x := r; x != nil; x = x.parent {
		if d, ok := x.decls[s]; ok {
			return d
		}
	}
	return nil
}

var globalOrder int

func (r *Registry) declare(sym, text string, also ...string) {
	if r.find(sym) != nil {
		return
	}
	globalOrder++
	d := &Decl{Sym: sym, Text: text, order: globalOrder}
	r.decls[sym] = d
	for _, a := range also {
		r.decls[a] = d
	}
}

func (r *Registry) axiom(kind, name, text string, keys ...[]string) *Axiom {
	globalOrder++
	a := &Axiom{Name: name, Text: text, Keys: keys, order: globalOrder, Kind: kind}
	r.axioms = append(r.axioms, a)
	return a
}

func symTokens(s string) []string {
	var out []string
	start := -1
	for i := 0; i <= len(s); i++ {
		var c byte
		if i < len(s) {
			c = s[i]
		}
		if i < len(s) && c != '(' && c != ')' && c != ' ' && c != '\n' && c != '\t' {
			if start < 0 {
				start = i
			}
			continue
		}
		if start >= 0 {
			out = append(out, s[start:i])
			start = -1
		}
	}
	return out
}

// closure computes the declarations and axioms needed by the given texts.
func (r *Registry) closure(texts []string, exclude map[string]bool) (decls []*Decl, axioms []*Axiom) {
	seenD := map[*Decl]bool{}
	used := map[string]bool{}
	var work []string
	addText := func(t string) { work = append(work, t) }
	for _, t := range texts {
		addText(t)
	}
	var all []*Axiom
	for x := r; x != nil; x = x.parent {
		all = append(all, x.axioms...)
	}
	usedA := map[*Axiom]bool{}
	for {
		for len(work) > 0 {
			t := work[len(work)-1]
			work = work[:len(work)-1]
			for _, s := range symTokens(t) {
				if used[s] {
					continue
				}
				if d := r.find(s); d != nil {
					used[s] = true
					if !seenD[d] {
						seenD[d] = true
						decls = append(decls, d)
						addText(d.Text)
					}
				}
			}
		}
		progress := false
		for _, a := range all {
			if usedA[a] || exclude[a.Name] {
				continue
			}
			for _, ks := range a.Keys {
				ok := true
				for _, k := range ks {
					if !used[k] {
						ok = false
						break
					}
				}
				if ok {
					usedA[a] = true
					axioms = append(axioms, a)
					addText(a.Text)
					progress = true
					break
				}
			}
		}
		if !progress {
			break
		}
	}
	sort.Slice(decls, func(i, j int) bool { return decls[i].order < decls[j].order })
	sort.Slice(axioms, func(i, j int) bool { return axioms[i].order < axioms[j].order })
	return
}

func sanitize(s string) string {
	var b strings.Builder
	for _, c := range s {
		switch {
		case c >= 'a' && c <= 'z', c >= 'A' && c <= 'Z', c >= '0' && c <= '9', c == '_', c == '.', c == '$':
			b.WriteRune(c)
		case c == '*':
			b.WriteString("ptr.")
		case c == '[':
			b.WriteString("sl.")
		case c == ']':
			b.WriteString(".")
		case c == '/':
			b.WriteString("..")
		default:
			fmt.Fprintf(&b, "_%x", c)
		}
	}
	return b.String()
}

const modulePrefix = "github.com/maxnikulin/burl/pkg/"

func qualifier(p *types.Package) string {
	return strings.TrimPrefix(strings.TrimPrefix(p.Path(), modulePrefix), "github.com/maxnikulin/burl/")
}

var reByte = regexp.MustCompile(`\bbyte\b`)
var reRune = regexp.MustCompile(`\brune\b`)
var reAny = regexp.MustCompile(`\bany\b`)
var typeKeys = map[types.Type]string{}

func typeKey(t types.Type) string {
	if k, ok := typeKeys[t]; ok {
		return k
	}
	k := types.TypeString(types.Unalias(t), qualifier)
	k = reByte.ReplaceAllString(k, "uint8")
	k = reRune.ReplaceAllString(k, "int32")
	k = reAny.ReplaceAllString(k, "interface{}")
	typeKeys[t] = k
	return k
}

// Ctx is shared by all verification tasks of a run.
type Ctx struct {
	reg   *Registry
	tys   map[string]*Ty
	tags  map[string]int
	tagT  map[string]types.Type
	lits  map[string]string
	prog  *Program
	impls map[string]bool
	v     *Verifier
}

func newCtx() *Ctx {
	c := &Ctx{reg: newRegistry(nil), tys: map[string]*Ty{}, tags: map[string]int{}, tagT: map[string]types.Type{},
		lits: map[string]string{}, impls: map[string]bool{}}
	c.prelude()
	return c
}

func (c *Ctx) prelude() {
	r := c.reg
	r.declare("Slice", "(declare-datatypes ((Slice 0)) (((mk-slice (sref Int) (soff Int) (slen Int) (scap Int)))))",
		"mk-slice", "sref", "soff", "slen", "scap")
	r.declare("Iface", "(declare-datatypes ((Iface 0)) (((mk-iface (itag Int) (iref Int)))))", "mk-iface", "itag", "iref")
	r.declare("root", "(declare-fun root (Int) Int)")
	r.axiom("theory", "root", "(forall ((r Int)) (! (=> (>= r 0) (= (root r) r)) :pattern ((root r))))", []string{"root"})
	r.declare("Float", "(declare-sort Float 0)")
	// truncated division
	r.declare("tdiv", "(define-fun tdiv ((a Int) (b Int)) Int (ite (>= a 0) (div a b) (- (div (- a) b))))")
	r.declare("trem", "(define-fun trem ((a Int) (b Int)) Int (- a (* b (tdiv a b))))")
	// bits
	r.declare("bit", "(declare-fun bit (Int Int) Bool)")
	r.declare("bitand", "(declare-fun bitand (Int Int) Int)")
	r.declare("bitor", "(declare-fun bitor (Int Int) Int)")
	r.declare("bitxor", "(declare-fun bitxor (Int Int) Int)")
	r.declare("bitandnot", "(declare-fun bitandnot (Int Int) Int)")
	r.axiom("theory", "bitand", "(forall ((x Int) (y Int) (k Int)) (! (= (bit (bitand x y) k) (and (bit x k) (bit y k))) :pattern ((bit (bitand x y) k))))", []string{"bitand", "bit"})
	r.axiom("theory", "bitor", "(forall ((x Int) (y Int) (k Int)) (! (= (bit (bitor x y) k) (or (bit x k) (bit y k))) :pattern ((bit (bitor x y) k))))", []string{"bitor", "bit"})
	r.axiom("theory", "bitxor", "(forall ((x Int) (y Int) (k Int)) (! (= (bit (bitxor x y) k) (xor (bit x k) (bit y k))) :pattern ((bit (bitxor x y) k))))", []string{"bitxor", "bit"})
	r.axiom("theory", "bitandnot", "(forall ((x Int) (y Int) (k Int)) (! (= (bit (bitandnot x y) k) (and (bit x k) (not (bit y k)))) :pattern ((bit (bitandnot x y) k))))", []string{"bitandnot", "bit"})
	for _, f := range []string{"bitand", "bitor", "bitxor", "bitandnot"} {
		r.axiom("theory", f+"-range", fmt.Sprintf("(forall ((x Int) (y Int)) (! (=> (and (>= x 0) (>= y 0)) (and (>= (%s x y) 0) %s)) :pattern ((%s x y))))", f,
			map[string]string{"bitand": "(<= (bitand x y) x) (<= (bitand x y) y)", "bitor": "(<= (bitor x y) (+ x y)) (>= (bitor x y) x) (>= (bitor x y) y)", "bitxor": "(<= (bitxor x y) (+ x y))", "bitandnot": "(<= (bitandnot x y) x)"}[f], f), []string{f})
		var bs []string
		for k := 0; k < 32; k++ {
			bs = append(bs, fmt.Sprintf("(bit (%s x y) %d)", f, k))
		}
		r.axiom("theory", f+"-zero", fmt.Sprintf("(forall ((x Int) (y Int)) (! (=> (and (<= 0 x 4294967295) (<= 0 y 4294967295)) (= (not (= (%s x y) 0)) (or %s))) :pattern ((%s x y))))", f, strings.Join(bs, " "), f), []string{f})
	}
	r.axiom("theory", "bit-zero", "(forall ((k Int)) (! (not (bit 0 k)) :pattern ((bit 0 k))))", []string{"bit"})
	c.seqSort("Int")
	r.declare("strlt", "(declare-fun strlt (Seq_Int Seq_Int) Bool)")
	r.axiom("theory", "strlt-total", "(forall ((a Seq_Int) (b Seq_Int)) (! (and (not (and (strlt a b) (strlt b a))) (or (strlt a b) (strlt b a) (= a b)) (=> (= a b) (not (strlt a b)))) :pattern ((strlt a b))))", []string{"strlt"})
	r.axiom("theory", "strlt-trans", "(forall ((a Seq_Int) (b Seq_Int) (c Seq_Int)) (! (=> (and (strlt a b) (strlt b c)) (strlt a c)) :pattern ((strlt a b) (strlt b c))))", []string{"strlt"})
	r.declare("runesof", "(declare-fun runesof (Seq_Int) Seq_Int)")
	r.declare("runepos", "(declare-fun runepos (Seq_Int Int) Int)")
	r.declare("utf8enc", "(declare-fun utf8enc (Seq_Int) Seq_Int)")
	r.declare("validutf8", "(declare-fun validutf8 (Seq_Int) Bool)")
	r.axiom("theory", "utf8-dec-enc", "(forall ((s Seq_Int)) (! (=> (validutf8 s) (= (utf8enc (runesof s)) s)) :pattern ((runesof s)) :pattern ((validutf8 s))))", []string{"runesof"}, []string{"validutf8"})
	r.axiom("theory", "runes-len", "(forall ((s Seq_Int)) (! (and (<= (seqlen_Int (runesof s)) (seqlen_Int s)) (= (= (seqlen_Int (runesof s)) 0) (= (seqlen_Int s) 0))) :pattern ((runesof s))))", []string{"runesof"})
	r.axiom("theory", "runes-valid", "(forall ((s Seq_Int) (i Int)) (! (=> (and (<= 0 i) (< i (seqlen_Int (runesof s)))) (and (<= 0 (seqat_Int (runesof s) i)) (<= (seqat_Int (runesof s) i) 1114111))) :pattern ((seqat_Int (runesof s) i))))", []string{"runesof"})
	r.axiom("theory", "utf8enc-empty", "(= (utf8enc seqempty_Int) seqempty_Int)", []string{"utf8enc"})
}

// seqSort declares finite sequences over an element sort, with their axioms.
func (c *Ctx) seqSort(e string) string {
	k := sanitize(e)
	name := "Seq_" + k
	r := c.reg
	if r.find(name) != nil {
		return name
	}
	S := func(f string) string {
		return strings.NewReplacer("SEQ", name, "ELEM", e, "@", "_"+k).Replace(f)
	}
	D := func(sym, text string) { r.declare(S(sym), S(text)) }
	A := func(n, text string, keys ...string) {
		var ks [][]string
		for _, key := range keys {
			var one []string
			for _, x := range strings.Fields(key) {
				one = append(one, S(x))
			}
			ks = append(ks, one)
		}
		r.axiom("theory", S(n+"@"), S(text), ks...)
	}
	D("SEQ", "(declare-sort SEQ 0)")
	D("seqlen@", "(declare-fun seqlen@ (SEQ) Int)")
	D("seqat@", "(declare-fun seqat@ (SEQ Int) ELEM)")
	D("seqempty@", "(declare-const seqempty@ SEQ)")
	D("sequnit@", "(declare-fun sequnit@ (ELEM) SEQ)")
	D("seqcat@", "(declare-fun seqcat@ (SEQ SEQ) SEQ)")
	D("seqtake@", "(declare-fun seqtake@ (SEQ Int) SEQ)")
	D("seqdrop@", "(declare-fun seqdrop@ (SEQ Int) SEQ)")
	D("seqof@", "(declare-fun seqof@ ((Array Int ELEM) Int Int) SEQ)")
	D("seqeq@", "(declare-fun seqeq@ (SEQ SEQ) Bool)")
	D("seqpfx@", "(declare-fun seqpfx@ (SEQ SEQ) Bool)")
	D("seqsfx@", "(declare-fun seqsfx@ (SEQ SEQ) Bool)")
	D("seqhas@", "(declare-fun seqhas@ (SEQ SEQ) Bool)")
	A("seqlen-nn", "(forall ((s SEQ)) (! (>= (seqlen@ s) 0) :pattern ((seqlen@ s))))", "seqlen@")
	A("seqlen-empty", "(= (seqlen@ seqempty@) 0)", "seqempty@")
	A("seqlen-0", "(forall ((s SEQ)) (! (=> (= (seqlen@ s) 0) (= s seqempty@)) :pattern ((seqlen@ s))))", "seqlen@ seqempty@", "seqlen@ seqtake@", "seqlen@ seqdrop@", "seqlen@ seqcat@")
	A("sequnit", "(forall ((e ELEM)) (! (and (= (seqlen@ (sequnit@ e)) 1) (= (seqat@ (sequnit@ e) 0) e)) :pattern ((sequnit@ e))))", "sequnit@")
	A("seqcat-len", "(forall ((a SEQ) (b SEQ)) (! (= (seqlen@ (seqcat@ a b)) (+ (seqlen@ a) (seqlen@ b))) :pattern ((seqcat@ a b))))", "seqcat@")
	A("seqcat-at", "(forall ((a SEQ) (b SEQ) (i Int)) (! (= (seqat@ (seqcat@ a b) i) (ite (< i (seqlen@ a)) (seqat@ a i) (seqat@ b (- i (seqlen@ a))))) :pattern ((seqat@ (seqcat@ a b) i))))", "seqcat@ seqat@")
	A("seqcat-e1", "(forall ((a SEQ)) (! (= (seqcat@ seqempty@ a) a) :pattern ((seqcat@ seqempty@ a))))", "seqcat@")
	A("seqcat-e2", "(forall ((a SEQ)) (! (= (seqcat@ a seqempty@) a) :pattern ((seqcat@ a seqempty@))))", "seqcat@")
	A("seqcat-assoc", "(forall ((a SEQ) (b SEQ) (c SEQ)) (! (= (seqcat@ (seqcat@ a b) c) (seqcat@ a (seqcat@ b c))) :pattern ((seqcat@ (seqcat@ a b) c))))", "seqcat@")
	A("seqtake-len", "(forall ((s SEQ) (n Int)) (! (=> (and (<= 0 n) (<= n (seqlen@ s))) (= (seqlen@ (seqtake@ s n)) n)) :pattern ((seqtake@ s n))))", "seqtake@")
	A("seqtake-at", "(forall ((s SEQ) (n Int) (i Int)) (! (=> (and (<= 0 i) (< i n) (<= n (seqlen@ s))) (= (seqat@ (seqtake@ s n) i) (seqat@ s i))) :pattern ((seqat@ (seqtake@ s n) i)) :pattern ((seqtake@ s n) (seqat@ s i))))", "seqtake@ seqat@")
	A("seqtake-all", "(forall ((s SEQ) (n Int)) (! (=> (= n (seqlen@ s)) (= (seqtake@ s n) s)) :pattern ((seqtake@ s n))))", "seqtake@")
	A("seqtake-0", "(forall ((s SEQ) (n Int)) (! (=> (= n 0) (= (seqtake@ s n) seqempty@)) :pattern ((seqtake@ s n))))", "seqtake@")
	A("seqdrop-len", "(forall ((s SEQ) (n Int)) (! (=> (and (<= 0 n) (<= n (seqlen@ s))) (= (seqlen@ (seqdrop@ s n)) (- (seqlen@ s) n))) :pattern ((seqdrop@ s n))))", "seqdrop@")
	A("seqdrop-at", "(forall ((s SEQ) (n Int) (i Int)) (! (=> (and (<= 0 n) (<= 0 i) (< i (- (seqlen@ s) n))) (= (seqat@ (seqdrop@ s n) i) (seqat@ s (+ i n)))) :pattern ((seqat@ (seqdrop@ s n) i))))", "seqdrop@ seqat@")
	A("seqdrop-0", "(forall ((s SEQ) (n Int)) (! (=> (= n 0) (= (seqdrop@ s n) s)) :pattern ((seqdrop@ s n))))", "seqdrop@")
	A("seqdrop-all", "(forall ((s SEQ) (n Int)) (! (=> (= n (seqlen@ s)) (= (seqdrop@ s n) seqempty@)) :pattern ((seqdrop@ s n))))", "seqdrop@")
	A("seqtakecat", "(forall ((a SEQ) (b SEQ) (n Int)) (! (=> (and (<= 0 n) (<= n (seqlen@ a))) (= (seqtake@ (seqcat@ a b) n) (seqtake@ a n))) :pattern ((seqtake@ (seqcat@ a b) n))))", "seqtake@ seqcat@")
	A("seqdropcat", "(forall ((a SEQ) (b SEQ) (n Int)) (! (=> (and (>= n (seqlen@ a)) (<= n (+ (seqlen@ a) (seqlen@ b)))) (= (seqdrop@ (seqcat@ a b) n) (seqdrop@ b (- n (seqlen@ a))))) :pattern ((seqdrop@ (seqcat@ a b) n))))", "seqdrop@ seqcat@")
	A("seqdropcat2", "(forall ((a SEQ) (b SEQ) (n Int)) (! (=> (and (<= 0 n) (<= n (seqlen@ a))) (= (seqdrop@ (seqcat@ a b) n) (seqcat@ (seqdrop@ a n) b))) :pattern ((seqdrop@ (seqcat@ a b) n))))", "seqdrop@ seqcat@")
	A("seqtakedrop", "(forall ((s SEQ) (n Int)) (! (=> (and (<= 0 n) (<= n (seqlen@ s))) (= (seqcat@ (seqtake@ s n) (seqdrop@ s n)) s)) :pattern ((seqtake@ s n) (seqdrop@ s n))))", "seqtake@ seqdrop@ seqcat@")
	A("seqtaketake", "(forall ((s SEQ) (n Int) (m Int)) (! (=> (and (<= 0 m) (<= m n) (<= n (seqlen@ s))) (= (seqtake@ (seqtake@ s n) m) (seqtake@ s m))) :pattern ((seqtake@ (seqtake@ s n) m))))", "seqtake@")
	A("seqdropdrop", "(forall ((s SEQ) (n Int) (m Int)) (! (=> (and (<= 0 m) (<= 0 n) (<= (+ n m) (seqlen@ s))) (= (seqdrop@ (seqdrop@ s n) m) (seqdrop@ s (+ n m)))) :pattern ((seqdrop@ (seqdrop@ s n) m))))", "seqdrop@")
	A("seqof-len", "(forall ((a (Array Int ELEM)) (o Int) (n Int)) (! (=> (>= n 0) (= (seqlen@ (seqof@ a o n)) n)) :pattern ((seqof@ a o n))))", "seqof@")
	A("seqof-0", "(forall ((a (Array Int ELEM)) (o Int)) (! (= (seqof@ a o 0) seqempty@) :pattern ((seqof@ a o 0))))", "seqof@")
	A("seqof-at", "(forall ((a (Array Int ELEM)) (o Int) (n Int) (i Int)) (! (=> (and (<= 0 i) (< i n)) (= (seqat@ (seqof@ a o n) i) (select a (+ o i)))) :pattern ((seqat@ (seqof@ a o n) i))))", "seqof@ seqat@")
	A("seqof-store-out", "(forall ((a (Array Int ELEM)) (o Int) (n Int) (k Int) (e ELEM)) (! (=> (or (< k o) (>= k (+ o n))) (= (seqof@ (store a k e) o n) (seqof@ a o n))) :pattern ((seqof@ (store a k e) o n))))", "seqof@")
	A("seqof-store-last", "(forall ((a (Array Int ELEM)) (o Int) (n Int) (k Int) (e ELEM)) (! (=> (and (>= n 1) (= k (- (+ o n) 1))) (= (seqof@ (store a k e) o n) (seqcat@ (seqof@ a o (- n 1)) (sequnit@ e)))) :pattern ((seqof@ (store a k e) o n))))", "seqof@")
	A("seqtake-seqof", "(forall ((a (Array Int ELEM)) (o Int) (n Int) (m Int)) (! (=> (and (<= 0 m) (<= m n)) (= (seqtake@ (seqof@ a o n) m) (seqof@ a o m))) :pattern ((seqtake@ (seqof@ a o n) m))))", "seqof@ seqtake@")
	A("seqdrop-seqof", "(forall ((a (Array Int ELEM)) (o Int) (n Int) (m Int)) (! (=> (and (<= 0 m) (<= m n)) (= (seqdrop@ (seqof@ a o n) m) (seqof@ a (+ o m) (- n m)))) :pattern ((seqdrop@ (seqof@ a o n) m))))", "seqof@ seqdrop@")
	A("seqeq-def", "(forall ((a SEQ) (b SEQ)) (! (=> (and (= (seqlen@ a) (seqlen@ b)) (forall ((i Int)) (! (=> (and (<= 0 i) (< i (seqlen@ a))) (= (seqat@ a i) (seqat@ b i))) :pattern ((seqat@ a i)) :pattern ((seqat@ b i))))) (seqeq@ a b)) :pattern ((seqeq@ a b))))", "seqeq@")
	A("seqeq-eq", "(forall ((a SEQ) (b SEQ)) (! (= (seqeq@ a b) (= a b)) :pattern ((seqeq@ a b))))", "seqeq@")
	A("seqpfx-def", "(forall ((a SEQ) (b SEQ)) (! (= (seqpfx@ a b) (and (<= (seqlen@ b) (seqlen@ a)) (seqeq@ (seqtake@ a (seqlen@ b)) b))) :pattern ((seqpfx@ a b))))", "seqpfx@")
	A("seqsfx-def", "(forall ((a SEQ) (b SEQ)) (! (= (seqsfx@ a b) (and (<= (seqlen@ b) (seqlen@ a)) (seqeq@ (seqdrop@ a (- (seqlen@ a) (seqlen@ b))) b))) :pattern ((seqsfx@ a b))))", "seqsfx@")
	A("seqhas-e", "(forall ((a SEQ) (b SEQ)) (! (=> (= (seqlen@ b) 0) (seqhas@ a b)) :pattern ((seqhas@ a b))))", "seqhas@")
	A("seqhas-len", "(forall ((a SEQ) (b SEQ)) (! (=> (seqhas@ a b) (<= (seqlen@ b) (seqlen@ a))) :pattern ((seqhas@ a b))))", "seqhas@")
	// masked copy of an array (append that reallocates) and block copy
	return name
}

func (c *Ctx) arrOps(e string, zero string) (mask, blend string) {
	k := sanitize(e)
	mask, blend = "mask_"+k, "blend_"+k
	r := c.reg
	if r.find(mask) == nil {
		r.declare(mask, fmt.Sprintf("(declare-fun %s ((Array Int %s) Int) (Array Int %s))", mask, e, e))
		r.axiom("theory", mask, fmt.Sprintf("(forall ((a (Array Int %s)) (n Int) (k Int)) (! (= (select (%s a n) k) (ite (< k n) (select a k) %s)) :pattern ((select (%s a n) k))))", e, mask, zero, mask), []string{mask})
		r.axiom("theory", mask+"-seq", fmt.Sprintf("(forall ((a (Array Int %s)) (n Int) (o Int) (m Int)) (! (=> (<= (+ o m) n) (= (seqof_%s (%s a n) o m) (seqof_%s a o m))) :pattern ((seqof_%s (%s a n) o m))))", e, k, mask, k, k, mask), []string{mask, "seqof_" + k})
		r.declare(blend, fmt.Sprintf("(declare-fun %s ((Array Int %s) Int (Array Int %s) Int Int) (Array Int %s))", blend, e, e, e))
		r.axiom("theory", blend, fmt.Sprintf("(forall ((a (Array Int %s)) (p Int) (b (Array Int %s)) (q Int) (n Int) (k Int)) (! (= (select (%s a p b q n) k) (ite (and (<= p k) (< k (+ p n))) (select b (+ q (- k p))) (select a k))) :pattern ((select (%s a p b q n) k))))", e, e, blend, blend), []string{blend})
		r.axiom("theory", blend+"-seq", fmt.Sprintf("(forall ((a (Array Int %s)) (p Int) (b (Array Int %s)) (q Int) (n Int) (o Int) (m Int)) (! (=> (and (>= n 0) (<= o p) (= (+ o m) (+ p n))) (= (seqof_%s (%s a p b q n) o m) (seqcat_%s (seqof_%s a o (- p o)) (seqof_%s b q n)))) :pattern ((seqof_%s (%s a p b q n) o m))))", e, e, k, blend, k, k, k, k, blend), []string{blend, "seqof_" + k})
		r.axiom("theory", blend+"-seq2", fmt.Sprintf("(forall ((a (Array Int %s)) (p Int) (b (Array Int %s)) (q Int) (n Int) (o Int) (m Int)) (! (=> (or (<= n 0) (<= (+ o m) p) (>= o (+ p n))) (= (seqof_%s (%s a p b q n) o m) (seqof_%s a o m))) :pattern ((seqof_%s (%s a p b q n) o m))))", e, e, k, blend, k, k, blend), []string{blend, "seqof_" + k})
	}
	return
}

func (c *Ctx) seqTy(elem *Ty) *Ty {
	if elem.Sort == "Int" {
		return &Ty{Sort: "Seq_Int", Seq: true, Elem: elem}
	}
	return &Ty{Sort: c.seqSort(elem.Sort), Seq: true, Elem: elem}
}

// lit returns the constant symbol of a string literal.
func (c *Ctx) lit(s string) string {
	if s == "" {
		return "seqempty_Int"
	}
	if n, ok := c.lits[s]; ok {
		return n
	}
	n := fmt.Sprintf("lit!%d", len(c.lits)+1)
	c.lits[s] = n
	c.reg.declare(n, fmt.Sprintf("(declare-const %s Seq_Int) ; %q", n, s))
	var b strings.Builder
	fmt.Fprintf(&b, "(and (= (seqlen_Int %s) %d)", n, len(s))
	if len(s) <= 400 {
		for i := 0; i < len(s); i++ {
			fmt.Fprintf(&b, " (= (seqat_Int %s %d) %d)", n, i, s[i])
		}
	}
	ascii := true
	for i := 0; i < len(s); i++ {
		if s[i] >= 0x80 {
			ascii = false
		}
	}
	b.WriteString(")")
	c.reg.axiom("theory", n, b.String(), []string{n})
	if ascii {
		c.reg.axiom("theory", n+"-utf8", fmt.Sprintf("(validutf8 %s)", n), []string{n, "validutf8"})
	}
	return n
}

func (c *Ctx) goTy(t types.Type) *Ty {
	t = types.Unalias(t)
	key := typeKey(t)
	if ty, ok := c.tys[key]; ok {
		return ty
	}
	ty := &Ty{G: t}
	c.tys[key] = ty
	if c.prog != nil {
		if m, ok := c.prog.models[key]; ok {
			mt := c.specTy(m)
			*ty = *mt
			ty.G = t
			ty.Model = true
			return ty
		}
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		info := u.Info()
		switch {
		case info&types.IsBoolean != 0:
			ty.Sort = "Bool"
		case info&types.IsInteger != 0 || u.Kind() == types.UnsafePointer:
			ty.Sort = "Int"
		case info&types.IsString != 0:
			ty.Sort = "Seq_Int"
			ty.Seq = true
			ty.Elem = c.goTy(types.Typ[types.Uint8])
		case u.Kind() == types.UntypedNil:
			ty.Sort = "Int"
		default:
			ty.Sort = "Float"
		}
	case *types.Pointer, *types.Map, *types.Chan, *types.Signature:
		ty.Sort = "Int"
	case *types.Slice:
		ty.Sort = "Slice"
	case *types.Interface:
		ty.Sort = "Iface"
	case *types.Array:
		ty.Sort = "(Array Int " + c.goTy(u.Elem()).Sort + ")"
	case *types.Struct:
		name := "T." + sanitize(key)
		if len(name) > 120 {
			name = fmt.Sprintf("T.anon%d", len(c.tys))
		}
		ty.Sort = name
		var b strings.Builder
		var also []string
		fmt.Fprintf(&b, "(declare-datatypes ((%s 0)) (((mk.%s", name, name)
		also = append(also, "mk."+name)
		for i := 0; i < u.NumFields(); i++ {
			f := u.Field(i)
			sel := selName(name, i, f.Name())
			also = append(also, sel)
			fmt.Fprintf(&b, " (%s %s)", sel, c.goTy(f.Type()).Sort)
		}
		if u.NumFields() == 0 {
			fmt.Fprintf(&b, " (%s Int)", name+".unit")
			also = append(also, name+".unit")
		}
		b.WriteString("))))")
		c.reg.declare(name, b.String(), also...)
	case *types.Tuple:
		ty.Sort = "Int"
	default:
		ty.Sort = "Int"
	}
	return ty
}

func selName(sort string, i int, f string) string {
	return fmt.Sprintf("%s.%d.%s", sort, i, sanitize(f))
}

func (c *Ctx) zero(t types.Type) string {
	ty := c.goTy(t)
	if ty.Model {
		return c.zeroSort(ty.Sort)
	}
	switch u := types.Unalias(t).Underlying().(type) {
	case *types.Struct:
		if u.NumFields() == 0 {
			return "(mk." + ty.Sort + " 0)"
		}
		var b strings.Builder
		b.WriteString("(mk." + ty.Sort)
		for i := 0; i < u.NumFields(); i++ {
			b.WriteString(" " + c.zero(u.Field(i).Type()))
		}
		b.WriteString(")")
		return b.String()
	case *types.Array:
		return c.constArr(ty.Sort, c.zero(u.Elem()))
	case *types.Slice:
		return "(mk-slice 0 0 0 0)"
	case *types.Interface:
		return "(mk-iface 0 0)"
	}
	return c.zeroSort(ty.Sort)
}

func (c *Ctx) zeroSort(s string) string {
	switch {
	case s == "Bool":
		return "false"
	case s == "Slice":
		return "(mk-slice 0 0 0 0)"
	case s == "Iface":
		return "(mk-iface 0 0)"
	case strings.HasPrefix(s, "Seq_"):
		return "seqempty_" + s[4:]
	case s == "Float":
		c.reg.declare("float0", "(declare-const float0 Float)")
		return "float0"
	}
	return "0"
}

// tag of a dynamic type.
func (c *Ctx) tag(t types.Type) int {
	k := typeKey(t)
	if n, ok := c.tags[k]; ok {
		return n
	}
	n := 100 + len(c.tags)
	c.tags[k] = n
	c.tagT[k] = t
	return n
}

func (c *Ctx) box(sort string) (box, unbox string) {
	k := sanitize(sort)
	box, unbox = "box_"+k, "unbox_"+k
	if c.reg.find(box) == nil {
		c.reg.declare(box, fmt.Sprintf("(declare-fun %s (%s) Int)", box, sort))
		c.reg.declare(unbox, fmt.Sprintf("(declare-fun %s (Int) %s)", unbox, sort))
		c.reg.axiom("theory", box, fmt.Sprintf("(forall ((x %s)) (! (and (= (%s (%s x)) x) (< (%s x) 0) (= (root (%s x)) 0)) :pattern ((%s x))))", sort, unbox, box, box, box, box), []string{box})
	}
	return
}

func intRange(t types.Type) (lo, hi string, ok bool) {
	b, isB := types.Unalias(t).Underlying().(*types.Basic)
	if !isB {
		return
	}
	switch b.Kind() {
	case types.Int, types.Int64, types.UntypedInt:
		return "(- 9223372036854775808)", "9223372036854775807", true
	case types.Int32, types.UntypedRune:
		return "(- 2147483648)", "2147483647", true
	case types.Int16:
		return "(- 32768)", "32767", true
	case types.Int8:
		return "(- 128)", "127", true
	case types.Uint, types.Uint64, types.Uintptr:
		return "0", "18446744073709551615", true
	case types.Uint32:
		return "0", "4294967295", true
	case types.Uint16:
		return "0", "65535", true
	case types.Uint8:
		return "0", "255", true
	}
	return
}

func intBits(t types.Type) (bits int, signed bool) {
	b, isB := types.Unalias(t).Underlying().(*types.Basic)
	if !isB {
		return 64, true
	}
	switch b.Kind() {
	case types.Int32, types.UntypedRune:
		return 32, true
	case types.Int16:
		return 16, true
	case types.Int8:
		return 8, true
	case types.Uint, types.Uint64, types.Uintptr:
		return 64, false
	case types.Uint32:
		return 32, false
	case types.Uint16:
		return 16, false
	case types.Uint8:
		return 8, false
	}
	return 64, true
}

// constArr is the array holding z everywhere. Where z is not a value every
// solver accepts in a constant array, the array is given by an axiom.
func (c *Ctx) constArr(sort, z string) string {
	if !strings.Contains(z, "seqempty") && !strings.Contains(z, "karr") {
		return "((as const " + sort + ") " + z + ")"
	}
	n := "karr_" + sanitize(sort) + "_" + sanitize(z)
	if c.reg.find(n) == nil {
		c.reg.declare(n, "(declare-const "+n+" "+sort+")")
		c.reg.axiom("theory", n, "(forall ((i Int)) (! (= (select "+n+" i) "+z+") :pattern ((select "+n+" i))))", []string{n})
	}
	return n
}
