package main

import (
	"fmt"
	"go/types"
	"math"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Term is a hash-consed value expression of the gated value graph.  Two
// expressions that denote the same computation are the same *Term.
//
// Integer terms denote mathematical residues modulo 2^64; narrower types are
// made explicit with the "T" (truncate to kind) operator.  Boolean terms are
// kept as reduced ordered decision diagrams: nested "ite" nodes whose first
// argument is an atom (a non-ite boolean term) and whose leaves are true/false.
// Any other value may also be an "ite" with arbitrary leaves (a guarded value).
type Term struct {
	id     int
	op     string
	args   []*Term
	aux    string
	n      int64
	coef   []int64
	ref    any
	kind   Kind
	leaves int
	deps   []int32 // loops whose iteration the value depends on
}

// Kind is an integer kind: bits*2 + signed, 0 when the term is not an integer.
type Kind uint16

func mkKind(bits int, signed bool) Kind {
	k := Kind(bits * 2)
	if signed {
		k++
	}
	return k
}

var (
	kI64 = mkKind(64, true)
	kU64 = mkKind(64, false)
)

func (k Kind) bits() int    { return int(k) / 2 }
func (k Kind) signed() bool { return k&1 == 1 }

func kindOf(t types.Type) Kind {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return 0
	}
	switch b.Kind() {
	case types.Int, types.Int64, types.UntypedInt:
		return kI64
	case types.Uint, types.Uint64, types.Uintptr:
		return kU64
	case types.Int32, types.UntypedRune:
		return mkKind(32, true)
	case types.Uint32:
		return mkKind(32, false)
	case types.Int16:
		return mkKind(16, true)
	case types.Uint16:
		return mkKind(16, false)
	case types.Int8:
		return mkKind(8, true)
	case types.Uint8:
		return mkKind(8, false)
	}
	return 0
}

func isBoolType(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsBoolean != 0
}
func isFloatType(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsFloat != 0
}
func isStringType(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

// Terms is the term factory.
type Terms struct {
	cmp    bool // composition mode
	tab    map[string]*Term
	all    []*Term
	refs   map[any]int
	True   *Term
	False  *Term
	Nil    *Term
	Zero   *Term
	iteMem map[[3]int]*Term
	resMem map[[2]int]*Term
	lift   map[string]*Term
	ovf    int // lifts that were abandoned because of size

	outside bool // elements and fields come from outside: sums with them may wrap
	wildInit map[string]bool // cells whose initial 64-bit content comes from outside
}

func NewTerms() *Terms {
	T := &Terms{tab: map[string]*Term{}, refs: map[any]int{}, iteMem: map[[3]int]*Term{}, resMem: map[[2]int]*Term{}, lift: map[string]*Term{}}
	T.False = T.mk(&Term{op: "bool", n: 0})
	T.True = T.mk(&Term{op: "bool", n: 1})
	T.Nil = T.mk(&Term{op: "nil"})
	T.Zero = T.Int(0)
	return T
}

func (T *Terms) refID(r any) int {
	if r == nil {
		return 0
	}
	if id, ok := T.refs[r]; ok {
		return id
	}
	id := len(T.refs) + 1
	T.refs[r] = id
	return id
}

func (T *Terms) mk(t *Term) *Term {
	var sb strings.Builder
	sb.WriteString(t.op)
	sb.WriteByte('|')
	sb.WriteString(t.aux)
	sb.WriteByte('|')
	sb.WriteString(strconv.FormatInt(t.n, 36))
	sb.WriteByte('|')
	var ref any = t.ref
	if ty, ok := t.ref.(types.Type); ok {
		sb.WriteString(types.TypeString(ty, nil))
	} else {
		sb.WriteString(strconv.Itoa(T.refID(ref)))
	}
	sb.WriteByte('|')
	sb.WriteString(strconv.Itoa(int(t.kind)))
	for _, a := range t.args {
		sb.WriteByte(',')
		sb.WriteString(strconv.FormatInt(int64(a.id), 36))
	}
	for _, c := range t.coef {
		sb.WriteByte(':')
		sb.WriteString(strconv.FormatInt(c, 36))
	}
	key := sb.String()
	if x, ok := T.tab[key]; ok {
		return x
	}
	t.id = len(T.all)
	t.leaves = 1
	if t.op == "ite" {
		t.leaves = t.args[1].leaves + t.args[2].leaves
	}
	for _, a := range t.args {
		t.deps = unionDeps(t.deps, a.deps)
	}
	switch r := t.ref.(type) {
	case *Loop:
		switch t.op {
		case "mu", "k":
			t.deps = unionDeps(t.deps, r.selfDeps())
		case "fin", "X":
			t.deps = unionDeps(minusDep(t.deps, int32(r.id)), r.outerDeps)
		}
	case *Event:
		t.deps = unionDeps(t.deps, r.loopDeps)
	case *Spawn:
		if n := len(r.loops); n > 0 {
			t.deps = unionDeps(t.deps, r.loops[n-1].selfDeps())
		}
	case *Obj:
		t.deps = unionDeps(t.deps, r.loopDeps)
	}
	T.tab[key] = t
	T.all = append(T.all, t)
	return t
}

func unionDeps(a, b []int32) []int32 {
	if len(b) == 0 {
		return a
	}
	if len(a) == 0 {
		return b
	}
	sub := true
	for _, x := range b {
		if !hasDep(a, x) {
			sub = false
		}
	}
	if sub {
		return a
	}
	var r []int32
	i, j := 0, 0
	for i < len(a) || j < len(b) {
		switch {
		case j >= len(b) || i < len(a) && a[i] < b[j]:
			r = append(r, a[i])
			i++
		case i >= len(a) || b[j] < a[i]:
			r = append(r, b[j])
			j++
		default:
			r = append(r, a[i])
			i++
			j++
		}
	}
	return r
}
func hasDep(a []int32, x int32) bool {
	for _, y := range a {
		if x == y {
			return true
		}
	}
	return false
}
func minusDep(a []int32, x int32) []int32 {
	if !hasDep(a, x) {
		return a
	}
	var r []int32
	for _, y := range a {
		if y != x {
			r = append(r, y)
		}
	}
	return r
}
func (t *Term) dependsOn(L *Loop) bool { return hasDep(t.deps, int32(L.id)) }

// ---- leaves ----

func (T *Terms) Int(n int64) *Term { return T.mk(&Term{op: "int", n: n}) }
func (T *Terms) Bool(b bool) *Term {
	if b {
		return T.True
	}
	return T.False
}
func (T *Terms) Sym(name string, k Kind) *Term { return T.mk(&Term{op: "sym", aux: name, kind: k}) }
func (T *Terms) Str(s string) *Term            { return T.mk(&Term{op: "str", aux: s}) }
func (T *Terms) Float(f float64) *Term {
	return T.mk(&Term{op: "float", n: int64(math.Float64bits(f))})
}
func (T *Terms) Op(op, aux string, kind Kind, ref any, args ...*Term) *Term {
	return T.mk(&Term{op: op, aux: aux, kind: kind, ref: ref, args: append([]*Term(nil), args...)})
}

func (t *Term) isInt() bool { return t.op == "int" }
func (t *Term) isConst() bool {
	return t.op == "int" || t.op == "bool" || t.op == "nil" || t.op == "str" || t.op == "float"
}

// ---- decision diagrams ----

func (T *Terms) node(atom, a, b *Term) *Term {
	if a == b {
		return a
	}
	return T.mk(&Term{op: "ite", args: []*Term{atom, a, b}})
}

// Atom turns a raw boolean term into its decision diagram.
func (T *Terms) Atom(t *Term) *Term {
	if t.op == "ite" || t == T.True || t == T.False {
		return t
	}
	return T.node(t, T.True, T.False)
}

const noAtom = math.MaxInt

func topAtom(t *Term) int {
	if t.op == "ite" {
		return t.args[0].id
	}
	return noAtom
}
func cof(t *Term, atom int) (hi, lo *Term) {
	if t.op == "ite" && t.args[0].id == atom {
		return t.args[1], t.args[2]
	}
	return t, t
}

func (T *Terms) Ite(c, a, b *Term) *Term {
	if c == T.True {
		return a
	}
	if c == T.False {
		return b
	}
	if a == b {
		return a
	}
	if a == T.True && b == T.False {
		return c
	}
	if c.op != "ite" {
		c = T.Atom(c)
	}
	k := [3]int{c.id, a.id, b.id}
	if r, ok := T.iteMem[k]; ok {
		return r
	}
	v := topAtom(c)
	if x := topAtom(a); x < v {
		v = x
	}
	if x := topAtom(b); x < v {
		v = x
	}
	c1, c0 := cof(c, v)
	a1, a0 := cof(a, v)
	b1, b0 := cof(b, v)
	r := T.node(T.all[v], T.Ite(c1, a1, b1), T.Ite(c0, a0, b0))
	T.iteMem[k] = r
	return r
}
func (T *Terms) And(a, b *Term) *Term { return T.Ite(a, b, T.False) }
func (T *Terms) Or(a, b *Term) *Term  { return T.Ite(a, T.True, b) }
func (T *Terms) Not(a *Term) *Term    { return T.Ite(a, T.False, T.True) }
func (T *Terms) Implies(a, b *Term) bool {
	return T.And(a, T.Not(b)) == T.False
}

// Restrict simplifies f under the assumption that care holds.
func (T *Terms) Restrict(f, care *Term) *Term {
	if f.op != "ite" || care == T.True || care == T.False {
		return f
	}
	k := [2]int{f.id, care.id}
	if r, ok := T.resMem[k]; ok {
		return r
	}
	fv, cv := topAtom(f), topAtom(care)
	var r *Term
	switch {
	case cv < fv:
		r = T.Restrict(f, T.Or(care.args[1], care.args[2]))
	case cv == fv:
		if care.args[1] == T.False {
			r = T.Restrict(f.args[2], care.args[2])
		} else if care.args[2] == T.False {
			r = T.Restrict(f.args[1], care.args[1])
		} else {
			r = T.node(f.args[0], T.Restrict(f.args[1], care.args[1]), T.Restrict(f.args[2], care.args[2]))
		}
	default:
		r = T.node(f.args[0], T.Restrict(f.args[1], care), T.Restrict(f.args[2], care))
	}
	T.resMem[k] = r
	return r
}

// Cofactor fixes one atom of f.
func (T *Terms) Cofactor(f, atom *Term, val bool) *Term {
	if val {
		return T.restrictLit(f, atom, true)
	}
	return T.restrictLit(f, atom, false)
}
func (T *Terms) restrictLit(f, atom *Term, val bool) *Term {
	lit := T.Atom(atom)
	if !val {
		lit = T.Not(lit)
	}
	return T.Restrict(f, lit)
}

// Atoms lists the atoms of a decision diagram.
func (T *Terms) Atoms(f *Term) []*Term {
	seen := map[int]bool{}
	var out []*Term
	var rec func(t *Term)
	rec = func(t *Term) {
		if t.op != "ite" || seen[t.id] {
			return
		}
		seen[t.id] = true
		a := t.args[0]
		dup := false
		for _, x := range out {
			if x == a {
				dup = true
			}
		}
		if !dup {
			out = append(out, a)
		}
		rec(t.args[1])
		rec(t.args[2])
	}
	rec(f)
	sort.Slice(out, func(i, j int) bool { return out[i].id < out[j].id })
	return out
}

// Leaves lists the distinct leaves of a guarded value.
func (T *Terms) Leaves(f *Term) []*Term {
	seen := map[int]bool{}
	var out []*Term
	var rec func(t *Term)
	rec = func(t *Term) {
		if seen[t.id] {
			return
		}
		seen[t.id] = true
		if t.op != "ite" {
			out = append(out, t)
			return
		}
		rec(t.args[1])
		rec(t.args[2])
	}
	rec(f)
	return out
}

// LeafGuard is the condition under which f has the given leaf.
func (T *Terms) LeafGuard(f, leaf *Term) *Term {
	if f == leaf {
		return T.True
	}
	if f.op != "ite" {
		return T.False
	}
	return T.Ite(T.Atom(f.args[0]), T.LeafGuard(f.args[1], leaf), T.LeafGuard(f.args[2], leaf))
}

// ForcedLiterals returns the atoms of g that have the same value whenever g holds.
func (T *Terms) ForcedLiterals(g *Term) (pos, neg []*Term) {
	if g == T.False {
		return
	}
	for _, a := range T.Atoms(g) {
		if T.And(g, T.Not(T.Atom(a))) == T.False {
			pos = append(pos, a)
		} else if T.And(g, T.Atom(a)) == T.False {
			neg = append(neg, a)
		}
	}
	return
}

const liftLimit = 600

// Lift applies f to the leaves of its arguments.
func (T *Terms) Lift(name string, f func(args []*Term) *Term, args ...*Term) *Term {
	prod := 1
	any := false
	for _, a := range args {
		if a.op == "ite" {
			any = true
			prod *= a.leaves
			if prod > 1<<20 {
				break
			}
		}
	}
	if !any {
		return f(args)
	}
	if prod > liftLimit {
		T.ovf++
		return f(args)
	}
	return T.liftRec(name, f, args)
}

func (T *Terms) liftRec(name string, f func(args []*Term) *Term, args []*Term) *Term {
	v := noAtom
	for _, a := range args {
		if x := topAtom(a); x < v {
			v = x
		}
	}
	if v == noAtom {
		return f(args)
	}
	var sb strings.Builder
	sb.WriteString(name)
	for _, a := range args {
		sb.WriteByte(',')
		sb.WriteString(strconv.Itoa(a.id))
	}
	key := sb.String()
	if name != "" {
		if r, ok := T.lift[key]; ok {
			return r
		}
	}
	hi := make([]*Term, len(args))
	lo := make([]*Term, len(args))
	for i, a := range args {
		hi[i], lo[i] = cof(a, v)
	}
	h := T.liftRec(name, f, hi)
	l := T.liftRec(name, f, lo)
	// the leaf function may itself have produced atoms smaller than v
	r := T.Ite(T.Atom(T.all[v]), h, l)
	if name != "" {
		T.lift[key] = r
	}
	return r
}

// ---- integers ----

func (T *Terms) linParts(t *Term) (args []*Term, coef []int64, c int64) {
	switch t.op {
	case "int":
		return nil, nil, t.n
	case "lin":
		return t.args, t.coef, t.n
	}
	return []*Term{t}, []int64{1}, 0
}

func (T *Terms) mkLin(args []*Term, coef []int64, c int64) *Term {
	type ac struct {
		a *Term
		c int64
	}
	m := map[*Term]int64{}
	for i, a := range args {
		m[a] += coef[i]
	}
	var l []ac
	for a, k := range m {
		if k != 0 {
			l = append(l, ac{a, k})
		}
	}
	if len(l) == 0 {
		return T.Int(c)
	}
	sort.Slice(l, func(i, j int) bool { return l[i].a.id < l[j].a.id })
	if len(l) == 1 && l[0].c == 1 && c == 0 {
		return l[0].a
	}
	t := &Term{op: "lin", n: c}
	for _, x := range l {
		t.args = append(t.args, x.a)
		t.coef = append(t.coef, x.c)
	}
	return T.mk(t)
}

func (T *Terms) addScaled(a, b *Term, k int64) *Term {
	a1, c1, n1 := T.linParts(a)
	a2, c2, n2 := T.linParts(b)
	args := append(append([]*Term{}, a1...), a2...)
	coef := append([]int64{}, c1...)
	for _, c := range c2 {
		coef = append(coef, c*k)
	}
	return T.mkLin(args, coef, n1+k*n2)
}
func (T *Terms) Add(a, b *Term) *Term {
	return T.Lift("+", func(x []*Term) *Term { return T.addScaled(x[0], x[1], 1) }, a, b)
}
func (T *Terms) Sub(a, b *Term) *Term {
	return T.Lift("-", func(x []*Term) *Term { return T.addScaled(x[0], x[1], -1) }, a, b)
}
func (T *Terms) Scale(a *Term, k int64) *Term {
	return T.Lift("*"+strconv.FormatInt(k, 10), func(x []*Term) *Term { return T.addScaled(T.Zero, x[0], k) }, a)
}
func (T *Terms) Mul(a, b *Term) *Term {
	return T.Lift("*", func(x []*Term) *Term {
		a, b := x[0], x[1]
		if a.isInt() {
			return T.addScaled(T.Zero, b, a.n)
		}
		if b.isInt() {
			return T.addScaled(T.Zero, a, b.n)
		}
		// distribute over sums so that k*(n+1) and k*n+k agree
		aa, ac, an := T.linParts(a)
		ba, bc, bn := T.linParts(b)
		if len(aa)+len(ba) > 2 || an != 0 || bn != 0 {
			r := T.Int(an * bn)
			for i, p := range aa {
				r = T.addScaled(r, p, ac[i]*bn)
				for j, q := range ba {
					r = T.addScaled(r, T.mulAtoms(p, q), ac[i]*bc[j])
				}
			}
			for j, q := range ba {
				r = T.addScaled(r, q, bc[j]*an)
			}
			return r
		}
		return T.mulAtoms(a, b)
	}, a, b)
}
func (T *Terms) mulAtoms(a, b *Term) *Term {
	if a.id > b.id {
		a, b = b, a
	}
	return T.Op("mul", "", 0, nil, a, b)
}

// rangeOf gives bounds of a term's value (as a signed 64-bit number when it fits).
func (T *Terms) rangeOf(t *Term) (lo, hi int64, ok bool) {
	switch t.op {
	case "int":
		return t.n, t.n, true
	case "len", "k", "idx", "cap", "fsize", "fpos", "fend":
		return 0, math.MaxInt64 >> 1, true
	case "mod":
		return 0, t.n - 1, true
	case "ncpu":
		return 1, 1 << 31, true
	case "cnt":
		return 0, 1<<32 - 1, true
	case "bv":
		return 0, math.MaxInt64 >> 1, true
	case "div":
		if t.args[1].isInt() && t.args[1].n > 0 {
			if l, h, ok := T.rangeOf(t.args[0]); ok && l >= 0 {
				return l / t.args[1].n, h / t.args[1].n, true
			}
		}
	case "T":
		return kindRange(t.kind)
	case "lin":
		var l, h int64 = t.n, t.n
		for i, a := range t.args {
			al, ah, ok := T.rangeOf(a)
			if !ok || al < -(1<<40) || ah > 1<<40 || t.coef[i] > 1<<16 || t.coef[i] < -(1<<16) {
				return 0, 0, false
			}
			x, y := al*t.coef[i], ah*t.coef[i]
			if x > y {
				x, y = y, x
			}
			l += x
			h += y
		}
		return l, h, true
	case "rem":
		if t.args[1].isInt() && t.args[1].n > 0 {
			m := t.args[1].n
			l, _, ok := T.rangeOf(t.args[0])
			if ok && l >= 0 || t.aux == "u" {
				return 0, m - 1, true
			}
			return -(m - 1), m - 1, true
		}
	case "and":
		for _, a := range t.args {
			if a.isInt() && a.n >= 0 {
				return 0, a.n, true
			}
		}
	case "ite":
		l1, h1, ok1 := T.rangeOf(t.args[1])
		l2, h2, ok2 := T.rangeOf(t.args[2])
		if ok1 && ok2 {
			return min(l1, l2), max(h1, h2), true
		}
		return 0, 0, false
	}
	if t.kind != 0 && t.kind.bits() < 64 {
		return kindRange(t.kind)
	}
	return 0, 0, false
}
func kindRange(k Kind) (int64, int64, bool) {
	b := k.bits()
	if b == 0 || b >= 64 {
		return 0, 0, false
	}
	if k.signed() {
		return -(1 << (b - 1)), 1<<(b-1) - 1, true
	}
	return 0, 1<<b - 1, true
}

// Conv converts an integer term to kind k.
func (T *Terms) Conv(k Kind, t *Term) *Term {
	if k.bits() == 64 || k == 0 {
		return t
	}
	return T.Lift("conv"+strconv.Itoa(int(k)), func(x []*Term) *Term {
		t := x[0]
		lo, hi, ok := kindRange(k)
		if t.isInt() {
			v := t.n
			sh := 64 - k.bits()
			if k.signed() {
				v = v << sh >> sh
			} else {
				v = int64(uint64(v) << sh >> sh)
			}
			return T.Int(v)
		}
		if l, h, ok2 := T.rangeOf(t); ok && ok2 && l >= lo && h <= hi {
			return t
		}
		if t.op == "T" && t.kind.bits() >= k.bits() {
			t = t.args[0]
		}
		return T.Op("T", "", k, nil, t)
	}, t)
}

func nonNeg(T *Terms, t *Term) bool {
	l, _, ok := T.rangeOf(t)
	return ok && l >= 0
}

// Lt is a < b; idx tells that the operands are int-typed quantities (indexes,
// lengths, file offsets) whose constant offsets may be moved across.
func (T *Terms) Lt(a, b *Term, k Kind, idx bool) *Term {
	nm := "lt" + strconv.Itoa(int(k))
	if idx {
		nm += "i"
	}
	return T.Lift(nm, func(x []*Term) *Term { return T.lt1(x[0], x[1], k, idx) }, a, b)
}

func (T *Terms) lt1(a, b *Term, k Kind, idx bool) *Term {
	if a == b {
		return T.False
	}
	signed := k == 0 || k.signed() || k.bits() < 64
	if a.isInt() && b.isInt() {
		if signed {
			return T.Bool(a.n < b.n)
		}
		return T.Bool(uint64(a.n) < uint64(b.n))
	}
	al, ah, aok := T.rangeOf(a)
	bl, bh, bok := T.rangeOf(b)
	if aok && bok && (signed || al >= 0 && bl >= 0) {
		if ah < bl {
			return T.True
		}
		if al >= bh {
			return T.False
		}
	}
	if !signed {
		if aok && al >= 0 && bok && bl >= 0 {
			signed = true
		} else if b.isInt() && b.n >= 0 && a.kind.bits() == 64 && b.n == 0 {
			return T.False
		}
	}
	if signed && a.op != "lin" && b.op != "lin" {
		if a.isInt() && a.n == math.MaxInt64 || b.isInt() && b.n == math.MinInt64 {
			return T.False // nothing is beyond the ends
		}
		if a.isInt() && a.n == math.MinInt64 || b.isInt() && b.n == math.MaxInt64 {
			return T.Not(T.Eq(a, b))
		}
		if a.isInt() && a.n == math.MaxInt64-1 {
			return T.Eq(b, T.Int(math.MaxInt64))
		}
		if b.isInt() && b.n == math.MinInt64+1 {
			return T.Eq(a, T.Int(math.MinInt64))
		}
	}
	if !signed {
		if a.isInt() && a.n == 0 {
			return T.Not(T.Eq(b, T.Zero))
		}
		if b.isInt() && b.n == 1 {
			return T.Eq(a, T.Zero)
		}
		return T.Atom(T.Op("ult", "", 0, nil, a, b))
	}
	// signed: a < b  as  l < r + d
	var d int64
	if idx || a.isInt() || b.isInt() {
		if idx && (T.wild(a) && a.op == "lin" || T.wild(b) && b.op == "lin") {
			// the sum may wrap: keep the comparison as it is
		} else if idx {
			a, b, d = T.splitConst(a, b)
		} else if a.isInt() {
			d = -a.n
			a = T.Zero
		} else {
			d = b.n
			b = T.Zero
		}
	}
	if a == b {
		return T.Bool(0 < d)
	}
	// nonnegative x: 0 < x + 0  ->  !(x == 0)
	if a == T.Zero && d == 0 && nonNeg(T, b) {
		return T.Not(T.Eq(b, T.Zero))
	}
	if b == T.Zero && d == 1 && nonNeg(T, a) {
		return T.Eq(a, T.Zero)
	}
	if a.id > b.id {
		return T.Not(T.Atom(T.mk(&Term{op: "lt", args: []*Term{b, a}, n: 1 - d})))
	}
	return T.Atom(T.mk(&Term{op: "lt", args: []*Term{a, b}, n: d}))
}

// splitConst writes a < b as a' < b' + d with all common parts cancelled.
func (T *Terms) splitConst(a, b *Term) (*Term, *Term, int64) {
	diff := T.addScaled(a, b, -1) // a - b < 0
	args, coef, c := T.linParts(diff)
	var pa, na []*Term
	var pc, nc []int64
	for i, x := range args {
		if coef[i] > 0 {
			pa = append(pa, x)
			pc = append(pc, coef[i])
		} else {
			na = append(na, x)
			nc = append(nc, -coef[i])
		}
	}
	return T.mkLin(pa, pc, 0), T.mkLin(na, nc, 0), -c
}

// Eq is a == b for any two terms.
func (T *Terms) Eq(a, b *Term) *Term {
	if a == b {
		return T.True
	}
	f := func(x []*Term) *Term { return T.eq1(x[0], x[1]) }
	if a == T.Nil || b == T.Nil {
		// one step for each node, however many paths lead to it
		return T.liftRec("eq", f, []*Term{a, b})
	}
	return T.Lift("eq", f, a, b)
}

func isIntLike(t *Term) bool {
	switch t.op {
	case "int", "lin", "len", "cap", "k", "T", "mul", "rem", "div", "shr", "shl", "and", "or", "xor", "mod", "fsize", "fpos", "ncpu", "unkpos", "fend", "psum", "cnt":
		return true
	}
	return t.kind != 0
}

func neverNil(t *Term) bool {
	switch t.op {
	case "addr", "eaddr", "iface", "closure", "func", "err", "mkslice", "mkchan", "global", "app", "file", "finfo", "struct", "mkmap", "bytes", "bmarg":
		return true
	case "call", "res":
		return t.aux == "nonnil"
	case "glob":
		return true
	}
	return false
}

func (T *Terms) eq1(a, b *Term) *Term {
	if a == b {
		return T.True
	}
	if isIntLike(a) || isIntLike(b) {
		d := T.addScaled(a, b, -1)
		if d.isInt() {
			return T.Bool(d.n == 0)
		}
		if l, h, ok := T.rangeOf(d); ok && (l > 0 || h < 0) {
			return T.False
		}
		args, coef, c := T.linParts(d)
		if len(args) == 1 && (coef[0] == 1 || coef[0] == -1) {
			return T.Atom(T.mk(&Term{op: "eqc", args: []*Term{args[0]}, n: -c * coef[0]}))
		}
		if coef[0] < 0 {
			nd := T.addScaled(T.Zero, d, -1)
			d = nd
		}
		return T.Atom(T.mk(&Term{op: "eqc", args: []*Term{T.addScaled(d, T.Int(d.n), -1)}, n: -d.n}))
	}
	if a == T.True || a == T.False || b == T.True || b == T.False {
		if b.op == "bool" {
			a, b = b, a
		}
		if a == T.True {
			return T.Atom(b)
		}
		return T.Not(T.Atom(b))
	}
	if a == T.Nil || b == T.Nil {
		x := a
		if a == T.Nil {
			x = b
		}
		if neverNil(x) {
			return T.False
		}
		if x.op == "fin" {
			r := T.Eq(x.args[0], T.Nil)
			if r == T.True || r == T.False {
				return r
			}
		}
		return T.Atom(T.Op("isnil", "", 0, nil, x))
	}
	if (a.op == "str" && b.op == "str") || (a.op == "float" && b.op == "float") {
		return T.False
	}
	if a.op == "addr" && b.op == "addr" && a.ref.(*Obj).fresh && b.ref.(*Obj).fresh {
		return T.False
	}
	if a.op == "err" && b.op == "glob" || a.op == "glob" && b.op == "err" {
		return T.False
	}
	if a.id > b.id {
		a, b = b, a
	}
	return T.Atom(T.Op("eq", "", 0, nil, a, b))
}

// ---- printing ----

func (t *Term) String() string { return t.str(6) }
func (t *Term) str(d int) string {
	if t == nil {
		return "<nil>"
	}
	if d < 0 {
		return "…"
	}
	switch t.op {
	case "int":
		return strconv.FormatInt(t.n, 10)
	case "bool":
		return strconv.FormatBool(t.n == 1)
	case "str":
		return strconv.Quote(t.aux)
	case "float":
		return fmt.Sprint(math.Float64frombits(uint64(t.n)))
	case "nil":
		return "nil"
	case "sym":
		return t.aux
	case "lin":
		var sb strings.Builder
		sb.WriteByte('(')
		for i, a := range t.args {
			c := t.coef[i]
			if i > 0 && c >= 0 {
				sb.WriteString("+")
			}
			if c == -1 {
				sb.WriteString("-")
			} else if c != 1 {
				fmt.Fprintf(&sb, "%d*", c)
			}
			sb.WriteString(a.str(d - 1))
		}
		if t.n != 0 {
			fmt.Fprintf(&sb, "%+d", t.n)
		}
		sb.WriteByte(')')
		return sb.String()
	case "ite":
		return "ite{" + t.args[0].str(d-1) + " ? " + t.args[1].str(d-1) + " : " + t.args[2].str(d-1) + "}"
	case "lt":
		s := t.args[0].str(d-1) + " < " + t.args[1].str(d-1)
		if t.n != 0 {
			s += fmt.Sprintf("%+d", t.n)
		}
		return s
	case "eqc":
		return fmt.Sprintf("%s == %d", t.args[0].str(d-1), t.n)
	case "k":
		return fmt.Sprintf("k%d", t.ref.(*Loop).id)
	case "mu":
		return fmt.Sprintf("mu%d[%s]", t.ref.(*Loop).id, t.aux)
	case "T":
		s := "u"
		if t.kind.signed() {
			s = "i"
		}
		return fmt.Sprintf("%s%d(%s)", s, t.kind.bits(), t.args[0].str(d-1))
	}
	var sb strings.Builder
	sb.WriteString(t.op)
	if t.aux != "" {
		sb.WriteString("<" + t.aux + ">")
	}
	switch r := t.ref.(type) {
	case *Loop:
		fmt.Fprintf(&sb, "@L%d", r.id)
	case *Event:
		fmt.Fprintf(&sb, "@%s", r.short())
	case *Obj:
		fmt.Fprintf(&sb, "@%s", r.name)
	case *ssa.Function:
		fmt.Fprintf(&sb, "@%s", r.Name())
	case types.Type:
		fmt.Fprintf(&sb, "@%s", types.TypeString(r, func(p *types.Package) string { return p.Name() }))
	}
	if t.n != 0 {
		fmt.Fprintf(&sb, "#%d", t.n)
	}
	if len(t.args) > 0 {
		sb.WriteByte('(')
		for i, a := range t.args {
			if i > 0 {
				sb.WriteString(", ")
			}
			sb.WriteString(a.str(d - 1))
		}
		sb.WriteByte(')')
	}
	return sb.String()
}
