package main

import (
	"fmt"
	"go/types"
	"math"
	"os"
)

// comp is one contribution of an aggregate: for every assignment of the
// binders that satisfies the guard the value is added (counted, compared).
type comp struct {
	ks []*Term // iteration counters and index symbols
	g  *Term
	v  *Term
	// acc marks the previous value of an accumulator
	acc bool
	// needs: the value only means something when this count is not zero
	needs []*Term
}

type foldKind int

const (
	fSum foldKind = iota
	fMin
	fMax
	fSeq // the elements of a sequence
	fBag // the members of an ID bitmap
)

type folder struct {
	unsigned bool // the values are compared as unsigned numbers
	e        *Eng
	T        *Terms
	kind     foldKind
	open     map[*Term]bool
	err      string
	fresh    int
	depth    int
	resets   []*Term   // outermost count accumulators whose zero restarts a minimum or maximum
	pend     []pending // the same, of loops that enclose the present one
}

type pending struct{ mu, inner *Term }

func newFolder(e *Eng, k foldKind) *folder {
	return &folder{e: e, T: e.T, kind: k, open: map[*Term]bool{}}
}

func (f *folder) fail(format string, a ...any) []comp {
	if f.err == "" {
		f.err = fmt.Sprintf(format, a...)
	}
	return nil
}

func (f *folder) guardAll(cs []comp, g *Term) []comp {
	var out []comp
	for _, c := range cs {
		c.g = f.T.And(c.g, g)
		if c.g != f.T.False {
			out = append(out, c)
		}
	}
	return out
}

func (f *folder) isIdentity(t *Term) bool {
	switch f.kind {
	case fSum:
		return t == f.T.Zero
	case fMin:
		return t.isInt() && t.n == math.MaxInt64
	case fMax:
		return t.isInt() && t.n == math.MinInt64
	case fBag:
		return t.op == "bmempty"
	case fSeq:
		return t == f.T.Nil || (t.op == "mkslice" || t.op == "resl") && t.args[1] == f.T.Zero
	}
	return false
}

// index makes a fresh index symbol.
func (T *Terms) idx(name string) *Term { return T.Op("idx", name, kI64, nil) }

// fold lists the contributions of a term.
func (f *folder) fold(t *Term) []comp {
	T := f.T
	f.depth++
	defer func() { f.depth-- }()
	if f.depth > 60 {
		return f.fail("too deep")
	}
	if f.open[t] {
		return []comp{{g: T.True, v: t, acc: true}}
	}
	if f.isIdentity(t) {
		return nil
	}
	switch t.op {
	case "ite":
		if f.kind == fMin || f.kind == fMax {
			return f.extreme(t)
		}
		var out []comp
		for _, l := range T.Leaves(t) {
			out = append(out, f.guardAll(f.fold(l), T.LeafGuard(t, l))...)
		}
		return out
	case "fin":
		if t.args[0].op == "mu" || t.args[0].op == "k" {
			return f.loop(t)
		}
	case "lin":
		if f.kind == fSum {
			var out []comp
			for i, a := range t.args {
				if t.coef[i] != 1 {
					if f.open[a] {
						return f.fail("the accumulator is scaled")
					}
					out = append(out, comp{g: T.True, v: T.Scale(a, t.coef[i])})
					continue
				}
				out = append(out, f.fold(a)...)
			}
			if t.n != 0 {
				out = append(out, comp{g: T.True, v: T.Int(t.n)})
			}
			return out
		}
	case "bmop":
		if f.kind == fBag {
			as := t.args
			switch {
			case t.aux == "Set" && len(as) == 2:
				return append(f.fold(as[0]), comp{g: T.True, v: as[1]})
			case t.aux == "SetMany" && len(as) == 2:
				return append(f.fold(as[0]), f.seqElems(as[1])...)
			case t.aux == "Or" && len(as) == 2:
				return append(f.fold(as[0]), f.fold(as[1])...)
			}
			return f.fail("IDs are removed or changed by %s", t.aux)
		}
	case "len":
		if f.kind == fSum {
			return f.lenBag(t.args[0])
		}
	case "app":
		if f.kind == fSeq {
			out := f.fold(t.args[0])
			for _, x := range t.args[1:] {
				out = append(out, comp{g: T.True, v: x})
			}
			return out
		}
	case "appseq":
		if f.kind == fSeq {
			return append(f.fold(t.args[0]), f.fold(t.args[1])...)
		}
	}
	if f.kind == fSeq {
		return f.seqElems(t)
	}
	return []comp{{g: T.True, v: t}}
}

// seqElems: the elements of an opaque sequence (or a filled array).
func (f *folder) seqElems(t *Term) []comp {
	T := f.T
	n := f.e.lenOf(t)
	f.fresh++
	j := T.idx(fmt.Sprintf("s%d.%d", t.id, f.fresh))
	return []comp{{ks: []*Term{j}, g: T.Lt(j, n, kI64, true), v: f.e.elem(t, j, nil)}}
}

// lenBag: one contribution of 1 per element.
func (f *folder) lenBag(s *Term) []comp {
	T := f.T
	if s.op == "fin" {
		q := newFolder(f.e, fSeq)
		q.depth = f.depth
		cs := q.fold(s)
		if q.err != "" {
			return f.fail("%s", q.err)
		}
		for i := range cs {
			cs[i].v = T.Int(1)
		}
		return cs
	}
	f.fresh++
	j := T.idx(fmt.Sprintf("n%d.%d", s.id, f.fresh))
	return []comp{{ks: []*Term{j}, g: T.Lt(j, f.e.T.Op("len", "", 0, nil, s), kI64, true), v: T.Int(1)}}
}

// singleExit: the loop only ends by its header test.
func singleExit(L *Loop) bool {
	for _, x := range L.exits {
		if !x.header || x.isRet {
			return false
		}
	}
	return len(L.exits) > 0
}

func (f *folder) loop(t *Term) []comp {
	T := f.T
	L := t.ref.(*Loop)
	x := t.args[0]
	if !singleExit(L) {
		return f.fail("the loop at %s can be left early", f.e.P.Pos(L.pos))
	}
	if x.op == "k" {
		return []comp{{ks: []*Term{L.K}, g: L.cont, v: T.Int(1)}}
	}
	m := L.mu(x)
	if m == nil || m.next == nil {
		return f.fail("the loop at %s has no such accumulator", f.e.P.Pos(L.pos))
	}
	if f.open[x] {
		return f.fail("recursive accumulator")
	}
	var out []comp
	f.open[x] = true
	saved := f.pend
	f.pend = nil
	step := f.fold(m.next)
	pend := f.pend
	f.pend = saved
	delete(f.open, x)
	if f.err != "" {
		return nil
	}
	// what is added in each iteration
	accG := T.False
	var adds []comp
next:
	for _, c := range step {
		if c.acc && c.v == x {
			if len(c.ks) > 0 {
				return f.fail("the accumulator of the loop at %s is used repeatedly", f.e.P.Pos(L.pos))
			}
			accG = T.Or(accG, c.g)
			continue
		}
		if c.acc {
			return f.fail("the accumulators of the loop at %s are mixed", f.e.P.Pos(L.pos))
		}
		c.g = T.And(c.g, L.cont)
		if c.g == T.False {
			continue
		}
		for i := range adds {
			if adds[i].v == c.v && sameKs(adds[i].ks, c.ks) && T.And(adds[i].g, c.g) == T.False {
				adds[i].g = T.Or(adds[i].g, c.g)
				continue next
			}
		}
		adds = append(adds, c)
	}
	missing := T.And(L.cont, T.Not(accG))
	dropInit := false
	var gone []*Term // restart conditions of this loop
	if missing != T.False {
		r, ok := restart{}, false
		if f.kind != fSeq && f.kind != fBag {
			r, ok = f.resetOn(L, x, missing, adds)
		}
		if !ok {
			return f.fail("the loop at %s overwrites what it accumulated", f.e.P.Pos(L.pos))
		}
		gone = append(gone, r.atom)
		if r.mu != nil {
			pend = append(pend, pending{mu: r.mu})
		}
		if r.first {
			dropInit = true
		}
	}
	// restarts by an accumulator that enters this loop from outside are the
	// business of the outer loop
	for _, p := range pend {
		if p.mu.ref != any(L) {
			f.pend = append(f.pend, p)
			continue
		}
		q := L.mu(p.mu)
		if q == nil {
			q = L.mu(T.Atom(p.mu))
		}
		switch {
		case q == nil || isBoolTerm(q.init) && p.inner != nil && !f.carries(L, q, p.inner, adds):
			return f.fail("unclear restart in the loop at %s", f.e.P.Pos(L.pos))
		case q.init == T.Zero:
			dropInit = true
			f.resets = append(f.resets, p.mu)
		case isBoolTerm(q.init) && q.init.isConst():
			dropInit = true
		default:
			o := q.init
			if isBoolTerm(o) && o.op == "ite" {
				o = o.args[0]
			}
			if o.op != "mu" {
				return f.fail("unclear restart in the loop at %s", f.e.P.Pos(L.pos))
			}
			f.pend = append(f.pend, pending{o, p.mu})
		}
	}
	if !dropInit || f.kind == fSum {
		out = append(out, f.fold(m.init)...)
	}
	for _, c := range adds {
		c.ks = append([]*Term{L.K}, c.ks...)
		// the restart does not decide whether the element counts
		for _, r := range gone {
			c.g = f.exists(c.g, r)
		}
		out = append(out, c)
	}
	return out
}

// carries: the flag of the loop takes the value that the inner loop left in
// its flag, wherever there are contributions.
func (f *folder) carries(L *Loop, q *MuCell, inner *Term, adds []comp) bool {
	T := f.T
	if q.next == nil {
		return false
	}
	var F *Term
	for _, a := range T.Atoms(q.next) {
		if a.op == "fin" && (a.args[0] == inner || a.args[0] == T.Atom(inner)) {
			F = T.Atom(a)
		}
	}
	if F == nil {
		return false
	}
	own := T.Atom(q.term)
	eqF := T.Ite(F, q.next, T.Not(q.next))
	eqO := T.Ite(own, q.next, T.Not(q.next))
	if !T.Implies(L.cont, T.Or(eqF, eqO)) {
		return false
	}
	for _, c := range adds {
		if T.And(c.g, T.Not(eqF)) != T.False {
			return false
		}
	}
	return true
}

// exists forgets an atom, when it has no influence beyond a restart.
func (f *folder) exists(g, atom *Term) *Term {
	return f.T.Or(f.T.Cofactor(g, atom, true), f.T.Cofactor(g, atom, false))
}

// restart: under which condition an accumulated value is replaced.
type restart struct {
	atom  *Term
	mu    *Term // the count or flag that decides, when it is another accumulator
	first bool  // in the first iteration
}

// resetOn: the accumulated value is replaced only while nothing has been
// accumulated: it is a sum that is zero, or a count accumulated along is still
// zero, or a flag set with the first element is not set.
func (f *folder) resetOn(L *Loop, x, missing *Term, adds []comp) (restart, bool) {
	T := f.T
	pos, neg := T.ForcedLiterals(missing)
	flag := func(a *Term, set bool) bool {
		// a flag is set exactly with the contributions of this loop, and stays set
		m := L.mu(T.Atom(a))
		if m == nil {
			m = L.mu(a)
		}
		if m == nil || m.next == nil {
			return false
		}
		is := func(t *Term) *Term {
			if set {
				return t
			}
			return T.Not(t)
		}
		now, next := is(T.Atom(a)), is(m.next)
		if !T.Implies(T.And(L.cont, now), next) {
			return false
		}
		contributes := T.False
		for _, c := range adds {
			if len(c.ks) > 0 {
				return false
			}
			contributes = T.Or(contributes, c.g)
		}
		return T.Implies(T.And(contributes, T.True), next) && T.Implies(T.And(T.And(L.cont, next), T.Not(now)), contributes)
	}
	for _, a := range pos {
		if f.kind == fSum && a.op == "eqc" && a.n == 0 && a.args[0] == x {
			return restart{atom: a}, true
		}
		if a.op == "eqc" && a.n == 0 && a.args[0].op == "mu" && a.args[0].ref == any(L) && a.args[0] != x {
			return restart{atom: a, mu: a.args[0]}, true
		}
		if a.op == "mu" && a.ref == any(L) && flag(a, false) {
			return restart{atom: a, mu: a}, true
		}
		if a.op == "eqc" && a.n == 0 && f.kind != fSum {
			if r, ok := f.counted(L, x, a, a.args[0], adds); ok {
				return r, true
			}
		}
	}
	for _, a := range neg {
		if a.op == "lt" && a.args[0] == T.Zero && a.n == 0 && f.kind != fSum {
			if r, ok := f.counted(L, x, a, a.args[1], adds); ok {
				return r, true
			}
		}
		if a.op == "mu" && a.ref == any(L) && flag(a, true) {
			return restart{atom: a, mu: a}, true
		}
		// count > 0, written as a comparison
		if a.op == "lt" && a.args[0] == T.Zero && a.n == 0 && a.args[1].op == "mu" && a.args[1].ref == any(L) && a.args[1] != x {
			return restart{atom: a, mu: a.args[1]}, true
		}
	}
	return restart{}, false
}

// counted: the number of elements is the iteration counter plus what an outer
// loop counted; every iteration contributes.
func (f *folder) counted(L *Loop, x, a, cnt *Term, adds []comp) (restart, bool) {
	T := f.T
	rest := T.Sub(cnt, L.K)
	if containsTerm(rest, L.K) {
		return restart{}, false
	}
	every := T.False
	for _, c := range adds {
		if len(c.ks) == 0 {
			every = T.Or(every, c.g)
		}
	}
	if !T.Implies(L.cont, every) {
		return restart{}, false
	}
	if rest == T.Zero {
		return restart{atom: a, first: true}, true
	}
	if rest.op == "mu" && rest.ref != any(L) {
		return restart{atom: a, mu: rest}, true
	}
	return restart{}, false
}

// extreme: a guarded value in a minimum or maximum.
func (f *folder) extreme(t *Term) []comp {
	T := f.T
	leaves := T.Leaves(t)
	isLeaf := func(x *Term) bool {
		for _, l := range leaves {
			if l == x {
				return true
			}
		}
		return false
	}
	why := ""
	for _, a := range T.Atoms(t) {
		// a says p < q (or p <= q)
		var p, q *Term
		op := "lt"
		if f.unsigned {
			op = "ult"
		}
		switch a.op {
		case op:
			switch {
			case isLeaf(a.args[0]) && isLeaf(a.args[1]) && (a.n == 0 || a.n == 1):
				p, q = a.args[0], a.args[1]
			default:
				continue
			}
		default:
			continue
		}
		hi, lo := T.Cofactor(t, a, true), T.Cofactor(t, a, false)
		if f.kind == fMax {
			p, q = q, p
		}
		// for a minimum: p when the atom holds, q otherwise
		pair := T.Lift("pair", func(x []*Term) *Term { return T.Op("pair", "", 0, nil, x[0], x[1]) }, hi, lo)
		var out []comp
		same := T.False
		bad := false
		for _, l := range T.Leaves(pair) {
			g := T.LeafGuard(pair, l)
			if l.op != "pair" {
				return f.fail("unclear comparison")
			}
			h, w := l.args[0], l.args[1]
			switch {
			case h == w:
				same = T.Or(same, g)
			case h == p && w == q:
				out = append(out, f.guardAll(f.fold(p), g)...)
				out = append(out, f.guardAll(f.fold(q), g)...)
			default:
				bad = true
			}
		}
		if bad {
			if f.err == "" {
				why = fmt.Sprintf("a comparison selects the wrong value (%s)", a.str(4))
			}
			continue
		}
		if same != T.False {
			// the other comparisons
			out = append(out, f.guardAll(f.fold(T.Restrict(hi, same)), same)...)
		}
		return mergeAcc(T, out)
	}
	if why != "" {
		return f.fail("%s", why)
	}
	var out []comp
	for _, l := range leaves {
		out = append(out, f.guardAll(f.fold(l), T.LeafGuard(t, l))...)
	}
	return mergeAcc(T, out)
}

func sameKs(a, b []*Term) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// mergeAcc joins contributions of the same value.
func mergeAcc(T *Terms, cs []comp) []comp {
	var out []comp
next:
	for _, c := range cs {
		for i := range out {
			if out[i].v == c.v && out[i].acc == c.acc && sameKs(out[i].ks, c.ks) {
				out[i].g = T.Or(out[i].g, c.g)
				continue next
			}
		}
		out = append(out, c)
	}
	return out
}

// ---- normalisation ----

type normalizer struct {
	e    *Eng
	T    *Terms
	kind foldKind
	err  string
	n    int
}

func (z *normalizer) fail(format string, a ...any) {
	if z.err == "" {
		z.err = fmt.Sprintf(format, a...)
	}
}

func (c comp) mapped(m *mapper) comp {
	c.g = m.Map(c.g)
	c.v = m.Map(c.v)
	return c
}

// normal rewrites contributions until values and guards speak of the block
// contents and the block index only.
func (z *normalizer) normal(cs []comp) []comp {
	var out []comp
	work := append([]comp(nil), cs...)
	for len(work) > 0 && z.err == "" {
		z.n++
		if z.n > 400 {
			z.fail("too many steps")
			break
		}
		c := work[0]
		work = work[1:]
		if c.g == z.T.False {
			continue
		}
		if r, ok := z.step(c); ok {
			work = append(r, work...)
			continue
		}
		out = append(out, c)
	}
	return out
}

func (z *normalizer) step(c comp) ([]comp, bool) {
	T := z.T
	// a value that is itself an aggregate
	foldable := false
	switch c.v.op {
	case "ite":
		foldable = true
	case "fin":
		foldable = c.v.args[0].op == "mu" || c.v.args[0].op == "k"
	case "lin", "len":
		foldable = z.kind == fSum
	case "int":
		foldable = z.kind != fSum && newFolder(z.e, z.kind).isIdentity(c.v) || z.kind == fSum && c.v == T.Zero
	}
	if foldable && z.kind != fSeq {
		f := newFolder(z.e, z.kind)
		f.fresh = z.n * 100
		cs := f.fold(c.v)
		if f.err != "" {
			z.fail("%s", f.err)
			return nil, true
		}
		if len(cs) == 1 && cs[0].v == c.v && len(cs[0].ks) == 0 {
			foldable = false
		} else {
			var out []comp
			for _, d := range cs {
				if d.acc {
					z.fail("open accumulator")
				}
				d.ks = append(append([]*Term(nil), c.ks...), d.ks...)
				d.g = T.And(c.g, d.g)
				d.needs = append(append([]*Term(nil), c.needs...), d.needs...)
				out = append(out, d)
			}
			return out, true
		}
	}
	if d, ok := z.zeroTest(c); ok {
		return []comp{d}, true
	}
	if a := z.nested(c); a != nil {
		return z.split(c, a), true
	}
	for _, k := range c.ks {
		if k.op == "k" {
			if ev := z.recvLoop(k.ref.(*Loop)); ev != nil {
				return z.received(c, k.ref.(*Loop), ev), true
			}
		}
	}
	// a value indexed out of a sequence built by a loop
	if s := z.indexed(c); s != nil {
		return z.expand(c, s), true
	}
	return nil, false
}

// zeroTest decides whether a count is zero that counts the contribution itself.
func (z *normalizer) zeroTest(c comp) (comp, bool) {
	T := z.T
	for _, a := range T.Atoms(c.g) {
		var cnt *Term
		zero := true // the atom says that the count is zero
		switch {
		case a.op == "eqc" && a.n == 0:
			cnt = a.args[0]
		case a.op == "lt" && a.args[0] == T.Zero && a.n == 0:
			cnt, zero = a.args[1], false
		case a.op == "lt" && a.args[1] == T.Zero && a.n == 1:
			cnt = a.args[0]
		}
		if cnt == nil || !containsOp(cnt, "fin") {
			continue
		}
		g := T.Cofactor(c.g, a, !zero)
		if g == T.False {
			continue
		}
		f := newFolder(z.e, fSum)
		f.fresh = z.n * 100
		cs := f.fold(cnt)
		if f.err != "" || len(f.pend) > 0 {
			continue
		}
		counted := T.False
		ok := true
		for _, d := range cs {
			v := d.v
			// no block of the index is empty
			stat := v.op == "field" && v.aux == "Count" && v.args[0].op == "elem" && v.args[0].args[0].op == "init"
			if d.acc || !stat && v.op != "len" && !(v.isInt() && v.n >= 0) {
				ok = false
				break
			}
			pos := d.g
			if !stat {
				pos = T.And(pos, T.Lt(T.Zero, v, kI64, true))
			}
			var extra, mine []*Term
			for _, k := range d.ks {
				if !memTerm(c.ks, k) {
					extra = append(extra, k)
				}
			}
			for _, k := range c.ks {
				if !memTerm(d.ks, k) {
					mine = append(mine, k)
				}
			}
			switch {
			case len(extra) == 0:
				counted = T.Or(counted, pos)
			case len(extra) == 1:
				// the position counted there is the one contributing here
				for _, x := range mine {
					m := newMapper(z.e, func(t *Term) *Term {
						if t == extra[0] {
							return x
						}
						return nil
					})
					counted = T.Or(counted, m.Map(pos))
				}
			}
		}
		if !ok || !z.unsat(T.And(g, T.Not(counted)), c.ksFacts(z.e)) {
			continue
		}
		c.g = g
		return c, true
	}
	return c, false
}

func memTerm(ts []*Term, t *Term) bool {
	for _, x := range ts {
		if x == t {
			return true
		}
	}
	return false
}

// nested finds the condition of a choice inside a term.
func (z *normalizer) nested(c comp) *Term {
	var best *Term
	seen := map[*Term]bool{}
	var inner func(t *Term) // t is below an operation
	inner = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		if t.op == "ite" {
			for _, x := range z.T.Atoms(t) {
				inner(x)
			}
			for _, x := range z.T.Leaves(t) {
				inner(x)
			}
			if best == nil {
				best = t.args[0]
			}
			return
		}
		for _, x := range t.args {
			inner(x)
		}
	}
	for _, t := range append([]*Term{c.v, c.g}, c.needs...) {
		for _, a := range z.T.Atoms(t) {
			for _, x := range a.args {
				inner(x)
			}
		}
		for _, l := range z.T.Leaves(t) {
			for _, x := range l.args {
				inner(x)
			}
		}
	}
	return best
}

// split considers the two outcomes of a condition separately.
func (z *normalizer) split(c comp, a *Term) []comp {
	T := z.T
	var out []comp
	for _, val := range []bool{true, false} {
		var m *mapper
		m = newMapper(z.e, func(t *Term) *Term {
			if t.op == "ite" && t.args[0] == a {
				if val {
					return m.Map(t.args[1])
				}
				return m.Map(t.args[2])
			}
			return nil
		})
		d := c.mapped(m)
		d.needs = nil
		for _, x := range c.needs {
			d.needs = append(d.needs, m.Map(x))
		}
		if val {
			d.g = T.And(d.g, T.Atom(a))
		} else {
			d.g = T.And(d.g, T.Not(T.Atom(a)))
		}
		if d.g != T.False {
			out = append(out, d)
		}
	}
	return out
}

// recvLoop: the loop receives until the channel is closed.
func (z *normalizer) recvLoop(L *Loop) *Event {
	T := z.T
	var ev *Event
	n := 0
	for _, it := range L.body {
		if it.Ev != nil && it.Ev.kind == "recv" {
			ev = it.Ev
			n++
		}
	}
	if n != 1 || len(ev.res) < 2 || !singleExit(L) {
		return nil
	}
	for _, x := range L.exits {
		if T.Implies(x.guard, T.Not(T.Atom(ev.res[1]))) {
			return ev
		}
	}
	return nil
}

// received replaces a receiving loop by what was sent.
func (z *normalizer) received(c comp, L *Loop, ev *Event) []comp {
	T := z.T
	var out []comp
	var walk func(items []*Item, loops []*Loop)
	walk = func(items []*Item, loops []*Loop) {
		for _, it := range items {
			switch {
			case it.Ev != nil && it.Ev.kind == "send" && sameChan(it.Ev.args[0], ev.args[0]):
				m := newMapper(z.e, func(t *Term) *Term {
					if t == ev.res[0] {
						return it.Ev.args[1]
					}
					if t.op == "res" && t.ref == any(ev) && t.n == 1 {
						return T.True
					}
					return nil
				})
				d := c.mapped(m)
				d.ks = nil
				for _, k := range c.ks {
					if k != L.K {
						d.ks = append(d.ks, k)
					}
				}
				for _, l := range loops {
					d.ks = append(d.ks, l.K)
				}
				for i, x := range d.needs {
					d.needs[i] = m.Map(x)
				}
				d.g = T.And(d.g, it.Ev.guard)
				out = append(out, d)
			case it.Loop != nil:
				walk(it.Loop.body, append(append([]*Loop(nil), loops...), it.Loop))
			case it.Spawn != nil:
				walk(it.Spawn.body, loops)
			}
		}
	}
	walk(z.e.trace, nil)
	if len(out) == 0 {
		z.fail("nothing is sent to the channel received from at %s", z.e.P.Pos(ev.pos))
	}
	return out
}

func sameChan(a, b *Term) bool {
	return a == b || a.op == "mkchan" && b.op == "mkchan" && a.ref == b.ref
}

// expandable: a sequence (or array) built by a loop.
func expandable(t *Term) bool {
	switch t.op {
	case "elem":
		s := t.args[0]
		return s.op == "fin" && s.args[0].op == "mu" || s.op == "appseq" || s.op == "app"
	case "sel":
		s := t.args[0]
		return s.op == "fin" && s.args[0].op == "mu"
	}
	return false
}

// indexed finds an expandable access whose index has none inside.
func (z *normalizer) indexed(c comp) *Term {
	var best *Term
	seen := map[*Term]bool{}
	var rec func(t *Term) bool // contains an expandable access
	rec = func(t *Term) bool {
		if seen[t] {
			return false
		}
		seen[t] = true
		in := false
		for _, a := range t.args {
			if rec(a) {
				in = true
			}
		}
		if expandable(t) {
			// expand the accesses of inner loops before those of outer ones
			if best == nil || z.depthOf(t) > z.depthOf(best) {
				best = t
			}
			return true
		}
		return in
	}
	rec(c.v)
	rec(c.g)
	return best
}

func (z *normalizer) depthOf(t *Term) int {
	s := t.args[0]
	if L, ok := s.ref.(*Loop); ok {
		return len(L.outerDeps)*1000 + L.id
	}
	return 0
}

// expand replaces an access to a built sequence by what its builder stored.
func (z *normalizer) expand(c comp, acc *Term) []comp {
	T := z.T
	iota := acc.args[1]
	if acc.op == "sel" {
		return z.filled(c, acc)
	}
	// all sequences accessed with this index
	var seqs []*Term
	seen := map[*Term]bool{}
	var rec func(t *Term)
	rec = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		if expandable(t) && t.op == "elem" && t.args[1] == iota {
			dup := false
			for _, s := range seqs {
				if s == t.args[0] {
					dup = true
				}
			}
			if !dup {
				seqs = append(seqs, t.args[0])
			}
		}
		for _, a := range t.args {
			rec(a)
		}
	}
	rec(c.v)
	rec(c.g)
	// the index must run over the whole sequence
	c, i, ok := z.wholeRange(c, iota, z.e.lenOf(seqs[0]))
	if !ok {
		return nil
	}
	var bags [][]comp
	for _, s := range seqs {
		f := newFolder(z.e, fSeq)
		b := f.fold(s)
		if f.err != "" {
			z.fail("%s", f.err)
			return nil
		}
		bags = append(bags, b)
		if len(b) != len(bags[0]) {
			z.fail("sequences of different shape are accessed with one index")
			return nil
		}
	}
	var out []comp
	for n := range bags[0] {
		for _, b := range bags {
			if !sameKs(b[n].ks, bags[0][n].ks) || b[n].g != bags[0][n].g {
				z.fail("sequences built under different conditions are accessed with one index")
				return nil
			}
		}
		m := newMapper(z.e, func(t *Term) *Term {
			if t.op == "elem" && t.args[1] == i {
				for q, s := range seqs {
					if t.args[0] == s {
						return bags[q][n].v
					}
				}
			}
			return nil
		})
		d := c.mapped(m)
		d.ks = nil
		for _, k := range c.ks {
			if k != i {
				d.ks = append(d.ks, k)
			}
		}
		d.ks = append(d.ks, bags[0][n].ks...)
		d.g = T.And(d.g, bags[0][n].g)
		if containsTerm(d.g, i) || containsTerm(d.v, i) {
			z.fail("the position in a filtered sequence is used")
			return nil
		}
		out = append(out, d)
	}
	return out
}

// filled: an array every element of which was stored by a counting loop.
func (z *normalizer) filled(c comp, acc *Term) []comp {
	T := z.T
	fin := acc.args[0]
	L := fin.ref.(*Loop)
	m := L.mu(fin.args[0])
	if m == nil || !singleExit(L) {
		z.fail("unclear array contents")
		return nil
	}
	next := m.next
	if m.cell != nil {
		// what a goroutine left there: no two of them touch the same element (C08)
		next = newMapper(z.e, func(t *Term) *Term {
			if t.op == "spawned" {
				if sp := t.ref.(*Spawn); sp.end != nil && sp.end.mem[*m.cell] != nil {
					return T.Restrict(sp.end.mem[*m.cell], sp.end.guard)
				}
			}
			return nil
		}).Map(next)
	}
	up := T.Restrict(next, L.cont)
	var old *Term // the element before the loop
	if m.init.op == "zeros" {
		if et, ok := m.init.ref.(types.Type); ok {
			old = z.e.zero(et)
		}
	}
	var at *Term
	var stored func(t *Term) *Term
	stored = func(t *Term) *Term {
		switch {
		case t.op == "ite":
			a, b := stored(t.args[1]), stored(t.args[2])
			if a == nil || b == nil {
				return nil
			}
			return T.Ite(T.Atom(t.args[0]), a, b)
		case t == m.term && old != nil:
			return old
		case t.op == "upd" && t.args[0] == m.term:
			off := T.Sub(t.args[1], L.K)
			if !off.isInt() {
				return nil
			}
			if at == nil {
				at = T.Sub(acc.args[1], off)
			}
			if T.Sub(acc.args[1], off) != at {
				return nil // elements in two orders
			}
			return t.args[2]
		}
		return nil
	}
	v := stored(up)
	if v == nil || at == nil {
		z.fail("array filled out of order at %s", z.e.P.Pos(L.pos))
		return nil
	}
	sub := newMapper(z.e, func(t *Term) *Term {
		if t == L.K {
			return at
		}
		return nil
	})
	val := sub.Map(v)
	gc := sub.Map(L.cont)
	if val.dependsOn(L) || gc.dependsOn(L) {
		// what was stored is itself accumulated in this iteration: speak of the
		// iteration instead of the position
		var k *Term
		for _, x := range c.ks {
			if d := T.Sub(at, x); d.isInt() && x != L.K {
				k = x
			}
		}
		if k == nil || memTerm(c.ks, L.K) {
			z.fail("unclear contents of the array filled at %s", z.e.P.Pos(L.pos))
			return nil
		}
		c = z.substK(c, k, T.Add(L.K, T.Sub(k, at)))
		c.ks = replaceK(c.ks, []*Term{k}, L.K)
		if M, ok := k.ref.(*Loop); ok && (c.g.dependsOn(M) || c.v.dependsOn(M)) {
			z.fail("unclear use of the array filled at %s", z.e.P.Pos(L.pos))
			return nil
		}
		acc = newMapper(z.e, func(t *Term) *Term {
			if t == k {
				return T.Add(L.K, T.Sub(k, at))
			}
			return nil
		}).Map(acc)
		at, val, gc = L.K, v, L.cont
	}
	cont := T.And(gc, T.Not(T.Lt(at, T.Zero, kI64, true)))
	// the guard of the access implies that the loop got there
	if !z.implied(c, cont) {
		if old == nil {
			z.fail("elements of the array may not have been stored: %s not under %s", cont.str(7), c.g.str(9))
			return nil
		}
		val = T.Ite(cont, val, old)
	}
	mm := newMapper(z.e, func(t *Term) *Term {
		if t == acc {
			return val
		}
		return nil
	})
	return []comp{c.mapped(mm)}
}

// implied: the contribution's guard implies cond.
func (z *normalizer) implied(c comp, cond *Term) bool {
	return z.unsat(z.T.And(c.g, z.T.Not(cond)), c.ksFacts(z.e))
}

func (c comp) ksFacts(e *Eng) []linFact {
	var out []linFact
	for _, k := range c.ks {
		out = append(out, linFact{co: map[int]int64{k.id: 1}})
	}
	return out
}

// unsat: no path of the diagram to true has consistent linear facts.
func (z *normalizer) unsat(g *Term, facts []linFact) bool {
	return unsatBDD(z.e, g, facts)
}

type ordLit struct {
	a   *Term
	val bool
}

// ordClash: the comparisons of unsigned values contradict each other: they
// make a cycle that one of them excludes.
func ordClash(T *Terms, lits []ordLit) bool {
	var vs []*Term
	id := map[*Term]int{}
	node := func(t *Term) int {
		i, ok := id[t]
		if !ok {
			i = len(vs)
			id[t] = i
			vs = append(vs, t)
		}
		return i
	}
	type edge struct {
		a, b   int
		strict bool
	}
	var es []edge
	for _, l := range lits {
		if l.a.op != "ult" {
			continue
		}
		a, b := node(l.a.args[0]), node(l.a.args[1])
		if l.val {
			es = append(es, edge{a, b, true})
		} else {
			es = append(es, edge{b, a, false})
		}
	}
	if len(es) == 0 || len(vs) > 12 {
		return false
	}
	for _, l := range lits {
		if l.a.op != "eqc" || !l.val || l.a.n != 0 {
			continue
		}
		for i := range vs {
			for j := i + 1; j < len(vs); j++ {
				if x := T.Sub(vs[i], vs[j]); x == l.a.args[0] || T.Sub(vs[j], vs[i]) == l.a.args[0] {
					es = append(es, edge{i, j, false}, edge{j, i, false})
				}
			}
		}
	}
	n := len(vs)
	reach := make([][]int, n) // 1: at most, 2: less than
	for i := range reach {
		reach[i] = make([]int, n)
	}
	for _, x := range es {
		v := 1
		if x.strict {
			v = 2
		}
		reach[x.a][x.b] = max(reach[x.a][x.b], v)
	}
	for k := 0; k < n; k++ {
		for i := 0; i < n; i++ {
			for j := 0; j < n; j++ {
				if reach[i][k] > 0 && reach[k][j] > 0 {
					reach[i][j] = max(reach[i][j], reach[i][k], reach[k][j])
				}
			}
		}
	}
	for i := range reach {
		if reach[i][i] == 2 {
			return true
		}
	}
	return false
}

func unsatBDD(e *Eng, g *Term, facts []linFact) bool {
	T := e.T
	if g == T.False {
		return true
	}
	steps := 0
	var lits []ordLit
	var rec func(g, path *Term) bool
	rec = func(g, path *Term) bool {
		steps++
		if steps > 3000 {
			if os.Getenv("VDEBUG") != "" {
				fmt.Println("--- too many steps")
			}
			return false
		}
		if g == T.False {
			return true
		}
		if ordClash(T, lits) {
			return true
		}
		if path != T.True && newProver(e, path, facts).infeasible() {
			return true
		}
		if g == T.True {
			if os.Getenv("VDEBUG") != "" {
				pos, neg := T.ForcedLiterals(path)
				fmt.Println("--- satisfiable path")
				for _, p := range pos {
					fmt.Println("  +", p.str(12))
				}
				for _, p := range neg {
					fmt.Println("  -", p.str(12))
				}
			}
			return false
		}
		if g.op != "ite" {
			panic("not a condition: " + g.str(5))
		}
		a := g.args[0]
		lin := a.op == "lt" || a.op == "eqc" || a.op == "ult"
		p1, p0 := path, path
		if lin {
			p1, p0 = T.And(path, T.Atom(a)), T.And(path, T.Not(T.Atom(a)))
		}
		side := func(g, p *Term, val bool) bool {
			if a.op == "ult" || a.op == "eqc" {
				lits = append(lits, ordLit{a, val})
				defer func() { lits = lits[:len(lits)-1] }()
			}
			return rec(g, p)
		}
		return side(g.args[1], p1, true) && side(g.args[2], p0, false)
	}
	if len(facts) > 0 && newProver(e, T.True, facts).infeasible() {
		return true
	}
	return rec(g, T.True)
}

// under simplifies a diagram where linear facts decide its atoms.
func (z *normalizer) under(g *Term, facts []linFact) *Term {
	e, T := z.e, z.T
	var rec func(g, path *Term) *Term
	rec = func(g, path *Term) *Term {
		if g.op != "ite" {
			return g
		}
		a := g.args[0]
		if a.op != "lt" && a.op != "eqc" && a.op != "ult" {
			h, l := rec(g.args[1], path), rec(g.args[2], path)
			return T.Ite(T.Atom(a), h, l)
		}
		p1, p0 := T.And(path, T.Atom(a)), T.And(path, T.Not(T.Atom(a)))
		if p1 == T.False || newProver(e, p1, facts).infeasible() {
			return rec(g.args[2], path)
		}
		if p0 == T.False || newProver(e, p0, facts).infeasible() {
			return rec(g.args[1], path)
		}
		h, l := rec(g.args[1], p1), rec(g.args[2], p0)
		if h == l {
			return h
		}
		if a.op == "eqc" && h.isInt() && h.n == a.n && l == a.args[0] {
			return l // x == c ? c : x
		}
		return T.Ite(T.Atom(a), h, l)
	}
	return rec(g, T.True)
}

func linFactOf(e *Eng, l, r *Term, d int64) linFact { // l - r + d >= 0
	p := &prover{e: e, T: e.T}
	a, _ := p.lin(l)
	b, _ := p.lin(r)
	f, _ := a.combine(1, b, -1)
	f.c += d
	return f
}

// counters lists the binders that occur in an index.
func (c comp) in(t *Term) []*Term {
	var out []*Term
	for _, k := range c.ks {
		if containsTerm(t, k) {
			out = append(out, k)
		}
	}
	return out
}

// rename replaces the binders of an index expression by one index symbol.
func (z *normalizer) rename(c comp, iota *Term, name string) (comp, *Term, bool) {
	T := z.T
	z.n++
	i := T.idx(fmt.Sprintf("%s%d", name, z.n))
	vars := c.in(iota)
	switch len(vars) {
	case 0:
		// a fixed element
		m := newMapper(z.e, func(t *Term) *Term { return nil })
		d := c.mapped(m)
		d.ks = append(append([]*Term(nil), c.ks...), i)
		d.g = T.And(d.g, T.Eq(i, iota))
		d = z.replaceIndex(d, iota, i)
		return d, i, true
	case 1:
		k := vars[0]
		args, coef, _ := T.linParts(iota)
		for n, a := range args {
			if a == k && (coef[n] == 1 || coef[n] == -1) {
				rest := T.Sub(iota, T.Scale(k, coef[n]))
				if containsTerm(rest, k) {
					break
				}
				kv := T.Scale(T.Sub(i, rest), coef[n])
				d := z.substK(c, k, kv)
				d.ks = replaceK(c.ks, []*Term{k}, i)
				if kv != i {
					d.g = T.And(d.g, T.Not(T.Lt(kv, T.Zero, kI64, true)))
				}
				return d, i, true
			}
		}
	case 2:
		return z.chunked(c, iota, vars, i)
	}
	z.fail("the index %s is not a simple one", iota.str(5))
	return c, nil, false
}

func replaceK(ks, old []*Term, i *Term) []*Term {
	var out []*Term
	for _, k := range ks {
		gone := false
		for _, o := range old {
			if k == o {
				gone = true
			}
		}
		if !gone {
			out = append(out, k)
		}
	}
	return append(out, i)
}

func (z *normalizer) substK(c comp, k, v *Term) comp {
	m := newMapper(z.e, func(t *Term) *Term {
		if t == k {
			return v
		}
		return nil
	})
	d := c.mapped(m)
	d.needs = nil
	for _, x := range c.needs {
		d.needs = append(d.needs, m.Map(x))
	}
	return d
}

// replaceIndex replaces a constant index in accesses.
func (z *normalizer) replaceIndex(c comp, iota, i *Term) comp {
	m := newMapper(z.e, func(t *Term) *Term {
		if (t.op == "elem" || t.op == "blk") && t.args[1] == iota {
			nt := &Term{op: t.op, aux: t.aux, n: t.n, ref: t.ref, kind: t.kind, args: []*Term{t.args[0], i}}
			return z.T.mk(nt)
		}
		return nil
	})
	return c.mapped(m)
}

// chunked: index = k + c*w, where each of N workers w handles the c elements
// from c*w on, and c*N covers all n elements.
func (z *normalizer) chunked(c comp, iota *Term, vars []*Term, i *Term) (comp, *Term, bool) {
	T := z.T
	e := z.e
	args, coef, c0 := T.linParts(iota)
	if c0 != 0 || len(args) != 2 {
		z.fail("the index %s is not a simple one", iota.str(5))
		return c, nil, false
	}
	try := func(K, W, prod *Term, chunk *Term, num int64) (comp, bool) {
		// numbers of chunks and elements
		var N, n *Term
		if chunk.op == "div" {
			N = chunk.args[1]
			n = T.Sub(T.Sub(chunk.args[0], N), T.Int(-1))
		} else {
			return c, false
		}
		d := z.substK(c, K, T.Sub(i, prod))
		facts := d.ksFacts(e)
		facts = append(facts, linFact{co: map[int]int64{i.id: 1}}, linFact{co: map[int]int64{prod.id: 1}})
		kk := T.Sub(i, prod)
		facts = append(facts, linFactOf(e, kk, T.Zero, 0)) // K >= 0
		// soundness: the guard implies k < c, i < n, w < N
		for _, x := range [][2]*Term{{kk, chunk}, {i, n}, {W, N}} {
			if !z.unsat(T.And(d.g, T.Not(T.Lt(x[0], x[1], kI64, true))), facts) {
				return c, false
			}
		}
		// under these facts nothing else depends on the partition
		facts = append(facts, linFactOf(e, chunk, kk, -1), linFactOf(e, n, i, -1), linFactOf(e, N, W, -1))
		d.g = z.under(d.g, facts)
		if containsTerm(d.g, W) || containsTerm(d.v, W) || containsTerm(d.g, chunk) {
			return c, false
		}
		d.g = T.And(d.g, T.Lt(i, n, kI64, true))
		d.ks = replaceK(c.ks, []*Term{K, W}, i)
		return d, true
	}
	for _, v := range [][2]*Term{{vars[0], vars[1]}, {vars[1], vars[0]}} {
		K, W := v[0], v[1]
		for n, a := range args {
			if a != K || coef[n] != 1 {
				continue
			}
			o := args[1-n]
			if coef[1-n] == 1 && o.op == "mul" && containsTerm(o, W) {
				ch := o.args[0]
				if ch == W {
					ch = o.args[1]
				}
				if d, ok := try(K, W, o, ch, 0); ok {
					return d, i, true
				}
			}
			// strides: index = w + N*k
			if o == W && coef[1-n] > 1 {
				_ = o
			}
		}
		// strides: index = w + N*k with N workers
		if d, ok := z.strided(c, iota, K, W, i); ok {
			return d, i, true
		}
	}
	z.fail("the index %s does not partition the range", iota.str(5))
	return c, nil, false
}

// strided: index = w + N*k, w < N.
func (z *normalizer) strided(c comp, iota, K, W, i *Term) (comp, bool) {
	T := z.T
	e := z.e
	rest := T.Sub(iota, W)
	if containsTerm(rest, W) {
		return c, false
	}
	var N *Term
	switch {
	case rest.op == "mul" && (rest.args[0] == K || rest.args[1] == K):
		N = rest.args[0]
		if N == K {
			N = rest.args[1]
		}
	case rest.op == "lin" && len(rest.args) == 1 && rest.args[0] == K && rest.n == 0:
		N = T.Int(rest.coef[0])
	default:
		return c, false
	}
	// W := i - N*K
	d := z.substK(c, W, T.Sub(i, rest))
	w := T.Sub(i, rest)
	facts := append(d.ksFacts(e), linFact{co: map[int]int64{i.id: 1}}, linFactOf(e, w, T.Zero, 0))
	if !z.unsat(T.And(d.g, T.Not(T.Lt(w, N, kI64, true))), facts) {
		return c, false
	}
	facts = append(facts, linFactOf(e, N, w, -1))
	d.g = z.under(d.g, facts)
	if containsTerm(d.g, K) || containsTerm(d.v, K) {
		return c, false
	}
	d.ks = replaceK(c.ks, []*Term{K, W}, i)
	return d, true
}

// wholeRange makes the index a symbol that runs over [0,n) exactly.
func (z *normalizer) wholeRange(c comp, iota, n *Term) (comp, *Term, bool) {
	T := z.T
	d, i, ok := z.rename(c, iota, "i")
	if !ok {
		return c, nil, false
	}
	facts := d.ksFacts(z.e)
	in := T.Lt(i, n, kI64, true)
	if !z.unsat(T.And(d.g, T.Not(in)), facts) {
		z.fail("an index may exceed its sequence")
		return c, nil, false
	}
	facts = append(facts, linFactOf(z.e, n, i, -1))
	d.g = z.under(d.g, facts)
	return d, i, true
}
