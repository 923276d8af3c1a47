package main

import "golang.org/x/tools/go/ssa"

import (
	"math"
	"sort"
)

// The prover decides linear inequalities entailed by a guard: the literals that
// hold whenever the guard holds give linear facts over the opaque terms, and a
// goal follows when facts and negated goal have no common rational point
// (Fourier-Motzkin elimination).

type linFact struct {
	co map[int]int64 // term id -> coefficient
	c  int64         // sum co*x + c >= 0
}

type prover struct {
	e     *Eng
	T     *Terms
	guard *Term
	facts []linFact
	extra []linFact
	memo  map[[2]int]bool
	depth int
	dead  bool
	sums  *sumInfo
	goals map[goalKey]bool // of a shared prover with nfact facts
	nfact int
}

const linLimit = int64(1) << 61

func addOK(a, b int64) (int64, bool) {
	s := a + b
	if a > 0 && b > 0 && (s < 0 || s > linLimit) || a < 0 && b < 0 && (s > 0 || s < -linLimit) {
		return 0, false
	}
	return s, true
}
func mulOK(a, b int64) (int64, bool) {
	if a == 0 || b == 0 {
		return 0, true
	}
	p := a * b
	if p/b != a || p > linLimit || p < -linLimit {
		return 0, false
	}
	return p, true
}

func newProver(e *Eng, guard *Term, extra []linFact) *prover {
	if e.cmp == nil || extra != nil {
		return newProver1(e, guard, extra)
	}
	c, ok := e.provers[guard.id]
	if !ok || c.ax != e.axVer {
		p := newProver1(e, guard, extra)
		p.sums = &sumInfo{}
		p.goals, p.nfact = map[goalKey]bool{}, len(p.facts)
		c = cachedProver{p, e.axVer}
		if e.provers == nil {
			e.provers = map[int]cachedProver{}
		}
		e.provers[guard.id] = c
	}
	p := *c.p
	return &p
}

type cachedProver struct {
	p  *prover
	ax int
}

func newProver1(e *Eng, guard *Term, extra []linFact) *prover {
	p := &prover{e: e, T: e.T, guard: guard, extra: extra, memo: map[[2]int]bool{}}
	p.facts = append(p.facts, extra...)
	if guard == e.T.False {
		p.dead = true
		return p
	}
	pos, neg := e.T.ForcedLiterals(guard)
	for _, a := range pos {
		p.literal(a, true)
	}
	for _, a := range neg {
		p.literal(a, false)
	}
	for t := range e.wraps {
		if f, ok := p.lin(t); ok {
			h := linFact{co: map[int]int64{e.half().id: 1}}
			if a, ok := f.combine(1, h, 1); ok {
				p.facts = append(p.facts, a)
			}
			if a, ok := h.combine(1, f, -1); ok {
				a.c--
				p.facts = append(p.facts, a)
			}
		}
	}
	p.facts = append(p.facts, e.axioms...)
	for _, x := range e.loopFacts {
		p.facts = append(p.facts, x.facts...)
	}
	return p
}

// lin of a term, as a mathematical integer.
func (p *prover) lin(t *Term) (linFact, bool) {
	f := linFact{co: map[int]int64{}}
	args, coef, c := p.T.linParts(t)
	f.c = c
	if c > linLimit || c < -linLimit {
		return f, false
	}
	for i, a := range args {
		if coef[i] > linLimit || coef[i] < -linLimit {
			return f, false
		}
		f.co[a.id] += coef[i]
	}
	if w := p.e.wraps[t]; w != 0 {
		f.co[p.e.half().id] -= 2 * w
	}
	return f, true
}

// half stands for 2^63: a sum that wraps around is off by twice of it.
func (e *Eng) half() *Term { return e.T.Op("half", "", 0, nil) }

// proves tries f with the facts of g; where sums of numbers from outside may
// wrap around, in every case of which do.
func (e *Eng) proves(g *Term, facts []linFact, terms []*Term, f func(p *prover) bool) bool {
	p := newProver(e, g, facts)
	if p.infeasible() || f(p) {
		return true
	}
	var ws []*Term
	seen := map[*Term]bool{}
	var add func(t *Term)
	add = func(t *Term) {
		if t == nil || seen[t] {
			return
		}
		seen[t] = true
		if t.op == "lin" && !p.sane(t) {
			ws = append(ws, t)
		}
		for _, a := range t.args {
			add(a)
		}
	}
	for _, t := range terms {
		add(t)
	}
	pos, neg := e.T.ForcedLiterals(g)
	for _, a := range append(append([]*Term(nil), pos...), neg...) {
		add(a)
	}
	if len(ws) == 0 || len(ws) > 8 {
		return false
	}
	defer func(old map[*Term]int64) { e.wraps = old }(e.wraps)
	e.wraps = map[*Term]int64{}
	n := 0
	var rec func(i int) bool
	rec = func(i int) bool {
		if n++; n > 400 {
			return false
		}
		p := newProver1(e, g, facts)
		if p.infeasible() {
			return true
		}
		if i == len(ws) {
			return f(p)
		}
		defer delete(e.wraps, ws[i])
		for _, w := range []int64{0, 1, -1} {
			e.wraps[ws[i]] = w
			if !rec(i + 1) {
				return false
			}
		}
		return true
	}
	return rec(0)
}

func (f linFact) combine(k int64, g linFact, m int64) (linFact, bool) {
	r := linFact{co: map[int]int64{}}
	for v, c := range f.co {
		x, ok := mulOK(c, k)
		if !ok {
			return r, false
		}
		r.co[v] = x
	}
	for v, c := range g.co {
		x, ok := mulOK(c, m)
		if !ok {
			return r, false
		}
		y, ok := addOK(r.co[v], x)
		if !ok {
			return r, false
		}
		if y == 0 {
			delete(r.co, v)
		} else {
			r.co[v] = y
		}
	}
	a, ok1 := mulOK(f.c, k)
	b, ok2 := mulOK(g.c, m)
	if !ok1 || !ok2 {
		return r, false
	}
	s, ok := addOK(a, b)
	r.c = s
	return r, ok
}

// geq records l - r + d >= 0.
func (p *prover) geq(l, r *Term, d int64) {
	if !p.sane(l) || !p.sane(r) {
		return
	}
	a, ok1 := p.lin(l)
	b, ok2 := p.lin(r)
	if !ok1 || !ok2 {
		return
	}
	f, ok := a.combine(1, b, -1)
	if !ok {
		return
	}
	f.c += d
	p.facts = append(p.facts, f)
}

// sane: the linear expression cannot wrap around.
func (p *prover) sane(t *Term) bool {
	if t.op == "ite" {
		return false
	}
	if t.op != "lin" {
		return true
	}
	if _, ok := p.e.wraps[t]; ok {
		return true
	}
	return !p.T.wild(t) || p.wildOK(t)
}

// wildOK: a difference of two nonnegative numbers does not wrap.
func (p *prover) wildOK(t *Term) bool {
	if len(t.args) == 2 && t.n == 0 && (t.coef[0] == 1 && t.coef[1] == -1 || t.coef[0] == -1 && t.coef[1] == 1) {
		return p.nonneg(t.args[0]) && p.nonneg(t.args[1])
	}
	if len(t.args) == 1 && t.coef[0] == 1 && t.n < 0 {
		return p.nonneg(t.args[0])
	}
	return false
}

func (p *prover) nonneg(t *Term) bool {
	if p.structNonneg(t, 0) {
		return true
	}
	for _, f := range p.facts {
		if len(f.co) == 1 && f.co[t.id] > 0 && f.c <= 0 {
			return true
		}
	}
	return false
}

// structNonneg: sums, products and quotients of nonnegative sizes.
func (p *prover) structNonneg(t *Term, d int) bool {
	if d > 4 {
		return false
	}
	if nonNeg(p.T, t) {
		return true
	}
	switch t.op {
	case "lin":
		if t.n < 0 || p.T.wild(t) {
			return false
		}
		for i, a := range t.args {
			if t.coef[i] < 0 || !p.structNonneg(a, d+1) {
				return false
			}
		}
		return true
	case "mul":
		return !p.T.wild(t) && p.structNonneg(t.args[0], d+1) && p.structNonneg(t.args[1], d+1)
	case "div":
		return p.structNonneg(t.args[0], d+1) && p.structNonneg(t.args[1], d+1)
	}
	return false
}

func (p *prover) literal(a *Term, val bool) {
	switch a.op {
	case "lt":
		l, r, d := a.args[0], a.args[1], a.n
		if val {
			p.geq(r, l, d-1)
		} else {
			p.geq(l, r, -d)
		}
	case "eqc":
		x := a.args[0]
		if val {
			p.geq(x, p.T.Int(a.n), 0)
			p.geq(p.T.Int(a.n), x, 0)
		} else if lo, hi, ok := p.T.rangeOf(x); ok {
			if lo == a.n {
				p.geq(x, p.T.Int(a.n+1), 0)
			} else if hi == a.n {
				p.geq(p.T.Int(a.n-1), x, 0)
			}
		} else if p.nonneg(x) && a.n == 0 {
			p.geq(x, p.T.Int(1), 0)
		}
	case "ult":
		if val && p.nonneg(a.args[1]) {
			p.geq(a.args[1], a.args[0], -1)
			p.geq(a.args[0], p.T.Zero, 0)
		}
		if !val && p.nonneg(a.args[0]) { // b <= a unsigned, a nonneg
			p.geq(a.args[0], a.args[1], 0)
			p.geq(a.args[1], p.T.Zero, 0)
		}
	}
}

// le proves a <= b.
func (p *prover) le(a, b *Term) bool { return p.geqGoal(b, a, 0) }

// lt proves a < b.
func (p *prover) lt(a, b *Term) bool { return p.geqGoal(b, a, -1) }

func (p *prover) geqGoal(l, r *Term, d int64) bool {
	if p.dead {
		return true
	}
	// guarded values: every leaf under its guard
	for _, t := range []*Term{l, r} {
		if t.op == "ite" {
			for _, leaf := range p.T.Leaves(t) {
				g := p.T.And(p.guard, p.T.LeafGuard(t, leaf))
				if g == p.T.False {
					continue
				}
				q := newProver(p.e, g, p.extra)
				q.depth = p.depth + 1
				l2, r2 := l, r
				if t == l {
					l2 = leaf
				} else {
					r2 = leaf
				}
				if !q.geqGoal(p.T.Restrict(l2, g), p.T.Restrict(r2, g), d) {
					return false
				}
			}
			return true
		}
	}
	diff := p.T.addScaled(l, r, -1)
	if !p.sane(l) || !p.sane(r) {
		return false
	}
	var g linFact
	if p.e.wraps != nil {
		x, ok1 := p.lin(l)
		y, ok2 := p.lin(r)
		f, ok := x.combine(1, y, -1)
		if !ok1 || !ok2 || !ok {
			return false
		}
		g = f
	} else {
		if lo, _, ok := p.T.rangeOf(diff); ok && lo+d >= 0 {
			return true
		}
		f, ok := p.lin(diff)
		if !ok {
			return false
		}
		g = f
	}
	g.c += d
	key := goalKey{diff, d, p.depth}
	memo := p.goals != nil && len(p.facts) == p.nfact
	if memo {
		if r, ok := p.goals[key]; ok {
			return r
		}
	}
	r0 := p.entails(g) || p.splitGoal(l, r, d, g)
	if memo {
		p.goals[key] = r0
	}
	return r0
}

type goalKey struct {
	diff  *Term
	d     int64
	depth int
}

func (p *prover) splitGoal(l, r *Term, d int64, g linFact) bool {
	// case split over the guard's other atoms
	if p.depth < 6 {
		for _, a := range p.splitAtoms(g) {
			g1 := p.T.And(p.guard, p.T.Atom(a))
			g0 := p.T.And(p.guard, p.T.Not(p.T.Atom(a)))
			q1 := newProver(p.e, g1, p.extra)
			q1.depth = p.depth + 2
			q0 := newProver(p.e, g0, p.extra)
			q0.depth = p.depth + 2
			if q1.geqGoal(l, r, d) && q0.geqGoal(l, r, d) {
				return true
			}
		}
	}
	return false
}

// splitAtoms are atoms to split on, those that share the most with the goal first.
func (p *prover) splitAtoms(g linFact) []*Term {
	type cand struct {
		a *Term
		n int
	}
	var cs []cand
	for _, a := range p.T.Atoms(p.guard) {
		switch a.op {
		case "lt", "eqc", "ult":
			n := 0
			for _, x := range a.args {
				if x.op == "ite" {
					continue
				}
				args, _, _ := p.T.linParts(x)
				for _, v := range args {
					if g.co[v.id] != 0 {
						n++
					}
				}
			}
			if n > 0 || p.depth < 2 {
				cs = append(cs, cand{a, n})
			}
		}
	}
	sort.SliceStable(cs, func(i, j int) bool { return cs[i].n > cs[j].n })
	var out []*Term
	for _, c := range cs {
		if len(out) >= 8-p.depth {
			break
		}
		at := p.T.Atom(c.a)
		if p.T.And(p.guard, at) != p.T.False && p.T.And(p.guard, p.T.Not(at)) != p.T.False {
			out = append(out, c.a)
		}
	}
	return out
}

// infeasible: the guard's facts contradict each other.
func (p *prover) infeasible() bool {
	if p.dead {
		return true
	}
	if p.entails(linFact{co: map[int]int64{}, c: -1}) {
		return true
	}
	// each connected part of the facts
	done := map[int]bool{}
	for _, f := range p.facts {
		for v := range f.co {
			if !done[v] {
				if p.contradiction(v, done) {
					return true
				}
			}
			break
		}
	}
	return false
}

func (p *prover) contradiction(v int, done map[int]bool) bool {
	vars := map[int]bool{v: true}
	return p.closure([]linFact{{co: map[int]int64{}, c: 0}}, vars, done)
}

func (p *prover) entails(goal linFact) bool {
	// collect relevant facts and add ranges of the variables involved
	neg, ok := linFact{co: map[int]int64{}}.combine(1, goal, -1)
	if !ok {
		return false
	}
	neg.c-- // goal <= -1
	vars := map[int]bool{}
	for v := range neg.co {
		vars[v] = true
	}
	return p.closure([]linFact{neg}, vars, nil)
}

// sumInfo is what is known about sums under a guard.
type sumInfo struct {
	facts   []linFact
	seen    []*Term
	started bool
}

// sum derives the facts about one more sum.
func (p *prover) sum(t *Term) {
	for _, u := range p.sums.seen {
		if u == t {
			return
		}
	}
	fs := p.psumFacts(t, p.sums.seen)
	p.sums.seen = append(p.sums.seen, t)
	p.sums.facts = append(p.sums.facts, fs...)
}

func (p *prover) sumsOf(f linFact) {
	if p.e.cmp == nil || p.depth >= 8 {
		return
	}
	var ts []*Term
	for v := range f.co {
		if t := p.T.all[v]; t.op == "psum" {
			ts = append(ts, t)
		}
	}
	sort.Slice(ts, func(i, j int) bool { return ts[i].id < ts[j].id })
	for _, t := range ts {
		p.sum(t)
	}
}

// closure: the facts connected to the variables contradict each other.
func (p *prover) closure(sys []linFact, vars, done map[int]bool) bool {
	facts := p.facts
	if p.e.cmp != nil && p.depth < 8 {
		if p.sums == nil {
			p.sums = &sumInfo{}
		}
		if !p.sums.started {
			p.sums.started = true
			for _, f := range p.facts {
				p.sumsOf(f)
			}
		}
		for _, f := range sys {
			p.sumsOf(f)
		}
		facts = append(append([]linFact{}, p.facts...), p.sums.facts...)
	}
	used := make([]bool, len(facts))
	ranged := map[int]bool{}
	for round := 0; round < 8; round++ {
		grow := false
		for v := range vars {
			if ranged[v] {
				continue
			}
			ranged[v] = true
			for _, f := range p.varFacts(v) {
				sys = append(sys, f)
				for w := range f.co {
					if !vars[w] {
						vars[w] = true
						grow = true
					}
				}
			}
		}
		for i, f := range facts {
			if used[i] {
				continue
			}
			if len(f.co) == 0 {
				used[i] = true
				sys = append(sys, f)
				continue
			}
			hit := false
			for v := range f.co {
				if vars[v] {
					hit = true
				}
			}
			if hit {
				used[i] = true
				grow = true
				sys = append(sys, f)
				for v := range f.co {
					vars[v] = true
				}
			}
		}
		if !grow {
			break
		}
	}
	if done != nil {
		for v := range vars {
			done[v] = true
		}
	}
	return fmInfeasible(sys)
}

// varFacts are facts about a term that hold by its construction.
func (p *prover) varFacts(id int) []linFact {
	t := p.T.all[id]
	var out []linFact
	if lo, hi, ok := p.T.rangeOf(t); ok {
		out = append(out, linFact{co: map[int]int64{id: 1}, c: -lo})
		if hi < 1<<60 {
			out = append(out, linFact{co: map[int]int64{id: -1}, c: hi})
		}
	}
	add := func(l, r *Term, d int64) { // l - r + d >= 0
		a, ok1 := p.lin(l)
		b, ok2 := p.lin(r)
		if !ok1 || !ok2 {
			return
		}
		if f, ok := a.combine(1, b, -1); ok {
			f.c += d
			out = append(out, f)
		}
	}
	if p.structNonneg(t, 0) {
		out = append(out, linFact{co: map[int]int64{id: 1}, c: 0})
	}
	if p.e.wraps != nil {
		h := p.e.half()
		if t == h {
			out = append(out, linFact{co: map[int]int64{id: 1}, c: -(1 << 60)})
		} else if t.kind.bits() == 64 || t.op == "len" || t.op == "fsize" {
			out = append(out, linFact{co: map[int]int64{h.id: 1, id: -1}, c: -1})
			out = append(out, linFact{co: map[int]int64{h.id: 1, id: 1}, c: 0})
		}
	}
	switch t.op {
	case "vi": // (value, n): n <= len of the input, n <= 10
		if t.n == 1 {
			ln := t.args[len(t.args)-1]
			if len(t.args) == 1 {
				ln = p.e.lenOf(t.args[0])
			}
			if ln.op != "ite" {
				add(ln, t, 0)
			}
			out = append(out, linFact{co: map[int]int64{id: -1}, c: 11})
			if t.aux != "Uvarint" && t.aux != "Varint" {
				out = append(out, linFact{co: map[int]int64{id: 1}, c: 0})
			}
		}
	case "div":
		if t.args[1].isInt() && t.args[1].n > 0 && nonNeg(p.T, t.args[0]) {
			c := t.args[1].n
			add(t.args[0], p.T.Scale(t, c), 0)
			add(p.T.Scale(t, c), t.args[0], c-1)
		} else if t.aux == "u" || nonNeg(p.T, t.args[0]) {
			out = append(out, linFact{co: map[int]int64{id: 1}, c: 0})
		} else if p.depth < 8 && p.structNonneg(t.args[1], 0) && t.args[0].op != "ite" {
			q := &prover{e: p.e, T: p.T, guard: p.guard, facts: p.facts, extra: p.extra, depth: 9}
			if q.le(p.T.Zero, t.args[0]) {
				out = append(out, linFact{co: map[int]int64{id: 1}, c: 0})
			}
		}
	case "mul":
		if p.depth < 8 && !p.T.wild(t) {
			q := &prover{e: p.e, T: p.T, guard: p.guard, facts: p.facts, extra: p.extra, depth: 9}
			if q.le(p.T.Zero, t.args[0]) && q.le(p.T.Zero, t.args[1]) {
				out = append(out, linFact{co: map[int]int64{id: 1}, c: 0})
			}
		}
	case "len":
		if p.e.cmp != nil && t.args[0].op == "venc" {
			if f := p.e.cmp.encFact(t.args[0].ref.(*ssa.Function)); f.ok {
				out = append(out, linFact{co: map[int]int64{id: 1}, c: -int64(f.minN)}, linFact{co: map[int]int64{id: -1}, c: int64(f.maxN)})
			}
		}
	case "mod":
		out = append(out, linFact{co: map[int]int64{id: 1}, c: 0}, linFact{co: map[int]int64{id: -1}, c: t.n - 1})
		if nonNeg(p.T, t.args[0]) {
			add(t.args[0], t, 0)
		}
	case "k":
		L := t.ref.(*Loop)
		if L.trip != nil && L.trip.op != "ite" && L.tripNN && L.headerOnly() {
			// within an iteration that passed the header test this is in the guard
		}
	case "cap":
		ln := p.e.lenOf(t.args[0])
		if ln.op != "ite" {
			add(t, ln, 0)
		}
	case "ncpu":
		out = append(out, linFact{co: map[int]int64{id: 1}, c: -1})
	case "fsize", "fpos":
		out = append(out, linFact{co: map[int]int64{id: 1}, c: 0})
	case "T":
		// a narrowing that does not lose anything
		in := t.args[0]
		if lo, hi, ok := kindRange(t.kind); ok && in.op != "ite" && p.depth < 4 && !t.kind.signed() {
			q := &prover{e: p.e, T: p.T, guard: p.guard, facts: p.facts, extra: p.extra, depth: 9}
			if !containsTerm(in, t) {
				if q.le(p.T.Int(lo), in) && q.le(in, p.T.Int(hi)) {
					add(in, t, 0)
					add(t, in, 0)
				}
			}
		}
	}
	if inv := p.e.muInv[t]; inv != nil {
		out = append(out, inv...)
	}
	return out
}

func containsTerm(t, x *Term) bool {
	if t == x {
		return true
	}
	for _, a := range t.args {
		if containsTerm(a, x) {
			return true
		}
	}
	return false
}

func (l *Loop) headerOnly() bool {
	for _, x := range l.exits {
		if !x.header {
			return false
		}
	}
	return true
}

func gcd(a, b int64) int64 {
	if a < 0 {
		a = -a
	}
	if b < 0 {
		b = -b
	}
	for b != 0 {
		a, b = b, a%b
	}
	return a
}

func (f linFact) norm() linFact {
	var g int64
	for _, c := range f.co {
		g = gcd(g, c)
	}
	if g > 1 {
		r := linFact{co: map[int]int64{}}
		for v, c := range f.co {
			r.co[v] = c / g
		}
		// integers: floor
		q := f.c / g
		if f.c%g != 0 && f.c < 0 {
			q--
		}
		r.c = q
		return r
	}
	return f
}

func (f linFact) key() string {
	vs := make([]int, 0, len(f.co))
	for v := range f.co {
		vs = append(vs, v)
	}
	sort.Ints(vs)
	b := make([]byte, 0, 64)
	for _, v := range vs {
		for x := v; ; x /= 64 {
			b = append(b, byte(33+x%64))
			if x < 64 {
				break
			}
		}
		b = append(b, ':')
		c := f.co[v]
		if c < 0 {
			b = append(b, '-')
			c = -c
		}
		for x := c; ; x /= 64 {
			b = append(b, byte(33+x%64))
			if x < 64 {
				break
			}
		}
		b = append(b, ';')
	}
	return string(b)
}

// fmInfeasible: no rational point satisfies all facts.
func fmInfeasible(sys []linFact) bool {
	for step := 0; step < 60; step++ {
		best := map[string]linFact{}
		for _, f := range sys {
			f = f.norm()
			if len(f.co) == 0 {
				if f.c < 0 {
					return true
				}
				continue
			}
			k := f.key()
			if o, ok := best[k]; !ok || f.c < o.c {
				best[k] = f
			}
		}
		sys = sys[:0]
		keys := make([]string, 0, len(best))
		for k := range best {
			keys = append(keys, k)
		}
		sort.Strings(keys)
		for _, k := range keys {
			sys = append(sys, best[k])
		}
		if len(sys) == 0 {
			return false
		}
		// choose the variable with the fewest products
		pc, nc := map[int]int{}, map[int]int{}
		for _, f := range sys {
			for v, c := range f.co {
				if c > 0 {
					pc[v]++
				} else {
					nc[v]++
				}
			}
		}
		bv, bc := -1, math.MaxInt
		var vs []int
		for v := range pc {
			vs = append(vs, v)
		}
		for v := range nc {
			if pc[v] == 0 {
				vs = append(vs, v)
			}
		}
		sort.Ints(vs)
		for _, v := range vs {
			k := pc[v]*nc[v] - pc[v] - nc[v]
			if k < bc {
				bv, bc = v, k
			}
		}
		if bv < 0 {
			return false
		}
		var P, N, rest []linFact
		for _, f := range sys {
			switch c := f.co[bv]; {
			case c > 0:
				P = append(P, f)
			case c < 0:
				N = append(N, f)
			default:
				rest = append(rest, f)
			}
		}
		for _, a := range P {
			for _, b := range N {
				r, ok := a.combine(-b.co[bv], b, a.co[bv])
				if !ok {
					continue
				}
				delete(r.co, bv)
				rest = append(rest, r)
			}
		}
		if len(rest) > 900 {
			return false
		}
		sys = rest
	}
	return false
}

// wild terms are 64-bit quantities taken from outside: sums with them may wrap.
func (T *Terms) wild(t *Term) bool {
	switch t.op {
	case "lin":
		for _, a := range t.args {
			if T.wild(a) {
				return true
			}
		}
		return false
	case "fle":
		return t.n == 8
	case "psum":
		return T.wild(t.args[1])
	case "elem", "sel", "field", "vi", "le":
		return (T.cmp || T.outside && !(t.op == "vi" && t.n == 1)) && t.kind.bits() == 64
	case "mul":
		return T.wild(t.args[0]) || T.wild(t.args[1])
	case "init":
		return t.kind.bits() == 64 && t.aux != "" && T.wildInit[t.aux]
	}
	return false
}

// itemRange bounds the items of a sum.
func (p *prover) itemRange(body *Term) (lo, hi int64, ok bool) {
	if body.op == "ite" {
		l1, h1, ok1 := p.itemRange(body.args[1])
		l2, h2, ok2 := p.itemRange(body.args[2])
		return min(l1, l2), max(h1, h2), ok1 && ok2
	}
	if body.op == "len" && body.args[0].op == "venc" && p.e.cmp != nil {
		if f := p.e.cmp.encFact(body.args[0].ref.(*ssa.Function)); f.ok {
			return int64(f.minN), int64(f.maxN), true
		}
	}
	lo, hi, ok = p.T.rangeOf(body)
	if ok && hi > 1<<20 {
		return lo, 0, lo >= 0
	}
	return
}

// psumFacts: a sum of n items is bounded by the bounds of the items, and grows.
func (p *prover) psumFacts(t *Term, others []*Term) []linFact {
	n, body := t.args[0], t.args[1]
	lo, hi, ok := p.itemRange(body)
	if !ok || lo < 0 || p.depth >= 8 || n.op == "ite" {
		return nil
	}
	q := &prover{e: p.e, T: p.T, guard: p.guard, facts: p.facts, extra: p.extra, depth: 9}
	if !q.le(p.T.Zero, n) {
		return nil
	}
	var out []linFact
	add := func(l, r *Term, d int64) {
		a, ok1 := p.lin(l)
		b, ok2 := p.lin(r)
		if ok1 && ok2 {
			if f, ok := a.combine(1, b, -1); ok {
				f.c += d
				out = append(out, f)
			}
		}
	}
	// an item, or at least its lower bound
	item := func(i *Term) *Term {
		x := p.T.Restrict(p.e.apply(body, i), p.guard)
		if x.op == "ite" {
			return p.T.Int(lo)
		}
		return x
	}
	add(t, p.T.Scale(n, lo), 0)
	if hi > 0 {
		add(p.T.Scale(n, hi), t, 0)
	}
	if q.lt(p.T.Zero, n) {
		add(t, item(p.T.Zero), 0)
	}
	for _, u := range others {
		m := u.args[0]
		if u.args[1] != body || m.op == "ite" {
			continue
		}
		switch {
		case q.lt(m, n): // the items between
			add(t, p.T.Add(u, item(m)), 0)
		case q.le(m, n):
			add(t, u, 0)
		case q.lt(n, m):
			add(u, p.T.Add(t, item(n)), 0)
		}
	}
	return out
}
