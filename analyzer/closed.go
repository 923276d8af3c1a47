package main

import (
	"go/types"
	"sort"
	"strconv"

	"golang.org/x/tools/go/ssa"
)

// Closed forms of loop-carried values.
//
// In composition mode a value that a loop accumulates is replaced by a closed
// form in the iteration counter K: partial sums psum(K, body), filled arrays
// fill(init, c, K, body), built sequences comp(init, K, body), telescoped
// differences. Every closed form is verified by induction: the next round
// evaluates the body with it and must arrive at its value for K+1.

const bvName = "bv"

func (T *Terms) bv(d int) *Term { return T.Op("bv", bvName+strconv.Itoa(d), kI64, nil) }

// bvInfo: the free bound-variable numbers of a term, and the largest number a
// binder inside it uses. The variable of a binder is one more than those used
// by binders within its body, so equal values are equal terms.
type bvInfo struct {
	free []int
	nest int
}

func isBinder(t *Term) bool {
	switch t.op {
	case "psum", "fill", "fillb", "comp", "cats":
		return true
	}
	return false
}

func (e *Eng) bvInfo(t *Term) bvInfo {
	if r, ok := e.bvMemo[t]; ok {
		return r
	}
	r := bvInfo{nest: -1}
	add := func(xs []int, except int) {
		for _, x := range xs {
			if x == except {
				continue
			}
			has := false
			for _, y := range r.free {
				has = has || x == y
			}
			if !has {
				r.free = append(r.free, x)
			}
		}
	}
	if t.op == "bv" {
		d, _ := strconv.Atoi(t.aux[len(bvName):])
		r.free = []int{d}
	}
	for i, a := range t.args {
		x := e.bvInfo(a)
		ex := -1
		if isBinder(t) && i == len(t.args)-1 {
			ex = x.nest + 1
			r.nest = max(r.nest, ex)
		}
		r.nest = max(r.nest, x.nest)
		add(x.free, ex)
	}
	if e.bvMemo == nil {
		e.bvMemo = map[*Term]bvInfo{}
	}
	e.bvMemo[t] = r
	return r
}

// abstract turns a term in x into a body over a bound variable; nil when it
// contains other bound variables that could be confused with it.
func (e *Eng) abstract(t, x *Term) *Term {
	in := e.bvInfo(t)
	xd := -1
	if x.op == "bv" {
		xd = e.bvInfo(x).free[0]
	}
	for _, f := range in.free {
		if f != xd && f <= in.nest+1 {
			return nil
		}
	}
	b := e.T.bv(in.nest + 1)
	if b == x {
		return t
	}
	return e.subst(t, x, b)
}

func (e *Eng) subst(t, x, v *Term) *Term {
	if t == nil || !containsTermM(t, x, map[*Term]bool{}) {
		return t
	}
	capt := e.bvInfo(v).free
	return newMapper(e, func(u *Term) *Term {
		if u == x {
			return v
		}
		if len(capt) > 0 && isBinder(u) {
			b := e.bvInfo(u.args[len(u.args)-1]).nest + 1
			for _, f := range capt {
				if f == b && containsTermM(u.args[len(u.args)-1], x, map[*Term]bool{}) {
					return e.T.mk(&Term{op: "unkbind", args: []*Term{u, x, v}, kind: u.kind})
				}
			}
		}
		return nil
	}).Map(t)
}

func containsTermM(t, x *Term, seen map[*Term]bool) bool {
	if t == x {
		return true
	}
	if seen[t] {
		return false
	}
	seen[t] = true
	for _, a := range t.args {
		if containsTermM(a, x, seen) {
			return true
		}
	}
	return false
}

// apply instantiates a body.
func (e *Eng) apply(body, idx *Term) *Term {
	b := e.bvOf(body)
	if b == nil {
		return body
	}
	return e.subst(body, b, idx)
}

// bvOf is the variable of a body, nil when the body does not use it.
func (e *Eng) bvOf(body *Term) *Term {
	in := e.bvInfo(body)
	for _, f := range in.free {
		if f == in.nest+1 {
			return e.T.bv(f)
		}
	}
	return nil
}

// binder makes a closed form whose element in iteration x is t.
func (e *Eng) binder(op string, n int64, t, x *Term, args ...*Term) *Term {
	body := e.abstract(t, x)
	if body == nil {
		return nil
	}
	return e.T.mk(&Term{op: op, n: n, args: append(append([]*Term{}, args...), body)})
}

// psumOf is the sum over t(x) for x = 0..n-1.
func (e *Eng) psumOf(n, t, x *Term) *Term {
	body := e.abstract(t, x)
	if body == nil {
		return e.T.mk(&Term{op: "unkbind", args: []*Term{n, t, x}})
	}
	return e.psum(n, body)
}

// rebind rebuilds a binder whose body was rewritten.
func (e *Eng) rebind(t *Term, as []*Term) *Term {
	T := e.T
	n := len(as) - 1
	old := e.T.bv(e.bvInfo(t.args[n]).nest + 1)
	body := e.abstract(as[n], old)
	if body == nil {
		return T.mk(&Term{op: "unkbind", args: append([]*Term{t}, as...), kind: t.kind})
	}
	return T.Lift("", func(x []*Term) *Term {
		if t.op == "psum" {
			return e.psum(x[0], body)
		}
		return T.mk(&Term{op: t.op, aux: t.aux, n: t.n, ref: t.ref, kind: t.kind, args: append(append([]*Term{}, x...), body)})
	}, as[:n]...)
}

// psum is the sum of body(0..n-1).
func (e *Eng) psum(n, body *Term) *Term {
	T := e.T
	b := e.bvOf(body)
	if b == nil {
		return T.Mul(n, body)
	}
	if n.op == "ite" {
		return T.Lift("psum"+strconv.Itoa(body.id), func(x []*Term) *Term { return e.psum(x[0], body) }, n)
	}
	if n.isInt() {
		// S(0) = 0, S(n+1) = S(n) + body(n) for all n
		if n.n == 0 {
			return T.Zero
		}
		if n.n > 0 && n.n <= 16 {
			r := T.Zero
			for i := int64(0); i < n.n; i++ {
				r = T.Add(r, e.apply(body, T.Int(i)))
			}
			return r
		}
	}
	if body.op == "lin" {
		r := T.Scale(n, body.n)
		for i, a := range body.args {
			if containsTermM(a, b, map[*Term]bool{}) {
				r = T.Add(r, T.Scale(e.psumOf(n, a, b), body.coef[i]))
			} else {
				r = T.Add(r, T.Scale(T.Mul(n, a), body.coef[i]))
			}
		}
		return r
	}
	if n.op == "lin" && n.n != 0 && n.n >= -4 && n.n <= 4 {
		y := T.Sub(n, T.Int(n.n))
		r := e.psum(y, body)
		for i := int64(0); i < n.n; i++ {
			r = T.Add(r, e.apply(body, T.Add(y, T.Int(i))))
		}
		for i := int64(-1); i >= n.n; i-- {
			r = T.Sub(r, e.apply(body, T.Add(y, T.Int(i))))
		}
		return r
	}
	return T.Op("psum", "", 0, nil, n, body)
}

// inRange is the condition lo <= idx-c < n, as far as the guard does not decide it.
func (e *Eng) inRange(d, n *Term) *Term {
	T := e.T
	c := T.And(T.Not(T.Lt(d, T.Zero, kI64, true)), T.Lt(d, n, kI64, true))
	return e.decide(c, e.guard())
}

func (e *Eng) guard() *Term {
	if e.cur != nil {
		return e.cur.guard
	}
	return e.T.True
}

// decide simplifies a condition under a guard with linear arithmetic.
func (e *Eng) decide(c, guard *Term) *Term {
	T := e.T
	if c == T.True || c == T.False {
		return c
	}
	key := [2]int{c.id, guard.id}
	if r, ok := e.decMemo[key]; ok && r.ax == e.axVer {
		return r.t
	}
	var rec func(c, path *Term, n int) *Term
	rec = func(c, path *Term, n int) *Term {
		if c.op != "ite" {
			return c
		}
		if n > 12 {
			return c
		}
		a := c.args[0]
		p1, p0 := T.And(path, T.Atom(a)), T.And(path, T.Not(T.Atom(a)))
		lin := a.op == "lt" || a.op == "eqc" || a.op == "ult"
		if p1 == T.False || lin && e.refuted(path, a, true, p1) {
			return rec(c.args[2], path, n+1)
		}
		if p0 == T.False || lin && e.refuted(path, a, false, p0) {
			return rec(c.args[1], path, n+1)
		}
		h, l := rec(c.args[1], p1, n+1), rec(c.args[2], p0, n+1)
		return T.Ite(T.Atom(a), h, l)
	}
	r := rec(T.Restrict(c, guard), guard, 0)
	if e.decMemo == nil {
		e.decMemo = map[[2]int]decided{}
	}
	e.decMemo[key] = decided{r, e.axVer}
	return r
}

// refuted: a literal cannot hold on a path (with is the path and the literal).
func (e *Eng) refuted(path, a *Term, val bool, with *Term) bool {
	if newProver(e, with, nil).infeasible() {
		return true
	}
	if a.op != "lt" {
		return false
	}
	p := newProver(e, path, nil)
	if val {
		return p.geqGoal(a.args[0], a.args[1], -a.n)
	}
	return p.geqGoal(a.args[1], a.args[0], a.n-1)
}

type decided struct {
	t  *Term
	ax int
}

// loopFact holds in every iteration of a loop.
type loopFact struct {
	key   any
	L     *Loop
	facts []linFact
}

func (e *Eng) setLoopFact(L *Loop, key any, fs []linFact) {
	var out []loopFact
	for _, x := range e.loopFacts {
		if x.L != L || x.key != key {
			out = append(out, x)
		}
	}
	if fs != nil {
		out = append(out, loopFact{key, L, fs})
	}
	e.loopFacts = out
	e.axVer++
}

// rangeFacts: lo <= t <= hi.
func (e *Eng) rangeFacts(t *Term, lo, hi int64) []linFact {
	var out []linFact
	p := &prover{e: e, T: e.T}
	for _, leaf := range []*Term{t} {
		if leaf.op == "ite" {
			continue
		}
		if f, ok := p.lin(leaf); ok {
			up, _ := linFact{co: map[int]int64{}, c: hi}.combine(1, f, -1)
			f.c -= lo
			out = append(out, f, up)
		}
	}
	return out
}

// exitFacts are facts about the values with which a loop ends.
func (e *Eng) exitFacts(L *Loop, le *LoopExit, closed map[any]closedForm) *Term {
	T := e.T
	r := T.True
	if !le.header || L.trip == nil || !L.tripNN {
		return r
	}
	for _, cf := range closed {
		if cf.narrow == 0 {
			continue
		}
		lo, hi, _ := kindRange(cf.narrow)
		v := e.subst(cf.f, L.K, L.trip)
		if v.op == "ite" {
			continue
		}
		r = T.And(r, T.Not(T.Lt(v, T.Int(lo), kI64, true)))
		r = T.And(r, T.Not(T.Lt(T.Int(hi), v, kI64, true)))
	}
	return r
}

// exitK is the number of complete rounds before an exit out of the body.
func (e *Eng) exitK(L *Loop, le *LoopExit) *Term {
	if le.header || L.trip == nil || !L.tripNN || L.trip.op == "ite" || L.trip.dependsOn(L) {
		return nil
	}
	return e.T.mk(&Term{op: "fin", ref: L, args: []*Term{L.K}, kind: L.K.kind})
}

// generalize replaces counts that the way out of a loop decides by symbols with bounds.
func (e *Eng) generalize(st *State) {
	var ks []ssa.Value
	for k, v := range st.env {
		if v != nil && v.op == "ite" {
			ks = append(ks, k)
		}
	}
	sort.Slice(ks, func(i, j int) bool { return st.env[ks[i]].id < st.env[ks[j]].id })
	done := map[*Term]*Term{}
	for _, k := range ks {
		v := st.env[k]
		if b, ok := k.Type().Underlying().(*types.Basic); !ok || b.Info()&types.IsInteger == 0 {
			continue
		}
		if done[v] == nil {
			done[v] = e.generalTerm(st, v)
		}
		st.env[k] = done[v]
	}
	for c, v := range st.mem {
		if g := done[v]; g != nil && g != v {
			st.mem[c] = g
		}
	}
}

// generalTerm replaces a count that the way out of a loop decides by a symbol.
func (e *Eng) generalTerm(st *State, v *Term) *Term {
	T := e.T
	if v == nil || v.op != "ite" || isBoolTerm(v) {
		return v
	}
	exits := map[any]bool{}
	for _, a := range T.Atoms(v) {
		if a.op == "X" {
			exits[a.ref] = true
		}
	}
	if len(exits) == 0 {
		return v
	}
	leaves := T.Leaves(v)
	rounds := false
	for _, l := range leaves {
		args, _, _ := T.linParts(l)
		for _, a := range args {
			rounds = rounds || a.op == "fin" && exits[a.ref]
		}
	}
	if !rounds {
		return v
	}
	var lo, hi []*Term
	for _, l := range leaves {
		if isBoolTerm(l) || l.op == "nil" || l.op == "struct" || l.op == "err" || l.op == "iface" || l.op == "addr" {
			return v
		}
		if l.isInt() {
			lo, hi = append(lo, l), append(hi, l)
		}
		args, _, k := T.linParts(l)
		lo = append(lo, T.Int(k))
		whole := true
		for _, a := range args {
			if a.op != "fin" {
				hi = append(hi, a)
			}
			whole = whole && a.op != "fin"
		}
		if whole {
			hi = append(hi, l)
		} else {
			// without the rounds
			r := T.Int(k)
			_, co, _ := T.linParts(l)
			for i, a := range args {
				if a.op != "fin" {
					r = T.Add(r, T.Scale(a, co[i]))
				}
			}
			hi = append(hi, r)
		}
	}
	holds := func(f func(p *prover, l *Term) bool) bool {
		for _, l := range leaves {
			g := T.And(st.guard, T.LeafGuard(v, l))
			if g == T.False {
				continue
			}
			if p := newProver(e, g, nil); !f(p, l) && !p.infeasible() {
				return false
			}
		}
		return true
	}
	if e.gens == nil {
		e.gens = map[*Term]*Term{}
	}
	s := e.gens[v]
	if s == nil {
		s = T.mk(&Term{op: "gen", n: int64(len(e.gens) + 1), kind: kI64})
		e.gens[v] = s
	}
	g := st.guard
	seen := map[*Term]bool{}
	for _, b := range append(lo, T.Zero) {
		if !seen[b] && holds(func(p *prover, l *Term) bool { return p.le(b, l) }) {
			g = T.And(g, T.Not(T.Lt(s, b, kI64, true)))
		}
		seen[b] = true
	}
	seen = map[*Term]bool{}
	for _, b := range hi {
		if !seen[b] && holds(func(p *prover, l *Term) bool { return p.le(l, b) }) {
			g = T.And(g, T.Not(T.Lt(b, s, kI64, true)))
		}
		seen[b] = true
	}
	dbg("gen %v := %v; lo %v hi %v", s, v.str(6), lo, hi)
	for _, L := range e.loopsOf(exits) {
		f := e.lastRound(L, st.guard, v, s)
		if f == T.True {
			f = e.exitRound(L, st.guard, v, s)
		}
		g = T.And(g, f)
	}
	st.guard = g
	return s
}

func (e *Eng) loopsOf(exits map[any]bool) []*Loop {
	var out []*Loop
	for r := range exits {
		out = append(out, r.(*Loop))
	}
	sort.Slice(out, func(i, j int) bool { return out[i].id < out[j].id })
	return out
}

// exitRound: v follows from the round in which the loop ended early, or is one
// of some constants. What made the loop end holds then.
func (e *Eng) exitRound(L *Loop, guard, v, s *Term) *Term {
	T := e.T
	if L.trip == nil || !L.tripNN || L.trip.op == "ite" {
		return T.True
	}
	k := T.mk(&Term{op: "fin", ref: L, args: []*Term{L.K}, kind: L.K.kind})
	facts := T.False
	for _, l := range T.Leaves(v) {
		g := T.And(guard, T.LeafGuard(v, l))
		if g == T.False {
			continue
		}
		if l.isInt() {
			facts = T.Or(facts, T.Eq(s, l))
			continue
		}
		var at *Term
		args, co, _ := T.linParts(l)
		for i, a := range args {
			if a == k && (co[i] == 1 || co[i] == -1) {
				at = T.Scale(T.Sub(s, T.Sub(l, T.Scale(a, co[i]))), co[i])
			}
		}
		if at == nil || containsTermM(at, k, map[*Term]bool{}) {
			return T.True
		}
		some := T.False
		for _, le := range L.exits {
			if T.And(g, le.X) == T.False {
				continue
			}
			if le.header {
				return T.True
			}
			some = T.Or(some, e.atRound(L, le.guard, at))
		}
		facts = T.Or(facts, some)
	}
	return facts
}

// atRound is a condition of a loop's body in some round, without what is unknown about it.
func (e *Eng) atRound(L *Loop, cond, at *Term) *Term {
	T := e.T
	for _, a := range T.Atoms(cond) {
		if a.dependsOn(L) && (hasMu(a, L, map[*Term]bool{}) || e.subst(a, L.K, at).dependsOn(L)) {
			cond = T.Or(T.Cofactor(cond, a, true), T.Cofactor(cond, a, false))
		}
	}
	return e.subst(cond, L.K, at)
}

// lastRound: v is the number of complete rounds of a loop, or one of some
// constants. What let the last round go on holds then.
func (e *Eng) lastRound(L *Loop, guard, v, s *Term) *Term {
	T := e.T
	if L.trip == nil || !L.tripNN || L.trip.op == "ite" || L.cont == nil {
		return T.True
	}
	k := T.mk(&Term{op: "fin", ref: L, args: []*Term{L.K}, kind: L.K.kind})
	other := T.False
	shift := int64(-1) // v is the number of rounds and this
	for _, l := range T.Leaves(v) {
		g := T.And(guard, T.LeafGuard(v, l))
		if g == T.False {
			continue
		}
		if l.isInt() {
			other = T.Or(other, T.Eq(s, l))
			continue
		}
		if d := T.Sub(l, k); d.isInt() {
			if shift >= 0 && d.n != shift || d.n < 0 || d.n > 8 {
				return T.True
			}
			shift = d.n
		}
	}
	if shift < 0 {
		shift = 0
	}
	if shift > 0 {
		other = T.Or(other, T.Eq(s, T.Int(shift)))
	}
	for _, l := range T.Leaves(v) {
		g := T.And(guard, T.LeafGuard(v, l))
		if g == T.False || l.isInt() {
			continue
		}
		p := newProver(e, g, nil)
		rounds := L.trip
		early := containsTermM(l, k, map[*Term]bool{})
		for _, le := range L.exits {
			if early && le.header && T.And(g, le.X) != T.False || !early && !le.header && T.And(g, le.X) != T.False {
				dbg("last round: exit %s early=%v", l.str(5), early)
				return T.True
			}
		}
		if early {
			rounds = k
		}
		if !(p.le(T.Int(max(1, shift)), l) && p.le(l, T.Add(rounds, T.Int(shift)))) {
			dbg("last round: %s rounds %s", l.str(5), rounds.str(5))
			return T.True
		}
	}
	r := e.atRound(L, L.cont, T.Sub(s, T.Int(shift+1)))
	return T.Or(other, r)
}

// finClosed is a value after a loop, when the number of rounds decides it.
func (e *Eng) finClosed(L *Loop, le *LoopExit, v *Term) *Term {
	if k := e.exitK(L, le); k != nil && v != L.K && !hasMu(v, L, map[*Term]bool{}) && containsTermM(v, L.K, map[*Term]bool{}) {
		if r := e.subst(v, L.K, k); r != nil && !r.dependsOn(L) {
			return r
		}
	}
	if !le.header || L.trip == nil || !L.tripNN || hasMu(v, L, map[*Term]bool{}) || !containsTermM(v, L.K, map[*Term]bool{}) {
		return nil
	}
	r := e.subst(v, L.K, L.trip)
	if r.dependsOn(L) {
		return nil
	}
	return r
}

// selFill reads an element of a filled array.
func (e *Eng) selFill(c, idx *Term, sel func(content *Term) *Term) *Term {
	T := e.T
	init, off, n, body := c.args[0], c.args[1], c.args[2], c.args[3]
	d := T.Sub(idx, off)
	in := e.inRange(d, n)
	if in == T.True {
		return e.apply(body, d)
	}
	out := sel(init)
	if in == T.False {
		return out
	}
	return T.Ite(in, e.apply(body, d), out)
}

// unconv drops a narrowing that cannot lose anything on this path.
func (e *Eng) unconv(t, guard *Term) *Term {
	T := e.T
	switch t.op {
	case "ite":
		a := T.Atom(t.args[0])
		return T.Ite(a, e.unconv(t.args[1], T.And(guard, a)), e.unconv(t.args[2], T.And(guard, T.Not(a))))
	case "T":
		lo, hi, ok := kindRange(t.kind)
		if !ok || t.args[0].op == "ite" {
			return t
		}
		p := newProver(e, guard, nil)
		if p.le(T.Int(lo), t.args[0]) && p.le(t.args[0], T.Int(hi)) {
			return t.args[0]
		}
		dbg("narrowing %v under %v", t, guard.str(6))
	}
	return t
}

func hasMu(t *Term, L *Loop, memo map[*Term]bool) bool {
	if r, ok := memo[t]; ok {
		return r
	}
	r := false
	if t.dependsOn(L) {
		if t.op == "mu" && t.ref == any(L) {
			r = true
		}
		if t.op == "ite" && t.args[0].op == "mu" && t.args[0].ref == any(L) {
			r = true
		}
		for _, a := range t.args {
			if r {
				break
			}
			r = hasMu(a, L, memo)
		}
	}
	memo[t] = r
	return r
}

// mergeUpd turns guarded writes to the same place into one write of a guarded value.
func (e *Eng) mergeUpd(t *Term) *Term {
	T := e.T
	if t.op != "ite" {
		return t
	}
	h, l := e.mergeUpd(t.args[1]), e.mergeUpd(t.args[2])
	if h.op == l.op && len(h.args) == len(l.args) && h.aux == l.aux && h.n == l.n && h.args != nil {
		n := len(h.args) - 1
		switch h.op {
		case "upd", "put", "app", "appseq":
			for i := 0; i < n; i++ {
				if h.args[i] != l.args[i] {
					return t
				}
			}
			v := T.Ite(T.Atom(t.args[0]), h.args[n], l.args[n])
			return T.mk(&Term{op: h.op, aux: h.aux, n: h.n, kind: h.kind, ref: h.ref, args: append(append([]*Term{}, h.args[:n]...), v)})
		}
	}
	if h != t.args[1] || l != t.args[2] {
		return T.Ite(T.Atom(t.args[0]), h, l)
	}
	return t
}

// closeLoop looks for a closed form of one more loop-carried value.
func (e *Eng) closeLoop(L *Loop, m *MuCell, guard *Term) *closedForm {
	T, K := e.T, L.K
	if m.next == nil || m.init == nil || m.next == m.term {
		return nil
	}
	next := e.mergeUpd(T.Restrict(m.next, guard))
	if m.typ != nil && kindOf(m.typ) != 0 {
		next = e.untouched(L, next, guard)
	}
	dbg("loop %s: %s: init=%v next=%v", e.P.Pos(L.pos), m.name, m.init, next)
	mu := func(t *Term) bool { return hasMu(t, L, map[*Term]bool{}) }
	if m.typ != nil && kindOf(m.typ) != 0 {
		cf := &closedForm{}
		k := kindOf(m.typ)
		if k.bits() < 64 {
			cf.narrow = k
		}
		nx := next
		if nx.op == "T" && nx.kind == k {
			nx = nx.args[0]
		}
		d := T.Sub(nx, m.term)
		if !mu(d) {
			cf.f = e.accumulate(e.decide(d, guard), m.init, K)
			return cf
		}
		// the value the body computed in the last iteration
		if !mu(next) {
			cf.f = T.Ite(T.Eq(K, T.Zero), m.init, e.subst(next, K, T.Sub(K, T.Int(1))))
			return cf
		}
		// the read position in a stream of variable-length codes
		for _, s := range e.cmp.streams() {
			for _, g := range e.cmp.streamGuess(e, s, m.term, m.init, d) {
				f := T.Add(m.init, e.psum(K, g))
				if e.blackGuess[[2]int{m.term.id, f.id}] {
					continue
				}
				dbg("  guess %v", f)
				cf.f = f
				return cf
			}
		}
		return nil
	}
	mk := func(t *Term) *closedForm {
		if t == nil {
			return nil
		}
		return &closedForm{f: t}
	}
	switch next.op {
	case "app":
		if next.args[0] == m.term && len(next.args) == 2 && !mu(next.args[1]) {
			return mk(e.binder("comp", 0, next.args[1], K, e.initSeq(m), K))
		}
	case "appseq":
		if next.args[0] == m.term && !mu(next.args[1]) {
			if m.init == T.Nil || e.lenOf(m.init) == T.Zero {
				return mk(e.binder("cats", 0, next.args[1], K, K))
			}
		}
	case "upd":
		c := T.Sub(next.args[1], K)
		if next.args[0] != m.term || c.dependsOn(L) {
			return nil
		}
		x := next.args[2]
		if !mu(x) {
			return mk(e.binder("fill", 0, x, K, m.init, c, K))
		}
		return mk(e.inPlace(L, m, c, x, guard))
	case "put":
		b := next.args[2]
		w := e.lenOf(b)
		if !w.isInt() {
			return nil
		}
		c := T.Sub(next.args[1], T.Scale(K, w.n))
		if next.args[0] == m.term && !c.dependsOn(L) && !mu(b) {
			return mk(e.binder("fillb", w.n, b, K, m.init, c, K))
		}
	}
	return nil
}

// initSeq is the content of a slice before a loop that only appends to it.
func (e *Eng) initSeq(m *MuCell) *Term {
	x := m.init
	if x.op != "mkslice" || x.args[1] == e.T.Zero || m.typ == nil || e.loopBase == nil {
		return x
	}
	c, _, _ := e.sliceParts(x, m.typ)
	if !c.obj.fresh {
		return x
	}
	if _, ok := e.loopVar[c]; ok {
		return x
	}
	return e.seqOf(e.loopBase, x, m.typ)
}

// accumulate is f with f(0) = init and f(K+1) = f(K) + d(K).
func (e *Eng) accumulate(d, init, K *Term) *Term {
	T := e.T
	if h := e.telescope(d, K); h != nil {
		// f(K) = C + h(K-1) for K >= 1, C = init + d(0) - h(0)
		C := T.Sub(T.Add(init, e.subst(d, K, T.Zero)), e.subst(h, K, T.Zero))
		return T.Ite(T.Eq(K, T.Zero), init, T.Add(C, e.subst(h, K, T.Sub(K, T.Int(1)))))
	}
	return T.Add(init, e.psumOf(K, d, K))
}

// telescope finds h with d(K) = h(K) - h(K-1) for K >= 1.
func (e *Eng) telescope(d, K *Term) *Term {
	T := e.T
	d1 := T.Restrict(d, T.Not(T.Eq(K, T.Zero)))
	if d1.op != "lin" {
		return nil
	}
	for i, a := range d1.args {
		if d1.coef[i] != 1 || !containsTermM(a, K, map[*Term]bool{}) {
			continue
		}
		p := e.subst(a, K, T.Sub(K, T.Int(1)))
		if T.Sub(d1, T.Sub(a, p)) == T.Zero {
			return a
		}
	}
	return nil
}

// inPlace: the array element written in iteration K depends on elements of the
// same array: not yet written ones, and the one written in the iteration before.
func (e *Eng) inPlace(L *Loop, m *MuCell, c, x, guard *Term) *Term {
	T, K := e.T, L.K
	at := T.Add(K, c)
	prev := T.Op("prev", "", 0, L)
	bad := false
	var kind Kind
	var mp *mapper
	mp = newMapper(e, func(t *Term) *Term {
		if t.op == "sel" && t.args[0] == m.term {
			d := T.Sub(t.args[1], at)
			if d.isInt() && d.n >= 0 {
				return e.selLike(t, m.init, t.args[1])
			}
			if d.isInt() && d.n == -1 {
				kind = t.kind
				return prev
			}
			bad = true
		}
		return nil
	})
	y := e.decide(mp.Map(x), guard)
	_ = kind
	if bad || hasMu(y, L, map[*Term]bool{}) {
		return nil
	}
	if !containsTermM(y, prev, map[*Term]bool{}) {
		return e.binder("fill", 0, y, K, m.init, c, K)
	}
	G := T.Sub(y, prev)
	if containsTermM(G, prev, map[*Term]bool{}) {
		return nil
	}
	x0 := e.sel(m.init, T.Sub(c, T.Int(1)), nil)
	f := e.accumulate(e.decide(G, guard), x0, K)
	// X(K) = f(K+1)
	X := e.subst(f, K, T.Add(K, T.Int(1)))
	return e.binder("fill", 0, X, K, m.init, c, K)
}

// selLike reads another content with the type of the selection t.
func (e *Eng) selLike(t, content, idx *Term) *Term {
	r := e.sel(content, idx, nil)
	return e.T.retype(r, t.kind)
}

// retype gives raw selections their integer kind.
func (T *Terms) retype(r *Term, k Kind) *Term {
	if k == 0 {
		return r
	}
	return T.Lift("retype"+strconv.Itoa(int(k)), func(x []*Term) *Term {
		if (x[0].op == "sel" || x[0].op == "elem") && x[0].kind == 0 {
			return T.mk(&Term{op: x[0].op, args: x[0].args, kind: k})
		}
		return x[0]
	}, r)
}

// closedOK: the body maps the closed form for K to the one for K+1.
func (e *Eng) closedOK(L *Loop, m *MuCell, cf closedForm, guard *Term) bool {
	T := e.T
	closed, next := cf.f, m.next
	want := e.subst(closed, L.K, T.Add(L.K, T.Int(1)))
	if cf.narrow != 0 {
		lo, hi, ok := kindRange(cf.narrow)
		p := newProver(e, guard, nil)
		w := T.Restrict(want, guard)
		if !ok || !p.le(T.Int(lo), w) || !p.le(w, T.Int(hi)) {
			return false
		}
		next = e.unconv(T.Restrict(next, guard), guard)
		if next.op == "T" && e.same(next.args[0], w, guard) {
			return true // the same value, in range
		}
	}
	if m.typ != nil && kindOf(m.typ) != 0 {
		next = e.untouched(L, next, guard)
	}
	if want == next {
		return true
	}
	switch closed.op {
	case "fill", "comp", "fillb", "cats":
		return e.sameStep(L, closed, next, guard)
	}
	return e.same(T.Restrict(next, guard), T.Restrict(want, guard), guard)
}

// sameStep: writing the element of iteration K to the closed form gives the one for K+1.
func (e *Eng) sameStep(L *Loop, closed, next, guard *Term) bool {
	T, K := e.T, L.K
	next = e.mergeUpd(T.Restrict(next, guard))
	body := closed.args[len(closed.args)-1]
	el := e.apply(body, K)
	switch closed.op {
	case "fill":
		return next.op == "upd" && next.args[0] == closed && T.Sub(next.args[1], T.Add(K, closed.args[1])) == T.Zero &&
			e.same(next.args[2], el, guard)
	case "comp":
		return next.op == "app" && len(next.args) == 2 && next.args[0] == closed && e.same(next.args[1], el, guard)
	case "cats":
		return next.op == "appseq" && next.args[0] == closed && e.same(next.args[1], el, guard)
	case "fillb":
		return next.op == "put" && next.args[0] == closed &&
			T.Sub(next.args[1], T.Add(T.Scale(K, closed.n), closed.args[1])) == T.Zero && e.same(next.args[2], el, guard)
	}
	return false
}

// same: two values are equal wherever the guard holds.
func (e *Eng) same(a, b, guard *Term) bool {
	return e.same1(a, b, guard, 0)
}

func (e *Eng) same1(a, b, guard *Term, depth int) bool {
	T := e.T
	if a == b || guard == T.False {
		return true
	}
	if depth > 12 {
		return false
	}
	a, b = T.Restrict(a, guard), T.Restrict(b, guard)
	if a == b {
		return true
	}
	for _, t := range []*Term{a, b} {
		if t.op == "ite" {
			at := t.args[0]
			for _, val := range []bool{true, false} {
				lit := T.Atom(at)
				if !val {
					lit = T.Not(lit)
				}
				g := T.And(guard, lit)
				if g == T.False || newProver(e, g, nil).infeasible() {
					continue
				}
				a2, b2 := T.Restrict(a, g), T.Restrict(b, g)
				if val && at.op == "eqc" && (at.args[0].op == "k" || at.args[0].op == "bv" || at.args[0].op == "sym" || at.args[0].op == "idx" || at.args[0].op == "cnt") {
					x, v := at.args[0], T.Int(at.n)
					a2, b2 = e.subst(a2, x, v), e.subst(b2, x, v)
				}
				if !e.same1(a2, b2, g, depth+1) {
					return false
				}
			}
			return true
		}
	}
	if a.op == "struct" && b.op == "struct" && len(a.args) == len(b.args) {
		for i := range a.args {
			if !e.same1(a.args[i], b.args[i], guard, depth+1) {
				return false
			}
		}
		return true
	}
	if a.op == b.op && a.aux == b.aux && a.n == b.n && a.kind == b.kind && a.ref == b.ref && len(a.args) == len(b.args) && a.op != "lin" && a.op != "ite" {
		eq := true
		for i := range a.args {
			if !e.same1(a.args[i], b.args[i], guard, depth+1) {
				eq = false
				break
			}
		}
		if eq || !isIntLike(a) || !isIntLike(b) {
			return eq
		}
	}
	// equal integers
	if isIntLike(a) && isIntLike(b) {
		p := newProver(e, guard, nil)
		return p.le(a, b) && p.le(b, a)
	}
	return false
}
