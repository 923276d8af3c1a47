package main

import (
	"go/token"
	"go/types"
	"os"

	"golang.org/x/tools/go/ssa"
)

// C10: aggregation over several files.

// opaqueReaders keeps the aggregation of one file and its ID bitmap as
// operations of the reader: they are decided by C04 to C09 and by C24.
func opaqueReaders(e *Eng, fr *Frame, st *State, c *callInfo) ([]*Term, bool) {
	if c.fn == nil || !e.P.isRepo(c.fn) || len(c.args) == 0 {
		return nil, false
	}
	n := recvNamed(c.fn)
	if n == nil || !holdsFile(n) {
		return nil, false
	}
	T := e.T
	res := c.fn.Signature.Results()
	switch {
	case aggStruct(c.fn) != nil && res.Len() == 1:
		as := []*Term{c.args[0], T.Nil, T.Nil, T.False}
		if i := optionStruct(c.fn, "Parallel"); i >= 0 {
			t := c.fn.Params[i].Type()
			s := t.Underlying().(*types.Struct)
			for j, nm := range []string{"Filter", "DenyFilter", "SkipPreCalculated"} {
				x := fieldIndex(s, nm)
				if x < 0 {
					return nil, false
				}
				v := e.field(c.args[i], t, x)
				if j < 2 {
					v = e.bmState(st, v)
				}
				as[j+1] = v
			}
		}
		ev := e.emit(fr, st, &Event{kind: "ragg", callee: c.name, args: c.args, seqs: as, errIdx: -1}, c.pos, c.key)
		r := T.mk(&Term{op: "ragg", args: as, ref: res.At(0).Type()})
		ev.res = []*Term{r}
		return ev.res, true
	case res.Len() == 2 && isBitmapPtr(res.At(0).Type()) && errIndex(c.fn.Signature) == 1:
		ev := e.emit(fr, st, &Event{kind: "rids", callee: c.name, args: c.args, errIdx: 1}, c.pos, c.key)
		r, err := T.mk(&Term{op: "rids", args: c.args[:1]}), T.mk(&Term{op: "riderr", args: c.args[:1]})
		ev.res = []*Term{r, err}
		bad := T.Not(T.Eq(err, T.Nil))
		return []*Term{T.Ite(bad, T.Nil, r), err}, true
	}
	return nil, false
}

func (c *Ctx) multiRoots() []*ssa.Function {
	var out []*ssa.Function
	for _, fn := range c.P.apiRoots() {
		n := recvNamed(fn)
		if n == nil || holdsFile(n) || aggStruct(fn) == nil {
			continue
		}
		out = append(out, fn)
	}
	return out
}

// multi is one operation that aggregates several files, in a loop over them.
type multi struct {
	c     *Ctx
	e     *Eng
	T     *Terms
	L     *Loop
	name  string
	rt    *types.Struct
	r     *Term            // the result of one file
	out   map[string]*Term // the result as a function of the loop's state
	state []*MuCell
	count *Term
}

var aggFields = []string{"Count", "Min", "Max", "Sum", "Avg"}

func (c *Ctx) multiRun(fn *ssa.Function) {
	e := c.analyse(fn, Policy{Call: chain(opaqueReaders)}, nil)
	if os.Getenv("VDEBUG") != "" {
		e.dumpItems(e.trace, "")
		for _, r := range e.rets {
			println("RET", r.guard.str(6), r.vals[0].str(14), r.vals[1].str(3))
		}
	}
	m := &multi{c: c, e: e, T: e.T, name: shortFn(fn), rt: aggStruct(fn), out: map[string]*Term{}}
	T := e.T
	aggs := e.located(kinds("ragg"))
	if !c.ob(len(aggs) == 1 && len(aggs[0].loops) == 1, "files", m.name+" one loop", fn.Pos(), "%s: one loop that aggregates each file once is expected, there are %d aggregations", m.name, len(aggs)) {
		return
	}
	ev, L := aggs[0].ev, aggs[0].loops[0]
	m.L, m.r = L, ev.res[0]
	// every file once, from the newest to the oldest
	rd := m.r.args[0]
	if !c.ob(rd.op == "elem" && rd.args[0].op == "init", "order", m.name+" readers", ev.pos, "%s aggregates %v, which is no file of the list", m.name, rd.str(4)) {
		return
	}
	n := e.lenOf(rd.args[0])
	p := newProver(e, T.And(L.entry, L.cont), nil)
	c.ob(L.trip != nil && (L.trip == n || p.le(L.trip, n) && p.le(n, L.trip)), "order", m.name+" all", L.pos, "%s: the loop does not visit every file: %v rounds", m.name, L.trip)
	want := T.Sub(T.Sub(n, T.Int(1)), L.K)
	c.ob(T.Sub(rd.args[1], want) == T.Zero, "order", m.name+" newest first", ev.pos, "%s: round k aggregates file %v, not the k-th newest", m.name, rd.args[1].str(4))
	c.ob(unsatBDD(e, T.And(L.cont, T.Not(ev.guard)), nil), "order", m.name+" every round", ev.pos, "%s: a file may be passed over", m.name)
	// with the filters
	oi := optionStruct(fn, "Filter")
	if !c.ob(oi >= 0, "filters", m.name+" options", fn.Pos(), "%s has no options", m.name) {
		return
	}
	ot := fn.Params[oi].Type()
	os := ot.Underlying().(*types.Struct)
	if x := fieldIndex(os, "Filter"); x >= 0 {
		f := e.field(e.params[oi], ot, x)
		c.ob(m.r.args[1] == T.Op("bmof", "", 0, nil, f), "filters", m.name+" allow", ev.pos, "%s: a file is aggregated with the allow filter %v", m.name, m.r.args[1].str(4))
	}
	if x := fieldIndex(os, "SkipPreCalculated"); x >= 0 {
		f := e.field(e.params[oi], ot, x)
		c.ob(m.r.args[3] == f, "filters", m.name+" skip", ev.pos, "%s: SkipPreCalculated is %v for a file", m.name, m.r.args[3].str(4))
	}
	m.deny(ev.pos)
	m.merge()
}

// deny: the IDs of all newer files, and no others, are excluded.
func (m *multi) deny(pos token.Pos) {
	e, T, L, c := m.e, m.T, m.L, m.c
	d := m.r.args[2]
	mu := L.mu(d)
	if mu == nil && d.op == "bmof" {
		// a new bitmap in every round: its state is that of the one it points to
		if p := L.mu(d.args[0]); p != nil && L.base != nil && L.base.mem[e.bmCell(p.term)] == nil && (L.back.mem[e.bmCell(p.term)] == nil || L.back.mem[e.bmCell(p.term)] == d) {
			same := true
			for _, a := range append(append([]*Term(nil), T.Leaves(p.init)...), T.Leaves(p.next)...) {
				if a.op != "addr" {
					same = false
				} else if v := L.base.mem[e.bmCell(a)]; v != nil && v != L.back.mem[e.bmCell(a)] {
					same = false // changed in another way as well
				}
			}
			if same {
				mu = &MuCell{term: d, init: e.bmState(L.base, p.init), next: e.bmState(L.back, p.next)}
			}
		}
	}
	if !c.ob(mu != nil, "deny", m.name+" collected", pos, "%s: a file is aggregated with the deny filter %v", m.name, d.str(5)) {
		return
	}
	c.ob(mu.init.op == "bmempty", "deny", m.name+" starts empty", pos, "%s: the newest file is aggregated with the deny filter %v", m.name, mu.init.str(5))
	rd := m.r.args[0]
	ids := T.Op("bmof", "", 0, nil, T.mk(&Term{op: "rids", args: []*Term{rd}}))
	up := T.Restrict(mu.next, L.cont)
	for _, l := range T.Leaves(up) {
		g := T.And(L.cont, T.LeafGuard(up, l))
		if g == T.False {
			continue
		}
		has := map[*Term]bool{}
		ok := true
		var rec func(t *Term)
		rec = func(t *Term) {
			switch {
			case t == d || t == ids:
				has[t] = true
			case t.op == "bmempty":
			case t.op == "bmop" && t.aux == "Or" && len(t.args) == 2:
				rec(t.args[0])
				rec(t.args[1])
			default:
				ok = false
			}
		}
		rec(l)
		if !has[ids] && ok && has[d] {
			// the last round does not need it
			more := T.And(g, T.Lt(T.Add(L.K, T.Int(1)), e.lenOf(rd.args[0]), kI64, true))
			has[ids] = unsatBDD(e, more, nil)
			if !has[ids] {
				// no selected element: its IDs are excluded already or never asked for
				has[ids] = unsatBDD(e, g, []linFact{linFactOf(e, m.part("Count"), T.Int(1), 0)})
			}
		}
		c.ob(ok && has[d] && has[ids], "deny", m.name+" grows", pos, "%s: after a file the deny filter is %v, not what it was and the IDs of the file", m.name, l.str(5))
	}
}

// merge: the result is the combination of the results of the files.
func (m *multi) merge() {
	e, T, L, c := m.e, m.T, m.L, m.c
	// the result as a function of the state
	done := L.entry // all files were aggregated
	for _, x := range L.exits {
		if x.X != nil && !x.header {
			done = T.And(done, T.Not(x.X))
		}
	}
	ei := errIndex(e.root.Signature)
	un := e.unfin(map[*Loop]bool{L: true})
	left := done
	for _, f := range aggFields {
		m.out[f] = nil
	}
	rd := m.r.args[0]
	readable := T.Eq(T.mk(&Term{op: "riderr", args: []*Term{rd}}), T.Nil)
	for _, r := range e.rets {
		bad := T.False
		if ei >= 0 {
			bad = T.And(r.guard, T.Not(T.Eq(T.Restrict(r.vals[ei], r.guard), T.Nil)))
		}
		ok := T.And(r.guard, T.Not(bad))
		c.ob(T.And(bad, done) == T.False && T.And(bad, T.Not(L.entry)) == T.False, "success", m.name+" fails", r.pos, "%s fails although every ID bitmap was read", m.name)
		if T.And(ok, L.entry) != T.False {
			c.ob(T.And(T.And(ok, L.entry), T.Not(done)) == T.False, "success", m.name+" stops early", r.pos, "%s may return without an error before all files are aggregated", m.name)
		}
		// without files
		if g := T.And(ok, T.Not(L.entry)); g != T.False {
			c.ob(unsatBDD(e, T.And(g, T.Not(T.Eq(e.lenOf(rd.args[0]), T.Zero))), nil), "empty", m.name+" no files", r.pos, "%s returns without looking at the files", m.name)
			for _, f := range aggFields {
				v := T.Restrict(e.field(r.vals[0], e.root.Signature.Results().At(0).Type(), fieldIndex(m.rt, f)), g)
				c.ob(v == T.Zero || v == T.Float(0), "empty", m.name+" "+f, r.pos, "%s: %s is %v without files", m.name, f, v.str(4))
			}
		}
		g := T.Restrict(T.And(ok, done), left)
		if T.And(g, left) == T.False {
			continue
		}
		for _, f := range aggFields {
			v := un.Map(T.Restrict(e.field(r.vals[0], e.root.Signature.Results().At(0).Type(), fieldIndex(m.rt, f)), T.And(ok, done)))
			if m.out[f] == nil {
				m.out[f] = v
			} else {
				m.out[f] = T.Ite(un.Map(g), v, m.out[f])
			}
		}
	}
	for _, x := range L.exits {
		if !x.header {
			c.ob(unsatBDD(e, T.And(x.guard, readable), nil), "success", m.name+" leaves", x.pos, "%s leaves the loop although the ID bitmap of the file was read", m.name)
		}
	}
	for _, f := range aggFields {
		if !c.ob(m.out[f] != nil, "merge", m.name+" "+f, L.pos, "%s: no %s is returned", m.name, f) {
			return
		}
	}
	// what the result depends on
	seen := map[*Term]bool{}
	var rec func(t *Term)
	rec = func(t *Term) {
		if t == nil || seen[t] || t == m.r {
			return
		}
		seen[t] = true
		if q := L.mu(t); q != nil {
			m.state = append(m.state, q)
			rec(T.Restrict(q.next, L.cont))
			return
		}
		for _, a := range t.args {
			rec(a)
		}
	}
	for _, f := range aggFields {
		rec(m.out[f])
	}
	for _, l := range T.Leaves(m.out["Count"]) {
		if l != T.Zero {
			if m.count != nil && m.count != l {
				m.count = nil
				break
			}
			m.count = l
		}
	}
	if !c.ob(m.count != nil && L.mu(baseOf(m.count)) != nil, "merge", m.name+" count", L.pos, "%s: the Count returned is not accumulated: %v", m.name, m.out["Count"].str(5)) {
		return
	}
	m.cases()
}

// baseOf: the value a field is taken of.
func baseOf(t *Term) *Term {
	for t.op == "field" {
		t = t.args[0]
	}
	return t
}

// part is a field of the result of one file.
func (m *multi) part(f string) *Term {
	for i := 0; i < m.rt.NumFields(); i++ {
		if m.rt.Field(i).Name() == f {
			return m.e.field(m.r, m.r.ref.(types.Type), i)
		}
	}
	return nil
}

func (m *multi) cases() {
	e, T, L, c := m.e, m.T, m.L, m.c
	r := map[string]*Term{}
	for _, f := range aggFields {
		r[f] = m.part(f)
	}
	fresh := map[*Term]*Term{} // the state of a new loop
	next := map[*Term]*Term{}
	for _, q := range m.state {
		fresh[q.term] = q.init
		next[q.term] = T.Restrict(q.next, L.cont)
	}
	none := map[*Term]*Term{} // a file without a selected element
	for _, f := range aggFields {
		none[r[f]] = T.Zero
		if f == "Avg" {
			none[r[f]] = T.Float(0)
		}
	}
	put := func(t *Term, w map[*Term]*Term) *Term {
		return newMapper(e, func(x *Term) *Term {
			if v, ok := w[x]; ok {
				return v
			}
			return nil
		}).Map(t)
	}
	z := &normalizer{e: e, T: T}
	some := linFactOf(e, r["Count"], T.Int(1), 0)
	held := linFactOf(e, m.count, T.Int(1), 0)
	quot := func(v, s, n *Term) bool {
		return v.op == "f/" && v.args[0].op == "i2f" && v.args[1].op == "i2f" && v.args[0].args[0] == s && v.args[1].args[0] == n
	}
	check := func(what string, ok bool, got *Term) {
		c.ob(ok, "merge", m.name+" "+what, L.pos, "%s: combining the results is wrong: %s gives %v", m.name, what, got.str(6))
	}
	// no file yet, and only files without a selected element
	for _, f := range aggFields {
		v := z.under(put(m.out[f], fresh), nil)
		check(f+" of nothing", v == T.Zero || v == T.Float(0), v)
	}
	for _, q := range m.state {
		v := put(next[q.term], fresh)
		reset := func(v, init *Term, what string) {
			v = z.under(put(v, none), nil)
			v = put(v, map[*Term]*Term{L.K: T.Zero})
			check("the first file without a selected element: "+what, v == init, v)
		}
		if s, ok := q.typ.Underlying().(*types.Struct); ok {
			for i := 0; i < s.NumFields(); i++ {
				reset(e.field(v, q.typ, i), e.field(q.init, q.typ, i), q.name+"."+s.Field(i).Name())
			}
			continue
		}
		reset(v, q.init, q.name)
	}
	// the first file with one
	first := map[*Term]*Term{}
	for k, v := range next {
		first[k] = z.under(put(v, fresh), []linFact{some})
	}
	for _, f := range aggFields {
		v := z.under(put(m.out[f], first), []linFact{some})
		check("the first file: "+f, v == r[f] || f == "Avg" && quot(v, r["Sum"], r["Count"]), v)
	}
	// a later file without
	later := map[*Term]*Term{}
	for k, v := range next {
		later[k] = z.under(put(v, none), []linFact{held})
	}
	old := map[string]*Term{}
	for _, f := range aggFields {
		old[f] = z.under(m.out[f], []linFact{held})
	}
	for _, f := range aggFields {
		v := z.under(put(m.out[f], later), []linFact{held})
		check("a file without a selected element: "+f, v == old[f] || f == "Avg" && quot(v, old["Sum"], old["Count"]), v)
	}
	// a later file with one
	both := []linFact{held, some}
	with := func(extra []linFact, f string) *Term {
		w := map[*Term]*Term{}
		for k, v := range next {
			w[k] = z.under(v, append(append([]linFact(nil), both...), extra...))
		}
		sum := linFactOf(e, T.Add(m.count, r["Count"]), T.Int(2), 0)
		return z.under(z.under(put(m.out[f], w), append(append([]linFact(nil), both...), extra...)), []linFact{sum})
	}
	cnt, sum := T.Add(old["Count"], r["Count"]), T.Add(old["Sum"], r["Sum"])
	v := with(nil, "Count")
	check("a further file: Count", v == cnt, v)
	v = with(nil, "Sum")
	check("a further file: Sum", v == sum, v)
	v = with(nil, "Avg")
	check("a further file: Avg", quot(v, sum, cnt), v)
	for _, f := range []string{"Min", "Max"} {
		less := []linFact{linFactOf(e, r[f], old[f], -1)} // the file's is greater
		more := []linFact{linFactOf(e, old[f], r[f], -1)}
		a, b := with(less, f), with(more, f)
		if f == "Max" {
			a, b = b, a
		}
		check("a further file: "+f, a == old[f] && b == r[f], T.Op("pair", "", 0, nil, a, b))
		eq := []linFact{linFactOf(e, r[f], old[f], 0), linFactOf(e, old[f], r[f], 0)}
		v := with(eq, f)
		check("a further file: equal "+f, v == old[f] || v == r[f], v)
	}
}

func init() {
	register(&Check{ID: "C10", Level: "proof", Min: 4, Run: func(c *Ctx) {
		rs := c.multiRoots()
		for _, fn := range rs {
			c.multiRun(fn)
		}
		c.ob(len(rs) > 0, "files", "found", 0, "no exported operation aggregates several files")
	}})
}
