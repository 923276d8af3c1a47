package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// aggregation: the analysis of one exported aggregate operation in one mode
type aggRun struct {
	c            *Ctx
	e            *Eng
	T            *Terms
	fn           *ssa.Function
	name         string
	mode         string
	recv         *Term
	n            *Term // number of blocks
	filter, deny *Term
	B, J         *Term
	opts         *Term
	rt           *types.Struct
	index        *Term // the block index in memory
}

// aggRoots are the exported methods of a file-holding type that return an
// aggregate and cannot fail.
func (c *Ctx) aggRoots() []*ssa.Function {
	var out []*ssa.Function
	for _, fn := range c.P.apiRoots() {
		n := recvNamed(fn)
		if n == nil || !holdsFile(n) {
			continue
		}
		if aggStruct(fn) != nil {
			out = append(out, fn)
		}
	}
	return out
}

func aggStruct(fn *ssa.Function) *types.Struct {
	r := fn.Signature.Results()
	if r.Len() == 0 {
		return nil
	}
	s, ok := r.At(0).Type().Underlying().(*types.Struct)
	if !ok {
		return nil
	}
	need := map[string]bool{"Count": true, "Min": true, "Max": true, "Sum": true, "Avg": true}
	for i := 0; i < s.NumFields(); i++ {
		delete(need, s.Field(i).Name())
	}
	if len(need) > 0 {
		return nil
	}
	return s
}

func fieldIndex(s *types.Struct, name string) int {
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == name {
			return i
		}
	}
	return -1
}

// indexLens are the cells of a reader that equal the number of entries of its
// block index once the constructor succeeded, and the cell of the index.
func (P *Prog) indexLens(n *types.Named) (index string, paths map[string]bool, et types.Type) {
	paths = map[string]bool{}
	for _, fn := range P.apiRoots() {
		if recvNamed(fn) != nil || makes(fn) != n {
			continue
		}
		e := NewEng(P, Policy{Call: chain(opaqueCodecs)})
		e.Run(fn, nil)
		ei := errIndex(fn.Signature)
		if ei < 0 || e.final == nil {
			continue
		}
		T := e.T
		for _, r := range e.rets {
			g := T.And(r.guard, T.Eq(r.vals[ei], T.Nil))
			if g == T.False {
				continue
			}
			v := T.Restrict(r.vals[0], g)
			if v.op != "addr" {
				continue
			}
			o := v.ref.(*Obj)
			st := e.final.clone()
			st.guard = T.And(st.guard, g)
			s := n.Underlying().(*types.Struct)
			// the index: a slice of structs
			var ln *Term
			for i := 0; i < s.NumFields(); i++ {
				f := s.Field(i)
				sl, ok := f.Type().Underlying().(*types.Slice)
				if !ok {
					continue
				}
				es, ok := sl.Elem().Underlying().(*types.Struct)
				if !ok || fieldIndex(es, "MinID") < 0 || fieldIndex(es, "Count") < 0 {
					continue
				}
				index, et = "."+f.Name(), sl.Elem()
				ln = T.Restrict(e.lenOf(e.readCell(st, Cell{o, index}, f.Type())), g)
			}
			if ln == nil {
				continue
			}
			var rec func(t types.Type, path string)
			rec = func(t types.Type, path string) {
				if x, ok := t.Underlying().(*types.Struct); ok {
					for i := 0; i < x.NumFields(); i++ {
						rec(x.Field(i).Type(), path+"."+x.Field(i).Name())
					}
					return
				}
				if kindOf(t).bits() != 64 {
					return
				}
				cv := T.Restrict(e.readCell(st, Cell{o, path}, t), g)
				if T.Restrict(T.Eq(cv, ln), g) == T.True {
					paths[path] = true
					return
				}
				p := newProver(e, g, nil)
				if p.le(cv, ln) && p.le(ln, cv) {
					paths[path] = true
				}
			}
			rec(n, "")
		}
	}
	return
}

type aggMode struct {
	name           string
	par            int64
	filter, deny   bool
	skip, skipFree bool
}

func (m aggMode) String() string {
	s := m.name
	return s
}

func seqModes() []aggMode {
	return []aggMode{
		{name: "stored statistics", skip: false},
		{name: "reading", skip: true},
	}
}
func filterModes(par int64, pre string) []aggMode {
	return []aggMode{
		{name: pre + "allow filter", par: par, filter: true, skipFree: true},
		{name: pre + "deny filter", par: par, deny: true, skipFree: true},
		{name: pre + "allow and deny filter", par: par, filter: true, deny: true, skipFree: true},
	}
}
func parModes() []aggMode {
	var out []aggMode
	for _, p := range []struct {
		n int64
		s string
	}{{4, "4 workers, "}, {-1, "all cores, "}} {
		out = append(out, aggMode{name: p.s + "stored statistics", par: p.n}, aggMode{name: p.s + "reading", par: p.n, skip: true})
		out = append(out, filterModes(p.n, p.s)...)
	}
	return out
}

func (c *Ctx) aggRun(fn *ssa.Function, m aggMode) *aggRun {
	n := recvNamed(fn)
	index, paths, et := c.P.indexLens(n)
	name := shortFn(fn)
	if index == "" {
		c.fail("block index found", name, fn.Pos(), "the constructor of %s sets no block index", n.Obj().Name())
		return nil
	}
	a := &aggRun{c: c, fn: fn, name: name, mode: m.name, rt: aggStruct(fn)}
	pol := Policy{Call: chain(opaqueBlocks)}
	pol.InitCell = func(e *Eng, cl Cell, t types.Type) *Term {
		if len(e.params) == 0 || cl.obj.root != e.params[0] || !paths[cl.path] {
			return nil
		}
		return e.lenOf(e.initCell(Cell{cl.obj, index}, types.NewSlice(et)))
	}
	i := optionStruct(fn, "Parallel")
	a.e = c.analyse(fn, pol, func(e *Eng, params []*Term) {
		a.filter, a.deny = e.T.Nil, e.T.Nil
		if i >= 0 {
			set := map[string]*Term{"Parallel": e.T.Int(m.par)}
			if m.filter {
				a.filter = e.T.Op("bmarg", "Filter", 0, nil)
			}
			if m.deny {
				a.deny = e.T.Op("bmarg", "DenyFilter", 0, nil)
			}
			set["Filter"], set["DenyFilter"] = a.filter, a.deny
			if !m.skipFree {
				set["SkipPreCalculated"] = e.T.Bool(m.skip)
			}
			params[i] = e.structArg(fn.Params[i].Type(), params[i], set)
			a.opts = params[i]
		}
		a.recv = params[0]
	})
	e := a.e
	a.T = e.T
	a.B, a.J = e.T.idx("B"), e.T.idx("J")
	o := e.rootObj(a.recv, nil)
	a.index = e.initCell(Cell{o, index}, types.NewSlice(et))
	a.n = e.lenOf(a.index)
	return a
}

// ids and values of block B
func (a *aggRun) blk(what string, b *Term) *Term {
	return a.T.mk(&Term{op: "blk", aux: what, args: []*Term{a.recv, b}})
}

// domain: (B,J) is an element of a readable block.
func (a *aggRun) domain() *Term {
	T := a.T
	g := T.Lt(a.B, a.n, kI64, true)
	g = T.And(g, T.Eq(a.blk("err", a.B), T.Nil))
	return T.And(g, T.Lt(a.J, a.T.Op("len", "", 0, nil, a.blk("ids", a.B)), kI64, true))
}

// selected: the element passes the filters.
func (a *aggRun) selected() *Term {
	T := a.T
	id := a.e.elem(a.blk("ids", a.B), a.J, types.Typ[types.Uint64])
	has := func(bm *Term) *Term {
		st := T.Op("bmof", "", 0, nil, bm)
		return T.Atom(T.mk(&Term{op: "bm", aux: "Contains", args: []*Term{st, id}}))
	}
	g := T.True
	if a.filter != T.Nil {
		g = T.And(g, has(a.filter))
	}
	if a.deny != T.Nil {
		g = T.And(g, T.Not(has(a.deny)))
	}
	return g
}

// entry is a statistic of block B in the block index.
func (a *aggRun) entry(name string) (*Term, bool) {
	var et types.Type
	for _, fn := range a.c.P.apiRoots() {
		_ = fn
	}
	n := recvNamed(a.fn)
	s := n.Underlying().(*types.Struct)
	for i := 0; i < s.NumFields(); i++ {
		if sl, ok := s.Field(i).Type().Underlying().(*types.Slice); ok {
			if es, ok := sl.Elem().Underlying().(*types.Struct); ok && fieldIndex(es, name) >= 0 {
				et = sl.Elem()
			}
		}
	}
	if et == nil {
		return nil, false
	}
	es := et.Underlying().(*types.Struct)
	return a.e.field(a.e.elem(a.index, a.B, et), et, fieldIndex(es, name)), true
}

// same: the lengths of the two halves of a block agree (decided for the block
// reader itself).
func (a *aggRun) lens() *mapper {
	T := a.T
	return newMapper(a.e, func(t *Term) *Term {
		if t.op == "len" && t.args[0].op == "blk" && t.args[0].aux == "vals" {
			b := t.args[0]
			return T.Op("len", "", 0, nil, T.mk(&Term{op: "blk", aux: "ids", args: b.args}))
		}
		return nil
	})
}

// canon rewrites a contribution over block B and position J.
func (a *aggRun) canon(z *normalizer, c comp) (comp, bool) {
	collect := func(sel func(t *Term) *Term) []*Term {
		var out []*Term
		seen := map[*Term]bool{}
		var rec func(t *Term)
		rec = func(t *Term) {
			if t == nil || seen[t] {
				return
			}
			seen[t] = true
			if x := sel(t); x != nil {
				dup := false
				for _, y := range out {
					if x == y {
						dup = true
					}
				}
				if !dup {
					out = append(out, x)
				}
			}
			for _, x := range t.args {
				rec(x)
			}
		}
		rec(c.v)
		rec(c.g)
		return out
	}
	to := func(i, sym *Term) {
		m := newMapper(a.e, func(t *Term) *Term {
			if t == i {
				return sym
			}
			return nil
		})
		c = c.mapped(m)
		ks := append([]*Term(nil), c.ks...)
		for n := range ks {
			if ks[n] == i {
				ks[n] = sym
			}
		}
		c.ks = ks
	}
	bs := collect(func(t *Term) *Term {
		if t.op == "blk" || t.op == "elem" && t.args[0] == a.index {
			return t.args[1]
		}
		return nil
	})
	if len(bs) != 1 {
		if len(bs) == 0 {
			z.fail("the contribution %s (guard %s) does not depend on a block", c.v.str(6), c.g.str(7))
		} else {
			z.fail("a contribution mixes blocks %s and %s", bs[0].str(4), bs[1].str(4))
		}
		return c, false
	}
	d, i, ok := z.rename(c, bs[0], "b")
	if !ok {
		return c, false
	}
	c = d
	to(i, a.B)
	js := collect(func(t *Term) *Term {
		if t.op == "elem" && t.args[0].op == "blk" {
			return t.args[1]
		}
		return nil
	})
	if len(js) == 0 {
		for _, k := range c.ks {
			if k != a.B {
				js = append(js, k)
			}
		}
	}
	if len(js) > 1 {
		z.fail("a contribution mixes positions %s and %s", js[0].str(4), js[1].str(4))
		return c, false
	}
	if len(js) == 1 {
		d, i, ok := z.rename(c, js[0], "j")
		if !ok {
			return c, false
		}
		c = d
		to(i, a.J)
	}
	for _, k := range c.ks {
		if k != a.B && k != a.J {
			z.fail("a contribution is repeated by the loop at %s", z.where(k))
			return c, false
		}
	}
	m := a.lens()
	c = c.mapped(m)
	return c, true
}

func (z *normalizer) where(k *Term) string {
	if L, ok := k.ref.(*Loop); ok {
		return z.e.P.Pos(L.pos)
	}
	return k.str(2)
}

// order decides comparisons of identifiers by the order facts of a selected
// element: MinID(B) <= id <= MaxID(B) and Minimum(F) <= id <= Maximum(F).
func (a *aggRun) order(g *Term) *Term {
	T := a.T
	id := a.e.elem(a.blk("ids", a.B), a.J, types.Typ[types.Uint64])
	type edge struct{ lo, hi *Term }
	var es []edge
	if t, ok := a.entry("MinID"); ok {
		es = append(es, edge{t, id})
	}
	if t, ok := a.entry("MaxID"); ok {
		es = append(es, edge{id, t})
	}
	if a.filter != T.Nil {
		st := T.Op("bmof", "", 0, nil, a.filter)
		es = append(es, edge{T.mk(&Term{op: "bm", aux: "Minimum", args: []*Term{st}, kind: kU64}), id},
			edge{id, T.mk(&Term{op: "bm", aux: "Maximum", args: []*Term{st}, kind: kU64})})
	}
	le := func(x, y *Term) bool {
		seen := map[*Term]bool{x: true}
		work := []*Term{x}
		for len(work) > 0 {
			t := work[0]
			work = work[1:]
			if t == y {
				return true
			}
			for _, e := range es {
				if e.lo == t && !seen[e.hi] {
					seen[e.hi] = true
					work = append(work, e.hi)
				}
			}
		}
		return false
	}
	memo := map[*Term]*Term{}
	var rec func(g *Term) *Term
	rec = func(g *Term) *Term {
		if g.op != "ite" {
			return g
		}
		if r, ok := memo[g]; ok {
			return r
		}
		at := g.args[0]
		var r *Term
		if at.op == "ult" && le(at.args[1], at.args[0]) {
			r = rec(g.args[2])
		} else if at.op == "bm" && at.aux == "IsEmpty" && a.filter != T.Nil && at.args[0] == T.Op("bmof", "", 0, nil, a.filter) {
			r = rec(g.args[2])
		} else {
			r = T.Ite(T.Atom(at), rec(g.args[1]), rec(g.args[2]))
		}
		memo[g] = r
		return r
	}
	return rec(g)
}

// bag folds and normalises a term.
func (a *aggRun) bag(t *Term, k foldKind) ([]comp, []*Term, string) {
	f := newFolder(a.e, k)
	cs := f.fold(t)
	if f.err != "" {
		return nil, nil, f.err
	}
	if len(f.pend) > 0 {
		return nil, nil, "unclear restart"
	}
	z := &normalizer{e: a.e, T: a.T, kind: k}
	cs = z.normal(cs)
	if z.err != "" {
		return nil, nil, z.err
	}
	var out []comp
	for _, c := range cs {
		if os.Getenv("VDEBUG") != "" {
			fmt.Println("NORMAL", c.v.str(6), c.g.str(20))
			for _, k := range c.ks {
				fmt.Println("   k", k.str(3))
			}
		}
		if c.g == a.T.False {
			continue
		}
		if c.v == a.T.Zero && k == fSum {
			continue
		}
		d, ok := a.canon(z, c)
		if !ok {
			return nil, nil, z.err
		}
		if unsatBDD(a.e, d.g, d.ksFacts(a.e)) {
			continue
		}
		out = append(out, d)
	}
	return out, f.resets, ""
}

var statField = map[string]string{"Count": "Count", "Min": "MinValue", "Max": "MaxValue", "Sum": "Sum"}

// signed strips the stored form of a signed number.
func unmap(t *Term) *Term {
	for t.op == "vmap" {
		t = t.args[0]
	}
	return t
}

// covers: every selected element contributes under the guards (care: the path).
func (a *aggRun) covers(gs []*Term, care *Term) bool {
	T := a.T
	spec := T.And(a.domain(), a.selected())
	miss := T.And(spec, care)
	for _, g := range gs {
		miss = T.And(miss, T.Not(g))
	}
	miss = a.order(a.lens().Map(miss))
	facts := []linFact{{co: map[int]int64{a.B.id: 1}}, {co: map[int]int64{a.J.id: 1}}}
	return unsatBDD(a.e, miss, facts)
}

// field decides one field of the result on one path.
func (a *aggRun) field(name string, t, path *Term, pos token.Pos) bool {
	T := a.T
	k := fSum
	switch name {
	case "Min":
		k = fMin
	case "Max":
		k = fMax
	}
	key := a.name + " " + a.mode + " " + name
	cs, resets, err := a.bag(t, k)
	if err != "" {
		return a.c.ob(false, "aggregate", key, pos, "%s (%s): %s is not an aggregate of the values of all blocks: %s", a.name, a.mode, name, err)
	}
	for _, r := range resets {
		// restarting is right only while the count of the result is zero
		cnt := r
		L := cnt.ref.(*Loop)
		fin := T.mk(&Term{op: "fin", ref: L, args: []*Term{cnt}, kind: cnt.kind})
		cc, rr, err := a.bag(fin, fSum)
		if err != "" || len(rr) > 0 {
			return a.c.ob(false, "aggregate", key, pos, "%s (%s): %s restarts while a count is zero that does not count the elements: %s", a.name, a.mode, name, err)
		}
		if why := a.match("Count", cc, path); why != "" {
			return a.c.ob(false, "aggregate", key, pos, "%s (%s): %s restarts while a count is zero that does not count the elements: %s", a.name, a.mode, name, why)
		}
	}
	why := a.match(name, cs, path)
	return a.c.ob(why == "", "aggregate", key, pos, "%s (%s): %s is wrong: %s", a.name, a.mode, name, why)
}

// match compares the contributions with the specification.
func (a *aggRun) match(name string, cs []comp, path *Term) string {
	T := a.T
	e := a.e
	stored := a.filter == T.Nil && a.deny == T.Nil
	val := e.elem(a.blk("vals", a.B), a.J, types.Typ[types.Int64])
	dom, sel := a.domain(), a.selected()
	facts := []linFact{{co: map[int]int64{a.B.id: 1}}, {co: map[int]int64{a.J.id: 1}}}
	var stat *Term
	if stored {
		stat, _ = a.entry(statField[name])
	}
	var gs, ss []*Term
	for _, c := range cs {
		switch {
		case stat != nil && unmap(c.v) == stat:
			if signed := name != "Count"; signed != (c.v.op == "vmap") || c.v.op == "vmap" && (c.v.args[0] != stat || c.v.ref.(*ssa.Function).Signature.Results().At(0).Type() != types.Typ[types.Int64]) {
				return "the statistic " + c.v.str(5) + " is not converted from its stored form"
			}
			// a whole block through its statistics
			in := T.Lt(a.B, a.n, kI64, true)
			if !unsatBDD(e, T.And(c.g, T.Not(in)), facts) {
				return "a statistic outside the index is used"
			}
			ss = append(ss, c.g)
			gs = append(gs, c.g)
			continue
		case name == "Count" && c.v == T.Int(1), name != "Count" && c.v == val:
		default:
			return "the contribution " + c.v.str(5) + " is not what is aggregated"
		}
		if !unsatBDD(e, T.And(c.g, T.Not(sel)), facts) {
			return "elements that the filters exclude contribute"
		}
		if !unsatBDD(e, T.And(c.g, T.Not(T.And(dom, T.True))), facts) {
			return "elements outside the blocks contribute"
		}
		gs = append(gs, c.g)
	}
	if len(gs) == 0 {
		return "nothing contributes"
	}
	if !a.covers(gs, path) {
		return "some selected elements do not contribute"
	}
	// every element once
	if name == "Count" || name == "Sum" {
		for i := range gs {
			for j := range gs[:i] {
				if !unsatBDD(e, T.And(gs[i], gs[j]), facts) {
					return "some elements contribute twice"
				}
			}
		}
	}
	if len(ss) > 0 {
		// statistics do not depend on anything but the block
		for _, g := range ss {
			if containsTerm(g, a.J) {
				return "a statistic is used for some elements only"
			}
		}
		// a block without elements has no minimum; blocks of the writer have elements
		miss := T.And(T.Lt(a.B, a.n, kI64, true), path)
		for _, g := range gs {
			miss = T.And(miss, T.Not(g))
		}
		if !unsatBDD(e, miss, facts) {
			return "some blocks do not contribute"
		}
	}
	return ""
}

// nonzero: facts that a count is positive.
func (a *aggRun) positive(g, cnt, v *Term) *Term {
	z := &normalizer{e: a.e, T: a.T}
	var facts []linFact
	if cnt.op != "ite" {
		facts = append(facts, linFactOf(a.e, cnt, a.T.Int(1), 0))
	}
	return z.under(a.T.Restrict(v, g), facts)
}

// leaves of the result
type aggLeaf struct {
	v, g *Term
	pos  token.Pos
}

func (a *aggRun) leaves() []aggLeaf {
	T := a.T
	var out []aggLeaf
	for _, r := range a.e.rets {
		for _, l := range T.Leaves(r.vals[0]) {
			g := T.And(r.guard, T.LeafGuard(r.vals[0], l))
			if g != T.False {
				out = append(out, aggLeaf{l, g, r.pos})
			}
		}
	}
	return out
}

func (a *aggRun) isZero(l *Term) bool {
	if l.op != "struct" {
		return false
	}
	for i := 0; i < a.rt.NumFields(); i++ {
		z := a.e.zero(a.rt.Field(i).Type())
		if l.args[i] != z {
			return false
		}
	}
	return true
}

// fallback: the same operation without parallelism.
func (a *aggRun) fallback(l *Term) bool {
	if l.op != "res" {
		return false
	}
	ev, ok := l.ref.(*Event)
	if !ok || ev.kind != "rec" || l.n != 0 || len(ev.args) < 2 || ev.args[0] != a.recv || a.opts == nil {
		return false
	}
	o := ev.args[1]
	i := optionStruct(a.fn, "Parallel")
	st := a.fn.Params[i].Type().Underlying().(*types.Struct)
	for k := 0; k < st.NumFields(); k++ {
		v := a.e.field(o, a.fn.Params[i].Type(), k)
		if st.Field(k).Name() == "Parallel" {
			if v != a.T.Zero {
				return false
			}
			continue
		}
		if v != a.e.field(a.opts, a.fn.Params[i].Type(), k) {
			return false
		}
	}
	return true
}

// empty: on this path no element is selected.
func (a *aggRun) empty(g *Term) string { return a.emptyIn(g, 0) }

func (a *aggRun) emptyIn(g *Term, depth int) string {
	T := a.T
	if g == T.False {
		return ""
	}
	if a.covers(nil, g) {
		return ""
	}
	why := "nothing shows that no element is selected"
	pos, neg := T.ForcedLiterals(g)
	try := func(cnt *Term) bool {
		switch {
		case cnt.op == "len":
			f := newFolder(a.e, fSeq)
			cs := f.fold(cnt.args[0])
			if f.err != "" {
				why = f.err
				return false
			}
			var gs []*Term
			for _, c := range cs {
				z := &normalizer{e: a.e, T: T, kind: fSeq}
				if c.v.op != "k" && c.v.op != "idx" {
					why = "the sequence does not list blocks"
					return false
				}
				d, i, ok := z.rename(c, c.v, "b")
				if !ok {
					why = z.err
					return false
				}
				m := newMapper(a.e, func(t *Term) *Term {
					if t == i {
						return a.B
					}
					return nil
				})
				gs = append(gs, m.Map(d.g))
			}
			if !a.covers(gs, g) {
				why = "blocks with selected elements are left out"
				return false
			}
			return true
		default:
			cs, _, err := a.bag(cnt, fSum)
			if err != "" {
				why = err
				return false
			}
			if w := a.match("Count", cs, g); w != "" {
				why = w
				return false
			}
			return true
		}
	}
	for _, x := range pos {
		if x.op == "eqc" && x.n == 0 && try(x.args[0]) {
			return ""
		}
		if x.op == "lt" && x.n <= 1 && x.args[1] == T.Zero && try(x.args[0]) {
			return ""
		}
	}
	for _, x := range neg {
		if x.op == "lt" && x.args[0] == T.Zero && x.n == 0 && try(x.args[1]) {
			return ""
		}
	}
	if depth < 5 {
		for _, x := range T.Atoms(g) {
			if x.op != "eqc" && x.op != "lt" {
				continue
			}
			p, n := T.And(g, T.Atom(x)), T.And(g, T.Not(T.Atom(x)))
			if p == T.False || n == T.False {
				continue
			}
			if a.emptyIn(p, depth+1) == "" {
				w := a.emptyIn(n, depth+1)
				if w == "" {
					return ""
				}
				why = w
			}
		}
	}
	return why
}

// values decides Count, Min, Max and Sum on every path.
func (a *aggRun) values() {
	n := 0
	for _, l := range a.leaves() {
		switch {
		case a.fallback(l.v):
			a.c.ob(true, "aggregate", a.name+" "+a.mode+" fallback", l.pos, "")
		case a.isZero(l.v):
			why := a.empty(l.g)
			a.c.ob(why == "", "aggregate", a.name+" "+a.mode+" empty", l.pos, "%s (%s) returns an empty result here, but %s", a.name, a.mode, why)
		case l.v.op == "struct":
			n++
			for _, f := range []string{"Count", "Min", "Max", "Sum"} {
				a.field(f, l.v.args[fieldIndex(a.rt, f)], l.g, l.pos)
			}
		default:
			a.c.fail("aggregate", a.name+" "+a.mode, l.pos, "%s (%s) returns %s", a.name, a.mode, l.v.str(4))
		}
	}
	a.c.ob(n > 0, "aggregate", a.name+" "+a.mode+" result", a.fn.Pos(), "%s (%s) never returns an aggregate", a.name, a.mode)
}

// average decides the average and the empty result.
func (a *aggRun) average() {
	T := a.T
	for _, l := range a.leaves() {
		key := a.name + " " + a.mode
		switch {
		case a.fallback(l.v):
			continue
		case a.isZero(l.v):
			continue
		case l.v.op != "struct":
			a.c.fail("average", key, l.pos, "%s (%s) returns %s", a.name, a.mode, l.v.str(4))
			continue
		}
		cnt := l.v.args[fieldIndex(a.rt, "Count")]
		sum := l.v.args[fieldIndex(a.rt, "Sum")]
		avg := l.v.args[fieldIndex(a.rt, "Avg")]
		// the count is not zero on this path
		nz := a.nonzero(cnt, l.g)
		a.c.ob(nz, "empty result is zero", key, l.pos, "%s (%s): an empty selection does not give the zero result here", a.name, a.mode)
		got := a.positive(l.g, cnt, avg)
		ok := false
		if got.op == "f/" && got.args[0].op == "i2f" && got.args[1].op == "i2f" {
			p, q := got.args[0].args[0], got.args[1].args[0]
			ok = (p == sum || a.same(p, sum)) && (q == cnt || a.same(q, cnt))
		}
		if !ok && got.op == "ite" {
			// the average's own emptiness test on another count
			for _, x := range T.Leaves(got) {
				if x.op == "f/" && x.args[0].op == "i2f" && x.args[1].op == "i2f" {
					p, q := x.args[0].args[0], x.args[1].args[0]
					if (p == sum || a.same(p, sum)) && (q == cnt || a.same(q, cnt)) && a.positive(l.g, q, got) == x {
						ok = true
					}
				}
			}
		}
		a.c.ob(ok, "average", key, l.pos, "%s (%s): Avg is not Sum divided by Count: %s", a.name, a.mode, got.str(5))
	}
}

// nonzero: the path excludes a zero count.
func (a *aggRun) nonzero(cnt, g *Term) bool {
	T := a.T
	if T.And(g, T.Eq(cnt, T.Zero)) == T.False {
		return true
	}
	if unsatBDD(a.e, T.And(g, T.Eq(cnt, T.Zero)), nil) {
		return true
	}
	pos, neg := T.ForcedLiterals(g)
	for _, x := range neg {
		if x.op == "eqc" && x.n == 0 && a.same(x.args[0], cnt) {
			return true
		}
	}
	for _, x := range pos {
		if x.op == "lt" && x.args[0] == T.Zero && x.n <= 0 && a.same(x.args[1], cnt) {
			return true
		}
	}
	return false
}

// same: two accumulators take the same steps.
func (a *aggRun) same(x, y *Term) bool {
	if x == y {
		return true
	}
	f := newFolder(a.e, fSum)
	xs := f.fold(x)
	g := newFolder(a.e, fSum)
	ys := g.fold(y)
	if f.err != "" || g.err != "" || len(xs) != len(ys) || len(xs) == 0 {
		return false
	}
	used := make([]bool, len(ys))
next:
	for _, c := range xs {
		for i, d := range ys {
			if !used[i] && c.v == d.v && c.g == d.g && sameKs(c.ks, d.ks) {
				used[i] = true
				continue next
			}
		}
		return false
	}
	return true
}

func init() {
	expl := "The result of the operation, taken from the gated value graph, is unfolded into its contributions (a value, the loops it is collected by, a guard), through filtered slices, worker partitions and channels, and compared with the specification as sets: sound (guard implies selection), complete (selection implies guard, modulo the order facts of block bounds) and without repetition for Count and Sum."
	register(&Check{ID: "C04", Level: "proof", Min: 16, Expl: expl, Run: func(c *Ctx) {
		for _, fn := range c.aggRoots() {
			for _, m := range seqModes() {
				if optionStruct(fn, "Parallel") < 0 && m.skip {
					continue
				}
				if d := os.Getenv("VMODE"); d != "" && !strings.HasSuffix(m.name, d) {
					continue
				}
				if a := c.aggRun(fn, m); a != nil {
					a.values()
				}
			}
		}
	}})
	register(&Check{ID: "C05", Level: "proof", Min: 12, Expl: expl, Run: func(c *Ctx) {
		for _, fn := range c.aggRoots() {
			if optionStruct(fn, "Parallel") < 0 {
				continue
			}
			for _, m := range filterModes(0, "") {
				if d := os.Getenv("VMODE"); d != "" && !strings.HasSuffix(m.name, d) {
					continue
				}
				if a := c.aggRun(fn, m); a != nil {
					a.values()
				}
			}
		}
	}})
	register(&Check{ID: "C07", Level: "proof", Min: 40, Expl: expl, Run: func(c *Ctx) {
		for _, fn := range c.aggRoots() {
			if optionStruct(fn, "Parallel") < 0 {
				continue
			}
			for _, m := range parModes() {
				if d := os.Getenv("VMODE"); d != "" && !strings.HasSuffix(m.name, d) {
					continue
				}
				if a := c.aggRun(fn, m); a != nil {
					a.values()
				}
			}
		}
	}})
	register(&Check{ID: "C09", Level: "proof", Min: 16, Expl: "On every path of every mode: the result is the zero result, or its count is not zero there and Avg is Sum / Count in floating point.", Run: func(c *Ctx) {
		for _, fn := range c.aggRoots() {
			ms := seqModes()
			if optionStruct(fn, "Parallel") < 0 {
				ms = ms[:1]
			} else {
				ms = append(ms, filterModes(0, "")...)
				ms = append(ms, parModes()...)
			}
			for _, m := range ms {
				if d := os.Getenv("VMODE"); d != "" && !strings.HasSuffix(m.name, d) {
					continue
				}
				if a := c.aggRun(fn, m); a != nil {
					a.average()
				}
			}
		}
	}})
	_ = strings.TrimSpace
}
