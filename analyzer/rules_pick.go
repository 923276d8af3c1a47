package main

import (
	"fmt"
	"go/types"
	"os"

	"golang.org/x/tools/go/ssa"
)

// Block selection: exported methods of a file-holding type that take ID
// bitmaps and return block numbers.

// pickRoots lists the selections and the positions of their bitmaps.
func (c *Ctx) pickRoots() map[*ssa.Function][]int {
	out := map[*ssa.Function][]int{}
	for _, fn := range c.P.apiRoots() {
		n := recvNamed(fn)
		if n == nil || !holdsFile(n) || fn.Signature.Results().Len() == 0 {
			continue
		}
		sl, ok := fn.Signature.Results().At(0).Type().Underlying().(*types.Slice)
		if !ok {
			continue
		}
		if b, ok := sl.Elem().Underlying().(*types.Basic); !ok || b.Info()&types.IsInteger == 0 {
			continue
		}
		var ps []int
		for i, p := range fn.Params {
			if isBitmapPtr(p.Type()) {
				ps = append(ps, i)
			}
		}
		if len(ps) > 0 {
			out[fn] = ps
		}
	}
	return out
}

func (c *Ctx) pickRun(fn *ssa.Function, ps []int, mode int) {
	n := recvNamed(fn)
	index, paths, et := c.P.indexLens(n)
	names := []string{"no filter", "allow filter", "deny filter", "allow and deny filter"}
	key := shortFn(fn) + " " + names[mode]
	if index == "" {
		c.fail("block index found", key, fn.Pos(), "the constructor of %s sets no block index", n.Obj().Name())
		return
	}
	a := &aggRun{c: c, fn: fn, name: shortFn(fn), mode: names[mode]}
	pol := Policy{Call: chain(opaqueBlocks)}
	pol.InitCell = func(e *Eng, cl Cell, t types.Type) *Term {
		if len(e.params) == 0 || cl.obj.root != e.params[0] || !paths[cl.path] {
			return nil
		}
		return e.lenOf(e.initCell(Cell{cl.obj, index}, types.NewSlice(et)))
	}
	a.e = c.analyse(fn, pol, func(e *Eng, params []*Term) {
		a.filter, a.deny = e.T.Nil, e.T.Nil
		if mode&1 != 0 {
			a.filter = e.T.Op("bmarg", "Filter", 0, nil)
		}
		params[ps[0]] = a.filter
		if len(ps) > 1 {
			if mode&2 != 0 {
				a.deny = e.T.Op("bmarg", "DenyFilter", 0, nil)
			}
			params[ps[1]] = a.deny
		}
		a.recv = params[0]
	})
	e := a.e
	T := e.T
	a.T = T
	a.B, a.J = T.idx("B"), T.idx("J")
	a.index = e.initCell(Cell{e.rootObj(a.recv, nil), index}, types.NewSlice(et))
	a.n = e.lenOf(a.index)
	facts := []linFact{{co: map[int]int64{a.B.id: 1}}, {co: map[int]int64{a.J.id: 1}}}
	in := T.Lt(a.B, a.n, kI64, true)
	// the IDs of the block and the IDs of the filter have a common range
	overlap := in
	if a.filter != T.Nil {
		lo, ok1 := a.entry("MinID")
		hi, ok2 := a.entry("MaxID")
		if !ok1 || !ok2 {
			c.fail("block index found", key, fn.Pos(), "the block index holds no ID range")
			return
		}
		st := T.Op("bmof", "", 0, nil, a.filter)
		fmin := T.mk(&Term{op: "bm", aux: "Minimum", args: []*Term{st}, kind: kU64})
		fmax := T.mk(&Term{op: "bm", aux: "Maximum", args: []*Term{st}, kind: kU64})
		overlap = T.And(overlap, T.And(T.Not(T.Lt(hi, fmin, kU64, false)), T.Not(T.Lt(fmax, lo, kU64, false))))
	}
	sel := a.order(a.lens().Map(T.And(a.domain(), a.selected())))
	if a.filter == T.Nil && a.deny == T.Nil {
		sel = in
	}
	for _, r := range e.rets {
		for _, l := range T.Leaves(r.vals[0]) {
			path := T.And(r.guard, T.LeafGuard(r.vals[0], l))
			if path == T.False {
				continue
			}
			f := newFolder(e, fSeq)
			cs := f.fold(a.sequence(l, path, fn.Signature.Results().At(0).Type()))
			z := &normalizer{e: e, T: T, kind: fSeq}
			var gs []*Term
			why := f.err
			if why == "" && len(f.pend) > 0 {
				why = "unclear restart"
			}
			if why == "" {
				cs = z.normal(cs)
				why = z.err
			}
			for _, x := range cs {
				if why != "" {
					break
				}
				if os.Getenv("VDEBUG") != "" {
					fmt.Println("PICK", x.v.str(6), x.g.str(20))
				}
				x.g = T.And(x.g, path)
				if x.g == T.False {
					continue
				}
				d, i, ok := z.rename(x, x.v, "b")
				if !ok {
					why = z.err
					break
				}
				for _, k := range d.ks {
					if k != i {
						why = "a block is listed repeatedly"
					}
				}
				m := newMapper(e, func(t *Term) *Term {
					if t == i {
						return a.B
					}
					return nil
				})
				g := m.Map(d.g)
				if unsatBDD(e, g, facts) {
					continue
				}
				if why == "" && !unsatBDD(e, T.And(g, T.Not(in)), facts) {
					why = "a number is listed that is no block"
				}
				if why == "" && !unsatBDD(e, T.And(g, T.Not(overlap)), facts) {
					why = "a block is listed whose IDs lie outside the filter"
				}
				for _, o := range gs {
					if why == "" && !unsatBDD(e, T.And(g, o), facts) {
						why = "a block is listed twice"
					}
				}
				gs = append(gs, g)
			}
			if why == "" {
				miss := T.And(sel, path)
				for _, g := range gs {
					miss = T.And(miss, T.Not(g))
				}
				if !unsatBDD(e, a.order(a.lens().Map(miss)), facts) {
					why = "a block with selected IDs is missing"
				}
			}
			c.ob(why == "", "block selection", key, r.pos, "%s (%s): %s", a.name, a.mode, why)
		}
	}
}

// sequence is what a returned list holds at the end.
func (a *aggRun) sequence(l, path *Term, t types.Type) *Term {
	switch l.op {
	case "fin", "app", "appseq", "nil", "elem", "blk":
		return l
	}
	return a.T.Restrict(a.e.seqOf(a.e.final, l, t), path)
}

func init() {
	register(&Check{ID: "C06", Level: "proof", Min: 4, Expl: "The returned list is unfolded into its contributions (a block number, a guard) and compared with the specification as sets: only blocks of the index whose ID range meets the range of the allow filter, each once, and every block that holds a selected ID.", Run: func(c *Ctx) {
		n := 0
		for fn, ps := range c.pickRoots() {
			n++
			for m := 0; m < 4; m++ {
				if m&2 != 0 && len(ps) < 2 {
					continue
				}
				c.pickRun(fn, ps, m)
			}
		}
		c.ob(n > 0, "block selection", "found", 0, "no exported operation selects blocks by ID bitmaps")
	}})
}
