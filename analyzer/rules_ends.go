package main

import (
	"fmt"
	"go/types"
	"os"

	"golang.org/x/tools/go/ssa"
)

// C27: every operation ends.

func init() {
	register(&Check{ID: "C27", Level: "proof", Min: 50, Run: checkEnds,
		Expl: "Every loop of every exported operation, of the functions that read one block and of the functions that turn numbers into bytes and back: it has a bounded number of rounds, or a quantity that is bounded from below and decreases in every round. Recursion is resolved, or comes after a block write that made progress."})
}

func checkEnds(c *Ctx) {
	c.ends = true
	checkDamage(c)
	c.alloc, c.need = false, nil
	checkWritePanics(c)
	// a buffering writer that calls itself has written something before
	c.only = "progress"
	runSimple(c)
	c.only = ""
}

// terminates decides the loops of an operation.
func (c *Ctx) terminates(e *Eng, fn *ssa.Function, name string, skip map[*Loop]bool) {
	seen := map[*Loop]bool{}
	c.ob(true, "ends", name, fn.Pos(), "")
	for _, l := range e.located(kinds("rec")) {
		if n := recvNamed(fn); n != nil && c.P.isBufType(n) {
			continue // decided below
		}
		c.ob(unsatBDD(e, l.ev.guard, nil) || c.onceMore(e, fn, l.ev), "recursion ends", name, l.ev.pos, "%s may call itself forever", name)
	}
	e.walk(e.trace, func(it *Item, _ []*Loop) {
		L := it.Loop
		if L == nil || seen[L] || skip[L] {
			return
		}
		seen[L] = true
		ok := e.loopEnds(L)
		if !ok && os.Getenv("VDEBUG") != "" {
			fmt.Println("OPEN", c.P.Pos(L.pos), "trip", L.trip)
			if L.back != nil {
				fmt.Println("  cont", L.back.guard.str(8))
			}
			for _, m := range L.mus {
				fmt.Println("  mu", m.name, m.term, "next", m.next.str(6))
			}
		}
		c.ob(ok, "loop ends", fmt.Sprintf("%s %s", name, shortFn(L.fn)), L.pos, "%s: this loop may go on forever", name)
	})
}

// onceMore: called with the constants of this recursive call, the operation does
// not call itself.
func (c *Ctx) onceMore(e *Eng, fn *ssa.Function, ev *Event) bool {
	if ev.callee != fnKey(fn) || len(ev.args) != len(fn.Params) {
		return false
	}
	key := fnKey(fn)
	scalar := map[int]*Term{}
	fields := map[int]map[string]*Term{}
	for i, a := range ev.args {
		st, _ := fn.Params[i].Type().Underlying().(*types.Struct)
		switch {
		case a.isInt():
			scalar[i] = a
			key += fmt.Sprintf(" %d=%s", i, a.str(3))
		case a.op == "struct" && st != nil && st.NumFields() == len(a.args):
			fields[i] = map[string]*Term{}
			for j, v := range a.args {
				if v.isInt() {
					fields[i][st.Field(j).Name()] = v
					key += fmt.Sprintf(" %d.%d=%s", i, j, v.str(3))
				}
			}
		}
	}
	if r, ok := c.onces[key]; ok {
		return r
	}
	x := c.analyse(fn, c.damagePolicy(fn), c.outside(fn, func(e *Eng, params []*Term) {
		for i, v := range scalar {
			params[i] = e.T.Int(v.n)
		}
		for i, m := range fields {
			own := map[string]*Term{}
			for k, v := range m {
				own[k] = e.T.Int(v.n)
			}
			params[i] = e.structArg(fn.Params[i].Type(), params[i], own)
		}
	}))
	ok := true
	for _, l := range x.located(kinds("rec")) {
		ok = ok && unsatBDD(x, l.ev.guard, nil)
	}
	if c.onces == nil {
		c.onces = map[string]bool{}
	}
	c.onces[key] = ok
	return ok
}

func (e *Eng) loopEnds(L *Loop) bool {
	T := e.T
	if L.back == nil || L.back.guard == T.False {
		return true
	}
	if L.trip != nil && L.tripNN {
		return true
	}
	if unsatBDD(e, L.back.guard, nil) {
		return true
	}
	step := newMapper(e, func(t *Term) *Term {
		if m := L.mu(t); m != nil {
			if m.next == nil {
				return nil
			}
			return m.next
		}
		if t == L.K {
			return T.Add(t, T.Int(1))
		}
		return nil
	})
	var facts []linFact
	decreases := func(f *Term, g *Term) bool {
		if !f.dependsOn(L) {
			return false
		}
		if facts == nil {
			facts = append([]linFact{}, e.inductive(&BoundOb{loops: []*Loop{L}})...)
		}
		next := step.Map(f)
		for _, l := range T.Leaves(next) {
			h := T.And(g, T.LeafGuard(next, l))
			if h == T.False {
				continue
			}
			facts := append(e.apart(L, h, facts), facts...)
			if !e.proves(h, facts, []*Term{f, l}, func(p *prover) bool { return p.infeasible() || p.lt(l, f) }) {
				return false
			}
		}
		return true
	}
	// the cases that stay the same in all rounds
	var cases func(g, in *Term, depth int) bool
	cases = func(g, in *Term, depth int) bool {
		if g == T.False || unsatBDD(e, g, nil) {
			return true
		}
		rel := T.Restrict(g, in)
		pos, neg := T.ForcedLiterals(rel)
		for _, a := range pos {
			switch a.op {
			case "lt":
				if decreases(T.Add(T.Sub(a.args[1], a.args[0]), T.Int(a.n)), g) {
					return true
				}
			case "ult":
				if decreases(T.Sub(a.args[1], a.args[0]), g) {
					return true
				}
			case "res":
				// the elements of a map, what a channel holds until it is closed (C08)
				if ev, ok := a.ref.(*Event); ok && (ev.kind == "next" || ev.kind == "recv") && a.n == int64(moreResult(ev)) && roundOf(L, ev) {
					return true
				}
			}
		}
		for _, a := range neg {
			switch a.op {
			case "lt":
				if decreases(T.Sub(T.Sub(a.args[0], a.args[1]), T.Int(a.n)), g) {
					return true
				}
			case "ult":
				if decreases(T.Sub(a.args[0], a.args[1]), g) {
					return true
				}
			}
		}
		for _, m := range L.mus {
			if m.next == nil {
				continue
			}
			if m.typ != nil {
				if _, ok := m.typ.Underlying().(*types.Slice); ok && decreases(e.lenOf(m.term), g) {
					return true
				}
			}
			// a number that loses digits, and is not zero
			if n := m.next; (n.op == "shr" || n.op == "div") && n.args[0] == m.term && n.args[1].op == "int" && n.args[1].n > int64(b2i(n.op == "div")) && (n.op == "div" || n.aux == "u") && unsatBDD(e, T.And(g, T.Eq(m.term, T.Zero)), nil) {
				return true
			}
		}
		if depth == 0 {
			return false
		}
		for _, a := range T.Atoms(rel) {
			if !a.dependsOn(L) {
				x := T.Atom(a)
				return cases(T.And(g, x), T.And(in, x), depth-1) && cases(T.And(g, T.Not(x)), T.And(in, T.Not(x)), depth-1)
			}
		}
		return false
	}
	return cases(L.back.guard, L.entry, 10)
}

// apart: a number that is at least n and not n is more.
func (e *Eng) apart(L *Loop, g *Term, facts []linFact) (out []linFact) {
	T := e.T
	_, neg := T.ForcedLiterals(g)
	for _, a := range neg {
		if a.op != "eqc" || !a.dependsOn(L) {
			continue
		}
		x, n := a.args[0], T.Int(a.n)
		p := newProver(e, g, facts)
		if p.le(n, x) {
			out = append(out, linFactOf(e, x, n, -1))
		} else if p.le(x, n) {
			out = append(out, linFactOf(e, n, x, -1))
		}
	}
	return
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}

// moreResult is the result that tells whether there was another element.
func moreResult(ev *Event) int {
	if ev.kind == "next" {
		return 0
	}
	return 1
}

// roundOf: the operation is carried out in every round of the loop itself.
func roundOf(L *Loop, ev *Event) bool {
	for _, it := range L.body {
		if it.Ev == ev {
			return true
		}
	}
	return false
}

func (P *Prog) isBufType(n *types.Named) bool {
	for _, b := range P.bufTypes() {
		if b.n == n {
			return true
		}
	}
	return false
}
