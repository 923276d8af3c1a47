package main

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Check{ID: "C14", Level: "proof", Run: checkReadErrors, Min: 60,
		Expl: "For every exported reading operation that has an error result, every read (an error or a short read), seek, stat, open, close, operation of an underlying reader, and every error value the code constructs is tracked through the gated value graph; 'it failed (was constructed) and the caller is told success' must be the constant false. For operations without an error result no block read may be able to fail."})
	register(&Check{ID: "C19", Level: "proof", Run: checkRelease, Min: 8,
		Expl: "For every exported constructor: on every failing path each file it opened is closed. For every exported operation that closes a file (or closes other readers): the close is on every path, in every iteration."})
}

// notFull is the condition that a read did not deliver all bytes.
func (e *Eng) notFull(ev *Event) *Term {
	T := e.T
	if len(ev.res) < 2 {
		return T.True
	}
	ok := T.Eq(ev.res[1], T.Nil)
	if ev.callee != "io.ReadFull" {
		full := T.Not(T.Lt(ev.res[0], ev.size, kI64, true))
		if ev.callee == "(*os.File).ReadAt" {
			ok = T.Or(ok, full)
		} else {
			ok = full
		}
	}
	return T.Not(ok)
}

// optionStruct finds a parameter that is a struct with the named field.
func optionStruct(fn *ssa.Function, field string) int {
	for i, p := range fn.Params {
		if s, ok := p.Type().Underlying().(*types.Struct); ok {
			for j := 0; j < s.NumFields(); j++ {
				if s.Field(j).Name() == field {
					return i
				}
			}
		}
	}
	return -1
}

// setOpt fixes fields of an option struct parameter.
func setOpt(fn *ssa.Function, i int, f func(e *Eng) map[string]*Term) func(e *Eng, params []*Term) {
	return func(e *Eng, params []*Term) {
		params[i] = e.structArg(fn.Params[i].Type(), params[i], f(e))
	}
}

func (c *Ctx) readRoots() []*ssa.Function {
	var out []*ssa.Function
	w := c.P.writerType()
	for _, fn := range c.P.apiRoots() {
		if n := recvNamed(fn); n != nil && n == w || c.P.reachesFileWrite(fn) {
			continue
		}
		if recvNamed(fn) == nil && makes(fn) == nil {
			continue
		}
		out = append(out, fn)
	}
	return out
}

func checkReadErrors(c *Ctx) {
	for _, fn := range c.readRoots() {
		name := shortFn(fn)
		if errIndex(fn.Signature) < 0 {
			pol := Policy{Call: chain(opaqueBlocks, composed)}
			type mode struct {
				name  string
				setup func(e *Eng, params []*Term)
			}
			modes := []mode{{"sequential", nil}}
			if i := optionStruct(fn, "Parallel"); i >= 0 {
				bm := func(e *Eng) *Term { return e.T.Op("bmarg", "Filter", 0, nil) }
				modes = []mode{
					{"sequential", setOpt(fn, i, func(e *Eng) map[string]*Term {
						return map[string]*Term{"Parallel": e.T.Zero, "Filter": e.T.Nil, "DenyFilter": e.T.Nil}
					})},
					{"filtered", setOpt(fn, i, func(e *Eng) map[string]*Term {
						return map[string]*Term{"Parallel": e.T.Zero, "Filter": bm(e)}
					})},
					{"filtered", setOpt(fn, i, func(e *Eng) map[string]*Term {
						return map[string]*Term{"Parallel": e.T.Zero, "Filter": e.T.Nil, "DenyFilter": bm(e)}
					})},
					{"parallel", setOpt(fn, i, func(e *Eng) map[string]*Term {
						return map[string]*Term{"Parallel": e.T.Int(4)}
					})},
				}
			}
			for _, m := range modes {
				e := c.analyse(fn, pol, m.setup)
				for _, l := range e.located(kinds("blockread", "read")) {
					md := m.name
					if l.ev.spawn == nil && md == "parallel" {
						md = "sequential" // its fallback
					}
					bad := T_and(e, l.ev)
					c.ob(bad == e.T.False, "unreadable block reported", md, l.ev.pos,
						"%s (%s) has no error result, but reading a block can fail here", name, md)
				}
			}
			continue
		}
		e := c.analyse(fn, Policy{Call: chain(opaqueCodecs, composed)}, nil)
		o := e.outcome()
		for _, l := range e.located(kinds("read", "stat", "open", "close", "seek", "api", "mkerr", "rec", "blockread")) {
			ev := l.ev
			var failed *Term
			switch ev.kind {
			case "read":
				failed = e.notFull(ev)
			case "mkerr":
				failed = e.T.True
			default:
				if ev.Err() == nil {
					continue
				}
				failed = c.realFailure(e, ev)
			}
			if ev.kind == "close" && e.T.And(ev.guard, o.any) == e.T.False {
				continue
			}
			what := ev.callee
			if ev.kind == "mkerr" {
				what = "an error"
			}
			if ev.spawn != nil {
				c.fail("read error reported", name+" "+what, ev.pos, "%s happens in a goroutine: it cannot reach the caller", what)
				continue
			}
			why := e.swallowed(l, o.any, failed)
			if ev.kind == "mkerr" {
				c.ob(why == "", "read error reported", name+" "+what, ev.pos, "%s: the error made here can be lost: %s", name, why)
			} else {
				c.ob(why == "", "read error reported", name+" "+what, ev.pos, "%s: %s can fail (or read too little) unnoticed: %s", name, what, why)
			}
		}
	}
}

func T_and(e *Eng, ev *Event) *Term {
	if ev.kind == "read" {
		return e.T.And(ev.guard, e.notFull(ev))
	}
	return e.T.And(ev.guard, e.failedCond(ev))
}

func checkRelease(c *Ctx) {
	for _, fn := range c.P.apiRoots() {
		name := shortFn(fn)
		pol := c.P.variants(fn)[0].pol
		pol.InitCell = nil
		e := c.analyse(fn, pol, nil)
		T := e.T
		o := e.outcome()
		closes := e.located(kinds("close"))
		opened := map[*Term]bool{}
		for _, l := range e.located(kinds("open")) {
			ev := l.ev
			if ev.Err() == nil {
				continue
			}
			f := T.mk(&Term{op: "file", aux: ev.callee, ref: ev})
			opened[f] = true
			ok := T.And(ev.guard, T.Eq(ev.Err(), T.Nil))
			closed := T.False
			for _, x := range closes {
				if x.ev.args[0] == f && after(x.path, l.path) && len(x.loops) <= len(l.loops) {
					closed = T.Or(closed, x.ev.guard)
				}
			}
			for _, x := range e.located(kinds("api")) {
				// by a closing operation of the object that holds it
				if x.ev.typ != nil && len(x.ev.args) > 0 && closerName(x.ev.callee) && x.ev.args[0].op == "addr" && after(x.path, l.path) && len(x.loops) <= len(l.loops) && e.final != nil {
					for cell, v := range e.final.mem {
						if cell.obj == x.ev.args[0].ref.(*Obj) && containsTerm(v, f) {
							closed = T.Or(closed, x.ev.guard)
							break
						}
					}
				}
			}
			bad := T.And(T.And(o.failed, ok), T.Not(closed))
			c.ob(bad == T.False, "closed on failure", name, ev.pos, "%s can fail and leave the file open that it opened here", name)
			if makes(fn) == nil || !holdsFile(makes(fn)) {
				bad := T.And(T.And(o.any, ok), T.Not(closed))
				c.ob(bad == T.False, "closed on success", name, ev.pos, "%s opens a file, does not return it, and can leave it open", name)
			}
		}
		// constructors that build on another constructor
		for _, l := range e.located(kinds("api")) {
			ev := l.ev
			if errIndex(fn.Signature) < 0 || ev.typ != nil && !isNilNamed(ev.typ) || ev.Err() == nil {
				continue
			}
			ok := T.And(ev.guard, T.Eq(ev.Err(), T.Nil))
			bad := T.And(o.failed, ok)
			closed := T.False
			for _, x := range e.located(kinds("api")) {
				if x.ev.typ != nil && len(x.ev.args) > 0 && x.ev.args[0] == ev.res[0] && closerName(x.ev.callee) {
					closed = T.Or(closed, x.ev.guard)
				}
			}
			c.ob(T.And(bad, T.Not(closed)) == T.False, "closed on failure", name+" "+ev.callee, ev.pos, "%s can fail and leave open what %s opened", name, ev.callee)
		}
		// closing operations
		if recvNamed(fn) == nil {
			continue
		}
		all := T.False
		for _, r := range e.rets {
			all = T.Or(all, r.guard)
		}
		byFile := map[*Term]*Term{}
		var order []*Term
		for _, x := range closes {
			f := x.ev.args[0]
			if opened[f] {
				continue
			}
			if byFile[f] == nil {
				byFile[f] = T.False
				order = append(order, f)
			}
			if len(x.loops) == 0 {
				byFile[f] = T.Or(byFile[f], x.ev.guard)
			}
		}
		for _, f := range order {
			c.ob(T.And(all, T.Not(byFile[f])) == T.False, "close on every path", name, fn.Pos(), "%s closes its file on some paths but not on all", name)
		}
		// closing many
		for _, x := range e.located(kinds("api")) {
			if !closerName(x.ev.callee) || len(x.loops) != 1 {
				continue
			}
			L := x.loops[0]
			el := x.ev.args[0]
			ok := el.op == "elem" && el.args[1] == L.K && L.trip == e.lenOf(el.args[0]) && len(L.exits) == 1 && L.exits[0].header
			if ok {
				inBody := T.And(L.entry, T.Lt(L.K, L.trip, kI64, true))
				ok = T.Implies(inBody, x.ev.guard)
			}
			if !ok && el.op == "elem" && L.trip == e.lenOf(el.args[0]) && len(L.exits) == 1 && L.exits[0].header {
				// counting down
				d := T.Add(T.Add(el.args[1], L.K), T.Int(1))
				inBody := T.And(L.entry, T.Lt(L.K, L.trip, kI64, true))
				ok = d == L.trip && T.Implies(inBody, x.ev.guard)
			}
			c.ob(ok, "closes every one", name, x.ev.pos, "%s may leave some of them open", name)
		}
	}
	// every type that holds a file has an operation that closes it
	for _, sp := range c.P.spkgs {
		if sp.Pkg.Name() == "main" {
			continue
		}
		for _, m := range sp.Members {
			t, ok := m.(*ssa.Type)
			if !ok {
				continue
			}
			n, _ := t.Type().(*types.Named)
			if !holdsFile(n) {
				continue
			}
			found := false
			for _, fn := range c.P.apiRoots() {
				if recvNamed(fn) != n {
					continue
				}
				for _, o := range c.obs {
					if o.Rule == "close on every path" && o.What == shortFn(fn) && o.OK {
						found = true
					}
				}
			}
			c.ob(found, "can be closed", n.Obj().Name(), n.Obj().Pos(), "no operation of %s closes its file", n.Obj().Name())
		}
	}
}

func isNilNamed(t types.Type) bool { n, ok := t.(*types.Named); return ok && n == nil }

func closerName(s string) bool { return s == "Close" || s == "FinalizeAndClose" }
