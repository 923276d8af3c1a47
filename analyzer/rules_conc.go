package main

import (
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Check{ID: "C08", Level: "proof", Run: checkParallel, Min: 20,
		Expl: "For every goroutine that an exported operation starts: memory it shares with its siblings or with the starter is only read (or guarded by one mutex, or indexed by the number of the goroutine); WaitGroup.Add precedes it, Done is called exactly once on every path and after the last send, Wait follows outside the starting loop; sends fit the channel's capacity or are received; channels are closed once, after Wait; receiving loops end."})
	register(&Check{ID: "C17", Level: "proof", Run: checkSharedReader, Min: 12,
		Expl: "For every exported operation of the reading types (closing excepted): every access to memory reachable from the receiver is collected with the mutexes held; a location that any operation stores to must be accessed under one common mutex by all of them. No operation uses the file position, stores to package variables, leaves a mutex locked or locks one that it already holds."})
	register(&Check{ID: "C18", Level: "proof", Run: checkCallerData, Min: 60,
		Expl: "For every exported operation: no store to (and no append into) memory reached from a parameter, no change of a bitmap that the operation did not create; no ID or value slice of the caller is in the writer's state when the operation returns."})
}

// readModes are the ways in which a reading operation is analysed.
func (c *Ctx) readModes(fn *ssa.Function, parallel bool) []func(e *Eng, params []*Term) {
	i := optionStruct(fn, "Parallel")
	if i < 0 {
		return []func(e *Eng, params []*Term){nil}
	}
	bm := func(e *Eng, s string) *Term { return e.T.Op("bmarg", s, 0, nil) }
	var out []func(e *Eng, params []*Term)
	pars := []int64{0, 4, -1}
	if parallel {
		pars = pars[1:]
	}
	for _, par := range pars {
		for _, f := range []int{0, 1, 2, 3} {
			for _, skip := range []bool{false, true} {
				if f > 0 && skip {
					continue
				}
				par, f, skip := par, f, skip
				out = append(out, setOpt(fn, i, func(e *Eng) map[string]*Term {
					m := map[string]*Term{"Parallel": e.T.Int(par), "Filter": e.T.Nil, "DenyFilter": e.T.Nil, "SkipPreCalculated": e.T.False}
					if f&1 != 0 {
						m["Filter"] = bm(e, "Filter")
					}
					if f&2 != 0 {
						m["DenyFilter"] = bm(e, "DenyFilter")
					}
					if skip {
						m["SkipPreCalculated"] = e.T.True
					}
					return m
				}))
			}
		}
	}
	return out
}

// ---- C08 ----

func checkParallel(c *Ctx) {
	n := 0
	for _, fn := range c.readRoots() {
		for _, setup := range c.readModes(fn, true) {
			pol := Policy{Call: chain(opaqueBlocks, composed), Loads: 2}
			e := c.analyse(fn, pol, setup)
			n += c.spawnRules(e, fn)
		}
	}
	c.ob(n > 0, "goroutines found", "any", 0, "no exported operation starts a goroutine")
}

type spawnLoc struct {
	sp    *Spawn
	loops []*Loop
	path  []int
}

func (e *Eng) spawns() []spawnLoc {
	var out []spawnLoc
	var rec func(items []*Item, loops []*Loop, path []int)
	rec = func(items []*Item, loops []*Loop, path []int) {
		for i, it := range items {
			p := append(append([]int(nil), path...), i)
			if it.Loop != nil {
				rec(it.Loop.body, append(append([]*Loop(nil), loops...), it.Loop), p)
			}
			if it.Spawn != nil {
				out = append(out, spawnLoc{it.Spawn, loops, p})
				rec(it.Spawn.body, loops, p)
			}
		}
	}
	rec(e.trace, nil, nil)
	return out
}

// base of an access: the cell, without what lies below an element.
func baseCell(a *Term) (Cell, bool) {
	o, _ := a.ref.(*Obj)
	if o == nil {
		return Cell{}, false
	}
	p := a.aux
	if j := strings.Index(p, "[]"); j >= 0 {
		p = p[:j+2]
	}
	return Cell{o, p}, true
}

func overlap(a, b Cell) bool {
	return a.obj == b.obj && (strings.HasPrefix(a.path, b.path) || strings.HasPrefix(b.path, a.path))
}

// lockedBy lists the mutexes that are certainly held at the access.
func (e *Eng) lockedBy(s *StoreOb, forLoad bool) []string {
	var out []string
	for k, v := range s.held {
		v = e.T.Restrict(v, s.guard)
		if e.T.Implies(s.guard, e.T.Eq(v, e.T.Int(2))) || forLoad && e.T.Implies(s.guard, e.T.Not(e.T.Eq(v, e.T.Zero))) {
			out = append(out, k)
		}
	}
	sort.Strings(out)
	return out
}

func common(a, b []string) []string {
	var out []string
	for _, x := range a {
		for _, y := range b {
			if x == y {
				out = append(out, x)
			}
		}
	}
	return out
}

func (c *Ctx) spawnRules(e *Eng, fn *ssa.Function) int {
	T := e.T
	name := shortFn(fn)
	sps := e.spawns()
	evs := e.located(func(ev *Event) bool { return true })
	var closers []spawnLoc
	for _, s := range sps {
		if s.sp.guard != T.False && e.isCloser(s, evs) {
			closers = append(closers, s)
		}
	}
	for _, s := range sps {
		sp := s.sp
		if sp.guard == T.False {
			continue
		}
		loops := s.loops
		if e.isCloser(s, evs) {
			c.ob(true, "closer examined", name, sp.pos, "")
			continue
		}
		// the waiting operation
		var waits []located
		var body []located
		for _, l := range evs {
			if l.ev.kind == "wgwait" && l.ev.spawn == nil && len(l.loops) < len(loops)+1 && after(l.path, s.path) {
				inLoop := false
				for _, L := range l.loops {
					for _, M := range loops {
						if L == M {
							inLoop = true
						}
					}
				}
				if !inLoop || len(loops) == 0 {
					waits = append(waits, l)
				}
			}
			if l.ev.spawn == sp {
				body = append(body, l)
			}
		}
		// wait group discipline
		var wg *Term
		var adds []located
		for _, l := range evs {
			if l.ev.kind == "wgadd" && l.ev.spawn == nil && after(s.path, l.path) {
				adds = append(adds, l)
				wg = l.ev.args[0]
			}
		}
		okAdd := false
		for _, a := range adds {
			same := len(a.loops) == len(loops)
			for i := range loops {
				same = same && i < len(a.loops) && a.loops[i] == loops[i]
			}
			if same && a.ev.args[1] == T.Int(1) && a.ev.guard == sp.guard {
				okAdd, wg = true, a.ev.args[0]
			}
			if !same && len(loops) == len(a.loops)+1 {
				L := loops[len(loops)-1]
				// Add(number of goroutines) before the loop
				if x := e.iteLt(L.K, a.ev.args[1]); len(L.exits) == 1 && T.Implies(sp.guard, x) && T.Implies(T.And(L.entry, x), sp.guard) && T.Implies(L.entry, a.ev.guard) {
					okAdd, wg = true, a.ev.args[0]
				}
			}
		}
		c.ob(okAdd, "add before go", name, sp.pos, "%s: no WaitGroup.Add of exactly one per goroutine precedes this go statement", name)
		done := T.False
		twice := false
		lastDone := -1
		firstDone := 1 << 60
		for _, l := range body {
			if l.ev.kind != "wgdone" || l.ev.args[0] != wg {
				continue
			}
			if len(l.loops) > len(loops) || T.And(done, l.ev.guard) != T.False {
				twice = true
			}
			done = T.Or(done, l.ev.guard)
			lastDone = l.ev.seqNo
			if l.ev.seqNo < firstDone {
				firstDone = l.ev.seqNo
			}
		}
		_ = lastDone
		c.ob(T.Implies(sp.guard, done), "done on every path", name, sp.pos, "%s: this goroutine can end without WaitGroup.Done: Wait blocks forever", name)
		c.ob(!twice, "done once", name, sp.pos, "%s: this goroutine can call WaitGroup.Done more than once", name)
		waited := T.False
		waitSeq := 1 << 60
		for _, w := range waits {
			if w.ev.args[0] == wg {
				waited = T.Or(waited, w.ev.guard)
				if w.ev.seqNo < waitSeq {
					waitSeq = w.ev.seqNo
				}
			}
		}
		for _, q := range closers {
			end, g := e.closedAfter(q, s, wg, evs)
			waited = T.Or(waited, g)
			if end > 0 && end < waitSeq {
				waitSeq = end
			}
		}
		c.ob(T.Implies(sp.guard, waited), "waited for", name, sp.pos, "%s: the operation can return before this goroutine has ended", name)
		// locks are released
		for _, l := range body {
			if l.ev.kind != "lock" && l.ev.kind != "rlock" || l.ev.args[0].op != "addr" {
				continue
			}
			held := Cell{l.ev.args[0].ref.(*Obj), "$held" + l.ev.args[0].aux}
			ok := sp.end == nil || sp.end.mem[held] == nil || T.Restrict(sp.end.mem[held], sp.end.guard) == T.Zero
			c.ob(ok, "unlocked", name, l.ev.pos, "%s: the goroutine can end with this mutex locked", name)
			c.ob(T.And(l.ev.guard, T.Not(T.Eq(l.ev.size, T.Zero))) == T.False, "not locked twice", name, l.ev.pos, "%s: the goroutine can lock a mutex that it holds", name)
		}
		// channels
		for _, l := range body {
			switch l.ev.kind {
			case "send":
				ch := l.ev.args[0]
				if ch.op != "mkchan" {
					c.fail("send fits", name, l.ev.pos, "%s: a send to a channel of unknown capacity", name)
					continue
				}
				one := len(l.loops) == len(loops)
				for _, m := range body {
					if m.ev != l.ev && m.ev.kind == "send" && m.ev.args[0] == ch && T.And(m.ev.guard, l.ev.guard) != T.False {
						one = false
					}
				}
				// received while the goroutines run?
				drained := false
				for _, r := range evs {
					if r.ev.kind == "recv" && r.ev.spawn == nil && r.ev.args[0] == ch && after(r.path, s.path) && r.ev.seqNo < waitSeq {
						drained = true
					}
				}
				fits := one && len(loops) == 1 && T.Implies(T.And(sp.guard, l.ev.guard), T.Lt(loops[0].K, ch.args[0], kI64, true))
				if !fits && one && len(loops) == 1 {
					fits = e.lessUnder(T.And(sp.guard, l.ev.guard), loops[0], ch.args[0])
				}
				c.ob(fits || drained, "send fits", name, l.ev.pos, "%s: this send can block: nothing receives before Wait and the channel may be full", name)
				c.ob(l.ev.seqNo < firstDone, "send before done", name, l.ev.pos, "%s: the goroutine sends after it reported to be done: the channel may be closed", name)
			case "recv", "select", "wgwait", "chanclose":
				c.fail("goroutine blocks", name, l.ev.pos, "%s: %s in a goroutine", name, l.ev.kind)
			case "wgadd":
				c.fail("add before go", name, l.ev.pos, "%s: WaitGroup.Add inside the goroutine races with Wait", name)
			case "globalstore":
				c.fail("no shared stores", name+" "+l.ev.callee, l.ev.pos, "%s: a goroutine stores to the package variable %s", name, l.ev.callee)
			case "seek", "write", "truncate":
				c.fail("no shared stores", name+" "+l.ev.callee, l.ev.pos, "%s: a goroutine uses the shared file position (%s)", name, l.ev.callee)
			case "read":
				c.ob(l.ev.callee == "(*os.File).ReadAt", "no shared stores", name+" "+l.ev.callee, l.ev.pos, "%s: a goroutine uses the shared file position (%s)", name, l.ev.callee)
			}
		}
		// memory
		outer := func(o *Obj) bool {
			if o.fresh {
				return o.spawn == nil
			}
			rs, objs := e.roots2(o.root)
			for _, x := range objs {
				if x.spawn == nil {
					return true
				}
			}
			return len(rs) > 0
		}
		var acc []*StoreOb // accesses of this goroutine to memory it did not allocate
		for _, a := range e.stores {
			if o, _ := a.addr.ref.(*Obj); a.spawn == sp && o != nil && outer(o) && T.And(a.guard, sp.guard) != T.False {
				acc = append(acc, a)
			}
		}
		perIter := func(o *Obj) bool {
			for _, L := range loops {
				if o.fresh && hasDep(o.loopDeps, int32(L.id)) {
					return true
				}
			}
			return len(loops) == 0
		}
		// own element: indexed by the number of the goroutine
		ownElem := func(a *StoreOb) bool {
			if a.addr.op != "eaddr" || len(loops) != 1 {
				return false
			}
			K := loops[0].K
			d := T.Sub(a.addr.args[0], K)
			return !hasDep(d.deps, int32(loops[0].id)) && !hasDepAny(d.deps, a.loops, loops)
		}
		for _, a := range acc {
			ca, _ := baseCell(a.addr)
			if a.load {
				continue
			}
			if perIter(ca.obj) {
				continue
			}
			la := e.lockedBy(a, false)
			ok := ownElem(a) || len(la) > 0
			bad := ""
			if ok {
				for _, b := range acc {
					cb, _ := baseCell(b.addr)
					if !overlap(ca, cb) {
						continue
					}
					if len(la) > 0 && len(common(la, e.lockedBy(b, b.load))) > 0 {
						continue
					}
					if len(la) == 0 && ownElem(b) && b.addr.args[0] == a.addr.args[0] {
						continue
					}
					ok, bad = false, c.P.Pos(b.pos)
				}
			}
			c.ob(ok, "no shared stores", name+" "+ca.path, a.pos, "%s: goroutines started here store to shared memory (%s) without a common mutex %s", name, ca, bad)
		}
		// the starter
		for _, a := range e.stores {
			if a.spawn == sp {
				continue
			}
			ca, ok := baseCell(a.addr)
			if !ok || a.spawn == nil && a.seqNo > waitSeq {
				continue
			}
			inLoop := false
			for _, L := range a.loops {
				for _, M := range loops {
					inLoop = inLoop || L == M
				}
			}
			concurrent := a.seqNo > sp.start || inLoop && !perIter(ca.obj) || a.spawn != nil
			if !concurrent || T.And(a.guard, sp.guard) == T.False && !inLoop {
				continue
			}
			for _, b := range acc {
				cb, _ := baseCell(b.addr)
				if !overlap(ca, cb) || a.load && b.load {
					continue
				}
				ok := len(common(e.lockedBy(a, a.load), e.lockedBy(b, b.load))) > 0
				c.ob(ok, "no shared stores", name+" "+ca.path, a.pos, "%s: this access is concurrent with the goroutine's at %s", name, c.P.Pos(b.pos))
			}
		}
		c.ob(true, "goroutine examined", name, sp.pos, "")
	}
	if len(sps) == 0 {
		return 0
	}
	// channels on the starter's side
	for _, l := range evs {
		var closer *Spawn
		for _, q := range closers {
			if l.ev.spawn == q.sp {
				closer = q.sp
			}
		}
		if l.ev.spawn != closer {
			continue
		}
		switch l.ev.kind {
		case "chanclose":
			ok := len(l.loops) == 0
			for _, m := range evs {
				if m.ev.kind == "chanclose" && m.ev != l.ev && m.ev.args[0] == l.ev.args[0] && T.And(m.ev.guard, l.ev.guard) != T.False {
					ok = false
				}
			}
			w := T.False
			for _, m := range evs {
				if m.ev.kind == "wgwait" && m.ev.spawn == closer && after(l.path, m.path) {
					w = T.Or(w, m.ev.guard)
				}
			}
			c.ob(ok && T.Implies(l.ev.guard, w), "close after wait", name, l.ev.pos, "%s: the channel can be closed twice, or before every goroutine has sent", name)
		case "recv":
			cl := T.False
			for _, m := range evs {
				if m.ev.kind == "chanclose" && m.ev.args[0] == l.ev.args[0] && after(l.path, m.path) {
					cl = T.Or(cl, m.ev.guard)
				}
			}
			c.ob(T.Implies(l.ev.guard, cl), "receiving ends", name, l.ev.pos, "%s: this receive can block forever: the channel is not closed before it", name)
		case "send", "select":
			c.fail("receiving ends", name, l.ev.pos, "%s: %s outside a goroutine", name, l.ev.kind)
		}
	}
	return len(sps)
}

// isCloser: the goroutine only waits for others and then closes a channel.
func (e *Eng) isCloser(s spawnLoc, evs []located) bool {
	nw, nc := 0, 0
	for _, l := range evs {
		if l.ev.spawn != s.sp {
			continue
		}
		switch {
		case l.ev.kind == "wgwait" && nc == 0 && len(l.loops) == 0 && e.T.Implies(s.sp.guard, l.ev.guard):
			nw++
		case l.ev.kind == "chanclose" && nw > 0 && len(l.loops) == 0 && e.T.Implies(s.sp.guard, l.ev.guard):
			nc++
		default:
			return false
		}
	}
	if nw == 0 || nc == 0 || len(s.loops) > 0 {
		return false
	}
	for _, a := range e.stores {
		if a.spawn == s.sp && !a.load {
			return false
		}
	}
	return true
}

// closedAfter: the starter of s receives until the closer q, which waits for the group
// of s, closes the channel. It returns the end of the receiving loop and its guard.
func (e *Eng) closedAfter(q, s spawnLoc, wg *Term, evs []located) (int, *Term) {
	T := e.T
	if wg == nil || !after(q.path, s.path) {
		return 0, T.False
	}
	waits := false
	var ch *Term
	for _, l := range evs {
		if l.ev.spawn == q.sp && l.ev.kind == "wgwait" && l.ev.args[0] == wg {
			waits = true
		}
		if l.ev.spawn == q.sp && l.ev.kind == "chanclose" && ch == nil {
			ch = l.ev.args[0]
		}
	}
	if !waits {
		return 0, T.False
	}
	end, g := 0, T.False
	for _, l := range evs {
		if l.ev.kind != "recv" || l.ev.spawn != nil || l.ev.args[0] != ch || len(l.loops) != 1 || !after(l.path, q.path) {
			continue
		}
		L := l.loops[0]
		if len(L.exits) != 1 || len(l.ev.res) < 2 || !T.Implies(L.exits[0].guard, T.Not(T.Atom(l.ev.res[1]))) {
			continue
		}
		g = T.Or(g, T.And(L.entry, q.sp.guard))
		for _, m := range evs {
			for _, M := range m.loops {
				if M == L && m.ev.seqNo > end {
					end = m.ev.seqNo
				}
			}
		}
		for _, a := range e.stores {
			for _, M := range a.loops {
				if M == L && a.seqNo > end {
					end = a.seqNo
				}
			}
		}
	}
	if end > 0 {
		end++
	}
	return end, g
}

// iteLt: k < n, n a guarded value.
func (e *Eng) iteLt(k, n *Term) *Term {
	T := e.T
	return T.Lift("", func(x []*Term) *Term { return T.Lt(k, x[0], kI64, true) }, n)
}

func hasDepAny(deps []int32, in, except []*Loop) bool {
	for _, L := range in {
		skip := false
		for _, M := range except {
			skip = skip || L == M
		}
		if !skip && hasDep(deps, int32(L.id)) {
			return true
		}
	}
	return false
}

// lessUnder: K < n holds in every iteration that satisfies g. Both may be
// guarded values.
func (e *Eng) lessUnder(g *Term, L *Loop, n *Term) bool {
	T := e.T
	for _, l := range T.Leaves(n) {
		gl := T.And(g, T.LeafGuard(n, l))
		if gl == T.False {
			continue
		}
		if !T.Implies(gl, T.Lt(L.K, l, kI64, true)) {
			return false
		}
	}
	return true
}

// ---- C17 ----

func isCloser(fn *ssa.Function) bool { return closerName(fn.Name()) }

func checkSharedReader(c *Ctx) {
	type access struct {
		cell  string
		s     *StoreOb
		e     *Eng
		root  string
		locks []string
	}
	byType := map[*types.Named][]access{}
	var order []*types.Named
	writes := map[*types.Named]bool{}
	for _, fn := range c.P.apiRoots() {
		if n := recvNamed(fn); n != nil && c.P.reachesFileWrite(fn) {
			writes[n] = true
		}
	}
	for _, fn := range c.readRoots() {
		n := recvNamed(fn)
		if n == nil || isCloser(fn) || writes[n] {
			continue
		}
		if byType[n] == nil {
			order = append(order, n)
			byType[n] = []access{}
		}
		name := shortFn(fn)
		for _, setup := range c.readModes(fn, false) {
			e := c.analyse(fn, Policy{Call: chain(opaqueBlocks, composed), Loads: 1}, setup)
			T := e.T
			recv := e.params[0]
			for _, s := range e.stores {
				cell, ok := baseCell(s.addr)
				if !ok || cell.obj.fresh || s.guard == T.False || cell.obj.root == nil {
					continue
				}
				own := false
				for _, r := range e.roots(cell.obj.root) {
					own = own || mentions(r, recv)
				}
				if !own {
					continue
				}
				a := access{cell: cell.obj.name + cell.path, s: s, e: e, root: name, locks: e.lockedBy(s, s.load)}
				byType[n] = append(byType[n], a)
			}
			for _, l := range e.located(kinds("seek", "write", "truncate", "read", "globalstore", "lock", "rlock", "sync")) {
				ev := l.ev
				switch ev.kind {
				case "read":
					c.ob(ev.callee == "(*os.File).ReadAt", "no shared file position", name, ev.pos, "%s reads at the shared file position (%s)", name, ev.callee)
				case "globalstore":
					c.fail("no shared stores", name+" "+ev.callee, ev.pos, "%s stores to the package variable %s", name, ev.callee)
				case "lock", "rlock":
					c.ob(T.And(ev.guard, T.Not(T.Eq(ev.size, T.Zero))) == T.False, "not locked twice", name, ev.pos, "%s can lock a mutex that it already holds", name)
					if a := ev.args[0]; a.op == "addr" && ev.spawn == nil && e.final != nil {
						h := e.final.mem[Cell{a.ref.(*Obj), "$held" + a.aux}]
						c.ob(h == nil || T.Restrict(h, e.final.guard) == T.Zero, "unlocked", name, ev.pos, "%s can return with this mutex locked", name)
					}
				default:
					c.fail("no shared file position", name, ev.pos, "%s uses the shared file position (%s)", name, ev.callee)
				}
			}
		}
	}
	for _, n := range order {
		all := byType[n]
		seen := map[string]bool{}
		for _, a := range all {
			if a.s.load {
				continue
			}
			// every other access to the same location
			ok, other := true, ""
			lk := a.locks
			if len(lk) == 0 {
				ok, other = false, "itself (no mutex is held)"
			}
			for _, b := range all {
				if !strings.HasPrefix(a.cell, b.cell) && !strings.HasPrefix(b.cell, a.cell) {
					continue
				}
				cm := common(lk, b.locks)
				if ok && len(cm) == 0 {
					ok, other = false, b.root+" at "+c.P.Pos(b.s.pos)
				}
			}
			k := a.cell + c.P.Pos(a.s.pos)
			if seen[k] {
				continue
			}
			seen[k] = true
			c.ob(ok, "no shared stores", a.root+" "+a.cell, a.s.pos, "%s stores to %s, which is not protected against %s", a.root, a.cell, other)
		}
		c.ob(true, "operations examined", n.Obj().Name(), n.Obj().Pos(), "")
		for i := 0; i < len(all); i++ {
			if all[i].s.load {
				c.obs = append(c.obs, obligation{Rule: "load of shared memory", Where: c.P.Pos(all[i].s.pos), What: all[i].root + " " + all[i].cell, OK: true})
			}
		}
	}
}

// mentions: does the term contain x?
func mentions(t, x *Term) bool {
	seen := map[*Term]bool{}
	var rec func(t *Term) bool
	rec = func(t *Term) bool {
		if t == x {
			return true
		}
		if seen[t] {
			return false
		}
		seen[t] = true
		if o, ok := t.ref.(*Obj); ok && o.root != nil && rec(o.root) {
			return true
		}
		for _, a := range t.args {
			if rec(a) {
				return true
			}
		}
		return false
	}
	return rec(t)
}

// ---- C18 ----

func checkCallerData(c *Ctx) {
	for _, fn := range c.P.apiRoots() {
		name := shortFn(fn)
		vs := c.P.variants(fn)
		for _, v := range vs {
			for _, setup := range c.readModes(fn, false) {
				e := c.analyse(fn, v.pol, setup)
				c.callerRules(e, fn, name)
			}
		}
	}
}

func (c *Ctx) callerRules(e *Eng, fn *ssa.Function, name string) {
	T := e.T
	var data []*Term
	for i, p := range e.params {
		if i == 0 && fn.Signature.Recv() != nil {
			continue
		}
		data = append(data, p)
		_ = p
	}
	from := func(t *Term) bool {
		for _, d := range data {
			if mentions(t, d) {
				return true
			}
		}
		// bitmaps fixed by the analysis
		return containsOp(t, "bmarg")
	}
	for _, s := range e.stores {
		cell, ok := baseCell(s.addr)
		if s.load || !ok || cell.obj.fresh || cell.obj.root == nil || s.guard == T.False {
			continue
		}
		if strings.HasSuffix(cell.path, "$bm") || cell.path == "$bm" {
			rs := e.roots(cell.obj.root)
			bad := len(rs) > 0 && !c.P.reachesFileWrite(fn)
			for _, r := range rs {
				bad = bad || from(r) || containsOp(r, "res")
			}
			c.ob(!bad, "bitmaps of others unchanged", name, s.pos, "%s changes a bitmap that it did not create", name)
			continue
		}
		if len(data) > 0 && fn.Signature.Recv() == nil && isOption(fn) {
			continue
		}
		bad := false
		for _, r := range e.roots(cell.obj.root) {
			bad = bad || from(r)
		}
		c.ob(!bad, "arguments unchanged", name, s.pos, "%s stores to memory of its caller", name)
	}
	for _, l := range e.located(kinds("bm", "bmread")) {
		c.ob(true, "bitmaps of others unchanged", name+" "+l.ev.callee, l.ev.pos, "")
	}
	// a data slice of the caller in what the operation leaves behind
	if e.final == nil {
		return
	}
	var cells []Cell
	for cell := range e.final.mem {
		cells = append(cells, cell)
	}
	sort.Slice(cells, func(i, j int) bool {
		if cells[i].obj.id != cells[j].obj.id {
			return cells[i].obj.id < cells[j].obj.id
		}
		return cells[i].path < cells[j].path
	})
	reach := map[*Obj]bool{}
	for _, p := range e.params {
		e.reach(e.final, p, reach)
	}
	for _, v := range e.retVals {
		e.reach(e.final, v, reach)
	}
	for i, p := range e.params {
		if i == 0 && fn.Signature.Recv() != nil {
			continue
		}
		t := fn.Params[i].Type()
		if !isSliceOf(t, types.Uint64) && !isSliceOf(t, types.Int64) {
			continue
		}
		for _, cell := range cells {
			if !reach[cell.obj] || cell.obj.root == p || strings.HasPrefix(cell.path, "$") {
				continue
			}
			v := T.Restrict(e.final.mem[cell], e.final.guard)
			bad := false
			for _, l := range T.Leaves(v) {
				if l == p {
					bad = true
				}
				if o, ok := l.ref.(*Obj); ok && (l.op == "resl" || l.op == "eaddr" || l.op == "addr") && o.root == p {
					bad = true
				}
			}
			c.ob(!bad, "slices not kept", name+" "+cell.path, fn.Pos(), "%s keeps the caller's slice %s in %s: what the caller does with it later changes what is written", name, fn.Params[i].Name(), cell)
		}
		for _, v := range e.retVals {
			bad := false
			for _, l := range T.Leaves(v) {
				if l == p {
					bad = true
				}
			}
			c.ob(!bad, "slices not kept", name, fn.Pos(), "%s returns the caller's slice", name)
		}
	}
}

// isOption: a function that configures the object it is given.
func isOption(fn *ssa.Function) bool {
	r := fn.Signature.Results()
	if r.Len() != 1 {
		return false
	}
	_, ok := r.At(0).Type().Underlying().(*types.Signature)
	return ok
}

// roots resolves a slice or pointer value to the opaque values whose memory it
// refers to; memory that the analysed code allocated has none.
func (e *Eng) roots(t *Term) []*Term { r, _ := e.roots2(t); return r }

func (e *Eng) roots2(t *Term) ([]*Term, []*Obj) {
	var out []*Term
	var objs []*Obj
	seen := map[*Term]bool{}
	var rec func(t *Term)
	rec = func(t *Term) {
		if t == nil || seen[t] {
			return
		}
		seen[t] = true
		switch t.op {
		case "nil", "mkslice":
			if o, ok := t.ref.(*Obj); ok && !o.fresh {
				rec(o.root)
			} else if ok {
				objs = append(objs, o)
			}
		case "addr", "eaddr", "resl":
			if o, ok := t.ref.(*Obj); ok && !o.fresh {
				rec(o.root)
			} else if ok {
				objs = append(objs, o)
			}
		case "ite":
			for _, l := range e.T.Leaves(t) {
				rec(l)
			}
		case "app", "appseq", "upd", "snap":
			rec(t.args[0])
		case "mu", "fin":
			L := t.ref.(*Loop)
			for _, m := range L.mus {
				if m.term == t || t.op == "fin" && len(t.args) > 0 && m.term == t.args[0] {
					rec(m.init)
					rec(m.next)
				}
			}
		default:
			out = append(out, t)
		}
	}
	rec(t)
	return out, objs
}

func containsOp(t *Term, op string) bool {
	seen := map[*Term]bool{}
	var rec func(t *Term) bool
	rec = func(t *Term) bool {
		if t.op == op {
			return true
		}
		if seen[t] {
			return false
		}
		seen[t] = true
		if o, ok := t.ref.(*Obj); ok && o.root != nil && rec(o.root) {
			return true
		}
		for _, a := range t.args {
			if rec(a) {
				return true
			}
		}
		return false
	}
	return rec(t)
}
