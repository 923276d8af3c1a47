package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C15: no content of a file makes an operation panic.

func init() {
	register(&Check{ID: "C15", Level: "proof", Run: checkDamage, Min: 100,
		Expl: "Every exported reading operation, and every function that reads one block, is analysed with arbitrary file contents, arbitrary numbers in the index and the header, and every choice of filters and workers: each index, slice, division, conversion, shift and allocation must be within bounds under its path condition."})
}

func checkDamage(c *Ctx) {
	c.alloc = true
	c.need = map[*ssa.Function]bool{}
	// how a block is read, when called from inside
	for _, fn := range c.P.innerBlockReads() {
		name := shortFn(fn)
		e := c.analyse(fn, c.damagePolicy(fn), c.outside(fn, nil))
		for _, b := range e.bounds {
			if !e.boundHolds(b) {
				// its callers give only numbers of blocks
				c.need[fn] = true
				if ln := c.indexLen(e, fn); ln != nil {
					e.axiomLe(e.T.Zero, e.params[1])
					e.axiomLe(e.T.Add(e.params[1], e.T.Int(1)), ln)
				}
				break
			}
		}
		c.safe(e, fn, name)
	}
	for _, fn := range c.readRoots() {
		modes := c.readModes(fn, false)
		if i := optionStruct(fn, "Parallel"); i >= 0 {
			// any number of workers
			for _, f := range []bool{false, true} {
				modes = append(modes, setOpt(fn, i, func(e *Eng) map[string]*Term {
					m := map[string]*Term{"Filter": e.T.Nil, "DenyFilter": e.T.Nil}
					if f {
						m = map[string]*Term{"Filter": e.T.Op("bmarg", "Filter", 0, nil), "DenyFilter": e.T.Op("bmarg", "DenyFilter", 0, nil)}
					}
					return m
				}))
			}
		}
		for i, m := range modes {
			name := shortFn(fn)
			if len(modes) > 1 {
				name = fmt.Sprintf("%s mode %d", name, i)
			}
			c.noPanic(fn, name, c.damagePolicy(fn), c.outside(fn, m))
		}
	}
	c.codecs("dec", "map")
}

// outside: the numbers in the index and in the header may be anything.
func (c *Ctx) outside(fn *ssa.Function, m func(e *Eng, params []*Term)) func(e *Eng, params []*Term) {
	sizes := c.fileSizes(fn)
	return func(e *Eng, params []*Term) {
		e.T.outside = true
		if n := recvNamed(fn); n != nil && holdsFile(n) {
			e.T.wildInit = map[string]bool{}
			var rec func(t types.Type, path string)
			rec = func(t types.Type, path string) {
				if x, ok := t.Underlying().(*types.Struct); ok {
					for i := 0; i < x.NumFields(); i++ {
						rec(x.Field(i).Type(), path+"."+x.Field(i).Name())
					}
				} else if kindOf(t).bits() == 64 {
					e.T.wildInit[path] = true
				}
			}
			rec(n, "")
			for _, s := range sizes {
				delete(e.T.wildInit, s)
				e.axiomLe(e.T.Zero, e.initCell(Cell{e.rootObj(params[0], fn.Params[0].Type()), s}, types.Typ[types.Int64]))
			}
		}
		if m != nil {
			m(e, params)
		}
	}
}

// innerBlockReads are the unexported operations of a reader that read a block.
func (P *Prog) innerBlockReads() (out []*ssa.Function) {
	seen := map[*types.Package]bool{}
	var fns []*ssa.Function
	for _, r := range P.apiRoots() {
		if k := r.Pkg.Pkg; !seen[k] && strings.HasPrefix(k.Path(), P.mod+"/") {
			seen[k] = true
			fns = append(fns, P.repoFuncs(strings.TrimPrefix(k.Path(), P.mod+"/"))...)
		}
	}
	for _, fn := range fns {
		if n := recvNamed(fn); n != nil && holdsFile(n) && isBlockRead(fn) && !token.IsExported(fn.Name()) && len(fn.Blocks) > 0 {
			out = append(out, fn)
		}
	}
	return
}

func (c *Ctx) indexLen(e *Eng, fn *ssa.Function) *Term {
	index, _, et := c.P.indexLens(recvNamed(fn))
	if index == "" || len(e.params) < 2 {
		return nil
	}
	return e.lenOf(e.initCell(Cell{e.rootObj(e.params[0], fn.Params[0].Type()), index}, types.NewSlice(et)))
}

func (c *Ctx) damagePolicy(fn *ssa.Function) Policy {
	pol := Policy{Call: chain(c.evenBlocks)}
	if isBlockRead(fn) {
		pol.Call = chain(opaqueCodecs, composed)
	}
	n := recvNamed(fn)
	if n == nil || !holdsFile(n) {
		pol.Call = chain(opaqueReaders, c.evenBlocks)
		return pol
	}
	index, paths, et := c.P.indexLens(n)
	if index == "" {
		return pol
	}
	pol.InitCell = func(e *Eng, cl Cell, t types.Type) *Term {
		if len(e.params) == 0 || cl.obj.root != e.params[0] || !paths[cl.path] {
			return nil
		}
		return e.lenOf(e.initCell(Cell{cl.obj, index}, types.NewSlice(et)))
	}
	return pol
}

func (c *Ctx) noPanic(fn *ssa.Function, name string, pol Policy, setup func(e *Eng, params []*Term)) *Eng {
	e := c.analyse(fn, pol, setup)
	c.safe(e, fn, name)
	return e
}

func (c *Ctx) safe(e *Eng, fn *ssa.Function, name string) {
	if c.ends {
		c.terminates(e, fn, name, nil)
		return
	}
	for _, b := range e.bounds {
		what := map[string]string{"index": "an index may be out of range", "slice": "the bounds of a slice may be out of range", "make": "a slice may be made with a negative length",
			"nil": "a nil pointer may be followed", "typeassert": "a type assertion may fail", "div": "a division by zero is possible", "words": "the process may end: the bitmap library needs a buffer of 16-bit words", "shift": "a shift by a negative number is possible"}[b.kind]
		if os.Getenv("VDEBUG") != "" && !e.boundHolds(b) {
			fmt.Println("OPEN", b.kind, c.P.Pos(b.pos), "IDX", b.idx, "HI", b.hi, "LEN", b.len, "G", b.guard.str(8))
		}
		c.ob(e.boundHolds(b), "no panic", fmt.Sprintf("%s %s %s", name, shortFn(b.fn), b.kind), b.pos, "%s: %s", name, what)
	}
	if c.alloc {
		for _, b := range e.bounds {
			if b.kind == "words" {
				// the library follows the offsets in the buffer without looking
				c.ob(b.hi.op != "snap" && !strings.HasPrefix(b.hi.op, "f"), "bitmap parsed unchecked", name, b.pos, "%s: the bytes of a stored bitmap reach the bitmap library unchecked, which panics when they are damaged", name)
			}
		}
		for _, b := range e.bounds {
			if b.kind == "make" {
				ok := e.fitsFile(b, c.fileSizes(fn))
				c.ob(ok, "memory bounded by the file", fmt.Sprintf("%s %s make", name, shortFn(b.fn)), b.pos, "%s: a slice may be made that is longer than the file and everything read from it", name)
			}
		}
	}
	if isBlockRead(fn) {
		c.even(e, fn, name)
	}
	for _, l := range e.located(kinds("panic", "exit")) {
		c.ob(unsatBDD(e, l.ev.guard, nil), "no panic", name+" "+l.ev.kind, l.ev.pos, "%s may end in a %s", name, l.ev.kind)
	}
}

// fitsFile: the slice is short, or no longer than the file or than something
// that is in memory.
func (e *Eng) fitsFile(b *BoundOb, sizes []string) bool {
	T := e.T
	n := b.idx
	if b.hi != nil {
		n = b.hi
	}
	var tops []*Term
	seen := map[*Term]bool{}
	var add func(t *Term)
	add = func(t *Term) {
		if t == nil || seen[t] {
			return
		}
		seen[t] = true
		switch {
		case t.op == "len" || t.op == "fsize":
			tops = append(tops, t)
		case t.op == "init" && len(e.params) > 0 && t.ref != nil:
			for _, s := range sizes {
				if o, ok := t.ref.(*Obj); ok && o.root == e.params[0] && t.aux == s {
					tops = append(tops, t)
				}
			}
		}
		for _, a := range t.args {
			add(a)
		}
	}
	add(n)
	add(b.guard)
	for _, l := range T.Leaves(n) {
		g := T.And(b.guard, T.LeafGuard(n, l))
		if g == T.False {
			continue
		}
		if !e.proves(g, nil, append([]*Term{l}, tops...), func(p *prover) bool {
			ok := p.le(l, T.Int(1<<16))
			for _, t := range tops {
				ok = ok || p.le(l, t)
			}
			return ok
		}) {
			return false
		}
	}
	return true
}

// fileSizes are the cells of a reader that hold the size of its file.
func (c *Ctx) fileSizes(fn *ssa.Function) (out []string) {
	n := recvNamed(fn)
	if n == nil || !holdsFile(n) {
		return nil
	}
	if r, ok := c.sizes[n]; ok {
		return r
	}
	for _, f := range c.P.apiRoots() {
		if recvNamed(f) != nil || makes(f) != n {
			continue
		}
		e := NewEng(c.P, Policy{Call: chain(opaqueCodecs)})
		e.Run(f, nil)
		ei := errIndex(f.Signature)
		for _, r := range e.rets {
			if ei < 0 || e.final == nil {
				continue
			}
			g := e.T.And(r.guard, e.T.Eq(r.vals[ei], e.T.Nil))
			v := e.T.Restrict(r.vals[0], g)
			if g == e.T.False || v.op != "addr" {
				continue
			}
			var now []string
			for cl := range e.final.mem {
				if cl.obj == v.ref.(*Obj) && e.T.Restrict(e.final.mem[cl], g).op == "fsize" {
					now = append(now, cl.path)
				}
			}
			sort.Strings(now)
			out = now
		}
	}
	if c.sizes == nil {
		c.sizes = map[*types.Named][]string{}
	}
	c.sizes[n] = out
	return out
}

func (e *Eng) boundHolds(b *BoundOb) bool {
	switch b.kind {
	case "nil":
		return unsatBDD(e, e.T.And(b.guard, e.T.Eq(b.idx, e.T.Nil)), nil)
	case "typeassert":
		return unsatBDD(e, b.guard, nil)
	case "words":
		even := e.T.Eq(e.T.divrem("rem", b.idx, e.T.Int(2), kI64), e.T.Zero)
		return unsatBDD(e, e.T.And(b.guard, e.T.Not(even)), nil)
	case "shift":
		return e.proves(b.guard, nil, []*Term{b.idx}, func(p *prover) bool { return p.le(e.T.Zero, b.idx) })
	case "div":
		return unsatBDD(e, e.T.And(b.guard, e.T.Eq(b.idx, e.T.Zero)), nil) || newProver(e, b.guard, nil).lt(e.T.Zero, b.idx)
	}
	if e.within(b, nil) {
		return true
	}
	if fs := e.inductive(b); len(fs) > 0 && e.within(b, fs) {
		return true
	}
	return b.kind == "index" && e.elementsWithin(b)
}

func (e *Eng) within(b *BoundOb, facts []linFact) bool {
	T := e.T
	lo, hi := b.idx, b.hi
	if lo == nil {
		lo = T.Zero
	}
	if b.kind == "slice" && hi == nil {
		hi = b.len
	}
	return e.proves(b.guard, facts, []*Term{lo, hi, b.len}, func(p *prover) bool {
		switch b.kind {
		case "index":
			return p.le(T.Zero, lo) && p.lt(lo, b.len)
		case "slice":
			return p.le(T.Zero, lo) && p.le(lo, hi) && p.le(hi, b.len)
		case "make":
			return p.le(T.Zero, lo) && (hi == nil || p.le(lo, hi))
		}
		return false
	})
}

// inductive finds bounds that the counters of the enclosing loops keep.
func (e *Eng) inductive(b *BoundOb) []linFact {
	T := e.T
	type cand struct {
		L     *Loop
		m     *MuCell
		top   *Term // nil: not negative
		f     linFact
	}
	var cs []cand
	loops := append([]*Loop(nil), b.loops...)
	fins := map[*Term]bool{}
	for _, t := range []*Term{b.idx, b.hi, b.len} {
		e.finsOf(t, fins)
	}
	for f := range fins {
		if L := f.ref.(*Loop); !hasLoop(loops, L) {
			loops = append(loops, L)
		}
	}
	var tops []*Term
	if b.len != nil {
		tops = append(tops, b.len)
	}
	for _, L := range loops {
		if L.back == nil {
			continue
		}
		for _, m := range L.mus {
			if m.next == nil || m.init == nil || m.term == nil || m.typ == nil || kindOf(m.typ) != kI64 {
				continue
			}
			cs = append(cs, cand{L, m, nil, linFactOf(e, m.term, T.Zero, 0)})
			for _, t := range tops {
				if !t.dependsOn(L) && t.op != "ite" && !fins[t] {
					cs = append(cs, cand{L, m, t, linFactOf(e, t, m.term, 0)})
				}
			}
		}
	}
	for {
		var facts []linFact
		for _, x := range cs {
			facts = append(facts, x.f)
		}
		var keep []cand
		for _, x := range cs {
			in, step := newProver(e, x.L.entry, nil), newProver(e, x.L.back.guard, facts)
			if x.top == nil && in.le(T.Zero, x.m.init) && step.le(T.Zero, x.m.next) || x.top != nil && in.le(x.m.init, x.top) && step.le(x.m.next, x.top) {
				keep = append(keep, x)
			}
		}
		if len(keep) == len(cs) {
			for f := range fins {
				for _, x := range keep {
					if f.ref.(*Loop) == x.L && f.args[0] == x.m.term {
						if x.top == nil {
							facts = append(facts, linFactOf(e, f, T.Zero, 0))
						} else {
							facts = append(facts, linFactOf(e, x.top, f, 0))
						}
					}
				}
			}
			return facts
		}
		cs = keep
	}
}


// elementsWithin: the index is an element of a sequence, all elements of which
// are in range.
func (e *Eng) elementsWithin(b *BoundOb) bool {
	T := e.T
	for _, l := range T.Leaves(b.idx) {
		g := T.And(b.guard, T.LeafGuard(b.idx, l))
		if g == T.False {
			continue
		}
		x := *b
		x.guard, x.idx = g, l
		if l.op != "sel" && l.op != "elem" {
			if !e.within(&x, nil) {
				return false
			}
			continue
		}
		if !e.allWithin(&x, l.args[0], map[*Term]bool{}) {
			return false
		}
	}
	return true
}

func (e *Eng) allWithin(b *BoundOb, seq *Term, seen map[*Term]bool) bool {
	T := e.T
	if seen[seq] {
		return true // the sequence of the round before
	}
	seen[seq] = true
	value := func(v *Term) bool {
		x := *b
		x.idx = v
		return e.within(&x, nil)
	}
	switch seq.op {
	case "nil":
		return true
	case "ite":
		for _, l := range T.Leaves(seq) {
			x := *b
			x.guard = T.And(b.guard, T.LeafGuard(seq, l))
			if x.guard != T.False && !e.allWithin(&x, l, seen) {
				return false
			}
		}
		return true
	case "zeros":
		return value(T.Zero)
	case "app":
		for _, v := range seq.args[1:] {
			if !value(v) {
				return false
			}
		}
		return e.allWithin(b, seq.args[0], seen)
	case "upd":
		return value(seq.args[2]) && e.allWithin(b, seq.args[0], seen)
	case "snap", "sub":
		return e.allWithin(b, seq.args[0], seen)
	case "fin":
		L := seq.ref.(*Loop)
		m := L.mu(seq.args[0])
		if m == nil || m.next == nil || L.back == nil || b.len.dependsOn(L) {
			return false
		}
		seen[m.term] = true
		x := *b
		x.guard = L.back.guard
		return e.allWithin(b, m.init, seen) && e.allWithin(&x, m.next, seen)
	}
	return false
}

// evenBlocks: reading a block gives as many IDs as values (shown for its root).
func (c *Ctx) evenBlocks(e *Eng, fr *Frame, st *State, ci *callInfo) ([]*Term, bool) {
	r, ok := opaqueBlocks(e, fr, st, ci)
	if ok && len(r) == 3 && ci.fn != nil && isBlockRead(ci.fn) {
		if c.need[ci.fn] {
			if ln := c.indexLen(e, ci.fn); ln != nil {
				e.bound(fr, st, "index", ci.args[1], nil, ln, ci.pos)
			}
		}
		var l [2]*Term
		for i := range l {
			for _, t := range e.T.Leaves(r[i]) {
				if t.op == "blk" {
					l[i] = e.lenOf(t)
				}
			}
		}
		if l[0] != nil && l[1] != nil {
			e.axiomLe(l[0], l[1])
			e.axiomLe(l[1], l[0])
		}
	}
	return r, ok
}

// even: a successful read gives as many IDs as values.
func (c *Ctx) even(e *Eng, fn *ssa.Function, name string) {
	T := e.T
	for _, r := range e.rets {
		g := T.And(r.guard, T.Eq(r.vals[2], T.Nil))
		if g == T.False {
			continue
		}
		ok := true
		for _, a := range T.Leaves(r.vals[0]) {
			for _, b := range T.Leaves(r.vals[1]) {
				h := T.And(g, T.And(T.LeafGuard(r.vals[0], a), T.LeafGuard(r.vals[1], b)))
				if h == T.False {
					continue
				}
				x, y := e.grownUnder(a, h), e.grownUnder(b, h)
				p := newProver(e, h, nil)
				if !p.infeasible() && !(p.le(x, y) && p.le(y, x)) {
					ok = false
				}
			}
		}
		c.ob(ok, "as many IDs as values", name, r.pos, "%s can succeed with different numbers of IDs and values", name)
	}
}

func init() {
	register(&Check{ID: "C16", Level: "proof", Min: 100, Run: checkWritePanics,
		Expl: "Every exported writing operation, and the functions that turn numbers into bytes, is analysed for every encoding with arbitrary arguments, options and outcomes of file operations: each index, slice, division, conversion, shift and allocation must be within bounds under its path condition and the proved invariants of the writer."})
}

func checkWritePanics(c *Ctx) {
	bufs := map[*types.Named]*bufType{}
	for _, b := range c.P.bufTypes() {
		bufs[b.n] = b
		done := map[*ssa.Function]bool{}
		for _, fn := range b.methods {
			c.bufPanics(b, fn, done)
		}
	}
	w := c.P.writerType()
	lists := c.inStep(w)
	for _, fn := range c.writeRoots() {
		n := recvNamed(fn)
		if n != nil && bufs[n] != nil {
			continue
		}
		for _, v := range c.P.variants(fn) {
			pol := v.pol
			name := shortFn(fn)
			if v.name != "" {
				name += " " + v.name
			}
			if n == w {
				pol = lists.policy(pol)
			}
			e := c.analyse(fn, pol, nil)
			if n == w {
				lists.assume(e, fn)
			}
			c.safe(e, fn, name)
		}
	}
	c.codecs("enc", "map")
}

// codecs decides the scalar codecs of the columns.
func (c *Ctx) codecs(kinds ...string) {
	for _, fn := range c.P.codecFuncs() {
		want := false
		for _, k := range kinds {
			want = want || codecSig(fn.Signature) == k
		}
		if !want {
			continue
		}
		e := c.noPanic(fn, shortFn(fn), Policy{}, nil)
		if c.ends || codecSig(fn.Signature) != "dec" {
			continue
		}
		// what the analysis of the readers assumes of it
		for _, r := range e.rets {
			ok := true
			for _, l := range e.T.Leaves(r.vals[1]) {
				g := e.T.And(r.guard, e.T.LeafGuard(r.vals[1], l))
				if g == e.T.False {
					continue
				}
				if !e.atExit(l, g, func(v, g *Term, loops []*Loop) bool {
					var few []linFact
					for n := int64(8); n <= 10; n++ {
						few = append(few, e.inductive(&BoundOb{kind: "slice", loops: loops, len: e.T.Int(n)})...)
					}
					return e.boundHolds(&BoundOb{kind: "slice", guard: g, hi: v, len: e.lenOf(e.params[0]), loops: loops}) && newProver(e, g, few).le(v, e.T.Int(11))
				}) {
					ok = false
				}
			}
			c.ob(ok, "no more bytes than there are", shortFn(fn), r.pos, "%s may report more bytes than it was given", shortFn(fn))
		}
	}
}

// atExit decides about a value of the last round of a loop where the loop is
// left.
func (e *Eng) atExit(v, g *Term, f func(v, g *Term, loops []*Loop) bool) bool {
	var loops []*Loop
	e.walk(e.trace, func(it *Item, in []*Loop) {
		if it.Loop != nil && len(in) == 0 {
			loops = append(loops, it.Loop)
		}
	})
	if len(loops) != 1 {
		return f(v, g, nil)
	}
	L := loops[0]
	m := e.unfin(map[*Loop]bool{L: true})
	if unsatBDD(e, e.T.And(g, L.entry), nil) {
		return f(v, g, nil)
	}
	for _, ex := range L.exits {
		h := g
		for _, other := range L.exits {
			if other.X != nil {
				h = e.T.Cofactor(h, other.X, other == ex)
			}
		}
		if h = e.T.And(m.Map(h), ex.guard); h != e.T.False && !f(m.Map(v), h, loops) {
			return false
		}
	}
	return f(v, e.T.And(g, e.T.Not(L.entry)), nil)
}

// codecFuncs are the scalar codecs of the columns.
func (P *Prog) codecFuncs() (out []*ssa.Function) {
	for _, p := range P.spkgs {
		for _, nm := range p.Pkg.Scope().Names() {
			if f := p.Func(nm); f != nil && P.isRepo(f) && len(f.Blocks) > 0 && codecSig(f.Signature) != "" {
				out = append(out, f)
			}
		}
	}
	return
}

// bufPanics decides the operations of a buffering writer.
func (c *Ctx) bufPanics(b *bufType, fn *ssa.Function, done map[*ssa.Function]bool) {
	if done[fn] {
		return
	}
	done[fn] = true
	u := c.bufRun(b, fn, nil)
	u.prepare()
	e, T := u.e, u.T
	for _, s := range u.at {
		if s.n != nil {
			// a full block took some of the items it was given (shown for the block writer)
			e.axiomLe(T.Int(int64(b2i(c.ends))), s.n)
			for _, l := range T.Leaves(s.w[0]) {
				if ln := e.lenOf(l); len(T.Leaves(s.w[0])) == 1 && ln.op != "ite" {
					e.axiomLe(s.n, ln)
				}
			}
		}
	}
	c.safe(e, fn, u.name)
	for _, f := range u.recs {
		c.bufPanics(b, f, done)
	}
}

// step: the lists that an operation extends together, and the number of blocks.
type step struct {
	n     *types.Named
	count string // the cell that counts
	lists map[string]types.Type
}

func (s *step) policy(pol Policy) Policy {
	old := pol.InitCell
	var first string
	for p := range s.lists {
		if first == "" || p < first {
			first = p
		}
	}
	pol.InitCell = func(e *Eng, cl Cell, t types.Type) *Term {
		if len(e.params) > 0 && cl.obj.root == e.params[0] && cl.obj.root != nil && first != "" {
			if cl.path == s.count {
				ln := e.lenOf(e.initCell(Cell{cl.obj, first}, s.lists[first]))
				return ln
			}
		}
		if old != nil {
			return old(e, cl, t)
		}
		return nil
	}
	return pol
}

// assume adds the equal lengths at the start.
func (s *step) assume(e *Eng, fn *ssa.Function) {
	if len(e.params) == 0 || recvNamed(fn) != s.n {
		return
	}
	o := e.rootObj(e.params[0], fn.Params[0].Type())
	var prev *Term
	for p, t := range s.lists {
		ln := e.lenOf(e.initCell(Cell{o, p}, t))
		if prev != nil {
			e.axiomLe(prev, ln)
			e.axiomLe(ln, prev)
		}
		prev = ln
	}
}

// inStep finds the lists that have as many elements as there are blocks, at
// all times: after the constructor and after every operation.
func (c *Ctx) inStep(n *types.Named) *step {
	best := &step{n: n, lists: map[string]types.Type{}}
	st, _ := n.Underlying().(*types.Struct)
	if st == nil {
		return best
	}
	P := c.P
	// a new object: no elements, none counted
	lists, counts := map[string]types.Type{}, map[string]types.Type{}
	for i := 0; i < st.NumFields(); i++ {
		f := st.Field(i)
		if _, ok := f.Type().Underlying().(*types.Slice); ok {
			lists["."+f.Name()] = f.Type()
		} else if kindOf(f.Type()).bits() == 64 {
			counts["."+f.Name()] = f.Type()
		}
	}
	for _, fn := range P.apiRoots() {
		if recvNamed(fn) != nil || makes(fn) != n {
			continue
		}
		e := NewEng(P, Policy{Call: chain(opaqueCodecs)})
		e.Run(fn, nil)
		for _, r := range e.rets {
			g := r.guard
			if ei := errIndex(fn.Signature); ei >= 0 {
				g = e.T.And(g, e.T.Eq(r.vals[ei], e.T.Nil))
			}
			v := e.T.Restrict(r.vals[0], g)
			if g == e.T.False {
				continue
			}
			if v.op != "addr" || e.final == nil {
				return best
			}
			o := v.ref.(*Obj)
			fin := e.final.clone()
			fin.guard = g
			for p, t := range lists {
				if e.T.Restrict(e.lenOf(e.readCell(fin, Cell{o, p}, t)), g) != e.T.Zero {
					delete(lists, p)
				}
			}
			for p, t := range counts {
				if e.T.Restrict(e.readCell(fin, Cell{o, p}, t), g) != e.T.Zero {
					delete(counts, p)
				}
			}
		}
	}
	var names []string
	for p := range counts {
		names = append(names, p)
	}
	sort.Strings(names)
	for _, p := range append(names, "") {
		s := &step{n: n, count: p, lists: map[string]types.Type{}}
		for l, t := range lists {
			s.lists[l] = t
		}
		for n := -1; n != len(s.lists) && len(s.lists) > len(best.lists); {
			n = len(s.lists)
			s.keep(P, counts[p])
		}
		if len(s.lists) > len(best.lists) {
			best = s
		}
	}
	c.notes = append(c.notes, fmt.Sprintf("%s: %d lists have as many elements as %s counts, before and after every operation", n.Obj().Name(), len(best.lists), best.count))
	return best
}

// keep drops the lists that some operation may leave with another length.
func (s *step) keep(P *Prog, ct types.Type) {
	for _, fn := range P.apiRoots() {
		if recvNamed(fn) != s.n {
			continue
		}
		for _, v := range P.variants(fn) {
			e := NewEng(P, s.policy(v.pol))
			e.Run(fn, nil)
			if e.final == nil {
				continue // it does not return
			}
			s.assume(e, fn)
			o := e.rootObj(e.params[0], fn.Params[0].Type())
			var ref *Term
			if s.count != "" {
				ref = e.readCell(e.final, Cell{o, s.count}, ct)
			}
			var names []string
			for p := range s.lists {
				names = append(names, p)
			}
			sort.Strings(names)
			for _, p := range names {
				ln := e.lenOf(e.readCell(e.final, Cell{o, p}, s.lists[p]))
				if ref == nil {
					ref = ln
					continue
				}
				if !e.equalUnder(ln, ref, e.final.guard) {
					delete(s.lists, p)
				}
			}
		}
	}
}

// equalUnder: two numbers are equal in every case of g.
func (e *Eng) equalUnder(a, b, g *Term) bool {
	T := e.T
	for _, x := range T.Leaves(a) {
		gx := T.And(g, T.LeafGuard(a, x))
		if gx == T.False {
			continue
		}
		r := T.Restrict(b, gx)
		for _, y := range T.Leaves(r) {
			gy := T.And(gx, T.LeafGuard(r, y))
			if gy == T.False || x == y {
				continue
			}
			if p := newProver(e, gy, nil); !p.infeasible() && !(p.le(x, y) && p.le(y, x)) {
				return false
			}
		}
	}
	return true
}

// finsOf collects the values that counters have after their loops.
func (e *Eng) finsOf(t *Term, out map[*Term]bool) {
	if t == nil {
		return
	}
	if t.op == "fin" {
		out[t] = true
		return
	}
	for _, a := range t.args {
		e.finsOf(a, out)
	}
}
