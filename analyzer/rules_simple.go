package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// The buffering writer: it collects pairs over several calls and writes blocks
// of them through a block writer (C20, C21).

type bufType struct {
	n           *types.Named
	ids, vals   string // the cells of the pending pairs
	total, done string // what TotalItems and IsClosed return
	neg         bool   // ... the opposite
	methods     []*ssa.Function
	write       *ssa.Function
	close       *ssa.Function
	ctors       []*ssa.Function
}

func pairWrite(fn *ssa.Function) bool {
	sig := fn.Signature
	return sig.Recv() != nil && sig.Params().Len() == 2 && isSliceOf(sig.Params().At(0).Type(), types.Uint64) &&
		isSliceOf(sig.Params().At(1).Type(), types.Int64) && sig.Results().Len() == 1 && isErrorType(sig.Results().At(0).Type())
}

// blockWrite: the operation of a file writer that stores one block.
func (P *Prog) blockWrite(fn *ssa.Function) bool {
	return fn != nil && P.isRepo(fn) && pairWrite(fn) && recvNamed(fn) == P.writerType()
}

func (P *Prog) bufTypes() []*bufType {
	var out []*bufType
	seen := map[*types.Named]*bufType{}
	roots := P.apiRoots()
	for _, fn := range roots {
		n := recvNamed(fn)
		if n == nil || holdsFile(n) || !pairWrite(fn) || seen[n] != nil {
			continue
		}
		b := &bufType{n: n, write: fn}
		seen[n] = b
		out = append(out, b)
	}
	for _, fn := range roots {
		if n := recvNamed(fn); n != nil {
			if b := seen[n]; b != nil {
				b.methods = append(b.methods, fn)
				if fn.Name() == "Close" {
					b.close = fn
				}
			}
		} else if m := makes(fn); m != nil && seen[m] != nil {
			seen[m].ctors = append(seen[m].ctors, fn)
		}
	}
	for _, b := range out {
		s, _ := b.n.Underlying().(*types.Struct)
		for i := 0; s != nil && i < s.NumFields(); i++ {
			f := s.Field(i)
			set := func(p *string) {
				if *p != "" {
					*p = "?"
				} else {
					*p = "." + f.Name()
				}
			}
			switch {
			case isSliceOf(f.Type(), types.Uint64):
				set(&b.ids)
			case isSliceOf(f.Type(), types.Int64):
				set(&b.vals)
			}
		}
		for _, fn := range b.methods {
			sig := fn.Signature
			if sig.Params().Len() != 0 || sig.Results().Len() != 1 {
				continue
			}
			r := sig.Results().At(0).Type()
			bt, _ := r.Underlying().(*types.Basic)
			if bt == nil || bt.Kind() != types.Bool && bt.Kind() != types.Uint64 {
				continue
			}
			e := NewEng(P, Policy{})
			e.Run(fn, nil)
			if len(e.retVals) != 1 {
				continue
			}
			v := e.retVals[0]
			neg := false
			if v.op == "ite" && v.args[1] == e.T.True && v.args[2] == e.T.False {
				v = v.args[0]
			} else if v.op == "ite" && v.args[2] == e.T.True && v.args[1] == e.T.False {
				v, neg = v.args[0], true
			}
			if v.op != "init" {
				continue
			}
			if bt.Kind() == types.Bool {
				b.done, b.neg = v.aux, neg
			} else {
				b.total = v.aux
			}
		}
	}
	return out
}

// snapshot of the state at a block write or a recursive call.
type snapAt struct {
	st       *State // before
	after    *State
	n        *Term // items that a full block took
	ok, part *Term
	w        [2]*Term // what was given to the block writer
}

// buf is the analysis of one operation of a buffering writer.
type buf struct {
	c    *Ctx
	b    *bufType
	e    *Eng
	T    *Terms
	fn   *ssa.Function
	name string
	at   map[string]*snapAt
	recv *Obj
	asc  map[*Term]bool

	starts  []startPair
	fixed   []fixed  // by cases
	loops   []*Loop  // those that change the collected pairs
	heads   []*State // at the start of a round
	recs    map[string]*ssa.Function
	drain   bool // nothing may stay pending
	inside  map[*Event][]*Loop
	headAsc map[int]bool
}

func (u *buf) policy(e *Eng, fr *Frame, st *State, c *callInfo) ([]*Term, bool) {
	T := e.T
	switch {
	case e.P.blockWrite(c.fn) && len(c.args) == 3:
		ev := e.emit(fr, st, &Event{kind: "wblock", callee: c.name, args: c.args}, c.pos, c.key)
		s := &snapAt{st: st.clone()}
		for i := range s.w {
			s.w[i] = e.seqOf(st, c.args[1+i], c.argTys[1+i])
		}
		r := e.results(ev, []types.Type{errorType})[0]
		var leaf *Term = r
		s.ok = T.Eq(r, T.Nil)
		s.part = T.False
		if bt := e.P.fullErr(); bt != nil {
			o := e.freshObj("full:"+c.key, "full", bt, c.pos)
			is := T.Atom(T.Op("typeis", "", 0, types.NewPointer(bt), r))
			s.n = T.mk(&Term{op: "fulln", args: []*Term{r}, kind: kI64})
			bs := bt.Underlying().(*types.Struct)
			for i := 0; i < bs.NumFields(); i++ {
				if isInt(bs.Field(i).Type()) {
					cell := Cell{o, "." + bs.Field(i).Name()}
					st.mem[cell] = s.n
					e.cells[cell] = bs.Field(i).Type()
				}
			}
			s.part = T.And(T.Not(s.ok), is)
			leaf = T.Ite(is, T.Op("iface", "", 0, types.NewPointer(bt), e.addr(o, "")), r)
		}
		ev.res = []*Term{T.Ite(s.ok, T.Nil, leaf)}
		s.after = st.clone()
		u.at[ev.key] = s
		return ev.res, true
	case c.fn != nil && e.P.isRepo(c.fn) && len(c.fn.Blocks) > 0 && fr.active(c.fn):
		ev := e.emit(fr, st, &Event{kind: "rec", callee: fnKey(c.fn), args: c.args, errIdx: -1, fn: c.fn}, c.pos, c.key)
		s := &snapAt{st: st.clone()}
		u.recs[ev.key] = c.fn
		e.havocArgs(fr, st, ev, c)
		rs := e.results(ev, typeTuple(c.sig.Results()))
		s.after = st.clone()
		u.at[ev.key] = s
		return rs, true
	}
	return composed(e, fr, st, c)
}

// fullErr: the error type that reports how many items a full block took.
func (P *Prog) fullErr() *types.Named {
	for _, p := range P.spkgs {
		for _, nm := range p.Pkg.Scope().Names() {
			tn, ok := p.Pkg.Scope().Lookup(nm).(*types.TypeName)
			if !ok {
				continue
			}
			n, ok := tn.Type().(*types.Named)
			if ok && P.partialErr(types.NewPointer(n)) && types.Implements(types.NewPointer(n), errorType.Underlying().(*types.Interface)) {
				return n
			}
		}
	}
	return nil
}

func (u *buf) cell(st *State, path string) *Term {
	c := Cell{u.recv, path}
	if v, ok := st.mem[c]; ok {
		return v
	}
	return u.e.initCell(c, u.fieldType(path))
}

func (u *buf) fieldType(path string) types.Type {
	s := u.b.n.Underlying().(*types.Struct)
	for i := 0; i < s.NumFields(); i++ {
		if "."+s.Field(i).Name() == path {
			return s.Field(i).Type()
		}
	}
	return nil
}

func (u *buf) pending(st *State) [2]*Term {
	return [2]*Term{u.e.seqOf(st, u.unfin(u.cell(st, u.b.ids)), u.fieldType(u.b.ids)), u.e.seqOf(st, u.unfin(u.cell(st, u.b.vals)), u.fieldType(u.b.vals))}
}

func (c *Ctx) bufRun(b *bufType, fn *ssa.Function, args []string) *buf {
	u := &buf{c: c, b: b, fn: fn, name: shortFn(fn), at: map[string]*snapAt{}, recs: map[string]*ssa.Function{}, inside: map[*Event][]*Loop{}, headAsc: map[int]bool{}}
	var pt types.Type
	u.e = c.analyse(fn, Policy{Call: u.policy}, func(e *Eng, params []*Term) {
		u.e = e
		for i, a := range args {
			switch a {
			case "":
			case "true":
				params[i] = e.T.True
			case "false":
				params[i] = e.T.False
			default:
				n, _ := strconv.ParseInt(a, 10, 64)
				params[i] = e.T.Int(n)
			}
		}
		pt = fn.Params[0].Type()
	})
	u.T = u.e.T
	u.recv = u.e.rootObj(u.e.params[0], pt)
	return u
}

// ---- multisets of pairs ----

// firstCond is a condition that the shape of a sequence depends on.
func firstCond(t *Term) *Term {
	switch t.op {
	case "ite":
		return t.args[0]
	case "snap", "arr", "appseq", "app", "fin", "sorted", "sel", "elem", "field", "upd":
		for _, a := range t.args {
			if c := firstCond(a); c != nil {
				return c
			}
		}
	}
	return nil
}

// fix gives an atom a value everywhere in the shape of t.
func (u *buf) fix(t, atom *Term, val bool) *Term {
	T := u.T
	if t.op == "ite" {
		lit := T.Atom(atom)
		if !val {
			lit = T.Not(lit)
		}
		t = T.Restrict(t, lit)
		if t.op == "ite" {
			return T.Lift("", func(a []*Term) *Term { return u.fix(a[0], atom, val) }, t)
		}
	}
	ch := false
	as := make([]*Term, len(t.args))
	switch t.op {
	case "snap", "arr", "appseq", "app", "fin", "sorted", "sel", "elem", "field", "upd":
		for i, a := range t.args {
			as[i] = u.fix(a, atom, val)
			ch = ch || as[i] != a
		}
	}
	if !ch {
		return t
	}
	switch t.op {
	case "snap":
		if as[2] == T.Zero {
			return T.Nil
		}
		if as[0].op == "arr" && as[1] == T.Zero && u.e.lenOf(as[0].args[0]) == as[2] {
			return as[0].args[0]
		}
	case "appseq":
		if as[0] == T.Nil && as[1] == T.Nil {
			return T.Nil
		}
	}
	n := *t
	n.args = as
	return T.mk(&n)
}

type fixed struct {
	atom *Term
	val  bool
}

// cases splits on the conditions that the shapes of the terms depend on.
func (u *buf) cases(ts []*Term, g *Term, f func(ts []*Term, g *Term)) {
	for _, t := range ts {
		c := firstCond(t)
		if c == nil {
			continue
		}
		for _, v := range []bool{true, false} {
			lit := u.T.Atom(c)
			if !v {
				lit = u.T.Not(lit)
			}
			g2 := u.T.And(g, lit)
			if g2 == u.T.False || unsatBDD(u.e, g2, nil) {
				continue
			}
			var n []*Term
			for _, x := range ts {
				n = append(n, u.fix(x, c, v))
			}
			u.fixed = append(u.fixed, fixed{c, v})
			u.cases(n, g2, f)
			u.fixed = u.fixed[:len(u.fixed)-1]
		}
		return
	}
	f(ts, g)
}

func (u *buf) equal(a, b, g *Term) bool {
	if a == b || u.T.Restrict(u.T.Sub(a, b), g) == u.T.Zero {
		return true
	}
	p := newProver(u.e, g, nil)
	return p.le(a, b) && p.le(b, a)
}

type startPair struct {
	name string
	p    [2]*Term
}

// reduce takes a pair of sequences apart into the known pairs whose elements
// it holds, each once.
func (u *buf) reduce(I, V, g *Term, d int) (out []string, why string) {
	T, e := u.T, u.e
	if d > 20 {
		return nil, "nested too deeply"
	}
	if g == T.False || unsatBDD(e, g, nil) {
		return nil, ""
	}
	nI, nV := e.lenOf(I), e.lenOf(V)
	if u.equal(nI, T.Zero, g) && u.equal(nV, T.Zero, g) {
		return nil, ""
	}
	for _, s := range u.starts {
		if s.p[0] == I && s.p[1] == V {
			return []string{s.name}, ""
		}
	}
	if !u.equal(nI, nV, g) {
		return nil, fmt.Sprintf("%v IDs with %v values", nI.str(5), nV.str(5))
	}
	if I.op == "appseq" && V.op == "appseq" {
		a, w := u.reduce(I.args[0], V.args[0], g, d+1)
		if w != "" {
			return nil, w
		}
		b, w := u.reduce(I.args[1], V.args[1], g, d+1)
		if w != "" {
			return nil, w
		}
		out = append(append(out, a...), b...)
		sort.Strings(out)
		return out, ""
	}
	k := T.Sym("k"+fmt.Sprint(d), kI64)
	g0 := g
	g = T.And(g, T.And(T.Not(T.Lt(k, T.Zero, kI64, true)), T.Lt(k, nI, kI64, true)))
	if a := u.splitAt(I, g0); a != nil && I.op == "snap" && V.op == "snap" && !u.equal(a, T.Zero, g0) && !u.equal(a, nI, g0) {
		// the elements before a and those from a on
		part := func(s, off, n *Term) *Term {
			return T.Op("snap", "", 0, nil, s.args[0], T.Add(s.args[1], off), n)
		}
		x, w := u.reduce(part(I, T.Zero, a), part(V, T.Zero, a), g0, d+1)
		if w != "" {
			return nil, w
		}
		y, w := u.reduce(part(I, a, T.Sub(nI, a)), part(V, a, T.Sub(nI, a)), g0, d+1)
		if w != "" {
			return nil, w
		}
		out = append(append(out, x...), y...)
		sort.Strings(out)
		return out, ""
	}
	x, w1 := u.at1(I, k, g, types.Typ[types.Uint64])
	y, w2 := u.at1(V, k, g, types.Typ[types.Int64])
	if w1+w2 != "" {
		return nil, w1 + w2
	}
	return u.pairs(x, y, k, nI, g, d)
}

// at1 is element k of a sequence.
func (u *buf) at1(s, k, g *Term, et types.Type) (*Term, string) {
	if s.op == "snap" {
		return u.contentAt(s.args[0], u.T.Add(s.args[1], k), g, et)
	}
	if L, x := u.built(s, g); L != nil {
		p := newProver(u.e, g, nil)
		if p.le(u.T.Zero, k) && p.lt(k, L.trip) {
			v := newMapper(u.e, func(t *Term) *Term {
				if t == L.K {
					return k
				}
				return nil
			}).Map(x)
			if !v.dependsOn(L) {
				return v, ""
			}
		}
	}
	if s.op == "appseq" {
		n := u.e.lenOf(s.args[0])
		p := newProver(u.e, g, nil)
		if p.lt(k, n) {
			return u.at1(s.args[0], k, g, et)
		}
		if p.le(n, k) {
			return u.at1(s.args[1], u.T.Sub(k, n), g, et)
		}
	}
	return u.e.elem(s, k, et), ""
}

// next is the value that a round leaves, as far as what held before the loop
// decides it.
func (u *buf) next(L *Loop, m *MuCell, g *Term) *Term {
	nx := m.next
	if nx.op != "ite" {
		return nx
	}
	T := u.T
	nx = T.Restrict(nx, L.cont)
	pos, neg := T.ForcedLiterals(g)
	for _, a := range pos {
		if !a.dependsOn(L) {
			nx = T.Restrict(nx, T.Atom(a))
		}
	}
	for _, a := range neg {
		if !a.dependsOn(L) {
			nx = T.Restrict(nx, T.Not(T.Atom(a)))
		}
	}
	return nx
}

// built: a loop appended one element in each round.
func (u *buf) built(s, g *Term) (*Loop, *Term) {
	if s.op != "fin" {
		return nil, nil
	}
	L := s.ref.(*Loop)
	m := L.mu(s.args[0])
	if m == nil || L.trip == nil || len(L.exits) != 1 || u.e.lenOf(m.init) != u.T.Zero {
		return nil, nil
	}
	nx := u.next(L, m, g)
	if nx.op != "app" || nx.args[0] != m.term || len(nx.args) != 2 {
		return nil, nil
	}
	return L, nx.args[1]
}

// norm looks up an element of a sequence that is made of others.
func (u *buf) norm(x, g *Term, et types.Type) *Term {
	for i := 0; i < 8; i++ {
		y, why := x, ""
		switch x.op {
		case "elem":
			y, why = u.at1(x.args[0], x.args[1], g, et)
		case "sel":
			y, why = u.contentAt(x.args[0], x.args[1], g, et)
		}
		if why != "" || y == x {
			break
		}
		x = y
	}
	return x
}

// contentAt is what an array holds at k.
func (u *buf) contentAt(c, k, g *Term, et types.Type) (*Term, string) {
	T := u.T
	switch c.op {
	case "arr":
		return u.at1(c.args[0], k, g, et)
	case "blit":
		off, n := c.args[1], c.args[3]
		p := newProver(u.e, g, nil)
		at := T.Sub(k, off)
		if p.le(T.Zero, at) && p.lt(at, n) {
			return u.at1(c.args[2], at, g, et)
		}
		if p.lt(k, off) || p.le(T.Add(off, n), k) {
			return u.contentAt(c.args[0], k, g, et)
		}
	case "sorted":
		return u.e.sel1(c, k, et), ""
	case "fin":
		L := c.ref.(*Loop)
		m := L.mu(c.args[0])
		if m == nil {
			return nil, "unclear contents"
		}
		nx := u.next(L, m, g)
		if nx.op != "upd" || nx.args[0] != m.term || L.trip == nil || len(L.exits) != 1 {
			return nil, "the elements are not simply stored one after the other at " + u.e.P.Pos(L.pos)
		}
		a := T.Sub(nx.args[1], L.K)
		p := newProver(u.e, g, nil)
		at := T.Sub(k, a)
		if !a.dependsOn(L) && (p.lt(k, a) || p.le(T.Add(a, L.trip), k)) {
			return u.contentAt(m.init, k, g, et)
		}
		if a.dependsOn(L) || !p.le(T.Zero, at) || !p.lt(at, L.trip) {
			return u.e.sel1(c, k, et), "" // not clear whether it is stored
		}
		v := newMapper(u.e, func(t *Term) *Term {
			if t == L.K {
				return at
			}
			return nil
		}).Map(nx.args[2])
		if v.dependsOn(L) {
			return nil, "an element depends on others at " + u.e.P.Pos(L.pos)
		}
		return v, ""
	}
	return u.e.sel1(c, k, et), ""
}

// splitAt is where a loop started to store the elements of a sequence, if it
// left those before as they were.
func (u *buf) splitAt(s, g *Term) *Term {
	if s.op != "snap" || s.args[1] != u.T.Zero || s.args[0].op != "fin" {
		return nil
	}
	L := s.args[0].ref.(*Loop)
	m := L.mu(s.args[0].args[0])
	if m == nil || L.trip == nil {
		return nil
	}
	nx := u.next(L, m, g)
	if nx.op != "upd" || nx.args[0] != m.term {
		return nil
	}
	if a := u.T.Sub(nx.args[1], L.K); !a.dependsOn(L) {
		return a
	}
	return nil
}

// pairs: for k < n, the pair (x(k), y(k)).
func (u *buf) pairs(x, y, k, n, g *Term, d int) (out []string, why string) {
	T, e := u.T, u.e
	if d > 20 {
		return nil, "nested too deeply"
	}
	if firstCond(x) != nil || firstCond(y) != nil {
		first := true
		u.cases([]*Term{x, y}, g, func(ts []*Term, g2 *Term) {
			o, w := u.pairs(ts[0], ts[1], k, n, g2, d+1)
			if w != "" {
				why = w
			} else if !first && strings.Join(o, " ") != strings.Join(out, " ") {
				why = "pairs chosen by a condition"
			}
			out, first = o, false
		})
		return out, why
	}
	x, y = u.norm(x, g, types.Typ[types.Uint64]), u.norm(y, g, types.Typ[types.Int64])
	if x.op == "elem" && y.op == "elem" && x.args[1] != y.args[1] && u.equal(x.args[1], y.args[1], g) {
		y = e.elem(y.args[0], x.args[1], types.Typ[types.Int64])
	}
	for _, s := range u.starts {
		if a, w := u.at1(s.p[0], k, g, types.Typ[types.Uint64]); w == "" && a == x {
			if b, w := u.at1(s.p[1], k, g, types.Typ[types.Int64]); w == "" && b == y && u.equal(e.lenOf(s.p[0]), n, g) && u.equal(e.lenOf(s.p[1]), n, g) {
				return []string{s.name}, ""
			}
		}
	}
	// an element of a sorted permutation: look at what was sorted
	perm := func(s *Term) (content *Term, ok bool) {
		if s.op != "sel" || s.args[1] != k || s.args[0].op != "sorted" {
			return nil, false
		}
		o := s.args[0]
		return o.args[0], o.args[1] == T.Zero && u.equal(o.args[2], n, g)
	}
	if x.op == "field" && y.op == "field" && x.args[0] == y.args[0] {
		if content, ok := perm(x.args[0]); ok {
			el, w := u.contentAt(content, k, g, nil)
			if w != "" {
				return nil, w
			}
			return u.pairs(u.fieldOf(x, el), u.fieldOf(y, el), k, n, g, d+1)
		}
		// pairs kept as structs
		return nil, "unclear pairs " + x.str(4)
	}
	if x.op == "elem" && y.op == "elem" {
		if x.args[1] != y.args[1] {
			return nil, fmt.Sprintf("the ID at %v with the value at %v", x.args[1].str(4), y.args[1].str(4))
		}
		f := x.args[1]
		if content, ok := perm(f); ok {
			j, w := u.contentAt(content, k, g, types.Typ[types.Int])
			if w != "" {
				return nil, w
			}
			f = j
		}
		nI, nV := e.lenOf(x.args[0]), e.lenOf(y.args[0])
		if f == k && u.equal(nI, n, g) && u.equal(nV, n, g) {
			return u.reduce(x.args[0], y.args[0], g, d+1)
		}
		return nil, fmt.Sprintf("only a part of the pairs: those at %v, below %v of %v", f.str(4), n.str(4), nI.str(4))
	}
	if x.op == "sel" && y.op == "sel" && x.args[1] == k && y.args[1] == k {
		// all elements of two arrays
		i, v := T.Op("snap", "", 0, nil, x.args[0], T.Zero, n), T.Op("snap", "", 0, nil, y.args[0], T.Zero, n)
		if a := u.splitAt(i, g); a != nil && !u.equal(a, T.Zero, g) && !u.equal(a, n, g) {
			return u.reduce(i, v, g, d+1)
		}
	}
	return nil, "unclear pairs " + x.str(4) + " and " + y.str(4)
}

func (u *buf) fieldOf(f, el *Term) *Term {
	m := newMapper(u.e, func(t *Term) *Term {
		if t == f.args[0] {
			return el
		}
		return nil
	})
	return m.Map(f)
}

func init() {
	register(&Check{ID: "C20", Level: "proof", Run: runSimple, Min: 10})
}

// point is a place where a segment ends.
type point struct {
	what string
	pos  token.Pos
	g    *Term
	st   *State
	ev   *Event // of a recursive call
	ret  *Ret
	L    *Loop // at the end of a round of this loop
}

// prepare finds the starts of the segments.
func (u *buf) prepare() {
	e, T := u.e, u.T
	st := &State{mem: map[Cell]*Term{}, guard: T.True}
	add := func(name string, p [2]*Term) {
		u.starts = append(u.starts, startPair{name, p})
		if a, b := e.lenOf(p[0]), e.lenOf(p[1]); a != b {
			// equal lengths are part of what is shown at the end of every segment
			e.axioms = append(e.axioms, linFactOf(e, a, b, 0), linFactOf(e, b, a, 0))
			e.axVer++
		}
	}
	add("pending", u.pending(st))
	if pairWrite(u.fn) {
		u.starts = append(u.starts, startPair{"batch", [2]*Term{e.params[1], e.params[2]}})
	}
	e.walk(e.trace, func(it *Item, _ []*Loop) {
		if it.Loop == nil {
			return
		}
		L := it.Loop
		for _, m := range L.mus {
			if f := T.mk(&Term{op: "fin", ref: L, args: []*Term{m.term}, kind: m.term.kind}); m.typ != nil && m.next.op != "" {
				if X, _ := u.built(f, T.True); X != nil {
					e.axioms = append(e.axioms, linFactOf(e, e.lenOf(f), L.trip, 0), linFactOf(e, L.trip, e.lenOf(f), 0))
					e.axVer++
				}
			}
		}
		in := false
		for _, m := range L.mus {
			if m.cell != nil && m.cell.obj == u.recv {
				in = true
			}
		}
		if !in {
			return
		}
		h := &State{mem: map[Cell]*Term{}, guard: T.And(L.entry, T.True)}
		for c, v := range L.base.mem {
			h.mem[c] = v
		}
		for _, m := range L.mus {
			if m.cell != nil {
				h.mem[*m.cell] = m.term
			}
		}
		u.loops = append(u.loops, L)
		u.heads = append(u.heads, h)
		add(fmt.Sprintf("L%d", L.id), u.pending(h))
	})
}

// expected: what a segment that ends under g started with.
func (u *buf) expected(g *Term, loops []*Loop) (want []string, total *Term) {
	for i := len(u.loops) - 1; i >= 0; i-- {
		L := u.loops[i]
		if unsatBDD(u.e, u.T.And(g, L.entry), nil) {
			continue
		}
		return []string{fmt.Sprintf("L%d", L.id)}, u.cell(u.heads[i], u.b.total)
	}
	want = []string{"pending"}
	if pairWrite(u.fn) {
		want = []string{"batch", "pending"}
	}
	return want, u.cell(&State{mem: map[Cell]*Term{}}, u.b.total)
}

func (u *buf) unfin(t *Term) *Term {
	if len(u.loops) == 0 {
		return t
	}
	return newMapper(u.e, func(t *Term) *Term {
		if t.op == "fin" {
			for _, L := range u.loops {
				if t.ref.(*Loop) == L {
					return u.unfin(t.args[0])
				}
			}
		}
		return nil
	}).Map(t)
}

// same: the same pairs, apart from empty ones.
func (u *buf) same(a, b []string, g *Term) bool {
	f := func(x []string) string {
		var out []string
		for _, n := range x {
			for _, s := range u.starts {
				if s.name == n && !u.equal(u.e.lenOf(s.p[0]), u.T.Zero, g) {
					out = append(out, n)
				}
			}
		}
		return strings.Join(out, " ")
	}
	return f(a) == f(b)
}

// judge decides one operation.
func (u *buf) judge() {
	c, e := u.c, u.e
	u.prepare()
	var writes []*Event
	var pts []point
	for _, l := range e.located(kinds("wblock")) {
		u.inside[l.ev] = l.loops
	}
	for _, l := range e.located(kinds("wblock", "rec")) {
		s := u.at[l.ev.key]
		if l.ev.kind == "wblock" {
			writes = append(writes, l.ev)
			want, _ := u.expected(l.ev.guard, l.loops)
			u.cases([]*Term{u.unfin(s.w[0]), u.unfin(s.w[1])}, l.ev.guard, func(ts []*Term, g *Term) {
				got, why := u.reduce(ts[0], ts[1], g, 0)
				c.ob(why == "" && u.same(got, want, g), "pairs", u.name+" block", l.ev.pos, "%s: the pairs given to the block writer are not those collected: %v %s, not %v", u.name, got, why, want)
			})
			c.ob(u.allAscending(u.unfin(s.w[0]), l.ev.guard), "order", u.name+" ascending", l.ev.pos, "%s: the IDs given to the block writer may not be ascending", u.name)
			continue
		}
		pts = append(pts, point{what: "recursive call", pos: l.ev.pos, g: l.ev.guard, st: s.st, ev: l.ev})
	}
	for i, L := range u.loops {
		pts = append(pts, point{what: "start of the loop", pos: L.pos, g: L.entry, st: L.base, L: L}, point{what: "end of a round", pos: L.pos, g: L.cont, st: L.back})
		_ = i
	}
	for _, r := range e.rets {
		r := r
		pts = append(pts, point{what: "return", pos: r.pos, g: u.leaving(r.guard), st: e.final, ret: &r})
	}
	for _, p := range pts {
		u.point(p, writes)
	}
}

// leaving adds to the condition of a return why each loop was left: what is
// known of the last, unfinished round.
func (u *buf) leaving(g *Term) *Term {
	T := u.T
	for _, L := range u.loops {
		out := T.Not(L.entry)
		for _, x := range L.exits {
			out = T.Or(out, T.And(x.post, x.guard))
		}
		g = T.And(g, out)
	}
	return g
}

// allAscending: in every case the elements of w ascend.
func (u *buf) allAscending(w, g *Term) bool {
	ok := true
	for _, leaf := range u.T.Leaves(w) {
		g := u.T.And(g, u.T.LeafGuard(w, leaf))
		if g == u.T.False || unsatBDD(u.e, g, nil) || u.scanned(leaf, g) {
			continue
		}
		u.cases([]*Term{leaf}, g, func(ts []*Term, g *Term) {
			ok = ok && u.ascending(ts[0], g)
		})
	}
	return ok
}

// headAscending: whenever a round of the loop starts, the pending IDs ascend.
func (u *buf) headAscending(i int) bool {
	if v, ok := u.headAsc[i]; ok {
		return v
	}
	u.headAsc[i] = true // by induction over the rounds
	L := u.loops[i]
	save := u.fixed
	u.fixed = nil
	T := u.T
	cont := L.cont
	for ev, ls := range u.inside {
		if s := u.at[ev.key]; hasLoop(ls, L) {
			cont = T.And(cont, T.Or(T.Not(s.part), T.Lt(T.Zero, s.n, kI64, true)))
		}
	}
	v1 := u.allAscending(u.unfin(T.Restrict(u.pending(L.base)[0], L.entry)), L.entry)
	v := v1 && u.allAscending(u.unfin(T.Restrict(u.pending(L.back)[0], cont)), cont)
	u.fixed = save
	if !v {
		u.headAsc = map[int]bool{}
	}
	u.headAsc[i] = v
	return v
}

func (u *buf) point(p point, writes []*Event) {
	c, e, T := u.c, u.e, u.T
	g := p.g
	// recursive calls on the way: nothing changes after them
	if p.ret != nil {
		for _, l := range e.located(kinds("rec")) {
			gr := T.And(g, l.ev.guard)
			if gr == T.False || unsatBDD(e, gr, nil) {
				continue
			}
			s := u.at[l.ev.key]
			for _, path := range []string{u.b.ids, u.b.vals, u.b.total} {
				a, b := T.Restrict(u.cell(p.st, path), gr), T.Restrict(u.cell(s.after, path), gr)
				c.ob(a == b, "pairs", u.name+" after recursion "+path, p.pos, "%s: the state changes after the recursive call", u.name)
			}
			v := p.ret.vals[errIndex(u.fn.Signature)]
			rv := l.ev.res[0]
			c.ob(unsatBDD(e, T.And(gr, T.And(T.Eq(v, T.Nil), T.Not(T.Eq(rv, T.Nil)))), nil), "pairs", u.name+" result of recursion", p.pos, "%s: the failure of the recursive call is not reported", u.name)
			g = T.And(g, T.Not(l.ev.guard))
		}
		if u.drain {
			gn := T.And(g, T.Eq(p.ret.vals[errIndex(u.fn.Signature)], T.Nil))
			if u.fn == u.b.close && u.b.done != "" {
				gn = T.And(gn, u.b.isOpen(u))
			}
			pe := u.pending(p.st)
			u.cases([]*Term{u.unfin(T.Restrict(pe[0], gn))}, gn, func(ts []*Term, g *Term) {
				c.ob(u.equal(e.lenOf(ts[0]), T.Zero, g), "pairs", u.name+" all written", p.pos, "%s returns success, but pairs stay behind: %v", u.name, ts[0].str(4))
			})
		}
	}
	none := g
	for _, w := range writes {
		if p.L != nil && hasLoop(u.inside[w], p.L) {
			continue
		}
		s := u.at[w.key]
		gw := T.And(g, w.guard)
		if gw == T.False || unsatBDD(e, gw, nil) {
			continue
		}
		none = T.And(none, T.Not(w.guard))
		n := e.lenOf(s.w[0])
		u.outcome(p, "written", T.And(gw, s.ok), func(I, V, g *Term) string {
			got, why := u.reduce(I, V, g, 0)
			if why == "" && len(got) > 0 {
				why = "pairs that were written stay pending"
			}
			return why
		}, n)
		u.outcome(p, "partly written", T.And(gw, s.part), func(I, V, g *Term) string { return u.suffix(I, V, s, g) }, s.n)
		u.outcome(p, "not written", T.And(gw, T.Not(T.Or(s.ok, s.part))), u.unchanged(p), nil)
		if p.ret != nil {
			v := p.ret.vals[errIndex(u.fn.Signature)]
			bad := T.And(gw, T.And(T.Not(T.Or(s.ok, s.part)), T.Eq(v, T.Nil)))
			c.ob(unsatBDD(e, bad, nil), "pairs", u.name+" failure", p.pos, "%s: a block that was not written is not reported", u.name)
		} else {
			c.ob(unsatBDD(e, T.And(gw, T.Not(T.Or(s.ok, s.part))), nil), "progress", u.name+" "+p.what, p.pos, "%s goes on although the block was not written", u.name)
		}
	}
	if p.ret == nil && p.L == nil {
		c.ob(unsatBDD(e, none, nil), "progress", u.name+" "+p.what, p.pos, "%s goes on without writing a block", u.name)
	}
	u.outcome(p, "nothing written", none, u.unchanged(p), nil)
}

func hasLoop(ls []*Loop, L *Loop) bool {
	for _, x := range ls {
		if x == L {
			return true
		}
	}
	return false
}

// unchanged: pending is what the segment started with.
func (u *buf) unchanged(p point) func(I, V, g *Term) string {
	return func(I, V, g *Term) string {
		var loops []*Loop
		want, _ := u.expectedAt(p, g, loops)
		got, why := u.reduce(I, V, g, 0)
		if why != "" || u.same(got, want, g) {
			return why
		}
		if p.ret != nil && u.same(got, []string{"pending"}, g) && pairWrite(u.fn) {
			// not accepted: an error, or nothing was given
			v := p.ret.vals[errIndex(u.fn.Signature)]
			some := u.T.Lt(u.T.Zero, u.e.lenOf(u.e.params[1]), kI64, true)
			if unsatBDD(u.e, u.T.And(g, u.T.And(u.T.Eq(v, u.T.Nil), some)), nil) {
				return ""
			}
		}
		return fmt.Sprintf("%v instead of %v are pending", got, want)
	}
}

func (u *buf) expectedAt(p point, g *Term, loops []*Loop) ([]string, *Term) {
	if p.L != nil { // before the loop
		return u.expectedBefore(p.L, g)
	}
	return u.expected(g, loops)
}

func (u *buf) expectedBefore(L *Loop, g *Term) ([]string, *Term) {
	save := u.loops
	for i, x := range u.loops {
		if x == L {
			u.loops = u.loops[:i]
		}
	}
	w, t := u.expected(g, nil)
	u.loops = save
	return w, t
}

// outcome decides one case at the end of a segment.
func (u *buf) outcome(p point, what string, g *Term, rule func(I, V, g *Term) string, more *Term) {
	T := u.T
	if g == T.False || unsatBDD(u.e, g, nil) {
		return
	}
	for i := len(u.loops) - 1; i >= 0; i-- {
		if p.L == u.loops[i] {
			continue
		}
		// entered or not
		in, out := T.And(g, u.loops[i].entry), T.And(g, T.Not(u.loops[i].entry))
		if !unsatBDD(u.e, in, nil) && !unsatBDD(u.e, out, nil) {
			u.outcome(p, what, in, rule, more)
			u.outcome(p, what, out, rule, more)
			return
		}
	}
	pe := u.pending(p.st)
	u.cases([]*Term{u.unfin(T.Restrict(pe[0], g)), u.unfin(T.Restrict(pe[1], g))}, g, func(ts []*Term, g *Term) {
		why := rule(ts[0], ts[1], g)
		u.c.ob(why == "", "pairs", u.name+" "+p.what+" "+what, p.pos, "%s, %s (%s): %s", u.name, p.what, what, why)
	})
	_, t0 := u.expectedAt(p, g, nil)
	if more != nil {
		t0 = T.Add(t0, u.unfin(more))
	}
	t1 := u.unfin(T.Restrict(u.cell(p.st, u.b.total), g))
	u.c.ob(u.e.same(t0, t1, g) || u.equal(t0, t1, g), "total", u.name+" "+p.what+" "+what, p.pos, "%s, %s (%s): the number of items written becomes %v, not %v", u.name, p.what, what, t1.str(5), t0.str(5))
}

// suffix: what is pending is what the block writer was given, without the
// first n.
func (u *buf) suffix(I, V *Term, s *snapAt, g *Term) string {
	T, e := u.T, u.e
	why := ""
	u.cases([]*Term{I, V, u.unfin(s.w[0]), u.unfin(s.w[1])}, g, func(ts []*Term, g *Term) {
		// the writer takes at least one and not all
		n := e.lenOf(ts[2])
		g = T.And(g, T.And(T.Lt(T.Zero, s.n, kI64, true), T.Lt(s.n, n, kI64, true)))
		k := T.Sym("k", kI64)
		rest := T.Sub(n, s.n)
		for i := 0; i < 2; i++ {
			if !u.equal(e.lenOf(ts[i]), rest, g) {
				why = fmt.Sprintf("%v pairs stay pending, not %v", e.lenOf(ts[i]).str(5), rest.str(5))
				return
			}
			if a, b := ts[i], ts[2+i]; a.op == "snap" && b.op == "snap" && a.args[0] == b.args[0] && u.equal(a.args[1], T.Add(b.args[1], s.n), g) {
				continue
			}
			gk := T.And(g, T.And(T.Not(T.Lt(k, T.Zero, kI64, true)), T.Lt(k, rest, kI64, true)))
			et := types.Type(types.Typ[types.Uint64])
			if i == 1 {
				et = types.Typ[types.Int64]
			}
			a, w1 := u.at1(ts[i], k, gk, et)
			b, w2 := u.at1(ts[2+i], T.Add(s.n, k), gk, et)
			if w1+w2 != "" {
				why = w1 + w2
				return
			}
			if a != b && !e.same(a, b, gk) {
				why = fmt.Sprintf("pending element k is %v, not %v", a.str(5), b.str(5))
				return
			}
		}
	})
	return why
}

// ascending: the elements of I ascend whenever g holds.
func (u *buf) ascending(I, g *Term) bool {
	T, e := u.T, u.e
	n := e.lenOf(I)
	if u.equal(n, T.Zero, g) || u.equal(n, T.Int(1), g) {
		return true
	}
	k := T.Sym("k", kI64)
	gk := T.And(g, T.And(T.Not(T.Lt(k, T.Zero, kI64, true)), T.Lt(T.Add(k, T.Int(1)), n, kI64, true)))
	u64 := types.Typ[types.Uint64]
	x, w1 := u.at1(I, k, gk, u64)
	y, w2 := u.at1(I, T.Add(k, T.Int(1)), gk, u64)
	if w1+w2 != "" {
		return false
	}
	desc := T.Lt(y, x, kU64, false)
	if unsatBDD(e, T.And(gk, desc), nil) {
		return true
	}
	if u.asked(x, y, n, gk) {
		return true
	}
	// neighbours in the pending IDs at the start of a round
	for i := range u.loops {
		h := u.starts[len(u.starts)-len(u.loops)+i].p[0]
		hn := e.lenOf(h)
		if x.op != "sel" && x.op != "elem" {
			continue
		}
		// x is h[j] with j the index less that of the first element
		z, w := u.at1(h, T.Zero, gk, u64)
		if w != "" || z.op != x.op || z.args[0] != x.args[0] {
			continue
		}
		j := T.Sub(x.args[1], z.args[1])
		if a, w := u.at1(h, T.Add(j, T.Int(1)), gk, u64); w != "" || a != y {
			continue
		}
		p := newProver(e, gk, nil)
		if p.le(T.Zero, j) && p.lt(T.Add(j, T.Int(1)), hn) && u.headAscending(i) {
			return true
		}
	}
	// sorted: no later element is less than an earlier one
	if so := findSorted(x, k); so != nil {
		if so.args[1] == T.Zero && u.equal(so.args[2], n, g) {
			a, b := T.Sym("sort.a", 0), T.Sym("sort.b", 0)
			xa, yb := replaceTerm(e, x, e.sel1(so, k, nil), a), replaceTerm(e, x, e.sel1(so, k, nil), b)
			cmp := so.args[3]
			// b sorts before a whenever its ID is less
			sw := swapTerms(e, cmp, a, b)
			if unsatBDD(e, T.And(T.Lt(yb, xa, kU64, false), T.Not(sw)), nil) {
				return true
			}
		}
	}
	return u.scanned(I, g)
}

// atFixed maps a condition as the shapes were.
func (u *buf) atFixed(t *Term) *Term {
	if len(u.fixed) == 0 {
		return t
	}
	return newMapper(u.e, func(t *Term) *Term {
		switch t.op {
		case "snap", "appseq", "sel", "elem":
			for _, f := range u.fixed {
				t = u.fix(t, f.atom, f.val)
			}
			return t
		}
		return nil
	}).Map(t)
}

// asked: a library function said that the n elements are sorted; x and y are
// those at k and k+1.
func (u *buf) asked(x, y, n, gk *Term) bool {
	T, e := u.T, u.e
	k := T.Sym("k", kI64)
	u64 := types.Typ[types.Uint64]
	pos, _ := T.ForcedLiterals(gk)
	for _, a := range pos {
		if a.op != "issorted" || !u.equal(a.args[2], n, gk) {
			continue
		}
		c := u.unfin(a.args[0])
		for _, f := range u.fixed {
			c = u.fix(c, f.atom, f.val)
		}
		i := T.Add(a.args[1], k)
		p, w1 := u.contentAt(c, i, gk, u64)
		q, w2 := u.contentAt(c, T.Add(i, T.Int(1)), gk, u64)
		if w1+w2 != "" || p != x || q != y {
			continue
		}
		cmp := a.args[3] // not for q and p, in this order
		sa, sb := T.Sym("sort.a", kU64), T.Sym("sort.b", kU64)
		less := replaceTerm(e, replaceTerm(e, cmp, sa, y), sb, x)
		if unsatBDD(e, T.And(T.Lt(y, x, kU64, false), T.Not(less)), nil) {
			return true
		}
	}
	return false
}

// scanned: a loop looked at all neighbours and left at its end.
func (u *buf) scanned(I, g *Term) bool {
	T, e := u.T, u.e
	u64 := types.Typ[types.Uint64]
	n := e.lenOf(I)
	ok := false
	e.walk(e.trace, func(it *Item, _ []*Loop) {
		L := it.Loop
		if ok || L == nil || L.trip == nil {
			return
		}
		if !unsatBDD(e, T.And(g, T.Not(L.entry)), nil) {
			return
		}
		for _, x := range L.exits {
			if !x.header && !unsatBDD(e, T.And(g, x.post), nil) {
				return
			}
		}
		for c := int64(0); c < 2 && !ok; c++ {
			// round K looks at the elements K-c and K-c+1
			if p := newProver(e, g, nil); !p.le(T.Add(n, T.Int(c-1)), L.trip) {
				continue
			}
			i := T.Sub(L.K, T.Int(c))
			cont := T.And(u.atFixed(L.cont), T.And(T.Not(T.Lt(i, T.Zero, kI64, true)), T.Lt(T.Add(i, T.Int(1)), n, kI64, true)))
			x, w1 := u.at1(I, i, T.And(cont, g), u64)
			y, w2 := u.at1(I, T.Add(i, T.Int(1)), T.And(cont, g), u64)
			if w1+w2 != "" {
				continue
			}
			if c > 0 {
				// what the round before left
				cont = newMapper(e, func(t *Term) *Term {
					if m := L.mu(t); m != nil && !m.ind {
						v := e.subst(m.next, L.K, T.Sub(L.K, T.Int(1)))
						for _, o := range L.mus {
							if !o.ind && containsTerm(v, o.term) {
								return nil
							}
						}
						return u.atFixed(v)
					}
					return nil
				}).Map(cont)
			}
			ok = unsatBDD(e, T.And(T.And(cont, g), T.Lt(y, x, kU64, false)), nil)
		}
	})
	return ok
}

// findSorted finds the sorted array whose element k the term looks at.
func findSorted(t, k *Term) *Term {
	if t.op == "sel" && t.args[0].op == "sorted" && t.args[1] == k {
		return t.args[0]
	}
	for _, a := range t.args {
		if r := findSorted(a, k); r != nil {
			return r
		}
	}
	return nil
}

func replaceTerm(e *Eng, t, a, b *Term) *Term {
	return newMapper(e, func(x *Term) *Term {
		if x == a {
			return b
		}
		return nil
	}).Map(t)
}

func swapTerms(e *Eng, t, a, b *Term) *Term {
	return newMapper(e, func(x *Term) *Term {
		switch x {
		case a:
			return b
		case b:
			return a
		}
		return nil
	}).Map(t)
}

func runSimple(c *Ctx) {
	for _, b := range c.P.bufTypes() {
		c.ob(b.close != nil && b.total != "" && !strings.Contains(b.ids+b.vals, "?") && b.ids != "" && b.vals != "", "state", b.n.Obj().Name(), b.n.Obj().Pos(), "the state of %s is not clear: IDs %q, values %q, items %q", b.n.Obj().Name(), b.ids, b.vals, b.total)
		done := map[string]bool{}
		for _, fn := range b.methods {
			if errIndex(fn.Signature) < 0 {
				continue
			}
			c.mutual(b, fn, nil, fn == b.close, done)
		}
	}
}

// mutual decides an operation and what it calls recursively: what is shown of
// an operation may be assumed of its recursive calls, which come after a
// block was written in part and so have fewer pairs to work on. A call with
// constant arguments is decided for these arguments.
func (c *Ctx) mutual(b *bufType, fn *ssa.Function, args []string, drain bool, done map[string]bool) {
	key := fmt.Sprint(fn.String(), args, drain)
	if done[key] {
		return
	}
	done[key] = true
	u := c.bufRun(b, fn, args)
	u.drain = drain
	if os.Getenv("VDEBUG") != "" {
		u.e.dumpItems(u.e.trace, "")
		for _, r := range u.e.rets {
			fmt.Println("RET", c.P.Pos(r.pos), r.guard.str(6), r.vals[0].str(5))
		}
	}
	if os.Getenv("VDEBUG") != "" {
		u.prepare()
		for i, L := range u.loops {
			for _, m := range L.mus {
				fmt.Println("MU", i, m.name, m.cell, "INIT", m.init.str(6), "NEXT", m.next.str(8))
			}
			fmt.Println("HEAD", u.starts[len(u.starts)-len(u.loops)+i].p[0].str(5))
		}
		for c, v := range u.e.final.mem {
			if strings.HasSuffix(c.path, "*[]") {
				fmt.Println("FINAL", c.obj, c.path, v.str(6))
			}
		}
		u.starts, u.loops, u.heads = nil, nil, nil
	}
	u.judge()
	for _, l := range u.e.located(kinds("rec")) {
		f := u.recs[l.ev.key]
		var as []string
		for i, p := range f.Params {
			a := u.T.Restrict(l.ev.args[i], l.ev.guard)
			bt, _ := p.Type().Underlying().(*types.Basic)
			switch {
			case bt != nil && bt.Kind() == types.Bool && (a == u.T.True || a == u.T.False):
				as = append(as, fmt.Sprint(a == u.T.True))
			case bt != nil && kindOf(p.Type()) != 0 && a.isInt():
				as = append(as, fmt.Sprint(a.n))
			default:
				as = append(as, "")
			}
		}
		if recvNamed(f) != b.n {
			c.fail("recursion", u.name+" "+shortFn(f), l.ev.pos, "%s: the recursive function %s is no method of %s", u.name, shortFn(f), b.n.Obj().Name())
			continue
		}
		c.mutual(b, f, as, drain, done)
	}
}

// ---- the life of a buffering writer (C21) ----

func init() {
	register(&Check{ID: "C21", Level: "proof", Run: runLife, Min: 20})
}

// changed tells what an operation may change under g.
func (u *buf) changed(g *Term, except func(c Cell) bool) string {
	for c, v := range u.e.final.mem {
		if c.obj.fresh || except != nil && except(c) || strings.Contains(c.path, "$") {
			continue
		}
		w := u.T.Restrict(v, g)
		if w.op == "arr" && strings.HasSuffix(c.path, "*[]") || w == u.T.Restrict(u.e.initCell(c, u.e.cells[c]), g) {
			continue
		}
		return strings.TrimPrefix(c.path, ".")
	}
	for _, l := range u.e.located(kinds("wblock", "rec", "api", "write", "seek", "sync", "close", "truncate", "open", "globalstore", "dyncall", "bm", "send", "chanclose")) {
		if gl := u.T.And(g, l.ev.guard); gl != u.T.False && !unsatBDD(u.e, gl, nil) {
			return l.ev.kind + " " + l.ev.callee
		}
	}
	return ""
}

func (b *bufType) isOpen(u *buf) *Term {
	return u.T.Not(u.closed(&State{mem: map[Cell]*Term{}}))
}

// closed: whether the writer counts as closed.
func (u *buf) closed(st *State) *Term {
	v := u.cell(st, u.b.done)
	if u.b.neg {
		v = u.T.Not(v)
	}
	return v
}

func runLife(c *Ctx) {
	for _, b := range c.P.bufTypes() {
		nm := b.n.Obj().Name()
		c.ob(b.close != nil && b.done != "" && b.total != "" && b.ids != "" && b.vals != "" && !strings.Contains(b.ids+b.vals, "?"), "state", nm, b.n.Obj().Pos(), "the state of %s is not clear", nm)
		if b.done == "" || b.total == "" || b.ids == "" || b.vals == "" {
			continue
		}
		for _, fn := range b.methods {
			c.life(b, fn)
		}
		for _, fn := range b.ctors {
			c.newborn(b, fn)
		}
		c.ob(len(b.ctors) > 0, "ctor", nm, b.n.Obj().Pos(), "nothing makes a %s", nm)
	}
}

func (c *Ctx) life(b *bufType, fn *ssa.Function) {
	u := c.bufRun(b, fn, nil)
	e, T := u.e, u.T
	open := b.isOpen(u)
	ei := errIndex(fn.Signature)
	some := func(g *Term) bool { return g != T.False && !unsatBDD(e, g, nil) }
	if ei < 0 {
		c.ob(u.changed(T.True, nil) == "", "query", u.name, fn.Pos(), "%s changes %s", u.name, u.changed(T.True, nil))
		return
	}
	closing := map[*Event]bool{}
	for _, l := range e.located(kinds("api", "close")) {
		if l.ev.kind == "close" || l.ev.typ == c.P.writerType() && strings.Contains(l.ev.callee, "Close") {
			closing[l.ev] = true
		}
	}
	done := u.closed(e.final)
	for _, r := range e.rets {
		v := r.vals[ei]
		okG := T.And(r.guard, T.Eq(v, T.Nil))
		badG := T.And(r.guard, T.Not(T.Eq(v, T.Nil)))
		// when closed already
		if g := T.And(r.guard, T.Not(open)); some(g) {
			if fn == b.close {
				c.ob(!some(T.And(badG, T.Not(open))), "again", u.name, r.pos, "%s fails when called a second time", u.name)
			} else {
				c.ob(!some(T.And(okG, T.Not(open))), "closed", u.name, r.pos, "%s may succeed after the writer was closed", u.name)
			}
			w := u.changed(g, nil)
			c.ob(w == "", "closed", u.name+" unchanged", r.pos, "%s changes %s although the writer is closed", u.name, w)
		}
		if fn == b.close {
			// a Close that fails leaves it open
			q := r
			q.guard = T.And(badG, open)
			u.staysOpen(q, map[*ssa.Function]bool{fn: true})
			g := T.And(okG, open)
			if some(g) {
				c.ob(T.Restrict(done, g) == T.True, "close", u.name, r.pos, "%s succeeds, but the writer does not count as closed", u.name)
				n := T.False
				for ev := range closing {
					gw := T.And(g, ev.guard)
					if ev.kind == "api" {
						if ev.errIdx >= 0 && some(T.And(gw, T.Not(T.Eq(ev.res[ev.errIdx], T.Nil)))) {
							c.fail("close", u.name+" failure", r.pos, "%s succeeds although %s failed", u.name, ev.callee)
						}
					}
					n = T.Or(n, gw)
				}
				c.ob(!some(T.And(g, T.Not(n))), "close", u.name+" file", r.pos, "%s succeeds without closing the file", u.name)
			}
			continue
		}
		u.staysOpen(r, map[*ssa.Function]bool{fn: true})
		if pairWrite(fn) {
			n1, n2 := e.lenOf(e.params[1]), e.lenOf(e.params[2])
			neq := T.Not(T.Eq(n1, n2))
			if g := T.And(r.guard, T.And(open, neq)); some(g) {
				c.ob(!some(T.And(okG, T.And(open, neq))), "lengths", u.name, r.pos, "%s may accept IDs and values of different number", u.name)
				w := u.changed(g, nil)
				c.ob(w == "", "lengths", u.name+" unchanged", r.pos, "%s changes %s although the numbers of IDs and values differ", u.name, w)
			}
			none := T.And(T.Eq(n1, T.Zero), T.Eq(n1, n2))
			if g := T.And(r.guard, T.And(open, none)); some(g) {
				c.ob(!some(T.And(badG, T.And(open, none))), "empty", u.name, r.pos, "%s fails without any pairs", u.name)
				w := u.changed(g, nil)
				c.ob(w == "", "empty", u.name+" unchanged", r.pos, "%s changes %s without any pairs", u.name, w)
			}
		} else if fn.Signature.Params().Len() == 1 && isInt(fn.Signature.Params().At(0).Type()) {
			c.target(b, u, &r, T.And(okG, open), T.And(badG, open))
		}
	}
	all := e.located(kinds("api", "close", "wblock", "rec"))
	for _, l := range all {
		if closing[l.ev] && fn != b.close {
			c.fail("open", u.name+" file", l.ev.pos, "%s closes the file", u.name)
		}
		for _, m := range all {
			if closing[m.ev] && m.ev != l.ev && after(l.path, m.path) {
				c.ob(!some(T.And(l.ev.guard, m.ev.guard)), "close", u.name+" last", l.ev.pos, "%s goes on after it closed the file", u.name)
			}
		}
	}
}

// staysOpen: an operation other than Close does not close the writer; what it
// calls recursively does not either.
func (u *buf) staysOpen(r Ret, seen map[*ssa.Function]bool) {
	c, e, T, b := u.c, u.e, u.T, u.b
	was := u.closed(&State{mem: map[Cell]*Term{}})
	keeps := func(v *Term, g *Term) {
		if g != T.False && !unsatBDD(e, g, nil) {
			c.ob(T.Restrict(v, g) == T.Restrict(was, g), "open", u.name, r.pos, "%s closes or opens the writer", u.name)
		}
	}
	g := r.guard
	for _, l := range e.located(kinds("rec")) {
		gr := T.And(g, l.ev.guard)
		if gr == T.False || unsatBDD(e, gr, nil) {
			continue
		}
		s := u.at[l.ev.key]
		keeps(u.closed(s.st), gr)
		now := T.Restrict(u.closed(e.final), gr)
		c.ob(now == T.Restrict(was, gr) || now == T.Restrict(u.closed(s.after), gr), "open", u.name, r.pos, "%s closes or opens the writer", u.name)
		if f := u.recs[l.ev.key]; !seen[f] {
			seen[f] = true
			v := c.bufRun(b, f, nil)
			for _, q := range v.e.rets {
				v.staysOpen(q, seen)
			}
		}
		g = T.And(g, T.Not(l.ev.guard))
	}
	keeps(u.closed(e.final), g)
}

// target: the size given is the one that the file writer uses.
func (c *Ctx) target(b *bufType, u *buf, r *Ret, okG, badG *Term) {
	e, T := u.e, u.T
	path := c.P.optionField("pkg/col", "WithBlockSize")
	if path == "" {
		return
	}
	if okG != T.False && !unsatBDD(e, okG, nil) {
		var got *Term
		for cell, v := range e.final.mem {
			if cell.path == path && cell.obj != u.recv {
				got = T.Restrict(v, okG)
			}
		}
		size := e.params[1]
		ok := got != nil
		c.ob(ok && u.equal(got, size, okG), "target", u.name, r.pos, "%s succeeds, but the block size of the file writer is not the one given", u.name)
	}
	if badG != T.False && !unsatBDD(e, badG, nil) {
		w := u.changed(badG, nil)
		c.ob(w == "", "target", u.name+" refused", r.pos, "%s fails, but changes %s", u.name, w)
	}
}

// newborn: a new writer is open and holds nothing.
func (c *Ctx) newborn(b *bufType, fn *ssa.Function) {
	e := c.analyse(fn, Policy{Call: composed}, nil)
	T := e.T
	ei := errIndex(fn.Signature)
	nm := shortFn(fn)
	for _, r := range e.rets {
		g := r.guard
		if ei >= 0 {
			g = T.And(g, T.Eq(r.vals[ei], T.Nil))
		}
		if g == T.False || unsatBDD(e, g, nil) {
			continue
		}
		for _, l := range e.located(kinds("api", "open")) {
			ev := l.ev
			if ev.errIdx >= 0 && ev.errIdx < len(ev.res) {
				x := T.And(T.And(g, ev.guard), T.Not(T.Eq(ev.res[ev.errIdx], T.Nil)))
				c.ob(x == T.False || unsatBDD(e, x, nil), "ctor", nm+" failure", r.pos, "%s succeeds although %s failed", nm, ev.callee)
			}
		}
		o := T.Restrict(r.vals[0], g)
		c.ob(o.op == "addr" && o.ref.(*Obj).fresh, "ctor", nm, r.pos, "%s does not return a new writer", nm)
		if o.op != "addr" {
			continue
		}
		val := func(path string) *Term {
			u := &buf{b: b, e: e, T: T, recv: o.ref.(*Obj)}
			if v := e.final.mem[Cell{u.recv, path}]; v != nil {
				return T.Restrict(v, g)
			}
			return e.zero(u.fieldType(path))
		}
		fresh := val(b.done)
		if b.neg {
			fresh = T.Not(fresh)
		}
		c.ob(fresh == T.False, "ctor", nm+" open", r.pos, "%s: a new writer counts as closed", nm)
		c.ob(val(b.total) == T.Zero, "ctor", nm+" total", r.pos, "%s: a new writer has written items", nm)
		for _, p := range []string{b.ids, b.vals} {
			x := val(p)
			c.ob(x == T.Nil || e.lenOf(x) == T.Zero, "ctor", nm+" pending", r.pos, "%s: a new writer holds pairs", nm)
		}
	}
}
