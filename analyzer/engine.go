package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Obj is an abstract memory object: an allocation site in a calling context,
// or the pointee of an opaque pointer term.
type Obj struct {
	id       int
	name     string
	fresh    bool  // allocated by the analysed code: starts zeroed, unaliased
	root     *Term // for opaque pointees / opaque slices: the pointer (slice) term
	typ      types.Type
	loopDeps []int32
	pos      token.Pos
	spawn    *Spawn // goroutine in which it was allocated
}

type Cell struct {
	obj  *Obj
	path string
}

func (c Cell) String() string { return c.obj.name + c.path }

type deferRec struct {
	guard *Term
	call  *ssa.CallCommon
	fn    *Term
	args  []*Term
	ctx   string
	pos   token.Pos
	info  *callInfo
	fr    *Frame
}

type State struct {
	guard  *Term
	mem    map[Cell]*Term
	env    map[ssa.Value]*Term
	defers []deferRec
}

func (s *State) clone() *State {
	n := &State{guard: s.guard, mem: make(map[Cell]*Term, len(s.mem)+8), env: make(map[ssa.Value]*Term, len(s.env)+8)}
	for k, v := range s.mem {
		n.mem[k] = v
	}
	for k, v := range s.env {
		n.env[k] = v
	}
	n.defers = append([]deferRec(nil), s.defers...)
	return n
}

type Frame struct {
	fn     *ssa.Function
	ctx    string
	parent *Frame
	stack  []token.Pos
	free   []*Term
	loops  *loopForest
	depth  int
	spawn  *Spawn
	// values that may be restricted for this frame's parameters
}

// Event is an operation with an effect (or an opaque result).
type Event struct {
	id       int
	key      string
	kind     string
	callee   string
	args     []*Term // value arguments (receiver first)
	seqs     []*Term // snapshots of slice arguments, where they matter
	guard    *Term
	res      []*Term
	errIdx   int // index of the error result, -1 if none
	pos      token.Pos
	fn       *ssa.Function
	stack    []token.Pos
	loops    []*Loop
	loopDeps []int32
	spawn    *Spawn
	fpos     *Term // file position before a write
	size     *Term // number of bytes written or read
	width    int
	note     string
	seqNo    int
	typ      types.Type
	havoc    map[*Obj]bool
}

func (e *Event) short() string { return fmt.Sprintf("%s#%d", e.kind, e.id) }

// Err is the error result of the event (nil when it has none).
func (e *Event) Err() *Term {
	if e.errIdx < 0 || e.errIdx >= len(e.res) {
		return nil
	}
	return e.res[e.errIdx]
}

type Item struct {
	Ev    *Event
	Loop  *Loop
	Spawn *Spawn
}

type Spawn struct {
	id    int
	start int // sequence number at the go statement
	key   string
	guard *Term
	body  []*Item
	pos   token.Pos
	fn    *ssa.Function
	loops []*Loop
	bound []*Term // closure bindings
	args  []*Term
	end   *State
}

type MuCell struct {
	name  string
	term  *Term // the value at the start of an iteration
	init  *Term
	next  *Term
	ind   bool
	cell  *Cell
	phi   *ssa.Phi
	typ   types.Type
	conts []contVal
}
type contVal struct{ guard, val *Term }

type LoopExit struct {
	guard  *Term // full guard (entry guard included) within the iteration
	from   *ssa.BasicBlock
	to     *ssa.BasicBlock
	header bool // taken by the loop header's own test
	isRet  bool
	X      *Term // condition after the loop that selects this exit
	idx    int
	rets   []*Term // for returns: values before wrapping
	pos    token.Pos
	post   *Term // guard after the loop
}

type Loop struct {
	id        int
	key       string
	fn        *ssa.Function
	header    *ssa.BasicBlock
	outerDeps []int32
	outer     []*Loop
	mus       []*MuCell
	body      []*Item
	exits     []*LoopExit
	entry     *Term // guard at entry
	cont      *Term // guard at the back edges
	pos       token.Pos
	spawn     *Spawn
	trip      *Term // trip count when the header test is an induction test
	tripNN    bool
	K         *Term
	rounds    int
	base      *State // before the loop
	back      *State // at the end of a round
}

func (l *Loop) selfDeps() []int32 { return unionDeps(l.outerDeps, []int32{int32(l.id)}) }

func (l *Loop) mu(t *Term) *MuCell {
	for _, m := range l.mus {
		if m.term == t {
			return m
		}
	}
	return nil
}

// Ret is a return of the root function.
type Ret struct {
	guard *Term
	vals  []*Term
	pos   token.Pos
	seqNo int
}

type Policy struct {
	// opaque: treat the call as an event/pure term instead of inlining; returns
	// handled=false to let the engine inline.
	Call func(e *Eng, fr *Frame, st *State, c *callInfo) (res []*Term, handled bool)
	// InitCell overrides the initial contents of a cell of an opaque object.
	InitCell func(e *Eng, c Cell, t types.Type) *Term
	// Loads records loads as well as stores: 1 of memory that was not
	// allocated by the analysed code, 2 of all memory.
	Loads int
	// Compose answers reads of the file from what was written (compose.go).
	Compose *composer
}

type Eng struct {
	wraps map[*Term]int64 // the case: by how much a sum wraps around
	T        *Terms
	P        *Prog
	pol      Policy
	objs     map[string]*Obj
	loopTab  map[string]*Loop
	evTab    map[string]*Event
	spTab    map[string]*Spawn
	trace    []*Item
	rets     []Ret
	retVals  []*Term
	final    *State
	loopStk  []*Loop
	spawn    *Spawn
	seq      int
	cells    map[Cell]types.Type
	bounds   []*BoundOb
	stores   []*StoreOb
	unsupp   []string
	steps    int
	entry    *State
	params   []*Term
	forests  map[*ssa.Function]*loopForest
	noBounds bool
	root     *ssa.Function
	narrow   []*NarrowOb
	exits    []exitPoint
	axioms   []linFact
	muInv    map[*Term][]linFact

	// composition mode
	cmp        *composer
	cur        *State
	decMemo    map[[2]int]decided
	blackGuess map[[2]int]bool
	noShape    map[*Term]bool
	loopVar    map[any]*MuCell
	loopBase   *State
	bvMemo     map[*Term]bvInfo
	loopFacts  []loopFact
	provers    map[int]cachedProver
	gens       map[*Term]*Term
	axVer      int
}

type exitPoint struct {
	ev *Event
	st *State
}

// BoundOb is an index or slice bound that the code relies on.
type BoundOb struct {
	kind  string // "index", "slice", "make"
	guard *Term
	idx   *Term // index, or low bound
	hi    *Term
	len   *Term
	pos   token.Pos
	fn    *ssa.Function
	stack []token.Pos
	loops []*Loop
}

// StoreOb is a store to memory.
type StoreOb struct {
	guard *Term
	addr  *Term
	pos   token.Pos
	fn    *ssa.Function
	spawn *Spawn
	load  bool
	held  map[string]*Term // locks: 2 held, 1 held for reading
	seqNo int
	loops []*Loop
	app   bool // into the spare capacity behind a slice
}

type NarrowOb struct {
	guard *Term
	val   *Term
	kind  Kind
	pos   token.Pos
	fn    *ssa.Function
	loops []*Loop
}

func NewEng(P *Prog, pol Policy) *Eng {
	e := &Eng{T: NewTerms(), P: P, pol: pol, objs: map[string]*Obj{}, loopTab: map[string]*Loop{}, evTab: map[string]*Event{},
		spTab: map[string]*Spawn{}, cells: map[Cell]types.Type{}, forests: map[*ssa.Function]*loopForest{}, muInv: map[*Term][]linFact{}}
	if pol.Compose != nil {
		e.cmp = pol.Compose
		e.cmp.e, e.cmp.P = e, P
		e.T.cmp = true
	}
	return e
}

func (e *Eng) curDeps() []int32 {
	if len(e.loopStk) == 0 {
		return nil
	}
	return e.loopStk[len(e.loopStk)-1].selfDeps()
}

func (e *Eng) unsupported(format string, a ...any) {
	s := fmt.Sprintf(format, a...)
	for _, x := range e.unsupp {
		if x == s {
			return
		}
	}
	e.unsupp = append(e.unsupp, s)
}

// ---- objects and cells ----

func (e *Eng) freshObj(key, name string, t types.Type, pos token.Pos) *Obj {
	if o, ok := e.objs[key]; ok {
		return o
	}
	o := &Obj{id: len(e.objs) + 1, name: name, fresh: true, typ: t, loopDeps: e.curDeps(), pos: pos, spawn: e.spawn}
	o.name = fmt.Sprintf("%s%d", name, o.id)
	e.objs[key] = o
	return o
}

func (e *Eng) rootObj(p *Term, t types.Type) *Obj {
	key := "root:" + strconv.Itoa(p.id)
	if o, ok := e.objs[key]; ok {
		return o
	}
	o := &Obj{id: len(e.objs) + 1, name: p.str(3), root: p, typ: t, loopDeps: p.deps}
	e.objs[key] = o
	return o
}

func (e *Eng) addr(o *Obj, path string) *Term { return e.T.Op("addr", path, 0, o) }

func (e *Eng) zero(t types.Type) *Term {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return e.T.False
		case u.Info()&types.IsInteger != 0:
			return e.T.Zero
		case u.Info()&types.IsString != 0:
			return e.T.Str("")
		case u.Info()&types.IsFloat != 0:
			return e.T.Float(0)
		}
		return e.T.Nil
	case *types.Struct:
		var fs []*Term
		for i := 0; i < u.NumFields(); i++ {
			fs = append(fs, e.zero(u.Field(i).Type()))
		}
		return e.mkStruct(t, fs)
	case *types.Array:
		return e.T.Op("zeros", "", 0, u.Elem())
	}
	return e.T.Nil
}

func (e *Eng) mkStruct(t types.Type, fs []*Term) *Term {
	// struct of fields of the same opaque struct is that struct
	if len(fs) > 0 && fs[0].op == "field" && fs[0].n == 0 {
		base := fs[0].args[0]
		same := true
		for i, f := range fs {
			if f.op != "field" || f.n != int64(i) || f.args[0] != base {
				same = false
			}
		}
		if same {
			return base
		}
	}
	return e.T.Op("struct", "", 0, t, fs...)
}

func (e *Eng) field(s *Term, t types.Type, i int) *Term {
	st := t.Underlying().(*types.Struct)
	ft := st.Field(i).Type()
	return e.T.Lift("field"+strconv.Itoa(i)+"/"+strconv.Itoa(e.T.refID(st)), func(x []*Term) *Term {
		if x[0].op == "struct" {
			return x[0].args[i]
		}
		r := e.T.mk(&Term{op: "field", aux: st.Field(i).Name(), n: int64(i), args: []*Term{x[0]}, kind: kindOf(ft)})
		return e.boolify(r, ft)
	}, s)
}

// boolify puts a boolean-typed opaque term into diagram form.
func (e *Eng) boolify(t *Term, ty types.Type) *Term {
	if ty != nil && isBoolType(ty) {
		return e.T.Atom(t)
	}
	return t
}

func (e *Eng) initCell(c Cell, t types.Type) *Term {
	if e.pol.InitCell != nil {
		if v := e.pol.InitCell(e, c, t); v != nil {
			return v
		}
	}
	if c.obj.fresh {
		return e.zero(t)
	}
	// initial contents of an opaque pointee
	s := e.T.mk(&Term{op: "init", aux: c.path, ref: c.obj, kind: kindOf(t)})
	return e.boolify(s, t)
}

func (e *Eng) readCell(st *State, c Cell, t types.Type) *Term {
	if s, ok := t.Underlying().(*types.Struct); ok {
		if v, ok := st.mem[c]; ok {
			return e.T.Restrict(v, st.guard)
		}
		if s.NumFields() == 0 {
			return e.zero(t)
		}
		var fs []*Term
		for i := 0; i < s.NumFields(); i++ {
			fs = append(fs, e.readCell(st, Cell{c.obj, c.path + "." + s.Field(i).Name()}, s.Field(i).Type()))
		}
		// lift guarded fields into a guarded struct only when they share atoms
		return e.mkStruct(t, fs)
	}
	if _, ok := t.Underlying().(*types.Array); ok {
		return e.readContent(st, Cell{c.obj, c.path + "[]"}, t)
	}
	v, ok := st.mem[c]
	if !ok {
		v = e.initCell(c, t)
		e.cells[c] = t
		st.mem[c] = v
	}
	return e.T.Restrict(v, st.guard)
}

func (e *Eng) writeCell(st *State, c Cell, t types.Type, v *Term) {
	if s, ok := t.Underlying().(*types.Struct); ok && s.NumFields() > 0 {
		for i := 0; i < s.NumFields(); i++ {
			e.writeCell(st, Cell{c.obj, c.path + "." + s.Field(i).Name()}, s.Field(i).Type(), e.field(v, t, i))
		}
		return
	}
	if _, ok := t.Underlying().(*types.Array); ok {
		st.mem[Cell{c.obj, c.path + "[]"}] = v
		e.cells[Cell{c.obj, c.path + "[]"}] = t
		return
	}
	st.mem[c] = v
	e.cells[c] = t
}

// contents of arrays (backing stores of slices)
func (e *Eng) readContent(st *State, c Cell, t types.Type) *Term {
	v, ok := st.mem[c]
	if !ok {
		if c.obj.fresh {
			var et types.Type
			if a, ok := c.obj.typ.Underlying().(*types.Array); ok && c.path == "[]" {
				et = a.Elem()
			} else if sl, ok := c.obj.typ.Underlying().(*types.Slice); ok {
				et = sl.Elem()
			} else if t != nil {
				if a, ok := t.Underlying().(*types.Array); ok {
					et = a.Elem()
				}
			}
			if et == nil {
				et = types.Typ[types.Invalid]
			}
			v = e.T.Op("zeros", "", 0, et)
		} else if c.path == "*[]" {
			v = e.T.Op("arr", "", 0, nil, c.obj.root)
		} else {
			v = e.T.mk(&Term{op: "init", aux: c.path, ref: c.obj})
		}
		st.mem[c] = v
		e.cells[c] = t
	}
	return e.T.Restrict(v, st.guard)
}

// sel reads element idx of an array content term.
func (e *Eng) sel(content, idx *Term, et types.Type) *Term {
	if e.cmp != nil {
		if idx = e.T.Restrict(idx, e.guard()); idx.op == "ite" {
			if r := e.cmp.branch(idx, func(x *Term) *Term { return e.selC(content, x, et) }); r != nil {
				return r
			}
		}
		return e.T.Lift("", func(x []*Term) *Term { return e.selC(x[0], x[1], et) }, content, idx)
	}
	return e.T.Lift("sel"+strconv.Itoa(e.T.refID(et)), func(x []*Term) *Term { return e.sel1(x[0], x[1], et) }, content, idx)
}

func (e *Eng) sel1(c, idx *Term, et types.Type) *Term {
	for {
		switch c.op {
		case "upd":
			d := e.T.Eq(c.args[1], idx)
			if d == e.T.True {
				return c.args[2]
			}
			if d == e.T.False {
				c = c.args[0]
				if c.op == "ite" {
					return e.sel(c, idx, et)
				}
				continue
			}
		case "zeros":
			if et != nil {
				return e.zero(et)
			}
		case "arr":
			s := c.args[0]
			return e.elem(s, idx, et)
		case "sortview":
			if c.args[0] == idx {
				return c.args[1]
			}
			if c.args[2] == idx {
				return c.args[3]
			}
		}
		break
	}
	r := e.T.mk(&Term{op: "sel", args: []*Term{c, idx}, kind: kindOfSafe(et)})
	return e.boolify(r, et)
}

func kindOfSafe(t types.Type) Kind {
	if t == nil {
		return 0
	}
	return kindOf(t)
}

// elem is element idx of an opaque sequence value.
func (e *Eng) elem(s, idx *Term, et types.Type) *Term {
	if e.cmp != nil {
		if r := e.elemC(s, idx, et); r != nil {
			return r
		}
	}
	switch s.op {
	case "snap": // snap(content, off, len)
		return e.sel(s.args[0], e.T.Add(s.args[1], idx), et)
	case "app":
		// prefix elements come from the base
		n := e.lenOf(s.args[0])
		if idx.isInt() && n.isInt() && idx.n >= n.n && int(idx.n-n.n) < len(s.args)-1 {
			return s.args[1+idx.n-n.n]
		}
		d := e.T.Sub(idx, n)
		if d.isInt() && d.n >= 0 && int(d.n) < len(s.args)-1 {
			return s.args[1+d.n]
		}
	case "appseq":
		n := e.lenOf(s.args[0])
		if n == e.T.Zero {
			return e.elem(s.args[1], idx, et)
		}
	case "sub":
		return e.elem(s.args[0], e.T.Add(s.args[1], idx), et)
	}
	r := e.T.mk(&Term{op: "elem", args: []*Term{s, idx}, kind: kindOfSafe(et)})
	return e.boolify(r, et)
}

// sliceParts resolves a slice term into its backing store cell, offset and length.
func (e *Eng) sliceParts(s *Term, t types.Type) (c Cell, off, ln *Term) {
	if s.op == "mkslice" {
		o := s.ref.(*Obj)
		return Cell{o, s.aux + "[]"}, s.args[0], s.args[1]
	}
	if s.op == "resl" { // slice of an opaque slice
		o := s.ref.(*Obj)
		return Cell{o, s.aux + "[]"}, s.args[0], s.args[1]
	}
	return Cell{e.rootObj(s, t), "*[]"}, e.T.Zero, e.lenOf(s)
}

func (e *Eng) lenOf(s *Term) *Term {
	return e.T.Lift("len", func(x []*Term) *Term {
		s := x[0]
		switch s.op {
		case "nil":
			return e.T.Zero
		case "mkslice", "resl":
			return s.args[1]
		case "mu":
			if len(s.args) == 1 {
				return s.args[0]
			}
		case "app":
			return e.T.Add(e.lenOf(s.args[0]), e.T.Int(int64(len(s.args)-1)))
		case "appseq":
			return e.T.Add(e.lenOf(s.args[0]), e.lenOf(s.args[1]))
		case "snap":
			return s.args[2]
		case "str":
			return e.T.Int(int64(len(s.aux)))
		case "bytes":
			return e.T.Int(s.n)
		case "sub":
			return s.args[2]
		case "pseq":
			return s.args[0]
		case "comp":
			return e.T.Add(e.lenOf(s.args[0]), s.args[1])
		case "cats":
			return e.psum(s.args[0], e.lenBody(s.args[1]))
		case "bm":
			if e.cmp != nil && (s.aux == "ToBuffer" || s.aux == "ToBufferWithCopy") {
				// a sequence of 16-bit words
				return e.T.Scale(e.T.Op("len", "words", 0, nil, s), 2)
			}
		case "fin":
			// the length of an append-built sequence is its own quantity
		}
		return e.T.Op("len", "", 0, nil, s)
	}, s)
}

// seqOf is the value of a slice as an immutable sequence.
func (e *Eng) seqOf(st *State, s *Term, t types.Type) *Term {
	return e.T.Lift("", func(x []*Term) *Term {
		s := x[0]
		switch s.op {
		case "nil", "app", "appseq", "str", "bytes":
			if s.op == "nil" || s.op == "str" {
				return s
			}
			c := Cell{e.rootObj(s, t), "*[]"}
			if v, ok := st.mem[c]; !ok || v.op == "arr" {
				if s.op == "appseq" && s.args[0] == e.T.Nil {
					return s.args[1]
				}
				return s
			}
		}
		c, off, ln := e.sliceParts(s, t)
		content := e.readContent(st, c, t)
		if content.op == "arr" && off == e.T.Zero && ln == e.lenOf(content.args[0]) {
			return content.args[0]
		}
		if ln == e.T.Zero {
			return e.T.Nil
		}
		return e.T.Op("snap", "", 0, nil, content, off, ln)
	}, s)
}

// ---- loads and stores ----

func (e *Eng) load(fr *Frame, st *State, p *Term, t types.Type, pos token.Pos) *Term {
	leaf := func(p *Term) *Term {
		switch p.op {
		case "addr":
			e.noteAccess(fr, st, p, pos, true)
			return e.readCell(st, Cell{p.ref.(*Obj), p.aux}, t)
		case "eaddr":
			e.noteAccess(fr, st, p, pos, true)
			return e.loadElem(st, p, t)
		case "global":
			return e.boolify(e.T.mk(&Term{op: "glob", aux: p.aux, kind: kindOf(t)}), t)
		}
		o := e.rootObj(p, t)
		return e.readCell(st, Cell{o, ""}, t)
	}
	if e.cmp != nil {
		if p = e.T.Restrict(p, e.guard()); p.op == "ite" {
			if r := e.cmp.branch(p, leaf); r != nil {
				return r
			}
		}
	}
	return e.T.Lift("", func(x []*Term) *Term { return leaf(x[0]) }, p)
}

func (e *Eng) loadElem(st *State, p *Term, t types.Type) *Term {
	o := p.ref.(*Obj)
	i := strings.Index(p.aux, "[]")
	base, sub := p.aux[:i+2], p.aux[i+2:]
	content := e.readContent(st, Cell{o, base}, nil)
	et := p.typeRef()
	v := e.sel(content, p.args[0], et)
	return e.subPath(v, et, sub, t)
}

// typeRef: element type recorded for eaddr terms (in args[1] as a type term).
func (t *Term) typeRef() types.Type {
	if len(t.args) > 1 {
		if ty, ok := t.args[1].ref.(types.Type); ok {
			return ty
		}
	}
	return nil
}

func (e *Eng) subPath(v *Term, et types.Type, sub string, t types.Type) *Term {
	for sub != "" {
		sub = sub[1:]
		nm := sub
		if j := strings.IndexAny(sub, ".["); j >= 0 {
			nm, sub = sub[:j], sub[j:]
		} else {
			sub = ""
		}
		st, ok := et.Underlying().(*types.Struct)
		if !ok {
			return e.T.Op("path", sub, kindOf(t), nil, v)
		}
		for i := 0; i < st.NumFields(); i++ {
			if st.Field(i).Name() == nm {
				v = e.field(v, et, i)
				et = st.Field(i).Type()
				break
			}
		}
	}
	return v
}

func (e *Eng) withSub(v *Term, et types.Type, sub string, nv *Term) *Term {
	if sub == "" {
		return nv
	}
	sub = sub[1:]
	nm, rest := sub, ""
	if j := strings.IndexAny(sub, ".["); j >= 0 {
		nm, rest = sub[:j], sub[j:]
	}
	st, ok := et.Underlying().(*types.Struct)
	if !ok {
		return e.T.Op("with", sub, 0, nil, v, nv)
	}
	var fs []*Term
	for i := 0; i < st.NumFields(); i++ {
		f := e.field(v, et, i)
		if st.Field(i).Name() == nm {
			f = e.withSub(f, st.Field(i).Type(), rest, nv)
		}
		fs = append(fs, f)
	}
	return e.mkStruct(et, fs)
}

func (e *Eng) store(fr *Frame, st *State, p *Term, t types.Type, v *Term, pos token.Pos) {
	if p.op == "ite" {
		// guarded pointer: conditional update of every target
		for _, leaf := range e.T.Leaves(p) {
			g := e.T.Restrict(e.T.LeafGuard(p, leaf), st.guard)
			if g == e.T.False || leaf == e.T.Nil {
				continue
			}
			old := e.load(fr, st, leaf, t, pos)
			e.store(fr, st, leaf, t, e.T.Ite(g, v, old), pos)
		}
		return
	}
	switch p.op {
	case "addr":
		e.noteAccess(fr, st, p, pos, false)
		e.writeCell(st, Cell{p.ref.(*Obj), p.aux}, t, v)
	case "eaddr":
		e.noteAccess(fr, st, p, pos, false)
		o := p.ref.(*Obj)
		i := strings.Index(p.aux, "[]")
		base, sub := p.aux[:i+2], p.aux[i+2:]
		c := Cell{o, base}
		content := e.readContent(st, c, nil)
		nv := v
		et := p.typeRef()
		if sub != "" {
			nv = e.withSub(e.sel(content, p.args[0], et), et, sub, v)
		}
		st.mem[c] = e.upd(content, p.args[0], nv)
	case "global":
		e.emit(fr, st, &Event{kind: "globalstore", callee: p.aux, args: []*Term{v}, errIdx: -1, pos: pos}, pos, "")
	default:
		e.writeCell(st, Cell{e.rootObj(p, t), ""}, t, v)
		e.noteAccess(fr, st, e.addr(e.rootObj(p, t), ""), pos, false)
	}
}

func (e *Eng) upd(content, idx, v *Term) *Term {
	return e.T.Lift("upd", func(x []*Term) *Term {
		c := x[0]
		if c.op == "upd" && c.args[1] == x[1] {
			c = c.args[0]
		}
		return e.T.Op("upd", "", 0, nil, c, x[1], x[2])
	}, content, idx, e.raw(v))
}

// raw hides a guarded value from lifting (element values stay whole).
func (e *Eng) raw(v *Term) *Term { return v }

func (e *Eng) noteAccess(fr *Frame, st *State, p *Term, pos token.Pos, load bool) {
	o, _ := p.ref.(*Obj)
	if load && fr.spawn == nil && !(e.pol.Loads > 1 || e.pol.Loads > 0 && o != nil && !o.fresh) {
		return
	}
	s := &StoreOb{guard: st.guard, addr: p, pos: pos, fn: fr.fn, spawn: fr.spawn, load: load, loops: append([]*Loop(nil), e.loopStk...)}
	e.seq++
	s.seqNo = e.seq
	for c, v := range st.mem {
		if strings.HasPrefix(c.path, "$held") {
			if s.held == nil {
				s.held = map[string]*Term{}
			}
			s.held[c.obj.name+c.path] = v
		}
	}
	e.stores = append(e.stores, s)
}

// ---- running ----

// Run analyses fn from an entry state; params may be nil (symbolic).
func (e *Eng) Run(fn *ssa.Function, setup func(st *State, params []*Term)) {
	st := &State{guard: e.T.True, mem: map[Cell]*Term{}, env: map[ssa.Value]*Term{}}
	var params []*Term
	for i, p := range fn.Params {
		nm := p.Name()
		if i == 0 && fn.Signature.Recv() != nil {
			nm = "recv"
		} else {
			nm = fmt.Sprintf("arg%d", i)
			if fn.Signature.Recv() == nil {
				nm = fmt.Sprintf("arg%d", i+1)
			}
		}
		params = append(params, e.boolify(e.T.Sym(nm, kindOf(p.Type())), p.Type()))
	}
	e.params = params
	e.root = fn
	if setup != nil {
		setup(st, params)
	}
	e.entry = st.clone()
	fr := &Frame{fn: fn, ctx: fn.Name()}
	rets := e.runFunc(fr, st, params)
	for _, r := range rets {
		e.rets = append(e.rets, Ret{guard: r.st.guard, vals: r.vals, pos: r.pos, seqNo: r.seq})
	}
	if len(rets) > 0 {
		vals, fs := e.mergeRets(rets)
		e.retVals = vals
		e.final = fs
	}
}

type edgeState struct {
	from *ssa.BasicBlock
	pred int // index of from among to.Preds
	to   *ssa.BasicBlock
	st   *State
}
type retState struct {
	st   *State
	vals []*Term
	pos  token.Pos
	seq  int
	from *ssa.BasicBlock
}

func (e *Eng) runFunc(fr *Frame, st *State, args []*Term) []retState {
	fn := fr.fn
	if fr.loops = e.forests[fn]; fr.loops == nil {
		fr.loops = findLoops(fn)
		e.forests[fn] = fr.loops
	}
	for i, p := range fn.Params {
		if i < len(args) {
			st.env[p] = args[i]
		}
	}
	for i, p := range fn.FreeVars {
		if i < len(fr.free) {
			st.env[p] = fr.free[i]
		}
	}
	if len(fn.Blocks) == 0 {
		e.unsupported("function without a body: %s", fn)
		return nil
	}
	_, exits, rets := e.region(fr, nil, fn.Blocks[0], []edgeState{{to: fn.Blocks[0], st: st, pred: -1}}, nil, false)
	_ = exits
	return rets
}

func (e *Eng) mergeRets(rets []retState) ([]*Term, *State) {
	if len(rets) == 1 {
		r := rets[0]
		var vals []*Term
		for _, v := range r.vals {
			vals = append(vals, e.T.Restrict(v, r.st.guard))
		}
		return vals, r.st
	}
	st := rets[0].st
	vals := append([]*Term(nil), rets[0].vals...)
	for _, r := range rets[1:] {
		g := e.T.Or(st.guard, r.st.guard)
		for i := range vals {
			vals[i] = e.mergeVal(st.guard, vals[i], r.vals[i], g)
		}
		st = e.mergeStates(st, r.st)
	}
	return vals, st
}

func (e *Eng) mergeVal(ga, a, b, g *Term) *Term {
	if a == b {
		return a
	}
	return e.T.Restrict(e.T.Ite(ga, a, b), g)
}

func (e *Eng) mergeStates(a, b *State) *State {
	g := e.T.Or(a.guard, b.guard)
	n := &State{guard: g, mem: make(map[Cell]*Term, len(a.mem)), env: make(map[ssa.Value]*Term, len(a.env))}
	for c, v := range a.mem {
		w, ok := b.mem[c]
		if !ok {
			w = e.defaultCell(c)
		}
		if w == nil || w == v {
			n.mem[c] = v
		} else {
			n.mem[c] = e.mergeVal(a.guard, v, w, g)
		}
	}
	for c, w := range b.mem {
		if _, ok := a.mem[c]; ok {
			continue
		}
		v := e.defaultCell(c)
		if v == nil || v == w {
			n.mem[c] = w
		} else {
			n.mem[c] = e.mergeVal(a.guard, v, w, g)
		}
	}
	for k, v := range a.env {
		if w, ok := b.env[k]; ok {
			if v == w {
				n.env[k] = v
			} else {
				n.env[k] = e.mergeVal(a.guard, v, w, g)
			}
		} else {
			n.env[k] = v
		}
	}
	for k, w := range b.env {
		if _, ok := a.env[k]; !ok {
			n.env[k] = w
		}
	}
	// deferred calls: union, keeping order
	n.defers = append([]deferRec(nil), a.defers...)
outer:
	for _, d := range b.defers {
		for i := range n.defers {
			if n.defers[i].ctx == d.ctx {
				n.defers[i].guard = e.T.Or(n.defers[i].guard, d.guard)
				continue outer
			}
		}
		n.defers = append(n.defers, d)
	}
	return n
}

// defaultCell is what a cell holds in a state that has not touched it.
func (e *Eng) defaultCell(c Cell) *Term {
	if c.path == "$bm" && c.obj.root != nil {
		return e.T.Op("bmof", "", 0, nil, c.obj.root)
	}
	if strings.HasPrefix(c.path, "$") {
		return nil
	}
	if c.obj.fresh {
		t := e.cells[c]
		if strings.HasSuffix(c.path, "[]") || t == nil {
			return nil
		}
		return e.zero(t)
	}
	if strings.HasSuffix(c.path, "[]") {
		if c.path == "*[]" {
			return e.T.Op("arr", "", 0, nil, c.obj.root)
		}
		return e.T.mk(&Term{op: "init", aux: c.path, ref: c.obj})
	}
	t := e.cells[c]
	if t == nil {
		return nil
	}
	return e.initCell(c, t)
}

func (e *Eng) mergeEdges(b *ssa.BasicBlock, in []edgeState) *State {
	var phis []*ssa.Phi
	for _, ins := range b.Instrs {
		if p, ok := ins.(*ssa.Phi); ok {
			phis = append(phis, p)
		} else {
			break
		}
	}
	var st *State
	var pv []*Term
	for _, es := range in {
		cur := es.st
		var vals []*Term
		for _, p := range phis {
			vals = append(vals, e.val(nil, cur, p.Edges[es.pred]))
		}
		if st == nil {
			st = cur.clone()
			pv = vals
			continue
		}
		g := e.T.Or(st.guard, cur.guard)
		for i := range pv {
			pv[i] = e.mergeVal(st.guard, pv[i], vals[i], g)
		}
		st = e.mergeStates(st, cur)
	}
	for i, p := range phis {
		st.env[p] = pv[i]
	}
	if e.cmp != nil && len(in) > 1 {
		e.generalize(st)
	}
	return st
}

// region executes the blocks of a loop body or of a whole function.
func (e *Eng) region(fr *Frame, L *natLoop, entry *ssa.BasicBlock, in []edgeState, hdr *State, phisDone bool) (backs, exits []edgeState, rets []retState) {
	pending := map[*ssa.BasicBlock][]edgeState{}
	pending[entry] = in
	done := map[*natLoop]bool{}
	for _, b := range fr.loops.rpo {
		if L != nil && !L.blocks[b] {
			continue
		}
		es := pending[b]
		if len(es) == 0 && !(b == entry && hdr != nil) {
			continue
		}
		if sl := fr.loops.header[b]; sl != nil && sl != L {
			if done[sl] {
				continue
			}
			done[sl] = true
			outs, rs := e.execLoop(fr, sl, es)
			rets = append(rets, rs...)
			for _, o := range outs {
				if L != nil && o.to == L.head {
					backs = append(backs, o)
				} else if L != nil && !L.blocks[o.to] {
					exits = append(exits, o)
				} else {
					pending[o.to] = append(pending[o.to], o)
				}
			}
			continue
		}
		if fr.loops.inner(b, L) {
			continue // belongs to a loop that was executed as a unit
		}
		var st *State
		if b == entry && hdr != nil {
			st = hdr
		} else if b == entry && len(es) == 1 && es[0].pred < 0 {
			st = es[0].st
		} else {
			st = e.mergeEdges(b, es)
		}
		if st.guard == e.T.False {
			continue
		}
		outs, rs := e.block(fr, b, st)
		rets = append(rets, rs...)
		for _, o := range outs {
			if L != nil && o.to == L.head {
				backs = append(backs, o)
			} else if L != nil && !L.blocks[o.to] {
				exits = append(exits, o)
			} else {
				pending[o.to] = append(pending[o.to], o)
			}
		}
	}
	return
}

func predIndex(from, to *ssa.BasicBlock, nth int) int {
	for i, p := range to.Preds {
		if p == from {
			if nth == 0 {
				return i
			}
			nth--
		}
	}
	return -1
}

func (e *Eng) block(fr *Frame, b *ssa.BasicBlock, st *State) (outs []edgeState, rets []retState) {
	e.steps++
	if e.steps > 400000 {
		panic("analysis budget exceeded")
	}
	for _, ins := range b.Instrs {
		e.cur = st
		switch i := ins.(type) {
		case *ssa.Phi:
			continue
		case *ssa.If:
			c := e.T.Restrict(e.val(fr, st, i.Cond), st.guard)
			if e.cmp != nil {
				c = e.decide(c, st.guard)
			}
			gt := e.T.And(st.guard, c)
			gf := e.T.And(st.guard, e.T.Not(c))
			same := b.Succs[0] == b.Succs[1]
			if gt != e.T.False {
				s := st.clone()
				s.guard = gt
				outs = append(outs, edgeState{b, predIndex(b, b.Succs[0], 0), b.Succs[0], s})
			}
			if gf != e.T.False {
				s := st.clone()
				s.guard = gf
				k := 0
				if same {
					k = 1
				}
				outs = append(outs, edgeState{b, predIndex(b, b.Succs[1], k), b.Succs[1], s})
			}
			return
		case *ssa.Jump:
			outs = append(outs, edgeState{b, predIndex(b, b.Succs[0], 0), b.Succs[0], st})
			return
		case *ssa.Return:
			var vals []*Term
			for _, r := range i.Results {
				vals = append(vals, e.val(fr, st, r))
			}
			e.seq++
			rets = append(rets, retState{st, vals, i.Pos(), e.seq, b})
			return
		case *ssa.Panic:
			e.emit(fr, st, &Event{kind: "panic", callee: "panic", args: []*Term{e.val(fr, st, i.X)}, errIdx: -1}, i.Pos(), fmt.Sprintf("%p", i))
			return
		default:
			if !e.instr(fr, st, ins) {
				return // path ends (os.Exit and the like)
			}
			if st.guard == e.T.False {
				return
			}
		}
	}
	return
}

// ---- values ----

func (e *Eng) val(fr *Frame, st *State, v ssa.Value) *Term {
	switch x := v.(type) {
	case *ssa.Const:
		return e.constTerm(x)
	case *ssa.Function:
		return e.T.Op("func", "", 0, x)
	case *ssa.Global:
		return e.T.mk(&Term{op: "global", aux: x.Pkg.Pkg.Path() + "." + x.Name()})
	case *ssa.Builtin:
		return e.T.mk(&Term{op: "builtin", aux: x.Name()})
	}
	t, ok := st.env[v]
	if !ok {
		e.unsupported("value without definition: %s in %s", v.Name(), v.Parent())
		return e.T.Sym("undef:"+v.Name(), 0)
	}
	return e.T.Restrict(t, st.guard)
}

func (e *Eng) constTerm(x *ssa.Const) *Term {
	if x.Value == nil {
		return e.zero(x.Type())
	}
	t := x.Type().Underlying()
	b, ok := t.(*types.Basic)
	if !ok {
		return e.T.Op("const", x.String(), 0, nil)
	}
	switch {
	case b.Info()&types.IsBoolean != 0:
		return e.T.Bool(constant.BoolVal(x.Value))
	case b.Info()&types.IsInteger != 0:
		v := constant.ToInt(x.Value)
		if n, ok := constant.Int64Val(v); ok {
			return e.T.Int(n)
		}
		if n, ok := constant.Uint64Val(v); ok {
			return e.T.Int(int64(n))
		}
	case b.Info()&types.IsFloat != 0:
		f, _ := constant.Float64Val(x.Value)
		return e.T.Float(f)
	case b.Info()&types.IsString != 0:
		return e.T.Str(constant.StringVal(x.Value))
	}
	return e.T.Op("const", x.String(), 0, nil)
}

// ---- loops ----

func (e *Eng) execLoop(fr *Frame, nl *natLoop, in []edgeState) (outs []edgeState, rets []retState) {
	T := e.T
	base := e.mergeEdges(nl.head, in)
	if base.guard == T.False {
		return
	}
	var phis []*ssa.Phi
	for _, ins := range nl.head.Instrs {
		if p, ok := ins.(*ssa.Phi); ok {
			phis = append(phis, p)
		} else {
			break
		}
	}
	if o, r, ok := e.tryUnroll(fr, nl, base); ok {
		return o, r
	}
	key := fr.ctx + "/L" + strconv.Itoa(nl.head.Index)
	L := e.loopTab[key]
	if L == nil {
		L = &Loop{id: len(e.loopTab) + 1, key: key, fn: fr.fn, header: nl.head}
		e.loopTab[key] = L
		L.outerDeps = e.curDeps()
		L.outer = append([]*Loop(nil), e.loopStk...)
		L.spawn = e.spawn
		L.K = T.mk(&Term{op: "k", ref: L})
	}
	L.pos = loopPos(nl.head)
	L.entry = base.guard
	e.loopStk = append(e.loopStk, L)
	saveTrace := e.trace
	nb, ns, nn := len(e.bounds), len(e.stores), len(e.narrow)
	ni := 0
	if e.cmp != nil {
		ni = len(e.cmp.image)
	}
	closed := map[any]closedForm{}

	variant := map[any]*MuCell{} // Cell or *ssa.Phi
	var order []any
	inds := map[any]*Term{} // induction values
	var backs, exits []edgeState
	var rs []retState
	var rot *rotation // the loop tests at the bottom what it could have tested at the top
	rotTried := false
	for round := 0; ; round++ {
		if round > 40 {
			e.unsupported("loop without fixpoint in %s", fr.fn)
			break
		}
		L.rounds = round
		e.trace = nil
		e.bounds, e.stores, e.narrow = e.bounds[:nb], e.stores[:ns], e.narrow[:nn]
		if e.cmp != nil {
			e.cmp.image = e.cmp.image[:ni]
		}
		hs := base.clone()
		for k, m := range variant {
			v := m.term
			if iv, ok := inds[k]; ok {
				v = iv
			}
			switch c := k.(type) {
			case Cell:
				hs.mem[c] = v
			case *ssa.Phi:
				hs.env[c] = v
			}
		}
		var out *State
		if rot != nil {
			out = hs.clone()
			out.guard = T.And(hs.guard, T.Not(rot.stay))
			hs.guard = T.And(hs.guard, rot.stay)
		}
		head := hs.clone()
		backs, exits, rs = e.region(fr, nl, nl.head, nil, hs, true)
		if rot != nil {
			// the bottom exit is one more way round; the loop ends at the top
			var keep []edgeState
			for _, x := range exits {
				if x.from == rot.from && x.to == rot.to && len(backs) > 0 {
					x.to, x.pred = nl.head, backs[0].pred
					backs = append(backs, x)
				} else {
					keep = append(keep, x)
				}
			}
			e.rotOut(nl, rot, out)
			exits = append(keep, edgeState{rot.from, rot.pred, rot.to, out})
		}
		if len(backs) == 0 {
			break
		}
		// compare the back-edge state with the header state
		back := e.mergeBack(nl, backs, phis)
		changed := false
		add := func(k any, name string, init *Term, t types.Type) {
			if _, ok := variant[k]; ok {
				return
			}
			m := &MuCell{name: name, init: init, typ: t}
			m.term = T.mk(&Term{op: "mu", aux: name, ref: L, kind: kindOfSafe(t)})
			if t != nil && isBoolType(t) {
				m.term = T.Atom(m.term)
			}
			switch c := k.(type) {
			case Cell:
				cc := c
				m.cell = &cc
			case *ssa.Phi:
				m.phi = c
			}
			variant[k] = m
			order = append(order, k)
			changed = true
		}
		for _, p := range phis {
			if back.env[p] != head.env[p] && back.env[p] != T.Restrict(head.env[p], back.guard) {
				add(p, "φ"+p.Comment+p.Name(), base.env[p], p.Type())
			}
		}
		var cells []Cell
		for c := range back.mem {
			cells = append(cells, c)
		}
		sort.Slice(cells, func(i, j int) bool {
			if cells[i].obj.id != cells[j].obj.id {
				return cells[i].obj.id < cells[j].obj.id
			}
			return cells[i].path < cells[j].path
		})
		for _, c := range cells {
			v := back.mem[c]
			h, ok := head.mem[c]
			if !ok {
				h = e.defaultCell(c)
				if h == nil {
					// allocated inside the body: private to the iteration unless it is read before
					continue
				}
				if c.obj.fresh && hasDep(c.obj.loopDeps, int32(L.id)) {
					continue
				}
			}
			if c.obj.fresh && hasDep(c.obj.loopDeps, int32(L.id)) && e.bodyPrivate(c, base) {
				continue
			}
			if h != v && T.Restrict(h, back.guard) != v {
				init, ok := base.mem[c]
				if !ok {
					init = h
				}
				if _, isv := variant[c]; !isv {
					add(c, c.String(), init, e.cells[c])
				}
			}
		}
		if changed {
			continue
		}
		// stable: record next values, look for inductions
		newInd := false
		for k, m := range variant {
			var nv *Term
			switch c := k.(type) {
			case Cell:
				nv = back.mem[c]
				if nv == nil {
					nv = m.term
				}
			case *ssa.Phi:
				nv = back.env[c]
			case sliceKey:
				continue
			}
			m.next = nv
			if _, ok := inds[k]; ok {
				continue
			}
			if m.typ != nil && kindOf(m.typ) != 0 {
				d := T.Sub(nv, m.term)
				if nv.op == "T" && nv.kind == kindOf(m.typ) {
					// a narrow counter that is tested below its bound cannot wrap
					if d1 := T.Sub(nv.args[0], m.term); d1.isInt() && d1.n == 1 && e.boundedBelowMax(m.term, back.guard, nv.kind) {
						d = d1
					}
				}
				if d.isInt() && d.n != 0 {
					inds[k] = T.Add(m.init, T.Scale(L.K, d.n))
					m.ind = true
					newInd = true
				} else if !d.isInt() && !d.dependsOn(L) {
					// a step the loop does not change
					inds[k] = T.Add(m.init, T.Mul(L.K, d))
					m.ind = true
					newInd = true
				}
			}
		}
		if newInd {
			continue
		}
		if e.cmp != nil && e.shapeSlices(L, variant, inds, &order, back.guard) {
			continue
		}
		e.loopBase = base
		if e.cmp != nil && e.closeRound(L, variant, inds, closed, order, back.guard) {
			continue
		}
		if rot == nil && !rotTried {
			rotTried = true
			if rot = e.rotate(nl, L, base, backs, exits); rot != nil {
				continue
			}
		}
		L.cont = back.guard
		if e.cmp == nil {
			L.base, L.back = base, back
		}
		break
	}
	L.body = e.trace
	e.trace = append(saveTrace, &Item{Loop: L})
	L.mus = nil
	for _, k := range order {
		m := variant[k]
		if iv, ok := inds[k]; ok {
			m.term = iv
		}
		L.mus = append(L.mus, m)
	}
	if len(backs) == 0 {
		L.cont = T.False
	}
	e.loopStk = e.loopStk[:len(e.loopStk)-1]

	// exits
	L.exits = nil
	type ex struct {
		le  *LoopExit
		es  *edgeState
		rs  *retState
		pos int
	}
	var exs []ex
	for i := range exits {
		x := &exits[i]
		le := &LoopExit{guard: x.st.guard, from: x.from, to: x.to, header: x.from == nl.head, pos: blockPos(x.to)}
		if rot != nil {
			le.header = x.from == rot.from && x.to == rot.to
		}
		exs = append(exs, ex{le: le, es: x})
	}
	for i := range rs {
		le := &LoopExit{guard: rs[i].st.guard, isRet: true, rets: rs[i].vals, from: rs[i].from, header: false, pos: rs[i].pos}
		exs = append(exs, ex{le: le, rs: &rs[i]})
	}
	sort.SliceStable(exs, func(i, j int) bool { return !exs[i].le.header && exs[j].le.header })
	for i := range exs {
		exs[i].le.idx = i
		L.exits = append(L.exits, exs[i].le)
	}
	L.findTrip(e)
	rest := T.True
	for i := range exs {
		le := exs[i].le
		if i == len(exs)-1 {
			le.X = rest
		} else {
			x := T.Atom(T.mk(&Term{op: "X", n: int64(i), ref: L}))
			le.X = T.And(rest, x)
			rest = T.And(rest, T.Not(x))
		}
		post := T.And(L.entry, le.X)
		if e.cmp != nil {
			post = T.And(post, e.exitFacts(L, le, closed))
			if k := e.exitK(L, le); k != nil {
				post = T.And(post, T.And(T.Not(T.Lt(k, T.Zero, kI64, true)), T.Lt(k, L.trip, kI64, true)))
			}
		}
		pos, neg := T.ForcedLiterals(le.guard)
		for _, a := range pos {
			if !a.dependsOn(L) {
				post = T.And(post, T.Atom(a))
			}
		}
		for _, a := range neg {
			if !a.dependsOn(L) {
				post = T.And(post, T.Not(T.Atom(a)))
			}
		}
		le.post = post
		if post == T.False {
			continue
		}
		if e.cmp != nil {
			e.cur = &State{guard: post}
		}
		wrap := func(v *Term) *Term { return e.finTerm(L, le, v) }
		var st *State
		if exs[i].es != nil {
			st = exs[i].es.st
		} else {
			st = exs[i].rs.st
		}
		ns := &State{guard: post, mem: make(map[Cell]*Term, len(st.mem)), env: make(map[ssa.Value]*Term, len(st.env)), defers: st.defers}
		for c, v := range st.mem {
			if bv, ok := base.mem[c]; ok && bv == v {
				ns.mem[c] = v
				continue
			}
			ns.mem[c] = wrap(v)
		}
		for k, v := range st.env {
			if bv, ok := base.env[k]; ok && bv == v {
				ns.env[k] = v
				continue
			}
			ns.env[k] = wrap(v)
		}
		if exs[i].es != nil {
			o := *exs[i].es
			o.st = ns
			outs = append(outs, o)
		} else {
			r := *exs[i].rs
			r.st = ns
			var vs []*Term
			for _, v := range r.vals {
				vs = append(vs, wrap(v))
			}
			r.vals = vs
			rets = append(rets, r)
		}
	}
	return
}

// rotation describes a loop of the form `if p(0) { do { body } while p(k+1) }`,
// which is `for p(k) { body }`.
type rotation struct {
	stay     *Term // p(k)
	from, to *ssa.BasicBlock
	pred     int
	live     map[ssa.Value]*ssa.Phi // values used after the loop: those of the next round
	shift    map[ssa.Value]*Term
}

func (e *Eng) rotate(nl *natLoop, L *Loop, base *State, backs, exits []edgeState) *rotation {
	T := e.T
	if len(backs) != 1 {
		return nil
	}
	b := backs[0]
	r := &rotation{from: b.from, live: map[ssa.Value]*ssa.Phi{}, shift: map[ssa.Value]*Term{}}
	var x *edgeState
	for i := range exits {
		if exits[i].from == b.from {
			if x != nil {
				return nil
			}
			x = &exits[i]
		}
	}
	if x == nil {
		return nil
	}
	for i := range exits {
		if exits[i].to == x.to && &exits[i] != x && exits[i].from == nl.head {
			return nil
		}
	}
	r.to, r.pred = x.to, x.pred
	p1 := T.Restrict(b.st.guard, T.Or(b.st.guard, x.st.guard))
	if p1 == T.True || p1 == T.False {
		return nil
	}
	at := func(t, k *Term) *Term {
		return newMapper(e, func(u *Term) *Term {
			if u == L.K {
				return k
			}
			if !u.dependsOn(L) {
				return u
			}
			return nil
		}).Map(t)
	}
	sub := func(t *Term) *Term { return at(t, T.Sub(L.K, T.Int(1))) }
	zero := T.Int(0)
	if at(p1, zero).dependsOn(L) {
		return nil // the test depends on more than the number of rounds
	}
	r.stay = sub(p1)
	if T.Restrict(at(r.stay, zero), base.guard) != T.True {
		return nil
	}
	for blk := range nl.blocks {
		for _, ins := range blk.Instrs {
			v, ok := ins.(ssa.Value)
			if !ok || v.Referrers() == nil {
				continue
			}
			out := false
			for _, u := range *v.Referrers() {
				if !nl.blocks[u.Block()] {
					out = true
				}
			}
			if !out {
				continue
			}
			found := false
			for _, hi := range nl.head.Instrs {
				if p, ok := hi.(*ssa.Phi); ok && p.Edges[b.pred] == v {
					r.live[v] = p
					found = true
				}
			}
			if !found {
				t := x.st.env[v]
				if t == nil {
					continue
				}
				if at(t, zero).dependsOn(L) {
					return nil
				}
				r.shift[v] = sub(t)
			}
		}
	}
	return r
}

// rotOut gives the state at the top the names the code after the loop uses.
func (e *Eng) rotOut(nl *natLoop, r *rotation, st *State) {
	for v, p := range r.live {
		if t, ok := st.env[p]; ok {
			st.env[v] = t
		}
	}
	for v, t := range r.shift {
		st.env[v] = t
	}
}

// bodyPrivate: an object allocated in the loop body is re-created each iteration.
func (e *Eng) bodyPrivate(c Cell, base *State) bool {
	_, ok := base.mem[c]
	return !ok
}

func (e *Eng) mergeBack(nl *natLoop, backs []edgeState, phis []*ssa.Phi) *State {
	var st *State
	var pv []*Term
	for _, b := range backs {
		var vals []*Term
		for _, p := range phis {
			vals = append(vals, e.val(nil, b.st, p.Edges[b.pred]))
		}
		if st == nil {
			st = b.st.clone()
			pv = vals
			continue
		}
		g := e.T.Or(st.guard, b.st.guard)
		for i := range pv {
			pv[i] = e.mergeVal(st.guard, pv[i], vals[i], g)
		}
		st = e.mergeStates(st, b.st)
	}
	for i, p := range phis {
		st.env[p] = e.T.Restrict(pv[i], st.guard)
	}
	for c, v := range st.mem {
		st.mem[c] = e.T.Restrict(v, st.guard)
	}
	return st
}

// finTerm is the value v (of the last iteration) seen after the loop exit le.
func (e *Eng) finTerm(L *Loop, le *LoopExit, v *Term) *Term {
	v = e.T.Restrict(v, le.guard)
	return e.finWrap(L, le, v)
}

func (e *Eng) finWrap(L *Loop, le *LoopExit, v *Term) *Term {
	return e.finWrapIn(L, le, v, map[*Term]*Term{})
}

// finWrapIn visits the parts that the cases of a value share once.
func (e *Eng) finWrapIn(L *Loop, le *LoopExit, v *Term, memo map[*Term]*Term) *Term {
	if !v.dependsOn(L) {
		return v
	}
	if r, ok := memo[v]; ok {
		return r
	}
	r := e.finWrapNew(L, le, v, memo)
	memo[v] = r
	return r
}

func (e *Eng) finWrapNew(L *Loop, le *LoopExit, v *Term, memo map[*Term]*Term) *Term {
	T := e.T
	if v.op == "ite" && !v.args[0].dependsOn(L) {
		return T.Ite(T.Atom(v.args[0]), e.finWrapIn(L, le, v.args[1], memo), e.finWrapIn(L, le, v.args[2], memo))
	}
	if e.cmp != nil {
		if r := e.finClosed(L, le, v); r != nil {
			return r
		}
	}
	switch v.op {
	case "struct":
		var fs []*Term
		for _, f := range v.args {
			fs = append(fs, e.finWrapIn(L, le, f, memo))
		}
		return T.Op("struct", "", 0, v.ref, fs...)
	case "addr", "eaddr", "closure", "mkchan":
		return v
	case "iface":
		return T.Op("iface", v.aux, 0, v.ref, e.finWrapIn(L, le, v.args[0], memo))
	case "err":
		return T.mk(&Term{op: "err", aux: v.aux, ref: v.ref, args: v.args})
	case "mkslice":
		return T.Op("mkslice", v.aux, 0, v.ref, e.finWrapIn(L, le, v.args[0], memo), e.finWrapIn(L, le, v.args[1], memo))
	case "lin", "k":
		if le.header && L.trip != nil && L.tripNN {
			args, coef, c := T.linParts(v)
			r := T.Int(c)
			rest := T.Zero
			for i, a := range args {
				if a == L.K {
					r = T.Add(r, T.Scale(L.trip, coef[i]))
				} else {
					rest = T.Add(rest, T.Scale(a, coef[i]))
				}
			}
			if !rest.dependsOn(L) {
				return T.Add(r, rest)
			}
			if v.op == "lin" && r != T.Zero {
				return T.Add(r, e.finWrapIn(L, le, rest, memo))
			}
		}
		if v.op == "lin" {
			// split the loop-invariant part off
			var inv, dep *Term = T.Int(v.n), T.Zero
			for i, a := range v.args {
				if a.dependsOn(L) {
					dep = T.Add(dep, T.Scale(a, v.coef[i]))
				} else {
					inv = T.Add(inv, T.Scale(a, v.coef[i]))
				}
			}
			if inv != T.Zero {
				return T.Add(inv, e.finWrapIn(L, le, dep, memo))
			}
		}
	}
	r := T.mk(&Term{op: "fin", ref: L, args: []*Term{v}, kind: v.kind})
	if isBoolTerm(v) {
		return T.Atom(r)
	}
	return r
}

func isBoolTerm(v *Term) bool {
	switch v.op {
	case "bool":
		return true
	case "ite":
		return isBoolTerm(v.args[1])
	}
	return false
}

// findTrip recognises header tests that bound the iteration counter.
func (L *Loop) findTrip(e *Eng) {
	L.trip, L.tripNN = nil, false
	T := e.T
	for _, x := range L.exits {
		if !x.header {
			continue
		}
		// the exit condition relative to the entry guard
		c := T.Restrict(x.guard, L.entry)
		if c.op != "ite" {
			continue
		}
		atom := c.args[0]
		neg := false
		if c.args[1] == T.True && c.args[2] == T.False {
		} else if c.args[1] == T.False && c.args[2] == T.True {
			neg = true
		} else {
			continue
		}
		// exit when atom (neg: exit when !atom)
		switch atom.op {
		case "lt":
			l, r, d := atom.args[0], atom.args[1], atom.n
			if neg {
				// stays while l < r + d
				L.tripFrom(T, l, r, d)
			} else {
				// exit when l < r+d ; stays while r < l - d + 1
				L.tripFrom(T, r, l, 1-d)
			}
		case "ult":
			if neg {
				L.tripFrom(T, atom.args[0], atom.args[1], 0)
				if L.trip != nil {
					L.tripNN = true // unsigned bound; K starts below 2^63
				}
			}
		case "eqc":
			// exit when K*s + rest == n, i.e. `for i != n`
			if !neg {
				a, co, c := T.linParts(atom.args[0])
				for i, t := range a {
					if t == L.K && (co[i] == 1 || co[i] == -1) {
						rest := T.addScaled(atom.args[0], T.Scale(t, co[i]), -1)
						_ = c
						// co*K = n - rest
						tr := T.Scale(T.Sub(T.Int(atom.n), rest), co[i])
						if !tr.dependsOn(L) {
							L.trip = tr
						}
					}
				}
			}
		}
	}
	if L.trip != nil && nonNeg(T, L.trip) {
		L.tripNN = true
	}
	if L.trip != nil && !L.tripNN {
		// trip = n - a with a <= n known from the entry guard
		pr := newProver(e, L.entry, nil)
		if pr.le(T.Zero, L.trip) {
			L.tripNN = true
		}
	}
}

// stays while l < r + d, one side containing K with coefficient ±1
func (L *Loop) tripFrom(T *Terms, l, r *Term, d int64) {
	diff := T.addScaled(l, r, -1) // l - r < d
	args, coef, c := T.linParts(diff)
	for i, a := range args {
		if a == L.K {
			if s := coef[i]; s >= 1 {
				// s*K < d - c - rest
				rest := T.addScaled(diff, T.Scale(a, s), -1)
				tr, ok := T.ceilDiv(T.Sub(T.Int(d), rest), s)
				_ = c
				if ok && !tr.dependsOn(L) {
					L.trip = tr
				}
			}
			return
		}
	}
}

// ceilDiv divides when all but the constant are multiples.
func (T *Terms) ceilDiv(x *Term, s int64) (*Term, bool) {
	if s == 1 {
		return x, true
	}
	args, coef, c := T.linParts(x)
	for i, a := range args {
		// no wrap-around: a multiple of a length or count
		if _, hi, ok := T.rangeOf(a); coef[i]%s != 0 || !ok || hi > 1<<40 || coef[i] > 1<<16 || coef[i] < -(1<<16) {
			return nil, false
		}
	}
	r := T.Int(-(-c / s))
	if c > 0 {
		r = T.Int((c + s - 1) / s)
	}
	for i, a := range args {
		r = T.Add(r, T.Scale(a, coef[i]/s))
	}
	return r, true
}

func loopPos(b *ssa.BasicBlock) token.Pos {
	return blockPos(b)
}
func blockPos(b *ssa.BasicBlock) token.Pos {
	if b == nil {
		return token.NoPos
	}
	for _, i := range b.Instrs {
		if i.Pos().IsValid() {
			return i.Pos()
		}
	}
	for _, s := range b.Succs {
		for _, i := range s.Instrs {
			if i.Pos().IsValid() {
				return i.Pos()
			}
		}
	}
	return token.NoPos
}

const maxUnroll = 72

// tryUnroll executes the loop iteration by iteration while the header test is decided.
func (e *Eng) tryUnroll(fr *Frame, nl *natLoop, base *State) (outs []edgeState, rets []retState, ok bool) {
	hasTest := false
	if f, isIf := nl.head.Instrs[len(nl.head.Instrs)-1].(*ssa.If); isIf {
		_ = f
		for _, s := range nl.head.Succs {
			if !nl.blocks[s] {
				hasTest = true
			}
		}
	}
	if !hasTest {
		return nil, nil, false
	}
	saveTrace := e.trace
	e.trace = append([]*Item(nil), e.trace...)
	nb, ns, nn := len(e.bounds), len(e.stores), len(e.narrow)
	saveCtx := fr.ctx
	fail := func() ([]edgeState, []retState, bool) {
		e.trace = saveTrace
		e.bounds, e.stores, e.narrow = e.bounds[:nb], e.stores[:ns], e.narrow[:nn]
		fr.ctx = saveCtx
		return nil, nil, false
	}
	var phis []*ssa.Phi
	for _, ins := range nl.head.Instrs {
		if p, ok := ins.(*ssa.Phi); ok {
			phis = append(phis, p)
		}
	}
	st := base.clone()
	for it := 0; ; it++ {
		if it > maxUnroll {
			return fail()
		}
		// is the header test decided?
		if !e.headerDecided(fr, nl, st) {
			return fail()
		}
		fr.ctx = saveCtx + "#" + strconv.Itoa(nl.head.Index) + "." + strconv.Itoa(it)
		backs, exits, rs := e.region(fr, nl, nl.head, nil, st, true)
		outs = append(outs, exits...)
		rets = append(rets, rs...)
		if len(backs) == 0 {
			break
		}
		st = e.mergeBack(nl, backs, phis)
	}
	fr.ctx = saveCtx
	return outs, rets, true
}

// headerDecided evaluates the pure prefix of the header block.
func (e *Eng) headerDecided(fr *Frame, nl *natLoop, st *State) bool {
	s := st.clone()
	for _, ins := range nl.head.Instrs {
		switch i := ins.(type) {
		case *ssa.Phi:
			continue
		case *ssa.If:
			c := e.T.Restrict(e.val(fr, s, i.Cond), s.guard)
			return c == e.T.True || c == e.T.False
		case *ssa.BinOp, *ssa.UnOp, *ssa.Convert, *ssa.Extract, *ssa.FieldAddr, *ssa.IndexAddr:
			if u, ok := ins.(*ssa.UnOp); ok && u.Op == token.ARROW {
				return false
			}
			nb := len(e.bounds)
			ns := len(e.stores)
			e.instr(fr, s, ins)
			e.bounds = e.bounds[:nb]
			e.stores = e.stores[:ns]
		case *ssa.Call:
			if b, ok := i.Call.Value.(*ssa.Builtin); ok && b.Name() == "len" {
				e.instr(fr, s, ins)
				continue
			}
			return false
		default:
			return false
		}
	}
	return false
}

// ---- natural loops ----

type natLoop struct {
	head   *ssa.BasicBlock
	blocks map[*ssa.BasicBlock]bool
	parent *natLoop
}
type loopForest struct {
	rpo    []*ssa.BasicBlock
	header map[*ssa.BasicBlock]*natLoop
	loops  []*natLoop
	inn    map[*ssa.BasicBlock]*natLoop
}

// inner reports whether b belongs to a loop nested in L (L may be nil).
func (f *loopForest) inner(b *ssa.BasicBlock, L *natLoop) bool {
	n := f.inn[b]
	return n != nil && n != L
}

func findLoops(fn *ssa.Function) *loopForest {
	f := &loopForest{header: map[*ssa.BasicBlock]*natLoop{}, inn: map[*ssa.BasicBlock]*natLoop{}}
	seen := map[*ssa.BasicBlock]bool{}
	var post []*ssa.BasicBlock
	var dfs func(b *ssa.BasicBlock)
	dfs = func(b *ssa.BasicBlock) {
		seen[b] = true
		for _, s := range b.Succs {
			if !seen[s] {
				dfs(s)
			}
		}
		post = append(post, b)
	}
	if len(fn.Blocks) > 0 {
		dfs(fn.Blocks[0])
	}
	for i := len(post) - 1; i >= 0; i-- {
		f.rpo = append(f.rpo, post[i])
	}
	for _, b := range f.rpo {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				l := f.header[s]
				if l == nil {
					l = &natLoop{head: s, blocks: map[*ssa.BasicBlock]bool{s: true}}
					f.header[s] = l
					f.loops = append(f.loops, l)
				}
				var back func(x *ssa.BasicBlock)
				back = func(x *ssa.BasicBlock) {
					if l.blocks[x] || !seen[x] {
						return
					}
					l.blocks[x] = true
					for _, p := range x.Preds {
						back(p)
					}
				}
				back(b)
			}
		}
	}
	// innermost loop of each block
	for _, b := range f.rpo {
		var best *natLoop
		for _, l := range f.loops {
			if l.blocks[b] && (best == nil || len(l.blocks) < len(best.blocks)) {
				best = l
			}
		}
		f.inn[b] = best
	}
	return f
}

// boundedBelowMax: the guard implies x < b with b inside the kind's range.
func (e *Eng) boundedBelowMax(x, g *Term, k Kind) bool {
	T := e.T
	_, hi, ok := kindRange(k)
	if !ok {
		return false
	}
	for _, a := range T.Atoms(g) {
		if a.op == "lt" && a.args[0] == x {
			if _, h, ok := T.rangeOf(a.args[1]); ok && h+a.n <= hi && T.Implies(g, T.Atom(a)) {
				return true
			}
		}
		if a.op == "lt" && a.args[1] == x {
			if _, h, ok := T.rangeOf(a.args[0]); ok && h-a.n <= hi-1 && T.Implies(g, T.Not(T.Atom(a))) {
				return true
			}
		}
	}
	return false
}
