package main

import (
	"go/types"
	"path/filepath"
	"sort"

	"golang.org/x/tools/go/ssa"
)

// withDrivers loads the program together with the drivers of composition mode.
func (P *Prog) withDrivers() (*Prog, error) {
	dir := filepath.Join(P.dir, driverPkg)
	return LoadProg(P.dir, map[string][]byte{filepath.Join(dir, "drivers.go"): []byte(driverSource(P.mod))})
}

// Files of up to 1 TiB are considered: 2^28 blocks, as every block takes a page.
const maxFile = 1 << 40

// formatRun is one driver analysed with one encoding.
type formatRun struct {
	e      *Eng
	c      *composer
	fn     *ssa.Function
	marks  map[string][]*Event
	snaps  map[string]*State // the state at each mark
	params []*Term
}

// compose analyses a driver. group == nil: nothing is known about the writer.
func (P *Prog) compose(name string, k int64, group, havoc map[string]bool, header int64) *formatRun {
	fn := P.Func(driverPkg, "", name)
	if fn == nil {
		return nil
	}
	c := &composer{header: header, group: group, havoc: havoc, hook: map[string]func(fr *Frame, st *State, c *callInfo){}}
	r := &formatRun{c: c, fn: fn, marks: map[string][]*Event{}, snaps: map[string]*State{}}
	encF := P.encField()
	pol := Policy{Compose: c}
	pol.Call = func(e *Eng, fr *Frame, st *State, ci *callInfo) ([]*Term, bool) {
		if ci.fn != nil && ci.fn.Pkg != nil && ci.fn.Pkg.Pkg.Path() == P.mod+"/"+driverPkg && ci.fn != fn {
			ev := e.emit(fr, st, &Event{kind: "mark", callee: ci.fn.Name(), args: ci.args, errIdx: -1}, ci.pos, ci.key)
			ev.seqs = nil
			for i, a := range ci.args {
				if isSlice(ci.argTys[i]) {
					a = e.seqOf(st, a, ci.argTys[i])
				}
				ev.seqs = append(ev.seqs, a)
			}
			r.snaps[ci.fn.Name()] = st.clone()
			if h := c.hook[ci.fn.Name()]; h != nil {
				h(fr, st, ci)
			}
			return []*Term{}, true
		}
		return opaqueCodecs(e, fr, st, ci)
	}
	pol.InitCell = func(e *Eng, cell Cell, t types.Type) *Term {
		T := e.T
		if c.w == nil || cell.obj.root == nil {
			return nil
		}
		if cell.path == "$pos" && fromWriter(cell.obj.root, c.w) {
			p := T.mk(&Term{op: "fpos", aux: "pos", args: []*Term{cell.obj.root}})
			c.start = p
			e.axiomLe(T.Int(c.header), p)
			e.axiomLe(p, T.Int(maxFile))
			return p
		}
		if cell.obj.root == c.w {
			if cell.path == encF {
				return T.Int(k)
			}
			if group[cell.path] {
				if isSlice(t) {
					return T.Op("pseq", cell.path, 0, nil, c.N)
				}
				return c.N
			}
		}
		return nil
	}
	e := NewEng(P, pol)
	r.e = e
	c.N, c.M = e.T.Op("cnt", "N", 0, nil), e.T.Op("cnt", "M", 0, nil)
	for _, x := range []*Term{c.N, c.M} {
		e.axiomLe(e.T.Zero, x)
	}
	e.axiomLe(e.T.Add(c.N, c.M), e.T.Int(maxFile/4096))
	c.hook["more"] = c.more
	c.hook["fresh"] = func(fr *Frame, st *State, ci *callInfo) {
		for _, l := range e.T.Leaves(ci.args[0]) {
			if l.op == "addr" {
				c.wobj = l.ref.(*Obj)
			}
		}
	}
	e.Run(fn, func(st *State, params []*Term) {
		defer func() { r.params = append([]*Term{}, params...) }()
		for i, p := range fn.Params {
			if n, ok := p.Type().(*types.Pointer); ok && types.Identical(n.Elem(), P.writerType()) {
				c.w = params[i]
			}
			if p.Name() == "block" {
				params[i] = c.N
			}
			if p.Name() == "kind" {
				params[i] = e.T.Int(k)
			}
		}
	})
	for _, l := range e.located(kinds("mark")) {
		r.marks[l.ev.callee] = append(r.marks[l.ev.callee], l.ev)
	}
	return r
}

// fromWriter: a value that the writer held at the start.
func fromWriter(t, w *Term) bool {
	if t.op != "init" {
		return false
	}
	o, ok := t.ref.(*Obj)
	return ok && o.root == w
}

// more: any number of later blocks, written the same way.
func (c *composer) more(fr *Frame, st *State, ci *callInfo) {
	e, T := c.e, c.e.T
	f := c.wfile(st)
	if f == nil {
		c.fail("the writer has no file")
		return
	}
	if !c.atEnd(st, f) {
		c.fail("a block does not end at the end of the file: %v under %v", T.Restrict(c.end(st, f), st.guard), st.guard.str(6))
	}
	p := e.filePos(st, f, "pos")
	q := T.Op("fpos", "later", 0, nil)
	if c.start != nil && newProver(e, st.guard, nil).le(c.start, p) {
		e.axiomLe(c.start, q)
	}
	e.axiomLe(T.Int(c.header), q)
	e.axiomLe(q, T.Int(maxFile))
	st.guard = T.And(st.guard, T.Not(T.Lt(q, p, kI64, true)))
	e.setFilePos(st, f, "pos", q)
	var cells []Cell
	for cell := range st.mem {
		cells = append(cells, cell)
	}
	sort.Slice(cells, func(i, j int) bool { return cells[i].String() < cells[j].String() })
	for _, cell := range cells {
		v := st.mem[cell]
		if cell.obj.root != nil && cell.path == "$bm" {
			st.mem[cell] = T.Op("later", cell.path, 0, nil, cell.obj.root)
			continue
		}
		if cell.obj.root != c.w {
			continue
		}
		if c.havoc[cell.path] {
			// whatever the later blocks left there
			st.mem[cell] = T.Op("later", cell.path, 0, nil, c.w)
			continue
		}
		if !c.group[cell.path] {
			continue
		}
		if isSlice(e.cells[cell]) {
			v, why := e.settle(st, v, e.cells[cell])
			if why != "" {
				c.fail("%s: %s", cell.path, why)
			}
			st.mem[cell] = T.Op("appseq", "", 0, nil, v, T.Op("pseq", "later"+cell.path, 0, nil, c.M))
		} else {
			st.mem[cell] = T.Add(v, c.M)
		}
	}
}

// axiomLe assumes a <= b.
func (e *Eng) axiomLe(a, b *Term) {
	p := &prover{e: e, T: e.T}
	x, ok1 := p.lin(a)
	y, ok2 := p.lin(b)
	if !ok1 || !ok2 || a.op == "ite" || b.op == "ite" {
		e.unsupported("an assumption about %v and %v", a, b)
		return
	}
	if f, ok := y.combine(1, x, -1); ok {
		e.axioms = append(e.axioms, f)
		e.axVer++
	}
}

// settle is the value of a slice that is only ever appended to, with stores to
// elements that were appended since put into place. Stores to other elements
// are reported.
func (e *Eng) settle(st *State, v *Term, ty types.Type) (*Term, string) {
	T := e.T
	why := ""
	own := func(x *Term) (content *Term, changed bool) {
		m, ok := st.mem[Cell{e.rootObj(x, ty), "*[]"}]
		if !ok {
			return nil, false
		}
		m = T.Restrict(m, st.guard)
		return m, m != T.Op("arr", "", 0, nil, x)
	}
	one := func(x *Term) *Term {
		for b := x; b.op == "app" || b.op == "appseq"; {
			b = b.args[0]
			for _, l := range T.Leaves(b) {
				if _, ch := own(l); ch && l != T.Nil {
					why = "an earlier entry is changed in place"
				}
			}
		}
		content, ch := own(x)
		if !ch || x == T.Nil {
			return x
		}
		return T.Lift("", func(a []*Term) *Term {
			var stores []*Term
			m := a[0]
			for m.op == "upd" {
				stores = append(stores, m)
				m = m.args[0]
			}
			if m.op != "arr" || m.args[0] != x || len(stores) > 0 && x.op != "app" {
				why = "an entry is changed in place: " + m.str(3)
				return x
			}
			args := append([]*Term(nil), x.args...)
			base := e.lenOf(x.args[0])
			for i := len(stores) - 1; i >= 0; i-- {
				d := T.Restrict(T.Sub(stores[i].args[1], base), st.guard)
				if !d.isInt() || d.n < 0 || d.n+1 >= int64(len(args)) {
					why = "an entry is changed in place, at " + stores[i].args[1].str(4)
					return x
				}
				args[d.n+1] = stores[i].args[2]
			}
			return T.Op("app", "", 0, nil, args...)
		}, content)
	}
	r := T.Lift("", func(a []*Term) *Term { return one(a[0]) }, T.Restrict(v, st.guard))
	return r, why
}
