package main

import (
	"fmt"
	"go/token"
)

// Opening a file (C25) and what an opened file reports (C26).

func init() {
	register(&Check{ID: "C25", Level: "proof", Run: checkOpen, Min: 20,
		Expl: "The condition under which opening a file succeeds is computed as a formula over the bytes of the file, and what the constructor of a writer puts into the header is taken from its source. For each field of the header that says how the rest is to be read (magic number, version, column type, compression type; the offsets are those of column_format_spec.md) the formula must imply that the field is the constant that a writer stores, for the encoding that it is one of the eight supported ones, and for the end of the file that it is the magic number. The number of blocks that the opened reader reports must equal the length of its block index. In the other direction no such constant and no supported encoding may be excluded."})
	register(&Check{ID: "C26", Level: "proof", Run: checkReports, Min: 15,
		Expl: "Version, encoding, variable-length and delta flags of a reader are computed as terms over the bytes of the file, under the condition that it was opened, and compared with the header fields of column_format_spec.md; the flags are decided for each supported encoding. The constructor of a writer must put the encoding that it is given into that field."})
}

// The fields of the header that say how the rest of the file is to be read
// (column_format_spec.md, section 3).
var formatFields = []struct {
	name  string
	off   int64
	width int64
}{{"magic number", 0, 8}, {"version", 8, 4}, {"column type", 12, 4}, {"compression type", 28, 4}}

const encodingAt, encodingWidth = 32, 4

type opening struct {
	r   *formatRun
	e   *Eng
	S   *Term // the file was opened
	f   *Term // the opened file
	o   string
	pos token.Pos
}

// opening analyses the opening of a file.
func (c *Ctx) opening() *opening {
	P, err := c.P.withDrivers()
	if err != nil {
		c.fail("driver", "build", 0, "the drivers do not build: %v", err)
		return nil
	}
	r := P.observe("Opened")
	if !c.takeRun(r) {
		return nil
	}
	ev := c.mark(r, "opened")
	if ev == nil {
		return nil
	}
	e, T := r.e, r.e.T
	o := &opening{r: r, e: e, S: T.And(ev.guard, T.Eq(ev.args[0], T.Nil)), o: "LE", pos: c.P.ctor("os.Open").Pos()}
	if !c.ob(o.S != T.False, "reached", "open success", r.fn.Pos(), "no file can be opened") {
		return nil
	}
	n := 0
	for _, l := range e.located(kinds("read")) {
		if o.f == nil || o.f != l.ev.args[0] {
			o.f = l.ev.args[0]
			n++
		}
	}
	if !c.ob(n == 1, "one file", "open", r.fn.Pos(), "opening a file reads %d files", n) {
		return nil
	}
	return o
}

// at is a field of the opened file.
func (o *opening) at(off, width int64) *Term {
	k := kU64
	if width == 4 {
		k = mkKind(32, false)
	}
	T := o.e.T
	return T.mk(&Term{op: "fle", aux: o.o, n: width, kind: k, args: []*Term{o.f, T.Int(off)}})
}

// holds: the condition holds whenever a file was opened.
func (o *opening) holds(cond *Term, under ...*Term) bool {
	T := o.e.T
	g := T.And(o.S, T.Not(cond))
	for _, u := range under {
		g = T.And(g, u)
	}
	return g == T.False || unsatBDD(o.e, g, nil) || newProver(o.e, g, nil).infeasible()
}

// written: what a new writer puts into the header.
func (c *Ctx) written(P *Prog) (*formatRun, map[int64]fieldW) {
	r := P.observe("Fresh")
	if !c.takeRun(r) {
		return nil, nil
	}
	ev := c.mark(r, "fresh")
	if ev == nil {
		return nil, nil
	}
	T := r.e.T
	S := T.And(ev.guard, T.Eq(ev.args[1], T.Nil))
	out := map[int64]fieldW{}
	for _, f := range r.e.emitted() {
		if f.pos.isInt() && T.Implies(S, f.l.ev.guard) {
			f.val = T.Restrict(f.val, S)
			out[f.pos.n] = f
			c.notes = append(c.notes, fmt.Sprintf("a new writer puts %s (%d bytes) at offset %d", f.val, f.width, f.pos.n))
		}
	}
	return r, out
}

func checkOpen(c *Ctx) {
	o := c.opening()
	if o == nil {
		return
	}
	e, T := o.e, o.e.T
	w, head := c.written(e.P)
	if w == nil {
		return
	}
	for _, ff := range formatFields {
		f, ok := head[ff.off]
		if !c.ob(ok && int64(f.width) == ff.width && f.val.isInt(), "constant written", ff.name, w.fn.Pos(), "the %s that a new writer puts at offset %d is not a constant of %d bytes", ff.name, ff.off, ff.width) {
			continue
		}
		v := T.Int(f.val.n)
		c.ob(o.holds(T.Eq(o.at(ff.off, ff.width), v)), "demanded", ff.name, o.pos, "a file whose %s (offset %d) is not %d can be opened", ff.name, ff.off, f.val.n)
		c.ob(T.And(o.S, T.Eq(o.at(ff.off, ff.width), v)) != T.False, "accepted", ff.name, o.pos, "no file with the %s %d can be opened", ff.name, f.val.n)
	}
	enc := o.at(encodingAt, encodingWidth)
	c.ob(o.holds(T.Lt(enc, T.Int(nEnc), mkKind(32, false), false)), "demanded", "encoding", o.pos, "a file with an encoding of %d or more can be opened", nEnc)
	for k := int64(0); k < nEnc; k++ {
		c.ob(T.And(o.S, T.Eq(enc, T.Int(k))) != T.False, "accepted", fmt.Sprintf("encoding %d", k), o.pos, "no file with the encoding %d can be opened", k)
	}
	// the same magic number at the end
	if f, ok := head[0]; ok && f.val.isInt() {
		last := T.mk(&Term{op: "fle", aux: o.o, n: 8, kind: kU64, args: []*Term{o.f, T.Sub(T.Op("fsize", "", 0, nil, o.f), T.Int(8))}})
		c.ob(o.holds(T.Eq(last, T.Int(f.val.n))), "demanded", "trailing magic number", o.pos, "a file that does not end in the magic number can be opened")
	}
	c.indexed(o)
}

// indexed: an opened file has an index entry for each block that it reports.
func (c *Ctx) indexed(o *opening) {
	e, T := o.e, o.e.T
	cnt, ix := c.mark(o.r, "count"), c.mark(o.r, "index")
	if cnt == nil || ix == nil {
		return
	}
	rd := T.Restrict(ix.args[0], o.S)
	named := makes(c.P.ctor("os.Open"))
	if !c.ob(rd.op == "addr" && named != nil, "reader", "index", o.pos, "the opened reader is not one object") {
		return
	}
	path, _, _ := c.P.indexLens(named)
	if !c.ob(path != "", "index", "index", o.pos, "the block index of a reader was not found") {
		return
	}
	st := o.r.snaps["index"]
	var ln *Term
	for cell, v := range st.mem {
		if cell.obj == rd.ref.(*Obj) && cell.path == path {
			ln = e.grown(T.Restrict(v, o.S))
		}
	}
	if !c.ob(ln != nil, "index", "index value", o.pos, "an opened reader has no block index") {
		return
	}
	n := T.Restrict(cnt.args[0], o.S)
	ln = T.Restrict(ln, o.S)
	same := o.holds(T.Eq(n, ln)) || o.holds(T.Not(T.Lt(n, ln, kU64, true))) && o.holds(T.Not(T.Lt(ln, n, kU64, true)))
	c.ob(same, "as many entries as blocks", "index", o.pos, "an opened file may report %s blocks and have %s index entries", n, ln)
}

func checkReports(c *Ctx) {
	o := c.opening()
	if o == nil {
		return
	}
	T := o.e.T
	val := func(m string) *Term {
		ev := c.mark(o.r, m)
		if ev == nil {
			return nil
		}
		return T.Restrict(ev.args[0], o.S)
	}
	pos := o.pos
	if v := val("version"); v != nil {
		c.ob(o.holds(T.Eq(v, o.at(8, 4))), "reported", "version", pos, "the version that an opened file reports is %s, not the one of its header", v)
	}
	enc := o.at(encodingAt, encodingWidth)
	if v := val("kind"); v != nil {
		c.ob(o.holds(T.Eq(v, enc)), "reported", "encoding", pos, "the encoding that an opened file reports is %s, not the one of its header", v)
	}
	vi, de := val("varint"), val("delta")
	if vi == nil || de == nil {
		return
	}
	for k := int64(0); k < nEnc; k++ {
		is := T.Eq(enc, T.Int(k))
		want := vi
		if k < 4 {
			want = T.Not(vi)
		}
		c.ob(o.holds(want, is), "reported", fmt.Sprintf("variable length of encoding %d", k), pos, "what an opened file reports about variable-length encoding is wrong for encoding %d", k)
		if k <= 4 {
			want = de
			if k == 0 || k == 4 {
				want = T.Not(de)
			}
			c.ob(o.holds(want, is), "reported", fmt.Sprintf("delta of encoding %d", k), pos, "what an opened file reports about delta encoding is wrong for encoding %d", k)
		}
	}
	w, head := c.written(o.e.P)
	if w == nil {
		return
	}
	f, ok := head[encodingAt]
	for _, fn := range c.writeRoots() {
		if recvNamed(fn) != c.P.writerType() {
			continue
		}
		for k := int64(0); k < nEnc; k++ {
			e := c.analyse(fn, WriterPolicy(c.P, k), nil)
			for _, h := range e.emitted() {
				if !h.pos.isInt() || h.pos.n >= encodingAt+encodingWidth || h.pos.n+int64(h.width) <= 8 {
					continue
				}
				name := fmt.Sprintf("%s encoding %d offset %d", shortFn(fn), k, h.pos.n)
				val := e.T.Restrict(h.val, h.l.ev.guard)
				switch h.pos.n {
				case encodingAt:
					c.ob(h.width == encodingWidth && val == e.T.Int(k), "kept", name, h.l.ev.pos, "%s stores the encoding %s in the header of a file of encoding %d", shortFn(fn), val, k)
				case 8:
					v, ok := head[8]
					c.ob(ok && h.width == 4 && v.val.isInt() && val == e.T.Int(v.val.n), "kept", name, h.l.ev.pos, "%s stores the version %s in the header", shortFn(fn), val)
				}
			}
		}
	}
	c.ob(ok && f.width == encodingWidth && f.val == w.params[1], "stored", "encoding", w.fn.Pos(), "a new writer does not store the encoding that it is given in the header")
}

// observe analyses a driver without any assumption about the file.
func (P *Prog) observe(name string) *formatRun {
	fn := P.Func(driverPkg, "", name)
	if fn == nil {
		return nil
	}
	r := &formatRun{fn: fn, marks: map[string][]*Event{}, snaps: map[string]*State{}}
	r.e = NewEng(P, Policy{Call: func(e *Eng, fr *Frame, st *State, ci *callInfo) ([]*Term, bool) {
		if ci.fn == nil || ci.fn.Pkg == nil || ci.fn.Pkg.Pkg != fn.Pkg.Pkg || ci.fn == fn {
			return nil, false
		}
		ev := e.emit(fr, st, &Event{kind: "mark", callee: ci.fn.Name(), args: ci.args, errIdx: -1}, ci.pos, ci.key)
		r.marks[ci.fn.Name()] = append(r.marks[ci.fn.Name()], ev)
		r.snaps[ci.fn.Name()] = st.clone()
		return []*Term{}, true
	}})
	r.e.Run(fn, func(st *State, params []*Term) { r.params = append([]*Term{}, params...) })
	return r
}

// grown is the length of a slice that a loop appended to.
func (e *Eng) grown(v *Term) *Term { return e.grownUnder(v, e.T.True) }

// grownUnder: the same where the loop was left at its end.
func (e *Eng) grownUnder(v, g *Term) *Term {
	T := e.T
	if v.op == "fin" {
		L := v.ref.(*Loop)
		for _, m := range L.mus {
			if m.term != v.args[0] || m.next == nil || m.next.op != "app" || m.next.args[0] != m.term || L.trip == nil || !L.tripNN {
				continue
			}
			end := 0
			for _, ex := range L.exits {
				if ex.header {
					end++
				} else if ex.X == nil || T.And(g, ex.X) != T.False {
					end = 2
				}
			}
			if end != 1 {
				continue
			}
			return T.Add(e.grownUnder(m.init, g), T.Scale(L.trip, int64(len(m.next.args)-1)))
		}
	}
	return e.lenOf(v)
}
