package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C03: the statistics in a reader's block index are those of the items in the
// block.

func init() {
	jobs["statsprefix"] = func(c *Ctx, P *Prog, pl *plan, k int64) { statsJob(c, P, pl, "IndexPrefix", k) }
	register(&Check{ID: "C03", Level: "proof", Min: 250, Trust: rtTrust,
		Run: withPlan(func(c *Ctx) []job {
			return append(append(everyOf("stats", nEnc), everyOf("statsprefix", nEnc)...), everyOf("step", nEnc)...)
		}),
		Expl: "For every column encoding, and for blocks written completely or in part: the writer's operations, finalization and open are composed over an abstract file image (as in C01), and the block index entry that the reader holds for that block is read from the reader's memory. Its count must be the number of items in the block; its minimum and maximum IDs and values must be folds of min/max (with the comparison of the element type) over elements of the block that leave none out; its sum must be the wrapping sum over exactly the block's values; the stored form of signed statistics must be undone by every conversion that aggregation applies to them (bit-level abstract interpretation)."})
	jobs["stats"] = func(c *Ctx, P *Prog, pl *plan, k int64) { statsJob(c, P, pl, "Index", k) }
}

// indexCell finds the block index of a reader.
func (r *formatRun) indexCell(rd *Term, st *State) (Cell, types.Type, bool) {
	if rd.op != "addr" {
		return Cell{}, nil, false
	}
	for cell := range st.mem {
		ty := r.e.cells[cell]
		if cell.obj != rd.ref.(*Obj) || ty == nil {
			continue
		}
		if sl, ok := ty.Underlying().(*types.Slice); ok {
			if es, ok := sl.Elem().Underlying().(*types.Struct); ok && fieldIndex(es, "MinID") >= 0 {
				return cell, sl.Elem(), true
			}
		}
	}
	return Cell{}, nil, false
}

func statsJob(c *Ctx, P *Prog, pl *plan, driver string, k int64) {
	r := pl.run(P, driver, k)
	if !c.takeRun(r) {
		return
	}
	e, T := r.e, r.e.T
	enc := fmt.Sprintf("encoding %d", k)
	ev := c.mark(r, "index")
	if ev == nil {
		return
	}
	st := r.snaps["index"].clone()
	st.guard = ev.guard
	cell, et, ok := r.indexCell(T.Restrict(ev.seqs[0], ev.guard), st)
	if !c.ob(ok, "index", enc, readPos(P, "NewReader"), "the block index of a reader is not found") {
		return
	}
	g := ev.guard
	e.cur = st
	ix := T.Restrict(e.seqOf(st, st.mem[cell], e.cells[cell]), g)
	en := T.Restrict(e.elem(ix, r.c.N, et), g)
	es := et.Underlying().(*types.Struct)
	ins := r.sliceParams()
	if !c.ob(len(ins) == 2, "driver", "inputs", r.fn.Pos(), "the driver has %d inputs", len(ins)) {
		return
	}
	ids, vals := r.params[ins[0]], r.params[ins[1]]
	n := e.lenOf(ids)
	if pm := r.marks["part"]; len(pm) == 1 {
		n = T.Restrict(pm[0].seqs[0], g)
	}
	pos := readPos(P, "WriteBlock")
	backs := P.statDecoders()
	for _, f := range []struct {
		name string
		in   *Term
		kind foldKind
	}{{"Count", nil, fSum}, {"MinID", ids, fMin}, {"MaxID", ids, fMax}, {"MinValue", vals, fMin}, {"MaxValue", vals, fMax}, {"Sum", vals, fSum}} {
		x := fieldIndex(es, f.name)
		if !c.ob(x >= 0, "index", f.name+" "+enc, pos, "the block index has no field %s", f.name) {
			continue
		}
		v := T.Restrict(e.field(en, et, x), g)
		if f.in == vals {
			// signed numbers have a stored form, which the reader undoes
			if v.op == "vmap" {
				enc1 := v.ref.(*ssa.Function)
				for _, b := range backs {
					fact := P.mapPair(enc1, b)
					c.ob(fact.ok, "stored-form", f.name+" "+b.Name(), b.Pos(), "%s does not undo the stored form of %s, %s: %s", b.Name(), f.name, enc1.Name(), fact.why)
				}
				v = v.args[0]
			} else {
				c.ob(len(backs) == 0, "stored-form", f.name+" "+enc, pos, "%s: %s is not stored in the form that the reader decodes: %s", enc, f.name, v.str(5))
			}
		}
		switch {
		case f.in == nil:
			c.ob(e.same(v, n, g), "statistic", f.name+" "+enc, pos, "%s: the index says that a block has %v items, but it has %v", enc, v.str(6), n.str(4))
		case f.kind == fSum:
			i := T.Op("cnt", "i", 0, nil)
			want := e.psumOf(n, e.elem(f.in, i, types.Typ[types.Int64]), i)
			c.ob(e.same(v, want, g), "statistic", f.name+" "+enc, pos, "%s: the sum in the index is %v, not the sum of the values", enc, v.str(8))
		default:
			why := e.extremeOf(v, f.kind, f.in == ids, f.in, n, g)
			c.ob(why == "", "statistic", f.name+" "+enc, pos, "%s: %s in the index is not that of the block: %s", enc, f.name, why)
		}
	}
}

// extremeOf decides that t is the least (greatest) of the first n elements.
func (e *Eng) extremeOf(t *Term, kind foldKind, unsigned bool, in, n, g *Term) string {
	f := newFolder(e, kind)
	f.unsigned = unsigned
	cs := f.fold(t)
	if f.err != "" {
		return f.err
	}
	if len(f.pend) > 0 || len(f.resets) > 0 {
		return "an element restarts it"
	}
	return e.cover(cs, in, n, g)
}

// cover decides that contributions are elements of a sequence and leave out none
// of the first n.
func (e *Eng) cover(cs []comp, in, n, g *Term) string {
	T := e.T
	i := T.idx("i")
	dom := T.And(g, T.And(T.Lt(i, n, kI64, true), T.Not(T.Lt(i, T.Zero, kI64, true))))
	facts := []linFact{{co: map[int]int64{i.id: 1}}}
	miss := dom
	for _, c := range cs {
		if T.And(c.g, g) == T.False {
			continue
		}
		if c.v.op != "elem" || c.v.args[0] != in {
			return "the contribution " + c.v.str(6) + " is not an element"
		}
		x := c.v.args[1]
		p := newProver(e, T.And(g, c.g), nil)
		if !p.le(T.Zero, x) || !p.lt(x, n) {
			return "the contribution " + c.v.str(6) + " may lie outside the block"
		}
		cover := c.g
		switch len(c.ks) {
		case 0:
			cover = T.And(cover, T.Eq(i, x))
		case 1:
			d := T.Sub(x, c.ks[0])
			if mentions(d, c.ks[0]) {
				return "the elements visited are unclear: " + x.str(5)
			}
			cover = e.subst(cover, c.ks[0], T.Sub(i, d))
			cover = T.And(cover, T.Not(T.Lt(T.Sub(i, d), T.Zero, kI64, true)))
		default:
			return "the elements visited are unclear: " + x.str(5)
		}
		miss = T.And(miss, T.Not(cover))
	}
	if !unsatBDD(e, miss, facts) {
		return "some elements are left out"
	}
	return ""
}

// statDecoders are the conversions that aggregation may apply to statistics.
func (P *Prog) statDecoders() []*ssa.Function {
	seen := map[*ssa.Function]bool{}
	var out []*ssa.Function
	var rec func(f *ssa.Function)
	rec = func(f *ssa.Function) {
		if f == nil || seen[f] || !P.isRepo(f) {
			return
		}
		seen[f] = true
		if codecSig(f.Signature) == "map" && !plainMap(f) {
			if kindOf(f.Signature.Results().At(0).Type()) == kI64 {
				out = append(out, f)
			}
			return
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					if g, ok := (*op).(*ssa.Function); ok {
						rec(g)
					}
					if m, ok := (*op).(*ssa.MakeClosure); ok {
						rec(m.Fn.(*ssa.Function))
					}
				}
			}
		}
	}
	for _, f := range P.apiRoots() {
		if f.Signature.Recv() != nil && f.Pkg != nil && f.Pkg.Pkg.Path() == P.mod+"/pkg/col" && strings.HasPrefix(f.Name(), "Aggregate") {
			rec(f)
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].Pos() < out[j].Pos() })
	return out
}

// ---- C24: the bitmap of IDs ----

func init() {
	jobs["idswritten"] = func(c *Ctx, P *Prog, pl *plan, k int64) { idsJob(c, P, pl, "Index", k) }
	jobs["idsprefix"] = func(c *Ctx, P *Prog, pl *plan, k int64) { idsJob(c, P, pl, "IndexPrefix", k) }
	jobs["idsrefused"] = idsRefused
	jobs["idsread"] = idsRead
	jobs["empty"] = emptyJob
	register(&Check{ID: "C24", Level: "proof", Min: 100, Trust: append([]string{
		"sroar: Set, SetMany and Or add exactly the given IDs; FromBuffer undoes ToBuffer, which is a sequence of 16-bit words",
	}, rtTrust...),
		Run: withPlan(func(c *Ctx) []job {
			var out []job
			for _, kind := range []string{"idsread", "idsprefix", "idswritten", "idsrefused", "empty"} {
				out = append(out, everyOf(kind, nEnc)...)
			}
			return out
		}),
		Expl: "For every column encoding: at the point where a block has been written completely, or in part, the writer's bitmap is unfolded into its old content and what was added to it (loops of Set, SetMany, Or); the old content must be there on every path, what was added must be elements of the IDs of the block, and no ID of the block may be left out. A refused block must leave the bitmap as it was. Finalize, open and GetGlobalIDBitmap (asked twice, with and without caching) are composed over the file image: the length and byte i of the buffer the bitmap is made from must be those of the serialised bitmap of the writer. The same for a file without blocks, which must open, report no blocks and have no IDs."})
}

// bitmaps are the writer's fields that hold a bitmap.
func (r *formatRun) bitmaps() []Cell {
	var out []Cell
	for cell, ty := range r.e.cells {
		if cell.obj.root == r.c.w && isBitmapPtr(ty) {
			out = append(out, cell)
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].path < out[j].path })
	return out
}

// idBitmap is the bitmap of the writer and its content at a mark.
func (c *Ctx) idBitmap(r *formatRun, st *State, enc string) (now, before *Term) {
	bs := r.bitmaps()
	if !c.ob(len(bs) == 1, "bitmap", enc, r.fn.Pos(), "the writer has %d ID bitmaps", len(bs)) {
		return nil, nil
	}
	e := r.e
	init := r.initOf(bs[0])
	b := init
	if v, ok := st.mem[bs[0]]; ok {
		b = e.T.Restrict(v, st.guard)
	}
	c.ob(b == init, "bitmap", enc+" replaced", r.fn.Pos(), "%s: a block replaces the ID bitmap by %v", enc, b.str(5))
	return e.bmState(st, b), e.T.Op("bmof", "", 0, nil, init)
}

func idsJob(c *Ctx, P *Prog, pl *plan, driver string, k int64) {
	r := pl.run(P, driver, k)
	if !c.takeRun(r) {
		return
	}
	e, T := r.e, r.e.T
	enc := fmt.Sprintf("encoding %d", k)
	ev := c.mark(r, "more")
	if ev == nil {
		return
	}
	g := ev.guard
	st := r.snaps["more"].clone()
	st.guard = g
	e.cur = st
	ids := r.params[r.sliceParams()[0]]
	n := e.lenOf(ids)
	if pm := r.marks["part"]; len(pm) == 1 {
		n = T.Restrict(pm[0].seqs[0], g)
	}
	now, before := c.idBitmap(r, st, enc)
	if now == nil {
		return
	}
	pos := readPos(P, "WriteBlock")
	f := newFolder(e, fBag)
	var cs []comp
	for _, l := range T.Leaves(T.Restrict(now, g)) {
		cs = append(cs, f.guardAll(f.fold(l), T.LeafGuard(now, l))...)
	}
	if !c.ob(f.err == "", "ids", enc, pos, "%s: the IDs that a block adds are unclear: %s", enc, f.err) {
		return
	}
	var adds []comp
	kept := T.False
	for _, x := range cs {
		if x.v == before {
			kept = T.Or(kept, x.g)
			continue
		}
		adds = append(adds, x)
	}
	c.ob(T.And(g, T.Not(kept)) == T.False, "kept", enc, pos, "%s: a block drops the IDs of earlier blocks", enc)
	why := e.cover(adds, ids, n, g)
	c.ob(why == "", "ids", enc+" exact", pos, "%s: the IDs recorded for a block are not those that it holds: %s", enc, why)
}

func idsRefused(c *Ctx, P *Prog, pl *plan, k int64) {
	r := pl.run(P, "Step", k)
	if !c.takeRun(r) {
		return
	}
	e, T := r.e, r.e.T
	enc := fmt.Sprintf("encoding %d", k)
	ev := c.mark(r, "wrote")
	if ev == nil {
		return
	}
	ok, _ := r.blockOK(ev)
	st := r.snaps["wrote"].clone()
	st.guard = ev.guard
	now, before := c.idBitmap(r, st, enc)
	if now == nil {
		return
	}
	bad := T.And(ev.guard, T.Not(ok))
	c.ob(e.same(now, before, bad), "refused", enc, readPos(P, "WriteBlock"), "%s: IDs are recorded although the block is refused", enc)
}

// bitmapIs: a bitmap that was returned has the given content.
func (c *Ctx) bitmapIs(r *formatRun, ev *Event, st *State, what, key string, want *Term) {
	e, T := r.e, r.e.T
	pos := readPos(c.P, "GetGlobalIDBitmap")
	g := ev.guard
	if !c.ob(e.never(g, ev.seqs[1]), "reads", key, pos, "%s: the ID bitmap of a finished file is not readable: %v", what, T.Restrict(ev.seqs[1], g).str(6)) {
		return
	}
	g = T.And(g, T.Eq(T.Restrict(ev.seqs[1], g), T.Nil))
	st = st.clone()
	st.guard = g
	e.cur = st
	b := T.Restrict(e.bmState(st, T.Restrict(ev.seqs[0], g)), g)
	for _, l := range T.Leaves(b) {
		lg := T.And(g, T.LeafGuard(b, l))
		if lg == T.False || newProver(e, lg, nil).infeasible() || l == want {
			continue
		}
		if l.op != "bmnew" || !strings.HasPrefix(l.aux, "FromBuffer") || len(l.args) != 1 {
			c.ob(l == want, "content", key, pos, "%s: the ID bitmap that is returned is %v, not the one that was written", what, l.str(6))
			continue
		}
		buf := T.mk(&Term{op: "bm", aux: "ToBuffer", args: []*Term{want}})
		got := l.args[0]
		c.ob(e.same(e.lenOf(got), e.lenOf(buf), lg), "content", key+" length", pos, "%s: the serialised ID bitmap has %v bytes, but %v were written", what, e.lenOf(got).str(6), e.lenOf(buf).str(5))
		i := T.Op("cnt", "i", 0, nil)
		g2 := T.And(lg, T.Lt(i, e.lenOf(buf), kI64, true))
		e.cur = &State{guard: g2}
		x, y := T.Restrict(e.elem(got, i, types.Typ[types.Uint8]), g2), e.elem(buf, i, types.Typ[types.Uint8])
		c.ob(e.same(x, y, g2), "content", key+" bytes", pos, "%s: byte i of the serialised ID bitmap is %v, not %v as written%s", what, x.str(6), y.str(6), r.openLookups())
	}
}

func idsRead(c *Ctx, P *Prog, pl *plan, k int64) {
	r := pl.run(P, "IDs", k)
	if !c.takeRun(r) {
		return
	}
	e, T := r.e, r.e.T
	enc := fmt.Sprintf("encoding %d", k)
	m := c.mark(r, "more")
	if m == nil {
		return
	}
	bs := r.bitmaps()
	if !c.ob(len(bs) == 1, "bitmap", enc, r.fn.Pos(), "the writer has %d ID bitmaps", len(bs)) {
		return
	}
	want := T.Op("later", "$bm", 0, nil, r.initOf(bs[0]))
	op := c.mark(r, "opened")
	if op != nil {
		c.ob(e.never(op.guard, op.seqs[0]), "opens", enc, readPos(P, "NewReader"), "%s: a finished file does not open: %v", enc, T.Restrict(op.seqs[0], op.guard).str(6))
	}
	for _, n := range []string{"bitmap", "again"} {
		if ev := c.mark(r, n); ev != nil {
			c.bitmapIs(r, ev, r.snaps[n], n+", "+enc, n+" "+enc, want)
		}
	}
}

// a file without blocks
func emptyJob(c *Ctx, P *Prog, pl *plan, k int64) {
	r := P.compose("Empty", k, nil, nil, 0)
	if !c.takeRun(r) {
		return
	}
	e, T := r.e, r.e.T
	enc := fmt.Sprintf("encoding %d", k)
	op, cnt, bm := c.mark(r, "opened"), c.mark(r, "count"), c.mark(r, "bitmap")
	if op == nil || cnt == nil || bm == nil {
		return
	}
	c.ob(e.never(op.guard, op.seqs[0]), "empty-opens", enc, readPos(P, "NewReader"), "%s: a finished file without blocks does not open: %v", enc, T.Restrict(op.seqs[0], op.guard).str(6))
	c.ob(e.same(cnt.seqs[0], T.Zero, cnt.guard), "empty-count", enc, readPos(P, "NewReader"), "%s: a file without blocks is reported to have %v", enc, T.Restrict(cnt.seqs[0], cnt.guard).str(6))
	c.bitmapIs(r, bm, r.snaps["bitmap"], "empty file, "+enc, "empty "+enc, T.Op("bmempty", "", 0, nil))
}

// ---- C22: block size and alignment ----

func init() {
	jobs["size"] = sizeJob
	register(&Check{ID: "C22", Level: "proof", Min: 40, Trust: rtTrust,
		Run:  withPlan(func(c *Ctx) []job { return everyOf("size", nEnc) }),
		Expl: "For every column encoding, for blocks written completely and in part: the file position after a successful block, a linear form over section sizes and the padding, must be 0 modulo 4096 on every path; and where the block holds more than one item, its size greater than the target size must contradict the path, using for partial blocks what the search loop established about the number of items it settled on."})
}

const pageSize = 4096

func sizeJob(c *Ctx, P *Prog, pl *plan, k int64) {
	enc := fmt.Sprintf("encoding %d", k)
	for _, d := range []string{"Index", "IndexPrefix"} {
		r := pl.run(P, d, k)
		if !c.takeRun(r) {
			return
		}
		e, T := r.e, r.e.T
		ev := c.mark(r, "more")
		if ev == nil {
			return
		}
		g := ev.guard
		st := r.snaps["more"].clone()
		st.guard = g
		e.cur = st
		ids := r.params[r.sliceParams()[0]]
		n := e.lenOf(ids)
		if pm := r.marks["part"]; len(pm) == 1 {
			n = T.Restrict(pm[0].seqs[0], g)
		}
		f := r.c.wfile(st)
		if !c.ob(f != nil && r.c.start != nil, "file", d+" "+enc, r.fn.Pos(), "%s: the writer's file is not known", enc) {
			return
		}
		pos := readPos(P, "WriteBlock")
		end := T.Restrict(e.filePos(st, f, "pos"), g)
		c.ob(e.same(T.Lift("", func(a []*Term) *Term { return T.modPow2(a[0], pageSize) }, end), T.Zero, g), "page", d+" "+enc, pos, "%s: a block may end at %v, which is not shown to be a multiple of %d", enc, end.str(6), pageSize)
		tgt := r.target()
		if !c.ob(tgt != nil, "target", d+" "+enc, pos, "the writer has no target size") {
			return
		}
		big := T.And(g, T.Lt(T.Int(1), n, kI64, true))
		big = T.And(big, T.Lt(tgt, T.Sub(end, r.c.start), kU64, false))
		c.ob(big == T.False || unsatBDD(e, big, nil), "fits", d+" "+enc, pos, "%s: a block of several items may be larger (%v) than the target size %v", enc, T.Sub(end, r.c.start).str(6), tgt)
	}
}

// target is the writer's target size.
func (r *formatRun) target() *Term {
	path := r.e.P.optionField("pkg/col", "WithBlockSize")
	for cell, ty := range r.e.cells {
		if cell.obj.root == r.c.w && cell.path == path && kindOf(ty) != 0 {
			return r.initOf(cell)
		}
	}
	return nil
}
