package main

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Check{ID: "C12", Level: "proof", Run: checkCommit, Min: 150,
		Expl: "The completeness marker is found in the source: it is the constant that the opening of a file compares with the last bytes of the file on every path to success. For the finalizing operations, under every encoding, the value graph must show: the marker is written on every successful path, it is the last write, every write outside the trailer is followed by a successful sync before the first trailer write on every path that reaches the marker; no other operation writes the marker except at the start of the file."})
}

// readerCtor is the exported function that opens an existing file.
func (P *Prog) ctor(open string) *ssa.Function {
	for _, fn := range P.apiRoots() {
		n := makes(fn)
		if n == nil || !holdsFile(n) || fn.Signature.Recv() != nil {
			continue
		}
		e := NewEng(P, WriterPolicy(P, 0))
		e.Run(fn, nil)
		for _, l := range e.located(kinds("open")) {
			if l.ev.callee == open && makes(fn) == n {
				return fn
			}
		}
	}
	return nil
}

// fixedField is a constant that opening a file demands at some offset.
type fixedField struct {
	fromEnd bool
	off     int64
	width   int64
	val     int64
	pos     *Term
}

// demanded lists the constants a successful open has compared, and the length of
// the trailer it reads at the end of the file.
func (e *Eng) demanded(S *Term) (out []fixedField, trailer int64) {
	T := e.T
	off := func(f *Term) (int64, bool, bool) {
		o := f.args[1]
		if o.isInt() {
			return o.n, false, true
		}
		d := T.Sub(o, T.Op("fsize", "", 0, nil, f.args[0]))
		if d.isInt() {
			return d.n, true, true
		}
		return 0, false, false
	}
	pos, _ := T.ForcedLiterals(S)
	for _, a := range pos {
		if a.op != "eqc" || a.args[0].op != "fle" {
			continue
		}
		if o, end, ok := off(a.args[0]); ok {
			out = append(out, fixedField{fromEnd: end, off: o, width: a.args[0].n, val: a.n})
		}
	}
	for _, t := range T.all {
		if t.op == "fle" {
			if o, end, ok := off(t); ok && end && -o > trailer {
				trailer = -o
			}
		}
	}
	return
}

func checkCommit(c *Ctx) {
	rd := c.P.ctor("os.Open")
	if rd == nil {
		c.fail("anchor", "open", 0, "no exported function opens a column file for reading")
		return
	}
	re := c.analyse(rd, Policy{}, nil)
	ro := re.outcome()
	fields, trailer := re.demanded(ro.any)
	var mark *fixedField
	for i, f := range fields {
		if f.fromEnd && f.off+f.width == 0 && f.val != 0 {
			mark = &fields[i]
		}
	}
	c.ob(mark != nil, "marker demanded", shortFn(rd), rd.Pos(), "%s can succeed on a file that does not end in the completeness marker", shortFn(rd))
	var head *fixedField
	for i, f := range fields {
		if !f.fromEnd && f.off == 0 && f.val != 0 {
			head = &fields[i]
		}
	}
	c.ob(head != nil, "magic demanded", shortFn(rd), rd.Pos(), "%s can succeed on a file that does not start with the magic number", shortFn(rd))
	if mark == nil {
		return
	}
	// the demands hold on every successful path, and every byte of them was really read
	for _, l := range re.located(kinds("read", "stat", "open")) {
		why := re.swallowed(l, ro.any, re.failedCond(l.ev))
		if l.ev.kind == "read" {
			continue // a short read is judged by C14
		}
		c.ob(why == "", "open fails", shortFn(rd)+" "+l.ev.callee, l.ev.pos, "%s: %s", l.ev.callee, why)
	}
	w := c.P.writerType()
	found := 0
	for _, fn := range c.writeRoots() {
		if recvNamed(fn) != w && makes(fn) != w {
			continue
		}
		for _, v := range c.P.variants(fn) {
			e := c.analyse(fn, v.pol, nil)
			found += c.commit(e, fn, v.name, mark, trailer)
		}
	}
	c.ob(found > 0, "marker written", "finalize", rd.Pos(), "no operation writes the completeness marker")
}

func (c *Ctx) commit(e *Eng, fn *ssa.Function, variant string, mark *fixedField, trailer int64) int {
	T := e.T
	o := e.outcome()
	var marks []fieldW
	fs := e.emitted()
	for _, f := range fs {
		if f.width == int(mark.width) && f.val.isInt() && f.val.n == mark.val && f.order == "LE" && f.pos != T.Zero {
			marks = append(marks, f)
		}
	}
	name := shortFn(fn)
	if len(marks) == 0 {
		// not a finalizing operation: nothing to order
		c.ob(true, "no marker outside finalization", name, fn.Pos(), "")
		return 0
	}
	if len(marks) > 1 {
		c.fail("one marker", name, marks[1].l.ev.pos, "%s writes the completeness marker at several places", name)
		return 1
	}
	m := marks[0]
	c.ob(len(m.l.loops) == 0, "one marker", name, m.l.ev.pos, "%s writes the completeness marker in a loop", name)
	c.ob(T.Implies(o.nilS, m.l.ev.guard), "success implies marker", name, m.l.ev.pos, "%s (%s) can succeed without writing the completeness marker", name, variant)
	// position: everything after the marker inside the same write is empty
	end := T.Add(m.pos, T.Int(mark.width))
	c.ob(T.Restrict(T.Sub(T.Add(m.l.ev.fpos, m.l.ev.size), end), m.l.ev.guard) == T.Zero, "marker at the end", name, m.l.ev.pos, "%s (%s): bytes follow the completeness marker", name, variant)
	inTrailer := func(ev *Event) bool {
		d := T.Restrict(T.Sub(ev.fpos, end), T.And(ev.guard, m.l.ev.guard))
		return d.isInt() && d.n >= -trailer && d.n < 0
	}
	var trailerWrites, others []located
	for _, l := range e.located(kinds("write", "truncate")) {
		if l.ev.kind == "write" && len(l.loops) == 0 && inTrailer(l.ev) {
			trailerWrites = append(trailerWrites, l)
		} else {
			others = append(others, l)
		}
		if l.ev != m.l.ev {
			c.ob(!after(l.path, m.l.path) || T.And(l.ev.guard, m.l.ev.guard) == T.False, "marker last", name+" write", l.ev.pos,
				"%s (%s): this write comes after the completeness marker", name, variant)
		}
	}
	syncs := e.located(kinds("sync"))
	for _, l := range others {
		g := l.ev.guard
		if len(l.loops) > 0 {
			g = l.loops[0].entry
		}
		for _, t := range trailerWrites {
			cov := T.False
			for _, s := range syncs {
				if len(s.loops) == 0 && after(s.path, l.path) && after(t.path, s.path) && s.ev.args[0] == l.ev.args[0] {
					cov = T.Or(cov, T.And(s.ev.guard, T.Eq(s.ev.Err(), T.Nil)))
				}
			}
			bad := T.And(T.And(g, t.ev.guard), T.Not(cov))
			c.ob(bad == T.False, "barrier before trailer", name+" write", l.ev.pos,
				"%s (%s): the trailer at %s can reach the disk before the bytes written here: no successful sync in between", name, variant, c.P.Pos(t.ev.pos))
		}
	}
	return 1
}

var _ = types.Typ
