package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"runtime/debug"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Composition mode: a driver writes with an arbitrary writer and reads the file
// back. Reads of the file are answered from the image that the writes left, so
// that what a reader gets is a term over what the writer was given.
//
// File operations succeed here (failures are the business of C13 and C14).

type composer struct {
	e      *Eng
	P      *Prog
	w      *Term // the writer, a parameter of the driver
	image  []imgW
	group  map[string]bool // receiver cells that hold one entry per block
	havoc  map[string]bool // other receiver cells that a block changes
	N      *Term           // blocks written before
	M      *Term           // blocks written later
	header int64           // where the first block starts
	wobj   *Obj            // the writer, where the driver makes it
	start  *Term           // where the block of the driver starts
	marks  []*Event
	hook   map[string]func(fr *Frame, st *State, c *callInfo)
	why    []string // lookups that failed
	pairs  map[[2]*ssa.Function]codecFact
	decs   []*ssa.Function
	size   map[*ssa.Function]codecFact
	stats  struct{ lookups, fills, pairs int }
}

// imgW is one write to the file, or one write per iteration of a loop.
type imgW struct {
	ev    *Event
	guard *Term
	pos   *Term
	size  *Term
	data  *Term
	loops []*Loop
}

var vdebug = os.Getenv("VDEBUG") != ""

func dbg(f string, a ...any) {
	if vdebug {
		fmt.Fprintf(os.Stderr, f+"\n", a...)
	}
}

func (c *composer) fail(f string, a ...any) {
	if s := os.Getenv("VSTACK"); s != "" && strings.Contains(fmt.Sprintf(f, a...), s) {
		debug.PrintStack()
	}
	s := fmt.Sprintf(f, a...)
	dbg("? %s", s)
	for _, x := range c.why {
		if x == s {
			return
		}
	}
	c.why = append(c.why, s)
}

// ---- the file ----

// endCell: nil while the position is at the end of the file.
func (c *composer) end(st *State, f *Term) *Term {
	if c.atEnd(st, f) {
		return c.e.filePos(st, f, "pos")
	}
	x := c.e.T.Restrict(st.mem[c.e.fileCell(f, "end")], st.guard)
	return c.e.T.Lift("", func(x []*Term) *Term {
		if x[0] == c.e.T.Nil {
			return c.e.filePos(st, f, "pos")
		}
		return x[0]
	}, x)
}

func (c *composer) atEnd(st *State, f *Term) bool {
	x := st.mem[c.e.fileCell(f, "end")]
	return x == nil || c.e.T.Restrict(x, st.guard) == c.e.T.Nil
}

// wrote moves the end of the file after a write.
func (c *composer) wrote(st *State, ev *Event, f, pos, size, data *Term) {
	e, T := c.e, c.e.T
	c.image = append(c.image, imgW{ev: ev, guard: st.guard, pos: pos, size: size, data: data, loops: append([]*Loop(nil), e.loopStk...)})
	if c.atEnd(st, f) {
		return
	}
	end := c.end(st, f)
	np := T.Add(pos, size)
	p := newProver(e, st.guard, nil)
	switch {
	case p.le(end, np):
		st.mem[e.fileCell(f, "end")] = T.Nil
	case p.le(np, end):
	default:
		c.fail("the end of the file is unclear after %s at %s", ev.callee, e.P.Pos(ev.pos))
		st.mem[e.fileCell(f, "end")] = T.Op("unkpos", "", 0, ev)
	}
}

func (c *composer) seek(st *State, f, np *Term) {
	e, T := c.e, c.e.T
	end := c.end(st, f)
	if np == end {
		st.mem[e.fileCell(f, "end")] = T.Nil
	} else {
		st.mem[e.fileCell(f, "end")] = end
	}
	e.cells[e.fileCell(f, "end")] = types.Typ[types.Int64]
}

// wfile is the file of the writer.
func (c *composer) wfile(st *State) *Term {
	for cell := range st.mem {
		if (c.w != nil && cell.obj.root == c.w || c.wobj != nil && cell.obj == c.wobj) && c.e.cells[cell] != nil && types.TypeString(c.e.cells[cell], nil) == "*os.File" {
			return st.mem[cell]
		}
	}
	return nil
}

// ---- reading from the image ----

// found is the write that a position belongs to.
type found struct {
	data *Term // with the iteration filled in
	d    *Term // offset within the data
	size *Term
}

// locate finds the last write that covers [pos, pos+w).
// A split is an atom whose value decides which.
func (c *composer) locate(pos *Term, w int64, what string) (f found, ok bool, split *Term) {
	e, T := c.e, c.e.T
	c.stats.lookups++
	guard := e.guard()
	p := newProver(e, guard, nil)
	W := T.Int(w)
	pos = T.Restrict(pos, guard)
	if pos.op == "ite" {
		return f, false, pos.args[0]
	}
	for i := len(c.image) - 1; i >= 0; i-- {
		x := c.image[i]
		if T.And(x.guard, guard) == T.False {
			continue
		}
		x.pos, x.size = T.Restrict(x.pos, guard), T.Restrict(x.size, guard)
		if x.pos.op == "ite" {
			return f, false, x.pos.args[0]
		}
		if x.size.op == "ite" {
			return f, false, x.size.args[0]
		}
		if len(x.loops) == 0 {
			if p.le(T.Add(pos, W), x.pos) || p.le(T.Add(x.pos, x.size), pos) {
				continue
			}
			d := T.Sub(pos, x.pos)
			if !(p.le(T.Zero, d) && p.le(T.Add(d, W), x.size)) {
				c.fail("%s: cannot tell whether %v is within the %v bytes that %s writes at %v", what, pos, x.size, e.P.Pos(x.ev.pos), x.pos)
				return f, false, nil
			}
			if g := e.decide(x.guard, guard); g == T.False {
				continue
			} else if g != T.True {
				return f, false, g.args[0]
			}
			return found{x.data, d, x.size}, true, nil
		}
		if len(x.loops) > 1 {
			c.fail("%s: write in nested loops at %s", what, e.P.Pos(x.ev.pos))
			return f, false, nil
		}
		L := x.loops[0]
		k, in, why := c.iteration(p, x, L, pos, W)
		if why != "" {
			c.fail("%s: %s (write at %s)", what, why, e.P.Pos(x.ev.pos))
			return f, false, nil
		}
		if !in {
			continue
		}
		g := e.decide(e.subst(x.guard, L.K, k), guard)
		if g == T.False {
			continue
		}
		if g != T.True {
			return f, false, g.args[0]
		}
		return found{e.subst(x.data, L.K, k), T.Sub(pos, e.subst(x.pos, L.K, k)), e.subst(x.size, L.K, k)}, true, nil
	}
	c.fail("%s: nothing is written at %v", what, pos)
	return f, false, nil
}

// cases evaluates under the values of the atoms that fn asks for.
func (c *composer) cases(depth int, fn func() ([]*Term, *Term)) []*Term {
	e, T := c.e, c.e.T
	r, a := fn()
	if a == nil {
		return r
	}
	if depth > 8 {
		c.fail("too many cases: %v", a)
		return nil
	}
	save := e.cur
	defer func() { e.cur = save }()
	g := e.guard()
	at := T.Atom(a)
	var out [2][]*Term
	for i, lit := range []*Term{at, T.Not(at)} {
		g2 := T.And(g, lit)
		if g2 == T.False || newProver(e, g2, nil).infeasible() {
			continue
		}
		e.cur = &State{guard: g2}
		if out[i] = c.cases(depth+1, fn); out[i] == nil {
			return nil
		}
	}
	if out[0] == nil || out[1] == nil {
		return append(out[0], out[1]...)
	}
	for i := range out[0] {
		out[0][i] = T.Ite(at, out[0][i], out[1][i])
	}
	return out[0]
}

// iteration finds which iteration of a loop wrote a position (in == false: none).
func (c *composer) iteration(p *prover, x imgW, L *Loop, pos, W *Term) (k *Term, in bool, why string) {
	e, T := c.e, c.e.T
	if L.trip == nil || !L.tripNN {
		return nil, false, "the number of iterations is unknown"
	}
	trip := L.trip
	headerExit := false
	for _, le := range L.exits {
		if le.header && T.Implies(p.guard, le.X) {
			headerExit = true
		}
	}
	b, stride, body := c.progress(x.pos, L)
	if b == nil {
		return nil, false, fmt.Sprintf("position %v", x.pos)
	}
	var total *Term
	if body != nil {
		total = e.psum(trip, body)
	} else {
		total = T.Scale(trip, stride)
	}
	// outside of the region
	if p.le(T.Add(pos, W), b) {
		return nil, false, ""
	}
	if total.op != "ite" && p.le(T.Add(b, total), pos) {
		return nil, false, ""
	}
	if !headerExit {
		return nil, false, "the loop may end early"
	}
	delta := T.Sub(pos, b)
	if body == nil {
		// pos = b + stride*k + r
		args, coef, cst := T.linParts(delta)
		q := T.Zero
		for i, a := range args {
			if coef[i]%stride != 0 {
				return nil, false, fmt.Sprintf("position %v within a stride of %d", delta, stride)
			}
			q = T.Add(q, T.Scale(a, coef[i]/stride))
		}
		r := ((cst % stride) + stride) % stride
		k = T.Add(q, T.Int((cst-r)/stride))
		if !x.size.isInt() || !W.isInt() || x.size.n > stride {
			return nil, false, "the size of the write differs from the stride"
		}
		if r >= x.size.n && r+W.n <= stride {
			return nil, false, "" // between the writes of this loop
		}
		if r+W.n > x.size.n {
			return nil, false, "the read spans two writes"
		}
	} else {
		args, coef, _ := T.linParts(delta)
		for i, a := range args {
			if a.op == "psum" && a.args[1] == body && coef[i] == 1 && k == nil {
				k = a.args[0]
			}
		}
		if k == nil {
			k = T.Zero
		}
		rest := T.Sub(delta, e.psum(k, body))
		sz := e.apply(body, k)
		if !(p.le(T.Zero, rest) && p.le(T.Add(rest, W), sz)) {
			return nil, false, fmt.Sprintf("%v is not within item %v", delta, k)
		}
	}
	if !(p.le(T.Zero, k) && p.lt(k, trip)) {
		return nil, false, fmt.Sprintf("item %v of %v", k, trip)
	}
	return k, true, ""
}

// progress splits a position into base + stride*K, or base + psum(K, body).
func (c *composer) progress(pos *Term, L *Loop) (base *Term, stride int64, body *Term) {
	T := c.e.T
	if pos.op == "ite" {
		return nil, 0, nil
	}
	args, coef, _ := T.linParts(pos)
	base = pos
	for i, a := range args {
		if !a.dependsOn(L) {
			continue
		}
		switch {
		case a == L.K && stride == 0 && body == nil && coef[i] > 0:
			stride = coef[i]
		case a.op == "psum" && a.args[0] == L.K && !a.args[1].dependsOn(L) && stride == 0 && body == nil && coef[i] == 1:
			body = a.args[1]
		default:
			return nil, 0, nil
		}
		base = T.Sub(base, T.Scale(a, coef[i]))
	}
	if stride == 0 && body == nil {
		return nil, 0, nil
	}
	return base, stride, body
}

// readFile is an integer of w bytes at a position of the file.
func (c *composer) readFile(o string, w int, k Kind, pos *Term) *Term {
	if r := c.bytesAt(o, w, k, pos); r != nil {
		return r
	}
	return c.e.T.mk(&Term{op: "fle", aux: o, n: int64(w), kind: k, args: []*Term{c.e.T.Nil, pos}})
}

func (c *composer) bytesAt(o string, w int, k Kind, pos *Term) *Term {
	r := c.cases(0, func() ([]*Term, *Term) {
		f, ok, split := c.locate(pos, int64(w), "read")
		if !ok {
			return nil, split
		}
		r := c.within(f.data, f.d, o, w, k)
		if r == nil {
			c.fail("read: %d bytes at offset %v of %v", w, f.d, f.data)
			return nil, nil
		}
		return []*Term{r}, nil
	})
	if r == nil {
		return nil
	}
	return r[0]
}

// within reads an integer inside written data.
func (c *composer) within(data, d *Term, o string, w int, k Kind) *Term {
	e, T := c.e, c.e.T
	data = T.Restrict(data, e.guard())
	p := newProver(e, e.guard(), nil)
	switch data.op {
	case "ite":
		return c.branch(data, func(x *Term) *Term { return c.within(x, d, o, w, k) })
	case "bytes":
		if d == T.Zero && data.n == int64(w) && (data.aux == o || w == 1) {
			return c.conv(k, data.args[0])
		}
		return nil
	case "cat", "app", "appseq":
		off := T.Zero
		for i, a := range data.args {
			n := T.Int(1)
			if data.op != "app" || i == 0 {
				n = e.lenOf(a)
			}
			q := T.Sub(d, off)
			if p.le(T.Zero, q) && p.le(T.Add(q, T.Int(int64(w))), n) {
				if data.op == "app" && i > 0 {
					if w != 1 {
						return nil
					}
					return c.conv(k, a)
				}
				return c.within(a, q, o, w, k)
			}
			off = T.Add(off, n)
			if !p.le(off, d) {
				return nil
			}
		}
		return nil
	case "fixseq":
		w2 := data.args[1].n
		if w2 != int64(w) || data.aux != o && !(o == "LE" && data.aux == "littleEndian") {
			return nil
		}
		idx, ok := c.divide(d, w2)
		if !ok {
			return nil
		}
		return c.conv(k, e.elem(data.args[0], idx, intType(k)))
	case "snap":
		return c.content(data.args[0], T.Add(data.args[1], d), o, w, k)
	case "bm", "arg":
		if w == 1 {
			return c.conv(k, e.elem(data, d, types.Typ[types.Uint8]))
		}
		return nil
	case "venc":
		if w == 1 {
			cf := c.encFact(data.ref.(*ssa.Function))
			if cf.ok && cf.lastClear && T.Sub(d, T.Sub(e.lenOf(data), T.Int(1))) == T.Zero {
				return T.mk(&Term{op: "vlast", kind: k, args: []*Term{data}})
			}
		}
		return nil
	case "cats":
		n, body := data.args[0], data.args[1]
		ln := e.lenBody(body)
		kk, rest := c.item(d, ln)
		if kk == nil {
			return nil
		}
		return c.branch(e.apply(body, kk), func(el *Term) *Term {
			p := newProver(e, e.guard(), nil)
			if !(p.le(T.Zero, kk) && p.lt(kk, n) && p.le(T.Zero, rest) && p.le(T.Add(rest, T.Int(int64(w))), e.lenOf(el))) {
				return nil
			}
			return c.within(el, rest, o, w, k)
		})
	}
	return nil
}

// branch evaluates both sides of a guarded value; nil when either is unknown.
func (c *composer) branch(t *Term, f func(x *Term) *Term) *Term {
	r := c.cases(0, func() ([]*Term, *Term) {
		x := c.e.T.Restrict(t, c.e.guard())
		if x.op == "ite" {
			return nil, x.args[0]
		}
		if y := f(x); y != nil {
			return []*Term{y}, nil
		}
		return nil, nil
	})
	if r == nil {
		return nil
	}
	return r[0]
}

// item splits an offset into a stream of items into item number and rest.
func (c *composer) item(d, ln *Term) (k, rest *Term) {
	e, T := c.e, c.e.T
	if e.bvOf(ln) == nil {
		if !ln.isInt() || ln.n <= 0 {
			return nil, nil
		}
		args, coef, cst := T.linParts(d)
		q := T.Zero
		for i, a := range args {
			if coef[i]%ln.n != 0 {
				return nil, nil
			}
			q = T.Add(q, T.Scale(a, coef[i]/ln.n))
		}
		r := ((cst % ln.n) + ln.n) % ln.n
		return T.Add(q, T.Int((cst-r)/ln.n)), T.Int(r)
	}
	args, coef, _ := T.linParts(d)
	k = T.Zero
	for i, a := range args {
		if a.op == "psum" && a.args[1] == ln && coef[i] == 1 {
			k = a.args[0]
			break
		}
	}
	return k, T.Sub(d, e.psum(k, ln))
}

func (c *composer) divide(d *Term, s int64) (*Term, bool) {
	T := c.e.T
	args, coef, cst := T.linParts(d)
	if cst%s != 0 {
		return nil, false
	}
	q := T.Int(cst / s)
	for i, a := range args {
		if coef[i]%s != 0 {
			return nil, false
		}
		q = T.Add(q, T.Scale(a, coef[i]/s))
	}
	return q, true
}

// conv interprets written bits as an integer of another type.
func (c *composer) conv(k Kind, x *Term) *Term {
	return c.e.unconv(c.e.T.Conv(k, x), c.e.guard())
}

func intType(k Kind) types.Type {
	for _, b := range []types.BasicKind{types.Uint8, types.Uint16, types.Uint32, types.Uint64, types.Int8, types.Int16, types.Int32, types.Int64} {
		if kindOf(types.Typ[b]) == k {
			return types.Typ[b]
		}
	}
	return types.Typ[types.Uint64]
}

// content reads an integer from byte content in memory.
func (c *composer) content(ct, off *Term, o string, w int, k Kind) *Term {
	e, T := c.e, c.e.T
	p := newProver(e, e.guard(), nil)
	W := T.Int(int64(w))
	for {
		ct = T.Restrict(ct, e.guard())
		switch ct.op {
		case "ite":
			return c.branch(ct, func(x *Term) *Term { return c.content(x, off, o, w, k) })
		case "put":
			b := ct.args[2]
			if b.op != "bytes" {
				return nil
			}
			d := T.Sub(off, ct.args[1])
			if d == T.Zero && b.n == int64(w) && (b.aux == o || w == 1) {
				return c.conv(k, b.args[0])
			}
			if p.le(T.Add(off, W), ct.args[1]) || p.le(T.Add(ct.args[1], T.Int(b.n)), off) {
				ct = ct.args[0]
				continue
			}
			return nil
		case "upd":
			d := T.Sub(off, ct.args[1])
			if d == T.Zero && w == 1 {
				return c.conv(k, ct.args[2])
			}
			if p.le(T.Add(off, W), ct.args[1]) || p.lt(ct.args[1], off) {
				ct = ct.args[0]
				continue
			}
			return nil
		case "fillb": // init, c, n, body: n times w bytes
			base, n, body := ct.args[1], ct.args[2], ct.args[3]
			if p.le(T.Add(off, W), base) || p.le(T.Add(base, T.Scale(n, ct.n)), off) {
				ct = ct.args[0]
				continue
			}
			kk, rest := c.item(T.Sub(off, base), T.Int(ct.n))
			if kk == nil || !(p.le(T.Zero, kk) && p.lt(kk, n)) {
				return nil
			}
			return c.within(e.apply(body, kk), rest, o, w, k)
		case "blit": // content, at, source, length
			at, src, ln := ct.args[1], ct.args[2], ct.args[3]
			if p.le(T.Add(off, W), at) || p.le(T.Add(at, ln), off) {
				ct = ct.args[0]
				continue
			}
			d := T.Sub(off, at)
			if p.le(T.Zero, d) && p.le(T.Add(d, W), ln) {
				if ct.aux == "file" {
					return c.bytesAt(o, w, k, T.Add(src.args[1], off))
				}
				return c.within(src, d, o, w, k)
			}
			return nil
		case "zeros":
			return T.Zero
		case "fbytes":
			return c.bytesAt(o, w, k, T.Add(ct.args[1], off))
		case "arr":
			return c.within(ct.args[0], off, o, w, k)
		}
		return nil
	}
}

// decode answers a variable-length decoder at a position of the file.
func (c *composer) decode(dec *ssa.Function, sq *Term, tys []types.Type) []*Term {
	e := c.e
	if sq.op != "snap" || dec == nil {
		return nil
	}
	limit := sq.args[2]
	return c.cases(0, func() ([]*Term, *Term) {
		blob, split := c.blobAt(sq.args[0], sq.args[1])
		if split != nil {
			return nil, split
		}
		if blob == nil || blob.op != "venc" {
			c.fail("decoding something other than an encoded value: %v", blob)
			return nil, nil
		}
		enc := blob.ref.(*ssa.Function)
		f := c.pair(enc, dec)
		if !f.ok {
			c.fail("%s does not undo %s: %s", dec.Name(), enc.Name(), f.why)
			return nil, nil
		}
		n := e.lenOf(blob)
		if !newProver(e, e.guard(), nil).le(n, limit) {
			c.fail("the decoder may not see all of an encoded value: %v of %v", n, limit)
			return nil, nil
		}
		if kindOf(tys[0]) != kindOf(enc.Signature.Params().At(0).Type()) {
			return nil, nil
		}
		return []*Term{blob.args[0], n}, nil
	})
}

// blobAt is the encoded value that starts at an offset of byte content.
func (c *composer) blobAt(ct, off *Term) (blob, split *Term) {
	e, T := c.e, c.e.T
	ct = T.Restrict(ct, e.guard())
	if ct.op == "ite" {
		return nil, ct.args[0]
	}
	if ct.op != "fbytes" {
		return nil, nil
	}
	f, ok, split := c.locate(T.Add(ct.args[1], off), 1, "decode")
	if !ok {
		return nil, split
	}
	data := T.Restrict(f.data, e.guard())
	for {
		switch data.op {
		case "cats":
			k, rest := c.item(f.d, e.lenBody(data.args[1]))
			p := newProver(e, e.guard(), nil)
			if k == nil || rest != T.Zero || !p.le(T.Zero, k) || !p.lt(k, data.args[0]) {
				return nil, nil
			}
			data, f.d = T.Restrict(e.apply(data.args[1], k), e.guard()), T.Zero
			continue
		case "snap":
			if data.args[1] == T.Zero && f.d == T.Zero && data.args[0].op == "arr" {
				data = data.args[0].args[0]
				continue
			}
		}
		break
	}
	if data.op == "ite" {
		return nil, data.args[0]
	}
	if f.d != T.Zero {
		c.fail("decode: offset %v within %v", f.d, data)
		return nil, nil
	}
	return data, nil
}

func (c *composer) pair(enc, dec *ssa.Function) codecFact {
	k := [2]*ssa.Function{enc, dec}
	if f, ok := c.pairs[k]; ok {
		return f
	}
	f := c.P.codecPair(enc, dec)
	c.stats.pairs += f.parts
	if c.pairs == nil {
		c.pairs = map[[2]*ssa.Function]codecFact{}
	}
	c.pairs[k] = f
	return f
}

// encFact: the sizes an encoder produces.
func (c *composer) encFact(enc *ssa.Function) codecFact {
	if f, ok := c.size[enc]; ok {
		return f
	}
	if c.size == nil {
		c.size = map[*ssa.Function]codecFact{}
	}
	f := codecFact{why: "no decoder"}
	for _, d := range c.decoders() {
		if !types.Identical(d.Signature.Results().At(0).Type(), enc.Signature.Params().At(0).Type()) {
			continue
		}
		if g := c.pair(enc, d); g.ok {
			f = g
			break
		}
	}
	c.size[enc] = f
	return f
}

func (c *composer) decoders() []*ssa.Function {
	if c.decs != nil {
		return c.decs
	}
	for rel := range c.P.spkgs {
		if rel == c.P.mod+"/zzverif" {
			continue
		}
		for _, f := range c.P.repoFuncs(rel[min(len(rel), len(c.P.mod)+1):]) {
			if codecSig(f.Signature) == "dec" {
				c.decs = append(c.decs, f)
			}
		}
	}
	for _, p := range c.P.prog.AllPackages() {
		if p.Pkg.Path() == "encoding/binary" {
			for _, n := range []string{"Uvarint", "Varint"} {
				if f := p.Func(n); f != nil {
					c.decs = append(c.decs, f)
				}
			}
		}
	}
	return c.decs
}

// streams are the loops that wrote a sequence of variable-length items.
type stream struct{ base, body *Term }

func (c *composer) streams() []stream {
	var out []stream
	for _, x := range c.image {
		if len(x.loops) == 1 {
			if b, _, body := c.progress(x.pos, x.loops[0]); body != nil {
				out = append(out, stream{b, body})
			}
			continue
		}
		d := x.data
		if d.op == "cats" {
			if body := c.e.lenBody(d.args[1]); c.e.bvOf(body) != nil {
				out = append(out, stream{x.pos, body})
			}
		}
	}
	return out
}

// streamGuess proposes how a read position advances.
func (c *composer) streamGuess(e *Eng, s stream, mu, init, d *Term) []*Term {
	return []*Term{s.body}
}

// lenBody is the length of a body's elements.
func (e *Eng) lenBody(body *Term) *Term {
	b := e.bvOf(body)
	if b == nil {
		return e.lenOf(body)
	}
	r := e.abstract(e.lenOf(body), b)
	if r == nil {
		return e.T.mk(&Term{op: "unkbind", args: []*Term{body}})
	}
	return r
}

// ---- hooks of the engine ----

func fileOp(kind string) bool {
	switch kind {
	case "open", "read", "write", "seek", "sync", "close", "stat", "truncate":
		return true
	}
	return false
}

// fileSize is the size of the one file of the driver.
func (c *composer) fileSize(st *State) *Term {
	f := c.wfile(st)
	if f == nil {
		return nil
	}
	return c.end(st, f)
}

// readOK: a read succeeds when the file has the bytes.
func (c *composer) readOK(st *State, ev *Event, off, ln *Term) (ok, n, err *Term) {
	e, T := c.e, c.e.T
	size := c.fileSize(st)
	if size == nil {
		c.fail("the file read at %s is not the one written", e.P.Pos(ev.pos))
		return T.Eq(ev.res[0], ln), ev.res[0], T.Nil
	}
	in := T.And(T.Not(T.Lt(off, T.Zero, kI64, true)), T.Not(T.Lt(size, T.Add(off, ln), kI64, true)))
	in = e.decide(in, st.guard)
	bad := T.Op("ioerr", ev.callee, 0, ev)
	return in, T.Ite(in, ln, T.Op("short", "", kI64, ev)), T.Ite(in, T.Nil, bad)
}

// selC reads an element of an array in composition mode.
func (e *Eng) selC(c, idx *Term, et types.Type) *Term {
	T := e.T
	for {
		c = T.Restrict(c, e.guard())
		switch c.op {
		case "ite":
			return e.sel(c, idx, et)
		case "upd":
			d := e.decide(T.Eq(c.args[1], idx), e.guard())
			if d == T.True {
				return c.args[2]
			}
			if d == T.False {
				c = c.args[0]
				continue
			}
			return T.Ite(d, c.args[2], e.sel(c.args[0], idx, et))
		case "fill":
			return e.selFill(c, idx, func(init *Term) *Term { return e.sel(init, idx, et) })
		case "fbytes", "put", "fillb", "blit":
			if k := kindOfSafe(et); k.bits() == 8 {
				if r := e.cmp.content(c, idx, "LE", 1, k); r != nil {
					return r
				}
			}
			if c.op == "blit" && c.aux != "file" {
				at, src, ln := c.args[1], c.args[2], c.args[3]
				d := T.Sub(idx, at)
				switch e.inRange(d, ln) {
				case T.True:
					return e.elem(src, d, et)
				case T.False:
					c = c.args[0]
					continue
				}
			}
		}
		break
	}
	return e.sel1(c, idx, et)
}

// elemC reads an element of a sequence in composition mode (nil: as usual).
func (e *Eng) elemC(s, idx *Term, et types.Type) *Term {
	T := e.T
	pick := func(n *Term, base, rest func() *Term) *Term {
		c := e.decide(T.Lt(idx, n, kI64, true), e.guard())
		switch c {
		case T.True:
			return base()
		case T.False:
			return rest()
		}
		return nil
	}
	switch s.op {
	case "ite":
		if d := e.decide(s, e.guard()); d != s {
			return e.elem(d, idx, et)
		}
		return T.Lift("", func(x []*Term) *Term { return e.elem(x[0], x[1], et) }, s, idx)
	case "comp":
		n := e.lenOf(s.args[0])
		return pick(n, func() *Term { return e.elem(s.args[0], idx, et) }, func() *Term {
			d := T.Sub(idx, n)
			if e.inRange(d, s.args[1]) == T.True {
				return e.apply(s.args[2], d)
			}
			return nil
		})
	case "app":
		n := e.lenOf(s.args[0])
		return pick(n, func() *Term { return e.elem(s.args[0], idx, et) }, func() *Term {
			d := T.Sub(idx, n)
			if d.isInt() && d.n >= 0 && d.n < int64(len(s.args)-1) {
				return s.args[1+d.n]
			}
			return nil
		})
	case "appseq":
		n := e.lenOf(s.args[0])
		return pick(n, func() *Term { return e.elem(s.args[0], idx, et) }, func() *Term { return e.elem(s.args[1], T.Sub(idx, n), et) })
	}
	return nil
}

// rebuildC re-evaluates terms whose arguments changed.
func (e *Eng) rebuildC(t *Term, as []*Term) *Term {
	T := e.T
	if isBinder(t) {
		return e.rebind(t, as)
	}
	switch t.op {
	case "sel":
		return T.retype(e.sel(as[0], as[1], e.typeOfSel(t)), t.kind)
	case "elem":
		return T.Lift("", func(x []*Term) *Term { return T.retype(e.elem(x[0], x[1], e.typeOfSel(t)), t.kind) }, as...)
	case "snap":
		return T.Lift("", func(x []*Term) *Term { return T.Op("snap", "", 0, nil, x...) }, as...)
	case "mod":
		return T.Lift("", func(x []*Term) *Term { return T.modPow2(x[0], t.n) }, as[0])
	}
	return nil
}

func (e *Eng) typeOfSel(t *Term) types.Type {
	if t.kind != 0 {
		return intType(t.kind)
	}
	return nil
}

// binC is arithmetic in composition mode.
func (e *Eng) binC(i *ssa.BinOp, x, y, guard *Term) *Term {
	T := e.T
	k := kindOf(i.X.Type())
	if i.Op == token.AND && k.bits() == 8 {
		for _, p := range [][2]*Term{{x, y}, {y, x}} {
			last := true
			for _, x := range T.Leaves(p[0]) {
				last = last && x.op == "vlast"
			}
			if last && p[1].isInt() && p[1].n == 0x80 {
				return T.Zero // the last byte of a value has no continuation bit
			}
		}
	}
	if (i.Op == token.REM || i.Op == token.QUO) && y.isInt() && guard == e.guard() {
		if x = T.Restrict(x, guard); x.op == "ite" {
			if r := e.cmp.branch(x, func(x *Term) *Term { return e.binC(i, x, y, e.guard()) }); r != nil {
				return r
			}
		}
	}
	if i.Op == token.REM && y.isInt() && y.n > 0 && y.n&(y.n-1) == 0 && x.op != "ite" && !nonNeg(T, x) && newProver(e, guard, nil).le(T.Zero, x) {
		return T.modPow2(x, y.n)
	}
	if i.Op == token.QUO && y.isInt() && y.n > 0 && k.bits() >= 32 {
		if q := e.exactDiv(x, y.n, guard); q != nil {
			return q
		}
	}
	r := e.binTerm(i.Op, x, y, i.X.Type(), i.Y.Type(), i.Type())
	if kr := kindOf(i.Type()); kr != 0 && kr.bits() < 64 {
		r = e.unconv(r, guard)
	}
	return r
}

// exactDiv is x/n for a multiple of n that does not wrap around.
func (e *Eng) exactDiv(x *Term, n int64, guard *Term) *Term {
	T := e.T
	switch x.op {
	case "ite":
		a := T.Atom(x.args[0])
		h, l := e.exactDiv(x.args[1], n, T.And(guard, a)), e.exactDiv(x.args[2], n, T.And(guard, T.Not(a)))
		if h == nil || l == nil {
			return nil
		}
		return T.Ite(a, h, l)
	case "lin":
		q, ok := e.cmp.divide(x, n)
		if p := newProver(e, guard, nil); ok && p.sane(x) && p.sane(q) {
			return q
		}
	}
	return nil
}

// ---- loops ----

// closedForm is a verified or proposed value of a loop-carried quantity.
type closedForm struct {
	f      *Term
	narrow Kind // stays within this kind
}

// sliceKey is the start of a slice that a loop consumes from the front.
type sliceKey struct{ of any }

// shapeSlices replaces a slice of which a loop takes the tail by its start: the
// slice stays within the same array, with the same end.
func (e *Eng) shapeSlices(L *Loop, variant map[any]*MuCell, inds map[any]*Term, order *[]any, guard *Term) bool {
	T := e.T
	for _, k := range *order {
		m := variant[k]
		if m.typ == nil || !isSlice(m.typ) || m.init == nil || m.next == nil {
			continue
		}
		sk := sliceKey{k}
		off := variant[sk]
		next := T.Restrict(m.next, guard)
		if _, ok := inds[k]; !ok && m.term.op == "mu" {
			// one more element each time: the length is known
			app := next.op == "app" && next.args[0] == m.term && !e.noShape[m.term]
			if app && len(m.term.args) == 0 {
				n := T.Add(e.lenOf(m.init), T.Scale(L.K, int64(len(next.args)-1)))
				if !n.dependsOn(L) || n.op == "ite" {
					continue
				}
				m.term = T.mk(&Term{op: "mu", aux: m.term.aux, ref: L, kind: m.term.kind, args: []*Term{n}})
				return true
			}
			if len(m.term.args) == 1 {
				if app && T.Add(e.lenOf(m.init), T.Scale(L.K, int64(len(next.args)-1))) == m.term.args[0] {
					continue
				}
				m.term = T.mk(&Term{op: "mu", aux: m.term.aux, ref: L, kind: m.term.kind})
				if e.noShape == nil {
					e.noShape = map[*Term]bool{}
				}
				e.noShape[m.term] = true
				return true
			}
		}
		if off == nil {
			if _, ok := inds[k]; ok || m.init.op != "mkslice" || next.op != "resl" || next.ref != any(e.rootObj(m.term, m.typ)) || e.noShape[m.term] {
				continue
			}
			off = &MuCell{name: m.name + "@", init: m.init.args[0], typ: types.Typ[types.Int]}
			off.term = T.mk(&Term{op: "mu", aux: off.name, ref: L, kind: kI64})
			off.next = off.term
			variant[sk] = off
			*order = append(*order, sk)
			end := T.Add(m.init.args[0], m.init.args[1])
			inds[k] = T.Op("mkslice", m.init.aux, 0, m.init.ref, off.term, T.Sub(end, off.term))
			dbg("shape %s: %v", m.name, inds[k])
			return true
		}
		end := T.Add(m.init.args[0], m.init.args[1])
		if next.op != "mkslice" || next.ref != m.init.ref || next.aux != m.init.aux || !e.same(T.Add(next.args[0], next.args[1]), end, guard) {
			dbg("shape %s is lost: %v", m.name, next)
			if e.noShape == nil {
				e.noShape = map[*Term]bool{}
			}
			e.noShape[m.term] = true
			delete(variant, sk)
			delete(inds, k)
			delete(inds, sk)
			var keep []any
			for _, x := range *order {
				if x != any(sk) {
					keep = append(keep, x)
				}
			}
			*order = keep
			return true
		}
		off.next = next.args[0]
		// the slice follows its start
		now := off.term
		if iv, ok := inds[sk]; ok {
			now = iv
		}
		if v := T.Op("mkslice", m.init.aux, 0, m.init.ref, now, T.Sub(end, now)); v != inds[k] {
			inds[k] = v
			return true
		}
	}
	return false
}

// untouched replaces reads of array elements that the loop has not written yet.
func (e *Eng) untouched(L *Loop, t, guard *Term) *Term {
	T := e.T
	if t == nil || e.loopVar == nil {
		return t
	}
	return newMapper(e, func(u *Term) *Term {
		if u.op != "sel" || u.args[0].op != "mu" {
			return nil
		}
		for _, m := range e.loopVar {
			if m.term != u.args[0] || m.next == nil || m.init == nil {
				continue
			}
			next := e.mergeUpd(T.Restrict(m.next, guard))
			if next.op != "upd" || next.args[0] != m.term {
				return nil
			}
			if c := T.Sub(next.args[1], L.K); c.dependsOn(L) {
				return nil
			}
			if d := T.Sub(u.args[1], next.args[1]); d.isInt() && d.n >= 0 {
				return e.selLike(u, m.init, u.args[1])
			}
		}
		return nil
	}).Map(t)
}

// closeRound proposes closed forms, and withdraws those that the body does not confirm.
func (e *Eng) closeRound(L *Loop, variant map[any]*MuCell, inds map[any]*Term, closed map[any]closedForm, order []any, guard *Term) bool {
	changed := false
	save, saveVar := e.cur, e.loopVar
	e.cur, e.loopVar = &State{guard: guard}, variant
	defer func() { e.cur, e.loopVar = save, saveVar }()
	var bad []any
	for _, k := range order {
		cf, ok := closed[k]
		if !ok {
			continue
		}
		m := variant[k]
		e.cmp.stats.fills++
		if !e.closedOK(L, m, cf, guard) {
			bad = append(bad, k)
		}
	}
	for _, k := range bad {
		m, cf := variant[k], closed[k]
		dbg("withdraw %s: %v (next %v)", m.name, cf.f, m.next)
		if e.blackGuess == nil {
			e.blackGuess = map[[2]int]bool{}
		}
		e.blackGuess[[2]int{m.term.id, cf.f.id}] = true
		delete(closed, k)
		delete(inds, k)
		e.setLoopFact(L, k, nil)
		m.ind = false
		changed = true
	}
	if changed {
		return true
	}
	for _, k := range order {
		if _, ok := inds[k]; ok {
			continue
		}
		m := variant[k]
		f := e.closeLoop(L, m, guard)
		if f == nil || e.blackGuess[[2]int{m.term.id, f.f.id}] {
			continue
		}
		dbg("close %s := %v", m.name, f.f)
		closed[k] = *f
		inds[k] = f.f
		m.ind = true
		if f.narrow != 0 {
			// assumed for the current iteration, shown for the next one
			lo, hi, _ := kindRange(f.narrow)
			e.setLoopFact(L, k, e.rangeFacts(f.f, lo, hi))
		}
		changed = true
	}
	return changed
}
