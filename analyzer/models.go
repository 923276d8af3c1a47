package main

import (
	"go/types"
	"math"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

func fval(t *Term) float64 { return math.Float64frombits(uint64(t.n)) }

func (e *Eng) builtin(fr *Frame, st *State, c *callInfo) ([]*Term, bool) {
	T := e.T
	one := func(t *Term) ([]*Term, bool) { return []*Term{t}, true }
	switch c.name {
	case "len":
		t := c.argTys[0].Underlying()
		if isStringType(t) {
			return one(e.lenOf(c.args[0]))
		}
		switch u := t.(type) {
		case *types.Slice:
			return one(e.lenOf(c.args[0]))
		case *types.Array:
			return one(T.Int(u.Len()))
		case *types.Pointer:
			if a, ok := u.Elem().Underlying().(*types.Array); ok {
				return one(T.Int(a.Len()))
			}
		}
		return one(T.Op("len", "dyn", 0, nil, c.args[0]))
	case "cap":
		return one(T.Op("cap", "", 0, nil, c.args[0]))
	case "min", "max":
		k := kindOf(c.argTys[0])
		if k == 0 {
			return one(T.Op(c.name, "", 0, nil, c.args...))
		}
		r := c.args[0]
		for _, a := range c.args[1:] {
			var lt *Term
			if c.name == "min" {
				lt = T.Lt(a, r, k, e.idxKind(c.argTys[0]))
			} else {
				lt = T.Lt(r, a, k, e.idxKind(c.argTys[0]))
			}
			r = T.Ite(lt, a, r)
		}
		return one(r)
	case "append":
		return one(e.appendTo(fr, st, c))
	case "copy":
		return one(e.copySlice(fr, st, c))
	case "close":
		e.emit(fr, st, &Event{kind: "chanclose", callee: "close", args: c.args, errIdx: -1}, c.pos, c.key)
		return nil, true
	case "print", "println":
		return nil, true
	case "clear", "delete":
		ev := e.emit(fr, st, &Event{kind: "mapdel", callee: c.name, args: c.args, errIdx: -1}, c.pos, c.key)
		e.havocArgs(fr, st, ev, c)
		return nil, true
	case "recover":
		e.unsupported("recover in %s", fr.fn)
		return one(T.Op("recover", c.key, 0, nil))
	case "ssa:wrapnilchk":
		return one(c.args[0])
	case "ssa:deferstack":
		return one(T.Nil)
	}
	e.unsupported("builtin %s", c.name)
	return one(T.Op("unk", c.key, 0, nil, c.args...))
}

func (e *Eng) appendTo(fr *Frame, st *State, c *callInfo) *Term {
	T := e.T
	base := e.seqOf(st, c.args[0], c.argTys[0])
	if len(c.args) < 2 {
		return base
	}
	// appending may write into the array behind the base
	for _, l := range T.Leaves(c.args[0]) {
		if l.op == "nil" {
			continue
		}
		cell, off, ln := e.sliceParts(l, c.argTys[0])
		if cell.obj.fresh && cell.obj.spawn == e.spawn {
			continue
		}
		save := st.guard
		st.guard = T.And(st.guard, T.LeafGuard(c.args[0], l))
		e.noteAccess(fr, st, T.Op("eaddr", cell.path, 0, cell.obj, T.Add(off, ln), T.Op("type", "", 0, c.argTys[0].Underlying().(*types.Slice).Elem())), c.pos, false)
		e.stores[len(e.stores)-1].app = true
		st.guard = save
		if l.op == "resl" {
			st.mem[cell] = T.Op("clob", c.key, 0, nil, e.readContent(st, cell, nil))
		}
	}
	add := c.args[1]
	if isStringType(c.argTys[1]) {
		return T.Lift("", func(a []*Term) *Term { return e.catSeq(a[0], a[1]) }, base, add)
	}
	// a literal list of elements
	if add.op == "mkslice" && add.args[1].isInt() && add.args[0].isInt() && add.args[1].n <= 64 {
		et := c.argTys[1].Underlying().(*types.Slice).Elem()
		cell, off, ln := e.sliceParts(add, c.argTys[1])
		content := e.readContent(st, cell, nil)
		plain := true
		for _, x := range T.Leaves(content) {
			plain = plain && (x.op == "upd" || x.op == "zeros")
		}
		if plain && (content.op != "ite" || e.cmp != nil) {
			var els []*Term
			for k := int64(0); k < ln.n; k++ {
				els = append(els, e.sel(content, T.Int(off.n+k), et))
			}
			return T.Lift("", func(a []*Term) *Term { return e.appElems(a[0], els) }, base)
		}
	}
	sq := e.seqOf(st, add, c.argTys[1])
	return T.Lift("", func(a []*Term) *Term {
		r := e.catSeq(a[0], a[1])
		if r == a[1] && r != T.Nil && r.op != "app" && r.op != "appseq" {
			// a copy in an array of its own (see seqOf)
			return T.Op("appseq", "", 0, nil, T.Nil, r)
		}
		return r
	}, base, sq)
}

func (e *Eng) appElems(base *Term, els []*Term) *Term {
	if len(els) == 0 {
		return base
	}
	if base.op == "app" {
		return e.T.Op("app", "", 0, nil, append(append([]*Term{}, base.args...), els...)...)
	}
	return e.T.Op("app", "", 0, nil, append([]*Term{base}, els...)...)
}

func (e *Eng) catSeq(a, b *Term) *Term {
	if b == e.T.Nil || b.op == "str" && b.aux == "" {
		return a
	}
	if a == e.T.Nil {
		return b
	}
	if b.op == "app" && b.args[0] == e.T.Nil {
		return e.appElems(a, b.args[1:])
	}
	return e.T.Op("appseq", "", 0, nil, a, b)
}

func (e *Eng) copySlice(fr *Frame, st *State, c *callInfo) *Term {
	T := e.T
	dst, src := c.args[0], c.args[1]
	sq := src
	if !isStringType(c.argTys[1]) {
		sq = e.seqOf(st, src, c.argTys[1])
	}
	ld, ls := e.lenOf(dst), e.lenOf(sq)
	n := ld
	if ld != ls {
		n = T.Ite(T.Lt(ls, ld, kI64, true), ls, ld)
	}
	if dst.op == "ite" || dst == T.Nil {
		if dst != T.Nil {
			e.unsupported("copy to a conditional slice in %s", fr.fn)
		}
		return n
	}
	cell, off, _ := e.sliceParts(dst, c.argTys[0])
	content := e.readContent(st, cell, nil)
	e.noteAccess(fr, st, T.Op("eaddr", cell.path, 0, cell.obj, off, T.Op("type", "", 0, c.argTys[0].Underlying().(*types.Slice).Elem())), c.pos, false)
	var nc *Term
	if n == e.T.Zero {
		nc = content
	} else if off == T.Zero && ld == ls && cell.obj.fresh && e.wholeLen(cell, ld) {
		nc = T.Lift("", func(a []*Term) *Term { return e.arrOf(a[0]) }, sq)
	} else if n.isInt() && n.n <= 64 && sq.op == "app" && sq.args[0] == T.Nil {
		nc = content
		for k := int64(0); k < n.n; k++ {
			nc = e.upd(nc, T.Add(off, T.Int(k)), sq.args[1+k])
		}
	} else {
		nc = T.Op("blit", "", 0, nil, content, off, sq, n)
	}
	st.mem[cell] = nc
	return n
}

// arrOf is the content of an array that holds exactly the sequence s.
func (e *Eng) arrOf(s *Term) *Term {
	if s.op == "snap" && s.args[1] == e.T.Zero {
		return s.args[0]
	}
	return e.T.Op("arr", "", 0, nil, s)
}

func (e *Eng) wholeLen(c Cell, ln *Term) bool { return c.path == "[]" }

// variadic returns the elements of a variadic argument list.
func (e *Eng) variadic(st *State, s *Term, t types.Type) ([]*Term, bool) {
	if s == e.T.Nil {
		return nil, true
	}
	sl, ok := t.Underlying().(*types.Slice)
	if !ok {
		return nil, false
	}
	ln := e.lenOf(s)
	if !ln.isInt() || ln.n > 64 {
		return nil, false
	}
	c, off, _ := e.sliceParts(s, t)
	content := e.readContent(st, c, nil)
	var r []*Term
	for k := int64(0); k < ln.n; k++ {
		r = append(r, e.sel(content, e.T.Add(off, e.T.Int(k)), sl.Elem()))
	}
	return r, true
}

// ---- files ----

func (e *Eng) fileCell(f *Term, what string) Cell {
	return Cell{e.rootObj(f, types.Typ[types.Invalid]), "$" + what}
}

func (e *Eng) filePos(st *State, f *Term, what string) *Term {
	c := e.fileCell(f, what)
	if v, ok := st.mem[c]; ok {
		v = e.T.Restrict(v, st.guard)
		if e.cmp != nil && v.op == "ite" {
			v = e.decide(v, st.guard)
		}
		return v
	}
	var v *Term
	if what == "err" {
		v = e.T.False
	} else {
		v = e.T.mk(&Term{op: "fpos", aux: what, args: []*Term{f}, kind: 0})
	}
	if e.pol.InitCell != nil {
		if w := e.pol.InitCell(e, c, types.Typ[types.Int64]); w != nil {
			v = w
		}
	}
	st.mem[c] = v
	e.cells[c] = types.Typ[types.Int64]
	return v
}

func (e *Eng) setFilePos(st *State, f *Term, what string, v *Term) {
	c := e.fileCell(f, what)
	e.filePos(st, f, what)
	st.mem[c] = v
}

// fileWrite appends bytes at the file position.
func (e *Eng) fileWrite(fr *Frame, st *State, c *callInfo, f, data, size *Term, tys []types.Type, what string, width int, ty types.Type) []*Term {
	T := e.T
	pos := e.filePos(st, f, "pos")
	ev := e.emit(fr, st, &Event{kind: "write", callee: what, args: []*Term{f, data}, errIdx: -1, fpos: pos, size: size, width: width, typ: ty}, c.pos, c.key)
	rs := e.results(ev, tys)
	ok := T.Eq(ev.Err(), T.Nil)
	np := T.Add(pos, size)
	if e.cmp != nil {
		e.cmp.wrote(st, ev, f, pos, size, data)
	}
	e.setFilePos(st, f, "pos", T.Ite(ok, np, T.Op("unkpos", "", 0, ev)))
	if len(rs) == 2 { // n, err
		rs = []*Term{T.Ite(ok, size, rs[0]), rs[1]}
	}
	return rs
}

func (e *Eng) isFile(t *Term) (*Term, bool) {
	if t.op == "iface" {
		ct := t.ref.(types.Type)
		if types.TypeString(ct, nil) == "*os.File" {
			return t.args[0], true
		}
	}
	return nil, false
}

func sizeOfData(e *Eng, t types.Type) (width int, seq bool) {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if u.Kind() == types.Bool {
			return 1, false
		}
		if k := kindOf(t); k != 0 && u.Kind() != types.Int && u.Kind() != types.Uint && u.Kind() != types.Uintptr {
			return k.bits() / 8, false
		}
	case *types.Slice:
		if w, s := sizeOfData(e, u.Elem()); w > 0 && !s {
			return w, true
		}
	case *types.Pointer:
		return sizeOfData(e, u.Elem())
	}
	return 0, false
}

func byteOrder(t *Term) string {
	if t.op == "iface" {
		if n, ok := t.ref.(*types.Named); ok {
			return n.Obj().Name()
		}
	}
	return "?"
}

var pureExt = map[string]bool{"strings": true, "strconv": true, "math": true, "math/bits": true, "path/filepath": true, "path": true, "unicode": true, "unicode/utf8": true, "errors": true, "bytes": true, "cmp": true, "reflect": true}
var noHavocExt = map[string]bool{"time": true, "runtime": true, "fmt": true, "log": true, "math/rand": true, "flag": true, "os": true, "math/rand/v2": true}

func (e *Eng) external(fr *Frame, st *State, c *callInfo) ([]*Term, bool) {
	T := e.T
	tys := typeTuple(c.sig.Results())
	name := c.name
	if c.fn != nil {
		name = fnKey(c.fn)
	} else if c.common.IsInvoke() {
		name = "invoke." + c.common.Method.Name()
	}
	one := func(t *Term) ([]*Term, bool) { return []*Term{t}, true }
	opaque := func(kind string) ([]*Term, bool) {
		ev := e.emit(fr, st, &Event{kind: kind, callee: name, args: c.args, errIdx: -1}, c.pos, c.key)
		return e.results(ev, tys), true
	}
	file := func() *Term { return c.args[0] }
	switch name {
	case "(*os.File).Write":
		sq := e.seqOf(st, c.args[1], c.argTys[1])
		return e.fileWrite(fr, st, c, file(), sq, e.lenOf(c.args[1]), tys, "Write", 0, nil), true
	case "(*os.File).WriteString":
		return e.fileWrite(fr, st, c, file(), c.args[1], e.lenOf(c.args[1]), tys, "Write", 0, nil), true
	case "(*os.File).WriteAt":
		sq := e.seqOf(st, c.args[1], c.argTys[1])
		ev := e.emit(fr, st, &Event{kind: "write", callee: "WriteAt", args: []*Term{file(), sq}, errIdx: -1, fpos: c.args[2], size: e.lenOf(c.args[1])}, c.pos, c.key)
		rs := e.results(ev, tys)
		ok := T.Eq(rs[1], T.Nil)
		return []*Term{T.Ite(ok, ev.size, rs[0]), rs[1]}, true
	case "(*os.File).Seek":
		ev := e.emit(fr, st, &Event{kind: "seek", callee: "Seek", args: c.args, errIdx: -1}, c.pos, c.key)
		rs := e.results(ev, tys)
		ok := T.Eq(rs[1], T.Nil)
		pos := e.filePos(st, file(), "pos")
		var np *Term
		if c.args[2].isInt() && c.args[2].n == 0 {
			np = c.args[1]
		} else if c.args[2].isInt() && c.args[2].n == 1 {
			np = T.Add(pos, c.args[1])
		} else if c.args[2].isInt() && c.args[2].n == 2 {
			np = T.Add(T.Op("fend", "", 0, ev), c.args[1])
			if e.cmp != nil {
				np = T.Add(e.cmp.end(st, file()), c.args[1])
			} else if f := file(); f.op == "file" && f.aux == "os.Open" {
				np = T.Add(T.Op("fsize", "", 0, nil, f), c.args[1]) // as reported by Stat
			}
		} else {
			np = T.Op("unkpos", "", 0, ev)
		}
		if e.cmp != nil {
			e.cmp.seek(st, file(), np)
		}
		e.setFilePos(st, file(), "pos", T.Ite(ok, np, pos))
		return []*Term{T.Ite(ok, np, T.Zero), rs[1]}, true
	case "(*os.File).Sync", "(*os.File).Close", "(*os.File).Truncate", "(*os.File).Chmod", "(*os.File).SetDeadline":
		k := strings.ToLower(name[strings.LastIndexByte(name, '.')+1:])
		if k == "truncate" {
			r, l := opaque(k)
			return r, l
		}
		return opaque(k)
	case "(*os.File).Stat":
		ev := e.emit(fr, st, &Event{kind: "stat", callee: "Stat", args: c.args, errIdx: -1}, c.pos, c.key)
		rs := e.results(ev, tys)
		return []*Term{T.Op("finfo", "", 0, nil, file()), rs[1]}, true
	case "(*os.File).Name":
		return one(T.Op("fname", "", 0, nil, file()))
	case "(*os.File).ReadAt", "(*os.File).Read", "io.ReadFull", "io.ReadAtLeast":
		return e.fileRead(fr, st, c, name, tys)
	case "os.Create", "os.Open", "os.OpenFile", "os.CreateTemp":
		ev := e.emit(fr, st, &Event{kind: "open", callee: name, args: c.args, errIdx: -1}, c.pos, c.key)
		rs := e.results(ev, tys)
		f := T.mk(&Term{op: "file", aux: name, ref: ev})
		e.setFilePos(st, f, "pos", T.Zero)
		return []*Term{f, rs[1]}, true
	case "os.Exit", "runtime.Goexit", "log.Fatal", "log.Fatalf", "log.Fatalln":
		ev := e.emit(fr, st, &Event{kind: "exit", callee: name, args: c.args, errIdx: -1}, c.pos, c.key)
		if name != "os.Exit" {
			ev.args = []*Term{T.Int(1)}
		}
		e.exits = append(e.exits, exitPoint{ev: ev, st: st.clone()})
		st.guard = T.False
		return nil, false
	case "fmt.Errorf":
		els, ok := e.variadic(st, c.args[1], c.argTys[1])
		var wr []*Term
		if ok && c.args[0].op == "str" {
			wr = wrapped(c.args[0].aux, els)
		}
		r := T.mk(&Term{op: "err", aux: "fmt", ref: nil, n: int64(c.pos), args: wr})
		e.emit(fr, st, &Event{kind: "mkerr", callee: name, args: []*Term{r}, errIdx: -1}, c.pos, c.key)
		return one(r)
	case "errors.New":
		r := T.mk(&Term{op: "err", aux: "new", n: int64(c.pos)})
		e.emit(fr, st, &Event{kind: "mkerr", callee: name, args: []*Term{r}, errIdx: -1}, c.pos, c.key)
		return one(r)
	case "errors.Join":
		els, ok := e.variadic(st, c.args[0], c.argTys[0])
		if ok {
			r := T.Nil
			for _, x := range els {
				nn := T.Not(T.Eq(x, T.Nil))
				r = T.Ite(nn, T.mk(&Term{op: "err", aux: "join", n: int64(c.pos), args: els}), r)
			}
			return one(r)
		}
		return one(T.Op("joined", "", 0, nil, c.args[0]))
	case "io.NewSectionReader":
		if f, ok := e.isFile(c.args[0]); ok {
			return one(T.Op("section", "", 0, nil, f, c.args[1], c.args[2]))
		}
	case "errors.As":
		return e.errorsAs(fr, st, c)
	case "errors.Is":
		return one(e.errorsIs(c.args[0], c.args[1]))
	case "errors.Unwrap":
		return one(T.Op("unwrap", "", 0, nil, c.args[0]))
	case "encoding/binary.Write":
		return e.binaryWrite(fr, st, c, tys)
	case "encoding/binary.Size":
		if c.args[0].op == "iface" {
			if w, seq := sizeOfData(e, c.args[0].ref.(types.Type)); w > 0 && !seq {
				return one(T.Int(int64(w)))
			}
		}
	case "encoding/binary.Uvarint", "encoding/binary.Varint":
		return e.pureSeqCall(fr, st, c, strings.TrimPrefix(name, "encoding/binary.")), true
	case "sort.Slice", "sort.SliceStable", "slices.SortFunc", "slices.SortStableFunc", "slices.Sort", "sort.Sort", "sort.Stable",
		"sort.SliceIsSorted", "sort.IsSorted", "slices.IsSorted", "slices.IsSortedFunc":
		return e.sortCall(fr, st, c, name)
	case "(*bytes.Buffer).Write", "(*bytes.Buffer).WriteString":
		if bc, ok := e.bufCell(c.args[0]); ok {
			sq := c.args[1]
			if !isStringType(c.argTys[1]) {
				sq = e.seqOf(st, sq, c.argTys[1])
			}
			e.bufAppend(st, bc, sq)
			return []*Term{e.lenOf(sq), T.Nil}, true
		}
	case "(*bytes.Buffer).WriteByte":
		if bc, ok := e.bufCell(c.args[0]); ok {
			e.bufAppend(st, bc, e.mkLE("littleEndian", 1, c.args[1]))
			return []*Term{T.Nil}, true
		}
	case "(*bytes.Buffer).Bytes":
		if bc, ok := e.bufCell(c.args[0]); ok {
			return one(e.bufGet(st, bc))
		}
	case "(*bytes.Buffer).Len":
		if bc, ok := e.bufCell(c.args[0]); ok {
			return one(e.lenOf(e.bufGet(st, bc)))
		}
	case "(*bytes.Buffer).Grow":
		return nil, true
	case "(*bytes.Buffer).Reset":
		if bc, ok := e.bufCell(c.args[0]); ok {
			e.bufGet(st, bc)
			st.mem[bc] = T.Nil
			return nil, true
		}
	case "bytes.NewBuffer":
		o := e.freshObj(c.key+"/buf", "buffer", types.NewSlice(types.Typ[types.Byte]), c.pos)
		bc := Cell{o, "$buf"}
		st.mem[bc] = e.seqOf(st, c.args[0], c.argTys[0])
		e.cells[bc] = types.NewSlice(types.Typ[types.Byte])
		return one(e.addr(o, ""))
	case "runtime.GOMAXPROCS", "runtime.NumCPU":
		return one(T.Op("ncpu", "", 0, nil))
	case "invoke.Size":
		if len(c.args) == 1 && c.args[0].op == "finfo" {
			if e.cmp != nil {
				if n := e.cmp.fileSize(st); n != nil {
					return one(n)
				}
			}
			return one(T.Op("fsize", "", 0, nil, c.args[0].args[0]))
		}
	case "(*sync.Mutex).Lock", "(*sync.RWMutex).Lock", "(*sync.RWMutex).RLock", "(*sync.Mutex).Unlock", "(*sync.RWMutex).Unlock", "(*sync.RWMutex).RUnlock":
		what := name[strings.LastIndexByte(name, '.')+1:]
		ev := e.emit(fr, st, &Event{kind: strings.ToLower(what), callee: what, args: c.args, errIdx: -1}, c.pos, c.key)
		if a := c.args[0]; a.op == "addr" {
			held := Cell{a.ref.(*Obj), "$held" + a.aux}
			ev.size = T.Zero // what was held before
			if h := st.mem[held]; h != nil {
				ev.size = T.Restrict(h, st.guard)
			}
			v := T.Zero
			switch what {
			case "Lock":
				v = T.Int(2)
			case "RLock":
				v = T.Int(1)
			}
			st.mem[held] = v
			e.cells[held] = types.Typ[types.Int]
		}
		return nil, true
	case "(*sync.WaitGroup).Add", "(*sync.WaitGroup).Done", "(*sync.WaitGroup).Wait":
		what := name[strings.LastIndexByte(name, '.')+1:]
		e.emit(fr, st, &Event{kind: "wg" + strings.ToLower(what), callee: what, args: c.args, errIdx: -1}, c.pos, c.key)
		return nil, true
	}
	if r, ok := e.leCall(fr, st, c, name); ok {
		return r, true
	}
	if r, ok := e.bitmapCall(fr, st, c, name, tys); ok {
		return r, true
	}
	pkg := ""
	if c.fn != nil && c.fn.Pkg != nil {
		pkg = c.fn.Pkg.Pkg.Path()
	} else if c.fn != nil && c.fn.Origin() != nil && c.fn.Origin().Pkg != nil {
		pkg = c.fn.Origin().Pkg.Pkg.Path()
	} else if c.fn != nil && c.fn.Object() != nil && c.fn.Object().Pkg() != nil {
		pkg = c.fn.Object().Pkg().Path()
	}
	if len(c.args) == 2 && c.argTys[0] != nil && kindOf(c.argTys[0]) != 0 {
		a, b, kd := c.args[0], c.args[1], kindOf(c.argTys[0])
		switch {
		case strings.HasPrefix(name, "cmp.Compare"):
			return one(T.Ite(T.Lt(a, b, kd, false), T.Int(-1), T.Ite(T.Eq(a, b), T.Zero, T.Int(1))))
		case strings.HasPrefix(name, "cmp.Less"):
			return one(T.Lt(a, b, kd, false))
		}
	}
	if pkg == "fmt" && strings.HasPrefix(name, "fmt.Sprint") || pureExt[pkg] && !returnsError(tys) && !mayMutate(c) {
		var rs []*Term
		var as []*Term
		for i, a := range c.args {
			if c.argTys[i] != nil {
				if _, ok := c.argTys[i].Underlying().(*types.Slice); ok {
					a = e.seqOf(st, a, c.argTys[i])
				}
			}
			as = append(as, a)
		}
		for i, t := range tys {
			r := T.mk(&Term{op: "pure", aux: name, n: int64(i), args: as, kind: kindOf(t)})
			rs = append(rs, e.boolify(r, t))
		}
		return rs, true
	}
	ev := e.emit(fr, st, &Event{kind: "call", callee: name, args: c.args, errIdx: -1}, c.pos, c.key)
	if !pureExt[pkg] && !noHavocExt[pkg] || mayMutate(c) {
		e.havocArgs(fr, st, ev, c)
	}
	if c.fn == nil && c.name == "dynamic" {
		ev.kind = "dyncall"
	}
	return e.results(ev, tys), true
}

func returnsError(tys []types.Type) bool {
	for _, t := range tys {
		if isErrorType(t) {
			return true
		}
	}
	return false
}

func mayMutate(c *callInfo) bool {
	n := c.name
	return strings.Contains(n, "Scan") || strings.Contains(n, "Sort") || strings.Contains(n, "sort.") || strings.Contains(n, "Read")
}

func wrapped(format string, els []*Term) []*Term {
	var r []*Term
	n := 0
	for i := 0; i+1 < len(format); i++ {
		if format[i] != '%' {
			continue
		}
		j := i + 1
		for j < len(format) && strings.IndexByte("+-# 0123456789.", format[j]) >= 0 {
			j++
		}
		if j >= len(format) {
			break
		}
		if format[j] == '%' {
			i = j
			continue
		}
		if format[j] == 'w' && n < len(els) {
			r = append(r, els[n])
		}
		n++
		i = j
	}
	return r
}

func (e *Eng) errorsIs(x, target *Term) *Term {
	T := e.T
	return T.Lift("", func(a []*Term) *Term {
		if a[0] == T.Nil || a[1] == T.Nil {
			return T.Eq(a[0], a[1])
		}
		r := T.Eq(a[0], a[1])
		if a[0].op == "err" {
			for _, w := range a[0].args {
				r = T.Or(r, e.errorsIs(w, a[1]))
			}
		}
		return r
	}, x, target)
}

func (e *Eng) errorsAs(fr *Frame, st *State, c *callInfo) ([]*Term, bool) {
	T := e.T
	tgt := c.args[1]
	if tgt.op == "iface" {
		pt, ok := tgt.ref.(types.Type).Underlying().(*types.Pointer)
		if ok {
			v, okT := e.typeAssert(fr, st, c.args[0], pt.Elem(), true)
			old := e.load(fr, st, tgt.args[0], pt.Elem(), c.pos)
			e.store(fr, st, tgt.args[0], pt.Elem(), T.Ite(okT, v, old), c.pos)
			return []*Term{okT}, true
		}
	}
	e.unsupported("errors.As with an unknown target in %s", fr.fn)
	return []*Term{T.Atom(T.Op("unk", c.key, 0, nil))}, true
}

func (e *Eng) binaryWrite(fr *Frame, st *State, c *callInfo, tys []types.Type) ([]*Term, bool) {
	T := e.T
	w, order, data := c.args[0], c.args[1], c.args[2]
	f, isf := e.isFile(w)
	if data.op == "iface" && isf {
		ty := data.ref.(types.Type)
		width, seq := sizeOfData(e, ty)
		if width > 0 {
			v := data.args[0]
			size := T.Int(int64(width))
			if pt, ok := ty.Underlying().(*types.Pointer); ok {
				v = e.load(fr, st, v, pt.Elem(), c.pos)
				ty = pt.Elem()
			}
			if seq {
				sl := ty.Underlying().(*types.Slice)
				v = e.seqOf(st, v, ty)
				size = T.Scale(e.lenOf(v), int64(width))
				return e.fileWrite(fr, st, c, f, T.Op("fixseq", byteOrder(order), 0, nil, v, T.Int(int64(width))), size, tys, "binary.Write", width, sl.Elem()), true
			}
			return e.fileWrite(fr, st, c, f, e.mkLE(byteOrder(order), width, v), size, tys, "binary.Write", width, ty), true
		}
		if st2, ok := ty.Underlying().(*types.Struct); ok && isf {
			// a struct is written field by field
			total, okAll := 0, true
			var parts []*Term
			for i := 0; i < st2.NumFields(); i++ {
				wd, s := sizeOfData(e, st2.Field(i).Type())
				if wd == 0 || s {
					okAll = false
					break
				}
				parts = append(parts, e.mkLE(byteOrder(order), wd, e.field(data.args[0], ty, i)))
				total += wd
			}
			if okAll {
				return e.fileWrite(fr, st, c, f, T.Op("cat", "", 0, nil, parts...), T.Int(int64(total)), tys, "binary.Write", 0, ty), true
			}
		}
	}
	if isf {
		e.unsupported("binary.Write of an unknown type in %s", fr.fn)
		return e.fileWrite(fr, st, c, f, data, T.Op("unksize", c.key, 0, nil), tys, "binary.Write", 0, nil), true
	}
	if bc, ok := e.bufCell(w); ok && data.op == "iface" {
		ty := data.ref.(types.Type)
		width, seq := sizeOfData(e, ty)
		if width > 0 && !seq {
			v := data.args[0]
			if pt, ok := ty.Underlying().(*types.Pointer); ok {
				v = e.load(fr, st, v, pt.Elem(), c.pos)
			}
			e.bufAppend(st, bc, e.mkLE(byteOrder(order), width, v))
			return []*Term{T.Nil}, true
		}
		if st2, ok := ty.Underlying().(*types.Struct); ok {
			okAll := true
			var parts []*Term
			for i := 0; i < st2.NumFields(); i++ {
				wd, s := sizeOfData(e, st2.Field(i).Type())
				if wd == 0 || s {
					okAll = false
					break
				}
				parts = append(parts, e.mkLE(byteOrder(order), wd, e.field(data.args[0], ty, i)))
			}
			if okAll {
				for _, p := range parts {
					e.bufAppend(st, bc, p)
				}
				return []*Term{T.Nil}, true
			}
		}
	}
	ev := e.emit(fr, st, &Event{kind: "call", callee: "encoding/binary.Write", args: c.args, errIdx: -1}, c.pos, c.key)
	e.havocArgs(fr, st, ev, c)
	e.unsupported("binary.Write to something other than a file in %s", fr.fn)
	return e.results(ev, tys), true
}

// mkLE is the byte string of an integer of the given width.
func (e *Eng) mkLE(order string, width int, v *Term) *Term {
	o := "LE"
	if order != "littleEndian" {
		o = "BE:" + order
	}
	return e.T.mk(&Term{op: "bytes", aux: o, n: int64(width), args: []*Term{v}})
}

// leCall models the fixed-width accessors of encoding/binary.
func (e *Eng) leCall(fr *Frame, st *State, c *callInfo, name string) ([]*Term, bool) {
	T := e.T
	if !strings.HasPrefix(name, "(encoding/binary.") {
		return nil, false
	}
	order := name[len("(encoding/binary."):strings.IndexByte(name, ')')]
	m := name[strings.IndexByte(name, ')')+2:]
	o := "LE"
	if order != "littleEndian" {
		o = "BE:" + order
	}
	w := 0
	switch {
	case strings.HasSuffix(m, "16"):
		w = 2
	case strings.HasSuffix(m, "32"):
		w = 4
	case strings.HasSuffix(m, "64"):
		w = 8
	default:
		return nil, false
	}
	k := mkKind(w*8, false)
	args := c.args
	switch {
	case strings.HasPrefix(m, "Uint"):
		b := args[1]
		e.bound(fr, st, "index", T.Int(int64(w-1)), nil, e.lenOf(b), c.pos)
		r := T.Lift("", func(a []*Term) *Term {
			cell, off, _ := e.sliceParts(a[0], c.argTys[1])
			content := e.readContent(st, cell, nil)
			return e.readLE(o, w, k, content, off)
		}, b)
		return []*Term{r}, true
	case strings.HasPrefix(m, "PutUint"):
		b, v := args[1], args[2]
		e.bound(fr, st, "index", T.Int(int64(w-1)), nil, e.lenOf(b), c.pos)
		if b.op == "ite" {
			e.unsupported("Put to a conditional slice")
			return []*Term{}, true
		}
		cell, off, _ := e.sliceParts(b, c.argTys[1])
		content := e.readContent(st, cell, nil)
		e.noteAccess(fr, st, T.Op("eaddr", cell.path, 0, cell.obj, off, T.Op("type", "", 0, types.Typ[types.Byte])), c.pos, false)
		st.mem[cell] = T.Op("put", "", 0, nil, content, off, T.mk(&Term{op: "bytes", aux: o, n: int64(w), args: []*Term{v}}))
		return []*Term{}, true
	case strings.HasPrefix(m, "AppendUint"):
		b := e.seqOf(st, args[1], c.argTys[1])
		r := T.Lift("", func(a []*Term) *Term {
			return e.catSeq(a[0], T.mk(&Term{op: "bytes", aux: o, n: int64(w), args: []*Term{args[2]}}))
		}, b)
		return []*Term{r}, true
	}
	return nil, false
}

// readLE reads a fixed-width integer from byte content.
func (e *Eng) readLE(o string, w int, k Kind, content, off *Term) *Term {
	T := e.T
	if e.cmp != nil {
		return T.Lift("", func(a []*Term) *Term {
			if r := e.cmp.content(a[0], a[1], o, w, k); r != nil {
				return r
			}
			return T.mk(&Term{op: "le", aux: o, n: int64(w), kind: k, args: []*Term{a[0], a[1]}})
		}, content, off)
	}
	return T.Lift("rdle"+o+strconv.Itoa(w), func(a []*Term) *Term {
		ct, off := a[0], a[1]
		for ct.op == "put" {
			d := T.Sub(off, ct.args[1])
			if d.isInt() {
				if d.n == 0 && ct.args[2].n == int64(w) && ct.args[2].aux == o {
					return T.Conv(k, ct.args[2].args[0])
				}
				if d.n >= ct.args[2].n || d.n+int64(w) <= 0 {
					ct = ct.args[0]
					continue
				}
			}
			break
		}
		if ct.op == "fbytes" {
			return T.mk(&Term{op: "fle", aux: o, n: int64(w), kind: k, args: []*Term{ct.args[0], T.Add(ct.args[1], off)}})
		}
		if ct.op == "zeros" {
			return T.Zero
		}
		return T.mk(&Term{op: "le", aux: o, n: int64(w), kind: k, args: []*Term{ct, off}})
	}, content, off)
}

// fileRead models reads; the buffer then holds bytes of the file.
func (e *Eng) fileRead(fr *Frame, st *State, c *callInfo, name string, tys []types.Type) ([]*Term, bool) {
	T := e.T
	f, buf, bt := c.args[0], c.args[1], c.argTys[1]
	var at *Term
	if name == "io.ReadFull" && f.op == "iface" && f.args[0].op == "section" && f.args[0].args[2] == e.lenOf(buf) {
		// the whole section
		f, at, name = f.args[0].args[0], f.args[0].args[1], "(*os.File).ReadAt"
	}
	if strings.HasPrefix(name, "io.") {
		ff, ok := e.isFile(f)
		if !ok {
			if s, ok2 := e.sectionReader(f); ok2 {
				_ = s
			}
			ev := e.emit(fr, st, &Event{kind: "read", callee: name, args: c.args, errIdx: -1}, c.pos, c.key)
			e.havocArgs(fr, st, ev, c)
			return e.results(ev, tys), true
		}
		f = ff
	}
	ln := e.lenOf(buf)
	var off *Term
	if at != nil {
		off = at
	} else if name == "(*os.File).ReadAt" {
		off = c.args[2]
	} else {
		off = e.filePos(st, f, "pos")
	}
	ev := e.emit(fr, st, &Event{kind: "read", callee: name, args: []*Term{f, buf}, errIdx: -1, fpos: off, size: ln}, c.pos, c.key)
	rs := e.results(ev, tys)
	okAll := T.Eq(rs[1], T.Nil)
	n := rs[0]
	if e.cmp != nil {
		okAll, n, rs[1] = e.cmp.readOK(st, ev, off, ln)
		rs[0] = n
	}
	if name != "io.ReadFull" && e.cmp == nil {
		// never more than was asked for
		n = T.Sub(ln, T.mk(&Term{op: "idx", aux: "missing", ref: ev}))
		rs[0] = n
		ev.res = append([]*Term{n}, ev.res[1:]...)
		full := T.Not(T.Lt(n, ln, kI64, true))
		if name == "(*os.File).ReadAt" {
			okAll = T.Or(okAll, full)
		} else {
			okAll = full
		}
	}
	nTerm := T.Ite(okAll, ln, n)
	if buf.op == "ite" {
		e.unsupported("read into a conditional buffer")
		return []*Term{nTerm, rs[1]}, true
	}
	cell, boff, _ := e.sliceParts(buf, bt)
	content := e.readContent(st, cell, nil)
	e.noteAccess(fr, st, T.Op("eaddr", cell.path, 0, cell.obj, boff, T.Op("type", "", 0, types.Typ[types.Byte])), c.pos, false)
	var nc *Term
	fb := T.Op("fbytes", "", 0, nil, f, T.Sub(off, boff))
	if cell.obj.fresh && content.op == "zeros" || content.op == "fbytes" && content == fb {
		nc = fb
	} else {
		nc = T.Op("blit", "file", 0, nil, content, boff, fb, ln)
	}
	st.mem[cell] = T.Ite(okAll, nc, T.Op("partial", "", 0, ev))
	if name != "(*os.File).ReadAt" {
		e.setFilePos(st, f, "pos", T.Ite(okAll, T.Add(off, ln), T.Op("unkpos", "", 0, ev)))
	}
	// inside this path n equals the length iff the read was complete
	return []*Term{nTerm, rs[1]}, true
}

func (e *Eng) sectionReader(f *Term) (*Term, bool) { return nil, false }

// pureSeqCall: a pure function of a byte sequence (varint decoding).
func (e *Eng) pureSeqCall(fr *Frame, st *State, c *callInfo, nm string) []*Term {
	T := e.T
	tys := typeTuple(c.sig.Results())
	sq := e.seqOf(st, c.args[0], c.argTys[0])
	if e.cmp != nil {
		if r := e.cmp.decode(c.fn, sq, tys); r != nil {
			return r
		}
	}
	var rs []*Term
	for i, t := range tys {
		rs = append(rs, T.Lift("", func(a []*Term) *Term {
			s := a[0]
			if s.op == "snap" && s.args[0].op == "fbytes" {
				return T.mk(&Term{op: "vi", aux: nm, n: int64(i), kind: kindOf(t), args: []*Term{s.args[0].args[0], T.Add(s.args[0].args[1], s.args[1]), s.args[2]}})
			}
			return T.mk(&Term{op: "vi", aux: nm, n: int64(i), kind: kindOf(t), args: []*Term{s}})
		}, sq))
	}
	return rs
}

// ---- sorting ----

// sortOf: the functions that ask whether a slice is sorted, and what sorts it.
var sortOf = map[string]string{"sort.SliceIsSorted": "sort.Slice", "sort.IsSorted": "sort.Sort", "slices.IsSorted": "slices.Sort", "slices.IsSortedFunc": "slices.SortFunc"}

func (e *Eng) sortCall(fr *Frame, st *State, c *callInfo, name string) ([]*Term, bool) {
	T := e.T
	s := c.args[0]
	st0 := c.argTys[0]
	if s.op == "iface" {
		st0 = s.ref.(types.Type)
		s = s.args[0]
	}
	asked := sortOf[name] // whether it is sorted
	if asked != "" {
		name = asked
	}
	var ev *Event
	if asked == "" {
		ev = e.emit(fr, st, &Event{kind: "sort", callee: name, args: []*Term{s}, errIdx: -1}, c.pos, c.key)
	}
	sl, ok := st0.Underlying().(*types.Slice)
	if !ok || s.op == "ite" {
		if asked != "" {
			return []*Term{T.Atom(T.Op("unk", c.key, 0, nil))}, true
		}
		e.havocArgs(fr, st, ev, c)
		e.unsupported("sort of something other than a slice in %s", fr.fn)
		return []*Term{}, true
	}
	cell, off, ln := e.sliceParts(s, st0)
	content := e.readContent(st, cell, nil)
	e.noteAccess(fr, st, T.Op("eaddr", cell.path, 0, cell.obj, off, T.Op("type", "", 0, sl.Elem())), c.pos, asked != "")
	a, b := T.Sym("sort.a", kindOf(sl.Elem())), T.Sym("sort.b", kindOf(sl.Elem()))
	var cmp *Term
	call := func(fv *Term, args []*Term, tys []types.Type, tmp *State) *Term {
		c2 := &callInfo{sig: c.sig, common: c.common, pos: c.pos, key: c.key + "/cmp", instr: c.instr}
		e.bindCallee(c2, fv)
		c2.args = append(c2.args, args...)
		c2.argTys = append(c2.argTys, tys...)
		if c2.fn == nil {
			return nil
		}
		saveTrace, saveB, saveS := e.trace, e.bounds, e.stores
		var rs []*Term
		if e.P.isRepo(c2.fn) && len(c2.fn.Blocks) > 0 {
			rs, _ = e.inline(fr, tmp, c2)
		} else if len(args) == 2 && strings.HasPrefix(fnKey(c2.fn), "cmp.Compare") {
			rs = []*Term{T.Op("cmp3", "", 0, nil, args[0], args[1])}
		}
		e.trace, e.bounds, e.stores = saveTrace, saveB, saveS
		if len(rs) != 1 {
			return nil
		}
		return rs[0]
	}
	tmp := st.clone()
	switch name {
	case "sort.Slice", "sort.SliceStable":
		// less(i, j) reads the elements through the slice
		i, j := T.Sym("sort.i", kI64), T.Sym("sort.j", kI64)
		tmp.mem[cell] = T.Op("sortview", "", 0, nil, T.Add(off, i), a, T.Add(off, j), b)
		cmp = call(c.args[1], []*Term{i, j}, []types.Type{types.Typ[types.Int], types.Typ[types.Int]}, tmp)
	case "slices.SortFunc", "slices.SortStableFunc":
		r := call(c.args[1], []*Term{a, b}, []types.Type{sl.Elem(), sl.Elem()}, tmp)
		if r != nil {
			cmp = T.Lift("", func(x []*Term) *Term {
				if x[0].op == "cmp3" {
					kd := x[0].args[0].kind
					if kd == 0 {
						kd = kU64
					}
					return T.Lt(x[0].args[0], x[0].args[1], kd, false)
				}
				return T.Lt(x[0], T.Zero, kI64, true)
			}, r)
		}
	case "slices.Sort":
		cmp = T.Lt(a, b, kindOf(sl.Elem()), false)
	case "sort.Sort", "sort.Stable":
		nt, ok := st0.(*types.Named)
		if ok {
			if m := e.P.prog.LookupMethod(nt, nt.Obj().Pkg(), "Less"); m != nil {
				i, j := T.Sym("sort.i", kI64), T.Sym("sort.j", kI64)
				tmp.mem[cell] = T.Op("sortview", "", 0, nil, T.Add(off, i), a, T.Add(off, j), b)
				cmp = call(T.Op("func", "", 0, m), []*Term{s, i, j}, []types.Type{nt, types.Typ[types.Int], types.Typ[types.Int]}, tmp)
			}
		}
	}
	if cmp == nil {
		cmp = T.Op("unkcmp", c.key, 0, nil)
	}
	if asked != "" {
		return []*Term{T.Atom(T.Op("issorted", "", 0, nil, content, off, ln, cmp))}, true
	}
	ev.args = append(ev.args, cmp, ln, off)
	stable := strings.Contains(name, "Stable")
	st.mem[cell] = T.Op("sorted", strconv.FormatBool(stable), 0, nil, content, off, ln, cmp)
	return []*Term{}, true
}

// ---- bitmaps ----

var bmPure = map[string]bool{"Contains": true, "Minimum": true, "Maximum": true, "IsEmpty": true, "GetCardinality": true, "ToArray": true, "ToBuffer": true, "ToBufferWithCopy": true, "String": true, "Rank": true, "Select": true, "LenInBytes": true, "GetSerializedSize": true, "Debug": true, "NewIterator": true}

func isBitmapPtr(t types.Type) bool {
	return t != nil && strings.HasSuffix(types.TypeString(t, nil), "sroar.Bitmap") && strings.HasPrefix(types.TypeString(t, nil), "*")
}

func (e *Eng) bitmapCall(fr *Frame, st *State, c *callInfo, name string, tys []types.Type) ([]*Term, bool) {
	T := e.T
	if !strings.Contains(name, "weaviate/sroar.") {
		return nil, false
	}
	m := name[strings.LastIndexByte(name, '.')+1:]
	meth := c.fn != nil && c.fn.Signature.Recv() != nil
	ver := func(b *Term) *Term { return e.bmState(st, b) }
	if meth && !bmNilOK[m] {
		for _, l := range T.Leaves(c.args[0]) {
			// a bitmap that the caller gives may be missing
			if l == T.Nil || strings.HasPrefix(l.op, "arg") || l.op == "bmarg" || l.op == "param" {
				if g := T.And(st.guard, T.And(T.LeafGuard(c.args[0], l), T.Eq(l, T.Nil))); g != T.False {
					e.bounds = append(e.bounds, &BoundOb{kind: "nil", guard: g, idx: l, pos: c.pos, fn: fr.fn, stack: fr.callers(), loops: append([]*Loop(nil), e.loopStk...)})
				}
			}
		}
	}
	if meth && bmPure[m] {
		var rs []*Term
		as := append([]*Term{}, c.args...)
		as[0] = ver(c.args[0])
		for i, t := range tys {
			r := T.Lift("", func(a []*Term) *Term {
				return e.boolify(T.mk(&Term{op: "bm", aux: m, n: int64(i), args: append([]*Term(nil), a...), kind: kindOf(t)}), t)
			}, as...)
			rs = append(rs, r)
		}
		e.emit(fr, st, &Event{kind: "bmread", callee: m, args: c.args, errIdx: -1}, c.pos, c.key)
		return rs, true
	}
	ev := e.emit(fr, st, &Event{kind: "bm", callee: m, args: c.args, errIdx: -1}, c.pos, c.key)
	if meth {
		switch m {
		case "Clone":
			o := e.freshObj("bm:"+c.key, "bitmap", c.argTys[0], c.pos)
			p := e.addr(o, "")
			e.setBm(st, p, ver(c.args[0]))
			ev.res = []*Term{p}
			return ev.res, true
		case "Or", "And", "AndNot", "OrOld", "AndOld", "AndNotOld":
			old, other := ver(c.args[0]), ver(c.args[1])
			ev.seqs = []*Term{old, other}
			e.setBmG(st, c.args[0], T.Op("bmop", strings.TrimSuffix(m, "Old"), 0, nil, old, other), fr, c)
			ev.res = nil
			if len(tys) == 1 {
				ev.res = []*Term{c.args[0]}
			}
			return ev.res, true
		default: // Set, SetMany, Remove, Reset, ...
			old := ver(c.args[0])
			as := []*Term{old}
			for i, a := range c.args[1:] {
				if _, ok := c.argTys[i+1].Underlying().(*types.Slice); ok {
					a = e.seqOf(st, a, c.argTys[i+1])
				}
				as = append(as, a)
			}
			ev.seqs = as
			e.setBmG(st, c.args[0], T.Op("bmop", m, 0, nil, as...), fr, c)
			rs := e.results(ev, tys)
			ev.errIdx = -1
			return rs, true
		}
	}
	// constructors
	if len(tys) == 1 && isBitmapPtr(tys[0]) {
		o := e.freshObj("bm:"+c.key, "bitmap", tys[0], c.pos)
		p := e.addr(o, "")
		var as []*Term
		for i, a := range c.args {
			if c.argTys[i] != nil {
				if _, ok := c.argTys[i].Underlying().(*types.Slice); ok {
					a = e.seqOf(st, a, c.argTys[i])
				} else if isBitmapPtr(c.argTys[i]) {
					a = ver(a)
				}
			}
			as = append(as, a)
		}
		v := T.Op("bmnew", m, 0, nil, as...)
		if strings.HasPrefix(m, "FromBuffer") && len(as) == 1 {
			e.bound(fr, st, "words", e.lenOf(as[0]), nil, nil, c.pos)
			e.bounds[len(e.bounds)-1].hi = as[0]
		}
		if m == "NewBitmap" || m == "NewBitmapWith" {
			v = T.Op("bmempty", "", 0, nil)
		}
		e.setBm(st, p, v)
		ev.res = []*Term{p}
		return ev.res, true
	}
	e.havocArgs(fr, st, ev, c)
	rs := e.results(ev, tys)
	return rs, true
}

// bmNilOK are the methods that accept a missing bitmap.
var bmNilOK = map[string]bool{"IsEmpty": true, "Contains": true, "Remove": true, "GetCardinality": true, "ToArray": true, "LenInBytes": true, "FillUp": true, "ToBuffer": true, "ToBufferWithCopy": true}

// bmState is the content of the bitmap a pointer refers to.
func (e *Eng) bmState(st *State, p *Term) *Term {
	return e.T.Lift("", func(a []*Term) *Term {
		p := a[0]
		if p == e.T.Nil {
			return p
		}
		c := e.bmCell(p)
		if v, ok := st.mem[c]; ok {
			return e.T.Restrict(v, st.guard)
		}
		v := e.T.Op("bmof", "", 0, nil, p)
		st.mem[c] = v
		return v
	}, p)
}

func (e *Eng) bmCell(p *Term) Cell {
	if p.op == "addr" {
		return Cell{p.ref.(*Obj), p.aux + "$bm"}
	}
	return Cell{e.rootObj(p, types.Typ[types.Invalid]), "$bm"}
}

func (e *Eng) setBm(st *State, p, v *Term) { st.mem[e.bmCell(p)] = v }

func (e *Eng) setBmG(st *State, p, v *Term, fr *Frame, c *callInfo) {
	for _, l := range e.T.Leaves(p) {
		if l == e.T.Nil {
			continue
		}
		g := e.T.LeafGuard(p, l)
		old := e.bmState(st, l)
		e.noteAccess(fr, st, e.addr(e.bmCell(l).obj, "$bm"), c.pos, false)
		e.setBm(st, l, e.T.Ite(g, v, old))
	}
}

// ---- havoc ----

// havocArgs: an unknown call may change everything reachable from its arguments.
func (e *Eng) havocArgs(fr *Frame, st *State, ev *Event, c *callInfo) {
	objs := map[*Obj]bool{}
	for i, a := range c.args {
		if i < len(c.argTys) && c.argTys[i] != nil {
			if !mayPoint(c.argTys[i]) {
				continue
			}
		}
		e.reach(st, a, objs)
	}
	for _, f := range c.free {
		e.reach(st, f, objs)
	}
	var only map[string]bool
	if c.fn == nil && !c.common.IsInvoke() {
		only = e.P.dynFields(c.sig)
	}
	var cells []Cell
	for cell := range st.mem {
		if objs[cell.obj] {
			cells = append(cells, cell)
		}
	}
	sort.Slice(cells, func(i, j int) bool {
		if cells[i].obj.id != cells[j].obj.id {
			return cells[i].obj.id < cells[j].obj.id
		}
		return cells[i].path < cells[j].path
	})
	for _, cell := range cells {
		if strings.HasPrefix(cell.path, "$held") {
			continue
		}
		if only != nil && !(only[cell.path] && len(c.args) > 1 && c.args[1].op == "addr" && c.args[1].ref.(*Obj) == cell.obj) {
			continue
		}
		old := st.mem[cell]
		t := e.cells[cell]
		h := e.T.mk(&Term{op: "hav", aux: cell.path, ref: ev, kind: kindOfSafe(t), n: int64(cell.obj.id)})
		if t != nil {
			h = e.boolify(h, t)
		}
		_ = old
		st.mem[cell] = h
	}
	ev.havoc = objs
}

func mayPoint(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return false
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if mayPoint(u.Field(i).Type()) {
				return true
			}
		}
		return false
	}
	return true
}

func (e *Eng) reach(st *State, t *Term, objs map[*Obj]bool) {
	seen := map[*Term]bool{}
	var rec func(t *Term)
	addObj := func(o *Obj) {
		if objs[o] {
			return
		}
		objs[o] = true
		for c, v := range st.mem {
			if c.obj == o {
				rec(v)
			}
		}
	}
	rec = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		switch t.op {
		case "addr", "eaddr", "mkslice", "resl", "mkchan", "mkmap":
			if o, ok := t.ref.(*Obj); ok {
				addObj(o)
			}
		case "sym", "init", "res", "elem", "field", "file", "asserted", "fin", "mu":
			if o, ok := e.objs["root:"+strconv.Itoa(t.id)]; ok {
				addObj(o)
			}
		}
		for _, a := range t.args {
			rec(a)
		}
	}
	rec(t)
}

// calleeName gives a printable name of a function.
func calleeName(f *ssa.Function) string {
	if f == nil {
		return "?"
	}
	return f.RelString(nil)
}

// bufCell is the cell that holds the contents of a bytes.Buffer.
func (e *Eng) bufCell(w *Term) (Cell, bool) {
	if w.op == "iface" {
		if types.TypeString(w.ref.(types.Type), nil) != "*bytes.Buffer" {
			return Cell{}, false
		}
		w = w.args[0]
	}
	if w.op == "addr" {
		return Cell{w.ref.(*Obj), w.aux + "$buf"}, true
	}
	return Cell{}, false
}

func (e *Eng) bufGet(st *State, c Cell) *Term {
	v, ok := st.mem[c]
	if !ok {
		v = e.T.Nil
		if !c.obj.fresh {
			v = e.T.mk(&Term{op: "init", aux: c.path, ref: c.obj})
		}
		st.mem[c] = v
		e.cells[c] = types.NewSlice(types.Typ[types.Byte])
	}
	return e.T.Restrict(v, st.guard)
}

func (e *Eng) bufAppend(st *State, c Cell, sq *Term) {
	cur := e.bufGet(st, c)
	st.mem[c] = e.T.Lift("", func(a []*Term) *Term { return e.catSeq(a[0], a[1]) }, cur, sq)
}

// dynFields: when every function that can be called dynamically with this
// signature only stores scalars into fields of its first parameter, a struct of
// the module without exported fields, those fields; otherwise nil.
func (P *Prog) dynFields(sig *types.Signature) map[string]bool {
	if sig.Params().Len() != 1 || sig.Results().Len() != 0 {
		return nil
	}
	pt, ok := sig.Params().At(0).Type().(*types.Pointer)
	if !ok {
		return nil
	}
	n, ok := pt.Elem().(*types.Named)
	if !ok || n.Obj().Pkg() == nil || !strings.HasPrefix(n.Obj().Pkg().Path(), P.mod) {
		return nil
	}
	st, ok := n.Underlying().(*types.Struct)
	if !ok {
		return nil
	}
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Exported() {
			return nil
		}
	}
	out := map[string]bool{}
	for f := range ssautil.AllFunctions(P.prog) {
		if !P.isRepo(f) || f.Signature.Recv() != nil || !types.Identical(f.Signature, sig) || len(f.Params) != 1 {
			continue
		}
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				switch x := ins.(type) {
				case *ssa.FieldAddr:
					if x.X != ssa.Value(f.Params[0]) {
						return nil
					}
				case *ssa.Store:
					fa, ok := x.Addr.(*ssa.FieldAddr)
					if !ok || kindOf(x.Val.Type()) == 0 && !isBoolType(x.Val.Type()) && !isFloatType(x.Val.Type()) {
						return nil
					}
					out["."+st.Field(fa.Field).Name()] = true
				case ssa.CallInstruction, *ssa.MapUpdate, *ssa.Send, *ssa.MakeClosure:
					if bi, ok := x.(ssa.CallInstruction); ok {
						if _, isB := bi.Common().Value.(*ssa.Builtin); isB {
							continue
						}
					}
					return nil
				}
			}
		}
	}
	return out
}
