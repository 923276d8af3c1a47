package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// callInfo describes a call being interpreted.
type callInfo struct {
	fn     *ssa.Function // resolved callee, nil when unknown
	sig    *types.Signature
	common *ssa.CallCommon
	args   []*Term
	argTys []types.Type
	free   []*Term
	pos    token.Pos
	key    string
	name   string
	block  bool
	instr  ssa.Instruction
}

func typeTuple(t types.Type) []types.Type {
	switch x := t.(type) {
	case nil:
		return nil
	case *types.Tuple:
		var r []types.Type
		for i := 0; i < x.Len(); i++ {
			r = append(r, x.At(i).Type())
		}
		return r
	}
	return []types.Type{t}
}

var errorIface = types.Universe.Lookup("error").Type().Underlying().(*types.Interface)
var errorType = types.Universe.Lookup("error").Type()

func isErrorType(t types.Type) bool { return types.Identical(t, errorType) }

func (e *Eng) emit(fr *Frame, st *State, ev *Event, pos token.Pos, key string) *Event {
	ev.pos = pos
	ev.fn = fr.fn
	ev.guard = st.guard
	k := fr.ctx + "|" + ev.kind + "|" + key
	if key == "" {
		k += strconv.Itoa(int(pos))
	}
	ev.key = k
	if old := e.evTab[k]; old != nil {
		ev.id = old.id
		ev2 := old
		ev.res = nil
		*ev2 = *ev
		ev = ev2
	} else {
		ev.id = len(e.evTab) + 1
		e.evTab[k] = ev
	}
	ev.loops = append([]*Loop(nil), e.loopStk...)
	ev.loopDeps = e.curDeps()
	ev.spawn = e.spawn
	ev.stack = fr.callers()
	e.seq++
	ev.seqNo = e.seq
	e.trace = append(e.trace, &Item{Ev: ev})
	return ev
}

func (fr *Frame) callers() []token.Pos {
	return append([]token.Pos(nil), fr.stack...)
}

// results makes the result terms of an opaque event.
func (e *Eng) results(ev *Event, tys []types.Type) []*Term {
	ev.errIdx = -1
	ev.res = nil
	for i, t := range tys {
		r := e.T.mk(&Term{op: "res", aux: ev.callee, n: int64(i), ref: ev, kind: kindOf(t)})
		if e.cmp != nil && isErrorType(t) && fileOp(ev.kind) {
			r = e.T.Nil
		}
		ev.res = append(ev.res, e.boolify(r, t))
		if isErrorType(t) {
			ev.errIdx = i
		}
	}
	return ev.res
}

func tupleOrOne(e *Eng, rs []*Term) *Term {
	if len(rs) == 1 {
		return rs[0]
	}
	return e.T.Op("tuple", "", 0, nil, rs...)
}

func (e *Eng) instr(fr *Frame, st *State, ins ssa.Instruction) bool {
	T := e.T
	set := func(v ssa.Value, t *Term) { st.env[v] = t }
	ctxKey := func() string { return fr.ctx + "@" + fmt.Sprintf("%d.%d", ins.Block().Index, instrIndex(ins)) }
	switch i := ins.(type) {
	case *ssa.DebugRef:
	case *ssa.Alloc:
		et := i.Type().Underlying().(*types.Pointer).Elem()
		nm := i.Comment
		o := e.freshObj("alloc:"+ctxKey(), nm, et, i.Pos())
		// (re)allocation zeroes the object
		for c := range st.mem {
			if c.obj == o {
				delete(st.mem, c)
			}
		}
		set(i, e.addr(o, ""))
	case *ssa.BinOp:
		set(i, e.binop(fr, st, i))
	case *ssa.UnOp:
		return e.unop(fr, st, i, ctxKey())
	case *ssa.ChangeType:
		set(i, e.val(fr, st, i.X))
	case *ssa.ChangeInterface:
		set(i, e.val(fr, st, i.X))
	case *ssa.MultiConvert:
		set(i, T.Op("conv", i.Type().String(), kindOf(i.Type()), nil, e.val(fr, st, i.X)))
	case *ssa.Convert:
		set(i, e.convert(fr, st, i))
	case *ssa.MakeInterface:
		x := e.val(fr, st, i.X)
		ty := i.X.Type()
		if _, isPtr := ty.Underlying().(*types.Pointer); !isPtr && !types.Implements(ty, errorIface) {
			set(i, T.Op("iface", "", 0, ty, x))
		} else {
			set(i, T.Lift("iface"+types.TypeString(ty, nil), func(a []*Term) *Term { return T.Op("iface", "", 0, ty, a[0]) }, x))
		}
	case *ssa.TypeAssert:
		x := e.val(fr, st, i.X)
		v, ok := e.typeAssert(fr, st, x, i.AssertedType, false)
		if i.CommaOk {
			set(i, T.Op("tuple", "", 0, nil, v, ok))
		} else {
			if !T.Implies(st.guard, ok) {
				e.bounds = append(e.bounds, &BoundOb{kind: "typeassert", guard: T.And(st.guard, T.Not(ok)), pos: i.Pos(), fn: fr.fn, stack: fr.callers(), loops: append([]*Loop(nil), e.loopStk...)})
				st.guard = T.And(st.guard, ok)
			}
			set(i, v)
		}
	case *ssa.MakeSlice:
		ln := e.val(fr, st, i.Len)
		o := e.freshObj("mk:"+ctxKey(), "slice", i.Type(), i.Pos())
		for c := range st.mem {
			if c.obj == o {
				delete(st.mem, c)
			}
		}
		cp := e.val(fr, st, i.Cap)
		et := i.Type().Underlying().(*types.Slice).Elem()
		c := Cell{o, "[]"}
		st.mem[c] = T.Op("zeros", "", 0, et)
		e.cells[c] = nil
		e.bounds = append(e.bounds, &BoundOb{kind: "make", guard: st.guard, idx: ln, hi: cp, pos: i.Pos(), fn: fr.fn, stack: fr.callers(), loops: append([]*Loop(nil), e.loopStk...)})
		set(i, T.Op("mkslice", "", 0, o, T.Zero, ln))
	case *ssa.MakeMap:
		o := e.freshObj("map:"+ctxKey(), "map", i.Type(), i.Pos())
		set(i, T.Op("mkmap", "", 0, o))
	case *ssa.MakeChan:
		o := e.freshObj("chan:"+ctxKey(), "chan", i.Type(), i.Pos())
		sz := e.val(fr, st, i.Size)
		set(i, T.Op("mkchan", "", 0, o, sz))
	case *ssa.MakeClosure:
		var bs []*Term
		for _, b := range i.Bindings {
			bs = append(bs, e.val(fr, st, b))
		}
		set(i, T.Op("closure", "", 0, i.Fn.(*ssa.Function), bs...))
	case *ssa.Slice:
		set(i, e.slice(fr, st, i))
	case *ssa.IndexAddr:
		set(i, e.indexAddr(fr, st, i))
	case *ssa.Index:
		x, idx := e.val(fr, st, i.X), e.val(fr, st, i.Index)
		if isStringType(i.X.Type()) {
			e.bound(fr, st, "index", idx, nil, e.lenOf(x), i.Pos())
			set(i, T.Op("strat", "", kindOf(i.Type()), nil, x, idx))
		} else {
			a := i.X.Type().Underlying().(*types.Array)
			e.bound(fr, st, "index", idx, nil, T.Int(a.Len()), i.Pos())
			set(i, e.sel(x, idx, a.Elem()))
		}
	case *ssa.FieldAddr:
		x := e.val(fr, st, i.X)
		stt := i.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct)
		nm := stt.Field(i.Field).Name()
		set(i, T.Lift("fa."+nm+"/"+strconv.Itoa(T.refID(stt)), func(a []*Term) *Term {
			p := a[0]
			switch p.op {
			case "addr":
				return e.addr(p.ref.(*Obj), p.aux+"."+nm)
			case "eaddr":
				return T.Op("eaddr", p.aux+"."+nm, 0, p.ref, p.args...)
			case "nil":
				return T.Op("nilfield", nm, 0, nil)
			}
			o := e.rootObj(p, i.X.Type().Underlying().(*types.Pointer).Elem())
			return e.addr(o, "."+nm)
		}, x))
		e.nilDeref(fr, st, x, i.Pos())
	case *ssa.Field:
		set(i, e.field(e.val(fr, st, i.X), i.X.Type(), i.Field))
	case *ssa.Extract:
		tup := e.val(fr, st, i.Tuple)
		set(i, T.Lift("ext"+strconv.Itoa(i.Index), func(a []*Term) *Term {
			if a[0].op == "tuple" {
				return a[0].args[i.Index]
			}
			return T.Op("extract", strconv.Itoa(i.Index), kindOf(i.Type()), nil, a[0])
		}, tup))
	case *ssa.Lookup:
		x, k := e.val(fr, st, i.X), e.val(fr, st, i.Index)
		if isStringType(i.X.Type()) {
			e.bound(fr, st, "index", k, nil, e.lenOf(x), i.Pos())
			set(i, T.Op("strat", "", kindOf(i.Type()), nil, x, k))
			break
		}
		ev := e.emit(fr, st, &Event{kind: "mapget", callee: "mapget", args: []*Term{x, k}, errIdx: -1}, i.Pos(), ctxKey())
		rs := e.results(ev, typeTuple(i.Type()))
		ev.errIdx = -1
		set(i, tupleOrOne(e, rs))
	case *ssa.Range:
		set(i, T.Op("range", ctxKey(), 0, nil, e.val(fr, st, i.X)))
	case *ssa.Next:
		ev := e.emit(fr, st, &Event{kind: "next", callee: "next", args: []*Term{e.val(fr, st, i.Iter)}, errIdx: -1}, i.Pos(), ctxKey())
		set(i, tupleOrOne(e, e.results(ev, typeTuple(i.Type()))))
	case *ssa.Select:
		ev := e.emit(fr, st, &Event{kind: "select", callee: "select", errIdx: -1}, i.Pos(), ctxKey())
		for _, s := range i.States {
			ev.args = append(ev.args, e.val(fr, st, s.Chan))
		}
		e.unsupported("select statement in %s", fr.fn)
		set(i, tupleOrOne(e, e.results(ev, typeTuple(i.Type()))))
	case *ssa.SliceToArrayPointer:
		e.unsupported("slice to array conversion in %s", fr.fn)
		set(i, T.Op("s2a", ctxKey(), 0, nil, e.val(fr, st, i.X)))
	case *ssa.Store:
		p := e.val(fr, st, i.Addr)
		e.nilDeref(fr, st, p, i.Pos())
		e.store(fr, st, p, i.Addr.Type().Underlying().(*types.Pointer).Elem(), e.val(fr, st, i.Val), i.Pos())
	case *ssa.MapUpdate:
		e.emit(fr, st, &Event{kind: "mapset", callee: "mapset", args: []*Term{e.val(fr, st, i.Map), e.val(fr, st, i.Key), e.val(fr, st, i.Value)}, errIdx: -1}, i.Pos(), ctxKey())
	case *ssa.Send:
		e.emit(fr, st, &Event{kind: "send", callee: "send", args: []*Term{e.val(fr, st, i.Chan), e.val(fr, st, i.X)}, errIdx: -1}, i.Pos(), ctxKey())
	case *ssa.Defer:
		c := e.callOf(fr, st, &i.Call, i.Pos(), ins)
		_ = c
		dr := deferRec{guard: st.guard, call: &i.Call, pos: i.Pos(), ctx: ctxKey()}
		dr.args = c.args
		dr.fn = T.Op("deferred", "", 0, nil)
		dr.info = c
		for k, d := range st.defers {
			if d.ctx == dr.ctx {
				st.defers = append(st.defers[:k:k], st.defers[k+1:]...)
				break
			}
		}
		if len(e.loopStk) > 0 && e.forests[fr.fn].inn[ins.Block()] != nil {
			e.unsupported("defer in a loop in %s", fr.fn)
		}
		st.defers = append(st.defers, dr)
	case *ssa.RunDefers:
		ds := st.defers
		st.defers = nil
		for k := len(ds) - 1; k >= 0; k-- {
			d := ds[k]
			if d.frame(fr) {
				g := T.And(st.guard, T.Restrict(d.guard, st.guard))
				if g == T.False {
					continue
				}
				info := *d.info
				info.key += "/d" + strconv.Itoa(i.Block().Index)
				if g == st.guard {
					e.doCall(fr, st, &info)
				} else {
					s1 := st.clone()
					s1.guard = g
					s2 := st.clone()
					s2.guard = T.And(st.guard, T.Not(g))
					e.doCall(fr, s1, &info)
					m := e.mergeStates(s1, s2)
					*st = *m
				}
			}
		}
		rest := ds[:0:0]
		for _, d := range ds {
			if !d.frame(fr) {
				rest = append(rest, d)
			}
		}
		st.defers = rest
	case *ssa.Go:
		e.goStmt(fr, st, i, ctxKey())
	case *ssa.Call:
		c := e.callOf(fr, st, &i.Call, i.Pos(), ins)
		rs, live := e.doCall(fr, st, c)
		if !live {
			return false
		}
		if rs != nil {
			set(i, tupleOrOne(e, rs))
		} else {
			set(i, T.Op("tuple", "", 0, nil))
		}
	default:
		e.unsupported("instruction %T in %s", ins, fr.fn)
		if v, ok := ins.(ssa.Value); ok {
			set(v, T.Op("unk", ctxKey(), kindOf(v.Type()), nil))
		}
	}
	return true
}

func (d deferRec) frame(fr *Frame) bool {
	return len(d.ctx) > len(fr.ctx) && d.ctx[:len(fr.ctx)+1] == fr.ctx+"@" || d.fr == fr
}

func instrIndex(ins ssa.Instruction) int {
	for k, x := range ins.Block().Instrs {
		if x == ins {
			return k
		}
	}
	return -1
}

// nilDeref records the obligation that a pointer is not nil.
func (e *Eng) nilDeref(fr *Frame, st *State, p *Term, pos token.Pos) {
	if p.op != "ite" && p.op != "nil" {
		return
	}
	g := e.T.LeafGuard(p, e.T.Nil)
	if g = e.T.And(st.guard, g); g != e.T.False {
		e.bounds = append(e.bounds, &BoundOb{kind: "nil", guard: g, idx: p, pos: pos, fn: fr.fn, stack: fr.callers(), loops: append([]*Loop(nil), e.loopStk...)})
	}
}

func (e *Eng) bound(fr *Frame, st *State, kind string, lo, hi, ln *Term, pos token.Pos) {
	e.bounds = append(e.bounds, &BoundOb{kind: kind, guard: st.guard, idx: lo, hi: hi, len: ln, pos: pos, fn: fr.fn, stack: fr.callers(), loops: append([]*Loop(nil), e.loopStk...)})
}

func (e *Eng) indexAddr(fr *Frame, st *State, i *ssa.IndexAddr) *Term {
	T := e.T
	x, idx := e.val(fr, st, i.X), e.val(fr, st, i.Index)
	et := i.Type().Underlying().(*types.Pointer).Elem()
	tt := T.Op("type", "", 0, et)
	if pt, ok := i.X.Type().Underlying().(*types.Pointer); ok { // pointer to array
		at := pt.Elem().Underlying().(*types.Array)
		e.bound(fr, st, "index", idx, nil, T.Int(at.Len()), i.Pos())
		return T.Lift("", func(a []*Term) *Term {
			switch a[0].op {
			case "addr":
				return T.Op("eaddr", a[0].aux+"[]", 0, a[0].ref, a[1], tt)
			case "eaddr":
				return T.Op("eaddr", a[0].aux+"[]", 0, a[0].ref, a[0].args[0], tt, a[1])
			}
			return T.Op("eaddr", "[]", 0, e.rootObj(a[0], at), a[1], tt)
		}, x, idx)
	}
	e.bound(fr, st, "index", idx, nil, e.lenOf(x), i.Pos())
	return T.Lift("", func(a []*Term) *Term {
		if a[0] == T.Nil {
			return T.Op("nilfield", "[]", 0, nil)
		}
		c, off, _ := e.sliceParts(a[0], i.X.Type())
		return T.Op("eaddr", c.path, 0, c.obj, T.Add(off, a[1]), tt)
	}, x, idx)
}

func (e *Eng) slice(fr *Frame, st *State, i *ssa.Slice) *Term {
	T := e.T
	x := e.val(fr, st, i.X)
	lo := T.Zero
	if i.Low != nil {
		lo = e.val(fr, st, i.Low)
	}
	var hi *Term
	if i.High != nil {
		hi = e.val(fr, st, i.High)
	}
	if isStringType(i.X.Type()) {
		ln := e.lenOf(x)
		if hi == nil {
			hi = ln
		}
		e.bound(fr, st, "slice", lo, hi, ln, i.Pos())
		return T.Op("substr", "", 0, nil, x, lo, hi)
	}
	if pt, ok := i.X.Type().Underlying().(*types.Pointer); ok {
		at := pt.Elem().Underlying().(*types.Array)
		ln := T.Int(at.Len())
		if hi == nil {
			hi = ln
		}
		e.bound(fr, st, "slice", lo, hi, ln, i.Pos())
		return T.Lift("", func(a []*Term) *Term {
			o, path := (*Obj)(nil), ""
			switch a[0].op {
			case "addr":
				o, path = a[0].ref.(*Obj), a[0].aux
			default:
				o = e.rootObj(a[0], at)
			}
			return T.Op("mkslice", path, 0, o, lo, T.Sub(hi, lo))
		}, x)
	}
	full := hi == nil
	hiDefault := full
	ln := e.lenOf(x)
	if hi == nil {
		hi = ln
	}
	// reslicing up to the capacity is possible; the rule is stricter: up to the length,
	// except for a slice made here, whose capacity is known
	e.bound(fr, st, "slice", lo, hi, ln, i.Pos())
	if full && lo == T.Zero {
		return x
	}
	return T.Lift("", func(a []*Term) *Term {
		s := a[0]
		if s == T.Nil {
			return s
		}
		lo, hi := lo, hi
		if x.op == "ite" && hiDefault {
			hi = e.lenOf(s)
		}
		if s.op == "mkslice" || s.op == "resl" {
			return T.Op(s.op, s.aux, 0, s.ref, T.Add(s.args[0], lo), T.Sub(hi, lo))
		}
		if lo == T.Zero && hi == e.lenOf(s) {
			return s
		}
		if lo == T.Zero && hi == T.Zero {
			return T.Nil
		}
		return T.Op("resl", "*", 0, e.rootObj(s, i.X.Type()), lo, T.Sub(hi, lo))
	}, x)
}

func (e *Eng) convert(fr *Frame, st *State, i *ssa.Convert) *Term {
	T := e.T
	x := e.val(fr, st, i.X)
	from, to := i.X.Type(), i.Type()
	kf, kt := kindOf(from), kindOf(to)
	switch {
	case kf != 0 && kt != 0:
		if kt.bits() < kf.bits() {
			e.narrow = append(e.narrow, &NarrowOb{guard: st.guard, val: x, kind: kt, pos: i.Pos(), fn: fr.fn, loops: append([]*Loop(nil), e.loopStk...)})
		}
		if e.cmp != nil {
			return e.unconv(T.Conv(kt, x), st.guard)
		}
		return T.Conv(kt, x)
	case kf != 0 && isFloatType(to):
		return T.Lift("i2f", func(a []*Term) *Term { return T.Op("i2f", strconv.FormatBool(kf.signed()), 0, nil, a[0]) }, x)
	case isFloatType(from) && isFloatType(to):
		return T.Op("f2f", to.String(), 0, nil, x)
	}
	return T.Lift("cv"+to.String(), func(a []*Term) *Term {
		return e.boolify(T.Op("conv", to.String(), kt, nil, a[0]), to)
	}, x)
}

func (e *Eng) unop(fr *Frame, st *State, i *ssa.UnOp, key string) bool {
	T := e.T
	x := e.val(fr, st, i.X)
	switch i.Op {
	case token.MUL:
		e.nilDeref(fr, st, x, i.Pos())
		st.env[i] = e.load(fr, st, x, i.Type(), i.Pos())
	case token.NOT:
		st.env[i] = T.Not(x)
	case token.SUB:
		if isFloatType(i.Type()) {
			st.env[i] = T.Op("fneg", "", 0, nil, x)
		} else {
			st.env[i] = T.Conv(kindOf(i.Type()), T.Scale(x, -1))
		}
	case token.XOR:
		// ^x == -x-1
		st.env[i] = T.Conv(kindOf(i.Type()), T.Add(T.Scale(x, -1), T.Int(-1)))
	case token.ARROW:
		ev := e.emit(fr, st, &Event{kind: "recv", callee: "recv", args: []*Term{x}, errIdx: -1}, i.Pos(), key)
		tys := typeTuple(i.Type())
		rs := e.results(ev, tys)
		ev.errIdx = -1
		if i.CommaOk {
			st.env[i] = T.Op("tuple", "", 0, nil, rs...)
		} else {
			st.env[i] = rs[0]
		}
	default:
		e.unsupported("operator %s", i.Op)
		st.env[i] = T.Op("unk", key, kindOf(i.Type()), nil)
	}
	return true
}

func (e *Eng) binop(fr *Frame, st *State, i *ssa.BinOp) *Term {
	x, y := e.val(fr, st, i.X), e.val(fr, st, i.Y)
	if e.cmp != nil {
		return e.binC(i, x, y, st.guard)
	}
	switch k := kindOf(i.Y.Type()); i.Op {
	case token.QUO, token.REM:
		if k != 0 && !(y.isInt() && y.n != 0) {
			e.bound(fr, st, "div", y, nil, nil, i.Pos())
		}
	case token.SHL, token.SHR:
		if k.signed() && !(y.isInt() && y.n >= 0) {
			e.bound(fr, st, "shift", y, nil, nil, i.Pos())
		}
	}
	return e.binTerm(i.Op, x, y, i.X.Type(), i.Y.Type(), i.Type())
}

func (e *Eng) binTerm(op token.Token, x, y *Term, tx, ty, tr types.Type) *Term {
	T := e.T
	k := kindOf(tx)
	switch op {
	case token.EQL, token.NEQ:
		var r *Term
		if isFloatType(tx) {
			r = T.Lift("feq", func(a []*Term) *Term {
				if a[0].op == "float" && a[1].op == "float" {
					return T.Bool(a[0] == a[1])
				}
				return T.Atom(T.Op("feq", "", 0, nil, a[0], a[1]))
			}, x, y)
		} else {
			r = T.Eq(x, y)
		}
		if op == token.NEQ {
			r = T.Not(r)
		}
		return r
	case token.LSS, token.LEQ, token.GTR, token.GEQ:
		a, b := x, y
		if op == token.GTR || op == token.LEQ {
			a, b = y, x
		}
		var r *Term
		if k != 0 {
			r = T.Lt(a, b, k, e.idxKind(tx))
		} else {
			r = T.Lift("olt", func(z []*Term) *Term {
				if z[0].op == "float" && z[1].op == "float" {
					return T.Bool(fval(z[0]) < fval(z[1]))
				}
				return T.Atom(T.Op("olt", tx.String(), 0, nil, z[0], z[1]))
			}, a, b)
		}
		if op == token.LEQ || op == token.GEQ {
			r = T.Not(r)
		}
		return r
	}
	if isBoolType(tr) {
		switch op {
		case token.AND, token.LAND:
			return T.And(x, y)
		case token.OR, token.LOR:
			return T.Or(x, y)
		}
	}
	if isStringType(tr) {
		if x.op == "str" && y.op == "str" {
			return T.Str(x.aux + y.aux)
		}
		return T.Op("concat", "", 0, nil, x, y)
	}
	if isFloatType(tr) {
		return T.Lift("f"+op.String(), func(a []*Term) *Term { return T.Op("f"+op.String(), "", 0, nil, a[0], a[1]) }, x, y)
	}
	kr := kindOf(tr)
	switch op {
	case token.ADD:
		return T.Conv(kr, T.Add(x, y))
	case token.SUB:
		return T.Conv(kr, T.Sub(x, y))
	case token.MUL:
		return T.Conv(kr, T.Mul(x, y))
	case token.QUO, token.REM:
		nm := "div"
		if op == token.REM {
			nm = "rem"
		}
		return T.Lift(nm+strconv.Itoa(int(kr)), func(a []*Term) *Term { return T.divrem(nm, a[0], a[1], kr) }, x, y)
	case token.SHL:
		return T.Conv(kr, T.Lift("shl", func(a []*Term) *Term {
			if a[1].isInt() {
				if a[1].n >= 64 || a[1].n < 0 {
					return T.Zero
				}
				return T.addScaled(T.Zero, a[0], 1<<uint(a[1].n))
			}
			return T.Op("shl", "", 0, nil, a[0], a[1])
		}, x, y))
	case token.SHR:
		return T.Lift("shr"+strconv.Itoa(int(kr)), func(a []*Term) *Term {
			if a[0].isInt() && a[1].isInt() && a[1].n >= 0 && a[1].n < 64 {
				if kr.signed() {
					return T.Int(a[0].n >> uint(a[1].n))
				}
				return T.Int(int64(uint64(a[0].n) >> uint(a[1].n)))
			}
			if a[1].isInt() && a[1].n >= 0 && a[1].n < 62 && nonNeg(T, a[0]) {
				return T.divrem("div", a[0], T.Int(1<<uint(a[1].n)), kI64)
			}
			s := "u"
			if kr.signed() {
				s = "s"
			}
			return T.Op("shr", s, kr, nil, a[0], a[1])
		}, x, y)
	case token.AND:
		return T.Lift("and", func(a []*Term) *Term { return T.bitand(a[0], a[1]) }, x, y)
	case token.OR:
		return T.Lift("or", func(a []*Term) *Term { return T.bitop("or", a[0], a[1]) }, x, y)
	case token.XOR:
		return T.Lift("xor", func(a []*Term) *Term { return T.bitop("xor", a[0], a[1]) }, x, y)
	case token.AND_NOT:
		return T.Lift("andnot", func(a []*Term) *Term {
			if a[1].isInt() {
				return T.bitand(a[0], T.Int(^a[1].n))
			}
			return T.Op("andnot", "", 0, nil, a[0], a[1])
		}, x, y)
	}
	e.unsupported("operator %s", op)
	return T.Op("unk", op.String(), kr, nil, x, y)
}

func (T *Terms) bitand(a, b *Term) *Term {
	if a.isInt() && b.isInt() {
		return T.Int(a.n & b.n)
	}
	if a.isInt() {
		a, b = b, a
	}
	if b.isInt() {
		m := b.n
		if m == 0 {
			return T.Zero
		}
		if m == -1 {
			return a
		}
		if m > 0 && m&(m+1) == 0 { // low bits: remainder of a power of two
			if l, h, ok := T.rangeOf(a); ok && l >= 0 && h <= m {
				return a
			}
			return T.modPow2(a, m+1)
		}
		// clearing low bits
		if lo := ^m; lo > 0 && lo&(lo+1) == 0 {
			return T.addScaled(a, T.modPow2(a, lo+1), -1)
		}
	}
	return T.bitop("and", a, b)
}

// modPow2 is the residue of a modulo a power of two (independent of the sign of a).
func (T *Terms) modPow2(a *Term, m int64) *Term {
	args, coef, c := T.linParts(a)
	r := T.Int(((c % m) + m) % m)
	for i, x := range args {
		k := ((coef[i] % m) + m) % m
		if k == 0 {
			continue
		}
		if x.op == "mod" && x.n%m == 0 || x.op == "T" && !x.kind.signed() && false {
			x = x.args[0]
		}
		r = T.addScaled(r, x, k)
	}
	if r.op == "lin" {
		// what cancelled, or became a multiple
		for _, k := range r.coef {
			if k < 0 || k >= m {
				return T.modPow2(r, m)
			}
		}
	}
	if r.isInt() {
		return T.Int(((r.n % m) + m) % m)
	}
	if l, h, ok := T.rangeOf(r); ok && l >= 0 && h < m {
		return r
	}
	return T.mk(&Term{op: "mod", n: m, args: []*Term{r}})
}

func (T *Terms) bitop(op string, a, b *Term) *Term {
	if a.isInt() && b.isInt() {
		switch op {
		case "and":
			return T.Int(a.n & b.n)
		case "or":
			return T.Int(a.n | b.n)
		case "xor":
			return T.Int(a.n ^ b.n)
		}
	}
	if a.isInt() && a.n == 0 {
		if op == "and" {
			return T.Zero
		}
		return b
	}
	if b.isInt() && b.n == 0 {
		if op == "and" {
			return T.Zero
		}
		return a
	}
	if a.id > b.id {
		a, b = b, a
	}
	return T.Op(op, "", 0, nil, a, b)
}

func (T *Terms) divrem(nm string, a, b *Term, k Kind) *Term {
	if a.isInt() && b.isInt() && b.n != 0 {
		if k.signed() || a.n >= 0 && b.n > 0 {
			if nm == "div" {
				return T.Int(a.n / b.n)
			}
			return T.Int(a.n % b.n)
		}
		if nm == "div" {
			return T.Int(int64(uint64(a.n) / uint64(b.n)))
		}
		return T.Int(int64(uint64(a.n) % uint64(b.n)))
	}
	if b.isInt() && b.n == 1 {
		if nm == "div" {
			return a
		}
		return T.Zero
	}
	nn := nonNeg(T, a) && nonNeg(T, b)
	if nm == "rem" && b.isInt() && b.n > 0 && b.n&(b.n-1) == 0 && (nonNeg(T, a) || !k.signed()) {
		return T.modPow2(a, b.n)
	}
	s := "u"
	if k.signed() && !nn {
		s = "s"
	}
	if b.isInt() && b.n > 1 && nn {
		// exact multiples leave the quotient
		args, coef, c := T.linParts(a)
		q, rest := T.Zero, T.Zero
		exact := true
		for i, x := range args {
			if coef[i]%b.n == 0 && coef[i] > 0 {
				q = T.addScaled(q, x, coef[i]/b.n)
			} else {
				exact = false
				rest = T.addScaled(rest, x, coef[i])
			}
		}
		if exact && c >= 0 {
			if nm == "div" {
				return T.addScaled(q, T.Int(c/b.n), 1)
			}
			return T.Int(c % b.n)
		}
	}
	return T.Op(nm, s, 0, nil, a, b)
}

// idxKind: signed 64-bit quantities are indexes, sizes and file positions;
// constant offsets may be moved across their comparisons.
func (e *Eng) idxKind(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && (b.Kind() == types.Int || b.Kind() == types.UntypedInt)
}

func (e *Eng) typeAssert(fr *Frame, st *State, x *Term, ty types.Type, unwrap bool) (v, ok *Term) {
	T := e.T
	iface, isIface := ty.Underlying().(*types.Interface)
	res := func(a *Term) (*Term, *Term) {
		switch a.op {
		case "nil":
			return e.zero(ty), T.False
		case "iface":
			ct := a.ref.(types.Type)
			if isIface {
				if types.Implements(ct, iface) {
					return a, T.True
				}
				return e.zero(ty), T.False
			}
			if types.Identical(ct, ty) {
				return a.args[0], T.True
			}
			return e.zero(ty), T.False
		case "err":
			if isIface && types.Identical(ty, errorType) {
				return a, T.True
			}
			if unwrap {
				for _, w := range a.args {
					v, ok := e.typeAssert(fr, st, w, ty, true)
					if ok != T.False {
						return v, ok
					}
				}
			}
			if !isIface {
				return e.zero(ty), T.False
			}
		}
		okT := T.Atom(T.Op("typeis", "", 0, ty, a))
		val := T.Op("asserted", "", kindOf(ty), ty, a)
		return T.Ite(okT, e.boolify(val, ty), e.zero(ty)), okT
	}
	v = T.Lift("", func(a []*Term) *Term { v, _ := res(a[0]); return v }, x)
	ok = T.Lift("", func(a []*Term) *Term { _, ok := res(a[0]); return ok }, x)
	return
}

// ---- calls ----

func (e *Eng) callOf(fr *Frame, st *State, cc *ssa.CallCommon, pos token.Pos, ins ssa.Instruction) *callInfo {
	c := &callInfo{common: cc, sig: cc.Signature(), pos: pos, instr: ins,
		key: fr.ctx + "@" + fmt.Sprintf("%d.%d", ins.Block().Index, instrIndex(ins))}
	if cc.IsInvoke() {
		rv := e.val(fr, st, cc.Value)
		c.name = cc.Method.Name()
		c.args = append(c.args, rv)
		c.argTys = append(c.argTys, cc.Value.Type())
		if rv.op == "iface" {
			ct := rv.ref.(types.Type)
			if m := e.P.prog.LookupMethod(ct, cc.Method.Pkg(), cc.Method.Name()); m != nil {
				c.fn = m
				c.args[0] = rv.args[0]
				c.argTys[0] = ct
			}
		}
	} else {
		fv := e.val(fr, st, cc.Value)
		e.bindCallee(c, fv)
	}
	for _, a := range cc.Args {
		c.args = append(c.args, e.val(fr, st, a))
		c.argTys = append(c.argTys, a.Type())
	}
	return c
}

func (e *Eng) bindCallee(c *callInfo, fv *Term) {
	switch fv.op {
	case "func":
		c.fn = fv.ref.(*ssa.Function)
	case "closure":
		c.fn = fv.ref.(*ssa.Function)
		c.free = fv.args
	case "builtin":
		c.name = fv.aux
		c.block = true
	default:
		c.name = "dynamic"
		c.args = append(c.args, fv)
		c.argTys = append(c.argTys, nil)
	}
	if c.fn != nil {
		if b := boundMethod(c.fn); b != nil && len(c.free) == 1 {
			// method value: the receiver is the bound variable
			c.fn = b
			c.args = append(c.args, c.free[0])
			c.argTys = append(c.argTys, b.Signature.Recv().Type())
			c.free = nil
		}
		if o := c.fn.Origin(); o != nil && len(c.fn.Blocks) == 0 && len(o.Blocks) > 0 {
			c.fn = o
		}
		c.name = c.fn.String()
	}
}

// boundMethod: the method behind a bound-method wrapper.
func boundMethod(f *ssa.Function) *ssa.Function {
	if len(f.FreeVars) == 1 && len(f.Blocks) == 1 && len(f.Name()) > 6 && f.Name()[len(f.Name())-6:] == "$bound" {
		for _, ins := range f.Blocks[0].Instrs {
			if c, ok := ins.(*ssa.Call); ok {
				if s := c.Call.StaticCallee(); s != nil {
					return s
				}
			}
		}
	}
	return nil
}

// doCall interprets a call; live is false when it does not return.
func (e *Eng) doCall(fr *Frame, st *State, c *callInfo) (res []*Term, live bool) {
	if c.block {
		return e.builtin(fr, st, c)
	}
	// function values chosen by a condition: call each under its guard
	if c.fn == nil && c.name == "dynamic" && len(c.args) > 0 && c.args[0].op == "ite" {
		if r, l, ok := e.guardedCall(fr, st, c); ok {
			return r, l
		}
	}
	if e.pol.Call != nil {
		if r, ok := e.pol.Call(e, fr, st, c); ok {
			return r, st.guard != e.T.False
		}
	}
	if c.fn != nil && e.P.isRepo(c.fn) && len(c.fn.Blocks) > 0 {
		if fr.depth > 40 || fr.active(c.fn) {
			ev := e.emit(fr, st, &Event{kind: "rec", callee: fnKey(c.fn), args: c.args, errIdx: -1}, c.pos, c.key)
			e.havocArgs(fr, st, ev, c)
			return e.results(ev, typeTuple(c.sig.Results())), true
		}
		return e.inline(fr, st, c)
	}
	return e.external(fr, st, c)
}

func (e *Eng) guardedCall(fr *Frame, st *State, c *callInfo) ([]*Term, bool, bool) {
	fv := c.args[0]
	leaves := e.T.Leaves(fv)
	for _, l := range leaves {
		if l.op != "func" && l.op != "closure" {
			return nil, false, false
		}
	}
	var rets []retState
	for n, l := range leaves {
		g := e.T.And(st.guard, e.T.LeafGuard(fv, l))
		if g == e.T.False {
			continue
		}
		s := st.clone()
		s.guard = g
		c2 := *c
		c2.args, c2.argTys = nil, nil
		c2.name = ""
		c2.key = c.key + "~" + strconv.Itoa(n)
		e.bindCallee(&c2, l)
		c2.args = append(c2.args, c.args[1:]...)
		c2.argTys = append(c2.argTys, c.argTys[1:]...)
		r, live := e.doCall(fr, s, &c2)
		if live {
			rets = append(rets, retState{st: s, vals: r})
		}
	}
	if len(rets) == 0 {
		st.guard = e.T.False
		return nil, false, true
	}
	vals, s := e.mergeRets(rets)
	*st = *s
	return vals, true, true
}

func (fr *Frame) active(fn *ssa.Function) bool {
	for f := fr; f != nil; f = f.parent {
		if f.fn == fn {
			return true
		}
	}
	return false
}

func fnKey(fn *ssa.Function) string {
	if o := fn.Origin(); o != nil {
		fn = o
	}
	return fn.String()
}

func (e *Eng) inline(fr *Frame, st *State, c *callInfo) ([]*Term, bool) {
	nf := &Frame{fn: c.fn, ctx: c.key + ">" + c.fn.Name(), parent: fr, free: c.free, depth: fr.depth + 1, spawn: fr.spawn}
	nf.stack = append(append([]token.Pos(nil), fr.stack...), c.pos)
	s := st.clone()
	rets := e.runFunc(nf, s, c.args)
	if len(rets) == 0 {
		st.guard = e.T.False
		return nil, false
	}
	vals, ns := e.mergeRets(rets)
	// drop the callee's environment
	for k := range ns.env {
		if _, ok := st.env[k]; !ok {
			delete(ns.env, k)
		}
	}
	for k, v := range st.env {
		ns.env[k] = v
	}
	*st = *ns
	if st.guard == e.T.False {
		return nil, false
	}
	if vals == nil {
		vals = []*Term{}
	}
	if e.cmp != nil && len(rets) > 1 {
		for i, v := range vals {
			vals[i] = e.generalTerm(st, v)
		}
	}
	return vals, true
}

func (e *Eng) goStmt(fr *Frame, st *State, i *ssa.Go, key string) {
	c := e.callOf(fr, st, &i.Call, i.Pos(), i)
	sp := e.spTab[key]
	if sp == nil {
		sp = &Spawn{id: len(e.spTab) + 1, key: key}
		e.spTab[key] = sp
	}
	sp.guard, sp.pos, sp.fn = st.guard, i.Pos(), c.fn
	sp.loops = append([]*Loop(nil), e.loopStk...)
	sp.bound = c.free
	e.seq++
	sp.start = e.seq
	ns := len(e.stores)
	saveTrace, saveSpawn := e.trace, e.spawn
	e.trace = nil
	e.spawn = sp
	s := st.clone()
	s.defers = nil
	nf := *fr
	nf.spawn = sp
	sp.args = c.args
	if c.fn != nil && e.P.isRepo(c.fn) && len(c.fn.Blocks) > 0 {
		e.inline(&nf, s, c)
	} else {
		e.doCall(&nf, s, c)
	}
	sp.body = e.trace
	sp.end = s
	e.trace, e.spawn = saveTrace, saveSpawn
	e.trace = append(e.trace, &Item{Spawn: sp})
	// what the goroutine stores is unknown to the function that started it
	for _, s := range e.stores[ns:] {
		o, _ := s.addr.ref.(*Obj)
		if s.load || s.app || o == nil || o.spawn != nil {
			continue
		}
		path := s.addr.aux
		if j := strings.Index(path, "[]"); j >= 0 {
			path = path[:j+2]
		}
		c := Cell{o, path}
		v := e.T.mk(&Term{op: "spawned", aux: path, ref: sp, n: int64(o.id), kind: kindOfSafe(e.cells[c])})
		if t := e.cells[c]; t != nil {
			v = e.boolify(v, t)
		}
		st.mem[c] = v
	}
}
