package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/bits"

	"golang.org/x/tools/go/ssa"
)

// Abstract interpretation of the scalar codecs of the column encodings.
//
// The domain of an integer is the reduced product of
//   - the provenance of each bit: 0, 1, bit j of the encoded value V, its complement, unknown;
//   - an affine form k*V+c modulo 2^64;
//   - an interval of the bit pattern.
// V is partitioned by sign and by its highest significant bit, so that the control
// flow of every codec is decided in each part without enumerating values.

const (
	bit0   int16 = 0
	bit1   int16 = 1
	bitTop int16 = 2
	bitVar int16 = 4 // bitVar + 2*j (+1: complemented)
)

func bitNot(b int16) int16 {
	if b == bitTop {
		return b
	}
	return b ^ 1
}
func bitAnd(a, b int16) int16 {
	switch {
	case a == bit0 || b == bit0:
		return bit0
	case a == bit1:
		return b
	case b == bit1:
		return a
	case a == b && a != bitTop:
		return a
	case a != bitTop && b != bitTop && a == bitNot(b):
		return bit0
	}
	return bitTop
}
func bitXor(a, b int16) int16 {
	switch {
	case a == bit0:
		return b
	case b == bit0:
		return a
	case a == bit1:
		return bitNot(b)
	case b == bit1:
		return bitNot(a)
	case a == bitTop || b == bitTop:
		return bitTop
	case a == b:
		return bit0
	case a == bitNot(b):
		return bit1
	}
	return bitTop
}

// bv is an abstract integer.
type bv struct {
	b      [64]int16
	lin    bool
	k, c   uint64
	lo, hi uint64 // pattern interval
}

// bcase is one part of the domain of V.
type bcase struct {
	name   string
	v      bv
	lo, hi uint64
}

type bslice struct {
	arr []any
	off int
	n   int
	tl  bool // unknown bytes may follow (the length is at least n)
}
type barr struct{ el []any }
type bptr struct {
	arr *barr
	i   int
	fix *any
}
type btuple []any
type bbool struct{ v bool }
type bnilT struct{}

type binterp struct {
	P     *Prog
	cs    *bcase
	steps int
	why   string
	fns   map[*ssa.Function]bool
}

type bfail struct{ why string }

func (x *binterp) fail(f string, a ...any) { panic(bfail{fmt.Sprintf(f, a...)}) }

func bconst(n uint64) *bv {
	r := &bv{lin: true, c: n, lo: n, hi: n}
	for i := 0; i < 64; i++ {
		r.b[i] = int16(n >> i & 1)
	}
	return r
}

func (x *binterp) reduce(r *bv, w int) *bv {
	for i := w; i < 64; i++ {
		r.b[i] = bit0
	}
	if w < 64 {
		m := uint64(1)<<w - 1
		if r.hi > m {
			r.lo, r.hi = 0, m
		}
	}
	if r.lin {
		switch {
		case r.k == 0:
			if w < 64 && r.c>>w != 0 {
				r.lin = false
				break
			}
			*r = *bconst(r.c)
			return r
		case r.k == 1 && r.c == 0 && w == 64:
			for i := range r.b {
				if r.b[i] == bitTop {
					r.b[i] = x.cs.v.b[i]
				}
			}
			r.lo, r.hi = max(r.lo, x.cs.lo), min(r.hi, x.cs.hi)
		}
		if w < 64 && r.k != 0 {
			r.lin = false
		}
		if w == 64 && (r.k == 1 || r.k == ^uint64(0)) {
			a, z := x.cs.lo, x.cs.hi
			if r.k != 1 {
				a, z = -z, -a
			}
			a, z = a+r.c, z+r.c
			if a <= z && z-a == x.cs.hi-x.cs.lo {
				r.lo, r.hi = max(r.lo, a), min(r.hi, z)
			}
		}
	}
	var lo, hi uint64
	for i := 0; i < 64; i++ {
		switch r.b[i] {
		case bit1:
			lo |= 1 << i
			hi |= 1 << i
		case bit0:
		default:
			hi |= 1 << i
		}
	}
	r.lo, r.hi = max(r.lo, lo), min(r.hi, hi)
	if r.lo > r.hi { // an empty part
		r.lo = r.hi
	}
	for i := 63; i >= 0; i-- {
		if r.lo>>i != r.hi>>i {
			break
		}
		r.b[i] = int16(r.lo >> i & 1)
	}
	if r.lo == r.hi {
		*r = *bconst(r.lo)
	} else if !r.lin && w == 64 {
		// the value itself
		same := true
		for i := range r.b {
			if r.b[i] != x.cs.v.b[i] {
				same = false
			}
		}
		if same {
			r.lin, r.k, r.c = true, 1, 0
			return x.reduce(r, w)
		}
	}
	return r
}

func btop() *bv {
	r := &bv{hi: ^uint64(0)}
	for i := range r.b {
		r.b[i] = bitTop
	}
	return r
}

// width and signedness of a basic integer type
func bwidth(t types.Type) (int, bool, bool) {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return 0, false, false
	}
	switch b.Kind() {
	case types.Int, types.Int64, types.UntypedInt:
		return 64, true, true
	case types.Uint, types.Uint64, types.Uintptr:
		return 64, false, true
	case types.Int32, types.UntypedRune:
		return 32, true, true
	case types.Uint32:
		return 32, false, true
	case types.Int16:
		return 16, true, true
	case types.Uint16:
		return 16, false, true
	case types.Int8:
		return 8, true, true
	case types.Uint8:
		return 8, false, true
	}
	return 0, false, false
}

func isC(v *bv) bool { return v.lo == v.hi }

func (x *binterp) binop(op token.Token, a, b *bv, w int, sg bool) *bv {
	r := btop()
	wrap := func(k, c uint64) { r.lin, r.k, r.c = true, k, c }
	switch op {
	case token.ADD, token.SUB:
		if isC(b) && b.lo == 0 {
			return a
		}
		if op == token.ADD && isC(a) && a.lo == 0 {
			return b
		}
		if a.lin && b.lin {
			if op == token.ADD {
				wrap(a.k+b.k, a.c+b.c)
			} else {
				wrap(a.k-b.k, a.c-b.c)
			}
			if w < 64 && r.k == 0 {
				r.c &= 1<<w - 1
			}
		}
		m := ^uint64(0)
		if w < 64 {
			m = 1<<w - 1
		}
		if op == token.ADD {
			if s, c := bits.Add64(a.hi, b.hi, 0); c == 0 && s <= m {
				r.lo, r.hi = a.lo+b.lo, s
			}
			// disjoint bits
			dis := true
			for i := range r.b {
				if bitAnd(a.b[i], b.b[i]) != bit0 {
					dis = false
				}
			}
			if dis {
				for i := range r.b {
					r.b[i] = bitXor(a.b[i], b.b[i])
				}
			}
		} else {
			if a.lo >= b.hi {
				r.lo, r.hi = a.lo-b.hi, a.hi-b.lo
			}
			// 0 - single bit: replicated
			if isC(a) && a.lo == 0 {
				one := true
				for i := 1; i < 64; i++ {
					if b.b[i] != bit0 {
						one = false
					}
				}
				if one {
					for i := 0; i < w; i++ {
						r.b[i] = b.b[0]
					}
				}
			}
		}
	case token.AND, token.OR, token.XOR, token.AND_NOT:
		for i := range r.b {
			p, q := a.b[i], b.b[i]
			switch op {
			case token.AND:
				r.b[i] = bitAnd(p, q)
			case token.OR:
				r.b[i] = bitNot(bitAnd(bitNot(p), bitNot(q)))
			case token.XOR:
				r.b[i] = bitXor(p, q)
			case token.AND_NOT:
				r.b[i] = bitAnd(p, bitNot(q))
			}
		}
		// bits that are set or cleared for certain keep the affine form
		base, other := a, b
		if isC(a) && !isC(b) && op != token.AND_NOT {
			base, other = b, a
		}
		if base.lin && isC(other) && w == 64 {
			d, ok := uint64(0), true
			if op == token.XOR && other.lo == ^uint64(0) {
				wrap(-base.k, -base.c-1)
				break
			}
			for i := 0; i < 64 && ok; i++ {
				o := other.b[i]
				var want int16
				switch {
				case op == token.OR && o == bit1, op == token.AND && o == bit0, op == token.AND_NOT && o == bit1, op == token.XOR && o == bit1:
					want = r.b[i]
				default:
					continue
				}
				if want > 1 || base.b[i] > 1 {
					ok = false
				} else if want > base.b[i] {
					d += 1 << i
				} else if want < base.b[i] {
					d -= 1 << i
				}
			}
			if ok {
				wrap(base.k, base.c+d)
			}
		}
	case token.SHL, token.SHR:
		if !isC(b) {
			x.fail("shift by an unknown amount")
		}
		s := b.lo
		for i := range r.b {
			r.b[i] = bit0
		}
		if op == token.SHL {
			for i := int(s); i < 64 && s < 64; i++ {
				r.b[i] = a.b[i-int(s)]
			}
			if a.lin && s < 64 && w == 64 {
				wrap(a.k<<s, a.c<<s)
			}
		} else {
			if s > 64 {
				s = 64
			}
			for i := 0; i+int(s) < w; i++ {
				r.b[i] = a.b[i+int(s)]
			}
			if sg {
				for i := w - int(s); i < w; i++ {
					if i >= 0 {
						r.b[i] = a.b[w-1]
					}
				}
			} else if s < 64 {
				r.lo, r.hi = a.lo>>s, a.hi>>s
			}
		}
	case token.MUL:
		if isC(b) && bits.OnesCount64(b.lo) == 1 {
			return x.binop(token.SHL, a, bconst(uint64(bits.TrailingZeros64(b.lo))), w, sg)
		}
		if isC(a) && bits.OnesCount64(a.lo) == 1 {
			return x.binop(token.SHL, b, bconst(uint64(bits.TrailingZeros64(a.lo))), w, sg)
		}
		if isC(a) && isC(b) {
			return x.trunc(bconst(a.lo*b.lo), w)
		}
		if a.lin && isC(b) {
			wrap(a.k*b.lo, a.c*b.lo)
		} else if b.lin && isC(a) {
			wrap(b.k*a.lo, b.c*a.lo)
		}
	case token.QUO, token.REM:
		if isC(b) && bits.OnesCount64(b.lo) == 1 && (!sg || a.b[w-1] == bit0) {
			if op == token.QUO {
				return x.binop(token.SHR, a, bconst(uint64(bits.TrailingZeros64(b.lo))), w, false)
			}
			return x.binop(token.AND, a, bconst(b.lo-1), w, false)
		}
		if isC(a) && isC(b) && b.lo != 0 && !sg {
			if op == token.QUO {
				return bconst(a.lo / b.lo)
			}
			return bconst(a.lo % b.lo)
		}
		if isC(a) && isC(b) && b.lo != 0 && a.b[w-1] == bit0 && b.b[w-1] == bit0 {
			if op == token.QUO {
				return bconst(a.lo / b.lo)
			}
			return bconst(a.lo % b.lo)
		}
		x.fail("division")
	default:
		x.fail("operation %s", op)
	}
	return x.reduce(r, w)
}

func (x *binterp) trunc(a *bv, w int) *bv {
	if w == 64 {
		return a
	}
	r := *a
	for i := w; i < 64; i++ {
		r.b[i] = bit0
	}
	if r.hi>>w != 0 {
		r.lo, r.hi = 0, 1<<w-1
	}
	if r.lin && (r.k != 0 || r.c>>w != 0) {
		if r.k == 0 {
			return bconst(r.c & (1<<w - 1))
		}
		r.lin = false
	}
	return x.reduce(&r, w)
}

// conv converts between integer types; values of narrow types are kept zero-extended.
func (x *binterp) conv(a *bv, from, to types.Type) *bv {
	w1, s1, ok1 := bwidth(from)
	w2, _, ok2 := bwidth(to)
	if !ok1 || !ok2 {
		x.fail("conversion %s to %s", from, to)
	}
	r := *a
	if s1 && w1 < 64 && w2 > w1 {
		for i := w1; i < 64; i++ {
			r.b[i] = r.b[w1-1]
		}
		if r.b[w1-1] != bit0 {
			r.lin = false
			r.lo, r.hi = 0, ^uint64(0)
		}
	}
	t := x.trunc(&r, w2)
	y := *t
	return x.reduce(&y, w2)
}

// cmp decides a comparison: 1 true, 0 false, -1 unknown.
func (x *binterp) cmp(op token.Token, a, b *bv, w int, sg bool) int {
	res := func(c bool) int {
		if c {
			return 1
		}
		return 0
	}
	switch op {
	case token.NEQ, token.GEQ, token.GTR, token.LEQ:
		var r int
		switch op {
		case token.NEQ:
			r = x.cmp(token.EQL, a, b, w, sg)
		case token.GEQ:
			r = x.cmp(token.LSS, a, b, w, sg)
		case token.GTR:
			return x.cmp(token.LSS, b, a, w, sg)
		case token.LEQ:
			r = x.cmp(token.LSS, b, a, w, sg)
		}
		if r >= 0 {
			r = 1 - r
		}
		return r
	case token.EQL:
		if isC(a) && isC(b) {
			return res(a.lo == b.lo)
		}
		if a.hi < b.lo || b.hi < a.lo {
			return 0
		}
		for i := range a.b {
			if p, q := a.b[i], b.b[i]; p != bitTop && q != bitTop && p == bitNot(q) {
				return 0
			}
		}
		if a.lin && b.lin && a.k == b.k {
			return res(a.c == b.c)
		}
	case token.LSS:
		al, ah, bl, bh := a.lo, a.hi, b.lo, b.hi
		if sg {
			flip := uint64(1) << (w - 1)
			top := func(v *bv) bool { return v.b[w-1] > 1 }
			if top(a) || top(b) {
				return -1
			}
			al, ah, bl, bh = al^flip, ah^flip, bl^flip, bh^flip
		}
		if ah < bl {
			return 1
		}
		if al >= bh {
			return 0
		}
	}
	return -1
}

func (x *binterp) call(fn *ssa.Function, args []any, depth int) any {
	if depth > 12 {
		x.fail("calls nested too deeply")
	}
	if len(fn.Blocks) == 0 || !x.P.isRepo(fn) {
		return x.std(fn, args)
	}
	x.fns[fn] = true
	env := map[ssa.Value]any{}
	for i, p := range fn.Params {
		env[p] = args[i]
	}
	get := func(v ssa.Value) any {
		switch c := v.(type) {
		case *ssa.Const:
			if c.Value == nil {
				if _, ok := c.Type().Underlying().(*types.Slice); ok {
					return bslice{}
				}
				return bnilT{}
			}
			if c.Value.Kind() == constant.Bool {
				return bbool{constant.BoolVal(c.Value)}
			}
			if w, _, ok := bwidth(c.Type()); ok {
				iv := constant.ToInt(c.Value)
				var n uint64
				if u, ok := constant.Uint64Val(iv); ok {
					n = u
				} else if s, ok := constant.Int64Val(iv); ok {
					n = uint64(s)
				} else {
					x.fail("constant")
				}
				if w < 64 {
					n &= 1<<w - 1
				}
				return bconst(n)
			}
			x.fail("constant of type %s", c.Type())
		case *ssa.Function:
			return c
		}
		r, ok := env[v]
		if !ok {
			x.fail("value %s in %s", v.Name(), fn)
		}
		return r
	}
	num := func(v ssa.Value) *bv {
		r, ok := get(v).(*bv)
		if !ok {
			x.fail("not a number: %s in %s", v, fn)
		}
		return r
	}
	cint := func(v ssa.Value) int {
		n := num(v)
		if !isC(n) {
			x.fail("index that is not decided in %s", fn)
		}
		return int(int64(n.lo))
	}
	var prev *ssa.BasicBlock
	b := fn.Blocks[0]
	for {
		var next *ssa.BasicBlock
		pi := -1
		for i, p := range b.Preds {
			if p == prev {
				pi = i
			}
		}
		phis := map[ssa.Value]any{}
		for _, ins := range b.Instrs {
			p, ok := ins.(*ssa.Phi)
			if !ok {
				break
			}
			if _, undef := p.Edges[pi].(*ssa.Const); !undef {
				if _, ok := env[p.Edges[pi]]; !ok {
					continue
				}
			}
			phis[p] = get(p.Edges[pi])
		}
		for k, v := range phis {
			env[k] = v
		}
		for _, ins := range b.Instrs {
			x.steps++
			if x.steps > 200000 {
				x.fail("no fixed number of iterations in %s", fn)
			}
			switch n := ins.(type) {
			case *ssa.Phi, *ssa.DebugRef:
			case *ssa.BinOp:
				w, sg, ok := bwidth(n.X.Type())
				if !ok {
					l, ok1 := get(n.X).(bbool)
					r, ok2 := get(n.Y).(bbool)
					if ok1 && ok2 && (n.Op == token.EQL || n.Op == token.NEQ) {
						env[n] = bbool{(l == r) == (n.Op == token.EQL)}
						continue
					}
					if s, ok := get(n.X).(bslice); ok && (n.Op == token.EQL || n.Op == token.NEQ) {
						env[n] = bbool{(s.arr == nil) == (n.Op == token.EQL)}
						continue
					}
					x.fail("operation on %s in %s", n.X.Type(), fn)
				}
				l, r := num(n.X), num(n.Y)
				switch n.Op {
				case token.EQL, token.NEQ, token.LSS, token.LEQ, token.GTR, token.GEQ:
					c := x.cmp(n.Op, l, r, w, sg)
					if c < 0 {
						x.fail("the comparison at %s is not decided in part %s", x.P.Pos(n.Pos()), x.cs.name)
					}
					env[n] = bbool{c == 1}
				default:
					env[n] = x.binop(n.Op, l, r, w, sg)
				}
			case *ssa.UnOp:
				switch n.Op {
				case token.MUL:
					p, ok := get(n.X).(bptr)
					if !ok {
						x.fail("load in %s", fn)
					}
					if p.fix != nil {
						env[n] = *p.fix
						continue
					}
					if p.i < 0 || p.i >= len(p.arr.el) {
						x.fail("load outside of the array at %s", x.P.Pos(n.Pos()))
					}
					env[n] = p.arr.el[p.i]
				case token.SUB:
					w, sg, _ := bwidth(n.X.Type())
					env[n] = x.binop(token.SUB, bconst(0), num(n.X), w, sg)
				case token.XOR:
					w, sg, _ := bwidth(n.X.Type())
					m := ^uint64(0)
					if w < 64 {
						m = 1<<w - 1
					}
					env[n] = x.binop(token.XOR, num(n.X), bconst(m), w, sg)
				case token.NOT:
					env[n] = bbool{!get(n.X).(bbool).v}
				default:
					x.fail("operation %s in %s", n.Op, fn)
				}
			case *ssa.Convert:
				env[n] = x.conv(num(n.X), n.X.Type(), n.Type())
			case *ssa.ChangeType:
				env[n] = get(n.X)
			case *ssa.Alloc:
				et := n.Type().Underlying().(*types.Pointer).Elem()
				if a, ok := et.Underlying().(*types.Array); ok {
					env[n] = x.newArr(int(a.Len()), a.Elem())
					continue
				}
				var v any = x.zero(et)
				env[n] = bptr{fix: &v}
			case *ssa.MakeSlice:
				l, cp := cint(n.Len), cint(n.Cap)
				if l < 0 || cp < l || cp > 4096 {
					x.fail("make in %s", fn)
				}
				a := x.newArr(cp, n.Type().Underlying().(*types.Slice).Elem())
				env[n] = bslice{arr: a.el, n: l}
			case *ssa.IndexAddr:
				i := cint(n.Index)
				switch s := get(n.X).(type) {
				case *barr:
					env[n] = bptr{arr: s, i: i}
				case bslice:
					if i < 0 || i >= s.n {
						x.fail("index %d of %d at %s", i, s.n, x.P.Pos(n.Pos()))
					}
					env[n] = bptr{arr: &barr{s.arr}, i: s.off + i}
				default:
					x.fail("index in %s", fn)
				}
			case *ssa.Slice:
				var s bslice
				switch y := get(n.X).(type) {
				case *barr:
					s = bslice{arr: y.el, n: len(y.el)}
				case bslice:
					s = y
				default:
					x.fail("slice in %s", fn)
				}
				lo, hi, tl := 0, s.n, s.tl
				if n.Low != nil {
					lo = cint(n.Low)
				}
				if n.High != nil {
					hi, tl = cint(n.High), false
				}
				if lo < 0 || hi < lo || s.off+hi > len(s.arr) {
					x.fail("slice bounds at %s", x.P.Pos(n.Pos()))
				}
				env[n] = bslice{arr: s.arr, off: s.off + lo, n: hi - lo, tl: tl}
			case *ssa.Store:
				p, ok := get(n.Addr).(bptr)
				if !ok {
					x.fail("store in %s", fn)
				}
				if p.fix != nil {
					*p.fix = get(n.Val)
				} else if p.i < 0 || p.i >= len(p.arr.el) {
					x.fail("store outside of the array")
				} else {
					p.arr.el[p.i] = get(n.Val)
				}
			case *ssa.Extract:
				env[n] = get(n.Tuple).(btuple)[n.Index]
			case *ssa.Call:
				var as []any
				for _, a := range n.Call.Args {
					as = append(as, get(a))
				}
				if bi, ok := n.Call.Value.(*ssa.Builtin); ok {
					env[n] = x.builtin(bi.Name(), as, n)
					continue
				}
				callee := n.Call.StaticCallee()
				if callee == nil || n.Call.IsInvoke() {
					x.fail("indirect call in %s", fn)
				}
				env[n] = x.call(callee, as, depth+1)
			case *ssa.If:
				c, ok := get(n.Cond).(bbool)
				if !ok {
					x.fail("condition in %s", fn)
				}
				next = b.Succs[1]
				if c.v {
					next = b.Succs[0]
				}
			case *ssa.Jump:
				next = b.Succs[0]
			case *ssa.Return:
				var t btuple
				for _, r := range n.Results {
					t = append(t, get(r))
				}
				if len(t) == 1 {
					return t[0]
				}
				return t
			default:
				x.fail("%T in %s", ins, fn)
			}
		}
		prev, b = b, next
	}
}

func (x *binterp) zero(t types.Type) any {
	if _, _, ok := bwidth(t); ok {
		return bconst(0)
	}
	if isBoolType(t) {
		return bbool{}
	}
	if _, ok := t.Underlying().(*types.Slice); ok {
		return bslice{}
	}
	x.fail("variable of type %s", t)
	return nil
}
func (x *binterp) newArr(n int, et types.Type) *barr {
	a := &barr{}
	for i := 0; i < n; i++ {
		a.el = append(a.el, x.zero(et))
	}
	return a
}

func (x *binterp) builtin(nm string, as []any, n *ssa.Call) any {
	switch nm {
	case "len", "cap":
		switch s := as[0].(type) {
		case bslice:
			if s.tl {
				r := btop()
				r.lo, r.hi = uint64(s.n), 1<<62
				return x.reduce(r, 64)
			}
			if nm == "cap" {
				return bconst(uint64(len(s.arr) - s.off))
			}
			return bconst(uint64(s.n))
		case *barr:
			return bconst(uint64(len(s.el)))
		}
	case "append":
		s, ok := as[0].(bslice)
		if !ok || s.tl {
			break
		}
		out := bslice{n: s.n}
		out.arr = append([]any(nil), s.arr[s.off:s.off+s.n]...)
		t, ok := as[1].(bslice)
		if !ok || t.tl {
			break
		}
		out.arr = append(out.arr, t.arr[t.off:t.off+t.n]...)
		out.n += t.n
		return out
	case "copy":
		d, ok1 := as[0].(bslice)
		s, ok2 := as[1].(bslice)
		if ok1 && ok2 && !d.tl && !s.tl {
			k := min(d.n, s.n)
			tmp := append([]any(nil), s.arr[s.off:s.off+k]...)
			copy(d.arr[d.off:d.off+k], tmp)
			return bconst(uint64(k))
		}
	case "min", "max":
		a, ok1 := as[0].(*bv)
		b, ok2 := as[1].(*bv)
		if ok1 && ok2 && len(as) == 2 {
			w, sg, _ := bwidth(n.Type())
			c := x.cmp(token.LSS, a, b, w, sg)
			if c >= 0 {
				if (c == 1) == (nm == "min") {
					return a
				}
				return b
			}
		}
	}
	x.fail("builtin %s", nm)
	return nil
}

// std models the functions of the standard library that codecs use.
func (x *binterp) std(fn *ssa.Function, as []any) any {
	enc := func(v *bv) []any {
		var out []any
		for i := 0; ; i++ {
			if i > 10 {
				x.fail("varint")
			}
			c := x.cmp(token.LSS, v, bconst(0x80), 64, false)
			if c < 0 {
				x.fail("varint of unknown length in part %s", x.cs.name)
			}
			lowBits := x.trunc(v, 8)
			if c == 1 {
				return append(out, lowBits)
			}
			out = append(out, x.binop(token.OR, lowBits, bconst(0x80), 8, false))
			v = x.binop(token.SHR, v, bconst(7), 64, false)
		}
	}
	zig := func(v *bv) *bv {
		return x.binop(token.XOR, x.binop(token.SHL, v, bconst(1), 64, true), x.binop(token.SHR, v, bconst(63), 64, true), 64, true)
	}
	switch k := fnKey(fn); k {
	case "encoding/binary.AppendUvarint", "encoding/binary.AppendVarint":
		s := as[0].(bslice)
		v := as[1].(*bv)
		if k == "encoding/binary.AppendVarint" {
			v = zig(v)
		}
		out := append([]any(nil), s.arr[s.off:s.off+s.n]...)
		out = append(out, enc(v)...)
		return bslice{arr: out, n: len(out)}
	case "encoding/binary.PutUvarint", "encoding/binary.PutVarint":
		s := as[0].(bslice)
		v := as[1].(*bv)
		if k == "encoding/binary.PutVarint" {
			v = zig(v)
		}
		out := enc(v)
		if len(out) > s.n {
			x.fail("%s into a buffer of %d bytes", fn.Name(), s.n)
		}
		copy(s.arr[s.off:], out)
		return bconst(uint64(len(out)))
	case "encoding/binary.Uvarint", "encoding/binary.Varint":
		s := as[0].(bslice)
		res := bconst(0)
		for i := 0; i < s.n; i++ {
			if i == 10 {
				x.fail("varint overflow")
			}
			b := s.arr[s.off+i].(*bv)
			c := x.cmp(token.LSS, b, bconst(0x80), 8, false)
			if c < 0 {
				x.fail("varint of unknown length")
			}
			low := x.binop(token.AND, b, bconst(0x7f), 64, false)
			res = x.binop(token.OR, res, x.binop(token.SHL, low, bconst(uint64(7*i)), 64, false), 64, false)
			if c == 1 {
				if i == 9 && x.cmp(token.LEQ, b, bconst(1), 8, false) != 1 {
					x.fail("varint overflow")
				}
				if k == "encoding/binary.Varint" {
					h := x.binop(token.SHR, res, bconst(1), 64, false)
					m := x.binop(token.SUB, bconst(0), x.binop(token.AND, res, bconst(1), 64, false), 64, false)
					res = x.binop(token.XOR, h, m, 64, false)
				}
				return btuple{res, bconst(uint64(i + 1))}
			}
		}
		x.fail("incomplete varint")
	case "math/bits.Len64", "math/bits.Len":
		v := as[0].(*bv)
		if bits.Len64(v.lo) == bits.Len64(v.hi) {
			return bconst(uint64(bits.Len64(v.lo)))
		}
	case "math/bits.LeadingZeros64":
		v := as[0].(*bv)
		if bits.Len64(v.lo) == bits.Len64(v.hi) {
			return bconst(uint64(64 - bits.Len64(v.lo)))
		}
	}
	x.fail("call of %s", fn)
	return nil
}

// bparts partitions the 64-bit integers.
func bparts(signed bool) []*bcase {
	var out []*bcase
	add := func(name string, lo, hi uint64, fixed func(i int) int16) {
		c := &bcase{name: name, lo: lo, hi: hi}
		c.v = bv{lin: true, k: 1, lo: lo, hi: hi}
		for i := range c.v.b {
			c.v.b[i] = fixed(i)
		}
		if lo == hi {
			c.v = *bconst(lo)
		}
		out = append(out, c)
	}
	vb := func(i int) int16 { return bitVar + int16(2*i) }
	add("0", 0, 0, func(i int) int16 { return bit0 })
	top := 63
	if signed {
		top = 62
	}
	for h := 0; h <= top; h++ {
		add(fmt.Sprintf("[2^%d,2^%d)", h, h+1), 1<<h, 1<<h|(1<<h-1), func(i int) int16 {
			switch {
			case i > h:
				return bit0
			case i == h:
				return bit1
			}
			return vb(i)
		})
	}
	if signed {
		add("-1", ^uint64(0), ^uint64(0), func(i int) int16 { return bit1 })
		add("-2^63", 1<<63, 1<<63, nil2)
		for h := 0; h <= 62; h++ {
			lo, hi := ^(uint64(1)<<h | (uint64(1)<<h - 1)), ^(uint64(1) << h)
			if h == 62 {
				lo++
			}
			add(fmt.Sprintf("[-2^%d,-2^%d)", h+1, h), lo, hi, func(i int) int16 {
				switch {
				case i > h:
					return bit1
				case i == h:
					return bit0
				}
				return vb(i)
			})
		}
	}
	return out
}

func nil2(i int) int16 {
	if i == 63 {
		return bit1
	}
	return bit0
}

// codecFact is what the analysis of an encoder and a decoder yields.
type codecFact struct {
	ok         bool
	why        string
	minN, maxN int
	lastClear  bool // the last byte never has its top bit
	parts      int
}

func (x *binterp) isV(v *bv) bool {
	if isC(&x.cs.v) {
		return isC(v) && v.lo == x.cs.v.lo
	}
	return v.lin && v.k == 1 && v.c == 0
}

// codecPair decides dec(enc(V) ++ rest) == (V, len(enc(V))) for every V and rest;
// dec may be a function of the library (by name).
func (P *Prog) codecPair(enc, dec *ssa.Function) (f codecFact) {
	in := enc.Signature.Params().At(enc.Signature.Params().Len() - 1).Type()
	_, sg, ok := bwidth(in)
	if !ok {
		return codecFact{why: "not a codec"}
	}
	f.minN, f.maxN, f.lastClear = 99, 0, true
	parts := bparts(sg)
	f.parts = len(parts)
	for _, cs := range parts {
		why := func() (why string) {
			x := &binterp{P: P, cs: cs, fns: map[*ssa.Function]bool{}}
			defer func() {
				if r := recover(); r != nil {
					b, ok := r.(bfail)
					if !ok {
						panic(r)
					}
					why = b.why
				}
			}()
			v := cs.v
			s, ok := x.call(enc, []any{&v}, 0).(bslice)
			if !ok || s.tl {
				x.fail("%s yields no byte sequence", enc.Name())
			}
			f.minN, f.maxN = min(f.minN, s.n), max(f.maxN, s.n)
			if s.n == 0 {
				return "no bytes for values in " + cs.name
			}
			last := s.arr[s.off+s.n-1].(*bv)
			if last.b[7] != bit0 {
				f.lastClear = false
			}
			if dec == nil {
				return ""
			}
			data := append([]any(nil), s.arr[s.off:s.off+s.n]...)
			x.steps = 0
			t, ok := x.call(dec, []any{bslice{arr: data, n: s.n, tl: true}}, 0).(btuple)
			if !ok || len(t) != 2 {
				x.fail("%s yields no pair", dec.Name())
			}
			r, n := t[0].(*bv), t[1].(*bv)
			if !isC(n) || int(n.lo) != s.n {
				return fmt.Sprintf("values in %s take %d bytes but %s reads another number of bytes", cs.name, s.n, dec.Name())
			}
			if !x.isV(r) {
				return fmt.Sprintf("values in %s are decoded to something else", cs.name)
			}
			return ""
		}()
		if why != "" {
			f.why = why
			return f
		}
	}
	f.ok = true
	return f
}

// mapPair decides g(f(V)) == V for every V.
func (P *Prog) mapPair(f, g *ssa.Function) (fact codecFact) {
	_, sg, ok := bwidth(f.Signature.Params().At(0).Type())
	if !ok {
		return codecFact{why: "not a mapping"}
	}
	parts := bparts(sg)
	fact.parts = len(parts)
	for _, cs := range parts {
		why := func() (why string) {
			x := &binterp{P: P, cs: cs, fns: map[*ssa.Function]bool{}}
			defer func() {
				if r := recover(); r != nil {
					b, ok := r.(bfail)
					if !ok {
						panic(r)
					}
					why = b.why
				}
			}()
			v := cs.v
			y := x.call(f, []any{&v}, 0)
			r, ok := x.call(g, []any{y}, 0).(*bv)
			if !ok || !x.isV(r) {
				return fmt.Sprintf("%s(%s(v)) differs from v for values in %s", g.Name(), f.Name(), cs.name)
			}
			return ""
		}()
		if why != "" {
			fact.why = why
			return fact
		}
	}
	fact.ok = true
	return fact
}
