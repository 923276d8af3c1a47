package main

import (
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// errIndex is the index of the error result of a function (-1: none).
func errIndex(sig *types.Signature) int {
	for i := sig.Results().Len() - 1; i >= 0; i-- {
		if isErrorType(sig.Results().At(i).Type()) {
			return i
		}
	}
	return -1
}

// recvNamed is the named type of a method's receiver.
func recvNamed(fn *ssa.Function) *types.Named {
	r := fn.Signature.Recv()
	if r == nil {
		return nil
	}
	t := r.Type()
	if p, ok := t.(*types.Pointer); ok {
		t = p.Elem()
	}
	n, _ := t.(*types.Named)
	return n
}

// apiRoots lists the exported functions and methods of the library packages.
func (P *Prog) apiRoots() []*ssa.Function {
	var out []*ssa.Function
	seen := map[*ssa.Function]bool{}
	add := func(f *ssa.Function) {
		if f != nil && len(f.Blocks) > 0 && !seen[f] && f.TypeParams().Len() == 0 {
			seen[f] = true
			out = append(out, f)
		}
	}
	for _, sp := range P.spkgs {
		if sp.Pkg.Name() == "main" {
			continue
		}
		for _, m := range sp.Members {
			switch x := m.(type) {
			case *ssa.Function:
				if token.IsExported(x.Name()) {
					add(x)
				}
			case *ssa.Type:
				if !token.IsExported(x.Name()) {
					continue
				}
				n, ok := x.Type().(*types.Named)
				if !ok || n.TypeParams().Len() > 0 {
					continue
				}
				for i := 0; i < n.NumMethods(); i++ {
					if n.Method(i).Exported() {
						f := P.prog.FuncValue(n.Method(i))
						add(f)
					}
				}
			}
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].String() < out[j].String() })
	return out
}

// writerType is the type configured by the encoding option.
func (P *Prog) writerType() *types.Named {
	fn := P.Func("pkg/col", "", "WithEncoding")
	if fn == nil || fn.Signature.Results().Len() != 1 {
		return nil
	}
	s, ok := fn.Signature.Results().At(0).Type().Underlying().(*types.Signature)
	if !ok || s.Params().Len() != 1 {
		return nil
	}
	p, ok := s.Params().At(0).Type().(*types.Pointer)
	if !ok {
		return nil
	}
	n, _ := p.Elem().(*types.Named)
	return n
}

// fileTypes: does a value of the type (a pointer to a struct) hold an open file?
func holdsFile(n *types.Named) bool {
	if n == nil {
		return false
	}
	s, ok := n.Underlying().(*types.Struct)
	if !ok {
		return false
	}
	for i := 0; i < s.NumFields(); i++ {
		if types.TypeString(s.Field(i).Type(), nil) == "*os.File" {
			return true
		}
	}
	return false
}

// composed keeps calls of another type's exported API opaque: that API is
// analysed as a root of its own.
func composed(e *Eng, fr *Frame, st *State, c *callInfo) ([]*Term, bool) {
	fn := c.fn
	if fn == nil || !e.P.isRepo(fn) || fn.Object() == nil || !fn.Object().Exported() || fn == e.root {
		return nil, false
	}
	n := recvNamed(fn)
	if n != nil {
		if n == e.rootType() || !holdsFile(n) {
			return nil, false
		}
	} else {
		// constructors of file-holding types
		r := fn.Signature.Results()
		if r.Len() == 0 {
			return nil, false
		}
		p, ok := r.At(0).Type().(*types.Pointer)
		if !ok {
			return nil, false
		}
		k, _ := p.Elem().(*types.Named)
		if !holdsFile(k) || k == e.rootType() || e.root != nil && makes(e.root) == k {
			return nil, false
		}
	}
	ev := e.emit(fr, st, &Event{kind: "api", callee: fn.Name(), args: c.args, errIdx: errIndex(fn.Signature), typ: n}, c.pos, c.key)
	for i, a := range c.args {
		if i < len(c.argTys) && c.argTys[i] != nil && isSlice(c.argTys[i]) {
			ev.seqs = append(ev.seqs, e.seqOf(st, a, c.argTys[i]))
		} else {
			ev.seqs = append(ev.seqs, nil)
		}
	}
	rs := e.results(ev, typeTuple(fn.Signature.Results()))
	return rs, true
}

func isSlice(t types.Type) bool {
	_, ok := t.Underlying().(*types.Slice)
	return ok
}

// makes is the type a constructor returns.
func makes(fn *ssa.Function) *types.Named {
	r := fn.Signature.Results()
	if r.Len() == 0 {
		return nil
	}
	p, ok := r.At(0).Type().(*types.Pointer)
	if !ok {
		return nil
	}
	n, _ := p.Elem().(*types.Named)
	return n
}

func (e *Eng) rootType() *types.Named {
	if e.root == nil {
		return nil
	}
	return recvNamed(e.root)
}

// chain combines policies.
func chain(ps ...func(e *Eng, fr *Frame, st *State, c *callInfo) ([]*Term, bool)) func(e *Eng, fr *Frame, st *State, c *callInfo) ([]*Term, bool) {
	return func(e *Eng, fr *Frame, st *State, c *callInfo) ([]*Term, bool) {
		for _, p := range ps {
			if r, ok := p(e, fr, st, c); ok {
				return r, ok
			}
		}
		return nil, false
	}
}

// encodings the writer is specialised to: the defined ones and one undefined.
var encodings = []int64{0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 77}

// variants are the specialisations under which a root is analysed.
type variant struct {
	name string
	pol  Policy
}

func (P *Prog) variants(fn *ssa.Function) []variant {
	w := P.writerType()
	if w != nil && recvNamed(fn) == w {
		var out []variant
		for _, k := range encodings {
			p := WriterPolicy(P, k)
			p.Call = chain(opaqueCodecs, composed)
			out = append(out, variant{name: "encoding " + itoa(k), pol: p})
		}
		return out
	}
	return []variant{{pol: Policy{Call: chain(opaqueBlocks, composed)}}}
}

func itoa(k int64) string {
	var s string
	neg := k < 0
	if neg {
		k = -k
	}
	for {
		s = string(rune('0'+k%10)) + s
		k /= 10
		if k == 0 {
			break
		}
	}
	if neg {
		s = "-" + s
	}
	return s
}

// outcome describes when the root function reports success.
type outcome struct {
	nilS    *Term // returned a nil error
	partial *Term // returned one of the module's own typed errors that report partial success
	any     *Term // both
	failed  *Term
}

func (e *Eng) outcome() outcome {
	T := e.T
	ei := errIndex(e.root.Signature)
	o := outcome{nilS: T.False, partial: T.False, failed: T.False}
	for _, r := range e.rets {
		if ei < 0 {
			o.nilS = T.Or(o.nilS, r.guard)
			continue
		}
		v := T.Restrict(r.vals[ei], r.guard)
		ok := T.And(r.guard, T.Eq(v, T.Nil))
		o.nilS = T.Or(o.nilS, ok)
		part := T.False
		for _, l := range T.Leaves(v) {
			if l.op == "iface" && e.P.partialErr(l.ref) {
				part = T.Or(part, T.And(r.guard, T.LeafGuard(v, l)))
			}
		}
		o.partial = T.Or(o.partial, part)
		o.failed = T.Or(o.failed, T.And(r.guard, T.Not(T.Or(ok, part))))
	}
	o.any = T.Or(o.nilS, o.partial)
	return o
}

// partialErr: a module-defined error type carrying a count.
func (P *Prog) partialErr(ref any) bool {
	t, ok := ref.(types.Type)
	if !ok {
		return false
	}
	if p, ok := t.(*types.Pointer); ok {
		t = p.Elem()
	}
	n, ok := t.(*types.Named)
	if !ok || n.Obj().Pkg() == nil {
		return false
	}
	if !strings.HasPrefix(n.Obj().Pkg().Path(), P.mod) {
		return false
	}
	s, ok := n.Underlying().(*types.Struct)
	if !ok {
		return false
	}
	for i := 0; i < s.NumFields(); i++ {
		if kindOf(s.Field(i).Type()) != 0 {
			return true
		}
	}
	return false
}

// located is an event with its place in the trace.
type located struct {
	ev    *Event
	loops []*Loop
	path  []int
}

func (e *Eng) located(sel func(ev *Event) bool) []located {
	var out []located
	var rec func(items []*Item, loops []*Loop, path []int)
	rec = func(items []*Item, loops []*Loop, path []int) {
		for i, it := range items {
			p := append(append([]int(nil), path...), i)
			if it.Ev != nil && sel(it.Ev) {
				out = append(out, located{it.Ev, loops, p})
			}
			if it.Loop != nil {
				rec(it.Loop.body, append(append([]*Loop(nil), loops...), it.Loop), p)
			}
			if it.Spawn != nil {
				rec(it.Spawn.body, loops, p)
			}
		}
	}
	rec(e.trace, nil, nil)
	return out
}

// after: b comes after a in program order.
func after(b, a []int) bool {
	for i := 0; i < len(a) && i < len(b); i++ {
		if b[i] != a[i] {
			return b[i] > a[i]
		}
	}
	return len(b) > len(a)
}

func commonLoops(a, b located) int {
	n := 0
	for n < len(a.loops) && n < len(b.loops) && a.loops[n] == b.loops[n] {
		n++
	}
	return n
}

func kinds(ks ...string) func(ev *Event) bool {
	return func(ev *Event) bool {
		for _, k := range ks {
			if ev.kind == k {
				return true
			}
		}
		return false
	}
}

// swallowed decides whether the operation can fail while the root still
// reports success under S. It returns a description of how, or "".
func (e *Eng) swallowed(l located, S *Term, failed *Term) string {
	T := e.T
	set := map[*Loop]bool{}
	for _, L := range l.loops {
		set[L] = true
	}
	m := e.unfin(set)
	S1 := e.joinedErrors(m.Map(S))
	var rec func(i int, cond *Term) string
	exitsOf := func(i int, cond *Term) string {
		L := l.loops[i]
		for _, x := range L.exits {
			cx := T.And(cond, T.And(m.Map(x.guard), m.Map(x.post)))
			if cx == T.False {
				continue
			}
			if r := rec(i-1, cx); r != "" {
				return r
			}
		}
		return ""
	}
	rec = func(i int, cond *Term) string {
		if cond == T.False {
			return ""
		}
		if i < 0 {
			if T.And(S1, cond) != T.False {
				return "success is reported although it failed"
			}
			return ""
		}
		L := l.loops[i]
		goes := T.And(cond, m.Map(L.cont))
		if goes != T.False {
			ok := false
			for _, mu := range L.mus {
				flag := func(v *Term) *Term {
					if mu.typ != nil && isBoolType(mu.typ) {
						return m.Map(v)
					}
					if isErrorSlice(mu.typ) {
						return e.holdsError(m.Map(v))
					}
					return T.Not(T.Eq(m.Map(v), T.Nil))
				}
				if mu.typ == nil || mu.next == nil || !isErrorType(mu.typ) && !isBoolType(mu.typ) && !isErrorSlice(mu.typ) {
					continue
				}
				if !T.Implies(goes, flag(mu.next)) {
					continue
				}
				if !T.Implies(T.And(m.Map(L.cont), flag(mu.term)), flag(mu.next)) {
					continue
				}
				if exitsOf(i, flag(mu.term)) == "" {
					ok = true
					break
				}
			}
			if !ok {
				return "the loop at " + e.P.Pos(L.pos) + " goes on after it failed"
			}
		}
		return exitsOf(i, cond)
	}
	if len(l.loops) == 0 {
		if T.And(S1, T.And(l.ev.guard, failed)) != T.False {
			return "success is reported although it failed"
		}
		return ""
	}
	return rec(len(l.loops)-1, T.And(l.ev.guard, failed))
}

// failed is the condition that the operation failed.
func (e *Eng) failedCond(ev *Event) *Term {
	if er := ev.Err(); er != nil {
		return e.T.Not(e.T.Eq(er, e.T.Nil))
	}
	return e.T.False
}

func isErrorSlice(t types.Type) bool {
	if t == nil {
		return false
	}
	s, ok := t.Underlying().(*types.Slice)
	return ok && isErrorType(s.Elem())
}

// holdsError: a list of errors has one that is not nil.
func (e *Eng) holdsError(s *Term) *Term {
	T := e.T
	return T.Lift("", func(x []*Term) *Term {
		s := x[0]
		switch {
		case s == T.Nil || s.op == "zeros" || s.op == "mkslice" && s.args[1] == T.Zero:
			return T.False
		case s.op == "app":
			r := e.holdsError(s.args[0])
			for _, v := range s.args[1:] {
				r = T.Or(r, T.Not(T.Eq(v, T.Nil)))
			}
			return r
		}
		return T.Atom(T.Op("haserr", "", 0, nil, s))
	}, s)
}

// joinedErrors expands the tests of errors.Join of a list.
func (e *Eng) joinedErrors(t *Term) *Term {
	return newMapper(e, func(x *Term) *Term {
		if x.op == "isnil" && x.args[0].op == "joined" {
			return e.T.Not(e.holdsError(x.args[0].args[0]))
		}
		return nil
	}).Map(t)
}
