package main

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// codecSig classifies the scalar codecs of the column encodings by their type:
// value -> bytes and bytes -> (value, number of bytes read).
func codecSig(sig *types.Signature) string {
	if sig.Recv() != nil || sig.Params().Len() != 1 || sig.TypeParams().Len() > 0 {
		return ""
	}
	in := sig.Params().At(0).Type()
	out := sig.Results()
	if is64(in) && out.Len() == 1 && isBytes(out.At(0).Type()) {
		return "enc"
	}
	if isBytes(in) && out.Len() == 2 && is64(out.At(0).Type()) && isInt(out.At(1).Type()) {
		return "dec"
	}
	if is64(in) && out.Len() == 1 && is64(out.At(0).Type()) && kindOf(in) != kindOf(out.At(0).Type()) {
		return "map"
	}
	return ""
}

func is64(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && (b.Kind() == types.Uint64 || b.Kind() == types.Int64)
}
func isInt(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Kind() == types.Int
}
func isBytes(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	if !ok {
		return false
	}
	b, ok := s.Elem().Underlying().(*types.Basic)
	return ok && b.Kind() == types.Uint8
}

// opaqueCodecs keeps the scalar codecs as pure operations; they are decided by
// their own analysis (bits.go).
func opaqueCodecs(e *Eng, fr *Frame, st *State, c *callInfo) ([]*Term, bool) {
	if c.fn == nil || !e.P.isRepo(c.fn) {
		return nil, false
	}
	T := e.T
	switch codecSig(c.fn.Signature) {
	case "enc":
		return []*Term{T.Lift("venc"+fnKey(c.fn), func(a []*Term) *Term {
			return T.mk(&Term{op: "venc", aux: fnKey(c.fn), ref: c.fn, args: []*Term{a[0]}})
		}, c.args[0])}, true
	case "dec":
		return e.pureSeqCall(fr, st, c, fnKey(c.fn)), true
	case "map":
		if plainMap(c.fn) {
			return nil, false
		}
		k := kindOf(c.fn.Signature.Results().At(0).Type())
		return []*Term{T.Lift("vmap"+fnKey(c.fn), func(a []*Term) *Term {
			if a[0] == T.Zero {
				return T.Zero
			}
			return T.mk(&Term{op: "vmap", aux: fnKey(c.fn), ref: c.fn, kind: k, args: []*Term{a[0]}})
		}, c.args[0])}, true
	}
	return nil, false
}

// plainMap: the function only converts its argument.
func plainMap(fn *ssa.Function) bool {
	if len(fn.Blocks) != 1 {
		return false
	}
	for _, i := range fn.Blocks[0].Instrs {
		switch i.(type) {
		case *ssa.Convert, *ssa.ChangeType, *ssa.Return, *ssa.DebugRef:
		default:
			return false
		}
	}
	return true
}

// optionField discovers which field of the object configured by an option
// constructor (func(T) func(*W)) receives the option's value.
func (P *Prog) optionField(rel, name string) string {
	fn := P.Func(rel, "", name)
	if fn == nil {
		return ""
	}
	e := NewEng(P, Policy{})
	e.Run(fn, nil)
	if len(e.retVals) != 1 {
		return ""
	}
	cl := e.retVals[0]
	if cl.op != "closure" && cl.op != "func" {
		return ""
	}
	f := cl.ref.(*ssa.Function)
	fr := &Frame{fn: f, ctx: "opt", free: cl.args}
	recv := e.T.Sym("w", 0)
	st := e.final
	e.runFunc(fr, st, []*Term{recv})
	for _, s := range e.stores {
		if s.addr.op == "addr" && s.addr.ref.(*Obj).root == recv {
			return s.addr.aux
		}
	}
	return ""
}

// WriterPolicy fixes the encoding of the writer (k < 0: any).
func WriterPolicy(P *Prog, k int64) Policy {
	p := Policy{Call: opaqueCodecs}
	if k >= 0 {
		f := P.encField()
		p.InitCell = func(e *Eng, c Cell, t types.Type) *Term {
			if c.path == f && c.obj.root != nil && c.obj.root == e.params[0] {
				return e.T.Int(k)
			}
			return nil
		}
	}
	return p
}

func (P *Prog) encField() string {
	if P.encFld == "" {
		P.encFld = P.optionField("pkg/col", "WithEncoding")
	}
	return P.encFld
}

// isBlockRead: integer -> (ids, values, error) on the reader.
func isBlockRead(fn *ssa.Function) bool {
	sig := fn.Signature
	if sig.Recv() == nil || sig.Params().Len() != 1 || sig.Results().Len() != 3 {
		return false
	}
	if kindOf(sig.Params().At(0).Type()) == 0 {
		return false
	}
	r := sig.Results()
	return isSliceOf(r.At(0).Type(), types.Uint64) && isSliceOf(r.At(1).Type(), types.Int64) && isErrorType(r.At(2).Type())
}

func isSliceOf(t types.Type, k types.BasicKind) bool {
	s, ok := t.Underlying().(*types.Slice)
	if !ok {
		return false
	}
	b, ok := s.Elem().Underlying().(*types.Basic)
	return ok && b.Kind() == k
}

// opaqueBlocks keeps reading one block as an operation: ids(i), values(i), err(i)
// are functions of the block number. Its inside is decided by the format rules.
func opaqueBlocks(e *Eng, fr *Frame, st *State, c *callInfo) ([]*Term, bool) {
	if r, ok := opaqueCodecs(e, fr, st, c); ok {
		return r, ok
	}
	if c.fn == nil || !e.P.isRepo(c.fn) || !isBlockRead(c.fn) || fr.parent == nil && e.root == c.fn {
		return nil, false
	}
	T := e.T
	ev := e.emit(fr, st, &Event{kind: "blockread", callee: "blockread", args: c.args, errIdx: 2}, c.pos, c.key)
	mk := func(nm string) *Term {
		return T.mk(&Term{op: "blk", aux: nm, args: []*Term{c.args[0], c.args[1]}})
	}
	ev.res = []*Term{mk("ids"), mk("vals"), mk("err")}
	bad := T.Not(T.Eq(ev.res[2], T.Nil))
	// a failed read returns no data
	return []*Term{T.Ite(bad, T.Nil, ev.res[0]), T.Ite(bad, T.Nil, ev.res[1]), ev.res[2]}, true
}

// structArg builds a struct value with some fields fixed.
func (e *Eng) structArg(t types.Type, base *Term, set map[string]*Term) *Term {
	st := t.Underlying().(*types.Struct)
	var fs []*Term
	for i := 0; i < st.NumFields(); i++ {
		if v, ok := set[st.Field(i).Name()]; ok {
			fs = append(fs, v)
		} else {
			fs = append(fs, e.field(base, t, i))
		}
	}
	return e.mkStruct(t, fs)
}
