package main

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Check{ID: "C11", Level: "proof", Run: checkDurable, Min: 20,
		Expl: "For every exported operation that writes to the file and every column encoding, the gated value graph of the operation (all callees inlined, loops summarised) is built from the source; for every write on every path, the conjunction 'success is reported and the write was executed and no later sync of the same file succeeded' must be the constant false."})
	register(&Check{ID: "C13", Level: "proof", Run: checkWriteErrors, Min: 60,
		Expl: "For every exported operation of the writers and every column encoding, every failing file operation (write, sync, seek, truncate, close, open, or an operation of another writer API) is tracked through the gated value graph, through loops by their back-edge and exit conditions; 'the operation failed and the caller is told success' must be the constant false."})
}

// writeRoots are the exported operations that (may) write files.
func (c *Ctx) writeRoots() []*ssa.Function {
	var out []*ssa.Function
	for _, fn := range c.P.apiRoots() {
		if c.P.reachesFileWrite(fn) {
			out = append(out, fn)
		}
	}
	return out
}

var writeKinds = kinds("write", "sync", "seek", "truncate", "open", "api", "close", "stat", "rec")

func checkWriteErrors(c *Ctx) {
	for _, fn := range c.writeRoots() {
		if errIndex(fn.Signature) < 0 {
			// it cannot report a failure: it must not have any
			for _, v := range c.P.variants(fn)[:1] {
				e := c.analyse(fn, v.pol, nil)
				for _, l := range e.located(kinds("write", "sync", "truncate", "api")) {
					if l.ev.Err() != nil {
						c.fail("write error reported", shortFn(fn)+" "+l.ev.callee, l.ev.pos, "%s performs %s but has no error result", shortFn(fn), l.ev.callee)
					}
				}
			}
			continue
		}
		for _, v := range c.P.variants(fn) {
			e := c.analyse(fn, v.pol, nil)
			o := e.outcome()
			for _, l := range e.located(writeKinds) {
				ev := l.ev
				if ev.Err() == nil {
					continue
				}
				S := o.any
				if ev.kind == "seek" && len(l.loops) > 0 && ev.args[1] == e.T.Zero && ev.args[2] == e.T.Int(1) {
					// asking for the position inside the size estimation of a partial block
					// changes nothing: only an unconditional success depends on it
					S = o.nilS
				}
				if ev.spawn != nil {
					c.fail("write error reported", shortFn(fn)+" "+ev.callee, ev.pos, "%s runs in a goroutine: its failure cannot reach the caller", ev.callee)
					continue
				}
				why := e.swallowed(l, S, c.realFailure(e, ev))
				c.ob(why == "", "write error reported", shortFn(fn)+" "+ev.callee, ev.pos,
					"%s (%s): %s can fail unnoticed: %s", shortFn(fn), v.name, ev.callee, why)
			}
		}
	}
}

// realFailure: for a call of another API, a typed partial-success error is not a failure.
func (c *Ctx) realFailure(e *Eng, ev *Event) *Term {
	T := e.T
	f := e.failedCond(ev)
	if ev.kind != "api" {
		return f
	}
	er := ev.Err()
	// conditions "the error is of a partial-success type"
	for _, a := range T.all {
		if a.op == "typeis" && len(a.args) == 1 && a.args[0] == er && c.P.partialErr(a.ref) {
			f = T.And(f, T.Not(T.Atom(a)))
		}
	}
	return f
}

func checkDurable(c *Ctx) {
	w := c.P.writerType()
	for _, fn := range c.writeRoots() {
		if recvNamed(fn) == nil || recvNamed(fn) != w || errIndex(fn.Signature) < 0 {
			continue
		}
		for _, v := range c.P.variants(fn) {
			e := c.analyse(fn, v.pol, nil)
			c.durable(e, shortFn(fn), v.name)
		}
	}
}

// durable: a successful return means every write was followed by a successful sync.
func (c *Ctx) durable(e *Eng, fn, variant string) {
	T := e.T
	o := e.outcome()
	syncs := e.located(kinds("sync"))
	for _, l := range e.located(kinds("write", "truncate")) {
		ev := l.ev
		cov := T.False
		for _, s := range syncs {
			if !after(s.path, l.path) || s.ev.args[0] != ev.args[0] {
				continue
			}
			n := commonLoops(s, l)
			if n != len(s.loops) {
				continue // may run zero times
			}
			// a sync in the same iteration of the common loops; beyond the innermost
			// common loop the write's loops have ended
			cov = T.Or(cov, T.And(s.ev.guard, T.Eq(s.ev.Err(), T.Nil)))
		}
		set := map[*Loop]bool{}
		for _, L := range l.loops {
			set[L] = true
		}
		m := e.unfin(set)
		g := m.Map(ev.guard)
		if len(l.loops) > 0 {
			// any iteration may have been the one that wrote
			g = l.loops[0].entry
		}
		un := T.And(T.And(o.any, g), T.Not(cov))
		c.ob(un == T.False, "synced before success", fn+" write", ev.pos,
			"%s (%s): success is reported although the bytes written here may not have been synced", fn, variant)
	}
}

// reachesFileWrite: the function can reach a write on an *os.File.
func (P *Prog) reachesFileWrite(fn *ssa.Function) bool {
	seen := map[*ssa.Function]bool{}
	var rec func(f *ssa.Function) bool
	rec = func(f *ssa.Function) bool {
		if f == nil || seen[f] {
			return false
		}
		seen[f] = true
		if !P.isRepo(f) && f.Synthetic == "" {
			return false
		}
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				if ci, ok := ins.(ssa.CallInstruction); ok {
					if g := ci.Common().StaticCallee(); g != nil {
						switch fnKey(g) {
						case "(*os.File).Write", "(*os.File).WriteAt", "(*os.File).WriteString", "(*os.File).Truncate", "(*os.File).Sync", "encoding/binary.Write", "os.Create", "os.WriteFile", "(*os.File).ReadFrom", "io.Copy", "fmt.Fprintf", "fmt.Fprint", "fmt.Fprintln", "(*bufio.Writer).Write", "(*bufio.Writer).Flush":
							return true
						}
						if rec(g) {
							return true
						}
					}
					if ci.Common().IsInvoke() && ci.Common().Method.Name() == "Write" {
						return true
					}
				}
				for _, op := range ins.Operands(nil) {
					if g, ok := (*op).(*ssa.Function); ok && rec(g) {
						return true
					}
				}
			}
		}
		for _, a := range f.AnonFuncs {
			if rec(a) {
				return true
			}
		}
		return false
	}
	if rec(fn) {
		return true
	}
	// methods of a writing type that only close its file
	n := recvNamed(fn)
	return n != nil && n == P.writerType() && errIndex(fn.Signature) >= 0
}

var _ = types.Typ
