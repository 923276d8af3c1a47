package main

import (
	"encoding/json"
	"fmt"
	"go/token"
	"go/types"
	"os"
	"os/exec"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

// The properties decided in composition mode. Each driver is analysed once per
// encoding, in a process of its own.

// plan is what the drivers about a writer in the middle of a file assume.
type plan struct {
	Header int64
	Group  []string // fields of the writer with one entry per block
	Havoc  []string // other fields that a block changes
}

func setOf(xs []string) map[string]bool {
	m := map[string]bool{}
	for _, x := range xs {
		m[x] = true
	}
	return m
}

// takeRun counts what a driver run analysed.
func (c *Ctx) takeRun(r *formatRun) bool {
	if r == nil {
		c.fail("driver", "missing", 0, "the driver does not exist")
		return false
	}
	e := r.e
	c.engines++
	c.terms += len(e.T.all)
	e.walk(e.trace, func(it *Item, _ []*Loop) {
		if it.Loop != nil {
			c.loops++
			c.fns[it.Loop.fn.String()] = true
		}
		if it.Ev != nil {
			c.events++
			if it.Ev.fn != nil {
				c.fns[it.Ev.fn.String()] = true
			}
		}
	})
	for _, u := range e.unsupp {
		c.fail("undecided", r.fn.Name()+": "+u, r.fn.Pos(), "the analysis of %s met a construct it cannot decide: %s", r.fn.Name(), u)
	}
	return len(e.unsupp) == 0
}

// mark returns the only mark of a kind.
func (c *Ctx) mark(r *formatRun, name string) *Event {
	m := r.marks[name]
	if !c.ob(len(m) == 1, "reached", r.fn.Name()+" "+name, r.fn.Pos(), "%s: the point %q is reached %d times", r.fn.Name(), name, len(m)) {
		return nil
	}
	return m[0]
}

// blockOK: the conditions under which a block, or part of it, was written.
func (r *formatRun) blockOK(ev *Event) (ok, all *Term) {
	e, T := r.e, r.e.T
	err := T.Restrict(ev.seqs[0], ev.guard)
	all = T.And(ev.guard, T.Eq(err, T.Nil))
	ok = all
	for _, l := range T.Leaves(err) {
		if l.op == "iface" && e.P.partialErr(l.ref) {
			ok = T.Or(ok, T.And(ev.guard, T.LeafGuard(err, l)))
		}
	}
	return
}

// oneMore: the value of a writer field grew by one entry.
func (r *formatRun) oneMore(cell Cell, init, v, g *Term) bool {
	e, T := r.e, r.e.T
	v = T.Restrict(v, g)
	ty := e.cells[cell]
	if ty == nil {
		return false
	}
	if isSlice(ty) {
		st := &State{guard: g, mem: r.snaps["wrote"].mem}
		e.cur = st
		v, why := e.settle(st, v, ty)
		if why != "" {
			dbg("%s: %s", cell.path, why)
			return false
		}
		x := e.seqOf(st, v, ty)
		a := e.lenOf(init)
		b := e.lenOf(x)
		if !e.same(T.Add(a, T.Int(1)), T.Restrict(b, g), g) {
			return false
		}
		// the earlier entries stay
		i := T.idx("entry")
		st.guard = T.And(g, T.And(T.Lt(i, a, kI64, true), T.Not(T.Lt(i, T.Zero, kI64, true))))
		et := ty.Underlying().(*types.Slice).Elem()
		p, q := e.elem(T.Restrict(x, g), i, et), e.elem(init, i, et)
		if e.same(p, q, st.guard) {
			return true
		}
		dbg("%s: earlier entry %v", cell.path, p)
		return false
	}
	if kindOf(ty) == 0 {
		return false
	}
	return e.same(T.Add(init, T.Int(1)), v, g)
}

func (r *formatRun) writerCells(st *State) []Cell {
	var out []Cell
	for cell := range st.mem {
		if cell.obj.root == r.c.w && !strings.HasPrefix(cell.path, "$") {
			out = append(out, cell)
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].path < out[j].path })
	return out
}

// initial value of a cell of the writer
func (r *formatRun) initOf(cell Cell) *Term { return r.e.initCell(cell, r.e.cells[cell]) }

// makePlan derives from a new writer and from one block what every state in
// between looks like.
func (c *Ctx) makePlan(P *Prog) *plan {
	pl := &plan{Header: 64}
	f := P.compose("Fresh", 0, nil, nil, 0)
	if !c.takeRun(f) {
		return nil
	}
	ev := c.mark(f, "fresh")
	if ev == nil {
		return nil
	}
	T := f.e.T
	g := T.And(ev.guard, T.Eq(T.Restrict(ev.seqs[1], ev.guard), T.Nil))
	if !c.ob(g != T.False, "reached", "Fresh success", f.fn.Pos(), "no writer can be created") {
		return nil
	}
	w := T.Restrict(ev.seqs[0], g)
	st := f.snaps["fresh"]
	st.guard = g
	if !c.ob(w.op == "addr", "fresh-writer", "writer", f.fn.Pos(), "the new writer is not one object: %v", w) {
		return nil
	}
	obj := w.ref.(*Obj)
	vals := map[string]*Term{}
	tys := map[string]types.Type{}
	var file *Term
	for cell, v := range st.mem {
		if cell.obj != obj {
			continue
		}
		ty := f.e.cells[cell]
		vals[cell.path], tys[cell.path] = T.Restrict(v, g), ty
		if ty != nil && types.TypeString(ty, nil) == "*os.File" {
			file = T.Restrict(v, g)
		}
	}
	if !c.ob(file != nil, "fresh-writer", "file", f.fn.Pos(), "the new writer has no file") {
		return nil
	}
	pos := T.Restrict(f.e.filePos(st, file, "pos"), g)
	if !c.ob(pos.isInt() && pos.n > 0 && f.c.atEnd(st, file), "fresh-writer", "first block", f.fn.Pos(),
		"the first block does not start at the end of a header of constant size: %v", pos) {
		return nil
	}
	pl.Header = pos.n
	// The fields with one entry per block: the largest set that each block keeps
	// in step, given that the set was in step before.
	var group map[string]bool
	for {
		s := P.compose("Step", 0, group, nil, pl.Header)
		if !c.takeRun(s) {
			return nil
		}
		ev = c.mark(s, "wrote")
		if ev == nil {
			return nil
		}
		ok, _ := s.blockOK(ev)
		next := map[string]bool{}
		pl.Group, pl.Havoc = nil, nil
		for _, cell := range s.writerCells(s.snaps["wrote"]) {
			v := s.snaps["wrote"].mem[cell]
			init := s.initOf(cell)
			if s.e.T.Restrict(v, ev.guard) == init {
				continue
			}
			ty := s.e.cells[cell]
			if group == nil && ty != nil && (isSlice(ty) || kindOf(ty) != 0) || group[cell.path] && s.oneMore(cell, init, v, ok) {
				next[cell.path] = true
				pl.Group = append(pl.Group, cell.path)
			} else {
				pl.Havoc = append(pl.Havoc, cell.path)
			}
		}
		if group != nil && len(next) == len(group) {
			break
		}
		group = next
	}
	s := f
	for _, path := range pl.Group {
		// one entry per block means none at the start
		z := vals[path]
		ty := tys[path]
		empty := false
		if z == nil {
			empty = true
		} else if ty != nil && isSlice(ty) {
			f.e.cur = st
			empty = T.Restrict(f.e.lenOf(f.e.seqOf(st, z, ty)), g) == T.Zero
		} else {
			empty = z == T.Zero
		}
		c.ob(empty, "fresh-empty", path, f.fn.Pos(), "%s grows with every block, but a new writer starts with %v", path, z)
	}
	c.ob(len(pl.Group) > 0, "per-block-fields", "writer", s.fn.Pos(), "no field of the writer has one entry per block")
	c.notes = append(c.notes, fmt.Sprintf("a block starts at or after offset %d; fields with one entry per block: %s; other fields that a block changes: %s",
		pl.Header, strings.Join(pl.Group, " "), strings.Join(pl.Havoc, " ")))
	return pl
}

// ---- child processes ----

type job struct {
	Kind string
	Enc  int64
}

func (j job) String() string { return fmt.Sprintf("%s, encoding %d", j.Kind, j.Enc) }

type jobResult struct {
	Obs     []obligation
	Viol    []violation
	Notes   []string
	Fns     []string
	Engines int
	Events  int
	Loops   int
	Terms   int
}

var jobs = map[string]func(c *Ctx, P *Prog, pl *plan, k int64){}

// One job, and all of them together; once something is found, half of that.
const jobLimit, jobBudget = 400 * time.Second, 700 * time.Second

// A memoryWatch ends the biggest of the running analyses when together they
// hold more than memoryCap; that one is then undecided, the others go on.
type memoryWatch struct {
	mu   sync.Mutex
	live map[*os.Process]bool
	done chan bool
}

const memoryCap = 22 << 30

func watchMemory() *memoryWatch {
	m := &memoryWatch{live: map[*os.Process]bool{}, done: make(chan bool)}
	go func() {
		for {
			select {
			case <-m.done:
				return
			case <-time.After(500 * time.Millisecond):
			}
			m.mu.Lock()
			var big *os.Process
			var most, sum int64
			for p := range m.live {
				var size, rss int64
				b, err := os.ReadFile(fmt.Sprintf("/proc/%d/statm", p.Pid))
				if err != nil {
					continue
				}
				fmt.Sscan(string(b), &size, &rss)
				rss *= int64(os.Getpagesize())
				sum += rss
				if rss > most {
					big, most = p, rss
				}
			}
			if sum > memoryCap {
				big.Kill()
			}
			m.mu.Unlock()
		}
	}()
	return m
}

func (m *memoryWatch) add(p *os.Process) {
	m.mu.Lock()
	m.live[p] = true
	m.mu.Unlock()
}

func (m *memoryWatch) remove(p *os.Process) {
	m.mu.Lock()
	delete(m.live, p)
	m.mu.Unlock()
}

func (m *memoryWatch) stop() { close(m.done) }

// runJobs analyses all (driver, encoding) pairs and merges what they found.
func (c *Ctx) runJobs(pl *plan, list []job) {
	par := runtime.NumCPU()
	if par > 8 {
		par = 8
	}
	if par < 2 {
		par = 2
	}
	if x := os.Getenv("VENC"); x != "" { // for development: only some encodings
		var some []job
		for _, j := range list {
			if strings.Contains(","+x+",", fmt.Sprintf(",%d,", j.Enc)) {
				some = append(some, j)
			}
		}
		list = some
	}
	start := time.Now()
	var mu sync.Mutex
	found := false
	watch := watchMemory()
	defer watch.stop()
	sem := make(chan bool, par)
	res := make([]*jobResult, len(list))
	errs := make([]string, len(list))
	var wg sync.WaitGroup
	plan, _ := json.Marshal(pl)
	for i, j := range list {
		wg.Add(1)
		go func() {
			defer wg.Done()
			sem <- true
			defer func() { <-sem }()
			limit := jobBudget - time.Since(start)
			mu.Lock()
			if found {
				limit -= jobBudget / 2
			}
			mu.Unlock()
			if limit > jobLimit {
				limit = jobLimit
			}
			if limit <= 0 {
				errs[i] = "out of time"
				return
			}
			cmd := exec.Command(os.Args[0], "job", c.id, j.Kind, strconv.FormatInt(j.Enc, 10), c.P.dir, string(plan), c.tier)
			cmd.Env = append(os.Environ(), "GOMAXPROCS=2", "GOGC=200", "GOMEMLIMIT=2500MiB")
			var out, errb strings.Builder
			cmd.Stdout, cmd.Stderr = &out, &errb
			if err := cmd.Start(); err != nil {
				errs[i] = err.Error()
				return
			}
			t := time.AfterFunc(limit, func() { cmd.Process.Kill() })
			watch.add(cmd.Process)
			err := cmd.Wait()
			watch.remove(cmd.Process)
			t.Stop()
			r := &jobResult{}
			if err == nil {
				err = json.Unmarshal([]byte(out.String()), r)
			}
			if err != nil {
				s := errb.String()
				if len(s) > 2000 {
					s = s[:2000]
				}
				errs[i] = err.Error() + " " + s
				return
			}
			res[i] = r
			if len(r.Viol) > 0 {
				mu.Lock()
				found = true
				mu.Unlock()
			}
		}()
	}
	wg.Wait()
	for i, j := range list {
		r := res[i]
		if r == nil {
			c.fail("undecided", j.String(), 0, "the analysis of %s did not finish: %s", j, errs[i])
			continue
		}
		c.obs = append(c.obs, r.Obs...)
		for _, v := range r.Viol {
			if !c.seen[v.Key+v.Where+v.Msg] {
				c.seen[v.Key+v.Where+v.Msg] = true
				c.viol = append(c.viol, v)
			}
		}
		c.notes = append(c.notes, r.Notes...)
		for _, f := range r.Fns {
			c.fns[f] = true
		}
		c.engines += r.Engines
		c.events += r.Events
		c.loops += r.Loops
		c.terms += r.Terms
	}
}

func jobMain(args []string) int {
	id, kind, dir, tier := args[0], args[1], args[3], args[5]
	k, _ := strconv.ParseInt(args[2], 10, 64)
	pl := &plan{}
	if err := json.Unmarshal([]byte(args[4]), pl); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	P0, err := LoadProg(dir, nil)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	P, err := P0.withDrivers()
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	c := newCtx(P, id, tier)
	c.guarded(&Check{ID: id, Run: func(c *Ctx) { jobs[kind](c, P, pl, k) }})
	r := jobResult{Obs: c.obs, Viol: c.viol, Notes: c.notes, Engines: c.engines, Events: c.events, Loops: c.loops, Terms: c.terms}
	for f := range c.fns {
		r.Fns = append(r.Fns, f)
	}
	sort.Strings(r.Fns)
	b, _ := json.Marshal(r)
	os.Stdout.Write(b)
	return 0
}

// withPlan runs a check that needs the plan.
func withPlan(list func(c *Ctx) []job) func(c *Ctx) {
	return func(c *Ctx) {
		P, err := c.P.withDrivers()
		if err != nil {
			c.fail("driver", "load", 0, "the drivers do not type-check with this tree: %v", err)
			return
		}
		pl := c.makePlan(P)
		if pl == nil || len(c.viol) > 0 {
			return
		}
		c.runJobs(pl, list(c))
	}
}

func (pl *plan) run(P *Prog, driver string, k int64) *formatRun {
	return P.compose(driver, k, setOf(pl.Group), setOf(pl.Havoc), pl.Header)
}

// supported encodings, and others that a writer may be asked for
const nEnc = 8

var otherEncs = []int64{8, 9, 77}

// ---- one more block ----

func init() {
	jobs["step"] = stepJob
	jobs["roundtrip"] = func(c *Ctx, P *Prog, pl *plan, k int64) { backJob(c, P, pl, "RoundTrip", k) }
	jobs["prefix"] = func(c *Ctx, P *Prog, pl *plan, k int64) { backJob(c, P, pl, "Prefix", k) }
}

func stepJob(c *Ctx, P *Prog, pl *plan, k int64) {
	r := pl.run(P, "Step", k)
	if !c.takeRun(r) {
		return
	}
	e, T := r.e, r.e.T
	ev := c.mark(r, "wrote")
	if ev == nil {
		return
	}
	enc := fmt.Sprintf("encoding %d", k)
	st := r.snaps["wrote"]
	ok, _ := r.blockOK(ev)
	bad := T.And(ev.guard, T.Not(ok))
	if k < nEnc {
		c.ob(ok != T.False, "reached", enc+" success", r.fn.Pos(), "%s: no block can be written", enc)
	} else if ok == T.False {
		c.ob(true, "refused", enc, r.fn.Pos(), "")
		return
	}
	group, havoc := setOf(pl.Group), setOf(pl.Havoc)
	seen := map[string]bool{}
	for _, cell := range r.writerCells(st) {
		v, init := st.mem[cell], r.initOf(cell)
		switch {
		case group[cell.path]:
			seen[cell.path] = true
			c.ob(r.oneMore(cell, init, v, ok), "lock-step", cell.path+" "+enc, r.fn.Pos(),
				"%s: %s does not grow by exactly one entry when a block is written: %v", enc, cell.path, T.Restrict(v, ok))
			c.ob(e.same(v, init, bad), "refused-untouched", cell.path+" "+enc, r.fn.Pos(),
				"%s: %s changes although the block is refused: %v", enc, cell.path, T.Restrict(v, bad))
		case havoc[cell.path]:
		default:
			c.ob(T.Restrict(v, ev.guard) == init, "untouched", cell.path+" "+enc, r.fn.Pos(), "%s: a block changes %s", enc, cell.path)
		}
	}
	for g := range group {
		c.ob(seen[g], "lock-step", g+" "+enc, r.fn.Pos(), "%s: %s does not grow when a block is written", enc, g)
	}
	f := r.c.wfile(st)
	if !c.ob(f != nil && r.c.start != nil, "file", enc, r.fn.Pos(), "%s: the writer's file is not known", enc) {
		return
	}
	for _, x := range r.c.image {
		p := newProver(e, x.guard, nil)
		c.ob(p.le(r.c.start, x.pos), "appends", P.Pos(x.ev.pos)+" "+enc, x.ev.pos,
			"%s: a block writes at %v, which may be before its own start", enc, x.pos)
	}
	st2 := st.clone()
	st2.guard = ok
	e.cur = st2
	pos := e.filePos(st2, f, "pos")
	c.ob(r.c.atEnd(st2, f), "ends-at-end", enc, r.fn.Pos(), "%s: a block does not end at the end of the file: %v", enc, r.c.end(st2, f))
	c.ob(newProver(e, ok, nil).lt(r.c.start, T.Restrict(pos, ok)), "ends-at-end", enc+" position", r.fn.Pos(),
		"%s: a block does not move the file position on: %v", enc, T.Restrict(pos, ok))
}

// ---- reading back ----

func backJob(c *Ctx, P *Prog, pl *plan, driver string, k int64) {
	r := pl.run(P, driver, k)
	if !c.takeRun(r) {
		return
	}
	e, T := r.e, r.e.T
	enc := fmt.Sprintf("encoding %d", k)
	if k >= nEnc && len(r.marks["more"]) == 0 || len(r.marks["more"]) == 1 && r.marks["more"][0].guard == T.False {
		c.ob(k >= nEnc, "refused", enc, r.fn.Pos(), "%s: no block can be written", enc)
		return
	}
	say := r.openLookups
	op, cnt, got := c.mark(r, "opened"), c.mark(r, "count"), c.mark(r, "got")
	if op == nil || cnt == nil || got == nil {
		return
	}
	T.Restrict(op.seqs[0], op.guard)
	c.ob(got.guard != T.False && !newProver(e, got.guard, nil).infeasible(), "reached", enc+" read", r.fn.Pos(), "%s: the block is never read back", enc)
	c.ob(e.never(op.guard, op.seqs[0]), "opens", enc, readPos(P, "NewReader"), "%s: a finished file does not open: %v%s", enc, T.Restrict(op.seqs[0], op.guard).str(6), say())
	want := T.Add(T.Add(r.c.N, r.c.M), T.Int(1))
	c.ob(e.same(cnt.seqs[0], want, cnt.guard), "block-count", enc, readPos(P, "NewReader"), "%s: a file with %v blocks is reported to have %v%s", enc, want, T.Restrict(cnt.seqs[0], cnt.guard).str(6), say())
	rp := readPos(P, "GetPairs")
	g := got.guard
	c.ob(e.never(g, got.seqs[2]), "reads", enc, rp, "%s: a block that was written is not readable: %v%s", enc, T.Restrict(got.seqs[2], g).str(6), say())
	g = T.And(g, T.Eq(T.Restrict(got.seqs[2], g), T.Nil))
	i := T.Op("cnt", "i", 0, nil)
	ins := r.sliceParams()
	if !c.ob(len(ins) == 2, "driver", "inputs", r.fn.Pos(), "the driver has %d inputs", len(ins)) {
		return
	}
	n := e.lenOf(r.params[ins[0]])
	if driver == "Prefix" {
		pm := c.mark(r, "part")
		if pm == nil {
			return
		}
		m := T.Restrict(pm.seqs[0], g)
		p := newProver(e, g, nil)
		c.ob(p.le(T.Int(1), m), "progress", enc, r.fn.Pos(), "%s: a full block may report that it holds no item: %v", enc, m.str(5))
		c.ob(p.lt(m, n), "proper-prefix", enc, r.fn.Pos(), "%s: a full block reports %v items, not fewer than the %v given", enc, m.str(5), n)
		n = m
	}
	names := []string{"ids", "values"}
	ets := []types.Type{types.Typ[types.Uint64], types.Typ[types.Int64]}
	for j := range ins {
		in := r.params[ins[j]]
		e.cur = &State{guard: g}
		out := T.Restrict(got.seqs[j], g)
		ln := T.Restrict(e.lenOf(out), g)
		c.ob(e.same(ln, n, g), "length", names[j]+" "+enc, rp, "%s: %v %s come back where %v were written%s", enc, ln.str(6), names[j], n.str(4), say())
		g2 := T.And(g, T.Lt(i, n, kI64, true))
		e.cur = &State{guard: g2}
		x := T.Restrict(e.elem(out, i, ets[j]), g2)
		y := e.elem(in, i, ets[j])
		c.ob(e.same(x, y, g2), "element", names[j]+" "+enc, rp, "%s: element i of the %s that come back is %v, which is not shown to be %v%s", enc, names[j], x.str(8), y, say())
	}
	c.notes = append(c.notes, fmt.Sprintf("%s, %s: %d reads resolved against the image of %d writes, %d of them from a loop's closed form; %d codec pairs",
		driver, enc, r.c.stats.lookups, len(r.c.image), r.c.stats.fills, r.c.stats.pairs))
}

// never: an error value is nil wherever the guard holds.
func (e *Eng) never(g, err *Term) bool {
	T := e.T
	err = T.Restrict(err, g)
	if err == T.Nil {
		return true
	}
	bad := T.And(g, T.Not(T.Eq(err, T.Nil)))
	return bad == T.False || newProver(e, bad, nil).infeasible()
}

// sliceParams are the indices of the driver's slice parameters.
func (r *formatRun) sliceParams() []int {
	var out []int
	for i, p := range r.fn.Params {
		if isSlice(p.Type()) {
			out = append(out, i)
		}
	}
	return out
}

func readPos(P *Prog, name string) token.Pos {
	var fn *ssa.Function
	for _, f := range P.apiRoots() {
		if f.Name() == name && f.Pkg != nil && f.Pkg.Pkg.Path() == P.mod+"/pkg/col" {
			fn = f
		}
	}
	if fn != nil {
		return fn.Pos()
	}
	return 0
}

func everyOf(kind string, n int64) []job {
	var out []job
	for k := n - 1; k >= 0; k-- {
		out = append(out, job{kind, k})
	}
	return out
}

func everyEnc(kind string) []job {
	out := everyOf(kind, nEnc)
	for _, k := range otherEncs {
		out = append(out, job{kind, k})
	}
	return out
}

func init() {
	register(&Check{ID: "C01", Level: "proof", Min: 100, Trust: rtTrust,
		Run: withPlan(func(c *Ctx) []job {
			return append(append(everyEnc("roundtrip"), everyEnc("step")...), everyOf("empty", nEnc)...)
		}),
		Expl: "For every column encoding: the state of a writer in the middle of a file is generalised from the constructor and one block write (the fields with one entry per block are found as a fixpoint); block write, any number of further blocks, finalize, open and read are composed over an abstract file image, so that every byte range the reader decodes is resolved to the writes that produced it (positions compared as linear forms, loops by their closed forms). The open must not fail, the block count must be the number of blocks, and the length and the element i of both columns must be those given. Each block write is also shown to keep what the composition assumes: it appends, ends at the end of the file, adds one entry to each of those fields, and changes nothing when it is refused."})
	register(&Check{ID: "C02", Level: "proof", Min: 60, Trust: rtTrust,
		Run:  withPlan(func(c *Ctx) []job { return append(everyEnc("prefix"), everyEnc("step")...) }),
		Expl: "As C01, for a block write that reports a full block: the reported count is shown to be at least one and less than the number given, and the block that comes back to have exactly that many items, element i of both columns being element i of what was given."})
}

var rtTrust = []string{
	"file operations succeed (their failures are the subject of C11-C14); nothing else touches the file",
	"files of up to 1 TiB, blocks of up to 2^28 per file",
	"before FinalizeAndClose only WriteBlock is called on the writer, and the writer of a block is the one NewWriter returns with the same encoding option",
}

// openLookups says which reads of the file image were not resolved.
func (r *formatRun) openLookups() string {
	w := r.c.why
	if len(w) > 3 {
		w = w[len(w)-3:]
	}
	if len(w) == 0 {
		return ""
	}
	return " (open lookups: " + strings.Join(w, "; ") + ")"
}
