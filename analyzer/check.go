package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"time"

	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// Check decides one property.
type Check struct {
	ID    string
	Level string // "proof" or "other"
	Run   func(c *Ctx)
	Min   int // least number of obligations that a meaningful run has
	Expl  string
	Trust []string
}

var checks = map[string]*Check{}

func register(c *Check) { checks[c.ID] = c }

type obligation struct {
	Rule  string `json:"rule"`
	Where string `json:"where"`
	What  string `json:"what"`
	OK    bool   `json:"ok"`
}

// violation is one construct that breaks a rule.
type violation struct {
	Key   string // rule + construct, independent of line numbers
	Rule  string
	Where string
	Msg   string
}

// Ctx collects what a check analysed and found.
type Ctx struct {
	only string // decide this rule alone
	onces map[string]bool
	ends bool // C27: loops instead of bounds
	alloc bool // C15: memory too
	need  map[*ssa.Function]bool
	sizes map[*types.Named][]string
	P       *Prog
	id      string
	tier    string
	obs     []obligation
	viol    []violation
	notes   []string
	fns     map[string]bool
	engines int
	events  int
	loops   int
	terms   int
	seen    map[string]bool
}

func newCtx(P *Prog, id, tier string) *Ctx {
	return &Ctx{P: P, id: id, tier: tier, fns: map[string]bool{}, seen: map[string]bool{}}
}

// ob records an obligation; a failed one is a violation.
func (c *Ctx) ob(ok bool, rule, key string, pos token.Pos, format string, a ...any) bool {
	if c.only != "" && rule != c.only {
		return ok
	}
	msg := fmt.Sprintf(format, a...)
	where := c.P.Pos(pos)
	c.obs = append(c.obs, obligation{Rule: rule, Where: where, What: key, OK: ok})
	if !ok {
		k := rule + " " + key
		if !c.seen[k+where] {
			c.seen[k+where] = true
			c.viol = append(c.viol, violation{Key: k, Rule: rule, Where: where, Msg: msg})
		}
	}
	return ok
}

// fail reports a construct that the rules cannot place.
func (c *Ctx) fail(rule, key string, pos token.Pos, format string, a ...any) {
	c.ob(false, rule, key, pos, format, a...)
}

// analyse runs the abstract interpreter on a root function.
func (c *Ctx) analyse(fn *ssa.Function, pol Policy, setup func(e *Eng, params []*Term)) *Eng {
	e := NewEng(c.P, pol)
	e.Run(fn, func(st *State, params []*Term) {
		if setup != nil {
			setup(e, params)
		}
	})
	c.engines++
	c.terms += len(e.T.all)
	c.fns[fn.String()] = true
	e.walk(e.trace, func(it *Item, _ []*Loop) {
		if it.Loop != nil {
			c.loops++
			c.fns[it.Loop.fn.String()] = true
		}
		if it.Ev != nil {
			c.events++
			if it.Ev.fn != nil {
				c.fns[it.Ev.fn.String()] = true
			}
		}
	})
	for _, u := range e.unsupp {
		c.fail("undecided", shortFn(fn)+": "+u, fn.Pos(), "the analysis of %s met a construct it cannot decide: %s", fn, u)
	}
	return e
}

func shortFn(fn *ssa.Function) string {
	s := fn.String()
	if i := strings.LastIndexByte(s, '/'); i >= 0 {
		pre := ""
		if strings.HasPrefix(s, "(*") {
			pre = "(*"
		} else if strings.HasPrefix(s, "(") {
			pre = "("
		}
		s = pre + s[i+1:]
	}
	return s
}

// walk visits all items, in program order, with the loops around them.
func (e *Eng) walk(items []*Item, f func(it *Item, loops []*Loop)) {
	var rec func(items []*Item, loops []*Loop)
	rec = func(items []*Item, loops []*Loop) {
		for _, it := range items {
			f(it, loops)
			if it.Loop != nil {
				rec(it.Loop.body, append(append([]*Loop(nil), loops...), it.Loop))
			}
			if it.Spawn != nil {
				rec(it.Spawn.body, loops)
			}
		}
	}
	rec(items, nil)
}

// knownFindings reads the committed list.
type known struct {
	prop, key, text string
	used            bool
}

func readKnown(path string) ([]*known, error) {
	b, err := os.ReadFile(path)
	if os.IsNotExist(err) {
		return nil, nil
	}
	if err != nil {
		return nil, err
	}
	var out []*known
	for _, l := range strings.Split(string(b), "\n") {
		l = strings.TrimSpace(l)
		if !strings.HasPrefix(l, "finding:") {
			continue
		}
		// finding: property=C14 key=[...] text
		k := &known{}
		rest := strings.TrimSpace(strings.TrimPrefix(l, "finding:"))
		if !strings.HasPrefix(rest, "property=") {
			return nil, fmt.Errorf("bad known finding: %s", l)
		}
		f := strings.Fields(rest)
		k.prop = strings.TrimPrefix(f[0], "property=")
		i, j := strings.Index(rest, "key=["), strings.Index(rest, "]")
		if i < 0 || j < i {
			return nil, fmt.Errorf("bad known finding: %s", l)
		}
		k.key = rest[i+5 : j]
		k.text = strings.TrimSpace(rest[j+1:])
		out = append(out, k)
	}
	return out, nil
}

func runCheck(args []string) int {
	id := args[0]
	repo, verif := "/repo", "/verif"
	tier := os.Getenv("VERIF_TIER")
	if tier == "" {
		tier = "quick"
	}
	for _, a := range args[1:] {
		switch {
		case strings.HasPrefix(a, "--repo="):
			repo = a[7:]
		case strings.HasPrefix(a, "--verif="):
			verif = a[8:]
		case strings.HasPrefix(a, "--tier="):
			tier = a[7:]
		}
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	ck := checks[id]
	if ck == nil {
		fmt.Fprintln(os.Stderr, "no check", id)
		return 2
	}
	t0 := time.Now()
	P, err := LoadProg(repo, nil)
	if err != nil {
		fmt.Fprintln(os.Stderr, "cannot load the program:", err)
		P = &Prog{dir: repo}
	}
	c := newCtx(P, id, tier)
	if err != nil {
		c.viol = append(c.viol, violation{Key: "load", Rule: "load", Where: repo, Msg: "the program does not load: " + err.Error()})
	} else {
		c.guarded(ck)
		if tier == "thorough" {
			c.thorough(ck, repo, verif)
		}
	}
	if len(c.viol) == 0 && len(c.obs) < ck.Min {
		c.viol = append(c.viol, violation{Key: "instances", Rule: "instances", Where: repo,
			Msg: fmt.Sprintf("only %d rule instances found, at least %d are expected: the rule lost its anchors", len(c.obs), ck.Min)})
	}
	kn, err := readKnown(filepath.Join(verif, "known-findings.txt"))
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	var real []violation
	nKnown := 0
	for _, v := range c.viol {
		hit := false
		for _, k := range kn {
			if k.prop == id && k.key == v.Key {
				hit = true
				if !k.used {
					k.used = true
					nKnown++
					fmt.Printf("KNOWN-FINDING: property=%s %s\n", id, k.text)
				}
			}
		}
		if !hit {
			real = append(real, v)
		}
	}
	evdir := filepath.Join(verif, "evidence")
	os.MkdirAll(evdir, 0o755)
	replay := filepath.Join(evdir, id+".violations.txt")
	os.Remove(replay)
	if len(real) > 0 {
		var sb strings.Builder
		for _, v := range real {
			fmt.Fprintf(&sb, "%s: [%s] %s\n    key: %s\n", v.Where, v.Rule, v.Msg, v.Key)
		}
		os.WriteFile(replay, []byte(sb.String()), 0o644)
		fmt.Print(sb.String())
	}
	c.writeEvidence(ck, filepath.Join(evdir, id+".json"), seed, len(real), nKnown, time.Since(t0).Seconds())
	if len(real) > 0 {
		fmt.Printf("VIOLATION property=%s replay=%s\n", id, replay)
		return 1
	}
	ok := 0
	for _, o := range c.obs {
		if o.OK {
			ok++
		}
	}
	fmt.Printf("%s: %d obligations, %d discharged, %d known findings\n", id, len(c.obs), ok, nKnown)
	return 0
}

func (c *Ctx) guarded(ck *Check) {
	defer func() {
		if r := recover(); r != nil {
			c.viol = append(c.viol, violation{Key: "panic", Rule: "undecided", Where: ck.ID, Msg: fmt.Sprintf("the analysis failed: %v\n%s", r, debug.Stack())})
		}
	}()
	ck.Run(c)
}

func (c *Ctx) writeEvidence(ck *Check, path string, seed, nviol, nknown int, wall float64) {
	disc := 0
	byRule := map[string][2]int{}
	for _, o := range c.obs {
		n := byRule[o.Rule]
		n[0]++
		if o.OK {
			disc++
			n[1]++
		}
		byRule[o.Rule] = n
	}
	rules := map[string]any{}
	for r, n := range byRule {
		rules[r] = map[string]int{"instances": n[0], "held": n[1]}
	}
	var fns []string
	for f := range c.fns {
		fns = append(fns, f)
	}
	sort.Strings(fns)
	var samples []obligation
	perRule := map[string]int{}
	for _, o := range c.obs {
		if perRule[o.Rule] < 4 {
			perRule[o.Rule]++
			samples = append(samples, o)
		}
	}
	cov := map[string]any{
		"explanation":         ck.Expl,
		"rules":               rules,
		"functions_analysed":  fns,
		"root_analyses":       c.engines,
		"effects_analysed":    c.events,
		"loops_summarised":    c.loops,
		"value_graph_nodes":   c.terms,
		"obligation_examples": samples,
		"obligations":         len(c.obs),
		"discharged":          disc,
		"known_findings":      nknown,
	}
	if ck.Level == "proof" {
		cov["checker_cmd"] = "/verif/check.sh " + ck.ID + " " + c.tier
		cov["trusted_base"] = append([]string{"the analyzer in /verif/analyzer", "golang.org/x/tools/go/ssa and the Go type checker", "the models of the standard library and of sroar in models.go"}, ck.Trust...)
	}
	if len(c.notes) > 0 {
		cov["notes"] = c.notes
	}
	ev := map[string]any{
		"property": ck.ID, "tier": c.tier, "seed": seed, "level": ck.Level, "coverage": cov,
		"assumptions": ck.Trust, "wall_s": wall, "violations": nviol,
	}
	if ck.Trust == nil {
		ev["assumptions"] = []string{}
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.WriteFile(path, append(b, '\n'), 0o644)
}

// thorough repeats the check on the witnesses (see witness.go).
func (c *Ctx) thorough(ck *Check, repo, verif string) {
	runWitnesses(c, ck, repo, verif)
}
