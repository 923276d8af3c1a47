package main

import (
	"fmt"
	"go/types"
	"os"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

func (e *Eng) dumpItems(items []*Item, ind string) {
	for _, it := range items {
		switch {
		case it.Ev != nil:
			ev := it.Ev
			fmt.Printf("%s%s#%d %s %s", ind, ev.kind, ev.id, ev.callee, e.P.Pos(ev.pos))
			if ev.fpos != nil {
				fmt.Printf(" pos=%s size=%s", ev.fpos.str(5), ev.size.str(5))
			}
			for _, a := range ev.args {
				fmt.Printf(" | %s", a.str(5))
			}
			fmt.Printf("\n%s    guard %s\n", ind, ev.guard.str(3))
		case it.Loop != nil:
			L := it.Loop
			fmt.Printf("%sLOOP %d %s entry=%s trip=%v nn=%v\n", ind, L.id, e.P.Pos(L.pos), L.entry.str(3), L.trip, L.tripNN)
			for _, m := range L.mus {
				fmt.Printf("%s  mu %s = %s init=%s next=%s ind=%v\n", ind, m.name, m.term.str(3), m.init.str(4), m.next.str(7), m.ind)
			}
			e.dumpItems(L.body, ind+"    ")
			for _, x := range L.exits {
				fmt.Printf("%s  exit#%d header=%v ret=%v %s guard=%s\n", ind, x.idx, x.header, x.isRet, e.P.Pos(x.pos), x.guard.str(4))
			}
		case it.Spawn != nil:
			fmt.Printf("%sSPAWN %s guard=%s\n", ind, e.P.Pos(it.Spawn.pos), it.Spawn.guard.str(3))
			e.dumpItems(it.Spawn.body, ind+"    ")
		}
	}
}

func dumpMain(args []string) {
	P, err := LoadProg(dumpRepo(), nil)
	if err != nil {
		fmt.Println(err)
		os.Exit(2)
	}
	parts := strings.Split(args[0], ".")
	var pkg, recv, name string
	if len(parts) == 3 {
		pkg, recv, name = parts[0], parts[1], parts[2]
	} else {
		pkg, name = parts[0], parts[1]
	}
	fn := P.Func(pkg, recv, name)
	if fn == nil {
		fmt.Println("no function", P.mod, P.spkgs, parts)
		os.Exit(2)
	}
	k := int64(-1)
	if len(args) > 1 {
		fmt.Sscan(args[1], &k)
	}
	fmt.Println("enc field", P.encField())
	pol := WriterPolicy(P, k)
	if strings.Contains(name, "ggreg") {
		pol = Policy{Call: opaqueBlocks}
	}
	e := NewEng(P, pol)
	t0 := time.Now()
	e.Run(fn, func(st *State, params []*Term) {
		set := map[string]*Term{}
		for _, a := range args[1:] {
			if kv := strings.SplitN(a, "=", 2); len(kv) == 2 {
				switch kv[1] {
				case "nil":
					set[kv[0]] = e.T.Nil
				case "true":
					set[kv[0]] = e.T.True
				case "false":
					set[kv[0]] = e.T.False
				case "bm":
					set[kv[0]] = e.T.Op("bmarg", kv[0], 0, nil)
				case "neg":
					set[kv[0]] = e.T.Int(-1)
				default:
					var n int64
					fmt.Sscan(kv[1], &n)
					set[kv[0]] = e.T.Int(n)
				}
			}
		}
		if len(set) > 0 {
			for i, p := range fn.Params {
				if _, ok := p.Type().Underlying().(*types.Struct); ok {
					params[i] = e.structArg(p.Type(), params[i], set)
				}
			}
		}
	})
	defer func() { fmt.Println("time", time.Since(t0)) }()
	e.dumpItems(e.trace, "")
	for _, r := range e.rets {
		fmt.Printf("RET %s guard=%s\n", P.Pos(r.pos), r.guard.str(4))
		for _, v := range r.vals {
			fmt.Printf("   %s\n", v.str(9))
		}
	}
	fmt.Println("unsupported:", e.unsupp, "steps", e.steps, "terms", len(e.T.all), "ovf", e.T.ovf)
	fmt.Println("bounds:")
	for _, b := range e.bounds {
		fmt.Printf("  %s %s idx=%v hi=%v len=%v\n", b.kind, P.Pos(b.pos), b.idx, b.hi, b.len)
	}
}

func dumpRepo() string {
	if d := os.Getenv("VREPO"); d != "" {
		return d
	}
	return "/repo"
}

func codecMain() {
	P, err := LoadProg(dumpRepo(), nil)
	if err != nil {
		fmt.Println(err)
		os.Exit(2)
	}
	fn := func(n string) *ssa.Function { return P.Func("pkg/col", "", n) }
	fmt.Printf("%+v\n", P.codecPair(fn("encodeVarInt"), fn("decodeVarInt")))
	fmt.Printf("%+v\n", P.codecPair(fn("encodeSignedVarInt"), fn("decodeSignedVarInt")))
	fmt.Printf("%+v\n", P.mapPair(fn("int64ToUint64"), fn("uint64ToInt64")))
}
