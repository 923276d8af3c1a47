package main

// mapper rewrites terms bottom-up and re-normalises them.
type mapper struct {
	e    *Eng
	f    func(t *Term) *Term // replacement of a term (before its arguments), or nil
	memo map[*Term]*Term
}

func newMapper(e *Eng, f func(t *Term) *Term) *mapper {
	return &mapper{e: e, f: f, memo: map[*Term]*Term{}}
}

func (m *mapper) Map(t *Term) *Term {
	if t == nil {
		return nil
	}
	if r, ok := m.memo[t]; ok {
		return r
	}
	r := m.f(t)
	if r == nil {
		r = m.rebuild(t)
	}
	m.memo[t] = r
	return r
}

// bool maps an atom to a decision diagram.
func (m *mapper) atom(a *Term) *Term {
	T := m.e.T
	r := m.Map(a)
	if r.op == "ite" {
		return T.Lift("", func(x []*Term) *Term { return T.Atom(x[0]) }, r)
	}
	return T.Atom(r)
}

func (m *mapper) rebuild(t *Term) *Term {
	T := m.e.T
	if len(t.args) == 0 {
		return t
	}
	if t.op == "ite" {
		return T.Ite(m.atom(t.args[0]), m.Map(t.args[1]), m.Map(t.args[2]))
	}
	as := make([]*Term, len(t.args))
	same := true
	for i, a := range t.args {
		as[i] = m.Map(a)
		if as[i] != a {
			same = false
		}
	}
	if same {
		return t
	}
	return m.e.rebuildWith(t, as)
}

// rebuildWith makes the term t with other arguments.
func (e *Eng) rebuildWith(t *Term, as []*Term) *Term {
	T := e.T
	if e.cmp != nil {
		if r := e.rebuildC(t, as); r != nil {
			return r
		}
	}
	switch t.op {
	case "lin":
		r := T.Int(t.n)
		for i, a := range as {
			r = T.Add(r, T.Scale(a, t.coef[i]))
		}
		return r
	case "mul":
		return T.Mul(as[0], as[1])
	case "T":
		return T.Conv(t.kind, as[0])
	case "isnil":
		return T.Eq(as[0], T.Nil)
	case "eq":
		return T.Eq(as[0], as[1])
	case "eqc":
		return T.Eq(as[0], T.Int(t.n))
	case "lt":
		// a constant side: l < r + n without wrapping
		if n := t.n; as[0].isInt() && !as[1].isInt() {
			c := as[0].n - n
			switch {
			case n > 0 && c > as[0].n:
				return T.True
			case n < 0 && c < as[0].n:
				return T.False
			}
			return T.Lt(T.Int(c), as[1], kI64, true)
		} else if as[1].isInt() && !as[0].isInt() {
			c := as[1].n + n
			switch {
			case n > 0 && c < as[1].n:
				return T.True
			case n < 0 && c > as[1].n:
				return T.False
			}
			return T.Lt(as[0], T.Int(c), kI64, true)
		}
		return T.Lt(as[0], T.Add(as[1], T.Int(t.n)), kI64, true)
	case "ult":
		return T.Lt(as[0], as[1], kU64, false)
	case "len":
		return T.Lift("len", func(x []*Term) *Term { return e.lenOf(x[0]) }, as[0])
	case "field":
		return T.Lift("", func(x []*Term) *Term {
			if x[0].op == "struct" && int(t.n) < len(x[0].args) {
				return x[0].args[t.n]
			}
			return T.mk(&Term{op: "field", aux: t.aux, n: t.n, kind: t.kind, args: []*Term{x[0]}})
		}, as[0])
	case "div", "rem":
		if len(as) == 2 {
			k := kI64
			if t.aux == "u" {
				k = kU64
			}
			return T.divrem(t.op, as[0], as[1], k)
		}
	}
	return T.Lift("", func(x []*Term) *Term {
		// unchanged parts
		return T.mk(&Term{op: t.op, aux: t.aux, n: t.n, ref: t.ref, kind: t.kind, coef: t.coef, args: append([]*Term(nil), x...)})
	}, as...)
}

// unfin reads values after the loops as values in their last iteration.
func (e *Eng) unfin(loops map[*Loop]bool) *mapper {
	var m *mapper
	m = newMapper(e, func(t *Term) *Term {
		if t.op == "fin" && loops[t.ref.(*Loop)] {
			return m.Map(t.args[0])
		}
		return nil
	})
	return m
}
