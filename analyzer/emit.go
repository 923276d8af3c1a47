package main

// fieldW is one field that the code writes to a file.
type fieldW struct {
	pos   *Term
	width int   // 0: a blob
	val   *Term // integer value, or the byte sequence of a blob
	size  *Term
	order string
	zero  bool // a run of zero bytes
	l     located
}

// emitted decomposes all writes into fields.
func (e *Eng) emitted() []fieldW {
	var out []fieldW
	for _, l := range e.located(kinds("write")) {
		out = append(out, e.fieldsOf(l, l.ev.args[1], l.ev.fpos, l.ev.size)...)
	}
	return out
}

func (e *Eng) fieldsOf(l located, data, pos, size *Term) []fieldW {
	T := e.T
	switch data.op {
	case "bytes":
		return []fieldW{{pos: pos, width: int(data.n), val: data.args[0], size: T.Int(data.n), order: data.aux, l: l}}
	case "cat":
		var out []fieldW
		p := pos
		for _, a := range data.args {
			n := e.lenOf(a)
			out = append(out, e.fieldsOf(l, a, p, n)...)
			p = T.Add(p, n)
		}
		return out
	case "appseq":
		n := e.lenOf(data.args[0])
		out := e.fieldsOf(l, data.args[0], pos, n)
		return append(out, e.fieldsOf(l, data.args[1], T.Add(pos, n), e.lenOf(data.args[1]))...)
	case "app":
		var out []fieldW
		n := e.lenOf(data.args[0])
		if n != T.Zero {
			out = e.fieldsOf(l, data.args[0], pos, n)
		}
		p := T.Add(pos, n)
		for _, a := range data.args[1:] {
			out = append(out, fieldW{pos: p, width: 1, val: a, size: T.Int(1), order: "LE", l: l})
			p = T.Add(p, T.Int(1))
		}
		return out
	case "nil":
		return nil
	case "snap":
		c, off := data.args[0], data.args[1]
		var out []fieldW
		for c.op == "put" {
			b := c.args[2]
			f := fieldW{pos: T.Add(pos, T.Sub(c.args[1], off)), width: int(b.n), val: b.args[0], size: T.Int(b.n), order: b.aux, l: l}
			// a later put of the same bytes wins
			dup := false
			for _, g := range out {
				if g.pos == f.pos && g.width >= f.width {
					dup = true
				}
			}
			if !dup {
				out = append(out, f)
			}
			c = c.args[0]
		}
		if c.op == "zeros" {
			out = append(out, fieldW{pos: pos, val: data, size: size, zero: true, l: l})
			return out
		}
		if len(out) > 0 {
			return append(out, fieldW{pos: pos, val: c, size: size, l: l})
		}
	}
	return []fieldW{{pos: pos, val: data, size: size, l: l}}
}
