package main

// Operations on byte sequences under a state's facts.

// norm drops provably empty segments and merges adjacent ones.
func (st *State) norm(q Seq) Seq {
	var r Seq
	for i, g := range q {
		if g.k != sByte {
			if g.n.is(0) {
				continue
			}
			if !g.n.isConst() && st.eq(g.n, K(0)) {
				if len(q) == 1 {
					return nil
				}
				// the size vanishes: with it go its symbols, so that the total size stays the same expression
				if s, l := solveFor(g.n); s != 0 {
					m := map[Sym]*Lin{s: l}
					t := append(append(Seq(nil), r...), q[i+1:]...)
					for j := range t {
						if t[j].k != sByte {
							t[j].n = t[j].n.subst(m)
							if t[j].k == sBlob {
								t[j].off = t[j].off.subst(m)
							}
						}
					}
					return st.norm(t)
				}
				continue
			}
		}
		if g.k == sFill && g.n.is(1) {
			g = Seg{k: sByte, v: g.v}
		}
		if g.k == sByte {
			if s, ok := g.v.single(); ok {
				if br, ok := byteSyms[s]; ok {
					g = Seg{k: sBlob, b: br.b, off: br.off, n: K(1)}
				}
			}
		}
		if len(r) > 0 {
			l := &r[len(r)-1]
			if l.k == sBlob && g.k == sBlob && l.b == g.b && st.eq(add(l.off, l.n), g.off) {
				l.n = add(l.n, g.n)
				continue
			}
			if l.k == sFill && g.k == sByte && l.v == g.v {
				l.n = addK(l.n, 1)
				continue
			}
			if l.k == sByte && g.k == sFill && l.v == g.v {
				*l = Seg{k: sFill, v: g.v, n: addK(g.n, 1)}
				continue
			}
			if l.k == sFill && g.k == sFill && l.v == g.v {
				l.n = add(l.n, g.n)
				continue
			}
		}
		r = append(r, g)
	}
	return r
}

// solveFor solves l = 0 for its most recent symbol of coefficient 1 or -1.
func solveFor(l *Lin) (Sym, *Lin) {
	var best Term
	for _, t := range l.t {
		if (t.k == 1 || t.k == -1) && t.s > best.s {
			best = t
		}
	}
	if best.s == 0 {
		return 0, nil
	}
	return best.s, scale(comb(l, -best.k, S(best.s)), -best.k)
}

func (st *State) cat(a ...Seq) Seq {
	var r Seq
	for _, q := range a {
		r = append(r, q...)
	}
	return st.norm(r)
}

// cut returns the part of segment g from lo (relative) of length n.
func cut(g Seg, lo, n *Lin) Seg {
	switch g.k {
	case sByte:
		return g
	case sFill:
		return Seg{k: sFill, v: g.v, n: n}
	}
	return Seg{k: sBlob, b: g.b, off: add(g.off, lo), n: n}
}

// slice returns q[lo:hi]; ok=false when segment boundaries cannot be ordered (the result is then an
// opaque but functional sub-sequence).
func (st *State) slice(q Seq, lo, hi *Lin) (Seq, bool) {
	if lo == hi || st.le(hi, lo) {
		return nil, true
	}
	var r Seq
	pos := K(0)
	started := false
	for i := 0; i < len(q); i++ {
		g := q[i]
		end := add(pos, g.size())
		if !started {
			if st.le(end, lo) {
				pos = end
				continue
			}
			if !st.le(pos, lo) {
				return st.opaqueSlice(q, lo, hi), false
			}
			if !st.lt(lo, end) {
				// lo may equal end: acceptable only if the cut is consistent
				if !st.le(lo, end) {
					return st.opaqueSlice(q, lo, hi), false
				}
			}
			started = true
			if st.le(hi, end) {
				return st.norm(Seq{cut(g, sub(lo, pos), sub(hi, lo))}), true
			}
			r = append(r, cut(g, sub(lo, pos), sub(end, lo)))
			pos = end
			if !st.le(end, hi) {
				return st.opaqueSlice(q, lo, hi), false
			}
			continue
		}
		if st.le(hi, pos) {
			return st.norm(r), true
		}
		if st.le(end, hi) {
			r = append(r, g)
			pos = end
			continue
		}
		if st.le(pos, hi) && st.le(hi, end) {
			r = append(r, cut(g, K(0), sub(hi, pos)))
			return st.norm(r), true
		}
		return st.opaqueSlice(q, lo, hi), false
	}
	if !started {
		return st.opaqueSlice(q, lo, hi), false
	}
	if !st.eq(pos, hi) {
		return st.opaqueSlice(q, lo, hi), false
	}
	return st.norm(r), true
}

func (st *State) opaqueSlice(q Seq, lo, hi *Lin) Seq {
	return blob("sub("+q.key()+")", lo, sub(hi, lo))
}

// byteAt returns the value of byte i of q.
func (st *State) byteAt(q Seq, i *Lin) *Lin {
	r, ok := st.slice(q, i, addK(i, 1))
	if !ok && !i.isConst() {
		if m := mergeRuns(q); len(m) < len(q) {
			return st.byteAt(m, i)
		}
	}
	if len(r) == 1 {
		switch r[0].k {
		case sByte, sFill:
			return r[0].v
		default:
			return S(byteOf(r[0].b, r[0].off))
		}
	}
	return S(newSym("byte?", 0, 255))
}

// mergeRuns writes adjacent equal bytes as one fill.
func mergeRuns(q Seq) Seq {
	var r Seq
	for _, s := range q {
		if n := len(r); n > 0 && s.k != sBlob && r[n-1].k != sBlob && s.v == r[n-1].v {
			r[n-1] = Seg{k: sFill, v: s.v, n: add(r[n-1].size(), s.size())}
			continue
		}
		r = append(r, s)
	}
	return r
}

// overwrite returns q with data placed at off (same total length).
func (st *State) overwrite(q Seq, off *Lin, data Seq) Seq {
	if len(data) == 0 {
		return q
	}
	n := data.size()
	q = st.norm(q)
	total := q.size()
	a, ok1 := st.slice(q, K(0), off)
	if !ok1 {
		a = freshBlob("mixed", off)
	}
	// provably the same place, and the sizes add up to the old total
	off = a.size()
	b, ok2 := st.slice(q, add(off, n), total)
	if !ok2 {
		b = freshBlob("mixed", sub(total, add(off, n)))
	}
	if len(b) == 0 {
		if l := len(data) - 1; data[l].k != sByte {
			data = append(Seq(nil), data...)
			data[l].n = sub(data[l].n, sub(add(off, n), total))
		}
	}
	r := st.cat(a, data, b)
	if dbgFill && r.size() != total {
		println("SIZE", ok1, ok2, total.String(), r.size().String(), off.String(), n.String(), q.key())
	}
	return r
}

// seqEq proves that a and b are the same bytes.
func (st *State) seqEq(a, b Seq) bool {
	a, b = st.norm(a), st.norm(b)
	for len(a) > 0 && len(b) > 0 {
		x, y := a[0], b[0]
		xs, ys := x.size(), y.size()
		var n *Lin
		switch {
		case st.eq(xs, ys):
			n = xs
			if ys.isConst() {
				n = ys
			}
		case st.le(xs, ys):
			n = xs
		case st.le(ys, xs):
			n = ys
		default:
			return false
		}
		if !st.segEq(cut(x, K(0), n), cut(y, K(0), n), n) {
			return false
		}
		rest := func(q Seq, g Seg, sz *Lin) Seq {
			if st.eq(sz, n) {
				return q[1:]
			}
			r := append(Seq{cut(g, n, sub(sz, n))}, q[1:]...)
			return r
		}
		a, b = rest(a, x, xs), rest(b, y, ys)
	}
	if len(a) == 0 && len(b) == 0 {
		return true
	}
	r := a
	if len(a) == 0 {
		r = b
	}
	return st.eq(r.size(), K(0))
}

func (st *State) segEq(x, y Seg, n *Lin) bool {
	if st.eq(n, K(0)) {
		return true
	}
	val := func(g Seg) (*Lin, bool) {
		if g.k == sByte || g.k == sFill {
			return g.v, true
		}
		if n.is(1) {
			return S(byteOf(g.b, g.off)), true
		}
		return nil, false
	}
	vx, okx := val(x)
	vy, oky := val(y)
	if okx && oky {
		return st.valEq(vx, vy)
	}
	if x.k == sBlob && y.k == sBlob && x.b == y.b && st.eq(x.off, y.off) {
		return true
	}
	return false
}

// valEq: equality of integers, also through bit structure.
func (st *State) valEq(a, b *Lin) bool {
	if st.eq(a, b) {
		return true
	}
	wa, wb := st.bitWidth(a), st.bitWidth(b)
	if wa < 0 || wb < 0 || wa > 62 || wb > 62 {
		return false
	}
	n := max(wa, wb)
	x, y := st.bits(a, n), st.bits(b, n)
	same := map[[2]Sym]bool{}
	for i := range x {
		if !x[i].eq(y[i]) {
			p, q := x[i], y[i]
			if !p.top && !q.top && p.c == q.c && len(p.a) == 1 && len(q.a) == 1 && p.a[0].i == q.a[0].i {
				// the same bit of two quantities that are equal here
				k := [2]Sym{p.a[0].s, q.a[0].s}
				v, ok := same[k]
				if !ok {
					v = st.eq(S(k[0]), S(k[1]))
					same[k] = v
				}
				if v {
					continue
				}
			}
			if bvHasTop(x) || bvHasTop(y) {
				return false
			}
			return st.eq(st.fromBits(x, false, "eq"), st.fromBits(y, false, "eq"))
		}
	}
	return true
}

// seqNeq proves that a and b differ.
func (st *State) seqNeq(a, b Seq) bool {
	if st.ne(a.size(), b.size()) {
		return true
	}
	if st.eq(a.size(), b.size()) {
		// compare leading single bytes
		n := 0
		sz := a.size()
		for n < 8 && st.lt(K(int64(n)), sz) {
			x, y := st.byteAt(a, K(int64(n))), st.byteAt(b, K(int64(n)))
			if st.ne(x, y) {
				return true
			}
			n++
		}
	}
	return false
}
