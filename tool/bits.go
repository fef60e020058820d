package main

// Bit provenance: every bit of an integer is a constant, a named bit of a named quantity, an
// exclusive-or of such bits, or unknown.

import (
	"fmt"
	"math/bits"
	"slices"
	"sort"
	"strings"
)

type atom struct {
	s Sym
	i int
}
type Bit struct {
	top bool
	c   bool   // constant part
	a   []atom // exclusive-or of these
}
type BV []Bit

var bit0, bit1 = Bit{}, Bit{c: true}

func (b Bit) isConst() bool { return !b.top && len(b.a) == 0 }
func (b Bit) key() string {
	if b.top {
		return "T"
	}
	s := "0"
	if b.c {
		s = "1"
	}
	for _, x := range b.a {
		s += fmt.Sprintf("^%d.%d", x.s, x.i)
	}
	return s
}
func (b Bit) eq(o Bit) bool { return !b.top && !o.top && b.key() == o.key() }

func bitXor(a, b Bit) Bit {
	if a.top || b.top {
		return Bit{top: true}
	}
	m := map[atom]bool{}
	for _, x := range a.a {
		m[x] = !m[x]
	}
	for _, x := range b.a {
		m[x] = !m[x]
	}
	r := Bit{c: a.c != b.c}
	for x, v := range m {
		if v {
			r.a = append(r.a, x)
		}
	}
	sort.Slice(r.a, func(i, j int) bool {
		if r.a[i].s != r.a[j].s {
			return r.a[i].s < r.a[j].s
		}
		return r.a[i].i < r.a[j].i
	})
	return r
}
func bitAnd(a, b Bit) Bit {
	switch {
	case a.isConst():
		if a.c {
			return b
		}
		return bit0
	case b.isConst():
		if b.c {
			return a
		}
		return bit0
	case a.eq(b):
		return a
	case bitXor(a, b).isConst(): // b == not a
		return bit0
	}
	return Bit{top: true}
}
func bitNot(a Bit) Bit {
	if a.top {
		return a
	}
	a.c = !a.c
	return a
}
func bitOr(a, b Bit) Bit { return bitNot(bitAnd(bitNot(a), bitNot(b))) }

func constBits(c int64, n int) BV {
	r := make(BV, n)
	for i := range r {
		if i < 64 && (c>>uint(i))&1 == 1 || i >= 64 && c < 0 {
			r[i] = bit1
		}
	}
	return r
}

func width2(hi int64) int {
	w := 0
	for hi > 0 {
		w++
		hi >>= 1
	}
	return w
}

// upper returns a proven upper bound of s in st (inf if none), using the state's facts.
func (st *State) rng(l *Lin) (int64, int64) {
	return linMin(st.facts, l), -linMin(st.facts, neg(l))
}

// bitWidth: least w with 0 <= l < 2^w proven, or -1.
func (st *State) bitWidth(l *Lin) int {
	lo, hi := st.rng(l)
	if lo < 0 && !st.ge(l) {
		return -1
	}
	best := -1
	if hi < inf {
		best = width2(hi)
	}
	// try to improve through relations
	for _, w := range []int{1, 2, 3, 4, 7, 8, 11, 12, 13, 14, 15, 16, 21, 24, 29, 30, 31, 32, 33, 48} {
		if best >= 0 && w >= best {
			break
		}
		if st.ge(addK(neg(l), int64(1)<<uint(w)-1)) {
			best = w
			break
		}
	}
	return best
}

func linSym(l *Lin) Sym {
	if s, ok := l.single(); ok {
		return s
	}
	k := "L(" + l.key + ")"
	if s, ok := symByKey[k]; ok {
		return s
	}
	s := newSym("("+l.String()+")", -inf, inf)
	symByKey[k] = s
	in := s.info()
	in.lindef = l
	in.defs = append(in.defs, mkFact(EQ, sub(S(s), l)))
	return s
}

// bits returns the low n bits of l (two's complement).
func (st *State) bits(l *Lin, n int) BV {
	if l.isConst() {
		return constBits(l.c, n)
	}
	if lo, hi := st.rng(l); lo == hi && lo > -inf {
		return constBits(lo, n)
	}
	if s, ok := l.single(); ok {
		in := s.info()
		if in.bv != nil {
			r := make(BV, n)
			for i := range r {
				if i < len(in.bv) {
					r[i] = in.bv[i]
				}
			}
			return st.refineBits(r)
		}
		if in.extOf != 0 {
			src := S(in.extOf)
			w := in.extLo + in.extN
			b := st.bits(src, w)
			r := make(BV, n)
			for i := range r {
				if i < in.extN {
					r[i] = b[in.extLo+i]
				}
			}
			// value bounds known in this state may clear high bits
			if w := st.bitWidth(l); w >= 0 {
				for i := w; i < n; i++ {
					r[i] = bit0
				}
			}
			return st.refineBits(r)
		}
		w := st.bitWidth(l)
		r := make(BV, n)
		for i := range r {
			if w < 0 || i < w {
				r[i] = Bit{a: []atom{{s, i}}}
			}
		}
		return st.refineBits(r)
	}
	// common power of two
	g := l.c
	for _, t := range l.t {
		g = gcd(abs64(g), abs64(t.k))
	}
	p := 0
	for g != 0 && g&1 == 0 {
		g >>= 1
		p++
	}
	if p > 0 {
		nt := make([]Term, len(l.t))
		for i, t := range l.t {
			nt[i] = Term{t.s, t.k >> uint(p)}
		}
		hi := BV{}
		if n > p {
			hi = st.bits(mkLin(l.c>>uint(p), nt), n-p)
		}
		r := make(BV, n)
		for i := range r {
			if i >= p {
				r[i] = hi[i-p]
			}
		}
		return r
	}
	if r := st.sumBits(l, n); r != nil {
		return r
	}
	if r := st.splitBits(l, n); r != nil {
		return r
	}
	if len(l.t) > 0 {
		// known equalities may give a form with a visible structure
		for _, f := range st.facts {
			if f.op != EQ || len(f.l.t) < 2 || len(f.l.t) > 3 {
				continue
			}
			for _, t := range f.l.t {
				if t.k != 1 && t.k != -1 || l.coef(t.s) == 0 {
					continue
				}
				by := scale(comb(f.l, -t.k, S(t.s)), -t.k)
				l2 := l.subst(map[Sym]*Lin{t.s: by})
				if len(l2.t) > len(l.t) {
					continue
				}
				if lo, hi := st.rng(l2); lo == hi && lo > -inf {
					return constBits(lo, n)
				}
				if _, ok := l2.single(); ok {
					return st.bits(l2, n)
				}
				if r := st.sumBits(l2, n); r != nil {
					return r
				}
			}
		}
	}
	s := linSym(l)
	w := st.bitWidth(l)
	r := make(BV, n)
	for i := range r {
		if w < 0 || i < w {
			r[i] = Bit{a: []atom{{s, i}}}
		}
	}
	return st.refineBits(r)
}

// sumBits reads l as a sum of quantities that occupy different bits.
func (st *State) sumBits(l *Lin, n int) BV {
	if l.c >= 0 {
		type part struct {
			p, w int
			s    Sym
			neg  bool // -2^p times a bit: all bits from p up equal it
		}
		var ps []part
		ok := true
		used := uint64(l.c)
		if used > 1<<62 {
			ok = false
		}
		for _, t := range l.t {
			if t.k > 0 && t.k&(t.k-1) != 0 && t.k < 1<<61 && used&uint64(t.k) == 0 && st.bitWidth(S(t.s)) == 1 {
				used |= uint64(t.k)
				for p := 0; p < 62; p++ {
					if t.k>>uint(p)&1 != 0 {
						ps = append(ps, part{p, 1, t.s, false})
					}
				}
				continue
			}
			if k := -t.k; k > 0 && k&(k-1) == 0 && st.bitWidth(S(t.s)) == 1 {
				p := width2(k) - 1
				m := ^uint64(0) << uint(p)
				if used&m != 0 {
					ok = false
					break
				}
				used |= m
				ps = append(ps, part{p, 1, t.s, true})
				continue
			}
			if t.k <= 0 || t.k&(t.k-1) != 0 {
				ok = false
				break
			}
			w := st.bitWidth(S(t.s))
			p := width2(t.k) - 1
			if w < 0 || p+w > 62 {
				ok = false
				break
			}
			m := (uint64(1)<<uint(w) - 1) << uint(p)
			if used&m != 0 {
				ok = false
				break
			}
			used |= m
			ps = append(ps, part{p, w, t.s, false})
		}
		if ok {
			r := constBits(l.c, n)
			for _, q := range ps {
				b := st.bits(S(q.s), q.w)
				for i := q.p + 1; q.neg && i < n; i++ {
					r[i] = b[0]
				}
				for i := 0; i < q.w && q.p+i < n; i++ {
					r[q.p+i] = b[i]
				}
			}
			return r
		}
	}
	return nil
}

// splitBits reads l as high*2^p + low with 0 <= low < 2^p.
func (st *State) splitBits(l *Lin, n int) BV {
	var cand []int
	cut := func(k int64) {
		if p := bits.TrailingZeros64(uint64(k)); k != 0 && p > 0 && p < 62 && !slices.Contains(cand, p) {
			cand = append(cand, p)
		}
	}
	for _, t := range l.t {
		cut(t.k)
	}
	for c := uint64(l.c); l.c > 0 && c != 0; c &= c - 1 {
		cut(int64(c))
	}
	for _, p := range cand {
		low, high := K(0), K(0)
		for _, t := range l.t {
			if t.k&(1<<uint(p)-1) == 0 {
				high = add(high, scale(S(t.s), t.k>>uint(p)))
			} else {
				low = add(low, scale(S(t.s), t.k))
			}
		}
		c := l.c & (1<<uint(p) - 1)
		low = addK(low, c)
		high = addK(high, (l.c-c)>>uint(p))
		if low.isConst() || high.isConst() && high.c == 0 {
			continue
		}
		if w := st.bitWidth(low); w < 0 || w > p {
			continue
		}
		r := append(BV(nil), st.bits(low, min(n, p))...)
		if n > p {
			r = append(r, st.bits(high, n-p)...)
		}
		return r
	}
	return nil
}

// refineBits replaces bits whose value the state's facts determine.
func (st *State) refineBits(r BV) BV {
	for i, b := range r {
		if b.top || len(b.a) != 1 {
			continue
		}
		k := fmt.Sprintf("ext%d.%d.1", b.a[0].s, b.a[0].i)
		if e, ok := symByKey[k]; ok {
			lo, hi := boundsOf(st.facts, e)
			if lo == hi && lo > -inf {
				v := lo == 1
				if b.c {
					v = !v
				}
				if v {
					r[i] = bit1
				} else {
					r[i] = bit0
				}
			}
		}
	}
	return r
}

// extSym is the symbol for bits [lo, lo+n) of s.
func (st *State) extSym(s Sym, lo, n int) Sym {
	k := fmt.Sprintf("ext%d.%d.%d", s, lo, n)
	e, ok := symByKey[k]
	if !ok {
		hi := inf
		if n < 62 {
			hi = int64(1)<<uint(n) - 1
		}
		e = newSym(fmt.Sprintf("%s[%d:%d]", s, lo, lo+n), 0, hi)
		symByKey[k] = e
		in := e.info()
		in.extOf, in.extLo, in.extN = s, lo, n
		s.info().exts = append(s.info().exts, e)
		b := s.info()
		if b.lo >= 0 && lo < 62 {
			f1 := mkFact(GE, comb(S(s), -(int64(1)<<uint(lo)), S(e))) // 2^lo e <= s
			in.defs = append(in.defs, f1)
			if len(b.defs) < 16 {
				b.defs = append(b.defs, f1)
			}
			if b.hi < inf && lo+n >= width2(b.hi) {
				f2 := mkFact(GE, addK(sub(scale(S(e), int64(1)<<uint(lo)), S(s)), int64(1)<<uint(lo)-1)) // s <= 2^lo e + 2^lo-1
				in.defs = append(in.defs, f2)
				if len(b.defs) < 16 {
					b.defs = append(b.defs, f2)
				}
			}
			// low and high parts together are the whole
			if b.hi < inf {
				for _, x := range b.exts {
					l, h := x, e
					if x.info().extLo > lo {
						l, h = e, x
					}
					li, hi := l.info(), h.info()
					if li.extLo == 0 && li.extN == hi.extLo && hi.extLo+hi.extN >= width2(b.hi) && hi.extLo < 62 {
						f := mkFact(EQ, comb(sub(S(s), S(l)), -(int64(1)<<uint(hi.extLo)), S(h)))
						in.defs = append(in.defs, f)
						x.info().defs = append(x.info().defs, f)
					}
				}
			}
		}
	}
	b := s.info()
	if b.lo < 0 && lo < 62 && st.ge(S(s)) {
		st.addRaw(mkFact(GE, comb(S(s), -(int64(1)<<uint(lo)), S(e))))
	}
	if lo+n < 62 && !(b.lo >= 0 && b.hi < inf && lo+n >= width2(b.hi)) && st.ge(S(s)) && st.ge(addK(neg(S(s)), int64(1)<<uint(lo+n)-1)) {
		st.addRaw(mkFact(GE, addK(sub(scale(S(e), int64(1)<<uint(lo)), S(s)), int64(1)<<uint(lo)-1)))
	}
	return e
}

// fromBits turns a bit vector into an affine form. signed: the top bit has negative weight.
func (st *State) fromBits(bv BV, signed bool, why string) *Lin {
	n := len(bv)
	for _, b := range bv {
		if b.top {
			hi := inf
			if n < 62 {
				hi = int64(1)<<uint(n) - 1
			}
			lo := int64(0)
			if signed {
				lo, hi = -(hi/2)-1, hi/2
				if n >= 62 {
					lo, hi = -inf, inf
				}
			}
			return S(newSym(why, lo, hi))
		}
	}
	r := K(0)
	i := 0
	for i < n {
		b := bv[i]
		w := int64(0)
		if i < 62 {
			w = int64(1) << uint(i)
		} else if !(b.isConst() && !b.c) {
			if b.isConst() && i == 63 && signed {
				// sign extension constants: value is handled below
			}
		}
		if b.isConst() {
			if b.c {
				if i >= 62 {
					return st.fromBitsHuge(bv, signed)
				}
				if signed && i == n-1 {
					r = addK(r, -w)
				} else {
					r = addK(r, w)
				}
			}
			i++
			continue
		}
		if i >= 62 {
			return st.fromBitsHuge(bv, signed)
		}
		if len(b.a) == 1 && !b.c {
			// maximal run of consecutive bits of one symbol
			s, lo := b.a[0].s, b.a[0].i
			j := i + 1
			lim := n
			for j < lim && !bv[j].top && len(bv[j].a) == 1 && !bv[j].c && bv[j].a[0].s == s && bv[j].a[0].i == lo+(j-i) {
				j++
			}
			src := S(s)
			if s.info().lindef != nil {
				src = s.info().lindef
			}
			if lo == 0 && i == 0 && j == n && signed {
				// whole signed word
				mn, mx := -(int64(1) << uint(min(n-1, 61))), int64(1)<<uint(min(n-1, 61))-1
				if n >= 62 || st.ge(addK(src, -mn)) && st.ge(addK(neg(src), mx)) {
					return src
				}
			}
			k := j - i
			if signed && j == n {
				// separate the sign bit
				if k > 1 {
					k--
					j--
				} else {
					r = comb(r, -w, S(st.extSym(s, lo, 1)))
					i = j
					continue
				}
			}
			if lo == 0 && st.ge(src) && (k >= 61 || st.ge(addK(neg(src), int64(1)<<uint(k)-1))) {
				r = comb(r, w, src)
			} else {
				if k >= 62 {
					return st.fromBitsHuge(bv, signed)
				}
				// the same quantity may be known under a longer slice whose top bits are now zero
				z := j
				for z < n && bv[z].isConst() && !bv[z].c {
					z++
				}
				e := Sym(0)
				for _, x := range s.info().exts {
					if q := x.info(); q.extLo == lo && q.extN > k && q.extN <= z-i && st.ge(addK(neg(S(x)), int64(1)<<uint(k)-1)) {
						e, j = x, i+q.extN
						break
					}
				}
				if e == 0 {
					e = st.extSym(s, lo, k)
				}
				r = comb(r, w, S(e))
			}
			i = j
			continue
		}
		// xor of bits: one-bit symbol
		k := "xb:" + b.key()
		e := keySym(k, 0, 1)
		e.info().bv = BV{b}
		if signed && i == n-1 {
			r = comb(r, -w, S(e))
		} else {
			r = comb(r, w, S(e))
		}
		i++
	}
	return r
}

func (st *State) fromBitsHuge(bv BV, signed bool) *Lin {
	var p []string
	for _, b := range bv {
		p = append(p, b.key())
	}
	lo := -inf
	if !signed {
		lo = 0
	}
	s := keySym("bv:"+strings.Join(p, ","), lo, inf)
	s.info().bv = bv
	return S(s)
}

func bvOp(a, b BV, f func(x, y Bit) Bit) BV {
	r := make(BV, len(a))
	for i := range r {
		r[i] = f(a[i], b[i])
	}
	return r
}

func bvHasTop(a BV) bool {
	for _, b := range a {
		if b.top {
			return true
		}
	}
	return false
}
func bvKey(a BV) string {
	var p []string
	for _, b := range a {
		p = append(p, b.key())
	}
	return strings.Join(p, ",")
}

// joinExt rewrites adjacent bit slices of one quantity into a wider slice, or into the quantity itself.
func (st *State) joinExt(l *Lin) *Lin {
	for {
		n := 0
		for _, t := range l.t {
			if t.s.info().extOf != 0 {
				n++
			}
		}
		if n == 0 {
			return l
		}
		done := true
	pairs:
		for _, x := range l.t {
			xi := x.s.info()
			if xi.extOf == 0 {
				continue
			}
			for _, y := range l.t {
				yi := y.s.info()
				if yi.extOf != xi.extOf || yi.extLo != xi.extLo+xi.extN || xi.extN >= 61 || xi.extN+yi.extN >= 62 {
					continue
				}
				if k, ok := mul64(x.k, int64(1)<<uint(xi.extN)); !ok || k != y.k {
					continue
				}
				l = comb(comb(l, -x.k, S(x.s)), -y.k, S(y.s))
				l = comb(l, x.k, st.bitSlice(xi.extOf, xi.extLo, xi.extN+yi.extN))
				done = false
				break pairs
			}
			if xi.extLo == 0 {
				if r := st.bitSlice(xi.extOf, 0, xi.extN); r != S(x.s) {
					l = comb(comb(l, -x.k, S(x.s)), x.k, r)
					done = false
					break
				}
			}
		}
		if done {
			return l
		}
	}
}

// bitSlice is bits [lo, lo+n) of s: s itself when it has no others.
func (st *State) bitSlice(s Sym, lo, n int) *Lin {
	src := S(s)
	if d := s.info().lindef; d != nil {
		src = d
	}
	if lo == 0 && st.ge(src) && (n >= 61 || st.ge(addK(neg(src), int64(1)<<uint(n)-1))) {
		return src
	}
	return S(st.extSym(s, lo, n))
}

func singleTerm(l *Lin) (Sym, bool) {
	if len(l.t) == 1 {
		return l.t[0].s, true
	}
	return 0, false
}

// spreadBits bounds s by its known leading bits.
func (st *State) spreadBits(s Sym) bool {
	src := S(s)
	if d := s.info().lindef; d != nil {
		src = d
	}
	w := st.bitWidth(src)
	if w <= 0 || w > 61 {
		return true
	}
	known := make([]int, w)
	for _, e := range s.info().exts {
		in := e.info()
		lo, hi := boundsOf(st.facts, e)
		if lo != hi || lo < 0 {
			continue
		}
		for i := 0; i < in.extN && in.extLo+i < w; i++ {
			known[in.extLo+i] = 1 + int(lo>>uint(i)&1)
		}
	}
	c, k := int64(0), w
	for k > 0 && known[k-1] != 0 {
		k--
		c |= int64(known[k]-1) << uint(k)
	}
	if k == w {
		return true
	}
	return st.addFact(mkFact(GE, addK(src, -c))) && st.addFact(mkFact(GE, addK(neg(src), c+int64(1)<<uint(k)-1)))
}
