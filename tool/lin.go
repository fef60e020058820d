package main

// Symbols, affine forms, and exact rational feasibility of linear inequality systems
// (the numeric domain of the abstract interpreter).

import (
	"encoding/binary"
	"fmt"
	"math/bits"
	"sort"
	"strconv"
	"strings"
)

type Sym int32

const inf = int64(1) << 62 // saturation point of interval arithmetic

type symInfo struct {
	name   string
	lo, hi int64 // -inf / inf when absent
	// derived symbols
	exts   []Sym // slices taken of it
	extOf  Sym   // value of bits [extLo, extLo+extN) of extOf
	extLo  int
	extN   int
	lindef *Lin // symbol standing for an affine form (used as source of bits)
	defs   []*Fact
	bv     BV // known bit structure, if any
}

var syms = []*symInfo{{name: "?"}}

func newSym(name string, lo, hi int64) Sym {
	syms = append(syms, &symInfo{name: name, lo: lo, hi: hi})
	return Sym(len(syms) - 1)
}

var symByKey = map[string]Sym{}

// keySym returns the symbol with this defining key, creating it on first use: two occurrences
// of the same pure term are the same symbol.
func keySym(key string, lo, hi int64) Sym {
	if s, ok := symByKey[key]; ok {
		if i := s.info(); i.lo != lo || i.hi != hi {
			return keySym(fmt.Sprintf("%s|%d|%d", key, lo, hi), lo, hi)
		}
		return s
	}
	s := newSym(key, lo, hi)
	symByKey[key] = s
	return s
}

func (s Sym) info() *symInfo { return syms[s] }
func (s Sym) String() string { return syms[s].name }

type Term struct {
	s Sym
	k int64
}

// Lin is an interned affine form c + sum k*s; equality is pointer equality.
type Lin struct {
	c   int64
	t   []Term
	key string
}

var linTab = map[string]*Lin{}

func mkLin(c int64, t []Term) *Lin {
	var sb strings.Builder
	sb.Grow(8 + 8*len(t))
	sb.WriteString(strconv.FormatInt(c, 36))
	for _, x := range t {
		sb.WriteByte('|')
		sb.WriteString(strconv.FormatInt(int64(x.s), 36))
		sb.WriteByte('*')
		sb.WriteString(strconv.FormatInt(x.k, 36))
	}
	k := sb.String()
	if l, ok := linTab[k]; ok {
		return l
	}
	l := &Lin{c: c, t: append([]Term(nil), t...), key: k}
	linTab[k] = l
	return l
}

func K(c int64) *Lin           { return mkLin(c, nil) }
func S(s Sym) *Lin             { return mkLin(0, []Term{{s, 1}}) }
func (l *Lin) isConst() bool   { return len(l.t) == 0 }
func (l *Lin) is(c int64) bool { return len(l.t) == 0 && l.c == c }
func (l *Lin) single() (Sym, bool) {
	if l.c == 0 && len(l.t) == 1 && l.t[0].k == 1 {
		return l.t[0].s, true
	}
	return 0, false
}

func (l *Lin) String() string {
	if len(l.t) == 0 {
		return fmt.Sprint(l.c)
	}
	var p []string
	for _, t := range l.t {
		switch t.k {
		case 1:
			p = append(p, t.s.String())
		case -1:
			p = append(p, "-"+t.s.String())
		default:
			p = append(p, fmt.Sprintf("%d*%s", t.k, t.s))
		}
	}
	if l.c != 0 {
		p = append(p, fmt.Sprint(l.c))
	}
	return strings.Join(p, "+")
}

func mul64(a, b int64) (int64, bool) {
	if a == 0 || b == 0 {
		return 0, true
	}
	r := a * b
	if r/b != a || (a == -1 && b == -1<<63) || (b == -1 && a == -1<<63) {
		return 0, false
	}
	return r, true
}
func add64(a, b int64) (int64, bool) {
	r := a + b
	if (a > 0 && b > 0 && r < 0) || (a < 0 && b < 0 && r >= 0) {
		return 0, false
	}
	return r, true
}

func freshLin(why string) *Lin { return S(newSym(why, -inf, inf)) }

// comb returns a + k*b.
func comb(a *Lin, k int64, b *Lin) *Lin {
	if k == 0 {
		return a
	}
	x, ok := mul64(k, b.c)
	if !ok {
		return freshLin("ovf")
	}
	c, ok := add64(a.c, x)
	if !ok {
		return freshLin("ovf")
	}
	if len(b.t) == 0 {
		return mkLin(c, a.t)
	}
	t := make([]Term, 0, len(a.t)+len(b.t))
	i, j := 0, 0
	for i < len(a.t) || j < len(b.t) {
		if j == len(b.t) || (i < len(a.t) && a.t[i].s < b.t[j].s) {
			t = append(t, a.t[i])
			i++
			continue
		}
		v, ok := mul64(k, b.t[j].k)
		if !ok {
			return freshLin("ovf")
		}
		if i < len(a.t) && a.t[i].s == b.t[j].s {
			v, ok = add64(v, a.t[i].k)
			if !ok {
				return freshLin("ovf")
			}
			i++
		}
		if v != 0 {
			t = append(t, Term{b.t[j].s, v})
		}
		j++
	}
	return mkLin(c, t)
}

func add(a, b *Lin) *Lin         { return comb(a, 1, b) }
func sub(a, b *Lin) *Lin         { return comb(a, -1, b) }
func scale(a *Lin, k int64) *Lin { return comb(K(0), k, a) }
func addK(a *Lin, c int64) *Lin  { return add(a, K(c)) }
func neg(a *Lin) *Lin            { return scale(a, -1) }
func (l *Lin) coef(s Sym) int64 {
	for _, t := range l.t {
		if t.s == s {
			return t.k
		}
	}
	return 0
}

// subst replaces symbols by affine forms.
func (l *Lin) subst(m map[Sym]*Lin) *Lin {
	r := K(l.c)
	for _, t := range l.t {
		if x, ok := m[t.s]; ok {
			r = comb(r, t.k, x)
		} else {
			r = comb(r, t.k, S(t.s))
		}
	}
	return r
}

// ---- facts

type FactOp byte

const (
	GE FactOp = iota // lin >= 0
	EQ               // lin == 0
	NE               // lin != 0
)

type Fact struct {
	op FactOp
	l  *Lin
	id int
}

var factCount int

var factTab = map[string]*Fact{}

func mkFact(op FactOp, l *Lin) *Fact {
	// canonical sign for EQ/NE, gcd reduction
	g := int64(0)
	for _, t := range l.t {
		g = gcd(g, abs64(t.k))
	}
	if g > 1 {
		switch op {
		case GE:
			nt := make([]Term, len(l.t))
			for i, t := range l.t {
				nt[i] = Term{t.s, t.k / g}
			}
			l = mkLin(floorDiv(l.c, g), nt)
		default:
			if l.c%g == 0 {
				nt := make([]Term, len(l.t))
				for i, t := range l.t {
					nt[i] = Term{t.s, t.k / g}
				}
				l = mkLin(l.c/g, nt)
			}
		}
	}
	if op != GE && len(l.t) > 0 && l.t[0].k < 0 {
		l = neg(l)
	}
	k := string(rune('0'+op)) + l.key
	if f, ok := factTab[k]; ok {
		return f
	}
	factCount++
	f := &Fact{op, l, factCount}
	factTab[k] = f
	return f
}

func (f *Fact) String() string {
	return f.l.String() + [...]string{">=0", "==0", "!=0"}[f.op]
}

func abs64(a int64) int64 {
	if a < 0 {
		return -a
	}
	return a
}
func gcd(a, b int64) int64 {
	for b != 0 {
		a, b = b, a%b
	}
	return a
}
func floorDiv(a, b int64) int64 {
	q := a / b
	if a%b != 0 && (a < 0) != (b < 0) {
		q--
	}
	return q
}

// ---- rationals with overflow detection

type rat struct{ n, d int64 }

type lpOverflow struct{}

func rmk(n, d int64) rat {
	if d < 0 {
		n, d = -n, -d
	}
	g := gcd(abs64(n), d)
	if g > 1 {
		n, d = n/g, d/g
	}
	return rat{n, d}
}
func mulO(a, b int64) int64 {
	hi, lo := bits.Mul64(uint64(abs64(a)), uint64(abs64(b)))
	if hi != 0 || lo > 1<<62 {
		panic(lpOverflow{})
	}
	if (a < 0) != (b < 0) {
		return -int64(lo)
	}
	return int64(lo)
}
func addO(a, b int64) int64 {
	r, ok := add64(a, b)
	if !ok {
		panic(lpOverflow{})
	}
	return r
}
func (a rat) mul(b rat) rat {
	g1 := gcd(abs64(a.n), b.d)
	g2 := gcd(abs64(b.n), a.d)
	return rat{mulO(a.n/g1, b.n/g2), mulO(a.d/g2, b.d/g1)}
}
func (a rat) add(b rat) rat {
	if a.d == 1 && b.d == 1 {
		return rat{addO(a.n, b.n), 1}
	}
	g := gcd(a.d, b.d)
	return rmk(addO(mulO(a.n, b.d/g), mulO(b.n, a.d/g)), mulO(a.d/g, b.d))
}
func (a rat) neg() rat      { return rat{-a.n, a.d} }
func (a rat) sub(b rat) rat { return a.add(b.neg()) }
func (a rat) inv() rat      { return rmk(a.d, a.n) }
func (a rat) cmp(b rat) int {
	x := a.sub(b)
	switch {
	case x.n < 0:
		return -1
	case x.n > 0:
		return 1
	}
	return 0
}

var rzero = rat{0, 1}

// lpFeasible reports whether the system of facts (GE, EQ only) with the symbols' bounds has a
// rational solution. Overflow or resource exhaustion answers true (feasible / unknown).
func lpFeasible(fs []*Fact, bound func(Sym) (int64, int64)) (res bool) {
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(lpOverflow); ok {
				res = true
				return
			}
			panic(r)
		}
	}()
	idx := map[Sym]int{}
	var vs []Sym
	for _, f := range fs {
		if f.l.isConst() {
			if f.op == GE && f.l.c < 0 || f.op == EQ && f.l.c != 0 {
				return false
			}
		}
		for _, t := range f.l.t {
			if _, ok := idx[t.s]; !ok {
				idx[t.s] = len(vs)
				vs = append(vs, t.s)
			}
		}
	}
	n := len(vs)
	m := 0
	for _, f := range fs {
		if !f.l.isConst() {
			m++
		}
	}
	type bd struct {
		lo, hi       rat
		hasLo, hasHi bool
	}
	N := n + m
	b := make([]bd, N)
	val := make([]rat, N)
	for i, s := range vs {
		lo, hi := bound(s)
		if lo > -inf {
			b[i].lo, b[i].hasLo = rat{lo, 1}, true
		}
		if hi < inf {
			b[i].hi, b[i].hasHi = rat{hi, 1}, true
		}
		if b[i].hasLo && b[i].hasHi && lo > hi {
			return false
		}
		switch {
		case b[i].hasLo:
			val[i] = b[i].lo
		case b[i].hasHi:
			val[i] = b[i].hi
		default:
			val[i] = rzero
		}
	}
	tab := make([][]rat, m) // row r: basic[r] = sum tab[r][j] * nonbasic[j]
	basic := make([]int, m)
	nonb := make([]int, n)
	for j := range nonb {
		nonb[j] = j
	}
	r := 0
	for _, f := range fs {
		if f.l.isConst() {
			continue
		}
		row := make([]rat, n)
		for j := range row {
			row[j] = rzero
		}
		v := rzero
		for _, t := range f.l.t {
			row[idx[t.s]] = rat{t.k, 1}
			v = v.add(rat{t.k, 1}.mul(val[idx[t.s]]))
		}
		tab[r] = row
		basic[r] = n + r
		val[n+r] = v
		b[n+r].lo, b[n+r].hasLo = rat{-f.l.c, 1}, true
		if f.op == EQ {
			b[n+r].hi, b[n+r].hasHi = rat{-f.l.c, 1}, true
		}
		r++
	}
	for iter := 0; iter < 3000; iter++ {
		// Bland: smallest violating basic variable
		br, bi := -1, 1<<30
		low := false
		for i := range basic {
			x := basic[i]
			if x >= bi {
				continue
			}
			if b[x].hasLo && val[x].cmp(b[x].lo) < 0 {
				br, bi, low = i, x, true
			} else if b[x].hasHi && val[x].cmp(b[x].hi) > 0 {
				br, bi, low = i, x, false
			}
		}
		if br < 0 {
			return true
		}
		pc, pi := -1, 1<<30
		for j := range nonb {
			a := tab[br][j]
			if a.n == 0 || nonb[j] >= pi {
				continue
			}
			x := nonb[j]
			up := (a.n > 0) == low // need x to increase
			if up && (!b[x].hasHi || val[x].cmp(b[x].hi) < 0) || !up && (!b[x].hasLo || val[x].cmp(b[x].lo) > 0) {
				pc, pi = j, x
			}
		}
		if pc < 0 {
			return false
		}
		target := b[bi].hi
		if low {
			target = b[bi].lo
		}
		a := tab[br][pc]
		theta := target.sub(val[bi]).mul(a.inv())
		val[bi] = target
		xj := nonb[pc]
		val[xj] = val[xj].add(theta)
		for i := range basic {
			if i != br && tab[i][pc].n != 0 {
				val[basic[i]] = val[basic[i]].add(tab[i][pc].mul(theta))
			}
		}
		// pivot
		ia := a.inv()
		row := tab[br]
		nr := make([]rat, n)
		for j := range row {
			if j == pc {
				nr[j] = ia
			} else if row[j].n != 0 {
				nr[j] = row[j].mul(ia).neg()
			} else {
				nr[j] = rzero
			}
		}
		tab[br] = nr
		for i := range tab {
			if i == br || tab[i][pc].n == 0 {
				continue
			}
			c := tab[i][pc]
			for j := range tab[i] {
				if j == pc {
					tab[i][j] = c.mul(nr[j])
				} else if nr[j].n != 0 {
					tab[i][j] = tab[i][j].add(c.mul(nr[j]))
				}
			}
		}
		basic[br], nonb[pc] = xj, bi
	}
	return true
}

// ---- proving under a set of facts

type factSet struct {
	f []*Fact
	m map[*Fact]bool // lazily built? small sets: linear scan
}

var proveMemo = map[string]bool{}
var lpCalls int

func boundsOf(fs []*Fact, s Sym) (int64, int64) {
	in := s.info()
	lo, hi := in.lo, in.hi
	for _, f := range fs {
		if len(f.l.t) != 1 || f.l.t[0].s != s {
			continue
		}
		k, c := f.l.t[0].k, f.l.c
		switch f.op {
		case GE: // k*s + c >= 0
			if k > 0 {
				if v := -floorDiv(c, k); v > lo {
					lo = v
				}
			} else if k != -1<<63 {
				if v := floorDiv(c, -k); v < hi {
					hi = v
				}
			}
		case EQ:
			if c%k == 0 {
				v := -c / k
				if v > lo {
					lo = v
				}
				if v < hi {
					hi = v
				}
			}
		}
	}
	return lo, hi
}

func satMul(k, v int64) int64 {
	if v >= inf || v <= -inf {
		if (k > 0) == (v > 0) {
			return inf
		}
		return -inf
	}
	r, ok := mul64(k, v)
	if !ok || r >= inf || r <= -inf {
		if (k > 0) == (v > 0) {
			return inf
		}
		return -inf
	}
	return r
}
func satAdd(a, b int64) int64 {
	if a <= -inf || b <= -inf {
		return -inf
	}
	if a >= inf || b >= inf {
		return inf
	}
	r := a + b
	if r >= inf {
		return inf
	}
	if r <= -inf {
		return -inf
	}
	return r
}

// linMin is a lower bound of l from per-symbol bounds.
func linMin(fs []*Fact, l *Lin) int64 {
	r := l.c
	if r >= inf {
		r = inf - 1
	}
	for _, t := range l.t {
		lo, hi := boundsOf(fs, t.s)
		if t.k > 0 {
			if lo <= -inf {
				return -inf
			}
			r = satAdd(r, satMul(t.k, lo))
		} else {
			if hi >= inf {
				return -inf
			}
			r = satAdd(r, satMul(t.k, hi))
		}
		if r <= -inf {
			return -inf
		}
	}
	return r
}

func proveGE(fs []*Fact, goal *Lin) bool {
	if goal.isConst() {
		return goal.c >= 0
	}
	if linMin(fs, goal) >= 0 {
		return true
	}
	ng := mkFact(GE, addK(neg(goal), -1)) // not goal
	rel := relevant(fs, ng.l)
	kb := make([]byte, 0, 4*len(rel)+4)
	kb = binary.AppendUvarint(kb, uint64(ng.id))
	for _, f := range rel {
		kb = binary.AppendUvarint(kb, uint64(f.id))
	}
	key := string(kb)
	if r, ok := proveMemo[key]; ok {
		return r
	}
	lpCalls++
	sys := append([]*Fact{ng}, rel...)
	bound := func(s Sym) (int64, int64) { in := s.info(); return in.lo, in.hi }
	r := !lpFeasible(sys, bound)
	if !r {
		// a bit in the goal is 0 or 1
		for _, t := range goal.t {
			if in := t.s.info(); in.lo == 0 && in.hi == 1 && in.extOf != 0 {
				r = !lpFeasible(append(sys[:len(sys):len(sys)], mkFact(EQ, S(t.s))), bound) &&
					!lpFeasible(append(sys[:len(sys):len(sys)], mkFact(EQ, addK(S(t.s), -1))), bound)
				break
			}
		}
	}
	proveMemo[key] = r
	return r
}

func proveEQ(fs []*Fact, l *Lin) bool {
	if l.isConst() {
		return l.c == 0
	}
	return proveGE(fs, l) && proveGE(fs, neg(l))
}

var (
	relStamp int32
	symSeen  []int32
	factSeen []int32
)

// relevant returns the facts (GE, EQ) connected to l through shared symbols, together with the
// definitional facts of derived symbols.
func relevant(fs []*Fact, l *Lin) []*Fact {
	relStamp++
	if len(symSeen) < len(syms) {
		symSeen = append(symSeen, make([]int32, len(syms)+1000-len(symSeen))...)
	}
	if len(factSeen) <= factCount {
		factSeen = append(factSeen, make([]int32, factCount+1000-len(factSeen))...)
	}
	var work []Sym
	push := func(x *Lin) {
		for _, t := range x.t {
			if symSeen[t.s] != relStamp {
				symSeen[t.s] = relStamp
				work = append(work, t.s)
			}
		}
	}
	push(l)
	var out []*Fact
	addf := func(f *Fact) {
		if factSeen[f.id] != relStamp {
			factSeen[f.id] = relStamp
			out = append(out, f)
			push(f.l)
		}
	}
	rest := make([]*Fact, 0, len(fs))
	for _, f := range fs {
		if f.op != NE {
			rest = append(rest, f)
		}
	}
	for {
		n := len(out)
		k := 0
	facts:
		for _, f := range rest {
			for _, t := range f.l.t {
				if symSeen[t.s] == relStamp {
					addf(f)
					continue facts
				}
			}
			rest[k] = f
			k++
		}
		rest = rest[:k]
		for len(work) > 0 {
			s := work[0]
			work = work[1:]
			for _, f := range s.info().defs {
				if f.op != NE {
					addf(f)
				}
			}
		}
		if len(out) == n || len(out) >= 160 {
			break
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].id < out[j].id })
	return out
}
