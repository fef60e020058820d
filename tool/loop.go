package main

// Loops: exact unrolling when it terminates quickly, otherwise an inductive head state found by
// generalising the arriving states (anti-unification) and keeping the affine equalities and linear
// inequalities that every arrival satisfies (Karr + Houdini).

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type loopPart struct {
	join    bool // the join of states at one point, not a loop head
	key     string
	entries []*State
	samples []*State
	backs   []*State
	head    *State
	gens    []*genInfo
	sig     string
	cands   map[*Fact]bool
	locVal  map[string]*Lin
	bitDead map[string]bool // bits of byte values found not to be invariant
	inst    []map[Sym]*Lin  // per arrival (entries+samples, then backs)
	isnew   bool
	shape   string
	merged  map[string]string
	split   map[[2]string]bool // positions once merged and then found different
}

type loopAlt struct {
	from, to int
	events   []*Event
	end      *State
	inst     map[Sym]*Lin
}

type loopRec struct {
	id     int
	fn     *ssa.Function
	header *ssa.BasicBlock
	pos    token.Pos
	parts  []*loopPart
	alts   []*loopAlt
	stack  string
	term   bool
	why    string
}

type genInfo struct {
	sym  Sym
	loc  string
	vals []*Lin
	fix  bool // value supplied by a non-numeric position
}

var loopInv int
var debugLoops = os.Getenv("GV_DEBUG") != ""

const maxUnroll = 12

// splitMax is how many states before a loop are followed through it one by one.
const splitMax = 2

func (e *Eng) runLoop(fr *Frame, lp *loopInfo, in []*State) []edgeState {
	if !peel || isHarness(fr.fn) {
		return e.wholeLoop(fr, lp, in)
	}
	back, exits := e.region(fr, lp, in)
	if len(back) == 0 {
		return exits
	}
	return append(exits, e.wholeLoop(fr, lp, e.merge(e.liveOnly(fr, lp, back)))...)
}

// liveOnly takes the states that return to the head of a loop, without the values not used again.
func (e *Eng) liveOnly(fr *Frame, lp *loopInfo, back []edgeState) []*State {
	var nx []*State
	live := fr.fi.live[lp.header]
	for _, b := range back {
		for i := range b.st.env {
			if b.st.env[i] != nil && !live[i] {
				b.st.env[i] = nil
			}
		}
		nx = append(nx, b.st)
	}
	return nx
}

func (e *Eng) wholeLoop(fr *Frame, lp *loopInfo, in []*State) []edgeState {
	symStart, nameStart, objStart := Sym(len(syms)-1), len(nameBorn), objCount
	// 1. exact unrolling
	mark, lmark := len(e.log), len(e.loops)
	limit := maxUnroll
	if e.noUnroll[lp.header] > 0 {
		limit = 3
	}
	counted := -1
	for i, st := range in {
		n := e.tripCount(fr, lp, st)
		if n < 0 || i > 0 && n != counted {
			counted = -1
			break
		}
		counted = n
	}
	if counted > 200 || counted > 40 && len(in) > 8 {
		limit = 1 // unrolling cannot finish; the general treatment wants samples
	} else if counted >= 0 {
		limit = counted + 1
	}
	var exits []edgeState
	cur := in
	if debugLoops {
		fmt.Println("unroll", e.fset.Position(blockPos(lp.header)), "counted", counted, "in", len(in))
	}
	var samples []*State
	exact := false
	outsMark := len(fr.outs)
	for _, s := range in {
		samples = append(samples, s.fork())
	}
	nEntry := len(samples)
	symbolic := 0
	for it := 0; it <= limit; it++ {
		back, ex := e.region(fr, lp, cur)
		exits = append(exits, ex...)
		if len(back) == 0 {
			exact = true
			break
		}
		var nx []*State
		live := fr.fi.live[lp.header]
		for _, b := range back {
			for i := range b.st.env {
				if b.st.env[i] != nil && !live[i] {
					b.st.env[i] = nil
				}
			}
			nx = append(nx, b.st)
		}
		nx = e.merge(nx)
		if debugLoops {
			fmt.Println("  it", it, len(nx), len(ex))
		}
		if len(ex) > 0 {
			symbolic++
		}
		if it < 3 && len(samples) < 40 {
			for _, s := range nx {
				if len(samples) < 60 {
					samples = append(samples, s.fork())
				}
			}
		}
		if len(nx) > 200 || counted < 0 && (len(nx) > 6*nEntry+6 || len(nx) > max(40, 2*nEntry)) {
			break
		}
		cur = nx
	}
	if exact {
		return exits
	}
	e.noUnroll[lp.header]++
	e.log = e.log[:mark]
	e.loops = e.loops[:lmark]
	fr.outs = fr.outs[:outsMark]
	if nEntry > 1 && nEntry <= splitMax && !coarse {
		// keep states apart that differ before the loop
		exits = nil
		for _, s := range samples[:nEntry] {
			exits = append(exits, e.wholeLoop(fr, lp, []*State{s})...)
		}
		return exits
	}
	return e.generalLoop(fr, lp, samples, nEntry, symStart, nameStart, objStart)
}

// tripCount is the number of iterations of a loop whose header compares a counter stepping by one
// from a constant with a constant bound; -1 if the loop is not of this kind.
func (e *Eng) tripCount(fr *Frame, lp *loopInfo, st *State) int {
	h := lp.header
	iff, ok := h.Instrs[len(h.Instrs)-1].(*ssa.If)
	if !ok || !lp.body[h.Succs[0]] || lp.body[h.Succs[1]] {
		return -1
	}
	cmp, ok := iff.Cond.(*ssa.BinOp)
	if !ok || cmp.Op != token.LSS && cmp.Op != token.LEQ {
		return -1
	}
	var num func(v ssa.Value) (int64, bool)
	num = func(v ssa.Value) (int64, bool) {
		if k, ok := v.(*ssa.Const); ok {
			if k.Value == nil || k.Value.Kind() != constant.Int {
				return 0, false
			}
			return constant.Int64Val(k.Value)
		}
		if lp.body[blockOf(v)] {
			switch x := v.(type) {
			case *ssa.BinOp:
				a, ok1 := num(x.X)
				b, ok2 := num(x.Y)
				if x.Op == token.ADD {
					return a + b, ok1 && ok2
				}
				if x.Op == token.SUB {
					return a - b, ok1 && ok2
				}
			case *ssa.Call:
				if b, okb := x.Call.Value.(*ssa.Builtin); okb && b.Name() == "len" {
					j, okj := fr.fi.num[x.Call.Args[0]]
					if okj && !lp.body[blockOf(x.Call.Args[0])] && st.env[j] != nil {
						l := st.lenOf(st.env[j], x.Call.Args[0].Type())
						if l != nil && l.isConst() {
							return l.c, true
						}
					}
				}
			}
			return 0, false
		}
		j, ok := fr.fi.num[v]
		if !ok || j >= len(st.env) {
			return 0, false
		}
		x, ok := st.env[j].(VInt)
		if !ok || !x.l.isConst() {
			return 0, false
		}
		return x.l.c, true
	}
	step := func(v ssa.Value, phi *ssa.Phi) bool {
		b, ok := v.(*ssa.BinOp)
		if !ok || b.Op != token.ADD || b.X != ssa.Value(phi) {
			return false
		}
		k, ok := b.Y.(*ssa.Const)
		return ok && k.Value != nil && k.Int64() == 1
	}
	phi, ok := cmp.X.(*ssa.Phi)
	pre := int64(0)
	if b, isAdd := cmp.X.(*ssa.BinOp); !ok && isAdd {
		if phi, ok = b.X.(*ssa.Phi); ok && step(b, phi) && b.Block() == h {
			pre = 1
		} else {
			return -1
		}
	}
	if !ok || phi.Block() != h {
		return -1
	}
	for i, p := range h.Preds {
		if lp.body[p] && !step(phi.Edges[i], phi) {
			return -1
		}
	}
	bound, ok := num(cmp.Y)
	if !ok {
		return -1
	}
	j := fr.fi.num[phi]
	x, ok := st.env[j].(VInt)
	if !ok || !x.l.isConst() {
		return -1
	}
	n := bound - (x.l.c + pre)
	if cmp.Op == token.LEQ {
		n++
	}
	if n < 0 {
		n = 0
	}
	if n > 1<<20 {
		n = 1 << 20
	}
	return int(n)
}

func blockOf(v ssa.Value) *ssa.BasicBlock {
	if in, ok := v.(ssa.Instruction); ok {
		return in.Block()
	}
	return nil
}

// enumPhis: loop-header phis fed only by constants (transitively), and boolean phis.
func enumPhis(lp *loopInfo) []*ssa.Phi {
	var r []*ssa.Phi
	for _, in := range lp.header.Instrs {
		phi, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		seen := map[ssa.Value]bool{}
		consts := map[string]bool{}
		ok = true
		var visit func(v ssa.Value)
		visit = func(v ssa.Value) {
			if seen[v] || !ok {
				return
			}
			seen[v] = true
			switch x := v.(type) {
			case *ssa.Const:
				s := "nil"
				if x.Value != nil {
					s = x.Value.ExactString()
					if x.Value.Kind() == constant.String {
						s = x.Value.String()
					}
				}
				consts[s] = true
			case *ssa.Phi:
				for _, y := range x.Edges {
					visit(y)
				}
			default:
				ok = false
			}
		}
		visit(phi)
		if ok && len(consts) <= 8 {
			r = append(r, phi)
			continue
		}
		switch phi.Type().Underlying().(type) {
		case *types.Basic:
			if phi.Type().Underlying().(*types.Basic).Info()&types.IsBoolean != 0 {
				r = append(r, phi)
			}
		case *types.Interface, *types.Pointer:
			r = append(r, phi)
		}
	}
	return r
}

func partKey(fr *Frame, phis []*ssa.Phi, st *State) string {
	var p []string
	for _, phi := range phis {
		v := st.env[fr.fi.num[phi]]
		s := "?"
		switch x := v.(type) {
		case VBool:
			if x.c.cst != 0 {
				s = fmt.Sprint(x.c.cst)
			}
		case VInt:
			if x.l.isConst() {
				s = fmt.Sprint(x.l.c)
			}
		case VStr:
			if c, ok := x.q.constStr(); ok {
				s = "s" + c
			}
		case VNil:
			s = "nil"
		case VPtr:
			if x.nilS == 0 {
				s = "nn"
			}
		case VIface:
			if x.dyn != nil {
				s = "d" + x.dyn.String()
			} else if x.nilS == 0 {
				s = "nn"
			}
		}
		p = append(p, s)
	}
	return strings.Join(p, ",")
}

func traceKeyN(t []*Event, n int) string {
	var sb strings.Builder
	for i := 0; i < n && i < len(t); i++ {
		sb.WriteString(t[i].key())
		sb.WriteByte(';')
	}
	return sb.String()
}

func (e *Eng) generalLoop(fr *Frame, lp *loopInfo, arrivals []*State, nEntry int, symStart Sym, nameStart int, objStart ObjID) []edgeState {
	loopInv++
	inv := loopInv
	e.symMark[inv] = symStart
	e.nameMark[inv] = nameStart
	e.objMark[inv] = objStart
	rec := &loopRec{id: inv, fn: fr.fn, header: lp.header, pos: blockPos(lp.header), stack: fr.stack()}
	phis := enumPhis(lp)
	star := &Event{kind: "star", loop: rec, pos: rec.pos, fn: fr.fn}
	// sample traces extend their entry's trace; recover the entry prefix length by the shortest common rule:
	// every arrival derives from some entry whose trace is a prefix of its own.
	prefixOf := func(s *State) int {
		best := -1
		for _, en := range arrivals[:nEntry] {
			n := len(en.trace)
			if n > best && n <= len(s.trace) {
				ok := true
				for i := n - 1; i >= 0; i-- {
					if en.trace[i] != s.trace[i] {
						ok = false
						break
					}
				}
				if ok {
					best = n
				}
			}
		}
		if best < 0 {
			best = len(s.trace)
		}
		return best
	}
	parts := map[string]*loopPart{}
	var order []string
	getPart := func(k string) *loopPart {
		p := parts[k]
		if p == nil {
			p = &loopPart{key: k, cands: map[*Fact]bool{}, isnew: true, split: map[[2]string]bool{}, merged: map[string]string{}}
			parts[k] = p
			order = append(order, k)
			if len(order) > 40 {
				panic(engAbort{"too many loop partitions at " + e.fset.Position(rec.pos).String()})
			}
		}
		return p
	}
	pre := make([]int, len(arrivals))
	for i, s := range arrivals {
		pre[i] = prefixOf(s)
	}
	for i, s := range arrivals {
		n := pre[i]
		k := partKey(fr, phis, s) + "|" + traceKeyN(s.trace, n)
		p := getPart(k)
		s.trace = append(s.trace[:n:n], star)
		if i < nEntry {
			p.entries = append(p.entries, s)
		} else {
			p.samples = append(p.samples, s)
		}
	}
	entryFacts := joinAllFacts(arrivals[:nEntry])
	mark, lmark, omark := len(e.log), len(e.loops), len(fr.outs)
	var exits []edgeState
	type backT struct {
		from string
		st   *State
	}
	var backs []backT
	for round := 0; ; round++ {
		if round > 24 {
			panic(engAbort{"loop analysis did not converge at " + e.fset.Position(rec.pos).String()})
		}
		changed := false
		for _, k := range order {
			p := parts[k]
			oldSig := p.sig
			ef := entryFacts
			own := len(p.entries) > 0 && len(p.samples) == 0 && len(p.backs) == 0
			if own {
				// only reached from outside: all that is known of those arrivals holds
				ef = joinAllFacts(p.entries)
			}
			e.generalise(loopEnv(fr, lp), inv, p, ef, round)
			if own {
				p.sig += "|own"
			}
			if p.sig != oldSig {
				changed = true
			}
		}
		if !changed {
			break
		}
		if debugLoops {
			for i, k := range order {
				p := parts[k]
				fmt.Fprintf(os.Stderr, "loop %s round %d part %d (%d arrivals, %d backs)\n", e.fset.Position(rec.pos), round, i, len(p.entries)+len(p.samples), len(p.backs))
				for _, g := range p.gens {
					fmt.Fprintf(os.Stderr, "   gen %s = %v\n", g.sym, g.vals)
				}
				for _, f := range p.head.facts {
					fmt.Fprintf(os.Stderr, "   fact %s\n", f)
				}
			}
		}
		e.log, e.loops, fr.outs = e.log[:mark], e.loops[:lmark], fr.outs[:omark]
		exits, backs = nil, nil
		for _, k := range append([]string(nil), order...) {
			p := parts[k]
			h := p.head.fork()
			b, x := e.region(fr, lp, []*State{h})
			exits = append(exits, x...)
			live := fr.fi.live[lp.header]
			var bs []*State
			for _, y := range b {
				for i := range y.st.env {
					if y.st.env[i] != nil && !live[i] {
						y.st.env[i] = nil
					}
				}
				bs = append(bs, y.st)
			}
			for _, s := range e.merge(bs) {
				backs = append(backs, backT{k, s})
			}
		}
		for _, k := range order {
			parts[k].backs = nil
		}
		for _, b := range backs {
			pre := b.from[strings.Index(b.from, "|")+1:]
			k := partKey(fr, phis, b.st) + "|" + pre
			p := getPart(k)
			p.backs = append(p.backs, b.st)
		}
	}
	// final record
	idx := map[string]int{}
	for i, k := range order {
		idx[k] = i
		rec.parts = append(rec.parts, parts[k])
	}
	for i, k := range order {
		p := parts[k]
		_ = i
		nArr := len(p.entries) + len(p.samples)
		for j, b := range p.backs {
			from := ""
			for _, x := range backs {
				if x.st == b {
					from = x.from
				}
			}
			n := 0
			for n < len(b.trace) && b.trace[n] != star {
				n++
			}
			alt := &loopAlt{from: idx[from], to: idx[k], end: b, inst: p.inst[nArr+j]}
			if n < len(b.trace) {
				alt.events = b.trace[n+1:]
			}
			rec.alts = append(rec.alts, alt)
		}
	}
	// a state leaving the loop keeps only the star event of the loop plus the events of its last partial iteration
	rec.checkTermination(e)
	e.loops = append(e.loops, rec)
	o := &Oblig{kind: "terminate", pos: rec.pos, fn: fr.fn, ok: rec.term, why: rec.why, stack: rec.stack, loop: rec}
	e.log = append(e.log, o)
	return exits
}

func joinAllFacts(sts []*State) []*Fact {
	if len(sts) == 0 {
		return nil
	}
	t := sts[0].fork0()
	for _, s := range sts[1:] {
		t = joinFacts(t, s)
	}
	return append([]*Fact(nil), t.facts...)
}

// ---- generalisation

type gener struct {
	e       *Eng
	inv     int
	p       *loopPart
	arr     []*State
	head    *State
	memo    map[string]*genInfo
	gens    []*genInfo
	objs    map[string]ObjID
	done    map[ObjID]bool
	locVal  map[string]*Lin
	sig     strings.Builder
	noEntry bool
}

var genObjIDs = map[string]ObjID{}

func (g *gener) genSym(loc string, lo, hi int64) Sym {
	return keySym(fmt.Sprintf("g%d:%s", g.inv, loc), lo, hi)
}

// present lists indices with non-nil values.
func present[T any](vs []T, isNil func(T) bool) []int {
	var r []int
	for i, v := range vs {
		if !isNil(v) {
			r = append(r, i)
		}
	}
	return r
}

func (g *gener) lin(loc string, ls []*Lin, lo, hi int64) *Lin {
	first := ls[0]
	all := first != nil && (!g.noEntry || g.visible(first))
	for i, l := range ls {
		if l == nil {
			continue
		}
		if first == nil || l != first && !(all && g.arr[i].eq(l, first)) {
			all = false
			break
		}
	}
	if all {
		g.locVal[loc] = first
		return first
	}
	var kb strings.Builder
	for _, l := range ls {
		if l == nil {
			kb.WriteString("-;")
		} else {
			kb.WriteString(l.key + ";")
		}
	}
	if m, ok := g.memo[kb.String()]; ok {
		if in := m.sym.info(); in.lo >= lo && in.hi <= hi {
			g.locVal[loc] = S(m.sym)
			return S(m.sym)
		}
	}
	// a position that provably equals an earlier one at every arrival shares its symbol
	for _, m := range g.gens {
		if in := m.sym.info(); in.lo < lo || in.hi > hi || g.p.split[[2]string{m.loc, loc}] {
			continue
		}
		if g.sameAt(m.vals, ls) {
			g.p.merged[loc] = m.loc
			g.locVal[loc] = S(m.sym)
			return S(m.sym)
		}
	}
	if o, ok := g.p.merged[loc]; ok {
		g.p.split[[2]string{o, loc}] = true
		delete(g.p.merged, loc)
	}
	m := &genInfo{sym: g.genSym(loc, lo, hi), loc: loc, vals: ls}
	g.memo[kb.String()] = m
	g.gens = append(g.gens, m)
	g.locVal[loc] = S(m.sym)
	return S(m.sym)
}

func (g *gener) sameAt(a, b []*Lin) bool {
	for i, x := range a {
		y := b[i]
		if g.noEntry && i == 0 {
			continue
		}
		if (x == nil) != (y == nil) {
			return false
		}
		if x == nil {
			continue
		}
		if !g.arr[i].eq(x, y) {
			return false
		}
	}
	return true
}

func (g *gener) val(loc string, vs []Val, t types.Type) Val {
	// identical everywhere
	f0 := vs[0]
	if g.noEntry {
		f0 = nil
		for _, v := range vs[1:] {
			if v != nil {
				f0 = v
				break
			}
		}
		// a value may be kept only if it mentions nothing of the previous iteration
		if f0 != nil && !g.visVal(f0) {
			f0 = nil
		}
	}
	if f0 != nil {
		k0 := vkey(f0)
		same := true
		for i, v := range vs {
			if g.noEntry && i == 0 {
				continue
			}
			if v != nil && vkey(v) != k0 {
				same = false
				break
			}
		}
		if same {
			g.visitObjs(f0)
			if x, ok := f0.(VInt); ok {
				g.locVal[loc] = x.l
			}
			return f0
		}
	}
	kinds := map[string]bool{}
	nilMix := false
	for _, v := range vs {
		if v == nil {
			continue
		}
		if _, ok := v.(VNil); ok {
			nilMix = true
			continue
		}
		kinds[fmt.Sprintf("%T", v)] = true
	}
	unk := func() Val {
		name := fmt.Sprintf("gv%d:%s", g.inv, loc)
		if t == nil {
			return VOpaque{name}
		}
		v := unknown(t, name)
		return v
	}
	if len(kinds) != 1 {
		return unk()
	}
	n := len(vs)
	lins := func(f func(v Val) *Lin) []*Lin {
		r := make([]*Lin, n)
		for i, v := range vs {
			if v != nil {
				r[i] = f(v)
			}
		}
		return r
	}
	// nil-ness of a reference position
	nilSym := func(nilOf func(v Val) Sym) Sym {
		anyNil := nilMix
		for _, v := range vs {
			if v == nil {
				continue
			}
			if _, ok := v.(VNil); !ok && nilOf(v) != 0 {
				anyNil = true
			}
		}
		if !anyNil {
			return 0
		}
		l := g.lin(loc+".nil", lins(func(v Val) *Lin {
			if _, ok := v.(VNil); ok {
				return K(1)
			}
			if s := nilOf(v); s != 0 {
				return S(s)
			}
			return K(0)
		}), 0, 1)
		if s, ok := l.single(); ok {
			return s
		}
		if l.is(0) {
			return 0
		}
		s := newSym("nil", 1, 1)
		return s
	}
	objs := func(f func(v Val) ObjID) []ObjID {
		r := make([]ObjID, n)
		for i, v := range vs {
			if v == nil {
				continue
			}
			if _, ok := v.(VNil); ok {
				continue
			}
			r[i] = f(v)
		}
		return r
	}
	var sampleV Val
	for _, v := range vs {
		if v == nil {
			continue
		}
		if _, ok := v.(VNil); !ok {
			sampleV = v
			break
		}
	}
	switch sv := sampleV.(type) {
	case VInt:
		lo, hi := -inf, inf
		if t != nil {
			lo, hi = typeRange(t)
		}
		return VInt{g.lin(loc, lins(func(v Val) *Lin { return v.(VInt).l }), lo, hi)}
	case VBool:
		l := g.lin(loc, lins(func(v Val) *Lin {
			c := v.(VBool).c
			switch c.cst {
			case 1:
				return K(1)
			case -1:
				return K(0)
			}
			if c.f.op == EQ && len(c.f.l.t) == 1 && c.f.l.t[0].k == 1 && c.f.l.c == -1 && c.f.l.t[0].s.info().hi == 1 {
				return S(c.f.l.t[0].s)
			}
			return S(newSym("b?", 0, 1))
		}), 0, 1)
		return VBool{condEQ(addK(l, -1))}
	case VFloat:
		return VFloat{fmt.Sprintf("gf%d:%s", g.inv, loc)}
	case VStr:
		qs := make([]Seq, n)
		has := make([]bool, n)
		for i, v := range vs {
			if v != nil {
				qs[i], has[i] = v.(VStr).q, true
			}
		}
		return VStr{g.seq(loc, qs, has)}
	case VPtr:
		path := fmt.Sprint(sv.path)
		for _, v := range vs {
			if p, ok := v.(VPtr); ok {
				if fmt.Sprint(p.path) != path || (p.idx == nil) != (sv.idx == nil) {
					return unk()
				}
			}
		}
		r := VPtr{path: sv.path}
		r.obj = g.obj(loc+"*", objs(func(v Val) ObjID { return v.(VPtr).obj }))
		if r.obj == 0 {
			return unk()
		}
		if sv.idx != nil {
			r.idx = g.lin(loc+".idx", lins(func(v Val) *Lin {
				if p, ok := v.(VPtr); ok {
					return p.idx
				}
				return nil
			}), -inf, inf)
		}
		r.nilS = nilSym(func(v Val) Sym { return v.(VPtr).nilS })
		return r
	case VArr:
		id := g.obj(loc+"*", objs(func(v Val) ObjID { return v.(VArr).obj }))
		if id == 0 {
			return unk()
		}
		return VArr{id}
	case VSlice:
		r := VSlice{}
		ids := objs(func(v Val) ObjID { return v.(VSlice).obj })
		for i, v := range vs {
			if _, ok := v.(VNil); ok {
				ids[i] = nilObj
			}
		}
		r.obj = g.obj(loc+"*", ids)
		if r.obj == 0 {
			return unk()
		}
		get := func(f func(s VSlice) *Lin) func(v Val) *Lin {
			return func(v Val) *Lin {
				if s, ok := v.(VSlice); ok {
					return f(s)
				}
				return K(0)
			}
		}
		r.off = g.lin(loc+".off", lins(get(func(s VSlice) *Lin { return s.off })), 0, maxLen)
		r.len = g.lin(loc+".len", lins(get(func(s VSlice) *Lin { return s.len })), 0, maxLen)
		r.cap = g.lin(loc+".cap", lins(get(func(s VSlice) *Lin { return s.cap })), 0, maxLen)
		r.nilS = nilSym(func(v Val) Sym { return v.(VSlice).nilS })
		return r
	case VMap:
		r := VMap{}
		r.obj = g.obj(loc+"*", objs(func(v Val) ObjID { return v.(VMap).obj }))
		if r.obj == 0 {
			return unk()
		}
		r.nilS = nilSym(func(v Val) Sym { return v.(VMap).nilS })
		return r
	case VIface:
		sameDyn := sv.dyn != nil
		for _, v := range vs {
			if v == nil {
				continue
			}
			i, ok := v.(VIface)
			if !ok || i.dyn == nil || sv.dyn == nil || !types.Identical(i.dyn, sv.dyn) {
				sameDyn = false
			}
		}
		if sameDyn {
			in := make([]Val, n)
			for i, v := range vs {
				if v != nil {
					in[i] = v.(VIface).val
				}
			}
			return VIface{dyn: sv.dyn, val: g.val(loc+".val", in, sv.dyn)}
		}
		// identity lost; nil-ness kept
		id := fmt.Sprintf("gi%d:%s", g.inv, loc)
		anyNil := nilMix
		for _, v := range vs {
			if i, ok := v.(VIface); ok && i.dyn == nil && i.nilS != 0 {
				anyNil = true
			}
		}
		if !anyNil {
			return VIface{id: id}
		}
		l := g.lin(loc+".typ", lins(func(v Val) *Lin {
			if i, ok := v.(VIface); ok {
				if i.dyn != nil {
					return K(typeNum(i.dyn))
				}
				if i.nilS != 0 {
					return S(i.nilS)
				}
				return S(keySym("typ("+i.id+")", 1, inf))
			}
			return K(0)
		}), 0, inf)
		s, ok := l.single()
		if !ok {
			s = newSym("typ", 0, inf)
			s.info().defs = append(s.info().defs, mkFact(EQ, sub(S(s), l)))
		}
		return VIface{id: id, nilS: s}
	case VFunc:
		return unk()
	case VTuple:
		r := make([]Val, len(sv.v))
		for k := range r {
			in := make([]Val, n)
			for i, v := range vs {
				if v != nil {
					in[i] = v.(VTuple).v[k]
				}
			}
			var et types.Type
			if tt, ok := t.(*types.Tuple); ok && k < tt.Len() {
				et = tt.At(k).Type()
			}
			r[k] = g.val(fmt.Sprintf("%s.%d", loc, k), in, et)
		}
		return VTuple{r}
	case VStruct:
		r := make([]Val, len(sv.f))
		var st *types.Struct
		if t != nil {
			st, _ = t.Underlying().(*types.Struct)
		}
		for k := range r {
			in := make([]Val, n)
			for i, v := range vs {
				if x, ok := v.(VStruct); ok && k < len(x.f) {
					in[i] = x.f[k]
				}
			}
			var et types.Type
			if st != nil {
				et = st.Field(k).Type()
			}
			r[k] = g.val(fmt.Sprintf("%s.%d", loc, k), in, et)
		}
		return VStruct{r}
	case VReflect:
		in := make([]Val, n)
		for i, v := range vs {
			if v != nil {
				in[i] = v.(VReflect).x
			}
		}
		return VReflect{g.val(loc+".r", in, nil)}
	case VBytes:
		qs := make([]Seq, n)
		has := make([]bool, n)
		for i, v := range vs {
			if v != nil {
				qs[i], has[i] = v.(VBytes).q, true
			}
		}
		return VBytes{g.seq(loc, qs, has)}
	}
	return unk()
}

// visName: the name was in use before the loop started.
func (g *gener) visName(id string) bool {
	if id == "" || id[0] >= '0' && id[0] <= '9' || strings.HasPrefix(id, "zero:") || strings.HasPrefix(id, "const ") {
		return true
	}
	n, ok := nameBorn[id]
	return ok && n <= g.e.nameMark[g.inv]
}

func (g *gener) visSeq(q Seq) bool {
	for _, s := range q {
		for _, l := range []*Lin{s.v, s.off, s.n} {
			if l != nil && !g.visible(l) {
				return false
			}
		}
		if s.k == sBlob && !g.visName(s.b) {
			return false
		}
	}
	return true
}

// visVal: the value mentions only symbols and names that existed before the loop started.
func (g *gener) visVal(v Val) bool {
	switch x := v.(type) {
	case nil, VNil:
		return true
	case VInt:
		return g.visible(x.l)
	case VBool:
		return x.c.cst != 0 || g.visible(x.c.f.l)
	case VFloat:
		return g.visName(x.t)
	case VStr:
		return g.visSeq(x.q)
	case VBytes:
		return g.visSeq(x.q)
	case VPtr:
		return g.entrySym(x.nilS) && (x.idx == nil || g.visible(x.idx))
	case VSlice:
		return g.entrySym(x.nilS) && g.visible(x.off) && g.visible(x.len) && g.visible(x.cap)
	case VMap:
		return g.entrySym(x.nilS)
	case VArr:
		return true
	case VIface:
		if x.dyn != nil {
			return g.visVal(x.val)
		}
		return g.visName(x.id) && g.entrySym(x.nilS)
	case VFunc:
		for _, b := range x.bind {
			if !g.visVal(b) {
				return false
			}
		}
		return g.visName(x.id) && g.entrySym(x.nilS)
	case VTuple:
		for _, b := range x.v {
			if !g.visVal(b) {
				return false
			}
		}
		return true
	case VStruct:
		for _, b := range x.f {
			if !g.visVal(b) {
				return false
			}
		}
		return true
	case VOpaque:
		return g.visName(x.id)
	case VReflect:
		return g.visVal(x.x)
	case VElems:
		return g.visObj(x.o)
	}
	return false
}

func (g *gener) visObj(o *Obj) bool {
	for _, l := range []*Lin{o.len, o.mlen, o.pos} {
		if l != nil && !g.visible(l) {
			return false
		}
	}
	for _, x := range o.el {
		if !g.visible(x.idx) || !g.visVal(x.v) {
			return false
		}
	}
	for i := range o.mk {
		if !g.visVal(o.mk[i]) || !g.visVal(o.mv[i]) {
			return false
		}
	}
	return g.visVal(o.v) && g.visSeq(o.q) && g.visSeq(o.sq) && g.visName(o.dflt) && g.visName(o.mbase) && g.visName(o.src)
}

// visitObjs generalises, in place, the objects an unchanged value refers to.
func (g *gener) visitObjs(v Val) {
	sub := &State{heap: g.arr[0].heap, env: []Val{v}}
	for id := range sub.reach0() {
		g.inPlace(id)
	}
}

// reach0: objects directly referenced by the env values.
func (st *State) reach0() map[ObjID]bool {
	r := map[ObjID]bool{}
	var visit func(v Val)
	visit = func(v Val) {
		switch x := v.(type) {
		case VPtr:
			r[x.obj] = true
		case VSlice:
			r[x.obj] = true
		case VMap:
			r[x.obj] = true
		case VArr:
			r[x.obj] = true
		case VIface:
			visit(x.val)
		case VFunc:
			for _, b := range x.bind {
				visit(b)
			}
		case VTuple:
			for _, b := range x.v {
				visit(b)
			}
		case VStruct:
			for _, b := range x.f {
				visit(b)
			}
		case VReflect:
			visit(x.x)
		}
	}
	for _, v := range st.env {
		visit(v)
	}
	delete(r, 0)
	return r
}

func (g *gener) exists(s *State, id ObjID) bool {
	if _, ok := s.heap[id]; ok {
		return true
	}
	if _, ok := baseHeap[id]; ok {
		return true
	}
	_, ok := lazyObjs[id]
	return ok
}

func (g *gener) inPlace(id ObjID) {
	if id == 0 || g.done[id] {
		return
	}
	g.done[id] = true
	touched := false
	for _, s := range g.arr {
		if _, ok := s.heap[id]; ok {
			touched = true
		}
	}
	if !touched {
		return
	}
	os := make([]*Obj, len(g.arr))
	same := true
	for i, s := range g.arr {
		if g.exists(s, id) {
			os[i] = s.obj(id)
		}
		if os[i] != os[0] {
			same = false
		}
	}
	if os[0] == nil {
		return
	}
	if same && (!g.noEntry || g.visObj(os[0])) {
		g.visitObj(os[0])
		g.head.heap[id] = os[0]
		return
	}
	g.head.heap[id] = g.content(fmt.Sprintf("o%d", id), os)
}

func (g *gener) visitObj(o *Obj) {
	g.visitObjs(o.v)
	for _, x := range o.el {
		g.visitObjs(x.v)
	}
	for i := range o.mk {
		g.visitObjs(o.mk[i])
		g.visitObjs(o.mv[i])
	}
}

func (g *gener) obj(loc string, ids []ObjID) ObjID {
	first := ObjID(0)
	same := true
	for _, id := range ids {
		if id <= 0 {
			continue
		}
		if first == 0 {
			first = id
		} else if id != first {
			same = false
		}
	}
	if first == 0 {
		return 0
	}
	if same && g.exists(g.arr[0], first) {
		_, lazy := lazyObjs[first]
		_, base := baseHeap[first]
		if !g.noEntry || lazy || base || first <= g.e.objMark[g.inv] {
			g.inPlace(first)
			return first
		}
	}
	k := fmt.Sprint(ids)
	if id, ok := g.objs[k]; ok {
		return id
	}
	gk := fmt.Sprintf("%d:%s", g.inv, loc)
	id, ok := genObjIDs[gk]
	if !ok {
		objCount++
		id = objCount
		genObjIDs[gk] = id
	}
	g.objs[k] = id
	g.done[id] = true
	os := make([]*Obj, len(ids))
	for i, x := range ids {
		if x > 0 {
			os[i] = g.arr[i].obj(x)
		}
	}
	for i, x := range ids {
		// a nil byte slice holds the empty sequence
		if f := g.arrObj(ids, first); x == nilObj && f.kind == oBytes {
			os[i] = &Obj{kind: oBytes, typ: f.typ}
		}
	}
	g.head.heap[id] = &Obj{kind: oOpaque}
	g.head.heap[id] = g.content(fmt.Sprintf("O(%s)", loc), os)
	return id
}

// nilObj stands for the object of a nil slice.
const nilObj ObjID = -1

// arrObj is object id in an arrival that refers to it.
func (g *gener) arrObj(ids []ObjID, id ObjID) *Obj {
	for i, x := range ids {
		if x == id {
			return g.arr[i].obj(x)
		}
	}
	return &Obj{kind: oOpaque}
}

func (g *gener) content(loc string, os []*Obj) *Obj {
	var f *Obj
	for _, o := range os {
		if o != nil {
			f = o
			break
		}
	}
	for _, o := range os {
		if o != nil && o.kind != f.kind {
			return &Obj{kind: oOpaque, name: loc}
		}
	}
	n := len(os)
	r := &Obj{kind: f.kind, typ: f.typ, name: f.name}
	vals := func(fn func(o *Obj) Val) []Val {
		v := make([]Val, n)
		for i, o := range os {
			if o != nil {
				v[i] = fn(o)
			}
		}
		return v
	}
	lins := func(fn func(o *Obj) *Lin) ([]*Lin, bool) {
		v := make([]*Lin, n)
		all := true
		for i, o := range os {
			if o != nil {
				v[i] = fn(o)
				if v[i] == nil {
					all = false
				}
			}
		}
		return v, all
	}
	seqs := func(fn func(o *Obj) Seq) ([]Seq, []bool) {
		v := make([]Seq, n)
		h := make([]bool, n)
		for i, o := range os {
			if o != nil {
				v[i], h[i] = fn(o), true
			}
		}
		return v, h
	}
	switch f.kind {
	case oCell:
		r.v = g.val(loc, vals(func(o *Obj) Val { return o.v }), f.typ)
	case oBytes, oBuf:
		q, h := seqs(func(o *Obj) Seq { return o.q })
		r.q = g.seq(loc, q, h)
	case oElems:
		ls, _ := lins(func(o *Obj) *Lin { return o.len })
		r.len = g.lin(loc+".len", ls, 0, maxLen)
		sameDflt := true
		for _, o := range os {
			if o != nil && o.dflt != f.dflt {
				sameDflt = false
			}
		}
		common := true
		for _, o := range os {
			if o == nil {
				continue
			}
			if len(o.el) != len(f.el) {
				common = false
				break
			}
			for k := range o.el {
				if o.el[k].idx != f.el[k].idx {
					common = false
					break
				}
			}
			if !common {
				break
			}
		}
		if sameDflt && common {
			r.dflt = f.dflt
			for k := range f.el {
				v := g.val(fmt.Sprintf("%s[%d]", loc, k), vals(func(o *Obj) Val { return o.el[k].v }), f.typ)
				r.el = append(r.el, Elem{f.el[k].idx, v})
			}
			break
		}
		r.dflt = fmt.Sprintf("ge%d:%s", g.inv, loc)
		// elements at places fixed before the loop and known everywhere survive
		if os[0] != nil {
			for _, x := range f.el {
				if !x.idx.isConst() && !g.visible(x.idx) {
					continue
				}
				vs := make([]Val, n)
				ok := true
				for i, o := range os {
					if o == nil {
						continue
					}
					if vs[i] = g.arr[i].knownElem(o, x.idx); vs[i] == nil {
						ok = false
					}
				}
				if ok {
					r.el = append(r.el, Elem{x.idx, g.val(fmt.Sprintf("%s[%s]", loc, x.idx), vs, f.typ)})
				}
			}
		}
		g.escapees(os)
	case oMap:
		ls, _ := lins(func(o *Obj) *Lin { return o.mlen })
		r.mlen = g.lin(loc+".mlen", ls, 0, maxLen)
		same := true
		k0 := ""
		for i, o := range os {
			if o == nil {
				continue
			}
			k := o.mbase
			for j := range o.mk {
				k += ";" + vkey(o.mk[j]) + "=" + vkey(o.mv[j])
			}
			if i == 0 || k0 == "" {
				k0 = k + "!"
			} else if k0 != k+"!" {
				same = false
			}
		}
		if same {
			r.mk, r.mv, r.mbase = f.mk, f.mv, f.mbase
			g.visitObj(f)
		} else {
			r.mbase = fmt.Sprintf("gm%d:%s", g.inv, loc)
			g.escapees(os)
		}
	case oReader:
		r.v, r.src, r.known, r.sq, r.len = f.v, f.src, f.known, f.sq, f.len
		r.mk, r.mv, r.mlen = f.mk, f.mv, f.mlen
		for _, o := range os {
			if o != nil && (len(o.mk) != len(f.mk) || o.mlen != f.mlen) {
				r.mk, r.mv, r.mlen = nil, nil, nil
				break
			}
			for i := range f.mk {
				if o != nil && r.mlen != nil && vkey(o.mk[i]) != vkey(f.mk[i]) {
					r.mk, r.mv, r.mlen = nil, nil, nil
				}
			}
		}
		for _, o := range os {
			if o == nil {
				continue
			}
			if o.src != f.src || o.known != f.known || o.sq.key() != f.sq.key() || vkey(o.v) != vkey(f.v) || o.len != f.len {
				// a different source: forget it (readers over sub-slices made in each iteration)
				if f.known && o.known {
					q, h := seqs(func(o *Obj) Seq { return o.sq })
					r.sq = g.seq(loc+".sq", q, h)
					break
				}
				return &Obj{kind: oReader, typ: f.typ, src: fmt.Sprintf("gr%d:%s", g.inv, loc), pos: K(0)}
			}
		}
		ls, _ := lins(func(o *Obj) *Lin { return o.pos })
		r.pos = g.lin(loc+".pos", ls, 0, maxLen)
		g.visitObjs(f.v)
	}
	return r
}

// escapees: objects held by dropped element lists stay reachable in some iteration; generalise those
// visible at entry so later writes through other references are not lost.
func (g *gener) escapees(os []*Obj) {
	for i, o := range os {
		if o == nil || i > 0 {
			continue
		}
		g.visitObj(o)
	}
}

func (g *gener) seq(loc string, qs []Seq, has []bool) Seq {
	for i := range qs {
		if has[i] {
			qs[i] = g.arr[i].norm(qs[i])
		}
	}
	var idx []int
	for i := range qs {
		if has[i] {
			idx = append(idx, i)
		}
	}
	if len(idx) == 0 {
		return nil
	}
	sz := make([]*Lin, len(qs))
	for _, i := range idx {
		sz[i] = qs[i].size()
	}
	entry := has[0]
	if !entry {
		n := g.lin(loc+".n", sz, 0, maxLen)
		return blob(fmt.Sprintf("gb%d:%s", g.inv, loc), K(0), n)
	}
	same := true
	for _, i := range idx {
		if qs[i].key() != qs[0].key() && !g.arr[i].seqEq(qs[i], qs[0]) {
			same = false
		}
	}
	if same {
		return qs[0]
	}
	// common prefix / suffix
	pre := 0
	for {
		ok := true
		splitFills(qs, idx, pre)
		for _, i := range idx {
			if pre >= len(qs[i]) || pre >= len(qs[0]) || qs[i][pre].key() != qs[0][pre].key() {
				ok = false
				break
			}
		}
		if !ok {
			break
		}
		pre++
	}
	if r := g.filled(loc, qs, idx, pre); r != nil {
		return append(append(Seq(nil), qs[0][:pre]...), r...)
	}
	suf := 0
	for {
		ok := true
		for _, i := range idx {
			a, b := len(qs[i])-1-suf, len(qs[0])-1-suf
			if a < pre || b < pre || qs[i][a].key() != qs[0][b].key() {
				ok = false
				break
			}
		}
		if !ok {
			break
		}
		suf++
	}
	mids := make([]Seq, len(qs))
	for _, i := range idx {
		mids[i] = qs[i][pre : len(qs[i])-suf]
	}
	var out Seq
	out = append(out, qs[0][:pre]...)
	out = append(out, g.mid(loc, mids, has, idx)...)
	out = append(out, qs[0][len(qs[0])-suf:]...)
	return out
}

// splitFills cuts the runs of one constant value at pre to the length of the shortest.
func splitFills(qs []Seq, idx []int, pre int) {
	var v *Lin
	min := int64(-1)
	for _, i := range idx {
		if pre >= len(qs[i]) {
			return
		}
		s := qs[i][pre]
		n := s.size()
		if s.k != sByte && s.k != sFill || !n.isConst() || v != nil && s.v != v {
			return
		}
		v = s.v
		if min < 0 || n.c < min {
			min = n.c
		}
	}
	for _, i := range idx {
		s := qs[i][pre]
		if n := s.size().c; n > min {
			q := append(Seq(nil), qs[i][:pre]...)
			q = append(q, cutFill(v, min), cutFill(v, n-min))
			qs[i] = append(q, qs[i][pre+1:]...)
		}
	}
}

func cutFill(v *Lin, n int64) Seg {
	if n == 1 {
		return Seg{k: sByte, v: v}
	}
	return Seg{k: sFill, v: v, n: K(n)}
}

var dbgFill = os.Getenv("GV_FILL") != ""

// filled recognises a fixed-size sequence that the loop overwrites from the front, with one byte value or
// with a run of one source: the part written so far, followed by bytes not written yet.
func (g *gener) filled(loc string, qs []Seq, idx []int, pre int) Seq {
	if dbgFill {
		for _, i := range idx {
			println("FILL", loc, i, qs[i][pre:].key())
		}
	}
	if len(idx) < 3 {
		return nil
	}
	total := qs[0][pre:].size()
	if !g.visible(total) {
		return nil
	}
	var run *Seg
	ks := make([]*Lin, len(qs))
	last := int64(-1)
	distinct := 0
	for _, i := range idx {
		q := qs[i][pre:]
		if !g.arr[i].eq(q.size(), total) {
			return nil
		}
		if i == 0 {
			ks[i], last, distinct = K(0), 0, 1
			continue
		}
		if len(q) == 0 {
			return nil
		}
		s := q[0]
		if s.k == sByte {
			s = Seg{k: sFill, v: s.v, n: K(1)}
		}
		for _, t := range q[1:] {
			if s.k != sFill || t.k == sBlob || t.v != s.v {
				break
			}
			s.n = add(s.n, t.size())
		}
		if run == nil {
			if s.k == sBlob && !g.visible(s.off) {
				return nil
			}
			r := s
			run = &r
		} else if s.k != run.k || s.k == sFill && s.v != run.v || s.k == sBlob && (s.b != run.b || s.off != run.off) {
			return nil
		}
		k := s.n
		if k.isConst() {
			// the shortest written part that explains the rest
			for j := last + 1; j < k.c && j <= 64; j++ {
				a, ok1 := g.arr[i].slice(q, K(j), total)
				b, ok2 := g.arr[i].slice(qs[0][pre:], K(j), total)
				if ok1 && ok2 && g.arr[i].seqEq(a, b) {
					k = K(j)
					break
				}
			}
			if k.c <= last {
				return nil
			}
			last = k.c
			distinct++
		}
		ks[i] = k
	}
	if distinct < 3 || run == nil {
		return nil
	}
	old := fmt.Sprintf("gb%d:%s.old", g.inv, loc)
	k := g.lin(loc+".done", ks, 0, maxLen)
	w := *run
	w.n = k
	return Seq{w, {k: sBlob, b: old, off: k, n: sub(total, k)}}
}

func (g *gener) mid(loc string, mids []Seq, has []bool, idx []int) Seq {
	n := len(mids)
	// all middles are single runs of one source, or empty
	one := true
	var proto *Seg
	for _, i := range idx {
		switch len(mids[i]) {
		case 0:
		case 1:
			s := mids[i][0]
			if s.k == sByte {
				s = Seg{k: sFill, v: s.v, n: K(1)}
			}
			if proto == nil {
				p := s
				proto = &p
			} else if proto.k != s.k || proto.k == sBlob && proto.b != s.b || proto.k == sFill && proto.v != s.v {
				one = false
			}
		default:
			one = false
		}
	}
	if one && proto != nil {
		ln := make([]*Lin, n)
		off := make([]*Lin, n)
		var someOff *Lin
		for _, i := range idx {
			ln[i] = K(0)
			if len(mids[i]) == 1 {
				ln[i] = mids[i][0].size()
				off[i] = mids[i][0].off
				if someOff == nil {
					someOff = off[i]
				}
			}
		}
		if proto.k == sFill {
			return Seq{{k: sFill, v: proto.v, n: g.lin(loc+".fill", ln, 0, maxLen)}}
		}
		// offset: one value for all non-empty arrivals that is visible at the head
		uniform := true
		for _, i := range idx {
			if off[i] != nil && off[i] != someOff {
				uniform = false
			}
		}
		if uniform && g.visible(someOff) {
			return Seq{{k: sBlob, b: proto.b, off: someOff, n: g.lin(loc+".run", ln, 0, maxLen)}}
		}
		full := true
		for _, i := range idx {
			if off[i] == nil {
				full = false
			}
		}
		if full {
			return Seq{{k: sBlob, b: proto.b, off: g.lin(loc+".roff", off, 0, maxLen), n: g.lin(loc+".run", ln, 0, maxLen)}}
		}
	}
	// same number of single bytes: generalise byte by byte
	cnt := -1
	for _, i := range idx {
		c := 0
		for _, s := range mids[i] {
			switch {
			case s.k == sByte:
				c++
			case s.n.isConst() && s.n.c <= 256:
				c += int(s.n.c)
			default:
				c = -1000000
			}
		}
		if cnt == -1 {
			cnt = c
		} else if c != cnt {
			cnt = -2
		}
		if cnt < 0 {
			break
		}
	}
	if cnt > 0 && cnt <= 24 {
		var out Seq
		for k := 0; k < cnt; k++ {
			ls := make([]*Lin, n)
			for _, i := range idx {
				ls[i] = g.arr[i].byteAt(mids[i], K(int64(k)))
			}
			out = append(out, Seg{k: sByte, v: g.lin(fmt.Sprintf("%s.b%d", loc, k), ls, 0, 255)})
		}
		return out
	}
	sz := make([]*Lin, n)
	for _, i := range idx {
		sz[i] = mids[i].size()
	}
	ln := g.lin(loc+".mid", sz, 0, maxLen)
	return blob(fmt.Sprintf("gb%d:%s", g.inv, loc), K(0), ln)
}

// visible: every symbol of l exists at the head (conservatively: occurs in no later arrival only).
func (g *gener) visible(l *Lin) bool {
	if l.isConst() {
		return true
	}
	for _, t := range l.t {
		if !g.entrySym(t.s) {
			return false
		}
	}
	return true
}

// entrySym: the symbol was created before this loop run (symbols are numbered in creation order), or
// is a pure term over such symbols.
func (g *gener) entrySym(s Sym) bool { return s <= g.e.symMark[g.inv] }

// genEnv describes the environment that is generalised.
type genEnv struct {
	n    int
	live func(i int) bool
	loc  func(i int) string
	typ  func(i int) types.Type
	pos  token.Pos
}

func loopEnv(fr *Frame, lp *loopInfo) genEnv { return blockEnv(fr, lp.header) }

func blockEnv(fr *Frame, b *ssa.BasicBlock) genEnv {
	live := fr.fi.live[b]
	return genEnv{len(fr.fi.vals), func(i int) bool { return live[i] }, func(i int) string { return valName(fr.fi.vals[i], i) },
		func(i int) types.Type { return fr.fi.vals[i].Type() }, blockPos(b)}
}

func (e *Eng) generalise(ge genEnv, inv int, p *loopPart, entryFacts []*Fact, round int) {
	var arr []*State
	arr = append(arr, p.entries...)
	arr = append(arr, p.samples...)
	nBase := len(arr)
	arr = append(arr, p.backs...)
	_ = nBase
	g := &gener{e: e, inv: inv, p: p, arr: arr, memo: map[string]*genInfo{}, objs: map[string]ObjID{}, done: map[ObjID]bool{}, locVal: map[string]*Lin{}}
	head := &State{heap: map[ObjID]*Obj{}, callers: arr[0].callers, roots: arr[0].roots, aux: arr[0].aux, defers: arr[0].defers}
	for k, v := range arr[0].heap {
		head.heap[k] = v
	}
	head.trace = arr[0].trace
	if i := starIndex(arr[0].trace, inv); i >= 0 {
		head.trace = arr[0].trace[: i+1 : i+1]
	}
	g.head = head
	n := ge.n
	head.env = make([]Val, n)
	// a partition first reached inside the loop has no entry arrival: its values may mention symbols of
	// the previous iteration, so every symbolic position must be generalised
	if len(p.entries) == 0 {
		g.arr = append([]*State{nil}, arr...)
		arr0 := arr[0]
		g.arr[0] = arr0
		g.noEntry = true
	}
	for i := 0; i < n; i++ {
		if !ge.live(i) {
			continue
		}
		vs := make([]Val, len(g.arr))
		for k, s := range g.arr {
			if g.noEntry && k == 0 {
				continue
			}
			vs[k] = s.env[i]
		}
		any := false
		for _, v := range vs {
			if v != nil {
				any = true
			}
		}
		if !any {
			continue
		}
		head.env[i] = g.val(ge.loc(i), vs, ge.typ(i))
	}
	// everything else that may have changed and is still reachable
	for {
		reach := head.reach()
		var ids []ObjID
		for id := range reach {
			if !g.done[id] {
				ids = append(ids, id)
			}
		}
		if len(ids) == 0 {
			for id := range head.heap {
				if !reach[id] {
					delete(head.heap, id)
				}
			}
			break
		}
		sort.Slice(ids, func(i, j int) bool { return ids[i] < ids[j] })
		for _, id := range ids {
			g.inPlace(id)
		}
	}
	if g.noEntry {
		// drop the placeholder slot
		for _, x := range g.gens {
			x.vals = x.vals[1:]
		}
		g.arr = arr
	}
	p.locVal = g.locVal
	p.gens = g.gens
	// instantiations
	p.inst = nil
	for k := range arr {
		m := map[Sym]*Lin{}
		for _, x := range g.gens {
			if x.vals[k] != nil {
				m[x.sym] = x.vals[k]
			} else {
				in := x.sym.info()
				m[x.sym] = S(newSym("undef", in.lo, in.hi))
			}
		}
		p.inst = append(p.inst, m)
	}
	var sb strings.Builder
	for i, v := range head.env {
		if v != nil {
			fmt.Fprintf(&sb, "%d=%s;", i, vkey(v))
		}
	}
	var hk []string
	for id := range g.done {
		if o, ok := head.heap[id]; ok {
			hk = append(hk, fmt.Sprintf("%d:%s", id, objKey(o)))
		}
	}
	sort.Strings(hk)
	sb.WriteString(strings.Join(hk, "\n"))
	shape := sb.String()
	shapeChanged := p.shape != shape
	if debugLoops && shapeChanged && round >= 2 {
		fmt.Fprintf(os.Stderr, "SHAPE %s round %d\n--- %s\n+++ %s\n", e.fset.Position(ge.pos), round, p.shape, shape)
	}
	p.shape = shape

	// positions that do not exist at every arrival: facts that relate only positions which exist
	// together say nothing about an arrival without them
	pattern := map[Sym]string{}
	for _, x := range g.gens {
		pat := make([]byte, len(arr))
		partial := false
		for k := range arr {
			pat[k] = 'p'
			if x.vals[k] == nil {
				pat[k] = '-'
				partial = true
			}
		}
		if partial {
			pattern[x.sym] = string(pat)
		}
	}
	holds := func(f *Fact, k int) bool {
		if len(pattern) > 0 && len(f.l.t) > 0 {
			if p0 := pattern[f.l.t[0].s]; p0 != "" && p0[k] == '-' {
				same := true
				for _, t := range f.l.t {
					if pattern[t.s] != p0 {
						same = false
					}
				}
				if same {
					return true
				}
			}
		}
		l := f.l.subst(p.inst[k])
		switch f.op {
		case EQ:
			return arr[k].eq(l, K(0))
		}
		return arr[k].ge(l)
	}
	all := func(f *Fact) bool {
		for k := range arr {
			if !holds(f, k) {
				return false
			}
		}
		return true
	}
	nb := len(arr) - len(p.backs)
	cands := map[*Fact]bool{}
	if shapeChanged || round < 3 {
		for f := range p.cands {
			cands[f] = true
		}
		for _, f := range e.candidates(g, p, arr, nb, entryFacts, round) {
			cands[f] = true
		}
	} else {
		for f := range p.cands {
			cands[f] = true
		}
	}
	genSet := map[Sym]bool{}
	for _, x := range g.gens {
		genSet[x.sym] = true
	}
	kept := map[*Fact]bool{}
	var keys, dropped []*Fact
	for f := range cands {
		keys = append(keys, f)
	}
	sort.Slice(keys, func(i, j int) bool {
		return keys[i].op < keys[j].op || keys[i].op == keys[j].op && keys[i].l.key < keys[j].l.key
	})
	for _, f := range keys {
		// only facts about symbols of this head
		okSyms, touches := true, false
		for _, t := range f.l.t {
			if genSet[t.s] {
				touches = true
			} else if !g.entrySym(t.s) {
				okSyms = false
			}
		}
		if !okSyms || !touches {
			continue
		}
		if !all(f) {
			if f.op == EQ {
				dropped = append(dropped, f)
			}
			continue
		}
		kept[f] = true
	}
	// what follows from several dropped equalities may still hold
	if len(dropped) <= 12 {
		seen := map[string]bool{}
		for i, x := range dropped {
			for _, y := range dropped[:i] {
				for _, t := range x.l.t {
					k := y.l.coef(t.s)
					if k == 0 || !genSet[t.s] {
						continue
					}
					d := gcd(abs64(t.k), abs64(k))
					l := comb(scale(x.l, k/d), -t.k/d, y.l)
					if l.isConst() || seen[l.key] {
						continue
					}
					seen[l.key] = true
					if f := mkFact(EQ, l); all(f) {
						kept[f] = true
					}
				}
			}
		}
	}
	p.cands = kept
	head.facts = append([]*Fact(nil), entryFacts...)
	var kk []string
	keys = keys[:0]
	for f := range kept {
		keys = append(keys, f)
	}
	sort.Slice(keys, func(i, j int) bool {
		if keys[i].op != keys[j].op {
			return keys[i].op == EQ
		}
		return keys[i].l.key < keys[j].l.key
	})
	for _, f := range keys {
		// drop what is already implied
		switch f.op {
		case GE:
			if !proveGE(head.facts, f.l) {
				head.facts = append(head.facts, f)
			}
		case EQ:
			if !proveEQ(head.facts, f.l) {
				head.facts = append(head.facts, f)
			}
		}
		kk = append(kk, f.l.key)
	}
	for _, x := range g.gens {
		k0 := 0
		for k0 < len(arr) && x.vals[k0] == nil {
			k0++
		}
		if in := x.sym.info(); in.lo < 0 || in.hi > 255 || k0 == len(arr) {
			continue
		}
		first := arr[k0].bits(x.vals[k0], 8)
		for i, b := range first {
			id := fmt.Sprintf("%s[%d]", x.loc, i)
			if p.bitDead[id] {
				continue
			}
			same := b.isConst()
			for k := k0 + 1; same && k < len(arr); k++ {
				if x.vals[k] == nil {
					continue
				}
				c := arr[k].bits(x.vals[k], 8)[i]
				same = c.isConst() && c.c == b.c
			}
			if !same {
				if p.bitDead == nil {
					p.bitDead = map[string]bool{}
				}
				p.bitDead[id] = true
				continue
			}
			l := neg(S(head.extSym(x.sym, i, 1)))
			if b.c {
				l = addK(neg(l), -1)
			}
			if !proveGE(head.facts, l) {
				head.facts = append(head.facts, mkFact(GE, l))
				kk = append(kk, l.key)
			}
		}
	}
	p.head = head
	p.sig = shape + "\n" + strings.Join(kk, ";")
}

func valName(v ssa.Value, i int) string {
	if p, ok := v.(*ssa.Phi); ok && p.Comment != "" {
		return p.Comment + "@" + fmt.Sprint(i)
	}
	return fmt.Sprintf("%s@%d", v.Name(), i)
}

func starIndex(t []*Event, inv int) int {
	for i, ev := range t {
		if ev.kind == "star" && ev.loop != nil && ev.loop.id == inv {
			return i
		}
	}
	return -1
}

// candidates proposes invariants over the generalised positions.
func (e *Eng) candidates(g *gener, p *loopPart, arr []*State, nb int, entryFacts []*Fact, round int) []*Fact {
	var out []*Fact
	gens := p.gens
	if len(gens) == 0 {
		return nil
	}
	add1 := func(f *Fact) { out = append(out, f) }
	// affine equalities from the sample arrivals
	if nb > 1 {
		for _, f := range affineEqualities(g, gens, nb) {
			add1(f)
		}
	}
	for _, x := range gens {
		v0 := x.vals[0]
		if v0 != nil && g.visible(v0) {
			add1(mkFact(GE, sub(S(x.sym), v0)))
			add1(mkFact(GE, sub(v0, S(x.sym))))
		}
		add1(mkFact(GE, S(x.sym)))
		add1(mkFact(GE, addK(S(x.sym), -1)))
		// constant upper bounds seen in every arrival
		hi, lo := -inf, inf
		for k := range arr {
			if k >= nb && round >= 3 {
				break
			}
			if x.vals[k] == nil {
				continue
			}
			l, h := arr[k].rng(x.vals[k])
			if h > hi {
				hi = h
			}
			if l < lo {
				lo = l
			}
		}
		if hi < inf && hi < x.sym.info().hi {
			add1(mkFact(GE, addK(neg(S(x.sym)), hi)))
		}
		if lo > -inf && lo > x.sym.info().lo {
			add1(mkFact(GE, addK(S(x.sym), -lo)))
		}
	}
	if len(gens) <= 14 {
		for i, x := range gens {
			for j, y := range gens {
				if i == j {
					continue
				}
				d := sub(S(x.sym), S(y.sym))
				add1(mkFact(GE, d))
				if x.vals[0] != nil && y.vals[0] != nil {
					d0 := sub(x.vals[0], y.vals[0])
					if g.visible(d0) {
						add1(mkFact(GE, sub(d, d0)))
					}
				}
			}
		}
	}
	if p.join || coarse {
		// against the quantities the values were made from
		for _, x := range gens {
			seen := map[Sym]bool{}
			for k, v := range x.vals {
				if v == nil {
					continue
				}
				ts := v.t
				if len(ts) == 1 {
					// and those they are compared with
					for _, f := range arr[k].facts {
						if len(f.l.t) == 2 && f.op != NE && f.l.coef(ts[0].s) != 0 {
							ts = append(ts[:len(ts):len(ts)], f.l.t...)
						}
					}
				}
				for _, t := range ts {
					if seen[t.s] || len(seen) > 16 {
						continue
					}
					seen[t.s] = true
					d := sub(S(x.sym), S(t.s))
					add1(mkFact(GE, d))
					add1(mkFact(GE, addK(d, -1)))
					add1(mkFact(GE, neg(d)))
					add1(mkFact(GE, addK(neg(d), -1)))
				}
			}
		}
	}
	// shapes of facts met inside the loop
	shapes := map[string]*Lin{}
	genSet := map[Sym]bool{}
	for _, x := range gens {
		genSet[x.sym] = true
	}
	consider := func(l *Lin) {
		ok, touch := true, false
		for _, t := range l.t {
			if genSet[t.s] {
				touch = true
			} else if !g.entrySym(t.s) {
				ok = false
			}
		}
		if !ok || !touch {
			return
		}
		sh := mkLin(0, l.t)
		shapes[sh.key] = sh
		add1(mkFact(GE, l))
	}
	for k := nb; k < len(arr); k++ {
		inst := p.inst[k]
		for _, f := range arr[k].facts {
			if f.op == NE {
				continue
			}
			touch := false
			for _, t := range f.l.t {
				if genSet[t.s] {
					touch = true
				}
			}
			if !touch {
				continue
			}
			ls := []*Lin{f.l}
			if f.op == EQ {
				ls = append(ls, neg(f.l))
			}
			for _, l := range ls {
				consider(l)
				// in terms of the next iteration's values: g = g' - d
				inv := l
				good := true
				for _, t := range l.t {
					if !genSet[t.s] {
						continue
					}
					d := sub(inst[t.s], S(t.s))
					hasGen := false
					for _, u := range d.t {
						if genSet[u.s] {
							hasGen = true
						}
					}
					if hasGen {
						good = false
						break
					}
					inv = comb(inv, -t.k, d)
				}
				if good {
					// eliminate body symbols by their bounds
					w := inv
					for _, t := range inv.t {
						if genSet[t.s] || g.entrySym(t.s) {
							continue
						}
						lo, hi := boundsOf(arr[k].facts, t.s)
						if t.k > 0 && hi < inf {
							w = comb(w, -t.k, S(t.s))
							w = addK(w, t.k*hi)
						} else if t.k < 0 && lo > -inf {
							w = comb(w, -t.k, S(t.s))
							w = addK(w, t.k*lo)
						}
					}
					consider(w)
				}
			}
		}
	}
	// bounds of the shape: visible symbols that bound positions
	for _, s := range entryFacts {
		_ = s
	}
	for _, sh := range shapes {
		add1(mkFact(GE, sh))
		add1(mkFact(GE, addK(sh, 1)))
		add1(mkFact(GE, addK(sh, -1)))
		// best constant over the arrivals
		c := int64(0)
		ok := true
		for k := range arr {
			if k >= nb && round >= 3 {
				break
			}
			l := sh.subst(p.inst[k])
			m := linMin(arr[k].facts, l)
			if m <= -inf {
				ok = false
				break
			}
			if -m > c || k == 0 {
				if k == 0 {
					c = -m
				} else if -m > c {
					c = -m
				}
			}
		}
		if ok {
			add1(mkFact(GE, addK(sh, c)))
		}
	}
	// readers: position against the end of the data
	for _, o := range g.head.heap {
		if o.kind == oReader && o.pos != nil && o.end() != nil {
			if s, ok := o.pos.single(); ok && genSet[s] {
				add1(mkFact(GE, sub(o.end(), o.pos)))
			}
		}
		if o.kind == oReader && o.name == "range" {
			if m, ok := o.v.(VMap); ok {
				if mo, ok := g.head.heap[m.obj]; ok && mo.mlen != nil {
					add1(mkFact(GE, sub(mo.mlen, o.pos)))
				}
			}
		}
	}
	return out
}

// affineEqualities: relations sum a_i (g_i - g_i(0)) = 0 satisfied by all sample arrivals.
func affineEqualities(g *gener, gens []*genInfo, nb int) []*Fact {
	var use []*genInfo
	for _, x := range gens {
		ok := x.vals[0] != nil
		for k := 1; k < nb && ok; k++ {
			ok = x.vals[k] != nil
		}
		if ok {
			use = append(use, x)
		}
	}
	n := len(use)
	if n == 0 || n > 24 {
		return nil
	}
	var rows [][]rat
	var m map[Sym][]rat
	row := func(s Sym) []rat {
		r := m[s]
		if r == nil {
			r = make([]rat, n)
			for i := range r {
				r[i] = rzero
			}
			m[s] = r
		}
		return r
	}
	// the constant part of the relation may only mention symbols visible at the head
	m = map[Sym][]rat{}
	for i, x := range use {
		for _, t := range x.vals[0].t {
			if !g.entrySym(t.s) {
				row(t.s)[i] = rat{t.k, 1}
			}
		}
	}
	for _, r := range m {
		rows = append(rows, r)
	}
	for k := 1; k < nb; k++ {
		m = map[Sym][]rat{}
		for i, x := range use {
			d := sub(x.vals[k], x.vals[0])
			if d.c != 0 {
				row(0)[i] = rat{d.c, 1}
			}
			for _, t := range d.t {
				row(t.s)[i] = rat{t.k, 1}
			}
		}
		for _, r := range m {
			rows = append(rows, r)
		}
	}
	ns, ok := nullSpace(rows, n)
	if !ok {
		return nil
	}
	var out []*Fact
	for _, v := range ns {
		l := K(0)
		for i, c := range v {
			if c != 0 {
				l = comb(l, c, sub(S(use[i].sym), use[i].vals[0]))
			}
		}
		if !l.isConst() {
			out = append(out, mkFact(EQ, l))
		}
	}
	return out
}

func nullSpace(rows [][]rat, n int) (res [][]int64, ok bool) {
	defer func() {
		if r := recover(); r != nil {
			if _, isO := r.(lpOverflow); isO {
				res, ok = nil, false
				return
			}
			panic(r)
		}
	}()
	var piv []int
	var ech [][]rat
	for _, r0 := range rows {
		r := append([]rat(nil), r0...)
		for i, p := range piv {
			if r[p].n != 0 {
				f := r[p]
				for j := range r {
					r[j] = r[j].sub(f.mul(ech[i][j]))
				}
			}
		}
		p := -1
		for j := range r {
			if r[j].n != 0 {
				p = j
				break
			}
		}
		if p < 0 {
			continue
		}
		iv := r[p].inv()
		for j := range r {
			r[j] = r[j].mul(iv)
		}
		for i := range ech {
			if ech[i][p].n != 0 {
				f := ech[i][p]
				for j := range ech[i] {
					ech[i][j] = ech[i][j].sub(f.mul(r[j]))
				}
			}
		}
		ech = append(ech, r)
		piv = append(piv, p)
	}
	isP := map[int]int{}
	for i, p := range piv {
		isP[p] = i
	}
	for j := 0; j < n; j++ {
		if _, ok := isP[j]; ok {
			continue
		}
		v := make([]rat, n)
		for k := range v {
			v[k] = rzero
		}
		v[j] = rat{1, 1}
		for p, i := range isP {
			v[p] = ech[i][j].neg()
		}
		l := int64(1)
		for _, x := range v {
			l = l / gcd(l, x.d) * x.d
			if l > 1<<20 {
				return nil, false
			}
		}
		iv := make([]int64, n)
		for k, x := range v {
			iv[k] = x.n * (l / x.d)
		}
		res = append(res, iv)
	}
	return res, true
}

// ---- termination

func (rec *loopRec) checkTermination(e *Eng) {
	// rank candidates: quantities bounded below by facts of the alternatives
	type cand struct{ l *Lin }
	seen := map[string]bool{}
	var cands []*Lin
	addC := func(l *Lin) {
		if !seen[l.key] && !l.isConst() {
			seen[l.key] = true
			cands = append(cands, l)
		}
	}
	genSet := map[Sym]bool{}
	for _, p := range rec.parts {
		for _, x := range p.gens {
			genSet[x.sym] = true
		}
	}
	for _, a := range rec.alts {
		for _, f := range a.end.facts {
			if f.op == NE {
				continue
			}
			ok, t2 := true, false
			for _, t := range f.l.t {
				if genSet[t.s] {
					t2 = true
				} else if t.s > e.symMark[rec.id] {
					ok = false
				}
			}
			if ok && t2 {
				addC(f.l)
				if f.op == EQ {
					addC(neg(f.l))
				}
			}
		}
	}
	for _, p := range rec.parts {
		for _, x := range p.gens {
			addC(S(x.sym))
			addC(neg(S(x.sym)))
		}
		for _, o := range p.head.heap {
			if o.kind == oReader && o.pos != nil {
				if o.end() != nil {
					addC(sub(o.end(), o.pos))
				}
				if m, ok := o.v.(VMap); ok {
					if mo, ok := p.head.heap[m.obj]; ok && mo.mlen != nil {
						addC(sub(mo.mlen, o.pos))
					} else if lo, ok := lazyObjs[m.obj]; ok && lo != nil {
						addC(sub(p.head.obj(m.obj).mlen, o.pos))
					}
				}
			}
		}
	}
	locOf := map[Sym]string{}
	for _, p := range rec.parts {
		for _, x := range p.gens {
			locOf[x.sym] = x.loc
		}
	}
	// at evaluates a candidate at the head of a part
	at := func(l *Lin, part int) *Lin {
		p := rec.parts[part]
		m := map[Sym]*Lin{}
		own := map[Sym]bool{}
		for _, x := range p.gens {
			own[x.sym] = true
		}
		for _, t := range l.t {
			if genSet[t.s] && !own[t.s] {
				if v, ok := p.locVal[locOf[t.s]]; ok {
					m[t.s] = v
				} else {
					return nil
				}
			}
		}
		return l.subst(m)
	}
	var solve func(alts []*loopAlt, depth int) bool
	solve = func(alts []*loopAlt, depth int) bool {
		if len(alts) == 0 {
			return true
		}
		// restrict to strongly connected alternatives
		for _, comp := range sccAlts(alts, len(rec.parts)) {
			done := false
			for _, c := range cands {
				var rest []*loopAlt
				good := true
				dec := 0
				for _, a := range comp {
					now := at(c, a.from)
					nxt := at(c, a.to)
					if now == nil || nxt == nil {
						good = false
						break
					}
					nxt = nxt.subst(a.inst)
					if !a.end.ge(sub(now, nxt)) {
						good = false
						break
					}
					if a.end.ge(addK(sub(now, nxt), -1)) && (a.end.ge(now)) {
						dec++
						continue
					}
					rest = append(rest, a)
				}
				if !good || dec == 0 {
					continue
				}
				if depth < 4 && solve(rest, depth+1) {
					done = true
					break
				}
			}
			if !done {
				return false
			}
		}
		return true
	}
	rec.term = solve(rec.alts, 0)
	if !rec.term {
		rec.why = "no decreasing quantity found for this loop"
	}
}

func sccAlts(alts []*loopAlt, n int) [][]*loopAlt {
	adj := make([][]bool, n)
	for i := range adj {
		adj[i] = make([]bool, n)
	}
	for _, a := range alts {
		adj[a.from][a.to] = true
	}
	for k := 0; k < n; k++ {
		for i := 0; i < n; i++ {
			for j := 0; j < n; j++ {
				if adj[i][k] && adj[k][j] {
					adj[i][j] = true
				}
			}
		}
	}
	groups := map[int][]*loopAlt{}
	for _, a := range alts {
		if !adj[a.to][a.from] {
			continue
		}
		r := a.from
		for j := 0; j < n; j++ {
			if adj[a.from][j] && adj[j][a.from] && j < r {
				r = j
			}
		}
		groups[r] = append(groups[r], a)
	}
	var out [][]*loopAlt
	for i := 0; i < n; i++ {
		if len(groups[i]) > 0 {
			out = append(out, groups[i])
		}
	}
	return out
}

// joinResults joins outcomes of one call that agree in their kind of result, keeping what they have in common.
func (e *Eng) joinResults(fn *ssa.Function, outs []Outcome) []Outcome {
	res := fn.Signature.Results()
	saved, callers := outs[0].st.env, outs[0].st.callers
	var sts []*State
	for _, o := range outs {
		s := o.st
		s.callers = &callerEnv{saved, callers}
		s.env = make([]Val, res.Len())
		switch x := o.res.(type) {
		case VTuple:
			copy(s.env, x.v)
		default:
			if res.Len() == 1 {
				s.env[0] = o.res
			}
		}
		sts = append(sts, s)
	}
	ge := genEnv{res.Len(), func(int) bool { return true }, func(i int) string { return fmt.Sprintf("r%d", i) },
		func(i int) types.Type { return res.At(i).Type() }, fn.Pos()}
	var r []Outcome
	for _, h := range e.joinStates(ge, sts) {
		var v Val
		switch res.Len() {
		case 0:
		case 1:
			v = h.env[0]
		default:
			v = VTuple{append([]Val(nil), h.env...)}
		}
		h.env, h.callers = append([]Val(nil), saved...), callers
		r = append(r, Outcome{h, v})
	}
	return r
}

// joinStates joins states of the same program point and kind.
func (e *Eng) joinStates(ge genEnv, sts []*State) []*State {
	groups := map[string][]*State{}
	var order []string
	for _, s := range sts {
		k := kindKey(s)
		if groups[k] == nil {
			order = append(order, k)
		}
		groups[k] = append(groups[k], s)
	}
	var r []*State
	for _, k := range order {
		g := groups[k]
		if len(g) < 2 {
			r = append(r, g...)
			continue
		}
		loopInv++
		inv := loopInv
		e.symMark[inv], e.nameMark[inv], e.objMark[inv] = Sym(len(syms)-1), len(nameBorn), objCount
		p := &loopPart{key: k, entries: g, join: true, cands: map[*Fact]bool{}, split: map[[2]string]bool{}, merged: map[string]string{}}
		e.generalise(ge, inv, p, joinAllFacts(g), 0)
		p.head.project()
		r = append(r, p.head)
	}
	return r
}

// kindKey tells apart what the code branches on: nil or not, true or false, which sentinel.
func kindKey(st *State) string {
	var sb strings.Builder
	var one func(v Val)
	one = func(v Val) {
		switch x := v.(type) {
		case nil:
		case VTuple:
			for _, y := range x.v {
				one(y)
			}
		case VBool:
			fmt.Fprintf(&sb, "b%d", x.c.cst)
		case VNil:
			sb.WriteString("nil")
		case VPtr:
			fmt.Fprintf(&sb, "p%v", x.nilS == 0)
		case VSlice, VMap, VStr, VInt, VFloat, VBytes:
			fmt.Fprintf(&sb, "%T", v)
		case VIface:
			switch {
			case x.dyn != nil && x.dyn.String() != "error":
				sb.WriteString("d" + x.dyn.String())
			case strings.HasPrefix(x.id, "new:"):
				sb.WriteString(x.id)
			default:
				fmt.Fprintf(&sb, "i%v", x.nilS == 0)
			}
		default:
			sb.WriteString(vkey(v))
		}
		sb.WriteByte(',')
	}
	for _, v := range st.env {
		one(v)
	}
	fmt.Fprintf(&sb, "|%d|", len(st.defers))
	var ids []ObjID
	for id, ob := range st.heap {
		if b, ok := ob.v.(VBool); ok && ob.kind == oCell && b.c.cst != 0 {
			ids = append(ids, id)
		}
	}
	sort.Slice(ids, func(i, j int) bool { return ids[i] < ids[j] })
	for _, id := range ids {
		if ob := st.heap[id]; ob.name != "" {
			fmt.Fprintf(&sb, "%d=%d,", id, ob.v.(VBool).c.cst)
		}
	}
	return sb.String()
}

// project forgets facts about quantities nothing in the state refers to any more, after combining them.
func (st *State) project() {
	live := map[Sym]bool{}
	var addS func(s Sym)
	addS = func(s Sym) {
		if s == 0 || live[s] {
			return
		}
		live[s] = true
		in := s.info()
		addS(in.extOf)
		if in.lindef != nil {
			for _, t := range in.lindef.t {
				addS(t.s)
			}
		}
	}
	addL := func(ls ...*Lin) {
		for _, l := range ls {
			if l != nil {
				for _, t := range l.t {
					addS(t.s)
				}
			}
		}
	}
	addQ := func(q Seq) {
		for _, g := range q {
			addL(g.v, g.off, g.n)
		}
	}
	var addV func(v Val)
	var addO func(o *Obj)
	addO = func(o *Obj) {
		addL(o.len, o.mlen, o.pos)
		if o.kind == oReader {
			addL(o.end())
		}
		addQ(o.q)
		addV(o.v)
		for _, x := range o.el {
			addV(x.v)
			addL(x.idx)
		}
		for i := range o.mk {
			addV(o.mk[i])
			addV(o.mv[i])
		}
	}
	addV = func(v Val) {
		switch x := v.(type) {
		case VInt:
			addL(x.l)
		case VBool:
			if x.c.cst == 0 {
				addL(x.c.f.l)
			}
		case VStr:
			addQ(x.q)
		case VBytes:
			addQ(x.q)
		case VPtr:
			addS(x.nilS)
			addL(x.idx)
		case VSlice:
			addS(x.nilS)
			addL(x.off, x.len, x.cap)
		case VMap:
			addS(x.nilS)
		case VIface:
			addS(x.nilS)
			addV(x.val)
		case VFunc:
			addS(x.nilS)
			for _, b := range x.bind {
				addV(b)
			}
		case VTuple:
			for _, b := range x.v {
				addV(b)
			}
		case VStruct:
			for _, b := range x.f {
				addV(b)
			}
		case VReflect:
			addV(x.x)
		case VElems:
			addO(x.o)
		}
	}
	for _, v := range st.env {
		addV(v)
	}
	for c := st.callers; c != nil; c = c.next {
		for _, v := range c.env {
			addV(v)
		}
	}
	for _, d := range st.defers {
		addV(d.fn)
		for _, a := range d.args {
			addV(a)
		}
	}
	for _, o := range st.heap {
		addO(o)
	}
	dead := map[Sym]int{}
	for _, f := range st.facts {
		for _, t := range f.l.t {
			if !live[t.s] && t.s.info().extOf == 0 {
				dead[t.s]++
			}
		}
	}
	if len(dead) == 0 {
		return
	}
	var order []Sym
	for s := range dead {
		order = append(order, s)
	}
	sort.Slice(order, func(i, j int) bool {
		a, b := order[i], order[j]
		return dead[a] < dead[b] || dead[a] == dead[b] && a < b
	})
	facts := st.facts
	for _, s := range order {
		var with, rest []*Fact
		var eq *Fact
		for _, f := range facts {
			k := f.l.coef(s)
			if k == 0 {
				rest = append(rest, f)
				continue
			}
			with = append(with, f)
			if f.op == EQ && (k == 1 || k == -1) && eq == nil {
				eq = f
			}
		}
		var lo, hi []*Lin
		if eq != nil {
			k := eq.l.coef(s)
			for _, f := range with {
				if f != eq {
					rest = append(rest, mkFact(f.op, comb(f.l, -f.l.coef(s)*k, eq.l)))
				}
			}
			// the range of the forgotten quantity
			in := s.info()
			def := comb(S(s), -k, eq.l)
			if in.lo > -inf {
				rest = append(rest, mkFact(GE, addK(def, -in.lo)))
			}
			if in.hi < inf {
				rest = append(rest, mkFact(GE, addK(neg(def), in.hi)))
			}
		} else {
			for _, f := range with {
				k := f.l.coef(s)
				switch {
				case f.op == GE && k > 0:
					lo = append(lo, f.l)
				case f.op == GE && k < 0:
					hi = append(hi, f.l)
				}
			}
			in := s.info()
			if in.lo > -inf {
				lo = append(lo, addK(S(s), -in.lo))
			}
			if in.hi < inf {
				hi = append(hi, addK(neg(S(s)), in.hi))
			}
			if len(lo)*len(hi) > 16 {
				continue
			}
			{
				for _, a := range lo {
					for _, b := range hi {
						ka, kb := a.coef(s), -b.coef(s)
						rest = append(rest, mkFact(GE, comb(scale(a, kb), ka, b)))
					}
				}
			}
		}
		facts = facts[:0:0]
		seen := map[*Fact]bool{}
		for _, f := range rest {
			if !seen[f] && !(f.l.isConst()) {
				seen[f] = true
				facts = append(facts, f)
			}
		}
	}
	st.facts = nil
	for _, f := range facts {
		if f.op == GE && linMin(nil, f.l) >= 0 {
			continue
		}
		st.facts = append(st.facts, f)
	}
}
