package main

// Abstract values, heap objects, events and states.

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type ObjID int32

// Val is one of the V* types below; nil means "undefined / dead".
type Val interface{}

type VInt struct{ l *Lin }
type VBool struct{ c Cond }
type VFloat struct{ t string } // opaque hash-consed term
type VStr struct{ q Seq }
type VNil struct{}

// VPtr points to an object (or to element idx / sub-path of one).
type VPtr struct {
	obj  ObjID
	idx  *Lin  // element of an OElems/OBytes object
	path []int // field path inside an element or cell value
	nilS Sym   // 1 iff nil; 0 = known non-nil
}
type VSlice struct {
	obj           ObjID
	off, len, cap *Lin
	nilS          Sym
}
type VMap struct {
	obj  ObjID
	nilS Sym
}
type VIface struct {
	dyn  types.Type // known dynamic type (val valid), or nil
	val  Val
	id   string // identity of an unknown interface value
	nilS Sym    // 0: known non-nil; otherwise the type-number symbol of id (0 = nil)
}
type VFunc struct {
	fn   *ssa.Function
	bind []Val
	id   string // unknown function
	nilS Sym
}
type VTuple struct{ v []Val }
type VStruct struct{ f []Val }
type VOpaque struct{ id string } // anything else (immutable)

// VArr is an array (or modelled library struct) stored inside a variable: a reference to its own object.
type VArr struct{ obj ObjID }

// VBytes / VElems are array values.
type VBytes struct{ q Seq }
type VElems struct{ o *Obj }

// VReflect is a reflect.Value of an interface value.
type VReflect struct{ x Val }

// Cond is a boolean: an atomic linear condition, with facts implied on either side.
type Cond struct {
	f     *Fact
	never bool // constant false (f nil): see constant
	cst   int  // 1 true, -1 false, 0 = use f
	imT   []*Fact
	imF   []*Fact
}

var condTrue, condFalse = Cond{cst: 1}, Cond{cst: -1}

func condB(b bool) Cond {
	if b {
		return condTrue
	}
	return condFalse
}
func (c Cond) not() Cond {
	if c.cst != 0 {
		return Cond{cst: -c.cst}
	}
	n := Cond{imT: c.imF, imF: c.imT}
	switch c.f.op {
	case GE:
		n.f = mkFact(GE, addK(neg(c.f.l), -1))
	case EQ:
		n.f = mkFact(NE, c.f.l)
	case NE:
		n.f = mkFact(EQ, c.f.l)
	}
	return n
}
func condGE(l *Lin) Cond { return normCond(GE, l) }
func condEQ(l *Lin) Cond { return normCond(EQ, l) }
func normCond(op FactOp, l *Lin) Cond {
	if l.isConst() {
		switch op {
		case GE:
			return condB(l.c >= 0)
		case EQ:
			return condB(l.c == 0)
		case NE:
			return condB(l.c != 0)
		}
	}
	return Cond{f: mkFact(op, l)}
}

// condSym is the condition s == 1 for a 0/1 symbol.
func condSym(s Sym) Cond { return Cond{f: mkFact(EQ, addK(S(s), -1))} }

func (c Cond) String() string {
	switch c.cst {
	case 1:
		return "true"
	case -1:
		return "false"
	}
	return c.f.String()
}

// ---- byte sequences

type segKind byte

const (
	sByte segKind = iota
	sBlob
	sFill
)

type Seg struct {
	k   segKind
	v   *Lin // byte value (sByte, sFill)
	b   string
	off *Lin
	n   *Lin
}
type Seq []Seg

func (g Seg) size() *Lin {
	if g.k == sByte {
		return K(1)
	}
	return g.n
}
func (q Seq) size() *Lin {
	r := K(0)
	for _, g := range q {
		r = add(r, g.size())
	}
	return r
}
func (g Seg) key() string {
	switch g.k {
	case sByte:
		return "B" + g.v.key
	case sFill:
		return "F" + g.v.key + "#" + g.n.key
	}
	return "S" + g.b + "@" + g.off.key + "#" + g.n.key
}
func (q Seq) key() string {
	var p []string
	for _, g := range q {
		p = append(p, g.key())
	}
	return strings.Join(p, " ")
}
func (q Seq) String() string {
	var p []string
	for _, g := range q {
		switch g.k {
		case sByte:
			if g.v.isConst() {
				p = append(p, fmt.Sprintf("%02x", g.v.c))
			} else {
				p = append(p, "<"+g.v.String()+">")
			}
		case sFill:
			p = append(p, fmt.Sprintf("%s x(%s)", g.v, g.n))
		default:
			p = append(p, fmt.Sprintf("%s[%s:+%s]", g.b, g.off, g.n))
		}
	}
	return "{" + strings.Join(p, " ") + "}"
}

func strSeq(s string) Seq {
	q := make(Seq, 0, len(s))
	for i := 0; i < len(s); i++ {
		q = append(q, Seg{k: sByte, v: K(int64(s[i]))})
	}
	return q
}

// constStr returns the constant content of q.
func (q Seq) constStr() (string, bool) {
	var b []byte
	for _, g := range q {
		switch {
		case g.k == sByte && g.v.isConst():
			b = append(b, byte(g.v.c))
		case g.k == sFill && g.v.isConst() && g.n.isConst():
			for i := int64(0); i < g.n.c; i++ {
				b = append(b, byte(g.v.c))
			}
		default:
			return "", false
		}
	}
	return string(b), true
}

// nameBorn orders names by first use: a name used before a loop started denotes the same thing throughout.
var nameBorn = map[string]int{}

func born(id string) string {
	if _, ok := nameBorn[id]; !ok {
		nameBorn[id] = len(nameBorn) + 1
	}
	return id
}

func blob(id string, off, n *Lin) Seq { born(id); return Seq{{k: sBlob, b: id, off: off, n: n}} }

var freshCount int

func fresh(p string) string { freshCount++; return fmt.Sprintf("%s#%d", p, freshCount) }

func freshBlob(why string, n *Lin) Seq { return blob(fresh(why), K(0), n) }

// byteOf is the symbol for byte off of blob b.
func byteOf(b string, off *Lin) Sym {
	k := "byte(" + b + "," + off.key + ")"
	if s, ok := symByKey[k]; ok {
		return s
	}
	s := newSym(b+"["+off.String()+"]", 0, 255)
	symByKey[k] = s
	byteSyms[s] = byteRef{b, off}
	return s
}

type byteRef struct {
	b   string
	off *Lin
}

var byteSyms = map[Sym]byteRef{}

// ---- heap objects

type objKind byte

const (
	oCell  objKind = iota // one scalar / reference variable
	oBytes                // byte array
	oElems                // array of other elements
	oMap
	oBuf    // bytes.Buffer / strings.Builder
	oReader // byte source with a position
	oOpaque // anything whose content is not tracked
)

type Elem struct {
	idx *Lin
	v   Val
}
type Obj struct {
	kind objKind
	typ  types.Type // element / variable type
	name string
	v    Val  // oCell
	q    Seq  // oBytes, oBuf
	len  *Lin // oElems: number of elements; oReader: end of data (nil unknown)
	el   []Elem
	dflt string // oElems: name for unknown elements ("" = zero value)
	// oMap
	mk, mv []Val
	mbase  string // "" = otherwise empty; else name of unknown rest
	mlen   *Lin
	pos    *Lin   // oReader
	src    string // oReader: blob id of the stream
	sq     Seq    // oReader over known data
	known  bool   // oReader: sq valid
	short  Val    // oReader: where a read beyond the end of the data is noted
	frozen bool   // package-level data after initialisation
}

func (o *Obj) clone() *Obj {
	c := *o
	c.el = append([]Elem(nil), o.el...)
	c.mk = append([]Val(nil), o.mk...)
	c.mv = append([]Val(nil), o.mv...)
	return &c
}

// ---- events

type Event struct {
	kind string // write, writefail, read, readfail, rec, send, mapset, elem, alloc, star, call, ...
	id   string // writer / reader / callee identity
	q    Seq
	v    Val
	v2   Val
	n    *Lin
	pos  token.Pos
	loop *loopRec
	obj  ObjID
	fn   *ssa.Function
	st   *State // snapshot when useful
	args []Val
	res  []Val
}

func (e *Event) String() string {
	s := e.kind
	if e.id != "" {
		s += "(" + e.id + ")"
	}
	if e.q != nil {
		s += e.q.String()
	}
	if e.n != nil {
		s += " n=" + e.n.String()
	}
	if e.v != nil {
		s += " v=" + vstr(e.v)
	}
	if e.loop != nil {
		s += fmt.Sprintf(" loop%d", e.loop.id)
	}
	return s
}

// ---- states

type State struct {
	heap    map[ObjID]*Obj
	facts   []*Fact
	trace   []*Event
	env     []Val
	defers  []deferred
	dead    bool
	callers *callerEnv // environments of the calling frames (liveness roots)
	roots   []Val      // values the analysis client inspects afterwards
	aux     map[string]*Lin
}

type deferred struct {
	fn   Val
	args []Val
	call *ssa.Defer
}

func (st *State) fork() *State {
	n := &State{facts: st.facts[:len(st.facts):len(st.facts)], trace: st.trace[:len(st.trace):len(st.trace)]}
	n.heap = make(map[ObjID]*Obj, len(st.heap)+4)
	for k, v := range st.heap {
		n.heap[k] = v
	}
	n.env = append([]Val(nil), st.env...)
	n.defers = st.defers[:len(st.defers):len(st.defers)]
	n.callers, n.roots, n.aux = st.callers, st.roots, st.aux
	return n
}

func (st *State) ge(l *Lin) bool    { return proveGE(st.facts, l) }
func (st *State) gt0(l *Lin) bool   { return proveGE(st.facts, addK(l, -1)) }
func (st *State) le(a, b *Lin) bool { return st.ge(sub(b, a)) }
func (st *State) lt(a, b *Lin) bool { return st.ge(addK(sub(b, a), -1)) }
func (st *State) eq(a, b *Lin) bool { return a == b || proveEQ(st.facts, sub(a, b)) }
func (st *State) ne(a, b *Lin) bool {
	if a == b {
		return false
	}
	d := sub(a, b)
	nf := mkFact(NE, d)
	for _, f := range st.facts {
		if f == nf {
			return true
		}
	}
	return st.gt0(d) || st.gt0(neg(d))
}

func (st *State) hasFact(f *Fact) bool {
	for _, x := range st.facts {
		if x == f {
			return true
		}
	}
	return false
}

func (st *State) addRaw(f *Fact) {
	if st.hasFact(f) {
		return
	}
	st.facts = append(st.facts[:len(st.facts):len(st.facts)], f)
}

// addFact conjoins f (known to hold); returns false when the state becomes infeasible.
func (st *State) addFact(f *Fact) bool {
	if f.l.isConst() {
		switch f.op {
		case GE:
			return f.l.c >= 0
		case EQ:
			return f.l.c == 0
		case NE:
			return f.l.c != 0
		}
	}
	if st.hasFact(f) {
		return true
	}
	switch f.op {
	case GE:
		if proveGE(st.facts, addK(neg(f.l), -1)) {
			return false
		}
		st.addRaw(f)
		// x >= 0 and x != 0
		if st.hasFact(mkFact(NE, f.l)) {
			return st.addFact(mkFact(GE, addK(f.l, -1)))
		}
	case EQ:
		if proveGE(st.facts, addK(f.l, -1)) || proveGE(st.facts, addK(neg(f.l), -1)) || st.hasFact(mkFact(NE, f.l)) {
			return false
		}
		st.addRaw(f)
		if s, ok := singleTerm(f.l); ok && s.info().extOf != 0 && !st.spreadBits(s.info().extOf) {
			return false
		}
		// disequalities contradicted through the new equality
		linked := map[Sym]bool{}
		for _, t := range f.l.t {
			linked[t.s] = true
		}
		touches := func(l *Lin) bool {
			for _, t := range l.t {
				if linked[t.s] {
					return true
				}
			}
			return false
		}
		for grown := true; grown; {
			grown = false
			for _, g := range st.facts {
				if g.op == EQ && touches(g.l) {
					for _, t := range g.l.t {
						if !linked[t.s] {
							linked[t.s] = true
							grown = true
						}
					}
				}
			}
		}
		for _, g := range st.facts {
			if g.op == NE && touches(g.l) && proveEQ(st.facts, g.l) {
				return false
			}
		}
	case NE:
		if proveEQ(st.facts, f.l) {
			return false
		}
		st.addRaw(f)
		if proveGE(st.facts, f.l) {
			st.addRaw(mkFact(GE, addK(f.l, -1)))
		} else if proveGE(st.facts, neg(f.l)) {
			st.addRaw(mkFact(GE, addK(neg(f.l), -1)))
		}
	}
	return true
}

func sharesSym(a, b *Lin) bool {
	for _, t := range a.t {
		if b.coef(t.s) != 0 {
			return true
		}
	}
	return false
}

// assume restricts st to c; false when infeasible.
func (st *State) assume(c Cond) bool {
	switch c.cst {
	case 1:
		return true
	case -1:
		return false
	}
	if !st.addFact(c.f) {
		return false
	}
	for _, f := range c.imT {
		if !st.addFact(f) {
			return false
		}
	}
	return true
}

// decide returns 1 / -1 / 0 for a condition under st.
func (st *State) decide(c Cond) int {
	if c.cst != 0 {
		return c.cst
	}
	t := st.fork0()
	if !t.assume(c) {
		return -1
	}
	t = st.fork0()
	if !t.assume(c.not()) {
		return 1
	}
	return 0
}

// fork0 is a fork that shares heap and env (for fact tests only).
func (st *State) fork0() *State {
	return &State{heap: st.heap, facts: st.facts[:len(st.facts):len(st.facts)], trace: st.trace, env: st.env, callers: st.callers, roots: st.roots}
}

// coarse: paths are told apart by their states only, not by what they did (zzv.Coarse).
var coarse bool

// peel: the first pass through a loop is followed apart from the others (zzv.Peel).
var peel bool

func (st *State) event(e *Event) {
	if coarse && e.kind != "star" {
		return
	}
	st.trace = append(st.trace[:len(st.trace):len(st.trace)], e)
}

// ---- printing

func vstr(v Val) string {
	switch x := v.(type) {
	case nil:
		return "-"
	case VInt:
		return x.l.String()
	case VBool:
		return x.c.String()
	case VFloat:
		return x.t
	case VStr:
		return "str" + x.q.String()
	case VNil:
		return "nil"
	case VPtr:
		s := fmt.Sprintf("&o%d", x.obj)
		if x.idx != nil {
			s += "[" + x.idx.String() + "]"
		}
		for _, p := range x.path {
			s += fmt.Sprintf(".%d", p)
		}
		if x.nilS != 0 {
			s += "?"
		}
		return s
	case VSlice:
		return fmt.Sprintf("o%d[%s:+%s:%s]", x.obj, x.off, x.len, x.cap)
	case VMap:
		return fmt.Sprintf("map o%d", x.obj)
	case VIface:
		if x.dyn != nil {
			return fmt.Sprintf("iface(%s,%s)", x.dyn, vstr(x.val))
		}
		return "iface:" + x.id
	case VFunc:
		if x.fn != nil {
			return "func " + x.fn.String()
		}
		return "func:" + x.id
	case VTuple:
		var p []string
		for _, e := range x.v {
			p = append(p, vstr(e))
		}
		return "(" + strings.Join(p, ", ") + ")"
	case VStruct:
		var p []string
		for _, e := range x.f {
			p = append(p, vstr(e))
		}
		return "struct{" + strings.Join(p, ", ") + "}"
	case VOpaque:
		return "opaque:" + x.id
	case VArr:
		return fmt.Sprintf("arr o%d", x.obj)
	case VBytes:
		return "arr" + x.q.String()
	case VElems:
		return "elems"
	case VReflect:
		return "reflect(" + vstr(x.x) + ")"
	}
	return fmt.Sprintf("?%T", v)
}

// vkey is a canonical key for a value: equal keys mean equal values in the same state.
func vkey(v Val) string {
	switch x := v.(type) {
	case nil:
		return "-"
	case VInt:
		return "i" + x.l.key
	case VBool:
		if x.c.cst != 0 {
			return fmt.Sprintf("b%d", x.c.cst)
		}
		return fmt.Sprintf("b%d%s", x.c.f.op, x.c.f.l.key)
	case VFloat:
		return "f" + x.t
	case VStr:
		return "s" + x.q.key()
	case VNil:
		return "nil"
	case VPtr:
		s := fmt.Sprintf("p%d,%d", x.obj, x.nilS)
		if x.idx != nil {
			s += "[" + x.idx.key + "]"
		}
		return s + fmt.Sprint(x.path)
	case VSlice:
		return fmt.Sprintf("sl%d,%s,%s,%s,%d", x.obj, x.off.key, x.len.key, x.cap.key, x.nilS)
	case VMap:
		return fmt.Sprintf("m%d,%d", x.obj, x.nilS)
	case VIface:
		if x.dyn != nil {
			return "I" + x.dyn.String() + ":" + vkey(x.val)
		}
		return "U" + x.id
	case VFunc:
		s := "fn" + x.id
		if x.fn != nil {
			s += x.fn.String()
		}
		for _, b := range x.bind {
			s += "," + vkey(b)
		}
		return s
	case VTuple:
		s := "("
		for _, e := range x.v {
			s += vkey(e) + ","
		}
		return s + ")"
	case VStruct:
		s := "{"
		for _, e := range x.f {
			s += vkey(e) + ","
		}
		return s + "}"
	case VOpaque:
		return "o" + x.id
	case VArr:
		return fmt.Sprintf("a%d", x.obj)
	case VBytes:
		return "ab" + x.q.key()
	case VElems:
		return "ae" + objKey(x.o)
	case VReflect:
		return "R" + vkey(x.x)
	}
	panic(fmt.Sprintf("vkey %T", v))
}

func objKey(o *Obj) string {
	var sb strings.Builder
	fmt.Fprintf(&sb, "%d;", o.kind)
	sb.WriteString(vkey(o.v))
	sb.WriteString(";")
	sb.WriteString(o.q.key())
	for _, l := range []*Lin{o.len, o.mlen, o.pos} {
		sb.WriteString(";")
		if l != nil {
			sb.WriteString(l.key)
		}
	}
	for _, e := range o.el {
		sb.WriteString(";" + e.idx.key + "=" + vkey(e.v))
	}
	sb.WriteString(o.dflt + ";" + o.mbase + ";" + o.src + ";" + o.sq.key())
	for i := range o.mk {
		sb.WriteString(";" + vkey(o.mk[i]) + "=" + vkey(o.mv[i]))
	}
	return sb.String()
}

func sortedObjs(h map[ObjID]*Obj) []ObjID {
	var r []ObjID
	for k := range h {
		r = append(r, k)
	}
	sort.Slice(r, func(i, j int) bool { return r[i] < r[j] })
	return r
}
