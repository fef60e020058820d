package main

// Models of the standard-library functions the module calls.

import (
	"fmt"
	"go/token"
	"go/types"
	"math"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

var models map[string]modelFn

var errType = types.Universe.Lookup("error").Type()

func intOf(v Val) *Lin {
	if x, ok := v.(VInt); ok {
		return x.l
	}
	return freshLin("int?")
}

func strOf(st *State, v Val) Seq {
	if q, _, ok := valBytes(st, v); ok {
		return q
	}
	return freshBlob("str?", S(newSym("len?", 0, maxLen)))
}

// bufOf resolves the receiver of a bytes.Buffer method.
func bufOf(e *Eng, fr *Frame, st *State, v Val, pos token.Pos) (*State, ObjID) {
	s, p, ok := e.deref(fr, st, v, pos)
	if s == nil {
		return nil, 0
	}
	if ok {
		if o := s.obj(p.obj); o.kind == oBuf {
			return s, p.obj
		}
	}
	return s, 0
}

func bufAppend(st *State, id ObjID, q Seq) {
	if id == 0 {
		return
	}
	o := st.mut(id)
	o.q = st.cat(o.q, q)
}

func beBytes(st *State, l *Lin, w int, little bool) Seq {
	b := st.bits(l, w)
	var q Seq
	for i := w/8 - 1; i >= 0; i-- {
		q = append(q, Seg{k: sByte, v: st.fromBits(b[i*8:i*8+8], false, "byte")})
	}
	if little {
		for i, j := 0, len(q)-1; i < j; i, j = i+1, j-1 {
			q[i], q[j] = q[j], q[i]
		}
	}
	return q
}

func beInt(st *State, q Seq, w int, signed, little bool) *Lin {
	n := w / 8
	bv := make(BV, w)
	for i := 0; i < n; i++ {
		k := n - 1 - i
		if little {
			k = i
		}
		v := st.byteAt(q, K(int64(i)))
		copy(bv[k*8:], st.bits(v, 8))
	}
	return st.fromBits(bv, signed, "be")
}

// encodeFixed is binary.Write's encoding of a value.
func (e *Eng) encodeFixed(st *State, v Val, t types.Type, little bool) (Seq, bool) {
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		if p, ok := v.(VPtr); ok && p.nilS == 0 {
			return e.encodeFixed(st, st.load(p, u.Elem()), u.Elem(), little)
		}
		return nil, false
	case *types.Slice:
		if isByte(u.Elem()) {
			q, _, ok := valBytes(st, v)
			return q, ok
		}
		return nil, false
	case *types.Array:
		if b, ok := v.(VBytes); ok {
			return b.q, true
		}
		return nil, false
	case *types.Struct:
		s, ok := v.(VStruct)
		if !ok {
			return nil, false
		}
		var q Seq
		for i := range s.f {
			p, ok := e.encodeFixed(st, s.f[i], u.Field(i).Type(), little)
			if !ok {
				return nil, false
			}
			q = append(q, p...)
		}
		return q, true
	case *types.Basic:
		if w, _, ok := intInfo(t); ok && u.Kind() != types.Int && u.Kind() != types.Uint && u.Kind() != types.Uintptr {
			return beBytes(st, intOf(v), w, little), true
		}
		switch u.Kind() {
		case types.Bool:
			if b, ok := v.(VBool); ok && b.c.cst != 0 {
				if b.c.cst > 0 {
					return strSeq("\x01"), true
				}
				return strSeq("\x00"), true
			}
			return nil, false
		case types.Float64, types.Float32:
			f, ok := v.(VFloat)
			w := 64
			if u.Kind() == types.Float32 {
				w = 32
			}
			if !ok {
				return nil, false
			}
			return beBytes(st, floatBits(st, f.t, w), w, little), true
		}
	}
	return nil, false
}

// floatBits is the IEEE bit pattern of a float term.
func floatBits(st *State, t string, w int) *Lin {
	if f, ok := floatVal(t); ok && w == 64 {
		return st.fromBits(wideBits(math.Float64bits(f)), false, "bits64")
	}
	return S(floatBitsSym(t, w))
}

// floatVal is the value of a constant float term.
func floatVal(t string) (float64, bool) {
	if t == "" || !(t[0] >= '0' && t[0] <= '9' || len(t) > 1 && t[0] == '-' && t[1] >= '0' && t[1] <= '9') {
		return 0, false
	}
	f, err := strconv.ParseFloat(t, 64)
	return f, err == nil
}

// floatConst is the term of a finite constant.
func floatConst(f float64) VFloat {
	if f == math.Trunc(f) && math.Abs(f) < 1<<53 && !(f == 0 && math.Signbit(f)) {
		return VFloat{fmt.Sprint(int64(f))}
	}
	return VFloat{strconv.FormatFloat(f, 'g', -1, 64)}
}

// floatFold evaluates an operation on constants.
func floatFold(op token.Token, p, q string, t types.Type) Val {
	if b, ok := t.Underlying().(*types.Basic); !ok || b.Kind() != types.Float64 {
		return nil
	}
	f, ok := floatVal(p)
	g, ok2 := floatVal(q)
	if !ok || !ok2 {
		return nil
	}
	var r float64
	switch op {
	case token.LSS:
		return VBool{condB(f < g)}
	case token.LEQ:
		return VBool{condB(f <= g)}
	case token.GTR:
		return VBool{condB(f > g)}
	case token.GEQ:
		return VBool{condB(f >= g)}
	case token.ADD:
		r = f + g
	case token.SUB:
		r = f - g
	case token.MUL:
		r = f * g
	case token.QUO:
		r = f / g
	default:
		return nil
	}
	if math.IsInf(r, 0) || math.IsNaN(r) {
		return nil
	}
	return floatConst(r)
}

// wideBits are the bits of a 64-bit constant.
func wideBits(u uint64) BV {
	bv := make(BV, 64)
	for i := range bv {
		bv[i] = constBits(int64(u>>uint(i)&1), 1)[0]
	}
	return bv
}

func floatBitsSym(t string, w int) Sym {
	if strings.HasPrefix(t, "frombits") {
		if s, ok := symByKey["src:"+t]; ok {
			return s
		}
	}
	hi := inf
	if w == 32 {
		hi = 1<<32 - 1
	}
	return keySym(fmt.Sprintf("bits%d(%s)", w, t), 0, hi)
}

// floatFrom is the float with the given bit pattern.
func floatFrom(st *State, l *Lin, w int) VFloat {
	if w == 64 {
		u, known := uint64(0), true
		for i, b := range st.bits(l, 64) {
			if !b.isConst() {
				known = false
				break
			}
			if b.c {
				u |= 1 << uint(i)
			}
		}
		if f := math.Float64frombits(u); known && !math.IsNaN(f) && !math.IsInf(f, 0) {
			return floatConst(f)
		}
	}
	if s, ok := l.single(); ok {
		n := s.info().name
		p := fmt.Sprintf("bits%d(", w)
		if strings.HasPrefix(n, p) && strings.HasSuffix(n, ")") {
			return VFloat{n[len(p) : len(n)-1]}
		}
	}
	t := fmt.Sprintf("frombits%d(%s)", w, l.key)
	patternOf[t] = l
	return VFloat{t}
}

// patternOf is the bit pattern a float was made from.
var patternOf = map[string]*Lin{}

func (e *Eng) decodeFixed(st *State, q Seq, t types.Type, little bool) Val {
	u, ok := t.Underlying().(*types.Basic)
	if !ok {
		return unknown(t, fresh("binread"))
	}
	if w, s, ok := intInfo(t); ok {
		return VInt{beInt(st, q, w, s, little)}
	}
	switch u.Kind() {
	case types.Float64:
		return floatFrom(st, beInt(st, q, 64, false, little), 64)
	case types.Float32:
		return floatFrom(st, beInt(st, q, 32, false, little), 32)
	case types.Bool:
		return VBool{condEQ(st.byteAt(q, K(0))).not()}
	}
	return unknown(t, fresh("binread"))
}

func fixedSize(t types.Type) int64 {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if w, _, ok := intInfo(t); ok && u.Kind() != types.Int && u.Kind() != types.Uint {
			return int64(w / 8)
		}
		switch u.Kind() {
		case types.Float64:
			return 8
		case types.Float32:
			return 4
		case types.Bool:
			return 1
		}
	case *types.Array:
		if n := fixedSize(u.Elem()); n > 0 {
			return n * u.Len()
		}
	case *types.Struct:
		s := int64(0)
		for i := 0; i < u.NumFields(); i++ {
			n := fixedSize(u.Field(i).Type())
			if n < 0 {
				return -1
			}
			s += n
		}
		return s
	}
	return -1
}

func isLittle(v Val) bool {
	if i, ok := v.(VIface); ok && i.dyn != nil {
		return strings.Contains(i.dyn.String(), "littleEndian")
	}
	return false
}

// writeTo sends q to a writer value.
func (e *Eng) writeTo(fr *Frame, st *State, w Val, q Seq, pos token.Pos) []callOut {
	i, ok := w.(VIface)
	if !ok {
		if _, isN := w.(VNil); isN {
			e.oblige(fr, st, pos, "nil", condFalse, "write to nil writer")
			return nil
		}
		i = VIface{id: "writer?"}
	}
	p := st.newBytes(q, "data")
	if i.dyn != nil {
		ms := e.prog.MethodSets.MethodSet(i.dyn)
		for k := 0; k < ms.Len(); k++ {
			if ms.At(k).Obj().Name() == "Write" {
				return e.callFn(fr, st, e.prog.MethodValue(ms.At(k)), []Val{i.val, p}, nil, pos)
			}
		}
	}
	if i.nilS != 0 {
		st = e.oblige(fr, st, pos, "nil", isNil(i).not(), "writer may be nil")
		if st == nil {
			return nil
		}
	}
	if h, ok := e.hooks["iface:Write"]; ok {
		return h(e, fr, st, nil, []Val{i, p}, pos)
	}
	return e.ioWrite(fr, st, i, p, pos)
}

func subBlob(st *State, q Seq, name string) (Seq, *Lin, *Lin) {
	lo := keySym(name+".lo("+q.key()+")", 0, maxLen)
	n := keySym(name+".n("+q.key()+")", 0, maxLen)
	f := mkFact(GE, sub(q.size(), add(S(lo), S(n))))
	st.addRaw(f)
	r, _ := st.slice(q, S(lo), add(S(lo), S(n)))
	return r, S(lo), S(n)
}

// trimModel: result is a sub-range of the input.
func trimModel(name string, str bool, cutset func(args []Val, st *State) (string, bool)) modelFn {
	return func(e *Eng, fr *Frame, st *State, fn *ssa.Function, args []Val, pos token.Pos) []callOut {
		q := strOf(st, args[0])
		cs, okc := cutset(args, st)
		if c, ok := q.constStr(); ok && okc {
			t := strings.Trim(c, cs)
			if str {
				return one(st, VStr{strSeq(t)})
			}
			if sl, ok := args[0].(VSlice); ok {
				i := strings.Index(c, t)
				return one(st, VSlice{obj: sl.obj, off: addK(sl.off, int64(i)), len: K(int64(len(t))), cap: addK(sl.cap, -int64(i)), nilS: sl.nilS})
			}
			return one(st, VNil{})
		}
		qn := st.norm(q)
		// trimming characters off something already trimmed is the identity: approximate by key
		r, lo, n := subBlob(st, qn, name+strconv.Quote(cs))
		trimFacts(st, qn, lo, n, cs, okc)
		if str {
			return one(st, VStr{r})
		}
		if sl, ok := args[0].(VSlice); ok {
			return one(st, VSlice{obj: sl.obj, off: add(sl.off, lo), len: n, cap: sub(sl.cap, lo), nilS: sl.nilS})
		}
		return one(st, VNil{})
	}
}

func trimFacts(st *State, q Seq, lo, n *Lin, cs string, ok bool) {}

func (st *State) strFn(name string, args ...Seq) (string, Seq) {
	k := name + "("
	for i, a := range args {
		if i > 0 {
			k += ","
		}
		k += st.norm(a).key()
	}
	k += ")"
	return k, blob(k, K(0), S(keySym("len("+k+")", 0, maxLen)))
}

func caseModel(name string, f func(string) string) modelFn {
	return func(e *Eng, fr *Frame, st *State, fn *ssa.Function, args []Val, pos token.Pos) []callOut {
		q := strOf(st, args[0])
		if c, ok := q.constStr(); ok {
			return one(st, VStr{strSeq(f(c))})
		}
		_, r := st.strFn(name, q)
		return one(st, VStr{r})
	}
}

func pureModel(name string) modelFn {
	return func(e *Eng, fr *Frame, st *State, fn *ssa.Function, args []Val, pos token.Pos) []callOut {
		k := name + "("
		for i, a := range args {
			if i > 0 {
				k += ","
			}
			if q, _, ok := valBytes(st, a); ok {
				k += st.norm(q).key()
			} else {
				k += vkey(a)
			}
		}
		k += ")"
		return one(st, unknown(fn.Signature.Results(), k))
	}
}

func kindSym(id string) Sym { return keySym("kind("+id+")", 0, 26) }

var kindOf = map[types.BasicKind]int64{types.Bool: 1, types.Int: 2, types.Int8: 3, types.Int16: 4, types.Int32: 5, types.Int64: 6, types.Uint: 7, types.Uint8: 8, types.Uint16: 9, types.Uint32: 10, types.Uint64: 11, types.Uintptr: 12, types.Float32: 13, types.Float64: 14, types.Complex64: 15, types.Complex128: 16, types.String: 24}

func reflectKind(t types.Type) int64 {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return kindOf[u.Kind()]
	case *types.Array:
		return 17
	case *types.Chan:
		return 18
	case *types.Signature:
		return 19
	case *types.Interface:
		return 20
	case *types.Map:
		return 21
	case *types.Pointer:
		return 22
	case *types.Slice:
		return 23
	case *types.Struct:
		return 25
	}
	return 0
}

func init() {
	M := map[string]modelFn{}
	models = M
	// ---- errors, fmt
	M["errors.New"] = func(e *Eng, fr *Frame, st *State, fn *ssa.Function, args []Val, pos token.Pos) []callOut {
		return one(st, errVal(fmt.Sprintf("err@%d", pos)))
	}
	M["fmt.Errorf"] = M["errors.New"]
	M["fmt.Sprintf"] = func(e *Eng, fr *Frame, st *State, fn *ssa.Function, args []Val, pos token.Pos) []callOut {
		f, okf := strOf(st, args[0]).constStr()
		var va []Val
		okA := true
		if sl, ok := args[1].(VSlice); ok && sl.len.isConst() {
			for i := int64(0); i < sl.len.c; i++ {
				va = append(va, st.elemAt(sl.obj, addK(sl.off, i)))
			}
		} else if _, ok := args[1].(VNil); !ok {
			okA = false
		}
		if okf && okA {
			if q, ok := st.sprintf(f, va); ok {
				return one(st, VStr{q})
			}
		}
		k := "sprintf(" + strOf(st, args[0]).key()
		if okA {
			for _, a := range va {
				k += "," + vkey(a)
			}
		} else {
			k = fresh("sprintf")
		}
		k += ")"
		return one(st, VStr{blob(k, K(0), S(keySym("len("+k+")", 0, maxLen)))})
	}
	for _, n := range []string{"log.Fatal", "log.Fatalf", "log.Fatalln", "os.Exit"} {
		M[n] = func(e *Eng, fr *Frame, st *State, fn *ssa.Function, args []Val, pos token.Pos) []callOut {
			st.event(&Event{kind: "exit", pos: pos, fn: fr.fn})
			e.log = append(e.log, &Oblig{kind: "exit", pos: pos, fn: fr.fn, def: true, why: "process exit reachable", stack: fr.stack()})
			return nil
		}
	}
	// ---- strings / bytes
	M["strings.TrimSpace"] = trimModel("trimspace", true, func(a []Val, st *State) (string, bool) { return " \t\n\v\f\r\u0085\u00a0", true })
	M["bytes.TrimSpace"] = trimModel("trimspace", false, func(a []Val, st *State) (string, bool) { return " \t\n\v\f\r\u0085\u00a0", true })
	cut := func(a []Val, st *State) (string, bool) { return strOf(st, a[1]).constStr() }
	M["strings.Trim"] = trimModel("trim", true, cut)
	M["bytes.Trim"] = trimModel("trim", false, cut)
	M["strings.ToLower"] = caseModel("lower", strings.ToLower)
	M["strings.ToUpper"] = caseModel("upper", strings.ToUpper)
	index := func(e *Eng, fr *Frame, st *State, fn *ssa.Function, args []Val, pos token.Pos) []callOut {
		q, s := strOf(st, args[0]), strOf(st, args[1])
		if a, ok := q.constStr(); ok {
			if b, ok := s.constStr(); ok {
				return one(st, VInt{K(int64(strings.Index(a, b)))})
			}
		}
		k := "index(" + st.norm(q).key() + "," + st.norm(s).key() + ")"
		r := keySym(k, -1, maxLen)
		var out []callOut
		t := st.fork()
		if t.assume(condGE(S(r))) && t.assume(condGE(sub(sub(q.size(), s.size()), S(r)))) {
			if c, ok := s.constStr(); ok {
				for i := 0; i < len(c) && i < 8; i++ {
					v := t.byteAt(q, addK(S(r), int64(i)))
					if !v.isConst() {
						t.addFact(mkFact(EQ, addK(v, -int64(c[i]))))
					}
				}
			}
			out = append(out, callOut{t, VInt{S(r)}})
		}
		if st.assume(condEQ(addK(S(r), 1))) {
			out = append(out, callOut{st, VInt{K(-1)}})
		}
		return out
	}
	M["strings.Index"] = index
	M["bytes.Index"] = index
	M["strings.IndexByte"] = func(e *Eng, fr *Frame, st *State, fn *ssa.Function, args []Val, pos token.Pos) []callOut {
		s := st.newBytes(Seq{{k: sByte, v: intOf(args[1])}}, "b")
		return index(e, fr, st, fn, []Val{args[0], s}, pos)
	}
	M["bytes.IndexByte"] = M["strings.IndexByte"]
	M["strings.Contains"] = func(e *Eng, fr *Frame, st *State, fn *ssa.Function, args []Val, pos token.Pos) []callOut {
		var out []callOut
		for _, o := range index(e, fr, st, fn, args, pos) {
			out = append(out, callOut{o.st, VBool{condB(!intOf(o.res).is(-1))}})
		}
		return out
	}
	M["strings.LastIndex"] = func(e *Eng, fr *Frame, st *State, fn *ssa.Function, args []Val, pos token.Pos) []callOut {
		q, s := strOf(st, args[0]), strOf(st, args[1])
		k := "lastindex(" + st.norm(q).key() + "," + st.norm(s).key() + ")"
		r := keySym(k, -1, maxLen)
		var out []callOut
		t := st.fork()
		if t.assume(condGE(S(r))) && t.assume(condGE(sub(sub(q.size(), s.size()), S(r)))) {
			out = append(out, callOut{t, VInt{S(r)}})
		}
		if st.assume(condEQ(addK(S(r), 1))) {
			out = append(out, callOut{st, VInt{K(-1)}})
		}
		return out
	}
	prefix := func(suffix bool) modelFn {
		return func(e *Eng, fr *Frame, st *State, fn *ssa.Function, args []Val, pos token.Pos) []callOut {
			q, s := strOf(st, args[0]), strOf(st, args[1])
			n, m := q.size(), s.size()
			var out []callOut
			t := st.fork()
			if t.assume(condGE(sub(n, m))) {
				lo := K(0)
				if suffix {
					lo = sub(n, m)
				}
				part, _ := t.slice(q, lo, add(lo, m))
				out = append(out, callOut{t, VBool{e.strEq(t, part, s)}})
			}
			if st.assume(condGE(addK(sub(m, n), -1))) {
				out = append(out, callOut{st, VBool{condFalse}})
			}
			return out
		}
	}
	M["strings.HasPrefix"] = prefix(false)
	M["bytes.HasPrefix"] = prefix(false)
	M["strings.HasSuffix"] = prefix(true)
	M["bytes.HasSuffix"] = prefix(true)
	trimPrefix := func(suffix bool) modelFn {
		return func(e *Eng, fr *Frame, st *State, fn *ssa.Function, args []Val, pos token.Pos) []callOut {
			var out []callOut
			for _, o := range prefix(suffix)(e, fr, st, fn, args, pos) {
				q, s := strOf(o.st, args[0]), strOf(o.st, args[1])
				c := o.res.(VBool).c
				t := o.st.fork()
				if t.assume(c) {
					lo, hi := s.size(), q.size()
					if suffix {
						lo, hi = K(0), sub(q.size(), s.size())
					}
					r, _ := t.slice(q, lo, hi)
					out = append(out, callOut{t, VStr{r}})
				}
				if o.st.assume(c.not()) {
					out = append(out, callOut{o.st, VStr{q}})
				}
			}
			return out
		}
	}
	M["strings.TrimPrefix"] = trimPrefix(false)
	M["strings.TrimSuffix"] = trimPrefix(true)
	M["strings.EqualFold"] = func(e *Eng, fr *Frame, st *State, fn *ssa.Function, args []Val, pos token.Pos) []callOut {
		lo := func(q Seq) Seq {
			if c, ok := q.constStr(); ok {
				return strSeq(strings.ToLower(c))
			}
			_, r := st.strFn("lower", q)
			return r
		}
		return one(st, VBool{e.strEq(st, lo(strOf(st, args[0])), lo(strOf(st, args[1])))})
	}
	M["bytes.Equal"] = func(e *Eng, fr *Frame, st *State, fn *ssa.Function, args []Val, pos token.Pos) []callOut {
		return one(st, VBool{e.strEq(st, strOf(st, args[0]), strOf(st, args[1]))})
	}
	splitN := func(e *Eng, fr *Frame, st *State, fn *ssa.Function, args []Val, pos token.Pos) []callOut {
		q, s := strOf(st, args[0]), strOf(st, args[1])
		n := K(-1)
		if len(args) > 2 {
			n = intOf(args[2])
		}
		mk := func(t *State, parts []Seq) callOut {
			o := &Obj{kind: oElems, typ: types.Typ[types.String], len: K(int64(len(parts)))}
			for i, p := range parts {
				o.el = append(o.el, Elem{K(int64(i)), VStr{p}})
			}
			id := t.newObj(o)
			return callOut{t, VSlice{obj: id, off: K(0), len: o.len, cap: o.len}}
		}
		if n.isConst() && n.c >= 1 && n.c <= 4 {
			var out []callOut
			type w struct {
				st    *State
				parts []Seq
				rest  Seq
			}
			work := []w{{st, nil, q}}
			for i := int64(1); i < n.c; i++ {
				var next []w
				for _, x := range work {
					for _, o := range index(e, fr, x.st, fn, []Val{VStr{x.rest}, VStr{s}}, pos) {
						r := intOf(o.res)
						if r.is(-1) {
							out = append(out, mk(o.st, append(append([]Seq(nil), x.parts...), x.rest)))
							continue
						}
						a, _ := o.st.slice(x.rest, K(0), r)
						b, _ := o.st.slice(x.rest, add(r, s.size()), x.rest.size())
						next = append(next, w{o.st, append(append([]Seq(nil), x.parts...), a), b})
					}
				}
				work = next
			}
			for _, x := range work {
				out = append(out, mk(x.st, append(append([]Seq(nil), x.parts...), x.rest)))
			}
			return out
		}
		k := "split(" + st.norm(q).key() + "," + st.norm(s).key() + "," + n.key + ")"
		least := int64(0)
		if n.isConst() && n.c < 0 && st.gt0(s.size()) {
			least = 1
		}
		ln := keySym("len("+k+")", least, maxLen)
		if least == 1 {
			st.addRaw(mkFact(GE, addK(sub(q.size(), S(ln)), 1)))
		}
		id := lazyObj("[]"+k, func(st *State) *Obj {
			return &Obj{kind: oElems, typ: types.Typ[types.String], len: S(ln), dflt: k}
		})
		return one(st, VSlice{obj: id, off: K(0), len: S(ln), cap: S(ln)})
	}
	M["strings.SplitN"] = splitN
	M["strings.Split"] = splitN
	M["strings.Fields"] = pureModel("fields")
	M["strings.Join"] = func(e *Eng, fr *Frame, st *State, fn *ssa.Function, args []Val, pos token.Pos) []callOut {
		if sl, ok := args[0].(VSlice); ok && sl.len.isConst() && sl.len.c <= 32 {
			sep := strOf(st, args[1])
			var q Seq
			for i := int64(0); i < sl.len.c; i++ {
				if i > 0 {
					q = append(q, sep...)
				}
				q = append(q, strOf(st, st.elemAt(sl.obj, addK(sl.off, i)))...)
			}
			return one(st, VStr{st.norm(q)})
		}
		return one(st, unknown(types.Typ[types.String], fresh("join")))
	}
	M["strings.Replace"] = pureModel("replace")
	M["strings.ReplaceAll"] = pureModel("replaceall")
	// ---- strconv
	M["strconv.Itoa"] = func(e *Eng, fr *Frame, st *State, fn *ssa.Function, args []Val, pos token.Pos) []callOut {
		l := intOf(args[0])
		if lo, hi := st.rng(l); lo == hi {
			l = K(lo)
		}
		return one(st, VStr{itoaSeq(l)})
	}
	M["strconv.FormatInt"] = func(e *Eng, fr *Frame, st *State, fn *ssa.Function, args []Val, pos token.Pos) []callOut {
		if intOf(args[1]).is(10) {
			return one(st, VStr{itoaSeq(intOf(args[0]))})
		}
		return one(st, unknown(types.Typ[types.String], fresh("fmtint")))
	}
	M["strconv.Quote"] = func(e *Eng, fr *Frame, st *State, fn *ssa.Function, args []Val, pos token.Pos) []callOut {
		q := strOf(st, args[0])
		if c, ok := q.constStr(); ok {
			return one(st, VStr{strSeq(strconv.Quote(c))})
		}
		_, r := st.strFn("quote", q)
		return one(st, VStr{r})
	}
	M["strconv.Atoi"] = func(e *Eng, fr *Frame, st *State, fn *ssa.Function, args []Val, pos token.Pos) []callOut {
		q := strOf(st, args[0])
		if c, ok := q.constStr(); ok {
			n, err := strconv.Atoi(c)
			if err != nil {
				return one(st, tuple(VInt{K(int64(n))}, errVal("atoi")))
			}
			return one(st, tuple(VInt{K(int64(n))}, VNil{}))
		}
		k := st.norm(q).key()
		isn := condSym(keySym("isint("+k+")", 0, 1))
		var out []callOut
		t := st.fork()
		if t.assume(isn) && t.assume(condGE(addK(q.size(), -1))) {
			out = append(out, callOut{t, tuple(VInt{S(keySym("atoi("+k+")", -inf, inf))}, VNil{})})
		}
		if st.assume(isn.not()) {
			out = append(out, callOut{st, tuple(VInt{S(keySym("atoierr("+k+")", -inf, inf))}, errVal("atoi"))})
		}
		return out
	}
	// ---- sort
	M["sort.Strings"] = func(e *Eng, fr *Frame, st *State, fn *ssa.Function, args []Val, pos token.Pos) []callOut {
		if sl, ok := args[0].(VSlice); ok && sl.len.isConst() && sl.len.c <= 3 {
			// every order, with the comparisons it implies
			n := int(sl.len.c)
			qs := make([]Seq, n)
			for i := range qs {
				qs[i] = strOf(st, st.elemAt(sl.obj, addK(sl.off, int64(i))))
			}
			less := func(a, b Seq) Cond {
				if a.key() > b.key() {
					if x, ok := a.constStr(); ok {
						if y, ok := b.constStr(); ok {
							return condB(x < y)
						}
					}
					return strLess(e, st, b, a).not() // equal strings may be in any order
				}
				return strLess(e, st, a, b)
			}
			var out []callOut
			var perm func(p []int, used int)
			perm = func(p []int, used int) {
				if len(p) == n {
					t := st.fork()
					for i := range p {
						for j := i + 1; j < n; j++ {
							a, b := qs[p[i]], qs[p[j]]
							if a.key() == b.key() {
								if p[i] > p[j] {
									return
								}
								continue
							}
							if !t.assume(less(a, b)) {
								return
							}
						}
					}
					for i := range p {
						t.store(VPtr{obj: sl.obj, idx: addK(sl.off, int64(i))}, VStr{qs[p[i]]}, types.Typ[types.String])
					}
					out = append(out, callOut{t, nil})
					return
				}
				for i := 0; i < n; i++ {
					if used&(1<<i) == 0 {
						perm(append(append([]int(nil), p...), i), used|1<<i)
					}
				}
			}
			perm(nil, 0)
			return out
		}
		if sl, ok := args[0].(VSlice); ok {
			o := st.mut(sl.obj)
			base := o.dflt
			if base == "" || len(o.el) > 0 {
				base = fresh("elems")
			}
			o.el, o.dflt = nil, "sorted("+base+")"
			st.event(&Event{kind: "sort", obj: sl.obj, pos: pos, fn: fr.fn})
		}
		return one(st, nil)
	}
	// ---- math
	M["math.Exp2"] = func(e *Eng, fr *Frame, st *State, fn *ssa.Function, args []Val, pos token.Pos) []callOut {
		f, _ := args[0].(VFloat)
		if n, err := strconv.Atoi(f.t); err == nil && n >= 0 && n < 53 {
			return one(st, VFloat{fmt.Sprint(int64(1) << uint(n))})
		}
		return one(st, VFloat{"exp2(" + f.t + ")"})
	}
	M["math.Float64bits"] = func(e *Eng, fr *Frame, st *State, fn *ssa.Function, args []Val, pos token.Pos) []callOut {
		f, _ := args[0].(VFloat)
		if l := patternOf[f.t]; l != nil && strings.HasPrefix(f.t, "frombits64(") {
			return one(st, VInt{l})
		}
		return one(st, VInt{floatBits(st, f.t, 64)})
	}
	M["math.Float64frombits"] = func(e *Eng, fr *Frame, st *State, fn *ssa.Function, args []Val, pos token.Pos) []callOut {
		return one(st, floatFrom(st, intOf(args[0]), 64))
	}
	// ---- time
	M["time.Unix"] = func(e *Eng, fr *Frame, st *State, fn *ssa.Function, args []Val, pos token.Pos) []callOut {
		n := "unixtime(" + intOf(args[0]).key + "," + intOf(args[1]).key + ")"
		if intOf(args[1]).is(0) {
			unixOf[n] = intOf(args[0])
		}
		return one(st, VOpaque{n})
	}
	M["(time.Time).UTC"] = func(e *Eng, fr *Frame, st *State, fn *ssa.Function, args []Val, pos token.Pos) []callOut {
		// the same instant
		return one(st, args[0])
	}
	timeGet := func(name string, lo, hi int64) modelFn {
		return func(e *Eng, fr *Frame, st *State, fn *ssa.Function, args []Val, pos token.Pos) []callOut {
			if o, ok := args[0].(VOpaque); ok && name == "unix" && unixOf[o.id] != nil {
				return one(st, VInt{unixOf[o.id]})
			}
			return one(st, VInt{S(keySym(name+"("+vkey(args[0])+")", lo, hi))})
		}
	}
	M["(time.Time).Unix"] = timeGet("unix", -inf, inf)
	M["(time.Time).UnixNano"] = timeGet("unixnano", -inf, inf)
	M["(time.Time).UnixMilli"] = timeGet("unixmilli", -inf, inf)
	M["(time.Time).Nanosecond"] = timeGet("nanosecond", 0, 999999999)
	// ---- bytes.Buffer
	M["bytes.NewBuffer"] = func(e *Eng, fr *Frame, st *State, fn *ssa.Function, args []Val, pos token.Pos) []callOut {
		q, _, _ := valBytes(st, args[0])
		if sl, ok := args[0].(VSlice); ok {
			st.event(&Event{kind: "bufwrap", obj: sl.obj, pos: pos, fn: fr.fn})
		}
		return one(st, VPtr{obj: st.newObj(&Obj{kind: oBuf, q: q})})
	}
	M["bytes.NewBufferString"] = M["bytes.NewBuffer"]
	for _, T := range []string{"(*bytes.Buffer)", "(*strings.Builder)"} {
		M[T+".Write"] = func(e *Eng, fr *Frame, st *State, fn *ssa.Function, args []Val, pos token.Pos) []callOut {
			q, n, _ := valBytes(st, args[1])
			s, id := bufOf(e, fr, st, args[0], pos)
			if s == nil {
				return nil
			}
			bufAppend(s, id, q)
			return one(s, tuple(VInt{n}, VNil{}))
		}
		M[T+".WriteString"] = M[T+".Write"]
		M[T+".WriteByte"] = func(e *Eng, fr *Frame, st *State, fn *ssa.Function, args []Val, pos token.Pos) []callOut {
			s, id := bufOf(e, fr, st, args[0], pos)
			if s == nil {
				return nil
			}
			bufAppend(s, id, Seq{{k: sByte, v: intOf(args[1])}})
			return one(s, VNil{})
		}
		M[T+".WriteRune"] = func(e *Eng, fr *Frame, st *State, fn *ssa.Function, args []Val, pos token.Pos) []callOut {
			s, id := bufOf(e, fr, st, args[0], pos)
			if s == nil {
				return nil
			}
			r := intOf(args[1])
			var out []callOut
			a := s.fork()
			if a.assume(condGE(r)) && a.assume(condGE(sub(K(127), r))) {
				bufAppend(a, id, Seq{{k: sByte, v: r}})
				out = append(out, callOut{a, tuple(VInt{K(1)}, VNil{})})
			}
			n := S(newSym("runelen", 1, 4))
			for i, c := range []Cond{condGE(addK(r, -128)), condGE(sub(K(-1), r))} {
				a := s.fork()
				if !a.assume(c) {
					continue
				}
				k := n
				if i == 1 { // an invalid rune is written as U+FFFD
					k = K(3)
				}
				bufAppend(a, id, freshBlob("rune", k))
				out = append(out, callOut{a, tuple(VInt{k}, VNil{})})
			}
			return out
		}
		M[T+".Len"] = func(e *Eng, fr *Frame, st *State, fn *ssa.Function, args []Val, pos token.Pos) []callOut {
			s, id := bufOf(e, fr, st, args[0], pos)
			if s == nil {
				return nil
			}
			if id == 0 {
				return one(s, VInt{S(newSym("buflen", 0, maxLen))})
			}
			return one(s, VInt{s.obj(id).q.size()})
		}
		M[T+".String"] = func(e *Eng, fr *Frame, st *State, fn *ssa.Function, args []Val, pos token.Pos) []callOut {
			s, id := bufOf(e, fr, st, args[0], pos)
			if s == nil {
				return nil
			}
			if id == 0 {
				return one(s, unknown(types.Typ[types.String], fresh("buf")))
			}
			return one(s, VStr{s.obj(id).q})
		}
		M[T+".Reset"] = func(e *Eng, fr *Frame, st *State, fn *ssa.Function, args []Val, pos token.Pos) []callOut {
			s, id := bufOf(e, fr, st, args[0], pos)
			if s == nil {
				return nil
			}
			if id != 0 {
				s.mut(id).q = nil
			}
			return one(s, nil)
		}
		M[T+".Grow"] = func(e *Eng, fr *Frame, st *State, fn *ssa.Function, args []Val, pos token.Pos) []callOut {
			n := intOf(args[1])
			s := e.oblige(fr, st, pos, "makesize", condGE(n), "negative count passed to Grow")
			if s == nil {
				return nil
			}
			s = e.reserve(fr, s, pos, n, types.Typ[types.Uint8])
			if s == nil {
				return nil
			}
			return one(s, nil)
		}
	}
	M["(*bytes.Buffer).Bytes"] = func(e *Eng, fr *Frame, st *State, fn *ssa.Function, args []Val, pos token.Pos) []callOut {
		s, id := bufOf(e, fr, st, args[0], pos)
		if s == nil {
			return nil
		}
		if id == 0 {
			return one(s, nonNil(unknown(types.NewSlice(types.Typ[types.Uint8]), fresh("buf"))))
		}
		return one(s, s.newBytes(s.obj(id).q, "bufbytes"))
	}
	M["(*bytes.Buffer).Truncate"] = func(e *Eng, fr *Frame, st *State, fn *ssa.Function, args []Val, pos token.Pos) []callOut {
		s, id := bufOf(e, fr, st, args[0], pos)
		if s == nil {
			return nil
		}
		n := intOf(args[1])
		if id != 0 {
			q := s.obj(id).q
			s = e.oblige(fr, s, pos, "slice", condGE(n), "negative truncation")
			if s == nil {
				return nil
			}
			s = e.oblige(fr, s, pos, "slice", condGE(sub(q.size(), n)), "truncation out of range")
			if s == nil {
				return nil
			}
			r, _ := s.slice(q, K(0), n)
			s.mut(id).q = r
		}
		return one(s, nil)
	}
	M["(*bytes.Buffer).Next"] = func(e *Eng, fr *Frame, st *State, fn *ssa.Function, args []Val, pos token.Pos) []callOut {
		s, id := bufOf(e, fr, st, args[0], pos)
		if s == nil {
			return nil
		}
		if id == 0 {
			return one(s, nonNil(unknown(types.NewSlice(types.Typ[types.Uint8]), fresh("buf"))))
		}
		n := intOf(args[1])
		var out []callOut
		sz := s.obj(id).q.size()
		t := s.fork()
		if t.assume(condGE(sub(sz, n))) {
			q := t.take(id, n)
			out = append(out, callOut{t, t.newBytes(q, "next")})
		}
		if s.assume(condGE(addK(sub(n, sz), -1))) {
			q := s.take(id, sz)
			out = append(out, callOut{s, s.newBytes(q, "next")})
		}
		return out
	}
	// ---- bytes.Reader and generic reading
	newReader := func(e *Eng, fr *Frame, st *State, fn *ssa.Function, args []Val, pos token.Pos) []callOut {
		q, _, _ := valBytes(st, args[0])
		return one(st, VPtr{obj: st.newObj(&Obj{kind: oReader, sq: q, known: true, pos: K(0)})})
	}
	M["bytes.NewReader"] = newReader
	M["strings.NewReader"] = newReader
	readAs := func(buffered bool) modelFn {
		return func(e *Eng, fr *Frame, st *State, fn *ssa.Function, args []Val, pos token.Pos) []callOut {
			s, _, _ := e.deref(fr, st, args[0], pos)
			if s == nil {
				return nil
			}
			return e.ioRead(fr, s, args[0], args[1], buffered, pos)
		}
	}
	readByte := func(e *Eng, fr *Frame, st *State, fn *ssa.Function, args []Val, pos token.Pos) []callOut {
		id, ok := e.source(st, args[0])
		if !ok {
			return one(st, unknown(fn.Signature.Results(), fresh("readbyte")))
		}
		s, q, fails := e.readN(fr, st, id, K(1), pos)
		var out []callOut
		for _, f := range fails {
			out = append(out, callOut{f.st, tuple(VInt{K(0)}, f.res)})
		}
		if s != nil {
			out = append(out, callOut{s, tuple(VInt{s.byteAt(q, K(0))}, VNil{})})
		}
		return out
	}
	remain := func(e *Eng, fr *Frame, st *State, fn *ssa.Function, args []Val, pos token.Pos) []callOut {
		id, ok := e.source(st, args[0])
		if ok {
			if o := st.obj(id); o.kind == oReader && o.end() != nil {
				return one(st, VInt{sub(o.end(), o.pos)})
			}
		}
		return one(st, VInt{S(newSym("rem", 0, maxLen))})
	}
	for _, T := range []string{"(*bytes.Reader)", "(*strings.Reader)", "(*bytes.Buffer)", "(*bufio.Reader)"} {
		M[T+".Read"] = readAs(T == "(*bufio.Reader)")
		M[T+".ReadByte"] = readByte
	}
	M["(*bytes.Reader).Len"] = remain
	M["(*strings.Reader).Len"] = remain
	M["bufio.NewReader"] = func(e *Eng, fr *Frame, st *State, fn *ssa.Function, args []Val, pos token.Pos) []callOut {
		if id, ok := e.source(st, args[0]); ok {
			return one(st, VPtr{obj: id})
		}
		return one(st, VPtr{obj: readerObj(fresh("bufio"))})
	}
	M["bufio.NewReaderSize"] = M["bufio.NewReader"]
	readLine := func(str bool) modelFn {
		return func(e *Eng, fr *Frame, st *State, fn *ssa.Function, args []Val, pos token.Pos) []callOut {
			id, ok := e.source(st, args[0])
			if !ok {
				return one(st, unknown(fn.Signature.Results(), fresh("readslice")))
			}
			mk := func(s *State, q Seq) Val {
				if str {
					return VStr{q}
				}
				return s.newBytes(q, "line")
			}
			o := st.obj(id)
			var avail *Lin
			if o.end() != nil {
				avail = sub(o.end(), o.pos)
			}
			var out []callOut
			// a line ending in the delimiter
			s := st.fork()
			n := newSym("linelen", 1, maxLen)
			if avail == nil || s.assume(condGE(sub(avail, S(n)))) {
				q := s.take(id, S(n))
				last := s.byteAt(q, addK(S(n), -1))
				d := intOf(args[1])
				okd := true
				if last.isConst() {
					okd = last == d
				} else {
					okd = s.addFact(mkFact(EQ, sub(last, d)))
				}
				if okd {
					s.event(&Event{kind: "readline", id: fmt.Sprint(id), q: q, n: S(n), pos: pos, fn: fr.fn})
					out = append(out, callOut{s, tuple(mk(s, q), VNil{})})
				}
			}
			// end of data: the remainder
			s = st.fork()
			var q Seq
			if avail != nil {
				q = s.take(id, avail)
			} else {
				m := newSym("rest", 0, maxLen)
				q = s.take(id, S(m))
			}
			s.event(&Event{kind: "readrest", id: fmt.Sprint(id), q: q, n: q.size(), pos: pos, fn: fr.fn})
			out = append(out, callOut{s, tuple(mk(s, q), VIface{id: "new:io.EOF"})})
			// failure (read error, or bufio.ErrBufferFull)
			s = st.fork()
			m := newSym("part", 0, maxLen)
			if avail == nil || s.assume(condGE(sub(avail, S(m)))) {
				q := s.take(id, S(m))
				out = append(out, callOut{s, tuple(mk(s, q), errVal("readslice"))})
			}
			return out
		}
	}
	M["(*bufio.Reader).ReadSlice"] = readLine(false)
	M["(*bufio.Reader).ReadBytes"] = readLine(false)
	M["(*bufio.Reader).ReadString"] = readLine(true)
	// ---- io
	M["io.ReadFull"] = func(e *Eng, fr *Frame, st *State, fn *ssa.Function, args []Val, pos token.Pos) []callOut {
		sl, ok2 := args[1].(VSlice)
		if _, isN := args[1].(VNil); isN {
			return one(st, tuple(VInt{K(0)}, VNil{}))
		}
		if i, ok := args[0].(VIface); ok && i.dyn == nil && i.nilS != 0 {
			st = e.oblige(fr, st, pos, "nil", isNil(i).not(), "reader may be nil")
			if st == nil {
				return nil
			}
		}
		id, ok := e.source(st, args[0])
		if !ok || !ok2 {
			return one(st, tuple(VInt{S(newSym("n", 0, maxLen))}, unknown(errType, fresh("err"))))
		}
		s, q, fails := e.readN(fr, st, id, sl.len, pos)
		var out []callOut
		for _, f := range fails {
			n := newSym("got", 0, maxLen)
			f.st.addRaw(mkFact(GE, addK(sub(sl.len, S(n)), -1)))
			m := f.st.mut(sl.obj)
			m.q = f.st.overwrite(m.q, sl.off, freshBlob("partial", sl.len))
			out = append(out, callOut{f.st, tuple(VInt{S(n)}, f.res)})
		}
		if s != nil {
			m := s.mut(sl.obj)
			m.q = s.overwrite(m.q, sl.off, q)
			out = append(out, callOut{s, tuple(VInt{sl.len}, VNil{})})
		}
		return out
	}
	M["io.ReadAtLeast"] = func(e *Eng, fr *Frame, st *State, fn *ssa.Function, args []Val, pos token.Pos) []callOut {
		return M["io.ReadFull"](e, fr, st, fn, args[:2], pos)
	}
	M["io.CopyN"] = func(e *Eng, fr *Frame, st *State, fn *ssa.Function, args []Val, pos token.Pos) []callOut {
		n := intOf(args[2])
		id, ok := e.source(st, args[1])
		if !ok {
			return one(st, tuple(VInt{S(newSym("n", 0, maxLen))}, unknown(errType, fresh("err"))))
		}
		var out []callOut
		z := st.fork()
		if z.assume(condGE(neg(n))) {
			out = append(out, callOut{z, tuple(VInt{K(0)}, VNil{})})
		}
		if !st.assume(condGE(addK(n, -1))) {
			return out
		}
		s, q, fails := e.readN(fr, st, id, n, pos)
		for _, f := range fails {
			m := newSym("got", 0, maxLen)
			f.st.addRaw(mkFact(GE, addK(sub(n, S(m)), -1)))
			err := f.res
			if i, ok := err.(VIface); ok && i.id == "new:io.ErrUnexpectedEOF" {
				err = VIface{id: "new:io.EOF"}
			}
			for _, w := range e.writeTo(fr, f.st, args[0], freshBlob("partial", S(m)), pos) {
				out = append(out, callOut{w.st, tuple(VInt{S(m)}, err)})
			}
		}
		if s != nil {
			for _, w := range e.writeTo(fr, s, args[0], q, pos) {
				t := w.res.(VTuple)
				out = append(out, callOut{w.st, tuple(t.v[0], t.v[1])})
			}
		}
		return out
	}
	M["io.WriteString"] = func(e *Eng, fr *Frame, st *State, fn *ssa.Function, args []Val, pos token.Pos) []callOut {
		return e.writeTo(fr, st, args[0], strOf(st, args[1]), pos)
	}
	// ---- encoding/binary
	M["encoding/binary.Write"] = func(e *Eng, fr *Frame, st *State, fn *ssa.Function, args []Val, pos token.Pos) []callOut {
		d, ok := args[2].(VIface)
		var q Seq
		if ok && d.dyn != nil {
			q, ok = e.encodeFixed(st, d.val, d.dyn, isLittle(args[1]))
		} else {
			ok = false
		}
		if !ok {
			e.note("binary.Write of unmodelled value at " + e.fset.Position(pos).String())
			q = freshBlob("binwrite", S(newSym("n", 0, maxLen)))
		}
		var out []callOut
		for _, o := range e.writeTo(fr, st, args[0], q, pos) {
			out = append(out, callOut{o.st, o.res.(VTuple).v[1]})
		}
		return out
	}
	M["encoding/binary.Read"] = func(e *Eng, fr *Frame, st *State, fn *ssa.Function, args []Val, pos token.Pos) []callOut {
		id, ok := e.source(st, args[0])
		d, ok2 := args[2].(VIface)
		if i, okI := args[0].(VIface); okI && i.dyn == nil && i.nilS != 0 {
			st = e.oblige(fr, st, pos, "nil", isNil(i).not(), "reader may be nil")
			if st == nil {
				return nil
			}
		}
		if ok && ok2 && d.dyn != nil {
			if pt, okp := d.dyn.Underlying().(*types.Pointer); okp {
				if p, okv := d.val.(VPtr); okv {
					if n := fixedSize(pt.Elem()); n > 0 {
						s, q, fails := e.readN(fr, st, id, K(n), pos)
						var out []callOut
						for _, f := range fails {
							out = append(out, callOut{f.st, f.res})
						}
						if s != nil {
							s.store(p, e.decodeFixed(s, q, pt.Elem(), isLittle(args[1])), pt.Elem())
							out = append(out, callOut{s, VNil{}})
						}
						return out
					}
				}
			}
		}
		e.note("binary.Read of unmodelled value at " + e.fset.Position(pos).String())
		e.havocArg(st, args[2])
		e.havocArg(st, args[0])
		return one(st, unknown(errType, fresh("err")))
	}
	// ---- reflect
	M["reflect.ValueOf"] = func(e *Eng, fr *Frame, st *State, fn *ssa.Function, args []Val, pos token.Pos) []callOut {
		return one(st, VReflect{args[0]})
	}
	rv := func(v Val) (VIface, bool) {
		r, ok := v.(VReflect)
		if !ok {
			return VIface{}, false
		}
		i, ok := r.x.(VIface)
		return i, ok
	}
	M["(reflect.Value).Kind"] = func(e *Eng, fr *Frame, st *State, fn *ssa.Function, args []Val, pos token.Pos) []callOut {
		if r, ok := args[0].(VReflect); ok {
			if _, isN := r.x.(VNil); isN {
				return one(st, VInt{K(0)})
			}
		}
		i, ok := rv(args[0])
		if !ok {
			return one(st, VInt{S(newSym("kind", 0, 26))})
		}
		if i.dyn != nil {
			return one(st, VInt{K(reflectKind(i.dyn))})
		}
		// kind 0 iff nil
		if i.nilS == 0 {
			st.addRaw(mkFact(GE, addK(S(kindSym(i.id)), -1)))
			return one(st, VInt{S(kindSym(i.id))})
		}
		var out []callOut
		t := st.fork()
		if t.assume(isNil(i)) {
			out = append(out, callOut{t, VInt{K(0)}})
		}
		if st.assume(isNil(i).not()) && st.assume(condGE(addK(S(kindSym(i.id)), -1))) {
			out = append(out, callOut{st, VInt{S(kindSym(i.id))}})
		}
		return out
	}
	get := func(name string, conv func(e *Eng, fr *Frame, st *State, i VIface, pos token.Pos) Val, kinds ...int64) {
		M["(reflect.Value)."+name] = func(e *Eng, fr *Frame, st *State, fn *ssa.Function, args []Val, pos token.Pos) []callOut {
			i, ok := rv(args[0])
			if !ok {
				return one(st, unknown(fn.Signature.Results(), fresh("reflect"+name)))
			}
			// the accessor panics for other kinds
			k := S(kindSym(i.id))
			if i.dyn != nil {
				k = K(reflectKind(i.dyn))
			}
			good := false
			for _, x := range kinds {
				if st.eq(k, K(x)) {
					good = true
				}
			}
			if !good {
				// range of kinds
				mn, mx := kinds[0], kinds[0]
				for _, x := range kinds {
					if x < mn {
						mn = x
					}
					if x > mx {
						mx = x
					}
				}
				st = e.oblige(fr, st, pos, "reflect", condGE(addK(k, -mn)), "reflect."+name+" on wrong kind")
				if st == nil {
					return nil
				}
				st = e.oblige(fr, st, pos, "reflect", condGE(addK(neg(k), mx)), "reflect."+name+" on wrong kind")
				if st == nil {
					return nil
				}
				for x := mn + 1; x < mx; x++ {
					in := false
					for _, y := range kinds {
						in = in || x == y
					}
					if !in {
						st = e.oblige(fr, st, pos, "reflect", condEQ(addK(k, -x)).not(), "reflect."+name+" on wrong kind")
						if st == nil {
							return nil
						}
					}
				}
			}
			if i.dyn != nil {
				return one(st, conv(e, fr, st, i, pos))
			}
			// known by id
			if name == "Len" {
				return one(st, VInt{S(keySym("rv.Len("+i.id+")", 0, maxLen))})
			}
			nm := "rv." + name + "(" + i.id + ")"
			return one(st, unknown(fn.Signature.Results(), nm))
		}
	}
	same := func(e *Eng, fr *Frame, st *State, i VIface, pos token.Pos) Val { return i.val }
	get("Int", same, 2, 3, 4, 5, 6)
	get("Uint", same, 7, 8, 9, 10, 11, 12)
	get("Float", same, 13, 14)
	get("Bool", same, 1)
	get("Len", func(e *Eng, fr *Frame, st *State, i VIface, pos token.Pos) Val {
		return VInt{st.lenOf(i.val, i.dyn)}
	}, 17, 23, 24, 21, 18)
	models["(reflect.Value).String"] = func(e *Eng, fr *Frame, st *State, fn *ssa.Function, args []Val, pos token.Pos) []callOut {
		i, ok := rv(args[0])
		if !ok {
			return one(st, unknown(fn.Signature.Results(), fresh("reflectString")))
		}
		if i.dyn != nil {
			if s, ok := i.val.(VStr); ok {
				return one(st, s)
			}
		}
		return one(st, unknown(types.Typ[types.String], "rv.String("+i.id+")"))
	}
	M["(reflect.Value).Index"] = func(e *Eng, fr *Frame, st *State, fn *ssa.Function, args []Val, pos token.Pos) []callOut {
		i, ok := rv(args[0])
		x := intOf(args[1])
		if !ok {
			return one(st, VReflect{VIface{id: fresh("relem"), nilS: newSym("typ", 0, inf)}})
		}
		var n *Lin
		if i.dyn != nil {
			n = st.lenOf(i.val, i.dyn)
		} else {
			n = S(keySym("len("+"rv.Len("+i.id+"))", 0, maxLen))
			n = S(keySym("rv.Len("+i.id+")", 0, maxLen))
		}
		st = e.inBounds(fr, st, pos, x, n)
		if st == nil {
			return nil
		}
		if i.dyn != nil {
			if at, ok := i.dyn.Underlying().(*types.Array); ok && x.isConst() {
				if v := arrayElem(st, i.val, int(x.c), at.Elem()); v != nil {
					if _, isI := at.Elem().Underlying().(*types.Interface); isI {
						return one(st, VReflect{v})
					}
					return one(st, VReflect{VIface{dyn: at.Elem(), val: v}})
				}
			}
			if sl, ok := i.val.(VSlice); ok {
				et := i.dyn.Underlying().(*types.Slice).Elem()
				var v Val
				if isByte(et) {
					v = st.load(VPtr{obj: sl.obj, idx: add(sl.off, x)}, et)
				} else {
					v = st.toVal(st.elemAt(sl.obj, add(sl.off, x)), et)
				}
				if _, isI := et.Underlying().(*types.Interface); isI {
					return one(st, VReflect{v})
				}
				return one(st, VReflect{VIface{dyn: et, val: v}})
			}
		}
		nm := "rv.Index(" + i.id + "," + x.key + ")"
		return one(st, VReflect{VIface{id: nm, nilS: keySym("typ("+nm+")", 0, inf)}})
	}
	M["(reflect.Value).Interface"] = func(e *Eng, fr *Frame, st *State, fn *ssa.Function, args []Val, pos token.Pos) []callOut {
		if r, ok := args[0].(VReflect); ok {
			if i, ok := r.x.(VIface); ok {
				return one(st, i)
			}
			return one(st, r.x)
		}
		return one(st, unknown(fn.Signature.Results(), fresh("rv")))
	}
	M["(reflect.Value).IsNil"] = func(e *Eng, fr *Frame, st *State, fn *ssa.Function, args []Val, pos token.Pos) []callOut {
		if r, ok := args[0].(VReflect); ok {
			if i, ok := r.x.(VIface); ok && i.dyn != nil {
				return one(st, VBool{isNil(i.val)})
			}
		}
		return one(st, unknown(fn.Signature.Results(), fresh("rvnil")))
	}
	for _, n := range []string{"Type", "Elem", "MapKeys", "NumField"} {
		n := n
		M["(reflect.Value)."+n] = func(e *Eng, fr *Frame, st *State, fn *ssa.Function, args []Val, pos token.Pos) []callOut {
			return one(st, nonNil(unknown(fn.Signature.Results(), fresh("reflect"+n))))
		}
	}
}

func itoaSeq(l *Lin) Seq {
	if l.isConst() {
		return strSeq(strconv.FormatInt(l.c, 10))
	}
	k := "itoa(" + l.key + ")"
	return blob(k, K(0), S(keySym("len("+k+")", 1, 20)))
}

// sprintf handles the simple verbs.
func (st *State) sprintf(f string, args []Val) (Seq, bool) {
	var q Seq
	ai := 0
	for i := 0; i < len(f); i++ {
		if f[i] != '%' {
			q = append(q, Seg{k: sByte, v: K(int64(f[i]))})
			continue
		}
		i++
		if i >= len(f) {
			return nil, false
		}
		if f[i] == '%' {
			q = append(q, Seg{k: sByte, v: K('%')})
			continue
		}
		if ai >= len(args) {
			return nil, false
		}
		a, ok := args[ai].(VIface)
		ai++
		if !ok || a.dyn == nil {
			return nil, false
		}
		switch f[i] {
		case 's', 'v':
			if s, ok := a.val.(VStr); ok && isPlain(a.dyn) {
				q = append(q, s.q...)
				continue
			}
			if n, ok := a.val.(VInt); ok && f[i] == 'v' && isPlain(a.dyn) {
				q = append(q, itoaSeq(n.l)...)
				continue
			}
			if f[i] == 's' && isByteSlice(a.dyn) {
				b, _, ok := valBytes(st, a.val)
				if ok {
					q = append(q, b...)
					continue
				}
			}
			return nil, false
		case 'd':
			n, ok := a.val.(VInt)
			if !ok {
				return nil, false
			}
			q = append(q, itoaSeq(n.l)...)
		default:
			return nil, false
		}
	}
	if ai != len(args) {
		return nil, false
	}
	return st.norm(q), true
}

// isPlain: no String/Error method changes the formatting.
func isPlain(t types.Type) bool {
	_, ok := types.Unalias(t).(*types.Basic)
	return ok
}

// unixOf: the seconds a time was made from.
var unixOf = map[string]*Lin{}

// arrayElem is an element of an array value.
func arrayElem(st *State, v Val, i int, t types.Type) Val {
	switch a := v.(type) {
	case VBytes:
		return VInt{st.byteAt(a.q, K(int64(i)))}
	case VElems:
		return st.toVal(st.elemAt(st.newObj(a.o), K(int64(i))), t)
	}
	return nil
}
