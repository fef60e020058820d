package main

// Memory: variables, arrays, lazily materialised unknown objects.

import (
	"fmt"
	"go/types"
	"os"
	"runtime/debug"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const maxLen = int64(1) << 48 // stated assumption: no slice or string is longer than this

var objCount ObjID
var typeNums = map[string]int64{}

func typeNum(t types.Type) int64 {
	k := types.TypeString(t, nil)
	if n, ok := typeNums[k]; ok {
		return n
	}
	typeNums[k] = int64(len(typeNums) + 1)
	return typeNums[k]
}

type lazyRec struct {
	make func(st *State) *Obj
}

var lazyObjs = map[ObjID]*lazyRec{}
var lazyByName = map[string]ObjID{}

func lazyObj(name string, mk func(st *State) *Obj) ObjID {
	if id, ok := lazyByName[name]; ok {
		return id
	}
	objCount++
	lazyByName[name] = objCount
	lazyObjs[objCount] = &lazyRec{mk}
	return objCount
}

var baseHeap = map[ObjID]*Obj{} // package-level data after initialisation

func (st *State) obj(id ObjID) *Obj {
	if o, ok := st.heap[id]; ok {
		return o
	}
	if o, ok := baseHeap[id]; ok {
		return o
	}
	if l, ok := lazyObjs[id]; ok {
		o := l.make(st)
		st.heap[id] = o
		return o
	}
	if os.Getenv("GV_STACK") != "" {
		debug.PrintStack()
	}
	panic(engAbort{fmt.Sprintf("dangling object %d", id)})
}

// mut returns a private copy of the object for modification.
func (st *State) mut(id ObjID) *Obj {
	o := st.obj(id).clone()
	st.heap[id] = o
	return o
}

func (st *State) newObj(o *Obj) ObjID {
	objCount++
	st.heap[objCount] = o
	return objCount
}

type engAbort struct{ msg string }

func intInfo(t types.Type) (width int, signed bool, ok bool) {
	b, isB := t.Underlying().(*types.Basic)
	if !isB {
		return 0, false, false
	}
	switch b.Kind() {
	case types.Int, types.Int64, types.UntypedInt, types.UntypedRune:
		return 64, true, true
	case types.Int8:
		return 8, true, true
	case types.Int16:
		return 16, true, true
	case types.Int32:
		return 32, true, true
	case types.Uint, types.Uint64, types.Uintptr:
		return 64, false, true
	case types.Uint8:
		return 8, false, true
	case types.Uint16:
		return 16, false, true
	case types.Uint32:
		return 32, false, true
	}
	return 0, false, false
}

func typeRange(t types.Type) (int64, int64) {
	w, s, ok := intInfo(t)
	if !ok {
		return -inf, inf
	}
	return wrange(w, s)
}
func wrange(w int, s bool) (int64, int64) {
	if w == 64 {
		if s {
			return -inf, inf
		}
		return 0, inf
	}
	if s {
		return -(int64(1) << uint(w-1)), int64(1)<<uint(w-1) - 1
	}
	return 0, int64(1)<<uint(w) - 1
}

func isByte(t types.Type) bool {
	w, s, ok := intInfo(t)
	return ok && w == 8 && !s
}

// special struct types have their own object kind.
func specialType(t types.Type) string {
	n, ok := types.Unalias(t).(*types.Named)
	if !ok || n.Obj().Pkg() == nil {
		return ""
	}
	s := n.Obj().Pkg().Path() + "." + n.Obj().Name()
	switch s {
	case "bytes.Buffer", "strings.Builder":
		return "buf"
	case "bytes.Reader", "bufio.Reader", "strings.Reader":
		return "reader"
	case "time.Time", "reflect.Value", "sync.Mutex", "sync.RWMutex", "bufio.Writer", "sync.Once", "sync.Pool":
		return "opaque"
	}
	return ""
}

func isErrType(t types.Type) bool { return types.TypeString(t, nil) == "error" }

// zero is the zero value (value form) of t.
func zero(t types.Type) Val {
	if specialType(t) != "" {
		return VOpaque{"zero:" + types.TypeString(t, nil)}
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return VBool{condFalse}
		case u.Info()&types.IsInteger != 0:
			return VInt{K(0)}
		case u.Info()&(types.IsFloat|types.IsComplex) != 0:
			return VFloat{"0"}
		case u.Info()&types.IsString != 0:
			return VStr{}
		}
		return VNil{}
	case *types.Struct:
		f := make([]Val, u.NumFields())
		for i := range f {
			f[i] = zero(u.Field(i).Type())
		}
		return VStruct{f}
	case *types.Array:
		if isByte(u.Elem()) {
			if u.Len() == 0 {
				return VBytes{}
			}
			return VBytes{Seq{{k: sFill, v: K(0), n: K(u.Len())}}}
		}
		return VElems{&Obj{kind: oElems, typ: u.Elem(), len: K(u.Len())}}
	case *types.Tuple:
		v := make([]Val, u.Len())
		for i := range v {
			v[i] = zero(u.At(i).Type())
		}
		return VTuple{v}
	}
	return VNil{}
}

// toMem converts a value to the form stored inside a variable of type t.
func (st *State) toMem(v Val, t types.Type) Val {
	if sp := specialType(t); sp != "" {
		if _, ok := v.(VArr); ok {
			return v
		}
		if sp == "opaque" {
			return v
		}
		return VArr{st.newObj(st.specialObj(t, v))}
	}
	switch u := t.Underlying().(type) {
	case *types.Struct:
		s, ok := v.(VStruct)
		if !ok {
			return v
		}
		f := make([]Val, len(s.f))
		for i := range f {
			f[i] = st.toMem(s.f[i], u.Field(i).Type())
		}
		return VStruct{f}
	case *types.Array:
		return VArr{st.newObj(arrObj(v, u))}
	}
	return v
}

func (st *State) specialObj(t types.Type, v Val) *Obj {
	zeroV := false
	if o, ok := v.(VOpaque); ok && len(o.id) > 5 && o.id[:5] == "zero:" {
		zeroV = true
	}
	switch specialType(t) {
	case "buf":
		if zeroV {
			return &Obj{kind: oBuf, typ: t}
		}
		n := newSym("buflen", 0, maxLen)
		return &Obj{kind: oBuf, typ: t, q: freshBlob("buf", S(n))}
	case "reader":
		if zeroV {
			return &Obj{kind: oReader, typ: t, known: true, pos: K(0)}
		}
		return &Obj{kind: oReader, typ: t, src: fresh("rd"), pos: K(0)}
	}
	return &Obj{kind: oCell, typ: t, v: v}
}

func arrObj(v Val, u *types.Array) *Obj {
	switch x := v.(type) {
	case VBytes:
		return &Obj{kind: oBytes, typ: u.Elem(), q: x.q}
	case VElems:
		return x.o.clone()
	}
	if isByte(u.Elem()) {
		return &Obj{kind: oBytes, typ: u.Elem(), q: freshBlob("arr", K(u.Len()))}
	}
	return &Obj{kind: oElems, typ: u.Elem(), len: K(u.Len()), dflt: fresh("arr")}
}

// toVal converts the stored form back to a value.
func (st *State) toVal(v Val, t types.Type) Val {
	switch x := v.(type) {
	case VArr:
		if specialType(t) != "" {
			return VOpaque{fmt.Sprintf("copyof%d", x.obj)}
		}
		o := st.obj(x.obj)
		if o.kind == oBytes {
			return VBytes{o.q}
		}
		return VElems{o}
	case VStruct:
		u, ok := t.Underlying().(*types.Struct)
		if !ok {
			return v
		}
		f := make([]Val, len(x.f))
		for i := range f {
			f[i] = st.toVal(x.f[i], u.Field(i).Type())
		}
		return VStruct{f}
	}
	return v
}

// newVar creates a variable of type t holding v (value form) and returns its object.
func (st *State) newVar(t types.Type, v Val) ObjID {
	if sp := specialType(t); sp != "" && sp != "opaque" {
		return st.newObj(st.specialObj(t, v))
	}
	if u, ok := t.Underlying().(*types.Array); ok {
		return st.newObj(arrObj(v, u))
	}
	m := st.toMem(v, t)
	return st.newObj(&Obj{kind: oCell, typ: t, v: m})
}

// unknown creates an arbitrary value of type t identified by name: the same name denotes the same value.
func unknown(t types.Type, name string) Val {
	born(name)
	if specialType(t) != "" {
		return VOpaque{"unk:" + name}
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return VBool{condSym(keySym(name, 0, 1))}
		case u.Info()&types.IsInteger != 0:
			lo, hi := typeRange(t)
			return VInt{S(keySym(name, lo, hi))}
		case u.Info()&(types.IsFloat|types.IsComplex) != 0:
			return VFloat{name}
		case u.Info()&types.IsString != 0:
			return VStr{blob(name, K(0), S(keySym("len("+name+")", 0, maxLen)))}
		}
		return VOpaque{name}
	case *types.Struct:
		f := make([]Val, u.NumFields())
		for i := range f {
			f[i] = unknown(u.Field(i).Type(), name+"."+u.Field(i).Name())
		}
		return VStruct{f}
	case *types.Array:
		if isByte(u.Elem()) {
			return VBytes{blob(name, K(0), K(u.Len()))}
		}
		return VElems{&Obj{kind: oElems, typ: u.Elem(), len: K(u.Len()), dflt: name}}
	case *types.Pointer:
		et := u.Elem()
		id := lazyObj("*"+name+":"+et.String(), func(st *State) *Obj {
			if sp := specialType(et); sp != "" && sp != "opaque" {
				o := st.specialObj(et, VOpaque{"unk:" + name})
				o.name = name
				if o.kind == oReader {
					o.src = name
				}
				return o
			}
			if a, ok := et.Underlying().(*types.Array); ok {
				o := arrObj(unknown(et, name), a)
				o.name = name
				return o
			}
			return &Obj{kind: oCell, typ: et, name: name, v: st.toMem(unknown(et, name), et)}
		})
		return VPtr{obj: id, nilS: keySym("nil("+name+")", 0, 1)}
	case *types.Slice:
		ln, cp := keySym("len("+name+")", 0, maxLen), keySym("cap("+name+")", 0, maxLen)
		nl := keySym("nil("+name+")", 0, 1)
		if len(ln.info().defs) == 0 {
			d := mkFact(GE, sub(S(cp), S(ln)))
			ln.info().defs = append(ln.info().defs, d)
			cp.info().defs = append(cp.info().defs, d)
		}
		et := u.Elem()
		id := lazyObj("[]"+name, func(st *State) *Obj {
			if isByte(et) {
				return &Obj{kind: oBytes, typ: et, name: name, q: blob(name, K(0), S(cp))}
			}
			return &Obj{kind: oElems, typ: et, name: name, len: S(cp), dflt: name}
		})
		return VSlice{obj: id, off: K(0), len: S(ln), cap: S(cp), nilS: nl}
	case *types.Map:
		id := lazyObj("map"+name, func(st *State) *Obj {
			return &Obj{kind: oMap, typ: t, name: name, mbase: name, mlen: S(keySym("len("+name+")", 0, maxLen))}
		})
		return VMap{obj: id, nilS: keySym("nil("+name+")", 0, 1)}
	case *types.Interface:
		return VIface{id: name, nilS: keySym("typ("+name+")", 0, inf)}
	case *types.Signature:
		return VFunc{id: name, nilS: keySym("nil("+name+")", 0, 1)}
	case *types.Tuple:
		v := make([]Val, u.Len())
		for i := range v {
			v[i] = unknown(u.At(i).Type(), fmt.Sprintf("%s.%d", name, i))
		}
		if len(v) == 1 {
			return v[0]
		}
		return VTuple{v}
	}
	return VOpaque{name}
}

// nonNil marks a reference value as known non-nil.
func nonNil(v Val) Val {
	switch x := v.(type) {
	case VPtr:
		x.nilS = 0
		return x
	case VMap:
		x.nilS = 0
		return x
	case VIface:
		x.nilS = 0
		return x
	case VFunc:
		x.nilS = 0
		return x
	case VSlice:
		x.nilS = 0
		return x
	}
	return v
}

// isNil is the condition that v is nil.
func isNil(v Val) Cond {
	s := Sym(0)
	switch x := v.(type) {
	case VNil:
		return condTrue
	case VPtr:
		s = x.nilS
	case VSlice:
		s = x.nilS
		if s != 0 {
			c := condSym(s)
			c.imT = []*Fact{mkFact(EQ, x.len)}
			if x.len.isConst() {
				c.imT = nil
				if x.len.c != 0 {
					return condFalse
				}
			}
			return c
		}
	case VMap:
		s = x.nilS
	case VIface:
		if x.dyn != nil || x.nilS == 0 {
			return condFalse
		}
		return condEQ(S(x.nilS))
	case VFunc:
		s = x.nilS
	default:
		return condFalse
	}
	if s == 0 {
		return condFalse
	}
	return condSym(s)
}

// ---- access through pointers

func (st *State) getPath(v Val, path []int) Val {
	for _, p := range path {
		switch s := v.(type) {
		case VStruct:
			v = s.f[p]
		default:
			return nil
		}
	}
	return v
}

func setPath(v Val, path []int, nv Val) Val {
	if len(path) == 0 {
		return nv
	}
	s, ok := v.(VStruct)
	if !ok {
		return v
	}
	f := append([]Val(nil), s.f...)
	f[path[0]] = setPath(f[path[0]], path[1:], nv)
	return VStruct{f}
}

func typeAt(t types.Type, path []int) types.Type {
	for _, p := range path {
		t = t.Underlying().(*types.Struct).Field(p).Type()
	}
	return t
}

// elemAt reads element idx of an oElems object (memory form of the element).
func (st *State) elemAt(id ObjID, idx *Lin) Val {
	o := st.obj(id)
	for i := len(o.el) - 1; i >= 0; i-- {
		if st.eq(o.el[i].idx, idx) {
			return o.el[i].v
		}
		if !st.ne(o.el[i].idx, idx) {
			return st.tableElem(o, idx)
		}
	}
	if o.dflt == "" {
		return zero(o.typ)
	}
	v := unknown(o.typ, o.dflt+"["+idx.String()+"]")
	m := st.mut(id)
	m.el = append([]Elem{{idx, st.toMem(v, o.typ)}}, m.el...)
	return m.el[0].v
}

// knownElem is the element at idx if it was stored, nil if it is not known.
func (st *State) knownElem(o *Obj, idx *Lin) Val {
	for i := len(o.el) - 1; i >= 0; i-- {
		if st.eq(o.el[i].idx, idx) {
			return o.el[i].v
		}
		if !st.ne(o.el[i].idx, idx) {
			return nil
		}
	}
	return nil
}

// maybeElems lists the few known elements, of a reference type, that p may or may not denote.
func (st *State) maybeElems(p VPtr) []*Lin {
	o := st.obj(p.obj)
	if o.kind != oElems || p.idx == nil || p.idx.isConst() && len(o.el) > 8 {
		return nil
	}
	switch o.typ.Underlying().(type) {
	case *types.Pointer, *types.Interface, *types.Slice, *types.Map:
	default:
		return nil
	}
	var r []*Lin
	for i := len(o.el) - 1; i >= 0; i-- {
		x := o.el[i].idx
		if st.eq(x, p.idx) {
			break
		}
		if !st.ne(x, p.idx) {
			r = append(r, x)
			if len(r) > 4 {
				return nil
			}
		}
	}
	return r
}

// tableElem is the value of some element of o. A table of known integers gives the same symbol for the
// same contents and index.
func (st *State) tableElem(o *Obj, idx *Lin) Val {
	if _, _, isInt := intInfo(o.typ); isInt && o.len.isConst() && o.len.c == int64(len(o.el)) && len(o.el) <= 512 {
		tab := make([]*Lin, len(o.el))
		lo, hi := int64(inf), int64(-inf)
		var k strings.Builder
		for _, x := range o.el {
			v, ok := x.v.(VInt)
			if !ok || !v.l.isConst() || !x.idx.isConst() || x.idx.c < 0 || x.idx.c >= o.len.c || tab[x.idx.c] != nil {
				return unknown(o.typ, fresh("elem"))
			}
			tab[x.idx.c] = v.l
			lo, hi = min(lo, v.l.c), max(hi, v.l.c)
		}
		if v := st.affineElem(tab, idx, lo, hi); v != nil {
			return VInt{v}
		}
		for _, l := range tab {
			fmt.Fprintf(&k, "%d,", l.c)
		}
		return VInt{S(keySym("tab("+k.String()+")["+idx.String()+"]", lo, hi))}
	}
	return unknown(o.typ, fresh("elem"))
}

// affineElem is the element of a table whose bits are exclusive-ors of bits of the index.
func (st *State) affineElem(tab []*Lin, idx *Lin, lo, hi int64) *Lin {
	n := len(tab)
	w := 0
	for 1<<uint(w) < n {
		w++
	}
	if 1<<uint(w) != n || w == 0 || lo < 0 || hi >= 1<<32 || !st.le(K(0), idx) || !st.lt(idx, K(int64(n))) {
		return nil
	}
	c := uint64(tab[0].c)
	for i := range tab {
		x := c
		for b := 0; b < w; b++ {
			if i>>uint(b)&1 != 0 {
				x ^= uint64(tab[1<<uint(b)].c) ^ c
			}
		}
		if x != uint64(tab[i].c) {
			return nil
		}
	}
	ib := st.bits(idx, w)
	if bvHasTop(ib) {
		return nil
	}
	r := constBits(int64(c), 32)
	for b := 0; b < w; b++ {
		m := uint64(tab[1<<uint(b)].c) ^ c
		for k := range r {
			if m>>uint(k)&1 != 0 {
				r[k] = bitXor(r[k], ib[b])
			}
		}
	}
	return st.fromBits(r, false, "table")
}

func (st *State) load(p VPtr, t types.Type) Val {
	o := st.obj(p.obj)
	switch o.kind {
	case oBytes:
		if p.idx == nil {
			return VBytes{o.q}
		}
		return VInt{st.byteAt(o.q, p.idx)}
	case oElems:
		if p.idx == nil {
			return VElems{o}
		}
		v := st.elemAt(p.obj, p.idx)
		return st.toVal(st.getPath(v, p.path), t)
	case oCell:
		return st.toVal(st.getPath(o.v, p.path), t)
	}
	return VOpaque{fmt.Sprintf("copyof%d", p.obj)}
}

func (st *State) store(p VPtr, v Val, t types.Type) {
	o := st.mut(p.obj)
	switch o.kind {
	case oBytes:
		if p.idx == nil {
			if b, ok := v.(VBytes); ok {
				o.q = b.q
			} else {
				o.q = freshBlob("arr", o.q.size())
			}
			return
		}
		b := K(0)
		if x, ok := v.(VInt); ok {
			b = x.l
		} else {
			b = S(newSym("byte?", 0, 255))
		}
		o.q = st.overwrite(o.q, p.idx, Seq{{k: sByte, v: b}})
	case oElems:
		if p.idx == nil {
			if x, ok := v.(VElems); ok {
				n := x.o.clone()
				st.heap[p.obj] = n
			}
			return
		}
		var cur Val
		if len(p.path) > 0 {
			cur = st.elemAt(p.obj, p.idx)
			o = st.mut(p.obj)
			v = setPath(cur, p.path, st.memStore(st.getPath(cur, p.path), v, t))
		} else {
			v = st.toMem(v, t)
			o = st.mut(p.obj)
		}
		var ne []Elem
		for _, e := range o.el {
			if st.eq(e.idx, p.idx) {
				continue
			}
			ne = append(ne, e)
		}
		o.el = append(ne, Elem{p.idx, v})
	case oCell:
		nv := st.memStore(st.getPath(o.v, p.path), v, t)
		o = st.mut(p.obj)
		o.v = setPath(o.v, p.path, nv)
	default:
		// whole-object assignment of a modelled struct
		if x, ok := v.(VOpaque); ok {
			n := st.specialObj(o.typ, x)
			st.heap[p.obj] = n
		}
	}
}

// memStore computes the memory form of v when it replaces old (arrays keep their identity).
func (st *State) memStore(old, v Val, t types.Type) Val {
	if a, ok := old.(VArr); ok {
		if sp := specialType(t); sp != "" {
			st.heap[a.obj] = st.specialObj(t, v)
			return a
		}
		if u, ok := t.Underlying().(*types.Array); ok {
			st.heap[a.obj] = arrObj(v, u)
			return a
		}
	}
	if s, ok := old.(VStruct); ok {
		if n, ok := v.(VStruct); ok && len(n.f) == len(s.f) {
			u := t.Underlying().(*types.Struct)
			f := make([]Val, len(s.f))
			for i := range f {
				f[i] = st.memStore(s.f[i], n.f[i], u.Field(i).Type())
			}
			return VStruct{f}
		}
	}
	return st.toMem(v, t)
}

// field computes &p.f.
func (st *State) field(p VPtr, i int) VPtr {
	o := st.obj(p.obj)
	np := VPtr{obj: p.obj, idx: p.idx, path: append(append([]int(nil), p.path...), i)}
	var m Val
	switch o.kind {
	case oCell:
		m = st.getPath(o.v, np.path)
	case oElems:
		if p.idx != nil {
			m = st.getPath(st.elemAt(p.obj, p.idx), np.path)
		}
	}
	if a, ok := m.(VArr); ok {
		return VPtr{obj: a.obj}
	}
	return np
}

// bytes returns the content of a byte slice.
func (st *State) sliceBytes(s VSlice) Seq {
	if s.len.is(0) {
		return nil
	}
	o := st.obj(s.obj)
	if o.kind != oBytes {
		return freshBlob("bytes?", s.len)
	}
	q, _ := st.slice(o.q, s.off, add(s.off, s.len))
	return q
}

// newBytes allocates a byte slice with content q.
func (st *State) newBytes(q Seq, why string) VSlice {
	n := q.size()
	id := st.newObj(&Obj{kind: oBytes, typ: types.Typ[types.Uint8], q: q, name: why})
	return VSlice{obj: id, off: K(0), len: n, cap: n}
}

func valBytes(st *State, v Val) (Seq, *Lin, bool) {
	switch x := v.(type) {
	case VSlice:
		return st.sliceBytes(x), x.len, true
	case VStr:
		return x.q, x.q.size(), true
	case VNil:
		return nil, K(0), true
	}
	return nil, nil, false
}

var globalObj = map[*ssa.Global]ObjID{}
