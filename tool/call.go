package main

// Calls: builtins, dynamic dispatch, inlining, and models of the library functions used.

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func (e *Eng) call(fr *Frame, st *State, c *ssa.CallCommon, pos token.Pos) []callOut {
	e.callSites++
	var args []Val
	for _, a := range c.Args {
		args = append(args, fr.val(st, a))
	}
	if c.IsInvoke() {
		return e.invoke(fr, st, fr.val(st, c.Value), c.Method, args, pos, c.Value.Type())
	}
	if b, ok := c.Value.(*ssa.Builtin); ok {
		return e.builtin(fr, st, b.Name(), args, c, pos)
	}
	return e.callVal(fr, st, fr.val(st, c.Value), args, c, pos)
}

func (e *Eng) callVal(fr *Frame, st *State, f Val, args []Val, c *ssa.CallCommon, pos token.Pos) []callOut {
	switch x := f.(type) {
	case VFunc:
		if x.fn != nil {
			return e.callFn(fr, st, x.fn, args, x.bind, pos)
		}
		if strings.HasPrefix(x.id, "builtin ") {
			return e.builtin(fr, st, x.id[8:], args, c, pos)
		}
		if x.nilS != 0 {
			st = e.oblige(fr, st, pos, "nilfunc", isNil(x).not(), "called function may be nil")
			if st == nil {
				return nil
			}
		}
		return e.unknownCall(fr, st, "func "+x.id, c.Signature(), args, pos)
	case VNil:
		e.oblige(fr, st, pos, "nilfunc", condFalse, "call of nil function")
		return nil
	}
	return e.unknownCall(fr, st, "func?", c.Signature(), args, pos)
}

// unknownCall: an arbitrary function of the module's user. It may do anything to what it can reach
// through its arguments.
func (e *Eng) unknownCall(fr *Frame, st *State, name string, sig *types.Signature, args []Val, pos token.Pos) []callOut {
	ev := &Event{kind: "ucall", id: name, pos: pos, fn: fr.fn, args: args}
	for _, a := range args {
		e.havocArg(st, a)
	}
	var res Val
	if sig.Results().Len() > 0 {
		res = unknown(sig.Results(), fresh("ret "+name))
	}
	ev.v = res
	st.event(ev)
	return one(st, res)
}

// havocArg forgets the contents reachable through v.
func (e *Eng) havocArg(st *State, v Val) {
	sub := &State{heap: st.heap, env: []Val{v}}
	for id := range sub.reach() {
		st.havocObj(id)
	}
}

func (st *State) havocObj(id ObjID) {
	o, ok := st.heap[id]
	if !ok {
		if _, b := baseHeap[id]; b {
			return
		}
		if _, lz := lazyObjs[id]; !lz {
			return
		}
		o = st.obj(id)
	}
	n := o.clone()
	switch o.kind {
	case oBytes:
		n.q = freshBlob("havoc", o.q.size())
	case oElems:
		n.el, n.dflt = nil, fresh("havoc")
	case oCell:
		n.v = st.havocMem(o.v, o.typ)
	case oMap:
		n.mk, n.mv, n.mbase = nil, nil, fresh("havoc")
		n.mlen = S(newSym("maplen", 0, maxLen))
	case oBuf:
		n.q = freshBlob("havocbuf", S(newSym("buflen", 0, maxLen)))
	case oReader:
		p := newSym("pos", 0, maxLen)
		st.addRaw(mkFact(GE, sub(S(p), o.pos)))
		n.pos = S(p)
	}
	st.heap[id] = n
}

func (st *State) havocMem(v Val, t types.Type) Val {
	switch x := v.(type) {
	case VArr:
		st.havocObj(x.obj)
		return x
	case VStruct:
		u := t.Underlying().(*types.Struct)
		f := make([]Val, len(x.f))
		for i := range f {
			f[i] = st.havocMem(x.f[i], u.Field(i).Type())
		}
		return VStruct{f}
	}
	return st.toMem(unknown(t, fresh("havoc")), t)
}

func (e *Eng) invoke(fr *Frame, st *State, recv Val, m *types.Func, args []Val, pos token.Pos, it types.Type) []callOut {
	switch r := recv.(type) {
	case VNil:
		e.oblige(fr, st, pos, "nil", condFalse, "method call on nil interface")
		return nil
	case VIface:
		if r.dyn != nil {
			fn := e.prog.LookupMethod(r.dyn, m.Pkg(), m.Name())
			if fn == nil {
				return e.unknownCall(fr, st, m.FullName(), m.Type().(*types.Signature), args, pos)
			}
			return e.callFn(fr, st, fn, append([]Val{r.val}, args...), nil, pos)
		}
		if r.nilS != 0 {
			st = e.oblige(fr, st, pos, "nil", isNil(r).not(), "method "+m.Name()+" called on a possibly nil interface")
			if st == nil {
				return nil
			}
		}
		if h, ok := e.hooks["iface:"+m.Name()]; ok {
			return h(e, fr, st, nil, append([]Val{r}, args...), pos)
		}
		return e.ifaceCall(fr, st, r, m, args, pos)
	}
	return e.unknownCall(fr, st, m.FullName(), m.Type().(*types.Signature), args, pos)
}

func isByteSlice(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	return ok && isByte(s.Elem())
}

// ifaceCall: method of an object supplied by the user of the library.
func (e *Eng) ifaceCall(fr *Frame, st *State, r VIface, m *types.Func, args []Val, pos token.Pos) []callOut {
	sig := m.Type().(*types.Signature)
	if m.Name() == "Write" && sig.Params().Len() == 1 && isByteSlice(sig.Params().At(0).Type()) && sig.Results().Len() == 2 {
		return e.ioWrite(fr, st, r, args[0], pos)
	}
	if m.Name() == "Read" && sig.Params().Len() == 1 && isByteSlice(sig.Params().At(0).Type()) && sig.Results().Len() == 2 {
		return e.ioRead(fr, st, r, args[0], false, pos)
	}
	// getters without parameters are pure
	if sig.Params().Len() == 0 && sig.Results().Len() > 0 {
		return one(st, unknown(sig.Results(), r.id+"."+m.Name()+"()"))
	}
	// anything else receives its arguments; failure is possible when it returns an error
	ev := &Event{kind: "icall", id: r.id + "." + m.Name(), pos: pos, fn: fr.fn, args: args}
	if len(args) == 1 {
		ev.v = args[0]
	}
	var out []callOut
	nres := sig.Results().Len()
	if nres > 0 && isErrType(sig.Results().At(nres-1).Type()) {
		mk := func(err Val) Val {
			if nres == 1 {
				return err
			}
			t := make([]Val, nres)
			for i := 0; i < nres-1; i++ {
				t[i] = unknown(sig.Results().At(i).Type(), fresh(ev.id))
			}
			t[nres-1] = err
			return VTuple{t}
		}
		if e.failIO {
			s := st.fork()
			f := *ev
			f.kind = "icallfail"
			s.event(&f)
			out = append(out, callOut{s, mk(errVal("icall " + m.Name()))})
		}
		st.event(ev)
		return append(out, callOut{st, mk(VNil{})})
	}
	var res Val
	if nres > 0 {
		res = unknown(sig.Results(), fresh(ev.id))
	}
	st.event(ev)
	return one(st, res)
}

func errVal(why string) VIface { return VIface{id: "new:" + why} }

func tuple(v ...Val) VTuple { return VTuple{v} }

// ioWrite: w.Write(p) on a caller-supplied writer (contract: err == nil implies n == len(p)).
func (e *Eng) ioWrite(fr *Frame, st *State, w VIface, p Val, pos token.Pos) []callOut {
	q, n, ok := valBytes(st, p)
	if !ok {
		n = S(newSym("len?", 0, maxLen))
		q = freshBlob("unknown", n)
	}
	var out []callOut
	if e.failIO {
		s := st.fork()
		m := newSym("written", 0, maxLen)
		s.addRaw(mkFact(GE, sub(n, S(m))))
		s.event(&Event{kind: "writefail", id: w.id, q: q, n: S(m), pos: pos, fn: fr.fn})
		out = append(out, callOut{s, tuple(VInt{S(m)}, errVal("write"))})
	}
	st.event(&Event{kind: "write", id: w.id, q: q, n: n, pos: pos, fn: fr.fn})
	return append(out, callOut{st, tuple(VInt{n}, VNil{})})
}

// readerObj is the object holding the position of a caller-supplied reader.
func readerObj(id string) ObjID {
	return lazyObj("rd:"+id, func(st *State) *Obj {
		return &Obj{kind: oReader, name: id, src: id, pos: K(0), len: S(keySym("end("+id+")", 0, maxLen))}
	})
}

type rdSrc struct {
	obj ObjID
	end *Lin // nil: unknown
}

// source resolves a reader value to its position object.
func (e *Eng) source(st *State, r Val) (ObjID, bool) {
	switch x := r.(type) {
	case VIface:
		if x.dyn != nil {
			return e.source(st, x.val)
		}
		return readerObj(x.id), true
	case VPtr:
		o := st.obj(x.obj)
		if o.kind == oReader || o.kind == oBuf {
			return x.obj, true
		}
	}
	return 0, false
}

func (o *Obj) end() *Lin {
	if o.known {
		return o.sq.size()
	}
	return o.len
}

// pieces: a reader that delivers what is asked for in pieces, and may fail.
func (o *Obj) pieces() bool {
	_, ok := o.v.(VPtr)
	return o.kind == oReader && o.name != "range" && ok
}

// torn records a read failure where the harness asked for it.
func (st *State) torn(o *Obj) {
	if o.pieces() {
		st.store(o.v.(VPtr), VBool{condTrue}, types.Typ[types.Bool])
	}
}

// beyond records that more was asked for than there is, where the harness asked for it.
func (st *State) beyond(o *Obj) {
	if p, ok := o.short.(VPtr); ok {
		st.store(p, VBool{condTrue}, types.Typ[types.Bool])
	}
}

// take reads n bytes of the source at its position (n within the data) and advances.
func (st *State) take(id ObjID, n *Lin) Seq {
	o := st.mut(id)
	if o.kind == oBuf {
		sz := o.q.size()
		q, _ := st.slice(o.q, K(0), n)
		rest, _ := st.slice(o.q, n, sz)
		o.q = rest
		return q
	}
	var q Seq
	if o.known {
		q, _ = st.slice(o.sq, o.pos, add(o.pos, n))
	} else {
		q = st.norm(blob(o.src, o.pos, n))
	}
	o.pos = add(o.pos, n)
	return q
}

// readN models io.ReadFull-like behaviour: all n bytes or an error. partial tells whether a failed
// read may have consumed bytes.
func (e *Eng) readN(fr *Frame, st *State, id ObjID, n *Lin, pos token.Pos) (succ *State, q Seq, fails []callOut) {
	o := st.obj(id)
	kind := o.kind
	var avail *Lin
	if kind == oBuf {
		avail = o.q.size()
	} else if o.end() != nil {
		avail = sub(o.end(), o.pos)
	}
	ok := st.fork()
	okF := true
	if avail != nil {
		okF = ok.assume(condGE(sub(avail, n)))
	}
	var out []callOut
	ff := func(s *State, err VIface, cons *Lin) {
		if cons != nil && !cons.is(0) {
			s.take(id, cons)
		}
		s.event(&Event{kind: "readfail", id: fmt.Sprint(id), n: n, pos: pos, fn: fr.fn, v: err})
		out = append(out, callOut{s, err})
	}
	if avail != nil {
		s := st.fork()
		if s.assume(condGE(addK(sub(n, avail), -1))) {
			s.beyond(o)
			t := s.fork()
			if t.assume(condEQ(avail)) {
				ff(t, VIface{id: "new:io.EOF"}, nil)
			}
			if s.assume(condGE(addK(avail, -1))) {
				ff(s, VIface{id: "new:io.ErrUnexpectedEOF"}, avail)
			}
		}
	}
	if e.failIO && kind != oBuf && !o.known || o.pieces() {
		s := st.fork()
		m := newSym("got", 0, maxLen)
		s.addRaw(mkFact(GE, addK(sub(n, S(m)), -1)))
		if avail != nil {
			s.addRaw(mkFact(GE, sub(avail, S(m))))
		}
		if s.ge(addK(n, -1)) || s.assume(condGE(addK(n, -1))) {
			s.torn(o)
			ff(s, errVal("read"), S(m))
		}
	}
	if !okF {
		return nil, nil, out
	}
	q = ok.take(id, n)
	if !n.is(0) {
		ok.event(&Event{kind: "read", id: fmt.Sprint(id), q: q, n: n, pos: pos, fn: fr.fn})
	}
	return ok, q, out
}

// ioRead: one r.Read(p) call: any number of bytes up to len(p).
// ioRead: a buffered reader delivers what its buffer holds, which may be less than asked for.
func (e *Eng) ioRead(fr *Frame, st *State, r Val, p Val, buffered bool, pos token.Pos) []callOut {
	id, ok := e.source(st, r)
	sl, ok2 := p.(VSlice)
	if _, isN := p.(VNil); isN {
		return one(st, tuple(VInt{K(0)}, VNil{}))
	}
	if !ok || !ok2 {
		return one(st, tuple(VInt{S(newSym("n", 0, maxLen))}, unknown(types.Universe.Lookup("error").Type(), fresh("err"))))
	}
	return e.readSome(fr, st, id, sl, buffered, pos)
}

func (e *Eng) readSome(fr *Frame, st *State, id ObjID, sl VSlice, buffered bool, pos token.Pos) []callOut {
	o := st.obj(id)
	var avail *Lin
	if o.kind == oBuf {
		avail = o.q.size()
	} else if o.end() != nil {
		avail = sub(o.end(), o.pos)
	}
	known := (o.kind == oBuf || o.known) && !o.pieces() && !buffered
	var out []callOut
	fill := func(s *State, n *Lin, err Val) {
		var q Seq
		if !n.is(0) {
			q = s.take(id, n)
			dst := s.mut(sl.obj)
			dst.q = s.overwrite(dst.q, sl.off, q)
		}
		k := "read"
		if _, isN := err.(VNil); !isN {
			k = "readfail"
		}
		s.event(&Event{kind: k, id: fmt.Sprint(id), q: q, n: n, pos: pos, fn: fr.fn, v: err})
		out = append(out, callOut{s, tuple(VInt{n}, err)})
	}
	if known {
		// deterministic: min(len, avail), EOF when nothing is left
		z := st.fork()
		if z.assume(condEQ(sl.len)) {
			fill(z, K(0), VNil{})
		}
		if !st.assume(condGE(addK(sl.len, -1))) {
			return out
		}
		s := st.fork()
		if s.assume(condEQ(avail)) {
			s.beyond(o)
			fill(s, K(0), VIface{id: "new:io.EOF"})
		}
		if !st.assume(condGE(addK(avail, -1))) {
			return out
		}
		s = st.fork()
		if s.assume(condGE(sub(avail, sl.len))) {
			fill(s, sl.len, VNil{})
		}
		if st.assume(condGE(addK(sub(sl.len, avail), -1))) {
			fill(st, avail, VNil{})
		}
		return out
	}
	mk := func(name string) (*State, *Lin) {
		s := st.fork()
		n := newSym(name, 0, maxLen)
		s.addRaw(mkFact(GE, sub(sl.len, S(n))))
		if avail != nil {
			s.addRaw(mkFact(GE, sub(avail, S(n))))
		}
		return s, S(n)
	}
	// complete read
	s := st.fork()
	if avail == nil || s.assume(condGE(sub(avail, sl.len))) {
		fill(s, sl.len, VNil{})
	}
	// short read without error
	s, n := mk("short")
	if s.assume(condGE(addK(sub(sl.len, n), -1))) && s.assume(condGE(addK(n, -1))) {
		fill(s, n, VNil{})
	}
	// end of data (possibly together with the last bytes)
	s, n = mk("last")
	if avail == nil || s.assume(condEQ(sub(avail, n))) {
		less := true
		if o.short != nil {
			if t := s.fork(); t.assume(condEQ(sub(sl.len, n))) {
				fill(t, n, VIface{id: "new:io.EOF"})
			}
			less = s.assume(condGE(addK(sub(sl.len, n), -1)))
			s.beyond(o)
		}
		if less {
			fill(s, n, VIface{id: "new:io.EOF"})
		}
	}
	if e.failIO || o.pieces() {
		s, n = mk("got")
		s.torn(o)
		fill(s, n, errVal("read"))
	}
	return out
}

func (e *Eng) inlinable(fn *ssa.Function) bool {
	if len(fn.Blocks) == 0 {
		return false
	}
	p := fn.Pkg
	if p == nil {
		if fn.Synthetic != "" { // wrappers
			return true
		}
		if o := fn.Origin(); o != nil {
			p = o.Pkg
		}
	}
	if p == nil {
		return true
	}
	path := p.Pkg.Path()
	if strings.HasPrefix(path, modPath) {
		return true
	}
	if path == "encoding/binary" {
		s := fn.String()
		return strings.HasPrefix(s, "(encoding/binary.bigEndian)") || strings.HasPrefix(s, "(encoding/binary.littleEndian)")
	}
	return inlineStd[fn.String()] || path == "math/bits" && fn.Name() != "init"
}

// inlineStd: functions of the standard library short enough to be followed like the code under analysis.
var inlineStd = map[string]bool{
	"strings.Cut": true, "bytes.Cut": true, "bytes.Contains": true, "bytes.TrimPrefix": true, "bytes.TrimSuffix": true, "bytes.Clone": true,
	"strings.CutPrefix": true, "strings.CutSuffix": true, "bytes.CutPrefix": true, "bytes.CutSuffix": true,
	"io.LimitReader": true, "(*io.LimitedReader).Read": true, "io/ioutil.ReadAll": true,
	"io.TeeReader": true, "(*io.teeReader).Read": true, "io.MultiWriter": true, "(*io.multiWriter).Write": true,
	"(time.Duration).Milliseconds": true, "(time.Duration).Microseconds": true, "unicode/utf8.RuneLen": true, "unicode/utf8.AppendRune": true, "unicode/utf8.appendRuneNonASCII": true,
	"math.IsNaN": true, "sort.Ints": true,
}

func (e *Eng) callFn(fr *Frame, st *State, fn *ssa.Function, args, bind []Val, pos token.Pos) []callOut {
	name := fn.String()
	if h, ok := e.hooks[name]; ok {
		if r := h(e, fr, st, fn, args, pos); r != nil {
			return r
		}
	}
	if h, ok := models[name]; ok {
		return h(e, fr, st, fn, args, pos)
	}
	if c := e.contracts[fnName(fn)]; c != nil && !isHarness(rootFn(fr.fn)) {
		return e.useContract(fr, st, c, args, pos)
	}
	if e.inlinable(fn) {
		if e.stackFns[fn] > e.maxRec {
			for _, n := range e.contractOrder {
				// a helper that recurses in place of a specified function
				if c := e.contracts[n]; sameParams(c, fn) {
					return e.useContract(fr, st, c, args, pos)
				}
			}
			if e.rec != nil {
				return e.rec(e, fr, st, fn, args, pos)
			}
			panic(engAbort{"recursion through " + fnName(fn)})
		}
		var r []callOut
		for _, o := range e.run(fr, st, fn, args, bind, pos) {
			r = append(r, callOut{o.st, o.res})
		}
		return r
	}
	if pureStd(fn, args) {
		return e.pureCall(st, fn, args, pos)
	}
	// wrapper around a modelled method (e.g. promoted through embedding)
	e.note("unmodelled call " + name)
	for _, a := range args {
		e.havocArg(st, a)
	}
	var res Val
	if rs := fn.Signature.Results(); rs.Len() > 0 {
		res = unknown(rs, fresh("ret "+name))
	}
	st.event(&Event{kind: "xcall", id: name, pos: pos, fn: fr.fn})
	return one(st, res)
}

// useContract interprets the harness's specification of a function instead of its body.
func (e *Eng) useContract(fr *Frame, st *State, c *ssa.Function, args []Val, pos token.Pos) (r []callOut) {
	e.analysed[c]++
	for _, o := range e.run(fr, st, c, args, nil, pos) {
		r = append(r, callOut{o.st, o.res})
	}
	return
}

func sameParams(a, b *ssa.Function) bool {
	if len(a.Params) != len(b.Params) || !types.Identical(a.Signature.Results(), b.Signature.Results()) {
		return false
	}
	for i := range a.Params {
		if !types.Identical(a.Params[i].Type(), b.Params[i].Type()) {
			return false
		}
	}
	return true
}

func (e *Eng) builtin(fr *Frame, st *State, name string, args []Val, c *ssa.CallCommon, pos token.Pos) []callOut {
	switch name {
	case "len":
		return one(st, VInt{st.lenOf(args[0], c.Args[0].Type())})
	case "cap":
		switch x := args[0].(type) {
		case VSlice:
			return one(st, VInt{x.cap})
		case VNil:
			return one(st, VInt{K(0)})
		}
		return one(st, VInt{st.lenOf(args[0], c.Args[0].Type())})
	case "append":
		return e.appendOp(fr, st, args, c, pos)
	case "copy":
		return e.copyOp(fr, st, args, pos)
	case "delete":
		if m, ok := args[0].(VMap); ok {
			st.event(&Event{kind: "mapdel", obj: m.obj, v: args[1], pos: pos, fn: fr.fn})
			o := st.mut(m.obj)
			if o.mbase == "" && len(o.mk) == 0 {
				return one(st, nil)
			}
			if o.mbase == "" && len(o.mk) <= 8 {
				// exact: the entry whose key is equal, if any, goes
				var out []callOut
				cur := st
				for i := len(o.mk) - 1; i >= 0; i-- {
					eq := e.valEqCond(cur, o.mk[i], args[1])
					t := cur.fork()
					if t.assume(eq) {
						q := t.mut(m.obj)
						q.mk = append(append([]Val(nil), q.mk[:i]...), q.mk[i+1:]...)
						q.mv = append(append([]Val(nil), q.mv[:i]...), q.mv[i+1:]...)
						q.mlen = addK(q.mlen, -1)
						out = append(out, callOut{t, nil})
					}
					if !cur.assume(eq.not()) {
						return out
					}
				}
				return append(out, callOut{cur, nil})
			}
			st.havocObj(m.obj)
		}
		return one(st, nil)
	case "print", "println":
		return one(st, nil)
	case "panic":
		e.log = append(e.log, &Oblig{kind: "panic", pos: pos, fn: fr.fn, def: true, why: "panic reachable", stack: fr.stack()})
		return nil
	case "recover":
		return one(st, VNil{})
	case "min", "max":
		cur := []callOut{{st, args[0]}}
		for _, a := range args[1:] {
			var next []callOut
			for _, o := range cur {
				x, ok1 := o.res.(VInt)
				y, ok2 := a.(VInt)
				if !ok1 || !ok2 {
					next = append(next, callOut{o.st, unknown(c.Signature().Results().At(0).Type(), fresh(name))})
					continue
				}
				d := sub(y.l, x.l)
				if name == "max" {
					d = neg(d)
				}
				t := o.st.fork()
				if t.assume(condGE(d)) {
					next = append(next, callOut{t, x})
				}
				if o.st.assume(condGE(d).not()) {
					next = append(next, callOut{o.st, y})
				}
			}
			cur = next
		}
		return cur
	case "ssa:wrapnilchk":
		s, _, _ := e.deref(fr, st, args[0], pos)
		if s == nil {
			return nil
		}
		return one(s, nonNil(args[0]))
	case "clear":
		e.havocArg(st, args[0])
		return one(st, nil)
	}
	e.note("builtin " + name)
	var res Val
	if rs := c.Signature().Results(); rs.Len() > 0 {
		res = unknown(rs, fresh(name))
	}
	return one(st, res)
}

func (st *State) lenOf(v Val, t types.Type) *Lin {
	switch x := v.(type) {
	case VSlice:
		return x.len
	case VStr:
		return x.q.size()
	case VNil:
		return K(0)
	case VMap:
		return st.obj(x.obj).mlen
	case VBytes:
		return x.q.size()
	case VElems:
		return x.o.len
	case VPtr:
		if p, ok := t.Underlying().(*types.Pointer); ok {
			if a, ok := p.Elem().Underlying().(*types.Array); ok {
				return K(a.Len())
			}
		}
	}
	return S(newSym("len?", 0, maxLen))
}

func (e *Eng) appendOp(fr *Frame, st *State, args []Val, c *ssa.CallCommon, pos token.Pos) []callOut {
	rt, _ := c.Signature().Results().At(0).Type().Underlying().(*types.Slice)
	if rt == nil {
		rt, _ = c.Args[0].Type().Underlying().(*types.Slice)
	}
	if isByte(rt.Elem()) {
		q2, n2, ok := valBytes(st, args[1])
		if !ok {
			return one(st, unknown(c.Args[0].Type(), fresh("append")))
		}
		switch a := args[0].(type) {
		case VNil:
			if n2.is(0) {
				return one(st, VNil{})
			}
			if sl, ok := args[1].(VSlice); ok && sl.nilS != 0 || !st.gt0(n2) {
				_ = sl
			}
			v := st.newBytes(q2, "append")
			v = st.growCap(v)
			return one(st, v)
		case VSlice:
			o := st.obj(a.obj)
			if o.kind != oBytes {
				break
			}
			nl := add(a.len, n2)
			var out []callOut
			cur := st
			// in place when it provably fits or may fit over data visible elsewhere
			fits := condGE(sub(a.cap, nl))
			d := cur.decide(fits)
			if d == 0 && !(a.len.is(0) && cur.gt0(a.cap)) && !cur.gt0(sub(sub(o.q.size(), a.off), a.len)) && o.name == "" {
				d = -1
			}
			if d >= 0 {
				t := cur.fork()
				if t.assume(fits) {
					m := t.mut(a.obj)
					m.q = t.overwrite(m.q, add(a.off, a.len), q2)
					if !n2.is(0) {
						t.event(&Event{kind: "inplace", obj: a.obj, n: n2, pos: pos, fn: fr.fn})
					}
					out = append(out, callOut{t, VSlice{obj: a.obj, off: a.off, len: nl, cap: a.cap, nilS: a.nilS}})
				}
				if d == 1 {
					return out
				}
				if !cur.assume(fits.not()) {
					return out
				}
			}
			v := cur.growCap(cur.newBytes(cur.cat(cur.sliceBytes(a), q2), "append"))
			return append(out, callOut{cur, v})
		}
		return one(st, unknown(c.Args[0].Type(), fresh("append")))
	}
	// other element types
	var n2 *Lin
	var src *VSlice
	switch b := args[1].(type) {
	case VNil:
		return one(st, args[0])
	case VSlice:
		n2, src = b.len, &b
	default:
		return one(st, unknown(c.Args[0].Type(), fresh("append")))
	}
	copyInto := func(s *State, dst ObjID, at *Lin) {
		if n2.isConst() && n2.c <= 64 {
			for i := int64(0); i < n2.c; i++ {
				v := s.elemAt(src.obj, addK(src.off, i))
				s.event(&Event{kind: "elem", obj: dst, n: addK(at, i), v: v, pos: pos, fn: fr.fn})
				s.store(VPtr{obj: dst, idx: addK(at, i)}, s.toVal(v, rt.Elem()), rt.Elem())
			}
			return
		}
		m := s.mut(dst)
		m.el, m.dflt = nil, fresh("append")
		s.event(&Event{kind: "elems", obj: dst, n: n2, pos: pos, fn: fr.fn, v: *src})
	}
	switch a := args[0].(type) {
	case VNil:
		id := st.newObj(&Obj{kind: oElems, typ: rt.Elem(), len: n2})
		copyInto(st, id, K(0))
		return one(st, VSlice{obj: id, off: K(0), len: n2, cap: n2})
	case VSlice:
		nl := add(a.len, n2)
		fits := condGE(sub(a.cap, nl))
		d := st.decide(fits)
		if d == 1 {
			copyInto(st, a.obj, add(a.off, a.len))
			return one(st, VSlice{obj: a.obj, off: a.off, len: nl, cap: a.cap, nilS: a.nilS})
		}
		o := st.obj(a.obj)
		n := &Obj{kind: oElems, typ: o.typ, len: nl, dflt: o.dflt}
		if a.off.is(0) {
			n.el = append([]Elem(nil), o.el...)
		} else {
			for _, x := range o.el {
				n.el = append(n.el, Elem{sub(x.idx, a.off), x.v})
			}
			if o.dflt != "" {
				n.dflt = o.dflt + "+" + a.off.String()
			}
		}
		cp := newSym("cap", 0, maxLen)
		st.addRaw(mkFact(GE, sub(S(cp), nl)))
		n.len = S(cp)
		id := st.newObj(n)
		copyInto(st, id, a.len)
		return one(st, VSlice{obj: id, off: K(0), len: nl, cap: S(cp)})
	}
	return one(st, unknown(c.Args[0].Type(), fresh("append")))
}

// growCap gives a freshly appended slice an unknown capacity of at least its length.
func (st *State) growCap(v VSlice) VSlice {
	return v
}

func (e *Eng) copyOp(fr *Frame, st *State, args []Val, pos token.Pos) []callOut {
	dst, ok := args[0].(VSlice)
	if !ok {
		return one(st, VInt{K(0)})
	}
	q, n, ok := valBytes(st, args[1])
	o := st.obj(dst.obj)
	if !ok || o.kind != oBytes {
		st.havocObj(dst.obj)
		m := newSym("copied", 0, maxLen)
		st.addRaw(mkFact(GE, sub(dst.len, S(m))))
		return one(st, VInt{S(m)})
	}
	var out []callOut
	do := func(s *State, k *Lin) {
		if !k.is(0) {
			part, _ := s.slice(q, K(0), k)
			m := s.mut(dst.obj)
			m.q = s.overwrite(m.q, dst.off, part)
			s.event(&Event{kind: "copy", obj: dst.obj, n: k, pos: pos, fn: fr.fn})
		}
		out = append(out, callOut{s, VInt{k}})
	}
	t := st.fork()
	if t.assume(condGE(sub(dst.len, n))) {
		do(t, n)
	}
	if st.assume(condGE(addK(sub(n, dst.len), -1))) {
		do(st, dst.len)
	}
	return out
}
