package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Models of further library functions that a rewriting of the code may call.

// pureStd: functions of these packages leave their arguments alone; the same arguments give the same result.
func pureStd(fn *ssa.Function, args []Val) bool {
	if fn.Pkg == nil || fn.Signature.Recv() != nil {
		return false
	}
	switch fn.Pkg.Pkg.Path() {
	case "strings", "bytes", "strconv", "unicode", "unicode/utf8", "math", "errors", "internal/stringslite":
	case "fmt":
		if !strings.HasPrefix(fn.Name(), "Sprint") {
			return false
		}
	default:
		return false
	}
	if strings.HasPrefix(fn.Name(), "Append") || fn.Name() == "EncodeRune" || fn.Name() == "As" || strings.HasPrefix(fn.Name(), "NewRe") {
		return false
	}
	ps := fn.Signature.Params()
	for i := 0; i < ps.Len(); i++ {
		if _, ok := ps.At(i).Type().Underlying().(*types.Signature); ok {
			return false
		}
	}
	return true
}

func (e *Eng) pureCall(st *State, fn *ssa.Function, args []Val, pos token.Pos) []callOut {
	rs := fn.Signature.Results()
	for i := 0; i < rs.Len(); i++ {
		switch rs.At(i).Type().Underlying().(type) {
		case *types.Slice, *types.Pointer, *types.Map, *types.Chan:
			return one(st, unknown(rs, fresh("ret "+fn.String())))
		}
	}
	return pureModel(fn.String())(e, nil, st, fn, args, pos)
}

// elems: the elements of a slice of known length.
func elems(st *State, v Val) ([]Val, bool) {
	switch x := v.(type) {
	case VNil:
		return nil, true
	case VSlice:
		if x.len.isConst() && x.len.c <= 64 {
			var r []Val
			for i := int64(0); i < x.len.c; i++ {
				r = append(r, st.elemAt(x.obj, addK(x.off, i)))
			}
			return r, true
		}
	}
	return nil, false
}

func init() {
	M := models
	type mf = func(e *Eng, fr *Frame, st *State, fn *ssa.Function, args []Val, pos token.Pos) []callOut
	// text of the printing functions
	text := func(kind string) func(e *Eng, fr *Frame, st *State, args []Val, pos token.Pos) Seq {
		return func(e *Eng, fr *Frame, st *State, args []Val, pos token.Pos) Seq {
			if kind == "f" {
				for _, o := range M["fmt.Sprintf"](e, fr, st, nil, args, pos) {
					return strOf(o.st, o.res)
				}
			}
			va, ok := elems(st, args[0])
			var q Seq
			for i, a := range va {
				s, okS := Seq(nil), false
				if x, isI := a.(VIface); isI && x.dyn != nil {
					if b, isB := x.dyn.Underlying().(*types.Basic); isB && b.Info()&types.IsString != 0 && x.dyn == types.Typ[types.String] {
						s, okS = strOf(st, x.val), true
					}
				}
				ok = ok && okS
				if i > 0 && kind == "ln" {
					q = append(q, strSeq(" ")...)
				}
				q = append(q, s...)
			}
			if !ok {
				return freshBlob("sprint", S(newSym("sprintlen", 0, maxLen)))
			}
			if kind == "ln" {
				q = append(q, strSeq("\n")...)
			}
			return st.norm(q)
		}
	}
	for name, kind := range map[string]string{"": "", "f": "f", "ln": "ln"} {
		t := text(kind)
		if name != "f" {
			M["fmt.Sprint"+name] = func(e *Eng, fr *Frame, st *State, fn *ssa.Function, args []Val, pos token.Pos) []callOut {
				return one(st, VStr{t(e, fr, st, args, pos)})
			}
		}
		M["fmt.Fprint"+name] = func(e *Eng, fr *Frame, st *State, fn *ssa.Function, args []Val, pos token.Pos) []callOut {
			return e.writeTo(fr, st, args[0], t(e, fr, st, args[1:], pos), pos)
		}
	}
	// trimming on one side
	side := func(name string, str bool, f func(string, string) string) mf {
		g := trimModel(name, str, func(a []Val, st *State) (string, bool) { return strOf(st, a[1]).constStr() })
		return func(e *Eng, fr *Frame, st *State, fn *ssa.Function, args []Val, pos token.Pos) []callOut {
			c, ok := strOf(st, args[0]).constStr()
			cs, ok2 := strOf(st, args[1]).constStr()
			if !ok || !ok2 {
				return g(e, fr, st, fn, args, pos)
			}
			t := f(c, cs)
			if str {
				return one(st, VStr{strSeq(t)})
			}
			if sl, ok := args[0].(VSlice); ok {
				i := int64(0)
				if name == "trimleft" {
					i = int64(len(c) - len(t))
				}
				return one(st, VSlice{obj: sl.obj, off: addK(sl.off, i), len: K(int64(len(t))), cap: addK(sl.cap, -i), nilS: sl.nilS})
			}
			return one(st, VNil{})
		}
	}
	M["strings.TrimLeft"] = side("trimleft", true, strings.TrimLeft)
	M["bytes.TrimLeft"] = side("trimleft", false, strings.TrimLeft)
	M["strings.TrimRight"] = side("trimright", true, strings.TrimRight)
	M["bytes.TrimRight"] = side("trimright", false, strings.TrimRight)
	toCase := func(name string, f func(string) string) mf {
		g := caseModel(name, f)
		return func(e *Eng, fr *Frame, st *State, fn *ssa.Function, args []Val, pos token.Pos) []callOut {
			var out []callOut
			for _, o := range g(e, fr, st, fn, args, pos) {
				out = append(out, callOut{o.st, o.st.newBytes(strOf(o.st, o.res), name)})
			}
			return out
		}
	}
	M["bytes.ToLower"] = toCase("lower", strings.ToLower)
	M["bytes.ToUpper"] = toCase("upper", strings.ToUpper)
	M["bytes.LastIndex"] = M["strings.LastIndex"]
	lastByte := func(e *Eng, fr *Frame, st *State, fn *ssa.Function, args []Val, pos token.Pos) []callOut {
		s := st.newBytes(Seq{{k: sByte, v: intOf(args[1])}}, "b")
		return M["strings.LastIndex"](e, fr, st, fn, []Val{args[0], s}, pos)
	}
	M["strings.LastIndexByte"] = lastByte
	M["bytes.LastIndexByte"] = lastByte
	runeIdx := func(e *Eng, fr *Frame, st *State, fn *ssa.Function, args []Val, pos token.Pos) []callOut {
		if r := intOf(args[1]); r.isConst() && r.c >= 0 && r.c < 128 {
			return M["strings.IndexByte"](e, fr, st, fn, args, pos)
		}
		return e.pureCall(st, fn, args, pos)
	}
	M["strings.IndexRune"] = runeIdx
	M["bytes.IndexRune"] = runeIdx
	M["internal/stringslite.Index"] = M["strings.Index"]
	M["internal/stringslite.IndexByte"] = M["strings.IndexByte"]
	M["internal/stringslite.HasPrefix"] = M["strings.HasPrefix"]
	M["internal/stringslite.HasSuffix"] = M["strings.HasSuffix"]
	for _, n := range []string{"Cut", "CutPrefix", "CutSuffix", "TrimPrefix", "TrimSuffix"} {
		inlineStd["internal/stringslite."+n] = true
	}
	M["strings.ContainsRune"] = func(e *Eng, fr *Frame, st *State, fn *ssa.Function, args []Val, pos token.Pos) []callOut {
		if r := intOf(args[1]); r.isConst() && r.c >= 0 && r.c < 128 {
			var out []callOut
			for _, o := range M["strings.IndexByte"](e, fr, st, fn, args, pos) {
				out = append(out, callOut{o.st, VBool{condB(!intOf(o.res).is(-1))}})
			}
			return out
		}
		return e.pureCall(st, fn, args, pos)
	}
	join := M["strings.Join"]
	M["bytes.Join"] = func(e *Eng, fr *Frame, st *State, fn *ssa.Function, args []Val, pos token.Pos) []callOut {
		var out []callOut
		if _, ok := elems(st, args[0]); !ok {
			return e.pureCall(st, fn, args, pos)
		}
		if _, isN := args[0].(VNil); isN {
			return one(st, st.newBytes(nil, "join"))
		}
		for _, o := range join(e, fr, st, fn, args, pos) {
			out = append(out, callOut{o.st, o.st.newBytes(strOf(o.st, o.res), "join")})
		}
		return out
	}
	repeat := func(str bool) mf {
		return func(e *Eng, fr *Frame, st *State, fn *ssa.Function, args []Val, pos token.Pos) []callOut {
			n := intOf(args[1])
			st = e.oblige(fr, st, pos, "panic", condGE(n), "negative repeat count")
			if st == nil {
				return nil
			}
			q := st.norm(strOf(st, args[0]))
			var r Seq
			switch {
			case q.size().is(1):
				r = Seq{{k: sFill, v: st.byteAt(q, K(0)), n: n}}
			case n.isConst() && n.c <= 64:
				for i := int64(0); i < n.c; i++ {
					r = append(r, q...)
				}
			default:
				r = freshBlob("repeat", S(newSym("repeatlen", 0, maxLen)))
			}
			r = st.norm(r)
			if str {
				return one(st, VStr{r})
			}
			return one(st, st.newBytes(r, "repeat"))
		}
	}
	M["strings.Repeat"] = repeat(true)
	M["bytes.Repeat"] = repeat(false)
	// ---- numbers as text
	atoi := M["strconv.Atoi"]
	M["strconv.ParseInt"] = func(e *Eng, fr *Frame, st *State, fn *ssa.Function, args []Val, pos token.Pos) []callOut {
		if b := intOf(args[2]); intOf(args[1]).is(10) && (b.is(0) || b.is(64)) {
			return atoi(e, fr, st, fn, args[:1], pos)
		}
		return e.pureCall(st, fn, args, pos)
	}
	M["strconv.FormatUint"] = M["strconv.FormatInt"]
	M["strconv.AppendInt"] = func(e *Eng, fr *Frame, st *State, fn *ssa.Function, args []Val, pos token.Pos) []callOut {
		q, _, ok := valBytes(st, args[0])
		if _, isN := args[0].(VNil); !ok && !isN || !intOf(args[2]).is(10) {
			e.havocArg(st, args[0])
			return one(st, unknown(fn.Signature.Results(), fresh("appendint")))
		}
		return one(st, st.newBytes(append(append(Seq{}, q...), itoaSeq(intOf(args[1]))...), "appendint"))
	}
	// ---- errors
	M["errors.Is"] = func(e *Eng, fr *Frame, st *State, fn *ssa.Function, args []Val, pos token.Pos) []callOut {
		x, ok := args[0].(VIface)
		y, ok2 := args[1].(VIface)
		if _, isN := args[0].(VNil); isN {
			return one(st, VBool{condB(isN && !ok2)})
		}
		if !ok || !ok2 {
			return e.pureCall(st, fn, args, pos)
		}
		c := e.ifaceEq(st, x, y)
		known := x.dyn == nil && strings.HasPrefix(x.id, "new:")
		if known {
			return one(st, VBool{c})
		}
		var out []callOut
		t := st.fork()
		if t.assume(c) {
			out = append(out, callOut{t, VBool{condTrue}})
		}
		if st.assume(c.not()) {
			out = append(out, callOut{st, VBool{condSym(keySym("errors.Is("+vkey(x)+","+vkey(y)+")", 0, 1))}})
		}
		return out
	}
	// ---- reading everything
	// rest takes everything left of a source, at most lim bytes where given.
	rest := func(e *Eng, fr *Frame, st *State, src Val, pos token.Pos) []callOut {
		var lim *Lin
		var limAt VPtr
		if i, ok := src.(VIface); ok && i.dyn != nil && types.TypeString(i.dyn, nil) == "*io.LimitedReader" {
			if p, ok := i.val.(VPtr); ok {
				if v, ok := st.load(p, i.dyn.Underlying().(*types.Pointer).Elem()).(VStruct); ok && len(v.f) == 2 {
					src, lim, limAt = v.f[0], intOf(v.f[1]), p
				}
			}
		}
		id, ok := e.source(st, src)
		if !ok {
			return nil
		}
		o := st.obj(id)
		var avail *Lin
		if o.kind == oBuf {
			avail = o.q.size()
		} else if o.end() != nil {
			avail = sub(o.end(), o.pos)
		}
		var out []callOut
		give := func(s *State, n *Lin, err Val) {
			q := s.take(id, n)
			k := "read"
			if _, isN := err.(VNil); !isN {
				k = "readfail"
			}
			s.event(&Event{kind: k, id: fmt.Sprint(id), q: q, n: n, pos: pos, fn: fr.fn, v: err})
			if lim != nil {
				p := limAt
				p.path = append(append([]int{}, p.path...), 1)
				s.store(p, VInt{sub(lim, n)}, types.Typ[types.Int64])
			}
			out = append(out, callOut{s, tuple(s.newBytes(q, "rest"), err)})
		}
		if avail == nil {
			avail = S(newSym("rest", 0, maxLen))
		}
		if e.failIO || o.pieces() {
			s := st.fork()
			m := newSym("part", 0, maxLen)
			if s.assume(condGE(sub(avail, S(m)))) && (lim == nil || s.assume(condGE(sub(lim, S(m))))) {
				s.torn(o)
				give(s, S(m), errVal("read"))
			}
		}
		if lim == nil {
			give(st, avail, VNil{})
			return out
		}
		s := st.fork()
		if s.assume(condGE(addK(neg(lim), -1))) { // negative limit
			out = append(out, callOut{s, tuple(s.newBytes(nil, "rest"), VNil{})})
		}
		s = st.fork()
		if s.assume(condGE(lim)) && s.assume(condGE(sub(avail, lim))) {
			give(s, lim, VNil{})
		}
		if st.assume(condGE(lim)) && st.assume(condGE(addK(sub(lim, avail), -1))) {
			give(st, avail, VNil{})
		}
		return out
	}
	readAll := func(e *Eng, fr *Frame, st *State, fn *ssa.Function, args []Val, pos token.Pos) []callOut {
		if out := rest(e, fr, st, args[0], pos); out != nil {
			return out
		}
		return one(st, unknown(fn.Signature.Results(), fresh("readall")))
	}
	M["io.ReadAll"] = readAll
	M["io/ioutil.ReadAll"] = readAll
	M["io.Copy"] = func(e *Eng, fr *Frame, st *State, fn *ssa.Function, args []Val, pos token.Pos) []callOut {
		rs := rest(e, fr, st, args[1], pos)
		if rs == nil {
			e.note("unmodelled call io.Copy")
			e.havocArg(st, args[0])
			return one(st, unknown(fn.Signature.Results(), fresh("copy")))
		}
		var out []callOut
		for _, r := range rs {
			t := r.res.(VTuple)
			q, _, _ := valBytes(r.st, t.v[0])
			for _, w := range e.writeTo(fr, r.st, args[0], q, pos) {
				wt := w.res.(VTuple)
				if _, isN := t.v[1].(VNil); isN {
					out = append(out, callOut{w.st, wt})
				} else {
					out = append(out, callOut{w.st, tuple(wt.v[0], t.v[1])})
				}
			}
		}
		return out
	}
	// ---- buffered writing: what the buffer holds reaches the writer when it is flushed; after a failure nothing does.
	newWriter := func(e *Eng, fr *Frame, st *State, fn *ssa.Function, args []Val, pos token.Pos) []callOut {
		return one(st, VPtr{obj: st.newObj(&Obj{kind: oBuf, v: args[0]})})
	}
	M["bufio.NewWriter"] = newWriter
	M["bufio.NewWriterSize"] = newWriter
	for _, n := range []string{"Write", "WriteString", "WriteByte", "WriteRune"} {
		put := M["(*bytes.Buffer)."+n]
		M["(*bufio.Writer)."+n] = func(e *Eng, fr *Frame, st *State, fn *ssa.Function, args []Val, pos token.Pos) []callOut {
			s, id := bufOf(e, fr, st, args[0], pos)
			if s == nil {
				return nil
			}
			if id != 0 && s.obj(id).name == "failed" {
				if fn.Signature.Results().Len() == 1 {
					return one(s, errVal("write"))
				}
				return one(s, tuple(VInt{K(0)}, errVal("write")))
			}
			return put(e, fr, s, fn, args, pos)
		}
	}
	M["(*bufio.Writer).Flush"] = func(e *Eng, fr *Frame, st *State, fn *ssa.Function, args []Val, pos token.Pos) []callOut {
		s, id := bufOf(e, fr, st, args[0], pos)
		if s == nil {
			return nil
		}
		if id == 0 || s.obj(id).v == nil {
			e.note("unmodelled call (*bufio.Writer).Flush")
			return one(s, unknown(errType, fresh("flush")))
		}
		if s.obj(id).name == "failed" {
			return one(s, errVal("write"))
		}
		var out []callOut
		z := s.fork()
		if z.assume(condEQ(s.obj(id).q.size())) {
			out = append(out, callOut{z, VNil{}})
		}
		if !s.assume(condGE(addK(s.obj(id).q.size(), -1))) {
			return out
		}
		q := s.obj(id).q
		w := s.obj(id).v
		s.mut(id).q = nil
		for _, r := range e.writeTo(fr, s, w, q, pos) {
			t, ok := r.res.(VTuple)
			if !ok {
				continue
			}
			if _, isN := t.v[1].(VNil); !isN {
				r.st.mut(id).name = "failed"
			}
			out = append(out, callOut{r.st, t.v[1]})
		}
		return out
	}
}
