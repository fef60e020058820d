package main

// The interpreter: runs a function's SSA over abstract states, forking on undecided conditions and
// merging where control flow rejoins.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"os"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Oblig struct {
	kind  string
	pos   token.Pos
	fn    *ssa.Function
	ok    bool
	def   bool // definitely violated
	why   string
	stack string
	loop  *loopRec
}

type Outcome struct {
	st  *State
	res Val
}

type Frame struct {
	fn     *ssa.Function
	fi     *fnInfo
	outs   []Outcome
	parent *Frame
	pos    token.Pos
	loops  []*loopInfo
}

func (fr *Frame) stack() string {
	var p []string
	for f := fr; f != nil; f = f.parent {
		p = append(p, fnName(f.fn))
	}
	// innermost last
	for i, j := 0, len(p)-1; i < j; i, j = i+1, j-1 {
		p[i], p[j] = p[j], p[i]
	}
	return strings.Join(p, " > ")
}

type Eng struct {
	prog          *ssa.Program
	fset          *token.FileSet
	log           []*Oblig
	notes         map[string]int // imprecision notes
	loops         []*loopRec
	steps         int
	maxSteps      int
	maxStates     int
	analysed      map[*ssa.Function]int
	stackFns      map[*ssa.Function]int
	hooks         map[string]modelFn // per-check overrides of callees
	maxRec        int
	noUnroll      map[*ssa.BasicBlock]int
	quiet         int
	rec           func(e *Eng, fr *Frame, st *State, fn *ssa.Function, args []Val, pos token.Pos) []callOut
	callSites     int
	inlineAll     func(fn *ssa.Function) bool
	symMark       map[int]Sym
	nameMark      map[int]int
	objMark       map[int]ObjID
	loopSym       Sym
	contracts     map[string]*ssa.Function // harness functions standing for repository functions
	contractOrder []string
	failIO        bool // whether modelled readers/writers may fail
	exactMax      int
}

type callOut struct {
	st  *State
	res Val
}
type modelFn func(e *Eng, fr *Frame, st *State, fn *ssa.Function, args []Val, pos token.Pos) []callOut

func one(st *State, v Val) []callOut { return []callOut{{st, v}} }

func fnName(fn *ssa.Function) string {
	s := fn.String()
	s = strings.ReplaceAll(s, modPath+"/", "")
	return s
}

const modPath = "github.com/moggle-mog/goav"

func (e *Eng) note(s string) {
	if e.quiet == 0 {
		e.notes[s]++
	}
}

// oblige records the proof obligation that c holds; execution continues where it does.
func (e *Eng) oblige(fr *Frame, st *State, pos token.Pos, kind string, c Cond, what string) *State {
	d := st.decide(c)
	o := &Oblig{kind: kind, pos: pos, fn: fr.fn, ok: d == 1, def: d == -1, stack: fr.stack()}
	if d != 1 {
		o.why = what
	}
	e.log = append(e.log, o)
	if debugOb != "" && d != 1 && kind == debugOb {
		fmt.Fprintf(os.Stderr, "OPEN %s %s: %s\n", o.stack, what, c)
		for i := range syms {
			if os.Getenv("GV_SYM") != "" {
				fmt.Fprintf(os.Stderr, "  %s = %s\n", strconv.FormatInt(int64(i), 36), Sym(i))
			}
		}
		for _, f := range st.facts {
			fmt.Fprintln(os.Stderr, "   fact", f)
		}
	}
	if d == 1 {
		return st
	}
	if d == -1 {
		return nil
	}
	n := st.fork()
	if !n.assume(c) {
		return nil
	}
	return n
}

var debugOb = os.Getenv("GV_OB")

func (fr *Frame) val(st *State, v ssa.Value) Val {
	if i, ok := fr.fi.num[v]; ok {
		return st.env[i]
	}
	switch x := v.(type) {
	case *ssa.Const:
		return constVal(x)
	case *ssa.Global:
		return VPtr{obj: globalOf(x)}
	case *ssa.Function:
		return VFunc{fn: x}
	case *ssa.Builtin:
		return VFunc{id: "builtin " + x.Name()}
	}
	panic(engAbort{fmt.Sprintf("operand %T", v)})
}

func globalOf(g *ssa.Global) ObjID {
	if id, ok := globalObj[g]; ok {
		return id
	}
	et := g.Type().(*types.Pointer).Elem()
	name := g.Pkg.Pkg.Path() + "." + g.Name()
	var v Val
	if strings.HasPrefix(g.Pkg.Pkg.Path(), modPath) {
		v = zero(et)
	} else {
		v = unknown(et, name)
		if i, ok := v.(VIface); ok && isErrType(et) {
			i.id, i.nilS = "new:"+name, 0
			v = i
		}
		v = nonNil(v)
	}
	tmp := &State{heap: baseHeap}
	id := tmp.newVar(et, v)
	baseHeap[id].name = name
	globalObj[g] = id
	return id
}

func constVal(c *ssa.Const) Val {
	if c.Value == nil {
		return zero(c.Type())
	}
	b, ok := c.Type().Underlying().(*types.Basic)
	if !ok {
		return VOpaque{"const " + c.String()}
	}
	switch {
	case b.Info()&types.IsBoolean != 0:
		return VBool{condB(constant.BoolVal(c.Value))}
	case b.Info()&types.IsString != 0:
		return VStr{strSeq(constant.StringVal(c.Value))}
	case b.Info()&types.IsInteger != 0:
		if i, ok := constant.Int64Val(constant.ToInt(c.Value)); ok {
			return VInt{K(i)}
		}
		if u, ok := constant.Uint64Val(constant.ToInt(c.Value)); ok {
			return VInt{S(keySym(fmt.Sprintf("const%d", u), inf, inf))}
		}
	case b.Info()&types.IsFloat != 0:
		if b.Kind() == types.Float64 {
			f, _ := constant.Float64Val(c.Value)
			return floatConst(f)
		}
		return VFloat{c.Value.ExactString()}
	}
	return VOpaque{"const " + c.String()}
}

// run executes fn and returns its outcomes; the caller's environment is restored in them.
func (e *Eng) run(parent *Frame, st *State, fn *ssa.Function, args, bind []Val, pos token.Pos) []Outcome {
	fi := infoOf(fn)
	if len(fn.Blocks) == 0 {
		panic(engAbort{"no body: " + fn.String()})
	}
	if fi.bad != "" {
		panic(engAbort{fi.bad + " in " + fn.String()})
	}
	depth := 0
	for f := parent; f != nil; f = f.parent {
		depth++
	}
	if depth > 60 {
		panic(engAbort{"call depth"})
	}
	e.analysed[fn]++
	fr := &Frame{fn: fn, fi: fi, parent: parent, pos: pos}
	saved := st.env
	savedDefers := st.defers
	s := st.fork()
	s.env = make([]Val, len(fi.vals))
	s.defers = nil
	for i := range fn.Params {
		s.env[i] = args[i]
	}
	for i := range fn.FreeVars {
		s.env[len(fn.Params)+i] = bind[i]
	}
	s.callers = &callerEnv{saved, st.callers}
	e.stackFns[fn]++
	e.region(fr, nil, []*State{s})
	e.stackFns[fn]--
	for i := range fr.outs {
		fr.outs[i].st.env = append([]Val(nil), saved...)
		fr.outs[i].st.defers = savedDefers
		fr.outs[i].st.callers = st.callers
	}
	if isHarness(fn) && len(fr.outs) <= 16 && !strings.HasSuffix(fn.Pkg.Pkg.Path(), "/zzv") {
		return e.exactOuts(fr.outs)
	}
	if coarse && !isHarness(fn) && len(fr.outs) > 4 {
		return e.joinResults(fn, e.mergeOuts(fr.outs))
	}
	return e.mergeOuts(fr.outs)
}

type callerEnv struct {
	env  []Val
	next *callerEnv
}

// mergeOuts joins outcomes that agree in everything but facts.
func (e *Eng) mergeOuts(outs []Outcome) []Outcome { return joinOuts(outs, e.merge) }

// exactOuts drops outcomes covered by another one: the cases a specification distinguishes stay apart.
func (e *Eng) exactOuts(outs []Outcome) []Outcome { return joinOuts(outs, e.mergeExact) }

func joinOuts(outs []Outcome, join func([]*State) []*State) []Outcome {
	if len(outs) < 2 {
		return outs
	}
	var sts []*State
	for _, o := range outs {
		o.st.env = append(o.st.env[:len(o.st.env):len(o.st.env)], o.res)
		sts = append(sts, o.st)
	}
	sts = join(sts)
	var r []Outcome
	for _, s := range sts {
		n := len(s.env) - 1
		res := s.env[n]
		s.env = s.env[:n:n]
		r = append(r, Outcome{s, res})
	}
	return r
}

type edgeState struct {
	from, to *ssa.BasicBlock
	st       *State
}

// region executes the blocks of the function (lp nil) or of one loop iteration.
func (e *Eng) region(fr *Frame, lp *loopInfo, in []*State) (back []edgeState, exits []edgeState) {
	pending := map[*ssa.BasicBlock][]*State{}
	start := fr.fi.rpo[0]
	if lp != nil {
		start = lp.header
	}
	pending[start] = in
	deliver := func(from, to *ssa.BasicBlock, st *State) {
		if lp != nil {
			if to == lp.header {
				back = append(back, edgeState{from, to, st})
				return
			}
			if !lp.body[to] {
				exits = append(exits, edgeState{from, to, st})
				return
			}
		}
		pending[to] = append(pending[to], st)
	}
	for _, b := range fr.fi.rpo {
		sts := pending[b]
		if len(sts) == 0 {
			continue
		}
		delete(pending, b)
		live := fr.fi.live[b]
		for _, s := range sts {
			for i := range s.env {
				if s.env[i] != nil && !live[i] {
					s.env[i] = nil
				}
			}
		}
		if coarse && !isHarness(fr.fn) && len(sts) > 8 {
			sts = e.joinStates(blockEnv(fr, b), sts)
		}
		if isHarness(fr.fn) && lp == nil && len(sts) <= 120 || !isHarness(fr.fn) && len(sts) <= e.exactMax {
			sts = e.mergeExact(sts)
		} else {
			sts = e.merge(sts)
		}
		if len(sts) > e.maxStates {
			panic(engAbort{fmt.Sprintf("too many abstract states (%d) at %s", len(sts), e.fset.Position(blockPos(b)))})
		}
		if inner := fr.fi.heads[b]; inner != nil && inner != lp {
			for _, x := range e.runLoop(fr, inner, sts) {
				deliver(x.from, x.to, x.st)
			}
			continue
		}
		for _, s := range sts {
			e.block(fr, b, s, deliver)
		}
	}
	return
}

func blockPos(b *ssa.BasicBlock) token.Pos {
	for _, in := range b.Instrs {
		if in.Pos().IsValid() {
			return in.Pos()
		}
	}
	return b.Parent().Pos()
}

// edge evaluates the phis of to for the edge from->to and returns the state.
func (e *Eng) edge(fr *Frame, from, to *ssa.BasicBlock, st *State, succIdx int) *State {
	pi := -1
	// an edge may occur twice (both branches to the same block): pick the matching predecessor slot
	cnt := 0
	for k := 0; k < succIdx; k++ {
		if from.Succs[k] == to {
			cnt++
		}
	}
	for k, p := range to.Preds {
		if p == from {
			if cnt == 0 {
				pi = k
				break
			}
			cnt--
		}
	}
	var nums []int
	var vals []Val
	for _, in := range to.Instrs {
		phi, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		nums = append(nums, fr.fi.num[phi])
		vals = append(vals, fr.val(st, phi.Edges[pi]))
	}
	for i, n := range nums {
		st.env[n] = vals[i]
	}
	return st
}

func (e *Eng) tick() {
	e.steps++
	if e.maxSteps > 0 && e.steps > e.maxSteps {
		panic(engAbort{"step budget exhausted"})
	}
}

// block executes one basic block from one state.
func (e *Eng) block(fr *Frame, b *ssa.BasicBlock, st *State, deliver func(from, to *ssa.BasicBlock, st *State)) {
	cur := []*State{st}
	for _, in := range b.Instrs {
		if _, ok := in.(*ssa.Phi); ok {
			continue
		}
		switch x := in.(type) {
		case *ssa.If:
			for _, s := range cur {
				e.tick()
				c := e.cond(fr.val(s, x.Cond))
				if c.cst != 0 {
					k := 0
					if c.cst < 0 {
						k = 1
					}
					deliver(b, b.Succs[k], e.edge(fr, b, b.Succs[k], s, k))
					continue
				}
				t := s.fork()
				okT := t.assume(c)
				f := s
				okF := f.assume(c.not())
				if okT {
					t.noteBranch(c)
					deliver(b, b.Succs[0], e.edge(fr, b, b.Succs[0], t, 0))
				}
				if okF {
					deliver(b, b.Succs[1], e.edge(fr, b, b.Succs[1], f, 1))
				}
			}
			return
		case *ssa.Jump:
			for _, s := range cur {
				deliver(b, b.Succs[0], e.edge(fr, b, b.Succs[0], s, 0))
			}
			return
		case *ssa.Return:
			for _, s := range cur {
				var v Val
				switch len(x.Results) {
				case 0:
				case 1:
					v = fr.val(s, x.Results[0])
				default:
					t := make([]Val, len(x.Results))
					for i, r := range x.Results {
						t[i] = fr.val(s, r)
					}
					v = VTuple{t}
				}
				fr.outs = append(fr.outs, Outcome{s, v})
			}
			return
		case *ssa.Panic:
			for _, s := range cur {
				_ = s
				e.log = append(e.log, &Oblig{kind: "panic", pos: x.Pos(), fn: fr.fn, ok: false, def: true, why: "explicit panic reachable", stack: fr.stack()})
			}
			return
		}
		var next []*State
		for _, s := range cur {
			e.tick()
			next = append(next, e.instr(fr, in, s)...)
		}
		cur = next
		if len(cur) == 0 {
			return
		}
	}
}

func (st *State) noteBranch(c Cond) {}

func (e *Eng) cond(v Val) Cond {
	if b, ok := v.(VBool); ok {
		return b.c
	}
	return condSym(newSym("cond?", 0, 1))
}

// instr executes one non-control instruction.
func (e *Eng) instr(fr *Frame, in ssa.Instruction, st *State) []*State {
	set := func(s *State, v Val) []*State {
		s.env[fr.fi.num[in.(ssa.Value)]] = v
		return []*State{s}
	}
	switch x := in.(type) {
	case *ssa.DebugRef:
		return []*State{st}
	case *ssa.Alloc:
		et := x.Type().(*types.Pointer).Elem()
		id := st.newVar(et, zero(et))
		st.heap[id].name = x.Comment
		return set(st, VPtr{obj: id})
	case *ssa.BinOp:
		return e.binop(fr, x, st)
	case *ssa.UnOp:
		switch x.Op {
		case token.MUL:
			s, p, ok := e.deref(fr, st, fr.val(st, x.X), x.Pos())
			if s == nil {
				return nil
			}
			if !ok {
				return set(s, unknown(x.Type(), fresh("load")))
			}
			get := func(s *State) []*State {
				v := s.load(p, x.Type())
				if v == nil {
					v = unknown(x.Type(), fresh("load"))
				}
				return set(s, v)
			}
			var out []*State
			for _, i := range s.maybeElems(p) {
				t := s.fork()
				d := sub(p.idx, i)
				if t.assume(condEQ(d)) {
					out = append(out, get(t)...)
				}
				if !s.assume(condEQ(d).not()) {
					return out
				}
			}
			return append(out, get(s)...)
		case token.NOT:
			return set(st, VBool{e.cond(fr.val(st, x.X)).not()})
		case token.SUB:
			switch v := fr.val(st, x.X).(type) {
			case VInt:
				return set(st, VInt{e.wrap(st, neg(v.l), x.Type())})
			case VFloat:
				if f, ok := floatVal(v.t); ok {
					return set(st, floatConst(-f))
				}
				return set(st, VFloat{"-(" + v.t + ")"})
			}
		case token.XOR:
			if v, ok := fr.val(st, x.X).(VInt); ok {
				w, sg, _ := intInfo(x.Type())
				if sg || w == 64 {
					return set(st, VInt{e.wrap(st, addK(neg(v.l), -1), x.Type())})
				}
				b := st.bits(v.l, w)
				r := make(BV, w)
				for i := range b {
					r[i] = bitNot(b[i])
				}
				return set(st, VInt{st.fromBits(r, false, "not")})
			}
		}
		return set(st, unknown(x.Type(), fresh("unop")))
	case *ssa.FieldAddr:
		s, p, ok := e.deref(fr, st, fr.val(st, x.X), x.Pos())
		if s == nil {
			return nil
		}
		if !ok {
			return set(s, nonNil(unknown(x.Type(), fresh("faddr"))))
		}
		return set(s, s.field(p, x.Field))
	case *ssa.Field:
		if v, ok := fr.val(st, x.X).(VStruct); ok {
			return set(st, v.f[x.Field])
		}
		return set(st, unknown(x.Type(), fresh("field")))
	case *ssa.IndexAddr:
		return e.indexAddr(fr, x, st)
	case *ssa.Index:
		return e.index(fr, x, st)
	case *ssa.Lookup:
		return e.lookup(fr, x, st)
	case *ssa.Slice:
		return e.sliceOp(fr, x, st)
	case *ssa.Store:
		s, p, ok := e.deref(fr, st, fr.val(st, x.Addr), x.Pos())
		if s == nil {
			return nil
		}
		if !ok {
			e.note("store through unknown pointer at " + e.fset.Position(x.Pos()).String())
			return []*State{s}
		}
		s.store(p, fr.val(s, x.Val), x.Val.Type())
		return []*State{s}
	case *ssa.MakeInterface:
		v := fr.val(st, x.X)
		return set(st, VIface{dyn: x.X.Type(), val: v})
	case *ssa.ChangeInterface:
		return set(st, fr.val(st, x.X))
	case *ssa.ChangeType:
		return set(st, fr.val(st, x.X))
	case *ssa.Convert:
		return e.convert(fr, x, st)
	case *ssa.MakeClosure:
		var b []Val
		for _, y := range x.Bindings {
			b = append(b, fr.val(st, y))
		}
		return set(st, VFunc{fn: x.Fn.(*ssa.Function), bind: b})
	case *ssa.MakeMap:
		if x.Reserve != nil {
			if n, ok := fr.val(st, x.Reserve).(VInt); ok {
				st = e.reserve(fr, st, x.Pos(), n.l, types.NewArray(types.Typ[types.Int64], 8))
				if st == nil {
					return nil
				}
			}
		}
		id := st.newObj(&Obj{kind: oMap, typ: x.Type(), mlen: K(0)})
		return set(st, VMap{obj: id})
	case *ssa.MakeSlice:
		ln, ok1 := fr.val(st, x.Len).(VInt)
		cp, ok2 := fr.val(st, x.Cap).(VInt)
		if !ok1 || !ok2 {
			return set(st, unknown(x.Type(), fresh("make")))
		}
		st = e.oblige(fr, st, x.Pos(), "makesize", condGE(ln.l), "length "+ln.l.String()+" may be negative")
		if st == nil {
			return nil
		}
		if cp.l != ln.l {
			st = e.oblige(fr, st, x.Pos(), "makesize", condGE(sub(cp.l, ln.l)), "capacity may be below length")
			if st == nil {
				return nil
			}
		}
		st = e.reserve(fr, st, x.Pos(), cp.l, x.Type().Underlying().(*types.Slice).Elem())
		if st == nil {
			return nil
		}
		et := x.Type().Underlying().(*types.Slice).Elem()
		var id ObjID
		if isByte(et) {
			id = st.newObj(&Obj{kind: oBytes, typ: et, q: st.norm(Seq{{k: sFill, v: K(0), n: cp.l}})})
		} else {
			id = st.newObj(&Obj{kind: oElems, typ: et, len: cp.l})
		}
		return set(st, VSlice{obj: id, off: K(0), len: ln.l, cap: cp.l})
	case *ssa.MapUpdate:
		m := fr.val(st, x.Map)
		return e.mapUpdate(fr, st, m, fr.val(st, x.Key), fr.val(st, x.Value), x.Pos())
	case *ssa.Range:
		return set(st, e.mkRange(st, fr.val(st, x.X), x.X.Type()))
	case *ssa.Next:
		return e.next(fr, x, st)
	case *ssa.TypeAssert:
		return e.typeAssert(fr, x, st)
	case *ssa.Extract:
		if t, ok := fr.val(st, x.Tuple).(VTuple); ok {
			return set(st, t.v[x.Index])
		}
		return set(st, unknown(x.Type(), fresh("extract")))
	case *ssa.Call:
		var r []*State
		for _, o := range e.call(fr, st, x.Common(), x.Pos()) {
			if x.Type() != nil {
				o.st.env[fr.fi.num[x]] = o.res
			}
			r = append(r, o.st)
		}
		return r
	case *ssa.Defer:
		var args []Val
		for _, a := range x.Call.Args {
			args = append(args, fr.val(st, a))
		}
		var f Val
		if !x.Call.IsInvoke() {
			f = fr.val(st, x.Call.Value)
		} else {
			f = fr.val(st, x.Call.Value)
		}
		st.defers = append(st.defers[:len(st.defers):len(st.defers)], deferred{f, args, x})
		return []*State{st}
	case *ssa.RunDefers:
		cur := []*State{st}
		for len(cur) > 0 && len(cur[0].defers) > 0 {
			var next []*State
			for _, s := range cur {
				if len(s.defers) == 0 {
					next = append(next, s)
					continue
				}
				d := s.defers[len(s.defers)-1]
				s.defers = s.defers[: len(s.defers)-1 : len(s.defers)-1]
				for _, o := range e.callVal(fr, s, d.fn, d.args, &d.call.Call, d.call.Pos()) {
					next = append(next, o.st)
				}
			}
			cur = next
		}
		return cur
	case *ssa.Go, *ssa.Send, *ssa.Select, *ssa.MakeChan:
		panic(engAbort{fmt.Sprintf("concurrency construct %T at %s", in, e.fset.Position(in.Pos()))})
	case *ssa.SliceToArrayPointer:
		return set(st, unknown(x.Type(), fresh("s2a")))
	}
	if v, ok := in.(ssa.Value); ok {
		e.note(fmt.Sprintf("unmodelled instruction %T", in))
		return set(st, unknown(v.Type(), fresh("instr")))
	}
	return []*State{st}
}

// deref checks a pointer for nil; ok=false when the pointee is unknown.
func (e *Eng) deref(fr *Frame, st *State, v Val, pos token.Pos) (*State, VPtr, bool) {
	switch p := v.(type) {
	case VPtr:
		if p.nilS != 0 {
			st = e.oblige(fr, st, pos, "nil", isNil(p).not(), "pointer may be nil")
			if st == nil {
				return nil, p, false
			}
			p.nilS = 0
		}
		return st, p, true
	case VNil:
		return e.oblige(fr, st, pos, "nil", condFalse, "nil pointer dereference"), VPtr{}, false
	}
	return st, VPtr{}, false
}

func (e *Eng) indexAddr(fr *Frame, x *ssa.IndexAddr, st *State) []*State {
	iv, okI := fr.val(st, x.Index).(VInt)
	if !okI {
		iv = VInt{freshLin("idx?")}
	}
	num := fr.fi.num[x]
	var obj ObjID
	var off, n *Lin
	switch s := fr.val(st, x.X).(type) {
	case VSlice:
		obj, off, n = s.obj, s.off, s.len
	case VPtr:
		st2, p, ok := e.deref(fr, st, s, x.Pos())
		if st2 == nil {
			return nil
		}
		st = st2
		if !ok {
			break
		}
		obj, off = p.obj, K(0)
		n = K(x.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len())
	case VNil:
		n = K(0)
	}
	if n != nil {
		st = e.inBounds(fr, st, x.Pos(), iv.l, n)
		if st == nil {
			return nil
		}
	}
	if obj == 0 {
		if n == nil {
			e.note("index of unknown slice at " + e.fset.Position(x.Pos()).String())
		}
		st.env[num] = nonNil(unknown(x.Type(), fresh("elemp")))
		return []*State{st}
	}
	p := VPtr{obj: obj, idx: add(off, iv.l)}
	if o := st.obj(obj); o.kind == oElems {
		// elements that are arrays live in their own object
		if _, ok := o.typ.Underlying().(*types.Array); ok {
			if a, ok := st.elemAt(obj, p.idx).(VArr); ok {
				p = VPtr{obj: a.obj}
			}
		}
	}
	st.env[num] = p
	return []*State{st}
}

func (e *Eng) inBounds(fr *Frame, st *State, pos token.Pos, i, n *Lin) *State {
	st = e.oblige(fr, st, pos, "index", condGE(i), fmt.Sprintf("index %s may be negative", i))
	if st == nil {
		return nil
	}
	return e.oblige(fr, st, pos, "index", condGE(addK(sub(n, i), -1)), fmt.Sprintf("index %s may reach length %s", i, n))
}

func (e *Eng) index(fr *Frame, x *ssa.Index, st *State) []*State {
	num := fr.fi.num[x]
	iv, okI := fr.val(st, x.Index).(VInt)
	if !okI {
		iv = VInt{freshLin("idx?")}
	}
	switch s := fr.val(st, x.X).(type) {
	case VStr:
		st = e.inBounds(fr, st, x.Pos(), iv.l, s.q.size())
		if st == nil {
			return nil
		}
		st.env[num] = VInt{st.byteAt(s.q, iv.l)}
		return []*State{st}
	case VBytes:
		st = e.inBounds(fr, st, x.Pos(), iv.l, s.q.size())
		if st == nil {
			return nil
		}
		st.env[num] = VInt{e.tableByte(st, s.q, iv.l)}
		return []*State{st}
	case VElems:
		st = e.inBounds(fr, st, x.Pos(), iv.l, s.o.len)
		if st == nil {
			return nil
		}
		id := st.newObj(s.o)
		st.env[num] = st.toVal(st.elemAt(id, iv.l), x.Type())
		return []*State{st}
	}
	st.env[num] = unknown(x.Type(), fresh("index"))
	return []*State{st}
}

func (e *Eng) tableByte(st *State, q Seq, i *Lin) *Lin { return st.byteAt(q, i) }

func (e *Eng) sliceOp(fr *Frame, x *ssa.Slice, st *State) []*State {
	num := fr.fi.num[x]
	get := func(v ssa.Value, d *Lin) *Lin {
		if v == nil {
			return d
		}
		if i, ok := fr.val(st, v).(VInt); ok {
			return i.l
		}
		return freshLin("slice?")
	}
	base := fr.val(st, x.X)
	lo := get(x.Low, K(0))
	switch s := base.(type) {
	case VStr:
		n := s.q.size()
		hi := get(x.High, n)
		st = e.sliceBounds(fr, st, x.Pos(), lo, hi, n)
		if st == nil {
			return nil
		}
		q, _ := st.slice(s.q, lo, hi)
		st.env[num] = VStr{q}
		return []*State{st}
	case VSlice:
		hi := get(x.High, s.len)
		mx := get(x.Max, s.cap)
		if x.Max != nil {
			st = e.oblige(fr, st, x.Pos(), "slice", condGE(sub(s.cap, mx)), "max exceeds capacity")
			if st == nil {
				return nil
			}
		}
		st = e.sliceBounds(fr, st, x.Pos(), lo, hi, mx)
		if st == nil {
			return nil
		}
		st.env[num] = VSlice{obj: s.obj, off: add(s.off, lo), len: sub(hi, lo), cap: sub(mx, lo), nilS: s.nilS}
		return []*State{st}
	case VNil:
		hi := get(x.High, K(0))
		st = e.sliceBounds(fr, st, x.Pos(), lo, hi, K(0))
		if st == nil {
			return nil
		}
		st.env[num] = VNil{}
		return []*State{st}
	case VPtr:
		st2, p, ok := e.deref(fr, st, s, x.Pos())
		if st2 == nil {
			return nil
		}
		st = st2
		if ok && p.idx == nil {
			n := K(x.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len())
			hi := get(x.High, n)
			st = e.sliceBounds(fr, st, x.Pos(), lo, hi, n)
			if st == nil {
				return nil
			}
			st.env[num] = VSlice{obj: p.obj, off: lo, len: sub(hi, lo), cap: sub(n, lo)}
			return []*State{st}
		}
	}
	e.note("slice of unknown value at " + e.fset.Position(x.Pos()).String())
	st.env[num] = unknown(x.Type(), fresh("slice"))
	return []*State{st}
}

func (e *Eng) sliceBounds(fr *Frame, st *State, pos token.Pos, lo, hi, n *Lin) *State {
	st = e.oblige(fr, st, pos, "slice", condGE(lo), fmt.Sprintf("low bound %s may be negative", lo))
	if st == nil {
		return nil
	}
	if lo != hi {
		st = e.oblige(fr, st, pos, "slice", condGE(sub(hi, lo)), fmt.Sprintf("bounds [%s:%s] may be inverted", lo, hi))
		if st == nil {
			return nil
		}
	}
	return e.oblige(fr, st, pos, "slice", condGE(sub(n, hi)), fmt.Sprintf("high bound %s may exceed %s", hi, n))
}

// keyEq is the condition that two map keys are equal.
func (e *Eng) valEqCond(st *State, a, b Val) Cond {
	switch x := a.(type) {
	case VInt:
		if y, ok := b.(VInt); ok {
			return condEQ(sub(x.l, y.l))
		}
	case VBool:
		if y, ok := b.(VBool); ok {
			if y.c.cst == 1 {
				return x.c
			}
			if y.c.cst == -1 {
				return x.c.not()
			}
			if x.c.cst == 1 {
				return y.c
			}
			if x.c.cst == -1 {
				return y.c.not()
			}
			if x.c.f == y.c.f {
				return condTrue
			}
			ct, cf := 0, 0
			if t := st.fork(); t.assume(x.c) {
				ct = t.decide(y.c)
			} else {
				return y.c.not()
			}
			if t := st.fork(); t.assume(x.c.not()) {
				cf = t.decide(y.c)
			} else {
				return y.c
			}
			if ct == 1 && cf == -1 {
				return condTrue
			}
			if ct == -1 && cf == 1 {
				return condFalse
			}
		}
	case VStr:
		if y, ok := b.(VStr); ok {
			return e.strEq(st, x.q, y.q)
		}
	case VNil:
		return isNil(b)
	case VIface:
		switch y := b.(type) {
		case VNil:
			return isNil(x)
		case VIface:
			return e.ifaceEq(st, x, y)
		}
		if x.dyn == nil {
			return condSym(keySym("eq("+vkey(a)+","+vkey(b)+")", 0, 1))
		}
	case VPtr:
		if _, ok := b.(VNil); ok {
			return isNil(x)
		}
		if y, ok := b.(VPtr); ok && x.nilS == 0 && y.nilS == 0 {
			if x.obj != y.obj {
				return condFalse
			}
			if x.idx == nil && y.idx == nil && fmt.Sprint(x.path) == fmt.Sprint(y.path) {
				return condTrue
			}
		}
	case VSlice, VMap, VFunc:
		if _, ok := b.(VNil); ok {
			return isNil(a)
		}
	case VStruct:
		if y, ok := b.(VStruct); ok && len(x.f) == len(y.f) {
			all := true
			for i := range x.f {
				c := e.valEqCond(st, x.f[i], y.f[i])
				d := st.decide(c)
				if d == -1 {
					return condFalse
				}
				if d != 1 {
					all = false
				}
			}
			if all {
				return condTrue
			}
		}
	case VFloat:
		if y, ok := b.(VFloat); ok {
			if f, ok := floatVal(x.t); ok {
				if g, ok := floatVal(y.t); ok {
					return condB(f == g)
				}
			}
			return condSym(keySym("feq("+x.t+","+y.t+")", 0, 1))
		}
	}
	if _, ok := b.(VNil); ok {
		return isNil(a)
	}
	ka, kb := vkey(a), vkey(b)
	if ka == kb {
		return condTrue
	}
	if ka > kb {
		ka, kb = kb, ka
	}
	return condSym(keySym("eq("+ka+","+kb+")", 0, 1))
}

var debugEq = os.Getenv("GV_EQ") != ""

func (e *Eng) strEq(st *State, a, b Seq) Cond {
	if debugEq && !st.seqEq(a, b) {
		fmt.Fprintf(os.Stderr, "strEq %s\n  vs  %s\n", st.norm(a), st.norm(b))
	}
	ca, oka := a.constStr()
	cb, okb := b.constStr()
	if oka && okb {
		return condB(ca == cb)
	}
	if oka {
		a, b = b, a
		ca, cb = cb, ca
		oka, okb = okb, oka
	}
	na, nb := a.size(), b.size()
	if st.ne(na, nb) {
		return condFalse
	}
	if okb && cb == "" {
		c := condEQ(na)
		return c
	}
	if st.seqEq(a, b) {
		return condTrue
	}
	if st.seqNeq(a, b) {
		return condFalse
	}
	a, b = st.norm(a), st.norm(b)
	ka, kb := a.key(), b.key()
	if ka > kb {
		ka, kb = kb, ka
	}
	c := condSym(keySym("streq("+ka+","+kb+")", 0, 1))
	c.imT = append(c.imT, mkFact(EQ, sub(na, nb)))
	if okb && len(cb) <= 40 {
		for i := 0; i < len(cb); i++ {
			// valid under the length equality
			t := st.fork0()
			if t.addFact(mkFact(EQ, sub(na, nb))) {
				v := t.byteAt(a, K(int64(i)))
				if !v.isConst() {
					c.imT = append(c.imT, mkFact(EQ, addK(v, -int64(cb[i]))))
				}
			}
		}
	}
	return c
}

func (e *Eng) ifaceEq(st *State, x, y VIface) Cond {
	if x.dyn != nil && y.dyn != nil {
		if !types.Identical(x.dyn, y.dyn) {
			return condFalse
		}
		return e.valEqCond(st, x.val, y.val)
	}
	if x.dyn == nil && y.dyn == nil {
		if x.id == y.id {
			return condTrue
		}
		if strings.HasPrefix(x.id, "new:") && strings.HasPrefix(y.id, "new:") {
			return condFalse
		}
	}
	ka, kb := vkey(x), vkey(y)
	if ka > kb {
		ka, kb = kb, ka
	}
	return condSym(keySym("ifeq("+ka+","+kb+")", 0, 1))
}

// ---- integers

// wrap reduces a mathematical result to the range of t.
func (e *Eng) wrap(st *State, l *Lin, t types.Type) *Lin {
	w, s, ok := intInfo(t)
	if !ok {
		return l
	}
	lo, hi := wrange(w, s)
	if l.isConst() && l.c >= lo && l.c <= hi {
		return l
	}
	if w == 64 {
		if s {
			return l // stated assumption: no overflow of 64-bit signed quantities
		}
		if st.ge(l) {
			return l
		}
		if st.ge(addK(neg(l), -1)) { // definitely negative: wraps to something huge
			return S(keySym("wrap64("+l.key+")", inf-1, inf))
		}
		// the value is l when l >= 0 and huge otherwise
		return S(keySym("u64("+l.key+")", 0, inf))
	}
	if st.ge(addK(l, -lo)) && st.ge(addK(neg(l), hi)) {
		return l
	}
	return st.fromBits(st.bits(l, w), s, "wrap")
}

func (e *Eng) binop(fr *Frame, x *ssa.BinOp, st *State) []*State {
	a, b := fr.val(st, x.X), fr.val(st, x.Y)
	num := fr.fi.num[x]
	ret := func(s *State, v Val) []*State {
		s.env[num] = v
		return []*State{s}
	}
	switch x.Op {
	case token.EQL, token.NEQ:
		c := e.valEqCond(st, a, b)
		if p, ok := a.(VBool); ok && c.cst == 0 {
			if q, ok := b.(VBool); ok && p.c.cst == 0 && q.c.cst == 0 && st.decide(c) == 0 {
				// case split on the first operand
				var rs []*State
				for _, v := range []bool{true, false} {
					t := st.fork()
					pc, qc := p.c, q.c
					if !v {
						pc = pc.not()
					}
					if v != (x.Op == token.EQL) {
						qc = qc.not()
					}
					if t.assume(pc) {
						rs = append(rs, ret(t, VBool{qc})...)
					}
				}
				return rs
			}
		}
		if x.Op == token.NEQ {
			c = c.not()
		}
		return ret(st, VBool{c})
	}
	if p, ok := a.(VInt); ok {
		q, ok := b.(VInt)
		if !ok {
			return ret(st, unknown(x.Type(), fresh("binop")))
		}
		switch x.Op {
		case token.LSS:
			return ret(st, VBool{condGE(addK(sub(q.l, p.l), -1))})
		case token.LEQ:
			return ret(st, VBool{condGE(sub(q.l, p.l))})
		case token.GTR:
			return ret(st, VBool{condGE(addK(sub(p.l, q.l), -1))})
		case token.GEQ:
			return ret(st, VBool{condGE(sub(p.l, q.l))})
		case token.QUO, token.REM:
			st = e.oblige(fr, st, x.Pos(), "div", isZero(q.l).not(), "division by zero")
			if st == nil {
				return nil
			}
		case token.SHL, token.SHR:
			if _, sg, _ := intInfo(x.Y.Type()); sg {
				st = e.oblige(fr, st, x.Pos(), "shift", condGE(q.l), "negative shift")
				if st == nil {
					return nil
				}
			}
		}
		return ret(st, VInt{e.arith(st, x.Op, p.l, q.l, x.Type(), x.X.Type())})
	}
	if p, ok := a.(VStr); ok {
		q, ok := b.(VStr)
		if ok {
			switch x.Op {
			case token.ADD:
				return ret(st, VStr{st.cat(p.q, q.q)})
			case token.LSS, token.LEQ, token.GTR, token.GEQ:
				switch x.Op {
				case token.LSS:
					return ret(st, VBool{strLess(e, st, p.q, q.q)})
				case token.GTR:
					return ret(st, VBool{strLess(e, st, q.q, p.q)})
				case token.LEQ:
					return ret(st, VBool{strLess(e, st, q.q, p.q).not()})
				}
				return ret(st, VBool{strLess(e, st, p.q, q.q).not()})
			}
		}
	}
	if p, ok := a.(VFloat); ok {
		if q, ok := b.(VFloat); ok {
			if v := floatFold(x.Op, p.t, q.t, x.X.Type()); v != nil {
				return ret(st, v)
			}
			switch x.Op {
			case token.LSS, token.LEQ, token.GTR, token.GEQ:
				return ret(st, VBool{condSym(keySym("fcmp"+x.Op.String()+"("+p.t+","+q.t+")", 0, 1))})
			}
			return ret(st, VFloat{"(" + p.t + x.Op.String() + q.t + ")"})
		}
	}
	return ret(st, unknown(x.Type(), fresh("binop")))
}

// strLess: p comes before q. For different strings, p < q is the opposite of q < p.
func strLess(e *Eng, st *State, p, q Seq) Cond {
	a, ok1 := p.constStr()
	b, ok2 := q.constStr()
	if ok1 && ok2 {
		return condB(a < b)
	}
	k, l := p.key(), q.key()
	if k == l {
		return condFalse
	}
	if k > l && st.decide(e.strEq(st, p, q)) == -1 {
		return condSym(keySym("strless("+l+","+k+")", 0, 1)).not()
	}
	return condSym(keySym("strless("+k+","+l+")", 0, 1))
}

func isZero(l *Lin) Cond { return condEQ(l) }

func pow2(c int64) (int, bool) {
	if c > 0 && c&(c-1) == 0 {
		return width2(c) - 1, true
	}
	return 0, false
}

func (e *Eng) arith(st *State, op token.Token, a, b *Lin, t, xt types.Type) *Lin {
	w, signed, _ := intInfo(t)
	switch op {
	case token.ADD:
		return e.wrap(st, st.joinExt(add(a, b)), t)
	case token.SUB:
		return e.wrap(st, sub(a, b), t)
	case token.MUL:
		if b.isConst() {
			return e.wrap(st, scale(a, b.c), t)
		}
		if a.isConst() {
			return e.wrap(st, scale(b, a.c), t)
		}
		if a.key > b.key {
			a, b = b, a
		}
		lo, hi := wrange(w, signed)
		if st.ge(a) && st.ge(b) {
			lo = 0
			_, ha := st.rng(a)
			_, hb := st.rng(b)
			if p := satMul(ha, hb); ha < inf && hb < inf && p < hi {
				hi = p
			}
		}
		return S(keySym("mul("+a.key+","+b.key+")", lo, hi))
	case token.QUO, token.REM:
		if b.isConst() && b.c > 0 && st.ge(a) {
			if k, ok := pow2(b.c); ok {
				if op == token.QUO {
					return e.shiftR(st, a, k, w, signed)
				}
				bv := st.bits(a, 64)[:k]
				return st.fromBits(bv, false, "rem")
			}
			if a.isConst() {
				if op == token.QUO {
					return K(a.c / b.c)
				}
				return K(a.c % b.c)
			}
			_, h := st.rng(a)
			qh := inf
			if h < inf {
				qh = h / b.c
			}
			key := fmt.Sprintf("div(%s,%d)", a.key, b.c)
			q, had := symByKey[key]
			if !had {
				q = newSym(fmt.Sprintf("(%s)/%d", a, b.c), 0, qh)
				symByKey[key] = q
				in := q.info()
				in.defs = append(in.defs,
					mkFact(GE, comb(a, -b.c, S(q))),
					mkFact(GE, addK(comb(neg(a), b.c, S(q)), b.c-1)))
			}
			if op == token.QUO {
				return S(q)
			}
			return comb(a, -b.c, S(q))
		}
		if b.isConst() && b.c > 0 && op == token.REM && !signed {
			return S(keySym(fmt.Sprintf("rem(%s,%d)", a.key, b.c), 0, b.c-1))
		}
		if a.isConst() && b.isConst() && b.c != 0 {
			if op == token.QUO {
				return K(a.c / b.c)
			}
			return K(a.c % b.c)
		}
		lo, hi := wrange(w, signed)
		return S(keySym(op.String()+"("+a.key+","+b.key+")", lo, hi))
	case token.SHL:
		if b.isConst() && b.c >= 0 {
			if b.c >= int64(w) {
				return K(0)
			}
			if b.c < 62 {
				r := scale(a, int64(1)<<uint(b.c))
				if w == 64 && signed {
					// exact when it cannot overflow
					lo, hi := st.rng(a)
					if lo >= -(int64(1)<<uint(62-b.c)) && hi <= int64(1)<<uint(62-b.c) {
						return r
					}
				} else if w < 64 {
					lo, hi := wrange(w, signed)
					if st.ge(addK(r, -lo)) && st.ge(addK(neg(r), hi)) {
						return r
					}
				} else if lo, hi := st.rng(a); lo >= 0 && hi <= int64(1)<<uint(62-b.c) {
					return r
				}
			}
			bv := st.bits(a, w)
			r := make(BV, w)
			copy(r[b.c:], bv)
			return st.fromBits(r, signed, "shl")
		}
		lo, hi := wrange(w, signed)
		return S(keySym("shl("+a.key+","+b.key+")", lo, hi))
	case token.SHR:
		if b.isConst() && b.c >= 0 {
			if b.c >= int64(w) {
				b = K(int64(w - 1))
				if !signed || st.ge(a) {
					return K(0)
				}
			}
			return e.shiftR(st, a, int(b.c), w, signed)
		}
		lo, hi := wrange(w, signed)
		if lo, _ := st.rng(a); lo >= 0 {
			_, h := st.rng(a)
			if h < hi {
				hi = h
			}
			return S(keySym("shr("+a.key+","+b.key+")", 0, hi))
		}
		return S(keySym("shr("+a.key+","+b.key+")", lo, hi))
	case token.AND, token.OR, token.XOR, token.AND_NOT:
		if a.isConst() && b.isConst() {
			switch op {
			case token.AND:
				return K(a.c & b.c)
			case token.OR:
				return K(a.c | b.c)
			case token.XOR:
				return K(a.c ^ b.c)
			default:
				return K(a.c &^ b.c)
			}
		}
		x, y := st.bits(a, w), st.bits(b, w)
		var r BV
		switch op {
		case token.AND:
			r = bvOp(x, y, bitAnd)
		case token.OR:
			r = bvOp(x, y, bitOr)
		case token.XOR:
			r = bvOp(x, y, bitXor)
		default:
			r = bvOp(x, y, func(p, q Bit) Bit { return bitAnd(p, bitNot(q)) })
		}
		if bvHasTop(r) {
			ka, kb := a.key, b.key
			if op != token.AND_NOT && ka > kb {
				ka, kb = kb, ka
			}
			lo, hi := wrange(w, signed)
			if !signed || st.ge(a) && st.ge(b) {
				lo = 0
				_, h1 := st.rng(a)
				_, h2 := st.rng(b)
				if op == token.AND || op == token.AND_NOT {
					if h1 < hi {
						hi = h1
					}
					if op == token.AND && h2 < hi {
						hi = h2
					}
				} else if h1 < inf && h2 < inf {
					m := int64(1)<<uint(max(width2(h1), width2(h2))) - 1
					if m < hi {
						hi = m
					}
				}
			}
			return S(keySym(op.String()+"("+ka+","+kb+")", lo, hi))
		}
		return st.fromBits(r, signed, "bit")
	}
	return freshLin("arith")
}

func (e *Eng) shiftR(st *State, a *Lin, k, w int, signed bool) *Lin {
	if k == 0 {
		return a
	}
	if a.isConst() {
		return K(a.c >> uint(k))
	}
	n := w
	if bw := st.bitWidth(a); bw >= 0 {
		n = bw
		signed = false
	} else if signed && st.ge(a) {
		signed = false
		n = 63
	}
	bv := st.bits(a, n)
	if k >= n {
		return K(0)
	}
	if signed {
		r := make(BV, w)
		for i := range r {
			if i+k < w {
				r[i] = bv[i+k]
			} else {
				r[i] = bv[w-1]
			}
		}
		return st.fromBits(r[:w-k], true, "sar")
	}
	for len(bv) < w {
		bv = append(bv, bit0)
	}
	return st.fromBits(bv[k:], false, "shr")
}

func (e *Eng) convert(fr *Frame, x *ssa.Convert, st *State) []*State {
	v := fr.val(st, x.X)
	num := fr.fi.num[x]
	from, to := x.X.Type().Underlying(), x.Type().Underlying()
	ret := func(v Val) []*State { st.env[num] = v; return []*State{st} }
	fb, _ := from.(*types.Basic)
	tb, _ := to.(*types.Basic)
	switch a := v.(type) {
	case VInt:
		if tb != nil && tb.Info()&types.IsInteger != 0 {
			return ret(VInt{e.convInt(st, a.l, x.X.Type(), x.Type())})
		}
		if tb != nil && tb.Info()&types.IsFloat != 0 {
			if a.l.isConst() && a.l.c > -1<<53 && a.l.c < 1<<53 {
				return ret(VFloat{fmt.Sprint(a.l.c)})
			}
			return ret(VFloat{"float(" + a.l.key + ")"})
		}
		if tb != nil && tb.Info()&types.IsString != 0 {
			if st.ge(a.l) && st.ge(addK(neg(a.l), 127)) {
				return ret(VStr{Seq{{k: sByte, v: a.l}}})
			}
			n := newSym("runelen", 1, 4)
			return ret(VStr{freshBlob("rune", S(n))})
		}
	case VFloat:
		if tb != nil && tb.Info()&types.IsFloat != 0 {
			if tb.Kind() == types.Float32 {
				return ret(VFloat{"f32(" + a.t + ")"})
			}
			return ret(a)
		}
		if tb != nil && tb.Info()&types.IsInteger != 0 {
			lo, hi := typeRange(x.Type())
			if f, ok := floatVal(a.t); ok && math.Abs(f) < 1<<62 && int64(f) >= lo && int64(f) <= hi {
				return ret(VInt{K(int64(f))})
			}
			return ret(VInt{S(keySym("int("+tb.Name()+","+a.t+")", lo, hi))})
		}
	case VStr:
		if s, ok := to.(*types.Slice); ok {
			if isByte(s.Elem()) {
				return ret(st.newBytes(a.q, "bytes of string"))
			}
			return ret(nonNil(unknown(x.Type(), fresh("runes"))))
		}
		return ret(a)
	case VSlice:
		if tb != nil && tb.Info()&types.IsString != 0 {
			return ret(VStr{st.sliceBytes(a)})
		}
		return ret(a)
	case VNil:
		if tb != nil && tb.Info()&types.IsString != 0 {
			return ret(VStr{})
		}
		return ret(a)
	}
	_ = fb
	return ret(unknown(x.Type(), fresh("conv")))
}

func (e *Eng) convInt(st *State, l *Lin, from, to types.Type) *Lin {
	w, s, _ := intInfo(to)
	fw, fs, _ := intInfo(from)
	if w == 64 && s {
		if fw == 64 && !fs {
			_, hi := st.rng(l)
			if hi < inf {
				return l
			}
			return S(keySym("i64("+l.key+")", -inf, inf))
		}
		return l
	}
	if w == 64 && !s && fw == 64 && fs && !st.ge(l) {
		return S(keySym("u64("+l.key+")", 0, inf))
	}
	return e.wrap(st, l, to)
}

// ---- interfaces

func (e *Eng) typeAssert(fr *Frame, x *ssa.TypeAssert, st *State) []*State {
	num := fr.fi.num[x]
	v := fr.val(st, x.X)
	_, toIface := x.AssertedType.Underlying().(*types.Interface)
	ok := func(s *State, val Val, good bool) *State {
		if x.CommaOk {
			if !good {
				val = zero(x.AssertedType)
			}
			s.env[num] = VTuple{[]Val{val, VBool{condB(good)}}}
			return s
		}
		s.env[num] = val
		return s
	}
	fail := func(s *State, what string) []*State {
		if x.CommaOk {
			return []*State{ok(s, nil, false)}
		}
		e.oblige(fr, s, x.Pos(), "typeassert", condFalse, what)
		return nil
	}
	switch i := v.(type) {
	case VNil:
		return fail(st, "type assertion on nil interface")
	case VIface:
		if i.dyn != nil {
			if toIface {
				if types.Implements(i.dyn, x.AssertedType.Underlying().(*types.Interface)) {
					return []*State{ok(st, i, true)}
				}
				return fail(st, "dynamic type lacks the method set")
			}
			if types.Identical(i.dyn, x.AssertedType) {
				return []*State{ok(st, i.val, true)}
			}
			return fail(st, "dynamic type is "+i.dyn.String())
		}
		var c Cond
		var pay Val
		if toIface {
			c = condSym(keySym("impl("+i.id+","+types.TypeString(x.AssertedType, nil)+")", 0, 1))
			if i.nilS != 0 {
				c.imT = []*Fact{mkFact(GE, addK(S(i.nilS), -1))}
			}
			pay = VIface{id: i.id}
		} else {
			ts := i.nilS
			if ts == 0 {
				ts = keySym("typ("+i.id+")", 0, inf)
			}
			c = condEQ(addK(S(ts), -typeNum(x.AssertedType)))
			pay = unknown(x.AssertedType, i.id+".("+types.TypeString(x.AssertedType, shortQual)+")")
		}
		if !x.CommaOk {
			s := st
			if !e.trustAssert(fr, i, x.AssertedType) {
				s = e.oblige(fr, st, x.Pos(), "typeassert", c, "dynamic type not known to be "+x.AssertedType.String())
			} else if !s.assume(c) {
				return nil
			}
			if s == nil {
				return nil
			}
			return []*State{ok(s, pay, true)}
		}
		var r []*State
		t := st.fork()
		if t.assume(c) {
			r = append(r, ok(t, pay, true))
		}
		if st.assume(c.not()) {
			r = append(r, ok(st, nil, false))
		}
		return r
	}
	e.note("type assertion on unknown value")
	st.env[num] = unknown(x.Type(), fresh("assert"))
	return []*State{st}
}

func shortQual(p *types.Package) string { return p.Name() }

var trustAsserts func(id string, t types.Type) bool

// trustAssert: assertions justified by the stated precondition on packet headers.
func (e *Eng) trustAssert(fr *Frame, i VIface, t types.Type) bool {
	return trustAsserts != nil && trustAsserts(i.id, t)
}

// ---- maps and ranges

// canonKey: a text all of whose bytes the facts fix is a constant.
func (st *State) canonKey(v Val) Val {
	x, ok := v.(VStr)
	if !ok {
		return v
	}
	if _, ok := x.q.constStr(); ok {
		return v
	}
	n, hi := st.rng(x.q.size())
	if n != hi || n > 64 {
		return v
	}
	b := make([]byte, 0, n)
	for i := int64(0); i < n; i++ {
		lo, hi := st.rng(st.byteAt(x.q, K(i)))
		if lo != hi {
			return v
		}
		b = append(b, byte(lo))
	}
	return VStr{strSeq(string(b))}
}

func (e *Eng) mapUpdate(fr *Frame, st *State, m, k, v Val, pos token.Pos) []*State {
	mv, ok := m.(VMap)
	if !ok {
		if _, isn := m.(VNil); isn {
			e.oblige(fr, st, pos, "nilmap", condFalse, "assignment to nil map")
			return nil
		}
		return []*State{st}
	}
	if mv.nilS != 0 {
		st = e.oblige(fr, st, pos, "nilmap", isNil(mv).not(), "map may be nil")
		if st == nil {
			return nil
		}
	}
	k = st.canonKey(k)
	st.event(&Event{kind: "mapset", obj: mv.obj, v: k, v2: v, pos: pos, fn: fr.fn})
	o := st.mut(mv.obj)
	var nk, nv []Val
	maybe := false
	exact := false
	for i := range o.mk {
		switch st.decide(e.valEqCond(st, o.mk[i], k)) {
		case 1:
			exact = true
			continue
		case 0:
			maybe = true
		}
		nk, nv = append(nk, o.mk[i]), append(nv, o.mv[i])
	}
	o.mk, o.mv = append(nk, k), append(nv, v)
	if !exact {
		if !maybe && o.mbase == "" {
			o.mlen = addK(o.mlen, 1)
		} else {
			n := newSym("maplen", 0, maxLen)
			st.addRaw(mkFact(GE, sub(S(n), o.mlen)))
			st.addRaw(mkFact(GE, addK(sub(o.mlen, S(n)), 1)))
			o.mlen = S(n)
		}
	}
	if len(o.mk) > 300 {
		o.mk, o.mv = nil, nil
		o.mbase = fresh("map")
	}
	return []*State{st}
}

func (e *Eng) lookup(fr *Frame, x *ssa.Lookup, st *State) []*State {
	num := fr.fi.num[x]
	base := fr.val(st, x.X)
	key := fr.val(st, x.Index)
	if s, ok := base.(VStr); ok {
		iv, okI := key.(VInt)
		if !okI {
			iv = VInt{freshLin("idx?")}
		}
		st = e.inBounds(fr, st, x.Pos(), iv.l, s.q.size())
		if st == nil {
			return nil
		}
		st.env[num] = VInt{st.byteAt(s.q, iv.l)}
		return []*State{st}
	}
	mt, _ := x.X.Type().Underlying().(*types.Map)
	put := func(s *State, v Val, c Cond) *State {
		if x.CommaOk {
			v = VTuple{[]Val{v, VBool{c}}}
		}
		s.env[num] = v
		return s
	}
	switch m := base.(type) {
	case VNil:
		return []*State{put(st, zero(mt.Elem()), condFalse)}
	case VMap:
		var r []*State
		cur := st
		if m.nilS != 0 {
			t := cur.fork()
			if t.assume(isNil(m)) {
				r = append(r, put(t, zero(mt.Elem()), condFalse))
			}
			if !cur.assume(isNil(m).not()) {
				return r
			}
		}
		o := cur.obj(m.obj)
		for i := len(o.mk) - 1; i >= 0; i-- {
			c := e.valEqCond(cur, o.mk[i], key)
			t := cur.fork()
			if t.assume(c) {
				r = append(r, put(t, o.mv[i], condTrue))
			}
			if !cur.assume(c.not()) {
				return e.merge(r)
			}
		}
		if o.mbase == "" {
			return e.merge(append(r, put(cur, zero(mt.Elem()), condFalse)))
		}
		nm := o.mbase + "{" + vkey(cur.canonKey(key)) + "}"
		has := condSym(keySym("has("+nm+")", 0, 1))
		t := cur.fork()
		if t.assume(has) {
			r = append(r, put(t, unknown(mt.Elem(), nm), condTrue))
		}
		if cur.assume(has.not()) {
			r = append(r, put(cur, zero(mt.Elem()), condFalse))
		}
		return r
	}
	st.env[num] = unknown(x.Type(), fresh("lookup"))
	return []*State{st}
}

type rangeIter struct{}

func (e *Eng) mkRange(st *State, v Val, t types.Type) Val {
	o := &Obj{kind: oReader, name: "range", pos: K(0), typ: t}
	switch x := v.(type) {
	case VStr:
		o.sq, o.known = x.q, true
		o.v = v
	default:
		o.v = v
		if m, ok := v.(VMap); ok {
			// the entries, where all are known
			if mo := st.obj(m.obj); mo.mbase == "" && len(mo.mk) <= 3 && mo.mlen != nil && mo.mlen.is(int64(len(mo.mk))) {
				o.mk = append([]Val(nil), mo.mk...)
				o.mv = make([]Val, len(o.mk))
				o.mlen = mo.mlen
			}
		}
	}
	return VPtr{obj: st.newObj(o)}
}

func (e *Eng) next(fr *Frame, x *ssa.Next, st *State) []*State {
	num := fr.fi.num[x]
	p, ok := fr.val(st, x.Iter).(VPtr)
	if !ok {
		st.env[num] = unknown(x.Type(), fresh("next"))
		return []*State{st}
	}
	o := st.obj(p.obj)
	tt := x.Type().(*types.Tuple)
	put := func(s *State, ok bool, k, v Val) *State {
		if k == nil {
			k = zero2(tt.At(1).Type())
		}
		if v == nil {
			v = zero2(tt.At(2).Type())
		}
		s.env[num] = VTuple{[]Val{VBool{condB(ok)}, k, v}}
		return s
	}
	if x.IsString {
		if !o.known {
			st.env[num] = unknown(x.Type(), fresh("next"))
			return []*State{st}
		}
		n := o.sq.size()
		more := condGE(addK(sub(n, o.pos), -1))
		var r []*State
		t := st.fork()
		if t.assume(more) {
			b := t.byteAt(o.sq, o.pos)
			asc := t.fork()
			if asc.assume(condGE(addK(neg(b), 127))) {
				m := asc.mut(p.obj)
				pos := m.pos
				m.pos = addK(m.pos, 1)
				r = append(r, put(asc, true, VInt{pos}, VInt{b}))
			}
			if t.assume(condGE(addK(b, -128))) {
				m := t.mut(p.obj)
				pos := m.pos
				w := newSym("runew", 1, 4)
				t.addRaw(mkFact(GE, sub(sub(n, pos), S(w))))
				m.pos = add(m.pos, S(w))
				r = append(r, put(t, true, VInt{pos}, VInt{S(newSym("rune", 128, 0x10ffff))}))
			}
		}
		if st.assume(more.not()) {
			r = append(r, put(st, false, nil, nil))
		}
		return r
	}
	// map
	var mlen *Lin
	var mo *Obj
	switch m := o.v.(type) {
	case VNil:
		return []*State{put(st, false, nil, nil)}
	case VMap:
		if m.nilS != 0 && st.decide(isNil(m)) == 1 {
			return []*State{put(st, false, nil, nil)}
		}
		mo = st.obj(m.obj)
		mlen = mo.mlen
	}
	var mt *types.Map
	if o.typ != nil {
		mt, _ = o.typ.Underlying().(*types.Map)
	}
	if mo == nil || mt == nil {
		st.env[num] = unknown(x.Type(), fresh("next"))
		return []*State{st}
	}
	more := condGE(addK(sub(mlen, o.pos), -1))
	var r []*State
	if o.mlen != nil && mo.mbase == "" && int64(len(mo.mk)) == o.mlen.c && mlen.is(o.mlen.c) && o.pos.is(o.mlen.c-int64(len(o.mk))) {
		// any entry not visited yet
		left := o.mk
		for i, k := range left {
			var v Val
			for j := range mo.mk {
				if vkey(mo.mk[j]) == vkey(k) {
					v = mo.mv[j]
				}
			}
			if v == nil {
				r = nil
				break
			}
			t := st.fork()
			m := t.mut(p.obj)
			m.pos = addK(m.pos, 1)
			m.mk = append(append([]Val(nil), left[:i]...), left[i+1:]...)
			m.mv = make([]Val, len(m.mk))
			t.event(&Event{kind: "next", obj: p.obj, v: k, v2: v, pos: x.Pos(), fn: fr.fn})
			r = append(r, put(t, true, k, v))
		}
		if len(left) == 0 {
			return []*State{put(st, false, nil, nil)}
		}
		if r != nil {
			return r
		}
	}
	t := st.fork()
	if t.assume(more) {
		m := t.mut(p.obj)
		pos := m.pos
		m.pos = addK(m.pos, 1)
		base := mo.mbase
		if len(mo.mk) > 0 || base == "" {
			base = fresh("mapiter")
		}
		k := unknown(mt.Key(), base+".key("+pos.String()+")")
		v := unknown(mt.Elem(), base+"{"+vkey(k)+"}")
		if mo.mbase == "" && len(mo.mk) == 1 && mlen.is(1) {
			k, v = mo.mk[0], mo.mv[0]
		}
		if base == mo.mbase {
			t.addFact(mkFact(EQ, addK(S(keySym("has("+base+"{"+vkey(k)+"})", 0, 1)), -1)))
		}
		t.event(&Event{kind: "next", obj: p.obj, v: k, v2: v, pos: x.Pos(), fn: fr.fn})
		r = append(r, put(t, true, k, v))
	}
	if st.assume(more.not()) {
		r = append(r, put(st, false, nil, nil))
	}
	return r
}

func zero2(t types.Type) Val {
	if b, ok := t.(*types.Basic); ok && b.Kind() == types.Invalid {
		return VNil{}
	}
	return zero(t)
}

// ---- merging

func isHarness(fn *ssa.Function) bool {
	return fn.Pkg != nil && strings.HasPrefix(fn.Pkg.Pkg.Path(), modPath+"/zz")
}

// mergeExact drops states covered by another one; nothing is lost.
func (e *Eng) mergeExact(sts []*State) []*State {
	var keep []*State
	for _, s := range sts {
		dup := false
		for _, t := range keep {
			if s.shapeKey() != t.shapeKey() || !heapSame(s, t) {
				continue
			}
			cov := true
			for _, f := range t.facts {
				if !s.hasFact(f) {
					cov = false
					break
				}
			}
			if cov {
				dup = true
				break
			}
		}
		if !dup {
			keep = append(keep, s)
		}
	}
	return keep
}

func (e *Eng) merge(sts []*State) []*State {
	if len(sts) < 2 {
		return sts
	}
	groups := map[string][]*State{}
	var order []string
	for _, s := range sts {
		k := s.shapeKey()
		if _, ok := groups[k]; !ok {
			order = append(order, k)
		}
		groups[k] = append(groups[k], s)
	}
	var out []*State
	for _, k := range order {
		g := groups[k]
		var keep []*State
		for _, s := range g {
			merged := false
			for i, t := range keep {
				if heapSame(s, t) {
					keep[i] = joinFacts(t, s)
					merged = true
					break
				}
			}
			if !merged {
				keep = append(keep, s)
			}
		}
		out = append(out, keep...)
	}
	return out
}

func (e *Event) key() string {
	if e == nil {
		return ""
	}
	var sb strings.Builder
	sb.WriteString(e.kind + ":" + e.id + ":" + e.q.key() + ":")
	if e.v != nil {
		sb.WriteString(vkey(e.v))
	}
	if e.v2 != nil {
		sb.WriteString(vkey(e.v2))
	}
	if e.n != nil {
		sb.WriteString("#" + e.n.key)
	}
	if e.loop != nil {
		fmt.Fprintf(&sb, "L%d", e.loop.id)
	}
	fmt.Fprintf(&sb, "o%d", e.obj)
	return sb.String()
}

func (st *State) shapeKey() string {
	var sb strings.Builder
	for _, v := range st.env {
		if v == nil {
			sb.WriteByte('-')
			continue
		}
		sb.WriteString(vkey(v))
		sb.WriteByte(';')
	}
	sb.WriteByte('|')
	for _, ev := range st.trace {
		sb.WriteString(ev.key())
		sb.WriteByte(';')
	}
	fmt.Fprintf(&sb, "|%d", len(st.defers))
	return sb.String()
}

// reach collects the objects reachable from a state's roots.
func (st *State) reach() map[ObjID]bool {
	seen := map[ObjID]bool{}
	var visitV func(v Val)
	var visitO func(id ObjID)
	visitO = func(id ObjID) {
		if id == 0 || seen[id] {
			return
		}
		seen[id] = true
		o, ok := st.heap[id]
		if !ok {
			return // untouched lazily or package-level object
		}
		visitV(o.v)
		for _, x := range o.el {
			visitV(x.v)
		}
		for i := range o.mk {
			visitV(o.mk[i])
			visitV(o.mv[i])
		}
	}
	visitV = func(v Val) {
		switch x := v.(type) {
		case VPtr:
			visitO(x.obj)
		case VSlice:
			visitO(x.obj)
		case VMap:
			visitO(x.obj)
		case VArr:
			visitO(x.obj)
		case VIface:
			visitV(x.val)
		case VFunc:
			for _, b := range x.bind {
				visitV(b)
			}
		case VTuple:
			for _, b := range x.v {
				visitV(b)
			}
		case VStruct:
			for _, b := range x.f {
				visitV(b)
			}
		case VReflect:
			visitV(x.x)
		case VElems:
			for _, y := range x.o.el {
				visitV(y.v)
			}
		}
	}
	for _, v := range st.env {
		visitV(v)
	}
	for c := st.callers; c != nil; c = c.next {
		for _, v := range c.env {
			visitV(v)
		}
	}
	for _, d := range st.defers {
		visitV(d.fn)
		for _, a := range d.args {
			visitV(a)
		}
	}
	for _, v := range st.roots {
		visitV(v)
	}
	// package-level variables changed by the run
	for _, id := range globalObj {
		if _, ok := st.heap[id]; ok {
			visitO(id)
		}
	}
	return seen
}

func heapSame(a, b *State) bool {
	var diff []ObjID
	for id, o := range a.heap {
		if p, ok := b.heap[id]; !ok || p != o {
			diff = append(diff, id)
		}
	}
	for id := range b.heap {
		if _, ok := a.heap[id]; !ok {
			diff = append(diff, id)
		}
	}
	if len(diff) == 0 {
		return true
	}
	ra, rb := a.reach(), b.reach()
	for _, id := range diff {
		if !ra[id] && !rb[id] {
			continue
		}
		x, okx := a.heap[id]
		y, oky := b.heap[id]
		if !okx || !oky {
			// lazily created on one side only: equal when untouched since creation
			_, base := baseHeap[id]
			_, lazy := lazyObjs[id]
			if !base && !lazy {
				return false
			}
			if okx && !oky {
				y = b.obj(id)
				x = a.heap[id]
			} else {
				x = a.obj(id)
			}
		}
		if x != y && objKey(x) != objKey(y) {
			return false
		}
	}
	return true
}

// joinFacts keeps what holds in both states; heap and env are a's (they agree).
func joinFacts(a, b *State) *State {
	var fs []*Fact
	in := map[*Fact]bool{}
	for _, f := range b.facts {
		in[f] = true
	}
	have := map[*Fact]bool{}
	keep := func(f *Fact) {
		if !have[f] {
			have[f] = true
			fs = append(fs, f)
		}
	}
	holds := func(fs []*Fact, f *Fact) bool {
		switch f.op {
		case GE:
			return proveGE(fs, f.l)
		case EQ:
			return proveEQ(fs, f.l)
		}
		return proveGE(fs, addK(f.l, -1)) || proveGE(fs, addK(neg(f.l), -1))
	}
	ina := map[*Fact]bool{}
	for _, f := range a.facts {
		ina[f] = true
	}
	for _, f := range a.facts {
		if in[f] || holds(b.facts, f) {
			keep(f)
		} else if f.op == EQ { // one-sided halves of an equality may survive
			for _, g := range []*Fact{mkFact(GE, f.l), mkFact(GE, neg(f.l))} {
				if holds(b.facts, g) {
					keep(g)
				}
			}
		}
	}
	for _, f := range b.facts {
		if ina[f] {
			continue
		}
		if holds(a.facts, f) {
			keep(f)
		} else if f.op == EQ {
			for _, g := range []*Fact{mkFact(GE, f.l), mkFact(GE, neg(f.l))} {
				if holds(a.facts, g) {
					keep(g)
				}
			}
		}
	}
	a.facts = fs
	// objects lazily present only in b stay available through laziness
	return a
}

var _ = sort.Ints

// reserve: memory for n elements is set aside. With a budget (zzv.Budget), what the input has not paid for
// is limited to a constant.
func (e *Eng) reserve(fr *Frame, st *State, pos token.Pos, n *Lin, elem types.Type) *State {
	st.event(&Event{kind: "alloc", n: n, pos: pos, fn: fr.fn})
	if budget == 0 || isHarness(rootFn(fr.fn)) {
		return st
	}
	o, ok := st.heap[budget]
	if !ok || o.pos == nil {
		return e.oblige(fr, st, pos, "alloc", condFalse, "memory reserved for input of unknown size")
	}
	size := types.SizesFor("gc", "amd64").Sizeof(elem)
	return e.oblige(fr, st, pos, "alloc", condGE(addK(sub(scale(o.pos, 64), scale(n, size)), 1<<20)), "memory reserved for "+n.String()+" elements is not bounded by the bytes received")
}

// budget is the reader whose bytes pay for memory.
var budget ObjID
