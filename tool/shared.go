package main

import (
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// sharedState decides X01: an interprocedural, flow-insensitive analysis of which values may refer to package-level
// data (bitG: points into it; bitC: holds such a reference), and of what is done with them.

const (
	bitG = 1 // refers to package-level data
	bitC = 2 // memory of an object, or a value, that holds such references
)

type fieldKey struct {
	t string
	i int
}

type sharing struct {
	r       *Repo
	vals    map[ssa.Value]int
	rets    map[*ssa.Function][]int
	fields  map[fieldKey]int
	init    map[*ssa.Function]bool // runs during initialisation only
	fns     []*ssa.Function
	changed bool
	full    map[*ssa.Global]bool // a slice without spare room, set once
	none    map[*ssa.Global]bool // a slice of no elements: nothing to share
	viol    map[string]Finding
	sites   map[string]int
	seen    map[ssa.Instruction]bool
}

// carries: values of the type may refer to memory.
func carries(t types.Type) bool { return carries1(t, map[types.Type]bool{}) }

func carries1(t types.Type, seen map[types.Type]bool) bool {
	if isErrType(t) || seen[t] {
		return false
	}
	seen[t] = true
	switch u := t.Underlying().(type) {
	case *types.Slice, *types.Map, *types.Pointer, *types.Chan, *types.Interface:
		return true
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if carries1(u.Field(i).Type(), seen) {
				return true
			}
		}
	case *types.Array:
		return carries1(u.Elem(), seen)
	case *types.Tuple:
		for i := 0; i < u.Len(); i++ {
			if carries1(u.At(i).Type(), seen) {
				return true
			}
		}
	}
	return false
}

// fromSync: the type brings its own synchronisation.
func fromSync(t types.Type) bool {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	n, ok := types.Unalias(t).(*types.Named)
	return ok && n.Obj().Pkg() != nil && strings.HasPrefix(n.Obj().Pkg().Path(), "sync")
}

func (s *sharing) get(v ssa.Value) int {
	if g, ok := v.(*ssa.Global); ok {
		if g.Pkg == nil || !strings.HasPrefix(g.Pkg.Pkg.Path(), modPath) || fromSync(g.Type()) {
			return 0
		}
		return bitG
	}
	return s.vals[v]
}

func (s *sharing) set(v ssa.Value, b int) {
	if b == 0 || v == nil || s.vals[v]|b == s.vals[v] {
		return
	}
	if _, ok := v.(*ssa.Const); ok {
		return
	}
	s.vals[v] |= b
	s.changed = true
}

// give marks v with what its type can carry of b.
func (s *sharing) give(v ssa.Value, b int) {
	if b != 0 && carries(v.Type()) {
		s.set(v, b)
	}
}

// loaded is what a value of type t read from memory marked b refers to.
func loaded(t types.Type, b int) int {
	if b == 0 || !carries(t) {
		return 0
	}
	switch t.Underlying().(type) {
	case *types.Struct, *types.Array:
		return bitC
	}
	return bitG
}

func fieldOf(a *ssa.FieldAddr) fieldKey {
	return fieldKey{types.TypeString(a.X.Type().Underlying().(*types.Pointer).Elem(), nil), a.Field}
}

// hold records that memory at address a receives a value that refers to package-level data.
func (s *sharing) hold(in ssa.Instruction, a ssa.Value) {
	for {
		switch x := a.(type) {
		case *ssa.FieldAddr:
			if _, ok := x.X.(*ssa.Alloc); !ok || true {
				k := fieldOf(x)
				if s.fields[k] == 0 {
					s.fields[k] = 1
					s.changed = true
				}
				st, _ := x.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct)
				if st != nil && st.Field(x.Field).Exported() {
					s.bad(in, "package-level data is put into an exported field")
				}
			}
			return
		case *ssa.IndexAddr:
			a = x.X
		case *ssa.Slice:
			a = x.X
		case *ssa.Alloc, *ssa.MakeMap, *ssa.MakeSlice:
			s.set(a, bitC)
			return
		case *ssa.UnOp:
			if f, ok := x.X.(*ssa.FieldAddr); ok {
				a = f
				continue
			}
			if f, ok := x.X.(*ssa.Alloc); ok {
				a = f
				continue
			}
			s.bad(in, "package-level data is stored where it cannot be followed")
			return
		case *ssa.Global:
			return
		default:
			if s.get(a)&bitG == 0 {
				s.set(a, bitC)
			}
			return
		}
	}
}

func (s *sharing) bad(in ssa.Instruction, what string) {
	fn := in.Parent()
	if s.init[rootFn(fn)] {
		return
	}
	pos := in.Pos()
	if pos == token.NoPos {
		pos = fn.Pos()
	}
	f := Finding{Fn: fnName(fn), Kind: "shared", What: what, At: s.r.at(pos), Path: fnName(fn), Sure: true, Entry: fnName(fn)}
	s.viol[f.At+what] = f
}

func (s *sharing) site(kind string, in ssa.Instruction) {
	if !s.seen[in] {
		s.seen[in] = true
		s.sites[kind]++
	}
}

// write checks an instruction that writes through v.
func (s *sharing) write(in ssa.Instruction, v ssa.Value, what string) {
	s.site("write", in)
	if s.get(v)&bitG != 0 {
		s.bad(in, what)
	}
}

// mutated lists the arguments a library function writes through.
func mutated(name string, n int) []int {
	short := name[strings.LastIndexAny(name, "./")+1:]
	switch {
	case name == "bytes.NewBuffer", strings.HasPrefix(name, "sort."), strings.HasPrefix(name, "slices.Sort"), name == "slices.Reverse",
		strings.HasPrefix(name, "strconv.Append"), name == "unicode/utf8.EncodeRune", name == "unicode/utf8.AppendRune", name == "math/rand.Read", name == "crypto/rand.Read",
		name == "encoding/hex.Encode", name == "encoding/binary.PutUvarint", name == "encoding/binary.PutVarint":
		return []int{0}
	case strings.HasPrefix(name, "(encoding/binary.") && (strings.HasPrefix(short, "Put") || strings.HasPrefix(short, "Append")):
		return []int{1}
	case name == "io.ReadFull", name == "io.ReadAtLeast", strings.HasSuffix(name, ").Read"):
		return []int{1}
	case name == "encoding/binary.Read":
		return []int{2}
	case name == "bufio.NewReader", name == "bufio.NewWriter":
		return nil
	case strings.HasPrefix(name, "(*bytes.Buffer).") || strings.HasPrefix(name, "(*strings.Builder).") || strings.HasPrefix(name, "(*bytes.Reader)."):
		return []int{0}
	}
	return nil
}

// freshResult: library functions whose result shares nothing with their arguments.
func freshResult(name string) bool {
	switch name[strings.LastIndexAny(name, ".")+1:] {
	case "Join", "Repeat", "ToLower", "ToUpper", "Clone", "Replace", "ReplaceAll", "Map", "Title", "Fields":
		return strings.HasPrefix(name, "bytes.") || strings.HasPrefix(name, "strings.") || strings.HasPrefix(name, "slices.") || strings.HasPrefix(name, "maps.")
	}
	return strings.Contains(name, "sync.")
}

func (s *sharing) call(in ssa.Instruction, c *ssa.CallCommon, v ssa.Value) {
	if b, ok := c.Value.(*ssa.Builtin); ok {
		switch b.Name() {
		case "copy":
			s.write(in, c.Args[0], "copy writes to package-level data")
			if s.get(c.Args[1]) != 0 && carries(c.Args[1].Type().Underlying().(interface{ Elem() types.Type }).Elem()) {
				s.hold(in, c.Args[0])
			}
		case "delete", "clear":
			s.write(in, c.Args[0], b.Name()+" changes package-level data")
		case "append":
			s.site("append", in)
			if s.get(c.Args[0])&bitG != 0 {
				if g := globalRead(c.Args[0]); g == nil || !s.full[g] {
					s.bad(in, "append may write to package-level data")
				}
				s.give(v, bitG)
			}
			s.give(v, s.get(c.Args[0])&bitC)
			if len(c.Args) > 1 && s.get(c.Args[1]) != 0 {
				if e, ok := c.Args[1].Type().Underlying().(*types.Slice); ok && carries(e.Elem()) {
					s.give(v, bitC)
				}
			}
		}
		return
	}
	args := c.Args
	var callees []*ssa.Function
	name := ""
	switch {
	case c.IsInvoke():
		name = "(" + types.TypeString(c.Value.Type(), nil) + ")." + c.Method.Name()
		for _, f := range s.fns {
			if f.Name() == c.Method.Name() && f.Signature.Recv() != nil && types.Identical(bare(f.Signature), bare(c.Method.Type().(*types.Signature))) {
				callees = append(callees, f)
			}
		}
		args = append([]ssa.Value{c.Value}, args...)
		switch c.Method.Name() {
		case "Write", "WriteString":
		case "Read":
			s.write(in, args[1], "a reader fills package-level data")
		default:
			for _, a := range c.Args {
				s.site("given to other code", in)
				if s.get(a)&bitG != 0 && exportedIface(c.Value.Type()) {
					s.bad(in, "package-level data is given to the caller's code")
				}
			}
		}
	case c.StaticCallee() != nil:
		f := c.StaticCallee()
		if isRepoFn(f) && len(f.Blocks) > 0 {
			callees = append(callees, f)
		} else {
			name = f.String()
		}
	default:
		sig := c.Value.Type().Underlying().(*types.Signature)
		for _, f := range s.fns {
			if f.Signature.Recv() == nil && types.Identical(f.Signature, sig) {
				callees = append(callees, f)
			}
		}
		name = "a function value"
	}
	for _, f := range callees {
		ps := f.Params
		for i, a := range args {
			if i < len(ps) {
				s.give(ps[i], s.get(a))
			}
		}
		for i, b := range s.rets[f] {
			if b == 0 || v == nil {
				continue
			}
			if f.Signature.Results().Len() == 1 {
				s.give(v, b)
				continue
			}
			for _, u := range *v.Referrers() {
				if x, ok := u.(*ssa.Extract); ok && x.Index == i {
					s.give(x, b)
				}
			}
		}
	}
	if name == "" || c.IsInvoke() {
		return
	}
	for _, i := range mutated(name, len(args)) {
		if i < len(args) {
			s.write(in, args[i], name+" writes to package-level data")
		}
	}
	b := 0
	for _, a := range args {
		b |= s.get(a)
	}
	if b != 0 && v != nil && !freshResult(name) {
		if _, ok := v.Type().(*types.Tuple); ok {
			s.set(v, bitG)
		} else {
			s.give(v, bitG)
		}
	}
}

// bare is a method's signature without its receiver.
func bare(t *types.Signature) *types.Signature {
	return types.NewSignatureType(nil, nil, nil, t.Params(), t.Results(), t.Variadic())
}

func exportedIface(t types.Type) bool {
	n, ok := types.Unalias(t).(*types.Named)
	return !ok || n.Obj().Exported()
}

func globalRead(v ssa.Value) *ssa.Global {
	if u, ok := v.(*ssa.UnOp); ok && u.Op == token.MUL {
		if g, ok := u.X.(*ssa.Global); ok {
			return g
		}
	}
	return nil
}

func (s *sharing) instr(in ssa.Instruction) {
	switch x := in.(type) {
	case *ssa.Store:
		s.write(in, x.Addr, "package-level data is written")
		if s.get(x.Val) != 0 && carries(x.Val.Type()) {
			s.hold(in, x.Addr)
		}
	case *ssa.MapUpdate:
		s.write(in, x.Map, "a package-level map is written")
		if s.get(x.Value) != 0 && carries(x.Value.Type()) || s.get(x.Key) != 0 && carries(x.Key.Type()) {
			s.hold(in, x.Map)
		}
	case *ssa.FieldAddr:
		b := s.get(x.X)
		s.set(x, b)
	case *ssa.IndexAddr:
		s.set(x, s.get(x.X))
	case *ssa.Slice:
		s.give(x, s.get(x.X))
	case *ssa.UnOp:
		if x.Op != token.MUL {
			if x.Op == token.ARROW {
				s.give(x, s.get(x.X))
			}
			return
		}
		if g := globalRead(x); g != nil && s.none[g] {
			return
		}
		s.set(x, loaded(x.Type(), s.get(x.X)))
		if f, ok := x.X.(*ssa.FieldAddr); ok && s.fields[fieldOf(f)] != 0 {
			s.set(x, loaded(x.Type(), bitG))
		}
	case *ssa.Field:
		b := loaded(x.Type(), s.get(x.X))
		if s.fields[fieldKey{types.TypeString(x.X.Type(), nil), x.Field}] != 0 {
			b |= loaded(x.Type(), bitG)
		}
		s.set(x, b)
	case *ssa.Index:
		s.set(x, loaded(x.Type(), s.get(x.X)))
	case *ssa.Lookup:
		if _, ok := x.X.Type().Underlying().(*types.Map); ok {
			b := s.get(x.X)
			if x.CommaOk {
				if b != 0 && carries(x.X.Type().Underlying().(*types.Map).Elem()) {
					s.set(x, bitG)
				}
			} else {
				s.set(x, loaded(x.Type(), b))
			}
		}
	case *ssa.Range:
		s.set(x, s.get(x.X))
	case *ssa.Next:
		if !x.IsString {
			s.set(x, s.get(x.Iter))
		}
	case *ssa.Extract:
		s.set(x, loaded(x.Type(), s.get(x.Tuple)))
	case *ssa.Phi:
		for _, e := range x.Edges {
			s.give(x, s.get(e))
		}
	case *ssa.ChangeType:
		s.give(x, s.get(x.X))
	case *ssa.ChangeInterface:
		s.give(x, s.get(x.X))
	case *ssa.MakeInterface:
		s.give(x, s.get(x.X))
	case *ssa.TypeAssert:
		if x.CommaOk {
			s.set(x, s.get(x.X))
		} else {
			s.give(x, s.get(x.X))
		}
	case *ssa.Convert:
		if _, ok := x.X.Type().Underlying().(*types.Basic); !ok && carries(x.Type()) {
			s.give(x, s.get(x.X))
		}
	case *ssa.SliceToArrayPointer:
		s.set(x, s.get(x.X))
	case *ssa.MakeClosure:
		f := x.Fn.(*ssa.Function)
		for i, b := range x.Bindings {
			s.set(f.FreeVars[i], s.get(b))
		}
	case *ssa.Send:
		if s.get(x.X) != 0 {
			s.bad(in, "package-level data is sent to another goroutine")
		}
	case *ssa.Return:
		fn := in.Parent()
		for i, v := range x.Results {
			b := s.get(v)
			if !carries(v.Type()) {
				b = 0
			}
			for len(s.rets[fn]) <= i {
				s.rets[fn] = append(s.rets[fn], 0)
			}
			if s.rets[fn][i]|b != s.rets[fn][i] {
				s.rets[fn][i] |= b
				s.changed = true
			}
			if s.public(fn) {
				s.site("returned", in)
				if b != 0 {
					s.bad(in, "package-level data is returned to the caller")
				}
			}
		}
	case *ssa.Call:
		s.call(in, &x.Call, x)
	case *ssa.Defer:
		s.call(in, &x.Call, nil)
	case *ssa.Go:
		s.call(in, &x.Call, nil)
	}
}

// public: the caller of the library can call the function.
func (s *sharing) public(fn *ssa.Function) bool {
	if fn.Parent() != nil || fn.Synthetic != "" {
		return false
	}
	return token.IsExported(fn.Name())
}

// initOnly finds the functions that run only while packages are initialised, or once under sync.Once.
func (s *sharing) initOnly() {
	callers := map[*ssa.Function]map[*ssa.Function]bool{}
	other := map[*ssa.Function]bool{} // used as a value
	for _, f := range s.fns {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				var static *ssa.Function
				once := false
				if c, ok := in.(ssa.CallInstruction); ok {
					static = c.Common().StaticCallee()
					once = static != nil && static.String() == "(*sync.Once).Do"
					if static != nil {
						if callers[static] == nil {
							callers[static] = map[*ssa.Function]bool{}
						}
						callers[static][rootFn(f)] = true
					}
				}
				for _, op := range in.Operands(nil) {
					g, ok := (*op).(*ssa.Function)
					if !ok || g == static {
						continue
					}
					if once {
						s.init[g] = true
					} else {
						other[g] = true
					}
				}
			}
		}
	}
	for _, f := range s.fns {
		if f.Synthetic == "package initializer" || strings.HasPrefix(f.Name(), "init#") {
			s.init[f] = true
		}
	}
	for again := true; again; {
		again = false
		for _, f := range s.fns {
			if s.init[f] || s.public(f) || other[f] || f.Parent() != nil || len(callers[f]) == 0 || f.Signature.Recv() != nil {
				continue
			}
			ok := true
			for c := range callers[f] {
				ok = ok && s.init[c]
			}
			if ok {
				s.init[f] = true
				again = true
			}
		}
	}
}

func sharedState(r *Repo, res *Result) {
	s := &sharing{r: r, vals: map[ssa.Value]int{}, rets: map[*ssa.Function][]int{}, fields: map[fieldKey]int{}, init: map[*ssa.Function]bool{},
		full: map[*ssa.Global]bool{}, none: map[*ssa.Global]bool{}, viol: map[string]Finding{}, sites: map[string]int{}, seen: map[ssa.Instruction]bool{}}
	for _, f := range r.fns {
		if !isHarness(rootFn(f)) {
			s.fns = append(s.fns, f)
		}
	}
	s.initOnly()
	globals := 0
	sets := map[*ssa.Global][]ssa.Value{}
	for _, f := range s.fns {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if st, ok := in.(*ssa.Store); ok {
					if g, ok := st.Addr.(*ssa.Global); ok {
						sets[g] = append(sets[g], st.Val)
					}
				}
			}
		}
	}
	var names []string
	for path, p := range r.pkgs {
		if strings.HasPrefix(path, "zz") || !strings.HasPrefix(p.Pkg.Path(), modPath) {
			continue
		}
		for _, m := range p.Members {
			g, ok := m.(*ssa.Global)
			if !ok || strings.HasPrefix(g.Name(), "init$") {
				continue
			}
			globals++
			t := g.Type().Underlying().(*types.Pointer).Elem()
			if carries(t) {
				names = append(names, path+"."+g.Name())
				if g.Object() != nil && g.Object().Exported() && !fromSync(t) {
					f := Finding{Fn: path, Kind: "shared", What: "package-level data is exported: " + g.Name(), At: r.at(g.Pos()), Sure: true}
					s.viol[f.At+f.What] = f
				}
			}
			if v := sets[g]; len(v) == 1 {
				if sl, ok := v[0].(*ssa.Slice); ok && sl.Low == nil && sl.High == nil {
					if a, ok := sl.X.(*ssa.Alloc); ok {
						s.full[g] = true
						if t, ok := a.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array); ok && t.Len() == 0 {
							s.none[g] = true
						}
					}
				}
			}
		}
	}
	passes := 0
	for s.changed = true; s.changed; {
		s.changed = false
		passes++
		for _, f := range s.fns {
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					s.instr(in)
				}
			}
		}
	}
	n := 0
	for _, k := range s.sites {
		n += k
	}
	n += globals
	for _, f := range s.fns {
		res.functions[fnName(f)] = true
	}
	res.obligs += n
	res.kinds["shared"] += n
	res.discharged += n - len(s.viol)
	var ks []string
	for k := range s.viol {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		res.add(s.viol[k])
	}
	sort.Strings(names)
	tainted := 0
	for range s.vals {
		tainted++
	}
	res.extra["package_variables"], res.extra["package_variables_holding_references"] = globals, names
	res.extra["sites_checked"] = s.sites
	res.extra["values_referring_to_package_data"] = tainted
	res.extra["passes"] = passes
}
