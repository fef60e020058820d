package main

// Meaning of the harness intrinsics (package zzv).

import (
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

func init() {
	any := func(name string) {
		models[modPath+"/zzv."+name] = func(e *Eng, fr *Frame, st *State, fn *ssa.Function, args []Val, pos token.Pos) []callOut {
			rt := fn.Signature.Results().At(0).Type()
			id := fresh(name)
			v := unknown(rt, id)
			if name == "AnyLen" {
				v = VInt{S(newSym(id, 0, maxLen))}
			}
			if name == "AnyError" {
				v = errVal(id)
			}
			return one(st, v)
		}
	}
	for _, n := range []string{"AnyBool", "AnyInt", "AnyByte", "AnyU16", "AnyU32", "AnyI32", "AnyI64", "AnyU64", "AnyF64", "AnyLen",
		"AnyBytes", "AnyString", "AnyValue", "AnyError", "AnyInts", "AnyValues"} {
		any(n)
	}
	models[modPath+"/zzv.Assume"] = func(e *Eng, fr *Frame, st *State, fn *ssa.Function, args []Val, pos token.Pos) []callOut {
		c := e.cond(args[0])
		if !st.assume(c) {
			return nil
		}
		return one(st, nil)
	}
	models[modPath+"/zzv.Coarse"] = func(e *Eng, fr *Frame, st *State, fn *ssa.Function, args []Val, pos token.Pos) []callOut {
		coarse = true
		return one(st, nil)
	}
	models[modPath+"/zzv.Peel"] = func(e *Eng, fr *Frame, st *State, fn *ssa.Function, args []Val, pos token.Pos) []callOut {
		peel = true
		return one(st, nil)
	}
	models[modPath+"/zzv.Budget"] = func(e *Eng, fr *Frame, st *State, fn *ssa.Function, args []Val, pos token.Pos) []callOut {
		if i, ok := args[0].(VIface); ok {
			if p, ok := i.val.(VPtr); ok {
				budget = p.obj
			}
		}
		return one(st, nil)
	}
	models[modPath+"/zzv.Pieces"] = func(e *Eng, fr *Frame, st *State, fn *ssa.Function, args []Val, pos token.Pos) []callOut {
		if i, ok := args[0].(VIface); ok {
			if p, ok := i.val.(VPtr); ok && st.obj(p.obj).kind == oReader {
				st.mut(p.obj).v = args[1]
			}
		}
		return one(st, nil)
	}
	models[modPath+"/zzv.Short"] = func(e *Eng, fr *Frame, st *State, fn *ssa.Function, args []Val, pos token.Pos) []callOut {
		if i, ok := args[0].(VIface); ok {
			if p, ok := i.val.(VPtr); ok && st.obj(p.obj).kind == oReader {
				st.mut(p.obj).short = args[1]
			}
		}
		return one(st, nil)
	}
	models[modPath+"/zzv.Level"] = func(e *Eng, fr *Frame, st *State, fn *ssa.Function, args []Val, pos token.Pos) []callOut {
		if p, t, ok := counter(args[0]); ok {
			return one(st, st.load(p, t))
		}
		return one(st, unknown(types.Typ[types.Int], fresh("level")))
	}
	models[modPath+"/zzv.SetLevel"] = func(e *Eng, fr *Frame, st *State, fn *ssa.Function, args []Val, pos token.Pos) []callOut {
		if p, t, ok := counter(args[0]); ok {
			st.store(p, args[1], t)
		}
		return one(st, nil)
	}
	models[modPath+"/zzv.Part"] = func(e *Eng, fr *Frame, st *State, fn *ssa.Function, args []Val, pos token.Pos) []callOut {
		x, ok1 := args[0].(VIface)
		like, ok2 := args[1].(VIface)
		if ok1 && ok2 && x.dyn != nil && like.dyn != nil {
			if t, ok := x.dyn.Underlying().(*types.Struct); ok {
				if v, ok := x.val.(VStruct); ok {
					for i := range v.f {
						if types.Identical(t.Field(i).Type(), like.dyn) {
							return one(st, VIface{dyn: like.dyn, val: v.f[i]})
						}
					}
				}
			}
		}
		return one(st, VNil{})
	}
	models[modPath+"/zzv.Recurse"] = func(e *Eng, fr *Frame, st *State, fn *ssa.Function, args []Val, pos token.Pos) []callOut {
		if l := intOf(args[0]); l.isConst() {
			e.maxRec = int(l.c)
		}
		return one(st, nil)
	}
	models[modPath+"/zzv.Grow"] = func(e *Eng, fr *Frame, st *State, fn *ssa.Function, args []Val, pos token.Pos) []callOut {
		if i, ok := args[0].(VIface); ok && i.dyn != nil {
			if p, ok := i.val.(VPtr); ok {
				if pt, ok := i.dyn.Underlying().(*types.Pointer); ok {
					t := pt.Elem()
					v := st.load(p, t)
					st.store(p, grown(st, v, t), t)
				}
			}
		}
		return one(st, nil)
	}
	models[modPath+"/zzv.Check"] = func(e *Eng, fr *Frame, st *State, fn *ssa.Function, args []Val, pos token.Pos) []callOut {
		what := "?"
		if s, ok := args[1].(VStr); ok {
			if c, ok := s.q.constStr(); ok {
				what = c
			}
		}
		if s := e.oblige(fr, st, pos, "check", e.cond(args[0]), what); s != nil {
			return one(s, nil)
		}
		return nil
	}
}

var _ = types.Typ

// counter finds the only field of type int in the structure x points to.
func counter(x Val) (VPtr, types.Type, bool) {
	i, ok := x.(VIface)
	if !ok || i.dyn == nil {
		return VPtr{}, nil, false
	}
	p, ok := i.val.(VPtr)
	pt, ok2 := i.dyn.Underlying().(*types.Pointer)
	if !ok || !ok2 {
		return VPtr{}, nil, false
	}
	var found [][]int
	var walk func(t types.Type, path []int)
	walk = func(t types.Type, path []int) {
		switch u := t.Underlying().(type) {
		case *types.Struct:
			for k := 0; k < u.NumFields(); k++ {
				walk(u.Field(k).Type(), append(append([]int(nil), path...), k))
			}
		case *types.Basic:
			if u.Kind() == types.Int {
				found = append(found, path)
			}
		}
	}
	walk(pt.Elem(), p.path)
	if len(found) != 1 {
		return VPtr{}, nil, false
	}
	p.path = found[0]
	return p, types.Typ[types.Int], true
}

// grown: v after calls that may have added to the slices and maps in it.
func grown(st *State, v Val, t types.Type) Val {
	switch u := t.Underlying().(type) {
	case *types.Struct:
		s, ok := v.(VStruct)
		if !ok {
			return unknown(t, fresh("grown"))
		}
		r := VStruct{make([]Val, len(s.f))}
		for i := range s.f {
			r.f[i] = grown(st, s.f[i], u.Field(i).Type())
		}
		return r
	case *types.Slice:
		old := st.lenOf(v, t)
		n := unknown(t, fresh("grown"))
		st.assume(condGE(sub(st.lenOf(n, t), old)))
		return n
	case *types.Map:
		if _, ok := u.Elem().Underlying().(*types.Signature); ok {
			return v // handlers are registered by the caller, not by the calls it makes
		}
		return unknown(t, fresh("grown"))
	}
	return v
}
