package main

// Loading /repo, the engine set-up and the abstract run of the package initialisers.

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

var harnessDir = "/verif/harness"

type Repo struct {
	prog      *ssa.Program
	fset      *token.FileSet
	pkgs      map[string]*ssa.Package // by path relative to the module
	fns       []*ssa.Function         // every function of the repository (no tests)
	init      []*Oblig
	contracts map[string]*ssa.Function
}

func loadRepo(dir string, harness []string) (*Repo, error) {
	os.Setenv("GOFLAGS", "-mod=readonly")
	os.Setenv("GOPROXY", "off")
	os.Setenv("GOWORK", "off")
	os.Setenv("CGO_ENABLED", "0")
	cfg := &packages.Config{Mode: packages.LoadAllSyntax, Dir: dir}
	cfg.Overlay = map[string][]byte{}
	for _, d := range append([]string{"zzv"}, harness...) {
		files, _ := filepath.Glob(filepath.Join(harnessDir, d, "*.go"))
		if len(files) == 0 {
			return nil, fmt.Errorf("no harness in %s", d)
		}
		for _, f := range files {
			b, err := os.ReadFile(f)
			if err != nil {
				return nil, err
			}
			cfg.Overlay[filepath.Join(dir, d, filepath.Base(f))] = b
		}
	}
	pkgs, err := packages.Load(cfg, "./...")
	if err != nil {
		return nil, err
	}
	for _, p := range pkgs {
		for _, e := range p.Errors {
			return nil, fmt.Errorf("%s: %v", p.PkgPath, e)
		}
	}
	prog, spkgs := ssautil.AllPackages(pkgs, ssa.InstantiateGenerics)
	prog.Build()
	r := &Repo{prog: prog, fset: prog.Fset, pkgs: map[string]*ssa.Package{}}
	for _, p := range spkgs {
		if p != nil {
			r.pkgs[strings.TrimPrefix(strings.TrimPrefix(p.Pkg.Path(), modPath), "/")] = p
		}
	}
	for fn := range ssautil.AllFunctions(prog) {
		if isRepoFn(fn) && len(fn.Blocks) > 0 {
			r.fns = append(r.fns, fn)
		}
	}
	r.contracts = map[string]*ssa.Function{}
	for _, p := range pkgs {
		if !strings.HasPrefix(p.PkgPath, modPath+"/zz") {
			continue
		}
		for _, f := range p.Syntax {
			for _, d := range f.Decls {
				fd, ok := d.(*ast.FuncDecl)
				if !ok || fd.Doc == nil {
					continue
				}
				for _, c := range fd.Doc.List {
					if n, ok := strings.CutPrefix(c.Text, "//contract "); ok {
						r.contracts[n] = prog.FuncValue(p.TypesInfo.Defs[fd.Name].(*types.Func))
					}
				}
			}
		}
	}
	sort.Slice(r.fns, func(i, j int) bool {
		if r.fns[i].String() != r.fns[j].String() {
			return r.fns[i].String() < r.fns[j].String()
		}
		return r.fns[i].Pos() < r.fns[j].Pos()
	})
	return r, nil
}

func isRepoFn(fn *ssa.Function) bool {
	p := fn.Package()
	if p == nil && fn.Object() != nil && fn.Object().Pkg() != nil {
		return strings.HasPrefix(fn.Object().Pkg().Path(), modPath)
	}
	return p != nil && strings.HasPrefix(p.Pkg.Path(), modPath)
}

func (r *Repo) eng() *Eng {
	var order []string
	for n := range r.contracts {
		order = append(order, n)
	}
	sort.Strings(order)
	coarse, peel, budget = false, false, 0
	return &Eng{contracts: r.contracts, contractOrder: order, prog: r.prog, fset: r.fset, notes: map[string]int{}, analysed: map[*ssa.Function]int{},
		stackFns: map[*ssa.Function]int{}, hooks: map[string]modelFn{}, noUnroll: map[*ssa.BasicBlock]int{},
		symMark: map[int]Sym{}, nameMark: map[int]int{}, objMark: map[int]ObjID{}, maxSteps: 3000000, maxStates: 400, exactMax: envInt("GV_EXACT", 6)}
}

// runInits executes every package initialiser of the repository, filling baseHeap.
func (r *Repo) runInits() (notes []string, err error) {
	e := r.eng()
	e.maxSteps = 10000000
	e.contracts, e.contractOrder = nil, nil
	defer func() {
		if x := recover(); x != nil {
			if a, ok := x.(engAbort); ok {
				err = fmt.Errorf("package initialisation: %s", a.msg)
				return
			}
			panic(x)
		}
	}()
	var names []string
	for n := range r.pkgs {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		st := &State{heap: baseHeap}
		outs := e.run(nil, st, r.pkgs[n].Func("init"), nil, nil, token.NoPos)
		if len(outs) != 1 {
			return nil, fmt.Errorf("package initialisation of %s has %d outcomes", n, len(outs))
		}
		if len(outs[0].st.facts) > 0 {
			// facts about unknown library values are not carried over
		}
		for id, o := range outs[0].st.heap {
			baseHeap[id] = o
		}
	}
	for k := range e.notes {
		notes = append(notes, k)
	}
	r.init = e.log
	for _, o := range baseHeap {
		o.frozen = true
	}
	return
}

// fn finds a function by its display name ("gop.NewCache", "(*gop.Cache).Write").
func (r *Repo) fn(name string) *ssa.Function {
	for _, f := range r.fns {
		if fnName(f) == name {
			return f
		}
	}
	return nil
}

func (r *Repo) mustFn(name string) *ssa.Function {
	f := r.fn(name)
	if f == nil {
		panic(engAbort{"no such function: " + name})
	}
	return f
}

func (r *Repo) at(p token.Pos) string {
	x := r.fset.Position(p)
	return fmt.Sprintf("%s:%d", strings.TrimPrefix(x.Filename, "/repo/"), x.Line)
}

func envInt(name string, def int) int {
	if n, err := strconv.Atoi(os.Getenv(name)); err == nil {
		return n
	}
	return def
}
