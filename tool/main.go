package main

import (
	"flag"
	"fmt"
	"go/token"
	"golang.org/x/tools/go/ssa"
	"os"
	"runtime/debug"
	"runtime/pprof"
	"strings"
	"time"
)

func main() {
	prop := flag.String("property", "", "property to check")
	run := flag.String("run", "", "debug: functions to interpret")
	work := flag.String("worker", "", "entries to interpret in this process")
	list := flag.Bool("list", false, "debug: list functions")
	flag.Parse()
	if f := os.Getenv("GV_PROF"); f != "" {
		w, _ := os.Create(f)
		pprof.StartCPUProfile(w)
		defer pprof.StopCPUProfile()
	}
	if *prop != "" {
		tier := os.Getenv("VERIF_TIER")
		if tier == "" {
			tier = "quick"
		}
		for _, p := range props {
			if p.id == *prop && *work != "" {
				debug.SetGCPercent(400)
				debug.SetMemoryLimit(3 << 30)
				os.Exit(worker(p, strings.Split(*work, ",")))
			}
			if p.id == *prop {
				os.Exit(checkProperty(p, tier))
			}
		}
		fmt.Println("no such property", *prop)
		os.Exit(2)
	}
	var hs []string
	if h := os.Getenv("HARNESS"); h != "" {
		hs = strings.Split(h, ",")
	}
	r, err := loadRepo(repoDir(), hs)
	if err != nil {
		fmt.Println("load:", err)
		os.Exit(1)
	}
	notes, err := r.runInits()
	if err != nil {
		fmt.Println(err)
		os.Exit(1)
	}
	if *list {
		for _, f := range r.fns {
			fmt.Println(fnName(f))
		}
		fmt.Println("init notes", notes, "base objects", len(baseHeap))
	}
	if *run == "all" {
		for _, f := range r.fns {
			if f.Signature.Recv() == nil && f.Name() == "init" {
				continue
			}
			if f.Parent() != nil || f.Synthetic != "" {
				continue
			}
			summary(r, f)
		}
		return
	}
	if *run != "" {
		for _, n := range strings.Split(*run, ",") {
			debugRun(r, n)
		}
	}
}

func dbgArgs(fn *ssa.Function) (args []Val) {
	for i, p := range fn.Params {
		v := unknown(p.Type(), p.Name())
		if i == 0 && fn.Signature.Recv() != nil {
			v = nonNil(v)
		}
		switch v.(type) {
		case VPtr, VIface:
			v = nonNil(v)
		}
		args = append(args, v)
	}
	return
}

func summary(r *Repo, fn *ssa.Function) {
	t := time.Now()
	e := r.eng()
	defer func() {
		if x := recover(); x != nil {
			if a, ok := x.(engAbort); ok {
				fmt.Printf("%-50s ABORT %s %v (%v)\n", fnName(fn), a.msg, e.notes, time.Since(t).Round(time.Millisecond))
				return
			}
			fmt.Printf("%-50s PANIC %v\n", fnName(fn), x)
			b := string(debug.Stack())
			i := strings.LastIndex(b, "panic(")
			b = b[i:]
			if len(b) > 900 {
				b = b[:900]
			}
			fmt.Println(b)
		}
	}()
	outs := e.run(nil, &State{heap: map[ObjID]*Obj{}}, fn, dbgArgs(fn), nil, token.NoPos)
	kinds := map[string]int{}
	for _, o := range e.log {
		if !o.ok {
			kinds[o.kind+"@"+r.at(o.pos)]++
		}
	}
	fmt.Printf("%-50s outs %d loops %d obl %d steps %d (%v) notes %v\n", fnName(fn), len(outs), len(e.loops), len(e.log), e.steps, time.Since(t).Round(time.Millisecond), e.notes)
	for k, n := range kinds {
		fmt.Println("        open", k, n)
	}
}

func debugRun(r *Repo, name string) {
	t := time.Now()
	fn := r.fn(name)
	if fn == nil {
		fmt.Println("no function", name)
		return
	}
	e := r.eng()
	e.failIO = os.Getenv("FAILIO") != ""
	var args []Val
	for i, p := range fn.Params {
		v := unknown(p.Type(), p.Name())
		if i == 0 && fn.Signature.Recv() != nil {
			v = nonNil(v)
		}
		switch v.(type) {
		case VPtr, VIface:
			if !strings.Contains(os.Getenv("MAYNIL"), p.Name()) || os.Getenv("MAYNIL") == "" {
				v = nonNil(v)
			}
		}
		args = append(args, v)
	}
	defer func() {
		if x := recover(); x != nil {
			if a, ok := x.(engAbort); ok {
				fmt.Println("ABORT", a.msg, e.notes)
				return
			}
			panic(x)
		}
	}()
	outs := e.run(nil, &State{heap: map[ObjID]*Obj{}}, fn, args, nil, token.NoPos)
	fmt.Printf("== %s: %d outcomes, %d steps, %v\n", name, len(outs), e.steps, time.Since(t).Round(time.Millisecond))
	for i, o := range outs {
		fmt.Printf("-- outcome %d: %s\n", i, vstr(o.res))
		for _, f := range o.st.facts {
			fmt.Println("    fact", f)
		}
		for _, ev := range o.st.trace {
			fmt.Println("    ", ev)
		}
		for _, id := range sortedObjs(o.st.heap) {
			if ob := o.st.heap[id]; ob.name != "" && !ob.frozen {
				fmt.Printf("     obj %d %s: %s\n", id, ob.name, objKey(ob))
			}
		}
	}
	for _, l := range e.loops {
		fmt.Println("  loop", l.id, "alts", len(l.alts), "parts", len(l.parts))
		for _, a := range l.alts {
			fmt.Println("    alt", a.from, "->", a.to)
			for _, ev := range a.events {
				fmt.Println("       ", ev)
			}
		}
	}
	bad := 0
	for _, o := range e.log {
		if !o.ok {
			bad++
			fmt.Printf("  OBLIG %s %s %s def=%v: %s [%s]\n", o.kind, r.at(o.pos), fnName(o.fn), o.def, o.why, o.stack)
		}
	}
	fmt.Println("  obligations", len(e.log), "open", bad, "notes", e.notes)
}

// repoDir: the debugging runs may look at a scratch copy; checks always read /repo.
func repoDir() string {
	if d := os.Getenv("GV_REPO"); d != "" {
		return d
	}
	return "/repo"
}
