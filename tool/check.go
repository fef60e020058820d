package main

// Deciding one property: interpret its entry functions abstractly and collect the obligations.

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"go/constant"
	"go/token"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Prop says how a property is decided.
type Prop struct {
	id      string
	harness []string             // directories under /verif/harness
	entries []string             // functions interpreted from arbitrary arguments
	roots   func(*Repo) []string // further entries
	kinds   []string             // obligations that count; empty: all
	only    string               // restrict panic-like obligations to functions with this prefix (comma separated)
	failIO  bool                 // unknown writers may fail
	custom  func(*Repo, *Result)
	rule    string
	assume  []string
}

var panicKinds = []string{"index", "slice", "nil", "nilfunc", "nilmap", "typeassert", "div", "shift", "makesize", "reflect", "panic", "exit"}

type Finding struct {
	Fn    string `json:"function"`
	Kind  string `json:"kind"`
	What  string `json:"what"`
	At    string `json:"at"`
	Path  string `json:"call_path,omitempty"`
	Sure  bool   `json:"definite"`
	Entry string `json:"entry"`
}

func (f Finding) key() string { return f.Fn + "|" + f.Kind + "|" + f.What }

type Result struct {
	findings   []Finding
	obligs     int
	discharged int
	kinds      map[string]int
	entries    []map[string]any
	functions  map[string]bool
	loops      int
	steps      int
	notes      map[string]int
	extra      map[string]any
	points     map[string]*point
}

// point is a specification point; some entry has to reach it.
type point struct {
	F  Finding
	Ok bool
}

func (r *Result) point(k string) *point {
	if r.points == nil {
		r.points = map[string]*point{}
	}
	if r.points[k] == nil {
		r.points[k] = &point{}
	}
	return r.points[k]
}

func (r *Result) add(f Finding) { r.findings = append(r.findings, f) }

func (r *Result) oblig(kind string, ok bool, f Finding) {
	r.obligs++
	r.kinds[kind]++
	if ok {
		r.discharged++
		return
	}
	r.add(f)
}

func checkProperty(p *Prop, tier string) int {
	t0 := time.Now()
	res := &Result{kinds: map[string]int{}, functions: map[string]bool{}, notes: map[string]int{}, extra: map[string]any{}}
	es := append([]string(nil), p.entries...)
	if p.roots != nil || p.custom != nil {
		r, err := loadRepo("/repo", p.harness)
		if err != nil {
			res.add(Finding{Kind: "load", What: err.Error()})
		} else {
			if p.roots != nil {
				es = append(es, p.roots(r)...)
			}
			if p.custom != nil {
				p.custom(r, res)
			}
		}
	}
	runWorkers(p, es, res)
	known, fixed := readKnown(p.id)
	seen := map[string]int{}
	var viol []Finding
	sort.SliceStable(res.findings, func(i, j int) bool { return res.findings[i].Sure && !res.findings[j].Sure })
	for _, f := range res.findings {
		if k, ok := known[f.key()]; ok {
			if seen[f.key()] == 0 {
				fmt.Printf("KNOWN-FINDING: property=%s %s\n", p.id, k)
			}
			seen[f.key()]++
			continue
		}
		if seen[f.key()+f.At] == 0 {
			viol = append(viol, f)
		}
		seen[f.key()+f.At]++
	}
	_ = fixed
	writeEvidence(p, tier, res, len(viol), time.Since(t0))
	if len(viol) == 0 {
		return 0
	}
	rp := filepath.Join("/verif/evidence", p.id+".violation.json")
	b, _ := json.MarshalIndent(map[string]any{"property": p.id, "violations": viol}, "", " ")
	os.WriteFile(rp, append(b, '\n'), 0o644)
	for i, f := range viol {
		if i == 12 {
			fmt.Printf("... %d more in %s\n", len(viol)-i, rp)
			break
		}
		how := "cannot be shown to hold"
		if f.Sure {
			how = "is broken"
		}
		fmt.Printf("%s: %s in %s [%s]: %s %s (via %s)\n", p.id, f.At, f.Fn, f.Kind, f.What, how, f.Path)
	}
	fmt.Printf("VIOLATION property=%s replay=%s\n", p.id, rp)
	return 1
}

// wire carries a worker's result to the driver.
type wire struct {
	Findings   []Finding
	Obligs     int
	Discharged int
	Kinds      map[string]int
	Entries    []map[string]any
	Functions  map[string]bool
	Loops      int
	Steps      int
	Notes      map[string]int
	Points     map[string]*point
}

// runWorkers interprets the entries in separate processes, so that none depends on another.
func runWorkers(p *Prop, es []string, res *Result) {
	n := len(es)
	chunk := 1
	for (n+chunk-1)/chunk > 48 {
		chunk++
	}
	var jobs [][]string
	for len(es) > 0 {
		k := min(chunk, len(es))
		jobs = append(jobs, es[:k])
		es = es[k:]
	}
	outs := make([]wire, len(jobs))
	sem := make(chan bool, max(2, runtime.NumCPU()))
	var wg sync.WaitGroup
	for i, j := range jobs {
		wg.Add(1)
		go func() {
			defer wg.Done()
			sem <- true
			defer func() { <-sem }()
			ctx, cancel := context.WithTimeout(context.Background(), 700*time.Second)
			defer cancel()
			c := exec.CommandContext(ctx, os.Args[0], "-property", p.id, "-worker", strings.Join(j, ","))
			var eb bytes.Buffer
			c.Stderr = &eb
			b, err := c.Output()
			if err == nil {
				err = json.Unmarshal(b, &outs[i])
			}
			if err != nil {
				m := eb.String()
				if len(m) > 2000 {
					m = m[:2000]
				}
				outs[i] = wire{Obligs: 1, Findings: []Finding{{Fn: j[0], Kind: "undecided", What: "analyser failure: " + err.Error() + " " + m, Entry: j[0]}}}
			}
		}()
	}
	wg.Wait()
	for _, w := range outs {
		res.findings = append(res.findings, w.Findings...)
		res.obligs += w.Obligs
		res.discharged += w.Discharged
		for k, v := range w.Kinds {
			res.kinds[k] += v
		}
		res.entries = append(res.entries, w.Entries...)
		for k := range w.Functions {
			res.functions[k] = true
		}
		res.loops += w.Loops
		res.steps += w.Steps
		for k, v := range w.Notes {
			res.notes[k] += v
		}
		for k, v := range w.Points {
			pt := res.point(k)
			pt.F = v.F
			pt.Ok = pt.Ok || v.Ok
		}
	}
	var ks []string
	for k := range res.points {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		res.oblig("reached", res.points[k].Ok, res.points[k].F)
	}
	if len(ks) == 0 && len(p.kinds) == 0 && p.custom == nil {
		res.oblig("reached", false, Finding{Kind: "reached", What: "no specification point of the property is reached"})
	}
}

func worker(p *Prop, es []string) int {
	res := &Result{kinds: map[string]int{}, functions: map[string]bool{}, notes: map[string]int{}, extra: map[string]any{}}
	r, err := loadRepo("/repo", p.harness)
	if err != nil {
		res.oblig("load", false, Finding{Kind: "load", What: err.Error()})
	} else if notes, err := r.runInits(); err != nil {
		res.oblig("undecided", false, Finding{Kind: "undecided", What: err.Error(), Fn: "init"})
	} else {
		for _, n := range notes {
			res.notes["init: "+n]++
		}
		for _, n := range es {
			runEntry(r, p, n, res)
		}
	}
	b, err := json.Marshal(wire{res.findings, res.obligs, res.discharged, res.kinds, res.entries, res.functions, res.loops, res.steps, res.notes, res.points})
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	os.Stdout.Write(b)
	return 0
}

func readKnown(id string) (known map[string]string, fixed int) {
	known = map[string]string{}
	b, err := os.ReadFile("/verif/known_findings.txt")
	if err != nil {
		return
	}
	for _, l := range strings.Split(string(b), "\n") {
		if strings.HasPrefix(l, "fixed: property="+id+" ") {
			fixed++
		}
		l, ok := strings.CutPrefix(l, "known: property="+id+" ")
		if !ok {
			continue
		}
		if k, text, ok := strings.Cut(l, " ## "); ok {
			known[k] = text
		}
	}
	return
}

// owner is the property a specification point is about: its text may start with "X00: ".
func owner(what string) string {
	k := strings.Index(what, ": ")
	if k < 3 || k%4 != 3 {
		return ""
	}
	for i := 0; i < k; i += 4 {
		if what[i] < 'A' || what[i] > 'Z' || what[i+1] < '0' || what[i+1] > '9' || i+3 < k && what[i+3] != '/' {
			return ""
		}
	}
	return what[:k]
}

// others says whether a specification point belongs to properties other than p.
func (p *Prop) others(what string) bool {
	w := owner(what)
	return w != "" && !strings.Contains(w, p.id)
}

func (p *Prop) counts(o *Oblig) bool {
	if o.kind == "check" && p.others(o.why) {
		return false
	}
	if len(p.kinds) > 0 {
		ok := false
		for _, k := range p.kinds {
			if k == o.kind {
				ok = true
			}
		}
		if !ok {
			return false
		}
	}
	if isHarness(rootFn(o.fn)) {
		return o.kind != "terminate"
	}
	if p.only != "" && o.kind != "check" {
		ok := false
		for _, pre := range strings.Split(p.only, ",") {
			if strings.Contains(fnName(o.fn), pre) {
				ok = true
			}
		}
		return ok
	}
	return true
}

func rootFn(fn *ssa.Function) *ssa.Function {
	for fn.Parent() != nil {
		fn = fn.Parent()
	}
	return fn
}

func runEntry(r *Repo, p *Prop, name string, res *Result) {
	t0 := time.Now()
	ent := map[string]any{"entry": name}
	res.entries = append(res.entries, ent)
	fn := r.fn(name)
	if fn == nil {
		res.oblig("entry", false, Finding{Fn: name, Kind: "entry", What: "function not found", Entry: name})
		return
	}
	e := r.eng()
	e.failIO = p.failIO
	func() {
		defer func() {
			if x := recover(); x != nil {
				if a, ok := x.(engAbort); ok {
					res.oblig("undecided", false, Finding{Fn: name, Kind: "undecided", What: a.msg, Entry: name})
					return
				}
				res.oblig("undecided", false, Finding{Fn: name, Kind: "undecided", What: fmt.Sprint("analyser failure: ", x), Entry: name})
			}
		}()
		outs := e.run(nil, &State{heap: map[ObjID]*Obj{}}, fn, dbgArgs(fn), nil, token.NoPos)
		ent["outcomes"] = len(outs)
	}()
	ok, n := 0, 0
	reached := map[token.Pos]bool{}
	for _, o := range e.log {
		if o.kind == "check" {
			reached[o.pos] = true
		}
		if !p.counts(o) {
			continue
		}
		n++
		if o.ok {
			ok++
		}
		what := o.why
		if o.kind == "terminate" {
			what = "loop termination"
		}
		res.oblig(o.kind, o.ok, Finding{Fn: fnName(o.fn), Kind: o.kind, What: stable(what), At: r.at(o.pos), Path: o.stack, Sure: o.def, Entry: name})
	}
	stands := map[*ssa.Function]bool{}
	for _, c := range r.contracts {
		stands[c] = true
	}
	for f := range e.analysed {
		res.functions[fnName(f)] = true
		// every specification point must be reached, or the obligations would hold vacuously
		if isHarness(f) && !stands[f] {
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					c, okc := in.(*ssa.Call)
					if !okc || c.Call.StaticCallee() == nil || fnName(c.Call.StaticCallee()) != "zzv.Check" {
						continue
					}
					what := "?"
					if k, okk := c.Call.Args[0].(*ssa.Const); okk && k.Value != nil && !constant.BoolVal(k.Value) {
						continue // a point that must not be reached
					}
					if k, okk := c.Call.Args[1].(*ssa.Const); okk && k.Value != nil && k.Value.Kind() == constant.String {
						what = constant.StringVal(k.Value)
					}
					if p.others(what) {
						continue
					}
					pt := res.point(r.at(c.Pos()) + " " + what)
					pt.F = Finding{Fn: fnName(f), Kind: "reached", What: "specification point never reached: " + what, At: r.at(c.Pos()), Entry: name}
					if reached[c.Pos()] {
						pt.Ok = true
					}
				}
			}
		}
	}
	for k, v := range e.notes {
		res.notes[k] += v
	}
	res.loops += len(e.loops)
	res.steps += e.steps
	ent["obligations"], ent["discharged"], ent["steps"], ent["ms"] = n, ok, e.steps, time.Since(t0).Milliseconds()
}

// stable drops run-dependent numbering from a message so that it can identify a finding.
func stable(s string) string {
	var sb strings.Builder
	for i := 0; i < len(s); i++ {
		if s[i] == '#' {
			j := i + 1
			for j < len(s) && s[j] >= '0' && s[j] <= '9' {
				j++
			}
			if j > i+1 {
				i = j - 1
				continue
			}
		}
		sb.WriteByte(s[i])
	}
	return sb.String()
}

func writeEvidence(p *Prop, tier string, res *Result, viol int, d time.Duration) {
	var fns []string
	for f := range res.functions {
		fns = append(fns, f)
	}
	sort.Strings(fns)
	var notes []string
	for k, v := range res.notes {
		notes = append(notes, fmt.Sprintf("%s (%d)", k, v))
	}
	sort.Strings(notes)
	cov := map[string]any{
		"explanation": "Abstract interpretation of the SSA form of /repo's current source, from the entries below with arbitrary inputs and histories. " + p.rule,
		"obligations": res.obligs, "discharged": res.discharged, "obligations_by_kind": res.kinds,
		"entries": res.entries, "functions_analysed": fns, "functions": len(fns),
		"loops_summarised": res.loops, "instructions_interpreted": res.steps, "unmodelled": notes,
	}
	for k, v := range res.extra {
		cov[k] = v
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	ev := map[string]any{"property": p.id, "tier": tier, "seed": seed, "level": "other", "coverage": cov,
		"assumptions": append(append([]string(nil), baseAssumptions...), p.assume...),
		"wall_s":      d.Seconds(), "violations": viol}
	os.MkdirAll("/verif/evidence", 0o755)
	b, _ := json.MarshalIndent(ev, "", " ")
	os.WriteFile(filepath.Join("/verif/evidence", p.id+".json"), append(b, '\n'), 0o644)
}

var baseAssumptions = []string{
	"the analyser's models of the Go language and of the library functions it does not interpret are right",
	"pointer and interface arguments are not nil and distinct unknown pointers do not alias",
	"an io.Writer that returns no error has written everything; inputs are finite; lengths stay below 2^48; 64-bit signed sums do not overflow",
	"a packet's Header implements the interface that belongs to its Type",
}
