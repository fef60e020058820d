package main

// Per-function structure: value numbering, block order, natural loops, liveness.

import (
	"golang.org/x/tools/go/ssa"
)

type loopInfo struct {
	header *ssa.BasicBlock
	body   map[*ssa.BasicBlock]bool
	parent *loopInfo
}

type fnInfo struct {
	fn     *ssa.Function
	num    map[ssa.Value]int
	vals   []ssa.Value
	rpo    []*ssa.BasicBlock
	loopOf map[*ssa.BasicBlock]*loopInfo // innermost
	heads  map[*ssa.BasicBlock]*loopInfo
	live   map[*ssa.BasicBlock][]bool // live on entry (phis of the block excluded from uses, included as live)
	bad    string
}

var fnInfos = map[*ssa.Function]*fnInfo{}

func infoOf(fn *ssa.Function) *fnInfo {
	if fi, ok := fnInfos[fn]; ok {
		return fi
	}
	fi := &fnInfo{fn: fn, num: map[ssa.Value]int{}, loopOf: map[*ssa.BasicBlock]*loopInfo{}, heads: map[*ssa.BasicBlock]*loopInfo{}, live: map[*ssa.BasicBlock][]bool{}}
	fnInfos[fn] = fi
	addv := func(v ssa.Value) {
		fi.num[v] = len(fi.vals)
		fi.vals = append(fi.vals, v)
	}
	for _, p := range fn.Params {
		addv(p)
	}
	for _, p := range fn.FreeVars {
		addv(p)
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if v, ok := in.(ssa.Value); ok {
				addv(v)
			}
		}
	}
	if len(fn.Blocks) == 0 {
		return fi
	}
	// reverse postorder
	seen := map[*ssa.BasicBlock]bool{}
	var post []*ssa.BasicBlock
	var dfs func(b *ssa.BasicBlock)
	dfs = func(b *ssa.BasicBlock) {
		seen[b] = true
		for i := len(b.Succs) - 1; i >= 0; i-- {
			if !seen[b.Succs[i]] {
				dfs(b.Succs[i])
			}
		}
		post = append(post, b)
	}
	dfs(fn.Blocks[0])
	idx := map[*ssa.BasicBlock]int{}
	for i := len(post) - 1; i >= 0; i-- {
		idx[post[i]] = len(fi.rpo)
		fi.rpo = append(fi.rpo, post[i])
	}
	// loops
	for _, b := range fi.rpo {
		for _, h := range b.Succs {
			if idx[h] > idx[b] {
				continue
			}
			if !h.Dominates(b) {
				fi.bad = "irreducible control flow"
				continue
			}
			l := fi.heads[h]
			if l == nil {
				l = &loopInfo{header: h, body: map[*ssa.BasicBlock]bool{h: true}}
				fi.heads[h] = l
			}
			work := []*ssa.BasicBlock{b}
			for len(work) > 0 {
				x := work[len(work)-1]
				work = work[:len(work)-1]
				if l.body[x] || !seen[x] {
					continue
				}
				l.body[x] = true
				work = append(work, x.Preds...)
			}
		}
	}
	for _, b := range fi.rpo {
		var best *loopInfo
		for _, l := range fi.heads {
			if l.body[b] && (best == nil || len(l.body) < len(best.body)) {
				best = l
			}
		}
		fi.loopOf[b] = best
	}
	for _, l := range fi.heads {
		for _, m := range fi.heads {
			if m != l && m.body[l.header] && (l.parent == nil || len(m.body) < len(l.parent.body)) {
				l.parent = m
			}
		}
	}
	// a nicer order: within RPO, make every loop contiguous (blocks of a loop before the blocks after it)
	fi.rpo = loopOrder(fi, fi.rpo)
	// liveness
	n := len(fi.vals)
	for _, b := range fn.Blocks {
		fi.live[b] = make([]bool, n)
	}
	for changed := true; changed; {
		changed = false
		for i := len(fi.rpo) - 1; i >= 0; i-- {
			b := fi.rpo[i]
			cur := make([]bool, n)
			for _, s := range b.Succs {
				pi := -1
				for k, p := range s.Preds {
					if p == b {
						pi = k
					}
				}
				for j, l := range fi.live[s] {
					if l {
						cur[j] = true
					}
				}
				for _, in := range s.Instrs {
					phi, ok := in.(*ssa.Phi)
					if !ok {
						break
					}
					cur[fi.num[phi]] = false
					_ = pi
				}
				for _, in := range s.Instrs {
					phi, ok := in.(*ssa.Phi)
					if !ok {
						break
					}
					for k, p := range s.Preds {
						if p == b {
							if j, ok := fi.num[phi.Edges[k]]; ok {
								cur[j] = true
							}
						}
					}
				}
			}
			for k := len(b.Instrs) - 1; k >= 0; k-- {
				in := b.Instrs[k]
				if _, ok := in.(*ssa.Phi); ok {
					continue // defined on the edge: live on entry to the block if used
				}
				if v, ok := in.(ssa.Value); ok {
					cur[fi.num[v]] = false
				}
				for _, op := range in.Operands(nil) {
					if *op != nil {
						if j, ok := fi.num[*op]; ok {
							cur[j] = true
						}
					}
				}
			}
			old := fi.live[b]
			for j := range cur {
				if cur[j] != old[j] {
					fi.live[b] = cur
					changed = true
					break
				}
			}
		}
	}
	return fi
}

// loopOrder keeps the relative order of rpo but places all blocks of a loop directly after its header.
func loopOrder(fi *fnInfo, rpo []*ssa.BasicBlock) []*ssa.BasicBlock {
	var out []*ssa.BasicBlock
	done := map[*ssa.BasicBlock]bool{}
	var emit func(within *loopInfo)
	emit = func(within *loopInfo) {
		for _, b := range rpo {
			if done[b] || within != nil && !within.body[b] {
				continue
			}
			done[b] = true
			out = append(out, b)
			if l := fi.heads[b]; l != nil && l != within {
				emit(l)
			}
		}
	}
	emit(nil)
	return out
}
