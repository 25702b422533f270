package main

import (
	"go/types"
	"sort"

	"golang.org/x/tools/go/ssa"
)

// call graph of the module: static calls, interface calls to every module
// implementation, calls of function values to every module function of that
// signature whose address is taken; calls into libraries with function values
// among the arguments call those.

type cgEdge struct {
	from, to *ssa.Function
	site     ssa.CallInstruction
}

type callGraph struct {
	out   map[*ssa.Function][]*cgEdge
	nodes []*ssa.Function
}

func (p *Program) callees(fn *ssa.Function, ci ssa.CallInstruction) []*ssa.Function {
	cc := ci.Common()
	if cc.IsInvoke() {
		return p.implsOf(cc)
	}
	if sc := cc.StaticCallee(); sc != nil {
		if p.inModule(sc) || sc.Synthetic != "" && len(sc.Blocks) > 0 {
			return []*ssa.Function{sc}
		}
		var res []*ssa.Function
		for _, a := range cc.Args {
			switch x := a.(type) {
			case *ssa.Function:
				if p.inModule(x) {
					res = append(res, x)
				}
			case *ssa.MakeClosure:
				res = append(res, x.Fn.(*ssa.Function))
			}
		}
		return res
	}
	if _, isB := cc.Value.(*ssa.Builtin); isB {
		return nil
	}
	var res []*ssa.Function
	for _, t := range p.addressTaken() {
		if types.Identical(t.Signature, cc.Signature()) {
			res = append(res, t)
		}
	}
	return res
}

func (p *Program) graph() *callGraph {
	g := &callGraph{out: map[*ssa.Function][]*cgEdge{}}
	seen := map[*ssa.Function]bool{}
	work := append([]*ssa.Function(nil), p.funcs...)
	for _, f := range work {
		seen[f] = true
	}
	for len(work) > 0 {
		f := work[0]
		work = work[1:]
		g.nodes = append(g.nodes, f)
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				ci, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				for _, t := range p.callees(f, ci) {
					g.out[f] = append(g.out[f], &cgEdge{f, t, ci})
					if !seen[t] {
						seen[t] = true
						work = append(work, t)
					}
				}
			}
		}
	}
	return g
}

func (g *callGraph) reach(roots ...*ssa.Function) map[*ssa.Function]bool {
	seen := map[*ssa.Function]bool{}
	work := append([]*ssa.Function(nil), roots...)
	for len(work) > 0 {
		f := work[len(work)-1]
		work = work[:len(work)-1]
		if f == nil || seen[f] {
			continue
		}
		seen[f] = true
		for _, e := range g.out[f] {
			work = append(work, e.to)
		}
	}
	return seen
}

// sccs returns the components with a cycle, of the graph with the kept edges.
func (g *callGraph) sccs(keep func(e *cgEdge) bool) [][]*ssa.Function {
	idx := map[*ssa.Function]int{}
	low := map[*ssa.Function]int{}
	on := map[*ssa.Function]bool{}
	var stack []*ssa.Function
	n := 0
	var res [][]*ssa.Function
	var visit func(f *ssa.Function)
	visit = func(f *ssa.Function) {
		n++
		idx[f], low[f] = n, n
		stack = append(stack, f)
		on[f] = true
		self := false
		for _, e := range g.out[f] {
			if !keep(e) {
				continue
			}
			if e.to == f {
				self = true
			}
			if idx[e.to] == 0 {
				visit(e.to)
				if low[e.to] < low[f] {
					low[f] = low[e.to]
				}
			} else if on[e.to] && idx[e.to] < low[f] {
				low[f] = idx[e.to]
			}
		}
		if low[f] == idx[f] {
			var c []*ssa.Function
			for {
				x := stack[len(stack)-1]
				stack = stack[:len(stack)-1]
				on[x] = false
				c = append(c, x)
				if x == f {
					break
				}
			}
			if len(c) > 1 || self {
				sort.Slice(c, func(i, j int) bool { return c[i].String() < c[j].String() })
				res = append(res, c)
			}
		}
	}
	for _, f := range g.nodes {
		if idx[f] == 0 {
			visit(f)
		}
	}
	return res
}
