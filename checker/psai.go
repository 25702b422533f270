package main

import (
	"golang.org/x/tools/go/ssa"
)

// baseClient does nothing; property clients embed it.
type baseClient struct{}

func (baseClient) Panic(fr *Frame, st *State, in *ssa.Panic) {}
func (baseClient) Event(fr *Frame, st *State, method string, args []AVal, in ssa.CallInstruction) {
}
func (baseClient) AfterEvent(fr *Frame, st *State, method string, class int)                       {}
func (baseClient) Advance(fr *Frame, st *State, in ssa.CallInstruction, ok bool, why string)       {}
func (baseClient) Consumed(fr *Frame, st *State, in ssa.CallInstruction, chars *Set)               {}
func (baseClient) LoopStall(fr *Frame, st *State, header *ssa.BasicBlock, from *ssa.BasicBlock)    {}
func (baseClient) Return(fr *Frame, st *State, in *ssa.Return, res []AVal)                         {}
func (baseClient) AfterCall(fr *Frame, st *State, in ssa.CallInstruction, f *ssa.Function, res []AVal) {
}
func (baseClient) Enter(fr *Frame, st *State)                                                     {}
func (baseClient) TypeAssert(fr *Frame, st *State, in *ssa.TypeAssert, ok int)                     {}
func (baseClient) NilDeref(fr *Frame, st *State, in ssa.Instruction, what string, definite bool)   {}

func (baseClient) Branch(fr *Frame, st *State, in *ssa.If, taken bool) {}

// hits collects reports during one fixpoint round.
type hits struct {
	bad  map[string]hit
	good map[string]hit
}
type hit struct{ rule, key, pos, detail string }

func (h *hits) reset() { h.bad, h.good = map[string]hit{}, map[string]hit{} }
func (h *hits) fail(rule, key, pos, detail string) {
	k := rule + "|" + key
	if _, ok := h.bad[k]; !ok {
		h.bad[k] = hit{rule, key, pos, detail}
	}
}
func (h *hits) ok(rule, key, pos string) {
	k := rule + "|" + key
	if _, ok := h.good[k]; !ok {
		h.good[k] = hit{rule, key, pos, ""}
	}
}
func (h *hits) flush(r *Report) {
	for _, k := range sortedKeys(h.bad) {
		x := h.bad[k]
		r.fail(x.rule, x.key, x.pos, x.detail)
	}
	for _, k := range sortedKeys(h.good) {
		x := h.good[k]
		r.ok(x.rule, x.key, x.pos, "")
	}
}

// parseRoot analyses Parser.Parse and everything it reaches.
func parseRoot(p *Program, r *Report, cl Client, setup func(a *Analysis)) (*Analysis, *summary) {
	fn := p.method("", "Parser", "Parse")
	if fn == nil {
		r.fail("anchor", "Parser.Parse", "?", "entry point not found")
		return nil, nil
	}
	a := newAnalysis(p, cl)
	a.tracked = map[string]bool{"instate": true, "inSubset": true, "sax": true, "external": true}
	a.havoc = map[string]bool{}
	if setup != nil {
		setup(a)
	}
	s := a.Run(fn, func() (*State, []AVal) {
		st := newState()
		return st, []AVal{vCell(st.fresh(single(1))), vTop}
	})
	if a.overflow != "" {
		r.undecided("checker", "analysis of Parser.Parse", "?", a.overflow)
	}
	for f := range a.fnSeen {
		r.fn(shortFn(f))
	}
	r.stats["abstract_steps"] = a.steps
	r.stats["calls_inlined"] = a.nCalls
	r.stats["function_summaries"] = len(a.memo)
	return a, s
}
