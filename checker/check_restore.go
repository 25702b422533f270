package main

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// A routine of the parser that takes the children off a node of the document
// for a while (to parse the text of an entity) must put them back on every
// way out.

var t01Links = map[string]string{"setFirstChild": "FirstChild", "setLastChild": "LastChild"}

// linkCall: a call that sets the first or the last child of a node.
func linkCall(in ssa.Instruction) (name string, recv, val ssa.Value, ok bool) {
	ci, isCall := in.(ssa.CallInstruction)
	if !isCall {
		return
	}
	cc := ci.Common()
	if cc.IsInvoke() {
		if t01Links[cc.Method.Name()] != "" && len(cc.Args) == 1 {
			return cc.Method.Name(), cc.Value, cc.Args[0], true
		}
		return
	}
	if fn := cc.StaticCallee(); fn != nil && t01Links[fn.Name()] != "" && len(cc.Args) == 2 {
		return fn.Name(), cc.Args[0], cc.Args[1], true
	}
	return
}

// savedFrom: the call the value was saved from, through variables captured by
// a closure.
func savedFrom(v ssa.Value, seen map[ssa.Value]bool) *ssa.Call {
	if seen[v] {
		return nil
	}
	seen[v] = true
	switch x := v.(type) {
	case *ssa.Call:
		return x
	case *ssa.ChangeInterface:
		return savedFrom(x.X, seen)
	case *ssa.MakeInterface:
		return savedFrom(x.X, seen)
	case *ssa.UnOp:
		return savedFrom(x.X, seen)
	case *ssa.Alloc:
		var st *ssa.Store
		for _, u := range *x.Referrers() {
			if s, ok := u.(*ssa.Store); ok && s.Addr == x {
				if st != nil {
					return nil
				}
				st = s
			}
		}
		if st != nil {
			return savedFrom(st.Val, seen)
		}
	case *ssa.FreeVar:
		par := x.Parent().Parent()
		if par == nil {
			return nil
		}
		idx := -1
		for i, f := range x.Parent().FreeVars {
			if f == x {
				idx = i
			}
		}
		for _, b := range par.Blocks {
			for _, in := range b.Instrs {
				if mc, ok := in.(*ssa.MakeClosure); ok && mc.Fn == x.Parent() && idx >= 0 {
					return savedFrom(mc.Bindings[idx], seen)
				}
			}
		}
	}
	return nil
}

func getterName(c *ssa.Call) string {
	if c == nil {
		return ""
	}
	if c.Call.IsInvoke() {
		return c.Call.Method.Name()
	}
	if fn := c.Call.StaticCallee(); fn != nil {
		return fn.Name()
	}
	return ""
}

// canSkip: some way from just after the start leads to a return without
// passing one of the instructions.
func canSkip(start *ssa.BasicBlock, after int, stops map[ssa.Instruction]bool) ssa.Instruction {
	type at struct {
		b *ssa.BasicBlock
		i int
	}
	work, seen := []at{{start, after}}, map[*ssa.BasicBlock]bool{}
	for len(work) > 0 {
		w := work[len(work)-1]
		work = work[:len(work)-1]
		stopped := false
		for _, in := range w.b.Instrs[w.i:] {
			if stops[in] {
				stopped = true
				break
			}
			if _, ok := in.(*ssa.Return); ok {
				return in
			}
		}
		if stopped {
			continue
		}
		for _, s := range w.b.Succs {
			if !seen[s] {
				seen[s] = true
				work = append(work, at{s, 0})
			}
		}
	}
	return nil
}

func checkRestored(p *Program, r *Report) {
	ctx := p.typeNamed("parserCtx")
	n := 0
	for _, fn := range p.funcs {
		if fn.Signature.Recv() == nil || ctx == nil || !types.Identical(deref1(fn.Signature.Recv().Type()), ctx) || fn.Parent() != nil {
			continue
		}
		for set, get := range t01Links {
			type site struct {
				in ssa.Instruction
				fn *ssa.Function
			}
			var takes, puts []site
			for _, f := range append([]*ssa.Function{fn}, fn.AnonFuncs...) {
				for _, b := range f.Blocks {
					for _, in := range b.Instrs {
						name, _, v, ok := linkCall(in)
						if !ok || name != set {
							continue
						}
						if getterName(savedFrom(v, map[ssa.Value]bool{})) == get {
							puts = append(puts, site{in, f})
						} else if k, ok := v.(*ssa.Const); ok && k.IsNil() {
							takes = append(takes, site{in, f})
						}
					}
				}
			}
			if len(takes) == 0 {
				continue
			}
			n++
			key := shortFn(fn) + " " + set
			pos := p.instrPos(takes[0].in)
			r.fn(shortFn(fn))
			if len(puts) == 0 {
				r.undecided("document-restored", key, pos, "how the children taken off the node are put back is not known")
				continue
			}
			// what puts them back: the calls themselves, and the deferring of a
			// closure in which no way round the call exists
			stops := map[ssa.Instruction]bool{}
			bad := ""
			for _, f := range fn.AnonFuncs {
				in := map[ssa.Instruction]bool{}
				for _, q := range puts {
					if q.fn == f {
						in[q.in] = true
					}
				}
				if len(in) == 0 {
					continue
				}
				if ret := canSkip(f.Blocks[0], 0, in); ret != nil {
					bad = "what was taken is not put back on every way through the function deferred (" + p.instrPos(ret) + ")"
					continue
				}
				for _, b := range fn.Blocks {
					for _, i := range b.Instrs {
						if d, ok := i.(*ssa.Defer); ok {
							if mc, ok := d.Call.Value.(*ssa.MakeClosure); ok && mc.Fn == f {
								stops[i] = true
							}
						}
						if c, ok := i.(*ssa.Call); ok {
							if mc, ok := c.Call.Value.(*ssa.MakeClosure); ok && mc.Fn == f {
								stops[i] = true
							}
						}
					}
				}
			}
			for _, q := range puts {
				if q.fn == fn {
					stops[q.in] = true
				}
			}
			fail := ""
			for _, t := range takes {
				if t.fn != fn {
					continue
				}
				if deferredBefore(fn, t.in, stops) {
					continue
				}
				if ret := canSkip(t.in.Block(), instrIndex(t.in)+1, stops); ret != nil {
					fail = "the children taken off the node here are not put back before the return at " + p.instrPos(ret)
					pos = p.instrPos(t.in)
				}
			}
			if fail != "" && bad != "" {
				fail = bad
			}
			if fail != "" {
				r.fail("document-restored", key, pos, fail)
			} else {
				r.ok("document-restored", key, pos, "put back on every way out")
			}
		}
	}
	r.note("%d places that take the children off a node for a while", n)
}

// deferredBefore: a deferring of what puts them back comes before on every way.
func deferredBefore(fn *ssa.Function, in ssa.Instruction, stops map[ssa.Instruction]bool) bool {
	for s := range stops {
		if _, ok := s.(*ssa.Defer); ok && before(s, in) {
			return true
		}
	}
	return false
}

func deref1(t types.Type) types.Type {
	if pt, ok := t.Underlying().(*types.Pointer); ok {
		return pt.Elem()
	}
	return t
}
