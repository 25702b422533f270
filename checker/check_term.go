package main

import (
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C01", "proof",
		"every loop strictly decreases a measure on each way around it (input left, a counter below an invariant bound, the length of a slice, what is left in a reader, the rest of a linked chain), and every cycle of the call graph contains a call that does (input left, a depth counter below a constant limit, descent in the tree)",
		checkTerm,
		"library calls end; linked chains of a tree are acyclic (D01)")
	register("C04", "proof",
		"every cycle of the call graph among the functions parsing reaches passes a depth counter that is compared with a constant limit on every call, and nested contexts inherit the counters; descents along a finished tree are bounded by the depth of that tree",
		checkDepth,
		"trees are only as deep as the parser nested them")
}

// ---------------------------------------------------------------- guards

type depthGuard struct {
	fn    *ssa.Function
	field string // context field, or
	param int    // index of the depth parameter
	limit int64
	pos   string
	sites map[ssa.CallInstruction]bool // the calls made only below the limit (nil: see edges)
}

// limitTest finds tests "depth > constant" in f: the value tested, the limit
// and the block in which the depth is within the limit.
type limitTest struct {
	v     ssa.Value
	limit int64
	below *ssa.BasicBlock
	test  *ssa.BasicBlock
	in    ssa.Instruction
}

func limitTests(f *ssa.Function) []limitTest {
	var res []limitTest
	for _, b := range f.Blocks {
		if len(b.Instrs) == 0 {
			continue
		}
		ifi, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
		if !ok {
			continue
		}
		bo, ok := ifi.Cond.(*ssa.BinOp)
		if !ok {
			continue
		}
		x, y, op := bo.X, bo.Y, bo.Op
		if c, ok := x.(*ssa.Const); ok && c.Value != nil && c.Value.Kind() == constant.Int {
			x, y = y, x
			switch op {
			case token.LSS:
				op = token.GTR
			case token.LEQ:
				op = token.GEQ
			case token.GTR:
				op = token.LSS
			case token.GEQ:
				op = token.LEQ
			}
		}
		c, ok := y.(*ssa.Const)
		if !ok || c.Value == nil || c.Value.Kind() != constant.Int {
			continue
		}
		n, _ := constant.Int64Val(c.Value)
		switch op {
		case token.GTR, token.GEQ:
			res = append(res, limitTest{x, n, b.Succs[1], b, bo})
		case token.LSS, token.LEQ:
			res = append(res, limitTest{x, n, b.Succs[0], b, bo})
		}
	}
	return res
}

// onlyBelow: block b is reached only with the depth within the limit.
func (t limitTest) onlyBelow(b *ssa.BasicBlock) bool {
	return len(t.below.Preds) == 1 && t.below.Dominates(b)
}

func baseInt(v ssa.Value) (ssa.Value, int64) {
	off := int64(0)
	for {
		switch x := v.(type) {
		case *ssa.BinOp:
			if c, ok := x.Y.(*ssa.Const); ok && c.Value != nil && c.Value.Kind() == constant.Int {
				n, _ := constant.Int64Val(c.Value)
				if x.Op == token.ADD {
					off += n
					v = x.X
					continue
				}
				if x.Op == token.SUB {
					off -= n
					v = x.X
					continue
				}
			}
			if c, ok := x.X.(*ssa.Const); ok && x.Op == token.ADD && c.Value != nil && c.Value.Kind() == constant.Int {
				n, _ := constant.Int64Val(c.Value)
				off += n
				v = x.Y
				continue
			}
		case *ssa.Convert:
			v = x.X
			continue
		}
		return v, off
	}
}

// paramGuard: call e passes the depth parameter increased, and is made only
// while the depth is below a constant.
func paramGuard(e *cgEdge) (*depthGuard, bool) {
	if e.from != e.to || e.site.Common().IsInvoke() {
		return nil, false
	}
	for _, t := range limitTests(e.from) {
		v, _ := baseInt(t.v)
		pa, ok := v.(*ssa.Parameter)
		if !ok || !t.onlyBelow(e.site.Block()) {
			continue
		}
		for i, fp := range e.from.Params {
			if fp != pa || i >= len(e.site.Common().Args) {
				continue
			}
			av, off := baseInt(e.site.Common().Args[i])
			if av == pa && off >= 1 {
				return &depthGuard{fn: e.from, param: i, limit: t.limit}, true
			}
		}
	}
	return nil, false
}

// ctxField: v is a load of an integer field of a parser context.
func (p *Program) ctxField(v ssa.Value) (string, ssa.Value) {
	u, ok := v.(*ssa.UnOp)
	if !ok || u.Op != token.MUL {
		return "", nil
	}
	fa, ok := u.X.(*ssa.FieldAddr)
	if !ok || !p.isCtxPtr(fa.X.Type()) {
		return "", nil
	}
	return fieldName(fa.X.Type(), fa.Field), derefCell(fa.X)
}

func derefCell(v ssa.Value) ssa.Value {
	if u, ok := v.(*ssa.UnOp); ok && u.Op == token.MUL {
		if a, ok := u.X.(*ssa.Alloc); ok {
			// a captured variable assigned once
			var st ssa.Value
			n := 0
			for _, r := range *a.Referrers() {
				if s, ok := r.(*ssa.Store); ok && s.Addr == a {
					st = s.Val
					n++
				}
			}
			if n == 1 {
				return st
			}
		}
	}
	return v
}

func (p *Program) isCtxPtr(t types.Type) bool {
	pt, ok := t.Underlying().(*types.Pointer)
	if !ok {
		return false
	}
	n := namedOf(pt.Elem())
	return n != nil && n.Obj().Name() == "parserCtx"
}

// stores of f to integer fields of a context.
type fieldStore struct {
	st    *ssa.Store
	field string
	base  ssa.Value
}

func (p *Program) ctxStores(f *ssa.Function) []fieldStore {
	var res []fieldStore
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			st, ok := in.(*ssa.Store)
			if !ok {
				continue
			}
			fa, ok := st.Addr.(*ssa.FieldAddr)
			if !ok || !p.isCtxPtr(fa.X.Type()) || !isIntType(st.Val.Type()) {
				continue
			}
			res = append(res, fieldStore{st, fieldName(fa.X.Type(), fa.Field), derefCell(fa.X)})
		}
	}
	return res
}

func instrIndex(in ssa.Instruction) int {
	for i, x := range in.Block().Instrs {
		if x == in {
			return i
		}
	}
	return -1
}

func before(a, b ssa.Instruction) bool {
	if a.Block() == b.Block() {
		return instrIndex(a) < instrIndex(b)
	}
	return a.Block().Dominates(b.Block())
}

// fieldGuard: the call at site is made only after a counter of the context was
// increased and found within a constant limit, in the function itself or in
// a helper it calls on the way.
func (p *Program) fieldGuards(f *ssa.Function, site ssa.Instruction, depth int) []depthGuard {
	var res []depthGuard
	for _, fs := range p.ctxStores(f) {
		lf, base := "", ssa.Value(nil)
		v, off := baseInt(fs.st.Val)
		lf, base = p.ctxField(v)
		if lf != fs.field || off < 1 || base != fs.base {
			continue
		}
		if site != nil && !before(fs.st, site) {
			continue
		}
		for _, t := range limitTests(f) {
			tv, _ := baseInt(t.v)
			tf, tb := p.ctxField(tv)
			if !(tf == fs.field && tb == fs.base) && baseOf(fs.st.Val) != tv {
				continue
			}
			if site != nil {
				if t.onlyBelow(site.Block()) {
					res = append(res, depthGuard{fn: f, field: fs.field, limit: t.limit, pos: p.pos(t.in.Pos())})
				}
				continue
			}
			// a helper: beyond the limit it returns an error
			other := t.test.Succs[0]
			if other == t.below {
				other = t.test.Succs[1]
			}
			if returnsError(other) {
				res = append(res, depthGuard{fn: f, field: fs.field, limit: t.limit, pos: p.pos(t.in.Pos())})
			}
		}
	}
	if site != nil && depth < 3 {
		// helpers called on the way whose error is checked
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				c, ok := in.(*ssa.Call)
				if !ok || !before(c, site) {
					continue
				}
				h := c.Call.StaticCallee()
				if h == nil || !p.inModule(h) || h == f {
					continue
				}
				if !isErrorType(lastResult(h)) || !nilErrorOnly(c, site.Block()) {
					continue
				}
				for _, g := range p.fieldGuards(h, nil, depth+1) {
					g.fn = f
					res = append(res, g)
				}
			}
		}
	}
	return res
}

func baseOf(v ssa.Value) ssa.Value { b, _ := baseInt(v); return b }

func lastResult(f *ssa.Function) types.Type {
	r := f.Signature.Results()
	if r.Len() == 0 {
		return types.Typ[types.Invalid]
	}
	return r.At(r.Len() - 1).Type()
}

// nilErrorOnly: block b is only reached when the error of call c is nil.
func nilErrorOnly(c *ssa.Call, b *ssa.BasicBlock) bool {
	errs := map[ssa.Value]bool{c: true}
	for _, r := range *c.Referrers() {
		if e, ok := r.(*ssa.Extract); ok && isErrorType(e.Type()) {
			errs[e] = true
		}
	}
	for d := b.Idom(); d != nil; d = d.Idom() {
		ifi, ok := d.Instrs[len(d.Instrs)-1].(*ssa.If)
		if !ok {
			continue
		}
		bo, ok := ifi.Cond.(*ssa.BinOp)
		if !ok || !errs[bo.X] || !isNilConst(bo.Y) {
			continue
		}
		nilSucc := d.Succs[1]
		if bo.Op == token.EQL {
			nilSucc = d.Succs[0]
		}
		if len(nilSucc.Preds) == 1 && nilSucc.Dominates(b) {
			return true
		}
	}
	return false
}

// returnsError: from b on, only returns with an error are reached.
func returnsError(b *ssa.BasicBlock) bool {
	seen := map[*ssa.BasicBlock]bool{}
	ok := true
	var walk func(b *ssa.BasicBlock)
	walk = func(b *ssa.BasicBlock) {
		if seen[b] {
			return
		}
		seen[b] = true
		if r, is := b.Instrs[len(b.Instrs)-1].(*ssa.Return); is {
			if len(r.Results) == 0 || !errNonNil(spilled(r.Results[len(r.Results)-1], r), b) {
				ok = false
			}
		}
		for _, s := range b.Succs {
			walk(s)
		}
	}
	walk(b)
	return ok
}

// structural: the call descends in the tree: its receiver or an argument is a
// child or a sibling of the caller's own node.
func (p *Program) structural(e *cgEdge) bool {
	cc := e.site.Common()
	var cands []ssa.Value
	if cc.IsInvoke() {
		cands = append(cands, cc.Value)
	}
	cands = append(cands, cc.Args...)
	for _, v := range cands {
		if p.descends(v, map[ssa.Value]bool{}, 0) == 2 {
			return true
		}
	}
	return false
}

// descends: 2 when the value is reached from a parameter by at least one link,
// 1 when it is a parameter, 0 otherwise.
func (p *Program) descends(v ssa.Value, seen map[ssa.Value]bool, depth int) int {
	if seen[v] || depth > 30 {
		return 3 // no constraint
	}
	seen[v] = true
	defer delete(seen, v)
	switch x := v.(type) {
	case *ssa.Parameter, *ssa.FreeVar:
		return 1
	case *ssa.MakeInterface:
		return p.descends(x.X, seen, depth+1)
	case *ssa.ChangeInterface:
		return p.descends(x.X, seen, depth+1)
	case *ssa.TypeAssert:
		return p.descends(x.X, seen, depth+1)
	case *ssa.Extract:
		return p.descends(x.Tuple, seen, depth+1)
	case *ssa.Alloc:
		// a local copy of a receiver
		for _, r := range *x.Referrers() {
			if st, ok := r.(*ssa.Store); ok && st.Addr == x {
				return p.descends(st.Val, seen, depth+1)
			}
		}
	case *ssa.UnOp:
		if fa, ok := x.X.(*ssa.FieldAddr); ok {
			n := p.descends(fa.X, seen, depth+1)
			if n == 0 {
				return 0
			}
			if embeddedField(fa.X.Type(), fa.Field) || !chainType(x.Type()) {
				return n
			}
			switch fieldName(fa.X.Type(), fa.Field) {
			case "parent", "doc", "prev", "last", "lastChild":
				return 0
			}
			return 2
		}
		return p.descends(x.X, seen, depth+1)
	case *ssa.FieldAddr:
		if embeddedField(x.X.Type(), x.Field) {
			return p.descends(x.X, seen, depth+1)
		}
	case *ssa.Field:
		n := p.descends(x.X, seen, depth+1)
		if n == 0 || embeddedField(x.X.Type(), x.Field) {
			return n
		}
		switch fieldName(x.X.Type(), x.Field) {
		case "parent", "doc", "prev", "last", "lastChild":
			return 0
		}
		return 2
	case *ssa.Call:
		if f := p.linkGetter(x); f == "firstChild" || f == "next" || f == "properties" {
			var recv ssa.Value
			if x.Call.IsInvoke() {
				recv = x.Call.Value
			} else {
				recv = x.Call.Args[0]
			}
			if p.descends(recv, seen, depth+1) != 0 {
				return 2
			}
		}
	case *ssa.Phi:
		res := 3
		for _, e := range x.Edges {
			if isNilConst(e) {
				continue
			}
			n := p.descends(e, seen, depth+1)
			if n < res {
				res = n
			}
		}
		return res
	}
	return 0
}

// ---------------------------------------------------------------- PSAI client

type termClient struct {
	baseClient
	stall    map[string]bool // fn name|block
	seen     map[string]bool
	noInput  map[*cgKey]bool
	edges    map[cgKey]bool // edge -> some state without progress
	switches map[cgKey]bool
}

type cgKey struct {
	in ssa.CallInstruction
	to *ssa.Function
}

func (c *termClient) Reset() {
	c.stall, c.seen = map[string]bool{}, map[string]bool{}
	c.edges, c.switches = map[cgKey]bool{}, map[cgKey]bool{}
}

func loopKey(f *ssa.Function, b *ssa.BasicBlock) string { return f.String() + "|" + itoa(b.Index) }

func (c *termClient) LoopStall(fr *Frame, st *State, h, from *ssa.BasicBlock) {
	c.stall[loopKey(fr.fn, h)] = true
}

func (c *termClient) BeforeCall(fr *Frame, st *State, in ssa.CallInstruction, fn *ssa.Function) {
	k := cgKey{in, fn}
	if st.ghost[gProg] == 0 {
		c.edges[k] = true
	} else if _, ok := c.edges[k]; !ok {
		c.edges[k] = false
	}
}

// ---------------------------------------------------------------- checks

type recEdge struct {
	e      *cgEdge
	guard  *depthGuard
	input  bool
	strct  bool
	newCtx bool
}

func (p *Program) inCmd(f *ssa.Function) bool {
	pk := fnPkg(f)
	return pk == nil || strings.Contains(pk.Path(), "/cmd/") || strings.Contains(pk.Path(), "/internal/cliutil")
}

// allocatesCtx: contexts created in f.
func (p *Program) allocatesCtx(f *ssa.Function) []*ssa.Alloc {
	var res []*ssa.Alloc
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if a, ok := in.(*ssa.Alloc); ok && p.isCtxPtr(a.Type()) {
				res = append(res, a)
			}
		}
	}
	return res
}

// ctxOfCall: the call gets a context that is not the caller's own.
func (p *Program) foreignCtx(e *cgEdge) bool {
	for _, a := range e.site.Common().Args {
		if !p.isCtxPtr(a.Type()) {
			continue
		}
		v := derefCell(a)
		switch v.(type) {
		case *ssa.Parameter, *ssa.FreeVar:
			return false
		}
		if u, ok := v.(*ssa.UnOp); ok {
			if _, ok := u.X.(*ssa.FreeVar); ok {
				return false
			}
		}
		return true
	}
	return false
}

// inherits: before the call the new context's counter was set from the
// caller's context.
func (p *Program) inherits(f *ssa.Function, field string, site ssa.Instruction) bool {
	for _, fs := range p.ctxStores(f) {
		if fs.field != field || !before(fs.st, site) {
			continue
		}
		v, off := baseInt(fs.st.Val)
		lf, base := p.ctxField(v)
		if lf == field && off >= 0 && base != fs.base {
			return true
		}
	}
	// in a helper that makes the new context
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			c, ok := in.(*ssa.Call)
			if !ok || !before(c, site) {
				continue
			}
			h := c.Call.StaticCallee()
			if h == nil || !p.inModule(h) || h == f {
				continue
			}
			for _, fs := range p.ctxStores(h) {
				if fs.field != field {
					continue
				}
				v, off := baseInt(fs.st.Val)
				lf, base := p.ctxField(v)
				if lf == field && off >= 0 && base != fs.base {
					return true
				}
			}
		}
	}
	return false
}

// guardFor finds the depth guard of a call inside a recursion.
func (p *Program) guardFor(e *cgEdge) *depthGuard {
	if g, ok := paramGuard(e); ok {
		g.pos = p.pos(e.site.Pos())
		return g
	}
	for _, g := range p.fieldGuards(e.from, e.site, 0) {
		g := g
		return &g
	}
	return nil
}

func checkTerm(p *Program, r *Report) {
	cl := &termClient{}
	a, _ := parseRoot(p, r, cl, func(a *Analysis) { a.progress = true })
	if a == nil {
		return
	}
	// loops
	for _, f := range p.funcs {
		if p.inCmd(f) {
			continue
		}
		if irreducible(f) {
			r.fail("loop-ends", shortFn(f), p.pos(f.Pos()), "control flow with a cycle that is not a loop")
			continue
		}
		ls := naturalLoops(f)
		n := map[string]int{}
		for _, l := range ls {
			key := shortFn(f)
			n[key]++
			key += "#" + itoa(n[key])
			ok, why := p.rankLoop(l, ls)
			if ok {
				r.ok("loop-ends", key, p.loopPos(l), why)
				continue
			}
			if a.fnSeen[f] > 0 && !cl.stall[loopKey(f, l.head)] {
				r.ok("loop-ends", key, p.loopPos(l), "consumes input on every way around")
				continue
			}
			d := "a way around the loop consumes no input and decreases no other measure"
			if a.fnSeen[f] == 0 {
				d = "no measure decreases on every way around the loop"
			}
			r.fail("loop-ends", key, p.loopPos(l), d)
		}
	}
	r.min("loop-ends", 50)
	// recursion
	g := p.graph()
	p.recursion(r, g, nil, func(e *cgEdge) bool {
		np, ok := cl.edges[cgKey{e.site, e.to}]
		return ok && !np
	}, false)
	r.min("recursion-ends", 4)
}

func (p *Program) recursion(r *Report, g *callGraph, within map[*ssa.Function]bool, input func(e *cgEdge) bool, depthOnly bool) {
	rule := "recursion-ends"
	if depthOnly {
		rule = "nesting-limited"
	}
	inScope := func(e *cgEdge) bool { return within == nil || within[e.from] && within[e.to] }
	guards := map[*cgEdge]*depthGuard{}
	comps := g.sccs(inScope)
	inComp := map[*ssa.Function]int{}
	for i, c := range comps {
		for _, f := range c {
			inComp[f] = i + 1
		}
	}
	cut := map[*cgEdge]bool{}
	for _, c := range comps {
		for _, f := range c {
			for _, e := range g.out[f] {
				if inComp[e.to] != inComp[f] {
					continue
				}
				if gd := p.guardFor(e); gd != nil {
					guards[e] = gd
					cut[e] = true
					if gd.limit > 1<<16 {
						r.fail(rule, "limit in "+shortFn(f), gd.pos, "the limit is too large to bound the stack")
					}
				}
			}
		}
	}
	// a counter in the context only counts if nested contexts inherit it
	fields := map[string]bool{}
	for _, gd := range guards {
		if gd.field != "" {
			fields[gd.field] = true
		}
	}
	badField := map[string]bool{}
	for _, c := range comps {
		for _, f := range c {
			for _, e := range g.out[f] {
				if inComp[e.to] != inComp[f] || !p.foreignCtx(e) {
					continue
				}
				for _, fld := range sortedKeys(fields) {
					key := fld + " in " + shortFn(f)
					if p.inherits(f, fld, e.site) {
						r.ok(rule, "nested context inherits "+key, p.instrPos(e.site), "")
					} else if depthOnly {
						r.fail(rule, "nested context inherits "+key, p.instrPos(e.site), "the nested context starts counting anew")
					} else {
						badField[fld] = true
					}
				}
			}
		}
	}
	// stores that decrease a counter elsewhere than in a deferred function
	for _, f := range g.nodes {
		for _, fs := range p.ctxStores(f) {
			if !fields[fs.field] {
				continue
			}
			v, off := baseInt(fs.st.Val)
			lf, base := p.ctxField(v)
			switch {
			case lf == fs.field && off >= 0:
			case lf == fs.field && base == fs.base && off == -1:
			case f.Name() == "init" || f.Name() == "release":
			default:
				r.fail(rule, "counter "+fs.field+" in "+shortFn(f), p.instrPos(fs.st), "the depth counter is overwritten")
			}
		}
	}
	for e, gd := range guards {
		if badField[gd.field] && gd.field != "" {
			delete(cut, e)
		}
	}
	left := g.sccs(func(e *cgEdge) bool { return inScope(e) && !cut[e] })
	leftComp := map[*ssa.Function]int{}
	for i, c := range left {
		for _, f := range c {
			leftComp[f] = i + 1
		}
	}
	second := func(e *cgEdge) bool {
		if cut[e] || !inScope(e) {
			return false
		}
		if leftComp[e.from] != 0 && leftComp[e.from] == leftComp[e.to] {
			if p.structural(e) {
				return false
			}
			if !depthOnly && input(e) && !p.foreignCtx(e) {
				return false
			}
		}
		return true
	}
	if !depthOnly {
		for _, c := range left {
			for _, f := range c {
				for _, e := range g.out[f] {
					if leftComp[e.to] == leftComp[f] && !cut[e] && p.foreignCtx(e) {
						r.fail(rule, shortFn(f), p.instrPos(e.site), "parsing a nested text can come back here without a limit on the nesting")
					}
				}
			}
		}
	}
	bad := map[*ssa.Function]bool{}
	for _, c := range g.sccs(second) {
		var names []string
		for _, f := range c {
			bad[f] = true
			names = append(names, shortFn(f))
		}
		if len(names) > 8 {
			names = append(names[:8], "...")
		}
		pos := p.pos(c[0].Pos())
		d := "a recursion (" + strings.Join(names, ", ") + ") without a measure that decreases"
		if depthOnly {
			d = "a recursion (" + strings.Join(names, ", ") + ") that no constant limits"
		}
		r.fail(rule, shortFn(c[0]), pos, d)
	}
	for _, c := range comps {
		ok := true
		var gs []string
		for _, f := range c {
			if bad[f] {
				ok = false
			}
			for _, e := range g.out[f] {
				if gd := guards[e]; gd != nil {
					s := gd.field
					if s == "" {
						s = "parameter of " + shortFn(f)
					}
					s += " <= " + itoa(int(gd.limit))
					gs = append(gs, s)
				}
			}
		}
		if ok {
			sort.Strings(gs)
			gs = uniq(gs)
			d := "descends in the tree"
			if len(gs) > 0 {
				d = strings.Join(gs, "; ")
			}
			r.ok(rule, shortFn(c[0]), p.pos(c[0].Pos()), d)
		}
		for _, f := range c {
			r.fn(shortFn(f))
		}
	}
}

func uniq(l []string) []string {
	var res []string
	for i, s := range l {
		if i == 0 || s != l[i-1] {
			res = append(res, s)
		}
	}
	return res
}

func checkDepth(p *Program, r *Report) {
	root := p.method("", "Parser", "Parse")
	if root == nil {
		r.fail("anchor", "Parser.Parse", "?", "entry point not found")
		return
	}
	g := p.graph()
	p.recursion(r, g, g.reach(root), func(e *cgEdge) bool { return false }, true)
	r.min("nesting-limited", 4)
}
