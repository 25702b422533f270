package main

import (
	"fmt"
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// dynTypes finds the concrete types an interface value can hold, following
// it backwards through calls, fields and containers.
type dynTypes struct {
	p    *Program
	call map[*ssa.Function][]*cgEdge
	root map[*ssa.Function]bool
	fns  []*ssa.Function
	seen map[ssa.Value]bool
	set  map[string]types.Type
	bad  string
}

func (d *dynTypes) put(t types.Type) { d.set[t.String()] = t }

func (d *dynTypes) of(v ssa.Value) {
	if d.seen[v] || d.bad != "" {
		return
	}
	d.seen[v] = true
	if _, ok := v.Type().Underlying().(*types.Interface); !ok {
		d.put(v.Type())
		return
	}
	switch x := v.(type) {
	case *ssa.Const:
	case *ssa.MakeInterface:
		d.put(x.X.Type())
	case *ssa.ChangeInterface:
		d.of(x.X)
	case *ssa.ChangeType:
		d.of(x.X)
	case *ssa.Phi:
		for _, e := range x.Edges {
			d.of(e)
		}
	case *ssa.TypeAssert:
		d.of(x.X)
	case *ssa.Extract:
		switch t := x.Tuple.(type) {
		case *ssa.Call:
			d.result(t, x.Index)
		case *ssa.TypeAssert:
			d.of(t.X)
		case *ssa.Lookup:
			d.mapVal(t.X.Type())
		default:
			d.bad = "a value taken from a loop or channel"
		}
	case *ssa.Call:
		d.result(x, 0)
	case *ssa.Lookup:
		d.mapVal(x.X.Type())
	case *ssa.Parameter:
		d.param(x)
	case *ssa.UnOp:
		if x.Op == token.MUL {
			d.load(x.X)
			return
		}
		d.bad = "an operator"
	default:
		d.bad = fmt.Sprintf("%T", v)
	}
}

func (d *dynTypes) param(x *ssa.Parameter) {
	f := x.Parent()
	if d.root[f] || f.Parent() != nil || len(d.call[f]) == 0 {
		d.bad = "an argument given by the application"
		return
	}
	for _, g := range d.p.addressTaken() {
		if g == f {
			d.bad = "an argument of a function value"
			return
		}
	}
	for i, pa := range f.Params {
		if pa != x {
			continue
		}
		for _, e := range d.call[f] {
			if a := argOf(e.site.Common(), i); a != nil {
				d.of(a)
			} else {
				d.bad = "an argument that is not followed"
			}
		}
	}
}

func (d *dynTypes) result(c *ssa.Call, idx int) {
	if sc := c.Call.StaticCallee(); sc != nil && stdName(sc) == "sync.(*Pool).Get" {
		g, ok := c.Call.Args[0].(*ssa.Global)
		if !ok {
			d.bad = "a pool that is not followed"
			return
		}
		d.pool(g)
		return
	}
	cs := d.p.callees(c.Parent(), c)
	if len(cs) == 0 {
		d.bad = "the result of a function that is not followed"
		return
	}
	for _, g := range cs {
		if len(g.Blocks) == 0 || !d.p.inModule(g) {
			d.bad = "the result of " + shortFn(g)
			return
		}
		for _, blk := range g.Blocks {
			if r, ok := blk.Instrs[len(blk.Instrs)-1].(*ssa.Return); ok && blk != g.Recover && idx < len(r.Results) {
				d.of(spilled(r.Results[idx], r))
			}
		}
	}
}

// pool: what is put into it, and what its New function makes.
func (d *dynTypes) pool(g *ssa.Global) {
	n := 0
	for _, f := range d.fns {
		for _, blk := range f.Blocks {
			for _, in := range blk.Instrs {
				if c, ok := in.(ssa.CallInstruction); ok {
					if sc := c.Common().StaticCallee(); sc != nil && stdName(sc) == "sync.(*Pool).Put" && c.Common().Args[0] == ssa.Value(g) {
						d.of(c.Common().Args[1])
					}
				}
				st, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				fa, ok := st.Addr.(*ssa.FieldAddr)
				if !ok || fa.X != ssa.Value(g) && !copiedTo(fa.X, g) {
					continue
				}
				var nf *ssa.Function
				switch v := st.Val.(type) {
				case *ssa.Function:
					nf = v
				case *ssa.MakeClosure:
					nf, _ = v.Fn.(*ssa.Function)
				}
				if nf == nil {
					d.bad = "the New function of the pool"
					return
				}
				n++
				for _, b2 := range nf.Blocks {
					if r, ok := b2.Instrs[len(b2.Instrs)-1].(*ssa.Return); ok {
						d.of(r.Results[0])
					}
				}
			}
		}
	}
	if n == 0 {
		d.bad = "a pool without a New function"
	}
}

// copiedTo: a variable that is filled in and then assigned to g.
func copiedTo(v ssa.Value, g *ssa.Global) bool {
	al, ok := v.(*ssa.Alloc)
	if !ok {
		return false
	}
	for _, u := range *al.Referrers() {
		ld, ok := u.(*ssa.UnOp)
		if !ok || ld.Op != token.MUL {
			continue
		}
		for _, w := range *ld.Referrers() {
			if st, ok := w.(*ssa.Store); ok && st.Addr == ssa.Value(g) && st.Val == ssa.Value(ld) {
				return true
			}
		}
	}
	return false
}

func (d *dynTypes) mapVal(t types.Type) {
	for _, f := range d.fns {
		for _, blk := range f.Blocks {
			for _, in := range blk.Instrs {
				if mu, ok := in.(*ssa.MapUpdate); ok && types.Identical(mu.Map.Type().Underlying(), t.Underlying()) {
					d.of(mu.Value)
				}
			}
		}
	}
}

func (d *dynTypes) load(addr ssa.Value) {
	switch x := addr.(type) {
	case *ssa.FieldAddr:
		st := x.X.Type()
		for _, f := range d.fns {
			for _, blk := range f.Blocks {
				for _, in := range blk.Instrs {
					s, ok := in.(*ssa.Store)
					if !ok {
						continue
					}
					if fa, ok := s.Addr.(*ssa.FieldAddr); ok && fa.Field == x.Field && types.Identical(fa.X.Type(), st) {
						d.of(s.Val)
					}
				}
			}
		}
	case *ssa.IndexAddr:
		d.elem(x.X)
	case *ssa.Alloc:
		for _, u := range *x.Referrers() {
			switch s := u.(type) {
			case *ssa.Store:
				if s.Addr != ssa.Value(x) {
					d.bad = "a variable whose address is taken"
					return
				}
				d.of(s.Val)
			case *ssa.UnOp, *ssa.DebugRef:
			case *ssa.MakeClosure:
				d.bad = "a captured variable"
				return
			default:
				d.bad = "a variable whose address is taken"
				return
			}
		}
	default:
		d.bad = fmt.Sprintf("memory that is not followed (%T)", addr)
	}
}

// elem: what the elements of a slice can be.
func (d *dynTypes) elem(v ssa.Value) {
	if d.bad != "" {
		return
	}
	t := v.Type()
	if _, named := t.(*types.Named); named {
		d.elemOfType(t)
		return
	}
	if d.seen[v] {
		return
	}
	d.seen[v] = true
	switch x := v.(type) {
	case *ssa.Const:
	case *ssa.ChangeType:
		d.elem(x.X)
	case *ssa.Slice:
		d.elem(x.X)
	case *ssa.Phi:
		for _, e := range x.Edges {
			d.elem(e)
		}
	case *ssa.Parameter:
		f := x.Parent()
		if d.root[f] || f.Parent() != nil || len(d.call[f]) == 0 {
			d.bad = "a list given by the application"
			return
		}
		for i, pa := range f.Params {
			if pa == x {
				for _, e := range d.call[f] {
					if a := argOf(e.site.Common(), i); a != nil {
						d.elem(a)
					}
				}
			}
		}
	case *ssa.Alloc:
		for _, u := range *x.Referrers() {
			switch s := u.(type) {
			case *ssa.IndexAddr:
				for _, w := range *s.Referrers() {
					if st, ok := w.(*ssa.Store); ok && st.Addr == ssa.Value(s) {
						d.of(st.Val)
					}
				}
			case *ssa.Slice, *ssa.DebugRef, *ssa.UnOp:
			default:
				d.bad = "an array that is not followed"
				return
			}
		}
	case *ssa.Call:
		if bi, ok := x.Call.Value.(*ssa.Builtin); ok && bi.Name() == "append" {
			for _, a := range x.Call.Args {
				d.elem(a)
			}
			return
		}
		cs := d.p.callees(x.Parent(), x)
		if len(cs) == 0 {
			d.bad = "the result of a function that is not followed"
		}
		for _, g := range cs {
			if !d.p.inModule(g) || len(g.Blocks) == 0 {
				d.bad = "the result of " + shortFn(g)
				return
			}
			for _, blk := range g.Blocks {
				if r, ok := blk.Instrs[len(blk.Instrs)-1].(*ssa.Return); ok && blk != g.Recover {
					d.elem(spilled(r.Results[0], r))
				}
			}
		}
	default:
		d.bad = fmt.Sprintf("a list that is not followed (%T)", v)
	}
}

// elemOfType: everything that is ever appended to or stored in a list of this
// named type.
func (d *dynTypes) elemOfType(t types.Type) {
	n := 0
	for _, f := range d.fns {
		for _, blk := range f.Blocks {
			for _, in := range blk.Instrs {
				switch x := in.(type) {
				case *ssa.Call:
					if bi, ok := x.Call.Value.(*ssa.Builtin); ok && bi.Name() == "append" && types.Identical(x.Type(), t) && !d.seen[x] {
						n++
						d.seen[x] = true
						for _, a := range x.Call.Args[1:] {
							if !types.Identical(a.Type(), t) {
								d.elem(a)
							}
						}
					} else if d.seen[x] {
						n++
					}
				case *ssa.IndexAddr:
					if !types.Identical(x.X.Type(), t) {
						continue
					}
					for _, w := range *x.Referrers() {
						if st, ok := w.(*ssa.Store); ok && st.Addr == ssa.Value(x) {
							d.of(st.Val)
						}
					}
				case *ssa.ChangeType:
					if types.Identical(x.Type(), t) {
						if _, isC := x.X.(*ssa.Const); !isC {
							d.bad = "a list converted from another type"
						}
					}
				}
			}
		}
	}
	if n == 0 {
		d.bad = "a list nothing is appended to"
	}
}

// asserts: every type assertion that has no second result.
func (c *bCheck) asserts(fns []*ssa.Function) {
	for _, f := range fns {
		n := 0
		for _, blk := range f.Blocks {
			if blk == f.Recover {
				continue
			}
			for _, in := range blk.Instrs {
				ta, ok := in.(*ssa.TypeAssert)
				if !ok || ta.CommaOk {
					continue
				}
				n++
				c.r.fn(f.String())
				key := fmt.Sprintf("%s|%s#%d", shortFn(f), typeWord(ta.AssertedType), n)
				d := &dynTypes{p: c.p, call: c.call, root: c.root, fns: c.mod, seen: map[ssa.Value]bool{}, set: map[string]types.Type{}}
				d.of(ta.X)
				yes, no := 0, ""
				for _, k := range sortedKeys(d.set) {
					t := d.set[k]
					if it, isIf := ta.AssertedType.Underlying().(*types.Interface); isIf && types.Implements(t, it) || types.Identical(t, ta.AssertedType) {
						yes++
					} else {
						no = typeWord(t)
					}
				}
				pos := c.p.instrPos(ta)
				what := "assertion to " + typeWord(ta.AssertedType)
				b := c.bc.of(f)
				c.why, c.field = "", ""
				set, unclear := c.show(f, b.nn(ta.X).plus(-1), blk, 0)
				switch {
				case !set && !unclear && !assertedBefore(ta):
					c.r.fail("assertion", key, pos, what+": the value can be nil; "+c.why)
				case assertedBefore(ta):
					c.r.ok("assertion", key, pos, what)
				case no == "" && yes > 0 && d.bad == "":
					c.r.ok("assertion", key, pos, what)
				case no != "" && yes == 0 && d.bad == "" && !asked(ta):
					c.r.fail("assertion", key, pos, what+": the value can only be a "+no)
				case no != "":
					c.r.undecided("assertion", key, pos, what+": the value may also be a "+no+", which the analysis cannot tell apart")
				case d.bad != "":
					c.r.undecided("assertion", key, pos, what+": the value comes from "+d.bad)
				default:
					c.r.undecided("assertion", key, pos, what+": no value is ever given")
				}
			}
		}
	}
}

// assertedBefore: the same assertion was made with two results, and held.
func assertedBefore(ta *ssa.TypeAssert) bool {
	for d := ta.Block(); d != nil && d.Idom() != nil; d = d.Idom() {
		if len(d.Preds) != 1 {
			continue
		}
		pr := d.Preds[0]
		iff, ok := pr.Instrs[len(pr.Instrs)-1].(*ssa.If)
		if !ok || pr.Succs[0] != d || pr.Succs[1] == d {
			continue
		}
		if ex, ok := iff.Cond.(*ssa.Extract); ok && ex.Index == 1 {
			if t, ok := ex.Tuple.(*ssa.TypeAssert); ok && t.X == ta.X && types.Identical(t.AssertedType, ta.AssertedType) {
				return true
			}
		}
	}
	return false
}

// asked: a condition on the way looks at the value.
func asked(ta *ssa.TypeAssert) bool {
	roots := map[ssa.Value]bool{ta.X: true}
	for d := ta.Block(); d != nil; d = d.Idom() {
		for _, pr := range d.Preds {
			if iff, ok := pr.Instrs[len(pr.Instrs)-1].(*ssa.If); ok && mentions(iff.Cond, roots, 0, map[ssa.Value]bool{}) {
				return true
			}
		}
	}
	return false
}

// panicClient watches for explicit panics that a parse can reach.
type panicClient struct {
	baseClient
	r       *Report
	reached map[*ssa.Panic]string
}

func (c *panicClient) Panic(fr *Frame, st *State, in *ssa.Panic) {
	c.reached[in] = fr.chain()
}

func (c *bCheck) panics(fns []*ssa.Function) {
	cl := &panicClient{r: c.r, reached: map[*ssa.Panic]string{}}
	a, _ := parseRoot(c.p, c.r, cl, nil)
	if a == nil {
		return
	}
	for _, f := range fns {
		n := 0
		for _, blk := range f.Blocks {
			pn, ok := blk.Instrs[len(blk.Instrs)-1].(*ssa.Panic)
			if !ok {
				continue
			}
			n++
			key := fmt.Sprintf("%s#%d", shortFn(f), n)
			pos := c.p.instrPos(pn)
			if path, bad := cl.reached[pn]; bad {
				c.r.fail("panic", key, pos, "this call of panic is reached: "+path)
			} else if a.overflow != "" || a.fnSeen[f] == 0 {
				c.r.undecided("panic", key, pos, "the analysis does not get to this function")
			} else {
				c.r.ok("panic", key, pos, "no path gets here")
			}
		}
	}
}
