package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Bounds: a relational analysis of the integers of a function and of the
// lengths of its strings and slices.  What holds at a point is what the
// branches on the way there have established, what is known of the operations
// that made the values, and invariants of loop heads, which are found by
// assuming a set of candidate inequalities and dropping those that are not
// established on entry or not kept by a round until the rest is inductive.
// Whether inequalities follow is decided by eliminating variables
// (Fourier and Motzkin).

// what is followed of a value: the integer itself (0 or 1 for a boolean), the
// length of a string or slice, and whether it is not nil (0 or 1)
const (
	aInt = iota
	aLen
	aNN
	aNE // a string that is not empty (0 or 1)
)

type bKey struct {
	v    ssa.Value
	kind int
}

type bVar struct {
	id  int
	key bKey
}

type lin struct {
	c map[int]int64
	k int64
}

func lconst(k int64) lin { return lin{k: k} }
func (a lin) add(b lin, f int64) lin {
	r := lin{c: map[int]int64{}, k: a.k + f*b.k}
	for v, n := range a.c {
		r.c[v] = n
	}
	for v, n := range b.c {
		r.c[v] += f * n
		if r.c[v] == 0 {
			delete(r.c, v)
		}
	}
	return r
}
func (a lin) plus(k int64) lin { return a.add(lconst(k), 1) }

func (a lin) str() string {
	var ks []int
	for v := range a.c {
		ks = append(ks, v)
	}
	sort.Ints(ks)
	var sb strings.Builder
	for _, v := range ks {
		fmt.Fprintf(&sb, "%+d*x%d", a.c[v], v)
	}
	fmt.Fprintf(&sb, "%+d", a.k)
	return sb.String()
}

// bFact: a disjunction of conjunctions of inequalities (each lin ≥ 0).
type bFact [][]lin

type bounds struct {
	p     *Program
	f     *ssa.Function
	vars  []*bVar
	byKey map[bKey]*bVar
	inv   map[*ssa.BasicBlock][]lin
	loops map[*ssa.BasicBlock]*natLoop
	canon map[ssa.Value]ssa.Value
	sums  func(g *ssa.Function) *bSummary
	steps int
}

func newBounds(p *Program, f *ssa.Function) *bounds {
	b := &bounds{p: p, f: f, byKey: map[bKey]*bVar{}, inv: map[*ssa.BasicBlock][]lin{}, loops: map[*ssa.BasicBlock]*natLoop{}, canon: map[ssa.Value]ssa.Value{}}
	for _, l := range naturalLoops(f) {
		b.loops[l.head] = l
	}
	return b
}

func (b *bounds) v(v ssa.Value, kind int) lin {
	if w, ok := b.canon[v]; ok {
		v = w
	} else {
		w := b.p.sameLoad(v)
		b.canon[v] = w
		v = w
	}
	k := bKey{v, kind}
	x := b.byKey[k]
	if x == nil {
		x = &bVar{len(b.vars), k}
		b.vars = append(b.vars, x)
		b.byKey[k] = x
	}
	return lin{c: map[int]int64{x.id: 1}}
}

// sameLoad: a load of memory that has not changed since an earlier load.
func (p *Program) sameLoad(v ssa.Value) ssa.Value {
	ld, ok := v.(*ssa.UnOp)
	if !ok || ld.Op != token.MUL {
		return v
	}
	if al, ok := ld.X.(*ssa.Alloc); ok {
		if st := storedOnce(al); st != nil && (st.Block() == ld.Block() && instrIndex(st) < instrIndex(ld) || st.Block() != ld.Block() && st.Block().Dominates(ld.Block())) {
			return st.Val
		}
	}
	first := ssa.Value(v)
	blk := ld.Block()
	i := instrIndex(ld) - 1
	for n := 0; n < 12; n++ {
		for ; i >= 0; i-- {
			switch x := blk.Instrs[i].(type) {
			case *ssa.UnOp:
				if x.Op == token.MUL && sameAddr2(x.X, ld.X) {
					first = x
				}
			case *ssa.Store:
				if sameAddr2(x.Addr, ld.X) {
					if first == v {
						return x.Val
					}
					return x.Val
				}
				if mayAliasAddr(x.Addr, ld.X) {
					return first
				}
			case ssa.CallInstruction:
				if p.mayStore(x, ld.X) {
					return first
				}
			}
		}
		up, ok := p.above(blk, ld.X)
		if !ok {
			return first
		}
		blk = up
		i = len(blk.Instrs) - 1
	}
	return first
}

// above: the block before, or the one that dominates a join if nothing on the
// ways between can change the memory.
func (p *Program) above(blk *ssa.BasicBlock, addr ssa.Value) (*ssa.BasicBlock, bool) {
	if len(blk.Preds) == 1 {
		return blk.Preds[0], true
	}
	dom := blk.Idom()
	if dom == nil {
		return nil, false
	}
	seen := map[*ssa.BasicBlock]bool{dom: true}
	work := append([]*ssa.BasicBlock(nil), blk.Preds...)
	for len(work) > 0 {
		x := work[len(work)-1]
		work = work[:len(work)-1]
		if seen[x] {
			continue
		}
		seen[x] = true
		for _, in := range x.Instrs {
			switch y := in.(type) {
			case *ssa.Store:
				if sameAddr2(y.Addr, addr) || mayAliasAddr(y.Addr, addr) {
					return nil, false
				}
			case ssa.CallInstruction:
				if p.mayStore(y, addr) {
					return nil, false
				}
			}
		}
		work = append(work, x.Preds...)
	}
	return dom, true
}

func sameAddr2(a, b ssa.Value) bool {
	if a == b {
		return true
	}
	switch x := a.(type) {
	case *ssa.FieldAddr:
		y, ok := b.(*ssa.FieldAddr)
		return ok && x.Field == y.Field && types.Identical(x.X.Type(), y.X.Type()) && (x.X == y.X || sameAddr2(x.X, y.X))
	case *ssa.UnOp:
		// a variable that never changes
		y, ok := b.(*ssa.UnOp)
		if !ok || x.Op != token.MUL || y.Op != token.MUL || x.X != y.X {
			return false
		}
		v := x.X
		if fv, ok := v.(*ssa.FreeVar); ok {
			_, v = binding(fv)
		}
		al, ok := v.(*ssa.Alloc)
		return ok && storedOnce(al) != nil
	}
	return false
}

func mayAliasAddr(a, b ssa.Value) bool {
	x, ok1 := a.(*ssa.FieldAddr)
	y, ok2 := b.(*ssa.FieldAddr)
	if ok1 && ok2 {
		return x.Field == y.Field && types.Identical(x.X.Type(), y.X.Type())
	}
	if p1, p2 := variable(a), variable(b); (p1 != nil || p2 != nil) && p1 != p2 {
		return false
	}
	_, al1 := detRoot(a).(*ssa.Alloc)
	_, al2 := detRoot(b).(*ssa.Alloc)
	if al1 != al2 && al1 && !escapes(detRoot(a).(*ssa.Alloc)) {
		return false
	}
	if al1 != al2 && al2 && !escapes(detRoot(b).(*ssa.Alloc)) {
		return false
	}
	return types.Identical(a.Type(), b.Type())
}

func escapes(a *ssa.Alloc) bool {
	if a.Referrers() == nil {
		return true
	}
	for _, u := range *a.Referrers() {
		switch x := u.(type) {
		case *ssa.Store:
			if x.Val == a {
				return true
			}
		case *ssa.UnOp, *ssa.FieldAddr, *ssa.IndexAddr, *ssa.DebugRef:
		default:
			return true
		}
	}
	return false
}

// mayStore: the call may change what addr holds.
func (p *Program) mayStore(ci ssa.CallInstruction, addr ssa.Value) bool {
	cc := ci.Common()
	if _, ok := cc.Value.(*ssa.Builtin); ok {
		return false
	}
	if _, ok := ci.(*ssa.Defer); ok {
		return false
	}
	if al, ok := detRoot(addr).(*ssa.Alloc); ok && !escapes(al) {
		return false
	}
	if al := variable(addr); al != nil {
		// only the closures that have it can change it
		ws := map[*ssa.Function]bool{}
		writers(al, *al.Referrers(), ws)
		if len(ws) == 0 {
			return false
		}
		for _, g := range p.callees(ci.Parent(), ci) {
			if p.reachesAny(g, ws) {
				return true
			}
		}
		return false
	}
	if cc.IsInvoke() && len(p.implsOf(cc)) == 0 {
		if fa, ok := addr.(*ssa.FieldAddr); ok {
			if n := namedOf(fa.X.Type()); n != nil && n.Obj().Pkg() != nil && strings.HasPrefix(n.Obj().Pkg().Path(), p.mod) {
				return false
			}
		}
	}
	if sc := cc.StaticCallee(); sc != nil && !p.inModule(sc) {
		// libraries do not know the types of the module
		if fa, ok := addr.(*ssa.FieldAddr); ok {
			if n := namedOf(fa.X.Type()); n != nil && n.Obj().Pkg() != nil && strings.HasPrefix(n.Obj().Pkg().Path(), p.mod) {
				return len(p.callees(ci.Parent(), ci)) > 0
			}
		}
		if n := stdName(sc); strings.HasPrefix(n, "strings.") || strings.HasPrefix(n, "unicode") || strings.HasPrefix(n, "errors.") || strings.HasPrefix(n, "strconv.") || n == "bytes.HasPrefix" || n == "bytes.IndexByte" {
			return false
		}
		return true
	}
	seen := map[*ssa.Function]bool{}
	var stores func(f *ssa.Function) bool
	stores = func(f *ssa.Function) bool {
		if seen[f] {
			return false
		}
		seen[f] = true
		if len(f.Blocks) == 0 {
			return true
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case *ssa.Store:
					if al, ok := detRoot(x.Addr).(*ssa.Alloc); ok && !escapes(al) {
						continue
					}
					fa, ok1 := addr.(*ssa.FieldAddr)
					fb, ok2 := x.Addr.(*ssa.FieldAddr)
					if ok1 && ok2 && (fa.Field != fb.Field || !types.Identical(fa.X.Type(), fb.X.Type())) {
						continue
					}
					if types.Identical(x.Addr.Type(), addr.Type()) {
						return true
					}
				case ssa.CallInstruction:
					if _, ok := x.Common().Value.(*ssa.Builtin); ok {
						continue
					}
					if sc := x.Common().StaticCallee(); sc != nil && !p.inModule(sc) && len(p.callees(f, x)) == 0 {
						continue
					}
					cs := p.callees(f, x)
					if len(cs) == 0 {
						return true
					}
					for _, g := range cs {
						if stores(g) {
							return true
						}
					}
				}
			}
		}
		return false
	}
	cs := p.callees(ci.Parent(), ci)
	if len(cs) == 0 {
		return true
	}
	for _, g := range cs {
		if stores(g) {
			return true
		}
	}
	return false
}

func wideInt(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return false
	}
	switch b.Kind() {
	case types.Int, types.Int64, types.UntypedInt, types.Int32, types.UntypedRune:
		return true
	}
	return false
}

func isInt(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

// of: the integer as a linear expression.
func (b *bounds) of(v ssa.Value) lin {
	switch x := v.(type) {
	case *ssa.Const:
		if x.Value != nil && x.Value.Kind() == constant.Bool {
			if constant.BoolVal(x.Value) {
				return lconst(1)
			}
			return lconst(0)
		}
		if x.Value != nil && isInt(x.Type()) {
			if n, ok := constant.Int64Val(constant.ToInt(x.Value)); ok {
				return lconst(n)
			}
		}
	case *ssa.BinOp:
		if !wideInt(x.Type()) {
			break
		}
		switch x.Op {
		case token.ADD:
			return b.of(x.X).add(b.of(x.Y), 1)
		case token.SUB:
			return b.of(x.X).add(b.of(x.Y), -1)
		case token.MUL:
			l, r := b.of(x.X), b.of(x.Y)
			if len(r.c) == 0 {
				l, r = r, l
			}
			if len(l.c) == 0 && l.k > -1000 && l.k < 1000 {
				return lconst(0).add(r, l.k)
			}
		}
	case *ssa.Convert:
		if isInt(x.X.Type()) && isInt(x.Type()) {
			from, to := x.X.Type().Underlying().(*types.Basic), x.Type().Underlying().(*types.Basic)
			if wideInt(x.Type()) && intWidth(from) <= intWidth(to) && !(from.Info()&types.IsUnsigned != 0 && intWidth(from) == 64) {
				return b.of(x.X)
			}
		}
	case *ssa.ChangeType:
		return b.of(x.X)
	case *ssa.Call:
		if bi, ok := x.Call.Value.(*ssa.Builtin); ok && bi.Name() == "len" {
			return b.length(x.Call.Args[0])
		}
		if bi, ok := x.Call.Value.(*ssa.Builtin); ok && (bi.Name() == "min" || bi.Name() == "max") {
			break
		}
		// a getter of the length, such as Len()
		if e, ok := b.getter(x); ok {
			return e
		}
	}
	return b.v(v, aInt)
}

// getter: the result of a function that only computes an expression of its
// arguments.
func (b *bounds) getter(c *ssa.Call) (lin, bool) {
	g := c.Call.StaticCallee()
	if g == nil || !b.p.inModule(g) || len(g.Blocks) != 1 || g.Signature.Results().Len() != 1 {
		return lin{}, false
	}
	ret, ok := g.Blocks[0].Instrs[len(g.Blocks[0].Instrs)-1].(*ssa.Return)
	if !ok {
		return lin{}, false
	}
	cl, ok := ret.Results[0].(*ssa.Call)
	if !ok {
		return lin{}, false
	}
	bi, ok := cl.Call.Value.(*ssa.Builtin)
	if !ok || bi.Name() != "len" {
		// a getter of a getter
		if in := cl.Call.StaticCallee(); in != nil && b.p.inModule(in) && len(cl.Call.Args) == 1 && len(g.Params) == 1 && cl.Call.Args[0] == g.Params[0] {
			return lin{}, false
		}
		return lin{}, false
	}
	arg := cl.Call.Args[0]
	for i, pa := range g.Params {
		if arg == pa {
			return b.length(c.Call.Args[i]), true
		}
		if ld, ok := arg.(*ssa.UnOp); ok && ld.Op == token.MUL && ld.X == pa {
			// *s of a pointer argument: the value last loaded from or stored there
			if w := b.p.loadAt(c, c.Call.Args[i]); w != nil {
				return b.length(w), true
			}
			return b.v(c, aInt), true
		}
	}
	return lin{}, false
}

// loadAt: the value that *addr has at the instruction, if it was loaded or
// stored before and has not changed since.
func (p *Program) loadAt(at ssa.Instruction, addr ssa.Value) ssa.Value {
	blk := at.Block()
	i := instrIndex(at) - 1
	for n := 0; n < 12; n++ {
		for ; i >= 0; i-- {
			switch x := blk.Instrs[i].(type) {
			case *ssa.UnOp:
				if x.Op == token.MUL && sameAddr2(x.X, addr) {
					return p.sameLoad(x)
				}
			case *ssa.Store:
				if sameAddr2(x.Addr, addr) {
					return x.Val
				}
				if mayAliasAddr(x.Addr, addr) {
					return nil
				}
			case ssa.CallInstruction:
				if p.mayStore(x, addr) {
					return nil
				}
			}
		}
		up, ok := p.above(blk, addr)
		if !ok {
			return nil
		}
		blk = up
		i = len(blk.Instrs) - 1
	}
	return nil
}

func intWidth(b *types.Basic) int {
	switch b.Kind() {
	case types.Int8, types.Uint8:
		return 8
	case types.Int16, types.Uint16:
		return 16
	case types.Int32, types.Uint32, types.UntypedRune:
		return 32
	}
	return 64
}

func arrayLen(t types.Type) (int64, bool) {
	if pt, ok := t.Underlying().(*types.Pointer); ok {
		t = pt.Elem()
	}
	if a, ok := t.Underlying().(*types.Array); ok {
		return a.Len(), true
	}
	return 0, false
}

// length: of a string, slice, array or map, as a linear expression.
func (b *bounds) length(v ssa.Value) lin {
	if n, ok := arrayLen(v.Type()); ok {
		return lconst(n)
	}
	switch x := v.(type) {
	case *ssa.Const:
		if x.Value == nil {
			return lconst(0)
		}
		if x.Value.Kind() == constant.String {
			return lconst(int64(len(constant.StringVal(x.Value))))
		}
	case *ssa.Slice:
		lo, hi := lconst(0), lin{}
		if x.Low != nil {
			lo = b.of(x.Low)
		}
		if x.High != nil {
			hi = b.of(x.High)
		} else {
			hi = b.length(x.X)
		}
		return hi.add(lo, -1)
	case *ssa.MakeSlice:
		return b.of(x.Len)
	case *ssa.ChangeType:
		return b.length(x.X)
	case *ssa.Convert:
		f, t := x.X.Type().Underlying(), x.Type().Underlying()
		if isStr(f) && isByteSlice(t) || isByteSlice(f) && isStr(t) || isStr(f) && isStr(t) || isByteSlice(f) && isByteSlice(t) {
			return b.length(x.X)
		}
	case *ssa.BinOp:
		if x.Op == token.ADD && isStr(x.Type().Underlying()) {
			return b.length(x.X).add(b.length(x.Y), 1)
		}
	case *ssa.UnOp:
		if x.Op == token.MUL {
			if w := b.p.sameLoad(x); w != v {
				return b.length(w)
			}
			if g, ok := x.X.(*ssa.Global); ok {
				if s, ok := b.p.globalBytes(g); ok {
					return lconst(int64(len(s)))
				}
			}
		}
	case *ssa.Call:
		if bi, ok := x.Call.Value.(*ssa.Builtin); ok && bi.Name() == "append" {
			r := b.length(x.Call.Args[0])
			if len(x.Call.Args) > 1 {
				r = r.add(b.length(x.Call.Args[1]), 1)
			}
			return r
		}
	}
	return b.v(v, aLen)
}

func isStr(t types.Type) bool {
	b, ok := t.(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

func isByteSlice(t types.Type) bool {
	s, ok := t.(*types.Slice)
	if !ok {
		return false
	}
	b, ok := s.Elem().Underlying().(*types.Basic)
	return ok && b.Kind() == types.Uint8
}

// ---- facts about values ----

// about: what is known of a variable because of the way it was made.
func (b *bounds) about(id int) (fs []bFact) {
	x := b.vars[id]
	me := lin{c: map[int]int64{id: 1}}
	conj := func(l ...lin) { fs = append(fs, bFact{l}) }
	if x.key.kind == aNN {
		conj(me)
		conj(lconst(1).add(me, -1))
		b.aboutNN(x.key.v, me, &fs)
		return
	}
	if x.key.kind == aNE {
		conj(me)
		conj(lconst(1).add(me, -1))
		l := b.length(x.key.v)
		fs = append(fs, bFact{{me.plus(-1), l.plus(-1)}, {lconst(0).add(me, -1), l, lconst(0).add(l, -1)}})
		return
	}
	if x.key.kind == aLen {
		conj(me)
		switch v := x.key.v.(type) {
		case *ssa.Call:
			b.callLen(v, 0, me, &fs)
		case *ssa.Extract:
			if c, ok := v.Tuple.(*ssa.Call); ok {
				b.callLen(c, v.Index, me, &fs)
			}
		}
		return
	}
	if bt, ok := x.key.v.Type().Underlying().(*types.Basic); ok {
		if bt.Info()&types.IsUnsigned != 0 {
			conj(me)
		}
		if bt.Info()&types.IsBoolean != 0 {
			conj(me)
			conj(lconst(1).add(me, -1))
		}
		if bt.Kind() == types.Uint8 {
			conj(lconst(255).add(me, -1))
		}
		if bt.Kind() == types.Uint16 {
			conj(lconst(65535).add(me, -1))
		}
	}
	switch v := x.key.v.(type) {
	case *ssa.BinOp:
		switch v.Op {
		case token.AND:
			for _, o := range []ssa.Value{v.X, v.Y} {
				if c, ok := o.(*ssa.Const); ok && c.Value != nil {
					if n, ok := constant.Int64Val(constant.ToInt(c.Value)); ok && n >= 0 {
						conj(me)
						conj(lconst(n).add(me, -1))
					}
				}
			}
		case token.REM:
			if c, ok := v.Y.(*ssa.Const); ok && c.Value != nil {
				if n, ok := constant.Int64Val(constant.ToInt(c.Value)); ok && n > 0 {
					conj(lconst(n-1).add(me, -1))
					fs = append(fs, bFact{{me}, {b.of(v.X).add(lconst(1), -1).add(b.of(v.X), -2)}})
				}
			}
		case token.QUO, token.SHR:
			l := b.of(v.X)
			fs = append(fs, bFact{{me, l.add(me, -1), l}, {lconst(-1).add(l, -1)}})
		}
	case *ssa.Extract:
		switch t := v.Tuple.(type) {
		case *ssa.Next:
			if rg, ok := t.Iter.(*ssa.Range); ok && t.IsString && v.Index == 1 {
				conj(me)
				conj(b.length(rg.X).add(me, -1).plus(-1))
			}
		case *ssa.Call:
			b.callInt(t, v.Index, me, &fs)
		}
	case *ssa.Call:
		b.callInt(v, 0, me, &fs)
	}
	return
}

func (b *bounds) callLen(c *ssa.Call, idx int, me lin, fs *[]bFact) {
	sc := c.Call.StaticCallee()
	if sc != nil && !b.p.inModule(sc) {
		n := stdName(sc)
		conj := func(l ...lin) { *fs = append(*fs, bFact{l}) }
		switch n {
		case "strings.Split", "bytes.Split", "strings.SplitAfter":
			if s, ok := c.Call.Args[1].(*ssa.Const); ok && s.Value != nil && s.Value.Kind() == constant.String && constant.StringVal(s.Value) != "" {
				conj(me.plus(-1))
			}
		case "strings.TrimSpace", "strings.Trim", "strings.TrimLeft", "strings.TrimRight", "strings.TrimPrefix", "strings.TrimSuffix",
			"bytes.TrimSpace", "bytes.Trim", "bytes.TrimLeft", "bytes.TrimRight", "bytes.TrimPrefix", "bytes.TrimSuffix",
			"strings.TrimFunc", "strings.TrimLeftFunc", "strings.TrimRightFunc":
			conj(b.length(c.Call.Args[0]).add(me, -1))
		}
		return
	}
	b.callSum(c, fs)
}

func (b *bounds) callInt(c *ssa.Call, idx int, me lin, fs *[]bFact) {
	conj := func(l ...lin) { *fs = append(*fs, bFact{l}) }
	if bi, ok := c.Call.Value.(*ssa.Builtin); ok {
		switch bi.Name() {
		case "cap":
			conj(me.add(b.length(c.Call.Args[0]), -1))
		case "copy":
			conj(me)
			for _, a := range c.Call.Args {
				conj(b.length(a).add(me, -1))
			}
		case "min":
			for _, a := range c.Call.Args {
				conj(b.of(a).add(me, -1))
			}
			var alt bFact
			for _, a := range c.Call.Args {
				alt = append(alt, []lin{b.of(a).add(me, -1), me.add(b.of(a), -1)})
			}
			*fs = append(*fs, alt)
		case "max":
			for _, a := range c.Call.Args {
				conj(me.add(b.of(a), -1))
			}
		}
		return
	}
	sc := c.Call.StaticCallee()
	if sc != nil && !b.p.inModule(sc) {
		n := stdName(sc)
		if i := strings.IndexByte(n, '.'); i > 0 && (n[:i] == "strings" || n[:i] == "bytes") {
			fn := n[i+1:]
			switch {
			case strings.HasPrefix(fn, "Index") || strings.HasPrefix(fn, "LastIndex"):
				l := b.length(c.Call.Args[0])
				w := lconst(1)
				if fn == "Index" || fn == "LastIndex" {
					w = b.length(c.Call.Args[1])
				}
				*fs = append(*fs, bFact{{me.plus(1), lconst(-1).add(me, -1)}, {me, l.add(me, -1).add(w, -1)}})
			case fn == "Count":
				conj(me)
			}
			if fn == "(*Buffer).Len" || fn == "(*Builder).Len" || fn == "(*Reader).Len" {
				conj(me)
			}
			if fn == "(*Buffer).Len" {
				// the length of what Bytes returns at the same moment is not followed
			}
			return
		}
		switch n {
		case "unicode/utf8.DecodeRune", "unicode/utf8.DecodeRuneInString", "unicode/utf8.DecodeLastRune", "unicode/utf8.DecodeLastRuneInString":
			if idx == 1 {
				l := b.length(c.Call.Args[0])
				*fs = append(*fs, bFact{{me, lconst(0).add(me, -1), lconst(0).add(l, -1)}, {me.plus(-1), lconst(4).add(me, -1), l.add(me, -1)}})
			}
		case "unicode/utf8.RuneLen":
			// of a character that is known to be valid: see valid
			lo := int64(-1)
			if b.p.validRune(c.Call.Args[0], c) {
				lo = 1
			}
			conj(me.plus(-lo))
			conj(lconst(4).add(me, -1))
		case "unicode/utf8.EncodeRune":
			conj(me.plus(-1))
			conj(lconst(4).add(me, -1))
		case "unicode/utf8.RuneCount", "unicode/utf8.RuneCountInString":
			conj(me)
			conj(b.length(c.Call.Args[0]).add(me, -1))
		}
		return
	}
	b.callSum(c, fs)
}

// ---- facts about points ----

func (b *bounds) condFacts(v ssa.Value, want bool, depth int) []bFact {
	fs := b.condFacts1(v, want, depth)
	switch x := v.(type) {
	case *ssa.Phi, *ssa.Extract, *ssa.Call, *ssa.Parameter:
		l := b.of(v)
		if !want {
			l = lconst(0).add(l, -1)
		} else {
			l = l.plus(-1)
		}
		fs = append(fs, bFact{{l}})
	case *ssa.BinOp:
		op := x.Op
		o := x.X
		if isNilConst(o) {
			o = x.Y
		} else if !isNilConst(x.Y) {
			break
		}
		if op == token.EQL || op == token.NEQ {
			l := b.nn(o)
			if (op == token.EQL) == want {
				l = lconst(0).add(l, -1)
			} else {
				l = l.plus(-1)
			}
			fs = append(fs, bFact{{l}})
		}
	}
	return fs
}

func (b *bounds) condFacts1(v ssa.Value, want bool, depth int) []bFact {
	if depth > 6 {
		return nil
	}
	switch x := v.(type) {
	case *ssa.UnOp:
		if x.Op == token.NOT {
			return b.condFacts(x.X, !want, depth+1)
		}
	case *ssa.BinOp:
		op := x.Op
		if isInt(x.X.Type()) {
			l, r := b.of(x.X), b.of(x.Y)
			d := l.add(r, -1) // l - r
			n := lconst(0).add(d, -1)
			if !want {
				op = map[token.Token]token.Token{token.LSS: token.GEQ, token.GEQ: token.LSS, token.GTR: token.LEQ, token.LEQ: token.GTR, token.EQL: token.NEQ, token.NEQ: token.EQL}[op]
			}
			switch op {
			case token.LSS:
				return []bFact{{{n.plus(-1)}}}
			case token.LEQ:
				return []bFact{{{n}}}
			case token.GTR:
				return []bFact{{{d.plus(-1)}}}
			case token.GEQ:
				return []bFact{{{d}}}
			case token.EQL:
				return []bFact{{{d, n}}}
			case token.NEQ:
				return []bFact{{{d.plus(-1)}, {n.plus(-1)}}}
			}
		}
		if isStr(x.X.Type().Underlying()) {
			eq := op == token.EQL && want || op == token.NEQ && !want
			ne := op == token.NEQ && want || op == token.EQL && !want
			l, r := b.length(x.X), b.length(x.Y)
			switch {
			case eq && len(r.c) == 0 && r.k == 0:
				return []bFact{{{l, lconst(0).add(l, -1), lconst(0).add(b.ne(x.X), -1)}}}
			case eq:
				return []bFact{{{l.add(r, -1), r.add(l, -1)}}}
			case ne && len(r.c) == 0 && r.k == 0:
				return []bFact{{{l.plus(-1), b.ne(x.X).plus(-1)}}}
			case ne && len(l.c) == 0 && l.k == 0:
				return []bFact{{{r.plus(-1)}}}
			}
		}
		// a slice compared with nil
		if _, ok := x.X.Type().Underlying().(*types.Slice); ok {
			if c, ok := x.Y.(*ssa.Const); ok && c.IsNil() && (op == token.EQL) == want {
				l := b.length(x.X)
				return []bFact{{{l, lconst(0).add(l, -1)}}}
			}
		}
		// the error of a call
		if isErrorType(x.X.Type()) {
			if c, ok := x.Y.(*ssa.Const); ok && c.IsNil() && (op == token.EQL) == want {
				return b.okFacts(x.X, "nil")
			}
		}
	case *ssa.Phi:
		if _, loop := b.loops[x.Block()]; loop {
			return nil
		}
		var alts bFact
		for i, e := range x.Edges {
			if c, ok := e.(*ssa.Const); ok && c.Value != nil && c.Value.Kind() == constant.Bool && constant.BoolVal(c.Value) != want {
				continue
			}
			pr := x.Block().Preds[i]
			var conj []lin
			for _, f := range append(b.edgeFacts(pr, x.Block()), b.condFacts(e, want, depth+1)...) {
				if len(f) == 1 {
					conj = append(conj, f[0]...)
				}
			}
			// what the block before has established beyond what dominates the phi
			for d := pr; d != nil && d != x.Block().Idom(); d = d.Idom() {
				for _, f := range b.entryFacts(d) {
					if len(f) == 1 {
						conj = append(conj, f[0]...)
					}
				}
			}
			alts = append(alts, conj)
		}
		if len(alts) > 0 && len(alts) <= 4 {
			return []bFact{alts}
		}
	case *ssa.Call:
		if sc := x.Call.StaticCallee(); sc != nil && !b.p.inModule(sc) {
			switch stdName(sc) {
			case "strings.HasPrefix", "strings.HasSuffix", "bytes.HasPrefix", "bytes.HasSuffix", "strings.Contains", "bytes.Contains":
				if want {
					return []bFact{{{b.length(x.Call.Args[0]).add(b.length(x.Call.Args[1]), -1)}}}
				}
			case "strings.ContainsRune", "strings.ContainsAny", "bytes.ContainsRune", "bytes.ContainsAny":
				if want {
					return []bFact{{{b.length(x.Call.Args[0]).plus(-1)}}}
				}
			}
			return nil
		}
		w := "false"
		if want {
			w = "true"
		}
		return b.okFacts(x, w)
	case *ssa.Extract:
		if ta, ok := x.Tuple.(*ssa.TypeAssert); ok && x.Index == 1 {
			if want {
				return []bFact{{{b.nn(ta.X).plus(-1)}}}
			}
			return nil
		}
		w := "false"
		if want {
			w = "true"
		}
		return b.okFacts(x, w)
	}
	return nil
}

// entryFacts: what the branch that leads into the block establishes.
func (b *bounds) entryFacts(x *ssa.BasicBlock) []bFact {
	if len(x.Preds) != 1 {
		return nil
	}
	return b.edgeFacts(x.Preds[0], x)
}

func (b *bounds) edgeFacts(from, to *ssa.BasicBlock) []bFact {
	if len(from.Instrs) == 0 {
		return nil
	}
	iff, ok := from.Instrs[len(from.Instrs)-1].(*ssa.If)
	if !ok || from.Succs[0] == from.Succs[1] {
		return nil
	}
	return b.condFacts(iff.Cond, from.Succs[0] == to, 0)
}

// at: what holds when the block is entered (and stays so).
func (b *bounds) at(x *ssa.BasicBlock) (fs []bFact) {
	for d := x; d != nil; d = d.Idom() {
		fs = append(fs, b.entryFacts(d)...)
		for _, l := range b.inv[d] {
			fs = append(fs, bFact{{l}})
		}
	}
	fs = append(fs, b.apart(x)...)
	return
}

// apart: two places of a string that hold different characters are not the
// same place.
func (b *bounds) apart(x *ssa.BasicBlock) (fs []bFact) {
	type know struct {
		s, i ssa.Value
		c    int64
		eq   bool
	}
	var ks []know
	for d := x; d != nil && d.Idom() != nil; d = d.Idom() {
		if len(d.Preds) != 1 {
			continue
		}
		pr := d.Preds[0]
		iff, ok := pr.Instrs[len(pr.Instrs)-1].(*ssa.If)
		if !ok || pr.Succs[0] == pr.Succs[1] {
			continue
		}
		bo, ok := iff.Cond.(*ssa.BinOp)
		if !ok || bo.Op != token.EQL && bo.Op != token.NEQ {
			continue
		}
		cv, ok := bo.Y.(*ssa.Const)
		if !ok || cv.Value == nil || !isInt(cv.Type()) {
			continue
		}
		eq := (bo.Op == token.EQL) == (pr.Succs[0] == d)
		switch e := bo.X.(type) {
		case *ssa.Lookup:
			ks = append(ks, know{e.X, e.Index, cint(cv), eq})
		case *ssa.Index:
			ks = append(ks, know{e.X, e.Index, cint(cv), eq})
		}
	}
	for i, k := range ks {
		for _, m := range ks[:i] {
			if k.s == m.s && (k.eq && m.eq && k.c != m.c || k.eq != m.eq && k.c == m.c) {
				d := b.of(k.i).add(b.of(m.i), -1)
				fs = append(fs, bFact{{d.plus(-1)}, {lconst(-1).add(d, -1)}})
			}
		}
	}
	return
}

// ---- entailment ----

// prove: goal ≥ 0 follows at the point in block x.
func (b *bounds) prove(goal lin, x *ssa.BasicBlock, extra []bFact) bool {
	return b.proveFrom(goal, append(b.at(x), extra...), x, 0) || b.inductive(goal, x, extra)
}

// inductive: the goal holds each time a loop is entered and after each turn,
// with what is said of the parameters in extra.
func (b *bounds) inductive(goal lin, x *ssa.BasicBlock, extra []bFact) bool {
	var h *ssa.BasicBlock
	for id := range goal.c {
		if ph, ok := b.vars[id].key.v.(*ssa.Phi); ok && b.loops[ph.Block()] != nil && (ph.Block() == x || ph.Block().Dominates(x)) {
			if h == nil || h.Dominates(ph.Block()) {
				h = ph.Block()
			}
		}
	}
	if h == nil || len(extra) == 0 {
		return false
	}
	for id := range goal.c {
		v := b.vars[id].key.v
		if ph, ok := v.(*ssa.Phi); ok && ph.Block() == h {
			continue
		}
		if in, ok := v.(ssa.Instruction); ok && b.loops[h].body[in.Block()] {
			return false
		}
	}
	var pars []bFact
	for _, f := range extra {
		ok := true
		for _, c := range f {
			for _, l := range c {
				for id := range l.c {
					if _, pa := b.vars[id].key.v.(*ssa.Parameter); !pa {
						ok = false
					}
				}
			}
		}
		if ok {
			pars = append(pars, f)
		}
	}
	if len(pars) == 0 {
		return false
	}
	for i, pr := range h.Preds {
		g := b.subst(goal, h, i)
		fs := append(b.at(pr), b.edgeFacts(pr, h)...)
		fs = append(fs, pars...)
		if b.loops[h].body[pr] {
			fs = append(fs, bFact{{goal}})
		}
		if !b.proveFrom(g, fs, pr, 1) {
			return false
		}
	}
	return true
}

func (b *bounds) proveFrom(goal lin, fs []bFact, x *ssa.BasicBlock, depth int) bool {
	if len(goal.c) == 0 {
		if goal.k >= 0 {
			return true
		}
	}
	neg := lconst(-1).add(goal, -1)
	if b.refute([]lin{neg}, fs, goal) {
		return true
	}
	if depth >= 3 {
		return false
	}
	// case split over the ways into a join
	for _, ph := range b.joins(goal, fs, x) {
		blk := ph.Block()
		all := true
		for i, pr := range blk.Preds {
			nf := append([]bFact(nil), fs...)
			nf = append(nf, b.phiEqs(blk, i)...)
			nf = append(nf, b.edgeFacts(pr, blk)...)
			for d := pr; d != nil && d != blk.Idom(); d = d.Idom() {
				nf = append(nf, b.entryFacts(d)...)
				for _, l := range b.inv[d] {
					nf = append(nf, bFact{{l}})
				}
			}
			if !b.proveFrom(goal, nf, blk.Idom(), depth+1) {
				all = false
				break
			}
		}
		if all {
			return true
		}
		if depth == 0 {
			continue
		}
		break
	}
	return false
}

// phiEqs: the values the phis of a block have when entered by the i-th way.
func (b *bounds) phiEqs(blk *ssa.BasicBlock, i int) (fs []bFact) {
	for _, in := range blk.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		for _, kind := range []int{aInt, aLen, aNN, aNE} {
			x := b.byKey[bKey{ph, kind}]
			if x == nil {
				continue
			}
			me := lin{c: map[int]int64{x.id: 1}}
			e := b.get(ph.Edges[i], kind)
			fs = append(fs, bFact{{me.add(e, -1), e.add(me, -1)}})
		}
	}
	return
}

// joins: phis that are not at loop heads among the variables that matter.
func (b *bounds) joins(goal lin, fs []bFact, x *ssa.BasicBlock) (res []*ssa.Phi) {
	seen := map[*ssa.BasicBlock]bool{}
	var ids []int
	for id := range goal.c {
		ids = append(ids, id)
	}
	rel := map[int]bool{}
	for _, id := range ids {
		rel[id] = true
	}
	for _, f := range fs {
		for _, c := range f {
			for _, l := range c {
				hit := false
				for id := range l.c {
					if _, ok := goal.c[id]; ok {
						hit = true
					}
				}
				if hit {
					for id := range l.c {
						if !rel[id] {
							rel[id] = true
							ids = append(ids, id)
						}
					}
				}
			}
		}
	}
	for _, id := range ids {
		ph, ok := b.vars[id].key.v.(*ssa.Phi)
		if !ok || seen[ph.Block()] {
			continue
		}
		if _, loop := b.loops[ph.Block()]; loop {
			continue
		}
		if x != nil && ph.Block() != x && !ph.Block().Dominates(x) {
			continue
		}
		seen[ph.Block()] = true
		res = append(res, ph)
	}
	return
}

// refute: the facts cannot hold together with the hypothesis.
func (b *bounds) refute(hyp []lin, fs []bFact, goal lin) bool {
	// the variables that matter, and what is known of them
	rel := map[int]bool{}
	for id := range goal.c {
		rel[id] = true
	}
	for _, h := range hyp {
		for id := range h.c {
			rel[id] = true
		}
	}
	asked := map[int]bool{}
	used := map[int]bool{}
	all := append([]bFact(nil), fs...)
	for ch := true; ch && len(rel) < 40; {
		ch = false
		var ids []int
		for id := range rel {
			ids = append(ids, id)
		}
		sort.Ints(ids)
		for _, id := range ids {
			if !asked[id] {
				asked[id] = true
				all = append(all, b.about(id)...)
				ch = true
			}
		}
		for i, f := range all {
			if used[i] {
				continue
			}
			hit := false
			for _, c := range f {
				for _, l := range c {
					if len(l.c) == 0 {
						hit = true // a contradiction perhaps
					}
					for id := range l.c {
						if rel[id] {
							hit = true
						}
					}
				}
			}
			if hit {
				used[i] = true
				ch = true
				for _, c := range f {
					for _, l := range c {
						for id := range l.c {
							rel[id] = true
						}
					}
				}
			}
		}
	}
	var base []lin
	var alts []bFact
	for i, f := range all {
		if !used[i] {
			continue
		}
		if len(f) == 1 {
			base = append(base, f[0]...)
		} else {
			alts = append(alts, f)
		}
	}
	base = append(base, hyp...)
	return b.split(base, alts, 0)
}

func (b *bounds) split(base []lin, alts []bFact, depth int) bool {
	if b.infeasible(base) {
		return true
	}
	// the disjunctions that are decided by the rest first
	if depth > 6 {
		return false
	}
	for i, f := range alts {
		rest := append(append([]bFact(nil), alts[:i]...), alts[i+1:]...)
		var open [][]lin
		for _, c := range f {
			if !b.infeasible(append(append([]lin(nil), base...), c...)) {
				open = append(open, c)
			}
		}
		switch len(open) {
		case 0:
			return true
		case 1:
			return b.split(append(append([]lin(nil), base...), open[0]...), rest, depth)
		}
	}
	if len(alts) == 0 || depth >= 4 {
		return false
	}
	for i, f := range alts {
		rest := append(append([]bFact(nil), alts[:i]...), alts[i+1:]...)
		ok := true
		for _, c := range f {
			if !b.split(append(append([]lin(nil), base...), c...), rest, depth+1) {
				ok = false
				break
			}
		}
		if ok {
			return true
		}
		if i >= 3 {
			break
		}
	}
	return false
}

func gcd(a, b int64) int64 {
	if a < 0 {
		a = -a
	}
	if b < 0 {
		b = -b
	}
	for b != 0 {
		a, b = b, a%b
	}
	return a
}

// infeasible: no integers satisfy all inequalities (sound, not complete).
func (b *bounds) infeasible(cs []lin) bool {
	b.steps++
	type row = lin
	norm := func(l lin) (lin, bool, bool) {
		var g int64
		for _, n := range l.c {
			g = gcd(g, n)
		}
		if g == 0 {
			return l, l.k < 0, true
		}
		if g > 1 {
			r := lin{c: map[int]int64{}, k: floorDiv(l.k, g)}
			for v, n := range l.c {
				r.c[v] = n / g
			}
			return r, false, false
		}
		return l, false, false
	}
	rows := map[string]row{}
	put := func(m map[string]row, l lin) bool {
		l, bad, triv := norm(l)
		if bad {
			return true
		}
		if triv {
			return false
		}
		k := lin{c: l.c}.str()
		if o, ok := m[k]; !ok || l.k < o.k {
			m[k] = l
		}
		return false
	}
	for _, c := range cs {
		if put(rows, c) {
			return true
		}
	}
	for len(rows) > 0 {
		pos, neg := map[int]int{}, map[int]int{}
		for _, r := range rows {
			for v, n := range r.c {
				if n > 0 {
					pos[v]++
				} else {
					neg[v]++
				}
			}
		}
		best, cost := -1, 1<<30
		var vs []int
		seen := map[int]bool{}
		for v := range pos {
			seen[v] = true
		}
		for v := range neg {
			seen[v] = true
		}
		for v := range seen {
			vs = append(vs, v)
		}
		sort.Ints(vs)
		for _, v := range vs {
			if c := pos[v]*neg[v] - pos[v] - neg[v]; c < cost {
				best, cost = v, c
			}
		}
		if best < 0 || len(rows) > 220 {
			return false
		}
		next := map[string]row{}
		var ps, ns []row
		for _, k := range sortedKeys(rows) {
			r := rows[k]
			switch n := r.c[best]; {
			case n > 0:
				ps = append(ps, r)
			case n < 0:
				ns = append(ns, r)
			default:
				if put(next, r) {
					return true
				}
			}
		}
		for _, a := range ps {
			for _, c := range ns {
				x, y := a.c[best], -c.c[best]
				g := gcd(x, y)
				l := lconst(0).add(a, y/g).add(c, x/g)
				big := l.k > 1<<40 || l.k < -(1<<40)
				for _, n := range l.c {
					if n > 1<<30 || n < -(1<<30) {
						big = true
					}
				}
				if big {
					continue
				}
				if put(next, l) {
					return true
				}
			}
		}
		rows = next
	}
	return false
}

// ---- invariants ----

// invariants finds inequalities at the loop heads that hold always.
func (b *bounds) invariants() {
	if len(b.loops) == 0 {
		return
	}
	var heads []*ssa.BasicBlock
	for _, blk := range b.f.Blocks {
		if b.loops[blk] != nil {
			heads = append(heads, blk)
		}
	}
	type atom struct {
		e   lin
		phi bool
	}
	for _, h := range heads {
		var phis, others []atom
		addOther := func(e lin) {
			if len(e.c) > 2 {
				return
			}
			for _, o := range others {
				if o.e.str() == e.str() {
					return
				}
			}
			others = append(others, atom{e: e})
		}
		for _, in := range h.Instrs {
			ph, ok := in.(*ssa.Phi)
			if !ok {
				break
			}
			switch {
			case wideInt(ph.Type()):
				phis = append(phis, atom{b.of(ph), true})
				for i, e := range ph.Edges {
					if !b.loops[h].body[h.Preds[i]] {
						addOther(b.of(e))
					}
				}
			case isStr(ph.Type().Underlying()) || isSlice(ph.Type()):
				if isSlice(ph.Type()) {
					b.inv[h] = append(b.inv[h], b.nn(ph).plus(-1))
				}
				phis = append(phis, atom{b.length(ph), true})
				for i, e := range ph.Edges {
					if !b.loops[h].body[h.Preds[i]] {
						addOther(b.length(e))
					}
				}
			case nilable(ph.Type()):
				b.inv[h] = append(b.inv[h], b.nn(ph).plus(-1), lconst(0).add(b.nn(ph), -1))
			}
		}
		b.flags(h)
		if len(phis) == 0 {
			continue
		}
		// what the loop compares with or indexes, if it does not change in it
		inv := func(v ssa.Value) bool {
			in, ok := v.(ssa.Instruction)
			return !ok || !b.loops[h].body[in.Block()] && in.Block().Dominates(h)
		}
		for _, blk := range b.f.Blocks {
			if !b.loops[h].body[blk] {
				continue
			}
			for _, in := range blk.Instrs {
				switch x := in.(type) {
				case *ssa.BinOp:
					if wideInt(x.X.Type()) {
						for _, o := range []ssa.Value{x.X, x.Y} {
							if inv(o) {
								if _, ok := o.(*ssa.Const); !ok {
									addOther(b.of(o))
								}
							} else if c, ok := o.(*ssa.Call); ok {
								if bi, ok := c.Call.Value.(*ssa.Builtin); ok && bi.Name() == "len" && inv(c.Call.Args[0]) {
									addOther(b.length(c.Call.Args[0]))
								}
							}
						}
					}
				case *ssa.IndexAddr:
					if inv(x.X) {
						addOther(b.length(x.X))
					}
				case *ssa.Lookup:
					if inv(x.X) && isStr(x.X.Type().Underlying()) {
						addOther(b.length(x.X))
					}
				case *ssa.Slice:
					if inv(x.X) {
						addOther(b.length(x.X))
					}
				}
			}
		}
		// parameters whose lengths results are compared with
		for _, pa := range b.f.Params {
			if isStr(pa.Type().Underlying()) || isSlice(pa.Type()) {
				addOther(b.length(pa))
			}
		}
		var cands []lin
		add := func(l lin) {
			if len(l.c) > 0 {
				cands = append(cands, l)
			}
		}
		for i, a := range phis {
			for _, c := range []int64{1, 0, -1} {
				add(a.e.plus(-c))
			}
			for _, o := range others {
				d := a.e.add(o.e, -1)
				n := lconst(0).add(d, -1)
				add(d)
				add(n)
				add(n.plus(-1))
				add(n.plus(1))
				add(d.plus(1))
			}
			for j, o := range phis {
				if i == j {
					continue
				}
				d := a.e.add(o.e, -1)
				add(d)
				add(d.plus(-1))
				add(d.plus(1))
				if i < j {
					s := a.e.add(o.e, 1)
					for _, q := range others {
						add(q.e.add(s, -1))
						add(s.add(q.e, -1))
					}
				}
			}
		}
		seen := map[string]bool{}
		for _, c := range cands {
			if k := c.str(); !seen[k] {
				seen[k] = true
				b.inv[h] = append(b.inv[h], c)
			}
		}
		if len(b.inv[h]) > 400 {
			b.inv[h] = b.inv[h][:400]
		}
	}
	for round := 0; round < 60; round++ {
		dropped := false
		for _, h := range heads {
			l := b.loops[h]
			var keep []lin
			for _, c := range b.inv[h] {
				ok := true
				for i, pr := range h.Preds {
					// the candidate with the values of this way in
					g := b.subst(c, h, i)
					fs := append(b.at(pr), b.edgeFacts(pr, h)...)
					_ = l
					if !b.proveFrom(g, fs, pr, 1) {
						ok = false
						break
					}
				}
				if ok {
					keep = append(keep, c)
				} else {
					dropped = true
				}
			}
			b.inv[h] = keep
		}
		if !dropped {
			return
		}
	}
	b.inv = map[*ssa.BasicBlock][]lin{}
}

func isSlice(t types.Type) bool { _, ok := t.Underlying().(*types.Slice); return ok }

func (b *bounds) subst(c lin, h *ssa.BasicBlock, i int) lin {
	r := lconst(c.k)
	for id, n := range c.c {
		x := b.vars[id]
		if ph, ok := x.key.v.(*ssa.Phi); ok && ph.Block() == h {
			r = r.add(b.get(ph.Edges[i], x.key.kind), n)
			continue
		}
		r = r.add(lin{c: map[int]int64{id: 1}}, n)
	}
	return r
}

func (b *bounds) get(v ssa.Value, kind int) lin {
	switch kind {
	case aLen:
		return b.length(v)
	case aNN:
		return b.nn(v)
	case aNE:
		return b.ne(v)
	}
	return b.of(v)
}

// ne: 1 if the string is not empty.
func (b *bounds) ne(v ssa.Value) lin {
	if c, ok := v.(*ssa.Const); ok {
		if c.Value != nil && c.Value.Kind() == constant.String && constant.StringVal(c.Value) != "" {
			return lconst(1)
		}
		return lconst(0)
	}
	return b.v(v, aNE)
}

func nilable(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Pointer, *types.Interface, *types.Map, *types.Signature, *types.Slice, *types.Chan:
		return true
	}
	return false
}

// nn: 1 if the value is not nil, 0 if it is.
func (b *bounds) nn(v ssa.Value) lin {
	switch x := v.(type) {
	case *ssa.Const:
		if x.Value == nil {
			return lconst(0)
		}
		return lconst(1)
	case *ssa.Alloc, *ssa.FieldAddr, *ssa.IndexAddr, *ssa.MakeInterface, *ssa.MakeClosure, *ssa.MakeMap, *ssa.MakeSlice, *ssa.MakeChan, *ssa.Function, *ssa.Global, *ssa.FreeVar:
		return lconst(1)
	case *ssa.ChangeType:
		return b.nn(x.X)
	case *ssa.ChangeInterface:
		return b.nn(x.X)
	case *ssa.Convert:
		if nilable(x.X.Type()) {
			return b.nn(x.X)
		}
		return lconst(1)
	case *ssa.Slice:
		return b.v(v, aNN)
	case *ssa.TypeAssert:
		if !x.CommaOk {
			return lconst(1)
		}
	case *ssa.UnOp:
		if x.Op == token.MUL {
			if w := b.p.sameLoad(x); w != v {
				return b.nn(w)
			}
			if g, ok := x.X.(*ssa.Global); ok && b.p.setOnce(g) {
				return lconst(1)
			}
			if _, ok := x.X.(*ssa.IndexAddr); ok {
				return lconst(1) // see the assumptions
			}
			if fa, ok := x.X.(*ssa.FieldAddr); ok && b.p.alwaysSet(fa) {
				return lconst(1)
			}
		}
	case *ssa.Lookup:
		if ownKey(x) {
			return lconst(1)
		}
	case *ssa.Call:
		if bi, ok := x.Call.Value.(*ssa.Builtin); ok && bi.Name() == "ssa:wrapnilchk" {
			return lconst(1)
		}
		if isCursorType(x.Type()) {
			return lconst(1) // see the assumptions
		}
	case *ssa.Extract:
		switch t := x.Tuple.(type) {
		case *ssa.Next:
			return lconst(1)
		case *ssa.TypeAssert:
			_ = t
		case *ssa.Call:
			if isCursorType(x.Type()) {
				return lconst(1)
			}
		}
	}
	return b.v(v, aNN)
}

// setOnce: a global that holds something that is not nil once the package is
// initialised.
func (p *Program) setOnce(g *ssa.Global) bool {
	if v, ok := p.onceMemo[g]; ok {
		return v
	}
	if p.onceMemo == nil {
		p.onceMemo = map[*ssa.Global]bool{}
	}
	n, bad := 0, false
	for _, f := range p.allFuncsWithInit() {
		for _, blk := range f.Blocks {
			for _, in := range blk.Instrs {
				if st, ok := in.(*ssa.Store); ok && st.Addr == g {
					n++
					if isNilConst(st.Val) {
						bad = true
					}
					if f.Name() != "init" {
						bad = true
					}
				}
			}
		}
	}
	if g.Pkg != nil && !strings.HasPrefix(g.Pkg.Pkg.Path(), p.mod) {
		n, bad = 1, false // io.EOF and the like
	}
	p.onceMemo[g] = n > 0 && !bad
	return n > 0 && !bad
}

// aboutNN: what is known of results and of the values of maps and assertions.
func (b *bounds) aboutNN(v ssa.Value, me lin, fs *[]bFact) {
	conj := func(l ...lin) { *fs = append(*fs, bFact{l}) }
	ok := func(tuple ssa.Value, i int) ssa.Value {
		for _, u := range *tuple.Referrers() {
			if e, isE := u.(*ssa.Extract); isE && e.Index == i {
				return e
			}
		}
		return nil
	}
	switch x := v.(type) {
	case *ssa.Extract:
		switch t := x.Tuple.(type) {
		case *ssa.TypeAssert, *ssa.Lookup:
			if x.Index == 0 {
				if o := ok(x.Tuple, 1); o != nil {
					conj(me.add(b.of(o), -1))
				}
			}
			_ = t
		case *ssa.Call:
			b.callNN(t, x.Index, me, fs)
		}
	case *ssa.Call:
		b.callNN(x, 0, me, fs)
	}
}

func (b *bounds) callNN(c *ssa.Call, idx int, me lin, fs *[]bFact) {
	conj := func(l ...lin) { *fs = append(*fs, bFact{l}) }
	if bi, ok := c.Call.Value.(*ssa.Builtin); ok {
		if bi.Name() == "append" {
			conj(me.add(b.nn(c.Call.Args[0]), -1))
		}
		return
	}
	lib := false
	if sc := c.Call.StaticCallee(); sc != nil {
		lib = !b.p.inModule(sc) && (sc.Synthetic == "" || len(sc.Blocks) == 0)
	} else if c.Call.IsInvoke() {
		lib = len(b.p.implsOf(&c.Call)) == 0
	}
	if lib {
		res := c.Call.Signature().Results()
		if isErrorType(res.At(idx).Type()) {
			sc := c.Call.StaticCallee()
			if sc != nil && errorMaker(sc) {
				conj(me.plus(-1))
			}
			return
		}
		last := res.Len() - 1
		switch {
		case res.Len() == 1:
			conj(me.plus(-1))
		case isErrorType(res.At(last).Type()):
			if e := resultOf(c, last); e != nil {
				conj(me.add(b.nn(e), 1).plus(-1))
			}
		default:
			if bt, ok := res.At(last).Type().Underlying().(*types.Basic); ok && bt.Kind() == types.Bool {
				if e := resultOf(c, last); e != nil {
					conj(me.add(b.of(e), -1))
				}
			}
		}
		return
	}
	b.callSum(c, fs)
}

// flags: candidates that relate what is nil to what is empty or true.
func (b *bounds) flags(h *ssa.BasicBlock) {
	var ptrs, lits []lin
	for _, in := range h.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		switch u := ph.Type().Underlying().(type) {
		case *types.Basic:
			if u.Info()&types.IsString != 0 {
				lits = append(lits, b.ne(ph))
			} else if u.Info()&types.IsBoolean != 0 {
				lits = append(lits, b.of(ph), lconst(1).add(b.of(ph), -1))
			}
		default:
			if nilable(ph.Type()) && !isSlice(ph.Type()) {
				ptrs = append(ptrs, b.nn(ph))
			}
		}
	}
	for i, q := range ptrs {
		for _, l := range lits {
			b.inv[h] = append(b.inv[h], q.add(l, -1))
		}
		for j, o := range ptrs {
			if i != j {
				b.inv[h] = append(b.inv[h], q.add(o, -1))
			}
		}
	}
}

// onlyStore: the one value that is ever stored in a local variable.
func storedOnce(al *ssa.Alloc) *ssa.Store {
	var st *ssa.Store
	var scan func(refs []ssa.Instruction, addr ssa.Value) bool
	scan = func(refs []ssa.Instruction, addr ssa.Value) bool {
		for _, u := range refs {
			switch x := u.(type) {
			case *ssa.Store:
				if x.Addr != addr || st != nil {
					return false
				}
				st = x
			case *ssa.UnOp, *ssa.DebugRef:
			case *ssa.MakeClosure:
				fn := x.Fn.(*ssa.Function)
				for i, bd := range x.Bindings {
					if bd == addr && !scan(*fn.FreeVars[i].Referrers(), fn.FreeVars[i]) {
						return false
					}
				}
			default:
				return false
			}
		}
		return true
	}
	if al.Referrers() == nil || !scan(*al.Referrers(), al) || st == nil || st.Parent() != al.Parent() {
		return nil
	}
	return st
}

// binding: the variable of the enclosing function that a free variable is.
func binding(fv *ssa.FreeVar) (mc *ssa.MakeClosure, al ssa.Value) {
	f := fv.Parent()
	if f.Parent() == nil {
		return nil, nil
	}
	i := -1
	for k, x := range f.FreeVars {
		if x == fv {
			i = k
		}
	}
	for _, blk := range f.Parent().Blocks {
		for _, in := range blk.Instrs {
			if m, ok := in.(*ssa.MakeClosure); ok && m.Fn == f {
				if mc != nil {
					return nil, nil
				}
				mc, al = m, m.Bindings[i]
			}
		}
	}
	return
}

// ownKey: the key of the lookup is one that ranging over the map gave.
func ownKey(x *ssa.Lookup) bool {
	ld, ok := x.Index.(*ssa.UnOp)
	if !ok || ld.Op != token.MUL {
		if ex, ok := x.Index.(*ssa.Extract); ok {
			if nx, ok := ex.Tuple.(*ssa.Next); ok && ex.Index == 1 {
				rg, ok := nx.Iter.(*ssa.Range)
				return ok && rg.X == x.X
			}
		}
		return false
	}
	ia, ok := ld.X.(*ssa.IndexAddr)
	if !ok {
		return false
	}
	seen := map[ssa.Value]bool{}
	n := 0
	var all func(v ssa.Value) bool
	all = func(v ssa.Value) bool {
		if seen[v] {
			return true
		}
		seen[v] = true
		switch y := v.(type) {
		case *ssa.Phi:
			for _, e := range y.Edges {
				if !all(e) {
					return false
				}
			}
			return true
		case *ssa.Const:
			return y.IsNil()
		case *ssa.MakeSlice:
			c, ok := y.Len.(*ssa.Const)
			return ok && cint(c) == 0
		case *ssa.Slice:
			al, ok := y.X.(*ssa.Alloc)
			if !ok || y.Low != nil {
				return false
			}
			if k, ok := y.High.(*ssa.Const); ok && cint(k) == 0 {
				return true
			}
			for _, u := range *al.Referrers() {
				if ea, ok := u.(*ssa.IndexAddr); ok {
					for _, w := range *ea.Referrers() {
						st, ok := w.(*ssa.Store)
						if !ok {
							return false
						}
						ex, ok := st.Val.(*ssa.Extract)
						if !ok || ex.Index != 1 {
							return false
						}
						nx, ok := ex.Tuple.(*ssa.Next)
						if !ok {
							return false
						}
						rg, ok := nx.Iter.(*ssa.Range)
						if !ok || rg.X != x.X {
							return false
						}
						n++
					}
				}
			}
			return true
		case *ssa.Call:
			bi, ok := y.Call.Value.(*ssa.Builtin)
			return ok && bi.Name() == "append" && all(y.Call.Args[0]) && all(y.Call.Args[1])
		}
		return false
	}
	return all(ia.X) && n > 0
}

// variable: the local variable that the address is, if nothing but the
// function and its closures can have its address.
func variable(addr ssa.Value) *ssa.Alloc {
	for {
		fv, ok := addr.(*ssa.FreeVar)
		if !ok {
			break
		}
		_, addr = binding(fv)
		if addr == nil {
			return nil
		}
	}
	al, ok := addr.(*ssa.Alloc)
	if !ok || al.Referrers() == nil || !heldOnly(*al.Referrers(), al) {
		return nil
	}
	return al
}

func heldOnly(refs []ssa.Instruction, addr ssa.Value) bool {
	for _, u := range refs {
		switch x := u.(type) {
		case *ssa.Store:
			if x.Addr != addr {
				return false
			}
		case *ssa.UnOp, *ssa.DebugRef:
		case *ssa.MakeClosure:
			fn := x.Fn.(*ssa.Function)
			for i, bd := range x.Bindings {
				if bd == addr && !heldOnly(*fn.FreeVars[i].Referrers(), fn.FreeVars[i]) {
					return false
				}
			}
		default:
			return false
		}
	}
	return true
}

// writers: the closures that store in the variable.
func writers(addr ssa.Value, refs []ssa.Instruction, res map[*ssa.Function]bool) {
	for _, u := range refs {
		switch x := u.(type) {
		case *ssa.Store:
			if _, ok := addr.(*ssa.FreeVar); ok && x.Addr == addr {
				res[x.Parent()] = true
			}
		case *ssa.MakeClosure:
			fn := x.Fn.(*ssa.Function)
			for i, bd := range x.Bindings {
				if bd == addr {
					writers(fn.FreeVars[i], *fn.FreeVars[i].Referrers(), res)
				}
			}
		}
	}
}

func (p *Program) reachesAny(f *ssa.Function, ws map[*ssa.Function]bool) bool {
	seen := map[*ssa.Function]bool{}
	var walk func(f *ssa.Function) bool
	walk = func(f *ssa.Function) bool {
		if ws[f] {
			return true
		}
		if seen[f] {
			return false
		}
		seen[f] = true
		for _, blk := range f.Blocks {
			for _, in := range blk.Instrs {
				if ci, ok := in.(ssa.CallInstruction); ok {
					for _, g := range p.callees(f, ci) {
						if walk(g) {
							return true
						}
					}
				}
			}
		}
		return false
	}
	return walk(f)
}

// alwaysSet: wherever a T is made its field is set to something that is not
// nil, and nothing else is ever stored there.
func (p *Program) alwaysSet(fa *ssa.FieldAddr) bool {
	pt, ok := fa.X.Type().Underlying().(*types.Pointer)
	if !ok {
		return false
	}
	n, ok := pt.Elem().(*types.Named)
	if !ok {
		return false
	}
	key := fmt.Sprintf("%s.%d", n.String(), fa.Field)
	if v, ok := p.setMemo[key]; ok {
		return v
	}
	if p.setMemo == nil {
		p.setMemo = map[string]bool{}
	}
	p.setMemo[key] = false
	isNN := func(v ssa.Value) bool {
		switch v.(type) {
		case *ssa.Alloc, *ssa.MakeMap, *ssa.MakeSlice, *ssa.MakeClosure, *ssa.Function, *ssa.MakeInterface, *ssa.FieldAddr:
			return true
		}
		return false
	}
	holds := func(t types.Type) bool { // T inside another type
		switch u := t.Underlying().(type) {
		case *types.Struct:
			for i := 0; i < u.NumFields(); i++ {
				if types.Identical(u.Field(i).Type(), n) {
					return true
				}
			}
		case *types.Slice:
			return types.Identical(u.Elem(), n)
		case *types.Array:
			return types.Identical(u.Elem(), n)
		}
		return false
	}
	for _, sp := range p.ssaPkgs {
		for _, m := range sp.Members {
			switch x := m.(type) {
			case *ssa.Type:
				if !types.Identical(x.Type(), n) && holds(x.Type()) {
					return false
				}
			case *ssa.Global:
				if et := x.Type().(*types.Pointer).Elem(); types.Identical(et, n) || holds(et) {
					return false
				}
			}
		}
	}
	made := 0
	for _, f := range p.allFuncsWithInit() {
		for _, blk := range f.Blocks {
			for _, in := range blk.Instrs {
				switch x := in.(type) {
				case *ssa.Alloc:
					if !types.Identical(x.Type().(*types.Pointer).Elem(), n) {
						continue
					}
					made++
					set := false
					for _, u := range *x.Referrers() {
						switch y := u.(type) {
						case *ssa.FieldAddr:
							if y.Field != fa.Field {
								continue
							}
							for _, w := range *y.Referrers() {
								if st, ok := w.(*ssa.Store); ok && st.Addr == y && isNN(st.Val) && st.Block() == x.Block() {
									set = true
								}
							}
						case *ssa.Store:
							// a copy of a whole value
							if y.Addr == x {
								if _, isParam := y.Val.(*ssa.Parameter); isParam {
									set = true
								}
								if ld, isLoad := y.Val.(*ssa.UnOp); isLoad && ld.Op == token.MUL {
									if al, isAlloc := ld.X.(*ssa.Alloc); !isAlloc || al != x {
										set = true // of another one, which has it set
									}
								}
							}
						}
					}
					if !set {
						return false
					}
				case *ssa.Store:
					if y, ok := x.Addr.(*ssa.FieldAddr); ok && y.Field == fa.Field && types.Identical(y.X.Type(), fa.X.Type()) && !isNN(x.Val) {
						return false
					}
				}
			}
		}
	}
	p.setMemo[key] = made > 0
	return made > 0
}
