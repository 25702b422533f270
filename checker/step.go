package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// step executes one non-control instruction; it may split the state.
func (r *run) step(st *State, instr ssa.Instruction) []*State {
	a := r.a
	one := []*State{st}
	switch in := instr.(type) {
	case *ssa.DebugRef:
		return one
	case *ssa.Alloc:
		et := in.Type().Underlying().(*types.Pointer).Elem()
		if a.trackAlloc(et) {
			o := &obj{typ: et, zero: true, fields: map[string]AVal{}}
			id := st.freshObj(o)
			a.set(st, in, vObj(id))
		} else {
			a.set(st, in, vCell(st.fresh(single(1))))
		}
		return one
	case *ssa.Store:
		return r.store(st, in)
	case *ssa.UnOp:
		return r.unop(st, in)
	case *ssa.BinOp:
		return r.binop(st, in)
	case *ssa.Call:
		return r.call(st, in, in)
	case *ssa.Defer:
		fn, args := r.callee(st, in)
		if fn.k != kTop {
			st.defers = append(st.defers, deferred{fn: fn, args: args})
		}
		return one
	case *ssa.Go:
		return one
	case *ssa.Extract:
		v := st.env[evar{in.Tuple, in.Index}]
		if v.k == kTop {
			v = vCell(st.fresh(typeBound(in.Type())))
			st.env[evar{in.Tuple, in.Index}] = v
		}
		a.set(st, in, v)
		return one
	case *ssa.FieldAddr:
		base := a.val(st, in.X)
		f := fieldName(in.X.Type(), in.Field)
		if base.k == kObj {
			p := f
			if base.path != "" {
				p = base.path + "." + f
			}
			a.set(st, in, AVal{k: kObj, id: base.id, path: p})
			return one
		}
		r.deref(st, in, in.X, base, "field "+f)
		a.set(st, in, vTop)
		return one
	case *ssa.Field:
		a.set(st, in, vTop)
		return one
	case *ssa.IndexAddr:
		base := a.val(st, in.X)
		if c, ok := in.Index.(*ssa.Const); ok && base.k == kObj {
			a.set(st, in, AVal{k: kObj, id: base.id, path: fmt.Sprintf("%s[%d]", base.path, cint(c))})
			return one
		}
		if iv := a.val(st, in.Index); iv.k == kInt && base.k == kObj {
			a.set(st, in, AVal{k: kObj, id: base.id, path: fmt.Sprintf("%s[%d]", base.path, iv.off)})
			return one
		}
		a.set(st, in, vTop)
		return one
	case *ssa.Index, *ssa.Lookup:
		a.setTop(st, in.(ssa.Value))
		if lk, ok := in.(*ssa.Lookup); ok && lk.CommaOk {
			st.env[evar{lk, 0}] = vTop
			st.env[evar{lk, 1}] = vTop
		}
		return one
	case *ssa.Slice:
		return r.slice(st, in)
	case *ssa.MakeClosure:
		fn := in.Fn.(*ssa.Function)
		o := &obj{fn: fn, fields: map[string]AVal{}}
		for i, b := range in.Bindings {
			o.fields[fmt.Sprintf("b%d", i)] = a.val(st, b)
		}
		a.set(st, in, vObj(st.freshObj(o)))
		return one
	case *ssa.MakeInterface:
		v := a.val(st, in.X)
		t := in.X.Type()
		if v.k == kCur {
			a.set(st, in, v)
			return one
		}
		if isCursorType(t) {
			a.set(st, in, vCur)
			return one
		}
		var tags uint32
		if v.k == kCell {
			if c := st.cells[v.id]; c != nil {
				tags = c.tags
			}
		}
		if v.k == kObj && st.objs[v.id] != nil && st.objs[v.id].fn == nil {
			// pointer to a tracked object stays identifiable through the interface
			if _, isPtr := t.Underlying().(*types.Pointer); isPtr {
				a.set(st, in, v)
				return one
			}
		}
		set := single(1)
		id := st.fresh(set)
		st.cells[id] = &cell{set: set, tags: tags, dyn: t}
		a.set(st, in, vCell(id))
		return one
	case *ssa.ChangeInterface:
		a.set(st, in, a.val(st, in.X))
		return one
	case *ssa.ChangeType:
		a.set(st, in, a.val(st, in.X))
		return one
	case *ssa.Convert:
		return r.convert(st, in)
	case *ssa.TypeAssert:
		return r.typeAssert(st, in)
	case *ssa.MakeMap, *ssa.MakeChan, *ssa.MakeSlice:
		v := in.(ssa.Value)
		if ms, ok := in.(*ssa.MakeSlice); ok {
			a.set(st, v, vCell(st.fresh(st.setOf(a.val(st, ms.Len), ms.Len.Type()).Inter(lenSet))))
			return one
		}
		a.set(st, v, vCell(st.fresh(single(1))))
		return one
	case *ssa.Range:
		a.set(st, in, vTop)
		return one
	case *ssa.Next:
		// (ok, k, v)
		st.env[evar{in, 0}] = vTop
		st.env[evar{in, 1}] = vTop
		st.env[evar{in, 2}] = vTop
		st2 := st.clone()
		st.env[evar{in, 0}] = vInt(1)
		if in.IsString {
			st.env[evar{in, 2}] = vCell(st.fresh(anyRune))
		}
		// the number of iterations of a range over data is finite
		for _, l := range r.loopsOf(in.Block()) {
			if l == r.innermost(in.Block()) && st.prog != nil {
				if _, ok := st.prog[l]; ok {
					st.prog[l] = true
				}
			}
		}
		st2.env[evar{in, 0}] = vInt(0)
		return []*State{st, st2}
	case *ssa.MapUpdate, *ssa.Send, *ssa.Select, *ssa.SliceToArrayPointer, *ssa.MultiConvert:
		if v, ok := in.(ssa.Value); ok {
			a.setTop(st, v)
		}
		return one
	}
	if v, ok := instr.(ssa.Value); ok {
		a.setTop(st, v)
	}
	return one
}

func (r *run) loopsOf(b *ssa.BasicBlock) []int {
	var l []int
	for h, body := range r.fr.info.headers {
		if body[b.Index] {
			l = append(l, h)
		}
	}
	return l
}

func (r *run) innermost(b *ssa.BasicBlock) int {
	best, size := -1, 1<<30
	for h, body := range r.fr.info.headers {
		if body[b.Index] && len(body) < size {
			best, size = h, len(body)
		}
	}
	return best
}

func (a *Analysis) setTop(st *State, v ssa.Value) {
	if t, ok := v.Type().(*types.Tuple); ok {
		for i := 0; i < t.Len(); i++ {
			st.env[evar{v, i}] = vTop
		}
		return
	}
	st.env[evar{v, 0}] = vTop
}

func fieldName(t types.Type, i int) string {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	s, ok := t.Underlying().(*types.Struct)
	if !ok {
		return "?"
	}
	return s.Field(i).Name()
}

func (a *Analysis) trackAlloc(t types.Type) bool {
	if a.ctxType != nil && types.Identical(t, a.ctxType) {
		return true
	}
	switch u := t.Underlying().(type) {
	case *types.Struct:
		return implementsError(t)
	case *types.Array:
		return u.Len() <= 16
	}
	return true
}

var errIface = types.Universe.Lookup("error").Type().Underlying().(*types.Interface)

func implementsError(t types.Type) bool {
	return types.Implements(t, errIface) || types.Implements(types.NewPointer(t), errIface)
}

func isCursorType(t types.Type) bool {
	return typeIs(t, "strcursor", "Cursor") || typeIs(t, "strcursor", "ByteCursor") || typeIs(t, "strcursor", "RuneCursor")
}

func (r *run) deref(st *State, in ssa.Instruction, x ssa.Value, base AVal, what string) {
	if base.k == kNil {
		r.a.cl.NilDeref(r.fr, st, in, what, true)
		return
	}
	if base.k == kCell {
		if c := st.cells[base.id]; c != nil && c.set.Has(0) {
			r.a.cl.NilDeref(r.fr, st, in, what, c.set == single(0))
		}
	}
}

func (a *Analysis) fieldTracked(o *obj, path string) bool {
	if o.typ != nil && a.ctxType != nil && types.Identical(o.typ, a.ctxType) {
		return a.tracked[path]
	}
	return true
}

func (r *run) store(st *State, in *ssa.Store) []*State {
	a := r.a
	addr := a.val(st, in.Addr)
	v := a.val(st, in.Val)
	if addr.k == kObj {
		o := st.objs[addr.id]
		if o != nil && a.fieldTracked(o, addr.path) {
			// whole-object store invalidates sub-fields
			if addr.path == "" && len(o.fields) > 0 {
				if _, isStruct := o.typ.Underlying().(*types.Struct); isStruct {
					o = &obj{typ: o.typ, fn: o.fn, fields: map[string]AVal{}}
				}
			}
			if v.k == kTop {
				// give it an identity
				v = vCell(st.fresh(typeBound(in.Val.Type())))
				if _, isC := in.Val.(*ssa.Const); !isC {
					st.env[evar{in.Val, 0}] = v
				}
			}
			st.objs[addr.id] = o.with(addr.path, v)
		}
		return []*State{st}
	}
	// store through an unknown pointer: forget same-named fields of context objects
	if fa, ok := in.Addr.(*ssa.FieldAddr); ok {
		if a.ctxType != nil && namedOf(fa.X.Type()) == namedOf(a.ctxType) {
			f := fieldName(fa.X.Type(), fa.Field)
			for id, o := range st.objs {
				if o.typ != nil && types.Identical(o.typ, a.ctxType) && a.tracked[f] {
					st.objs[id] = o.with(f, vCell(st.fresh(typeBound(in.Val.Type()))))
				}
			}
		}
	}
	return []*State{st}
}

func (r *run) unop(st *State, in *ssa.UnOp) []*State {
	a := r.a
	one := []*State{st}
	switch in.Op {
	case token.MUL:
		addr := a.val(st, in.X)
		switch addr.k {
		case kObj:
			o := st.objs[addr.id]
			if o == nil {
				break
			}
			if !a.fieldTracked(o, addr.path) {
				a.set(st, in, vTop)
				return one
			}
			v, ok := o.fields[addr.path]
			if !ok {
				if addr.path == "" {
					if _, isStruct := o.typ.Underlying().(*types.Struct); isStruct {
						// aggregate: union of tags
						var tags uint32
						for _, f := range o.fields {
							if f.k == kCell && st.cells[f.id] != nil {
								tags |= st.cells[f.id].tags
							}
						}
						id := st.fresh(fullInt)
						st.cells[id] = &cell{set: fullInt, tags: tags}
						a.set(st, in, vCell(id))
						return one
					}
				}
				if o.zero {
					v = zeroVal(in.Type())
				} else {
					v = vCell(st.fresh(typeBound(in.Type())))
				}
				if typeIs(in.Type(), "sax", "SAX2Handler") && !o.zero {
					v = vCell(st.fresh(single(1)))
				}
				st.objs[addr.id] = o.with(addr.path, v)
			}
			a.set(st, in, v)
			return one
		case kGlob:
			g := addr.ref.(*ssa.Global)
			et := in.Type()
			if isErrorType(et) && !a.modGlob[g] {
				a.set(st, in, vInt(a.sentinelClass(g)))
				return one
			}
			if s, ok := a.p.globalBytes(g); ok {
				a.set(st, in, vStr(s))
				return one
			}
			a.set(st, in, vTop)
			return one
		case kNil:
			r.deref(st, in, in.X, addr, "load")
		}
		if typeIs(in.Type(), "sax", "SAX2Handler") {
			// the parser's configured handler (assumed to be set)
			a.set(st, in, vCell(st.fresh(single(1))))
			return one
		}
		a.set(st, in, vTop)
		return one
	case token.NOT:
		v := a.ensure(st, in.X)
		s := st.setOf(v, in.X.Type()).Inter(boolSet)
		if x, ok := s.IsSingle(); ok {
			a.set(st, in, vInt(1-x))
			return one
		}
		st2 := st.clone()
		var out []*State
		if st.refineVal(v, single(1), in.X.Type()) {
			a.set(st, in, vInt(0))
			out = append(out, st)
		}
		if st2.refineVal(v, single(0), in.X.Type()) {
			a.set(st2, in, vInt(1))
			out = append(out, st2)
		}
		return out
	case token.SUB:
		s := st.setOf(a.val(st, in.X), in.X.Type())
		if x, ok := s.IsSingle(); ok {
			a.set(st, in, vInt(-x))
			return one
		}
	}
	a.setTop(st, in)
	return one
}

func isNilConst(v ssa.Value) bool {
	c, ok := v.(*ssa.Const)
	return ok && c.Value == nil
}

func (r *run) binop(st *State, in *ssa.BinOp) []*State {
	a := r.a
	one := []*State{st}
	switch in.Op {
	case token.EQL, token.NEQ, token.LSS, token.LEQ, token.GTR, token.GEQ:
		return r.compare(st, in)
	}
	x, y := a.val(st, in.X), a.val(st, in.Y)
	if !isIntType(in.Type()) {
		if b, ok := in.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
			if x.k == kStr && y.k == kStr {
				a.set(st, in, vStr(x.path+y.path))
				return one
			}
			sx, sy := st.setOf(x, in.X.Type()), st.setOf(y, in.Y.Type())
			lo := satAdd(sx.Min(), sy.Min())
			a.set(st, in, vCell(st.fresh(interval(lo, maxI))))
			return one
		}
		a.setTop(st, in)
		return one
	}
	if in.Op == token.ADD || in.Op == token.SUB {
		if x.k == kAff && y.k == kInt {
			k := y.off
			if in.Op == token.SUB {
				k = -k
			}
			x.off += k
			a.set(st, in, x)
			return one
		}
		if in.Op == token.ADD && y.k == kAff && x.k == kInt {
			y.off += x.off
			a.set(st, in, y)
			return one
		}
	}
	sx, sy := st.setOf(x, in.X.Type()), st.setOf(y, in.Y.Type())
	lo, hi, bits, ok := intRange(in.Type())
	if !ok || sx.Empty() || sy.Empty() {
		a.setTop(st, in)
		return one
	}
	var res *Set
	switch in.Op {
	case token.ADD, token.SUB:
		if in.Op == token.SUB {
			var neg [][2]int64
			for i := len(sy.r) - 1; i >= 0; i-- {
				n := func(v int64) int64 {
					if v == minI {
						return maxI
					}
					if v == maxI {
						return minI
					}
					return -v
				}
				neg = append(neg, [2]int64{n(sy.r[i][1]), n(sy.r[i][0])})
			}
			sy = mkSet(neg)
		}
		if v, single := sy.IsSingle(); single {
			res = sx.Shift(v)
		} else if v, single := sx.IsSingle(); single {
			res = sy.Shift(v)
		} else {
			res = interval(satAdd(sx.Min(), sy.Min()), satAdd(sx.Max(), sy.Max()))
		}
	case token.MUL:
		if v, single := sy.IsSingle(); single && v > 0 && sx.Min() > -1<<40 && sx.Max() < 1<<40 && v < 1<<20 {
			res = interval(sx.Min()*v, sx.Max()*v)
		} else if v, single := sx.IsSingle(); single && v > 0 && sy.Min() > -1<<40 && sy.Max() < 1<<40 && v < 1<<20 {
			res = interval(sy.Min()*v, sy.Max()*v)
		}
	case token.AND:
		if v, single := sy.IsSingle(); single && v >= 0 {
			res = interval(0, v)
			if w, s2 := sx.IsSingle(); s2 {
				res = interval(w&v, w&v)
			}
		} else if v, single := sx.IsSingle(); single && v >= 0 {
			res = interval(0, v)
		}
	case token.OR:
		v, s1 := sx.IsSingle()
		w, s2 := sy.IsSingle()
		if s1 && s2 {
			res = interval(v|w, v|w)
		} else if sx.Min() >= 0 && sy.Min() >= 0 {
			m := sx.Max()
			if sy.Max() > m {
				m = sy.Max()
			}
			if m < 1<<60 {
				p := int64(1)
				for p <= m {
					p <<= 1
				}
				res = interval(0, p-1)
			}
		}
	case token.SHL:
		if v, single := sy.IsSingle(); single && v >= 0 && v < 32 && sx.Min() >= 0 && sx.Max() < 1<<30 {
			if w, s2 := sx.IsSingle(); s2 {
				res = interval(w<<uint(v), w<<uint(v))
			} else {
				res = interval(sx.Min()<<uint(v), sx.Max()<<uint(v))
			}
		}
	case token.SHR:
		if v, single := sy.IsSingle(); single && v >= 0 && v < 63 && sx.Min() >= 0 {
			res = interval(sx.Min()>>uint(v), sx.Max()>>uint(v))
		}
	case token.REM:
		if v, single := sy.IsSingle(); single && v > 0 && sx.Min() >= 0 {
			res = interval(0, v-1)
		}
	case token.QUO:
		if v, single := sy.IsSingle(); single && v > 0 {
			res = interval(sx.Min()/v, sx.Max()/v)
		}
	}
	if res == nil {
		a.setTop(st, in)
		return one
	}
	res = res.wrap(lo, hi, bits)
	if v, single := res.IsSingle(); single {
		a.set(st, in, vInt(v))
		return one
	}
	a.set(st, in, vCell(st.fresh(res)))
	return one
}

func negOp(op token.Token) token.Token {
	switch op {
	case token.EQL:
		return token.NEQ
	case token.NEQ:
		return token.EQL
	case token.LSS:
		return token.GEQ
	case token.GEQ:
		return token.LSS
	case token.GTR:
		return token.LEQ
	case token.LEQ:
		return token.GTR
	}
	return op
}

func opSet(op token.Token, v *Set) *Set {
	if v.Empty() {
		return emptySet
	}
	switch op {
	case token.EQL:
		return v
	case token.NEQ:
		if _, ok := v.IsSingle(); ok {
			return v.Compl()
		}
		return fullInt
	case token.LSS:
		return interval(minI, satAdd(v.Max(), -1))
	case token.LEQ:
		return interval(minI, v.Max())
	case token.GTR:
		return interval(satAdd(v.Min(), 1), maxI)
	case token.GEQ:
		return interval(v.Min(), maxI)
	}
	return fullInt
}

func flipOp(op token.Token) token.Token {
	switch op {
	case token.LSS:
		return token.GTR
	case token.GTR:
		return token.LSS
	case token.LEQ:
		return token.GEQ
	case token.GEQ:
		return token.LEQ
	}
	return op
}

// compare evaluates a comparison, splitting the state when undetermined.
func (r *run) compare(st *State, in *ssa.BinOp) []*State {
	a := r.a
	t := in.X.Type()
	x, y := a.ensure(st, in.X), a.ensure(st, in.Y)
	// strings
	if b, ok := t.Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
		if x.k == kStr && y.k == kStr {
			res := false
			switch in.Op {
			case token.EQL:
				res = x.path == y.path
			case token.NEQ:
				res = x.path != y.path
			case token.LSS:
				res = x.path < y.path
			case token.LEQ:
				res = x.path <= y.path
			case token.GTR:
				res = x.path > y.path
			case token.GEQ:
				res = x.path >= y.path
			}
			a.set(st, in, vBool(res))
			return []*State{st}
		}
		if x.k == kStr {
			x, y = y, x
		}
		if in.Op != token.EQL && in.Op != token.NEQ {
			return r.splitBool(st, in)
		}
		eq := st.clone()
		ne := st
		var out []*State
		feas := true
		if y.k == kStr {
			feas = eq.refineVal(x, single(int64(len(y.path))), t)
		} else {
			sx, sy := eq.setOf(x, t), eq.setOf(y, t)
			feas = eq.refineVal(x, sy, t) && eq.refineVal(y, sx, t)
		}
		if feas {
			a.set(eq, in, vBool(in.Op == token.EQL))
			out = append(out, eq)
		}
		feas = true
		if y.k == kStr && y.path == "" {
			feas = ne.refineVal(x, interval(1, maxI), t)
		}
		if feas {
			a.set(ne, in, vBool(in.Op == token.NEQ))
			out = append(out, ne)
		}
		return out
	}
	if _, isSlice := t.Underlying().(*types.Slice); isSlice {
		return r.splitBool(st, in)
	}
	intLike := isIntType(t) || isBoolType(t)
	if x.k == kObj && y.k == kObj {
		same := x.id == y.id && x.path == y.path
		a.set(st, in, vBool(same == (in.Op == token.EQL)))
		return []*State{st}
	}
	// affine comparison on the same symbol
	if x.k == kAff && y.k == kAff && x.id == y.id {
		a.set(st, in, vBool(cmpInt(in.Op, x.off, y.off)))
		return []*State{st}
	}
	if x.k == kCell && y.k == kCell && x.id == y.id && intLike {
		a.set(st, in, vBool(cmpInt(in.Op, 0, 0)))
		return []*State{st}
	}
	sx, sy := st.setOf(x, t), st.setOf(y, in.Y.Type())
	if sx.Empty() || sy.Empty() {
		return nil
	}
	var out []*State
	doCase := func(s *State, op token.Token, val bool) {
		nx := sx.Inter(opSet(op, sy))
		ny := sy.Inter(opSet(flipOp(op), sx))
		if !intLike {
			// only nil (0) and sentinels (>=2) are identities
			nx, ny = sx, sy
			if op == token.EQL {
				nx, ny = sx.Inter(sy), sy.Inter(sx)
			} else {
				if v, ok := sy.IsSingle(); ok && v != 1 {
					nx = sx.Minus(sy)
				}
				if v, ok := sx.IsSingle(); ok && v != 1 {
					ny = sy.Minus(sx)
				}
			}
		}
		if nx.Empty() || ny.Empty() {
			return
		}
		if !s.refineVal(x, nx, t) || !s.refineVal(y, ny, t) {
			return
		}
		if op == token.EQL && x.k == kCell && y.k == kCell && isIntType(t) {
			s.replaceCell(y.id, x.id)
		}
		a.set(s, in, vBool(val))
		out = append(out, s)
	}
	st2 := st.clone()
	doCase(st, in.Op, true)
	doCase(st2, negOp(in.Op), false)
	return out
}

func cmpInt(op token.Token, a, b int64) bool {
	switch op {
	case token.EQL:
		return a == b
	case token.NEQ:
		return a != b
	case token.LSS:
		return a < b
	case token.LEQ:
		return a <= b
	case token.GTR:
		return a > b
	case token.GEQ:
		return a >= b
	}
	return false
}

func (r *run) splitBool(st *State, in ssa.Value) []*State {
	st2 := st.clone()
	r.a.set(st, in, vInt(1))
	r.a.set(st2, in, vInt(0))
	return []*State{st, st2}
}

func (r *run) slice(st *State, in *ssa.Slice) []*State {
	a := r.a
	one := []*State{st}
	x := a.ensure(st, in.X)
	if x.k == kObj {
		if in.Low == nil && in.High == nil {
			a.set(st, in, x)
			return one
		}
		a.setTop(st, in)
		return one
	}
	if x.k == kStr && in.Low == nil && in.High == nil {
		a.set(st, in, x)
		return one
	}
	if !isLenType(in.X.Type()) {
		a.setTop(st, in)
		return one
	}
	sx := st.setOf(x, in.X.Type())
	lo := single(0)
	if in.Low != nil {
		lo = st.setOf(a.val(st, in.Low), in.Low.Type()).Inter(lenSet)
	}
	if lo.Empty() || sx.Empty() {
		return nil
	}
	var res *Set
	if in.High != nil {
		h := st.setOf(a.val(st, in.High), in.High.Type())
		l := satAdd(h.Min(), -lo.Max())
		if lo.Max() == maxI || l < 0 {
			l = 0
		}
		u := satAdd(h.Max(), -lo.Min())
		if u < 0 {
			return nil
		}
		res = interval(l, u)
	} else {
		l := int64(0)
		if lo.Max() != maxI {
			l = satAdd(sx.Min(), -lo.Max())
			if l < 0 {
				l = 0
			}
		}
		u := satAdd(sx.Max(), -lo.Min())
		if u < 0 {
			return nil
		}
		res = interval(l, u)
	}
	id := st.fresh(res)
	c := &cell{set: res}
	if x.k == kCell && in.High == nil {
		c.base = x.id
		c.drop = lo.Min()
		if o := st.cells[x.id]; o != nil && o.base != 0 {
			c.base = o.base
			c.drop = satAdd(o.drop, lo.Min())
		}
		if c.drop > 1 {
			c.drop = 1
		}
	} else if x.k == kCell && in.High != nil && in.Low == nil {
		// s[:len(s)-k]
		if b, ok := in.High.(*ssa.BinOp); ok && b.Op == token.SUB {
			if hv := a.val(st, b.X); hv.k == kCell && hv.id == x.id {
				if k := st.setOf(a.val(st, b.Y), b.Y.Type()); !k.Empty() && k.Min() >= 1 {
					c.base, c.drop = x.id, 1
					if o := st.cells[x.id]; o != nil && o.base != 0 {
						c.base = o.base
					}
				}
			}
		}
	}
	st.cells[id] = c
	a.set(st, in, vCell(id))
	return one
}

func (r *run) convert(st *State, in *ssa.Convert) []*State {
	if isIntType(in.X.Type()) && !isIntType(in.Type()) && isLenType(in.Type()) {
		r.text(st, in.X, in)
	}
	a := r.a
	one := []*State{st}
	x := a.ensure(st, in.X)
	from, to := in.X.Type(), in.Type()
	if isIntType(from) && isIntType(to) {
		lo, hi, bits, _ := intRange(to)
		s := st.setOf(x, from)
		tr := interval(lo, hi)
		if s.SubsetOf(tr) {
			a.set(st, in, x)
			return one
		}
		if x.k == kCell {
			inR := s.Inter(tr)
			var out []*State
			st2 := st.clone()
			if !inR.Empty() && st.refineCell(x.id, inR) {
				a.set(st, in, x)
				out = append(out, st)
			}
			outR := s.Minus(tr)
			if !outR.Empty() && st2.refineCell(x.id, outR) {
				a.set(st2, in, vCell(st2.fresh(outR.wrap(lo, hi, bits))))
				out = append(out, st2)
			}
			return out
		}
		a.set(st, in, vCell(st.fresh(s.wrap(lo, hi, bits))))
		return one
	}
	if isLenType(from) && isLenType(to) {
		// string <-> []byte keeps the length; []rune does not
		fs, ts := elemKind(from), elemKind(to)
		if fs != types.Int32 && ts != types.Int32 {
			if x.k == kStr {
				a.set(st, in, x)
			} else if x.k == kCell {
				a.set(st, in, x)
			} else {
				a.setTop(st, in)
			}
			return one
		}
	}
	a.setTop(st, in)
	return one
}

func elemKind(t types.Type) types.BasicKind {
	if s, ok := t.Underlying().(*types.Slice); ok {
		if b, ok := s.Elem().Underlying().(*types.Basic); ok {
			return b.Kind()
		}
	}
	return types.Uint8
}

func (r *run) typeAssert(st *State, in *ssa.TypeAssert) []*State {
	a := r.a
	x := a.ensure(st, in.X)
	bind := func(s *State, v AVal, ok bool) {
		if in.CommaOk {
			s.env[evar{in, 0}] = v
			s.env[evar{in, 1}] = vBool(ok)
		} else {
			s.env[evar{in, 0}] = v
		}
	}
	// the cursor
	if isCursorType(in.AssertedType) {
		if typeIs(in.AssertedType, "strcursor", "Cursor") {
			bind(st, vCur, true)
			return []*State{st}
		}
		if !in.CommaOk {
			bind(st, vCur, true)
			return []*State{st}
		}
		st2 := st.clone()
		bind(st, vCur, true)
		bind(st2, vNil, false)
		return []*State{st, st2}
	}
	var dyn types.Type
	nilS := false
	var c *cell
	switch x.k {
	case kCell:
		c = st.cells[x.id]
		if c != nil {
			dyn = c.dyn
			nilS = c.set == single(0)
		}
	case kNil:
		nilS = true
	case kObj:
		if o := st.objs[x.id]; o != nil && o.typ != nil {
			dyn = types.NewPointer(o.typ)
		}
	case kInt:
		// an error sentinel made by errors.New: an unexported pointer type
		if x.off >= 2 {
			if _, isIf := in.AssertedType.Underlying().(*types.Interface); !isIf {
				if in.CommaOk {
					bind(st, vTop, false)
					return []*State{st}
				}
			}
		}
	}
	assertOK := -1
	if nilS {
		assertOK = 0
	} else if dyn != nil && (c == nil || !c.set.Has(0)) {
		if it, ok := in.AssertedType.Underlying().(*types.Interface); ok {
			if types.Implements(dyn, it) {
				assertOK = 1
			} else {
				assertOK = 0
			}
		} else if types.Identical(dyn, in.AssertedType) {
			assertOK = 1
		} else {
			assertOK = 0
		}
	}
	if !in.CommaOk {
		a.cl.TypeAssert(r.fr, st, in, assertOK)
		if assertOK == 0 {
			return nil
		}
		v := vTop
		if _, isIf := in.AssertedType.Underlying().(*types.Interface); isIf || x.k == kObj {
			v = x
		}
		bind(st, v, true)
		return []*State{st}
	}
	okVal := func(s *State) AVal {
		if _, isIf := in.AssertedType.Underlying().(*types.Interface); isIf {
			return x
		}
		if x.k == kObj {
			return x
		}
		if _, isPtr := in.AssertedType.Underlying().(*types.Pointer); isPtr {
			return vCell(s.fresh(ptrSet))
		}
		return vTop
	}
	switch assertOK {
	case 1:
		bind(st, okVal(st), true)
		return []*State{st}
	case 0:
		bind(st, zeroVal(in.AssertedType), false)
		return []*State{st}
	}
	st2 := st.clone()
	var out []*State
	if x.k != kCell || st.refineCell(x.id, interval(1, maxI)) {
		bind(st, okVal(st), true)
		out = append(out, st)
	}
	bind(st2, zeroVal(in.AssertedType), false)
	out = append(out, st2)
	return out
}

// ---------------------------------------------------------------- calls

// callee evaluates the callee and arguments of a call instruction.
func (r *run) callee(st *State, in ssa.CallInstruction) (AVal, []AVal) {
	cc := in.Common()
	var args []AVal
	for _, v := range cc.Args {
		args = append(args, r.a.val(st, v))
	}
	if cc.IsInvoke() {
		return vTop, args
	}
	return r.a.val(st, cc.Value), args
}

func (r *run) call(st *State, in ssa.CallInstruction, dst *ssa.Call) []*State {
	a := r.a
	cc := in.Common()
	if b, ok := cc.Value.(*ssa.Builtin); ok {
		return r.builtin(st, b, dst)
	}
	if cc.IsInvoke() {
		return r.invoke(st, in, dst)
	}
	fv, args := r.callee(st, in)
	fn, binds := a.resolveFn(st, fv)
	if fn == nil {
		a.resultTop(st, dst, 0)
		return []*State{st}
	}
	// methods of concrete cursors
	if rv := fn.Signature.Recv(); rv != nil && isCursorType(rv.Type()) {
		return r.cursorCall(st, in, dst, fn.Name(), cc.Args[1:])
	}
	if outs, ok := r.model(st, in, dst, fn); ok {
		return outs
	}
	if fn.Blocks == nil || !a.p.inModule(fn) || a.opaque(fn) {
		a.resultTop(st, dst, tagExt)
		return []*State{st}
	}
	return r.callFn(st, fn, binds, args, dst, in)
}

const (
	tagSAX    = 1 << 0
	tagUnspec = 1 << 1
	tagNew    = 1 << 2
	tagExt    = 1 << 3
)

// resultTop binds unknown results.
func (a *Analysis) resultTop(st *State, dst *ssa.Call, tags uint32) {
	if dst == nil {
		return
	}
	if t, ok := dst.Type().(*types.Tuple); ok {
		for i := 0; i < t.Len(); i++ {
			st.env[evar{dst, i}] = a.topOf(st, t.At(i).Type(), tags)
		}
		return
	}
	st.env[evar{dst, 0}] = a.topOf(st, dst.Type(), tags)
}

func (a *Analysis) topOf(st *State, t types.Type, tags uint32) AVal {
	if isErrorType(t) {
		id := st.fresh(ptrSet)
		st.cells[id] = &cell{set: ptrSet, tags: tags}
		return vCell(id)
	}
	if isCursorType(t) {
		return vCur
	}
	return vTop
}

func (r *run) builtin(st *State, b *ssa.Builtin, dst *ssa.Call) []*State {
	a := r.a
	one := []*State{st}
	if dst == nil {
		return one
	}
	args := dst.Call.Args
	switch b.Name() {
	case "len":
		t := args[0].Type()
		x := a.val(st, args[0])
		if x.k == kStr {
			a.set(st, dst, vInt(int64(len(x.path))))
			return one
		}
		if x.k == kNil {
			a.set(st, dst, vInt(0))
			return one
		}
		if isLenType(t) {
			x = a.ensure(st, args[0])
			if x.k == kCell {
				a.set(st, dst, x)
				return one
			}
		}
		a.set(st, dst, vCell(st.fresh(lenSet)))
		return one
	case "cap":
		a.set(st, dst, vCell(st.fresh(lenSet)))
		return one
	case "append":
		x := st.setOf(a.val(st, args[0]), args[0].Type())
		if a.val(st, args[0]).k == kNil {
			x = single(0)
		}
		lo := int64(0)
		if !x.Empty() {
			lo = x.Min()
		}
		if len(args) > 1 {
			if sl, ok := args[1].(*ssa.Slice); ok {
				if al, ok := sl.X.(*ssa.Alloc); ok && sl.Low == nil && sl.High == nil {
					if at, ok := al.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array); ok {
						lo = satAdd(lo, at.Len())
					}
				}
			}
		}
		a.set(st, dst, vCell(st.fresh(interval(lo, maxI))))
		return one
	}
	a.setTop(st, dst)
	return one
}

func (r *run) invoke(st *State, in ssa.CallInstruction, dst *ssa.Call) []*State {
	a := r.a
	cc := in.Common()
	recv := a.val(st, cc.Value)
	if isCursorType(cc.Value.Type()) {
		return r.cursorCall(st, in, dst, cc.Method.Name(), cc.Args)
	}
	if typeIs(cc.Value.Type(), "sax", "SAX2Handler") {
		return r.saxCall(st, in, dst)
	}
	// known dynamic type
	if recv.k == kCell {
		if c := st.cells[recv.id]; c != nil && c.dyn != nil && !c.set.Has(0) {
			ms := a.p.prog.MethodSets.MethodSet(c.dyn)
			if s := ms.Lookup(cc.Method.Pkg(), cc.Method.Name()); s != nil {
				fn := a.p.prog.MethodValue(s)
				if fn != nil && fn.Blocks != nil && a.p.inModule(fn) && !a.opaque(fn) && fn.Synthetic == "" {
					args := []AVal{vTop}
					for _, v := range cc.Args {
						args = append(args, a.val(st, v))
					}
					return r.callFn(st, fn, nil, args, dst, in)
				}
			}
		}
	}
	if recv.k == kNil || (recv.k == kCell && st.cells[recv.id] != nil && st.cells[recv.id].set.Has(0)) {
		r.deref(st, in.(ssa.Instruction), cc.Value, recv, "call "+cc.Method.Name())
		if recv.k == kCell && !st.refineCell(recv.id, interval(1, maxI)) {
			return nil
		}
	}
	a.resultTop(st, dst, tagExt)
	return []*State{st}
}

// saxLookup are the handler calls that answer a question instead of
// announcing an event; their errors mean "no answer".
var saxLookup = map[string]bool{
	"GetEntity": true, "GetParameterEntity": true, "ResolveEntity": true, "HasInternalSubset": true,
	"HasExternalSubset": true, "IsStandalone": true, "GetExternalSubset": true,
}

func (a *Analysis) unspecClass() int64 {
	sp := a.p.pkg("sax")
	if sp == nil {
		return -1
	}
	g := sp.Var("ErrHandlerUnspecified")
	if g == nil {
		return -1
	}
	return a.sentinelClass(g)
}

func (r *run) saxCall(st *State, in ssa.CallInstruction, dst *ssa.Call) []*State {
	a := r.a
	cc := in.Common()
	m := cc.Method.Name()
	var args []AVal
	for _, v := range cc.Args {
		args = append(args, a.val(st, v))
	}
	a.cl.Event(r.fr, st, m, args, in)
	// fields a handler may change
	for id, o := range st.objs {
		if o.typ != nil && a.ctxType != nil && types.Identical(o.typ, a.ctxType) {
			for f := range o.fields {
				if a.havoc[f] {
					no := &obj{typ: o.typ, fn: o.fn, fields: map[string]AVal{}, zero: o.zero}
					for k, v := range o.fields {
						if k != f {
							no.fields[k] = v
						}
					}
					no.fields[f] = vTop
					st.objs[id] = no
					o = no
				}
			}
		}
	}
	res := cc.Signature().Results()
	n := res.Len()
	errIdx := -1
	for i := 0; i < n; i++ {
		if isErrorType(res.At(i).Type()) {
			errIdx = i
		}
	}
	key := func(i int) evar {
		if n == 1 {
			return evar{ssa.Value(dst), 0}
		}
		return evar{ssa.Value(dst), i}
	}
	if dst == nil || errIdx < 0 {
		a.resultTop(st, dst, 0)
		return []*State{st}
	}
	var out []*State
	mk := func(class int64, tags uint32) {
		s := st.clone()
		for i := 0; i < n; i++ {
			if i == errIdx {
				continue
			}
			if class == 0 && saxLookup[m] {
				// a successful lookup yields an entity
				s.env[key(i)] = vCell(s.fresh(single(1)))
			} else {
				s.env[key(i)] = vCell(s.fresh(typeBound(res.At(i).Type())))
			}
		}
		switch class {
		case 0:
			s.env[key(errIdx)] = vNil
		default:
			id := s.fresh(single(class))
			s.cells[id] = &cell{set: single(class), tags: tags}
			s.env[key(errIdx)] = vCell(id)
		}
		c := 0
		if class == 1 {
			c = 2
		} else if class > 1 {
			c = 1
		}
		a.cl.AfterEvent(r.fr, s, m, c)
		out = append(out, s)
	}
	mk(0, 0)
	if u := a.unspecClass(); u > 0 {
		if saxLookup[m] {
			mk(u, 0)
		} else {
			mk(u, tagUnspec)
		}
	}
	if saxLookup[m] {
		mk(1, 0)
	} else {
		mk(1, tagSAX)
	}
	return out
}

// ---------------------------------------------------------------- cursor model

func (st *State) peek(i AVal) AVal {
	var k widx
	switch i.k {
	case kInt:
		if i.off < 1 || i.off > 1<<20 {
			return vTop
		}
		k = widx{0, int32(i.off)}
	case kAff:
		if i.off < -64 || i.off > 64 {
			return vTop
		}
		k = widx{i.id, int32(i.off)}
	default:
		return vTop
	}
	if id, ok := st.win[k]; ok && st.cells[id] != nil {
		return vCell(id)
	}
	id := st.fresh(anyRune)
	// known earlier end of input
	st.win[k] = id
	if !st.winNormalize() {
		return vTop
	}
	return vCell(id)
}

func (r *run) bool2(st *State, dst *ssa.Call, v bool) {
	if dst != nil {
		r.a.set(st, dst, vBool(v))
	}
}

func (r *run) cursorCall(st *State, in ssa.CallInstruction, dst *ssa.Call, m string, argv []ssa.Value) []*State {
	a := r.a
	one := []*State{st}
	arg := func(i int) AVal { return a.val(st, argv[i]) }
	switch m {
	case "Peek":
		v := st.peek(vInt(1))
		if dst != nil {
			a.set(st, dst, v)
		}
		return one
	case "PeekN":
		i := arg(0)
		if i.k == kCell {
			if v, ok := st.cells[i.id].set.IsSingle(); ok {
				i = vInt(v)
			}
		}
		v := st.peek(i)
		if v.k == kTop {
			v = vCell(st.fresh(anyRune))
		}
		if dst != nil {
			a.set(st, dst, v)
		}
		return one
	case "Done":
		v := st.peek(vInt(1))
		st2 := st.clone()
		var out []*State
		if st.refineCell(v.id, runeErr) {
			r.bool2(st, dst, true)
			out = append(out, st)
		}
		if st2.refineCell(v.id, realRune) {
			r.bool2(st2, dst, false)
			out = append(out, st2)
		}
		return out
	case "Cur":
		v := st.peek(vInt(1))
		st2 := st.clone()
		var out []*State
		if st.refineCell(v.id, runeErr) {
			if dst != nil {
				a.set(st, dst, v)
			}
			out = append(out, st)
		}
		if st2.refineCell(v.id, realRune) {
			if dst != nil {
				a.set(st2, dst, v)
			}
			r.advance(st2, vInt(1), in)
			out = append(out, st2)
		}
		return out
	case "Advance":
		n := arg(0)
		if n.k == kCell {
			if v, ok := st.cells[n.id].set.IsSingle(); ok {
				n = vInt(v)
			}
		}
		outs := r.advance(st, n, in)
		for _, s := range outs {
			if dst != nil {
				a.set(s, dst, vCell(s.fresh(ptrSet)))
			}
		}
		return outs
	case "HasPrefix", "HasPrefixString", "Consume", "ConsumeString":
		consume := strings.HasPrefix(m, "Consume")
		x := arg(0)
		if x.k != kStr {
			// unknown text: on success some text was there
			st2 := st.clone()
			r.bool2(st2, dst, false)
			if consume {
				st.noteProgress()
				st.clearWin()
				st.pushLB(0)
				st.pushLB(0)
				st.pushLB(0)
				st.pushLB(0)
				a.cl.Consumed(r.fr, st, in, nil) // text the program already holds
			} else {
				v := st.peek(vInt(1))
				if !st.refineCell(v.id, realRune) {
					r.bool2(st2, dst, false)
					return []*State{st2}
				}
			}
			r.bool2(st, dst, true)
			return []*State{st, st2}
		}
		runes := []rune(x.path)
		if len(runes) == 0 {
			r.bool2(st, dst, false)
			return one
		}
		st2 := st.clone() // the no-match case
		match := true
		for i, c := range runes {
			v := st.peek(vInt(int64(i + 1)))
			if v.k != kCell || !st.refineCell(v.id, single(int64(c))) {
				match = false
				break
			}
		}
		var out []*State
		if match {
			r.bool2(st, dst, true)
			if consume {
				r.consumeConst(st, int32(len(runes)), in)
			}
			out = append(out, st)
		}
		// no match: if all but one position are known to match, exclude it
		unknown := -1
		cnt := 0
		definiteMismatch := false
		for i, c := range runes {
			v := st2.peek(vInt(int64(i + 1)))
			s := st2.setOf(v, nil)
			if s == single(int64(c)) {
				continue
			}
			if !s.Has(int64(c)) {
				definiteMismatch = true
			}
			cnt++
			unknown = i
		}
		feas := true
		if !definiteMismatch {
			if cnt == 0 {
				feas = false
			} else if cnt == 1 {
				v := st2.peek(vInt(int64(unknown + 1)))
				feas = st2.refineCell(v.id, single(int64(runes[unknown])).Compl())
			}
		}
		if feas {
			st2.trimWin()
			r.bool2(st2, dst, false)
			out = append(out, st2)
		}
		return out
	}
	// Line, Column, LineNumber
	if dst != nil {
		a.setTop(st, dst)
	}
	return one
}

func (st *State) clearWin() {
	st.win = map[widx]int32{}
	st.rng = map[widx]int32{}
}

// trimWin drops entries that carry no information.
func (st *State) trimWin() {
	for k, id := range st.win {
		if k.sym == 0 && k.off > 2 {
			if c := st.cells[id]; c != nil && c.set == anyRune {
				delete(st.win, k)
			}
		}
	}
}

func (st *State) pushLB(id int32) {
	for i := lbMax - 1; i > 0; i-- {
		st.lb[i] = st.lb[i-1]
	}
	st.lb[0] = id
}

// consumeConst consumes n known-real characters.
func (r *run) consumeConst(st *State, n int32, in ssa.CallInstruction) {
	u := emptySet
	for i := int32(1); i <= n; i++ {
		if id, ok := st.win[widx{0, i}]; ok {
			u = u.Union(st.cells[id].set)
		} else {
			u = realRune
		}
	}
	r.a.cl.Consumed(r.fr, st, in, u)
	for i := int32(1); i <= n; i++ {
		st.pushLB(st.win[widx{0, i}])
	}
	nw := map[widx]int32{}
	for k, id := range st.win {
		if k.sym == 0 {
			if k.off > n {
				nw[widx{0, k.off - n}] = id
			}
		} else if k.off-n >= -8 {
			nw[widx{k.sym, k.off - n}] = id
		}
	}
	st.win = nw
	st.rng = map[widx]int32{}
	st.noteProgress()
}

func (r *run) advance(st *State, n AVal, in ssa.CallInstruction) []*State {
	a := r.a
	switch n.k {
	case kInt:
		if n.off <= 0 {
			return []*State{st}
		}
		if n.off > 64 {
			a.cl.Advance(r.fr, st, in, false, "constant too large")
			st.clearWin()
			st.noteProgress()
			return []*State{st}
		}
		k := int32(n.off)
		id, peeked := st.win[widx{0, k}]
		if !peeked {
			a.cl.Advance(r.fr, st, in, false, fmt.Sprintf("position %d was not looked at", k))
			id = st.peek(vInt(int64(k))).id
		} else if st.cells[id].set.Has(0xFFFD) {
			a.cl.Advance(r.fr, st, in, false, fmt.Sprintf("position %d may be past the end of the input", k))
		} else {
			a.cl.Advance(r.fr, st, in, true, "")
		}
		var out []*State
		if st.cells[id].set.Has(0xFFFD) {
			st2 := st.clone()
			if st2.refineCell(id, runeErr) {
				out = append(out, st2) // nothing consumed
			}
			if !st.refineCell(id, realRune) {
				return out
			}
		}
		r.consumeConst(st, k, in)
		return append(out, st)
	case kAff:
		sc := st.cells[n.id].set.Shift(n.off)
		var out []*State
		if sc.Min() <= 0 {
			st2 := st.clone()
			if st2.refineVal(n, interval(minI, 0), nil) {
				out = append(out, st2)
			}
			if !st.refineVal(n, interval(1, maxI), nil) {
				return out
			}
		}
		d := int32(n.off)
		rs := st.rngAt(n.id, d)
		lastReal := false
		if id, ok := st.win[widx{n.id, d}]; ok && !st.cells[id].set.Has(0xFFFD) {
			lastReal = true
		}
		if !rs.Empty() && !rs.Has(0xFFFD) {
			lastReal = true
		}
		if !lastReal {
			a.cl.Advance(r.fr, st, in, false, "the count may reach past the end of the input")
			st2 := st.clone()
			st2.clearWin()
			out = append(out, st2)
		} else {
			a.cl.Advance(r.fr, st, in, true, "")
		}
		a.cl.Consumed(r.fr, st, in, rs.Minus(runeErr))
		for i := int32(3); i >= 0; i-- {
			if id, ok := st.win[widx{n.id, d - i}]; ok {
				st.pushLB(id)
			} else if !rs.Minus(runeErr).Empty() {
				st.pushLB(st.fresh(rs.Minus(runeErr)))
			} else {
				st.pushLB(0)
			}
		}
		nw := map[widx]int32{}
		for k, id := range st.win {
			if k.sym == n.id {
				if k.off > d {
					nw[widx{0, k.off - d}] = id
				}
			}
		}
		st.win = nw
		st.rng = map[widx]int32{}
		st.noteProgress()
		return append(out, st)
	}
	a.cl.Advance(r.fr, st, in, false, "unknown count")
	st.clearWin()
	return []*State{st}
}
