package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// exec interprets one instruction; false if the path ends here (its
// continuations, if any, are on the work list).
func (h *hRun) exec(s *hState, in ssa.Instruction) bool {
	f := s.top()
	set := func(v hv) bool {
		f.env[in.(ssa.Value)] = v
		return true
	}
	again := func(n *hState) {
		n.top().i--
		h.work = append(h.work, n)
	}
	switch t := in.(type) {
	case *ssa.DebugRef, *ssa.Phi, *ssa.RunDefers:
		return true
	case *ssa.Alloc:
		el := t.Type().(*types.Pointer).Elem()
		o := s.alloc(el)
		if isZeroStruct(el) {
			return set(hR(o))
		}
		return set(hv{k: hAddr, o: o})
	case *ssa.MakeInterface:
		v := h.val(s, t.X)
		v.dyn = t.X.Type()
		if v.k == hUnk || v.k == hStr {
			return set(v)
		}
		return set(v)
	case *ssa.ChangeInterface:
		return set(h.val(s, t.X))
	case *ssa.ChangeType:
		return set(h.val(s, t.X))
	case *ssa.Convert:
		v := h.val(s, t.X)
		if v.k == hStr || v.k == hMk || v.k == hNil {
			p, ok := h.text(s, v)
			if !ok {
				return set(hv{k: hUnk, t: t.Type()})
			}
			return set(hText(p...))
		}
		if v.k == hInt {
			if b, ok := t.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
				return set(hText("c" + string(rune(v.n))))
			}
		}
		return set(v)
	case *ssa.FieldAddr:
		v := h.val(s, t.X)
		key, fl := fieldKey(t.X.Type(), t.Field)
		switch v.k {
		case hRef:
			if fl.Embedded() && isZeroStruct(fl.Type()) {
				return set(hR(v.o))
			}
			if isZeroStruct(fl.Type()) {
				// a struct within the object
				return set(hv{k: hAddr, o: v.o, s: key})
			}
			return set(hv{k: hAddr, o: v.o, s: key})
		case hAddr:
			return set(hv{k: hAddr, o: v.o, s: v.s + "/" + key})
		case hSym:
			// a pointer that is used without having been tested
			if _, ok := v.t.Underlying().(*types.Pointer); ok {
				s.facts[v.s] = h.something(s, v)
				again(s)
				return false
			}
		case hNil:
			h.bad(in, "a nil pointer is followed")
			return false
		}
		h.giveUp(s, in, "the field of something unknown")
		return false
	case *ssa.Field:
		v := h.val(s, t.X)
		key, fl := fieldKey(t.X.Type(), t.Field)
		if v.k == hStruct || v.k == hRef {
			if fl.Embedded() && isZeroStruct(fl.Type()) {
				return set(hv{k: hStruct, o: v.o})
			}
			r, ok := h.load(s, hv{k: hAddr, o: v.o, s: key}, fl.Type(), in, again)
			if !ok {
				return false
			}
			return set(r)
		}
		h.giveUp(s, in, "the field of something unknown")
		return false
	case *ssa.Store:
		a := h.val(s, t.Addr)
		v := h.val(s, t.Val)
		switch a.k {
		case hAddr:
			if a.o == 0 {
				h.giveUp(s, in, "a global variable is changed")
				return false
			}
			s.objs[a.o].fields[a.s] = v
			return true
		case hRef:
			if v.k == hStruct || v.k == hRef {
				src := s.objs[v.o].clone()
				dst := s.objs[a.o]
				dst.fields, dst.name, dst.fresh, dst.typ = src.fields, src.name, src.fresh, src.typ
				return true
			}
		case hSym:
			s.facts[a.s] = h.something(s, a)
			again(s)
			return false
		}
		h.giveUp(s, in, "a store that is not understood")
		return false
	case *ssa.UnOp:
		v := h.val(s, t.X)
		switch t.Op {
		case token.MUL:
			switch v.k {
			case hRef:
				return set(hv{k: hStruct, o: v.o})
			case hAddr:
				r, ok := h.load(s, v, t.Type(), in, again)
				if !ok {
					return false
				}
				return set(r)
			case hSym:
				s.facts[v.s] = h.something(s, v)
				again(s)
				return false
			case hOpq, hUnk:
				return set(hv{k: hUnk, t: t.Type()})
			case hNil:
				h.bad(in, "a nil pointer is followed")
				return false
			}
		case token.NOT:
			if v.k == hBool {
				return set(hB(v.n == 0))
			}
			return set(hv{k: hNot, l: []hv{v}})
		}
		return set(hv{k: hUnk, t: t.Type()})
	case *ssa.BinOp:
		a, b := h.val(s, t.X), h.val(s, t.Y)
		switch t.Op {
		case token.EQL, token.NEQ:
			return set(hv{k: hEq, op: t.Op, l: []hv{a, b}})
		case token.ADD, token.SUB:
			if a.k == hInt && b.k == hInt {
				if t.Op == token.SUB {
					return set(hI(a.n - b.n))
				}
				return set(hI(a.n + b.n))
			}
			if r, ok := posAdd(t.Op, a, b); ok {
				return set(r)
			}
			p, ok1 := h.text(s, a)
			q, ok2 := h.text(s, b)
			if _, isS := t.Type().Underlying().(*types.Basic); isS && t.Op == token.ADD && a.k == hStr && b.k == hStr && ok1 && ok2 {
				return set(hText(append(append([]string(nil), p...), q...)...))
			}
			if a.k == hSym || b.k == hSym {
				if bt, ok := t.Type().Underlying().(*types.Basic); ok && bt.Info()&types.IsInteger != 0 {
					return set(hv{k: hSym, s: "(" + h.arg(s, a) + t.Op.String() + h.arg(s, b) + ")", t: t.Type()})
				}
			}
		case token.AND, token.OR:
			if a.k == hInt && b.k == hInt {
				if t.Op == token.AND {
					return set(hI(a.n & b.n))
				}
				return set(hI(a.n | b.n))
			}
			return set(hv{k: hSym, s: "(" + h.arg(s, a) + t.Op.String() + h.arg(s, b) + ")", t: t.Type()})
		case token.LSS, token.GTR, token.LEQ, token.GEQ:
			if a.k == hInt && b.k == hInt {
				return set(hB(xCmpInt(t.Op, a.n, b.n)))
			}
			// lengths and zero
			op := t.Op
			if a.k == hInt {
				a, b = b, a
				op = xFlip(op)
			}
			if (a.k == hLen || a.k == hPos) && b.k == hInt {
				// what is less than the least length possible is known
				switch m := s.least(a); {
				case op == token.GTR && b.n < m, op == token.GEQ && b.n <= m:
					return set(hB(true))
				case op == token.LSS && b.n <= m, op == token.LEQ && b.n < m:
					return set(hB(false))
				}
			}
			if a.k == hLen && b.k == hInt {
				switch {
				case op == token.GTR && b.n == 0 || op == token.GEQ && b.n == 1:
					return set(hv{k: hEq, op: token.NEQ, l: []hv{a, hI(0)}})
				case op == token.LSS && b.n == 1 || op == token.LEQ && b.n == 0:
					return set(hv{k: hEq, op: token.EQL, l: []hv{a, hI(0)}})
				}
			}
			if a.k == hSym && b.k == hInt {
				return set(hv{k: hSym, s: fmt.Sprintf("(%s%s%d)", a.s, op, b.n), t: types.Typ[types.Bool]})
			}
		}
		return set(hv{k: hUnk, t: t.Type()})
	case *ssa.Extract:
		v := h.val(s, t.Tuple)
		if v.k == hTuple && t.Index < len(v.l) {
			return set(s.resolve(v.l[t.Index]))
		}
		return set(hv{k: hUnk, t: t.Type()})
	case *ssa.TypeAssert:
		return h.assert(s, t, again)
	case *ssa.MakeSlice:
		o := s.alloc(types.Typ[types.String])
		s.objs[o].fields["len"] = h.val(s, t.Len)
		s.objs[o].fields[""] = hText("szeros")
		if e, ok := t.Type().Underlying().(*types.Slice); ok {
			if b, ok := e.Elem().Underlying().(*types.Basic); ok && b.Kind() == types.Byte {
				return set(hv{k: hMk, o: o})
			}
		}
		if l := h.val(s, t.Len); l.k == hInt && l.n == 0 {
			return set(hv{k: hSlice})
		}
		return set(hv{k: hUnk, t: t.Type()})
	case *ssa.MakeMap:
		return set(hR(s.alloc(t.Type())))
	case *ssa.MakeClosure:
		return set(hv{k: hClo, fn: t.Fn.(*ssa.Function)})
	case *ssa.MapUpdate:
		m := h.val(s, t.Map)
		if m.k == hSym {
			s.facts[m.s] = h.something(s, m)
			again(s)
			return false
		}
		if m.k != hRef {
			h.giveUp(s, in, "a map that is not known")
			return false
		}
		s.objs[m.o].fields["["+h.arg(s, h.val(s, t.Key))+"]"] = h.val(s, t.Value)
		return true
	case *ssa.Lookup:
		m := h.val(s, t.X)
		if _, ok := t.X.Type().Underlying().(*types.Map); !ok {
			if h.special(s, m) {
				h.giveUp(s, in, "a name taken apart character by character")
				return false
			}
			return set(hv{k: hSym, s: "index(" + h.arg(s, m) + "," + h.arg(s, h.val(s, t.Index)) + ")", t: t.Type()})
		}
		el := t.X.Type().Underlying().(*types.Map).Elem()
		res := func(n *hState, v hv, found bool) {
			if t.CommaOk {
				n.top().env[t] = hv{k: hTuple, l: []hv{v, hB(found)}}
			} else {
				n.top().env[t] = v
			}
			h.work = append(h.work, n)
		}
		if m.k == hSym {
			s.facts[m.s] = h.something(s, m)
			again(s)
			return false
		}
		if m.k != hRef {
			h.giveUp(s, in, "a map that is not known")
			return false
		}
		ob := s.objs[m.o]
		k := "[" + h.arg(s, h.val(s, t.Index)) + "]"
		if strings.Contains(k, "?") {
			// some entry, of which nothing is known
			n := s.clone()
			res(n, h.zero(n, el), false)
			s.next++
			res(s, h.something(s, hv{k: hSym, s: ob.name + "[some" + strconv.Itoa(s.next) + "]", t: el}), true)
			return false
		}
		if v, ok := ob.fields[k]; ok {
			if v.k == hUnk && v.s == "deleted" {
				res(s, h.zero(s, el), false)
			} else {
				res(s, s.resolve(v), true)
			}
			return false
		}
		if ob.fresh {
			res(s, h.zero(s, el), false)
			return false
		}
		n := s.clone()
		n.objs[m.o].fields[k] = hv{k: hUnk, s: "deleted"}
		res(n, h.zero(n, el), false)
		v := s.initial(ob.name+k, el)
		if v.k == hSym {
			s.facts[v.s] = h.something(s, v)
			v = s.resolve(v)
		}
		s.objs[m.o].fields[k] = v
		res(s, v, true)
		return false
	case *ssa.Slice:
		v := h.val(s, t.X)
		if v.k == hAddr && t.Low == nil && t.High == nil {
			if ar, ok := t.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array); ok && v.o != 0 {
				r := hv{k: hSlice}
				for i := int64(0); i < ar.Len(); i++ {
					e, ok := s.objs[v.o].fields[v.s+"["+strconv.FormatInt(i, 10)+"]"]
					if !ok {
						e = h.zero(s, ar.Elem())
					}
					r.l = append(r.l, e)
				}
				return set(r)
			}
		}
		if p, ok := h.text(s, v); ok {
			if t.Low == nil && t.High == nil {
				return set(v)
			}
			if r, ok := cutText(p, t.Low, t.High, func(v ssa.Value) hv { return h.val(s, v) }); ok {
				return set(hText(r...))
			}
			lo, hi := "", ""
			if t.Low != nil {
				lo = h.arg(s, h.val(s, t.Low))
			}
			if t.High != nil {
				hi = h.arg(s, h.val(s, t.High))
			}
			return set(hText("s" + "slice(" + strings.Join(p, "+") + ":" + lo + ":" + hi + ")"))
		}
		return set(hv{k: hUnk, t: t.Type()})
	case *ssa.IndexAddr:
		v := h.val(s, t.X)
		i := h.val(s, t.Index)
		if v.k == hAddr && i.k == hInt {
			return set(hv{k: hAddr, o: v.o, s: v.s + "[" + strconv.FormatInt(i.n, 10) + "]"})
		}
		if v.k == hSlice && i.k == hInt && i.n >= 0 && i.n < int64(len(v.l)) {
			o := s.alloc(t.Type().(*types.Pointer).Elem())
			s.objs[o].fields[""] = v.l[i.n]
			return set(hv{k: hAddr, o: o})
		}
		if h.special(s, v) {
			h.giveUp(s, in, "a name taken apart character by character")
			return false
		}
		if v.k == hStr || v.k == hMk {
			return set(hv{k: hOpq, s: "element"})
		}
		h.giveUp(s, in, "an element that is not known")
		return false
	case *ssa.Index:
		if h.special(s, h.val(s, t.X)) {
			h.giveUp(s, in, "a name taken apart character by character")
			return false
		}
		if x, i := h.arg(s, h.val(s, t.X)), h.arg(s, h.val(s, t.Index)); !strings.Contains(x+i, "?") {
			return set(s.resolve(hv{k: hSym, s: "index(" + x + "," + i + ")", t: t.Type()}))
		}
		return set(hv{k: hUnk, t: t.Type()})
	case *ssa.Call:
		return h.call(s, t, again)
	case *ssa.Defer:
		if fn := t.Call.StaticCallee(); fn != nil && strings.Contains(fn.String(), "pdebug") {
			return true
		}
		h.giveUp(s, in, "a deferred call")
		return false
	}
	h.giveUp(s, in, fmt.Sprintf("an instruction that is not understood: %T", in))
	return false
}

// arg describes a value for the name of the result of a function of it.
func (h *hRun) arg(s *hState, v hv) string {
	v = s.resolve(v)
	if p, ok := h.text(s, v); ok && v.k != hNil {
		if r := "`" + strings.Join(p, "+") + "`"; len(r) < 400 {
			return r
		}
		return "?"
	}
	switch v.k {
	case hInt, hBool:
		return strconv.FormatInt(v.n, 10)
	case hLen, hPos:
		if r := fmt.Sprintf("len(%s)+%d", strings.Join(v.partsOf(), "+"), v.n); len(r) < 400 && !strings.Contains(r, "?") {
			return r
		}
		return "?"
	case hSym, hOpq:
		return v.s
	case hRef:
		return "@" + s.objs[v.o].name
	case hNil:
		return "nil"
	}
	return "?"
}

func (h *hRun) load(s *hState, a hv, t types.Type, in ssa.Instruction, again func(*hState)) (hv, bool) {
	if a.o == 0 {
		// a package-level variable: its value is not changed by the code
		// analysed (a store to one is refused)
		if isErrorType(t) {
			return hv{k: hErr}, true
		}
		return hv{k: hSym, s: a.s, t: t}, true
	}
	if isZeroStruct(t) {
		return hv{k: hUnk, t: t}, true
	}
	v, ok := h.get(s, a.o, a.s, t)
	if !ok {
		h.retype(s, a.o, again)
		return hv{}, false
	}
	if v.k == hSeg {
		e, f := s.open(v.o, a.s != fPrev && a.s != fLast)
		again(e)
		again(f)
		return hv{}, false
	}
	return v, true
}

func (h *hRun) assert(s *hState, t *ssa.TypeAssert, again func(*hState)) bool {
	v := h.val(s, t.X)
	f := s.top()
	fin := func(n *hState, ok bool) {
		r := v
		if !ok {
			if !t.CommaOk {
				h.bad(t, "a type assertion fails")
				return
			}
			r = h.zero(n, t.AssertedType)
		}
		if t.CommaOk {
			n.top().env[t] = hv{k: hTuple, l: []hv{r, hB(ok)}}
		} else {
			n.top().env[t] = r
		}
		h.work = append(h.work, n)
	}
	switch v.k {
	case hNil:
		fin(s, false)
		return false
	case hSym:
		n := s.clone()
		n.facts[v.s] = hv{k: hNil}
		again(n)
		if pt, ok := t.AssertedType.Underlying().(*types.Pointer); ok && !t.CommaOk {
			// asserted without a test: the value is of that type
			o := s.obj(v.s, pt.Elem())
			s.objs[o].named = false
			s.facts[v.s] = hR(o)
		} else {
			s.facts[v.s] = h.something(s, v)
		}
		again(s)
		return false
	case hRef:
		ob := s.objs[v.o]
		if types.IsInterface(t.AssertedType) {
			if ob.typ == nil {
				if typeName(t.AssertedType) == "Node" {
					fin(s, true)
					return false
				}
				h.retype(s, v.o, again)
				return false
			}
			fin(s, types.Implements(types.NewPointer(ob.typ), t.AssertedType.Underlying().(*types.Interface)))
			return false
		}
		pt, ok := t.AssertedType.Underlying().(*types.Pointer)
		if !ok {
			fin(s, false)
			return false
		}
		if ob.typ == nil {
			h.retype(s, v.o, again)
			return false
		}
		fin(s, types.Identical(ob.typ, pt.Elem()))
		return false
	case hOpq:
		// known only by its interface
		if t.CommaOk {
			n := s.clone()
			n.top().env[t] = hv{k: hTuple, l: []hv{h.zero(n, t.AssertedType), hB(false)}}
			h.work = append(h.work, n)
		}
		r := v
		if pt, ok := t.AssertedType.Underlying().(*types.Pointer); ok {
			r = h.something(s, hv{k: hSym, s: v.s, t: pt})
		} else if !types.IsInterface(t.AssertedType) {
			r = s.initial(v.s, t.AssertedType)
		}
		if t.CommaOk {
			f.env[t] = hv{k: hTuple, l: []hv{r, hB(true)}}
		} else {
			f.env[t] = r
		}
		return true
	case hErr, hUnk:
		if t.CommaOk {
			f.env[t] = hv{k: hTuple, l: []hv{{k: hUnk, t: t.AssertedType}, {k: hUnk, t: types.Typ[types.Bool]}}}
		} else {
			f.env[t] = hv{k: hUnk, t: t.AssertedType}
		}
		return true
	default:
		// a scalar in an interface
		if v.dyn != nil {
			if types.IsInterface(t.AssertedType) {
				fin(s, types.Implements(v.dyn, t.AssertedType.Underlying().(*types.Interface)))
			} else {
				fin(s, types.Identical(v.dyn, t.AssertedType))
			}
			return false
		}
	}
	h.giveUp(s, t, "a type assertion that is not understood")
	return false
}

// target is the declared method a call of a method of *T reaches.
func (p *Program) methodOf(t types.Type, name string) *ssa.Function {
	ms := types.NewMethodSet(types.NewPointer(t))
	for i := 0; i < ms.Len(); i++ {
		if fn, ok := ms.At(i).Obj().(*types.Func); ok && fn.Name() == name {
			return p.prog.FuncValue(fn)
		}
	}
	return nil
}

func (h *hRun) call(s *hState, t *ssa.Call, again func(*hState)) bool {
	f := s.top()
	cc := &t.Call
	set := func(v hv) bool {
		f.env[t] = v
		return true
	}
	var args []hv
	if cc.IsInvoke() {
		r := h.val(s, cc.Value)
		switch r.k {
		case hSym:
			s.facts[r.s] = h.something(s, r) // a nil interface would panic here
			again(s)
			return false
		case hRef:
			ob := s.objs[r.o]
			var fn *ssa.Function
			if h.onCall != nil && ob.typ == nil {
				args := []hv{r}
				for _, a := range cc.Args {
					args = append(args, h.val(s, a))
				}
				if h.stand(s, t, nil, cc.Method.Name(), args) {
					return false
				}
			}
			if ob.typ == nil {
				for _, nt := range h.p.nodeTypes() {
					g := h.p.methodOf(nt, cc.Method.Name())
					if fn == nil {
						fn = g
					} else if fn != g {
						h.retype(s, r.o, again)
						return false
					}
				}
			} else {
				fn = h.p.methodOf(ob.typ, cc.Method.Name())
			}
			if fn == nil {
				h.giveUp(s, t, "a method that is not known: "+cc.Method.Name())
				return false
			}
			args = append(args, r)
			for _, a := range cc.Args {
				args = append(args, h.val(s, a))
			}
			if h.stand(s, t, fn, cc.Method.Name(), args) {
				return false
			}
			return h.enter(s, t, fn, args, again)
		case hOpq:
			// an object of the caller
			name := r.s + "." + cc.Method.Name() + "()"
			for _, a := range cc.Args {
				if v := h.val(s, a); v.k == hRef {
					h.giveUp(s, t, "a call that is not understood: "+cc.Method.Name())
					return false
				}
			}
			return set(h.results(s, t, name))
		case hErr:
			return set(hv{k: hUnk, t: t.Type()})
		case hNil:
			h.bad(t, "a method of nil is called")
			return false
		}
		h.giveUp(s, t, "a call that is not understood: "+cc.Method.Name())
		return false
	}
	if b, ok := cc.Value.(*ssa.Builtin); ok {
		return h.builtin(s, t, b)
	}
	for _, a := range cc.Args {
		args = append(args, h.val(s, a))
	}
	fn := cc.StaticCallee()
	if v := h.val(s, cc.Value); fn == nil && v.k == hFn {
		fn = v.fn
	}
	if h.onCall != nil {
		name := ""
		if fn != nil {
			name = fn.Name()
		} else if v := h.val(s, cc.Value); v.k == hSym || v.k == hOpq {
			name = "value " + v.s
		}
		if h.stand(s, t, fn, name, args) {
			return false
		}
	}
	if fn == nil {
		h.giveUp(s, t, "a call through a function value")
		return false
	}
	if v, ok := h.textCall(s, fn, args); ok {
		return set(v)
	}
	return h.enter(s, t, fn, args, again)
}

// stand: a call is replaced by what is assumed of it.
func (h *hRun) stand(s *hState, t *ssa.Call, fn *ssa.Function, name string, args []hv) bool {
	if h.onCall == nil {
		return false
	}
	l, ok := h.onCall(s, t, fn, name, args)
	if ok {
		h.work = append(h.work, l...)
	}
	return ok
}

// results names the results of a call that has no effect here.
func (h *hRun) results(s *hState, t *ssa.Call, name string) hv {
	tt, ok := t.Type().(*types.Tuple)
	if !ok {
		return s.resolve(s.initial(name, t.Type()))
	}
	r := hv{k: hTuple}
	for i := 0; i < tt.Len(); i++ {
		r.l = append(r.l, s.initial(fmt.Sprintf("%s#%d", name, i), tt.At(i).Type()))
	}
	return r
}

func (h *hRun) unknown(t types.Type) hv {
	if tt, ok := t.(*types.Tuple); ok {
		r := hv{k: hTuple}
		for i := 0; i < tt.Len(); i++ {
			r.l = append(r.l, hv{k: hUnk, t: tt.At(i).Type()})
		}
		return r
	}
	return hv{k: hUnk, t: t}
}

func (h *hRun) enter(s *hState, t *ssa.Call, fn *ssa.Function, args []hv, again func(*hState)) bool {
	f := s.top()
	pkg, recv, name := fnQual(fn)
	if !h.p.inModule(fn) && fn.Synthetic == "" || len(fn.Blocks) == 0 {
		switch {
		case isErrorType(t.Type()) && errorMaker(fn):
			f.env[t] = hv{k: hErr}
			return true
		case recv == "" && (pkg == "strings" || pkg == "bytes" || strings.HasPrefix(pkg, "unicode") || pkg == "strconv"):
			n := pkg + "." + name + "("
			for i, a := range args {
				if i > 0 {
					n += ","
				}
				n += h.arg(s, a)
			}
			if strings.Contains(n, "?") {
				f.env[t] = h.unknown(t.Type())
				if v := f.env[t]; v.k == hUnk {
					f.env[t] = h.textish(v)
				}
				return true
			}
			f.env[t] = h.results(s, t, n+")")
			return true
		}
		if !strings.Contains(pkg, "pdebug") {
			for _, a := range args {
				if a.k == hRef && h.p.inModuleType(s.objs[a.o].typ) {
					h.giveUp(s, t, "a call that is not understood: "+fn.String())
					return false
				}
			}
		}
		u := h.textish(h.unknown(t.Type()))
		f.env[t] = u
		if n := len(u.l); u.k == hTuple && n > 0 && isErrorType(u.l[n-1].t) {
			e := s.clone()
			bad := hv{k: hTuple, l: append([]hv(nil), u.l...)}
			bad.l[n-1] = hv{k: hErr}
			e.top().env[t] = bad
			h.work = append(h.work, e)
			u.l[n-1] = hv{k: hNil}
		} else if u.k == hUnk && isErrorType(u.t) {
			e := s.clone()
			e.top().env[t] = hv{k: hErr}
			h.work = append(h.work, e)
			f.env[t] = hv{k: hNil}
		}
		return true
	}
	// a nil pointer as a receiver is fine, an untested one is not
	deep := 0
	for _, g := range s.frames {
		if g.fn == fn {
			deep++
		}
	}
	if h.contract(fn) && (deep > 0 || h.recursive(fn)) {
		h.contr[fn] = true
		e := s.clone()
		e.top().env[t] = hv{k: hTuple, l: []hv{{k: hNil}, {k: hErr}}}
		if !h.noLog {
			e.note("list failed")
		}
		h.work = append(h.work, e)
		what := ""
		for _, x := range args[1:] {
			if x.k == hStr {
				what += h.arg(s, x)
			}
		}
		n := s.clone()
		if !h.noLog {
			n.note("list of " + what)
		}
		n.top().env[t] = hv{k: hTuple, l: []hv{{k: hNil}, {k: hNil}}}
		h.work = append(h.work, n)
		a := s.obj("list", nil)
		b := s.segment("list", hR(a), hv{k: hNil}, hv{k: hNil})
		s.objs[a].named = false
		s.detached(a)
		s.set(a, fNext, hv{k: hSeg, o: b})
		s.objs[a].name = fmt.Sprintf("list%d", a)
		s.objs[a].fields["of"] = hText("c" + what)
		f.env[t] = hv{k: hTuple, l: []hv{hR(a), {k: hNil}}}
		return true
	}
	if rt, ok := t.Type().Underlying().(*types.Pointer); ok && h.recursive(fn) && len(args) == 1 && !h.p.isNodeType(rt.Elem()) {
		f.env[t] = hv{k: hOpq, s: fn.Name() + "(" + h.arg(s, args[0]) + ")", t: t.Type()}
		return true
	}
	if deep > 2 || len(s.frames) > 30 {
		h.giveUp(s, t, "a recursive call of "+fn.Name())
		return false
	}
	if len(fn.Params) != len(args) {
		h.giveUp(s, t, "a call with free variables: "+fn.Name())
		return false
	}
	if sig := fn.Signature; sig.Recv() != nil {
		// a value receiver is a copy
		if _, isP := sig.Recv().Type().Underlying().(*types.Pointer); !isP && args[0].k == hRef {
			args[0] = hv{k: hStruct, o: args[0].o}
		}
	}
	nf := &hFrame{fn: fn, b: fn.Blocks[0], env: map[ssa.Value]hv{}, call: t}
	for i, pa := range fn.Params {
		nf.env[pa] = args[i]
	}
	h.prep(fn)
	s.frames = append(s.frames, nf)
	h.work = append(h.work, s)
	return false
}

func (p *Program) isNodeType(t types.Type) bool {
	for _, n := range p.nodeTypes() {
		if types.Identical(n, t) {
			return true
		}
	}
	return false
}

// textish: unknown texts are texts.
func (h *hRun) textish(v hv) hv {
	if v.k == hTuple {
		for i := range v.l {
			v.l[i] = h.textish(v.l[i])
		}
		return v
	}
	if v.k != hUnk || v.t == nil {
		return v
	}
	return v
}

// contract: the function builds a list of nodes that has no parent yet.
func (h *hRun) contract(fn *ssa.Function) bool {
	r := fn.Signature.Results()
	return r.Len() == 2 && typeName(r.At(0).Type()) == "Node" && isErrorType(r.At(1).Type())
}

func (h *hRun) recursive(fn *ssa.Function) bool {
	if h.rec == nil {
		h.rec = map[*ssa.Function]bool{}
		g := h.p.graph()
		for _, scc := range g.sccs(func(*cgEdge) bool { return true }) {
			if len(scc) > 1 {
				for _, f := range scc {
					h.rec[f] = true
				}
				continue
			}
			for _, e := range g.out[scc[0]] {
				if e.to == scc[0] {
					h.rec[scc[0]] = true
				}
			}
		}
	}
	return h.rec[fn]
}

func (p *Program) inModuleType(t types.Type) bool {
	n := namedOf(t)
	return t == nil || n != nil && n.Obj().Pkg() != nil && strings.HasPrefix(n.Obj().Pkg().Path(), p.mod)
}

func (h *hRun) builtin(s *hState, t *ssa.Call, b *ssa.Builtin) bool {
	f := s.top()
	var args []hv
	for _, a := range t.Call.Args {
		args = append(args, h.val(s, a))
	}
	switch b.Name() {
	case "len":
		v := args[0]
		if v.k == hSlice {
			f.env[t] = hI(int64(len(v.l)))
			return true
		}
		if p, ok := h.text(s, v); ok {
			if known(p) {
				n := 0
				for _, e := range p {
					n += len(e) - 1
				}
				f.env[t] = hI(int64(n))
				return true
			}
			f.env[t] = hv{k: hLen, l: hText(p...).l}
			return true
		}
		f.env[t] = hv{k: hUnk, t: t.Type()}
	case "append":
		if _, ok := t.Type().Underlying().(*types.Slice).Elem().Underlying().(*types.Basic); ok {
			p, ok1 := h.text(s, args[0])
			q, ok2 := h.text(s, args[1])
			if h.collect == "written" && len(q) == 1 && strings.HasPrefix(q[0], "scontent(") && ok1 && (len(p) == 0 || len(p) == 1 && p[0] == "sbuffer") {
				// the content of a child is added to what is put together
				o := 0
				fmt.Sscanf(q[0], "scontent(%d)", &o)
				if m := s.markNext(o, "written"); m != "" {
					h.bad(t, m)
					return false
				}
				f.env[t] = hText("sbuffer")
				return true
			}
			if ok1 && ok2 {
				if len(p)+len(q) > 60 {
					h.giveUp(s, t, "a text that grows without bound")
					return false
				}
				f.env[t] = hText(append(append([]string(nil), p...), q...)...)
				return true
			}
		}
		if h.collect != "" && len(args) == 2 && args[1].k == hSlice && (args[0].k == hNil || args[0].k == hSlice && len(args[0].l) == 0 || args[0].k == hOpq && args[0].s == "collected") {
			for _, a := range args[1].l {
				if a.k != hRef {
					h.giveUp(s, t, "something unknown is collected")
					return false
				}
				if m := s.markNext(a.o, h.collect); m != "" {
					h.bad(t, m)
					return false
				}
			}
			f.env[t] = hv{k: hOpq, s: "collected"}
			return true
		}
		r := hv{k: hSlice}
		for _, a := range args {
			switch a.k {
			case hSlice:
				r.l = append(r.l, a.l...)
			case hNil:
			default:
				a.s = "all of " + a.s
				r.l = append(r.l, hv{k: hOpq, s: a.s})
			}
		}
		if len(r.l) > 12 {
			h.giveUp(s, t, "a slice that grows without bound")
			return false
		}
		f.env[t] = r
	case "copy":
		if args[0].k == hMk {
			ob := s.objs[args[0].o]
			p, ok := h.text(s, args[1])
			l := ob.fields["len"]
			if ok && (l.k == hLen && strings.Join(hv{k: hStr, l: l.l}.partsOf(), "\x00") == strings.Join(p, "\x00") || l.k == hInt && known(p)) {
				ob.fields[""] = hText(p...)
			} else {
				ob.fields[""] = hText("scopied")
			}
			f.env[t] = hv{k: hUnk, t: t.Type()}
			return true
		}
		h.giveUp(s, t, "a copy that is not understood")
		return false
	case "delete":
		m := args[0]
		if m.k == hSym {
			s.facts[m.s] = h.something(s, m)
			m = s.resolve(m)
		}
		if m.k == hRef {
			s.objs[m.o].fields["["+h.arg(s, args[1])+"]"] = hv{k: hUnk, s: "deleted"}
			return true
		}
		h.giveUp(s, t, "a map that is not known")
		return false
	default:
		f.env[t] = hv{k: hUnk, t: t.Type()}
	}
	return true
}

func (v hv) partsOf() []string {
	var r []string
	for _, e := range v.l {
		r = append(r, e.s)
	}
	return r
}

// least: no length is less.
func (s *hState) least(v hv) int64 {
	m := v.n
	for _, p := range v.l {
		if p.s[0] == 'c' {
			m += int64(len(p.s) - 1)
		} else if s.neq["!="+p.s] {
			m++
		}
	}
	return m
}

// pos: the length of the parts, and n.
func pos(parts []string, n int64) hv {
	var sy []string
	for _, p := range parts {
		if p[0] == 'c' {
			n += int64(len(p) - 1)
		} else {
			sy = append(sy, p)
		}
	}
	if len(sy) == 0 {
		return hI(n)
	}
	sort.Strings(sy)
	v := hText(sy...)
	v.k, v.n = hPos, n
	return v
}

func posAdd(op token.Token, a, b hv) (hv, bool) {
	if a.k == hInt {
		a, b = b, a
		if op == token.SUB {
			return hv{}, false
		}
	}
	if a.k != hLen && a.k != hPos || b.k != hInt {
		return hv{}, false
	}
	n := b.n
	if op == token.SUB {
		n = -n
	}
	return pos(a.partsOf(), a.n+n), true
}

// splitText cuts a text at a place.
func splitText(parts []string, at hv) (before, after []string, ok bool) {
	left := map[string]int{}
	n := int64(0)
	switch at.k {
	case hInt:
		n = at.n
	case hLen, hPos:
		at = pos(at.partsOf(), at.n)
		n = at.n
		for _, p := range at.l {
			left[p.s]++
		}
	default:
		return nil, nil, false
	}
	if n < 0 {
		return nil, nil, false
	}
	for i, p := range parts {
		if n == 0 && len(left) == 0 {
			return before, parts[i:], true
		}
		if p[0] == 's' {
			if left[p] == 0 {
				return nil, nil, false
			}
			if left[p]--; left[p] == 0 {
				delete(left, p)
			}
			before = append(before, p)
			continue
		}
		if l := int64(len(p) - 1); l <= n {
			n -= l
			before = append(before, p)
			continue
		}
		if len(left) > 0 {
			return nil, nil, false
		}
		return append(before, p[:1+n]), append([]string{"c" + p[1+n:]}, parts[i+1:]...), true
	}
	return before, nil, n == 0 && len(left) == 0
}

func cutText(parts []string, lo, hi ssa.Value, val func(ssa.Value) hv) ([]string, bool) {
	var skip []string
	if hi != nil {
		b, _, ok := splitText(parts, val(hi))
		if !ok {
			return nil, false
		}
		parts = b
	}
	if lo != nil {
		b, a, ok := splitText(parts, val(lo))
		if !ok {
			return nil, false
		}
		skip, parts = b, a
	}
	_ = skip
	return parts, true
}

// find: where a character is in a text (from the end, the last one).
func (h *hRun) find(parts []string, c byte, last bool) (at hv, ok bool) {
	n := len(parts)
	for i := 0; i < n; i++ {
		j := i
		if last {
			j = n - 1 - i
		}
		p := parts[j]
		if p[0] == 's' {
			if strings.IndexByte(h.without[p], c) < 0 {
				return hv{}, false
			}
			continue
		}
		k := strings.IndexByte(p[1:], c)
		if last {
			k = strings.LastIndexByte(p[1:], c)
		}
		if k >= 0 {
			return pos(parts[:j], int64(k)), true
		}
	}
	return hI(-1), true
}

// special: what the text does not contain is known.
func (h *hRun) special(s *hState, v hv) bool {
	if h.without == nil {
		return false
	}
	p, _ := h.text(s, v)
	for _, e := range p {
		if h.without[e] != "" {
			return true
		}
	}
	return false
}

// textCall: functions on texts whose result is known.
func (h *hRun) textCall(s *hState, fn *ssa.Function, args []hv) (hv, bool) {
	if h.without == nil || fn.Pkg == nil || fn.Signature.Recv() != nil || len(args) < 2 {
		return hv{}, false
	}
	if pk := fn.Pkg.Pkg.Path(); pk != "strings" && pk != "bytes" {
		return hv{}, false
	}
	p, ok := h.text(s, args[0])
	if !ok {
		return hv{}, false
	}
	var c byte
	switch a := s.resolve(args[1]); a.k {
	case hInt:
		if a.n < 1 || a.n > 127 {
			return hv{}, false
		}
		c = byte(a.n)
	case hStr:
		q, _ := h.text(s, a)
		if len(q) != 1 || len(q[0]) != 2 || q[0][0] != 'c' || q[0][1] > 127 {
			return hv{}, false
		}
		c = q[0][1]
	default:
		return hv{}, false
	}
	name := fn.Name()
	at, ok := h.find(p, c, strings.HasPrefix(name, "Last"))
	if !ok {
		return hv{}, false
	}
	found := at.k != hInt || at.n >= 0
	var before, after []string
	if found {
		var rest []string
		before, rest, _ = splitText(p, at)
		_, after, _ = splitText(rest, hI(1))
	}
	switch name {
	case "Index", "IndexByte", "IndexRune", "IndexAny", "LastIndex", "LastIndexByte", "LastIndexAny":
		return at, true
	case "Contains", "ContainsRune", "ContainsAny":
		return hB(found), true
	case "Cut":
		if !found {
			before = p
		}
		return hv{k: hTuple, l: []hv{hText(before...), hText(after...), hB(found)}}, true
	case "Split", "SplitN":
		if name == "SplitN" && (len(args) != 3 || args[2].k != hInt || args[2].n < 2) {
			return hv{}, false
		}
		if !found {
			return hv{k: hSlice, l: []hv{hText(p...)}}, true
		}
		if name == "Split" || args[2].n > 2 {
			if a, ok := h.find(after, c, false); !ok || a.k != hInt || a.n >= 0 {
				return hv{}, false
			}
		}
		return hv{k: hSlice, l: []hv{hText(before...), hText(after...)}}, true
	}
	return hv{}, false
}
