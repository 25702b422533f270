package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"strings"
	"unicode"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

// Exact evaluation of character predicates: functions of one integer that
// return a boolean and read nothing but tables fixed at initialisation.  The
// parameter stands for a set of numbers that is split at every comparison;
// everything else is a constant.

type pkind uint8

const (
	pInt  pkind = iota // constant k
	pPar               // the parameter plus k
	pStr               // constant string
	pAddr              // address inside a table
	pTab               // contents of a table cell of composite type
	pSl                // slice of a table: root, path, off, length k
	pNil
	pTup
	pMap
	pIter
)

type pv struct {
	k    pkind
	n    int64
	s    string
	root ssa.Value
	off  int64
	tup  []pv
}

type predEval struct {
	p      *Program
	steps  int
	tables map[ssa.Value]map[string]*ssa.Const // root -> path -> constant
	okG    map[*ssa.Global]bool
	failed string
}

type penv map[ssa.Value]pv

func (e penv) clone() penv {
	n := make(penv, len(e)+2)
	for k, v := range e {
		n[k] = v
	}
	return n
}

type predStop struct{ why string }

func (e *predEval) stop(f string, a ...interface{}) {
	panic(predStop{fmt.Sprintf(f, a...)})
}

// predSet: the values for which the predicate holds; nil if it cannot be told.
func (p *Program) predSet(fn *ssa.Function) (res *Set) {
	if s, ok := p.predMemo[fn]; ok {
		return s
	}
	if p.predMemo == nil {
		p.predMemo = map[*ssa.Function]*Set{}
	}
	p.predMemo[fn] = nil
	if len(fn.Blocks) == 0 || len(fn.Params) != 1 || len(fn.FreeVars) != 0 || fn.Signature.Results().Len() != 1 || !isBoolType(fn.Signature.Results().At(0).Type()) || !isIntType(fn.Params[0].Type()) {
		return nil
	}
	e := &predEval{p: p, tables: map[ssa.Value]map[string]*ssa.Const{}, okG: map[*ssa.Global]bool{}}
	defer func() {
		if x := recover(); x != nil {
			if ps, ok := x.(predStop); ok {
				e.failed = ps.why
				res = nil
				return
			}
			panic(x)
		}
	}()
	lo, hi, _, ok := intRange(fn.Params[0].Type())
	if !ok {
		return nil
	}
	yes := emptySet
	e.call(fn, []pv{{k: pPar}}, interval(lo, hi), 0, func(s *Set, v pv) {
		if v.k != pInt {
			e.stop("result is not a constant")
		}
		if v.n != 0 {
			yes = yes.Union(s)
		}
	})
	p.predMemo[fn] = yes
	return yes
}

func (e *predEval) call(fn *ssa.Function, args []pv, s *Set, depth int, ret func(*Set, pv)) {
	if depth > 6 || len(fn.Blocks) == 0 {
		e.stop("call of %s", fn)
	}
	env := penv{}
	for i, prm := range fn.Params {
		env[prm] = args[i]
	}
	e.block(fn.Blocks[0], nil, env, s, depth, ret)
}

func (e *predEval) block(b, from *ssa.BasicBlock, env penv, s *Set, depth int, ret func(*Set, pv)) {
	for {
		if s.Empty() {
			return
		}
		// phis at once
		var phis []*ssa.Phi
		var vals []pv
		i := 0
		for ; i < len(b.Instrs); i++ {
			ph, ok := b.Instrs[i].(*ssa.Phi)
			if !ok {
				break
			}
			for k, pr := range b.Preds {
				if pr == from {
					phis = append(phis, ph)
					vals = append(vals, e.val(env, ph.Edges[k]))
					break
				}
			}
		}
		for k, ph := range phis {
			env[ph] = vals[k]
		}
		nb := e.instrs(b, i, env, s, depth, ret)
		if nb == nil {
			return
		}
		from, b = b, nb
	}
}

// instrs executes the rest of a block; it returns the next block, or nil when
// the continuation was taken over (a split, a return).
func (e *predEval) instrs(b *ssa.BasicBlock, i int, env penv, s *Set, depth int, ret func(*Set, pv)) *ssa.BasicBlock {
	for ; i < len(b.Instrs); i++ {
		e.steps++
		if e.steps > 400000 {
			e.stop("too many steps")
		}
		in := b.Instrs[i]
		i := i
		// continue with value v for this instruction on the part t of s
		resume := func(t *Set, v pv) {
			if t.Empty() {
				return
			}
			en := env.clone()
			en[in.(ssa.Value)] = v
			if nb := e.instrs(b, i+1, en, t, depth, ret); nb != nil {
				e.block(nb, b, en, t, depth, ret)
			}
		}
		split := func(t *Set) {
			resume(s.Inter(t), pv{k: pInt, n: 1})
			resume(s.Minus(t), pv{k: pInt, n: 0})
		}
		switch x := in.(type) {
		case *ssa.DebugRef:
		case *ssa.Jump:
			return b.Succs[0]
		case *ssa.If:
			c := e.val(env, x.Cond)
			if c.k != pInt {
				e.stop("condition")
			}
			if c.n != 0 {
				return b.Succs[0]
			}
			return b.Succs[1]
		case *ssa.Return:
			ret(s, e.val(env, x.Results[0]))
			return nil
		case *ssa.BinOp:
			l, r := e.val(env, x.X), e.val(env, x.Y)
			if l.k == pPar || r.k == pPar {
				if n, ok := s.IsSingle(); ok {
					if l.k == pPar {
						l = pv{k: pInt, n: n + l.n}
					}
					if r.k == pPar {
						r = pv{k: pInt, n: n + r.n}
					}
				}
			}
			switch {
			case l.k == pInt && r.k == pInt:
				env[x] = pv{k: pInt, n: e.fold(x, l.n, r.n)}
				continue
			case l.k == pStr && r.k == pStr:
				switch x.Op {
				case token.EQL:
					env[x] = pbool(l.s == r.s)
				case token.NEQ:
					env[x] = pbool(l.s != r.s)
				case token.ADD:
					env[x] = pv{k: pStr, s: l.s + r.s}
				default:
					e.stop("string op")
				}
				continue
			case l.k == pNil || r.k == pNil:
				eq := l.k == r.k
				if x.Op == token.NEQ {
					eq = !eq
				}
				env[x] = pbool(eq)
				continue
			case l.k == pPar && r.k == pPar:
				d := l.n - r.n
				switch x.Op {
				case token.EQL, token.NEQ, token.LSS, token.LEQ, token.GTR, token.GEQ:
					env[x] = pbool(cmpInt(x.Op, d, 0))
					continue
				}
			case l.k == pPar && r.k == pInt, l.k == pInt && r.k == pPar:
				op := x.Op
				pr, c := l, r.n
				if r.k == pPar {
					pr, c, op = r, l.n, flipOp(x.Op)
				}
				switch x.Op {
				case token.EQL, token.NEQ, token.LSS, token.LEQ, token.GTR, token.GEQ:
					k := single(c)
					split(opSet(op, k).Shift(-pr.n))
					return nil
				case token.ADD, token.SUB:
					var v pv
					if x.Op == token.ADD {
						v = pv{k: pPar, n: pr.n + c}
					} else if l.k == pPar {
						v = pv{k: pPar, n: pr.n - c}
					} else {
						break
					}
					if e.convert(x.Type(), v, s, resume) {
						return nil
					}
					e.stop("arithmetic may overflow")
				}
			}
			e.enumerate(b, i, env, s, depth, ret)
			return nil
		case *ssa.UnOp:
			v := e.val(env, x.X)
			switch x.Op {
			case token.NOT:
				if v.k != pInt {
					e.stop("not")
				}
				env[x] = pv{k: pInt, n: 1 - v.n}
			case token.SUB:
				if v.k != pInt {
					e.stop("negation")
				}
				env[x] = pv{k: pInt, n: -v.n}
			case token.MUL:
				if g, ok := x.X.(*ssa.Global); ok {
					env[x] = e.global(g)
					continue
				}
				if v.k != pAddr {
					e.stop("load")
				}
				env[x] = e.load(v.root, v.s, x.Type())
			default:
				e.stop("unary %s", x.Op)
			}
		case *ssa.Convert, *ssa.ChangeType:
			var src ssa.Value
			if c, ok := x.(*ssa.Convert); ok {
				src = c.X
			} else {
				src = x.(*ssa.ChangeType).X
			}
			v := e.val(env, src)
			if v.k == pPar {
				if n, ok := s.IsSingle(); ok {
					v = pv{k: pInt, n: n + v.n}
				}
			}
			switch v.k {
			case pInt:
				lo, hi, bits, ok := intRange(x.(ssa.Value).Type())
				if !ok {
					e.stop("conversion")
				}
				if v.n < lo || v.n > hi {
					w := single(v.n).wrap(lo, hi, bits)
					n, ok := w.IsSingle()
					if !ok {
						e.stop("conversion")
					}
					v.n = n
				}
				env[x.(ssa.Value)] = v
			case pPar:
				if isIntType(x.(ssa.Value).Type()) {
					if e.convert(x.(ssa.Value).Type(), v, s, resume) {
						return nil
					}
				}
				e.enumerate(b, i, env, s, depth, ret)
				return nil
			default:
				env[x.(ssa.Value)] = v
			}
		case *ssa.Alloc:
			// a local variable: only as a copy of a table entry
			env[x] = pv{k: pAddr, root: x}
		case *ssa.Store:
			a := e.val(env, x.Addr)
			al, ok := a.root.(*ssa.Alloc)
			if a.k != pAddr || !ok || a.s != "" || al.Parent() != b.Parent() {
				e.stop("store")
			}
			// remember the whole value under the variable
			env[predCell{al}] = e.val(env, x.Val)
		case *ssa.FieldAddr:
			v := e.val(env, x.X)
			if v.k != pAddr {
				e.stop("field")
			}
			env[x] = e.inLocal(env, pv{k: pAddr, root: v.root, s: v.s + fmt.Sprintf(".%d", x.Field)})
		case *ssa.Field:
			v := e.val(env, x.X)
			if v.k != pTab {
				e.stop("field")
			}
			env[x] = e.load(v.root, v.s+fmt.Sprintf(".%d", x.Field), x.Type())
		case *ssa.IndexAddr, *ssa.Index:
			var bx, ix ssa.Value
			if a, ok := x.(*ssa.IndexAddr); ok {
				bx, ix = a.X, a.Index
			} else {
				a := x.(*ssa.Index)
				bx, ix = a.X, a.Index
			}
			v, k := e.val(env, bx), e.val(env, ix)
			if k.k == pPar {
				e.enumerate(b, i, env, s, depth, ret)
				return nil
			}
			if k.k != pInt {
				e.stop("index")
			}
			val := x.(ssa.Value)
			switch v.k {
			case pStr:
				if k.n < 0 || k.n >= int64(len(v.s)) {
					e.stop("index out of range")
				}
				env[val] = pv{k: pInt, n: int64(v.s[k.n])}
			case pSl:
				if k.n < 0 || k.n >= v.n {
					e.stop("index out of range")
				}
				env[val] = pv{k: pAddr, root: v.root, s: v.s + fmt.Sprintf("[%d]", v.off+k.n)}
			case pAddr:
				if at, ok := bx.Type().Underlying().(*types.Pointer); ok {
					if ar, ok := at.Elem().Underlying().(*types.Array); ok && (k.n < 0 || k.n >= ar.Len()) {
						e.stop("index out of range")
					}
				}
				env[val] = e.inLocal(env, pv{k: pAddr, root: v.root, s: v.s + fmt.Sprintf("[%d]", k.n)})
			case pTab:
				if ar, ok := bx.Type().Underlying().(*types.Array); ok && (k.n < 0 || k.n >= ar.Len()) {
					e.stop("index out of range")
				}
				env[val] = e.load(v.root, v.s+fmt.Sprintf("[%d]", k.n), val.Type())
			default:
				e.stop("index")
			}
		case *ssa.Slice:
			v := e.val(env, x.X)
			if v.k != pSl && v.k != pAddr && v.k != pStr {
				e.stop("slice")
			}
			n := v.n
			if v.k == pAddr {
				at, ok := x.X.Type().Underlying().(*types.Pointer)
				if !ok {
					e.stop("slice")
				}
				n = at.Elem().Underlying().(*types.Array).Len()
			} else if v.k == pStr {
				n = int64(len(v.s))
			}
			lo, hi := int64(0), n
			for k, o := range []ssa.Value{x.Low, x.High} {
				if o == nil {
					continue
				}
				c := e.val(env, o)
				if c.k != pInt {
					e.stop("slice bound")
				}
				if k == 0 {
					lo = c.n
				} else {
					hi = c.n
				}
			}
			if lo < 0 || hi < lo || hi > n {
				e.stop("slice out of range")
			}
			if v.k == pStr {
				env[x] = pv{k: pStr, s: v.s[lo:hi]}
			} else {
				env[x] = pv{k: pSl, root: v.root, s: v.s, off: v.off + lo, n: hi - lo}
			}
		case *ssa.Range:
			v := e.val(env, x.X)
			if v.k != pStr {
				e.stop("range")
			}
			env[x] = pv{k: pIter, s: v.s}
		case *ssa.Next:
			it := e.val(env, x.Iter)
			if it.k != pIter {
				e.stop("range")
			}
			if it.n >= int64(len(it.s)) {
				env[x] = pv{k: pTup, tup: []pv{pbool(false), {k: pInt}, {k: pInt}}}
			} else {
				r, w := utf8.DecodeRuneInString(it.s[it.n:])
				env[x] = pv{k: pTup, tup: []pv{pbool(true), {k: pInt, n: it.n}, {k: pInt, n: int64(r)}}}
				it.n += int64(w)
				env[x.Iter] = it
			}
		case *ssa.Extract:
			v := e.val(env, x.Tuple)
			if v.k != pTup {
				e.stop("tuple")
			}
			env[x] = v.tup[x.Index]
		case *ssa.Lookup:
			v, k := e.val(env, x.X), e.val(env, x.Index)
			if v.k == pStr && k.k == pInt && k.n >= 0 && k.n < int64(len(v.s)) {
				env[x] = pv{k: pInt, n: int64(v.s[k.n])}
				continue
			}
			if v.k != pMap {
				if k.k == pPar {
					e.enumerate(b, i, env, s, depth, ret)
					return nil
				}
				e.stop("lookup")
			}
			elem := x.X.Type().Underlying().(*types.Map).Elem()
			rest := s
			for _, me := range e.mapEntries(v.root) {
				var part *Set
				switch {
				case k.k == pPar:
					part = rest.Inter(single(me.k - k.n))
				case k.k == pInt && k.n == me.k:
					part = rest
				case k.k == pInt:
					continue
				default:
					e.stop("lookup")
				}
				rest = rest.Minus(part)
				v := e.constant(me.v)
				if x.CommaOk {
					v = pv{k: pTup, tup: []pv{v, pbool(true)}}
				}
				resume(part, v)
			}
			z := e.zero(elem)
			if x.CommaOk {
				z = pv{k: pTup, tup: []pv{z, pbool(false)}}
			}
			resume(rest, z)
			return nil
		case *ssa.Call:
			var args []pv
			if bi, ok := x.Call.Value.(*ssa.Builtin); ok {
				if bi.Name() == "len" || bi.Name() == "cap" {
					v := e.val(env, x.Call.Args[0])
					switch v.k {
					case pStr:
						env[x] = pv{k: pInt, n: int64(len(v.s))}
						continue
					case pSl:
						env[x] = pv{k: pInt, n: v.n}
						continue
					}
				}
				e.stop("builtin %s", bi.Name())
			}
			sc := x.Call.StaticCallee()
			if sc == nil {
				e.stop("dynamic call")
			}
			if t := e.libSet(sc, &x.Call, env, s); t != nil {
				split(t)
				return nil
			}
			if !e.p.inModule(sc) {
				e.stop("call of %s", sc)
			}
			for _, a := range x.Call.Args {
				args = append(args, e.val(env, a))
			}
			if sc.Signature.Results().Len() != 1 {
				e.stop("results")
			}
			e.call(sc, args, s, depth+1, resume)
			return nil
		default:
			e.stop("%T", in)
		}
	}
	return nil
}

// predCell keys the contents of a local variable in the environment.
type predCell struct{ *ssa.Alloc }

// inLocal redirects an address inside a local copy to the table it copies.
func (e *predEval) inLocal(env penv, a pv) pv {
	if al, ok := a.root.(*ssa.Alloc); ok {
		if c, ok := env[predCell{al}]; ok {
			if c.k != pTab {
				e.stop("local variable")
			}
			return pv{k: pAddr, root: c.root, s: c.s + a.s}
		}
	}
	return a
}

func pbool(b bool) pv {
	if b {
		return pv{k: pInt, n: 1}
	}
	return pv{k: pInt}
}

// enumerate runs the rest once per value of the parameter.
func (e *predEval) enumerate(b *ssa.BasicBlock, i int, env penv, s *Set, depth int, ret func(*Set, pv)) {
	if s.Count() > 600 {
		e.stop("too many values at %T", b.Instrs[i])
	}
	for _, r := range s.r {
		for n := r[0]; n <= r[1]; n++ {
			en := env.clone()
			for k, v := range en {
				if v.k == pPar {
					en[k] = pv{k: pInt, n: n + v.n}
				}
			}
			t := single(n)
			if nb := e.instrs(b, i, en, t, depth, ret); nb != nil {
				e.block(nb, b, en, t, depth, ret)
			}
		}
	}
}

// convert splits the parameter's values by how they come out in type t.
func (e *predEval) convert(t types.Type, v pv, s *Set, resume func(*Set, pv)) bool {
	lo, hi, bits, ok := intRange(t)
	if !ok {
		return false
	}
	if bits >= 64 {
		if lo < 0 || s.Shift(v.n).Min() >= 0 {
			resume(s, v)
			return true
		}
		return false
	}
	size := int64(1) << bits
	for k := int64(-2); k <= 2; k++ {
		// v + k*size in range
		part := s.Inter(interval(lo, hi).Shift(-v.n - k*size))
		s = s.Minus(part)
		resume(part, pv{k: pPar, n: v.n + k*size})
	}
	if !s.Empty() {
		e.stop("conversion of %s", s)
	}
	return true
}

func (e *predEval) fold(x *ssa.BinOp, a, b int64) int64 {
	bo := func(c bool) int64 {
		if c {
			return 1
		}
		return 0
	}
	var n int64
	switch x.Op {
	case token.EQL, token.NEQ, token.LSS, token.LEQ, token.GTR, token.GEQ:
		return bo(cmpInt(x.Op, a, b))
	case token.ADD:
		n = a + b
	case token.SUB:
		n = a - b
	case token.MUL:
		n = a * b
	case token.QUO:
		if b == 0 {
			e.stop("division by zero")
		}
		n = a / b
	case token.REM:
		if b == 0 {
			e.stop("division by zero")
		}
		n = a % b
	case token.AND:
		n = a & b
	case token.OR:
		n = a | b
	case token.XOR:
		n = a ^ b
	case token.AND_NOT:
		n = a &^ b
	case token.SHL:
		if b < 0 || b > 63 {
			n = 0
		} else {
			n = a << uint(b)
		}
	case token.SHR:
		if b < 0 || b > 63 {
			n = 0
		} else {
			n = a >> uint(b)
		}
	default:
		e.stop("operator %s", x.Op)
	}
	if lo, hi, bits, ok := intRange(x.Type()); ok && (n < lo || n > hi) {
		w, ok := single(n).wrap(lo, hi, bits).IsSingle()
		if !ok {
			e.stop("overflow")
		}
		n = w
	}
	return n
}

func (e *predEval) constant(c *ssa.Const) pv {
	if c.Value == nil {
		switch c.Type().Underlying().(type) {
		case *types.Basic:
		default:
			return pv{k: pNil}
		}
		return e.zero(c.Type())
	}
	switch c.Value.Kind() {
	case constant.Bool:
		return pbool(constant.BoolVal(c.Value))
	case constant.String:
		return pv{k: pStr, s: constant.StringVal(c.Value)}
	case constant.Int:
		if n, ok := constant.Int64Val(c.Value); ok {
			return pv{k: pInt, n: n}
		}
		if u, ok := constant.Uint64Val(c.Value); ok {
			return pv{k: pInt, n: int64(u)}
		}
	}
	e.stop("constant %s", c)
	return pv{}
}

func (e *predEval) zero(t types.Type) pv {
	if b, ok := t.Underlying().(*types.Basic); ok {
		if b.Info()&types.IsString != 0 {
			return pv{k: pStr}
		}
		if b.Info()&(types.IsInteger|types.IsBoolean) != 0 {
			return pv{k: pInt}
		}
	}
	e.stop("zero value of %s", t)
	return pv{}
}

func (e *predEval) val(env penv, v ssa.Value) pv {
	switch x := v.(type) {
	case *ssa.Const:
		return e.constant(x)
	case *ssa.Global:
		if !e.fixed(x) {
			e.stop("table %s may change", x.Name())
		}
		return pv{k: pAddr, root: x}
	}
	if r, ok := env[v]; ok {
		return r
	}
	e.stop("no value for %s", v.Name())
	return pv{}
}

// global reads a package variable as a whole.
func (e *predEval) global(g *ssa.Global) pv {
	if !e.fixed(g) {
		e.stop("table %s may change", g.Name())
	}
	t := g.Type().(*types.Pointer).Elem()
	switch t.Underlying().(type) {
	case *types.Array, *types.Struct:
		return pv{k: pTab, root: g}
	case *types.Basic:
		return e.load(g, "", t)
	case *types.Slice, *types.Map:
		var st ssa.Value
		n := 0
		for _, in := range e.initStores(g) {
			if in.Addr == ssa.Value(g) {
				st = in.Val
				n++
			}
		}
		if n != 1 {
			e.stop("table %s", g.Name())
		}
		switch x := st.(type) {
		case *ssa.Slice:
			al, ok := x.X.(*ssa.Alloc)
			if !ok || x.Low != nil || x.High != nil {
				e.stop("table %s", g.Name())
			}
			return pv{k: pSl, root: al, n: al.Type().(*types.Pointer).Elem().Underlying().(*types.Array).Len()}
		case *ssa.MakeMap:
			return pv{k: pMap, root: x}
		}
	}
	e.stop("table %s", g.Name())
	return pv{}
}

func (e *predEval) initStores(g *ssa.Global) (l []*ssa.Store) {
	if g.Pkg == nil {
		return
	}
	fn := g.Pkg.Func("init")
	if fn == nil {
		return
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if s, ok := in.(*ssa.Store); ok {
				l = append(l, s)
			}
		}
	}
	return
}

// fixed: nothing but the initialisation writes to the variable (or through it).
func (e *predEval) fixed(g *ssa.Global) bool {
	if r, ok := e.okG[g]; ok {
		return r
	}
	e.okG[g] = false
	if g.Pkg == nil || e.p.ssaPkgs[g.Pkg.Pkg.Path()] != g.Pkg {
		return false
	}
	var readOnly func(v ssa.Value, d int) bool
	readOnly = func(v ssa.Value, d int) bool {
		if d > 8 {
			return false
		}
		if v.Referrers() == nil {
			return true
		}
		for _, ref := range *v.Referrers() {
			switch x := ref.(type) {
			case *ssa.IndexAddr, *ssa.FieldAddr, *ssa.Slice, *ssa.Field, *ssa.Index:
				if !readOnly(x.(ssa.Value), d+1) {
					return false
				}
			case *ssa.UnOp:
				if pointerish(x.Type()) && !readOnly(x, d+1) {
					return false
				}
			case *ssa.Lookup, *ssa.Range, *ssa.DebugRef, *ssa.BinOp:
			case *ssa.Store:
				if x.Addr == v {
					return false
				}
				// a copy of a value without pointers
				if pt, ok := x.Val.Type().Underlying().(*types.Pointer); ok && pt != nil {
					return false
				}
				if _, ok := x.Val.Type().Underlying().(*types.Slice); ok {
					return false
				}
			case *ssa.Call:
				if bi, ok := x.Call.Value.(*ssa.Builtin); !ok || bi.Name() != "len" && bi.Name() != "cap" {
					return false
				}
			default:
				return false
			}
		}
		return true
	}
	for _, fn := range e.p.allFuncsWithInit() {
		if fn.Name() == "init" && fn.Synthetic != "" {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				var ops []*ssa.Value
				for _, op := range in.Operands(ops) {
					if *op != ssa.Value(g) {
						continue
					}
					switch x := in.(type) {
					case *ssa.UnOp:
						if pointerish(x.Type()) && !readOnly(x, 0) {
							return false
						}
					case *ssa.IndexAddr, *ssa.FieldAddr, *ssa.Slice:
						if !readOnly(x.(ssa.Value), 0) {
							return false
						}
					case *ssa.DebugRef:
					default:
						return false
					}
				}
			}
		}
	}
	e.okG[g] = true
	return true
}

// table collects the constants stored below a root by the initialisation.
func (e *predEval) table(root ssa.Value) map[string]*ssa.Const {
	if t, ok := e.tables[root]; ok {
		return t
	}
	t := map[string]*ssa.Const{}
	e.tables[root] = t
	var fn *ssa.Function
	switch x := root.(type) {
	case *ssa.Global:
		fn = x.Pkg.Func("init")
	case *ssa.Alloc:
		fn = x.Parent()
		if fn.Name() != "init" || fn.Synthetic == "" {
			e.stop("local table")
		}
	}
	if fn == nil {
		e.stop("no initialisation")
	}
	var path func(a ssa.Value) (string, bool)
	path = func(a ssa.Value) (string, bool) {
		if a == root {
			return "", true
		}
		switch x := a.(type) {
		case *ssa.FieldAddr:
			s, ok := path(x.X)
			return s + fmt.Sprintf(".%d", x.Field), ok
		case *ssa.IndexAddr:
			s, ok := path(x.X)
			if !ok {
				return "", false
			}
			c, isC := x.Index.(*ssa.Const)
			if !isC {
				e.stop("computed table")
			}
			return s + fmt.Sprintf("[%d]", cint(c)), true
		}
		return "", false
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			st, ok := in.(*ssa.Store)
			if !ok {
				continue
			}
			ps, ok := path(st.Addr)
			if !ok {
				continue
			}
			c, isC := st.Val.(*ssa.Const)
			if !isC {
				// a composite built elsewhere and copied
				u, ok := st.Val.(*ssa.UnOp)
				if !ok || u.Op != token.MUL {
					e.stop("table entry is computed")
				}
				al, ok := u.X.(*ssa.Alloc)
				if !ok {
					e.stop("table entry is computed")
				}
				for k, v := range e.table(al) {
					t[ps+k] = v
				}
				continue
			}
			t[ps] = c
		}
	}
	return t
}

func (e *predEval) load(root ssa.Value, path string, t types.Type) pv {
	switch t.Underlying().(type) {
	case *types.Array, *types.Struct:
		return pv{k: pTab, root: root, s: path}
	}
	tab := e.table(root)
	if c, ok := tab[path]; ok {
		return e.constant(c)
	}
	for k, c := range tab {
		// an enclosing value set to zero
		if k != "" && strings.HasPrefix(path, k) && c.Value != nil {
			e.stop("table")
		}
	}
	return e.zero(t)
}

type mapEntry struct {
	k int64
	v *ssa.Const
}

func (e *predEval) mapEntries(m ssa.Value) (l []mapEntry) {
	for _, ref := range *m.Referrers() {
		switch x := ref.(type) {
		case *ssa.MapUpdate:
			k, ok1 := x.Key.(*ssa.Const)
			v, ok2 := x.Value.(*ssa.Const)
			if !ok1 || !ok2 || k.Value == nil || k.Value.Kind() != constant.Int {
				if ok1 && k.Value == nil {
					e.stop("map key")
				}
				e.stop("map entry is computed")
			}
			l = append(l, mapEntry{cint(k), v})
		case *ssa.Store, *ssa.DebugRef:
		default:
			e.stop("map")
		}
	}
	return
}

// libSet: the parameter values for which a library predicate holds.
func (e *predEval) libSet(sc *ssa.Function, cc *ssa.CallCommon, env penv, s *Set) *Set {
	pkg, _, name := fnQual(sc)
	var t *Set
	arg := 0
	switch pkg {
	case "unicode":
		t = uniPred(name)
		if name == "Is" || name == "In" {
			r := &run{}
			t = r.unicodeTables(nil, cc, name)
			if name == "Is" {
				arg = 1
			}
		}
	case "unicode/utf8":
		if name == "ValidRune" {
			t = interval(0, 0xd7ff).Union(interval(0xe000, 0x10ffff))
		}
	case "strings":
		if name == "ContainsRune" {
			str := e.val(env, cc.Args[0])
			if str.k != pStr {
				return nil
			}
			t = charSet(str.s)
			arg = 1
		}
	}
	if t == nil {
		return nil
	}
	v := e.val(env, cc.Args[arg])
	switch v.k {
	case pPar:
		return t.Shift(-v.n)
	case pInt:
		if t.Has(v.n) {
			return s
		}
		return emptySet
	}
	return nil
}

var uniPreds = map[string]*Set{}

// uniPred: the characters of a predicate of package unicode.
func uniPred(name string) *Set {
	if s, ok := uniPreds[name]; ok {
		return s
	}
	var set *Set
	switch name {
	case "IsLetter":
		set = uniLetter
	case "IsDigit":
		set = uniDigit
	case "IsNumber":
		set = tableSet(unicode.Number)
	case "IsMark":
		set = tableSet(unicode.Mark)
	case "IsUpper":
		set = tableSet(unicode.Upper)
	case "IsLower":
		set = tableSet(unicode.Lower)
	case "IsTitle":
		set = tableSet(unicode.Title)
	case "IsControl":
		set = tableSet(unicode.Cc)
	case "IsPunct":
		set = tableSet(unicode.P)
	case "IsSymbol":
		set = tableSet(unicode.S)
	case "IsSpace":
		set = xmlS.Union(interval(0x0b, 0x0c)).Union(single(0x85)).Union(single(0xa0)).Union(single(0x1680)).Union(interval(0x2000, 0x200a)).Union(interval(0x2028, 0x2029)).Union(single(0x202f)).Union(single(0x205f)).Union(single(0x3000))
	}
	uniPreds[name] = set
	return set
}
