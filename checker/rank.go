package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Ranking of loops: every way around a loop must strictly decrease a measure
// that is bounded below: the distance of a counter from an invariant bound,
// the length of a slice or string, what is left in a reader, or the rest of a
// linked chain.  All ways around the loop are enumerated over SSA with a small
// relational domain (offsets from the values at the loop head); an inner loop
// is entered once exactly and then summarised by what its counters can only do.

var rankDebug = os.Getenv("RANKDBG") != ""

type natLoop struct {
	fn   *ssa.Function
	head *ssa.BasicBlock
	body map[*ssa.BasicBlock]bool
}

func naturalLoops(fn *ssa.Function) []*natLoop {
	m := map[*ssa.BasicBlock]*natLoop{}
	for _, b := range fn.Blocks {
		for _, s := range b.Succs {
			if !s.Dominates(b) {
				continue
			}
			l := m[s]
			if l == nil {
				l = &natLoop{fn, s, map[*ssa.BasicBlock]bool{s: true}}
				m[s] = l
			}
			stack := []*ssa.BasicBlock{b}
			for len(stack) > 0 {
				x := stack[len(stack)-1]
				stack = stack[:len(stack)-1]
				if l.body[x] {
					continue
				}
				l.body[x] = true
				stack = append(stack, x.Preds...)
			}
		}
	}
	var res []*natLoop
	for _, b := range fn.Blocks {
		if m[b] != nil {
			res = append(res, m[b])
		}
	}
	return res
}

// irreducible reports whether fn has a cycle that is not a natural loop.
func irreducible(fn *ssa.Function) bool {
	state := map[*ssa.BasicBlock]int{}
	bad := false
	var dfs func(b *ssa.BasicBlock)
	dfs = func(b *ssa.BasicBlock) {
		state[b] = 1
		for _, s := range b.Succs {
			if s.Dominates(b) {
				continue
			}
			switch state[s] {
			case 0:
				dfs(s)
			case 1:
				bad = true
			}
		}
		state[b] = 2
	}
	if len(fn.Blocks) > 0 {
		dfs(fn.Blocks[0])
	}
	return bad
}

type rv struct {
	kind byte // i integer, s slice or string, p pointer chain, o opaque, t tuple
	sym  string
	off  int64 // i: added constant; s: elements removed; p: steps
	adds []string
	fld  string // p: the link followed
	tup  []rv
	cst  bool // i: a constant (sym is empty)
}

func (v rv) key() string {
	return fmt.Sprintf("%c%s+%d%s%s", v.kind, v.sym, v.off, strings.Join(v.adds, "+"), v.fld)
}

type rankState struct {
	env   map[ssa.Value]rv
	cells map[*ssa.Alloc]rv
	memo  map[string]bool
	rel   map[string]rv // symbol -> a value it is at least as far along as
	reads map[string]int
	pend  map[string]string // key of the error of a read -> reader
	seen  map[*ssa.BasicBlock]int
	lows  map[string]func(*rankState) int64
	less  []rankLess
	epoch int
}

type rankLess struct{ a, b rv } // a < b holds (as facts established on the path)

func (s *rankState) clone() *rankState {
	n := &rankState{env: map[ssa.Value]rv{}, cells: map[*ssa.Alloc]rv{}, memo: map[string]bool{}, rel: map[string]rv{},
		reads: map[string]int{}, pend: map[string]string{}, seen: map[*ssa.BasicBlock]int{}, lows: s.lows, less: append([]rankLess(nil), s.less...), epoch: s.epoch}
	for k, v := range s.env {
		n.env[k] = v
	}
	for k, v := range s.cells {
		n.cells[k] = v
	}
	for k, v := range s.memo {
		n.memo[k] = v
	}
	for k, v := range s.rel {
		n.rel[k] = v
	}
	for k, v := range s.reads {
		n.reads[k] = v
	}
	for k, v := range s.pend {
		n.pend[k] = v
	}
	for k, v := range s.seen {
		n.seen[k] = v
	}
	return n
}

type ranker struct {
	p      *Program
	l      *natLoop
	inner  map[*ssa.BasicBlock]*natLoop
	n      int
	paths  int
	limit  int
	over   bool
	cells  map[*ssa.Alloc]bool
	shared map[*ssa.Alloc]bool // also visible to closures
	cyc    []*rankState        // states at the back edges
	cycVal []map[string]rv     // measure name -> value there
	heads  map[string]rv       // measure name -> value at the head
	rlo    map[string]int64
}

func (k *ranker) fresh(p string) string { k.n++; return fmt.Sprintf("%s~%d", p, k.n) }

// localCell reports whether an alloc is only loaded and stored directly;
// captured says whether closures see it too.
func localCell(a *ssa.Alloc) (ok, captured bool) {
	for _, r := range *a.Referrers() {
		switch x := r.(type) {
		case *ssa.Store:
			if x.Addr != a {
				return false, false
			}
		case *ssa.UnOp:
		case *ssa.MakeClosure:
			captured = true
		case *ssa.DebugRef:
		default:
			return false, false
		}
	}
	return true, captured
}

func isSliceOrString(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Slice:
		return true
	case *types.Basic:
		return u.Info()&types.IsString != 0
	}
	return false
}

func isPtrLike(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Pointer, *types.Interface:
		return true
	}
	return false
}

func (k *ranker) initial(name string, t types.Type) rv {
	switch {
	case isIntType(t):
		return rv{kind: 'i', sym: name}
	case isSliceOrString(t):
		return rv{kind: 's', sym: name}
	case isPtrLike(t):
		return rv{kind: 'p', sym: name}
	}
	return rv{kind: 'o', sym: name}
}

func (k *ranker) val(s *rankState, v ssa.Value) rv {
	if c, ok := v.(*ssa.Const); ok {
		if c.Value != nil && c.Value.Kind() == constant.Int {
			if n, ok := constant.Int64Val(c.Value); ok {
				return rv{kind: 'i', off: n, cst: true}
			}
		}
		if c.Value == nil {
			return rv{kind: 'o', sym: "nil"}
		}
		return rv{kind: 'o', sym: "const:" + c.Value.ExactString()}
	}
	if x, ok := s.env[v]; ok {
		return x
	}
	// defined outside the loop, or a parameter or global: invariant
	return k.initial("inv:"+v.Name(), v.Type())
}

func (k *ranker) invariant(v rv) bool {
	return v.cst || strings.HasPrefix(v.sym, "inv:") || strings.HasPrefix(v.sym, "len:inv:")
}

func addRv(a rv, b rv, neg bool) (rv, bool) {
	if a.kind != 'i' || b.kind != 'i' {
		return rv{}, false
	}
	if b.cst {
		if neg {
			a.off -= b.off
		} else {
			a.off += b.off
		}
		return a, true
	}
	if a.cst && !neg {
		b.off += a.off
		return b, true
	}
	if neg {
		if a.sym == b.sym && strings.Join(a.adds, "+") == strings.Join(b.adds, "+") {
			return rv{kind: 'i', off: a.off - b.off, cst: true}, true
		}
		return rv{}, false
	}
	// one of them a nonnegative amount
	amt := func(v rv) bool { return strings.HasPrefix(v.sym, "amt:") && len(v.adds) == 0 }
	if amt(b) {
		a.adds = append(append([]string(nil), a.adds...), b.sym)
		a.off += b.off
		return a, true
	}
	if amt(a) {
		b.adds = append(append([]string(nil), b.adds...), a.sym)
		b.off += a.off
		return b, true
	}
	return rv{}, false
}

// lo gives a lower bound of the added amounts.
func (s *rankState) lo(adds []string) int64 {
	n := int64(0)
	for _, a := range adds {
		if f := s.lows[a]; f != nil {
			n += f(s)
		}
	}
	return n
}

// delta gives a lower bound of v - head (in the measure's direction).
func (s *rankState) delta(v, head rv) (int64, bool) {
	n := int64(0)
	for i := 0; i < 20; i++ {
		n += v.off + s.lo(v.adds)
		if v.kind != head.kind {
			return 0, false
		}
		if v.sym == head.sym && len(head.adds) == 0 {
			return n - head.off, true
		}
		nv, ok := s.rel[v.sym]
		if !ok {
			return 0, false
		}
		v = nv
	}
	return 0, false
}

// condKey canonicalises a comparison; the second result says that the key
// states the negation.
func condKey(op token.Token, a, b rv) (key string, neg bool, lessA, lessB rv, isLess bool) {
	switch op {
	case token.LSS:
	case token.GTR:
		a, b = b, a
	case token.LEQ: // a <= b  ==  !(b < a)
		a, b = b, a
		neg = true
	case token.GEQ: // !(a < b)
		neg = true
	case token.NEQ:
		neg = true
	case token.EQL:
	}
	if op == token.EQL || op == token.NEQ {
		x, y := a.key(), b.key()
		if y < x {
			x, y = y, x
		}
		return "eq " + x + " " + y, neg, a, b, false
	}
	a2, b2 := a, b
	if a2.kind == 'i' && b2.kind == 'i' {
		b2.off -= a2.off
		a2.off = 0
	}
	return "lt " + a2.key() + " " + b2.key(), neg, a, b, true
}

func (k *ranker) run(s *rankState, b, from *ssa.BasicBlock, i int) {
	if k.over {
		return
	}
	for ; i < len(b.Instrs); i++ {
		in := b.Instrs[i]
		switch x := in.(type) {
		case *ssa.Phi, *ssa.DebugRef:
		case *ssa.Store:
			if a, ok := x.Addr.(*ssa.Alloc); ok && k.cells[a] {
				s.cells[a] = k.val(s, x.Val)
			} else {
				s.epoch++
			}
		case *ssa.UnOp:
			s.env[x] = k.unop(s, x)
		case *ssa.BinOp:
			s.env[x] = k.binop(s, x)
		case *ssa.Slice:
			s.env[x] = k.slice(s, x)
		case *ssa.ChangeType:
			s.env[x] = k.val(s, x.X)
		case *ssa.ChangeInterface:
			s.env[x] = k.val(s, x.X)
		case *ssa.MakeInterface:
			s.env[x] = k.val(s, x.X)
		case *ssa.TypeAssert:
			v := k.val(s, x.X)
			if x.CommaOk {
				s.env[x] = rv{kind: 't', tup: []rv{v, {kind: 'o', sym: k.fresh("ok")}}}
			} else {
				s.env[x] = v
			}
		case *ssa.Convert:
			v := k.val(s, x.X)
			if v.kind == 'i' && isIntType(x.Type()) {
				s.env[x] = v
			} else if v.kind == 's' && isSliceOrString(x.Type()) && isSliceOrString(x.X.Type()) {
				s.env[x] = v
			} else {
				s.env[x] = k.initial(k.fresh("conv"), x.Type())
			}
		case *ssa.Extract:
			t := k.val(s, x.Tuple)
			if t.kind == 't' && x.Index < len(t.tup) {
				s.env[x] = t.tup[x.Index]
			} else {
				s.env[x] = k.initial(fmt.Sprintf("ext:%s.%d", t.sym, x.Index), x.Type())
			}
		case *ssa.Index:
			s.env[x] = k.initial("elem:"+k.val(s, x.X).key()+"@"+k.val(s, x.Index).key(), x.Type())
		case *ssa.IndexAddr:
			s.env[x] = rv{kind: 'o', sym: "elemaddr:" + k.val(s, x.X).key() + "@" + k.val(s, x.Index).key()}
		case *ssa.Lookup:
			if isSliceOrString(x.X.Type()) {
				s.env[x] = k.initial("elem:"+k.val(s, x.X).key()+"@"+k.val(s, x.Index).key(), x.Type())
			} else {
				s.env[x] = k.initial(k.fresh("look"), x.Type())
			}
		case *ssa.FieldAddr:
			v := k.val(s, x.X)
			if v.kind == 'p' && embeddedField(x.X.Type(), x.Field) {
				s.env[x] = v // the same object
				continue
			}
			s.env[x] = rv{kind: 'o', sym: "faddr:" + v.key() + "." + fieldName(x.X.Type(), x.Field), tup: []rv{v}, fld: fieldName(x.X.Type(), x.Field)}
		case *ssa.Field:
			v := k.val(s, x.X)
			if v.kind == 'p' && embeddedField(x.X.Type(), x.Field) {
				s.env[x] = v
				continue
			}
			s.env[x] = k.initial("field:"+v.key()+"."+fieldName(x.X.Type(), x.Field), x.Type())
		case *ssa.Call:
			s.env[x] = k.call(s, x)
		case *ssa.Next:
			s.env[x] = k.initial(k.fresh("next"), x.Type())
		case *ssa.If:
			c := k.val(s, x.Cond)
			neg := false
			key := c.key()
			if strings.HasPrefix(c.sym, "!") {
				neg = true
				key = "o" + c.sym[1:] + "+0"
			}
			var lt *rankLess
			if c.kind == 'o' && len(c.tup) == 2 {
				lt = &rankLess{c.tup[0], c.tup[1]}
			}
			for br := 0; br < 2; br++ {
				truth := (br == 0) != neg
				if v, ok := k.known(s, key, lt); ok && v != truth {
					continue
				}
				if c.sym == "const:true" && br == 1 || c.sym == "const:false" && br == 0 {
					continue
				}
				n := s.clone()
				n.memo[key] = truth
				if lt != nil {
					if truth {
						n.less = append(n.less, *lt)
					} else { // b <= a  ->  b < a+1
						a := lt.a
						a.off++
						n.less = append(n.less, rankLess{lt.b, a})
					}
				}
				if rd, ok := n.pend[key]; ok && truth { // error of a read is nil
					n.reads[rd]++
				}
				k.edge(n, b, b.Succs[br])
			}
			return
		case *ssa.Jump:
			k.edge(s, b, b.Succs[0])
			return
		case *ssa.Return, *ssa.Panic:
			return
		case *ssa.RunDefers, *ssa.Defer, *ssa.Go, *ssa.Send, *ssa.MapUpdate:
			s.epoch++
		default:
			if v, ok := in.(ssa.Value); ok {
				s.env[v] = k.initial(k.fresh("v"), v.Type())
			}
		}
	}
}

// known decides a condition from the facts of the path.
func (k *ranker) known(s *rankState, key string, lt *rankLess) (bool, bool) {
	if v, ok := s.memo[key]; ok {
		return v, true
	}
	if lt != nil && lt.a.cst && lt.b.cst {
		return lt.a.off < lt.b.off, true
	}
	if lt != nil && lt.a.kind == 'i' && lt.b.kind == 'i' && lt.a.sym == lt.b.sym && len(lt.a.adds)+len(lt.b.adds) == 0 {
		return lt.a.off < lt.b.off, true
	}
	return false, false
}

func (k *ranker) edge(s *rankState, from, to *ssa.BasicBlock) {
	if k.over {
		return
	}
	if !k.l.body[to] {
		return
	}
	pi := predIndex(to, from)
	type as struct {
		ph *ssa.Phi
		v  rv
	}
	var asg []as
	for _, in := range to.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		asg = append(asg, as{ph, k.val(s, ph.Edges[pi])})
	}
	if to == k.l.head {
		k.paths++
		if k.paths > k.limit {
			k.over = true
			return
		}
		m := map[string]rv{}
		for _, x := range asg {
			m["phi:"+x.ph.Name()] = x.v
		}
		for a, v := range s.cells {
			m["cell:"+a.Name()] = v
		}
		k.cyc = append(k.cyc, s)
		k.cycVal = append(k.cycVal, m)
		return
	}
	if il := k.inner[to]; il != nil {
		back := il.body[from]
		s.seen[to]++
		if !back {
			s.seen[to] = 1
		} else if s.seen[to] > 2 {
			return // summarised by the second entry
		} else {
			// any further number of iterations
			for j := range asg {
				asg[j].v = k.havoc(s, asg[j].ph.Type(), asg[j].v, k.monotone(asg[j].ph, il))
			}
			for a, v := range s.cells {
				if storedIn(a, il) {
					s.cells[a] = k.havoc(s, a.Type().Underlying().(*types.Pointer).Elem(), v, false)
				}
			}
			s.epoch++
			// what the inner loop reads may not be counted, but nothing is lost
			for key := range s.memo {
				if strings.HasPrefix(key, "o") {
					delete(s.memo, key)
				}
			}
			for rd := range s.reads {
				if unreadsIn(il) {
					s.reads[rd] = -1000
				}
			}
		}
	}
	for _, x := range asg {
		s.env[x.ph] = x.v
	}
	k.run(s, to, from, 0)
}

func storedIn(a *ssa.Alloc, l *natLoop) bool {
	for _, r := range *a.Referrers() {
		if st, ok := r.(*ssa.Store); ok && l.body[st.Block()] {
			return true
		}
	}
	return false
}

func unreadsIn(l *natLoop) bool {
	for b := range l.body {
		for _, in := range b.Instrs {
			if c, ok := in.(ssa.CallInstruction); ok && strings.HasPrefix(callName(c), "Unread") {
				return true
			}
		}
	}
	return false
}

func callName(c ssa.CallInstruction) string {
	cc := c.Common()
	if cc.IsInvoke() {
		return cc.Method.Name()
	}
	if f := cc.StaticCallee(); f != nil {
		return f.Name()
	}
	return ""
}

// havoc: some later value of the same variable.
func (k *ranker) havoc(s *rankState, t types.Type, cur rv, mono bool) rv {
	n := k.initial(k.fresh("h"), t)
	if mono && n.kind == cur.kind && !cur.cst {
		s.rel[n.sym] = cur
	}
	return n
}

// monotone: every way around the inner loop leaves the variable as it is or
// moves it forward (by a nonnegative constant, or a tail of the slice).
func (k *ranker) monotone(ph *ssa.Phi, l *natLoop) bool {
	seen := map[ssa.Value]bool{}
	var ok func(v ssa.Value) bool
	ok = func(v ssa.Value) bool {
		if v == ph || seen[v] {
			return true
		}
		seen[v] = true
		switch x := v.(type) {
		case *ssa.Phi:
			if !l.body[x.Block()] {
				return false
			}
			for _, e := range x.Edges {
				if !ok(e) {
					return false
				}
			}
			return true
		case *ssa.BinOp:
			if x.Op == token.ADD {
				if c, isC := x.Y.(*ssa.Const); isC {
					n, _ := constant.Int64Val(c.Value)
					return n >= 0 && ok(x.X)
				}
				if e, isE := x.Y.(*ssa.Extract); isE && isDecodeRune(e.Tuple) {
					return ok(x.X)
				}
			}
		case *ssa.Slice:
			return x.High == nil && ok(x.X)
		}
		return false
	}
	for i, p := range ph.Block().Preds {
		if l.body[p] && !ok(ph.Edges[i]) {
			return false
		}
	}
	return true
}

func isDecodeRune(v ssa.Value) bool {
	c, ok := v.(*ssa.Call)
	if !ok {
		return false
	}
	f := c.Call.StaticCallee()
	return f != nil && fnPkg(f) != nil && fnPkg(f).Path() == "unicode/utf8" && strings.HasPrefix(f.Name(), "DecodeRune")
}

func (k *ranker) unop(s *rankState, x *ssa.UnOp) rv {
	switch x.Op {
	case token.MUL:
		if a, ok := x.X.(*ssa.Alloc); ok && k.cells[a] {
			if v, ok := s.cells[a]; ok {
				return v
			}
		}
		a := k.val(s, x.X)
		if _, isStruct := x.Type().Underlying().(*types.Struct); isStruct && a.kind == 'p' {
			return a // a copy of the object
		}
		if strings.HasPrefix(a.sym, "faddr:") && len(a.tup) == 1 {
			if b := a.tup[0]; b.kind == 'p' && isPtrLike(x.Type()) && (b.fld == "" || b.fld == a.fld) && chainType(x.Type()) {
				return rv{kind: 'p', sym: b.sym, off: b.off + 1, fld: a.fld}
			}
		}
		return k.initial(fmt.Sprintf("load:%s#%d", a.key(), s.epoch), x.Type())
	case token.NOT:
		v := k.val(s, x.X)
		if strings.HasPrefix(v.sym, "!") {
			v.sym = v.sym[1:]
		} else {
			v.sym = "!" + v.sym
		}
		return v
	}
	return k.initial(k.fresh("un"), x.Type())
}

func chainType(t types.Type) bool { return isPtrLike(t) && !isErrorType(t) }

func (k *ranker) binop(s *rankState, x *ssa.BinOp) rv {
	a, b := k.val(s, x.X), k.val(s, x.Y)
	switch x.Op {
	case token.ADD, token.SUB:
		if v, ok := addRv(a, b, x.Op == token.SUB); ok {
			return v
		}
	case token.LSS, token.GTR, token.LEQ, token.GEQ, token.EQL, token.NEQ:
		key, neg, l, r, isLess := condKey(x.Op, a, b)
		v := rv{kind: 'o', sym: key}
		if isLess {
			v.tup = []rv{l, r}
		}
		if neg {
			v.sym = "!" + key
		}
		return v
	}
	return k.initial(k.fresh("bin"), x.Type())
}

func (k *ranker) slice(s *rankState, x *ssa.Slice) rv {
	b := k.val(s, x.X)
	if b.kind != 's' {
		return k.initial(k.fresh("sl"), x.Type())
	}
	if x.Low != nil {
		l := k.val(s, x.Low)
		switch {
		case l.kind == 'i' && l.cst && l.off >= 0:
			b.off += l.off
		case l.kind == 'i' && strings.HasPrefix(l.sym, "amt:"):
			b.adds = append(append([]string(nil), b.adds...), l.sym)
			b.adds = append(b.adds, l.adds...)
			b.off += l.off
		default:
			// a tail: not longer than before
			n := rv{kind: 's', sym: "tail:" + b.key() + "@" + l.key()}
			if lb := s.lowerOf(l); lb > 0 {
				b.off += lb
			}
			s.rel[n.sym] = b
			b = n
		}
	}
	if x.High != nil {
		h := k.val(s, x.High)
		base := k.val(s, x.X)
		if x.Low == nil && h.kind == 'i' && h.sym == "len:"+base.sym && len(h.adds) == 0 && len(base.adds) == 0 {
			// s[:len(s)-n]
			b.off = -h.off
		} else {
			n := rv{kind: 's', sym: k.fresh("sl")}
			s.rel[n.sym] = b
			b = n
		}
	}
	return b
}

func (k *ranker) call(s *rankState, x *ssa.Call) rv {
	c := x.Common()
	if bi, ok := c.Value.(*ssa.Builtin); ok {
		if bi.Name() == "len" {
			v := k.val(s, c.Args[0])
			if v.kind == 's' && len(v.adds) == 0 {
				return rv{kind: 'i', sym: "len:" + v.sym, off: -v.off}
			}
			return rv{kind: 'i', sym: "len:" + v.key()}
		}
		if bi.Name() == "append" || bi.Name() == "copy" {
			return k.initial(k.fresh("app"), x.Type())
		}
	}
	f := c.StaticCallee()
	name := callName(x)
	pkg := ""
	if f != nil && fnPkg(f) != nil {
		pkg = fnPkg(f).Path()
	}
	if isDecodeRune(x) {
		a := k.val(s, c.Args[0])
		w := "amt:" + k.fresh("w")
		r := rv{kind: 'i', sym: "rune:" + a.key()}
		akey := a
		s.lows[w] = func(st *rankState) int64 {
			// the width is zero only for an empty argument, which gives RuneError
			key, _, _, _, _ := condKey(token.EQL, r, rv{kind: 'i', off: 0xFFFD, cst: true})
			if v, ok := st.memo["o"+key+"+0"]; ok && !v {
				return 1
			}
			if st.nonEmpty(akey) {
				return 1
			}
			return 0
		}
		return rv{kind: 't', tup: []rv{r, {kind: 'i', sym: w}}}
	}
	// readers
	var recv rv
	hasRecv := false
	if c.IsInvoke() {
		recv, hasRecv = k.val(s, c.Value), true
	} else if f != nil && f.Signature.Recv() != nil && len(c.Args) > 0 {
		recv, hasRecv = k.val(s, c.Args[0]), true
	}
	if hasRecv && (f == nil || !k.p.inModule(f)) {
		switch name {
		case "ReadRune", "ReadByte", "ReadString", "ReadLine", "ReadBytes":
			res := rv{kind: 't'}
			tt, _ := x.Type().(*types.Tuple)
			if tt != nil {
				for i := 0; i < tt.Len(); i++ {
					res.tup = append(res.tup, k.initial(k.fresh("rd"), tt.At(i).Type()))
				}
				key, _, _, _, _ := condKey(token.EQL, res.tup[tt.Len()-1], rv{kind: 'o', sym: "nil"})
				s.pend["o"+key+"+0"] = recv.key()
			}
			return res
		case "UnreadRune", "UnreadByte":
			s.reads[recv.key()]--
		case "Scan":
			v := rv{kind: 'o', sym: k.fresh("scan")}
			s.pend[v.key()] = recv.key()
			return v
		}
	}
	if lf := k.p.linkGetter(x); lf != "" && hasRecv && recv.kind == 'p' && (recv.fld == "" || recv.fld == lf) {
		return rv{kind: 'p', sym: recv.sym, off: recv.off + 1, fld: lf}
	}
	if f != nil && pureLib(f) && pkg != "" {
		var ks []string
		for _, a := range c.Args {
			ks = append(ks, k.val(s, a).key())
		}
		return k.initial("pure:"+pkg+"."+name+"("+strings.Join(ks, ",")+")", x.Type())
	}
	s.epoch++
	for a := range s.cells {
		if k.shared[a] {
			s.cells[a] = k.initial(k.fresh("cell"), a.Type().Underlying().(*types.Pointer).Elem())
		}
	}
	if tt, ok := x.Type().(*types.Tuple); ok {
		res := rv{kind: 't'}
		var errv rv
		hasErr := false
		for i := 0; i < tt.Len(); i++ {
			v := k.initial(k.fresh("res"), tt.At(i).Type())
			if isErrorType(tt.At(i).Type()) {
				errv, hasErr = v, true
			}
			res.tup = append(res.tup, v)
		}
		if f != nil && k.p.inModule(f) && hasErr {
			for i := range res.tup {
				if res.tup[i].kind != 'i' {
					continue
				}
				i := i
				w := "amt:" + k.fresh("r")
				res.tup[i] = rv{kind: 'i', sym: w}
				e := errv
				s.lows[w] = func(st *rankState) int64 {
					lo := k.p.resultLo(f, i, 0)
					key, _, _, _, _ := condKey(token.EQL, e, rv{kind: 'o', sym: "nil"})
					if v, ok := st.memo["o"+key+"+0"]; ok && v {
						return lo
					}
					return -1 << 40
				}
			}
		}
		return res
	}
	return k.initial(k.fresh("call"), x.Type())
}

func (st *rankState) nonEmpty(a rv) bool {
	for _, l := range st.less {
		// i < len(s) with a = s[i:]
		if strings.HasPrefix(l.b.sym, "len:") && l.a.kind == 'i' {
			base := rv{kind: 's', sym: l.b.sym[4:], off: -l.b.off}
			if l.a.cst && l.a.off >= 0 && base.key() == a.key() {
				return true
			}
			if a.sym == "tail:"+base.key()+"@"+l.a.key() {
				return true
			}
		}
	}
	// len(s) != 0
	key, _, _, _, _ := condKey(token.EQL, rv{kind: 'i', sym: "len:" + a.sym, off: -a.off}, rv{kind: 'i', cst: true})
	if v, ok := st.memo["o"+key+"+0"]; ok && !v {
		return true
	}
	return false
}

// linkGetter: the call returns a link field of its receiver (or nil), in
// every implementation it can reach.
func (p *Program) linkGetter(x *ssa.Call) string {
	c := x.Common()
	if !chainType(x.Type()) {
		return ""
	}
	var fs []*ssa.Function
	if c.IsInvoke() {
		if len(c.Args) != 0 {
			return ""
		}
		fs = p.implementors(c.Value.Type(), c.Method.Name())
	} else if f := c.StaticCallee(); f != nil && f.Signature.Recv() != nil && len(c.Args) == 1 {
		fs = []*ssa.Function{f}
	}
	name := ""
	for _, f := range fs {
		n := linkField(f, 0)
		if n == "" || name != "" && n != name {
			return ""
		}
		name = n
	}
	return name
}

func linkField(f *ssa.Function, depth int) string {
	if len(f.Blocks) == 0 || depth > 4 {
		return ""
	}
	name := ""
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			r, ok := in.(*ssa.Return)
			if !ok {
				continue
			}
			if len(r.Results) != 1 {
				return ""
			}
			v := r.Results[0]
			for {
				if m, ok := v.(*ssa.MakeInterface); ok {
					v = m.X
				} else if m, ok := v.(*ssa.ChangeInterface); ok {
					v = m.X
				} else if m, ok := v.(*ssa.TypeAssert); ok {
					v = m.X
				} else if m, ok := v.(*ssa.Extract); ok && m.Index == 0 {
					v = m.Tuple
				} else {
					break
				}
			}
			n := ""
			switch y := v.(type) {
			case *ssa.Const:
				if y.Value == nil {
					continue
				}
			case *ssa.UnOp:
				if fa, ok := y.X.(*ssa.FieldAddr); ok {
					n = fieldName(fa.X.Type(), fa.Field)
				}
			case *ssa.Field:
				n = fieldName(y.X.Type(), y.Field)
			case *ssa.Call: // wrapper of a promoted method
				if g := y.Call.StaticCallee(); g != nil {
					n = linkField(g, depth+1)
				}
			}
			if n == "" || name != "" && n != name {
				return ""
			}
			name = n
		}
	}
	return name
}

// implementors lists the module's methods an interface call can reach.
func (p *Program) implementors(t types.Type, method string) []*ssa.Function {
	it, ok := t.Underlying().(*types.Interface)
	if !ok {
		return nil
	}
	var res []*ssa.Function
	seen := map[*ssa.Function]bool{}
	var pkgs []string
	for k := range p.ssaPkgs {
		pkgs = append(pkgs, k)
	}
	sort.Strings(pkgs)
	for _, k := range pkgs {
		sp := p.ssaPkgs[k]
		for _, m := range sortedKeys(sp.Members) {
			ty, ok := sp.Members[m].(*ssa.Type)
			if !ok {
				continue
			}
			for _, ct := range []types.Type{ty.Type(), types.NewPointer(ty.Type())} {
				if types.IsInterface(ct) || !types.Implements(ct, it) {
					continue
				}
				if f := p.prog.LookupMethod(ct, sp.Pkg, method); f != nil && !seen[f] {
					seen[f] = true
					res = append(res, f)
				}
			}
		}
	}
	return res
}

// resultLo gives a lower bound of an integer result when the error result is nil.
func (p *Program) resultLo(f *ssa.Function, idx, depth int) int64 {
	const ninf = -1 << 40
	if depth > 5 || len(f.Blocks) == 0 {
		return ninf
	}
	best := int64(1 << 40)
	for _, b := range f.Blocks {
		if b == f.Recover && !recovers(f) {
			continue
		}
		for _, in := range b.Instrs {
			r, ok := in.(*ssa.Return)
			if !ok || idx >= len(r.Results) {
				continue
			}
			e := spilled(r.Results[len(r.Results)-1], r)
			if isErrorType(e.Type()) && errNonNil(e, b) {
				continue
			}
			v := p.loOf(spilled(r.Results[idx], r), b, map[ssa.Value]bool{}, depth)
			if v < best {
				best = v
			}
		}
	}
	return best
}

// errNonNil: the error is known not to be nil in block b.
func errNonNil(e ssa.Value, b *ssa.BasicBlock) bool {
	switch x := e.(type) {
	case *ssa.Const:
		return false
	case *ssa.MakeInterface:
		return true
	case *ssa.UnOp:
		if g, ok := x.X.(*ssa.Global); ok && isErrorType(g.Type().(*types.Pointer).Elem()) {
			return true
		}
	case *ssa.Call:
		if f := x.Call.StaticCallee(); f != nil && (errorMaker(f) || f.Name() == "error") {
			return true
		}
	case *ssa.Phi:
		all := true
		for i, ed := range x.Edges {
			if !errNonNil(ed, x.Block().Preds[i]) {
				all = false
			}
		}
		if all {
			return true
		}
	}
	for c := b; c != nil; c = c.Idom() {
		d := c.Idom()
		if d == nil {
			break
		}
		ifi, ok := d.Instrs[len(d.Instrs)-1].(*ssa.If)
		if !ok {
			continue
		}
		bo, ok := ifi.Cond.(*ssa.BinOp)
		if !ok {
			continue
		}
		if !(bo.X == e && isNilConst(bo.Y) || bo.Y == e && isNilConst(bo.X)) {
			continue
		}
		nn := 0
		if bo.Op == token.EQL {
			nn = 1
		}
		if d.Succs[nn].Dominates(b) && len(d.Succs[nn].Preds) == 1 {
			return true
		}
	}
	return false
}

func (p *Program) loOf(v ssa.Value, b *ssa.BasicBlock, seen map[ssa.Value]bool, depth int) int64 {
	const ninf = -1 << 40
	if seen[v] {
		return 1 << 40
	}
	switch x := v.(type) {
	case *ssa.Const:
		if x.Value != nil {
			if n, ok := constant.Int64Val(x.Value); ok {
				return n
			}
		}
	case *ssa.Phi:
		seen[v] = true
		defer delete(seen, v)
		best := int64(1 << 40)
		for i, e := range x.Edges {
			if n := p.loOf(e, x.Block().Preds[i], seen, depth); n < best {
				best = n
			}
		}
		return best
	case *ssa.BinOp:
		if x.Op == token.ADD {
			l, r := p.loOf(x.X, b, seen, depth), p.loOf(x.Y, b, seen, depth)
			if l <= ninf || r <= ninf {
				return ninf
			}
			return l + r
		}
	case *ssa.Convert:
		return p.loOf(x.X, b, seen, depth)
	case *ssa.Call:
		if bi, ok := x.Call.Value.(*ssa.Builtin); ok && (bi.Name() == "len" || bi.Name() == "cap") {
			return 0
		}
	case *ssa.Extract:
		if isDecodeRune(x.Tuple) {
			return 0
		}
		if c, ok := x.Tuple.(*ssa.Call); ok {
			if f := c.Call.StaticCallee(); f != nil && p.inModule(f) {
				return p.resultLo(f, x.Index, depth+1)
			}
		}
	}
	return ninf
}

// rankLoop tries to find a measure for a loop; why explains the result.
func (p *Program) rankLoop(l *natLoop, all []*natLoop) (bool, string) {
	// iteration over a map, string or channel of a range statement
	for _, in := range l.head.Instrs {
		if n, ok := in.(*ssa.Next); ok {
			if ifi, ok := l.head.Instrs[len(l.head.Instrs)-1].(*ssa.If); ok {
				if e, ok := ifi.Cond.(*ssa.Extract); ok && e.Tuple == n && e.Index == 0 && !l.body[l.head.Succs[1]] {
					return true, "range"
				}
			}
		}
	}
	k := &ranker{p: p, l: l, inner: map[*ssa.BasicBlock]*natLoop{}, limit: 20000, cells: map[*ssa.Alloc]bool{}, shared: map[*ssa.Alloc]bool{}, heads: map[string]rv{}}
	for _, il := range all {
		if il != l && l.body[il.head] {
			k.inner[il.head] = il
		}
	}
	s := &rankState{env: map[ssa.Value]rv{}, cells: map[*ssa.Alloc]rv{}, memo: map[string]bool{}, rel: map[string]rv{}, reads: map[string]int{},
		pend: map[string]string{}, seen: map[*ssa.BasicBlock]int{}, lows: map[string]func(*rankState) int64{}}
	for _, b := range l.fn.Blocks {
		for _, in := range b.Instrs {
			if a, ok := in.(*ssa.Alloc); ok {
				if ok, cap := localCell(a); ok {
					k.cells[a], k.shared[a] = true, cap
					name := "cell:" + a.Name()
					v := k.initial(name, a.Type().Underlying().(*types.Pointer).Elem())
					s.cells[a] = v
					k.heads[name] = v
				}
			}
		}
	}
	for _, in := range l.head.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		name := "phi:" + ph.Name()
		v := k.initial(name, ph.Type())
		s.env[ph] = v
		k.heads[name] = v
	}
	k.run(s, l.head, nil, 0)
	if k.over {
		return false, "too many ways around the loop"
	}
	if len(k.cyc) == 0 {
		return true, "no way around"
	}
	// counters, slices, chains
	for _, name := range sortedKeys(k.heads) {
		h := k.heads[name]
		ok := true
		for i, st := range k.cyc {
			v, has := k.cycVal[i][name]
			if !has {
				ok = false
				break
			}
			if h.kind == 'p' && v.sym == "nil" {
				continue // the end of the chain
			}
			d, known := st.delta(v, h)
			if rankDebug {
				fmt.Println("  RANK", shortFn(l.fn), name, h.key(), v.key(), d, known, st.rel)
			}
			if !known || d < 1 || h.kind == 'p' && v.fld == "" {
				ok = false
				break
			}
			if h.kind == 'i' && !k.bounded(st, h, false) {
				ok = false
				break
			}
			if h.kind == 'o' {
				ok = false
			}
		}
		if ok {
			switch h.kind {
			case 'i':
				return true, "counter " + name + " below an invariant bound"
			case 's':
				return true, "shrinking " + name
			case 'p':
				for _, m := range k.cycVal {
					if f := m[name].fld; f != "" {
						return true, "chain of " + f + " links"
					}
				}
			}
		}
		if h.kind == 'i' { // downwards
			ok := true
			for i, st := range k.cyc {
				v := k.cycVal[i][name]
				if v.sym != h.sym || v.off > -1 || len(v.adds) > 0 || !k.bounded(st, h, true) {
					ok = false
					break
				}
			}
			if ok {
				return true, "counter " + name + " above an invariant bound"
			}
		}
	}
	// readers
	rds := map[string]bool{}
	for _, st := range k.cyc {
		for r := range st.reads {
			rds[r] = true
		}
	}
	for _, r := range sortedKeys(rds) {
		ok := true
		for _, st := range k.cyc {
			if st.reads[r] < 1 {
				ok = false
			}
		}
		if ok && strings.Contains(r, "inv:") {
			return true, "consumes a reader"
		}
	}
	return false, "no measure found"
}

// bounded: the path around the loop passed a test against an invariant bound.
func (k *ranker) bounded(st *rankState, h rv, down bool) bool {
	for _, l := range st.less {
		a, b := l.a, l.b
		if down {
			a, b = b, a
		}
		if a.sym == h.sym && !a.cst && k.invariant(b) {
			return true
		}
	}
	return false
}

// loopPos finds a source position for a loop.
func (p *Program) loopPos(l *natLoop) string {
	if len(l.head.Instrs) > 0 {
		for _, in := range l.head.Instrs {
			if in.Pos().IsValid() {
				return p.pos(in.Pos())
			}
		}
	}
	best := token.NoPos
	for b := range l.body {
		for _, in := range b.Instrs {
			if in.Pos().IsValid() && (best == token.NoPos || in.Pos() < best) {
				best = in.Pos()
			}
		}
	}
	return p.pos(best)
}

// lowerOf gives a lower bound of an integer from the comparisons passed.
func (s *rankState) lowerOf(v rv) int64 {
	best := int64(-1 << 40)
	if v.cst {
		return v.off
	}
	for _, l := range s.less {
		if l.a.cst && l.b.kind == 'i' && !l.b.cst && l.b.sym == v.sym && len(l.b.adds) == 0 {
			if n := l.a.off + 1 - l.b.off + v.off + s.lo(v.adds); n > best {
				best = n
			}
		}
	}
	return best
}

func embeddedField(t types.Type, i int) bool {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	st, ok := t.Underlying().(*types.Struct)
	return ok && i < st.NumFields() && st.Field(i).Embedded()
}

// recovers reports whether a deferred function of f may recover from a panic.
func recovers(f *ssa.Function) bool {
	for _, an := range f.AnonFuncs {
		for _, b := range an.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(ssa.CallInstruction); ok {
					if bi, ok := c.Common().Value.(*ssa.Builtin); ok && bi.Name() == "recover" {
						return true
					}
				}
			}
		}
	}
	return false
}

// spilled finds the value of a result that is kept in a local variable until
// the deferred calls have run.
func spilled(v ssa.Value, ret *ssa.Return) ssa.Value {
	u, ok := v.(*ssa.UnOp)
	if !ok || u.Op != token.MUL {
		return v
	}
	a, ok := u.X.(*ssa.Alloc)
	if !ok {
		return v
	}
	if ok, cap := localCell(a); !ok || cap {
		return v
	}
	for b := ret.Block(); b != nil; {
		for i := len(b.Instrs) - 1; i >= 0; i-- {
			if st, ok := b.Instrs[i].(*ssa.Store); ok && st.Addr == a {
				return st.Val
			}
		}
		if len(b.Preds) != 1 {
			break
		}
		b = b.Preds[0]
	}
	return v
}
