package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// What was written to a buffer: a path-sensitive walk through one function
// that keeps the values of its boolean variables and whether anything has been
// written since the buffer was empty.

type filled struct {
	f        *ssa.Function
	buf      ssa.Value
	bools    map[ssa.Value]bool // boolean values that are kept
	blind    bool               // a condition depends on a variable that is not kept
	overflow bool
}

type fillState struct {
	vals map[ssa.Value]bool
	some bool
}

func (s fillState) key(b *ssa.BasicBlock) string {
	var l []string
	for v, x := range s.vals {
		l = append(l, fmt.Sprintf("%s=%v", v.Name(), x))
	}
	sort.Strings(l)
	return fmt.Sprintf("%d %v %s", b.Index, s.some, strings.Join(l, ","))
}

// bufferOf: the buffer whose content v is, for a conversion, String or Bytes.
func bufferOf(v ssa.Value) (buf ssa.Value, at *ssa.Call) {
	c, ok := v.(*ssa.Call)
	if !ok || c.Call.StaticCallee() == nil {
		return nil, nil
	}
	switch stdName(c.Call.StaticCallee()) {
	case "bytes.(*Buffer).String", "bytes.(*Buffer).Bytes", "strings.(*Builder).String":
		return c.Call.Args[0], c
	}
	return nil, nil
}

// nonEmpty: whether the buffer can be empty at the given instruction; sure
// means that the way there is understood.
func nonEmpty(buf ssa.Value, at *ssa.Call, user *ssa.BasicBlock) (ok, sure bool) {
	w := &filled{f: at.Parent(), buf: buf}
	if !w.local(at) {
		return false, false
	}
	seen := map[string]bool{}
	type item struct {
		b  *ssa.BasicBlock
		s  fillState
		at bool // String was taken with the state some
		em bool
	}
	start := item{b: w.f.Blocks[0], s: fillState{vals: map[ssa.Value]bool{}}}
	work := []item{start}
	ok = true
	n := 0
	for len(work) > 0 {
		it := work[len(work)-1]
		work = work[:len(work)-1]
		k := it.s.key(it.b) + fmt.Sprint(it.at, it.em)
		if seen[k] {
			continue
		}
		seen[k] = true
		if n++; n > 20000 {
			return false, false
		}
		if it.b == user && it.em {
			ok = false
		}
		for _, in := range it.b.Instrs {
			c, isCall := in.(*ssa.Call)
			if !isCall {
				continue
			}
			if c == at {
				it.at, it.em = true, !it.s.some
				if it.b == user && it.em {
					ok = false
				}
			}
			sc := c.Call.StaticCallee()
			if sc == nil || len(c.Call.Args) == 0 || c.Call.Args[0] != w.buf {
				continue
			}
			switch sc.Name() {
			case "WriteRune", "WriteByte":
				it.s.some = true
			case "WriteString", "Write":
				if t, isC := fixedText(c.Call.Args[1]); isC && len(t) > 0 {
					it.s.some = true
				}
			case "Reset", "Truncate", "ReadByte", "ReadRune", "Next", "Read", "ReadString", "ReadBytes", "WriteTo":
				it.s.some = false
			}
		}
		last := it.b.Instrs[len(it.b.Instrs)-1]
		go1 := func(to *ssa.BasicBlock, s fillState) {
			ns := fillState{vals: map[ssa.Value]bool{}, some: s.some}
			for v, x := range s.vals {
				ns.vals[v] = x
			}
			i := 0
			for j, p := range to.Preds {
				if p == it.b {
					i = j
				}
			}
			for _, in := range to.Instrs {
				ph, ok := in.(*ssa.Phi)
				if !ok {
					break
				}
				if !isBool(ph.Type()) {
					continue
				}
				if x, known := w.value(ph.Edges[i], s); known {
					ns.vals[ph] = x
				} else {
					delete(ns.vals, ph)
				}
			}
			work = append(work, item{to, ns, it.at, it.em})
		}
		switch x := last.(type) {
		case *ssa.If:
			t, f := w.branch(x.Cond, it.s)
			if t != nil {
				go1(it.b.Succs[0], *t)
			}
			if f != nil {
				go1(it.b.Succs[1], *f)
			}
		case *ssa.Jump:
			go1(it.b.Succs[0], it.s)
		}
	}
	return ok, !w.blind
}

func fixedText(v ssa.Value) (string, bool) {
	switch x := v.(type) {
	case *ssa.Const:
		if x.Value != nil && x.Value.Kind() == constant.String {
			return constant.StringVal(x.Value), true
		}
	case *ssa.Convert:
		return fixedText(x.X)
	}
	return "", false
}

func isBool(t types.Type) bool {
	bt, ok := t.Underlying().(*types.Basic)
	return ok && bt.Info()&types.IsBoolean != 0
}

// local: all uses of the buffer are calls of its methods in this function, or
// give it back at the end.
func (w *filled) local(at *ssa.Call) bool {
	refs := w.buf.Referrers()
	if refs == nil {
		return false
	}
	switch x := w.buf.(type) {
	case *ssa.Alloc:
	case *ssa.TypeAssert:
		c, ok := x.X.(*ssa.Call)
		if !ok || c.Call.StaticCallee() == nil || stdName(c.Call.StaticCallee()) != "sync.(*Pool).Get" {
			return false
		}
	default:
		return false
	}
	for _, u := range *refs {
		switch x := u.(type) {
		case *ssa.Call:
			sc := x.Call.StaticCallee()
			if sc == nil || sc.Signature.Recv() == nil || len(x.Call.Args) == 0 || x.Call.Args[0] != w.buf {
				return false
			}
			for _, a := range x.Call.Args[1:] {
				if a == w.buf {
					return false
				}
			}
		case *ssa.Defer, *ssa.DebugRef:
		default:
			return false
		}
	}
	return true
}

func (w *filled) value(v ssa.Value, s fillState) (x, known bool) {
	switch t := v.(type) {
	case *ssa.Const:
		if t.Value != nil && t.Value.Kind() == constant.Bool {
			return constant.BoolVal(t.Value), true
		}
	case *ssa.UnOp:
		if t.Op == token.NOT {
			x, known = w.value(t.X, s)
			return !x, known
		}
	case *ssa.BinOp:
		if n, ok := w.lenTest(t); ok && s.some {
			return n, true
		}
	}
	x, known = s.vals[v]
	return
}

// lenTest: whether the comparison holds when something is in the buffer, for
// comparisons of its length with 0 or 1.
func (w *filled) lenTest(t *ssa.BinOp) (bool, bool) {
	x, y, op := t.X, t.Y, t.Op
	isLen := func(v ssa.Value) bool {
		c, ok := v.(*ssa.Call)
		return ok && c.Call.StaticCallee() != nil && c.Call.StaticCallee().Name() == "Len" && len(c.Call.Args) == 1 && c.Call.Args[0] == w.buf
	}
	if isLen(y) {
		x, y = y, x
		switch op {
		case token.LSS:
			op = token.GTR
		case token.GTR:
			op = token.LSS
		case token.LEQ:
			op = token.GEQ
		case token.GEQ:
			op = token.LEQ
		}
	}
	c, ok := y.(*ssa.Const)
	if !isLen(x) || !ok || c.Value == nil {
		return false, false
	}
	n, _ := constant.Int64Val(c.Value)
	switch {
	case n == 0 && (op == token.GTR || op == token.NEQ), n == 1 && op == token.GEQ:
		return true, true
	case n == 0 && (op == token.EQL || op == token.LEQ), n == 1 && op == token.LSS:
		return false, true
	}
	return false, false
}

// branch: the states in which the condition holds and does not hold.
func (w *filled) branch(c ssa.Value, s fillState) (t, f *fillState) {
	if x, known := w.value(c, s); known {
		if x {
			return &s, nil
		}
		return nil, &s
	}
	with := func(v ssa.Value, x bool) *fillState {
		n := fillState{vals: map[ssa.Value]bool{}, some: s.some}
		for k, o := range s.vals {
			n.vals[k] = o
		}
		n.vals[v] = x
		return &n
	}
	switch x := c.(type) {
	case *ssa.UnOp:
		if x.Op == token.NOT {
			t, f = w.branch(x.X, s)
			return f, t
		}
	case *ssa.BinOp:
		if full, ok := w.lenTest(x); ok {
			n := s
			n.some = true
			if full {
				return &n, &s
			}
			return &s, &n
		}
		for _, o := range []ssa.Value{x.X, x.Y} {
			if ph, ok := o.(*ssa.Phi); ok && !overText(ph, x) {
				w.blind = true // a counter, or an error that is kept
			}
		}
		// the same condition, later: kept when its operands cannot change
		if stable(x.X) && stable(x.Y) {
			return with(c, true), with(c, false)
		}
		return &s, &s
	case *ssa.Parameter, *ssa.Phi:
		return with(c, true), with(c, false)
	}
	if ld, ok := c.(*ssa.UnOp); ok && ld.Op == token.MUL {
		if _, ok := ld.X.(*ssa.Alloc); ok {
			w.blind = true
		}
	}
	return &s, &s
}

// overText: the comparison of a loop that goes over something else than the
// buffer.
func overText(ph *ssa.Phi, x *ssa.BinOp) bool {
	o := x.Y
	if o == ssa.Value(ph) {
		o = x.X
	}
	c, ok := o.(*ssa.Call)
	if !ok {
		return false
	}
	bi, ok := c.Call.Value.(*ssa.Builtin)
	return ok && bi.Name() == "len" && x.Block() == ph.Block()
}

func stable(v ssa.Value) bool {
	switch v.(type) {
	case *ssa.Parameter, *ssa.Const:
		return true
	}
	return false
}
