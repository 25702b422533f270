package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// A small path enumerator over SSA for loop-free code.  Values are terms, the
// static calls into the module are followed, everything else is an event.

type Term struct {
	op   string // param, const, nil, global, load, field, index, alloc, call, bin, un, conv, iface, assert, ok, func, closure, slice, zero, lookup, makemap, opaque
	s    string
	args []*Term
	typ  types.Type
	cv   constant.Value
	fn   *ssa.Function
	glob *ssa.Global
	in   ssa.Instruction
	n    int
	key  string
}

func (t *Term) K() string {
	if t == nil {
		return "?"
	}
	if t.key == "" {
		var sb strings.Builder
		sb.WriteString(t.op)
		sb.WriteByte('(')
		sb.WriteString(t.s)
		if t.cv != nil {
			sb.WriteString(t.cv.ExactString())
		}
		if t.fn != nil {
			sb.WriteString(shortFn(t.fn))
		}
		if t.glob != nil {
			sb.WriteString(t.glob.Name())
		}
		if t.n != 0 {
			fmt.Fprintf(&sb, "#%d", t.n)
		}
		for _, a := range t.args {
			sb.WriteByte(',')
			sb.WriteString(a.K())
		}
		sb.WriteByte(')')
		t.key = sb.String()
	}
	return t.key
}

func (t *Term) String() string { return t.K() }

func (t *Term) isNil() bool {
	return t != nil && (t.op == "nil" || t.op == "const" && t.cv == nil)
}

func (t *Term) constStr() (string, bool) {
	if t != nil && t.op == "const" && t.cv != nil && t.cv.Kind() == constant.String {
		return constant.StringVal(t.cv), true
	}
	return "", false
}

func (t *Term) constInt() (int64, bool) {
	if t != nil && t.op == "const" && t.cv != nil && t.cv.Kind() == constant.Int {
		return constant.Int64Val(t.cv)
	}
	if t != nil && t.op == "const" && t.cv != nil && t.cv.Kind() == constant.Bool {
		if constant.BoolVal(t.cv) {
			return 1, true
		}
		return 0, true
	}
	return 0, false
}

// strip removes interface wrapping and type-only conversions.
func (t *Term) strip() *Term {
	for t != nil && (t.op == "iface" || t.op == "chtype") {
		t = t.args[0]
	}
	return t
}

type SymEvent struct {
	kind   string // call, store, mapset, send, go, panic
	method string
	fn     *ssa.Function
	recv   *Term
	args   []*Term
	res    *Term
	in     ssa.Instruction
	typ    types.Type // receiver static type for invokes
}

type SymCond struct {
	t *Term
	v bool
}

type SymPath struct {
	conds  []SymCond
	events []SymEvent
	ret    []*Term
	end    ssa.Instruction // the return or panic
	mem    map[string]*Term
	memT   map[string]*Term // address terms
}

// assumed reports whether the path assumes the term (as a condition) has value v.
func (p *SymPath) assumed(key string) (bool, bool) {
	for _, c := range p.conds {
		if c.t.K() == key {
			return c.v, true
		}
	}
	return false, false
}

type symState struct {
	env    map[ssa.Value]*Term
	mem    map[string]*Term
	memT   map[string]*Term
	conds  []SymCond
	events []SymEvent
	epoch  int
	visits map[*ssa.BasicBlock]int
	defers []func(*symState) []*symState
}

func (s *symState) clone() *symState {
	n := &symState{env: map[ssa.Value]*Term{}, mem: map[string]*Term{}, memT: map[string]*Term{}, epoch: s.epoch, visits: map[*ssa.BasicBlock]int{}}
	for k, v := range s.env {
		n.env[k] = v
	}
	for k, v := range s.mem {
		n.mem[k] = v
	}
	for k, v := range s.memT {
		n.memT[k] = v
	}
	for k, v := range s.visits {
		n.visits[k] = v
	}
	n.conds = append([]SymCond(nil), s.conds...)
	n.events = append([]SymEvent(nil), s.events...)
	n.defers = append([]func(*symState) []*symState(nil), s.defers...)
	return n
}

type Sym struct {
	p        *Program
	maxPaths int
	unroll   int // how often a block may be visited on one path
	paths    int
	counter  int
	err      string
	follow   func(fn *ssa.Function) bool
	constG   func(g *ssa.Global) *Term
	last     []SymCond
	feasible func(t *Term, v bool) bool
	truncOK  bool // paths cut by the unroll bound are dropped silently
	trunc    int
}

func newSym(p *Program) *Sym {
	return &Sym{p: p, maxPaths: 20000, unroll: 1, follow: func(fn *ssa.Function) bool { return true }}
}

// Paths enumerates the paths of fn for the given argument terms.
func (y *Sym) Paths(fn *ssa.Function, args []*Term) ([]*SymPath, error) {
	if fn == nil || fn.Blocks == nil {
		return nil, fmt.Errorf("no body")
	}
	st := &symState{env: map[ssa.Value]*Term{}, mem: map[string]*Term{}, memT: map[string]*Term{}, visits: map[*ssa.BasicBlock]int{}}
	if args == nil {
		for i, p := range fn.Params {
			args = append(args, &Term{op: "param", s: p.Name(), n: i + 1, typ: p.Type()})
		}
	}
	var out []*SymPath
	y.run(fn, st, args, nil, 0, func(s *symState, ret []*Term, end ssa.Instruction) {
		out = append(out, &SymPath{conds: s.conds, events: s.events, ret: ret, end: end, mem: s.mem, memT: s.memT})
	})
	if y.err != "" {
		return nil, fmt.Errorf("%s", y.err)
	}
	return out, nil
}

func (y *Sym) fresh() int { y.counter++; return y.counter }

type symDone func(s *symState, ret []*Term, end ssa.Instruction)

func (y *Sym) run(fn *ssa.Function, st *symState, args, binds []*Term, depth int, done symDone) {
	if depth > 24 {
		y.err = "call depth"
		return
	}
	saved := st.env
	savedV := st.visits
	savedD := st.defers
	st.env = map[ssa.Value]*Term{}
	st.visits = map[*ssa.BasicBlock]int{}
	st.defers = nil
	for i, p := range fn.Params {
		if i < len(args) {
			st.env[p] = args[i]
		}
	}
	for i, p := range fn.FreeVars {
		if i < len(binds) {
			st.env[p] = binds[i]
		}
	}
	y.block(fn, fn.Blocks[0], nil, st, depth, func(s *symState, ret []*Term, end ssa.Instruction) {
		s.env = map[ssa.Value]*Term{}
		for k, v := range saved {
			s.env[k] = v
		}
		s.visits = map[*ssa.BasicBlock]int{}
		for k, v := range savedV {
			s.visits[k] = v
		}
		s.defers = append([]func(*symState) []*symState(nil), savedD...)
		done(s, ret, end)
	})
}

func (y *Sym) block(fn *ssa.Function, b, from *ssa.BasicBlock, st *symState, depth int, done symDone) {
	if y.err != "" {
		return
	}
	st.visits[b]++
	if st.visits[b] > y.unroll {
		if y.truncOK {
			y.trunc++
			return
		}
		y.last = st.conds
		y.err = "loop in " + shortFn(fn)
		return
	}
	// phis
	if from != nil {
		pi := predIndex(b, from)
		vals := map[ssa.Value]*Term{}
		for _, in := range b.Instrs {
			ph, ok := in.(*ssa.Phi)
			if !ok {
				break
			}
			vals[ph] = y.val(st, ph.Edges[pi])
		}
		for k, v := range vals {
			st.env[k] = v
		}
	}
	i := 0
	for i < len(b.Instrs) {
		if _, ok := b.Instrs[i].(*ssa.Phi); !ok {
			break
		}
		i++
	}
	y.instrs(fn, b, i, st, depth, done)
}

func (y *Sym) val(st *symState, v ssa.Value) *Term {
	switch x := v.(type) {
	case *ssa.Const:
		if x.Value == nil {
			if _, ok := x.Type().Underlying().(*types.Struct); ok {
				return &Term{op: "zero", typ: x.Type(), s: x.Type().String()}
			}
			if isLenType(x.Type()) {
				if _, sl := x.Type().Underlying().(*types.Slice); !sl {
					return &Term{op: "const", cv: constant.MakeString(""), typ: x.Type()}
				}
			}
			if isIntType(x.Type()) {
				return &Term{op: "const", cv: constant.MakeInt64(0), typ: x.Type()}
			}
			if isBoolType(x.Type()) {
				return &Term{op: "const", cv: constant.MakeBool(false), typ: x.Type()}
			}
			return &Term{op: "nil", typ: x.Type()}
		}
		return &Term{op: "const", cv: x.Value, typ: x.Type()}
	case *ssa.Function:
		return &Term{op: "func", fn: x, typ: x.Type()}
	case *ssa.Global:
		return &Term{op: "global", glob: x, s: x.Pkg.Pkg.Path() + ".", typ: x.Type()}
	case *ssa.Builtin:
		return &Term{op: "builtin", s: x.Name()}
	}
	if t, ok := st.env[v]; ok {
		return t
	}
	return &Term{op: "opaque", s: v.Name(), n: y.fresh(), typ: v.Type()}
}

// decide evaluates a boolean term under the path conditions: 1, 0 or -1.
func (y *Sym) decide(st *symState, t *Term) int {
	if n, ok := t.constInt(); ok {
		return int(n)
	}
	if t.op == "un" && t.s == "!" {
		d := y.decide(st, t.args[0])
		if d < 0 {
			return d
		}
		return 1 - d
	}
	k := t.K()
	for _, c := range st.conds {
		if c.t.K() == k {
			if c.v {
				return 1
			}
			return 0
		}
	}
	if t.op == "bin" && (t.s == "==" || t.s == "!=") {
		a, b := t.args[0], t.args[1]
		eq := -1
		if a.K() == b.K() && a.op != "opaque" {
			eq = 1
		} else if isConstish(a) && isConstish(b) {
			eq = 0
		} else if (a.isNil() && nonNil(b)) || (b.isNil() && nonNil(a)) {
			eq = 0
		} else {
			// x == c1 known true, asking x == c2
			for _, c := range st.conds {
				if c.t.op != "bin" || (c.t.s != "==" && c.t.s != "!=") {
					continue
				}
				holds := c.v == (c.t.s == "==")
				x, y2 := c.t.args[0], c.t.args[1]
				if x.K() == b.K() && y2.K() == a.K() || x.K() == a.K() && y2.K() == b.K() {
					if holds {
						eq = 1
					} else {
						eq = 0
					}
					break
				}
				if !holds {
					continue
				}
				for _, pr := range [][4]*Term{{x, y2, a, b}, {x, y2, b, a}, {y2, x, a, b}, {y2, x, b, a}} {
					if pr[0].K() == pr[2].K() && isConstish(pr[1]) && isConstish(pr[3]) {
						if pr[1].K() == pr[3].K() {
							eq = 1
						} else {
							eq = 0
						}
					}
				}
			}
		}
		if eq >= 0 {
			if t.s == "!=" {
				return 1 - eq
			}
			return eq
		}
	}
	return -1
}

func isConstish(t *Term) bool {
	return t.op == "const" || t.op == "nil" || t.op == "func"
}

func nonNil(t *Term) bool {
	switch t.op {
	case "iface", "alloc", "closure", "func", "makemap", "global":
		return true
	case "call":
		return t.fn != nil && errorMaker(t.fn)
	}
	return false
}

// errorMaker lists library constructors that always return a non-nil error.
func errorMaker(fn *ssa.Function) bool {
	pkg, _, name := fnQual(fn)
	switch pkg {
	case "errors", "github.com/pkg/errors":
		return name == "New" || name == "Errorf"
	case "fmt":
		return name == "Errorf"
	}
	return false
}

func (y *Sym) load(st *symState, addr *Term, typ types.Type) *Term {
	if v, ok := st.mem[addr.K()]; ok {
		return v
	}
	if addr.op == "alloc" {
		return y.zero(typ)
	}
	if addr.op == "field" && rootAlloc(addr) {
		// zero unless the whole struct was stored
		if base := storedStruct(st, addr.args[0]); base != nil {
			return y.fieldOf(st, base, addr.s, typ)
		}
		return y.zero(typ)
	}
	if addr.op == "global" {
		if y.constG != nil {
			if t := y.constG(addr.glob); t != nil {
				return t
			}
		}
		return &Term{op: "load", args: []*Term{addr}, typ: typ}
	}
	return &Term{op: "load", args: []*Term{addr}, n: st.epoch, typ: typ}
}

// storedStruct finds the struct value last stored at the address as a whole.
func storedStruct(st *symState, addr *Term) *Term {
	if v, ok := st.mem[addr.K()]; ok {
		return v
	}
	if addr.op != "field" {
		return nil
	}
	base := storedStruct(st, addr.args[0])
	if base == nil {
		return nil
	}
	if base.op == "load" {
		return &Term{op: "load", args: []*Term{{op: "field", s: addr.s, args: []*Term{base.args[0]}}}, n: base.n}
	}
	return &Term{op: "fieldof", s: addr.s, args: []*Term{base}}
}

func rootAlloc(a *Term) bool {
	for a.op == "field" || a.op == "index" {
		a = a.args[0]
	}
	return a.op == "alloc"
}

func (y *Sym) zero(t types.Type) *Term {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsString != 0:
			return &Term{op: "const", cv: constant.MakeString(""), typ: t}
		case u.Info()&types.IsInteger != 0:
			return &Term{op: "const", cv: constant.MakeInt64(0), typ: t}
		case u.Info()&types.IsBoolean != 0:
			return &Term{op: "const", cv: constant.MakeBool(false), typ: t}
		}
	case *types.Struct, *types.Array:
		return &Term{op: "zero", s: t.String(), typ: t}
	}
	return &Term{op: "nil", typ: t}
}

func (y *Sym) instrs(fn *ssa.Function, b *ssa.BasicBlock, i int, st *symState, depth int, done symDone) {
	for ; i < len(b.Instrs); i++ {
		if y.err != "" {
			return
		}
		switch in := b.Instrs[i].(type) {
		case *ssa.DebugRef:
		case *ssa.Alloc:
			et := in.Type().Underlying().(*types.Pointer).Elem()
			st.env[in] = &Term{op: "alloc", s: et.String(), n: y.fresh(), typ: in.Type(), in: in}
		case *ssa.Store:
			a := y.val(st, in.Addr)
			v := y.val(st, in.Val)
			// a whole-struct store replaces the fields
			pre := "field(" // children start with field(...addr...)
			_ = pre
			for k, at := range st.memT {
				if at.op == "field" && at.args[0].K() == a.K() {
					delete(st.mem, k)
					delete(st.memT, k)
				}
			}
			st.mem[a.K()] = v
			st.memT[a.K()] = a
			if !rootAlloc(a) {
				st.events = append(st.events, SymEvent{kind: "store", args: []*Term{a, v}, in: in})
			}
		case *ssa.UnOp:
			x := y.val(st, in.X)
			switch in.Op {
			case token.MUL:
				st.env[in] = y.load(st, x, in.Type())
			case token.NOT:
				st.env[in] = &Term{op: "un", s: "!", args: []*Term{x}, typ: in.Type()}
			case token.ARROW:
				t := &Term{op: "recv", args: []*Term{x}, n: y.fresh(), typ: in.Type()}
				st.env[in] = t
				st.events = append(st.events, SymEvent{kind: "recv", args: []*Term{x}, res: t, in: in})
			default:
				st.env[in] = &Term{op: "un", s: in.Op.String(), args: []*Term{x}, typ: in.Type()}
			}
		case *ssa.BinOp:
			x, z := y.val(st, in.X), y.val(st, in.Y)
			if x.op == "const" && z.op == "const" && x.cv != nil && z.cv != nil {
				if t := foldBin(in.Op, x, z, in.Type()); t != nil {
					st.env[in] = t
					break
				}
			}
			st.env[in] = &Term{op: "bin", s: in.Op.String(), args: []*Term{x, z}, typ: in.Type()}
		case *ssa.FieldAddr:
			x := y.val(st, in.X)
			st.env[in] = &Term{op: "field", s: fieldName(in.X.Type(), in.Field), args: []*Term{x}, typ: in.Type()}
		case *ssa.Field:
			x := y.val(st, in.X)
			st.env[in] = y.fieldOf(st, x, fieldName(in.X.Type(), in.Field), in.Type())
		case *ssa.IndexAddr:
			st.env[in] = &Term{op: "index", args: []*Term{y.val(st, in.X), y.val(st, in.Index)}, typ: in.Type()}
		case *ssa.Index:
			st.env[in] = &Term{op: "elem", args: []*Term{y.val(st, in.X), y.val(st, in.Index)}, typ: in.Type()}
		case *ssa.Lookup:
			t := &Term{op: "lookup", args: []*Term{y.val(st, in.X), y.val(st, in.Index)}, typ: in.Type(), n: st.epoch}
			st.env[in] = t
		case *ssa.Extract:
			x := y.val(st, in.Tuple)
			st.env[in] = &Term{op: "extract", s: fmt.Sprint(in.Index), args: []*Term{x}, typ: in.Type()}
			if x.op == "tuple" {
				st.env[in] = x.args[in.Index]
			}
		case *ssa.Slice:
			t := &Term{op: "slice", typ: in.Type()}
			for _, v := range []ssa.Value{in.X, in.Low, in.High, in.Max} {
				if v == nil {
					t.args = append(t.args, &Term{op: "none"})
				} else {
					t.args = append(t.args, y.val(st, v))
				}
			}
			st.env[in] = t
		case *ssa.MakeInterface:
			st.env[in] = &Term{op: "iface", s: in.X.Type().String(), args: []*Term{y.val(st, in.X)}, typ: in.X.Type()}
		case *ssa.ChangeInterface:
			st.env[in] = y.val(st, in.X)
		case *ssa.ChangeType:
			st.env[in] = &Term{op: "chtype", args: []*Term{y.val(st, in.X)}, typ: in.Type()}
			if x := y.val(st, in.X); x.op == "func" || x.op == "closure" || x.op == "const" || x.op == "nil" {
				st.env[in] = x
			}
		case *ssa.Convert:
			x := y.val(st, in.X)
			if x.op == "const" && isIntType(in.Type()) && isIntType(in.X.Type()) {
				st.env[in] = &Term{op: "const", cv: x.cv, typ: in.Type()}
			} else {
				st.env[in] = &Term{op: "conv", s: in.Type().String(), args: []*Term{x}, typ: in.Type()}
			}
		case *ssa.TypeAssert:
			x := y.val(st, in.X)
			t := &Term{op: "assert", s: in.AssertedType.String(), args: []*Term{x}, typ: in.AssertedType}
			okT := &Term{op: "assertok", s: in.AssertedType.String(), args: []*Term{x}, typ: types.Typ[types.Bool]}
			if x.op == "iface" {
				_, toIface := in.AssertedType.Underlying().(*types.Interface)
				if !toIface {
					if types.Identical(x.typ, in.AssertedType) {
						t = x.args[0]
						okT = &Term{op: "const", cv: constant.MakeBool(true)}
					} else {
						okT = &Term{op: "const", cv: constant.MakeBool(false)}
						t = y.zero(in.AssertedType)
					}
				} else if types.Implements(x.typ, in.AssertedType.Underlying().(*types.Interface)) {
					t = x
					okT = &Term{op: "const", cv: constant.MakeBool(true)}
				}
			}
			if in.CommaOk {
				st.env[in] = &Term{op: "tuple", args: []*Term{t, okT}}
			} else {
				if n, isC := okT.constInt(); isC && n == 0 {
					done(st, nil, in)
					return
				}
				st.events = append(st.events, SymEvent{kind: "assert", args: []*Term{x}, typ: in.AssertedType, in: in})
				st.env[in] = t
			}
		case *ssa.MakeClosure:
			t := &Term{op: "closure", fn: in.Fn.(*ssa.Function), n: y.fresh(), typ: in.Type()}
			for _, bd := range in.Bindings {
				t.args = append(t.args, y.val(st, bd))
			}
			st.env[in] = t
		case *ssa.MakeMap, *ssa.MakeChan, *ssa.MakeSlice:
			v := in.(ssa.Value)
			t := &Term{op: "makemap", s: v.Type().String(), n: y.fresh(), typ: v.Type()}
			if ms, ok := in.(*ssa.MakeSlice); ok {
				t.op = "makeslice"
				t.args = []*Term{y.val(st, ms.Len)}
			}
			if mc, ok := in.(*ssa.MakeChan); ok {
				t.op = "makechan"
				t.args = []*Term{y.val(st, mc.Size)}
			}
			st.env[v] = t
		case *ssa.MapUpdate:
			st.events = append(st.events, SymEvent{kind: "mapset", args: []*Term{y.val(st, in.Map), y.val(st, in.Key), y.val(st, in.Value)}, in: in})
			st.epoch++
		case *ssa.Send:
			st.events = append(st.events, SymEvent{kind: "send", args: []*Term{y.val(st, in.Chan), y.val(st, in.X)}, in: in})
		case *ssa.Go:
			e := y.callEvent(st, in)
			e.kind = "go"
			st.events = append(st.events, e)
		case *ssa.Defer:
			e := y.callEvent(st, in)
			e.kind = "defer"
			st.events = append(st.events, e)
			inst := in
			cal, args := y.callee(st, inst)
			st.defers = append(st.defers, func(s *symState) []*symState {
				var outs []*symState
				if cal != nil && cal.fn != nil && cal.fn.Blocks != nil && y.p.inModule(cal.fn) && y.follow(cal.fn) {
					var binds []*Term
					if cal.op == "closure" {
						binds = cal.args
					}
					y.run(cal.fn, s, args, binds, depth+1, func(s2 *symState, ret []*Term, end ssa.Instruction) {
						outs = append(outs, s2.clone())
					})
					return outs
				}
				ev := SymEvent{kind: "call", args: args, in: inst}
				if cal != nil {
					ev.fn = cal.fn
				}
				if inst.Call.IsInvoke() {
					ev.method = inst.Call.Method.Name()
				}
				s.events = append(s.events, ev)
				s.epoch++
				return []*symState{s}
			})
		case *ssa.RunDefers:
			states := []*symState{st}
			for {
				var next []*symState
				more := false
				for _, s := range states {
					if len(s.defers) == 0 {
						next = append(next, s)
						continue
					}
					more = true
					d := s.defers[len(s.defers)-1]
					s.defers = s.defers[:len(s.defers)-1]
					next = append(next, d(s)...)
				}
				states = next
				if !more {
					break
				}
			}
			for _, s := range states {
				y.instrs(fn, b, i+1, s, depth, done)
			}
			return
		case *ssa.Call:
			if y.call(fn, b, i, st, in, depth, done) {
				return
			}
		case *ssa.If:
			c := y.val(st, in.Cond)
			neg := false
			for c.op == "un" && c.s == "!" {
				c = c.args[0]
				neg = !neg
			}
			d := y.decide(st, c)
			if d < 0 {
				y.paths++
				if y.paths > y.maxPaths {
					y.err = "too many paths in " + shortFn(fn)
					return
				}
				for _, v := range []bool{true, false} {
					if y.feasible != nil && !y.feasible(c, v) {
						continue
					}
					s2 := st.clone()
					s2.conds = append(s2.conds, SymCond{c, v})
					idx := 1
					if v != neg {
						idx = 0
					}
					y.block(fn, b.Succs[idx], b, s2, depth, done)
				}
				return
			}
			idx := 1
			if (d == 1) != neg {
				idx = 0
			}
			y.block(fn, b.Succs[idx], b, st, depth, done)
			return
		case *ssa.Jump:
			y.block(fn, b.Succs[0], b, st, depth, done)
			return
		case *ssa.Return:
			var ret []*Term
			for _, v := range in.Results {
				ret = append(ret, y.val(st, v))
			}
			done(st, ret, in)
			return
		case *ssa.Panic:
			st.events = append(st.events, SymEvent{kind: "panic", args: []*Term{y.val(st, in.X)}, in: in})
			done(st, nil, in)
			return
		case *ssa.Range, *ssa.Next, *ssa.Select:
			v := in.(ssa.Value)
			t := &Term{op: "opaque", s: "iter", n: y.fresh(), typ: v.Type(), in: in}
			for _, op := range in.Operands(nil) {
				if *op != nil {
					t.args = append(t.args, y.val(st, *op))
				}
			}
			st.env[v] = t
			if sl, ok := in.(*ssa.Select); ok {
				for _, s := range sl.States {
					k := "selrecv"
					if s.Dir == types.SendOnly {
						k = "selsend"
					}
					st.events = append(st.events, SymEvent{kind: k, args: []*Term{y.val(st, s.Chan)}, in: in, res: t})
				}
			}
		default:
			if v, ok := in.(ssa.Value); ok {
				st.env[v] = &Term{op: "opaque", s: fmt.Sprintf("%T", in), n: y.fresh(), typ: v.Type()}
			}
		}
	}
}

func (y *Sym) fieldOf(st *symState, x *Term, f string, t types.Type) *Term {
	if x.op == "load" {
		a := &Term{op: "field", s: f, args: []*Term{x.args[0]}}
		if v, ok := st.mem[a.K()]; ok {
			return v
		}
		if rootAlloc(x.args[0]) {
			return y.zero(t)
		}
		return &Term{op: "load", args: []*Term{a}, n: x.n, typ: t}
	}
	if x.op == "zero" {
		return y.zero(t)
	}
	return &Term{op: "fieldof", s: f, args: []*Term{x}, typ: t}
}

func foldBin(op token.Token, x, z *Term, t types.Type) *Term {
	defer func() { recover() }()
	switch op {
	case token.EQL, token.NEQ, token.LSS, token.LEQ, token.GTR, token.GEQ:
		return &Term{op: "const", cv: constant.MakeBool(constant.Compare(x.cv, op, z.cv)), typ: t}
	case token.ADD, token.SUB, token.MUL, token.AND, token.OR:
		return &Term{op: "const", cv: constant.BinaryOp(x.cv, op, z.cv), typ: t}
	}
	return nil
}

func (y *Sym) callee(st *symState, in ssa.CallInstruction) (*Term, []*Term) {
	cc := in.Common()
	var args []*Term
	for _, a := range cc.Args {
		args = append(args, y.val(st, a))
	}
	if cc.IsInvoke() {
		return nil, args
	}
	return y.val(st, cc.Value), args
}

func (y *Sym) callEvent(st *symState, in ssa.CallInstruction) SymEvent {
	cc := in.Common()
	e := SymEvent{kind: "call", in: in.(ssa.Instruction)}
	c, args := y.callee(st, in)
	e.args = args
	if cc.IsInvoke() {
		e.method = cc.Method.Name()
		e.recv = y.val(st, cc.Value)
		e.typ = cc.Value.Type()
	} else {
		e.recv = c
		e.fn = c.fn
	}
	return e
}

// call handles a call instruction; true means the continuation was taken over.
func (y *Sym) call(fn *ssa.Function, b *ssa.BasicBlock, i int, st *symState, in *ssa.Call, depth int, done symDone) bool {
	cc := in.Common()
	e := y.callEvent(st, in)
	if bt, ok := cc.Value.(*ssa.Builtin); ok {
		t := &Term{op: "builtin", s: bt.Name(), args: e.args, typ: in.Type()}
		switch bt.Name() {
		case "len":
			if s, ok := e.args[0].constStr(); ok {
				t = &Term{op: "const", cv: constant.MakeInt64(int64(len(s))), typ: in.Type()}
			} else if e.args[0].isNil() {
				t = &Term{op: "const", cv: constant.MakeInt64(0), typ: in.Type()}
			}
		case "append", "cap":
		case "ssa:wrapnilchk":
			t = e.args[0]
		default:
			st.events = append(st.events, SymEvent{kind: "builtin", method: bt.Name(), args: e.args, in: in})
		}
		st.env[in] = t
		return false
	}
	target := e.fn
	var binds []*Term
	args := e.args
	if target == nil && e.recv != nil && !cc.IsInvoke() {
		r := e.recv.strip()
		if r.op == "closure" || r.op == "func" {
			target = r.fn
			binds = r.args
		}
	} else if e.recv != nil && e.recv.op == "closure" {
		binds = e.recv.args
	}
	if cc.IsInvoke() && e.recv.op == "iface" {
		// known dynamic type
		if s := y.p.prog.MethodSets.MethodSet(e.recv.typ).Lookup(cc.Method.Pkg(), cc.Method.Name()); s != nil {
			if f := y.p.prog.MethodValue(s); f != nil && f.Blocks != nil {
				target = f
				args = append([]*Term{e.recv.args[0]}, args...)
			}
		}
	}
	if target != nil && target.Blocks != nil && y.p.inModule(target) && y.follow(target) {
		idx := i + 1
		y.run(target, st, args, binds, depth+1, func(s *symState, ret []*Term, end ssa.Instruction) {
			if _, isRet := end.(*ssa.Return); !isRet {
				done(s, nil, end) // a panic ends the path
				return
			}
			s2 := s.clone()
			switch len(ret) {
			case 0:
			case 1:
				s2.env[in] = ret[0]
			default:
				s2.env[in] = &Term{op: "tuple", args: ret}
			}
			y.instrs(fn, b, idx, s2, depth, done)
		})
		return true
	}
	pure := target != nil && pureLib(target)
	t := &Term{op: "call", typ: in.Type(), fn: target, s: e.method, args: args}
	if e.recv != nil && target == nil {
		t.args = append([]*Term{e.recv}, args...)
	}
	if !pure {
		t.n = y.fresh()
		st.epoch++
	}
	e.res = t
	e.fn = target
	e.args = args
	st.events = append(st.events, e)
	if tt, ok := in.Type().(*types.Tuple); ok && tt.Len() > 1 {
		tup := &Term{op: "tuple"}
		for k := 0; k < tt.Len(); k++ {
			tup.args = append(tup.args, &Term{op: "extract", s: fmt.Sprint(k), args: []*Term{t}, typ: tt.At(k).Type()})
		}
		st.env[in] = tup
	} else {
		st.env[in] = t
	}
	return false
}

// pureLib lists library functions whose result depends on the arguments only.
func pureLib(fn *ssa.Function) bool {
	pkg, recv, _ := fnQual(fn)
	if recv != "" {
		return false
	}
	switch pkg {
	case "strings", "bytes", "unicode", "unicode/utf8", "strconv":
		return true
	}
	return false
}
