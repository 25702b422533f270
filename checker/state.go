package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type kind uint8

const (
	kTop  kind = iota
	kInt       // off: integer/bool constant; error class id for error sentinels
	kStr       // path: constant string / byte content
	kCell      // id: abstract cell
	kAff       // id (symbol cell) + off
	kNil       // nil pointer/interface/slice/map/func
	kObj       // address: object id + field path
	kCur       // the input cursor
	kFunc      // ref: *ssa.Function
	kGlob      // ref: *ssa.Global (its address)
)

// AVal is an abstract value.
type AVal struct {
	k    kind
	id   int32
	off  int64
	path string
	ref  interface{}
}

var (
	vTop = AVal{}
	vNil = AVal{k: kNil}
	vCur = AVal{k: kCur}
)

func vInt(n int64) AVal { return AVal{k: kInt, off: n} }
func vBool(b bool) AVal {
	if b {
		return vInt(1)
	}
	return vInt(0)
}
func vStr(s string) AVal       { return AVal{k: kStr, path: s} }
func vCell(id int32) AVal      { return AVal{k: kCell, id: id} }
func vObj(id int32) AVal       { return AVal{k: kObj, id: id} }
func vFn(f *ssa.Function) AVal { return AVal{k: kFunc, ref: f} }

// cell is an immutable abstract datum.  set is: the value set (ints, bools),
// {0 nil,1 non-nil} (pointers), {0 nil, 1 other, >=2 sentinel} (errors and
// other interfaces), or the set of lengths (strings, slices).
type cell struct {
	set  *Set
	tags uint32
	dyn  types.Type
	base int32 // slices: cell this one is a suffix of
	drop int64 // minimal number of leading elements dropped from base
}

type obj struct {
	typ    types.Type
	fn     *ssa.Function // closures
	zero   bool          // unset fields read as zero values
	fields map[string]AVal
}

func (o *obj) with(f string, v AVal) *obj {
	n := &obj{typ: o.typ, fn: o.fn, zero: o.zero, fields: make(map[string]AVal, len(o.fields)+1)}
	for k, x := range o.fields {
		n.fields[k] = x
	}
	n.fields[f] = v
	return n
}

type evar struct {
	v ssa.Value
	i int
}

type widx struct {
	sym int32
	off int32
}

const nGhost = 20

type Ghost [nGhost]int16

type deferred struct {
	fn   AVal
	args []AVal
}

const lbMax = 4

type State struct {
	env    map[evar]AVal
	cells  map[int32]*cell
	objs   map[int32]*obj
	next   int32
	win    map[widx]int32
	rng    map[widx]int32
	lb     [lbMax]int32
	ghost  Ghost
	prog   map[int]bool
	defers []deferred
}

func newState() *State {
	return &State{env: map[evar]AVal{}, cells: map[int32]*cell{}, objs: map[int32]*obj{}, win: map[widx]int32{}, rng: map[widx]int32{}, prog: map[int]bool{}}
}

func (s *State) clone() *State {
	n := &State{next: s.next, lb: s.lb, ghost: s.ghost}
	n.env = make(map[evar]AVal, len(s.env)+4)
	for k, v := range s.env {
		n.env[k] = v
	}
	n.cells = make(map[int32]*cell, len(s.cells)+4)
	for k, v := range s.cells {
		n.cells[k] = v
	}
	n.objs = make(map[int32]*obj, len(s.objs)+1)
	for k, v := range s.objs {
		n.objs[k] = v
	}
	n.win = make(map[widx]int32, len(s.win)+2)
	for k, v := range s.win {
		n.win[k] = v
	}
	n.rng = make(map[widx]int32, len(s.rng)+2)
	for k, v := range s.rng {
		n.rng[k] = v
	}
	n.prog = make(map[int]bool, len(s.prog))
	for k, v := range s.prog {
		n.prog[k] = v
	}
	n.defers = append([]deferred(nil), s.defers...)
	return n
}

func (s *State) fresh(set *Set) int32 {
	s.next++
	s.cells[s.next] = &cell{set: set}
	return s.next
}

func (s *State) freshObj(o *obj) int32 {
	s.next++
	s.objs[s.next] = o
	return s.next
}

func (s *State) setCell(id int32, set *Set) bool {
	c := s.cells[id]
	if c == nil {
		c = &cell{set: set}
		s.cells[id] = c
		return !set.Empty()
	}
	if c.set != set {
		n := *c
		n.set = set
		s.cells[id] = &n
	}
	return !set.Empty()
}

// refineCell intersects; false means the state is infeasible.
func (s *State) refineCell(id int32, set *Set) bool {
	c := s.cells[id]
	if c == nil {
		return s.setCell(id, set)
	}
	n := c.set.Inter(set)
	if n.Empty() {
		return false
	}
	if n != c.set {
		s.setCell(id, n)
		return s.winNormalize()
	}
	return true
}

// winNormalize propagates end-of-input knowledge through the lookahead window:
// a real character at index k means real characters at every lower index, and
// end of input at k means end of input at every higher index.
func (s *State) winNormalize() bool {
	if len(s.win) == 0 {
		return true
	}
	changed := true
	for changed {
		changed = false
		for i, ci := range s.win {
			c := s.cells[ci]
			if c == nil {
				continue
			}
			real := !c.set.Has(0xFFFD)
			only := c.set == runeErr
			if !real && !only {
				continue
			}
			for j, cj := range s.win {
				if ci == cj {
					continue
				}
				rel := 0 // -1: j is at or below i ; +1: j at or above i
				switch {
				case i.sym == j.sym:
					if j.off < i.off {
						rel = -1
					} else if j.off > i.off {
						rel = 1
					}
				case i.sym != 0 && j.sym == 0:
					if sc := s.cells[i.sym]; sc != nil {
						if satAdd(sc.set.Min(), int64(i.off)) >= int64(j.off) {
							rel = -1
						} else if satAdd(sc.set.Max(), int64(i.off)) <= int64(j.off) {
							rel = 1
						}
					}
				case i.sym == 0 && j.sym != 0:
					if sc := s.cells[j.sym]; sc != nil {
						if satAdd(sc.set.Max(), int64(j.off)) <= int64(i.off) {
							rel = -1
						} else if satAdd(sc.set.Min(), int64(j.off)) >= int64(i.off) {
							rel = 1
						}
					}
				}
				d := s.cells[cj]
				if d == nil {
					continue
				}
				var n *Set
				if real && rel < 0 {
					n = d.set.Minus(runeErr)
				} else if only && rel > 0 {
					n = d.set.Inter(runeErr)
				} else {
					continue
				}
				if n.Empty() {
					return false
				}
				if n != d.set {
					s.setCell(cj, n)
					changed = true
				}
			}
			if real && i.sym != 0 {
				for j, cj := range s.rng {
					if j.sym == i.sym && j.off <= i.off {
						d := s.cells[cj]
						if d != nil && d.set.Has(0xFFFD) {
							s.setCell(cj, d.set.Minus(runeErr))
						}
					}
				}
			}
		}
	}
	return true
}

func (s *State) replaceCell(old, nw int32) {
	if old == nw {
		return
	}
	rep := func(a AVal) AVal {
		if (a.k == kCell || a.k == kAff) && a.id == old {
			a.id = nw
		}
		return a
	}
	for k, v := range s.env {
		s.env[k] = rep(v)
	}
	for id, o := range s.objs {
		for f, v := range o.fields {
			if n := rep(v); n != v {
				o = o.with(f, n)
				s.objs[id] = o
			}
		}
	}
	for k, v := range s.win {
		if v == old {
			s.win[k] = nw
		}
	}
	for i := range s.lb {
		if s.lb[i] == old {
			s.lb[i] = nw
		}
	}
}

// set of an abstract value
func (s *State) setOf(a AVal, t types.Type) *Set {
	switch a.k {
	case kInt:
		return single(a.off)
	case kCell:
		if c := s.cells[a.id]; c != nil {
			return c.set
		}
	case kAff:
		if c := s.cells[a.id]; c != nil {
			return c.set.Shift(a.off)
		}
	case kNil:
		return single(0)
	case kObj, kCur, kFunc, kGlob:
		return single(1)
	case kStr:
		if isLenType(t) {
			return single(int64(len(a.path)))
		}
	}
	return typeBound(t)
}

func isLenType(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return u.Info()&types.IsString != 0
	case *types.Slice:
		return true
	}
	return false
}

func isIntType(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

func isBoolType(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsBoolean != 0
}

func intRange(t types.Type) (lo, hi int64, bits uint, ok bool) {
	b, isB := t.Underlying().(*types.Basic)
	if !isB {
		return
	}
	ok = true
	switch b.Kind() {
	case types.Int8:
		lo, hi, bits = -128, 127, 8
	case types.Int16:
		lo, hi, bits = -32768, 32767, 16
	case types.Int32, types.UntypedRune:
		lo, hi, bits = -1<<31, 1<<31-1, 32
	case types.Int, types.Int64, types.UntypedInt:
		lo, hi, bits = minI, maxI, 64
	case types.Uint8:
		lo, hi, bits = 0, 255, 8
	case types.Uint16:
		lo, hi, bits = 0, 65535, 16
	case types.Uint32:
		lo, hi, bits = 0, 1<<32-1, 32
	case types.Uint, types.Uint64, types.Uintptr:
		lo, hi, bits = 0, maxI, 64
	case types.Bool, types.UntypedBool:
		lo, hi, bits = 0, 1, 64
	default:
		ok = false
	}
	return
}

var (
	lenSet  = interval(0, maxI)
	ptrSet  = interval(0, 1)
	ifaceSt = interval(0, 4096)
)

func typeBound(t types.Type) *Set {
	if t == nil {
		return fullInt
	}
	if lo, hi, _, ok := intRange(t); ok {
		return interval(lo, hi)
	}
	switch t.Underlying().(type) {
	case *types.Pointer, *types.Map, *types.Chan, *types.Signature:
		return ptrSet
	case *types.Interface:
		return ifaceSt
	}
	if isLenType(t) {
		return lenSet
	}
	return fullInt
}

func constVal(c *ssa.Const) AVal {
	if c.Value == nil {
		t := c.Type().Underlying()
		switch u := t.(type) {
		case *types.Slice:
			return vNil
		case *types.Basic:
			_ = u
			if isBoolType(c.Type()) || isIntType(c.Type()) {
				return vInt(0)
			}
			return vStr("")
		case *types.Struct, *types.Array:
			return vTop
		}
		return vNil
	}
	switch c.Value.Kind() {
	case constant.Bool:
		return vBool(constant.BoolVal(c.Value))
	case constant.Int:
		if i, ok := constant.Int64Val(c.Value); ok {
			return vInt(i)
		}
	case constant.String:
		return vStr(constant.StringVal(c.Value))
	}
	return vTop
}

// zeroVal of a type as an abstract value
func zeroVal(t types.Type) AVal {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if u.Info()&types.IsString != 0 {
			return vStr("")
		}
		if u.Info()&(types.IsInteger|types.IsBoolean) != 0 {
			return vInt(0)
		}
		return vTop
	case *types.Struct, *types.Array:
		return vTop
	}
	return vNil
}

// ---------------------------------------------------------------- canonical form

type canonResult struct {
	st    *State
	disc  string
	order []int32 // canonical cell ids in order
	objs  map[int32]int32
	cells map[int32]int32
}

// isZeroField reports whether field f of a zero-initialised object still has
// its zero value, so that it can be left out of the canonical form.
func isZeroField(o *obj, f string, v AVal) bool {
	switch v.k {
	case kInt:
		return v.off == 0
	case kNil:
		return true
	case kStr:
		return v.path == ""
	}
	return false
}

// canonicalise renumbers the state by reachability from the given roots.
// pinned ids 1..pin keep their numbers.
func (s *State) canonicalise(keys []evar, extra []AVal, pin int32, keepLB bool) canonResult {
	n := newState()
	sb := make(kbuf, 0, 512)
	cm := map[int32]int32{}
	om := map[int32]int32{}
	next := pin
	var order []int32
	var queue []int32 // objects to visit
	addCell := func(id int32) int32 {
		if id == 0 {
			return 0
		}
		if m, ok := cm[id]; ok {
			return m
		}
		c := s.cells[id]
		if c == nil {
			return 0
		}
		next++
		cm[id] = next
		order = append(order, id)
		return next
	}
	addObj := func(id int32) int32 {
		if m, ok := om[id]; ok {
			return m
		}
		if s.objs[id] == nil {
			return 0
		}
		next++
		om[id] = next
		queue = append(queue, id)
		return next
	}
	for i := int32(1); i <= pin; i++ {
		if s.cells[i] != nil {
			cm[i] = i
			order = append(order, i)
		} else if s.objs[i] != nil {
			om[i] = i
			queue = append(queue, i)
		}
	}
	av := func(a AVal) AVal {
		switch a.k {
		case kCell:
			a.id = addCell(a.id)
			if a.id == 0 {
				return vTop
			}
			sb.s("c")
			sb.i(int64(a.id))
		case kAff:
			a.id = addCell(a.id)
			if a.id == 0 {
				return vTop
			}
			sb.s("a")
			sb.i(int64(a.id))
			sb.c('+')
			sb.i(int64(a.off))
		case kObj:
			a.id = addObj(a.id)
			if a.id == 0 {
				return vTop
			}
			sb.s("o")
			sb.i(int64(a.id))
			sb.s(".")
			sb.s(a.path)
		case kInt:
			sb.s("i")
			sb.i(int64(a.off))
		case kStr:
			sb.s("s")
			sb.q(a.path)
		case kFunc:
			sb.s("f")
			sb.i(ptrID(a.ref.(*ssa.Function)))
		case kGlob:
			sb.s("g")
			sb.i(ptrID(a.ref.(*ssa.Global)))
		case kNil:
			sb.c('N')
		case kCur:
			sb.c('U')
		default:
			sb.c('T')
		}
		return a
	}
	for _, k := range keys {
		a, ok := s.env[k]
		if !ok || a.k == kTop {
			sb.c(',')
			continue
		}
		n.env[k] = av(a)
		sb.c(',')
	}
	sb.c('|')
	for _, a := range extra {
		av(a)
		sb.c(',')
	}
	sb.c('|')
	for _, d := range s.defers {
		nd := deferred{fn: av(d.fn)}
		for _, a := range d.args {
			nd.args = append(nd.args, av(a))
		}
		sb.c(';')
		n.defers = append(n.defers, nd)
	}
	sb.c('|')
	// objects
	for qi := 0; qi < len(queue); qi++ {
		id := queue[qi]
		o := s.objs[id]
		nid := om[id]
		sb.s("{")
		sb.i(int64(nid))
		sb.s(":")
		if o.fn != nil {
			sb.i(ptrID(o.fn))
		}
		if o.zero {
			sb.c('z')
		}
		names := make([]string, 0, len(o.fields))
		for f, v := range o.fields {
			if o.zero && isZeroField(o, f, v) {
				continue // same as an untouched field
			}
			names = append(names, f)
		}
		sort.Strings(names)
		no := &obj{typ: o.typ, fn: o.fn, zero: o.zero, fields: make(map[string]AVal, len(names))}
		for _, f := range names {
			v := o.fields[f]
			sb.s(f)
			sb.c('=')
			no.fields[f] = av(v)
			sb.c(';')
		}
		sb.c('}')
		n.objs[nid] = no
	}
	sb.c('|')
	// window
	var widxs []widx
	for k := range s.win {
		if k.sym != 0 {
			if _, ok := cm[k.sym]; !ok {
				continue
			}
		}
		widxs = append(widxs, k)
	}
	sort.Slice(widxs, func(i, j int) bool {
		a, b := widxs[i], widxs[j]
		as, bs := cm[a.sym], cm[b.sym]
		if as != bs {
			return as < bs
		}
		return a.off < b.off
	})
	for _, k := range widxs {
		nk := widx{cm[k.sym], k.off}
		id := s.win[k]
		if k.sym == 0 && s.cells[id] != nil && s.cells[id].set == anyRune {
			if _, seen := cm[id]; !seen && k.off > 2 {
				continue
			}
		}
		nid := addCell(id)
		if nid == 0 {
			continue
		}
		n.win[nk] = nid
		sb.s("w")
		sb.i(int64(nk.sym))
		sb.s(".")
		sb.i(int64(nk.off))
		sb.s("=")
		sb.i(int64(nid))
		sb.s(";")
	}
	var ridx []widx
	for k := range s.rng {
		if _, ok := cm[k.sym]; !ok {
			continue
		}
		ridx = append(ridx, k)
	}
	sort.Slice(ridx, func(i, j int) bool {
		a, b := ridx[i], ridx[j]
		as, bs := cm[a.sym], cm[b.sym]
		if as != bs {
			return as < bs
		}
		return a.off < b.off
	})
	for _, k := range ridx {
		nk := widx{cm[k.sym], k.off}
		nid := addCell(s.rng[k])
		if nid == 0 {
			continue
		}
		n.rng[nk] = nid
		sb.s("r")
		sb.i(int64(nk.sym))
		sb.s(".")
		sb.i(int64(nk.off))
		sb.s("=")
		sb.i(int64(nid))
		sb.s(";")
	}
	if keepLB {
		for i, id := range s.lb {
			n.lb[i] = addCell(id)
			sb.s("l")
			sb.i(int64(n.lb[i]))
			sb.s(";")
		}
	}
	// cells
	for _, id := range order {
		c := s.cells[id]
		nc := *c
		if nc.base != 0 {
			nc.base = cm[nc.base]
			if nc.drop > 1 {
				nc.drop = 1
			}
		}
		if nc.base == 0 {
			nc.drop = 0
		}
		n.cells[cm[id]] = &nc
		if nc.tags != 0 || nc.dyn != nil || nc.base != 0 {
			sb.s("#")
			sb.i(int64(cm[id]))
			sb.s(":")
			sb.i(int64(nc.tags))
			if nc.dyn != nil {
				sb.s(nc.dyn.String())
			}
			if nc.base != 0 {
				sb.s("b")
				sb.i(int64(nc.base))
				sb.s("-")
				sb.i(int64(nc.drop))
			}
		}
	}
	sb.c('|')
	n.ghost = s.ghost
	for i, g := range s.ghost {
		if g != 0 {
			sb.s("G")
			sb.i(int64(i))
			sb.s("=")
			sb.i(int64(g))
			sb.s(";")
		}
	}
	var ph []int
	for k := range s.prog {
		ph = append(ph, k)
	}
	sort.Ints(ph)
	for _, k := range ph {
		n.prog[k] = s.prog[k]
		if s.prog[k] {
			sb.s("P")
			sb.i(int64(k))
			sb.s(";")
		} else {
			sb.s("p")
			sb.i(int64(k))
			sb.s(";")
		}
	}
	n.next = next
	nord := make([]int32, len(order))
	for i, id := range order {
		nord[i] = cm[id]
	}
	return canonResult{st: n, disc: string(sb), order: nord, objs: om, cells: cm}
}

// setsKey serialises the cell sets (for memo keys of entry states).
func (c canonResult) setsKey() string {
	var sb strings.Builder
	for _, id := range c.order {
		sb.WriteString(c.st.cells[id].set.key)
		sb.WriteByte('/')
	}
	return sb.String()
}

func (c canonResult) dump() string {
	var sb strings.Builder
	for _, id := range c.order {
		x := c.st.cells[id].set.String()
		if len(x) > 40 {
			x = x[:40] + "~"
		}
		fmt.Fprintf(&sb, "%d:%s ", id, x)
	}
	return sb.String()
}

type kbuf []byte

func (b *kbuf) i(n int64) {
	*b = strconv.AppendInt(*b, n, 36)
	*b = append(*b, '.')
}
func (b *kbuf) s(x string) { *b = append(*b, x...) }
func (b *kbuf) c(x byte)   { *b = append(*b, x) }
func (b *kbuf) q(x string) { *b = strconv.AppendQuote(*b, x) }

var ptrIDs = map[interface{}]int64{}

func ptrID(p interface{}) int64 {
	if n, ok := ptrIDs[p]; ok {
		return n
	}
	n := int64(len(ptrIDs) + 1)
	ptrIDs[p] = n
	return n
}
