package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Abstract interpretation of code that copies a text to a destination while
// replacing some characters.  The text is abstracted to a sequence of
// segments, each a character or a run of characters drawn from a set, followed
// by an unknown rest; numbers are positions in it.  States are joined at loop
// headers by forgetting the boundaries nothing refers to, which leaves finitely
// many, so the exploration covers texts of every length.

const (
	xLimit      = 2000000 // instructions followed before giving up
	invalidByte = 0x110000 // stands for a byte that is not part of valid UTF-8
	xEnd        = -1       // the position after the last character
)

var (
	xAll   = interval(0, invalidByte)
	xAscii = interval(0, 0x7f)
)

type xSeg struct {
	cls  *Set
	run  bool // any number of characters
	ne   bool // a run known not to be empty
	byt  bool // a byte rather than a character
	used bool // the position after the byte has been used
}

type xKind int

const (
	xkTop xKind = iota
	xkInt
	xkRel  // pos(m) - pos(b)
	xkRune // the character at m
	xkStr  // text made of parts
	xkBool
	xkCond
	xkNil
	xkNonNil
	xkWriter
	xkBuf
	xkReader
	xkIter
	xkTuple
	xkAddr     // address of a variable (string key)
	xkElem     // address of an element of a text
	xkArr      // slice of a local array
	xkMap      // a package-level table
	xkRepl     // strings.Replacer
	xkSplit    // the pieces of the text from m, divided at the character s
	xkSplitLen // how many they are
	xkPiece    // the number of the piece at m (n: 0 the first); b: 1 the one after it
)

type xPart struct {
	k    byte // 'c' constant, 'i' input between a and b, 'n' number of the character at a in base b, 'r' the character at a
	s    string
	a, b int
}

type xv struct {
	k    xKind
	n    int64
	m, b int
	s    string
	p    []xPart
	l    []xv
	op   token.Token
	v    ssa.Value
}

func xInt(n int64) xv { return xv{k: xkInt, n: n} }
func xBool(t bool) xv {
	n := int64(0)
	if t {
		n = 1
	}
	return xv{k: xkBool, n: n}
}
func xConst(s string) xv { return xv{k: xkStr, p: []xPart{{k: 'c', s: s}}} }
func xIn(a, b int) xv    { return xv{k: xkStr, p: []xPart{{k: 'i', a: a, b: b}}} }
func xTuple(l ...xv) xv  { return xv{k: xkTuple, l: l} }

func (v xv) constant() (string, bool) {
	if v.k == xkNil {
		return "", true
	}
	if v.k != xkStr {
		return "", false
	}
	s := ""
	for _, p := range v.p {
		if p.k != 'c' {
			return "", false
		}
		s += p.s
	}
	return s, true
}

// input: the text is exactly a piece of the input.
func (v xv) input() (a, b int, ok bool) {
	if v.k == xkStr && len(v.p) == 1 && v.p[0].k == 'i' {
		return v.p[0].a, v.p[0].b, true
	}
	return 0, 0, false
}

type xFrame struct {
	fn    *ssa.Function
	b     *ssa.BasicBlock
	from  *ssa.BasicBlock
	i     int
	env   map[ssa.Value]xv
	call  *ssa.Call
	depth int
}

type xState struct {
	frames []*xFrame
	marks  []int
	segs   []xSeg
	rest   *Set
	empty  int // -1 unknown, 0 the rest is not empty, 1 it is
	alias  map[int]int
	next   int
	pos    int // what has been written reaches this position
	buf    int // 0 nothing buffered, 1 maybe, 2 written out but not reset
	mem    map[string]xv
	phase  int
	delim  string
	trace  []string
}

func (s *xState) clone() *xState {
	n := *s
	n.frames = nil
	for _, f := range s.frames {
		g := *f
		g.env = make(map[ssa.Value]xv, len(f.env))
		for k, v := range f.env {
			g.env[k] = v
		}
		n.frames = append(n.frames, &g)
	}
	n.marks = append([]int(nil), s.marks...)
	n.segs = append([]xSeg(nil), s.segs...)
	n.alias = map[int]int{}
	for k, v := range s.alias {
		n.alias[k] = v
	}
	n.mem = map[string]xv{}
	for k, v := range s.mem {
		n.mem[k] = v
	}
	n.trace = append([]string(nil), s.trace...)
	return &n
}

func (s *xState) top() *xFrame { return s.frames[len(s.frames)-1] }

func (s *xState) res(m int) int {
	for {
		n, ok := s.alias[m]
		if !ok {
			return m
		}
		m = n
	}
}

// at is the index of a mark in the order of marks.
func (s *xState) at(m int) int {
	m = s.res(m)
	if m == xEnd {
		if s.empty == 1 {
			return len(s.marks) - 1
		}
		return len(s.marks)
	}
	for i, x := range s.marks {
		if x == m {
			return i
		}
	}
	return -2
}

func (s *xState) same(a, b int) bool { return s.at(a) == s.at(b) && s.at(a) >= 0 }

// seg returns the segment starting at m.
func (s *xState) seg(m int) (*xSeg, bool) {
	i := s.at(m)
	if i < 0 || i >= len(s.segs) {
		return nil, false
	}
	return &s.segs[i], true
}

func (s *xState) markAfter(m int) int { return s.marks[s.at(m)+1] }

// insert splits at index i: a new segment before the present one.
func (s *xState) insert(i int, sg xSeg) int {
	m := s.next
	s.next++
	s.segs = append(s.segs, xSeg{})
	copy(s.segs[i+1:], s.segs[i:])
	s.segs[i] = sg
	s.marks = append(s.marks, 0)
	copy(s.marks[i+2:], s.marks[i+1:])
	s.marks[i+1] = m
	return m
}

// drop removes the (empty) segment i.
func (s *xState) drop(i int) {
	s.alias[s.marks[i+1]] = s.marks[i]
	s.segs = append(s.segs[:i:i], s.segs[i+1:]...)
	s.marks = append(s.marks[:i+1:i+1], s.marks[i+2:]...)
}

// char makes sure that the segment at m is one character; the states in which
// there is one, and those in which the text ends at m.
func (s *xState) char(m, e int) (has, none []*xState) {
	i := s.at(m)
	switch {
	case i >= 0 && i == s.at(e):
		return nil, []*xState{s}
	case i < 0:
		return nil, nil
	case i == len(s.segs): // the rest
		if s.empty != 1 {
			h := s.clone()
			h.insert(i, xSeg{cls: h.rest})
			h.empty = -1
			if !h.rest.Empty() {
				has = append(has, h)
			}
		}
		if s.empty != 0 {
			n := s.clone()
			n.empty = 1
			none = append(none, n)
		}
		return
	case !s.segs[i].run:
		return []*xState{s}, nil
	}
	h := s.clone()
	sg := h.segs[i]
	h.segs[i].ne = false
	h.insert(i, xSeg{cls: sg.cls, byt: sg.byt})
	has = append(has, h)
	if !sg.ne {
		n := s.clone()
		n.drop(i)
		a, b := n.char(n.marks[i], e)
		has = append(has, a...)
		none = append(none, b...)
	}
	return
}

// An xSpec judges what is written.
type xSpec interface {
	constant(s *xState, c string) string // constant text reaches the destination; "" or what is wrong
	raw(s *xState) *Set                  // characters that may be copied
	number(s *xState, sg xSeg) string
	finish(s *xState) string
}

type xRun struct {
	p       *Program
	spec    xSpec
	seen    map[string]bool
	errs    map[string]string // message -> position
	undec   map[string]string
	work    []*xState
	steps   int
	headers map[*ssa.BasicBlock]bool
	loops   map[*ssa.Function]bool
	dom     map[*ssa.BasicBlock]bool
	fns     map[*ssa.Function]bool
	paths   int
	emits   int
	seps    *Set
}

func newXRun(p *Program, spec xSpec) *xRun {
	return &xRun{p: p, spec: spec, seen: map[string]bool{}, errs: map[string]string{}, undec: map[string]string{},
		headers: map[*ssa.BasicBlock]bool{}, loops: map[*ssa.Function]bool{}, fns: map[*ssa.Function]bool{}}
}

func (x *xRun) prep(fn *ssa.Function) {
	if x.loops[fn] {
		return
	}
	x.loops[fn] = true
	x.fns[fn] = true
	for _, l := range naturalLoops(fn) {
		x.headers[l.head] = true
	}
}

// start runs fn with the given parameters on a text of which nothing is known.
func (x *xRun) start(fn *ssa.Function, args []xv) {
	s := &xState{marks: []int{1}, next: 2, rest: xAll, empty: -1, alias: map[int]int{}, pos: 1, mem: map[string]xv{}}
	f := &xFrame{fn: fn, b: fn.Blocks[0], env: map[ssa.Value]xv{}}
	for i, pa := range fn.Params {
		f.env[pa] = args[i]
	}
	x.prep(fn)
	s.frames = []*xFrame{f}
	x.work = append(x.work, s)
	for len(x.work) > 0 {
		s := x.work[len(x.work)-1]
		x.work = x.work[:len(x.work)-1]
		x.run(s)
		if x.steps > xLimit || len(x.errs) > 20 {
			x.undec["too many states"] = x.p.pos(fn.Pos())
			return
		}
	}
}

func (x *xRun) bad(s *xState, in ssa.Instruction, msg string) {
	if _, ok := x.errs[msg]; !ok {
		if os.Getenv("XDBG") != "" {
			fmt.Fprintln(os.Stderr, msg, s.key())
		}
		x.errs[msg] = x.p.instrPos(in)
	}
}

func (x *xRun) giveUp(s *xState, in ssa.Instruction, msg string) {
	if _, ok := x.undec[msg]; !ok {
		x.undec[msg] = x.p.instrPos(in)
	}
}

func (x *xRun) val(s *xState, v ssa.Value) xv {
	switch c := v.(type) {
	case *ssa.Const:
		if c.Value == nil {
			if _, ok := c.Type().Underlying().(*types.Basic); ok {
				return xConst("")
			}
			return xv{k: xkNil}
		}
		switch c.Value.Kind() {
		case constant.Int:
			n, _ := constant.Int64Val(c.Value)
			return xInt(n)
		case constant.Bool:
			return xBool(constant.BoolVal(c.Value))
		case constant.String:
			return xConst(constant.StringVal(c.Value))
		}
		return xv{}
	case *ssa.Global, *ssa.Function, *ssa.Builtin:
		return xv{k: xkAddr, s: "g:" + v.Name(), v: v}
	}
	if r, ok := s.top().env[v]; ok {
		return r
	}
	return xv{}
}

// run follows one path until it ends or its state has been seen.
func (x *xRun) run(s *xState) {
	for {
		f := s.top()
		if f.i >= len(f.b.Instrs) {
			return
		}
		in := f.b.Instrs[f.i]
		x.steps++
		if x.steps > xLimit {
			return
		}
		f.i++
		switch t := in.(type) {
		case *ssa.Jump:
			if !x.goTo(s, f.b.Succs[0]) {
				return
			}
		case *ssa.If:
			for _, n := range x.branch(s, t) {
				x.work = append(x.work, n)
			}
			return
		case *ssa.Return:
			var res []xv
			for _, r := range t.Results {
				res = append(res, x.val(s, r))
			}
			if len(s.frames) == 1 {
				x.paths++
				if len(res) > 0 && isErrorType(t.Results[len(res)-1].Type()) {
					switch res[len(res)-1].k {
					case xkNil:
					case xkNonNil:
						return // a refusal
					default:
						x.giveUp(s, in, "the error returned is unknown")
						return
					}
				}
				if s.buf == 1 {
					x.bad(s, in, "buffered output may never be written")
				}
				if m := x.spec.finish(s); m != "" {
					x.bad(s, in, m)
				}
				return
			}
			s.frames = s.frames[:len(s.frames)-1]
			var rv xv
			if len(res) == 1 {
				rv = res[0]
			} else {
				rv = xTuple(res...)
			}
			s.top().env[f.call] = rv
		case *ssa.Panic:
			return
		default:
			if !x.exec(s, in) {
				return
			}
		}
	}
}

// goTo passes control to a block; false if the state has been explored.
func (x *xRun) goTo(s *xState, b *ssa.BasicBlock) bool {
	f := s.top()
	from := f.b
	vals := map[ssa.Value]xv{}
	n := 0
	for _, in := range b.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		n++
		for i, p := range b.Preds {
			if p == from {
				vals[ph] = x.val(s, ph.Edges[i])
				break
			}
		}
	}
	for k, v := range vals {
		f.env[k] = v
	}
	f.from, f.b, f.i = from, b, n
	if !x.headers[b] {
		return true
	}
	x.canon(s)
	if len(s.segs) > 30 {
		x.undec["the text is divided into ever more pieces"] = x.p.pos(f.fn.Pos())
		return false
	}
	k := s.key()
	if os.Getenv("XDBG") == "2" {
		fmt.Fprintln(os.Stderr, "HDR", x.seen[k], k, s.marks)
	}
	if x.seen[k] {
		return false
	}
	x.seen[k] = true
	return true
}

// liveAt: v can still be used when control is at block b (before instruction i).
func liveAt(v ssa.Value, b *ssa.BasicBlock, i int, hdr bool) bool {
	if v.Referrers() == nil {
		return true
	}
	def, _ := v.(ssa.Instruction)
	if def != nil && hdr {
		if !def.Block().Dominates(b) {
			return false
		}
		if def.Block() == b {
			if _, ok := v.(*ssa.Phi); !ok {
				return false
			}
		}
	}
	for _, r := range *v.Referrers() {
		rb := r.Block()
		if rb == b || reaches(b, rb) {
			return true
		}
	}
	return false
}

var reachMemo = map[[2]*ssa.BasicBlock]bool{}

func reaches(a, b *ssa.BasicBlock) bool {
	k := [2]*ssa.BasicBlock{a, b}
	if r, ok := reachMemo[k]; ok {
		return r
	}
	seen := map[*ssa.BasicBlock]bool{}
	work := []*ssa.BasicBlock{a}
	res := false
	for len(work) > 0 && !res {
		c := work[0]
		work = work[1:]
		for _, t := range c.Succs {
			if t == b {
				res = true
			}
			if !seen[t] {
				seen[t] = true
				work = append(work, t)
			}
		}
	}
	reachMemo[k] = res
	return res
}

func (v xv) marks(f func(int)) {
	switch v.k {
	case xkRel:
		f(v.m)
		f(v.b)
	case xkReader, xkIter:
		f(v.m)
		f(v.b)
	case xkRune, xkElem, xkSplit, xkPiece:
		f(v.m)
	case xkStr:
		for _, p := range v.p {
			switch p.k {
			case 'i', 'm':
				f(p.a)
				f(p.b)
			case 'n', 'r':
				f(p.a)
			}
		}
	}
	for _, e := range v.l {
		e.marks(f)
	}
}

// canon forgets what nothing refers to.
func (x *xRun) canon(s *xState) {
	refs := map[int]bool{s.res(s.pos): true}
	add := func(m int) { refs[s.res(m)] = true }
	for fi, f := range s.frames {
		for v, a := range f.env {
			if _, isPar := v.(*ssa.Parameter); !isPar || v.Referrers() != nil {
				if !liveAt(v, f.b, f.i, fi == len(s.frames)-1) {
					delete(f.env, v)
					continue
				}
			}
			a.marks(add)
		}
	}
	s.sweep()
	for _, a := range s.mem {
		a.marks(add)
	}
	last := s.marks[len(s.marks)-1]
	_ = last
	at := s.at(s.pos)
	// boundaries nothing refers to
	for i := 0; i+1 < len(s.segs); {
		if refs[s.marks[i+1]] {
			i++
			continue
		}
		a, b := s.segs[i], s.segs[i+1]
		u := a.cls.Union(b.cls)
		rw := x.spec.raw(s)
		if i+2 <= at {
			u = x.widen(xAll, u)
		} else if u.SubsetOf(rw) {
			u = x.widen(rw, u)
		} else if !a.run && !a.cls.SubsetOf(rw) || !b.run && !b.cls.SubsetOf(rw) {
			// a character that has to be replaced
			i++
			continue
		}
		s.segs[i] = xSeg{cls: u, run: true, byt: a.byt || b.byt}
		s.segs = append(s.segs[:i+1:i+1], s.segs[i+2:]...)
		s.marks = append(s.marks[:i+1:i+1], s.marks[i+2:]...)
		at = s.at(s.pos)
	}
	for i := range s.segs {
		sg := &s.segs[i]
		single := !sg.run
		if single && i+1 > at {
			continue
		}
		if single && refs[s.marks[i]] {
			// keep what is known about a character that is still looked at
			keep := false
			for _, f := range s.frames {
				for _, a := range f.env {
					a.runes(func(m int) {
						if s.same(m, s.marks[i]) {
							keep = true
						}
					})
				}
			}
			if keep {
				continue
			}
		}
		if n := xAscii.Union(single1(invalidByte)); i+1 <= at && single && refs[s.marks[i]] && (sg.byt || sg.cls.SubsetOf(n)) && rangeByte(s, s.marks[i]) {
			// the distance to the next position is still of interest
			if sg.byt {
				n = xAll
			}
			sg.cls = x.widen(n, sg.cls)
		} else if i+1 <= at {
			*sg = xSeg{cls: x.widen(xAll, sg.cls), run: true, byt: sg.byt}
		} else if rw := x.spec.raw(s); sg.cls.SubsetOf(rw) {
			sg.cls = x.widen(rw, sg.cls)
			sg.run = true
			sg.ne = false
		}
	}
	// adjacent emitted parts may have become mergeable; the text before the
	// first reference is forgotten
	for len(s.segs) > 0 && !refs[s.marks[0]] {
		s.segs = s.segs[1:]
		s.marks = s.marks[1:]
	}
	// new names
	ren := map[int]int{xEnd: xEnd}
	for i, m := range s.marks {
		ren[m] = i + 1
	}
	mp := func(m int) int {
		r, ok := ren[s.res(m)]
		if !ok {
			return -9
		}
		return r
	}
	for _, f := range s.frames {
		for v, a := range f.env {
			f.env[v] = a.rename(mp)
		}
	}
	for k, a := range s.mem {
		s.mem[k] = a.rename(mp)
	}
	s.pos = mp(s.pos)
	for i := range s.marks {
		s.marks[i] = i + 1
	}
	s.alias = map[int]int{}
	s.next = len(s.marks) + 1
}

// rangeByte: the position m is that of the element before the next one of a
// loop over elements.
func rangeByte(s *xState, m int) bool {
	for _, f := range s.frames {
		for v, a := range f.env {
			ph, ok := v.(*ssa.Phi)
			if !ok || a.k != xkRel || !s.same(a.m, m) || ph.Block() != f.b || ph.Referrers() == nil {
				continue
			}
			for _, r := range *ph.Referrers() {
				if b, ok := r.(*ssa.BinOp); ok && b.Op == token.ADD && b.Block() == ph.Block() {
					return true
				}
			}
		}
	}
	return false
}

// sweep drops variables no value refers to.
func (s *xState) sweep() {
	var live []string
	var add func(v xv)
	add = func(v xv) {
		if v.s != "" {
			live = append(live, v.s)
		}
		for _, e := range v.l {
			add(e)
		}
	}
	for _, f := range s.frames {
		for _, a := range f.env {
			add(a)
		}
	}
	done := map[string]bool{}
	for i := 0; i < len(live); i++ {
		for k, v := range s.mem {
			if !done[k] && (k == live[i] || strings.HasPrefix(k, live[i]+"[") || strings.HasPrefix(k, live[i]+".")) {
				done[k] = true
				add(v)
			}
		}
	}
	for k := range s.mem {
		if !done[k] {
			delete(s.mem, k)
		}
	}
}

// widen forgets everything about a piece of text but the absence of characters
// the program searches for.
func (x *xRun) widen(w, u *Set) *Set {
	if x.seps == nil {
		return w
	}
	return w.Minus(x.seps.Minus(u))
}

func (v xv) runes(f func(int)) {
	if v.k == xkRune {
		f(v.m)
	}
	if v.k == xkStr {
		for _, p := range v.p {
			if p.k == 'n' || p.k == 'r' {
				f(p.a)
			}
		}
	}
	for _, e := range v.l {
		e.runes(f)
	}
}

func (v xv) rename(mp func(int) int) xv {
	switch v.k {
	case xkRel:
		v.m, v.b = mp(v.m), mp(v.b)
	case xkReader, xkIter:
		v.m, v.b = mp(v.m), mp(v.b)
	case xkRune, xkElem, xkSplit, xkPiece:
		v.m = mp(v.m)
	case xkStr:
		p := append([]xPart(nil), v.p...)
		for i := range p {
			switch p[i].k {
			case 'i', 'm':
				p[i].a, p[i].b = mp(p[i].a), mp(p[i].b)
			case 'n', 'r':
				p[i].a = mp(p[i].a)
			}
		}
		v.p = p
	}
	if len(v.l) > 0 {
		l := append([]xv(nil), v.l...)
		for i := range l {
			l[i] = l[i].rename(mp)
		}
		v.l = l
	}
	return v
}

func (v xv) str() string {
	var sb strings.Builder
	fmt.Fprintf(&sb, "%d/%d/%d/%d/%s", v.k, v.n, v.m, v.b, v.s)
	for _, p := range v.p {
		fmt.Fprintf(&sb, "{%c%s,%d,%d}", p.k, p.s, p.a, p.b)
	}
	if v.op != 0 {
		sb.WriteString(v.op.String())
	}
	for _, e := range v.l {
		sb.WriteString("(" + e.str() + ")")
	}
	return sb.String()
}

func (s *xState) key() string {
	var sb strings.Builder
	for _, f := range s.frames {
		fmt.Fprintf(&sb, "F%s.%d.%d[", f.fn.Name(), f.b.Index, f.i)
		var l []string
		for v, a := range f.env {
			l = append(l, v.Name()+"="+a.str())
		}
		sort.Strings(l)
		sb.WriteString(strings.Join(l, ";"))
	}
	for i, g := range s.segs {
		fmt.Fprintf(&sb, "S%d:%s,%v%v%v", s.marks[i], g.cls.key, g.run, g.ne, g.byt)
	}
	fmt.Fprintf(&sb, "|%s|%d|%d|%d|%d|%s", s.rest.key, s.empty, s.pos, s.buf, s.phase, s.delim)
	var l []string
	for k, v := range s.mem {
		l = append(l, k+"="+v.str())
	}
	sort.Strings(l)
	sb.WriteString(strings.Join(l, ";"))
	return sb.String()
}

// branch splits a state by the condition of an if.
func (x *xRun) branch(s *xState, t *ssa.If) []*xState {
	var res []*xState
	c := x.val(s, t.Cond)
	yes, no := x.decide(s, c, t)
	for _, n := range yes {
		if x.goTo(n, n.top().b.Succs[0]) {
			res = append(res, n)
		}
	}
	for _, n := range no {
		if x.goTo(n, n.top().b.Succs[1]) {
			res = append(res, n)
		}
	}
	return res
}

// decide splits a state by a condition.
func (x *xRun) decide(s *xState, c xv, in ssa.Instruction) (yes, no []*xState) {
	switch c.k {
	case xkBool:
		if c.n != 0 {
			return []*xState{s}, nil
		}
		return nil, []*xState{s}
	case xkCond:
		if c.op == token.NOT {
			a, b := x.decide(s, c.l[0], in)
			return b, a
		}
		return x.compare(s, c.op, c.l[0], c.l[1], in)
	}
	x.giveUp(s, in, "a condition that is not understood")
	return nil, nil
}

func xCmpInt(op token.Token, a, b int64) bool {
	switch op {
	case token.EQL:
		return a == b
	case token.NEQ:
		return a != b
	case token.LSS:
		return a < b
	case token.LEQ:
		return a <= b
	case token.GTR:
		return a > b
	case token.GEQ:
		return a >= b
	}
	return false
}

func xFlip(op token.Token) token.Token {
	switch op {
	case token.LSS:
		return token.GTR
	case token.LEQ:
		return token.GEQ
	case token.GTR:
		return token.LSS
	case token.GEQ:
		return token.LEQ
	}
	return op
}

func pick(t bool, s *xState) (yes, no []*xState) {
	if t {
		return []*xState{s}, nil
	}
	return nil, []*xState{s}
}

// cmpSet is the set of values v with v op c.
func cmpSet(op token.Token, c int64) *Set {
	switch op {
	case token.EQL:
		return single(c)
	case token.NEQ:
		return single(c).Compl()
	case token.LSS:
		return interval(minI, c-1)
	case token.LEQ:
		return interval(minI, c)
	case token.GTR:
		return interval(c+1, maxI)
	}
	return interval(c, maxI)
}

// runeSet translates a set of values of a variable to characters: a byte that
// is not valid is decoded as U+FFFD.
func runeSet(v *Set) *Set {
	r := v.Inter(interval(0, 0x10ffff))
	if v.Has(0xfffd) {
		r = r.Union(single(invalidByte))
	}
	return r
}

// split divides a state by the character at m being in c.
func (x *xRun) split(s *xState, m int, c *Set) (yes, no []*xState) {
	sg, ok := s.seg(m)
	if !ok || sg.run {
		return nil, nil
	}
	in, out := sg.cls.Inter(c), sg.cls.Minus(c)
	if out.Empty() {
		return []*xState{s}, nil
	}
	if in.Empty() {
		return nil, []*xState{s}
	}
	a, b := s.clone(), s
	sa, _ := a.seg(m)
	sa.cls = in
	sb, _ := b.seg(m)
	sb.cls = out
	return []*xState{a}, []*xState{b}
}

func (x *xRun) compare(s *xState, op token.Token, a, b xv, in ssa.Instruction) (yes, no []*xState) {
	if a.k == xkInt && b.k != xkInt {
		a, b = b, a
		op = xFlip(op)
	}
	if a.k == xkSplitLen {
		a, b = b, a
		op = xFlip(op)
	}
	switch {
	case b.k == xkSplitLen && a.k == xkInt && op == token.LSS && a.n <= 0:
		return []*xState{s}, nil // there is always a piece
	case b.k == xkSplitLen && a.k == xkPiece && op == token.LSS:
		if a.b == 0 {
			return []*xState{s}, nil
		}
		for _, r := range x.find(s, a.m, xEnd, charSet(b.s)) {
			if r.at == 0 {
				no = append(no, r.s)
				continue
			}
			nx := xv{k: xkPiece, m: r.s.markAfter(r.at), n: 1}
			for v, e := range r.s.top().env {
				if e.k == xkPiece && e.b == 1 {
					r.s.top().env[v] = nx
				}
			}
			yes = append(yes, r.s)
		}
		return
	case a.k == xkPiece && b.k == xkInt && a.b == 0 && b.n == 0:
		return pick(xCmpInt(op, a.n, 0), s)
	case a.k == xkInt && b.k == xkInt:
		return pick(xCmpInt(op, a.n, b.n), s)
	case a.k == xkBool && b.k == xkBool:
		return pick((a.n == b.n) == (op == token.EQL), s)
	case a.k == xkRune && b.k == xkInt:
		sg, ok := s.seg(a.m)
		if !ok || sg.run {
			break
		}
		vs := cmpSet(op, b.n)
		if sg.byt {
			// a byte above 0x7f may be any
			hi := sg.cls.Minus(xAscii)
			if !hi.Empty() {
				hv := interval(0x80, 0xff)
				if in := hv.Inter(vs); !in.Empty() && !hv.Minus(vs).Empty() {
					// it may go either way
					c := s.clone()
					y, n := x.split(s, a.m, runeSet(vs).Union(interval(0x80, invalidByte)))
					y2, n2 := x.split(c, a.m, runeSet(vs).Minus(interval(0x80, invalidByte)))
					_ = n
					_ = y2
					return y, n2
				} else if in.Empty() {
					return x.split(s, a.m, runeSet(vs).Minus(interval(0x80, invalidByte)))
				} else {
					return x.split(s, a.m, runeSet(vs).Union(interval(0x80, invalidByte)))
				}
			}
		}
		return x.split(s, a.m, runeSet(vs))
	case a.k == xkRel:
		if b.k == xkInt {
			return x.cmpRel(s, op, a, b.n, in)
		}
		if b.k == xkRel && s.same(a.b, b.b) {
			return x.cmpPos(s, op, a.m, b.m, in)
		}
		if b.k == xkRel && s.same(a.m, b.m) {
			return x.cmpPos(s, xFlip(op), a.b, b.b, in)
		}
	case a.k == xkStr || b.k == xkStr:
		ca, ok1 := a.constant()
		cb, ok2 := b.constant()
		if a.k == xkNil || b.k == xkNil {
			// a nil slice against a slice: only texts that are written in the
			// program are known not to be nil
			other := a
			if a.k == xkNil {
				other = b
			}
			if other.k == xkStr {
				return pick((other.s == "nil") == (op == token.EQL), s)
			}
		}
		if ok1 && ok2 {
			return pick(cmpStr(op, ca, cb), s)
		}
		if ok2 && cb == "" || ok1 && ca == "" {
			v := a
			if ok1 && ca == "" {
				v = b
			}
			if p, q, ok := v.input(); ok {
				o := token.EQL
				if op == token.NEQ {
					o = token.NEQ
				}
				return x.cmpPos(s, o, p, q, in)
			}
		}
	case a.k == xkNil && b.k == xkNil:
		return pick(op == token.EQL, s)
	case a.k == xkNil || b.k == xkNil:
		o := a
		if a.k == xkNil {
			o = b
		}
		switch o.k {
		case xkWriter, xkBuf, xkReader, xkNonNil, xkMap, xkAddr:
			return pick(op == token.NEQ, s)
		}
	}
	x.giveUp(s, in, "a comparison that is not understood")
	return nil, nil
}

func cmpStr(op token.Token, a, b string) bool {
	switch op {
	case token.EQL:
		return a == b
	case token.NEQ:
		return a != b
	case token.LSS:
		return a < b
	case token.LEQ:
		return a <= b
	case token.GTR:
		return a > b
	}
	return a >= b
}

// cmpPos compares two positions.
func (x *xRun) cmpPos(s *xState, op token.Token, m, n int, in ssa.Instruction) (yes, no []*xState) {
	i, j := s.at(m), s.at(n)
	if i < 0 || j < 0 {
		x.giveUp(s, in, "a position that is not known")
		return nil, nil
	}
	if i > j {
		m, n, i, j = n, m, j, i
		op = xFlip(op)
	}
	if i == j {
		return pick(xCmpInt(op, 0, 0), s)
	}
	sure := -1
	for k := i; k < j; k++ {
		if k == len(s.segs) {
			if s.empty == 0 {
				sure = 1
			}
			break
		}
		if !s.segs[k].run || s.segs[k].ne {
			sure = 1
		}
	}
	if sure == 1 {
		return pick(xCmpInt(op, 0, 1), s)
	}
	// both: every segment between them is empty, or some is not
	e := s.clone()
	for k := min(j, len(e.segs)) - 1; k >= i; k-- {
		e.drop(k)
	}
	if j > len(s.segs) {
		e.empty = 1
	}
	y, nn := pick(xCmpInt(op, 0, 0), e)
	yes, no = append(yes, y...), append(no, nn...)
	for k := i; k < j; k++ {
		q := s.clone()
		if k == len(s.segs) {
			if s.empty == 1 {
				continue
			}
			q.empty = 0
		} else {
			q.segs[k].ne = true
		}
		y, nn := pick(xCmpInt(op, 0, 1), q)
		yes, no = append(yes, y...), append(no, nn...)
	}
	return
}

// cmpRel compares a distance with a number.
func (x *xRun) cmpRel(s *xState, op token.Token, a xv, n int64, in ssa.Instruction) (yes, no []*xState) {
	i, j := s.at(a.b), s.at(a.m)
	if i < 0 || j < 0 || i > j {
		x.giveUp(s, in, "a distance that is not known")
		return nil, nil
	}
	if n < 0 {
		return pick(xCmpInt(op, 0, n), s)
	}
	if n == 0 {
		return x.cmpPos(s, op, a.m, a.b, in)
	}
	switch op {
	case token.LSS:
		if n == 1 {
			return x.cmpPos(s, token.EQL, a.m, a.b, in)
		}
	case token.GEQ:
		if n == 1 {
			return x.cmpPos(s, token.NEQ, a.m, a.b, in)
		}
	}
	if j == i+1 && i < len(s.segs) && !s.segs[i].run {
		// the width of one character
		if s.segs[i].byt {
			return pick(xCmpInt(op, 1, n), s)
		}
		w := emptySet
		for wd, c := range map[int64]*Set{1: xAscii.Union(single(invalidByte)), 2: interval(0x80, 0x7ff),
			3: interval(0x800, 0xffff), 4: interval(0x10000, 0x10ffff)} {
			if xCmpInt(op, wd, n) {
				w = w.Union(c)
			}
		}
		return x.split(s, a.b, w)
	}
	x.giveUp(s, in, "a distance compared with a number")
	return nil, nil
}

// rel is the position that lies n (a value) after base.
func (x *xRun) resolve(s *xState, base int, n xv) (int, bool) {
	switch n.k {
	case xkInt:
		m := s.res(base)
		for k := int64(0); k < n.n; k++ {
			sg, ok := s.seg(m)
			if !ok || sg.run || !(sg.byt || sg.cls.SubsetOf(xAscii.Union(single(invalidByte)))) {
				return 0, false
			}
			if sg.byt {
				sg.used = true
			}
			m = s.markAfter(m)
		}
		return m, n.n >= 0
	case xkRel:
		if s.same(n.b, base) {
			return n.m, true
		}
	}
	return 0, false
}

func (x *xRun) add(s *xState, a, b xv, neg bool) xv {
	if a.k == xkInt && b.k == xkInt {
		if neg {
			return xInt(a.n - b.n)
		}
		return xInt(a.n + b.n)
	}
	if neg {
		switch {
		case b.k == xkInt && b.n == 0:
			return a
		case a.k == xkRel && b.k == xkRel && s.same(a.m, b.m):
			return xv{k: xkRel, m: b.b, b: a.b}
		case a.k == xkRel && b.k == xkRel && s.same(a.b, b.b):
			return xv{k: xkRel, m: a.m, b: b.m}
		case a.k == xkRel && b.k == xkInt && b.n > 0:
			m := a.m
			for k := int64(0); k < b.n; k++ {
				i := s.at(m)
				if i < 1 || i > len(s.segs) {
					return xv{}
				}
				sg := s.segs[i-1]
				if sg.run || !(sg.byt || sg.cls.SubsetOf(xAscii.Union(single(invalidByte)))) {
					return xv{}
				}
				m = s.marks[i-1]
			}
			return xv{k: xkRel, m: m, b: a.b}
		}
		return xv{}
	}
	if a.k == xkInt {
		a, b = b, a
	}
	switch {
	case a.k == xkPiece && a.b == 0 && b.k == xkInt && b.n == 1:
		a.b = 1
		return a
	case a.k == xkRel && b.k == xkInt:
		if b.n == 0 {
			return a
		}
		if b.n < 0 {
			return x.add(s, a, xInt(-b.n), true)
		}
		if m, ok := x.resolve(s, a.m, b); ok {
			return xv{k: xkRel, m: m, b: a.b}
		}
	case a.k == xkRel && b.k == xkRel:
		if s.same(a.m, b.b) {
			return xv{k: xkRel, m: b.m, b: a.b}
		}
		if s.same(b.m, a.b) {
			return xv{k: xkRel, m: a.m, b: b.b}
		}
	}
	return xv{}
}

// exec executes one instruction; false ends the path.
func (x *xRun) exec(s *xState, in ssa.Instruction) bool {
	f := s.top()
	set := func(v xv) bool {
		if vv, ok := in.(ssa.Value); ok {
			f.env[vv] = v
		}
		return true
	}
	switch t := in.(type) {
	case *ssa.DebugRef, *ssa.RunDefers:
		return true
	case *ssa.Phi:
		return true
	case *ssa.Alloc:
		el := t.Type().(*types.Pointer).Elem()
		key := fmt.Sprintf("a:%d:%s", len(s.frames), t.Name())
		if infallible(el) {
			return set(xv{k: xkBuf, s: key})
		}
		s.mem[key] = x.zero(el)
		for k := range s.mem {
			if strings.HasPrefix(k, key+"[") {
				delete(s.mem, k)
			}
		}
		return set(xv{k: xkAddr, s: key})
	case *ssa.Store:
		a := x.val(s, t.Addr)
		switch {
		case a.k == xkAddr && a.v == nil:
			s.mem[a.s] = x.val(s, t.Val)
		case a.k == xkBuf:
		default:
			x.giveUp(s, in, "a store that is not understood")
			return false
		}
		return true
	case *ssa.UnOp:
		v := x.val(s, t.X)
		switch t.Op {
		case token.NOT:
			if v.k == xkBool {
				return set(xBool(v.n == 0))
			}
			return set(xv{k: xkCond, op: token.NOT, l: []xv{v}})
		case token.SUB:
			if v.k == xkInt {
				return set(xInt(-v.n))
			}
		case token.MUL:
			switch {
			case v.k == xkAddr && v.v != nil:
				if g, ok := v.v.(*ssa.Global); ok {
					return set(x.global(g))
				}
			case v.k == xkAddr:
				return set(s.mem[v.s])
			case v.k == xkElem && v.s == "":
				if has, none := s.char(v.m, xEnd); len(none) == 0 && len(has) == 1 {
					*s = *has[0]
					return x.byteAt(s, t, v.m)
				}
				x.giveUp(s, in, "an element that may not exist")
				return false
			case v.k == xkElem:
				return set(xInt(v.n))
			}
		}
		return set(xv{})
	case *ssa.BinOp:
		a, b := x.val(s, t.X), x.val(s, t.Y)
		switch t.Op {
		case token.ADD, token.SUB:
			if a.k == xkStr && b.k == xkStr {
				return set(xv{k: xkStr, p: append(append([]xPart(nil), a.p...), b.p...)})
			}
			return set(x.add(s, a, b, t.Op == token.SUB))
		case token.EQL, token.NEQ, token.LSS, token.LEQ, token.GTR, token.GEQ:
			return set(xv{k: xkCond, op: t.Op, l: []xv{a, b}})
		}
		return set(xv{})
	case *ssa.Convert:
		v := x.val(s, t.X)
		switch u := t.Type().Underlying().(type) {
		case *types.Basic:
			if u.Info()&types.IsString != 0 {
				if v.k == xkRune {
					return set(xv{k: xkStr, p: []xPart{{k: 'r', a: v.m}}})
				}
				if v.k == xkInt {
					return set(xConst(string(rune(v.n))))
				}
				if v.k == xkNil {
					return set(xConst(""))
				}
				return set(v)
			}
			if u.Info()&types.IsInteger != 0 {
				if v.k == xkRune && (u.Kind() == types.Uint8 || u.Kind() == types.Int8) {
					if sg, ok := s.seg(v.m); ok && (sg.byt || sg.cls.SubsetOf(xAscii)) {
						return set(v)
					}
					return set(xv{})
				}
				return set(v)
			}
		case *types.Slice:
			if v.k == xkStr {
				return set(v)
			}
		}
		return set(xv{})
	case *ssa.ChangeType:
		return set(x.val(s, t.X))
	case *ssa.ChangeInterface:
		return set(x.val(s, t.X))
	case *ssa.MakeInterface:
		v := x.val(s, t.X)
		if isErrorType(t.Type()) {
			v = xv{k: xkNonNil}
		}
		return set(v)
	case *ssa.TypeAssert:
		return set(xv{})
	case *ssa.Extract:
		v := x.val(s, t.Tuple)
		if v.k == xkTuple && t.Index < len(v.l) {
			return set(v.l[t.Index])
		}
		return set(xv{})
	case *ssa.Slice:
		return x.slice(s, t)
	case *ssa.IndexAddr:
		return x.indexAddr(s, t)
	case *ssa.Index:
		return x.index(s, t, t.X, t.Index)
	case *ssa.Lookup:
		if _, ok := t.X.Type().Underlying().(*types.Map); ok {
			return x.mapLookup(s, t)
		}
		return x.index(s, t, t.X, t.Index)
	case *ssa.FieldAddr:
		a := x.val(s, t.X)
		if a.k == xkAddr && a.v == nil {
			return set(xv{k: xkAddr, s: a.s + "." + itoa(t.Field)})
		}
		return set(xv{})
	case *ssa.Range:
		v := x.val(s, t.X)
		if a, b, ok := v.input(); ok {
			k := fmt.Sprintf("it:%d:%s", len(s.frames), t.Name())
			s.mem[k] = xv{k: xkIter, m: a, b: b}
			return set(xv{k: xkAddr, s: k, l: []xv{{k: xkRel, m: a, b: a}}})
		}
		x.giveUp(s, in, "a range that is not understood")
		return false
	case *ssa.Next:
		it := x.val(s, t.Iter)
		cur, ok := s.mem[it.s]
		if !ok || cur.k != xkIter || len(it.l) == 0 {
			x.giveUp(s, in, "an iteration that is not understood")
			return false
		}
		has, none := s.char(cur.m, cur.b)
		for _, n := range none {
			n.top().env[t] = xTuple(xBool(false), xv{}, xv{})
			x.work = append(x.work, n)
		}
		for _, h := range has {
			m := h.res(cur.m)
			h.mem[it.s] = xv{k: xkIter, m: h.markAfter(m), b: cur.b}
			h.top().env[t] = xTuple(xBool(true), xv{k: xkRel, m: m, b: it.l[0].b}, xv{k: xkRune, m: m})
			x.work = append(x.work, h)
		}
		return false
	case *ssa.Call:
		return x.call(s, t)
	case *ssa.MakeSlice, *ssa.MakeMap, *ssa.MakeClosure, *ssa.Field, *ssa.SliceToArrayPointer, *ssa.MakeChan:
		return set(xv{})
	}
	x.giveUp(s, in, fmt.Sprintf("an instruction that is not understood (%T)", in))
	return false
}

func (x *xRun) zero(t types.Type) xv {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsString != 0:
			return xConst("")
		case u.Info()&types.IsInteger != 0:
			return xInt(0)
		case u.Info()&types.IsBoolean != 0:
			return xBool(false)
		}
	case *types.Slice, *types.Pointer, *types.Interface, *types.Map:
		return xv{k: xkNil}
	}
	return xv{}
}

func (x *xRun) global(g *ssa.Global) xv {
	if c, ok := x.p.globalBytes(g); ok {
		return xConst(c)
	}
	el := g.Type().(*types.Pointer).Elem()
	if _, ok := el.Underlying().(*types.Map); ok {
		return xv{k: xkMap, s: g.Name(), v: g}
	}
	if isErrorType(el) {
		return xv{k: xkNonNil}
	}
	if typeIs(el, "strings", "Replacer") {
		return xv{k: xkRepl, v: g}
	}
	return xv{}
}

// byteAt reads the byte at m as the value of in.
func (x *xRun) byteAt(s *xState, in ssa.Value, m int) bool {
	sg, _ := s.seg(m)
	if !sg.cls.SubsetOf(xAscii) {
		if sg.cls.Inter(xAscii).Empty() {
			sg.byt = true
		} else {
			a, b := x.split(s, m, xAscii)
			for _, n := range append(a, b...) {
				g, _ := n.seg(m)
				if !g.cls.SubsetOf(xAscii) {
					g.byt = true
					g.cls = interval(0x80, invalidByte)
				}
				n.top().env[in] = xv{k: xkRune, m: n.res(m)}
				x.work = append(x.work, n)
			}
			return false
		}
	}
	s.top().env[in] = xv{k: xkRune, m: s.res(m)}
	return true
}

// index reads one byte of a text.
func (x *xRun) index(s *xState, in ssa.Value, tx, ix ssa.Value) bool {
	v, i := x.val(s, tx), x.val(s, ix)
	if c, ok := v.constant(); ok {
		if i.k == xkInt && i.n >= 0 && i.n < int64(len(c)) {
			s.top().env[in] = xInt(int64(c[i.n]))
			return true
		}
	}
	if a, b, ok := v.input(); ok {
		if m, ok := x.resolve(s, a, i); ok {
			if _, isC := ix.(*ssa.Const); !isC {
				s.top().env[ix] = xv{k: xkRel, m: m, b: a}
			}
			has, none := s.char(m, b)
			if len(none) > 0 {
				x.giveUp(s, in.(ssa.Instruction), "an element that may not exist")
				return false
			}
			for _, h := range has {
				if x.byteAt(h, in, h.res(m)) {
					x.work = append(x.work, h)
				}
			}
			return false
		}
	}
	x.giveUp(s, in.(ssa.Instruction), "an index that is not understood")
	return false
}

func (x *xRun) indexAddr(s *xState, t *ssa.IndexAddr) bool {
	v := x.val(s, t.X)
	i := x.val(s, t.Index)
	f := s.top()
	if v.k == xkAddr && v.v == nil && i.k == xkInt {
		f.env[t] = xv{k: xkAddr, s: v.s + "[" + strconv.FormatInt(i.n, 10) + "]"}
		return true
	}
	if v.k == xkSplit && (i.k == xkPiece && i.b == 0 || i.k == xkInt && i.n == 0) {
		m := v.m
		if i.k == xkPiece {
			m = i.m
		} else if _, isC := t.Index.(*ssa.Const); !isC {
			f.env[t.Index] = xv{k: xkPiece, m: m}
		}
		for _, r := range x.find(s, m, xEnd, charSet(v.s)) {
			e := r.at
			if e == 0 {
				e = xEnd
			}
			k := fmt.Sprintf("pc:%d:%s", len(s.frames), t.Name())
			r.s.mem[k] = xIn(r.s.res(m), e)
			r.s.top().env[t] = xv{k: xkAddr, s: k}
			x.work = append(x.work, r.s)
		}
		return false
	}
	if v.k == xkArr && i.k == xkInt {
		f.env[t] = xv{k: xkAddr, s: v.s + "[" + strconv.FormatInt(i.n, 10) + "]"}
		return true
	}
	if c, ok := v.constant(); ok && v.k == xkStr {
		if i.k == xkInt && i.n >= 0 && i.n < int64(len(c)) {
			f.env[t] = xv{k: xkElem, s: "c", n: int64(c[i.n])}
			return true
		}
	}
	if a, b, ok := v.input(); ok {
		if m, ok := x.resolve(s, a, i); ok {
			if _, isC := t.Index.(*ssa.Const); !isC {
				f.env[t.Index] = xv{k: xkRel, m: m, b: a}
			}
			has, none := s.char(m, b)
			if len(none) > 0 {
				x.giveUp(s, t, "an element that may not exist")
				return false
			}
			for _, h := range has {
				h.top().env[t] = xv{k: xkElem, m: h.res(m)}
				x.work = append(x.work, h)
			}
			return false
		}
	}
	x.giveUp(s, t, "an index that is not understood")
	return false
}

func (x *xRun) slice(s *xState, t *ssa.Slice) bool {
	f := s.top()
	v := x.val(s, t.X)
	if v.k == xkAddr && v.v == nil && t.Low == nil && t.High == nil {
		if at, ok := t.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array); ok {
			if bt, ok := at.Elem().Underlying().(*types.Basic); ok && bt.Kind() == types.Uint8 {
				// bytes written one by one
				var parts []xPart
				for i := int64(0); i < at.Len(); i++ {
					e, ok := s.mem[v.s+"["+strconv.FormatInt(i, 10)+"]"]
					switch {
					case ok && e.k == xkInt:
						parts = append(parts, xPart{k: 'c', s: string([]byte{byte(e.n)})})
					case ok && e.k == xkRune:
						parts = append(parts, xPart{k: 'r', a: e.m})
					default:
						parts = nil
						i = at.Len()
					}
				}
				if parts != nil {
					f.env[t] = xv{k: xkStr, p: parts}
					return true
				}
			}
			f.env[t] = xv{k: xkArr, s: v.s, n: at.Len()}
			return true
		}
	}
	if c, ok := v.constant(); ok && v.k == xkStr {
		lo, hi := int64(0), int64(len(c))
		if t.Low != nil {
			l := x.val(s, t.Low)
			if l.k != xkInt {
				x.giveUp(s, t, "a slice that is not understood")
				return false
			}
			lo = l.n
		}
		if t.High != nil {
			h := x.val(s, t.High)
			if h.k != xkInt {
				x.giveUp(s, t, "a slice that is not understood")
				return false
			}
			hi = h.n
		}
		if lo < 0 || hi > int64(len(c)) || lo > hi {
			x.bad(s, t, "slice of a constant out of range")
			return false
		}
		f.env[t] = xConst(c[lo:hi])
		return true
	}
	a, b, ok := v.input()
	if !ok {
		x.giveUp(s, t, "a slice that is not understood")
		return false
	}
	lo, hi := a, b
	if t.Low != nil {
		if lo, ok = x.resolve(s, a, x.val(s, t.Low)); !ok {
			x.giveUp(s, t, "a slice whose start is not understood")
			return false
		}
	}
	if t.High != nil {
		if hi, ok = x.resolve(s, a, x.val(s, t.High)); !ok {
			x.giveUp(s, t, "a slice whose end is not understood")
			return false
		}
	}
	f.env[t] = xIn(lo, hi)
	return true
}

// mapLookup splits a state by the entries of a constant table.
func (x *xRun) mapLookup(s *xState, t *ssa.Lookup) bool {
	mv, k := x.val(s, t.X), x.val(s, t.Index)
	tab, ok := map[int64]string(nil), false
	if g, isG := mv.v.(*ssa.Global); isG && mv.k == xkMap {
		tab, ok = x.p.globalTable(g)
	}
	if !ok || k.k != xkRune {
		x.giveUp(s, t, "a lookup that is not understood")
		return false
	}
	rest := s
	for _, key := range sortedInts(tab) {
		y, n := x.split(rest, k.m, runeSet(single(key)))
		for _, h := range y {
			v := xConst(tab[key])
			if t.CommaOk {
				v = xTuple(v, xBool(true))
			}
			h.top().env[t] = v
			x.work = append(x.work, h)
		}
		if len(n) == 0 {
			return false
		}
		rest = n[0]
	}
	v := x.zero(t.X.Type().Underlying().(*types.Map).Elem())
	if t.CommaOk {
		v = xTuple(v, xBool(false))
	}
	rest.top().env[t] = v
	x.work = append(x.work, rest)
	return false
}

func sortedInts(m map[int64]string) []int64 {
	var l []int64
	for k := range m {
		l = append(l, k)
	}
	sort.Slice(l, func(i, j int) bool { return l[i] < l[j] })
	return l
}

// globalTable: the entries of a package-level map from a number to text that
// is filled by its initialiser and never changed.
func (p *Program) globalTable(g *ssa.Global) (map[int64]string, bool) {
	var mk *ssa.MakeMap
	for _, fn := range p.allFuncsWithInit() {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				switch t := in.(type) {
				case *ssa.Store:
					if t.Addr == g {
						m, ok := t.Val.(*ssa.MakeMap)
						if !ok || mk != nil {
							return nil, false
						}
						mk = m
					}
				case *ssa.MapUpdate:
					if u, ok := t.Map.(*ssa.UnOp); ok && u.X == g {
						return nil, false
					}
				}
			}
		}
	}
	if mk == nil {
		return nil, false
	}
	res := map[int64]string{}
	for _, r := range *mk.Referrers() {
		mu, ok := r.(*ssa.MapUpdate)
		if !ok {
			continue
		}
		k, ok := mu.Key.(*ssa.Const)
		if !ok || k.Value == nil || k.Value.Kind() != constant.Int {
			return nil, false
		}
		v, ok := constBytesOf(mu.Value)
		if !ok {
			return nil, false
		}
		res[cint(k)] = v
	}
	return res, true
}

func (x *xRun) call(s *xState, t *ssa.Call) bool {
	f := s.top()
	cc := &t.Call
	set := func(v xv) bool { f.env[t] = v; return true }
	wres := xTuple(xv{}, xv{k: xkNil}) // n, nil
	if cc.IsInvoke() {
		recv := x.val(s, cc.Value)
		if recv.k == xkWriter || recv.k == xkBuf {
			switch cc.Method.Name() {
			case "Write", "WriteString":
				if !x.emit(s, t, recv, x.val(s, cc.Args[0])) {
					return false
				}
				return set(wres)
			}
		}
		x.giveUp(s, t, "a call that is not understood: "+cc.Method.Name())
		return false
	}
	var args []xv
	for _, a := range cc.Args {
		args = append(args, x.val(s, a))
	}
	if b, ok := cc.Value.(*ssa.Builtin); ok {
		switch b.Name() {
		case "len":
			if args[0].k == xkArr {
				return set(xInt(args[0].n))
			}
			if args[0].k == xkSplit {
				v := args[0]
				v.k = xkSplitLen
				return set(v)
			}
			if c, ok := args[0].constant(); ok {
				return set(xInt(int64(len(c))))
			}
			if p, q, ok := args[0].input(); ok {
				return set(xv{k: xkRel, m: q, b: p})
			}
		case "append":
			if len(args) == 2 {
				a, b := args[0], args[1]
				if a.k == xkNil {
					a = xConst("")
				}
				if a.k == xkStr && b.k == xkStr {
					return set(xv{k: xkStr, p: append(append([]xPart(nil), a.p...), b.p...)})
				}
			}
		case "min", "max", "cap", "copy":
		}
		return set(xv{})
	}
	fn := cc.StaticCallee()
	if fn == nil {
		x.giveUp(s, t, "an indirect call")
		return false
	}
	if x.p.inModule(fn) && len(fn.Blocks) > 0 {
		if len(s.frames) > 8 {
			x.giveUp(s, t, "calls nested too deeply")
			return false
		}
		x.prep(fn)
		nf := &xFrame{fn: fn, b: fn.Blocks[0], env: map[ssa.Value]xv{}, call: t}
		for i, pa := range fn.Params {
			nf.env[pa] = args[i]
		}
		for i := range fn.FreeVars {
			nf.env[fn.FreeVars[i]] = xv{}
		}
		s.frames = append(s.frames, nf)
		return true
	}
	name := fn.Name()
	pkg := ""
	if fn.Pkg != nil {
		pkg = fn.Pkg.Pkg.Path()
	}
	recvT := ""
	if r := fn.Signature.Recv(); r != nil {
		if n := namedOf(r.Type()); n != nil {
			recvT = n.Obj().Name()
		}
	}
	switch pkg + "." + recvT + "." + name {
	case "unicode/utf8..DecodeRune", "unicode/utf8..DecodeRuneInString":
		a, b, ok := args[0].input()
		if !ok {
			break
		}
		has, none := s.char(a, b)
		for _, n := range none {
			// U+FFFD of width 0
			m := n.res(a)
			n.top().env[t] = xTuple(xInt(0xfffd), xv{k: xkRel, m: m, b: m})
			x.work = append(x.work, n)
		}
		for _, h := range has {
			m := h.res(a)
			if sg, _ := h.seg(m); sg.byt {
				if sg.used {
					x.giveUp(h, t, "a byte that has been skipped is decoded")
					return false
				}
				sg.byt = false // the first byte of the character
			}
			h.top().env[t] = xTuple(xv{k: xkRune, m: m}, xv{k: xkRel, m: h.markAfter(m), b: m})
			x.work = append(x.work, h)
		}
		return false
	case "unicode/utf8..RuneLen":
		if args[0].k == xkRune {
			if sg, ok := s.seg(args[0].m); ok && !sg.cls.Has(invalidByte) && !sg.cls.Has(0xfffd) {
				return set(xv{k: xkRel, m: s.markAfter(args[0].m), b: args[0].m})
			}
		}
	case "io..WriteString", "fmt..Fprint":
		if args[0].k == xkWriter || args[0].k == xkBuf {
			v := args[1]
			if name == "Fprint" {
				v = x.sprint(s, args[1])
			}
			if !x.emit(s, t, args[0], v) {
				return false
			}
			return set(wres)
		}
	case "fmt..Fprintf":
		if args[0].k == xkWriter || args[0].k == xkBuf {
			if !x.emit(s, t, args[0], x.sprintf(s, args[1], args[2])) {
				return false
			}
			return set(wres)
		}
	case "fmt..Sprintf":
		return set(x.sprintf(s, args[0], args[1]))
	case "strconv..Itoa":
		if args[0].k == xkRune {
			return set(xv{k: xkStr, p: []xPart{{k: 'n', a: args[0].m, b: 10}}})
		}
	case "strconv..FormatInt", "strconv..FormatUint":
		if args[0].k == xkRune && args[1].k == xkInt {
			return set(xv{k: xkStr, p: []xPart{{k: 'n', a: args[0].m, b: int(args[1].n)}}})
		}
	case "strings..ToUpper", "bytes..ToUpper":
		if args[0].k == xkStr && len(args[0].p) == 1 && args[0].p[0].k == 'n' {
			return set(args[0])
		}
	case "strings..IndexByte", "strings..IndexRune", "strings..IndexAny", "strings..Index", "bytes..IndexByte", "bytes..IndexRune", "bytes..IndexAny",
		"strings..Contains", "strings..ContainsRune", "strings..ContainsAny", "bytes..ContainsAny", "bytes..ContainsRune":
		var c *Set
		switch args[1].k {
		case xkInt:
			c = single(args[1].n)
		case xkStr:
			str, ok := args[1].constant()
			if ok && (strings.HasSuffix(name, "Any") || len(str) == 1) {
				c = charSet(str)
			}
		}
		a, b, ok := args[0].input()
		if c == nil || !ok || !c.SubsetOf(xAscii) {
			break
		}
		boolean := strings.HasPrefix(name, "Contains")
		for _, r := range x.find(s, a, b, c) {
			v := xInt(-1)
			if r.at != 0 {
				v = xv{k: xkRel, m: r.at, b: r.s.res(a)}
			}
			if boolean {
				v = xBool(r.at != 0)
			}
			r.s.top().env[t] = v
			x.work = append(x.work, r.s)
		}
		return false
	case "strings..Replace", "strings..ReplaceAll", "bytes..Replace", "bytes..ReplaceAll":
		a, ok1 := args[1].constant()
		b, ok2 := args[2].constant()
		if name == "Replace" && (args[3].k != xkInt || args[3].n >= 0) || !ok1 || !ok2 || len(a) != 1 {
			break
		}
		if v, ok := xReplace(args[0], []string{a, b}); ok {
			return set(v)
		}
	case "strings..NewReplacer":
		if args[0].k == xkArr {
			var l []string
			for i := int64(0); i < args[0].n; i++ {
				c, ok := s.mem[args[0].s+"["+strconv.FormatInt(i, 10)+"]"].constant()
				if !ok {
					l = nil
					break
				}
				l = append(l, c)
			}
			if l != nil {
				return set(xv{k: xkRepl, s: strings.Join(l, "\x00")})
			}
		}
	case "strings.Replacer.Replace":
		if args[0].k == xkRepl {
			l := strings.Split(args[0].s, "\x00")
			if g, ok := args[0].v.(*ssa.Global); ok {
				l = x.p.globalReplacer(g)
			}
			if v, ok := xReplace(args[1], l); ok {
				return set(v)
			}
		}
	case "strings.Replacer.WriteString":
		if args[0].k == xkRepl {
			l := strings.Split(args[0].s, "\x00")
			if g, ok := args[0].v.(*ssa.Global); ok {
				l = x.p.globalReplacer(g)
			}
			if v, ok := xReplace(args[2], l); ok {
				if !x.emit(s, t, args[1], v) {
					return false
				}
				return set(wres)
			}
		}
	case "strings..Split", "bytes..Split":
		if a, b, ok := args[0].input(); ok && b == xEnd {
			if sep, ok := args[1].constant(); ok && len(sep) == 1 {
				return set(xv{k: xkSplit, m: a, s: sep})
			}
		}
	case "strings..NewReader", "bytes..NewReader":
		if a, b, ok := args[0].input(); ok {
			k := fmt.Sprintf("rd:%d:%s", len(s.frames), t.Name())
			s.mem[k] = xv{k: xkReader, m: a, b: b}
			return set(xv{k: xkReader, s: k, m: a, b: b})
		}
	case "strings.Reader.Len", "bytes.Reader.Len":
		if r, ok := s.mem[args[0].s]; ok && args[0].k == xkReader {
			return set(xv{k: xkRel, m: r.b, b: r.m})
		}
	case "strings.Reader.ReadByte", "bytes.Reader.ReadByte", "strings.Reader.ReadRune", "bytes.Reader.ReadRune":
		r, ok := s.mem[args[0].s]
		if !ok || args[0].k != xkReader {
			break
		}
		has, none := s.char(r.m, r.b)
		for _, n := range none {
			if name == "ReadByte" {
				n.top().env[t] = xTuple(xv{}, xv{k: xkNonNil})
			} else {
				n.top().env[t] = xTuple(xv{}, xv{}, xv{k: xkNonNil})
			}
			x.work = append(x.work, n)
		}
		for _, h := range has {
			m := h.res(r.m)
			rs := []*xState{h}
			if name == "ReadByte" {
				if sg, _ := h.seg(m); !sg.cls.SubsetOf(xAscii) {
					a, b := x.split(h, m, xAscii)
					rs = append(a, b...)
					for _, n := range rs {
						if g, _ := n.seg(m); !g.cls.SubsetOf(xAscii) {
							g.byt, g.cls = true, interval(0x80, invalidByte)
						}
					}
				}
			}
			for _, n := range rs {
				n.mem[args[0].s] = xv{k: xkReader, m: n.markAfter(m), b: r.b}
				c := xv{k: xkRune, m: m}
				if name == "ReadByte" {
					n.top().env[t] = xTuple(c, xv{k: xkNil})
				} else {
					n.top().env[t] = xTuple(c, xv{k: xkRel, m: n.markAfter(m), b: m}, xv{k: xkNil})
				}
				x.work = append(x.work, n)
			}
		}
		return false
	case "bytes.Buffer.Len", "strings.Builder.Len":
		if args[0].k == xkBuf {
			switch s.buf {
			case 0, 2:
				if s.buf == 0 {
					return set(xInt(0))
				}
			case 1:
				// either
				n := s.clone()
				n.buf = 0
				n.top().env[t] = xInt(0)
				x.work = append(x.work, n)
				return set(xInt(1))
			}
		}
	case "bytes.Buffer.Write", "bytes.Buffer.WriteString", "strings.Builder.WriteString", "strings.Builder.Write", "bufio.Writer.WriteString", "bufio.Writer.Write":
		if !x.emit(s, t, args[0], args[1]) {
			return false
		}
		return set(wres)
	case "bytes.Buffer.WriteByte", "strings.Builder.WriteByte", "bytes.Buffer.WriteRune", "strings.Builder.WriteRune", "bufio.Writer.WriteByte", "bufio.Writer.WriteRune":
		var v xv
		switch args[1].k {
		case xkRune:
			v = xv{k: xkStr, p: []xPart{{k: 'r', a: args[1].m}}}
		case xkInt:
			v = xConst(string(rune(args[1].n)))
		}
		if !x.emit(s, t, args[0], v) {
			return false
		}
		if name == "WriteByte" && recvT != "Builder" || name == "WriteByte" {
			return set(xv{k: xkNil})
		}
		return set(wres)
	case "bytes.Buffer.WriteTo":
		if args[0].k == xkBuf && args[1].k == xkWriter {
			s.buf = 0
			return set(wres)
		}
	case "bytes.Buffer.Bytes", "bytes.Buffer.String", "strings.Builder.String":
		if args[0].k == xkBuf {
			return set(xv{k: xkBuf, s: args[0].s + "!"})
		}
	case "bytes.Buffer.Reset", "strings.Builder.Reset":
		if args[0].k == xkBuf {
			if s.buf == 1 {
				x.bad(s, t, "buffered output is thrown away")
			}
			s.buf = 0
			return set(xv{})
		}
	case "bytes.Buffer.Grow", "strings.Builder.Grow":
		return set(xv{})
	case "bufio..NewWriter", "bufio..NewWriterSize":
		if args[0].k == xkWriter {
			return set(xv{k: xkBuf, s: "bufio:" + t.Name()})
		}
	case "bufio.Writer.Flush":
		if args[0].k == xkBuf {
			s.buf = 0
			return set(xv{k: xkNil})
		}
	}
	if isErrorType(t.Type()) && errorMaker(fn) {
		return set(xv{k: xkNonNil})
	}
	x.giveUp(s, t, "a call that is not understood: "+pkg+"."+name)
	return false
}

// xReplace: a text in which single characters are replaced; a part 'm' is the
// input between a and b with the replacements of s.
func xReplace(v xv, l []string) (xv, bool) {
	if v.k != xkStr || len(l)%2 != 0 || len(l) == 0 {
		return xv{}, false
	}
	for i := 0; i < len(l); i += 2 {
		if len(l[i]) != 1 {
			return xv{}, false
		}
	}
	var p []xPart
	for _, q := range v.p {
		switch q.k {
		case 'c':
			p = append(p, xPart{k: 'c', s: strings.NewReplacer(l...).Replace(q.s)})
		case 'i':
			p = append(p, xPart{k: 'm', a: q.a, b: q.b, s: strings.Join(l, "\x00")})
		case 'm':
			// one replacement after the other: what an earlier one wrote must
			// not be touched again
			prev := strings.Split(q.s, "\x00")
			for i := 0; i < len(l); i += 2 {
				for j := 1; j < len(prev); j += 2 {
					if strings.Contains(prev[j], l[i]) {
						return xv{}, false
					}
				}
			}
			p = append(p, xPart{k: 'm', a: q.a, b: q.b, s: q.s + "\x00" + strings.Join(l, "\x00")})
		default:
			return xv{}, false
		}
	}
	return xv{k: xkStr, p: p}, true
}

// globalReplacer: the arguments of strings.NewReplacer in the initialiser of g.
func (p *Program) globalReplacer(g *ssa.Global) []string {
	var res []string
	n := 0
	for _, fn := range p.allFuncsWithInit() {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				st, ok := in.(*ssa.Store)
				if !ok || st.Addr != g {
					continue
				}
				n++
				c, ok := st.Val.(*ssa.Call)
				if !ok || c.Call.StaticCallee() == nil || c.Call.StaticCallee().Name() != "NewReplacer" {
					return nil
				}
				sl, ok := c.Call.Args[0].(*ssa.Slice)
				if !ok {
					return nil
				}
				al, ok := sl.X.(*ssa.Alloc)
				if !ok {
					return nil
				}
				vals := map[int64]string{}
				for _, r := range *al.Referrers() {
					ia, ok := r.(*ssa.IndexAddr)
					if !ok {
						continue
					}
					k, ok := ia.Index.(*ssa.Const)
					if !ok {
						return nil
					}
					for _, rr := range *ia.Referrers() {
						s2, ok := rr.(*ssa.Store)
						if !ok {
							return nil
						}
						v, ok := constBytesOf(s2.Val)
						if !ok {
							return nil
						}
						vals[cint(k)] = v
					}
				}
				for i := int64(0); i < int64(len(vals)); i++ {
					res = append(res, vals[i])
				}
			}
		}
	}
	if n != 1 {
		return nil
	}
	return res
}

type xFound struct {
	s  *xState
	at int // 0: not found
}

// find splits a state by where in [a,b) the first character of c is.
func (x *xRun) find(s *xState, a, b int, c *Set) (res []xFound) {
	if x.seps == nil {
		x.seps = emptySet
	}
	x.seps = x.seps.Union(c)
	i, j := s.at(a), s.at(b)
	if i < 0 || j < i {
		return nil
	}
	for k := i; k < j && k < len(s.segs); k++ {
		sg := s.segs[k]
		in := sg.cls.Inter(c)
		if in.Empty() {
			continue
		}
		h := s.clone()
		if sg.run {
			h.segs[k].ne = false // what follows
			m := h.insert(k, xSeg{cls: in, byt: sg.byt})
			_ = m
			at := h.marks[k]
			// what precedes: a run without the character
			pre := xSeg{cls: sg.cls.Minus(c), run: true, byt: sg.byt}
			at = h.insert(k, pre)
			res = append(res, xFound{h, at})
			s = s.clone()
			s.segs[k].cls = sg.cls.Minus(c)
		} else {
			h.segs[k].cls = in
			res = append(res, xFound{h, h.marks[k]})
			s = s.clone()
			s.segs[k].cls = sg.cls.Minus(c)
			if s.segs[k].cls.Empty() {
				return res
			}
		}
	}
	if s.res(b) == xEnd && s.empty != 1 {
		if in := s.rest.Inter(c); !in.Empty() {
			h := s.clone()
			k := len(h.segs)
			h.insert(k, xSeg{cls: in})
			at := h.insert(k, xSeg{cls: h.rest.Minus(c), run: true})
			h.empty = -1
			res = append(res, xFound{h, at})
			s = s.clone()
			s.rest = s.rest.Minus(c)
		}
	}
	return append(res, xFound{s, 0})
}

// sprint: the arguments one after the other (texts only).
func (x *xRun) sprint(s *xState, args xv) xv {
	var p []xPart
	if args.k != xkArr {
		return xv{}
	}
	for i := int64(0); i < args.n; i++ {
		v := s.mem[args.s+"["+strconv.FormatInt(i, 10)+"]"]
		if v.k != xkStr {
			return xv{}
		}
		p = append(p, v.p...)
	}
	return xv{k: xkStr, p: p}
}

func (x *xRun) sprintf(s *xState, format, args xv) xv {
	fs, ok := format.constant()
	if !ok || args.k != xkArr && args.k != xkNil {
		return xv{}
	}
	var p []xPart
	n := int64(0)
	for i := 0; i < len(fs); i++ {
		if fs[i] != '%' {
			p = append(p, xPart{k: 'c', s: fs[i : i+1]})
			continue
		}
		i++
		if i >= len(fs) {
			return xv{}
		}
		if fs[i] == '%' {
			p = append(p, xPart{k: 'c', s: "%"})
			continue
		}
		for i < len(fs) && fs[i] == '0' { // zero padding
			i++
			for i < len(fs) && fs[i] >= '0' && fs[i] <= '9' {
				i++
			}
		}
		if i >= len(fs) || n >= args.n {
			return xv{}
		}
		v := s.mem[args.s+"["+strconv.FormatInt(n, 10)+"]"]
		n++
		switch {
		case (fs[i] == 'x' || fs[i] == 'X') && v.k == xkRune:
			p = append(p, xPart{k: 'n', a: v.m, b: 16})
		case fs[i] == 'd' && v.k == xkRune:
			p = append(p, xPart{k: 'n', a: v.m, b: 10})
		case fs[i] == 'c' && v.k == xkRune:
			p = append(p, xPart{k: 'r', a: v.m})
		case (fs[i] == 's' || fs[i] == 'v') && v.k == xkStr:
			p = append(p, v.p...)
		default:
			return xv{}
		}
	}
	return xv{k: xkStr, p: p}
}

// emit writes a text to a destination.
func (x *xRun) emit(s *xState, in ssa.Instruction, w, v xv) bool {
	x.emits++
	switch w.k {
	case xkWriter:
		if v.k == xkBuf { // the contents of the buffer
			s.buf = 2
			return true
		}
		if s.buf == 1 {
			if c, ok := v.constant(); !ok || c != "" {
				x.bad(s, in, "written while earlier output is still buffered")
				return false
			}
		}
	case xkBuf:
		if v.k == xkBuf {
			x.giveUp(s, in, "a buffer copied to a buffer")
			return false
		}
		if s.buf == 2 {
			x.bad(s, in, "a buffer that has been written is not reset")
			return false
		}
		s.buf = 1
	default:
		x.giveUp(s, in, "a destination that is not understood")
		return false
	}
	if v.k == xkNil {
		return true
	}
	if v.k != xkStr {
		x.giveUp(s, in, "text that is not understood is written")
		return false
	}
	parts := mergeParts(v.p)
	for i := 0; i < len(parts); i++ {
		p := parts[i]
		msg := ""
		switch p.k {
		case 'c':
			if p.s == "" {
				continue
			}
			// a numeric reference: &# number ;
			if (strings.HasSuffix(p.s, "&#") || strings.HasSuffix(p.s, "&#x")) && i+2 < len(parts) && parts[i+1].k == 'n' && strings.HasPrefix(parts[i+2].s, ";") {
				pre := strings.TrimSuffix(strings.TrimSuffix(p.s, "x"), "&#")
				base := 10
				if strings.HasSuffix(p.s, "x") {
					base = 16
				}
				if pre != "" {
					msg = x.spec.constant(s, pre)
				}
				if msg == "" {
					sg, ok := s.seg(s.pos)
					switch {
					case parts[i+1].b != base:
						msg = "a character reference in the wrong base"
					case !ok || !s.same(parts[i+1].a, s.pos):
						msg = "a character reference that stands for a different character than the one to be written"
					case sg.run:
						msg = "a character reference for a run of characters"
					default:
						msg = x.spec.number(s, *sg)
						s.pos = s.markAfter(s.pos)
					}
				}
				parts[i+2].s = strings.TrimPrefix(parts[i+2].s, ";")
				i++
			} else {
				msg = x.spec.constant(s, p.s)
			}
		case 'i':
			msg = x.copy(s, p.a, p.b)
		case 'm':
			msg = x.copyReplaced(s, p)
		case 'r':
			if !s.same(p.a, s.pos) {
				msg = "a character is written out of its order"
				break
			}
			sg, ok := s.seg(s.pos)
			if !ok {
				msg = "a character is written out of its order"
				break
			}
			cls := sg.cls
			if !sg.byt {
				cls = cls.Minus(single(invalidByte)) // written as U+FFFD
			}
			if !cls.SubsetOf(x.spec.raw(s)) {
				msg = "copied although it must not be: " + chars(cls.Minus(x.spec.raw(s)))
			}
			s.pos = s.markAfter(s.pos)
		case 'n':
			msg = "a number is written that is not part of a reference"
		}
		if msg != "" {
			x.bad(s, in, msg)
			return false
		}
	}
	return true
}

func mergeParts(l []xPart) []xPart {
	var r []xPart
	for _, p := range l {
		if n := len(r); p.k == 'c' && n > 0 && r[n-1].k == 'c' {
			r[n-1].s += p.s
			continue
		}
		r = append(r, p)
	}
	return r
}

// copy writes the input between a and b.
func (x *xRun) copy(s *xState, a, b int) string {
	i, j, k := s.at(a), s.at(b), s.at(s.pos)
	if i < 0 || j < i {
		return "a piece of the text that is not understood is written"
	}
	if i == j {
		return ""
	}
	// empty runs in front do not matter
	if i != k {
		if i > k {
			for q := k; q < i; q++ {
				if q >= len(s.segs) || !s.segs[q].run || s.segs[q].ne {
					return "part of the text is left out"
				}
				return "part of the text may be left out"
			}
		}
		return "part of the text is written twice"
	}
	raw := x.spec.raw(s)
	for q := i; q < j; q++ {
		if q == len(s.segs) {
			if !s.rest.SubsetOf(raw) {
				return "copied although it must not be: " + chars(s.rest.Minus(raw))
			}
			break
		}
		sg := s.segs[q]
		cls := sg.cls
		if !cls.SubsetOf(raw) {
			return "copied although it must not be: " + chars(cls.Minus(raw))
		}
	}
	if s.res(b) == xEnd {
		s.pos = xEnd
		if s.empty == 1 {
			s.pos = s.marks[len(s.marks)-1]
		}
	} else {
		s.pos = s.res(b)
	}
	return ""
}

// copyReplaced writes the input between p.a and p.b with some characters
// replaced, which is judged for each character in turn.
func (x *xRun) copyReplaced(s *xState, p xPart) string {
	i, j, k := s.at(p.a), s.at(p.b), s.at(s.pos)
	if i < 0 || j < i || i != k {
		return "part of the text is left out or written twice"
	}
	l := strings.Split(p.s, "\x00")
	keep := emptySet
	judge := func(cls *Set, byt bool) string {
		rest := cls
		for q := 0; q < len(l); q += 2 {
			c := single(int64(l[q][0]))
			if cls.Inter(c).Empty() || rest.Inter(c).Empty() {
				continue
			}
			rest = rest.Minus(c)
			// a state in which just this character is next
			t := s.clone()
			t.segs = append(t.segs[:0:0], xSeg{cls: c, byt: byt})
			t.marks = []int{1, 2}
			t.alias = map[int]int{}
			t.pos = 1
			t.empty = 0
			if m := x.spec.constant(t, l[q+1]); m != "" {
				return m
			}
			if t.at(t.pos) != 1 {
				return "a character is left out"
			}
		}
		keep = keep.Union(rest)
		return ""
	}
	for q := i; q < j; q++ {
		var m string
		if q == len(s.segs) {
			m = judge(s.rest, false)
		} else {
			m = judge(s.segs[q].cls, s.segs[q].byt)
		}
		if m != "" {
			return m
		}
	}
	if raw := x.spec.raw(s); !keep.SubsetOf(raw) {
		return "copied although it must not be: " + chars(keep.Minus(raw))
	}
	if s.res(p.b) == xEnd {
		s.pos = xEnd
		if s.empty == 1 {
			s.pos = s.marks[len(s.marks)-1]
		}
	} else {
		s.pos = s.res(p.b)
	}
	return ""
}

func chars(c *Set) string {
	r := c.Minus(single(invalidByte))
	res := ""
	if !r.Empty() {
		res = r.String()
	}
	if c.Has(invalidByte) {
		if res != "" {
			res += " and "
		}
		res += "invalid UTF-8"
	}
	if len(res) > 160 {
		res = res[:160] + "..."
	}
	return res
}
