package main

import (
	"crypto/sha256"
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Shape analysis: abstract interpretation of code that builds and changes
// document trees.  The heap is a graph of nodes; a part of a list of siblings
// of which nothing is known but that it is well formed is one segment, which
// is opened when the program walks into it and closed again at loop headers.

type hKind int

const (
	hUnk    hKind = iota
	hNil          // nil of any kind
	hRef          // pointer to an object, or an interface that holds one
	hAddr         // address of a field of an object
	hStruct       // copy of an object
	hInt
	hBool
	hStr   // text: parts
	hLen   // length of a text
	hPos   // place in a text: the lengths of the texts in l, and n
	hSym   // a value of the initial state that has not been looked at
	hErr   // an error that is not nil
	hTuple // results
	hFn    // a function
	hSeg   // the next (previous) node is the first (last) of a segment, if that is not empty
	hOpq   // an object of which only the interface is known
	hSlice // a slice of known length
	hNot   // negation
	hEq    // an undecided comparison
	hMk    // a byte slice made by the program (object)
	hClo   // closure
)

type hv struct {
	k   hKind
	o   int
	s   string
	n   int64
	t   types.Type
	l   []hv
	fn  *ssa.Function
	op  token.Token
	dyn types.Type // of an interface, if known
}

func hI(n int64) hv { return hv{k: hInt, n: n} }
func hB(b bool) hv {
	if b {
		return hv{k: hBool, n: 1}
	}
	return hv{k: hBool}
}
func hR(o int) hv { return hv{k: hRef, o: o} }

// hText: text made of parts: "c" + constant or "s" + symbol.
func hText(parts ...string) hv {
	v := hv{k: hStr}
	for _, p := range parts {
		v.l = append(v.l, hv{s: p})
	}
	return v
}

type hObj struct {
	typ    types.Type // struct type; nil: some node
	ifc    types.Type
	name   string
	fresh  bool
	named  bool // belongs to the scenario
	fields map[string]hv
	marks  map[string]bool
}

type hSegment struct {
	left, right, parent hv
	name                string
	typ                 types.Type // concrete type of all its nodes, if known
	marks               map[string]bool
}

const hLimit = 1500000

// hCostLimit bounds the size of all the states made for one operation.
const hCostLimit = 6000000

type hFrame struct {
	fn   *ssa.Function
	b    *ssa.BasicBlock
	i    int
	env  map[ssa.Value]hv
	call ssa.Value
	deep int
}

type hState struct {
	frames []*hFrame
	objs   map[int]*hObj
	segs   map[int]*hSegment
	facts  map[string]hv
	neq    map[string]bool
	next   int
	trace  []string
	log    []string // calls of interest
}

// hCost is the size of the states made since the operation began.
var hCost int

func (s *hState) clone() *hState {
	n := &hState{next: s.next, objs: map[int]*hObj{}, segs: map[int]*hSegment{}, facts: map[string]hv{}, neq: map[string]bool{}}
	for _, f := range s.frames {
		g := *f
		g.env = make(map[ssa.Value]hv, len(f.env))
		for k, v := range f.env {
			g.env[k] = v
		}
		n.frames = append(n.frames, &g)
	}
	for k, o := range s.objs {
		n.objs[k] = o.clone()
	}
	for k, g := range s.segs {
		c := *g
		n.segs[k] = &c
	}
	for k, v := range s.facts {
		n.facts[k] = v
	}
	for k, v := range s.neq {
		n.neq[k] = v
	}
	n.log = append([]string(nil), s.log...)
	hCost += len(n.facts) + len(n.neq) + len(n.log)
	for _, o := range n.objs {
		hCost += 1 + len(o.fields)
	}
	for _, f := range n.frames {
		hCost += len(f.env)
	}
	return n
}

func (o *hObj) clone() *hObj {
	c := *o
	c.fields = make(map[string]hv, len(o.fields))
	for k, v := range o.fields {
		c.fields[k] = v
	}
	c.marks = map[string]bool{}
	for k := range o.marks {
		c.marks[k] = true
	}
	return &c
}

func (s *hState) top() *hFrame { return s.frames[len(s.frames)-1] }

// obj makes an object of the initial state.
func (s *hState) obj(name string, typ types.Type) int {
	s.next++
	s.objs[s.next] = &hObj{typ: typ, name: name, named: true, fields: map[string]hv{}, marks: map[string]bool{}}
	return s.next
}

func (s *hState) alloc(typ types.Type) int {
	s.next++
	s.objs[s.next] = &hObj{typ: typ, name: "new" + strconv.Itoa(s.next), fresh: true, fields: map[string]hv{}, marks: map[string]bool{}}
	return s.next
}

func (s *hState) segment(name string, left, right, parent hv) int {
	s.next++
	s.segs[s.next] = &hSegment{left: left, right: right, parent: parent, name: name}
	return s.next
}

const (
	fNext   = "docnode.next"
	fPrev   = "docnode.prev"
	fParent = "docnode.parent"
	fFirst  = "docnode.firstChild"
	fLast   = "docnode.lastChild"
	fDoc    = "docnode.doc"
	fName   = "docnode.name"
	fEtype  = "docnode.etype"
)

func (s *hState) set(o int, k string, v hv) { s.objs[o].fields[k] = v }

// list links up siblings: ids of objects, 0 for a segment, or -id of a segment.
func (s *hState) list(parent hv, first, last string, ids ...int) {
	items := make([]hv, len(ids))
	for i, id := range ids {
		if id > 0 {
			items[i] = hR(id)
		} else if id < 0 {
			s.segs[-id].parent = parent
			items[i] = hv{k: hSeg, o: -id}
		} else {
			items[i] = hv{k: hSeg, o: s.segment("S"+strconv.Itoa(i), hv{k: hNil}, hv{k: hNil}, parent)}
		}
	}
	for i, it := range items {
		l, r := hv{k: hNil}, hv{k: hNil}
		if i > 0 {
			l = items[i-1]
		}
		if i+1 < len(items) {
			r = items[i+1]
		}
		if it.k == hRef {
			s.set(it.o, fPrev, l)
			s.set(it.o, fNext, r)
			s.set(it.o, fParent, parent)
		} else {
			s.segs[it.o].left, s.segs[it.o].right = l, r
		}
	}
	if parent.k == hRef && first != "" {
		if len(items) == 0 {
			s.set(parent.o, first, hv{k: hNil})
			if last != "" {
				s.set(parent.o, last, hv{k: hNil})
			}
		} else {
			s.set(parent.o, first, items[0])
			if last != "" {
				s.set(parent.o, last, items[len(items)-1])
			}
		}
	}
}

func (s *hState) detached(o int) {
	for _, f := range []string{fNext, fPrev, fParent} {
		s.set(o, f, hv{k: hNil})
	}
}

func newHState() *hState {
	return &hState{objs: map[int]*hObj{}, segs: map[int]*hSegment{}, facts: map[string]hv{}, neq: map[string]bool{}}
}

type hRun struct {
	p       *Program
	done    func(s *hState, res []hv, in ssa.Instruction) string // judges an outcome
	panics  func(s *hState, in ssa.Instruction) string
	errs    map[string]string
	seen    map[[32]byte]bool
	work    []*hState
	steps   int
	headers map[*ssa.BasicBlock]bool
	prepd   map[*ssa.Function]bool
	ends    int
	contr   map[*ssa.Function]bool // recursive functions whose contract was used
	rec     map[*ssa.Function]bool
	etypes  map[string]int64
	self    *ssa.Function
	track   []string // types of nodes that matter
	// onCall may stand in for a call (its continuations are returned).
	onCall func(s *hState, t *ssa.Call, fn *ssa.Function, name string, args []hv) ([]*hState, bool)
	// collect: appending to a slice of nodes marks the node
	collect string
	noLog   bool // lists of nodes are not noted
	// without: the texts that have no such character
	without map[string]string
}

func newHRun(p *Program) *hRun {
	return &hRun{p: p, errs: map[string]string{}, seen: map[[32]byte]bool{}, headers: map[*ssa.BasicBlock]bool{}, prepd: map[*ssa.Function]bool{},
		contr: map[*ssa.Function]bool{}}
}

func (h *hRun) bad(in ssa.Instruction, msg string) {
	if _, ok := h.errs[msg]; !ok {
		pos := ""
		if in != nil {
			pos = h.p.instrPos(in)
		}
		h.errs[msg] = pos
	}
}

func (h *hRun) start(s *hState, fn *ssa.Function, args ...hv) {
	f := &hFrame{fn: fn, env: map[ssa.Value]hv{}}
	if len(fn.Blocks) == 0 {
		h.bad(nil, fn.Name()+" has no body")
		return
	}
	f.b = fn.Blocks[0]
	for i, pa := range fn.Params {
		f.env[pa] = args[i]
	}
	h.prep(fn)
	h.self = fn
	s.frames = []*hFrame{f}
	h.seen = map[[32]byte]bool{}
	h.steps = 0
	hCost = 0
	h.work = append(h.work[:0], s)
	for len(h.work) > 0 {
		s := h.work[len(h.work)-1]
		h.work = h.work[:len(h.work)-1]
		h.run(s)
		if os.Getenv("HSTEP") != "" {
			hStepDbg(h, fn)
		}
		if h.steps > hLimit {
			h.bad(fn.Blocks[0].Instrs[0], "undecided: too many states in "+fn.Name())
			return
		}
		if len(h.errs) > 10 {
			return
		}
	}
}

func (h *hRun) prep(fn *ssa.Function) {
	if h.prepd[fn] {
		return
	}
	h.prepd[fn] = true
	for _, l := range naturalLoops(fn) {
		h.headers[l.head] = true
	}
}

func (h *hRun) giveUp(s *hState, in ssa.Instruction, msg string) {
	h.bad(in, "undecided: "+msg)
}

// resolve replaces a value that has been looked at.
func (s *hState) resolve(v hv) hv {
	for v.k == hSym {
		f, ok := s.facts[v.s]
		if !ok {
			return v
		}
		if f.k == hRef && f.dyn == nil {
			f.dyn = v.dyn
		}
		v = f
	}
	return v
}

func (h *hRun) val(s *hState, v ssa.Value) hv {
	switch c := v.(type) {
	case *ssa.Const:
		if c.Value == nil {
			if isZeroStruct(c.Type()) {
				return hR(s.alloc(c.Type()))
			}
			return hv{k: hNil}
		}
		switch c.Value.Kind() {
		case constant.Int:
			n, ok := constant.Int64Val(c.Value)
			if ok {
				return hI(n)
			}
		case constant.Bool:
			return hB(constant.BoolVal(c.Value))
		case constant.String:
			if t := constant.StringVal(c.Value); t != "" {
				return hText("c" + t)
			}
			return hText()
		}
		return hv{k: hUnk, t: c.Type()}
	case *ssa.Function:
		return hv{k: hFn, fn: c}
	case *ssa.Builtin:
		return hv{k: hUnk}
	case *ssa.Global:
		return hv{k: hAddr, o: 0, s: "global " + c.Name(), t: c.Type()}
	}
	if r, ok := s.top().env[v]; ok {
		return s.resolve(r)
	}
	return hv{k: hUnk, t: v.Type()}
}

func isZeroStruct(t types.Type) bool {
	_, ok := t.Underlying().(*types.Struct)
	return ok
}

func (h *hRun) zero(s *hState, t types.Type) hv {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsString != 0:
			return hText()
		case u.Info()&types.IsInteger != 0:
			return hI(0)
		case u.Info()&types.IsBoolean != 0:
			return hB(false)
		}
	case *types.Struct:
		return hv{k: hStruct, o: s.alloc(t)}
	case *types.Pointer, *types.Interface, *types.Slice, *types.Map, *types.Signature, *types.Chan:
		return hv{k: hNil}
	}
	return hv{k: hUnk, t: t}
}

// initial is the value of a field of an object of the initial state.
func (s *hState) initial(name string, t types.Type) hv {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if u.Info()&types.IsString != 0 {
			return hText("s" + name)
		}
	case *types.Slice:
		if b, ok := u.Elem().Underlying().(*types.Basic); ok && b.Kind() == types.Byte {
			return hText("s" + name)
		}
	}
	return hv{k: hSym, s: name, t: t}
}

// get reads a field; nil if the states to go on with are on the work list.
func (h *hRun) get(s *hState, o int, k string, t types.Type) (hv, bool) {
	ob := s.objs[o]
	if ob == nil {
		return hv{k: hUnk, t: t}, true
	}
	if v, ok := ob.fields[k]; ok {
		return s.resolve(v), true
	}
	if k == fEtype && !ob.fresh {
		if ob.typ == nil {
			return hv{}, false
		}
		if n, ok := h.etypes[typeName(ob.typ)]; ok {
			return hI(n), true
		}
	}
	var v hv
	if ob.fresh {
		v = h.zero(s, t)
	} else {
		v = s.initial(ob.name+"."+k, t)
	}
	ob.fields[k] = v
	return s.resolve(v), true
}

func typeName(t types.Type) string {
	if n := namedOf(t); n != nil {
		return n.Obj().Name()
	}
	return ""
}

// fieldKey: struct type and field name; every struct is part of an object at
// most once.
func fieldKey(t types.Type, i int) (string, *types.Var) {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	st := t.Underlying().(*types.Struct)
	return typeName(t) + "." + st.Field(i).Name(), st.Field(i)
}

// substitute replaces what a segment stands for.
func (s *hState) substitute(seg int, fwd, back hv) {
	is := func(v hv) bool { return v.k == hSeg && v.o == seg }
	for _, o := range s.objs {
		for k, v := range o.fields {
			if !is(v) {
				continue
			}
			switch k {
			case fPrev, fLast:
				if back.k != hUnk {
					o.fields[k] = back
				}
			default:
				if fwd.k != hUnk {
					o.fields[k] = fwd
				}
			}
		}
	}
	for _, g := range s.segs {
		if is(g.left) && back.k != hUnk {
			g.left = back
		}
		if is(g.right) && fwd.k != hUnk {
			g.right = fwd
		}
	}
}

// open splits a state by whether the segment is empty.
func (s *hState) open(seg int, fromLeft bool) (empty, full *hState) {
	e := s.clone()
	g := e.segs[seg]
	l, r := g.left, g.right
	delete(e.segs, seg)
	e.substitute(seg, r, l)
	f := s.clone()
	g = f.segs[seg]
	m := f.obj(g.name+"/"+strconv.Itoa(f.next), g.typ)
	f.objs[m].named = false
	for k := range g.marks {
		f.objs[m].marks[k] = true
	}
	f.set(m, fParent, g.parent)
	if fromLeft {
		f.substitute(seg, hR(m), hv{})
		f.set(m, fPrev, g.left)
		f.set(m, fNext, hv{k: hSeg, o: seg})
		f.segs[seg].left = hR(m)
	} else {
		f.substitute(seg, hv{}, hR(m))
		f.set(m, fNext, g.right)
		f.set(m, fPrev, hv{k: hSeg, o: seg})
		f.segs[seg].right = hR(m)
	}
	return e, f
}

// retype forks a state by the concrete type of a node.
func (h *hRun) retype(s *hState, o int, retry func(*hState)) {
	for _, t := range h.p.nodeTypes() {
		if s.objs[o].marks["not "+typeName(t)] {
			continue
		}
		c := s.clone()
		for _, x := range c.objs {
			if x.name == s.objs[o].name {
				x.typ = t // the node and copies of it
			}
		}
		retry(c)
	}
}

// nodeTypes: the concrete types of nodes of a document tree.
func (p *Program) nodeTypes() []types.Type {
	var res []types.Type
	sc := p.root().Pkg.Scope()
	obj := sc.Lookup("Node")
	if obj == nil {
		return nil
	}
	ifc, ok := obj.Type().Underlying().(*types.Interface)
	if !ok {
		return nil
	}
	for _, n := range sc.Names() {
		tn, ok := sc.Lookup(n).(*types.TypeName)
		if !ok || tn.IsAlias() {
			continue
		}
		if _, ok := tn.Type().Underlying().(*types.Struct); ok && types.Implements(types.NewPointer(tn.Type()), ifc) {
			res = append(res, tn.Type())
		}
	}
	return res
}

func (h *hRun) run(s *hState) {
	for {
		f := s.top()
		if f.i >= len(f.b.Instrs) {
			return
		}
		in := f.b.Instrs[f.i]
		h.steps++
		if h.steps > hLimit || hCost > hCostLimit {
			h.steps = hLimit + 1
			return
		}
		f.i++
		switch t := in.(type) {
		case *ssa.Jump:
			if !h.goTo(s, f.b.Succs[0]) {
				return
			}
		case *ssa.If:
			yes, no := h.decide(s, h.val(s, t.Cond), t)
			for _, n := range yes {
				if h.goTo(n, n.top().b.Succs[0]) {
					h.work = append(h.work, n)
				}
			}
			for _, n := range no {
				if h.goTo(n, n.top().b.Succs[1]) {
					h.work = append(h.work, n)
				}
			}
			return
		case *ssa.Return:
			var res []hv
			for _, r := range t.Results {
				res = append(res, h.val(s, r))
			}
			if len(s.frames) == 1 {
				h.ends++
				if os.Getenv("HDBG") != "" {
					fmt.Fprintln(os.Stderr, "END", s.dump(res))
				}
				if m := h.done(s, res, in); m != "" {
					if os.Getenv("HDBG") != "" {
						fmt.Fprintln(os.Stderr, "  BAD", m)
					}
					h.bad(in, m)
				}
				return
			}
			s.frames = s.frames[:len(s.frames)-1]
			if f.call != nil {
				if len(res) == 1 {
					s.top().env[f.call] = res[0]
				} else {
					s.top().env[f.call] = hv{k: hTuple, l: res}
				}
			}
		case *ssa.Panic:
			if h.panics != nil {
				if m := h.panics(s, in); m != "" {
					h.bad(in, m)
				}
			} else {
				h.bad(in, "a panic is reached")
			}
			return
		default:
			if !h.exec(s, in) {
				return
			}
		}
	}
}

func (h *hRun) goTo(s *hState, b *ssa.BasicBlock) bool {
	f := s.top()
	from := f.b
	vals := map[ssa.Value]hv{}
	n := 0
	for _, in := range b.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		n++
		for i, p := range b.Preds {
			if p == from {
				vals[ph] = h.val(s, ph.Edges[i])
				break
			}
		}
	}
	for k, v := range vals {
		f.env[k] = v
	}
	f.b, f.i = b, n
	if !h.headers[b] {
		return true
	}
	h.fold(s)
	k := s.key()
	d := sha256.Sum256([]byte(k))
	if h.seen[d] {
		return false
	}
	h.seen[d] = true
	if len(h.seen) > 200000 || len(h.work) > 100000 {
		h.steps = hLimit + 1
		return false
	}
	if os.Getenv("HDBG2") != "" {
		fmt.Fprintln(os.Stderr, "KEY", b.Parent().Name(), b.Index, k)
	}
	return true
}

func (v hv) objs(f func(int)) {
	switch v.k {
	case hRef, hAddr, hStruct, hMk:
		f(v.o)
	}
	for _, e := range v.l {
		e.objs(f)
	}
}

type useKey struct {
	v ssa.Value
	b *ssa.BasicBlock
	i int
}

var useMemo = map[useKey]bool{}

// usedAfter: from instruction i of block b on, v may be used before it is
// computed again.
func usedAfter(v ssa.Value, b *ssa.BasicBlock, i int) bool {
	if v.Referrers() == nil {
		return true
	}
	k := useKey{v, b, i}
	if r, ok := useMemo[k]; ok {
		return r
	}
	def, _ := v.(ssa.Instruction)
	isUse := func(in ssa.Instruction) bool {
		for _, op := range in.Operands(nil) {
			if *op == v {
				return true
			}
		}
		return false
	}
	seen := map[*ssa.BasicBlock]bool{}
	var walk func(b *ssa.BasicBlock, i int) bool
	walk = func(b *ssa.BasicBlock, i int) bool {
		for ; i < len(b.Instrs); i++ {
			in := b.Instrs[i]
			if _, ok := in.(*ssa.Phi); ok {
				if in == def {
					return false
				}
				continue
			}
			if isUse(in) {
				return true
			}
			if in == def {
				return false
			}
		}
		for _, t := range b.Succs {
			for pi, p := range t.Preds {
				if p != b {
					continue
				}
				for _, in := range t.Instrs {
					ph, ok := in.(*ssa.Phi)
					if !ok {
						break
					}
					if ph.Edges[pi] == v {
						return true
					}
				}
			}
			if !seen[t] {
				seen[t] = true
				if walk(t, 0) {
					return true
				}
			}
		}
		return false
	}
	r := walk(b, i)
	useMemo[k] = r
	return r
}

// fold closes nodes nothing refers to into segments.
func (h *hRun) fold(s *hState) {
	used := map[int]bool{}
	for _, f := range s.frames {
		for v, a := range f.env {
			if v != f.call && !usedAfter(v, f.b, f.i) {
				delete(f.env, v)
				continue
			}
			a.objs(func(o int) { used[o] = true })
		}
	}
	// unreachable objects
	live := map[int]bool{}
	var mark func(o int)
	mark = func(o int) {
		if live[o] || s.objs[o] == nil {
			return
		}
		live[o] = true
		for _, v := range s.objs[o].fields {
			if v.k == hSeg {
				g := s.segs[v.o]
				for _, e := range []hv{g.left, g.right} {
					e.objs(mark)
				}
			}
			v.objs(mark)
		}
	}
	for o := range used {
		mark(o)
	}
	for o, ob := range s.objs {
		if ob.named {
			mark(o)
		}
	}
	for _, v := range s.facts {
		v.objs(mark)
		v.objs(func(o int) { used[o] = true })
	}
	for o := range s.objs {
		if !live[o] {
			s.remove(o)
		}
	}
	refs := map[int]int{}
	for _, ob := range s.objs {
		for _, v := range ob.fields {
			v.objs(func(o int) { refs[o]++ })
		}
	}
	var ids []int
	for o := range s.objs {
		ids = append(ids, o)
	}
	sort.Ints(ids)
	for _, o := range ids {
		ob := s.objs[o]
		if used[o] || ob.named {
			continue
		}
		p, okp := ob.fields[fPrev]
		n, okn := ob.fields[fNext]
		par, okq := ob.fields[fParent]
		if !okp || !okn {
			continue
		}
		if !okq {
			if !ob.fresh {
				continue
			}
			par = hv{k: hNil}
		}
		me := hR(o)
		cnt := 0
		left := func(v hv) bool { // v.next is me
			switch v.k {
			case hRef:
				w, ok := s.objs[v.o].fields[fNext]
				cnt++
				return ok && hSame(w, me)
			case hSeg:
				return hSame(s.segs[v.o].right, me)
			}
			return false
		}
		right := func(v hv) bool {
			switch v.k {
			case hRef:
				w, ok := s.objs[v.o].fields[fPrev]
				cnt++
				return ok && hSame(w, me)
			case hSeg:
				return hSame(s.segs[v.o].left, me)
			}
			return false
		}
		if !left(p) || !right(n) || refs[o] != cnt {
			continue
		}
		if ob.typ != nil {
			for _, nt := range h.track {
				if typeName(ob.typ) != nt {
					ob.marks["not "+nt] = true
				}
			}
		}
		switch {
		case p.k == hSeg && hSame(s.segs[p.o].parent, par):
			g := s.segs[p.o]
			g.right = n
			g.typ = interType(g.typ, ob.typ)
			g.marks = interMarks(g.marks, ob.marks)
			s.back(n, p)
			if n.k == hSeg && hSame(s.segs[n.o].parent, par) {
				// two segments become one
				h2 := s.segs[n.o]
				g.right = h2.right
				g.typ = interType(g.typ, h2.typ)
				g.marks = interMarks(g.marks, h2.marks)
				s.back(h2.right, p)
				s.substitute(n.o, p, p)
				delete(s.segs, n.o)
			}
		case n.k == hSeg && hSame(s.segs[n.o].parent, par):
			g := s.segs[n.o]
			g.left = p
			g.typ = interType(g.typ, ob.typ)
			g.marks = interMarks(g.marks, ob.marks)
			s.fwd(p, n)
		default:
			id := s.segment("F", p, n, par)
			s.segs[id].marks = ob.marks
			s.segs[id].typ = ob.typ
			s.fwd(p, hv{k: hSeg, o: id})
			s.back(n, hv{k: hSeg, o: id})
		}
		for _, v := range ob.fields {
			v.objs(func(q int) { refs[q]-- })
		}
		s.remove(o)
	}
}

// remove forgets an object and what is known about its initial state.
func (s *hState) remove(o int) {
	n := s.objs[o].name + "."
	delete(s.objs, o)
	for _, x := range s.objs {
		if x.name+"." == n {
			return // a copy
		}
	}
	for k := range s.neq {
		if strings.Contains(k, n) {
			delete(s.neq, k)
		}
	}
	for k := range s.facts {
		if strings.HasPrefix(k, n) {
			delete(s.facts, k)
		}
	}
}

func (s *hState) back(n, v hv) {
	if n.k == hRef {
		s.objs[n.o].fields[fPrev] = v
	} else if n.k == hSeg {
		s.segs[n.o].left = v
	}
}

func (s *hState) fwd(n, v hv) {
	if n.k == hRef {
		s.objs[n.o].fields[fNext] = v
	} else if n.k == hSeg {
		s.segs[n.o].right = v
	}
}

func interType(a, b types.Type) types.Type {
	if a != nil && b != nil && types.Identical(a, b) {
		return a
	}
	return nil
}

func interMarks(a, b map[string]bool) map[string]bool {
	r := map[string]bool{}
	for k := range a {
		if b[k] {
			r[k] = true
		}
	}
	return r
}

func hSame(a, b hv) bool {
	if a.k != b.k {
		return false
	}
	switch a.k {
	case hNil:
		return true
	case hRef, hSeg:
		return a.o == b.o
	}
	return false
}

func (v hv) str(num func(int) string) string {
	var sb strings.Builder
	fmt.Fprintf(&sb, "%d", v.k)
	switch v.k {
	case hRef, hAddr, hStruct, hSeg, hMk:
		sb.WriteString("@" + num(v.o) + v.s)
	case hInt, hBool:
		fmt.Fprintf(&sb, "=%d", v.n)
	case hSym, hOpq:
		sb.WriteString(v.s)
	case hFn:
		if v.fn != nil {
			sb.WriteString(v.fn.String())
		}
	case hUnk:
	default:
		sb.WriteString(v.s)
	}
	if len(v.l) > 0 {
		sb.WriteString("(")
		for _, e := range v.l {
			sb.WriteString(e.str(num) + ",")
		}
		sb.WriteString(")")
	}
	return sb.String()
}

func (s *hState) key() string {
	num := map[int]string{}
	var order []int
	id := func(o int) string {
		if n, ok := num[o]; ok {
			return n
		}
		n := strconv.Itoa(len(num))
		num[o] = n
		order = append(order, o)
		return n
	}
	var sb strings.Builder
	var named []int
	for o, ob := range s.objs {
		if ob.named {
			named = append(named, o)
		}
	}
	sort.Ints(named)
	for _, o := range named {
		id(o)
	}
	for _, f := range s.frames {
		fmt.Fprintf(&sb, "F%s.%d.%d[", f.fn.String(), f.b.Index, f.i)
		var l []string
		vs := map[string]hv{}
		for v, a := range f.env {
			l = append(l, v.Name())
			vs[v.Name()] = a
		}
		sort.Strings(l)
		for _, n := range l {
			sb.WriteString(n + "=" + vs[n].str(id) + ";")
		}
	}
	for _, k := range sortedKeys(s.facts) {
		sb.WriteString("|" + k + "=" + s.facts[k].str(id))
	}
	for _, k := range sortedKeys(s.neq) {
		sb.WriteString("|" + k)
	}
	fmt.Fprintf(&sb, "|%q", s.log)
	for i := 0; i < len(order); i++ {
		o := order[i]
		if ob := s.objs[o]; ob != nil {
			fmt.Fprintf(&sb, "\nO%d %s %v", i, typeName2(ob.typ), ob.fresh)
			if !ob.fresh && ob.named {
				sb.WriteString(ob.name)
			}
			for _, k := range sortedKeys(ob.fields) {
				sb.WriteString(" " + k + "=" + ob.fields[k].str(id))
			}
			for _, k := range sortedKeys(ob.marks) {
				sb.WriteString(" #" + k)
			}
		} else if g := s.segs[o]; g != nil {
			fmt.Fprintf(&sb, "\nG%d %s %s %s %s", i, typeName2(g.typ), g.left.str(id), g.right.str(id), g.parent.str(id))
			for _, k := range sortedKeys(g.marks) {
				sb.WriteString(" #" + k)
			}
		}
	}
	res := sb.String()
	for _, o := range order {
		if ob := s.objs[o]; ob != nil && !ob.named {
			res = strings.ReplaceAll(res, ob.name+".", "O"+num[o]+".")
		}
	}
	return res
}

func typeName2(t types.Type) string {
	if t == nil {
		return "?"
	}
	return typeName(t)
}

func (s *hState) dump(res []hv) string {
	id := func(o int) string { return strconv.Itoa(o) }
	var sb strings.Builder
	for _, r := range res {
		sb.WriteString(" " + r.str(id))
	}
	var ids []int
	for o := range s.objs {
		ids = append(ids, o)
	}
	sort.Ints(ids)
	for _, o := range ids {
		ob := s.objs[o]
		fmt.Fprintf(&sb, "\n  O%d %s %s %v", o, ob.name, typeName2(ob.typ), ob.fresh)
		for _, k := range sortedKeys(ob.fields) {
			sb.WriteString(" " + k + "=" + ob.fields[k].str(id))
		}
	}
	for o, g := range s.segs {
		fmt.Fprintf(&sb, "\n  G%d %s %s %s", o, g.left.str(id), g.right.str(id), g.parent.str(id))
	}
	for _, k := range sortedKeys(s.facts) {
		sb.WriteString("\n  " + k + "=" + s.facts[k].str(id))
	}
	return sb.String()
}

// text: the parts of a text or byte slice.
func (h *hRun) text(s *hState, v hv) ([]string, bool) {
	v = s.resolve(v)
	switch v.k {
	case hNil:
		return nil, true
	case hMk:
		return h.text(s, s.objs[v.o].fields[""])
	case hStr:
		var r []string
		for _, p := range v.l {
			if p.s[0] == 's' {
				if f, ok := s.facts[p.s[1:]]; ok && f.k == hStr {
					q, _ := h.text(s, f)
					r = append(r, q...)
					continue
				}
			}
			if n := len(r); n > 0 && r[n-1][0] == 'c' && p.s[0] == 'c' {
				r[n-1] += p.s[1:]
				continue
			}
			if p.s == "c" {
				continue
			}
			r = append(r, p.s)
		}
		return r, true
	}
	return nil, false
}

func known(parts []string) bool {
	for _, p := range parts {
		if p[0] != 'c' {
			return false
		}
	}
	return true
}

// decide splits a state by a condition.
func (h *hRun) decide(s *hState, c hv, in ssa.Instruction) (yes, no []*hState) {
	switch c.k {
	case hBool:
		if c.n != 0 {
			return []*hState{s}, nil
		}
		return nil, []*hState{s}
	case hNot:
		a, b := h.decide(s, s.resolve(c.l[0]), in)
		return b, a
	case hSym:
		a, b := s.clone(), s
		a.facts[c.s] = hB(true)
		b.facts[c.s] = hB(false)
		return []*hState{a}, []*hState{b}
	case hEq:
		yes, no = h.equal(s, c.l[0], c.l[1], in)
		if c.op == token.NEQ {
			yes, no = no, yes
		}
		return
	}
	return []*hState{s.clone()}, []*hState{s}
}

// source finds the SSA values of the top frame that stand for v, so that what
// is learnt about an unknown value is not forgotten.
func (h *hRun) learn(s *hState, src ssa.Value, v hv) {
	if src == nil {
		return
	}
	s.top().env[src] = v
}

// equal splits a state by whether two values are equal.
func (h *hRun) equal(s *hState, a, b hv, in ssa.Instruction) (yes, no []*hState) {
	a, b = s.resolve(a), s.resolve(b)
	if a.k == hNil || (a.k == hInt || a.k == hBool) && b.k != hInt && b.k != hBool {
		a, b = b, a
	}
	both := func() ([]*hState, []*hState) { return []*hState{s.clone()}, []*hState{s} }
	pick := func(t bool) ([]*hState, []*hState) {
		if t {
			return []*hState{s}, nil
		}
		return nil, []*hState{s}
	}
	switch a.k {
	case hNil:
		if b.k == hNil {
			return pick(true)
		}
	case hInt, hBool:
		if b.k == a.k {
			return pick(a.n == b.n)
		}
	case hRef, hErr, hOpq, hFn, hMk, hClo, hAddr:
		if b.k == hNil {
			return pick(false)
		}
		if a.k == hRef && b.k == hRef {
			return pick(a.o == b.o)
		}
		if b.k == hSym {
			return h.equal(s, b, a, in)
		}
		if a.k == hAddr && b.k == hAddr && a.o == 0 && b.o == 0 && a.s == b.s {
			return pick(true)
		}
	case hSlice:
		if b.k == hNil {
			return pick(len(a.l) == 0)
		}
	case hSym:
		switch b.k {
		case hNil:
			n := s.clone()
			n.facts[a.s] = hv{k: hNil}
			s.facts[a.s] = h.something(s, a)
			return []*hState{n}, []*hState{s}
		case hInt, hBool:
			k := fmt.Sprintf("%s!=%d", a.s, b.n)
			if s.neq[k] {
				return pick(false)
			}
			y := s.clone()
			y.facts[a.s] = b
			s.neq[k] = true
			return []*hState{y}, []*hState{s}
		case hRef:
			k := fmt.Sprintf("%s!=@%d", a.s, b.o)
			if s.neq[k] {
				return pick(false)
			}
			y := s.clone()
			y.facts[a.s] = b
			s.neq[k] = true
			return []*hState{y}, []*hState{s}
		case hSym:
			if a.s == b.s {
				return pick(true)
			}
		}
	case hPos:
		if b.k == hInt && b.n < s.least(a) {
			return pick(false)
		}
		return both()
	case hStr, hLen:
		if b.k == hPos {
			return both()
		}
		if a.k == hLen && b.k == hInt && b.n != 0 {
			if b.n < 0 {
				return pick(false)
			}
			return both()
		}
		if b.k == hInt {
			b = hText()
		}
		if b.k == hNil {
			// a slice against nil: an empty one may or may not be nil
			p, ok := h.text(s, hv{k: hStr, l: a.l})
			if ok && known(p) && len(p) > 0 {
				return pick(false)
			}
			return both()
		}
		p, ok1 := h.text(s, hv{k: hStr, l: a.l})
		q, ok2 := h.text(s, hv{k: hStr, l: b.l})
		if !ok1 || !ok2 || b.k != hStr && b.k != hLen {
			return both()
		}
		x, y := strings.Join(p, "\x00"), strings.Join(q, "\x00")
		if x == y {
			return pick(true)
		}
		if known(p) && known(q) {
			return pick(false)
		}
		for _, pp := range [][2][]string{{p, q}, {q, p}} {
			if len(pp[0]) == 1 && len(pp[1]) > 0 && h.without[pp[0][0]] != "" {
				for _, e := range pp[1] {
					if e[0] == 'c' && strings.ContainsAny(e[1:], h.without[pp[0][0]]) {
						return pick(false)
					}
				}
			}
		}
		nonempty := func(l []string) bool {
			for _, e := range l {
				if e[0] == 'c' && len(e) > 1 {
					return true
				}
			}
			return false
		}
		if x == "" && nonempty(q) || y == "" && nonempty(p) {
			return pick(false)
		}
		if x > y {
			x, y = y, x
		}
		k := x + "!=" + y
		if s.neq[k] {
			return pick(false)
		}
		t := s.clone()
		if len(p) == 1 && p[0][0] == 's' {
			t.facts[p[0][1:]] = hText(q...)
		} else if len(q) == 1 && q[0][0] == 's' {
			t.facts[q[0][1:]] = hText(p...)
		} else if len(q) == 0 || len(p) == 0 {
			for _, e := range append(append([]string(nil), p...), q...) {
				t.facts[e[1:]] = hText()
			}
		}
		s.neq[k] = true
		for _, o := range s.objs {
			for _, pp := range [][2][]string{{p, q}, {q, p}} {
				for _, e := range pp[0] {
					if e[0] == 's' && strings.HasPrefix(e[1:], o.name+".") && len(pp[1]) > 0 {
						o.marks[e[1+len(o.name)+1:]+"!="+strings.Join(pp[1], "+")] = true
					}
				}
			}
		}
		return []*hState{t}, []*hState{s}
	}
	return both()
}

// something is what a pointer or interface that is not nil refers to.
func (h *hRun) something(s *hState, v hv) hv {
	t := v.t
	if t == nil {
		return hv{k: hOpq, s: v.s}
	}
	if p, ok := t.Underlying().(*types.Pointer); ok {
		o := s.obj(v.s, p.Elem())
		s.objs[o].named = false
		if typeName(p.Elem()) == "ElementDecl" {
			// what is declared is of a type other than 'undefined' (checked
			// of everything that is entered into a table: T01)
			s.neq[v.s+".ElementDecl.decltype!=0"] = true
		}
		return hR(o)
	}
	if types.IsInterface(t) {
		if isErrorType(t) {
			return hv{k: hErr}
		}
		if typeName(t) == "Node" {
			o := s.obj(v.s, nil)
			s.objs[o].named = false
			return hR(o)
		}
		return hv{k: hOpq, s: v.s, t: t}
	}
	if m, ok := t.Underlying().(*types.Map); ok {
		o := s.obj(v.s, m)
		s.objs[o].named = false
		return hR(o)
	}
	return hv{k: hOpq, s: v.s, t: t}
}

// note remembers that something happened.
func (s *hState) note(what string) {
	if !has(s.log, what) {
		s.log = append(s.log, what)
	}
}
