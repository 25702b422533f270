package main

import (
	"container/heap"
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ghost slots
const (
	gProg   = iota // relative: a real character was consumed since entry
	gEl            // relative: StartElement minus EndElement events
	gElMin         // relative: lowest gEl reached (<=0)
	gElIn          // at entry: 0 outside the root element, 1 inside
	gNode          // relative: element stack pushes minus pops
	gDoc           // document life cycle
	gRoots         // number of root elements (0,1,2=many)
	gDTD           // 0 none, 1 doctype announced, 2 external subset announced
	gSax           // 1: a handler returned an error
	gOut           // id of a callee whose error has not been passed on
	gQName         // inside qualified-name parsing
	gUnspec        // 1: a handler declined an event
	gAtt           // attribute uniqueness
	gSubDoc        // parsing a nested (entity) context
	gAux1
	gAux2
	gAnn    // events announced by the construct being parsed
	gAnnAtt // an attribute declaration is not announced yet
	gAnnRef // references not announced yet, one bit per level
)

var relGhost = map[int]bool{gProg: true, gEl: true, gElMin: true, gNode: true}

// Exit is one way a function can return.
type Exit struct {
	st  *State
	res []AVal
}

type summary struct {
	exits []Exit
	discs []string
	sets  []string
}

func (s *summary) sig() string {
	if s == nil {
		return ""
	}
	var l []string
	for i := range s.discs {
		l = append(l, s.discs[i]+"@"+s.sets[i])
	}
	sort.Strings(l)
	return strings.Join(l, "\n")
}

type fnInfo struct {
	fn      *ssa.Function
	keys    []evar // all env keys in order
	num     map[ssa.Value]int
	livein  []map[ssa.Value]bool
	rpo     []int // block index -> rpo number
	headers map[int]map[int]bool
	liveKey [][]evar
	phiSym  map[*ssa.Phi]bool
}

// winPhi reports whether an integer phi can index the input lookahead: it
// flows, possibly with an added constant, into a call or into memory.
func (fi *fnInfo) winPhi(ph *ssa.Phi, a *Analysis) bool {
	if v, ok := fi.phiSym[ph]; ok {
		return v
	}
	if fi.phiSym == nil {
		fi.phiSym = map[*ssa.Phi]bool{}
	}
	seen := map[ssa.Value]bool{}
	var flows func(v ssa.Value) bool
	flows = func(v ssa.Value) bool {
		if seen[v] || v.Referrers() == nil {
			return false
		}
		seen[v] = true
		for _, in := range *v.Referrers() {
			switch x := in.(type) {
			case *ssa.BinOp:
				if flows(x) {
					return true
				}
			case *ssa.Phi:
				if flows(x) {
					return true
				}
			case *ssa.Convert:
				if flows(x) {
					return true
				}
			case *ssa.Store:
				if x.Val == v {
					return true
				}
			case *ssa.Return:
				return true
			case ssa.CallInstruction:
				cc := x.Common()
				if _, isB := cc.Value.(*ssa.Builtin); isB {
					continue
				}
				if sc := cc.StaticCallee(); sc != nil && a.p.inModule(sc) {
					if f := a.footprints()[sc]; f != nil && !f.cursor && !f.all {
						continue
					}
				}
				return true
			}
		}
		return false
	}
	r := flows(ph)
	fi.phiSym[ph] = r
	return r
}

// Client receives events of the analysed paths.
type Client interface {
	// SAX is called for each handler call; it may change the ghost state and
	// returns the states to continue with, results already bound.
	Panic(fr *Frame, st *State, in *ssa.Panic)
	Event(fr *Frame, st *State, method string, args []AVal, in ssa.CallInstruction)
	AfterEvent(fr *Frame, st *State, method string, class int)
	Advance(fr *Frame, st *State, in ssa.CallInstruction, ok bool, why string)
	Consumed(fr *Frame, st *State, in ssa.CallInstruction, chars *Set)
	LoopStall(fr *Frame, st *State, header *ssa.BasicBlock, from *ssa.BasicBlock)
	Return(fr *Frame, st *State, in *ssa.Return, res []AVal)
	AfterCall(fr *Frame, st *State, in ssa.CallInstruction, callee *ssa.Function, res []AVal)
	Enter(fr *Frame, st *State)
	Branch(fr *Frame, st *State, in *ssa.If, taken bool)
	TypeAssert(fr *Frame, st *State, in *ssa.TypeAssert, ok int)
	NilDeref(fr *Frame, st *State, in ssa.Instruction, what string, definite bool)
}

type Analysis struct {
	p         *Program
	cl        Client
	infos     map[*ssa.Function]*fnInfo
	memo      map[string]*summary
	prev      map[string]*summary
	busy      map[string]bool
	usedBusy  map[string]bool
	stack     []*Frame
	keepLB    bool
	progress  bool // track per-loop progress
	tracked   map[string]bool
	havoc     map[string]bool // fields handlers may change
	opaque    func(*ssa.Function) bool
	sentinel  map[*ssa.Global]int64
	sentName  map[int64]string
	steps     int
	maxSteps  int
	overflow  string
	fnSeen    map[*ssa.Function]int
	nCalls    int
	loopsOK   map[string]int
	final     bool
	calleeID  map[*ssa.Function]int16
	calleeBy  []*ssa.Function
	ctxType   types.Type
	trace     bool
	debugFn   string
	modGlob   map[*ssa.Global]bool
	pools     map[*ssa.Global]types.Type
	blocksRun map[*ssa.Function]int
	lastProg  int16    // input consumed by the callee that just returned
	lastFoot  *foot
	evNames   []string // names behind small ghost values
	evIdx     map[string]int16
}

type Frame struct {
	a      *Analysis
	fn     *ssa.Function
	info   *fnInfo
	pin    int32
	ctxObj int32
	call   ssa.CallInstruction
	parent *Frame
}

func (fr *Frame) chain() string {
	var l []string
	for f := fr; f != nil; f = f.parent {
		l = append(l, shortFn(f.fn))
	}
	for i, j := 0, len(l)-1; i < j; i, j = i+1, j-1 {
		l[i], l[j] = l[j], l[i]
	}
	if len(l) > 9 {
		l = append(l[:3], append([]string{"..."}, l[len(l)-5:]...)...)
	}
	return strings.Join(l, " > ")
}

// within reports whether the frame runs (transitively) inside fn named name.
func (fr *Frame) within(names ...string) bool {
	for f := fr; f != nil; f = f.parent {
		for _, n := range names {
			if f.fn.Name() == n {
				return true
			}
		}
	}
	return false
}

func newAnalysis(p *Program, cl Client) *Analysis {
	a := &Analysis{p: p, cl: cl, infos: map[*ssa.Function]*fnInfo{}, sentinel: map[*ssa.Global]int64{}, sentName: map[int64]string{},
		maxSteps: 40_000_000, blocksRun: map[*ssa.Function]int{}, fnSeen: map[*ssa.Function]int{}, calleeID: map[*ssa.Function]int16{}, calleeBy: []*ssa.Function{nil}, loopsOK: map[string]int{}}
	if o := p.root().Pkg.Scope().Lookup("parserCtx"); o != nil {
		a.ctxType = o.Type()
	}
	a.opaque = func(*ssa.Function) bool { return false }
	a.computeModGlobals()
	return a
}

// computeModGlobals finds package variables stored to outside initialisers.
func (a *Analysis) computeModGlobals() {
	a.modGlob = map[*ssa.Global]bool{}
	for _, fn := range a.p.funcs {
		if fn.Synthetic != "" && fn.Name() == "init" {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if st, ok := in.(*ssa.Store); ok {
					if g, ok := st.Addr.(*ssa.Global); ok {
						a.modGlob[g] = true
					}
				}
			}
		}
	}
}

// evID numbers a name so that a ghost slot can hold it.
func (a *Analysis) evID(name string) int16 {
	if i, ok := a.evIdx[name]; ok {
		return i
	}
	if a.evIdx == nil {
		a.evIdx = map[string]int16{}
		a.evNames = []string{""}
	}
	i := int16(len(a.evNames))
	a.evNames = append(a.evNames, name)
	a.evIdx[name] = i
	return i
}

func (a *Analysis) sentinelClass(g *ssa.Global) int64 {
	if c, ok := a.sentinel[g]; ok {
		return c
	}
	c := int64(len(a.sentinel) + 2)
	a.sentinel[g] = c
	a.sentName[c] = g.Name()
	return c
}

func (a *Analysis) calleeIdx(fn *ssa.Function) int16 {
	if i, ok := a.calleeID[fn]; ok {
		return i
	}
	i := int16(len(a.calleeBy))
	a.calleeBy = append(a.calleeBy, fn)
	a.calleeID[fn] = i
	return i
}

func (a *Analysis) info(fn *ssa.Function) *fnInfo {
	if i, ok := a.infos[fn]; ok {
		return i
	}
	fi := &fnInfo{fn: fn, num: map[ssa.Value]int{}, headers: map[int]map[int]bool{}}
	add := func(v ssa.Value) {
		fi.num[v] = len(fi.num)
		n := 1
		if t, ok := v.Type().(*types.Tuple); ok {
			n = t.Len()
		}
		for i := 0; i < n; i++ {
			fi.keys = append(fi.keys, evar{v, i})
		}
	}
	for _, p := range fn.Params {
		add(p)
	}
	for _, p := range fn.FreeVars {
		add(p)
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if v, ok := in.(ssa.Value); ok {
				add(v)
			}
		}
	}
	// liveness
	nb := len(fn.Blocks)
	fi.livein = make([]map[ssa.Value]bool, nb)
	use := make([]map[ssa.Value]bool, nb)
	def := make([]map[ssa.Value]bool, nb)
	for i, b := range fn.Blocks {
		use[i], def[i], fi.livein[i] = map[ssa.Value]bool{}, map[ssa.Value]bool{}, map[ssa.Value]bool{}
		for _, in := range b.Instrs {
			if _, isPhi := in.(*ssa.Phi); !isPhi {
				for _, op := range in.Operands(nil) {
					if *op == nil {
						continue
					}
					if _, tracked := fi.num[*op]; tracked && !def[i][*op] {
						use[i][*op] = true
					}
				}
			}
			if v, ok := in.(ssa.Value); ok {
				def[i][v] = true
			}
		}
	}
	for changed := true; changed; {
		changed = false
		for i := nb - 1; i >= 0; i-- {
			b := fn.Blocks[i]
			out := map[ssa.Value]bool{}
			for _, s := range b.Succs {
				pi := predIndex(s, b)
				for v := range fi.livein[s.Index] {
					if ph, ok := v.(*ssa.Phi); ok && ph.Block() == s {
						continue
					}
					out[v] = true
				}
				for _, in := range s.Instrs {
					ph, ok := in.(*ssa.Phi)
					if !ok {
						break
					}
					for pidx, pb := range s.Preds {
						if pb == b {
							if _, tr := fi.num[ph.Edges[pidx]]; tr {
								out[ph.Edges[pidx]] = true
							}
						}
					}
				}
				_ = pi
			}
			in := map[ssa.Value]bool{}
			for v := range use[i] {
				in[v] = true
			}
			for v := range out {
				if !def[i][v] {
					in[v] = true
				}
			}
			// phis of this block are considered live-in at block entry
			for _, ins := range b.Instrs {
				if ph, ok := ins.(*ssa.Phi); ok {
					in[ph] = true
				}
			}
			if len(in) != len(fi.livein[i]) {
				fi.livein[i] = in
				changed = true
			}
		}
	}
	// a phi that is never used after all need not be kept; approximate: keep if it has referrers
	fi.liveKey = make([][]evar, nb)
	for i := range fn.Blocks {
		for _, k := range fi.keys {
			if fi.livein[i][k.v] {
				fi.liveKey[i] = append(fi.liveKey[i], k)
			}
		}
	}
	// natural loops
	for _, b := range fn.Blocks {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				body := fi.headers[s.Index]
				if body == nil {
					body = map[int]bool{s.Index: true}
					fi.headers[s.Index] = body
				}
				var st []*ssa.BasicBlock
				if !body[b.Index] {
					body[b.Index] = true
					st = append(st, b)
				}
				for len(st) > 0 {
					x := st[len(st)-1]
					st = st[:len(st)-1]
					for _, p := range x.Preds {
						if !body[p.Index] {
							body[p.Index] = true
							st = append(st, p)
						}
					}
				}
			}
		}
	}
	fi.rpo = make([]int, nb)
	seen := make([]bool, nb)
	n := nb
	var dfs func(b *ssa.BasicBlock)
	dfs = func(b *ssa.BasicBlock) {
		seen[b.Index] = true
		for _, s := range b.Succs {
			if !seen[s.Index] {
				dfs(s)
			}
		}
		n--
		fi.rpo[b.Index] = n
	}
	if nb > 0 {
		dfs(fn.Blocks[0])
	}
	a.infos[fn] = fi
	return fi
}

func predIndex(b, pred *ssa.BasicBlock) int {
	for i, p := range b.Preds {
		if p == pred {
			return i
		}
	}
	return -1
}

// ---------------------------------------------------------------- values

func (a *Analysis) val(st *State, v ssa.Value) AVal {
	switch x := v.(type) {
	case *ssa.Const:
		return constVal(x)
	case *ssa.Function:
		return vFn(x)
	case *ssa.Global:
		return AVal{k: kGlob, ref: x}
	case *ssa.Builtin:
		return vTop
	}
	return st.env[evar{v, 0}]
}

// ensure gives an unknown value an identity so that branches can refine it.
func (a *Analysis) ensure(st *State, v ssa.Value) AVal {
	av := a.val(st, v)
	if av.k == kTop {
		if _, isC := v.(*ssa.Const); isC {
			return av
		}
		id := st.fresh(typeBound(v.Type()))
		av = vCell(id)
		st.env[evar{v, 0}] = av
	}
	return av
}

func (a *Analysis) set(st *State, v ssa.Value, av AVal) {
	st.env[evar{v, 0}] = av
}

// refineVal narrows an abstract value to set; false means infeasible.
func (st *State) refineVal(av AVal, set *Set, t types.Type) bool {
	switch av.k {
	case kCell:
		return st.refineCell(av.id, set)
	case kAff:
		return st.refineCell(av.id, set.Shift(-av.off))
	case kTop:
		return true
	default:
		return !st.setOf(av, t).Inter(set).Empty()
	}
}

// ---------------------------------------------------------------- function analysis

type workItem struct {
	rpo  int
	seq  int
	blk  int
	disc string
}
type workHeap []workItem

func (h workHeap) Len() int { return len(h) }
func (h workHeap) Less(i, j int) bool {
	if h[i].rpo != h[j].rpo {
		return h[i].rpo < h[j].rpo
	}
	return h[i].seq < h[j].seq
}
func (h workHeap) Swap(i, j int)       { h[i], h[j] = h[j], h[i] }
func (h *workHeap) Push(x interface{}) { *h = append(*h, x.(workItem)) }
func (h *workHeap) Pop() interface{} {
	o := *h
	x := o[len(o)-1]
	*h = o[:len(o)-1]
	return x
}

type stored struct {
	st     *State
	order  []int32
	visits int
	queued bool
}

type run struct {
	a      *Analysis
	fr     *Frame
	blocks []map[string]*stored
	work   workHeap
	seq    int
	sum    *summary
	exits  map[string]*stored
	exRes  map[string][]AVal
	exOrd  []string
}

// analyse computes the exits of fn from the canonical entry state.
func (a *Analysis) analyse(fn *ssa.Function, entry canonResult, call ssa.CallInstruction, parent *Frame, ctxObj int32) *summary {
	key := fmt.Sprintf("%p|%d|%s|%s", fn, ctxObj, entry.disc, entry.setsKey())
	if s, ok := a.memo[key]; ok {
		return s
	}
	if a.busy[key] {
		a.usedBusy[key] = true
		if s := a.prev[key]; s != nil {
			return s
		}
		return &summary{}
	}
	a.busy[key] = true
	defer delete(a.busy, key)
	a.fnSeen[fn]++
	fi := a.info(fn)
	fr := &Frame{a: a, fn: fn, info: fi, pin: entry.st.next, ctxObj: ctxObj, call: call, parent: parent}
	a.stack = append(a.stack, fr)
	r := &run{a: a, fr: fr, blocks: make([]map[string]*stored, len(fn.Blocks)), exits: map[string]*stored{}, exRes: map[string][]AVal{}}
	for i := range r.blocks {
		r.blocks[i] = map[string]*stored{}
	}
	st := entry.st.clone()
	a.cl.Enter(fr, st)
	r.arrive(st, nil, fn.Blocks[0])
	for len(r.work) > 0 && a.overflow == "" {
		a.blocksRun[fn]++
		w := heap.Pop(&r.work).(workItem)
		sd := r.blocks[w.blk][w.disc]
		sd.queued = false
		r.execBlock(fn.Blocks[w.blk], sd.st.clone())
	}
	a.stack = a.stack[:len(a.stack)-1]
	sum := &summary{}
	for _, d := range r.exOrd {
		sd := r.exits[d]
		sum.exits = append(sum.exits, Exit{st: sd.st, res: r.exRes[d]})
		sum.discs = append(sum.discs, d)
		sum.sets = append(sum.sets, canonResult{st: sd.st, order: sd.order}.setsKey())
	}
	a.memo[key] = sum
	return sum
}

const maxStatesPerBlock = 6000

// coarseAt is the number of abstract states of one block above which further
// states are generalised before they are stored.
const coarseAt = 64

// coarsen forgets distinctions that rarely matter: exact strings become their
// lengths, and lookahead relative to loop symbols is dropped.
func (st *State) coarsen(live []evar) {
	for _, k := range live {
		if v, ok := st.env[k]; ok && v.k == kStr && isLenType(k.v.Type()) {
			st.env[k] = vCell(st.fresh(single(int64(len(v.path)))))
		}
	}
	for k := range st.win {
		if k.sym == 0 && k.off > 3 {
			delete(st.win, k)
		}
	}
}

// arrive merges a state (already past the phi assignments of blk) into blk.
func (r *run) arrive(st *State, from, blk *ssa.BasicBlock) {
	a := r.a
	m := r.blocks[blk.Index]
	if len(m) > coarseAt {
		st.coarsen(r.fr.info.liveKey[blk.Index])
	}
	c := st.canonicalise(r.fr.info.liveKey[blk.Index], nil, r.fr.pin, a.keepLB)
	sd := m[c.disc]
	if a.trace {
		fmt.Printf("ARRIVE %s b%d new=%v n=%d %s  SETS %s\n", shortFn(r.fr.fn), blk.Index, sd == nil, len(m), c.disc, c.dump())
	}
	if sd == nil {
		if len(m) > maxStatesPerBlock {
			a.overflow = fmt.Sprintf("too many abstract states in %s block %d", shortFn(r.fr.fn), blk.Index)
			return
		}
		sd = &stored{st: c.st, order: c.order, visits: 1}
		m[c.disc] = sd
		if a.debugFn != "" && shortFn(r.fr.fn) == a.debugFn && len(m) > 250 && len(m) < 260 {
			fmt.Printf("DISC %s b%d %q\n   %v\n", a.debugFn, blk.Index, c.disc, c.dump())
		}
	} else {
		changed := false
		for _, id := range sd.order {
			o, n := sd.st.cells[id], c.st.cells[id]
			if o == nil || n == nil || o.set == n.set {
				continue
			}
			u := o.set.Union(n.set)
			if u == o.set {
				continue
			}
			if sd.visits > 12 {
				// widen
				lo, hi := u.Min(), u.Max()
				if lo < o.set.Min() {
					u = u.Union(interval(minI, lo))
				}
				if hi > o.set.Max() {
					u = u.Union(interval(hi, maxI))
				}
				if sd.visits > 40 {
					u = interval(u.Min(), u.Max())
				}
			}
			nc := *o
			nc.set = u
			sd.st.cells[id] = &nc
			changed = true
		}
		if !changed {
			return
		}
		sd.visits++
	}
	if !sd.queued {
		sd.queued = true
		r.seq++
		heap.Push(&r.work, workItem{rpo: r.fr.info.rpo[blk.Index], seq: r.seq, blk: blk.Index, disc: c.disc})
	}
}

const (
	winLo = -3
	winHi = 3
)

// rngAt is the set of characters at window positions 1..sym+d.
func (st *State) rngAt(sym int32, d int32) *Set {
	res := anyRune
	for k, id := range st.rng {
		if k.sym != sym || k.off > d || st.cells[id] == nil {
			continue
		}
		s := st.cells[id].set
		ok := true
		for o := k.off + 1; o <= d; o++ {
			w, has := st.win[widx{sym, o}]
			if !has {
				ok = false
				break
			}
			s = s.Union(st.cells[w].set)
		}
		if ok {
			res = res.Inter(s)
		}
	}
	return res
}

// toSym turns an integer into a fresh loop symbol carrying the window view.
func (st *State) toSym(av AVal, win bool) AVal {
	switch av.k {
	case kInt:
		c := av.off
		id := st.fresh(single(c))
		if !win {
			return AVal{k: kAff, id: id}
		}
		for o := int64(winLo); o <= winHi; o++ {
			if c+o >= 1 && c+o < 1<<20 {
				if ci, ok := st.win[widx{0, int32(c + o)}]; ok {
					st.win[widx{id, int32(o)}] = ci
				}
			}
		}
		for d := int64(-2); d <= 1; d++ {
			u := emptySet
			if c+d > 16 {
				u = anyRune
			}
			for k := int64(1); k <= c+d && k <= 16; k++ {
				if ci, ok := st.win[widx{0, int32(k)}]; ok {
					u = u.Union(st.cells[ci].set)
				} else {
					u = anyRune
				}
			}
			if d <= 0 || u != anyRune {
				st.rng[widx{id, int32(d)}] = st.fresh(u)
			}
		}
		return AVal{k: kAff, id: id}
	case kAff:
		sc := st.cells[av.id]
		id := st.fresh(sc.set.Shift(av.off))
		if !win {
			return AVal{k: kAff, id: id}
		}
		k := int32(av.off)
		for o := int32(winLo); o <= winHi; o++ {
			if ci, ok := st.win[widx{av.id, o + k}]; ok {
				st.win[widx{id, o}] = ci
			}
		}
		for d := int32(-2); d <= 0; d++ {
			st.rng[widx{id, d}] = st.fresh(st.rngAt(av.id, d+k))
		}
		return AVal{k: kAff, id: id}
	}
	return av
}

// edge moves a state along from->to, evaluating phis.
func (r *run) edge(st *State, from, to *ssa.BasicBlock, predIdx int) {
	a := r.a
	fi := r.fr.info
	body, isHeader := fi.headers[to.Index]
	back := isHeader && body[from.Index]
	type as struct {
		ph *ssa.Phi
		v  AVal
	}
	var asg []as
	for _, in := range to.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		asg = append(asg, as{ph, a.val(st, ph.Edges[predIdx])})
	}
	scanProgress := false
	if back {
		// ranking by lookahead index or by a shrinking slice, per phi
		for _, x := range asg {
			old := st.env[evar{x.ph, 0}]
			if x.v.k == kAff && old.k == kAff && x.v.id == old.id && x.v.off >= 1 {
				ok := true
				for o := int64(1); o <= x.v.off; o++ {
					ci, has := st.win[widx{old.id, int32(o + old.off)}]
					if !has || st.cells[ci].set.Has(0xFFFD) {
						// maybe the scanned char is at S (index phi one-based)
						ok = false
						break
					}
				}
				if !ok {
					ok = true
					for o := int64(0); o < x.v.off; o++ {
						ci, has := st.win[widx{old.id, int32(o + old.off)}]
						if !has || st.cells[ci].set.Has(0xFFFD) {
							ok = false
							break
						}
					}
				}
				if ok {
					scanProgress = true
				}
			}
			if x.v.k == kCell && old.k == kCell && isLenType(x.ph.Type()) {
				if c := st.cells[x.v.id]; c != nil && c.base == old.id && c.drop >= 1 {
					scanProgress = true
				}
			}
		}
		if a.progress {
			if !st.prog[to.Index] && !scanProgress {
				a.cl.LoopStall(r.fr, st, to, from)
			}
		}
	}
	for _, x := range asg {
		v := x.v
		if isHeader {
			if b, ok := x.ph.Type().Underlying().(*types.Basic); ok && b.Kind() == types.Int && loopCarried(x.ph) {
				v = st.toSym(v, fi.winPhi(x.ph, a))
			}
		}
		st.env[evar{x.ph, 0}] = v
	}
	if isHeader {
		// integers kept in memory are loop-carried too
		for id, o := range st.objs {
			if b, ok := o.typ.(*types.Basic); ok && o.fn == nil && b.Kind() == types.Int {
				if v, has := o.fields[""]; has && (v.k == kInt || v.k == kAff && v.off != 0) {
					st.objs[id] = o.with("", st.toSym(v, true))
				}
			}
		}
	}
	if isHeader && a.progress {
		st.prog[to.Index] = false
	}
	for h := range st.prog {
		if h != to.Index || !isHeader {
			if b := fi.headers[h]; b != nil && !b[to.Index] {
				delete(st.prog, h)
			}
		}
	}
	r.arrive(st, from, to)
}

func loopCarried(ph *ssa.Phi) bool {
	b := ph.Block()
	for i, p := range b.Preds {
		if b.Dominates(p) && ph.Edges[i] != ssa.Value(ph) {
			return true
		}
	}
	return false
}

func (r *run) execBlock(b *ssa.BasicBlock, st *State) {
	i := 0
	for i < len(b.Instrs) {
		if _, ok := b.Instrs[i].(*ssa.Phi); !ok {
			break
		}
		i++
	}
	r.execFrom(b, i, st)
}

func (r *run) execFrom(b *ssa.BasicBlock, i int, st *State) {
	a := r.a
	for ; i < len(b.Instrs); i++ {
		a.steps++
		if a.steps > a.maxSteps {
			a.overflow = "step budget exceeded"
			return
		}
		switch in := b.Instrs[i].(type) {
		case *ssa.If:
			c := a.val(st, in.Cond)
			s := st.setOf(c, in.Cond.Type()).Inter(boolSet)
			t, f := s.Has(1), s.Has(0)
			go2 := func(st *State, n int) {
				a.cl.Branch(r.fr, st, in, n == 0)
				r.edge(st, b, b.Succs[n], predIndexN(b, n))
			}
			if t && f {
				st2 := st.clone()
				if c.k == kCell {
					if st.refineCell(c.id, single(1)) {
						go2(st, 0)
					}
					if st2.refineCell(c.id, single(0)) {
						go2(st2, 1)
					}
					return
				}
				go2(st, 0)
				go2(st2, 1)
			} else if t {
				go2(st, 0)
			} else if f {
				go2(st, 1)
			}
			return
		case *ssa.Jump:
			r.edge(st, b, b.Succs[0], predIndexN(b, 0))
			return
		case *ssa.Panic:
			a.cl.Panic(r.fr, st, in)
			return
		case *ssa.Return:
			r.doReturn(st, in)
			return
		case *ssa.RunDefers:
			sts := r.runDefers(st, in)
			for _, s2 := range sts {
				r.execFrom(b, i+1, s2)
			}
			return
		default:
			outs := r.step(st, in)
			if len(outs) == 1 && outs[0] == st {
				continue
			}
			for _, s2 := range outs {
				r.execFrom(b, i+1, s2)
			}
			return
		}
	}
}

// predIndexN gives the index of edge b->b.Succs[n] in the successor's Preds.
func predIndexN(b *ssa.BasicBlock, n int) int {
	s := b.Succs[n]
	// if both successors are the same block the preds list has b twice
	cnt := 0
	for j := 0; j < n; j++ {
		if b.Succs[j] == s {
			cnt++
		}
	}
	for i, p := range s.Preds {
		if p == b {
			if cnt == 0 {
				return i
			}
			cnt--
		}
	}
	return 0
}

func (r *run) runDefers(st *State, in *ssa.RunDefers) []*State {
	states := []*State{st}
	for {
		var next []*State
		done := true
		for _, s := range states {
			if len(s.defers) == 0 {
				next = append(next, s)
				continue
			}
			done = false
			d := s.defers[len(s.defers)-1]
			s.defers = s.defers[:len(s.defers)-1]
			fn, binds := r.a.resolveFn(s, d.fn)
			if fn == nil || fn.Blocks == nil || !r.a.p.inModule(fn) {
				next = append(next, s)
				continue
			}
			for _, o := range r.callFn(s, fn, binds, d.args, nil, nil) {
				next = append(next, o)
			}
		}
		states = next
		if done {
			return states
		}
	}
}

func (r *run) doReturn(st *State, in *ssa.Return) {
	res := make([]AVal, len(in.Results))
	for i, v := range in.Results {
		res[i] = r.a.val(st, v)
	}
	r.a.cl.Return(r.fr, st, in, res)
	var relevant []AVal
	for i, v := range in.Results {
		x := res[i]
		// constants of plain integer type become intervals at exits
		if x.k == kInt {
			if bt, ok := v.Type().(*types.Basic); ok && (bt.Kind() == types.Int || bt.Kind() == types.Int32 || bt.Kind() == types.Int64) {
				x = vCell(st.fresh(single(x.off)))
				res[i] = x
			}
		}
		if x.k == kInt && isErrorType(v.Type()) {
			x = vCell(st.fresh(single(x.off)))
			res[i] = x
		}
		relevant = append(relevant, x)
	}
	st.env = map[evar]AVal{}
	st.prog = map[int]bool{}
	st.defers = nil
	st.ghost[gOut] = 0
	c := st.canonicalise(nil, relevant, r.fr.pin, r.a.keepLB)
	for i := range res {
		switch res[i].k {
		case kCell, kAff:
			n, ok := c.cells[res[i].id]
			if !ok {
				res[i] = vTop
			} else {
				res[i].id = n
			}
		case kObj:
			n, ok := c.objs[res[i].id]
			if !ok {
				res[i] = vTop
			} else {
				res[i].id = n
			}
		}
	}
	sd := r.exits[c.disc]
	if sd == nil {
		r.exits[c.disc] = &stored{st: c.st, order: c.order}
		r.exRes[c.disc] = res
		r.exOrd = append(r.exOrd, c.disc)
		return
	}
	for _, id := range sd.order {
		o, n := sd.st.cells[id], c.st.cells[id]
		if o == nil || n == nil || o.set == n.set {
			continue
		}
		nc := *o
		nc.set = o.set.Union(n.set)
		sd.st.cells[id] = &nc
	}
}

// resolveFn resolves a callable value to a function and its bindings.
func (a *Analysis) resolveFn(st *State, v AVal) (*ssa.Function, []AVal) {
	switch v.k {
	case kFunc:
		return v.ref.(*ssa.Function), nil
	case kObj:
		o := st.objs[v.id]
		if o != nil && o.fn != nil {
			var b []AVal
			for i := range o.fn.FreeVars {
				b = append(b, o.fields[fmt.Sprintf("b%d", i)])
			}
			return o.fn, b
		}
	}
	return nil, nil
}

// callFn inlines fn.  dst, if non-nil, is the call value that receives results.
func (r *run) callFn(st *State, fn *ssa.Function, binds []AVal, args []AVal, dst ssa.Value, in ssa.CallInstruction) []*State {
	a := r.a
	a.nCalls++
	if bc, ok := a.cl.(interface {
		BeforeCall(fr *Frame, st *State, in ssa.CallInstruction, fn *ssa.Function)
	}); ok && in != nil {
		bc.BeforeCall(r.fr, st, in, fn)
	}
	// build the callee entry state
	es := st.clone()
	es.env = map[evar]AVal{}
	es.prog = map[int]bool{}
	es.defers = nil
	ctxObj := int32(0)
	ctxCount := 0
	note := func(v AVal) {
		if v.k == kObj && v.path == "" {
			if o := st.objs[v.id]; o != nil && o.typ != nil && a.ctxType != nil && types.Identical(o.typ, a.ctxType) {
				if ctxCount == 0 {
					ctxObj = v.id
				}
				ctxCount++
			}
		}
	}
	for i, p := range fn.Params {
		if i < len(args) {
			es.env[evar{p, 0}] = args[i]
			note(args[i])
		}
	}
	for i, p := range fn.FreeVars {
		if i < len(binds) {
			es.env[evar{p, 0}] = binds[i]
			note(binds[i])
			// captured variable holding the ctx
			if binds[i].k == kObj {
				if o := st.objs[binds[i].id]; o != nil && binds[i].path == "" {
					note(o.fields[""])
				}
			}
		}
	}
	ownWin := true
	ft := a.footprints()[fn]
	if ft == nil {
		ft = &foot{cursor: true, sax: true, all: true}
	}
	// frame rule: what the callee cannot touch is not passed and survives
	frameGhost := !ft.cursor && !ft.sax && !ft.all
	frameWin := !ft.cursor && !ft.all
	if ctxObj != 0 && r.fr.ctxObj != 0 && ctxObj != r.fr.ctxObj {
		ownWin = false
	}
	if !ownWin || frameWin {
		ownWin = false
		es.win = map[widx]int32{}
		es.rng = map[widx]int32{}
		es.lb = [lbMax]int32{}
	}
	nested := ctxObj != 0 && r.fr.ctxObj != 0 && ctxObj != r.fr.ctxObj
	if ctxObj == 0 {
		ctxObj = r.fr.ctxObj
	}
	for g := range relGhost {
		es.ghost[g] = 0
	}
	es.ghost[gOut] = 0
	es.ghost[gUnspec] = 0
	if nested {
		es.ghost[gSubDoc] = 1
	}
	// absolute "inside an element" bit
	es.ghost[gElIn] = insideNow(st)
	if frameGhost {
		es.ghost = Ghost{}
	}
	// recursion: unbounded integer arguments (nesting depths) lose their exact value
	if r.onStack(fn) {
		for _, p := range fn.Params {
			k := evar{p, 0}
			if b, ok := p.Type().(*types.Basic); ok && b.Kind() == types.Int {
				if v := es.env[k]; v.k == kInt || v.k == kAff {
					es.env[k] = vCell(es.fresh(fullInt))
				}
			}
		}
	}
	for id, o := range es.objs {
		if a.isCtx(o) {
			for _, s := range stackSlots {
				in := int64(0)
				if o.fields[s].off > 0 || (o.fields[s+"in"].off == 1 && o.fields[s].off >= 0) {
					in = 1
				}
				o = o.with(s, vInt(0)).with(s+"in", vInt(in))
			}
			es.objs[id] = o
		}
	}
	var keys []evar
	keys = append(keys, r.a.info(fn).keys[:len(fn.Params)+len(fn.FreeVars)]...)
	ent := es.canonicalise(keys, nil, 0, a.keepLB)
	ctxCanon := int32(0)
	if ctxObj != 0 {
		ctxCanon = ent.objs[ctxObj]
		if ctxCanon == 0 {
			ctxCanon = -1
		}
	}
	sum := a.analyse(fn, ent, in, r.fr, ctxCanon)
	// inverse maps
	invC := map[int32]int32{}
	for o, n := range ent.cells {
		invC[n] = o
	}
	invO := map[int32]int32{}
	for o, n := range ent.objs {
		invO[n] = o
	}
	var outs []*State
	for xi := range sum.exits {
		ex := &sum.exits[xi]
		ns := st.clone()
		cm := map[int32]int32{}
		om := map[int32]int32{}
		var mc func(id int32) int32
		mc = func(id int32) int32 {
			if id == 0 {
				return 0
			}
			if x, ok := cm[id]; ok {
				return x
			}
			c := ex.st.cells[id]
			if c == nil {
				return 0
			}
			var t int32
			if o, ok := invC[id]; ok {
				t = o
			} else {
				ns.next++
				t = ns.next
			}
			cm[id] = t
			nc := *c
			if nc.base != 0 {
				nc.base = mc(nc.base)
			}
			ns.cells[t] = &nc
			return t
		}
		var mo func(id int32) int32
		var mv func(v AVal) AVal
		mo = func(id int32) int32 {
			if x, ok := om[id]; ok {
				return x
			}
			o := ex.st.objs[id]
			if o == nil {
				return 0
			}
			var t int32
			if oo, ok := invO[id]; ok {
				t = oo
			} else {
				ns.next++
				t = ns.next
			}
			om[id] = t
			no := &obj{typ: o.typ, fn: o.fn, zero: o.zero, fields: map[string]AVal{}}
			ns.objs[t] = no
			for f, v := range o.fields {
				no.fields[f] = mv(v)
			}
			if oo, ok := invO[id]; ok && a.isCtx(o) {
				old := st.objs[oo]
				for _, s := range stackSlots {
					n := int64(satG(int16(old.fields[s].off + o.fields[s].off)))
					no.fields[s] = vInt(n)
					no.fields[s+"in"] = vInt(old.fields[s+"in"].off)
				}
			}
			return t
		}
		mv = func(v AVal) AVal {
			switch v.k {
			case kCell, kAff:
				v.id = mc(v.id)
				if v.id == 0 {
					return vTop
				}
			case kObj:
				v.id = mo(v.id)
				if v.id == 0 {
					return vTop
				}
			}
			return v
		}
		for id := int32(1); id <= ent.st.next; id++ {
			if ex.st.cells[id] != nil {
				mc(id)
			} else if ex.st.objs[id] != nil {
				mo(id)
			}
		}
		if ownWin {
			ns.win = map[widx]int32{}
			ns.rng = map[widx]int32{}
			for k, v := range ex.st.win {
				s := k.sym
				if s != 0 {
					s = mc(s)
				}
				ns.win[widx{s, k.off}] = mc(v)
			}
			for k, v := range ex.st.rng {
				ns.rng[widx{mc(k.sym), k.off}] = mc(v)
			}
			// symbols the callee could not see: still valid only if it did not consume
			if ex.st.ghost[gProg] == 0 && ex.st.ghost[gAux1] == st.ghost[gAux1] {
				for k, v := range st.win {
					if k.sym != 0 {
						if _, vis := ent.cells[k.sym]; !vis {
							ns.win[k] = v
						}
					}
				}
				for k, v := range st.rng {
					if _, vis := ent.cells[k.sym]; !vis {
						ns.rng[k] = v
					}
				}
			}
			for i := range ex.st.lb {
				ns.lb[i] = mc(ex.st.lb[i])
			}
		}
		old := st.ghost
		ns.ghost = ex.st.ghost
		ns.ghost[gOut] = old[gOut]
		if ns.ghost[gUnspec] == 0 {
			ns.ghost[gUnspec] = old[gUnspec]
		}
		ns.ghost[gElIn] = old[gElIn]
		ns.ghost[gSubDoc] = old[gSubDoc]
		ns.ghost[gQName] = old[gQName]
		ns.ghost[gProg] = old[gProg]
		ns.ghost[gEl] = satG(old[gEl] + ex.st.ghost[gEl])
		ns.ghost[gNode] = satG(old[gNode] + ex.st.ghost[gNode])
		m := old[gEl] + ex.st.ghost[gElMin]
		if m > old[gElMin] {
			m = old[gElMin]
		}
		ns.ghost[gElMin] = satG(m)
		if ownWin && ex.st.ghost[gProg] != 0 {
			ns.noteProgress()
		}
		if frameGhost {
			ns.ghost = old
		}
		feasible := true
		for _, c := range ns.cells {
			if c.set.Empty() {
				// range cells may legitimately be empty
				_ = c
			}
		}
		if !ns.winNormalize() {
			feasible = false
		}
		if !feasible {
			continue
		}
		res := make([]AVal, len(ex.res))
		for i, v := range ex.res {
			res[i] = mv(v)
		}
		if dst != nil {
			if len(res) == 1 {
				ns.env[evar{dst, 0}] = res[0]
			} else {
				for i, v := range res {
					ns.env[evar{dst, i}] = v
				}
			}
		}
		a.lastProg, a.lastFoot = ex.st.ghost[gProg], ft
		if in != nil {
			// split undetermined error results so clients see definite outcomes
			for _, s2 := range a.splitErr(ns, fn, res) {
				a.cl.AfterCall(r.fr, s2, in, fn, res)
				outs = append(outs, s2)
			}
			continue
		}
		outs = append(outs, ns)
	}
	return outs
}

// onStack reports whether fn is already being analysed (recursion).
func (r *run) onStack(fn *ssa.Function) bool {
	for f := r.fr; f != nil; f = f.parent {
		if f.fn == fn {
			return true
		}
	}
	return false
}

func (a *Analysis) splitErr(st *State, fn *ssa.Function, res []AVal) []*State {
	rs := fn.Signature.Results()
	for i := 0; i < rs.Len(); i++ {
		if !isErrorType(rs.At(i).Type()) || i >= len(res) {
			continue
		}
		v := res[i]
		if v.k == kCell {
			s := st.cells[v.id].set
			if s.Has(0) && s != single(0) {
				s2 := st.clone()
				var out []*State
				if st.refineCell(v.id, single(0)) {
					out = append(out, st)
				}
				if s2.refineCell(v.id, s.Minus(single(0))) {
					out = append(out, s2)
				}
				return out
			}
		}
	}
	return []*State{st}
}

func isErrorType(t types.Type) bool {
	n, ok := types.Unalias(t).(*types.Named)
	return ok && n.Obj().Pkg() == nil && n.Obj().Name() == "error"
}

func satG(v int16) int16 {
	if v > 3 {
		return 3
	}
	if v < -3 {
		return -3
	}
	return v
}

// insideNow: 1 if the current point is certainly inside an element, else 0.
func insideNow(st *State) int16 {
	if st.ghost[gElIn] == 1 {
		if st.ghost[gEl] >= 0 {
			return 1
		}
		return 0
	}
	if st.ghost[gEl] > 0 {
		return 1
	}
	return 0
}

func (st *State) noteProgress() {
	st.ghost[gProg] = 1
	for h := range st.prog {
		st.prog[h] = true
	}
}

// Run analyses fn from a root entry, iterating to a fixpoint over recursion.
func (a *Analysis) Run(fn *ssa.Function, mk func() (*State, []AVal)) *summary {
	a.prev = map[string]*summary{}
	var sum *summary
	for round := 1; ; round++ {
		a.memo = map[string]*summary{}
		a.busy = map[string]bool{}
		a.usedBusy = map[string]bool{}
		a.fnSeen = map[*ssa.Function]int{}
		a.loopsOK = map[string]int{}
		a.steps = 0
		a.nCalls = 0
		if rs, ok := a.cl.(interface{ Reset() }); ok {
			rs.Reset()
		}
		st, args := mk()
		for i, p := range fn.Params {
			if i < len(args) {
				st.env[evar{p, 0}] = args[i]
			}
		}
		ent := st.canonicalise(a.info(fn).keys[:len(fn.Params)], nil, 0, a.keepLB)
		sum = a.analyse(fn, ent, nil, nil, 0)
		if a.overflow != "" {
			return sum
		}
		stable := true
		for k := range a.usedBusy {
			if a.memo[k].sig() != a.prev[k].sig() {
				stable = false
			}
		}
		a.prev = a.memo
		if stable {
			return sum
		}
		if round > 40 {
			a.overflow = "recursion fixpoint not reached"
			return sum
		}
	}
}

var _ = token.NoPos

var stackSlots = []string{"#node", "#input"}

func (a *Analysis) isCtx(o *obj) bool {
	return o.typ != nil && a.ctxType != nil && types.Identical(o.typ, a.ctxType)
}
