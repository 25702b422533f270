package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("G02", "proof", "effect analysis over SSA of every function of the library: no source that differs from run to run is consulted (random numbers, time, process and machine, addresses of objects, goroutine scheduling, contents of weak or hashed containers), and every loop over a map is insensitive to the order of the map: what it does commutes (entries keyed by the map key, sums, flags), is restricted to one key, or is collected and sorted before anything else looks at it",
		checkDet, "handlers, readers and writers supplied by the application are deterministic", "objects taken from a pool are emptied (G01)")
}

var randomPkgs = map[string]bool{"math/rand": true, "math/rand/v2": true, "crypto/rand": true, "hash/maphash": true}
var randomFuncs = map[string]bool{
	"time.Now": true, "time.Since": true, "time.Until": true, "time.After": true, "time.NewTimer": true, "time.NewTicker": true, "time.Tick": true, "time.AfterFunc": true,
	"os.Getpid": true, "os.Getppid": true, "os.Getenv": true, "os.LookupEnv": true, "os.Environ": true, "os.Hostname": true, "os.Getwd": true, "os.TempDir": true,
	"os.Getuid": true, "os.UserHomeDir": true,
	"runtime.NumGoroutine": true, "runtime.NumCPU": true, "runtime.GOMAXPROCS": true, "runtime.ReadMemStats": true, "runtime.SetFinalizer": true,
}
var unorderedFuncs = map[string]bool{"maps.Keys": true, "maps.Values": true, "maps.All": true}

func stdName(f *ssa.Function) string {
	if f == nil || f.Pkg == nil && f.Object() == nil {
		return ""
	}
	pk := fnPkg(f)
	if pk == nil {
		return ""
	}
	if f.Signature.Recv() != nil {
		return pk.Path() + ".(" + types.TypeString(f.Signature.Recv().Type(), func(*types.Package) string { return "" }) + ")." + f.Name()
	}
	return pk.Path() + "." + f.Name()
}

func checkDet(p *Program, r *Report) {
	d := &detCheck{p: p, r: r, eff: map[*ssa.Function]int{}, unordered: map[*ssa.Function]bool{}}
	var fns []*ssa.Function
	for _, f := range p.allFuncsWithInit() {
		if len(f.Blocks) > 0 && !p.inCmd(f) {
			fns = append(fns, f)
		}
	}
	// functions that return what they collected unsorted: a fixpoint
	for {
		n := len(d.unordered)
		for _, f := range fns {
			d.loops(f, false)
		}
		if len(d.unordered) == n {
			break
		}
	}
	loops := 0
	for _, f := range fns {
		r.fn(shortFn(f))
		d.sources(f)
		loops += d.loops(f, true)
	}
	r.stats["loops over maps"] = loops
	r.min("no source", 300)
}

type detCheck struct {
	p         *Program
	r         *Report
	eff       map[*ssa.Function]int
	unordered map[*ssa.Function]bool
}

func (d *detCheck) sources(f *ssa.Function) {
	p, r := d.p, d.r
	key := shortFn(f)
	bad := false
	report := func(in ssa.Instruction, sure bool, msg string) {
		bad = true
		if sure {
			r.fail("no source", key, p.instrPos(in), msg)
		} else {
			r.undecided("no source", key, p.instrPos(in), msg)
		}
	}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.Go:
				report(in, false, "a goroutine is started; whether its scheduling shows is not known")
			case *ssa.Select:
				if len(x.States) > 1 {
					report(in, true, "which of several channels is taken is random")
				}
			case *ssa.Convert:
				if b, ok := x.Type().Underlying().(*types.Basic); ok && b.Kind() == types.Uintptr {
					if c, ok := x.X.Type().Underlying().(*types.Basic); ok && c.Kind() == types.UnsafePointer {
						report(in, true, "the address of an object is used as a number")
					}
				}
			case ssa.CallInstruction:
				cc := x.Common()
				sc := cc.StaticCallee()
				if sc == nil || p.inModule(sc) {
					continue
				}
				n := stdName(sc)
				if pk := fnPkg(sc); pk != nil && randomPkgs[pk.Path()] || randomFuncs[n] {
					report(in, true, n+" differs from run to run")
				}
				if unorderedFuncs[n] || strings.HasPrefix(n, "reflect.(") && (sc.Name() == "MapKeys" || sc.Name() == "MapRange") || n == "sync.(*Map).Range" {
					sorted := false
					if v := x.Value(); v != nil && v.Referrers() != nil {
						sorted = len(*v.Referrers()) > 0
						for _, u := range *v.Referrers() {
							c, ok := u.(ssa.CallInstruction)
							if !ok || c.Common().StaticCallee() == nil || !strings.HasPrefix(stdName(c.Common().StaticCallee()), "slices.Sorted") {
								sorted = false
							}
						}
					}
					if !sorted {
						report(in, false, n+" has no fixed order")
					}
				}
				if pk := fnPkg(sc); pk != nil && pk.Path() == "fmt" {
					for _, a := range cc.Args {
						if c, ok := a.(*ssa.Const); ok && c.Value != nil && c.Value.Kind() == constant.String {
							if s := strings.ReplaceAll(constant.StringVal(c.Value), "%%", ""); strings.Contains(s, "%p") {
								report(in, true, "the address of an object is written out")
							}
						}
					}
				}
			}
		}
	}
	if !bad {
		r.ok("no source", key, p.pos(f.Pos()), "")
	}
}

// ---- loops over maps ----

// ordered: what the order of a loop could show in.
type mapLoop struct {
	d     *detCheck
	f     *ssa.Function
	l     *natLoop
	k, v  ssa.Value
	m     ssa.Value
	it    ssa.Value // tuple of Next
	dep   map[ssa.Value]bool
	probs []string // violations
	unds  []string
	accs  []ssa.Value
	where ssa.Instruction
}

func (d *detCheck) loops(f *ssa.Function, say bool) int {
	n := 0
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			nx, ok := in.(*ssa.Next)
			if !ok || nx.IsString {
				continue
			}
			rg, ok := nx.Iter.(*ssa.Range)
			if !ok {
				continue
			}
			if _, ok := rg.X.Type().Underlying().(*types.Map); !ok {
				continue
			}
			n++
			ml := &mapLoop{d: d, f: f, it: nx, m: rg.X, where: nx}
			for _, l := range naturalLoops(f) {
				if l.head == b {
					ml.l = l
				}
			}
			key := fmt.Sprintf("%s$%d", shortFn(f), n)
			if ml.l == nil {
				// the body never goes round again: one entry is taken
				ml.l = &natLoop{f, b, map[*ssa.BasicBlock]bool{b: true}}
				for _, u := range *nx.Referrers() {
					if e, ok := u.(*ssa.Extract); ok && e.Index > 0 && e.Referrers() != nil && len(*e.Referrers()) > 0 {
						ml.probs = append(ml.probs, "an arbitrary entry of the map is used")
					}
				}
			} else {
				for _, u := range *nx.Referrers() {
					if e, ok := u.(*ssa.Extract); ok {
						switch e.Index {
						case 1:
							ml.k = e
						case 2:
							ml.v = e
						}
					}
				}
				ml.judge()
			}
			if !say {
				continue
			}
			pos := d.p.instrPos(nx)
			if ml.where != nil {
				pos = d.p.instrPos(ml.where)
			}
			switch {
			case len(ml.probs) > 0:
				d.r.fail("map order", key, pos, ml.probs[0])
			case len(ml.unds) > 0:
				d.r.undecided("map order", key, pos, ml.unds[0])
			default:
				d.r.ok("map order", key, pos, "")
			}
		}
	}
	// results of functions that collect
	c := 0
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			call, ok := in.(*ssa.Call)
			if !ok {
				continue
			}
			for _, g := range d.p.callees(f, call) {
				if !d.unordered[g] {
					continue
				}
				c++
				key := fmt.Sprintf("%s, result of %s %d", shortFn(f), g.Name(), c)
				var vals []ssa.Value
				if call.Call.Signature().Results().Len() == 1 {
					vals = append(vals, call)
				} else if call.Referrers() != nil {
					for _, u := range *call.Referrers() {
						if e, ok := u.(*ssa.Extract); ok {
							if _, ok := e.Type().Underlying().(*types.Slice); ok {
								vals = append(vals, e)
							}
						}
					}
				}
				ml := &mapLoop{d: d, f: f, l: &natLoop{f, nil, map[*ssa.BasicBlock]bool{}}}
				for _, v := range vals {
					ml.collected(v)
				}
				if !say {
					continue
				}
				switch {
				case len(ml.probs) > 0:
					d.r.fail("map order", key, d.p.instrPos(in), ml.probs[0])
				case len(ml.unds) > 0:
					d.r.undecided("map order", key, d.p.instrPos(in), ml.unds[0])
				default:
					d.r.ok("map order", key, d.p.instrPos(in), "")
				}
			}
		}
	}
	return n
}

func (m *mapLoop) bad(in ssa.Instruction, s string) {
	if len(m.probs) == 0 {
		m.where = in
	}
	m.probs = append(m.probs, s)
}

func (m *mapLoop) und(in ssa.Instruction, s string) {
	if len(m.probs)+len(m.unds) == 0 {
		m.where = in
	}
	m.unds = append(m.unds, s)
}

func (m *mapLoop) inLoop(v ssa.Value) bool {
	in, ok := v.(ssa.Instruction)
	return ok && m.l.body[in.Block()]
}

// depends: the value depends on the entry (or on how far the loop is).
func (m *mapLoop) depends(v ssa.Value) bool { return m.dep[v] }

func (m *mapLoop) flow() {
	m.dep = map[ssa.Value]bool{}
	for _, x := range []ssa.Value{m.k, m.v} {
		if x != nil {
			m.dep[x] = true
		}
	}
	for ch := true; ch; {
		ch = false
		for b := range m.l.body {
			for _, in := range b.Instrs {
				v, ok := in.(ssa.Value)
				if !ok || m.dep[v] || v == m.it {
					continue
				}
				if e, ok := in.(*ssa.Extract); ok && e.Tuple == m.it {
					continue
				}
				dep := false
				for _, o := range in.Operands(nil) {
					if *o != nil && m.dep[*o] {
						dep = true
					}
				}
				if ph, ok := in.(*ssa.Phi); ok && !dep && m.l.head != b {
					// which way was taken may depend on the entry
					for _, pr := range ph.Block().Preds {
						if c := m.condOf(pr); c != nil && m.dep[c] {
							dep = m.differs(ph)
						}
					}
				}
				if ph, ok := in.(*ssa.Phi); ok && m.l.head == b && !dep {
					for i, e := range ph.Edges {
						if m.l.body[b.Preds[i]] && e != ph && m.inLoop(e) {
							dep = true // how far the loop is
						}
					}
				}
				if dep {
					m.dep[v] = true
					ch = true
				}
			}
		}
	}
}

func (m *mapLoop) differs(ph *ssa.Phi) bool {
	for _, e := range ph.Edges {
		if e != ph.Edges[0] {
			return true
		}
	}
	return false
}

// condOf: the branch condition that decides whether b is reached.
func (m *mapLoop) condOf(b *ssa.BasicBlock) ssa.Value {
	for b != nil && b != m.l.head {
		if n := len(b.Instrs); n > 0 {
			if c, ok := b.Instrs[n-1].(*ssa.If); ok {
				return c.Cond
			}
		}
		b = b.Idom()
	}
	return nil
}

// oneKey: the block is reached only for one key of the map.
func (m *mapLoop) oneKey(b *ssa.BasicBlock) bool {
	for x := b; x != nil && x != m.l.head; x = x.Idom() {
		id := x.Idom()
		if id == nil {
			return false
		}
		iff, ok := id.Instrs[len(id.Instrs)-1].(*ssa.If)
		if !ok || len(x.Preds) != 1 {
			continue
		}
		bo, ok := iff.Cond.(*ssa.BinOp)
		if !ok {
			continue
		}
		if bo.X == m.k && !m.depends(bo.Y) || bo.Y == m.k && !m.depends(bo.X) {
			if bo.Op == token.EQL && x == id.Succs[0] || bo.Op == token.NEQ && x == id.Succs[1] {
				return true
			}
		}
	}
	return false
}

// guarded: a comparison that involves the entry decides whether b is reached.
func (m *mapLoop) guarded(b *ssa.BasicBlock) bool {
	for x := b; x != nil && x != m.l.head; x = x.Idom() {
		id := x.Idom()
		if id == nil || id == m.l.head {
			return false
		}
		if iff, ok := id.Instrs[len(id.Instrs)-1].(*ssa.If); ok && m.depends(iff.Cond) {
			return true
		}
	}
	return false
}

func (m *mapLoop) judge() {
	m.flow()
	// what is carried around the loop
	for _, in := range m.l.head.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		for i, e := range ph.Edges {
			if m.l.body[m.l.head.Preds[i]] {
				m.carried(ph, e, m.l.head.Preds[i], map[ssa.Value]bool{})
			}
		}
	}
	for _, b := range m.f.Blocks {
		if !m.l.body[b] {
			continue
		}
		for _, in := range b.Instrs {
			m.effect(in)
		}
		// early exits
		for _, s := range b.Succs {
			if m.l.body[s] || b == m.l.head {
				continue
			}
			m.exit(b, s)
		}
		if n := len(b.Instrs); n > 0 {
			if ret, ok := b.Instrs[n-1].(*ssa.Return); ok {
				m.ret(ret)
			}
		}
	}
	for _, a := range m.accs {
		m.collected(a)
	}
}

func (m *mapLoop) ret(ret *ssa.Return) {
	if m.oneKey(ret.Block()) {
		return
	}
	for _, v := range ret.Results {
		if m.depends(v) || m.isAcc(v) {
			if m.guarded(ret.Block()) && m.eqGuard(ret.Block()) {
				m.und(ret, "the first entry found is returned; whether there can be only one is not known")
			} else {
				m.bad(ret, "which entry is returned depends on the order of the map")
			}
			return
		}
	}
}

// eqGuard: an equality on the entry decides whether b is reached.
func (m *mapLoop) eqGuard(b *ssa.BasicBlock) bool {
	for x := b; x != nil && x != m.l.head; x = x.Idom() {
		id := x.Idom()
		if id == nil {
			return false
		}
		if iff, ok := id.Instrs[len(id.Instrs)-1].(*ssa.If); ok {
			if bo, ok := iff.Cond.(*ssa.BinOp); ok && m.depends(bo) {
				c1, ok1 := bo.X.(*ssa.Const)
				c2, ok2 := bo.Y.(*ssa.Const)
				if (bo.Op == token.EQL && x == id.Succs[0] || bo.Op == token.NEQ && x == id.Succs[1]) && !(ok1 && c1.IsNil()) && !(ok2 && c2.IsNil()) {
					return true
				}
			}
		}
	}
	return false
}

func (m *mapLoop) isAcc(v ssa.Value) bool {
	for _, a := range m.accs {
		if a == v {
			return true
		}
	}
	return false
}

// exit: leaving the loop before its end.
func (m *mapLoop) exit(b, to *ssa.BasicBlock) {
	for _, in := range to.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		for i, pr := range to.Preds {
			if pr == b && m.depends(ph.Edges[i]) && !m.oneKey(b) {
				if m.eqGuard(b) || m.guarded(b) && m.eqEdge(b, to) {
					m.und(b.Instrs[len(b.Instrs)-1], "the first entry found is used; whether there can be only one is not known")
				} else if !m.oneEdge(b, to) {
					m.bad(b.Instrs[len(b.Instrs)-1], "which entry is used depends on the order of the map")
				}
			}
		}
	}
	// entry values used after the exit
	for v := range m.dep {
		in, ok := v.(ssa.Instruction)
		if !ok || v.Referrers() == nil || !m.l.body[in.Block()] {
			continue
		}
		if ph, ok := v.(*ssa.Phi); ok && ph.Block() == m.l.head {
			continue // judged as carried around
		}
		for _, u := range *v.Referrers() {
			ub := u.Block()
			if _, ok := u.(*ssa.Phi); ok || ub == nil || m.l.body[ub] {
				continue
			}
			if !(to == ub || to.Dominates(ub)) {
				continue
			}
			if m.oneKey(b) || m.oneEdge(b, to) {
				continue
			}
			if m.eqGuard(b) || m.eqEdge(b, to) {
				m.und(u, "the first entry found is used; whether there can be only one is not known")
			} else {
				m.bad(u, "which entry is used depends on the order of the map")
			}
		}
	}
}

func (m *mapLoop) edgeCmp(b, to *ssa.BasicBlock) (bo *ssa.BinOp, eq bool) {
	iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
	if !ok {
		return nil, false
	}
	bo, ok = iff.Cond.(*ssa.BinOp)
	if !ok {
		return nil, false
	}
	return bo, bo.Op == token.EQL && b.Succs[0] == to || bo.Op == token.NEQ && b.Succs[1] == to
}

func (m *mapLoop) oneEdge(b, to *ssa.BasicBlock) bool {
	bo, eq := m.edgeCmp(b, to)
	return eq && (bo.X == m.k && !m.depends(bo.Y) || bo.Y == m.k && !m.depends(bo.X))
}

func (m *mapLoop) eqEdge(b, to *ssa.BasicBlock) bool {
	bo, eq := m.edgeCmp(b, to)
	return eq && m.depends(bo)
}

// carried: what becomes of a variable in one round.
func (m *mapLoop) carried(ph *ssa.Phi, e ssa.Value, from *ssa.BasicBlock, seen map[ssa.Value]bool) {
	if e == ph || seen[e] {
		return
	}
	seen[e] = true
	if !m.depends(e) && !m.inLoop(e) {
		// the same value every time: a flag
		if m.multi(ph) {
			m.und(ph, "a variable is set to several values")
		}
		return
	}
	at := from
	if in, ok := e.(ssa.Instruction); ok && m.l.body[in.Block()] {
		at = in.Block()
	}
	if m.oneKey(from) || m.oneKey(at) {
		return
	}
	switch x := e.(type) {
	case *ssa.Phi:
		if x.Block() == m.l.head {
			m.bad(x, "a variable depends on the order of the map")
			return
		}
		for i, y := range x.Edges {
			m.carried(ph, y, x.Block().Preds[i], seen)
		}
		return
	case *ssa.BinOp:
		b, ok := x.Type().Underlying().(*types.Basic)
		if ok && b.Info()&types.IsInteger != 0 && (x.X == ph || x.Y == ph) {
			o := x.X
			if o == ph {
				o = x.Y
			}
			switch x.Op {
			case token.ADD, token.MUL, token.OR, token.AND, token.XOR:
				if !m.uses(o, ph, map[ssa.Value]bool{}) {
					return
				}
			case token.SUB:
				if x.X == ph && !m.uses(o, ph, map[ssa.Value]bool{}) {
					return
				}
			}
		}
		m.bad(x, "a variable that is carried from entry to entry depends on the order of the map")
		return
	case *ssa.Call:
		if bi, ok := x.Call.Value.(*ssa.Builtin); ok && bi.Name() == "append" {
			a := x.Call.Args[0]
			if a == ph || m.phiOf(a, ph) {
				if !m.isAcc(ph) {
					m.accs = append(m.accs, ph)
				}
				return
			}
		}
	}
	// the last (or some) entry wins
	if lt := m.minmax(ph, e, from); lt {
		return
	}
	in, _ := e.(ssa.Instruction)
	if in == nil {
		in = ph
	}
	if m.eqGuard(from) || m.eqGuard(at) {
		m.und(in, "the last entry found wins; whether there can be only one is not known")
		return
	}
	m.bad(in, "which entry wins depends on the order of the map")
}

func (m *mapLoop) multi(ph *ssa.Phi) bool {
	vals := map[string]bool{}
	seen := map[ssa.Value]bool{}
	var w func(v ssa.Value)
	w = func(v ssa.Value) {
		if v == ph || seen[v] {
			return
		}
		seen[v] = true
		if x, ok := v.(*ssa.Phi); ok && m.inLoop(x) && x.Block() != m.l.head {
			for _, e := range x.Edges {
				w(e)
			}
			return
		}
		vals[v.Name()] = true
	}
	for i, e := range ph.Edges {
		if m.l.body[ph.Block().Preds[i]] {
			w(e)
		}
	}
	return len(vals) > 1
}

func (m *mapLoop) phiOf(a ssa.Value, ph *ssa.Phi) bool {
	x, ok := a.(*ssa.Phi)
	if !ok || !m.inLoop(x) {
		return false
	}
	for _, e := range x.Edges {
		if e != ph {
			c, ok := e.(*ssa.Call)
			if !ok {
				return false
			}
			if bi, ok := c.Call.Value.(*ssa.Builtin); !ok || bi.Name() != "append" {
				return false
			}
		}
	}
	return true
}

// minmax: the variable becomes the entry if that is smaller (greater).
func (m *mapLoop) minmax(ph *ssa.Phi, e ssa.Value, from *ssa.BasicBlock) bool {
	for x := from; x != nil && x != m.l.head.Idom(); x = x.Idom() {
		iff, ok := x.Instrs[len(x.Instrs)-1].(*ssa.If)
		if !ok {
			continue
		}
		bo, ok := iff.Cond.(*ssa.BinOp)
		if !ok {
			continue
		}
		switch bo.Op {
		case token.LSS, token.GTR, token.LEQ, token.GEQ:
			if bo.X == ph && bo.Y == e || bo.X == e && bo.Y == ph {
				return true
			}
			if m.depends(bo) {
				m.und(bo, "the least or greatest entry is chosen by a comparison that is not understood")
				return true
			}
		}
	}
	return false
}

func (m *mapLoop) uses(v, w ssa.Value, seen map[ssa.Value]bool) bool {
	if v == w {
		return true
	}
	if seen[v] {
		return false
	}
	seen[v] = true
	in, ok := v.(ssa.Instruction)
	if !ok || !m.l.body[in.Block()] {
		return false
	}
	for _, o := range in.Operands(nil) {
		if *o != nil && m.uses(*o, w, seen) {
			return true
		}
	}
	return false
}

// position: the value depends on how many entries came before.
func (m *mapLoop) position(v ssa.Value) bool {
	for _, in := range m.l.head.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			return false
		}
		if m.depends(ph) && m.uses(v, ph, map[ssa.Value]bool{}) {
			return true
		}
	}
	return false
}

// own: an object made in this round.
func (m *mapLoop) own(v ssa.Value) bool {
	switch x := v.(type) {
	case *ssa.Alloc, *ssa.MakeSlice, *ssa.MakeMap:
		return m.inLoop(v)
	case *ssa.FieldAddr:
		return m.own(x.X)
	case *ssa.IndexAddr:
		return m.own(x.X)
	case *ssa.Slice:
		return m.own(x.X)
	}
	return false
}

func detRoot(v ssa.Value) ssa.Value {
	for {
		switch x := v.(type) {
		case *ssa.FieldAddr:
			v = x.X
		case *ssa.IndexAddr:
			v = x.X
		case *ssa.Slice:
			v = x.X
		default:
			return v
		}
	}
}

func (m *mapLoop) effect(in ssa.Instruction) {
	if m.oneKey(in.Block()) {
		return
	}
	switch x := in.(type) {
	case *ssa.Store:
		if m.own(x.Addr) {
			return
		}
		if m.depends(detRoot(x.Addr)) {
			// into the entry
			if m.depends(x.Val) && m.position(x.Val) {
				m.bad(in, "entries are numbered in the order of the map")
			}
			return
		}
		if !m.depends(x.Val) && !m.inLoop(x.Val) {
			return
		}
		// an accumulator in memory
		switch y := x.Val.(type) {
		case *ssa.BinOp:
			if ld, ok := y.X.(*ssa.UnOp); ok && ld.Op == token.MUL && sameAddr(ld.X, x.Addr) {
				if b, ok := y.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 && y.Op != token.QUO && y.Op != token.REM && y.Op != token.SHL && y.Op != token.SHR {
					return
				}
			}
		case *ssa.Call:
			if bi, ok := y.Call.Value.(*ssa.Builtin); ok && bi.Name() == "append" {
				if _, local := detRoot(x.Addr).(*ssa.Alloc); local {
					m.und(in, "entries are collected in a variable whose uses are not followed")
				} else {
					m.bad(in, "entries are appended in the order of the map")
				}
				return
			}
		}
		if _, local := detRoot(x.Addr).(*ssa.Alloc); local {
			m.und(in, "a variable is set whose uses are not followed")
			return
		}
		if _, ok := detRoot(x.Addr).(*ssa.IndexAddr); ok || m.position(x.Addr) {
			m.und(in, "entries are stored in a list whose uses are not followed")
			return
		}
		if m.eqGuard(in.Block()) {
			m.und(in, "the last entry found wins; whether there can be only one is not known")
			return
		}
		m.bad(in, "which entry is stored last depends on the order of the map")
	case *ssa.MapUpdate:
		switch {
		case m.position(x.Value):
			m.bad(in, "entries are numbered in the order of the map")
		case x.Key == m.k || m.own(x.Map):
		case m.depends(x.Map):
		case !m.depends(x.Key) && m.depends(x.Value):
			m.bad(in, "the last entry wins")
		case m.depends(x.Value):
			m.und(in, "entries may fall together under a key that is not the key of the map")
		}
	case *ssa.Send:
		m.bad(in, "entries are sent in the order of the map")
	case *ssa.Go, *ssa.Defer:
		m.bad(in, "calls are made in the order of the map")
	case *ssa.Call:
		cc := x.Common()
		if bi, ok := cc.Value.(*ssa.Builtin); ok {
			switch bi.Name() {
			case "delete":
				if m.position(cc.Args[1]) {
					m.bad(in, "what is deleted depends on the order of the map")
				}
			case "copy":
				if !m.own(cc.Args[0]) {
					m.und(in, "entries are copied in the order of the map")
				}
			}
			return
		}
		if m.d.handlerCall(cc) {
			m.bad(in, "a handler is called for the entries in the order of the map")
			return
		}
		switch m.d.callEffect(m.f, x) {
		case 2:
			if sc := cc.StaticCallee(); sc != nil && !m.d.p.inModule(sc) && len(cc.Args) > 0 && m.own(cc.Args[0]) {
				return
			}
			m.bad(in, "calls whose order shows are made in the order of the map")
		case 1:
			m.und(in, "whether the order of these calls shows is not known")
		}
	}
}

func sameAddr(a, b ssa.Value) bool {
	if a == b {
		return true
	}
	fa, ok1 := a.(*ssa.FieldAddr)
	fb, ok2 := b.(*ssa.FieldAddr)
	return ok1 && ok2 && fa.Field == fb.Field && sameAddr(fa.X, fb.X)
}

func (d *detCheck) handlerCall(cc *ssa.CallCommon) bool {
	if !cc.IsInvoke() {
		return false
	}
	if n := namedOf(cc.Value.Type()); n != nil && n.Obj().Pkg() != nil {
		path := n.Obj().Pkg().Path()
		return strings.HasSuffix(path, "/sax") && strings.HasSuffix(n.Obj().Name(), "Handler")
	}
	return false
}

// callEffect: 0 none that could show, 1 unknown, 2 ordered (output, links of
// a tree, appended lists, handlers).
func (d *detCheck) callEffect(f *ssa.Function, ci ssa.CallInstruction) int {
	cc := ci.Common()
	if _, ok := cc.Value.(*ssa.Builtin); ok {
		return 0
	}
	if d.handlerCall(cc) {
		return 2
	}
	if cc.IsInvoke() {
		switch cc.Method.Name() {
		case "Write", "WriteString", "WriteByte", "WriteRune":
			return 2
		}
	}
	if sc := cc.StaticCallee(); sc != nil && !d.p.inModule(sc) {
		n := stdName(sc)
		pk := fnPkg(sc)
		if pk == nil {
			return 1
		}
		if sc.Signature.Recv() == nil {
			switch pk.Path() {
			case "strings", "strconv", "unicode", "unicode/utf8", "errors", "github.com/pkg/errors", "math", "path", "bytes", "sort", "slices":
				return 0
			case "fmt":
				if strings.HasPrefix(sc.Name(), "Sprint") || sc.Name() == "Errorf" {
					return 0
				}
				return 2
			case "io", "os", "bufio":
				return 2
			}
			return 1
		}
		if strings.HasPrefix(n, "bytes.(") || strings.HasPrefix(n, "strings.(") || strings.HasPrefix(n, "bufio.(") || strings.HasPrefix(n, "os.(") {
			if strings.HasPrefix(sc.Name(), "Write") {
				return 2
			}
			if n := sc.Name(); n == "String" || n == "Len" || n == "Bytes" || n == "Cap" {
				return 0
			}
		}
		return 1
	}
	res := 0
	cs := d.p.callees(f, ci)
	if len(cs) == 0 {
		return 1
	}
	for _, g := range cs {
		if e := d.fnEffect(g); e > res {
			res = e
		}
	}
	return res
}

func (d *detCheck) fnEffect(f *ssa.Function) int {
	if e, ok := d.eff[f]; ok {
		return e
	}
	d.eff[f] = 0
	if len(f.Blocks) == 0 {
		return 1
	}
	res := 0
	up := func(n int) {
		if n > res {
			res = n
		}
	}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.Store:
				if _, ok := detRoot(x.Addr).(*ssa.Alloc); ok {
					continue
				}
				up(1)
				if fa, ok := x.Addr.(*ssa.FieldAddr); ok {
					// links of a list, or a list that grows
					if n, _ := fieldKey(fa.X.Type().Underlying().(*types.Pointer).Elem(), fa.Field); n == fNext || n == fPrev || n == fLast {
						up(2)
					}
				}
				if c, ok := x.Val.(*ssa.Call); ok {
					if bi, ok := c.Call.Value.(*ssa.Builtin); ok && bi.Name() == "append" {
						up(2)
					}
				}
			case *ssa.MapUpdate:
				if _, ok := x.Map.(*ssa.MakeMap); !ok {
					up(1)
				}
			case *ssa.Send, *ssa.Go:
				up(2)
			case ssa.CallInstruction:
				up(d.callEffect(f, x))
			}
		}
	}
	d.eff[f] = res
	return res
}

var sorters = map[string]bool{"sort.Strings": true, "sort.Ints": true, "slices.Sort": true, "sort.Sort": true, "sort.Stable": true,
	"sort.Slice": true, "sort.SliceStable": true, "slices.SortFunc": true, "slices.SortStableFunc": true}

// collected: a list of entries is sorted before anything else looks at it.
func (m *mapLoop) collected(a ssa.Value) {
	type use struct {
		in ssa.Instruction
		v  ssa.Value
	}
	var uses []use
	var sorts []ssa.Instruction
	seen := map[ssa.Value]bool{}
	keysOnly := true
	var walk func(v ssa.Value)
	walk = func(v ssa.Value) {
		if seen[v] || v.Referrers() == nil {
			return
		}
		seen[v] = true
		for _, u := range *v.Referrers() {
			inside := m.l.body[u.Block()]
			switch x := u.(type) {
			case *ssa.DebugRef:
			case *ssa.Phi:
				if x != a {
					walk(x)
				}
			case *ssa.ChangeType:
				walk(x)
			case *ssa.MakeInterface:
				walk(x)
			case ssa.CallInstruction:
				cc := x.Common()
				if bi, ok := cc.Value.(*ssa.Builtin); ok {
					switch bi.Name() {
					case "len", "cap":
						if inside && m.usedBeyond(x.Value()) {
							m.und(u, "the number of entries so far is used")
						}
						continue
					case "append":
						if cc.Args[0] == v {
							if inside && m.k != nil {
								keysOnly = keysOnly && appendsOnly(cc, m.k)
							}
							if x.Value() != nil {
								walk(x.Value())
							}
							continue
						}
					}
				}
				if sc := cc.StaticCallee(); sc != nil && sorters[stdName(sc)] {
					sorts = append(sorts, u)
					if n := stdName(sc); n != "sort.Strings" && n != "sort.Ints" && n != "slices.Sort" {
						keysOnly = false
					}
					continue
				}
				// a helper that sorts its argument
				helper := false
				if sc := cc.StaticCallee(); sc != nil && m.d.p.inModule(sc) {
					for i, arg := range cc.Args {
						if arg == v && i < len(sc.Params) && sortsParam(sc, sc.Params[i]) {
							sorts = append(sorts, u)
							helper = true
						}
					}
				}
				if !helper {
					uses = append(uses, use{u, v})
				}
			case *ssa.Return:
				uses = append(uses, use{u, v})
			default:
				uses = append(uses, use{u, v})
			}
		}
	}
	walk(a)
	_ = keysOnly
	for _, u := range uses {
		ok := false
		for _, s := range sorts {
			if before(s, u.in) {
				ok = true
			}
		}
		if ok {
			continue
		}
		if _, isRet := u.in.(*ssa.Return); isRet && len(sorts) == 0 {
			exported := m.f.Object() != nil && m.f.Object().Exported()
			if !exported {
				m.d.unordered[m.f] = true
				continue
			}
		}
		if c, ok := u.in.(*ssa.Call); ok && m.l.body[u.in.Block()] && m.d.callEffect(m.f, c) == 0 {
			m.und(u.in, "the entries so far are looked at")
			continue
		}
		m.bad(u.in, "entries collected in the order of the map are used without being sorted")
		return
	}
}

func (m *mapLoop) usedBeyond(v ssa.Value) bool {
	return v != nil && v.Referrers() != nil && len(*v.Referrers()) > 0
}

func appendsOnly(cc *ssa.CallCommon, k ssa.Value) bool {
	if len(cc.Args) < 2 {
		return true
	}
	sl, ok := cc.Args[1].(*ssa.Slice)
	if !ok {
		return false
	}
	al, ok := sl.X.(*ssa.Alloc)
	if !ok {
		return false
	}
	for _, u := range *al.Referrers() {
		if ia, ok := u.(*ssa.IndexAddr); ok {
			for _, w := range *ia.Referrers() {
				if st, ok := w.(*ssa.Store); ok && st.Val != k {
					return false
				}
			}
		}
	}
	return true
}

// sortsParam: every way through the function sorts the parameter.
func sortsParam(f *ssa.Function, pa ssa.Value) bool {
	var at []ssa.Instruction
	seen := map[ssa.Value]bool{}
	var walk func(v ssa.Value)
	walk = func(v ssa.Value) {
		if seen[v] || v.Referrers() == nil {
			return
		}
		seen[v] = true
		for _, u := range *v.Referrers() {
			switch x := u.(type) {
			case *ssa.ChangeType:
				walk(x)
			case *ssa.MakeInterface:
				walk(x)
			case ssa.CallInstruction:
				if sc := x.Common().StaticCallee(); sc != nil && sorters[stdName(sc)] {
					at = append(at, u)
				}
			}
		}
	}
	walk(pa)
	for _, b := range f.Blocks {
		if ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
			done := false
			for _, s := range at {
				done = done || before(s, ret)
			}
			if !done {
				return false
			}
		}
	}
	return len(at) > 0
}
