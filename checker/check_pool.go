package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"

	"golang.org/x/tools/go/ssa"
)

// ---- buffers taken from a pool ----

type poolFlow struct {
	p        *Program
	funcs    []*ssa.Function
	getters  map[*ssa.Function]bool         // hand out a pooled buffer
	releases map[*ssa.Function]map[int]bool // give parameter i back
	resets   map[*ssa.Function]map[int]bool // ... and empty it before
	memo     map[string]*viewSummary
}

// viewSummary: what happens to a parameter that is (a view of) a pooled buffer.
type viewSummary struct {
	escapes string // how it outlives the call; "" if it does not
	pos     token.Pos
	returns map[int]bool // it may come back as this result
}

func isPoolMethod(cc *ssa.CallCommon, name string) bool {
	sc := cc.StaticCallee()
	if sc == nil || sc.Name() != name {
		return false
	}
	pkg, recv, _ := fnQual(sc)
	return pkg == "sync" && recv == "Pool"
}

// viewTracker follows handles (the buffer itself) and views of its contents
// within one function.
type viewTracker struct {
	pf     *poolFlow
	f      *ssa.Function
	handle map[ssa.Value]bool
	view   map[ssa.Value]bool
	cellH  map[ssa.Value]bool
	cellV  map[ssa.Value]bool
	ch     bool
	esc    string
	escPos token.Pos
	ret    map[int]bool
}

func (pf *poolFlow) tracker(f *ssa.Function) *viewTracker {
	return &viewTracker{pf: pf, f: f, handle: map[ssa.Value]bool{}, view: map[ssa.Value]bool{}, cellH: map[ssa.Value]bool{}, cellV: map[ssa.Value]bool{}, ret: map[int]bool{}}
}

func (t *viewTracker) set(m map[ssa.Value]bool, v ssa.Value) {
	if v != nil && !m[v] {
		m[v] = true
		t.ch = true
	}
}

func localRoot(a ssa.Value) ssa.Value {
	for {
		switch x := a.(type) {
		case *ssa.FieldAddr:
			a = x.X
		case *ssa.IndexAddr:
			a = x.X
		case *ssa.Alloc:
			return x
		case *ssa.Slice:
			a = x.X
		default:
			return nil
		}
	}
}

func (t *viewTracker) escape(pos token.Pos, how string) {
	if t.esc == "" {
		t.esc, t.escPos = how, pos
	}
}

func (t *viewTracker) run() {
	for {
		t.ch = false
		for _, b := range t.f.Blocks {
			for _, in := range b.Instrs {
				t.step(in)
			}
		}
		if !t.ch {
			return
		}
	}
}

func (t *viewTracker) copy(dst, src ssa.Value) {
	if t.handle[src] {
		t.set(t.handle, dst)
	}
	if t.view[src] {
		t.set(t.view, dst)
	}
}

func (t *viewTracker) step(in ssa.Instruction) {
	switch x := in.(type) {
	case *ssa.TypeAssert:
		t.copy(x, x.X)
	case *ssa.Extract:
		if ta, ok := x.Tuple.(*ssa.TypeAssert); ok && x.Index == 0 {
			t.copy(x, ta.X)
		}
	case *ssa.MakeInterface:
		if pointerish(x.X.Type()) {
			t.copy(x, x.X)
		}
	case *ssa.ChangeType:
		t.copy(x, x.X)
	case *ssa.ChangeInterface:
		t.copy(x, x.X)
	case *ssa.Slice:
		t.copy(x, x.X)
		if al := localRoot(x.X); al != nil && t.cellV[al] {
			t.set(t.view, x)
		}
	case *ssa.Phi:
		for _, e := range x.Edges {
			t.copy(x, e)
		}
	case *ssa.IndexAddr:
		if t.view[x.X] {
			t.set(t.cellV, x)
		}
	case *ssa.UnOp:
		if x.Op != token.MUL || !pointerish(x.Type()) {
			return
		}
		if t.cellH[x.X] {
			t.set(t.handle, x)
		}
		if t.cellV[x.X] {
			t.set(t.view, x)
		}
		if al := localRoot(x.X); al != nil && al != x.X && t.cellV[al] {
			t.set(t.view, x)
		}
	case *ssa.Store:
		if !t.handle[x.Val] && !t.view[x.Val] {
			return
		}
		switch a := x.Addr.(type) {
		case *ssa.Alloc:
			if t.handle[x.Val] {
				t.set(t.cellH, a)
			} else {
				t.set(t.cellV, a)
			}
			return
		case *ssa.FreeVar:
			t.set(t.cellV, a)
			return
		}
		if al := localRoot(x.Addr); al != nil {
			// a local object that holds the view
			t.set(t.cellV, al)
			t.set(t.view, al)
			return
		}
		t.escape(x.Pos(), "is stored in an object that lives on")
	case *ssa.MapUpdate:
		if t.handle[x.Value] || t.view[x.Value] {
			t.escape(x.Pos(), "is put into a map")
		}
	case *ssa.Send:
		if t.handle[x.X] || t.view[x.X] {
			t.escape(x.Pos(), "is sent to a channel")
		}
	case *ssa.MakeClosure:
		fn := x.Fn.(*ssa.Function)
		for i, bnd := range x.Bindings {
			if i >= len(fn.FreeVars) {
				continue
			}
			if t.handle[bnd] || t.cellH[bnd] || t.view[bnd] || t.cellV[bnd] {
				s := t.pf.closureSummary(fn, i, t.handle[bnd] || t.cellH[bnd], t.cellH[bnd] || t.cellV[bnd])
				if s.escapes != "" {
					t.escape(s.pos, s.escapes)
				}
				if used := closureKept(x); used {
					t.escape(x.Pos(), "is captured by a function that lives on")
				}
			}
		}
	case *ssa.Return:
		for i, v := range x.Results {
			if t.handle[v] || t.view[v] {
				if !t.ret[i] {
					t.ret[i] = true
					t.ch = true
				}
			}
		}
	case ssa.CallInstruction:
		t.call(x)
	}
}

// closureKept: the closure is more than called or deferred here.
func closureKept(mc *ssa.MakeClosure) bool {
	for _, ref := range *mc.Referrers() {
		switch x := ref.(type) {
		case *ssa.Defer:
		case *ssa.Call:
			if x.Call.Value != mc {
				if sc := x.Call.StaticCallee(); sc == nil {
					return true
				}
			}
		case *ssa.DebugRef:
		default:
			return true
		}
	}
	return false
}

func (t *viewTracker) call(x ssa.CallInstruction) {
	cc := x.Common()
	args := cc.Args
	if cc.IsInvoke() {
		args = append([]ssa.Value{cc.Value}, cc.Args...)
	}
	any := -1
	for i, a := range args {
		if t.handle[a] || t.view[a] {
			any = i
			break
		}
	}
	if any < 0 {
		return
	}
	val, _ := x.(*ssa.Call)
	if b, ok := cc.Value.(*ssa.Builtin); ok {
		switch b.Name() {
		case "append":
			// the bytes of the second operand are copied; the first may be
			// extended in place
			if val != nil {
				t.copy(val, args[0])
				if len(args) == 2 && t.view[args[1]] {
					if sl, ok := args[1].Type().Underlying().(*types.Slice); ok && pointerish(sl.Elem()) {
						t.set(t.view, val)
					}
				}
			}
		}
		return
	}
	sc := cc.StaticCallee()
	if sc != nil && !t.pf.p.inModule(sc) {
		pkg, recv, name := fnQual(sc)
		if pkg == "sync" && recv == "Pool" {
			return
		}
		if val == nil {
			return
		}
		// what the library returns may look into what it was given, unless
		// it is documented to copy
		if t.handle[args[0]] && sc.Signature.Recv() != nil {
			switch name {
			case "Bytes", "Next", "AvailableBuffer":
				t.set(t.view, val)
			}
			return
		}
		if pkg == "bytes" {
			switch name {
			case "TrimSpace", "Trim", "TrimLeft", "TrimRight", "TrimPrefix", "TrimSuffix", "TrimFunc", "TrimLeftFunc", "TrimRightFunc", "Split", "SplitN", "SplitAfter", "SplitAfterN", "Fields", "FieldsFunc", "NewReader", "NewBuffer":
				t.set(t.view, val)
			case "Cut", "CutPrefix", "CutSuffix":
				for _, ref := range *val.Referrers() {
					if e, ok := ref.(*ssa.Extract); ok && pointerish(e.Type()) {
						t.set(t.view, e)
					}
				}
			}
		}
		if (pkg == "bufio" || pkg == "io") && (len(name) > 3 && name[:3] == "New" || name == "MultiReader" || name == "TeeReader" || name == "LimitReader" || name == "MultiWriter") {
			t.set(t.view, val)
		}
		return
	}
	if cc.IsInvoke() {
		if any == 0 && !t.view[args[0]] {
			// a method of the buffer itself
			if val != nil && pointerish(val.Type()) {
				switch cc.Method.Name() {
				case "Bytes", "Next":
					t.set(t.view, val)
				}
			}
			return
		}
		switch cc.Method.Name() {
		case "Write", "WriteString", "WriteTo", "Read", "ReadFrom", "Printf", "Error", "String", "Transform", "Bytes":
			return
		}
	}
	cs := t.pf.p.callees(t.f, x)
	if sc == nil {
		// a handler or a function value: it may keep what it is given
		for i, a := range args {
			if i == 0 && cc.IsInvoke() {
				continue
			}
			if t.handle[a] || t.view[a] {
				if cc.IsInvoke() {
					t.escape(x.Pos(), "is given to "+cc.Method.Name()+" of an interface, which may keep it")
				} else if len(cs) == 0 {
					t.escape(x.Pos(), "is given to a function value, which may keep it")
				}
			}
		}
	}
	for _, g := range cs {
		for i, a := range args {
			if !(t.handle[a] || t.view[a]) || i >= len(g.Params) || len(g.Params) != len(args) {
				continue
			}
			s := t.pf.paramSummary(g, i, t.handle[a])
			if s.escapes != "" {
				t.escape(s.pos, s.escapes)
			}
			if val == nil {
				continue
			}
			for k := range s.returns {
				if g.Signature.Results().Len() == 1 {
					t.set(t.view, val)
					continue
				}
				for _, ref := range *val.Referrers() {
					if e, ok := ref.(*ssa.Extract); ok && e.Index == k {
						t.set(t.view, e)
					}
				}
			}
		}
	}
}

func (pf *poolFlow) paramSummary(g *ssa.Function, i int, handle bool) *viewSummary {
	k := fmt.Sprintf("%p#%d#%v", g, i, handle)
	if s, ok := pf.memo[k]; ok {
		return s
	}
	s := &viewSummary{returns: map[int]bool{}}
	pf.memo[k] = s
	if g.Blocks == nil {
		return s
	}
	t := pf.tracker(g)
	if handle {
		t.handle[g.Params[i]] = true
	} else {
		t.view[g.Params[i]] = true
	}
	t.run()
	s.escapes, s.pos, s.returns = t.esc, t.escPos, t.ret
	return s
}

func (pf *poolFlow) closureSummary(g *ssa.Function, i int, handle, cell bool) *viewSummary {
	k := fmt.Sprintf("%p#fv%d#%v", g, i, handle)
	if s, ok := pf.memo[k]; ok {
		return s
	}
	s := &viewSummary{returns: map[int]bool{}}
	pf.memo[k] = s
	t := pf.tracker(g)
	switch {
	case handle && cell:
		t.cellH[g.FreeVars[i]] = true
	case handle:
		t.handle[g.FreeVars[i]] = true
	case cell:
		t.cellV[g.FreeVars[i]] = true
	default:
		t.view[g.FreeVars[i]] = true
	}
	t.run()
	s.escapes, s.pos = t.esc, t.escPos
	return s
}

// putsBack: the function gives its parameter (or captured variable) v back.
// cond: it does so on some paths only.
func (pf *poolFlow) putsBack(g *ssa.Function, t *viewTracker) (put, cond, reset bool) {
	var puts []ssa.Instruction
	var rs []ssa.Instruction
	for _, b := range g.Blocks {
		for _, in := range b.Instrs {
			ci, ok := in.(ssa.CallInstruction)
			if !ok {
				continue
			}
			cc := ci.Common()
			if isPoolMethod(cc, "Put") && len(cc.Args) == 2 && t.handle[cc.Args[1]] {
				puts = append(puts, in)
			} else if sc := cc.StaticCallee(); sc != nil {
				for i := range pf.releases[sc] {
					if i < len(cc.Args) && t.handle[cc.Args[i]] {
						puts = append(puts, in)
						if pf.resets[sc][i] {
							reset = true
						}
					}
				}
				if sc.Name() == "Reset" && len(cc.Args) == 1 && t.handle[cc.Args[0]] {
					rs = append(rs, in)
				}
				if sc.Name() == "Truncate" && len(cc.Args) == 2 && t.handle[cc.Args[0]] {
					if k, ok := cc.Args[1].(*ssa.Const); ok && cint(k) == 0 {
						rs = append(rs, in)
					}
				}
			}
		}
	}
	for _, pt := range puts {
		put = true
		if pt.Block() != g.Blocks[0] {
			// it must be passed on every path
			for _, b := range g.Blocks {
				if _, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && !pt.Block().Dominates(b) {
					cond = true
				}
			}
		}
		for _, rr := range rs {
			if before(rr, pt) {
				reset = true
			}
		}
	}
	return
}

func (p *Program) pools(r *Report) {
	pf := &poolFlow{p: p, funcs: p.allFuncsWithInit(), getters: map[*ssa.Function]bool{}, releases: map[*ssa.Function]map[int]bool{}, resets: map[*ssa.Function]map[int]bool{}, memo: map[string]*viewSummary{}}
	sort.Slice(pf.funcs, func(i, j int) bool { return pf.funcs[i].String() < pf.funcs[j].String() })
	// the functions that give a buffer back, and those that hand one out
	for ch := true; ch; {
		ch = false
		for _, f := range pf.funcs {
			for i, prm := range f.Params {
				if pf.releases[f][i] || !pointerish(prm.Type()) {
					continue
				}
				t := pf.tracker(f)
				t.handle[prm] = true
				t.run()
				if put, _, reset := pf.putsBack(f, t); put {
					if pf.releases[f] == nil {
						pf.releases[f] = map[int]bool{}
						pf.resets[f] = map[int]bool{}
					}
					pf.releases[f][i] = true
					pf.resets[f][i] = reset
					pf.memo = map[string]*viewSummary{}
					ch = true
				}
			}
			if !pf.getters[f] {
				for _, o := range pf.obtains(f) {
					t := pf.tracker(f)
					t.handle[o] = true
					t.run()
					for _, b := range f.Blocks {
						if rt, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && len(rt.Results) > 0 && t.handle[rt.Results[0]] {
							pf.getters[f] = true
							ch = true
						}
					}
				}
			}
		}
	}
	n := 0
	emptied := true
	var notEmptied []string
	type site struct {
		key string
		o   ssa.Value
		t   *viewTracker
	}
	var sites []site
	for _, f := range pf.funcs {
		for k, o := range pf.obtains(f) {
			n++
			key := shortFn(f)
			if k > 0 {
				key += fmt.Sprintf("#%d", k+1)
			}
			r.fn(shortFn(f))
			t := pf.tracker(f)
			t.handle[o] = true
			t.run()
			if !bufferType(t) {
				r.undecided("pooled buffers", key, p.pos(o.Pos()), "what the pool holds is not a bytes.Buffer")
				continue
			}
			pf.lifetime(r, key, f, o, t)
			if put, _, reset := pf.putsBack(f, t); put && !reset {
				// a deferred Reset runs before the deferred Put
				direct := false
				for _, b := range f.Blocks {
					for _, in := range b.Instrs {
						if ci, ok := in.(ssa.CallInstruction); ok && isPoolMethod(ci.Common(), "Put") {
							direct = true
						}
					}
				}
				if direct {
					emptied = false
					notEmptied = append(notEmptied, key)
				}
			}
			sites = append(sites, site{key, o, t})
		}
	}
	for f, m := range pf.resets {
		for i := range m {
			if !m[i] {
				emptied = false
				notEmptied = append(notEmptied, shortFn(f))
			}
		}
	}
	sort.Strings(notEmptied)
	if !emptied {
		for _, s := range sites {
			switch resetFirst(s.o, s.t) {
			case 0:
				r.fail("emptied between users", s.key, p.pos(s.o.Pos()), fmt.Sprintf("the buffer is used as it comes from the pool, and %v gives it back without emptying it", notEmptied))
			case 1:
				r.ok("emptied between users", s.key, p.pos(s.o.Pos()), "emptied first")
			default:
				r.undecided("emptied between users", s.key, p.pos(s.o.Pos()), "not seen whether the buffer is emptied first")
			}
		}
	} else {
		r.ok("emptied between users", "release", "-", fmt.Sprintf("every one of %d releasing functions empties the buffer", len(pf.releases)))
	}
	if n == 0 {
		r.ok("pooled buffers", "(none)", "-", "no buffer is taken from a pool")
	}
}

func bufferType(t *viewTracker) bool {
	for v := range t.handle {
		if pt, ok := v.Type().Underlying().(*types.Pointer); ok {
			n := namedOf(pt)
			if n == nil || n.Obj().Pkg() == nil || n.Obj().Pkg().Path() != "bytes" || n.Obj().Name() != "Buffer" {
				return false
			}
		}
	}
	return true
}

// obtains: the buffers a function takes from a pool (directly or by a function
// that hands one out).
func (pf *poolFlow) obtains(f *ssa.Function) (l []ssa.Value) {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			c, ok := in.(*ssa.Call)
			if !ok {
				continue
			}
			if isPoolMethod(&c.Call, "Get") {
				l = append(l, c)
			} else if sc := c.Call.StaticCallee(); sc != nil && pf.getters[sc] {
				if sc.Signature.Results().Len() == 1 {
					l = append(l, c)
				}
			}
		}
	}
	return
}

// resetFirst: 1 when the first use of the buffer empties it, 0 when it does
// something else with it, -1 unknown.
func resetFirst(o ssa.Value, t *viewTracker) int {
	var reset ssa.Instruction
	for v := range t.handle {
		if v.Referrers() == nil {
			continue
		}
		for _, ref := range *v.Referrers() {
			if c, ok := ref.(*ssa.Call); ok {
				if sc := c.Call.StaticCallee(); sc != nil && sc.Name() == "Reset" && len(c.Call.Args) == 1 && c.Call.Args[0] == v {
					reset = c
				}
			}
		}
	}
	for v := range t.handle {
		if v.Referrers() == nil {
			continue
		}
		for _, ref := range *v.Referrers() {
			c, ok := ref.(*ssa.Call)
			if !ok || ssa.Instruction(c) == reset || c == o {
				continue
			}
			if reset == nil {
				return 0
			}
			if !before(reset, c) {
				return -1
			}
		}
	}
	return 1
}

// lifetime: at most one release on every path, nothing after it, and no view
// of the contents that outlives the buffer's use.
func (pf *poolFlow) lifetime(r *Report, key string, f *ssa.Function, o ssa.Value, t *viewTracker) {
	type st struct{ now, later int }
	releaseIn := func(in ssa.Instruction) (n int, deferred, cond bool) {
		ci, ok := in.(ssa.CallInstruction)
		if !ok {
			return
		}
		_, deferred = in.(*ssa.Defer)
		cc := ci.Common()
		if isPoolMethod(cc, "Put") && len(cc.Args) == 2 && t.handle[cc.Args[1]] {
			return 1, deferred, false
		}
		if sc := cc.StaticCallee(); sc != nil {
			for i := range pf.releases[sc] {
				if i < len(cc.Args) && t.handle[cc.Args[i]] {
					tt := pf.tracker(sc)
					tt.handle[sc.Params[i]] = true
					tt.run()
					_, c, _ := pf.putsBack(sc, tt)
					return 1, deferred, c
				}
			}
		}
		if mc, ok := cc.Value.(*ssa.MakeClosure); ok {
			fn := mc.Fn.(*ssa.Function)
			for i, bnd := range mc.Bindings {
				if i < len(fn.FreeVars) && (t.handle[bnd] || t.cellH[bnd]) {
					tt := pf.tracker(fn)
					if t.cellH[bnd] {
						tt.cellH[fn.FreeVars[i]] = true
					} else {
						tt.handle[fn.FreeVars[i]] = true
					}
					tt.run()
					if put, c, _ := pf.putsBack(fn, tt); put {
						return 1, deferred, c
					}
				}
			}
		}
		return
	}
	uses := func(in ssa.Instruction) bool {
		switch in.(type) {
		case *ssa.DebugRef, *ssa.Phi, *ssa.MakeInterface, *ssa.TypeAssert, *ssa.ChangeType:
			return false
		}
		var rands []*ssa.Value
		for _, op := range in.Operands(rands) {
			if *op != nil && (t.handle[*op] || t.view[*op]) {
				return true
			}
		}
		return false
	}
	anyRelease, conditional := false, false
	bad, badPos := "", token.NoPos
	start := o.(ssa.Instruction)
	seen := map[*ssa.BasicBlock]map[st]bool{}
	type item struct {
		b *ssa.BasicBlock
		s st
		i int
	}
	work := []item{{start.Block(), st{}, indexOf(start) + 1}}
	returned := false
	for len(work) > 0 {
		it := work[len(work)-1]
		work = work[:len(work)-1]
		s := it.s
		stop := false
		for i := it.i; i < len(it.b.Instrs); i++ {
			in := it.b.Instrs[i]
			if in == start {
				stop = true // another round takes another buffer
				break
			}
			if n, deferred, cond := releaseIn(in); n > 0 {
				anyRelease = true
				conditional = conditional || cond
				if deferred {
					if s.later < 2 {
						s.later++
					}
				} else {
					if s.now > 0 && bad == "" {
						bad, badPos = "the buffer is given back twice", in.Pos()
					}
					s.now = 1
				}
				continue
			}
			if _, ok := in.(*ssa.RunDefers); ok {
				if s.now+s.later > 1 && bad == "" {
					bad, badPos = "the buffer is given back twice", in.Parent().Pos()
				}
				continue
			}
			if s.now > 0 && uses(in) && bad == "" {
				bad, badPos = "the buffer is used after it was given back", in.Pos()
			}
			if rt, ok := in.(*ssa.Return); ok {
				for _, v := range rt.Results {
					if t.view[v] && !t.handle[v] || t.handle[v] && s.now+s.later > 0 {
						returned = true
						if bad == "" && (s.now+s.later > 0) {
							bad, badPos = "what is returned still refers to the buffer, which is given back", rt.Pos()
						}
					}
				}
			}
		}
		if stop {
			continue
		}
		for _, sb := range it.b.Succs {
			if seen[sb] == nil {
				seen[sb] = map[st]bool{}
			}
			if !seen[sb][s] {
				seen[sb][s] = true
				work = append(work, item{sb, s, 0})
			}
		}
	}
	// a deferred release inside the loop that takes the buffer counts per
	// buffer: the walk above stops when the next one is taken
	if bad == "" && t.esc != "" && anyRelease {
		bad, badPos = "the buffer or a view of its contents "+t.esc+", and the buffer is given back", t.escPos
	}
	_ = returned
	if !anyRelease && bad == "" {
		r.ok("pooled buffers", key, pf.p.pos(o.Pos()), "never given back here")
		return
	}
	switch {
	case bad == "":
		r.ok("pooled buffers", key, pf.p.pos(o.Pos()), "given back at most once, nothing refers to it afterwards")
	case conditional:
		r.undecided("pooled buffers", key, pf.p.pos(badPos), bad+" (given back conditionally)")
	default:
		r.fail("pooled buffers", key, pf.p.pos(badPos), bad)
	}
}

func indexOf(in ssa.Instruction) int {
	for i, j := range in.Block().Instrs {
		if j == in {
			return i
		}
	}
	return -1
}
