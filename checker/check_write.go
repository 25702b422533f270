package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("S03", "proof",
		"error propagation dataflow: every operation on the destination of a serialisation (a write, or a call handing the destination on) yields an item that stays pending until its error is known to be nil; at every return each pending item must be covered by the returned error (the error itself, a value known to be non-nil, or the error kept by an error-latching writer through which the operation went); an operation whose error a callee loses is lost at the call unless it goes through a latch",
		checkS03,
		"a writer that fails says so in the error result of Write (the contract of io.Writer)")
}

type wKey struct {
	v ssa.Value
	f int // -2: the value itself, -1: the content of the variable, otherwise a field of *v
}

type wItem struct {
	site ssa.Instruction
	tag  string
	kind string // "" | "lossy" | "own" | "old"
}

type wState map[wItem]map[wKey]bool

func (s wState) clone() wState {
	n := wState{}
	for k, a := range s {
		m := map[wKey]bool{}
		for x := range a {
			m[x] = true
		}
		n[k] = m
	}
	return n
}

// join adds what is pending in o; a coverage has to hold on both sides.
func (s wState) join(o wState) bool {
	ch := false
	for k, a := range o {
		m, ok := s[k]
		if !ok {
			m = map[wKey]bool{}
			for x := range a {
				m[x] = true
			}
			s[k] = m
			ch = true
			continue
		}
		for x := range m {
			if !a[x] {
				delete(m, x)
				ch = true
			}
		}
	}
	return ch
}

type wLoss struct {
	site ssa.Instruction
	what string
}

type writeAn struct {
	p       *Program
	latch   map[*types.Named]int
	lossy   map[*ssa.Function]map[string]*wLoss
	own     map[*ssa.Function]bool
	ownLost map[ssa.Instruction]string
	sites   map[*ssa.Function]int
	wtype   *types.Interface
	tags    map[ssa.Value][]string
	busy    map[ssa.Value]bool
	isLatch *ssa.Function // the Write method being judged as a latch
}

func (w *writeAn) latchField(t types.Type) (int, bool) {
	n := namedOf(t)
	if n == nil {
		return 0, false
	}
	f, ok := w.latch[n]
	return f, ok
}

func (w *writeAn) isWriter(t types.Type) bool {
	if w.wtype == nil {
		return false
	}
	if types.Implements(t, w.wtype) {
		return true
	}
	return false
}

func infallible(t types.Type) bool {
	return typeIs(t, "bytes", "Buffer") || typeIs(t, "strings", "Builder")
}

// tag names where the destination behind v comes from.
func (w *writeAn) tag(v ssa.Value) []string {
	if t, ok := w.tags[v]; ok {
		return t
	}
	if w.busy[v] {
		return nil
	}
	w.busy[v] = true
	defer delete(w.busy, v)
	set := map[string]bool{}
	add := func(l []string) {
		for _, t := range l {
			set[t] = true
		}
	}
	direct := func(t types.Type) bool { // only a destination in itself
		return w.isWriter(t) && !infallible(t)
	}
	switch x := v.(type) {
	case *ssa.Parameter:
		if direct(x.Type()) || w.carrierType(x.Type(), 0) {
			for i, pa := range x.Parent().Params {
				if pa == x {
					set[fmt.Sprintf("p:%d", i)] = true
				}
			}
		}
	case *ssa.FreeVar:
		t := x.Type()
		if pt, ok := t.(*types.Pointer); ok && !w.isWriter(t) {
			t = pt.Elem()
		}
		if direct(t) || w.carrierType(t, 0) {
			for i, fv := range x.Parent().FreeVars {
				if fv == x {
					set[fmt.Sprintf("f:%d", i)] = true
				}
			}
		}
	case *ssa.MakeInterface:
		add(w.tag(x.X))
	case *ssa.ChangeInterface:
		add(w.tag(x.X))
	case *ssa.ChangeType:
		add(w.tag(x.X))
	case *ssa.TypeAssert:
		add(w.tag(x.X))
	case *ssa.Extract:
		add(w.tag(x.Tuple))
	case *ssa.Slice:
		add(w.tag(x.X))
	case *ssa.Phi:
		for _, e := range x.Edges {
			add(w.tag(e))
		}
	case *ssa.UnOp:
		if x.Op != token.MUL || infallible(x.Type()) {
			break
		}
		switch a := x.X.(type) {
		case *ssa.Global:
			if direct(x.Type()) {
				if a.Name() != "Stderr" && a.Name() != "Stdin" {
					set["raw:"+a.Name()] = true
				}
			}
		case *ssa.FieldAddr:
			if direct(x.Type()) || w.carrierType(x.Type(), 0) {
				if as, ok := a.X.(*ssa.Alloc); ok {
					add(w.allocTags(as))
				} else {
					add(w.tag(a.X))
				}
			}
		default:
			add(w.tag(x.X))
		}
	case *ssa.Field:
		if direct(x.Type()) || w.carrierType(x.Type(), 0) {
			add(w.tag(x.X))
		}
	case *ssa.IndexAddr:
		add(w.tag(x.X))
	case *ssa.FieldAddr:
		ft := x.Type().(*types.Pointer).Elem()
		if _, ok := w.latchField(ft); ok && w.latchNamed(x.Type()) {
			set["L:"+x.Name()+"@"+shortFn(x.Parent())] = true
		} else if direct(ft) || w.carrierType(ft, 0) {
			add(w.tag(x.X))
		}
	case *ssa.Alloc:
		el := x.Type().(*types.Pointer).Elem()
		if infallible(el) {
			break
		}
		if w.latchNamed(el) {
			set["L:"+x.Name()] = true
			break
		}
		add(w.allocTags(x))
	case *ssa.MakeClosure:
		for _, b := range x.Bindings {
			add(w.tag(b))
		}
	case *ssa.Call:
		if len(x.Call.Args) == 0 && !x.Call.IsInvoke() {
			break
		}
		res := x.Type()
		if tp, ok := res.(*types.Tuple); ok {
			if tp.Len() == 0 {
				break
			}
			res = tp.At(0).Type()
		}
		if isErrorType(res) || infallible(res) {
			break
		}
		switch res.Underlying().(type) {
		case *types.Pointer, *types.Interface, *types.Struct:
		default:
			return nil
		}
		arg := map[string]bool{}
		for _, a := range callOperands(&x.Call) {
			for _, t := range w.tag(a) {
				arg[t] = true
			}
		}
		if len(arg) == 0 {
			if direct(res) && !w.p.inModuleCall(&x.Call) {
				// a destination opened here
				if f := x.Call.StaticCallee(); f != nil && f.Pkg != nil && f.Pkg.Pkg.Path() == "os" && f.Name() != "Open" {
					set["raw:"+f.Name()] = true
				}
			}
			break
		}
		switch {
		case w.latchNamed(res):
			set["L:"+x.Name()] = true
		case typeIs(res, "bufio", "Writer"):
			set["B:"+x.Name()] = true
		case w.isWriter(res) || w.carrierType(res, 0) || !w.p.inModuleCall(&x.Call):
			for t := range arg {
				set[t] = true
			}
		}
	}
	var res []string
	for t := range set {
		res = append(res, t)
	}
	sort.Strings(res)
	if len(w.busy) == 1 {
		w.tags[v] = res
	}
	return res
}

func (p *Program) inModuleCall(cc *ssa.CallCommon) bool {
	f := cc.StaticCallee()
	return f != nil && p.inModule(f)
}

func callOperands(cc *ssa.CallCommon) []ssa.Value {
	var l []ssa.Value
	if cc.IsInvoke() || cc.StaticCallee() == nil {
		l = append(l, cc.Value)
	} else if _, ok := cc.Value.(*ssa.MakeClosure); ok {
		l = append(l, cc.Value)
	}
	return append(l, cc.Args...)
}

func (w *writeAn) latchNamed(t types.Type) bool {
	_, ok := w.latchField(t)
	return ok
}

// carrierType: a structure of the module one of whose fields is a destination.
func (w *writeAn) carrierType(t types.Type, depth int) bool {
	if depth > 3 {
		return false
	}
	if pt, ok := t.Underlying().(*types.Pointer); ok {
		t = pt.Elem()
	}
	n := namedOf(t)
	if n == nil || n.Obj().Pkg() == nil || !strings.HasPrefix(n.Obj().Pkg().Path(), w.p.mod) {
		return false
	}
	st, ok := n.Underlying().(*types.Struct)
	if !ok {
		return false
	}
	for i := 0; i < st.NumFields(); i++ {
		ft := st.Field(i).Type()
		if infallible(ft) {
			continue
		}
		if w.isWriter(ft) || w.carrierType(ft, depth+1) {
			return true
		}
		if w.isWriter(types.NewPointer(ft)) && w.latchNamed(ft) {
			return true
		}
	}
	return false
}

// allocTags: the destinations stored in a variable or structure.
func (w *writeAn) allocTags(a *ssa.Alloc) []string {
	set := map[string]bool{}
	var visit func(v ssa.Value, depth int)
	visit = func(v ssa.Value, depth int) {
		if depth > 3 || v.Referrers() == nil {
			return
		}
		for _, r := range *v.Referrers() {
			switch x := r.(type) {
			case *ssa.Store:
				if x.Addr == v {
					for _, t := range w.tag(x.Val) {
						set[t] = true
					}
				}
			case *ssa.FieldAddr:
				visit(x, depth+1)
			case *ssa.IndexAddr:
				visit(x, depth+1)
			}
		}
	}
	visit(a, 0)
	var res []string
	for t := range set {
		res = append(res, t)
	}
	return res
}

// inner: the destinations behind a latch or buffer.
func (w *writeAn) inner(fn *ssa.Function, tag string) []string {
	name := strings.SplitN(tag[2:], "@", 2)[0]
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			v, ok := in.(ssa.Value)
			if !ok || v.Name() != name {
				continue
			}
			switch x := v.(type) {
			case *ssa.Alloc:
				return w.allocTags(x)
			case *ssa.FieldAddr:
				if a, ok := x.X.(*ssa.Alloc); ok {
					return w.allocTags(a)
				}
				return w.tag(x.X)
			case *ssa.Call:
				set := map[string]bool{}
				for _, a := range callOperands(&x.Call) {
					for _, t := range w.tag(a) {
						set[t] = true
					}
				}
				return sortedKeys(set)
			}
		}
	}
	return nil
}

// errResult is the value holding the error of a call (nil if it is dropped),
// and whether the callee has one.
func errResult(c *ssa.Call) (ssa.Value, bool) {
	if isErrorType(c.Type()) {
		return c, true
	}
	tp, ok := c.Type().(*types.Tuple)
	if !ok || tp.Len() == 0 || !isErrorType(tp.At(tp.Len()-1).Type()) {
		return nil, false
	}
	for _, r := range *c.Referrers() {
		if e, ok := r.(*ssa.Extract); ok && e.Index == tp.Len()-1 {
			return e, true
		}
	}
	return nil, true
}

func wcell(addr ssa.Value) (wKey, bool) {
	switch x := addr.(type) {
	case *ssa.Alloc:
		return wKey{x, -1}, true
	case *ssa.FieldAddr:
		return wKey{x.X, x.Field}, true
	case *ssa.FreeVar:
		return wKey{x, -1}, true
	}
	return wKey{}, false
}

// add makes an item pending; what is pending from an earlier execution of the
// same site is kept apart.
func (s wState) put(it wItem, al ...ssa.Value) {
	if a, ok := s[it]; ok {
		old := it
		old.kind += "old"
		if !strings.HasSuffix(it.kind, "old") {
			s.join(wState{old: a})
		}
	}
	m := map[wKey]bool{}
	for _, v := range al {
		if v != nil {
			m[wKey{v, -2}] = true
		}
	}
	s[it] = m
}

// latchErr: v reads the error kept by a latch; the tags of the latch.
func (w *writeAn) latchErr(v ssa.Value) []string {
	switch x := v.(type) {
	case *ssa.UnOp:
		if fa, ok := x.X.(*ssa.FieldAddr); ok && x.Op == token.MUL {
			if f, ok := w.latchField(fa.X.Type()); ok && f == fa.Field {
				return w.tag(fa.X)
			}
		}
	case *ssa.Field:
		if f, ok := w.latchField(x.X.Type()); ok && f == x.Field {
			return w.tag(x.X)
		}
	case *ssa.Call:
		f := x.Call.StaticCallee()
		if f == nil || !w.p.inModule(f) || len(f.Blocks) != 1 || len(f.Params) == 0 || !isErrorType(x.Type()) || len(x.Call.Args) == 0 {
			return nil
		}
		ret, ok := f.Blocks[0].Instrs[len(f.Blocks[0].Instrs)-1].(*ssa.Return)
		if !ok {
			return nil
		}
		u, ok := ret.Results[0].(*ssa.UnOp)
		if !ok {
			return nil
		}
		fa, ok := u.X.(*ssa.FieldAddr)
		if !ok || fa.X != f.Params[0] {
			return nil
		}
		if fi, ok := w.latchField(fa.X.Type()); ok && fi == fa.Field {
			return w.tag(x.Call.Args[0])
		}
	}
	return nil
}

// step is the transfer of one instruction.
func (w *writeAn) step(fn *ssa.Function, s wState, in ssa.Instruction) {
	if v, ok := in.(ssa.Value); ok {
		if tags := w.latchErr(v); len(tags) > 0 {
			for it, al := range s {
				for _, t := range tags {
					if it.tag == t && !strings.HasPrefix(it.kind, "own") {
						al[wKey{v, -2}] = true
					}
				}
			}
			return
		}
	}
	switch x := in.(type) {
	case *ssa.Store:
		c, ok := wcell(x.Addr)
		if !ok || !isErrorType(x.Val.Type()) {
			return
		}
		nn := errNonNil(x.Val, x.Block())
		for _, al := range s {
			delete(al, c)
			if al[wKey{x.Val, -2}] || nn {
				al[c] = true
			}
		}
	case *ssa.UnOp:
		if x.Op != token.MUL {
			return
		}
		c, ok := wcell(x.X)
		if !ok {
			return
		}
		for _, al := range s {
			if al[c] {
				al[wKey{x, -2}] = true
			}
		}
	case *ssa.Call:
		w.call(fn, s, x)
	case *ssa.Defer:
		for _, a := range callOperands(&x.Call) {
			for _, t := range w.tag(a) {
				s.put(wItem{x, t, "lossy"})
				w.sites[fn]++
			}
		}
	case *ssa.Go:
		for _, a := range callOperands(&x.Call) {
			for _, t := range w.tag(a) {
				s.put(wItem{x, t, "lossy"})
				w.sites[fn]++
			}
		}
	}
}

func (w *writeAn) call(fn *ssa.Function, s wState, x *ssa.Call) {
	cc := &x.Call
	errv, has := errResult(x)
	f := cc.StaticCallee()
	// wrapping keeps an error non-nil
	if has && f != nil && f.Pkg != nil && strings.HasSuffix(f.Pkg.Pkg.Path(), "pkg/errors") && len(cc.Args) > 0 {
		for _, al := range s {
			if al[wKey{cc.Args[0], -2}] {
				al[wKey{x, -2}] = true
			}
		}
		return
	}
	if f != nil && errorMaker(f) {
		return
	}
	ops := callOperands(cc)
	tagged := false
	inMod := f != nil && w.p.inModule(f)
	if mc, ok := cc.Value.(*ssa.MakeClosure); ok {
		f = mc.Fn.(*ssa.Function)
		inMod = true
	}
	writerArg := false
	for i, a := range ops {
		if w.isWriter(a.Type()) {
			writerArg = true
		}
		tags := w.tag(a)
		if len(tags) == 0 {
			continue
		}
		_, isClosure := a.(*ssa.MakeClosure)
		for _, t := range tags {
			// the flush of a buffer
			if strings.HasPrefix(t, "B:") && f != nil && f.Name() == "Flush" && i == 0 {
				for it := range s {
					if it.tag == t {
						delete(s, it)
					}
				}
				for _, it := range w.inner(fn, t) {
					s.put(wItem{x, it, ""}, errv)
				}
				tagged = true
				continue
			}
			if isCtor(x) && !inMod {
				continue
			}
			if inMod {
				// by position of the parameter
				idx := i
				key := fmt.Sprintf("p:%d", idx)
				if isClosure && i == 0 {
					for j := range f.FreeVars {
						k := fmt.Sprintf("f:%d", j)
						if w.lossy[f][k] != nil {
							s.put(wItem{x, t, "lossy"})
						}
					}
				} else {
					if _, ok := cc.Value.(*ssa.MakeClosure); ok {
						key = fmt.Sprintf("p:%d", idx-1)
					}
					if w.lossy[f][key] != nil {
						s.put(wItem{x, t, "lossy"})
					}
				}
				if !w.touches(f) {
					continue
				}
			}
			tagged = true
			if has {
				s.put(wItem{x, t, ""}, errv)
			} else if !inMod && !isCtor(x) {
				s.put(wItem{x, t, "lossy"})
			}
		}
	}
	if tagged {
		w.sites[fn]++
	}
	if inMod && has && w.own[f] && (writerArg || tagged) {
		s.put(wItem{x, "", "own"}, errv)
	}
}

// touches: the function may use a destination it is given.
func (w *writeAn) touches(f *ssa.Function) bool { return w.sites[f] > 0 || len(f.Blocks) == 0 }

// isCtor: the call returns something that wraps the destination.
func isCtor(x *ssa.Call) bool {
	t := x.Type()
	if tp, ok := t.(*types.Tuple); ok {
		if tp.Len() == 0 {
			return false
		}
		t = tp.At(0).Type()
	}
	if isErrorType(t) {
		return false
	}
	switch t.Underlying().(type) {
	case *types.Pointer, *types.Interface, *types.Struct:
		return true
	}
	return false
}

// edge: what is known when control passes from one block to the next.
func (w *writeAn) edge(s wState, from, to *ssa.BasicBlock) wState {
	s = s.clone()
	if ifi, ok := from.Instrs[len(from.Instrs)-1].(*ssa.If); ok && from.Succs[0] != from.Succs[1] {
		cond, neg := ifi.Cond, to == from.Succs[1]
		for {
			if u, ok := cond.(*ssa.UnOp); ok && u.Op == token.NOT {
				cond, neg = u.X, !neg
				continue
			}
			break
		}
		if bo, ok := cond.(*ssa.BinOp); ok && (bo.Op == token.EQL || bo.Op == token.NEQ) {
			v := bo.X
			if isNilConst(v) {
				v = bo.Y
			}
			if (isNilConst(bo.X) || isNilConst(bo.Y)) && isErrorType(v.Type()) {
				isNil := (bo.Op == token.EQL) != neg
				if isNil {
					for it, al := range s {
						if al[wKey{v, -2}] {
							delete(s, it)
						}
					}
				}
			}
		}
	}
	for pi, pr := range to.Preds {
		if pr != from {
			continue
		}
		type upd struct {
			ph *ssa.Phi
			v  ssa.Value
		}
		var ups []upd
		for _, in := range to.Instrs {
			ph, ok := in.(*ssa.Phi)
			if !ok {
				break
			}
			if isErrorType(ph.Type()) {
				ups = append(ups, upd{ph, ph.Edges[pi]})
			}
		}
		for _, al := range s {
			set := map[wKey]bool{}
			for _, u := range ups {
				if al[wKey{u.v, -2}] || errNonNil(u.v, from) {
					set[wKey{u.ph, -2}] = true
				}
			}
			for _, u := range ups {
				delete(al, wKey{u.ph, -2})
			}
			for k := range set {
				al[k] = true
			}
		}
		break
	}
	return s
}

// analyse returns the destinations of fn whose errors it may lose.
func (w *writeAn) analyse(fn *ssa.Function) map[string]*wLoss {
	w.sites[fn] = 0
	in := map[*ssa.BasicBlock]wState{fn.Blocks[0]: {}}
	work := []*ssa.BasicBlock{fn.Blocks[0]}
	n := 0
	lost := map[string]*wLoss{}
	for len(work) > 0 && n < 20000 {
		n++
		b := work[0]
		work = work[1:]
		s := in[b].clone()
		for _, i := range b.Instrs {
			w.step(fn, s, i)
		}
		for _, t := range b.Succs {
			e := w.edge(s, b, t)
			if in[t] == nil {
				in[t] = wState{}
				in[t].join(e)
				work = append(work, t)
			} else if in[t].join(e) {
				work = append(work, t)
			}
		}
	}
	// judge the returns with the final states
	w.sites[fn] = 0
	lose := func(it wItem, ret *ssa.Return) {
		if strings.HasPrefix(it.kind, "own") {
			w.ownLost[it.site] = w.p.instrPos(ret)
			return
		}
		tags := []string{it.tag}
		for i := 0; i < 4; i++ {
			var nx []string
			for _, t := range tags {
				if strings.HasPrefix(t, "L:") || strings.HasPrefix(t, "B:") {
					nx = append(nx, w.inner(fn, t)...)
				} else {
					nx = append(nx, t)
				}
			}
			tags = nx
		}
		for _, t := range tags {
			if lost[t] == nil || it.site.Pos() < lost[t].site.Pos() {
				lost[t] = &wLoss{it.site, "the error of the operation at " + w.p.instrPos(it.site) + " is lost at the return at " + w.p.instrPos(ret)}
			}
		}
	}
	for _, b := range fn.Blocks {
		if in[b] == nil {
			continue
		}
		s := in[b].clone()
		for _, i := range b.Instrs {
			w.step(fn, s, i)
		}
		ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
		if !ok {
			if _, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Panic); ok {
				continue
			}
			continue
		}
		res := fn.Signature.Results()
		var ev ssa.Value
		if n := res.Len(); n > 0 {
			if isErrorType(res.At(n - 1).Type()) {
				ev = ret.Results[n-1]
			} else if bt, ok := res.At(n - 1).Type().Underlying().(*types.Basic); ok && bt.Info()&types.IsInteger != 0 {
				// an exit status
				if c, ok := ret.Results[n-1].(*ssa.Const); ok && c.Value != nil && constant.Sign(c.Value) != 0 && fn.Pkg != nil && fn.Pkg.Pkg.Name() == "main" {
					continue
				}
			}
		}
		if w.isLatch == fn {
			fi, _ := w.latchField(fn.Params[0].Type())
			c := wKey{fn.Params[0], fi}
			for it, al := range s {
				if !al[c] {
					lose(it, ret)
				}
			}
			continue
		}
		for it, al := range s {
			if ev != nil {
				sp := spilled(ev, ret)
				if al[wKey{ev, -2}] || al[wKey{sp, -2}] || errNonNil(ev, b) || errNonNil(sp, b) {
					continue
				}
			}
			lose(it, ret)
		}
	}
	return lost
}

// ownError: a value that is, or may be, an error of fn's own making or that of
// a serialising callee.
func (w *writeAn) ownError(v ssa.Value, seen map[ssa.Value]bool) bool {
	if v == nil || seen[v] {
		return false
	}
	seen[v] = true
	switch x := v.(type) {
	case *ssa.Phi:
		for _, e := range x.Edges {
			if w.ownError(e, seen) {
				return true
			}
		}
	case *ssa.MakeInterface:
		return true
	case *ssa.UnOp:
		if g, ok := x.X.(*ssa.Global); ok && g.Pkg != nil && strings.HasPrefix(g.Pkg.Pkg.Path(), w.p.mod) {
			return true
		}
		if a, ok := x.X.(*ssa.Alloc); ok && a.Referrers() != nil {
			for _, r := range *a.Referrers() {
				if st, ok := r.(*ssa.Store); ok && st.Addr == a && w.ownError(st.Val, seen) {
					return true
				}
			}
		}
	case *ssa.Extract:
		return w.ownError(x.Tuple, seen)
	case *ssa.Call:
		f := x.Call.StaticCallee()
		if f == nil {
			return false
		}
		if w.p.inModule(f) {
			return w.own[f]
		}
		if f.Pkg != nil && strings.HasSuffix(f.Pkg.Pkg.Path(), "pkg/errors") && len(x.Call.Args) > 0 && isErrorType(x.Call.Args[0].Type()) {
			return w.ownError(x.Call.Args[0], seen)
		}
		return errorMaker(f)
	}
	return false
}

func (w *writeAn) takesWriter(f *ssa.Function) bool {
	for _, pa := range f.Params {
		if w.isWriter(pa.Type()) || w.carrierType(pa.Type(), 0) {
			return true
		}
	}
	return false
}

// findLatches: module types whose Write keeps the error of the inner write in
// a field that never loses it.
func (w *writeAn) findLatches(r *Report) {
	for _, fn := range w.p.funcs {
		if fn.Name() != "Write" || fn.Signature.Recv() == nil || len(fn.Params) != 2 {
			continue
		}
		n := namedOf(fn.Params[0].Type())
		if n == nil {
			continue
		}
		st, ok := n.Underlying().(*types.Struct)
		if !ok {
			continue
		}
		if _, isPtr := fn.Params[0].Type().(*types.Pointer); !isPtr {
			continue
		}
		for i := 0; i < st.NumFields(); i++ {
			if !isErrorType(st.Field(i).Type()) {
				continue
			}
			why := ""
			w.latch[n] = i
			w.isLatch = fn
			w.tags = map[ssa.Value][]string{}
			// inside Write the inner destination counts as the receiver's
			lost := w.analyse(fn)
			w.isLatch = nil
			for _, l := range lost {
				why = l.what + " without having been kept"
			}
			if w.sites[fn] == 0 {
				why = "no inner write found"
			}
			if why == "" {
				why = w.keeps(n, i)
			}
			if why != "" {
				delete(w.latch, n)
			}
			w.tags = map[ssa.Value][]string{}
			r.note("type %s: error kept in field %s: %v %s", n.Obj().Name(), st.Field(i).Name(), why == "", why)
			if why == "" {
				r.ok("latch-keeps", n.Obj().Name(), w.p.pos(fn.Pos()), "every error of the inner write is kept in field "+st.Field(i).Name()+" and never cleared")
			}
			if why == "" {
				break
			}
		}
	}
}

// keeps: no store clears the field.
func (w *writeAn) keeps(n *types.Named, field int) string {
	for _, fn := range w.p.allFuncsWithInit() {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				st, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				if pt, ok := st.Addr.Type().(*types.Pointer); ok && namedOf(pt.Elem()) == n {
					if _, isPtr := pt.Elem().(*types.Pointer); !isPtr {
						if _, ok := st.Addr.(*ssa.Alloc); !ok {
							return "overwritten as a whole at " + w.p.instrPos(in)
						}
					}
				}
				fa, ok := st.Addr.(*ssa.FieldAddr)
				if !ok || fa.Field != field || namedOf(fa.X.Type()) != n {
					continue
				}
				if errNonNil(st.Val, b) || w.fieldNilAt(fa, b) {
					continue
				}
				return "may be cleared at " + w.p.instrPos(in)
			}
		}
	}
	return ""
}

// fieldNilAt: the field is known to be nil in block b.
func (w *writeAn) fieldNilAt(fa *ssa.FieldAddr, b *ssa.BasicBlock) bool {
	for c := b; c != nil; c = c.Idom() {
		d := c.Idom()
		if d == nil {
			return false
		}
		ifi, ok := d.Instrs[len(d.Instrs)-1].(*ssa.If)
		if !ok {
			continue
		}
		bo, ok := ifi.Cond.(*ssa.BinOp)
		if !ok || !isNilConst(bo.Y) {
			continue
		}
		u, ok := bo.X.(*ssa.UnOp)
		if !ok {
			continue
		}
		f2, ok := u.X.(*ssa.FieldAddr)
		if !ok || f2.X != fa.X || f2.Field != fa.Field {
			continue
		}
		k := 0
		if bo.Op == token.NEQ {
			k = 1
		}
		if d.Succs[k].Dominates(b) && len(d.Succs[k].Preds) == 1 {
			return true
		}
	}
	return false
}

func checkS03(p *Program, r *Report) {
	w := &writeAn{p: p, latch: map[*types.Named]int{}, lossy: map[*ssa.Function]map[string]*wLoss{}, own: map[*ssa.Function]bool{},
		ownLost: map[ssa.Instruction]string{}, sites: map[*ssa.Function]int{}, tags: map[ssa.Value][]string{}, busy: map[ssa.Value]bool{}}
	for _, pk := range p.prog.AllPackages() {
		if pk.Pkg.Path() == "io" {
			if t, ok := pk.Pkg.Scope().Lookup("Writer").(*types.TypeName); ok {
				w.wtype = t.Type().Underlying().(*types.Interface)
			}
		}
	}
	if w.wtype == nil {
		r.fail("anchor", "io.Writer", "?", "package io is not loaded")
		return
	}
	w.findLatches(r)

	// functions that fail for reasons of their own
	for ch := true; ch; {
		ch = false
		for _, fn := range p.funcs {
			if w.own[fn] || len(fn.Blocks) == 0 {
				continue
			}
			res := fn.Signature.Results()
			if res.Len() == 0 || !isErrorType(res.At(res.Len()-1).Type()) {
				continue
			}
			for _, b := range fn.Blocks {
				if ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
					if w.ownError(spilled(ret.Results[res.Len()-1], ret), map[ssa.Value]bool{}) {
						w.own[fn] = true
						ch = true
					}
				}
			}
		}
	}

	var fns []*ssa.Function
	for _, fn := range p.funcs {
		if len(fn.Blocks) > 0 && (fn.Name() != "Write" || !w.isLatchWrite(fn)) {
			fns = append(fns, fn)
		}
	}
	for round := 0; round < 50; round++ {
		ch := false
		for _, fn := range fns {
			before := w.sites[fn] > 0
			l := w.analyse(fn)
			if (w.sites[fn] > 0) != before || len(l) != len(w.lossy[fn]) {
				ch = true
			}
			w.lossy[fn] = l
		}
		if !ch {
			break
		}
	}
	total := 0
	for _, fn := range fns {
		if w.sites[fn] == 0 {
			continue
		}
		r.fn(shortFn(fn))
		total += w.sites[fn]
		for t, l := range w.lossy[fn] {
			r.note("%s does not report every error of %s: %s", shortFn(fn), t, l.what)
		}
	}
	r.stats["operations on a destination"] = total

	// the public functions that take a destination
	for _, fn := range fns {
		ob := fn.Object()
		if ob == nil || !ob.Exported() || fn.Parent() != nil || w.sites[fn] == 0 {
			continue
		}
		if rv := fn.Signature.Recv(); rv != nil {
			if n := namedOf(rv.Type()); n == nil || !n.Obj().Exported() {
				continue
			}
		}
		for i, pa := range fn.Params {
			if !w.isWriter(pa.Type()) {
				continue
			}
			key := shortFn(fn)
			if l := w.lossy[fn][fmt.Sprintf("p:%d", i)]; l != nil {
				r.fail("reports-failure", key, p.pos(fn.Pos()), l.what+w.chain(l))
			} else {
				r.ok("reports-failure", key, p.pos(fn.Pos()), fmt.Sprintf("%d operations on the destination, every error reported", w.sites[fn]))
			}
		}
	}
	r.min("reports-failure", 4)

	// destinations the module opens itself
	for _, fn := range fns {
		if w.sites[fn] == 0 {
			continue
		}
		raw := ""
		for t, l := range w.lossy[fn] {
			if strings.HasPrefix(t, "raw:") {
				raw = t
				r.fail("own-destination", shortFn(fn)+" "+t, p.pos(fn.Pos()), l.what+w.chain(l))
			}
		}
		if raw == "" {
			for _, b := range fn.Blocks {
				for _, in := range b.Instrs {
					if c, ok := in.(*ssa.Call); ok {
						for _, a := range callOperands(&c.Call) {
							for _, t := range w.tag(a) {
								if strings.HasPrefix(t, "raw:") {
									r.ok("own-destination", shortFn(fn)+" "+t, p.pos(fn.Pos()), "every error is reported")
								}
							}
						}
					}
				}
			}
		}
	}
	r.min("own-destination", 1)

	// errors of the serialiser's own making
	type lostOwn struct{ key, pos, what string }
	bad := map[string]lostOwn{}
	for in, ret := range w.ownLost {
		c := in.(*ssa.Call)
		f := c.Call.StaticCallee()
		key := shortFn(in.Parent()) + " -> " + f.Name()
		bad[key] = lostOwn{key, p.instrPos(in), "the error is lost at the return at " + ret}
	}
	for _, fn := range fns {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				c, ok := in.(*ssa.Call)
				if !ok {
					continue
				}
				f := c.Call.StaticCallee()
				if f == nil || !p.inModule(f) || !w.own[f] || !w.takesWriter(f) {
					continue
				}
				key := shortFn(fn) + " -> " + f.Name()
				if l, is := bad[key]; is {
					r.fail("refusal-reported", key, l.pos, l.what)
				} else {
					r.ok("refusal-reported", key, p.instrPos(in), "an error of the callee's own making is returned")
				}
			}
		}
	}
	r.min("refusal-reported", 8)
}

func (w *writeAn) isLatchWrite(fn *ssa.Function) bool {
	return len(fn.Params) == 2 && w.latchNamed(fn.Params[0].Type())
}

// chain follows a loss into the callee.
func (w *writeAn) chain(l *wLoss) string {
	res := ""
	for i := 0; i < 8; i++ {
		c, ok := l.site.(*ssa.Call)
		if !ok {
			break
		}
		f := c.Call.StaticCallee()
		if f == nil || len(w.lossy[f]) == 0 {
			break
		}
		ks := sortedKeys(w.lossy[f])
		n := w.lossy[f][ks[0]]
		res += "; in " + shortFn(f) + " " + n.what
		if n == l {
			break
		}
		l = n
	}
	return res
}
