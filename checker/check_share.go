package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("G01", "proof", "flow-insensitive interprocedural dataflow over SSA: everything that may point into package-level memory (and, from the parse entry points, into the parser) is tracked through calls, results, fields and interface implementations, and no write may go through it; typestate and escape analysis of every buffer taken from a pool (at most one release, no use after it, no view of it outlives it, emptied between users)",
		checkShare, "library objects that are safe for concurrent use by their documentation are (sync, regexp, strings.Replacer, character sets)", "writers do not keep or change what they are given (contract of io.Writer)")
}

func checkShare(p *Program, r *Report) {
	p.sharedGlobals(r)
	p.parserUnchanged(r)
	p.pools(r)
}

// ---- writes to shared memory ----

type taint struct {
	p       *Program
	vals    map[ssa.Value]string
	fields  map[string]string // "type.field" or "elem T": may hold a pointer into shared memory
	cells   map[ssa.Value]string
	work    []ssa.Value
	funcs   []*ssa.Function
	loads   map[string][]ssa.Value // readers of fields
	skip    func(fn *ssa.Function) bool
	callIn  map[*ssa.Function][]ssa.CallInstruction
	rets    map[*ssa.Function]string
	dirty   bool
	aliased map[string]bool
}

func pointerish(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Pointer, *types.Slice, *types.Map, *types.Chan:
		return true
	case *types.Interface:
		return !isErrorType(t)
	case *types.Struct, *types.Array, *types.Tuple:
		return true
	}
	return false
}

func (t *taint) mark(v ssa.Value, src string) {
	if v == nil || !pointerish(v.Type()) {
		return
	}
	if _, ok := t.vals[v]; ok {
		return
	}
	t.vals[v] = src
	t.work = append(t.work, v)
}

func heapField(v *ssa.FieldAddr) string {
	st := v.X.Type().Underlying().(*types.Pointer).Elem()
	s := st.Underlying().(*types.Struct)
	return types.TypeString(st, nil) + "." + s.Field(v.Field).Name()
}

// elemName is the class of memory that holds the elements of v.  A map or
// slice that is read from a field is told apart by the field, provided that
// the field only ever holds containers of its own.
func (t *taint) elemName(v ssa.Value) (key, class string) {
	switch u := v.Type().Underlying().(type) {
	case *types.Pointer:
		if a, ok := u.Elem().Underlying().(*types.Array); ok {
			class = "elem " + types.TypeString(a.Elem(), nil)
		}
	case *types.Slice:
		class = "elem " + types.TypeString(u.Elem(), nil)
	case *types.Map:
		class = "map elem " + types.TypeString(u.Elem(), nil)
	case *types.Array:
		class = "elem " + types.TypeString(u.Elem(), nil)
	}
	if class == "" {
		class = "elem ?"
	}
	key = class
	if u, ok := v.(*ssa.UnOp); ok && u.Op == token.MUL {
		switch a := u.X.(type) {
		case *ssa.FieldAddr:
			if f := heapField(a); !t.sharedField()[f] {
				key = class + " of " + f
			}
		case *ssa.Global:
			if f := "var " + a.Name(); !t.sharedField()[f] {
				key = class + " of " + f
			}
		}
	}
	return
}

// elems: the taint of what is read from a container.
func (t *taint) elems(v ssa.Value) (string, bool) {
	k, class := t.elemName(v)
	if s, ok := t.fields[class]; ok {
		return s, true
	}
	if k != class {
		s, ok := t.fields[k]
		return s, ok
	}
	for _, k := range sortedKeys(t.fields) {
		if strings.HasPrefix(k, class+" of ") {
			return t.fields[k], true
		}
	}
	return "", false
}

func (t *taint) putElem(v ssa.Value, src string) {
	k, _ := t.elemName(v)
	if _, ok := t.fields[k]; !ok {
		t.fields[k] = src
		t.dirty = true
	}
}

// sharedField: the fields and variables whose map or slice may also be
// reachable by another name.
func (t *taint) sharedField() map[string]bool {
	if t.aliased != nil {
		return t.aliased
	}
	t.aliased = map[string]bool{}
	for _, f := range t.p.allFuncsWithInit() {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				st, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				name := ""
				switch a := st.Addr.(type) {
				case *ssa.FieldAddr:
					name = heapField(a)
				case *ssa.Global:
					name = "var " + a.Name()
				default:
					continue
				}
				switch st.Val.Type().Underlying().(type) {
				case *types.Map, *types.Slice, *types.Pointer:
				default:
					continue
				}
				switch x := st.Val.(type) {
				case *ssa.MakeMap, *ssa.MakeSlice, *ssa.Const:
					if mm, ok := x.(ssa.Value); ok && mm.Referrers() != nil {
						for _, ref := range *mm.Referrers() {
							switch y := ref.(type) {
							case *ssa.Store:
								if y != st {
									t.aliased[name] = true
								}
							case *ssa.MapUpdate, *ssa.DebugRef:
							default:
								if _, isC := x.(*ssa.Const); !isC {
									t.aliased[name] = true
								}
							}
						}
					}
				default:
					t.aliased[name] = true
				}
			}
		}
	}
	return t.aliased
}

// heapKey names the place an address stands for.
func (t *taint) heapKey(a ssa.Value) (string, ssa.Value) {
	switch x := a.(type) {
	case *ssa.FieldAddr:
		return heapField(x), nil
	case *ssa.IndexAddr:
		k, _ := t.elemName(x.X)
		return k, nil
	case *ssa.Alloc, *ssa.FreeVar:
		return "", a
	}
	return "", nil
}

func newTaint(p *Program, funcs []*ssa.Function) *taint {
	t := &taint{p: p, vals: map[ssa.Value]string{}, fields: map[string]string{}, cells: map[ssa.Value]string{}, funcs: funcs, rets: map[*ssa.Function]string{}}
	t.callIn = map[*ssa.Function][]ssa.CallInstruction{}
	for _, f := range funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if ci, ok := in.(ssa.CallInstruction); ok {
					for _, c := range p.callees(f, ci) {
						t.callIn[c] = append(t.callIn[c], ci)
					}
				}
			}
		}
	}
	return t
}

func (t *taint) put(addr ssa.Value, src string) {
	k, c := t.heapKey(addr)
	if k != "" {
		if _, ok := t.fields[k]; !ok {
			t.fields[k] = src
			t.dirty = true
		}
	}
	if c != nil {
		if _, ok := t.cells[c]; !ok {
			t.cells[c] = src
			t.dirty = true
		}
	}
}

func (t *taint) run() {
	for {
		t.dirty = false
		n := len(t.vals)
		for _, f := range t.funcs {
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					t.step(f, in)
				}
			}
		}
		t.work = nil
		if !t.dirty && len(t.vals) == n {
			return
		}
	}
}

func (t *taint) of(v ssa.Value) (string, bool) {
	if _, ok := v.(*ssa.Global); ok {
		return "", false
	}
	s, ok := t.vals[v]
	return s, ok
}

func (t *taint) args(f *ssa.Function, cc *ssa.CallCommon) []ssa.Value {
	if cc.IsInvoke() {
		return append([]ssa.Value{cc.Value}, cc.Args...)
	}
	return cc.Args
}

func (t *taint) step(f *ssa.Function, in ssa.Instruction) {
	from := func(v ssa.Value, x ssa.Value) {
		if s, ok := t.of(x); ok {
			t.mark(v, s)
		}
	}
	switch x := in.(type) {
	case *ssa.UnOp:
		if x.Op == token.MUL {
			if g, ok := x.X.(*ssa.Global); ok && t.globals(g) {
				t.mark(x, "package variable "+g.Name())
				return
			}
			from(x, x.X) // what shared memory points to is shared
			k, c := t.heapKey(x.X)
			if s, ok := t.fields[k]; ok && k != "" {
				t.mark(x, s)
			}
			if ia, ok := x.X.(*ssa.IndexAddr); ok {
				if s, ok := t.elems(ia.X); ok {
					t.mark(x, s)
				}
			}
			if c != nil {
				if s, ok := t.cells[c]; ok {
					t.mark(x, s)
				}
			}
		}
	case *ssa.FieldAddr:
		if g, ok := x.X.(*ssa.Global); ok && t.globals(g) {
			t.mark(x, "package variable "+g.Name())
		}
		from(x, x.X)
	case *ssa.IndexAddr:
		if g, ok := x.X.(*ssa.Global); ok && t.globals(g) {
			t.mark(x, "package variable "+g.Name())
		}
		from(x, x.X)
	case *ssa.Field:
		from(x, x.X)
		st := x.X.Type()
		if s, ok := t.fields[types.TypeString(st, nil)+"."+st.Underlying().(*types.Struct).Field(x.Field).Name()]; ok {
			t.mark(x, s)
		}
	case *ssa.Index:
		from(x, x.X)
	case *ssa.Lookup:
		from(x, x.X)
		if s, ok := t.elems(x.X); ok {
			t.mark(x, s)
		}
	case *ssa.Extract:
		if c, ok := x.Tuple.(*ssa.Call); ok {
			for _, g := range t.p.callees(f, c) {
				if s, ok := t.ret(g, x.Index); ok {
					t.mark(x, s)
				}
			}
			return
		}
		if n, ok := x.Tuple.(*ssa.Next); ok {
			if rg, ok := n.Iter.(*ssa.Range); ok {
				from(x, rg.X)
				if s, ok := t.elems(rg.X); ok {
					t.mark(x, s)
				}
			}
			return
		}
		from(x, x.Tuple)
	case *ssa.TypeAssert:
		from(x, x.X)
	case *ssa.MakeInterface:
		if pointerish(x.X.Type()) {
			from(x, x.X)
		}
	case *ssa.ChangeType:
		from(x, x.X)
	case *ssa.ChangeInterface:
		from(x, x.X)
	case *ssa.Slice:
		if g, ok := x.X.(*ssa.Global); ok && t.globals(g) {
			t.mark(x, "package variable "+g.Name())
		}
		from(x, x.X)
	case *ssa.Phi:
		for _, e := range x.Edges {
			from(x, e)
		}
	case *ssa.Convert:
		// between strings and slices a copy is made
	case *ssa.Store:
		if s, ok := t.of(x.Val); ok {
			t.put(x.Addr, s)
		}
	case *ssa.MapUpdate:
		if s, ok := t.of(x.Value); ok {
			t.putElem(x.Map, s)
		}
	case *ssa.MakeClosure:
		fn := x.Fn.(*ssa.Function)
		for i, b := range x.Bindings {
			if s, ok := t.of(b); ok && i < len(fn.FreeVars) {
				t.mark(fn.FreeVars[i], s)
			}
			if s, ok := t.cells[b]; ok && i < len(fn.FreeVars) {
				if _, had := t.cells[fn.FreeVars[i]]; !had {
					t.cells[fn.FreeVars[i]] = s
					t.dirty = true
				}
			}
			if i < len(fn.FreeVars) {
				if s, ok := t.cells[fn.FreeVars[i]]; ok {
					if _, had := t.cells[b]; !had {
						t.cells[b] = s
						t.dirty = true
					}
				}
			}
		}
	case ssa.CallInstruction:
		cc := x.Common()
		args := t.args(f, cc)
		for _, g := range t.p.callees(f, x) {
			if len(g.Params) == len(args) {
				for i, a := range args {
					if s, ok := t.of(a); ok {
						t.mark(g.Params[i], s)
					}
				}
			}
			if c, ok := x.(*ssa.Call); ok {
				if s, ok := t.ret(g, 0); ok && g.Signature.Results().Len() == 1 {
					t.mark(c, s)
				}
			}
		}
		if b, ok := cc.Value.(*ssa.Builtin); ok && b.Name() == "append" {
			if c, ok := x.(*ssa.Call); ok {
				from(c, args[0])
			}
			if len(args) == 2 {
				if s, ok := t.elems(args[1]); ok {
					// the result holds them too, whatever it is stored in
					_, class := t.elemName(args[0])
					if _, had := t.fields[class]; !had {
						t.fields[class] = s
						t.dirty = true
					}
				}
			}
		}
	}
}

func (t *taint) ret(g *ssa.Function, i int) (string, bool) {
	for _, b := range g.Blocks {
		if len(b.Instrs) == 0 {
			continue
		}
		if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && i < len(r.Results) {
			if s, ok := t.of(r.Results[i]); ok {
				return s, true
			}
		}
	}
	return "", false
}

func (t *taint) globals(g *ssa.Global) bool {
	return t.loads == nil && g.Pkg != nil && t.p.ssaPkgs[g.Pkg.Pkg.Path()] == g.Pkg && !strings.HasPrefix(g.Name(), "init$")
}

// sharedSafe: library types whose methods may be used by everybody at once.
func sharedSafe(t types.Type) bool {
	n := namedOf(t)
	if n == nil || n.Obj().Pkg() == nil {
		return true
	}
	switch n.Obj().Pkg().Path() {
	case "sync", "sync/atomic", "regexp", "unicode", "time":
		return true
	case "strings":
		return n.Obj().Name() == "Replacer" || n.Obj().Name() == "Reader"
	case "os":
		return true
	}
	return strings.Contains(n.Obj().Pkg().Path(), "/encoding")
}

type sink struct {
	in   ssa.Instruction
	src  string
	what string
	base ssa.Value
}

// sinks lists the writes through what is shared.
func (t *taint) sinks(f *ssa.Function) (l []sink) {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			add := func(v ssa.Value, what string) {
				if g, ok := v.(*ssa.Global); ok && t.globals(g) {
					l = append(l, sink{in, "package variable " + g.Name(), what, v})
				} else if s, ok := t.of(v); ok {
					l = append(l, sink{in, s, what, v})
				}
			}
			switch x := in.(type) {
			case *ssa.Store:
				if al, ok := x.Addr.(*ssa.Alloc); ok {
					if _, c := t.cells[al]; c {
						continue
					}
				}
				if _, ok := x.Addr.(*ssa.FreeVar); ok {
					continue
				}
				add(x.Addr, "is written to")
			case *ssa.MapUpdate:
				add(x.Map, "gets an entry")
			case *ssa.Send:
				add(x.Chan, "is sent to")
			case ssa.CallInstruction:
				cc := x.Common()
				if bi, ok := cc.Value.(*ssa.Builtin); ok {
					switch bi.Name() {
					case "append":
						if _, ok := cc.Args[0].(*ssa.Const); !ok {
							add(cc.Args[0], "is appended to")
						}
					case "copy", "delete", "clear":
						add(cc.Args[0], "is changed")
					}
					continue
				}
				sc := cc.StaticCallee()
				if sc == nil || t.p.inModule(sc) || len(cc.Args) == 0 || sc.Signature.Recv() == nil {
					continue
				}
				if _, isP := sc.Signature.Recv().Type().Underlying().(*types.Pointer); isP && !sharedSafe(sc.Signature.Recv().Type()) {
					add(cc.Args[0], "is changed by "+sc.Name())
				}
			}
		}
	}
	return
}

// initOnly: functions that run only while the package is initialised.
func (p *Program) initOnly() map[*ssa.Function]bool {
	res := map[*ssa.Function]bool{}
	callers := map[*ssa.Function]map[*ssa.Function]bool{}
	taken := map[*ssa.Function]bool{}
	for _, f := range p.addressTaken() {
		taken[f] = true
	}
	all := p.allFuncsWithInit()
	once := map[*ssa.Function]bool{}
	for _, f := range all {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				ci, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				if sc := ci.Common().StaticCallee(); sc != nil {
					if _, recv, n := fnQual(sc); recv == "Once" && n == "Do" && len(ci.Common().Args) == 2 {
						switch a := ci.Common().Args[1].(type) {
						case *ssa.Function:
							once[a] = true
						case *ssa.MakeClosure:
							once[a.Fn.(*ssa.Function)] = true
						}
						continue
					}
				}
				for _, c := range p.callees(f, ci) {
					if callers[c] == nil {
						callers[c] = map[*ssa.Function]bool{}
					}
					callers[c][f] = true
				}
			}
		}
	}
	for _, f := range all {
		if f.Name() == "init" || strings.HasPrefix(f.Name(), "init#") || once[f] {
			res[f] = true
		}
	}
	for ch := true; ch; {
		ch = false
		for _, f := range all {
			if res[f] || len(callers[f]) == 0 || taken[f] && f.Parent() == nil {
				continue
			}
			if o := f.Object(); o != nil && o.Exported() {
				continue
			}
			ok := true
			for c := range callers[f] {
				ok = ok && res[c]
			}
			if ok {
				res[f] = true
				ch = true
			}
		}
	}
	return res
}

// locked: a lock is taken before.
func locked(in ssa.Instruction) bool {
	for _, b := range in.Parent().Blocks {
		for _, j := range b.Instrs {
			ci, ok := j.(ssa.CallInstruction)
			if !ok {
				continue
			}
			if sc := ci.Common().StaticCallee(); sc != nil && sc.Name() == "Lock" && fnPkg(sc) != nil && fnPkg(sc).Path() == "sync" {
				if before(j, in) {
					return true
				}
			}
		}
	}
	return false
}

func (p *Program) sharedGlobals(r *Report) {
	all := p.allFuncsWithInit()
	t := newTaint(p, all)
	t.run()
	ini := p.initOnly()
	reach := p.graph().reach(p.parseEntries()...)
	for _, f := range all {
		if p.inCmd(f) || !reach[f] {
			continue
		}
		if ini[f] {
			continue
		}
		key := shortFn(f)
		r.fn(key)
		n := 0
		for _, s := range t.sinks(f) {
			if p.notPredefined(s) {
				continue
			}
			if locked(s.in) {
				r.undecided("shared state", key, p.instrPos(s.in), s.src+" "+s.what+" with a lock held")
				n++
				continue
			}
			r.fail("shared state", key, p.instrPos(s.in), s.src+" "+s.what)
			n++
		}
		if n == 0 {
			r.ok("shared state", key, p.pos(f.Pos()), "no write to package-level memory")
		}
	}
	r.stats["values that may point into package-level memory"] = len(t.vals)
	r.min("shared state", 100)
}

// parseEntries: the functions a user starts a parse with.
func (p *Program) parseEntries() (l []*ssa.Function) {
	for _, f := range p.funcs {
		if o := f.Object(); o != nil && o.Exported() && strings.HasPrefix(f.Name(), "Parse") && f.Parent() == nil {
			l = append(l, f)
		}
	}
	return
}

// notPredefined: the write is only reached for entities that are not one of
// the predefined ones (which are shared).
func (p *Program) notPredefined(s sink) bool {
	if !strings.HasPrefix(s.src, "package variable ") {
		return false
	}
	root := rootOf(s.base, map[ssa.Value]bool{})
	if root == nil {
		return false
	}
	c, ok := p.root().Pkg.Scope().Lookup("InternalPredefinedEntity").(*types.Const)
	if !ok {
		return false
	}
	want, _ := constInt64(c)
	for d := s.in.Block(); d != nil; d = d.Idom() {
		dom := d.Idom()
		if dom == nil || len(dom.Instrs) == 0 {
			continue
		}
		iff, ok := dom.Instrs[len(dom.Instrs)-1].(*ssa.If)
		if !ok {
			continue
		}
		for i, succ := range dom.Succs {
			if !(succ == d || succ.Dominates(s.in.Block())) || len(succ.Preds) != 1 {
				continue
			}
			bo, ok := iff.Cond.(*ssa.BinOp)
			if !ok || !(bo.Op == token.EQL && i == 1 || bo.Op == token.NEQ && i == 0) {
				continue
			}
			x, y := bo.X, bo.Y
			if _, ok := x.(*ssa.Const); ok {
				x, y = y, x
			}
			k, ok := y.(*ssa.Const)
			if !ok || k.Value == nil || cint(k) != want {
				continue
			}
			if rootOf(x, map[ssa.Value]bool{}) == root {
				return true
			}
		}
	}
	return false
}

// rootOf: the object a value or address belongs to or was read from.
func rootOf(v ssa.Value, seen map[ssa.Value]bool) ssa.Value {
	if seen[v] {
		return nil
	}
	seen[v] = true
	switch x := v.(type) {
	case *ssa.FieldAddr:
		return rootOf(x.X, seen)
	case *ssa.UnOp:
		if x.Op == token.MUL {
			if al, ok := x.X.(*ssa.Alloc); ok {
				if s := onlyStore(al); s != nil {
					return rootOf(s, seen)
				}
				return al
			}
			return rootOf(x.X, seen)
		}
	case *ssa.Convert:
		return rootOf(x.X, seen)
	case *ssa.ChangeType:
		return rootOf(x.X, seen)
	case *ssa.MakeInterface:
		return rootOf(x.X, seen)
	case *ssa.TypeAssert:
		return rootOf(x.X, seen)
	case *ssa.Extract:
		if ta, ok := x.Tuple.(*ssa.TypeAssert); ok {
			return rootOf(ta.X, seen)
		}
	case *ssa.Call:
		// the type of an entity, by a method of it
		if sc := x.Call.StaticCallee(); sc != nil && len(x.Call.Args) == 1 && sc.Signature.Recv() != nil {
			if b, ok := sc.Signature.Results().At(0).Type().Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
				return rootOf(x.Call.Args[0], seen)
			}
		}
	}
	return v
}

func onlyStore(al *ssa.Alloc) ssa.Value {
	var v ssa.Value
	n := 0
	for _, ref := range *al.Referrers() {
		if s, ok := ref.(*ssa.Store); ok && s.Addr == al {
			v = s.Val
			n++
		}
	}
	if n == 1 {
		return v
	}
	return nil
}

// ---- a parse does not change the parser ----

func (p *Program) parserUnchanged(r *Report) {
	pt := p.typeNamed("Parser")
	if pt == nil {
		return
	}
	g := p.graph()
	ms := types.NewMethodSet(types.NewPointer(pt))
	for i := 0; i < ms.Len(); i++ {
		name := ms.At(i).Obj().Name()
		if !strings.HasPrefix(name, "Parse") {
			continue
		}
		fn := p.methodOf(pt, name)
		if fn == nil {
			continue
		}
		var fs []*ssa.Function
		reach := g.reach(fn)
		for f := range reach {
			fs = append(fs, f)
		}
		sort.Slice(fs, func(i, j int) bool { return fs[i].String() < fs[j].String() })
		t := newTaint(p, fs)
		t.loads = map[string][]ssa.Value{} // package variables are not the subject here
		t.mark(fn.Params[0], "the parser")
		t.run()
		bad := false
		for _, f := range fs {
			for _, s := range t.sinks(f) {
				r.fail("parser unchanged", name, p.instrPos(s.in), fmt.Sprintf("%s (or something it holds) %s in %s", s.src, s.what, shortFn(f)))
				bad = true
			}
		}
		if !bad {
			r.ok("parser unchanged", name, p.pos(fn.Pos()), fmt.Sprintf("%d functions, %d values that may belong to the parser", len(fs), len(t.vals)))
		}
	}
	r.min("parser unchanged", 1)
}
