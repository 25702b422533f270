package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Models of library functions and of the parser's internal stacks.

func fnQual(fn *ssa.Function) (pkg, recv, name string) {
	name = fn.Name()
	if o := fn.Object(); o != nil && o.Pkg() != nil {
		pkg = o.Pkg().Path()
	} else if fn.Pkg != nil {
		pkg = fn.Pkg.Pkg.Path()
	}
	if rv := fn.Signature.Recv(); rv != nil {
		if n := namedOf(rv.Type()); n != nil {
			recv = n.Obj().Name()
		}
	}
	return
}

// model interprets calls whose effect is known; ok=false means "not modelled".
func (r *run) model(st *State, in ssa.CallInstruction, dst *ssa.Call, fn *ssa.Function) ([]*State, bool) {
	a := r.a
	cc := in.Common()
	one := []*State{st}
	pkg, recv, name := fnQual(fn)
	setv := func(v AVal) {
		if dst != nil {
			a.set(st, dst, v)
		}
	}
	if a.p.inModule(fn) {
		if o, ok := a.stackModel(st, in, dst, fn, recv, name); ok {
			return o, true
		}
		if dst != nil && len(cc.Args) == 1 {
			if set := a.p.predSet(fn); set != nil {
				return r.classSplit(st, dst, cc.Args[0], set), true
			}
		}
		return nil, false
	}
	switch pkg {
	case "unicode":
		var set *Set
		set = uniPred(name)
		switch name {
		case "In", "Is":
			set = r.unicodeTables(st, cc, name)
		}
		if set == nil || dst == nil {
			break
		}
		arg := cc.Args[0]
		if name == "Is" {
			arg = cc.Args[1]
		}
		return r.classSplit(st, dst, arg, set), true
	case "errors":
		switch name {
		case "Is":
			if dst != nil {
				return r.errorsIs(st, dst), true
			}
		case "New":
			setv(r.newErr(st, tagNew))
			return one, true
		}
	case "fmt":
		switch name {
		case "Errorf":
			// wrapping keeps the provenance of the wrapped errors
			setv(r.newErr(st, tagNew|r.variadicTags(st, cc)))
			return one, true
		case "Sprintf", "Sprint", "Sprintln":
			setv(vTop)
			return one, true
		}
	case "github.com/pkg/errors":
		tags := uint32(tagNew)
		for _, x := range cc.Args {
			if v := a.val(st, x); v.k == kCell && st.cells[v.id] != nil {
				tags |= st.cells[v.id].tags
			}
		}
		switch name {
		case "New", "Errorf":
			setv(r.newErr(st, tags))
			return one, true
		case "Wrap", "Wrapf", "WithMessage", "WithStack":
			v := a.val(st, cc.Args[0])
			s := st.setOf(v, cc.Args[0].Type())
			switch {
			case v.k == kNil || s == single(0):
				setv(vNil)
				return one, true
			case !s.Has(0):
				setv(r.newErr(st, tags))
				return one, true
			}
		}
	case "sync":
		if recv == "Pool" && name == "Get" && dst != nil {
			id := st.fresh(single(1))
			st.cells[id] = &cell{set: single(1), dyn: a.poolType(cc.Args[0])}
			setv(vCell(id))
			return one, true
		}
	case "strings", "bytes":
		switch name {
		case "HasPrefix", "HasSuffix", "Contains":
			if dst == nil {
				return one, true
			}
			x := a.ensure(st, cc.Args[0])
			y := a.val(st, cc.Args[1])
			ly := st.setOf(y, cc.Args[1].Type())
			if y.k == kNil {
				ly = single(0)
			}
			st2 := st.clone()
			var out []*State
			if st.refineVal(x, interval(ly.Min(), maxI), cc.Args[0].Type()) {
				a.set(st, dst, vInt(1))
				out = append(out, st)
			}
			a.set(st2, dst, vInt(0))
			out = append(out, st2)
			return out, true
		case "ContainsRune", "IndexRune", "IndexByte", "ContainsAny":
			x := a.val(st, cc.Args[0])
			if dst != nil && x.k == kStr && name != "ContainsAny" && len(cc.Args) == 2 {
				set := charSet(x.path)
				if name == "IndexByte" {
					set = emptySet
					for i := 0; i < len(x.path); i++ {
						set = set.Union(single(int64(x.path[i])))
					}
				}
				outs := r.classSplit(st, dst, cc.Args[1], set)
				if name != "ContainsRune" {
					for _, o := range outs {
						if v := a.val(o, dst); v.k == kInt && v.off == 1 {
							a.set(o, dst, vCell(o.fresh(interval(0, int64(len(x.path)-1)))))
						} else {
							a.set(o, dst, vInt(-1))
						}
					}
				}
				return outs, true
			}
			if name == "ContainsRune" || name == "ContainsAny" {
				if dst != nil {
					return r.splitBool(st, dst), true
				}
				break
			}
			fallthrough
		case "Index", "IndexAny", "LastIndex", "LastIndexByte":
			lx := st.setOf(a.ensure(st, cc.Args[0]), cc.Args[0].Type())
			hi := int64(maxI)
			if !lx.Empty() && lx.Max() < maxI {
				hi = lx.Max()
			}
			setv(vCell(st.fresh(interval(-1, hi))))
			return one, true
		}
		if recv == "" && dst != nil {
			setv(vTop)
			if isLenType(dst.Type()) {
				setv(vCell(st.fresh(lenSet)))
			}
			return one, true
		}
		if (recv == "Buffer" || recv == "Builder") && name == "WriteRune" {
			r.text(st, cc.Args[1], in)
		}
		if recv == "Buffer" && (name == "Len" || name == "Cap") {
			setv(vCell(st.fresh(lenSet)))
			return one, true
		}
	case "unicode/utf8":
		switch name {
		case "RuneLen":
			setv(vCell(st.fresh(interval(-1, 4))))
			return one, true
		case "EncodeRune":
			r.text(st, cc.Args[1], in)
			setv(vCell(st.fresh(interval(1, 4))))
			return one, true
		case "DecodeRune", "DecodeRuneInString":
			if dst != nil {
				// width 0 only for empty input, which decodes to RuneError
				x := a.ensure(st, cc.Args[0])
				lx := st.setOf(x, cc.Args[0].Type())
				st2 := st.clone()
				var out []*State
				if lx.Has(0) && st.refineVal(x, single(0), cc.Args[0].Type()) {
					st.env[evar{dst, 0}] = vInt(0xFFFD)
					st.env[evar{dst, 1}] = vInt(0)
					out = append(out, st)
				}
				if st2.refineVal(x, interval(1, maxI), cc.Args[0].Type()) {
					st2.env[evar{dst, 0}] = vCell(st2.fresh(anyRune))
					st2.env[evar{dst, 1}] = vCell(st2.fresh(interval(1, 4)))
					out = append(out, st2)
				}
				return out, true
			}
		}
	case "github.com/lestrrat-go/strcursor":
		if strings.HasPrefix(name, "New") {
			setv(vCur)
			return one, true
		}
	}
	return nil, false
}

func (r *run) newErr(st *State, tags uint32) AVal {
	id := st.fresh(single(1))
	st.cells[id] = &cell{set: single(1), tags: tags}
	return vCell(id)
}

// variadicTags collects the provenance of values packed in a variadic slice.
func (r *run) variadicTags(st *State, cc *ssa.CallCommon) uint32 {
	var tags uint32
	for _, x := range cc.Args {
		v := r.a.val(st, x)
		if v.k == kObj {
			if o := st.objs[v.id]; o != nil {
				for _, f := range o.fields {
					if f.k == kCell && st.cells[f.id] != nil {
						tags |= st.cells[f.id].tags
					}
				}
			}
		}
	}
	return tags
}

// classSplit splits on membership of a character in a set.
func (r *run) classSplit(st *State, dst *ssa.Call, arg ssa.Value, set *Set) []*State {
	a := r.a
	v := a.ensure(st, arg)
	s := st.setOf(v, arg.Type())
	st2 := st.clone()
	var out []*State
	if in := s.Inter(set); !in.Empty() && st.refineVal(v, in, arg.Type()) {
		a.set(st, dst, vInt(1))
		out = append(out, st)
	}
	if no := s.Minus(set); !no.Empty() && st2.refineVal(v, no, arg.Type()) {
		a.set(st2, dst, vInt(0))
		out = append(out, st2)
	}
	return out
}

// unicodeTables resolves the range tables of unicode.In / unicode.Is calls.
func (r *run) unicodeTables(st *State, cc *ssa.CallCommon, name string) *Set {
	res := emptySet
	one := func(v ssa.Value) bool {
		u, ok := v.(*ssa.UnOp)
		if !ok {
			return false
		}
		g, ok := u.X.(*ssa.Global)
		if !ok {
			return false
		}
		t := uniTableByName(g.Name())
		if t == nil {
			return false
		}
		res = res.Union(t)
		return true
	}
	if name == "Is" {
		if !one(cc.Args[0]) {
			return nil
		}
		return res
	}
	sl, ok := cc.Args[1].(*ssa.Slice)
	if !ok {
		return nil
	}
	al, ok := sl.X.(*ssa.Alloc)
	if !ok {
		return nil
	}
	for _, ref := range *al.Referrers() {
		ia, ok := ref.(*ssa.IndexAddr)
		if !ok {
			continue
		}
		for _, rr := range *ia.Referrers() {
			if s, ok := rr.(*ssa.Store); ok && s.Addr == ssa.Value(ia) {
				if !one(s.Val) {
					return nil
				}
			}
		}
	}
	return res
}

// poolType is the only dynamic type a package-level sync.Pool can hold, or nil.
func (a *Analysis) poolType(recv ssa.Value) types.Type {
	g, ok := recv.(*ssa.Global)
	if !ok {
		return nil
	}
	if t, ok := a.pools[g]; ok {
		return t
	}
	if a.pools == nil {
		a.pools = map[*ssa.Global]types.Type{}
	}
	var res types.Type
	bad := false
	note := func(v ssa.Value) {
		mi, ok := v.(*ssa.MakeInterface)
		if !ok {
			bad = true
			return
		}
		if res != nil && !types.Identical(res, mi.X.Type()) {
			bad = true
		}
		res = mi.X.Type()
	}
	for _, fn := range a.p.allFuncsWithInit() {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(ssa.CallInstruction); ok {
					cc := c.Common()
					if f := cc.StaticCallee(); f != nil && f.Name() == "Put" && len(cc.Args) == 2 && cc.Args[0] == ssa.Value(g) {
						note(cc.Args[1])
					}
				}
				// New function stored in the initialiser
				if s, ok := in.(*ssa.Store); ok {
					if fa, ok := s.Addr.(*ssa.FieldAddr); ok && fa.X == ssa.Value(g) && fieldName(g.Type(), fa.Field) == "New" {
						v := s.Val
						for {
							if ct, ok := v.(*ssa.ChangeType); ok {
								v = ct.X
								continue
							}
							break
						}
						var nf *ssa.Function
						switch x := v.(type) {
						case *ssa.Function:
							nf = x
						case *ssa.MakeClosure:
							nf = x.Fn.(*ssa.Function)
						}
						if nf == nil {
							bad = true
							continue
						}
						for _, bb := range nf.Blocks {
							if rt, ok := bb.Instrs[len(bb.Instrs)-1].(*ssa.Return); ok {
								note(rt.Results[0])
							}
						}
					}
				}
			}
		}
	}
	if bad {
		res = nil
	}
	a.pools[g] = res
	return res
}

// stackModel abstracts the parser's node, namespace and input stacks by their
// depth.  The stacks' own implementation is decided separately (K01).
func (a *Analysis) stackModel(st *State, in ssa.CallInstruction, dst *ssa.Call, fn *ssa.Function, recv, name string) ([]*State, bool) {
	cc := in.Common()
	one := []*State{st}
	var slot string
	switch recv {
	case "nodeStack":
		slot = "#node"
	case "inputStack":
		slot = "#input"
	case "nsStack":
		slot = "#ns"
	case "SimpleStack", "UniqueStack":
		// promoted methods: Len, Peek, Pop
		slot = "#other"
		if len(cc.Args) > 0 {
			if fa, ok := cc.Args[0].(*ssa.FieldAddr); ok {
				if n := namedOf(fa.X.Type()); n != nil {
					switch n.Obj().Name() {
					case "nodeStack":
						slot = "#node"
					case "inputStack":
						slot = "#input"
					case "nsStack":
						slot = "#ns"
					}
				}
			}
		}
	default:
		return nil, false
	}
	if a.inStackImpl(fn) {
		return nil, false
	}
	var o *obj
	var oid int32
	if len(cc.Args) > 0 {
		if v := a.val(st, cc.Args[0]); v.k == kObj {
			o, oid = st.objs[v.id], v.id
		}
	}
	rel := func() int64 {
		if o == nil {
			return 0
		}
		return o.fields[slot].off
	}
	bump := func(d int64) {
		if o == nil || slot == "#other" {
			return
		}
		n := rel() + d
		if n > 3 {
			n = 3
		}
		if n < -3 {
			n = -3
		}
		st.objs[oid] = o.with(slot, vInt(n))
	}
	inside := o != nil && o.fields[slot+"in"].off == 1
	nonEmpty := (inside && rel() >= 0) || (o != nil && o.zero && rel() > 0) || rel() > 0
	switch name {
	case "Push":
		bump(1)
		if dst != nil {
			a.resultTop(st, dst, 0)
		}
		return one, true
	case "Pop":
		k := int64(1)
		if len(cc.Args) > 1 {
			k = 0
			if sl, ok := cc.Args[1].(*ssa.Slice); ok {
				_ = sl
				// Pop(n): n is usually a run-time count
				k = -99
			} else if c, ok := cc.Args[1].(*ssa.Const); ok && c.Value == nil {
				k = 1
			}
		}
		if k != -99 {
			bump(-k)
		} else if o != nil {
			st.objs[oid] = o.with(slot, vInt(0))
		}
		if dst != nil {
			if slot == "#input" {
				a.set(st, dst, vCur)
			} else if nonEmpty {
				a.set(st, dst, vCell(st.fresh(single(1))))
			} else {
				a.resultTop(st, dst, 0)
			}
		}
		return one, true
	case "PeekOne":
		if dst == nil {
			return one, true
		}
		switch {
		case slot == "#input":
			a.set(st, dst, vCur)
		case nonEmpty:
			a.set(st, dst, vCell(st.fresh(single(1))))
		case o != nil && o.zero && o.fields[slot].off == 0 && !inside:
			a.set(st, dst, vCell(st.fresh(ptrSet)))
		default:
			a.set(st, dst, vCell(st.fresh(ptrSet)))
		}
		return one, true
	case "Lookup":
		a.resultTop(st, dst, 0)
		return one, true
	case "Len", "Cap":
		if dst != nil {
			a.set(st, dst, vCell(st.fresh(lenSet)))
		}
		return one, true
	case "Peek":
		if dst != nil {
			a.set(st, dst, vCell(st.fresh(lenSet)))
		}
		return one, true
	}
	return nil, false
}

func (a *Analysis) inStackImpl(fn *ssa.Function) bool { return false }

// text tells the client which characters an instruction adds to a text.
func (r *run) text(st *State, x ssa.Value, in ssa.Instruction) {
	if tc, ok := r.a.cl.(interface {
		Text(fr *Frame, st *State, in ssa.Instruction, chars *Set)
	}); ok && in != nil {
		if readDirectly(x, map[ssa.Value]bool{}) {
			return // copied from the input: what is consumed is checked where it is consumed
		}
		tc.Text(r.fr, st, in, st.setOf(r.a.ensure(st, x), x.Type()))
	}
}

// readDirectly holds if a character is a copy of a character of some text
// (never the result of a computation).
func readDirectly(v ssa.Value, seen map[ssa.Value]bool) bool {
	if seen[v] {
		return true
	}
	seen[v] = true
	switch x := v.(type) {
	case *ssa.Phi:
		for _, e := range x.Edges {
			if !readDirectly(e, seen) {
				return false
			}
		}
		return true
	case *ssa.Parameter:
		return true
	case *ssa.Convert:
		return readDirectly(x.X, seen)
	case *ssa.ChangeType:
		return readDirectly(x.X, seen)
	case *ssa.Extract:
		return readDirectly(x.Tuple, seen)
	case *ssa.Next:
		return x.IsString
	case *ssa.Call:
		n := ""
		if x.Call.IsInvoke() {
			n = x.Call.Method.Name()
		} else if f := x.Call.StaticCallee(); f != nil {
			n = f.Name()
		}
		switch n {
		case "Peek", "PeekN", "Cur", "ReadRune", "DecodeRune", "DecodeRuneInString":
			return true
		}
	}
	return false
}

// errorsIs: errors.Is(err, sentinel) is the comparison, and may also hold for
// an error made from the sentinel.
func (r *run) errorsIs(st *State, dst *ssa.Call) []*State {
	a := r.a
	ax, ay := dst.Call.Args[0], dst.Call.Args[1]
	x, y := a.ensure(st, ax), a.ensure(st, ay)
	sx, sy := st.setOf(x, ax.Type()), st.setOf(y, ay.Type())
	if sx.Empty() || sy.Empty() {
		return nil
	}
	wraps := true
	if x.k == kCell && st.cells[x.id] != nil {
		wraps = st.cells[x.id].tags&tagNew != 0
	}
	target, known := sy.IsSingle()
	var out []*State
	st2 := st.clone()
	yes := sx.Inter(sy)
	if wraps {
		yes = sx.Inter(sy.Union(single(1)))
	}
	if !known || target == 1 {
		yes = sx.Minus(single(0)).Union(sx.Inter(sy))
	}
	if !yes.Empty() && st.refineVal(x, yes, ax.Type()) {
		a.set(st, dst, vInt(1))
		out = append(out, st)
	}
	no := sx
	if known && target != 1 {
		no = sx.Minus(sy)
	}
	if !no.Empty() && st2.refineVal(x, no, ax.Type()) {
		a.set(st2, dst, vInt(0))
		out = append(out, st2)
	}
	return out
}
