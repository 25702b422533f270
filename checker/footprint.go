package main

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// foot says what a function can touch, transitively.
type foot struct {
	cursor bool            // looks at or consumes input, or changes the input stack
	sax    bool            // may call the configured handler
	fields map[string]bool // context fields it may read or write
	ghosts bool            // must see the ghost state (client request)
	all    bool            // unknown dynamic calls
}

func (f *foot) merge(g *foot) bool {
	ch := false
	set := func(p *bool, v bool) {
		if v && !*p {
			*p = true
			ch = true
		}
	}
	set(&f.cursor, g.cursor)
	set(&f.sax, g.sax)
	set(&f.all, g.all)
	for k := range g.fields {
		if !f.fields[k] {
			f.fields[k] = true
			ch = true
		}
	}
	return ch
}

// footprints computes the footprint of every module function by a fixpoint
// over the static call graph; calls of function values go to every module
// function of that signature whose address is taken.
func (a *Analysis) footprints() map[*ssa.Function]*foot {
	if a.p.foots != nil {
		return a.p.foots
	}
	res := map[*ssa.Function]*foot{}
	callees := map[*ssa.Function][]*ssa.Function{}
	taken := a.p.addressTaken()
	passive := map[string]bool{"Line": true, "Column": true, "LineNumber": true}
	for _, fn := range a.p.funcs {
		f := &foot{fields: map[string]bool{}}
		res[fn] = f
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case *ssa.FieldAddr:
					if n := namedOf(x.X.Type()); n != nil && a.ctxType != nil && n == namedOf(a.ctxType) {
						f.fields[fieldName(x.X.Type(), x.Field)] = true
					}
				case *ssa.MakeClosure:
					callees[fn] = append(callees[fn], x.Fn.(*ssa.Function))
				}
				ci, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				cc := ci.Common()
				if cc.IsInvoke() {
					switch {
					case isCursorType(cc.Value.Type()):
						if !passive[cc.Method.Name()] {
							f.cursor = true
						}
					case typeIs(cc.Value.Type(), "sax", "SAX2Handler"):
						f.sax = true
					default:
						// module implementations of the interface method
						callees[fn] = append(callees[fn], a.p.implsOf(cc)...)
					}
					continue
				}
				if sc := cc.StaticCallee(); sc != nil {
					if rv := sc.Signature.Recv(); rv != nil && isCursorType(rv.Type()) {
						if !passive[sc.Name()] {
							f.cursor = true
						}
						continue
					}
					if a.p.inModule(sc) {
						_, recv, name := fnQual(sc)
						if recv == "inputStack" && name != "PeekOne" {
							f.cursor = true
						}
						callees[fn] = append(callees[fn], sc)
					}
					continue
				}
				if _, isB := cc.Value.(*ssa.Builtin); isB {
					continue
				}
				for _, t := range taken {
					if types.Identical(t.Signature, cc.Signature()) {
						callees[fn] = append(callees[fn], t)
					}
				}
			}
		}
	}
	for ch := true; ch; {
		ch = false
		for fn, f := range res {
			for _, c := range callees[fn] {
				if g := res[c]; g != nil && f.merge(g) {
					ch = true
				}
			}
		}
	}
	a.p.foots = res
	return res
}

// addressTaken lists module functions used as values (closures included).
func (p *Program) addressTaken() []*ssa.Function {
	if p.taken != nil {
		return p.taken
	}
	seen := map[*ssa.Function]bool{}
	for _, fn := range p.allFuncsWithInit() {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if mc, ok := in.(*ssa.MakeClosure); ok {
					seen[mc.Fn.(*ssa.Function)] = true
					continue
				}
				var skip ssa.Value
				if ci, ok := in.(ssa.CallInstruction); ok && !ci.Common().IsInvoke() {
					skip = ci.Common().Value
				}
				for _, op := range in.Operands(nil) {
					if *op == nil || *op == skip {
						continue
					}
					if f, ok := (*op).(*ssa.Function); ok {
						seen[f] = true
					}
				}
			}
		}
	}
	p.taken = []*ssa.Function{}
	for f := range seen {
		p.taken = append(p.taken, f)
	}
	return p.taken
}

// implsOf lists the module methods an interface call may reach.
func (p *Program) implsOf(cc *ssa.CallCommon) []*ssa.Function {
	it, ok := cc.Value.Type().Underlying().(*types.Interface)
	if !ok {
		return nil
	}
	var out []*ssa.Function
	for _, t := range p.namedTypes() {
		for _, c := range []types.Type{t, types.NewPointer(t)} {
			if types.IsInterface(c) || !types.Implements(c, it) {
				continue
			}
			if s := p.prog.MethodSets.MethodSet(c).Lookup(cc.Method.Pkg(), cc.Method.Name()); s != nil {
				if f := p.prog.MethodValue(s); f != nil {
					out = append(out, f)
				}
			}
		}
	}
	return out
}

// namedTypes lists the named types declared in module packages.
func (p *Program) namedTypes() []types.Type {
	if p.named != nil {
		return p.named
	}
	for _, pk := range p.pkgs {
		sc := pk.Types.Scope()
		for _, n := range sc.Names() {
			if tn, ok := sc.Lookup(n).(*types.TypeName); ok && !tn.IsAlias() {
				p.named = append(p.named, tn.Type())
			}
		}
	}
	return p.named
}
