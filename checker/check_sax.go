package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("X01", "proof",
		"every path of every method of the callback table is enumerated; the path where the matching handler is unset must return the 'unspecified' sentinel without calling anything, every other path must call exactly that handler once with the arguments of the method, in order, and return what it returned",
		checkX01)
}

// peelDot follows loads and field selections down to a base term and gives the
// selected field path.
func fieldPath(t *Term) (*Term, []string) {
	var path []string
	for t != nil {
		switch t.op {
		case "load", "iface", "chtype":
			t = t.args[0]
			continue
		case "field", "fieldof":
			path = append([]string{t.s}, path...)
			t = t.args[0]
			continue
		}
		break
	}
	return t, path
}

func isGlobalLoad(t *Term, name string) bool {
	t = t.strip()
	return t != nil && t.op == "load" && t.args[0].op == "global" && t.args[0].glob.Name() == name
}

func checkX01(p *Program, r *Report) {
	sp := p.pkg("sax")
	if sp == nil {
		r.fail("anchor", "sax package", "?", "package not found")
		return
	}
	lookup := func(n string) *types.Named {
		o := sp.Pkg.Scope().Lookup(n)
		if o == nil {
			return nil
		}
		nm, _ := o.Type().(*types.Named)
		return nm
	}
	iface, tab := lookup("SAX2Handler"), lookup("SAX2")
	if iface == nil || tab == nil {
		r.fail("anchor", "SAX2Handler/SAX2", "?", "types not found")
		return
	}
	it, ok := iface.Underlying().(*types.Interface)
	st, ok2 := tab.Underlying().(*types.Struct)
	if !ok || !ok2 {
		r.fail("anchor", "SAX2Handler/SAX2", "?", "not an interface and a struct")
		return
	}
	fields := map[string]*types.Var{}
	for i := 0; i < st.NumFields(); i++ {
		fields[st.Field(i).Name()] = st.Field(i)
	}
	r.min("dispatch", 25)
	// the sentinel must be a value set once
	g, _ := sp.Members["ErrHandlerUnspecified"].(*ssa.Global)
	if g == nil {
		r.fail("anchor", "ErrHandlerUnspecified", "?", "not found")
		return
	}
	nst := 0
	for _, fn := range p.allFuncsWithInit() {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if s, ok := in.(*ssa.Store); ok && s.Addr == g {
					nst++
					if fn.Name() != "init" || fn.Pkg != sp {
						r.fail("sentinel", "ErrHandlerUnspecified set in "+shortFn(fn), p.instrPos(in), "the sentinel is overwritten")
					}
					c, ok := s.Val.(*ssa.Call)
					if !ok || c.Call.StaticCallee() == nil || !errorMaker(c.Call.StaticCallee()) {
						r.fail("sentinel", "ErrHandlerUnspecified value", p.instrPos(in), "the sentinel is not a fresh error")
					}
				}
			}
		}
	}
	r.add("sentinel", "ErrHandlerUnspecified", p.pos(g.Pos()), nst == 1, fmt.Sprintf("assigned %d times", nst))
	for i := 0; i < it.NumMethods(); i++ {
		m := it.Method(i)
		key := "SAX2." + m.Name()
		fn := p.method("sax", "SAX2", m.Name())
		if fn == nil || fn.Blocks == nil {
			r.fail("dispatch", key, p.pos(m.Pos()), "no body for this method")
			continue
		}
		r.fn(shortFn(fn))
		want := m.Name() + "Handler"
		if fields[want] == nil {
			r.fail("dispatch", key, p.pos(fn.Pos()), "the callback table has no field "+want)
			continue
		}
		paths, err := newSym(p).Paths(fn, nil)
		if err != nil {
			r.undecided("dispatch", key, p.pos(fn.Pos()), err.Error())
			continue
		}
		why := ""
		called, unset := 0, 0
		for _, pa := range paths {
			if w := x01Path(pa, fn, want, &called, &unset); w != "" {
				why = w
			}
		}
		if why == "" && (called == 0 || unset == 0) {
			why = fmt.Sprintf("%d paths call the handler and %d find it unset", called, unset)
		}
		r.add("dispatch", key, p.pos(fn.Pos()), why == "", why)
		r.stats["paths"] += len(paths)
	}
}

func x01Path(pa *SymPath, fn *ssa.Function, want string, called, unset *int) string {
	isHandler := func(t *Term) bool {
		b, path := fieldPath(t)
		return b != nil && b.op == "param" && b.n == 1 && len(path) == 1 && path[0] == want
	}
	set := -1
	for _, c := range pa.conds {
		t := c.t
		if t.op != "bin" || t.s != "==" && t.s != "!=" {
			return "the outcome depends on something other than whether the handler is set: " + t.K()
		}
		a, b := t.args[0], t.args[1]
		if b.isNil() {
		} else if a.isNil() {
			a, b = b, a
		} else {
			return "the outcome depends on something other than whether the handler is set: " + t.K()
		}
		if !isHandler(a) {
			return "tests a different handler: " + a.K()
		}
		if c.v == (t.s == "!=") {
			set = 1
		} else {
			set = 0
		}
	}
	var calls []SymEvent
	for _, e := range pa.events {
		switch e.kind {
		case "call":
			calls = append(calls, e)
		default:
			return "side effect: " + e.kind
		}
	}
	if _, ok := pa.end.(*ssa.Return); !ok {
		return "a path does not return"
	}
	n := len(pa.ret)
	if n == 0 {
		return "returns nothing"
	}
	if set != 1 {
		if set == -1 && len(calls) > 0 {
			return "the handler is called without testing that it is set"
		}
		*unset++
		if len(calls) > 0 {
			return "calls something although the handler is unset"
		}
		if !isGlobalLoad(pa.ret[n-1], "ErrHandlerUnspecified") {
			return "the path with the handler unset does not return ErrHandlerUnspecified"
		}
		for _, t := range pa.ret[:n-1] {
			if !t.isNil() {
				if v, ok := t.constInt(); !ok || v != 0 {
					return "the path with the handler unset returns a value"
				}
			}
		}
		return ""
	}
	*called++
	if len(calls) != 1 {
		return fmt.Sprintf("the path with the handler set makes %d calls, not 1", len(calls))
	}
	e := calls[0]
	if e.recv == nil || !isHandler(e.recv) {
		w := "?"
		if e.recv != nil {
			_, path := fieldPath(e.recv)
			w = strings.Join(path, ".")
		}
		return "calls " + w + " instead of " + want
	}
	args := e.args
	if len(args) != len(fn.Params)-1 {
		return fmt.Sprintf("passes %d arguments", len(args))
	}
	for i, a := range args {
		a = a.strip()
		if a.op != "param" || a.n != i+2 {
			return fmt.Sprintf("argument %d passed on is not argument %d received", i+1, i+1)
		}
	}
	if n == 1 {
		if pa.ret[0].K() != e.res.K() {
			return "does not return the handler's result"
		}
	} else {
		for i, t := range pa.ret {
			if t.op != "extract" || t.s != fmt.Sprint(i) || t.args[0].K() != e.res.K() {
				return "does not return the handler's results"
			}
		}
	}
	return ""
}
