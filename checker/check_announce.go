package main

import (
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C09", "proof",
		"path-sensitive abstract interpretation of everything reachable from the parse entry point: on every path on which the routine for a construct consumed input and ends without an error, exactly one event of the kind of that construct was announced during it; an attribute definition and a reference found are announced before the next one and before the routine ends",
		checkC09)
}

type announced struct {
	fn     string
	events []string
	many   bool // more than one is allowed
}

// the routines that parse one construct each, and what announces it
var c09Leaf = []announced{
	{fn: "parseCharData", events: []string{"Characters", "IgnorableWhitespace", "CDataBlock"}},
	{fn: "parseComment", events: []string{"Comment"}},
	{fn: "parsePI", events: []string{"ProcessingInstruction"}},
	{fn: "parseDocTypeDecl", events: []string{"InternalSubset"}},
	{fn: "parseElementDecl", events: []string{"ElementDecl"}},
	{fn: "parseEntityDecl", events: []string{"EntityDecl", "UnparsedEntityDecl"}, many: true},
	{fn: "parseNotationDecl", events: []string{"NotationDecl"}},
	{fn: "parseStartTag", events: []string{"StartElementNS"}},
	{fn: "parseEndTag", events: []string{"EndElementNS"}},
}

type c09Client struct {
	baseClient
	h    hits
	leaf map[*ssa.Function]*announced
	// attlist: attribute definitions; attdef: its part that every definition has
	attlist, attdef *ssa.Function
	ref, entref     *ssa.Function
	charref         *ssa.Function
}

func (c *c09Client) Reset() { c.h.reset() }

func (c *c09Client) inside(fr *Frame) *announced {
	for f := fr; f != nil; f = f.parent {
		if l := c.leaf[f.fn]; l != nil {
			return l
		}
	}
	return nil
}

func (c *c09Client) Enter(fr *Frame, st *State) {
	switch {
	case c.leaf[fr.fn] != nil:
		st.ghost[gAnn] = 0
	case fr.fn == c.attlist:
		st.ghost[gAnnAtt] = 0
	case fr.fn == c.ref:
		st.ghost[gAnnRef] = st.ghost[gAnnRef] & 1 << 1
	}
}

func (c *c09Client) Event(fr *Frame, st *State, m string, args []AVal, in ssa.CallInstruction) {
	if l := c.inside(fr); l != nil {
		for _, e := range l.events {
			if e == m {
				c.h.ok("announced-by", e, fr.a.p.instrPos(in))
				if st.ghost[gAnn]++; st.ghost[gAnn] > 2 {
					st.ghost[gAnn] = 2
				}
			}
		}
	}
	switch m {
	case "AttributeDecl":
		c.h.ok("announced-by", m, fr.a.p.instrPos(in))
		if c.attlist != nil && fr.within(c.attlist.Name()) {
			st.ghost[gAnnAtt] = 0
		}
	case "Reference", "Characters":
		if m == "Reference" {
			c.h.ok("announced-by", m, fr.a.p.instrPos(in))
		}
		// the routine that found it, or one it calls
		for f := fr; f != nil; f = f.parent {
			if f.fn == c.ref {
				st.ghost[gAnnRef] &^= 1
				break
			}
			if c.leaf[f.fn] != nil {
				break
			}
		}
	}
}

func (c *c09Client) AfterCall(fr *Frame, st *State, in ssa.CallInstruction, f *ssa.Function, res []AVal) {
	i := errIndex(f)
	if i < 0 || i >= len(res) || errClass(st, res[i]) == 1 {
		return
	}
	switch f {
	case c.attdef:
		if c.attlist == nil || !fr.within(c.attlist.Name()) {
			return
		}
		if st.ghost[gAnnAtt] != 0 {
			c.h.fail("attribute-announced", shortFn(c.attlist), fr.a.p.instrPos(in), "an attribute definition can be followed by another without having been announced ("+fr.chain()+")")
		}
		st.ghost[gAnnAtt] = 1
	case c.entref, c.charref:
		if c.ref == nil {
			return
		}
		// in the routine for references in content, not for those in values
		for g := fr; g != nil; g = g.parent {
			if g.fn == c.ref {
				break
			}
			if g.parent == nil {
				return
			}
		}
		if f == c.entref {
			v := res[0]
			if v.k == kNil || v.k == kCell && st.cells[v.id] != nil && st.cells[v.id].set == single(0) {
				return
			}
		}
		st.ghost[gAnnRef] |= 1
	}
}

// Branch: an entity that was not found, and one without content, need not be announced.
func (c *c09Client) Branch(fr *Frame, st *State, in *ssa.If, taken bool) {
	if st.ghost[gAnnRef]&1 == 0 {
		return
	}
	b, ok := in.Cond.(*ssa.BinOp)
	if !ok || b.Op != token.EQL && b.Op != token.NEQ {
		return
	}
	x, y := b.X, b.Y
	if _, ok := x.(*ssa.Const); ok {
		x, y = y, x
	}
	k, ok := y.(*ssa.Const)
	if !ok || taken != (b.Op == token.EQL) {
		return
	}
	switch {
	case k.IsNil():
		if typeName(x.Type()) == "Entity" {
			st.ghost[gAnnRef] &^= 1
		}
	case k.Value != nil && k.Value.Kind() == constant.String && constant.StringVal(k.Value) == "":
		if c09Content(x) {
			st.ghost[gAnnRef] &^= 1
		}
	case k.Value != nil && k.Value.Kind() == constant.Int && cint(k) == 0:
		if call, ok := x.(*ssa.Call); ok {
			if bi, ok := call.Call.Value.(*ssa.Builtin); ok && bi.Name() == "len" && c09Content(call.Call.Args[0]) {
				st.ghost[gAnnRef] &^= 1
			}
		}
	}
}

func c09Content(v ssa.Value) bool {
	switch x := v.(type) {
	case *ssa.UnOp:
		if fa, ok := x.X.(*ssa.FieldAddr); ok {
			return strings.HasSuffix(fieldName(fa.X.Type().Underlying().(*types.Pointer).Elem(), fa.Field), "content")
		}
	case *ssa.Convert:
		return c09Content(x.X)
	case *ssa.Call:
		if fn := x.Call.StaticCallee(); fn != nil {
			return fn.Name() == "Content"
		}
		return x.Call.IsInvoke() && x.Call.Method.Name() == "Content"
	}
	return false
}

func (c *c09Client) Return(fr *Frame, st *State, in *ssa.Return, res []AVal) {
	g := &st.ghost
	fails := len(res) > 0 && errClass(st, res[len(res)-1]) == 1
	pos := fr.a.p.instrPos(in)
	if l := c.leaf[fr.fn]; l != nil {
		k := shortFn(fr.fn)
		what := strings.Join(l.events, " or ")
		c.h.ok("announced", k, pos)
		switch {
		case fails:
		case g[gAnn] == 0 && g[gProg] != 0:
			c.h.fail("announced", k, pos, "input is consumed and no error returned, but no "+what+" event was announced ("+fr.chain()+")")
		case g[gAnn] > 1 && !l.many:
			c.h.fail("announced", k, pos, "more than one "+what+" event is announced for one construct ("+fr.chain()+")")
		}
		g[gAnn] = 0
	}
	switch fr.fn {
	case c.attlist:
		c.h.ok("attribute-announced", shortFn(fr.fn), pos)
		if !fails && g[gAnnAtt] != 0 {
			c.h.fail("attribute-announced", shortFn(fr.fn), pos, "the last attribute definition can go unannounced ("+fr.chain()+")")
		}
		g[gAnnAtt] = 0
	case c.ref:
		c.h.ok("reference-announced", shortFn(fr.fn), pos)
		if !fails && g[gAnnRef]&1 != 0 {
			c.h.fail("reference-announced", shortFn(fr.fn), pos, "a reference was read and no error returned, but neither the reference nor its text was announced ("+fr.chain()+")")
		}
		g[gAnnRef] >>= 1
	}
}

func checkC09(p *Program, r *Report) {
	c := &c09Client{leaf: map[*ssa.Function]*announced{}}
	find := func(rule, name string) *ssa.Function {
		fn := p.method("", "parserCtx", name)
		if fn == nil {
			r.undecided(rule, name, "?", "the parser has no routine of this name: what announces its construct is not known")
		}
		return fn
	}
	n := 0
	for i := range c09Leaf {
		fn := find("announced", c09Leaf[i].fn)
		if fn == nil {
			continue
		}
		if l := &c09Leaf[i]; !c09Calls(p, p.graph().reach(fn), l.events) && c09Calls(p, p.graph().reach(p.parseEntries()...), l.events) {
			r.undecided("announced", shortFn(fn), p.pos(fn.Pos()), "the construct is announced by another routine")
			continue
		}
		c.leaf[fn] = &c09Leaf[i]
		n++
	}
	c.attlist, c.attdef = find("attribute-announced", "parseAttributeListDecl"), find("attribute-announced", "parseAttributeType")
	c.ref, c.entref, c.charref = find("reference-announced", "parseReference"), find("reference-announced", "parseEntityRef"), find("reference-announced", "parseCharRef")
	parseRoot(p, r, c, func(a *Analysis) { a.tracked["replaceEntities"] = true })
	c.h.flush(r)
	r.min("announced", 1)
	r.note("%d routines for constructs", n)
}

// c09Calls: one of the routines calls a handler for one of the events.
func c09Calls(p *Program, fns map[*ssa.Function]bool, events []string) bool {
	for fn := range fns {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if ci, ok := in.(ssa.CallInstruction); ok && ci.Common().IsInvoke() {
					for _, e := range events {
						if ci.Common().Method.Name() == e {
							return true
						}
					}
				}
			}
		}
	}
	return false
}
