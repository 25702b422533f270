package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("T01", "proof", "shape analysis of every method of the tree builder (all states of the heap it can find: no element open / one open, in the prolog, in a subset; lists of children of any length; 0-2 namespaces and attributes; every branch): each announcement adds exactly the node it stands for, at the end of the children of the innermost open element, of the document or of the subset, with the announced name, namespace, attributes and content; nothing else changes",
		checkT01, "the handler is called with the parser context it belongs to (C08, X01)", "slices of namespaces and attributes longer than two behave like those of two")
}

// slice of n objects of which only the interface is known
func opaques(name string, n int, t types.Type) hv {
	if n == 0 {
		return hv{k: hNil}
	}
	r := hv{k: hSlice}
	for i := 0; i < n; i++ {
		r.l = append(r.l, hv{k: hOpq, s: name + itoa(i), t: t})
	}
	return r
}

type mirrorScene struct {
	*scene
	ctx, d, dtd, ext, e int
	where               int // the node that gets children
	want                map[int][]string
	first               map[int]string
}

func checkT01(p *Program, r *Report) {
	codes, _, _ := p.nodeCodes()
	tb := p.typeNamed("TreeBuilder")
	if tb == nil {
		r.fail("methods", "TreeBuilder", "", "there is no tree builder")
		return
	}
	complete := int64(-1)
	if c, ok := p.root().Pkg.Scope().Lookup("CompleteAttrs").(*types.Const); ok {
		complete, _ = constInt64(c)
	}
	total := 0
	contr := map[*ssa.Function]bool{}
	runFn := func(rule, key string, fn *ssa.Function, each func(h *hRun)) {
		h := newHRun(p)
		h.etypes = codes
		each(h)
		total += h.ends
		for f := range h.contr {
			contr[f] = true
		}
		pos := p.pos(fn.Pos())
		r.fn(shortFn(fn))
		if h.verdict(r, rule, key, pos) {
			return
		}
		r.ok(rule, key, pos, fmt.Sprintf("%d outcomes", h.ends))
	}
	seen := map[string]bool{}
	method := func(name string) *ssa.Function {
		seen[name] = true
		fn := p.methodOf(tb, name)
		if fn == nil {
			r.fail("methods", name, "", "the tree builder has no such method")
		}
		return fn
	}

	// mk builds a state.  open: an element is open; sub: in which subset;
	// kids: the shape of the children of the place new nodes go to.
	mk := func(open bool, sub int, kids int) *mirrorScene {
		m := &mirrorScene{scene: &scene{p, newHState()}, want: map[int][]string{}, first: map[int]string{}}
		s := m.s
		m.ctx = m.node("ctx", "parserCtx")
		m.d = m.node("d", "Document")
		s.set(m.ctx, "parserCtx.doc", hR(m.d))
		s.set(m.ctx, "parserCtx.inSubset", hI(int64(sub)))
		m.where = m.d
		var top []int
		var topN []string
		if sub > 0 {
			// while the DTD is read
			m.dtd = m.node("dtd", "DTD")
			m.ext = m.node("ext", "DTD")
			s.set(m.d, "Document.intSubset", hR(m.dtd))
			s.set(m.d, "Document.extSubset", hR(m.ext))
			s.set(m.dtd, fDoc, hR(m.d))
			s.set(m.ext, fDoc, hR(m.d))
			for _, o := range []int{m.dtd, m.ext} {
				st := s.objs[o].typ.Underlying().(*types.Struct)
				for i := 0; i < st.NumFields(); i++ {
					if mt, ok := st.Field(i).Type().Underlying().(*types.Map); ok {
						t := s.obj(s.objs[o].name+"."+st.Field(i).Name(), mt)
						s.set(o, "DTD."+st.Field(i).Name(), hR(t))
					}
				}
			}
			m.where = m.dtd
			if sub == 2 {
				m.where = m.ext
			}
			top = []int{m.seg(""), m.dtd}
			topN = []string{"…", "dtd"}
		}
		if open {
			m.e = m.node("e", "Element")
			s.set(m.e, fDoc, hR(m.d))
			s.set(m.ctx, "parserCtx.elem", hR(m.e))
			top = []int{m.seg(""), m.e}
			topN = []string{"…", "e"}
			m.where = m.e
		} else {
			s.set(m.ctx, "parserCtx.elem", hv{k: hNil})
		}
		var l []int
		var nm []string
		switch kids {
		case 1:
			l, nm = []int{m.node("a", "")}, []string{"a"}
		case 2:
			l, nm = []int{m.node("a", ""), m.seg(""), m.node("b", "")}, []string{"a", "…", "b"}
		}
		for _, o := range []int{m.d, m.dtd, m.ext, m.e} {
			switch {
			case o == 0:
			case o == m.where:
				s.list(hR(o), fFirst, fLast, l...)
				m.want[o] = nm
			case o == m.d:
				s.list(hR(o), fFirst, fLast, top...)
				m.want[o] = topN
			default:
				s.list(hR(o), fFirst, fLast, m.seg(""))
				m.want[o] = []string{"…"}
			}
		}
		return m
	}
	// same: every list of children is what it was.
	same := func(m *mirrorScene, s *hState, but int) string {
		for _, o := range []int{m.d, m.dtd, m.ext, m.e} {
			if o == 0 || o == but {
				continue
			}
			if t := s.children(o, m.want[o]...); t != "" {
				return t
			}
		}
		if m.dtd != 0 && (!hSame(s.field(m.d, "Document.intSubset"), hR(m.dtd)) || !hSame(s.field(m.d, "Document.extSubset"), hR(m.ext))) {
			return "the document loses a subset"
		}
		if !hSame(s.field(m.ctx, "parserCtx.doc"), hR(m.d)) {
			return "the document is exchanged"
		}
		return ""
	}
	elem := func(m *mirrorScene, s *hState) string {
		w := hv{k: hNil}
		if m.e != 0 {
			w = hR(m.e)
		}
		if !hSame(s.field(m.ctx, "parserCtx.elem"), w) {
			return "the open element is changed"
		}
		return ""
	}
	// added: the place got one more child of the type, at the end.
	added := func(m *mirrorScene, s *hState, typ string) (int, string) {
		if t := same(m, s, m.where); t != "" {
			return 0, t
		}
		items, t := s.chain(s.field(m.where, fFirst), hR(m.where))
		if t != "" {
			return 0, t
		}
		o, one := s.freshIn(items)
		if !one {
			return 0, "no node is added: the children are " + orNone(s.namedOnly(items))
		}
		if n := typeName2(s.objs[o].typ); n != typ {
			return 0, "a node of type " + n + " is added"
		}
		if t := s.children(m.where, append(append([]string(nil), m.want[m.where]...), s.objs[o].name)...); t != "" {
			return 0, t
		}
		return o, ""
	}
	type variant struct {
		open bool
		sub  int
		kids int
	}
	content := []variant{{true, 0, 0}, {true, 0, 1}, {true, 0, 2}}
	misc := append(append([]variant(nil), content...), variant{false, 0, 0}, variant{false, 0, 1}, variant{false, 0, 2},
		variant{false, 1, 0}, variant{false, 1, 2}, variant{false, 2, 0}, variant{false, 2, 2})
	prolog := []variant{{false, 0, 0}, {false, 0, 1}, {false, 0, 2}}
	subset := []variant{{false, 1, 0}, {false, 1, 1}, {false, 1, 2}, {false, 2, 0}, {false, 2, 1}, {false, 2, 2}}
	run := func(name string, vs []variant, args func(m *mirrorScene, fn *ssa.Function) []hv, judge func(h *hRun, m *mirrorScene, s *hState, failed bool) string) {
		fn := method(name)
		if fn == nil {
			return
		}
		runFn("announcement", name, fn, func(h *hRun) {
			h.track = []string{"Document"}
			for _, v := range vs {
				m := mk(v.open, v.sub, v.kids)
				h.done = func(s *hState, res []hv, in ssa.Instruction) string {
					failed, ok := isErr(res)
					if !ok {
						return "undecided: whether an error is returned"
					}
					return judge(h, m, s, failed)
				}
				a := []hv{hR(m.node("t", "TreeBuilder")), hR(m.ctx)}
				h.start(m.s, fn, append(a, args(m, fn)...)...)
			}
		})
	}
	texts := func(names ...string) func(m *mirrorScene, fn *ssa.Function) []hv {
		return func(m *mirrorScene, fn *ssa.Function) []hv {
			var r []hv
			for _, n := range names {
				r = append(r, str(n))
			}
			return r
		}
	}
	fields := func(h *hRun, s *hState, o int, kv ...string) string {
		for i := 0; i < len(kv); i += 2 {
			if p, ok := h.text(s, hText(kv[i+1])); kv[i+1] != "" && ok {
				kv[i+1] = strings.Join(p, "+")
			}
			if got := h.textOf(s, o, kv[i]); got != kv[i+1] {
				return fmt.Sprintf("%s of the new node is %q instead of %q", kv[i][strings.IndexByte(kv[i], '.')+1:], strings.TrimPrefix(got, "s"), strings.TrimPrefix(kv[i+1], "s"))
			}
		}
		return ""
	}

	if fn := method("StartDocument"); fn != nil {
		runFn("announcement", "StartDocument", fn, func(h *hRun) {
			m := mk(false, 0, 1)
			h.done = func(s *hState, res []hv, in ssa.Instruction) string {
				if failed, ok := isErr(res); !ok || failed {
					return "the document is refused"
				}
				d := s.field(m.ctx, "parserCtx.doc")
				if d.k != hRef || d.o == m.d || !s.objs[d.o].fresh {
					return "no new document is begun"
				}
				if t := fields(h, s, d.o, "Document.version", "sctx.parserCtx.version", "Document.encoding", "sctx.parserCtx.encoding"); t != "" {
					return t
				}
				if v := s.objs[d.o].fields["Document.standalone"]; v.k != hSym || v.s != "ctx.parserCtx.standalone" {
					return "the standalone declaration is not kept"
				}
				return s.children(d.o)
			}
			h.start(m.s, fn, hR(m.node("t", "TreeBuilder")), hR(m.ctx))
		})
	}
	text := func(h *hRun, m *mirrorScene, s *hState, failed bool) string {
		if t := elem(m, s); t != "" {
			return t
		}
		if m.e == 0 {
			if !failed {
				return "text outside of an element is accepted"
			}
			return same(m, s, 0)
		}
		if failed {
			return "the text is refused"
		}
		w := m.want[m.where]
		if len(w) > 0 {
			b := s.objs[m.lastID()]
			if s.children(m.where, w...) == "" {
				// joined with the text before it
				if typeName2(b.typ) != "Text" {
					return "the text is lost"
				}
				if got, want := h.contentOf(s, m.lastID()), "s"+b.name+".node.content+sdata"; got != want {
					return "the text is " + got
				}
				return same(m, s, m.where)
			}
			if typeName2(b.typ) == "Text" {
				return "text is not joined with the text before it"
			}
		}
		o, t := added(m, s, "Text")
		if t != "" {
			return t
		}
		return fields(h, s, o, "node.content", "sdata")
	}
	run("Characters", append(append([]variant(nil), content...), prolog...), texts("data"), text)
	run("CDataBlock", append(append([]variant(nil), content...), prolog...), texts("data"), text)
	run("IgnorableWhitespace", content, texts("data"), func(h *hRun, m *mirrorScene, s *hState, failed bool) string {
		v := s.field(m.ctx, "parserCtx.keepBlanks")
		if v.k != hBool {
			return "whether blanks are kept is not asked"
		}
		if v.n != 0 {
			return text(h, m, s, failed)
		}
		if failed {
			return "white space is refused"
		}
		if t := elem(m, s); t != "" {
			return t
		}
		return same(m, s, 0)
	})
	run("Comment", misc, texts("data"), func(h *hRun, m *mirrorScene, s *hState, failed bool) string {
		if failed {
			return "the comment is refused"
		}
		if t := elem(m, s); t != "" {
			return t
		}
		o, t := added(m, s, "Comment")
		if t != "" {
			return t
		}
		return fields(h, s, o, "node.content", "sdata")
	})
	run("ProcessingInstruction", misc, texts("target", "data"), func(h *hRun, m *mirrorScene, s *hState, failed bool) string {
		if failed {
			return "the processing instruction is refused"
		}
		if t := elem(m, s); t != "" {
			return t
		}
		o, t := added(m, s, "ProcessingInstruction")
		if t != "" {
			return t
		}
		return fields(h, s, o, "ProcessingInstruction.target", "starget", "ProcessingInstruction.data", "sdata", fName, "starget")
	})
	// subsets: the document has two subsets with entities.
	subsets := func(m *mirrorScene) {
		for _, d := range []string{"int", "ext"} {
			o := m.node(d+"subset", "DTD")
			m.s.set(m.d, "Document."+d+"Subset", hR(o))
			st := m.s.objs[o].typ.Underlying().(*types.Struct)
			for i := 0; i < st.NumFields(); i++ {
				if mt, ok := st.Field(i).Type().Underlying().(*types.Map); ok {
					m.s.set(o, "DTD."+st.Field(i).Name(), hR(m.s.obj(d+"subset."+st.Field(i).Name(), mt)))
				}
			}
		}
	}
	run("Reference", append(append([]variant(nil), content...), prolog...), func(m *mirrorScene, fn *ssa.Function) []hv {
		subsets(m)
		return []hv{str("name")}
	}, func(h *hRun, m *mirrorScene, s *hState, failed bool) string {
		if t := elem(m, s); t != "" {
			return t
		}
		if failed {
			if m.e != 0 {
				if f, ok := s.facts["name"]; ok && f.k == hStr && len(f.l) == 0 {
					return ""
				}
				return "the reference is refused"
			}
			return same(m, s, 0)
		}
		if m.e == 0 {
			return "a reference outside of an element is accepted"
		}
		o, t := added(m, s, "EntityRef")
		if t != "" {
			return t
		}
		if got := h.textOf(s, o, fName); got != "sname" && !strings.HasPrefix(got, "sslice(sname:") {
			return "the reference has the name " + got
		}
		// the entity of that name, if the document has one
		var es []hv
		looked := false
		for _, d := range []string{"int", "ext"} {
			for id, ob := range s.objs {
				if ob.name != d+"subset.entities" {
					continue
				}
				for _, k := range sortedKeys(s.objs[id].fields) {
					looked = true
					if v := s.resolve(ob.fields[k]); v.k == hRef {
						es = append(es, v)
					}
				}
			}
		}
		if len(es) > 1 {
			return "undecided: which of several entities it is"
		}
		kid := s.field(o, fFirst)
		if len(es) == 0 {
			if !looked && kid.k == hNil {
				switch f, ok := s.facts["index(`sname`,0)"]; {
				case ok && f.k == hInt && f.n == '#':
					return ""
				case s.neq["index(`sname`,0)!=35"] || ok && f.k == hInt:
					return "the entity is not looked for"
				}
				return "undecided: which names are not looked for"
			}
			if kid.k != hNil {
				return "undecided: where the entity comes from"
			}
			return ""
		}
		if !hSame(kid, es[0]) || !hSame(s.field(o, fLast), es[0]) {
			return "the reference does not lead to its entity"
		}
		if got, want := h.textOf(s, o, "node.content"), h.textOf(s, es[0].o, "Entity.content"); got != want {
			return fmt.Sprintf("the content of the reference is %q and not that of its entity", got)
		}
		return ""
	})
	run("InternalSubset", prolog, texts("name", "eid", "sid"), func(h *hRun, m *mirrorScene, s *hState, failed bool) string {
		if failed {
			return "the subset is refused"
		}
		if t := elem(m, s); t != "" {
			return t
		}
		o, t := added(m, s, "DTD")
		if t != "" {
			return t
		}
		if !hSame(s.field(m.d, "Document.intSubset"), hR(o)) {
			return "the document does not know its internal subset"
		}
		if !hSame(s.field(o, fDoc), hR(m.d)) {
			return "the subset does not know its document"
		}
		return fields(h, s, o, fName, "sname", "DTD.externalID", "seid", "DTD.systemID", "ssid")
	})
	run("EntityDecl", subset, func(m *mirrorScene, fn *ssa.Function) []hv {
		return []hv{str("name"), {k: hSym, s: "typ", t: types.Typ[types.Int]}, str("pid"), str("sid"), str("notation")}
	}, func(h *hRun, m *mirrorScene, s *hState, failed bool) string {
		typ := s.resolve(hv{k: hSym, s: "typ"})
		if failed {
			if typ.k == hInt && typ.n >= 1 && typ.n <= 5 {
				return "an entity is refused"
			}
			return same(m, s, 0)
		}
		o, t := added(m, s, "Entity")
		if t != "" {
			return t
		}
		if v := s.resolve(s.objs[o].fields["Entity.entityType"]); v.k != hInt || typ.k != hInt || v.n != typ.n {
			return "the entity gets another type"
		}
		if t := fields(h, s, o, fName, "sname", "Entity.externalID", "spid", "Entity.systemID", "ssid", "Entity.content", "snotation"); t != "" {
			return t
		}
		table, other := "DTD.entities", "DTD.pentities"
		if typ.n == 4 || typ.n == 5 {
			table, other = other, table
		}
		tv := s.field(m.where, table)
		if tv.k != hRef || !hSame(s.objs[tv.o].fields["[`sname`]"], hR(o)) {
			return "the entity cannot be looked up by its name"
		}
		if ov := s.field(m.where, other); ov.k == hRef {
			if _, ok := s.objs[ov.o].fields["[`sname`]"]; ok {
				return "the entity is put into the other table"
			}
		}
		return ""
	})
	// table: the entries made in the tables of a subset.
	table := func(s *hState, o int, but string) (entries []hv, stray string) {
		for _, k := range sortedKeys(s.objs[o].fields) {
			v := s.objs[o].fields[k]
			if v.k != hRef {
				continue
			}
			if ob := s.objs[v.o]; ob != nil && ob.typ != nil {
				if _, ok := ob.typ.Underlying().(*types.Map); ok {
					for _, e := range sortedKeys(ob.fields) {
						if w := ob.fields[e]; w.k == hRef && s.objs[w.o].fresh {
							if k == but {
								entries = append(entries, w)
							} else {
								stray = k
							}
						}
					}
				}
			}
		}
		return
	}
	run("ElementDecl", subset, func(m *mirrorScene, fn *ssa.Function) []hv {
		cm := m.node("cm", "ElementContent")
		return []hv{str("name"), {k: hSym, s: "typ", t: types.Typ[types.Int]}, hR(cm)}
	}, func(h *hRun, m *mirrorScene, s *hState, failed bool) string {
		typ := s.resolve(hv{k: hSym, s: "typ"})
		if failed {
			return same(m, s, 0)
		}
		o, t := added(m, s, "ElementDecl")
		if t != "" {
			return t
		}
		if v := s.resolve(s.objs[o].fields["ElementDecl.decltype"]); v.k != hInt || v.n == 0 || typ.k != hInt || v.n != typ.n {
			return "the declaration gets another type"
		}
		if v := s.resolve(s.objs[o].fields["ElementDecl.content"]); v.k != hOpq || !strings.HasSuffix(v.s, "(@cm)") {
			return "the content model is not the one announced"
		}
		es, stray := table(s, m.where, "DTD.elements")
		if stray != "" || len(es) != 1 || es[0].o != o {
			return "the declaration cannot be looked up by its name"
		}
		return ""
	})
	attrDecl := func(prefix, local string) func(h *hRun, m *mirrorScene, s *hState, failed bool) string {
		return func(h *hRun, m *mirrorScene, s *hState, failed bool) string {
			es, stray := table(s, m.where, "DTD.attributes")
			if failed {
				if t := same(m, s, 0); t != "" {
					return t
				}
				if len(es) != 0 || stray != "" {
					return "a declaration that is refused is kept"
				}
				return ""
			}
			o, t := added(m, s, "AttributeDecl")
			if t != "" {
				return t
			}
			if stray != "" || len(es) != 1 || es[0].o != o {
				return "the declaration cannot be looked up by its name"
			}
			for _, kv := range [][2]string{{"AttributeDecl.atype", "typ"}, {"AttributeDecl.def", "def"}} {
				v, w := s.resolve(s.objs[o].fields[kv[0]]), s.resolve(hv{k: hSym, s: kv[1]})
				if v.k != hInt && v.k != hSym {
					return "undecided: a value of the declaration"
				}
				if v.k != w.k || v.n != w.n || v.s != w.s {
					return "the declaration gets another " + map[string]string{"typ": "type", "def": "kind of default"}[kv[1]]
				}
			}
			switch v := s.resolve(s.objs[o].fields["AttributeDecl.tree"]); {
			case v.s == "enum" && (v.k == hSym || v.k == hOpq):
			case v.k == hNil, v.k == hSlice && len(v.l) == 0, v.k == 0:
				return "the declaration loses the values allowed"
			default:
				return "undecided: the values allowed"
			}
			if t := fields(h, s, o, "AttributeDecl.elem", "selem", "AttributeDecl.defvalue", "svalue"); t != "" || local == "" {
				return t
			}
			for _, kv := range [][2]string{{"AttributeDecl.prefix", prefix}, {fName, local}} {
				got, want := h.textOf(s, o, kv[0]), kv[1]
				if want == "" {
				} else if p, ok := h.text(s, hText(want)); ok {
					want = strings.Join(p, "+")
				}
				if got == want {
					continue
				}
				for _, p := range strings.Split(got, "+") {
					if p != "" && p[0] == 's' && p != "sprefix" && p != "slocal" && p != "svalue" && p != "selem" {
						return "undecided: how the name of the attribute is taken apart: " + got
					}
				}
				return fmt.Sprintf("the attribute %s is declared with the %s %q", map[string]string{"": "x", "sprefix": "p:x"}[prefix], map[bool]string{true: "local name", false: "prefix"}[kv[0] == fName],
					strings.NewReplacer("sprefix", "p", "slocal", "x", "+c", "", "+s", "s").Replace(got))
			}
			return ""
		}
	}
	run("AttributeDecl", subset, func(m *mirrorScene, fn *ssa.Function) []hv {
		en := hv{k: hOpq, s: "enum", t: fn.Params[len(fn.Params)-1].Type()}
		return []hv{str("elem"), str("attr"), {k: hSym, s: "typ", t: types.Typ[types.Int]}, {k: hSym, s: "def", t: types.Typ[types.Int]}, str("value"), en}
	}, attrDecl("", ""))
	// a name with a prefix is taken apart at its colon
	if fn := method("AttributeDecl"); fn != nil {
		runFn("announcement", "AttributeDecl (names)", fn, func(h *hRun) {
			h.track = []string{"Document"}
			h.without = map[string]string{"slocal": ":", "sprefix": ":"}
			for _, prefixed := range []bool{false, true} {
				for _, v := range subset[:1] {
					m := mk(v.open, v.sub, v.kids)
					m.s.neq["!=slocal"], m.s.neq["!=sprefix"] = true, true
					judge, name := attrDecl("", "slocal"), hText("slocal")
					if prefixed {
						judge, name = attrDecl("sprefix", "slocal"), hText("sprefix", "c:", "slocal")
					}
					h.done = func(s *hState, res []hv, in ssa.Instruction) string {
						failed, ok := isErr(res)
						if !ok {
							return "undecided: whether an error is returned"
						}
						return judge(h, m, s, failed)
					}
					en := hv{k: hOpq, s: "enum", t: fn.Params[len(fn.Params)-1].Type()}
					h.start(m.s, fn, hR(m.node("t", "TreeBuilder")), hR(m.ctx), str("elem"), name,
						hv{k: hSym, s: "typ", t: types.Typ[types.Int]}, hv{k: hSym, s: "def", t: types.Typ[types.Int]}, str("value"), en)
				}
			}
		})
	}
	if fn := method("EndElementNS"); fn != nil {
		runFn("announcement", "EndElementNS", fn, func(h *hRun) {
			for i := 0; i < 4; i++ {
				m := mk(i > 0, 0, 2)
				s := m.s
				up := hv{k: hNil}
				switch i {
				case 2:
					pe := m.node("p", "Element")
					s.list(hR(m.d), fFirst, fLast, m.seg(""), pe)
					m.want[m.d] = []string{"…", "p"}
					s.list(hR(pe), fFirst, fLast, m.seg(""), m.e)
					up = hR(pe)
				case 3:
					s.detached(m.e)
					s.list(hR(m.d), fFirst, fLast)
					m.want[m.d] = nil
				}
				h.done = func(s *hState, res []hv, in ssa.Instruction) string {
					failed, ok := isErr(res)
					if !ok {
						return "undecided: whether an error is returned"
					}
					if failed {
						if m.e != 0 {
							return "the end of an element is refused"
						}
						return ""
					}
					if m.e == 0 {
						return "the end of an element is accepted where none is open"
					}
					if !hSame(s.field(m.ctx, "parserCtx.elem"), up) {
						return "the element that is open now is not the parent of the one that ended but " + s.who(s.field(m.ctx, "parserCtx.elem"))
					}
					return same(m, s, 0)
				}
				h.start(s, fn, hR(m.node("t", "TreeBuilder")), hR(m.ctx), str("local"), str("prefix"), str("uri"))
			}
		})
	}
	if fn := method("StartElementNS"); fn != nil {
		np := len(fn.Params)
		nsT := fn.Params[np-2].Type().Underlying().(*types.Slice).Elem()
		atT := fn.Params[np-1].Type().Underlying().(*types.Slice).Elem()
		vs := append(append([]variant(nil), content...), prolog...)
		for _, v := range vs {
			v := v
			where := "in the document"
			if v.open {
				where = "in an element"
			}
			runFn("element", fmt.Sprintf("%s, %d", where, v.kids), fn, func(h *hRun) {
				h.track = []string{"Document"}
				for nn := 0; nn <= 2; nn++ {
					for na := 0; na <= 2; na++ {
						if v.kids == 1 && (nn == 1 || na == 1) {
							continue
						}
						nn, na := nn, na
						m := mk(v.open, v.sub, v.kids)
						h.done = func(s *hState, res []hv, in ssa.Instruction) string {
							failed, ok := isErr(res)
							if !ok {
								return "undecided: whether an error is returned"
							}
							if failed {
								if t := elem(m, s); t != "" {
									return t
								}
								if t := same(m, s, 0); t != "" {
									return t
								}
								if has(s.log, "list failed") {
									return ""
								}
								if na == 2 {
									a, _ := h.text(s, str("at0.Name()"))
									b, _ := h.text(s, str("at1.Name()"))
									if strings.Join(a, "+") == strings.Join(b, "+") {
										return "" // a duplicate
									}
								}
								return "an element is refused"
							}
							o, t := added(m, s, "Element")
							if t != "" {
								return t
							}
							if !hSame(s.field(m.ctx, "parserCtx.elem"), hR(o)) {
								return "the new element is not the open one"
							}
							if !hSame(s.field(o, fDoc), hR(m.d)) {
								return "the element does not know its document"
							}
							if t := fields(h, s, o, fName, "slocal"); t != "" {
								return t
							}
							if t := s.children(o); t != "" {
								return t
							}
							nsIs := func(v hv, prefix, uri string) string {
								v = s.resolve(v)
								if v.k != hRef {
									return "a namespace is not there"
								}
								if a, b := h.textOf(s, v.o, "Namespace.prefix"), h.textOf(s, v.o, "Namespace.href"); a != prefix || b != uri {
									return "a namespace has prefix " + a + " and name " + b
								}
								return ""
							}
							u, _ := h.text(s, str("uri"))
							if ns := s.field(o, "node.ns"); len(u) == 0 {
								if ns.k != hNil {
									return "an element without namespace gets one"
								}
							} else if t := nsIs(ns, strings.Join(first(h.text(s, str("prefix"))), "+"), strings.Join(u, "+")); t != "" {
								return "of the element: " + t
							}
							defs := s.field(o, "node.nsDefs")
							if len(defs.l) != nn {
								return fmt.Sprintf("%d namespaces are declared instead of %d", len(defs.l), nn)
							}
							for i, v := range defs.l {
								if t := nsIs(v, strings.Join(first(h.text(s, str(fmt.Sprintf("ns%d.Prefix()", i)))), "+"), strings.Join(first(h.text(s, str(fmt.Sprintf("ns%d.URI()", i)))), "+")); t != "" {
									return t
								}
							}
							items, t := s.chain(s.field(o, "node.properties"), hR(o))
							if t != "" {
								return "in the attributes: " + t
							}
							var want []string
							for i := 0; i < na; i++ {
								d := s.resolve(hv{k: hSym, s: fmt.Sprintf("at%d.IsDefault()", i)})
								switch {
								case d.k != hBool:
									want = append(want, "at"+itoa(i))
								case d.n == 0:
									want = append(want, "at"+itoa(i))
								default:
									ld := s.attrDefaults(complete)
									if ld == "unknown" {
										return "a default attribute is treated in a way that does not depend on the options"
									}
									if ld == "yes" {
										want = append(want, "at"+itoa(i))
									}
								}
							}
							if len(items) != len(want) {
								return fmt.Sprintf("there are %d attributes instead of %d", len(items), len(want))
							}
							for i, it := range items {
								if it.k != hRef {
									return "an attribute that is not known"
								}
								if got, w := h.textOf(s, it.o, fName), strings.Join(first(h.text(s, str(want[i]+".Name()"))), "+"); got != w {
									return "an attribute has the name " + got + " instead of " + w
								}
								val := want[i] + ".Value()"
								kids, t := s.chain(s.field(it.o, fFirst), it)
								if t != "" {
									return "in the value of an attribute: " + t
								}
								if len(kids) == 0 {
									f, ok := s.facts[val]
									if !(ok && f.k == hStr && len(f.l) == 0) && !has(s.log, "list of `s"+val+"`") {
										return "the value of an attribute is lost"
									}
								} else if kids[0].k != hRef || h.textOf(s, kids[0].o, "of") != "c`s"+val+"`" {
									return "the children of an attribute are not what its value is made of"
								}
							}
							return ""
						}
						h.start(m.s, fn, hR(m.node("t", "TreeBuilder")), hR(m.ctx), str("local"), str("prefix"), str("uri"),
							opaques("ns", nn, nsT), opaques("at", na, atT))
					}
				}
			})
		}
	}
	checkLists(p, contr, runFn)

	// the others leave the tree alone
	var ms []string
	for _, n := range p.handlerMethods() {
		ms = append(ms, n)
	}
	for _, name := range ms {
		if seen[name] {
			continue
		}
		fn := p.methodOf(tb, name)
		if fn == nil {
			continue
		}
		runFn("no effect", name, fn, func(h *hRun) {
			for _, v := range misc {
				m := mk(v.open, v.sub, v.kids)
				h.done = func(s *hState, res []hv, in ssa.Instruction) string {
					if t := elem(m, s); t != "" {
						return t
					}
					return same(m, s, 0)
				}
				args := []hv{hR(m.node("t", "TreeBuilder")), hR(m.ctx)}
				for _, pa := range fn.Params[2:] {
					args = append(args, m.s.initial(pa.Name(), pa.Type()))
				}
				h.start(m.s, fn, args...)
			}
		})
	}
	checkRestored(p, r)
	r.min("announcement", 12)
	r.min("element", 6)
	r.min("no effect", 10)
	r.min("list of nodes", 1)
	r.stats["outcomes examined"] = total
}

func first(l []string, ok bool) []string { return l }

// lastID: the last node of the place new nodes go to.
func (m *mirrorScene) lastID() int {
	w := m.want[m.where]
	n := w[len(w)-1]
	for o, ob := range m.s.objs {
		if ob.name == n {
			return o
		}
	}
	return 0
}

// attrDefaults: whether the options ask for default attributes.
func (s *hState) attrDefaults(bit int64) string {
	k := fmt.Sprintf("(ctx.parserCtx.loadsubset&%d)", bit)
	if v, ok := s.facts[k]; ok && v.k == hInt && v.n == 0 {
		return "no"
	}
	if s.neq[k+"!=0"] {
		return "yes"
	}
	return "unknown"
}

// handlerMethods: what a handler has to be able to do.
func (p *Program) handlerMethods() (l []string) {
	pk := p.pkg("sax")
	if pk == nil {
		return nil
	}
	if o := pk.Pkg.Scope().Lookup("SAX2Handler"); o != nil {
		if it, ok := o.Type().Underlying().(*types.Interface); ok {
			for i := 0; i < it.NumMethods(); i++ {
				l = append(l, it.Method(i).Name())
			}
		}
	}
	return l
}
