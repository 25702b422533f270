package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func (p *Program) typeNamed(name string) types.Type {
	if o, ok := p.root().Pkg.Scope().Lookup(name).(*types.TypeName); ok {
		return o.Type()
	}
	return nil
}

// only: marks that say that a node is of another type.
func (p *Program) notMarks(t ...string) map[string]bool {
	r := map[string]bool{}
	for _, n := range t {
		r["not "+n] = true
	}
	return r
}

// scene builds lists of children for a run.
type scene struct {
	p *Program
	s *hState
}

func (c *scene) node(name, typ string) int {
	if typ == "" {
		o := c.s.obj(name, nil)
		c.s.objs[o].marks["not Document"] = true
		return o
	}
	return c.s.obj(name, c.p.typeNamed(typ))
}

func (c *scene) seg(typ string, not ...string) int {
	id := c.s.segment("S", hv{k: hNil}, hv{k: hNil}, hv{k: hNil})
	if typ != "" {
		c.s.segs[id].typ = c.p.typeNamed(typ)
	}
	c.s.segs[id].marks = c.p.notMarks(append(not, "Document")...)
	return -id
}

// fresh is the name of the only new node of a list.
func (s *hState) freshIn(items []hv) (int, bool) {
	o, n := 0, 0
	for _, it := range items {
		if it.k == hRef && s.objs[it.o].fresh {
			o = it.o
			n++
		}
	}
	return o, n == 1
}

func (h *hRun) textOf(s *hState, o int, k string) string {
	ob := s.objs[o]
	v, ok := ob.fields[k]
	if !ok {
		if ob.fresh {
			return ""
		}
		v = hText("s" + ob.name + "." + k)
	}
	p, ok := h.text(s, v)
	if !ok {
		return "?"
	}
	return strings.Join(p, "+")
}

func str(name string) hv { return hText("s" + name) }

func checkTreeOps(p *Program, run func(rule, key string, fn *ssa.Function, each func(h *hRun))) {
	doc, elem := p.typeNamed("Document"), p.typeNamed("Element")
	if fn := p.methodOf(doc, "SetDocumentElement"); fn != nil {
		run("set root", "SetDocumentElement", fn, func(h *hRun) {
			for i := 0; i < 6; i++ {
				h.track = []string{"Document", "Element"}
				c := &scene{p, newHState()}
				s := c.s
				d := c.node("d", "Document")
				root := c.node("root", "Element")
				s.detached(root)
				old := 0
				var want []string
				var l []int
				switch i {
				case 0:
				case 1:
					l = []int{c.seg("", "Element")}
					want = []string{"…"}
				case 2:
					old = c.node("old", "Element")
					l = []int{old}
				case 3:
					old = c.node("old", "Element")
					b := c.node("b", "")
					l = []int{c.seg("", "Element"), old, c.seg(""), b}
					want = []string{"…", "root", "…", "b"}
				case 4:
					old = c.node("old", "Element")
					a := c.node("a", "Comment")
					l = []int{a, c.seg("", "Element"), old}
					want = []string{"a", "…", "root"}
				case 5:
					a := c.node("a", "DTD")
					b := c.node("b", "Comment")
					l = []int{a, c.seg("", "Element"), b}
					want = []string{"a", "…", "b"}
				}
				if old == 0 {
					want = append(want, "root")
				} else if want == nil {
					want = []string{"root"}
				}
				s.list(hR(d), fFirst, fLast, l...)
				h.done = func(s *hState, res []hv, in ssa.Instruction) string {
					if failed, ok := isErr(res); !ok || failed {
						return "the root element is refused"
					}
					if old != 0 && !s.isDetached(old) {
						return "the old root element keeps links to its former neighbours"
					}
					return s.children(d, want...)
				}
				h.start(s, fn, hR(d), hR(root))
			}
		})
	}
	if fn := p.methodOf(elem, "SetAttribute"); fn != nil {
		run("set attribute", "SetAttribute", fn, func(h *hRun) {
			for i := 0; i < 3; i++ {
				c := &scene{p, newHState()}
				s := c.s
				n := c.node("n", "Element")
				s.set(n, fDoc, hR(c.node("doc", "Document")))
				var l []int
				var want []string
				if i > 0 {
					l = []int{c.node("a", "Attribute")}
					want = []string{"a"}
				}
				if i > 1 {
					l = append(l, c.seg("Attribute"), c.node("b", "Attribute"))
					want = append(want, "…", "b")
				}
				s.list(hR(n), "node.properties", "", l...)
				h.done = func(s *hState, res []hv, in ssa.Instruction) string {
					failed, ok := isErr(res)
					if !ok {
						return "undecided: whether an error is returned"
					}
					items, m := s.chain(s.field(n, "node.properties"), hR(n))
					if m != "" {
						return m
					}
					if failed {
						if !s.sameList(items, want...) {
							return "an error is returned, but the attributes are " + orNone(s.namedOnly(items))
						}
						return ""
					}
					at, one := s.freshIn(items)
					if !one || typeName2(s.objs[at].typ) != "Attribute" {
						return "no attribute was added: " + orNone(s.namedOnly(items))
					}
					if !s.sameList(items, append(append([]string(nil), want...), s.objs[at].name)...) {
						return "the attributes are " + s.namedOnly(items)
					}
					if got := h.textOf(s, at, fName); got != "sname" {
						return "the name of the attribute is not the one given but " + got
					}
					kids, m := s.chain(s.field(at, fFirst), hR(at))
					if m != "" {
						return "in the value of the attribute: " + m
					}
					if last := s.field(at, fLast); len(kids) > 0 && !hSame(last, kids[len(kids)-1]) || len(kids) == 0 && last.k != hNil {
						return "the last part of the value is not the last child of the attribute"
					}
					if len(kids) == 0 {
						f, ok := s.facts["value"]
						if !(ok && f.k == hStr && len(f.l) == 0) && !has(s.log, "list of `svalue`") {
							return "the value of the attribute is lost"
						}
					} else if kids[0].k != hRef || h.textOf(s, kids[0].o, "of") != "c`svalue`" {
						return "the children of the attribute are not what its value is made of"
					}
					for _, it := range items[:len(items)-1] {
						var marks map[string]bool
						if it.k == hRef {
							marks = s.objs[it.o].marks
						} else {
							marks = s.segs[it.o].marks
						}
						differs := false
						for m := range marks {
							if m == fName+"!=sname" {
								differs = true
							}
						}
						if !differs {
							return "an attribute is added without its name having been compared with that of every other"
						}
					}
					return ""
				}
				h.start(s, fn, hR(n), str("name"), str("value"))
			}
		})
	}
	if fn := p.methodOf(doc, "CreateInternalSubset"); fn != nil {
		run("create internal subset", "CreateInternalSubset", fn, func(h *hRun) {
			for i := 0; i < 4; i++ {
				c := &scene{p, newHState()}
				s := c.s
				d := c.node("d", "Document")
				var l []int
				var want []string
				dtd := 0
				if i&1 != 0 {
					l = append(l, c.node("a", "Comment"), c.seg(""))
					want = append(want, "a", "…")
				}
				if i&2 != 0 {
					dtd = c.node("dtd", "DTD")
					l = append(l, dtd)
					want = append(want, "dtd")
					s.set(d, "Document.intSubset", hR(dtd))
				} else {
					s.set(d, "Document.intSubset", hv{k: hNil})
				}
				s.list(hR(d), fFirst, fLast, l...)
				h.done = func(s *hState, res []hv, in ssa.Instruction) string {
					failed, ok := isErr(res)
					if !ok {
						return "undecided: whether an error is returned"
					}
					sub := s.field(d, "Document.intSubset")
					if failed {
						if dtd == 0 {
							return "the subset is refused"
						}
						if !hSame(sub, hR(dtd)) {
							return "an error is returned, but the old subset was replaced"
						}
						return s.children(d, want...)
					}
					if dtd != 0 {
						return "a document gets a second internal subset"
					}
					if sub.k != hRef || !s.objs[sub.o].fresh || !hSame(sub, res[0]) {
						return "the document does not know its new internal subset"
					}
					if got := h.textOf(s, sub.o, fName) + "," + h.textOf(s, sub.o, "DTD.externalID") + "," + h.textOf(s, sub.o, "DTD.systemID"); got != "sname,seid,ssid" {
						return "the subset has name, public and system identifier " + got
					}
					if !hSame(s.field(sub.o, fDoc), hR(d)) {
						return "the subset does not know its document"
					}
					return s.children(d, append(append([]string(nil), want...), s.objs[sub.o].name)...)
				}
				h.start(s, fn, hR(d), str("name"), str("eid"), str("sid"))
			}
		})
	}
}

// checkLists: recursive functions of which the other rules assume that they
// make a list of nodes of its own.
func checkLists(p *Program, contr map[*ssa.Function]bool, run func(rule, key string, fn *ssa.Function, each func(h *hRun))) {
	for fn := range contr {
		fn := fn
		run("list of nodes", shortFn(fn), fn, func(h *hRun) {
			h.noLog = true
			c := &scene{p, newHState()}
			var args []hv
			for i, pa := range fn.Params {
				if i == 0 && fn.Signature.Recv() != nil {
					args = append(args, hR(c.node("d", typeName(pa.Type()))))
				} else {
					args = append(args, c.s.initial("arg"+itoa(i), pa.Type()))
				}
			}
			h.done = func(s *hState, res []hv, in ssa.Instruction) string {
				failed, ok := isErr(res)
				if !ok {
					return "undecided: whether an error is returned"
				}
				if failed {
					return ""
				}
				_, m := s.chain(res[0], hv{k: hNil})
				return m
			}
			h.start(c.s, fn, args...)
		})
	}
}

func has(l []string, s string) bool {
	for _, e := range l {
		if e == s {
			return true
		}
	}
	return false
}
