package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("T02", "proof", "shape analysis of the operations that go through a tree (walking, content, attributes, moving to another document) over lists of children of any length, by induction over the depth: every node is taken exactly once, parents before children and siblings in order, and the first error ends the walk",
		checkT02, "trees are well formed (D01)")
}

// markNext: the node is taken; it must be the first that was not taken yet.
func (s *hState) markNext(o int, mark string) string {
	ob := s.objs[o]
	if ob.marks[mark] {
		return "a node is taken twice: " + ob.name
	}
	switch p := s.field(o, fPrev); p.k {
	case hNil:
	case hRef:
		if !s.objs[p.o].marks[mark] {
			return "a node is taken before the one in front of it"
		}
	case hSeg:
		if !s.segs[p.o].marks[mark] {
			return "a node is taken before those in front of it"
		}
	default:
		return "undecided: which node is taken"
	}
	ob.marks[mark] = true
	return ""
}

// taken: which nodes of a list are marked; all, none or a beginning of it.
func (s *hState) taken(items []hv, mark string) (n int, gap bool) {
	open := false
	for _, it := range items {
		m := false
		if it.k == hRef {
			m = s.objs[it.o].marks[mark]
		} else {
			m = s.segs[it.o].marks[mark]
		}
		if m {
			if open {
				gap = true
			}
			n++
		} else {
			open = true
		}
	}
	return
}

func checkT02(p *Program, r *Report) {
	codes, _, _ := p.nodeCodes()
	total := 0
	run := func(rule, key string, fn *ssa.Function, each func(h *hRun)) {
		h := newHRun(p)
		h.etypes = codes
		h.track = []string{"Document"}
		each(h)
		total += h.ends
		pos := p.pos(fn.Pos())
		r.fn(shortFn(fn))
		if h.verdict(r, rule, key, pos) {
			return
		}
		r.ok(rule, key, pos, fmt.Sprintf("%d outcomes", h.ends))
	}
	type shape struct {
		l  []int
		nm []string
	}
	shapes := func(c *scene, typ string) []shape {
		return []shape{{nil, nil}, {[]int{1}, []string{"a"}}, {[]int{1, 0, 2}, []string{"a", "…", "b"}}}
	}
	build := func(c *scene, parent int, firstK, lastK, typ string, l []int) {
		var ids []int
		for _, i := range l {
			if i == 0 {
				ids = append(ids, c.seg(typ))
			} else {
				ids = append(ids, c.node([]string{"", "a", "b"}[i], typ))
			}
		}
		c.s.list(hR(parent), firstK, lastK, ids...)
	}

	if fn := p.root().Func("Walk"); fn != nil {
		run("walk", "nil", fn, func(h *hRun) {
			s := newHState()
			h.done = func(s *hState, res []hv, in ssa.Instruction) string {
				if failed, ok := isErr(res); !ok || !failed {
					return "walking nothing is not an error"
				}
				return ""
			}
			h.onCall = func(s *hState, t *ssa.Call, f *ssa.Function, name string, args []hv) ([]*hState, bool) {
				if name == "value f" {
					h.bad(t, "the function is called without a node")
					return nil, true
				}
				return nil, false
			}
			h.start(s, fn, hv{k: hNil}, hv{k: hOpq, s: "f", t: fn.Params[1].Type()})
		})
		for _, sh := range shapes(nil, "") {
			sh := sh
			run("walk", orNone(strings.Join(sh.nm, " ")), fn, func(h *hRun) {
				c := &scene{p, newHState()}
				n := c.node("n", "")
				build(c, n, fFirst, fLast, "", sh.l)
				h.onCall = func(s *hState, t *ssa.Call, f *ssa.Function, name string, args []hv) ([]*hState, bool) {
					switch {
					case name == "value f":
						if len(args) != 1 || !hSame(args[0], hR(n)) {
							h.bad(t, "the function is called for another node")
							return nil, true
						}
						if s.objs[n].marks["seen"] {
							h.bad(t, "the function is called twice for a node")
							return nil, true
						}
						s.objs[n].marks["seen"] = true
						e := s.clone()
						e.top().env[t] = hv{k: hErr}
						e.note("failed")
						s.top().env[t] = hv{k: hNil}
						return []*hState{e, s}, true
					case f == fn:
						if !s.objs[n].marks["seen"] {
							h.bad(t, "children are walked before the node itself was seen")
							return nil, true
						}
						if has(s.log, "failed") {
							h.bad(t, "the walk goes on after an error")
							return nil, true
						}
						if args[0].k != hRef || args[0].o == n {
							h.bad(t, "undecided: which node is walked")
							return nil, true
						}
						if args[1].k != hOpq || args[1].s != "f" {
							h.bad(t, "children are walked with another function")
							return nil, true
						}
						if m := s.markNext(args[0].o, "walked"); m != "" {
							h.bad(t, m)
							return nil, true
						}
						e := s.clone()
						e.top().env[t] = hv{k: hErr}
						e.note("failed")
						s.top().env[t] = hv{k: hNil}
						return []*hState{e, s}, true
					}
					return nil, false
				}
				h.done = func(s *hState, res []hv, in ssa.Instruction) string {
					failed, ok := isErr(res)
					if !ok {
						return "undecided: whether an error is returned"
					}
					if failed != has(s.log, "failed") {
						return "whether an error is returned does not depend on whether the function failed"
					}
					if m := s.children(n, sh.nm...); m != "" {
						return m
					}
					if failed {
						return ""
					}
					if !s.objs[n].marks["seen"] {
						return "the node itself is not seen"
					}
					items, _ := s.chain(s.field(n, fFirst), hR(n))
					if k, _ := s.taken(items, "walked"); k != len(items) {
						return "children are left out: " + itoa(len(items)-k) + " of " + s.namedOnly(items)
					}
					return ""
				}
				h.start(c.s, fn, hR(n), hv{k: hOpq, s: "f", t: fn.Params[1].Type()})
			})
		}
	} else {
		r.fail("walk", "Walk", "", "there is no such function")
	}

	if fn := p.methodOf(p.typeNamed("Element"), "Attributes"); fn != nil {
		for _, sh := range shapes(nil, "") {
			sh := sh
			run("attributes", orNone(strings.Join(sh.nm, " ")), fn, func(h *hRun) {
				c := &scene{p, newHState()}
				n := c.node("n", "Element")
				build(c, n, "node.properties", "", "Attribute", sh.l)
				h.collect = "collected"
				h.done = func(s *hState, res []hv, in ssa.Instruction) string {
					items, m := s.chain(s.field(n, "node.properties"), hR(n))
					if m != "" {
						return m
					}
					if !s.sameList(items, sh.nm...) {
						return "the attributes are changed"
					}
					if k, _ := s.taken(items, "collected"); k != len(items) {
						return "attributes are left out: " + itoa(len(items)-k) + " of " + s.namedOnly(items)
					}
					v := res[0]
					if len(items) == 0 && (v.k == hNil || v.k == hSlice && len(v.l) == 0) || v.k == hOpq && v.s == "collected" {
						return ""
					}
					return "it is not the list of the attributes that is returned"
				}
				h.start(c.s, fn, hv{k: hStruct, o: n})
			})
		}
	}

	// the content of a node is that of its children
	seenFn := map[*ssa.Function]bool{}
	for _, t := range p.nodeTypes() {
		fn := p.methodOf(t, "Content")
		if fn == nil || seenFn[fn] {
			continue
		}
		seenFn[fn] = true
		if typeName(fn.Signature.Recv().Type()) != "docnode" {
			// a node with text of its own
			k := map[string]string{"Entity": "Entity.content"}[typeName(t)]
			if k == "" {
				k = "node.content"
			}
			t := t
			run("content", shortFn(fn), fn, func(h *hRun) {
				c := &scene{p, newHState()}
				n := c.node("n", typeName(t))
				h.done = func(s *hState, res []hv, in ssa.Instruction) string {
					if p, ok := h.text(s, res[0]); !ok || strings.Join(p, "+") != "sn."+k {
						return "the content is " + strings.Join(p, "+") + " instead of the text of the node"
					}
					return ""
				}
				a := hR(n)
				if _, isP := fn.Signature.Recv().Type().Underlying().(*types.Pointer); !isP {
					a = hv{k: hStruct, o: n}
				}
				h.start(c.s, fn, a)
			})
			continue
		}
		for _, sh := range shapes(nil, "") {
			sh := sh
			run("content", orNone(strings.Join(sh.nm, " ")), fn, func(h *hRun) {
				c := &scene{p, newHState()}
				n := c.node("n", "Element")
				build(c, n, fFirst, fLast, "", sh.l)
				h.collect = "written"
				h.onCall = func(s *hState, t *ssa.Call, f *ssa.Function, name string, args []hv) ([]*hState, bool) {
					switch {
					case name == "Content" && args[0].k == hRef && args[0].o != n:
						s.top().env[t] = hText("scontent(" + itoa(args[0].o) + ")")
						return []*hState{s}, true
					case f != nil && (name == "Write" || name == "WriteString") && typeName(f.Signature.Recv().Type()) == "Buffer":
						p, ok := h.text(s, args[1])
						o := 0
						if ok && len(p) == 1 {
							fmt.Sscanf(p[0], "scontent(%d)", &o)
						}
						if s.objs[o] == nil {
							h.bad(t, "something else than the content of a child is added")
							return nil, true
						}
						if m := s.markNext(o, "written"); m != "" {
							h.bad(t, m)
							return nil, true
						}
						s.top().env[t] = h.unknown(t.Type())
						return []*hState{s}, true
					case f != nil && name == "Bytes" && typeName(f.Signature.Recv().Type()) == "Buffer":
						s.top().env[t] = hText("sbuffer")
						return []*hState{s}, true
					}
					return nil, false
				}
				h.done = func(s *hState, res []hv, in ssa.Instruction) string {
					if m := s.children(n, sh.nm...); m != "" {
						return m
					}
					items, _ := s.chain(s.field(n, fFirst), hR(n))
					if k, _ := s.taken(items, "written"); k != len(items) {
						return "the content of children is left out: " + itoa(len(items)-k) + " of " + s.namedOnly(items)
					}
					if p, ok := h.text(s, res[0]); !ok || len(p) != 1 || p[0] != "sbuffer" {
						if !(len(items) == 0 && ok && len(p) == 0) {
							return "what was put together is not returned"
						}
					}
					return ""
				}
				a := hR(n)
				if _, isP := fn.Signature.Recv().Type().Underlying().(*types.Pointer); !isP {
					a = hv{k: hStruct, o: n}
				}
				h.start(c.s, fn, a)
			})
		}
	}
	r.min("walk", 4)
	r.min("attributes", 3)
	r.min("content", 5)
	r.stats["outcomes examined"] = total
}
