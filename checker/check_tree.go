package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("D01", "proof", "shape analysis of every operation that links nodes (heap graph with segments for parts of sibling lists of any length, every concrete node type, every branch): from a well-formed tree and a detached node the operation leaves exactly the list it is meant to, with parent, first, last, next and previous links that agree with one another",
		checkD01, "the node that is added is not yet part of a tree, and a node is not put inside itself")
}

// nodeCodes: the type code each kind of node is created with.
func (p *Program) nodeCodes() (codes map[string]int64, problems map[string]string, sites int) {
	codes, problems = map[string]int64{}, map[string]string{}
	isNode := map[string]bool{}
	for _, t := range p.nodeTypes() {
		isNode[typeName(t)] = true
	}
	for _, fn := range p.allFuncsWithInit() {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				al, ok := in.(*ssa.Alloc)
				if !ok {
					continue
				}
				el := al.Type().(*types.Pointer).Elem()
				if !isNode[typeName(el)] || !p.inModuleType(el) {
					continue
				}
				if _, ok := el.Underlying().(*types.Struct); !ok {
					continue
				}
				code, n, copied := int64(0), 0, false
				var walk func(v ssa.Value)
				walk = func(v ssa.Value) {
					for _, r := range *v.Referrers() {
						switch x := r.(type) {
						case *ssa.FieldAddr:
							key, fl := fieldKey(x.X.Type(), x.Field)
							if fl.Embedded() {
								walk(x)
							} else if key == fEtype {
								for _, rr := range *x.Referrers() {
									if st, ok := rr.(*ssa.Store); ok {
										n++
										if c, ok := st.Val.(*ssa.Const); ok && c.Value != nil {
											code, _ = constant.Int64Val(c.Value)
										} else {
											code = -1
										}
									}
								}
							}
						case *ssa.Store:
							if _, zero := x.Val.(*ssa.Const); x.Addr == v && !zero {
								copied = true // a copy of another node
							}
						}
					}
				}
				walk(al)
				if copied {
					continue
				}
				sites++
				tn := typeName(el)
				if n == 0 || code <= 0 {
					problems[tn] = "created without a type code in " + shortFn(fn) + " at " + p.instrPos(al)
					continue
				}
				if old, ok := codes[tn]; ok && old != code {
					problems[tn] = fmt.Sprintf("created with the type codes %d and %d", old, code)
				}
				codes[tn] = code
			}
		}
	}
	used := map[int64]string{}
	for _, tn := range sortedKeys(codes) {
		if o, ok := used[codes[tn]]; ok {
			problems[tn] = "shares its type code with " + o
		}
		used[codes[tn]] = tn
	}
	return
}

// chain walks a list of siblings and says what is wrong with its links.
func (s *hState) chain(first hv, parent hv) ([]hv, string) {
	var items []hv
	prev := hv{k: hNil}
	cur := first
	for i := 0; i < 50; i++ {
		switch cur.k {
		case hNil:
			return items, ""
		case hRef:
			ob := s.objs[cur.o]
			get := func(k string) hv {
				v, ok := ob.fields[k]
				if !ok {
					if ob.fresh {
						return hv{k: hNil}
					}
					return hv{k: hUnk}
				}
				return s.resolve(v)
			}
			if p := get(fPrev); !hSame(p, prev) {
				return items, "the previous sibling of " + s.who(cur) + " is not the node before it but " + s.who(p)
			}
			if p := get(fParent); !hSame(p, parent) {
				return items, "the parent of " + s.who(cur) + " is not the node whose child it is but " + s.who(p)
			}
			items = append(items, cur)
			prev, cur = cur, get(fNext)
		case hSeg:
			g := s.segs[cur.o]
			if g == nil {
				return items, "a list that is lost"
			}
			if !hSame(g.left, prev) {
				return items, "the previous sibling of a node in the middle is wrong"
			}
			if !hSame(g.parent, parent) {
				return items, "the parent of a node in the middle is not the node whose child it is but " + s.who(g.parent)
			}
			items = append(items, cur)
			prev, cur = cur, g.right
		default:
			return items, "the list of siblings ends in something unknown"
		}
	}
	return items, "the list of siblings runs in a circle"
}

func (s *hState) who(v hv) string {
	switch v.k {
	case hNil:
		return "nil"
	case hRef:
		if o := s.objs[v.o]; o != nil {
			return o.name
		}
	case hSeg:
		return "one in the middle"
	}
	return "something unknown"
}

// norm drops materialised nodes and segments: the named nodes of a list.
func (s *hState) namedOnly(items []hv) string {
	var r []string
	for _, it := range items {
		if it.k == hRef && (s.objs[it.o].named || s.objs[it.o].fresh) {
			r = append(r, s.objs[it.o].name)
		} else if n := len(r); n == 0 || r[n-1] != "…" {
			r = append(r, "…")
		}
	}
	return strings.Join(r, " ")
}

// sameList: want is a list of names with "…" for any number of nodes.
func (s *hState) sameList(items []hv, want ...string) bool {
	var got []string
	for _, it := range items {
		if it.k == hRef && (s.objs[it.o].named || s.objs[it.o].fresh) {
			got = append(got, s.objs[it.o].name)
		} else {
			got = append(got, "…")
		}
	}
	i := 0
	for _, w := range want {
		if w == "…" {
			for i < len(got) && got[i] == "…" {
				i++
			}
			continue
		}
		if i >= len(got) || got[i] != w {
			return false
		}
		i++
	}
	return i == len(got)
}

func (s *hState) field(o int, k string) hv {
	ob := s.objs[o]
	if v, ok := ob.fields[k]; ok {
		return s.resolve(v)
	}
	if ob.fresh {
		return hv{k: hNil}
	}
	return hv{k: hUnk}
}

// children checks the list of children of a node.
func (s *hState) children(o int, want ...string) string {
	first, last := s.field(o, fFirst), s.field(o, fLast)
	items, m := s.chain(first, hR(o))
	if m != "" {
		return m
	}
	if !s.sameList(items, want...) {
		return "the children are " + orNone(s.namedOnly(items)) + " instead of " + orNone(strings.Join(want, " "))
	}
	if len(items) == 0 {
		if last.k != hNil {
			return "there is a last child without a first"
		}
	} else if !hSame(last, items[len(items)-1]) {
		return "the last child is " + s.who(last) + ", which is not the last of the list"
	}
	return ""
}

func orNone(s string) string {
	if s == "" {
		return "none"
	}
	return s
}

// isDetached: the node has no links to siblings and parents.
func (s *hState) isDetached(o int) bool {
	for _, k := range []string{fNext, fPrev, fParent} {
		if s.field(o, k).k != hNil {
			return false
		}
	}
	return true
}

func isErr(res []hv) (bool, bool) {
	if len(res) == 0 {
		return false, true
	}
	switch v := res[len(res)-1]; v.k {
	case hNil:
		return false, true
	case hErr:
		return true, true
	}
	return false, false
}

// contentOf: the text a node holds itself.
func (h *hRun) contentOf(s *hState, o int) string {
	v, ok := s.objs[o].fields["node.content"]
	if !ok {
		v = s.initial(s.objs[o].name+".node.content", types.NewSlice(types.Typ[types.Byte]))
	}
	p, ok := h.text(s, v)
	if !ok {
		return "?"
	}
	return strings.Join(p, "+")
}

func checkD01(p *Program, r *Report) {
	nodes := p.nodeTypes()
	codes, problems, sites := p.nodeCodes()
	r.stats["node constructions"] = sites
	for _, t := range nodes {
		tn := typeName(t)
		if m, bad := problems[tn]; bad {
			r.fail("kinds", tn, "", m)
		} else if _, ok := codes[tn]; ok {
			r.ok("kinds", tn, "", fmt.Sprintf("always created with type code %d", codes[tn]))
		}
	}
	r.min("kinds", 10)
	total := 0
	contr := map[*ssa.Function]bool{}
	run := func(rule, key string, fn *ssa.Function, each func(h *hRun)) {
		h := newHRun(p)
		h.etypes = codes
		each(h)
		for f := range h.contr {
			contr[f] = true
		}
		total += h.ends
		pos := p.pos(fn.Pos())
		r.fn(shortFn(fn))
		if h.verdict(r, rule, key, pos) {
			return
		}
		r.ok(rule, key, pos, fmt.Sprintf("%d outcomes", h.ends))
	}
	textual := func(t types.Type) bool { n := typeName(t); return n == "Text" || n == "Comment" }
	lists := [][]int{{}, {1}, {1, 2}, {1, 0, 2}}
	names := func(l []int) []string {
		var r []string
		for _, i := range l {
			r = append(r, []string{"…", "a", "b"}[i])
		}
		return r
	}
	build := func(s *hState, parent hv, l []int) map[int]int {
		ids := map[int]int{}
		var c []int
		for _, i := range l {
			if i == 0 {
				c = append(c, 0)
				continue
			}
			ids[i] = s.obj([]string{"", "a", "b"}[i], nil)
			c = append(c, ids[i])
		}
		s.list(parent, fFirst, fLast, c...)
		return ids
	}
	for _, t := range nodes {
		t := t
		tn := typeName(t)
		if fn := p.methodOf(t, "AddChild"); fn != nil {
			run("add child", tn, fn, func(h *hRun) {
				for _, l := range lists {
					s := newHState()
					n := s.obj("n", t)
					cur := s.obj("cur", nil)
					s.detached(cur)
					ids := build(s, hR(n), l)
					before := s.clone()
					var lastID int
					if len(l) > 0 {
						lastID = ids[l[len(l)-1]]
					}
					nm := names(l)
					h.done = func(s *hState, res []hv, in ssa.Instruction) string {
						failed, ok := isErr(res)
						if !ok {
							return "undecided: whether an error is returned"
						}
						merged := s.isDetached(cur)
						if failed {
							if m := s.children(n, nm...); m != "" {
								return "after an error: " + m
							}
							if !merged {
								return "an error is returned, but the node was linked"
							}
							last := types.Type(nil)
							if lastID != 0 {
								last = s.objs[lastID].typ
							}
							if textual(t) && typeName2(s.objs[cur].typ) != tn || typeName2(last) == "Document" {
								return ""
							}
							return "a node is refused: " + typeName2(s.objs[cur].typ) + " as a child of " + tn
						}
						if !merged {
							return s.children(n, append(append([]string(nil), nm...), "cur")...)
						}
						// its text was taken over by another text
						if m := s.children(n, nm...); m != "" {
							return m
						}
						into := 0
						ct := typeName2(s.objs[cur].typ)
						if textual(t) {
							into = n
							if ct != tn {
								return "the node is lost"
							}
						} else {
							if lastID == 0 || ct != "Text" || typeName2(s.objs[lastID].typ) != "Text" {
								return "the node is lost"
							}
							into = lastID
						}
						want := h.contentOf(before, into) + "+" + h.contentOf(before, cur)
						if got := h.contentOf(s, into); got != want {
							return "the text is not the old one followed by the new one but " + got
						}
						return ""
					}
					h.start(s, fn, hR(n), hR(cur))
				}
			})
		}
		if fn := p.methodOf(t, "AddSibling"); fn != nil && tn != "Document" {
			run("add sibling", tn, fn, func(h *hRun) {
				for _, withParent := range []bool{true, false} {
					for _, l := range [][]int{{3}, {1, 3}, {3, 1}, {1, 0, 3}, {3, 0, 1}, {1, 0, 3, 0, 2}} {
						s := newHState()
						par := hv{k: hNil}
						pa := 0
						if withParent {
							pa = s.obj("parent", nil)
							par = hR(pa)
						}
						n := s.obj("n", t)
						cur := s.obj("cur", nil)
						s.detached(cur)
						var c []int
						var nm []string
						for _, i := range l {
							switch i {
							case 0:
								c = append(c, 0)
								nm = append(nm, "…")
							case 3:
								c = append(c, n)
								nm = append(nm, "n")
							default:
								o := s.obj([]string{"", "a", "b"}[i], nil)
								c = append(c, o)
								nm = append(nm, s.objs[o].name)
							}
						}
						s.list(par, fFirst, fLast, c...)
						first := hR(c[0])
						before := s.clone()
						h.done = func(s *hState, res []hv, in ssa.Instruction) string {
							failed, ok := isErr(res)
							if !ok {
								return "undecided: whether an error is returned"
							}
							if failed {
								return "a node is refused: " + typeName2(s.objs[cur].typ) + " after " + tn
							}
							want := append(append([]string(nil), nm...), "cur")
							if s.isDetached(cur) {
								if tn != "Text" || typeName2(s.objs[cur].typ) != "Text" {
									return "the node is lost"
								}
								if got, w := h.contentOf(s, n), h.contentOf(before, n)+"+"+h.contentOf(before, cur); got != w {
									return "the text is not the old one followed by the new one but " + got
								}
								want = nm
							}
							if pa != 0 {
								return s.children(pa, want...)
							}
							items, m := s.chain(first, par)
							if m == "" && !s.sameList(items, want...) {
								m = "the siblings are " + s.namedOnly(items) + " instead of " + strings.Join(want, " ")
							}
							return m
						}
						h.start(s, fn, hR(n), hR(cur))
					}
				}
			})
		}
		if fn := p.methodOf(t, "Replace"); fn != nil && tn != "Document" {
			run("replace", tn, fn, func(h *hRun) {
				for _, withParent := range []bool{true, false} {
					for _, l := range [][]int{{3}, {1, 3}, {3, 1}, {1, 3, 2}, {1, 0, 3}, {3, 0, 1}, {1, 0, 3, 0, 2}} {
						s := newHState()
						par := hv{k: hNil}
						pa := 0
						if withParent {
							pa = s.obj("parent", nil)
							par = hR(pa)
						}
						n := s.obj("n", t)
						cur := s.obj("cur", nil)
						s.detached(cur)
						var c []int
						var nm []string
						for _, i := range l {
							switch i {
							case 0:
								c = append(c, 0)
								nm = append(nm, "…")
							case 3:
								c = append(c, n)
								nm = append(nm, "cur")
							default:
								o := s.obj([]string{"", "a", "b"}[i], nil)
								c = append(c, o)
								nm = append(nm, s.objs[o].name)
							}
						}
						s.list(par, fFirst, fLast, c...)
						first := hR(c[0])
						if c[0] == n {
							first = hR(cur)
						}
						h.done = func(s *hState, res []hv, in ssa.Instruction) string {
							if !s.isDetached(n) {
								return "the replaced node keeps links to its former neighbours"
							}
							if pa != 0 {
								return s.children(pa, nm...)
							}
							items, m := s.chain(first, par)
							if m == "" && !s.sameList(items, nm...) {
								m = "the siblings are " + s.namedOnly(items) + " instead of " + strings.Join(nm, " ")
							}
							return m
						}
						h.start(s, fn, hR(n), hR(cur))
					}
				}
				// by itself
				for _, l := range [][]int{{3}, {1, 3, 2}} {
					c := &scene{p, newHState()}
					pa := c.node("parent", "")
					n := c.node("n", tn)
					ids := []int{n}
					nm := []string{"n"}
					if len(l) == 3 {
						ids = []int{c.node("a", ""), n, c.node("b", "")}
						nm = []string{"a", "n", "b"}
					}
					c.s.list(hR(pa), fFirst, fLast, ids...)
					h.done = func(s *hState, res []hv, in ssa.Instruction) string {
						if m := s.children(pa, nm...); m != "" {
							return "replaced by itself: " + m
						}
						return ""
					}
					h.start(c.s, fn, hR(n), hR(n))
				}
			})
		}
	}
	checkTreeOps(p, run)
	checkLists(p, contr, run)
	r.min("list of nodes", 1)
	r.min("set root", 1)
	r.min("set attribute", 1)
	r.min("create internal subset", 1)
	r.min("add child", 10)
	r.min("add sibling", 9)
	r.min("replace", 9)
	r.stats["outcomes examined"] = total
}

// verdict reports what is wrong; what is only not understood is undecided.
func (h *hRun) verdict(r *Report, rule, key, pos string) bool {
	var bad, und []string
	for m, at := range h.errs {
		if strings.HasPrefix(m, "undecided") || strings.Contains(m, "unknown") || strings.Contains(m, "?") {
			und = append(und, at+": "+m)
		} else {
			bad = append(bad, at+": "+m)
		}
	}
	if len(bad)+len(und) == 0 && h.ends == 0 {
		und = append(und, "undecided: no outcome was found")
	}
	sort.Strings(bad)
	sort.Strings(und)
	switch {
	case len(bad) > 0:
		r.fail(rule, key, pos, strings.Join(bad[:min(3, len(bad))], "; "))
	case len(und) > 0:
		r.undecided(rule, key, pos, strings.Join(und[:min(3, len(und))], "; "))
	default:
		return false
	}
	return true
}
