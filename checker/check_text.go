package main

import (
	"fmt"
	"go/token"
	"sort"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C10", "proof",
		"relational abstract interpretation of every routine that takes text out of the input: positions are linear terms over loop and length symbols, texts are lists of pieces of the input; at every announcement and every return without error the text must be exactly the piece between the opening and the closing mark",
		checkC10,
		"the cursor gives the characters of the input in order (strcursor)",
		"routines that the analysed ones call to read a name or a reference are analysed by themselves",
		"attribute values are analysed without collapsing of white space (values of declared tokenized types are not covered)",
		"line ends: a carriage return followed by a newline is one newline in text, comments and CDATA sections")
}

type tItem struct {
	k byte // 'l' literal, 'b' optional blanks, 's' the routine whose result has the given id
	s string
}

// walk follows the items from p.
func (x *sRun) walk(s *sState, items []tItem, p sLin) (sLin, string) {
	for _, it := range items {
		switch it.k {
		case 'l':
			for _, r := range it.s {
				v, ok := s.fact(p).IsSingle()
				if !ok || v != int64(r) {
					return p, fmt.Sprintf("%q does not stand where the text ends or begins: %s may be there", it.s, s.fact(p))
				}
				p = p.plus(1)
			}
		case 'b':
			for _, sp := range s.spans {
				if sp.kind == "blanks" && sp.from == p {
					p = sp.to
					break
				}
			}
		case 's':
			ok := false
			for _, sp := range s.spans {
				if sp.id == it.s && sp.from == p {
					p = sp.to
					ok = true
				}
			}
			if !ok {
				return p, "what was read before the text is not what is announced"
			}
		}
	}
	return p, ""
}

// content: the text is what stands between pre and post; where post ends.
func (x *sRun) content(s *sState, v tval, pre, post []tItem, nl bool) (end sLin, msg string) {
	p, ok := s.asText(v)
	if !ok {
		return end, "?the text is not known"
	}
	p0, m := x.walk(s, pre, lc(0))
	if m != "" {
		return end, m
	}
	var l []tPart
	for _, e := range p {
		if e.k == 'i' && e.a == e.b || e.k == 'c' && e.s == "" {
			continue
		}
		l = append(l, e)
	}
	for _, e := range l {
		switch e.k {
		case 'm':
			return end, "the text is not what was read: " + e.s
		}
	}
	to := p0
	if len(l) > 0 {
		unk := false
		for _, e := range l {
			if e.k == 'v' {
				unk = true
			}
		}
		if len(l) > 1 || l[0].k != 'i' {
			if unk && !x.sp.att {
				return end, "?the text contains " + partsStr(l)
			}
			return end, "the text is " + partsStr(l) + " and not one piece of the input"
		}
		if l[0].a != p0 {
			return end, fmt.Sprintf("the text begins at %s, what has to be announced begins at %s", l[0].a, p0)
		}
		if nl && !l[0].nl {
			return end, "line ends are not normalised"
		}
		to = l[0].b
	}
	to, m = x.walk(s, post, to)
	return to, m
}

func lits(s string) []tItem {
	if s == "" {
		return nil
	}
	return []tItem{{k: 'l', s: s}}
}

// upTo: the construct has to end there.
func (s *sState) upTo(e sLin) { s.end = &e }

func (s *sState) spanOf(kind string, nth int) *tSpan {
	n := 0
	for i := range s.spans {
		if s.spans[i].kind == kind {
			if n == nth {
				return &s.spans[i]
			}
			n++
		}
	}
	return nil
}

func (v tval) isV(id string) bool {
	return v.k == tStr && len(v.p) == 1 && v.p[0].k == 'v' && v.p[0].s == id
}

var c10Calls = map[string]string{
	"skipBlanks": "blanks", "parseName": "name", "parseNCName": "name", "parseNmtoken": "name", "parsePITarget": "target", "parseQName": "name",
	"parseCharRef": "charref", "parseEntityRef": "ent", "decodeEntities": "none", "areBlanks": "none", "handlePEReference": "none",
}

func c10spans(but ...string) map[string]string {
	m := map[string]string{}
	for k, v := range c10Calls {
		m[k] = v
	}
	for _, b := range but {
		delete(m, b)
	}
	return m
}

func c10Name(x *sRun, s *sState, res []tval) string {
	e, m := x.content(s, res[0], nil, nil, false)
	if m == "" && e != s.pos {
		m = fmt.Sprintf("the name ends at %s, but %s is consumed", e, s.pos)
	}
	return m
}

func c10Text(name string, arg int, pre, post []tItem) func(x *sRun, s *sState, ev string, args []tval) string {
	return func(x *sRun, s *sState, ev string, args []tval) string {
		if len(args) <= arg {
			return ""
		}
		e, m := x.content(s, args[arg], pre, post, true)
		if m != "" {
			return m
		}
		s.upTo(e)
		return ""
	}
}

// c10Quoted: between two equal quotes.
func c10Quoted(x *sRun, s *sState, v tval) string {
	q, ok := s.fact(lc(0)).IsSingle()
	if !ok || q != '"' && q != '\'' {
		return "the value does not begin with a quote"
	}
	e, m := x.content(s, v, lits(string(rune(q))), lits(string(rune(q))), false)
	if m == "" && e != s.pos {
		m = fmt.Sprintf("the value ends at %s, but %s is consumed", e, s.pos)
	}
	return m
}

type c10Root struct {
	fn   string
	what string
	sp   sSpec
}

func c10Roots() []c10Root {
	var l []c10Root
	add := func(fn, what string, sp sSpec) { l = append(l, c10Root{fn, what, sp}) }
	for _, n := range []string{"parseName", "parseNCName", "parseNmtoken", "parsePITarget"} {
		but := []string{n}
		if n == "parsePITarget" {
			but = append(but, "parseName")
		}
		add(n, "the name is what was consumed", sSpec{spans: c10spans(but...), ret: c10Name, stays: n != "parsePITarget"})
	}
	add("parseQName", "prefix and local name are what stands before and after the colon", sSpec{spans: c10spans("parseQName"),
		ret: func(x *sRun, s *sState, res []tval) string {
			part := func(v tval, from sLin) (sLin, string) {
				if v.k != tStr {
					return from, "?the name is not known"
				}
				for _, sp := range s.spans {
					if sp.kind == "name" && sp.from == from {
						if v.isV(sp.id) {
							return sp.to, ""
						}
						return from, "the name is " + v.str() + " and not the one read there"
					}
				}
				return from, "?no name is read there"
			}
			at := lc(0)
			if t, ok := res[1].text(); !ok || t != "" {
				e, m := part(res[1], at)
				if m != "" {
					return "prefix: " + m
				}
				if at, m = x.walk(s, lits(":"), e); m != "" {
					return m
				}
			}
			e, m := part(res[0], at)
			if m != "" {
				return "local name: " + m
			}
			if e != s.pos {
				return fmt.Sprintf("the name ends at %s, but %s is consumed", e, s.pos)
			}
			return ""
		}})
	add("parseCharData", "character data", sSpec{args: map[int]tval{1: {k: tBool}}, spans: c10spans(), avoid1: charSet("<&"), event: c10Text("", 1, nil, nil)})
	add("parseCDSect", "CDATA section", sSpec{spans: c10spans(), avoid: "]]>", event: c10Text("", 1, lits("<![CDATA["), lits("]]>"))})
	add("parseComment", "comment", sSpec{spans: c10spans(), avoid: "-->", event: c10Text("", 1, lits("<!--"), lits("-->"))})
	add("parsePI", "processing instruction", sSpec{spans: c10spans(), avoid: "?>",
		event: func(x *sRun, s *sState, ev string, args []tval) string {
			if ev != "ProcessingInstruction" || len(args) < 3 {
				return ""
			}
			sp := s.spanOf("target", 0)
			if sp == nil {
				return "?the target is not read by the routine for targets"
			}
			if !args[1].isV(sp.id) {
				return "the target announced is not the one read"
			}
			e, m := x.content(s, args[2], []tItem{{'l', "<?"}, {'s', sp.id}, {'b', ""}}, lits("?>"), false)
			if m != "" {
				return m
			}
			s.upTo(e)
			return ""
		}})
	add("parseEntityValue", "entity value", sSpec{quoted: true, spans: c10spans(),
		ret: func(x *sRun, s *sState, res []tval) string {
			if m := c10Quoted(x, s, res[0]); m != "" {
				return m
			}
			p, _ := s.asText(res[0])
			if w := "decodeEntities(" + partsStr(p) + ")"; !res[1].isV(w) {
				if res[1].k != tStr || len(res[1].p) != 1 || res[1].p[0].k != 'v' {
					return "?the replacement text is not known"
				}
				return "the replacement text is not that of the literal: " + res[1].str()
			}
			return ""
		}})
	add("parseAttributeValue", "attribute value", sSpec{quoted: true, args: map[int]tval{1: {k: tBool}}, att: true, avoid1: charSet("<"), spans: c10spans(),
		ret: func(x *sRun, s *sState, res []tval) string { return c10Quoted(x, s, res[0]) }})
	add("parseCharRef", "character reference", sSpec{spans: c10spans("parseCharRef"),
		ret: func(x *sRun, s *sState, res []tval) string {
			v := res[0]
			if v.k == tAcc {
				return "a digit is not given its value"
			}
			if v.k != tNum {
				return "?the number is not known"
			}
			pre := "&#"
			if v.n == 16 {
				pre = "&#x"
			}
			p, m := x.walk(s, lits(pre), lc(0))
			if m != "" {
				return m
			}
			if v.l != p {
				return fmt.Sprintf("the number begins at %s, its first digit is at %s", v.l, p)
			}
			e, m := x.walk(s, lits(";"), v.l2)
			if m != "" {
				return m
			}
			if e != s.pos {
				return fmt.Sprintf("the reference ends at %s, but %s is consumed", e, s.pos)
			}
			return ""
		}})
	add("parseReference", "the character of a reference", sSpec{spans: c10spans(), stop: map[string]bool{"parseBalancedChunkInternal": true, "parseExternalEntityPrivate": true, "Reference": true},
		event: func(x *sRun, s *sState, ev string, args []tval) string {
			if ev != "Characters" || len(args) < 2 {
				return ""
			}
			p, ok := s.asText(args[1])
			if !ok {
				return "?the text is not known"
			}
			for _, sp := range s.spans {
				if sp.from != lc(0) {
					continue
				}
				if sp.kind == "charref" && len(p) == 1 && p[0].k == 'v' && p[0].s == sp.id {
					return ""
				}
				if sp.kind == "ent" && len(p) == 1 && p[0].k == 'v' && p[0].s == sp.id+".content" {
					return ""
				}
			}
			return "the text announced for a reference is " + partsStr(p)
		}})
	add("skipBlanks", "only blanks are skipped", sSpec{spans: c10spans("skipBlanks"), cover: xmlS,
		ret: func(x *sRun, s *sState, res []tval) string {
			for f := s.facts[s.cov]; f != nil && f.SubsetOf(xmlS); f = s.facts[s.cov] {
				s.cov = s.cov.plus(1)
			}
			if !s.cov.sub(s.pos).nonneg() {
				return fmt.Sprintf("%s is skipped, of which only %s is known to be blank", s.pos, s.cov)
			}
			return ""
		}})
	return l
}

func checkC10(p *Program, r *Report) {
	for _, rt := range c10Roots() {
		fn := p.method("", "parserCtx", rt.fn)
		if fn == nil {
			r.undecided("text-exact", rt.fn, "", "there is no routine of this name")
			continue
		}
		sp := rt.sp
		for i := range sp.args {
			if i >= len(fn.Params) || !isBoolType(fn.Params[i].Type()) {
				sp.args = nil
				break
			}
		}
		x := runScribe(p, &sp, fn)
		c10Report(p, r, rt, fn, x)
	}
	r.min("text-exact", 12)
}

func c10Report(p *Program, r *Report, rt c10Root, fn *ssa.Function, x *sRun) {
	r.fn(shortFn(fn))
	for f := range x.fns {
		r.fn(shortFn(f))
	}
	show := func(m map[string]token.Pos) (l []string) {
		for k := range m {
			l = append(l, k)
		}
		sort.Strings(l)
		return
	}
	key := rt.fn + ": " + rt.what
	switch {
	case len(x.bad) > 0:
		for _, m := range show(x.bad) {
			r.fail("text-exact", key, p.pos(x.bad[m]), m)
		}
		return
	case len(x.undec)+len(x.vag) > 0:
		for _, m := range show(x.undec) {
			r.undecided("text-exact", key, p.pos(x.undec[m]), m)
		}
		for _, m := range show(x.vag) {
			r.undecided("text-exact", key, p.pos(x.vag[m]), m+", after a condition that is not understood")
		}
		return
	case x.rets == 0 && x.events == 0:
		r.undecided("text-exact", key, p.pos(fn.Pos()), "nothing is announced and there is no return without an error")
		return
	case x.avA && x.avB && x.avV:
		r.undecided("text-exact", key, p.pos(x.avPos), "there is a condition on the content that is not understood")
		return
	case x.avA && x.avB:
		at := x.avPos
		if at == token.NoPos {
			at = fn.Pos()
		}
		r.fail("text-exact", key, p.pos(at), fmt.Sprintf("the content may go on past the first %q", rt.sp.avoid))
		return
	}
	r.ok("text-exact", key, p.pos(fn.Pos()), fmt.Sprintf("%d announcements and %d returns judged, %d loop states", x.events, x.rets, func() (n int) {
		for _, l := range x.heads {
			n += len(l)
		}
		return
	}()))
}
