package main

import (
	"sort"
	"strconv"
	"strings"
)

func init() {
	rule := "abstract interpretation of the function on texts of every length (the text is a sequence of characters and runs drawn from sets, states are joined at loop headers, every split by a comparison is followed): whatever is written must be, in order and without omission or repetition, "
	register("S01", "proof", rule+"either a copy of characters that may stand for themselves in that place, or a reference that denotes exactly the character replaced; characters XML does not allow are replaced by U+FFFD",
		checkS01, "writes succeed (a failing destination is property S03)")
	register("S04", "proof", rule+"a quoted literal: an opening quote, the text in which the quote itself is replaced by a reference to it, the same quote",
		checkS04, "writes succeed (a failing destination is property S03)")
}

var xmlChars = interval(0x20, 0xd7ff).Union(interval(0xe000, 0xfffd)).Union(interval(0x10000, 0x10ffff)).Union(charSet("\t\n\r"))

// refChar is the character a reference stands for.
func refChar(c string) (int64, bool) {
	if !strings.HasPrefix(c, "&") || !strings.HasSuffix(c, ";") {
		return 0, false
	}
	b := c[1 : len(c)-1]
	switch b {
	case "lt":
		return '<', true
	case "gt":
		return '>', true
	case "amp":
		return '&', true
	case "quot":
		return '"', true
	case "apos":
		return '\'', true
	}
	if strings.HasPrefix(b, "#x") {
		n, err := strconv.ParseInt(b[2:], 16, 32)
		return n, err == nil
	}
	if strings.HasPrefix(b, "#") {
		n, err := strconv.ParseInt(b[1:], 10, 32)
		return n, err == nil
	}
	return 0, false
}

// replace judges constant text that stands for the next character.
func replace(s *xState, c string, illegal bool) string {
	for c != "" {
		one := c
		if i := strings.IndexByte(c, ';'); c[0] == '&' && i > 0 {
			one = c[:i+1]
		} else {
			for i := range c {
				if i > 0 {
					one = c[:i]
					break
				}
			}
		}
		c = c[len(one):]
		sg, ok := s.seg(s.pos)
		if !ok || sg.run {
			return "text is added that stands for no character: " + strconv.Quote(one)
		}
		cls := sg.cls
		if n, ok := refChar(one); ok {
			if v, single := cls.IsSingle(); !single || v != n {
				return strconv.Quote(one) + " is written for " + chars(cls.Minus(single1(n)))
			}
		} else if one == "\uFFFD" && illegal {
			bad := xmlChars.Minus(single(0xfffd))
			if !cls.Inter(bad).Empty() {
				return "U+FFFD is written for " + chars(cls.Inter(bad))
			}
		} else if v, single := cls.IsSingle(); single && string(rune(v)) == one {
			if !xmlChars.Has(v) {
				return "copied although it must not be: " + chars(cls)
			}
			// the character itself: judged like a copy by the caller
			return "the character itself is written: " + strconv.Quote(one)
		} else {
			return strconv.Quote(one) + " is written for " + chars(cls)
		}
		s.pos = s.markAfter(s.pos)
	}
	return ""
}

func single1(n int64) *Set { return single(n) }

type escSpec struct{ keep *Set }

func (e *escSpec) constant(s *xState, c string) string {
	if sg, ok := s.seg(s.pos); ok && !sg.run {
		if v, one := sg.cls.IsSingle(); one && c == string(rune(v)) && e.keep.Has(v) {
			s.pos = s.markAfter(s.pos)
			return ""
		}
	}
	return replace(s, c, true)
}
func (e *escSpec) raw(s *xState) *Set { return e.keep }
func (e *escSpec) number(s *xState, sg xSeg) string {
	if sg.byt {
		return "a byte is written as if it were a character"
	}
	if !sg.cls.SubsetOf(xmlChars) {
		return "a reference to a character XML does not allow: " + chars(sg.cls.Minus(xmlChars))
	}
	return ""
}
func (e *escSpec) finish(s *xState) string {
	if s.same(s.pos, xEnd) || s.at(s.pos) == s.at(xEnd) {
		return ""
	}
	return "the end of the text may be left out"
}

// quoteSpec: a quoted literal.
type quoteSpec struct{ never *Set } // characters that must always be replaced

func (q *quoteSpec) constant(s *xState, c string) string {
	for c != "" {
		switch s.phase {
		case 0:
			if c[0] != '"' && c[0] != '\'' {
				return "a literal opened with " + strconv.Quote(c)
			}
			s.delim, s.phase = c[:1], 1
			c = c[1:]
		case 1:
			if c[:1] == s.delim {
				if s.at(s.pos) != s.at(xEnd) {
					return "the literal is closed before the end of the text"
				}
				s.phase = 2
				c = c[1:]
				continue
			}
			one := c
			if i := strings.IndexByte(c, ';'); c[0] == '&' && i > 0 {
				one = c[:i+1]
			} else if i := strings.LastIndexByte(c, s.delim[0]); i > 0 {
				one = c[:i]
			}
			if sg, ok := s.seg(s.pos); ok && !sg.run {
				if v, is := sg.cls.IsSingle(); is && one == string(rune(v)) && q.raw(s).Has(v) {
					s.pos = s.markAfter(s.pos)
					c = c[len(one):]
					continue
				}
			}
			if m := replace(s, one, false); m != "" {
				return m
			}
			c = c[len(one):]
		default:
			return strconv.Quote(c) + " is written after the closing quote"
		}
	}
	return ""
}

func (q *quoteSpec) raw(s *xState) *Set {
	if s.phase != 1 {
		return emptySet
	}
	return xAll.Minus(charSet(s.delim)).Minus(q.never)
}
func (q *quoteSpec) number(s *xState, sg xSeg) string { return "" }
func (q *quoteSpec) finish(s *xState) string {
	if s.phase != 2 {
		return "the literal is not closed"
	}
	return ""
}

// defaultSpec: the default value of an attribute, in which references are left
// alone and everything else is escaped as in an attribute.
type defaultSpec struct{ quoteSpec }

func (q *defaultSpec) constant(s *xState, c string) string {
	if s.phase == 1 {
		if sg, ok := s.seg(s.pos); ok && !sg.run && c[0] == '&' && c != "&" && sg.cls.Has('&') {
			return "an ampersand of the declaration is escaped again"
		}
		if strings.HasPrefix(c, "\uFFFD") {
			return replace(s, c, true)
		}
	}
	return q.quoteSpec.constant(s, c)
}

func (q *defaultSpec) raw(s *xState) *Set {
	if s.phase != 1 {
		return emptySet
	}
	return xmlChars.Minus(charSet("<\r\n\t" + s.delim))
}

func (p *Program) runSpec(r *Report, rule, name, key string, spec xSpec, flag *bool) {
	fn := p.fn("", name)
	if fn == nil {
		r.fail("anchor", name, "?", "function not found")
		return
	}
	x := newXRun(p, spec)
	var args []xv
	for _, pa := range fn.Params {
		switch {
		case pa.Type().String() == "bool" && flag != nil:
			args = append(args, xBool(*flag))
		case isSliceOrString(pa.Type()):
			args = append(args, xIn(1, xEnd))
		default:
			args = append(args, xv{k: xkWriter})
		}
	}
	x.start(fn, args)
	for f := range x.fns {
		r.fn(shortFn(f))
	}
	pos := p.pos(fn.Pos())
	if len(x.errs) == 0 && len(x.undec) == 0 {
		r.ok(rule, key, pos, itoa(x.paths)+" ends, "+itoa(x.emits)+" writes, "+itoa(len(x.seen))+" joined states")
		if x.paths == 0 || x.emits == 0 {
			r.fail(rule, key, pos, "nothing is ever written")
		}
	}
	for i, l := range []map[string]string{x.errs, x.undec} {
		var ms []string
		for m := range l {
			ms = append(ms, m)
		}
		sort.Strings(ms)
		for _, m := range ms {
			if i == 0 {
				r.fail(rule, key, l[m], m)
			} else {
				r.undecided(rule, key, l[m], m)
			}
		}
		if len(ms) > 0 {
			break
		}
	}
	r.stats["paths"] += x.paths
	r.stats["states"] += len(x.seen)
}

func checkS01(p *Program, r *Report) {
	text := xmlChars.Minus(charSet("&<>\r"))
	no, yes := false, true
	p.runSpec(r, "escapes", "escapeText", "escapeText", &escSpec{text}, &no)
	p.runSpec(r, "escapes", "escapeText", "escapeText (newlines too)", &escSpec{text.Minus(charSet("\n"))}, &yes)
	attr := xmlChars.Minus(charSet("&<\"\r\n\t"))
	p.runSpec(r, "escapes", "escapeAttrValue", "escapeAttrValue", &escSpec{attr}, nil)
	r.min("escapes", 3)
}

func checkS04(p *Program, r *Report) {
	p.runSpec(r, "quotes", "dumpQuotedString", "dumpQuotedString", &quoteSpec{emptySet}, nil)
	p.runSpec(r, "quotes", "dumpEntityContent", "dumpEntityContent", &quoteSpec{charSet("%")}, nil)
	p.runSpec(r, "quotes", "dumpAttrDefault", "dumpAttrDefault", &defaultSpec{quoteSpec{emptySet}}, nil)
	r.min("quotes", 3)
}
