package main

import (
	"unicode"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C12", "proof",
		"path-sensitive abstract interpretation with sets of characters: every character the parser consumes on any path is a legal XML character, every character consumed as part of a name belongs to the name classes, every character it computes (character references) and adds to a text is a legal XML character",
		checkC12,
		"the input cursor reports U+FFFD at the end of the input and returns Unicode scalar values only",
		"text matched against a string the parser already holds (end tag name, entity replacement text) is legal because that string was")
}

type c12Client struct {
	baseClient
	h hits
}

func (c *c12Client) Reset() { c.h.reset() }

func setString(s *Set) string {
	str := s.String()
	if len(str) > 200 {
		str = str[:200] + "..."
	}
	return str
}

var nameRest = func() *Set {
	s := emptySet
	for _, r := range ".-_:" {
		s = s.Union(single(int64(r)))
	}
	for _, t := range []*unicode.RangeTable{unicode.L, unicode.Nd, unicode.M, unicode.Nl, unicode.Extender} {
		s = s.Union(tableSet(t))
	}
	return s.Union(single(0xB7))
}()

// nameParser holds for the routines that consume exactly one name.
func nameParser(fn *ssa.Function) bool {
	switch fn.Name() {
	case "parseName", "parseNCName", "parseNmtoken", "parseEncodingName":
		return true
	}
	return false
}

func (c *c12Client) Consumed(fr *Frame, st *State, in ssa.CallInstruction, chars *Set) {
	k := shortFn(fr.fn)
	pos := fr.a.p.instrPos(in)
	c.h.ok("consumed-legal", k, pos)
	if chars == nil {
		return
	}
	if cc := in.Common(); cc.IsInvoke() == false && len(cc.Args) > 0 {
		if f := cc.StaticCallee(); f != nil && f.Name() == "Consume" && typeIs(cc.Args[0].Type(), "strcursor", "ByteCursor") {
			return // byte order marks and encoding patterns are bytes, not characters
		}
	}
	if bad := chars.Minus(xmlChar); !bad.Empty() {
		c.h.fail("consumed-legal", k, pos, "may consume characters that are not legal in XML: "+setString(bad))
	}
	if nameParser(fr.fn) {
		c.h.ok("name-class", k, pos)
		if bad := chars.Minus(nameRest); !bad.Empty() {
			c.h.fail("name-class", k, pos, "a name may contain characters that are not name characters: "+setString(bad))
		}
	}
}

func (c *c12Client) Advance(fr *Frame, st *State, in ssa.CallInstruction, ok bool, why string) {
	if !ok && (why == "unknown count" || why == "constant too large") {
		c.h.fail("consumed-legal", shortFn(fr.fn), fr.a.p.instrPos(in), "consumes characters it has not looked at: "+why)
	}
}

func (c *c12Client) Text(fr *Frame, st *State, in ssa.Instruction, chars *Set) {
	k := shortFn(fr.fn)
	pos := fr.a.p.instrPos(in)
	c.h.ok("text-legal", k, pos)
	if bad := chars.Minus(xmlChar).Minus(runeErr); !bad.Empty() {
		c.h.fail("text-legal", k, pos, "may add a character that is not legal in XML to a text: "+setString(bad))
	}
}

func checkC12(p *Program, r *Report) {
	c := &c12Client{}
	parseRoot(p, r, c, nil)
	c.h.flush(r)
	r.min("consumed-legal", 20)
	r.min("name-class", 2)
	r.min("text-legal", 1)
}
