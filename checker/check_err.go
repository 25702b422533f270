package main

import (
	"fmt"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C05", "proof",
		"path-sensitive abstract interpretation of everything reachable from the parse entry point: after any handler call that returned an error of its own, no path may reach another handler call, and no path may leave the parser without an error",
		checkC05)
}

// site is the stable name of a handler call: function and event.
func siteKey(fr *Frame, what string) string { return shortFn(fr.fn) + " " + what }

type c05Client struct {
	baseClient
	h hits
	a *Analysis
}

func (c *c05Client) Reset() { c.h.reset() }
func (c *c05Client) Event(fr *Frame, st *State, m string, args []AVal, in ssa.CallInstruction) {
	k := siteKey(fr, m)
	pos := fr.a.p.instrPos(in)
	c.h.ok("handler-call", k, pos)
	if id := st.ghost[gSax]; id != 0 {
		c.h.fail("no-event-after-error", fmt.Sprintf("%s then %s", fr.a.evNames[id], k), pos,
			"this handler call is reached although the handler called by "+fr.a.evNames[id]+" returned an error ("+fr.chain()+")")
	}
	st.ghost[gAux2] = fr.a.evID(k)
}
func (c *c05Client) AfterEvent(fr *Frame, st *State, m string, class int) {
	if class == 2 && !saxLookup[m] {
		st.ghost[gSax] = st.ghost[gAux2]
	}
	st.ghost[gAux2] = 0
}
func (c *c05Client) Return(fr *Frame, st *State, in *ssa.Return, res []AVal) {
	if fr.parent != nil || st.ghost[gSax] == 0 {
		return
	}
	site := fr.a.evNames[st.ghost[gSax]]
	errv := res[len(res)-1]
	set := st.setOf(errv, in.Results[len(res)-1].Type())
	if errv.k == kNil || set.Has(0) {
		c.h.fail("error-reported", site, fr.a.p.instrPos(in), "the parse can return no error although the handler called by "+site+" returned one")
	} else {
		c.h.ok("error-reported", site, fr.a.p.instrPos(in))
	}
}

func checkC05(p *Program, r *Report) {
	c := &c05Client{}
	parseRoot(p, r, c, func(a *Analysis) { c.a = a })
	c.h.flush(r)
	r.min("handler-call", 10)
	r.min("error-reported", 10)
}

func init() {
	register("C06", "proof",
		"path-sensitive abstract interpretation with a differential rule: for every handler call, what the parser does next (next handler call, next parser routine, error created, return) after the handler declined the event must be what it does after the handler accepted it; and no path leaves the parser with the 'unspecified' sentinel or an error made from it",
		checkC06)
	register("C07", "proof",
		"path-sensitive abstract interpretation: on every path on which a parsing routine returned an error, every caller up to the parse entry point returns an error too, except for the listed look-ahead fallbacks",
		checkC07)
}

// errIndex finds the error among the results, or -1.
func errIndex(fn *ssa.Function) int {
	rs := fn.Signature.Results()
	for i := rs.Len() - 1; i >= 0; i-- {
		if isErrorType(rs.At(i).Type()) {
			return i
		}
	}
	return -1
}

// errClass: 0 nil, 1 non-nil, -1 undecided.
func errClass(st *State, v AVal) int {
	switch v.k {
	case kNil:
		return 0
	case kInt:
		if v.off == 0 {
			return 0
		}
		return 1
	case kCell:
		c := st.cells[v.id]
		if c == nil {
			return -1
		}
		if c.set == single(0) {
			return 0
		}
		if !c.set.Has(0) {
			return 1
		}
		return -1
	case kObj:
		return 1
	}
	return -1
}

func errTags(st *State, v AVal) uint32 {
	if v.k == kCell && st.cells[v.id] != nil {
		return st.cells[v.id].tags
	}
	if v.k == kObj && st.objs[v.id] != nil {
		var t uint32
		for _, f := range st.objs[v.id].fields {
			if f.k == kCell && st.cells[f.id] != nil {
				t |= st.cells[f.id].tags
			}
		}
		return t
	}
	return 0
}

// isSentinel reports whether the value can only be the given sentinel.
func isSentinel(st *State, v AVal, class int64) bool {
	if v.k == kInt {
		return v.off == class
	}
	if v.k == kCell && st.cells[v.id] != nil {
		return st.cells[v.id].set == single(class)
	}
	return false
}

type c06Client struct {
	baseClient
	h    hits
	next map[string][2]map[string]string // site -> class -> action -> position
	pos  map[string]string
}

func (c *c06Client) Reset() {
	c.h.reset()
	c.next = map[string][2]map[string]string{}
	c.pos = map[string]string{}
}
func (c *c06Client) record(fr *Frame, st *State, action, pos string) {
	g := st.ghost[gUnspec]
	if g == 0 {
		return
	}
	site := fr.a.evNames[g>>1]
	e, ok := c.next[site]
	if !ok {
		e = [2]map[string]string{{}, {}}
		c.next[site] = e
	}
	if _, ok := e[g&1][action]; !ok {
		e[g&1][action] = pos
	}
}
func (c *c06Client) Event(fr *Frame, st *State, m string, args []AVal, in ssa.CallInstruction) {
	k := siteKey(fr, m)
	c.pos[k] = fr.a.p.instrPos(in)
	c.record(fr, st, "event "+m+" in "+shortFn(fr.fn), fr.a.p.instrPos(in))
	st.ghost[gAux2] = fr.a.evID(k)
	st.ghost[gUnspec] = 0
}
func (c *c06Client) AfterEvent(fr *Frame, st *State, m string, class int) {
	st.ghost[gUnspec] = 0
	if class < 2 && !saxLookup[m] {
		st.ghost[gUnspec] = st.ghost[gAux2]<<1 | int16(class)
	}
	st.ghost[gAux2] = 0
}
func (c *c06Client) BeforeCall(fr *Frame, st *State, in ssa.CallInstruction, fn *ssa.Function) {
	if st.ghost[gUnspec] != 0 {
		c.record(fr, st, "call "+shortFn(fn)+" in "+shortFn(fr.fn), fr.a.p.instrPos(in))
		st.ghost[gUnspec] = 0
	}
}
func (c *c06Client) Return(fr *Frame, st *State, in *ssa.Return, res []AVal) {
	ei := errIndex(fr.fn)
	u := fr.a.unspecClass()
	if ei >= 0 && ei < len(res) {
		v := res[ei]
		if !isSentinel(st, v, u) || errTags(st, v)&tagUnspec == 0 {
			if errTags(st, v)&tagUnspec != 0 && errClass(st, v) != 0 {
				c.h.fail("declined-is-not-an-error", shortFn(fr.fn)+" wraps", fr.a.p.instrPos(in), "an error made from the 'handler unspecified' answer is returned")
			}
			if st.ghost[gUnspec] != 0 && errClass(st, v) == 1 {
				c.record(fr, st, "error return in "+shortFn(fr.fn), fr.a.p.instrPos(in))
				st.ghost[gUnspec] = 0
			}
		} else if fr.parent == nil {
			c.h.fail("declined-is-not-an-error", "parse result", fr.a.p.instrPos(in), "the parse returns the 'handler unspecified' sentinel")
		}
	}
	if fr.parent == nil {
		cl := "ok"
		if ei >= 0 && ei < len(res) && errClass(st, res[ei]) != 0 {
			cl = "error"
		}
		c.record(fr, st, "end of parse: "+cl, fr.a.p.instrPos(in))
	}
}

func checkC06(p *Program, r *Report) {
	c := &c06Client{}
	if a, _ := parseRoot(p, r, c, nil); a == nil {
		return
	}
	c.h.flush(r)
	for _, site := range sortedKeys(c.next) {
		e := c.next[site]
		why := ""
		pos := c.pos[site]
		for _, k := range sortedKeys(e[1]) {
			if _, ok := e[0][k]; !ok {
				why = fmt.Sprintf("after the handler declined the event the parser goes on with %q (%s), which it never does after the handler accepted it", k, e[1][k])
			}
		}
		for _, k := range sortedKeys(e[0]) {
			if _, ok := e[1][k]; !ok {
				why = fmt.Sprintf("after the handler declined the event the parser never goes on with %q (%s), as it does after the handler accepted it", k, e[0][k])
			}
		}
		r.add("declined-like-accepted", site, pos, why == "", why)
		r.stats["continuations"] += len(e[0]) + len(e[1])
	}
	r.ok("declined-is-not-an-error", "parse result", "", "")
	r.min("declined-like-accepted", 10)
}

type c07Client struct {
	baseClient
	h hits
}

func (c *c07Client) Reset() { c.h.reset() }
func (c *c07Client) AfterCall(fr *Frame, st *State, in ssa.CallInstruction, f *ssa.Function, res []AVal) {
	ei := errIndex(f)
	if ei < 0 || ei >= len(res) {
		return
	}
	if errClass(st, res[ei]) != 1 {
		return
	}
	k := shortFn(f) + " in " + shortFn(fr.fn)
	pos := fr.a.p.instrPos(in)
	if ft := fr.a.lastFoot; ft != nil && (ft.cursor || ft.all) {
		c.h.ok("failing-call", k, pos)
		if fr.a.lastProg == 0 {
			// a look-ahead failure: nothing was consumed, so the input is
			// still there for whatever the caller tries next
			return
		}
	} else if !takesText(f) {
		return
	}
	if isSentinelNamed(fr.a, st, res[ei], "ErrParseSucceeded") {
		return
	}
	c.h.ok("failing-call", k, pos)
	st.ghost[gOut] = fr.a.evID(k)
}
func (c *c07Client) Return(fr *Frame, st *State, in *ssa.Return, res []AVal) {
	g := st.ghost[gOut]
	if g == 0 {
		return
	}
	ei := errIndex(fr.fn)
	if ei >= 0 && ei < len(res) && errClass(st, res[ei]) == 1 {
		return
	}
	c.h.fail("error-passed-on", fr.a.evNames[g], fr.a.p.instrPos(in), "the error of this call is dropped: "+shortFn(fr.fn)+" can return without an error afterwards ("+fr.chain()+")")
}

func checkC07(p *Program, r *Report) {
	c := &c07Client{}
	parseRoot(p, r, c, nil)
	c.h.flush(r)
	r.min("failing-call", 40)
}

// takesText: works on a piece of document text instead of the input cursor.
func takesText(f *ssa.Function) bool {
	for _, p := range f.Params {
		if s, ok := p.Type().Underlying().(*types.Slice); ok {
			if b, ok := s.Elem().Underlying().(*types.Basic); ok && b.Kind() == types.Uint8 {
				return true
			}
		}
	}
	return false
}

func isSentinelNamed(a *Analysis, st *State, v AVal, name string) bool {
	var c int64
	switch v.k {
	case kInt:
		c = v.off
	case kCell:
		if cc := st.cells[v.id]; cc != nil {
			if x, ok := cc.set.IsSingle(); ok {
				c = x
			}
		}
	}
	return c >= 2 && a.sentName[c] == name
}
