package main

import (
	"fmt"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C08", "proof",
		"typestate over the handler calls, decided on every abstract path from the parse entry point: document start/end bracket, one root element, balanced elements, character data and references only inside an element, declarations only between the announcement of the DTD and the root element",
		checkC08)
}

type c08Client struct {
	baseClient
	h hits
}

func (c *c08Client) Reset() { c.h.reset() }

var c08Content = map[string]bool{"Characters": true, "CDataBlock": true, "IgnorableWhitespace": true, "Reference": true}
var c08Decl = map[string]bool{"ElementDecl": true, "AttributeDecl": true, "EntityDecl": true, "NotationDecl": true, "UnparsedEntityDecl": true}
var c08All = []string{"SetDocumentLocator", "StartDocument", "EndDocument", "StartElementNS", "EndElementNS", "Characters", "CDataBlock",
	"IgnorableWhitespace", "Reference", "Comment", "ProcessingInstruction", "InternalSubset", "ExternalSubset", "ElementDecl", "AttributeDecl", "EntityDecl"}

func (c *c08Client) Event(fr *Frame, st *State, m string, args []AVal, in ssa.CallInstruction) {
	if saxLookup[m] {
		return
	}
	k := siteKey(fr, m)
	pos := fr.a.p.instrPos(in)
	bad := func(f string, a ...interface{}) {
		c.h.fail("event-order", k, pos, fmt.Sprintf(f, a...)+" ("+fr.chain()+")")
	}
	c.h.ok("event-order", k, pos)
	c.h.ok("event-delivered", m, pos)
	if m == "SetDocumentLocator" || m == "Error" {
		return
	}
	g := &st.ghost
	inside := insideNow(st) == 1
	switch {
	case m == "StartDocument":
		if g[gDoc] != 0 {
			bad("the document is started twice")
		}
		g[gDoc] = 1
		return
	case g[gDoc] == 0:
		bad("%s is announced before the start of the document", m)
	case g[gDoc] == 2:
		bad("%s is announced after the end of the document", m)
	}
	switch {
	case m == "EndDocument":
		if inside {
			bad("the document ends inside an element")
		}
		if g[gRoots] != 1 {
			bad("the document ends after %d root elements", g[gRoots])
		}
		g[gDoc] = 2
	case m == "StartElementNS":
		if !inside {
			if g[gRoots] != 0 {
				bad("a second root element is started")
			}
			g[gRoots] = satG(g[gRoots] + 1)
		}
		g[gEl] = satG(g[gEl] + 1)
	case m == "EndElementNS":
		if !inside {
			bad("an element ends that was not started")
		}
		g[gEl] = satG(g[gEl] - 1)
		if g[gEl] < g[gElMin] {
			g[gElMin] = g[gEl]
		}
	case c08Content[m]:
		if !inside {
			bad("%s is announced outside of the root element", m)
		}
	case m == "InternalSubset":
		if inside || g[gRoots] != 0 || g[gDTD] != 0 {
			bad("the DTD is announced twice or after the root element has started")
		}
		g[gDTD] = 1
	case m == "ExternalSubset":
		if inside || g[gRoots] != 0 || g[gDTD] != 1 {
			bad("the external subset is announced outside of a DTD")
		}
		g[gDTD] = 2
	case c08Decl[m]:
		if inside || g[gRoots] != 0 || g[gDTD] == 0 {
			bad("%s is announced outside of a DTD", m)
		}
	}
}

func (c *c08Client) Return(fr *Frame, st *State, in *ssa.Return, res []AVal) {
	if fr.parent != nil {
		return
	}
	if errClass(st, res[len(res)-1]) == 1 {
		return
	}
	g := &st.ghost
	pos := fr.a.p.instrPos(in)
	c.h.ok("complete", "successful parse", pos)
	if g[gDoc] != 2 {
		c.h.fail("complete", "successful parse", pos, "the parse can succeed without announcing the start and the end of the document")
	}
	if g[gRoots] != 1 {
		c.h.fail("complete", "successful parse", pos, fmt.Sprintf("the parse can succeed with %d root elements", g[gRoots]))
	}
	if g[gEl] != 0 {
		c.h.fail("complete", "successful parse", pos, "the parse can succeed with unbalanced element events")
	}
}

func checkC08(p *Program, r *Report) {
	c := &c08Client{}
	parseRoot(p, r, c, nil)
	c.h.flush(r)
	for _, m := range c08All {
		if r.seen["event-delivered|"+m] == nil {
			r.fail("event-delivered", m, "?", "no path of the parser announces this event any more")
		}
	}
	r.min("event-order", 12)
	r.min("complete", 1)
}
