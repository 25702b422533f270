package main

import (
	"fmt"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("S02", "proof",
		"abstract interpretation of the serialiser in the domain of output templates (constant text with placeholders for fields): for every kind of node and every abstract valuation of the fields that shape it (empty/non-empty, enumerated values, zero/one/two children) the text written on every path equals the template XML prescribes",
		checkS02,
		"lists longer than the ones enumerated are written by the same loop iterations",
		"the escaping helpers do what S01 checks")
}

var dumpOpaque = map[string]bool{
	"dumpNode": true, "dumpElementContent": true, "escapeText": true, "escapeAttrValue": true,
	"dumpQuotedString": true, "dumpEntityContent": true, "dumpAttrDefault": true, "DumpNode": true, "DumpDoc": true, "XML": true,
}

func isDumpOpaque(f *ssa.Function) bool { return dumpOpaque[f.Name()] }

func (p *Program) constVal(name string) tv {
	if c, ok := p.root().Pkg.Scope().Lookup(name).(*types.Const); ok {
		if n, ok := constInt64(c); ok {
			return tvInt(n)
		}
	}
	return tv{}
}

// a dimension of the valuation space
type dim struct {
	path string
	vals []dval
}
type dval struct {
	name string
	v    tv
}

type vmap map[string]string // path -> name of the value

type s02 struct {
	p    *Program
	r    *Report
	runs int
}

func (c *s02) cv(names ...string) []dval {
	var res []dval
	for _, n := range names {
		v := c.p.constVal(n)
		if v.k == 0 {
			c.r.fail("anchor", "constant "+n, "?", "not found")
		}
		res = append(res, dval{n, v})
	}
	return res
}

var strDim = []dval{{"empty", tvEmpty}, {"text", tvNonEmpty}}
var ptrDim = []dval{{"nil", tvNil}, {"set", tvPtr}}

// children is the valuation of a sibling list below path with n members.
func children(path string, n int) map[string]tv {
	res := map[string]tv{}
	cur := path
	for i := 0; i < n; i++ {
		res[cur] = tvPtr
		cur = "NextSibling(" + cur + ")"
	}
	res[cur] = tvNil
	return res
}

func childPaths(path string, n int) []string {
	var res []string
	cur := path
	for i := 0; i < n; i++ {
		res = append(res, cur)
		cur = "NextSibling(" + cur + ")"
	}
	return res
}

// nodeKind checks dumpNode for one concrete node type.
func (c *s02) nodeKind(kind, typ string, fixed map[string]tv, dims []dim, expect func(v vmap) string) {
	fn := c.p.method("", "Dumper", "dumpNode")
	tn, ok := c.p.root().Pkg.Scope().Lookup(typ).(*types.TypeName)
	if fn == nil || !ok {
		c.r.fail("anchor", kind, "?", "dumpNode or type "+typ+" not found")
		return
	}
	pt := types.NewPointer(tn.Type())
	n := &Term{op: "param", s: "n", n: 3, typ: pt}
	out := &Term{op: "param", s: "out", n: 2, typ: fn.Params[1].Type()}
	args := []*Term{{op: "param", s: "d", n: 1, typ: fn.Params[0].Type()}, out,
		{op: "iface", s: pt.String(), args: []*Term{n}, typ: pt}}
	c.check(kind, fn, args, out, fixed, dims, expect)
}

func (c *s02) check(kind string, fn *ssa.Function, args []*Term, out *Term, fixed map[string]tv, dims []dim, expect func(v vmap) string) {
	pos := c.p.pos(fn.Pos())
	c.r.fn(shortFn(fn))
	idx := make([]int, len(dims))
	bad, und := "", ""
	badKey := ""
	for {
		val := map[string]tv{"n": tvPtr, "d": tvPtr}
		for k, v := range fixed {
			val[k] = v
		}
		names := vmap{}
		var desc []string
		for i, d := range dims {
			val[d.path] = d.vals[idx[i]].v
			names[d.path] = d.vals[idx[i]].name
			desc = append(desc, strings.TrimPrefix(d.path, "n.")+"="+d.vals[idx[i]].name)
		}
		sort.Strings(desc)
		want := expect(names)
		paths, err := c.p.outTemplates(fn, args, out, val, isDumpOpaque)
		c.runs++
		where := strings.Join(desc, " ")
		switch {
		case err != nil:
			und = "undecided for " + where + ": " + err.Error()
		default:
			okPaths := 0
			for _, ph := range paths {
				if ph.err == "write-error" {
					continue
				}
				c.r.stats["paths"]++
				if ph.bad != "" {
					bad = "for " + where + ": " + ph.bad
				}
				if want == "ERROR" {
					if ph.err != "error" {
						bad = fmt.Sprintf("for %s: no error is returned (written: %q)", where, ph.out)
					}
					okPaths++
					continue
				}
				if ph.err != "nil" && ph.err != "" {
					bad = fmt.Sprintf("for %s: %s", where, map[string]string{"error": "an error is returned", "panic": "panics"}[ph.err])
					continue
				}
				okPaths++
				if ph.out != want {
					bad = fmt.Sprintf("for %s: writes %q instead of %q", where, ph.out, want)
				}
			}
			if okPaths == 0 && bad == "" {
				bad = "for " + where + ": no path"
			}
		}
		if bad != "" {
			badKey = where
			break
		}
		// next valuation
		i := 0
		for ; i < len(dims); i++ {
			idx[i]++
			if idx[i] < len(dims[i].vals) {
				break
			}
			idx[i] = 0
		}
		if i == len(dims) {
			break
		}
	}
	_ = badKey
	if bad == "" && und != "" {
		c.r.undecided("output-form", kind, pos, und)
		return
	}
	c.r.add("output-form", kind, pos, bad == "", bad)
}

func checkS02(p *Program, r *Report) {
	c := &s02{p: p, r: r}
	k := func(n string) tv { return p.constVal(n) }
	str := func(path string) dim { return dim{path, strDim} }
	lit := func(v vmap, path, s string) string {
		if v[path] == "empty" {
			return ""
		}
		return s
	}
	extID := func(v vmap) string {
		if v["n.externalID"] == "text" {
			return " PUBLIC {dumpQuotedString:n.externalID} {dumpQuotedString:n.systemID}"
		}
		return " SYSTEM {dumpQuotedString:n.systemID}"
	}

	// document
	for n := 0; n < 3; n++ {
		n := n
		fn := p.method("", "Dumper", "DumpDoc")
		if fn == nil {
			r.fail("anchor", "DumpDoc", "?", "not found")
			break
		}
		out := &Term{op: "param", s: "out", n: 2, typ: fn.Params[1].Type()}
		doc := &Term{op: "param", s: "n", n: 3, typ: fn.Params[2].Type()}
		c.check(fmt.Sprintf("document with %d children", n), fn, []*Term{{op: "param", s: "d", n: 1, typ: fn.Params[0].Type()}, out, doc}, out, children("n.firstChild", n), nil, func(v vmap) string {
			s := "{dumpNode:n}"
			for _, c := range childPaths("n.firstChild", n) {
				s += "{dumpNode:" + c + "}\n"
			}
			return s
		})
	}
	c.nodeKind("XML declaration", "Document", map[string]tv{"n.etype": k("DocumentNode")}, []dim{str("n.version"), str("n.encoding"),
		{"n.standalone", c.cv("StandaloneExplicitYes", "StandaloneExplicitNo", "StandaloneNoXMLDecl", "StandaloneImplicitNo")}}, func(v vmap) string {
		s := `<?xml version="`
		if v["n.version"] == "empty" {
			s += `1.0"`
		} else {
			s += `{n.version}"`
		}
		s += lit(v, "n.encoding", ` encoding="{n.encoding}"`)
		switch v["n.standalone"] {
		case "StandaloneExplicitYes":
			s += ` standalone="yes"`
		case "StandaloneExplicitNo":
			s += ` standalone="no"`
		}
		return s + "?>\n"
	})
	for n := 0; n < 3; n++ {
		n := n
		f := children("n.firstChild", n)
		f["n.etype"] = k("DTDNode")
		c.nodeKind(fmt.Sprintf("DOCTYPE with %d declarations", n), "DTD", f, []dim{str("n.externalID"), str("n.systemID")}, func(v vmap) string {
			s := "<!DOCTYPE {n.name} "
			if v["n.externalID"] == "text" {
				s += "PUBLIC {dumpQuotedString:n.externalID} {dumpQuotedString:n.systemID} "
			} else if v["n.systemID"] == "text" {
				s += "SYSTEM {dumpQuotedString:n.systemID} "
			}
			if n == 0 {
				return s + ">"
			}
			s += "[\n"
			for _, c := range childPaths("n.firstChild", n) {
				s += "{dumpNode:" + c + "}"
			}
			return s + "]>"
		})
	}
	c.nodeKind("comment", "Comment", map[string]tv{"n.etype": k("CommentNode")}, nil, func(v vmap) string { return "<!--{n.content}-->" })
	c.nodeKind("processing instruction", "ProcessingInstruction", map[string]tv{"n.etype": k("ProcessingInstructionNode")}, []dim{str("n.data")}, func(v vmap) string {
		return "<?{n.target}" + lit(v, "n.data", " {n.data}") + "?>"
	})
	c.nodeKind("entity reference", "EntityRef", map[string]tv{"n.etype": k("EntityRefNode"), "n.ns": tvNil}, nil, func(v vmap) string { return "&{n.name};" })
	c.nodeKind("text", "Text", map[string]tv{"n.etype": k("TextNode"), "n.ns": tvNil, "n.name": tvEmpty}, nil, func(v vmap) string { return "{escapeText:n.content,false}" })

	// entity declarations
	c.nodeKind("entity declaration", "Entity", map[string]tv{"n.etype": k("EntityNode")}, []dim{
		{"n.entityType", c.cv("InternalGeneralEntity", "ExternalGeneralParsedEntity", "ExternalGeneralUnparsedEntity", "InternalParameterEntity", "ExternalParameterEntity", "InternalPredefinedEntity")},
		str("n.orig"), str("n.content"), str("n.externalID"), str("n.systemID")}, func(v vmap) string {
		t := v["n.entityType"]
		value := func() string {
			if v["n.orig"] == "text" {
				return " {dumpQuotedString:n.orig}"
			}
			return " {dumpEntityContent:n.content}"
		}
		switch t {
		case "InternalGeneralEntity":
			return "<!ENTITY {n.name}" + value() + ">\n"
		case "InternalParameterEntity":
			return "<!ENTITY % {n.name}" + value() + ">\n"
		case "ExternalParameterEntity":
			return "<!ENTITY % {n.name}" + extID(v) + ">\n"
		case "ExternalGeneralParsedEntity":
			return "<!ENTITY {n.name}" + extID(v) + ">\n"
		case "ExternalGeneralUnparsedEntity":
			s := "<!ENTITY {n.name}" + extID(v)
			if v["n.content"] == "text" {
				if v["n.orig"] == "text" {
					s += " NDATA {n.orig}"
				} else {
					s += " NDATA {n.content}"
				}
			}
			return s + ">\n"
		}
		return "ERROR"
	})

	// element declarations and content models
	c.nodeKind("element declaration", "ElementDecl", map[string]tv{"n.etype": k("ElementDeclNode"), "n.content": tvPtr}, []dim{
		{"n.decltype", c.cv("UndefinedElementType", "EmptyElementType", "AnyElementType", "MixedElementType", "ElementElementType")}, str("n.prefix")}, func(v vmap) string {
		s := "<!ELEMENT " + lit(v, "n.prefix", "{n.prefix}:") + "{n.name}"
		switch v["n.decltype"] {
		case "EmptyElementType":
			return s + " EMPTY>\n"
		case "AnyElementType":
			return s + " ANY>\n"
		case "UndefinedElementType":
			return "ERROR"
		}
		return s + " {dumpElementContent:n.content,true}>\n"
	})
	if fn := p.fn("", "dumpElementContent"); fn == nil {
		r.fail("anchor", "dumpElementContent", "?", "not found")
	} else {
		out := &Term{op: "param", s: "out", n: 1, typ: fn.Params[0].Type()}
		n := &Term{op: "param", s: "n", n: 2, typ: fn.Params[1].Type()}
		gl := &Term{op: "param", s: "glob", n: 3, typ: fn.Params[2].Type()}
		ctypes := c.cv("ElementContentPCDATA", "ElementContentElement", "ElementContentSeq", "ElementContentOr")
		occ := c.cv("ElementContentOnce", "ElementContentOpt", "ElementContentMult", "ElementContentPlus")
		globs := []dval{{"true", tvInt(1)}, {"false", tvInt(0)}}
		suffix := map[string]string{"ElementContentOnce": "", "ElementContentOpt": "?", "ElementContentMult": "*", "ElementContentPlus": "+"}
		wrap := func(v vmap, s string) string {
			if v["glob"] == "true" {
				s = "(" + s + ")"
			}
			return s + suffix[v["n.coccur"]]
		}
		c.check("content model leaf", fn, []*Term{out, n, gl}, out, nil, []dim{{"n.ctype", ctypes[:2]}, {"n.coccur", occ}, {"glob", globs}, str("n.prefix")}, func(v vmap) string {
			if v["n.ctype"] == "ElementContentPCDATA" {
				return wrap(v, "#PCDATA")
			}
			return wrap(v, lit(v, "n.prefix", "{n.prefix}:")+"{n.name}")
		})
		c.check("content model group", fn, []*Term{out, n, gl}, out, map[string]tv{"n.c1": tvPtr, "n.c2": tvPtr},
			[]dim{{"n.ctype", ctypes[2:]}, {"n.coccur", occ}, {"glob", globs}, {"n.c1.ctype", ctypes}, {"n.c2.ctype", ctypes}, {"n.c2.coccur", occ}}, func(v vmap) string {
				g1 := v["n.c1.ctype"] == "ElementContentSeq" || v["n.c1.ctype"] == "ElementContentOr"
				same, other, sep := "ElementContentSeq", "ElementContentOr", " , "
				if v["n.ctype"] == "ElementContentOr" {
					same, other, sep = other, same, " | "
				}
				g2 := v["n.c2.ctype"] == other || v["n.c2.ctype"] == same && v["n.c2.coccur"] != "ElementContentOnce"
				return wrap(v, fmt.Sprintf("{dumpElementContent:n.c1,%v}%s{dumpElementContent:n.c2,%v}", g1, sep, g2))
			})
	}

	// attribute declarations
	atypes := map[string]string{"AttrCDATA": "CDATA", "AttrID": "ID", "AttrIDRef": "IDREF", "AttrIDRefs": "IDREFS", "AttrEntity": "ENTITY", "AttrEntities": "ENTITIES",
		"AttrNmtoken": "NMTOKEN", "AttrNmtokens": "NMTOKENS", "AttrEnumeration": "(", "AttrNotation": "NOTATION (", "AttrInvalid": ""}
	for n := 1; n < 4; n++ {
		n := n
		c.nodeKind(fmt.Sprintf("attribute declaration with %d enumerated values", n), "AttributeDecl", map[string]tv{"n.etype": k("AttributeDeclNode"), "n.tree": tvLen(int64(n))}, []dim{
			{"n.atype", c.cv(sortedKeys(atypes)...)}, {"n.def", c.cv("AttrDefaultInvalid", "AttrDefaultNone", "AttrDefaultRequired", "AttrDefaultImplied", "AttrDefaultFixed")}, str("n.prefix"), str("n.defvalue")}, func(v vmap) string {
			s := "<!ATTLIST {n.elem} " + lit(v, "n.prefix", "{n.prefix}:") + "{n.name} "
			a := v["n.atype"]
			if a == "AttrInvalid" || v["n.def"] == "AttrDefaultInvalid" {
				return "ERROR"
			}
			s += atypes[a]
			if strings.HasSuffix(s, "(") {
				for i := 0; i < n; i++ {
					if i > 0 {
						s += " | "
					}
					s += fmt.Sprintf("{n.tree[%d]}", i)
				}
				s += ")"
			}
			switch v["n.def"] {
			case "AttrDefaultRequired":
				s += " #REQUIRED"
			case "AttrDefaultImplied":
				s += " #IMPLIED"
			case "AttrDefaultFixed":
				s += " #FIXED {dumpAttrDefault:n.defvalue}"
			default:
				s += " {dumpAttrDefault:n.defvalue}"
			}
			return s + ">\n"
		})
	}

	// elements: name, namespaces, attributes, children
	base := func() map[string]tv {
		return map[string]tv{"n.etype": k("ElementNode"), "n.ns": tvNil, "n.nsDefs": tvLen(0), "n.properties": tvNil, "n.firstChild": tvNil}
	}
	with := func(m map[string]tv, more map[string]tv) map[string]tv {
		for k, v := range more {
			m[k] = v
		}
		return m
	}
	f := base()
	delete(f, "n.ns")
	delete(f, "n.firstChild")
	c.nodeKind("element name", "Element", with(f, map[string]tv{"NextSibling(n.firstChild)": tvNil}), []dim{{"n.ns", ptrDim}, str("n.ns.prefix"), {"n.firstChild", ptrDim}}, func(v vmap) string {
		name := "{n.name}"
		if v["n.ns"] == "set" && v["n.ns.prefix"] == "text" {
			name = "{n.ns.prefix}:{n.name}"
		}
		if v["n.firstChild"] == "nil" {
			return "<" + name + "/>"
		}
		return "<" + name + ">{dumpNode:n.firstChild}</" + name + ">"
	})
	for n := 0; n < 3; n++ {
		n := n
		c.nodeKind(fmt.Sprintf("element with %d children", n), "Element", with(base(), children("n.firstChild", n)), nil, func(v vmap) string {
			if n == 0 {
				return "<{n.name}/>"
			}
			s := "<{n.name}>"
			for _, c := range childPaths("n.firstChild", n) {
				s += "{dumpNode:" + c + "}"
			}
			return s + "</{n.name}>"
		})
		var dims []dim
		for i := 0; i < n; i++ {
			dims = append(dims, str(fmt.Sprintf("n.nsDefs[%d].href", i)), str(fmt.Sprintf("n.nsDefs[%d].prefix", i)))
		}
		c.nodeKind(fmt.Sprintf("element with %d namespace declarations", n), "Element", with(base(), map[string]tv{"n.nsDefs": tvLen(int64(n))}), dims, func(v vmap) string {
			s := "<{n.name}"
			for i := 0; i < n; i++ {
				q := fmt.Sprintf("n.nsDefs[%d]", i)
				if v[q+".href"] == "empty" && v[q+".prefix"] != "empty" {
					continue // a prefix cannot be undeclared
				}
				s += " xmlns" + lit(v, q+".prefix", ":{"+q+".prefix}") + `="{escapeAttrValue:` + q + `.href}"`
			}
			return s + "/>"
		})
		// attributes
		fx := base()
		cur := "n.properties"
		var aps []string
		for i := 0; i < n; i++ {
			fx[cur] = tvPtr
			fx[cur+".firstChild"] = tvPtr
			fx["Type("+cur+".firstChild)"] = k("TextNode")
			fx["NextSibling("+cur+".firstChild)"] = tvNil
			aps = append(aps, cur)
			cur += ".next"
		}
		fx[cur] = tvNil
		dims = nil
		for _, a := range aps {
			dims = append(dims, dim{a + ".ns", ptrDim}, str(a+".ns.prefix"))
		}
		c.nodeKind(fmt.Sprintf("element with %d attributes", n), "Element", fx, dims, func(v vmap) string {
			s := "<{n.name}"
			for _, a := range aps {
				name := "{" + a + ".name}"
				if v[a+".ns"] == "set" && v[a+".ns.prefix"] == "text" {
					name = "{" + a + ".ns.prefix}:" + name
				}
				s += " " + name + `="{escapeAttrValue:Content(` + a + `.firstChild)}"`
			}
			return s + "/>"
		})
		// the value of an attribute
		fx = base()
		fx["n.properties"] = tvPtr
		fx["n.properties.next"] = tvNil
		fx["n.properties.ns"] = tvNil
		with(fx, children("n.properties.firstChild", n))
		dims = nil
		for _, ch := range childPaths("n.properties.firstChild", n) {
			dims = append(dims, dim{"Type(" + ch + ")", c.cv("TextNode", "EntityRefNode")})
		}
		c.nodeKind(fmt.Sprintf("attribute value of %d parts", n), "Element", fx, dims, func(v vmap) string {
			s := `<{n.name} {n.properties.name}="`
			for _, ch := range childPaths("n.properties.firstChild", n) {
				if v["Type("+ch+")"] == "TextNode" {
					s += "{escapeAttrValue:Content(" + ch + ")}"
				} else {
					s += "{dumpNode:" + ch + "}"
				}
			}
			return s + `"/>`
		})
	}
	r.stats["valuations"] = c.runs
	r.min("output-form", 20)
}

func debugDump(p *Program, typ string, vals map[string]tv) {
	fn := p.method("", "Dumper", "dumpNode")
	tn := p.root().Pkg.Scope().Lookup(typ).(*types.TypeName)
	pt := types.NewPointer(tn.Type())
	n := &Term{op: "param", s: "n", n: 3, typ: pt}
	out := &Term{op: "param", s: "out", n: 2, typ: fn.Params[1].Type()}
	args := []*Term{{op: "param", s: "d", n: 1, typ: fn.Params[0].Type()}, out,
		{op: "iface", s: pt.String(), args: []*Term{n}, typ: pt}}
	ps, err := p.outTemplates(fn, args, out, vals, isDumpOpaque)
	fmt.Println(typ, len(ps), err)
	t := &tmplRun{p: p, embed: p.embeddedNames(), outP: out}
	for i, x := range ps {
		if i > 12 {
			break
		}
		fmt.Printf("  %q err=%s bad=%s\n", x.out, x.err, x.bad)
		if os.Getenv("CONDS") != "" {
			for _, c := range x.conds {
				fmt.Printf("      %s = %v\n", t.canon(c.t), c.v)
			}
		}
	}
}
