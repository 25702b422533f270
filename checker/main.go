package main

import (
	"fmt"
	"os"
	"runtime/debug"
	"runtime/pprof"
	"sort"

	"golang.org/x/tools/go/ssa"
)

type dbgClient struct{ m map[string]int }

func (c *dbgClient) hit(s string) { c.m[s]++ }
func (c *dbgClient) Reset()       { c.m = map[string]int{} }
func (c *dbgClient) Branch(fr *Frame, st *State, in *ssa.If, taken bool) {}
func (c *dbgClient) Panic(fr *Frame, st *State, in *ssa.Panic) {
	c.hit("panic " + fr.a.p.instrPos(in) + " " + shortFn(fr.fn))
}
func (c *dbgClient) Event(fr *Frame, st *State, method string, args []AVal, in ssa.CallInstruction) {
	c.hit("event " + method + " " + shortFn(fr.fn))
}
func (c *dbgClient) AfterEvent(fr *Frame, st *State, method string, class int) {}
func (c *dbgClient) Advance(fr *Frame, st *State, in ssa.CallInstruction, ok bool, why string) {
	if !ok {
		c.hit("ADVANCE " + fr.a.p.instrPos(in) + " " + shortFn(fr.fn) + " " + why)
	}
}
func (c *dbgClient) Consumed(fr *Frame, st *State, in ssa.CallInstruction, chars *Set) {}
func (c *dbgClient) LoopStall(fr *Frame, st *State, h, from *ssa.BasicBlock) {
	c.hit(fmt.Sprintf("STALL %s %s", fr.a.p.instrPos(h.Instrs[0]), shortFn(fr.fn)))
}
func (c *dbgClient) Return(fr *Frame, st *State, in *ssa.Return, res []AVal) {}
func (c *dbgClient) AfterCall(fr *Frame, st *State, in ssa.CallInstruction, callee *ssa.Function, res []AVal) {
}
func (c *dbgClient) Enter(fr *Frame, st *State) {}
func (c *dbgClient) TypeAssert(fr *Frame, st *State, in *ssa.TypeAssert, ok int) {
	if ok != 1 {
		c.hit("ASSERT " + fr.a.p.instrPos(in) + " " + shortFn(fr.fn))
	}
}
func (c *dbgClient) NilDeref(fr *Frame, st *State, in ssa.Instruction, what string, def bool) {
	c.hit("NIL " + fr.a.p.instrPos(in) + " " + shortFn(fr.fn) + " " + what)
}

func main() {
	debug.SetGCPercent(400)
	if len(os.Args) < 2 {
		fatalf("usage: hc check <property> [quick|thorough] | list | debug ...")
	}
	verif := os.Getenv("HELIUM_VERIF")
	if verif == "" {
		verif = "/verif"
	}
	switch os.Args[1] {
	case "check":
		tier := "quick"
		if len(os.Args) > 3 {
			tier = os.Args[3]
		}
		os.Exit(runCheck(verif, os.Args[2], tier))
	case "list":
		var l []string
		for k := range checks {
			l = append(l, k)
		}
		sort.Strings(l)
		for _, k := range l {
			fmt.Println(k)
		}
	case "debug":
		debugMain(os.Args[2:])
	default:
		fatalf("unknown command %s", os.Args[1])
	}
}

func debugMain(args []string) {
	if args[0] == "rank" {
		debugRank()
		return
	}
	p, err := Load("/verif")
	if err != nil {
		fatalf("%v", err)
	}
	defer p.Close()
	if args[0] == "sites" {
		debugSites(p)
		return
	}
	if args[0] == "ssa" {
		debugSSA(p, args[1])
		return
	}
	if args[0] == "dump" {
		c := p.constVal
		debugDump(p, "Entity", map[string]tv{"n.etype": c("EntityNode"), "n.entityType": c("InternalGeneralEntity"), "n.orig": tvEmpty})
		debugDump(p, "DTD", map[string]tv{"n.etype": c("DTDNode"), "n.externalID": tvEmpty, "n.systemID": tvNonEmpty, "n.firstChild": tvPtr, "NextSibling(n.firstChild)": tvNil})
		debugDump(p, "Comment", map[string]tv{"n.etype": c("CommentNode")})
		debugDump(p, "Document", map[string]tv{"n.etype": c("DocumentNode"), "n.version": tvEmpty, "n.encoding": tvNonEmpty, "n.standalone": c("StandaloneExplicitYes")})
		debugDump(p, "AttributeDecl", map[string]tv{"n.etype": c("AttributeDeclNode"), "n.prefix": tvEmpty, "n.atype": c("AttrEnumeration"), "n.def": c("AttrDefaultFixed"), "n.tree": tvLen(2)})
		debugDump(p, "Element", map[string]tv{"n.etype": c("ElementNode"), "n.ns": tvNil, "n.nsDefs": tvLen(1), "n.nsDefs[0].prefix": tvEmpty, "n.firstChild": tvPtr, "NextSibling(n.firstChild)": tvNil, "n.properties": tvPtr, "n.properties.next": tvNil, "n.properties.ns": tvNil, "n.nsDefs[0].href": tvNonEmpty, "n.properties.firstChild": tvPtr, "Type(n.properties.firstChild)": c("TextNode"), "NextSibling(n.properties.firstChild)": tvNil})
		return
	}
	c := &dbgClient{m: map[string]int{}}
	a := newAnalysis(p, c)
	a.progress = true
	a.tracked = map[string]bool{"instate": true, "inSubset": true, "sax": true, "external": true}
	a.havoc = map[string]bool{}
	a.debugFn = os.Getenv("DBGFN")
	a.trace = os.Getenv("TRACE") != ""
	if f := os.Getenv("PROF"); f != "" {
		w, _ := os.Create(f)
		pprof.StartCPUProfile(w)
		defer pprof.StopCPUProfile()
		if ms := os.Getenv("MAXSTEPS"); ms != "" {
			fmt.Sscan(ms, &a.maxSteps)
		}
	}
	fn := p.method("", "Parser", args[0])
	if len(args) > 1 {
		fn = p.method("", "parserCtx", args[1])
	}
	s := a.Run(fn, func() (*State, []AVal) {
		st := newState()
		if len(args) > 1 {
			o := &obj{typ: a.ctxType, fields: map[string]AVal{"#node": vInt(0), "#nodein": vInt(1)}}
			return st, []AVal{vObj(st.freshObj(o))}
		}
		return st, []AVal{vCell(st.fresh(single(1))), vTop}
	})
	fmt.Println("exits", len(s.exits), "overflow", a.overflow, "steps", a.steps, "calls", a.nCalls, "memo", len(a.memo))
	var l []string
	for k, n := range c.m {
		l = append(l, fmt.Sprintf("%s x%d", k, n))
	}
	sort.Strings(l)
	for _, x := range l {
		fmt.Println(x)
	}
	type fc struct {
		n string
		c int
	}
	var fl []fc
	for f, n := range a.fnSeen {
		fl = append(fl, fc{fmt.Sprintf("%s a=%d blocks", shortFn(f), n), a.blocksRun[f]})
	}
	sort.Slice(fl, func(i, j int) bool { return fl[i].c > fl[j].c })
	for i, f := range fl {
		if i > 25 {
			return
		}
		fmt.Println(f.n, f.c)
	}
}

func debugRank() {
	p, err := Load("/verif")
	if err != nil {
		fatalf("%s", err)
	}
	defer p.Close()
	for _, f := range p.funcs {
		if f == p.funcs[0] {
			debugLo(p)
		}
		ls := naturalLoops(f)
		if irreducible(f) {
			fmt.Println("IRREDUCIBLE", shortFn(f))
		}
		for _, l := range ls {
			ok, why := p.rankLoop(l, ls)
			fmt.Println(ok, shortFn(f), l.head.Index, p.loopPos(l), why)
		}
	}
}
func debugLo(p *Program) {
	for _, f := range p.funcs {
		switch f.Name() {
		case "parseStringName", "parseStringCharRef", "parseStringEntityRef", "parseStringPEReference":
			fmt.Println(f.Name(), p.resultLo(f, 1, 0))
		}
	}
}
