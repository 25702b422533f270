package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// What a routine of the parser delivers as text, related to the input it
// consumed.  The input is an unbounded row of characters; positions in it are
// linear terms over symbols (how often a loop went round, how much a routine
// consumed); texts are lists of parts, most of them pieces of the input from one
// position to another; for each position looked at, the set of characters that may
// stand there.  At loop headers states are joined: what changed by the same amount
// keeps its distance.

type sLin struct {
	c int64
	t string // canonical: "id:coef," sorted
}

func lc(n int64) sLin { return sLin{c: n} }
func (a sLin) terms() map[int]int64 {
	m := map[int]int64{}
	for _, p := range strings.Split(a.t, ",") {
		if p == "" {
			continue
		}
		var id int
		var k int64
		fmt.Sscanf(p, "%d:%d", &id, &k)
		m[id] = k
	}
	return m
}
func mkLin(c int64, m map[int]int64) sLin {
	var ids []int
	for i, k := range m {
		if k != 0 {
			ids = append(ids, i)
		}
	}
	sort.Ints(ids)
	s := ""
	for _, i := range ids {
		s += fmt.Sprintf("%d:%d,", i, m[i])
	}
	return sLin{c, s}
}
func (a sLin) add(b sLin, k int64) sLin {
	if b.t == "" {
		return sLin{a.c + k*b.c, a.t}
	}
	m := a.terms()
	for i, c := range b.terms() {
		m[i] += k * c
	}
	return mkLin(a.c+k*b.c, m)
}
func (a sLin) plus(n int64) sLin { return sLin{a.c + n, a.t} }
func (a sLin) sub(b sLin) sLin   { return a.add(b, -1) }
func (a sLin) isConst() bool     { return a.t == "" }
func (a sLin) has(id int) bool   { return strings.Contains(","+a.t, fmt.Sprintf(",%d:", id)) }
func (a sLin) subst(id int, v sLin) sLin {
	if !a.has(id) {
		return a
	}
	m := a.terms()
	k := m[id]
	delete(m, id)
	return mkLin(a.c, m).add(v, k)
}

// nonneg: certainly not negative (symbols are not).
func (a sLin) nonneg() bool {
	if a.c < 0 {
		return false
	}
	for _, k := range a.terms() {
		if k < 0 {
			return false
		}
	}
	return true
}
func (a sLin) String() string {
	s := fmt.Sprint(a.c)
	m := a.terms()
	var ids []int
	for i := range m {
		ids = append(ids, i)
	}
	sort.Ints(ids)
	for _, i := range ids {
		s += fmt.Sprintf("%+d*n%d", m[i], i)
	}
	return s
}

type tKind int

const (
	tTop tKind = iota
	tInt
	tRune  // the character at l
	tStr   // text
	tAddr  // address of a variable or buffer (s)
	tObj   // something opaque (path s)
	tNil   //
	tErr   // an error that is there
	tBool  // n
	tCmp   // a op b
	tSet   // the character of a[0] is in the set
	tNot   //
	tClo   // function and what it captured
	tTuple //
	tCur   // the cursor
	tLen   // length of a text
	tNum   // the number written from l to l2 in base n (b: it is known not to be large)
	tMul   // such a number, times its base
	tAcc   // tMul plus the character at l2 plus n2
	tOff   // the character at l plus n
	tIdx   // where the character of a[0] stands in a text of n bytes with the characters of set
	tCut   // a text that is not what was read (s: why)
)

type tPart struct {
	k    byte // 'c' constant, 'i' input from a to b, 'v' opaque (s), 'm' changed (s)
	s    string
	a, b sLin
	nl   bool // line ends replaced
}

type tval struct {
	k     tKind
	l, l2 sLin
	n, n2 int64
	p     []tPart
	s     string
	a     []tval
	fn    *ssa.Function
	set   *Set
	op    token.Token
	b     bool
}

type tSpan struct {
	kind     string
	id       string
	from, to sLin
}

type sFrame struct {
	fn     *ssa.Function
	b      *ssa.BasicBlock
	from   *ssa.BasicBlock
	i      int
	env    map[ssa.Value]tval
	call   ssa.CallInstruction
	id     int
	defers []ssa.CallInstruction
	dargs  [][]tval
	defer_ bool
}

type sState struct {
	frames []*sFrame
	pos    sLin
	facts  map[sLin]*Set
	objs   map[string]*Set
	conds  map[string]bool
	mem    map[string]tval
	spans  []tSpan
	end    *sLin // where the construct has to end
	cov    sLin  // up to here every character is in the covering set
	hist   []*sHead
	next   int
	done   map[string]bool
	dead   bool // given up
	plain  int  // turns of a loop taken without joining
	vague  bool // a condition was passed that is not understood
}

type sHead struct {
	key  string
	st   *sState
	sym  int
	n    int
	prev *sHead
}

func (s *sState) clone() *sState {
	n := *s
	n.frames = nil
	for _, f := range s.frames {
		g := *f
		g.env = make(map[ssa.Value]tval, len(f.env))
		for k, v := range f.env {
			g.env[k] = v
		}
		g.defers = append([]ssa.CallInstruction(nil), f.defers...)
		g.dargs = append([][]tval(nil), f.dargs...)
		n.frames = append(n.frames, &g)
	}
	n.facts = map[sLin]*Set{}
	for k, v := range s.facts {
		n.facts[k] = v
	}
	n.objs = map[string]*Set{}
	for k, v := range s.objs {
		n.objs[k] = v
	}
	n.conds = map[string]bool{}
	for k, v := range s.conds {
		n.conds[k] = v
	}
	n.mem = map[string]tval{}
	for k, v := range s.mem {
		n.mem[k] = v
	}
	n.done = map[string]bool{}
	for k, v := range s.done {
		n.done[k] = v
	}
	n.spans = append([]tSpan(nil), s.spans...)
	n.hist = append([]*sHead(nil), s.hist...)
	return &n
}

func (s *sState) top() *sFrame { return s.frames[len(s.frames)-1] }
func (s *sState) fact(l sLin) *Set {
	if f := s.facts[l]; f != nil {
		return f
	}
	return anyRune
}
func (s *sState) sym() int { s.next++; return s.next }

// subst replaces a symbol everywhere.
func (s *sState) subst(id int, v sLin) {
	f := func(l sLin) sLin { return l.subst(id, v) }
	for _, fr := range s.frames {
		for k, a := range fr.env {
			fr.env[k] = a.mapLin(f)
		}
		for _, l := range fr.dargs {
			for i := range l {
				l[i] = l[i].mapLin(f)
			}
		}
	}
	for k, a := range s.mem {
		s.mem[k] = a.mapLin(f)
	}
	nf := map[sLin]*Set{}
	for k, v := range s.facts {
		k = f(k)
		if o := nf[k]; o != nil {
			v = v.Inter(o)
		}
		nf[k] = v
	}
	s.facts = nf
	s.pos = f(s.pos)
	s.cov = f(s.cov)
	if s.end != nil {
		e := f(*s.end)
		s.end = &e
	}
	for i := range s.spans {
		s.spans[i].from = f(s.spans[i].from)
		s.spans[i].to = f(s.spans[i].to)
	}
}

func (a tval) mapLin(f func(sLin) sLin) tval {
	switch a.k {
	case tInt, tRune, tNum, tMul, tAcc, tOff:
		a.l = f(a.l)
		a.l2 = f(a.l2)
	}
	if a.p != nil {
		np := make([]tPart, len(a.p))
		for i, p := range a.p {
			if p.k == 'i' {
				p.a, p.b = f(p.a), f(p.b)
			}
			np[i] = p
		}
		a.p = np
	}
	if a.a != nil {
		na := make([]tval, len(a.a))
		for i := range a.a {
			na[i] = a.a[i].mapLin(f)
		}
		a.a = na
	}
	return a
}

type sSpec struct {
	root   string
	args   map[int]tval // parameters that are fixed
	att    bool         // attribute value: white space and references
	spans  map[string]string
	stop   map[string]bool
	avoid  string // the text that ends the content, which must not occur in it
	quoted bool   // nor the quote the construct begins with
	avoid1 *Set   // characters that must not occur in it
	cover  *Set
	stays  bool // nothing is consumed when there is an error
	// judge an event or a return; "" is right
	event func(x *sRun, s *sState, name string, args []tval) string
	ret   func(x *sRun, s *sState, res []tval) string
}

type sRun struct {
	p      *Program
	sp     *sSpec
	heads  map[string][]*sHead
	isHead map[*ssa.BasicBlock]bool
	prepd  map[*ssa.Function]bool
	work   []*sState
	bad    map[string]token.Pos
	undec  map[string]token.Pos
	steps  int
	rets   int
	events int
	avA    bool // some extension could not exclude the end text starting there
	avB    bool // … ending there
	avV    bool // … after a condition that is not understood
	avPos  token.Pos
	fns    map[*ssa.Function]bool
	conF   map[string]bool
	cur    *sState
	vag    map[string]token.Pos // what seems wrong after a condition that is not understood
}

var sDebug = os.Getenv("TDBG") != ""

func (x *sRun) giveUp(in ssa.Instruction, f string, a ...interface{}) {
	m := fmt.Sprintf(f, a...)
	if _, ok := x.undec[m]; !ok {
		x.undec[m] = posOf(in)
	}
	if x.cur != nil {
		x.cur.dead = true
	}
}
func (x *sRun) fail(in ssa.Instruction, f string, a ...interface{}) {
	m := fmt.Sprintf(f, a...)
	if x.cur != nil && x.cur.vague {
		if sDebug {
			fmt.Println("VAGUE", m)
		}
		if _, ok := x.vag[m]; !ok {
			x.vag[m] = posOf(in)
		}
		return
	}
	if _, ok := x.bad[m]; !ok {
		x.bad[m] = posOf(in)
	}
}

func posOf(in ssa.Instruction) token.Pos {
	if in == nil {
		return token.NoPos
	}
	if in.Pos() != token.NoPos {
		return in.Pos()
	}
	for _, i := range in.Block().Instrs {
		if i.Pos() != token.NoPos {
			return i.Pos()
		}
	}
	return in.Parent().Pos()
}

func (x *sRun) prep(fn *ssa.Function) {
	if x.prepd[fn] {
		return
	}
	x.prepd[fn] = true
	x.fns[fn] = true
	for _, l := range naturalLoops(fn) {
		x.isHead[l.head] = true
	}
}

func runScribe(p *Program, sp *sSpec, fn *ssa.Function) *sRun {
	x := &sRun{p: p, sp: sp, heads: map[string][]*sHead{}, isHead: map[*ssa.BasicBlock]bool{}, prepd: map[*ssa.Function]bool{},
		bad: map[string]token.Pos{}, vag: map[string]token.Pos{}, undec: map[string]token.Pos{}, fns: map[*ssa.Function]bool{}, conF: map[string]bool{}}
	s := &sState{facts: map[sLin]*Set{}, objs: map[string]*Set{}, conds: map[string]bool{}, mem: map[string]tval{}, done: map[string]bool{}}
	f := &sFrame{fn: fn, b: fn.Blocks[0], env: map[ssa.Value]tval{}}
	for i, pa := range fn.Params {
		if v, ok := sp.args[i]; ok {
			f.env[pa] = v
		} else {
			f.env[pa] = tval{k: tObj, s: "$" + pa.Name()}
		}
	}
	x.prep(fn)
	s.frames = []*sFrame{f}
	x.work = append(x.work, s)
	for len(x.work) > 0 && x.steps <= 60000 {
		s := x.work[len(x.work)-1]
		x.work = x.work[:len(x.work)-1]
		x.run(s)
		if x.steps > 60000 {
			x.undec["too many states"] = fn.Pos()
		}
	}
	return x
}

func (x *sRun) val(s *sState, v ssa.Value) tval {
	switch t := v.(type) {
	case *ssa.Const:
		if t.Value == nil {
			if b, ok := t.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
				return tval{k: tStr}
			}
			if _, ok := t.Type().Underlying().(*types.Struct); ok {
				return tval{}
			}
			return tval{k: tNil}
		}
		switch t.Value.Kind() {
		case constant.Int:
			if n, ok := constant.Int64Val(t.Value); ok {
				return tval{k: tInt, l: lc(n)}
			}
		case constant.String:
			return sConst(constant.StringVal(t.Value))
		case constant.Bool:
			n := int64(0)
			if constant.BoolVal(t.Value) {
				n = 1
			}
			return tval{k: tBool, n: n}
		}
		return tval{}
	case *ssa.Function:
		return tval{k: tClo, fn: t}
	case *ssa.Global:
		return tval{k: tAddr, s: "@" + t.String()}
	}
	for i := len(s.frames) - 1; i >= 0; i-- {
		if s.frames[i].fn == v.Parent() {
			return s.frames[i].env[v]
		}
	}
	return tval{}
}

func sConst(c string) tval {
	if c == "" {
		return tval{k: tStr}
	}
	return tval{k: tStr, p: []tPart{{k: 'c', s: c}}}
}

func (v tval) text() (string, bool) {
	if v.k != tStr {
		return "", false
	}
	s := ""
	for _, p := range v.p {
		if p.k == 'c' {
			s += p.s
		} else if p.k == 'i' && p.a == p.b {
			continue
		} else {
			return "", false
		}
	}
	return s, true
}

func (v tval) str() string {
	switch v.k {
	case tTop:
		return "?"
	case tInt:
		return v.l.String()
	case tRune:
		return "ch(" + v.l.String() + ")"
	case tStr:
		return "'" + partsStr(v.p) + "'"
	case tAddr:
		return "&" + v.s
	case tObj:
		return v.s
	case tNil:
		return "nil"
	case tErr:
		return "err"
	case tBool:
		return fmt.Sprint(v.n != 0)
	case tClo:
		return v.fn.Name()
	case tTuple:
		s := ""
		for _, a := range v.a {
			s += a.str() + ","
		}
		return "(" + s + ")"
	case tNum, tMul, tAcc:
		return fmt.Sprintf("num%d[%s,%s)%v", v.n, v.l, v.l2, v.b)
	case tOff:
		return fmt.Sprintf("ch(%s)%+d", v.l, v.n)
	}
	return fmt.Sprintf("k%d", v.k)
}

func partsStr(l []tPart) string {
	s := ""
	for _, p := range l {
		switch p.k {
		case 'c':
			s += fmt.Sprintf("%q", p.s)
		case 'i':
			s += fmt.Sprintf("[%s,%s)", p.a, p.b)
			if p.nl {
				s += "n"
			}
		default:
			s += "<" + p.s + ">"
		}
	}
	return s
}

func (x *sRun) run(s *sState) {
	for {
		x.cur = s
		f := s.top()
		if f.i >= len(f.b.Instrs) {
			return
		}
		in := f.b.Instrs[f.i]
		x.steps++
		if x.steps > 60000 || s.dead {
			return
		}
		f.i++
		switch t := in.(type) {
		case *ssa.Jump:
			if !x.goTo(s, f.b.Succs[0], in) {
				return
			}
		case *ssa.If:
			yes, no := x.decide(s, x.val(s, t.Cond), in)
			for i, l := range [][]*sState{yes, no} {
				for _, n := range l {
					fb := n.top().b
					if i == 0 {
						x.know(n, t.Cond, true)
					} else {
						x.know(n, t.Cond, false)
					}
					if x.goTo(n, fb.Succs[i], in) {
						x.work = append(x.work, n)
					}
				}
			}
			return
		case *ssa.Return:
			var res []tval
			for _, r := range t.Results {
				res = append(res, x.val(s, r))
			}
			if len(s.frames) == 1 {
				x.finish(s, in, res)
				return
			}
			s.frames = s.frames[:len(s.frames)-1]
			s.trim()
			if f.defer_ {
				continue
			}
			if v, ok := f.call.(*ssa.Call); ok {
				if len(res) == 1 {
					s.top().env[v] = res[0]
				} else {
					s.top().env[v] = tval{k: tTuple, a: res}
				}
			}
		case *ssa.RunDefers:
			if n := len(f.defers); n > 0 {
				d, args := f.defers[n-1], f.dargs[n-1]
				f.defers, f.dargs = f.defers[:n-1], f.dargs[:n-1]
				f.i-- // again
				for _, n := range x.call(s, d, args, true) {
					x.work = append(x.work, n)
				}
				return
			}
		case *ssa.Panic:
			return
		case *ssa.Defer:
			var args []tval
			if !t.Call.IsInvoke() {
				args = append(args, x.val(s, t.Call.Value))
			}
			for _, a := range t.Call.Args {
				args = append(args, x.val(s, a))
			}
			f.defers = append(f.defers, t)
			f.dargs = append(f.dargs, args)
		case *ssa.Call:
			var args []tval
			args = append(args, x.val(s, t.Call.Value))
			for _, a := range t.Call.Args {
				args = append(args, x.val(s, a))
			}
			l := x.call(s, t, args, false)
			if len(l) == 1 && l[0] == s {
				continue
			}
			x.work = append(x.work, l...)
			return
		default:
			x.exec(s, in)
		}
	}
}

// know: remember the truth of a condition that is used again.
func (x *sRun) know(s *sState, c ssa.Value, t bool) {
	if _, ok := c.(*ssa.Const); ok {
		return
	}
	n := int64(0)
	if t {
		n = 1
	}
	s.top().env[c] = tval{k: tBool, n: n}
}

func (x *sRun) finish(s *sState, in ssa.Instruction, res []tval) {
	if n := len(res); n > 0 && isErrorType(s.top().fn.Signature.Results().At(n-1).Type()) {
		switch e := res[n-1]; e.k {
		case tNil:
		case tErr, tTop:
			if e.k == tTop {
				x.giveUp(in, "the error returned is not known")
			}
			if x.sp.stays && s.pos != lc(0) {
				x.fail(in, "a name that is refused is consumed all the same")
			}
			return
		case tObj:
			if b, ok := s.conds[e.s+"==nil"]; ok && !b {
				return
			}
		}
	}
	x.rets++
	if x.sp.ret != nil {
		if m := x.sp.ret(x, s, res); m != "" {
			if sDebug {
				fmt.Println("RET", s.String(), m)
			}
			x.verdict(in, m)
		}
	}
	if s.end != nil && *s.end != s.pos {
		x.fail(in, "the routine ends at another place (%s) than the construct (%s)", s.pos, *s.end)
	}
}

// verdict: messages that begin with ? are not decided.
func (x *sRun) verdict(in ssa.Instruction, m string) {
	if strings.HasPrefix(m, "?") {
		x.giveUp(in, "%s", m[1:])
		return
	}
	x.fail(in, "%s", m)
}

func (s *sState) String() string {
	o := "pos=" + s.pos.String()
	var fs []string
	for k, v := range s.facts {
		fs = append(fs, k.String()+":"+v.String())
	}
	sort.Strings(fs)
	o += " facts=" + strings.Join(fs, " ")
	var ms []string
	for k, v := range s.mem {
		ms = append(ms, k+"="+v.str())
	}
	sort.Strings(ms)
	o += " mem=" + strings.Join(ms, " ")
	for _, sp := range s.spans {
		o += fmt.Sprintf(" %s[%s,%s)=%s", sp.kind, sp.from, sp.to, sp.id)
	}
	for _, f := range s.frames {
		o += " " + f.fn.Name()
		var l []string
		for v, a := range f.env {
			l = append(l, v.Name()+"="+a.str())
		}
		sort.Strings(l)
		o += "{" + strings.Join(l, " ") + "}"
	}
	return o
}

// trim forgets the loops of routines that were left.
func (s *sState) trim() {
	for len(s.hist) > 0 && len(s.hist[len(s.hist)-1].st.frames) > len(s.frames) {
		s.hist = s.hist[:len(s.hist)-1]
	}
}

func (x *sRun) goTo(s *sState, b *ssa.BasicBlock, in ssa.Instruction) bool {
	f := s.top()
	from := f.b
	vals := map[ssa.Value]tval{}
	n := 0
	for _, i := range b.Instrs {
		ph, ok := i.(*ssa.Phi)
		if !ok {
			break
		}
		n++
		for k, p := range b.Preds {
			if p == from {
				vals[ph] = x.val(s, ph.Edges[k])
				break
			}
		}
	}
	for k, v := range vals {
		f.env[k] = v
	}
	f.from, f.b, f.i = from, b, n
	if !x.isHead[b] {
		return true
	}
	return x.arrive(s, in)
}

func (x *sRun) arrive(s *sState, in ssa.Instruction) bool {
	if x.sp.cover != nil {
		for f := s.facts[s.cov]; f != nil && f.SubsetOf(x.sp.cover); f = s.facts[s.cov] {
			s.cov = s.cov.plus(1)
		}
	}
	key := ""
	for fi, f := range s.frames {
		key += fmt.Sprintf("%s#%d/", f.fn.Name(), f.b.Index)
		var flags []string
		for v, a := range f.env {
			if !liveAt(v, f.b, f.i, fi == len(s.frames)-1) {
				delete(f.env, v)
			} else if _, phi := v.(*ssa.Phi); phi && a.k == tBool {
				flags = append(flags, fmt.Sprintf("%s=%d", v.Name(), a.n))
			}
		}
		sort.Strings(flags)
		key += strings.Join(flags, ",")
		if fi < len(s.frames)-1 {
			key += fmt.Sprintf("%d/", f.i)
		}
	}
	x.prune(s)
	for _, h := range x.heads[key] {
		if x.covers(h, s) {
			return false
		}
	}
	var anc *sHead
	for i := len(s.hist) - 1; i >= 0; i-- {
		if s.hist[i].key == key {
			anc = s.hist[i]
			s.hist = s.hist[:i]
			break
		}
	}
	h := &sHead{key: key}
	if anc != nil {
		if anc.n > 12 {
			x.giveUp(in, "no invariant of the loop was found")
			return false
		}
		h.n = anc.n + 1
		n := len(x.bad) + len(x.vag)
		x.join(h, anc, s)
		if len(x.bad)+len(x.vag) > n {
			return false
		}
	}
	if sDebug {
		fmt.Println("HEAD", key, h.n, s.String())
	}
	h.st = s.clone()
	x.heads[key] = append(x.heads[key], h)
	s.hist = append(s.hist, h)
	return true
}

// prune forgets what is known of things that are not mentioned any more.
func (x *sRun) prune(s *sState) {
	if x.sp.att { // a reference that is part of the text already
		keep := s.spans[:0:0]
		for _, sp := range s.spans {
			in := false
			for _, v := range s.mem {
				in = in || v.k == tStr && len(v.p) == 1 && v.p[0].k == 'i' && v.p[0].b == sp.to
			}
			if !in {
				keep = append(keep, sp)
			}
		}
		s.spans = keep
	}
	id := func(k string) string {
		if !strings.HasPrefix(k, "#") {
			return ""
		}
		if i := strings.IndexAny(k, "./= "); i > 0 {
			return k[:i]
		}
		return k
	}
	live := map[string]bool{}
	var mark func(v tval)
	mark = func(v tval) {
		live[id(strings.TrimLeft(v.s, "$@"))] = true
		for _, e := range v.p {
			live[id(e.s)] = true
		}
		for _, a := range v.a {
			mark(a)
		}
	}
	near := map[sLin]bool{}
	for _, f := range s.frames {
		for _, v := range f.env {
			mark(v)
			if v.k == tRune || v.k == tOff {
				near[v.l] = true
			}
		}
		for _, l := range f.dargs {
			for _, v := range l {
				mark(v)
			}
		}
	}
	for k, v := range s.mem {
		live[id(strings.TrimLeft(k, "$@"))] = true
		mark(v)
	}
	for _, sp := range s.spans {
		live[sp.id] = true
	}
	for l := range s.facts {
		if d := l.sub(s.pos); d.isConst() || near[l] || l.isConst() && (!x.sp.quoted || l.c == 0) {
			continue
		}
		if x.sp.quoted {
			delete(s.facts, l)
		}
	}
	for k := range s.conds {
		if d := id(k); d != "" && !live[d] {
			delete(s.conds, k)
		}
	}
	for k := range s.objs {
		if d := id(k); d != "" && !live[d] {
			delete(s.objs, k)
		}
	}
}

// pairs walks two states alike and calls f for each pair of values.
func pairs(a, b *sState, f func(where string, v ssa.Value, p, q tval)) {
	for i, fa := range a.frames {
		fb := b.frames[i]
		var l []ssa.Value
		for v := range fa.env {
			l = append(l, v)
		}
		sort.Slice(l, func(i, j int) bool { return l[i].Name() < l[j].Name() })
		for _, v := range l {
			if q, ok := fb.env[v]; ok {
				f(fmt.Sprint("f", i), v, fa.env[v], q)
			} else {
				f(fmt.Sprint("f", i), v, fa.env[v], tval{})
			}
		}
	}
	var ks []string
	for k := range a.mem {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		f(k, nil, a.mem[k], b.mem[k])
	}
}

// covers: everything s stands for is already explored with h.
func (x *sRun) covers(h *sHead, s *sState) bool {
	g := h.st
	if len(g.frames) != len(s.frames) || g.vague && !s.vague {
		return false
	}
	bound := map[int]sLin{}
	inst := func(a sLin) (sLin, bool) {
		r := lc(a.c)
		for i, k := range a.terms() {
			v, ok := bound[i]
			if !ok {
				return r, false
			}
			r = r.add(v, k)
		}
		return r, true
	}
	ok := true
	// the numbers in g stand for any that are not negative
	eq := func(a, b sLin) {
		if !ok {
			return
		}
		r := lc(a.c)
		m := a.terms()
		var free []int
		for i, k := range m {
			if v, known := bound[i]; known {
				r = r.add(v, k)
			} else {
				free = append(free, i)
			}
		}
		d := b.sub(r)
		if len(free) == 0 {
			ok = d == lc(0)
			return
		}
		sort.Ints(free)
		t := d.terms()
		var ids []int
		for i := range t {
			ids = append(ids, i)
		}
		sort.Ints(ids)
		for n, i := range free {
			k := m[i]
			v := lc(0)
			if n == len(free)-1 { // the rest
				if d.c%k != 0 {
					ok = false
					return
				}
				w := map[int]int64{}
				for j, c := range d.terms() {
					if c%k != 0 {
						ok = false
						return
					}
					w[j] = c / k
				}
				v = mkLin(d.c/k, w)
			} else if n < len(ids) && t[ids[n]] == k {
				v = mkLin(0, map[int]int64{ids[n]: 1})
			}
			if !v.nonneg() {
				ok = false
				return
			}
			bound[i] = v
			d = d.add(v, -k)
		}
	}
	eq(g.pos, s.pos)
	if x.sp.cover != nil {
		eq(g.cov, s.cov)
	}
	if (g.end == nil) != (s.end == nil) {
		return false
	}
	pairs(g, s, func(w string, v ssa.Value, p, q tval) {
		if ok && !sameTv(p, q, eq) {
			ok = false
		}
	})
	for k := range s.mem {
		if _, there := g.mem[k]; !there && !strings.HasPrefix(k, "$") && !strings.HasPrefix(k, "@") {
			return false
		}
	}
	if !ok {
		return false
	}
	for l, set := range g.facts {
		l, known := inst(l)
		if !known || !s.fact(l).SubsetOf(set) {
			return false
		}
	}
	for k, v := range g.conds {
		if w, ok := s.conds[k]; !ok || w != v {
			return false
		}
	}
	for k := range g.done {
		if !s.done[k] {
			return false
		}
	}
	if len(g.spans) > len(s.spans) {
		return false
	}
	for i := range g.spans {
		a, b := g.spans[i], s.spans[i]
		if a.kind != b.kind || a.id != b.id {
			return false
		}
		eq(a.from, b.from)
		eq(a.to, b.to)
	}
	if !ok {
		return false
	}
	return true
}

// sameTv: q is an instance of p (terms are compared by eq).
func sameTv(p, q tval, eq func(a, b sLin)) bool {
	if p.k == tTop {
		return true
	}
	if p.k != q.k || p.n != q.n || p.n2 != q.n2 || p.s != q.s || p.op != q.op || p.fn != q.fn || len(p.p) != len(q.p) || len(p.a) != len(q.a) || p.b != q.b || p.set != q.set {
		return false
	}
	switch p.k {
	case tInt, tRune, tNum, tMul, tAcc, tOff:
		eq(p.l, q.l)
		eq(p.l2, q.l2)
	}
	for i := range p.p {
		a, b := p.p[i], q.p[i]
		if a.k != b.k || a.s != b.s || a.nl != b.nl {
			return false
		}
		if a.k == 'i' {
			eq(a.a, b.a)
			eq(a.b, b.b)
		}
	}
	for i := range p.a {
		if !sameTv(p.a[i], q.a[i], eq) {
			return false
		}
	}
	return true
}

// alike gives two values the same form where that loses nothing.
func alike(p, q tval) (tval, tval) {
	// an empty piece of the input lies anywhere
	if p.k == tStr && q.k == tStr || p.k == tAddr && q.k == tAddr {
		if len(q.p) == 1 && q.p[0].k == 'i' && (len(p.p) == 0 || len(p.p) == 1 && p.p[0].k == 'i' && p.p[0].a == p.p[0].b) {
			p.p = []tPart{{k: 'i', a: q.p[0].a, b: q.p[0].a, nl: q.p[0].nl}}
		} else if len(p.p) == 1 && p.p[0].k == 'i' && (len(q.p) == 0 || len(q.p) == 1 && q.p[0].k == 'i' && q.p[0].a == q.p[0].b) {
			q.p = []tPart{{k: 'i', a: p.p[0].a, b: p.p[0].a, nl: p.p[0].nl}}
		}
	}
	if p.k == tInt && p.l == lc(0) && q.k == tNum {
		p = tval{k: tNum, n: q.n, l: q.l, l2: q.l, b: q.b}
	}
	if p.k == tNum && q.k == tNum && p.b != q.b {
		p.b, q.b = false, false
	}
	return p, q
}

// join makes s stand for itself and for what the loop was entered with before.
func (x *sRun) join(h, anc *sHead, s *sState) {
	g := anc.st
	type pr struct{ a, b sLin }
	var slots []pr
	seen := map[pr]bool{}
	eqs := func(a, b sLin) {
		if !seen[pr{a, b}] {
			seen[pr{a, b}] = true
			slots = append(slots, pr{a, b})
		}
	}
	eqs(g.pos, s.pos)
	eqs(g.cov, s.cov)
	top := map[string]bool{}
	pairs(g, s, func(w string, v ssa.Value, p, q tval) {
		p, q = alike(p, q)
		if !sameTv(p, q, eqs) {
			n := w
			if v != nil {
				n += v.Name()
			}
			top[n] = true
			if v == nil && p.k == tStr && q.k == tStr && strings.HasPrefix(w, s.top().fn.Name()) {
				if sDebug {
					fmt.Println("LOOP", w, p.str(), q.str(), s.String())
				}
				x.loopText(s, q)
			}
			if p.k == tAcc || q.k == tAcc {
				x.fail(s.top().b.Instrs[0], "a digit of a reference is not given its value")
			}
		}
	})
	fresh := s.sym()
	h.sym = fresh
	X := mkLin(0, map[int]int64{fresh: 1})
	// the first that changed leads
	lead := -1
	J := map[pr]sLin{}
	lost := map[pr]bool{}
	pure := func(l sLin) bool { return anc.sym == 0 || !l.has(anc.sym) }
	for i, c := range slots {
		if c.a == c.b && pure(c.a) {
			J[c] = c.a
			continue
		}
		d := c.b.sub(c.a)
		if lead < 0 && (d.nonneg() && !(c.a == c.b) || c.a == c.b && false) {
			lead = i
		}
	}
	if lead < 0 { // all go down
		for i, c := range slots {
			if c.a != c.b {
				lead = i
				break
			}
		}
	}
	if lead >= 0 {
		L := slots[lead]
		dl := L.b.sub(L.a)
		base := L.a
		if anc.sym != 0 {
			k := base.terms()[anc.sym]
			if k < 0 { // goes down
				base = base.subst(anc.sym, lc(0))
				J[L] = base.sub(X)
			} else {
				base = base.subst(anc.sym, lc(0))
				J[L] = base.add(X, 1)
			}
		} else if dl.nonneg() {
			J[L] = base.add(X, 1)
		} else {
			J[L] = base.sub(X)
		}
		for i, c := range slots {
			if _, ok := J[c]; ok || i == lead {
				continue
			}
			da, db := c.a.sub(L.a), c.b.sub(L.b)
			if da == db && pure(da) {
				J[c] = J[L].add(da, 1)
				continue
			}
			lost[c] = true
		}
	}
	// the text falls behind while everything else goes on at one pace
	pairs(g, s, func(w string, v ssa.Value, p, q tval) {
		if v != nil || p.k != tStr || q.k != tStr || len(p.p) != 1 || len(q.p) != 1 || p.p[0].k != 'i' || q.p[0].k != 'i' || !strings.HasPrefix(w, s.top().fn.Name()) {
			return
		}
		e := pr{p.p[0].b, q.p[0].b}
		if !lost[e] || len(lost) > 1 || e.a != e.b || lost[slots[0]] || p.p[0].a != q.p[0].a || len(top) > 0 {
			return
		}
		if d := s.pos.sub(g.pos); d.isConst() && d.c > 0 && g.pos.sub(e.a) == lc(0) {
			x.fail(s.top().b.Instrs[0], "what stands at %s is left out of the text %s", e.b, q.str())
		}
	})
	// the text would be lost: first see where this leads without joining
	if s.plain < 3 && len(lost) > 0 {
		gone := false
		pairs(g, s, func(w string, v ssa.Value, p, q tval) {
			if v == nil && p.k == tStr && q.k == tStr && strings.HasPrefix(w, s.top().fn.Name()) {
				p, q = alike(p, q)
				sameTv(p, q, func(a, b sLin) { gone = gone || lost[pr{a, b}] })
			}
		})
		if gone {
			s.plain++
			h.sym = 0
			return
		}
	}
	get := func(a, b sLin) (sLin, bool) {
		v, ok := J[pr{a, b}]
		return v, ok && !lost[pr{a, b}]
	}
	// facts
	nf := map[sLin]*Set{}
	for l, u := range g.facts {
		if v := s.facts[l]; v != nil && pure(l) {
			if w := widenFact(u, v, h.n); w != nil {
				nf[l] = w
			}
		}
	}
	for c, j := range J {
		if c.a == c.b && j == c.a {
			continue
		}
		for k := int64(-3); k <= 3; k++ {
			u, v := g.facts[c.a.plus(k)], s.facts[c.b.plus(k)]
			if u != nil && v != nil {
				w := widenFact(u, v, h.n)
				if w == nil {
					continue
				}
				if o := nf[j.plus(k)]; o != nil {
					w = w.Inter(o)
				}
				nf[j.plus(k)] = w
			}
		}
	}
	rebuild := func(p, q tval) tval {
		p, q = alike(p, q)
		var l []sLin
		bad := false
		if !sameTv(p, q, func(a, b sLin) {
			v, ok := get(a, b)
			if !ok {
				bad = true
			}
			l = append(l, v)
		}) || bad {
			return tval{}
		}
		i := 0
		return q.refill(&i, l)
	}
	ns := s
	for i, f := range ns.frames {
		ga := g.frames[i]
		for v, q := range f.env {
			if p, ok := ga.env[v]; ok {
				f.env[v] = rebuild(p, q)
			} else {
				f.env[v] = tval{}
			}
		}
	}
	for k, q := range ns.mem {
		if p, ok := g.mem[k]; ok {
			ns.mem[k] = rebuild(p, q)
		} else if strings.HasPrefix(k, "$") || strings.HasPrefix(k, "@") {
			delete(ns.mem, k)
		} else {
			ns.mem[k] = tval{}
		}
	}
	np, ok1 := get(g.pos, s.pos)
	nc, ok2 := get(g.cov, s.cov)
	if !ok1 {
		x.giveUp(s.top().b.Instrs[0], "the place in the input is lost in a loop")
		return
	}
	ns.pos = np
	if ok2 {
		ns.cov = nc
	} else {
		ns.cov = lc(0)
	}
	ns.facts = nf
	var sp []tSpan
	for i := range ns.spans {
		if i < len(g.spans) && g.spans[i] == ns.spans[i] {
			sp = append(sp, ns.spans[i])
		} else {
			break
		}
	}
	ns.spans = sp
	ns.vague = ns.vague || g.vague
	for k, v := range ns.conds {
		if w, ok := g.conds[k]; !ok || w != v {
			delete(ns.conds, k)
		}
	}
	for k := range ns.objs {
		u := g.objs[k]
		if u == nil {
			delete(ns.objs, k)
		} else {
			ns.objs[k] = u.Union(ns.objs[k])
		}
	}
	for k := range ns.done {
		if !g.done[k] {
			delete(ns.done, k)
		}
	}
}

// refill puts new terms in place of the old ones, in the order of sameTv.
func (q tval) refill(i *int, l []sLin) tval {
	take := func() sLin { v := l[*i]; *i++; return v }
	switch q.k {
	case tInt, tRune, tNum, tMul, tAcc, tOff:
		q.l = take()
		q.l2 = take()
	}
	if q.p != nil {
		np := append([]tPart(nil), q.p...)
		for k := range np {
			if np[k].k == 'i' {
				np[k].a = take()
				np[k].b = take()
			}
		}
		q.p = np
	}
	if q.a != nil {
		na := append([]tval(nil), q.a...)
		for k := range na {
			na[k] = na[k].refill(i, l)
		}
		q.a = na
	}
	return q
}

// widenFact: what may stand there in either case; growing sets are given up soon.
func widenFact(u, v *Set, n int) *Set {
	w := u.Union(v)
	if n > 1 && !w.SubsetOf(u) {
		if w.Has(0xFFFD) {
			return nil
		}
		return realRune
	}
	return w
}

// loopText: what one turn of a loop has added does not go on where the text ended.
func (x *sRun) loopText(s *sState, q tval) {
	in := s.top().b.Instrs[0]
	for _, e := range q.p {
		if e.k == 'v' && !x.sp.att {
			x.giveUp(in, "the text contains %s", partsStr(q.p))
			return
		}
	}
	x.fail(in, "the text built in the loop is not a copy of the input: %s", partsStr(q.p))
}
