package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C02", "other", c02rule, checkC02,
		"the stack of inputs and the stacks of open elements and namespaces are not empty where the parser relies on it",
		"values kept in maps and slices of the library are not nil",
		"library functions return a result that is not nil when their error is nil",
		"the user data passed to the handlers of the tree builder is the parser context; no typed nil pointers in interfaces",
		"an obligation reported as undecided is neither shown nor refuted")
}

const c02rule = "in the functions a parse reaches, every index, slice bound, length and divisor is within its range, no nil pointer, function or map is used, every type assertion succeeds and no panic call is reached; shown by linear facts over SSA (dominating conditions, loop invariants, callee summaries, preconditions asked of all callers); reported as violated only when all values involved are understood"

// ---- summaries ----

type bTerm struct {
	res  bool
	idx  int
	kind int
	coef int64
}

// bSumFact: an inequality between results and parameters of a function that
// holds when it returns in the given way ("" always, "nil" without an error,
// "true:i" and "false:i" with that boolean result).
type bSumFact struct {
	class string
	terms []bTerm
	k     int64
}

func (f bSumFact) String() string { return fmt.Sprintf("%s %v %d", f.class, f.terms, f.k) }

type bSummary struct{ facts []bSumFact }

type boundsCtx struct {
	p    *Program
	bs   map[*ssa.Function]*bounds
	sums map[*ssa.Function]*bSummary
	busy map[*ssa.Function]bool
}

func (bc *boundsCtx) of(f *ssa.Function) *bounds {
	b := bc.bs[f]
	if b == nil {
		b = newBounds(bc.p, f)
		b.sums = bc.summary
		bc.bs[f] = b
		b.invariants()
	}
	return b
}

// spilledAll: the value returned, if it was stored in a named result before.
func (b *bounds) returned(ret *ssa.Return, i int) ssa.Value { return spilled(ret.Results[i], ret) }

func (bc *boundsCtx) summary(g *ssa.Function) *bSummary {
	if s := bc.sums[g]; s != nil {
		return s
	}
	if bc.busy[g] || len(g.Blocks) == 0 {
		return &bSummary{}
	}
	bc.busy[g] = true
	defer delete(bc.busy, g)
	s := &bSummary{}
	res := g.Signature.Results()
	var cands []bSumFact
	cand := func(k int64, ts ...bTerm) { cands = append(cands, bSumFact{terms: ts, k: k}) }
	isSeq := func(t types.Type) bool { return isStr(t.Underlying()) || isSlice(t) }
	errIdx := -1
	var bools []int
	for i := 0; i < res.Len(); i++ {
		t := res.At(i).Type()
		me := bTerm{true, i, aInt, 1}
		not := bTerm{true, i, aInt, -1}
		switch {
		case wideInt(t):
			cand(-1, me)
			cand(0, me)
			cand(1, me)
			for j, pa := range g.Params {
				if isSeq(pa.Type()) {
					cand(0, bTerm{false, j, aLen, 1}, not)
					cand(-1, bTerm{false, j, aLen, 1}, not)
					cand(0, bTerm{false, j, aLen, -1}, me)
				}
				if wideInt(pa.Type()) {
					cand(0, bTerm{false, j, aInt, 1}, not)
					cand(0, bTerm{false, j, aInt, -1}, me)
				}
			}
			for j := 0; j < res.Len(); j++ {
				if isSeq(res.At(j).Type()) {
					cand(0, bTerm{true, j, aLen, 1}, not)
					cand(0, bTerm{true, j, aLen, -1}, me)
				}
			}
		case isSeq(t):
			me.kind, not.kind = aLen, aLen
			cand(-1, me)
			cand(-2, me)
			for j, pa := range g.Params {
				if isSeq(pa.Type()) {
					cand(0, bTerm{false, j, aLen, 1}, not)
					cand(0, bTerm{false, j, aLen, -1}, me)
				}
				if wideInt(pa.Type()) {
					cand(0, bTerm{false, j, aInt, 1}, not)
					cand(0, bTerm{false, j, aInt, -1}, me)
				}
			}
		case isErrorType(t):
			errIdx = i
			cand(-1, bTerm{true, i, aNN, 1})
		}
		if nilable(t) && !isErrorType(t) {
			cand(-1, bTerm{true, i, aNN, 1})
			for j, pa := range g.Params {
				if nilable(pa.Type()) {
					cand(0, bTerm{true, i, aNN, 1}, bTerm{false, j, aNN, -1})
				}
			}
			for j := 0; j < res.Len(); j++ {
				if isErrorType(res.At(j).Type()) {
					cand(-1, bTerm{true, i, aNN, 1}, bTerm{true, j, aNN, 1})
				}
				if bt, ok := res.At(j).Type().Underlying().(*types.Basic); ok && bt.Kind() == types.Bool {
					cand(0, bTerm{true, i, aNN, 1}, bTerm{true, j, aInt, -1})
					cand(-1, bTerm{true, i, aNN, 1}, bTerm{true, j, aInt, 1})
				}
			}
		}
		if bt, ok := t.Underlying().(*types.Basic); ok && bt.Kind() == types.Bool {
			bools = append(bools, i)
		}
	}
	for _, i := range bools {
		for j, pa := range g.Params {
			if isSeq(pa.Type()) {
				for k := int64(1); k <= 3; k++ {
					cand(-k, bTerm{false, j, aLen, 1})
				}
			}
			if nilable(pa.Type()) {
				cand(-1, bTerm{false, j, aNN, 1})
			}
			if bt, ok := pa.Type().Underlying().(*types.Basic); ok && bt.Kind() == types.Bool {
				cand(-1, bTerm{false, j, aInt, 1})
				cand(0, bTerm{false, j, aInt, -1})
			}
		}
		_ = i
	}
	if len(cands) == 0 || len(g.Blocks) > 400 {
		bc.sums[g] = s
		return s
	}
	b := bc.of(g)
	var rets []*ssa.Return
	for _, blk := range g.Blocks {
		if blk == g.Recover {
			continue
		}
		if r, ok := blk.Instrs[len(blk.Instrs)-1].(*ssa.Return); ok {
			rets = append(rets, r)
		}
	}
	goal := func(c bSumFact, vals func(i int) ssa.Value) lin {
		l := lconst(c.k)
		for _, t := range c.terms {
			v := ssa.Value(nil)
			if t.res {
				v = vals(t.idx)
			} else {
				v = g.Params[t.idx]
			}
			l = l.add(b.get(v, t.kind), t.coef)
		}
		return l
	}
	holds := func(c bSumFact, class string, want int) bool {
		for _, r := range rets {
			blk := r.Block()
			var extra []bFact
			switch class {
			case "nil":
				e := b.returned(r, errIdx)
				if errNonNil(e, blk) {
					continue
				}
				if isNilConst(e) {
					break
				}
				extra = b.okFacts(e, "nil")
			case "true", "false":
				v := b.returned(r, want)
				if cv, ok := v.(*ssa.Const); ok && cv.Value != nil {
					if cv.Value.String() != class {
						continue
					}
				} else {
					extra = b.condFacts(v, class == "true", 0)
				}
			}
			if !b.prove(goal(c, func(i int) ssa.Value { return b.returned(r, i) }), blk, extra) {
				return false
			}
		}
		return true
	}
	for _, c := range cands {
		if len(rets) > 0 && holds(c, "", 0) {
			s.facts = append(s.facts, c)
			continue
		}
		if errIdx >= 0 {
			if holds(c, "nil", 0) {
				c.class = "nil"
				s.facts = append(s.facts, c)
				continue
			}
		}
		for _, i := range bools {
			for _, w := range []string{"true", "false"} {
				if holds(c, w, i) {
					c2 := c
					c2.class = fmt.Sprintf("%s:%d", w, i)
					s.facts = append(s.facts, c2)
				}
			}
		}
	}
	bc.sums[g] = s
	return s
}

// sumFacts: what the summaries of all the functions a call can reach agree on.
func (b *bounds) sumFacts(c *ssa.Call, class string) (res []bSumFact) {
	if b.sums == nil {
		return nil
	}
	cs := b.p.callees(b.f, c)
	if len(cs) == 0 || len(cs) > 6 {
		return nil
	}
	count := map[string]int{}
	first := map[string]bSumFact{}
	for _, g := range cs {
		if !b.p.inModule(g) && (g.Synthetic == "" || len(g.Blocks) == 0) {
			return nil
		}
		if c.Call.StaticCallee() != nil && c.Call.StaticCallee() != g {
			return nil // a function value handed to a library
		}
		for _, f := range b.sums(g).facts {
			if f.class != class {
				continue
			}
			// parameters of a method called through an interface: the receiver first
			if count[f.String()] == 0 {
				first[f.String()] = f
			}
			count[f.String()]++
		}
	}
	for _, k := range sortedKeys(first) {
		if count[k] == len(cs) {
			res = append(res, first[k])
		}
	}
	return
}

// argOf: the argument for the i-th parameter.
func argOf(cc *ssa.CallCommon, i int) ssa.Value {
	if cc.IsInvoke() {
		if i == 0 {
			return cc.Value
		}
		i--
	}
	if i < len(cc.Args) {
		return cc.Args[i]
	}
	return nil
}

func resultOf(c *ssa.Call, i int) ssa.Value {
	if _, ok := c.Type().(*types.Tuple); !ok {
		if i == 0 {
			return c
		}
		return nil
	}
	for _, u := range *c.Referrers() {
		if e, ok := u.(*ssa.Extract); ok && e.Index == i {
			return e
		}
	}
	return nil
}

func (b *bounds) instantiate(c *ssa.Call, f bSumFact) (lin, bool) {
	l := lconst(f.k)
	for _, t := range f.terms {
		var v ssa.Value
		if t.res {
			v = resultOf(c, t.idx)
		} else {
			v = argOf(&c.Call, t.idx)
		}
		if v == nil {
			return l, false
		}
		l = l.add(b.get(v, t.kind), t.coef)
	}
	return l, true
}

func (b *bounds) callSum(c *ssa.Call, fs *[]bFact) {
	for _, f := range b.sumFacts(c, "") {
		if l, ok := b.instantiate(c, f); ok {
			*fs = append(*fs, bFact{{l}})
		}
	}
}

// okFacts: what is known when the error of a call is nil, or its boolean
// result true or false.
func (b *bounds) okFacts(v ssa.Value, class string) (fs []bFact) {
	var c *ssa.Call
	idx := 0
	switch x := v.(type) {
	case *ssa.Extract:
		c, _ = x.Tuple.(*ssa.Call)
		idx = x.Index
	case *ssa.Call:
		c = x
	}
	if c == nil {
		return nil
	}
	if class != "nil" {
		class = fmt.Sprintf("%s:%d", class, idx)
	}
	for _, f := range b.sumFacts(c, class) {
		if l, ok := b.instantiate(c, f); ok {
			fs = append(fs, bFact{{l}})
		}
	}
	return
}

// validRune: the value is a character that can be encoded, at the point of use.
func (p *Program) validRune(v ssa.Value, at ssa.Instruction) bool {
	return p.validAt(v, at.Block(), 0)
}

func (p *Program) validAt(v ssa.Value, blk *ssa.BasicBlock, depth int) bool {
	if depth > 6 {
		return false
	}
	if c, ok := v.(*ssa.Const); ok {
		n := cint(c)
		return n >= 0 && n <= 0x10FFFF && (n < 0xD800 || n > 0xDFFF)
	}
	root := func(v ssa.Value) ssa.Value {
		for {
			switch x := v.(type) {
			case *ssa.ChangeType:
				v = x.X
				continue
			case *ssa.Convert:
				v = x.X
				continue
			}
			return v
		}
	}
	for d := blk; d != nil && d.Idom() != nil; d = d.Idom() {
		if len(d.Preds) != 1 {
			continue
		}
		pr := d.Preds[0]
		iff, ok := pr.Instrs[len(pr.Instrs)-1].(*ssa.If)
		if !ok || pr.Succs[0] == pr.Succs[1] {
			continue
		}
		c, ok := iff.Cond.(*ssa.Call)
		want := pr.Succs[0] == d
		if u, isNot := iff.Cond.(*ssa.UnOp); isNot && u.Op == token.NOT {
			c, ok = u.X.(*ssa.Call)
			want = !want
		}
		if !ok || !want || len(c.Call.Args) == 0 {
			continue
		}
		g := c.Call.StaticCallee()
		if g == nil || root(c.Call.Args[len(c.Call.Args)-1]) != root(v) {
			continue
		}
		if p.inModule(g) {
			if s := p.predSet(g); s != nil && s.SubsetOf(anyRune) {
				return true
			}
		} else if stdName(g) == "unicode/utf8.ValidRune" {
			return true
		}
	}
	switch x := v.(type) {
	case *ssa.ChangeType:
		return p.validAt(x.X, blk, depth+1)
	case *ssa.Convert:
		if f, ok := x.X.Type().Underlying().(*types.Basic); ok && f.Kind() == types.Uint8 {
			return true
		}
		return p.validAt(x.X, blk, depth+1)
	case *ssa.Phi:
		for i, e := range x.Edges {
			if e != v && !p.validAt(e, x.Block().Preds[i], depth+1) {
				return false
			}
		}
		return true
	case *ssa.Extract:
		switch t := x.Tuple.(type) {
		case *ssa.Next:
			return t.IsString && x.Index == 2
		case *ssa.Call:
			g := t.Call.StaticCallee()
			if g == nil {
				return false
			}
			if !p.inModule(g) {
				switch stdName(g) {
				case "unicode/utf8.DecodeRune", "unicode/utf8.DecodeRuneInString":
					return x.Index == 0
				}
				return false
			}
			// valid whenever no error is returned
			res := g.Signature.Results()
			if !isErrorType(res.At(res.Len() - 1).Type()) {
				return false
			}
			n := 0
			for _, b := range g.Blocks {
				if b == g.Recover {
					continue
				}
				r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
				if !ok {
					continue
				}
				e := spilled(r.Results[res.Len()-1], r)
				if errNonNil(e, b) {
					continue
				}
				if !p.validAt(spilled(r.Results[x.Index], r), b, depth+1) {
					return false
				}
				n++
			}
			// and the error was looked at
			if n == 0 {
				return false
			}
			if ev := resultOf(t, res.Len()-1); ev != nil {
				for d := blk; d != nil && d.Idom() != nil; d = d.Idom() {
					pr := d.Idom()
					iff, ok := pr.Instrs[len(pr.Instrs)-1].(*ssa.If)
					if !ok || len(d.Preds) != 1 {
						continue
					}
					bo, ok := iff.Cond.(*ssa.BinOp)
					if ok && (bo.X == ev && isNilConst(bo.Y)) && (bo.Op == token.EQL) == (pr.Succs[0] == d) {
						return true
					}
				}
			}
		}
	}
	return false
}

// ---- obligations ----

type bOblig struct {
	in   ssa.Instruction
	what string
	goal lin
	text string
}

// obligations: what must hold for the instructions of f not to panic.
func (b *bounds) obligations() (res []bOblig) {
	add := func(in ssa.Instruction, what string, goal lin) {
		res = append(res, bOblig{in: in, what: what, goal: goal})
	}
	index := func(in ssa.Instruction, x, i ssa.Value) {
		e := b.of(i)
		n := b.length(x)
		if len(e.c) == 0 && len(n.c) == 0 && e.k >= 0 && e.k < n.k {
			return
		}
		add(in, "index not negative", e)
		add(in, "index within the length", n.add(e, -1).plus(-1))
	}
	for _, blk := range b.f.Blocks {
		if blk == b.f.Recover {
			continue
		}
		for _, in := range blk.Instrs {
			switch x := in.(type) {
			case *ssa.IndexAddr:
				index(in, x.X, x.Index)
			case *ssa.Index:
				index(in, x.X, x.Index)
			case *ssa.Lookup:
				if isStr(x.X.Type().Underlying()) {
					index(in, x.X, x.Index)
				}
			case *ssa.Slice:
				if x.Low == nil && x.High == nil && x.Max == nil {
					continue
				}
				lo, hi := lconst(0), b.length(x.X)
				if x.Low != nil {
					lo = b.of(x.Low)
					add(in, "start of the slice not negative", lo)
				}
				if x.High != nil {
					hi = b.of(x.High)
					if isStr(x.X.Type().Underlying()) {
						add(in, "end of the slice within the length", b.length(x.X).add(hi, -1))
					} else {
						add(in, "end of the slice within the capacity", b.length(x.X).add(hi, -1))
					}
				}
				add(in, "start of the slice not after its end", hi.add(lo, -1))
			case *ssa.BinOp:
				if x.Op != token.QUO && x.Op != token.REM || !wideInt(x.Type()) {
					continue
				}
				if cv, ok := x.Y.(*ssa.Const); ok && cv.Value != nil && cint(cv) != 0 {
					continue
				}
				add(in, "divisor not zero", b.of(x.Y).plus(-1))
			case *ssa.MakeSlice:
				if _, ok := x.Len.(*ssa.Const); !ok {
					add(in, "length not negative", b.of(x.Len))
				}
				if x.Cap != x.Len {
					if _, ok := x.Cap.(*ssa.Const); !ok || true {
						add(in, "capacity not below the length", b.of(x.Cap).add(b.of(x.Len), -1))
					}
				}
			}
		}
	}
	return
}

type bCheck struct {
	p    *Program
	r    *Report
	bc   *boundsCtx
	call map[*ssa.Function][]*cgEdge
	root map[*ssa.Function]bool
	memo map[string]*bAnswer
	why  string
	mod  []*ssa.Function // all functions of the library
	// the field whose value may be nil, when that is all that is open
	field   string
	guarded map[string]int // dereferences of a field that are shown to be safe
	open    []openDeref
}

// bAnswer: 0 shown, 1 not, 2 not decided, and why.
type bAnswer struct {
	st         int
	why, field string
}

type openDeref struct{ field, key, pos, text string }

// obligation that a bound holds: shown here, or asked of all callers.
func (c *bCheck) show(f *ssa.Function, goal lin, blk *ssa.BasicBlock, depth int) (ok bool, unclear bool) {
	b := c.bc.of(f)
	// a question that is being asked already is answered by its other grounds
	key := fmt.Sprintf("%p %d %s", f, blk.Index, goal.str())
	if m := c.memo[key]; m != nil {
		if m.st != 0 {
			c.why, c.field = m.why, m.field
		}
		return m.st == 0, m.st == 2
	}
	m := &bAnswer{}
	c.memo[key] = m
	defer func() {
		if !ok {
			m.st = 1
		}
		if unclear {
			m.st = 2
		}
		m.why, m.field = c.why, c.field
	}()
	if b.prove(goal, blk, nil) {
		return true, false
	}
	if len(goal.c) == 1 && goal.k == -1 {
		for id := range goal.c {
			if ld, isLd := b.vars[id].key.v.(*ssa.UnOp); isLd && b.vars[id].key.kind == aNN && b.setBefore(ld) {
				return true, false
			}
		}
	}
	if len(goal.c) == 1 && goal.k == -1 {
		for id, n := range goal.c {
			if x := b.vars[id]; n == 1 && x.key.kind == aLen {
				if buf, at := bufferOf(x.key.v); buf != nil {
					full, sure := nonEmpty(buf, at, blk)
					if full {
						return true, false
					}
					if sure {
						c.why = "there is a way on which nothing is written to the buffer whose content this is"
						return false, false
					}
				}
			}
		}
	}
	if os.Getenv("BDBG") != "" {
		fmt.Printf("  not shown in %s: %s ≥ 0\n", f.Name(), b.lstr(goal))
		for _, x := range b.at(blk) {
			fmt.Printf("     fact %s\n", b.fstr(x))
		}
		for id := range goal.c {
			for _, x := range b.about(id) {
				fmt.Printf("     about %s\n", b.fstr(x))
			}
		}
	}
	if depth < 60 {
		if r, done := c.outer(b, goal, depth); done {
			return r, !r
		}
	}
	if depth < 60 && c.liftable(f) {
		tried := map[string]bool{}
		failed, uncl := "", false
		for _, pre := range c.preconditions(b, goal, blk) {
			k := bSumFact{terms: pre.terms, k: pre.k}.String()
			if tried[k] {
				continue
			}
			tried[k] = true
			l := lconst(pre.k)
			for _, t := range pre.terms {
				l = l.add(b.get(f.Params[t.idx], t.kind), t.coef)
			}
			if !b.prove(goal, blk, []bFact{{{l}}}) {
				continue
			}
			all, unc := true, false
			for _, e := range c.call[f] {
				o, u := c.atCall(e, pre, depth+1)
				if !o {
					all = false
					unc = unc || u
				}
			}
			if all {
				return true, false
			}
			uncl = uncl || unc
			if failed == "" {
				failed = "the callers do not establish " + c.preText(f, pre)
			}
		}
		if failed != "" {
			if !uncl && c.chosen(b, goal, blk) {
				c.why, uncl = "another parameter decides whether this point is reached", true
			}
			if !uncl {
				c.why = failed
			}
			return false, uncl
		}
	}
	return false, c.unclear(b, goal, blk)
}

// setBefore: on every way to the load something that is not nil was stored in
// the same place, or the place was found not to be nil, and nothing has
// changed it since.
func (b *bounds) setBefore(ld *ssa.UnOp) bool {
	fa, ok := ld.X.(*ssa.FieldAddr)
	if !ok || ld.Op != token.MUL {
		return false
	}
	same := func(a ssa.Value) bool {
		o, ok := a.(*ssa.FieldAddr)
		return ok && o.Field == fa.Field && types.Identical(o.X.Type(), fa.X.Type()) && (b.p.sameLoad(o.X) == b.p.sameLoad(fa.X) || sameAddr2(o.X, fa.X))
	}
	seen := map[*ssa.BasicBlock]bool{}
	var walk func(blk *ssa.BasicBlock, i int) bool
	walk = func(blk *ssa.BasicBlock, i int) bool {
		for i--; i >= 0; i-- {
			switch x := blk.Instrs[i].(type) {
			case *ssa.Store:
				if same(x.Addr) {
					return b.prove(b.nn(x.Val).plus(-1), blk, nil)
				}
				if mayAliasAddr(x.Addr, fa) {
					return false
				}
			case *ssa.UnOp:
				if x != ld && x.Op == token.MUL && same(x.X) && b.prove(b.nn(x).plus(-1), blk, nil) {
					return true
				}
			case ssa.CallInstruction:
				if b.p.mayStore(x, fa) {
					return false
				}
			}
		}
		if len(blk.Preds) == 0 {
			return false
		}
		for _, pr := range blk.Preds {
			if b.foundSet(pr, blk, same) {
				continue
			}
			if seen[pr] {
				continue
			}
			seen[pr] = true
			if !walk(pr, len(pr.Instrs)) {
				return false
			}
		}
		return true
	}
	return walk(ld.Block(), instrIndex(ld))
}

// foundSet: the way from pr to blk is taken only if the place is not nil.
func (b *bounds) foundSet(pr, blk *ssa.BasicBlock, same func(ssa.Value) bool) bool {
	iff, ok := pr.Instrs[len(pr.Instrs)-1].(*ssa.If)
	if !ok || pr.Succs[0] == pr.Succs[1] {
		return false
	}
	bo, ok := iff.Cond.(*ssa.BinOp)
	if !ok || bo.Op != token.EQL && bo.Op != token.NEQ || !isNilConst(bo.Y) {
		return false
	}
	ld, ok := bo.X.(*ssa.UnOp)
	if !ok || ld.Op != token.MUL || ld.Block() != pr || !same(ld.X) {
		return false
	}
	for _, in := range pr.Instrs[instrIndex(ld):] {
		switch x := in.(type) {
		case *ssa.Store:
			if mayAliasAddr(x.Addr, ld.X) {
				return false
			}
		case ssa.CallInstruction:
			if b.p.mayStore(x, ld.X) {
				return false
			}
		}
	}
	return (bo.Op == token.NEQ) == (pr.Succs[0] == blk)
}

// outer: the question is about a variable of the enclosing function.
func (c *bCheck) outer(b *bounds, goal lin, depth int) (bool, bool) {
	if len(goal.c) != 1 {
		return false, false
	}
	for id, n := range goal.c {
		x := b.vars[id]
		ld, ok := x.key.v.(*ssa.UnOp)
		if !ok || ld.Op != token.MUL || n != 1 {
			return false, false
		}
		fv, ok := ld.X.(*ssa.FreeVar)
		if !ok {
			return false, false
		}
		mc, v := binding(fv)
		al, ok := v.(*ssa.Alloc)
		if !ok {
			return false, false
		}
		st := storedOnce(al)
		if st == nil {
			return false, false
		}
		ob := c.bc.of(mc.Parent())
		r, _ := c.show(mc.Parent(), ob.get(st.Val, x.key.kind).plus(goal.k), mc.Block(), depth+1)
		return r, r
	}
	return false, false
}

func (c *bCheck) preText(f *ssa.Function, pre bSumFact) string {
	var s []string
	for _, t := range pre.terms {
		n := f.Params[t.idx].Name()
		n = kindName(n, t.kind)
		s = append(s, fmt.Sprintf("%+d*%s", t.coef, n))
	}
	return fmt.Sprintf("%s%+d ≥ 0", strings.Join(s, " "), pre.k)
}

// liftable: all the calls of the function that a parse can make are known.
func (c *bCheck) liftable(f *ssa.Function) bool {
	if f.Parent() != nil || c.root[f] || len(c.call[f]) == 0 {
		return false
	}
	for _, g := range c.p.addressTaken() {
		if g == f {
			return false
		}
	}
	return true
}

// preconditions that might make the goal follow, the weakest first.
func (c *bCheck) preconditions(b *bounds, goal lin, blk *ssa.BasicBlock) (res []bSumFact) {
	f := b.f
	// the goal itself, when it is about parameters only
	direct := bSumFact{k: goal.k}
	ok := len(goal.c) > 0
	for id, n := range goal.c {
		x := b.vars[id]
		found := false
		for i, pa := range f.Params {
			if x.key.v == pa {
				direct.terms = append(direct.terms, bTerm{false, i, x.key.kind, n})
				found = true
			}
		}
		ok = ok && found
	}
	sort.Slice(direct.terms, func(i, j int) bool { return direct.terms[i].idx < direct.terms[j].idx })
	if ok {
		res = append(res, direct)
	}
	for i, pa := range f.Params {
		seq := isStr(pa.Type().Underlying()) || isSlice(pa.Type())
		if goalNN(b, goal) {
			if nilable(pa.Type()) {
				res = append(res, bSumFact{terms: []bTerm{{false, i, aNN, 1}}, k: -1})
				for j, q := range f.Params {
					if bt, ok := q.Type().Underlying().(*types.Basic); ok && bt.Kind() == types.Bool {
						res = append(res, bSumFact{terms: []bTerm{{false, i, aNN, 1}, {false, j, aInt, -1}}, k: 0})
						res = append(res, bSumFact{terms: []bTerm{{false, i, aNN, 1}, {false, j, aInt, 1}}, k: -1})
					}
				}
			}
			continue
		}
		if seq {
			for k := int64(1); k <= 3; k++ {
				res = append(res, bSumFact{terms: []bTerm{{false, i, aLen, 1}}, k: -k})
			}
		}
		if wideInt(pa.Type()) {
			for k := int64(0); k <= 1; k++ {
				res = append(res, bSumFact{terms: []bTerm{{false, i, aInt, 1}}, k: -k})
			}
			for j, q := range f.Params {
				if isStr(q.Type().Underlying()) || isSlice(q.Type()) {
					res = append(res, bSumFact{terms: []bTerm{{false, j, aLen, 1}, {false, i, aInt, -1}}, k: 0})
					res = append(res, bSumFact{terms: []bTerm{{false, j, aLen, 1}, {false, i, aInt, -1}}, k: -1})
				}
			}
		}
	}
	return
}

// chosen: a parameter the goal is not about is tested on the way to blk.
func (c *bCheck) chosen(b *bounds, goal lin, blk *ssa.BasicBlock) bool {
	about := map[ssa.Value]bool{}
	for id := range goal.c {
		about[b.vars[id].key.v] = true
	}
	for d := blk; d != nil; d = d.Idom() {
		if len(d.Preds) != 1 {
			continue
		}
		pr := d.Preds[0]
		iff, ok := pr.Instrs[len(pr.Instrs)-1].(*ssa.If)
		if !ok {
			continue
		}
		vs := []ssa.Value{iff.Cond}
		if bo, ok := iff.Cond.(*ssa.BinOp); ok {
			vs = []ssa.Value{bo.X, bo.Y}
		}
		for _, v := range vs {
			if pa, ok := v.(*ssa.Parameter); ok && !about[pa] && isBoolOrErr(pa.Type()) {
				return true
			}
		}
	}
	return false
}

func isBoolOrErr(t types.Type) bool {
	bt, ok := t.Underlying().(*types.Basic)
	return ok && bt.Info()&(types.IsBoolean|types.IsInteger) != 0 || isErrorType(t)
}

func goalNN(b *bounds, goal lin) bool {
	for id := range goal.c {
		if b.vars[id].key.kind == aNN {
			return true
		}
	}
	return false
}

func (c *bCheck) atCall(e *cgEdge, pre bSumFact, depth int) (bool, bool) {
	if c.dead(e.site.Block()) {
		return true, false
	}
	if e.site.Common().IsInvoke() && len(pre.terms) == 1 && pre.terms[0].idx == 0 && pre.terms[0].kind == aNN {
		// that the interface is not nil is asked at the call
		return true, false
	}
	b := c.bc.of(e.from)
	l := lconst(pre.k)
	for _, t := range pre.terms {
		v := argOf(e.site.Common(), t.idx)
		if v == nil {
			return false, true
		}
		l = l.add(b.get(v, t.kind), t.coef)
	}
	return c.show(e.from, l, e.site.Block(), depth)
}

func (c *bCheck) dead(blk *ssa.BasicBlock) bool { return blk == blk.Parent().Recover }

func (b *bounds) lstr(l lin) string {
	var ids []int
	for id := range l.c {
		ids = append(ids, id)
	}
	sort.Ints(ids)
	var s []string
	for _, id := range ids {
		n := b.vars[id].key.v.Name()
		n = kindName(n, b.vars[id].key.kind)
		s = append(s, fmt.Sprintf("%+d*%s", l.c[id], n))
	}
	return strings.Join(append(s, fmt.Sprintf("%+d", l.k)), " ")
}

func kindName(n string, kind int) string {
	switch kind {
	case aNE:
		return "notempty(" + n + ")"
	case aLen:
		return "len(" + n + ")"
	case aNN:
		return "notnil(" + n + ")"
	}
	return n
}

func (b *bounds) fstr(f bFact) string {
	var alt []string
	for _, c := range f {
		var s []string
		for _, l := range c {
			s = append(s, b.lstr(l)+"≥0")
		}
		alt = append(alt, strings.Join(s, " && "))
	}
	return strings.Join(alt, " || ")
}

// unclear: the goal is about values this analysis does not understand, or a
// condition on the way that it cannot use is about them.
func (c *bCheck) unclear(b *bounds, goal lin, blk *ssa.BasicBlock) bool {
	roots := map[ssa.Value]bool{}
	for id := range goal.c {
		x := b.vars[id]
		if !c.understood(b, x.key, map[bKey]bool{}, roots) {
			c.field = ""
			if fa := loadedField(x.key.v); fa != nil && x.key.kind == aNN && len(goal.c) == 1 && !c.consulted(b, fa, blk) {
				if b.f.Parent() == nil {
					c.field = fieldGroup(fa)
				}
			}
			c.why = "the value of " + x.key.v.Name() + " is not followed"
			return true
		}
	}
	for d := blk; d != nil; d = d.Idom() {
		for _, pr := range d.Preds {
			iff, ok := pr.Instrs[len(pr.Instrs)-1].(*ssa.If)
			if !ok {
				continue
			}
			if asks(iff.Cond, roots, 0, map[ssa.Value]bool{}) {
				c.why = "a function is asked about it on the way"
				return true
			}
			if len(b.condFacts(iff.Cond, true, 0)) > 0 || len(b.condFacts(iff.Cond, false, 0)) > 0 {
				continue
			}
			if mentions(iff.Cond, roots, 0, map[ssa.Value]bool{}) {
				c.why = "a condition on the way is not understood"
				return true
			}
		}
	}
	return false
}

func (c *bCheck) understood(b *bounds, k bKey, seen map[bKey]bool, roots map[ssa.Value]bool) bool {
	if seen[k] {
		return true
	}
	seen[k] = true
	roots[k.v] = true
	if k.kind == aNN {
		return c.understoodNN(b, k, seen, roots)
	}
	switch x := k.v.(type) {
	case *ssa.Parameter:
		return c.root[x.Parent()] || c.liftable(x.Parent())
	case *ssa.Const:
		return true
	case *ssa.Phi:
		if k.kind == aInt && b.loops[x.Block()] != nil && !compared(x) {
			return false // a counter that is kept in step with something else
		}
		for _, e := range x.Edges {
			l := b.get(e, k.kind)
			for id := range l.c {
				if !c.understood(b, b.vars[id].key, seen, roots) {
					return false
				}
			}
		}
		return true
	case *ssa.BinOp:
		return x.Op == token.REM || x.Op == token.QUO || x.Op == token.AND
	case *ssa.Call:
		return c.modelled(b, x, k)
	case *ssa.Extract:
		if cl, ok := x.Tuple.(*ssa.Call); ok {
			return c.modelled(b, cl, k)
		}
		if _, ok := x.Tuple.(*ssa.Next); ok {
			return true
		}
	}
	return false
}

// understoodNN: it can be told where the value comes from, and nil is among
// the possibilities.
func (c *bCheck) understoodNN(b *bounds, k bKey, seen map[bKey]bool, roots map[ssa.Value]bool) bool {
	switch x := k.v.(type) {
	case *ssa.Parameter:
		return c.root[x.Parent()] || c.liftable(x.Parent())
	case *ssa.Phi:
		if b.loops[x.Block()] != nil {
			return false // whether the loop is entered is not known
		}
		for _, e := range x.Edges {
			l := b.nn(e)
			for id := range l.c {
				if !c.understood(b, b.vars[id].key, seen, roots) {
					return false
				}
			}
		}
		return true
	case *ssa.Call:
		return c.mayNil(b, x, 0)
	case *ssa.Extract:
		switch t := x.Tuple.(type) {
		case *ssa.Call:
			return c.mayNil(b, t, x.Index)
		case *ssa.Lookup, *ssa.TypeAssert:
			// the code looks at whether there is one
			return x.Index == 0 && len(*resultOfTuple(x.Tuple, 1)) > 0
		}
	}
	return false
}

// compared: the counter, or a step of it, is compared with something.
func compared(ph *ssa.Phi) bool {
	seen := map[ssa.Value]bool{}
	var walk func(v ssa.Value) bool
	walk = func(v ssa.Value) bool {
		if seen[v] || v.Referrers() == nil {
			return false
		}
		seen[v] = true
		for _, u := range *v.Referrers() {
			switch x := u.(type) {
			case *ssa.BinOp:
				switch x.Op {
				case token.ADD, token.SUB:
					if walk(x) {
						return true
					}
				case token.LSS, token.LEQ, token.GTR, token.GEQ, token.EQL, token.NEQ:
					return true
				}
			case *ssa.Phi:
				if walk(x) {
					return true
				}
			}
		}
		return false
	}
	return walk(ph)
}

// resultOfTuple: the uses of one of several results.
func resultOfTuple(t ssa.Value, i int) *[]ssa.Instruction {
	var none []ssa.Instruction
	for _, u := range *t.Referrers() {
		if ex, ok := u.(*ssa.Extract); ok && ex.Index == i {
			return ex.Referrers()
		}
	}
	return &none
}

// mayNil: a function of the module that returns nil there, or one of a library
// that has nothing to return with an error.
func (c *bCheck) mayNil(b *bounds, cl *ssa.Call, idx int) bool {
	return c.mayNil1(b.f, cl, idx, 0)
}

func (c *bCheck) mayNil1(from *ssa.Function, cl *ssa.Call, idx int, depth int) bool {
	cs := c.p.callees(from, cl)
	if sc := cl.Call.StaticCallee(); sc != nil && !c.p.inModule(sc) && (sc.Synthetic == "" || len(sc.Blocks) == 0) {
		res := sc.Signature.Results()
		return res.Len() == 2 && idx == 0 && isErrorType(res.At(1).Type())
	}
	if depth > 5 {
		return false
	}
	for _, g := range cs {
		for _, blk := range g.Blocks {
			r, ok := blk.Instrs[len(blk.Instrs)-1].(*ssa.Return)
			if !ok || blk == g.Recover || idx >= len(r.Results) {
				continue
			}
			vs := []ssa.Value{spilled(r.Results[idx], r)}
			if ph, ok := vs[0].(*ssa.Phi); ok {
				vs = ph.Edges
			}
			for _, v := range vs {
				if isNilConst(v) {
					return true
				}
				// of several results one tells whether there is anything
				if x, ok := v.(*ssa.Extract); ok {
					if ic, ok := x.Tuple.(*ssa.Call); ok && c.mayNil1(g, ic, x.Index, depth+1) {
						return true
					}
				}
			}
		}
	}
	return false
}

func (b *bounds) derefs() (res []bOblig) {
	type use struct {
		v  ssa.Value
		in ssa.Instruction
	}
	var uses []use
	add := func(in ssa.Instruction, v ssa.Value, what string) {
		g := b.nn(v)
		if len(g.c) == 0 && g.k >= 1 {
			return
		}
		key := b.canon[v]
		if key == nil {
			key = v
		}
		for _, u := range uses {
			if u.v == key && (u.in.Block() == in.Block() && instrIndex(u.in) <= instrIndex(in) || u.in.Block() != in.Block() && u.in.Block().Dominates(in.Block())) {
				return
			}
		}
		uses = append(uses, use{key, in})
		res = append(res, bOblig{in: in, what: what, goal: g.plus(-1)})
	}
	for _, blk := range b.f.DomPreorder() {
		if blk == b.f.Recover {
			continue
		}
		for _, in := range blk.Instrs {
			switch x := in.(type) {
			case *ssa.FieldAddr:
				add(in, x.X, "field of "+typeWord(x.X.Type()))
			case *ssa.IndexAddr:
				if _, ok := x.X.Type().Underlying().(*types.Pointer); ok {
					add(in, x.X, "element of "+typeWord(x.X.Type()))
				}
			case *ssa.UnOp:
				if x.Op == token.MUL {
					add(in, x.X, "value of "+typeWord(x.X.Type()))
				}
			case *ssa.Store:
				add(in, x.Addr, "store through "+typeWord(x.Addr.Type()))
			case *ssa.MapUpdate:
				add(in, x.Map, "entry of "+typeWord(x.Map.Type()))
			case ssa.CallInstruction:
				cc := x.Common()
				if cc.IsInvoke() {
					add(in, cc.Value, "method "+cc.Method.Name()+" of "+typeWord(cc.Value.Type()))
				} else if cc.StaticCallee() == nil {
					if _, ok := cc.Value.(*ssa.Builtin); !ok {
						add(in, cc.Value, "call of a function value")
					}
				}
			}
		}
	}
	return
}

func typeWord(t types.Type) string {
	return types.TypeString(t, func(p *types.Package) string { return p.Name() })
}

func (c *bCheck) modelled(b *bounds, cl *ssa.Call, k bKey) bool {
	if bi, ok := cl.Call.Value.(*ssa.Builtin); ok {
		return bi.Name() != "cap"
	}
	sc := cl.Call.StaticCallee()
	if sc == nil {
		return false
	}
	if !c.p.inModule(sc) {
		n := stdName(sc)
		return strings.HasPrefix(n, "unicode/utf8.") || (strings.HasPrefix(n, "strings.") || strings.HasPrefix(n, "bytes.")) && !strings.Contains(n, "(") && k.kind == aInt
	}
	return true
}

// asks: the condition depends on what a function says of one of the values,
// or of what was obtained together with it.
func asks(v ssa.Value, roots map[ssa.Value]bool, depth int, seen map[ssa.Value]bool) bool {
	if depth > 8 || seen[v] {
		return false
	}
	seen[v] = true
	in, ok := v.(ssa.Instruction)
	if !ok {
		return false
	}
	if cl, ok := v.(*ssa.Call); ok {
		for i := 0; i <= len(cl.Call.Args); i++ {
			a := argOf(&cl.Call, i)
			if a == nil {
				continue
			}
			if roots[a] {
				if _, bi := cl.Call.Value.(*ssa.Builtin); !bi {
					return true
				}
			}
			if ex, ok := a.(*ssa.Extract); ok {
				for r := range roots {
					if o, ok := r.(*ssa.Extract); ok && o.Tuple == ex.Tuple {
						return true
					}
				}
			}
		}
		return false
	}
	var ops []*ssa.Value
	for _, o := range in.Operands(ops) {
		if o != nil && *o != nil && asks(*o, roots, depth+1, seen) {
			return true
		}
	}
	return false
}

func mentions(v ssa.Value, roots map[ssa.Value]bool, depth int, seen map[ssa.Value]bool) bool {
	if roots[v] {
		return true
	}
	if depth > 8 || seen[v] {
		return false
	}
	seen[v] = true
	in, ok := v.(ssa.Instruction)
	if !ok {
		return false
	}
	var ops []*ssa.Value
	for _, o := range in.Operands(ops) {
		if o != nil && *o != nil && mentions(*o, roots, depth+1, seen) {
			return true
		}
	}
	return false
}

func (c *bCheck) each(fns []*ssa.Function, rule string, list func(b *bounds) []bOblig) {
	for _, f := range fns {
		b := c.bc.of(f)
		obs := list(b)
		if len(obs) == 0 {
			continue
		}
		c.r.fn(f.String())
		n := map[string]int{}
		for _, o := range obs {
			key := fmt.Sprintf("%s|%s", shortFn(f), o.what)
			n[key]++
			if n[key] > 1 {
				key = fmt.Sprintf("%s#%d", key, n[key])
			}
			c.why, c.field = "", ""
			ok, unclear := c.show(f, o.goal, o.in.Block(), 0)
			if ok && rule == "nil" {
				for id := range o.goal.c {
					if fa := loadedField(b.vars[id].key.v); fa != nil {
						c.guarded[fieldGroup(fa)]++
					}
				}
			}
			pos := c.p.instrPos(o.in)
			switch {
			case ok:
				c.r.ok(rule, key, pos, o.what)
			case unclear && c.field != "":
				c.open = append(c.open, openDeref{c.field, key, pos, o.what})
			case unclear:
				c.r.undecided(rule, key, pos, o.what+": "+c.why)
			default:
				w := c.why
				if w == "" {
					w = "nothing on the way to this point establishes it"
				}
				c.r.fail(rule, key, pos, o.what+": "+b.lstr(o.goal)+" ≥ 0 does not follow; "+w)
			}
		}
	}
}

func checkC02(p *Program, r *Report) {
	g := p.graph()
	reach := g.reach(p.parseEntries()...)
	c := &bCheck{p: p, r: r, call: map[*ssa.Function][]*cgEdge{}, bc: &boundsCtx{p: p, bs: map[*ssa.Function]*bounds{}, sums: map[*ssa.Function]*bSummary{}, busy: map[*ssa.Function]bool{}}}
	c.root, c.memo = map[*ssa.Function]bool{}, map[string]*bAnswer{}
	for _, f := range p.parseEntries() {
		c.root[f] = true
	}
	for _, f := range g.nodes {
		for _, e := range g.out[f] {
			if !reach[f] {
				continue
			}
			c.call[e.to] = append(c.call[e.to], e)
		}
	}
	c.guarded = map[string]int{}
	var fns []*ssa.Function
	for _, f := range p.allFuncsWithInit() {
		if p.inCmd(f) {
			continue
		}
		c.mod = append(c.mod, f)
		if f.Name() == "init" || !reach[f] || f.Synthetic != "" {
			continue
		}
		fns = append(fns, f)
	}
	c.each(fns, "bounds", (*bounds).obligations)
	c.each(fns, "nil", (*bounds).derefs)
	c.fields()
	c.asserts(fns)
	c.panics(fns)
	r.min("bounds", 100)
	r.min("nil", 200)
	r.min("assertion", 10)
	r.min("panic", 1)
}

// loadedField: the field a value was loaded from.
func loadedField(v ssa.Value) *ssa.FieldAddr {
	if ld, ok := v.(*ssa.UnOp); ok && ld.Op == token.MUL {
		fa, _ := ld.X.(*ssa.FieldAddr)
		return fa
	}
	return nil
}

// fieldGroup: the field, as one kind of object uses it, or all the functions in fields of the struct.
func fieldGroup(fa *ssa.FieldAddr) string {
	pt := fa.X.Type().Underlying().(*types.Pointer)
	st := pt.Elem().Underlying().(*types.Struct)
	if _, fn := st.Field(fa.Field).Type().Underlying().(*types.Signature); fn {
		return typeWord(pt.Elem()) + ".(functions)"
	}
	by := fa.Parent()
	for by.Parent() != nil {
		by = by.Parent()
	}
	who := ""
	if rc := by.Signature.Recv(); rc != nil {
		if n := namedOf(rc.Type()); n != nil && n != namedOf(pt.Elem()) {
			who = " in " + n.Obj().Name()
		}
	}
	return typeWord(pt.Elem()) + "." + st.Field(fa.Field).Name() + who
}

// consulted: a condition on the way to blk asks the object itself something
// that is not understood, and the answer may be about the field.
func (c *bCheck) consulted(b *bounds, fa *ssa.FieldAddr, blk *ssa.BasicBlock) bool {
	roots := map[ssa.Value]bool{}
	same := func(v ssa.Value) {
		roots[v] = true
		if k := b.canon[v]; k != nil {
			roots[k] = true
		}
	}
	same(fa.X)
	for d := blk; d != nil; d = d.Idom() {
		for _, pr := range d.Preds {
			iff, ok := pr.Instrs[len(pr.Instrs)-1].(*ssa.If)
			if !ok {
				continue
			}
			calls := false
			if bo, ok := iff.Cond.(*ssa.BinOp); ok && (isNilConst(bo.X) || isNilConst(bo.Y)) {
				for _, x := range []ssa.Value{bo.X, bo.Y} {
					if ph, ok := x.(*ssa.Phi); ok {
						for _, e := range ph.Edges {
							if o := loadedField(e); o != nil && fieldGroup(o) == fieldGroup(fa) {
								return true
							}
						}
					}
				}
			}
			seen := map[ssa.Value]bool{}
			var walk func(v ssa.Value, depth int)
			walk = func(v ssa.Value, depth int) {
				if depth > 8 || seen[v] {
					return
				}
				seen[v] = true
				in, ok := v.(ssa.Instruction)
				if !ok {
					return
				}
				if cl, ok := v.(*ssa.Call); ok {
					for i := 0; i < len(cl.Call.Args)+1; i++ {
						a := argOf(&cl.Call, i)
						if a != nil && (roots[a] || b.canon[a] != nil && roots[b.canon[a]]) {
							calls = true
						}
					}
				}
				var ops []*ssa.Value
				for _, o := range in.Operands(ops) {
					if o != nil && *o != nil {
						walk(*o, depth+1)
					}
				}
			}
			walk(iff.Cond, 0)
			if calls {
				return true
			}
		}
	}
	return false
}

// fields: dereferences of a field that is not shown to be set. Where the
// library takes care to look before it uses the field, not to look is an
// error; where it relies on the field being set, that is not decided here.
func (c *bCheck) fields() {
	looked := map[string]int{}
	for _, f := range c.mod {
		for _, blk := range f.Blocks {
			for _, in := range blk.Instrs {
				bo, ok := in.(*ssa.BinOp)
				if !ok || bo.Op != token.EQL && bo.Op != token.NEQ {
					continue
				}
				for _, pair := range [][2]ssa.Value{{bo.X, bo.Y}, {bo.Y, bo.X}} {
					if fa := loadedField(pair[0]); fa != nil && isNilConst(pair[1]) {
						g := fieldGroup(fa)
						if i := strings.Index(g, " in "); i > -1 {
							g = g[:i]
						}
						looked[g]++
					}
				}
			}
		}
	}
	n := map[string]int{}
	for _, o := range c.open {
		n[o.field]++
	}
	if os.Getenv("BFIELD") != "" {
		for k := range c.guarded {
			fmt.Println("FIELD", k, "guarded", c.guarded[k], "open", n[k], "looked", looked[k])
		}
		for k := range n {
			fmt.Println("FIELD", k, "guarded", c.guarded[k], "open", n[k], "looked", looked[k])
		}
	}
	for _, o := range c.open {
		all := strings.Split(o.field, " in ")[0]
		if looked[all] > 0 && c.guarded[o.field]+looked[all] > 3*n[o.field] {
			c.r.fail("nil", o.key, o.pos, fmt.Sprintf("%s: %s can be nil (the library compares it with nil in %d places), and nothing on the way to this point looks", o.text, all, looked[all]))
		} else {
			c.r.undecided("nil", o.key, o.pos, o.text+": that "+o.field+" is set is relied upon")
		}
	}
}
