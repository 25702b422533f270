package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

// both: the condition is not understood; what is found wrong after it is not decided.
func both(s *sState) (yes, no []*sState) {
	s.vague = true
	return []*sState{s}, []*sState{s.clone()}
}

func (x *sRun) decide(s *sState, c tval, in ssa.Instruction) (yes, no []*sState) {
	switch c.k {
	case tBool:
		if c.n != 0 {
			return []*sState{s}, nil
		}
		return nil, []*sState{s}
	case tNot:
		y, n := x.decide(s, c.a[0], in)
		return n, y
	case tSet:
		return x.splitRune(s, c.a[0], c.set, in)
	case tObj:
		return x.cond(s, c.s)
	case tCmp:
		if a, b := c.a[0], c.a[1]; a.k == tIdx && b.k == tInt && b.l.isConst() {
			// where a character stands in a constant text
			absent, present := xCmpInt(c.op, -1, b.l.c), xCmpInt(c.op, 0, b.l.c)
			for i := int64(1); i < a.n; i++ {
				if xCmpInt(c.op, i, b.l.c) != present {
					return both(s)
				}
			}
			if absent == present {
				return pickS(present, s)
			}
			y, n := x.splitRune(s, a.a[0], a.set, in)
			if !present {
				y, n = n, y
			}
			return y, n
		}
		return x.compare(s, c.op, c.a[0], c.a[1], in)
	}
	return both(s)
}

func (x *sRun) cond(s *sState, key string) (yes, no []*sState) {
	if v, ok := s.conds[key]; ok {
		if v {
			return []*sState{s}, nil
		}
		return nil, []*sState{s}
	}
	n := s.clone()
	s.conds[key] = true
	n.conds[key] = false
	return []*sState{s}, []*sState{n}
}

func (x *sRun) splitRune(s *sState, v tval, set *Set, in ssa.Instruction) (yes, no []*sState) {
	switch v.k {
	case tInt:
		if v.l.isConst() {
			if set.Has(v.l.c) {
				return []*sState{s}, nil
			}
			return nil, []*sState{s}
		}
	case tRune:
		f := s.fact(v.l)
		y, n := f.Inter(set), f.Minus(set)
		if y.Empty() {
			return nil, []*sState{s}
		}
		if n.Empty() {
			return []*sState{s}, nil
		}
		o := s.clone()
		s.facts[v.l] = y
		o.facts[v.l] = n
		return []*sState{s}, []*sState{o}
	case tNum: // any number may be written
		return []*sState{s}, []*sState{s.clone()}
	case tOff:
		return x.splitRune(s, tval{k: tRune, l: v.l}, set.Shift(-v.n), in)
	case tObj:
		f := s.objs[v.s]
		if f == nil {
			return both(s)
		}
		y, n := f.Inter(set), f.Minus(set)
		if y.Empty() {
			return nil, []*sState{s}
		}
		if n.Empty() {
			return []*sState{s}, nil
		}
		o := s.clone()
		s.objs[v.s] = y
		o.objs[v.s] = n
		return []*sState{s}, []*sState{o}
	}
	return both(s)
}

func (x *sRun) compare(s *sState, op token.Token, a, b tval, in ssa.Instruction) (yes, no []*sState) {
	if (a.k == tInt || a.k == tNil || a.k == tBool || a.k == tStr && b.k == tObj) && b.k != tInt && b.k != tNil {
		a, b = b, a
		op = xFlip(op)
	}
	isRune := func(v tval) bool { return v.k == tRune || v.k == tOff || v.k == tObj && s.objs[v.s] != nil }
	if isRune(a) && isRune(b) {
		if n, ok := s.runeSet(b).IsSingle(); ok {
			b = tval{k: tInt, l: lc(n)}
		} else if n, ok := s.runeSet(a).IsSingle(); ok {
			a, b = b, tval{k: tInt, l: lc(n)}
			op = xFlip(op)
		}
	}
	switch {
	case isRune(a) && b.k == tInt && b.l.isConst():
		return x.splitRune(s, a, cmpSet(op, b.l.c), in)
	case a.k == tInt && b.k == tInt:
		return x.cmpLin(s, op, a.l.sub(b.l))
	case a.k == tLen && b.k == tInt && b.l.isConst():
		if t, ok := (tval{k: tStr, p: a.p}).text(); ok {
			return pickS(xCmpInt(op, int64(len(t))+a.n, b.l.c), s)
		}
		if a.n == 0 {
			// empty or not
			z, nz := xCmpInt(op, 0, b.l.c), xCmpInt(op, 1, b.l.c)
			if z != nz && (b.l.c == 0 || b.l.c == 1) {
				e, ne := x.empty(s, a.p)
				if z {
					return e, ne
				}
				return ne, e
			}
		}
		return both(s)
	case a.k == tStr && b.k == tStr && (op == token.EQL || op == token.NEQ):
		u, ok1 := a.text()
		v, ok2 := b.text()
		if ok1 && ok2 {
			return pickS((u == v) == (op == token.EQL), s)
		}
		if ok2 && !ok1 && v == "" || ok1 && !ok2 && u == "" {
			p := a.p
			if ok1 {
				p = b.p
			}
			e, ne := x.empty(s, p)
			if op == token.EQL {
				return e, ne
			}
			return ne, e
		}
		if ok2 && len(a.p) == 1 && a.p[0].k == 'v' {
			y, n := x.cond(s, a.p[0].s+"=="+v)
			if op == token.EQL {
				return y, n
			}
			return n, y
		}
		return both(s)
	case b.k == tNil && (op == token.EQL || op == token.NEQ):
		var y, n []*sState
		switch a.k {
		case tNil:
			y = []*sState{s}
		case tErr, tAddr, tClo, tCur, tStr:
			n = []*sState{s}
		case tObj:
			y, n = x.cond(s, a.s+"==nil")
			for _, t := range y {
				x.absent(t, a.s)
			}
		default:
			y, n = both(s)
		}
		if op == token.EQL {
			return y, n
		}
		return n, y
	case a.k == tNum && b.k == tInt && b.l.isConst():
		o := s.clone()
		small := func(t *sState) {
			if b.l.c > 1<<26 {
				return
			}
			for _, f := range t.frames {
				for k, v := range f.env {
					if sameTv(v, a, func(p, q sLin) {}) && v.l == a.l && v.l2 == a.l2 {
						v.b = true
						f.env[k] = v
					}
				}
			}
			for k, v := range t.mem {
				if sameTv(v, a, func(p, q sLin) {}) && v.l == a.l && v.l2 == a.l2 {
					v.b = true
					t.mem[k] = v
				}
			}
		}
		switch op {
		case token.GTR, token.GEQ:
			small(o)
		case token.LSS, token.LEQ:
			small(s)
		}
		return []*sState{s}, []*sState{o}
	case a.k == tObj && (op == token.EQL || op == token.NEQ):
		key := a.s + "=="
		switch b.k {
		case tInt:
			key += b.l.String()
		case tObj:
			key += b.s
		case tStr:
			t, ok := b.text()
			if !ok {
				return both(s)
			}
			key += t
		case tBool:
			if (b.n != 0) == (op == token.EQL) {
				return x.cond(s, a.s)
			}
			y, n := x.cond(s, a.s)
			return n, y
		default:
			return both(s)
		}
		y, n := x.cond(s, key)
		if op == token.EQL {
			return y, n
		}
		return n, y
	case a.k == tAcc || a.k == tMul:
		return []*sState{s}, []*sState{s.clone()}
	}
	return both(s)
}

func (s *sState) runeSet(v tval) *Set {
	switch v.k {
	case tRune:
		return s.fact(v.l)
	case tOff:
		return s.fact(v.l).Shift(v.n)
	case tObj:
		return s.objs[v.s]
	}
	return anyRune
}

func pickS(t bool, s *sState) (yes, no []*sState) {
	if t {
		return []*sState{s}, nil
	}
	return nil, []*sState{s}
}

// empty: the states in which the text is empty, and the others.
func (x *sRun) empty(s *sState, p []tPart) (yes, no []*sState) {
	var im *tPart
	unk := false
	for i := range p {
		switch p[i].k {
		case 'c':
			if p[i].s != "" {
				return nil, []*sState{s}
			}
		case 'i':
			if im != nil {
				unk = true
			}
			im = &p[i]
		case 'v':
			if len(p) == 1 {
				return x.cond(s, p[i].s+"==")
			}
			unk = true
		default:
			unk = true
		}
	}
	if unk {
		return both(s)
	}
	if im == nil {
		return []*sState{s}, nil
	}
	return x.cmpLin(s, token.LEQ, im.b.sub(im.a))
}

// cmpLin compares a term with 0.
func (x *sRun) cmpLin(s *sState, op token.Token, d sLin) (yes, no []*sState) {
	m := d.terms()
	if len(m) == 0 {
		return pickS(xCmpInt(op, d.c, 0), s)
	}
	pos, neg := true, true
	for _, k := range m {
		if k < 0 {
			pos = false
		} else {
			neg = false
		}
	}
	if pos && d.c > 0 {
		return pickS(xCmpInt(op, 1, 0), s)
	}
	if neg && d.c < 0 {
		return pickS(xCmpInt(op, -1, 0), s)
	}
	if len(m) == 1 {
		for id, k := range m {
			c := d.c
			flip := int64(1)
			if k < 0 {
				k, c, flip = -k, -c, -1
			}
			if k != 1 || c > 0 {
				break
			}
			put := func(t *sState, sign int64) {
				if xCmpInt(op, sign*flip, 0) {
					yes = append(yes, t)
				} else {
					no = append(no, t)
				}
			}
			// c + n: zero at n = -c
			z := s.clone()
			z.subst(id, lc(-c))
			put(z, 0)
			g := s.clone()
			f := g.sym()
			g.subst(id, mkLin(-c+1, map[int]int64{f: 1}))
			put(g, 1)
			if -c <= 3 {
				for i := int64(0); i < -c; i++ {
					l := s.clone()
					l.subst(id, lc(i))
					put(l, -1)
				}
			} else {
				put(s, -1)
			}
			return
		}
	}
	return both(s)
}

// absent: what the reference would have stood for is not there.
func (x *sRun) absent(s *sState, obj string) {
	if !x.sp.att {
		return
	}
	for _, sp := range s.spans {
		if sp.id != obj {
			continue
		}
		for k, v := range s.mem {
			if v.k == tStr && len(v.p) > 0 {
				l := v.p[len(v.p)-1]
				if l.k == 'i' && l.b == sp.from {
					np := append([]tPart(nil), v.p...)
					np[len(np)-1].b = sp.to
					s.mem[k] = tval{k: tStr, p: np}
				}
			}
		}
	}
}

// asText: the text a value stands for.
func (s *sState) asText(v tval) ([]tPart, bool) {
	switch v.k {
	case tStr:
		return v.p, true
	case tNil:
		return nil, true
	case tAddr:
		if m, ok := s.mem[v.s]; ok && m.k == tStr {
			return m.p, true
		}
	}
	return nil, false
}

// put appends to a text.
func (x *sRun) put(s *sState, p, q []tPart, in ssa.Instruction) []tPart {
	res := append([]tPart(nil), p...)
	for _, e := range q {
		if e.k == 'c' && e.s == "" {
			continue
		}
		if e.k == 'i' && e.a == e.b {
			continue
		}
		n := len(res)
		if n > 0 && res[n-1].k == 'i' && res[n-1].a == res[n-1].b && (e.k == 'i' && e.a != res[n-1].a || n > 1) {
			res = res[:n-1]
			n--
		}
		switch e.k {
		case 'c':
			if n > 0 && res[n-1].k == 'c' {
				res[n-1].s += e.s
			} else {
				res = append(res, e)
			}
		case 'i':
			if n > 0 && res[n-1].k == 'i' && res[n-1].b == e.a && res[n-1].nl == e.nl && x.mayExtend(s, e) {
				res[n-1].b = e.b
			} else {
				res = append(res, e)
			}
		default:
			res = append(res, e)
		}
		res = x.collapse(s, res)
	}
	return res
}

// mayExtend: in an attribute value white space and what begins a reference are not copied.
func (x *sRun) mayExtend(s *sState, e tPart) bool {
	if !x.sp.att || e.b != e.a.plus(1) {
		return true
	}
	return s.fact(e.a).Inter(charSet("\t\n\r&")).Empty()
}

// collapse recognises what stands for the next piece of the input.
func (x *sRun) collapse(s *sState, l []tPart) []tPart {
	n := len(l)
	if n == 0 {
		return l
	}
	at := func(k int) (sLin, int, bool) { // where the input stands before part k
		if k > 0 && l[k-1].k == 'i' {
			return l[k-1].b, k - 1, true
		}
		return sLin{}, 0, false
	}
	ext := func(i int, to sLin) []tPart {
		r := append([]tPart(nil), l[:i+1]...)
		r[i].b = to
		return r
	}
	span := func(kind string, from sLin) *tSpan {
		for i := len(s.spans) - 1; i >= 0; i-- {
			if s.spans[i].kind == kind && s.spans[i].from == from {
				return &s.spans[i]
			}
		}
		return nil
	}
	if l[n-1].k == 'c' {
		if p, i, ok := at(n - 1); ok {
			c := l[n-1].s
			if x.sp.att {
				if c == " " && s.fact(p).SubsetOf(xmlS) {
					return ext(i, p.plus(1))
				}
				if c == "&#38;" || c == "&#x26;" {
					if sp := span("charref", p); sp != nil && s.objs[sp.id] != nil {
						if v, ok := s.objs[sp.id].IsSingle(); ok && v == '&' {
							return ext(i, sp.to)
						}
					}
					if sp := span("ent", p); sp != nil && s.conds[sp.id+".content==&"] && s.conds[sp.id+".entityType=="+x.predef()] {
						return ext(i, sp.to)
					}
				}
			} else if rs := []rune(c); len(rs) > 0 {
				q := p
				for _, r := range rs {
					v, ok := s.fact(q).IsSingle()
					if !ok || v != int64(r) {
						return l
					}
					q = q.plus(1)
				}
				x.avoidCheck(s, p)
				return ext(i, q)
			}
		}
		if x.sp.att && n >= 3 && l[n-1].s == ";" && l[n-2].k == 'v' && l[n-3].k == 'c' && l[n-3].s == "&" {
			if p, i, ok := at(n - 3); ok {
				if sp := span("ent", p); sp != nil && strings.HasPrefix(l[n-2].s, sp.id+".") && strings.HasSuffix(l[n-2].s, ".name") {
					if v, ok := s.conds[sp.id+".entityType=="+x.predef()]; ok && !v {
						return ext(i, sp.to)
					}
				}
			}
		}
		return l
	}
	if l[n-1].k == 'v' && x.sp.att {
		if p, i, ok := at(n - 1); ok {
			if sp := span("charref", p); sp != nil && l[n-1].s == sp.id && !s.objs[sp.id].Has('&') {
				return ext(i, sp.to)
			}
			if sp := span("ent", p); sp != nil && l[n-1].s == sp.id+".content" && s.conds[sp.id+".entityType=="+x.predef()] {
				if v, ok := s.conds[sp.id+".content==&"]; ok && !v {
					return ext(i, sp.to)
				}
			}
		}
	}
	return l
}

func (x *sRun) predef() string {
	pk := x.p.pkg("")
	if pk != nil {
		if c, ok := pk.Members["InternalPredefinedEntity"].(*ssa.NamedConst); ok {
			return c.Value.Value.ExactString()
		}
	}
	return "?"
}

// avoidCheck: can the text that ends the content stand across position p?
func (x *sRun) avoidCheck(s *sState, p sLin) {
	if x.sp.avoid1 != nil && !s.fact(p).Inter(x.sp.avoid1).Empty() {
		x.fail(s.top().b.Instrs[0], "%s may be taken as part of the content", s.fact(p).Inter(x.sp.avoid1))
	}
	if q, ok := s.fact(lc(0)).IsSingle(); ok && x.sp.quoted && s.fact(p).Has(q) {
		x.fail(s.top().b.Instrs[0], "the quote %q may be taken as part of the content", rune(q))
	}
	if x.sp.avoid == "" {
		return
	}
	rs := []rune(x.sp.avoid)
	a, b := false, false
	for i, r := range rs {
		if !s.fact(p.plus(int64(i))).Has(int64(r)) {
			a = true
		}
		if !s.fact(p.plus(int64(i - len(rs) + 1))).Has(int64(r)) {
			b = true
		}
	}
	// the first characters of the content have no such window before them
	if k := x.begin(s); k != nil {
		if d := p.sub(*k); d.isConst() && d.c < int64(len(rs)-1) {
			b = true
		}
	}
	if s.vague && (!a || !b) {
		x.avV = true
	}
	if !a {
		x.avA = true
	}
	if !b {
		x.avB = true
	}
	if !a && !b {
		x.avPos = posOf(s.top().b.Instrs[min(s.top().i, len(s.top().b.Instrs)-1)])
	}
}

func (x *sRun) begin(s *sState) *sLin {
	var ks []string
	for k := range s.mem {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		if v := s.mem[k]; v.k == tStr && len(v.p) > 0 && v.p[0].k == 'i' && strings.HasPrefix(k, s.top().fn.Name()) {
			l := v.p[0].a
			return &l
		}
	}
	return nil
}

func (x *sRun) runePart(s *sState, v tval, in ssa.Instruction) ([]tPart, bool) {
	switch v.k {
	case tRune:
		if s.fact(v.l).Has(0xFFFD) {
			x.fail(in, "what comes after the end of the input may be taken as a character")
		}
		x.avoidCheck(s, v.l)
		return []tPart{{k: 'i', a: v.l, b: v.l.plus(1)}}, true
	case tInt:
		if v.l.isConst() && v.l.c >= 0 && v.l.c <= 0x10ffff {
			return []tPart{{k: 'c', s: string(rune(v.l.c))}}, true
		}
	case tObj:
		return []tPart{{k: 'v', s: v.s}}, true
	}
	return nil, false
}

// cut removes bytes at the front and at the back.
func (x *sRun) cut(s *sState, p []tPart, front, back int64) []tPart {
	res := append([]tPart(nil), p...)
	asc := interval(0, 0x7f)
	for back > 0 {
		for len(res) > 0 && (res[len(res)-1].k == 'i' && res[len(res)-1].a == res[len(res)-1].b) {
			res = res[:len(res)-1]
		}
		if len(res) == 0 {
			return []tPart{{k: 'm', s: "more cut off than there is"}}
		}
		l := &res[len(res)-1]
		switch {
		case l.k == 'c' && len(l.s) > 0:
			l.s = l.s[:len(l.s)-1]
			if l.s == "" {
				res = res[:len(res)-1]
			}
		case l.k == 'i' && !l.nl && s.fact(l.b.plus(-1)).SubsetOf(asc):
			l.b = l.b.plus(-1)
		default:
			return []tPart{{k: 'm', s: "cut off at the end"}}
		}
		back--
	}
	for front > 0 {
		for len(res) > 0 && (res[0].k == 'i' && res[0].a == res[0].b) {
			res = res[1:]
		}
		if len(res) == 0 {
			return []tPart{{k: 'm', s: "more cut off than there is"}}
		}
		l := &res[0]
		switch {
		case l.k == 'c' && len(l.s) > 0:
			l.s = l.s[1:]
			if l.s == "" {
				res = res[1:]
			}
		case l.k == 'i' && !l.nl && s.fact(l.a).SubsetOf(asc):
			l.a = l.a.plus(1)
		default:
			return []tPart{{k: 'm', s: "cut off at the beginning"}}
		}
		front--
	}
	return res
}

func (x *sRun) exec(s *sState, in ssa.Instruction) {
	f := s.top()
	set := func(v ssa.Value, a tval) { f.env[v] = a }
	switch t := in.(type) {
	case *ssa.DebugRef:
	case *ssa.Alloc:
		id := fmt.Sprintf("%s.%s.%d", f.fn.Name(), t.Name(), len(s.frames))
		for k := range s.mem {
			if k == id || strings.HasPrefix(k, id+".") || strings.HasPrefix(k, id+"[") {
				delete(s.mem, k)
			}
		}
		if isTextBuf(t.Type()) {
			s.mem[id] = tval{k: tStr, p: []tPart{{k: 'i', a: s.pos, b: s.pos}}}
		} else if z := zeroOf(deref1(t.Type())); z.k != tTop {
			s.mem[id] = z
		}
		set(t, tval{k: tAddr, s: id})
	case *ssa.FieldAddr:
		b := x.val(s, t.X)
		n := fieldName(t.X.Type(), t.Field)
		switch b.k {
		case tObj:
			set(t, tval{k: tAddr, s: "$" + b.s + "." + n})
		case tAddr:
			set(t, tval{k: tAddr, s: b.s + "." + n})
		default:
			set(t, tval{})
		}
	case *ssa.Field:
		b := x.val(s, t.X)
		if b.k == tObj {
			set(t, objOf(t.Type(), b.s+fmt.Sprintf(".%d", t.Field)))
		} else {
			set(t, tval{})
		}
	case *ssa.IndexAddr:
		b, i := x.val(s, t.X), x.val(s, t.Index)
		if b.k == tAddr && i.k == tInt && i.l.isConst() {
			set(t, tval{k: tAddr, s: fmt.Sprintf("%s[%d]", b.s, i.l.c)})
		} else {
			set(t, tval{})
		}
	case *ssa.Store:
		a := x.val(s, t.Addr)
		if a.k == tAddr {
			s.mem[a.s] = x.val(s, t.Val)
		} else if bt, ok := deref1(t.Addr.Type()).Underlying().(*types.Basic); ok && bt.Kind() == types.Uint8 {
			x.giveUp(in, "a byte is stored somewhere unknown")
		}
	case *ssa.UnOp:
		a := x.val(s, t.X)
		switch t.Op {
		case token.MUL:
			set(t, x.load(s, a, t))
		case token.NOT:
			set(t, tval{k: tNot, a: []tval{a}})
		case token.SUB:
			if a.k == tInt {
				set(t, tval{k: tInt, l: lc(0).sub(a.l)})
			} else {
				set(t, tval{})
			}
		default:
			set(t, tval{})
		}
	case *ssa.BinOp:
		set(t, x.binop(s, t, x.val(s, t.X), x.val(s, t.Y)))
	case *ssa.Phi:
	case *ssa.ChangeType, *ssa.ChangeInterface:
		set(t.(ssa.Value), x.val(s, *in.Operands(nil)[0]))
	case *ssa.MakeInterface:
		a := x.val(s, t.X)
		if isErrorType(t.Type()) {
			a = tval{k: tErr}
		}
		set(t, a)
	case *ssa.TypeAssert:
		a := x.val(s, t.X)
		if isCursorType(t.AssertedType) {
			a = tval{k: tCur}
		}
		if t.CommaOk {
			set(t, tval{k: tTuple, a: []tval{a, {}}})
		} else {
			set(t, a)
		}
	case *ssa.Convert:
		a := x.val(s, t.X)
		to := t.Type().Underlying()
		if b, ok := to.(*types.Basic); ok && b.Info()&types.IsString != 0 {
			switch a.k {
			case tRune, tInt, tObj:
				if isIntType(t.X.Type()) {
					if a.k == tRune && s.fact(a.l).Has(0xFFFD) {
						set(t, tval{})
						return
					}
					if p, ok := x.runePart(s, a, in); ok {
						set(t, tval{k: tStr, p: p})
						return
					}
				}
			}
		}
		if b, ok := to.(*types.Basic); ok && (b.Kind() == types.Uint8 || b.Kind() == types.Int8) {
			if a.k == tRune && !s.fact(a.l).SubsetOf(interval(0, 0x7f)) || a.k == tOff || a.k == tNum {
				a = tval{}
			}
		}
		if a.k == tNum && !isIntType(t.Type()) {
			a = tval{}
		}
		if a.k == tAddr {
			if p, ok := s.asText(a); ok {
				a = tval{k: tStr, p: p}
			}
		}
		set(t, a)
	case *ssa.Extract:
		a := x.val(s, t.Tuple)
		if a.k == tTuple && t.Index < len(a.a) {
			set(t, a.a[t.Index])
		} else {
			set(t, tval{})
		}
	case *ssa.MakeClosure:
		c := tval{k: tClo, fn: t.Fn.(*ssa.Function)}
		for _, b := range t.Bindings {
			c.a = append(c.a, x.val(s, b))
		}
		set(t, c)
	case *ssa.MakeSlice:
		id := fmt.Sprintf("%s.%s.%d", f.fn.Name(), t.Name(), len(s.frames))
		if l := x.val(s, t.Len); l.k == tInt && l.l == lc(0) {
			set(t, tval{k: tStr, p: []tPart{{k: 'i', a: s.pos, b: s.pos}}})
			return
		}
		delete(s.mem, id)
		set(t, tval{k: tAddr, s: id})
	case *ssa.Slice:
		set(t, x.slice(s, t))
	default:
		if v, ok := in.(ssa.Value); ok {
			set(v, tval{})
		}
	}
}

func isTextBuf(t types.Type) bool {
	return typeIs(t, "bytes", "Buffer") || typeIs(t, "strings", "Builder")
}

// objOf: something opaque of a type.
func objOf(t types.Type, path string) tval {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if u.Info()&types.IsString != 0 {
			return tval{k: tStr, p: []tPart{{k: 'v', s: path}}}
		}
	case *types.Slice:
		if b, ok := u.Elem().Underlying().(*types.Basic); ok && b.Kind() == types.Uint8 {
			return tval{k: tStr, p: []tPart{{k: 'v', s: path}}}
		}
	}
	return tval{k: tObj, s: path}
}

func (x *sRun) load(s *sState, a tval, t *ssa.UnOp) tval {
	if a.k != tAddr {
		return tval{}
	}
	if v, ok := s.mem[a.s]; ok {
		return v
	}
	switch {
	case strings.HasPrefix(a.s, "@"):
		if isErrorType(t.Type()) {
			return tval{k: tErr}
		}
		return objOf(t.Type(), a.s)
	case strings.HasPrefix(a.s, "$"):
		if fa, ok := t.X.(*ssa.FieldAddr); ok && x.neverSet(fa) {
			return tval{k: tBool}
		}
		if isCursorType(t.Type()) {
			return tval{k: tCur}
		}
		return objOf(t.Type(), strings.TrimPrefix(a.s, "$"))
	case strings.Contains(a.s, "["):
		return tval{}
	}
	// a variable not yet stored to
	return zeroOf(t.Type())
}

func zeroOf(t types.Type) tval {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsString != 0:
			return tval{k: tStr}
		case u.Info()&types.IsInteger != 0:
			return tval{k: tInt}
		case u.Info()&types.IsBoolean != 0:
			return tval{k: tBool}
		}
	case *types.Pointer, *types.Interface, *types.Slice, *types.Map, *types.Signature:
		return tval{k: tNil}
	}
	return tval{}
}

// neverSet: a switch nothing ever turns on.
func (x *sRun) neverSet(fa *ssa.FieldAddr) bool {
	if b, ok := deref1(fa.Type()).Underlying().(*types.Basic); !ok || b.Kind() != types.Bool {
		return false
	}
	st := deref1(fa.X.Type())
	key := fmt.Sprint(st, fa.Field)
	if v, ok := x.conF[key]; ok {
		return v
	}
	res := true
	for _, fn := range x.p.allFuncsWithInit() {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				f2, ok := in.(*ssa.FieldAddr)
				if !ok || f2.Field != fa.Field || !types.Identical(deref1(f2.X.Type()), st) {
					continue
				}
				for _, r := range *f2.Referrers() {
					switch u := r.(type) {
					case *ssa.UnOp, *ssa.DebugRef:
					case *ssa.Store:
						if c, ok := u.Val.(*ssa.Const); !ok || c.Value == nil || c.Value.ExactString() != "false" {
							res = false
						}
					default:
						res = false
					}
				}
			}
		}
	}
	x.conF[key] = res
	return res
}

func (x *sRun) binop(s *sState, t *ssa.BinOp, a, b tval) tval {
	switch t.Op {
	case token.EQL, token.NEQ, token.LSS, token.LEQ, token.GTR, token.GEQ:
		return tval{k: tCmp, op: t.Op, a: []tval{a, b}}
	case token.ADD:
		if a.k == tInt && b.k == tInt {
			return tval{k: tInt, l: a.l.add(b.l, 1)}
		}
		if a.k == tStr && b.k == tStr {
			return tval{k: tStr, p: x.put(s, a.p, b.p, t)}
		}
		if b.k == tMul || b.k == tLen || b.k == tAcc || a.k == tInt {
			a, b = b, a
		}
		switch {
		case a.k == tLen && b.k == tInt && b.l.isConst():
			a.n += b.l.c
			return a
		case (a.k == tMul || a.k == tInt && a.l == lc(0)) && (b.k == tOff || b.k == tRune):
			if a.k == tInt {
				return tval{}
			}
			return x.digit(s, tval{k: tAcc, n: a.n, l: a.l, l2: a.l2, n2: b.n, s: b.l.String()}, b.l)
		case a.k == tAcc && b.k == tInt && b.l.isConst():
			a.n2 += b.l.c
			return x.digit(s, a, a.a[0].l)
		case (a.k == tOff || a.k == tRune) && b.k == tInt && b.l.isConst():
			return tval{k: tOff, l: a.l, n: a.n + b.l.c}
		}
	case token.SUB:
		if a.k == tInt && b.k == tInt {
			return tval{k: tInt, l: a.l.sub(b.l)}
		}
		if b.k == tInt && b.l.isConst() {
			switch a.k {
			case tLen:
				a.n -= b.l.c
				return a
			case tOff, tRune:
				return tval{k: tOff, l: a.l, n: a.n - b.l.c}
			case tAcc:
				a.n2 -= b.l.c
				return x.digit(s, a, a.a[0].l)
			}
		}
	case token.OR:
		if a.k == tMul && a.n == 16 && (b.k == tOff || b.k == tRune) {
			return x.binop(s, &ssa.BinOp{Op: token.ADD}, a, b)
		}
	case token.MUL, token.SHL:
		if a.k == tInt && t.Op == token.MUL && b.k != tInt {
			a, b = b, a
		}
		if b.k == tInt && b.l.isConst() {
			base := b.l.c
			if t.Op == token.SHL {
				base = 1 << uint(b.l.c&31)
			}
			if a.k == tInt && a.l == lc(0) && (base == 10 || base == 16) {
				return tval{k: tMul, n: base, l: s.pos, l2: s.pos}
			}
			if a.k == tNum && a.n == base {
				if !a.b {
					x.fail(t, "the number of a reference may overflow")
				}
				return tval{k: tMul, n: base, l: a.l, l2: a.l2}
			}
			if a.k == tNum {
				x.fail(t, "the digits of a reference are given different weights")
			}
		}
	}
	return tval{}
}

// digit: the number with one more digit, when the character is given its value.
func (x *sRun) digit(s *sState, a tval, at sLin) tval {
	a.a = []tval{{k: tRune, l: at}}
	if a.l == a.l2 && a.l2 != at {
		a.l, a.l2 = at, at
	}
	ok := a.l2 == at
	f := s.fact(at)
	if f.Empty() || f.Count() > 300 {
		ok = false
	} else {
		for c := f.Min(); c <= f.Max(); c++ {
			if !f.Has(c) {
				continue
			}
			v := int64(-1)
			switch {
			case c >= '0' && c <= '9':
				v = c - '0'
			case c >= 'a' && c <= 'f':
				v = c - 'a' + 10
			case c >= 'A' && c <= 'F':
				v = c - 'A' + 10
			}
			if v < 0 || v >= a.n || c+a.n2 != v {
				ok = false
			}
		}
	}
	if ok {
		return tval{k: tNum, n: a.n, l: a.l, l2: at.plus(1)}
	}
	return a
}

func (x *sRun) slice(s *sState, t *ssa.Slice) tval {
	b := x.val(s, t.X)
	if b.k == tAddr {
		if _, ok := deref1(t.X.Type()).Underlying().(*types.Array); ok && t.Low == nil && t.High == nil {
			at := deref1(t.X.Type()).Underlying().(*types.Array)
			eb, ok := at.Elem().Underlying().(*types.Basic)
			if !ok || eb.Info()&types.IsInteger == 0 {
				return tval{}
			}
			var p []tPart
			for i := int64(0); i < at.Len(); i++ {
				v := s.mem[fmt.Sprintf("%s[%d]", b.s, i)]
				if v.k == tRune && s.fact(v.l).Has(0xFFFD) {
					return tval{} // the end of the input, in a message say
				}
				q, ok := x.runePart(s, v, t)
				if !ok {
					return tval{}
				}
				if eb.Kind() == types.Uint8 && v.k == tInt && v.l.c >= 0x80 {
					return tval{}
				}
				p = x.put(s, p, q, t)
			}
			return tval{k: tStr, p: p}
		}
		if t.Low == nil {
			return b
		}
	}
	p, ok := s.asText(b)
	if !ok {
		return tval{}
	}
	front, back := int64(0), int64(0)
	if t.Low != nil {
		l := x.val(s, t.Low)
		if l.k != tInt || !l.l.isConst() {
			return tval{}
		}
		front = l.l.c
	}
	if t.High != nil {
		h := x.val(s, t.High)
		switch {
		case h.k == tLen && partsStr(h.p) == partsStr(p) && h.n <= 0:
			back = -h.n
		case h.k == tInt && h.l == lc(0):
			return tval{k: tStr, p: []tPart{{k: 'i', a: s.pos, b: s.pos}}}
		default:
			return tval{}
		}
	}
	return tval{k: tStr, p: x.cut(s, p, front, back)}
}

func (x *sRun) setRes(s *sState, in ssa.CallInstruction, v tval) {
	if c, ok := in.(*ssa.Call); ok {
		s.top().env[c] = v
	}
}

func (x *sRun) call(s *sState, in ssa.CallInstruction, args []tval, deferred bool) []*sState {
	cc := in.Common()
	one := []*sState{s}
	instr := in.(ssa.Instruction)
	if cc.IsInvoke() {
		if deferred {
			args = append([]tval{x.val(s, cc.Value)}, args...)
		}
		name := cc.Method.Name()
		if isCursorType(cc.Value.Type()) {
			return x.cursor(s, in, name, args[1:])
		}
		for _, m := range x.p.handlerMethods() {
			if m == name && strings.Contains(cc.Value.Type().String(), "/sax.") {
				x.events++
				if x.sp.event != nil {
					if msg := x.sp.event(x, s, name, args[1:]); msg != "" {
						if sDebug {
							fmt.Println("EVENT", name, s.String(), msg)
						}
						x.verdict(instr, msg)
					}
				}
				s.done[name] = true
				x.opaque(s, in)
				return one
			}
		}
		x.opaque(s, in)
		return one
	}
	if b, ok := cc.Value.(*ssa.Builtin); ok {
		switch b.Name() {
		case "len":
			if p, ok := s.asText(args[1]); ok {
				if t, ok := (tval{k: tStr, p: p}).text(); ok {
					x.setRes(s, in, tval{k: tInt, l: lc(int64(len(t)))})
				} else {
					x.setRes(s, in, tval{k: tLen, p: p})
				}
			} else {
				x.setRes(s, in, tval{})
			}
		case "append":
			p, ok1 := s.asText(args[1])
			q, ok2 := s.asText(args[2])
			if ok1 && ok2 {
				x.setRes(s, in, tval{k: tStr, p: x.put(s, p, q, instr)})
			} else {
				x.setRes(s, in, tval{})
			}
		default:
			x.setRes(s, in, tval{})
		}
		return one
	}
	fn := cc.StaticCallee()
	var free []tval
	if v := args[0]; fn == nil || len(fn.FreeVars) > 0 {
		if v.k != tClo {
			x.opaque(s, in)
			x.unknownCall(s, in, args)
			return one
		}
		fn, free = v.fn, v.a
	}
	av := args[1:]
	pkg, recv, name := fnQual(fn)
	if len(cc.Args) > 0 && recv != "" && isCursorType(cc.Args[0].Type()) {
		return x.cursor(s, in, name, av[1:])
	}
	if !x.p.inModule(fn) || len(fn.Blocks) == 0 {
		return x.lib(s, in, fn, pkg, recv, name, av)
	}
	if x.sp.stop[name] {
		return nil
	}
	if kind, ok := x.sp.spans[name]; ok {
		return x.span(s, in, fn, kind, av)
	}
	if rt := fn.Signature.Results(); rt.Len() == 1 && isCursorType(rt.At(0).Type()) {
		x.setRes(s, in, tval{k: tCur})
		return one
	}
	if len(av) == 1 && (av[0].k == tRune || av[0].k == tInt || av[0].k == tObj || av[0].k == tOff || av[0].k == tNum) {
		if set := x.p.predSet(fn); set != nil {
			x.setRes(s, in, tval{k: tSet, a: []tval{av[0]}, set: set})
			return one
		}
	}
	if x.makesError(fn) {
		x.setRes(s, in, tval{k: tErr})
		return one
	}
	if len(s.frames) > 10 {
		x.giveUp(instr, "calls nested too deeply at %s", name)
		return nil
	}
	for _, f := range s.frames {
		if f.fn == fn {
			x.giveUp(instr, "%s calls itself", name)
			return nil
		}
	}
	chars := false
	for _, a := range av {
		chars = chars || a.k == tRune || a.k == tOff || a.k == tNum
	}
	if !chars && !x.matters(fn) {
		x.opaque(s, in)
		return one
	}
	x.prep(fn)
	f := &sFrame{fn: fn, b: fn.Blocks[0], env: map[ssa.Value]tval{}, call: in, defer_: deferred}
	for i, p := range fn.Params {
		if i < len(av) {
			f.env[p] = av[i]
		}
	}
	for i, v := range fn.FreeVars {
		if i < len(free) {
			f.env[v] = free[i]
		}
	}
	s.frames = append(s.frames, f)
	return one
}

// makesError: a routine of the parser that wraps an error.
func (x *sRun) makesError(fn *ssa.Function) bool {
	r := fn.Signature.Results()
	return r.Len() == 1 && isErrorType(r.At(0).Type()) && fn.Name() == "error"
}

// matters: the routine may move in the input, deals with texts, or gives one.
func (x *sRun) matters(fn *ssa.Function) bool {
	rs := fn.Signature.Results()
	for i := 0; i < rs.Len(); i++ {
		switch u := rs.At(i).Type().Underlying().(type) {
		case *types.Basic:
			if u.Info()&(types.IsString|types.IsInteger) != 0 {
				return true
			}
		case *types.Slice:
			return true
		case *types.Pointer:
			if isTextBuf(u) {
				return true
			}
		}
	}
	for _, p := range fn.Params {
		t := p.Type()
		if isTextBuf(t) || isTextBuf(deref1(t)) {
			return true
		}
		if _, ok := t.Underlying().(*types.Signature); ok {
			return true
		}
		if isCursorType(t) {
			return true
		}
	}
	if len(fn.FreeVars) > 0 {
		return true
	}
	for f := range x.p.graph().reach(fn) {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				ci, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				cc := ci.Common()
				n := ""
				if cc.IsInvoke() {
					if isCursorType(cc.Value.Type()) {
						n = cc.Method.Name()
					} else if strings.Contains(cc.Value.Type().String(), "/sax.SAX2") {
						return true
					}
				} else if c := cc.StaticCallee(); c != nil && len(cc.Args) > 0 && isCursorType(cc.Args[0].Type()) {
					n = c.Name()
				}
				if n == "Advance" || n == "Cur" || strings.HasPrefix(n, "Consume") {
					return true
				}
			}
		}
	}
	return false
}

// opaque: the results are unknown; what is kept in objects may have changed.
func (x *sRun) opaque(s *sState, in ssa.CallInstruction) {
	for k := range s.mem {
		if strings.HasPrefix(k, "$") {
			delete(s.mem, k)
		}
	}
	c, ok := in.(*ssa.Call)
	if !ok {
		return
	}
	id := fmt.Sprintf("#%d", s.sym())
	if tu, ok := c.Type().(*types.Tuple); ok {
		var l []tval
		for i := 0; i < tu.Len(); i++ {
			l = append(l, objOf(tu.At(i).Type(), fmt.Sprintf("%s/%d", id, i)))
		}
		s.top().env[c] = tval{k: tTuple, a: l}
		return
	}
	s.top().env[c] = objOf(c.Type(), id)
}

func (x *sRun) unknownCall(s *sState, in ssa.CallInstruction, args []tval) {
	x.giveUp(in.(ssa.Instruction), "a call of an unknown function")
}

// span: a routine that is judged by itself.
func (x *sRun) span(s *sState, in ssa.CallInstruction, fn *ssa.Function, kind string, av []tval) (out []*sState) {
	for k := range s.mem {
		if strings.HasPrefix(k, "$") {
			delete(s.mem, k)
		}
	}
	id := fmt.Sprintf("#%d", s.sym())
	rs := fn.Signature.Results()
	mk := func(s *sState, fail bool) {
		var l []tval
		for i := 0; i < rs.Len(); i++ {
			t := rs.At(i).Type()
			switch {
			case isErrorType(t):
				if fail {
					l = append(l, tval{k: tErr})
				} else {
					l = append(l, tval{k: tNil})
				}
			case fail:
				l = append(l, tval{})
			default:
				n := id
				if i > 0 {
					n = fmt.Sprintf("%s/%d", id, i)
				}
				l = append(l, objOf(t, n))
			}
		}
		if len(l) == 1 {
			x.setRes(s, in, l[0])
		} else {
			x.setRes(s, in, tval{k: tTuple, a: l})
		}
	}
	if kind == "none" { // does not move in the input
		arg := ""
		for _, a := range av {
			if a.k == tStr {
				arg += "(" + partsStr(a.p) + ")"
			}
		}
		id = fn.Name() + arg
	}
	e := s.clone()
	hasErr := rs.Len() > 0 && isErrorType(rs.At(rs.Len()-1).Type())
	if hasErr {
		n := e.sym()
		if kind != "none" && kind != "name" {
			e.pos = e.pos.add(mkLin(0, map[int]int64{n: 1}), 1)
		}
		mk(e, true)
		out = append(out, e)
	}
	if kind == "none" {
		mk(s, false)
		return append(out, s)
	}
	if kind == "blanks" {
		z := s.clone()
		x.setRes(z, in, tval{k: tBool, n: 0})
		out = append(out, z)
		n := s.sym()
		to := s.pos.add(mkLin(1, map[int]int64{n: 1}), 1)
		s.spans = append(s.spans, tSpan{kind, id, s.pos, to})
		s.pos = to
		x.setRes(s, in, tval{k: tBool, n: 1})
		return append(out, s)
	}
	n := s.sym()
	to := s.pos.add(mkLin(1, map[int]int64{n: 1}), 1)
	s.spans = append(s.spans, tSpan{kind, id, s.pos, to})
	s.pos = to
	if kind == "charref" {
		s.objs[id] = xmlChar
	}
	mk(s, false)
	return append(out, s)
}

func (x *sRun) cursor(s *sState, in ssa.CallInstruction, name string, av []tval) []*sState {
	one := []*sState{s}
	instr := in.(ssa.Instruction)
	switch name {
	case "Peek":
		x.setRes(s, in, tval{k: tRune, l: s.pos})
		return one
	case "PeekN":
		if av[0].k != tInt {
			x.giveUp(instr, "a look at an unknown place")
			return nil
		}
		x.setRes(s, in, tval{k: tRune, l: s.pos.add(av[0].l, 1).plus(-1)})
		return one
	case "Done":
		x.setRes(s, in, tval{k: tSet, a: []tval{{k: tRune, l: s.pos}}, set: runeErr})
		return one
	case "Cur":
		x.setRes(s, in, tval{k: tRune, l: s.pos})
		s.pos = s.pos.plus(1)
		return one
	case "Advance":
		if av[0].k != tInt {
			x.giveUp(instr, "an unknown step")
			return nil
		}
		s.pos = s.pos.add(av[0].l, 1)
		x.setRes(s, in, tval{})
		return one
	case "HasPrefix", "HasPrefixString", "Consume", "ConsumeString":
		p, ok := s.asText(av[0])
		t, ok2 := tval{k: tStr, p: p}.text()
		if !ok || !ok2 || !utf8.ValidString(t) {
			x.giveUp(instr, "looking for an unknown text")
			return nil
		}
		no := s.clone()
		x.setRes(no, in, tval{k: tBool})
		out := []*sState{}
		yes := true
		known := true
		for i, r := range []rune(t) {
			l := s.pos.plus(int64(i))
			if !s.fact(l).Has(int64(r)) {
				yes = false
				break
			}
			if v, ok := s.fact(l).IsSingle(); !ok || v != int64(r) {
				known = false
			}
			s.facts[l] = single(int64(r))
		}
		if !yes || !known {
			rs := []rune(t)
			if len(rs) > 3 {
				rs = nil
				out = append(out, no)
			}
			// the first character that is another one
			for i := range rs {
				m := no.clone()
				for j := 0; j <= i; j++ {
					l, c := m.pos.plus(int64(j)), single(int64(rs[j]))
					if j == i {
						c = m.fact(l).Minus(c)
					} else {
						c = m.fact(l).Inter(c)
					}
					m.facts[l] = c
					if c.Empty() {
						m = nil
						break
					}
				}
				if m != nil {
					out = append(out, m)
				}
			}
		}
		if yes {
			if strings.HasPrefix(name, "Consume") {
				s.pos = s.pos.plus(int64(len([]rune(t))))
			}
			x.setRes(s, in, tval{k: tBool, n: 1})
			out = append(out, s)
		}
		return out
	case "LineNumber", "Column", "Line", "OffsetBytes":
		x.opaque(s, in)
		return one
	}
	x.giveUp(instr, "the cursor's %s", name)
	return nil
}

func (x *sRun) lib(s *sState, in ssa.CallInstruction, fn *ssa.Function, pkg, recv, name string, av []tval) []*sState {
	one := []*sState{s}
	instr := in.(ssa.Instruction)
	res := func(v tval) []*sState { x.setRes(s, in, v); return one }
	switch {
	case recv == "Buffer" && pkg == "bytes" || recv == "Builder" && pkg == "strings":
		if av[0].k != tAddr {
			x.giveUp(instr, "an unknown buffer")
			return nil
		}
		id := av[0].s
		b, ok := s.mem[id]
		if !ok {
			b = tval{k: tStr}
		}
		if b.k != tStr && name != "Reset" {
			x.giveUp(instr, "a buffer with unknown content")
			return nil
		}
		nilErr := tval{k: tTuple, a: []tval{{}, {k: tNil}}}
		switch name {
		case "WriteRune":
			p, ok := x.runePart(s, av[1], instr)
			if !ok {
				x.giveUp(instr, "an unknown character is written")
				return nil
			}
			s.mem[id] = tval{k: tStr, p: x.put(s, b.p, p, instr)}
			return res(nilErr)
		case "WriteByte":
			v := av[1]
			if v.k == tInt && v.l.isConst() && v.l.c >= 0x80 {
				v = tval{}
			}
			p, ok := x.runePart(s, v, instr)
			if !ok {
				x.giveUp(instr, "an unknown byte is written")
				return nil
			}
			s.mem[id] = tval{k: tStr, p: x.put(s, b.p, p, instr)}
			return res(tval{k: tNil})
		case "WriteString", "Write":
			p, ok := s.asText(av[1])
			if !ok {
				x.giveUp(instr, "an unknown text is written")
				return nil
			}
			s.mem[id] = tval{k: tStr, p: x.put(s, b.p, p, instr)}
			return res(nilErr)
		case "String", "Bytes":
			return res(tval{k: tStr, p: b.p})
		case "Len":
			return res(tval{k: tLen, p: b.p})
		case "Reset":
			s.mem[id] = tval{k: tStr, p: []tPart{{k: 'i', a: s.pos, b: s.pos}}}
			return res(tval{})
		case "Truncate":
			n := av[1]
			switch {
			case n.k == tInt && n.l == lc(0):
				s.mem[id] = tval{k: tStr, p: []tPart{{k: 'i', a: s.pos, b: s.pos}}}
			case n.k == tLen && partsStr(n.p) == partsStr(b.p) && n.n <= 0:
				s.mem[id] = tval{k: tStr, p: x.cut(s, b.p, 0, -n.n)}
			default:
				x.giveUp(instr, "a buffer is cut at an unknown place")
				return nil
			}
			return res(tval{})
		case "Grow":
			return res(tval{})
		}
		x.giveUp(instr, "the buffer's %s", name)
		return nil
	case pkg == "sync" && recv == "Pool":
		if name == "Get" {
			id := fmt.Sprintf("%s.%s.%d", s.top().fn.Name(), in.(ssa.Value).Name(), len(s.frames))
			s.mem[id] = tval{k: tStr, p: []tPart{{k: 'i', a: s.pos, b: s.pos}}}
			return res(tval{k: tAddr, s: id})
		}
		return res(tval{})
	case pkg == "errors" && name == "New" || pkg == "fmt" && name == "Errorf":
		return res(tval{k: tErr})
	case pkg == "unicode" && recv == "":
		var set *Set
		v := av[0]
		if name == "Is" {
			v = av[1]
		}
		if name == "Is" || name == "In" {
			r := &run{}
			set = r.unicodeTables(nil, in.Common(), name)
		} else {
			set = uniPred(name)
		}
		if set == nil {
			return res(tval{})
		}
		return res(tval{k: tSet, a: []tval{v}, set: set})
	case (pkg == "strings" || pkg == "bytes") && (name == "IndexRune" || name == "ContainsRune"):
		p, ok := s.asText(av[0])
		if t, known := (tval{k: tStr, p: p}).text(); ok && known && !strings.ContainsRune(t, 0xFFFD) {
			if name == "ContainsRune" {
				return res(tval{k: tSet, a: []tval{av[1]}, set: charSet(t)})
			}
			return res(tval{k: tIdx, a: []tval{av[1]}, set: charSet(t), n: int64(len([]byte(t)))})
		}
		return res(tval{})
	case (pkg == "strings" || pkg == "bytes") && (name == "Replace" || name == "ReplaceAll"):
		p, ok := s.asText(av[0])
		o, ok1 := s.asText(av[1])
		n, ok2 := s.asText(av[2])
		os, ok3 := tval{k: tStr, p: o}.text()
		ns, ok4 := tval{k: tStr, p: n}.text()
		if !ok || !ok1 || !ok2 || !ok3 || !ok4 {
			return res(tval{})
		}
		if os == "\r\n" && ns == "\n" && (name == "ReplaceAll" || av[3].k == tInt && av[3].l.isConst() && av[3].l.c < 0) {
			np := append([]tPart(nil), p...)
			for i := range np {
				if np[i].k == 'i' {
					np[i].nl = true
				}
			}
			return res(tval{k: tStr, p: np})
		}
		return res(tval{k: tStr, p: []tPart{{k: 'm', s: fmt.Sprintf("%q replaced by %q", os, ns)}}})
	case (pkg == "strings" || pkg == "bytes") && (strings.HasPrefix(name, "Trim") || name == "ToLower" || name == "ToUpper" || name == "Title" || name == "ToTitle"):
		if p, ok := s.asText(av[0]); ok {
			if t, ok := (tval{k: tStr, p: p}).text(); ok && t == "" {
				return res(av[0])
			}
			return res(tval{k: tStr, p: []tPart{{k: 'm', s: pkg + "." + name}}})
		}
		return res(tval{})
	case pkg == "unicode/utf8" && name == "EncodeRune":
		if av[0].k != tAddr {
			x.giveUp(instr, "a character is stored somewhere unknown")
			return nil
		}
		p, ok := x.runePart(s, av[1], instr)
		if !ok {
			x.giveUp(instr, "an unknown character is stored")
			return nil
		}
		s.mem[av[0].s] = tval{k: tStr, p: p}
		return res(tval{})
	case pkg == "unicode/utf8" && name == "AppendRune":
		p, ok := s.asText(av[0])
		q, ok2 := x.runePart(s, av[1], instr)
		if ok && ok2 {
			return res(tval{k: tStr, p: x.put(s, p, q, instr)})
		}
		return res(tval{})
	}
	for i, a := range av {
		if i < len(in.Common().Args) && (isTextBuf(in.Common().Args[i].Type()) || isTextBuf(deref1(in.Common().Args[i].Type()))) && a.k != tNil {
			x.giveUp(instr, "a buffer is handed to %s", name)
			return nil
		}
	}
	x.opaque(s, in)
	return one
}
