package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"os"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Abstract interpretation of the serialiser in the domain of output templates:
// text the program writes to one writer, with placeholders for field values.

// tv is an abstract value: 'i' interval, 's' constant text, 'S' text or slice
// with a length in [lo,hi], 'n' nil, 'p' not nil, 0 unknown.
type tv struct {
	k      byte
	lo, hi int64
	s      string
}

func tvInt(n int64) tv { return tv{k: 'i', lo: n, hi: n} }

var (
	tvEmpty    = tv{k: 'S'}
	tvNonEmpty = tv{k: 'S', lo: 1, hi: 1 << 40}
	tvNil      = tv{k: 'n'}
	tvPtr      = tv{k: 'p'}
)

func tvLen(n int64) tv { return tv{k: 'S', lo: n, hi: n} }

type tmplRun struct {
	p     *Program
	val   map[string]tv
	embed map[string]bool
	outP  *Term
	mem   map[string]*Term
}

// embeddedNames are the names of embedded struct fields of the module.
func (p *Program) embeddedNames() map[string]bool {
	res := map[string]bool{}
	for _, sp := range p.ssaPkgs {
		sc := sp.Pkg.Scope()
		for _, n := range sc.Names() {
			if tn, ok := sc.Lookup(n).(*types.TypeName); ok {
				if st, ok := tn.Type().Underlying().(*types.Struct); ok {
					for i := 0; i < st.NumFields(); i++ {
						if st.Field(i).Embedded() {
							res[st.Field(i).Name()] = true
						}
					}
				}
			}
		}
	}
	return res
}

// canon names a value by the fields and calls it comes from.
func (t *tmplRun) canon(x *Term) string {
	x = x.strip()
	if x == nil {
		return "?"
	}
	switch x.op {
	case "param":
		return x.s
	case "const":
		if s, ok := x.constStr(); ok {
			return fmt.Sprintf("%q", s)
		}
		if x.cv != nil {
			return x.cv.ExactString()
		}
		return "nil"
	case "nil":
		return "nil"
	case "conv":
		return t.canon(x.args[0])
	case "load", "assert":
		return t.canon(x.args[0])
	case "field", "fieldof":
		b := t.canon(x.args[0])
		if t.embed[x.s] {
			return b
		}
		return b + "." + x.s
	case "index", "elem":
		if b := x.args[0].strip(); b.op == "slice" {
			// an element of a part of a slice
			lo, ok := t.exact(b.args[1], 0)
			if i, ok2 := t.exact(x.args[1], 0); ok && ok2 && b.args[3].op == "none" {
				return t.canon(&Term{op: x.op, args: []*Term{b.args[0], {op: "const", cv: constant.MakeInt64(lo + i)}}})
			}
		}
		return t.canon(x.args[0]) + "[" + t.canon(x.args[1]) + "]"
	case "slice":
		if x.args[1].op == "none" && x.args[2].op == "none" {
			return t.canon(x.args[0])
		}
		return t.canon(x.args[0]) + "[" + t.canon(x.args[1]) + ":" + t.canon(x.args[2]) + "]"
	case "none":
		return ""
	case "global":
		return x.glob.Name()
	case "extract":
		return t.canon(x.args[0]) + "#" + x.s
	case "call":
		var as []string
		for _, a := range x.args {
			as = append(as, t.canon(a))
		}
		n := x.s
		if x.fn != nil {
			n = x.fn.Name()
		}
		return n + "(" + strings.Join(as, ",") + ")"
	case "builtin":
		var as []string
		for _, a := range x.args {
			as = append(as, t.canon(a))
		}
		return x.s + "(" + strings.Join(as, ",") + ")"
	case "bin":
		return "(" + t.canon(x.args[0]) + x.s + t.canon(x.args[1]) + ")"
	case "un":
		return x.s + t.canon(x.args[0])
	}
	return x.op + ":" + x.s + fmt.Sprint(x.n)
}

func (t *tmplRun) eval(x *Term) tv {
	x = x.strip()
	if x == nil {
		return tv{}
	}
	if x.isNil() {
		return tvNil
	}
	if s, ok := x.constStr(); ok {
		return tv{k: 's', s: s, lo: int64(len(s)), hi: int64(len(s))}
	}
	if n, ok := x.constInt(); ok {
		return tvInt(n)
	}
	if v, ok := t.val[t.canon(x)]; ok {
		return v
	}
	switch x.op {
	case "slice":
		if l := t.eval(x.args[0]); (l.k == 'S' || l.k == 's') && l.lo == l.hi {
			lo, ok := t.exact(x.args[1], 0)
			hi, ok2 := t.exact(x.args[2], l.lo)
			if ok && ok2 && 0 <= lo && lo <= hi && hi <= l.lo {
				return tvLen(hi - lo)
			}
		}
	case "conv":
		return t.eval(x.args[0])
	case "builtin":
		if x.s == "len" {
			if v := t.eval(x.args[0]); v.k == 'S' || v.k == 's' {
				return tv{k: 'i', lo: v.lo, hi: v.hi}
			} else if v.k == 'n' {
				return tvInt(0)
			}
		}
	case "un":
		if x.s == "!" {
			if v := t.eval(x.args[0]); v.k == 'i' && v.lo == v.hi {
				return tvInt(1 - v.lo)
			}
		}
	case "alloc", "closure", "makemap", "makeslice":
		return tvPtr
	case "bin":
		a, b := t.eval(x.args[0]), t.eval(x.args[1])
		switch x.s {
		case "+", "-":
			if a.k == 'i' && b.k == 'i' {
				if x.s == "+" {
					return tv{k: 'i', lo: a.lo + b.lo, hi: a.hi + b.hi}
				}
				return tv{k: 'i', lo: a.lo - b.hi, hi: a.hi - b.lo}
			}
		case "==", "!=":
			if r := tvEq(a, b); r >= 0 {
				if x.s == "!=" {
					r = 1 - r
				}
				return tvInt(int64(r))
			}
		case "<", "<=", ">", ">=":
			if a.k != 'i' || b.k != 'i' {
				break
			}
			op := x.s
			if op[0] == '>' {
				a, b = b, a
				op = "<" + op[1:]
			}
			if op == "<" {
				if a.hi < b.lo {
					return tvInt(1)
				}
				if a.lo >= b.hi {
					return tvInt(0)
				}
			} else {
				if a.hi <= b.lo {
					return tvInt(1)
				}
				if a.lo > b.hi {
					return tvInt(0)
				}
			}
		}
	}
	return tv{}
}

// exact: a bound of a slice expression.
func (t *tmplRun) exact(x *Term, dflt int64) (int64, bool) {
	if x == nil || x.op == "none" {
		return dflt, true
	}
	v := t.eval(x)
	return v.lo, v.k == 'i' && v.lo == v.hi
}

func tvEq(a, b tv) int {
	if a.k == 0 || b.k == 0 {
		return -1
	}
	if (a.k == 'n') != (b.k == 'n') {
		o := a
		if a.k == 'n' {
			o = b
		}
		if o.k == 'S' && o.lo > 0 || o.k == 'p' {
			return 0
		}
		if o.k == 'S' && o.hi == 0 {
			return -1
		}
		return -1
	}
	if a.k == 'n' && b.k == 'n' {
		return 1
	}
	if a.k == 'i' && b.k == 'i' {
		if a.lo == a.hi && b.lo == b.hi && a.lo == b.lo {
			return 1
		}
		if a.hi < b.lo || b.hi < a.lo {
			return 0
		}
		return -1
	}
	if a.k == 's' && b.k == 's' {
		if a.s == b.s {
			return 1
		}
		return 0
	}
	if (a.k == 's' || a.k == 'S') && (b.k == 's' || b.k == 'S') {
		if a.hi < b.lo || b.hi < a.lo {
			return 0
		}
		if a.hi == 0 && b.hi == 0 {
			return 1
		}
	}
	return -1
}

// lit renders a value that is written.
func (t *tmplRun) lit(x *Term) string {
	x = x.strip()
	if s, ok := x.constStr(); ok {
		return s
	}
	switch x.op {
	case "conv":
		return t.lit(x.args[0])
	case "bin":
		if x.s == "+" {
			return t.lit(x.args[0]) + t.lit(x.args[1])
		}
	case "slice":
		if x.args[1].op == "none" && x.args[2].op == "none" {
			return t.lit(x.args[0])
		}
	case "load":
		if g := x.args[0]; g.op == "global" {
			if s, ok := t.p.globalText(g.glob); ok {
				return s
			}
		}
	case "call":
		if x.fn != nil {
			switch pkg, recv, n := fnQual(x.fn); {
			case pkg == "strings" && recv == "" && n == "Join" && len(x.args) == 2:
				l := t.eval(x.args[0])
				if sep, ok := x.args[1].strip().constStr(); ok && l.k == 'S' && l.lo == l.hi {
					var ps []string
					for i := int64(0); i < l.lo; i++ {
						ps = append(ps, fmt.Sprintf("{%s[%d]}", t.canon(x.args[0]), i))
					}
					return strings.Join(ps, sep)
				}
			case pkg == "fmt" && n == "Sprintf":
				if s, ok := t.sprintf(x.args); ok {
					return s
				}
			}
		}
	}
	if v := t.eval(x); v.k == 'S' && v.hi == 0 {
		return ""
	} else if v.k == 's' {
		return v.s
	}
	return "{" + t.canon(x) + "}"
}

// sprintf renders fmt.Sprintf("...", a, b) with %s and %d verbs.
func (t *tmplRun) sprintf(args []*Term) (string, bool) {
	f, ok := args[0].strip().constStr()
	if !ok || len(args) != 2 {
		return "", false
	}
	vs, ok := t.variadic(args[1])
	if !ok {
		return "", false
	}
	out := ""
	for i := 0; i < len(f); i++ {
		if f[i] != '%' {
			out += string(f[i])
			continue
		}
		i++
		if i >= len(f) {
			return "", false
		}
		switch f[i] {
		case '%':
			out += "%"
		case 's', 'v':
			if len(vs) == 0 {
				return "", false
			}
			out += t.lit(vs[0])
			vs = vs[1:]
		default:
			return "", false
		}
	}
	return out, len(vs) == 0
}

// variadic reads the arguments packed into a variadic slice.
func (t *tmplRun) variadic(x *Term) ([]*Term, bool) {
	if x.isNil() {
		return nil, true
	}
	if x.op != "slice" || x.args[0].op != "alloc" {
		return nil, false
	}
	var res []*Term
	for i := int64(0); ; i++ {
		k := (&Term{op: "index", args: []*Term{x.args[0], {op: "const", cv: constant.MakeInt64(i)}}}).K()
		v, ok := t.mem[k]
		if !ok {
			break
		}
		res = append(res, v)
	}
	return res, true
}

// globalText is the constant text of a package variable that is assigned only
// by its initialiser.
func (p *Program) globalText(g *ssa.Global) (string, bool) {
	if p.gtext == nil {
		p.gtext = map[*ssa.Global]*string{}
		bad := map[*ssa.Global]bool{}
		for _, fn := range p.allFuncsWithInit() {
			for _, b := range fn.Blocks {
				for _, in := range b.Instrs {
					st, ok := in.(*ssa.Store)
					if !ok {
						continue
					}
					gg, ok := st.Addr.(*ssa.Global)
					if !ok {
						continue
					}
					if _, dup := p.gtext[gg]; dup || fn.Name() != "init" || fn.Synthetic == "" {
						bad[gg] = true
						continue
					}
					if s, ok := constText(st.Val); ok {
						p.gtext[gg] = &s
					} else {
						bad[gg] = true
					}
				}
			}
		}
		for g := range bad {
			delete(p.gtext, g)
		}
	}
	if s := p.gtext[g]; s != nil {
		return *s, true
	}
	return "", false
}

// constText evaluates "..." , []byte("...") and []byte{...} initialisers.
func constText(v ssa.Value) (string, bool) {
	switch x := v.(type) {
	case *ssa.Const:
		if x.Value != nil && x.Value.Kind() == constant.String {
			return constant.StringVal(x.Value), true
		}
	case *ssa.Convert:
		return constText(x.X)
	case *ssa.Slice:
		al, ok := x.X.(*ssa.Alloc)
		if !ok || x.Low != nil || x.High != nil {
			return "", false
		}
		arr, ok := al.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array)
		if !ok {
			return "", false
		}
		buf := make([]byte, arr.Len())
		for _, ref := range *al.Referrers() {
			switch r := ref.(type) {
			case *ssa.IndexAddr:
				ic, ok := r.Index.(*ssa.Const)
				if !ok {
					return "", false
				}
				for _, rr := range *r.Referrers() {
					s, ok := rr.(*ssa.Store)
					if !ok {
						return "", false
					}
					c, ok := s.Val.(*ssa.Const)
					if !ok || c.Value == nil {
						return "", false
					}
					n, _ := constant.Int64Val(constant.ToInt(c.Value))
					buf[cint(ic)] = byte(n)
				}
			case *ssa.Slice, *ssa.DebugRef:
			default:
				return "", false
			}
		}
		return string(buf), true
	}
	return "", false
}

type tmplPath struct {
	out  string
	err  string // "", "nil", "error"
	conds []SymCond
	bad  string
	end  ssa.Instruction
}

// outTemplates runs fn under the valuation and renders what it writes to out.
// opaque names the functions rendered as {name:args} instead of followed.
func (p *Program) outTemplates(fn *ssa.Function, args []*Term, out *Term, val map[string]tv, opaque func(*ssa.Function) bool) ([]tmplPath, error) {
	t := &tmplRun{p: p, val: val, embed: p.embeddedNames(), outP: out}
	y := newSym(p)
	y.unroll = 8
	y.follow = func(f *ssa.Function) bool { return !opaque(f) }
	y.feasible = func(c *Term, v bool) bool {
		r := t.eval(c)
		if r.k == 'i' && r.lo == r.hi {
			return (r.lo != 0) == v
		}
		return true
	}
	paths, err := y.Paths(fn, args)
	if err != nil {
		if os.Getenv("CONDS") != "" {
			for i, c := range y.last {
				if i < 30 {
					fmt.Printf("      %s = %v\n", t.canon(c.t), c.v)
				}
			}
		}
		return nil, err
	}
	var res []tmplPath
	for _, ph := range paths {
		tp := tmplPath{conds: ph.conds, end: ph.end}
		t.mem = ph.mem
		if _, isPanic := ph.end.(*ssa.Return); !isPanic {
			tp.err = "panic"
		}
		for _, e := range ph.events {
			if e.kind != "call" {
				continue
			}
			s, bad := t.write(e)
			tp.out += s
			if bad != "" {
				tp.bad = bad
			}
		}
		if n := len(ph.ret); n > 0 && isErrorType(fn.Signature.Results().At(n-1).Type()) && tp.err == "" {
			tp.err = "nil"
			if r := ph.ret[n-1]; !r.isNil() {
				tp.err = "error"
				if e, _ := t.errPart(r); e == "call" {
					// the error of a write or of a nested dump
					tp.err = "write-error"
					if v, ok := (&SymPath{conds: ph.conds}).nilness(r); ok && v {
						tp.err = "nil"
					} else if !ok {
						tp.err = "nil" // handed on as is: nil unless the write failed
					}
				}
			}
		}
		res = append(res, tp)
	}
	return res, nil
}

// nilness reports whether the path assumes the term to be nil.
func (p *SymPath) nilness(x *Term) (isNil, known bool) {
	k := x.K()
	for _, c := range p.conds {
		if c.t.op != "bin" || (c.t.s != "==" && c.t.s != "!=") {
			continue
		}
		a, b := c.t.args[0], c.t.args[1]
		if b.isNil() && a.K() == k || a.isNil() && b.K() == k {
			return c.v == (c.t.s == "=="), true
		}
	}
	return false, false
}

func (t *tmplRun) errPart(x *Term) (string, *Term) {
	x = x.strip()
	for x.op == "extract" {
		x = x.args[0]
	}
	if x.op == "call" {
		if x.fn != nil && errorMaker(x.fn) {
			return "new", x
		}
		return "call", x
	}
	return x.op, x
}

// isOut: the value is the writer the run started with.
func (t *tmplRun) isOut(x *Term) bool {
	x = x.strip()
	if x == nil {
		return false
	}
	if x.K() == t.outP.K() {
		return true
	}
	if x.op == "alloc" {
		// a writer of the module that wraps it
		for _, f := range structFields(x.typ) {
			k := (&Term{op: "field", s: f, args: []*Term{x}}).K()
			if v, ok := t.mem[k]; ok && v.strip().K() == t.outP.K() {
				return true
			}
		}
	}
	return false
}

func structFields(t types.Type) []string {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	var res []string
	if st, ok := t.Underlying().(*types.Struct); ok {
		for i := 0; i < st.NumFields(); i++ {
			res = append(res, st.Field(i).Name())
		}
	}
	return res
}

func (t *tmplRun) write(e SymEvent) (string, string) {
	if e.fn == nil {
		if e.recv == nil || !t.isOut(e.recv) {
			return "", ""
		}
		switch e.method {
		case "Write", "WriteString":
			return t.lit(e.args[len(e.args)-1]), ""
		}
		return "", "call of " + e.method + " on the writer"
	}
	pkg, recv, name := fnQual(e.fn)
	outAt := -1
	for i, a := range e.args {
		if t.isOut(a) {
			outAt = i
		}
	}
	if outAt < 0 {
		return "", ""
	}
	switch {
	case pkg == "io" && name == "WriteString":
		return t.lit(e.args[1]), ""
	case pkg == "fmt" && (name == "Fprint" || name == "Fprintf" || name == "Fprintln"):
		return t.fprint(name, e.args[1:])
	}
	if t.p.inModule(e.fn) {
		var as []string
		for i, a := range e.args {
			if i == outAt || i == 0 && recv != "" {
				continue
			}
			as = append(as, t.canon(a))
		}
		return "{" + name + ":" + strings.Join(as, ",") + "}", ""
	}
	return "", "unknown use of the writer: " + name
}

func (t *tmplRun) fprint(name string, args []*Term) (string, string) {
	if name == "Fprintf" {
		if s, ok := t.sprintf(args); ok {
			return s, ""
		}
	} else if name == "Fprint" && len(args) == 1 {
		if vs, ok := t.variadic(args[0]); ok && len(vs) == 1 {
			return t.lit(vs[0]), ""
		}
	}
	return "", "formatted output that is not understood"
}
