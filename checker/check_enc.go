package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("N01", "proof",
		"the name lookup is partially evaluated into a table name -> decoder (every comparison of its decision tree, or the literal of its map), and compared with an independent table of names; the lookup must depend on the lower-cased name only and reject every name it does not compare with",
		checkN01,
		"the variables of golang.org/x/text/encoding/* are the decoders their names say")
}

// encOracle: decoder variable(s) that may serve a name, per IANA/WHATWG.
var encOracle = map[string]string{
	"utf8": "unicode.UTF8", "utf-8": "unicode.UTF8",
	"euc-jp":    "japanese.EUCJP",
	"shift_jis": "japanese.ShiftJIS", "shift-jis": "japanese.ShiftJIS", "shiftjis": "japanese.ShiftJIS", "cp932": "japanese.ShiftJIS",
	"jis": "japanese.ISO2022JP", "iso-2022-jp": "japanese.ISO2022JP",
	"big5":       "traditionalchinese.Big5",
	"euc-kr":     "korean.EUCKR",
	"hz-gb2312":  "simplifiedchinese.HZGB2312",
	"cp437":      "charmap.CodePage437",
	"cp866":      "charmap.CodePage866",
	"koi8r":      "charmap.KOI8R",
	"koi8-r":     "charmap.KOI8R",
	"koir8u":     "charmap.KOI8U",
	"koi8u":      "charmap.KOI8U",
	"koi8-u":     "charmap.KOI8U",
	"macintosh":  "charmap.Macintosh",
	"iso-8859-1": "charmap.Windows1252|charmap.ISO8859_1",

	"macintoshcyrillic": "charmap.MacintoshCyrillic",
	"xuserdefined":      "charmap.XUserDefined",
}

func init() {
	for _, n := range []int{2, 3, 4, 5, 6, 7, 8, 10, 13, 14, 15, 16} {
		encOracle[fmt.Sprintf("iso-8859-%d", n)] = fmt.Sprintf("charmap.ISO8859_%d", n)
	}
	for _, n := range []int{874, 1250, 1251, 1252, 1253, 1254, 1255, 1256, 1257, 1258} {
		encOracle[fmt.Sprintf("windows%d", n)] = fmt.Sprintf("charmap.Windows%d", n)
	}
}

// names beyond the ones served today, judged if a later version adds them
var encExtra = map[string]string{
	"gbk": "simplifiedchinese.GBK", "gb18030": "simplifiedchinese.GB18030", "cp936": "simplifiedchinese.GBK", "gb2312": "simplifiedchinese.GBK|simplifiedchinese.HZGB2312",
	"iso88599": "charmap.ISO8859_9|charmap.Windows1254", "latin1": "charmap.Windows1252|charmap.ISO8859_1", "usascii": "charmap.Windows1252|unicode.UTF8", "ascii": "charmap.Windows1252|unicode.UTF8",
	"cp850": "charmap.CodePage850", "cp852": "charmap.CodePage852", "ibm866": "charmap.CodePage866", "sjis": "japanese.ShiftJIS",
	"utf16": "unicode.UTF16", "cp949": "korean.EUCKR",
}

func encNorm(s string) string {
	return strings.NewReplacer("-", "", "_", "", " ", "", ".", "").Replace(strings.ToLower(s))
}

// decoderName names the package variable a returned encoding comes from.
func decoderName(t *Term) string {
	t = t.strip()
	if t == nil {
		return "?"
	}
	if t.isNil() {
		return "nil"
	}
	if t.op == "load" && t.args[0].op == "global" {
		g := t.args[0].glob
		return g.Pkg.Pkg.Name() + "." + g.Name()
	}
	if t.op == "global" {
		return t.glob.Pkg.Pkg.Name() + "." + t.glob.Name()
	}
	return "? " + t.K()
}

// globalMap reads the contents of a package-level map that is filled by the
// package initialiser only: constant string key -> value.
func (p *Program) globalMap(g *ssa.Global) (map[string]ssa.Value, error) {
	var mk ssa.Value
	for _, fn := range p.allFuncsWithInit() {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if s, ok := in.(*ssa.Store); ok && s.Addr == g {
					if fn.Name() != "init" || mk != nil {
						return nil, fmt.Errorf("%s is assigned in %s", g.Name(), shortFn(fn))
					}
					mk = s.Val
				}
				if mu, ok := in.(*ssa.MapUpdate); ok {
					if ld, ok := mu.Map.(*ssa.UnOp); ok && ld.X == g {
						return nil, fmt.Errorf("%s is updated in %s", g.Name(), shortFn(fn))
					}
				}
			}
		}
	}
	mm, ok := mk.(*ssa.MakeMap)
	if !ok {
		return nil, fmt.Errorf("%s is not a map literal", g.Name())
	}
	out := map[string]ssa.Value{}
	for _, ref := range *mm.Referrers() {
		mu, ok := ref.(*ssa.MapUpdate)
		if !ok {
			continue
		}
		c, ok := mu.Key.(*ssa.Const)
		if !ok || c.Value == nil || c.Value.Kind() != constant.String {
			return nil, fmt.Errorf("%s has a key that is not a constant", g.Name())
		}
		out[constant.StringVal(c.Value)] = mu.Value
	}
	return out, nil
}

func ssaDecoder(v ssa.Value) string {
	for {
		switch x := v.(type) {
		case *ssa.MakeInterface:
			v = x.X
			continue
		case *ssa.ChangeInterface:
			v = x.X
			continue
		case *ssa.UnOp:
			v = x.X
			continue
		case *ssa.Global:
			return x.Pkg.Pkg.Name() + "." + x.Name()
		case *ssa.Const:
			if x.Value == nil {
				return "nil"
			}
		}
		return "? " + v.String()
	}
}

func checkN01(p *Program, r *Report) {
	fn := p.fn("encoding", "Load")
	if fn == nil {
		r.fail("anchor", "encoding.Load", "?", "not found")
		return
	}
	r.fn(shortFn(fn))
	pos := p.pos(fn.Pos())
	y := newSym(p)
	paths, err := y.Paths(fn, nil)
	if err != nil {
		r.undecided("lookup", "encoding.Load", pos, err.Error())
		return
	}
	isLower := func(t *Term) bool {
		t = t.strip()
		for t.op == "call" && t.fn != nil && (t.fn.Name() == "TrimSpace" || t.fn.Name() == "ToLower") && fnPkg(t.fn).Path() == "strings" {
			if t.fn.Name() == "ToLower" {
				in := t.args[0].strip()
				for in.op == "call" && in.fn != nil && in.fn.Name() == "TrimSpace" {
					in = in.args[0]
				}
				return in.op == "param"
			}
			t = t.args[0]
		}
		return false
	}
	// the map lookups that decide a path: term key -> global
	table := map[string]string{} // lower-case name -> decoder
	bad := func(f string, a ...interface{}) {
		r.fail("lookup", "encoding.Load", pos, fmt.Sprintf(f, a...))
	}
	defaults := 0
	addTable := func(n, d string) {
		if old, ok := table[n]; ok && old != d {
			bad("%q selects both %s and %s", n, old, d)
		}
		table[n] = d
	}
	var mapOf func(t *Term) (*ssa.Global, bool)
	mapOf = func(t *Term) (*ssa.Global, bool) {
		t = t.strip()
		if t.op == "extract" {
			t = t.args[0]
		}
		if t.op == "lookup" && isLower(t.args[1]) && t.args[0].op == "load" && t.args[0].args[0].op == "global" {
			return t.args[0].args[0].glob, true
		}
		return nil, false
	}
	useMap := func(g *ssa.Global) {
		m, err := p.globalMap(g)
		if err != nil {
			bad("undecided: %v", err)
			return
		}
		for k, v := range m {
			addTable(k, ssaDecoder(v))
		}
	}
	for _, pa := range paths {
		if len(pa.ret) != 1 {
			bad("a path does not return")
			continue
		}
		for _, e := range pa.events {
			if e.kind != "call" || e.fn == nil || !pureLib(e.fn) {
				bad("side effect or unknown call while looking a name up (%s)", e.kind)
			}
		}
		sel, hasSel := "", false
		folded := false
		viaMap := false
		for _, c := range pa.conds {
			t := c.t
			if t.op == "bin" && (t.s == "==" || t.s == "!=") {
				a, b := t.args[0], t.args[1]
				s, ok := b.constStr()
				if !ok {
					s, ok = a.constStr()
					a = b
				}
				if ok && isLower(a) {
					if c.v == (t.s == "==") {
						sel, hasSel = s, true
					}
					continue
				}
				if _, ok := mapOf(a); ok && (b.isNil() || a.isNil()) {
					viaMap = true
					continue
				}
			}
			if t.op == "call" && t.fn != nil && t.fn.Name() == "EqualFold" {
				s, ok := t.args[1].constStr()
				o := t.args[0]
				if !ok {
					s, ok = t.args[0].constStr()
					o = t.args[1]
				}
				if ok && (o.op == "param" || isLower(o)) {
					if c.v {
						sel, hasSel, folded = strings.ToLower(s), true, true
					}
					continue
				}
			}
			if _, ok := mapOf(t); ok {
				viaMap = true
				continue
			}
			bad("the lookup depends on something other than the lower-cased name: %s", t.K())
		}
		_ = folded
		ret := pa.ret[0]
		if g, ok := mapOf(ret); ok {
			useMap(g)
			if hasSel {
				bad("mixed lookup")
			}
			defaults++
			continue
		}
		d := decoderName(ret)
		if hasSel {
			if sel != strings.ToLower(sel) {
				bad("%q can never match a lower-cased name", sel)
			}
			addTable(sel, d)
			continue
		}
		if viaMap && d == "nil" {
			defaults++
			continue
		}
		defaults++
		r.add("unknown-name", "encoding.Load default", pos, d == "nil", "a name that matches nothing selects "+d)
	}
	if defaults == 0 {
		bad("no path for unknown names")
	}
	r.ok("lookup", "encoding.Load", pos, "depends on the lower-cased name only")
	var names []string
	for n := range encOracle {
		names = append(names, n)
	}
	sort.Strings(names)
	match := func(d, want string) bool {
		for _, w := range strings.Split(want, "|") {
			if w == d {
				return true
			}
		}
		return false
	}
	norm := map[string]string{}
	for n, w := range encOracle {
		norm[encNorm(n)] = w
	}
	for n, w := range encExtra {
		norm[encNorm(n)] = w
	}
	for _, n := range names {
		d, ok := table[n]
		r.add("name", n, pos, ok && match(d, encOracle[n]), fmt.Sprintf("selects %s, should select %s", d, encOracle[n]))
	}
	var more []string
	for n := range table {
		if _, ok := encOracle[n]; !ok {
			more = append(more, n)
		}
	}
	sort.Strings(more)
	for _, n := range more {
		if w, ok := norm[encNorm(n)]; ok {
			r.add("name", n, pos, match(table[n], w), fmt.Sprintf("selects %s, should select %s", table[n], w))
		} else {
			r.note("name %q -> %s is not in the oracle and was not judged", n, table[n])
		}
	}
	r.min("name", len(encOracle))
	r.stats["paths"] = len(paths)
	_ = types.Typ
}
