package main

import (
	"fmt"
	"math"
	"strconv"
	"strings"
	"unicode"
)

// Set is an interned, immutable, normalised union of closed int64 intervals.
type Set struct {
	r    [][2]int64
	key  string // short unique id
	text string
}

var (
	interCache = map[[2]*Set]*Set{}
	unionCache = map[[2]*Set]*Set{}
	complCache = map[*Set]*Set{}
	internTab  = map[string]*Set{}
)

const (
	minI = math.MinInt64
	maxI = math.MaxInt64
)

func mkSet(r [][2]int64) *Set {
	// normalise (assumes sorted by lo)
	out := make([][2]int64, 0, len(r))
	for _, iv := range r {
		if iv[0] > iv[1] {
			continue
		}
		if n := len(out); n > 0 && (out[n-1][1] == maxI || iv[0] <= out[n-1][1]+1) {
			if iv[1] > out[n-1][1] {
				out[n-1][1] = iv[1]
			}
			continue
		}
		out = append(out, iv)
	}
	var kb []byte
	for _, iv := range out {
		kb = strconv.AppendInt(kb, iv[0], 36)
		kb = append(kb, ':')
		kb = strconv.AppendInt(kb, iv[1], 36)
		kb = append(kb, ';')
	}
	k := string(kb)
	if s, ok := internTab[k]; ok {
		return s
	}
	s := &Set{r: out, key: strconv.Itoa(len(internTab)), text: k}
	internTab[k] = s
	return s
}

func interval(lo, hi int64) *Set { return mkSet([][2]int64{{lo, hi}}) }
func single(v int64) *Set        { return interval(v, v) }

var (
	emptySet = mkSet(nil)
	fullInt  = interval(minI, maxI)
	boolSet  = interval(0, 1)
)

func (s *Set) Empty() bool { return len(s.r) == 0 }
func (s *Set) IsSingle() (int64, bool) {
	if len(s.r) == 1 && s.r[0][0] == s.r[0][1] {
		return s.r[0][0], true
	}
	return 0, false
}
func (s *Set) Min() int64 { return s.r[0][0] }
func (s *Set) Max() int64 { return s.r[len(s.r)-1][1] }
func (s *Set) Has(v int64) bool {
	for _, iv := range s.r {
		if v >= iv[0] && v <= iv[1] {
			return true
		}
	}
	return false
}
func (s *Set) Count() float64 {
	n := 0.0
	for _, iv := range s.r {
		n += float64(iv[1]) - float64(iv[0]) + 1
	}
	return n
}

func (s *Set) Inter(t *Set) *Set {
	if s == t {
		return s
	}
	ck := [2]*Set{s, t}
	if c, ok := interCache[ck]; ok {
		return c
	}
	var out [][2]int64
	i, j := 0, 0
	for i < len(s.r) && j < len(t.r) {
		lo, hi := s.r[i][0], s.r[i][1]
		if t.r[j][0] > lo {
			lo = t.r[j][0]
		}
		if t.r[j][1] < hi {
			hi = t.r[j][1]
		}
		if lo <= hi {
			out = append(out, [2]int64{lo, hi})
		}
		if s.r[i][1] < t.r[j][1] {
			i++
		} else {
			j++
		}
	}
	c := mkSet(out)
	interCache[ck] = c
	return c
}

func (s *Set) Union(t *Set) *Set {
	if s == t {
		return s
	}
	ck := [2]*Set{s, t}
	if c, ok := unionCache[ck]; ok {
		return c
	}
	var out [][2]int64
	i, j := 0, 0
	for i < len(s.r) || j < len(t.r) {
		if j >= len(t.r) || (i < len(s.r) && s.r[i][0] <= t.r[j][0]) {
			out = append(out, s.r[i])
			i++
		} else {
			out = append(out, t.r[j])
			j++
		}
	}
	c := mkSet(out)
	unionCache[ck] = c
	return c
}

func (s *Set) Compl() *Set {
	if c, ok := complCache[s]; ok {
		return c
	}
	c := s.compl()
	complCache[s] = c
	return c
}

func (s *Set) compl() *Set {
	var out [][2]int64
	lo := int64(minI)
	for _, iv := range s.r {
		if iv[0] > lo {
			out = append(out, [2]int64{lo, iv[0] - 1})
		}
		if iv[1] == maxI {
			return mkSet(out)
		}
		lo = iv[1] + 1
	}
	out = append(out, [2]int64{lo, maxI})
	return mkSet(out)
}

func (s *Set) Minus(t *Set) *Set { return s.Inter(t.Compl()) }
func (s *Set) SubsetOf(t *Set) bool {
	return s.Minus(t).Empty()
}

func satAdd(a, b int64) int64 {
	if a == minI || b == minI {
		return minI
	}
	if a == maxI || b == maxI {
		return maxI
	}
	c := a + b
	if (c > a) == (b > 0) {
		return c
	}
	if b > 0 {
		return maxI
	}
	return minI
}

func (s *Set) Shift(k int64) *Set {
	out := make([][2]int64, 0, len(s.r))
	for _, iv := range s.r {
		out = append(out, [2]int64{satAdd(iv[0], k), satAdd(iv[1], k)})
	}
	return mkSet(out)
}

func (s *Set) String() string {
	if s == fullInt {
		return "ANY"
	}
	if s.Empty() {
		return "{}"
	}
	var sb strings.Builder
	sb.WriteByte('{')
	n := 0
	for i, iv := range s.r {
		if i > 0 {
			sb.WriteByte(',')
		}
		n++
		if n > 12 {
			fmt.Fprintf(&sb, "...%d ranges", len(s.r))
			break
		}
		p := func(v int64) string {
			switch {
			case v == minI:
				return "-inf"
			case v == maxI:
				return "+inf"
			case v > 0x20 && v < 0x7f:
				return fmt.Sprintf("%q", rune(v))
			default:
				return fmt.Sprintf("%#x", v)
			}
		}
		if iv[0] == iv[1] {
			sb.WriteString(p(iv[0]))
		} else {
			sb.WriteString(p(iv[0]) + "-" + p(iv[1]))
		}
	}
	sb.WriteByte('}')
	return sb.String()
}

func tableSet(ts ...*unicode.RangeTable) *Set {
	var all *Set = emptySet
	for _, t := range ts {
		var out [][2]int64
		add := func(lo, hi, stride int64) {
			if stride == 1 {
				out = append(out, [2]int64{lo, hi})
				return
			}
			for v := lo; v <= hi; v += stride {
				out = append(out, [2]int64{v, v})
			}
		}
		for _, r := range t.R16 {
			add(int64(r.Lo), int64(r.Hi), int64(r.Stride))
		}
		for _, r := range t.R32 {
			add(int64(r.Lo), int64(r.Hi), int64(r.Stride))
		}
		all = all.Union(mkSet(out))
	}
	return all
}

// wrap maps the set into an integer type of the given size/signedness.
func (s *Set) wrap(lo, hi int64, bits uint) *Set {
	if s.Empty() || (s.Min() >= lo && s.Max() <= hi) {
		return s
	}
	tr := interval(lo, hi)
	if bits >= 64 {
		return tr
	}
	mod := int64(1) << bits
	res := s.Inter(tr)
	out := s.Minus(tr)
	for _, iv := range out.r {
		if iv[0] == minI || iv[1] == maxI || iv[1]-iv[0] >= mod {
			return tr
		}
		a := iv[0]
		for a <= iv[1] {
			// chunk within one modulus window
			q := floorDiv(a-lo, mod)
			end := lo + q*mod + mod - 1
			b := iv[1]
			if end < b {
				b = end
			}
			res = res.Union(interval(a-q*mod, b-q*mod))
			a = b + 1
		}
	}
	return res
}

func floorDiv(a, b int64) int64 {
	q := a / b
	if a%b != 0 && (a < 0) != (b < 0) {
		q--
	}
	return q
}

// xml character sets used by several rules (the specification side).
var (
	runeErr  = single(0xFFFD)
	anyRune  = interval(0, 0xD7FF).Union(interval(0xE000, 0x10FFFF))
	realRune = anyRune.Minus(runeErr)
	// XML 1.0 production [2] Char.  U+FFFD is left out: the cursor uses it as
	// its end-of-input / undecodable marker.
	xmlChar = mkSet([][2]int64{{0x9, 0xA}, {0xD, 0xD}, {0x20, 0xD7FF}, {0xE000, 0xFFFC}, {0x10000, 0x10FFFF}})
	xmlS    = mkSet([][2]int64{{0x9, 0xA}, {0xD, 0xD}, {0x20, 0x20}})

	uniLetter = tableSet(unicode.Letter)
	uniDigit  = tableSet(unicode.Digit)
)

func charSet(s string) *Set {
	r := emptySet
	for _, c := range s {
		r = r.Union(single(int64(c)))
	}
	return r
}

var uniTables = map[string]*Set{}

// uniTableByName returns the members of an exported unicode table.
func uniTableByName(n string) *Set {
	if s, ok := uniTables[n]; ok {
		return s
	}
	var t *unicode.RangeTable
	switch n {
	case "Extender":
		t = unicode.Extender
	case "Diacritic":
		t = unicode.Diacritic
	case "Letter":
		t = unicode.Letter
	case "Digit":
		t = unicode.Digit
	case "Number":
		t = unicode.Number
	case "Mark":
		t = unicode.Mark
	default:
		if x, ok := unicode.Categories[n]; ok {
			t = x
		} else if x, ok := unicode.Properties[n]; ok {
			t = x
		} else if x, ok := unicode.Scripts[n]; ok {
			t = x
		}
	}
	if t == nil {
		return nil
	}
	s := tableSet(t)
	uniTables[n] = s
	return s
}
