package main

import (
	"go/constant"
	"go/types"
	"math"
	"sort"
	"strconv"

	"golang.org/x/tools/go/ssa"
)

func sortedKeys[V any](m map[string]V) []string {
	l := make([]string, 0, len(m))
	for k := range m {
		l = append(l, k)
	}
	sort.Strings(l)
	return l
}

func constInt64(c *types.Const) (int64, bool) {
	return constant.Int64Val(constant.ToInt(c.Val()))
}

func itoa(n int) string { return strconv.Itoa(n) }

// cint is the value of an integer constant; no integer is ever the least one.
func cint(c *ssa.Const) int64 {
	if c.Value == nil || c.Value.Kind() != constant.Int {
		return math.MinInt64
	}
	n, ok := constant.Int64Val(c.Value)
	if !ok {
		return math.MinInt64
	}
	return n
}
