package main

import (
	"go/constant"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func sortedKeys[V any](m map[string]V) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

// Path of a package of generic helpers, experimental or not
func stdPath(f *ssa.Function) string {
	pk := fnPkg(f)
	if pk == nil {
		return ""
	}
	return strings.TrimPrefix(pk.Path(), "golang.org/x/exp/")
}

func isString(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

func constText(k *ssa.Const) string { return constant.StringVal(k.Value) }
