package main

import (
	"encoding/json"
	"go/ast"
	"go/constant"
	"go/token"
	"os"
	"sort"
	"strconv"
)

// guardConstants collects the integer constants that appear in comparisons, switch cases, modulo
// and mask expressions of the repository. Constants that are not in the committed baseline are
// boundaries somebody has just introduced: the shape parameters of the obligations additionally
// take these values and their neighbours.
func guardConstants(w *World) map[string][]int64 {
	res := map[string]map[int64]bool{}
	for _, p := range w.Order {
		if !p.Repo {
			continue
		}
		set := map[int64]bool{}
		res[p.Types.Name()] = set
		add := func(e ast.Expr) {
			tv, ok := p.Info.Types[e]
			if !ok || tv.Value == nil || tv.Value.Kind() != constant.Int {
				return
			}
			if n, ok := constant.Int64Val(tv.Value); ok && n >= 0 && n <= 100000 {
				set[n] = true
			}
		}
		for _, f := range p.Files {
			ast.Inspect(f, func(n ast.Node) bool {
				switch x := n.(type) {
				case *ast.BinaryExpr:
					switch x.Op {
					case token.EQL, token.NEQ, token.LSS, token.LEQ, token.GTR, token.GEQ, token.REM, token.AND, token.SHR, token.QUO:
						add(x.X)
						add(x.Y)
					}
				case *ast.CaseClause:
					for _, e := range x.List {
						add(e)
					}
				case *ast.CallExpr:
					if id, ok := x.Fun.(*ast.Ident); ok && (id.Name == "min" || id.Name == "max") {
						for _, e := range x.Args {
							add(e)
						}
					}
				case *ast.SliceExpr:
					for _, e := range []ast.Expr{x.Low, x.High, x.Max} {
						if e != nil {
							add(e)
						}
					}
				}
				return true
			})
		}
	}
	out := map[string][]int64{}
	for k, s := range res {
		for n := range s {
			out[k] = append(out[k], n)
		}
		sort.Slice(out[k], func(i, j int) bool { return out[k][i] < out[k][j] })
	}
	return out
}

func novelGuards(w *World, file string) []int64 {
	base := map[string][]int64{}
	if b, err := os.ReadFile(file); err == nil {
		json.Unmarshal(b, &base)
	}
	seen := map[string]bool{}
	for k, l := range base {
		for _, n := range l {
			seen[k+strconv.FormatInt(n, 10)] = true
		}
	}
	set := map[int64]bool{}
	for k, l := range guardConstants(w) {
		for _, n := range l {
			if n > 1 && !seen[k+strconv.FormatInt(n, 10)] {
				set[n] = true
			}
		}
	}
	var out []int64
	for n := range set {
		out = append(out, n)
	}
	sort.Slice(out, func(i, j int) bool { return out[i] < out[j] })
	if len(out) > 12 {
		out = out[:12]
	}
	return out
}
