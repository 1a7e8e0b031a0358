package main

import (
	"math"

	"golang.org/x/tools/go/ssa"
)

// Assembler bodies of package math, on concrete values.
func init() {
	two := map[string]func(a, b float64) float64{"math.archMin": math.Min, "math.archMax": math.Max, "math.Min": math.Min, "math.Max": math.Max, "math.Pow": math.Pow, "math.Mod": math.Mod}
	for n, f := range two {
		reg(func(w *W, fr *frame, fn *ssa.Function, a []Value) Value {
			x, ok1 := a[0].(float64)
			y, ok2 := a[1].(float64)
			if !ok1 || !ok2 {
				unsupported("%s of symbolic floats", fn)
			}
			return f(x, y)
		}, n)
	}
	one := map[string]func(a float64) float64{"math.archFloor": math.Floor, "math.archCeil": math.Ceil, "math.archTrunc": math.Trunc, "math.Floor": math.Floor,
		"math.Ceil": math.Ceil, "math.Trunc": math.Trunc, "math.Round": math.Round, "math.Sqrt": math.Sqrt, "math.sqrt": math.Sqrt, "math.Log10": math.Log10, "math.Log": math.Log, "math.Log2": math.Log2, "math.Exp": math.Exp, "math.archExp": math.Exp, "math.archLog": math.Log}
	for n, f := range one {
		reg(func(w *W, fr *frame, fn *ssa.Function, a []Value) Value {
			x, ok := a[0].(float64)
			if !ok {
				unsupported("%s of a symbolic float", fn)
			}
			return f(x)
		}, n)
	}
}
