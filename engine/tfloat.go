package main

import (
	"math"
	"sort"
)

// TF is a float that is an exact function of a few small-domain selection
// variables: vals[mixed radix index of vars] (first var most significant).
type TF struct {
	vars []*Term
	vals []float64
}

const tfMax = 1 << 16

func domOf(v *Term) int { return int(v.hi) + 1 }

// evaluator-shaped lift of f over the union of variables
func tfLift(xs []Value, f func(a []float64) float64) (Value, bool) {
	var vars []*Term
	seen := map[*Term]bool{}
	for _, x := range xs {
		if t, ok := x.p.(*TF); ok {
			for _, v := range t.vars {
				if !seen[v] {
					seen[v] = true
					vars = append(vars, v)
				}
			}
		}
	}
	sort.Slice(vars, func(i, j int) bool { return before(vars[i], vars[j]) })
	size := 1
	for _, v := range vars {
		size *= domOf(v)
		if size > tfMax {
			return Value{}, false
		}
	}
	// strides of each operand
	strides := make([][]int, len(xs))
	for k, x := range xs {
		t, ok := x.p.(*TF)
		if !ok {
			continue
		}
		st := make([]int, len(vars))
		m := 1
		for i := len(t.vars) - 1; i >= 0; i-- {
			for j, v := range vars {
				if v == t.vars[i] {
					st[j] = m
				}
			}
			m *= domOf(t.vars[i])
		}
		strides[k] = st
	}
	vals := make([]float64, size)
	dig := make([]int, len(vars))
	off := make([]int, len(xs))
	a := make([]float64, len(xs))
	for i := 0; i < size; i++ {
		for k, x := range xs {
			if strides[k] == nil {
				a[k] = x.f64()
			} else {
				a[k] = x.p.(*TF).vals[off[k]]
			}
		}
		vals[i] = f(a)
		for j := len(vars) - 1; j >= 0; j-- {
			dig[j]++
			if dig[j] < domOf(vars[j]) {
				for k := range xs {
					if strides[k] != nil {
						off[k] += strides[k][j]
					}
				}
				break
			}
			for k := range xs {
				if strides[k] != nil {
					off[k] -= strides[k][j] * (dig[j] - 1)
				}
			}
			dig[j] = 0
		}
	}
	return tfNorm(vars, vals), true
}

func sameBits(a, b float64) bool { return math.Float64bits(a) == math.Float64bits(b) }

// tfNorm drops variables the table does not depend on.
func tfNorm(vars []*Term, vals []float64) Value {
	for i := 0; i < len(vars); i++ {
		inner := 1
		for j := i + 1; j < len(vars); j++ {
			inner *= domOf(vars[j])
		}
		d := domOf(vars[i])
		outer := len(vals) / (inner * d)
		dep := false
	loop:
		for o := 0; o < outer; o++ {
			for n := 0; n < inner; n++ {
				b := vals[o*d*inner+n]
				for k := 1; k < d; k++ {
					if !sameBits(b, vals[(o*d+k)*inner+n]) {
						dep = true
						break loop
					}
				}
			}
		}
		if !dep {
			nv := make([]float64, 0, outer*inner)
			for o := 0; o < outer; o++ {
				for n := 0; n < inner; n++ {
					nv = append(nv, vals[o*d*inner+n])
				}
			}
			vals = nv
			vars = append(append([]*Term{}, vars[:i]...), vars[i+1:]...)
			i--
		}
	}
	if len(vars) == 0 {
		return vF(vals[0])
	}
	return Value{p: &TF{vars, vals}}
}

// tfBool turns a 0/1 table into a Bool term.
func (tt *TermTab) tfBool(v Value) *Term {
	t, ok := v.p.(*TF)
	if !ok {
		return tt.Bool(v.f64() != 0)
	}
	var rec func(i int, vals []float64) *Term
	rec = func(i int, vals []float64) *Term {
		all := true
		for _, x := range vals {
			if x != vals[0] {
				all = false
				break
			}
		}
		if all {
			return tt.Bool(vals[0] != 0)
		}
		v := t.vars[i]
		d := domOf(v)
		n := len(vals) / d
		sub := make([]*Term, d)
		groups := map[*Term][][2]uint64{}
		var order []*Term
		for k := 0; k < d; k++ {
			sub[k] = rec(i+1, vals[k*n:(k+1)*n])
			if _, ok := groups[sub[k]]; !ok {
				order = append(order, sub[k])
			}
			groups[sub[k]] = append(groups[sub[k]], [2]uint64{uint64(k), uint64(k)})
		}
		var ors []*Term
		for _, s := range order {
			ors = append(ors, tt.And(tt.In(v, groups[s]), s))
		}
		return tt.Or(ors...)
	}
	return rec(0, t.vals)
}

// tfInt turns a table of integers into a BV term of width w.
func (tt *TermTab) tfBV(t *TF, w uint8) *Term {
	by := map[uint64][]float64{}
	var order []uint64
	for i, x := range t.vals {
		k := uint64(int64(x)) & mask(w)
		if _, ok := by[k]; !ok {
			by[k] = make([]float64, len(t.vals))
			order = append(order, k)
		}
		by[k][i] = 1
	}
	res := tt.Const(w, order[0])
	for _, k := range order[1:] {
		res = tt.Ite(tt.tfBool(Value{p: &TF{t.vars, by[k]}}), tt.Const(w, k), res)
	}
	return res
}
