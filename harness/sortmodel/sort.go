// Package sortmodel has the functions of package sort that use reflection,
// without it. The engine calls them in place of the library's.
package sortmodel

import (
	"sort"

	"vfh/vf"
)

type lessSwap struct {
	n    int
	less func(i, j int) bool
	x    any
}

func (s *lessSwap) Len() int           { return s.n }
func (s *lessSwap) Less(i, j int) bool { return s.less(i, j) }
func (s *lessSwap) Swap(i, j int)      { vf.AnySwap(s.x, i, j) }

func Slice(x any, less func(i, j int) bool) { sort.Sort(&lessSwap{vf.AnyLen(x), less, x}) }

func SliceStable(x any, less func(i, j int) bool) { sort.Stable(&lessSwap{vf.AnyLen(x), less, x}) }

func SliceIsSorted(x any, less func(i, j int) bool) bool {
	for i := vf.AnyLen(x) - 1; i > 0; i-- {
		if less(i, i-1) {
			return false
		}
	}
	return true
}
