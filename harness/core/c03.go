package core

import (
	"math"

	"github.com/go-ego/gse"

	"vfh/vf"
)

// optimal compares the segmentation with the best one over all ways to
// divide the text into dictionary words and unknown units.
func optimal(ws []word, s string, mode bool) {
	seg := newSeg()
	addAll(seg, ws)
	optimalOf(seg, ws, s, mode)
}

func optimalOf(seg *gse.Segmenter, ws []word, s string, mode bool) {
	seg.CalcToken()
	total := 0.0
	longest := 0
	for _, w := range ws {
		total += w.freq
		longest = max(longest, len(seg.SplitTextToWords([]byte(w.text))))
	}
	rs := seg.SplitTextToWords([]byte(s))
	if mode && len(rs) < 2 {
		return
	}
	segs := seg.ModeSegment([]byte(s), mode)
	dist := func(t string) float64 {
		if w, ok := find(ws, t); ok {
			return math.Log2(total) - math.Log2(w.freq)
		}
		return 32
	}
	got := 0.0
	for i := range segs {
		got += dist(segs[i].Token().Text())
		vf.ObsS(segs[i].Token().Text())
	}
	best := make([]float64, len(rs)+1)
	for i := 1; i <= len(rs); i++ {
		set := false
		for j := max(0, i-max(longest, 1)); j < i; j++ {
			t := gse.Join(rs[j:i])
			_, ok := find(ws, t)
			if !ok && i-j > 1 || mode && i-j == len(rs) {
				continue
			}
			d := best[j] + dist(t)
			if !set || d < best[i] {
				best[i] = d
				set = true
			}
		}
	}
	// the distances are sums of 32-bit numbers
	tol := 1e-4
	if len(rs) > 8 {
		tol = 1e-3
	}
	vf.Assert(abs(got-best[len(rs)]) < tol, "the segmentation is a shortest path")
}

// C03_free: any two or three words, frequencies from a menu, any text.
func C03_free() {
	a := near(1 + vf.Pick(2))
	b := near(1 + vf.Pick(3))
	vf.Assume(a != b)
	ws := []word{{a, vf.SelF(0.01, 1, 4, 3e7), "n"}, {b, vf.SelF(2, 40), "v"}}
	n := vf.Pick(vf.Bound(5, 6))
	optimal(ws, near(n), vf.Pick(2) == 1)
}

// C03_sets: every set of words of a universe with overlaps.
func C03_sets() {
	ws := some([]word{{"七一", 5, ""}, {"一", vf.SelF(1, 90), "n"}, {"一丁", vf.SelF(1, 9), "v"}, {"丁", 2, ""}, {"丁七", vf.SelF(0.5, 30), ""}, {"一丁七", vf.SelF(1, 8), ""}})
	n := vf.Pick(vf.Bound(5, 6))
	optimal(ws, near(n), vf.Pick(2) == 1)
}

// C03_single: one word that is the whole dictionary has distance zero.
func C03_single() {
	ws := []word{{near(1 + vf.Pick(3)), vf.SelF(1, 7), ""}}
	n := vf.Pick(vf.Bound(7, 8))
	optimal(ws, near(n), vf.Pick(2) == 1)
}

// C03_scenes: many kinds of dictionaries and texts.
func C03_scenes() {
	c := sceneOf(vf.Pick(scenes))
	optimalOf(c.seg, c.ws, c.s, vf.Pick(2) == 1)
}

// C03_near: divisions that hardly differ.
func C03_near() {
	f := func() float64 { return vf.SelF(100000, 100020, 100050) }
	ws := []word{{"一丁", f(), "n"}, {"丁七", f(), "v"}, {"一", vf.SelF(500, 500.2), "m"}, {"七", 500, "q"}, {near(3), vf.SelF(245, 7000), ""}}
	optimal(ws, near(vf.Bound(3, 4)), vf.Pick(2) == 1)
}
