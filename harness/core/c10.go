package core

import (
	"github.com/go-ego/gse"

	"vfh/vf"
)

// grams is the reference: before a word its two-rune and then its three-rune
// parts that are words themselves.
func grams(seg *gse.Segmenter, ws []word, s string, hmm bool) {
	got := seg.CutSearch(s, hmm)
	vf.ObsSS(got)
	var want []string
	for _, w := range seg.Cut(s, hmm) {
		rs := []rune(w)
		for k := 2; k <= 3 && k < len(rs); k++ {
			for i := 0; i+k <= len(rs); i++ {
				if x, ok := find(ws, string(rs[i:i+k])); ok && x.freq > 0 {
					want = append(want, x.text)
				}
			}
		}
		want = append(want, w)
	}
	vf.Assert(len(got) == len(want), "the number of words of the search mode")
	for i := range got {
		vf.Assert(got[i] == want[i], "the words of the search mode")
	}
}

// C10_sets: every set of words inside a long word.
func C10_sets() {
	seg := newSeg()
	model(seg)
	ws := some([]word{{"一丁", 4, ""}, {"丁七", vf.SelF(0.5, 3), ""}, {"七三", 2, ""}, {"一丁七", 3, ""}, {"丁七三", 3, ""}})
	ws = append(ws, word{"一丁七三", vf.SelF(90, 200), ""})
	addAll(seg, ws)
	n := vf.Pick(vf.Bound(5, 6))
	grams(seg, ws, near(n), vf.Pick(2) == 1)
}

// C10_free: any short word inside any longer one.
func C10_free() {
	seg := newSeg()
	model(seg)
	a := near(2 + vf.Pick(2))
	b := near(3 + vf.Pick(2))
	vf.Assume(a != b)
	ws := []word{{a, vf.SelF(0.3, 2), ""}, {b, 300, ""}}
	addAll(seg, ws)
	pre := near(vf.Pick(2))
	grams(seg, ws, pre+b+near(vf.Pick(2)), false)
}

// C10_scenes: many kinds of dictionaries and texts, all but those of any bytes.
func C10_scenes() {
	c := sceneOf(validScene())
	model(c.seg)
	grams(c.seg, c.ws, c.s, vf.Pick(2) == 1)
}
