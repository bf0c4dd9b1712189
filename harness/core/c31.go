package core

import (
	"github.com/go-ego/gse"

	"vfh/vf"
)

// keeps checks that a word added with the suggested frequency is kept whole.
func keeps(seg *gse.Segmenter, ws []word, w string) {
	f := seg.SuggestFreq(w)
	vf.ObsF(f)
	old, ok := find(ws, w)
	vf.Assert(f >= 1 && f >= old.freq, "the suggestion is no less than the frequency of the word")
	if ok {
		vf.Assert(seg.ReAddToken(w, f, "n") == nil, "a word can be added again")
	} else {
		vf.Assert(seg.AddToken(w, f, "n") == nil, "a word can be added")
	}
	got := seg.Cut(w, false)
	vf.ObsSS(got)
	vf.Assert(len(got) == 1 && got[0] == w, "a word with the suggested frequency is kept whole")
}

// C31_sets: words over a universe, frequencies from a menu.
func C31_sets() {
	seg := newSeg()
	ws := some([]word{{"一", vf.SelF(1, 900, 9e9), ""}, {"一丁", vf.SelF(1, 60), ""}, {"丁七", vf.SelF(3, 200), ""}, {"七", 70, ""}, {"一丁七", 2, ""}})
	ws = append(ws, word{"丁", vf.SelF(5, 400, 8e9), ""})
	addAll(seg, ws)
	keeps(seg, ws, near(2+vf.Pick(vf.Bound(2, 3))))
}

// C31_free: any two words and any third.
func C31_free() {
	seg := newSeg()
	ws := []word{{near(1), vf.SelF(3, 1000), ""}, {near(1 + vf.Pick(2)), vf.SelF(2, 80), ""}}
	different([]string{ws[0].text, ws[1].text})
	ws = append(ws, word{"三上", 9, ""})
	vf.Assume(ws[1].text != "三上")
	addAll(seg, ws)
	keeps(seg, ws, near(2+vf.Pick(2)))
}

// C31_parts: for several words the suggestion is no more than the frequency
// of the word they make, nor more than their own.
func C31_parts() {
	seg := newSeg()
	ws := some([]word{{"一", vf.SelF(1, 900), ""}, {"丁七", vf.SelF(3, 200), ""}, {"七", 70, ""}, {"一丁七", vf.SelF(2, 50), ""}})
	ws = append(ws, word{"丁", vf.SelF(5, 400), ""})
	addAll(seg, ws)
	a, b := near(1), near(1+vf.Pick(2))
	f := seg.SuggestFreq(a, b)
	vf.ObsF(f)
	w, _ := find(ws, a+b)
	x, _ := find(ws, a)
	y, _ := find(ws, b)
	vf.Assert(f >= 0 && f <= w.freq, "the suggestion is no more than the frequency of the word they make")
	// a part that is no word counts as one of frequency 1
	one := max(x.freq, 1) * max(y.freq, 1) / seg.Dictionary().TotalFreq()
	vf.Assert(f <= one*(1+1e-9), "the suggestion makes the word no more probable than its parts")
	if x.freq > 0 && y.freq > 0 {
		p := x.freq * y.freq / seg.Dictionary().TotalFreq()
		vf.Assert(f <= p*(1+1e-9), "the suggestion makes the word no more probable than its parts")
		vf.Assert(f >= w.freq || f > p*(1-1e-9)-1, "the suggestion is the largest whole number that does")
	}
}

// C31_scenes: words of other lengths and kinds.
func C31_scenes() {
	c := lightScene([]int{0, 1, 4, 6, 7, 8}[vf.Pick(6)])
	c.seg.CalcToken()
	w := []string{c.s, "一丁七三上下", near(2) + "一丁", "é一é", "一丁一丁一丁一丁一丁一"}[vf.Pick(5)]
	keeps(c.seg, c.ws, w)
}
