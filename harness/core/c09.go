package core

import (
	"strings"

	"github.com/go-ego/gse"

	"vfh/vf"
)

// full is the reference for the full mode: every occurrence of a word of
// several runes, by start then length; a rune that starts no such word is
// listed when it lies after the end of the word listed before it.
func full(ws []word, rs []rune) []string {
	var out []string
	end := 0
	longest := longestOf(ws)
	for i := range rs {
		any := false
		for j := i + 2; j <= len(rs) && j <= i+longest; j++ {
			if w, ok := find(ws, string(rs[i:j])); ok && w.freq > 0 {
				out = append(out, w.text)
				end = j
				any = true
			}
		}
		if !any && i >= end {
			out = append(out, string(rs[i]))
			end = i + 1
		}
	}
	return out
}

func fullCheck(ws []word, s string) {
	seg := newSeg()
	addAll(seg, ws)
	fullOf(seg, ws, s)
}

func fullOf(seg *gse.Segmenter, ws []word, s string) {
	got := seg.CutAll(s)
	vf.ObsSS(got)
	low := s
	if gse.ToLower {
		low = strings.ToLower(s)
	}
	want := full(ws, []rune(low))
	vf.Assert(len(got) == len(want), "the number of words of the full mode")
	for i := range got {
		vf.Assert(got[i] == want[i], "the words of the full mode")
	}
}

// C09_sets: every set of words of a universe of overlapping words.
func C09_sets() {
	ws := some([]word{{"一", 4, ""}, {"一丁", vf.SelF(0.5, 9), ""}, {"丁七", 30, ""}, {"一丁七三", 8, ""}, {"七", 3, ""}, {"丁七三", 2, ""}})
	n := vf.Pick(vf.Bound(6, 8))
	fullCheck(ws, near(n))
}

// C09_free: any three words, any text.
func C09_free() {
	a := near(1 + vf.Pick(3))
	b := near(1 + vf.Pick(3))
	c := near(2)
	vf.Assume(a != b && b != c && a != c)
	n := vf.Pick(vf.Bound(5, 6))
	fullCheck([]word{{a, 1, ""}, {b, 5, ""}, {c, 7, ""}}, near(n))
}

// C09_mixed: letters and digits, upper case.
func C09_mixed() {
	gse.ToLower = vf.Pick(2) == 0
	ws := some([]word{{"a", 5, ""}, {"ab", 3, ""}, {"1一", 9, ""}, {"b1", 3, ""}, {"ab1", 8, ""}})
	n := vf.Pick(vf.Bound(5, 6))
	fullCheck(ws, mixed(n))
}

// C09_scenes: many kinds of dictionaries and texts, all but those of any bytes.
func C09_scenes() {
	c := sceneOf(validScene())
	fullOf(c.seg, c.ws, c.s)
}
