package core

import (
	"math"
	"strings"

	"github.com/go-ego/gse"

	"vfh/vf"
)

func alnum(r rune) bool {
	return r >= '0' && r <= '9' || r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z'
}

// mixed is any text of n runes, each a CJK rune or an ASCII letter or digit.
func mixed(n int) string {
	rs := make([]rune, n)
	for i := range rs {
		if vf.Pick(2) == 0 {
			rs[i] = vf.Rune(0x4E00, 0x4E3F)
		} else {
			rs[i] = vf.RuneOf("ab1A")
		}
	}
	return string(rs)
}

// dagCheck compares the words with the most probable division of the text.
func dagCheck(seg *gse.Segmenter, ws []word, s string) {
	total := 0.0
	for _, w := range ws {
		total += w.freq
	}
	got := seg.CutDAGNoHMM(s)
	low := s
	if gse.ToLower {
		low = strings.ToLower(s)
	}
	vf.ObsSS(got)
	vf.Assert(join(got) == low, "the words make the text")
	logT := math.Log(total)
	score := func(t string) float64 {
		if w, ok := find(ws, t); ok && w.freq > 0 {
			return math.Log(w.freq) - logT
		}
		return -logT
	}
	sum := 0.0
	for _, t := range got {
		rs := []rune(t)
		vf.Assert(len(rs) > 0, "no word is empty")
		all := true
		single := 0.0
		for _, r := range rs {
			if !alnum(r) {
				all = false
			}
			single += score(string(r))
		}
		w, ok := find(ws, t)
		ok = ok && w.freq > 0
		vf.Assert(ok || all || len(rs) == 1, "a word is in the dictionary, a run of letters and digits, or a single rune")
		switch {
		case ok && all && single > score(t):
			sum += single
		case ok || len(rs) == 1:
			sum += score(t)
		default:
			sum += single
		}
	}
	// a rune that starts a word of the dictionary is never left on its own
	// as an unknown one
	rs := []rune(low)
	best := make([]float64, len(rs)+1)
	longest := longestOf(ws)
	for i := len(rs) - 1; i >= 0; i-- {
		set := false
		for j := i + 1; j <= len(rs) && j <= i+longest; j++ {
			t := string(rs[i:j])
			w, ok := find(ws, t)
			if !ok || w.freq <= 0 {
				continue
			}
			if d := best[j] + score(t); !set || d > best[i] {
				best[i], set = d, true
			}
		}
		if !set {
			best[i] = best[i+1] - logT
		}
	}
	vf.Assert(abs(sum-best[0]) < 1e-6, "the division is a most probable one")
}

// C07_sets: every set of words of a universe, frequencies from a menu.
func C07_sets() {
	seg := newSeg()
	ws := some([]word{{"一", vf.SelF(1, 90), ""}, {"一丁", vf.SelF(0.5, 9), ""}, {"丁七", vf.SelF(2, 30), ""}, {"一丁七", vf.SelF(1, 8), ""}, {"七", 3, ""}})
	ws = append(ws, word{"丁七三", 2, ""})
	addAll(seg, ws)
	n := vf.Pick(vf.Bound(5, 6))
	s := near(n)
	dagCheck(seg, ws, s)
	vf.Assert(sameSS(seg.Cut(s, false), seg.CutDAGNoHMM(s)), "Cut without HMM is the same")
}

// C07_free: any two words, any frequency of the menu, any text.
func C07_free() {
	seg := newSeg()
	a := near(1 + vf.Pick(2))
	b := near(1 + vf.Pick(3))
	vf.Assume(a != b)
	ws := []word{{a, vf.SelF(0.5, 4, 300), "n"}, {b, vf.SelF(2, 40), "v"}}
	addAll(seg, ws)
	n := vf.Pick(vf.Bound(5, 6))
	dagCheck(seg, ws, near(n))
}

// C07_mixed: letters and digits among the runes.
func C07_mixed() {
	seg := newSeg()
	gse.ToLower = vf.Pick(2) == 0
	ws := some([]word{{"a", 5, ""}, {"ab", vf.SelF(2, 50), ""}, {"1一", 9, ""}, {"b1", 3, ""}, {"一丁", 8, ""}})
	ws = append(ws, word{"丁a", 4, ""})
	addAll(seg, ws)
	n := vf.Pick(vf.Bound(4, 5))
	dagCheck(seg, ws, mixed(n))
}

// C07_any: any runes at all.
func C07_any() {
	seg := newSeg()
	ws := []word{{"一丁", 5, ""}, {"a-b", 7, ""}, {"é1", 3, ""}}
	addAll(seg, ws)
	n := vf.Pick(vf.Bound(3, 4))
	rs := make([]rune, n)
	for i := range rs {
		rs[i] = vf.Rune(0, 0x10FFFF)
		vf.Assume(rs[i] < 0xD800 || rs[i] > 0xDFFF)
	}
	s := string(rs)
	vf.Assert(join(seg.CutDAGNoHMM(s)) == strings.ToLower(s), "the words make the text")
}

// C07_scenes: many kinds of dictionaries and texts, all but those of any bytes.
func C07_scenes() {
	c := sceneOf(validScene())
	dagCheck(c.seg, c.ws, c.s)
	vf.Assert(sameSS(c.seg.Cut(c.s, false), c.seg.CutDAGNoHMM(c.s)), "Cut without HMM is the same")
}
