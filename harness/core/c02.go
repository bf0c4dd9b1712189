package core

import (
	"github.com/go-ego/gse"

	"vfh/vf"
)

// members checks the tokens of the segments against the entries.
func members(ws []word, s string, mode bool) {
	seg := newSeg()
	addAll(seg, ws)
	membersOf(seg, ws, s, mode)
}

func membersOf(seg *gse.Segmenter, ws []word, s string, mode bool) {
	seg.CalcToken()
	segs := seg.ModeSegment([]byte(s), mode)
	for i := range segs {
		t := segs[i].Token()
		text := t.Text()
		vf.ObsS(text)
		vf.Assert(lowerASCII(text) == lowerASCII(s[segs[i].Start():segs[i].End()]), "a segment has the text it covers")
		if w, ok := find(ws, text); ok {
			vf.Assert(t.Freq() == w.freq, "a dictionary word has the frequency it was given")
			vf.Assert(t.Pos() == w.pos, "a dictionary word has the part of speech it was given")
			vf.Reach("known")
			continue
		}
		vf.Assert(len(gse.SplitWords([]byte(text))) == 1 || len(seg.SplitTextToWords([]byte(text))) == 1, "a segment is a dictionary word or a single unit")
		vf.Assert(t.Freq() == 1, "an unknown unit has frequency 1")
		vf.Assert(t.Pos() == "x", "an unknown unit has part of speech x")
		vf.Assert(len(t.Segments()) == 0, "an unknown unit has no sub-segments")
		vf.Reach("unknown")
	}
}

// C02_sets: every set of words of a small universe, frequencies from a menu.
// vf:reach=known,unknown
func C02_sets() {
	f := vf.SelF(1, 2, 50)
	g := vf.SelF(1, 3, 1000)
	ws := some([]word{{"一", f, "n"}, {"一丁", g, "v"}, {"丁七一", 3, ""}, {"七", 7, "adj"}, {"一丁丁一", 6, "n"}})
	n := vf.Pick(vf.Bound(5, 6))
	members(ws, near(n), vf.Pick(2) == 1)
}

// C02_free: any two different words of up to three runes.
func C02_free() {
	a := near(1 + vf.Pick(3))
	b := near(1 + vf.Pick(3))
	vf.Assume(a != b)
	ws := []word{{a, vf.SelF(1, 4), "n"}, {b, vf.SelF(2, 40), "v"}}
	n := vf.Pick(vf.Bound(4, 6))
	members(ws, near(n), vf.Pick(2) == 1)
}

// C02_scenes: many kinds of dictionaries and texts.
func C02_scenes() {
	c := sceneOf(vf.Pick(scenes))
	membersOf(c.seg, c.ws, c.s, vf.Pick(2) == 1)
}
