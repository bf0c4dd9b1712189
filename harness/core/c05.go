package core

import (
	"github.com/go-ego/gse"

	"vfh/vf"
)

func kana(t string) bool {
	for _, r := range t {
		// the scripts Hiragana and Katakana
		if r >= 0x3041 && r <= 0x3096 || r >= 0x309d && r <= 0x309f || r >= 0x30a1 && r <= 0x30fa || r >= 0x30fd && r <= 0x30ff {
			return true
		}
		return false
	}
	return false
}

// expand is the reference for the search mode: from the first sub-word that
// can be divided further (or that starts with kana) on, a word is preceded
// by its sub-words, which are expanded in the same way.
func expand(t *gse.Token) []gse.SegPos {
	var out []gse.SegPos
	on := false
	for _, s := range t.Segments() {
		if len(s.Token().Segments()) > 1 || kana(s.Token().Text()) {
			on = true
		}
		if on {
			out = append(out, expand(s.Token())...)
		}
	}
	return append(out, gse.SegPos{Text: t.Text(), Pos: t.Pos()})
}

func searchCheck(seg *gse.Segmenter, s string) {
	segs := seg.ModeSegment([]byte(s), true)
	var want []gse.SegPos
	for i := range segs {
		want = append(want, expand(segs[i].Token())...)
	}
	got := gse.ToPos(segs, true)
	vf.Assert(len(got) == len(want), "the number of words of the search mode")
	str := ""
	for i := range got {
		vf.Assert(got[i].Text == want[i].Text, "the words of the search mode")
		vf.Assert(got[i].Pos == want[i].Pos, "the parts of speech of the search mode")
		str += want[i].Text + "/" + want[i].Pos + " "
	}
	sl := gse.ToSlice(segs, true)
	vf.Assert(len(sl) == len(want), "the slice has the same words")
	for i := range sl {
		vf.Assert(sl[i] == want[i].Text, "the slice has the same words")
	}
	vf.Assert(gse.ToString(segs, true) == str, "the string has the same words")
	vf.ObsSS(sl)
	// the same through the segmenter
	vf.Assert(sameSS(seg.Slice(s, true), sl), "Slice gives the words of the search mode")
	vf.Assert(sameSS(seg.CutSearch(s), sl), "CutSearch gives the words of the search mode")
	vf.Assert(seg.String(s, true) == str, "String gives the words of the search mode")
	ps := seg.Pos(s, true)
	vf.Assert(len(ps) == len(want), "Pos gives the words of the search mode")
	for i := range ps {
		vf.Assert(ps[i] == want[i], "Pos gives the words of the search mode")
	}
}

// C05_search: nested words, frequencies from a menu.
func C05_search() {
	seg := newSeg()
	addAll(seg, some([]word{{"一丁七三", vf.SelF(3, 50), "a"}, {"一丁", 20, "b"}, {"七三", 20, "c"}, {"一丁七", vf.SelF(4, 60), "d"}, {"丁七三上", 6, "e"}}))
	addAll(seg, []word{{"一丁七三上", 9, "f"}})
	seg.CalcToken()
	n := vf.Pick(vf.Bound(6, 7))
	searchCheck(seg, near(n))
}

// C05_kana: words with kana.
func C05_kana() {
	seg := newSeg()
	addAll(seg, some([]word{{"ああ", 9, "b"}, {"あい", 20, "c"}, {"いあ", 4, "d"}, {"い", 6, "e"}}))
	addAll(seg, []word{{"ああいあ", 50, "f"}})
	seg.CalcToken()
	n := vf.Pick(vf.Bound(6, 7))
	rs := make([]rune, n)
	for i := range rs {
		rs[i] = vf.Rune(0x3041, 0x3046)
	}
	searchCheck(seg, string(rs))
}

// C05_normal: the normal mode: every way to ask for it gives the segments.
func C05_normal() {
	seg := newSeg()
	addAll(seg, some([]word{{"一丁七", 9, "a"}, {"一丁", 20, "b"}, {"丁七", 20, "c"}}))
	addAll(seg, []word{{"一丁七三上", 9, "f"}})
	seg.CalcToken()
	n := vf.Pick(vf.Bound(7, 8))
	s := near(n)
	segs := seg.Segment([]byte(s))
	str := ""
	var ws []string
	var ps []gse.SegPos
	for i := range segs {
		t := segs[i].Token()
		ws = append(ws, t.Text())
		ps = append(ps, gse.SegPos{Text: t.Text(), Pos: t.Pos()})
		str += t.Text() + "/" + t.Pos() + " "
	}
	vf.ObsSS(ws)
	vf.Assert(sameSS(gse.ToSlice(segs), ws), "ToSlice gives the segments")
	vf.Assert(sameSS(seg.Slice(s), ws), "Slice gives the segments")
	vf.Assert(sameSS(seg.Slice(s, false), ws), "Slice gives the segments")
	vf.Assert(sameSS(seg.Cut(s), ws), "Cut gives the segments")
	vf.Assert(gse.ToString(segs) == str, "ToString gives the segments")
	vf.Assert(seg.String(s) == str, "String gives the segments")
	got := seg.Pos(s)
	vf.Assert(len(got) == len(ps), "Pos gives the segments")
	for i := range got {
		vf.Assert(got[i] == ps[i], "Pos gives the segments")
	}
}

// C05_scenes: many kinds of dictionaries and texts.
func C05_scenes() {
	c := sceneOf(vf.Pick(scenes))
	c.seg.CalcToken()
	searchCheck(c.seg, c.s)
}

// C05_mixed: any word of four runes, with kana or without, over any of its
// parts.
func C05_mixed() {
	w := rtext(4, "あ一丁")
	seg := newSeg()
	for _, x := range [][2]int{{0, 2}, {1, 3}, {2, 4}, {0, 3}, {1, 4}} {
		if vf.Pick(2) == 1 {
			addAll(seg, []word{{string([]rune(w)[x[0]:x[1]]), float64(20 + x[1]), "s"}})
		}
	}
	addAll(seg, []word{{w, 50, "n"}, {"一", 50, "m"}})
	seg.CalcToken()
	searchCheck(seg, w+"上")
}
