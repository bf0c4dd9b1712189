package core

import (
	"strings"

	"github.com/go-ego/gse"

	"vfh/vf"
)

func tiles(segs []gse.Segment, text string) {
	pos := 0
	out := ""
	for i := range segs {
		vf.Assert(segs[i].Start() == pos, "each segment starts where the one before ends")
		vf.Assert(segs[i].End() > segs[i].Start(), "no segment is empty")
		pos = segs[i].End()
		vf.Assert(pos <= len(text), "no segment ends after the text")
		t := segs[i].Token().Text()
		want := text[segs[i].Start():pos]
		if gse.ToLower {
			want = lowerASCII(want)
			t = lowerASCII(t)
		}
		vf.Assert(t == want, "the token of a segment is the text it covers")
		out += t
		vf.ObsI(pos)
	}
	vf.Assert(pos == len(text), "the segments cover the text")
}

// C01_bytes: any byte string (also invalid UTF-8), a fixed dictionary, both modes.
func C01_bytes() {
	seg := newSeg()
	seg.AddToken("世界", 10)
	seg.AddToken("世", 3)
	seg.AddToken("ab", 3)
	seg.CalcToken()
	n := vf.Pick(vf.Bound(5, 7))
	b := vf.Bytes(n)
	mode := vf.Pick(2) == 1
	s := string(b)
	segs := seg.ModeSegment(b, mode)
	tiles(segs, s)
}

// C01_runes: mixed scripts, three dictionaries, every splitting option.
func C01_runes() {
	seg := newSeg()
	switch vf.Pick(4) {
	case 1:
		seg.AlphaNum = true
	case 2:
		seg.Num = true
	case 3:
		seg.Alpha = true
	}
	gse.ToLower = vf.Pick(2) == 0
	switch vf.Pick(3) {
	case 1:
		addAll(seg, []word{{"甲", 4, "n"}, {"甲乙", 9, "v"}, {"aé 甲", 7, "e"}})
	case 2:
		addAll(seg, []word{{"a1", 5, "m"}, {"乙甲乙", 3, ""}, {"甲a", 5, "m"}})
	}
	seg.CalcToken()
	n := vf.Pick(vf.Bound(3, 5))
	s := anyText(n)
	mode := vf.Pick(2) == 1
	tiles(seg.ModeSegment([]byte(s), mode), s)
}

// C01_words: the dictionary words are any two words of up to three runes.
func C01_words() {
	seg := newSeg()
	a := han(1 + vf.Pick(2))
	b := han(vf.Bound(2, 1+vf.Pick(3)))
	seg.AddToken(a, 5)
	seg.AddToken(b, 2)
	seg.CalcToken()
	n := vf.Pick(vf.Bound(4, 5))
	s := han(n)
	mode := vf.Pick(2) == 1
	tiles(seg.ModeSegment([]byte(s), mode), s)
}

// C01_long: texts of more than 65536 bytes.
// vf:budget=400000000
func C01_long() {
	seg := newSeg()
	addAll(seg, []word{{"一丁", 9, "n"}, {"丁七三", 8, "v"}, {"ab", 3, "e"}})
	seg.CalcToken()
	n := vf.Bound(1, 4)
	s := strings.Repeat("一丁七三𠀀x y一丁", 2900*n) + "aB" + of("一x\x80", 1) + strings.Repeat("ab1", 500*n) + near(1)
	tiles(seg.Segment([]byte(s)), s)
}

// C01_changed: the options are others than when the words were added.
func C01_changed() {
	seg := newSeg()
	opts := func() {
		k := vf.Pick(4)
		seg.AlphaNum, seg.Num, seg.Alpha = k == 1, k == 2, k == 3
	}
	opts()
	vf.Assert(seg.AddToken(rtext(2, "a1"), 9, "n") == nil, "adding a word does not fail")
	seg.AddToken("1一", 8, "n")
	if vf.Pick(2) == 1 {
		seg.AddToken("b一丁ab1", 5, "n") // so that longer ones are looked up
	}
	seg.CalcToken()
	opts()
	s := rtext(vf.Pick(vf.Bound(4, 5)), "a1一")
	mode := vf.Pick(2) == 1
	segs := seg.ModeSegment([]byte(s), mode)
	tiles(segs, s)
}
