package core

import (
	"strings"

	"github.com/go-ego/gse"

	"vfh/vf"
)

// flip is the text with the case of some of its ASCII letters changed.
func flip(s string) string {
	b := []byte(s)
	for i := range b {
		if b[i] >= 'a' && b[i] <= 'z' && vf.Bool() {
			b[i] -= 'a' - 'A'
		}
	}
	return string(b)
}

func letters(n int) string {
	rs := make([]rune, n)
	for i := range rs {
		rs[i] = vf.RuneOf("abA1一 ")
	}
	return string(rs)
}

// C27_text: the case of the text does not matter.
func C27_text() {
	seg := newSeg()
	model(seg)
	addAll(seg, []word{{"ab", 5, "n"}, {"b一", 9, "v"}, {"Ab1", 3, "q"}, {"一", 8, "m"}})
	seg.CalcToken()
	s := letters(vf.Pick(vf.Bound(4, 5)))
	low := lowerASCII(s)
	vf.Assert(sameSS(seg.Cut(s, false), seg.Cut(low, false)), "Cut gives the words of the text in lower case")
	vf.Assert(sameSS(seg.Cut(s, true), seg.Cut(low, true)), "Cut gives the words of the text in lower case")
	vf.Assert(sameSS(seg.CutAll(s), seg.CutAll(low)), "CutAll gives the words of the text in lower case")
	vf.Assert(sameSS(seg.CutSearch(s, true), seg.CutSearch(low, true)), "CutSearch gives the words of the text in lower case")
	vf.ObsSS(seg.Cut(s, true))
	for _, mode := range []bool{false, true} {
		a, b := seg.ModeSegment([]byte(s), mode), seg.ModeSegment([]byte(low), mode)
		vf.Assert(len(a) == len(b), "the segments are those of the text in lower case")
		for i := range a {
			vf.Assert(a[i].Start() == b[i].Start() && a[i].End() == b[i].End(), "the segments are those of the text in lower case")
			vf.Assert(a[i].Token().Text() == b[i].Token().Text() && a[i].Token().Pos() == b[i].Token().Pos(), "the segments are those of the text in lower case")
		}
	}
}

// C27_dict: the case of the words of the dictionary does not matter.
func C27_dict() {
	w := string([]rune{vf.RuneOf("aBb一"), vf.RuneOf("AbB1")})
	f := flip(lowerASCII(w))
	a, b := newSeg(), newSeg()
	addAll(a, []word{{w, 5, "n"}, {"AB一", 7, "v"}})
	addAll(b, []word{{f, 5, "n"}, {"ab一", 7, "v"}})
	a.CalcToken()
	b.CalcToken()
	s := letters(vf.Pick(vf.Bound(4, 5)))
	vf.Assert(sameSS(a.Cut(s), b.Cut(s)), "the words of the dictionary are in lower case")
	vf.Assert(sameSS(a.CutAll(s), b.CutAll(s)), "the words of the dictionary are in lower case")
	fr, p, ok := a.Find(lowerASCII(w))
	vf.Assert(ok && fr == 5 && p == "n", "a word is found in lower case")
	vf.ObsSS(a.Cut(s))
}

// C27_off: with ToLower off the case is kept and matters.
func C27_off() {
	gse.ToLower = false
	seg := newSeg()
	model(seg)
	addAll(seg, []word{{"aB", 5, "n"}, {"B一", 9, "v"}, {"A", 8, "m"}})
	seg.CalcToken()
	s := letters(vf.Pick(vf.Bound(4, 5)))
	vf.ObsSS(seg.Cut(s, true))
	vf.Assert(join(seg.Cut(s)) == s, "the text is kept as it is")
	vf.Assert(join(seg.Cut(s, false)) == s, "the text is kept as it is")
	vf.Assert(join(seg.Cut(s, true)) == s, "the text is kept as it is")
	for _, w := range []string{"aB", "ab", "AB", "A", "a", "B一", "b一"} {
		_, _, err := seg.Value(w)
		vf.Assert((err == nil) == (w == "aB" || w == "B一" || w == "A"), "only the words themselves are in the dictionary")
	}
}

// C27_unicode: letters beyond ASCII.
func C27_unicode() {
	seg := newSeg()
	model(seg)
	addAll(seg, []word{{"é1", 5, "n"}})
	rs := make([]rune, vf.Pick(vf.Bound(3, 4)))
	for i := range rs {
		rs[i] = vf.Rune(0x80, 0x24F)
		vf.Assume(rs[i] != 0x130)
	}
	s := string(rs)
	low := strings.ToLower(s)
	vf.Assert(join(seg.Cut(s, false)) == low, "Cut gives the text in lower case")
	vf.Assert(join(seg.Cut(s, true)) == low, "Cut gives the text in lower case")
	vf.Assert(sameSS(seg.CutAll(s), seg.CutAll(low)), "CutAll gives the words of the text in lower case")
	vf.Assert(sameSS(seg.CutSearch(s, false), seg.CutSearch(low, false)), "CutSearch gives the words of the text in lower case")
}

// C27_scenes: the text of each scene in either case.
func C27_scenes() {
	c := lightScene([]int{2, 5, 7, 9}[vf.Pick(4)])
	gse.ToLower = true
	vf.Assume(!c.seg.Alpha && !c.seg.AlphaNum)
	model(c.seg)
	c.seg.CalcToken()
	low := lowerASCII(c.s)
	vf.Assert(sameSS(c.seg.Cut(c.s, false), c.seg.Cut(low, false)), "Cut gives the words of the text in lower case")
	vf.Assert(sameSS(c.seg.Cut(c.s, true), c.seg.Cut(low, true)), "Cut gives the words of the text in lower case")
	a, b := c.seg.ModeSegment([]byte(c.s), true), c.seg.ModeSegment([]byte(low), true)
	vf.ObsSS(texts(a))
	vf.Assert(len(a) == len(b), "the segments are those of the text in lower case")
	for i := range a {
		vf.Assert(a[i].Start() == b[i].Start() && a[i].End() == b[i].End(), "the segments are those of the text in lower case")
		vf.Assert(a[i].Token().Pos() == b[i].Token().Pos(), "the segments are those of the text in lower case")
	}
}

// C27_change: adding, removing and looking for words in any case.
func C27_change() {
	seg := newSeg()
	w := flip([]string{"ab", "a一b", "x1", "一a"}[vf.Pick(4)])
	low := lowerASCII(w)
	vf.Assert(seg.AddToken(flip(low), 5, "n") == nil, "adding a word does not fail")
	seg.AddToken("AB一", 7, "v")
	switch vf.Pick(4) {
	case 0:
		vf.Assert(seg.RemoveToken(w) == nil, "a word can be removed in any case")
		_, _, err := seg.Value(low)
		vf.Assert(err != nil, "a word can be removed in any case")
	case 1:
		vf.Assert(seg.ReAddToken(w, 8, "q") == nil, "a word can be added again in any case")
		f, p, ok := seg.Find(low)
		vf.Assert(ok && f == 8 && p == "q", "a word can be added again in any case")
	case 2:
		vf.Assert(seg.AddToken(w, 9, "q") == nil && seg.AddTokenForce(w, 9, "q") == nil, "adding a word does not fail")
		f, p, ok := seg.Find(low)
		vf.Assert(ok && f == 5 && p == "n", "a word that is there stays as it is in any case")
	case 3:
		x := flip("cd")
		switch vf.Pick(3) {
		case 0:
			vf.Assert(seg.LoadDictMap([]map[string]string{{"text": x, "freq": "6", "pos": "m"}}) == nil, "loading succeeds")
		case 1:
			vf.Assert(seg.LoadDictStr(x+" 6 m\n") == nil, "loading succeeds")
		case 2:
			vf.Assert(seg.Reader(reader(x+" 6 m\n")) == nil, "loading succeeds")
		}
		f, p, ok := seg.Find("cd")
		vf.Assert(ok && f == 6 && p == "m", "a word is loaded in lower case")
	}
	f, p, ok := seg.Find("ab一")
	vf.Assert(ok && f == 7 && p == "v", "the other words stay")
	vf.ObsI(seg.Dictionary().NumTokens())
}
