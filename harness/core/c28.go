package core

import (
	"strconv"

	"github.com/go-ego/gse"

	"vfh/vf"
)

// C28_segmenters: what happens to one segmenter does not touch another one.
func C28_segmenters() {
	a := newSeg()
	addAll(a, []word{{"一丁", 5, "n"}, {"丁七", 9, "v"}, {"a", 3, "x"}})
	a.CalcToken()
	a.AddStop("一")
	s := sharedText(vf.Bound(3, 4))
	cut, all, pos := seg3(a, s)
	w := near(2)
	k := vf.Pick(4)
	vf.Shared(func() {
		b := newSeg()
		b.AlphaNum = true
		addAll(b, []word{{w, 50, "r"}, {"七", 8, ""}})
		b.CalcToken()
		switch k {
		case 0:
			b.RemoveToken("一丁")
			b.RemoveToken(w)
			b.AddStop("丁")
		case 1:
			b.LoadDictStr("丁七 90 q\n一丁 70\n")
			b.LoadStopStr("a\n丁\n")
		case 2:
			b.ReAddToken(w, 3, "z")
			b.EmptyStop()
			b.Empty()
		case 3:
			b.Cut(s)
			b.Cut(s, false)
			b.CutAll(s)
		}
	}, a)
	cut2, all2, pos2 := seg3(a, s)
	vf.Assert(sameSS(cut, cut2), "a segmenter gives the same words as before")
	vf.Assert(sameSS(all, all2), "a segmenter gives the same words as before")
	vf.Assert(samePos(pos, pos2), "a segmenter gives the same words as before")
	vf.Assert(a.IsStop("一") && !a.IsStop("丁"), "a segmenter has its own stop words")
	vf.ObsSS(cut)
}

func seg3(a *gse.Segmenter, s string) ([]string, []string, []gse.SegPos) {
	return a.Cut(s), a.CutAll(s), a.Pos(s, true)
}

// C28_calls: the result of a call does not depend on the calls before it.
func C28_calls() {
	a, b := newSeg(), newSeg()
	for _, seg := range []*gse.Segmenter{a, b} {
		model(seg)
		addAll(seg, []word{{"一丁", 5, "n"}, {"丁七", 9, "v"}, {"ab", 3, "x"}})
		seg.CalcToken()
	}
	t, s := sharedText(vf.Bound(2, 3)), near(vf.Pick(3))
	switch vf.Pick(6) {
	case 5:
		// the same text, but other expressions, options and calls
		a.CutDAG(s, reKana)
		a.CutDAG(s, reLatin, reKana)
		a.HMMCut(s, reKana, reLatin)
		a.SplitTextToWords([]byte(s + t))
		gse.FilterLang(s, "Hiragana")
		a.Analyze([]string{s}, t)
	case 0:
		a.Segment([]byte(t))
	case 1:
		a.Cut(t, true)
	case 2:
		a.Cut(t, false)
	case 3:
		a.CutAll(t)
	case 4:
		a.CutSearch(t, true)
		a.Find(t)
	}
	vf.ObsSS(a.Cut(s, true))
	vf.Assert(sameSS(a.Cut(s), b.Cut(s)), "the words do not depend on the calls before")
	vf.Assert(sameSS(a.Cut(s, true), b.Cut(s, true)), "the words do not depend on the calls before")
	vf.Assert(sameSS(a.Cut(s, false), b.Cut(s, false)), "the words do not depend on the calls before")
	vf.Assert(sameSS(a.CutDAG(s, reLatin), b.CutDAG(s, reLatin)), "the words do not depend on the calls before")
	vf.Assert(sameSS(a.CutAll(s), b.CutAll(s)), "the words do not depend on the calls before")
	vf.Assert(sameSS(a.CutSearch(s, true), b.CutSearch(s, true)), "the words do not depend on the calls before")
	vf.Assert(samePos(a.Pos(s, true), b.Pos(s, true)), "the words do not depend on the calls before")
}

// C28_scenes: on many kinds of dictionaries a call gives the same the second
// time, whatever the calls between.
func C28_scenes() {
	c := lightScene(vf.Pick(scenes))
	model(c.seg)
	c.seg.CalcToken()
	seg, s := c.seg, c.s
	do := func(k int) []string {
		switch k {
		case 0:
			return texts(seg.ModeSegment([]byte(s), true))
		case 1:
			return seg.Cut(s, true)
		case 2:
			return seg.CutSearch(s, false)
		case 3:
			return seg.CutAll(s)
		}
		return gse.ToSlice(seg.Segment([]byte(s)), true)
	}
	k := vf.Pick(5)
	a := append([]string{}, do(k)...)
	vf.ObsSS(a)
	for i := 1; i < 5; i++ {
		do((k + i) % 5)
	}
	vf.Assert(sameSS(do(k), a), "the words do not depend on the calls before")
}

const reads = 29

// read is what the k-th reading call gives of a text.
func read(seg *gse.Segmenter, k int, s string) []string {
	ps := func(ps []gse.SegPos) (r []string) {
		for _, p := range ps {
			r = append(r, p.Text+"/"+p.Pos)
		}
		return r
	}
	az := func(ts []gse.AnalyzeToken) (r []string) {
		for _, t := range ts {
			r = append(r, t.Text+"/"+t.Pos+"/"+strconv.Itoa(t.Start)+"/"+strconv.Itoa(t.End)+"/"+strconv.Itoa(int(t.Freq)))
		}
		return r
	}
	switch k {
	case 0:
		return seg.Cut(s)
	case 1:
		return seg.Cut(s, true)
	case 2:
		return seg.Cut(s, false)
	case 3:
		return seg.CutSearch(s)
	case 4:
		return seg.CutSearch(s, true)
	case 5:
		return seg.CutAll(s)
	case 6:
		return seg.CutDAG(s, reLatin)
	case 7:
		return seg.CutDAG(s, reKana, reLatin)
	case 8:
		return seg.HMMCut(s)
	case 9:
		return seg.HMMCut(s, reKana)
	case 10:
		return seg.HMMCut(s, reLatin, reKana)
	case 11:
		return gse.ToSlice(seg.Segment([]byte(s)), true)
	case 12:
		return []string{seg.String(s)}
	case 13:
		return []string{seg.String(s, true)}
	case 14:
		return ps(seg.Pos(s))
	case 15:
		return ps(seg.Pos(s, true))
	case 16:
		return append(seg.CutStop(s), seg.CutTrim(s, true)...)
	case 17:
		return ps(seg.PosTrim(s, true, "n"))
	case 18:
		return az(seg.Analyze([]string{s}, ""))
	case 19:
		return az(seg.Analyze([]string{s, "一"}, s, true))
	case 20:
		return []string{gse.FilterSymbol(s), gse.FilterEmoji(s), gse.FilterLang(s, "Han"), gse.FilterHtml(s)}
	case 21:
		return append(seg.CutUrl(s), gse.SplitNum(s)...)
	case 22:
		r := gse.ToSlice(seg.Segment([]byte(s)))
		for _, u := range seg.SplitTextToWords([]byte(s)) {
			r = append(r, string(u))
		}
		return r
	case 23:
		return []string{gse.FilterLang(s, "Common"), gse.FilterLang(s, "Latin"), gse.RangeText(s), gse.SplitNums(s)}
	case 24:
		return []string{seg.CutStr(seg.Cut(s), "|"), seg.PosStr(seg.Pos(s), "#")}
	case 25:
		return []string{seg.CutStr(seg.Cut(s)), seg.PosStr(seg.Pos(s))}
	case 26:
		return append(seg.TrimPunct(seg.Cut(s)), ps(append(seg.TrimPosPunct(seg.Pos(s)), seg.TrimWithPos(seg.Pos(s), "v", "x")...))...)
	case 27:
		return append(gse.DictPaths("/d", s), seg.CutTrimHtmls(s), seg.CutUrls(s, true), seg.PosTrimStr(s, false, "x"))
	}
	f, pos, ok := seg.Find(s)
	return []string{strconv.Itoa(int(f)), pos, strconv.FormatBool(ok), strconv.FormatBool(seg.IsStop(s))}
}

// C28_fresh: what a call gives is what it gives in a process in which nothing
// has happened before, with the same dictionary, options and model.
// vf:weight=4
// vf:budget=20000000
func C28_fresh() {
	s := rtext(vf.Pick(vf.Bound(3, 4)), "一丁七aBあ、1")
	opt := vf.Pick(3)
	// in two steps: what changes after the first calls counts
	start := func() *gse.Segmenter {
		seg := newSeg()
		model(seg)
		addAll(seg, []word{{"一丁", 5, "n"}, {"丁七", 9, "v"}, {"ab", 3, "x"}})
		seg.CalcToken()
		return seg
	}
	change := func(seg *gse.Segmenter) {
		switch opt {
		case 1:
			seg.AddToken("丁一", 20, "q")
			seg.ReAddToken("一丁", 2, "r")
			seg.RemoveToken("ab")
			seg.CalcToken()
			seg.AddStop("七")
		case 2:
			seg.AlphaNum = true
			seg.AddStop("一")
			seg.NotStop = true
			seg.TextFreq = "5"
		}
	}
	var want [reads][]string
	for k := range want {
		want[k] = vf.Fresh(func() []string {
			seg := start()
			change(seg)
			return read(seg, k, s)
		})
	}
	seg, other := start(), newSeg()
	for k := range want {
		// another dictionary, or the same one before the change
		read(other, (k*5+1)%reads, s)
		read(seg, (k*7+2)%reads, s)
	}
	change(seg)
	again := start()
	change(again)
	vf.ObsSS(want[0])
	for k := range want {
		vf.Assert(sameSS(read(seg, k, s), want[k]), "a call gives what it gives in a process of its own")
	}
	for k := range want {
		vf.Assert(sameSS(read(again, reads-1-k, s), want[reads-1-k]), "a call gives what it gives in a process of its own")
	}
}
