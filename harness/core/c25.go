package core

import (
	"regexp"

	"github.com/go-ego/gse"

	"vfh/vf"
)

// shared is a segmenter with words, stop words and a model.
func shared() *gse.Segmenter {
	seg := stopSeg("一", "ab")
	model(seg)
	addAll(seg, []word{{"一丁", 5, "n"}, {"丁七", 9, "v"}, {"一丁七三", 4, "n"}, {"ab", 3, "q"}})
	seg.CalcToken()
	return seg
}

func sharedText(n int) string {
	rs := make([]rune, vf.Pick(n+1))
	for i := range rs {
		rs[i] = vf.RuneOf("一丁七aB,")
	}
	return string(rs)
}

// C25_segment: segmenting, in both modes, changes nothing.
func C25_segment() {
	seg := shared()
	s := sharedText(vf.Bound(4, 5))
	mode := vf.Pick(2) == 1
	vf.Shared(func() {
		b := []byte(s)
		segs := seg.ModeSegment(b, mode)
		vf.ObsSS(gse.ToSlice(segs, mode))
		gse.ToString(segs, mode)
		gse.ToPos(segs, mode)
		seg.Slice(s, mode)
		seg.String(s, mode)
		seg.Pos(s, mode)
		seg.SplitTextToWords(b)
		gse.SplitWords(b)
	}, seg)
}

// C25_cut: the cutters change nothing.
func C25_cut() {
	seg := shared()
	s := sharedText(vf.Bound(3, 4))
	k := vf.Pick(7)
	vf.Shared(func() {
		var ws []string
		switch k {
		case 0:
			ws = seg.Cut(s)
		case 1:
			ws = seg.Cut(s, false)
		case 2:
			ws = seg.Cut(s, true)
		case 3:
			ws = seg.CutSearch(s)
		case 4:
			ws = seg.CutSearch(s, false)
		case 5:
			ws = seg.CutSearch(s, true)
		case 6:
			ws = seg.CutAll(s)
		}
		vf.ObsSS(ws)
		seg.Analyze(ws, s)
	}, seg)
}

// C25_filters: the filters and lookups change nothing.
func C25_filters() {
	seg := shared()
	seg.NotStop = vf.Pick(2) == 1
	s := sharedText(vf.Bound(3, 4))
	ws := seg.Cut(s)
	ps := seg.Pos(s)
	vf.Shared(func() {
		vf.ObsSS(seg.Trim(ws))
		seg.Stop(ws)
		seg.TrimPunct(ws)
		seg.TrimSymbol(ws)
		seg.TrimPos(ps)
		seg.TrimPosPunct(ps)
		seg.TrimWithPos(ps, "n", "v")
		seg.PosTrim(s, false, "n")
		seg.CutTrim(s)
		seg.CutStop(s)
		seg.CutStr(ws)
		seg.PosStr(ps)
		seg.IsStop(s)
		seg.Find(s)
		seg.Value(s)
		seg.HMMCut(s)
		d := seg.Dictionary()
		d.NumTokens()
		d.TotalFreq()
		d.MaxTokenLen()
		gse.FilterSymbol(s)
		gse.FilterEmoji(s)
		gse.FilterLang(s, "Han")
		gse.SplitNums(s)
		gse.DictPaths("/d", s)
	}, seg, ws, ps)
}

// C25_texts: the filters of texts and the cuts that use them.
// vf:budget=8000000
func C25_texts() {
	seg := shared()
	s := rtext(vf.Pick(vf.Bound(4, 5)), "一<>a1,")
	b := []byte(s)
	ws := []string{"一", s}
	k := vf.Pick(5)
	vf.Shared(func() {
		switch k {
		case 0:
			vf.ObsS(gse.FilterHtml(s))
			seg.CutTrimHtml(s)
			seg.CutTrimHtmls(s, true)
		case 1:
			vf.ObsSS(gse.SplitNum(s))
			seg.CutUrl(s)
			seg.CutUrls(s, true)
		case 2:
			gse.FilterHtml(s)
			vf.ObsI(len(gse.FindAllOccs(b, ws)))
			gse.Range(s)
			gse.RangeText(s)
			gse.IsJp(s)
			t := seg.ToToken(s, 3, "n")
			t.Equals(s)
			seg.PosTrimArr(s, true, "n")
			seg.PosTrimStr(s, false)
		case 3:
			gse.FilterHtml(s)
			vf.ObsSS(seg.CutDAG(s))
			seg.CutDAG(s, reLatin)
			seg.CutDAGNoHMM(s)
			seg.HMMCut(s, reLatin, reKana)
		case 4:
			gse.SplitNums(s)
			vf.ObsI(len(seg.Analyze(ws[:1], "一")))
			seg.Analyze(ws, s)
			seg.Analyze(ws, "", true)
			if s != "" {
				seg.SuggestFreq(s)
				seg.SuggestFreq(s, "一")
			}
			seg.GetIdfPath()
		}
	}, seg, b, ws)
}

var (
	reLatin = regexp.MustCompile(`[a-b]+`)
	reKana  = regexp.MustCompile(`[\x{3041}-\x{3050}]+`)
)

// C25_input: the text given is not changed either.
func C25_input() {
	seg := shared()
	n := vf.Pick(vf.Bound(4, 5))
	b := make([]byte, n, n+4)
	for i := range b {
		b[i] = vf.Byte()
	}
	s := string(b)
	ws := []string{s, "一"}
	segs := seg.Segment(b)
	seg.ModeSegment(b, true)
	gse.SplitWords(b)
	seg.SplitTextToWords(b)
	gse.FindAllOccs(b, ws)
	seg.Analyze(ws, s)
	vf.Assert(string(b) == s, "the bytes given stay as they are")
	vf.Assert(ws[0] == s && ws[1] == "一", "the words given stay as they are")
	vf.ObsSS(texts(segs))
}

// C25_scenes: every reading call on many kinds of dictionaries and texts.
func C25_scenes() {
	c := lightScene(vf.Pick(scenes))
	model(c.seg)
	c.seg.LoadStopArr([]string{"一", "a"})
	c.seg.CalcToken()
	seg, s := c.seg, c.s
	b := []byte(s)
	k := vf.Pick(4)
	vf.Shared(func() {
		var ws []string
		switch k {
		case 0:
			for _, mode := range []bool{false, true} {
				segs := seg.ModeSegment(b, mode)
				ws = gse.ToSlice(segs, mode)
				gse.ToPos(segs, mode)
				seg.String(s, mode)
			}
		case 1:
			ws = seg.Cut(s, true)
			seg.CutTrim(s, true)
		case 2:
			ws = seg.CutSearch(s)
			seg.Stop(ws)
			seg.Analyze(ws[:min(len(ws), 20)], s)
		case 3:
			ws = seg.CutAll(s)
			seg.SuggestFreq(s[:min(len(s), 12)])
		}
		vf.ObsI(len(ws))
	}, seg, b)
}
