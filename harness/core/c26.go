package core

import (
	"strings"

	"github.com/go-ego/gse"

	"vfh/vf"
)

// opts sets any options that change how a text is divided.
func opts(seg *gse.Segmenter) {
	switch vf.Pick(4) {
	case 1:
		seg.AlphaNum = true
	case 2:
		seg.Num = true
	case 3:
		seg.Alpha = true
	}
	gse.ToLower = vf.Pick(2) == 1
}

// C26_segment: any bytes through segmenting: no panic, no hang.
func C26_segment() {
	seg := newSeg()
	opts(seg)
	addAll(seg, []word{{"一丁", 5, "n"}, {"ab", 3, "v"}, {"a", 2, "q"}})
	seg.CalcToken()
	b := vf.Bytes(vf.Pick(vf.Bound(4, 5)))
	s := string(b)
	for _, mode := range []bool{false, true} {
		segs := seg.ModeSegment(b, mode)
		vf.ObsI(len(segs))
		gse.ToSlice(segs, mode)
		gse.ToString(segs, mode)
		gse.ToPos(segs, mode)
		vf.Assert(join(texts(segs)) == s || gse.ToLower, "nothing is lost")
		seg.PosTrimStr(s, mode, "n")
	}
	ws := seg.Cut(s)
	seg.Trim(ws)
	seg.TrimPunct(ws)
	seg.Analyze(ws, s)
	seg.Analyze(ws, "")
}

// C26_cut: any bytes through the other cutters.
func C26_cut() {
	seg := newSeg()
	model(seg)
	addAll(seg, []word{{"一丁", 5, "n"}, {"ab", 3, "v"}, {"a", 2, "q"}})
	seg.CalcToken()
	s := string(vf.Bytes(vf.Pick(vf.Bound(4, 5))))
	var ws []string
	switch vf.Pick(6) {
	case 0:
		ws = seg.Cut(s, false)
	case 1:
		ws = seg.Cut(s, true)
	case 2:
		ws = seg.CutAll(s)
	case 3:
		ws = seg.CutSearch(s, false)
	case 4:
		ws = seg.CutSearch(s, true)
	case 5:
		ws = seg.CutTrimHtml(s)
		ws = append(ws, seg.CutUrl(s)...)
	}
	vf.ObsSS(ws)
	seg.Analyze(ws, s)
	seg.CutStr(seg.Trim(ws))
}

// C26_empty: an empty dictionary.
func C26_empty() {
	seg := newSeg()
	model(seg)
	s := near(vf.Pick(3)) + string(vf.Bytes(vf.Pick(3)))
	for _, mode := range []bool{false, true} {
		segs := seg.ModeSegment([]byte(s), mode)
		for i := range segs {
			vf.Assert(segs[i].Token().Pos() == "x", "every unit is unknown")
		}
		vf.ObsI(len(segs))
	}
	vf.ObsSS(seg.Cut(s, false))
	vf.ObsSS(seg.Cut(s, true))
	vf.ObsSS(seg.CutAll(s))
	seg.CutSearch(s, true)
	f, p, ok := seg.Find(s)
	vf.Assert(f == 0 && p == "" && !ok, "nothing is found in an empty dictionary")
	_, _, err := seg.Value(s)
	vf.Assert(err != nil, "nothing is found in an empty dictionary")
	vf.Assert(seg.RemoveToken(s) != nil, "nothing can be removed from an empty dictionary")
}

// C26_load: any bytes as a dictionary.
func C26_load() {
	seg := loadSeg(loadOpts{2, "2.0", vf.Pick(2) == 1})
	if vf.Pick(2) == 1 {
		seg.DictSep = ","
	}
	s := string(vf.Bytes(vf.Pick(vf.Bound(3, 4)))) + []string{"", " 5", ", 5, n", "\n一 5 n\n"}[vf.Pick(4)]
	if vf.Pick(2) == 1 {
		seg.LoadDictStr(s)
	} else {
		seg.Dict = gse.NewDict()
		seg.Init()
		seg.Reader(reader(s))
	}
	d := seg.Dictionary()
	vf.ObsI(d.NumTokens())
	total := 0.0
	for i := range d.Tokens {
		t := &d.Tokens[i]
		vf.Assert(t.Text() != "", "no word is empty")
		vf.Assert(t.Freq() >= 2, "no word is rarer than the minimum")
		total += t.Freq()
		f, p, ok := seg.Find(t.Text())
		vf.Assert(ok && f == t.Freq() && p == t.Pos(), "a loaded word is found")
	}
	vf.Assert(total == d.TotalFreq(), "the total is that of the words")
	vf.Assert(strings.HasPrefix(join(texts(seg.Segment([]byte("一")))), "一"), "the dictionary can be used")
}

func everything(seg *gse.Segmenter, s string, k int) {
	switch k {
	case 0:
		for _, mode := range []bool{false, true} {
			segs := seg.ModeSegment([]byte(s), mode)
			vf.ObsI(len(gse.ToSlice(segs, mode)))
			gse.ToPos(segs, mode)
			seg.TrimPos(seg.Pos(s, mode))
			gse.ToString(segs, mode)
		}
	case 1:
		ws := seg.Cut(s, true)
		vf.ObsI(len(ws))
		seg.Trim(ws)
		seg.CutStr(seg.Stop(ws))
	case 2:
		ws := seg.CutSearch(s, true)
		vf.ObsI(len(ws))
		seg.Analyze(ws[:min(len(ws), 10)], s)
		seg.Analyze(ws, "")
	case 3:
		vf.ObsI(len(seg.CutAll(s)))
		seg.SuggestFreq(s)
		seg.Find(s)
		seg.Value(s)
		seg.IsStop(s)
	case 4:
		vf.ObsI(len(seg.CutTrimHtmls(s)))
		vf.ObsI(len(seg.CutUrls(s)))
		gse.SplitNums(s)
		gse.FilterLang(s, "Latin")
		gse.FilterEmoji(s)
	case 5:
		seg.LoadDictStr(s + " 9 n\n" + s)
		vf.ObsI(seg.Dict.NumTokens())
		seg.RemoveToken(s)
		seg.ReAddToken(s, 3)
		seg.Cut(s)
	}
}

// C26_scenes: many kinds of dictionaries and texts through everything.
func C26_scenes() {
	c := lightScene(vf.Pick(scenes))
	model(c.seg)
	c.seg.CalcToken()
	everything(c.seg, c.s, vf.Pick(6))
}

// C26_long: long texts, of words, of unknown runes, of one letter run.
// vf:budget=40000000
func C26_long() {
	seg := newSeg()
	model(seg)
	addAll(seg, []word{{"一丁", 5, "n"}, {"丁七三", 3, "v"}, {"ab", 2, "q"}, {"七", 9, "m"}})
	seg.CalcToken()
	n := []int{255, 256, 257, 1024}[vf.Pick(vf.Bound(3, 4))]
	s := strings.Repeat([]string{"一丁七三", "上下", "ab1", "é，", "\xf0\x9f"}[vf.Pick(5)], n) + near(1)
	if k := vf.Pick(5); k != 3 || n <= 256 {
		everything(seg, s, k)
	}
}

// C26_nested: many words each of which begins the next, or ends it, or that
// begin alike.
// vf:budget=40000000
func C26_nested() {
	seg := newSeg()
	model(seg)
	n := []int{8, 17, 33, 65}[vf.Pick(4)]
	a, b := "一", near(1)
	kind := vf.Pick(3)
	for i := 1; i <= n; i++ {
		w := strings.Repeat(a, i)
		switch kind {
		case 1:
			w = b + w
		case 2:
			w = "一" + w[:len(w)-3] + string('一'+rune(i))
		}
		seg.AddToken(w, float64(i), "n")
	}
	seg.CalcToken()
	s := b + strings.Repeat(a, n+2) + "丁"
	k := vf.Pick(5)
	if k == 2 && n > 17 { // the pieces of all pieces are many
		k = 1
	}
	if k == 0 && n > 17 {
		for _, mode := range []bool{false, true} {
			vf.Assert(join(texts(seg.ModeSegment([]byte(s), mode))) == s, "nothing is lost")
		}
		return
	}
	everything(seg, s, k)
}

// C26_huge: texts of more than 65536 bytes for segments, of more than 16384
// for cuts.
// vf:budget=400000000
func C26_huge() {
	seg := newSeg()
	addAll(seg, []word{{"一丁", 5, "n"}, {"丁七三", 3, "v"}, {"ab", 2, "q"}})
	seg.CalcToken()
	s := strings.Repeat("一丁七三ab，", 1310) + near(1)
	got := ""
	switch vf.Pick(3) {
	case 0:
		s = strings.Repeat(s, 4)
		got = join(texts(seg.ModeSegment([]byte(s), true)))
	case 1:
		got = join(seg.Cut(s, false))
	case 2:
		s = strings.Repeat("aB1", 6100)
		got = join(seg.CutAll(s))
		s = strings.ToLower(s)
	}
	vf.ObsI(len(got))
	vf.Assert(got == s, "nothing is lost")
}
