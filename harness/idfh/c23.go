// Package idfh holds the harnesses over package idf.
package idfh

import (
	"strconv"
	"strings"

	"github.com/go-ego/gse"
	"github.com/go-ego/gse/hmm/idf"
	"github.com/go-ego/gse/hmm/segment"

	"vfh/vf"
)

type word struct {
	text string
	freq float64
	pos  string
}

func near(n int) string {
	rs := make([]rune, n)
	for i := range rs {
		rs[i] = vf.Rune(0x4E00, 0x4E3F)
	}
	return string(rs)
}

// newSeg is a segmenter with these words and a small model.
func newSeg(ws []word) gse.Segmenter {
	seg := gse.Segmenter{SkipLog: true, NotLoadHMM: true}
	seg.Dict = gse.NewDict()
	for _, w := range ws {
		seg.AddToken(w.text, w.freq, w.pos)
	}
	seg.CalcToken()
	return seg
}

func model(seg *gse.Segmenter) {
	b := map[rune]float64{'一': -1, '丁': -3, '七': -2, '三': -4}
	e := map[rune]float64{'一': -3, '丁': -1, '七': -2.5, '三': -1}
	m := map[rune]float64{'一': -5, '丁': -2, '七': -1, '三': -6}
	s := map[rune]float64{'一': -2, '丁': -4, '七': -3, '三': -1.5}
	seg.LoadModel(b, e, m, s)
}

// refTags are all tags of a text, the heaviest first.
func refTags(words []string, idfs []word, median float64, stops []string) []segment.Segment {
	var out []segment.Segment
	total := 0.0
	for _, w := range words {
		w = strings.TrimSpace(w)
		if len([]rune(w)) < 2 {
			continue
		}
		stop := false
		for _, s := range stops {
			if s == w {
				stop = true
			}
		}
		if stop {
			continue
		}
		total++
		old := false
		for i := range out {
			if out[i].Text == w {
				out[i].Weight++
				old = true
			}
		}
		if !old {
			out = append(out, segment.Segment{Text: w, Weight: 1})
		}
	}
	for i := range out {
		f := median
		for _, w := range idfs {
			if w.text == out[i].Text {
				f = w.freq
			}
		}
		out[i].Weight = f * (out[i].Weight / total)
	}
	// insertion sort
	for i := 1; i < len(out); i++ {
		for j := i; j > 0; j-- {
			a, b := out[j-1], out[j]
			if a.Weight > b.Weight || a.Weight == b.Weight && a.Text > b.Text {
				break
			}
			out[j-1], out[j] = b, a
		}
	}
	return out
}

// medianOf is the upper median of the frequencies.
func medianOf(idfs []word) float64 {
	var fs []float64
	for _, w := range idfs {
		j := len(fs)
		fs = append(fs, w.freq)
		for ; j > 0 && fs[j-1] > w.freq; j-- {
			fs[j] = fs[j-1]
		}
		fs[j] = w.freq
	}
	return fs[len(fs)/2]
}

// checkTags compares with the weights of the reference, but for rounding.
func checkTags(got segment.Segments, want []segment.Segment, k int) {
	vf.Assert(len(got) == min(k, len(want)), "as many tags as asked for or as there are")
	used := make([]bool, len(want))
	for i, t := range got {
		at := -1
		for j := range want {
			if want[j].Text == t.Text && !used[j] {
				at = j
			}
		}
		vf.Assert(at >= 0, "a tag is a word of the text that counts, once")
		used[at] = true
		vf.Assert(close(t.Weight, want[at].Weight), "the weight is the share of the word times its idf")
		if i > 0 {
			p := got[i-1]
			vf.Assert(p.Weight > t.Weight || p.Weight == t.Weight && p.Text > t.Text, "the heaviest words, the heaviest first")
		}
	}
	for j := range want {
		if !used[j] && len(got) > 0 {
			w, last := want[j], got[len(got)-1]
			vf.Assert(w.Weight <= last.Weight || close(w.Weight, last.Weight), "no word that is left out is heavier")
			if w.Weight == last.Weight {
				vf.Assert(w.Text < last.Text, "of equal words the last ones by text come first")
			}
		}
	}
}

// C23_tags: any text, any idf of the menu.
func C23_tags() {
	ws := []word{{"一丁", 20, "n"}, {"丁七", 9, "v"}, {"一丁七", 5, "n"}, {"ab", 4, "n"}}
	seg := newSeg(ws)
	var te idf.TagExtracter
	te.WithGse(seg)
	te.Idf = idf.NewIdf()
	te.LoadIdfStr("一丁七三 4\n")
	idfs := []word{{"一丁七三", 4, ""}, {"丁七", vf.SelF(3, 8), ""}}
	te.Idf.AddToken("丁七", idfs[1].freq)
	if vf.Pick(2) == 1 {
		f := vf.SelF(2, 6)
		te.Idf.AddToken("ab", f)
		idfs = append(idfs, word{"ab", f, ""})
	}
	median := medianOf(idfs)
	model(&seg)
	n := vf.Pick(vf.Bound(5, 6))
	rs := make([]rune, n)
	for i := range rs {
		rs[i] = vf.RuneOf("一丁七")
	}
	s := string(rs)
	if vf.Pick(2) == 1 {
		s = "ab" + s
	}
	want := refTags(seg.Cut(s, true), idfs, median, nil)
	k := 1 + vf.Pick(3)
	got := te.ExtractTags(s, k)
	obs(got)
	checkTags(got, want, k)
}

// C23_order: the same for every order of maps, also without any tag asked for.
func C23_order() {
	seg := newSeg([]word{{"一丁", 20, "n"}, {"丁七", 9, "v"}, {"ab", 4, "n"}})
	var te idf.TagExtracter
	te.WithGse(seg)
	te.LoadIdfStr("一丁 4\n丁七 4\n")
	te.Idf.AddToken("ab", vf.SelF(2, 4))
	f, _, _ := te.Idf.Freq("ab")
	model(&seg)
	n := vf.Bound(3, 4)
	rs := make([]rune, n)
	for i := range rs {
		rs[i] = vf.RuneOf("一丁七")
	}
	s := "ab" + string(rs)
	want := refTags(seg.Cut(s, true), []word{{"一丁", 4, ""}, {"丁七", 4, ""}, {"ab", f, ""}}, medianOf([]word{{"", 4, ""}, {"", 4, ""}, {"", f, ""}}), nil)
	k := 2
	vf.MapOrder(true)
	for i := 0; i == 0 || vf.Native() && i < 200; i++ {
		got := te.ExtractTags(s, k)
		checkTags(got, want, k)
	}
	vf.MapOrder(false)
}

// C23_stop: stop words and short words are no tags.
func C23_stop() {
	ws := []word{{"一丁", 20, "n"}, {"丁七", 9, "v"}, {"the", 5, "n"}, {"of", 4, "n"}}
	seg := newSeg(ws)
	var te idf.TagExtracter
	te.WithGse(seg)
	te.LoadIdfStr("一丁 5\n丁七 7\nof 3\n")
	model(&seg)
	var rs []string
	for range vf.Pick(vf.Bound(3, 4)) {
		p := ""
		switch vf.Pick(4) {
		case 0:
			p = near(1)
		case 1:
			p = string([]rune{vf.RuneOf("o "), vf.RuneOf("f,一")})
		case 2:
			p = "the"
		case 3:
			p = "一丁"
		}
		rs = append(rs, p)
	}
	s := join(rs)
	want := refTags(seg.Cut(s, true), []word{{"一丁", 5, ""}, {"丁七", 7, ""}, {"of", 3, ""}}, 5, []string{"the", "of"})
	k := 1 + vf.Pick(3)
	got := te.ExtractTags(s, k)
	obs(got)
	checkTags(got, want, k)
}

func join(ws []string) string {
	s := ""
	for _, w := range ws {
		s += w
	}
	return s
}

func obs(ts segment.Segments) {
	for _, t := range ts {
		vf.ObsS(t.Text)
		vf.ObsF(t.Weight)
	}
}

// C23_many: a long text, many words, any number of tags.
// vf:budget=40000000
func C23_many() {
	set := []rune("一丁七三上下不世")
	var ws, idfs []word
	for i := range 24 {
		w := word{string([]rune{set[i%8], set[(i/8+i)%8]}), 100, "n"}
		ws = append(ws, w)
	}
	seg := newSeg(ws)
	var te idf.TagExtracter
	te.WithGse(seg)
	te.Idf = idf.NewIdf()
	te.LoadIdfStr("一丁七三 4\n")
	idfs = append(idfs, word{"一丁七三", 4, ""})
	for i := range 9 {
		f := float64(i*i%7 + 2)
		te.Idf.AddToken(ws[i*2].text, f)
		idfs = append(idfs, word{ws[i*2].text, f, ""})
	}
	median := medianOf(idfs)
	model(&seg)
	s := ""
	for i := range vf.Bound(50, 150) {
		s += ws[i*i%31%24].text
		if i == 25 {
			s += string(vf.RuneOf("一丁上，"))
		}
	}
	want := refTags(seg.Cut(s, true), idfs, median, nil)
	k := []int{1, 5, 12, 100}[vf.Pick(4)]
	got := te.ExtractTags(s, k)
	obs(got)
	checkTags(got, want, k)
}

// list is tags or ranks as texts.
func list(ts segment.Segments) (r []string) {
	for _, t := range ts {
		r = append(r, t.Text+"/"+strconv.Itoa(int(t.Weight*1e9)))
	}
	return r
}

func same(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// C23_fresh: the tags do not depend on the calls before: on other texts, with
// other numbers of tags, on other extracters, or before the idf was loaded.
func C23_fresh() {
	s := string([]rune{vf.RuneOf("一丁七"), '丁', vf.RuneOf("一丁七"), vf.RuneOf("七,")})
	start := func() *idf.TagExtracter {
		var te idf.TagExtracter
		seg := newSeg([]word{{"一丁", 20, "n"}, {"丁七", 9, "v"}, {"丁丁", 4, "n"}, {"一丁丁", 2, "n"}})
		model(&seg)
		te.WithGse(seg)
		te.LoadIdfStr("一丁 4\n丁七 6\n丁丁 1\n")
		te.Idf.AddToken("上下", 3)
		return &te
	}
	k, late := 1+vf.Pick(3), vf.Pick(2) == 1
	load := func(te *idf.TagExtracter) {
		if late {
			te.LoadIdfStr("一丁 2\n丁丁 7\n")
			te.Idf.AddToken("上下", 5)
		}
	}
	want := vf.Fresh(func() []string {
		te := start()
		load(te)
		return list(te.ExtractTags(s, k))
	})
	te, other := start(), start()
	other.LoadIdfStr("一丁 9\n")
	other.ExtractTags(s, 2)
	for i := 1; i < 4; i++ {
		te.ExtractTags(s, (k+i)%4)
		te.ExtractTags(s+"一丁", i)
	}
	load(te)
	vf.ObsSS(want)
	vf.Assert(same(list(te.ExtractTags(s, k)), want), "the tags do not depend on the calls before")
	vf.Assert(same(list(te.ExtractTags(s, k)), want), "the tags do not depend on the calls before")
}

// C23_load: the idf from a file or a string, the stop words from a file.
func C23_load() {
	seg := newSeg([]word{{"一丁", 20, "n"}, {"丁七", 9, "v"}, {"七三", 5, "n"}, {"上下", 4, "n"}})
	model(&seg)
	var te idf.TagExtracter
	te.WithGse(seg)
	w := string([]rune{vf.RuneOf("一丁七"), vf.RuneOf("丁七三")})
	rows := []word{{w, 6, ""}, {"上下七", 3, ""}, {"丁上下", 5.5, ""}}
	rows = rows[:1+vf.Pick(3)]
	text := ""
	for i, r := range rows {
		text += r.text + " " + []string{"6", "3", "5.5"}[i] + "\n"
	}
	if vf.Pick(2) == 1 {
		vf.File(vf.Dir()+"/idf.txt", text)
		vf.Assert(te.LoadIdf(vf.Dir()+"/idf.txt") == nil, "loading the idf")
	} else {
		vf.Assert(te.LoadIdfStr(text) == nil, "loading the idf")
	}
	var stops []string
	if vf.Pick(2) == 1 {
		stops = []string{string([]rune{'上', vf.RuneOf("下丁")}), "the"}
		vf.File(vf.Dir()+"/stop.txt", stops[0]+"\n七\n")
		vf.Assert(te.LoadStopWords(vf.Dir()+"/stop.txt") == nil, "loading the stop words")
	}
	s := "一丁上下" + string([]rune{vf.RuneOf("丁七"), vf.RuneOf("七三")}) + "上下"
	k := 1 + vf.Pick(3)
	got := te.ExtractTags(s, k)
	obs(got)
	checkTags(got, refTags(seg.Cut(s, true), rows, medianOf(rows), stops), k)
	f, _, ok := te.Idf.Freq(w)
	vf.Assert(ok && f == 6, "the idf of a row is found")
	vf.Assert(te.Idf.NumTokens() == len(rows), "the idf has the words of its rows")
}

// C23_case: words in any case, with ToLower and without it.
func C23_case() {
	gse.ToLower = vf.Pick(2) == 1
	seg := newSeg([]word{{"一丁", 20, "n"}})
	var te idf.TagExtracter
	te.WithGse(seg)
	te.LoadIdfStr("一丁 5\nab 7\n")
	model(&seg)
	s := ""
	for range vf.Pick(vf.Bound(4, 5)) {
		s += string([]rune{vf.RuneOf("iIsa"), vf.RuneOf("sSfF")}) + []string{" ", "一丁"}[vf.Pick(2)]
	}
	idfs := []word{{"一丁", 5, ""}, {"ab", 7, ""}}
	want := refTags(seg.Cut(s, true), idfs, 7, []string{"is", "if", "as"})
	got := te.ExtractTags(s, 9)
	obs(got)
	checkTags(got, want, 9)
}
