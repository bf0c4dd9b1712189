// Package posh holds the harnesses over package pos.
package posh

import (
	"strings"
	"unicode"

	"github.com/go-ego/gse"
	"github.com/go-ego/gse/hmm/pos"

	"vfh/vf"
)

type word struct {
	text string
	freq float64
	pos  string
}

func find(ws []word, text string) (word, bool) {
	for _, w := range ws {
		if w.text == text {
			return w, true
		}
	}
	return word{}, false
}

func some(ws []word) []word {
	var out []word
	for _, w := range ws {
		if vf.Pick(2) == 1 {
			out = append(out, w)
		}
	}
	return out
}

// newSeg is a part-of-speech segmenter with these words.
func newSeg(ws []word) *pos.Segmenter {
	seg := gse.Segmenter{SkipLog: true, NotLoadHMM: true}
	seg.Dict = gse.NewDict()
	for _, w := range ws {
		seg.AddToken(w.text, w.freq, w.pos)
	}
	seg.CalcToken()
	var p pos.Segmenter
	p.WithGse(seg)
	return &p
}

func near(n int) string {
	rs := make([]rune, n)
	for i := range rs {
		rs[i] = vf.Rune(0x4E00, 0x4E3F)
	}
	return string(rs)
}

func join(ps []gse.SegPos) string {
	s := ""
	for _, p := range ps {
		vf.Assert(p.Text != "", "no word is empty")
		s += p.Text
	}
	return s
}

func posText(ps []gse.SegPos) string {
	s := ""
	for _, p := range ps {
		s += p.Text + "/" + p.Pos + ";"
	}
	return s
}

func alnum(s string) bool {
	for _, r := range s {
		if !(r >= '0' && r <= '9' || r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z') {
			return false
		}
	}
	return true
}

// C21_plain: without the model: words of the dictionary and single runes.
func C21_plain() {
	ws := some([]word{{"一", 9, "m"}, {"一丁", 20, "n"}, {[]string{"a", "一a", "a一"}[vf.Pick(3)], 4, "q"}})
	free := []rune(near(1))
	if vf.Pick(2) == 1 {
		free = append(free, vf.RuneOf("一丁七"))
	}
	ws = append(ws, word{string(free), 7, "r"})
	for _, w := range ws[:len(ws)-1] {
		vf.Assume(w.text != ws[len(ws)-1].text)
	}
	seg := newSeg(ws)
	n := vf.Pick(vf.Bound(4, 5))
	rs := make([]rune, n)
	for i := range rs {
		switch {
		case i == 1:
			rs[i] = vf.Rune(0x4E00, 0x4E3F)
		default:
			rs[i] = vf.RuneOf("一丁七a1, ")
		}
	}
	s := string(rs)
	got := seg.Cut(s)
	vf.ObsS(posText(got))
	vf.Assert(join(got) == s, "the words make the text")
	for _, p := range got {
		w, ok := find(ws, p.Text)
		switch {
		case alnum(p.Text):
			vf.Assert(p.Pos == "eng" || ok && p.Pos == w.pos, "letters and digits are eng or a word of the dictionary")
		case ok:
			vf.Assert(p.Pos == w.pos, "a word has the part of speech of the dictionary")
		default:
			vf.Assert(len([]rune(p.Text)) == 1 && p.Pos == "x", "anything else is a single rune with x")
		}
	}
}

// modelCheck compares the words with those without the model: the words of
// several runes stay, only runs of single runes go through the model.
func modelCheck(seg *pos.Segmenter, ws []word, s string) {
	got := seg.Cut(s, true)
	vf.ObsS(posText(got))
	vf.Assert(join(got) == s, "the words make the text")
	base := seg.Cut(s, false)
	g := 0
	for i := 0; i < len(base); {
		if len([]rune(base[i].Text)) > 1 {
			vf.Assert(g < len(got) && got[g] == base[i], "a word of several runes stays")
			i++
			g++
			continue
		}
		j, run := i, ""
		for j < len(base) && len([]rune(base[j].Text)) == 1 {
			run += base[j].Text
			j++
		}
		if _, ok := find(ws, run); ok || j == i+1 {
			for ; i < j; i++ {
				vf.Assert(g < len(got) && got[g] == base[i], "single runes keep their parts of speech")
				g++
			}
			continue
		}
		t := ""
		for len(t) < len(run) && g < len(got) {
			t += got[g].Text
			g++
		}
		vf.Assert(t == run, "a run of single runes is divided on its own")
		i = j
	}
	vf.Assert(g == len(got), "nothing is added")
}

// C21_model: with the model, any words.
func C21_model() {
	ws := some([]word{{"一丁", 20, "n"}, {"丁七", 30, "v"}, {"一", 3, "m"}})
	ws = append(ws, word{"七三上", 7, "r"})
	seg := newSeg(ws)
	n := vf.Pick(vf.Bound(4, 5))
	rs := make([]rune, n)
	for i := range rs {
		rs[i] = vf.RuneOf("一丁七三")
	}
	modelCheck(seg, ws, string(rs))
}

// C21_mixed: Han runes, letters, digits and others with the model.
func C21_mixed() {
	ws := []word{{"一丁", 20, "n"}, {"a1", 30, "v"}, {"1", 3, "m"}}
	seg := newSeg(ws)
	n := vf.Pick(vf.Bound(4, 5))
	rs := make([]rune, n)
	for i := range rs {
		rs[i] = vf.RuneOf("一丁a1.,")
	}
	s := string(rs)
	got := seg.Cut(s, true)
	vf.ObsS(posText(got))
	vf.Assert(join(got) == s, "the words make the text")
	for _, p := range got {
		if w, ok := find(ws, p.Text); ok {
			vf.Assert(p.Pos == w.pos || len([]rune(p.Text)) == 1 || p.Pos == "m" || p.Pos == "eng", "a word has its part of speech or that of its kind")
		}
	}
}

// C21_any: any valid runes: nothing is lost.
func C21_any() {
	seg := newSeg([]word{{"一丁", 20, "n"}, {"é,", 3, "v"}})
	rs := make([]rune, vf.Pick(vf.Bound(3, 4)))
	for i := range rs {
		rs[i] = vf.Rune(0, 0x10FFFF)
		vf.Assume(rs[i] < 0xD800 || rs[i] > 0xDFFF)
	}
	s := string(rs)
	vf.Assert(join(seg.Cut(s)) == s, "the words make the text")
}

// C21_order: the result does not depend on the order of maps.
func C21_order() {
	ws := []word{{"一丁", 20, "n"}, {"一三", 5, "v"}, {"一", 3, "v"}}
	seg := newSeg(ws)
	n := 1 + vf.Pick(vf.Bound(2, 4))
	rs := make([]rune, n)
	for i := range rs {
		rs[i] = vf.RuneOf("一丁七")
	}
	s := string(rs)
	if n == 2 && vf.Pick(2) == 1 {
		s = []string{"㐀一", "一㐀", "㐀"}[vf.Pick(3)]
	}
	hmm := vf.Pick(2) == 1
	want := posText(seg.Cut(s, hmm))
	vf.ObsS(want)
	vf.MapOrder(true)
	for i := 0; i == 0 || vf.Native() && i < 300; i++ {
		vf.Assert(posText(seg.Cut(s, hmm)) == want, "the same text is cut in the same way every time")
	}
	vf.MapOrder(false)
}

// C30_pos: the filters of the part-of-speech segmenter.
func C30_pos() {
	g := gse.Segmenter{SkipLog: true, NotLoadHMM: true, NotStop: vf.Pick(2) == 1}
	g.Dict = gse.NewDict()
	g.AddStopArr("一", "b")
	var seg pos.Segmenter
	seg.WithGse(g)
	ps := make([]gse.SegPos, vf.Pick(3))
	for i := range ps {
		switch vf.Pick(3) {
		case 0:
			ps[i].Text = near(1)
		case 1:
			ps[i].Text = string([]rune{vf.RuneOf("a,一 $")})
		case 2:
			ps[i].Text = string([]rune{vf.RuneOf("a,一 "), vf.RuneOf("b.$丁")})
		}
		ps[i].Pos = []string{"n", "v", ""}[vf.Pick(3)]
	}
	keep := append([]gse.SegPos(nil), ps...)
	drop := [][]string{nil, {"n"}, {"v", "n"}, {"", "v"}}[vf.Pick(4)]
	a, b, c := seg.Trim(ps), seg.TrimPunct(ps), seg.TrimWithPos(ps, drop...)
	var x, y, z []gse.SegPos
	for _, p := range keep {
		t := ""
		for _, r := range p.Text {
			if !unicode.IsSymbol(r) && !unicode.IsSpace(r) && !unicode.IsPunct(r) {
				t += string(r)
			}
		}
		if t != "" && (g.NotStop || t != "一" && t != "b") {
			x = append(x, p)
		}
		if r := []rune(p.Text)[0]; !unicode.IsSpace(r) && !unicode.IsPunct(r) {
			y = append(y, p)
		}
		out := false
		for _, d := range drop {
			if d == p.Pos {
				out = true
			}
		}
		if !out {
			z = append(z, p)
		}
	}
	vf.Assert(posText(ps) == posText(keep), "the filters leave their argument alone")
	vf.ObsS(posText(a))
	vf.Assert(posText(a) == posText(x), "Trim drops stop words and what is only symbols")
	vf.Assert(posText(b) == posText(y), "TrimPunct drops what begins with a space or punctuation")
	vf.Assert(posText(c) == posText(z), "TrimWithPos drops exactly the words of these parts of speech")
}

// C21_fresh: the same words every time, also after other texts and after the
// same text with and without the model, on this segmenter and on another one.
// vf:budget=30000000
func C21_fresh() {
	ws := []word{{"一丁", 20, "n"}, {"丁七", 30, "v"}, {"a", 3, "m"}}
	s := string([]rune{vf.RuneOf("一三a,")})
	for range vf.Pick(vf.Bound(3, 4)) {
		s += string(vf.RuneOf("丁七a "))
	}
	do := func(seg *pos.Segmenter, k int) []string {
		switch k {
		case 0:
			return []string{posText(seg.Cut(s))}
		case 1:
			return []string{posText(seg.Cut(s, true))}
		}
		return []string{posText(seg.Cut(s, false))}
	}
	var want [3][]string
	for k := range want {
		want[k] = vf.Fresh(func() []string { return do(newSeg(ws), k) })
	}
	seg, other := newSeg(ws), newSeg([]word{{"丁七", 4, "t"}, {"三", 8, "q"}, {"七a", 2, "i"}})
	first := vf.Pick(3)
	do(other, first)
	do(seg, first)
	seg.Cut(s+"丁", true)
	seg.Cut("三" + s)
	vf.ObsSS(want[1])
	for i := range want {
		k := (first + 1 + i) % 3
		vf.Assert(do(seg, k)[0] == want[k][0], "the same text is cut in the same way every time")
		vf.Assert(do(newSeg(ws), k)[0] == want[k][0], "the same text is cut in the same way every time")
	}
}

// C21_load: a dictionary from a file: the same words and tags as added ones,
// also after words were added to it and removed from it.
func C21_load() {
	w := string([]rune{vf.RuneOf("一丁七"), vf.Rune(0x4E00, 0x4E3F)})
	rows := []word{{"一丁", 20, "n"}, {w, 30, "v"}, {"七", 5, ""}}
	vf.Assume(w != "一丁")
	vf.File(vf.Dir()+"/d.txt", "一丁 20 n\n"+w+" 30 v\n七 5\n")
	var seg pos.Segmenter
	vf.Assert(seg.LoadDict(vf.Dir()+"/d.txt") == nil, "loading succeeds")
	s := "一" + string([]rune{vf.RuneOf("丁七")}) + "七"
	rows[2].freq = 2
	ref := newSeg(rows)
	hmm := vf.Pick(2) == 1
	if !hmm {
		s += near(1)
	}
	got := seg.Cut(s, hmm)
	vf.ObsS(posText(got))
	vf.Assert(posText(got) == posText(ref.Cut(s, hmm)), "a file gives the words of its rows")
}

// C13_pos: the part-of-speech dictionary is a map, too.
func C13_pos() {
	var d pos.Dict
	d.Seg = gse.Segmenter{SkipLog: true, NotLoadHMM: true}
	d.Seg.Dict = gse.NewDict()
	var ref []word
	free := near(1 + vf.Pick(2))
	for i := range vf.Bound(3, 4) {
		w := word{[]string{"一丁", "一", free}[vf.Pick(3)], vf.SelF(4, 7), []string{"n", "v", ""}[i%3]}
		at := -1
		for i := range ref {
			if ref[i].text == w.text {
				at = i
			}
		}
		if vf.Pick(3) == 0 {
			err := d.RemoveToken(w.text)
			vf.Assert((err == nil) == (at >= 0), "removing fails exactly for a word that is not there")
			if at >= 0 {
				ref = append(ref[:at:at], ref[at+1:]...)
			}
			continue
		}
		vf.Assert(d.AddToken(w.text, w.freq, w.pos) == nil, "adding a word does not fail")
		if at < 0 {
			ref = append(ref, w)
		}
	}
	x := near(1 + vf.Pick(2))
	f, p, ok := d.Freq(x)
	q, ok2 := d.Pos(x)
	w, in := find(ref, x)
	vf.ObsS(q)
	if in {
		vf.Assert(ok && ok2 && f == w.freq && p == w.pos && q == w.pos, "a word has the frequency and part of speech it was added with")
	} else {
		vf.Assert(f == 0 && p == "" && q == "" && !ok2, "a text that is no word has none")
	}
}

// C25_pos: the part-of-speech segmenter writes nothing that is shared.
// vf:budget=20000000
func C25_pos() {
	seg := newSeg([]word{{"一丁", 20, "n"}, {"丁七", 30, "v"}, {"a1", 3, "m"}})
	s := ""
	for range vf.Pick(vf.Bound(4, 5)) {
		s += string(vf.RuneOf("一丁三a,"))
	}
	k := vf.Pick(3)
	vf.Shared(func() {
		var ps []gse.SegPos
		switch k {
		case 0:
			ps = seg.Cut(s)
		case 1:
			ps = seg.Cut(s, true)
		case 2:
			ps = seg.Cut(s, false)
		}
		vf.ObsS(posText(ps))
		seg.Trim(ps)
		seg.TrimPunct(ps)
		seg.TrimWithPos(ps, "n")
	}, seg)
}

// C21_runs: long runs of letters, digits and unknown runes.
// vf:budget=40000000
func C21_runs() {
	ws := []word{{"一丁", 9, "n"}, {"七", 4, "m"}}
	seg := newSeg(ws)
	n := []int{1, 9, 21, 65, 130}[vf.Pick(vf.Bound(5, 5))]
	run := strings.Repeat([]string{"a", "b1", "9"}[vf.Pick(3)], n) + string(vf.RuneOf("aZ0"))
	mid := strings.Repeat("下", vf.Pick(3)*30)
	s := run + "一丁" + run + mid + "七"
	got := seg.Cut(s)
	vf.ObsS(posText(got))
	want := []gse.SegPos{{Text: run, Pos: "eng"}, {Text: "一丁", Pos: "n"}, {Text: run, Pos: "eng"}}
	for range len(mid) / 3 {
		want = append(want, gse.SegPos{Text: "下", Pos: "x"})
	}
	want = append(want, gse.SegPos{Text: "七", Pos: "m"})
	vf.Assert(len(got) == len(want), "the number of words")
	for i := range got {
		vf.Assert(got[i] == want[i], "letters and digits are eng, anything else is a word of the dictionary or a single rune with x")
	}
}
