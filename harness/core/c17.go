package core

import (
	"strings"
	"unicode"

	"github.com/go-ego/gse"

	"vfh/vf"
)

// keepRune tells whether a rune is no symbol, space or punctuation.
func keepRune(r rune) bool {
	return !unicode.IsSymbol(r) && !unicode.IsSpace(r) && !unicode.IsPunct(r)
}

func refSymbol(s string) string {
	out := ""
	for _, r := range s {
		if keepRune(r) {
			out += string(r)
		}
	}
	return out
}

// stopSeg is a segmenter with stop words.
func stopSeg(stops ...string) *gse.Segmenter {
	seg := newSeg()
	seg.LoadStopArr(stops)
	return seg
}

func in(ss []string, s string) bool {
	for _, x := range ss {
		if x == s {
			return true
		}
	}
	return false
}

// C17_history: histories of adding and removing stop words.
func C17_history() {
	seg := newSeg()
	uni := []string{near(1), "the", "一", ""}
	vf.Assume(uni[0] != uni[2])
	have := make([]bool, len(uni))
	for k := 0; k < vf.Bound(3, 4); k++ {
		op := vf.Pick(7)
		i := 0
		if op > 1 {
			i = vf.Pick(len(uni))
		}
		switch op {
		case 0:
		case 1:
			vf.Assert(seg.EmptyStop() == nil, "emptying succeeds")
			have = make([]bool, len(uni))
		case 2:
			seg.AddStop(uni[i])
			have[i] = true
		case 3:
			seg.AddStopArr(uni[i], uni[0])
			have[i], have[0] = true, true
		case 4:
			seg.LoadStopArr([]string{uni[i]})
			have[i] = true
		case 5:
			seg.RemoveStop(uni[i])
			have[i] = false
		case 6:
			vf.Assert(seg.LoadStopStr(" "+uni[i]+"\n") == nil, "loading succeeds")
			if uni[i] != "" {
				have[i] = true
			}
		}
		for j := range uni {
			vf.Assert(seg.IsStop(uni[j]) == have[j], "a word is a stop word if it was added and not removed since")
		}
	}
	x := near(1)
	want := false
	for j := range uni {
		if uni[j] == x {
			want = have[j]
		}
	}
	vf.ObsB(want)
	vf.Assert(seg.IsStop(x) == want, "no other word is a stop word")
}

func wordsIn(n int) []string {
	ws := make([]string, n)
	for i := range ws {
		switch vf.Pick(4) {
		case 0:
			ws[i] = near(1)
		case 1:
			ws[i] = string(vf.RuneOf("一丁a, $"))
		case 2:
			ws[i] = string([]rune{vf.RuneOf("a,一 "), vf.RuneOf("b.$丁")})
		case 3:
		}
	}
	return ws
}

func copySS(s []string) []string { return append([]string(nil), s...) }

// C17_filters: the filters of word lists.
func C17_filters() {
	stops := []string{"一", "b", "a$"}
	seg := stopSeg(stops...)
	seg.NotStop = vf.Pick(2) == 1
	ws := wordsIn(vf.Pick(vf.Bound(3, 4)))
	keep := copySS(ws)
	var stop, trim, sym, punct []string
	for _, w := range ws {
		if w != "" && !in(stops, w) {
			stop = append(stop, w)
		}
		s := refSymbol(w)
		if s != "" {
			sym = append(sym, s)
			if seg.NotStop || !in(stops, s) {
				trim = append(trim, s)
			}
		}
		for _, r := range w {
			if !unicode.IsSpace(r) && !unicode.IsPunct(r) {
				punct = append(punct, w)
				break
			}
		}
	}
	got := seg.Stop(ws)
	vf.ObsSS(got)
	vf.Assert(sameSS(got, stop), "Stop keeps the words that are no stop words, in order")
	got = seg.Trim(ws)
	vf.ObsSS(got)
	vf.Assert(sameSS(got, trim), "Trim keeps what is no stop word, without symbols, in order")
	got = seg.TrimSymbol(ws)
	vf.Assert(sameSS(got, sym), "TrimSymbol keeps the words without their symbols, in order")
	got = seg.TrimPunct(ws)
	vf.ObsSS(got)
	vf.Assert(sameSS(got, punct), "TrimPunct keeps the words that are more than spaces and punctuation, in order")
	vf.Assert(sameSS(ws, keep), "the filters leave their argument alone")
}

// C17_any: any runes through the filters.
func C17_any() {
	seg := stopSeg("一")
	ws := []string{anyText(vf.Pick(3)), anyText(1)}
	var trim, sym, punct []string
	for _, w := range ws {
		s := refSymbol(w)
		if s != "" {
			sym = append(sym, s)
			if s != "一" {
				trim = append(trim, s)
			}
		}
		for _, r := range w {
			if !unicode.IsSpace(r) && !unicode.IsPunct(r) {
				punct = append(punct, w)
				break
			}
		}
	}
	got := seg.Trim(ws)
	vf.ObsSS(got)
	vf.Assert(sameSS(got, trim), "Trim keeps what is no stop word, without symbols, in order")
	vf.Assert(sameSS(seg.TrimSymbol(ws), sym), "TrimSymbol keeps the words without their symbols, in order")
	vf.Assert(sameSS(seg.TrimPunct(ws), punct), "TrimPunct keeps the words that are more than spaces and punctuation, in order")
}

// C17_cut: cutting and filtering in one step.
func C17_cut() {
	seg := stopSeg("一", "一丁", "ab")
	model(seg)
	seg.NotStop = vf.Pick(2) == 1
	addAll(seg, []word{{"一丁", 5, ""}, {"丁七", 9, ""}, {"ab", 3, ""}})
	seg.CalcToken()
	n := vf.Pick(vf.Bound(4, 5))
	rs := make([]rune, n)
	for i := range rs {
		rs[i] = vf.RuneOf("一丁七ab,$ ")
	}
	s := string(rs)
	var a, b, c []string
	switch vf.Pick(3) {
	case 0:
		a, b, c = seg.Cut(s), seg.CutStop(s), seg.CutTrim(s)
	case 1:
		a, b, c = seg.Cut(s, false), seg.CutStop(s, false), seg.CutTrim(s, false)
	case 2:
		a, b, c = seg.Cut(s, true), seg.CutStop(s, true), seg.CutTrim(s, true)
	}
	vf.ObsSS(b)
	vf.ObsSS(c)
	var stop, trim []string
	for _, w := range a {
		if !seg.IsStop(w) {
			stop = append(stop, w)
		}
		if t := refSymbol(w); t != "" && (seg.NotStop || !seg.IsStop(t)) {
			trim = append(trim, t)
		}
	}
	vf.Assert(sameSS(b, stop), "CutStop gives the words of Cut that are no stop words")
	vf.Assert(sameSS(c, trim), "CutTrim gives the words of Cut, trimmed")
}

// C17_lists: longer lists.
func C17_lists() {
	stops := []string{"一", "b", "a$", "the", "丁丁"}
	seg := stopSeg(stops...)
	seg.NotStop = vf.Pick(2) == 1
	menu := []string{"一", "丁丁", "a-b", "", ",", "the", "七", "$b", " ", "…。", "c"}
	at, step := vf.Pick(len(menu)), 1+vf.Pick(4)
	var ws, stop, trim, punct []string
	for i := range vf.Bound(14, 40) {
		w := menu[(at+i*step)%len(menu)]
		if i == 6 {
			w = wordsIn(1)[0]
		}
		ws = append(ws, w)
		if w != "" && !in(stops, w) {
			stop = append(stop, w)
		}
		if s := refSymbol(w); s != "" && (seg.NotStop || !in(stops, s)) {
			trim = append(trim, s)
		}
		if strings.IndexFunc(w, func(r rune) bool { return !unicode.IsSpace(r) && !unicode.IsPunct(r) }) >= 0 {
			punct = append(punct, w)
		}
	}
	keep := copySS(ws)
	got := seg.Trim(ws)
	vf.ObsSS(got)
	vf.Assert(sameSS(got, trim), "Trim keeps what is no stop word, without symbols, in order")
	vf.Assert(sameSS(seg.Stop(ws), stop), "Stop keeps the words that are no stop words, in order")
	vf.Assert(sameSS(seg.TrimPunct(ws), punct), "TrimPunct keeps the words that are more than spaces and punctuation, in order")
	vf.Assert(sameSS(ws, keep), "the filters leave their argument alone")
}

// C17_marks: a word of several marks, spaces, symbols and letters.
func C17_marks() {
	seg := stopSeg("一", "a")
	w := rtext(1+vf.Pick(vf.Bound(5, 6)), ",。 $一a")
	ws := []string{w, "丁"}
	trim, punct := []string{"丁"}, []string{"丁"}
	sym := refSymbol(w)
	if sym != "" && sym != "一" && sym != "a" {
		trim = []string{sym, "丁"}
	}
	for _, r := range w {
		if !unicode.IsSpace(r) && !unicode.IsPunct(r) {
			punct = []string{w, "丁"}
			break
		}
	}
	vf.ObsS(sym)
	vf.Assert(sameSS(seg.Trim(ws), trim), "Trim keeps what is no stop word, without symbols, in order")
	vf.Assert(sameSS(seg.TrimPunct(ws), punct), "TrimPunct keeps the words that are more than spaces and punctuation, in order")
	vf.Assert(sameSS(seg.Stop(ws), ws) || w == "一" || w == "a", "Stop keeps the words that are no stop words, in order")
}

// C17_pairs: any rune as the stop word, any rune as the word.
func C17_pairs() {
	stop := anyText(1)
	seg := stopSeg(stop, "É", "the")
	w := anyText(1)
	ws := []string{"é", w, []string{"the", "The", "THE", "E"}[vf.Pick(4)]}
	stops := []string{stop, "É", "the", "七"}
	sp := []string{" 一丁", "一丁 ", "\t一丁", "一丁\n", "  "}[vf.Pick(5)]
	if vf.Pick(2) == 1 {
		seg.AddStopArr(sp)
		seg.AddStop("七")
	} else {
		seg.AddStopArr("七", sp)
	}
	vf.Assert(seg.IsStop(sp) && !seg.IsStop("一丁") && !seg.IsStop(""), "a stop word may have spaces")
	var want, trim []string
	for _, x := range ws {
		if !in(stops, x) {
			want = append(want, x)
		}
		if s := refSymbol(x); s != "" && !in(stops, s) {
			trim = append(trim, s)
		}
	}
	vf.Assert(sameSS(seg.Stop(ws), want), "Stop keeps the words that are no stop words, in order")
	vf.Assert(sameSS(seg.Trim(ws), trim), "Trim keeps what is no stop word, without symbols, in order")
	vf.ObsI(len(want))
}
