package core

import (
	"strings"
	"unicode"

	"github.com/go-ego/gse"

	"vfh/vf"
)

func samePos(a, b []gse.SegPos) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func posText(ps []gse.SegPos) string {
	s := ""
	for _, p := range ps {
		s += p.Text + "/" + p.Pos + ";"
	}
	return s
}

// refs are the references of the filters.
func refTrim(seg *gse.Segmenter, ps []gse.SegPos) (out []gse.SegPos) {
	for _, p := range ps {
		if t := refSymbol(p.Text); t != "" && (seg.NotStop || !seg.IsStop(t)) {
			out = append(out, p)
		}
	}
	return
}

func refPunct(seg *gse.Segmenter, ps []gse.SegPos) (out []gse.SegPos) {
	for _, p := range ps {
		if p.Text == "" || !seg.NotStop && seg.IsStop(p.Text) {
			continue
		}
		r := []rune(p.Text)[0]
		if !unicode.IsSpace(r) && !unicode.IsPunct(r) {
			out = append(out, p)
		}
	}
	return
}

func refWith(ps []gse.SegPos, drop []string) (out []gse.SegPos) {
	for _, p := range ps {
		if !in(drop, p.Pos) {
			out = append(out, p)
		}
	}
	return
}

func anyPos() []string {
	menu := [][]string{nil, {"n"}, {"v", "n"}, {"x", "v", "n"}, {""}, {"n", "n"}}
	return menu[vf.Pick(len(menu))]
}

// C30_filters: any list.
func C30_filters() {
	seg := stopSeg("一", "b", "a$")
	seg.NotStop = vf.Pick(2) == 1
	ws := wordsIn(vf.Pick(vf.Bound(3, 4)))
	ps := make([]gse.SegPos, len(ws))
	for i, w := range ws {
		ps[i] = gse.SegPos{Text: w, Pos: []string{"n", "v", ""}[vf.Pick(3)]}
	}
	keep := append([]gse.SegPos(nil), ps...)
	drop := anyPos()
	a, b, c := seg.TrimPos(ps), seg.TrimPosPunct(ps), seg.TrimWithPos(ps, drop...)
	vf.ObsS(posText(a))
	vf.ObsS(posText(b))
	vf.ObsS(posText(c))
	vf.Assert(samePos(ps, keep), "the filters leave their argument alone")
	vf.Assert(samePos(a, refTrim(seg, keep)), "TrimPos drops stop words and what is only symbols")
	vf.Assert(samePos(b, refPunct(seg, keep)), "TrimPosPunct drops stop words and what begins with a space or punctuation")
	vf.Assert(samePos(c, refWith(keep, drop)), "TrimWithPos drops exactly the words of these parts of speech")
}

// C30_any: any runes.
func C30_any() {
	seg := stopSeg("一")
	ps := []gse.SegPos{{Text: anyText(vf.Pick(3)), Pos: "n"}, {Text: anyText(1), Pos: "v"}}
	a, b := seg.TrimPos(ps), seg.TrimPosPunct(ps)
	vf.ObsS(posText(a))
	vf.Assert(samePos(a, refTrim(seg, ps)), "TrimPos drops stop words and what is only symbols")
	vf.Assert(samePos(b, refPunct(seg, ps)), "TrimPosPunct drops stop words and what begins with a space or punctuation")
}

// C30_cut: cutting and filtering in one step.
// vf:budget=4000000
func C30_cut() {
	seg := stopSeg("一", "丁七")
	addAll(seg, []word{{"一丁", 5, "n"}, {"丁七", 9, "v"}, {"ab", 3, "n"}, {"一丁七三", 40, "v"}})
	seg.CalcToken()
	n := vf.Pick(vf.Bound(4, 5))
	rs := make([]rune, n)
	for i := range rs {
		rs[i] = vf.RuneOf("一丁七三a,")
	}
	s := string(rs)
	mode := vf.Pick(2) == 1
	drop := anyPos()
	want := refTrim(seg, refWith(seg.Pos(s, mode), drop))
	vf.ObsS(posText(want))
	vf.Assert(samePos(seg.PosTrim(s, mode, drop...), want), "PosTrim gives the words of Pos, filtered")
	var ws []string
	for _, p := range want {
		ws = append(ws, p.Text)
	}
	vf.Assert(sameSS(seg.PosTrimArr(s, mode, drop...), ws), "PosTrimArr gives their texts")
	vf.Assert(seg.PosTrimStr(s, mode, drop...) == strings.Join(ws, " "), "PosTrimStr joins them")
}

// C30_lists: longer lists.
func C30_lists() {
	seg := stopSeg("一", "b", "a$", "丁丁")
	seg.NotStop = vf.Pick(2) == 1
	menu := []string{"一", "丁丁", "a-b", "", ",", "the", "七", "$b", " ", "…。", "c"}
	tags := []string{"n", "v", "", "x", "nr", "n"}
	at, step := vf.Pick(len(menu)), 1+vf.Pick(3)
	var ps []gse.SegPos
	for i := range vf.Bound(14, 40) {
		w := menu[(at+i*step)%len(menu)]
		if i == 6 {
			w = wordsIn(1)[0]
		}
		ps = append(ps, gse.SegPos{Text: w, Pos: tags[i*i%11%6]})
	}
	keep := append([]gse.SegPos(nil), ps...)
	drop := [][]string{{"n"}, {"v", "n", "x"}, {"x", "q", "", "nr"}, {"nr", "nr"}}[vf.Pick(4)]
	a, b, c := seg.TrimPos(ps), seg.TrimPosPunct(ps), seg.TrimWithPos(ps, drop...)
	vf.ObsS(posText(a))
	vf.Assert(samePos(ps, keep), "the filters leave their argument alone")
	vf.Assert(samePos(a, refTrim(seg, keep)), "TrimPos drops stop words and what is only symbols")
	vf.Assert(samePos(b, refPunct(seg, keep)), "TrimPosPunct drops stop words and what begins with a space or punctuation")
	vf.Assert(samePos(c, refWith(keep, drop)), "TrimWithPos drops exactly the words of these parts of speech")
}
