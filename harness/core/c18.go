package core

import (
	"strings"
	"unicode"
	"unicode/utf8"

	"github.com/go-ego/gse"

	"vfh/vf"
)

// C18_runes: the filters of a text keep exactly the runes they should.
func C18_runes() {
	n := vf.Pick(vf.Bound(4, 5))
	s := anyText(n)
	sym, emoji, rng := "", "", ""
	var list []string
	for _, r := range s {
		if keepRune(r) {
			sym += string(r)
		}
		if utf8.RuneLen(r) <= 3 {
			emoji += string(r)
		}
		list = append(list, string(r))
		rng += string(r) + " "
	}
	vf.ObsS(sym)
	vf.ObsS(emoji)
	vf.Assert(gse.FilterSymbol(s) == sym, "FilterSymbol keeps what is no symbol, space or punctuation")
	vf.Assert(gse.FilterEmoji(s) == emoji, "FilterEmoji keeps the runes of up to three bytes")
	vf.Assert(sameSS(gse.Range(s), list), "Range gives the runes")
	vf.Assert(gse.RangeText(s) == rng, "RangeText gives the runes, each before a space")
}

// C18_lang: letters and the runes of the script stay.
func C18_lang() {
	lang := []string{"Han", "Latin", "Hiragana", "Common"}[vf.Pick(4)]
	n := vf.Pick(vf.Bound(3, 4))
	s := anyText(n)
	want := ""
	for _, r := range s {
		if unicode.IsLetter(r) || unicode.Is(unicode.Scripts[lang], r) {
			want += string(r)
		}
	}
	vf.ObsS(want)
	vf.Assert(gse.FilterLang(s, lang) == want, "FilterLang keeps the letters and the runes of the script")
}

// C18_numbers: the parts are the runs of digits and of other runes.
// vf:budget=4000000
func C18_numbers() {
	n := vf.Pick(vf.Bound(5, 6))
	rs := make([]rune, n)
	for i := range rs {
		if vf.Pick(2) == 0 {
			rs[i] = vf.Rune('.', 'B')
		} else {
			rs[i] = vf.RuneOf("a一 \n０")
		}
	}
	s := string(rs)
	var want []string
	was := false
	for i, r := range rs {
		d := r >= '0' && r <= '9'
		if i == 0 || d != was {
			want = append(want, "")
		}
		want[len(want)-1] += string(r)
		was = d
	}
	got := gse.SplitNum(s)
	vf.ObsSS(got)
	vf.Assert(sameSS(got, want), "SplitNum gives the runs of digits and of other runes")
	vf.Assert(gse.SplitNums(s) == strings.Join(want, " "), "SplitNums joins them with spaces")
}

// C18_bytes: any bytes: splitting by numbers loses nothing.
// vf:budget=4000000
func C18_bytes() {
	n := vf.Pick(vf.Bound(4, 5))
	b := vf.Bytes(n)
	s := string(b)
	got := gse.SplitNum(s)
	all := ""
	for i, p := range got {
		vf.Assert(p != "", "no part is empty")
		d := p[0] >= '0' && p[0] <= '9'
		for j := range len(p) {
			vf.Assert((p[j] >= '0' && p[j] <= '9') == d, "a part is all digits or has none")
		}
		if i > 0 {
			q := got[i-1][0]
			vf.Assert((q >= '0' && q <= '9') != d, "a run is not divided")
		}
		all += p
	}
	vf.Assert(all == s, "the parts make the text")
}

// refHtml: a tag is '<', anything but '>', one of the class, '>'.
func refHtml(s string) string {
	out := ""
	for i := 0; i < len(s); {
		if s[i] == '<' {
			j := i + 1
			for j < len(s) && s[j] != '>' {
				j++
			}
			if j < len(s) && j > i+1 {
				c := s[j-1]
				if isAlnumByte(c) || c == '_' || c == '|' || c == '=' || c == '"' {
					i = j + 1
					continue
				}
			}
		}
		out += s[i : i+1]
		i++
	}
	return out
}

func isAlnumByte(c byte) bool {
	return c >= '0' && c <= '9' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z'
}

// C18_html: tags are taken out and nothing else is.
// vf:budget=8000000
func C18_html() {
	n := vf.Pick(vf.Bound(6, 7))
	rs := make([]rune, n)
	for i := range rs {
		rs[i] = vf.RuneOf("<>a/=一\n")
	}
	s := string(rs)
	got := gse.FilterHtml(s)
	vf.ObsS(got)
	vf.Assert(got == refHtml(s), "FilterHtml takes out the tags and nothing else")
}

// C18_cuts: the cuts that filter first or afterwards.
// vf:budget=8000000
func C18_cuts() {
	seg := newSeg()
	addAll(seg, []word{{"一丁", 5, ""}, {"a", 9, ""}})
	seg.CalcToken()
	n := vf.Pick(vf.Bound(4, 5))
	rs := make([]rune, n)
	for i := range rs {
		rs[i] = vf.RuneOf("<>a1一丁")
	}
	s := string(rs)
	trim := func(ws []string) []string {
		var out []string
		for _, w := range ws {
			if t := refSymbol(w); t != "" {
				out = append(out, t)
			}
		}
		return out
	}
	switch vf.Pick(3) {
	case 0:
		want := trim(seg.Cut(refHtml(s)))
		vf.ObsSS(want)
		vf.Assert(sameSS(seg.CutTrimHtml(s), want), "CutTrimHtml cuts the text without its tags")
		vf.Assert(seg.CutTrimHtmls(s) == strings.Join(want, " "), "CutTrimHtmls joins the words")
	case 1:
		want := trim(seg.Cut(strings.Join(refNums(rs), " ")))
		vf.ObsSS(want)
		vf.Assert(sameSS(seg.CutUrl(s), want), "CutUrl divides numbers from the rest")
		vf.Assert(seg.CutUrls(s) == strings.Join(want, " "), "CutUrls joins the words")
	case 2:
		want := trim(seg.Cut(s))
		vf.Assert(sameSS(seg.CutUrl(s, true), want), "CutUrl leaves numbers as they are when asked to")
		vf.Assert(seg.CutUrls(s, true) == strings.Join(want, " "), "CutUrls joins the words")
	}
}

func refNums(rs []rune) []string {
	var want []string
	was := false
	for i, r := range rs {
		d := r >= '0' && r <= '9'
		if i == 0 || d != was {
			want = append(want, "")
		}
		want[len(want)-1] += string(r)
		was = d
	}
	return want
}

// C18_long: long texts, many numbers and tags.
// vf:budget=40000000
func C18_long() {
	n := vf.Bound(30, 150)
	r := vf.RuneOf("<>a1一，𠀀 $")
	s := ""
	for i := range n {
		s += []string{"<a>", "12", "一丁", "<b c=\"1\">", "x", "𠀀，", "</a>", "$ ", "<br/>", "3>4<5"}[i*i%13%10]
		if i == n/2 {
			s += string(r)
		}
	}
	sym, emoji := "", ""
	for _, c := range s {
		if keepRune(c) {
			sym += string(c)
		}
		if c < 0x10000 {
			emoji += string(c)
		}
	}
	vf.Assert(gse.FilterSymbol(s) == sym, "FilterSymbol keeps what is no symbol, space or punctuation")
	vf.Assert(gse.FilterEmoji(s) == emoji, "FilterEmoji keeps the runes of up to three bytes")
	vf.Assert(gse.FilterHtml(s) == refHtml(s), "FilterHtml takes out the tags and nothing else")
	vf.ObsS(gse.FilterHtml(s))
	vf.Assert(sameSS(gse.SplitNum(s), refNums([]rune(s))), "SplitNum gives the runs of digits and of other runes")
	vf.Assert(len(gse.Range(s)) == len([]rune(s)), "Range gives the runes")
}
