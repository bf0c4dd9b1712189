package core

import (
	"strings"

	"github.com/go-ego/gse"

	"vfh/vf"
)

// occs are the starts of x in s, from the last one, without overlaps.
func occs(s, x string) []int {
	var out []int
	for end := len(s); ; {
		at := -1
		for i := end - len(x); i >= 0; i-- {
			if s[i:i+len(x)] == x {
				at = i
				break
			}
		}
		if at < 0 || x == "" {
			return out
		}
		out = append(out, at)
		end = at
	}
}

func sameInts(a, b []int) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// C19_occs: any bytes, any two search strings.
// vf:budget=4000000
func C19_occs() {
	s := string(vf.Bytes(vf.Pick(vf.Bound(5, 6))))
	a := string(vf.Bytes(vf.Pick(3)))
	b := string(vf.Bytes(1))
	vf.Assume(a != b)
	m := gse.FindAllOccs([]byte(s), []string{a, b})
	for _, x := range []string{a, b} {
		want := occs(s, x)
		got, ok := m[x]
		vf.Assert(ok == (len(want) > 0), "a string is listed if it occurs")
		vf.ObsI(len(got))
		vf.Assert(sameInts(got, want), "the occurrences of a string, the last one first")
	}
	n := 0
	for range m {
		n++
	}
	vf.Assert(n <= 2, "nothing else is listed")
}

func analyzeWord(seg *gse.Segmenter, ws []word, t *gse.AnalyzeToken, k int, text string) {
	vf.Assert(t.Position == k, "the position of a word is its index")
	vf.Assert(t.Text == text, "the words are those given")
	w, _ := find(ws, text)
	vf.Assert(t.Freq == w.freq && t.Pos == w.pos, "a word has the frequency and part of speech of the dictionary")
}

// C19_empty: without the text the words follow one another.
func C19_empty() {
	seg := newSeg()
	ws := []word{{near(1 + vf.Pick(2)), 5, "n"}, {"ab", 4, "v"}}
	addAll(seg, ws)
	list := wordsIn(vf.Pick(vf.Bound(4, 5)))
	for i, w := range list {
		if w == "" {
			list[i] = "ab"
		}
	}
	vf.Assert(len(seg.Analyze(nil, "")) == 0, "no words, no tokens")
	by := vf.Pick(2) == 1
	var az []gse.AnalyzeToken
	if by {
		az = seg.Analyze(list, "", true)
	} else {
		az = seg.Analyze(list, "")
	}
	vf.Assert(len(az) == len(list), "one token for each word")
	at := 0
	for i, w := range list {
		analyzeWord(seg, ws, &az[i], i, w)
		n := len(w)
		if by {
			n = len([]rune(w))
		}
		vf.Assert(az[i].Start == at && az[i].End == at+n, "each word starts where the one before ends")
		vf.ObsI(at)
		at += n
	}
}

// placed checks the tokens against the text in lower case.
func placed(seg *gse.Segmenter, ws []word, list []string, low string, az []gse.AnalyzeToken) {
	vf.Assert(len(az) == len(list), "one token for each word")
	for i, w := range list {
		analyzeWord(seg, ws, &az[i], i, w)
		all := occs(low, w)
		if len(all) == 0 {
			continue
		}
		s, e := az[i].Start, az[i].End
		vf.ObsI(s)
		vf.Assert(s >= 0 && e == s+len(w) && e <= len(low) && low[s:e] == w, "a word is where its token says")
		k := 0
		for _, p := range list[:i] {
			if p == w {
				k++
			}
		}
		if k < len(all) {
			vf.Assert(s == all[k], "repeated words have different places, from the last one on")
		}
	}
}

// C19_words: with the text, any words.
// vf:budget=4000000
func C19_words() {
	seg := newSeg()
	gse.ToLower = vf.Pick(2) == 1
	ws := []word{{near(2), 5, "n"}, {"一丁", 4, "v"}}
	different([]string{ws[0].text, ws[1].text})
	addAll(seg, ws)
	n := 1 + vf.Pick(vf.Bound(3, 4))
	rs := make([]rune, n)
	for i := range rs {
		rs[i] = vf.RuneOf("一丁aA")
	}
	t1 := string(rs)
	var list []string
	for range 1 + vf.Pick(vf.Bound(3, 4)) {
		list = append(list, []string{"一", "一丁", "a", ws[0].text}[vf.Pick(4)])
	}
	low := t1
	if gse.ToLower {
		low = lowerASCII(t1)
	}
	placed(seg, ws, list, low, seg.Analyze(list, t1))
}

// C19_cut: the words of the cutters, placed in their text.
// vf:budget=4000000
func C19_cut() {
	seg := newSeg()
	ws := some([]word{{"一一", 5, "n"}, {"一丁", 9, "v"}})
	ws = append(ws, word{"一一丁", 6, "a"})
	addAll(seg, ws)
	seg.CalcToken()
	n := 1 + vf.Pick(vf.Bound(3, 4))
	rs := make([]rune, n)
	for i := range rs {
		rs[i] = vf.RuneOf("一丁A")
	}
	s := string(rs)
	var list []string
	switch vf.Pick(4) {
	case 0:
		list = seg.Cut(s)
	case 1:
		list = seg.Cut(s, false)
	case 2:
		list = seg.CutSearch(s, false)
	case 3:
		list = seg.CutAll(s)
	}
	placed(seg, ws, list, lowerASCII(s), seg.Analyze(list, s))
}

// C19_overlap: longer strings that may overlap themselves.
func C19_overlap() {
	set := []string{"一丁", "ab", "é一"}[vf.Pick(3)]
	s := rtext(vf.Pick(vf.Bound(6, 8)), set)
	a := rtext(1+vf.Pick(3), set)
	b := rtext(2, set)
	different([]string{a, b})
	m := gse.FindAllOccs([]byte(s), []string{a, b})
	for _, x := range []string{a, b} {
		want := occs(s, x)
		got, ok := m[x]
		vf.Assert(ok == (len(want) > 0), "a string is listed if it occurs")
		vf.ObsI(len(got))
		vf.Assert(sameInts(got, want), "the occurrences of a string, the last one first")
	}
}

// C19_repeats: words that occur several times, some within others.
func C19_repeats() {
	seg := newSeg()
	ws := []word{{"一一", 5, "n"}, {"ab", 4, "v"}, {"é", 3, "m"}, {"a", 2, "q"}}
	addAll(seg, ws)
	t := mix(vf.Pick(vf.Bound(5, 6)), "一", "ab", "é") + "一一"
	var list []string
	for range 1 + vf.Pick(vf.Bound(3, 4)) {
		list = append(list, []string{"一一", "ab", "é", "a"}[vf.Pick(4)])
	}
	placed(seg, ws, list, t, seg.Analyze(list, t))
}

// C19_scenes: what the cutters give of many texts, without the text and
// with it.
func C19_scenes() {
	c := sceneOf(validScene())
	c.seg.CalcToken()
	low := c.s
	if gse.ToLower {
		low = lowerASCII(c.s)
	}
	list := c.seg.Cut(c.s, false)
	if len(list) > 40 {
		list = list[:40]
	}
	placed(c.seg, c.ws, list, low, c.seg.Analyze(list, c.s))
	az := c.seg.Analyze(list, "", true)
	at := 0
	for i, w := range list {
		n := len([]rune(w))
		vf.Assert(az[i].Start == at && az[i].End == at+n, "each word starts where the one before ends")
		at += n
	}
}

// C19_long: strings that occur many times in a long text.
// vf:budget=40000000
func C19_long() {
	u := []string{"ab", "一丁", "a", "aab"}[vf.Pick(4)]
	n := []int{20, 70, 300}[vf.Pick(3)]
	k := []int{0, 1, n / 3, n - 1}[vf.Pick(4)]
	s := strings.Repeat(u, k) + of("a一x", 1) + strings.Repeat(u, n-k)
	a, b := []string{"a", "一", "aa", "丁一"}[vf.Pick(4)], u
	if a == b {
		b = "b"
	}
	m := gse.FindAllOccs([]byte(s), []string{a, b})
	for _, x := range []string{a, b} {
		want := occs(s, x)
		got, ok := m[x]
		vf.Assert(ok == (len(want) > 0), "a string is listed if it occurs")
		vf.ObsI(len(got))
		vf.Assert(sameInts(got, want), "the occurrences of a string, the last one first")
	}
	seg := newSeg()
	ws := []word{{"ab", 5, "n"}, {"一", 4, "v"}}
	addAll(seg, ws)
	list := seg.Cut(s, false)
	list = list[len(list)-min(len(list), 6):]
	placed(seg, ws, list, s, seg.Analyze(list, s))
}
