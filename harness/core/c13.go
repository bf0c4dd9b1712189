package core

import (
	"github.com/go-ego/gse"

	"vfh/vf"
)

// entry is the state of one word in the reference map.
type entry struct {
	w    word
	live bool
}

// history applies operations to the segmenter and to a reference map. The
// words must differ from one another.
func history(seg *gse.Segmenter, ws []string, steps int) []entry {
	es := make([]entry, len(ws))
	for i := range ws {
		es[i].w.text = ws[i]
	}
	for k := 0; k < steps; k++ {
		op := vf.Pick(4)
		if op == 0 {
			break
		}
		e := &es[vf.Pick(len(ws))]
		// now and then the frequency or the part of speech stays
		f := float64(3 + k/2)
		p := string(rune('a' + (k+1)/2))
		switch op {
		case 1:
			err := seg.AddToken(e.w.text, f, p)
			vf.Assert(err == nil, "adding a word succeeds")
			if !e.live {
				*e = entry{word{e.w.text, f, p}, true}
			}
		case 2:
			err := seg.RemoveToken(e.w.text)
			vf.Assert((err == nil) == e.live, "removing fails exactly for a word that is not there")
			e.live = false
		case 3:
			err := seg.ReAddToken(e.w.text, f, p)
			vf.Assert((err == nil) == e.live, "adding again fails exactly for a word that is not there")
			if e.live {
				*e = entry{word{e.w.text, f, p}, true}
			}
		}
	}
	return es
}

// lookup checks what the segmenter finds for the text.
func lookup(seg *gse.Segmenter, es []entry, text string) {
	f, p, ok := seg.Find(text)
	vf.ObsF(f)
	vf.ObsS(p)
	prefix := false
	for i := range es {
		if !es[i].live {
			continue
		}
		if es[i].w.text == text {
			vf.Assert(ok, "a word that is there is found")
			vf.Assert(f == es[i].w.freq, "a word has the frequency it was added with")
			vf.Assert(p == es[i].w.pos, "a word has the part of speech it was added with")
			_, _, err := seg.Value(text)
			vf.Assert(err == nil, "a word that is there has a value")
			return
		}
		if hasPrefix(es[i].w.text, text) {
			prefix = true
		}
	}
	vf.Assert(f == 0 && p == "", "a text that is no word has no frequency and no part of speech")
	vf.Assert(!ok || prefix, "a text that begins no word is not found")
	_, _, err := seg.Value(text)
	vf.Assert(err != nil, "a text that is no word has no value")
}

func different(ws []string) {
	for i := range ws {
		for j := range ws[:i] {
			vf.Assume(ws[i] != ws[j])
		}
	}
}

// segs checks that segments use the words that are there.
func liveSegs(seg *gse.Segmenter, es []entry, s string) {
	segs := seg.Segment([]byte(s))
	out := ""
	for i := range segs {
		t := segs[i].Token()
		text := t.Text()
		out += text
		known := false
		for j := range es {
			if es[j].live && es[j].w.text == text {
				known = true
				vf.Assert(t.Freq() == es[j].w.freq && t.Pos() == es[j].w.pos, "a segment carries the data its word was added with")
			}
		}
		if !known {
			vf.Assert(len([]rune(text)) == 1 && t.Pos() == "x", "a segment is a word that is there or an unknown unit")
		}
	}
	vf.Assert(out == s, "the segments make the text")
}

// C13_words: any three words, histories of adding, removing, adding again.
// vf:weight=2
func C13_words() {
	seg := newSeg()
	a := near(1 + vf.Pick(2))
	b := near(1 + vf.Pick(2))
	ws := []string{a, b}
	different(ws)
	es := history(seg, ws, vf.Bound(3, 4))
	lookup(seg, es, near(1+vf.Pick(3)))
	lookup(seg, es, a)
	lookup(seg, es, b)
}

// C13_nested: words that begin with one another, longer histories.
func C13_nested() {
	seg := newSeg()
	ws := []string{"一", "一丁", "一丁七", "丁"}
	es := history(seg, ws, vf.Bound(4, 5))
	for _, w := range ws {
		lookup(seg, es, w)
	}
	lookup(seg, es, near(1))
	lookup(seg, es, "丁七")
}

// C13_segment: the segments follow a history.
func C13_segment() {
	seg := newSeg()
	ws := []string{"一", "一丁", "丁七"}
	es := history(seg, ws, vf.Bound(3, 4))
	if len(seg.Dict.Tokens) == 0 {
		return
	}
	seg.CalcToken()
	liveSegs(seg, es, near(1+vf.Pick(3)))
}

// C13_trie: the same with the trie library itself instead of its contract.
// vf:cedar=real
func C13_trie() {
	seg := newSeg()
	ws := []string{"一", "一丁", "丁七"}
	if vf.Pick(2) == 1 {
		ws = []string{"一", near(vf.Bound(1, 2))}
		different(ws)
	}
	es := history(seg, ws, vf.Bound(3, 4))
	for _, w := range ws {
		lookup(seg, es, w)
	}
	lookup(seg, es, "一丁七"[:3*(1+vf.Pick(3))])
}

// C13_bytes: any bytes as a word: what may be no word is rejected.
func C13_bytes() {
	gse.ToLower = false
	seg := newSeg()
	seg.AddToken("一丁", 7, "v")
	seg.AddToken("ab", 8, "n")
	n := vf.Pick(vf.Bound(4, 5))
	s := string(vf.Bytes(n))
	nul := false
	for i := 0; i < len(s); i++ {
		if s[i] == 0 {
			nul = true
		}
	}
	err := seg.AddToken(s, 5, "p")
	if n == 0 || nul {
		vf.Assert(err != nil, "no word is empty or has a NUL byte")
		f, p, ok := seg.Find(s)
		vf.Assert(f == 0 && p == "" && (!ok), "what may be no word is not found")
		vf.Assert(seg.RemoveToken(s) != nil, "what may be no word cannot be removed")
		vf.Assert(seg.ReAddToken(s, 4, "p") != nil, "what may be no word cannot be added again")
	} else {
		vf.Assert(err == nil, "adding a word succeeds")
		f, p, ok := seg.Find(s)
		old := s == "一丁" || s == "ab"
		vf.Assert(ok && (old || f == 5 && p == "p"), "a word has the data it was added with")
		vf.Assert(seg.RemoveToken(s) == nil, "a word can be removed")
		f, p, _ = seg.Find(s)
		vf.Assert(f == 0 && p == "", "a removed word has no data")
		if old {
			return
		}
	}
	f, p, ok := seg.Find("一丁")
	vf.Assert(ok && f == 7 && p == "v", "the other words keep their data")
	f, p, ok = seg.Find("ab")
	vf.Assert(ok && f == 8 && p == "n", "the other words keep their data")
	if s != "七" {
		vf.Assert(seg.AddToken("七", 3, "z") == nil && seg.AddToken("七", 4, "y") == nil, "adding a word succeeds")
		f, p, ok = seg.Find("七")
		vf.Assert(ok && f == 3 && p == "z", "a word has the data it was added with")
	}
}

// C14_history: the numbers of the dictionary after any additions.
func C14_history() {
	seg := newSeg()
	uni := []string{"一", "golang", near(1 + vf.Pick(3)), "a1-一", "Ab"}
	n, total, max := 0, 0.0, 0
	var have []string
	for k := 0; k < vf.Bound(4, 5); k++ {
		w := uni[vf.Pick(len(uni))]
		f := vf.SelF(7, 2.5)
		if vf.Pick(2) == 0 {
			vf.Assert(seg.AddToken(w, f, "p") == nil, "adding a word succeeds")
		} else {
			vf.Assert(seg.AddTokenForce(w, f, "p") == nil, "adding a word succeeds")
		}
		w = lowerASCII(w)
		old := false
		for _, h := range have {
			if h == w {
				old = true
			}
		}
		if !old {
			have = append(have, w)
			n++
			total += f
			u := len(units([]byte(w), false, false, false))
			if u > max {
				max = u
			}
		}
		d := seg.Dictionary()
		vf.Assert(d.NumTokens() == n, "the number of words is that of different words added")
		vf.Assert(d.TotalFreq() == total, "the total frequency is the sum of those of the words")
		vf.Assert(d.MaxTokenLen() == max, "the maximum length is that of the longest word")
		vf.ObsI(n)
		vf.ObsF(total)
		vf.ObsI(max)
	}
}

// C14_order: words added one by one, each calculated at once, segment as
// words added together do.
func C14_order() {
	ws := []word{{near(1 + vf.Pick(2)), vf.SelF(2, 9), "p"}, {"一丁", vf.SelF(3, 40), "q"}, {"丁七一", 8, "r"}}
	different([]string{ws[0].text, ws[1].text})
	twoWays(ws, near(vf.Pick(vf.Bound(4, 6))))
}

// C14_total: a word that changes the total so much that words which have
// nothing to do with it divide differently.
func C14_total() {
	ws := []word{{"一丁七", vf.SelF(10, 3), "p"}, {"一丁", vf.SelF(2, 9), "q"}, {"七", vf.SelF(2, 30), "r"}, {"一", 40, ""}, {"丁", 40, ""}, {near(1 + vf.Pick(2)), vf.SelF(1e6, 5), "s"}}
	at := vf.Pick(len(ws))
	ws[at], ws[5] = ws[5], ws[at]
	for i := range ws {
		for j := range i {
			vf.Assume(ws[i].text != ws[j].text)
		}
	}
	twoWays(ws, "一丁七"+near(vf.Bound(0, 1)))
}

// twoWays adds the words one by one, each calculated at once, and together.
func twoWays(ws []word, s string) {
	a, b := newSeg(), newSeg()
	addAll(a, ws)
	a.CalcToken()
	for _, w := range ws {
		b.AddTokenForce(w.text, w.freq, w.pos)
	}
	for i := range a.Dict.Tokens {
		x, y := &a.Dict.Tokens[i], &b.Dict.Tokens[i]
		vf.Assert(x.Text() == y.Text() && x.Freq() == y.Freq() && x.Pos() == y.Pos(), "the words are the same")
		p, q := x.Segments(), y.Segments()
		vf.Assert(len(p) == len(q), "the sub-segments are the same")
		for j := range p {
			vf.Assert(p[j].Token().Text() == q[j].Token().Text(), "the sub-segments are the same")
		}
	}
	mode := vf.Pick(2) == 1
	p, q := a.ModeSegment([]byte(s), mode), b.ModeSegment([]byte(s), mode)
	vf.Assert(sameSS(texts(p), texts(q)), "the segments are the same")
	vf.ObsSS(texts(p))
	for i := range p {
		vf.Assert(p[i].Start() == q[i].Start() && p[i].End() == q[i].End(), "the segments are the same")
		vf.Assert(p[i].Token().Freq() == q[i].Token().Freq() && p[i].Token().Pos() == q[i].Token().Pos(), "the segments are the same")
	}
}

// C13_letters: words that differ in their last byte, or begin one another
// within a unit.
func C13_letters() {
	seg := newSeg()
	ws := [][]string{{"a", "ab", "abc", "一"}, {"é", "éa", "一", "一a"}, {"\xe4", "\xe4\xb8", "一", "丁"}}[vf.Pick(3)]
	es := history(seg, ws, vf.Bound(4, 5))
	for _, w := range ws {
		lookup(seg, es, w)
	}
	lookup(seg, es, string([]byte{vf.Byte()}))
}

// C14_many: many words, some given again.
func C14_many() {
	seg := newSeg()
	set := []rune("一丁七三上下不世ab1é")
	have := map[string]bool{}
	n, total, longest := 0, 0.0, 0
	add := func(w string, f float64) {
		vf.Assert(seg.AddToken(w, f, "n") == nil, "adding a word succeeds")
		if !have[w] {
			have[w] = true
			n++
			total += f
			longest = max(longest, len(units([]byte(w), false, false, false)))
		}
	}
	for i := range vf.Bound(70, 300) {
		w := string([]rune{set[i%7], set[i%11], set[i*i%12]})
		add(w[:len(w)-i%2*len(string(set[i*i%12]))], float64(i%13+2))
		if i == 30 {
			add(near(2), 5)
		}
	}
	d := seg.Dictionary()
	vf.Assert(d.NumTokens() == n, "the number of words is that of different words added")
	vf.Assert(d.TotalFreq() == total, "the total frequency is the sum of those of the words")
	vf.Assert(d.MaxTokenLen() == longest, "the maximum length is that of the longest word")
	vf.ObsF(total)
}

// C13_many: many words, every third removed, every fifth added again.
func C13_many() {
	seg := newSeg()
	set := []rune("一丁七三上下不世")
	n := vf.Bound(40, 64)
	es := make([]entry, n)
	for i := range es {
		w := string([]rune{set[i%8], set[i/8]})
		if i%4 == 3 {
			w += string(set[i%5])
		}
		es[i] = entry{word{w, float64(i + 3), string(rune('a' + i%26))}, true}
		vf.Assert(seg.AddToken(w, es[i].w.freq, es[i].w.pos) == nil, "adding a word succeeds")
	}
	at := vf.Pick(vf.Bound(3, 5))
	for i := range es {
		switch (i + at) % 15 {
		case 0, 3, 6:
			vf.Assert(seg.RemoveToken(es[i].w.text) == nil, "a word that is there can be removed")
			es[i].live = false
		case 5, 10:
			es[i].w.freq, es[i].w.pos = 500+float64(i), "z"
			vf.Assert(seg.ReAddToken(es[i].w.text, es[i].w.freq, "z") == nil, "a word that is there can be added again")
		case 9:
			vf.Assert(seg.RemoveToken(es[i].w.text) == nil, "a word that is there can be removed")
			es[i].w.freq = 700
			vf.Assert(seg.AddTokenForce(es[i].w.text, 700, es[i].w.pos) == nil, "a word can be added again")
		}
	}
	for i := range es {
		lookup(seg, es, es[i].w.text)
	}
	if vf.Pick(2) == 0 {
		lookup(seg, es, near(1+vf.Pick(2)))
		return
	}
	seg.CalcToken()
	liveSegs(seg, es, near(2)+es[vf.Pick(4)*9].w.text)
}

// C13_zero: words with frequency zero.
func C13_zero() {
	seg := newSeg()
	es := []entry{{word{near(2), vf.SelF(0, 3), "n"}, true}, {word{"一丁", vf.SelF(0, 0.25), "v"}, true}, {word{"丁", 9, "m"}, true}}
	vf.Assume(es[0].w.text != es[1].w.text)
	for _, e := range es {
		vf.Assert(seg.AddToken(e.w.text, e.w.freq, e.w.pos) == nil, "adding a word succeeds")
	}
	i := vf.Pick(4)
	if i < 3 {
		e := &es[i]
		if vf.Pick(2) == 1 {
			vf.Assert(seg.RemoveToken(e.w.text) == nil, "a word that is there can be removed")
			e.live = false
		} else {
			e.w.freq, e.w.pos = vf.SelF(0, 5), "x"
			vf.Assert(seg.ReAddToken(e.w.text, e.w.freq, e.w.pos) == nil, "a word that is there can be added again")
		}
	}
	lookup(seg, es, near(1+vf.Pick(3)))
}
