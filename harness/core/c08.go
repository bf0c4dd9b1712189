package core

import (
	"regexp"
	"strings"

	"github.com/go-ego/gse"

	"vfh/vf"
)

// model loads a small HMM model.
func model(seg *gse.Segmenter) {
	b := map[rune]float64{'一': -1, '丁': -3, '七': -2, '三': -4}
	e := map[rune]float64{'一': -3, '丁': -1, '七': -2.5, '三': -1}
	m := map[rune]float64{'一': -5, '丁': -2, '七': -1, '三': -6}
	s := map[rune]float64{'一': -2, '丁': -4, '七': -3, '三': -1.5}
	seg.LoadModel(b, e, m, s)
}

// withHMM checks Cut with HMM against the words of Cut without it: words of
// several runes stay, runs of single runes go through the HMM.
func withHMM(seg *gse.Segmenter, s string) {
	got := seg.CutDAG(s)
	vf.ObsSS(got)
	vf.Assert(sameSS(seg.Cut(s, true), got), "Cut with HMM is CutDAG")
	base := seg.CutDAGNoHMM(s)
	var want, run []string
	flush := func() {
		if len(run) == 0 {
			return
		}
		t := join(run)
		f, _, ok := seg.Find(t)
		switch {
		case len(run) == 1:
			want = append(want, t)
		case ok && f > 0:
			want = append(want, run...)
		default:
			want = append(want, seg.HMMCut(t)...)
			vf.Reach("hmm")
		}
		run = nil
	}
	for _, w := range base {
		if len([]rune(w)) == 1 {
			run = append(run, w)
			continue
		}
		flush()
		want = append(want, w)
	}
	flush()
	vf.Assert(len(got) == len(want), "the number of words")
	for i := range got {
		vf.Assert(got[i] == want[i], "words of several runes stay, runs of single runes go through the HMM")
	}
	vf.Assert(join(got) == s, "the words make the text")
}

// C08_sets: dictionaries with words that are less probable than their runes.
// vf:reach=hmm
func C08_sets() {
	seg := newSeg()
	model(seg)
	ws := some([]word{{"一", vf.SelF(1, 90), ""}, {"一丁", vf.SelF(2, 9), ""}, {"丁七", vf.SelF(2, 30), ""}, {"丁", 60, ""}})
	ws = append(ws, word{"丁七三", 2, ""})
	addAll(seg, ws)
	n := vf.Pick(vf.Bound(5, 6))
	withHMM(seg, near(n))
}

// C08_free: any word, any text.
func C08_free() {
	seg := newSeg()
	model(seg)
	ws := []word{{near(1 + vf.Pick(3)), vf.SelF(1, 40), ""}, {"一丁", 7, ""}}
	vf.Assume(ws[0].text != ws[1].text)
	addAll(seg, ws)
	n := vf.Pick(vf.Bound(5, 6))
	withHMM(seg, near(n))
}

// C08_mixed: letters, digits and other runes: nothing is lost, and a
// dictionary word that is the whole text stays.
func C08_mixed() {
	seg := newSeg()
	model(seg)
	gse.ToLower = vf.Pick(2) == 0
	addAll(seg, some([]word{{"ab", 5, ""}, {"1一", 9, ""}, {"一丁", 8, ""}, {"a", 70, ""}}))
	n := vf.Pick(vf.Bound(4, 5))
	rs := make([]rune, n)
	for i := range rs {
		switch vf.Pick(3) {
		case 0:
			rs[i] = vf.Rune(0x4E00, 0x4E3F)
		case 1:
			rs[i] = vf.RuneOf("ab1.A")
		case 2:
			rs[i] = vf.Rune(' ', '/')
		}
	}
	s := string(rs)
	got := seg.Cut(s, true)
	vf.ObsSS(got)
	low := s
	if gse.ToLower {
		low = strings.ToLower(s)
	}
	vf.Assert(join(got) == low, "the words make the text")
	for _, w := range got {
		vf.Assert(w != "", "no word is empty")
	}
}

// C08_any: any valid runes.
func C08_any() {
	seg := newSeg()
	model(seg)
	addAll(seg, []word{{"一丁", 5, ""}, {"a-b", 7, ""}})
	n := vf.Pick(vf.Bound(3, 4))
	rs := make([]rune, n)
	for i := range rs {
		rs[i] = vf.Rune(0, 0x10FFFF)
		vf.Assume(rs[i] < 0xD800 || rs[i] > 0xDFFF)
	}
	s := string(rs)
	vf.Assert(join(seg.Cut(s, true)) == strings.ToLower(s), "the words make the text")
}

// C08_scenes: many kinds of dictionaries and texts, all but those of any bytes.
func C08_scenes() {
	c := sceneOf(validScene())
	model(c.seg)
	for _, r := range c.s {
		if alnum(r) {
			// the words without the model join letters
			low := c.s
			if gse.ToLower {
				low = strings.ToLower(low)
			}
			vf.Assert(join(c.seg.Cut(c.s, true)) == low, "the words make the text")
			return
		}
	}
	withHMM(c.seg, c.s)
}

// C12_mod: the model given to HMMCutMod or LoadModel is the one used.
func C12_mod() {
	seg := newSeg()
	m := func(a, b rune) map[rune]float64 {
		return map[rune]float64{a: vf.SelF(-1, -4), b: vf.SelF(-2, -5)}
	}
	model(seg)
	s := rtext(vf.Pick(vf.Bound(4, 5)), "一丁x")
	pb, pe, pm, ps := m('一', '丁'), m('丁', '一'), map[rune]float64{'一': -3}, m('一', '丁')
	got := seg.HMMCutMod(s, pb, pe, pm, ps)
	vf.ObsSS(got)
	vf.Assert(join(got) == s, "the words make the text")
	vf.Assert(sameSS(seg.HMMCut(s), got), "the model stays")
	// a run of Han runes: the states of the most probable sequence
	em := func(st int, r rune) float64 {
		if f, ok := []map[rune]float64{pb, pm, pe, ps}[st][r]; ok {
			return f
		}
		return -3.14e100
	}
	k := 0
	rs := []rune(s)
	for i := 0; i < len(rs); {
		j := i
		for j < len(rs) && (rs[j] == 'x') == (rs[i] == 'x') {
			j++
		}
		if rs[i] == 'x' {
			vf.Assert(k < len(got) && got[k] == string(rs[i:j]), "letters are one word")
			k++
			i = j
			continue
		}
		var ws []string
		for n := i; n < j; k++ {
			vf.Assert(k < len(got), "no word is missing")
			ws = append(ws, got[k])
			n += len([]rune(got[k]))
		}
		best, have := bestScore(rs[i:j], em), scoreOf(ws, em)
		vf.Assert(have >= best-1e-9*abs(best), "no other division is more probable for the model given")
		i = j
	}
}

var (
	hmmStart = [4]float64{-0.26268660809250016, -3.14e100, -3.14e100, -1.4652633398537678}
	// from B, M, E, S to B, M, E, S
	hmmTrans = [4][4]float64{
		{1, -0.916290731874155, -0.51082562376599, 1},
		{1, -1.2603623820268226, -0.33344856811948514, 1},
		{-0.5897149736854513, 1, 1, -0.8085250474669937},
		{-0.7211965654669841, 1, 1, -0.6658631448798212},
	}
)

// scoreOf is the log probability of a division into words.
func scoreOf(ws []string, em func(st int, r rune) float64) float64 {
	sum, prev := 0.0, -1
	for _, w := range ws {
		rs := []rune(w)
		for i, r := range rs {
			st := 1
			switch {
			case len(rs) == 1:
				st = 3
			case i == 0:
				st = 0
			case i == len(rs)-1:
				st = 2
			}
			if prev < 0 {
				sum += hmmStart[st]
			} else {
				sum += hmmTrans[prev][st]
			}
			sum += em(st, r)
			prev = st
		}
	}
	return sum
}

// bestScore is that of the best division.
func bestScore(rs []rune, em func(st int, r rune) float64) float64 {
	best, first := 0.0, true
	for cut := range 1 << (len(rs) - 1) {
		var ws []string
		b := 0
		for i := 1; i <= len(rs); i++ {
			if i == len(rs) || cut>>(i-1)&1 == 1 {
				ws = append(ws, string(rs[b:i]))
				b = i
			}
		}
		if f := scoreOf(ws, em); first || f > best {
			best, first = f, false
		}
	}
	return best
}

// C08_runs: long runs of runes that are no words.
// vf:budget=40000000
func C08_runs() {
	seg := newSeg()
	model(seg)
	addAll(seg, []word{{"上下", 9, "n"}, {"上下不", 3, "n"}})
	n := []int{3, 17, 33, 70, 130}[vf.Pick(vf.Bound(4, 5))]
	u := []string{"abc", "一丁", "七, ", "é1"}[vf.Pick(4)]
	run := of("七a", 1) + strings.Repeat(u, n/2)
	tail := of("丁b", 1)
	s := run + "上下" + tail
	want := append(seg.HMMCut(run), "上下", tail)
	got := seg.Cut(s, true)
	vf.ObsSS(got)
	vf.Assert(sameSS(got, want), "runs of single runes go through the HMM as one")
	vf.Assert(sameSS(seg.CutDAG(run), seg.HMMCut(run)), "runs of single runes go through the HMM as one")
}

// C12_default: the model is the one loaded last: the default one again after
// another one, or the one given, which a segmenter that does not load the
// model leaves alone.
func C12_default() {
	s := rtext(vf.Pick(vf.Bound(3, 4)), "一丁三") + "上下"
	def := vf.Fresh(func() []string {
		seg := newSeg()
		seg.LoadModel()
		return seg.HMMCut(s)
	})
	own := vf.Fresh(func() []string {
		seg := newSeg()
		model(seg)
		return seg.HMMCut(s)
	})
	vf.ObsSS(def)
	vf.ObsSS(own)
	seg := newSeg()
	if vf.Pick(2) == 1 {
		seg.LoadModel()
		vf.Assert(sameSS(seg.HMMCut(s), def), "the default model is the one of a process of its own")
	}
	model(seg)
	vf.Assert(sameSS(seg.HMMCut(s), own), "the model given last is the one used")
	switch vf.Pick(5) {
	case 0:
		seg.LoadModel()
	case 1:
		seg.NotLoadHMM = false
		seg.Init()
	case 2:
		seg.NotLoadHMM = false
		seg.Dict = nil
		seg.LoadDictStr("一丁 9 n\n")
	case 3:
		seg.Init()
		seg.Dict = nil
		seg.LoadDictStr("一丁 9 n\n")
		vf.Assert(sameSS(seg.HMMCut(s), own), "without loading a model the one given stays")
		return
	case 4:
		seg.HMMCutMod(s) // the default one
	}
	vf.Assert(sameSS(seg.HMMCut(s), def), "the default model is back once it is loaded")
}

// C08_regs: with expressions of the caller.
func C08_regs() {
	seg := newSeg()
	model(seg)
	addAll(seg, []word{{"一丁", 9, ""}, {"ab", 3, ""}})
	s := rtext(vf.Pick(vf.Bound(5, 6)), "一七abあ")
	regs := []*regexp.Regexp{reLatin, reKana}
	switch vf.Pick(3) {
	case 0:
		regs = regs[:1]
	case 1:
		regs[0], regs[1] = regs[1], regs[0]
	}
	var want, run []string
	flush := func() {
		switch {
		case len(run) == 1:
			want = append(want, run[0])
		case len(run) > 1:
			want = append(want, seg.HMMCut(join(run), regs...)...)
		}
		run = nil
	}
	rs := []rune(s)
	for i := 0; i < len(rs); i++ {
		if i+1 < len(rs) {
			if t := string(rs[i : i+2]); t == "一丁" || t == "ab" {
				flush()
				want = append(want, t)
				i++
				continue
			}
		}
		run = append(run, string(rs[i]))
	}
	flush()
	got := seg.CutDAG(s, regs...)
	vf.ObsSS(got)
	vf.Assert(sameSS(got, want), "runs of single runes go through the HMM with the expressions given")
}
