package core

import (
	"math"

	"github.com/go-ego/gse"

	"vfh/vf"
)

// subs checks the sub-segments of every word of the dictionary.
func subs(ws []word) {
	seg := newSeg()
	addAll(seg, ws)
	seg.CalcToken()
	subsOf(seg, ws)
}

func subsOf(seg *gse.Segmenter, ws []word) {
	total := 0.0
	for _, w := range ws {
		total += w.freq
	}
	dist := func(t string) float64 {
		if w, ok := find(ws, t); ok {
			return math.Log2(total) - math.Log2(w.freq)
		}
		return 32
	}
	vf.Assert(seg.Dict.NumTokens() == len(ws), "every word is a token")
	for i := range ws {
		t := &seg.Dict.Tokens[i]
		vf.Assert(t.Text() == ws[i].text, "the tokens are in the order of the words")
		rs := seg.SplitTextToWords([]byte(ws[i].text))
		ss := t.Segments()
		if len(rs) == 1 {
			vf.Assert(len(ss) == 0, "a single unit has no sub-segments")
			continue
		}
		all := ""
		got := 0.0
		plain := true
		for _, s := range ss {
			x := s.Token().Text()
			_, ok := find(ws, x)
			vf.Assert(ok || len(seg.SplitTextToWords([]byte(x))) == 1, "a sub-segment is a word or a single unit")
			vf.Assert(x != ws[i].text, "a word is no sub-segment of itself")
			vf.Assert(s.End()-s.Start() == len(x), "the offsets of a sub-segment")
			vf.Assert(s.Start() >= len(all) && s.End() <= len(ws[i].text) && ws[i].text[s.Start():s.End()] == x, "a sub-segment is at its offset")
			vf.Assert(!(kana(x) && len([]rune(x)) == 1), "a single kana is no sub-segment")
			all += x
			got += dist(x)
			vf.ObsS(x)
		}
		for _, r := range rs {
			if kana(string(r)) {
				plain = false
			}
		}
		if !plain {
			continue
		}
		vf.Assert(all == ws[i].text, "the sub-segments make the word")
		best := make([]float64, len(rs)+1)
		for e := 1; e <= len(rs); e++ {
			set := false
			for b := 0; b < e; b++ {
				x := gse.Join(rs[b:e])
				if _, ok := find(ws, x); !ok && e-b > 1 || e-b == len(rs) {
					continue
				}
				if d := best[b] + dist(x); !set || d < best[e] {
					best[e], set = d, true
				}
			}
		}
		vf.Assert(abs(got-best[len(rs)]) < 1e-3, "the sub-segments are a shortest path")
	}
}

// C06_free: any word of two to five runes over any two shorter words.
func C06_free() {
	a := near(2 + vf.Pick(vf.Bound(3, 5)))
	b := near(1 + vf.Pick(3))
	c := near(1 + vf.Pick(2))
	vf.Assume(a != b && b != c && a != c)
	subs([]word{{a, vf.SelF(2, 30), "n"}, {b, vf.SelF(2, 30), "v"}, {c, 5, "n"}})
}

// C06_sets: every set of words of a universe of nested words.
func C06_sets() {
	ws := some([]word{{"一", vf.SelF(2, 90), ""}, {"一丁", vf.SelF(2, 9), ""}, {"丁七", vf.SelF(2, 30), ""}, {"七", 5, ""}, {"一丁七", vf.SelF(2, 8), ""}, {"七三", 4, ""}, {"丁七三", 40, ""}})
	ws = append(ws, word{"一丁七三", 7, ""})
	subs(ws)
}

// C06_kana: single kana are left out.
func C06_kana() {
	rs := make([]rune, 2+vf.Pick(3))
	for i := range rs {
		if vf.Pick(2) == 0 {
			rs[i] = vf.Rune(0x3041, 0x3096)
		} else {
			rs[i] = vf.Rune(0x4E00, 0x4E3F)
		}
	}
	a := string(rs)
	b := string(vf.Rune(0x3041, 0x3044))
	if vf.Pick(2) == 1 {
		b += string(vf.Rune(0x3041, 0x3044))
	}
	vf.Assume(a != b)
	subs([]word{{a, 20, "n"}, {b, vf.SelF(2, 30), "v"}})
}

// C06_scenes: many kinds of dictionaries.
func C06_scenes() {
	c := sceneOf(vf.Pick(scenes))
	c.seg.CalcToken()
	if vf.Pick(2) == 1 {
		c.seg.CalcToken()
	}
	subsOf(c.seg, c.ws)
}
