// Package core holds the harnesses over package gse.
package core

import (
	"strings"

	"github.com/go-ego/gse"

	"vfh/vf"
)

// newSeg is a segmenter with an empty dictionary and no HMM model.
func newSeg() *gse.Segmenter {
	seg := &gse.Segmenter{SkipLog: true, NotLoadHMM: true}
	seg.Dict = gse.NewDict()
	return seg
}

// rtext is a text of n runes of the set.
func rtext(n int, set string) string {
	rs := make([]rune, n)
	for i := range rs {
		rs[i] = vf.RuneOf(set)
	}
	return string(rs)
}

// han is any text of n runes of the main CJK block.
func han(n int) string {
	rs := make([]rune, n)
	for i := range rs {
		rs[i] = vf.Rune(0x4E00, 0x9FFF)
	}
	return string(rs)
}

// near is any text of n runes of a block of 64 CJK runes, which differ in
// their last byte only: 一丁七三上下不世... are among them.
func near(n int) string {
	rs := make([]rune, n)
	for i := range rs {
		rs[i] = vf.Rune(0x4E00, 0x4E3F)
	}
	return string(rs)
}

// anyText is any text of n valid runes.
func anyText(n int) string {
	rs := make([]rune, n)
	for i := range rs {
		rs[i] = vf.Rune(0, 0x10FFFF)
	}
	return string(rs)
}

func join(ws []string) string {
	s := ""
	for _, w := range ws {
		s += w
	}
	return s
}

// word is a dictionary entry.
type word struct {
	text string
	freq float64
	pos  string
}

// find is the entry of the text in a dictionary (the last one wins).
func find(ws []word, text string) (word, bool) {
	for _, w := range ws {
		if w.text == text {
			return w, true
		}
	}
	return word{}, false
}

// longestOf is the number of runes of the longest word.
func longestOf(ws []word) int {
	n := 0
	for _, w := range ws {
		n = max(n, len([]rune(w.text)))
	}
	return n
}

// some is any subset of the words.
func some(ws []word) []word {
	var out []word
	for _, w := range ws {
		if vf.Pick(2) == 1 {
			out = append(out, w)
		}
	}
	return out
}

func addAll(seg *gse.Segmenter, ws []word) {
	for _, w := range ws {
		if err := seg.AddToken(w.text, w.freq, w.pos); err != nil {
			vf.Assert(false, "adding a word does not fail")
		}
	}
}

func abs(x float64) float64 {
	if x < 0 {
		return -x
	}
	return x
}

// lowerASCII is the text with the letters A to Z in lower case.
func lowerASCII(s string) string {
	b := []byte(s)
	for i := range b {
		if b[i] >= 'A' && b[i] <= 'Z' {
			b[i] += 'a' - 'A'
		}
	}
	return string(b)
}

func hasPrefix(s, p string) bool { return strings.HasPrefix(s, p) }

func sameSS(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// texts of the segments.
func texts(segs []gse.Segment) []string {
	var out []string
	for i := range segs {
		out = append(out, segs[i].Token().Text())
	}
	return out
}
