package core

import (
	"strings"

	"github.com/go-ego/gse"

	"vfh/vf"
)

// parts are up to n byte strings of up to two bytes.
func parts(n int) []gse.Text {
	ts := make([]gse.Text, vf.Pick(n+1))
	for i := range ts {
		ts[i] = vf.Bytes(vf.Pick(3))
	}
	return ts
}

// C20_join: any parts.
func C20_join() {
	ts := parts(vf.Bound(4, 6))
	want := ""
	for _, t := range ts {
		want += string(t)
	}
	got := gse.Join(ts)
	vf.ObsS(got)
	vf.Assert(got == want, "Join gives the parts one after another")
}

// C20_long: long words of single bytes.
func C20_long() {
	n := []int{0, 1, 2, 3, 4, 5, 7, 8, 9, 17, 33}[vf.Pick(vf.Bound(10, 11))]
	ts := make([]gse.Text, n)
	want := ""
	for i := range ts {
		ts[i] = vf.Bytes(1)
		want += string(ts[i])
	}
	vf.Assert(gse.Join(ts) == want, "Join gives the parts one after another")
}

// C20_equals: a token equals its own text and nothing else.
func C20_equals() {
	seg := newSeg()
	gse.ToLower = vf.Pick(2) == 1
	b := vf.Bytes(vf.Pick(vf.Bound(4, 5)))
	tok := seg.ToToken(string(b), 3, "n")
	want := string(b)
	if gse.ToLower {
		want = lowerASCII(want)
	}
	vf.ObsS(tok.Text())
	vf.Assert(tok.Text() == want, "the text of a token is that it was made of")
	vf.Assert(tok.Freq() == 3 && tok.Pos() == "n", "a token has the data it was made of")
	vf.Assert(tok.Equals(want), "a token equals its text")
	o := string(vf.Bytes(vf.Pick(vf.Bound(4, 5))))
	vf.Assert(tok.Equals(o) == (o == want), "a token equals no other text")
}

// C20_strings: the string forms of lists.
func C20_strings() {
	seg := newSeg()
	n := vf.Pick(vf.Bound(4, 5))
	ws := make([]string, n)
	ps := make([]gse.SegPos, n)
	sp := make([]string, n)
	seg.SkipPos = vf.Pick(2) == 1
	for i := range ws {
		ws[i] = string(vf.Bytes(vf.Pick(3)))
		ps[i] = gse.SegPos{Text: ws[i], Pos: []string{"", "n"}[vf.Pick(2)]}
		sp[i] = ws[i]
		if !seg.SkipPos {
			sp[i] += "/" + ps[i].Pos
		}
	}
	vf.Assert(seg.CutStr(ws) == strings.Join(ws, " "), "CutStr joins with a space")
	vf.Assert(seg.PosStr(ps) == strings.Join(sp, " "), "PosStr joins with a space")
	sep := string(vf.Bytes(vf.Pick(2)))
	vf.ObsS(seg.CutStr(ws, sep))
	vf.ObsS(seg.PosStr(ps, sep))
	vf.Assert(seg.CutStr(ws, sep) == strings.Join(ws, sep), "CutStr joins with the separator")
	vf.Assert(seg.PosStr(ps, sep) == strings.Join(sp, sep), "PosStr joins with the separator")
}

// C20_units: tokens with long units.
func C20_units() {
	seg := newSeg()
	n := []int{7, 15, 31, 32, 63, 64, 127, 255, 256, 300, 1023, 4096}[vf.Pick(vf.Bound(10, 12))]
	c := vf.Rune('a', 'z')
	want := strings.Repeat("x", n) + string(c)
	other := strings.Repeat("x", n) + string(vf.Rune('a', 'z'))
	if vf.Pick(2) == 1 {
		want, other = "一"+want+"丁b", "一"+other+"丁b"
	}
	tok := seg.ToToken(want, 3, "n")
	vf.Assert(tok.Text() == want, "the text of a token is that it was made of")
	vf.Assert(tok.Equals(want), "a token equals its text")
	vf.Assert(tok.Equals(other) == (other == want), "a token equals no other text")
	vf.Assert(!tok.Equals(want[1:]) && !tok.Equals(want+"x"), "a token equals no other text")
	vf.ObsB(other == want)
}
