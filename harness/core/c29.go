package core

import (
	"strings"
	"unicode"

	"github.com/go-ego/gse"

	"vfh/vf"
)

// stopLine is one line of a stop word file.
func stopLine() string {
	switch vf.Pick(4) {
	case 0:
		return near(1)
	case 1:
		return near(2)
	case 2:
		return string([]rune{vf.RuneOf("a 一"), vf.RuneOf("b,丁")})
	}
	return ""
}

// hasStops checks the stop words: those of the list and of more.
func hasStops(seg *gse.Segmenter, want []string) {
	n := 0
	for w, v := range seg.StopWordMap {
		vf.Assert(v && in(want, w), "no other stop word is loaded")
		n++
	}
	vf.ObsI(n)
	for _, w := range want {
		vf.Assert(seg.IsStop(w), "each line is a stop word")
	}
	x := near(1)
	vf.Assert(seg.IsStop(x) == in(want, x), "no other word is a stop word")
}

// C29_file: lines in one file or over two.
func C29_file() {
	seg := newSeg()
	ls := []string{stopLine(), stopLine()}
	if vf.Pick(2) == 1 {
		ls = append(ls, "七")
	}
	end := "\n"
	nl := []string{"\n", "\r\n"}[vf.Pick(2)]
	if vf.Pick(2) == 1 {
		end = ""
	}
	a, b := vf.Dir()+"/a.txt", vf.Dir()+"/b.txt"
	k := vf.Pick(2)
	vf.File(a, strings.Join(ls[:k], nl)+end)
	vf.File(b, strings.Join(ls[k:], nl)+end)
	names := b
	if k > 0 {
		names = a + ", " + b
	}
	var want []string
	if vf.Pick(2) == 1 {
		seg.AddStop("下")
		want = append(want, "下")
	}
	for _, l := range ls {
		if l != "" {
			want = append(want, l)
		}
	}
	vf.Assert(seg.LoadStop(names) == nil, "loading succeeds")
	hasStops(seg, want)
}

// C29_str: lines of a string.
func C29_str() {
	seg := newSeg()
	ls := []string{stopLine(), stopLine(), []string{"", "七", " 七 ", "\t"}[vf.Pick(4)]}
	s := strings.Join(ls, "\n")
	var want []string
	for _, l := range ls {
		if l = strings.TrimSpace(l); l != "" {
			want = append(want, l)
		}
	}
	if vf.Pick(2) == 1 {
		vf.Assert(seg.LoadStopStr(s) == nil, "loading succeeds")
	} else {
		vf.Assume(!strings.Contains(s, ", "))
		vf.Assert(seg.LoadStopEmbed(s) == nil, "loading succeeds")
	}
	hasStops(seg, want)
}

// C29_missing: a file that is not there, or a directory.
func C29_missing() {
	seg := newSeg()
	a := vf.Dir() + "/a.txt"
	w := near(2)
	vf.File(a, w+"\n")
	bad := vf.Dir() + "/none.txt"
	var err error
	if vf.Pick(2) == 1 {
		err = seg.LoadStop(a + ", " + bad)
		vf.Assert(seg.IsStop(w), "what was read before stays")
	} else {
		err = seg.LoadStop(bad)
	}
	vf.Assert(err != nil, "a file that is not there is an error")
}

// C29_long: a line that the scanner cannot read is an error.
func C29_long() {
	seg := newSeg()
	a := vf.Dir() + "/a.txt"
	w := near(2)
	n := []int{65534, 65535, 65536, 70000}[vf.Pick(4)]
	end := []string{"", "\n", "\n七\n"}[vf.Pick(3)]
	vf.File(a, w+"\n"+strings.Repeat("a", n)+end)
	err := seg.LoadStop(a)
	vf.Assert(seg.IsStop(w), "what was read before stays")
	vf.Assert(err != nil || seg.IsStop(strings.Repeat("a", n)), "a line that is not loaded is an error")
	vf.Assert(err != nil || end != "\n七\n" || seg.IsStop("七"), "a line that is not loaded is an error")
	vf.ObsB(err == nil)
}

// C29_many: many lines.
// vf:budget=40000000
func C29_many() {
	seg := newSeg()
	var want []string
	s := ""
	n := vf.Bound(60, 300)
	for i := range n {
		w := string([]rune{'一' + rune(i%64), []rune("丁 aé")[i%4], '七' + rune(i/64)})
		if i == 33 {
			w = near(2)
		}
		if i == 40 {
			w = strings.Repeat("一丁", 900)
		}
		if i%9 != 8 {
			want = append(want, w)
		} else {
			w = ""
		}
		s += w + []string{"\n", "\r\n"}[i%2]
	}
	if vf.Pick(2) == 1 {
		a := vf.Dir() + "/a.txt"
		vf.File(a, s)
		vf.Assert(seg.LoadStop(a) == nil, "loading succeeds")
	} else {
		vf.Assert(seg.LoadStopStr(s) == nil, "loading succeeds")
	}
	hasStops(seg, want)
}

// C29_any: lines of any runes.
func C29_any() {
	seg := newSeg()
	c := vf.Rune(1, 0x10FFFF)
	vf.Assume(c != '\n' && c != '\r')
	l := []string{string(c), string(c) + "丁", "a" + string(c)}[vf.Pick(3)]
	ls := []string{"七", l, "一"}
	if vf.Pick(2) == 1 {
		ls = ls[1:]
	}
	want := ls
	if vf.Pick(2) == 1 {
		a := vf.Dir() + "/a.txt"
		vf.File(a, strings.Join(ls, "\n")+"\n")
		vf.Assert(seg.LoadStop(a) == nil, "loading succeeds")
	} else {
		vf.Assume(!unicode.IsSpace(c))
		vf.Assert(seg.LoadStopStr(strings.Join(ls, "\n")) == nil, "loading succeeds")
	}
	for _, w := range want {
		vf.Assert(seg.IsStop(w), "each line is a stop word")
	}
	n := 0
	for range seg.StopWordMap {
		n++
	}
	vf.Assert(n == len(want) || n == len(want)-1 && (l == "七" || l == "一"), "no other stop word is loaded")
}
