package core

import (
	"strings"
	"unicode"
	"unicode/utf8"

	"github.com/go-ego/gse"

	"vfh/vf"
)

// units is the reference: runs of letters and numbers of at most two bytes
// are one unit (one unit each with alphaNum), any other rune is a unit.
func units(b []byte, alphaNum, num, alpha bool) []string {
	var out []string
	start := -1 // of a run
	flush := func(end int) {
		if start >= 0 {
			run := string(b[start:end])
			if gse.ToLower {
				run = lowerASCII(run)
			}
			out = append(out, run)
			start = -1
		}
	}
	for i := 0; i < len(b); {
		r, n := utf8.DecodeRune(b[i:])
		latin := n <= 2 && (unicode.IsLetter(r) && !alpha || unicode.IsNumber(r) && !num)
		if latin {
			if start < 0 {
				start = i
			}
			if alphaNum {
				flush(i + n)
			}
		} else {
			flush(i)
			out = append(out, string(b[i:i+n]))
		}
		i += n
	}
	flush(len(b))
	return out
}

func splitCheck(seg *gse.Segmenter, b []byte) {
	keep := string(b)
	got := seg.SplitTextToWords(b)
	want := units(b, seg.AlphaNum, seg.Num, seg.Alpha)
	vf.Assert(len(got) == len(want), "the number of units")
	all := ""
	for i := range got {
		vf.Assert(len(got[i]) > 0, "no unit is empty")
		vf.Assert(string(got[i]) == want[i], "the unit")
		vf.ObsI(len(got[i]))
		all += string(got[i])
	}
	if !gse.ToLower {
		vf.Assert(all == keep, "the units make the text")
	}
	vf.Assert(string(b) == keep, "the text is not changed")
}

// C04_bytes: any bytes, the default options, with and without ToLower.
func C04_bytes() {
	gse.ToLower = vf.Pick(2) == 0
	n := vf.Pick(vf.Bound(5, 6))
	b := vf.Bytes(n)
	splitCheck(newSeg(), b)
}

// C04_options: any runes, every combination of the splitting options.
func C04_options() {
	seg := newSeg()
	gse.ToLower = vf.Pick(2) == 0
	seg.AlphaNum = vf.Pick(2) == 1
	seg.Num = vf.Pick(2) == 1
	seg.Alpha = vf.Pick(2) == 1
	n := vf.Pick(vf.Bound(4, 5))
	splitCheck(seg, []byte(anyText(n)))
}

// C04_ascii: longer texts of printable ASCII.
func C04_ascii() {
	seg := newSeg()
	seg.AlphaNum = vf.Pick(2) == 1
	seg.Num = vf.Pick(2) == 1
	n := vf.Pick(vf.Bound(8, 10))
	b := make([]byte, n)
	for i := range b {
		b[i] = vf.Byte()
		vf.Assume(b[i] >= ' ' && b[i] < 0x7f)
	}
	splitCheck(seg, b)
}

// C04_words: SplitWords divides as a segmenter without options does.
func C04_words() {
	n := vf.Pick(vf.Bound(4, 5))
	b := vf.Bytes(n)
	got := gse.SplitWords(b)
	want := units(b, false, false, false)
	vf.Assert(len(got) == len(want), "the number of units")
	for i := range got {
		vf.Assert(string(got[i]) == want[i], "the unit")
	}
	vf.ObsI(len(got))
}

// C04_long: runs of many lengths, also around powers of two.
// vf:budget=40000000
func C04_long() {
	seg := newSeg()
	seg.AlphaNum = vf.Pick(2) == 1
	seg.Num = vf.Pick(2) == 1
	gse.ToLower = vf.Pick(2) == 0
	n := []int{15, 31, 32, 63, 64, 127, 128, 255, 256, 300, 511, 512, 1023, 1024, 1500, 2048, 4100}[vf.Pick(17)]
	if seg.AlphaNum && n > 600 {
		n = 300
	}
	run := strings.Repeat([]string{"aB1é", "ab c"}[vf.Pick(2)], n/4+1)[:n-1] + "x"
	b := []byte(of("a1 一", 1) + run + of("Z²，", 1) + of("b3", 1))
	splitCheck(seg, b)
}

// C04_huge: runs of more than 65535 bytes.
// vf:budget=400000000
func C04_huge() {
	seg := newSeg()
	gse.ToLower = false
	run := strings.Repeat("aB1é", []int{6560, 13200}[vf.Pick(2)])
	splitCheck(seg, []byte(of("a一", 1)+run+of("Z，", 1)+"一"+run[:20]))
}
