// Package utilh holds the harnesses over package hmm/util.
package utilh

import (
	"regexp"

	"github.com/go-ego/gse/hmm/util"

	"vfh/vf"
)

// text is any text of n runes of a few, or any bytes.
func text(n int) string {
	rs := make([]rune, n)
	for i := range rs {
		rs[i] = vf.RuneOf("ab1一 .")
	}
	return string(rs)
}

func sameSS(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// C22_plain: an expression without groups divides as the library does.
// vf:budget=4000000
func C22_plain() {
	re := regexp.MustCompile([]string{`a`, `\s`, `b*`, `[^a]`, `一|ab`, `$`, `^`}[vf.Pick(7)])
	s := text(vf.Pick(vf.Bound(6, 8)))
	k := vf.Pick(5) - 1
	got := util.RegexpSplit(re, s, k)
	vf.ObsSS(got)
	vf.Assert(sameSS(got, re.Split(s, k)), "the parts are those between the matches")
}

// C22_group: an expression with a group around it keeps the matches.
// vf:budget=4000000
func C22_group() {
	i := vf.Pick(6)
	re := regexp.MustCompile([]string{`(a)`, `(\s)`, `([[:alnum:]]+)`, `(\p{Han}+)`, `(\d+\.?)`, `(ab|一)`}[i])
	in := regexp.MustCompile([]string{`a`, `\s`, `[[:alnum:]]+`, `\p{Han}+`, `\d+\.?`, `ab|一`}[i])
	s := text(vf.Pick(vf.Bound(6, 8)))
	got := util.RegexpSplit(re, s, -1)
	vf.ObsSS(got)
	parts := in.Split(s, -1)
	matches := in.FindAllString(s, -1)
	var want []string
	for j, p := range parts {
		want = append(want, p)
		if j < len(matches) {
			want = append(want, matches[j])
		}
	}
	vf.Assert(sameSS(got, want), "the parts and the matches alternate")
	all := ""
	for _, p := range got {
		all += p
	}
	vf.Assert(all == s, "nothing is lost")
}

// C22_limit: a limit leaves the rest of the text in one part.
// vf:budget=4000000
func C22_limit() {
	re := regexp.MustCompile([]string{`(a)`, `(\s)`, `([[:alnum:]]+)`, `(b*)`, `(ab|一)`}[vf.Pick(5)])
	s := text(vf.Pick(vf.Bound(6, 8)))
	k := 1 + vf.Pick(4)
	got := util.RegexpSplit(re, s, k)
	vf.ObsSS(got)
	all := ""
	for _, p := range got {
		all += p
	}
	vf.Assert(all == s, "nothing is lost")
	vf.Assert(len(util.RegexpSplit(re, s, 0)) == 0, "a limit of 0 gives nothing")
	if re.MatchString("") {
		return
	}
	full := util.RegexpSplit(re, s, -1)
	var want []string
	at := 0
	for i := 0; i+2 < len(full) && len(want) < k-1; i += 2 {
		want = append(want, full[i], full[i+1])
		at += len(full[i]) + len(full[i+1])
	}
	want = append(want, s[at:])
	vf.Assert(sameSS(got, want), "nothing is divided after the limit, everything before")
}

// C22_bytes: any bytes.
// vf:budget=4000000
func C22_bytes() {
	re := regexp.MustCompile([]string{`(\p{Han}+)`, `([[:alnum:]]+)`, `(.)`}[vf.Pick(3)])
	s := string(vf.Bytes(vf.Pick(vf.Bound(6, 8))))
	all := ""
	for _, p := range util.RegexpSplit(re, s, -1) {
		all += p
	}
	vf.Assert(all == s, "nothing is lost")
}

// C22_many: many matches.
func C22_many() {
	n := vf.Bound(20, 60)
	s := text(1)
	for i := range n {
		s += []string{"ab", "1 ", "一", ".a"}[i*i%7%4]
	}
	s += text(1)
	if vf.Pick(2) == 0 {
		re := regexp.MustCompile([]string{`a`, `\s`, `[^a]`, `一|ab`}[vf.Pick(4)])
		k := vf.Pick(n) - 1
		got := util.RegexpSplit(re, s, k)
		vf.ObsSS(got)
		vf.Assert(sameSS(got, re.Split(s, k)), "the parts are those between the matches")
		return
	}
	i := vf.Pick(3)
	got := util.RegexpSplit(regexp.MustCompile([]string{`(a)`, `([[:alnum:]]+)`, `(\p{Han}+)`}[i]), s, -1)
	in := regexp.MustCompile([]string{`a`, `[[:alnum:]]+`, `\p{Han}+`}[i])
	parts, matches := in.Split(s, -1), in.FindAllString(s, -1)
	var want []string
	for j, p := range parts {
		want = append(want, p)
		if j < len(matches) {
			want = append(want, matches[j])
		}
	}
	vf.Assert(sameSS(got, want), "the parts and the matches alternate")
}
