// Package hmmh holds the harnesses over package hmm.
package hmmh

import (
	"math"
	"regexp"
	"strings"
	"unicode"
	"unicode/utf8"

	"github.com/go-ego/gse/hmm"

	"vfh/vf"
)

func load() {
	b := map[rune]float64{'一': -1, '丁': -3, '七': -2, '三': -4}
	e := map[rune]float64{'一': -3, '丁': -1, '七': -2.5, '三': -1}
	m := map[rune]float64{'一': -5, '丁': -2, '七': -1, '三': -6}
	s := map[rune]float64{'一': -2, '丁': -4, '七': -3, '三': -1.5}
	hmm.LoadModel(b, e, m, s)
}

func join(ws []string) string {
	s := ""
	for _, w := range ws {
		vf.Assert(w != "", "no word is empty")
		s += w
	}
	return s
}

// C11_bytes: any bytes: nothing is lost but what is no valid UTF-8.
func C11_bytes() {
	load()
	n := vf.Pick(vf.Bound(4, 5))
	s := string(vf.Bytes(n))
	vf.Assume(utf8.ValidString(s))
	ws := hmm.Cut(s)
	vf.ObsSS(ws)
	vf.Assert(join(ws) == s, "the words make the text")
}

func isAlnum(c byte) bool {
	return c >= '0' && c <= '9' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z'
}
func isDigit(c byte) bool { return c >= '0' && c <= '9' }

// C11_blocks: a run of Han runes is divided, a number or a run of letters
// and digits is one word, anything between them is one word.
func C11_blocks() {
	load()
	n := vf.Pick(vf.Bound(5, 6))
	rs := make([]rune, n)
	for i := range rs {
		switch vf.Pick(3) {
		case 0:
			rs[i] = vf.Rune(0x4E00, 0x4E3F)
		case 1:
			rs[i] = vf.Rune('.', 'B')
		case 2:
			rs[i] = vf.Rune(0x3041, 0x3050)
		}
	}
	blocks(string(rs))
}

// near is any text of n runes of a block of 64 Han runes.
func near(n int) string {
	rs := make([]rune, n)
	for i := range rs {
		rs[i] = vf.Rune(0x4E00, 0x4E3F)
	}
	return string(rs)
}

// blocks checks the division of a text into runs.
func blocks(s string) {
	ws := hmm.Cut(s)
	vf.ObsSS(ws)
	k := 0
	next := func(t string) {
		vf.Assert(k < len(ws) && ws[k] == t, "a number, a run of letters and digits, or what lies between is one word")
		k++
	}
	latin := func(i int) int { // end of the number or run at i
		j := i
		for j < len(s) && isDigit(s[j]) {
			j++
		}
		if j > i && j+1 < len(s) && s[j] == '.' && isDigit(s[j+1]) {
			for j++; j < len(s) && isDigit(s[j]); j++ {
			}
			return j
		}
		for j = i; j < len(s) && isAlnum(s[j]); j++ {
		}
		return j
	}
	for i := 0; i < len(s); {
		r, w := utf8.DecodeRuneInString(s[i:])
		if unicode.Is(unicode.Han, r) {
			j := i
			for j < len(s) {
				r, w = utf8.DecodeRuneInString(s[j:])
				if !unicode.Is(unicode.Han, r) {
					break
				}
				j += w
			}
			t := ""
			for k < len(ws) && len(t) < j-i {
				t += ws[k]
				k++
			}
			vf.Assert(t == s[i:j], "a run of Han runes is divided on its own")
			i = j
			continue
		}
		if j := latin(i); j > i {
			next(s[i:j])
			i = j
			continue
		}
		j := i
		for j < len(s) {
			r, w = utf8.DecodeRuneInString(s[j:])
			if unicode.Is(unicode.Han, r) || latin(j) > j {
				break
			}
			j += w
		}
		next(s[i:j])
		i = j
	}
	vf.Assert(k == len(ws), "there are no other words")
}

var regs = []*regexp.Regexp{
	regexp.MustCompile(`[\x{3041}-\x{3050}]+`),
	regexp.MustCompile(`a*`),
	regexp.MustCompile(`\p{Han}`),
	regexp.MustCompile(`(ab|b+)`),
	regexp.MustCompile(``),
}

// C11_regexps: the caller's own regular expressions, also ones that match
// the empty string.
// vf:budget=4000000
func C11_regexps() {
	load()
	r0 := regs[vf.Pick(len(regs))]
	k := vf.Pick(len(regs) + 1)
	n := vf.Pick(vf.Bound(4, 5))
	rs := make([]rune, n)
	for i := range rs {
		rs[i] = vf.RuneOf("abあ一丁")
	}
	s := string(rs)
	var ws []string
	if k == len(regs) {
		ws = hmm.Cut(s, r0)
	} else {
		ws = hmm.Cut(s, r0, regs[k])
	}
	vf.ObsSS(ws)
	vf.Assert(join(ws) == s, "the words make the text")
}

var (
	starts = map[byte]float64{'B': -0.26268660809250016, 'E': -3.14e+100, 'M': -3.14e+100, 'S': -1.4652633398537678}
	trans  = map[[2]byte]float64{
		{'B', 'E'}: -0.51082562376599, {'B', 'M'}: -0.916290731874155,
		{'E', 'B'}: -0.5897149736854513, {'E', 'S'}: -0.8085250474669937,
		{'M', 'E'}: -0.33344856811948514, {'M', 'M'}: -1.2603623820268226,
		{'S', 'B'}: -0.7211965654669841, {'S', 'S'}: -0.6658631448798212,
	}
	states = []byte{'B', 'M', 'E', 'S'}
)

const minF = -3.14e100

// best is the reference: the highest score of a sequence of states that
// follows the transitions and ends a word.
func best(em func(st byte, i int) float64, n int) float64 {
	cur := map[byte]float64{}
	for _, y := range states {
		cur[y] = starts[y] + em(y, 0)
	}
	for i := 1; i < n; i++ {
		nxt := map[byte]float64{}
		for _, y := range states {
			set := false
			for _, x := range states {
				t, ok := trans[[2]byte{x, y}]
				if !ok {
					continue
				}
				if v := cur[x] + t + em(y, i); !set || v > nxt[y] {
					nxt[y], set = v, true
				}
			}
		}
		cur = nxt
	}
	return math.Max(cur['E'], cur['S'])
}

func close2(a, b float64) bool {
	d := math.Abs(a - b)
	return d <= 1e-9*(1+math.Abs(a))
}

func viterbiCheck(obs []rune, em func(st byte, i int) float64, finite bool) []byte {
	p, path := hmm.Viterbi(obs, []byte{'B', 'M', 'E', 'S'})
	vf.Assert(len(path) == len(obs), "there is a state for every rune")
	score := starts[path[0]] + em(path[0], 0)
	for i := 1; i < len(path); i++ {
		t, ok := trans[[2]byte{path[i-1], path[i]}]
		vf.Assert(ok, "the states follow the transitions")
		score = score + t + em(path[i], i)
	}
	last := path[len(path)-1]
	vf.Assert(last == 'E' || last == 'S', "the last state ends a word")
	vf.Assert(close2(score, p), "the probability is that of the states")
	vf.Assert(close2(p, best(em, len(obs))), "no other states are more probable")
	if finite {
		vf.Assert(path[0] == 'B' || path[0] == 'S', "the first state begins a word")
	}
	vf.ObsS(string(path))
	return path
}

// C12_emit: a model with two runes whose emissions are any of a menu.
func C12_emit() {
	names := []byte{'B', 'E', 'M', 'S'}
	ms := map[byte]map[rune]float64{}
	for _, y := range names {
		ms[y] = map[rune]float64{
			'一': vf.SelF(0, -7),
			'丁': vf.SelF(-0.5, -9),
		}
	}
	hmm.LoadModel(ms['B'], ms['E'], ms['M'], ms['S'])
	n := 1 + vf.Pick(vf.Bound(3, 4))
	obs := make([]rune, n)
	for i := range obs {
		obs[i] = '一'
		if vf.Pick(2) == 1 {
			obs[i] = '丁'
		}
	}
	viterbiCheck(obs, func(st byte, i int) float64 { return ms[st][obs[i]] }, true)
}

// C12_runes: any runes, known to the model or not.
func C12_runes() {
	ms := map[byte]map[rune]float64{
		'B': {'一': -1, '丁': -3, '七': -2},
		'E': {'一': -3, '丁': -1, '三': -1},
		'M': {'一': -5, '丁': -2, '七': -1, '三': -6},
		'S': {'一': -2, '丁': -4, '七': -3, '三': -1.5},
	}
	hmm.LoadModel(ms['B'], ms['E'], ms['M'], ms['S'])
	n := 1 + vf.Pick(vf.Bound(4, 5))
	obs := make([]rune, n)
	for i := range obs {
		obs[i] = vf.Rune(0x4E00, 0x4E3F)
	}
	viterbiCheck(obs, func(st byte, i int) float64 {
		if v, ok := ms[st][obs[i]]; ok {
			return v
		}
		return minF
	}, false)
}

// C12_words: the words of a text are those the states describe.
func C12_words() {
	ms := map[byte]map[rune]float64{}
	for _, y := range []byte{'B', 'E', 'M', 'S'} {
		ms[y] = map[rune]float64{'一': vf.SelF(-1, -4), '丁': vf.SelF(-2, -6)}
	}
	hmm.LoadModel(ms['B'], ms['E'], ms['M'], ms['S'])
	n := 1 + vf.Pick(vf.Bound(3, 4))
	obs := make([]rune, n)
	for i := range obs {
		obs[i] = '一'
		if vf.Pick(2) == 1 {
			obs[i] = '丁'
		}
	}
	_, path := hmm.Viterbi(obs, []byte{'B', 'M', 'E', 'S'})
	var want []string
	w := ""
	for i, st := range path {
		w += string(obs[i])
		if st == 'E' || st == 'S' {
			want = append(want, w)
			w = ""
		}
	}
	got := hmm.Cut(string(obs))
	vf.ObsSS(got)
	vf.Assert(len(got) == len(want), "the number of words")
	for i := range got {
		vf.Assert(got[i] == want[i], "a word runs from its begin state to its end state")
	}
}

// C12_missing: a model in which two runes have no emission worth the name in
// any of the states, and the third has none in all of them.
func C12_missing() {
	ms := map[byte]map[rune]float64{'B': {}, 'E': {}, 'M': {}, 'S': {}}
	for _, r := range []rune{'丁', '七'} {
		for i, y := range []byte{'B', 'E', 'M', 'S'} {
			ms[y][r] = vf.SelF(-1-float64(i), minF)
		}
	}
	hmm.LoadModel(ms['B'], ms['E'], ms['M'], ms['S'])
	n := 1 + vf.Pick(vf.Bound(3, 4))
	obs := make([]rune, n)
	for i := range obs {
		obs[i] = vf.RuneOf("一丁七")
	}
	viterbiCheck(obs, func(st byte, i int) float64 {
		if v, ok := ms[st][obs[i]]; ok {
			return v
		}
		return minF
	}, false)
}

// C12_long: longer sequences over a fixed model.
func C12_long() {
	ms := map[byte]map[rune]float64{
		'B': {'一': -1, '丁': -3, '七': -2},
		'E': {'一': -3, '丁': -1, '三': -1},
		'M': {'一': -2.25, '丁': -2, '七': -1, '三': -6},
		'S': {'一': -2, '丁': -4, '七': -3, '三': -1.5},
	}
	hmm.LoadModel(ms['B'], ms['E'], ms['M'], ms['S'])
	obs := []rune("一丁七三一一丁上七一三丁一丁七一")
	n := vf.Bound(6, 8)
	at := []int{0, 5, len(obs) - n}[vf.Pick(3)]
	for i := at; i < at+n; i++ {
		obs[i] = vf.RuneOf("一丁")
	}
	path := viterbiCheck(obs, func(st byte, i int) float64 {
		if v, ok := ms[st][obs[i]]; ok {
			return v
		}
		return minF
	}, false)
	statesCheck(obs, path)
}

// C12_deep: very long sequences over a fixed model.
// vf:budget=90000000
func C12_deep() {
	load()
	ms := map[byte]map[rune]float64{
		'B': {'一': -1, '丁': -3, '七': -2, '三': -4},
		'E': {'一': -3, '丁': -1, '七': -2.5, '三': -1},
		'M': {'一': -5, '丁': -2, '七': -1, '三': -6},
		'S': {'一': -2, '丁': -4, '七': -3, '三': -1.5},
	}
	set := []rune("一丁七三一丁丁")
	n := []int{70, 150, 300, 1100, 5000}[vf.Pick(vf.Bound(4, 5))]
	obs := make([]rune, n)
	for i := range obs {
		obs[i] = set[i*i%13%7]
	}
	obs[n/2] = vf.RuneOf("一丁三")
	path := viterbiCheck(obs, func(st byte, i int) float64 { return ms[st][obs[i]] }, true)
	statesCheck(obs, path)
}

// statesCheck compares the words of a text with its states.
func statesCheck(obs []rune, path []byte) {
	got := hmm.Cut(string(obs))
	begin, k := 0, 0
	for i, st := range path {
		if st == 'E' || st == 'S' {
			vf.Assert(k < len(got) && got[k] == string(obs[begin:i+1]), "a word runs from its begin state to its end state")
			begin = i + 1
			k++
		}
	}
	vf.Assert(k == len(got), "the number of words")
}

// C11_long: many blocks, long ones too.
// vf:budget=20000000
func C11_long() {
	load()
	n := vf.Bound(40, 200)
	s := strings.Repeat("a", n) + string(vf.RuneOf("一丁a1.あ"))
	for i := range n {
		s += []string{"一丁", "1.5", "あ", "七三上一", "x2", "，"}[i*i%11%6]
	}
	s += string(vf.RuneOf("一丁a1.あ")) + strings.Repeat("一丁三", n) + near(1)
	blocks(s)
}

// class is an expression for runs of runes.
type class struct {
	re *regexp.Regexp
	in func(r rune) bool
}

var (
	kana  = class{regexp.MustCompile(`[\x{3041}-\x{3050}]+`), func(r rune) bool { return r >= 0x3041 && r <= 0x3050 }}
	latin = class{regexp.MustCompile(`[a-b]+`), func(r rune) bool { return r == 'a' || r == 'b' }}
	hans  = class{regexp.MustCompile(`\p{Han}+`), func(r rune) bool { return unicode.Is(unicode.Han, r) }}
)

// C11_classes: the caller's first expression says which runs are kept as one
// word, the second one which are divided by the model.
// vf:budget=8000000
func C11_classes() {
	load()
	keep, cut := kana, hans
	k := vf.Pick(5)
	switch k {
	case 1:
		keep, cut = kana, latin
	case 2:
		keep, cut = latin, kana
	case 3:
		keep = latin
	case 4:
		keep, cut = hans, kana
	}
	n := vf.Pick(vf.Bound(5, 6))
	rs := make([]rune, n)
	for i := range rs {
		rs[i] = vf.RuneOf("abあ一丁、 ")
	}
	s := string(rs)
	if vf.Pick(2) == 1 {
		hmm.Cut(s) // the same text without the expressions
		hmm.Cut(s, cut.re, keep.re)
	}
	var ws []string
	if cut.in('一') && vf.Pick(2) == 1 {
		ws = hmm.Cut(s, keep.re)
	} else {
		ws = hmm.Cut(s, keep.re, cut.re)
	}
	vf.ObsSS(ws)
	kind := func(r rune) int {
		switch {
		case cut.in(r):
			return 0
		case keep.in(r):
			return 1
		}
		return 2
	}
	g := 0
	for i := 0; i < n; {
		j, q := i, kind(rs[i])
		for j < n && kind(rs[j]) == q {
			j++
		}
		t := ""
		for q == 0 && g < len(ws) && len(t) < len(string(rs[i:j])) {
			t += ws[g]
			g++
		}
		if q > 0 && g < len(ws) {
			t = ws[g]
			g++
		}
		vf.Assert(t == string(rs[i:j]), "a run of the first expression is one word, one of the second is divided on its own")
		i = j
	}
	vf.Assert(g == len(ws), "there are no other words")
}

// C11_numbers: longer texts of digits, points and letters.
func C11_numbers() {
	load()
	n := vf.Pick(vf.Bound(9, 10))
	rs := make([]rune, n)
	for i := range rs {
		rs[i] = vf.RuneOf("1.a,")
	}
	blocks(string(rs))
}
