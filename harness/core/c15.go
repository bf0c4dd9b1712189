package core

import (
	"bufio"
	"errors"
	"io"
	"strconv"
	"strings"
	"unicode"

	"github.com/go-ego/gse"

	"vfh/vf"
)

// row is one line of a dictionary: size of the fields are given.
type row struct {
	size            int
	text, freq, pos string
}

type loadOpts struct {
	min    float64
	text   string
	noFreq bool
}

// rowWord is the word of a row, if it has one.
func rowWord(r row, o loadOpts) (word, bool) {
	if r.text == "" {
		return word{}, false
	}
	ft := r.freq
	if r.size < 2 {
		if !o.noFreq {
			return word{}, false
		}
		ft = o.text
	}
	f, err := strconv.ParseFloat(ft, 64)
	if err != nil || f < o.min || f == 0 {
		return word{}, false
	}
	if len([]rune(r.text)) < 2 {
		f = 2
	}
	p := ""
	if r.size > 2 {
		p = r.pos
	}
	return word{lowerASCII(r.text), f, p}, true
}

func anyRow(text string) row {
	r := row{size: 1 + vf.Pick(3), text: text}
	if r.size > 1 {
		r.freq = []string{"1", "7.5", "x", "40"}[vf.Pick(4)]
	}
	if r.size > 2 {
		r.pos = "n"
	}
	return r
}

func rowsText(rs []row, sep string, end bool) string {
	s := ""
	for i, r := range rs {
		s += r.text
		if r.size > 1 {
			s += sep + " " + r.freq
		}
		if r.size > 2 {
			s += sep + " " + r.pos
		}
		if end || i < len(rs)-1 {
			s += "\n"
		}
	}
	return s
}

// loaded checks the dictionary against the rows.
func loaded(seg *gse.Segmenter, rs []row, o loadOpts) {
	var ws []word
	total := 0.0
	for _, r := range rs {
		if w, ok := rowWord(r, o); ok {
			if _, old := find(ws, w.text); !old {
				ws = append(ws, w)
				total += w.freq
			}
		}
	}
	d := seg.Dictionary()
	vf.ObsI(d.NumTokens())
	vf.Assert(d.NumTokens() == len(ws), "each row with a word and a frequency is loaded once")
	vf.Assert(d.TotalFreq() == total, "the total frequency is that of the words")
	for i, w := range ws {
		t := &d.Tokens[i]
		vf.ObsS(t.Text())
		vf.Assert(t.Text() == w.text, "the words are loaded in order")
		vf.Assert(t.Freq() == w.freq, "a word has the frequency of its row")
		vf.Assert(t.Pos() == w.pos, "a word has the part of speech of its row")
		f, p, ok := seg.Find(w.text)
		vf.Assert(ok && f == w.freq && p == w.pos, "a loaded word is found")
	}
}

func loadSeg(o loadOpts) *gse.Segmenter {
	seg := &gse.Segmenter{SkipLog: true, NotLoadHMM: true}
	if o.min != 2 {
		seg.MinTokenFreq = o.min
	}
	if o.text != "2.0" {
		seg.TextFreq = o.text
	}
	seg.LoadNoFreq = o.noFreq
	return seg
}

func anyOpts() loadOpts {
	switch vf.Pick(3) {
	case 0:
		return loadOpts{2, "2.0", false}
	case 1:
		return loadOpts{2, "2.0", true}
	}
	return loadOpts{7, "8", vf.Pick(2) == 1}
}

func twoRows() []row {
	rs := []row{anyRow(near(1 + vf.Pick(2)))}
	if vf.Pick(2) == 1 {
		r := row{3, "Ab丁", "9", "v"}
		if vf.Pick(2) == 1 {
			rs = append([]row{r}, rs...)
		} else {
			rs = append(rs, r)
		}
	}
	if vf.Pick(2) == 1 {
		rs = append(rs, anyRow("一丁"))
	}
	return rs
}

// C15_map: rows given as maps.
func C15_map() {
	o := anyOpts()
	rs := twoRows()
	seg := loadSeg(o)
	var ms []map[string]string
	for _, r := range rs {
		m := map[string]string{"text": r.text}
		if r.size > 1 {
			m["freq"] = r.freq
		}
		if r.size > 2 {
			m["pos"] = r.pos
		}
		ms = append(ms, m)
	}
	vf.Assert(seg.LoadDictMap(ms) == nil, "loading succeeds")
	loaded(seg, rs, o)
}

// C15_str: rows given as a text, with both separators.
func C15_str() {
	o := anyOpts()
	rs := twoRows()
	seg := loadSeg(o)
	if vf.Pick(2) == 1 {
		seg.DictSep = ","
	}
	s := rowsText(rs, seg.DictSep, vf.Pick(2) == 1)
	var err error
	switch vf.Pick(2) {
	case 0:
		err = seg.LoadDictStr(s)
	case 1:
		err = seg.LoadDictEmbed(s)
	}
	vf.Assert(err == nil, "loading succeeds")
	loaded(seg, rs, o)
}

// C15_reader: rows read from a reader, with both separators, with and
// without a newline at the end.
func C15_reader() {
	o := anyOpts()
	rs := twoRows()
	seg := loadSeg(o)
	if vf.Pick(2) == 1 {
		seg.DictSep = ","
	}
	s := rowsText(rs, seg.DictSep, vf.Pick(2) == 1)
	seg.Dict = gse.NewDict()
	seg.Init()
	vf.Assert(seg.Reader(bufio.NewReader(strings.NewReader(s))) == nil, "loading succeeds")
	loaded(seg, rs, o)
}

// C15_file: rows in one file or divided over two.
func C15_file() {
	o := anyOpts()
	rs := twoRows()
	seg := loadSeg(o)
	if vf.Pick(2) == 1 {
		seg.DictSep = ","
	}
	a := vf.Dir() + "/a.txt"
	b := vf.Dir() + "/b.txt"
	end := vf.Pick(2) == 1
	k := 0
	if len(rs) > 1 {
		k = vf.Pick(2)
	}
	vf.File(a, rowsText(rs[:k], seg.DictSep, end))
	vf.File(b, rowsText(rs[k:], seg.DictSep, end))
	names := b
	if k > 0 {
		names = a + "," + b
		if vf.Pick(2) == 1 {
			names = a + ", " + b
		}
	}
	vf.Assert(seg.LoadDict(names) == nil, "loading succeeds")
	loaded(seg, rs, o)
}

// C15_missing: a file that is not there is an error.
func C15_missing() {
	seg := loadSeg(loadOpts{2, "2.0", false})
	a := vf.Dir() + "/a.txt"
	vf.File(a, "一丁 5 n\n")
	none := vf.Dir() + "/none.txt"
	names := none
	switch vf.Pick(4) {
	case 1:
		names = a + ", " + none
	case 2:
		names = none + "," + a
	case 3:
		b := vf.Dir() + "/b.txt"
		vf.File(b, near(2)+" 5 n\n")
		names = a + ", " + none + ", " + b
	}
	vf.Assert(seg.LoadDict(names) != nil, "a file that is not there is an error")
	n := seg.Dictionary().NumTokens()
	if names[:len(a)] == a {
		f, p, ok := seg.Find("一丁")
		vf.Assert(ok && f == 5 && p == "n" && n == 1, "what was read before the error stays, and loading ends")
	} else {
		vf.Assert(n == 0, "loading ends with the error")
	}
	vf.Assert(seg.Read(none) != nil, "a file that is not there is an error")
	vf.Assert(seg.LoadStop(names) != nil, "a file that is not there is an error")
}

var errBroken = errors.New("broken")

// broken is a reader that fails once it has given its text.
type broken struct {
	s string
	n int
}

func (b *broken) Read(p []byte) (int, error) {
	if b.s == "" {
		return 0, errBroken
	}
	n := b.n
	if n > len(b.s) {
		n = len(b.s)
	}
	n = copy(p[:n], b.s)
	b.s = b.s[n:]
	return n, nil
}

// C15_fault: the reader fails after any part of the text: loading ends with
// the error, what was read before stays.
func C15_fault() {
	o := loadOpts{2, "2.0", vf.Pick(2) == 1}
	seg := loadSeg(o)
	if vf.Pick(2) == 1 {
		seg.DictSep = ","
	}
	a := near(2)
	s := rowsText([]row{{3, a, "9", "v"}, anyRow("丁"), {2, "七三", "5", ""}}, seg.DictSep, vf.Pick(2) == 1)
	k := vf.Pick(len(s) + 1)
	seg.Dict = gse.NewDict()
	seg.Init()
	err := seg.Reader(bufio.NewReader(&broken{s[:k], 1 + vf.Pick(3)*7}))
	vf.Assert(err == errBroken, "loading reports that reading failed")
	f, p, ok := seg.Find(a)
	begun := 0
	for i := 0; i < k; i++ {
		if i == 0 || s[i-1] == '\n' {
			begun++
		}
	}
	if begun > 1 {
		vf.Assert(ok && f == 9 && p == "v", "the rows before stay")
	}
	vf.Assert(seg.Dict.NumTokens() <= begun, "no row gives two words")
	vf.ObsB(ok)
}

var _ io.Reader = (*broken)(nil)

// C15_same: a word in two rows: the first one counts, in whatever form the
// rows are given.
func C15_same() {
	a := near(2)
	b := near(2)
	rs := []row{{3, a, "5", "n"}, {3, b, []string{"7", "1"}[vf.Pick(2)], "v"}, {3, "一丁", "20", ""}}
	o := loadOpts{2, "2.0", false}
	seg := loadSeg(o)
	switch vf.Pick(3) {
	case 0:
		vf.Assert(seg.LoadDictStr(rowsText(rs[:1], "", true)) == nil, "loading succeeds")
		vf.Assert(seg.LoadDictStr(rowsText(rs[1:], "", true)) == nil, "loading succeeds")
	case 1:
		for _, r := range rs {
			seg.LoadDictMap([]map[string]string{{"text": r.text, "freq": r.freq, "pos": r.pos}})
		}
	case 2:
		seg.Dict = gse.NewDict()
		seg.Init()
		vf.Assert(seg.Reader(bufio.NewReader(strings.NewReader(rowsText(rs[:2], "", true)))) == nil, "loading succeeds")
		vf.Assert(seg.Reader(bufio.NewReader(strings.NewReader(rowsText(rs[2:], "", true)))) == nil, "loading succeeds")
	}
	loaded(seg, rs, o)
}

func reader(s string) *bufio.Reader { return bufio.NewReader(strings.NewReader(s)) }

// C15_crlf: rows that end with a carriage return and a newline.
func C15_crlf() {
	o := loadOpts{2, "2.0", vf.Pick(2) == 1}
	rs := []row{anyRow(near(1 + vf.Pick(2))), {3, "Ab丁", "9", "v"}, anyRow("一丁")}
	seg := loadSeg(o)
	if vf.Pick(2) == 1 {
		seg.DictSep = ","
	}
	end := vf.Pick(2) == 1
	s := strings.ReplaceAll(rowsText(rs, seg.DictSep, end), "\n", "\r\n")
	switch vf.Pick(3) {
	case 0:
		vf.Assert(seg.LoadDictStr(s) == nil, "loading succeeds")
	case 1:
		seg.Dict = gse.NewDict()
		seg.Init()
		vf.Assert(seg.Reader(reader(s)) == nil, "loading succeeds")
	case 2:
		a := vf.Dir() + "/a.txt"
		vf.File(a, s)
		vf.Assert(seg.LoadDict(a) == nil, "loading succeeds")
	}
	loaded(seg, rs, o)
}

// C15_many: many rows, some of them long, none of them lost.
// vf:budget=40000000
func C15_many() {
	o := loadOpts{2, "2.0", false}
	var rs []row
	set := []rune("一丁七三上下不世ab")
	for i := range vf.Bound(60, 200) {
		r := row{3, string([]rune{set[i%10], set[i/10%10], set[i%7]}), strconv.Itoa(i%40 + 1), "n"}
		switch i {
		case 20:
			r.text = near(vf.Bound(1, 2))
		case 31:
			r.text = strings.Repeat("一", 60)
		case 32:
			r.text = strings.Repeat("ab", 2100) + "一"
		}
		r.size = 3 - i%2
		if r.size == 2 {
			r.pos = ""
		}
		rs = append(rs, r)
	}
	seg := loadSeg(o)
	if vf.Pick(2) == 1 {
		seg.DictSep = ","
	}
	s := rowsText(rs, seg.DictSep, vf.Pick(2) == 1)
	switch vf.Pick(3) {
	case 0:
		vf.Assert(seg.LoadDictStr(s) == nil, "loading succeeds")
	case 1:
		seg.Dict = gse.NewDict()
		seg.Init()
		vf.Assert(seg.Reader(reader(s)) == nil, "loading succeeds")
	case 2:
		a := vf.Dir() + "/a.txt"
		vf.File(a, s)
		vf.Assert(seg.LoadDict(a) == nil, "loading succeeds")
	}
	loaded(seg, rs, o)
}

// anyWord is a word of an arbitrary rune that is no white space and another.
func anyWord(r string) string {
	c := vf.Rune(0x21, 0x10FFFF)
	vf.Assume(!unicode.IsSpace(c))
	if vf.Pick(2) == 1 {
		return string(c) + r
	}
	return r + string(c)
}

// C15_any: words with any rune, also ones that have a meaning elsewhere.
func C15_any() {
	o := loadOpts{2, "2.0", false}
	rs := []row{{3, "七三", "5", "v"}, {3, anyWord("丁"), "9", "n"}, {3, "Ab丁", "9", "v"}}
	if vf.Pick(2) == 1 {
		rs = append(rs[1:], rs[0])
	}
	seg := loadSeg(o)
	if vf.Pick(2) == 1 {
		seg.DictSep = "|"
	}
	s := rowsText(rs, seg.DictSep, vf.Pick(2) == 1)
	switch vf.Pick(4) {
	case 0:
		vf.Assert(seg.LoadDictStr(s) == nil, "loading succeeds")
	case 1:
		seg.Dict = gse.NewDict()
		seg.Init()
		vf.Assert(seg.Reader(reader(s)) == nil, "loading succeeds")
	case 2:
		a := vf.Dir() + "/a.txt"
		vf.File(a, s)
		vf.Assert(seg.LoadDict(a) == nil, "loading succeeds")
	case 3:
		var ms []map[string]string
		for _, r := range rs {
			ms = append(ms, map[string]string{"text": r.text, "freq": r.freq, "pos": r.pos})
		}
		vf.Assert(seg.LoadDictMap(ms) == nil, "loading succeeds")
	}
	loaded(seg, rs, o)
}

// C15_freqs: frequencies in every form, and the least one.
func C15_freqs() {
	o := loadOpts{[]float64{2, 5, 9.5}[vf.Pick(3)], "2.0", false}
	fs := []string{"2", "1.99", "16777217", "1e3", "0x1p4", "1_0", "+5", "-30", "9.5", "9.4999999999", "5.000000001", "007", ".5e1", "9,5", "123456789012", "3.3", "5", "1e", "９"}
	rs := []row{{3, "一丁", fs[vf.Pick(len(fs))], "n"}, {2, near(2), fs[vf.Pick(vf.Bound(3, len(fs)))], ""}, {3, "七三", "12", "v"}}
	seg := loadSeg(o)
	var err error
	switch vf.Pick(4) {
	case 0:
		err = seg.LoadDictStr(rowsText(rs, "", true))
	case 1:
		var ms []map[string]string
		for _, r := range rs {
			m := map[string]string{"text": r.text, "freq": r.freq}
			if r.size > 2 {
				m["pos"] = r.pos
			}
			ms = append(ms, m)
		}
		err = seg.LoadDictMap(ms)
	case 2:
		name := vf.Dir() + "/f.txt"
		vf.File(name, rowsText(rs, "", true))
		err = seg.LoadDict(name)
	case 3:
		seg.DictSep = ","
		for i := range rs {
			vf.Assume(rs[i].freq != "9,5")
		}
		name := vf.Dir() + "/g.txt"
		vf.File(name, rowsText(rs, ",", true))
		err = seg.LoadDict(name)
	}
	vf.Assert(err == nil, "loading succeeds")
	loaded(seg, rs, o)
}
