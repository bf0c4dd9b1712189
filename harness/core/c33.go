package core

import (
	"strconv"

	"github.com/go-ego/gse"

	"vfh/vf"
)

// C33_loads: loading by any calls, and emptying between them.
func C33_loads() {
	o := loadOpts{2, "2.0", false}
	seg := loadSeg(o)
	uni := []row{{3, near(2), "9", "v"}, {3, "一丁", "5", "n"}, {2, "丁七三", "4", ""}, {3, "七", "2", "m"}, {3, "Ab", "20", "q"}}
	var rs []row
	n := vf.Bound(3, 4)
	for i := range n {
		r := uni[(i*2+vf.Pick(2))%len(uni)]
		op := 0
		if i == 0 {
			op = vf.Pick(4)
		} else {
			op = vf.Pick(6)
		}
		if op == 5 && i == n-1 {
			op = 4
		}
		if op == 4 && seg.Dict == nil {
			op = 5
			if i == n-1 {
				op = 1
			}
		}
		var err error
		switch op {
		case 0:
			a := vf.Dir() + "/a" + strconv.Itoa(i) + ".txt"
			vf.File(a, rowsText([]row{r}, "", true))
			err = seg.LoadDict(a)
		case 1:
			err = seg.LoadDictStr(rowsText([]row{r}, "", true))
		case 2:
			m := map[string]string{"text": r.text, "freq": r.freq}
			if r.size > 2 {
				m["pos"] = r.pos
			}
			err = seg.LoadDictMap([]map[string]string{m})
		case 3:
			err = seg.LoadDictEmbed(rowsText([]row{r}, "", false))
		case 4:
			f, _ := strconv.ParseFloat(r.freq, 64)
			err = seg.AddToken(r.text, f, r.pos)
			if i == n-1 {
				seg.CalcToken()
			}
		case 5:
			err = seg.Empty()
			rs = nil
		}
		if op != 5 {
			rs = append(rs, r)
		}
		vf.Assert(err == nil, "loading succeeds")
	}
	loaded(seg, rs, o)
	// as if added at once, in any order
	other := newSeg()
	for i := range rs {
		r := rs[len(rs)-1-i]
		if firstRow(rs, r.text) != len(rs)-1-i {
			continue // the first one counts
		}
		f, _ := strconv.ParseFloat(r.freq, 64)
		other.AddToken(r.text, f, r.pos)
	}
	other.CalcToken()
	for _, t := range []string{rs[0].text + "三", "一丁七三ab" + rs[len(rs)-1].text} {
		for _, mode := range []bool{false, true} {
			vf.Assert(seg.String(t, mode) == other.String(t, mode), "the calls and the order make no difference")
		}
		vf.ObsS(seg.String(t, true))
	}
}

func firstRow(rs []row, text string) int {
	for i := range rs {
		if rs[i].text == text {
			return i
		}
	}
	return -1
}

// given is everything a dictionary gives of a text.
func given(seg *gse.Segmenter, s string) []string {
	r := []string{seg.String(s), seg.String(s, true)}
	r = append(r, seg.Cut(s, false)...)
	r = append(r, seg.CutAll(s)...)
	r = append(r, seg.CutSearch(s, false)...)
	d := seg.Dictionary()
	return append(r, strconv.Itoa(d.NumTokens()), strconv.Itoa(int(d.TotalFreq())), strconv.Itoa(d.MaxTokenLen()))
}

// C33_order: the order of different words makes no difference.
func C33_order() {
	a, b := newSeg(), newSeg()
	ws := some([]word{{"一丁", vf.SelF(5, 40), "n"}, {"丁七", 9, "v"}, {"一丁七", 3, "x"}})
	free := word{near(1 + vf.Pick(vf.Bound(2, 3))), vf.SelF(2, 60), "r"}
	for _, w := range ws {
		vf.Assume(w.text != free.text)
	}
	ws = append(ws, free)
	at := vf.Pick(min(2, len(ws)))
	rev := vf.Pick(2) == 1
	for i := range ws {
		a.AddToken(ws[i].text, ws[i].freq, ws[i].pos)
		j := (at + i) % len(ws)
		if rev {
			j = (at + len(ws) - i) % len(ws)
		}
		b.AddToken(ws[j].text, ws[j].freq, ws[j].pos)
		b.CalcToken()
	}
	a.CalcToken()
	b.CalcToken()
	s := "一" + near(vf.Pick(vf.Bound(3, 4)))
	x, y := given(a, s), given(b, s)
	vf.ObsSS(x)
	vf.Assert(sameSS(x, y), "the order of the words makes no difference")
	vf.Assert(a.String(ws[at].text, true) == b.String(ws[at].text, true), "the order of the words makes no difference")
}

// C33_scenes: the words of each scene in the opposite order.
func C33_scenes() {
	c := lightScene(vf.Pick(scenes))
	model(c.seg)
	c.seg.CalcToken()
	b := newSeg()
	b.AlphaNum, b.Num, b.Alpha = c.seg.AlphaNum, c.seg.Num, c.seg.Alpha
	for i := range c.ws {
		w := c.ws[len(c.ws)-1-i]
		b.AddToken(w.text, w.freq, w.pos)
	}
	b.CalcToken()
	for _, mode := range []bool{false, true} {
		x := c.seg.String(c.s, mode)
		vf.ObsS(x)
		vf.Assert(x == b.String(c.s, mode), "the order of the words makes no difference")
	}
	vf.Assert(sameSS(c.seg.Cut(c.s, false), b.Cut(c.s, false)), "the order of the words makes no difference")
	vf.Assert(sameSS(c.seg.Cut(c.s, true), b.Cut(c.s, true)), "the order of the words makes no difference")
}
