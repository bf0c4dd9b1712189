package idfh

import (
	"sort"

	"github.com/go-ego/gse"
	"github.com/go-ego/gse/hmm/idf"
	"github.com/go-ego/gse/hmm/segment"

	"vfh/vf"
)

type pair struct{ a, b string }

// refRank are the ranks of the words of these parts of speech.
func refRank(ws []gse.SegPos, allow []string) map[string]float64 {
	ok := func(p string) bool {
		for _, a := range allow {
			if a == p {
				return true
			}
		}
		return false
	}
	near := map[pair]float64{}
	var nodes []string
	node := func(w string) {
		for _, n := range nodes {
			if n == w {
				return
			}
		}
		nodes = append(nodes, w)
	}
	for i := range ws {
		for j := i + 1; j < len(ws) && j < i+5; j++ {
			if ok(ws[i].Pos) && ok(ws[j].Pos) {
				near[pair{ws[i].Text, ws[j].Text}]++
				node(ws[i].Text)
				node(ws[j].Text)
			}
		}
	}
	sort.Strings(nodes)
	// the weight between two words, in both directions
	w := func(a, b string) float64 { return near[pair{a, b}] + near[pair{b, a}] }
	out := map[string]float64{}
	rank := map[string]float64{}
	for _, a := range nodes {
		rank[a] = 1 / float64(len(nodes))
		for _, b := range nodes {
			out[a] += w(a, b)
		}
	}
	for range 10 {
		for _, a := range nodes {
			sum := 0.0
			for _, b := range nodes {
				sum += w(a, b) / out[b] * rank[b]
			}
			rank[a] = 0.15 + 0.85*sum
		}
	}
	lo, hi := 0.0, 0.0
	for i, a := range nodes {
		if i == 0 || rank[a] < lo {
			lo = rank[a]
		}
		if i == 0 || rank[a] > hi {
			hi = rank[a]
		}
	}
	for _, a := range nodes {
		rank[a] = (rank[a] - lo/10) / (hi - lo/10)
	}
	return rank
}

func close(a, b float64) bool { return a-b < 1e-9 && b-a < 1e-9 }

func rankCheck(got segment.Segments, want map[string]float64, k int) {
	n := len(want)
	if k > 0 && k < n {
		n = k
	}
	vf.Assert(len(got) == n, "as many words as asked for or as there are")
	seen := map[string]bool{}
	for i, t := range got {
		vf.ObsS(t.Text)
		r, ok := want[t.Text]
		vf.Assert(ok && !seen[t.Text], "each word that is near another one is ranked once")
		seen[t.Text] = true
		vf.Assert(close(t.Weight, r), "a word has the rank of the graph, relative to the first")
		if i == 0 {
			vf.Assert(close(t.Weight, 1), "the first word has weight 1")
		} else {
			p := got[i-1]
			vf.Assert(p.Weight > t.Weight || p.Weight == t.Weight && p.Text > t.Text, "the words are in the order of their weights")
		}
	}
	for w, r := range want {
		if !seen[w] {
			vf.Assert(n > 0 && r <= got[n-1].Weight+1e-9, "no word that is left out has more weight")
		}
	}
}

func ranker() (idf.TextRanker, gse.Segmenter) {
	seg := newSeg([]word{{"一丁", 20, "n"}, {"七丁", 9, "v"}, {"三丁", 5, "n"}, {"上丁", 4, "r"}, {"下丁", 6, "ns"}})
	var tr idf.TextRanker
	tr.WithGse(seg)
	return tr, seg
}

// rankText is any text of n words; and the words.
func rankText(n int, set string) (string, []gse.SegPos) {
	pos := map[string]string{"一丁": "n", "七丁": "v", "三丁": "n", "上丁": "r", "下丁": "ns"}
	s := ""
	var ws []gse.SegPos
	for range n {
		w := string([]rune{vf.RuneOf(set), '丁'})
		s += w
		ws = append(ws, gse.SegPos{Text: w, Pos: pos[w]})
	}
	return s, ws
}

// C24_rank: any text of these words.
func C24_rank() {
	tr, _ := ranker()
	s, ws := rankText(vf.Pick(vf.Bound(6, 8)), "一七三上")
	k := vf.Pick(3)
	rankCheck(tr.TextRank(s, k), refRank(ws, []string{"ns", "n", "vn", "v"}), k)
}

// C24_window: words that are up to five apart.
func C24_window() {
	tr, _ := ranker()
	s, ws := rankText(vf.Bound(9, 12), "一上")
	rankCheck(tr.TextRank(s, 0), refRank(ws, []string{"ns", "n", "vn", "v"}), 0)
}

// C24_pos: any parts of speech asked for.
func C24_pos() {
	tr, _ := ranker()
	allow := [][]string{nil, {"v"}, {"r", "n"}, {"ns", "n", "n"}}[vf.Pick(4)]
	s, ws := rankText(vf.Bound(4, 6), "一七上下")
	rankCheck(tr.TextRankWithPOS(s, 0, allow), refRank(ws, allow), 0)
}

// C24_order: the same for every order of maps.
func C24_order() {
	tr, _ := ranker()
	s, _ := rankText(1, "一三")
	t, _ := rankText(vf.Bound(1, 2), "一七三")
	s = "三丁" + s + "七丁" + t
	want := tr.TextRank(s, 0)
	for _, t := range want {
		vf.ObsS(t.Text)
		vf.ObsF(t.Weight)
	}
	vf.MapOrder(true)
	for i := 0; i == 0 || vf.Native() && i < 300; i++ {
		got := tr.TextRank(s, 0)
		vf.Assert(len(got) == len(want), "the same words every time")
		for i := range got {
			vf.Assert(got[i] == want[i], "the same words and weights every time")
		}
	}
	vf.MapOrder(false)
}

// C24_many: a long text.
// vf:budget=40000000
func C24_many() {
	tr, _ := ranker()
	n := vf.Bound(30, 80)
	pos := map[string]string{"一丁": "n", "七丁": "v", "三丁": "n", "上丁": "r", "下丁": "ns"}
	s := ""
	var ws []gse.SegPos
	for i := range n {
		w := string([]rune{[]rune("一七三上下")[i*i%11%5], '丁'})
		if i == n/2 {
			w = string([]rune{vf.RuneOf("一七三上下"), '丁'})
		}
		s += w
		ws = append(ws, gse.SegPos{Text: w, Pos: pos[w]})
	}
	k := []int{0, 1, 3, 50}[vf.Pick(4)]
	rankCheck(tr.TextRank(s, k), refRank(ws, []string{"ns", "n", "vn", "v"}), k)
}

// C24_fresh: the ranks do not depend on the calls before: on other texts, with
// other numbers of words or parts of speech.
func C24_fresh() {
	s, _ := rankText(vf.Bound(3, 4), "一七上下")
	k := vf.Pick(3)
	allow := [][]string{nil, {"v"}, {"r", "n"}}[vf.Pick(3)]
	do := func(tr *idf.TextRanker) []string {
		if allow == nil {
			return list(tr.TextRank(s, k))
		}
		return list(tr.TextRankWithPOS(s, k, allow))
	}
	want := vf.Fresh(func() []string {
		tr, _ := ranker()
		return do(&tr)
	})
	tr, _ := ranker()
	tr.TextRank(s, (k+1)%3)
	tr.TextRankWithPOS(s, 0, []string{"ns", "r"})
	tr.TextRankWithPOS(s, k, []string{"v", "n"})
	tr.TextRank("一丁"+s, k)
	other, _ := ranker()
	other.TextRank(s, 2)
	vf.ObsSS(want)
	vf.Assert(same(do(&tr), want), "the ranks do not depend on the calls before")
	vf.Assert(same(do(&tr), want), "the ranks do not depend on the calls before")
}

// C25_tags: extracting tags and ranking write nothing that is shared.
// vf:budget=20000000
func C25_tags() {
	seg := newSeg([]word{{"一丁", 20, "n"}, {"丁七", 9, "v"}, {"七丁", 4, "n"}})
	model(&seg)
	var te idf.TagExtracter
	te.WithGse(seg)
	te.LoadIdfStr("一丁 4\n丁七 6\n")
	var tr idf.TextRanker
	tr.WithGse(seg)
	s := "七丁"
	for range vf.Pick(vf.Bound(4, 5)) {
		s += string(vf.RuneOf("一丁七,"))
	}
	vf.Shared(func() {
		vf.ObsI(len(te.ExtractTags(s, 2)))
		vf.ObsI(len(tr.TextRank(s, 2)))
		tr.TextRankWithPOS(s, 0, []string{"n"})
		te.Idf.Freq(s)
		te.Idf.NumTokens()
		te.Idf.TotalFreq()
	}, &seg, &te, &tr)
}
