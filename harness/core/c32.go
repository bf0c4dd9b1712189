package core

import (
	"strings"
	_ "unsafe" // for the embedded dictionaries

	"github.com/go-ego/gse"

	"vfh/vf"
)

// The embedded dictionaries, which are empty in the tree that builds here.
var (
	//go:linkname embJa github.com/go-ego/gse.ja
	embJa string
	//go:linkname embT github.com/go-ego/gse.zhT
	embT string
	//go:linkname embS github.com/go-ego/gse.zhS
	embS string
	//go:linkname embStop github.com/go-ego/gse.stopDict
	embStop string
)

func embed(ja, zt, zs, stop string) {
	vf.SetString(&embJa, "github.com/go-ego/gse.ja", ja)
	vf.SetString(&embT, "github.com/go-ego/gse.zhT", zt)
	vf.SetString(&embS, "github.com/go-ego/gse.zhS", zs)
	vf.SetString(&embStop, "github.com/go-ego/gse.stopDict", stop)
}

// C32_embed: the embedded dictionary of each name, and rows after it.
func C32_embed() {
	w := near(2)
	rowsS, rowsT := w+" 8 s\n一 5 t\n", "丁七 6 v\n"
	embed(w+" 9 j\n", rowsT, rowsS, "")
	extra := []string{"ab 3 x\n", "七三 4\n" + w + " 7 y"}
	var rows string // what the arguments stand for
	var args []string
	name := []string{"", "zh", "zh_s", "zh_t", "ja"}[vf.Pick(5)]
	n := vf.Pick(3)
	rows = map[string]string{"": "", "zh": rowsS + rowsT, "zh_s": rowsS, "zh_t": rowsT, "ja": w + " 9 j\n"}[name]
	switch {
	case name == "" && n == 0:
		rows = rowsS + rowsT
	case name == "ja" && n > 0:
		return
	case name == "":
		args = []string{strings.Join(extra[:n], ", ")}
	default:
		args = []string{strings.Join(append([]string{name}, extra[:n]...), ", ")}
	}
	for _, e := range extra[:n] {
		rows += "\n" + e
	}
	var seg gse.Segmenter
	var err error
	alpha := false
	if vf.Pick(2) == 1 {
		if len(args) > 0 {
			k := vf.Pick(4)
			args = append(args, []string{"", "alpha", "en", "zh"}[k])
			alpha = k == 1 || k == 2
		}
		seg, err = gse.NewEmbed(args...)
	} else {
		seg.NotLoadHMM = true
		err = seg.LoadDictEmbed(args...)
	}
	vf.Assert(err == nil, "loading succeeds")
	vf.Assert(seg.AlphaNum == alpha, "alpha or en as the second argument makes letters units")
	vf.Assert(!seg.Num && !seg.Alpha && seg.MinTokenFreq == 2 && seg.TextFreq == "2.0", "the other options stay")
	ref := gse.Segmenter{SkipLog: true, NotLoadHMM: true, AlphaNum: alpha}
	vf.Assert(ref.LoadDictStr(rows) == nil, "loading succeeds")
	sameDict(&seg, &ref)
	s := near(1) + "丁ab"
	vf.ObsSS(seg.Cut(s))
	vf.Assert(sameSS(seg.Cut(s), ref.Cut(s)), "the words are those of the dictionary named")
}

// sameDict compares dictionaries.
func sameDict(a, b *gse.Segmenter) {
	vf.Assert(a.Dict.NumTokens() == b.Dict.NumTokens() && a.Dict.TotalFreq() == b.Dict.TotalFreq() && a.Dict.MaxTokenLen() == b.Dict.MaxTokenLen(), "the dictionary has the words of the rows")
	for i := range b.Dict.Tokens {
		t := b.Dict.Tokens[i]
		f, p, ok := a.Find(t.Text())
		vf.Assert(ok && f == t.Freq() && p == t.Pos(), "the dictionary has the words of the rows")
	}
}

// C32_files: the dictionaries of the data directory and of files.
func C32_files() {
	w := near(2)
	rowsS, rowsT, rowsJ, rowsX := w+" 8 s\n一 5 t\n", "丁七 6 v\n", w+" 9 j\n", "ab 3 x\n"
	d := vf.Dir()
	vf.File(d+"/data/dict/zh/s_1.txt", rowsS)
	vf.File(d+"/data/dict/zh/t_1.txt", rowsT)
	vf.File(d+"/data/dict/jp/dict.txt", rowsJ)
	vf.File(d+"/x.txt", rowsX)
	var seg gse.Segmenter
	var err error
	alpha := false
	rows := ""
	if k := vf.Pick(12); k < 8 {
		// the data directory is the one next to DictPath
		seg.SkipLog, seg.NotLoadHMM, seg.DictPath = true, true, d+"/gse.go"
		switch k {
		case 0:
			err = seg.LoadDict()
			rows = rowsS + rowsT
		case 1:
			err = seg.LoadDict("zh")
			rows = rowsT + rowsS
		case 2:
			err = seg.LoadDict("zh_s")
			rows = rowsS
		case 3:
			err = seg.LoadDict("zh_t")
			rows = rowsT
		case 4:
			err = seg.LoadDict([]string{"ja", "jp"}[vf.Pick(2)])
			rows = rowsJ
		case 5:
			err = seg.LoadDict("zh_t" + []string{",", ", "}[vf.Pick(2)] + d + "/x.txt")
			rows = rowsT + rowsX
		case 6:
			err = seg.LoadDict([]string{"en", "ko", ""}[vf.Pick(3)])
		case 7:
			// one more dictionary later
			err = seg.LoadDict(d + "/x.txt")
			vf.Assert(err == nil, "loading succeeds")
			err = seg.LoadDict("jp")
			rows = rowsX + rowsJ
		}
	} else {
		args := []string{d + "/x.txt"}
		switch k {
		case 9:
			args = append(args, "alpha")
			alpha = true
		case 10:
			args = append(args, "alphas")
		case 11:
			args = append(args, string([]rune{vf.Rune('A', 'z'), vf.Rune('A', 'z')}))
		}
		seg, err = gse.New(args...)
		rows = rowsX
	}
	vf.Assert(err == nil, "loading succeeds")
	vf.Assert(seg.AlphaNum == alpha, "alpha as the second argument makes letters units")
	vf.Assert(!seg.Num && !seg.Alpha && seg.MinTokenFreq == 2 && seg.TextFreq == "2.0", "the other options stay")
	ref := gse.Segmenter{SkipLog: true, NotLoadHMM: true, AlphaNum: alpha}
	vf.Assert(ref.LoadDictStr(rows) == nil, "loading succeeds")
	sameDict(&seg, &ref)
	s := near(1) + "丁ab"
	vf.ObsSS(seg.Cut(s))
	vf.Assert(sameSS(seg.Cut(s), ref.Cut(s)), "the words are those of the dictionary named")
}

// C32_stop: the default stop words, embedded and from files.
func C32_stop() {
	w := near(1)
	embed("", "", "", w+"\n丁\n")
	d := vf.Dir()
	vf.File(d+"/data/dict/zh/stop_word.txt", w+"\n丁\n")
	vf.File(d+"/data/dict/zh/stop_tokens.txt", "七\n"+w+"\n")
	vf.File(d+"/x.txt", "三\n")
	seg := newSeg()
	seg.DictPath = d + "/gse.go"
	var want []string
	var err error
	switch vf.Pick(8) {
	case 0:
		err = seg.LoadStop()
		want = []string{w, "丁"}
	case 1:
		err = seg.LoadStop("zh")
		want = []string{w, "七"}
	case 2:
		err = seg.LoadStop("zh, " + d + "/x.txt")
		want = []string{w, "七", "三"}
	case 3:
		err = seg.LoadStop(d + "/x.txt")
		want = []string{"三"}
	case 4:
		err = seg.LoadStopEmbed()
		want = []string{w, "丁"}
	case 5:
		err = seg.LoadStopEmbed("zh, 三\n上")
		want = []string{w, "丁", "三", "上"}
	case 6:
		err = seg.LoadStopEmbed("zh, 三, 下")
		want = []string{w, "丁", "三", "下"}
	case 7:
		err = seg.LoadStopEmbed("三, 下\n上")
		want = []string{"下", "三", "上"}
	}
	vf.Assert(err == nil, "loading succeeds")
	hasStops(seg, want)
}
