package core

import (
	"strings"

	"github.com/go-ego/gse"

	"vfh/vf"
)

// scene is a segmenter, its words as they are stored and a text.
type scene struct {
	seg *gse.Segmenter
	ws  []word
	s   string
}

func (c *scene) add(ws ...word) {
	addAll(c.seg, ws)
	for _, w := range ws {
		w.text = gse.Join(c.seg.SplitTextToWords([]byte(w.text)))
		if _, ok := find(c.ws, w.text); !ok {
			c.ws = append(c.ws, w)
		}
	}
}

func of(set string, n int) string { return rtext(n, set) }

// mix is any text of n runes, each of one of the sets.
func mix(n int, sets ...string) string {
	rs := make([]rune, n)
	for i := range rs {
		rs[i] = vf.RuneOf(sets[vf.Pick(len(sets))])
	}
	return string(rs)
}

// light makes the scenes have fewer variants.
var light bool

// few is any number below n.
func few(n int) int {
	if light {
		return n - 1
	}
	return vf.Pick(n)
}

// upto is any number below the bound.
func upto(quick, thorough int) int {
	if light {
		return quick - 2 + vf.Pick(vf.Bound(1, 2))
	}
	return vf.Pick(vf.Bound(quick, thorough))
}

func selF(a, b float64) float64 {
	if light {
		return a
	}
	return vf.SelF(a, b)
}

// lightScene is a scene with fewer variants.
func lightScene(k int) *scene {
	light = true
	return sceneOf(k)
}

// sceneOf is one of the scenes: the words and the text are partly free.
func sceneOf(k int) *scene {
	c := &scene{seg: newSeg()}
	switch k {
	case 0: // a long word of two runes, over shorter ones
		w := of("一丁", 4+upto(2, 3))
		c.add(word{w, selF(3, 400), "n"})
		for _, x := range []word{{"一丁", 50, "v"}, {"丁丁一", selF(4, 90), "m"}} {
			if vf.Pick(2) == 1 {
				c.add(x)
			}
		}
		c.s = of("一丁", few(2)) + w + of("一丁三", few(2))
	case 1: // divisions that are almost equally probable
		c.add(word{"一丁", selF(1000, 1001), "n"}, word{"七三", selF(1000, 1002), "v"})
		c.add(word{"一", selF(1000, 999), "m"}, word{"丁七三", selF(1000, 1001), "a"})
		c.add(word{"一丁七", selF(1000, 1001), "b"}, word{"三", 1000, "c"})
		c.s = near(few(2)) + "一丁七三" + near(few(2))
	case 2: // letters, digits and Han runes, every option
		switch vf.Pick(4) {
		case 1:
			c.seg.AlphaNum = true
		case 2:
			c.seg.Num = true
		case 3:
			c.seg.Alpha = true
		}
		gse.ToLower = vf.Pick(2) == 1
		c.add(word{"Ab", 5, "n"}, word{"1", 3, "m"}, word{"é一", 6, "v"}, word{"a一", 9, "x1"}, word{"一b1", 4, "q"})
		c.s = mix(upto(4, 5), "aAb1 ", "é", "一")
	case 3: // any bytes
		c.add(word{"ab", 5, "n"}, word{"\xe4\xb8", 3, "m"}, word{"一\x80", 8, "v"}, word{"\x81\x81", 9, "q"})
		c.s = []string{"", "a", "一", "\x80"}[vf.Pick(4)] + string(vf.Bytes(upto(3, 4)))
	case 4: // words added one by one, computed each time, some of them again
		ws := []word{{"一丁", 9, "n"}, {"七三", 8, "v"}, {"一丁七三", selF(3, 50), "a"}, {"丁七", 30, "b"}, {"七", 2, "c"}}
		at, force := vf.Pick(3), []int{0, 31, 10, 16}[vf.Pick(4)]
		for i := range ws {
			w := ws[(i+at)%5]
			if force>>i&1 == 1 {
				vf.Assert(c.seg.AddTokenForce(w.text, w.freq, w.pos) == nil, "adding a word does not fail")
				c.ws = append(c.ws, w)
			} else {
				c.add(w)
			}
		}
		c.add(word{"一丁", 700, "z"})
		if vf.Pick(2) == 1 {
			c.seg.CalcToken()
		}
		c.s = near(few(2)) + "一丁七三" + near(few(2))
	case 5: // long texts
		c.add(word{"一丁", 9, "n"}, word{"丁七三", 8, "v"}, word{"三", 7, "m"}, word{"ab1", 3, "e"}, word{"丁a", 5, "x"})
		n := vf.Bound(24, 60)
		c.s = strings.Repeat("一丁七三上", n) + near(few(3)) + strings.Repeat("Ab1一丁七", n/2) + near(1)
	case 6: // a long word with its like
		w := strings.Repeat("一丁七三上下", 4)
		c.add(word{w, selF(2, 5000), "n"}, word{"下一", 3, "v"}, word{"上下一丁七三上下", 20, "m"}, word{strings.Repeat("丁", 9), 4, "q"})
		c.s = near(few(2)) + w[:6] + near(1) + w[9:] + of("一下", few(2)) + strings.Repeat("丁", 8) + near(1)
	case 7: // runes of one to four bytes
		c.add(word{"𠀀一", 5, "n"}, word{"😀", 3, "m"}, word{"あé", 6, "v"}, word{"ー", 9, "x1"}, word{"é", 4, "q"}, word{"$", 2, "s"})
		c.s = mix(upto(4, 5), "𠀀😀", "あー一", "é", "$")
	case 8: // many words, all pairs of eight runes and all of three of two
		set := []rune("一丁七三上下不世")
		f := 2.0
		for _, a := range set {
			for _, b := range set[:5] {
				f = float64(int(f*7)%97 + 2)
				c.add(word{string([]rune{a, b}), f, "n"})
			}
		}
		c.add(word{"一丁一", 40, "t"}, word{"丁一丁", 90, "t"}, word{"下不世", 6, "t"})
		c.s = of("一丁下不世", upto(4, 5))
	case 9: // white space and punctuation within words
		c.add(word{"a b", 5, "n"}, word{"一 丁", 3, "m"}, word{"-", 6, "v"}, word{"a-b", 9, "x1"}, word{"…", 4, "q"})
		c.s = mix(upto(5, 6), "ab -", "一丁…")
	}
	return c
}

const scenes = 10

// C01_scenes: many kinds of dictionaries and texts.
func C01_scenes() {
	c := sceneOf(vf.Pick(scenes))
	c.seg.CalcToken()
	for _, mode := range []bool{false, true} {
		tiles(c.seg.ModeSegment([]byte(c.s), mode), c.s)
	}
}

// validScene is a scene whose text is valid UTF-8.
func validScene() int {
	k := vf.Pick(scenes - 1)
	if k >= 3 {
		k++
	}
	return k
}
