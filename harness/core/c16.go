package core

import (
	"github.com/go-ego/gse"

	"vfh/vf"
)

// paths of one name.
func namePaths(dir, n string) []string {
	switch n {
	case "zh":
		return []string{dir + "/dict/zh/t_1.txt", dir + "/dict/zh/s_1.txt"}
	case "zh_s":
		return []string{dir + "/dict/zh/s_1.txt"}
	case "zh_t":
		return []string{dir + "/dict/zh/t_1.txt"}
	case "ja", "jp":
		return []string{dir + "/dict/jp/dict.txt"}
	case "en", "ko", "ti", "", " ":
		return nil
	}
	return []string{n}
}

// C16_names: lists of up to three names, known ones and any others.
func C16_names() {
	menu := []string{"zh", "zh_s", "zh_t", "jp", "ja", "en", "ko", "ti", "", "/x/a.txt"}
	n := 1 + vf.Pick(vf.Bound(3, 4))
	sep := ", "
	if vf.Pick(2) == 1 {
		sep = ","
	}
	list := ""
	var want []string
	for i := 0; i < n; i++ {
		k := vf.Pick(len(menu) + 1)
		name := ""
		if k < len(menu) {
			name = menu[k]
		} else {
			b := vf.Bytes(2)
			for _, c := range b {
				vf.Assume(c >= 'a' && c <= 'z' || c == ' ')
			}
			vf.Assume(b[0] != ' ')
			name = string(b)
		}
		if i > 0 {
			list += sep
		}
		list += name
		want = append(want, namePaths("/d", name)...)
	}
	got := gse.DictPaths("/d", list)
	vf.ObsSS(got)
	vf.Assert(len(got) == len(want), "the number of paths")
	for i := range got {
		vf.Assert(got[i] == want[i], "each name gives its own paths, in order")
	}
}

// C16_free: any single name.
func C16_free() {
	n := vf.Pick(vf.Bound(6, 8))
	b := vf.Bytes(n)
	for _, c := range b {
		vf.Assume(c != ',')
	}
	name := string(b)
	got := gse.DictPaths("/d", name)
	want := namePaths("/d", name)
	vf.ObsSS(got)
	vf.Assert(len(got) == len(want), "the number of paths")
	for i := range got {
		vf.Assert(got[i] == want[i], "a name gives its own paths")
	}
}

// C16_long: long lists.
func C16_long() {
	menu := []string{"zh", "zh_s", "/x/a.txt", "jp", "ja", "en", "zh_t", "ko", "b.txt", "ti", ""}
	sep := []string{", ", ","}[vf.Pick(2)]
	at, step := vf.Pick(len(menu)), 1+vf.Pick(4)
	list := ""
	var want []string
	for i := range vf.Bound(9, 20) {
		name := menu[(at+i*step)%len(menu)]
		if i == 4 {
			name = string(vf.RuneOf("abé一"))
		}
		if i > 0 {
			list += sep
		}
		list += name
		want = append(want, namePaths("/d", name)...)
	}
	got := gse.DictPaths("/d", list)
	vf.ObsSS(got)
	vf.Assert(sameSS(got, want), "each name gives its own paths, in order")
}
