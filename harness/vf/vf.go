// Package vf is the interface between a harness and the checking engine. The
// engine replaces every function of this package by its symbolic counterpart;
// the bodies here are the native ones, used to replay a concrete input
// against the real build.
package vf

import (
	"encoding/json"
	"fmt"
	"math"
	"os"
	"os/exec"
	"path/filepath"
	"reflect"
	"strings"
	"sync"
)

// In is one recorded input.
type In struct {
	K string  `json:"k"`
	V uint64  `json:"v"`
	F float64 `json:"f"`
}

var (
	ins []In
	pos int
	dir string
	obs []string
	thr bool

	fresh int
)

func exit(line string, code int) {
	fmt.Println(line)
	for _, o := range obs {
		fmt.Println("OBS " + o)
	}
	if dir != "" {
		_ = os.RemoveAll(dir)
	}
	os.Exit(code)
}

// Load reads the recorded inputs.
func Load(b []byte, thorough bool) error {
	thr = thorough
	pos = 0
	ins = nil
	return json.Unmarshal(b, &ins)
}

// Finish ends a native run that reached the end of the harness.
func Finish() { exit("DONE", 0) }

// Panicked ends a native run that panicked.
func Panicked(v any) { exit("PANIC "+oneLine(fmt.Sprint(v)), 4) }

func oneLine(s string) string { return strings.ReplaceAll(s, "\n", " ") }

func next(k string) In {
	if pos >= len(ins) {
		exit("INPUT-END want "+k, 5)
	}
	i := ins[pos]
	pos++
	if i.K != k {
		exit("INPUT-KIND want "+k+" have "+i.K, 5)
	}
	return i
}

// Byte is any byte.
func Byte() byte { return byte(next("byte").V) }

// Bytes is any byte string of length n.
func Bytes(n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = Byte()
	}
	return b
}

// Rune is any rune in lo..hi.
func Rune(lo, hi rune) rune {
	if lo == hi {
		return lo
	}
	return rune(next("rune").V)
}

// RuneOf is any rune of the set.
func RuneOf(set string) rune {
	if rs := []rune(set); len(rs) == 1 {
		return rs[0]
	}
	return rune(next("rune").V)
}

// Int is any int in lo..hi.
func Int(lo, hi int) int {
	if lo == hi {
		return lo
	}
	return int(next("int").V)
}

// Bool is any boolean.
func Bool() bool { return next("bool").V == 1 }

// Pick forks over 0..n-1.
func Pick(n int) int { return int(next("pick").V) }

// SelF is any entry of the menu.
func SelF(menu ...float64) float64 {
	if len(menu) == 1 {
		return menu[0]
	}
	return menu[next("sel").V]
}

// Fork decides b on this path.
func Fork(b bool) bool { return b }

// Conc makes i concrete on this path.
func Conc(i int) int { return i }

// Assume restricts the inputs.
func Assume(b bool) {
	if !b {
		exit("ASSUME-FALSE", 6)
	}
}

// Assert is the property.
func Assert(b bool, msg string) {
	if !b {
		exit("ASSERT-FAIL "+msg, 3)
	}
}

// Unsupported marks a run outside what the harness models.
func Unsupported(msg string) { exit("UNSUPPORTED "+msg, 7) }

func ObsS(s string)    { obs = append(obs, fmt.Sprintf("s:%q", s)) }
func ObsI(i int)       { obs = append(obs, fmt.Sprintf("i:%d", i)) }
func ObsB(b bool)      { obs = append(obs, fmt.Sprintf("b:%v", b)) }
func ObsF(f float64)   { obs = append(obs, fmt.Sprintf("f:%x", math.Float64bits(f))) }
func ObsSS(s []string) { obs = append(obs, fmt.Sprintf("ss:%q", append([]string{}, s...))) }

// Reach marks a situation a harness must be able to reach.
func Reach(tag string) {}

// Bound is a bound that depends on the tier.
func Bound(quick, thorough int) int {
	if thr {
		return thorough
	}
	return quick
}

// Known marks the path as belonging to a listed finding.
func Known(class string) {}

// Shared runs f, which must only read what the roots reach. Natively it runs
// several copies at once, for the race detector.
func Shared(f func(), roots ...any) {
	if os.Getenv("VF_RACE") == "" {
		f()
		return
	}
	var wg sync.WaitGroup
	for i := 0; i < 4; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for j := 0; j < 20; j++ {
				f()
			}
		}()
	}
	wg.Wait()
	obs = nil
}

// MapOrder makes the engine explore map iteration orders.
func MapOrder(on bool) {}

// File creates a file with the content.
func File(name, content string) {
	if err := os.MkdirAll(filepath.Dir(name), 0o755); err != nil {
		exit("FILE "+err.Error(), 7)
	}
	if err := os.WriteFile(name, []byte(content), 0o644); err != nil {
		exit("FILE "+err.Error(), 7)
	}
}

// Dir is a directory of the harness's own.
func Dir() string {
	if dir == "" {
		d, err := os.MkdirTemp("", "vfh")
		if err != nil {
			exit("DIR "+err.Error(), 7)
		}
		dir = d
	}
	return dir
}

// Native is false under the engine.
func Native() bool { return true }

// Try runs f and reports a panic as "panic: ...".
func Try(f func()) (msg string) {
	defer func() {
		if r := recover(); r != nil {
			msg = "panic: " + oneLine(fmt.Sprint(r))
		}
	}()
	f()
	return ""
}

// Fresh is what f gives in a process in which nothing has happened before: the
// engine takes back what f changed, a native run asks another process. The
// calls of Fresh come first in a harness.
func Fresh(f func() []string) (r []string) {
	fresh++
	switch k := os.Getenv("VF_FRESH"); k {
	case "":
		cmd := exec.Command(os.Args[0], os.Args[1:]...)
		cmd.Env = append(os.Environ(), fmt.Sprintf("VF_FRESH=%d", fresh))
		out, err := cmd.Output()
		if i := strings.Index(string(out), "FRESH "); err == nil && i >= 0 {
			var bs [][]byte
			err = json.Unmarshal([]byte(strings.SplitN(string(out[i+6:]), "\n", 2)[0]), &bs)
			for _, b := range bs {
				r = append(r, string(b))
			}
		} else if err == nil {
			err = fmt.Errorf("no answer")
		}
		if err != nil {
			exit("PANIC in a process of its own: "+oneLine(err.Error()+" "+string(out)), 4)
		}
	case fmt.Sprint(fresh):
		bs := [][]byte{}
		for _, s := range f() {
			bs = append(bs, []byte(s))
		}
		b, err := json.Marshal(bs)
		if err != nil {
			exit("FRESH-FAIL "+err.Error(), 7)
		}
		obs = nil
		exit("FRESH "+string(b), 0)
	}
	return r
}

// SetString sets the package variable of the name; natively p is that variable.
func SetString(p *string, name, v string) { *p = v }

// AnyLen is the length of a slice.
func AnyLen(x any) int { return reflect.ValueOf(x).Len() }

// AnySwap swaps two elements of a slice.
func AnySwap(x any, i, j int) { reflect.Swapper(x)(i, j) }
