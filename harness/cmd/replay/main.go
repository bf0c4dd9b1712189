// Command replay runs harnesses natively on recorded inputs.
package main

import (
	"fmt"
	"os"
	"sort"

	"vfh/vf"
)

func main() {
	if len(os.Args) < 2 {
		for _, n := range names() {
			fmt.Println(n)
		}
		return
	}
	b, err := os.ReadFile(os.Args[2])
	if err != nil {
		fmt.Println("READ", err)
		os.Exit(9)
	}
	if err := vf.Load(b, len(os.Args) > 3 && os.Args[3] == "thorough"); err != nil {
		fmt.Println("READ", err)
		os.Exit(9)
	}
	f := registry[os.Args[1]]
	if f == nil {
		fmt.Println("NO-HARNESS", os.Args[1])
		os.Exit(9)
	}
	defer func() {
		if r := recover(); r != nil {
			vf.Panicked(r)
		}
	}()
	f()
	vf.Finish()
}

func names() []string {
	var ns []string
	for n := range registry {
		ns = append(ns, n)
	}
	sort.Strings(ns)
	return ns
}
