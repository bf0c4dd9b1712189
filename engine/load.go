package main

import (
	"fmt"
	"go/ast"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// Harness is one entry point: a function of a harness package.
type Harness struct {
	Name   string // function name, e.g. C01_tiling
	Pkg    string // package path
	Doc    string
	Fn     *ssa.Function
	Budget int64
	Opt    map[string]string // directives from the doc comment
}

type Program struct {
	prog      *ssa.Program
	pkgs      []*packages.Package
	ssaPkgs   []*ssa.Package
	harness   []*Harness
	redirects map[string]map[string]*ssa.Function
	loadErr   []string
}

func isRepoPkg(p string) bool {
	return p == "github.com/go-ego/gse" || strings.HasPrefix(p, "github.com/go-ego/gse/")
}

var okUninit = map[string]bool{
	"internal/cpu.X86": true, "internal/bytealg.MaxLen": true, "internal/godebug.empty": true,
	"io/fs.ErrNotExist": true, "os.ErrNotExist": true,
}

var skipExact = map[string]bool{
	"runtime": true, "syscall": true, "os": true, "time": true, "reflect": true, "sync": true, "log": true,
	"vfh/vf": true, "errors": true, "fmt": true, "unsafe": true, "testing": true, "context": true, "io/fs": true, "encoding/json": true, "encoding/gob": true,
	"encoding": true, "encoding/base64": true, "encoding/binary": true, "sync/atomic": true, "log/internal": true,
	"iter": true, "math/rand": true, "flag": true, "crypto": true, "embed": true, "internal/oserror": false, "internal/strconv": false,
}

func (m *Machine) skipPkg(p string) bool {
	if v, ok := skipExact[p]; ok {
		return v
	}
	if strings.HasPrefix(p, "internal/") || strings.HasPrefix(p, "runtime/") || strings.HasPrefix(p, "crypto/") || strings.HasPrefix(p, "vendor/") || strings.HasPrefix(p, "math/rand") {
		return true
	}
	return false
}

func loadProgram(dir string, patterns []string) (*Program, error) {
	cfg := &packages.Config{
		Mode:       packages.LoadAllSyntax,
		Dir:        dir,
		BuildFlags: []string{"-tags=ne"},
		Env:        append(os.Environ(), "GOFLAGS=-mod=mod", "GOPROXY=off", "GOSUMDB=off", "CGO_ENABLED=0", "GOTOOLCHAIN=local"),
	}
	pkgs, err := packages.Load(cfg, patterns...)
	if err != nil {
		return nil, err
	}
	p := &Program{pkgs: pkgs, redirects: map[string]map[string]*ssa.Function{}}
	packages.Visit(pkgs, nil, func(pk *packages.Package) {
		for _, e := range pk.Errors {
			p.loadErr = append(p.loadErr, e.Error())
		}
	})
	if len(p.loadErr) > 0 {
		return p, fmt.Errorf("load errors: %s", strings.Join(p.loadErr, "; "))
	}
	prog, spk := ssautil.AllPackages(pkgs, ssa.InstantiateGenerics)
	prog.Build()
	p.prog, p.ssaPkgs = prog, spk
	for i, pk := range pkgs {
		sp := spk[i]
		if sp == nil {
			continue
		}
		for _, f := range pk.Syntax {
			for _, d := range f.Decls {
				fd, ok := d.(*ast.FuncDecl)
				if !ok || fd.Recv != nil || !isHarnessName(fd.Name.Name) {
					continue
				}
				h := &Harness{Name: fd.Name.Name, Pkg: pk.PkgPath, Fn: sp.Func(fd.Name.Name), Opt: map[string]string{}}
				if fd.Doc != nil {
					var doc []string
					for _, l := range strings.Split(fd.Doc.Text(), "\n") {
						if strings.HasPrefix(l, "vf:") {
							for _, kv := range strings.Fields(l[3:]) {
								k, v, _ := strings.Cut(kv, "=")
								h.Opt[k] = v
							}
							continue
						}
						doc = append(doc, l)
					}
					h.Doc = strings.TrimSpace(strings.Join(doc, " "))
				}
				p.harness = append(p.harness, h)
			}
		}
	}
	sort.Slice(p.harness, func(i, j int) bool { return p.harness[i].Name < p.harness[j].Name })
	return p, nil
}

func isHarnessName(n string) bool {
	if len(n) < 5 || n[0] != 'C' {
		return false
	}
	i := strings.IndexByte(n, '_')
	if i < 3 {
		return false
	}
	for _, c := range n[1:i] {
		if c < '0' || c > '9' {
			return false
		}
	}
	return true
}

// cedarRedirects maps the methods of the trie library to the model package.
func (p *Program) cedarRedirects() map[string]*ssa.Function {
	r := map[string]*ssa.Function{}
	mp := p.prog.ImportedPackage("vfh/cedarmodel")
	if mp == nil {
		return r
	}
	for name, mem := range mp.Members {
		fn, ok := mem.(*ssa.Function)
		if !ok || !ast.IsExported(name) {
			continue
		}
		if name == "New" {
			r["github.com/vcaesar/cedar.New"] = fn
		} else {
			r["(*github.com/vcaesar/cedar.Cedar)."+name] = fn
		}
	}
	return r
}

// libRedirects adds the models of library functions.
func (p *Program) libRedirects(r map[string]*ssa.Function) {
	if mp := p.prog.ImportedPackage("vfh/fmtmodel"); mp != nil {
		r["fmt.Fscanln"] = mp.Func("Fscanln")
	}
	if mp := p.prog.ImportedPackage("vfh/sortmodel"); mp != nil {
		for _, n := range []string{"Slice", "SliceStable", "SliceIsSorted"} {
			r["sort."+n] = mp.Func(n)
		}
	}
}

// newMachine creates a worker with initialised package state.
func (p *Program) newMachine(redirects map[string]*ssa.Function, inits []*ssa.Package, solverBin string, tmo int) (*Machine, error) {
	m := &Machine{
		prog: p.prog, pfs: map[*ssa.Function]*PFunc{}, globals: map[*ssa.Global]*Value{}, inited: map[*ssa.Package]bool{},
		redirects: redirects, methC: map[methKey]*ssa.Function{}, assertC: map[[2]int]bool{},
		tt: NewTermTab(), sol: NewSolver(solverBin, tmo), budget: 1 << 40, rtCache: map[*Value][][2]uint64{},
		regs: make([]Value, 1<<14), encMemo: map[[4]*Term]encEnt{}, mergeFail: map[*PBlock]int{},
	}
	rt := p.prog.ImportedPackage("runtime")
	if rt == nil {
		return nil, fmt.Errorf("no runtime package")
	}
	m.rtErr = canonType(rt.Type("errorString").Type())
	m.path = pathState{lits: map[*Term]bool{}, dom: map[*Term][2]uint64{}, freshC: map[*Value]bool{}, ownMap: map[*Map]bool{}, files: map[string]Value{}, reached: map[string]bool{}}
	for _, sp := range inits {
		init := sp.Func("init")
		kind, msg := m.exec(func() { m.call(init, nil, nil) })
		if kind != abDone {
			return nil, fmt.Errorf("init of %s: %s", sp.Pkg.Path(), msg)
		}
	}
	for _, pf := range m.pfs {
		pf.calls = 0
	}
	return m, nil
}

func (p *Program) machines(n int, redirects map[string]*ssa.Function, inits []*ssa.Package, solverBin string, tmo int, thorough bool) ([]*Machine, error) {
	ms := make([]*Machine, n)
	errs := make([]error, n)
	var wg sync.WaitGroup
	for i := range ms {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			ms[i], errs[i] = p.newMachine(redirects, inits, solverBin, tmo)
			if ms[i] != nil {
				ms[i].thorough = thorough
			}
		}(i)
	}
	wg.Wait()
	for _, e := range errs {
		if e != nil {
			return nil, e
		}
	}
	return ms, nil
}

func relRepo(fn *ssa.Function) string {
	pos := fn.Prog.Fset.Position(fn.Pos())
	if pos.Filename == "" {
		return fn.String()
	}
	return fmt.Sprintf("%s (%s:%d)", fn.String(), filepath.Base(pos.Filename), pos.Line)
}

var _ types.Type
