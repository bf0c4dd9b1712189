package main

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

// The layout: /verif/engine (this program), /verif/harness (the harnesses).
func verifDir() string {
	if d := os.Getenv("VF_VERIF"); d != "" {
		return d
	}
	return "/verif"
}

func goEnv(extra ...string) []string {
	return append(os.Environ(), append([]string{"GOFLAGS=-mod=mod", "GOPROXY=off", "GOSUMDB=off", "GOTOOLCHAIN=local"}, extra...)...)
}

type hRef struct{ name, pkg, dir string }

var reHarness = regexp.MustCompile(`(?m)^func (C\d+_\w+)\(\) \{`)

// findHarnesses scans the harness sources.
func findHarnesses() ([]hRef, error) {
	root := filepath.Join(verifDir(), "harness")
	var out []hRef
	err := filepath.Walk(root, func(p string, fi os.FileInfo, err error) error {
		if err != nil || fi.IsDir() || !strings.HasSuffix(p, ".go") || strings.HasSuffix(p, "_test.go") {
			return err
		}
		b, err := os.ReadFile(p)
		if err != nil {
			return err
		}
		dir := filepath.Dir(p)
		rel, _ := filepath.Rel(root, dir)
		for _, m := range reHarness.FindAllSubmatch(b, -1) {
			out = append(out, hRef{string(m[1]), "vfh/" + filepath.ToSlash(rel), dir})
		}
		return nil
	})
	sort.Slice(out, func(i, j int) bool { return out[i].name < out[j].name })
	return out, err
}

// cmdGen writes the registry of the native replay program.
func cmdGen() int {
	hs, err := findHarnesses()
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	var b bytes.Buffer
	b.WriteString("// Code generated by the engine (gen); DO NOT EDIT.\n\npackage main\n\nimport (\n")
	seen := map[string]string{}
	var pk []string
	for _, h := range hs {
		if seen[h.pkg] == "" {
			seen[h.pkg] = filepath.Base(h.pkg)
			pk = append(pk, h.pkg)
		}
	}
	sort.Strings(pk)
	for _, p := range pk {
		fmt.Fprintf(&b, "\t%q\n", p)
	}
	b.WriteString(")\n\nvar registry = map[string]func(){\n")
	for _, h := range hs {
		fmt.Fprintf(&b, "\t%q: %s.%s,\n", h.name, seen[h.pkg], h.name)
	}
	b.WriteString("}\n")
	if err := os.WriteFile(filepath.Join(verifDir(), "harness/cmd/replay/registry.go"), b.Bytes(), 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	exec.Command("gofmt", "-w", filepath.Join(verifDir(), "harness/cmd/replay/registry.go")).Run()
	return 0
}

// ---- native replay

type replayer struct {
	tmp      string
	thorough bool
	mu       sync.Mutex
	bin      string
	race     string
	raceErr  error
}

func (r *replayer) build() error {
	r.bin = filepath.Join(r.tmp, "replay")
	cmd := exec.Command("go", "build", "-tags", "ne", "-o", r.bin, "./cmd/replay")
	cmd.Dir = filepath.Join(verifDir(), "harness")
	cmd.Env = goEnv()
	out, err := cmd.CombinedOutput()
	if err != nil {
		return fmt.Errorf("building the replay program: %v\n%s", err, out)
	}
	return nil
}

func (r *replayer) buildRace() error {
	r.mu.Lock()
	defer r.mu.Unlock()
	if r.race != "" || r.raceErr != nil {
		return r.raceErr
	}
	b := filepath.Join(r.tmp, "replay-race")
	cmd := exec.Command("go", "build", "-race", "-tags", "ne", "-o", b, "./cmd/replay")
	cmd.Dir = filepath.Join(verifDir(), "harness")
	cmd.Env = goEnv("CGO_ENABLED=1")
	out, err := cmd.CombinedOutput()
	if err != nil {
		r.raceErr = fmt.Errorf("building the race replay program: %v\n%s", err, out)
		return r.raceErr
	}
	r.race = b
	return nil
}

type outcome struct {
	status string // DONE, ASSERT-FAIL, PANIC, HANG, RACE, ASSUME-FALSE, INPUT-*, UNSUPPORTED, OTHER
	msg    string
	obs    []string
}

var fileN int
var fileMu sync.Mutex

func (r *replayer) run(h string, in []RInput, race bool, tmo time.Duration) outcome {
	b, _ := json.Marshal(in)
	fileMu.Lock()
	fileN++
	f := filepath.Join(r.tmp, fmt.Sprintf("in%d.json", fileN))
	fileMu.Unlock()
	if err := os.WriteFile(f, b, 0o644); err != nil {
		return outcome{status: "OTHER", msg: err.Error()}
	}
	defer os.Remove(f)
	bin := r.bin
	env := append(os.Environ(), "TMPDIR="+r.tmp, "GOMEMLIMIT=2GiB")
	if race {
		if err := r.buildRace(); err != nil {
			return outcome{status: "OTHER", msg: err.Error()}
		}
		bin = r.race
		env = append(env, "VF_RACE=1", "GORACE=halt_on_error=1 exitcode=66")
	}
	ctx, cancel := context.WithTimeout(context.Background(), tmo)
	defer cancel()
	args := []string{h, f}
	if r.thorough {
		args = append(args, "thorough")
	}
	// the address space is limited so that a runaway loop cannot eat the box
	cmd := exec.CommandContext(ctx, "prlimit", append([]string{"--as=" + asLimit(race), bin}, args...)...)
	cmd.Env = env
	cmd.Dir = r.tmp
	var so, se bytes.Buffer
	cmd.Stdout, cmd.Stderr = &so, &se
	err := cmd.Run()
	if ctx.Err() != nil {
		return outcome{status: "HANG", msg: fmt.Sprintf("no result within %v", tmo)}
	}
	o := outcome{status: "OTHER"}
	for _, l := range strings.Split(so.String(), "\n") {
		if strings.HasPrefix(l, "OBS ") {
			o.obs = append(o.obs, l[4:])
			continue
		}
		for _, st := range []string{"DONE", "ASSERT-FAIL", "PANIC", "ASSUME-FALSE", "INPUT-END", "INPUT-KIND", "UNSUPPORTED"} {
			if l == st || strings.HasPrefix(l, st+" ") {
				o.status = st
				o.msg = strings.TrimSpace(strings.TrimPrefix(l, st))
			}
		}
	}
	es := se.String()
	if race && (strings.Contains(es, "DATA RACE") || strings.Contains(es, "concurrent map")) {
		return outcome{status: "RACE", msg: firstLines(es, 24)}
	}
	if o.status == "OTHER" {
		o.msg = fmt.Sprint(err, ": ", firstLines(es, 6))
		if strings.Contains(es, "stack overflow") || strings.Contains(es, "out of memory") || strings.Contains(es, "cannot allocate") {
			o.status = "HANG"
			o.msg = "resources exhausted: " + firstLines(es, 2)
		} else if strings.Contains(es, "fatal error:") || strings.Contains(es, "panic:") {
			o.status = "PANIC"
		}
	}
	return o
}

func asLimit(race bool) string {
	if race {
		return "unlimited"
	}
	return "8000000000"
}

func firstLines(s string, n int) string {
	ls := strings.Split(strings.TrimSpace(s), "\n")
	if len(ls) > n {
		ls = ls[:n]
	}
	return strings.Join(ls, " | ")
}

// confirm replays a candidate violation against the real build.
func (r *replayer) confirm(v *Violation) (bool, outcome) {
	if v.Kind == "frozen" {
		for i := 0; i < 3; i++ {
			o := r.run(v.Harness, v.Inputs, true, 60*time.Second)
			if o.status == "RACE" || o.status == "ASSERT-FAIL" || o.status == "PANIC" {
				return true, o
			}
			if i == 2 {
				return false, o
			}
		}
	}
	n := 1
	var o outcome
	for i := 0; i < n; i++ {
		o = r.run(v.Harness, v.Inputs, false, 20*time.Second)
		switch o.status {
		case "ASSERT-FAIL", "PANIC":
			return true, o
		case "HANG":
			return true, o
		case "DONE":
			n = 40 // map iteration order may differ from run to run
		}
	}
	return false, o
}

// ---- known findings

type knownLine struct{ prop, class, text string }

func loadKnown() []knownLine {
	b, err := os.ReadFile(filepath.Join(verifDir(), "known-findings.txt"))
	if err != nil {
		return nil
	}
	var out []knownLine
	for _, l := range strings.Split(string(b), "\n") {
		l = strings.TrimSpace(l)
		if !strings.HasPrefix(l, "known:") {
			continue
		}
		k := knownLine{}
		f := strings.Fields(strings.TrimPrefix(l, "known:"))
		rest := []string{}
		for _, x := range f {
			switch {
			case strings.HasPrefix(x, "property=") && k.prop == "":
				k.prop = x[9:]
			case strings.HasPrefix(x, "id=") && k.class == "":
				k.class = x[3:]
			default:
				rest = append(rest, x)
			}
		}
		k.text = strings.Join(rest, " ")
		out = append(out, k)
	}
	return out
}

// ---- the check

type hReport struct {
	Harness      string            `json:"harness"`
	What         string            `json:"what"`
	Package      string            `json:"package"`
	Trie         string            `json:"trie"`
	Exhausted    bool              `json:"exhausted"`
	Paths        int64             `json:"paths"`
	Completed    int64             `json:"paths_completed"`
	Infeasible   int64             `json:"paths_infeasible"`
	Inconclusive map[string]int64  `json:"paths_inconclusive,omitempty"`
	Decisions    int64             `json:"branch_decisions"`
	Steps        int64             `json:"instructions"`
	Asserts      int64             `json:"assertions_evaluated"`
	AssertQ      int64             `json:"assertions_sent_to_solver"`
	Unknown      int64             `json:"solver_unknown"`
	Queries      int               `json:"solver_queries"`
	Sat          int               `json:"sat"`
	Unsat        int               `json:"unsat"`
	SolverS      float64           `json:"solver_seconds"`
	WallS        float64           `json:"wall_seconds"`
	Reached      map[string]int64  `json:"reached,omitempty"`
	Validated    int               `json:"samples_validated_natively"`
	Mismatch     int               `json:"samples_mismatched"`
	Unconfirmed  []string          `json:"candidates_not_reproduced,omitempty"`
	Options      map[string]string `json:"options,omitempty"`
}

func envInt(name string, def int) int {
	if v, err := strconv.Atoi(os.Getenv(name)); err == nil {
		return v
	}
	return def
}

func cmdCheck(args []string) int {
	if len(args) < 1 {
		fmt.Fprintln(os.Stderr, "check <property> [harness]")
		return 2
	}
	t0 := time.Now()
	prop := args[0]
	only := ""
	if len(args) > 1 {
		only = args[1]
	}
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	thorough := tier == "thorough"
	seed := envInt("VERIF_SEED", 1)
	workers := envInt("VF_WORKERS", min(8, runtime.NumCPU()))
	tmo := 10000
	total := time.Duration(envInt("VF_TIME", 300)) * time.Second
	if thorough {
		tmo = 60000
		total = time.Duration(envInt("VF_TIME", 5400)) * time.Second
	}
	solverBin := os.Getenv("VF_SOLVER")
	if solverBin == "" {
		solverBin = "z3-new"
	}
	refs, err := findHarnesses()
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	pkgs := map[string]bool{}
	for _, r := range refs {
		if strings.HasPrefix(r.name, prop+"_") && (only == "" || r.name == only) {
			pkgs[r.pkg] = true
		}
	}
	if len(pkgs) == 0 {
		fmt.Fprintln(os.Stderr, "no harness for", prop)
		return 2
	}
	tmp, err := os.MkdirTemp("", "vfcheck")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	defer os.RemoveAll(tmp)
	rep := &replayer{tmp: tmp, thorough: thorough}
	var buildErr error
	var wg sync.WaitGroup
	wg.Add(1)
	go func() { defer wg.Done(); buildErr = rep.build() }()
	patterns := []string{"vfh/vf", "vfh/cedarmodel", "vfh/fmtmodel", "vfh/sortmodel"}
	for p := range pkgs {
		patterns = append(patterns, p)
	}
	sort.Strings(patterns)
	p, err := loadProgram(filepath.Join(verifDir(), "harness"), patterns)
	wg.Wait()
	if err == nil {
		err = buildErr
	}
	if err != nil {
		fmt.Fprintln(os.Stderr, "LOAD", err)
		return 2
	}
	loadS := time.Since(t0).Seconds()
	known := loadKnown()
	var hs []*Harness
	for _, h := range p.harness {
		if strings.HasPrefix(h.Name, prop+"_") && (only == "" || h.Name == only) && (thorough || h.Opt["tier"] != "thorough") {
			hs = append(hs, h)
		}
	}
	var reports []hReport
	funcs := map[string]bool{}
	var samples []any
	violations := 0
	knownSeen := map[string]bool{}
	stubs := map[string]bool{}
	var solverTotal time.Duration
	exitCode := 0
	left := len(hs)
	weight := 0.0
	hw := func(h *Harness) float64 {
		if w, err := strconv.ParseFloat(h.Opt["weight"], 64); err == nil {
			return w
		}
		return 1
	}
	for _, h := range hs {
		weight += hw(h)
	}
	groups := map[string][]*Machine{}
	for _, h := range hs {
		left--
		hstart := time.Now()
		share := time.Duration(float64(total-time.Since(t0)) * hw(h) / weight)
		weight -= hw(h)
		// unused time of earlier harnesses goes to the later ones, and any
		// one harness may use up to three shares when time is plentiful
		limit := share * 3
		if rest := total - time.Since(t0); limit > rest || left == 0 {
			limit = rest
		}
		if limit < 3*time.Second {
			limit = 3 * time.Second
		}
		trie := h.Opt["cedar"]
		if trie == "" {
			trie = "model"
		}
		key := trie + "|" + h.Pkg
		ms := groups[key]
		if ms == nil {
			red := map[string]*ssa.Function{}
			if trie == "model" {
				red = p.cedarRedirects()
			}
			p.libRedirects(red)
			inits := []*ssa.Package{p.prog.ImportedPackage(h.Pkg), p.prog.ImportedPackage("vfh/fmtmodel"), p.prog.ImportedPackage("vfh/sortmodel")}
			if trie == "model" {
				inits = append(inits, p.prog.ImportedPackage("vfh/cedarmodel"))
			}
			ms, err = p.machines(workers, red, inits, solverBin, tmo, thorough)
			if err != nil {
				fmt.Fprintln(os.Stderr, "INIT", h.Name, err)
				return 2
			}
			groups[key] = ms
		}
		for _, m := range ms {
			m.sol.Queries, m.sol.NSat, m.sol.NUnsat, m.sol.NUnk, m.sol.Time = 0, 0, 0, 0, 0
			if m.tt.nTerms > 400000 {
				m.resetTerms()
			}
		}
		if b, err := strconv.ParseInt(h.Opt["budget"], 10, 64); err == nil {
			h.Budget = b
		}
		ex := NewExplorer(h, ms)
		ex.deadline = hstart.Add(limit)
		ex.wantSample = 24
		if h.Opt["nomerge"] != "" {
			ex.noMerge = true
		}
		ex.Run()
		r := hReport{Harness: h.Name, What: h.Doc, Package: h.Pkg, Trie: trie, Paths: ex.Paths, Completed: ex.Completed,
			Infeasible: ex.Infeasible, Inconclusive: ex.Inconcl, Decisions: ex.Decisions, Steps: ex.Steps,
			Asserts: ex.Asserts, AssertQ: ex.AssertQ, Unknown: ex.AssertUnk + ex.UnkBranch, Reached: ex.Reached, Options: h.Opt}
		for _, m := range ms {
			r.Queries += m.sol.Queries
			r.Sat += m.sol.NSat
			r.Unsat += m.sol.NUnsat
			solverTotal += m.sol.Time
			r.SolverS += m.sol.Time.Seconds()
		}
		for fn := range ex.funcs {
			if fn.Pkg != nil && (isRepoPkg(fn.Pkg.Pkg.Path()) || fn.Pkg.Pkg.Path() == "github.com/vcaesar/cedar") {
				funcs[relRepo(fn)] = true
			}
		}
		r.Exhausted = !ex.timedOut && !ex.stop
		// violations
		reported := map[string]bool{}
		handle := func(v *Violation) {
			ok, o := rep.confirm(v)
			if !ok {
				r.Unconfirmed = append(r.Unconfirmed, fmt.Sprintf("%s: %s; native: %s %s", v.Kind, v.Msg, o.status, o.msg))
				fmt.Fprintf(os.Stderr, "note: %s: candidate not reproduced (%s: %s), native run: %s %s\n", h.Name, v.Kind, v.Msg, o.status, o.msg)
				if os.Getenv("VF_DEBUG") != "" {
					b, _ := json.Marshal(v.Inputs)
					fmt.Fprintln(os.Stderr, "   inputs:", string(b))
				}
				return
			}
			k := v.Kind + v.Msg
			if reported[k] {
				return
			}
			reported[k] = true
			violations++
			exitCode = 1
			path := writeReplay(prop, h, v, o, violations)
			fmt.Printf("VIOLATION property=%s replay=%s\n", prop, path)
			fmt.Printf("  %s: %s (%s); native run: %s %s\n", h.Name, v.Msg, v.Kind, o.status, o.msg)
		}
		for i := range ex.Viol {
			handle(&ex.Viol[i])
		}
		for class, v := range ex.KnownHit {
			listed := ""
			for _, k := range known {
				if k.prop == prop && k.class == class {
					listed = k.text
				}
			}
			v := v
			if listed == "" {
				handle(&v)
				continue
			}
			if ok, _ := rep.confirm(&v); ok && !knownSeen[class] {
				knownSeen[class] = true
				fmt.Printf("KNOWN-FINDING: property=%s %s\n", prop, listed)
			}
		}
		// translation validation: the same inputs through the real build
		rv, rm := validate(rep, h, ex.Samples, &r, func(v *Violation) { handle(v) })
		r.Validated, r.Mismatch = rv, rm
		for i, s := range ex.Samples {
			if i < 2 {
				samples = append(samples, map[string]any{"harness": h.Name, "inputs": s.Inputs, "observed": s.Obs})
			}
		}
		// vacuity
		for _, tag := range strings.Split(h.Opt["reach"], ",") {
			if tag != "" && ex.Reached[tag] == 0 && r.Exhausted && exitCode == 0 {
				fmt.Fprintf(os.Stderr, "note: %s never reached %q\n", h.Name, tag)
			}
		}
		r.WallS = time.Since(hstart).Seconds()
		reports = append(reports, r)
		fmt.Fprintf(os.Stderr, "%-34s paths=%d done=%d infeas=%d exhausted=%v asserts=%d/%d unk=%d queries=%d solver=%.1fs wall=%.1fs validated=%d/%d inconcl=%v reached=%v\n",
			h.Name, r.Paths, r.Completed, r.Infeasible, r.Exhausted, r.Asserts, r.AssertQ, r.Unknown, r.Queries, r.SolverS, r.WallS, r.Validated, r.Mismatch, r.Inconclusive, r.Reached)
	}
	for _, ms := range groups {
		for _, m := range ms {
			m.sol.Close()
		}
	}
	_ = stubs
	if only == "" {
		writeEvidence(prop, tier, seed, reports, funcs, samples, violations, loadS, solverTotal, solverBin, time.Since(t0))
	}
	return exitCode
}

// validate runs sampled paths natively and compares what they observe.
func validate(rep *replayer, h *Harness, ss []Sample, r *hReport, handle func(*Violation)) (ok, bad int) {
	type res struct {
		i int
		o outcome
	}
	ch := make(chan res, len(ss))
	sem := make(chan bool, 8)
	for i := range ss {
		go func(i int) {
			sem <- true
			o := rep.run(h.Name, ss[i].Inputs, false, 20*time.Second)
			<-sem
			ch <- res{i, o}
		}(i)
	}
	for range ss {
		x := <-ch
		switch {
		case x.o.status == "ASSERT-FAIL" || x.o.status == "PANIC" || x.o.status == "HANG":
			// the real code breaks the assertion where the encoding did not
			bad++
			handle(&Violation{Harness: h.Name, Kind: "native", Msg: "native run of a sampled path: " + x.o.status + " " + x.o.msg, Inputs: ss[x.i].Inputs})
		case x.o.status == "DONE" && eqStr(x.o.obs, ss[x.i].Obs):
			ok++
		default:
			bad++
			d := fmt.Sprintf("%s %s", x.o.status, x.o.msg)
			for k := range ss[x.i].Obs {
				if k < len(x.o.obs) && x.o.obs[k] != ss[x.i].Obs[k] {
					d += fmt.Sprintf(" obs[%d] engine %s native %s", k, ss[x.i].Obs[k], x.o.obs[k])
					break
				}
			}
			fmt.Fprintf(os.Stderr, "note: %s: sample differs natively: %s\n", h.Name, d)
			if os.Getenv("VF_DEBUG") != "" {
				b, _ := json.Marshal(ss[x.i].Inputs)
				fmt.Fprintln(os.Stderr, "   inputs:", string(b), ss[x.i].Obs, x.o.obs)
			}
			if len(r.Unconfirmed) < 5 {
				r.Unconfirmed = append(r.Unconfirmed, "sample differs natively: "+d)
			}
		}
	}
	return
}

func eqStr(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func writeReplay(prop string, h *Harness, v *Violation, o outcome, n int) string {
	dir := filepath.Join(verifDir(), "evidence", "replay")
	os.MkdirAll(dir, 0o755)
	path := filepath.Join(dir, fmt.Sprintf("%s-%d.json", prop, n))
	b, _ := json.MarshalIndent(map[string]any{
		"property": prop, "harness": h.Name, "kind": v.Kind, "message": v.Msg, "inputs": v.Inputs,
		"native": o.status + " " + o.msg, "observed": o.obs,
		"how": "/verif/bin/replay.sh " + path,
	}, "", " ")
	os.WriteFile(path, b, 0o644)
	return path
}

func writeEvidence(prop, tier string, seed int, rs []hReport, funcs map[string]bool, samples []any, violations int, loadS float64, solver time.Duration, solverBin string, wall time.Duration) {
	var fl []string
	for f := range funcs {
		fl = append(fl, f)
	}
	sort.Strings(fl)
	var states, trans, valid, q, asserts, assertQ, unk int64
	ex := true
	for _, r := range rs {
		states += r.Completed
		trans += r.Decisions
		valid += int64(r.Validated)
		q += int64(r.Queries)
		asserts += r.Asserts
		assertQ += r.AssertQ
		unk += r.Unknown
		if !r.Exhausted || len(r.Inconclusive) > 0 || r.Unknown > 0 {
			ex = false
		}
	}
	if samples == nil {
		samples = []any{}
	}
	ev := map[string]any{
		"property": prop, "tier": tier, "seed": seed, "level": "model_checking", "wall_s": wall.Seconds(), "violations": violations,
		"coverage": map[string]any{
			"states": states, "transitions": trans, "traces_validated_against_impl": valid, "samples": samples,
			"exhaustive":                ex,
			"states_are":                "symbolic paths completed (each stands for every input that satisfies its path condition)",
			"transitions_are":           "symbolic branch decisions taken on those paths",
			"functions_encoded":         fl,
			"harnesses":                 rs,
			"solver":                    solverBin,
			"solver_queries":            q,
			"solver_seconds":            solver.Seconds(),
			"solver_unknown":            unk,
			"assertions_evaluated":      asserts,
			"assertions_solver_decided": assertQ,
			"load_seconds":              loadS,
			"bounds":                    "per harness: its 'what' text states the input space; paths_inconclusive and exhausted=false state what was not decided",
		},
		"assumptions": []string{
			"the encoding is an execution of the go/ssa form of /repo's current source; unicode tables, math and formatting are evaluated by the engine's own Go runtime",
			"harnesses with trie=model replace github.com/vcaesar/cedar by its contract (harness/cedarmodel)",
		},
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(verifDir(), "evidence"), 0o755)
	os.WriteFile(filepath.Join(verifDir(), "evidence", prop+".json"), b, 0o644)
}

// resetTerms drops the term table of a machine between harnesses.
func (m *Machine) resetTerms() {
	m.sol.Close()
	m.sol.stack = nil
	m.tt = NewTermTab()
	m.encMemo = map[[4]*Term]encEnt{}
}
