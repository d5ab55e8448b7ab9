package main

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/constant"
	"go/token"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"gov/eng"
	"gov/smt"
)

type failure struct {
	Target string `json:"target"`
	Name   string `json:"obligation"`
	Status string `json:"status"`
	Pos    string `json:"position,omitempty"`
	Detail string `json:"detail,omitempty"`
}

type runReport struct {
	Pkg        string
	Name       string   `json:"name"`
	Kind       string   `json:"kind"`
	Runs       int      `json:"runs"`
	Nontrivial int      `json:"nontrivial"`
	Distinct   int      `json:"distinct"`
	Samples    []string `json:"samples,omitempty"`
	Symbolic   bool     `json:"symbolic_only,omitempty"`
	Fail       string   `json:"fail,omitempty"`
	Iter       int      `json:"iter"`
	Seed       int64    `json:"seed"`
	Args       string   `json:"args,omitempty"`
	Stack      string   `json:"stack,omitempty"`
	Model      bool     `json:"from_model,omitempty"`
}

var verifDir = "/verif"

func seedEnv() int64 {
	n, err := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	if err != nil {
		return 1
	}
	return n
}

func relevant(props []string, prop string) bool {
	if len(props) == 0 {
		return true
	}
	for _, p := range props {
		if p == prop {
			return true
		}
	}
	return false
}

// prove verifies the targets of prop and everything they rely on.
func prove(p *eng.Program, pool *smt.Pool, prop string, limit time.Duration, verbose bool) []*eng.Result {
	var mu sync.Mutex
	var wg sync.WaitGroup
	sem := make(chan bool, *par)
	seen := map[string]bool{}
	all := map[string]eng.Target{}
	var out []*eng.Result
	deadline := time.Now().Add(limit)
	var add func(t eng.Target)
	add = func(t eng.Target) {
		mu.Lock()
		if seen[t.Name] {
			mu.Unlock()
			return
		}
		seen[t.Name] = true
		all[t.Name] = t
		mu.Unlock()
		wg.Add(1)
		go func() {
			defer wg.Done()
			sem <- true
			left := time.Until(deadline)
			if left < time.Second {
				left = time.Second
			}
			r := eng.Verify(p, pool, t, left, verbose)
			<-sem
			mu.Lock()
			out = append(out, r)
			mu.Unlock()
			if os.Getenv("GOV_TRACE") != "" {
				fmt.Fprintf(os.Stderr, "%-60s %d obligations wall %.1fs %s\n", t.Name, len(r.Obls), r.Wall.Seconds(), r.Err)
			}
			for _, n := range p.Closure(r) {
				add(n)
			}
		}()
	}
	for _, t := range p.Targets(prop) {
		add(t)
	}
	wg.Wait()
	// a solver that ran out of its share of the machine gets another try
	again := make(chan bool, 2)
	for i, r := range out {
		if clean(p, prop, r) {
			continue
		}
		i, t := i, all[r.Target]
		t.Patience = 4
		wg.Add(1)
		go func() {
			defer wg.Done()
			again <- true
			defer func() { <-again }()
			left := time.Until(deadline)
			if left < 20*time.Second {
				return
			}
			n := eng.Verify(p, pool, t, left, verbose)
			if clean(p, prop, n) || n.Err == "" && out[i].Err != "" {
				out[i] = n
			}
		}()
	}
	wg.Wait()
	sort.Slice(out, func(i, j int) bool { return out[i].Target < out[j].Target })
	return out
}

// clean: every obligation of r was discharged.
func clean(p *eng.Program, prop string, r *eng.Result) bool {
	if r.Err != "" {
		return false
	}
	for _, o := range r.Obls {
		if o.Status != "proved" {
			return false
		}
	}
	return true
}

// constants collects integer constants of the code for the concrete runs.
func constants(p *eng.Program, pkg string) []uint64 {
	m := map[uint64]bool{}
	for _, q := range p.Pkgs {
		if !strings.HasSuffix(q.PkgPath, pkg) {
			continue
		}
		for _, f := range q.Syntax {
			if strings.Contains(p.Fset.Position(f.Pos()).Filename, "zz_verif_") {
				continue
			}
			ast.Inspect(f, func(n ast.Node) bool {
				ex, ok := n.(ast.Expr)
				if !ok {
					return true
				}
				tv, ok := q.TypesInfo.Types[ex]
				if !ok || tv.Value == nil || tv.Value.Kind() != constant.Int {
					return true
				}
				if v, ok := constant.Uint64Val(tv.Value); ok {
					m[v] = true
				} else if v, ok := constant.Int64Val(tv.Value); ok {
					m[uint64(v)] = true
				}
				return true
			})
		}
	}
	_ = token.INT
	var out []uint64
	for v := range m {
		out = append(out, v)
	}
	sort.Slice(out, func(i, j int) bool { return out[i] < out[j] })
	return out
}

type runner struct {
	p    *eng.Program
	dir  string
	prop string
	bins map[string]string // package dir -> test binary
	errs map[string]string
	bad  []string // declarations dropped
}

// entries lists the lemmas and drivers of prop by package.
func (r *runner) entries() map[string][]*eng.Lemma {
	out := map[string][]*eng.Lemma{}
	for _, l := range append(append([]*eng.Lemma{}, r.p.Lemmas...), r.p.Drivers...) {
		for _, q := range l.Props {
			if q == r.prop && l.Opts["concrete"] != "no" {
				pkg := strings.TrimPrefix(l.Fn.Pkg.Pkg.Path(), eng.ModPath+"/")
				out[pkg] = append(out[pkg], l)
			}
		}
	}
	return out
}

// build compiles the test binaries.
func (r *runner) build() {
	ents := r.entries()
	files := map[string]string{}
	k := 0
	put := func(to string, b []byte) {
		k++
		f := filepath.Join(r.dir, fmt.Sprintf("o%d.go", k))
		os.WriteFile(f, b, 0644)
		files[to] = f
	}
	for to, b := range r.p.Overlay {
		put(to, b)
	}
	tmpl, _ := os.ReadFile(filepath.Join(*spec, "run_test.go.in"))
	var pkgs []string
	for pkg, ls := range ents {
		pkgs = append(pkgs, pkg)
		d := filepath.Join(*repo, pkg)
		name := ls[0].Fn.Pkg.Pkg.Name()
		tests, _ := filepath.Glob(filepath.Join(d, "*_test.go"))
		for _, t := range tests {
			files[t] = ""
		}
		put(filepath.Join(d, "zz_verif_run_test.go"), []byte(strings.Replace(string(tmpl), "package PKG", "package "+name, 1)))
		var sb bytes.Buffer
		fmt.Fprintf(&sb, "package %s\n\nvar vEntries = []vEntry{\n", name)
		sort.Slice(ls, func(i, j int) bool { return ls[i].Name < ls[j].Name })
		isL := map[*eng.Lemma]bool{}
		for _, l := range r.p.Lemmas {
			isL[l] = true
		}
		for _, l := range ls {
			kind := "driver"
			if isL[l] {
				kind = "lemma"
			}
			fmt.Fprintf(&sb, "\t{%q, %s, %q},\n", l.Name, l.Name, kind)
		}
		sb.WriteString("}\n\nfunc init() {\n\tvDict = []uint64{")
		for _, c := range constants(r.p, pkg) {
			fmt.Fprintf(&sb, "%d, ", c)
		}
		sb.WriteString("}\n}\n")
		put(filepath.Join(d, "zz_verif_entries_test.go"), sb.Bytes())
	}
	ov, _ := json.Marshal(map[string]any{"Replace": files})
	ovf := filepath.Join(r.dir, "overlay.json")
	os.WriteFile(ovf, ov, 0644)
	r.bins, r.errs = map[string]string{}, map[string]string{}
	var mu sync.Mutex
	var wg sync.WaitGroup
	for _, pkg := range pkgs {
		pkg := pkg
		wg.Add(1)
		go func() {
			defer wg.Done()
			bin := filepath.Join(r.dir, strings.ReplaceAll(pkg, "/", "_")+".test")
			cmd := exec.Command("go", "test", "-c", "-vet=off", "-overlay", ovf, "-o", bin, "./"+pkg)
			cmd.Dir = *repo
			cmd.Env = append(os.Environ(), "GOFLAGS=-mod=mod", "GOPROXY=off", "GOWORK=off")
			b, err := cmd.CombinedOutput()
			mu.Lock()
			defer mu.Unlock()
			if err != nil {
				r.errs[pkg] = string(b)
				return
			}
			r.bins[pkg] = bin
		}()
	}
	wg.Wait()
}

// run executes the concrete cases; ms per lemma or driver.
func (r *runner) run(ms int, seed int64, cases []eng.ModelCase, only string) []*runReport {
	var mu sync.Mutex
	var out []*runReport
	var wg sync.WaitGroup
	cf := ""
	if len(cases) > 0 {
		cf = filepath.Join(r.dir, "models.json")
		b, _ := json.Marshal(cases)
		os.WriteFile(cf, b, 0644)
	}
	ents := r.entries()
	sem := make(chan bool, 8)
	for pkg, bin := range r.bins {
		for _, l := range ents[pkg] {
			if only != "" && l.Name != only {
				continue
			}
			pkg, bin, name := pkg, bin, l.Name
			wg.Add(1)
			go func() {
				defer wg.Done()
				sem <- true
				defer func() { <-sem }()
				res := filepath.Join(r.dir, fmt.Sprintf("res_%s_%d.json", name, seed))
				os.Remove(res)
				ctx, cancel := context.WithTimeout(context.Background(), time.Duration(ms)*time.Millisecond+240*time.Second)
				defer cancel()
				cmd := exec.CommandContext(ctx, bin, "-test.run", "^TestVerifRun$", "-test.timeout", "0")
				cmd.Dir = r.dir
				cmd.Env = append(os.Environ(), "GOV_OUT="+res, fmt.Sprintf("GOV_SEED=%d", seed), fmt.Sprintf("GOV_MS=%d", ms), "GOV_ONLY="+name, "GOV_MODELS="+cf, "GOMEMLIMIT=2GiB")
				var buf bytes.Buffer
				cmd.Stdout, cmd.Stderr = &buf, &buf
				err := cmd.Run()
				b, _ := os.ReadFile(res)
				var reps []*runReport
				json.Unmarshal(b, &reps)
				mk, _ := os.ReadFile(res + ".mark")
				if err != nil && !strings.HasPrefix(string(mk), "done") {
					f := strings.Fields(string(mk))
					rep := &runReport{Name: name, Kind: "driver", Fail: "the process crashed or did not finish: " + err.Error(), Seed: seed, Stack: tail(buf.String(), 6000)}
					if len(f) > 1 {
						rep.Iter, _ = strconv.Atoi(f[1])
					}
					reps = []*runReport{rep}
				}
				mu.Lock()
				defer mu.Unlock()
				for _, x := range reps {
					x.Pkg = pkg
					out = append(out, x)
				}
			}()
		}
	}
	wg.Wait()
	sort.Slice(out, func(i, j int) bool { return out[i].Name < out[j].Name })
	return out
}

func tail(s string, n int) string {
	if len(s) > n {
		return s[:n/2] + "\n...\n" + s[len(s)-n/2:]
	}
	return s
}

// known lists the findings that are recorded and not reported again:
// lines "known: property=<id> name=<obligation, lemma or driver>[: text]".
func known(prop string) map[string]string {
	m := map[string]string{}
	b, _ := os.ReadFile(filepath.Join(verifDir, "known_findings.txt"))
	for _, l := range strings.Split(string(b), "\n") {
		pre := "known: property=" + prop + " name="
		if strings.HasPrefix(l, pre) {
			s := strings.TrimPrefix(l, pre)
			text := ""
			if i := strings.Index(s, " :: "); i >= 0 {
				s, text = s[:i], s[i+4:]
			}
			m[s] = text
		}
	}
	return m
}

func check(prop string, limit time.Duration) int {
	start := time.Now()
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	seed := seedEnv()
	ms := 6000
	plimit := 300 * time.Second
	if tier == "thorough" {
		ms = 90000
		plimit = 600 * time.Second
	}
	tmp, err := os.MkdirTemp("", "gov")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	defer os.RemoveAll(tmp)
	evDir := filepath.Join(verifDir, "evidence")
	os.MkdirAll(filepath.Join(evDir, "replay"), 0755)
	replay := filepath.Join(evDir, "replay", prop+".json")
	os.Remove(replay)

	var fails []failure
	var results []*eng.Result
	var reports []*runReport
	var trusted, assumptions []string
	pool := smt.NewPool(12)
	defer pool.Close()
	p, err := eng.Load(*repo, *spec)
	kinds := map[string]int{}
	r := &runner{p: p, dir: tmp, prop: prop}
	if err != nil {
		fails = append(fails, failure{"specification", "specification and code type check together", "failed", "", err.Error()})
	} else {
		for _, d := range p.Dropped {
			fmt.Printf("note: specification %s dropped: %s\n", d.Name, d.Reason)
			if len(d.Props) > 0 && relevant(d.Props, prop) {
				fails = append(fails, failure{d.Name, "specification " + d.Name + " fits the code", "failed", "", d.Reason})
			}
		}
		var wg sync.WaitGroup
		wg.Add(1)
		go func() {
			defer wg.Done()
			r.build()
			reports = r.run(ms, seed, nil, "")
		}()
		results = prove(p, pool, prop, plimit, *verbose)
		wg.Wait()
		for pkg, e := range r.errs {
			fails = append(fails, failure{"drivers of " + pkg, "drivers compile against the code", "failed", "", e})
		}
	}
	kn := known(prop)
	obls, done := 0, 0
	backends := map[string]int{}
	var solve time.Duration
	var contracts, inlined, lemmas []string
	inl := map[string]bool{}
	models := map[string]bool{}
	var cases []eng.ModelCase
	for _, x := range results {
		solve += x.Solve
		if strings.HasPrefix(x.Target, "lemma ") {
			lemmas = append(lemmas, strings.TrimPrefix(x.Target, "lemma "))
		} else {
			contracts = append(contracts, x.Target)
		}
		for k := range x.Inlined {
			inl[k] = true
		}
		for k := range x.Models {
			models[k] = true
		}
		cases = append(cases, x.Cases...)
		if x.Err != "" {
			fails = append(fails, failure{x.Target, "verification of " + x.Target + " completes", "unknown", "", x.Err})
			obls++
		}
		for _, o := range x.Obls {
			if !relevant(x.Props[o.Name], prop) {
				continue
			}
			obls++
			if o.Status == "proved" {
				done++
				backends[o.Backend]++
				continue
			}
			if _, ok := kn[o.Name]; ok {
				fmt.Printf("KNOWN-FINDING: property=%s %s %s\n", prop, o.Name, kn[o.Name])
				continue
			}
			fails = append(fails, failure{x.Target, o.Name, o.Status, o.Pos, o.Detail})
		}
	}
	if err == nil && len(results) == 0 && len(reports) == 0 {
		fails = append(fails, failure{prop, "property has obligations", "failed", "", "nothing to verify"})
	}
	var concrete []*runReport
	collect := func(rs []*runReport) {
		for _, x := range rs {
			if x.Fail == "" {
				continue
			}
			if t, ok := kn[x.Name]; ok {
				fmt.Printf("KNOWN-FINDING: property=%s %s %s\n", prop, x.Name, t)
				continue
			}
			concrete = append(concrete, x)
		}
	}
	collect(reports)
	if len(concrete) == 0 && len(fails) > 0 && err == nil && len(r.bins) > 0 {
		// the proof failed: look harder for an input
		collect(r.run(25000, seed+1000, cases, ""))
	}
	for k := range inl {
		inlined = append(inlined, k)
	}
	sort.Strings(inlined)
	for k := range models {
		trusted = append(trusted, k)
	}
	sort.Strings(trusted)
	runs, distinct := 0, 0
	var samples []any
	var bounded []map[string]any
	for _, x := range reports {
		runs += x.Runs
		distinct += x.Distinct
		if len(x.Samples) > 0 && len(samples) < 6 {
			samples = append(samples, map[string]string{"case": x.Name, "arguments": tail(x.Samples[0], 400)})
		}
		kinds[x.Kind]++
		if x.Kind == "driver" {
			bounded = append(bounded, map[string]any{"driver": x.Name, "package": x.Pkg, "executions": x.Runs, "ran_to_end": x.Nontrivial, "distinct": x.Distinct})
		}
	}
	assumptions = append(assumptions, baseAssumptions...)
	for _, k := range trusted {
		assumptions = append(assumptions, "trusted model: "+k)
	}
	nviol := 0
	if len(fails) > 0 || len(concrete) > 0 {
		nviol = len(fails) + len(concrete)
	}
	cov := map[string]any{
		"obligations":              obls,
		"discharged":               done,
		"checker_cmd":              "gov check " + prop + " (z3 4.8.12, cvc5 1.1.2, z3-new portfolio)",
		"trusted_base":             append([]string{"gov (this framework): go/ssa translation, memory model, term simplifier", "golang.org/x/tools/go/ssa v0.52.0", "z3 4.8.12 / cvc5 1.1.2 / z3-new"}, trusted...),
		"functions_under_contract": contracts,
		"lemmas":                   lemmas,
		"functions_inlined":        inlined,
		"back_ends":                backends,
		"solver_time_s":            round(solve.Seconds()),
		"concrete_executions":      runs,
		"concrete_distinct":        distinct,
		"bounded_drivers":          bounded,
		"evaluations":              runs,
		"distinct_nontrivial":      distinct,
		"rule":                     "arguments of lemmas and drivers are generated from VERIF_SEED (boundary values, constants of the code, random bytes); a run counts as non-trivial when no assumption of the lemma rejected it; distinct by argument text",
		"samples":                  samples,
		"failed_obligations":       fails,
		"counterexamples_replayed": len(concrete),
		"specification_files":      specFiles(p),
		"dropped_specifications":   dropped(p),
		"explanation":              "deductive proof of contracts and lemmas on the SSA of the current source; drivers and lemmas are additionally executed on the real code (bounded, not counted as proved)",
	}
	ev := map[string]any{"property": prop, "tier": tier, "seed": seed, "level": levelOf(prop), "coverage": cov, "assumptions": assumptions, "wall_s": round(time.Since(start).Seconds()), "violations": nviol}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.WriteFile(filepath.Join(evDir, prop+".json"), b, 0644)
	fmt.Printf("%s: %d/%d obligations discharged over %d functions and %d lemmas, %d concrete executions, %.1fs\n", prop, done, obls, len(contracts), len(lemmas), runs, time.Since(start).Seconds())
	if nviol == 0 {
		return 0
	}
	rp := map[string]any{"property": prop, "failed_obligations": fails, "failing_inputs": concrete,
		"how_to_replay": "cd /verif && VERIF_SEED=<seed> ./check.sh " + prop + " ; a failing input is regenerated from (seed, iter) of the named lemma or driver in spec/"}
	b, _ = json.MarshalIndent(rp, "", " ")
	os.WriteFile(replay, b, 0644)
	for _, f := range fails {
		fmt.Printf("  %s: %s (%s) %s\n", f.Status, f.Name, f.Target, tail(f.Detail, 300))
	}
	for _, x := range concrete {
		fmt.Printf("  refuted: %s: %s\n    arguments: %s\n", x.Name, x.Fail, tail(x.Args, 600))
	}
	if len(concrete) > 0 {
		fmt.Printf("VIOLATION property=%s replay=%s\n", prop, replay)
	} else {
		fmt.Printf("VIOLATION property=%s replay=%s no-failing-input-found\n", prop, replay)
	}
	return 1
}

func round(f float64) float64 { return float64(int(f*10)) / 10 }

func specFiles(p *eng.Program) []string {
	if p == nil {
		return nil
	}
	var out []string
	for _, f := range p.SpecFiles {
		out = append(out, f)
	}
	sort.Strings(out)
	return out
}

func dropped(p *eng.Program) []string {
	out := []string{}
	if p == nil {
		return out
	}
	for _, d := range p.Dropped {
		out = append(out, d.Name+": "+d.Reason)
	}
	return out
}

var baseAssumptions = []string{
	"64-bit little-endian platform; Go integers are modelled as bit vectors of their exact width (wrap-around is not assumed away)",
	"slices, strings and offsets are shorter than 2^47 bytes; memory allocation succeeds",
	"goroutine interleavings are covered only where a lock monitor is specified; elsewhere the verified function runs without interference",
	"termination of loops is not proved",
	"pointers found in unknown memory designate whole objects or slice elements of their type",
}

// levelOf reads the level registered in the manifest.
func levelOf(prop string) string {
	b, _ := os.ReadFile(filepath.Join(verifDir, "MANIFEST.json"))
	var m struct {
		Checks []struct{ Property, Level string }
	}
	json.Unmarshal(b, &m)
	for _, c := range m.Checks {
		if c.Property == prop {
			return c.Level
		}
	}
	return "proof"
}

// runOnly executes the lemmas and drivers of a property: PROP [ms [name]].
func runOnly(args []string) int {
	tmp, err := os.MkdirTemp("", "gov")
	if err != nil {
		return 2
	}
	defer os.RemoveAll(tmp)
	p, err := eng.Load(*repo, *spec)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	for _, d := range p.Dropped {
		fmt.Printf("note: specification %s dropped: %s\n", d.Name, d.Reason)
	}
	ms, only := 3000, ""
	if len(args) > 1 {
		ms, _ = strconv.Atoi(args[1])
	}
	if len(args) > 2 {
		only = args[2]
	}
	r := &runner{p: p, dir: tmp, prop: args[0]}
	r.build()
	for k, e := range r.errs {
		fmt.Println(k, e)
	}
	bad := 0
	for _, x := range r.run(ms, seedEnv(), nil, only) {
		fmt.Printf("%-30s %-7s runs=%d nontrivial=%d distinct=%d\n", x.Name, x.Kind, x.Runs, x.Nontrivial, x.Distinct)
		if x.Fail != "" {
			bad = 1
			fmt.Printf("  FAIL %s (iter %d)\n  args %s\n%s\n", x.Fail, x.Iter, tail(x.Args, 1500), tail(x.Stack, 3000))
		}
	}
	return bad
}
