package main

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"
)

// The check of one property: every function under contract for it is verified by a
// process of its own, callees and lemmas are added as they are used.

type job struct {
	key, cs string
	lemma   bool
	top     bool
}

func (j job) id() string {
	s := j.key
	if j.cs != "" {
		s += ":" + j.cs
	}
	if j.lemma {
		s = "lemma " + s
	}
	return s
}

type checker struct {
	prop    string
	tier    string
	repo    string
	spec    *Spec
	base    string // /verif
	out     string
	self    string
	limit   time.Time
	workers int
	demoted map[string]bool
	results map[string]*FnResult
	mu      sync.Mutex
	n       int
}

func hasProp(ps []string, p string) bool {
	for _, x := range ps {
		if x == p {
			return true
		}
	}
	return false
}

func oneMain(args []string) {
	// one OUT PROP DEMOTED KEY CASE|-lemma TIER
	out, prop, dem, key, cs, tier := args[0], args[1], args[2], args[3], args[4], args[5]
	v := LoadProgram(envOr("GOCV_REPO", "/repo"), envOr("GOCV_CONTRACTS", "/verif/contracts"))
	v.prop = prop
	v.spec.prune(prop)
	v.outDir = filepath.Dir(out)
	for _, d := range strings.Split(dem, ",") {
		if d != "" {
			v.demoted[d] = true
		}
	}
	if tier == "thorough" {
		v.quickMs = 8000
		v.portSecs = 60 * time.Second
		v.fnDeadline = 700 * time.Second
	}
	if s := os.Getenv("GOCV_DEADLINE"); s != "" {
		n, _ := strconv.Atoi(s)
		if d := time.Duration(n) * time.Second; d < v.fnDeadline {
			v.fnDeadline = d
		}
	}
	var r *FnResult
	if cs == "-lemma" {
		if v.spec.Lemmas[key] == nil {
			r = &FnResult{Key: key, Lemma: true, Err: "unknown lemma"}
		} else {
			r = v.VerifyLemma(key)
		}
	} else {
		var con *Contract
		for _, c := range v.spec.Contracts[key] {
			if c.Case == cs {
				con = c
			}
		}
		r = v.VerifyFn(key, con)
	}
	writeJSON(out, r)
}

func (c *checker) run(j job) *FnResult {
	c.mu.Lock()
	c.n++
	f := filepath.Join(c.out, fmt.Sprintf("f%03d", c.n), "result.json")
	dem := strings.Join(keysOf(c.demoted), ",")
	c.mu.Unlock()
	os.MkdirAll(filepath.Dir(f), 0o755)
	left := time.Until(c.limit)
	if left < 5*time.Second {
		return &FnResult{Key: j.key, Case: j.cs, Lemma: j.lemma, Err: "time limit of the check"}
	}
	cs := j.cs
	if j.lemma {
		cs = "-lemma"
	}
	ctx, cancel := context.WithTimeout(context.Background(), left)
	defer cancel()
	cmd := exec.CommandContext(ctx, c.self, "one", f, c.prop, dem, j.key, cs, c.tier)
	cmd.Env = append(os.Environ(), "GOMAXPROCS=2", "GOMEMLIMIT=3GiB", fmt.Sprintf("GOCV_DEADLINE=%d", int(left.Seconds())-10))
	cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true}
	cmd.Cancel = func() error { return syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL) }
	o, err := cmd.CombinedOutput()
	b, rerr := os.ReadFile(f)
	r := &FnResult{}
	if rerr != nil || json.Unmarshal(b, r) != nil {
		return &FnResult{Key: j.key, Case: j.cs, Lemma: j.lemma, Err: fmt.Sprintf("the verifier gave no result: %v %s", err, tail(string(o), 1500))}
	}
	return r
}

func tail(s string, n int) string {
	if len(s) > n {
		return "..." + s[len(s)-n:]
	}
	return s
}

func (r *FnResult) failed() []*Obl {
	var out []*Obl
	for _, o := range r.Obls {
		if o.Status != "proved" {
			out = append(out, o)
		}
	}
	return out
}

func (r *FnResult) ok() bool { return r.Err == "" && r.Vacuous == "" && len(r.failed()) == 0 }

// runAll verifies the jobs and all helpers and lemmas they need.
func (c *checker) runAll(jobs []job) {
	seen := map[string]bool{}
	sem := make(chan struct{}, c.workers)
	var wg sync.WaitGroup
	var add func(j job)
	add = func(j job) {
		if seen[j.id()] || c.results[j.id()] != nil {
			return
		}
		seen[j.id()] = true
		wg.Add(1)
		go func() {
			defer wg.Done()
			sem <- struct{}{}
			t0 := time.Now()
			r := c.run(j)
			<-sem
			st := "ok"
			if !r.ok() {
				st = fmt.Sprintf("FAILED (%d obligations) %s %s", len(r.failed()), tail(r.Err, 300), r.Vacuous)
			}
			fmt.Printf("  %-50s %4d obligations %5.1fs %s\n", j.id(), len(r.Obls)+r.Trivial, time.Since(t0).Seconds(), st)
			c.mu.Lock()
			defer c.mu.Unlock()
			c.results[j.id()] = r
			for _, k := range r.Needs {
				for _, con := range c.spec.Contracts[k] {
					if !con.Extern {
						add(job{key: k, cs: con.Case, top: hasProp(con.Props, c.prop)})
					}
				}
			}
			for _, l := range r.Lemmas {
				add(job{key: l, lemma: true})
			}
		}()
	}
	c.mu.Lock()
	for _, j := range jobs {
		add(j)
	}
	c.mu.Unlock()
	wg.Wait()
}

func checkMain(args []string) {
	c := &checker{tier: "quick", repo: envOr("GOCV_REPO", "/repo"), base: envOr("GOCV_BASE", "/verif"), workers: 6, demoted: map[string]bool{}, results: map[string]*FnResult{}}
	for i := 0; i < len(args); i++ {
		switch args[i] {
		case "--prop":
			i++
			c.prop = args[i]
		case "--tier":
			i++
			c.tier = args[i]
		}
	}
	t0 := time.Now()
	c.limit = t0.Add(480 * time.Second)
	if c.tier == "thorough" {
		c.limit = t0.Add(700 * time.Second)
	}
	c.self, _ = os.Executable()
	c.spec = LoadSpecs(envOr("GOCV_CONTRACTS", c.base+"/contracts"))
	c.spec.prune(c.prop)
	c.out = filepath.Join(c.base, "out", c.prop)
	os.RemoveAll(c.out)
	os.MkdirAll(c.out, 0o755)
	fmt.Printf("check %s (%s)\n", c.prop, c.tier)

	var jobs []job
	for _, k := range contractKeys(c.spec) {
		for _, con := range c.spec.Contracts[k] {
			if !con.Extern && hasProp(con.Props, c.prop) {
				jobs = append(jobs, job{key: k, cs: con.Case, top: true})
			}
		}
	}
	for _, n := range lemmaKeys(c.spec) {
		if hasProp(c.spec.Lemmas[n].Props, c.prop) {
			jobs = append(jobs, job{key: n, lemma: true, top: true})
		}
	}
	if len(jobs) == 0 {
		fatal("no contract for %s", c.prop)
	}
	isTop := func(id string) bool {
		for _, j := range jobs {
			if j.id() == id {
				return true
			}
		}
		return false
	}
	for round := 0; round < 4; round++ {
		c.runAll(jobs)
		var bad []string
		for id, r := range c.results {
			if !r.ok() && !isTop(id) && !r.Lemma {
				bad = append(bad, r.Key)
			}
		}
		if len(bad) == 0 {
			break
		}
		again := false
		for _, k := range bad {
			if !c.demoted[k] {
				fmt.Printf("  the helper contract of %s does not hold; its body is used instead\n", k)
				c.demoted[k] = true
				again = true
			}
		}
		for id, r := range c.results {
			drop := c.demoted[r.Key] && !isTop(id)
			for _, u := range r.Used {
				if c.demoted[u] {
					drop = true
				}
			}
			if drop {
				delete(c.results, id)
			}
		}
		if !again {
			break
		}
	}
	// lemmas that fail are failures of whatever uses them
	var alarms []string
	type failure struct {
		Obligation string
		Text       string
		Pos        string
		Status     string
		Solver     string
		Query      string
	}
	var fails []failure
	known := c.knownFindings()
	nObl, nOk, nTriv := 0, 0, 0
	by := map[string]int{}
	var solver float64
	var fns, lemmas []map[string]any
	externs, inl, axioms, files := map[string]bool{}, map[string]bool{}, map[string]bool{}, map[string]bool{}
	knownHit := map[string]bool{}
	var models []string
	for _, id := range resKeys(c.results) {
		r := c.results[id]
		nObl += len(r.Obls) + r.Trivial
		nTriv += r.Trivial
		nOk += r.Trivial
		for _, o := range r.Obls {
			if o.Status == "proved" {
				nOk++
				by[o.By]++
				continue
			}
			name := fmt.Sprintf("%s|%s|%s", r.Key, o.Kind, o.Label)
			if k := known[name]; k != "" {
				knownHit[k] = true
				continue
			}
			alarms = append(alarms, name+" "+o.Pos)
			fails = append(fails, failure{name, o.Text, o.Pos, "not proved", o.Detail, o.File})
			if o.Model != "" {
				models = append(models, o.Model)
			}
		}
		if r.Err != "" {
			name := r.Key + "|unverified|"
			if r.Case != "" {
				name += r.Case
			}
			alarms = append(alarms, name)
			fails = append(fails, failure{name, r.Err, r.File, "the function could not be verified against its contract", "", ""})
		}
		if r.Vacuous != "" {
			alarms = append(alarms, r.Key+"|vacuity|")
			fails = append(fails, failure{r.Key + "|vacuity|", r.Vacuous, r.File, "the contract holds vacuously", "", ""})
		}
		solver += r.SolverS
		m := map[string]any{"name": id, "obligations": len(r.Obls) + r.Trivial, "secs": round2(r.Secs), "queries": r.Queries}
		if r.Lemma {
			lemmas = append(lemmas, m)
		} else {
			m["file"] = r.File
			m["paths"] = r.Paths
			if len(r.Loops) > 0 {
				m["loops"] = len(r.Loops)
			}
			if len(r.Used) > 0 {
				m["callee_contracts"] = r.Used
			}
			fns = append(fns, m)
			files[r.File] = true
		}
		for _, e := range r.Externs {
			externs[e] = true
		}
		for _, e := range r.Inlined {
			inl[e] = true
		}
		for _, e := range r.Axioms {
			axioms[e] = true
		}
	}
	// replay
	seed := 1
	if s := os.Getenv("VERIF_SEED"); s != "" {
		seed, _ = strconv.Atoi(s)
	}
	h := c.harness()
	witness, hlog := "", ""
	ranHarness := false
	var hstat map[string]any
	if h != nil && (len(alarms) > 0 || h.always || c.tier == "thorough") {
		ranHarness = true
		budget := 25
		if len(alarms) > 0 {
			budget = 60
		} else if c.tier == "thorough" {
			budget = 90
		}
		witness, hlog, hstat = c.replay(h, seed, budget, models)
	}
	trusted := []string{
		"gocv itself (/verif/gocv: SSA symbolic execution, contract language, loop invariant templates, SMT encoding) and golang.org/x/tools/go/ssa v0.52.0, go/types, the Go compiler",
		"SMT solvers z3 (two releases) and cvc5, each answer believed alone",
		"recursive specification functions are assumed well-founded",
	}
	for _, e := range keysOf(externs) {
		trusted = append(trusted, "external or intrinsic: "+e)
	}
	for _, e := range keysOf(axioms) {
		trusted = append(trusted, "axiom "+e)
	}
	assume := []string{
		"Go memory model: the verified functions run without interference except where a lock or channel contract says otherwise",
		"allocation succeeds, sizes and lengths stay below 2^60; goroutine stacks are unbounded except where the nesting obligation limits them",
		"machine integers are exact (wrap-around is modelled); floating point is uninterpreted",
		"GOARCH=amd64 sizes",
	}
	for _, n := range c.spec.Notes {
		if n.Prop == c.prop {
			assume = append(assume, n.Text)
		}
	}
	cov := map[string]any{
		"obligations":              nObl,
		"discharged":               nOk,
		"checker_cmd":              fmt.Sprintf("%s check --prop %s --tier %s", c.self, c.prop, c.tier),
		"trusted_base":             trusted,
		"discharged_by":            by,
		"discharged_by_simplifier": nTriv,
		"functions_under_contract": fns,
		"lemmas":                   lemmas,
		"inlined_functions":        keysOf(inl),
		"demoted_helper_contracts": keysOf(c.demoted),
		"files":                    keysOf(files),
		"solver_seconds":           round2(solver),
		"vacuity_guards":           "each precondition is checked satisfiable and each function must have a reachable return; a function without a body or without obligations fails the check",
		"failed_obligations":       fails,
	}
	if ranHarness {
		cov["replay_harness"] = hstat
	}
	viol := 0
	level := "proof"
	if len(alarms) > 0 || witness != "" {
		viol = 1
	}
	writeJSON(filepath.Join(c.base, "evidence", c.prop+".json"), map[string]any{
		"property": c.prop, "tier": c.tier, "seed": seed, "level": level, "coverage": cov, "assumptions": assume,
		"wall_s": round2(time.Since(t0).Seconds()), "violations": viol,
	})
	for _, k := range keysOf(knownHit) {
		fmt.Printf("KNOWN-FINDING: property=%s %s\n", c.prop, k)
	}
	fmt.Printf("%s: %d of %d obligations discharged, %d functions, %d lemmas, %.1fs solver, %.1fs\n", c.prop, nOk, nObl, len(fns), len(lemmas), solver, time.Since(t0).Seconds())
	if viol == 0 {
		os.Exit(0)
	}
	for _, a := range alarms {
		fmt.Println("  not discharged:", a)
	}
	rp := filepath.Join(c.base, "out", "replay", c.prop+".txt")
	os.MkdirAll(filepath.Dir(rp), 0o755)
	var b bytes.Buffer
	fmt.Fprintf(&b, "property %s\n\n", c.prop)
	if witness != "" {
		fmt.Fprintf(&b, "failing input (replayed against the real code):\n%s\n\n", witness)
	} else {
		fmt.Fprintf(&b, "no failing input found\n\n")
	}
	if h != nil {
		fmt.Fprintf(&b, "replay with: %s\n\n", h.cmdline(c))
	}
	for _, f := range fails {
		fmt.Fprintf(&b, "failed obligation %s\n  at %s\n  %s\n  %s\n", f.Obligation, f.Pos, f.Text, f.Status)
		if f.Solver != "" {
			fmt.Fprintf(&b, "  solvers: %s\n", strings.ReplaceAll(f.Solver, "\n", "\n    "))
		}
		if f.Query != "" {
			fmt.Fprintf(&b, "  query: %s\n", f.Query)
		}
	}
	for _, m := range models {
		fmt.Fprintf(&b, "\ncounterexample candidate:\n%s\n", m)
	}
	if hlog != "" {
		fmt.Fprintf(&b, "\nreplay output:\n%s\n", hlog)
	}
	os.WriteFile(rp, b.Bytes(), 0o644)
	if witness != "" {
		fmt.Println("witness:", tail(witness, 1000))
		fmt.Printf("VIOLATION property=%s replay=%s\n", c.prop, rp)
	} else {
		fmt.Printf("VIOLATION property=%s replay=%s no-failing-input-found\n", c.prop, rp)
	}
	os.Exit(1)
}

func round2(f float64) float64 { return float64(int(f*100+0.5)) / 100 }

func resKeys(m map[string]*FnResult) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

func contractKeys(s *Spec) []string {
	var out []string
	for k := range s.Contracts {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

func lemmaKeys(s *Spec) []string {
	var out []string
	for k := range s.Lemmas {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

// knownFindings: lines "known: property=C01 obligation=<name> <what fails>".
func (c *checker) knownFindings() map[string]string {
	out := map[string]string{}
	b, err := os.ReadFile(filepath.Join(c.base, "known_findings.txt"))
	if err != nil {
		return out
	}
	re := regexp.MustCompile(`^known: property=(\S+) obligation=(\S+) (.*)$`)
	for _, l := range strings.Split(string(b), "\n") {
		if m := re.FindStringSubmatch(l); m != nil && m[1] == c.prop {
			out[m[2]] = m[3]
		}
	}
	return out
}

// ---- replay harness ----

type harness struct {
	file   string
	pkg    string
	always bool
}

func (c *checker) harness() *harness {
	f := filepath.Join(c.base, "harness", c.prop+"_test.go")
	b, err := os.ReadFile(f)
	if err != nil {
		return nil
	}
	h := &harness{file: f}
	l := strings.SplitN(string(b), "\n", 2)[0]
	for _, w := range strings.Fields(l) {
		if strings.HasPrefix(w, "pkg=") {
			h.pkg = w[4:]
		}
		if w == "always" {
			h.always = true
		}
	}
	return h
}

func (h *harness) cmdline(c *checker) string {
	return fmt.Sprintf("cd %s && go test -vet=off -overlay %s -count=1 -v -run '^TestVerif%s$' %s", c.repo, filepath.Join(c.out, "overlay.json"), c.prop, h.pkg)
}

// replay runs the oracle of the property, written from its statement, against the real code.
func (c *checker) replay(h *harness, seed, budget int, models []string) (witness, log string, stat map[string]any) {
	rep := map[string]string{}
	dir := filepath.Join(c.repo, strings.TrimPrefix(h.pkg, "./"))
	rep[filepath.Join(dir, "verif_"+strings.ToLower(c.prop)+"_test.go")] = h.file
	sup, _ := os.ReadFile(filepath.Join(c.base, "harness", "support.go.txt"))
	pn := packageName(h.file)
	sf := filepath.Join(c.out, "support_test.go")
	os.WriteFile(sf, bytes.Replace(sup, []byte("package PKG"), []byte("package "+pn), 1), 0o644)
	rep[filepath.Join(dir, "verif_support_test.go")] = sf
	// the repository's own tests of the package are left out
	ms, _ := filepath.Glob(filepath.Join(dir, "*_test.go"))
	for _, m := range ms {
		if _, ok := rep[m]; !ok {
			rep[m] = ""
		}
	}
	of := filepath.Join(c.out, "overlay.json")
	writeJSON(of, map[string]any{"Replace": rep})
	mf := filepath.Join(c.out, "models.txt")
	os.WriteFile(mf, []byte(strings.Join(models, "\n")), 0o644)
	wf := filepath.Join(c.out, "witness.txt")
	os.Remove(wf)
	stf := filepath.Join(c.out, "stat.json")
	os.Remove(stf)
	ctx, cancel := context.WithTimeout(context.Background(), time.Duration(budget+90)*time.Second)
	defer cancel()
	args := []string{"test", "-vet=off", "-overlay", of, "-count=1", "-v", "-timeout", fmt.Sprintf("%ds", budget+40), "-run", "^TestVerif" + c.prop + "$", h.pkg}
	if c.prop == "C29" {
		args = append([]string{"test", "-race"}, args[1:]...)
	}
	cmd := exec.CommandContext(ctx, "go", args...)
	cmd.Dir = c.repo
	cmd.Env = append(os.Environ(), "VERIF_WITNESS="+wf, "VERIF_STAT="+stf, "VERIF_MODEL="+mf, fmt.Sprintf("VERIF_BUDGET=%d", budget), fmt.Sprintf("VERIF_SEED=%d", seed), "GOMEMLIMIT=8GiB", "GORACE=halt_on_error=1")
	cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true}
	cmd.Cancel = func() error { return syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL) }
	o, err := cmd.CombinedOutput()
	log = string(o)
	if len(log) > 8000 {
		log = log[:4000] + "\n...\n" + log[len(log)-4000:]
	}
	stat = map[string]any{}
	if b, e := os.ReadFile(stf); e == nil {
		json.Unmarshal(b, &stat)
	}
	stat["label"] = "bounded replay of the property's oracle on the real code; not counted as proof"
	b, _ := os.ReadFile(wf)
	switch {
	case err == nil:
		stat["result"] = "no violation"
	case bytes.HasPrefix(b, []byte("WITNESS")):
		witness = string(b)
	case len(b) > 0 && (strings.Contains(log, "panic:") || strings.Contains(log, "fatal error:") || strings.Contains(log, "DATA RACE")):
		// the case under way when the process died
		i := strings.Index(log, "panic:")
		if j := strings.Index(log, "fatal error:"); i < 0 || j >= 0 && j < i {
			i = j
		}
		if i < 0 {
			i = strings.Index(log, "DATA RACE")
		}
		witness = "WITNESS the code crashed or hung on: " + string(b) + "\n" + tail(log[i:min2(len(log), i+600)], 600)
	default:
		stat["result"] = "the harness did not run: " + tail(log, 600)
	}
	if witness != "" {
		stat["result"] = "violation"
	}
	return
}

func min2(a, b int) int {
	if a < b {
		return a
	}
	return b
}

func packageName(f string) string {
	b, _ := os.ReadFile(f)
	m := regexp.MustCompile(`(?m)^package (\w+)`).FindSubmatch(b)
	if m == nil {
		return "main"
	}
	return string(m[1])
}
