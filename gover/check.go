package main

import (
	"bufio"
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

type listed struct{ name, dir string }

// contractsOf lists the contracts of a property from the contract sources.
func contractsOf(verif, repo, prop string, dropped *[]string) []listed {
	ren := renames(verif, repo)
	rx := regexp.MustCompile(`(?m)^func (` + prop + `_\w+)\(`)
	var out []listed
	for _, d := range pkgDirs {
		fs, _ := filepath.Glob(filepath.Join(verif, "contracts", d.dir, "*.go"))
		sort.Strings(fs)
		for _, f := range fs {
			if !strings.Contains(filepath.Base(f), prop) {
				continue
			}
			b, _ := os.ReadFile(f)
			b = dropMissing([]byte(renameWords(string(b), ren[d.dir])), filepath.Join(repo, d.rel), adaptersFor(verif, repo, d.dir, d.rel, ren[d.dir]), dropped)
			for _, m := range rx.FindAllStringSubmatch(string(b), -1) {
				out = append(out, listed{m[1], d.dir})
			}
		}
	}
	return out
}

type failure struct {
	Contract   string `json:"contract"`
	Obligation string `json:"obligation"`
	Status     string `json:"status"`
	Detail     string `json:"detail,omitempty"`
	Cond       string `json:"condition,omitempty"`
	dir        string
	model      map[string]interface{}
}

type finding struct{ prop, obl, text string }

// knownFindings reads lines "finding: property=<id> obligation=<name> | <text>" ; "fixed:" lines suppress nothing.
func knownFindings(verif string) (out []finding) {
	f, err := os.Open(filepath.Join(verif, "known-findings.txt"))
	if err != nil {
		return nil
	}
	defer f.Close()
	rx := regexp.MustCompile(`^finding: property=(\S+) obligation=(.+?) \| (.*)$`)
	sc := bufio.NewScanner(f)
	for sc.Scan() {
		if m := rx.FindStringSubmatch(sc.Text()); m != nil {
			out = append(out, finding{m[1], m[2], m[3]})
		}
	}
	return
}

func goEnv() []string {
	return append(os.Environ(), "GOFLAGS=-mod=mod", "GOPROXY=off", "GOTOOLCHAIN=local", "GOSUMDB=off", "CGO_ENABLED=0", "GOWORK=off")
}

func check(args []string) int {
	if len(args) < 1 {
		fmt.Fprintln(os.Stderr, "usage: gover check PROPERTY [-repo DIR]")
		return 2
	}
	prop := args[0]
	verif, repo := "/verif", "/repo"
	if v := os.Getenv("VERIF_DIR"); v != "" {
		verif = v
	}
	if v := os.Getenv("VERIF_REPO"); v != "" {
		repo = v // development only: registered checks run against /repo
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	t0 := time.Now()
	var dropped []string
	cs := contractsOf(verif, repo, prop, &dropped)
	tmp, err := os.MkdirTemp("", "gover-"+prop+"-")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	defer os.RemoveAll(tmp)

	var fails []failure
	results := map[string]ContractResult{}
	loadErr := ""
	if len(cs) == 0 {
		loadErr = "no contracts found for " + prop
	} else {
		results, loadErr = runWorkers(verif, repo, prop, tier, tmp, cs)
	}
	if loadErr != "" {
		fails = append(fails, failure{Contract: prop, Obligation: prop + "/the repository loads with its contracts", Status: "error", Detail: loadErr})
	}
	total, done, queries, unknown := 0, 0, 0, 0
	var solverMs int64
	by := map[string]int{}
	fns, notes, loops := map[string]bool{}, map[string]bool{}, map[string]bool{}
	var perContract []interface{}
	for _, c := range cs {
		r, ok := results[c.name]
		if !ok {
			if loadErr == "" {
				fails = append(fails, failure{Contract: c.name, Obligation: c.name + "/contract was decided", Status: "error", Detail: "the verifier returned no result for this contract", dir: c.dir})
			}
			continue
		}
		bad := 0
		for _, o := range r.Obligations {
			total++
			if o.Status == "discharged" {
				done++
				by[o.By]++
				continue
			}
			if o.Status == "unknown" {
				unknown++
			}
			bad++
			fails = append(fails, failure{Contract: c.name, Obligation: o.Name, Status: o.Status, Detail: o.Detail, Cond: o.Cond, dir: c.dir, model: o.Model})
		}
		if r.Error != "" {
			fails = append(fails, failure{Contract: c.name, Obligation: c.name + "/within reach of the verifier", Status: "error", Detail: r.Error, dir: c.dir})
		} else if len(r.Obligations) == 0 {
			fails = append(fails, failure{Contract: c.name, Obligation: c.name + "/has obligations", Status: "vacuous", Detail: "no obligation was generated", dir: c.dir})
		}
		for _, u := range r.Unreached {
			if r.Error == "" {
				fails = append(fails, failure{Contract: c.name, Obligation: u, Status: "vacuous", Detail: "the marked point of the contract cannot be reached", dir: c.dir})
			}
		}
		queries += r.Queries
		solverMs += r.SolverMs
		for _, f := range r.Functions {
			fns[f] = true
		}
		for _, n := range r.Notes {
			notes[n] = true
		}
		for _, l := range r.Loops {
			loops[l] = true
		}
		perContract = append(perContract, jo{"contract": c.name, "obligations": len(r.Obligations), "undischarged": bad, "wall_ms": r.WallMs, "solver_ms": r.SolverMs, "lock_checks": r.LockChecks})
	}

	// findings recorded as known
	var open []failure
	known := map[string]string{}
	kf := knownFindings(verif)
	for _, f := range fails {
		hit := false
		for _, k := range kf {
			if k.prop == prop && k.obl == f.Obligation {
				known[k.obl] = k.text
				hit = true
			}
		}
		if !hit {
			open = append(open, f)
		}
	}
	for o, t := range known {
		fmt.Printf("KNOWN-FINDING: property=%s %s: %s\n", prop, o, t)
	}

	var sample map[string]interface{}
	var witness *replayResult
	var replayNote string
	cross := 120 * time.Second
	if s := os.Getenv("VERIF_CROSS_S"); s != "" {
		if n, err := strconv.Atoi(s); err == nil {
			cross = time.Duration(n) * time.Second
		}
	}
	if len(open) > 0 {
		witness, replayNote = replay(verif, repo, prop, tmp, seed, 30*time.Second, cs, open, false)
	} else if tier == "thorough" {
		// the same contracts executed on concrete inputs: a cross-check of verifier and specifications
		witness, replayNote = replay(verif, repo, prop, tmp, seed, cross, cs, nil, true)
		if witness != nil && len(witness.Failures) > 0 {
			w := witness.Failures[0]
			open = append(open, failure{Contract: w.Contract, Obligation: w.Contract + "/" + w.What, Status: "failed", Detail: "found by executing the contract"})
		}
		if witness != nil {
			sample = jo{"concrete_runs": witness.Runs, "concrete_valid": witness.Valid}
		}
	}

	if replayNote != "" {
		fmt.Fprintln(os.Stderr, "replay:", cutStr(replayNote, 1500))
	}
	cov := jo{
		"obligations":               total,
		"discharged":                done,
		"checker_cmd":               "/verif/bin/check " + prop,
		"trusted_base":              trustedBase(),
		"undecided":                 unknown,
		"discharged_by":             by,
		"solver_queries":            queries,
		"solver_seconds":            float64(solverMs) / 1000,
		"contracts":                 len(cs),
		"functions_under_contract":  keys(fns),
		"loops":                     keys(loops),
		"per_contract":              perContract,
		"library_models_and_bounds": keys(notes),
		"known_findings":            len(known),
		"contracts_dropped":         dropped,
	}
	if sample != nil {
		cov["concrete_cross_check"] = sample
	}
	ev := jo{
		"property": prop, "tier": tier, "seed": seed, "level": "proof",
		"coverage": cov, "assumptions": append(assumptions(), keys(notes)...),
		"wall_s": time.Since(t0).Seconds(), "violations": len(open),
	}
	os.MkdirAll(filepath.Join(verif, "evidence"), 0o755)
	b, _ := json.MarshalIndent(ev, "", " ")
	if err := os.WriteFile(filepath.Join(verif, "evidence", prop+".json"), append(b, '\n'), 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	if len(open) == 0 {
		fmt.Printf("%s: %d contracts, %d obligations, all discharged, %.1fs (solver %.1fs)\n", prop, len(cs), total, time.Since(t0).Seconds(), float64(solverMs)/1000)
		return 0
	}
	os.MkdirAll(filepath.Join(verif, "replays"), 0o755)
	path := filepath.Join(verif, "replays", prop+".json")
	type out struct {
		Property string         `json:"property"`
		Failed   []failure      `json:"failed_obligations"`
		Witness  []concreteFail `json:"failing_inputs"`
		Note     string         `json:"replay_note,omitempty"`
		Models   []interface{}  `json:"solver_models,omitempty"`
		Rerun    string         `json:"rerun"`
	}
	o := out{Property: prop, Failed: open, Note: replayNote, Rerun: "VERIF_SEED=" + strconv.Itoa(seed) + " /verif/bin/check " + prop}
	if len(o.Failed) > 40 {
		o.Failed = o.Failed[:40]
	}
	for _, f := range open {
		if f.model != nil && len(o.Models) < 5 {
			o.Models = append(o.Models, jo{"obligation": f.Obligation, "inputs": f.model})
		}
	}
	if witness != nil {
		o.Witness = witness.Failures
	}
	b, _ = json.MarshalIndent(o, "", " ")
	os.WriteFile(path, append(b, '\n'), 0o644)
	seen := map[string]bool{}
	for _, f := range open {
		if !seen[f.Obligation] && len(seen) < 12 {
			seen[f.Obligation] = true
			fmt.Printf("undischarged: %s (%s) %s\n", f.Obligation, f.Status, firstLine(f.Detail))
		}
	}
	tail := " no-failing-input-found"
	if len(o.Witness) > 0 {
		tail = ""
		w := o.Witness[0]
		fmt.Printf("failing input for %s: %s: %s\n", w.Contract, w.What, cutStr(strings.Join(w.Args, "; "), 400))
	}
	fmt.Printf("VIOLATION property=%s replay=%s%s\n", prop, path, tail)
	return 1
}

func firstLine(s string) string {
	if i := strings.IndexByte(s, '\n'); i >= 0 {
		s = s[:i]
	}
	return cutStr(s, 300)
}

func cutStr(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

func runWorkers(verif, repo, prop, tier, tmp string, cs []listed) (map[string]ContractResult, string) {
	n := runtime.NumCPU()
	if n > 8 {
		n = 8
	}
	if n > (len(cs)+1)/2 {
		n = (len(cs) + 1) / 2
	}
	if n < 1 {
		n = 1
	}
	groups := make([][]string, n)
	for i, c := range cs {
		groups[i%n] = append(groups[i%n], c.name)
	}
	self, _ := os.Executable()
	res := map[string]ContractResult{}
	loadErr := ""
	var mu sync.Mutex
	var wg sync.WaitGroup
	for i := range groups {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			out := filepath.Join(tmp, fmt.Sprintf("w%d.json", i))
			ctx, cancel := context.WithTimeout(context.Background(), workLimit(tier))
			defer cancel()
			a := []string{"work", "-prop", prop, "-verif", verif, "-repo", repo, "-only", strings.Join(groups[i], ","), "-out", out}
			if tier == "thorough" {
				a = append(a, "-cross", "-timeout", "1800s")
			}
			cmd := exec.CommandContext(ctx, self, a...)
			cmd.Env = append(goEnv(), "GOMAXPROCS=2")
			var eb bytes.Buffer
			cmd.Stderr = &eb
			err := cmd.Run()
			b, rerr := os.ReadFile(out)
			var wr WorkResult
			if rerr == nil {
				json.Unmarshal(b, &wr)
			}
			mu.Lock()
			defer mu.Unlock()
			if wr.LoadError != "" {
				loadErr = wr.LoadError
			} else if rerr != nil {
				loadErr = fmt.Sprintf("verifier process failed: %v %s", err, cutStr(eb.String(), 1500))
			}
			for _, c := range wr.Contracts {
				res[c.Name] = c
			}
		}(i)
	}
	wg.Wait()
	return res, loadErr
}

func workLimit(tier string) time.Duration {
	if tier == "thorough" {
		return 2 * time.Hour
	}
	return 700 * time.Second
}

func trustedBase() []string {
	return []string{
		"the gover verification-condition generator (/verif/gover): its semantics of go/ssa instructions, memory and loops",
		"golang.org/x/tools go/packages and go/ssa (SSA construction from the repository's source)",
		"SMT solvers z3-new 5.3.2, z3 4.8.12, cvc5 1.1.2 (an 'unsat' answer of one of them discharges an obligation)",
		"the contracts in /verif/contracts state the property",
		"models of library functions, listed under library_models_and_bounds",
	}
}

func assumptions() []string {
	return []string{
		"partial correctness: nothing is said about calls that do not return (C15 demands progress of its loops)",
		"machine integers are modelled exactly (two's complement bit-vectors); slice and string lengths are below 2^40",
		"input slices either share their backing array from its beginning or do not overlap; objects of different types never alias; no unsafe code (the repository uses none)",
		"exported package-level variables keep their initial value",
		"time.Now is monotone and otherwise arbitrary; timers and the scheduler may do anything",
		"loggers are non-nil and do not touch the state under contract",
	}
}

// ---- replay on the real code ----

type concreteFail struct {
	Contract string   `json:"contract"`
	What     string   `json:"what"`
	Source   string   `json:"source"`
	Args     []string `json:"args"`
}

type replayResult struct {
	Failures []concreteFail `json:"failures"`
	Runs     map[string]int `json:"runs"`
	Valid    map[string]int `json:"valid"`
	Note     string         `json:"note"`
}

type replaySpec struct {
	Seed      int64            `json:"seed"`
	BudgetMs  int64            `json:"budget_ms"`
	All       bool             `json:"all"`
	Contracts []replayContract `json:"contracts"`
	Harness   bool             `json:"harness"`
	Out       string           `json:"out"`
}

type replayContract struct {
	Name   string                   `json:"name"`
	Models []map[string]interface{} `json:"models"`
}

func replay(verif, repo, prop, tmp string, seed int, budget time.Duration, cs []listed, fails []failure, all bool) (*replayResult, string) {
	byDir := map[string]map[string]*replayContract{}
	add := func(dir, name string) *replayContract {
		if byDir[dir] == nil {
			byDir[dir] = map[string]*replayContract{}
		}
		if byDir[dir][name] == nil {
			byDir[dir][name] = &replayContract{Name: name}
		}
		return byDir[dir][name]
	}
	if all {
		for _, c := range cs {
			add(c.dir, c.name)
		}
	}
	for _, f := range fails {
		if f.dir == "" {
			for _, c := range cs {
				add(c.dir, c.name)
			}
			continue
		}
		rc := add(f.dir, f.Contract)
		if f.model != nil && len(rc.Models) < 20 {
			rc.Models = append(rc.Models, f.model)
		}
	}
	total := &replayResult{Runs: map[string]int{}, Valid: map[string]int{}}
	note := ""
	nd := len(byDir)
	for _, d := range pkgDirs {
		m := byDir[d.dir]
		if m == nil {
			continue
		}
		var rcs []replayContract
		for _, c := range cs {
			if r := m[c.name]; r != nil && c.dir == d.dir {
				rcs = append(rcs, *r)
			}
		}
		r, n := replayPkg(verif, repo, prop, d.dir, d.rel, tmp, seed, budget/time.Duration(nd), cs, rcs)
		note += n
		if r != nil {
			total.Failures = append(total.Failures, r.Failures...)
			for k, v := range r.Runs {
				total.Runs[k] += v
			}
			for k, v := range r.Valid {
				total.Valid[k] += v
			}
		}
	}
	return total, note
}

func replayPkg(verif, repo, prop, dir, rel, tmp string, seed int, budget time.Duration, cs []listed, rcs []replayContract) (*replayResult, string) {
	ov, _, err := overlayFor(verif, repo, prop)
	if err != nil {
		return nil, err.Error()
	}
	ren := renames(verif, repo)[dir]
	sd := filepath.Join(tmp, "replay-"+dir)
	os.MkdirAll(sd, 0o755)
	rep := map[string]string{}
	k := 0
	put := func(target string, b []byte) {
		k++
		p := filepath.Join(sd, fmt.Sprintf("f%d.go", k))
		os.WriteFile(p, b, 0o644)
		rep[target] = p
	}
	for t, b := range ov {
		put(t, b)
	}
	tmpl, err := os.ReadFile(filepath.Join(verif, "contracts", "replay.go.txt"))
	if err != nil {
		return nil, err.Error()
	}
	var tab strings.Builder
	for _, c := range cs {
		if c.dir == dir {
			fmt.Fprintf(&tab, "\t%q: %s,\n", c.name, c.name)
		}
	}
	var hs strings.Builder
	hrx := regexp.MustCompile(`(?m)^func (H_\w+)\(`)
	gen := false
	fs, _ := filepath.Glob(filepath.Join(verif, "replay", dir, "*.go"))
	for _, f := range fs {
		base := filepath.Base(f)
		if !strings.HasPrefix(base, "gen") && !strings.Contains(base, prop) {
			continue
		}
		b, _ := os.ReadFile(f)
		b = adaptersFor(verif, repo, dir, rel, ren).apply([]byte(renameWords(string(b), ren)))
		put(filepath.Join(repo, rel, "zz_verif_"+strings.TrimSuffix(base, ".go")+"_test.go"), b)
		for _, m := range hrx.FindAllStringSubmatch(string(b), -1) {
			fmt.Fprintf(&hs, "\t%q: %s,\n", m[1], m[1])
		}
		if strings.HasPrefix(base, "gen") {
			gen = true
		}
	}
	src := strings.Replace(string(tmpl), "package PKG", "package "+dir, 1)
	src = strings.Replace(src, "//CONTRACTS", tab.String(), 1)
	src = strings.Replace(src, "//HARNESSES", hs.String(), 1)
	if !gen {
		src += "\nfunc vGenHook(g *vGen, t reflect.Type) (reflect.Value, bool) { return reflect.Value{}, false }\n"
	}
	put(filepath.Join(repo, rel, "zz_verif_replay_test.go"), []byte(src))
	ovf := filepath.Join(sd, "overlay.json")
	b, _ := json.Marshal(map[string]interface{}{"Replace": rep})
	os.WriteFile(ovf, b, 0o644)
	spec := replaySpec{Seed: int64(seed), BudgetMs: budget.Milliseconds(), Contracts: rcs, Out: filepath.Join(sd, "out.json")}
	b, _ = json.Marshal(spec)
	sf := filepath.Join(sd, "spec.json")
	os.WriteFile(sf, b, 0o644)
	ctx, cancel := context.WithTimeout(context.Background(), budget+60*time.Second)
	defer cancel()
	args := []string{"test", "-vet=off"}
	race := prop == "C19" // its witnesses are data races
	if race {
		args = append(args, "-race")
	}
	cmd := exec.CommandContext(ctx, "go", append(args, "-count=1", "-overlay", ovf, "-run", "^TestVerifReplay$", "-timeout", "600s", "./"+rel)...)
	cmd.Dir = repo
	cmd.Env = append(goEnv(), "VERIF_REPLAY="+sf)
	if race {
		cmd.Env = append(cmd.Env, "CGO_ENABLED=1")
	}
	outb, rerr := cmd.CombinedOutput()
	if i := strings.Index(string(outb), "WARNING: DATA RACE"); race && i >= 0 {
		cur, _ := os.ReadFile(spec.Out + ".current")
		return &replayResult{Failures: []concreteFail{{Contract: prop, What: "data race found by the race detector", Source: "replay", Args: []string{cutStr(string(cur), 500), cutStr(string(outb)[i:], 4000)}}}}, ""
	}
	rb, err := os.ReadFile(spec.Out)
	if err != nil {
		txt := string(outb)
		if rerr != nil && strings.Contains(txt, "panic:") && !strings.Contains(txt, "[build failed]") {
			// a crash outside the goroutine running the contract is itself a failing execution
			cur, _ := os.ReadFile(spec.Out + ".current")
			return &replayResult{Failures: []concreteFail{{Contract: prop, What: "crash of a background task: " + grepPanic(txt), Source: "replay", Args: []string{cutStr(string(cur), 4000)}}}}, ""
		}
		return nil, fmt.Sprintf("replay in %s did not run: %v: %s\n", dir, rerr, cutStr(txt, 1500))
	}
	var r replayResult
	json.Unmarshal(rb, &r)
	return &r, r.Note
}

func grepPanic(s string) string {
	for _, l := range strings.Split(s, "\n") {
		if strings.Contains(l, "panic:") {
			return cutStr(l, 300)
		}
	}
	return ""
}
