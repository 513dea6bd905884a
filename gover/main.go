package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"go/constant"
	"go/types"
	"os"
	"path/filepath"
	"regexp"
	"runtime/debug"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const modPath = "github.com/jsimonetti/go-artnet"

// pkgDirs maps contract directories to repository packages.
var pkgDirs = []struct{ dir, pkg, rel string }{
	{"version", modPath + "/version", "version"},
	{"code", modPath + "/packet/code", "packet/code"},
	{"packet", modPath + "/packet", "packet"},
	{"artnet", modPath, "."},
}

type OblResult struct {
	Name   string                 `json:"name"`
	Status string                 `json:"status"`
	By     string                 `json:"by,omitempty"`
	Ms     int64                  `json:"ms"`
	Detail string                 `json:"detail,omitempty"`
	Cond   string                 `json:"cond,omitempty"`
	Model  map[string]interface{} `json:"model,omitempty"`
}

type ContractResult struct {
	Name        string      `json:"name"`
	Pkg         string      `json:"pkg"`
	Obligations []OblResult `json:"obligations"`
	Error       string      `json:"error,omitempty"`
	Functions   []string    `json:"functions"`
	Notes       []string    `json:"notes"`
	Loops       []string    `json:"loops"`
	Unreached   []string    `json:"unreached,omitempty"`
	SolverMs    int64       `json:"solver_ms"`
	Queries     int         `json:"queries"`
	WallMs      int64       `json:"wall_ms"`
	LockChecks  int         `json:"lock_checks,omitempty"`
}

type WorkResult struct {
	LoadError string           `json:"load_error,omitempty"`
	Contracts []ContractResult `json:"contracts"`
}

var droppedContracts []string

// overlayFor builds the overlay: prelude and the contract files of one property.
func overlayFor(verif, repo, prop string) (map[string][]byte, map[string]bool, error) {
	ov := map[string][]byte{}
	files := map[string]bool{}
	pre, err := os.ReadFile(filepath.Join(verif, "contracts", "prelude.go.txt"))
	if err != nil {
		return nil, nil, err
	}
	ren := renames(verif, repo)
	for _, d := range pkgDirs {
		dir := filepath.Join(verif, "contracts", d.dir)
		ads := adaptersFor(verif, repo, d.dir, d.rel, ren[d.dir])
		ents, _ := os.ReadDir(dir)
		n := 0
		for _, en := range ents {
			name := en.Name()
			if !strings.HasSuffix(name, ".go") {
				continue
			}
			if !strings.HasPrefix(name, "v_") && !strings.Contains(name, prop) {
				continue
			}
			if strings.HasPrefix(name, "v_") && len(strings.Split(name, "_")) > 2 && !strings.Contains(name, prop) {
				continue // v_C13_C14_x.go is shared by the named properties only
			}
			b, err := os.ReadFile(filepath.Join(dir, name))
			if err != nil {
				return nil, nil, err
			}
			p := filepath.Join(repo, d.rel, "zz_verif_"+name)
			ov[p] = ads.apply(dropMissing([]byte(renameWords(string(b), ren[d.dir])), filepath.Join(repo, d.rel), ads, &droppedContracts))
			files[p] = true
			n++
		}
		if n > 0 && ads.code != nil {
			ov[filepath.Join(repo, d.rel, "zz_verif_adapters.go")] = ads.code
		}
		if n > 0 {
			p := filepath.Join(repo, d.rel, "zz_verif_prelude.go")
			pkgName := d.dir
			if d.dir == "artnet" {
				pkgName = "artnet"
			}
			ov[p] = []byte(strings.Replace(string(pre), "package PKG", "package "+pkgName, 1))
			files[p] = true
		}
	}
	return ov, files, nil
}

func main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: gover work|check ...")
		os.Exit(2)
	}
	debug.SetGCPercent(300)
	switch os.Args[1] {
	case "work":
		work(os.Args[2:])
	case "names":
		writeNames(os.Args[2])
	case "check":
		os.Exit(check(os.Args[2:]))
	default:
		fmt.Fprintln(os.Stderr, "unknown command")
		os.Exit(2)
	}
}

func work(args []string) {
	fl := flag.NewFlagSet("work", flag.ExitOnError)
	prop := fl.String("prop", "", "")
	verif := fl.String("verif", "/verif", "")
	repo := fl.String("repo", "/repo", "")
	only := fl.String("only", "", "comma separated contract names")
	re := fl.String("run", "", "regexp of contract names")
	out := fl.String("out", "", "")
	verbose := fl.Bool("v", false, "")
	cross := fl.Bool("cross", false, "cross-check discharged obligations with a second solver")
	tmo := fl.Duration("timeout", 400*time.Second, "per contract")
	fl.Parse(args)
	res := WorkResult{}
	defer func() {
		b, _ := json.MarshalIndent(res, "", " ")
		if *out != "" {
			os.WriteFile(*out, b, 0o644)
		}
	}()
	e, cs, err := load(*verif, *repo, *prop)
	if err != nil {
		res.LoadError = err.Error()
		if *verbose {
			fmt.Fprintln(os.Stderr, err)
		}
		return
	}
	crossCheck = *cross
	sel := map[string]bool{}
	for _, n := range strings.Split(*only, ",") {
		if n != "" {
			sel[n] = true
		}
	}
	rx := regexp.MustCompile(*re)
	for _, c := range cs {
		if len(sel) > 0 && !sel[c.Name] {
			continue
		}
		if !rx.MatchString(c.Name) {
			continue
		}
		r := e.verify(c, *tmo, *verbose)
		res.Contracts = append(res.Contracts, r)
		if *verbose {
			bad := 0
			for _, o := range r.Obligations {
				if o.Status != "discharged" {
					bad++
				}
			}
			fmt.Fprintf(os.Stderr, "%-40s obligations %d undischarged %d error %q wall %dms solver %dms queries %d unreached %v\n", r.Name, len(r.Obligations), bad, r.Error, r.WallMs, r.SolverMs, r.Queries, r.Unreached)
		}
	}
}

type engine struct {
	prog      *ssa.Program
	specFiles map[string]bool
	repoPkgs  map[string]bool
	base      *State
	proto     *Exec
}

func load(verif, repo, prop string) (*engine, []*Contract, error) {
	ov, files, err := overlayFor(verif, repo, prop)
	if err != nil {
		return nil, nil, err
	}
	cfg := &packages.Config{Mode: packages.LoadAllSyntax, Dir: repo, Overlay: ov,
		Env: append(os.Environ(), "GOFLAGS=-mod=mod", "GOPROXY=off", "GOTOOLCHAIN=local", "GOSUMDB=off", "CGO_ENABLED=0", "GOWORK=off")}
	var pats []string
	for _, d := range pkgDirs {
		pats = append(pats, d.pkg)
	}
	pkgs, err := packages.Load(cfg, pats...)
	if err != nil {
		return nil, nil, err
	}
	var errs []string
	packages.Visit(pkgs, nil, func(p *packages.Package) {
		if strings.HasPrefix(p.PkgPath, modPath) {
			for _, x := range p.Errors {
				errs = append(errs, x.Error())
			}
		}
	})
	if len(errs) > 0 {
		return nil, nil, fmt.Errorf("repository with contracts does not type-check: %s", strings.Join(errs, "; "))
	}
	prog, _ := ssautil.AllPackages(pkgs, ssa.InstantiateGenerics)
	prog.Build()
	en := &engine{prog: prog, specFiles: files, repoPkgs: map[string]bool{}}
	for _, d := range pkgDirs {
		en.repoPkgs[d.pkg] = true
	}
	var cs []*Contract
	rx := regexp.MustCompile("^" + prop + "_")
	for _, p := range prog.AllPackages() {
		if !en.repoPkgs[p.Pkg.Path()] {
			continue
		}
		for name, m := range p.Members {
			f, ok := m.(*ssa.Function)
			if !ok || !rx.MatchString(name) {
				continue
			}
			if !files[prog.Fset.Position(f.Pos()).Filename] {
				continue
			}
			cs = append(cs, &Contract{Name: name, Prop: prop, Fn: f})
		}
	}
	sort.Slice(cs, func(i, j int) bool { return cs[i].Name < cs[j].Name })
	if err := en.initPackages(); err != nil {
		return nil, nil, err
	}
	return en, cs, nil
}

func (en *engine) newExec() *Exec {
	e := &Exec{prog: en.prog, dynTags: map[string]uint64{}, fnRefs: map[string]uint64{}, fnByRef: map[uint64]FnAlt{},
		globals: map[*ssa.Global]*Loc{}, lazyObjs: map[int]*Obj{}, notes: map[string]bool{}, covered: map[string]bool{},
		implMemo: map[string][]types.Type{}, repoPkgs: en.repoPkgs, cut: map[*ssa.BasicBlock]bool{}, stubs: map[*ssa.Function]Val{},
		pcache: map[string]string{}, ipd: map[*ssa.Function]map[*ssa.BasicBlock]*ssa.BasicBlock{},
		loops: map[*ssa.Function]map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool{}, specFiles: en.specFiles,
		stubByName: map[string]Val{}, record: map[string]bool{}, reach: map[string]bool{}, loopLim: map[*ssa.BasicBlock]int{}}
	e.deadline = time.Now().Add(time.Hour)
	e.oblTimeout = 20 * time.Second
	e.solver = NewSolver("z3-new", "-in", "-smt2")
	return e
}

// initPackages executes the package initialisers of the repository.
func (en *engine) initPackages() (err error) {
	e := en.newExec()
	defer e.solver.Close()
	defer func() {
		if x := recover(); x != nil {
			if u, ok := x.(unsupportedErr); ok {
				err = fmt.Errorf("package initialisation: %s", u.what)
				return
			}
			panic(x)
		}
	}()
	st := &State{objs: map[int]*Obj{}, leaves: map[string]*Leaf{}}
	st.now = SymB("now0", 64, timeUB)
	st.addFact(ULe(BV(64, 1<<60), st.now))
	for _, d := range pkgDirs {
		p := en.prog.ImportedPackage(d.pkg)
		if p == nil {
			return fmt.Errorf("package %s missing", d.pkg)
		}
		e.quiet++
		e.specMode++
		e.curName = "init"
		outs := e.callFn(st, p.Func("init"), nil, nil, 0, false)
		e.specMode--
		e.quiet--
		if len(outs) != 1 {
			return fmt.Errorf("initialiser of %s has %d outcomes", d.pkg, len(outs))
		}
		st = outs[0].st
	}
	en.base = st
	en.proto = e
	return nil
}

func (en *engine) verify(c *Contract, tmo time.Duration, verbose bool) (r ContractResult) {
	e := en.newExec()
	defer e.solver.Close()
	// share what initialisation established
	for k, v := range en.proto.globals {
		e.globals[k] = v
	}
	for k, v := range en.proto.lazyObjs {
		e.lazyObjs[k] = v
	}
	for k, v := range en.proto.fnRefs {
		e.fnRefs[k] = v
	}
	for k, v := range en.proto.fnByRef {
		e.fnByRef[k] = v
	}
	for k, v := range en.proto.dynTags {
		e.dynTags[k] = v
	}
	e.contract = c
	e.curName = c.Name
	staticReach(c.Fn, e.reach, c.Name)
	e.verbose = verbose
	e.deadline = time.Now().Add(tmo)
	r.Name = c.Name
	r.Pkg = c.Fn.Pkg.Pkg.Path()
	t0 := time.Now()
	func() {
		defer func() {
			if x := recover(); x != nil {
				switch y := x.(type) {
				case unsupportedErr:
					r.Error = y.what
				default:
					r.Error = fmt.Sprintf("internal: %v", x)
					if verbose {
						debug.PrintStack()
					}
				}
			}
		}()
		st := en.base.clone()
		var args []Val
		for _, p := range c.Fn.Params {
			v := e.freshVal(p.Type(), "in_"+p.Name(), inputBase)
			args = append(args, v)
			e.inputs = append(e.inputs, inputVar{p.Name(), p.Type(), v})
		}
		e.st0 = st.clone()
		e.windowObj = objCtr
		e.callFn(st, c.Fn, args, nil, 0, true)
	}()
	r.WallMs = time.Since(t0).Milliseconds()
	r.SolverMs = e.solver.time.Milliseconds()
	r.Queries = e.solver.queries
	if e.qf != nil && e.qf != e.solver {
		r.SolverMs += e.qf.time.Milliseconds()
		r.Queries += e.qf.queries
	}
	r.LockChecks = e.lockOK
	for _, o := range e.obls {
		or := OblResult{Name: o.Name, Status: o.Status, By: o.By, Ms: o.Time.Milliseconds(), Detail: o.Detail, Model: o.Model}
		if o.Status != "discharged" {
			or.Cond = o.Cond.String()
			if len(or.Cond) > 2000 {
				or.Cond = or.Cond[:2000] + "..."
			}
		}
		r.Obligations = append(r.Obligations, or)
	}
	r.Functions = keys(e.covered)
	r.Notes = keys(e.notes)
	r.Loops = e.loopInfo
	for n, ok := range e.reach {
		if !ok {
			r.Unreached = append(r.Unreached, n)
		}
	}
	sort.Strings(r.Unreached)
	return
}

func keys(m map[string]bool) []string {
	var r []string
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}

// staticReach notes the points that the contract and its closures mark with vReach: all of them have to be reached.
func staticReach(fn *ssa.Function, reach map[string]bool, contract string) {
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			call, ok := in.(*ssa.Call)
			if !ok {
				continue
			}
			f := call.Call.StaticCallee()
			if f == nil || f.Name() != "vReach" || len(call.Call.Args) != 1 {
				continue
			}
			if k, ok := call.Call.Args[0].(*ssa.Const); ok && k.Value != nil && k.Value.Kind() == constant.String {
				reach[contract+"/reachable:"+constant.StringVal(k.Value)] = false
			}
		}
	}
	for _, a := range fn.AnonFuncs {
		staticReach(a, reach, contract)
	}
}
