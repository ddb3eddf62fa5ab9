// svcheck decides a property of /repo by symbolic execution of its Go code: the
// SSA form of the real packages is executed with solver variables as inputs.
package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/constant"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const (
	hmod   = "github.com/woven-planet/go-zserio/zzverif"
	goroot = "/opt/veriftools/go1.24.13"
)

type config struct {
	prop, tier, repo, verif string
	only                    string
	keep                    bool
	seed                    int64
	paths                   int
	budget                  time.Duration
	workers                 int
	noSimp, noMerge         bool
	replay                  string
}

type driver struct {
	config
	dir      string
	env      []string
	known    map[string]string // harness/label -> description
	fset     *token.FileSet
	hnames   []string
	schemas  []string
	runner   string
	thorough bool
	t0       time.Time
	phase    map[string]float64
	genFail  string
	notes    []string
}

func fatalf(f string, a ...any) {
	fmt.Printf("ERROR "+f+"\n", a...)
	panic(exitCode(2))
}

type exitCode int

func main() {
	d := &driver{phase: map[string]float64{}, t0: time.Now()}
	flag.StringVar(&d.prop, "prop", "", "property id")
	flag.StringVar(&d.tier, "tier", "quick", "quick or thorough")
	flag.StringVar(&d.repo, "repo", "/repo", "tree under test")
	flag.StringVar(&d.verif, "verif", "/verif", "framework")
	flag.StringVar(&d.only, "only", "", "regexp of harness names")
	flag.BoolVar(&d.keep, "keep", false, "keep the scratch directory")
	flag.IntVar(&d.paths, "paths", 0, "path limit for each harness")
	flag.DurationVar(&d.budget, "budget", 0, "exploration time limit")
	flag.IntVar(&d.workers, "workers", 8, "parallel workers")
	flag.BoolVar(&d.noSimp, "nosimp", false, "send unsimplified terms to the solver")
	flag.BoolVar(&d.noMerge, "nomerge", false, "never merge paths")
	flag.StringVar(&d.replay, "replay", "", "replay file to run natively")
	flag.Parse()
	d.seed, _ = strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	if d.seed == 0 {
		d.seed = 1
	}
	d.thorough = d.tier == "thorough"
	code := 0
	func() {
		defer func() {
			if d.dir != "" && !d.keep {
				os.RemoveAll(d.dir)
			}
			if r := recover(); r != nil {
				c, ok := r.(exitCode)
				if !ok {
					panic(r)
				}
				code = int(c)
			}
		}()
		code = d.run()
	}()
	os.Exit(code)
}

func (d *driver) mark(name string, t time.Time) { d.phase[name] = time.Since(t).Seconds() }

func (d *driver) cmd(timeout time.Duration, dir string, stdout io.Writer, argv ...string) (string, error) {
	c := exec.Command(argv[0], argv[1:]...)
	c.Dir = dir
	c.Env = d.env
	var errb bytes.Buffer
	c.Stderr = &errb
	if stdout == nil {
		stdout = &errb
	}
	c.Stdout = stdout
	if err := c.Start(); err != nil {
		return "", err
	}
	t := time.AfterFunc(timeout, func() { c.Process.Kill() })
	err := c.Wait()
	if !t.Stop() {
		err = fmt.Errorf("timeout after %v", timeout)
	}
	return errb.String(), err
}

func (d *driver) run() int {
	d.loadKnown()
	hdir := filepath.Join(d.verif, "harness", strings.ToLower(d.prop))
	d.scan(hdir)
	if len(d.hnames) == 0 {
		fatalf("no harness for %s in %s", d.prop, hdir)
	}
	d.setup()
	if d.genFail != "" {
		return d.report(nil, nil, nil)
	}
	var wg sync.WaitGroup
	var berr error
	wg.Add(1)
	go func() {
		defer wg.Done()
		t := time.Now()
		berr = d.buildRunner(false)
		d.mark("build native replay", t)
	}()
	if d.replay != "" {
		wg.Wait()
		return d.replayFile()
	}
	eng, hs := d.load()
	if d.genFail != "" {
		wg.Wait()
		return d.report(nil, nil, nil)
	}
	wg.Wait()
	if berr != nil {
		fatalf("native build: %v", berr)
	}
	t := time.Now()
	eng.deadline, eng.enough = t.Add(d.budget), t.Add(min(d.budget, 200*time.Second))
	eng.Run(hs, d.workers)
	d.mark("symbolic execution", t)
	return d.report(eng, hs, nil)
}

// ---- known findings ----

var knownRe = regexp.MustCompile(`^known: property=(\S+) harness=(\S+) label=(\S+) (.*)$`)

func (d *driver) loadKnown() {
	d.known = map[string]string{}
	b, err := os.ReadFile(filepath.Join(d.verif, "known_findings.txt"))
	if err != nil {
		return
	}
	for _, l := range strings.Split(string(b), "\n") {
		if m := knownRe.FindStringSubmatch(l); m != nil && m[1] == d.prop {
			d.known[m[2]+"/"+m[3]] = m[4]
		}
	}
}

func (e *Engine) isKnown(harness, label string) bool {
	_, ok := e.known[harness+"/"+labelKey(label)]
	return ok
}

func labelKey(l string) string { return strings.ReplaceAll(l, " ", "_") }

// ---- harness discovery ----

// scan finds the harness functions and the generated packages they import.
func (d *driver) scan(hdir string) {
	fset := token.NewFileSet()
	seen := map[string]bool{}
	schema := map[string]bool{}
	var visit func(dir string, top bool)
	visit = func(dir string, top bool) {
		if seen[dir] {
			return
		}
		seen[dir] = true
		files, _ := filepath.Glob(filepath.Join(dir, "*.go"))
		for _, f := range files {
			af, err := parser.ParseFile(fset, f, nil, parser.ParseComments)
			if err != nil {
				fatalf("%v", err)
			}
			for _, im := range af.Imports {
				p, _ := strconv.Unquote(im.Path.Value)
				if strings.HasPrefix(p, "gen/zs/") {
					schema[strings.Split(strings.TrimPrefix(p, "gen/zs/"), "/")[0]] = true
				}
				if strings.HasPrefix(p, hmod+"/") {
					visit(filepath.Join(d.verif, "harness", strings.TrimPrefix(p, hmod+"/")), false)
				}
			}
			if !top {
				continue
			}
			for _, dc := range af.Decls {
				fd, ok := dc.(*ast.FuncDecl)
				if !ok || fd.Recv != nil || fd.Type.Params.NumFields() != 0 {
					continue
				}
				n := fd.Name.Name
				if strings.HasPrefix(n, d.prop+"_") || d.thorough && strings.HasPrefix(n, d.prop+"T_") {
					d.hnames = append(d.hnames, n)
				}
			}
		}
	}
	visit(hdir, true)
	for s := range schema {
		d.schemas = append(d.schemas, s)
	}
	sort.Strings(d.schemas)
	sort.Strings(d.hnames)
}

func copyTree(src, dst string) error {
	return filepath.Walk(src, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		rel, _ := filepath.Rel(src, p)
		t := filepath.Join(dst, rel)
		if fi.IsDir() {
			return os.MkdirAll(t, 0o755)
		}
		b, err := os.ReadFile(p)
		if err != nil {
			return err
		}
		return os.WriteFile(t, b, 0o644)
	})
}

func must(err error) {
	if err != nil {
		fatalf("%v", err)
	}
}

// setup builds the generator from the tree under test and generates the Go code
// the harnesses use.
func (d *driver) setup() {
	var err error
	d.dir, err = os.MkdirTemp("", "svcheck-")
	must(err)
	gover := "1.24.4"
	if b, err := os.ReadFile(filepath.Join(d.repo, "go.mod")); err == nil {
		if m := regexp.MustCompile(`(?m)^go (\S+)`).FindSubmatch(b); m != nil {
			gover = string(m[1])
		}
	}
	for _, kv := range os.Environ() {
		if strings.HasPrefix(kv, "GO") || strings.HasPrefix(kv, "PATH=") || strings.HasPrefix(kv, "CGO") {
			continue
		}
		d.env = append(d.env, kv)
	}
	d.env = append(d.env, "PATH="+goroot+"/bin:"+os.Getenv("PATH"), "GOROOT="+goroot, "GOPATH=/root/go",
		"GOMODCACHE=/root/go/pkg/mod", "GOTOOLCHAIN=local", "GOPROXY=off", "GOFLAGS=", "CGO_ENABLED=0",
		"GOENV=off", "GOWORK="+d.dir+"/go.work", "GOSUMDB=off")
	must(copyTree(filepath.Join(d.verif, "harness"), d.dir+"/h"))
	must(copyTree(filepath.Join(d.verif, "sv"), d.dir+"/sv"))
	must(os.MkdirAll(d.dir+"/gen", 0o755))
	must(os.WriteFile(d.dir+"/gen/go.mod", []byte("module gen\n\ngo "+gover+"\n"), 0o644))
	must(os.WriteFile(d.dir+"/h/go.mod", []byte("module "+hmod+"\n\ngo "+gover+"\n"), 0o644))
	must(os.WriteFile(d.dir+"/go.work", []byte("go "+gover+"\n\nuse (\n\t"+d.repo+"\n\t./gen\n\t./h\n\t./sv\n)\n"), 0o644))
	t := time.Now()
	if len(d.schemas) > 0 {
		if out, err := d.cmd(10*time.Minute, d.repo, nil, goroot+"/bin/go", "build", "-o", d.dir+"/go-zserio", "./cmd/go-zserio"); err != nil {
			fatalf("build of go-zserio: %v\n%s", err, out)
		}
		d.mark("build go-zserio", t)
		t = time.Now()
		var wg sync.WaitGroup
		var mu sync.Mutex
		for _, s := range d.schemas {
			wg.Add(1)
			go func() {
				defer wg.Done()
				if msg := d.generate(s); msg != "" {
					mu.Lock()
					if d.genFail == "" {
						d.genFail = msg
					}
					mu.Unlock()
				}
			}()
		}
		wg.Wait()
		d.mark("generate", t)
	}
	// the native replay program
	var sb strings.Builder
	sb.WriteString("package main\n\nimport (\n\t\"verif/sv/svrun\"\n\th \"" + hmod + "/" + strings.ToLower(d.prop) + "\"\n)\n\nfunc main() {\n\tsvrun.Main(map[string]func(){\n")
	for _, n := range d.hnames {
		fmt.Fprintf(&sb, "\t\t%q: h.%s,\n", n, n)
	}
	sb.WriteString("\t})\n}\n")
	must(os.MkdirAll(d.dir+"/h/zzrun", 0o755))
	must(os.WriteFile(d.dir+"/h/zzrun/main.go", []byte(sb.String()), 0o644))
	if d.budget == 0 {
		d.budget = 690 * time.Second
		if d.thorough {
			d.budget = 720 * time.Second
		}
	}
	if d.paths == 0 {
		d.paths = 60000
		if d.thorough {
			d.paths = 1000000
		}
	}
}

// generate runs the generator of the tree on a schema of the corpus. The schemas
// are valid, so a failure is a defect.
func (d *driver) generate(name string) string {
	if src := filepath.Join(d.verif, "schemas", name); isDir(src) {
		// a schema of several packages
		msg, err := d.cmd(2*time.Minute, d.repo, nil, d.dir+"/go-zserio", "generate", "--out", d.dir+"/gen/zs", "--rootpackage", "gen/zs", src)
		if err != nil {
			return fmt.Sprintf("go-zserio generate fails on the valid schema %s: %v\n%s", src, err, tail(msg, 2000))
		}
		return ""
	}
	src := filepath.Join(d.verif, "schemas", name+".zs")
	args := []string{d.dir + "/go-zserio", "generate", "--out", "-", "--rootpackage", "gen/zs", "--only", name, "--sql", src}
	dir := d.dir + "/gen/zs/" + name
	must(os.MkdirAll(dir, 0o755))
	var out bytes.Buffer
	msg, err := d.cmd(2*time.Minute, d.repo, &out, args...)
	if err != nil {
		return fmt.Sprintf("go-zserio generate fails on the valid schema %s: %v\n%s", src, err, tail(msg, 2000))
	}
	must(os.WriteFile(dir+"/schema.zs.go", out.Bytes(), 0o644))
	return ""
}

func isDir(p string) bool {
	fi, err := os.Stat(p)
	return err == nil && fi.IsDir()
}

func tail(s string, n int) string {
	if len(s) > n {
		return s[:n]
	}
	return s
}

func (d *driver) buildRunner(race bool) error {
	args := []string{goroot + "/bin/go", "build"}
	out := d.dir + "/runner"
	env := d.env
	if race {
		out += "-race"
		args = append(args, "-race")
		d.env = append(append([]string{}, d.env...), "CGO_ENABLED=1")
	}
	args = append(args, "-o", out, "./zzrun")
	msg, err := d.cmd(10*time.Minute, d.dir+"/h", nil, args...)
	d.env = env
	if err != nil {
		return fmt.Errorf("%v\n%s", err, tail(msg, 4000))
	}
	return nil
}

// load builds the SSA form of the harnesses and of all code they reach.
func (d *driver) load() (*Engine, []*Harness) {
	t := time.Now()
	d.fset = token.NewFileSet()
	cfg := &packages.Config{
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports | packages.NeedDeps |
			packages.NeedTypes | packages.NeedTypesSizes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedModule,
		Dir: d.dir + "/h", Env: d.env, Fset: d.fset,
	}
	os.Setenv("PATH", goroot+"/bin:"+os.Getenv("PATH"))
	pkgs, err := packages.Load(cfg, hmod+"/"+strings.ToLower(d.prop), "runtime", "errors", "fmt")
	if err != nil {
		fatalf("load: %v", err)
	}
	var harnErr, genErr []string
	packages.Visit(pkgs, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			if strings.HasPrefix(p.PkgPath, "gen/") {
				genErr = append(genErr, e.Error())
			} else {
				harnErr = append(harnErr, e.Error())
			}
		}
	})
	if len(genErr) > 0 {
		d.genFail = "the generated code of a valid schema does not compile: " + strings.Join(genErr[:min(3, len(genErr))], "; ")
		return nil, nil
	}
	if len(harnErr) > 0 {
		fatalf("load: %s", strings.Join(harnErr[:min(5, len(harnErr))], "\n"))
	}
	prog, _ := ssautil.AllPackages(pkgs, ssa.InstantiateGenerics)
	prog.Build()
	d.mark("load and build SSA", t)
	eng := &Engine{prog: prog, sizes: types.SizesFor("gc", "amd64"), seed: d.seed, thorough: d.thorough,
		maxPaths: d.paths, noSimp: d.noSimp, noMerge: d.noMerge,
		solver: solverCmd(), timeout: 10 * time.Second, violStop: 4, known: d.known}
	if d.thorough {
		eng.timeout = 40 * time.Second
		eng.xcheck = 20
	} else {
		eng.xcheck = 2
	}
	eng.rtErr = prog.ImportedPackage("runtime").Type("errorString").Type()
	hp := prog.ImportedPackage(hmod + "/" + strings.ToLower(d.prop))
	if hp == nil {
		fatalf("harness package not loaded")
	}
	var only *regexp.Regexp
	if d.only != "" {
		only = regexp.MustCompile(d.only)
	}
	var hs []*Harness
	for _, n := range d.hnames {
		if only != nil && !only.MatchString(n) {
			continue
		}
		fn := hp.Func(n)
		if fn == nil {
			fatalf("no function %s", n)
		}
		hs = append(hs, &Harness{Name: n, fn: fn, Reach: reachLabels(fn)})
	}
	return eng, hs
}

// reachLabels finds the sv.Reach calls a harness can make.
func reachLabels(fn *ssa.Function) map[string]bool {
	out := map[string]bool{}
	seen := map[*ssa.Function]bool{}
	var visit func(f *ssa.Function)
	visit = func(f *ssa.Function) {
		if f == nil || seen[f] {
			return
		}
		seen[f] = true
		pk := f.Pkg
		if pk == nil && f.Origin() != nil {
			pk = f.Origin().Pkg
		}
		if pk == nil || !strings.HasPrefix(pk.Pkg.Path(), hmod+"/") {
			return
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					if op == nil || *op == nil {
						continue
					}
					if g, ok := (*op).(*ssa.Function); ok {
						visit(g)
					}
				}
				if c, ok := in.(ssa.CallInstruction); ok {
					if g := c.Common().StaticCallee(); g != nil && g.String() == "verif/sv.Reach" {
						if k, ok := c.Common().Args[0].(*ssa.Const); ok && k.Value != nil {
							out[constant.StringVal(k.Value)] = true
						}
					}
				}
			}
		}
		for _, a := range f.AnonFuncs {
			visit(a)
		}
	}
	visit(fn)
	return out
}

// ---- native replay ----

type nativeCase struct {
	Harness  string     `json:"harness"`
	Inputs   []InputVal `json:"inputs"`
	Thorough bool       `json:"thorough"`
}

type nativeResult struct {
	Status string   `json:"status"`
	Label  string   `json:"label"`
	Detail string   `json:"detail"`
	Obs    []string `json:"obs"`
}

// native runs one case in a process of its own.
func (d *driver) native(c nativeCase, timeout time.Duration, race bool) nativeResult {
	b, _ := json.Marshal(c)
	bin := d.dir + "/runner"
	if race {
		bin += "-race"
	}
	cmd := exec.Command(bin)
	cmd.Env = append([]string{}, d.env...)
	cmd.Dir = d.dir
	if race {
		cmd.Env = append(cmd.Env, "SV_RACE=1", "GORACE=halt_on_error=1 exitcode=66")
	}
	cmd.Stdin = bytes.NewReader(append(b, '\n'))
	var out, errb bytes.Buffer
	cmd.Stdout = &out
	cmd.Stderr = &errb
	if err := cmd.Start(); err != nil {
		return nativeResult{Status: "error", Detail: err.Error()}
	}
	t := time.AfterFunc(timeout, func() { cmd.Process.Kill() })
	err := cmd.Wait()
	if !t.Stop() {
		return nativeResult{Status: "hang", Detail: "no result after " + timeout.String()}
	}
	var r nativeResult
	if json.Unmarshal(bytes.TrimSpace(out.Bytes()), &r) == nil && r.Status != "" && !race {
		return r
	}
	if race {
		if strings.Contains(errb.String(), "DATA RACE") {
			return nativeResult{Status: "race", Detail: tail(errb.String(), 3000)}
		}
		return r
	}
	return nativeResult{Status: "crash", Detail: fmt.Sprintf("%v: %s", err, tail(errb.String(), 1500))}
}

// confirm replays a violation on the real code.
func (d *driver) confirm(v *Violation) {
	c := nativeCase{Harness: v.Harness, Inputs: v.Inputs, Thorough: d.thorough}
	r := d.native(c, 30*time.Second, false)
	ok := false
	switch r.Status {
	case "assert":
		ok = true
	case "panic", "alloc", "frozen", "hang", "crash":
		ok = true
	}
	if !ok && v.Kind == "frozen" {
		if _, err := os.Stat(d.dir + "/runner-race"); err != nil {
			if err := d.buildRunner(true); err != nil {
				d.notes = append(d.notes, "race build: "+err.Error())
			}
		}
		r = d.native(c, 60*time.Second, true)
		ok = r.Status == "race"
	}
	v.NStatus = r.Status
	v.NDetail = strings.TrimSpace(r.Label + " " + r.Detail)
	if ok {
		v.Status = "confirmed"
	} else {
		v.Status = "not-reproduced"
	}
}

func (d *driver) replayFile() int {
	b, err := os.ReadFile(d.replay)
	must(err)
	var v struct {
		Case nativeCase `json:"case"`
	}
	must(json.Unmarshal(b, &v))
	r := d.native(v.Case, 60*time.Second, false)
	j, _ := json.MarshalIndent(r, "", " ")
	fmt.Println(string(j))
	if r.Status != "ok" && r.Status != "skip" {
		return 1
	}
	return 0
}

// solverCmd is the SMT solver; SVSOLVER replaces it while developing.
func solverCmd() []string {
	if s := os.Getenv("SVSOLVER"); s != "" {
		return []string{s, "-in"}
	}
	return []string{"z3-new", "-in"}
}
