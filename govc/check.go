package main

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"
)

// A check: every unit of the property is verified in its own process against the current sources; the native
// harness of the property (the executable specification run against the real code, bounded) runs beside it and
// supplies failing inputs.

type nativeRes struct {
	Evaluations int                      `json:"evaluations"`
	Distinct    int                      `json:"distinct"`
	Rule        string                   `json:"rule"`
	Samples     []string                 `json:"samples"`
	Violations  []map[string]interface{} `json:"violations"`
	Err         string                   `json:"err"`
}

type nativeSpec struct {
	Pkg  string
	Test string
	Race bool
}

// native harnesses: a function TestVN_<prop>... in /verif/native/<pkg>/
func nativeTests(prop string) []nativeSpec {
	var out []nativeSpec
	re := regexp.MustCompile(`(?m)^func (TestVN_` + prop + `(_\w+)?)\(t \*testing\.T\)`)
	for _, pkg := range []string{"root", "monogfx", "topology", "gorwp"} {
		fs, _ := filepath.Glob(filepath.Join(verifDir, "native", pkg, "*.go"))
		for _, f := range fs {
			b, _ := os.ReadFile(f)
			for _, m := range re.FindAllStringSubmatch(string(b), -1) {
				out = append(out, nativeSpec{Pkg: pkg, Test: m[1], Race: strings.Contains(m[1], "Race")})
			}
		}
	}
	return out
}

func pkgNameOf(pkg string) string {
	switch pkg {
	case "root":
		return "rawpanellib"
	case "monogfx":
		return "ibeam_lib_monogfx"
	}
	return pkg
}
func pkgDirOf(pkg string) string {
	switch pkg {
	case "root":
		return repoDir
	case "monogfx":
		return filepath.Join(repoDir, "ibeam_lib_monogfx")
	}
	return filepath.Join(repoDir, pkg)
}

// buildNative compiles the native harness of a package (specifications + harness laid over the current sources)
func buildNative(ctx context.Context, pkg, work string, race bool) (string, error) {
	repl := map[string]string{}
	dir := pkgDirOf(pkg)
	add := func(src, as string) { repl[filepath.Join(dir, as)] = src }
	for _, p := range []string{"root", "monogfx", "topology", "gorwp"} {
		fs, _ := filepath.Glob(filepath.Join(verifDir, "specs", p, "*.go"))
		for _, f := range fs {
			repl[filepath.Join(pkgDirOf(p), "zz_verif_"+filepath.Base(f))] = f
		}
	}
	fs, _ := filepath.Glob(filepath.Join(verifDir, "native", pkg, "*.go"))
	for _, f := range fs {
		add(f, "zz_vn_"+strings.TrimSuffix(filepath.Base(f), ".go")+"_test.go")
	}
	cm, err := os.ReadFile(filepath.Join(verifDir, "native", "common", "common.go"))
	if err != nil {
		return "", err
	}
	pn := ""
	gf, _ := filepath.Glob(filepath.Join(dir, "*.go"))
	for _, f := range gf {
		if strings.HasSuffix(f, "_test.go") {
			repl[f] = "" // the repository's own tests are not part of the harness
			continue
		}
		b, _ := os.ReadFile(f)
		if m := regexp.MustCompile(`(?m)^package (\w+)`).FindSubmatch(b); m != nil {
			pn = string(m[1])
		}
	}
	cf := filepath.Join(work, "common_"+pkg+".go")
	os.WriteFile(cf, bytes.Replace(cm, []byte("package common"), []byte("package "+pn), 1), 0644)
	add(cf, "zz_vn_common_test.go")
	ov, _ := json.Marshal(map[string]interface{}{"Replace": repl})
	of := filepath.Join(work, "overlay_"+pkg+".json")
	os.WriteFile(of, ov, 0644)
	bin := filepath.Join(work, "vn_"+pkg)
	args := []string{"test", "-c", "-vet=off", "-overlay", of, "-o", bin}
	if race {
		bin += "_race"
		args[len(args)-1] = bin
		args = append(args, "-race")
	}
	cmd := exec.CommandContext(ctx, "go", append(args, ".")...)
	cmd.Dir = dir
	cmd.Env = goEnv()
	var buf bytes.Buffer
	cmd.Stdout, cmd.Stderr = &buf, &buf
	if err := cmd.Run(); err != nil {
		return "", fmt.Errorf("native harness of %s does not build: %v\n%s", pkg, err, trunc(buf.String(), 3000))
	}
	return bin, nil
}

func runNative(ctx context.Context, bin string, ns nativeSpec, work string, seed int64, budget float64, hints []string) nativeRes {
	of := filepath.Join(work, fmt.Sprintf("%s_%d.json", ns.Test, time.Now().UnixNano()))
	scratch := filepath.Join(work, "scratch_"+ns.Test)
	os.MkdirAll(scratch, 0755)
	cctx, cancel := context.WithTimeout(ctx, time.Duration(budget*float64(time.Second))+90*time.Second)
	defer cancel()
	cmd := exec.CommandContext(cctx, bin, "-test.run", "^"+ns.Test+"$", "-test.v", "-test.timeout", fmt.Sprintf("%ds", int(budget)+80))
	cmd.Dir = scratch
	hj, _ := json.Marshal(hints)
	cmd.Env = append(os.Environ(), "VN_OUT="+of, fmt.Sprintf("VN_SEED=%d", seed), fmt.Sprintf("VN_BUDGET=%g", budget), "VN_HINTS="+string(hj), "VN_DICT="+sourceDict(ns.Pkg, work), "GOTRACEBACK=all", "LOG=fatal")
	cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true}
	cmd.Cancel = func() error { return syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL) }
	lf, err := os.Create(of + ".log")
	if err == nil {
		cmd.Stdout, cmd.Stderr = lf, lf
	}
	rerr := cmd.Run()
	if lf != nil {
		lf.Close()
	}
	var r nativeRes
	b, err := os.ReadFile(of)
	if err == nil {
		err = json.Unmarshal(b, &r)
	}
	lg := tailFile(of+".log", 6000)
	if whole, err := os.ReadFile(of + ".log"); err == nil && len(whole) < 64<<20 {
		if i := regexp.MustCompile(`DATA RACE|(?m)^panic:|(?m)^fatal error:`).FindIndex(whole); i != nil {
			lg = string(whole[i[0]:min(len(whole), i[0]+6000)])
		}
	}
	if rerr != nil && len(r.Violations) == 0 {
		// the real code brought the process down (deadlock, fatal error, panic in a goroutine, data race report)
		switch {
		case strings.Contains(lg, "DATA RACE"):
			r.Violations = append(r.Violations, map[string]interface{}{"key": "data race", "message": "the race detector reports a data race", "input": lastCase(of), "output": lg})
		case strings.Contains(lg, "panic:") || strings.Contains(lg, "fatal error:"):
			r.Violations = append(r.Violations, map[string]interface{}{"key": "crash", "message": "the code under test panicked or hung", "input": lastCase(of), "output": lg})
		default:
			r.Err = fmt.Sprintf("native run failed: %v\n%s", rerr, trunc(lg, 2000))
		}
	} else if err != nil && len(r.Violations) == 0 {
		r.Err = "native run left no result: " + err.Error() + "\n" + trunc(lg, 2000)
	}
	return r
}
func lastCase(of string) string {
	b, _ := os.ReadFile(of + ".case")
	return string(b)
}
func tailFile(f string, n int) string {
	b, _ := os.ReadFile(f)
	if i := bytes.Index(b, []byte("panic:")); i >= 0 {
		b = b[i:]
		if len(b) > n {
			b = b[:n]
		}
	} else if i := bytes.Index(b, []byte("DATA RACE")); i >= 0 {
		b = b[i:]
		if len(b) > n {
			b = b[:n]
		}
	}
	if len(b) > n {
		b = b[len(b)-n:]
	}
	return string(b)
}

type unitJob struct {
	u     *Unit
	i, of int
	res   *UnitRes
}

func runUnitProc(ctx context.Context, j *unitJob, workers int, timeout time.Duration) {
	cctx, cancel := context.WithTimeout(ctx, timeout)
	defer cancel()
	self, _ := os.Executable()
	cmd := exec.CommandContext(cctx, self, "unit", j.u.Pkg, j.u.Fn, fmt.Sprintf("%d/%d", j.i, j.of))
	cmd.Env = append(os.Environ(), "GOVC_JSON=1", "GOVC_WORKERS="+strconv.Itoa(workers), "GOMEMLIMIT=6GiB", "GOMAXPROCS=4")
	cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true}
	cmd.Cancel = func() error { return syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL) }
	var out, errb bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &errb
	err := cmd.Run()
	r := &UnitRes{Unit: j.u.Pkg + "." + j.u.Fn}
	if e2 := json.Unmarshal(out.Bytes(), r); e2 != nil {
		r.Err = fmt.Sprintf("verifier run ended without a result (%v, timeout %v): %s", err, timeout, trunc(errb.String(), 1500))
	}
	j.res = r
}

type knownFinding struct{ Prop, Key, What string }

func knownFindings() []knownFinding {
	var out []knownFinding
	b, _ := os.ReadFile(filepath.Join(verifDir, "known_findings.txt"))
	re := regexp.MustCompile(`^KNOWN-FINDING: property=(\S+) key="([^"]*)" (.*)$`)
	for _, l := range strings.Split(string(b), "\n") {
		if m := re.FindStringSubmatch(strings.TrimSpace(l)); m != nil {
			out = append(out, knownFinding{m[1], m[2], m[3]})
		}
	}
	return out
}

var intRe = regexp.MustCompile(`\(- (\d+)\)|\b(\d+)\b`)

func modelHints(fs []ObRes) []string {
	seen := map[string]bool{}
	var out []string
	for _, f := range fs {
		for _, l := range strings.Split(f.Model, "\n") {
			i := strings.LastIndexAny(strings.TrimRight(l, ") "), " ")
			if i < 0 {
				continue
			}
			for _, m := range intRe.FindAllStringSubmatch(l, -1) {
				v := m[2]
				if m[1] != "" {
					v = "-" + m[1]
				}
				if !seen[v] && len(out) < 200 {
					seen[v] = true
					out = append(out, v)
				}
			}
		}
	}
	return out
}

func checkProp(prop, tier string) int {
	t0 := time.Now()
	seed, err := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	if err != nil {
		seed = 1
	}
	limit := 820 * time.Second
	nbudget, fbudget := 12.0, 75.0
	if tier == "thorough" {
		limit = 3 * time.Hour
		nbudget, fbudget = 300, 300
	}
	if v, err := strconv.ParseFloat(os.Getenv("VN_BASE"), 64); err == nil {
		nbudget = v
	}
	ctx, cancel := context.WithTimeout(context.Background(), limit)
	defer cancel()
	work, err := os.MkdirTemp("", "govc-"+prop+"-")
	if err != nil {
		fmt.Println("ERROR:", err)
		return 2
	}
	defer os.RemoveAll(work)
	outDir := filepath.Join(verifDir, "out", prop)
	os.RemoveAll(outDir)
	os.MkdirAll(outDir, 0755)

	// units
	var jobs []*unitJob
	for _, u := range parseUnits() {
		in := false
		for _, p := range u.Props {
			if p == prop {
				in = true
			}
		}
		if !in || u.Thorough && tier != "thorough" {
			continue
		}
		n := u.Shards
		for i := 0; i < n; i++ {
			jobs = append(jobs, &unitJob{u: u, i: i, of: n})
		}
	}
	nts := nativeTests(prop)
	bins := map[string]string{}
	var nres []nativeRes
	var nmu sync.Mutex
	var nwg sync.WaitGroup
	nwg.Add(1)
	go func() {
		defer nwg.Done()
		for _, ns := range nts {
			key := ns.Pkg + fmt.Sprint(ns.Race)
			if _, ok := bins[key]; !ok {
				b, err := buildNative(ctx, ns.Pkg, work, ns.Race)
				if err != nil {
					nmu.Lock()
					nres = append(nres, nativeRes{Err: err.Error()})
					nmu.Unlock()
				}
				bins[key] = b
			}
			if bins[key] == "" {
				continue
			}
			r := runNative(ctx, bins[key], ns, work, seed, nbudget, nil)
			nmu.Lock()
			nres = append(nres, r)
			nmu.Unlock()
		}
	}()
	conc, workers := 5, 2
	sort.SliceStable(jobs, func(a, b int) bool { return jobs[a].u.Timeout > jobs[b].u.Timeout })
	ch := make(chan *unitJob)
	var wg sync.WaitGroup
	for w := 0; w < conc; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for j := range ch {
				rem := limit - time.Since(t0) - 110*time.Second
				if rem < 20*time.Second {
					rem = 20 * time.Second
				}
				runUnitProc(ctx, j, workers, rem)
			}
		}()
	}
	for _, j := range jobs {
		ch <- j
	}
	close(ch)
	wg.Wait()
	nwg.Wait()

	// collect
	type failure struct {
		Unit, Obligation, Kind, Func, Pos, Status, Model, Query string
	}
	var fails []failure
	var allf []ObRes
	ob, dis := 0, 0
	by := map[string]int{}
	fns, cts, ass := map[string]bool{}, map[string]bool{}, map[string]bool{}
	solver := 0.0
	var units []map[string]interface{}
	summ := map[string]int{}
	byName := map[string]*UnitRes{}
	for _, j := range jobs {
		r := j.res
		n, d := 0, 0
		for _, o := range r.Obs {
			n++
			if o.OK {
				d++
				by[o.By]++
			}
		}
		ob += n
		dis += d
		solver += r.SolverS
		for _, f := range r.failed() {
			fails = append(fails, failure{r.Unit, f.Name, f.Kind, f.Func, f.Pos, f.Status, f.Model, f.Query})
			allf = append(allf, f)
		}
		if r.Err != "" {
			fails = append(fails, failure{Unit: r.Unit, Obligation: "the verifier accepts the unit", Kind: "error", Status: r.Err})
		} else if n == 0 {
			fails = append(fails, failure{Unit: r.Unit, Obligation: "the unit generates obligations", Kind: "vacuity", Status: "no obligation was generated"})
		}
		for _, f := range r.Functions {
			fns[f] = true
		}
		for _, f := range r.Contracts {
			cts[f] = true
		}
		for _, f := range r.Assume {
			ass[f] = true
		}
		for k, v := range r.Summaries {
			summ[k] += v
		}
		byName[r.Unit] = r
		units = append(units, map[string]interface{}{"unit": fmt.Sprintf("%s %d/%d", r.Unit, j.i, j.of), "obligations": n, "discharged": d, "covers": len(r.Covers), "wall_s": round1(r.WallS), "instances": r.Instances, "error": r.Err})
	}
	known := knownFindings()
	isKnown := func(key string) *knownFinding {
		for i, k := range known {
			if k.Prop == prop && k.Key == key {
				return &known[i]
			}
		}
		return nil
	}
	hit := map[string]bool{}
	var viol []map[string]interface{}
	sift := func(rs []nativeRes) {
		for _, r := range rs {
			for _, v := range r.Violations {
				k, _ := v["key"].(string)
				if kf := isKnown(k); kf != nil {
					hit[k] = true
					continue
				}
				viol = append(viol, v)
			}
		}
	}
	sift(nres)
	// real connections on a loaded machine: a failure counts when it comes back on a second run
	var unconfirmed []map[string]interface{}
	if timed[prop] && len(viol) > 0 && !hasRace(viol) {
		first := viol
		viol = nil
		for _, ns := range nts {
			if b := bins[ns.Pkg+fmt.Sprint(ns.Race)]; b != "" && len(viol) == 0 {
				r := runNative(ctx, b, ns, work, seed, 2*nbudget, nil)
				nres = append(nres, r)
				sift([]nativeRes{r})
			}
		}
		if len(viol) == 0 {
			unconfirmed = first
			fmt.Println("not confirmed by a second run (not counted):", trunc(fmt.Sprint(first[0]), 600))
		}
	}
	// failed obligations, and no failing input yet: directed search on the real code
	if len(fails) > 0 && len(viol) == 0 {
		hints := modelHints(allf)
		for round := 0; round < 2 && len(viol) == 0; round++ {
			for _, ns := range nts {
				b := bins[ns.Pkg+fmt.Sprint(ns.Race)]
				if b == "" || time.Since(t0) > limit-time.Duration(fbudget)*time.Second {
					continue
				}
				r := runNative(ctx, b, ns, work, seed+int64(1000*(round+1)), fbudget/float64(2*len(nts)), hints)
				nres = append(nres, r)
				sift([]nativeRes{r})
				if len(viol) > 0 {
					break
				}
			}
		}
	}
	for _, k := range known {
		if k.Prop == prop {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", prop, k.What)
		}
	}
	nerr := ""
	evals, distinct := 0, 0
	var rules, samples []string
	for _, r := range nres {
		if r.Err != "" {
			nerr += r.Err + "\n"
		}
		evals += r.Evaluations
		distinct += r.Distinct
		if r.Rule != "" && !contains(rules, r.Rule) {
			rules = append(rules, r.Rule)
		}
		for _, s := range r.Samples {
			if len(samples) < 6 {
				samples = append(samples, trunc(s, 600))
			}
		}
	}
	nviol := 0
	code := 0
	writeReplay := func(name string, v interface{}) string {
		p := filepath.Join(outDir, name)
		var b bytes.Buffer
		e := json.NewEncoder(&b)
		e.SetEscapeHTML(false)
		e.SetIndent("", "  ")
		e.Encode(v)
		os.WriteFile(p, b.Bytes(), 0644)
		return p
	}
	for i, f := range fails {
		if i < 12 {
			fmt.Printf("obligation not discharged: [%s] %s in %s (%s) %s: %s\n", f.Kind, f.Obligation, f.Unit, f.Func, f.Pos, trunc(f.Status, 400))
		}
	}
	if nerr != "" {
		fmt.Println("native:", trunc(nerr, 2000))
	}
	fl := fails
	if len(fl) > 20 {
		fl = fl[:20]
	}
	switch {
	case len(viol) > 0:
		v := viol[0]
		p := writeReplay("violation.json", map[string]interface{}{"property": prop, "failing_input": v, "failed_obligations": fl, "how_to_replay": "VN_SEED=" + fmt.Sprint(seed) + " /verif/check.sh " + prop + " runs the specification against the real code and meets this input; the input field is self-contained"})
		fmt.Println(trunc(fmt.Sprint(v["message"]), 1500))
		fmt.Println("input:", trunc(fmt.Sprint(v["input"]), 1500))
		fmt.Printf("VIOLATION property=%s replay=%s\n", prop, p)
		nviol, code = len(viol), 1
	case len(fails) > 0:
		p := writeReplay("obligation.json", map[string]interface{}{"property": prop, "failed_obligations": fl, "directed_search": map[string]interface{}{"evaluations": evals, "result": "no failing input found"}, "native_errors": nerr})
		fmt.Printf("VIOLATION property=%s replay=%s no-failing-input-found\n", prop, p)
		nviol, code = 1, 1
	case nerr != "" || len(jobs)+len(nts) == 0:
		p := writeReplay("error.json", map[string]interface{}{"property": prop, "error": nerr})
		fmt.Printf("VIOLATION property=%s replay=%s no-failing-input-found\n", prop, p)
		nviol, code = 1, 1
	}
	level := manifestLevel(prop)
	cov := map[string]interface{}{
		"obligations": ob, "discharged": dis,
		"checker_cmd":   "/verif/check.sh " + prop + " " + tier + " (per unit: bin/govc unit <pkg> <harness>; solvers z3 5.3.2, cvc5 1.1.2, z3 4.8.12)",
		"trusted_base":  append([]string{"govc (symbolic executor, loop summaries, simplifier) in /verif/govc", "golang.org/x/tools/go/ssa", "z3, cvc5"}, sortedKeys(ass)...),
		"discharged_by": by, "functions_under_contract": sortedKeys(fns), "callee_contracts_used": sortedKeys(cts), "units": units, "loop_handling": summ, "solver_s": round1(solver),
		"evaluations": evals, "distinct_nontrivial": distinct, "rule": "bounded native replay of the executable specification against the real code (labelled bounded, not counted as proved): " + strings.Join(rules, " | "), "samples": samples,
	}
	if len(unconfirmed) > 0 {
		cov["unconfirmed_failures"] = unconfirmed
	}
	if level == "other" || level == "" {
		cov["explanation"] = "see rule and samples; deductive part in units"
	}
	ev := map[string]interface{}{"property": prop, "tier": tier, "seed": seed, "level": level, "coverage": cov, "assumptions": sortedKeys(ass), "wall_s": round1(time.Since(t0).Seconds()), "violations": nviol}
	os.MkdirAll(filepath.Join(verifDir, "evidence"), 0755)
	eb, _ := json.MarshalIndent(ev, "", " ")
	os.WriteFile(filepath.Join(verifDir, "evidence", prop+".json"), eb, 0644)
	fmt.Printf("%s %s: %d/%d obligations discharged in %d units %v; native %d evaluations, %d distinct; %.0fs\n", prop, tier, dis, ob, len(jobs), by, evals, distinct, time.Since(t0).Seconds())
	return code
}

// properties whose native runs depend on real time
var timed = map[string]bool{"C08": true, "C09": true, "C10": true, "C11": true, "C12": true, "C19": true}

func hasRace(vs []map[string]interface{}) bool {
	for _, v := range vs {
		if v["key"] == "data race" {
			return true
		}
	}
	return false
}

func contains(a []string, s string) bool {
	for _, x := range a {
		if x == s {
			return true
		}
	}
	return false
}
func round1(f float64) float64 { return float64(int(f*10)) / 10 }

func manifestLevel(prop string) string {
	b, _ := os.ReadFile(filepath.Join(verifDir, "MANIFEST.json"))
	var m struct {
		Checks []struct{ Property, Level string }
	}
	json.Unmarshal(b, &m)
	for _, c := range m.Checks {
		if c.Property == prop {
			return c.Level
		}
	}
	return "proof"
}

// sourceDict: the literals of the package's current sources, a dictionary for the native generators
func sourceDict(pkg, work string) string {
	f := filepath.Join(work, "dict_"+pkg+".json")
	if _, err := os.Stat(f); err == nil {
		return f
	}
	strs, ints := map[string]bool{}, map[string]bool{}
	pkgs := []string{pkg}
	if pkg == "root" {
		pkgs = append(pkgs, "monogfx")
	}
	if pkg == "gorwp" {
		pkgs = append(pkgs, "root")
	}
	for _, p := range pkgs {
		gf, _ := filepath.Glob(filepath.Join(pkgDirOf(p), "*.go"))
		for _, g := range gf {
			if strings.HasSuffix(g, "_test.go") || filepath.Base(g) == "fonts.go" {
				continue
			}
			fset := token.NewFileSet()
			af, err := parser.ParseFile(fset, g, nil, 0)
			if err != nil {
				continue
			}
			ast.Inspect(af, func(n ast.Node) bool {
				if _, ok := n.(*ast.ImportSpec); ok {
					return false
				}
				if fl, ok := n.(*ast.Field); ok && fl.Tag != nil {
					return false
				}
				if l, ok := n.(*ast.BasicLit); ok {
					switch l.Kind {
					case token.STRING, token.CHAR:
						if u, err := strconv.Unquote(l.Value); err == nil && len(u) < 200 && u != "" {
							strs[u] = true
						}
					case token.INT:
						if v, err := strconv.ParseInt(l.Value, 0, 64); err == nil {
							ints[strconv.FormatInt(v, 10)] = true
						}
					}
				}
				return true
			})
		}
	}
	b, _ := json.Marshal(map[string]interface{}{"strs": sortedKeys(strs), "ints": sortedKeys(ints)})
	os.WriteFile(f, b, 0644)
	return f
}
