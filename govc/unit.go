package main

import (
	"fmt"
	"go/types"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// A unit is a harness function vc_X of a specification file; directives in the comment above it configure it.
type Unit struct {
	Pkg, Fn  string
	Props    []string
	Replace  map[string]string
	Opaque   []string
	Enum     []enumDir
	Thorough bool
	NoSafety bool
	Feas     bool
	Timeout  int
	Shards   int
	Nonnil   []string
	Classes  [][2]string
	Hooks    []string
	Load     []string // library packages whose source is verified along
	Unroll   []string // functions whose loops without values of their own are followed round by round
	MaxAlloc int      // no slice of a length above it is made
	File     string
	Doc      string
}
type enumDir struct {
	param string
	vals  []string
}

var pkgPaths = map[string]string{"root": modPath, "monogfx": modPath + "/ibeam_lib_monogfx", "topology": modPath + "/topology", "gorwp": modPath + "/gorwp"}

var fnRe = regexp.MustCompile(`^func (vc_\w+)\(`)

func parseUnits() []*Unit {
	var out []*Unit
	for _, pkg := range []string{"root", "monogfx", "topology", "gorwp"} {
		fs, _ := filepath.Glob(filepath.Join(verifDir, "specs", pkg, "*.go"))
		sort.Strings(fs)
		for _, f := range fs {
			b, err := os.ReadFile(f)
			if err != nil {
				continue
			}
			var dirs []string
			doc := ""
			for _, l := range strings.Split(string(b), "\n") {
				if strings.HasPrefix(l, "//govc:") {
					dirs = append(dirs, strings.TrimPrefix(l, "//govc:"))
					continue
				}
				if strings.HasPrefix(l, "//") {
					doc += strings.TrimSpace(strings.TrimPrefix(l, "//")) + " "
					continue
				}
				if m := fnRe.FindStringSubmatch(l); m != nil && len(dirs) > 0 {
					u := &Unit{Pkg: pkg, Fn: m[1], Replace: map[string]string{}, File: f, Timeout: 40, Shards: 1, Doc: strings.TrimSpace(doc)}
					for _, d := range dirs {
						w := strings.Fields(d)
						switch w[0] {
						case "unit":
							u.Props = append(u.Props, w[1:]...)
						case "replace":
							for _, r := range w[1:] {
								pre := ""
								if strings.HasPrefix(r, "=") {
									pre, r = "=", r[1:]
								}
								p := strings.SplitN(r, "=", 2)
								p[0] = pre + p[0]
								u.Replace[expandName(pkg, p[0])] = p[1]
							}
						case "opaque":
							for _, r := range w[1:] {
								u.Opaque = append(u.Opaque, expandName(pkg, r))
							}
						case "hook":
							u.Hooks = append(u.Hooks, w[1:]...)
						case "enum":
							p := strings.SplitN(w[1], "=", 2)
							e := enumDir{param: p[0]}
							for _, v := range strings.Split(p[1], ",") {
								if r := strings.Split(v, ".."); len(r) == 2 {
									a, _ := strconv.Atoi(r[0])
									b, _ := strconv.Atoi(r[1])
									for i := a; i <= b; i++ {
										e.vals = append(e.vals, strconv.Itoa(i))
									}
								} else {
									e.vals = append(e.vals, v)
								}
							}
							u.Enum = append(u.Enum, e)
						case "thorough":
							u.Thorough = true
						case "nosafety":
							u.NoSafety = true
						case "unroll":
							u.Unroll = append(u.Unroll, w[1:]...)
						case "load":
							u.Load = append(u.Load, w[1:]...)
						case "maxalloc":
							u.MaxAlloc, _ = strconv.Atoi(w[1])
						case "feas":
							u.Feas = true
						case "timeout":
							u.Timeout, _ = strconv.Atoi(w[1])
						case "shards":
							u.Shards, _ = strconv.Atoi(w[1])
						case "nonnil":
							u.Nonnil = append(u.Nonnil, w[1:]...)
						case "class":
							u.Classes = append(u.Classes, [2]string{w[1], w[2]})
						default:
							panic("unknown directive " + d)
						}
					}
					out = append(out, u)
				}
				dirs, doc = nil, ""
			}
		}
	}
	return out
}

// expandName: MonoImg.DrawPixel -> (*pkg.MonoImg).DrawPixel, Name -> pkg.Name, key:Name for another package
func expandName(pkg, n string) string {
	if strings.HasPrefix(n, "=") {
		return n[1:]
	}
	if i := strings.Index(n, ":"); i > 0 {
		pkg, n = n[:i], n[i+1:]
	}
	p := pkgPaths[pkg]
	if p == "" {
		p = pkg
	}
	if i := strings.Index(n, "."); i > 0 {
		return "(*" + p + "." + n[:i] + ")" + n[i:]
	}
	return p + "." + n
}

type UnitRes struct {
	Unit      string
	Obs       []ObRes
	Covers    []ObRes
	Err       string
	Functions []string
	Contracts []string
	Assume    []string
	Summaries map[string]int
	SolverS   float64
	WallS     float64
	Instances int
}

func (r *UnitRes) failed() []ObRes {
	var out []ObRes
	for _, o := range r.Obs {
		if !o.OK {
			out = append(out, o)
		}
	}
	for _, c := range r.Covers {
		if !c.OK {
			out = append(out, c)
		}
	}
	return out
}
func (r *UnitRes) print() {
	n := 0
	by := map[string]int{}
	for _, o := range r.Obs {
		if o.OK {
			n++
			by[o.By]++
		}
	}
	fmt.Printf("%s: %d/%d obligations discharged %v, %d covers, solver %.1fs wall %.1fs, instances %d %v\n", r.Unit, n, len(r.Obs), by, len(r.Covers), r.SolverS, r.WallS, r.Instances, r.Summaries)
	if r.Err != "" {
		fmt.Println("  ERROR:", r.Err)
	}
	for i, o := range r.failed() {
		if i > 12 {
			fmt.Println("  ...")
			break
		}
		fmt.Printf("  FAIL [%s] %s (%s %s) %s\n%s\n", o.Kind, o.Name, o.Func, o.Pos, o.Status, trunc(o.Model, modelLen()))
	}
	if os.Getenv("GOVC_V") != "" {
		for _, o := range r.Obs {
			fmt.Printf("   %v %s [%s] %s %s %dms\n", o.OK, o.By, o.Kind, o.Name, o.Pos, o.Ms)
		}
		fmt.Println("  functions:", r.Functions)
		fmt.Println("  contracts:", r.Contracts)
		fmt.Println("  assume:", r.Assume)
	}
}

func findUnit(pkg, fn string) *Unit {
	for _, u := range parseUnits() {
		if u.Pkg == pkg && u.Fn == fn {
			return u
		}
	}
	return nil
}

func runUnit(pkg, fn string, shard, of int) (res *UnitRes) {
	t0 := time.Now()
	res = &UnitRes{Unit: pkg + "." + fn, Summaries: map[string]int{}}
	u := findUnit(pkg, fn)
	if u == nil {
		res.Err = "no such unit"
		return
	}
	pats := []string{modPath, modPath + "/ibeam_rawpanel", modPath + "/ibeam_lib_monogfx", modPath + "/topology", suPath}
	switch pkg {
	case "monogfx":
		pats = []string{modPath + "/ibeam_lib_monogfx", suPath}
	case "topology":
		pats = []string{modPath + "/topology", modPath + "/ibeam_rawpanel", suPath}
	case "gorwp":
		pats = append(pats, modPath+"/gorwp")
	}
	P, err := loadProgram(append(pats, u.Load...))
	if err != nil {
		res.Err = "the package does not compile with the specifications: " + err.Error()
		return
	}
	sp := P.Pkgs[pkgPaths[pkg]]
	f := sp.Func(fn)
	if f == nil {
		res.Err = "harness not found"
		return
	}
	// instances
	insts := []map[string]string{{}}
	for _, e := range u.Enum {
		var n []map[string]string
		for _, m := range insts {
			for _, v := range e.vals {
				c := map[string]string{e.param: v}
				for k, w := range m {
					c[k] = w
				}
				n = append(n, c)
			}
		}
		insts = n
	}
	fnset, ctset, asset := map[string]bool{}, map[string]bool{}, map[string]bool{}
	for ii, inst := range insts {
		if ii%of != shard {
			continue
		}
		res.Instances++
		x := newExec(P, fn)
		x.safety = !u.NoSafety
		x.feas = u.Feas
		x.unroll = map[string]bool{}
		for _, f := range u.Unroll {
			x.unroll[f] = true
		}
		if u.MaxAlloc > 0 {
			x.maxAlloc = IntC(int64(u.MaxAlloc))
		}
		for _, p := range u.Nonnil {
			x.nonnilElems[p] = true
		}
		for _, c := range u.Classes {
			declareClass(c[0], c[1])
		}
		bad := ""
		for k, v := range u.Replace {
			r := sp.Func(v)
			if r == nil {
				// contracts of another package: key.func
				for pk, pp := range pkgPaths {
					if strings.HasPrefix(v, pk+".") && P.Pkgs[pp] != nil {
						r = P.Pkgs[pp].Func(v[len(pk)+1:])
					}
				}
			}
			if r == nil {
				bad = "contract function " + v + " not found"
				break
			}
			x.replace[k] = r
		}
		for _, h := range u.Hooks {
			if ins, ok := hookSets[h]; ok {
				ins(x)
			} else {
				bad = "hook set " + h
			}
		}
		for _, o := range u.Opaque {
			x.opaqueFns[o] = true
		}
		if bad != "" {
			res.Err = bad
			return
		}
		label := ""
		for _, e := range u.Enum {
			label += " " + e.param + "=" + inst[e.param]
		}
		err := x.runHarness(f, inst)
		obs, covers := x.discharge(time.Duration(u.Timeout)*time.Second, workersN())
		for i := range obs {
			obs[i].Name += label
		}
		for i := range covers {
			covers[i].Name += label
		}
		res.Obs = append(res.Obs, obs...)
		res.Covers = append(res.Covers, covers...)
		res.SolverS += x.solverTime.Seconds()
		for k := range x.fns {
			fnset[k] = true
		}
		for k := range x.contracts {
			ctset[k] = true
		}
		for k := range x.assumptions {
			asset[k] = true
		}
		for k, v := range x.summaries {
			res.Summaries[k] += v
		}
		if err != "" {
			res.Err = strings.TrimSpace(label + " " + err)
			break
		}
	}
	for k := range fnset {
		if !strings.Contains(k, ".ct_") && !strings.Contains(k, ".vc_") {
			res.Functions = append(res.Functions, k)
		}
	}
	for k := range ctset {
		res.Contracts = append(res.Contracts, k)
	}
	for k := range asset {
		res.Assume = append(res.Assume, k)
	}
	sort.Strings(res.Functions)
	sort.Strings(res.Contracts)
	sort.Strings(res.Assume)
	res.WallS = time.Since(t0).Seconds()
	return
}

func workersN() int {
	if v, err := strconv.Atoi(os.Getenv("GOVC_WORKERS")); err == nil && v > 0 {
		return v
	}
	return 8
}

var hookSets = map[string]func(x *Exec){}

func (x *Exec) runHarness(f *ssa.Function, inst map[string]string) (err string) {
	defer func() {
		if r := recover(); r != nil {
			if os.Getenv("GOVC_PANIC") != "" {
				panic(r)
			}
			where := ""
			for _, fr := range x.frames {
				where += " > " + fr.fn.Name()
			}
			x.quiet = 0
			err = fmt.Sprintf("outside the verifier's reach: %v (in%s)", r, where)
		}
	}()
	st := &State{g: True, mem: map[*Obj]Value{}, env: map[ssa.Value]Value{}}
	var args []Value
	for _, p := range f.Params {
		if v, ok := inst[p.Name()]; ok {
			args = append(args, x.enumVal(p.Type(), v))
			continue
		}
		args = append(args, force(x.input(p.Name(), nil, p.Type(), true)))
	}
	x.callFn(f, nil, st, args, nil)
	return ""
}

func (x *Exec) enumVal(t types.Type, v string) Value {
	s := sortOf(t)
	switch s.K {
	case KBool:
		return BoolC(v == "true" || v == "1")
	case KStr:
		return StrC(v)
	}
	n, _ := strconv.ParseInt(v, 10, 64)
	return NumC(s, n)
}

func modelLen() int {
	if os.Getenv("GOVC_V") != "" {
		return 4000
	}
	return 150
}
