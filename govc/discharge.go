package main

import (
	"context"
	"fmt"
	"os"
	"sort"
	"strings"
	"sync"
	"time"
)

// ---------------------------------------------------------------- quick queries during execution

var symCache = map[int][]string{}

func symsOf(t *Term) []string {
	if s, ok := symCache[t.id]; ok {
		return s
	}
	set := map[string]bool{}
	seen := map[int]bool{}
	var w func(t *Term)
	w = func(t *Term) {
		if seen[t.id] {
			return
		}
		seen[t.id] = true
		if t.Op == "var" || t.Op == "uf" {
			set[t.Str] = true
		}
		for _, a := range t.Args {
			w(a)
		}
	}
	w(t)
	out := make([]string, 0, len(set))
	for k := range set {
		out = append(out, k)
	}
	sort.Strings(out)
	symCache[t.id] = out
	return out
}

// sliceFacts: facts connected to the goal by shared symbols. covered: only facts all of whose symbols are known.
func sliceFacts(goal []*Term, facts []*Term, rounds int) []*Term {
	S := map[string]bool{}
	for _, g := range goal {
		for _, s := range symsOf(g) {
			S[s] = true
		}
	}
	in := make([]bool, len(facts))
	for r := 0; r < rounds; r++ {
		ch := false
		var add []string
		for i, f := range facts {
			if in[i] {
				continue
			}
			ss := symsOf(f)
			n := 0
			for _, s := range ss {
				if S[s] {
					n++
				}
			}
			if n == 0 {
				continue
			}
			in[i] = true
			ch = true
			add = append(add, ss...)
		}
		for _, s := range add {
			S[s] = true
		}
		if !ch {
			break
		}
	}
	var out []*Term
	for i, f := range facts {
		if in[i] {
			out = append(out, f)
		}
	}
	return out
}

func (x *Exec) quickValid(g, cond *Term) bool {
	ng := And(g, Not(cond))
	if ng == False {
		return true
	}
	if ng == True {
		return false
	}
	fs := append(sliceFacts([]*Term{ng}, x.facts, 2), ng)
	r := runSolverQuick(smtQuery(fs, nil), 2*time.Second)
	x.solverTime += r.dur
	return r.status == "unsat"
}

func (x *Exec) feasible(st *State) bool {
	if st.g == False {
		return false
	}
	if v, ok := x.feasCache[st.g.id]; ok {
		return v
	}
	fs := append(sliceFacts([]*Term{st.g}, x.facts, 1), st.g)
	r := runSolverQuick(smtQuery(fs, nil), 1*time.Second)
	x.solverTime += r.dur
	v := r.status != "unsat"
	x.feasCache[st.g.id] = v
	return v
}

// ---------------------------------------------------------------- discharge of obligations

type ObRes struct {
	Name   string
	Kind   string
	Func   string
	Pos    string
	OK     bool
	By     string
	Status string
	Ms     int64
	Model  string
	Query  string
}

func (x *Exec) discharge(timeout time.Duration, workers int) ([]ObRes, []ObRes) {
	type job struct {
		ob     *Ob
		small  string
		script string
		full   string
		cover  bool
		batch  []*job
		prep   func()
	}
	var res []ObRes
	var jobs []*job
	idx := map[[2]int]int{}
	var dup [][2]int // (result index, representative)
	for _, ob := range x.obs {
		r := ObRes{Name: ob.Name, Kind: ob.Kind, Func: ob.fn, Pos: x.posStr(ob.pos)}
		goal := And(ob.g, Not(ob.cond))
		if ob.cond == True || goal == False {
			r.OK, r.By, r.Status = true, "simplifier", "unsat"
			res = append(res, r)
			continue
		}
		key := [2]int{goal.id, 0}
		if j, ok := idx[key]; ok {
			dup = append(dup, [2]int{len(res), j})
			res = append(res, r)
			continue
		}
		idx[key] = len(res)
		j := &job{ob: ob}
		j.prep = func() {
		ob, facts := j.ob, x.facts[:j.ob.nfact]
		s1 := sliceFacts([]*Term{goal}, facts, 1)
		s3 := sliceFacts([]*Term{goal}, facts, 4)
		// fewest premises first: the conjuncts of the path condition that mention the condition's symbols
		if cj := conjuncts(ob.g); len(cj) > 3 {
			nc := Not(ob.cond)
			near := sliceFacts([]*Term{nc}, cj, 1)
			if len(near) < len(cj) {
				sg := append(near, nc)
				j.small = smtQuery(append(sliceFacts(sg, facts, 1), sg...), nil)
			}
		}
		mv := modelVars(goal)
		j.script = smtQuery(append(append([]*Term{}, s1...), goal), mv)
		if len(s3) != len(s1) {
			j.full = smtQuery(append(append([]*Term{}, s3...), goal), mv)
		}
		}
		jobs = append(jobs, j)
		res = append(res, r)
		ob.ri = len(res) - 1
	}
	covers := make([]ObRes, len(x.covers))
	for i, c := range x.covers {
		covers[i] = ObRes{Name: c.Name, Kind: "cover", Pos: x.posStr(c.pos)}
		c.ri = i
		if c.g == False {
			covers[i].Status = "unsat"
			continue
		}
		s := sliceFacts([]*Term{c.g}, x.facts[:c.nfact], 2)
		jobs = append(jobs, &job{ob: c, cover: true, script: smtQuery(append(append([]*Term{}, s...), c.g), nil)})
	}
	ch := make(chan *job)
	var wg sync.WaitGroup
	var mu sync.Mutex
	for w := 0; w < workers; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			var do func(j *job)
			do = func(j *job) {
				t0 := time.Now()
				if j.batch != nil {
					// several obligations in one query: the disjunction of their negations, with the premises all of them have
					r := runSolver(context.Background(), solvers[0], j.script, 6*time.Second)
					mu.Lock()
					x.solverTime += time.Since(t0)
					if r.status == "unsat" {
						for _, b := range j.batch {
							o := &res[b.ob.ri]
							o.Status, o.By, o.OK = "unsat", solvers[0].name, true
							o.Ms = time.Since(t0).Milliseconds() / int64(len(j.batch))
						}
					}
					mu.Unlock()
					if r.status != "unsat" {
						for _, b := range j.batch {
							do(b)
						}
					}
					return
				}
				if j.prep != nil {
					mu.Lock()
					j.prep()
					j.prep = nil
					mu.Unlock()
					t0 = time.Now()
				}
				to := timeout
				if j.cover {
					to = 8 * time.Second
				} else if j.full != "" {
					to = timeout / 2
				}
				r := solveRes{status: "unknown"}
				if j.small != "" {
					r = runSolver(context.Background(), solvers[0], j.small, 4*time.Second)
				}
				q := j.script
				if r.status != "unsat" {
					r = solve(j.script, to)
				}
				if !j.cover && r.status != "unsat" && j.full != "" {
					r2 := solve(j.full, timeout)
					if r2.status != "unknown" || r.status == "sat" {
						r = r2
						q = j.full
					}
				}
				mu.Lock()
				x.solverTime += time.Since(t0)
				if j.cover {
					c := &covers[j.ob.ri]
					c.Status = r.status
					c.OK = r.status != "unsat"
					c.By = r.solver
				} else {
					o := &res[j.ob.ri]
					o.Status, o.By = r.status, r.solver
					o.OK = r.status == "unsat"
					o.Ms = time.Since(t0).Milliseconds()
					if os.Getenv("GOVC_SLOW") != "" && o.Ms > 1500 {
						fmt.Fprintf(os.Stderr, "SLOW %d ms %s [%s] %s %s: %.300s\n", o.Ms, o.By, o.Kind, o.Name, o.Pos, j.ob.cond)
					}
					if !o.OK {
						o.Model = trunc(r.model, 4000)
						if r.status == "unknown" {
							o.Model = trunc(r.out, 1000)
						}
						o.Query = trunc(q, 20000)
					}
				}
				mu.Unlock()
			}
			for j := range ch {
				do(j)
			}
		}()
	}
	if len(jobs) > 40 {
		var bs, rest []*job
		for _, j := range jobs {
			if j.cover || j.ob.Kind == "post" {
				rest = append(rest, j)
				continue
			}
			n := len(bs)
			if n > 0 && len(bs[n-1].batch) < 16 {
				bs[n-1].batch = append(bs[n-1].batch, j)
			} else {
				bs = append(bs, &job{batch: []*job{j}})
			}
		}
		for _, b := range bs {
			if len(b.batch) == 1 {
				rest = append(rest, b.batch[0])
				continue
			}
			nf := b.batch[0].ob.nfact
			var goals []*Term
			for _, j := range b.batch {
				if j.ob.nfact < nf {
					nf = j.ob.nfact
				}
				goals = append(goals, And(j.ob.g, Not(j.ob.cond)))
			}
			fs := sliceFacts(goals, x.facts[:nf], 1)
			b.script = smtQuery(append(append([]*Term{}, fs...), Or(goals...)), nil)
			rest = append(rest, b)
		}
		jobs = rest
	}
	for _, j := range jobs {
		ch <- j
	}
	close(ch)
	wg.Wait()
	for _, d := range dup {
		s := res[d[1]]
		r := &res[d[0]]
		r.OK, r.By, r.Status, r.Model, r.Query = s.OK, s.By, s.Status, s.Model, s.Query
	}
	return res, covers
}

func trunc(s string, n int) string {
	if len(s) > n {
		return s[:n] + "…"
	}
	return s
}

// modelVars: scalar variables reported with a counterexample
func modelVars(goal *Term) []*Term {
	var out []*Term
	seen := map[int]bool{}
	var w func(t *Term, under bool)
	w = func(t *Term, under bool) {
		if seen[t.id] {
			return
		}
		seen[t.id] = true
		if t.Op == "forall" {
			return
		}
		if (t.Op == "var" || t.Op == "uf" && len(t.Args) == 0) && t.Sort.K != KStr && len(out) < 60 && !strings.Contains(t.Str, "!k") {
			out = append(out, t)
		}
		for _, a := range t.Args {
			w(a, under)
		}
	}
	w(goal, false)
	sortTerms(out)
	return out
}

var _ = fmt.Sprint
var _ = os.Stderr

func conjuncts(t *Term) []*Term {
	if t.Op != "and" {
		return []*Term{t}
	}
	var out []*Term
	for _, a := range t.Args {
		out = append(out, conjuncts(a)...)
	}
	return out
}
