package main

import (
	"fmt"
	"go/token"
	"hash/fnv"
	"regexp/syntax"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// regexp: patterns of package-level variables are compiled with regexp/syntax (the compiler package regexp itself
// uses) and run over ropes. A rope is literals and symbolic pieces of known byte class and least length, so all its
// instances are covered: "always" / "never" are exact for the class abstraction, submatches are returned only when
// every accepting run gives the same ones.

type regexInfo struct {
	pat   string
	name  string
	prog  *syntax.Prog
	ncap  int
	sub   []strFact // what is known of each group
	isAny map[uint32]bool
}

var regexObjs = map[*Obj]*regexInfo{}
var regexByPat = map[string]*regexInfo{}

func compileRegex(pat string) *regexInfo {
	if r, ok := regexByPat[pat]; ok {
		return r
	}
	re, err := syntax.Parse(pat, syntax.Perl)
	if err != nil {
		panic(unsup("regexp %q: %v", pat, err))
	}
	r := &regexInfo{pat: pat, ncap: re.MaxCap() + 1}
	r.sub = make([]strFact, r.ncap)
	r.sub[0] = strFact{cls: reClass(re), min: reMin(re)}
	var walk func(e *syntax.Regexp, opt bool)
	walk = func(e *syntax.Regexp, opt bool) {
		switch e.Op {
		case syntax.OpCapture:
			m := reMin(e.Sub[0])
			if opt {
				m = 0
			}
			r.sub[e.Cap] = strFact{cls: reClass(e.Sub[0]), min: m}
		case syntax.OpAlternate, syntax.OpStar, syntax.OpQuest, syntax.OpRepeat:
			opt = true
		}
		for _, s := range e.Sub {
			walk(s, opt)
		}
	}
	walk(re, false)
	prog, err := syntax.Compile(re.Simplify())
	if err != nil {
		panic(unsup("regexp %q: %v", pat, err))
	}
	r.prog = prog
	for pc := range prog.Inst {
		in := &prog.Inst[pc]
		switch in.Op {
		case syntax.InstRuneAny, syntax.InstRuneAnyNotNL:
			// one rune of several bytes is read byte by byte: the same language when the instruction loops
			out := prog.Inst[in.Out]
			if out.Op != syntax.InstAlt || (out.Out != uint32(pc) && out.Arg != uint32(pc)) {
				panic(unsup("regexp %q: '.' outside a repetition", pat))
			}
		case syntax.InstRune:
			for _, x := range in.Rune {
				if x >= 0x80 {
					panic(unsup("regexp %q: non-ASCII class", pat))
				}
			}
			if syntax.Flags(in.Arg)&syntax.FoldCase != 0 {
				panic(unsup("regexp %q: case folding", pat))
			}
		case syntax.InstRune1:
			if in.Rune[0] >= 0x80 || syntax.Flags(in.Arg)&syntax.FoldCase != 0 {
				panic(unsup("regexp %q: non-ASCII rune", pat))
			}
		case syntax.InstEmptyWidth:
			if a := syntax.EmptyOp(in.Arg); a != syntax.EmptyBeginText && a != syntax.EmptyEndText {
				panic(unsup("regexp %q: assertion %v", pat, a))
			}
		}
	}
	if n := len(re.Sub); re.Op != syntax.OpConcat || re.Sub[0].Op != syntax.OpBeginText || re.Sub[n-1].Op != syntax.OpEndText {
		panic(unsup("regexp %q is not anchored", pat))
	}
	h := fnv.New32a()
	h.Write([]byte(pat))
	r.name = fmt.Sprintf("%.8s..%08x", pat, h.Sum32())
	regexByPat[pat] = r
	regexByName[r.name] = r
	return r
}

func reClass(e *syntax.Regexp) (c Class) {
	switch e.Op {
	case syntax.OpLiteral:
		return classOfLit(string(e.Rune))
	case syntax.OpCharClass:
		for i := 0; i+1 < len(e.Rune); i += 2 {
			if e.Rune[i+1] >= 0x80 {
				return classAny
			}
			c = c.union(classRange(byte(e.Rune[i]), byte(e.Rune[i+1])))
		}
		return c
	case syntax.OpAnyCharNotNL:
		return classOfLit("\n").not()
	case syntax.OpAnyChar:
		return classAny
	}
	for _, s := range e.Sub {
		c = c.union(reClass(s))
	}
	return c
}
func reMin(e *syntax.Regexp) int {
	switch e.Op {
	case syntax.OpLiteral:
		return len(string(e.Rune))
	case syntax.OpCharClass, syntax.OpAnyCharNotNL, syntax.OpAnyChar:
		return 1
	case syntax.OpCapture, syntax.OpPlus:
		return reMin(e.Sub[0])
	case syntax.OpConcat:
		n := 0
		for _, s := range e.Sub {
			n += reMin(s)
		}
		return n
	case syntax.OpAlternate:
		n := reMin(e.Sub[0])
		for _, s := range e.Sub[1:] {
			if m := reMin(s); m < n {
				n = m
			}
		}
		return n
	case syntax.OpRepeat:
		return e.Min * reMin(e.Sub[0])
	}
	return 0
}

func instClass(in *syntax.Inst) (c Class) {
	switch in.Op {
	case syntax.InstRuneAny:
		return classAny
	case syntax.InstRuneAnyNotNL:
		return classOfLit("\n").not()
	case syntax.InstRune1:
		return classOfLit(string(in.Rune))
	case syntax.InstRune:
		if len(in.Rune) == 1 {
			return classOfLit(string(in.Rune))
		}
		for i := 0; i+1 < len(in.Rune); i += 2 {
			c = c.union(classRange(byte(in.Rune[i]), byte(in.Rune[i+1])))
		}
	}
	return c
}

// ---- exact decision by the set of reachable subset states

type reSet string // sorted program counters (after closure, only consuming, end-of-text and match instructions)

func (r *regexInfo) closure(pcs []uint32, begin bool) []uint32 {
	seen := map[uint32]bool{}
	var out []uint32
	var add func(pc uint32)
	add = func(pc uint32) {
		if seen[pc] {
			return
		}
		seen[pc] = true
		in := &r.prog.Inst[pc]
		switch in.Op {
		case syntax.InstAlt, syntax.InstAltMatch:
			add(in.Out)
			add(in.Arg)
		case syntax.InstCapture, syntax.InstNop:
			add(in.Out)
		case syntax.InstEmptyWidth:
			if syntax.EmptyOp(in.Arg) == syntax.EmptyBeginText {
				if begin {
					add(in.Out)
				}
				return
			}
			out = append(out, pc)
		case syntax.InstFail:
		default:
			out = append(out, pc)
		}
	}
	for _, p := range pcs {
		add(p)
	}
	sort.Slice(out, func(i, j int) bool { return out[i] < out[j] })
	return out
}

func (r *regexInfo) step(set []uint32, b byte) []uint32 {
	var nx []uint32
	for _, pc := range set {
		in := &r.prog.Inst[pc]
		if in.Op == syntax.InstEmptyWidth || in.Op == syntax.InstMatch {
			continue
		}
		if instClass(in).has(b) {
			nx = append(nx, in.Out)
		}
	}
	return r.closure(nx, false)
}
func (r *regexInfo) accepts(set []uint32) bool {
	seen := map[uint32]bool{}
	var ok func(pc uint32) bool
	ok = func(pc uint32) bool {
		if seen[pc] {
			return false
		}
		seen[pc] = true
		in := &r.prog.Inst[pc]
		switch in.Op {
		case syntax.InstMatch:
			return true
		case syntax.InstEmptyWidth:
			return syntax.EmptyOp(in.Arg) == syntax.EmptyEndText && ok(in.Out)
		case syntax.InstAlt, syntax.InstAltMatch:
			return ok(in.Out) || ok(in.Arg)
		case syntax.InstCapture, syntax.InstNop:
			return ok(in.Out)
		}
		return false
	}
	for _, pc := range set {
		if ok(pc) {
			return true
		}
	}
	return false
}

// decide: all / none of the instances of the pieces match
func (r *regexInfo) decide(ps []*Term) (always, never bool) {
	type ds = []uint32
	key := func(s ds) string { return fmt.Sprint(s) }
	cur := map[string]ds{}
	s0 := r.closure([]uint32{uint32(r.prog.Start)}, true)
	cur[key(s0)] = s0
	for _, p := range ps {
		nx := map[string]ds{}
		if p.Op == "lit" {
			for _, s := range cur {
				for i := 0; i < len(p.Str); i++ {
					s = r.step(s, p.Str[i])
				}
				nx[key(s)] = s
			}
		} else {
			cls, min := clsOf(p), minLen(p)
			if min > 8 {
				min = 8
			}
			type it struct {
				s ds
				n int
			}
			seen := map[string]bool{}
			var q []it
			push := func(s ds, n int) {
				if n > min {
					n = min
				}
				k := fmt.Sprint(n, s)
				if !seen[k] {
					seen[k] = true
					q = append(q, it{s, n})
				}
			}
			for _, k := range sortedKeys(cur) {
				push(cur[k], 0)
			}
			for len(q) > 0 {
				e := q[0]
				q = q[1:]
				if e.n >= min {
					nx[key(e.s)] = e.s
				}
				done := map[string]bool{}
				for b := 0; b < 256; b++ {
					if cls.has(byte(b)) {
						t := r.step(e.s, byte(b))
						if k := key(t); !done[k] {
							done[k] = true
							push(t, e.n+1)
						}
					}
				}
			}
		}
		cur = nx
	}
	always, never = true, true
	for _, s := range cur {
		if r.accepts(s) {
			never = false
		} else {
			always = false
		}
	}
	return
}

// ---- submatches

type rePos struct{ i, off int } // piece, offset in a literal; off -1: somewhere inside a symbolic piece

type reThread struct {
	pc    uint32
	caps  []rePos // 2 per group, i = -1 unset
	empty string  // pieces assumed empty
}

func (t *reThread) key() string { return fmt.Sprint(t.pc, t.caps, t.empty) }

func (r *regexInfo) tagClosure(ts []*reThread, at rePos, begin, end bool) (out []*reThread) {
	seen := map[string]bool{}
	var add func(t *reThread)
	add = func(t *reThread) {
		k := t.key()
		if seen[k] {
			return
		}
		seen[k] = true
		in := &r.prog.Inst[t.pc]
		to := func(pc uint32) *reThread { return &reThread{pc, t.caps, t.empty} }
		switch in.Op {
		case syntax.InstAlt, syntax.InstAltMatch:
			add(to(in.Out))
			add(to(in.Arg))
		case syntax.InstNop:
			add(to(in.Out))
		case syntax.InstCapture:
			n := to(in.Out)
			n.caps = append([]rePos{}, t.caps...)
			n.caps[in.Arg] = at
			add(n)
		case syntax.InstEmptyWidth:
			if syntax.EmptyOp(in.Arg) == syntax.EmptyBeginText {
				if begin {
					add(to(in.Out))
				}
				return
			}
			if end {
				add(to(in.Out))
				return
			}
			out = append(out, t)
		case syntax.InstFail:
		default:
			out = append(out, t)
		}
	}
	for _, t := range ts {
		add(t)
	}
	return out
}

// prune drops a run that is another run with more pieces taken to be empty: where those agree with the
// general run, so does it
func prune(ts []*reThread) (out []*reThread) {
	type ent struct {
		t   *reThread
		set map[string]bool
	}
	by := map[string][]ent{}
	var keys []string
	for _, t := range ts {
		k := fmt.Sprint(t.pc, t.caps)
		e := ent{t, map[string]bool{}}
		for _, f := range strings.Split(t.empty, ",") {
			if f != "" {
				e.set[f] = true
			}
		}
		if by[k] == nil {
			keys = append(keys, k)
		}
		by[k] = append(by[k], e)
	}
	sub := func(a, b map[string]bool) bool {
		for f := range a {
			if !b[f] {
				return false
			}
		}
		return true
	}
	for _, k := range keys {
		es := by[k]
		for i, e := range es {
			keep := true
			for j, f := range es {
				if i != j && sub(f.set, e.set) && (len(f.set) < len(e.set) || j < i) {
					keep = false
				}
			}
			if keep {
				out = append(out, e.t)
			}
		}
	}
	return
}

// submatch: the groups, common to all accepting runs
func (r *regexInfo) submatch(ps []*Term) []*Term {
	caps := make([]rePos, 2*r.ncap)
	for i := range caps {
		caps[i] = rePos{-1, 0}
	}
	cur := r.tagClosure([]*reThread{{pc: uint32(r.prog.Start), caps: caps}}, rePos{0, 0}, true, false)
	step := func(ts []*reThread, c Class) (out []*reThread) {
		for _, t := range ts {
			in := &r.prog.Inst[t.pc]
			if in.Op == syntax.InstEmptyWidth || in.Op == syntax.InstMatch {
				continue
			}
			if !instClass(in).disjoint(c) {
				out = append(out, &reThread{in.Out, t.caps, t.empty})
			}
		}
		return
	}
	for i, p := range ps {
		if p.Op == "lit" {
			for k := 0; k < len(p.Str); k++ {
				at := rePos{i, k + 1}
				if k+1 == len(p.Str) {
					at = rePos{i + 1, 0}
				}
				cur = r.tagClosure(step(cur, classOfLit(p.Str[k:k+1])), at, false, false)
			}
			continue
		}
		c := clsOf(p)
		var nx []*reThread
		if minLen(p) == 0 {
			for _, t := range cur {
				nx = append(nx, &reThread{t.pc, t.caps, t.empty + fmt.Sprintf("%d,", i)})
			}
		}
		seen := map[string]bool{}
		ends := map[string]bool{}
		work := cur
		for len(work) > 0 {
			raw := step(work, c)
			for _, t := range r.tagClosure(raw, rePos{i + 1, 0}, false, false) {
				if k := t.key(); !ends[k] {
					ends[k] = true
					nx = append(nx, t)
				}
			}
			work = nil
			for _, t := range r.tagClosure(raw, rePos{i, -1}, false, false) {
				if k := t.key(); !seen[k] {
					seen[k] = true
					work = append(work, t)
				}
			}
			if len(seen) > 5000 {
				panic(unsup("regexp %q: too many runs", r.pat))
			}
		}
		cur = prune(nx)
	}
	var acc []*reThread
	for _, t := range r.tagClosure(cur, rePos{len(ps), 0}, false, true) {
		if r.prog.Inst[t.pc].Op == syntax.InstMatch {
			acc = append(acc, t)
		}
	}
	text := func(t *reThread, g int, drop string) *Term {
		a, b := t.caps[2*g], t.caps[2*g+1]
		if g == 0 {
			a, b = rePos{0, 0}, rePos{len(ps), 0}
		}
		if a.i < 0 || b.i < 0 {
			return StrC("")
		}
		if a.off < 0 || b.off < 0 {
			return nil
		}
		var out []*Term
		for i := a.i; i <= b.i && i < len(ps); i++ {
			p := ps[i]
			if p.Op == "lit" {
				lo, hi := 0, len(p.Str)
				if i == a.i {
					lo = a.off
				}
				if i == b.i {
					hi = b.off
				}
				if lo < hi {
					out = append(out, StrC(p.Str[lo:hi]))
				}
				continue
			}
			if i == b.i {
				break
			}
			if strings.Contains(","+drop, fmt.Sprintf(",%d,", i)) {
				continue
			}
			out = append(out, p)
		}
		return Concat(out...)
	}
	var gen *reThread
	for _, t := range acc {
		if t.empty == "" {
			gen = t
			break
		}
	}
	if gen == nil {
		return nil
	}
	res := make([]*Term, r.ncap)
	for g := range res {
		if res[g] = text(gen, g, ""); res[g] == nil {
			return nil
		}
		for _, t := range acc {
			if a, b := text(t, g, t.empty), text(gen, g, t.empty); a == nil || a != b {
				return nil
			}
		}
	}
	return res
}

func init() {
	reg([]string{"regexp.MustCompile"}, func(x *Exec, fr *Frame, st *State, a []Value, c *ssa.CallCommon, pos token.Pos) Value {
		r := compileRegex(litOf(a[0]))
		o := newObj("regexp", c.Signature().Results().At(0).Type())
		regexObjs[o] = r
		return ptrTo(o)
	})
	get := func(v Value) *regexInfo {
		p, ok := force(v).(*PtrV)
		if !ok || len(p.alts) != 1 || p.alts[0].loc == nil || regexObjs[p.alts[0].loc.obj] == nil {
			panic(unsup("regular expression unknown"))
		}
		return regexObjs[p.alts[0].loc.obj]
	}
	match := func(r *regexInfo, s *Term) *Term {
		return iteStr(s, func(s *Term) *Term {
			al, nv := r.decide(pieces(s))
			if al {
				return True
			}
			if nv {
				return False
			}
			return UF("re:"+r.name, SBool, s)
		})
	}
	reg([]string{"(*regexp.Regexp).MatchString"}, func(x *Exec, fr *Frame, st *State, a []Value, c *ssa.CallCommon, pos token.Pos) Value {
		x.assumptions["package regexp matches the language of the pattern as compiled by regexp/syntax"] = true
		return match(get(a[0]), tm(a[1]))
	})
	reg([]string{"(*regexp.Regexp).FindStringSubmatch"}, func(x *Exec, fr *Frame, st *State, a []Value, c *ssa.CallCommon, pos token.Pos) Value {
		x.assumptions["package regexp matches the language of the pattern as compiled by regexp/syntax"] = true
		r, s := get(a[0]), tm(a[1])
		m := match(r, s)
		if m == False {
			return nilSlice()
		}
		cells := make([]Value, r.ncap)
		for g := range cells {
			g := g
			cells[g] = iteStr(s, func(s *Term) *Term {
				if al, nv := r.decide(pieces(s)); nv {
					return StrC("")
				} else if al {
					if sub := r.submatch(pieces(s)); sub != nil {
						return sub[g]
					}
				}
				if g == 0 {
					return s
				}
				// the group is its own function of the line
				f := r.sub[g]
				return ufStr(fmt.Sprintf("re:%d:%s", g, r.name), f.cls, f.min, s)
			})
		}
		sv := x.strSlice(st, &CellSeq{cells})
		if m == True {
			return sv
		}
		z := IntC(0)
		return &SliceV{arr: sv.arr, off: z, len: Ite(m, sv.len, z), cap: Ite(m, sv.cap, z), isnil: Not(m)}
	})
}

// ---- relations between languages (automata product), used as axioms about the match predicates of one string

type reRel struct{ aInB, bInA, disj bool }

var reRels = map[[2]string]reRel{}
var regexByName = map[string]*regexInfo{}

func relate(a, b *regexInfo) reRel {
	if r, ok := reRels[[2]string{a.name, b.name}]; ok {
		return r
	}
	type pair struct{ s, t []uint32 }
	r := reRel{true, true, true}
	seen := map[string]bool{}
	q := []pair{{a.closure([]uint32{uint32(a.prog.Start)}, true), b.closure([]uint32{uint32(b.prog.Start)}, true)}}
	for len(q) > 0 {
		p := q[0]
		q = q[1:]
		x, y := a.accepts(p.s), b.accepts(p.t)
		if x && !y {
			r.aInB = false
		}
		if y && !x {
			r.bInA = false
		}
		if x && y {
			r.disj = false
		}
		done := map[string]bool{}
		for c := 0; c < 256; c++ {
			n := pair{a.step(p.s, byte(c)), b.step(p.t, byte(c))}
			if len(n.s) == 0 && len(n.t) == 0 {
				continue
			}
			k := fmt.Sprint(n.s, n.t)
			if done[k] {
				continue
			}
			done[k] = true
			if !seen[k] {
				seen[k] = true
				q = append(q, n)
			}
		}
		if len(seen) > 200000 {
			r = reRel{}
			break
		}
	}
	reRels[[2]string{a.name, b.name}] = r
	return r
}

// reLemmas: what the patterns say about the match predicates of one string
func reLemmas(res []*Term, lits []string) (out []*Term) {
	for i, a := range res {
		ra := regexByName[strings.TrimPrefix(a.Str, "re:")]
		for _, b := range res[:i] {
			if a.Args[0] != b.Args[0] {
				continue
			}
			r := relate(ra, regexByName[strings.TrimPrefix(b.Str, "re:")])
			if r.aInB {
				out = append(out, Implies(a, b))
			}
			if r.bInA {
				out = append(out, Implies(b, a))
			}
			if r.disj {
				out = append(out, Not(And(a, b)))
			}
		}
		for _, l := range lits {
			e := Eq(a.Args[0], StrC(l))
			if e == False {
				continue
			}
			al, _ := ra.decide(pieces(StrC(l)))
			out = append(out, Implies(e, Eq(a, BoolC(al))))
		}
	}
	return
}
