package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math/big"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---------------------------------------------------------------- substitution in values

type subst struct {
	x    *Exec
	m    map[*Term]*Term
	objs map[*Obj]*Obj
	tc   map[int]*Term
	vc   map[Value]Value
}

func (x *Exec) newSubst(m map[*Term]*Term, objs map[*Obj]*Obj) *subst {
	return &subst{x: x, m: m, objs: objs, tc: map[int]*Term{}}
}
func (x *Exec) substVal(v Value, m map[*Term]*Term) Value {
	return x.newSubst(m, nil).val(v)
}
func (s *subst) term(t *Term) *Term { return substC(t, s.m, s.tc) }
func (s *subst) loc(l *Loc) *Loc {
	if l == nil {
		return nil
	}
	o := s.obj(l.obj)
	ch := o != l.obj
	np := make([]PathEl, len(l.path))
	for i, p := range l.path {
		np[i] = p
		if p.idx != nil {
			np[i].idx = s.term(p.idx)
			if np[i].idx != p.idx {
				ch = true
			}
		}
	}
	if !ch {
		return l
	}
	return &Loc{obj: o, path: np}
}

type famInfo struct {
	ks      []*Term
	content Value
}

func (s *subst) obj(o *Obj) *Obj {
	if s.objs != nil {
		if n, ok := s.objs[o]; ok {
			return n
		}
	}
	if o.mkInst != nil {
		ch := false
		na := make([]*Term, len(o.args))
		for i, a := range o.args {
			na[i] = s.term(a)
			if na[i] != a {
				ch = true
			}
		}
		if ch {
			return o.mkInst(na)
		}
		return o
	}
	if f, ok := s.x.fam[o]; ok {
		key := fmt.Sprintf("%d", o.id)
		ch := false
		for _, k := range f.ks {
			r := s.term(k)
			if r != k {
				ch = true
			}
			key += fmt.Sprintf(",%d", r.id)
		}
		if !ch {
			return o
		}
		if n, ok := s.x.famInst[key]; ok {
			return n
		}
		n := newObj(o.name+"@", o.typ)
		s.x.famInst[key] = n
		mm := map[*Term]*Term{}
		for _, k := range f.ks {
			mm[k] = s.term(k)
		}
		content := f.content
		n.init = func() Value { return s.x.substVal(content, mm) }
		// later substitutions go through the original family
		var nargs []*Term
		for _, k := range f.ks {
			nargs = append(nargs, mm[k])
		}
		n.args = nargs
		orig := o
		ks := f.ks
		n.mkInst = func(na []*Term) *Obj {
			m2 := map[*Term]*Term{}
			for i, k := range ks {
				m2[k] = na[i]
			}
			return s.x.newSubst(m2, nil).obj(orig)
		}
		return n
	}
	return o
}
func (s *subst) val(v Value) Value {
	switch v.(type) {
	case *StructV, *IteSeq, *UpdSeq, *SegSeq, *CellSeq, *FnSeq, *MapC, *IfaceV, *FuncV, *Lazy:
		// shared parts stay shared
		if n, ok := s.vc[v]; ok {
			return n
		}
		n := s.val1(v)
		if s.vc == nil {
			s.vc = map[Value]Value{}
		}
		s.vc[v] = n
		return n
	}
	return s.val1(v)
}
func (s *subst) val1(v Value) Value {
	switch t := v.(type) {
	case nil:
		return nil
	case *Term:
		return s.term(t)
	case *Lazy:
		if t.v != nil {
			return s.val(t.v)
		}
		return &Lazy{f: func() Value { return s.val(force(t)) }}
	case *StructV:
		ch := false
		n := make([]Value, len(t.f))
		for i, f := range t.f {
			n[i] = s.val(f)
			if n[i] != f {
				ch = true
			}
		}
		if !ch {
			return t
		}
		return &StructV{n}
	case TupleV:
		n := make(TupleV, len(t))
		for i, f := range t {
			n[i] = s.val(f)
		}
		return n
	case *PtrV:
		ch := false
		n := &PtrV{}
		for _, a := range t.alts {
			g, l := s.term(a.g), s.loc(a.loc)
			if g != a.g || l != a.loc {
				ch = true
			}
			if g != False {
				n.alts = append(n.alts, PtrAlt{g, l})
			}
		}
		if !ch {
			return t
		}
		return n
	case *MapRef:
		p := s.val(t.p).(*PtrV)
		if p == t.p {
			return t
		}
		return &MapRef{p}
	case *SliceV:
		n := &SliceV{arr: s.loc(t.arr), off: s.term(t.off), len: s.term(t.len), cap: s.term(t.cap), isnil: s.term(t.isnil)}
		if t.full != nil {
			n.full = s.term(t.full)
		}
		if n.arr == t.arr && n.off == t.off && n.len == t.len && n.cap == t.cap && n.isnil == t.isnil && n.full == t.full {
			return t
		}
		return n
	case *IfaceV:
		ch := false
		n := &IfaceV{}
		for _, a := range t.alts {
			b := a
			b.g = s.term(a.g)
			if a.val != nil {
				b.val = s.val(a.val)
			}
			if a.opq != nil {
				b.opq = s.term(a.opq)
			}
			if b.g != a.g || b.val != a.val || b.opq != a.opq {
				ch = true
			}
			if b.g != False {
				n.alts = append(n.alts, b)
			}
		}
		if !ch {
			return t
		}
		return n
	case *OpaqueV:
		if t.id != nil {
			if n := s.term(t.id); n != t.id {
				return &OpaqueV{id: n, name: t.name, typ: t.typ}
			}
		}
		return t
	case *FuncAlts:
		n := &FuncAlts{}
		ch := false
		for _, a := range t.alts {
			g := s.term(a.g)
			f := s.val(a.f).(*FuncV)
			if g != a.g || f != a.f {
				ch = true
			}
			if g != False {
				n.alts = append(n.alts, FuncAlt{g, f})
			}
		}
		if !ch {
			return t
		}
		if len(n.alts) == 1 {
			return n.alts[0].f
		}
		return n
	case *FuncV:
		n := &FuncV{fn: t.fn, name: t.name}
		ch := false
		for _, b := range t.binds {
			c := s.val(b)
			if c != b {
				ch = true
			}
			n.binds = append(n.binds, c)
		}
		if !ch {
			return t
		}
		return n
	case *MapC:
		n := &MapC{typ: t.typ, base: t.base}
		ch := false
		if t.base != nil {
			nb := &MapBase{name: t.base.name}
			bc := false
			for _, a := range t.base.args {
				na := s.term(a)
				if na != a {
					bc = true
				}
				nb.args = append(nb.args, na)
			}
			if bc {
				n.base = nb
				ch = true
			}
		}
		for _, e := range t.entries {
			f := e
			f.g = s.term(e.g)
			f.k = s.val(e.k)
			f.v = s.val(e.v)
			if f.g != e.g || f.k != e.k || f.v != e.v {
				ch = true
			}
			n.entries = append(n.entries, f)
		}
		if !ch {
			return t
		}
		return n
	case *CellSeq:
		ch := false
		n := make([]Value, len(t.cells))
		for i, f := range t.cells {
			n[i] = s.val(f)
			if n[i] != f {
				ch = true
			}
		}
		if !ch {
			return t
		}
		return &CellSeq{n}
	case *FnSeq:
		n := &FnSeq{n: s.term(t.n), name: t.name}
		if t.src != nil {
			n.src = s.term(t.src)
		}
		if t.name == "zero" {
			n.at = t.at
			if n.n == t.n {
				return t
			}
			return n
		}
		n.at = func(i *Term) Value { return s.val(force(t.at(i))) }
		return n
	case *UpdSeq:
		b, i, u := s.val(t.base).(Seq), s.term(t.idx), s.val(t.val)
		if b == t.base && i == t.idx && u == t.val {
			return t
		}
		return &UpdSeq{base: b, idx: i, val: u}
	case *IteSeq:
		c, a, b := s.term(t.c), s.val(t.a).(Seq), s.val(t.b).(Seq)
		if c == t.c && a == t.a && b == t.b {
			return t
		}
		return &IteSeq{c, a, b}
	case *SegSeq:
		n := s.segs(t.segs)
		if n == nil {
			return t
		}
		return &SegSeq{n}
	case *Poison:
		return t
	case *iterV:
		return t
	}
	panic(unsup("subst %T", v))
}
func (s *subst) segs(in []Seg) []Seg {
	ch := false
	out := make([]Seg, 0, len(in))
	for _, g := range in {
		n := g
		n.g = s.term(g.g)
		if g.v != nil {
			n.v = s.val(g.v)
		}
		if g.k != nil {
			n.lo, n.hi = s.term(g.lo), s.term(g.hi)
			if b := s.segs(g.body); b != nil {
				n.body = b
				ch = true
			}
		}
		if g.ref != nil {
			n.ref = s.val(g.ref).(Seq)
		}
		if g.lenT != nil {
			n.lenT = s.term(g.lenT)
		}
		if g.acc != nil {
			n.acc = s.term(g.acc)
		}
		if n.g != g.g || n.v != g.v || n.lo != g.lo || n.hi != g.hi || n.lenT != g.lenT || n.acc != g.acc || n.ref != g.ref {
			ch = true
		}
		if n.g != False {
			out = append(out, n)
		} else {
			ch = true
		}
	}
	if !ch {
		return nil
	}
	return out
}

// ---------------------------------------------------------------- loops

func (s *State) clone() *State { return s.fork(True) }

func (x *Exec) runLoop(fr *Frame, h *ssa.BasicBlock, body map[*ssa.BasicBlock]bool, es []edgeState, rets *[]retEdge) []exitEdge {
	st := x.mergeEdges(fr, h, es)
	if st == nil {
		return nil
	}
	var exits []exitEdge
	var entry map[*Obj]Value
	var first map[ssa.Value]Value
	for iter := 0; ; iter++ {
		if x.feas && iter > 0 && !x.feasible(st) {
			return exits
		}
		if len(x.unroll) > 0 && ofModule(fr.fn) && (endless(h) || x.unroll[fr.fn.Name()] && !rangeHeader(h)) {
			if iter == 0 {
				entry = st.clone().mem
				first = map[ssa.Value]Value{}
				for _, in := range h.Instrs {
					if p, is := in.(*ssa.Phi); is {
						first[p] = st.env[p]
					}
				}
			}
			x.carriesNothing(st, entry, first, h)
			if iter > 40 {
				panic(unsup("loop in %s goes on", fr.fn))
			}
		} else if iter > x.maxUnroll || !x.headerDecided(fr, h, st) {
			break
		}
		if iter == 0 {
			if segs, _, ok := x.rangeSegs(fr, h, st); ok && hasFamily(segs) {
				break
			}
		}
		ex, backs := x.runRegion(fr, body, h, st, h, rets)
		exits = append(exits, ex...)
		if len(backs) == 0 {
			return exits
		}
		st = x.mergeEdges(fr, h, backs)
		if st == nil {
			return exits
		}
		if iter == 0 {
			x.summaries["unrolled loops (constant bounds)"]++
		}
	}
	// range over a guarded sequence
	if segs, phi, ok := x.rangeSegs(fr, h, st); ok {
		x.summaries["loops over guarded sequences"]++
		if x.tryMapLoop(fr, h, body, st, phi, segs) {
			return append(exits, x.runSegs(fr, h, body, st, phi, nil, rets)...)
		}
		return append(exits, x.runSegs(fr, h, body, st, phi, segs, rets)...)
	}
	x.summaries["inductive loop summaries"]++
	return append(exits, x.summarize(fr, h, body, st, nil, rets)...)
}

// carriesNothing: a loop followed round by round starts every round as it started the first one, but for the state the
// specification keeps (package-level variables): what holds of the rounds followed holds of every later one
func (x *Exec) carriesNothing(st *State, entry map[*Obj]Value, first map[ssa.Value]Value, h *ssa.BasicBlock) {
	ok := True
	for _, in := range h.Instrs {
		if p, is := in.(*ssa.Phi); is {
			a, b := first[p], st.env[p]
			if a != b && (a == nil || b == nil || valKey(a) != valKey(b)) {
				ok = False
			}
		}
	}
	for o, v := range entry {
		if o.global || o.input {
			continue
		}
		w, in := st.mem[o]
		if in && w != v && valKey(w) != valKey(v) {
			ok = False
		}
	}
	var pos token.Pos
	for _, in := range h.Instrs {
		if pos = in.Pos(); pos.IsValid() {
			break
		}
	}
	x.oblige(st, "inv", "the loop carries nothing of its own from round to round", ok, pos)
}

// endless: a loop without a condition of its own
func endless(h *ssa.BasicBlock) bool { return h.Comment == "for.body" }

func ofModule(fn *ssa.Function) bool {
	for fn.Parent() != nil {
		fn = fn.Parent()
	}
	return fn.Pkg != nil && strings.HasPrefix(fn.Pkg.Pkg.Path(), modPath)
}

// rangeHeader: the loop carries values of its own (a counter, a cursor)
func rangeHeader(h *ssa.BasicBlock) bool {
	for _, in := range h.Instrs {
		if _, ok := in.(*ssa.Phi); ok {
			return true
		}
	}
	return false
}

func hasFamily(segs []Seg) bool {
	for _, s := range segs {
		if s.k != nil {
			return true
		}
	}
	return false
}

// headerDecided: the exit test of the header folds to a constant in st
func (x *Exec) headerDecided(fr *Frame, h *ssa.BasicBlock, st *State) bool {
	iff, ok := h.Instrs[len(h.Instrs)-1].(*ssa.If)
	if !ok {
		return false
	}
	if body := fr.li.loops[h]; body[h.Succs[0]] && body[h.Succs[1]] {
		return false
	}
	x.quiet++
	nf := len(x.facts)
	defer func() { x.quiet--; x.dropFacts(nf) }()
	n := 0
	c := st.clone()
	c.g = True // decided by the values, not by the path: a loop is not peeled because its first test is implied
	x.runBlock(fr, h, c, func(_, _ *ssa.BasicBlock, s *State) { n++ }, &[]retEdge{})
	if n <= 1 {
		return true
	}
	// a counter compared with one of a few constants: unrolled under the guards
	if b, ok := iff.Cond.(*ssa.BinOp); ok && b.Op == token.LSS && fr.li.loops[h][h.Succs[0]] {
		if ph, ok := b.X.(*ssa.Phi); ok && ph.Block() == h {
			i, ok1 := c.env[b.X].(*Term)
			l, ok2 := x.get(fr, c, b.Y).(*Term)
			if ok1 && ok2 && i.IsNum() && i.Sort.K == KInt && l.Op == "ite" && iteConstLeaves(l, 4) {
				return true
			}
		}
	}
	return false
}
func (x *Exec) dropFacts(n int) {
	for _, f := range x.facts[n:] {
		delete(x.factSet, f.id)
	}
	x.facts = x.facts[:n]
}

// rangeSegs recognises `for i, v := range s` whose slice holds a guarded sequence
func (x *Exec) rangeSegs(fr *Frame, h *ssa.BasicBlock, st *State) ([]Seg, *ssa.Phi, bool) {
	if h.Comment != "rangeindex.loop" {
		return nil, nil, false
	}
	phi, ok := h.Instrs[0].(*ssa.Phi)
	if !ok {
		return nil, nil, false
	}
	var lenCall *ssa.Call
	for _, in := range h.Instrs {
		if b, ok := in.(*ssa.BinOp); ok {
			if c, ok := b.Y.(*ssa.Call); ok {
				if bi, ok := c.Call.Value.(*ssa.Builtin); ok && bi.Name() == "len" {
					lenCall = c
				}
			}
		}
	}
	for _, in := range h.Instrs {
		if p, ok := in.(*ssa.Phi); ok && p.Comment == "rangeindex" {
			phi = p
		}
	}
	if lenCall == nil {
		return nil, nil, false
	}
	if v, ok := st.env[phi].(*Term); !ok || v != IntC(-1) {
		return nil, nil, false
	}
	sv, ok := x.get(fr, st, lenCall.Call.Args[0]).(*SliceV)
	if !ok || sv.arr == nil {
		return nil, nil, false
	}
	q := x.viewSeq(st, sv)
	return x.asSegs(q), phi, isSegLike(q)
}
func isSegLike(q Seq) bool {
	switch t := q.(type) {
	case *SegSeq:
		return true
	case *IteSeq:
		return isSegLike2(t.a) && isSegLike2(t.b)
	}
	return false
}
func isSegLike2(q Seq) bool {
	switch t := q.(type) {
	case *SegSeq, *CellSeq, *FnSeq:
		return true
	case *IteSeq:
		return isSegLike2(t.a) && isSegLike2(t.b)
	}
	return false
}

// asSegs views any sequence as segments (input arrays become families)
func (x *Exec) asSegs(q Seq) []Seg {
	switch t := q.(type) {
	case *CellSeq:
		s, _ := toSegs(t)
		return s
	case *SegSeq:
		var out []Seg
		for _, s := range t.segs {
			if s.ref != nil {
				for _, r := range x.asSegs(s.ref) {
					r.g = And(s.g, r.g)
					out = append(out, r)
				}
				continue
			}
			out = append(out, s)
		}
		return out
	case *FnSeq:
		if t.n == IntC(0) {
			return nil
		}
		k := x.newK("e")
		return []Seg{{g: True, k: k, lo: IntC(0), hi: t.n, body: []Seg{{g: True, v: t.at(k)}}}}
	case *IteSeq:
		var out []Seg
		for _, s := range x.asSegs(t.a) {
			s.g = And(t.c, s.g)
			out = append(out, s)
		}
		for _, s := range x.asSegs(t.b) {
			s.g = And(Not(t.c), s.g)
			out = append(out, s)
		}
		return out
	case *UpdSeq:
		panic(unsup("updated sequence as segments"))
	}
	panic(unsup("asSegs %T", q))
}

var kCnt int

func (x *Exec) newK(p string) *Term {
	kCnt++
	n := fmt.Sprintf("%s!k%d", p, kCnt)
	varRange[n] = [2]*big.Int{big.NewInt(0), maxLen}
	return Var(n, SInt)
}

// fresh symbol that may depend on the enclosing iteration variables
func (x *Exec) fresh(name string, s *Sort) *Term {
	freshCnt[name]++
	return UF(fmt.Sprintf("%s!%d", name, freshCnt[name]), s, x.kstack...)
}
func (x *Exec) freshTyped(name string, t types.Type, nonnil bool) Value {
	freshCnt[name]++
	return x.input(fmt.Sprintf("%s!%d", name, freshCnt[name]), append([]*Term{}, x.kstack...), t, nonnil)
}

// runSegs runs the loop body once per segment, in order.
func (x *Exec) runSegs(fr *Frame, h *ssa.BasicBlock, body map[*ssa.BasicBlock]bool, st *State, phi *ssa.Phi, segs []Seg, rets *[]retEdge) []exitEdge {
	var exits []exitEdge
	cur := st
	for _, sg := range segs {
		if cur == nil || cur.g == False {
			return exits
		}
		var ex []exitEdge
		cur, ex = x.segIter(fr, h, body, cur, phi, sg, rets)
		exits = append(exits, ex...)
	}
	if cur == nil || cur.g == False {
		return exits
	}
	// leave through the header
	x.forceIf[h] = -1
	P := x.fresh("segend", SInt)
	cur.env[phi] = P
	ex, backs := x.runRegionForced(fr, body, h, cur, h, rets, false)
	if len(backs) > 0 {
		panic(unsup("segment loop end"))
	}
	return append(exits, ex...)
}

func (x *Exec) runRegionForced(fr *Frame, body map[*ssa.BasicBlock]bool, h *ssa.BasicBlock, st *State, hd *ssa.BasicBlock, rets *[]retEdge, enter bool) ([]exitEdge, []edgeState) {
	inside := 0
	if !body[h.Succs[0]] {
		inside = 1
	}
	want := inside
	if !enter {
		want = 1 - inside
	}
	old, had := x.forceIf[h]
	x.forceIf[h] = want + 1
	ex, backs := x.runRegion(fr, body, h, st, hd, rets)
	if had && old > 0 {
		x.forceIf[h] = old
	} else {
		delete(x.forceIf, h)
	}
	return ex, backs
}

func (x *Exec) segIter(fr *Frame, h *ssa.BasicBlock, body map[*ssa.BasicBlock]bool, st *State, phi *ssa.Phi, sg Seg, rets *[]retEdge) (*State, []exitEdge) {
	if sg.acc != nil {
		panic(unsup("range over an unknown prefix"))
	}
	if sg.k != nil {
		taken := st
		var skip *State
		if sg.g != True && And(st.g, sg.g) != st.g {
			skip = st.fork(Not(sg.g))
			taken = st.fork(sg.g)
		}
		fam := &famLoop{k: sg.k, lo: sg.lo, hi: sg.hi, segs: sg.body, phi: phi}
		out := x.summarize(fr, h, body, taken, fam, rets)
		var ex []exitEdge
		var cur *State
		for _, e := range out {
			if e.pred == nil {
				cur = e.st
			} else {
				ex = append(ex, e)
			}
		}
		return x.mergeStates(skip, cur), ex
	}
	if sg.ref != nil {
		panic(unsup("range over opaque part"))
	}
	taken := st
	var skip *State
	if And(st.g, sg.g) != st.g {
		skip = st.fork(Not(sg.g))
		taken = st.fork(sg.g)
		if taken.g == False {
			return skip, nil
		}
	}
	P := x.fresh("segpos", SInt)
	x.segPos[P] = &segRef{v: sg.v}
	taken.env[phi] = Sub(P, IntC(1))
	ex, backs := x.runRegionForced(fr, body, h, taken, h, rets, true)
	var nx *State
	if len(backs) > 0 {
		nx = x.mergeEdges(fr, h, backs)
	}
	return x.mergeStates(skip, nx), ex
}

type famLoop struct {
	k, lo, hi *Term
	segs      []Seg
	phi       *ssa.Phi
}

// carried variable of a loop
type carried struct {
	pfx []string // name prefixes of the loop execution

	phi     *ssa.Phi
	obj     *Obj
	path    []PathEl
	name    string
	init    Value
	cls     string // "", const, ind, acc, cset, set, havoc, arr
	opt     bool   // supposed constant
	step    *Term
	sym     Value
	next    Value
	segs    []Seg // acc: segments appended by one iteration
	accT    *Term
	g, v    *Term // cset
	kt      *Term // cset: the iteration the guard fixes (g implies k = kt)
	typ     types.Type
	arrG    []arrWrite
	arrW    []affIdx // indices written by an iteration (affine in k); nil: unknown
	arrBad  bool
	arrV    []arrWrite // the writes themselves, when they depend on nothing carried
	arrVBad bool
	arrOK   bool
	inv     []*Term
	strd    *Term
}
type arrWrite struct {
	g, idx *Term
	v      Value
}

type affIdx struct {
	off *Term
	sgn int64
}

func (a affIdx) iter(i *Term) *Term { // the iteration writing index i
	if a.sgn == 1 {
		return Sub(i, a.off)
	}
	return Sub(a.off, i)
}

// affWrites: the writes of one iteration when every index is +-k plus a loop-invariant offset
func affWrites(ws []arrWrite, k *Term) ([]affIdx, bool) {
	var out []affIdx
	for _, w := range ws {
		l := linOf(w.idx)
		co, has := l.cs[k.id]
		if !has || !co.IsInt() || !co.Num().IsInt64() || co.Num().Int64() != 1 && co.Num().Int64() != -1 {
			return nil, false
		}
		off := Subst(w.idx, map[*Term]*Term{k: IntC(0)})
		if off.contains(k, map[int]bool{}) {
			return nil, false
		}
		out = append(out, affIdx{off, co.Num().Int64()})
	}
	return out, true
}

func indepWrites(ws []arrWrite, prefixes ...string) bool {
	ok := true
	mine := func(n string) bool {
		for _, p := range prefixes {
			if strings.HasPrefix(n, p) {
				return true
			}
		}
		return false
	}
	seen := map[int]bool{}
	var f func(t *Term)
	f = func(t *Term) {
		if t == nil || seen[t.id] {
			return
		}
		seen[t.id] = true
		if (t.Op == "uf" || t.Op == "var") && mine(t.Str) {
			ok = false
		}
		for _, a := range t.Args {
			f(a)
		}
	}
	loc := func(l *Loc) {
		if l == nil {
			return
		}
		for _, a := range l.obj.args {
			f(a)
		}
		for _, p := range l.path {
			f(p.idx)
		}
		if mine(l.obj.name) {
			ok = false
		}
	}
	var walk func(v Value)
	walk = func(v Value) {
		switch t := force(v).(type) {
		case *Term:
			f(t)
		case *StructV:
			for _, y := range t.f {
				walk(y)
			}
		case *PtrV:
			for _, a := range t.alts {
				f(a.g)
				loc(a.loc)
			}
		case *SliceV:
			f(t.off)
			f(t.len)
			f(t.isnil)
			loc(t.arr)
		case *MapRef:
			walk(t.p)
		default:
			ok = false
		}
	}
	for _, w := range ws {
		f(w.g)
		walk(w.v)
	}
	return ok
}
func sameWrites(a, b []arrWrite) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i].g != b[i].g || a[i].idx != b[i].idx || deepKey(a[i].v) != deepKey(b[i].v) {
			return false
		}
	}
	return true
}
func deepKey(v Value) string {
	v = force(v)
	if s, ok := v.(*StructV); ok {
		k := "{"
		for _, f := range s.f {
			k += deepKey(f) + ","
		}
		return k + "}"
	}
	return valKey(v)
}

func leafPaths(x *Exec, old, nw Value, path []PathEl, out *[][]PathEl) {
	if old == nw {
		return
	}
	old, nw = force(old), force(nw)
	if old == nw {
		return
	}
	if a, ok := old.(*StructV); ok {
		if b, ok := nw.(*StructV); ok && len(a.f) == len(b.f) {
			for i := range a.f {
				leafPaths(x, a.f[i], b.f[i], append(append([]PathEl{}, path...), PathEl{field: i}), out)
			}
			return
		}
	}
	if a, ok := old.(*CellSeq); ok {
		if b, ok := nw.(*CellSeq); ok && len(a.cells) == len(b.cells) && len(a.cells) <= 64 {
			for i := range a.cells {
				leafPaths(x, a.cells[i], b.cells[i], append(append([]PathEl{}, path...), PathEl{idx: IntC(int64(i))}), out)
			}
			return
		}
	}
	if valKey(old) == valKey(nw) {
		return
	}
	*out = append(*out, path)
}

func pathKey(p []PathEl) string {
	s := ""
	for _, e := range p {
		if e.idx != nil {
			s += fmt.Sprintf("[%d]", e.idx.id)
		} else {
			s += fmt.Sprintf(".%d", e.field)
		}
	}
	return s
}

// typeAt follows a path through a type
func typeAt(t types.Type, path []PathEl) types.Type {
	for _, p := range path {
		if t == nil {
			return nil
		}
		switch u := t.Underlying().(type) {
		case *types.Struct:
			if p.idx != nil {
				return nil
			}
			t = u.Field(p.field).Type()
		case *types.Array:
			t = u.Elem()
		case *types.Slice:
			t = u.Elem()
		default:
			return nil
		}
	}
	return t
}

type iterRes struct {
	next  *State
	exits []exitEdge
	rets  []retEdge
}

var loopCnt int

func (x *Exec) summarize(fr *Frame, h *ssa.BasicBlock, body map[*ssa.BasicBlock]bool, st0 *State, fam *famLoop, rets *[]retEdge) []exitEdge {
	loopCnt++
	lname := fmt.Sprintf("L%d", loopCnt)
	k := x.newK(lname)
	base := IntC(0)
	if fam != nil {
		k = fam.k
		base = fam.lo
	}
	x.kstack = append(x.kstack, k)
	defer func() { x.kstack = x.kstack[:len(x.kstack)-1] }()
	outerKs := append([]*Term{}, x.kstack[:len(x.kstack)-1]...)

	// unknown scalars are named by what the loop depends on, everything else by the loop execution
	kname := lname
	if fam == nil {
		if lk := x.loopKey(fr, h, body, st0, outerKs); lk != "" {
			kname = lk
		}
	}
	names := map[string]int{}
	cname := func(v Value, n string) string {
		if names[n]++; names[n] > 1 {
			n = fmt.Sprintf("%s~%d", n, names[n])
		}
		if _, ok := v.(*Term); ok {
			return kname + "." + n
		}
		return lname + "." + n
	}
	var cs []*carried
	seen := map[string]bool{}
	for _, in := range h.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			if _, d := in.(*ssa.DebugRef); d {
				continue
			}
			break
		}
		if fam != nil && p == fam.phi {
			continue
		}
		cs = append(cs, &carried{pfx: []string{lname + ".", kname + "."}, phi: p, name: cname(force(st0.env[p]), p.Comment+"."+p.Name()), init: x.settle(st0, force(st0.env[p])), typ: p.Type()})
	}
	addMem := func(o *Obj, path []PathEl) bool {
		key := fmt.Sprintf("%d%s", o.id, pathKey(path))
		if seen[key] {
			return false
		}
		seen[key] = true
		v := x.content(st0, o)
		for _, p := range path {
			v = x.step(v, p)
		}
		cs = append(cs, &carried{pfx: []string{lname + ".", kname + "."}, obj: o, path: path, name: cname(force(v), o.name+pathKey(path)), init: v, typ: typeAt(o.typ, path)})
		return true
	}
	rel := Sub(k, base)
	for _, iv := range x.userInvs(fr, h, st0) {
		x.oblige(st0, "inv", "stated loop invariant of "+fr.fn.Name()+" holds initially", iv, h.Instrs[0].Pos())
	}

	run := func(final bool) (res iterRes) {
		st := st0.clone()
		if fam != nil {
			st.g = And(st.g, Le(fam.lo, k), Lt(k, fam.hi))
		}
		for _, c := range cs {
			c.sym = x.carriedSym(c, k, rel, st, lname)
			if c.phi != nil {
				st.env[c.phi] = c.sym
			} else {
				st.mem[c.obj] = x.update(x.content(st, c.obj), c.path, c.sym)
			}
		}
		for _, c := range cs {
			for _, iv := range c.inv {
				x.addFact(Implies(st.g, iv), nil)
			}
		}
		for _, iv := range x.userInvs(fr, h, st) {
			x.addFact(Implies(st.g, iv), nil)
		}
		if fam != nil {
			var ex []exitEdge
			cur := st
			for _, sg := range fam.segs {
				if cur == nil {
					break
				}
				var e2 []exitEdge
				cur, e2 = x.segIter(fr, h, body, cur, fam.phi, sg, &res.rets)
				ex = append(ex, e2...)
			}
			res.next, res.exits = cur, ex
			return
		}
		ex, backs := x.runRegion(fr, body, h, st, h, &res.rets)
		res.exits = ex
		if len(backs) > 0 {
			res.next = x.mergeEdges(fr, h, backs)
		}
		return
	}
	getNext := func(c *carried, st *State) Value {
		if c.phi != nil {
			return force(st.env[c.phi])
		}
		v := x.content(st, c.obj)
		for _, p := range c.path {
			v = x.step(v, p)
		}
		return v
	}

	var res iterRes
	stable := false
	for round := 0; round < 20 && !stable; round++ {
		x.quiet++
		nf := len(x.facts)
		func() {
			defer func() { x.quiet--; x.dropFacts(nf) }()
			res = run(false)
		}()
		stable = true
		if res.next == nil {
			break
		}
		// newly changed memory
		var objs []*Obj
		for o := range res.next.mem {
			objs = append(objs, o)
		}
		sort.Slice(objs, func(i, j int) bool { return objs[i].id < objs[j].id })
		for _, o := range objs {
			_, in := st0.mem[o]
			if !in && o.init == nil {
				continue // allocated by the iteration
			}
			// compare against the state the trial started from
			start := x.content(st0, o)
			for _, c := range cs {
				if c.obj == o {
					start = x.update(start, c.path, c.sym)
				}
			}
			var ps [][]PathEl
			leafPaths(x, start, res.next.mem[o], nil, &ps)
			for _, p := range ps {
				known := false
				for _, c := range cs {
					if c.obj == o && strings.HasPrefix(pathKey(p), pathKey(c.path)) {
						known = true
					}
				}
				if !known && os.Getenv("GOVC_DEBUG3") != "" {
					fmt.Fprintf(os.Stderr, "ADDMEM %s %s path %s\n  %T %.300s\n  %T %.300s\n", lname, o.name, pathKey(p), start, valKey(start), res.next.mem[o], valKey(res.next.mem[o]))
					if a, ok := start.(*IteSeq); ok {
						if b, ok := res.next.mem[o].(*IteSeq); ok {
							fmt.Fprintf(os.Stderr, "  %.300s\n  %.300s\n  %.300s\n  %.300s\n", a.c, valKey(a.a), valKey(a.b), b.c)
						}
					}
				}
				if !known && addMem(o, p) {
					stable = false
				}
			}
		}
		if !stable {
			continue
		}
		// classify: refinements that make other values precise come first, giving up on a variable comes last
		syms := x.carriedSyms(cs, k)
		for phase := 1; phase <= 5 && stable; phase++ {
			for _, c := range cs {
				nx := getNext(c, res.next)
				if x.classify(c, nx, k, rel, cs, res.next, st0, phase, syms) {
					stable = false
				}
			}
		}
	}
	if !stable {
		panic(unsup("loop in %s does not stabilise", fr.fn))
	}
	// invariants inferred for havocked integers
	x.inferInvariants(fr, cs, st0, res, getNext, run)
	// final run, with obligations
	nf := len(x.facts)
	contFacts := x.contFacts(st0, res, k, base, cs, fam)
	for _, f := range contFacts {
		x.addFact(f, nil)
	}
	// no carried variable needs k facts when the family gives the range
	res = run(true)
	_ = nf
	if res.next != nil {
		for _, c := range cs {
			c.next = getNext(c, res.next)
			x.obligeInductive(c, k, rel, res.next, cs, st0)
		}
		for _, iv := range x.userInvs(fr, h, res.next) {
			x.oblige(res.next, "inv", "stated loop invariant of "+fr.fn.Name()+" is preserved", iv, h.Instrs[0].Pos())
		}
		// family objects
		ks := append([]*Term{}, x.kstack...)
		for o, v := range res.next.mem {
			if _, in := st0.mem[o]; !in && o.init == nil {
				if _, ok := x.fam[o]; !ok {
					x.fam[o] = &famInfo{ks: ks, content: v}
				}
			}
		}
	}
	newFacts := append([]*Term{}, x.facts[nf:]...)
	if res.next != nil {
		// objects of the iterations that stay reachable
		c := res.next.clone()
		var roots []Value
		for _, cc := range cs {
			roots = append(roots, cc.next, cc.sym)
			for _, sg := range cc.segs {
				roots = append(roots, &SegSeq{[]Seg{sg}})
			}
		}
		x.liveEnv(fr, c, h)
		x.gc(c, st0.mem, roots)
		res.next = c
	}

	// exit
	finish := func(st *State, K *Term) {
		for _, c := range cs {
			v := x.finalVal(c, k, base, K, st, outerKs)
			if c.phi != nil {
				st.env[c.phi] = v
			} else {
				st.mem[c.obj] = x.update(x.content(st, c.obj), c.path, v)
			}
		}
		if res.next != nil {
			for o, v := range res.next.mem {
				if _, in := st0.mem[o]; !in && o.init == nil {
					if _, have := st.mem[o]; !have {
						st.mem[o] = v
					}
				}
			}
		}
	}
	inner := 0
	var hdrExit *exitEdge
	for i := range res.exits {
		e := &res.exits[i]
		if fam == nil && e.pred == h && hdrExit == nil {
			hdrExit = e
		} else {
			inner++
		}
	}
	inner += len(res.rets)
	var out []exitEdge
	if fam != nil && inner == 0 {
		// all iterations run
		st := st0.clone()
		hi := fam.hi
		finish(st, hi)
		return []exitEdge{{nil, nil, st}}
	}
	var K *Term
	var closed *Term
	if fam != nil {
		K = UF(kname+".K", SInt, outerKs...)
	} else {
		if hdrExit != nil && inner == 0 {
			closed = closedTrip(hdrExit.st.g, st0.g, k)
		}
		if closed != nil {
			K = closed
		} else {
			K = UF(kname+".K", SInt, outerKs...)
		}
	}
	if closed == nil {
		varRange[kname+".K"] = [2]*big.Int{big.NewInt(0), maxLen}
		if base != IntC(0) {
			x.addFact(Implies(st0.g, Ge(K, base)), nil)
		}
	}
	m := map[*Term]*Term{k: K}
	for _, f := range newFacts {
		nfct := Subst(f, m)
		if closed == nil || len(x.uinvs) > 0 {
			x.addFact(nfct, nil)
		}
	}
	conv := func(e *State) *State {
		objs := map[*Obj]*Obj{}
		for o := range e.mem {
			if _, in := st0.mem[o]; !in && o.init == nil {
				c := newObj(o.name, o.typ)
				c.abstract = o.abstract
				objs[o] = c
			}
		}
		s := x.newSubst(m, objs)
		n := &State{g: s.term(e.g), mem: map[*Obj]Value{}, env: map[ssa.Value]Value{}}
		// carried leaves first: replace symbols by their values at K
		for o, v := range e.mem {
			no := o
			if c, ok := objs[o]; ok {
				no = c
			}
			if old, in := st0.mem[o]; in && sameVal(old, v) {
				n.mem[no] = v
				continue
			}
			n.mem[no] = s.val(v)
		}
		for kk, v := range e.env {
			if old, in := st0.env[kk]; in && sameVal(old, v) {
				n.env[kk] = v
				continue
			}
			n.env[kk] = s.val(v)
		}
		if res.next != nil {
			for o, v := range res.next.mem {
				if _, in := st0.mem[o]; !in && o.init == nil {
					n.mem[o] = v
				}
			}
		}
		// accumulator symbols -> prefix up to K
		am := map[*Term]*Term{}
		x.replaceAcc(n, st0, cs, k, base, K, outerKs, am)
		return n
	}
	var guards []*Term
	if fam != nil {
		// normal completion
		st := st0.clone()
		finish(st, fam.hi)
		cg := x.allCont(st0, res, k, fam.lo, fam.hi, outerKs)
		st.g = And(st0.g, cg)
		x.addFact(Implies(And(st0.g, Not(cg)), And(Le(fam.lo, K), Lt(K, fam.hi))), nil)
		out = append(out, exitEdge{nil, nil, st})
		guards = append(guards, st.g)
	}
	for i := range res.exits {
		e := res.exits[i]
		if e.to != nil {
			x.liveEnv(fr, e.st, e.to)
			x.gc(e.st, st0.mem, nil)
		}
		n := conv(e.st)
		if fam == nil && inner == 0 && len(res.exits) == 1 {
			x.addFact(Implies(st0.g, n.g), nil)
			n.g = st0.g
		}
		guards = append(guards, n.g)
		out = append(out, exitEdge{e.pred, e.to, n})
	}
	for _, r := range res.rets {
		e := map[ssa.Value]Value{}
		for i, v := range r.vals {
			e[retKey(i)] = v
		}
		for kk, v := range r.st.env {
			e[kk] = v
		}
		r.st.env = e
		n := conv(r.st)
		var vals []Value
		for i := range r.vals {
			vals = append(vals, n.env[retKey(i)])
		}
		guards = append(guards, n.g)
		*rets = append(*rets, retEdge{n, vals})
	}
	if fam == nil && inner > 0 {
		x.addFact(Implies(st0.g, Or(guards...)), nil)
		// earlier iterations continued
		if res.next != nil {
			cont := x.contOf(st0, res)
			j := x.newK("j")
			x.addFact(Implies(st0.g, Forall([]*Term{j}, Implies(And(Le(base, j), Lt(j, K)), Subst(cont, map[*Term]*Term{k: j})))), nil)
		}
	} else if fam != nil && inner > 0 && res.next != nil {
		cont := x.contOf(st0, res)
		j := x.newK("j")
		x.addFact(Implies(st0.g, Forall([]*Term{j}, Implies(And(Le(base, j), Lt(j, K)), Subst(cont, map[*Term]*Term{k: j})))), nil)
	} else if closed == nil && fam == nil && res.next != nil {
		cont := x.contOf(st0, res)
		x.addFact(Implies(And(st0.g, Gt(K, base)), Subst(cont, map[*Term]*Term{k: Sub(K, IntC(1))})), nil)
	}
	if fam == nil && closed == nil {
		x.assumptions[fmt.Sprintf("termination of a loop in %s is not proved", fr.fn.RelString(nil))] = true
	}
	return out
}

// contOf: condition (in terms of k) under which an iteration runs to its back edge
func (x *Exec) contOf(st0 *State, res iterRes) *Term {
	return residual(res.next.g, st0.g)
}
func (x *Exec) allCont(st0 *State, res iterRes, k, lo, hi *Term, outer []*Term) *Term {
	if res.next == nil {
		return Not(Lt(lo, hi))
	}
	cont := x.contOf(st0, res)
	// range conditions of k itself are implied
	j := x.newK("j")
	body := Subst(cont, map[*Term]*Term{k: j})
	return Forall([]*Term{j}, Implies(And(Le(lo, j), Lt(j, hi)), body))
}

// contFacts: what is known about iterations before k
func (x *Exec) contFacts(st0 *State, res iterRes, k, base *Term, cs []*carried, fam *famLoop) []*Term {
	if res.next == nil || fam != nil {
		return nil
	}
	cont := x.contOf(st0, res)
	out := []*Term{Implies(And(st0.g, Gt(k, base)), Subst(cont, map[*Term]*Term{k: Sub(k, IntC(1))}))}
	return out
}

// closedTrip: number of iterations when the exit guard is a linear test in k
func closedTrip(exitG, g0, k *Term) *Term {
	r := residual(exitG, g0)
	// r is the exit test: not(continue)
	var d *Term // continue while d > 0 where d = alpha - c*k
	switch {
	case r.Op == "not" && r.Args[0].Op == "<":
		d = Sub(r.Args[0].Args[1], r.Args[0].Args[0])
	case r.Op == "<":
		// exit when a < b, continue while a >= b  <=> a-b+1 > 0
		d = Add(Sub(r.Args[0], r.Args[1]), IntC(1))
	default:
		return nil
	}
	if d.Sort.K != KInt {
		return nil
	}
	l := linOf(d)
	c, ok := l.cs[k.id]
	if !ok || c.Sign() >= 0 || !c.IsInt() {
		return nil
	}
	for id, t := range l.ts {
		if id != k.id && l.cs[id].Sign() != 0 && t.contains(k, map[int]bool{}) {
			return nil
		}
	}
	step := new(big.Int).Neg(c.Num())
	alpha := Subst(d, map[*Term]*Term{k: IntC(0)})
	// trips = alpha<=0 ? 0 : ceil(alpha/step)
	n := alpha
	if step.Cmp(big.NewInt(1)) != 0 {
		n = IDiv(Add(alpha, IntB(new(big.Int).Sub(step, big.NewInt(1)))), IntB(step))
	}
	if lo, _, ok := bounds(alpha, 6); ok && lo.Sign() >= 0 {
		return n
	}
	return Ite(Lt(IntC(0), alpha), n, IntC(0))
}

// carriedSym: the value of a carried variable at the start of iteration k
func (x *Exec) carriedSym(c *carried, k, rel *Term, st *State, lname string) Value {
	switch c.cls {
	case "const":
		return c.init
	case "ind":
		return Add(c.init.(*Term), Mul(c.step, rel))
	case "cset":
		j := x.newK("j")
		e := Exists([]*Term{j}, And(Le(Sub(k, rel), j), Lt(j, k), Subst(c.g, map[*Term]*Term{k: j})))
		return Ite(e, c.v, c.init.(*Term))
	}
	switch v := c.init.(type) {
	case *Term:
		return x.havocTerm(c.name, v.Sort, c.typ)
	case *SliceV:
		if c.cls == "havoc" {
			et := c.typ
			if et == nil {
				panic(unsup("havoc of untyped slice"))
			}
			x.assumptions["slices carried through loops do not alias other data"] = true
			return x.input(c.name, append([]*Term{}, x.kstack...), et, false)
		}
		a := UF(c.name+".acc", SU, x.kstack...)
		ln := UF(c.name+".acclen", SInt, x.kstack...)
		varRange[c.name+".acclen"] = [2]*big.Int{big.NewInt(0), maxLen}
		c.accT = a
		o := newObj("acc "+c.name, c.typ)
		st.mem[o] = &SegSeq{[]Seg{{g: True, acc: a, lenT: ln}}}
		return &SliceV{arr: &Loc{obj: o}, off: IntC(0), len: ln, cap: ln, isnil: UF(c.name+".accnil", SBool, x.kstack...), full: True}
	case Seq:
		n := v.Len()
		nm := c.name
		var et types.Type
		if c.typ != nil {
			switch u := c.typ.Underlying().(type) {
			case *types.Array:
				et = u.Elem()
			case *types.Slice:
				et = u.Elem()
			}
		}
		if et == nil {
			panic(unsup("havoc of untyped array %s", c.name))
		}
		ks := append([]*Term{}, x.kstack...)
		if c.cls == "arr" && c.arrW != nil {
			aw := c.arrW
			lo := Sub(k, rel)
			if ws := c.arrV; ws != nil {
				return &FnSeq{n: n, at: func(i *Term) Value {
					r := x.seqAt(v, i)
					for q, w := range ws {
						kk := aw[q].iter(i)
						m := map[*Term]*Term{k: kk}
						g := And(Le(lo, kk), Lt(kk, k), Subst(w.g, m))
						if g != False {
							r = x.mergeVal(g, x.substVal(w.v, m), r)
						}
					}
					return r
				}, name: nm}
			}
			return &FnSeq{n: n, at: func(i *Term) Value {
				var g []*Term
				for _, a := range aw {
					kk := a.iter(i)
					g = append(g, And(Le(lo, kk), Lt(kk, k)))
				}
				w := Or(g...)
				if w == False {
					return x.seqAt(v, i)
				}
				return x.mergeVal(w, x.input(nm+"[]", append(append([]*Term{}, ks...), i), et, false), x.seqAt(v, i))
			}, name: nm}
		}
		return &FnSeq{n: n, at: func(i *Term) Value { return x.input(nm+"[]", append(append([]*Term{}, ks...), i), et, false) }, name: nm}
	default:
		if c.typ == nil {
			panic(unsup("havoc of %T (%s)", c.init, c.name))
		}
		if _, ok := c.init.(*OpaqueV); ok {
			return c.init
		}
		if _, ok := c.init.(*FuncV); ok {
			return c.init
		}
		if _, ok := c.init.(*iterV); ok {
			return c.init
		}
		if _, ok := c.init.(*MapC); ok {
			return &MapC{typ: c.typ.Underlying().(*types.Map), base: &MapBase{name: c.name, args: append([]*Term{}, x.kstack...)}}
		}
		x.assumptions["pointers carried through loops do not alias other data"] = true
		return x.input(c.name, append([]*Term{}, x.kstack...), c.typ, false)
	}
}
func (x *Exec) havocTerm(name string, s *Sort, t types.Type) *Term {
	if t != nil {
		setRange(name, t)
	}
	return UF(name, s, x.kstack...)
}

func usesAny(v Value, syms map[*Term]bool, x *Exec) bool {
	found := false
	var wt func(t *Term, seen map[int]bool)
	wt = func(t *Term, seen map[int]bool) {
		if found || seen[t.id] {
			return
		}
		seen[t.id] = true
		if syms[t] {
			found = true
			return
		}
		for _, a := range t.Args {
			wt(a, seen)
		}
	}
	seen := map[int]bool{}
	walkTerms(v, func(t *Term) { wt(t, seen) }, map[interface{}]bool{})
	return found
}

// walkTerms visits the terms directly contained in a value (not through memory)
func walkTerms(v Value, f func(*Term), seen map[interface{}]bool) {
	switch t := v.(type) {
	case *Term:
		f(t)
	case *Lazy:
		if t.v != nil {
			walkTerms(t.v, f, seen)
		}
	case *StructV:
		for _, y := range t.f {
			walkTerms(y, f, seen)
		}
	case TupleV:
		for _, y := range t {
			walkTerms(y, f, seen)
		}
	case *PtrV:
		for _, a := range t.alts {
			f(a.g)
		}
	case *SliceV:
		f(t.off)
		f(t.len)
		f(t.isnil)
	case *IfaceV:
		for _, a := range t.alts {
			f(a.g)
			walkTerms(a.val, f, seen)
		}
	case *CellSeq:
		for _, y := range t.cells {
			walkTerms(y, f, seen)
		}
	case *UpdSeq:
		f(t.idx)
		walkTerms(t.val, f, seen)
		walkTerms(t.base, f, seen)
	case *IteSeq:
		f(t.c)
		walkTerms(t.a, f, seen)
		walkTerms(t.b, f, seen)
	case *SegSeq:
		for _, s := range t.segs {
			walkSeg(s, f, seen)
		}
	}
}
func walkSeg(s Seg, f func(*Term), seen map[interface{}]bool) {
	f(s.g)
	if s.v != nil {
		walkTerms(s.v, f, seen)
	}
	if s.lo != nil {
		f(s.lo)
		f(s.hi)
	}
	if s.lenT != nil {
		f(s.lenT)
	}
	for _, b := range s.body {
		walkSeg(b, f, seen)
	}
	if s.ref != nil {
		walkTerms(s.ref, f, seen)
	}
}

func (x *Exec) carriedSyms(cs []*carried, k *Term) map[*Term]bool {
	m := map[*Term]bool{}
	for _, c := range cs {
		if c.cls == "const" || c.cls == "ind" || c.cls == "cset" {
			continue
		}
		switch v := c.sym.(type) {
		case *Term:
			// an unknown value is a function of the iteration; others may still get a precise form
			m[v] = c.cls != "havoc"
		case *SliceV:
			if c.cls != "havoc" {
				m[v.len] = true
				m[v.isnil] = true
			}
		}
	}
	return m
}

// classify updates the class of c; true when it changed
func (x *Exec) classify(c *carried, nx Value, k, rel *Term, cs []*carried, nst, st0 *State, phase int, syms map[*Term]bool) bool {
	nx = force(nx)
	x.debugf("classify phase %d %s cls=%s sym=%v next=%v", phase, c.name, c.cls, c.sym, nx)
	set := func(cl string) bool {
		if cl == "havoc" && c.cls == "" && phase < 4 {
			return false
		}
		if (cl == "cset" || cl == "acc" || cl == "arr") && c.cls != cl && phase < 2 {
			return false
		}
		ch := c.cls != cl
		c.cls = cl
		return ch
	}
	if c.cls == "havoc" {
		return false
	}
	if p, ok := nx.(*Poison); ok {
		panic(unsup("carried value poisoned (%s)", p.why))
	}
	switch sym := c.sym.(type) {
	case *Term:
		n := nx.(*Term)
		switch c.cls {
		case "const":
			if n == c.init || x.quickValid(nst.g, Eq(n, c.init.(*Term))) {
				return false
			}
			if c.opt && phase < 4 {
				return false // what it depends on may still get a precise form
			}
			return set("havoc")
		case "ind":
			if Sub(n, Add(sym, c.step)) == NumC(sym.Sort, 0) || x.quickValid(nst.g, Eq(n, Add(sym, c.step))) {
				return false
			}
			if c.opt && phase < 4 {
				return false
			}
			return set("havoc")
		case "cset":
			want := Ite(c.g, c.v, sym)
			if c.kt != nil && n != want {
				if g2, v2, ok := splitSet(n, sym); ok && alphaEq(g2, c.g) && alphaEq(Subst(v2, map[*Term]*Term{k: c.kt}), c.v) {
					return false
				}
			}
			x.debugf("cset %s is not syntactically stable", c.name)
			if alphaEq(n, want) || x.quickValid(nst.g, Eq(n, want)) {
				return false
			}
			return set("havoc")
		}
		if n == sym {
			return set("const")
		}
		if sym.Sort.K == KInt || sym.Sort.K == KBV {
			d := Sub(n, sym)
			if !d.contains(sym, map[int]bool{}) && !usesAny(d, syms, x) && !d.contains(k, map[int]bool{}) && sym.Sort.K == KInt {
				c.step = d
				return set("ind")
			}
		}
		// conditional set
		if g, v, ok := splitSet(n, sym); ok {
			if v.contains(k, map[int]bool{}) {
				// the guard fixes the iteration: g implies k = t
				if t := x.solveFor(nst.g, g, k); t != nil {
					c.kt = t
					v = Subst(v, map[*Term]*Term{k: t})
				}
			}
			if !usesAny(g, syms, x) && !g.contains(sym, map[int]bool{}) && !usesAny(v, syms, x) && !v.contains(k, map[int]bool{}) {
				if phase < 2 {
					return false
				}
				c.g, c.v = g, v
				return set("cset")
			}
		}
		if sym.Sort == SStr && c.cls == "" && phase == 3 && !c.opt {
			// try: never changed; checked with everything else in the rounds that follow
			c.opt = true
			return set("const")
		}
		if sym.Sort == SInt && c.cls == "" && phase == 3 && !c.opt {
			// try: counts the iterations
			for _, l := range iteLeaves(n, nil) {
				if d, ok := Sub(l, sym).Int64(); ok && d == 1 {
					c.opt, c.step = true, IntC(1)
					return set("ind")
				}
			}
		}
		return set("havoc")
	case *SliceV:
		n, ok := nx.(*SliceV)
		if !ok {
			return set("havoc")
		}
		if c.cls == "const" {
			if valKey(n) == valKey(c.init) {
				return false
			}
			return set("havoc")
		}
		if n == sym || valKey(n) == valKey(sym) && n.arr != nil && sym.arr != nil && x.content(nst, n.arr.obj) != nil && sameContent(x, nst, n, sym) {
			return set("const")
		}
		if n.arr == nil {
			return set("havoc")
		}
		q, ok := x.content(nst, n.arr.obj).(*SegSeq)
		if !ok || len(q.segs) == 0 || q.segs[0].acc != c.accT || n.off != IntC(0) {
			if os.Getenv("GOVC_DEBUG3") != "" && phase == 5 {
				fmt.Fprintf(os.Stderr, "not acc %s: %T off %s\n", c.name, x.content(nst, n.arr.obj), n.off)
				if q != nil {
					fmt.Fprintf(os.Stderr, "   %.900s\n", q.segs[0])
				}
			}
			return set("havoc")
		}
		segs := q.segs[1:]
		for _, s := range segs {
			if usesAnySeg(s, syms, x) {
				if os.Getenv("GOVC_DEBUG3") != "" && phase == 5 {
					fmt.Fprintf(os.Stderr, "uses carried %s: %.500s\n", c.name, s)
				}
				if c.cls == "" && phase < 5 {
					return false // the others may turn out unknown first
				}
				return set("havoc")
			}
		}
		c.segs = segs
		return set("acc")
	case Seq:
		n, ok := nx.(Seq)
		if !ok {
			return set("havoc")
		}
		if c.cls == "const" {
			if n == c.init {
				return false
			}
			c.cls = "arr"
			return true
		}
		if n == sym {
			return set("const")
		}
		ch := set("arr")
		c.next = n
		if c.cls == "arr" && c.arrBad && c.arrV != nil {
			c.arrV, ch = nil, true
		}
		if c.cls == "arr" && !c.arrBad {
			var ws []arrWrite
			ok := collectWrites(n, sym, True, &ws)
			var aw []affIdx
			if ok {
				aw, ok = affWrites(ws, k)
			}
			for _, a := range aw {
				if usesAny(a.off, syms, x) {
					ok = false
				}
			}
			switch {
			case !ok:
				c.arrBad = true
				ch = ch || c.arrW != nil
				c.arrW = nil
			case c.arrW == nil:
				c.arrW = aw
				ch = true
			default:
				for _, a := range aw {
					in := false
					for _, b := range c.arrW {
						in = in || a == b
					}
					if !in {
						c.arrBad, c.arrW, ch = true, nil, true
						break
					}
				}
			}
			x.debugf("arr %s writes=%d aff=%v W=%v V=%v vbad=%v", c.name, len(ws), ok, c.arrW != nil, c.arrV != nil, c.arrVBad)
			if c.arrW == nil {
				if c.arrV != nil {
					c.arrV, ch = nil, true
				}
			} else if !c.arrVBad {
				if c.arrV == nil {
					if indepWrites(ws, c.pfx...) {
						c.arrV, ch = ws, true
					}
				} else if !sameWrites(ws, c.arrV) {
					c.arrVBad, c.arrV, ch = true, nil, true
				}
			}
		}
		return ch
	default:
		if c.cls == "const" {
			if valKey(nx) == valKey(c.init) || nx == c.init {
				return false
			}
			return set("havoc")
		}
		if nx == c.sym || valKey(nx) == valKey(c.sym) {
			return set("const")
		}
		return set("havoc")
	}
}
func sameContent(x *Exec, st *State, a, b *SliceV) bool {
	q, ok := x.content(st, a.arr.obj).(*SegSeq)
	return ok && len(q.segs) == 1 && q.segs[0].acc != nil
}
func usesAnySeg(s Seg, syms map[*Term]bool, x *Exec) bool {
	return usesAny(&SegSeq{[]Seg{s}}, syms, x)
}

// solveFor: a term t without k such that g implies k = t, if a conjunct of g says so
func (x *Exec) solveFor(ctx, g, k *Term) *Term {
	seen := map[*Term]bool{}
	var cands []*Term
	unit := func(c *Term) *Term {
		if c.Op != "=" || c.Args[0].Sort.K != KInt {
			return nil
		}
		d := Sub(c.Args[0], c.Args[1])
		d0 := Subst(d, map[*Term]*Term{k: IntC(0)})
		if d0.contains(k, map[int]bool{}) {
			return nil
		}
		d1 := Sub(Subst(d, map[*Term]*Term{k: IntC(1)}), d0)
		a, ok := d1.Int64()
		if !ok || a == 0 || Sub(d, Add(Mul(IntC(a), k), d0)) != IntC(0) {
			return nil
		}
		if a < 0 {
			a, d0 = -a, Mul(IntC(-1), d0)
		}
		if a == 1 {
			return Mul(IntC(-1), d0)
		}
		return IDiv(Mul(IntC(-1), d0), IntC(a))
	}
	for _, c := range conjuncts(g) {
		if t := unit(c); t != nil {
			return t
		}
	}
	var w func(t *Term)
	w = func(t *Term) {
		if seen[t] || len(cands) > 20 {
			return
		}
		seen[t] = true
		if c := unit(t); c != nil {
			cands = append(cands, c)
		}
		for _, a := range t.Args {
			w(a)
		}
	}
	w(g)
	for i, t := range cands {
		if i < 10 && x.quickValid(And(ctx, g), Eq(k, t)) {
			return t
		}
	}
	return nil
}

// splitSet: n = ite(g, v, sym)
// settle: a value whose top-level choices the path has already made
func (x *Exec) settle(st *State, v Value) Value {
	t, ok := v.(*Term)
	for n := 0; ok && t.Op == "ite" && n < 4; n++ {
		switch {
		case x.quickValid(st.g, t.Args[0]):
			t = t.Args[1]
		case x.quickValid(st.g, Not(t.Args[0])):
			t = t.Args[2]
		default:
			return t
		}
		v = t
	}
	return v
}
func iteLeaves(t *Term, out []*Term) []*Term {
	if t.Op == "ite" && len(out) < 32 {
		return iteLeaves(t.Args[2], iteLeaves(t.Args[1], out))
	}
	return append(out, t)
}
func splitSet(n, sym *Term) (g, v *Term, ok bool) {
	if sym.Sort == SBool {
		if n.Op == "or" {
			var rest []*Term
			f := false
			for _, a := range n.Args {
				if a == sym {
					f = true
				} else {
					rest = append(rest, a)
				}
			}
			if f {
				return Or(rest...), True, true
			}
		}
		if n.Op == "and" {
			var rest []*Term
			f := false
			for _, a := range n.Args {
				if a == sym {
					f = true
				} else {
					rest = append(rest, a)
				}
			}
			if f {
				return Not(And(rest...)), False, true
			}
		}
	}
	if n.Op != "ite" {
		return nil, nil, false
	}
	c, a, b := n.Args[0], n.Args[1], n.Args[2]
	if b == sym && a != sym {
		if a.Op == "ite" || a.contains(sym, map[int]bool{}) {
			if g2, v2, ok := splitSet(a, sym); ok {
				return And(c, g2), v2, true
			}
		}
		return c, a, true
	}
	if a == sym {
		if b.Op == "ite" || b.contains(sym, map[int]bool{}) {
			if g2, v2, ok := splitSet(b, sym); ok {
				return And(Not(c), g2), v2, true
			}
		}
		return Not(c), b, true
	}
	g1, v1, ok1 := splitSet(a, sym)
	g2, v2, ok2 := splitSet(b, sym)
	if ok1 && ok2 {
		v := Ite(c, v1, v2)
		return Ite(c, g1, g2), v, true
	}
	if ok1 && !b.contains(sym, map[int]bool{}) {
		return Or(Not(c), g1), Ite(c, v1, b), true
	}
	if ok2 && !a.contains(sym, map[int]bool{}) {
		return Or(c, g2), Ite(c, a, v2), true
	}
	return nil, nil, false
}
func csetOf(n, v, sym, init *Term) (*Term, *Term, bool) {
	if n == sym {
		return nil, nil, false
	}
	return splitSet(n, sym)
}
func csetRefit(n, sym, v *Term) (*Term, bool) {
	// value at k+1 in terms of value at k (already substituted): n = Or-like combination
	g, v2, ok := splitSet(n, sym)
	if ok && v2 == v {
		return g, true
	}
	return nil, false
}

// obligeInductive: the class of a carried variable is inductive (syntactically checked during classification)
func (x *Exec) obligeInductive(c *carried, k, rel *Term, nst *State, cs []*carried, st0 *State) {
	switch c.cls {
	case "ind":
		n := c.next.(*Term)
		x.oblige(nst, "inv", "loop induction variable "+c.name, Eq(n, Add(c.sym.(*Term), c.step)), 0)
	case "cset":
		n := c.next.(*Term)
		if c.kt != nil {
			if g2, v2, ok := splitSet(n, c.sym.(*Term)); ok && alphaEq(g2, c.g) && alphaEq(Subst(v2, map[*Term]*Term{k: c.kt}), c.v) {
				x.oblige(nst, "inv", "loop-carried flag "+c.name, Or(Not(c.g), Eq(k, c.kt)), 0)
				return
			}
		}
		x.oblige(nst, "inv", "loop-carried flag "+c.name, Eq(n, Ite(c.g, c.v, c.sym.(*Term))), 0)
	case "acc":
		n := c.next.(*SliceV)
		if q, ok := x.content(nst, n.arr.obj).(*SegSeq); ok {
			c.segs = q.segs[1:]
		}
	}
	for _, iv := range c.inv {
		x.oblige(nst, "inv", "loop invariant of "+c.name, c.invAt(iv, c.next), 0)
	}
}

// finalVal: value of a carried variable after K iterations
func (x *Exec) finalVal(c *carried, k, base, K *Term, st *State, outer []*Term) Value {
	relK := Sub(K, base)
	switch c.cls {
	case "const", "":
		if c.cls == "" {
			return c.init
		}
		return c.init
	case "ind":
		return Add(c.init.(*Term), Mul(c.step, relK))
	case "cset":
		j := x.newK("j")
		e := Exists([]*Term{j}, And(Le(base, j), Lt(j, K), Subst(c.g, map[*Term]*Term{k: j})))
		return Ite(e, c.v, c.init.(*Term))
	case "acc":
		iv := c.init.(*SliceV)
		q := x.viewSeq(st, iv)
		segs, ok := toSegs(q)
		if !ok {
			segs = []Seg{{g: True, ref: q, lenT: q.Len()}}
		}
		out := append(append([]Seg{}, segs...), Seg{g: True, k: k, lo: base, hi: K, body: c.segs})
		o := newObj("acc "+c.name, c.typ)
		sq := &SegSeq{out}
		st.mem[o] = sq
		n := sq.Len()
		added := Gt(n, iv.len)
		return &SliceV{arr: &Loc{obj: o}, off: IntC(0), len: n, cap: n, isnil: And(iv.isnil, Not(added)), full: True}
	case "arr":
		return x.arrFinal(c, k, base, K)
	}
	// havoc: value at K
	return x.substVal(c.sym, map[*Term]*Term{k: K})
}

// replaceAcc: in an exit state (already at K) accumulator prefixes are replaced by their contents
func (x *Exec) replaceAcc(n, st0 *State, cs []*carried, k, base, K *Term, outer []*Term, am map[*Term]*Term) {
	m := map[*Term]*Term{k: K}
	tm := map[*Term]*Term{}
	type rep struct {
		acc  *Term
		segs []Seg
	}
	var reps []rep
	for _, c := range cs {
		if c.cls != "acc" && !(c.cls == "" && c.accT != nil) {
			continue
		}
		sv, ok := c.sym.(*SliceV)
		if !ok {
			continue
		}
		iv := c.init.(*SliceV)
		q := x.viewSeq(n, iv)
		segs, ok := toSegs(q)
		if !ok {
			segs = []Seg{{g: True, ref: q, lenT: q.Len()}}
		}
		all := append(append([]Seg{}, segs...), Seg{g: True, k: k, lo: base, hi: K, body: c.segs})
		reps = append(reps, rep{Subst(c.accT, m), all})
		ln := segsLen(all)
		tm[Subst(sv.len, m)] = ln
		tm[Subst(sv.isnil, m)] = And(iv.isnil, Not(Gt(ln, iv.len)))
	}
	// array symbols
	if len(reps) == 0 {
		return
	}
	s := x.newSubst(tm, nil)
	for o, v := range n.mem {
		if q, ok := v.(*SegSeq); ok {
			var out []Seg
			ch := false
			for _, sg := range q.segs {
				done := false
				if sg.acc != nil {
					for _, r := range reps {
						if r.acc == sg.acc {
							for _, y := range r.segs {
								y.g = And(sg.g, y.g)
								out = append(out, y)
							}
							done = true
							ch = true
						}
					}
				}
				if !done {
					out = append(out, sg)
				}
			}
			if ch {
				n.mem[o] = &SegSeq{out}
			}
		}
	}
	// what was there before the loop and has not changed knows nothing of the accumulators
	for o, v := range n.mem {
		if old, in := st0.mem[o]; !in || !sameVal(old, v) {
			n.mem[o] = s.val(v)
		}
	}
	for kk, v := range n.env {
		if old, in := st0.env[kk]; !in || !sameVal(old, v) {
			n.env[kk] = s.val(v)
		}
	}
	n.g = s.term(n.g)
}

// arrFinal: contents of an array written at index e(k) by iteration k
func (x *Exec) arrFinal(c *carried, k, base, K *Term) Value {
	init := c.init.(Seq)
	var ws []arrWrite
	ok := collectWrites(c.next, c.sym.(Seq), True, &ws)
	if ok && len(ws) > 0 {
		type inv struct {
			kk func(i *Term) *Term
			w  arrWrite
		}
		var invs []inv
		for _, w := range ws {
			l := linOf(w.idx)
			co, has := l.cs[k.id]
			if !has || !co.IsInt() {
				ok = false
				break
			}
			one := co.Num().IsInt64() && (co.Num().Int64() == 1 || co.Num().Int64() == -1)
			off := Subst(w.idx, map[*Term]*Term{k: IntC(0)})
			if off.contains(k, map[int]bool{}) || !one {
				ok = false
				break
			}
			sgn := co.Num().Int64()
			invs = append(invs, inv{func(i *Term) *Term {
				if sgn == 1 {
					return Sub(i, off)
				}
				return Sub(off, i)
			}, w})
		}
		if ok {
			// values must not read the array at indices other iterations write: only their own index is allowed
			return &FnSeq{n: init.Len(), name: c.name + ".final", at: func(i *Term) Value {
				var v Value = x.seqAt(init, i)
				for _, iv := range invs {
					kk := iv.kk(i)
					g := And(Le(base, kk), Lt(kk, K), Subst(iv.w.g, map[*Term]*Term{k: kk}))
					nv := x.substVal(iv.w.v, map[*Term]*Term{k: kk})
					nv = x.replaceArrReads(nv, c, kk, i, init)
					v = x.mergeVal(g, nv, v)
				}
				return v
			}}
		}
	}
	// unknown contents
	nm := c.name + ".after"
	ks := append([]*Term{}, x.kstack[:len(x.kstack)-1]...)
	var et types.Type
	switch u := c.typ.Underlying().(type) {
	case *types.Array:
		et = u.Elem()
	case *types.Slice:
		et = u.Elem()
	}
	return &FnSeq{n: init.Len(), at: func(i *Term) Value { return x.input(nm, append(append([]*Term{}, ks...), i), et, false) }, name: nm}
}

// replaceArrReads: reads of the array at the iteration's own index see the initial contents
func (x *Exec) replaceArrReads(v Value, c *carried, kk, i *Term, init Seq) Value {
	t, ok := v.(*Term)
	if !ok {
		return v
	}
	nm := c.sym.(*FnSeq).name + "[]"
	m := map[*Term]*Term{}
	var walk func(t *Term, seen map[int]bool)
	walk = func(t *Term, seen map[int]bool) {
		if seen[t.id] {
			return
		}
		seen[t.id] = true
		if t.Op == "uf" && t.Str == nm {
			idx := t.Args[len(t.Args)-1]
			if idx == i || Eq(idx, i) == True {
				if iv, ok := x.seqAt(init, i).(*Term); ok {
					m[t] = iv
				}
			}
		}
		for _, a := range t.Args {
			walk(a, seen)
		}
	}
	walk(t, map[int]bool{})
	return Subst(t, m)
}

func collectWrites(v Value, sym Seq, g *Term, out *[]arrWrite) bool {
	q, ok := v.(Seq)
	if !ok {
		return false
	}
	if q == sym {
		return true
	}
	switch t := q.(type) {
	case *UpdSeq:
		if !collectWrites(t.base, sym, g, out) {
			return false
		}
		*out = append(*out, arrWrite{g, t.idx, t.val})
		return true
	case *IteSeq:
		return collectWrites(t.a, sym, And(g, t.c), out) && collectWrites(t.b, sym, And(g, Not(t.c)), out)
	}
	return false
}

// invAt: an inferred invariant of c at another value of c
func (c *carried) invAt(iv *Term, v Value) *Term {
	if _, ok := c.sym.(*PtrV); ok {
		p, ok := force(v).(*PtrV)
		if !ok {
			return False
		}
		return Not(isNilPtr(p))
	}
	t, ok := v.(*Term)
	if !ok {
		return False
	}
	return Subst(iv, map[*Term]*Term{c.sym.(*Term): t})
}

// inferInvariants: non-nil pointers and simple bounds of havocked integers (s >= init, s <= init, s >= 0), kept when inductive
func (x *Exec) inferInvariants(fr *Frame, cs []*carried, st0 *State, res iterRes, getNext func(c *carried, st *State) Value, run func(bool) iterRes) {
	if res.next == nil {
		return
	}
	any := false
	for _, c := range cs {
		if c.cls != "havoc" {
			continue
		}
		if p, ok := c.sym.(*PtrV); ok {
			c.inv = append(c.inv, Not(isNilPtr(p)))
			any = true
			continue
		}
		init, ok := c.init.(*Term)
		if !ok || init.Sort.K != KInt && init.Sort.K != KReal {
			continue
		}
		s := c.sym.(*Term)
		c.inv = append(c.inv, Ge(s, init), Le(s, init))
		if init.Sort.K == KInt {
			c.inv = append(c.inv, Ge(s, IntC(0)), Le(s, IntC(0)))
		}
		any = true
	}
	if !any {
		return
	}
	// entry
	for _, c := range cs {
		if len(c.inv) == 0 {
			continue
		}
		var keep []*Term
		for _, iv := range c.inv {
			if x.quickValid(st0.g, c.invAt(iv, c.init)) {
				keep = append(keep, iv)
			}
		}
		c.inv = keep
	}
	for round := 0; round < 8; round++ {
		dropped := false
		x.quiet++
		nf := len(x.facts)
		func() {
			defer func() { x.quiet--; x.dropFacts(nf) }()
			r := run(false)
			if r.next == nil {
				return
			}
			for _, c := range cs {
				if len(c.inv) == 0 {
					continue
				}
				n := getNext(c, r.next)
				var keep []*Term
				for _, iv := range c.inv {
					if x.quickValid(r.next.g, c.invAt(iv, n)) {
						keep = append(keep, iv)
					} else {
						dropped = true
					}
				}
				c.inv = keep
			}
		}()
		if !dropped {
			return
		}
	}
	for _, c := range cs {
		c.inv = nil
	}
}

type userInv struct {
	fn  string
	inv *FuncV
}

// userInvs evaluates the loop invariants stated by the harness (vInvariant) for the loops of fr.fn in state st.
// Parameters of the invariant are matched by name with loop variables and parameters of the function.
func (x *Exec) userInvs(fr *Frame, h *ssa.BasicBlock, st *State) []*Term {
	if len(x.uinvs) == 0 || x.inInv {
		return nil
	}
	var out []*Term
	for _, u := range x.uinvs {
		if u.fn != fr.fn.Name() {
			continue
		}
		var args []Value
		ok := true
		for _, p := range u.inv.fn.Params {
			var v Value
			for _, in := range h.Instrs {
				if phi, isPhi := in.(*ssa.Phi); isPhi && phi.Comment == p.Name() {
					v = st.env[phi]
				}
			}
			if v == nil {
				for _, q := range fr.fn.Params {
					if q.Name() == p.Name() {
						v = x.get(fr, st, q)
					}
				}
			}
			if v == nil {
				ok = false
				break
			}
			args = append(args, v)
		}
		if !ok {
			continue
		}
		x.inInv = true
		x.quiet++
		c := st.clone()
		r, ns := x.callFn(u.inv.fn, u.inv.binds, c, args, fr)
		x.quiet--
		x.inInv = false
		if ns == nil {
			panic(unsup("loop invariant without value"))
		}
		out = append(out, r.(*Term))
	}
	return out
}

func sameVal(a, b Value) bool {
	if _, t := a.(TupleV); t {
		return false
	}
	if _, t := b.(TupleV); t {
		return false
	}
	return a == b
}

// alphaEq: equal up to the names of bound variables
func alphaEq(a, b *Term) bool {
	if a == b {
		return true
	}
	if a.Op != b.Op || a.Sort != b.Sort || a.Str != b.Str || len(a.Args) != len(b.Args) || len(a.Args) == 0 || a.Num != b.Num && (a.Num == nil || b.Num == nil || a.Num.Cmp(b.Num) != 0) {
		return false
	}
	n := len(a.Args)
	if a.Op == "forall" {
		m := map[*Term]*Term{}
		for i := 0; i < n-1; i++ {
			if a.Args[i].Sort != b.Args[i].Sort {
				return false
			}
			m[b.Args[i]] = a.Args[i]
		}
		return alphaEq(a.Args[n-1], Subst(b.Args[n-1], m))
	}
	if a.Op == "and" || a.Op == "or" || a.Op == "+" || a.Op == "=" {
		used := make([]bool, n)
	next:
		for _, p := range a.Args {
			for j, q := range b.Args {
				if !used[j] && alphaEq(p, q) {
					used[j] = true
					continue next
				}
			}
			return false
		}
		return true
	}
	for i := range a.Args {
		if !alphaEq(a.Args[i], b.Args[i]) {
			return false
		}
	}
	return true
}
