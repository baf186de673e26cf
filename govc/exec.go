package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math/big"
	"os"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

type State struct {
	g   *Term
	mem map[*Obj]Value
	env map[ssa.Value]Value
}

func (s *State) fork(c *Term) *State {
	n := &State{g: And(s.g, c), mem: make(map[*Obj]Value, len(s.mem)), env: make(map[ssa.Value]Value, len(s.env)+8)}
	for k, v := range s.mem {
		n.mem[k] = v
	}
	for k, v := range s.env {
		n.env[k] = v
	}
	return n
}

type Ob struct {
	Name  string
	Kind  string // safety, post, pre, inv, frame
	g     *Term
	cond  *Term
	nfact int
	pos   token.Pos
	fn    string
	res   *solveRes
	ok    bool
	ri    int
	by    string
}

type Fact struct{ t *Term }

type Exec struct {
	uinvs []userInv
	inInv bool
	P           *Program
	unit        string
	obs         []*Ob
	facts       []*Term
	factSet     map[int]bool
	inObjs      map[string]*Obj
	globals     map[*ssa.Global]*Obj
	nonnilElems map[string]bool
	gcAll       bool
	replace     map[string]*ssa.Function
	depth       int
	quiet       int // >0: trial run, obligations discarded
	deep        int // >0: comparison follows pointers (vDeepEq)
	safety      bool
	fns         map[string]bool // functions executed
	loops       map[string]int
	assumptions map[string]bool
	segPos      map[*Term]*segRef
	frames      []*Frame
	maxUnroll   int
	natLoops    map[*ssa.Function]*loopInfo
	calls       int
	summaries   map[string]int
	events      []string
	opaqueFns   map[string]bool // calls replaced by unconstrained results
	feas        bool
	hooks       map[string]func(x *Exec, fr *Frame, st *State, call ssa.CallInstruction, args []Value) (Value, bool)
	depthLimit  int
	exclMemo  map[[2]int]bool
	feasCache   map[int]bool
	noOverflow  bool
	kstack      []*Term
	fam         map[*Obj]*famInfo
	famInst     map[string]*Obj
	forceIf     map[*ssa.BasicBlock]int
	curCall     *ssa.Call
	curCallPos  token.Pos
	contracts   map[string]bool
	covers      []*Ob
	globalOverride map[string]Value
	solverTime time.Duration
	chans      map[*Obj]*chanInfo
	spawned    []spawned
	parks      [][]*State
	inSelect   int
	gcRoots    []Value
	strSeqs map[*Term]Seq
	unroll     map[string]bool // functions whose loops are followed round by round
	maxAlloc   *Term
}

type segRef struct {
	v   Value
	obj *Obj
}

type Frame struct {
	fn     *ssa.Function
	rets   []retEdge
	binds  []Value
	li     *loopInfo
	defers []deferred
	caller *Frame
}
type deferred struct {
	call *ssa.Defer
	args []Value
	fv   Value
	g    *Term
}
type retEdge struct {
	st   *State
	vals []Value
}

func newExec(P *Program, unit string) *Exec {
	return &Exec{P: P, unit: unit, factSet: map[int]bool{}, inObjs: map[string]*Obj{}, globals: map[*ssa.Global]*Obj{}, nonnilElems: map[string]bool{},
		replace: map[string]*ssa.Function{}, safety: true, fns: map[string]bool{}, loops: map[string]int{}, assumptions: map[string]bool{}, segPos: map[*Term]*segRef{},
		maxUnroll: 5000, natLoops: map[*ssa.Function]*loopInfo{}, summaries: map[string]int{}, opaqueFns: map[string]bool{},
		hooks: map[string]func(x *Exec, fr *Frame, st *State, call ssa.CallInstruction, args []Value) (Value, bool){}, depthLimit: 60, feasCache: map[int]bool{},
		fam: map[*Obj]*famInfo{}, famInst: map[string]*Obj{}, forceIf: map[*ssa.BasicBlock]int{},
		contracts: map[string]bool{}, globalOverride: map[string]Value{}}
}

func (x *Exec) addFact(t *Term, args []*Term) {
	if t == True || x.factSet[t.id] {
		return
	}
	x.factSet[t.id] = true
	x.facts = append(x.facts, t)
}
func (x *Exec) assume(st *State, c *Term) { x.addFact(Implies(st.g, c), nil) }

func (x *Exec) oblige(st *State, kind, name string, cond *Term, pos token.Pos) {
	x.obligeG(st.g, kind, name, cond, pos)
}
func (x *Exec) obligeG(g *Term, kind, name string, cond *Term, pos token.Pos) {
	if x.quiet == 0 {
		if !(kind == "safety" && !x.safety) {
			fn := ""
			if len(x.frames) > 0 {
				fn = x.frames[len(x.frames)-1].fn.RelString(nil)
			}
			x.obs = append(x.obs, &Ob{Name: name, Kind: kind, g: g, cond: cond, nfact: len(x.facts), pos: pos, fn: fn})
		}
	}
	if cond != True && !(kind == "inv" && strings.HasPrefix(name, "loop-carried flag ")) { // flags of summarised loops: of no use later
		x.addFact(Implies(g, cond), nil)
	}
}

// ---------------------------------------------------------------- merging

// mergeCond splits two guards into common part and residuals
func residual(ga, gb *Term) (c *Term) {
	inB := map[int]bool{}
	for _, t := range conj(gb) {
		inB[t.id] = true
	}
	var ra []*Term
	for _, t := range conj(ga) {
		if !inB[t.id] {
			ra = append(ra, t)
		}
	}
	return And(ra...)
}

func (x *Exec) mergeVal(c *Term, a, b Value) Value {
	_, tup := a.(TupleV)
	if !tup && a == b {
		return a
	}
	if c == True {
		return a
	}
	if c == False {
		return b
	}
	a, b = force(a), force(b)
	if !tup && a == b {
		return a
	}
	if p, ok := a.(*Poison); ok {
		if p.dead {
			return b
		}
		return p
	}
	if p, ok := b.(*Poison); ok {
		if p.dead {
			return a
		}
		return p
	}
	switch va := a.(type) {
	case *Term:
		vb, ok := b.(*Term)
		if !ok || va.Sort != vb.Sort {
			return &Poison{why: "merge of different kinds"}
		}
		return Ite(c, va, vb)
	case *StructV:
		vb, ok := b.(*StructV)
		if !ok || len(va.f) != len(vb.f) {
			return &Poison{why: "merge struct"}
		}
		out := &StructV{f: make([]Value, len(va.f))}
		for i := range va.f {
			out.f[i] = x.mergeVal(c, va.f[i], vb.f[i])
		}
		return out
	case TupleV:
		vb, ok := b.(TupleV)
		if !ok || len(va) != len(vb) {
			return &Poison{why: "merge tuple"}
		}
		out := make(TupleV, len(va))
		for i := range va {
			out[i] = x.mergeVal(c, va[i], vb[i])
		}
		return out
	case *PtrV:
		vb, ok := b.(*PtrV)
		if !ok {
			return &Poison{why: "merge ptr"}
		}
		return mergePtr(c, va, vb)
	case *MapRef:
		vb, ok := b.(*MapRef)
		if !ok {
			return &Poison{why: "merge map"}
		}
		return &MapRef{mergePtr(c, va.p, vb.p)}
	case *SliceV:
		vb, ok := b.(*SliceV)
		if !ok {
			return &Poison{why: "merge slice"}
		}
		return x.mergeSlice(c, va, vb)
	case *IfaceV:
		vb, ok := b.(*IfaceV)
		if !ok {
			return &Poison{why: "merge iface"}
		}
		return x.mergeIface(c, va, vb)
	case *FuncV:
		vb, ok := b.(*FuncV)
		if ok && va.fn == vb.fn && va.name == vb.name && len(va.binds) == len(vb.binds) {
			same := true
			for i := range va.binds {
				if valKey(va.binds[i]) != valKey(vb.binds[i]) {
					same = false
				}
			}
			if same {
				return a
			}
		}
		if fb := funcAlts(b); fb != nil {
			return mergeFuncs(c, funcAlts(a), fb)
		}
		return &Poison{why: "merge func"}
	case *FuncAlts:
		if fb := funcAlts(b); fb != nil {
			return mergeFuncs(c, va.alts, fb)
		}
		return &Poison{why: "merge func"}
	case *OpaqueV:
		vb, ok := b.(*OpaqueV)
		if ok && va.id != nil && va.id == vb.id || ok && va.id == nil && vb.id == nil && va.name == vb.name {
			return a
		}
		if ok && va.id != nil && vb.id != nil {
			return &OpaqueV{id: Ite(c, va.id, vb.id), name: va.name, typ: va.typ}
		}
		return &Poison{why: "merge opaque"}
	case *MapC:
		vb, ok := b.(*MapC)
		if !ok {
			return &Poison{why: "merge mapc"}
		}
		i := 0
		for i < len(va.entries) && i < len(vb.entries) && sameEntry(va.entries[i], vb.entries[i]) {
			i++
		}
		if va.base != vb.base {
			return &Poison{why: "merge maps with different bases"}
		}
		out := &MapC{base: va.base, typ: va.typ}
		out.entries = append(out.entries, va.entries[:i]...)
		for _, e := range va.entries[i:] {
			e.g = And(c, e.g)
			out.entries = append(out.entries, e)
		}
		for _, e := range vb.entries[i:] {
			e.g = And(Not(c), e.g)
			out.entries = append(out.entries, e)
		}
		return out
	}
	sa, ok1 := a.(Seq)
	sb, ok2 := b.(Seq)
	if ok1 && ok2 {
		return x.mergeSeq(c, sa, sb)
	}
	return &Poison{why: fmt.Sprintf("merge %T %T", a, b)}
}
func sameEntry(a, b MapEntry) bool {
	return a.g == b.g && a.del == b.del && valKey(a.k) == valKey(b.k) && (a.v == b.v || a.v != nil && b.v != nil && valKey(a.v) == valKey(b.v))
}
func mergePtr(c *Term, a, b *PtrV) *PtrV {
	out := &PtrV{}
	add := func(g *Term, l *Loc) {
		if g == False {
			return
		}
		for i := range out.alts {
			o := &out.alts[i]
			if (o.loc == nil) == (l == nil) && (l == nil || locKey(o.loc) == locKey(l)) {
				o.g = Or(o.g, g)
				return
			}
		}
		out.alts = append(out.alts, PtrAlt{g, l})
	}
	for _, al := range a.alts {
		add(And(c, al.g), al.loc)
	}
	for _, al := range b.alts {
		add(And(Not(c), al.g), al.loc)
	}
	return out
}
func (x *Exec) mergeIface(c *Term, a, b *IfaceV) Value {
	out := &IfaceV{}
	add := func(g *Term, al IfaceAlt) {
		if g == False {
			return
		}
		for i := range out.alts {
			o := &out.alts[i]
			if o.typ == nil && al.typ == nil && o.opq == al.opq {
				o.g = Or(o.g, g)
				return
			}
			if o.typ != nil && al.typ != nil && types.Identical(o.typ, al.typ) {
				o.val = x.mergeVal(g, al.val, o.val)
				o.g = Or(o.g, g)
				return
			}
		}
		al.g = g
		out.alts = append(out.alts, al)
	}
	for _, al := range a.alts {
		add(And(c, al.g), al)
	}
	for _, al := range b.alts {
		add(And(Not(c), al.g), al)
	}
	return out
}
func (x *Exec) mergeSlice(c *Term, a, b *SliceV) Value {
	if a.arr != nil && b.arr != nil && locKey(a.arr) == locKey(b.arr) {
		var f *Term
		if a.full != nil && b.full != nil {
			f = Ite(c, a.full, b.full)
		}
		return &SliceV{arr: a.arr, off: Ite(c, a.off, b.off), len: Ite(c, a.len, b.len), cap: Ite(c, a.cap, b.cap), isnil: Ite(c, a.isnil, b.isnil), full: f}
	}
	z := IntC(0)
	if a.arr == nil && a.len == z {
		var f *Term
		if b.full != nil {
			f = And(Not(c), b.full)
		}
		return &SliceV{arr: b.arr, off: b.off, len: Ite(c, z, b.len), cap: Ite(c, z, b.cap), isnil: Ite(c, a.isnil, b.isnil), full: f}
	}
	if b.arr == nil && b.len == z {
		var f *Term
		if a.full != nil {
			f = And(c, a.full)
		}
		return &SliceV{arr: a.arr, off: a.off, len: Ite(c, a.len, z), cap: Ite(c, a.cap, z), isnil: Ite(c, a.isnil, b.isnil), full: f}
	}
	return &mergedSlice{c, a, b}
}

// mergedSlice is resolved (into a fresh array object) by resolveMerged once the merged memory is known
type mergedSlice struct {
	c    *Term
	a, b *SliceV
}

func toSegs(s Seq) ([]Seg, bool) {
	switch q := s.(type) {
	case *CellSeq:
		out := make([]Seg, len(q.cells))
		for i, v := range q.cells {
			out[i] = Seg{g: True, v: v}
		}
		return out, true
	case *SegSeq:
		return q.segs, true
	case *FnSeq:
		if q.n == IntC(0) {
			return nil, true
		}
		if q.src != nil { // the bytes of a text put together from several: those of each
			ps := pieces(q.src)
			if len(ps) < 2 {
				return nil, false
			}
			var out []Seg
			for _, p := range ps {
				b := bytesOf(p)
				if c, ok := b.(*CellSeq); ok {
					for _, v := range c.cells {
						out = append(out, Seg{g: True, v: v})
					}
				} else {
					out = append(out, Seg{g: True, ref: b, lenT: StrLen(p)})
				}
			}
			return out, true
		}
	}
	return nil, false
}
func (x *Exec) mergeSeq(c *Term, a, b Seq) Seq {
	if os.Getenv("GOVC_DEBUG2") != "" {
		sa, _ := toSegs(a)
		sb, _ := toSegs(b)
		fmt.Fprintf(os.Stderr, "merge %T %d %T %d\n", a, len(sa), b, len(sb))
	}
	if ca, ok := a.(*CellSeq); ok {
		if cb, ok := b.(*CellSeq); ok && len(ca.cells) == len(cb.cells) {
			out := &CellSeq{cells: make([]Value, len(ca.cells))}
			for i := range out.cells {
				out.cells[i] = x.mergeVal(c, ca.cells[i], cb.cells[i])
			}
			return out
		}
	}
	sa, ok1 := toSegs(a)
	sb, ok2 := toSegs(b)
	if ok1 && ok2 {
		i := 0
		for i < len(sa) && i < len(sb) && segKey(sa[i]) == segKey(sb[i]) {
			i++
		}
		out := &SegSeq{}
		out.segs = append(out.segs, sa[:i]...)
		for _, s := range sa[i:] {
			s.g = And(c, s.g)
			if s.g != False {
				out.segs = append(out.segs, s)
			}
		}
		for _, s := range sb[i:] {
			s.g = And(Not(c), s.g)
			if s.g != False {
				out.segs = append(out.segs, s)
			}
		}
		return out
	}
	return &IteSeq{c, a, b}
}

func (x *Exec) mergeStates(a, b *State) *State {
	if a == nil {
		return b
	}
	if b == nil {
		return a
	}
	if a.g == False {
		return b
	}
	if b.g == False {
		return a
	}
	c := residual(a.g, b.g)
	cb := residual(b.g, a.g)
	// prefer the simpler condition
	if len(conj(cb)) < len(conj(c)) || c == True {
		a, b, c = b, a, cb
	}
	out := &State{g: Or(a.g, b.g), mem: make(map[*Obj]Value, len(a.mem)), env: make(map[ssa.Value]Value, len(a.env))}
	var pend []*Obj
	for o, v := range a.mem {
		w, ok := b.mem[o]
		if !ok {
			if o.init == nil {
				out.mem[o] = v
				continue
			}
			w = x.initOf(o)
		}
		if v == w {
			out.mem[o] = v
			continue
		}
		pend = append(pend, o)
	}
	for o, w := range b.mem {
		if _, ok := a.mem[o]; !ok {
			if o.init == nil {
				out.mem[o] = w
				continue
			}
			pend = append(pend, o)
		}
	}
	sort.Slice(pend, func(i, j int) bool { return pend[i].id < pend[j].id })
	for _, o := range pend {
		va, ok := a.mem[o]
		if !ok {
			va = x.initOf(o)
		}
		vb, ok := b.mem[o]
		if !ok {
			vb = x.initOf(o)
		}
		out.mem[o] = x.resolve(out, a, b, x.mergeVal(c, va, vb))
	}
	var keys []ssa.Value
	for k, va := range a.env {
		vb, ok := b.env[k]
		if !ok {
			continue
		}
		if _, tup := va.(TupleV); !tup && va == vb {
			out.env[k] = va
			continue
		}
		keys = append(keys, k)
	}
	sort.Slice(keys, func(i, j int) bool { return keys[i].Name() < keys[j].Name() })
	for _, k := range keys {
		out.env[k] = x.resolve(out, a, b, x.mergeVal(c, a.env[k], b.env[k]))
	}
	return out
}

// resolve replaces mergedSlice placeholders by fresh array objects holding the merged contents
func (x *Exec) resolve(out, a, b *State, v Value) Value {
	switch t := v.(type) {
	case *mergedSlice:
		av := x.viewSeq(a, t.a)
		bv := x.viewSeq(b, t.b)
		o := newObj("merged", nil)
		ms := x.resolveSeq(out, a, b, x.mergeSeq(t.c, av, bv))
		out.mem[o] = ms
		if q, ok := ms.(*SegSeq); ok {
			n := q.Len()
			return &SliceV{arr: &Loc{obj: o}, off: IntC(0), len: n, cap: n, isnil: Ite(t.c, t.a.isnil, t.b.isnil), full: True}
		}
		return &SliceV{arr: &Loc{obj: o}, off: IntC(0), len: Ite(t.c, t.a.len, t.b.len), cap: Ite(t.c, t.a.len, t.b.len), isnil: Ite(t.c, t.a.isnil, t.b.isnil)}
	case *StructV:
		ch := false
		nf := make([]Value, len(t.f))
		for i, f := range t.f {
			nf[i] = x.resolve(out, a, b, f)
			if nf[i] != f {
				ch = true
			}
		}
		if ch {
			return &StructV{nf}
		}
	case TupleV:
		nf := make(TupleV, len(t))
		for i, f := range t {
			nf[i] = x.resolve(out, a, b, f)
		}
		return nf
	case *IfaceV:
		ch := false
		alts := append([]IfaceAlt{}, t.alts...)
		for i := range alts {
			if alts[i].val != nil {
				n := x.resolve(out, a, b, alts[i].val)
				if n != alts[i].val {
					alts[i].val = n
					ch = true
				}
			}
		}
		if ch {
			return &IfaceV{alts}
		}
	case Seq:
		return x.resolveSeq(out, a, b, t)
	}
	return v
}
func (x *Exec) resolveSeq(out, a, b *State, s Seq) Value {
	if c, ok := s.(*CellSeq); ok {
		ch := false
		n := make([]Value, len(c.cells))
		for i, v := range c.cells {
			n[i] = x.resolve(out, a, b, v)
			if n[i] != v {
				ch = true
			}
		}
		if ch {
			return &CellSeq{n}
		}
	}
	return s
}

// viewSeq: the elements visible through a slice
func (x *Exec) viewSeq(st *State, s *SliceV) Seq {
	if s.arr == nil || s.len == IntC(0) {
		return &CellSeq{}
	}
	q := x.loadLoc(st, s.arr).(Seq)
	if s.full != nil {
		if s.full == True {
			return q
		}
		if segs, ok := toSegs(q); ok {
			out := make([]Seg, len(segs))
			for i, g := range segs {
				g.g = And(s.full, g.g)
				out[i] = g
			}
			return &SegSeq{out}
		}
	}
	return x.window(q, s.off, s.len)
}
func (x *Exec) window(q Seq, off, n *Term) Seq {
	if off == IntC(0) && q.Len() == n {
		return q
	}
	if f, ok := q.(*FnSeq); ok && f.pre != nil && off == IntC(0) && f.pre.Len() == n {
		return f.pre
	}
	if segs, ok := toSegs(q); ok {
		// constant window over unguarded singles
		o, ok1 := off.Int64()
		m, ok2 := n.Int64()
		allc := true
		for _, s := range segs {
			if s.g != True || s.k != nil || s.ref != nil || s.acc != nil {
				allc = false
			}
		}
		if ok1 && ok2 && allc && o >= 0 && o+m <= int64(len(segs)) {
			var cs []Value
			for _, s := range segs[o : o+m] {
				cs = append(cs, s.v)
			}
			return &CellSeq{cs}
		}
		if allc && ok1 {
			// symbolic length prefix of cells
			var out []Seg
			for i := o; i < int64(len(segs)); i++ {
				s := segs[i]
				s.g = Lt(IntC(i-o), n)
				out = append(out, s)
			}
			return &SegSeq{out}
		}
	}
	if f, ok := q.(*FnSeq); ok && off == IntC(0) {
		return &FnSeq{n: n, at: f.at, name: f.name}
	}
	qq := q
	return &FnSeq{n: n, at: func(i *Term) Value { return x.seqAt(qq, Add(off, i)) }, name: "window"}
}

func (x *Exec) initOf(o *Obj) Value {
	if o.init == nil {
		return &Poison{why: "uninitialised object " + o.name}
	}
	if v, ok := x.initMemo(o); ok {
		return v
	}
	return nil
}

var initCache = map[*Obj]Value{}

func (x *Exec) initMemo(o *Obj) (Value, bool) {
	if v, ok := initCache[o]; ok {
		return v, true
	}
	v := o.init()
	initCache[o] = v
	return v, true
}

// ---------------------------------------------------------------- memory access

func (x *Exec) content(st *State, o *Obj) Value {
	if o.abstract {
		panic(unsup("frame: contents of abstract object %s read", o.name))
	}
	if v, ok := st.mem[o]; ok {
		return force(v)
	}
	return force(x.initOf(o))
}
func (x *Exec) loadLoc(st *State, l *Loc) Value {
	v := x.content(st, l.obj)
	for _, p := range l.path {
		if p.idx != nil {
			if w := x.stepSlices(st, v, p.idx); w != nil {
				v = w
				continue
			}
		}
		v = x.step(v, p)
	}
	return v
}

// stepSlices reads element i of an array of slices (a table) for a symbolic i
func (x *Exec) stepSlices(st *State, v Value, i *Term) Value {
	q, ok := force(v).(*CellSeq)
	if !ok || len(q.cells) == 0 || len(q.cells) > 64 {
		return nil
	}
	if _, ok := i.Int64(); ok {
		return nil
	}
	if _, ok := x.segPos[i]; ok {
		return nil
	}
	var out Value
	for j := len(q.cells) - 1; j >= 0; j-- {
		c := force(q.cells[j])
		if _, ok := c.(*SliceV); !ok {
			return nil
		}
		if out == nil {
			out = c
			continue
		}
		out = x.resolve(st, st, st, x.mergeVal(Eq(i, IntC(int64(j))), c, out))
	}
	return out
}
func (x *Exec) step(v Value, p PathEl) Value {
	v = force(v)
	if ps, ok := v.(*Poison); ok {
		panic(unsup("read of poisoned value (%s)", ps.why))
	}
	if p.idx != nil {
		s, ok := v.(Seq)
		if !ok {
			panic(unsup("index into %T", v))
		}
		return force(x.seqAt(s, p.idx))
	}
	sv, ok := v.(*StructV)
	if !ok {
		panic(unsup("field of %T", v))
	}
	return force(sv.f[p.field])
}
func (x *Exec) seqAt(s Seq, i *Term) Value {
	switch q := s.(type) {
	case *CellSeq:
		if n, ok := i.Int64(); ok {
			if n < 0 || int(n) >= len(q.cells) {
				return &Poison{why: "index out of range", dead: true}
			}
			return force(q.cells[n])
		}
		if r, ok := x.segPos[i]; ok {
			return r.v
		}
		if len(q.cells) == 0 {
			return &Poison{why: "index into empty array", dead: true}
		}
		// symbolic index: group equal cells
		v := q.cells[len(q.cells)-1]
		for j := len(q.cells) - 2; j >= 0; j-- {
			v = x.mergeVal(Eq(i, IntC(int64(j))), q.cells[j], v)
			if _, ok := v.(*mergedSlice); ok {
				return &Poison{why: "symbolic index into slices"}
			}
		}
		return v
	case *FnSeq:
		return force(q.at(i))
	case *UpdSeq:
		e := Eq(q.idx, i)
		if e == True {
			return q.val
		}
		if e == False {
			return x.seqAt(q.base, i)
		}
		return x.mergeVal(e, q.val, x.seqAt(q.base, i))
	case *IteSeq:
		return x.mergeVal(q.c, x.seqAt(q.a, i), x.seqAt(q.b, i))
	case *SegSeq:
		if r, ok := x.segPos[i]; ok {
			return r.v
		}
		return x.segAt(q.segs, i)
	}
	panic(unsup("seqAt %T", s))
}
func (x *Exec) segAt(segs []Seg, i *Term) Value {
	pos := IntC(0)
	var v Value
	type cand struct {
		c *Term
		v Value
	}
	var cs []cand
	for _, s := range segs {
		if s.acc != nil || s.ref != nil {
			if s.ref != nil {
				n := s.lenT
				in := And(s.g, Ge(i, pos), Lt(i, Add(pos, n)))
				if in != False {
					cs = append(cs, cand{in, x.seqAt(s.ref, Sub(i, pos))})
				}
				if in == True {
					break
				}
				pos = Add(pos, Ite(s.g, n, IntC(0)))
				continue
			}
			return &Poison{why: "element of an unknown prefix"}
		}
		if s.k != nil {
			bl := segsLen(s.body)
			b, ok := bl.Int64()
			if !ok || b <= 0 {
				return &Poison{why: "element of a nested family"}
			}
			n := segLen1(s)
			in := And(s.g, Ge(i, pos), Lt(i, Add(pos, n)))
			if in != False {
				rel := Sub(i, pos)
				kk := Add(s.lo, IDiv(rel, bl))
				j := IMod(rel, bl)
				var e Value
				cnt := int64(0)
				okk := true
				for _, bs := range s.body {
					if bs.k != nil && bs.g == True {
						ibl, ok2 := segsLen(bs.body).Int64()
						_, ok3 := segLen1(bs).Int64()
						_ = ibl
						if !ok2 || !ok3 {
							okk = false
						}
						cnt += 0
						okk = false
						break
					}
					if bs.g != True || bs.v == nil {
						okk = false
						break
					}
					ev := x.substVal(bs.v, map[*Term]*Term{s.k: kk})
					if e == nil {
						e = ev
					} else {
						e = x.mergeVal(Eq(j, IntC(cnt)), ev, e)
					}
					cnt++
				}
				if !okk { // families and windows inside: an element of one body
					e = x.segAt(x.newSubst(map[*Term]*Term{s.k: kk}, nil).segs(s.body), j)
				}
				if e == nil {
					return &Poison{why: "element of a nested family"}
				}
				cs = append(cs, cand{in, e})
			}
			pos = Add(pos, Ite(s.g, n, IntC(0)))
			continue
		}
		c := And(s.g, Eq(i, pos))
		if c != False {
			cs = append(cs, cand{c, s.v})
		}
		if c == True {
			break
		}
		pos = Add(pos, Ite(s.g, IntC(1), IntC(0)))
	}
	for j := len(cs) - 1; j >= 0; j-- {
		if v == nil {
			v = cs[j].v
		} else {
			v = x.mergeVal(cs[j].c, cs[j].v, v)
		}
	}
	if v == nil {
		return &Poison{why: "index out of range of sequence", dead: true}
	}
	if _, ok := v.(*mergedSlice); ok {
		return &Poison{why: "symbolic index into slices"}
	}
	return v
}

func (x *Exec) storeLoc(st *State, l *Loc, g *Term, v Value) {
	o := l.obj
	if o.abstract {
		x.oblige(st, "frame", "write to "+o.name+" outside its contract", False, token.NoPos)
		panic(unsup("frame: write to abstract object %s", o.name))
	}
	old := x.content(st, o)
	nv := x.update(old, l.path, v)
	if g != True {
		m := x.mergeVal(g, nv, old)
		m = x.resolve(st, st, st, m)
		nv = m
	}
	st.mem[o] = nv
}
func (x *Exec) update(old Value, path []PathEl, v Value) Value {
	if len(path) == 0 {
		return v
	}
	old = force(old)
	p := path[0]
	if p.idx == nil {
		sv, ok := old.(*StructV)
		if !ok {
			panic(unsup("field store into %T", old))
		}
		n := &StructV{f: append([]Value{}, sv.f...)}
		n.f[p.field] = x.update(sv.f[p.field], path[1:], v)
		return n
	}
	s, ok := old.(Seq)
	if !ok {
		panic(unsup("index store into %T", old))
	}
	var ev Value
	if len(path) == 1 {
		ev = v
	} else {
		ev = x.update(x.seqAt(s, p.idx), path[1:], v)
	}
	if c, ok := s.(*CellSeq); ok {
		if n, ok := p.idx.Int64(); ok && n >= 0 && int(n) < len(c.cells) {
			nc := &CellSeq{append([]Value{}, c.cells...)}
			nc.cells[n] = ev
			return nc
		}
		if len(c.cells) <= 64 {
			nc := &CellSeq{append([]Value{}, c.cells...)}
			for j := range nc.cells {
				nc.cells[j] = x.mergeVal(Eq(p.idx, IntC(int64(j))), ev, nc.cells[j])
			}
			return nc
		}
	}
	if c, ok := s.(*SegSeq); ok {
		if n, ok := p.idx.Int64(); ok {
			for j, sg := range c.segs {
				if sg.g != True || sg.k != nil || sg.ref != nil || sg.acc != nil {
					break
				}
				if int64(j) == n {
					nc := &SegSeq{append([]Seg{}, c.segs...)}
					nc.segs[j].v = ev
					return nc
				}
			}
		}
	}
	if u, ok := s.(*UpdSeq); ok && u.idx == p.idx {
		s = u.base
	}
	return &UpdSeq{base: s, idx: p.idx, val: ev}
}

func (x *Exec) load(st *State, p *PtrV, pos token.Pos, what string) Value {
	x.oblige(st, "safety", "nil dereference ("+what+")", Not(isNilPtr(p)), pos)
	var v Value
	for _, a := range p.alts {
		if a.loc == nil || And(st.g, a.g) == False {
			continue
		}
		w := x.loadLoc(st, a.loc)
		if v == nil {
			v = w
		} else {
			v = x.resolve(st, st, st, x.mergeVal(a.g, w, v))
		}
	}
	if v == nil {
		return &Poison{why: "load through nil pointer"}
	}
	return v
}
func (x *Exec) store(st *State, p *PtrV, v Value, pos token.Pos, what string) {
	x.oblige(st, "safety", "nil dereference ("+what+")", Not(isNilPtr(p)), pos)
	var live []PtrAlt
	for _, a := range p.alts {
		if a.loc != nil && And(st.g, a.g) != False {
			live = append(live, a)
		}
	}
	for _, a := range live {
		g := a.g
		if len(live) == 1 {
			g = True
		}
		x.storeLoc(st, a.loc, g, v)
	}
}
func extendPtr(p *PtrV, e PathEl) *PtrV {
	out := &PtrV{}
	for _, a := range p.alts {
		if a.loc == nil {
			out.alts = append(out.alts, a)
			continue
		}
		out.alts = append(out.alts, PtrAlt{a.g, &Loc{obj: a.loc.obj, path: append(append([]PathEl{}, a.loc.path...), e)}})
	}
	return out
}

// ---------------------------------------------------------------- values of operands

func (x *Exec) get(fr *Frame, st *State, v ssa.Value) Value {
	switch c := v.(type) {
	case *ssa.Const:
		return x.constVal(c)
	case *ssa.Global:
		return ptrTo(x.globalObj(c))
	case *ssa.Function:
		return &FuncV{fn: c}
	case *ssa.Builtin:
		return &FuncV{name: "builtin:" + c.Name()}
	case *ssa.FreeVar:
		for i, f := range fr.fn.FreeVars {
			if f == c {
				return fr.binds[i]
			}
		}
	}
	r, ok := st.env[v]
	if !ok {
		panic(unsup("value %s of %s undefined", v.Name(), fr.fn))
	}
	r = force(r)
	if p, ok := r.(*Poison); ok {
		panic(unsup("use of poisoned value %s (%s)", v.Name(), p.why))
	}
	return r
}
func (x *Exec) term(fr *Frame, st *State, v ssa.Value) *Term {
	t, ok := x.get(fr, st, v).(*Term)
	if !ok {
		panic(unsup("scalar expected for %s: %T", v, x.get(fr, st, v)))
	}
	return t
}

func (x *Exec) globalObj(g *ssa.Global) *Obj {
	if o, ok := x.globals[g]; ok {
		return o
	}
	et := g.Type().(*types.Pointer).Elem()
	o := newObj("global "+g.RelString(nil), et)
	o.global = true
	name := g.RelString(nil)
	o.init = func() Value {
		if v := x.globalInit(g); v != nil {
			return v
		}
		return x.input("G:"+name, nil, et, false)
	}
	x.globals[g] = o
	return o
}

// ---------------------------------------------------------------- control flow

type edgeState struct {
	pred *ssa.BasicBlock
	st   *State
	idx  int
}
type exitEdge struct {
	pred, to *ssa.BasicBlock
	st       *State
}

type loopInfo struct {
	rpo   []*ssa.BasicBlock
	order map[*ssa.BasicBlock]int
	loops map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool // header -> body
}

func (x *Exec) loopsOf(fn *ssa.Function) *loopInfo {
	if li, ok := x.natLoops[fn]; ok {
		return li
	}
	li := &loopInfo{order: map[*ssa.BasicBlock]int{}, loops: map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool{}}
	seen := map[*ssa.BasicBlock]bool{}
	var post []*ssa.BasicBlock
	var dfs func(b *ssa.BasicBlock)
	dfs = func(b *ssa.BasicBlock) {
		seen[b] = true
		for _, s := range b.Succs {
			if !seen[s] {
				dfs(s)
			}
		}
		post = append(post, b)
	}
	dfs(fn.Blocks[0])
	for i := len(post) - 1; i >= 0; i-- {
		li.order[post[i]] = len(li.rpo)
		li.rpo = append(li.rpo, post[i])
	}
	for _, b := range li.rpo {
		for _, s := range b.Succs {
			if s.Dominates(b) { // back edge
				body := li.loops[s]
				if body == nil {
					body = map[*ssa.BasicBlock]bool{s: true}
					li.loops[s] = body
				}
				var stack []*ssa.BasicBlock
				if !body[b] {
					body[b] = true
					stack = append(stack, b)
				}
				for len(stack) > 0 {
					n := stack[len(stack)-1]
					stack = stack[:len(stack)-1]
					for _, p := range n.Preds {
						if !body[p] && seen[p] {
							body[p] = true
							stack = append(stack, p)
						}
					}
				}
			} else if li.order[s] <= li.order[b] {
				panic(unsup("irreducible control flow in %s", fn))
			}
		}
	}
	x.natLoops[fn] = li
	return li
}

// mergeEdges merges the incoming edge states of a block, evaluating its phis
func (x *Exec) mergeEdges(fr *Frame, b *ssa.BasicBlock, es []edgeState) *State {
	var phis []*ssa.Phi
	for _, in := range b.Instrs {
		if p, ok := in.(*ssa.Phi); ok {
			phis = append(phis, p)
		} else if _, ok := in.(*ssa.DebugRef); !ok {
			break
		}
	}
	var acc *State
	for _, e := range es {
		if e.st.g == False {
			continue
		}
		if len(phis) > 0 {
			pi := -1
			for i, p := range b.Preds {
				if p == e.pred {
					pi = i
					break
				}
			}
			vals := make([]Value, len(phis))
			for i, p := range phis {
				vals[i] = x.phiGet(fr, e.st, p.Edges[pi])
			}
			for i, p := range phis {
				e.st.env[p] = vals[i]
			}
		}
		acc = x.mergeStates(acc, e.st)
	}
	return acc
}
func (x *Exec) phiGet(fr *Frame, st *State, v ssa.Value) (r Value) {
	switch v.(type) {
	case *ssa.Const, *ssa.Global, *ssa.Function, *ssa.FreeVar, *ssa.Builtin:
		return x.get(fr, st, v)
	}
	r, ok := st.env[v]
	if !ok {
		return &Poison{why: "undefined phi operand " + v.Name()}
	}
	return r
}

// runRegion executes the blocks of region from entry; back edges to header are returned in backs.
func (x *Exec) runRegion(fr *Frame, region map[*ssa.BasicBlock]bool, entry *ssa.BasicBlock, st *State, header *ssa.BasicBlock, rets *[]retEdge) (exits []exitEdge, backs []edgeState) {
	pending := map[*ssa.BasicBlock][]edgeState{}
	first := true
	push := func(from, to *ssa.BasicBlock, s *State) {
		if s.g == False {
			return
		}
		if header != nil && to == header {
			backs = append(backs, edgeState{pred: from, st: s})
			return
		}
		if region != nil && !region[to] {
			exits = append(exits, exitEdge{from, to, s})
			return
		}
		pending[to] = append(pending[to], edgeState{pred: from, st: s})
	}
	for _, b := range fr.li.rpo {
		if region != nil && !region[b] {
			continue
		}
		var cur *State
		if b == entry && first {
			cur = st
			first = false
		} else {
			es := pending[b]
			if len(es) == 0 {
				continue
			}
			delete(pending, b)
			if body, ok := fr.li.loops[b]; ok && b != header {
				for _, e := range x.runLoop(fr, b, body, es, rets) {
					push(e.pred, e.to, e.st)
				}
				continue
			}
			cur = x.mergeEdges(fr, b, es)
			if cur == nil {
				continue
			}
		}
		if x.feas && len(b.Preds) == 1 && !x.feasible(cur) {
			continue
		}
		x.runBlock(fr, b, cur, push, rets)
	}
	return
}

func (x *Exec) runBlock(fr *Frame, b *ssa.BasicBlock, st *State, push func(from, to *ssa.BasicBlock, s *State), rets *[]retEdge) {
	for _, in := range b.Instrs {
		if st.g == False {
			return
		}
		switch i := in.(type) {
		case *ssa.Phi, *ssa.DebugRef:
			continue
		case *ssa.If:
			c := x.term(fr, st, i.Cond)
			t, f := b.Succs[0], b.Succs[1]
			if w := x.forceIf[b]; w > 0 {
				push(b, b.Succs[w-1], st)
				return
			}
			if c == True {
				push(b, t, st)
				return
			}
			if c == False {
				push(b, f, st)
				return
			}
			if And(st.g, c) == False {
				push(b, f, st)
				return
			}
			if And(st.g, Not(c)) == False {
				push(b, t, st)
				return
			}
			push(b, t, st.fork(c))
			st.g = And(st.g, Not(c))
			push(b, f, st)
			return
		case *ssa.Jump:
			push(b, b.Succs[0], st)
			return
		case *ssa.Return:
			var vs []Value
			for _, r := range i.Results {
				vs = append(vs, x.phiGet(fr, st, r))
			}
			*rets = append(*rets, retEdge{st, vs})
			return
		case *ssa.Panic:
			x.oblige(st, "safety", "explicit panic", False, i.Pos())
			return
		default:
			x.instr(fr, st, in)
		}
	}
}

// callFn executes fn's body on args in the memory of st; nil state when it never returns.
func (x *Exec) callFn(fn *ssa.Function, binds []Value, st *State, args []Value, caller *Frame) (res Value, out *State) {
	if len(fn.Blocks) == 0 {
		panic(unsup("no body: %s", fn.RelString(nil)))
	}
	if len(x.frames) > x.depthLimit {
		panic(unsup("call depth (recursion) in %s", fn))
	}
	for _, f := range x.frames {
		if f.fn == fn {
			x.depth++
			n := 0
			for _, f2 := range x.frames {
				if f2.fn == fn {
					n++
				}
			}
			if n > 12 {
				panic(unsup("recursion in %s", fn))
			}
			break
		}
	}
	fr := &Frame{fn: fn, binds: binds, li: x.loopsOf(fn), caller: caller}
	x.frames = append(x.frames, fr)
	defer func() { x.frames = x.frames[:len(x.frames)-1] }()
	if fn.Pkg != nil && !strings.Contains(fn.Name(), "vc_") {
		x.fns[fn.RelString(nil)] = true
	}
	saved := st.env
	in := &State{g: st.g, mem: st.mem, env: map[ssa.Value]Value{}}
	for i, p := range fn.Params {
		in.env[p] = args[i]
	}
	entry := make(map[*Obj]Value, len(st.mem))
	for o, v := range st.mem {
		entry[o] = v
	}
	var rets []retEdge
	x.runRegion(fr, nil, fn.Blocks[0], in, nil, &rets)
	var acc *State
	nres := fn.Signature.Results().Len()
	// carry results in env under pseudo keys
	for _, r := range rets {
		e := map[ssa.Value]Value{}
		for i, v := range r.vals {
			e[retKey(i)] = v
		}
		r.st.env = e
		x.gc(r.st, entry, nil)
		acc = x.mergeStates(acc, r.st)
	}
	if acc == nil {
		return nil, nil
	}
	switch nres {
	case 0:
	case 1:
		res = acc.env[retKey(0)]
	default:
		tv := make(TupleV, nres)
		for i := range tv {
			tv[i] = acc.env[retKey(i)]
		}
		res = tv
	}
	acc.env = saved
	return res, acc
}

var retKeys []*ssa.Const

func retKey(i int) ssa.Value {
	for len(retKeys) <= i {
		retKeys = append(retKeys, ssa.NewConst(nil, types.NewPointer(types.Typ[types.Int])))
	}
	return retKeys[i]
}

func (x *Exec) posStr(p token.Pos) string {
	if !p.IsValid() {
		return ""
	}
	q := x.P.Fset.Position(p)
	f := q.Filename
	f = strings.TrimPrefix(f, repoDir+"/")
	return fmt.Sprintf("%s:%d", f, q.Line)
}

func (x *Exec) debugf(f string, a ...interface{}) {
	if os.Getenv("GOVC_DEBUG") != "" {
		fmt.Fprintf(os.Stderr, f+"\n", a...)
	}
}

var _ = big.NewInt
