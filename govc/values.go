package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Value interface{}

type StructV struct {
	f []Value
}
type TupleV []Value

// PtrV: guarded alternatives; loc nil = nil pointer
type PtrAlt struct {
	g   *Term
	loc *Loc
}
type PtrV struct{ alts []PtrAlt }

type PathEl struct {
	field int
	idx   *Term // element index when non-nil
}
type Loc struct {
	obj  *Obj
	path []PathEl
}

type Obj struct {
	id       int
	name     string
	typ      types.Type // type of the content
	init     func() Value
	abstract bool // contents must not be touched (frame of a contract)
	input    bool // part of the symbolic input
	global   bool
	args     []*Term
	mkInst   func(args []*Term) *Obj // input objects: the object at the same path with other indices
}

var objCnt int

func newObj(name string, t types.Type) *Obj {
	objCnt++
	return &Obj{id: objCnt, name: name, typ: t}
}

// SliceV: window of an array object
type SliceV struct {
	arr           *Loc // location holding a Seq; nil for the nil slice
	off, len, cap *Term
	isnil         *Term
	full          *Term // not nil: off is 0 and len is the content's length where full holds, 0 elsewhere
}

type IfaceAlt struct {
	g   *Term
	typ types.Type // nil: nil interface (opaque==false)
	val Value
	opq *Term // opaque non-nil value identity
}
type IfaceV struct{ alts []IfaceAlt }

type FuncV struct {
	fn    *ssa.Function
	binds []Value
	name  string // opaque function
}

// FuncAlts: one of several functions (or nil)
type FuncAlt struct {
	g *Term
	f *FuncV
}
type FuncAlts struct{ alts []FuncAlt }

func funcAlts(v Value) []FuncAlt {
	switch f := v.(type) {
	case *FuncV:
		return []FuncAlt{{True, f}}
	case *FuncAlts:
		return f.alts
	}
	return nil
}
func mergeFuncs(c *Term, a, b []FuncAlt) Value {
	out := &FuncAlts{}
	add := func(g *Term, f *FuncV) {
		if g == False {
			return
		}
		for i := range out.alts {
			if out.alts[i].f == f || valKey(out.alts[i].f) == valKey(f) {
				out.alts[i].g = Or(out.alts[i].g, g)
				return
			}
		}
		out.alts = append(out.alts, FuncAlt{g, f})
	}
	for _, x := range a {
		add(And(c, x.g), x.f)
	}
	for _, x := range b {
		add(And(Not(c), x.g), x.f)
	}
	if len(out.alts) == 1 {
		return out.alts[0].f
	}
	return out
}

type OpaqueV struct {
	id   *Term
	name string
	typ  types.Type
}
type MapEntry struct {
	g    *Term
	k, v Value
	del  bool
}
type MapC struct { // content of a map object
	base    *MapBase
	entries []MapEntry // oldest first
	typ     *types.Map
}
type MapBase struct {
	name string
	args []*Term
}
type MapRef struct {
	p *PtrV // to object with *MapC content
}
type Poison struct {
	why  string
	dead bool // an element no access within bounds can see: merges take the other side
}

// ---------------------------------------------------------------- sequences

type Seq interface{ Len() *Term }
type CellSeq struct{ cells []Value }
type FnSeq struct {
	n    *Term
	at   func(i *Term) Value
	name string
	src  *Term // bytes of this string
	pre  Seq   // what the first elements were copied from
}
type UpdSeq struct {
	base Seq
	idx  *Term
	val  Value
}
type IteSeq struct {
	c    *Term
	a, b Seq
}

// SegSeq: concatenation of guarded elements and families of elements
type Seg struct {
	g    *Term
	v    Value  // single element
	k    *Term  // family: bound variable
	lo   *Term  //   lo <= k < hi
	hi   *Term  //
	body []Seg  //   segments for one k
	ref  Seq    // contents of another sequence (opaque), whole
	acc  *Term  // unknown prefix (accumulator symbol in a loop)
	lenT *Term  // length of acc/ref
}
type SegSeq struct{ segs []Seg }

func (s *CellSeq) Len() *Term { return IntC(int64(len(s.cells))) }
func (s *FnSeq) Len() *Term   { return s.n }
func (s *UpdSeq) Len() *Term  { return s.base.Len() }
func (s *IteSeq) Len() *Term  { return Ite(s.c, s.a.Len(), s.b.Len()) }
func (s *SegSeq) Len() *Term  { return segsLen(s.segs) }
func segsLen(segs []Seg) *Term {
	n := IntC(0)
	for _, sg := range segs {
		n = Add(n, Ite(sg.g, segLen1(sg), IntC(0)))
	}
	return n
}

var flatCnt = map[string]*Term{}

func segLen1(sg Seg) *Term {
	switch {
	case sg.k != nil:
		bl := segsLen(sg.body)
		if bl.IsNum() {
			n := Sub(sg.hi, sg.lo)
			return Mul(bl, Ite(Lt(n, IntC(0)), IntC(0), n))
		}
		// opaque count, identified by the structure
		key := segKey(sg)
		if t, ok := flatCnt[key]; ok {
			return t
		}
		t := Fresh("flatlen", SInt)
		varRange[t.Str] = [2]*big.Int{big.NewInt(0), maxLen}
		flatCnt[key] = t
		return t
	case sg.ref != nil, sg.acc != nil:
		return sg.lenT
	}
	return IntC(1)
}
func segKey(sg Seg) string {
	k := fmt.Sprintf("%d:", sg.g.id)
	switch {
	case sg.k != nil:
		k += fmt.Sprintf("F%d,%d,%d[", sg.k.id, sg.lo.id, sg.hi.id)
		for _, b := range sg.body {
			k += segKey(b) + ";"
		}
		return k + "]"
	case sg.acc != nil:
		return k + fmt.Sprintf("A%d", sg.acc.id)
	case sg.ref != nil:
		return k + fmt.Sprintf("R%p", sg.ref)
	}
	return k + valKey(sg.v)
}
func valKey(v Value) string {
	switch x := v.(type) {
	case *Term:
		return fmt.Sprint(x.id)
	case *StructV:
		s := "{"
		for _, f := range x.f {
			s += valKey(f) + ","
		}
		return s + "}"
	case *PtrV:
		s := "P"
		for _, a := range x.alts {
			s += fmt.Sprint(a.g.id)
			if a.loc != nil {
				s += ":" + locKey(a.loc)
			}
		}
		return s
	case *SliceV:
		s := fmt.Sprintf("S%d,%d,%d", x.off.id, x.len.id, x.isnil.id)
		if x.arr != nil {
			s += locKey(x.arr)
		}
		return s
	}
	if f, ok := v.(*FuncV); ok && f != nil {
		s := fmt.Sprintf("F%p%s", f.fn, f.name)
		for _, b := range f.binds {
			s += valKey(b) + ","
		}
		return s
	}
	return fmt.Sprintf("%p", v)
}
func locKey(l *Loc) string {
	s := fmt.Sprintf("o%d", l.obj.id)
	for _, p := range l.path {
		if p.idx != nil {
			s += fmt.Sprintf("[%d]", p.idx.id)
		} else {
			s += fmt.Sprintf(".%d", p.field)
		}
	}
	return s
}

// ---------------------------------------------------------------- types to sorts

func isInt64ish(b *types.Basic) bool {
	switch b.Kind() {
	case types.Int, types.Int64, types.Uint, types.Uint64, types.Uintptr, types.UntypedInt:
		return true
	}
	return false
}
func bitsOf(b *types.Basic) int {
	switch b.Kind() {
	case types.Int8, types.Uint8:
		return 8
	case types.Int16, types.Uint16:
		return 16
	case types.Int32, types.Uint32, types.UntypedRune:
		return 32
	}
	return 64
}
func isUnsigned(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsUnsigned != 0
}
func sortOf(t types.Type) *Sort {
	switch b := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case b.Info()&types.IsBoolean != 0:
			return SBool
		case b.Info()&types.IsString != 0:
			return SStr
		case b.Info()&types.IsFloat != 0:
			return SReal
		case b.Info()&types.IsInteger != 0:
			if isInt64ish(b) {
				return SInt
			}
			return SBV(bitsOf(b))
		}
	}
	return nil
}

func (x *Exec) zero(t types.Type) Value {
	if s := sortOf(t); s != nil {
		switch s.K {
		case KBool:
			return False
		case KStr:
			return StrC("")
		}
		return NumC(s, 0)
	}
	switch u := t.Underlying().(type) {
	case *types.Struct:
		sv := &StructV{f: make([]Value, u.NumFields())}
		for i := range sv.f {
			sv.f[i] = x.zero(u.Field(i).Type())
		}
		return sv
	case *types.Pointer:
		return nilPtr()
	case *types.Slice:
		return nilSlice()
	case *types.Array:
		z := x.zero(u.Elem())
		if u.Len() <= 64 {
			cs := make([]Value, u.Len())
			for i := range cs {
				cs[i] = z
			}
			return &CellSeq{cs}
		}
		return &FnSeq{n: IntC(u.Len()), at: func(*Term) Value { return z }, name: "zero"}
	case *types.Map:
		return &MapRef{nilPtr()}
	case *types.Interface:
		return &IfaceV{alts: []IfaceAlt{{g: True}}}
	case *types.Signature:
		return &FuncV{name: "nil"}
	case *types.Chan:
		return nilPtr()
	case *types.Tuple:
		tv := make(TupleV, u.Len())
		for i := range tv {
			tv[i] = x.zero(u.At(i).Type())
		}
		return tv
	}
	return &OpaqueV{name: "zero", typ: t}
}
func nilPtr() *PtrV            { return &PtrV{alts: []PtrAlt{{g: True}}} }
func ptrTo(o *Obj) *PtrV       { return &PtrV{alts: []PtrAlt{{g: True, loc: &Loc{obj: o}}}} }
func ptrLoc(l *Loc) *PtrV      { return &PtrV{alts: []PtrAlt{{g: True, loc: l}}} }
func nilSlice() *SliceV        { z := IntC(0); return &SliceV{off: z, len: z, cap: z, isnil: True} }
func isNilPtr(p *PtrV) *Term {
	var cs []*Term
	for _, a := range p.alts {
		if a.loc == nil {
			cs = append(cs, a.g)
		}
	}
	return Or(cs...)
}

func setRangeMin1(name string) { varRange[name] = [2]*big.Int{big.NewInt(1), maxLen} }
func setRange(name string, t types.Type) {
	b, ok := t.Underlying().(*types.Basic)
	if !ok || b.Info()&types.IsInteger == 0 {
		return
	}
	switch b.Kind() {
	case types.Uint64, types.Uint, types.Uintptr:
		varRange[name] = [2]*big.Int{big.NewInt(0), new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), 64), big.NewInt(1))}
	case types.Int, types.Int64:
		h := new(big.Int).Lsh(big.NewInt(1), 63)
		varRange[name] = [2]*big.Int{new(big.Int).Neg(h), new(big.Int).Sub(h, big.NewInt(1))}
	}
}

// input: the value found at an access path of the symbolic input (a tree: distinct paths do not alias)
func (x *Exec) input(path string, args []*Term, t types.Type, nonnil bool) Value {
	if s := sortOf(t); s != nil {
		v := UF(path, s, args...)
		setRange(path, t)
		return v
	}
	switch u := t.Underlying().(type) {
	case *types.Struct:
		sv := &StructV{f: make([]Value, u.NumFields())}
		for i := range sv.f {
			i := i
			ft := u.Field(i).Type()
			sv.f[i] = &Lazy{f: func() Value { return x.input(path+"."+u.Field(i).Name(), args, ft, false) }}
		}
		return sv
	case *types.Pointer:
		o := x.inputObj(path+"*", args, u.Elem())
		if nonnil {
			return ptrTo(o)
		}
		n := UF(path+"?nil", SBool, args...)
		return &PtrV{alts: []PtrAlt{{g: n}, {g: Not(n), loc: &Loc{obj: o}}}}
	case *types.Slice:
		n := UF("len:"+path, SInt, args...)
		varRange["len:"+path] = [2]*big.Int{big.NewInt(0), maxLen}
		o := x.inputArrObj(path, args, u.Elem(), n)
		isnil := And(UF(path+"?nil", SBool, args...), Not(Lt(IntC(0), n)))
		return &SliceV{arr: &Loc{obj: o}, off: IntC(0), len: n, cap: n, isnil: isnil}
	case *types.Array:
		return &FnSeq{n: IntC(u.Len()), at: func(i *Term) Value {
			return x.input(path+"[]", append(append([]*Term{}, args...), i), u.Elem(), false)
		}, name: path}
	case *types.Map:
		k := inKey("map:"+path, args)
		o, ok := x.inObjs[k]
		if !ok {
			o = x.inputMapObj(path, args, t)
		}
		if nonnil {
			return &MapRef{ptrTo(o)}
		}
		n := UF(path+"?nil", SBool, args...)
		return &MapRef{&PtrV{alts: []PtrAlt{{g: n}, {g: Not(n), loc: &Loc{obj: o}}}}}
	case *types.Interface:
		return &IfaceV{alts: []IfaceAlt{{g: UF(path+"?nil", SBool, args...)}, {g: Not(UF(path+"?nil", SBool, args...)), opq: UF(path+"!id", SU, args...)}}}
	}
	return &OpaqueV{id: UF(path, SU, args...), name: path, typ: t}
}

// Lazy: field of an input structure, materialised on first use
type Lazy struct {
	f func() Value
	v Value
}

func force(v Value) Value {
	for {
		l, ok := v.(*Lazy)
		if !ok {
			return v
		}
		if l.v == nil {
			l.v = l.f()
		}
		v = l.v
	}
}

func inKey(path string, args []*Term) string {
	var sb strings.Builder
	sb.WriteString(path)
	for _, a := range args {
		fmt.Fprintf(&sb, ",%d", a.id)
	}
	return sb.String()
}
func (x *Exec) inputObj(path string, args []*Term, t types.Type) *Obj {
	k := inKey(path, args)
	if o, ok := x.inObjs[k]; ok {
		return o
	}
	o := newObj(path, t)
	o.input = true
	o.init = func() Value { return x.input(path, args, t, false) }
	o.args = args
	o.mkInst = func(na []*Term) *Obj { return x.inputObj(path, na, t) }
	x.inObjs[k] = o
	return o
}
func (x *Exec) inputMapObj(path string, args []*Term, t types.Type) *Obj {
	k := inKey("map:"+path, args)
	if o, ok := x.inObjs[k]; ok {
		return o
	}
	o := newObj("map:"+path, t)
	o.input = true
	u := t.Underlying().(*types.Map)
	o.init = func() Value { return &MapC{base: &MapBase{name: path, args: args}, typ: u} }
	o.args = args
	o.mkInst = func(na []*Term) *Obj { return x.inputMapObj(path, na, t) }
	x.inObjs[k] = o
	return o
}
func (x *Exec) inputArrObj(path string, args []*Term, et types.Type, n *Term) *Obj {
	k := inKey("arr:"+path, args)
	if o, ok := x.inObjs[k]; ok {
		return o
	}
	o := newObj("arr:"+path, types.NewSlice(et))
	o.input = true
	nn := x.nonnilElems[path]
	o.args = append(append([]*Term{}, args...), n)
	o.mkInst = func(na []*Term) *Obj { return x.inputArrObj(path, na[:len(na)-1], et, na[len(na)-1]) }
	o.init = func() Value {
		return &FnSeq{n: n, at: func(i *Term) Value {
			return x.input(path+"[]", append(append([]*Term{}, args...), i), et, nn)
		}, name: path}
	}
	x.inObjs[k] = o
	return o
}

// fresh unconstrained value of a type
func (x *Exec) freshVal(name string, t types.Type) Value {
	freshCnt["in:"+name]++
	return x.input(fmt.Sprintf("%s!%d", name, freshCnt["in:"+name]), nil, t, false)
}

// ---------------------------------------------------------------- constants

func (x *Exec) constVal(c *ssa.Const) Value {
	t := c.Type()
	if c.Value == nil {
		return x.zero(t)
	}
	s := sortOf(t)
	if s == nil {
		if _, ok := t.Underlying().(*types.Interface); ok {
			panic(unsup("const of interface type"))
		}
		panic(unsup("const %s", c))
	}
	switch s.K {
	case KBool:
		return BoolC(constant.BoolVal(c.Value))
	case KStr:
		return StrC(constant.StringVal(c.Value))
	case KReal:
		r, _ := new(big.Rat).SetString(constant.ToFloat(c.Value).ExactString())
		if r == nil {
			panic(unsup("float const"))
		}
		return RealC(r)
	}
	n, ok := new(big.Int).SetString(constant.ToInt(c.Value).ExactString(), 10)
	if !ok {
		panic(unsup("int const"))
	}
	if s.K == KInt {
		return IntB(n)
	}
	return BVB(s.W, n)
}

type Unsup struct{ msg string }

func (u Unsup) Error() string { return u.msg }
func unsup(f string, a ...interface{}) Unsup {
	return Unsup{fmt.Sprintf(f, a...)}
}

func (s Seg) String() string {
	switch {
	case s.k != nil:
		o := fmt.Sprintf("{%s| %s in %s..%s:", s.g, s.k, s.lo, s.hi)
		for _, b := range s.body {
			o += " " + b.String()
		}
		return o + "}"
	case s.ref != nil:
		return fmt.Sprintf("<%s ref %T len %s>", s.g, s.ref, s.ref.Len())
	case s.acc != nil:
		return fmt.Sprintf("<%s acc %s>", s.g, s.acc)
	}
	if t, ok := s.v.(*Term); ok {
		return fmt.Sprintf("[%s: %s]", s.g, t)
	}
	return fmt.Sprintf("[%s: %T]", s.g, s.v)
}
