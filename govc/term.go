package main

import (
	"fmt"
	"math/big"
	"sort"
	"strings"
)

// ---------------------------------------------------------------- sorts

type SK uint8

const (
	KBool SK = iota
	KInt
	KReal
	KBV
	KStr
	KArr // Int-indexed (or BV64-indexed) array of element sort
	KU   // uninterpreted
)

type Sort struct {
	K    SK
	W    int   // KBV
	Elem *Sort // KArr
	Idx  *Sort // KArr
	Name string
}

var (
	SBool = &Sort{K: KBool}
	SInt  = &Sort{K: KInt}
	SReal = &Sort{K: KReal}
	SStr  = &Sort{K: KStr}
	SU    = &Sort{K: KU, Name: "U"}
)
var bvSorts = map[int]*Sort{}

func SBV(w int) *Sort {
	if s, ok := bvSorts[w]; ok {
		return s
	}
	s := &Sort{K: KBV, W: w}
	bvSorts[w] = s
	return s
}

var arrSorts = map[string]*Sort{}

func SArr(idx, e *Sort) *Sort {
	k := idx.String() + ">" + e.String()
	if s, ok := arrSorts[k]; ok {
		return s
	}
	s := &Sort{K: KArr, Elem: e, Idx: idx}
	arrSorts[k] = s
	return s
}

func (s *Sort) String() string {
	switch s.K {
	case KBool:
		return "Bool"
	case KInt:
		return "Int"
	case KReal:
		return "Real"
	case KBV:
		return fmt.Sprintf("(_ BitVec %d)", s.W)
	case KStr:
		return "Str"
	case KArr:
		return "(Array " + s.Idx.String() + " " + s.Elem.String() + ")"
	}
	return s.Name
}

// ---------------------------------------------------------------- terms

type Term struct {
	id   int
	Op   string
	Sort *Sort
	Args []*Term
	Num  *big.Int // const Int/BV (BV: unsigned value)
	Rat  *big.Rat // const Real
	Str  string   // const Str, or name of var/uf
}

var termTab = map[string]*Term{}
var termCnt = 0

func mk(op string, s *Sort, str string, num *big.Int, rat *big.Rat, args ...*Term) *Term {
	var sb strings.Builder
	sb.WriteString(op)
	sb.WriteByte('|')
	sb.WriteString(s.String())
	sb.WriteByte('|')
	sb.WriteString(fmt.Sprintf("%q", str))
	if num != nil {
		sb.WriteByte('#')
		sb.WriteString(num.String())
	}
	if rat != nil {
		sb.WriteByte('#')
		sb.WriteString(rat.String())
	}
	for _, a := range args {
		fmt.Fprintf(&sb, ",%d", a.id)
	}
	k := sb.String()
	if t, ok := termTab[k]; ok {
		return t
	}
	termCnt++
	t := &Term{id: termCnt, Op: op, Sort: s, Args: args, Num: num, Rat: rat, Str: str}
	termTab[k] = t
	return t
}

var True = mk("true", SBool, "", nil, nil)
var False = mk("false", SBool, "", nil, nil)

func BoolC(b bool) *Term {
	if b {
		return True
	}
	return False
}
func IntC(n int64) *Term       { return mk("const", SInt, "", big.NewInt(n), nil) }
func IntB(n *big.Int) *Term    { return mk("const", SInt, "", n, nil) }
func RealC(r *big.Rat) *Term   { return mk("const", SReal, "", nil, r) }
func StrC(s string) *Term      { return mk("lit", SStr, s, nil, nil) }
func BVC(w int, n int64) *Term { return BVB(w, big.NewInt(n)) }
func BVB(w int, n *big.Int) *Term {
	m := new(big.Int).Lsh(big.NewInt(1), uint(w))
	v := new(big.Int).Mod(n, m)
	return mk("const", SBV(w), "", v, nil)
}
func NumC(s *Sort, n int64) *Term {
	switch s.K {
	case KInt:
		return IntC(n)
	case KReal:
		return RealC(big.NewRat(n, 1))
	}
	return BVC(s.W, n)
}
func Var(name string, s *Sort) *Term { return mk("var", s, name, nil, nil) }
func UF(name string, s *Sort, args ...*Term) *Term {
	if len(args) == 0 {
		return Var(name, s)
	}
	return mk("uf", s, name, nil, nil, args...)
}

var freshCnt = map[string]int{}

func Fresh(name string, s *Sort) *Term {
	freshCnt[name]++
	return Var(fmt.Sprintf("%s!%d", name, freshCnt[name]), s)
}

func (t *Term) IsConst() bool {
	return t.Op == "const" || t.Op == "lit" || t.Op == "true" || t.Op == "false"
}
func (t *Term) IsNum() bool { return t.Op == "const" && t.Num != nil }
func (t *Term) Int64() (int64, bool) {
	if t.Op == "const" && t.Num != nil {
		n := t.Num
		if t.Sort.K == KBV {
			n = t.Signed()
		}
		if n.IsInt64() {
			return n.Int64(), true
		}
	}
	return 0, false
}
func (t *Term) Signed() *big.Int {
	if t.Sort.K != KBV {
		return t.Num
	}
	if t.Num.Bit(t.Sort.W-1) == 1 {
		return new(big.Int).Sub(t.Num, new(big.Int).Lsh(big.NewInt(1), uint(t.Sort.W)))
	}
	return t.Num
}

// ---------------------------------------------------------------- boolean

func Not(a *Term) *Term {
	switch a.Op {
	case "true":
		return False
	case "false":
		return True
	case "not":
		return a.Args[0]
	}
	return mk("not", SBool, "", nil, nil, a)
}
func flat(op string, ts []*Term) []*Term {
	var out []*Term
	for _, t := range ts {
		if t.Op == op {
			out = append(out, t.Args...)
		} else {
			out = append(out, t)
		}
	}
	return out
}
func And(ts ...*Term) *Term {
	in := flat("and", ts)
	set := map[int]*Term{}
	var out []*Term
	for _, t := range in {
		if t == False {
			return False
		}
		if t == True {
			continue
		}
		if _, ok := set[t.id]; ok {
			continue
		}
		set[t.id] = t
		out = append(out, t)
	}
	for _, t := range out {
		if t.Op == "not" {
			if _, ok := set[t.Args[0].id]; ok {
				return False
			}
		}
	}
	// equality with distinct constants
	eqc := map[int]*Term{}
	for _, t := range out {
		if t.Op == "=" {
			a, b := t.Args[0], t.Args[1]
			if a.IsConst() {
				a, b = b, a
			}
			if b.IsConst() && !a.IsConst() {
				if o, ok := eqc[a.id]; ok && o != b {
					return False
				}
				eqc[a.id] = b
			}
		}
	}
	if len(eqc) > 0 {
		// drop (not (= x c2)) when x = c1
		var o2 []*Term
		for _, t := range out {
			if t.Op == "not" && t.Args[0].Op == "=" {
				a, b := t.Args[0].Args[0], t.Args[0].Args[1]
				if a.IsConst() {
					a, b = b, a
				}
				if c, ok := eqc[a.id]; ok && b.IsConst() && c != b {
					continue
				}
			}
			o2 = append(o2, t)
		}
		out = o2
	}
	// absorb:  a and (a or b) -> a ; a and (not a or b) -> a and b
	changed := false
	for i, t := range out {
		if t.Op != "or" {
			continue
		}
		var rest []*Term
		drop := false
		mod := false
		for _, x := range t.Args {
			if _, ok := set[x.id]; ok {
				drop = true
				break
			}
			if _, ok := set[Not(x).id]; ok {
				mod = true
				continue
			}
			rest = append(rest, x)
		}
		if drop {
			out[i] = True
			changed = true
		} else if mod {
			out[i] = Or(rest...)
			changed = true
		}
	}
	if changed {
		return And(out...)
	}
	if len(out) == 0 {
		return True
	}
	if len(out) == 1 {
		return out[0]
	}
	sort.Slice(out, func(i, j int) bool { return out[i].id < out[j].id })
	return mk("and", SBool, "", nil, nil, out...)
}
func conj(t *Term) []*Term {
	if t.Op == "and" {
		return t.Args
	}
	if t == True {
		return nil
	}
	return []*Term{t}
}

func Or(ts ...*Term) *Term {
	in := flat("or", ts)
	set := map[int]*Term{}
	var out []*Term
	for _, t := range in {
		if t == True {
			return True
		}
		if t == False {
			continue
		}
		if _, ok := set[t.id]; ok {
			continue
		}
		set[t.id] = t
		out = append(out, t)
	}
	for _, t := range out {
		if t.Op == "not" {
			if _, ok := set[t.Args[0].id]; ok {
				return True
			}
		}
	}
	if len(out) == 0 {
		return False
	}
	if len(out) == 1 {
		return out[0]
	}
	// factor common conjuncts
	common := map[int]bool{}
	for _, c := range conj(out[0]) {
		common[c.id] = true
	}
	for _, t := range out[1:] {
		has := map[int]bool{}
		for _, c := range conj(t) {
			has[c.id] = true
		}
		for k := range common {
			if !has[k] {
				delete(common, k)
			}
		}
		if len(common) == 0 {
			break
		}
	}
	if len(common) > 0 {
		var cm []*Term
		for _, c := range conj(out[0]) {
			if common[c.id] {
				cm = append(cm, c)
			}
		}
		var rs []*Term
		for _, t := range out {
			var r []*Term
			for _, c := range conj(t) {
				if !common[c.id] {
					r = append(r, c)
				}
			}
			rs = append(rs, And(r...))
		}
		return And(append(cm, Or(rs...))...)
	}
	// a or (not a and b) -> a or b
	changed := false
	for i, t := range out {
		if t.Op != "and" {
			continue
		}
		var rest []*Term
		mod := false
		drop := false
		for _, x := range t.Args {
			if o, ok := set[x.id]; ok && o != t {
				drop = true
				break
			}
			if _, ok := set[Not(x).id]; ok {
				mod = true
				continue
			}
			rest = append(rest, x)
		}
		if drop {
			out[i] = False
			changed = true
		} else if mod {
			out[i] = And(rest...)
			changed = true
		}
		if changed {
			break
		}
	}
	if changed {
		return Or(out...)
	}
	// not(and A) or (and A b) -> not(and A) or b
	for _, o := range out {
		if o.Op != "not" || o.Args[0].Op != "and" {
			continue
		}
		A := o.Args[0].Args
		for i, t := range out {
			if t == o || t.Op != "and" {
				continue
			}
			has := map[int]bool{}
			for _, c := range t.Args {
				has[c.id] = true
			}
			all := true
			in := map[int]bool{}
			for _, a := range A {
				if !has[a.id] {
					all = false
					break
				}
				in[a.id] = true
			}
			if !all {
				continue
			}
			var rest []*Term
			for _, c := range t.Args {
				if !in[c.id] {
					rest = append(rest, c)
				}
			}
			out[i] = And(rest...)
			return Or(out...)
		}
	}
	if len(out) <= 8 && tautology(out) {
		return True
	}
	// (and X y) or (and X (not y)) pairs among more than two
	for i := range out {
		for j := i + 1; j < len(out); j++ {
			if m := resolvePair(out[i], out[j]); m != nil {
				var o2 []*Term
				for k, t := range out {
					if k != i && k != j {
						o2 = append(o2, t)
					}
				}
				return Or(append(o2, m)...)
			}
		}
		if len(out) > 40 {
			break
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].id < out[j].id })
	return mk("or", SBool, "", nil, nil, out...)
}

// (X & y) | (X & !y) = X
func resolvePair(a, b *Term) *Term {
	ca, cb := conj(a), conj(b)
	if len(ca) != len(cb) {
		return nil
	}
	inB := map[int]bool{}
	for _, t := range cb {
		inB[t.id] = true
	}
	var diff *Term
	for _, t := range ca {
		if !inB[t.id] {
			if diff != nil {
				return nil
			}
			diff = t
		}
	}
	if diff == nil {
		return a
	}
	if !inB[Not(diff).id] {
		return nil
	}
	var r []*Term
	for _, t := range ca {
		if t != diff {
			r = append(r, t)
		}
	}
	return And(r...)
}
func Implies(a, b *Term) *Term { return Or(Not(a), b) }

func Ite(c, a, b *Term) *Term {
	if c == True {
		return a
	}
	if c == False {
		return b
	}
	if a == b {
		return a
	}
	if a.Sort != b.Sort {
		panic(fmt.Sprintf("ite sort mismatch %v %v: %s / %s", a.Sort, b.Sort, a, b))
	}
	if c.Op == "not" {
		return Ite(c.Args[0], b, a)
	}
	if a.Sort == SBool {
		if a == True && b == False {
			return c
		}
		if a == False && b == True {
			return Not(c)
		}
		if a == True {
			return Or(c, b)
		}
		if a == False {
			return And(Not(c), b)
		}
		if b == True {
			return Or(Not(c), a)
		}
		if b == False {
			return And(c, a)
		}
	}
	// nested same condition
	if a.Op == "ite" && a.Args[0] == c {
		a = a.Args[1]
	}
	if b.Op == "ite" && b.Args[0] == c {
		b = b.Args[2]
	}
	if a == b {
		return a
	}
	// ite(c, ite(d,x,y), y) -> ite(c&d, x, y)
	if a.Op == "ite" && a.Args[2] == b {
		return Ite(And(c, a.Args[0]), a.Args[1], b)
	}
	if b.Op == "ite" && b.Args[1] == a {
		return Ite(Or(c, b.Args[0]), a, b.Args[2])
	}
	// x = const guard: ite(x=c, c, x) -> x
	if c.Op == "=" && ((c.Args[0] == a && c.Args[1] == b) || (c.Args[1] == a && c.Args[0] == b)) {
		return b
	}
	// strings: ite(c, P++x, P++y) keep common prefix out
	return mk("ite", a.Sort, "", nil, nil, c, a, b)
}

// liftable: ite tree whose leaves are all constants (or a few leaves)
func iteConstLeaves(t *Term, depth int) bool {
	if t.Op == "ite" {
		return depth > 0 && iteConstLeaves(t.Args[1], depth-1) && iteConstLeaves(t.Args[2], depth-1)
	}
	return t.IsConst()
}

func Eq(a, b *Term) *Term {
	if a == b {
		return True
	}
	if a.Sort != b.Sort {
		panic(fmt.Sprintf("eq sort mismatch %v %v: %s / %s", a.Sort, b.Sort, a, b))
	}
	if a.IsConst() && b.IsConst() {
		if a.Op == "const" && a.Rat != nil {
			return BoolC(a.Rat.Cmp(b.Rat) == 0)
		}
		return False
	}
	if a.Sort == SBool {
		if a == True {
			return b
		}
		if b == True {
			return a
		}
		if a == False {
			return Not(b)
		}
		if b == False {
			return Not(a)
		}
		if a == Not(b) {
			return False
		}
	}
	if a.IsConst() {
		a, b = b, a
	}
	if b.IsConst() && a.Op == "ite" && iteConstLeaves(a, 40) {
		return Ite(a.Args[0], Eq(a.Args[1], b), Eq(a.Args[2], b))
	}
	if a.Sort.K == KInt || a.Sort.K == KReal {
		// normalise  linear difference
		d := Sub(a, b)
		if d.IsConst() {
			if d.Sort.K == KInt {
				return BoolC(d.Num.Sign() == 0)
			}
			return BoolC(d.Rat.Sign() == 0)
		}
	}
	if a.Sort.K == KInt && b.IsNum() {
		if a.Op == "bv2nat" {
			if b.Num.Sign() < 0 || b.Num.BitLen() > a.Args[0].Sort.W {
				return False
			}
			return Eq(a.Args[0], BVB(a.Args[0].Sort.W, b.Num))
		}
		if a.Op == "sbv2int" {
			c := BVB(a.Args[0].Sort.W, b.Num)
			if c.Signed().Cmp(b.Num) != 0 {
				return False
			}
			return Eq(a.Args[0], c)
		}
		if a.Op == "+" && a.Args[len(a.Args)-1].IsNum() {
			return Eq(Sub(a, a.Args[len(a.Args)-1]), Sub(b, a.Args[len(a.Args)-1]))
		}
		if lo, hi, ok := bounds(a, 5); ok && (b.Num.Cmp(lo) < 0 || b.Num.Cmp(hi) > 0) {
			return False
		}
	}
	if a.Sort.K == KInt && a.Op == b.Op && (a.Op == "bv2nat" || a.Op == "sbv2int") {
		x, y := a.Args[0], b.Args[0]
		if x.Sort == y.Sort {
			return Eq(x, y)
		}
		w := x.Sort.W
		if y.Sort.W > w {
			w = y.Sort.W
		}
		if a.Op == "bv2nat" {
			return Eq(ZExt(x, w), ZExt(y, w))
		}
		return Eq(SExt(x, w), SExt(y, w))
	}
	if a.Sort.K == KBV && b.IsNum() {
		// zext(x) = c
		if a.Op == "zext" {
			x := a.Args[0]
			if b.Num.BitLen() > x.Sort.W {
				return False
			}
			return Eq(x, BVB(x.Sort.W, b.Num))
		}
		if a.Op == "sext" {
			x := a.Args[0]
			c := BVB(x.Sort.W, b.Num)
			if SExt(c, a.Sort.W) != b {
				return False
			}
			return Eq(x, c)
		}
		if a.Op == "bvadd" && a.Args[1].IsNum() {
			return Eq(a.Args[0], Sub(b, a.Args[1]))
		}
	}
	if a.Sort == SStr {
		if r := strEq(a, b); r != nil {
			return r
		}
	}
	if a.Op == "ite" && b.Op == "ite" && a.Args[0] == b.Args[0] {
		return Ite(a.Args[0], Eq(a.Args[1], b.Args[1]), Eq(a.Args[2], b.Args[2]))
	}
	if a.id > b.id && !b.IsConst() {
		a, b = b, a
	}
	return mk("=", SBool, "", nil, nil, a, b)
}
func Neq(a, b *Term) *Term { return Not(Eq(a, b)) }

// ---------------------------------------------------------------- arithmetic

// linear normal form for Int/Real
type lin struct {
	c  *big.Rat
	cs map[int]*big.Rat
	ts map[int]*Term
}

func linOf(t *Term) *lin {
	l := &lin{c: new(big.Rat), cs: map[int]*big.Rat{}, ts: map[int]*Term{}}
	l.add(t, big.NewRat(1, 1))
	return l
}
func (l *lin) add(t *Term, k *big.Rat) {
	switch {
	case t.Op == "const":
		v := t.Rat
		if v == nil {
			v = new(big.Rat).SetInt(t.Num)
		}
		l.c.Add(l.c, new(big.Rat).Mul(v, k))
	case t.Op == "+":
		for _, a := range t.Args {
			l.add(a, k)
		}
	case t.Op == "*" && t.Args[0].Op == "const":
		v := t.Args[0].Rat
		if v == nil {
			v = new(big.Rat).SetInt(t.Args[0].Num)
		}
		l.add(t.Args[1], new(big.Rat).Mul(k, v))
	default:
		if o, ok := l.cs[t.id]; ok {
			o.Add(o, k)
		} else {
			l.cs[t.id] = new(big.Rat).Set(k)
			l.ts[t.id] = t
		}
	}
}
func (l *lin) term(s *Sort) *Term {
	var ids []int
	for id, c := range l.cs {
		if c.Sign() != 0 {
			ids = append(ids, id)
		}
	}
	sort.Ints(ids)
	var args []*Term
	for _, id := range ids {
		c := l.cs[id]
		if c.Cmp(big.NewRat(1, 1)) == 0 {
			args = append(args, l.ts[id])
		} else {
			args = append(args, mk("*", s, "", nil, nil, ratC(s, c), l.ts[id]))
		}
	}
	if l.c.Sign() != 0 || len(args) == 0 {
		args = append(args, ratC(s, l.c))
	}
	if len(args) == 1 {
		return args[0]
	}
	return mk("+", s, "", nil, nil, args...)
}
func ratC(s *Sort, r *big.Rat) *Term {
	if s.K == KInt {
		if !r.IsInt() {
			panic("non-int const")
		}
		return IntB(new(big.Int).Set(r.Num()))
	}
	return RealC(new(big.Rat).Set(r))
}

func Add(a, b *Term) *Term {
	if a.Sort.K == KBV {
		if a.IsNum() && b.IsNum() {
			return BVB(a.Sort.W, new(big.Int).Add(a.Num, b.Num))
		}
		if a.IsNum() {
			a, b = b, a
		}
		if b.IsNum() {
			if b.Num.Sign() == 0 {
				return a
			}
			if a.Op == "bvadd" && a.Args[1].IsNum() {
				return Add(a.Args[0], Add(a.Args[1], b))
			}
			if a.Op == "ite" && iteConstLeaves(a, 12) {
				return Ite(a.Args[0], Add(a.Args[1], b), Add(a.Args[2], b))
			}
			return mk("bvadd", a.Sort, "", nil, nil, a, b)
		}
		if a.Op == "bvadd" && a.Args[1].IsNum() {
			return Add(Add(a.Args[0], b), a.Args[1])
		}
		if b.Op == "bvadd" && b.Args[1].IsNum() {
			return Add(Add(a, b.Args[0]), b.Args[1])
		}
		// a + (-a)
		if b.Op == "bvmul" && b.Args[1] == BVC(a.Sort.W, -1) && b.Args[0] == a {
			return BVC(a.Sort.W, 0)
		}
		if a.id > b.id {
			a, b = b, a
		}
		return mk("bvadd", a.Sort, "", nil, nil, a, b)
	}
	l := linOf(a)
	l.add(b, big.NewRat(1, 1))
	return l.term(a.Sort)
}
func Neg(a *Term) *Term {
	if a.Sort.K == KBV {
		return Mul(a, BVC(a.Sort.W, -1))
	}
	l := &lin{c: new(big.Rat), cs: map[int]*big.Rat{}, ts: map[int]*Term{}}
	l.add(a, big.NewRat(-1, 1))
	return l.term(a.Sort)
}
func Sub(a, b *Term) *Term {
	if a.Sort.K == KBV {
		if a == b {
			return BVC(a.Sort.W, 0)
		}
		if b.IsNum() {
			return Add(a, BVB(b.Sort.W, new(big.Int).Neg(b.Num)))
		}
		// (x + y) - y
		if a.Op == "bvadd" {
			if a.Args[0] == b {
				return a.Args[1]
			}
			if a.Args[1] == b {
				return a.Args[0]
			}
		}
		return mk("bvsub", a.Sort, "", nil, nil, a, b)
	}
	l := linOf(a)
	l.add(b, big.NewRat(-1, 1))
	return l.term(a.Sort)
}
func Mul(a, b *Term) *Term {
	if a.Sort.K == KBV {
		if a.IsNum() && b.IsNum() {
			return BVB(a.Sort.W, new(big.Int).Mul(a.Num, b.Num))
		}
		if a.IsNum() {
			a, b = b, a
		}
		if b.IsNum() {
			if b.Num.Sign() == 0 {
				return b
			}
			if b.Num.Cmp(big.NewInt(1)) == 0 {
				return a
			}
			if a.Op == "bvmul" && a.Args[1].IsNum() {
				return Mul(a.Args[0], Mul(a.Args[1], b))
			}
			if a.Op == "ite" && iteConstLeaves(a, 12) {
				return Ite(a.Args[0], Mul(a.Args[1], b), Mul(a.Args[2], b))
			}
		}
		return mk("bvmul", a.Sort, "", nil, nil, a, b)
	}
	if a.Op == "const" || b.Op == "const" {
		if b.Op == "const" {
			a, b = b, a
		}
		v := a.Rat
		if v == nil {
			v = new(big.Rat).SetInt(a.Num)
		}
		l := &lin{c: new(big.Rat), cs: map[int]*big.Rat{}, ts: map[int]*Term{}}
		l.add(b, v)
		return l.term(b.Sort)
	}
	// distribute over sums (keeps products of atoms canonical)
	if a.Op == "+" || b.Op == "+" || a.Op == "*" && a.Args[0].Op == "const" || b.Op == "*" && b.Args[0].Op == "const" {
		la, lb := linOf(a), linOf(b)
		if len(la.cs) <= 4 && len(lb.cs) <= 4 {
			out := &lin{c: new(big.Rat).Mul(la.c, lb.c), cs: map[int]*big.Rat{}, ts: map[int]*Term{}}
			for i, ca := range la.cs {
				out.add(la.ts[i], new(big.Rat).Mul(ca, lb.c))
				for j, cb := range lb.cs {
					out.add(mulAtoms(la.ts[i], lb.ts[j]), new(big.Rat).Mul(ca, cb))
				}
			}
			for j, cb := range lb.cs {
				out.add(lb.ts[j], new(big.Rat).Mul(cb, la.c))
			}
			return out.term(a.Sort)
		}
	}
	return mulAtoms(a, b)
}
func mulAtoms(a, b *Term) *Term {
	var fs []*Term
	for _, t := range []*Term{a, b} {
		if t.Op == "nl*" {
			fs = append(fs, t.Args...)
		} else {
			fs = append(fs, t)
		}
	}
	sort.Slice(fs, func(i, j int) bool { return fs[i].id < fs[j].id })
	return mk("nl*", a.Sort, "", nil, nil, fs...)
}

// floor division and modulus by positive constant; general otherwise (Euclidean as SMT div for Int)
func IDiv(a, b *Term) *Term { // SMT-LIB div
	if a.IsNum() && b.IsNum() && b.Num.Sign() != 0 {
		m := new(big.Int)
		q, _ := new(big.Int).DivMod(a.Num, b.Num, m)
		return IntB(q)
	}
	if b.IsNum() && b.Num.Cmp(big.NewInt(1)) == 0 {
		return a
	}
	if b.IsNum() && b.Num.Sign() > 0 {
		// (c*b*x + r) div b with all multiples
		l := linOf(a)
		bb := new(big.Rat).SetInt(b.Num)
		q := &lin{c: new(big.Rat), cs: map[int]*big.Rat{}, ts: map[int]*Term{}}
		rest := &lin{c: new(big.Rat), cs: map[int]*big.Rat{}, ts: map[int]*Term{}}
		for id, c := range l.cs {
			d := new(big.Rat).Quo(c, bb)
			if d.IsInt() {
				q.add(l.ts[id], d)
			} else {
				rest.add(l.ts[id], c)
			}
		}
		if len(q.cs) > 0 {
			rest.c = l.c
			return Add(q.term(SInt), IDiv(rest.term(SInt), b))
		}
		// leading coefficient positive: x div b = -((-x + b-1) div b)
		neg := len(rest.cs) > 0
		for _, c := range rest.cs {
			if c.Sign() > 0 {
				neg = false
			}
		}
		if neg {
			return Neg(IDiv(Add(Neg(a), IntB(new(big.Int).Sub(b.Num, big.NewInt(1)))), b))
		}
	}
	return mk("div", SInt, "", nil, nil, a, b)
}
func IMod(a, b *Term) *Term { // SMT-LIB mod
	if a.IsNum() && b.IsNum() && b.Num.Sign() != 0 {
		m := new(big.Int)
		new(big.Int).DivMod(a.Num, b.Num, m)
		return IntB(m)
	}
	if a.Op == "mod" && a.Args[1] == b {
		return a
	}
	if a.Op == "mod" && b.IsNum() && b.Num.Sign() > 0 && a.Args[1].IsNum() && new(big.Int).Mod(a.Args[1].Num, b.Num).Sign() == 0 {
		return IMod(a.Args[0], b)
	}
	if b.IsNum() && a.Op == "ite" && iteConstLeaves(a, 12) {
		return Ite(a.Args[0], IMod(a.Args[1], b), IMod(a.Args[2], b))
	}
	if k := pow2(b); k >= 0 && (a.Op == "bv2nat" || a.Op == "sbv2int" && k <= a.Args[0].Sort.W) {
		x := a.Args[0]
		if k >= x.Sort.W {
			return BV2Nat(x)
		}
		return BV2Nat(BVAnd(x, BVB(x.Sort.W, new(big.Int).Sub(b.Num, big.NewInt(1)))))
	}
	if b.IsNum() && b.Num.Sign() > 0 {
		if lo, hi, ok := bounds(a, 4); ok && lo.Sign() >= 0 && hi.Cmp(b.Num) < 0 {
			return a
		}
		l := linOf(a)
		rest := &lin{c: new(big.Rat), cs: map[int]*big.Rat{}, ts: map[int]*Term{}}
		ch := false
		for id, c := range l.cs {
			m := new(big.Int).Mod(c.Num(), b.Num)
			if c.IsInt() && m.Sign() == 0 {
				ch = true
				continue
			}
			rest.add(l.ts[id], c)
		}
		cm := new(big.Int).Mod(l.c.Num(), b.Num)
		if ch || cm.Cmp(l.c.Num()) != 0 {
			rest.c = new(big.Rat).SetInt(cm)
			return IMod(rest.term(SInt), b)
		}
	}
	return mk("mod", SInt, "", nil, nil, a, b)
}

// pow2: k with t = 2^k, or -1
func pow2(t *Term) int {
	if !t.IsNum() || t.Num.Sign() <= 0 {
		return -1
	}
	k := t.Num.BitLen() - 1
	if new(big.Int).Lsh(big.NewInt(1), uint(k)).Cmp(t.Num) == 0 {
		return k
	}
	return -1
}

// varRange: assumed ranges of integer variables and functions (the range of their Go type)
var varRange = map[string][2]*big.Int{}
var maxLen = new(big.Int).Lsh(big.NewInt(1), 48)

// cheap constant bounds for Int terms
func bounds(t *Term, d int) (*big.Int, *big.Int, bool) {
	if t.IsNum() {
		return t.Num, t.Num, true
	}
	if d == 0 {
		return nil, nil, false
	}
	switch t.Op {
	case "var", "uf":
		if r, ok := varRange[t.Str]; ok {
			return r[0], r[1], true
		}
	case "strlen":
		return big.NewInt(0), maxLen, true
	case "div":
		if b := t.Args[1]; b.IsNum() && b.Num.Sign() > 0 {
			lo, hi, ok := bounds(t.Args[0], d-1)
			if ok {
				return new(big.Int).Div(lo, b.Num), new(big.Int).Div(hi, b.Num), true
			}
		}
	case "mod":
		if t.Args[1].IsNum() && t.Args[1].Num.Sign() > 0 {
			return big.NewInt(0), new(big.Int).Sub(t.Args[1].Num, big.NewInt(1)), true
		}
	case "bv2nat":
		return big.NewInt(0), new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), uint(knownMax(t.Args[0]))), big.NewInt(1)), true
	case "sbv2int":
		h := new(big.Int).Lsh(big.NewInt(1), uint(t.Args[0].Sort.W-1))
		return new(big.Int).Neg(h), new(big.Int).Sub(h, big.NewInt(1)), true
	case "ite":
		a, b, ok := bounds(t.Args[1], d-1)
		c, e, ok2 := bounds(t.Args[2], d-1)
		if ok && ok2 {
			if c.Cmp(a) < 0 {
				a = c
			}
			if e.Cmp(b) > 0 {
				b = e
			}
			return a, b, true
		}
	case "+":
		lo, hi := new(big.Int), new(big.Int)
		for _, x := range t.Args {
			a, b, ok := bounds(x, d-1)
			if !ok {
				return nil, nil, false
			}
			lo.Add(lo, a)
			hi.Add(hi, b)
		}
		return lo, hi, true
	case "*":
		a, b, ok := bounds(t.Args[1], d-1)
		if ok {
			x := new(big.Int).Mul(a, t.Args[0].Num)
			y := new(big.Int).Mul(b, t.Args[0].Num)
			if x.Cmp(y) > 0 {
				x, y = y, x
			}
			return x, y, true
		}
	}
	return nil, nil, false
}

// truncated (Go) division for Int
func TDiv(a, b *Term) *Term {
	if a.IsNum() && b.IsNum() && b.Num.Sign() != 0 {
		return IntB(new(big.Int).Quo(a.Num, b.Num))
	}
	if lo, _, ok := bounds(a, 4); ok && lo.Sign() >= 0 && b.IsNum() && b.Num.Sign() > 0 {
		return IDiv(a, b)
	}
	if b.IsNum() && b.Num.Sign() > 0 {
		return Ite(Le(IntC(0), a), IDiv(a, b), Neg(IDiv(Neg(a), b)))
	}
	return mk("tdiv", SInt, "", nil, nil, a, b)
}
func TRem(a, b *Term) *Term {
	if a.IsNum() && b.IsNum() && b.Num.Sign() != 0 {
		return IntB(new(big.Int).Rem(a.Num, b.Num))
	}
	if b.IsNum() && b.Num.Sign() > 0 {
		if lo, _, ok := bounds(a, 4); ok && lo.Sign() >= 0 {
			return IMod(a, b)
		}
		return Ite(Le(IntC(0), a), IMod(a, b), Neg(IMod(Neg(a), b)))
	}
	return Sub(a, Mul(b, TDiv(a, b)))
}

func Lt(a, b *Term) *Term { // Int/Real
	if a == b {
		return False
	}
	d := Sub(b, a)
	if d.Op == "const" {
		if d.Rat != nil {
			return BoolC(d.Rat.Sign() > 0)
		}
		return BoolC(d.Num.Sign() > 0)
	}
	if a.Sort.K == KInt {
		if lo, hi, ok := bounds(d, 5); ok {
			if lo.Sign() > 0 {
				return True
			}
			if hi.Sign() <= 0 {
				return False
			}
		}
	}
	if a.Sort.K == KInt && (a.Op == "bv2nat" || a.Op == "sbv2int") && a.Op == b.Op && a.Args[0].Sort == b.Args[0].Sort {
		if a.Op == "bv2nat" {
			return ULt(a.Args[0], b.Args[0])
		}
		return SLt(a.Args[0], b.Args[0])
	}
	if a.Sort.K == KInt && d.Op == "+" && len(d.Args) == 2 { // 0 < x - y
		for i := range d.Args {
			p, q := d.Args[i], d.Args[1-i]
			if (p.Op == "bv2nat" || p.Op == "sbv2int") && q.Op == "*" && len(q.Args) == 2 && q.Args[0] == IntC(-1) && q.Args[1].Op == p.Op && p.Args[0].Sort == q.Args[1].Args[0].Sort {
				return Lt(q.Args[1], p)
			}
		}
	}
	if a.Sort.K == KInt {
		if b.IsNum() && a.Op == "bv2nat" && b.Num.Sign() > 0 && b.Num.BitLen() <= a.Args[0].Sort.W {
			return ULt(a.Args[0], BVB(a.Args[0].Sort.W, b.Num))
		}
		if a.IsNum() && b.Op == "bv2nat" && a.Num.Sign() >= 0 && a.Num.BitLen() <= b.Args[0].Sort.W {
			return ULt(BVB(b.Args[0].Sort.W, a.Num), b.Args[0])
		}
		if b.IsNum() && a.Op == "sbv2int" && BVB(a.Args[0].Sort.W, b.Num).Signed().Cmp(b.Num) == 0 {
			return SLt(a.Args[0], BVB(a.Args[0].Sort.W, b.Num))
		}
		if a.IsNum() && b.Op == "sbv2int" && BVB(b.Args[0].Sort.W, a.Num).Signed().Cmp(a.Num) == 0 {
			return SLt(BVB(b.Args[0].Sort.W, a.Num), b.Args[0])
		}
	}
	if b.IsConst() && a.Op == "ite" && iteConstLeaves(a, 20) {
		return Ite(a.Args[0], Lt(a.Args[1], b), Lt(a.Args[2], b))
	}
	if a.IsConst() && b.Op == "ite" && iteConstLeaves(b, 20) {
		return Ite(b.Args[0], Lt(a, b.Args[1]), Lt(a, b.Args[2]))
	}
	return mk("<", SBool, "", nil, nil, a, b)
}
func Le(a, b *Term) *Term { return Not(Lt(b, a)) }
func Gt(a, b *Term) *Term { return Lt(b, a) }
func Ge(a, b *Term) *Term { return Not(Lt(a, b)) }

// generic signed compare dispatch
func SLt(a, b *Term) *Term {
	if a.Sort.K == KBV {
		if a == b {
			return False
		}
		if a.IsNum() && b.IsNum() {
			return BoolC(a.Signed().Cmp(b.Signed()) < 0)
		}
		if b.IsConst() && a.Op == "ite" && iteConstLeaves(a, 20) {
			return Ite(a.Args[0], SLt(a.Args[1], b), SLt(a.Args[2], b))
		}
		if a.IsConst() && b.Op == "ite" && iteConstLeaves(b, 20) {
			return Ite(b.Args[0], SLt(a, b.Args[1]), SLt(a, b.Args[2]))
		}
		if a.Op == "zext" && b.IsNum() && b.Signed().Sign() <= 0 {
			return False
		}
		if b.Op == "zext" && a.IsNum() && a.Signed().Sign() < 0 {
			return True
		}
		return mk("bvslt", SBool, "", nil, nil, a, b)
	}
	return Lt(a, b)
}
func ULt(a, b *Term) *Term {
	if a.Sort.K == KBV {
		if a == b {
			return False
		}
		if a.IsNum() && b.IsNum() {
			return BoolC(a.Num.Cmp(b.Num) < 0)
		}
		if b.IsNum() && b.Num.Sign() == 0 {
			return False
		}
		if a.IsNum() && a.Num.Sign() == 0 {
			return Neq(b, a)
		}
		if b.IsConst() && a.Op == "ite" && iteConstLeaves(a, 20) {
			return Ite(a.Args[0], ULt(a.Args[1], b), ULt(a.Args[2], b))
		}
		if n, ok := byteSum(a); ok && (b.IsNum() || b.Op == "bvor") {
			return Lt(n, BV2Nat(b))
		}
		if n, ok := byteSum(b); ok && a.IsNum() {
			return Lt(BV2Nat(a), n)
		}
		return mk("bvult", SBool, "", nil, nil, a, b)
	}
	return Lt(a, b)
}
func SLe(a, b *Term) *Term { return Not(SLt(b, a)) }

// ---------------------------------------------------------------- BV

func bvop(op string, a, b *Term, f func(x, y *big.Int) *big.Int) *Term {
	if a.IsNum() && b.IsNum() {
		return BVB(a.Sort.W, f(a.Num, b.Num))
	}
	if b.IsNum() && a.Op == "ite" && iteConstLeaves(a, 12) {
		return Ite(a.Args[0], bvop(op, a.Args[1], b, f), bvop(op, a.Args[2], b, f))
	}
	return mk(op, a.Sort, "", nil, nil, a, b)
}
func allOnes(w int) *Term { return BVC(w, -1) }

func BVAnd(a, b *Term) *Term {
	if a.IsNum() {
		a, b = b, a
	}
	if a == b {
		return a
	}
	if b.IsNum() {
		if b.Num.Sign() == 0 {
			return b
		}
		if b == allOnes(a.Sort.W) {
			return a
		}
		if a.Op == "bvand" && a.Args[1].IsNum() {
			return BVAnd(a.Args[0], BVAnd(a.Args[1], b))
		}
		if a.Op == "bvor" {
			return BVOr(BVAnd(a.Args[0], b), BVAnd(a.Args[1], b))
		}
		if a.Op == "zext" {
			x := a.Args[0]
			return ZExt(BVAnd(x, BVB(x.Sort.W, b.Num)), a.Sort.W)
		}
		// known-zero bits
		kz := knownMax(a)
		if kz >= 0 && kz <= 62 {
			m := new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), uint(kz)), big.NewInt(1))
			if new(big.Int).And(m, b.Num).Cmp(m) == 0 {
				return a
			}
		}
	}
	return bvop("bvand", a, b, func(x, y *big.Int) *big.Int { return new(big.Int).And(x, y) })
}

// knownMax: number n such that a < 2^n unsigned (w if unknown)
func knownMax(a *Term) int {
	switch a.Op {
	case "const":
		return a.Num.BitLen()
	case "zext":
		return knownMax(a.Args[0])
	case "bvand":
		x, y := knownMax(a.Args[0]), knownMax(a.Args[1])
		if y < x {
			return y
		}
		return x
	case "bvshl":
		if s, ok := a.Args[1].Int64(); ok {
			if n := knownMax(a.Args[0]) + int(s); n < a.Sort.W {
				return n
			}
		}
	case "bvor", "bvxor":
		x, y := knownMax(a.Args[0]), knownMax(a.Args[1])
		if y > x {
			return y
		}
		return x
	case "bvurem":
		if a.Args[1].IsNum() && a.Args[1].Num.Sign() > 0 {
			n := new(big.Int).Sub(a.Args[1].Num, big.NewInt(1)).BitLen()
			if m := knownMax(a.Args[0]); m < n {
				return m
			}
			return n
		}
	case "bvlshr":
		if s, ok := a.Args[1].Int64(); ok {
			n := knownMax(a.Args[0]) - int(s)
			if n < 0 {
				n = 0
			}
			return n
		}
	case "ite":
		x, y := knownMax(a.Args[1]), knownMax(a.Args[2])
		if y > x {
			return y
		}
		return x
	}
	return a.Sort.W
}
func BVOr(a, b *Term) *Term {
	if a.IsNum() {
		a, b = b, a
	}
	if a == b {
		return a
	}
	if b.IsNum() && b.Num.Sign() == 0 {
		return a
	}
	return bvop("bvor", a, b, func(x, y *big.Int) *big.Int { return new(big.Int).Or(x, y) })
}
func BVXor(a, b *Term) *Term {
	if a.IsNum() {
		a, b = b, a
	}
	if b.IsNum() && b.Num.Sign() == 0 {
		return a
	}
	if a == b {
		return BVC(a.Sort.W, 0)
	}
	return bvop("bvxor", a, b, func(x, y *big.Int) *big.Int { return new(big.Int).Xor(x, y) })
}
func BVNot(a *Term) *Term { return BVXor(a, allOnes(a.Sort.W)) }
func Shl(a, n *Term) *Term {
	w := a.Sort.W
	if n.IsNum() {
		if n.Num.Cmp(big.NewInt(int64(w))) >= 0 {
			return BVC(w, 0)
		}
		if n.Num.Sign() == 0 {
			return a
		}
	}
	return bvop("bvshl", a, n, func(x, y *big.Int) *big.Int {
		if !y.IsInt64() || y.Int64() >= int64(w) {
			return big.NewInt(0)
		}
		return new(big.Int).Lsh(x, uint(y.Int64()))
	})
}
func LShr(a, n *Term) *Term {
	w := a.Sort.W
	if n.IsNum() && n.Num.Sign() == 0 {
		return a
	}
	if n.IsNum() && a.Op == "zext" {
		x := a.Args[0]
		if n.Num.Cmp(big.NewInt(int64(x.Sort.W))) >= 0 {
			return BVC(w, 0)
		}
		return ZExt(LShr(x, BVB(x.Sort.W, n.Num)), w)
	}
	return bvop("bvlshr", a, n, func(x, y *big.Int) *big.Int {
		if !y.IsInt64() || y.Int64() >= int64(w) {
			return big.NewInt(0)
		}
		return new(big.Int).Rsh(x, uint(y.Int64()))
	})
}
func AShr(a, n *Term) *Term {
	w := a.Sort.W
	if a.IsNum() && n.IsNum() {
		s := a.Signed()
		k := uint(w)
		if n.Num.IsInt64() && n.Num.Int64() < int64(w) {
			k = uint(n.Num.Int64())
		}
		return BVB(w, new(big.Int).Rsh(s, k))
	}
	if n.IsNum() && n.Num.Sign() == 0 {
		return a
	}
	if knownMax(a) < w {
		return LShr(a, n)
	}
	if n.IsNum() && a.Op == "ite" && iteConstLeaves(a, 12) {
		return Ite(a.Args[0], AShr(a.Args[1], n), AShr(a.Args[2], n))
	}
	return mk("bvashr", a.Sort, "", nil, nil, a, n)
}
func BVDiv(a, b *Term, signed bool) *Term {
	if a.IsNum() && b.IsNum() && b.Num.Sign() != 0 {
		if signed {
			return BVB(a.Sort.W, new(big.Int).Quo(a.Signed(), b.Signed()))
		}
		return BVB(a.Sort.W, new(big.Int).Quo(a.Num, b.Num))
	}
	if b.IsNum() && b.Num.Cmp(big.NewInt(1)) == 0 {
		return a
	}
	if b.IsNum() && b.Num.Sign() != 0 && a.Op == "ite" && iteConstLeaves(a, 12) {
		return Ite(a.Args[0], BVDiv(a.Args[1], b, signed), BVDiv(a.Args[2], b, signed))
	}
	if a.Op == "bvmul" && b.IsNum() && b.Num.Sign() > 0 { // a small factor: a table
		x, c := a.Args[0], a.Args[1]
		if x.IsNum() {
			x, c = c, x
		}
		if n := knownMax(x); c.IsNum() && n <= 3 && n+c.Num.BitLen() < a.Sort.W-1 {
			r := BVC(a.Sort.W, 0)
			for v := 1<<uint(n) - 1; v > 0; v-- {
				q := new(big.Int).Mul(c.Num, big.NewInt(int64(v)))
				r = Ite(Eq(x, BVC(a.Sort.W, int64(v))), BVB(a.Sort.W, q.Quo(q, b.Num)), r)
			}
			return r
		}
	}
	if signed {
		return mk("bvsdiv", a.Sort, "", nil, nil, a, b)
	}
	return mk("bvudiv", a.Sort, "", nil, nil, a, b)
}
func BVRem(a, b *Term, signed bool) *Term {
	if a.IsNum() && b.IsNum() && b.Num.Sign() != 0 {
		if signed {
			return BVB(a.Sort.W, new(big.Int).Rem(a.Signed(), b.Signed()))
		}
		return BVB(a.Sort.W, new(big.Int).Rem(a.Num, b.Num))
	}
	if signed {
		return mk("bvsrem", a.Sort, "", nil, nil, a, b)
	}
	return mk("bvurem", a.Sort, "", nil, nil, a, b)
}
func ZExt(a *Term, w int) *Term {
	if a.Sort.W == w {
		return a
	}
	if a.IsNum() {
		return BVB(w, a.Num)
	}
	if a.Op == "zext" {
		return ZExt(a.Args[0], w)
	}
	if a.Op == "ite" && iteConstLeaves(a, 12) {
		return Ite(a.Args[0], ZExt(a.Args[1], w), ZExt(a.Args[2], w))
	}
	return mk("zext", SBV(w), "", nil, nil, a)
}
func SExt(a *Term, w int) *Term {
	if a.Sort.W == w {
		return a
	}
	if a.IsNum() {
		return BVB(w, a.Signed())
	}
	if a.Op == "zext" && a.Args[0].Sort.W < a.Sort.W {
		return ZExt(a.Args[0], w)
	}
	if a.Op == "sext" {
		return SExt(a.Args[0], w)
	}
	if knownMax(a) < a.Sort.W {
		return ZExt(a, w)
	}
	if a.Op == "ite" && iteConstLeaves(a, 12) {
		return Ite(a.Args[0], SExt(a.Args[1], w), SExt(a.Args[2], w))
	}
	return mk("sext", SBV(w), "", nil, nil, a)
}
func Trunc(a *Term, w int) *Term {
	if a.Sort.W == w {
		return a
	}
	if a.IsNum() {
		return BVB(w, a.Num)
	}
	if a.Op == "zext" || a.Op == "sext" {
		x := a.Args[0]
		if x.Sort.W == w {
			return x
		}
		if x.Sort.W > w {
			return Trunc(x, w)
		}
		if a.Op == "zext" {
			return ZExt(x, w)
		}
		return SExt(x, w)
	}
	if a.Op == "trunc" {
		return Trunc(a.Args[0], w)
	}
	switch a.Op {
	case "bvand":
		return BVAnd(Trunc(a.Args[0], w), Trunc(a.Args[1], w))
	case "bvor":
		return BVOr(Trunc(a.Args[0], w), Trunc(a.Args[1], w))
	case "ite":
		return Ite(a.Args[0], Trunc(a.Args[1], w), Trunc(a.Args[2], w))
	case "bvshl":
		if a.Args[1].IsNum() && a.Args[1].Num.Cmp(big.NewInt(int64(w))) < 0 {
			return Shl(Trunc(a.Args[0], w), BVB(w, a.Args[1].Num))
		}
	}
	return mk("trunc", SBV(w), "", nil, nil, a)
}

// Int <-> BV conversions
// byteSum: a word put together from three or more bytes, as a number
func byteSum(a *Term) (*Term, bool) {
	if a.Op != "bvor" {
		return nil, false
	}
	var parts []*Term
	var w func(t *Term)
	w = func(t *Term) {
		if t.Op == "bvor" {
			w(t.Args[0])
			w(t.Args[1])
			return
		}
		parts = append(parts, t)
	}
	w(a)
	if len(parts) < 3 || len(parts) > 8 {
		return nil, false
	}
	used := new(big.Int)
	sum := IntC(0)
	for _, p := range parts {
		k := int64(0)
		if p.Op == "bvshl" {
			n, ok := p.Args[1].Int64()
			if !ok {
				return nil, false
			}
			k, p = n, p.Args[0]
		}
		if p.Op != "zext" {
			return nil, false
		}
		x := p.Args[0]
		if int(k)+x.Sort.W > a.Sort.W {
			return nil, false
		}
		m := new(big.Int).Lsh(big.NewInt(1), uint(x.Sort.W))
		m.Sub(m, big.NewInt(1)).Lsh(m, uint(k))
		if new(big.Int).And(used, m).Sign() != 0 {
			return nil, false
		}
		used.Or(used, m)
		sum = Add(sum, Mul(IntB(new(big.Int).Lsh(big.NewInt(1), uint(k))), BV2Nat(x)))
	}
	return sum, true
}

func BV2Nat(a *Term) *Term {
	if n, ok := byteSum(a); ok {
		return n
	}
	if a.IsNum() {
		return IntB(a.Num)
	}
	if a.Op == "ite" && iteConstLeaves(a, 30) {
		return Ite(a.Args[0], BV2Nat(a.Args[1]), BV2Nat(a.Args[2]))
	}
	if a.Op == "int2bv" {
		return IMod(a.Args[0], IntB(new(big.Int).Lsh(big.NewInt(1), uint(a.Sort.W))))
	}
	if a.Op == "zext" {
		return BV2Nat(a.Args[0])
	}
	if (a.Op == "bvadd" || a.Op == "bvmul" && a.Args[1].IsNum()) && linBV(a) {
		var r *Term
		if a.Op == "bvadd" {
			r = Add(BV2Nat(a.Args[0]), BV2Nat(a.Args[1]))
		} else {
			r = Mul(BV2Nat(a.Args[0]), BV2Nat(a.Args[1]))
		}
		return IMod(r, IntB(new(big.Int).Lsh(big.NewInt(1), uint(a.Sort.W))))
	}
	return mk("bv2nat", SInt, "", nil, nil, a)
}

// linBV: linear machine arithmetic over truncated integers
func linBV(a *Term) bool {
	switch a.Op {
	case "int2bv":
		return true
	case "bvadd":
		return (linBV(a.Args[0]) || linLeaf(a.Args[0])) && (linBV(a.Args[1]) || linLeaf(a.Args[1]))
	case "bvmul":
		return linBV(a.Args[0]) && a.Args[1].IsNum()
	}
	return false
}
func linLeaf(a *Term) bool { return a.IsNum() || a.Op == "zext" }

func bvLike(y *Term) bool {
	return y.IsNum() || y.Op == "bv2nat" || y.Op == "sbv2int" || y.Op == "*" && bvLike(y.Args[1])
}

// SBV2Int: signed value
func SBV2Int(a *Term) *Term {
	if a.IsNum() {
		return IntB(a.Signed())
	}
	if knownMax(a) < a.Sort.W {
		return BV2Nat(a)
	}
	if a.Op == "ite" && iteConstLeaves(a, 30) {
		return Ite(a.Args[0], SBV2Int(a.Args[1]), SBV2Int(a.Args[2]))
	}
	if a.Op == "sext" {
		return SBV2Int(a.Args[0])
	}
	return mk("sbv2int", SInt, "", nil, nil, a)
}
func Int2BV(w int, a *Term) *Term {
	if a.IsNum() {
		return BVB(w, a.Num)
	}
	if a.Op == "ite" && iteConstLeaves(a, 30) {
		return Ite(a.Args[0], Int2BV(w, a.Args[1]), Int2BV(w, a.Args[2]))
	}
	if a.Op == "bv2nat" || a.Op == "sbv2int" {
		x := a.Args[0]
		if x.Sort.W <= w {
			if a.Op == "sbv2int" {
				return SExt(x, w)
			}
			return ZExt(x, w)
		}
		return Trunc(x, w)
	}
	if a.Op == "ite" {
		return Ite(a.Args[0], Int2BV(w, a.Args[1]), Int2BV(w, a.Args[2]))
	}
	if a.Op == "+" {
		ok := true
		for _, y := range a.Args {
			if !bvLike(y) {
				ok = false
			}
		}
		if ok {
			r := BVC(w, 0)
			for _, y := range a.Args {
				r = Add(r, Int2BV(w, y))
			}
			return r
		}
	}
	if a.Op == "*" && bvLike(a) {
		return Mul(Int2BV(w, a.Args[1]), BVB(w, a.Args[0].Num))
	}
	return mk("int2bv", SBV(w), "", nil, nil, a)
}

// Int <-> Real
func ToReal(a *Term) *Term {
	if a.IsNum() {
		return RealC(new(big.Rat).SetInt(a.Num))
	}
	return mk("to_real", SReal, "", nil, nil, a)
}
func Floor(a *Term) *Term { // Real -> Int
	if a.Op == "const" {
		q := new(big.Int).Div(a.Rat.Num(), a.Rat.Denom())
		if a.Rat.Sign() < 0 && !a.Rat.IsInt() {
			q = new(big.Int).Div(a.Rat.Num(), a.Rat.Denom()) // Euclid: den>0 -> floor already
		}
		return IntB(q)
	}
	if a.Op == "to_real" {
		return a.Args[0]
	}
	// (k/d) * to_real(x)  -> floor(x*k / d)
	l := linOf(a)
	num := &lin{c: new(big.Rat), cs: map[int]*big.Rat{}, ts: map[int]*Term{}}
	den := big.NewInt(1)
	ok := true
	mulden := func(r *big.Rat) {
		g := new(big.Int).GCD(nil, nil, den, r.Denom())
		den = new(big.Int).Mul(den, new(big.Int).Div(r.Denom(), g))
	}
	for id, c := range l.cs {
		if l.ts[id].Op != "to_real" {
			ok = false
		}
		mulden(c)
	}
	if ok {
		mulden(l.c)
		dr := new(big.Rat).SetInt(den)
		for id, c := range l.cs {
			num.add(l.ts[id].Args[0], new(big.Rat).Mul(c, dr))
		}
		num.c = new(big.Rat).Mul(l.c, dr)
		return IDiv(num.term(SInt), IntB(den))
	}
	return mk("to_int", SInt, "", nil, nil, a)
}
func RDiv(a, b *Term) *Term {
	if b.Op == "const" && b.Rat.Sign() != 0 {
		return Mul(RealC(new(big.Rat).Inv(b.Rat)), a)
	}
	return mk("/", SReal, "", nil, nil, a, b)
}

// ---------------------------------------------------------------- arrays

func Select(a, i *Term) *Term {
	switch a.Op {
	case "store":
		e := Eq(a.Args[1], i)
		if e == True {
			return a.Args[2]
		}
		if e == False {
			return Select(a.Args[0], i)
		}
	case "constarr":
		return a.Args[0]
	case "ite":
		return Ite(a.Args[0], Select(a.Args[1], i), Select(a.Args[2], i))
	}
	return mk("select", a.Sort.Elem, "", nil, nil, a, i)
}
func Store(a, i, v *Term) *Term { return mk("store", a.Sort, "", nil, nil, a, i, v) }
func ConstArr(s *Sort, v *Term) *Term {
	return mk("constarr", s, "", nil, nil, v)
}

// ---------------------------------------------------------------- quantifiers

func Forall(vs []*Term, body *Term) *Term {
	if body.IsConst() {
		return body
	}
	return mk("forall", SBool, "", nil, nil, append(append([]*Term{}, vs...), body)...)
}
func Exists(vs []*Term, body *Term) *Term { return Not(Forall(vs, Not(body))) }

// ---------------------------------------------------------------- substitution

func Subst(t *Term, m map[*Term]*Term) *Term {
	if len(m) == 0 {
		return t
	}
	cache := map[int]*Term{}
	return substC(t, m, cache)
}
func substC(t *Term, m map[*Term]*Term, cache map[int]*Term) *Term {
	if r, ok := m[t]; ok {
		return r
	}
	if len(t.Args) == 0 {
		return t
	}
	if r, ok := cache[t.id]; ok {
		return r
	}
	args := make([]*Term, len(t.Args))
	ch := false
	for i, a := range t.Args {
		args[i] = substC(a, m, cache)
		if args[i] != a {
			ch = true
		}
	}
	r := t
	if ch {
		r = rebuild(t, args)
	}
	cache[t.id] = r
	return r
}
func rebuild(t *Term, a []*Term) *Term {
	switch t.Op {
	case "not":
		return Not(a[0])
	case "and":
		return And(a...)
	case "or":
		return Or(a...)
	case "ite":
		return Ite(a[0], a[1], a[2])
	case "=":
		return Eq(a[0], a[1])
	case "+":
		r := a[0]
		for _, x := range a[1:] {
			r = Add(r, x)
		}
		return r
	case "*", "bvmul":
		return Mul(a[0], a[1])
	case "nl*":
		r := a[0]
		for _, x := range a[1:] {
			r = Mul(r, x)
		}
		return r
	case "div":
		return IDiv(a[0], a[1])
	case "mod":
		return IMod(a[0], a[1])
	case "tdiv":
		return TDiv(a[0], a[1])
	case "<":
		return Lt(a[0], a[1])
	case "bvadd":
		return Add(a[0], a[1])
	case "bvsub":
		return Sub(a[0], a[1])
	case "bvslt":
		return SLt(a[0], a[1])
	case "bvult":
		return ULt(a[0], a[1])
	case "bvand":
		return BVAnd(a[0], a[1])
	case "bvor":
		return BVOr(a[0], a[1])
	case "bvxor":
		return BVXor(a[0], a[1])
	case "bvshl":
		return Shl(a[0], a[1])
	case "bvlshr":
		return LShr(a[0], a[1])
	case "bvashr":
		return AShr(a[0], a[1])
	case "bvsdiv":
		return BVDiv(a[0], a[1], true)
	case "bvudiv":
		return BVDiv(a[0], a[1], false)
	case "bvsrem":
		return BVRem(a[0], a[1], true)
	case "bvurem":
		return BVRem(a[0], a[1], false)
	case "zext":
		return ZExt(a[0], t.Sort.W)
	case "sext":
		return SExt(a[0], t.Sort.W)
	case "trunc":
		return Trunc(a[0], t.Sort.W)
	case "bv2nat":
		return BV2Nat(a[0])
	case "sbv2int":
		return SBV2Int(a[0])
	case "int2bv":
		return Int2BV(t.Sort.W, a[0])
	case "to_real":
		return ToReal(a[0])
	case "to_int":
		return Floor(a[0])
	case "/":
		return RDiv(a[0], a[1])
	case "select":
		return Select(a[0], a[1])
	case "store":
		return Store(a[0], a[1], a[2])
	case "concat":
		return Concat(a...)
	case "dec":
		return Dec(a[0])
	}
	if f, ok := strRebuild[t.Op]; ok {
		return f(t, a)
	}
	return mk(t.Op, t.Sort, t.Str, t.Num, t.Rat, a...)
}

var strRebuild = map[string]func(t *Term, a []*Term) *Term{}

func (t *Term) contains(x *Term, seen map[int]bool) bool {
	if t == x {
		return true
	}
	if seen[t.id] {
		return false
	}
	seen[t.id] = true
	for _, a := range t.Args {
		if a.contains(x, seen) {
			return true
		}
	}
	return false
}

func (t *Term) String() string {
	return t.str(12)
}
func (t *Term) str(d int) string {
	switch t.Op {
	case "var":
		return t.Str
	case "lit":
		return fmt.Sprintf("%q", t.Str)
	case "const":
		if t.Rat != nil {
			return t.Rat.String()
		}
		if t.Sort.K == KBV {
			return fmt.Sprintf("%s:%d", t.Signed(), t.Sort.W)
		}
		return t.Num.String()
	case "true", "false":
		return t.Op
	}
	if d == 0 {
		return "…"
	}
	n := t.Op
	if t.Op == "uf" {
		n = t.Str
	}
	var sb strings.Builder
	sb.WriteByte('(')
	sb.WriteString(n)
	for _, a := range t.Args {
		sb.WriteByte(' ')
		sb.WriteString(a.str(d - 1))
	}
	sb.WriteByte(')')
	return sb.String()
}

// tautology: truth table of a small disjunction over its Boolean atoms
func tautology(ds []*Term) bool {
	atoms := map[int]int{}
	nodes := 0
	var collect func(t *Term) bool
	collect = func(t *Term) bool {
		nodes++
		if nodes > 60 {
			return false
		}
		switch t.Op {
		case "and", "or", "not":
			for _, a := range t.Args {
				if !collect(a) {
					return false
				}
			}
			return true
		}
		if _, ok := atoms[t.id]; !ok {
			if len(atoms) >= 8 {
				return false
			}
			atoms[t.id] = len(atoms)
		}
		return true
	}
	for _, d := range ds {
		if !collect(d) {
			return false
		}
	}
	var ev func(t *Term, m int) bool
	ev = func(t *Term, m int) bool {
		switch t.Op {
		case "true":
			return true
		case "false":
			return false
		case "not":
			return !ev(t.Args[0], m)
		case "and":
			for _, a := range t.Args {
				if !ev(a, m) {
					return false
				}
			}
			return true
		case "or":
			for _, a := range t.Args {
				if ev(a, m) {
					return true
				}
			}
			return false
		}
		return m>>atoms[t.id]&1 == 1
	}
	for m := 0; m < 1<<len(atoms); m++ {
		ok := false
		for _, d := range ds {
			if ev(d, m) {
				ok = true
				break
			}
		}
		if !ok {
			return false
		}
	}
	return true
}
