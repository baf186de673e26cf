package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math/big"
	"os"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

func (x *Exec) instr(fr *Frame, st *State, in ssa.Instruction) {
	switch i := in.(type) {
	case *ssa.Alloc:
		et := i.Type().(*types.Pointer).Elem()
		o := newObj(fr.fn.Name()+"."+i.Comment, et)
		st.mem[o] = x.zero(et)
		st.env[i] = ptrTo(o)
	case *ssa.BinOp:
		st.env[i] = x.binop(st, i.Op, x.get(fr, st, i.X), x.get(fr, st, i.Y), i.X.Type(), i.Y.Type(), i.Pos())
	case *ssa.UnOp:
		st.env[i] = x.unop(fr, st, i)
	case *ssa.Call:
		v := x.call(fr, st, i)
		if v != nil {
			st.env[i] = v
		}
	case *ssa.ChangeInterface:
		st.env[i] = x.get(fr, st, i.X)
	case *ssa.ChangeType:
		st.env[i] = x.get(fr, st, i.X)
	case *ssa.Convert:
		st.env[i] = x.convert(st, x.get(fr, st, i.X), i.X.Type(), i.Type())
	case *ssa.MakeInterface:
		st.env[i] = &IfaceV{alts: []IfaceAlt{{g: True, typ: i.X.Type(), val: x.get(fr, st, i.X)}}}
	case *ssa.Extract:
		tv, ok := x.get(fr, st, i.Tuple).(TupleV)
		if !ok {
			panic(unsup("extract from %T", x.get(fr, st, i.Tuple)))
		}
		st.env[i] = tv[i.Index]
	case *ssa.Field:
		sv := x.get(fr, st, i.X).(*StructV)
		st.env[i] = sv.f[i.Field]
	case *ssa.FieldAddr:
		p := x.ptr(fr, st, i.X)
		ft := i.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct).Field(i.Field)
		x.oblige(st, "safety", "nil dereference (."+ft.Name()+")", Not(isNilPtr(p)), i.Pos())
		st.env[i] = extendPtr(p, PathEl{field: i.Field})
	case *ssa.IndexAddr:
		st.env[i] = x.indexAddr(fr, st, i)
	case *ssa.Index:
		ix := x.toInt(x.term(fr, st, i.Index), i.Index.Type())
		v := x.get(fr, st, i.X)
		if s, ok := v.(*Term); ok {
			x.boundsOb(st, ix, StrLen(s), i.Pos(), "string index")
			st.env[i] = strIndex(s, ix)
			break
		}
		s := v.(Seq)
		x.boundsOb(st, ix, s.Len(), i.Pos(), "array index")
		st.env[i] = x.seqAt(s, ix)
	case *ssa.Lookup:
		x.lookup(fr, st, i)
	case *ssa.MakeClosure:
		var bs []Value
		for _, b := range i.Bindings {
			bs = append(bs, x.get(fr, st, b))
		}
		st.env[i] = &FuncV{fn: i.Fn.(*ssa.Function), binds: bs}
	case *ssa.MakeMap:
		o := newObj("map", i.Type())
		st.mem[o] = &MapC{typ: i.Type().Underlying().(*types.Map)}
		st.env[i] = &MapRef{ptrTo(o)}
	case *ssa.MakeSlice:
		n := x.toInt(x.term(fr, st, i.Len), i.Len.Type())
		x.oblige(st, "safety", "make with negative length", Ge(n, IntC(0)), i.Pos())
		if x.maxAlloc != nil {
			x.oblige(st, "post", "no slice beyond the limit is made", Le(n, x.maxAlloc), i.Pos())
		}
		et := i.Type().Underlying().(*types.Slice).Elem()
		z := x.zero(et)
		o := newObj("make", i.Type())
		if c, ok := n.Int64(); ok && c <= 4096 {
			cs := make([]Value, c)
			for j := range cs {
				cs[j] = z
			}
			st.mem[o] = &CellSeq{cs}
		} else {
			st.mem[o] = &FnSeq{n: n, at: func(*Term) Value { return z }, name: "zero"}
		}
		cp := n
		if i.Cap != nil {
			cp = x.toInt(x.term(fr, st, i.Cap), i.Cap.Type())
		}
		st.env[i] = &SliceV{arr: &Loc{obj: o}, off: IntC(0), len: n, cap: cp, isnil: False}
	case *ssa.MapUpdate:
		m, ok := x.get(fr, st, i.Map).(*MapRef)
		if !ok {
			panic(unsup("map update"))
		}
		x.oblige(st, "safety", "assignment to entry in nil map", Not(isNilPtr(m.p)), i.Pos())
		k, v := x.get(fr, st, i.Key), x.get(fr, st, i.Value)
		x.mapStore(st, m, MapEntry{g: True, k: k, v: v})
	case *ssa.Range:
		o := newObj("iter", nil)
		st.mem[o] = IntC(0)
		st.env[i] = &iterV{over: x.get(fr, st, i.X), obj: o, st: nil}
		if m, ok := st.env[i].(*iterV).over.(*MapRef); ok {
			st.env[i].(*iterV).snap = x.mapContent(st, m)
		}
	case *ssa.Next:
		x.next(fr, st, i)
	case *ssa.Slice:
		x.sliceOp(fr, st, i)
	case *ssa.Store:
		x.store(st, x.ptr(fr, st, i.Addr), x.phiGetF(fr, st, i.Val), i.Pos(), "store")
	case *ssa.TypeAssert:
		x.typeAssert(fr, st, i)
	case *ssa.Defer:
		v := x.callArgs(fr, st, &i.Call)
		fr.defers = append(fr.defers, deferred{call: i, args: v, g: st.g})
		if i.Call.StaticCallee() == nil {
			fr.defers[len(fr.defers)-1].fv = x.calleeVal(fr, st, &i.Call)
		}
	case *ssa.RunDefers:
		for j := len(fr.defers) - 1; j >= 0; j-- {
			d := fr.defers[j]
			// deferred calls are executed when their guard is part of the path
			if residual(d.g, st.g) != True {
				if And(st.g, d.g) == False {
					continue
				}
				panic(unsup("conditional defer"))
			}
			x.invoke(fr, st, &d.call.Call, d.args, d.fv, d.call.Pos())
		}
	case *ssa.Go:
		x.goStmt(fr, st, i)
	case *ssa.Send, *ssa.Select, *ssa.MakeChan:
		x.chanOp(fr, st, in)
	default:
		panic(unsup("instruction %T (%s) in %s", in, in, fr.fn))
	}
}

func (x *Exec) phiGetF(fr *Frame, st *State, v ssa.Value) Value {
	return force(x.phiGet(fr, st, v))
}

type iterV struct {
	over Value
	obj  *Obj
	st   *State
	snap *MapC
}

func (x *Exec) ptr(fr *Frame, st *State, v ssa.Value) *PtrV {
	p, ok := x.get(fr, st, v).(*PtrV)
	if !ok {
		panic(unsup("pointer expected: %s is %T", v, x.get(fr, st, v)))
	}
	return p
}

func (x *Exec) boundsOb(st *State, i, n *Term, pos token.Pos, what string) {
	x.oblige(st, "safety", what+" out of range", And(Ge(i, IntC(0)), Lt(i, n)), pos)
}

func (x *Exec) indexAddr(fr *Frame, st *State, i *ssa.IndexAddr) Value {
	ix := x.toInt(x.term(fr, st, i.Index), i.Index.Type())
	switch v := x.get(fr, st, i.X).(type) {
	case *SliceV:
		if _, ok := x.segPos[ix]; !ok {
			x.boundsOb(st, ix, v.len, i.Pos(), "slice index")
		}
		if v.arr == nil {
			return &Poison{why: "index of nil slice"}
		}
		if _, ok := x.segPos[ix]; ok {
			return ptrLoc(&Loc{obj: v.arr.obj, path: append(append([]PathEl{}, v.arr.path...), PathEl{idx: ix})})
		}
		return ptrLoc(&Loc{obj: v.arr.obj, path: append(append([]PathEl{}, v.arr.path...), PathEl{idx: Add(v.off, ix)})})
	case *PtrV: // pointer to array
		at := i.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array)
		x.oblige(st, "safety", "nil dereference (array)", Not(isNilPtr(v)), i.Pos())
		x.boundsOb(st, ix, IntC(at.Len()), i.Pos(), "array index")
		return extendPtr(v, PathEl{idx: ix})
	default:
		panic(unsup("indexAddr %T", v))
	}
}

func (x *Exec) toInt(t *Term, typ types.Type) *Term {
	switch t.Sort.K {
	case KInt:
		return t
	case KBV:
		if isUnsigned(typ) {
			return BV2Nat(t)
		}
		return SBV2Int(t)
	}
	panic(unsup("toInt of %s", t.Sort))
}

func (x *Exec) sliceOp(fr *Frame, st *State, i *ssa.Slice) {
	opt := func(v ssa.Value) *Term {
		if v == nil {
			return nil
		}
		return x.toInt(x.term(fr, st, v), v.Type())
	}
	lo, hi, mx := opt(i.Low), opt(i.High), opt(i.Max)
	if lo == nil {
		lo = IntC(0)
	}
	switch v := x.get(fr, st, i.X).(type) {
	case *Term:
		n := StrLen(v)
		if hi == nil {
			hi = n
		}
		x.oblige(st, "safety", "string slice bounds", And(Ge(lo, IntC(0)), Le(lo, hi), Le(hi, n)), i.Pos())
		st.env[i] = strSub(v, lo, hi)
	case *SliceV:
		if hi == nil {
			hi = v.len
		}
		lim := v.cap
		if mx == nil {
			mx = v.cap
		} else {
			x.oblige(st, "safety", "slice bounds", And(Le(hi, mx), Le(mx, v.cap)), i.Pos())
		}
		if lo != IntC(0) || hi != v.len {
			x.oblige(st, "safety", "slice bounds", And(Ge(lo, IntC(0)), Le(lo, hi), Le(hi, lim)), i.Pos())
		}
		st.env[i] = &SliceV{arr: v.arr, off: Add(v.off, lo), len: Sub(hi, lo), cap: Sub(mx, lo), isnil: v.isnil}
	case *PtrV:
		at := i.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array)
		n := IntC(at.Len())
		if hi == nil {
			hi = n
		}
		x.oblige(st, "safety", "nil dereference (array)", Not(isNilPtr(v)), i.Pos())
		x.oblige(st, "safety", "slice bounds", And(Ge(lo, IntC(0)), Le(lo, hi), Le(hi, n)), i.Pos())
		if len(v.alts) != 1 {
			panic(unsup("slice of alternative arrays"))
		}
		st.env[i] = &SliceV{arr: v.alts[0].loc, off: lo, len: Sub(hi, lo), cap: Sub(n, lo), isnil: False}
	default:
		panic(unsup("slice of %T", v))
	}
}

func (x *Exec) unop(fr *Frame, st *State, i *ssa.UnOp) Value {
	switch i.Op {
	case token.MUL:
		return x.load(st, x.ptr(fr, st, i.X), i.Pos(), "load")
	case token.NOT:
		return Not(x.term(fr, st, i.X))
	case token.SUB:
		t := x.term(fr, st, i.X)
		return Neg(t)
	case token.XOR:
		t := x.term(fr, st, i.X)
		if t.Sort.K == KBV {
			return BVNot(t)
		}
		if isUnsigned(i.X.Type()) {
			panic(unsup("^ on uint64"))
		}
		return Sub(IntC(-1), t)
	case token.ARROW:
		return x.recv(fr, st, i)
	}
	panic(unsup("unop %s", i.Op))
}

func shiftTable(w int, n *Term, f func(k int64) *Term, over *Term) *Term {
	r := over
	for k := w - 1; k >= 0; k-- {
		r = Ite(Eq(n, IntC(int64(k))), f(int64(k)), r)
	}
	return r
}

func (x *Exec) binop(st *State, op token.Token, av, bv Value, at, bt types.Type, pos token.Pos) Value {
	switch op {
	case token.EQL:
		return x.eqVal(st, av, bv)
	case token.NEQ:
		return Not(x.eqVal(st, av, bv))
	}
	a, ok1 := av.(*Term)
	b, ok2 := bv.(*Term)
	if !ok1 || !ok2 {
		panic(unsup("binop %s on %T %T", op, av, bv))
	}
	if a.Sort == SStr {
		switch op {
		case token.ADD:
			return Concat(a, b)
		case token.LSS, token.GTR, token.LEQ, token.GEQ:
			if a.Op == "lit" && b.Op == "lit" {
				switch op {
				case token.LSS:
					return BoolC(a.Str < b.Str)
				case token.GTR:
					return BoolC(a.Str > b.Str)
				case token.LEQ:
					return BoolC(a.Str <= b.Str)
				}
				return BoolC(a.Str >= b.Str)
			}
			switch op {
			case token.LSS:
				return UF("str<", SBool, a, b)
			case token.GTR:
				return UF("str<", SBool, b, a)
			case token.LEQ:
				return Not(UF("str<", SBool, b, a))
			}
			return Not(UF("str<", SBool, a, b))
		}
	}
	uns := isUnsigned(at)
	lt := func(p, q *Term) *Term {
		if p.Sort.K == KBV && uns {
			return ULt(p, q)
		}
		return SLt(p, q)
	}
	switch op {
	case token.ADD:
		r := Add(a, b)
		if uns && a.Sort.K == KInt {
			return wrap64(r)
		}
		return r
	case token.SUB:
		r := Sub(a, b)
		if uns && a.Sort.K == KInt {
			return wrap64(r)
		}
		return r
	case token.MUL:
		return Mul(a, b)
	case token.LSS:
		return lt(a, b)
	case token.GTR:
		return lt(b, a)
	case token.LEQ:
		return Not(lt(b, a))
	case token.GEQ:
		return Not(lt(a, b))
	case token.QUO:
		if a.Sort.K == KReal {
			return RDiv(a, b)
		}
		x.oblige(st, "safety", "division by zero", Neq(b, NumC(b.Sort, 0)), pos)
		if a.Sort.K == KBV {
			return BVDiv(a, b, !uns)
		}
		return TDiv(a, b)
	case token.REM:
		x.oblige(st, "safety", "division by zero", Neq(b, NumC(b.Sort, 0)), pos)
		if a.Sort.K == KBV {
			return BVRem(a, b, !uns)
		}
		return TRem(a, b)
	case token.AND:
		if a.Sort.K == KBool {
			return And(a, b)
		}
		if a.Sort.K == KBV {
			return BVAnd(a, b)
		}
		return intAnd(a, b)
	case token.OR:
		if a.Sort.K == KBool {
			return Or(a, b)
		}
		if a.Sort.K == KBV {
			return BVOr(a, b)
		}
		return intOr(a, b)
	case token.XOR:
		if a.Sort.K == KBV {
			return BVXor(a, b)
		}
		if a.Sort.K == KBool {
			return Not(Eq(a, b))
		}
		return intXor(a, b)
	case token.AND_NOT:
		if a.Sort.K == KBV {
			return BVAnd(a, BVNot(b))
		}
		return Sub(a, intAnd(a, b))
	case token.SHL, token.SHR:
		n := x.toInt(b, bt)
		if !isUnsigned(bt) {
			x.oblige(st, "safety", "negative shift", Ge(n, IntC(0)), pos)
		}
		return x.shift(op == token.SHL, a, n, uns)
	}
	panic(unsup("binop %s", op))
}
func wrap64(r *Term) *Term {
	return IMod(r, IntB(new(big.Int).Lsh(big.NewInt(1), 64)))
}

func (x *Exec) shift(left bool, a, n *Term, uns bool) *Term {
	if n.Op == "ite" && iteConstLeaves(n, 10) {
		return Ite(n.Args[0], x.shift(left, a, n.Args[1], uns), x.shift(left, a, n.Args[2], uns))
	}
	c, cok := n.Int64()
	if a.Sort.K == KBV {
		w := a.Sort.W
		one := func(k int64) *Term {
			if k >= int64(w) {
				if !left && !uns {
					k = int64(w) - 1
				} else {
					return BVC(w, 0)
				}
			}
			if k < 0 {
				return BVC(w, 0)
			}
			kk := BVC(w, k)
			if left {
				return Shl(a, kk)
			}
			if uns {
				return LShr(a, kk)
			}
			return AShr(a, kk)
		}
		if cok {
			return one(c)
		}
		if w == 8 || a.IsNum() {
			return shiftTable(w, n, one, one(int64(w)))
		}
		nb := Int2BV(w, n)
		var r *Term
		if left {
			r = Shl(a, nb)
		} else if uns {
			r = LShr(a, nb)
		} else {
			r = AShr(a, nb)
		}
		if _, hi, ok := bounds(n, 5); ok && hi.Cmp(big.NewInt(int64(w))) < 0 {
			return r
		}
		return Ite(Lt(n, IntC(int64(w))), r, one(int64(w)))
	}
	p2 := func(k int64) *Term { return IntB(new(big.Int).Lsh(big.NewInt(1), uint(k))) }
	if cok {
		if c < 0 || c > 200 {
			return IntC(0)
		}
		if left {
			return Mul(a, p2(c))
		}
		return IDiv(a, p2(c))
	}
	w := 64
	if _, hi, ok := bounds(n, 6); ok && hi.IsInt64() && hi.Int64() < 64 {
		w = int(hi.Int64()) + 1
	}
	return shiftTable(w, n, func(k int64) *Term {
		if left {
			return Mul(a, p2(k))
		}
		return IDiv(a, p2(k))
	}, IntC(0))
}

// bit operations on mathematical integers (two's complement semantics)
func intAnd(a, b *Term) *Term {
	if a.IsNum() {
		a, b = b, a
	}
	if a.IsNum() && b.IsNum() {
		return IntB(new(big.Int).And(a.Num, b.Num))
	}
	if b.IsNum() {
		if b.Num.Sign() < 0 {
			m := new(big.Int).Not(b.Num)
			return Sub(a, intAnd(a, IntB(m)))
		}
		if a.Op == "bv2nat" {
			v := a.Args[0]
			return BV2Nat(BVAnd(v, BVB(v.Sort.W, b.Num)))
		}
		r := IntC(0)
		m := b.Num
		for i := 0; i < m.BitLen(); {
			if m.Bit(i) == 0 {
				i++
				continue
			}
			j := i
			for j < m.BitLen() && m.Bit(j) == 1 {
				j++
			}
			// bits i..j-1
			hi := IMod(a, IntB(new(big.Int).Lsh(big.NewInt(1), uint(j))))
			if i > 0 {
				hi = Sub(hi, IMod(a, IntB(new(big.Int).Lsh(big.NewInt(1), uint(i)))))
			}
			r = Add(r, hi)
			i = j
		}
		return r
	}
	if a.Op == "bv2nat" && b.Op == "bv2nat" {
		w := a.Args[0].Sort.W
		if b.Args[0].Sort.W > w {
			w = b.Args[0].Sort.W
		}
		return BV2Nat(BVAnd(ZExt(a.Args[0], w), ZExt(b.Args[0], w)))
	}
	if b.Op == "ite" && iteConstLeaves(b, 12) {
		return Ite(b.Args[0], intAnd(a, b.Args[1]), intAnd(a, b.Args[2]))
	}
	if a.Op == "ite" && iteConstLeaves(a, 12) {
		return Ite(a.Args[0], intAnd(a.Args[1], b), intAnd(a.Args[2], b))
	}
	return UF("int.and", SInt, a, b)
}
func lowZeros(t *Term) int {
	switch t.Op {
	case "const":
		if t.Num.Sign() == 0 {
			return 64
		}
		return int(t.Num.TrailingZeroBits())
	case "*":
		return lowZeros(t.Args[0])
	case "+":
		m := 64
		for _, a := range t.Args {
			if z := lowZeros(a); z < m {
				m = z
			}
		}
		return m
	case "ite":
		a, b := lowZeros(t.Args[1]), lowZeros(t.Args[2])
		if b < a {
			return b
		}
		return a
	case "bv2nat":
		x := t.Args[0]
		if x.Op == "bvshl" && x.Args[1].IsNum() {
			return int(x.Args[1].Num.Int64())
		}
	}
	return 0
}
func intOr(a, b *Term) *Term {
	if a.IsNum() && b.IsNum() {
		return IntB(new(big.Int).Or(a.Num, b.Num))
	}
	if a.IsNum() && a.Num.Sign() == 0 {
		return b
	}
	if b.IsNum() && b.Num.Sign() == 0 {
		return a
	}
	for k := 0; k < 2; k++ {
		if lo, hi, ok := bounds(a, 8); ok && lo.Sign() >= 0 && hi.BitLen() <= lowZeros(b) {
			return Add(a, b)
		}
		a, b = b, a
	}
	if b.Op == "ite" {
		return Ite(b.Args[0], intOr(a, b.Args[1]), intOr(a, b.Args[2]))
	}
	if a.Op == "ite" {
		return Ite(a.Args[0], intOr(a.Args[1], b), intOr(a.Args[2], b))
	}
	if b.IsNum() && b.Num.Sign() > 0 {
		return Add(a, Sub(b, intAnd(a, b)))
	}
	if a.IsNum() && a.Num.Sign() > 0 {
		return Add(b, Sub(a, intAnd(b, a)))
	}
	if a.Op == "bv2nat" && b.Op == "bv2nat" {
		w := a.Args[0].Sort.W
		if b.Args[0].Sort.W > w {
			w = b.Args[0].Sort.W
		}
		return BV2Nat(BVOr(ZExt(a.Args[0], w), ZExt(b.Args[0], w)))
	}
	return UF("int.or", SInt, a, b)
}
func intXor(a, b *Term) *Term {
	if a.IsNum() && b.IsNum() {
		return IntB(new(big.Int).Xor(a.Num, b.Num))
	}
	return Sub(Add(a, b), Mul(IntC(2), intAnd(a, b)))
}

func (x *Exec) convert(st *State, v Value, from, to types.Type) Value {
	fs, ts := sortOf(from), sortOf(to)
	if fs != nil && ts != nil {
		t := v.(*Term)
		switch {
		case fs.K == KStr && ts.K == KStr:
			return t
		case ts.K == KStr: // string(rune)
			n := x.toInt(t, from)
			if c, ok := n.Int64(); ok {
				return StrC(string(rune(c)))
			}
			return UF("str.fromRune", SStr, n)
		case (fs.K == KInt || fs.K == KBV) && ts.K == KBV:
			return Int2BV(ts.W, x.toInt(t, from))
		case (fs.K == KInt || fs.K == KBV) && ts.K == KInt:
			n := x.toInt(t, from)
			if isUnsigned(to) && !isUnsigned(from) {
				return wrap64(n)
			}
			return n
		case (fs.K == KInt || fs.K == KBV) && ts.K == KReal:
			return ToReal(x.toInt(t, from))
		case fs.K == KReal && ts.K == KReal:
			x.assumptions["floating point treated as exact real arithmetic"] = true
			return t
		case fs.K == KReal:
			n := Ite(Not(Lt(t, RealC(new(big.Rat)))), Floor(t), Neg(Floor(Neg(t))))
			if ts.K == KInt {
				return n
			}
			return Int2BV(ts.W, n)
		}
	}
	if fs == SStr {
		if sl, ok := to.Underlying().(*types.Slice); ok {
			eb := sl.Elem().Underlying().(*types.Basic)
			t := v.(*Term)
			if eb.Kind() == types.Byte {
				o := newObj("bytes", to)
				st.mem[o] = bytesOf(t)
				n := StrLen(t)
				return &SliceV{arr: &Loc{obj: o}, off: IntC(0), len: n, cap: n, isnil: False}
			}
			if t.Op == "lit" {
				o := newObj("runes", to)
				var cs []Value
				for _, r := range t.Str {
					cs = append(cs, BVC(32, int64(r)))
				}
				st.mem[o] = &CellSeq{cs}
				n := IntC(int64(len(cs)))
				return &SliceV{arr: &Loc{obj: o}, off: IntC(0), len: n, cap: n, isnil: False}
			}
			n := UF("str.runes", SInt, t)
			varRange["str.runes"] = [2]*big.Int{big.NewInt(0), maxLen}
			o := newObj("runes", to)
			st.mem[o] = &FnSeq{n: n, at: func(i *Term) Value { return UF("str.rune", SBV(32), t, i) }, name: "runes"}
			return &SliceV{arr: &Loc{obj: o}, off: IntC(0), len: n, cap: n, isnil: False}
		}
	}
	if ts == SStr {
		if sv, ok := v.(*SliceV); ok {
			return x.bytesToStr(st, sv)
		}
	}
	if types.Identical(from.Underlying(), to.Underlying()) {
		return v
	}
	panic(unsup("convert %s -> %s", from, to))
}

func bytesOf(t *Term) Seq {
	if t.Op == "lit" {
		cs := make([]Value, len(t.Str))
		for i := range cs {
			cs[i] = BVC(8, int64(t.Str[i]))
		}
		return &CellSeq{cs}
	}
	return &FnSeq{n: StrLen(t), at: func(i *Term) Value { return strIndex(t, i) }, name: "bytes", src: t}
}
func (x *Exec) bytesToStr(st *State, sv *SliceV) *Term {
	q := x.viewSeq(st, sv)
	return x.seqToStr(q)
}
func (x *Exec) seqToStr(q Seq) *Term {
	switch s := q.(type) {
	case *FnSeq:
		if s.src != nil {
			return s.src
		}
		t := UF("str.ofseq:"+s.name, SStr, s.n)
		return t
	case *SegSeq:
		var ps []*Term
		for _, g := range s.segs {
			if g.g != True || g.k != nil || g.acc != nil {
				return x.freshStrOf(q)
			}
			if g.ref == nil {
				n, ok := force(g.v).(*Term).Int64()
				if !ok {
					return x.freshStrOf(q)
				}
				ps = append(ps, StrC(string([]byte{byte(n)})))
				continue
			}
			f, ok := g.ref.(*FnSeq)
			if !ok || f.src == nil || f.n != g.lenT {
				return x.freshStrOf(q)
			}
			ps = append(ps, f.src)
		}
		return Concat(ps...)
	case *CellSeq:
		bs := make([]byte, 0, len(s.cells))
		for _, c := range s.cells {
			n, ok := force(c).(*Term).Int64()
			if !ok {
				return x.freshStrOf(q)
			}
			bs = append(bs, byte(n))
		}
		return StrC(string(bs))
	case *IteSeq:
		return Ite(s.c, x.seqToStr(s.a), x.seqToStr(s.b))
	}
	return x.freshStrOf(q)
}

// freshStrOf: a string of which only the bytes are known
func (x *Exec) freshStrOf(q Seq) *Term {
	t := Fresh("str.ofbytes", SStr)
	if x.strSeqs == nil {
		x.strSeqs = map[*Term]Seq{}
	}
	x.strSeqs[t] = q
	return t
}

func strIndex(s, i *Term) *Term {
	if n, ok := i.Int64(); ok {
		pos := int64(0)
		for _, p := range pieces(s) {
			if p.Op != "lit" {
				break
			}
			if n-pos < int64(len(p.Str)) && n >= pos {
				return BVC(8, int64(p.Str[n-pos]))
			}
			pos += int64(len(p.Str))
		}
	}
	return UF("str.at", SBV(8), s, i)
}
func strSub(s, lo, hi *Term) *Term {
	if lo == IntC(0) && hi == StrLen(s) {
		return s
	}
	l, ok1 := lo.Int64()
	if ok1 {
		// drop l bytes of literal prefix
		ps := append([]*Term{}, pieces(s)...)
		k := int64(0)
		for len(ps) > 0 && ps[0].Op == "lit" && k < l {
			n := int64(len(ps[0].Str))
			if k+n <= l {
				k += n
				ps = ps[1:]
			} else {
				ps[0] = StrC(ps[0].Str[l-k:])
				k = l
			}
		}
		if k == l {
			rest := Concat(ps...)
			d := Sub(StrLen(s), hi)
			if d == IntC(0) {
				return rest
			}
			if n, ok := d.Int64(); ok && n > 0 {
				// drop n literal bytes at the end
				ps := append([]*Term{}, pieces(rest)...)
				if len(ps) > 0 && ps[len(ps)-1].Op == "lit" && int64(len(ps[len(ps)-1].Str)) >= n {
					z := ps[len(ps)-1]
					ps[len(ps)-1] = StrC(z.Str[:int64(len(z.Str))-n])
					return Concat(ps...)
				}
			}
			if h, ok := hi.Int64(); ok {
				if len(ps) > 0 && ps[0].Op == "lit" && h-l <= int64(len(ps[0].Str)) && h >= l {
					return StrC(ps[0].Str[:h-l])
				}
				if len(ps) == 0 && h == l {
					return StrC("")
				}
			}
		}
	}
	if s.Op == "ite" {
		return Ite(s.Args[0], strSub(s.Args[1], lo, hi), strSub(s.Args[2], lo, hi))
	}
	return UF("str.sub", SStr, s, lo, hi)
}

func (x *Exec) eqVal(st *State, a, b Value) *Term {
	a, b = force(a), force(b)
	switch va := a.(type) {
	case *Term:
		if vb, ok := b.(*Term); ok {
			return Eq(va, vb)
		}
	case *PtrV:
		vb, ok := b.(*PtrV)
		if !ok {
			break
		}
		var cs []*Term
		for _, p := range va.alts {
			for _, q := range vb.alts {
				if (p.loc == nil) != (q.loc == nil) {
					continue
				}
				if x.deep > 0 && p.loc != nil && locKey(p.loc) != locKey(q.loc) {
					if g := And(p.g, q.g); g != False {
						cs = append(cs, And(g, x.deepStruct(st, p.loc, q.loc)))
					}
					continue
				}
				if p.loc == nil || locKey(p.loc) == locKey(q.loc) {
					cs = append(cs, And(p.g, q.g))
				} else if p.loc.obj == q.loc.obj && len(p.loc.path) == len(q.loc.path) {
					// element pointers of one array
					e := []*Term{}
					for k := range p.loc.path {
						u, w := p.loc.path[k], q.loc.path[k]
						if u.idx != nil && w.idx != nil {
							e = append(e, Eq(u.idx, w.idx))
						} else if u.field != w.field {
							e = append(e, False)
						}
					}
					cs = append(cs, And(append(e, p.g, q.g)...))
				}
			}
		}
		return Or(cs...)
	case *MapRef:
		if vb, ok := b.(*MapRef); ok {
			if x.deep > 0 {
				return x.deepMap(st, va, vb)
			}
			return x.eqVal(st, va.p, vb.p)
		}
	case *SliceV:
		vb, ok := b.(*SliceV)
		if ok && x.deep > 0 {
			if va.arr == nil {
				return Eq(vb.len, IntC(0))
			}
			if vb.arr == nil {
				return Eq(va.len, IntC(0))
			}
			return x.seqEq(st, va, vb)
		}
		if ok && vb.arr == nil {
			return va.isnil
		}
		if ok && va.arr == nil {
			return vb.isnil
		}
	case *StructV:
		vb, ok := b.(*StructV)
		if ok {
			var cs []*Term
			for i := range va.f {
				cs = append(cs, x.eqVal(st, va.f[i], vb.f[i]))
			}
			return And(cs...)
		}
	case *IfaceV:
		vb, ok := b.(*IfaceV)
		if !ok {
			break
		}
		var cs []*Term
		for _, p := range va.alts {
			for _, q := range vb.alts {
				switch {
				case p.typ == nil && q.typ == nil && p.opq == nil && q.opq == nil:
					cs = append(cs, And(p.g, q.g))
				case p.opq != nil && q.opq != nil:
					cs = append(cs, And(p.g, q.g, Eq(p.opq, q.opq)))
				case p.typ != nil && q.typ != nil && types.Identical(p.typ, q.typ):
					cs = append(cs, And(p.g, q.g, x.eqVal(st, p.val, q.val)))
				}
			}
		}
		return Or(cs...)
	case *FuncAlts:
		if vb, ok := b.(*FuncV); ok && vb.name == "nil" {
			var cs []*Term
			for _, f := range va.alts {
				if f.f.name == "nil" && f.f.fn == nil {
					cs = append(cs, f.g)
				}
			}
			return Or(cs...)
		}
		panic(unsup("comparison of functions"))
	case *FuncV:
		if _, ok := b.(*FuncAlts); ok {
			return x.eqVal(st, b, a)
		}
		if vb, ok := b.(*FuncV); ok {
			if va.name == "nil" && vb.name == "nil" {
				return True
			}
			if (va.name == "nil") != (vb.name == "nil") && (va.fn != nil || vb.fn != nil) {
				return False
			}
		}
		if va.name == "nil" || b.(*FuncV).name == "nil" {
			return False
		}
	case *OpaqueV:
		if vb, ok := b.(*OpaqueV); ok {
			if va.id == nil && vb.id == nil && va.name == vb.name {
				return True
			}
			if (va.id == nil) != (vb.id == nil) {
				o := va
				if o.id == nil {
					o = vb
				}
				return UF("opq.isnil", SBool, o.id)
			}
			if va.id != nil {
				return Eq(va.id, vb.id)
			}
		}
		if vb, ok := b.(*FuncV); ok && vb.name == "nil" && va.id != nil {
			return UF("opq.isnil", SBool, va.id)
		}
	case *CellSeq:
		if vb, ok := b.(*CellSeq); ok && len(va.cells) == len(vb.cells) {
			var cs []*Term
			for i := range va.cells {
				cs = append(cs, x.eqVal(st, va.cells[i], vb.cells[i]))
			}
			return And(cs...)
		}
	}
	_, pa := a.(*Poison)
	_, pb := b.(*Poison)
	if pa || pb { // a value nothing is known about
		return x.fresh("poisoneq", SBool)
	}
	panic(unsup("comparison of %T and %T", a, b))
}

// ---------------------------------------------------------------- maps

func (x *Exec) mapContent(st *State, m *MapRef) *MapC {
	var acc *MapC
	for _, a := range m.p.alts {
		if a.loc == nil {
			continue
		}
		c, ok := x.loadLoc(st, a.loc).(*MapC)
		if !ok {
			panic(unsup("map content"))
		}
		if acc == nil {
			acc = c
		} else {
			v := x.mergeVal(a.g, c, acc)
			mc, ok := v.(*MapC)
			if !ok {
				panic(unsup("alternative maps"))
			}
			acc = mc
		}
	}
	return acc
}
func (x *Exec) mapStore(st *State, m *MapRef, e MapEntry) {
	n := 0
	for _, a := range m.p.alts {
		if a.loc != nil {
			n++
		}
	}
	for _, a := range m.p.alts {
		if a.loc == nil {
			continue
		}
		c := x.loadLoc(st, a.loc).(*MapC)
		ne := e
		if n > 1 {
			ne.g = And(a.g, e.g)
		}
		ents := c.entries
		// drop earlier entries for the same key
		var keep []MapEntry
		for _, o := range ents {
			if ne.g == True && valKey(o.k) == valKey(ne.k) {
				continue
			}
			keep = append(keep, o)
		}
		nc := &MapC{base: c.base, typ: c.typ, entries: append(append([]MapEntry{}, keep...), ne)}
		x.storeLoc(st, a.loc, True, nc)
	}
}
func (x *Exec) keyArgs(v Value) []*Term {
	switch k := force(v).(type) {
	case *Term:
		return []*Term{k}
	case *StructV:
		var out []*Term
		for _, f := range k.f {
			out = append(out, x.keyArgs(f)...)
		}
		return out
	}
	panic(unsup("map key %T", v))
}
func (x *Exec) mapGet(st *State, c *MapC, key Value, vt types.Type) (Value, *Term) {
	var v Value = x.zero(vt)
	has := False
	if c == nil {
		return v, has
	}
	if c.base != nil {
		args := append(append([]*Term{}, c.base.args...), x.keyArgs(key)...)
		has = UF("has:"+c.base.name, SBool, args...)
		v = x.mergeVal(has, x.input(c.base.name+"{}", args, vt, false), v)
	}
	for _, e := range c.entries {
		cond := And(e.g, x.eqVal(st, key, e.k))
		if cond == False {
			continue
		}
		if e.del {
			v = x.mergeVal(cond, x.zero(vt), v)
			has = And(Not(cond), has)
		} else {
			v = x.resolve(st, st, st, x.mergeVal(cond, e.v, v))
			has = Or(cond, has)
		}
	}
	return x.resolve(st, st, st, v), has
}
func (x *Exec) lookup(fr *Frame, st *State, i *ssa.Lookup) {
	if s, ok := x.get(fr, st, i.X).(*Term); ok {
		ix := x.toInt(x.term(fr, st, i.Index), i.Index.Type())
		x.boundsOb(st, ix, StrLen(s), i.Pos(), "string index")
		st.env[i] = strIndex(s, ix)
		return
	}
	m := x.get(fr, st, i.X).(*MapRef)
	mt := i.X.Type().Underlying().(*types.Map)
	v, has := x.mapGet(st, x.mapContent(st, m), x.get(fr, st, i.Index), mt.Elem())
	nn := Not(isNilPtr(m.p))
	if nn != True {
		v = x.resolve(st, st, st, x.mergeVal(nn, v, x.zero(mt.Elem())))
		has = And(nn, has)
	}
	if i.CommaOk {
		st.env[i] = TupleV{v, has}
	} else {
		st.env[i] = v
	}
}

func (x *Exec) next(fr *Frame, st *State, i *ssa.Next) {
	it, ok := x.get(fr, st, i.Iter).(*iterV)
	if !ok {
		panic(unsup("next"))
	}
	pos := x.content(st, it.obj).(*Term)
	if i.IsString {
		s := it.over.(*Term)
		if n, ok := pos.Int64(); ok && s.Op == "lit" {
			if int(n) >= len(s.Str) {
				st.env[i] = TupleV{False, IntC(0), BVC(32, 0)}
				return
			}
			r, w := utf8.DecodeRuneInString(s.Str[n:])
			st.env[i] = TupleV{True, pos, BVC(32, int64(r))}
			st.mem[it.obj] = IntC(n + int64(w))
			return
		}
		ok := Lt(pos, StrLen(s))
		w := UF("str.runelen", SInt, s, pos)
		varRange["str.runelen"] = [2]*big.Int{big.NewInt(1), big.NewInt(4)}
		st.env[i] = TupleV{ok, pos, UF("str.runeAt", SBV(32), s, pos)}
		st.mem[it.obj] = Ite(ok, Add(pos, w), pos)
		return
	}
	m := it.over.(*MapRef)
	mt := it.snap
	var kt, vt types.Type
	if mt == nil {
		t := i.Type().(*types.Tuple)
		st.env[i] = TupleV{False, x.zeroOrNil(t.At(1).Type()), x.zeroOrNil(t.At(2).Type())}
		return
	}
	kt, vt = mt.typ.Key(), mt.typ.Elem()
	_ = m
	x.assumptions["map iteration visits keys in an arbitrary fixed order"] = true
	if mt.base == nil {
		conc := true
		for _, e := range mt.entries {
			if e.g != True || e.del {
				conc = false
			}
		}
		if n, ok := pos.Int64(); ok && conc {
			if int(n) >= len(mt.entries) {
				st.env[i] = TupleV{False, x.zero(kt), x.zero(vt)}
				return
			}
			e := mt.entries[n]
			v, _ := x.mapGet(st, x.mapContent(st, m), e.k, vt)
			st.env[i] = TupleV{True, e.k, v}
			st.mem[it.obj] = IntC(n + 1)
			return
		}
	}
	if mt.base != nil && len(mt.entries) == 0 {
		args := append(append([]*Term{}, mt.base.args...), pos)
		n := UF("maplen:"+mt.base.name, SInt, mt.base.args...)
		varRange["maplen:"+mt.base.name] = [2]*big.Int{big.NewInt(0), maxLen}
		n = Ite(isNilPtr(m.p), IntC(0), n)
		okT := Lt(pos, n)
		k := x.input("mapkey:"+mt.base.name, args, kt, false)
		v, has := x.mapGet(st, x.mapContent(st, m), k, vt)
		x.addFact(Implies(okT, has), nil)
		st.env[i] = TupleV{okT, k, v}
		st.mem[it.obj] = Add(pos, IntC(1)) // the position past the end is never observed
		return
	}
	panic(unsup("range over map of unknown shape"))
}
func (x *Exec) zeroOrNil(t types.Type) Value {
	if t == nil {
		return nil
	}
	if b, ok := t.(*types.Basic); ok && b.Kind() == types.Invalid {
		return nil
	}
	return x.zero(t)
}

func (x *Exec) typeAssert(fr *Frame, st *State, i *ssa.TypeAssert) {
	v, ok := x.get(fr, st, i.X).(*IfaceV)
	if !ok {
		panic(unsup("type assert on %T", x.get(fr, st, i.X)))
	}
	_, toIface := i.AssertedType.Underlying().(*types.Interface)
	okT := False
	var res Value
	for _, a := range v.alts {
		if a.typ == nil && a.opq == nil {
			continue
		}
		if a.opq != nil {
			c := UF("dyn:"+i.AssertedType.String(), SBool, a.opq)
			okT = Or(okT, And(a.g, c))
			var r Value
			if toIface {
				r = &IfaceV{alts: []IfaceAlt{{g: True, opq: a.opq}}}
			} else {
				r = x.input("dynval:"+i.AssertedType.String(), []*Term{a.opq}, i.AssertedType, true)
			}
			if res == nil {
				res = r
			} else {
				res = x.mergeVal(a.g, r, res)
			}
			continue
		}
		if toIface {
			if types.Implements(a.typ, i.AssertedType.Underlying().(*types.Interface)) {
				okT = Or(okT, a.g)
				r := &IfaceV{alts: []IfaceAlt{{g: True, typ: a.typ, val: a.val}}}
				if res == nil {
					res = r
				} else {
					res = x.mergeVal(a.g, r, res)
				}
			}
			continue
		}
		if types.Identical(a.typ, i.AssertedType) {
			okT = Or(okT, a.g)
			if res == nil {
				res = a.val
			} else {
				res = x.mergeVal(a.g, a.val, res)
			}
		}
	}
	z := x.zero(i.AssertedType)
	if res == nil {
		res = z
	}
	if i.CommaOk {
		st.env[i] = TupleV{x.resolve(st, st, st, x.mergeVal(okT, res, z)), okT}
		return
	}
	x.oblige(st, "safety", "type assertion", okT, i.Pos())
	st.env[i] = res
}

// deep comparison (vDeepEq): what pointers, slices and maps lead to, as proto.Equal compares messages (nil and empty
// lists alike, bookkeeping fields of generated message types left out)
func (x *Exec) deepStruct(st *State, a, b *Loc) *Term {
	va, vb := force(x.loadLoc(st, a)), force(x.loadLoc(st, b))
	sa, ok1 := va.(*StructV)
	sb, ok2 := vb.(*StructV)
	if !ok1 || !ok2 {
		return x.eqVal(st, va, vb)
	}
	t, ok := typeAt(a.obj.typ, a.path).Underlying().(*types.Struct)
	if !ok || t.NumFields() != len(sa.f) || len(sa.f) != len(sb.f) {
		panic(unsup("deep comparison of %s", typeAt(a.obj.typ, a.path)))
	}
	msg := hasMethod(types.NewPointer(typeAt(a.obj.typ, a.path)), "ProtoReflect")
	var cs []*Term
	for i := range sa.f {
		if f := t.Field(i); msg && !f.Exported() {
			continue
		}
		c := x.eqVal(st, sa.f[i], sb.f[i])
		if os.Getenv("GOVC_DEBUG3") != "" && c != True {
			fmt.Fprintf(os.Stderr, "deepEq %s.%s: %.300s\n", typeAt(a.obj.typ, a.path), t.Field(i).Name(), c)
		}
		cs = append(cs, c)
	}
	return And(cs...)
}

func (x *Exec) deepMap(st *State, a, b *MapRef) *Term {
	get := func(m *MapRef) ([]MapEntry, bool) {
		if m.p == nil || len(m.p.alts) != 1 {
			return nil, false
		}
		if m.p.alts[0].loc == nil {
			return nil, true
		}
		c, ok := force(x.loadLoc(st, m.p.alts[0].loc)).(*MapC)
		if !ok || c.base != nil {
			return nil, false
		}
		for _, e := range c.entries {
			if e.del || e.g != True {
				return nil, false
			}
		}
		return c.entries, true
	}
	ea, ok1 := get(a)
	eb, ok2 := get(b)
	if !ok1 || !ok2 || len(ea) > 1 || len(eb) > 1 {
		panic(unsup("deep comparison of maps"))
	}
	if len(ea) != len(eb) {
		return False
	}
	if len(ea) == 0 {
		return True
	}
	return And(x.eqVal(st, ea[0].k, eb[0].k), x.eqVal(st, ea[0].v, eb[0].v))
}
