package main

import (
	"go/token"

	"golang.org/x/tools/go/ssa"
)

// freshRes: an unconstrained result of the callee's type
func freshRes(x *Exec, fr *Frame, st *State, a []Value, c *ssa.CallCommon, pos token.Pos) Value {
	rs := c.Signature().Results()
	switch rs.Len() {
	case 0:
		return nil
	case 1:
		return force(x.freshTyped("res", rs.At(0).Type(), false))
	}
	tv := make(TupleV, rs.Len())
	for i := range tv {
		tv[i] = force(x.freshTyped("res", rs.At(i).Type(), false))
	}
	return tv
}

func init() {
	reg([]string{"time.Now", "(time.Time).UnixNano", "math/rand.NewSource", "math/rand.New"}, freshRes)
	reg([]string{"(*math/rand.Rand).Intn", "math/rand.Intn"}, func(x *Exec, fr *Frame, st *State, a []Value, c *ssa.CallCommon, pos token.Pos) Value {
		n := tm(a[len(a)-1])
		x.oblige(st, "safety", "rand.Intn of a positive bound", Gt(n, IntC(0)), pos)
		x.assumptions["rand.Intn(n) returns an arbitrary number below n"] = true
		r := x.fresh("rand", SInt)
		x.assume(st, And(Ge(r, IntC(0)), Lt(r, n)))
		return r
	})
	reg([]string{"golang.org/x/exp/slices.Delete", "slices.Delete"}, func(x *Exec, fr *Frame, st *State, a []Value, c *ssa.CallCommon, pos token.Pos) Value {
		s, i, j := a[0].(*SliceV), tm(a[1]), tm(a[2])
		x.oblige(st, "safety", "slices.Delete range", And(Le(IntC(0), i), Le(i, j), Le(j, s.len)), pos)
		x.assumptions["slices.Delete(s, i, j) is append(s[:i], s[j:]...)"] = true
		p := &SliceV{arr: s.arr, off: s.off, len: i, cap: s.cap, isnil: s.isnil}
		q := &SliceV{arr: s.arr, off: Add(s.off, j), len: Sub(s.len, j), cap: Sub(s.cap, j), isnil: s.isnil}
		return x.appendOp(st, p, q, c.Args[0].Type())
	})
}
