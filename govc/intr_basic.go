package main

import (
	"go/token"
	"math/big"

	"golang.org/x/tools/go/ssa"
)

func reg(names []string, f intrinsic) {
	for _, n := range names {
		intrinsics[n] = f
	}
}
func tm(v Value) *Term {
	t, ok := force(v).(*Term)
	if !ok {
		panic(unsup("scalar expected, got %T", v))
	}
	return t
}

func init() {
	reg([]string{"math.Ceil"}, func(x *Exec, fr *Frame, st *State, a []Value, c *ssa.CallCommon, pos token.Pos) Value {
		x.assumptions["floating point treated as exact real arithmetic"] = true
		return ToReal(Neg(Floor(Neg(tm(a[0])))))
	})
	reg([]string{"math.Floor"}, func(x *Exec, fr *Frame, st *State, a []Value, c *ssa.CallCommon, pos token.Pos) Value {
		x.assumptions["floating point treated as exact real arithmetic"] = true
		return ToReal(Floor(tm(a[0])))
	})
	reg([]string{"math.Abs"}, func(x *Exec, fr *Frame, st *State, a []Value, c *ssa.CallCommon, pos token.Pos) Value {
		t := tm(a[0])
		return Ite(Lt(t, RealC(new(big.Rat))), Neg(t), t)
	})
	reg([]string{"math.Round"}, func(x *Exec, fr *Frame, st *State, a []Value, c *ssa.CallCommon, pos token.Pos) Value {
		x.assumptions["floating point treated as exact real arithmetic"] = true
		t := tm(a[0])
		h := RealC(big.NewRat(1, 2))
		return ToReal(Ite(Lt(t, RealC(new(big.Rat))), Neg(Floor(Add(Neg(t), h))), Floor(Add(t, h))))
	})
	nop := func(x *Exec, fr *Frame, st *State, a []Value, c *ssa.CallCommon, pos token.Pos) Value { return nil }
	reg([]string{
		"(*sync.Mutex).Lock", "(*sync.Mutex).Unlock", "(*sync.RWMutex).Lock", "(*sync.RWMutex).Unlock", "(*sync.RWMutex).RLock", "(*sync.RWMutex).RUnlock",
	}, nop)
}
