package main

import (
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// Channels and goroutines. Every goroutine is verified on its own, as a sequential program: what a channel hands out and
// what is sent into it is given by the specification (vChan: a receive and a send function), an unknown channel delivers
// nothing but its closing. A `go` statement starts nothing; the specification runs the goroutine with vGo, up to the point
// where it waits for something that does not come (vPark).

type chanInfo struct{ recv, send *FuncV }

type spawned struct {
	fn    *ssa.Function
	binds []Value
	args  []Value
}

func (x *Exec) newChan(st *State, ci *chanInfo) *PtrV {
	o := newObj("chan", nil)
	st.mem[o] = False // closed?
	if x.chans == nil {
		x.chans = map[*Obj]*chanInfo{}
	}
	x.chans[o] = ci
	return ptrTo(o)
}

// waitsForEver: a goroutine the specification runs may; the function called must not
func (x *Exec) waitsForEver(st *State, pos token.Pos) {
	if len(x.parks) == 0 {
		x.oblige(st, "safety", "nothing is waited for in vain", False, pos)
		st.g = False
		return
	}
	x.park(st)
}

// chanObj: the one channel a value stands for
func (x *Exec) chanObj(st *State, v Value) *Obj {
	p, ok := force(v).(*PtrV)
	if !ok {
		panic(unsup("channel value %T", force(v)))
	}
	var o *Obj
	for _, a := range p.alts {
		if And(st.g, a.g) == False {
			continue
		}
		if a.loc == nil { // a nil channel blocks for ever
			st.g = And(st.g, Not(a.g))
			continue
		}
		if o != nil && o != a.loc.obj {
			panic(unsup("one of several channels"))
		}
		o = a.loc.obj
	}
	if st.g == False {
		return nil
	}
	return o
}

func (x *Exec) chanRecv(fr *Frame, st *State, ch Value, et types.Type, pos token.Pos) (Value, *Term) {
	g0 := st.g
	o := x.chanObj(st, ch)
	if o == nil {
		if st.g = g0; x.inSelect == 0 {
			x.waitsForEver(st, pos)
		}
		st.g = False
		return &Poison{why: "receive from nil channel", dead: true}, True
	}
	if ci := x.chans[o]; ci != nil && ci.recv != nil {
		r := x.callStatic(fr, st, ci.recv.fn, ci.recv.binds, nil, nil, pos)
		if st.g == False {
			return &Poison{why: "receive that blocks", dead: true}, True
		}
		tv := r.(TupleV)
		return tv[0], tv[1].(*Term)
	}
	// a channel of the code's own: nothing is ever sent into it (a send is refused), so it delivers only its closing
	closed, _ := x.content(st, o).(*Term)
	if closed == nil {
		panic(unsup("receive from a channel of unknown state"))
	}
	if x.inSelect == 0 && closed != True {
		if w := st.fork(Not(closed)); w.g != False {
			x.waitsForEver(w, pos)
		}
	}
	st.g = And(st.g, closed)
	if st.g == False {
		return &Poison{why: "receive that blocks", dead: true}, True
	}
	return x.zero(et), False
}

func (x *Exec) chanSend(fr *Frame, st *State, ch, v Value, pos token.Pos) {
	g0 := st.g
	o := x.chanObj(st, ch)
	if o == nil {
		if st.g = g0; x.inSelect == 0 {
			x.waitsForEver(st, pos)
		}
		st.g = False
		return
	}
	closed, _ := x.content(st, o).(*Term)
	if closed == nil {
		panic(unsup("send into a channel of unknown state"))
	}
	x.oblige(st, "safety", "send on closed channel", Not(closed), pos)
	ci := x.chans[o]
	if ci == nil || ci.send == nil {
		panic(unsup("send into a channel the specification does not know"))
	}
	x.callStatic(fr, st, ci.send.fn, ci.send.binds, []Value{v}, nil, pos)
}

func (x *Exec) chanClose(st *State, ch Value, pos token.Pos) {
	o := x.chanObj(st, ch)
	if o == nil {
		x.oblige(st, "safety", "close of nil channel", False, pos)
		return
	}
	closed, _ := x.content(st, o).(*Term)
	if closed == nil {
		panic(unsup("close of a channel of unknown state"))
	}
	x.oblige(st, "safety", "close of closed channel", Not(closed), pos)
	st.mem[o] = True
}

func (x *Exec) chanOp(fr *Frame, st *State, in ssa.Instruction) {
	switch i := in.(type) {
	case *ssa.MakeChan:
		st.env[i] = x.newChan(st, nil)
	case *ssa.Send:
		x.chanSend(fr, st, x.get(fr, st, i.Chan), x.phiGetF(fr, st, i.X), i.Pos())
	case *ssa.Select:
		n := len(i.States)
		lo := 0
		if !i.Blocking {
			lo = -1
		}
		idx := x.fresh("select", SInt)
		x.addFact(And(Ge(idx, IntC(int64(lo))), Lt(idx, IntC(int64(n)))), nil)
		var acc *State
		st0 := st
		x.inSelect++
		nparks := 0
		if len(x.parks) > 0 {
			nparks = len(x.parks[len(x.parks)-1])
		}
		for k := lo; k < n; k++ {
			s := st0.fork(Eq(idx, IntC(int64(k))))
			if s.g == False {
				continue
			}
			tv := TupleV{idx, False}
			for j, c := range i.States {
				if c.Dir != types.RecvOnly {
					continue
				}
				var v Value = &Poison{why: "select case not taken", dead: true}
				if j == k {
					et := c.Chan.Type().Underlying().(*types.Chan).Elem()
					w, ok := x.chanRecv(fr, s, x.get(fr, s, c.Chan), et, i.Pos())
					v, tv[1] = w, ok
				}
				tv = append(tv, v)
			}
			if k >= 0 && i.States[k].Dir == types.SendOnly {
				x.chanSend(fr, s, x.get(fr, s, i.States[k].Chan), x.phiGetF(fr, s, i.States[k].Send), i.Pos())
			}
			if s.g == False {
				continue
			}
			if g0 := And(st0.g, Eq(idx, IntC(int64(k)))); len(x.parks) > 0 && s.g != g0 {
				panic(unsup("a select case of which it is open whether it is ready"))
			}
			s.env[i] = tv
			acc = x.mergeStates(acc, s)
		}
		x.inSelect--
		if acc == nil {
			if len(x.parks) == 0 || len(x.parks[len(x.parks)-1]) == nparks { // nothing is ready
				x.waitsForEver(st, i.Pos())
			}
			st.g = False
			return
		}
		*st = *acc
	default:
		panic(unsup("channel operation in %s", fr.fn))
	}
}

func (x *Exec) recv(fr *Frame, st *State, i *ssa.UnOp) Value {
	v, ok := x.chanRecv(fr, st, x.get(fr, st, i.X), i.X.Type().Underlying().(*types.Chan).Elem(), i.Pos())
	if i.CommaOk {
		return TupleV{v, ok}
	}
	return v
}

func (x *Exec) goStmt(fr *Frame, st *State, i *ssa.Go) {
	if h, ok := x.hooks["go"]; ok {
		h(x, fr, st, i, x.callArgs(fr, st, &i.Call))
		return
	}
	if x.quiet > 0 {
		panic(unsup("go statement in a trial run"))
	}
	args := x.callArgs(fr, st, &i.Call)
	sp := spawned{args: args}
	if i.Call.IsInvoke() {
		panic(unsup("go with an interface method"))
	}
	if fn := i.Call.StaticCallee(); fn != nil {
		sp.fn = fn
		if f, ok := x.get(fr, st, i.Call.Value).(*FuncV); ok {
			sp.binds = f.binds
		}
	} else if f, ok := force(x.calleeVal(fr, st, &i.Call)).(*FuncV); ok && f.fn != nil {
		sp.fn, sp.binds = f.fn, f.binds
	} else {
		panic(unsup("go with an unknown function"))
	}
	x.assumptions["goroutines are verified one by one; they interfere only through the channels, the connection and the flags the specification describes"] = true
	x.spawned = append(x.spawned, sp)
	x.gcRoots = append(x.gcRoots, args...)
	x.gcRoots = append(x.gcRoots, sp.binds...)
}

// runParked runs f; the paths on which it waits for ever (vPark) go on after it
func (x *Exec) runParked(st *State, f func(s *State)) {
	env := st.env
	n := len(x.parks)
	x.parks = append(x.parks, nil)
	s := st.clone()
	f(s)
	ps := x.parks[n]
	x.parks = x.parks[:n]
	var acc *State
	for _, p := range append([]*State{s}, ps...) {
		if p.g == False {
			continue
		}
		p.env = map[ssa.Value]Value{}
		acc = x.mergeStates(acc, p)
	}
	if acc == nil {
		st.g = False
		return
	}
	*st = *acc
	st.env = env
}

func (x *Exec) park(st *State) {
	if n := len(x.parks); n > 0 {
		x.parks[n-1] = append(x.parks[n-1], st.clone())
	}
	st.g = False
}

func (x *Exec) chanSpec(fr *Frame, st *State, fn *ssa.Function, short string, args []Value, pos token.Pos) (Value, bool) {
	switch short {
	case "vChan":
		ci := &chanInfo{}
		if f, ok := force(args[0]).(*FuncV); ok && f.fn != nil {
			ci.recv = f
			x.gcRoots = append(x.gcRoots, f.binds...)
		}
		if f, ok := force(args[1]).(*FuncV); ok && f.fn != nil {
			ci.send = f
			x.gcRoots = append(x.gcRoots, f.binds...)
		}
		return x.newChan(st, ci), true
	case "vClosed":
		iv, ok := force(args[0]).(*IfaceV)
		if !ok || len(iv.alts) != 1 {
			panic(unsup("vClosed"))
		}
		c, ok := x.content(st, x.chanObj(st, iv.alts[0].val)).(*Term)
		if !ok {
			panic(unsup("vClosed"))
		}
		return c, true
	case "vStop": // the path ends here
		st.g = False
		return nil, true
	case "vPark": // the goroutine waits for ever
		x.park(st)
		return nil, true
	case "vNever": // this case of a select is not ready; a receive by itself waits for ever
		if x.inSelect > 0 {
			st.g = False
		} else {
			x.waitsForEver(st, pos)
			st.g = False
		}
		return nil, true
	case "vGos":
		return IntC(int64(len(x.spawned))), true
	case "vGo":
		k, ok := args[0].(*Term).Int64()
		if !ok || int(k) >= len(x.spawned) {
			panic(unsup("vGo: no such goroutine"))
		}
		sp := x.spawned[k]
		x.runParked(st, func(s *State) { x.callStatic(fr, s, sp.fn, sp.binds, sp.args, nil, pos) })
		return nil, true
	}
	return nil, false
}
