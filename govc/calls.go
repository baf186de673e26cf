package main

import (
	"sync"
	"crypto/sha256"
	"fmt"
	"go/token"
	"go/types"
	"math/big"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func (x *Exec) callArgs(fr *Frame, st *State, c *ssa.CallCommon) []Value {
	var out []Value
	for _, a := range c.Args {
		out = append(out, x.get(fr, st, a))
	}
	return out
}
func (x *Exec) calleeVal(fr *Frame, st *State, c *ssa.CallCommon) Value {
	return x.get(fr, st, c.Value)
}

func (x *Exec) call(fr *Frame, st *State, i *ssa.Call) Value {
	args := x.callArgs(fr, st, &i.Call)
	var fv Value
	if i.Call.IsInvoke() {
		fv = x.get(fr, st, i.Call.Value)
	} else if i.Call.StaticCallee() == nil {
		fv = x.calleeVal(fr, st, &i.Call)
	} else if _, ok := i.Call.Value.(*ssa.MakeClosure); ok {
		fv = x.get(fr, st, i.Call.Value)
	}
	x.curCall = i
	return x.invoke(fr, st, &i.Call, args, fv, i.Pos())
}

// invoke performs a call; st is updated in place. nil result when the callee returns nothing.
func (x *Exec) invoke(fr *Frame, st *State, c *ssa.CallCommon, args []Value, fv Value, pos token.Pos) Value {
	if c.IsInvoke() {
		iv, ok := force(fv).(*IfaceV)
		if !ok {
			panic(unsup("invoke on %T", fv))
		}
		var nilg []*Term
		for _, a := range iv.alts {
			if a.typ == nil && a.opq == nil {
				nilg = append(nilg, a.g)
			}
		}
		x.oblige(st, "safety", "method call on nil interface ("+c.Method.Name()+")", Not(Or(nilg...)), pos)
		var outs []struct {
			st *State
			v  Value
		}
		st0 := st
		live := 0
		for _, a := range iv.alts {
			if (a.typ == nil && a.opq == nil) || And(st.g, a.g) == False {
				continue
			}
			live++
		}
		for _, a := range iv.alts {
			if (a.typ == nil && a.opq == nil) || And(st0.g, a.g) == False {
				continue
			}
			s := st0
			if live > 1 {
				s = st0.fork(a.g)
			}
			var v Value
			if a.opq != nil {
				name := "invoke:" + c.Method.FullName()
				if h, ok := x.hooks[name]; ok {
					v, ok = h(x, fr, s, nil, append([]Value{a.opq}, args...))
					if !ok {
						panic(unsup("hook %s declined", name))
					}
				} else if in, ok := intrinsics[name]; ok {
					v = in(x, fr, s, append([]Value{a.opq}, args...), c, pos)
				} else {
					panic(unsup("method %s of an unknown dynamic type", c.Method.FullName()))
				}
			} else {
				fn := x.P.Prog.LookupMethod(a.typ, c.Method.Pkg(), c.Method.Name())
				if fn == nil {
					panic(unsup("method %s not found on %s", c.Method.Name(), a.typ))
				}
				v = x.callStatic(fr, s, fn, nil, append([]Value{a.val}, args...), c, pos)
			}
			if live == 1 {
				return v
			}
			outs = append(outs, struct {
				st *State
				v  Value
			}{s, v})
		}
		var acc *State
		for _, o := range outs {
			if o.st.g == False {
				continue
			}
			if o.v != nil {
				o.st.env[retKey(0)] = o.v
			}
			acc = x.mergeStates(acc, o.st)
		}
		if acc == nil {
			st.g = False
			return nil
		}
		v := acc.env[retKey(0)]
		delete(acc.env, retKey(0))
		*st = *acc
		return v
	}
	if b, ok := c.Value.(*ssa.Builtin); ok {
		return x.builtin(fr, st, b.Name(), args, c, pos)
	}
	if fn := c.StaticCallee(); fn != nil {
		var binds []Value
		if f, ok := fv.(*FuncV); ok {
			binds = f.binds
		}
		return x.callStatic(fr, st, fn, binds, args, c, pos)
	}
	f, ok := force(fv).(*FuncV)
	if ok && f.fn != nil {
		return x.callStatic(fr, st, f.fn, f.binds, args, c, pos)
	}
	if fa, ok := force(fv).(*FuncAlts); ok {
		var acc *State
		for _, a := range fa.alts {
			if And(st.g, a.g) == False {
				continue
			}
			if a.f.fn == nil {
				x.oblige(st, "safety", "call of a nil function", Not(a.g), pos)
				continue
			}
			s := st.fork(a.g)
			v := x.callStatic(fr, s, a.f.fn, a.f.binds, args, c, pos)
			if s.g == False {
				continue
			}
			delete(s.env, retKey(0))
			if v != nil {
				s.env[retKey(0)] = v
			}
			acc = x.mergeStates(acc, s)
		}
		if acc == nil {
			st.g = False
			return &Poison{why: "call that never returns", dead: true}
		}
		v := acc.env[retKey(0)]
		delete(acc.env, retKey(0))
		*st = *acc
		return v
	}
	if h, ok := x.hooks["dyncall"]; ok {
		if v, ok := h(x, fr, st, x.curCall, append([]Value{fv}, args...)); ok {
			return v
		}
	}
	panic(unsup("call of unknown function value in %s", fr.fn))
}

func fnName(fn *ssa.Function) string {
	if o := fn.Origin(); o != nil {
		return o.RelString(nil)
	}
	return fn.RelString(nil)
}

func (x *Exec) callStatic(fr *Frame, st *State, fn *ssa.Function, binds []Value, args []Value, c *ssa.CallCommon, pos token.Pos) Value {
	name := fnName(fn)
	x.calls++
	if h, ok := x.hooks[name]; ok {
		if v, ok := h(x, fr, st, x.curCall, args); ok {
			return v
		}
	}
	short := fn.Name()
	inPkg := fn.Pkg != nil
	if o := fn.Origin(); o != nil {
		inPkg, short = o.Pkg != nil, o.Name()
	}
	if inPkg && strings.HasPrefix(short, "v") {
		if v, ok := x.specCall(fr, st, fn, short, args, c, pos); ok {
			return v
		}
	}
	if r, ok := x.replace[name]; ok && (len(x.frames) == 0 || x.frames[len(x.frames)-1].fn != r) {
		x.contracts[name] = true
		x.curCallPos = pos
		return x.run(st, r, nil, args, fr)
	}
	if x.opaqueFns[name] {
		rs := fn.Signature.Results()
		switch rs.Len() {
		case 0:
			return nil
		case 1:
			return force(x.freshTyped("res:"+fn.Name(), rs.At(0).Type(), false))
		}
		tv := make(TupleV, rs.Len())
		for i := range tv {
			tv[i] = force(x.freshTyped("res:"+fn.Name(), rs.At(i).Type(), false))
		}
		return tv
	}
	if in, ok := intrinsics[name]; ok {
		return in(x, fr, st, args, c, pos)
	}
	if len(fn.Blocks) > 0 {
		return x.run(st, fn, binds, args, fr)
	}
	panic(unsup("external function %s (called in %s)", name, fr.fn))
}

func (x *Exec) run(st *State, fn *ssa.Function, binds []Value, args []Value, fr *Frame) Value {
	env := st.env
	v, out := x.callFn(fn, binds, st, args, fr)
	if out == nil {
		st.g = False
		st.env = env
		return &Poison{why: "call that never returns"}
	}
	*st = *out
	st.env = env
	return v
}

// ---------------------------------------------------------------- specification intrinsics

func (x *Exec) specCall(fr *Frame, st *State, fn *ssa.Function, short string, args []Value, c *ssa.CallCommon, pos token.Pos) (Value, bool) {
	if o := fn.Origin(); o != nil {
		short = o.Name()
	}
	lit := func(i int) string {
		t, ok := args[i].(*Term)
		if !ok || t.Op != "lit" {
			panic(unsup("%s: literal label expected", short))
		}
		return t.Str
	}
	switch short {
	case "vAssume":
		st.g = And(st.g, args[0].(*Term))
		return nil, true
	case "vAssert":
		cond := args[1].(*Term)
		if os.Getenv("GOVC_DEBUG5") != "" && cond.Op == "=" {
			fmt.Fprintf(os.Stderr, "ASSERT %s\n", lit(0))
			termDiff(cond.Args[0], cond.Args[1], 0)
		}
		if parts := x.splitGoal(st.g, cond); len(parts) > 1 {
			// one obligation per part; the whole is the conjunction of the parts
			nf := len(x.facts)
			for i, p := range parts {
				if os.Getenv("GOVC_DEBUG4") != "" {
					fmt.Fprintf(os.Stderr, "PART %d: %.3000s\n   IF %.3000s\n", i+1, p.c, p.g)
				}
				x.obligeG(p.g, "post", fmt.Sprintf("%s (part %d of %d)", lit(0), i+1, len(parts)), p.c, pos)
				x.dropFacts(nf)
			}
			return nil, true
		}
		x.oblige(st, "post", lit(0), cond, pos)
		return nil, true
	case "vRequire":
		x.oblige(st, "pre", lit(0), args[1].(*Term), x.curCallPos)
		return nil, true
	case "vInvariant":
		iv, ok := force(args[1]).(*IfaceV)
		if !ok || len(iv.alts) != 1 {
			panic(unsup("vInvariant of %T", args[1]))
		}
		f, ok := force(iv.alts[0].val).(*FuncV)
		if !ok {
			panic(unsup("vInvariant of %T", iv.alts[0].val))
		}
		x.uinvs = append(x.uinvs, userInv{lit(0), f})
		return nil, true
	case "vForall":
		f, ok := force(args[2]).(*FuncV)
		if !ok {
			panic(unsup("vForall of %T", args[2]))
		}
		lo, hi := args[0].(*Term), args[1].(*Term)
		k := x.newK("q")
		x.quiet++
		c := st.clone()
		c.g = And(c.g, Le(lo, k), Lt(k, hi))
		r, ns := x.callFn(f.fn, f.binds, c, []Value{k}, fr)
		x.quiet--
		if ns == nil {
			panic(unsup("vForall body without value"))
		}
		return x.quant(k, Implies(And(Le(lo, k), Lt(k, hi)), r.(*Term))), true
	case "vJSONRoundTrips":
		iv, ok := force(args[1]).(*IfaceV)
		if !ok || len(iv.alts) != 1 || iv.alts[0].typ == nil {
			panic(unsup("vJSONRoundTrips"))
		}
		x.assumptions["encoding/json writes and reads a struct field by field under its tag name; omitempty drops only zero values"] = true
		t := iv.alts[0].typ
		jsonShape(t, types.TypeString(t, types.RelativeTo(fn.Pkg.Pkg)), map[types.Type]bool{},
			func(p string) { x.oblige(st, "post", lit(0)+": "+p, True, pos) },
			func(p, why string) { x.oblige(st, "post", lit(0)+": "+p+" ("+why+")", False, pos) })
		return nil, true
	case "vIsJSONOf":
		t, ok := args[0].(*Term)
		iv, ok2 := force(args[1]).(*IfaceV)
		if !ok || !ok2 || len(iv.alts) != 1 {
			panic(unsup("vIsJSONOf"))
		}
		r, ok := jsonRecs[t.Str]
		if t.Op == "lit" || !ok || !types.Identical(r.t, iv.alts[0].typ) {
			return False, true
		}
		return x.eqVal(st, r.v, iv.alts[0].val), true
	case "vSeqEq":
		a, b := args[0].(*SliceV), args[1].(*SliceV)
		if os.Getenv("GOVC_DEBUG3") != "" {
			for _, q := range []*SliceV{a, b} {
				vq := x.viewSeq(st, q)
				sg, ok := toSegs(vq)
				fmt.Fprintf(os.Stderr, "seqEq side %T %v len %.300s\n", vq, ok, q.len)
				for _, s := range sg {
					fmt.Fprintf(os.Stderr, "   %.400s\n", s.String())
				}
			}
		}
		return x.seqEq(st, a, b), true
	case "vDeepEq":
		if os.Getenv("GOVC_DEBUG3") != "" {
			for _, a := range args {
				if q, ok := force(force(a).(*IfaceV).alts[0].val).(*SliceV); ok {
					vq := x.viewSeq(st, q)
					sg, ok := toSegs(vq)
					fmt.Fprintf(os.Stderr, "deepEq side %T %v len %.300s\n", vq, ok, q.len)
					for _, s := range sg {
						fmt.Fprintf(os.Stderr, "   %.900s\n", s.String())
					}
				}
			}
		}
		var vs [2]Value
		for i := range vs {
			iv, ok := force(args[i]).(*IfaceV)
			if !ok || len(iv.alts) != 1 || iv.alts[0].typ == nil {
				panic(unsup("vDeepEq of %T", args[i]))
			}
			vs[i] = iv.alts[0].val
		}
		x.deep++
		x.quiet++
		r := x.eqVal(st, vs[0], vs[1])
		x.quiet--
		x.deep--
		return r, true
	case "vUnchanged":
		var cs []*Term
		var objs []*Obj
		for o := range st.mem {
			if o.input {
				objs = append(objs, o)
			}
		}
		sort.Slice(objs, func(i, j int) bool { return objs[i].id < objs[j].id })
		for _, o := range objs {
			cs = append(cs, x.frameEq(st, x.initOf(o), st.mem[o]))
		}
		x.oblige(st, "frame", lit(0), And(cs...), pos)
		return nil, true
	case "vSquash": // the string without its white space
		if os.Getenv("GOVC_DEBUG3") != "" {
			fmt.Fprintf(os.Stderr, "squash %.600s\n  -> %.600s\n", args[0].(*Term), strMap("squash", "", args[0].(*Term)))
		}
		return strMap("squash", "", args[0].(*Term)), true
	case "vUFBool", "vUFInt": // vUFInt(name, "field,field", args...): some fixed function of the arguments; of a pointed-to struct all fields but the listed ones
		ex := map[string]bool{}
		for _, f := range strings.Split(lit(1), ",") {
			ex[f] = true
		}
		ops, ok := x.cellsOf(st, args[2].(*SliceV))
		if !ok {
			panic(unsup("%s arguments", short))
		}
		var ts []*Term
		for _, o := range ops {
			iv, ok := force(o).(*IfaceV)
			if !ok || len(iv.alts) != 1 || iv.alts[0].typ == nil {
				panic(unsup("%s argument %T", short, o))
			}
			ts = x.ufArgs(st, iv.alts[0].val, iv.alts[0].typ, ex, ts, pos)
		}
		rs := SBool
		if short == "vUFInt" {
			rs = SInt
			setRange("spec:"+lit(0), types.Typ[types.Int])
		}
		return UF("spec:"+lit(0), rs, ts...), true
	case "vReadsOnly": // vReadsOnly(label, "T.f,T.g", "fn,..", "entry,.."): in the code reachable from the entries (methods of T or functions) only the listed functions touch the fields
		x.readsOnly(st, fn.Pkg, lit(0), lit(1), lit(2), lit(3), pos)
		return nil, true
	case "vReach": // reachability cover: must be satisfiable
		x.covers = append(x.covers, &Ob{Name: lit(0), Kind: "cover", g: st.g, nfact: len(x.facts), pos: pos})
		return nil, true
	case "vAbstract":
		sv, ok := args[0].(*SliceV)
		if !ok {
			panic(unsup("vAbstract of %T", args[0]))
		}
		if sv.arr != nil {
			sv.arr.obj.abstract = true
		}
		return nil, true
	case "vStrClass": // vStrClass(s, "noLF") declares the byte class of an input string
		t, ok := args[0].(*Term)
		if !ok {
			panic(unsup("vStrClass"))
		}
		if t.Op == "var" || t.Op == "uf" {
			declareClass(t.Str, lit(1))
		} else if t.Op != "lit" {
			panic(unsup("vStrClass of %s", t))
		}
		return nil, true
	}
	if v, ok := x.chanSpec(fr, st, fn, short, args, pos); ok {
		return v, true
	}
	if strings.HasPrefix(short, "vAny") {
		nm := "any"
		if len(args) > 0 {
			if t, ok := args[0].(*Term); ok && t.Op == "lit" {
				nm = t.Str
			}
		}
		rt := fn.Signature.Results().At(0).Type()
		return force(x.freshTyped(nm, rt, false)), true
	}
	if strings.HasSuffix(x.P.Fset.Position(fn.Pos()).Filename, "vspec.go") && short != "vImp" && short != "vImplode" {
		panic(unsup("specification primitive %s", short)) // never run the inert native stub
	}
	return nil, false
}

// ---------------------------------------------------------------- builtins

func (x *Exec) builtin(fr *Frame, st *State, name string, args []Value, c *ssa.CallCommon, pos token.Pos) Value {
	switch name {
	case "len", "cap":
		switch v := args[0].(type) {
		case *Term:
			return StrLen(v)
		case *SliceV:
			if name == "cap" {
				return v.cap
			}
			return v.len
		case *MapRef:
			return x.mapLen(st, v)
		case Seq:
			return v.Len()
		case *PtrV:
			at := c.Args[0].Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array)
			return IntC(at.Len())
		}
		panic(unsup("%s of %T", name, args[0]))
	case "append":
		return x.appendOp(st, args[0].(*SliceV), args[1], c.Args[0].Type())
	case "copy":
		return x.copyOp(st, args[0].(*SliceV), args[1])
	case "delete":
		m := args[0].(*MapRef)
		x.mapStore(st, m, MapEntry{g: True, k: args[1], del: true})
		return nil
	case "min", "max":
		r := args[0].(*Term)
		for _, a := range args[1:] {
			t := a.(*Term)
			lt := SLt(t, r)
			if t.Sort.K == KBV && isUnsigned(c.Args[0].Type()) {
				lt = ULt(t, r)
			}
			if name == "min" {
				r = Ite(lt, t, r)
			} else {
				r = Ite(lt, r, t)
			}
		}
		return r
	case "print", "println":
		return nil
	case "ssa:wrapnilchk":
		p := args[0].(*PtrV)
		x.oblige(st, "safety", "nil receiver", Not(isNilPtr(p)), pos)
		return p
	case "close":
		if _, ok := force(args[0]).(*PtrV); ok {
			x.chanClose(st, args[0], pos)
			return nil
		}
		if h, ok := x.hooks["close"]; ok {
			h(x, fr, st, nil, args)
			return nil
		}
	}
	panic(unsup("builtin %s in %s", name, fr.fn))
}

func (x *Exec) mapLen(st *State, m *MapRef) *Term {
	c := x.mapContent(st, m)
	if c == nil {
		return IntC(0)
	}
	n := IntC(0)
	if c.base != nil {
		if len(c.entries) > 0 {
			panic(unsup("len of a modified map"))
		}
		n = UF("maplen:"+c.base.name, SInt, c.base.args...)
		varRange["maplen:"+c.base.name] = [2]*big.Int{big.NewInt(0), maxLen}
		return Ite(isNilPtr(m.p), IntC(0), n)
	}
	// distinct keys
	for i, e := range c.entries {
		if e.del {
			panic(unsup("len of map with deletions"))
		}
		dup := []*Term{}
		for _, f := range c.entries[:i] {
			dup = append(dup, And(f.g, x.eqVal(st, f.k, e.k)))
		}
		n = Add(n, Ite(And(e.g, Not(Or(dup...))), IntC(1), IntC(0)))
	}
	return n
}

func (x *Exec) seqOfArg(st *State, v Value) (Seq, *Term) {
	switch t := v.(type) {
	case *SliceV:
		q := x.viewSeq(st, t)
		return q, t.len
	case *Term:
		return bytesOf(t), StrLen(t)
	}
	panic(unsup("sequence argument %T", v))
}

func (x *Exec) appendOp(st *State, s *SliceV, add Value, typ types.Type) Value {
	x.assumptions["append never writes into spare capacity that another live slice can see"] = true
	bq, bn := x.seqOfArg(st, add)
	if bn == IntC(0) {
		return s
	}
	aq, an := x.seqOfArg(st, s)
	o := newObj("append", typ)
	n := Add(an, bn)
	var q Seq
	ca, ok1 := aq.(*CellSeq)
	cb, ok2 := bq.(*CellSeq)
	switch {
	case an == IntC(0):
		q = bq
	case ok1 && ok2:
		q = &CellSeq{append(append([]Value{}, ca.cells...), cb.cells...)}
	default:
		sa, ok := toSegs(aq)
		if !ok {
			sa = []Seg{{g: True, ref: aq, lenT: an}}
		}
		sb, ok := toSegs(bq)
		if !ok {
			sb = []Seg{{g: True, ref: bq, lenT: bn}}
		}
		q = &SegSeq{append(append([]Seg{}, sa...), sb...)}
	}
	st.mem[o] = q
	return &SliceV{arr: &Loc{obj: o}, off: IntC(0), len: n, cap: n, isnil: And(s.isnil, Eq(bn, IntC(0))), full: True}
}

func (x *Exec) copyOp(st *State, d *SliceV, src Value) Value {
	sq, sn := x.seqOfArg(st, src)
	n := Ite(Lt(sn, d.len), sn, d.len)
	if n == IntC(0) || d.arr == nil {
		return IntC(0)
	}
	old := x.loadLoc(st, d.arr).(Seq)
	off := d.off
	var nq Seq
	if c, ok := n.Int64(); ok && c <= 64 {
		nq = old
		for i := int64(0); i < c; i++ {
			nq = x.update(nq, []PathEl{{idx: Add(off, IntC(i))}}, x.seqAt(sq, IntC(i))).(Seq)
		}
	} else if off == IntC(0) && old.Len() == n && sn == n {
		nq = sq
	} else if k, ok := off.Int64(); ok && k > 0 && k <= 64 && sq.Len() == n && Add(off, n) == old.Len() {
		// the rest is copied: what was before it, and the source
		out := &SegSeq{}
		for i := int64(0); i < k; i++ {
			out.segs = append(out.segs, Seg{g: True, v: x.seqAt(old, IntC(i))})
		}
		sb, ok := toSegs(sq)
		if !ok {
			sb = []Seg{{g: True, ref: sq, lenT: n}}
		}
		out.segs = append(out.segs, sb...)
		nq = out
	} else {
		nq = &FnSeq{n: old.Len(), name: "copy", at: func(i *Term) Value {
			in := And(Ge(i, off), Lt(i, Add(off, n)))
			if in == True {
				return x.seqAt(sq, Sub(i, off))
			}
			if in == False {
				return x.seqAt(old, i)
			}
			return x.mergeVal(in, x.seqAt(sq, Sub(i, off)), x.seqAt(old, i))
		}}
		if off == IntC(0) && sq.Len() == n {
			nq.(*FnSeq).pre = sq
		}
	}
	x.storeLoc(st, d.arr, True, nq)
	return n
}

// frameEq: new content equals the initial content
func (x *Exec) frameEq(st *State, a, b Value) *Term {
	a, b = force(a), force(b)
	if a == b || valKey(a) == valKey(b) {
		return True
	}
	switch t := a.(type) {
	case *StructV:
		u, ok := b.(*StructV)
		if !ok {
			return False
		}
		var cs []*Term
		for i := range t.f {
			if t.f[i] != u.f[i] {
				cs = append(cs, x.frameEq(st, t.f[i], u.f[i]))
			}
		}
		return And(cs...)
	case Seq:
		u, ok := b.(Seq)
		if !ok {
			return False
		}
		i := x.fresh("frame.i", SInt)
		return Implies(And(Le(IntC(0), i), Lt(i, t.Len())), x.frameEq(st, x.seqAt(t, i), x.seqAt(u, i)))
	case *MapC:
		return False
	}
	return x.eqVal(st, a, b)
}

// seqEq: a sufficient condition for two sequences to be equal (exact for non-guarded sequences)
func (x *Exec) seqEq(st *State, a, b *SliceV) *Term {
	qa, qb := x.viewSeq(st, a), x.viewSeq(st, b)
	sa, ok1 := toSegs(qa)
	sb, ok2 := toSegs(qb)
	if ok1 && ok2 {
		if e := x.segsEq(st, sa, sb); e != nil {
			return e
		}
		return And(Eq(a.len, b.len), Fresh("seqeq", SBool))
	}
	if os.Getenv("GOVC_DEBUG3") != "" {
		fmt.Fprintf(os.Stderr, "seqEq pointwise %T %T %v %v len %.300s %.300s\n", qa, qb, a.full, b.full, a.len, b.len)
	}
	k := x.newK("q")
	in := And(Le(IntC(0), k), Lt(k, a.len))
	x.quiet++
	e := x.eqVal(st, x.seqAt(qa, k), x.seqAt(qb, k))
	x.quiet--
	return And(Eq(a.len, b.len), x.quant(k, Implies(in, e)))
}
func (x *Exec) segsEq(st *State, a, b []Seg) *Term {
	a, b = x.normSegs(st, a), x.normSegs(st, b)
	used := make([]bool, len(b))
	pi := make([]int, len(a))
	var cs []*Term
	for i, p := range a {
		best, bestScore := -1, 0
		for j, q := range b {
			if used[j] {
				continue
			}
			if sc := x.segScore(st, p, q); sc > bestScore && x.movable(st, p, b[:j], used) {
				best, bestScore = j, sc
			}
			if bestScore >= 3 {
				break
			}
		}
		if best < 0 {
			// p must never be present
			pi[i] = -1
			cs = append(cs, Not(p.g))
			continue
		}
		pi[i], used[best] = best, true
		q := b[best]
		for j := 0; j < best; j++ {
			if !used[j] {
				cs = append(cs, Not(And(p.g, b[j].g)))
			}
		}
		e := x.segContentEq(st, p, q)
		if e == nil {
			return nil
		}
		gp, gq := p.g, q.g
		if p.k != nil { // an empty range contributes nothing
			gp, gq = And(gp, Lt(p.lo, p.hi)), And(gq, Lt(q.lo, q.hi))
		}
		cs = append(cs, Eq(gp, gq), Implies(gp, e))
	}
	for j, q := range b {
		if !used[j] {
			cs = append(cs, Not(q.g))
		}
	}
	if os.Getenv("GOVC_DEBUG3") != "" {
		for i, c := range cs {
			if !x.quickValid(st.g, c) {
				fmt.Fprintf(os.Stderr, "segsEq not shown (%d of %d): %.700s\n", i, len(cs), c)
				var sub func(g, c *Term, d int)
				sub = func(g, c *Term, d int) {
					if c.Op == "and" && d < 4 {
						for _, a := range c.Args {
							if !x.quickValid(g, a) {
								sub(g, a, d+1)
							}
						}
					} else if c.Op == "or" && d < 4 {
						for i, a := range c.Args {
							if a.Op == "and" && i == len(c.Args)-1 {
								sub(And(g, Not(Or(c.Args[:i]...))), a, d+1)
								return
							}
						}
						fmt.Fprintf(os.Stderr, "    part %.1500s\n", c)
					} else {
						fmt.Fprintf(os.Stderr, "    part %.1500s\n", c)
					}
				}
				sub(st.g, c, 0)
			}
		}
	}
	return And(cs...)
}

// movable: p excludes every unmatched segment before it
func (x *Exec) movable(st *State, p Seg, before []Seg, used []bool) bool {
	for j, q := range before {
		if !used[j] && !x.excl(st, p.g, q.g) {
			return false
		}
	}
	return true
}
func (x *Exec) excl(st *State, a, b *Term) bool {
	c := And(a, b)
	if c == False {
		return true
	}
	k := [2]int{st.g.id, c.id}
	if v, ok := x.exclMemo[k]; ok {
		return v
	}
	if x.exclMemo == nil {
		x.exclMemo = map[[2]int]bool{}
	}
	v := x.quickValid(st.g, Not(c))
	x.exclMemo[k] = v
	return v
}
func segKind(s Seg) int {
	switch {
	case s.k != nil:
		return 1
	case s.acc != nil:
		return 2
	case s.ref != nil:
		return 3
	}
	return 0
}

// segScore: 0 certainly different, 3 the same value
func (x *Exec) segScore(st *State, p, q Seg) int {
	if segKind(p) != segKind(q) {
		return 0
	}
	if Eq(p.g, q.g) == False {
		return 0
	}
	same := 0
	if p.g == q.g {
		same = 1
	}
	switch segKind(p) {
	case 0:
		x.quiet++
		e := x.eqVal(st, p.v, q.v)
		x.quiet--
		if e == True {
			return 3 + same
		}
		if e == False {
			return 0
		}
	case 2:
		if p.acc != q.acc {
			return 0
		}
		return 3
	}
	return 1 + same
}
func (x *Exec) segContentEq(st *State, p, q Seg) *Term {
	switch segKind(p) {
	case 1:
		qb := x.newSubst(map[*Term]*Term{q.k: p.k}, nil).segs(q.body)
		if qb == nil {
			qb = q.body
		}
		in2 := *st
		in2.g = And(st.g, Le(p.lo, p.k), Lt(p.k, p.hi))
		in := x.segsEq(&in2, p.body, qb)
		if in == nil {
			return nil
		}
		return And(Eq(p.lo, q.lo), Eq(p.hi, q.hi), x.quant(p.k, Implies(And(Le(p.lo, p.k), Lt(p.k, p.hi)), in)))
	case 2:
		return Eq(p.acc, q.acc)
	case 3:
		k := x.newK("q")
		x.quiet++
		ee := x.eqVal(st, x.seqAt(p.ref, k), x.seqAt(q.ref, k))
		x.quiet--
		return And(Eq(segLen1(p), segLen1(q)), x.quant(k, Implies(And(Le(IntC(0), k), Lt(k, segLen1(p))), ee)))
	}
	x.quiet++
	defer func() { x.quiet-- }()
	if a, ok := p.v.(*Term); ok && a.Sort == SStr {
		if b, ok := q.v.(*Term); ok {
			return strEqCases(a, b, 6)
		}
	}
	return x.eqVal(st, p.v, q.v)
}

// strEqCases: equality of two ropes, by cases over the conditional parts
func strEqCases(a, b *Term, d int) *Term {
	e := Eq(a, b)
	if e.IsConst() || d == 0 {
		return e
	}
	c := ropeCond(a)
	if c == nil {
		c = ropeCond(b)
	}
	if c == nil {
		return e
	}
	y, n := map[*Term]*Term{c: True}, map[*Term]*Term{c: False}
	return Ite(c, strEqCases(Subst(a, y), Subst(b, y), d-1), strEqCases(Subst(a, n), Subst(b, n), d-1))
}
func ropeConds(t *Term) (n int) {
	for _, p := range t.Args {
		if p.Op == "ite" {
			n++
		}
	}
	return
}
func ropeCond(t *Term) *Term {
	switch t.Op {
	case "ite":
		return t.Args[0]
	case "concat":
		for _, p := range t.Args {
			if p.Op == "ite" {
				return p.Args[0]
			}
		}
	}
	return nil
}

// normSegs: no impossible segments, case distinctions of one value as exclusive segments, equal exclusive values joined
func (x *Exec) normSegs(st *State, a []Seg) (out []Seg) {
	var add func(s Seg, d int)
	add = func(s Seg, d int) {
		if s.g == False {
			return
		}
		if t, ok := s.v.(*Term); ok && t.Op == "ite" && t.Sort == SStr && d < 6 {
			y, n := s, s
			y.g, y.v = And(s.g, t.Args[0]), t.Args[1]
			n.g, n.v = And(s.g, Not(t.Args[0])), t.Args[2]
			add(y, d+1)
			add(n, d+1)
			return
		}
		if t, ok := s.v.(*Term); ok && t.Op == "concat" && d < 6 {
			if c, n := ropeCond(t), ropeConds(t); c != nil && n <= 2 {
				y, n := s, s
				y.g, y.v = And(s.g, c), Subst(t, map[*Term]*Term{c: True})
				n.g, n.v = And(s.g, Not(c)), Subst(t, map[*Term]*Term{c: False})
				add(y, d+1)
				add(n, d+1)
				return
			}
		}
		if t, ok := s.v.(*Term); ok && t.Sort == SStr {
			for j := len(out) - 1; j >= 0; j-- {
				if !x.excl(st, out[j].g, s.g) {
					break
				}
				if out[j].v == s.v {
					// everything between excludes s
					out[j].g = Or(out[j].g, s.g)
					return
				}
			}
		}
		out = append(out, s)
	}
	for _, s := range a {
		add(s, 0)
	}
	return
}
type goalPart struct{ g, c *Term }

// splitGoal: g implies c, cut along conjunctions, implications and universal quantifiers (whose variable becomes a fresh constant)
func (x *Exec) splitGoal(g, c *Term) (out []goalPart) {
	switch c.Op {
	case "and":
		for _, a := range c.Args {
			out = append(out, x.splitGoal(g, a)...)
		}
		return
	case "forall":
		m := map[*Term]*Term{}
		n := len(c.Args) - 1
		for _, v := range c.Args[:n] {
			if v.Sort != SInt {
				return []goalPart{{g, c}}
			}
			m[v] = x.newK("any")
		}
		return x.splitGoal(g, Subst(c.Args[n], m))
	case "or":
		best, size := -1, 0
		for i, a := range c.Args {
			n := 0
			if a.Op == "forall" || a.Op == "and" && hasForall(a) {
				n = 1000
			}
			if a.Op == "and" {
				n += 3 + termSize(a, map[int]bool{})
			}
			if n >= 4 && n > size {
				best, size = i, n
			}
		}
		if best >= 0 {
			rest := append(append([]*Term{}, c.Args[:best]...), c.Args[best+1:]...)
			return x.splitGoal(And(g, Not(Or(rest...))), c.Args[best])
		}
	}
	return []goalPart{{g, c}}
}
func termSize(t *Term, seen map[int]bool) int {
	if seen[t.id] {
		return 0
	}
	seen[t.id] = true
	n := 1
	for _, a := range t.Args {
		n += termSize(a, seen)
	}
	return n
}
func hasForall(t *Term) bool {
	if t.Op == "forall" {
		return true
	}
	if t.Op == "and" || t.Op == "or" || t.Op == "not" {
		for _, a := range t.Args {
			if hasForall(a) {
				return true
			}
		}
	}
	return false
}
func trimSegs(a []Seg) (out []Seg) {
	for _, s := range a {
		if s.g != False {
			out = append(out, s)
		}
	}
	return
}

// quant: universal closure over k; k is renamed, because the free k also occurs in facts
func (x *Exec) quant(k, body *Term) *Term {
	if !body.contains(k, map[int]bool{}) {
		return body
	}
	j := x.newK("b")
	return Forall([]*Term{j}, Subst(body, map[*Term]*Term{k: j}))
}

// ufArgs flattens a value into the arguments of an uninterpreted function
func (x *Exec) ufArgs(st *State, v Value, t types.Type, ex map[string]bool, ts []*Term, pos token.Pos) []*Term {
	v = force(v)
	switch k := v.(type) {
	case *Term:
		return append(ts, k)
	case *PtrV:
		if pt, ok := t.Underlying().(*types.Pointer); ok && len(k.alts) == 1 && k.alts[0].loc != nil {
			return x.ufArgs(st, x.loadLoc(st, k.alts[0].loc), pt.Elem(), ex, ts, pos)
		}
	case *StructV:
		if s, ok := t.Underlying().(*types.Struct); ok {
			for i, f := range k.f {
				if !ex[s.Field(i).Name()] {
					ts = x.ufArgs(st, f, s.Field(i).Type(), ex, ts, pos)
				}
			}
			return ts
		}
	case *SliceV:
		key := "nil"
		if k.arr != nil {
			key = seqKey(x.loadLoc(st, k.arr))
		}
		return append(ts, StrC("slice "+key), k.off, k.len)
	}
	panic(unsup("argument of an uninterpreted function: %T", v))
}

// seqKey names the contents of an array: equal names mean equal contents
func seqKey(v Value) string {
	switch q := force(v).(type) {
	case *CellSeq:
		h := sha256.New()
		for _, c := range q.cells {
			fmt.Fprintf(h, "%s,", valKey(force(c)))
		}
		return fmt.Sprintf("cells %x", h.Sum(nil))
	case *IteSeq:
		return fmt.Sprintf("(%d ? %s : %s)", q.c.id, seqKey(q.a), seqKey(q.b))
	case *SegSeq:
		h := sha256.New()
		for _, s := range q.segs {
			fmt.Fprintf(h, "%s;", segKey(s))
		}
		return fmt.Sprintf("segs %x", h.Sum(nil))
	}
	v = force(v)
	keyMu.Lock()
	keyKeep = append(keyKeep, v) // keeps the address in use as long as its name
	keyMu.Unlock()
	return fmt.Sprintf("%p", v)
}

var keyMu sync.Mutex
var keyKeep []Value

// readsOnly: frame condition on fields, decided on the SSA of everything reachable from the entries
func (x *Exec) readsOnly(st *State, pkg *ssa.Package, label, fields, allowed, entries string, pos token.Pos) {
	set := func(s string) map[string]bool {
		m := map[string]bool{}
		for _, f := range strings.Split(s, ",") {
			m[f] = true
		}
		return m
	}
	fs, al := set(fields), set(allowed)
	seen := map[*ssa.Function]bool{}
	var bad []string
	fieldOf := func(t types.Type, i int) string {
		if p, ok := t.Underlying().(*types.Pointer); ok {
			t = p.Elem()
		}
		n := types.TypeString(t, func(*types.Package) string { return "" })
		return n + "." + t.Underlying().(*types.Struct).Field(i).Name()
	}
	whole := map[string]bool{}
	for f := range fs {
		whole[f[:strings.Index(f, ".")]] = true
	}
	var walk func(f *ssa.Function)
	walk = func(f *ssa.Function) {
		if seen[f] || f == nil || al[f.Name()] {
			return
		}
		seen[f] = true
		if len(f.Blocks) == 0 {
			return // another package, it cannot name unexported fields
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch k := in.(type) {
				case *ssa.FieldAddr:
					if n := fieldOf(k.X.Type(), k.Field); fs[n] {
						bad = append(bad, f.Name()+" uses "+n)
					}
				case *ssa.Field:
					if n := fieldOf(k.X.Type(), k.Field); fs[n] {
						bad = append(bad, f.Name()+" uses "+n)
					}
				case *ssa.UnOp:
					if k.Op == token.MUL && whole[types.TypeString(k.Type(), func(*types.Package) string { return "" })] {
						bad = append(bad, f.Name()+" copies "+k.Type().String())
					}
				case *ssa.MakeClosure:
					walk(k.Fn.(*ssa.Function))
				}
				if c, ok := in.(ssa.CallInstruction); ok {
					if g := c.Common().StaticCallee(); g != nil {
						walk(g)
					} else if _, isB := c.Common().Value.(*ssa.Builtin); !isB {
						bad = append(bad, f.Name()+" calls an unknown function")
					}
				}
			}
		}
	}
	for e := range set(entries) {
		f := pkg.Func(e)
		for _, m := range pkg.Members {
			if tn, ok := m.(*ssa.Type); ok && f == nil {
				ms := x.P.Prog.MethodSets.MethodSet(types.NewPointer(tn.Type()))
				for i := 0; i < ms.Len(); i++ {
					if ms.At(i).Obj().Name() == e {
						f = x.P.Prog.MethodValue(ms.At(i))
					}
				}
			}
		}
		if f == nil {
			bad = append(bad, "no function "+e)
			continue
		}
		x.fns[f.String()] = true
		walk(f)
	}
	c := True
	sort.Strings(bad)
	if len(bad) > 0 {
		c = False
		label += ": " + strings.Join(bad, "; ")
	}
	x.oblige(st, "frame", label, c, pos)
}
