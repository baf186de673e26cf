package main

import (
	"crypto/sha256"
	"fmt"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// loopKey names a loop execution by everything it can depend on: the loop itself, the values it is entered with and the
// memory reachable from them. Two executions with the same key compute the same values in every iteration, so the
// unknown scalars of their summaries may share names (needed to compare two runs of the same code). "" when something it
// depends on has no canonical form. Bound variables of enclosing loops are replaced by their position.
func (x *Exec) loopKey(fr *Frame, h *ssa.BasicBlock, body map[*ssa.BasicBlock]bool, st *State, outer []*Term) (key string) {
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(Unsup); !ok {
				if _, ok := r.(noKey); !ok {
					panic(r)
				}
			}
			key = ""
		}
	}()
	m := map[*Term]*Term{}
	for i, k := range outer {
		m[k] = UF(fmt.Sprintf("outer!%d", i), SInt)
	}
	c := &canon{x: x, st: st, m: m, tc: map[*Term]*Term{}, objs: map[*Obj]int{}}
	fmt.Fprintf(&c.sb, "%s#%d#%d;", fr.fn.RelString(nil), h.Index, len(outer))
	inBody := func(v ssa.Value) bool {
		i, ok := v.(ssa.Instruction)
		return ok && body[i.Block()]
	}
	seen := map[ssa.Value]bool{}
	fns := map[*ssa.Function]bool{}
	var globals func(f *ssa.Function)
	global := func(g *ssa.Global) {
		if seen[g] {
			return
		}
		seen[g] = true
		fmt.Fprintf(&c.sb, "G%s=", g.RelString(nil))
		if !inModule(g.Pkg) {
			return // a library variable never assigned by the module
		}
		c.val(x.content(st, x.globalObj(g)), 0)
	}
	globals = func(f *ssa.Function) {
		if f == nil || fns[f] || f.Pkg != nil && !inModule(f.Pkg) {
			return
		}
		fns[f] = true
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					switch o := (*op).(type) {
					case *ssa.Global:
						global(o)
					case *ssa.Function:
						globals(o)
					}
				}
				if ci, ok := in.(ssa.CallInstruction); ok {
					if ci.Common().IsInvoke() || ci.Common().StaticCallee() == nil {
						if _, ok := ci.Common().Value.(*ssa.Builtin); !ok {
							panic(noKey{})
						}
					}
				}
			}
		}
		for _, a := range f.AnonFuncs {
			globals(a)
		}
	}
	for _, b := range fr.fn.Blocks {
		if !body[b] {
			continue
		}
		for _, in := range b.Instrs {
			if _, ok := in.(*ssa.DebugRef); ok {
				continue
			}
			if p, ok := in.(*ssa.Phi); ok && b == h {
				fmt.Fprintf(&c.sb, "phi=")
				c.val(force(st.env[p]), 0)
				continue
			}
			for _, op := range in.Operands(nil) {
				v := *op
				if v == nil || inBody(v) || seen[v] {
					continue
				}
				switch o := v.(type) {
				case *ssa.Const, *ssa.Builtin:
				case *ssa.Function:
					globals(o)
				case *ssa.Global:
					global(o)
				default:
					seen[v] = true
					fmt.Fprintf(&c.sb, "%s=", v.Name())
					c.val(x.get(fr, st, v), 0)
				}
			}
			if ci, ok := in.(ssa.CallInstruction); ok && (ci.Common().IsInvoke() || ci.Common().StaticCallee() == nil) {
				if _, ok := ci.Common().Value.(*ssa.Builtin); !ok {
					panic(noKey{})
				}
			}
		}
	}
	return fmt.Sprintf("L%x", sha256.Sum256([]byte(c.sb.String())))[:17]
}

type noKey struct{}

type canon struct {
	x    *Exec
	st   *State
	m    map[*Term]*Term
	tc   map[*Term]*Term
	objs map[*Obj]int
	sb   strings.Builder
}

func (c *canon) t(t *Term) {
	if t == nil {
		c.sb.WriteString("_,")
		return
	}
	fmt.Fprintf(&c.sb, "%d,", Subst(t, c.m).id)
}

func (c *canon) loc(l *Loc, d int) {
	if l == nil {
		c.sb.WriteString("nil;")
		return
	}
	o := l.obj
	if r := regexObjs[o]; r != nil {
		fmt.Fprintf(&c.sb, "regexp %q;", r.pat)
		return
	}
	n, ok := c.objs[o]
	if !ok {
		n = len(c.objs)
		c.objs[o] = n
		if o.abstract {
			panic(noKey{})
		}
		w, touched := c.st.mem[o]
		if o.input && (!touched || sameVal(w, c.x.initOf(o))) {
			fmt.Fprintf(&c.sb, "in %s(", o.name)
			for _, a := range o.args {
				c.t(a)
			}
			c.sb.WriteString(")")
		} else if o.input {
			panic(noKey{})
		} else {
			fmt.Fprintf(&c.sb, "def%d{", n)
			c.val(c.x.content(c.st, o), d+1)
			c.sb.WriteString("}")
		}
	}
	fmt.Fprintf(&c.sb, "obj%d", n)
	for _, p := range l.path {
		if p.idx != nil {
			c.sb.WriteString("[")
			c.t(p.idx)
		} else {
			fmt.Fprintf(&c.sb, ".%d", p.field)
		}
	}
	c.sb.WriteString(";")
}

func (c *canon) val(v Value, d int) {
	if d > 40 || c.sb.Len() > 1<<20 {
		panic(noKey{})
	}
	switch w := force(v).(type) {
	case nil:
		c.sb.WriteString("none;")
	case *Term:
		c.t(w)
	case *StructV:
		c.sb.WriteString("{")
		for _, f := range w.f {
			c.val(f, d+1)
		}
		c.sb.WriteString("}")
	case TupleV:
		c.sb.WriteString("(")
		for _, f := range w {
			c.val(f, d+1)
		}
		c.sb.WriteString(")")
	case *PtrV:
		c.sb.WriteString("P")
		for _, a := range w.alts {
			c.t(a.g)
			c.loc(a.loc, d)
		}
	case *SliceV:
		c.sb.WriteString("S")
		c.t(w.off)
		c.t(w.len)
		c.t(w.cap)
		c.t(w.isnil)
		c.t(w.full)
		c.loc(w.arr, d)
	case *CellSeq:
		c.sb.WriteString("[")
		for _, f := range w.cells {
			c.val(f, d+1)
		}
		c.sb.WriteString("]")
	case *FnSeq:
		c.sb.WriteString("F")
		c.t(w.n)
		if w.n.IsNum() && w.n.Num.Sign() == 0 {
			return
		}
		c.val(w.at(UF(fmt.Sprintf("elem!%d", d), SInt)), d+1)
	case *IteSeq:
		c.sb.WriteString("?")
		c.t(w.c)
		c.val(w.a, d+1)
		c.val(w.b, d+1)
	case *SegSeq:
		c.sb.WriteString("<")
		for _, s := range w.segs {
			if s.k != nil || s.ref != nil || s.acc != nil {
				panic(noKey{})
			}
			c.t(s.g)
			c.val(s.v, d+1)
		}
		c.sb.WriteString(">")
	case *IfaceV:
		c.sb.WriteString("I")
		for _, a := range w.alts {
			c.t(a.g)
			c.t(a.opq)
			if a.typ != nil {
				fmt.Fprintf(&c.sb, "%s=", a.typ)
				c.val(a.val, d+1)
			}
		}
	case *FuncV:
		fmt.Fprintf(&c.sb, "f%s", w.name)
		if w.fn != nil {
			panic(noKey{})
		}
	case *MapRef:
		c.sb.WriteString("M")
		c.val(w.p, d+1)
	case *MapC:
		c.sb.WriteString("m")
		if w.base != nil {
			c.sb.WriteString(w.base.name)
			for _, a := range w.base.args {
				c.t(a)
			}
		}
		for _, e := range w.entries {
			c.t(e.g)
			c.val(e.k, d+1)
			c.val(e.v, d+1)
			fmt.Fprint(&c.sb, e.del)
		}
	case *OpaqueV:
		c.sb.WriteString("O" + w.name)
		c.t(w.id)
	default:
		panic(noKey{})
	}
}
