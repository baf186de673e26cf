package main

import (
	"golang.org/x/tools/go/ssa"
)

// gc drops objects allocated since `old` that can no longer be reached from the old objects, the environment and roots.
func (x *Exec) gc(st *State, old map[*Obj]Value, roots []Value) {
	live := map[*Obj]bool{}
	var work []*Obj
	mark := func(o *Obj) {
		if !live[o] {
			live[o] = true
			work = append(work, o)
		}
	}
	var loc func(l *Loc)
	var val func(v Value)
	var segs func(ss []Seg)
	seen := map[Value]bool{}
	loc = func(l *Loc) {
		if l != nil {
			mark(l.obj)
		}
	}
	segs = func(ss []Seg) {
		for _, s := range ss {
			if s.v != nil {
				val(s.v)
			}
			segs(s.body)
			if s.ref != nil {
				val(s.ref)
			}
		}
	}
	val = func(v Value) {
		switch v.(type) {
		case nil, *Term:
			return
		case *StructV, *IteSeq, *UpdSeq, *SegSeq, *CellSeq, *MapC, *IfaceV, *FuncV, *Lazy:
			if seen[v] {
				return
			}
			seen[v] = true
		}
		switch t := v.(type) {
		case nil, *Term:
		case *Lazy:
			if t.v != nil {
				val(t.v)
			}
		case *StructV:
			for _, f := range t.f {
				val(f)
			}
		case TupleV:
			for _, f := range t {
				val(f)
			}
		case *PtrV:
			for _, a := range t.alts {
				loc(a.loc)
			}
		case *SliceV:
			loc(t.arr)
		case *MapRef:
			val(t.p)
		case *IfaceV:
			for _, a := range t.alts {
				val(a.val)
			}
		case *FuncAlts:
			for _, a := range t.alts {
				val(a.f)
			}
		case *FuncV:
			for _, b := range t.binds {
				val(b)
			}
		case *MapC:
			for _, e := range t.entries {
				val(e.k)
				val(e.v)
			}
		case *CellSeq:
			for _, c := range t.cells {
				val(c)
			}
		case *UpdSeq:
			val(t.base)
			val(t.val)
		case *IteSeq:
			val(t.a)
			val(t.b)
		case *SegSeq:
			segs(t.segs)
		case *FnSeq:
			if seen[v] || t.src != nil || t.name == "zero" {
				return
			}
			seen[v] = true
			e := t.at(Var("gc!k", SInt))
			if l, ok := e.(*Lazy); ok {
				e = force(l)
			}
			val(e)
		default:
			x.gcAll = true
		}
	}
	x.gcAll = false
	for o := range st.mem {
		_, in := old[o]
		if in || o.init != nil || o.global || o.input {
			mark(o)
		}
	}
	for _, v := range st.env {
		val(v)
	}
	for _, r := range roots {
		val(r)
	}
	for _, r := range x.gcRoots {
		val(r)
	}
	for len(work) > 0 && !x.gcAll {
		o := work[len(work)-1]
		work = work[:len(work)-1]
		if v, ok := st.mem[o]; ok {
			val(v)
		}
	}
	if x.gcAll {
		return
	}
	for o := range st.mem {
		if !live[o] {
			delete(st.mem, o)
		}
	}
}

// liveEnv drops values that no block reachable from `to` uses
func (x *Exec) liveEnv(fr *Frame, st *State, to *ssa.BasicBlock) {
	if to == nil {
		return
	}
	reach := map[*ssa.BasicBlock]bool{}
	var dfs func(b *ssa.BasicBlock)
	dfs = func(b *ssa.BasicBlock) {
		if reach[b] {
			return
		}
		reach[b] = true
		for _, s := range b.Succs {
			dfs(s)
		}
	}
	dfs(to)
	for v := range st.env {
		if v.Parent() != fr.fn {
			continue
		}
		if _, isP := v.(*ssa.Parameter); isP {
			continue
		}
		rs := v.Referrers()
		if rs == nil {
			continue
		}
		used := false
		for _, r := range *rs {
			if reach[r.Block()] {
				used = true
				break
			}
		}
		if !used {
			delete(st.env, v)
		}
	}
}
