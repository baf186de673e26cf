package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Package-level variables that only the package initialiser writes keep the value it computes (the initialiser's
// SSA is executed); every other package-level variable is part of the symbolic input.

type pkgInit struct {
	vals map[*ssa.Global]Value
	mut  map[*ssa.Global]bool
}

var pkgInits = map[*ssa.Package]*pkgInit{}

func inModule(p *ssa.Package) bool {
	return p != nil && p.Pkg != nil && (strings.HasPrefix(p.Pkg.Path(), modPath) || p.Pkg.Path() == suPath)
}

func allFuncs(p *ssa.Package) []*ssa.Function {
	var out []*ssa.Function
	seen := map[*ssa.Function]bool{}
	var add func(f *ssa.Function)
	add = func(f *ssa.Function) {
		if f == nil || seen[f] {
			return
		}
		seen[f] = true
		out = append(out, f)
		for _, a := range f.AnonFuncs {
			add(a)
		}
	}
	for _, m := range p.Members {
		switch t := m.(type) {
		case *ssa.Function:
			add(t)
		case *ssa.Type:
			ms := p.Prog.MethodSets.MethodSet(t.Type())
			for i := 0; i < ms.Len(); i++ {
				add(p.Prog.MethodValue(ms.At(i)))
			}
			pt := types.NewPointer(t.Type())
			ms = p.Prog.MethodSets.MethodSet(pt)
			for i := 0; i < ms.Len(); i++ {
				add(p.Prog.MethodValue(ms.At(i)))
			}
		}
	}
	return out
}

func (x *Exec) initPkg(p *ssa.Package) *pkgInit {
	if pi, ok := pkgInits[p]; ok {
		return pi
	}
	pi := &pkgInit{vals: map[*ssa.Global]Value{}, mut: map[*ssa.Global]bool{}}
	pkgInits[p] = pi
	// mutation scan: any use of a global other than a load (or an element store through a loaded slice/map)
	for _, f := range allFuncs(p) {
		if f.Name() == "init" && f.Synthetic != "" {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					g, ok := (*op).(*ssa.Global)
					if !ok {
						continue
					}
					if u, ok := in.(*ssa.UnOp); ok && u.Op == token.MUL {
						for _, r := range *u.Referrers() {
							switch ri := r.(type) {
							case *ssa.MapUpdate:
								if ri.Map == u {
									pi.mut[g] = true
								}
							case *ssa.IndexAddr:
								for _, r2 := range *ri.Referrers() {
									if s, ok := r2.(*ssa.Store); ok && s.Addr == ri {
										pi.mut[g] = true
									}
								}
							}
						}
						continue
					}
					if fa, ok := in.(*ssa.IndexAddr); ok { // array global, element access
						w := false
						for _, r2 := range *fa.Referrers() {
							if u, ok := r2.(*ssa.UnOp); !ok || u.Op != token.MUL {
								w = true
							}
						}
						if !w {
							continue
						}
					}
					if _, ok := in.(*ssa.DebugRef); ok {
						continue
					}
					pi.mut[g] = true
				}
			}
		}
	}
	fn := p.Func("init")
	if fn == nil || len(fn.Blocks) == 0 {
		return pi
	}
	st := &State{g: True, mem: map[*Obj]Value{}, env: map[ssa.Value]Value{}}
	fr := &Frame{fn: fn, li: &loopInfo{}}
	x.frames = append(x.frames, fr)
	x.quiet++
	nf := len(x.facts)
	defer func() { x.quiet--; x.dropFacts(nf); x.frames = x.frames[:len(x.frames)-1] }()
	gobj := map[*ssa.Global]*Obj{}
	for _, b := range fn.DomPreorder() {
		for _, in := range b.Instrs {
			switch i := in.(type) {
			case *ssa.If, *ssa.Jump, *ssa.Return:
				continue
			case *ssa.Call:
				if c := i.Call.StaticCallee(); c != nil && (c.Name() == "init" || strings.HasPrefix(c.Name(), "init#")) {
					continue
				}
			case *ssa.Store:
				if g, ok := i.Addr.(*ssa.Global); ok {
					if g.Name() == "init$guard" {
						continue
					}
					if v, ok := x.tryVal(func() Value { return x.phiGetF(fr, st, i.Val) }); ok {
						pi.vals[g] = v
					}
					continue
				}
			}
			x.tryVal(func() Value {
				// element initialisation of array globals
				for _, op := range in.Operands(nil) {
					if g, ok := (*op).(*ssa.Global); ok && gobj[g] == nil {
						o := x.globalRaw(g)
						gobj[g] = o
						st.mem[o] = x.zero(o.typ)
					}
				}
				x.instr(fr, st, in)
				return nil
			})
		}
	}
	for g, o := range gobj {
		if _, ok := pi.vals[g]; !ok {
			pi.vals[g] = st.mem[o]
		}
	}
	for o, v := range st.mem {
		v := v
		if o.init == nil {
			o.init = func() Value { return v }
		}
	}
	return pi
}

func (x *Exec) tryVal(f func() Value) (v Value, ok bool) {
	nfr := len(x.frames)
	defer func() {
		if r := recover(); r != nil {
			if _, is := r.(Unsup); !is {
				panic(r)
			}
			x.frames = x.frames[:nfr]
			v, ok = nil, false
		}
	}()
	return f(), true
}

func (x *Exec) globalInit(g *ssa.Global) Value {
	if !inModule(g.Pkg) {
		return nil
	}
	if v, ok := x.globalOverride[g.RelString(nil)]; ok {
		return v
	}
	if strings.Contains(x.P.Fset.Position(g.Pos()).Filename, "/zz_verif_") && strings.HasPrefix(g.Name(), "VG") {
		return nil // ghost state: arbitrary
	}
	pi := x.initPkg(g.Pkg)
	if pi.mut[g] {
		return nil
	}
	if v, ok := pi.vals[g]; ok {
		return v
	}
	// never written: zero value
	x.assumptions["package-level variable "+g.RelString(nil)+" keeps its zero value"] = true
	return x.zero(x.globals[g].typ)
}

func (x *Exec) globalRaw(g *ssa.Global) *Obj { return x.globalObj(g) }
