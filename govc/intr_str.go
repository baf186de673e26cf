package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// findSep: position (piece index, offset within a literal) of the first occurrence of sep in the pieces;
// found=-1 when it surely does not occur; ok=false when it cannot be decided.
func findSep(ps []*Term, sep string) (i, off int, found, ok bool) {
	for i, p := range ps {
		if p.Op == "lit" {
			if j := strings.Index(p.Str, sep); j >= 0 {
				return i, j, true, true
			}
			if len(sep) > 1 && i+1 < len(ps) && classOfLit(sep).inter(classOfLit(p.Str)) != (Class{}) {
				// could straddle a piece boundary
				for n := 1; n < len(sep); n++ {
					if strings.HasSuffix(p.Str, sep[:n]) && clsOf(ps[i+1]).has(sep[n]) {
						return 0, 0, false, false
					}
				}
			}
			continue
		}
		if !clsOf(p).has(sep[0]) {
			continue
		}
		return 0, 0, false, false
	}
	return 0, 0, false, true
}

func litOf(v Value) string {
	t := tm(v)
	if t.Op != "lit" {
		panic(unsup("literal string expected"))
	}
	return t.Str
}

// iteStr applies f below the conditionals of a string
func iteStr(t *Term, f func(*Term) *Term) *Term {
	if t.Op == "ite" {
		return Ite(t.Args[0], iteStr(t.Args[1], f), iteStr(t.Args[2], f))
	}
	return f(t)
}

func init() {
	reg([]string{"strings.Cut"}, func(x *Exec, fr *Frame, st *State, a []Value, c *ssa.CallCommon, pos token.Pos) Value {
		s, sep := tm(a[0]), litOf(a[1])
		var rec func(s *Term) (b, r, f *Term)
		rec = func(s *Term) (*Term, *Term, *Term) {
			if s.Op == "ite" {
				b1, r1, f1 := rec(s.Args[1])
				b2, r2, f2 := rec(s.Args[2])
				return Ite(s.Args[0], b1, b2), Ite(s.Args[0], r1, r2), Ite(s.Args[0], f1, f2)
			}
			ps := pieces(s)
			i, off, found, ok := findSep(ps, sep)
			if !ok {
				panic(unsup("strings.Cut of %s", s))
			}
			if !found {
				return s, StrC(""), False
			}
			b := Concat(append(append([]*Term{}, ps[:i]...), StrC(ps[i].Str[:off]))...)
			r := Concat(append([]*Term{StrC(ps[i].Str[off+len(sep):])}, ps[i+1:]...)...)
			return b, r, True
		}
		b, r, f := rec(s)
		return TupleV{b, r, f}
	})
	reg([]string{"strings.Contains"}, func(x *Exec, fr *Frame, st *State, a []Value, c *ssa.CallCommon, pos token.Pos) Value {
		s, sep := tm(a[0]), litOf(a[1])
		return iteStr(s, func(s *Term) *Term {
			_, _, found, ok := findSep(pieces(s), sep)
			if ok {
				return BoolC(found)
			}
			for _, p := range pieces(s) {
				if p.Op == "lit" && strings.Contains(p.Str, sep) {
					return True
				}
			}
			return UF("strings.Contains:"+sep, SBool, s)
		})
	})
	nop := func(x *Exec, fr *Frame, st *State, a []Value, c *ssa.CallCommon, pos token.Pos) Value { return nil }
	_ = nop
	reg([]string{"fmt.Println", "fmt.Printf", "fmt.Print"}, func(x *Exec, fr *Frame, st *State, a []Value, c *ssa.CallCommon, pos token.Pos) Value {
		return TupleV{x.fresh("fmt.n", SInt), x.zero(c.Signature().Results().At(1).Type())}
	})
	reg([]string{"fmt.Errorf", "errors.New"}, func(x *Exec, fr *Frame, st *State, a []Value, c *ssa.CallCommon, pos token.Pos) Value {
		x.assumptions["fmt.Errorf and errors.New return a non-nil error"] = true
		return &IfaceV{alts: []IfaceAlt{{g: True, opq: x.fresh("err", SU)}}}
	})
	reg([]string{"fmt.Sprint"}, sprint)
}

// fmt.Sprint of one value whose first byte is known by its kind
func sprint(x *Exec, fr *Frame, st *State, a []Value, c *ssa.CallCommon, pos token.Pos) Value {
	sv := a[0].(*SliceV)
	if n, ok := sv.len.Int64(); !ok || n != 1 {
		panic(unsup("fmt.Sprint of several operands"))
	}
	iv, ok := force(x.seqAt(x.viewSeq(st, sv), IntC(0))).(*IfaceV)
	if !ok || len(iv.alts) != 1 || iv.alts[0].typ == nil {
		panic(unsup("fmt.Sprint of an unknown operand"))
	}
	al := iv.alts[0]
	switch {
	case isPtrToStruct(al.typ):
		p := force(al.val).(*PtrV)
		x.assumptions["fmt.Sprint prints a struct as {...}, a non-nil pointer to a struct as &{...}"] = true
		return Ite(isNilPtr(p), StrC("<nil>"), Concat(StrC("&{"), x.fresh("sprint", SStr)))
	case isStruct(al.typ):
		return Concat(StrC("{"), x.fresh("sprint", SStr))
	}
	panic(unsup("fmt.Sprint of %s", al.typ))
}

func isStruct(t types.Type) bool { _, ok := t.Underlying().(*types.Struct); return ok }
func isPtrToStruct(t types.Type) bool {
	p, ok := t.Underlying().(*types.Pointer)
	return ok && isStruct(p.Elem())
}
