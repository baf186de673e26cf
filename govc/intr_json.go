package main

import (
	"fmt"
	"go/token"
	"go/types"
	"reflect"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type jsonRec struct {
	v Value
	t types.Type
}

var jsonRecs = map[string]jsonRec{} // string variable -> encoded value

func init() {
	reg([]string{"encoding/json.Marshal"}, func(x *Exec, fr *Frame, st *State, a []Value, c *ssa.CallCommon, pos token.Pos) Value {
		iv, ok := force(a[0]).(*IfaceV)
		if !ok || len(iv.alts) != 1 || iv.alts[0].typ == nil {
			panic(unsup("json.Marshal of an unknown operand"))
		}
		x.assumptions["encoding/json encodes the value it is given (documented behaviour of the standard library)"] = true
		s := x.fresh("json", SStr)
		if d := x.jsonOfInput(st, iv.alts[0].val); d != nil {
			s = d
		}
		jsonRecs[s.Str] = jsonRec{iv.alts[0].val, iv.alts[0].typ}
		errT := c.Signature().Results().At(1).Type()
		return TupleV{x.strToBytes(st, s), x.zero(errT)}
	})
	reg([]string{"github.com/s00500/env_logger.Should", "github.com/s00500/env_logger.ShouldWrap"}, func(x *Exec, fr *Frame, st *State, a []Value, c *ssa.CallCommon, pos token.Pos) Value {
		if iv, ok := force(a[len(a)-1]).(*IfaceV); ok {
			var g []*Term
			for _, al := range iv.alts {
				if al.typ != nil || al.opq != nil {
					g = append(g, al.g)
				}
			}
			if rs := c.Signature().Results(); rs.Len() == 1 {
				return Or(g...)
			}
		}
		return nil
	})
}

// jsonOfInput: encoding/json is a function of the value, so the encoding of an untouched input object has one name
func (x *Exec) jsonOfInput(st *State, v Value) *Term {
	p, ok := force(v).(*PtrV)
	if !ok {
		return nil
	}
	var o *Obj
	for _, a := range p.alts {
		if a.loc == nil || a.g == False {
			continue
		}
		if o != nil || len(a.loc.path) > 0 || !a.loc.obj.input || !x.quickValid(st.g, a.g) {
			return nil
		}
		o = a.loc.obj
	}
	if o == nil {
		return nil
	}
	for m, w := range st.mem {
		if m.input && !sameVal(w, x.initOf(m)) {
			return nil
		}
	}
	declareClass("json:"+o.name, "noLF")
	return UF("json:"+o.name, SStr, o.args...)
}

// strToBytes: a new byte slice with the bytes of s
func (x *Exec) strToBytes(st *State, s *Term) *SliceV {
	o := newObj("bytes", types.NewSlice(types.Typ[types.Uint8]))
	st.mem[o] = bytesOf(s)
	n := StrLen(s)
	return &SliceV{arr: &Loc{obj: o}, off: IntC(0), len: n, cap: n, isnil: False}
}

// jsonShape lists what keeps encoding/json from reading a value of type t back unchanged.
// Assumed contract of encoding/json: a struct is written and read field by field under the tag name (case-insensitively
// distinct names), omitempty drops exactly false, 0, nil and empty; such a field reads back as its zero value.
func jsonShape(t types.Type, path string, seen map[types.Type]bool, ok func(path string), bad func(path, why string)) {
	if seen[t] {
		return
	}
	seen[t] = true
	if n, isN := t.(*types.Named); isN {
		for _, m := range []string{"MarshalJSON", "UnmarshalJSON", "MarshalText", "UnmarshalText"} {
			if o, _, _ := types.LookupFieldOrMethod(types.NewPointer(n), true, n.Obj().Pkg(), m); o != nil {
				if _, isF := o.(*types.Func); isF {
					bad(path, "custom "+m)
					return
				}
			}
		}
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&(types.IsInteger|types.IsBoolean|types.IsString|types.IsFloat) != 0 && u.Kind() != types.Uintptr:
			ok(path)
		default:
			bad(path, "type "+u.String())
		}
	case *types.Pointer:
		if _, isP := u.Elem().Underlying().(*types.Pointer); isP {
			bad(path, "pointer to pointer")
			return
		}
		jsonShape(u.Elem(), path+"*", seen, ok, bad)
	case *types.Slice:
		jsonShape(u.Elem(), path+"[]", seen, ok, bad)
	case *types.Map:
		if b, isB := u.Key().Underlying().(*types.Basic); !isB || b.Info()&(types.IsInteger|types.IsString) == 0 {
			bad(path, "map key type")
		}
		jsonShape(u.Elem(), path+"{}", seen, ok, bad)
	case *types.Struct:
		names := map[string]string{}
		for i := 0; i < u.NumFields(); i++ {
			f := u.Field(i)
			tag := reflect.StructTag(u.Tag(i)).Get("json")
			p := path + "." + f.Name()
			if strings.HasPrefix(f.Type().String(), "sync.") {
				if tag != "-" {
					bad(p, "lock is serialised")
				}
				continue
			}
			if !f.Exported() {
				bad(p, "unexported field")
				continue
			}
			if tag == "-" {
				bad(p, "field is not serialised")
				continue
			}
			ps := strings.Split(tag, ",")
			name := ps[0]
			if f.Embedded() && name == "" {
				bad(p, "embedded field")
				continue
			}
			if name == "" {
				name = f.Name()
			}
			for _, r := range name {
				if !(r == '_' || r >= '0' && r <= '9' || r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' || r == '-' || r == '.') {
					bad(p, "tag name "+name)
				}
			}
			if o, dup := names[strings.ToLower(name)]; dup {
				bad(p, "same JSON name as "+o)
			}
			names[strings.ToLower(name)] = p
			badOpt := false
			for _, o := range ps[1:] {
				switch o {
				case "omitempty":
					if _, isS := f.Type().Underlying().(*types.Struct); isS {
						continue
					}
				case "":
				default:
					bad(p, "tag option "+o)
					badOpt = true
				}
			}
			if !badOpt {
				ok(p)
			}
			jsonShape(f.Type(), p, seen, ok, bad)
		}
	default:
		bad(path, fmt.Sprintf("type %s", t))
	}
}

func init() {
	reg([]string{"encoding/json.Unmarshal"}, func(x *Exec, fr *Frame, st *State, a []Value, c *ssa.CallCommon, pos token.Pos) Value {
		b, ok := force(a[0]).(*SliceV)
		iv, ok2 := force(a[1]).(*IfaceV)
		if !ok || !ok2 || len(iv.alts) != 1 || iv.alts[0].typ == nil || b.arr == nil {
			panic(unsup("json.Unmarshal of unknown operands"))
		}
		q, ok := x.viewSeq(st, b).(*FnSeq)
		p, ok2 := force(iv.alts[0].val).(*PtrV)
		pt, ok3 := iv.alts[0].typ.Underlying().(*types.Pointer)
		if !ok || q.src == nil || !ok2 || !ok3 || len(p.alts) != 1 || p.alts[0].loc == nil {
			panic(unsup("json.Unmarshal of unknown operands"))
		}
		s := q.src
		t := pt.Elem()
		nm := "json:" + types.TypeString(t, func(p *types.Package) string { return p.Name() })
		x.assumptions["encoding/json.Unmarshal does not panic; what it stores in a fresh value is a function of the text (any value of the type, also on error)"] = true
		if !zeroish(force(x.loadLoc(st, p.alts[0].loc))) {
			panic(unsup("json.Unmarshal into a value that is not fresh"))
		}
		x.storeLoc(st, p.alts[0].loc, True, x.input(nm, []*Term{s}, t, false))
		return x.errIf(Not(UF(nm+"!ok", SBool, s)))
	})
}

func zeroish(v Value) bool {
	switch k := force(v).(type) {
	case *Term:
		return k == False || k.IsNum() && k.Num.Sign() == 0 || k.Op == "lit" && k.Str == "" || k.Sort.K != KBool && k.Sort.K != KStr && k == NumC(k.Sort, 0)
	case *PtrV:
		return isNilPtr(k) == True
	case *MapRef:
		return isNilPtr(k.p) == True
	case *SliceV:
		return k.len == IntC(0)
	case *StructV:
		for _, f := range k.f {
			if !zeroish(f) {
				return false
			}
		}
		return true
	case *OpaqueV:
		return true
	case *CellSeq:
		for _, f := range k.cells {
			if !zeroish(f) {
				return false
			}
		}
		return true
	case *IfaceV:
		return len(k.alts) == 1 && k.alts[0].typ == nil && k.alts[0].opq == nil
	}
	return false
}
