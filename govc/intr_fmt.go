package main

import (
	"fmt"
	"go/token"
	"go/types"
	"regexp"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// String functions of the standard library on ropes (literals, decimal numbers, unknown strings with a byte class).

// ufStr: an opaque string determined by name and args, with a byte class and minimal length
func ufStr(name string, cls Class, min int, args ...*Term) *Term {
	strFacts[name] = strFact{cls: cls, min: min}
	return UF(name, SStr, args...)
}

var classFloat = func() Class { return classOfLit("0123456789.-+NaIinf") }()
var classB64 = func() Class {
	return classRange('A', 'Z').union(classRange('a', 'z')).union(classDigit).union(classOfLit("+/="))
}()
var classHex = func() Class { return classDigit.union(classRange('a', 'f')).union(classRange('A', 'F')) }()

const spaceBytes = "\t\n\v\f\r \x85\xa0" // bytes that may take part in white space (ASCII ones; multi-byte ones end in >= 0x80)

var classSpaceAny = classOfLit("\t\n\v\f\r ").union(classRange(0x80, 0xff))

// ---- strmap: a per-string transformation kept symbolic on unknown pieces

type strFn struct {
	lit  func(arg, s string) string      // on literals
	cls  func(arg string, c Class) Class // class of the result
	homo bool                            // distributes over concatenation
	id   func(arg string, c Class) bool  // identity on strings of the class
}

var strFns = map[string]strFn{
	"replace": { // arg: old byte, new string
		lit: func(arg, s string) string { return strings.ReplaceAll(s, arg[:1], arg[1:]) },
		cls: func(arg string, c Class) Class {
			d := c.inter(classOfLit(arg[:1]).not())
			if c.has(arg[0]) {
				d = d.union(classOfLit(arg[1:]))
			}
			return d
		},
		homo: true,
		id:   func(arg string, c Class) bool { return !c.has(arg[0]) },
	},
	"squash": { // white space removed
		lit:  func(_, s string) string { return strings.Join(strings.Fields(s), "") },
		cls:  func(_ string, c Class) Class { return c.inter(classOfLit("\t\n\v\f\r ").not()) },
		homo: true,
		id:   func(_ string, c Class) bool { return c.disjoint(classSpaceAny) },
	},
	"trimspace": {
		lit: func(_, s string) string { return strings.TrimSpace(s) },
		cls: func(_ string, c Class) Class { return c },
		id:  func(_ string, c Class) bool { return c.disjoint(classSpaceAny) },
	},
}

func strMap(fn, arg string, s *Term) *Term {
	f := strFns[fn]
	switch s.Op {
	case "lit":
		return StrC(f.lit(arg, s.Str))
	case "ite":
		return Ite(s.Args[0], strMap(fn, arg, s.Args[1]), strMap(fn, arg, s.Args[2]))
	case "concat":
		if f.homo {
			var out []*Term
			for _, p := range s.Args {
				out = append(out, strMap(fn, arg, p))
			}
			return Concat(out...)
		}
	}
	if f.id(arg, clsOf(s)) {
		return s
	}
	if fn == "squash" {
		switch s.Op {
		case "strmap":
			if strings.HasPrefix(s.Str, "trimspace:") {
				return strMap(fn, arg, s.Args[0])
			}
			if strings.HasPrefix(s.Str, "replace:") && strings.TrimSpace(s.Str[len("replace:"):]) == "" {
				return strMap(fn, arg, s.Args[0])
			}
		case "joinfam":
			return joinFam(strFns["squash"].lit("", s.Str), s.Args[0], strMap(fn, arg, s.Args[1]))
		}
	}
	if fn == "replace" && s.Op == "jointrim" && s.Str != arg[:1] && !strings.Contains(arg[1:], s.Str) && len(arg) > 1 {
		// fields keep being empty or not, separators are untouched
		var fs []*Term
		for _, a := range s.Args {
			fs = append(fs, strMap(fn, arg, a))
		}
		if r := JoinTrim(s.Str, fs); r != nil {
			return r
		}
	}
	if fn == "replace" && s.Op == "joinfam" {
		return joinFam(f.lit(arg, s.Str), s.Args[0], strMap(fn, arg, s.Args[1]))
	}
	if fn == "trimspace" && s.Op == "concat" {
		as := append([]*Term{}, s.Args...)
		if l := as[0]; l.Op == "lit" {
			as[0] = StrC(strings.TrimLeft(l.Str, "\t\n\v\f\r "))
		}
		if l := as[len(as)-1]; l.Op == "lit" {
			as[len(as)-1] = StrC(strings.TrimRight(l.Str, "\t\n\v\f\r "))
		}
		if as[0] != s.Args[0] || as[len(as)-1] != s.Args[len(as)-1] {
			return strMap(fn, arg, Concat(as...))
		}
		a, b := s.Args[0], s.Args[len(s.Args)-1]
		if trimmedEnd(a, true) && trimmedEnd(b, false) {
			return s
		}
	}
	return mk("strmap", SStr, fn+":"+arg, nil, nil, s)
}
func trimmedEnd(p *Term, front bool) bool {
	if p.Op == "lit" {
		if front {
			return p.Str == strings.TrimLeft(p.Str, "\t\n\v\f\r ") && p.Str[0] < 0x80
		}
		return p.Str == strings.TrimRight(p.Str, "\t\n\v\f\r ") && p.Str[len(p.Str)-1] < 0x80
	}
	return minLen(p) > 0 && clsOf(p).disjoint(classSpaceAny)
}

// joinFam: strings.Join of the family body(k), 0 <= k < n, k being the canonical variable joinK
var joinK = Var("join!k", SInt)

func joinFam(sep string, n, body *Term) *Term {
	if body.Op == "ite" {
		// 0 <= k < n; one formula for k >= 1 that also covers k = 0 replaces the case distinction
		in := Subst(body, map[*Term]*Term{Lt(Add(joinK, IntC(-1)), Add(n, IntC(-1))): True, Lt(joinK, n): True, Lt(joinK, IntC(0)): False})
		pos := Subst(in, map[*Term]*Term{Lt(Add(joinK, IntC(-1)), IntC(0)): False, Eq(joinK, IntC(0)): False, Lt(joinK, IntC(1)): False, Lt(IntC(0), joinK): True})
		zero := map[*Term]*Term{joinK: IntC(0)}
		if Subst(pos, zero) == Subst(in, zero) {
			body = pos
		} else {
			body = in
		}
	}
	if body.Op == "lit" && body.Str == "" && sep == "" {
		return StrC("")
	}
	// joining what was split
	if body.Op == "uf" && strings.HasPrefix(body.Str, "split:") && body.Args[len(body.Args)-1] == joinK && body.Str == "split:"+sep &&
		n == splitLen(sep, body.Args[0]) {
		return body.Args[0]
	}
	// the separator disappears under squash
	if body.Op == "strmap" && body.Str == "squash:" && sep == "" {
		b := body.Args[0]
		if b.Op == "uf" && strings.HasPrefix(b.Str, "split:") && b.Args[1] == joinK && n == splitLen(b.Str[6:], b.Args[0]) && strings.TrimSpace(b.Str[6:]) == "" {
			return strMap("squash", "", b.Args[0])
		}
	}
	return mk("joinfam", SStr, sep, nil, nil, n, body)
}
func splitLen(sep string, s *Term) *Term {
	nm := "splitlen:" + sep
	setRangeMin1(nm)
	return UF(nm, SInt, s)
}

func init() {
	strRebuild["strmap"] = func(t *Term, a []*Term) *Term {
		i := strings.IndexByte(t.Str, ':')
		return strMap(t.Str[:i], t.Str[i+1:], a[0])
	}
	strRebuild["joinfam"] = func(t *Term, a []*Term) *Term { return joinFam(t.Str, a[0], a[1]) }
	strRebuild["implode"] = func(t *Term, a []*Term) *Term { return implode(t.Str, a) }
}

// implode: the fields joined by sep, trailing empty fields dropped
func implode(sep string, fs []*Term) *Term {
	if r := JoinTrim(sep, append([]*Term{}, fs...)); r != nil {
		return r
	}
	return mk("implode", SStr, sep, nil, nil, fs...)
}

// cellsOf: the elements of a slice of known length
func (x *Exec) cellsOf(st *State, sv *SliceV) ([]Value, bool) {
	q := x.viewSeq(st, sv)
	n, ok := q.Len().Int64()
	if !ok || n > 256 {
		return nil, false
	}
	out := make([]Value, n)
	for i := range out {
		out[i] = force(x.seqAt(q, IntC(int64(i))))
	}
	return out, true
}

// bytesInClass: literal function results
func (x *Exec) sprintfOp(st *State, format string, ops []Value) *Term {
	var out []*Term
	oi := 0
	for i := 0; i < len(format); {
		j := strings.IndexByte(format[i:], '%')
		if j < 0 {
			out = append(out, StrC(format[i:]))
			break
		}
		if j > 0 {
			out = append(out, StrC(format[i:i+j]))
		}
		i += j + 1
		m := regexp.MustCompile(`^[-+# 0]*[0-9]*(\.[0-9]+)?[a-zA-Z%]`).FindString(format[i:])
		if m == "" {
			panic(unsup("format %q", format))
		}
		i += len(m)
		if m == "%" {
			out = append(out, StrC("%"))
			continue
		}
		if oi >= len(ops) {
			panic(unsup("format %q lacks operands", format))
		}
		iv, ok := force(ops[oi]).(*IfaceV)
		oi++
		if !ok {
			panic(unsup("Sprintf operand %T", ops[oi-1]))
		}
		if len(iv.alts) != 1 || iv.alts[0].typ == nil {
			out = append(out, x.fresh("fmt.opq", SStr))
			continue
		}
		al := iv.alts[0]
		v := force(al.val)
		t, isT := v.(*Term)
		verb := m[len(m)-1]
		b, isB := al.typ.Underlying().(*types.Basic)
		stringer := hasMethod(al.typ, "String") || hasMethod(al.typ, "Error")
		switch {
		case isT && isB && m == "d" && b.Info()&types.IsInteger != 0, isT && isB && m == "v" && b.Info()&types.IsInteger != 0 && !stringer:
			out = append(out, Dec(x.toInt(t, al.typ)))
		case isT && isB && (m == "s" || m == "v") && b.Info()&types.IsString != 0 && !stringer:
			out = append(out, t)
		case isT && isB && b.Info()&types.IsFloat != 0 && (verb == 'f'):
			out = append(out, ufStr("fmt.%"+m, classFloat, 1, t))
		case isT && isB && b.Info()&types.IsInteger != 0 && (verb == 'x' || verb == 'X'):
			out = append(out, ufStr("fmt.%"+m, classHex.union(classOfLit("- ")), 1, x.toInt(t, al.typ)))
		case isT && isB && b.Info()&types.IsInteger != 0 && verb == 'd':
			out = append(out, ufStr("fmt.%"+m, classDigit.union(classOfLit("-+ ")), 1, x.toInt(t, al.typ)))
		case isT && isB && b.Info()&types.IsBoolean != 0 && (verb == 't' || verb == 'v'):
			out = append(out, Ite(t, StrC("true"), StrC("false")))
		case isT && isB:
			out = append(out, UF("fmt.%"+m+":"+b.Name(), SStr, t))
		default:
			out = append(out, x.fresh("fmt.opq", SStr))
		}
	}
	return Concat(out...)
}
func hasMethod(t types.Type, name string) bool {
	o, _, _ := types.LookupFieldOrMethod(t, false, nil, name)
	_, ok := o.(*types.Func)
	return ok
}

// Atoi of a rope: (value, ok)
func atoiTerm(s *Term) (*Term, *Term) {
	switch s.Op {
	case "lit":
		n, err := strconv.Atoi(s.Str)
		return IntC(int64(n)), BoolC(err == nil)
	case "dec":
		return s.Args[0], True
	case "ite":
		v1, o1 := atoiTerm(s.Args[1])
		v2, o2 := atoiTerm(s.Args[2])
		return Ite(s.Args[0], v1, v2), Ite(s.Args[0], o1, o2)
	case "concat":
		// leading zeros in front of a number, or not a number at all
		if len(s.Args) == 2 && s.Args[0].Op == "lit" && strings.Trim(s.Args[0].Str, "0") == "" && s.Args[1].Op == "dec" && nonNeg(s.Args[1].Args[0]) {
			return s.Args[1].Args[0], True
		}
		for _, p := range s.Args {
			if clsOf(p).disjoint(classDigit.union(classOfLit("+-"))) && minLen(p) > 0 {
				return IntC(0), False
			}
		}
	}
	v := UF("strconv.Atoi", SInt, s)
	setIntRange("strconv.Atoi")
	ok := UF("strconv.Atoi.ok", SBool, s)
	return v, ok
}
func setIntRange(n string) { setRange(n, types.Typ[types.Int]) }

func (x *Exec) errIf(bad *Term) Value {
	if bad == False {
		return &IfaceV{alts: []IfaceAlt{{g: True}}}
	}
	return &IfaceV{alts: []IfaceAlt{{g: Not(bad)}, {g: bad, opq: x.fresh("err", SU)}}}
}

func (x *Exec) strSlice(st *State, q Seq) *SliceV {
	o := newObj("strs", types.NewSlice(types.Typ[types.String]))
	st.mem[o] = q
	n := q.Len()
	return &SliceV{arr: &Loc{obj: o}, off: IntC(0), len: n, cap: n, isnil: False, full: True}
}

// splitRope: fields of s at every occurrence of sep
func (x *Exec) splitRope(st *State, s *Term, sep string) Seq {
	if s.Op == "ite" {
		return &IteSeq{s.Args[0], x.splitRope(st, s.Args[1], sep), x.splitRope(st, s.Args[2], sep)}
	}
	var out []Value
	cur := []*Term{}
	ps := pieces(s)
	for pi, p := range ps {
		if p.Op == "lit" {
			parts := strings.Split(p.Str, sep)
			for i, pt := range parts {
				if i > 0 {
					out = append(out, Concat(cur...))
					cur = nil
				}
				cur = append(cur, StrC(pt))
			}
			continue
		}
		if len(sep) == 1 && clsOf(p).disjoint(classOfLit(sep)) {
			cur = append(cur, p)
			continue
		}
		if p.Op == "jointrim" && p.Str == sep && pi == len(ps)-1 {
			// 1 + index of the last non-empty field; the fields in front of it
			var segs []Seg
			for _, v := range out {
				segs = append(segs, Seg{g: True, v: v})
			}
			last := make([]*Term, len(p.Args)+1) // last[i]: some field >= i is not empty
			last[len(p.Args)] = False
			for i := len(p.Args) - 1; i >= 0; i-- {
				last[i] = Or(Not(StrEmpty(p.Args[i])), last[i+1])
			}
			for i, f := range p.Args {
				g := last[i]
				v := f
				if i == 0 {
					g = True
					v = Concat(append(append([]*Term{}, cur...), f)...)
				}
				segs = append(segs, Seg{g: g, v: v})
			}
			return &SegSeq{segs}
		}
		// unknown number of fields
		if len(ps) != 1 {
			panic(unsup("strings.Split of %s at %q", s, sep))
		}
		return &FnSeq{n: splitLen(sep, s), name: "split", at: func(i *Term) Value {
			return ufStr("split:"+sep, clsOf(s).inter(splitCls(sep)), 0, s, i)
		}}
	}
	out = append(out, Concat(cur...))
	return &CellSeq{out}
}
func splitCls(sep string) Class {
	if len(sep) == 1 {
		return classOfLit(sep).not()
	}
	return classAny
}

func (x *Exec) joinOp(st *State, sv *SliceV, sep string) *Term {
	q := x.viewSeq(st, sv)
	return x.joinSeq(q, sep)
}
func (x *Exec) joinSeq(q Seq, sep string) *Term {
	switch s := q.(type) {
	case *CellSeq:
		var out []*Term
		for i, c := range s.cells {
			if i > 0 {
				out = append(out, StrC(sep))
			}
			out = append(out, tm(c))
		}
		return Concat(out...)
	case *IteSeq:
		return Ite(s.c, x.joinSeq(s.a, sep), x.joinSeq(s.b, sep))
	case *SegSeq:
		var out []*Term
		any := False
		for _, sg := range s.segs {
			if sg.k != nil || sg.acc != nil || sg.ref != nil {
				if len(s.segs) == 1 && sg.k != nil && len(sg.body) == 1 && sg.body[0].g == True && sg.body[0].v != nil {
					body := Subst(tm(sg.body[0].v), map[*Term]*Term{sg.k: Add(joinK, sg.lo)})
					return Ite(sg.g, joinFam(sep, Sub(sg.hi, sg.lo), body), StrC(""))
				}
				panic(unsup("strings.Join of families"))
			}
			v := tm(sg.v)
			out = append(out, Ite(sg.g, Ite(any, Concat(StrC(sep), v), v), StrC("")))
			any = Or(any, sg.g)
		}
		return Concat(out...)
	}
	return joinFam(sep, q.Len(), tm(x.seqAt(q, joinK)))
}

// protoEmpty: every exported field has its zero value
func (x *Exec) protoEmpty(v Value, t types.Type) *Term {
	v = force(v)
	var cs []*Term
	x.assumptions["messages carry no unknown protobuf fields (proto.Equal compares the declared ones)"] = true
	u := t.Underlying().(*types.Struct)
	sv := v.(*StructV)
	for i := 0; i < u.NumFields(); i++ {
		f := u.Field(i)
		if !f.Exported() {
			continue
		}
		switch w := force(sv.f[i]).(type) {
		case *Term:
			switch w.Sort.K {
			case KBool:
				cs = append(cs, Not(w))
			case KStr:
				cs = append(cs, StrEmpty(w))
			default:
				cs = append(cs, Eq(w, NumC(w.Sort, 0)))
			}
		case *PtrV:
			cs = append(cs, isNilPtr(w))
		case *SliceV:
			cs = append(cs, Eq(w.len, IntC(0)))
		case *MapRef:
			panic(unsup("proto.Equal with a map"))
		default:
			panic(unsup("proto.Equal with %T", w))
		}
	}
	return And(cs...)
}

func init() {
	type args = []Value
	R := func(name string, f func(x *Exec, st *State, a args, c *ssa.CallCommon, pos token.Pos) Value) {
		reg([]string{name}, func(x *Exec, fr *Frame, st *State, a []Value, c *ssa.CallCommon, pos token.Pos) Value { return f(x, st, a, c, pos) })
	}
	R("fmt.Sprintf", func(x *Exec, st *State, a args, c *ssa.CallCommon, pos token.Pos) Value {
		cs, ok := x.cellsOf(st, a[1].(*SliceV))
		if !ok {
			panic(unsup("fmt.Sprintf with an unknown number of operands"))
		}
		x.assumptions["fmt.Sprintf prints %d, %s, %t as documented"] = true
		return x.sprintfOp(st, litOf(a[0]), cs)
	})
	R("strconv.Itoa", func(x *Exec, st *State, a args, c *ssa.CallCommon, pos token.Pos) Value { return Dec(tm(a[0])) })
	R("strconv.FormatInt", func(x *Exec, st *State, a args, c *ssa.CallCommon, pos token.Pos) Value {
		if n, ok := tm(a[1]).Int64(); ok && n == 10 {
			return Dec(tm(a[0]))
		}
		panic(unsup("strconv.FormatInt base"))
	})
	R("strconv.Atoi", func(x *Exec, st *State, a args, c *ssa.CallCommon, pos token.Pos) Value {
		v, ok := atoiTerm(tm(a[0]))
		return TupleV{v, x.errIf(Not(ok))}
	})
	R("strconv.ParseFloat", func(x *Exec, st *State, a args, c *ssa.CallCommon, pos token.Pos) Value {
		s := tm(a[0])
		v := iteStr(s, func(s *Term) *Term {
			return UF("strconv.ParseFloat", SReal, s)
		})
		return TupleV{v, x.errIf(UF("strconv.ParseFloat.bad", SBool, s))}
	})
	R("strings.Join", func(x *Exec, st *State, a args, c *ssa.CallCommon, pos token.Pos) Value {
		return x.joinOp(st, a[0].(*SliceV), litOf(a[1]))
	})
	R("strings.Split", func(x *Exec, st *State, a args, c *ssa.CallCommon, pos token.Pos) Value {
		return x.strSlice(st, x.splitRope(st, tm(a[0]), litOf(a[1])))
	})
	R("strings.TrimSpace", func(x *Exec, st *State, a args, c *ssa.CallCommon, pos token.Pos) Value { return strMap("trimspace", "", tm(a[0])) })
	R("strings.ReplaceAll", func(x *Exec, st *State, a args, c *ssa.CallCommon, pos token.Pos) Value {
		old, nw := litOf(a[1]), litOf(a[2])
		if len(old) != 1 {
			return iteStr(tm(a[0]), func(s *Term) *Term {
				if s.Op == "lit" {
					return StrC(strings.ReplaceAll(s.Str, old, nw))
				}
				return UF("ReplaceAll:"+old+":"+nw, SStr, s)
			})
		}
		return strMap("replace", old+nw, tm(a[0]))
	})
	suffix := func(pre bool) func(x *Exec, st *State, a args, c *ssa.CallCommon, pos token.Pos) Value {
		return func(x *Exec, st *State, a args, c *ssa.CallCommon, pos token.Pos) Value {
			l := litOf(a[1])
			return iteStr(tm(a[0]), func(s *Term) *Term {
				if q := x.strSeqs[s]; q != nil && pre && len(l) <= 16 {
					r := Ge(q.Len(), IntC(int64(len(l))))
					for i := 0; i < len(l); i++ {
						r = And(r, Eq(tm(x.seqAt(q, IntC(int64(i)))), BVC(8, int64(l[i]))))
					}
					return r
				}
				ps := pieces(s)
				if len(ps) == 0 {
					return BoolC(l == "")
				}
				e := ps[len(ps)-1]
				if pre {
					e = ps[0]
				}
				if e.Op == "lit" && (len(e.Str) >= len(l) || len(ps) == 1) {
					if pre {
						return BoolC(strings.HasPrefix(e.Str, l))
					}
					return BoolC(strings.HasSuffix(e.Str, l))
				}
				if minLen(e) > 0 {
					b := l[len(l)-1]
					if pre {
						b = l[0]
					}
					if !clsOf(e).has(b) {
						return False
					}
				}
				r := UF("strings.HasSuffix:"+l, SBool, s)
				if pre {
					r = UF("strings.HasPrefix:"+l, SBool, s)
				}
				x.addFact(Or(Not(r), Ge(StrLen(s), IntC(int64(len(l))))), nil)
				return r
			})
		}
	}
	R("strings.HasSuffix", suffix(false))
	R("strings.HasPrefix", suffix(true))
	R(modPath+".vImplode", func(x *Exec, st *State, a args, c *ssa.CallCommon, pos token.Pos) Value {
		cs, ok := x.cellsOf(st, a[0].(*SliceV))
		if !ok {
			panic(unsup("vImplode of an unknown number of fields"))
		}
		var fs []*Term
		for _, v := range cs {
			fs = append(fs, tm(v))
		}
		return implode(litOf(a[1]), fs)
	})
	R(suPath+".StringImplodeRemoveTrailingEmpty", func(x *Exec, st *State, a args, c *ssa.CallCommon, pos token.Pos) Value {
		cs, ok := x.cellsOf(st, a[0].(*SliceV))
		if !ok {
			panic(unsup("StringImplodeRemoveTrailingEmpty of an unknown number of fields"))
		}
		x.assumptions["ibeam-lib-utils StringImplodeRemoveTrailingEmpty joins the fields up to the last non-empty one"] = true
		var fs []*Term
		for _, v := range cs {
			fs = append(fs, tm(v))
		}
		return implode(litOf(a[1]), fs)
	})
	R("(*encoding/base64.Encoding).EncodeToString", func(x *Exec, st *State, a args, c *ssa.CallCommon, pos token.Pos) Value {
		sv := a[1].(*SliceV)
		x.assumptions["base64 encodes and decodes losslessly into its documented alphabet"] = true
		if sv.len == IntC(0) {
			return StrC("")
		}
		o := sv.arr.obj
		if !o.input || len(sv.arr.path) > 0 || st.mem[o] != nil && !sameVal(st.mem[o], x.initOf(o)) {
			return x.fresh("b64", SStr)
		}
		b64Src[o.name] = sv.arr
		return ufStr("b64:"+o.name, classB64, 0, append(append([]*Term{}, o.args...), sv.off, sv.len)...)
	})
	R("(*encoding/base64.Encoding).DecodeString", func(x *Exec, st *State, a args, c *ssa.CallCommon, pos token.Pos) Value {
		x.assumptions["base64 decoding is a function of the text"] = true
		s := tm(a[1])
		if loc := b64Src[strings.TrimPrefix(s.Str, "b64:")]; s.Op == "uf" && loc != nil && strings.HasPrefix(s.Str, "b64:") {
			src := loc.obj
			if len(src.args) == len(s.Args)-2 {
				same := true
				for i, t := range src.args {
					same = same && t == s.Args[i]
				}
				if same { // the bytes that were encoded
					x.assumptions["base64 encodes and decodes losslessly into its documented alphabet"] = true
					off, n := s.Args[len(s.Args)-2], s.Args[len(s.Args)-1]
					o := newObj("bytes", types.NewSlice(types.Typ[types.Byte]))
					st.mem[o] = x.window(x.initOf(src).(Seq), off, n)
					return TupleV{&SliceV{arr: &Loc{obj: o}, off: IntC(0), len: n, cap: n, isnil: False}, x.errIf(False)}
				}
			}
		}
		t := UF("b64dec", SStr, s)
		o := newObj("bytes", types.NewSlice(types.Typ[types.Byte]))
		st.mem[o] = bytesOf(t)
		n := StrLen(t)
		return TupleV{&SliceV{arr: &Loc{obj: o}, off: IntC(0), len: n, cap: n, isnil: False}, x.errIf(UF("b64dec.bad", SBool, s))}
	})
	R("google.golang.org/protobuf/proto.Equal", func(x *Exec, st *State, a args, c *ssa.CallCommon, pos token.Pos) Value {
		x.assumptions["proto.Equal compares every field and the unknown fields"] = true
		p, ok1 := ifacePtr(a[0])
		q, ok2 := ifacePtr(a[1])
		if !ok1 || !ok2 {
			panic(unsup("proto.Equal operands"))
		}
		// one side is a new empty message
		for k := 0; k < 2; k++ {
			if len(q.p.alts) == 1 && q.p.alts[0].loc != nil && types.Identical(p.t, q.t) {
				l := q.p.alts[0].loc
				if !l.obj.input && len(l.path) == 0 && x.protoEmpty(x.content(st, l.obj), q.t) == True {
					r := False
					for _, al := range p.p.alts {
						if al.loc != nil {
							r = Or(r, And(al.g, x.protoEmpty(x.loadLoc(st, al.loc), p.t)))
						}
					}
					return r
				}
			}
			p, q = q, p
		}
		panic(unsup("proto.Equal of two unknown messages"))
	})
	for _, n := range []string{"Println", "Printf", "Print", "Warn", "Warnln", "Warnf", "Error", "Errorln", "Errorf", "Debug", "Debugln", "Debugf", "Info", "Infoln", "Infof", "Trace", "Traceln", "Tracef"} {
		R("github.com/s00500/env_logger."+n, func(x *Exec, st *State, a args, c *ssa.CallCommon, pos token.Pos) Value { return nil })
	}
	R("bytes.IndexByte", func(x *Exec, st *State, a args, c *ssa.CallCommon, pos token.Pos) Value {
		q := x.viewSeq(st, a[0].(*SliceV))
		cs, ok := q.(*CellSeq)
		if n, con := q.Len().Int64(); !ok && con && n <= 64 {
			cs, ok = &CellSeq{}, true
			for i := int64(0); i < n; i++ {
				cs.cells = append(cs.cells, x.seqAt(q, IntC(i)))
			}
		}
		if !ok {
			panic(unsup("bytes.IndexByte in a sequence of unknown length"))
		}
		r := IntC(-1)
		for i := len(cs.cells) - 1; i >= 0; i-- {
			r = Ite(Eq(tm(cs.cells[i]), tm(a[1])), IntC(int64(i)), r)
		}
		return r
	})
	R("github.com/s00500/env_logger.WithError", func(x *Exec, st *State, a args, c *ssa.CallCommon, pos token.Pos) Value { return ptrTo(newObj("log.Entry", nil)) })
	for _, n := range []string{"Debug", "Debugln", "Debugf", "Info", "Infoln", "Infof", "Warn", "Warnln", "Warnf", "Error", "Errorln", "Errorf", "Trace", "Traceln", "Tracef"} {
		R("(*github.com/s00500/env_logger.Entry)."+n, func(x *Exec, st *State, a args, c *ssa.CallCommon, pos token.Pos) Value { return nil })
	}
	R("github.com/s00500/env_logger.Indent", func(x *Exec, st *State, a args, c *ssa.CallCommon, pos token.Pos) Value { return x.fresh("log.Indent", SStr) })
}

var b64Src = map[string]*Loc{}

type ptrIface struct {
	p *PtrV
	t types.Type
}

func ifacePtr(v Value) (ptrIface, bool) {
	iv, ok := force(v).(*IfaceV)
	if !ok || len(iv.alts) != 1 || iv.alts[0].typ == nil || !isPtrToStruct(iv.alts[0].typ) {
		return ptrIface{}, false
	}
	p, ok := force(iv.alts[0].val).(*PtrV)
	return ptrIface{p, iv.alts[0].typ.Underlying().(*types.Pointer).Elem()}, ok
}

// tryMapLoop: `for i := range s { s[i] = f(s[i]) }` over a guarded sequence: every element is mapped, the order is kept
func (x *Exec) tryMapLoop(fr *Frame, h *ssa.BasicBlock, body map[*ssa.BasicBlock]bool, st *State, phi *ssa.Phi, segs []Seg) (ok bool) {
	var stores int
	var tgt ssa.Value
	for b := range body {
		for _, in := range b.Instrs {
			switch i := in.(type) {
			case *ssa.Store:
				ia, isIA := i.Addr.(*ssa.IndexAddr)
				if !isIA {
					return false
				}
				if d, ok := ia.X.(ssa.Instruction); ok && body[d.Block()] {
					return false // an array of the iteration
				}
				stores++
				tgt = ia.X
			case *ssa.MapUpdate, *ssa.Send, *ssa.Go, *ssa.Defer:
				return false
			}
		}
	}
	if stores == 0 {
		return false
	}
	sv, isS := x.get(fr, st, tgt).(*SliceV)
	if !isS || sv.arr == nil || len(sv.arr.path) > 0 || sv.off != IntC(0) {
		return false
	}
	o := sv.arr.obj
	q, isSeg := x.content(st, o).(*SegSeq)
	if !isSeg || segsLen(q.segs) != sv.len {
		return false
	}
	for _, sg := range segs {
		if sg.acc != nil {
			return false
		}
	}
	at, isT := o.typ.Underlying().(*types.Slice)
	if !isT || sortOf(at.Elem()) == nil {
		return false
	}
	es := sortOf(at.Elem())
	freshCnt["elt"]++
	nm := fmt.Sprintf("elt!%d", freshCnt["elt"])
	c := st.clone()
	sym := &FnSeq{n: sv.len, name: nm, at: func(i *Term) Value { return UF(nm, es, i) }}
	c.mem[o] = sym
	k := x.newK("m")
	c.env[phi] = Sub(k, IntC(1))
	c.g = And(c.g, Le(IntC(0), k), Lt(k, sv.len))
	ex, backs := x.runRegionForced(fr, body, h, c, h, nil, true)
	if len(ex) > 0 || len(backs) != 1 {
		return false
	}
	b := backs[0].st
	var ws []arrWrite
	nq, isQ := b.mem[o].(Seq)
	if !isQ || !collectWrites(nq, sym, True, &ws) || len(ws) != 1 || ws[0].idx != k || ws[0].g != True {
		return false
	}
	for oo, v := range b.mem {
		if oo == o {
			continue
		}
		if old, in := st.mem[oo]; in {
			if !sameVal(old, v) {
				return false
			}
		} else if oo.init != nil && !sameVal(x.initOf(oo), v) {
			return false
		}
	}
	T, isTerm := force(ws[0].v).(*Term)
	if !isTerm {
		return false
	}
	e := UF(nm, es, k)
	bad := false
	walkTerms(T, func(t *Term) {
		if t == k || t.Op == "uf" && t.Str == nm && t != e {
			bad = true
		}
	}, map[interface{}]bool{})
	if bad {
		// k may only occur inside the element
		d := Subst(T, map[*Term]*Term{e: Var(nm+".e", es)})
		if d.contains(k, map[int]bool{}) {
			return false
		}
		again := false
		walkTerms(d, func(t *Term) {
			if t.Op == "uf" && t.Str == nm {
				again = true
			}
		}, map[interface{}]bool{})
		if again {
			return false
		}
	}
	var mp func(in []Seg) []Seg
	mp = func(in []Seg) []Seg {
		out := make([]Seg, len(in))
		for i, sg := range in {
			if sg.k != nil {
				sg.body = mp(sg.body)
			} else if sg.ref != nil {
				sg.ref = &FnSeq{n: sg.ref.Len(), name: "mapped", at: func(r Seq) func(*Term) Value {
					return func(i *Term) Value { return Subst(T, map[*Term]*Term{e: tm(x.seqAt(r, i))}) }
				}(sg.ref)}
			} else {
				sg.v = Subst(T, map[*Term]*Term{e: tm(sg.v)})
			}
			out[i] = sg
		}
		return out
	}
	st.mem[o] = &SegSeq{mp(q.segs)}
	return true
}
