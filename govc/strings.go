package main

import (
	"math/big"
	"sort"
	"strconv"
	"strings"
)

// ---------------------------------------------------------------- byte classes

type Class [4]uint64

func (c *Class) add(b byte)           { c[b>>6] |= 1 << (b & 63) }
func (c Class) has(b byte) bool       { return c[b>>6]&(1<<(b&63)) != 0 }
func (c Class) union(d Class) Class   { return Class{c[0] | d[0], c[1] | d[1], c[2] | d[2], c[3] | d[3]} }
func (c Class) inter(d Class) Class   { return Class{c[0] & d[0], c[1] & d[1], c[2] & d[2], c[3] & d[3]} }
func (c Class) empty() bool           { return c[0]|c[1]|c[2]|c[3] == 0 }
func (c Class) subset(d Class) bool   { return c.inter(d) == c }
func (c Class) not() Class            { return Class{^c[0], ^c[1], ^c[2], ^c[3]} }
func (c Class) disjoint(d Class) bool { return c.inter(d).empty() }

func classRange(a, b byte) (c Class) {
	for i := int(a); i <= int(b); i++ {
		c.add(byte(i))
	}
	return
}
func classOfLit(s string) (c Class) {
	for i := 0; i < len(s); i++ {
		c.add(s[i])
	}
	return
}

var classAny = Class{^uint64(0), ^uint64(0), ^uint64(0), ^uint64(0)}
var classDigit = classRange('0', '9')

// strFacts: assumed (by construction of the input) byte class and minimal length of string variables
type strFact struct {
	cls     Class
	min     int
	lastNot Class // bytes the last character cannot be
}

var strFacts = map[string]strFact{}

func strKey(t *Term) string {
	return t.Str
}

func clsOf(t *Term) Class {
	switch t.Op {
	case "lit":
		return classOfLit(t.Str)
	case "dec":
		c := classDigit
		if !nonNeg(t.Args[0]) {
			c.add('-')
		}
		return c
	case "udec":
		return classDigit
	case "concat":
		var c Class
		for _, a := range t.Args {
			c = c.union(clsOf(a))
		}
		return c
	case "jointrim":
		c := classOfLit(t.Str)
		for _, a := range t.Args {
			c = c.union(clsOf(a))
		}
		return c
	case "ite":
		return clsOf(t.Args[1]).union(clsOf(t.Args[2]))
	case "strmap": // per-string transformation
		i := strings.IndexByte(t.Str, ':')
		return strFns[t.Str[:i]].cls(t.Str[i+1:], clsOf(t.Args[0]))
	case "joinfam":
		return classOfLit(t.Str).union(clsOf(t.Args[1]))
	case "implode":
		c := classOfLit(t.Str)
		for _, a := range t.Args {
			c = c.union(clsOf(a))
		}
		return c
	case "var", "uf":
		if f, ok := strFacts[strKey(t)]; ok {
			return f.cls
		}
	}
	return classAny
}

func minLen(t *Term) int {
	switch t.Op {
	case "lit":
		return len(t.Str)
	case "dec", "udec":
		return 1
	case "concat":
		n := 0
		for _, a := range t.Args {
			n += minLen(a)
		}
		return n
	case "ite":
		a, b := minLen(t.Args[1]), minLen(t.Args[2])
		if b < a {
			return b
		}
		return a
	case "var", "uf":
		if f, ok := strFacts[strKey(t)]; ok {
			return f.min
		}
	}
	return 0
}

// nonNeg: term known >= 0 as signed
func nonNeg(t *Term) bool {
	if t.Sort.K == KInt {
		lo, _, ok := bounds(t, 6)
		return ok && lo.Sign() >= 0
	}
	if t.Op == "ite" {
		return nonNeg(t.Args[1]) && nonNeg(t.Args[2])
	}
	if t.IsNum() {
		return t.Signed().Sign() >= 0
	}
	return knownMax(t) < t.Sort.W
}

// Dec: decimal representation of a signed integer
func Dec(x *Term) *Term {
	if x.IsNum() {
		return StrC(x.Num.String())
	}
	if x.Op == "ite" && iteConstLeaves(x, 6) {
		return Ite(x.Args[0], Dec(x.Args[1]), Dec(x.Args[2]))
	}
	return mk("dec", SStr, "", nil, nil, x)
}

func pieces(t *Term) []*Term {
	if t.Op == "concat" {
		return t.Args
	}
	if t.Op == "lit" && t.Str == "" {
		return nil
	}
	return []*Term{t}
}

func Concat(ts ...*Term) *Term {
	var out []*Term
	for _, t := range ts {
		for _, p := range pieces(t) {
			if p.Op == "lit" && len(out) > 0 && out[len(out)-1].Op == "lit" {
				out[len(out)-1] = StrC(out[len(out)-1].Str + p.Str)
				continue
			}
			out = append(out, p)
		}
	}
	if len(out) == 0 {
		return StrC("")
	}
	if len(out) == 1 {
		return out[0]
	}
	return mk("concat", SStr, "", nil, nil, out...)
}

// JoinTrim: strings.TrimRight(strings.Join(fields, sep), sep) for one-byte sep and fields free of sep
func JoinTrim(sep string, fs []*Term) *Term {
	sc := classOfLit(sep)
	for len(fs) > 0 && fs[len(fs)-1] == StrC("") {
		fs = fs[:len(fs)-1]
	}
	if len(fs) == 0 {
		return StrC("")
	}
	for _, f := range fs {
		if !clsOf(f).disjoint(sc) {
			return nil
		}
	}
	if minLen(fs[len(fs)-1]) > 0 {
		var ps []*Term
		for i, f := range fs {
			if i > 0 {
				ps = append(ps, StrC(sep))
			}
			ps = append(ps, f)
		}
		return Concat(ps...)
	}
	return mk("jointrim", SStr, sep, nil, nil, fs...)
}

func init() {
	strRebuild["jointrim"] = func(t *Term, a []*Term) *Term {
		if r := JoinTrim(t.Str, append([]*Term{}, a...)); r != nil {
			return r
		}
		return mk("jointrim", SStr, t.Str, nil, nil, a...)
	}
	strRebuild["strlen"] = func(t *Term, a []*Term) *Term { return StrLen(a[0]) }
}

// StrLen is an Int term
func StrLen(s *Term) *Term {
	switch s.Op {
	case "lit":
		return IntC(int64(len(s.Str)))
	case "concat":
		r := IntC(0)
		for _, p := range s.Args {
			r = Add(r, StrLen(p))
		}
		return r
	case "ite":
		return Ite(s.Args[0], StrLen(s.Args[1]), StrLen(s.Args[2]))
	}
	return mk("strlen", SInt, "", nil, nil, s)
}

// StrEmpty: s == ""
func StrEmpty(s *Term) *Term {
	if minLen(s) > 0 {
		return False
	}
	switch s.Op {
	case "lit":
		return BoolC(s.Str == "")
	case "concat", "jointrim":
		var cs []*Term
		for _, p := range s.Args {
			cs = append(cs, StrEmpty(p))
		}
		return And(cs...)
	case "ite":
		return Ite(s.Args[0], StrEmpty(s.Args[1]), StrEmpty(s.Args[2]))
	}
	e := StrC("")
	return mk("=", SBool, "", nil, nil, s, e)
}

func canonInt(s string) (*big.Int, bool) {
	n, ok := new(big.Int).SetString(s, 10)
	if !ok || n.String() != s {
		return nil, false
	}
	return n, true
}

// possibleIn: could literal l be an instance of the pieces? (over-approximation)
func litMayMatch(l string, ps []*Term) bool {
	// set of reachable positions
	cur := map[int]bool{0: true}
	for _, p := range ps {
		nx := map[int]bool{}
		for pos := range cur {
			for _, e := range litAdvance(l, pos, p) {
				nx[e] = true
			}
		}
		cur = nx
		if len(cur) == 0 {
			return false
		}
	}
	return cur[len(l)]
}
func litAdvance(l string, pos int, p *Term) []int {
	switch p.Op {
	case "lit":
		if strings.HasPrefix(l[pos:], p.Str) {
			return []int{pos + len(p.Str)}
		}
		return nil
	case "ite":
		return append(litAdvance(l, pos, p.Args[1]), litAdvance(l, pos, p.Args[2])...)
	case "concat":
		cur := []int{pos}
		for _, q := range p.Args {
			var nx []int
			seen := map[int]bool{}
			for _, c := range cur {
				for _, e := range litAdvance(l, c, q) {
					if !seen[e] {
						seen[e] = true
						nx = append(nx, e)
					}
				}
			}
			cur = nx
		}
		return cur
	}
	c := clsOf(p)
	m := minLen(p)
	var out []int
	for e := pos; ; e++ {
		if e-pos >= m {
			ok := true
			if p.Op == "dec" {
				_, ok = canonInt(l[pos:e])
			}
			if ok {
				out = append(out, e)
			}
		}
		if e >= len(l) || !c.has(l[e]) {
			break
		}
	}
	return out
}

func firstCls(ps []*Term) (Class, bool) { // class of first byte; bool: surely nonempty
	var c Class
	for _, p := range ps {
		if p.Op == "lit" {
			c.add(p.Str[0])
			return c, true
		}
		if p.Op == "ite" {
			a, x := firstCls(pieces(p.Args[1]))
			b, y := firstCls(pieces(p.Args[2]))
			c = c.union(a).union(b)
			if x && y {
				return c, true
			}
			continue
		}
		if p.Op == "jointrim" {
			c = c.union(clsOf(p))
			continue
		}
		c = c.union(clsOf(p))
		if minLen(p) > 0 {
			return c, true
		}
	}
	return c, false
}

// strEq: decide or simplify equality; nil when it stays an atom
func strEq(a, b *Term) *Term {
	if a == StrC("") {
		return StrEmpty(b)
	}
	if b == StrC("") {
		return StrEmpty(a)
	}
	if a.Op == "lit" {
		a, b = b, a
	}
	if b.Op == "lit" {
		switch a.Op {
		case "dec":
			if n, ok := canonInt(b.Str); ok {
				return Eq(a.Args[0], IntB(n))
			}
			return False
		case "ite":
			return Ite(a.Args[0], Eq(a.Args[1], b), Eq(a.Args[2], b))
		case "jointrim":
			parts := strings.Split(b.Str, a.Str)
			if len(parts) > len(a.Args) || parts[len(parts)-1] == "" {
				return False
			}
			var cs []*Term
			for i, f := range a.Args {
				if i < len(parts) {
					cs = append(cs, Eq(f, StrC(parts[i])))
				} else {
					cs = append(cs, StrEmpty(f))
				}
			}
			return And(cs...)
		case "var", "uf":
			if f, ok := strFacts[strKey(a)]; ok {
				if !classOfLit(b.Str).subset(f.cls) || len(b.Str) < f.min {
					return False
				}
			}
			return nil
		}
	}
	pa, pb := pieces(a), pieces(b)
	if len(pa) == 1 && len(pb) == 1 {
		x, y := pa[0], pb[0]
		if x.Op == "dec" && y.Op == "dec" && x.Args[0].Sort == y.Args[0].Sort {
			return Eq(x.Args[0], y.Args[0])
		}
		if x.Op == "jointrim" && y.Op == "jointrim" && x.Str == y.Str {
			var cs []*Term
			for i := 0; i < len(x.Args) || i < len(y.Args); i++ {
				f, g := StrC(""), StrC("")
				if i < len(x.Args) {
					f = x.Args[i]
				}
				if i < len(y.Args) {
					g = y.Args[i]
				}
				cs = append(cs, Eq(f, g))
			}
			return And(cs...)
		}
		if x.Op == "ite" && (y.Op == "dec" || y.Op == "lit") {
			return Ite(x.Args[0], Eq(x.Args[1], y), Eq(x.Args[2], y))
		}
		if y.Op == "ite" && (x.Op == "dec" || x.Op == "lit") {
			return Ite(y.Args[0], Eq(x, y.Args[1]), Eq(x, y.Args[2]))
		}
		if nx, ny := condLeaves(x), condLeaves(y); nx > 1 && ny > 1 && nx*ny <= 64 {
			if x.Op == "ite" {
				return Ite(x.Args[0], Eq(x.Args[1], y), Eq(x.Args[2], y))
			}
			return Ite(y.Args[0], Eq(x, y.Args[1]), Eq(x, y.Args[2]))
		}
		fx, nx := firstCls(pa)
		fy, ny := firstCls(pb)
		if nx && ny && fx.disjoint(fy) {
			return False
		}
		return nil
	}
	if b.Op == "lit" && !litMayMatch(b.Str, pa) {
		return False
	}
	// strip common prefix
	i := 0
	var cs []*Term
	pa = append([]*Term{}, pa...)
	pb = append([]*Term{}, pb...)
	for len(pa) > i && len(pb) > i {
		x, y := pa[i], pb[i]
		if x == y {
			i++
			continue
		}
		if x.Op == "lit" && y.Op == "lit" {
			n := len(x.Str)
			if len(y.Str) < n {
				n = len(y.Str)
			}
			if x.Str[:n] != y.Str[:n] {
				return False
			}
			if len(x.Str) > n {
				pa[i] = StrC(x.Str[n:])
				pb = append(pb[:i:i], pb[i+1:]...)
			} else if len(y.Str) > n {
				pb[i] = StrC(y.Str[n:])
				pa = append(pa[:i:i], pa[i+1:]...)
			}
			// drop the shared part
			if len(x.Str) == len(y.Str) {
				i++
			}
			continue
		}
		// both digit-blobs delimited by a non-digit next character: compare piecewise
		if isDelim(pa, i) && isDelim(pb, i) && x.Op != "lit" && y.Op != "lit" && clsOf(x).subset(delimCls(pa, i).not()) &&
			clsOf(x).disjoint(nextCls(pb, i)) && clsOf(y).disjoint(nextCls(pa, i)) && clsOf(x).disjoint(nextCls(pa, i)) && clsOf(y).disjoint(nextCls(pb, i)) {
			cs = append(cs, Eq(x, y))
			i++
			continue
		}
		// literal against blob: blob must equal the literal's part up to the delimiter
		if x.Op == "lit" || y.Op == "lit" {
			l, bl, pl, pbl := x, y, &pa, &pb
			if y.Op == "lit" {
				l, bl, pl, pbl = y, x, &pb, &pa
			}
			if isDelim(*pbl, i) {
				nc := nextCls(*pbl, i)
				bc := clsOf(bl)
				if bc.disjoint(nc) {
					k := 0
					for k < len(l.Str) && bc.has(l.Str[k]) {
						k++
					}
					if k < len(l.Str) || i == len(*pl)-1 {
						cs = append(cs, Eq(bl, StrC(l.Str[:k])))
						i2 := *pbl
						*pbl = append(append([]*Term{}, i2[:i]...), i2[i+1:]...)
						if k < len(l.Str) {
							(*pl)[i] = StrC(l.Str[k:])
						} else {
							*pl = append(append([]*Term{}, (*pl)[:i]...), (*pl)[i+1:]...)
						}
						continue
					}
				}
			}
		}
		break
	}
	pa, pb = pa[i:], pb[i:]
	if len(pa) == 0 || len(pb) == 0 {
		for _, p := range append(append([]*Term{}, pa...), pb...) {
			cs = append(cs, StrEmpty(p))
		}
		return And(cs...)
	}
	fx, nx := firstCls(pa)
	fy, ny := firstCls(pb)
	if nx && ny && fx.disjoint(fy) {
		return False
	}
	// common suffix
	for len(pa) > 0 && len(pb) > 0 && pa[len(pa)-1] == pb[len(pb)-1] {
		pa, pb = pa[:len(pa)-1], pb[:len(pb)-1]
	}
	if len(pa) == 0 || len(pb) == 0 {
		for _, p := range append(append([]*Term{}, pa...), pb...) {
			cs = append(cs, StrEmpty(p))
		}
		return And(cs...)
	}
	ra, rb := Concat(pa...), Concat(pb...)
	if ra == a && rb == b || ra == b && rb == a {
		return nil
	}
	cs = append(cs, Eq(ra, rb))
	return And(cs...)
}

// condLeaves: number of alternatives of a conditional string
func condLeaves(t *Term) int {
	if t.Op == "ite" {
		return condLeaves(t.Args[1]) + condLeaves(t.Args[2])
	}
	return 1
}

// isDelim: piece i is followed by something surely non-empty or the end
func isDelim(ps []*Term, i int) bool {
	if i == len(ps)-1 {
		return true
	}
	_, ne := firstCls(ps[i+1:])
	return ne
}
func nextCls(ps []*Term, i int) Class {
	if i == len(ps)-1 {
		return Class{}
	}
	c, _ := firstCls(ps[i+1:])
	return c
}
func delimCls(ps []*Term, i int) Class { return nextCls(ps, i) }

func sortedKeys[V any](m map[string]V) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

func quoteStr(s string) string { return strconv.Quote(s) }
