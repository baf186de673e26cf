package main

import (
	"bytes"
	"context"
	"fmt"
	"math/big"
	"os"
	"os/exec"
	"regexp"
	"sort"
	"strings"
	"syscall"
	"time"
)

// ---------------------------------------------------------------- SMT-LIB printing

type smtPrinter struct {
	out         strings.Builder
	defs        strings.Builder
	named       map[int]string
	refs        map[int]int
	bound       map[int]bool // term contains bound variable
	boundv      map[*Term]bool
	decl        map[string]bool
	order       []*Term
	strs        map[string]bool
	decs        []*Term
	lens        []*Term
	nats, bvrel []*Term
	strT        []*Term
	nl          []*Term
	ranged      []*Term
	res         []*Term
	resQ        map[string]bool // patterns applied under quantifiers
	seen        map[int]bool
	hasArr      bool
	tdivs       bool
	declOut     strings.Builder
}

func newPrinter() *smtPrinter {
	return &smtPrinter{named: map[int]string{}, refs: map[int]int{}, bound: map[int]bool{}, boundv: map[*Term]bool{}, decl: map[string]bool{}, strs: map[string]bool{}, seen: map[int]bool{}}
}

var symRe = regexp.MustCompile(`^[A-Za-z_!.$][A-Za-z0-9_!.$]*$`)

func sym(s string) string {
	if symRe.MatchString(s) {
		return s
	}
	return "|" + strings.NewReplacer("|", "!bar!", "\\", "!bs!").Replace(s) + "|"
}
func smtSort(s *Sort) string { return s.String() }

func (p *smtPrinter) visit(t *Term) {
	p.refs[t.id]++
	if p.seen[t.id] {
		return
	}
	p.seen[t.id] = true
	if t.Op == "forall" {
		for _, v := range t.Args[:len(t.Args)-1] {
			p.boundv[v] = true
		}
		p.visit(t.Args[len(t.Args)-1])
	} else {
		for _, a := range t.Args {
			p.visit(a)
		}
	}
	b := p.boundv[t]
	for _, a := range t.Args {
		if p.bound[a.id] && !(t.Op == "forall" && p.boundv[a]) {
			b = true
		}
	}
	if t.Op == "forall" {
		// contains free bound variables of an outer quantifier?
		own := map[*Term]bool{}
		for _, v := range t.Args[:len(t.Args)-1] {
			own[v] = true
		}
		b = hasOtherBound(t.Args[len(t.Args)-1], p.boundv, own, map[int]bool{})
	}
	p.bound[t.id] = b
	p.order = append(p.order, t)
	switch t.Op {
	case "var", "uf":
		if !p.boundv[t] {
			key := t.Str
			if !p.decl[key] {
				p.decl[key] = true
				var as []string
				for _, a := range t.Args {
					as = append(as, smtSort(a.Sort))
				}
				fmt.Fprintf(&p.declOut, "(declare-fun %s (%s) %s)\n", sym(t.Str), strings.Join(as, " "), smtSort(t.Sort))
			}
			if !b && t.Sort.K == KBool && len(t.Args) == 1 && strings.HasPrefix(t.Str, "re:") {
				p.res = append(p.res, t)
			}
			if b && t.Sort.K == KBool && len(t.Args) == 1 && strings.HasPrefix(t.Str, "re:") {
				if p.resQ == nil {
					p.resQ = map[string]bool{}
				}
				p.resQ[t.Str] = true
			}
			if !b && t.Sort.K == KInt {
				if _, ok := varRange[t.Str]; ok {
					p.ranged = append(p.ranged, t)
				}
			}
		}
	case "lit":
		p.strs[t.Str] = true
	case "dec":
		if !b {
			p.decs = append(p.decs, t)
		}
	case "strlen":
		if !b {
			p.lens = append(p.lens, t)
			p.refs[t.Args[0].id]++
		}
	case "tdiv":
		p.tdivs = true
	case "nl*":
		if !b {
			p.nl = append(p.nl, t)
		}
	case "bv2nat":
		if !b && bvLeaf(t.Args[0]) {
			p.nats = append(p.nats, t)
		}
	case "bvult", "=":
		if !b && t.Args[0].Sort.K == KBV && bvLeaf(t.Args[0]) && bvLeaf(t.Args[1]) {
			p.bvrel = append(p.bvrel, t)
		}
	}
	if t.Sort == SStr && !b {
		p.strT = append(p.strT, t)
	}
}
func hasOtherBound(t *Term, bv, own map[*Term]bool, seen map[int]bool) bool {
	if bv[t] && !own[t] {
		return true
	}
	if seen[t.id] {
		return false
	}
	seen[t.id] = true
	for _, a := range t.Args {
		if hasOtherBound(a, bv, own, seen) {
			return true
		}
	}
	return false
}

func intStr(n *big.Int) string {
	if n.Sign() < 0 {
		return "(- " + new(big.Int).Neg(n).String() + ")"
	}
	return n.String()
}

func (p *smtPrinter) ref(t *Term) string {
	if n, ok := p.named[t.id]; ok {
		return n
	}
	return p.expr(t)
}
func (p *smtPrinter) args(ts []*Term) string {
	var ss []string
	for _, a := range ts {
		ss = append(ss, p.ref(a))
	}
	return strings.Join(ss, " ")
}
func strLitName(s string) string {
	return sym("lit:" + strings.ReplaceAll(quoteStr(s), "\n", "\\n"))
}
func (p *smtPrinter) expr(t *Term) string {
	switch t.Op {
	case "true", "false":
		return t.Op
	case "const":
		if t.Rat != nil {
			n := t.Rat.Num()
			s := new(big.Int).Abs(n).String() + ".0"
			if !t.Rat.IsInt() {
				s = "(/ " + s + " " + t.Rat.Denom().String() + ".0)"
			}
			if n.Sign() < 0 {
				s = "(- " + s + ")"
			}
			return s
		}
		if t.Sort.K == KBV {
			return fmt.Sprintf("(_ bv%s %d)", t.Num, t.Sort.W)
		}
		return intStr(t.Num)
	case "lit":
		return strLitName(t.Str)
	case "var":
		return sym(t.Str)
	case "uf":
		return "(" + sym(t.Str) + " " + p.args(t.Args) + ")"
	case "nl*":
		return "(* " + p.args(t.Args) + ")"
	case "tdiv":
		return "(tdiv " + p.args(t.Args) + ")"
	case "zext":
		return fmt.Sprintf("((_ zero_extend %d) %s)", t.Sort.W-t.Args[0].Sort.W, p.ref(t.Args[0]))
	case "sext":
		return fmt.Sprintf("((_ sign_extend %d) %s)", t.Sort.W-t.Args[0].Sort.W, p.ref(t.Args[0]))
	case "trunc":
		return fmt.Sprintf("((_ extract %d 0) %s)", t.Sort.W-1, p.ref(t.Args[0]))
	case "bv2nat":
		return "(ubv_to_int " + p.ref(t.Args[0]) + ")"
	case "sbv2int":
		x := p.ref(t.Args[0])
		w := t.Args[0].Sort.W
		m := new(big.Int).Lsh(big.NewInt(1), uint(w))
		return fmt.Sprintf("(ite (bvslt %s (_ bv0 %d)) (- (ubv_to_int %s) %s) (ubv_to_int %s))", x, w, x, m, x)
	case "int2bv":
		return fmt.Sprintf("((_ int_to_bv %d) %s)", t.Sort.W, p.ref(t.Args[0]))
	case "constarr":
		return fmt.Sprintf("((as const %s) %s)", smtSort(t.Sort), p.ref(t.Args[0]))
	case "forall":
		var vs []string
		for _, v := range t.Args[:len(t.Args)-1] {
			vs = append(vs, fmt.Sprintf("(%s %s)", sym(v.Str), smtSort(v.Sort)))
		}
		body := p.expr(t.Args[len(t.Args)-1])
		// the simplifier uses the ranges of variables, so the quantifier ranges over exactly those
		var rg []string
		for _, v := range t.Args[:len(t.Args)-1] {
			if r, ok := varRange[v.Str]; ok && v.Sort.K == KInt {
				rg = append(rg, fmt.Sprintf("(<= %s %s)", intStr(r[0]), sym(v.Str)), fmt.Sprintf("(<= %s %s)", sym(v.Str), intStr(r[1])))
			}
		}
		if len(rg) > 0 {
			body = "(=> (and " + strings.Join(rg, " ") + ") " + body + ")"
		}
		return "(forall (" + strings.Join(vs, " ") + ") " + body + ")"
	case "concat", "jointrim", "dec", "udec", "strlen", "strmap", "joinfam", "implode":
		var as, nm []string
		for _, a := range t.Args {
			as = append(as, smtSort(a.Sort))
			k := a.Sort.K.letter()
			if a.Sort.K == KBV {
				k += fmt.Sprint(a.Sort.W)
			}
			nm = append(nm, k)
		}
		n := sym("str:" + t.Op + ":" + t.Str + ":" + strings.Join(nm, ""))
		if !p.decl[n] {
			p.decl[n] = true
			fmt.Fprintf(&p.declOut, "(declare-fun %s (%s) %s)\n", n, strings.Join(as, " "), smtSort(t.Sort))
		}
		return "(" + n + " " + p.args(t.Args) + ")"
	}
	op := t.Op
	return "(" + op + " " + p.args(t.Args) + ")"
}
func (k SK) letter() string { return string("bIRVSAU"[k]) }

// smtQuery builds the script asserting all fs.
// intify: machine words that are only compared, and read as numbers, become numbers
func intify(lists ...[]*Term) {
	bad := map[string]bool{}
	type rel struct{ t, a, b *Term }
	var rels []rel
	var nats []*Term
	leaf := func(t *Term) bool { return t.Op == "var" || t.Op == "uf" }
	seen := map[int]bool{}
	var w func(t *Term)
	w = func(t *Term) {
		if seen[t.id] {
			return
		}
		seen[t.id] = true
		simple := false
		switch t.Op {
		case "bv2nat":
			simple = leaf(t.Args[0])
			if simple {
				nats = append(nats, t)
			}
		case "bvult", "=":
			a, b := t.Args[0], t.Args[1]
			simple = a.Sort.K == KBV && (leaf(a) || a.Num != nil) && (leaf(b) || b.Num != nil)
			if simple {
				rels = append(rels, rel{t, a, b})
			}
		}
		for _, a := range t.Args {
			if a.Sort != nil && a.Sort.K == KBV && leaf(a) {
				if !simple {
					bad[a.Str] = true
				}
				for _, b := range a.Args {
					if b.Sort.K == KBV && leaf(b) {
						bad[b.Str] = true
					}
					w(b)
				}
				continue
			}
			w(a)
		}
	}
	for _, l := range lists {
		for _, t := range l {
			if t.Sort.K == KBV && leaf(t) {
				continue
			}
			w(t)
		}
	}
	if len(nats) == 0 {
		return
	}
	// only words some occurrence of which is read as a number
	want := map[string]bool{}
	for _, t := range nats {
		want[t.Args[0].Str] = true
	}
	for ch := true; ch; {
		ch = false
		for _, r := range rels {
			la, lb := leaf(r.a), leaf(r.b)
			if la && lb {
				if bad[r.a.Str] != bad[r.b.Str] {
					bad[r.a.Str], bad[r.b.Str], ch = true, true, true
				}
				if want[r.a.Str] != want[r.b.Str] {
					want[r.a.Str], want[r.b.Str], ch = true, true, true
				}
			}
		}
	}
	ok := func(t *Term) bool { return t.Num != nil || want[t.Str] && !bad[t.Str] }
	val := func(t *Term) *Term {
		if t.Num != nil {
			return IntB(t.Num)
		}
		n := "nat:" + t.Str
		if _, ok := varRange[n]; !ok {
			varRange[n] = [2]*big.Int{big.NewInt(0), new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), uint(t.Sort.W)), big.NewInt(1))}
		}
		if t.Op == "var" {
			return Var(n, SInt)
		}
		return UF(n, SInt, t.Args...)
	}
	m := map[*Term]*Term{}
	for _, t := range nats {
		if ok(t.Args[0]) {
			m[t] = val(t.Args[0])
		}
	}
	for _, r := range rels {
		if (leaf(r.a) || leaf(r.b)) && ok(r.a) && ok(r.b) {
			if r.t.Op == "=" {
				m[r.t] = Eq(val(r.a), val(r.b))
			} else {
				m[r.t] = Lt(val(r.a), val(r.b))
			}
		}
	}
	if len(m) == 0 {
		return
	}
	for _, l := range lists {
		for i, t := range l {
			if t.Sort.K == KBV && leaf(t) && want[t.Str] && !bad[t.Str] {
				l[i] = val(t)
				continue
			}
			l[i] = Subst(t, m)
		}
	}
}
func bvLeaf(t *Term) bool { return t.Op == "var" || t.Op == "uf" || t.Num != nil }
func smtQuery(fs []*Term, getModel []*Term) string {
	fs, getModel = append([]*Term{}, fs...), append([]*Term{}, getModel...)
	intify(fs, getModel)
	p := newPrinter()
	for _, f := range fs {
		p.visit(f)
	}
	for _, g := range getModel {
		p.visit(g)
	}
	var body strings.Builder
	emitted := 0
	emitDefs := func() {
		for ; emitted < len(p.order); emitted++ {
			t := p.order[emitted]
			if p.bound[t.id] || len(t.Args) == 0 || p.refs[t.id] < 2 {
				continue
			}
			if _, ok := p.named[t.id]; ok {
				continue
			}
			e := p.expr(t)
			n := fmt.Sprintf("t!%d", t.id)
			fmt.Fprintf(&body, "(define-fun %s () %s %s)\n", n, smtSort(t.Sort), e)
			p.named[t.id] = n
		}
	}
	emitDefs()
	for _, t := range p.ranged {
		r := varRange[t.Str]
		fmt.Fprintf(&body, "(assert (<= %s %s %s))\n", intStr(r[0]), p.ref(t), intStr(r[1]))
	}
	if len(p.strs) > 1 {
		var ns []string
		for _, s := range sortedKeys(p.strs) {
			ns = append(ns, strLitName(s))
		}
		fmt.Fprintf(&body, "(assert (distinct %s))\n", strings.Join(ns, " "))
	}
	for i, a := range p.decs {
		for _, b := range p.decs[:i] {
			if a.Args[0].Sort != b.Args[0].Sort {
				continue
			}
			fmt.Fprintf(&body, "(assert (=> (= %s %s) (= %s %s)))\n", p.ref(a), p.ref(b), p.ref(a.Args[0]), p.ref(b.Args[0]))
		}
		for s := range p.strs {
			if e := strEq(a, StrC(s)); e == False {
				fmt.Fprintf(&body, "(assert (not (= %s %s)))\n", p.ref(a), strLitName(s))
			}
		}
	}
	if len(p.nats) > 0 && len(p.bvrel) > 0 { // what relations between machine words mean for their values
		nat := map[*Term]string{}
		for _, t := range p.nats {
			nat[t.Args[0]] = p.ref(t)
		}
		val := func(t *Term) string {
			if c := t.Num; c != nil {
				return intStr(c)
			}
			if nat[t] != "" {
				return nat[t]
			}
			return "(ubv_to_int " + p.ref(t) + ")"
		}
		for _, t := range p.bvrel {
			a, b := t.Args[0], t.Args[1]
			if nat[a] == "" && nat[b] == "" {
				continue
			}
			op := "<"
			if t.Op == "=" {
				op = "="
			}
			fmt.Fprintf(&body, "(assert (= %s (%s %s %s)))\n", p.ref(t), op, val(a), val(b))
		}
	}
	for _, t := range p.lens {
		n := p.ref(t)
		fmt.Fprintf(&body, "(assert (>= %s 0))\n", n)
		if !p.strs[""] {
			p.strs[""] = true
		}
		fmt.Fprintf(&body, "(assert (= (= %s 0) (= %s %s)))\n", n, p.ref(t.Args[0]), strLitName(""))
	}
	for _, t := range p.strT {
		if t.Op == "var" || t.Op == "uf" {
			if f, ok := strFacts[strKey(t)]; ok {
				if f.min > 0 && p.strs[""] {
					fmt.Fprintf(&body, "(assert (not (= %s %s)))\n", p.ref(t), strLitName(""))
				}
			}
		}
	}
	if len(p.resQ) > 0 {
		// patterns of quantified statements, at the strings the goal speaks of
		have := map[*Term]bool{}
		var at []*Term
		for _, t := range p.res {
			have[t] = true
		}
		for _, t := range p.res {
			for _, q := range sortedKeys(p.resQ) {
				if u := UF(q, SBool, t.Args[0]); !have[u] {
					have[u] = true
					at = append(at, u)
				}
			}
		}
		p.res = append(p.res, at...)
	}
	for _, l := range append(reLemmas(p.res, sortedKeys(p.strs)), nlLemmas(p.nl)...) {
		p.visit(l)
		emitDefs()
		fmt.Fprintf(&body, "(assert %s)\n", p.ref(l))
	}
	for _, f := range fs {
		fmt.Fprintf(&body, "(assert %s)\n", p.ref(f))
	}
	body.WriteString("(check-sat)\n")
	if len(getModel) > 0 {
		var ns []string
		for _, g := range getModel {
			ns = append(ns, p.ref(g))
		}
		fmt.Fprintf(&body, "(get-value (%s))\n", strings.Join(ns, " "))
	}
	var out strings.Builder
	out.WriteString("(set-logic ALL)\n(declare-sort Str 0)\n(declare-sort U 0)\n")
	if p.tdivs {
		out.WriteString("(define-fun tdiv ((a Int) (b Int)) Int (ite (>= a 0) (div a b) (- (div (- a) b))))\n")
	}
	for _, s := range sortedKeys(p.strs) {
		fmt.Fprintf(&out, "(declare-const %s Str)\n", strLitName(s))
	}
	out.WriteString(p.declOut.String())
	out.WriteString(body.String())
	return out.String()
}

// nlLemmas: valid facts about products with a common factor (help for the solver, implied by integer arithmetic)
func nlLemmas(nl []*Term) []*Term {
	var out []*Term
	if len(nl) > 24 {
		return nil
	}
	for _, t := range nl {
		if t.Sort.K != KInt || len(t.Args) != 2 {
			continue
		}
		a, b := t.Args[0], t.Args[1]
		z := IntC(0)
		one := IntC(1)
		out = append(out,
			Implies(And(Ge(a, z), Ge(b, z)), Ge(t, z)),
			Implies(And(Ge(a, one), Ge(b, z)), Ge(t, b)),
			Implies(And(Ge(b, one), Ge(a, z)), Ge(t, a)),
			Implies(And(Lt(a, z), Ge(b, z)), Le(t, z)),
			Implies(And(Lt(b, z), Ge(a, z)), Le(t, z)))
	}
	for i, t := range nl {
		if t.Sort.K != KInt || len(t.Args) != 2 {
			continue
		}
		for _, u := range nl[:i] {
			if u.Sort.K != KInt || len(u.Args) != 2 {
				continue
			}
			for x := 0; x < 2; x++ {
				for y := 0; y < 2; y++ {
					if t.Args[x] == u.Args[y] {
						f, p, q := t.Args[x], t.Args[1-x], u.Args[1-y]
						out = append(out,
							Implies(And(Ge(f, IntC(0)), Le(p, q)), Le(t, u)),
							Implies(And(Ge(f, IntC(0)), Le(q, p)), Le(u, t)),
							Implies(And(Ge(f, IntC(0)), Lt(p, q)), Le(Add(t, f), u)),
							Implies(And(Ge(f, IntC(0)), Lt(q, p)), Le(Add(u, f), t)))
					}
				}
			}
		}
	}
	return out
}

// ---------------------------------------------------------------- solvers

type solverDef struct {
	name string
	args []string
}

var solvers = []solverDef{
	{"z3-new", []string{"z3-new", "-in", "-smt2"}},
	{"cvc5", []string{"cvc5", "--lang", "smt2", "--produce-models"}},
	{"z3", []string{"z3", "-in", "-smt2"}},
}

type solveRes struct {
	status string // unsat sat unknown
	solver string
	model  string
	out    string
	dur    time.Duration
}

func runSolver(ctx context.Context, sd solverDef, script string, timeout time.Duration) solveRes {
	if os.Getenv("GOVC_DUMP") != "" && sd.name == "z3-new" {
		f, _ := os.CreateTemp(os.Getenv("GOVC_DUMP"), "r*.smt2")
		f.WriteString(script)
		f.Close()
	}
	cctx, cancel := context.WithTimeout(ctx, timeout)
	defer cancel()
	if sd.name == "z3" {
		script = strings.ReplaceAll(script, "ubv_to_int", "bv2nat")
		script = strings.ReplaceAll(script, "int_to_bv", "int2bv")
	}
	if sd.name == "cvc5" {
		script = strings.ReplaceAll(script, "ubv_to_int", "bv2nat")
		script = strings.ReplaceAll(script, "int_to_bv", "int2bv")
	}
	args := append([]string{}, sd.args[1:]...) // a limit of its own, should this process be ended first
	if sd.name == "cvc5" {
		args = append(args, fmt.Sprintf("--tlimit=%d", (timeout+5*time.Second).Milliseconds()))
	} else {
		args = append(args, fmt.Sprintf("-T:%d", int(timeout.Seconds())+5))
	}
	cmd := exec.CommandContext(cctx, sd.args[0], args...)
	cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true}
	cmd.Stdin = strings.NewReader(script)
	var buf bytes.Buffer
	cmd.Stdout = &buf
	cmd.Stderr = &buf
	t0 := time.Now()
	cmd.Run()
	r := solveRes{solver: sd.name, dur: time.Since(t0), out: buf.String(), status: "unknown"}
	lines := strings.SplitN(r.out, "\n", 2)
	switch strings.TrimSpace(lines[0]) {
	case "unsat":
		r.status = "unsat"
	case "sat":
		r.status = "sat"
		if len(lines) > 1 {
			r.model = lines[1]
		}
	}
	return r
}

// solve runs the portfolio: first z3-new alone for a short time, then all in parallel.
func solve(script string, timeout time.Duration) solveRes {
	if os.Getenv("GOVC_DUMP") != "" {
		f, _ := os.CreateTemp(os.Getenv("GOVC_DUMP"), "q*.smt2")
		f.WriteString(script)
		f.Close()
	}
	first := 4 * time.Second
	if first > timeout {
		first = timeout
	}
	r := runSolver(context.Background(), solvers[0], script, first)
	if r.status != "unknown" || timeout <= first {
		return r
	}
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	ch := make(chan solveRes, len(solvers))
	for _, sd := range solvers {
		go func(sd solverDef) { ch <- runSolver(ctx, sd, script, timeout) }(sd)
	}
	var best solveRes
	best = r
	for range solvers {
		x := <-ch
		if x.status != "unknown" {
			return x
		}
		if x.out != "" {
			best = x
		}
	}
	return best
}

func sortTerms(ts []*Term) {
	sort.Slice(ts, func(i, j int) bool { return ts[i].id < ts[j].id })
}

func runSolverQuick(script string, timeout time.Duration) solveRes {
	return runSolver(context.Background(), solvers[0], script, timeout)
}

// termDiff prints where two terms first differ (debugging aid)
func termDiff(a, b *Term, d int) {
	if a == b {
		return
	}
	if a.Op != b.Op || len(a.Args) != len(b.Args) || len(a.Args) == 0 || d > 60 {
		fmt.Fprintf(os.Stderr, "DIFF %d\n  %.600s\n  %.600s\n", d, a, b)
		return
	}
	for i := range a.Args {
		if a.Args[i] != b.Args[i] {
			termDiff(a.Args[i], b.Args[i], d+1)
			return
		}
	}
	fmt.Fprintf(os.Stderr, "DIFF name %d %.200s %.200s\n", d, a, b)
}
