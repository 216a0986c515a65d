package main

// SMT-LIB printing and solver invocation.

import (
	"bytes"
	"context"
	"fmt"
	"os"
	"os/exec"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
	"unsafe"
)

type Fact struct {
	parent *Fact
	t      *Term
	n      int
	from   *Obligation // the obligation it was assumed from, nil otherwise
}

// factOK decides whether a fact may be used: when one property is decided, clauses that belong
// to other properties only (and so are not checked in this run) are not assumed after their
// obligation.
var factOK func(o *Obligation) bool

var structOrder []*Sort // registered struct sorts, in order
var anyBoxes []string   // ctor names of Any

func smtName(s string) string {
	for _, r := range s {
		if r == '?' || r == '!' || r == '$' || r == '.' || r == '@' || r == '_' || r == '-' || (r >= 'a' && r <= 'z') || (r >= 'A' && r <= 'Z') || (r >= '0' && r <= '9') {
			continue
		}
		return "|" + s + "|"
	}
	return s
}

type printer struct {
	buf      *bytes.Buffer
	refs     map[int]int
	defined  map[int]string
	patConst map[int]string
	lits     map[string]string
	sorts    map[string]bool
}

// axioms: attached to UF or other marker names; each returns asserted text terms.
type axiomGen func() []*Term

var ufAxioms = map[string]axiomGen{}

func collect(roots []*Term) (consts, ufsUsed, lits []*Term, refs map[int]int, sorts map[*Sort]bool) {
	refs = map[int]int{}
	sorts = map[*Sort]bool{}
	ufSeen := map[string]bool{}
	var rec func(t *Term)
	rec = func(t *Term) {
		refs[t.id]++
		if refs[t.id] > 1 {
			return
		}
		sorts[t.sort] = true
		switch t.op {
		case "const":
			consts = append(consts, t)
		case "strlit":
			lits = append(lits, t)
		case "app":
			if !ufSeen[t.name] {
				ufSeen[t.name] = true
				ufsUsed = append(ufsUsed, t)
			}
		}
		for _, a := range t.args {
			rec(a)
		}
		for _, p := range t.pats {
			for _, x := range p {
				rec(x)
			}
		}
	}
	for _, r := range roots {
		rec(r)
	}
	return
}

func usesStrOrder(ufsUsed []*Term) bool { return false }

func buildQuery(f *Fact, goal *Term) string {
	var facts []*Term
	seen := map[int]bool{}
	for n := f; n != nil; n = n.parent {
		if n.t == tTrue || seen[n.t.id] {
			continue
		}
		if n.from != nil && factOK != nil && !factOK(n.from) {
			continue
		}
		seen[n.t.id] = true
		facts = append(facts, n.t)
	}
	for i, j := 0, len(facts)-1; i < j; i, j = i+1, j-1 {
		facts[i], facts[j] = facts[j], facts[i]
	}
	sk := &skolems{by: map[string]*Term{}}
	goal = sk.goal(goal, map[string]int{})
	if len(sk.by) > 0 {
		nf := len(facts)
		for _, t := range append(facts[:nf:nf], sk.ex...) {
			if x := sk.inst(t, 0); x != nil && !seen[x.id] {
				seen[x.id] = true
				facts = append(facts, x)
			}
		}
	}
	var es []*Term
	for i, f := range facts {
		facts[i] = skolemHyp(f, &es)
	}
	for _, f := range sk.ex {
		if g := skolemHyp(f, &es); g != f {
			facts = append(facts, mkImp(f, g))
		}
	}
	if n := len(facts); len(es) > 0 && len(es) <= 12 {
		for _, f := range facts[:n:n] {
			for _, e := range es {
				if x := instInt(f, e); x != nil && !seen[x.id] {
					seen[x.id] = true
					facts = append(facts, x)
				}
			}
		}
	}
	for _, f := range facts[:len(facts):len(facts)] {
		if x := shiftHyp(f); x != nil && !seen[x.id] {
			seen[x.id] = true
			facts = append(facts, x)
		}
	}
	for _, f := range sk.ex {
		if x := shiftHyp(f); x != nil && !seen[x.id] {
			seen[x.id] = true
			facts = append(facts, mkImp(f, x))
		}
	}
	goal = sk.witnesses(goal, facts)
	ng := mkNot(goal)
	roots := append(append([]*Term{}, facts...), ng)
	// axioms to closure
	axDone := map[string]bool{}
	for {
		_, us, _, _, _ := collect(roots)
		added := false
		for _, u := range us {
			if g := ufAxioms[u.name]; g != nil && !axDone[u.name] {
				axDone[u.name] = true
				ax := g()
				roots = append(ax, roots...)
				added = true
			}
		}
		if !added {
			break
		}
	}
	consts, us, lits, refs, _ := collect(roots)
	var b bytes.Buffer
	b.WriteString("(set-option :produce-models true)\n(set-logic ALL)\n")
	b.WriteString("(declare-sort Str 0)\n(declare-sort Time 0)\n")
	b.WriteString("(declare-datatypes ((Path 0)) (((pnil) (pf (pf-b Path) (pf-i Int)))))\n")
	b.WriteString("(declare-datatypes ((Ref 0)) (((ptr (root Int) (path Path)))))\n")
	b.WriteString("(declare-datatypes ((Slice 0)) (((mkslice (s-arr Int) (s-off Int) (s-len Int) (s-cap Int)))))\n")
	// Any and structs
	names := []string{"(Any 0)"}
	var bodies []string
	{
		var cs []string
		for _, c := range append([]string{"anil", "aother"}, anyBoxes...) {
			ci := ctors[c]
			s := "(" + smtName(c)
			for _, f := range ci.sels {
				s += " (" + smtName(f.Name) + " " + sortName(f.Sort) + ")"
			}
			cs = append(cs, s+")")
		}
		bodies = append(bodies, "("+strings.Join(cs, " ")+")")
	}
	for _, s := range structOrder {
		names = append(names, "("+smtName(s.Name)+" 0)")
		x := "((" + smtName("mk-"+s.Name)
		for _, f := range s.Fields {
			x += " (" + smtName(f.Name) + " " + sortName(f.Sort) + ")"
		}
		bodies = append(bodies, x+"))")
	}
	fmt.Fprintf(&b, "(declare-datatypes (%s) (%s))\n", strings.Join(names, " "), strings.Join(bodies, "\n  "))
	litNames := map[string]string{}
	var ln []string
	for i, l := range lits {
		n := fmt.Sprintf("str%d", i)
		litNames[l.name] = n
		ln = append(ln, n)
		fmt.Fprintf(&b, "(declare-fun %s () Str) ; %q\n", n, l.name)
	}
	if len(ln) > 1 {
		fmt.Fprintf(&b, "(assert (distinct %s))\n", strings.Join(ln, " "))
	}
	for _, c := range consts {
		fmt.Fprintf(&b, "(declare-fun %s () %s)\n", smtName(c.name), sortName(c.sort))
	}
	sort.Slice(us, func(i, j int) bool { return us[i].name < us[j].name })
	for _, u := range us {
		d := ufs[u.name]
		if u.name == "tyid" {
			b.WriteString(tyidDef())
			continue
		}
		var as []string
		for _, a := range d.args {
			as = append(as, sortName(a))
		}
		fmt.Fprintf(&b, "(declare-fun %s (%s) %s)\n", smtName(d.name), strings.Join(as, " "), sortName(d.res))
	}
	p := &printer{buf: &b, refs: refs, defined: map[int]string{}, patConst: map[int]string{}, lits: litNames}
	for _, r := range roots[:len(roots)-1] {
		s := p.term(r)
		fmt.Fprintf(&b, "(assert %s)\n", s)
	}
	s := p.term(ng)
	fmt.Fprintf(&b, "(assert %s)\n(check-sat)\n", s)
	return b.String()
}

func sortName(s *Sort) string {
	if s.Kind == "array" {
		return "(Array " + sortName(s.Key) + " " + sortName(s.Elem) + ")"
	}
	return smtName(s.Name)
}

func (p *printer) term(t *Term) string {
	if n, ok := p.defined[t.id]; ok {
		return n
	}
	s := p.raw(t, nil)
	if !t.hasBV && len(t.args) > 0 && p.refs[t.id] > 1 && t.size > 2 && len(s) > 24 {
		n := fmt.Sprintf("d!%d", t.id)
		fmt.Fprintf(p.buf, "(define-fun %s () %s %s)\n", n, sortName(t.sort), s)
		p.defined[t.id] = n
		return n
	}
	return s
}

func (p *printer) raw(t *Term, lets map[int]string) string {
	sub := func(a *Term) string {
		if lets != nil {
			if n, ok := lets[a.id]; ok {
				return n
			}
		}
		if a.hasBV {
			return p.raw(a, lets)
		}
		return p.term(a)
	}
	switch t.op {
	case "true", "false":
		return t.op
	case "int":
		if strings.HasPrefix(t.name, "-") {
			return "(- " + t.name[1:] + ")"
		}
		return t.name
	case "strlit":
		return p.lits[t.name]
	case "const", "bvar":
		return smtName(t.name)
	case "forall", "exists":
		var vs []string
		for _, b := range t.bound {
			vs = append(vs, "("+smtName(b.name)+" "+sortName(b.sort)+")")
		}
		body := p.quantBody(t.args[0], lets)
		ps := ""
		for _, pt := range t.pats {
			var xs []string
			for _, x := range pt {
				y := p.patTerm(x, lets)
				if y == "" {
					xs = nil
					break
				}
				xs = append(xs, y)
			}
			if xs != nil {
				ps += " :pattern (" + strings.Join(xs, " ") + ")"
			}
		}
		if ps != "" {
			body = "(! " + body + ps + ")"
		}
		return "(" + t.op + " (" + strings.Join(vs, " ") + ") " + body + ")"
	case "constarr":
		return "((as const " + sortName(t.sort) + ") " + sub(t.args[0]) + ")"
	case "is":
		return "((_ is " + smtName(t.name) + ") " + sub(t.args[0]) + ")"
	}
	n := t.op
	if t.op == "app" || t.op == "ctor" || t.op == "sel" {
		n = smtName(t.name)
	}
	if len(t.args) == 0 {
		return n
	}
	var sb strings.Builder
	sb.WriteByte('(')
	sb.WriteString(n)
	for _, a := range t.args {
		sb.WriteByte(' ')
		sb.WriteString(sub(a))
	}
	sb.WriteByte(')')
	return sb.String()
}

// patTerm prints a pattern. Patterns may not contain connectives: a closed subterm
// with one is replaced by a constant defined equal to it, an open one makes the
// pattern unusable ("").
func (p *printer) patTerm(t *Term, lets map[int]string) string {
	bad := map[int]bool{}
	seen := map[int]bool{}
	var rec func(t *Term) bool
	rec = func(t *Term) bool {
		if seen[t.id] {
			return bad[t.id]
		}
		seen[t.id] = true
		b := false
		switch t.op {
		case "ite", "and", "or", "not", "=>", "=", "forall", "exists", "<=":
			b = true
		}
		for _, a := range t.args {
			if rec(a) {
				b = true
			}
		}
		bad[t.id] = b
		return b
	}
	if !rec(t) {
		return p.raw(t, lets)
	}
	m := map[int]*Term{}
	ok := true
	vis := map[int]bool{}
	var rep func(t *Term)
	rep = func(t *Term) {
		if vis[t.id] || !bad[t.id] {
			return
		}
		vis[t.id] = true
		if !t.hasBV {
			n := fmt.Sprintf("pc!%d", t.id)
			if _, done := p.patConst[t.id]; !done {
				p.patConst[t.id] = n
				v := p.term(t)
				fmt.Fprintf(p.buf, "(declare-fun %s () %s)\n(assert (= %s %s))\n", n, sortName(t.sort), n, v)
			}
			m[t.id] = mkConst(n, t.sort)
			return
		}
		switch t.op {
		case "ite", "and", "or", "not", "=>", "=", "forall", "exists", "<=":
			ok = false
			return
		}
		for _, a := range t.args {
			rep(a)
		}
	}
	rep(t)
	if !ok {
		return ""
	}
	return p.raw(substRaw(t, m), lets)
}

// substRaw replaces subterms without simplification.
func substRaw(t *Term, m map[int]*Term) *Term {
	if r, ok := m[t.id]; ok {
		return r
	}
	if len(t.args) == 0 {
		return t
	}
	args := make([]*Term, len(t.args))
	ch := false
	for i, a := range t.args {
		args[i] = substRaw(a, m)
		ch = ch || args[i] != a
	}
	if !ch {
		return t
	}
	return mk(t.op, t.name, t.sort, args...)
}

// quantBody prints a body introducing lets for repeated open subterms.
func (p *printer) quantBody(t *Term, outer map[int]string) string {
	if t.size < 60 {
		return p.rawIn(t, outer)
	}
	cnt := map[int]int{}
	var order []*Term
	var rec func(x *Term)
	rec = func(x *Term) {
		if !x.hasBV {
			return
		}
		cnt[x.id]++
		if cnt[x.id] > 1 {
			return
		}
		if x.op == "forall" || x.op == "exists" {
			order = append(order, x)
			return
		}
		for _, a := range x.args {
			rec(a)
		}
		order = append(order, x)
	}
	rec(t)
	lets := map[int]string{}
	for k, v := range outer {
		lets[k] = v
	}
	var pre []string
	for _, x := range order {
		if cnt[x.id] > 1 && len(x.args) > 0 && x.size > 4 && x != t {
			if _, ok := lets[x.id]; ok {
				continue
			}
			n := fmt.Sprintf("l!%d", x.id)
			s := p.raw(x, lets)
			pre = append(pre, "(let (("+n+" "+s+")) ")
			lets[x.id] = n
		}
	}
	return strings.Join(pre, "") + p.rawIn(t, lets) + strings.Repeat(")", len(pre))
}
func (p *printer) rawIn(t *Term, lets map[int]string) string {
	if !t.hasBV {
		return p.term(t)
	}
	return p.raw(t, lets)
}

// ---------------- solving ----------------

type SolveResult struct {
	Status string // unsat, sat, unknown
	Solver string
	Out    string
	Dur    time.Duration
}

var solverTime int64
var solverCalls int64
var solveSem = make(chan struct{}, 8)

// Limits are CPU time (RLIMIT_CPU of the solver process), so that a busy machine does not change an
// answer; four times that in wall time is a backstop.
func runSolver(ctx context.Context, name string, args []string, q string, to time.Duration) (string, string, time.Duration) {
	cctx, cancel := context.WithTimeout(ctx, wallFactor*to+2*time.Second)
	defer cancel()
	cmd := exec.CommandContext(cctx, name, args...)
	cmd.Stdin = strings.NewReader(q)
	var out bytes.Buffer
	cmd.Stdout = &out
	cmd.Stderr = &out
	t0 := time.Now()
	d := time.Duration(0)
	if err := cmd.Start(); err == nil {
		secs := uint64((to + time.Second - 1) / time.Second)
		lim := [2]uint64{secs, secs + 1}
		syscall.RawSyscall6(syscall.SYS_PRLIMIT64, uintptr(cmd.Process.Pid), 0 /* RLIMIT_CPU */, uintptr(unsafe.Pointer(&lim)), 0, 0, 0)
		cmd.Wait()
		if ps := cmd.ProcessState; ps != nil {
			d = ps.UserTime() + ps.SystemTime()
		}
	}
	if d == 0 {
		d = time.Since(t0)
	}
	atomic.AddInt64(&solverTime, int64(d))
	atomic.AddInt64(&solverCalls, 1)
	s := out.String()
	for _, first := range strings.Split(s, "\n") {
		first = strings.TrimSpace(first)
		if strings.HasPrefix(first, "WARNING") {
			continue
		}
		switch first {
		case "unsat", "sat", "unknown":
			return first, s, d
		}
		break
	}
	return "unknown", s, d
}

const wallFactor = 4

var queryCache sync.Map // query text -> SolveResult

// solve tries to prove (facts => goal). quick limits to the e-matching pass.
func solve(f *Fact, goal *Term, to time.Duration, quick bool, label string) SolveResult {
	if goal == tTrue {
		return SolveResult{Status: "unsat", Solver: "simplifier"}
	}
	buildMu.Lock()
	q := buildQuery(f, goal)
	buildMu.Unlock()
	if dumpDir != "" {
		os.WriteFile(dumpDir+"/"+sanitize(label)+".smt2", []byte(q), 0o644)
	}
	key := fmt.Sprintf("%v|%v|%s", quick, to, q)
	if r, ok := queryCache.Load(key); ok {
		return r.(SolveResult)
	}
	solveSem <- struct{}{}
	defer func() { <-solveSem }()
	ms := int(to / time.Millisecond)
	em := func(t time.Duration, q string, extra ...string) (string, string, time.Duration) {
		ms := int(t / time.Millisecond)
		return runSolver(context.Background(), "z3-new", append([]string{"-in", fmt.Sprintf("-T:%d", wallFactor*(ms/1000+1)), fmt.Sprintf("-t:%d", wallFactor*ms), "smt.mbqi=false", "smt.auto_config=false", "smt.solve_eqs=false"}, extra...), q, t)
	}
	first := time.Second
	if to < first {
		first = to
	}
	st, out, d := em(first, q)
	solver := "z3-new(ematching)"
	if quick && st == "unknown" && d < first*3/4 {
		// saturated without a contradiction
		queryCache.Store(key, SolveResult{Status: st, Solver: solver, Out: out, Dur: d})
		return SolveResult{Status: st, Solver: solver, Out: out, Dur: d}
	}
	if st != "unsat" && to > first {
		// the quantifier-free part alone
		if s2, o2, d2 := em(first, groundPart(q)); s2 == "unsat" {
			st, out, d, solver = s2, o2, d+d2, "z3-new(ground)"
		} else if s3, o3, d3 := em(to, q, "smt.qi.eager_threshold=6"); s3 == "unsat" {
			st, out, d = s3, o3, d+d2+d3
		} else {
			d += d2 + d3
		}
	}
	res := SolveResult{Status: st, Solver: solver, Out: out, Dur: d}
	if st != "unsat" && !quick {
		st2, out2, d2 := runSolver(context.Background(), "z3-new", []string{"-in", fmt.Sprintf("-t:%d", wallFactor*ms)}, q+"(get-info :reason-unknown)\n", to)
		d += d2
		if st2 != "unknown" {
			res = SolveResult{Status: st2, Solver: "z3-new", Out: out2, Dur: d}
		} else {
			res.Dur = d
			st3, out3, d3 := runSolver(context.Background(), "cvc5", []string{"--lang=smt2", "-q", fmt.Sprintf("--tlimit=%d", wallFactor*ms), "--full-saturate-quant"}, q, to)
			d += d3
			if st3 == "unsat" {
				res = SolveResult{Status: st3, Solver: "cvc5", Out: out3, Dur: d}
			}
		}
		if res.Status == "sat" {
			// model
			_, out4, _ := runSolver(context.Background(), "z3-new", []string{"-in", fmt.Sprintf("-t:%d", wallFactor*ms)}, q+"(get-model)\n", to)
			res.Out = out4
		}
	}
	queryCache.Store(key, res)
	return res
}

var dumpDir string

// groundPart drops the quantified assertions of a query (which only weakens what is assumed).
func groundPart(q string) string {
	var b strings.Builder
	for _, l := range strings.Split(q, "\n") {
		if strings.Contains(l, "(forall ") || strings.Contains(l, "(exists ") {
			if !strings.HasPrefix(l, "(assert") {
				return ""
			}
			continue
		}
		b.WriteString(l)
		b.WriteByte('\n')
	}
	return b.String()
}
