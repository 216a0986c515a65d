package main

import (
	"fmt"
	"strings"
)

// Goals are skolemized before a query is printed, and every hypothesis with a
// quantifier over variables of the same names and sorts is instantiated at the
// skolem constants (in addition to the quantified hypothesis itself): the usual
// pointwise argument then needs no instantiation by the solver.

func bvBase(t *Term) string {
	if i := strings.LastIndexByte(t.name, '?'); i >= 0 {
		return t.name[:i]
	}
	return t.name
}

type skolems struct {
	n      int
	by     map[string]*Term // base name + sort, first one
	ex     []*Term          // antecedents of the goal
	exists []*Term
}

func (s *skolems) goal(t *Term, used map[string]int) *Term {
	switch t.op {
	case "and":
		args := make([]*Term, len(t.args))
		for i, a := range t.args {
			args[i] = s.goal(a, used)
		}
		return mkAnd(args...)
	case "=>":
		s.ex = append(s.ex, t.args[0])
		return mkImp(t.args[0], s.goal(t.args[1], used))
	case "not":
		s.ex = append(s.ex, t.args[0])
		return t
	case "forall":
		u2 := map[string]int{}
		for k, v := range used {
			u2[k] = v
		}
		m := map[int]*Term{}
		for _, b := range t.bound {
			k := bvBase(b) + "|" + sortName(b.sort)
			i := u2[k]
			u2[k]++
			c := mkConst(fmt.Sprintf("sk!%s!%s!%d", bvBase(b), sanitize(sortName(b.sort)), i), b.sort)
			m[b.id] = c
			if i == 0 {
				s.by[k] = c
			}
		}
		return s.goal(subst(t.args[0], m), u2)
	}
	if t.op == "exists" && len(t.bound) == 1 && t.bound[0].sort == SInt {
		s.exists = append(s.exists, t)
	}
	return t
}

// witnesses adds to existential goals over an index the instances at the loop
// counters among the hypotheses.
func (s *skolems) witnesses(goal *Term, facts []*Term) *Term {
	if len(s.exists) == 0 {
		return goal
	}
	consts, _, _, _, _ := collect(append(facts[:len(facts):len(facts)], goal))
	var ws []*Term
	for _, x := range consts {
		if x.sort == SInt && (strings.HasPrefix(x.name, "phi_") || strings.HasPrefix(x.name, "sk!") || strings.HasPrefix(x.name, "pop!")) {
			ws = append(ws, x, mkAdd(x, mkInt(1)))
		}
	}
	if len(ws) > 16 {
		ws = ws[len(ws)-16:]
	}
	m := map[int]*Term{}
	for _, e := range s.exists {
		ds := []*Term{e}
		for _, w := range ws {
			ds = append(ds, subst(e.args[0], map[int]*Term{e.bound[0].id: w}))
		}
		m[e.id] = mkOr(ds...)
	}
	return subst(goal, m)
}

// inst instantiates the quantifiers of a hypothesis at the skolem constants; nil when none applies.
func (s *skolems) inst(t *Term, depth int) *Term {
	switch t.op {
	case "and":
		var out []*Term
		for _, a := range t.args {
			if x := s.inst(a, depth); x != nil {
				out = append(out, x)
			}
		}
		if out == nil {
			return nil
		}
		return mkAnd(out...)
	case "=>":
		if x := s.inst(t.args[1], depth); x != nil {
			return mkImp(t.args[0], x)
		}
	case "forall":
		m := map[int]*Term{}
		for _, b := range t.bound {
			c := s.by[bvBase(b)+"|"+sortName(b.sort)]
			if c == nil {
				return nil
			}
			m[b.id] = c
		}
		b := subst(t.args[0], m)
		if depth < 3 {
			if x := s.inst(b, depth+1); x != nil {
				return mkAnd(b, x)
			}
		}
		return b
	}
	return nil
}

// skolemHyp replaces the existential quantifiers over one integer in positive
// position of a hypothesis by constants, which it adds to es.
func skolemHyp(t *Term, es *[]*Term) *Term {
	switch t.op {
	case "and":
		var args []*Term
		ch := false
		for _, a := range t.args {
			b := skolemHyp(a, es)
			ch = ch || b != a
			args = append(args, b)
		}
		if ch {
			return mkAnd(args...)
		}
	case "=>":
		if b := skolemHyp(t.args[1], es); b != t.args[1] {
			return mkImp(t.args[0], b)
		}
	case "exists":
		if len(t.bound) == 1 && t.bound[0].sort == SInt {
			e := mkConst(fmt.Sprintf("sk!e!%d", t.id), SInt)
			*es = append(*es, e)
			return skolemHyp(subst(t.args[0], map[int]*Term{t.bound[0].id: e}), es)
		}
	}
	return t
}

// instInt instantiates the quantifiers over one integer of a hypothesis at e.
func instInt(t, e *Term) *Term {
	switch t.op {
	case "and":
		var out []*Term
		for _, a := range t.args {
			if x := instInt(a, e); x != nil {
				out = append(out, x)
			}
		}
		if out != nil {
			return mkAnd(out...)
		}
	case "=>":
		if x := instInt(t.args[1], e); x != nil {
			return mkImp(t.args[0], x)
		}
	case "forall":
		if len(t.bound) == 1 && t.bound[0].sort == SInt {
			return subst(t.args[0], map[int]*Term{t.bound[0].id: e})
		}
	}
	return nil
}

var shifted = map[int]*Term{}

// shiftHyp restates the quantifiers of a hypothesis that read array elements at
// offset+i as quantifiers over the element's own index, so that the read can
// serve as a trigger (solvers do not match modulo addition); nil when none does.
func shiftHyp(t *Term) *Term {
	if x, ok := shifted[t.id]; ok {
		return x
	}
	x := shiftHyp1(t)
	shifted[t.id] = x
	return x
}

func shiftHyp1(t *Term) *Term {
	switch t.op {
	case "and":
		var out []*Term
		for _, a := range t.args {
			if x := shiftHyp(a); x != nil {
				out = append(out, x)
			}
		}
		if out != nil {
			return mkAnd(out...)
		}
	case "=>":
		if x := shiftHyp(t.args[1]); x != nil {
			return mkImp(t.args[0], x)
		}
	case "forall":
		if len(t.bound) > 1 {
			return shiftMulti(t)
		}
		if t.bound[0].sort != SInt {
			return nil
		}
		b := t.bound[0]
		var sels []*Term
		seen := map[int]bool{}
		var rec func(x *Term)
		rec = func(x *Term) {
			if !x.hasBV || seen[x.id] {
				return
			}
			seen[x.id] = true
			if x.op == "forall" || x.op == "exists" {
				for _, y := range x.args {
					rec(y)
				}
				return
			}
			if x.op == "select" && x.args[1].op == "+" && !x.args[0].hasBV {
				fv := freeBVs(x.args[1])
				if len(fv) == 1 && fv[b.id] {
					sels = append(sels, x)
				}
			}
			for _, y := range x.args {
				rec(y)
			}
		}
		rec(t.args[0])
		var out []*Term
		done := map[int]bool{}
		for _, x := range sels {
			off := addendsWithout(x.args[1], b)
			if off == nil || off.hasBV || done[off.id] {
				continue
			}
			done[off.id] = true
			q := mkBV("q", SInt)
			m := map[int]*Term{b.id: mkSub(q, off)}
			var pats [][]*Term
			pd := map[int]bool{}
			for _, y := range sels {
				if z := subst(y, m); z.args[1] == q && !pd[z.id] && z.op == "select" {
					pd[z.id] = true
					pats = append(pats, []*Term{z})
				}
			}
			if len(pats) > 0 {
				out = append(out, mkForall([]*Term{q}, subst(t.args[0], m), pats...))
			}
		}
		if out != nil {
			return mkAnd(out...)
		}
	}
	return nil
}

// addendsWithout is the sum t less one addend b; nil when b is not an addend.
func addendsWithout(t, b *Term) *Term {
	if t.op != "+" {
		return nil
	}
	for i, a := range t.args {
		rest := append(append([]*Term{}, t.args[:i]...), t.args[i+1:]...)
		var r *Term
		if a == b {
			r = mkInt(0)
		} else if r = addendsWithout(a, b); r == nil {
			continue
		}
		for _, x := range rest {
			r = mkAdd(r, x)
		}
		return r
	}
	return nil
}

func shiftMulti(t *Term) *Term {
	if len(t.pats) == 0 {
		return nil
	}
	m := map[int]*Term{}
	bound := append([]*Term{}, t.bound...)
	for i, b := range t.bound {
		if b.sort != SInt {
			continue
		}
		for _, p := range t.pats[0] {
			if p.op != "select" || p.args[1].op != "+" || p.args[0].hasBV {
				continue
			}
			if fv := freeBVs(p.args[1]); len(fv) != 1 || !fv[b.id] {
				continue
			}
			if off := addendsWithout(p.args[1], b); off != nil && !off.hasBV {
				q := mkBV("q", SInt)
				m[b.id] = mkSub(q, off)
				bound[i] = q
				break
			}
		}
	}
	if len(m) == 0 {
		return nil
	}
	var pat []*Term
	for _, p := range t.pats[0] {
		pat = append(pat, subst(p, m))
	}
	return mkForall(bound, subst(t.args[0], m), pat)
}
