package main

// Term layer: hash-consed, simplifying first-order terms.

import (
	"fmt"
	"math/big"
	"sort"
	"strings"
)

type Sort struct {
	Name   string // SMT name
	Kind   string // prim, array, struct, any, slice, ref, path
	Key    *Sort
	Elem   *Sort
	Fields []SortField // struct
	Order  int
}
type SortField struct {
	Name string // SMT selector
	Sort *Sort
}

var (
	SInt   = &Sort{Name: "Int", Kind: "prim"}
	SBool  = &Sort{Name: "Bool", Kind: "prim"}
	SReal  = &Sort{Name: "Real", Kind: "prim"}
	SStr   = &Sort{Name: "Str", Kind: "prim"}
	STime  = &Sort{Name: "Time", Kind: "prim"}
	SPath  = &Sort{Name: "Path", Kind: "path"}
	SRef   = &Sort{Name: "Ref", Kind: "ref"}
	SSlice = &Sort{Name: "Slice", Kind: "slice"}
	SAny   = &Sort{Name: "Any", Kind: "any"}
)

var arraySorts = map[string]*Sort{}

func ArraySort(k, e *Sort) *Sort {
	n := "(Array " + k.Name + " " + e.Name + ")"
	if s, ok := arraySorts[n]; ok {
		return s
	}
	s := &Sort{Name: n, Kind: "array", Key: k, Elem: e}
	arraySorts[n] = s
	return s
}

type Term struct {
	op    string
	name  string // literal text, function or constructor name, var name
	sort  *Sort
	args  []*Term
	id    int
	hasBV bool
	size  int
	big   *big.Int
	// quantifiers
	bound []*Term
	pats  [][]*Term
	conj  []*Term // cached conjunct list (sorted by id)
}

func (t *Term) String() string { return printTerm(t, 0) }

func printTerm(t *Term, depth int) string {
	if depth > 14 {
		return "…"
	}
	switch t.op {
	case "int", "const", "bvar", "true", "false", "strlit":
		if t.op == "strlit" {
			return fmt.Sprintf("%q", t.name)
		}
		return t.name
	case "forall", "exists":
		var vs []string
		for _, b := range t.bound {
			vs = append(vs, b.name+":"+b.sort.Name)
		}
		return "(" + t.op + " (" + strings.Join(vs, " ") + ") " + printTerm(t.args[0], depth+1) + ")"
	}
	n := t.op
	if t.op == "app" || t.op == "ctor" || t.op == "sel" || t.op == "is" {
		n = t.name
		if t.op == "is" {
			n = "is-" + n
		}
	}
	if len(t.args) == 0 {
		return n
	}
	var as []string
	for _, a := range t.args {
		as = append(as, printTerm(a, depth+1))
	}
	return "(" + n + " " + strings.Join(as, " ") + ")"
}

var termTab = map[string]*Term{}
var termCount int

func mk(op, name string, sort *Sort, args ...*Term) *Term {
	var sb strings.Builder
	sb.WriteString(op)
	sb.WriteByte('|')
	sb.WriteString(name)
	sb.WriteByte('|')
	sb.WriteString(sort.Name)
	for _, a := range args {
		fmt.Fprintf(&sb, ",%d", a.id)
	}
	k := sb.String()
	if t, ok := termTab[k]; ok {
		return t
	}
	termCount++
	t := &Term{op: op, name: name, sort: sort, args: args, id: termCount, size: 1}
	for _, a := range args {
		if a.hasBV {
			t.hasBV = true
		}
		t.size += a.size
		if t.size > 1<<40 {
			t.size = 1 << 40
		}
	}
	termTab[k] = t
	return t
}

var tTrue = mk("true", "true", SBool)
var tFalse = mk("false", "false", SBool)

func mkBool(b bool) *Term {
	if b {
		return tTrue
	}
	return tFalse
}

func mkBig(b *big.Int) *Term {
	t := mk("int", b.String(), SInt)
	if t.big == nil {
		t.big = new(big.Int).Set(b)
	}
	return t
}
func mkInt(i int64) *Term { return mkBig(big.NewInt(i)) }

var strLits []*Term

func mkStr(s string) *Term {
	n := termCount
	t := mk("strlit", s, SStr)
	if t.id > n {
		strLits = append(strLits, t)
	}
	return t
}

// constants: declared symbols
var constDecls = map[string]*Term{}
var freshCtr int

func mkConst(name string, s *Sort) *Term {
	t := mk("const", name, s)
	return t
}
func fresh(prefix string, s *Sort) *Term {
	freshCtr++
	return mk("const", fmt.Sprintf("%s!%d", sanitize(prefix), freshCtr), s)
}

func sanitize(s string) string {
	var sb strings.Builder
	for _, r := range s {
		switch {
		case r >= 'a' && r <= 'z', r >= 'A' && r <= 'Z', r >= '0' && r <= '9', r == '_', r == '!', r == '$', r == '.', r == '@':
			sb.WriteRune(r)
		case r == '*':
			sb.WriteString("P")
		case r == '/':
			sb.WriteString(".")
		default:
			sb.WriteByte('_')
		}
	}
	return sb.String()
}

var bvCtr int

func mkBV(name string, s *Sort) *Term {
	bvCtr++
	t := mk("bvar", fmt.Sprintf("%s?%d", sanitize(name), bvCtr), s)
	t.hasBV = true
	return t
}

func isLit(t *Term) bool {
	return t.op == "int" || t.op == "strlit" || t.op == "true" || t.op == "false"
}

// ---------- boolean ----------

func mkNot(a *Term) *Term {
	switch a.op {
	case "true":
		return tFalse
	case "false":
		return tTrue
	case "not":
		return a.args[0]
	}
	return mk("not", "", SBool, a)
}

func conjuncts(t *Term) []*Term {
	if t.op == "and" {
		return t.args
	}
	if t == tTrue {
		return nil
	}
	return []*Term{t}
}

func mkAnd(ts ...*Term) *Term {
	var out []*Term
	seen := map[int]bool{}
	for _, t := range ts {
		for _, c := range conjuncts(t) {
			if c == tFalse {
				return tFalse
			}
			if !seen[c.id] {
				seen[c.id] = true
				out = append(out, c)
			}
		}
	}
	for _, c := range out {
		n := c
		if c.op == "not" {
			n = c.args[0]
			if seen[n.id] {
				return tFalse
			}
		}
	}
	if len(out) == 0 {
		return tTrue
	}
	if len(out) == 1 {
		return out[0]
	}
	return mk("and", "", SBool, out...)
}

func mkOr(ts ...*Term) *Term {
	var out []*Term
	seen := map[int]bool{}
	for _, t := range ts {
		var ds []*Term
		if t.op == "or" {
			ds = t.args
		} else {
			ds = []*Term{t}
		}
		for _, c := range ds {
			if c == tTrue {
				return tTrue
			}
			if c == tFalse || seen[c.id] {
				continue
			}
			seen[c.id] = true
			out = append(out, c)
		}
	}
	for _, c := range out {
		if c.op == "not" && seen[c.args[0].id] {
			return tTrue
		}
	}
	if len(out) == 0 {
		return tFalse
	}
	if len(out) == 1 {
		return out[0]
	}
	// factor common conjuncts
	common := map[int]*Term{}
	for _, c := range conjuncts(out[0]) {
		common[c.id] = c
	}
	for _, o := range out[1:] {
		cs := map[int]bool{}
		for _, c := range conjuncts(o) {
			cs[c.id] = true
		}
		for k := range common {
			if !cs[k] {
				delete(common, k)
			}
		}
	}
	if len(common) > 0 {
		var comm []*Term
		for _, c := range conjuncts(out[0]) {
			if common[c.id] != nil {
				comm = append(comm, c)
			}
		}
		var rests []*Term
		for _, o := range out {
			var r []*Term
			for _, c := range conjuncts(o) {
				if common[c.id] == nil {
					r = append(r, c)
				}
			}
			rests = append(rests, mkAnd(r...))
		}
		return mkAnd(append(comm, mkOr(rests...))...)
	}
	// a or (not a and b)  => a or b
	lits := map[int]bool{}
	for _, o := range out {
		if o.op != "and" {
			lits[o.id] = true
		}
	}
	changed := false
	for i, o := range out {
		if o.op == "and" {
			var r []*Term
			drop := false
			for _, c := range o.args {
				if lits[c.id] {
					drop = true
				}
				if lits[mkNot(c).id] {
					changed = true
					continue
				}
				r = append(r, c)
			}
			if drop {
				out[i] = tFalse
				changed = true
			} else {
				out[i] = mkAnd(r...)
			}
		}
	}
	if changed {
		return mkOr(out...)
	}
	return mk("or", "", SBool, out...)
}

func mkImp(a, b *Term) *Term {
	if a == tTrue {
		return b
	}
	if a == tFalse || b == tTrue {
		return tTrue
	}
	if b == tFalse {
		return mkNot(a)
	}
	if a == b {
		return tTrue
	}
	if b.op == "=>" {
		return mkImp(mkAnd(a, b.args[0]), b.args[1])
	}
	if b.op == "and" {
		// keep
	}
	ac := conjuncts(a)
	for _, c := range ac {
		if c == b {
			return tTrue
		}
	}
	return mk("=>", "", SBool, a, b)
}

func mkIff(a, b *Term) *Term { return mkEq(a, b) }

func mkIte(c, a, b *Term) *Term {
	if a.sort != b.sort {
		panic(fmt.Sprintf("ite sorts %s %s: %s / %s", a.sort.Name, b.sort.Name, a, b))
	}
	if c == tTrue {
		return a
	}
	if c == tFalse {
		return b
	}
	if a == b {
		return a
	}
	if c.op == "not" {
		return mkIte(c.args[0], b, a)
	}
	if a.op == "ite" && a.args[0] == c {
		a = a.args[1]
	}
	if b.op == "ite" && b.args[0] == c {
		b = b.args[2]
	}
	if a == b {
		return a
	}
	if a.sort == SBool {
		if a == tTrue && b == tFalse {
			return c
		}
		if a == tFalse && b == tTrue {
			return mkNot(c)
		}
		if a == tTrue {
			return mkOr(c, b)
		}
		if b == tFalse {
			return mkAnd(c, a)
		}
		if a == tFalse {
			return mkAnd(mkNot(c), b)
		}
		if b == tTrue {
			return mkOr(mkNot(c), a)
		}
	}
	if a.op == "ctor" && b.op == "ctor" && a.name == b.name && len(a.args) > 0 && a.sort != SAny {
		args := make([]*Term, len(a.args))
		for i := range args {
			args[i] = mkIte(c, a.args[i], b.args[i])
		}
		return mkCtor(a.name, a.sort, args...)
	}
	if a.op == "ctor" && b.op == "ctor" && a.name == b.name && len(a.args) == 1 && a.sort == SAny {
		return mkCtor(a.name, a.sort, mkIte(c, a.args[0], b.args[0]))
	}
	if a.sort.Kind == "array" {
		if m := mergeStores(c, a, b); m != nil {
			return m
		}
	}
	// ite(c, ite(d,x,y), y) -> ite(c&d, x, y)
	if a.op == "ite" && a.args[2] == b {
		return mkIte(mkAnd(c, a.args[0]), a.args[1], b)
	}
	if b.op == "ite" && b.args[1] == a {
		return mkIte(mkOr(c, b.args[0]), a, b.args[2])
	}
	return mk("ite", "", a.sort, c, a, b)
}

// mergeStores merges two store chains over a common base.
func mergeStores(c, a, b *Term) *Term {
	ca, cb := storeChain(a), storeChain(b)
	inA := map[int]int{}
	for i, t := range ca {
		inA[t.id] = i
	}
	bi, ai := -1, -1
	for j, t := range cb {
		if i, ok := inA[t.id]; ok {
			ai, bi = i, j
			break
		}
	}
	if ai < 0 || ai+bi > 400 {
		return nil
	}
	base := ca[ai]
	var idxs []*Term
	seen := map[int]bool{}
	for i := ai - 1; i >= 0; i-- {
		ix := ca[i].args[1]
		if !seen[ix.id] {
			seen[ix.id] = true
			idxs = append(idxs, ix)
		}
	}
	for i := bi - 1; i >= 0; i-- {
		ix := cb[i].args[1]
		if !seen[ix.id] {
			seen[ix.id] = true
			idxs = append(idxs, ix)
		}
	}
	r := base
	for _, ix := range idxs {
		r = mkStore(r, ix, mkIte(c, mkSelect(a, ix), mkSelect(b, ix)))
	}
	return r
}

func storeChain(a *Term) []*Term {
	out := []*Term{a}
	for a.op == "store" {
		a = a.args[0]
		out = append(out, a)
	}
	return out
}

// ---------- equality ----------

func mkEq(a, b *Term) *Term {
	if a == b {
		return tTrue
	}
	if a.sort != b.sort {
		panic(fmt.Sprintf("eq sorts %s %s: %s = %s", a.sort.Name, b.sort.Name, a, b))
	}
	if a.sort == SBool {
		if a == tTrue {
			return b
		}
		if b == tTrue {
			return a
		}
		if a == tFalse {
			return mkNot(b)
		}
		if b == tFalse {
			return mkNot(a)
		}
	}
	switch cmpIdx(a, b) {
	case 1:
		return tTrue
	case -1:
		return tFalse
	}
	if a.op == "ctor" && b.op == "ctor" && a.name == b.name {
		var cs []*Term
		for i := range a.args {
			cs = append(cs, mkEq(a.args[i], b.args[i]))
		}
		return mkAnd(cs...)
	}
	// nullary constructor equality -> tester
	if b.op == "ctor" && len(b.args) == 0 && a.sort == SAny {
		return mkIs(b.name, a)
	}
	if a.op == "ctor" && len(a.args) == 0 && a.sort == SAny {
		return mkIs(a.name, b)
	}
	if a.op == "ite" && (isLit(b) || b.op == "ctor") && a.size < 4000 {
		x, y := mkEq(a.args[1], b), mkEq(a.args[2], b)
		if isLit(x) || isLit(y) {
			return mkIte(a.args[0], x, y)
		}
	}
	if b.op == "ite" && (isLit(a) || a.op == "ctor") && b.size < 4000 {
		x, y := mkEq(b.args[1], a), mkEq(b.args[2], a)
		if isLit(x) || isLit(y) {
			return mkIte(b.args[0], x, y)
		}
	}
	if a.id > b.id {
		a, b = b, a
	}
	return mk("=", "", SBool, a, b)
}

// upper bound (exclusive) on root ids known for terms
var ubound = map[int]int64{}

func noteBound(t *Term, c int64) {
	if old, ok := ubound[t.id]; !ok || c < old {
		ubound[t.id] = c
	}
}

// cmpIdx: 1 equal, -1 different, 0 unknown
func cmpIdx(a, b *Term) int { return cmpIdxD(a, b, 0) }
func cmpIdxD(a, b *Term, d int) int {
	if a == b {
		return 1
	}
	if d > 12 {
		return 0
	}
	if isLit(a) && isLit(b) {
		return -1 // hash-consed, different literals
	}
	if a.op == "ctor" && b.op == "ctor" {
		if a.name != b.name {
			return -1
		}
		all := 1
		for i := range a.args {
			r := cmpIdxD(a.args[i], b.args[i], d+1)
			if r == -1 {
				return -1
			}
			if r == 0 {
				all = 0
			}
		}
		return all
	}
	if a.sort == SRef {
		if a.op != "ctor" && b.op != "ctor" {
			return 0
		}
		// compare roots only for disequality
		if cmpIdxD(mkSel("root", SInt, a), mkSel("root", SInt, b), d+1) == -1 {
			return -1
		}
		return 0
	}
	if a.sort == SInt {
		if a.op == "int" {
			if u, ok := ubound[b.id]; ok && a.big.Cmp(big.NewInt(u)) >= 0 {
				return -1
			}
		}
		if b.op == "int" {
			if u, ok := ubound[a.id]; ok && b.big.Cmp(big.NewInt(u)) >= 0 {
				return -1
			}
		}
		ba, ka := splitOff(a)
		bb, kb := splitOff(b)
		if ba == bb && ba != nil {
			if ka.Cmp(kb) == 0 {
				return 1
			}
			return -1
		}
	}
	return 0
}

func splitOff(t *Term) (*Term, *big.Int) {
	if t.op == "+" && len(t.args) == 2 && t.args[1].op == "int" {
		return t.args[0], t.args[1].big
	}
	if t.op == "int" {
		return nil, t.big
	}
	return t, big.NewInt(0)
}

// ---------- arithmetic ----------

func mkAdd(a, b *Term) *Term {
	if a.op == "int" && b.op == "int" {
		return mkBig(new(big.Int).Add(a.big, b.big))
	}
	if a.op == "int" {
		a, b = b, a
	}
	if b.op == "int" {
		if b.big.Sign() == 0 {
			return a
		}
		if a.op == "+" && len(a.args) == 2 && a.args[1].op == "int" {
			return mkAdd(a.args[0], mkBig(new(big.Int).Add(a.args[1].big, b.big)))
		}
		return mk("+", "", SInt, a, b)
	}
	if a.op == "+" && a.args[1].op == "int" {
		return mkAdd(mkAdd(a.args[0], b), a.args[1])
	}
	if b.op == "+" && b.args[1].op == "int" {
		return mkAdd(mkAdd(a, b.args[0]), b.args[1])
	}
	// x + (y - x)
	if b.op == "-" && b.args[1] == a {
		return b.args[0]
	}
	if a.op == "-" && a.args[1] == b {
		return a.args[0]
	}
	if a.id > b.id {
		a, b = b, a
	}
	return mk("+", "", SInt, a, b)
}
func mkNeg(a *Term) *Term { return mkSub(mkInt(0), a) }
func mkSub(a, b *Term) *Term {
	if a == b {
		return mkInt(0)
	}
	if b.op == "int" {
		return mkAdd(a, mkBig(new(big.Int).Neg(b.big)))
	}
	ba, ka := splitOff(a)
	bb, kb := splitOff(b)
	if ba == bb && ba != nil {
		return mkBig(new(big.Int).Sub(ka, kb))
	}
	if ba != nil && bb != nil && (ka.Sign() != 0 || kb.Sign() != 0) {
		return mkAdd(mkSub(ba, bb), mkBig(new(big.Int).Sub(ka, kb)))
	}
	if a.op == "+" && a.args[0] == b {
		return a.args[1]
	}
	if a.op == "+" && a.args[1] == b {
		return a.args[0]
	}
	return mk("-", "", SInt, a, b)
}
func mkMul(a, b *Term) *Term {
	if a.op == "int" && b.op == "int" {
		return mkBig(new(big.Int).Mul(a.big, b.big))
	}
	if a.op == "int" {
		a, b = b, a
	}
	if b.op == "int" {
		if b.big.Sign() == 0 {
			return b
		}
		if b.big.Cmp(big.NewInt(1)) == 0 {
			return a
		}
	}
	return mk("*", "", SInt, a, b)
}
func mkLe(a, b *Term) *Term {
	if a == b {
		return tTrue
	}
	if a.op == "int" && b.op == "int" {
		return mkBool(a.big.Cmp(b.big) <= 0)
	}
	ba, ka := splitOff(a)
	bb, kb := splitOff(b)
	if ba == bb && ba != nil {
		return mkBool(ka.Cmp(kb) <= 0)
	}
	if u, ok := ubound[a.id]; ok && b.op == "int" && b.big.Cmp(big.NewInt(u-1)) >= 0 {
		return tTrue
	}
	// fold through ite of literals
	if a.op == "ite" && b.op == "int" {
		x, y := mkLe(a.args[1], b), mkLe(a.args[2], b)
		if isLit(x) || isLit(y) {
			return mkIte(a.args[0], x, y)
		}
	}
	if b.op == "ite" && a.op == "int" {
		x, y := mkLe(a, b.args[1]), mkLe(a, b.args[2])
		if isLit(x) || isLit(y) {
			return mkIte(b.args[0], x, y)
		}
	}
	return mk("<=", "", SBool, a, b)
}
func mkLt(a, b *Term) *Term { return mkNot(mkLe(b, a)) }
func mkGe(a, b *Term) *Term { return mkLe(b, a) }
func mkGt(a, b *Term) *Term { return mkLt(b, a) }

// ---------- arrays ----------

func mkConstArr(s *Sort, v *Term) *Term { return mk("constarr", "", s, v) }

// frameInfo: heap constant h equals base at every index of an object that
// existed at cutoff, except the indices in except.
type frameInfo struct {
	base   *Term
	cutoff int64
	except []*Term
}

var heapFrames = map[int]*frameInfo{}

func (f *frameInfo) covers(i *Term) bool {
	if i.hasBV {
		return false
	}
	r := i
	if i.sort == SRef {
		r = mkSel("root", SInt, i)
	} else if i.sort != SInt {
		return false
	}
	if r.op == "int" {
		if r.big.Cmp(big.NewInt(f.cutoff)) >= 0 {
			return false
		}
	} else if u, ok := ubound[r.id]; !ok || u > f.cutoff {
		return false
	}
	for _, w := range f.except {
		if cmpIdx(w, i) != -1 {
			return false
		}
	}
	return true
}

func mkSelect(a, i *Term) *Term {
	if a.sort.Kind != "array" {
		panic("select on " + a.sort.Name)
	}
	if a.sort.Key != i.sort {
		panic(fmt.Sprintf("select key sort %s on %s", i.sort.Name, a.sort.Name))
	}
	cur := a
	for {
		switch cur.op {
		case "store":
			switch cmpIdx(cur.args[1], i) {
			case 1:
				return cur.args[2]
			case -1:
				cur = cur.args[0]
				continue
			}
		case "constarr":
			return cur.args[0]
		case "const":
			if fr := heapFrames[cur.id]; fr != nil && fr.covers(i) {
				cur = fr.base
				continue
			}
			if lb := localFrames[cur.id]; lb != nil && i.op == "int" && i.big.Sign() > 0 {
				cur = lb
				continue
			}
		case "ite":
			// push when cheap
			x := mkSelect(cur.args[1], i)
			y := mkSelect(cur.args[2], i)
			return mkIte(cur.args[0], x, y)
		}
		break
	}
	if i.op == "ite" && cur.op == "store" {
		// try splitting the index
		x, y := mkSelect(cur, i.args[1]), mkSelect(cur, i.args[2])
		return mkIte(i.args[0], x, y)
	}
	return mk("select", "", a.sort.Elem, cur, i)
}

func mkStore(a, i, v *Term) *Term {
	if a.sort.Elem != v.sort {
		panic(fmt.Sprintf("store elem sort %s into %s", v.sort.Name, a.sort.Name))
	}
	if a.sort.Key != i.sort {
		panic(fmt.Sprintf("store key sort %s into %s", i.sort.Name, a.sort.Name))
	}
	if a.op == "store" && a.args[1] == i {
		return mkStore(a.args[0], i, v)
	}
	if v.op == "select" && v.args[0] == a && v.args[1] == i {
		return a
	}
	if a.op == "constarr" && a.args[0] == v {
		return a
	}
	// remove an older store at the same index when everything between is known distinct
	if a.op == "store" {
		cur := a
		var between []*Term
		for n := 0; cur.op == "store" && n < 64; n++ {
			r := cmpIdx(cur.args[1], i)
			if r == 1 {
				base := cur.args[0]
				for k := len(between) - 1; k >= 0; k-- {
					base = mk("store", "", a.sort, base, between[k].args[1], between[k].args[2])
				}
				a = base
				break
			}
			if r == 0 {
				break
			}
			between = append(between, cur)
			cur = cur.args[0]
		}
		if v.op == "select" && v.args[0] == a && v.args[1] == i {
			return a
		}
	}
	return mk("store", "", a.sort, a, i, v)
}

// ---------- constructors ----------

type ctorInfo struct {
	name string
	sort *Sort
	sels []SortField
}

var ctors = map[string]*ctorInfo{}

func regCtor(name string, s *Sort, sels ...SortField) {
	if _, ok := ctors[name]; ok {
		return
	}
	ctors[name] = &ctorInfo{name, s, sels}
}

var _ctorsReady = func() bool {
	regCtor("pnil", SPath)
	regCtor("pf", SPath, SortField{"pf-b", SPath}, SortField{"pf-i", SInt})
	regCtor("ptr", SRef, SortField{"root", SInt}, SortField{"path", SPath})
	regCtor("mkslice", SSlice, SortField{"s-arr", SInt}, SortField{"s-off", SInt}, SortField{"s-len", SInt}, SortField{"s-cap", SInt})
	regCtor("anil", SAny)
	regCtor("aother", SAny, SortField{"ao-t", SInt}, SortField{"ao-v", SInt})
	return true
}()

func mkCtor(name string, s *Sort, args ...*Term) *Term {
	ci := ctors[name]
	if ci == nil {
		panic("ctor " + name)
	}
	for i, a := range args {
		if a.sort != ci.sels[i].Sort {
			panic(fmt.Sprintf("ctor %s arg %d sort %s want %s", name, i, a.sort.Name, ci.sels[i].Sort.Name))
		}
	}
	// eta
	if len(args) > 0 && args[0].op == "sel" && s != SAny && s.Kind != "path" {
		base := args[0].args[0]
		ok := base.sort == s
		for i, a := range args {
			if !(a.op == "sel" && a.args[0] == base && a.name == ci.sels[i].Name) {
				ok = false
				break
			}
		}
		if ok {
			return base
		}
	}
	return mk("ctor", name, s, args...)
}

func mkSel(sel string, s *Sort, t *Term) *Term {
	if t.op == "ctor" {
		ci := ctors[t.name]
		for i, f := range ci.sels {
			if f.Name == sel {
				return t.args[i]
			}
		}
	}
	if t.op == "ite" {
		a, b := t.args[1], t.args[2]
		if a.op == "ctor" || b.op == "ctor" || a.op == "ite" || b.op == "ite" {
			if t.sort != SAny || (hasSel(a, sel) || hasSel(b, sel)) {
				if t.size < 20000 {
					x, y := mkSel(sel, s, a), mkSel(sel, s, b)
					// for Any with wrong ctor the value is irrelevant: keep other side
					if t.sort == SAny {
						if a.op == "ctor" && !hasSel(a, sel) {
							return y
						}
						if b.op == "ctor" && !hasSel(b, sel) {
							return x
						}
					}
					return mkIte(t.args[0], x, y)
				}
			}
		}
	}
	return mk("sel", sel, s, t)
}
func hasSel(t *Term, sel string) bool {
	if t.op != "ctor" {
		return false
	}
	for _, f := range ctors[t.name].sels {
		if f.Name == sel {
			return true
		}
	}
	return false
}

func mkIs(ctor string, t *Term) *Term {
	if t.op == "ctor" {
		return mkBool(t.name == ctor)
	}
	if t.op == "ite" {
		x, y := mkIs(ctor, t.args[1]), mkIs(ctor, t.args[2])
		if isLit(x) || isLit(y) {
			return mkIte(t.args[0], x, y)
		}
	}
	return mk("is", ctor, SBool, t)
}

// ---------- uninterpreted functions ----------

type ufDecl struct {
	name string
	args []*Sort
	res  *Sort
}

var ufs = map[string]*ufDecl{}

func mkApp(name string, res *Sort, args ...*Term) *Term {
	d := ufs[name]
	if d == nil {
		d = &ufDecl{name: name, res: res}
		for _, a := range args {
			d.args = append(d.args, a.sort)
		}
		ufs[name] = d
	} else {
		if len(d.args) != len(args) {
			panic("uf arity " + name)
		}
		for i, a := range args {
			if a.sort != d.args[i] {
				panic(fmt.Sprintf("uf %s arg %d sort %s want %s", name, i, a.sort.Name, d.args[i].Name))
			}
		}
		if d.res != res {
			panic("uf result " + name)
		}
	}
	return mk("app", name, res, args...)
}

// ---------- quantifiers ----------

func mkQuant(op string, bound []*Term, pats [][]*Term, body *Term) *Term {
	if len(bound) == 0 || body == tTrue || body == tFalse {
		return body
	}
	fv := freeBVs(body)
	var bs []*Term
	for _, b := range bound {
		if fv[b.id] {
			bs = append(bs, b)
		}
	}
	if len(bs) == 0 {
		return body
	}
	if x := expandSmall(op, bs, body); x != nil {
		return x
	}
	var sb strings.Builder
	for _, b := range bs {
		fmt.Fprintf(&sb, "%d,", b.id)
	}
	sb.WriteString("#")
	for _, p := range pats {
		for _, x := range p {
			fmt.Fprintf(&sb, "%d ", x.id)
		}
		sb.WriteByte(';')
	}
	t := mk(op, sb.String(), SBool, body)
	t.bound = bs
	t.pats = pats
	fvs := freeBVs(body)
	for _, b := range bs {
		delete(fvs, b.id)
	}
	t.hasBV = len(fvs) > 0
	return t
}

// expandSmall writes out a quantifier over one integer between literal bounds at most 4 apart.
func expandSmall(op string, bs []*Term, body *Term) *Term {
	if len(bs) != 1 || bs[0].sort != SInt {
		return nil
	}
	b := bs[0]
	g := body
	if op == "forall" {
		if body.op != "=>" {
			return nil
		}
		g = body.args[0]
	}
	var lo, hi *big.Int // inclusive
	var scan func(t *Term)
	scan = func(t *Term) {
		switch {
		case t.op == "and":
			for _, x := range t.args {
				scan(x)
			}
		case t.op == "<=" && t.args[0].op == "int" && t.args[1] == b:
			lo = t.args[0].big
		case t.op == "<=" && t.args[1].op == "int" && t.args[0] == b:
			hi = t.args[1].big
		case t.op == "not" && t.args[0].op == "<=" && t.args[0].args[0].op == "int" && t.args[0].args[1] == b:
			hi = new(big.Int).Sub(t.args[0].args[0].big, big.NewInt(1))
		}
	}
	scan(g)
	if lo == nil || hi == nil || new(big.Int).Sub(hi, lo).Cmp(big.NewInt(3)) > 0 {
		return nil
	}
	var out []*Term
	for i := new(big.Int).Set(lo); i.Cmp(hi) <= 0; i = new(big.Int).Add(i, big.NewInt(1)) {
		out = append(out, subst(body, map[int]*Term{b.id: mkBig(i)}))
	}
	if op == "forall" {
		return mkAnd(out...)
	}
	return mkOr(out...)
}
func mkForall(bound []*Term, body *Term, pats ...[]*Term) *Term {
	return mkQuant("forall", bound, pats, body)
}
func mkExists(bound []*Term, body *Term) *Term {
	return mkQuant("exists", bound, nil, body)
}

func freeBVs(t *Term) map[int]bool {
	out := map[int]bool{}
	seen := map[int]bool{}
	var rec func(t *Term, boundSet map[int]bool)
	rec = func(t *Term, bs map[int]bool) {
		if !t.hasBV || seen[t.id] && len(bs) == 0 {
			return
		}
		if len(bs) == 0 {
			seen[t.id] = true
		}
		if t.op == "bvar" {
			if !bs[t.id] {
				out[t.id] = true
			}
			return
		}
		if t.op == "forall" || t.op == "exists" {
			nb := map[int]bool{}
			for k := range bs {
				nb[k] = true
			}
			for _, b := range t.bound {
				nb[b.id] = true
			}
			rec(t.args[0], nb)
			return
		}
		for _, a := range t.args {
			rec(a, bs)
		}
	}
	rec(t, map[int]bool{})
	return out
}

// subst replaces terms (by id) bottom-up.
func subst(t *Term, m map[int]*Term) *Term {
	memo := map[int]*Term{}
	var rec func(t *Term) *Term
	rec = func(t *Term) *Term {
		if r, ok := m[t.id]; ok {
			return r
		}
		if len(t.args) == 0 {
			return t
		}
		if r, ok := memo[t.id]; ok {
			return r
		}
		args := make([]*Term, len(t.args))
		ch := false
		for i, a := range t.args {
			args[i] = rec(a)
			if args[i] != a {
				ch = true
			}
		}
		r := t
		if ch {
			r = rebuild(t, args)
		}
		if t.op == "forall" || t.op == "exists" {
			pats := make([][]*Term, len(t.pats))
			pch := false
			for i, p := range t.pats {
				for _, x := range p {
					y := rec(x)
					if y != x {
						pch = true
					}
					pats[i] = append(pats[i], y)
				}
			}
			if ch || pch {
				r = mkQuant(t.op, t.bound, pats, args[0])
			}
		}
		memo[t.id] = r
		return r
	}
	return rec(t)
}

func rebuild(t *Term, a []*Term) *Term {
	switch t.op {
	case "not":
		return mkNot(a[0])
	case "and":
		return mkAnd(a...)
	case "or":
		return mkOr(a...)
	case "=>":
		return mkImp(a[0], a[1])
	case "ite":
		return mkIte(a[0], a[1], a[2])
	case "=":
		return mkEq(a[0], a[1])
	case "+":
		return mkAdd(a[0], a[1])
	case "-":
		return mkSub(a[0], a[1])
	case "*":
		return mkMul(a[0], a[1])
	case "<=":
		return mkLe(a[0], a[1])
	case "select":
		return mkSelect(a[0], a[1])
	case "store":
		return mkStore(a[0], a[1], a[2])
	case "constarr":
		return mkConstArr(t.sort, a[0])
	case "ctor":
		return mkCtor(t.name, t.sort, a...)
	case "sel":
		return mkSel(t.name, t.sort, a[0])
	case "is":
		return mkIs(t.name, a[0])
	case "app":
		return mkApp(t.name, t.sort, a...)
	case "forall", "exists":
		return mkQuant(t.op, t.bound, t.pats, a[0])
	}
	return mk(t.op, t.name, t.sort, a...)
}

func sortedKeys[V any](m map[string]V) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}
