package main

// Symbolic state: heaps, memory access, facts and obligations.

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Val interface{}
type Tuple []Val

// LV is a pointer to (a field path of) an element of an array/slice.
type LV struct {
	arr  *Term // array id
	idx  *Term
	elem types.Type
	path []int
	typ  types.Type // pointee type
}

type Iter struct {
	key  string // ghost heap prefix
	kt   types.Type
	m    *Term // map id
	mt   *types.Map
	str  bool
	dom0 *Term
}

type State struct {
	pc    *Term
	heaps map[string]*Term
	epoch string
	ctr   int64
}

func (s *State) clone() *State {
	n := &State{pc: s.pc, heaps: make(map[string]*Term, len(s.heaps)), epoch: s.epoch, ctr: s.ctr}
	for k, v := range s.heaps {
		n.heaps[k] = v
	}
	return n
}
func (s *State) with(c *Term) *State {
	n := s.clone()
	n.pc = mkAnd(s.pc, c)
	return n
}

type Obligation struct {
	Unit  string
	Name  string
	Kind  string
	Props []string
	Goal  *Term
	Facts *Fact
	Pos   string
	Cand  string // candidate key when a Houdini candidate
	Cover bool   // must be satisfiable
	Res   SolveResult
	Err   string
}

// Ctx: one verification unit run.
type Ctx struct {
	e           *Engine
	unit        *Unit
	facts       *Fact
	obls        []*Obligation
	dry         int
	dead        map[string]bool
	loopMod     map[string]map[string]bool
	heapSort    map[string]*Sort
	heapInit    map[string]bool
	prov        map[int]string
	guardedM    map[int]guardTag // map ids loaded from guarded fields
	fnTable     map[int64]*fnVal
	fnIDs       map[*ssa.Function]int64
	nfn         int64
	oblNames    map[string]int
	events      int
	errs        []string
	callStack   []string
	props       map[string]bool // properties of interest
	mutexes     map[int]*Term
	used        map[string]bool // contracts used
	trusted     map[string]bool // externals used
	inlined     map[string]bool
	globals     map[*ssa.Global]*Term
	initing     bool
	candList    map[string]string
	steps       int
	noRet       bool
	iterRound   int
	unrolled    map[string]bool
	lockGhost   map[string]*Term
	loopInfos   map[string]*loopInfo
	noUnroll    map[string]bool
	fieldTags   map[int]fieldTag
	signals     map[int]bool
	axDone      map[string]bool
	axiomsUsed  map[string]bool
	assumptions map[string]bool
	holds       []*Term
	goDepth     int
	panicking   int
	inRun       int
	runLocked   bool
	runCtr      int64
	onceDepth   int
	onceCells   map[int]bool
	entry       *State
	params      map[string]TV
	results     map[string]TV
	errWraps    map[int64][]*Term
	ctxParents  map[int64][3]*Term
	timerChans  []*Term
	acquired    []acq
}

type guardTag struct {
	lock *Term // mutex ref
	what string
	deep bool
	rw   bool
}

type fnVal struct {
	fn    *ssa.Function
	binds []Val
	bound []Val // leading bound args (method values)
	ext   func(a *act, st *State, args []Val) []Val
	name  string
}

func (c *Ctx) assume(st *State, f *Term) {
	f = mkImp(st.pc, f)
	c.fact(f)
}
func (c *Ctx) fact(f *Term) {
	if f == tTrue || f.hasBV {
		return
	}
	n := 0
	if c.facts != nil {
		n = c.facts.n
	}
	c.facts = &Fact{parent: c.facts, t: f, n: n + 1}
}

func (c *Ctx) oblige(st *State, kind, name string, props []string, goal *Term, pos token.Pos) {
	g := mkImp(st.pc, goal)
	if goal.op != "true" {
		g = simplifyUnder(st.pc, goal)
		g = mkImp(st.pc, g)
	}
	var from *Obligation
	if c.dry == 0 {
		full := name
		c.oblNames[full]++
		if k := c.oblNames[full]; k > 1 {
			full = fmt.Sprintf("%s#%d", name, k)
		}
		if g != tTrue || true {
			from = &Obligation{Unit: c.unit.Name, Name: full, Kind: kind, Props: props, Goal: g, Facts: c.facts, Pos: c.e.pos(pos)}
			c.obls = append(c.obls, from)
		}
	}
	f := c.facts
	c.fact(g)
	if c.facts != f {
		c.facts.from = from
	}
}

// simplifyUnder drops/uses conjuncts of pc in t (shallow).
func simplifyUnder(pc, t *Term) *Term {
	for _, c := range conjuncts(pc) {
		if c == t {
			return tTrue
		}
		if mkNot(c) == t {
			return tFalse
		}
	}
	if t.op == "and" {
		var out []*Term
		for _, a := range t.args {
			out = append(out, simplifyUnder(pc, a))
		}
		return mkAnd(out...)
	}
	if t.op == "or" {
		var out []*Term
		for _, a := range t.args {
			out = append(out, simplifyUnder(pc, a))
		}
		return mkOr(out...)
	}
	return t
}

// simplifyIte resolves top-level ites using pc.
func simplifyIte(pc, t *Term) *Term {
	for t.op == "ite" {
		c := simplifyUnder(pc, t.args[0])
		if c == tTrue {
			t = t.args[1]
		} else if c == tFalse {
			t = t.args[2]
		} else {
			break
		}
	}
	return t
}

// ---------- heaps ----------

func (c *Ctx) heap(st *State, key string, s *Sort) *Term {
	if h, ok := st.heaps[key]; ok {
		return h
	}
	c.heapSort[key] = s
	k := key
	ep := st.epoch
	if strings.HasPrefix(key, "old:") {
		k = key[4:]
		ep = "0"
		if h, ok := c.entryHeaps()[k]; ok {
			st.heaps[key] = h
			return h
		}
	}
	if strings.HasPrefix(key, "$lock") {
		h := mkConstArr(s, mkInt(0))
		st.heaps[key] = h
		return h
	}
	if key == "$trn" {
		h := mkInt(0)
		st.heaps[key] = h
		return h
	}
	h := mkConst(sanitize("H@"+ep+"@"+k), s)
	bound := int64(1)
	if ep != "0" {
		bound = st.ctr
	}
	if !c.heapInit[h.name] {
		c.heapInit[h.name] = true
		c.heapAxioms(h, k, bound)
	}
	st.heaps[key] = h
	return h
}

func (c *Ctx) entryHeaps() map[string]*Term { return c.unit.entryHeaps }

// heapAxioms asserts typing facts of a havoced/initial heap constant.
func (c *Ctx) heapAxioms(h *Term, key string, bound int64) {
	t := c.e.heapElemType[key]
	if t == nil {
		return
	}
	add := func(vars []*Term, v *Term) {
		fs := c.typeFacts(v, t, bound, true)
		if len(fs) == 0 {
			return
		}
		f := mkForall(vars, mkAnd(fs...), []*Term{v})
		n := 0
		if c.facts != nil {
			n = c.facts.n
		}
		c.facts = &Fact{parent: c.facts, t: f, n: n + 1}
	}
	switch {
	case strings.HasPrefix(key, "L:"):
		x := mkBV("x", SRef)
		add([]*Term{x}, mkSelect(h, x))
	case strings.HasPrefix(key, "E:"):
		a, i := mkBV("a", SInt), mkBV("i", SInt)
		add([]*Term{a, i}, mkSelect(mkSelect(h, a), i))
	case strings.HasPrefix(key, "MV:"):
		a, i := mkBV("a", SInt), mkBV("k", h.sort.Elem.Key)
		add([]*Term{a, i}, mkSelect(mkSelect(h, a), i))
	case strings.HasPrefix(key, "MD:"):
		// the nil map is empty
		f := mkEq(mkSelect(h, mkInt(0)), mkConstArr(h.sort.Elem, tFalse))
		c.fact(f)
	}
}

// typeFacts gives the well-typedness facts of a value.
func (c *Ctx) typeFacts(v *Term, t types.Type, bound int64, shallow bool) []*Term {
	t = types.Unalias(t)
	if opaqueSort(t) != nil {
		return nil
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if lo, hi, ok := intRange(t); ok {
			if v.op == "int" {
				return nil
			}
			return []*Term{mkLe(bigLit(lo), v), mkLe(v, bigLit(hi))}
		}
	case *types.Pointer:
		r := mkSel("root", SInt, v)
		if r.op == "int" {
			return nil
		}
		noteBound(r, bound)
		return []*Term{mkLeRaw(r, mkInt(bound-1))}
	case *types.Map, *types.Chan:
		if v.op == "int" {
			return nil
		}
		noteBound(v, bound)
		return []*Term{mkLeRaw(v, mkInt(bound-1))}
	case *types.Slice:
		arr := mkSel("s-arr", SInt, v)
		off := mkSel("s-off", SInt, v)
		ln := mkSel("s-len", SInt, v)
		cp := mkSel("s-cap", SInt, v)
		var fs []*Term
		if arr.op != "int" {
			noteBound(arr, bound)
			fs = append(fs, mkLeRaw(arr, mkInt(bound-1)))
			fs = append(fs, mkImp(mkEq(arr, mkInt(0)), mkAnd(mkEq(cp, mkInt(0)), mkEq(off, mkInt(0)))))
		}
		fs = append(fs, mkLe(mkInt(0), off), mkLe(mkInt(0), ln), mkLe(ln, cp), mkLe(cp, bigLit("140737488355328")), mkLe(off, bigLit("140737488355328")))
		var out []*Term
		for _, f := range fs {
			if f != tTrue {
				out = append(out, f)
			}
		}
		return out
	case *types.Struct:
		s := sortOf(t)
		var out []*Term
		for i := 0; i < u.NumFields(); i++ {
			out = append(out, c.typeFacts(mkSel(s.Fields[i].Name, s.Fields[i].Sort, v), u.Field(i).Type(), bound, shallow)...)
		}
		return out
	}
	return nil
}

func mkLeRaw(a, b *Term) *Term { return mk("<=", "", SBool, a, b) }

func bigLit(s string) *Term {
	b := newBig(s)
	return mkBig(b)
}

// norm normalises a value of Go type t just obtained from memory or a havoc.
func (c *Ctx) norm(st *State, v *Term, t types.Type) *Term {
	t = types.Unalias(t)
	v = simplifyIte(st.pc, v)
	if v.hasBV {
		if p, ok := t.Underlying().(*types.Pointer); ok && wholeObject(p.Elem()) && v.op != "ctor" && v.op != "ite" {
			return mkCtor("ptr", SRef, mkSel("root", SInt, v), pnil)
		}
		return v
	}
	if p, ok := t.Underlying().(*types.Pointer); ok {
		if v.op == "ctor" {
			return v
		}
		if v.op == "ite" {
			return mkIte(v.args[0], c.norm(st, v.args[1], t), c.norm(st, v.args[2], t))
		}
		r := mkSel("root", SInt, v)
		b := st.ctr
		if isInitial(v) {
			b = 1
		}
		noteBound(r, b)
		c.fact(mkLeRaw(r, mkInt(b-1)))
		if wholeObject(p.Elem()) {
			c.fact(mkEq(mkSel("path", SPath, v), pnil))
			return mkCtor("ptr", SRef, r, pnil)
		}
		return v
	}
	if _, ok := isStructT(t); ok && v.op != "ctor" {
		s := sortOf(t)
		u := t.Underlying().(*types.Struct)
		args := make([]*Term, len(s.Fields))
		for i := range args {
			args[i] = c.norm(st, mkSel(s.Fields[i].Name, s.Fields[i].Sort, v), u.Field(i).Type())
		}
		return mkStruct(s, args...)
	}
	b := st.ctr
	if isInitial(v) {
		b = 1
	}
	if v.op == "const" || v.op == "select" || v.op == "sel" || v.op == "app" {
		for _, f := range c.typeFacts(v, t, b, false) {
			c.fact(f)
		}
	}
	return v
}

// isInitial: value read straight from an initial heap constant
func isInitial(v *Term) bool {
	for v.op == "select" || v.op == "sel" {
		v = v.args[0]
	}
	return v.op == "const" && strings.HasPrefix(v.name, "H@0@")
}

// wholeObject: pointers to this type always point to separately allocated objects
func wholeObject(t types.Type) bool {
	if _, ok := isStructT(t); ok {
		return true
	}
	if opaqueSort(t) != nil && sortOf(t) == SInt {
		// opaque library objects (amqp.Session, ...) but not sync primitives
		n := types.Unalias(t).(*types.Named)
		p := n.Obj().Pkg().Path()
		return p != "sync" && p != "sync/atomic"
	}
	return false
}

func (e *Engine) leafKey(t types.Type) (string, *Sort) {
	k := "L:" + typeKey(t)
	e.heapElemType[k] = t
	return k, ArraySort(SRef, sortOf(t))
}
func (e *Engine) elemKey(t types.Type) (string, *Sort) {
	k := "E:" + typeKey(t)
	e.heapElemType[k] = t
	return k, ArraySort(SInt, ArraySort(SInt, sortOf(t)))
}
func (e *Engine) mapKeys(m *types.Map) (dk string, ds *Sort, vk string, vs *Sort) {
	base := typeKey(m)
	ks := sortOf(m.Key())
	dk, vk = "MD:"+base, "MV:"+base
	e.heapElemType[vk] = m.Elem()
	e.heapElemType[dk] = m.Key()
	return dk, ArraySort(SInt, ArraySort(ks, SBool)), vk, ArraySort(SInt, ArraySort(ks, sortOf(m.Elem())))
}

func fieldRef(p *Term, i int) *Term {
	return mkCtor("ptr", SRef, mkSel("root", SInt, p), mkCtor("pf", SPath, mkSel("path", SPath, p), mkInt(int64(i))))
}

// load reads a value of type t at pointer p.
func (c *Ctx) load(st *State, p *Term, t types.Type) *Term {
	t = types.Unalias(t)
	if u, ok := isStructT(t); ok {
		s := sortOf(t)
		args := make([]*Term, u.NumFields())
		for i := range args {
			args[i] = c.load(st, fieldRef(p, i), u.Field(i).Type())
		}
		return mkStruct(s, args...)
	}
	if u, ok := isArrayT(t); ok {
		k, s := c.e.elemKey(u.Elem())
		return mkSelect(c.heap(st, k, s), mkSel("root", SInt, p))
	}
	if p.op == "ctor" && p.args[0].op == "int" && p.args[1] == pnil && p.args[0].big.IsInt64() && p.args[0].big.Int64() <= -1000000000 {
		if v := c.globalConst(p.args[0].big.Int64(), t); v != nil {
			return v
		}
	}
	k, s := c.e.leafKey(t)
	v := mkSelect(c.heap(st, k, s), p)
	return c.norm(st, v, t)
}

func (c *Ctx) store(st *State, p *Term, t types.Type, v *Term) {
	t = types.Unalias(t)
	if u, ok := isStructT(t); ok {
		s := sortOf(t)
		for i := 0; i < u.NumFields(); i++ {
			c.store(st, fieldRef(p, i), u.Field(i).Type(), mkSel(s.Fields[i].Name, s.Fields[i].Sort, v))
		}
		return
	}
	if u, ok := isArrayT(t); ok {
		k, s := c.e.elemKey(u.Elem())
		st.heaps[k] = mkStore(c.heap(st, k, s), mkSel("root", SInt, p), v)
		return
	}
	k, s := c.e.leafKey(t)
	c.checkWhole(v, t)
	st.heaps[k] = mkStore(c.heap(st, k, s), p, v)
}

// checkWhole rejects interior pointers to struct types in memory.
func (c *Ctx) checkWhole(v *Term, t types.Type) {
	if p, ok := types.Unalias(t).Underlying().(*types.Pointer); ok && wholeObject(p.Elem()) {
		if v.op == "ctor" && v.args[1].op == "ctor" && v.args[1].name != "pnil" {
			panic(unsupported("interior pointer to " + p.Elem().String() + " stored in memory"))
		}
	}
}

func (c *Ctx) elems(st *State, t types.Type, arr *Term) *Term {
	k, s := c.e.elemKey(t)
	return mkSelect(c.heap(st, k, s), arr)
}
func (c *Ctx) setElems(st *State, t types.Type, arr, contents *Term) {
	k, s := c.e.elemKey(t)
	st.heaps[k] = mkStore(c.heap(st, k, s), arr, contents)
}

func (c *Ctx) loadLV(st *State, l *LV) *Term {
	v := mkSelect(c.elems(st, l.elem, l.arr), l.idx)
	v = c.norm(st, v, l.elem)
	t := l.elem
	for _, i := range l.path {
		s := sortOf(t)
		v = mkSel(s.Fields[i].Name, s.Fields[i].Sort, v)
		t = t.Underlying().(*types.Struct).Field(i).Type()
	}
	return c.norm(st, v, t)
}
func (c *Ctx) storeLV(st *State, l *LV, v *Term) {
	arr := c.elems(st, l.elem, l.arr)
	old := mkSelect(arr, l.idx)
	var upd func(cur *Term, t types.Type, path []int) *Term
	upd = func(cur *Term, t types.Type, path []int) *Term {
		if len(path) == 0 {
			return v
		}
		s := sortOf(t)
		u := t.Underlying().(*types.Struct)
		args := make([]*Term, len(s.Fields))
		for i := range args {
			args[i] = mkSel(s.Fields[i].Name, s.Fields[i].Sort, cur)
		}
		args[path[0]] = upd(args[path[0]], u.Field(path[0]).Type(), path[1:])
		return mkStruct(s, args...)
	}
	nv := upd(old, l.elem, l.path)
	c.setElems(st, l.elem, l.arr, mkStore(arr, l.idx, nv))
}

// ---------- maps ----------

func (c *Ctx) mapDom(st *State, mt *types.Map, m *Term) *Term {
	dk, ds, _, _ := c.e.mapKeys(mt)
	h := c.heap(st, dk, ds)
	if m.op == "int" && m.big.Sign() == 0 {
		return mkConstArr(ds.Elem, tFalse)
	}
	return mkSelect(h, m)
}
func (c *Ctx) mapVals(st *State, mt *types.Map, m *Term) *Term {
	_, _, vk, vs := c.e.mapKeys(mt)
	return mkSelect(c.heap(st, vk, vs), m)
}
func (c *Ctx) setMap(st *State, mt *types.Map, m, dom, vals *Term) {
	dk, ds, vk, vs := c.e.mapKeys(mt)
	st.heaps[dk] = mkStore(c.heap(st, dk, ds), m, dom)
	if vals != nil {
		st.heaps[vk] = mkStore(c.heap(st, vk, vs), m, vals)
	}
}

func (c *Ctx) card(dom *Term) *Term {
	name := "card_" + sanitize(dom.sort.Name)
	return mkCard(name, dom)
}

func mkCard(name string, dom *Term) *Term {
	if _, ok := ufAxioms[name]; !ok {
		ds := dom.sort
		ufAxioms[name] = func() []*Term {
			d := mkBV("d", ds)
			k := mkBV("k", ds.Key)
			cd := mkApp(name, SInt, d)
			upT := mkApp(name, SInt, mk("store", "", ds, d, k, tTrue))
			upF := mkApp(name, SInt, mk("store", "", ds, d, k, tFalse))
			in := mk("select", "", SBool, d, k)
			return []*Term{
				mkForall([]*Term{d}, mkLe(mkInt(0), cd), []*Term{cd}),
				mkForall([]*Term{d, k}, mkImp(in, mkLe(mkInt(1), cd)), []*Term{cd, in}),
				mkForall([]*Term{d}, mkImp(mkEq(cd, mkInt(0)), mkEq(d, mkConstArr(ds, tFalse))), []*Term{cd}),
				mkForall([]*Term{d, k}, mkEq(upT, mkIte(in, cd, mkAdd(cd, mkInt(1)))), []*Term{upT}),
				mkForall([]*Term{d, k}, mkEq(upF, mkIte(in, mkSub(cd, mkInt(1)), cd)), []*Term{upF}),
				mkEq(mkApp(name, SInt, mkConstArr(ds, tFalse)), mkInt(0)),
			}
		}
	}
	if dom.op == "constarr" && dom.args[0] == tFalse {
		return mkInt(0)
	}
	return mkApp(name, SInt, dom)
}

// ---------- merging ----------

type edge struct {
	pred *ssa.BasicBlock
	idx  int // index of the edge among target preds
	st   *State
	vals map[ssa.Value]Val // extra values (loop exits)
}

// relConds returns, for disjoint path conditions, conditions relative to their common part.
func relConds(pcs []*Term) []*Term {
	if len(pcs) == 1 {
		return []*Term{tTrue}
	}
	common := map[int]bool{}
	for _, c := range conjuncts(pcs[0]) {
		common[c.id] = true
	}
	for _, p := range pcs[1:] {
		has := map[int]bool{}
		for _, c := range conjuncts(p) {
			has[c.id] = true
		}
		for k := range common {
			if !has[k] {
				delete(common, k)
			}
		}
	}
	out := make([]*Term, len(pcs))
	for i, p := range pcs {
		var r []*Term
		for _, c := range conjuncts(p) {
			if !common[c.id] {
				r = append(r, c)
			}
		}
		out[i] = mkAnd(r...)
	}
	return out
}

func (c *Ctx) mergeStates(sts []*State) (*State, []*Term) {
	if len(sts) == 1 {
		return sts[0].clone(), []*Term{tTrue}
	}
	var pcs []*Term
	for _, s := range sts {
		pcs = append(pcs, s.pc)
	}
	rel := relConds(pcs)
	// make the smallest-condition first? keep order
	out := &State{pc: mkOr(pcs...), heaps: map[string]*Term{}, epoch: sts[0].epoch}
	keys := map[string]bool{}
	sameEpoch := true
	for _, s := range sts {
		for k := range s.heaps {
			keys[k] = true
		}
		if s.ctr > out.ctr {
			out.ctr = s.ctr
		}
		if s.epoch != out.epoch {
			sameEpoch = false
		}
	}
	if !sameEpoch {
		for k := range c.heapSort {
			keys[k] = true
		}
		out.epoch = fmt.Sprintf("m%d", freshCtr)
		freshCtr++
	}
	var ks []string
	for k := range keys {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		s := c.heapSort[k]
		if s == nil {
			for _, x := range sts {
				if h := x.heaps[k]; h != nil {
					s = h.sort
				}
			}
		}
		v := c.heap(sts[len(sts)-1], k, s)
		for i := len(sts) - 2; i >= 0; i-- {
			v = mkIte(rel[i], c.heap(sts[i], k, s), v)
		}
		out.heaps[k] = v
	}
	return out, rel
}

func mergeVals(rel []*Term, vs []Val) Val {
	v := vs[len(vs)-1]
	for i := len(vs) - 2; i >= 0; i-- {
		v = iteVal(rel[i], vs[i], v)
	}
	return v
}

func iteVal(c *Term, a, b Val) Val {
	if c == tTrue {
		return a
	}
	if c == tFalse {
		return b
	}
	if a == nil {
		return b
	}
	if b == nil {
		return a
	}
	switch x := a.(type) {
	case *Term:
		y, ok := b.(*Term)
		if !ok {
			panic(unsupported("merge of different value kinds"))
		}
		return mkIte(c, x, y)
	case Tuple:
		y := b.(Tuple)
		out := make(Tuple, len(x))
		for i := range x {
			out[i] = iteVal(c, x[i], y[i])
		}
		return out
	case *LV:
		y, ok := b.(*LV)
		if ok && len(x.path) == len(y.path) && types.Identical(x.elem, y.elem) {
			same := true
			for i := range x.path {
				if x.path[i] != y.path[i] {
					same = false
				}
			}
			if same {
				return &LV{arr: mkIte(c, x.arr, y.arr), idx: mkIte(c, x.idx, y.idx), elem: x.elem, path: x.path, typ: x.typ}
			}
		}
	case *RV:
		if y, ok := b.(*RV); ok {
			return mergeRV(c, x, y)
		}
	case *Iter:
		if y, ok := b.(*Iter); ok && *x == *y {
			return x
		}
	}
	if a == b {
		return a
	}
	panic(unsupported(fmt.Sprintf("merge of values %T %T", a, b)))
}
