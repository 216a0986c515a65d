package main

// Loops: full unrolling when the exit test folds, otherwise inductive
// invariants found by elimination of candidates (every surviving candidate is
// proved on entry and preserved by an arbitrary iteration).

import (
	"crypto/sha1"
	"fmt"
	"go/token"
	"go/types"
	"regexp"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const unrollLimit = 64
const ctrBump = int64(1) << 44

type snapshot struct {
	facts  *Fact
	nobl   int
	names  map[string]int
	in     map[*ssa.BasicBlock][]edge
	back   map[*loop][]edge
	env    map[ssa.Value]Val
	ndef   int
	nret   int
	npanic int
	cur    []*loop
	events int
	nerr   int
}

func (a *act) snap() *snapshot {
	c := a.c
	s := &snapshot{facts: c.facts, nobl: len(c.obls), names: map[string]int{}, in: map[*ssa.BasicBlock][]edge{}, back: map[*loop][]edge{}, env: map[ssa.Value]Val{}, ndef: len(a.defers), nret: len(a.rets), npanic: len(a.panics), cur: append([]*loop{}, a.cur...), nerr: len(c.errs)}
	for k, v := range c.oblNames {
		s.names[k] = v
	}
	for k, v := range a.in {
		s.in[k] = append([]edge{}, v...)
	}
	for k, v := range a.back {
		s.back[k] = append([]edge{}, v...)
	}
	for k, v := range a.env {
		s.env[k] = v
	}
	return s
}

func (a *act) restore(s *snapshot) {
	c := a.c
	c.facts = s.facts
	c.obls = c.obls[:s.nobl]
	c.oblNames = map[string]int{}
	for k, v := range s.names {
		c.oblNames[k] = v
	}
	a.in = map[*ssa.BasicBlock][]edge{}
	for k, v := range s.in {
		a.in[k] = append([]edge{}, v...)
	}
	a.back = map[*loop][]edge{}
	for k, v := range s.back {
		a.back[k] = append([]edge{}, v...)
	}
	a.env = map[ssa.Value]Val{}
	for k, v := range s.env {
		a.env[k] = v
	}
	a.defers = a.defers[:s.ndef]
	a.rets = a.rets[:s.nret]
	a.panics = a.panics[:s.npanic]
	a.cur = append([]*loop{}, s.cur...)
	c.errs = c.errs[:s.nerr]
}

func (a *act) execLoop(l *loop) {
	es := liveEdges(a.in[l.header])
	delete(a.in, l.header)
	if len(es) == 0 {
		return
	}
	c := a.c
	st, _, vals := a.joinEdges(l.header, es)
	for k, v := range vals {
		a.env[k] = v
	}
	base := fmt.Sprintf("%s#%d", a.key, l.ord)
	c.oblNames["loop:"+base]++
	key := fmt.Sprintf("%s@%d", base, c.oblNames["loop:"+base])
	if !c.noUnroll[key] && a.headerExits(l) {
		if a.tryUnroll(l, st) {
			return
		}
		c.noUnroll[key] = true
	}
	a.invLoop(l, st, key)
}

// headerExits: the loop header ends with a test one branch of which leaves the loop
func (a *act) headerExits(l *loop) bool {
	in := l.header.Instrs[len(l.header.Instrs)-1]
	if _, ok := in.(*ssa.If); !ok {
		return false
	}
	return !l.blocks[l.header.Succs[0]] || !l.blocks[l.header.Succs[1]]
}

func (a *act) iterate(l *loop, st *State) []edge {
	saved := a.back[l]
	a.back[l] = nil
	a.cur = append(a.cur, l)
	a.runInstrs(l.header, st)
	a.execBlocks(a.bodyOrder(l), l)
	a.cur = a.cur[:len(a.cur)-1]
	back := liveEdges(a.back[l])
	a.back[l] = saved
	return back
}

func (a *act) tryUnroll(l *loop, st0 *State) bool {
	s := a.snap()
	st := st0.clone()
	for it := 0; it < unrollLimit; it++ {
		pc := st.pc
		back := a.iterate(l, st)
		last := l.header.Instrs[len(l.header.Instrs)-1].(*ssa.If)
		cv, ok := a.env[last.Cond].(*Term)
		if !ok {
			if k, isC := last.Cond.(*ssa.Const); isC {
				cv, ok = a.c.constVal(k).(*Term)
			}
		}
		if ok {
			cv = simplifyUnder(pc, cv)
		}
		if !ok || !isLit(cv) {
			a.restore(s)
			return false
		}
		if len(back) == 0 {
			return true
		}
		var vals map[ssa.Value]Val
		st, _, vals = a.joinEdges(l.header, back)
		for k, v := range vals {
			a.env[k] = v
		}
	}
	a.restore(s)
	return false
}

// writeSet of one loop for one heap
type writeSet struct {
	wild bool
	idx  []*Term
}

func (w *writeSet) has(t *Term) bool {
	for _, x := range w.idx {
		if x == t {
			return true
		}
	}
	return false
}

type loopInfo struct {
	mod map[string]*writeSet
}

// collectWrites gathers the indices written between base and h.
func collectWrites(h, base *Term, out map[int]*Term, seen map[int]bool) bool {
	// a store to an index the base stores to may have replaced that store
	below := map[int][]*Term{}
	var skipped []*Term
	for b := base; b.op == "store"; {
		skipped = append(skipped[:len(skipped):len(skipped)], b.args[1])
		b = b.args[0]
		below[b.id] = skipped
	}
	return collectWrites1(h, base, below, out, seen)
}

func collectWrites1(h, base *Term, below map[int][]*Term, out map[int]*Term, seen map[int]bool) bool {
	for {
		if h == base || seen[h.id] {
			return true
		}
		if sk, ok := below[h.id]; ok {
			for _, t := range sk {
				out[t.id] = t
			}
			return true
		}
		seen[h.id] = true
		switch h.op {
		case "store":
			out[h.args[1].id] = h.args[1]
			h = h.args[0]
			continue
		case "ite":
			return collectWrites1(h.args[1], base, below, out, seen) && collectWrites1(h.args[2], base, below, out, seen)
		case "const":
			// frame of an inner loop or of a call
			if fr := heapFrames[h.id]; fr != nil {
				for _, e := range fr.except {
					out[e.id] = e
				}
				h = fr.base
				continue
			}
		}
		return false
	}
}

// invariantTerm: t mentions nothing introduced since the loop began
func (c *Ctx) invariantTerm(t *Term, startFresh int, local map[string]bool, memo map[int]bool) bool {
	if r, ok := memo[t.id]; ok {
		return r
	}
	r := true
	if t.op == "const" {
		if local[t.name] {
			r = false
		} else if i := strings.LastIndexByte(t.name, '!'); i >= 0 {
			n := 0
			fmt.Sscanf(t.name[i+1:], "%d", &n)
			if n > startFresh {
				r = false
			}
		}
	}
	for _, x := range t.args {
		if !c.invariantTerm(x, startFresh, local, memo) {
			r = false
			break
		}
	}
	memo[t.id] = r
	return r
}

func rootOf(i *Term) *Term {
	if i.sort == SRef {
		return mkSel("root", SInt, i)
	}
	if i.sort == SInt {
		return i
	}
	return nil
}

func isObjHeap(key string) bool {
	return strings.HasPrefix(key, "L:") || strings.HasPrefix(key, "E:") || strings.HasPrefix(key, "MD:") || strings.HasPrefix(key, "MV:") || strings.HasPrefix(key, "$lock") || strings.HasPrefix(key, "$ch") || strings.HasPrefix(key, "$o:")
}

// freshSince: index denotes an object allocated at or after ctr
func freshSince(i *Term, ctr int64) bool {
	r := rootOf(i)
	if r == nil {
		return false
	}
	var rec func(t *Term) bool
	rec = func(t *Term) bool {
		if t.op == "int" {
			return t.big.IsInt64() && t.big.Int64() >= ctr
		}
		if t.op == "ite" {
			return rec(t.args[1]) && rec(t.args[2])
		}
		return false
	}
	return rec(r)
}

type havocked struct {
	st    *State
	n     *Term
	local map[string]bool
}

// havocHeaps: the heaps a loop writes are arbitrary at the head of an iteration.
func (a *act) havocHeaps(entry *State, info *loopInfo) *havocked {
	c := a.c
	hs := entry.clone()
	hs.ctr = entry.ctr + ctrBump
	h := &havocked{st: hs, local: map[string]bool{}}
	for _, k := range sortedKeys(info.mod) {
		w := info.mod[k]
		s := c.heapSort[k]
		be := c.heap(entry, k, s)
		freshCtr++
		hc := mkConst(sanitize("LH@"+k)+fmt.Sprintf("!%d", freshCtr), s)
		h.local[hc.name] = true
		c.heapSort[k] = s
		if isObjHeap(k) {
			c.heapAxioms(hc, strings.TrimPrefix(k, "old:"), hs.ctr)
			if !w.wild {
				heapFrames[hc.id] = &frameInfo{base: be, cutoff: entry.ctr, except: append([]*Term{}, w.idx...)}
				x := mkBV("x", s.Key)
				conds := []*Term{mkLeRaw(rootOf(x), mkInt(entry.ctr-1))}
				for _, e := range w.idx {
					conds = append(conds, mkNot(mkEq(x, e)))
				}
				sel := mk("select", "", s.Elem, hc, x)
				c.fact(mkForall([]*Term{x}, mkImp(mkAnd(conds...), mkEq(sel, mk("select", "", s.Elem, be, x))), []*Term{sel}))
			}
		} else if s == SInt && strings.HasSuffix(k, ":n") {
			c.fact(mkLe(mkInt(0), hc))
		}
		hs.heaps[k] = hc
	}
	h.n = fresh("iter", SInt)
	h.local[h.n.name] = true
	c.fact(mkLe(mkInt(0), h.n))
	c.fact(mkLe(h.n, bigLit("140737488355328")))
	return h
}

// havocLoop builds the state at the head of an arbitrary iteration.
func (a *act) havocLoop(l *loop, entry *State, info *loopInfo, key string) *havocked {
	c := a.c
	h := a.havocHeaps(entry, info)
	hs := h.st
	for _, in := range l.header.Instrs {
		phi, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		ev, isT := a.env[phi].(*Term)
		if !isT {
			continue // kept; checked to be unchanged
		}
		pc := fresh("phi_"+phi.Comment, ev.sort)
		h.local[pc.name] = true
		a.env[phi] = c.norm(hs, pc, phi.Type())
	}
	return h
}

func (a *act) invLoop(l *loop, entry *State, key string) {
	c := a.c
	info := c.loopInfos[key]
	if info == nil {
		info = &loopInfo{mod: map[string]*writeSet{}}
		c.loopInfos[key] = info
	}
	phis := map[*ssa.Phi]Val{}
	for _, in := range l.header.Instrs {
		if p, ok := in.(*ssa.Phi); ok {
			phis[p] = a.env[p]
		}
	}
	// discovery of the write set
	for round := 0; ; round++ {
		if round > 30 {
			panic(unsupported("loop write set does not stabilise"))
		}
		sn := a.snap()
		startFresh := freshCtr
		c.dry++
		h := a.havocLoop(l, entry.clone(), info, key)
		st0 := h.st.clone()
		back := a.iterate(l, h.st)
		c.dry--
		grew := false
		memo := map[int]bool{}
		for _, b := range back {
			if c.growMod(info, b.st, st0, entry.ctr, startFresh, h.local, key, memo) {
				grew = true
			}
		}
		a.restore(sn)
		if !grew {
			break
		}
	}
	for p, v := range phis {
		a.env[p] = v
	}
	// real execution
	lc := &loopCtx{a: a, l: l, key: key, entry: entry.clone(), entryPhis: phis, info: info}
	cands := lc.candidates()
	n0 := mkInt(0)
	type live struct {
		cd  *cand
		key string
	}
	var alive []live
	for _, cd := range cands {
		ck := key + "|" + cd.text
		if c.dead[ck] {
			continue
		}
		g := a.evalCand(cd, entry, phis, n0)
		if g == nil || g == tFalse {
			c.dead[ck] = true
			continue
		}
		alive = append(alive, live{cd, ck})
		c.candOblige(entry, ck, "entry", g)
	}
	h := a.havocLoop(l, entry, info, key)
	hphis := map[*ssa.Phi]Val{}
	for p := range phis {
		hphis[p] = a.env[p]
	}
	lc.n = h.n
	var al2 []live
	for _, lv := range alive {
		g := a.evalCand(lv.cd, h.st, hphis, h.n)
		if g == nil {
			c.dead[lv.key] = true
			continue
		}
		c.assume(h.st, g)
		al2 = append(al2, lv)
	}
	st0 := h.st.clone()
	back := a.iterate(l, h.st)
	if len(back) == 0 {
		return
	}
	// verify the write set assumption
	for _, b := range back {
		for _, k := range sortedKeys(b.st.heaps) {
			bh, ok := st0.heaps[k]
			if !ok {
				bh = c.heap(st0, k, c.heapSort[k])
			}
			if b.st.heaps[k] != bh && info.mod[k] == nil {
				panic(unsupported("loop write set unstable: " + k))
			}
		}
	}
	st, _, vals := a.joinEdges(l.header, back)
	nphis := map[*ssa.Phi]Val{}
	for p := range phis {
		nphis[p] = vals[p]
		if _, isT := phis[p].(*Term); !isT {
			if !sameVal(phis[p], vals[p]) {
				panic(unsupported("loop-carried value of kind " + fmt.Sprintf("%T", vals[p])))
			}
		}
	}
	n1 := mkAdd(h.n, mkInt(1))
	for _, lv := range al2 {
		g := a.evalCand(lv.cd, st, nphis, n1)
		if g == nil {
			c.dead[lv.key] = true
			continue
		}
		c.candOblige(st, lv.key, "preserve", g)
	}
	// per-iteration user obligations ("progress") could go here
}

func sameVal(x, y Val) bool {
	if x == y {
		return true
	}
	if a, ok := x.(*RV); ok {
		if b, ok := y.(*RV); ok {
			return rvSame(a, b)
		}
	}
	return false
}

// evalCand evaluates a candidate with the header phis bound to vals.
func (a *act) evalCand(cd *cand, st *State, vals map[*ssa.Phi]Val, n *Term) (r *Term) {
	defer func() {
		if e := recover(); e != nil {
			switch x := e.(type) {
			case unsupportedErr:
				r = nil
				if dbgLoop {
					fmt.Println("cand", cd.text, x)
				}
			default:
				panic(e)
			}
		}
	}()
	return cd.f(st, vals, n)
}

func (c *Ctx) candOblige(st *State, key, where string, g *Term) {
	if c.dry > 0 {
		return
	}
	g = simplifyUnder(st.pc, g)
	g = mkImp(st.pc, g)
	if g == tTrue {
		return
	}
	c.obls = append(c.obls, &Obligation{Unit: c.unit.Name, Name: key + "/" + where, Kind: "inv", Goal: g, Facts: c.facts, Cand: key})
}

var dbgLoop bool

type cand struct {
	text string
	f    func(st *State, vals map[*ssa.Phi]Val, n *Term) *Term
}

// lvar is a loop-carried variable: a header phi or a memory cell written by the loop
type lvar struct {
	name string
	typ  types.Type
	get  func(st *State, vals map[*ssa.Phi]Val) *Term
	init *Term
	cell bool
}

type loopCtx struct {
	a         *act
	l         *loop
	key       string
	entry     *State
	entryPhis map[*ssa.Phi]Val
	info      *loopInfo
	n         *Term
}

var freshSuffix = regexp.MustCompile(`![0-9]+`)

func (lc *loopCtx) vars() []lvar {
	var out []lvar
	c := lc.a.c
	i := 0
	for _, in := range lc.headerInstrs() {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		i++
		if e, ok := lc.entryPhis[p].(*Term); ok {
			p := p
			out = append(out, lvar{name: fmt.Sprintf("phi%d", i), typ: p.Type(), init: e, get: func(st *State, vals map[*ssa.Phi]Val) *Term {
				t, _ := vals[p].(*Term)
				return t
			}})
		}
	}
	for _, k := range sortedKeys(lc.info.mod) {
		w := lc.info.mod[k]
		if !strings.HasPrefix(k, "L:") || w.wild {
			continue
		}
		t := c.e.heapElemType[k]
		if t == nil {
			continue
		}
		used := map[string]int{}
		for _, ix := range w.idx {
			k, ix := k, ix
			nm := freshSuffix.ReplaceAllString(printTerm(ix, 0), "")
			if len(nm) > 80 {
				nm = fmt.Sprintf("%x", sha1.Sum([]byte(nm)))[:12]
			}
			if used[nm]++; used[nm] > 1 {
				nm = fmt.Sprintf("%s~%d", nm, used[nm])
			}
			s := c.heapSort[k]
			out = append(out, lvar{name: fmt.Sprintf("cell:%s@%s", k, nm), typ: t, cell: true, init: mkSelect(c.heap(lc.entry, k, s), ix), get: func(st *State, vals map[*ssa.Phi]Val) *Term {
				return c.norm(st, mkSelect(c.heap(st, k, s), ix), t)
			}})
		}
	}
	return out
}

// exitBounds: terms X such that the header compares a phi (or phi+1) with X
func (lc *loopCtx) exitBounds() []ssa.Value {
	var out []ssa.Value
	if lc.l == nil {
		return nil
	}
	for b := range lc.l.blocks {
		iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
		if !ok {
			continue
		}
		bo, ok := iff.Cond.(*ssa.BinOp)
		if !ok {
			continue
		}
		switch bo.Op {
		case token.LSS, token.LEQ, token.GTR, token.GEQ, token.NEQ, token.EQL:
		default:
			continue
		}
		for _, v := range []ssa.Value{bo.X, bo.Y} {
			if bt, ok := v.Type().Underlying().(*types.Basic); ok && bt.Info()&types.IsInteger != 0 {
				if in, ok := v.(ssa.Instruction); ok && lc.l.blocks[in.Block()] {
					continue
				}
				out = append(out, v)
			}
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].Name() < out[j].Name() })
	return out
}

func (lc *loopCtx) candidates() []*cand {
	var out []*cand
	a := lc.a
	c := a.c
	add := func(text string, f func(st *State, vals map[*ssa.Phi]Val, n *Term) *Term) {
		out = append(out, &cand{text, f})
	}
	cuts := map[string]int64{"loop": lc.entry.ctr, "act": a.ctr0, "unit": 1}
	vars := lc.vars()
	for _, v := range vars {
		v := v
		init := v.init
		add(v.name+"==init", func(st *State, vals map[*ssa.Phi]Val, n *Term) *Term { return mkEq(v.get(st, vals), init) })
		switch u := v.typ.Underlying().(type) {
		case *types.Basic:
			if u.Info()&types.IsInteger != 0 {
				add(v.name+"==init+n", func(st *State, vals map[*ssa.Phi]Val, n *Term) *Term { return mkEq(v.get(st, vals), mkAdd(init, n)) })
				add(v.name+"==init-n", func(st *State, vals map[*ssa.Phi]Val, n *Term) *Term { return mkEq(v.get(st, vals), mkSub(init, n)) })
				add(v.name+">=init", func(st *State, vals map[*ssa.Phi]Val, n *Term) *Term { return mkLe(init, v.get(st, vals)) })
				add(v.name+"<=init", func(st *State, vals map[*ssa.Phi]Val, n *Term) *Term { return mkLe(v.get(st, vals), init) })
				add(v.name+"<=init+n", func(st *State, vals map[*ssa.Phi]Val, n *Term) *Term { return mkLe(v.get(st, vals), mkAdd(init, n)) })
				add(v.name+">=0", func(st *State, vals map[*ssa.Phi]Val, n *Term) *Term { return mkLe(mkInt(0), v.get(st, vals)) })
				for bi, b := range lc.exitBounds() {
					bt, ok := a.tryVal(b).(*Term)
					if !ok || bt.sort != SInt {
						continue
					}
					add(fmt.Sprintf("%s<=B%d", v.name, bi), func(st *State, vals map[*ssa.Phi]Val, n *Term) *Term { return mkLe(v.get(st, vals), bt) })
					add(fmt.Sprintf("%s<B%d||init", v.name, bi), func(st *State, vals map[*ssa.Phi]Val, n *Term) *Term {
						return mkOr(mkLt(v.get(st, vals), bt), mkEq(v.get(st, vals), init))
					})
				}
			}
		case *types.Slice:
			ln := func(t *Term) *Term { return mkSel("s-len", SInt, t) }
			arr := func(t *Term) *Term { return mkSel("s-arr", SInt, t) }
			add("len("+v.name+")==len(init)+n", func(st *State, vals map[*ssa.Phi]Val, n *Term) *Term {
				return mkEq(ln(v.get(st, vals)), mkAdd(ln(init), n))
			})
			add("len("+v.name+")==len(init)-n", func(st *State, vals map[*ssa.Phi]Val, n *Term) *Term {
				return mkEq(ln(v.get(st, vals)), mkSub(ln(init), n))
			})
			add("len("+v.name+")<=len(init)+n", func(st *State, vals map[*ssa.Phi]Val, n *Term) *Term {
				return mkLe(ln(v.get(st, vals)), mkAdd(ln(init), n))
			})
			add("len("+v.name+")>=len(init)", func(st *State, vals map[*ssa.Phi]Val, n *Term) *Term {
				return mkLe(ln(init), ln(v.get(st, vals)))
			})
			add("len("+v.name+")<=len(init)", func(st *State, vals map[*ssa.Phi]Val, n *Term) *Term {
				return mkLe(ln(v.get(st, vals)), ln(init))
			})
			add("off("+v.name+")==0", func(st *State, vals map[*ssa.Phi]Val, n *Term) *Term {
				return mkEq(mkSel("s-off", SInt, v.get(st, vals)), mkInt(0))
			})
			add("arr("+v.name+")==init", func(st *State, vals map[*ssa.Phi]Val, n *Term) *Term {
				return mkEq(arr(v.get(st, vals)), arr(init))
			})
			for _, cn := range sortedKeys(cuts) {
				cut := cuts[cn]
				add("fresh-"+cn+"("+v.name+")", func(st *State, vals map[*ssa.Phi]Val, n *Term) *Term {
					t := v.get(st, vals)
					return mkOr(mkLeRaw(mkInt(cut), arr(t)), mkEq(mkSel("s-cap", SInt, t), mkInt(0)))
				})
				add("fresh-or-init-"+cn+"("+v.name+")", func(st *State, vals map[*ssa.Phi]Val, n *Term) *Term {
					t := v.get(st, vals)
					return mkOr(mkLeRaw(mkInt(cut), arr(t)), mkEq(t, init))
				})
			}
		case *types.Pointer, *types.Map:
			root := func(t *Term) *Term { return rootOf(t) }
			add(v.name+"!=nil", func(st *State, vals map[*ssa.Phi]Val, n *Term) *Term {
				return mkNot(mkEq(root(v.get(st, vals)), mkInt(0)))
			})
			for _, cn := range sortedKeys(cuts) {
				cut := cuts[cn]
				add("fresh-"+cn+"("+v.name+")", func(st *State, vals map[*ssa.Phi]Val, n *Term) *Term {
					return mkLeRaw(mkInt(cut), root(v.get(st, vals)))
				})
			}
		}
	}
	// frames of heaps without a syntactic frame
	for _, k := range sortedKeys(lc.info.mod) {
		w := lc.info.mod[k]
		k := k
		s := c.heapSort[k]
		eh := c.heap(lc.entry, k, s)
		if isObjHeap(k) {
			if !w.wild {
				// cells other than leaf values
				if !strings.HasPrefix(k, "L:") {
					for j, ix := range w.idx {
						ix := ix
						ev := mkSelect(eh, ix)
						add(fmt.Sprintf("%s[%d]==init", k, j), func(st *State, vals map[*ssa.Phi]Val, n *Term) *Term {
							return mkEq(mkSelect(c.heap(st, k, s), ix), ev)
						})
					}
				}
				continue
			}
			for _, cn := range sortedKeys(cuts) {
				cut := cuts[cn]
				add("frame-"+cn+" "+k, func(st *State, vals map[*ssa.Phi]Val, n *Term) *Term {
					nh := c.heap(st, k, s)
					if nh == eh {
						return tTrue
					}
					x := mkBV("x", s.Key)
					sel := mk("select", "", s.Elem, nh, x)
					return mkForall([]*Term{x}, mkImp(mkLeRaw(rootOf(x), mkInt(cut-1)), mkEq(mkSelect(nh, x), mkSelect(eh, x))), []*Term{sel})
				})
			}
			continue
		}
		add(k+"==init", func(st *State, vals map[*ssa.Phi]Val, n *Term) *Term {
			return mkEq(c.heap(st, k, s), eh)
		})
		if s == SInt {
			add(k+"==init+n", func(st *State, vals map[*ssa.Phi]Val, n *Term) *Term {
				return mkEq(c.heap(st, k, s), mkAdd(eh, n))
			})
			add(k+">=init", func(st *State, vals map[*ssa.Phi]Val, n *Term) *Term {
				return mkLe(eh, c.heap(st, k, s))
			})
			add(k+"<=init+n", func(st *State, vals map[*ssa.Phi]Val, n *Term) *Term {
				return mkLe(c.heap(st, k, s), mkAdd(eh, n))
			})
		}
		if strings.HasPrefix(k, "$ev.") && s.Kind == "array" {
			evn := c.heap(lc.entry, "$ev:n", SInt)
			add(k+" prefix", func(st *State, vals map[*ssa.Phi]Val, n *Term) *Term {
				j := mkBV("j", SInt)
				nh := c.heap(st, k, s)
				sel := mk("select", "", s.Elem, nh, j)
				return mkForall([]*Term{j}, mkImp(mkLt(j, evn), mkEq(mkSelect(nh, j), mkSelect(eh, j))), []*Term{sel})
			})
		}
	}
	// map iterators advanced by this loop
	for _, it := range lc.iters() {
		it := it
		ks := sortOf(it.kt)
		add(it.key+" visited in dom0", func(st *State, vals map[*ssa.Phi]Val, n *Term) *Term {
			V := c.getG(st, it.key+":V", ArraySort(ks, SBool))
			k := mkBV("k", ks)
			sel := mk("select", "", SBool, V, k)
			return mkForall([]*Term{k}, mkImp(mkSelect(V, k), mkSelect(it.dom0, k)), []*Term{sel})
		})
		add(it.key+" n", func(st *State, vals map[*ssa.Phi]Val, n *Term) *Term {
			return mkEq(c.getG(st, it.key+":n", SInt), n)
		})
		add(it.key+" dom unchanged", func(st *State, vals map[*ssa.Phi]Val, n *Term) *Term {
			return mkEq(c.mapDom(st, it.mt, it.m), it.dom0)
		})
	}
	out = append(out, lc.templateCands(vars)...)
	return out
}

// iters: map iterators created outside this loop and advanced inside it
func (lc *loopCtx) iters() []*Iter {
	var out []*Iter
	seen := map[*Iter]bool{}
	if lc.l == nil {
		return nil
	}
	for _, b := range lc.a.bodyOrder(lc.l) {
		for _, in := range b.Instrs {
			if nx, ok := in.(*ssa.Next); ok {
				if it, ok := lc.a.env[nx.Iter].(*Iter); ok && !it.str && !seen[it] {
					r := nx.Iter.(*ssa.Range)
					if !lc.l.blocks[r.Block()] {
						seen[it] = true
						out = append(out, it)
					}
				}
			}
		}
	}
	return out
}

func (a *act) tryVal(v ssa.Value) (r Val) {
	defer func() {
		if e := recover(); e != nil {
			if _, ok := e.(unsupportedErr); ok {
				r = nil
				return
			}
			panic(e)
		}
	}()
	return a.val(v, nil)
}

// growMod adds what the iteration from st0 to bst wrote to the write set.
func (c *Ctx) growMod(info *loopInfo, bst, st0 *State, ctr int64, startFresh int, local map[string]bool, key string, memo map[int]bool) bool {
	grew := false
	for _, k := range sortedKeys(bst.heaps) {
		nh := bst.heaps[k]
		bh, ok := st0.heaps[k]
		if !ok {
			bh = c.heap(st0, k, c.heapSort[k])
		}
		if nh == bh {
			continue
		}
		w := info.mod[k]
		if w == nil {
			w = &writeSet{}
			info.mod[k] = w
			grew = true
		}
		if w.wild || !isObjHeap(k) {
			continue
		}
		out := map[int]*Term{}
		okc := collectWrites(nh, bh, out, map[int]bool{})
		if !okc {
			if dbgLoop {
				fmt.Printf("WILD %s %s: heap %.300s (base %.100s)\n", key, k, nh, bh)
			}
			w.wild = true
			grew = true
			continue
		}
		var ids []int
		for id := range out {
			ids = append(ids, id)
		}
		sort.Ints(ids)
		for _, id := range ids {
			t := out[id]
			if freshSince(t, ctr) || w.has(t) {
				continue
			}
			grew = true
			if !c.invariantTerm(t, startFresh, local, memo) {
				w.wild = true
				if dbgLoop {
					fmt.Printf("WILD %s %s: %s\n", key, k, t)
				}
				break
			}
			w.idx = append(w.idx, t)
		}
	}
	return grew
}

// metaLoop runs body as the body of a loop of a modelled library function (for
// example a retry): st becomes the state at the head of an arbitrary iteration
// and body is executed once from there; it returns the state in which a further
// iteration starts.
func (a *act) metaLoop(st *State, name string, body func(st *State) *State) {
	c := a.c
	c.oblNames["loop:"+a.key+">"+name]++
	key := fmt.Sprintf("%s>%s@%d", a.key, name, c.oblNames["loop:"+a.key+">"+name])
	info := c.loopInfos[key]
	if info == nil {
		info = &loopInfo{mod: map[string]*writeSet{}}
		c.loopInfos[key] = info
	}
	entry := st.clone()
	for round := 0; ; round++ {
		if round > 30 {
			panic(unsupported("loop write set does not stabilise"))
		}
		sn := a.snap()
		startFresh := freshCtr
		c.dry++
		h := a.havocHeaps(entry.clone(), info)
		st0 := h.st.clone()
		b := body(h.st)
		c.dry--
		grew := false
		if b != nil && b.pc != tFalse {
			grew = c.growMod(info, b, st0, entry.ctr, startFresh, h.local, key, map[int]bool{})
		}
		a.restore(sn)
		if !grew {
			break
		}
	}
	lc := &loopCtx{a: a, key: key, entry: entry, entryPhis: map[*ssa.Phi]Val{}, info: info}
	type live struct {
		cd  *cand
		key string
	}
	var alive, al2 []live
	for _, cd := range lc.candidates() {
		ck := key + "|" + cd.text
		if c.dead[ck] {
			continue
		}
		g := a.evalCand(cd, entry, nil, mkInt(0))
		if g == nil || g == tFalse {
			c.dead[ck] = true
			continue
		}
		alive = append(alive, live{cd, ck})
		c.candOblige(entry, ck, "entry", g)
	}
	h := a.havocHeaps(entry, info)
	lc.n = h.n
	for _, lv := range alive {
		g := a.evalCand(lv.cd, h.st, nil, h.n)
		if g == nil {
			c.dead[lv.key] = true
			continue
		}
		c.assume(h.st, g)
		al2 = append(al2, lv)
	}
	*st = *h.st
	b := body(st)
	if b == nil || b.pc == tFalse {
		return
	}
	n1 := mkAdd(h.n, mkInt(1))
	for _, lv := range al2 {
		g := a.evalCand(lv.cd, b, nil, n1)
		if g == nil {
			c.dead[lv.key] = true
			continue
		}
		c.candOblige(b, lv.key, "preserve", g)
	}
}

func (lc *loopCtx) headerInstrs() []ssa.Instruction {
	if lc.l == nil {
		return nil
	}
	return lc.l.header.Instrs
}
