package main

// Lock discipline and monitor invariants.

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type fieldTag struct {
	st  types.Type // struct type
	idx int
	own *Term // owner pointer
}

func lockSort() *Sort { return ArraySort(SRef, SInt) }

func (c *Ctx) lockHeap(st *State) *Term { return c.heap(st, "$lock", lockSort()) }

func (e *Engine) lockByName(n string) *LockDecl {
	for _, l := range e.specs.Locks {
		if l.Type+"."+l.Field == n {
			return l
		}
	}
	panic(unsupported("unknown lock " + n))
}

func (e *Engine) lockTypeKey(l *LockDecl) string { return typeKey(e.resolveType(l.Type)) }

func (e *Engine) fieldIndex(l *LockDecl) int { return e.fieldIdxOf(e.resolveType(l.Type), l.Field) }

func (e *Engine) fieldIdxOf(t types.Type, f string) int {
	u := t.Underlying().(*types.Struct)
	for i := 0; i < u.NumFields(); i++ {
		if u.Field(i).Name() == f {
			return i
		}
	}
	return -1
}

// lockDecl finds the declaration for the mutex a reference denotes.
func (c *Ctx) lockDecl(mu *Term) (*LockDecl, *Term) {
	tag, ok := c.fieldTags[mu.id]
	if !ok {
		return nil, nil
	}
	k := typeKey(tag.st)
	for _, l := range c.e.specs.Locks {
		if func() (r bool) {
			defer func() {
				if e := recover(); e != nil {
					r = false
				}
			}()
			return c.e.lockTypeKey(l) == k && c.e.fieldIndex(l) == tag.idx
		}() {
			return l, tag.own
		}
	}
	return nil, nil
}

func (c *Ctx) noteField(p *Term, st types.Type, idx int, own *Term) {
	if _, ok := c.fieldTags[p.id]; !ok {
		c.fieldTags[p.id] = fieldTag{types.Unalias(st), idx, own}
	}
}

func (a *act) lockFree(st *State, mu *Term, what string, pos token.Pos) {
	c := a.c
	h := c.lockHeap(st)
	c.oblige(st, "lock", c.unit.Name+"/lock-free:"+what, c.lockTags(), mkEq(mkSelect(h, mu), mkInt(0)), pos)
}

// noLocks: at a call that may block or re-enter, no mutex may be held.
func (a *act) noLocks(st *State, what string, pos token.Pos) {
	c := a.c
	if c.inRun > 0 && (strings.Contains(what, "channel") || what == "select" || strings.Contains(what, "WaitGroup")) {
		c.oblige(st, "monitor", c.unit.Name+"/handler-blocks:"+what, c.unit.Safety, tFalse, pos)
	}
	h := c.lockHeap(st)
	g := c.allFree(h)
	if g == tTrue {
		return
	}
	c.oblige(st, "lock", c.unit.Name+"/no-lock-held-at:"+what, []string{"C23"}, g, pos)
}

func (c *Ctx) allFree(h *Term) *Term {
	out := map[int]*Term{}
	base := h
	seen := map[int]bool{}
	var gs []*Term
	var walk func(t *Term)
	walk = func(t *Term) {
		if seen[t.id] {
			return
		}
		seen[t.id] = true
		switch t.op {
		case "store":
			out[t.args[1].id] = t.args[1]
			walk(t.args[0])
		case "ite":
			walk(t.args[1])
			walk(t.args[2])
		case "const":
			if fr := heapFrames[t.id]; fr != nil {
				for _, e := range fr.except {
					out[e.id] = e
				}
				walk(fr.base)
			} else {
				x := mkBV("x", SRef)
				gs = append(gs, mkForall([]*Term{x}, mkEq(mkSelect(t, x), mkInt(0))))
			}
		}
	}
	walk(base)
	for _, i := range sortedIDs(out) {
		gs = append(gs, mkEq(mkSelect(h, out[i]), mkInt(0)))
	}
	return mkAnd(gs...)
}

func sortedIDs(m map[int]*Term) []int {
	var ids []int
	for k := range m {
		ids = append(ids, k)
	}
	for i := 1; i < len(ids); i++ {
		for j := i; j > 0 && ids[j] < ids[j-1]; j-- {
			ids[j], ids[j-1] = ids[j-1], ids[j]
		}
	}
	return ids
}

func (c *Ctx) lockBalance(st *State, what string, pos token.Pos) {
	h := c.lockHeap(st)
	g := tTrue
	if c.goDepth == 0 {
		for _, mu := range c.holds {
			g = mkAnd(g, mkEq(mkSelect(h, mu), mkInt(-1)))
			h = mkStore(h, mu, mkInt(0))
		}
	}
	g = mkAnd(g, c.allFree(h))
	if g == tTrue {
		return
	}
	c.oblige(st, "lock", c.unit.Name+"/locks-released:"+what, c.lockTags(), g, pos)
}

// muLock models Lock/RLock.
func (a *act) muLock(st *State, mu *Term, read bool, pos token.Pos) {
	c := a.c
	c.runLocked = true
	a.must(st, mkNot(mkEq(mkSel("root", SInt, mu), mkInt(0))), "nil-deref", pos)
	a.lockFree(st, mu, "acquire", pos)
	v := int64(-1)
	if read {
		v = 1
	}
	if l, own := c.lockDecl(mu); l != nil {
		c.acquireHavoc(a, st, l, own)
	}
	c.setG(st, "$lock", mkStore(c.lockHeap(st), mu, mkInt(v)))
	if l, own := c.lockDecl(mu); l != nil {
		a.runHooks(st, "lock "+l.Type+"."+l.Field, []TV{{v: own, typ: types.NewPointer(c.e.resolveType(l.Type))}}, pos)
	}
}

func (a *act) muUnlock(st *State, mu *Term, read bool, pos token.Pos) {
	c := a.c
	h := c.lockHeap(st)
	want := int64(-1)
	if read {
		want = 1
	}
	c.oblige(st, "lock", c.unit.Name+"/unlock-held", c.lockTags(), mkEq(mkSelect(h, mu), mkInt(want)), pos)
	if l, own := c.lockDecl(mu); l != nil {
		c.checkInv(a, st, l, own, pos)
		a.runHooks(st, "unlock "+l.Type+"."+l.Field, []TV{{v: own, typ: types.NewPointer(c.e.resolveType(l.Type))}}, pos)
	}
	c.setG(st, "$lock", mkStore(c.lockHeap(st), mu, mkInt(0)))
}

type acq struct {
	l   *LockDecl
	own *Term
}

func (c *Ctx) lockEnv(a *act, st *State, l *LockDecl, own *Term) *Env {
	return &Env{c: c, st: st, vars: map[string]TV{l.Self: {v: own, typ: types.NewPointer(c.e.resolveType(l.Type))}}, a: a}
}

// acquireHavoc: state guarded by the lock is arbitrary subject to the invariant.
func (c *Ctx) acquireHavoc(a *act, st *State, l *LockDecl, own *Term) {
	fresh := false
	if r := mkSel("root", SInt, own); r.op == "int" && r.big.Sign() > 0 {
		fresh = true
	}
	c.acquired = append(c.acquired, acq{l, own})
	if !l.Stable && !(fresh && c.goDepth == 0 && !c.unit.shared) {
		st.ctr += ctrBump
		pre := st.clone()
		c.chProgress(st)
		c.guardedHavoc(a, st, l, own)
		c.assumeInv(a, st, l, own)
		if len(l.Hist) > 0 {
			ev := c.lockEnv(a, st, l, own)
			for k := range pre.heaps {
				if strings.HasPrefix(k, "old:") {
					delete(pre.heaps, k)
				}
			}
			ev.old = pre
			for _, cl := range l.Hist {
				c.assume(st, ev.bool(cl.Expr))
			}
		}
	}
	// snapshot for old()
	for _, k := range c.guardedKeys(st, l) {
		st.heaps["old:"+k] = c.heap(st, k, c.heapSort[k])
		c.heapSort["old:"+k] = c.heapSort[k]
	}
}

func (c *Ctx) guardedKeys(st *State, l *LockDecl) []string {
	var out []string
	t := c.e.resolveType(l.Type)
	u := t.Underlying().(*types.Struct)
	seen := map[string]bool{}
	add := func(k string, s *Sort) {
		if !seen[k] {
			seen[k] = true
			c.heapSort[k] = s
			out = append(out, k)
		}
	}
	var leaf func(t types.Type)
	leaf = func(t types.Type) {
		if su, ok := isStructT(t); ok {
			for i := 0; i < su.NumFields(); i++ {
				leaf(su.Field(i).Type())
			}
			return
		}
		if at, ok := isArrayT(t); ok {
			k, s := c.e.elemKey(at.Elem())
			add(k, s)
			return
		}
		k, s := c.e.leafKey(t)
		add(k, s)
	}
	for _, g := range l.Guards {
		i := c.e.fieldIdxOf(t, g)
		if i < 0 {
			continue
		}
		leaf(u.Field(i).Type())
	}
	for _, h := range l.Heaps {
		ht := c.e.resolveType(h)
		switch x := ht.Underlying().(type) {
		case *types.Map:
			dk, ds, vk, vs := c.e.mapKeys(x)
			add(dk, ds)
			add(vk, vs)
		case *types.Slice:
			k, s := c.e.elemKey(x.Elem())
			add(k, s)
		}
	}
	return out
}

// guardedHavoc replaces the guarded fields and contents by arbitrary values.
func (c *Ctx) guardedHavoc(a *act, st *State, l *LockDecl, own *Term) {
	t := c.e.resolveType(l.Type)
	u := t.Underlying().(*types.Struct)
	for _, h := range l.Heaps {
		ht := c.e.resolveType(h)
		hv := func(k string, s *Sort) {
			old := c.heap(st, k, s)
			freshCtr++
			nh := mkConst(sanitize("G@"+k)+"!"+itoa(freshCtr), s)
			c.heapAxioms(nh, k, st.ctr)
			// objects allocated by this function are not shared
			x := mkBV("x", SInt)
			sel := mk("select", "", s.Elem, nh, x)
			c.fact(mkForall([]*Term{x}, mkImp(mkLeRaw(mkInt(1), x), mkEq(sel, mk("select", "", s.Elem, old, x))), []*Term{sel}))
			localFrames[nh.id] = old
			st.heaps[k] = nh
		}
		switch x := ht.Underlying().(type) {
		case *types.Map:
			dk, ds, vk, vs := c.e.mapKeys(x)
			hv(dk, ds)
			hv(vk, vs)
		case *types.Slice:
			k, s := c.e.elemKey(x.Elem())
			hv(k, s)
		}
	}
	for _, g := range l.Guards {
		i := c.e.fieldIdxOf(t, g)
		if i < 0 {
			continue
		}
		ft := u.Field(i).Type()
		v := c.havocVal(st, ft, "g_"+g)
		if tv, ok := v.(*Term); ok {
			if l.Deep || len(l.Heaps) > 0 {
				// guarded containers are shared objects: they are not local allocations
				if _, isM := ft.Underlying().(*types.Map); isM {
					c.fact(mkImp(st.pc, mkOr(mkLeRaw(tv, mkInt(0)), tTrue)))
				}
			}
			c.store(st, fieldRef(own, i), ft, tv)
		}
	}
}

func itoa(i int) string {
	return newBigInt(i)
}

func (c *Ctx) assumeInv(a *act, st *State, l *LockDecl, own *Term) {
	ev := c.lockEnv(a, st, l, own)
	for _, cl := range l.Inv {
		c.assume(st, ev.bool(cl.Expr))
	}
	for _, cl := range l.Defs {
		c.assume(st, ev.bool(cl.Expr))
		c.assumptions["definition of a ghost function at "+l.Type+"."+l.Field+": "+cl.Src] = true
	}
}

func (c *Ctx) checkInv(a *act, st *State, l *LockDecl, own *Term, pos token.Pos) {
	ev := c.lockEnv(a, st, l, own)
	for _, cl := range l.Inv {
		c.oblige(st, "monitor-inv", c.unit.Name+"/unlock-invariant:"+cl.Name, cl.Props, ev.bool(cl.Expr), pos)
	}
	for _, cl := range l.Hist {
		c.oblige(st, "monitor-inv", c.unit.Name+"/unlock-history:"+cl.Name, cl.Props, ev.bool(cl.Expr), pos)
	}
}

// ---------- guarded accesses ----------

func (a *act) checkGuard(st *State, p *Term, t types.Type, write bool, pos token.Pos) {
	c := a.c
	if mu, what := c.globalGuard(p); mu != nil {
		a.requireLock(st, mu, write, what, pos)
		return
	}
	tag, ok := c.fieldTags[p.id]
	if !ok {
		return
	}
	if r := mkSel("root", SInt, p); r.op == "int" && r.big.Sign() > 0 {
		return // local, not yet shared
	}
	k := typeKey(tag.st)
	for _, l := range c.e.specs.Locks {
		lt := c.e.tryType(l.Type)
		if lt == nil || typeKey(lt) != k {
			continue
		}
		u := lt.Underlying().(*types.Struct)
		if tag.idx >= u.NumFields() {
			continue
		}
		fn := u.Field(tag.idx).Name()
		for _, g := range l.Guards {
			if g == fn {
				mi := c.e.fieldIndex(l)
				if mi < 0 {
					continue
				}
				a.requireLock(st, fieldRef(tag.own, mi), write, shortTypeName(lt)+"."+fn, pos)
			}
		}
	}
}

func (e *Engine) tryType(s string) (t types.Type) {
	defer func() {
		if r := recover(); r != nil {
			t = nil
		}
	}()
	return e.resolveType(s)
}

func (a *act) requireLock(st *State, mu *Term, write bool, what string, pos token.Pos) {
	c := a.c
	v := mkSelect(c.lockHeap(st), mu)
	g := mkNot(mkEq(v, mkInt(0)))
	k := "read"
	if write {
		g = mkEq(v, mkInt(-1))
		k = "write"
	}
	g = simplifyUnder(st.pc, g)
	if g == tTrue {
		return
	}
	c.oblige(st, "guard", c.unit.Name+"/guarded-"+k+":"+what, c.lockTags(), g, pos)
}

// noteProv tags containers loaded from guarded fields.
func (a *act) noteProv(st *State, p *Term, t types.Type, v *Term, via ssa.Value) {
	c := a.c
	if mu, what := c.globalGuard(p); mu != nil {
		c.guardedM[v.id] = guardTag{lock: mu, what: what}
		return
	}
	tag, ok := c.fieldTags[p.id]
	if !ok {
		return
	}
	switch u := t.Underlying().(type) {
	case *types.Map:
	case *types.Chan:
		if c.e.isSignal(tag.st, tag.idx, u) {
			c.signals[v.id] = true
		}
		return
	default:
		return
	}
	if r := mkSel("root", SInt, p); r.op == "int" && r.big.Sign() > 0 {
		return
	}
	k := typeKey(tag.st)
	for _, l := range c.e.specs.Locks {
		lt := c.e.tryType(l.Type)
		if lt == nil || typeKey(lt) != k {
			continue
		}
		u := lt.Underlying().(*types.Struct)
		for _, g := range l.Guards {
			if u.Field(tag.idx).Name() == g {
				c.guardedM[v.id] = guardTag{lock: fieldRef(tag.own, c.e.fieldIndex(l)), what: shortTypeName(lt) + "." + g, deep: l.Deep}
			}
		}
	}
}

func (a *act) noteMapProv(st *State, m, v *Term) {
	c := a.c
	if g, ok := c.guardedM[m.id]; ok && g.deep && v.sort == SInt {
		c.guardedM[v.id] = g
	}
}

func (a *act) checkMapGuard(st *State, m *Term, write bool, pos token.Pos) {
	c := a.c
	seen := map[int]bool{}
	var walk func(t *Term, d int)
	walk = func(t *Term, d int) {
		if seen[t.id] || d > 6 {
			return
		}
		seen[t.id] = true
		if g, ok := c.guardedM[t.id]; ok {
			a.requireLock(st, g.lock, write, g.what+" contents", pos)
			return
		}
		if t.op == "ite" {
			walk(t.args[1], d+1)
			walk(t.args[2], d+1)
		}
	}
	walk(m, 0)
}

var localFrames = map[int]*Term{}

var _ = strings.HasPrefix

// isSignal: a field of type chan struct{} on which the program never sends; a
// receive from it succeeds only once it is closed.
func (e *Engine) isSignal(st types.Type, idx int, ch *types.Chan) bool {
	if !isEmptyStruct(ch.Elem()) {
		return false
	}
	if e.sentOn == nil {
		e.sentOn = map[string]bool{}
		note := func(v ssa.Value) {
			for {
				if x, ok := v.(*ssa.ChangeType); ok {
					v = x.X
					continue
				}
				break
			}
			cht, ok := v.Type().Underlying().(*types.Chan)
			if !ok || !isEmptyStruct(cht.Elem()) {
				return
			}
			if u, ok := v.(*ssa.UnOp); ok && u.Op == token.MUL {
				if f, ok := u.X.(*ssa.FieldAddr); ok {
					pt := f.X.Type().Underlying().(*types.Pointer).Elem()
					e.sentOn[typeKey(types.Unalias(pt))+"#"+itoa(f.Field)] = true
					return
				}
			}
			e.sentOn["*"] = true
		}
		for _, fn := range e.fns {
			if fn.Pkg == nil || !e.isRepo(fn.Pkg.Pkg) {
				if p := fn.Parent(); p == nil || p.Pkg == nil || !e.isRepo(p.Pkg.Pkg) {
					continue
				}
			}
			for _, b := range fn.Blocks {
				for _, in := range b.Instrs {
					switch x := in.(type) {
					case *ssa.Send:
						note(x.Chan)
					case *ssa.Select:
						for _, s := range x.States {
							if s.Dir == types.SendOnly {
								note(s.Chan)
							}
						}
					}
				}
			}
		}
	}
	return !e.sentOn["*"] && !e.sentOn[typeKey(types.Unalias(st))+"#"+itoa(idx)]
}

func isEmptyStruct(t types.Type) bool {
	s, ok := t.Underlying().(*types.Struct)
	return ok && s.NumFields() == 0
}

// globalGuard: the mutex guarding the package variable p denotes, if any.
func (c *Ctx) globalGuard(p *Term) (*Term, string) {
	if c.initing || len(c.e.specs.GlobalLocks) == 0 || p.op != "ctor" || len(p.args) != 2 || p.args[1] != pnil || p.args[0].op != "int" || p.args[0].big.Sign() >= 0 {
		return nil, ""
	}
	g := c.e.globalByID[p.args[0].big.Int64()]
	if g == nil || g.Pkg == nil {
		return nil, ""
	}
	for _, l := range c.e.specs.GlobalLocks {
		if shortPkg(g.Pkg.Pkg) != l.Type {
			continue
		}
		for _, x := range l.Guards {
			if x == g.Name() {
				if mu, ok := g.Pkg.Members[l.Field].(*ssa.Global); ok {
					return c.globalRef(mu), l.Type + "." + x
				}
			}
		}
	}
	return nil, ""
}

func shortPkg(p *types.Package) string {
	if p.Path() == modulePath {
		return "vanflow"
	}
	return strings.TrimPrefix(strings.TrimPrefix(p.Path(), modulePath+"/"), "cmd/vanflow-")
}

// lockTags: breaking the lock discipline breaks C23 and whatever the unit's contract guarantees.
func (c *Ctx) lockTags() []string {
	tags := append([]string{"C23"}, c.unit.Safety...)
	if ct := c.unit.contract; ct != nil {
		for _, p := range ct.Props {
			if !has(tags, p) {
				tags = append(tags, p)
			}
		}
	}
	return tags
}
