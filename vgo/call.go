package main

// Calls, builtins, function values, goroutines, channels, contracts at call sites.

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func (a *act) call(st *State, cc *ssa.CallCommon, instr *ssa.Call, pos token.Pos) []Val {
	var args []Val
	for _, x := range cc.Args {
		args = append(args, a.val(x, st))
	}
	var fv Val
	if _, ok := cc.Value.(*ssa.Builtin); !ok {
		fv = a.val(cc.Value, st)
	}
	return a.callVals(st, cc, args, fv, instr, pos)
}

func (a *act) callVals(st *State, cc *ssa.CallCommon, args []Val, fv Val, instr *ssa.Call, pos token.Pos) []Val {
	if b, ok := cc.Value.(*ssa.Builtin); ok {
		return a.builtin(st, b.Name(), cc, args, pos)
	}
	if cc.IsInvoke() {
		if rv, ok := fv.(*RV); ok {
			_ = rv
			panic(unsupported("invoke on reflect.Value"))
		}
		t, ok := fv.(*Term)
		if !ok {
			panic(unsupported(fmt.Sprintf("invoke on %T", fv)))
		}
		return a.invoke(st, t, cc.Value.Type(), cc.Method, args, pos)
	}
	if sf, ok := cc.Value.(*ssa.Function); ok {
		return a.callFn(st, sf, nil, args, pos, cc)
	}
	t, ok := fv.(*Term)
	if !ok {
		panic(unsupported(fmt.Sprintf("call of %T", fv)))
	}
	return a.callFnTerm(st, t, cc.Value.Type(), args, pos)
}

// split runs f on both branches of cond and merges.
func (a *act) split(st *State, cond *Term, f1, f2 func(st *State) []Val) []Val {
	cond = simplifyUnder(st.pc, cond)
	if cond == tTrue {
		return f1(st)
	}
	if cond == tFalse {
		return f2(st)
	}
	s1, s2 := st.with(cond), st.with(mkNot(cond))
	var r1, r2 []Val
	if s1.pc != tFalse {
		r1 = f1(s1)
	}
	if s2.pc != tFalse {
		r2 = f2(s2)
	}
	return a.mergeInto(st, []*State{s1, s2}, [][]Val{r1, r2})
}

func (a *act) mergeInto(st *State, ss []*State, rs [][]Val) []Val {
	var live []*State
	var lr [][]Val
	for i, s := range ss {
		if s.pc != tFalse {
			live = append(live, s)
			lr = append(lr, rs[i])
		}
	}
	if len(live) == 0 {
		st.pc = tFalse
		return nil
	}
	m, rel := a.c.mergeStates(live)
	*st = *m
	out := make([]Val, len(lr[0]))
	for i := range out {
		vs := make([]Val, len(lr))
		for j := range lr {
			vs[j] = lr[j][i]
		}
		out[i] = mergeVals(rel, vs)
		if t, ok := out[i].(*Term); ok {
			out[i] = simplifyIte(st.pc, t)
		}
	}
	return out
}

func (a *act) callFnTerm(st *State, f *Term, ft types.Type, args []Val, pos token.Pos) []Val {
	c := a.c
	f = simplifyIte(st.pc, f)
	if f.op == "ite" {
		return a.split(st, f.args[0],
			func(s *State) []Val { return a.callFnTerm(s, f.args[1], ft, args, pos) },
			func(s *State) []Val { return a.callFnTerm(s, f.args[2], ft, args, pos) })
	}
	if f.op == "int" {
		if f.big.Sign() == 0 {
			a.must(st, tFalse, "nil-func-call", pos)
			st.pc = tFalse
			return nil
		}
		if fv := c.fnTable[f.big.Int64()]; fv != nil {
			if fv.ext != nil {
				return fv.ext(a, st, args)
			}
			return a.callFn(st, fv.fn, fv.binds, append(append([]Val{}, fv.bound...), args...), pos, nil)
		}
	}
	// unknown function value
	sig := ft.Underlying().(*types.Signature)
	a.must(st, mkNot(mkEq(f, mkInt(0))), "nil-func-call", pos)
	kind := c.e.fnKind(sig)
	switch kind {
	case "pure":
		return a.pureCall(st, sig, f, args)
	case "quiet":
		return a.havocResults(st, sig, "fn")
	}
	// application callback
	a.noLocks(st, "callback", pos)
	var as []*Term
	for i, x := range args {
		if t, ok := x.(*Term); ok {
			if t.sort != SAny {
				t = mkBox(sig.Params().At(i).Type(), t)
			}
			as = append(as, t)
		}
	}
	c.event(st, tTrue, f, as)
	a.runHooks(st, "callback", append([]TV{{v: f, typ: ft}}, tvs(args, sig)...), pos)
	r := a.havocResults(st, sig, "cb")
	return r
}

func tvs(args []Val, sig *types.Signature) []TV {
	var out []TV
	for i, x := range args {
		var t types.Type
		if i < sig.Params().Len() {
			t = sig.Params().At(i).Type()
		}
		out = append(out, TV{v: x, typ: t})
	}
	return out
}

func sigKey(sig *types.Signature) string {
	var ps, rs []string
	for i := 0; i < sig.Params().Len(); i++ {
		ps = append(ps, typeKey(sig.Params().At(i).Type()))
	}
	for i := 0; i < sig.Results().Len(); i++ {
		rs = append(rs, typeKey(sig.Results().At(i).Type()))
	}
	return "func(" + strings.Join(ps, ",") + ")(" + strings.Join(rs, ",") + ")"
}

func (e *Engine) fnKind(sig *types.Signature) string {
	k := sigKey(sig)
	k = strings.ReplaceAll(k, "github.com/c-kruse/vanflow/", "")
	k = strings.ReplaceAll(k, "github.com/c-kruse/", "")
	return e.specs.FnSpecs[k]
}

func pureName(sig *types.Signature) string { return sanitize(sigKey(sig)) }

func pureApp(sig *types.Signature, i int, f *Term, args []*Term) *Term {
	rt := sig.Results().At(i).Type()
	return mkApp(fmt.Sprintf("pf%d_%s", i, pureName(sig)), sortOf(rt), append([]*Term{f}, args...)...)
}
func pureLen(sig *types.Signature, f *Term, args []*Term) *Term {
	return mkApp("pl_"+pureName(sig), SInt, append([]*Term{f}, args...)...)
}
func pureElems(sig *types.Signature, f *Term, args []*Term) *Term {
	et := sig.Results().At(0).Type().Underlying().(*types.Slice).Elem()
	return mkApp("pe_"+pureName(sig), ArraySort(SInt, sortOf(et)), append([]*Term{f}, args...)...)
}

// pureCall: results are functions of the function value and its arguments.
func (a *act) pureCall(st *State, sig *types.Signature, f *Term, args []Val) []Val {
	c := a.c
	var as []*Term
	for _, x := range args {
		t, ok := x.(*Term)
		if !ok {
			panic(unsupported("argument of pure function value"))
		}
		as = append(as, t)
	}
	c.assumption("function values of type " + sigKey(sig) + " are pure functions of their argument values")
	var out []Val
	for i := 0; i < sig.Results().Len(); i++ {
		rt := sig.Results().At(i).Type()
		if sl, ok := rt.Underlying().(*types.Slice); ok && i == 0 {
			ln := pureLen(sig, f, as)
			el := pureElems(sig, f, as)
			id := mkInt(c.alloc(st))
			c.fact(mkLe(mkInt(0), ln))
			c.fact(mkLe(ln, bigLit("140737488355328")))
			c.setElems(st, sl.Elem(), id, el)
			out = append(out, mkCtor("mkslice", SSlice, id, mkInt(0), ln, ln))
			continue
		}
		out = append(out, c.norm(st, pureApp(sig, i, f, as), rt))
	}
	return out
}

func (a *act) havocResults(st *State, sig *types.Signature, what string) []Val {
	c := a.c
	st.ctr += ctrBump
	var out []Val
	for i := 0; i < sig.Results().Len(); i++ {
		out = append(out, c.havocVal(st, sig.Results().At(i).Type(), what))
	}
	return out
}

func (c *Ctx) havocVal(st *State, t types.Type, what string) Val {
	if isReflectValue(t) {
		return &RV{opaque: true}
	}
	v := fresh(what, sortOf(t))
	return c.norm(st, v, t)
}

// event appends to the ghost trace.
func (c *Ctx) event(st *State, cond *Term, fn *Term, args []*Term) {
	n := c.heap(st, "$ev:n", SInt)
	fk := c.heap(st, "$ev.fn", ArraySort(SInt, SInt))
	c.setG(st, "$ev.fn", mkIte(cond, mkStore(fk, n, fn), fk))
	for i, x := range args {
		k := fmt.Sprintf("$ev.a%d", i)
		h := c.heap(st, k, ArraySort(SInt, SAny))
		c.setG(st, k, mkIte(cond, mkStore(h, n, x), h))
	}
	c.setG(st, "$ev:n", mkIte(cond, mkAdd(n, mkInt(1)), n))
}

// ---------- interface methods ----------

func (a *act) invoke(st *State, recv *Term, it types.Type, m *types.Func, args []Val, pos token.Pos) []Val {
	c := a.c
	recv = simplifyIte(st.pc, recv)
	if recv.op == "ite" {
		return a.split(st, recv.args[0],
			func(s *State) []Val { return a.invoke(s, recv.args[1], it, m, args, pos) },
			func(s *State) []Val { return a.invoke(s, recv.args[2], it, m, args, pos) })
	}
	sig := m.Type().(*types.Signature)
	if recv == anil {
		a.must(st, tFalse, "nil-interface-call", pos)
		st.pc = tFalse
		return nil
	}
	if recv.op == "ctor" && recv.name != "aother" {
		bt := boxByCtor[recv.name].typ
		if isPseudo(bt) {
			return a.pseudoMethod(st, bt, recv.args[0], m.Name(), args, pos)
		}
		fn := c.e.methodOf(bt, m.Name())
		if fn == nil {
			panic(unsupported("method " + m.Name() + " of " + bt.String()))
		}
		return a.callFn(st, fn, nil, append([]Val{recv.args[0]}, args...), pos, nil)
	}
	a.must(st, mkNot(mkIs("anil", recv)), "nil-interface-call", pos)
	if isNamed(it, "reflect", "Type") {
		return a.rtypeMethod(st, recv, m.Name(), args, pos)
	}
	name := m.Name()
	qn := ifaceName(it) + "." + name
	if h := invokeIntrinsics[qn]; h != nil {
		r := h(a, st, recv, args, pos)
		a.runHooks(st, qn, append(append([]TV{{v: recv, typ: it}}, tvs(args, sig)...), restvs(r, sig)...), pos)
		return r
	}
	if ct := c.e.specs.Contracts[qn]; ct != nil {
		return a.applyContract(st, ct, nil, sig, append([]TV{{v: recv, typ: it}}, tvs(args, sig)...), pos, qn)
	}
	kind := c.e.specs.FnSpecs["method "+qn]
	if kind == "" {
		kind = c.e.specs.FnSpecs["method "+name]
	}
	switch kind {
	case "pure":
		var as []*Term
		for _, x := range args {
			as = append(as, x.(*Term))
		}
		var out []Val
		for i := 0; i < sig.Results().Len(); i++ {
			nm := "im_" + name
			if i > 0 {
				nm = fmt.Sprintf("im%d_%s", i, name)
			}
			rt := sig.Results().At(i).Type()
			out = append(out, c.norm(st, mkApp(nm, sortOf(rt), append([]*Term{recv}, as...)...), rt))
		}
		return out
	case "event":
		a.noLocks(st, qn, pos)
		var as []*Term
		for i, x := range args {
			if t, ok := x.(*Term); ok {
				if t.sort != SAny {
					t = mkBox(sig.Params().At(i).Type(), t)
				}
				as = append(as, t)
			}
		}
		c.event(st, tTrue, c.eventID(qn), append([]*Term{recv}, as...))
		r := a.havocResults(st, sig, name)
		a.runHooks(st, qn, append(append([]TV{{v: recv, typ: it}}, tvs(args, sig)...), restvs(r, sig)...), pos)
		return r
	case "blocking":
		a.noLocks(st, qn, pos)
	}
	c.trusted["interface "+qn] = true
	r := a.havocResults(st, sig, name)
	a.runHooks(st, qn, append(append([]TV{{v: recv, typ: it}}, tvs(args, sig)...), restvs(r, sig)...), pos)
	return r
}

func restvs(r []Val, sig *types.Signature) []TV {
	var out []TV
	for i, x := range r {
		out = append(out, TV{v: x, typ: sig.Results().At(i).Type()})
	}
	return out
}

func (c *Ctx) eventID(name string) *Term {
	id, ok := c.e.eventIDs[name]
	if !ok {
		id = int64(1)<<41 + int64(len(c.e.eventIDs))
		c.e.eventIDs[name] = id
	}
	return mkInt(id)
}

func ifaceName(t types.Type) string {
	s := typeKey(t)
	s = strings.ReplaceAll(s, "github.com/c-kruse/vanflow/", "")
	s = strings.ReplaceAll(s, "github.com/c-kruse/", "")
	return s
}

// runHooks evaluates the unit's ghost monitors for an event.
func (a *act) runHooks(st *State, event string, args []TV, pos token.Pos) {
	c := a.c
	if c.unit.contract == nil || c.inRun > 0 {
		return
	}
	switch event {
	case "send", "trysend", "recv":
		// also per element type: "send T"
		if len(args) > 1 && args[1].typ != nil {
			a.runHooks(st, event+" "+ifaceName(args[1].typ), args, pos)
		}
	}
	if os.Getenv("VGO_HOOKS") != "" {
		fmt.Println("event", event)
	}
	for _, h := range c.unit.contract.Hooks {
		if h.Event != event && h.Event != shortName(event) {
			continue
		}
		ev := c.unitEnv(st)
		for i, p := range h.Params {
			if i < len(args) && p != "_" {
				ev.vars[p] = args[i]
			}
		}
		for _, d := range h.Defines {
			c.assume(st, ev.bool(d))
		}
		for _, cl := range h.Asserts {
			g := ev.bool(cl.Expr)
			c.oblige(st, "monitor", c.unit.Name+"/on-"+event+":"+cl.Name, c.clauseProps(cl), g, pos)
		}
		for _, r := range h.Runs {
			a.runFn(st, ev, event, r, pos)
		}
		c.setGhosts(st, ev, h.Updates)
	}
}

// raceCheck: handlers may run concurrently, so what they write without a lock must be
// written by atomics or under a Once.
func (c *Ctx) raceCheck(st, gs *State, pos token.Pos) {
	if c.runLocked {
		return
	}
	for _, k := range sortedKeys(gs.heaps) {
		if !strings.HasPrefix(k, "L:") {
			continue
		}
		bh := c.heap(st, k, c.heapSort[k])
		if gs.heaps[k] == bh {
			continue
		}
		out := map[int]*Term{}
		if !collectWrites(gs.heaps[k], bh, out, map[int]bool{}) {
			continue
		}
		for id, t := range out {
			if c.onceCells[id] || mkSelect(gs.heaps[k], t) == mkSelect(bh, t) {
				continue
			}
			if r := rootOf(t); r.op == "int" && r.big.IsInt64() && r.big.Int64() >= st.ctr {
				continue
			}
			c.oblige(gs, "monitor", c.unit.Name+"/handler-race", c.unit.Safety, tFalse, pos)
			return
		}
	}
}

// runFn executes a function value handed out by the unit, twice in a row with arbitrary
// arguments, the way its new owner may.
func (a *act) runFn(st *State, ev *Env, event string, r *hookRun, pos token.Pos) {
	c := a.c
	f := ev.eval(r.Fn)
	sig, ok := f.typ.Underlying().(*types.Signature)
	if !ok {
		panic(unsupported("run of a value that is not a function"))
	}
	saved := c.facts
	gs := st.clone()
	c.setG(gs, "$lock", mkConstArr(ArraySort(SRef, SInt), mkInt(0)))
	c.setG(gs, "$trn", mkInt(0))
	sub := &act{c: c, fn: a.fn, env: a.env, depth: a.depth, key: a.key + ">run", caller: a, in: map[*ssa.BasicBlock][]edge{}, back: map[*loop][]edge{}, loops: a.loops, ctr0: a.ctr0}
	ft := f.term()
	for ft.op == "ite" {
		cond := simplifyUnder(gs.pc, ft.args[0])
		if cond == tTrue || ft.args[2].op == "int" && ft.args[2].big.Sign() == 0 {
			gs.pc, ft = mkAnd(gs.pc, cond), ft.args[1]
		} else if cond == tFalse || ft.args[1].op == "int" && ft.args[1].big.Sign() == 0 {
			gs.pc, ft = mkAnd(gs.pc, mkNot(cond)), ft.args[2]
		} else {
			break
		}
	}
	if gs.pc == tFalse || ft.op == "int" && ft.big.Sign() == 0 {
		return
	}
	c.inRun++
	c.runLocked = false
	c.runCtr = gs.ctr
	c.goDepth++
	for i := 0; i < 2; i++ {
		var args []Val
		before := gs.clone()
		gs.ctr += ctrBump
		for j := 0; j < sig.Params().Len(); j++ {
			args = append(args, c.havocVal(gs, sig.Params().At(j).Type(), "runarg"))
		}
		sub.callFnTerm(gs, ft, f.typ, args, pos)
		c.raceCheck(before, gs, pos)
		ev2 := *ev
		ev2.st = gs
		c.oblige(gs, "monitor", c.unit.Name+"/on-"+event+":"+r.Post.Name, c.clauseProps(r.Post), ev2.bool(r.Post.Expr), pos)
	}
	c.inRun--
	c.goDepth--
	for _, p := range sub.panics {
		c.oblige(p.st, "panic", c.unit.Name+"/no-panic:handler", c.unit.Safety, tFalse, p.pos)
	}
	c.lockBalance(gs, "handler exit", pos)
	c.facts = saved
}

// setGhosts performs the ghost assignments simultaneously.
func (c *Ctx) setGhosts(st *State, ev *Env, updates []letDef) {
	type upd struct {
		k string
		v *Term
	}
	var us []upd
	for _, u := range updates {
		so, _ := c.e.specSort(c.e.specs.Ghosts[u.name])
		v := ev.eval(u.expr)
		if v.v == nil {
			_, gt := c.e.specSort(c.e.specs.Ghosts[u.name])
			t, _ := ev.coerceTo(v, gt)
			us = append(us, upd{"$g:" + u.name, t})
			continue
		}
		t := v.term()
		if t.sort != so && so == SAny {
			t, _ = ev.coerceTo(v, types.NewInterfaceType(nil, nil))
		}
		us = append(us, upd{"$g:" + u.name, t})
	}
	for _, u := range us {
		c.setG(st, u.k, u.v)
	}
}

func (c *Ctx) clauseProps(cl *Clause) []string {
	if len(cl.Props) > 0 {
		return cl.Props
	}
	if c.unit.contract != nil {
		return c.unit.contract.Props
	}
	return nil
}

// ---------- static calls ----------

func (a *act) callFn(st *State, fn *ssa.Function, binds []Val, args []Val, pos token.Pos, cc *ssa.CallCommon) []Val {
	c := a.c
	name := shortFn(fn)
	full := fn.String()
	if fn.Origin() != nil {
		full = fn.Origin().String()
	}
	if strings.HasPrefix(fn.Name(), "init#") || fn.Name() == "init" && fn.Pkg != nil && !c.e.isRepo(fn.Pkg.Pkg) {
		if fn.Signature.Recv() == nil && fn.Name() == "init" {
			return nil // initialisation of dependencies
		}
	}
	if h, ok := intrinsics[full]; ok {
		r := h(a, st, fn, args, pos)
		a.extHooks(st, full, fn, args, r, pos)
		return r
	}
	for _, p := range intrinsicPrefix {
		if strings.HasPrefix(full, p.prefix) {
			r := p.h(a, st, fn, args, pos)
			return r
		}
	}
	if ct := c.e.specs.Contracts[name]; ct != nil && (ct.UseAt || ct.Trusted) && (ct != c.unit.contract || c.onStack(fn)) && !c.unit.inlineAll[name] {
		var tv []TV
		ps := paramTypes(fn.Signature)
		for i, x := range args {
			tv = append(tv, TV{v: x, typ: ps[i]})
		}
		return a.applyContract(st, ct, fn, fn.Signature, tv, pos, name)
	}
	if fn.Blocks != nil && c.e.inlinable(fn) {
		for _, s := range c.callStack {
			if s == fn.String() && fn.Parent() == nil {
				n := 0
				for _, s2 := range c.callStack {
					if s2 == fn.String() {
						n++
					}
				}
				if n > 3 {
					panic(unsupported("recursion without contract: " + name))
				}
			}
		}
		c.inlined[name] = true
		return a.inline(st, fn, binds, args, pos)
	}
	return a.external(st, fn, args, pos)
}

func (c *Ctx) onStack(fn *ssa.Function) bool {
	for _, s := range c.callStack {
		if s == fn.String() {
			return true
		}
	}
	return false
}

func (a *act) inline(st *State, fn *ssa.Function, binds, args []Val, pos token.Pos) []Val {
	c := a.c
	in := st.clone()
	rets, panics := c.execFunc(fn, args, binds, in, a)
	for _, p := range panics {
		c.panicking++
		a.runDefers(p.st, a.defers)
		c.panicking--
		a.panics = append(a.panics, p)
	}
	var ss []*State
	var rs [][]Val
	for _, r := range rets {
		ss = append(ss, r.st)
		rs = append(rs, r.vals)
	}
	if len(ss) == 0 {
		st.pc = tFalse
		return nil
	}
	return a.mergeInto(st, ss, rs)
}

func paramTypes(sig *types.Signature) []types.Type {
	var out []types.Type
	if sig.Recv() != nil {
		out = append(out, sig.Recv().Type())
	}
	for i := 0; i < sig.Params().Len(); i++ {
		out = append(out, sig.Params().At(i).Type())
	}
	return out
}

// external: a dependency without contract; results are arbitrary and memory
// directly reachable from pointer arguments is arbitrary afterwards.
func (a *act) external(st *State, fn *ssa.Function, args []Val, pos token.Pos) []Val {
	c := a.c
	full := fn.String()
	if fn.Origin() != nil {
		full = fn.Origin().String()
	}
	kind := c.e.specs.FnSpecs["ext "+full]
	if kind == "" {
		kind = c.e.specs.FnSpecs["ext "+shortName(full)]
	}
	c.trusted["external "+full] = true
	if full == "os.Exit" {
		a.extHooks(st, full, fn, args, nil, pos)
		st.pc = tFalse
		return nil
	}
	if kind == "blocking" || kind == "event" {
		a.noLocks(st, full, pos)
	}
	if kind == "event" {
		var as []*Term
		ps := paramTypes(fn.Signature)
		for i, x := range args {
			if t, ok := x.(*Term); ok {
				if t.sort != SAny {
					t = mkBox(ps[i], t)
				}
				as = append(as, t)
			}
		}
		c.event(st, tTrue, c.eventID(shortName(full)), as)
	}
	if kind == "pure" {
		var as []*Term
		for _, x := range args {
			t, ok := x.(*Term)
			if !ok {
				panic(unsupported("pure external argument"))
			}
			as = append(as, t)
		}
		var out []Val
		rs := fn.Signature.Results()
		for i := 0; i < rs.Len(); i++ {
			rt := rs.At(i).Type()
			out = append(out, c.norm(st, mkApp(fmt.Sprintf("ext%d_%s", i, sanitize(full)), sortOf(rt), as...), rt))
		}
		a.extHooks(st, full, fn, args, out, pos)
		return out
	}
	if kind == "" {
		ps := paramTypes(fn.Signature)
		for i, x := range args {
			t, ok := x.(*Term)
			if !ok || i >= len(ps) {
				continue
			}
			pt := ps[i]
			if types.IsInterface(pt) {
				// a pointer passed directly in an interface
				var rec func(cond, t *Term)
				rec = func(cond, t *Term) {
					t = simplifyIte(cond, t)
					if t.op == "ite" {
						rec(mkAnd(cond, t.args[0]), t.args[1])
						rec(mkAnd(cond, mkNot(t.args[0])), t.args[2])
						return
					}
					if t.op != "ctor" || t.sort != SAny {
						return
					}
					if b := boxByCtor[t.name]; b != nil {
						a.havocArg(st, b.typ, t.args[0])
					}
				}
				rec(st.pc, t)
				continue
			}
			if full == "encoding/json.Unmarshal" {
				continue // reads its bytes
			}
			a.havocArg(st, pt, t)
		}
	}
	r := a.havocResults(st, fn.Signature, fn.Name())
	a.extHooks(st, full, fn, args, r, pos)
	return r
}

// havocArg: what an unknown function may do to memory through an argument
func (a *act) havocArg(st *State, pt types.Type, t *Term) {
	c := a.c
	switch u := pt.Underlying().(type) {
	case *types.Pointer:
		if opaqueSort(u.Elem()) == nil || opaqueSort(u.Elem()) == STime {
			if r := mkSel("root", SInt, t); r.op == "int" && r.big.Sign() == 0 {
				return
			}
			a.havocPointee(st, t, u.Elem())
		}
	case *types.Slice:
		if b, ok := u.Elem().Underlying().(*types.Basic); ok && b.Kind() == types.Byte {
			s := c.heapSortOfElem(u.Elem())
			c.setElems(st, u.Elem(), mkSel("s-arr", SInt, t), fresh("bytes", s))
		}
	}
}

func (c *Ctx) heapSortOfElem(t types.Type) *Sort { return ArraySort(SInt, sortOf(t)) }

func (a *act) havocPointee(st *State, p *Term, t types.Type) {
	c := a.c
	st.ctr += ctrBump
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(unsupportedErr); !ok {
				panic(r)
			}
		}
	}()
	v := c.havocVal(st, t, "pointee")
	if tv, ok := v.(*Term); ok {
		c.store(st, p, t, tv)
	}
}

func (a *act) extHooks(st *State, full string, fn *ssa.Function, args, res []Val, pos token.Pos) {
	if st.pc == tFalse {
		return
	}
	ps := paramTypes(fn.Signature)
	var tv []TV
	for i, x := range args {
		var t types.Type
		if i < len(ps) {
			t = ps[i]
		}
		tv = append(tv, TV{v: x, typ: t})
	}
	tv = append(tv, restvs(res, fn.Signature)...)
	a.runHooks(st, full, tv, pos)
}

// ---------- contracts at call sites ----------

func (a *act) applyContract(st *State, ct *Contract, fn *ssa.Function, sig *types.Signature, args []TV, pos token.Pos, name string) []Val {
	c := a.c
	c.used[name] = true
	if ct.Trusted {
		c.trusted["contract "+name] = true
	}
	vars := map[string]TV{}
	for i, p := range ct.Params {
		if i < len(args) && p != "_" {
			vars[p] = args[i]
		}
	}
	ev := &Env{c: c, st: st, vars: vars, a: a}
	for _, r := range ct.Requires {
		g := ev.bool(r.Expr)
		c.oblige(st, "call-pre", c.unit.Name+"/call-"+name+"/requires:"+r.Name, []string{"*"}, g, pos)
	}
	for _, h := range ct.Holds {
		c.oblige(st, "lock", c.unit.Name+"/call-"+name+"/holds", c.lockTags(), mkEq(mkSelect(c.lockHeap(st), ev.eval(h).addr), mkInt(-1)), pos)
	}
	var lk *LockDecl
	var self *Term
	if ct.Locks != "" {
		// the callee acquires and releases this lock
		lk = c.e.lockByName(ct.Locks)
		self = vars[ct.Params[0]].term()
		mu := fieldRef(self, c.e.fieldIndex(lk))
		a.lockFree(st, mu, name, pos)
		c.acquireHavoc(a, st, lk, self)
	} else {
		a.blockingKind(st, ct, name, pos)
	}
	if ct.Config["maypanic"] != "" {
		b := fresh("panics", SBool)
		a.explicitPanic(st.with(b), anil, pos)
		st.pc = mkAnd(st.pc, mkNot(b))
	}
	pre := st.clone()
	// effects
	st.ctr += ctrBump
	if ct.ModAll {
		c.havocAll(st)
	}
	if !ct.Pure {
		c.ctxProgress(st)
		c.chProgress(st)
	}
	for _, b := range ct.Begin {
		so, _ := c.e.specSort(c.e.specs.Ghosts[b.name])
		c.setG(st, "$g:"+b.name, fresh("g_"+b.name, so))
	}
	for _, m := range ct.Modifies {
		a.havocPlace(&Env{c: c, st: pre, vars: vars, a: a}, st, m)
	}
	if lk != nil {
		c.guardedHavoc(a, st, lk, self)
	}
	var out []Val
	for i := 0; i < sig.Results().Len(); i++ {
		out = append(out, c.havocVal(st, sig.Results().At(i).Type(), "r_"+sanitize(name)))
	}
	post := &Env{c: c, st: st, old: pre, entry: pre, vars: map[string]TV{}, a: a, cut: pre.ctr}
	for k, v := range vars {
		post.vars[k] = v
	}
	for i, r := range ct.Results {
		if i < len(out) && r != "_" {
			post.vars[r] = TV{v: out[i], typ: sig.Results().At(i).Type()}
		}
	}
	for _, l := range ct.Lets {
		if usesOld(l.expr) {
		}
		post.vars[l.name] = post.eval(l.expr)
	}
	for _, e := range ct.Ensures {
		if !c.wantClause(e, ct) {
			continue
		}
		c.assume(st, post.bool(e.Expr))
	}
	for _, e := range ct.Assumes {
		c.assumptions["assumed of "+name+": "+e.Name] = true
		c.assume(st, post.bool(e.Expr))
	}
	if lk != nil {
		c.assumeInv(a, st, lk, self)
	}
	if ct.Config["event"] != "" {
		var as []*Term
		for _, x := range args {
			if t, ok := x.v.(*Term); ok {
				if t.sort != SAny {
					t = mkBox(x.typ, t)
				}
				as = append(as, t)
			}
		}
		c.event(st, tTrue, c.eventID(name), as)
	}
	a.runHooks(st, name, append(append([]TV{}, args...), restvs(out, sig)...), pos)
	return out
}

// chProgress: shared channels may have been closed meanwhile, and stay closed.
func (c *Ctx) chProgress(st *State) {
	if _, ok := c.heapSort["$chclosed"]; !ok {
		c.heapSort["$chclosed"] = ArraySort(SInt, SBool)
	}
	st.heaps["$chclosed"] = c.chProgressHeap(c.heap(st, "$chclosed", ArraySort(SInt, SBool)))
}

func (c *Ctx) chProgressHeap(h *Term) *Term {
	n := fresh("chclosed", h.sort)
	x := mkBV("x", SInt)
	sel := mk("select", "", SBool, n, x)
	c.fact(mkForall([]*Term{x}, mkAnd(mkImp(mk("select", "", SBool, h, x), sel), mkImp(mkLeRaw(mkInt(1), x), mkEq(sel, mk("select", "", SBool, h, x)))), []*Term{sel}))
	return n
}

// ctxProgress: contexts may have finished meanwhile, and stay finished.
func (c *Ctx) ctxProgress(st *State) {
	h := c.heap(st, "$ctxdone", ArraySort(SAny, SBool))
	n := fresh("ctxdone", h.sort)
	x := mkBV("x", SAny)
	c.fact(mkForall([]*Term{x}, mkImp(mkSelect(h, x), mkSelect(n, x)), []*Term{mkSelect(n, x)}))
	c.setG(st, "$ctxdone", n)
}

func usesOld(n *Node) bool { return false }

func (a *act) blockingKind(st *State, ct *Contract, name string, pos token.Pos) {
	if ct.Config["blocking"] != "" {
		a.noLocks(st, name, pos)
	}
}

// wantClause: at call sites only clauses relevant for the checked properties are assumed.
func (c *Ctx) wantClause(cl *Clause, ct *Contract) bool {
	return true
}

func (c *Ctx) havocAll(st *State) {
	freshCtr++
	ep := fmt.Sprintf("h%d", freshCtr)
	keep := map[string]*Term{}
	for k, v := range st.heaps {
		if strings.HasPrefix(k, "$") || strings.HasPrefix(k, "old:") {
			keep[k] = v
		}
	}
	st.heaps = keep
	st.epoch = ep
}

// havocPlace: x.f | contents(m) | elems(s) | deref(p)
func (a *act) havocPlace(ev *Env, st *State, n *Node) {
	c := a.c
	if n.op == "call" {
		switch n.name {
		case "contents":
			m := ev.eval(n.args[0])
			if mt, ok := m.typ.Underlying().(*types.Map); ok {
				dk, ds, vk, vs := c.e.mapKeys(mt)
				_, _ = dk, vk
				c.setMap(st, mt, m.term(), fresh("hd", ds.Elem), fresh("hv", vs.Elem))
				return
			}
			sl := m.typ.Underlying().(*types.Slice)
			c.setElems(st, sl.Elem(), mkSel("s-arr", SInt, m.term()), fresh("he", ArraySort(SInt, sortOf(sl.Elem()))))
			return
		case "deref":
			p := ev.eval(n.args[0])
			et := p.typ.Underlying().(*types.Pointer).Elem()
			c.store(st, p.term(), et, c.havocVal(st, et, "hp").(*Term))
			return
		case "maps":
			// all maps of a type
			t := c.e.resolveType(n.args[0].name).Underlying().(*types.Map)
			dk, ds, vk, vs := c.e.mapKeys(t)
			st.heaps[dk] = fresh("H_"+sanitize(dk), ds)
			st.heaps[vk] = fresh("H_"+sanitize(vk), vs)
			c.heapSort[dk], c.heapSort[vk] = ds, vs
			c.heapAxioms(st.heaps[dk], dk, st.ctr)
			c.heapAxioms(st.heaps[vk], vk, st.ctr)
			return
		}
	}
	if n.op == "name" {
		if gt, ok := c.e.specs.Ghosts[n.name]; ok {
			so, _ := c.e.specSort(gt)
			c.setG(st, "$g:"+n.name, fresh("g_"+n.name, so))
			return
		}
	}
	x := ev.eval(n)
	if x.addr == nil {
		panic(unsupported("modifies: not a place"))
	}
	c.store(st, x.addr, x.typ, c.havocVal(st, x.typ, "hm").(*Term))
}

// ---------- builtins ----------

func (a *act) builtin(st *State, name string, cc *ssa.CallCommon, args []Val, pos token.Pos) []Val {
	c := a.c
	switch name {
	case "len":
		switch u := cc.Args[0].Type().Underlying().(type) {
		case *types.Slice:
			return []Val{mkSel("s-len", SInt, args[0].(*Term))}
		case *types.Map:
			a.checkMapGuard(st, args[0].(*Term), false, pos)
			r := c.card(c.mapDom(st, u, args[0].(*Term)))
			if !isLit(r) {
				c.fact(mkLe(r, bigLit("140737488355328")))
				c.fact(mkLe(mkInt(0), r))
			}
			return []Val{r}
		case *types.Basic:
			return []Val{c.strLen(args[0].(*Term))}
		case *types.Array:
			return []Val{mkInt(u.Len())}
		case *types.Pointer:
			return []Val{mkInt(u.Elem().Underlying().(*types.Array).Len())}
		case *types.Chan:
			r := fresh("chanlen", SInt)
			c.fact(mkLe(mkInt(0), r))
			return []Val{r}
		}
	case "cap":
		switch cc.Args[0].Type().Underlying().(type) {
		case *types.Slice:
			return []Val{mkSel("s-cap", SInt, args[0].(*Term))}
		case *types.Chan:
			return []Val{mkSelect(c.heap(st, "$chcap", ArraySort(SInt, SInt)), args[0].(*Term))}
		}
	case "append":
		return []Val{a.appendBuiltin(st, cc, args)}
	case "copy":
		return []Val{a.copyBuiltin(st, cc, args)}
	case "delete":
		a.mapDelete(st, args[0].(*Term), cc.Args[0].Type(), args[1], pos)
		return nil
	case "clear":
		switch u := cc.Args[0].Type().Underlying().(type) {
		case *types.Map:
			m := args[0].(*Term)
			a.checkMapGuard(st, m, true, pos)
			_, ds, _, _ := c.e.mapKeys(u)
			c.setMap(st, u, m, mkConstArr(ds.Elem, tFalse), nil)
			return nil
		}
	case "close":
		ch := args[0].(*Term)
		a.must(st, mkNot(mkEq(ch, mkInt(0))), "close-nil-chan", pos)
		cl := c.heap(st, "$chclosed", ArraySort(SInt, SBool))
		a.closeCheck(st, ch, cl, pos)
		if c.inRun > 0 && c.onceDepth == 0 && !c.runLocked && !(ch.op == "int" && ch.big.Int64() >= c.runCtr) {
			c.oblige(st, "monitor", c.unit.Name+"/handler-race", c.unit.Safety, tFalse, pos)
		}
		c.setGhostMapB(st, "$chclosed", ch, tTrue)
		a.runHooks(st, "close", []TV{{v: ch, typ: cc.Args[0].Type()}}, pos)
		return nil
	case "min", "max":
		x := args[0].(*Term)
		for _, y := range args[1:] {
			t := y.(*Term)
			if name == "min" {
				x = mkIte(mkLe(x, t), x, t)
			} else {
				x = mkIte(mkLe(t, x), x, t)
			}
		}
		return []Val{x}
	case "print", "println":
		return nil
	case "recover":
		if c.panicking > 0 {
			// recovering from a panic is not modelled: such a panic must be unreachable
			c.oblige(st, "panic", c.unit.Name+"/no-panic:recovered", c.unit.Safety, tFalse, pos)
		}
		return []Val{anil}
	case "ssa:wrapnilchk":
		a.must(st, mkNot(mkEq(mkSel("root", SInt, args[0].(*Term)), mkInt(0))), "nil-deref", pos)
		return []Val{args[0]}
	}
	panic(unsupported("builtin " + name))
}

func (a *act) closeCheck(st *State, ch, cl *Term, pos token.Pos) {
	// closing twice panics; channels reachable by other goroutines are governed by hooks
	a.must(st, mkNot(mkSelect(cl, ch)), "close-closed-chan", pos)
}

// appendBuiltin: exact model of append (in place when the capacity suffices).
func (a *act) appendBuiltin(st *State, cc *ssa.CallCommon, args []Val) Val {
	c := a.c
	s := args[0].(*Term)
	st0 := cc.Args[0].Type().Underlying().(*types.Slice)
	et := st0.Elem()
	if len(args) == 1 {
		return s
	}
	t := args[1].(*Term)
	var tl, tc, to *Term
	if t.sort == SStr {
		tl = c.strLen(t)
		tc = mkApp("str_bytes", ArraySort(SInt, SInt), t)
		to = mkInt(0)
	} else {
		tl = mkSel("s-len", SInt, t)
		tc = c.elems(st, et, mkSel("s-arr", SInt, t))
		to = mkSel("s-off", SInt, t)
	}
	ln, cp, off, arr := mkSel("s-len", SInt, s), mkSel("s-cap", SInt, s), mkSel("s-off", SInt, s), mkSel("s-arr", SInt, s)
	nl := mkAdd(ln, tl)
	inplace := simplifyUnder(st.pc, mkLe(nl, cp))
	nid := mkInt(c.alloc(st))
	var ncap *Term
	if c.initing && nl.op == "int" && cp.op == "int" {
		c.assumption("slices built during package initialisation grow as the Go runtime of this toolchain grows them")
		ncap = mkInt(growCap(cp.big.Int64(), nl.big.Int64(), types.SizesFor("gc", "amd64").Sizeof(et)))
	} else {
		ncap = fresh("cap", SInt)
		c.fact(mkLe(nl, ncap))
		c.fact(mkLe(ncap, bigLit("140737488355328")))
	}
	base := c.elems(st, et, arr)
	var inC, outC *Term
	outOff := mkInt(0)
	k := -1
	if tl.op == "int" {
		k = int(tl.big.Int64())
	}
	if k == 0 {
		return s // appending nothing
	}
	if k >= 0 && k <= 64 {
		upd := func(b, o *Term) *Term {
			for i := 0; i < k; i++ {
				b = mkStore(b, mkAdd(mkAdd(o, ln), mkInt(int64(i))), mkSelect(tc, mkAdd(to, mkInt(int64(i)))))
			}
			return b
		}
		inC = upd(base, off)
		// the fresh array is laid out at the same offset: only offsets relative
		// to the slice are observable
		outC = inC
		outOff = off
	} else {
		nc := fresh("appended", base.sort)
		j := mkBV("j", SInt)
		sel := mk("select", "", base.sort.Elem, nc, j)
		end := mkAdd(off, ln)
		c.fact(mkForall([]*Term{j}, mkEq(sel, mkIte(mkAnd(mkLe(end, j), mkLt(j, mkAdd(end, tl))), mkSelect(tc, mkAdd(to, mkSub(j, end))), mkSelect(base, j))), []*Term{sel}))
		inC, outC, outOff = nc, nc, off
	}
	res := mkIte(inplace, mkCtor("mkslice", SSlice, arr, off, nl, cp), mkCtor("mkslice", SSlice, nid, outOff, nl, ncap))
	ra := mkSel("s-arr", SInt, res)
	c.setElems(st, et, ra, mkIte(inplace, inC, outC))
	return res
}

func (a *act) copyBuiltin(st *State, cc *ssa.CallCommon, args []Val) Val {
	c := a.c
	d := args[0].(*Term)
	s := args[1].(*Term)
	et := cc.Args[0].Type().Underlying().(*types.Slice).Elem()
	dl := mkSel("s-len", SInt, d)
	var sl, sc, so *Term
	if s.sort == SStr {
		sl, sc, so = c.strLen(s), mkApp("str_bytes", ArraySort(SInt, SInt), s), mkInt(0)
	} else {
		sl, sc, so = mkSel("s-len", SInt, s), c.elems(st, et, mkSel("s-arr", SInt, s)), mkSel("s-off", SInt, s)
	}
	n := mkIte(mkLe(dl, sl), dl, sl)
	da, do := mkSel("s-arr", SInt, d), mkSel("s-off", SInt, d)
	base := c.elems(st, et, da)
	if n.op == "int" && n.big.Int64() <= 64 {
		for i := int64(0); i < n.big.Int64(); i++ {
			base = mkStore(base, mkAdd(do, mkInt(i)), mkSelect(sc, mkAdd(so, mkInt(i))))
		}
		if n.big.Sign() > 0 {
			c.setElems(st, et, da, base)
		}
		return n
	}
	nc := fresh("copied", base.sort)
	j := mkBV("j", SInt)
	sel := mk("select", "", base.sort.Elem, nc, j)
	c.fact(mkForall([]*Term{j}, mkEq(sel, mkIte(mkAnd(mkLe(do, j), mkLt(j, mkAdd(do, n))), mkSelect(sc, mkAdd(so, mkSub(j, do))), mkSelect(base, j))), []*Term{sel}))
	c.setElems(st, et, da, mkIte(mkEq(n, mkInt(0)), base, nc))
	return n
}

// ---------- goroutines and channels ----------

func (a *act) doGo(st *State, x *ssa.Go) {
	c := a.c
	var args []Val
	for _, y := range x.Call.Args {
		args = append(args, a.val(y, st))
	}
	var fv Val
	if _, ok := x.Call.Value.(*ssa.Builtin); !ok {
		fv = a.val(x.Call.Value, st)
	}
	c.runGo(a, st, x, args, fv)
}

func (c *Ctx) runGo(a *act, st *State, x *ssa.Go, args []Val, fv Val) {
	saved := c.facts
	gs := st.clone()
	// a new goroutine holds no lock
	c.setG(gs, "$lock", mkConstArr(ArraySort(SRef, SInt), mkInt(0)))
	c.setG(gs, "$trn", mkInt(0))
	sub := &act{c: c, fn: a.fn, env: a.env, depth: a.depth, key: a.key + ">go", caller: a, in: map[*ssa.BasicBlock][]edge{}, back: map[*loop][]edge{}, loops: a.loops, ctr0: a.ctr0}
	c.goDepth++
	sub.callVals(gs, &x.Call, args, fv, nil, x.Pos())
	c.goDepth--
	if gs.pc != tFalse {
		sub.runHooks(gs, "goexit", nil, x.Pos())
	}
	for _, p := range sub.panics {
		c.oblige(p.st, "panic", c.unit.Name+"/no-panic:goroutine", c.unit.Safety, tFalse, p.pos)
	}
	if gs.pc != tFalse && c.dry == 0 || gs.pc != tFalse {
		c.lockBalance(gs, "goroutine exit", x.Pos())
	}
	c.facts = saved
	// memory written by the goroutine may change at any time
	for _, k := range sortedKeys(gs.heaps) {
		if !strings.HasPrefix(k, "L:") {
			continue
		}
		bh := c.heap(st, k, c.heapSort[k])
		if gs.heaps[k] == bh {
			continue
		}
		out := map[int]*Term{}
		if !collectWrites(gs.heaps[k], bh, out, map[int]bool{}) {
			continue
		}
		for id := range out {
			t := out[id]
			if r := rootOf(t); r.op == "int" && r.big.IsInt64() && r.big.Int64() < st.ctr && r.big.Int64() > 0 {
				et := c.e.heapElemType[k]
				if v, ok := c.havocVal(st, et, "racy").(*Term); ok {
					st.heaps[k] = mkStore(c.heap(st, k, c.heapSort[k]), t, v)
				}
			}
		}
	}
}

func (a *act) chanSend(st *State, ch *Term, v Val, ct types.Type, blocking bool, pos token.Pos) {
	if blocking {
		a.noLocks(st, "channel send", pos)
	}
	a.recordSend(st, tTrue, ch, v, ct, pos)
}

func (a *act) recordSend(st *State, cond *Term, ch *Term, v Val, ct types.Type, pos token.Pos) {
	c := a.c
	et := ct.Underlying().(*types.Chan).Elem()
	t, ok := v.(*Term)
	if !ok {
		return
	}
	if t.sort != SAny {
		t = mkBox(et, t)
	}
	c.event(st, cond, c.eventID("send"), []*Term{mkBox(types.Typ[types.Int], ch), t})
	if cond == tTrue {
		a.runHooks(st, "send", []TV{{v: ch, typ: ct}, {v: v, typ: et}}, pos)
		return
	}
	s1, s2 := st.with(cond), st.with(mkNot(cond))
	a.runHooks(s1, "send", []TV{{v: ch, typ: ct}, {v: v, typ: et}}, pos)
	m, _ := c.mergeStates([]*State{s1, s2})
	*st = *m
}

func (a *act) recvd(st *State, cond *Term, ch *Term) {
	c := a.c
	if c.signals[ch.id] {
		c.assumption("nothing is sent on channels that the program only closes")
		h := c.heap(st, "$chclosed", ArraySort(SInt, SBool))
		c.setG(st, "$chclosed", mkIte(cond, mkStore(h, ch, tTrue), h))
	}
	if ch.op == "app" && ch.name == "im_Done" {
		h := c.heap(st, "$ctxdone", ArraySort(SAny, SBool))
		nv := mkStore(h, ch.args[0], tTrue)
		c.setG(st, "$ctxdone", mkIte(cond, nv, h))
	}
}

func (a *act) chanRecv(st *State, ch *Term, ct types.Type, commaOk bool, pos token.Pos) Val {
	c := a.c
	a.noLocks(st, "channel receive", pos)
	et := ct.Underlying().(*types.Chan).Elem()
	st.ctr += ctrBump
	v := c.havocVal(st, et, "recv")
	a.recvd(st, tTrue, ch)
	ok := fresh("recv_ok", SBool)
	a.runHooks(st, "recv", []TV{{v: ch, typ: ct}, {v: v, typ: et}, boolTV(ok)}, pos)
	if commaOk {
		return Tuple{v, ok}
	}
	return v
}

func (a *act) doSelect(st *State, x *ssa.Select) Val {
	c := a.c
	n := len(x.States)
	idx := fresh("select", SInt)
	lo := int64(0)
	if !x.Blocking {
		lo = -1
	} else {
		a.noLocks(st, "select", x.Pos())
	}
	c.fact(mkAnd(mkLe(mkInt(lo), idx), mkLt(idx, mkInt(int64(n)))))
	if !x.Blocking {
		// a receive from a closed channel is always ready
		cl := c.heap(st, "$chclosed", ArraySort(SInt, SBool))
		cd := c.heap(st, "$ctxdone", ArraySort(SAny, SBool))
		for _, s := range x.States {
			if s.Dir != types.SendOnly {
				ch := a.term(s.Chan, st)
				r := mkAnd(mkNot(mkEq(ch, mkInt(0))), mkSelect(cl, ch))
				if ch.op == "app" && ch.name == "im_Done" {
					r = mkOr(r, mkSelect(cd, ch.args[0]))
				}
				c.assume(st, mkImp(mkEq(idx, mkInt(-1)), mkNot(r)))
			}
		}
	}
	if n == 0 && x.Blocking {
		st.pc = tFalse
		return Tuple{idx, tFalse}
	}
	out := Tuple{idx, fresh("recv_ok", SBool)}
	st.ctr += ctrBump
	for i, s := range x.States {
		ch := a.term(s.Chan, st)
		// a nil channel is never ready
		c.fact(mkImp(mkEq(idx, mkInt(int64(i))), mkNot(mkEq(ch, mkInt(0)))))
		cond := mkEq(idx, mkInt(int64(i)))
		if s.Dir == types.SendOnly {
			sv := a.val(s.Send, st)
			a.runHooks(st, "trysend", []TV{{v: ch, typ: s.Chan.Type()}, {v: sv, typ: s.Chan.Type().Underlying().(*types.Chan).Elem()}}, x.Pos())
			a.recordSend(st, cond, ch, a.val(s.Send, st), s.Chan.Type(), x.Pos())
		} else {
			et := s.Chan.Type().Underlying().(*types.Chan).Elem()
			v := c.havocVal(st, et, "recv")
			a.recvd(st, cond, ch)
			s1, s2 := st.with(cond), st.with(mkNot(cond))
			a.runHooks(s1, "recv", []TV{{v: ch, typ: s.Chan.Type()}, {v: v, typ: et}, {v: out[1], typ: types.Typ[types.Bool]}}, x.Pos())
			m, _ := c.mergeStates([]*State{s1, s2})
			*st = *m
			out = append(out, v)
		}
	}
	return out
}

var _ = token.NoPos

var sizeClasses = []int64{0, 8, 16, 24, 32, 48, 64, 80, 96, 112, 128, 144, 160, 176, 192, 208, 224, 240, 256, 288, 320, 352, 384, 416, 448, 480, 512, 576, 640, 704, 768, 896, 1024, 1152, 1280, 1408, 1536, 1792, 2048, 2304, 2688, 3072, 3200, 3456, 4096, 4864, 5376, 6144, 6528, 6784, 6912, 8192, 9472, 9728, 10240, 10880, 12288, 13568, 14336, 16384, 18432, 19072, 20480, 21760, 24576, 27264, 28672, 32768}

// growCap: the capacity append gives a slice of capacity old that must hold n elements.
func growCap(old, n, size int64) int64 {
	want := n
	if n <= 2*old {
		if old < 256 {
			want = 2 * old
		} else {
			for want = old; want < n; want += (want + 3*256) >> 2 {
			}
		}
	}
	if size == 0 {
		return n
	}
	b := want * size
	for _, c := range sizeClasses {
		if c >= b {
			return c / size
		}
	}
	return (b + 8191) / 8192 * 8192 / size
}
