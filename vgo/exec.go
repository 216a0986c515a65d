package main

// Symbolic execution of go/ssa functions.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type exit struct {
	st   *State
	vals []Val
	pos  token.Pos
}

type deferredCall struct {
	st    *State // state's pc at registration
	pc    *Term
	instr *ssa.Defer
	args  []Val
	fnv   Val
}

type act struct {
	c       *Ctx
	fn      *ssa.Function
	env     map[ssa.Value]Val
	depth   int
	key     string
	caller  *act
	in      map[*ssa.BasicBlock][]edge
	back    map[*loop][]edge
	defers  []deferredCall
	rets    []exit
	panics  []exit
	loops   *loopForest
	cur     []*loop
	binds   []Val
	retPC   *Term
	capture *exitCapture
	blkPos  token.Pos
	ctr0    int64
	pending []Val // values returned before RunDefers
}

type exitCapture struct {
	loop *loop
	outs []edge
	to   []*ssa.BasicBlock
}

const maxDepth = 40

func (c *Ctx) execFunc(fn *ssa.Function, args []Val, binds []Val, st *State, caller *act) (rets []exit, panics []exit) {
	depth := 0
	key := shortFn(fn)
	if caller != nil {
		depth = caller.depth + 1
		key = caller.key + ">" + key
		k := "call:" + key
		c.oblNames[k]++
		key = fmt.Sprintf("%s~%d", key, c.oblNames[k])
	}
	if depth > maxDepth {
		panic(unsupported("inlining depth exceeded at " + fn.String()))
	}
	if fn.Blocks == nil {
		panic(unsupported("function without body " + fn.String()))
	}
	a := &act{c: c, fn: fn, env: map[ssa.Value]Val{}, depth: depth, key: key, caller: caller, in: map[*ssa.BasicBlock][]edge{}, back: map[*loop][]edge{}, binds: binds, ctr0: st.ctr}
	c.callStack = append(c.callStack, fn.String())
	defer func() { c.callStack = c.callStack[:len(c.callStack)-1] }()
	for i, p := range fn.Params {
		if i < len(args) {
			a.env[p] = args[i]
		}
	}
	for i, fv := range fn.FreeVars {
		if i < len(binds) {
			a.env[fv] = binds[i]
		}
	}
	a.loops = c.e.loopsOf(fn)
	a.in[fn.Blocks[0]] = []edge{{nil, 0, st, nil}}
	a.execBlocks(a.loops.rpo, nil)
	return a.rets, a.panics
}

func shortFn(fn *ssa.Function) string { return shortName(fn.String()) }

func shortName(s string) string {
	s = strings.ReplaceAll(s, "github.com/c-kruse/vanflow/cmd/vanflow-tool", "tool")
	s = strings.ReplaceAll(s, "github.com/c-kruse/vanflow/", "")
	s = strings.ReplaceAll(s, "github.com/c-kruse/", "")
	s = strings.ReplaceAll(s, "github.com/Azure/go-amqp", "amqp")
	return s
}

// ---------- loops ----------

type loop struct {
	header *ssa.BasicBlock
	blocks map[*ssa.BasicBlock]bool
	parent *loop
	ord    int
}
type loopForest struct {
	rpo    []*ssa.BasicBlock
	byHead map[*ssa.BasicBlock]*loop
	inner  map[*ssa.BasicBlock]*loop // innermost loop of block
}

func (e *Engine) loopsOf(fn *ssa.Function) *loopForest {
	if f, ok := e.loopCache[fn]; ok {
		return f
	}
	f := &loopForest{byHead: map[*ssa.BasicBlock]*loop{}, inner: map[*ssa.BasicBlock]*loop{}}
	seen := map[*ssa.BasicBlock]bool{}
	var post []*ssa.BasicBlock
	var dfs func(b *ssa.BasicBlock)
	dfs = func(b *ssa.BasicBlock) {
		seen[b] = true
		// visit loop exits first so that bodies come before exits in RPO
		for i := len(b.Succs) - 1; i >= 0; i-- {
			if !seen[b.Succs[i]] {
				dfs(b.Succs[i])
			}
		}
		post = append(post, b)
	}
	dfs(fn.Blocks[0])
	if fn.Recover != nil && !seen[fn.Recover] {
		// recover block is not executed (no recover() in scope)
	}
	for i := len(post) - 1; i >= 0; i-- {
		f.rpo = append(f.rpo, post[i])
	}
	for _, b := range f.rpo {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				l := f.byHead[s]
				if l == nil {
					l = &loop{header: s, blocks: map[*ssa.BasicBlock]bool{s: true}}
					f.byHead[s] = l
				}
				// natural loop
				var stack []*ssa.BasicBlock
				if !l.blocks[b] {
					l.blocks[b] = true
					stack = append(stack, b)
				}
				for len(stack) > 0 {
					x := stack[len(stack)-1]
					stack = stack[:len(stack)-1]
					for _, p := range x.Preds {
						if !l.blocks[p] && seen[p] {
							l.blocks[p] = true
							stack = append(stack, p)
						}
					}
				}
			}
		}
	}
	var ls []*loop
	for _, b := range f.rpo {
		if l := f.byHead[b]; l != nil {
			l.ord = len(ls)
			ls = append(ls, l)
		}
	}
	sort.SliceStable(ls, func(i, j int) bool { return len(ls[i].blocks) > len(ls[j].blocks) })
	for _, l := range ls {
		for b := range l.blocks {
			if b == l.header {
				if p := f.inner[b]; p != nil {
					l.parent = p
				}
			}
		}
		for b := range l.blocks {
			f.inner[b] = l
		}
	}
	e.loopCache[fn] = f
	return f
}

func (l *loop) within(outer *loop) bool {
	for x := l; x != nil; x = x.parent {
		if x == outer {
			return true
		}
	}
	return outer == nil
}

func (a *act) execBlocks(order []*ssa.BasicBlock, cur *loop) {
	for _, b := range order {
		il := a.loops.inner[b]
		if il != cur {
			// block of a nested loop (or outside)
			if h := a.loops.byHead[b]; h != nil && h.parent == cur && h != cur {
				a.execLoop(h)
			}
			continue
		}
		if cur != nil && b == cur.header {
			continue // executed explicitly
		}
		a.runBlock(b)
	}
}

// bodyOrder gives the blocks of loop l in RPO.
func (a *act) bodyOrder(l *loop) []*ssa.BasicBlock {
	var out []*ssa.BasicBlock
	for _, b := range a.loops.rpo {
		if l.blocks[b] {
			out = append(out, b)
		}
	}
	return out
}

func liveEdges(es []edge) []edge {
	var out []edge
	for _, e := range es {
		if e.st.pc != tFalse {
			out = append(out, e)
		}
	}
	return out
}

func (a *act) runBlock(b *ssa.BasicBlock) {
	es := liveEdges(a.in[b])
	delete(a.in, b)
	if len(es) == 0 {
		return
	}
	st, rel, vals := a.joinEdges(b, es)
	_ = rel
	for k, v := range vals {
		a.env[k] = v
	}
	a.runInstrs(b, st)
}

// joinEdges merges incoming edges and computes phi values.
func (a *act) joinEdges(b *ssa.BasicBlock, es []edge) (*State, []*Term, map[ssa.Value]Val) {
	sts := make([]*State, len(es))
	for i, e := range es {
		sts[i] = e.st
	}
	st, rel := a.c.mergeStates(sts)
	vals := map[ssa.Value]Val{}
	// loop-exit values
	keys := map[ssa.Value]bool{}
	for _, e := range es {
		for k := range e.vals {
			keys[k] = true
		}
	}
	for k := range keys {
		vs := make([]Val, len(es))
		for i, e := range es {
			if v, ok := e.vals[k]; ok {
				vs[i] = v
			} else {
				vs[i] = a.env[k]
			}
		}
		func() {
			defer func() {
				if r := recover(); r != nil {
					if _, ok := r.(unsupportedErr); !ok {
						panic(r)
					}
				}
			}()
			vals[k] = mergeVals(rel, vs)
		}()
	}
	for _, in := range b.Instrs {
		phi, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		vs := make([]Val, len(es))
		for i, e := range es {
			ev := phi.Edges[e.idx]
			if v, ok := e.vals[ev]; ok {
				vs[i] = v
			} else {
				vs[i] = a.val(ev, e.st)
			}
		}
		vals[phi] = mergeVals(rel, vs)
		if t, ok := vals[phi].(*Term); ok {
			vals[phi] = simplifyIte(st.pc, t)
		}
	}
	return st, rel, vals
}

func (a *act) pushEdge(b *ssa.BasicBlock, succ int, st *State) {
	t := b.Succs[succ]
	idx := -1
	// the edge index among preds (handle duplicate edges)
	n := 0
	for i := 0; i < succ; i++ {
		if b.Succs[i] == t {
			n++
		}
	}
	for i, p := range t.Preds {
		if p == b {
			if n == 0 {
				idx = i
				break
			}
			n--
		}
	}
	if st.pc == tFalse {
		return
	}
	e := edge{pred: b, idx: idx, st: st}
	for i := len(a.cur) - 1; i >= 0; i-- {
		l := a.cur[i]
		if l.blocks[t] && t != l.header {
			break
		}
		// leaving the loop (or starting a new iteration): snapshot loop-defined values
		if e.vals == nil {
			e.vals = map[ssa.Value]Val{}
		}
		for blk := range l.blocks {
			for _, in := range blk.Instrs {
				if v, ok := in.(ssa.Value); ok {
					if x, ok := a.env[v]; ok {
						e.vals[v] = x
					}
				}
			}
		}
		if t == l.header {
			a.back[l] = append(a.back[l], e)
			return
		}
	}
	a.in[t] = append(a.in[t], e)
}

// ---------- values ----------

func (a *act) val(v ssa.Value, st *State) Val {
	switch x := v.(type) {
	case *ssa.Const:
		return a.c.constVal(x)
	case *ssa.Global:
		return a.c.globalRef(x)
	case *ssa.Function:
		return a.c.fnTerm(x, nil, nil)
	case *ssa.Builtin:
		return nil
	}
	r, ok := a.env[v]
	if !ok {
		panic(unsupported(fmt.Sprintf("value %s (%T) undefined in %s", v.Name(), v, a.fn)))
	}
	return r
}

func (a *act) term(v ssa.Value, st *State) *Term {
	x := a.val(v, st)
	t, ok := x.(*Term)
	if !ok {
		if rv, ok := x.(*RV); ok {
			return a.c.rvTerm(st, rv)
		}
		panic(unsupported(fmt.Sprintf("value %s of kind %T used as term in %s", v.Name(), x, a.fn)))
	}
	return t
}

func (c *Ctx) constVal(x *ssa.Const) Val {
	t := types.Unalias(x.Type())
	if x.Value == nil {
		if isReflectValue(t) {
			return &RV{invalid: true}
		}
		return zeroVal(t)
	}
	switch x.Value.Kind() {
	case constant.Bool:
		return mkBool(constant.BoolVal(x.Value))
	case constant.String:
		return mkStr(constant.StringVal(x.Value))
	case constant.Int:
		if sortOf(t) == SReal {
			return mk("const", x.Value.ExactString()+".0", SReal)
		}
		b, _ := new(big.Int).SetString(x.Value.ExactString(), 10)
		return mkBig(b)
	case constant.Float:
		if sortOf(t) == SInt {
			v := constant.ToInt(x.Value)
			b, _ := new(big.Int).SetString(v.ExactString(), 10)
			return mkBig(b)
		}
		return fresh("float", SReal)
	}
	panic(unsupported("constant " + x.String()))
}

func (c *Ctx) globalRef(g *ssa.Global) *Term {
	if t, ok := c.e.globalIDs[g]; ok {
		return mkCtor("ptr", SRef, mkInt(t), pnil)
	}
	// globals get very negative ids, distinct from everything else (asserted by ubound on inputs: inputs never alias globals)
	id := -int64(1000000000) - int64(len(c.e.globalIDs))
	c.e.globalIDs[g] = id
	c.e.globalByID[id] = g
	return mkCtor("ptr", SRef, mkInt(id), pnil)
}

func (c *Ctx) fnTerm(fn *ssa.Function, binds []Val, bound []Val) *Term {
	if binds == nil && bound == nil {
		if id, ok := c.fnIDs[fn]; ok {
			return mkInt(id)
		}
	}
	c.nfn++
	id := int64(1)<<40 + c.nfn
	c.fnTable[id] = &fnVal{fn: fn, binds: binds, bound: bound, name: fn.String()}
	if binds == nil && bound == nil {
		c.fnIDs[fn] = id
	}
	return mkInt(id)
}

func (c *Ctx) alloc(st *State) int64 {
	id := st.ctr
	st.ctr++
	return id
}

// ---------- instructions ----------

func (a *act) must(st *State, cond *Term, what string, pos token.Pos) {
	if cond == tTrue {
		return
	}
	if simplifyUnder(st.pc, cond) == tTrue {
		return
	}
	if c := a.c; c.unit.contract.Panics != nil && !c.initing && c.goDepth == 0 && c.inRun == 0 {
		// panics are allowed as far as the contract says
		a.explicitPanic(st.with(mkNot(cond)), anil, pos)
		st.pc = mkAnd(st.pc, cond)
		return
	}
	a.c.oblige(st, "panic", a.c.unit.Name+"/no-panic:"+shortFn(a.fn)+":"+what, a.c.unit.Safety, cond, pos)
}

func (a *act) runInstrs(b *ssa.BasicBlock, st *State) {
	c := a.c
	for _, in := range b.Instrs {
		c.steps++
		if c.steps > 3000000 {
			panic(unsupported("step limit"))
		}
		if st.pc == tFalse {
			return
		}
		switch x := in.(type) {
		case *ssa.Phi:
		case *ssa.DebugRef:
		case *ssa.Alloc:
			a.env[x] = a.doAlloc(st, x)
		case *ssa.BinOp:
			a.env[x] = a.binop(st, x.Op, x.X, x.Y, x.Type(), x.Pos())
		case *ssa.UnOp:
			a.env[x] = a.unop(st, x)
		case *ssa.ChangeType:
			a.env[x] = a.val(x.X, st)
			if t, ok := a.env[x].(*Term); ok {
				a.env[x] = c.convStruct(t, x.X.Type(), x.Type())
			}
		case *ssa.ChangeInterface:
			a.env[x] = a.val(x.X, st)
			// the dynamic type of a value implements its static type
			if it, ok := x.X.Type().Underlying().(*types.Interface); ok && it.NumMethods() > 0 && a.c.e.isRepoType(x.X.Type()) {
				if t, ok := a.env[x].(*Term); ok && t.op != "ctor" {
					a.c.assume(st, mkOr(mkIs("anil", t), a.c.implementsTerm(t, x.X.Type())))
				}
			}
		case *ssa.Convert:
			a.env[x] = a.convert(st, a.val(x.X, st), x.X.Type(), x.Type())
		case *ssa.MakeInterface:
			a.env[x] = a.makeIface(st, a.val(x.X, st), x.X.Type())
		case *ssa.MakeClosure:
			var bs []Val
			for _, bnd := range x.Bindings {
				bs = append(bs, a.val(bnd, st))
			}
			fn := x.Fn.(*ssa.Function)
			a.env[x] = c.fnTerm(fn, bs, nil)
		case *ssa.MakeMap:
			id := mkInt(c.alloc(st))
			mt := x.Type().Underlying().(*types.Map)
			_, ds, _, _ := c.e.mapKeys(mt)
			c.setMap(st, mt, id, mkConstArr(ds.Elem, tFalse), nil)
			if x.Reserve != nil {
				// negative size hint panics only for make with explicit negative constants; runtime treats hint
				_ = x.Reserve
			}
			a.env[x] = id
		case *ssa.MakeChan:
			id := mkInt(c.alloc(st))
			if x.Size != nil {
				sz := a.term(x.Size, st)
				a.must(st, mkLe(mkInt(0), sz), "makechan-size", x.Pos())
				c.setGhostMap(st, "$chcap", id, sz)
			}
			c.setGhostMapB(st, "$chclosed", id, tFalse)
			a.env[x] = id
		case *ssa.MakeSlice:
			et := x.Type().Underlying().(*types.Slice).Elem()
			ln, cp := a.term(x.Len, st), a.term(x.Cap, st)
			a.must(st, mkAnd(mkLe(mkInt(0), ln), mkLe(ln, cp)), "makeslice-len", x.Pos())
			id := mkInt(c.alloc(st))
			c.setElems(st, et, id, mkConstArr(ArraySort(SInt, sortOf(et)), zeroVal(et)))
			a.env[x] = mkCtor("mkslice", SSlice, id, mkInt(0), ln, cp)
		case *ssa.Slice:
			a.env[x] = a.slice(st, x)
		case *ssa.FieldAddr:
			a.env[x] = a.fieldAddr(st, x)
		case *ssa.Field:
			v := a.term(x.X, st)
			s := sortOf(x.X.Type())
			ft := x.X.Type().Underlying().(*types.Struct).Field(x.Field).Type()
			a.env[x] = c.norm(st, mkSel(s.Fields[x.Field].Name, s.Fields[x.Field].Sort, v), ft)
		case *ssa.IndexAddr:
			a.env[x] = a.indexAddr(st, x)
		case *ssa.Index:
			v := a.val(x.X, st)
			i := a.term(x.Index, st)
			if t, ok := v.(*Term); ok && t.sort.Kind == "array" {
				at := x.X.Type().Underlying().(*types.Array)
				a.must(st, mkAnd(mkLe(mkInt(0), i), mkLt(i, mkInt(at.Len()))), "index", x.Pos())
				a.env[x] = mkSelect(t, i)
			} else {
				// string index
				s := v.(*Term)
				a.must(st, mkAnd(mkLe(mkInt(0), i), mkLt(i, c.strLen(s))), "index", x.Pos())
				r := mkApp("strbyte", SInt, s, i)
				c.fact(mkAnd(mkLe(mkInt(0), r), mkLe(r, mkInt(255))))
				a.env[x] = r
			}
		case *ssa.Lookup:
			a.env[x] = a.lookup(st, x)
		case *ssa.MapUpdate:
			a.mapUpdate(st, a.term(x.Map, st), x.Map.Type(), a.val(x.Key, st), a.val(x.Value, st), x.Pos())
		case *ssa.Range:
			a.env[x] = a.mkIter(st, x)
		case *ssa.Next:
			a.env[x] = a.next(st, x)
		case *ssa.TypeAssert:
			a.env[x] = a.typeAssert(st, x)
		case *ssa.Extract:
			t, ok := a.val(x.Tuple, st).(Tuple)
			if !ok {
				panic(unsupported("extract from non tuple"))
			}
			a.env[x] = t[x.Index]
		case *ssa.Store:
			a.storeTo(st, a.val(x.Addr, st), x.Addr.Type(), a.val(x.Val, st), x.Pos(), x.Addr)
		case *ssa.Call:
			res := a.call(st, &x.Call, x, x.Pos())
			if st.pc == tFalse {
				return
			}
			switch len(res) {
			case 0:
				a.env[x] = Tuple{}
			case 1:
				if _, ok := x.Type().(*types.Tuple); ok {
					a.env[x] = Tuple(res)
				} else {
					a.env[x] = res[0]
				}
			default:
				a.env[x] = Tuple(res)
			}
		case *ssa.Go:
			a.doGo(st, x)
		case *ssa.Defer:
			d := deferredCall{pc: st.pc, instr: x}
			for _, ar := range x.Call.Args {
				d.args = append(d.args, a.val(ar, st))
			}
			if _, isB := x.Call.Value.(*ssa.Builtin); !isB {
				d.fnv = a.val(x.Call.Value, st)
			}
			a.defers = append(a.defers, d)
		case *ssa.RunDefers:
			a.runDefers(st, a.defers)
		case *ssa.Panic:
			v := a.val(x.X, st)
			a.explicitPanic(st, v, x.Pos())
			return
		case *ssa.Return:
			var vs []Val
			for _, r := range x.Results {
				vs = append(vs, a.val(r, st))
			}
			a.rets = append(a.rets, exit{st, vs, x.Pos()})
			return
		case *ssa.Jump:
			a.pushEdge(b, 0, st)
			return
		case *ssa.If:
			cond := simplifyUnder(st.pc, a.term(x.Cond, st))
			if cond == tTrue {
				a.pushEdge(b, 0, st)
			} else if cond == tFalse {
				a.pushEdge(b, 1, st)
			} else {
				a.pushEdge(b, 0, st.with(cond))
				s2 := st
				s2.pc = mkAnd(st.pc, mkNot(cond))
				a.pushEdge(b, 1, s2)
			}
			return
		case *ssa.Send:
			a.chanSend(st, a.term(x.Chan, st), a.val(x.X, st), x.Chan.Type(), true, x.Pos())
		case *ssa.Select:
			a.env[x] = a.doSelect(st, x)
		default:
			panic(unsupported(fmt.Sprintf("instruction %T in %s", in, a.fn)))
		}
	}
}

func (a *act) explicitPanic(st *State, v Val, pos token.Pos) {
	// run deferred calls, then leave
	a.c.panicking++
	a.runDefers(st, a.defers)
	a.c.panicking--
	a.panics = append(a.panics, exit{st, []Val{v}, pos})
}

func (a *act) runDefers(st *State, ds []deferredCall) {
	for i := len(ds) - 1; i >= 0; i-- {
		d := ds[i]
		// executed only when registered on this path
		cond := mkAnd(conjDiff(d.pc, st.pc)...)
		cond = simplifyUnder(st.pc, cond)
		if cond == tFalse || mkAnd(st.pc, cond) == tFalse {
			continue
		}
		if cond == tTrue {
			a.callVals(st, &d.instr.Call, d.args, d.fnv, nil, d.instr.Pos())
			continue
		}
		s1 := st.with(cond)
		s2 := st.with(mkNot(cond))
		a.callVals(s1, &d.instr.Call, d.args, d.fnv, nil, d.instr.Pos())
		var live []*State
		for _, s := range []*State{s1, s2} {
			if s.pc != tFalse {
				live = append(live, s)
			}
		}
		if len(live) == 0 {
			st.pc = tFalse
			return
		}
		m, _ := a.c.mergeStates(live)
		*st = *m
	}
}

// conjDiff: conjuncts of p not present in q
func conjDiff(p, q *Term) []*Term {
	has := map[int]bool{}
	for _, c := range conjuncts(q) {
		has[c.id] = true
	}
	var out []*Term
	for _, c := range conjuncts(p) {
		if !has[c.id] {
			out = append(out, c)
		}
	}
	return out
}

func (a *act) doAlloc(st *State, x *ssa.Alloc) Val {
	t := x.Type().Underlying().(*types.Pointer).Elem()
	if isReflectValue(t) {
		return &RVCell{v: &RV{invalid: true}}
	}
	id := a.c.alloc(st)
	p := mkCtor("ptr", SRef, mkInt(id), pnil)
	a.c.store(st, p, t, zeroVal(t))
	return p
}

func (c *Ctx) convStruct(t *Term, from, to types.Type) *Term {
	fs, ts := sortOf(from), sortOf(to)
	if fs == ts {
		return t
	}
	if fs.Kind == "struct" && ts.Kind == "struct" {
		var args []*Term
		for i := range fs.Fields {
			args = append(args, mkSel(fs.Fields[i].Name, fs.Fields[i].Sort, t))
		}
		return mkStruct(ts, args...)
	}
	panic(unsupported("changetype " + from.String() + " to " + to.String()))
}

func (a *act) fieldAddr(st *State, x *ssa.FieldAddr) Val {
	v := a.val(x.X, st)
	pt := x.X.Type().Underlying().(*types.Pointer).Elem()
	ft := pt.Underlying().(*types.Struct).Field(x.Field).Type()
	switch p := v.(type) {
	case *Term:
		a.must(st, mkNot(mkEq(mkSel("root", SInt, p), mkInt(0))), "nil-deref", x.Pos())
		r := fieldRef(p, x.Field)
		a.c.noteField(r, pt, x.Field, p)
		return r
	case *LV:
		return &LV{arr: p.arr, idx: p.idx, elem: p.elem, path: append(append([]int{}, p.path...), x.Field), typ: ft}
	}
	panic(unsupported(fmt.Sprintf("fieldaddr on %T", v)))
}

func (c *Ctx) simpRef(p *Term) *Term { return p }

func (a *act) indexAddr(st *State, x *ssa.IndexAddr) Val {
	i := a.term(x.Index, st)
	v := a.val(x.X, st)
	switch u := x.X.Type().Underlying().(type) {
	case *types.Slice:
		s := v.(*Term)
		ln := mkSel("s-len", SInt, s)
		a.must(st, mkAnd(mkLe(mkInt(0), i), mkLt(i, ln)), "index", x.Pos())
		return &LV{arr: mkSel("s-arr", SInt, s), idx: mkAdd(mkSel("s-off", SInt, s), i), elem: u.Elem(), typ: u.Elem()}
	case *types.Pointer:
		at := u.Elem().Underlying().(*types.Array)
		a.must(st, mkAnd(mkLe(mkInt(0), i), mkLt(i, mkInt(at.Len()))), "index", x.Pos())
		p, ok := v.(*Term)
		if !ok {
			panic(unsupported("index of array element pointer"))
		}
		return &LV{arr: mkSel("root", SInt, p), idx: i, elem: at.Elem(), typ: at.Elem()}
	}
	panic(unsupported("indexaddr"))
}

func (a *act) loadFrom(st *State, addr Val, t types.Type, pos token.Pos, via ssa.Value) Val {
	c := a.c
	switch p := addr.(type) {
	case *Term:
		a.must(st, mkNot(mkEq(mkSel("root", SInt, p), mkInt(0))), "nil-deref", pos)
		a.checkGuard(st, p, t, false, pos)
		if isReflectValue(t) {
			panic(unsupported("reflect.Value loaded from memory"))
		}
		if c.hasVolatile(p) {
			// unguarded shared memory: value may change between reads
		}
		v := c.load(st, p, t)
		a.noteProv(st, p, t, v, via)
		return v
	case *LV:
		v := c.loadLV(st, p)
		if fa := elemProv(c, p); fa != "" {
			c.prov[v.id] = fa
		}
		return v
	case *RVCell:
		return p.v
	}
	panic(unsupported(fmt.Sprintf("load from %T", addr)))
}

func elemProv(c *Ctx, p *LV) string {
	if p.arr.op == "sel" {
		if pr, ok := c.prov[p.arr.args[0].id]; ok && len(p.path) == 0 {
			return pr + "[]"
		}
	}
	return ""
}

func (c *Ctx) hasVolatile(p *Term) bool { return false }

func (a *act) storeTo(st *State, addr Val, at types.Type, v Val, pos token.Pos, via ssa.Value) {
	t := at.Underlying().(*types.Pointer).Elem()
	switch p := addr.(type) {
	case *Term:
		a.must(st, mkNot(mkEq(mkSel("root", SInt, p), mkInt(0))), "nil-deref", pos)
		a.checkGuard(st, p, t, true, pos)
		tv, ok := v.(*Term)
		if !ok {
			if rv, ok := v.(*RV); ok {
				tv = a.c.rvTerm(st, rv)
			} else {
				panic(unsupported(fmt.Sprintf("store of %T to memory", v)))
			}
		}
		a.c.store(st, p, t, tv)
		return
	case *LV:
		tv, ok := v.(*Term)
		if !ok {
			if rv, ok := v.(*RV); ok {
				tv = a.c.rvTerm(st, rv)
			} else {
				panic(unsupported(fmt.Sprintf("store of %T to slice element", v)))
			}
		}
		a.c.checkWhole(tv, p.typ)
		a.c.storeLV(st, p, tv)
		return
	case *RVCell:
		p.v = v.(*RV)
		return
	}
	panic(unsupported(fmt.Sprintf("store to %T", addr)))
}

func (a *act) unop(st *State, x *ssa.UnOp) Val {
	switch x.Op {
	case token.MUL:
		t := x.X.Type().Underlying().(*types.Pointer).Elem()
		return a.loadFrom(st, a.val(x.X, st), t, x.Pos(), x.X)
	case token.NOT:
		return mkNot(a.term(x.X, st))
	case token.SUB:
		v := a.term(x.X, st)
		if v.sort == SReal {
			return fresh("neg", SReal)
		}
		return a.c.wrap(mkSub(mkInt(0), v), x.Type())
	case token.XOR:
		v := a.term(x.X, st)
		if v.op == "int" {
			return a.c.wrap(mkBig(new(big.Int).Not(v.big)), x.Type())
		}
		return a.c.bitop("bvnot", x.Type(), v)
	case token.ARROW:
		return a.chanRecv(st, a.term(x.X, st), x.X.Type(), x.CommaOk, x.Pos())
	}
	panic(unsupported("unop " + x.Op.String()))
}

func (c *Ctx) bitop(name string, t types.Type, args ...*Term) *Term {
	r := mkApp(name+"_"+sanitize(types.TypeString(t.Underlying(), nil)), SInt, args...)
	if lo, hi, ok := intRange(t); ok && !r.hasBV {
		c.fact(mkAnd(mkLe(bigLit(lo), r), mkLe(r, bigLit(hi))))
	}
	return r
}

// wrap reduces a mathematical sum/difference to the range of machine type t.
func (c *Ctx) wrap(v *Term, t types.Type) *Term {
	lo, hi, ok := intRange(t)
	if !ok {
		return v
	}
	L, H := newBig(lo), newBig(hi)
	mod := new(big.Int).Add(new(big.Int).Sub(H, L), big.NewInt(1))
	if v.op == "int" {
		r := new(big.Int).Sub(v.big, L)
		r.Mod(r, mod)
		r.Add(r, L)
		return mkBig(r)
	}
	return mkIte(mkLe(v, mkBig(H)), mkIte(mkLe(mkBig(L), v), v, mkAdd(v, mkBig(mod))), mkSub(v, mkBig(mod)))
}

// wrapMod reduces any integer to the range of t exactly.
func (c *Ctx) wrapMod(v *Term, t types.Type) *Term {
	lo, hi, ok := intRange(t)
	if !ok {
		return v
	}
	if v.op == "int" {
		return c.wrap(v, t)
	}
	L, H := newBig(lo), newBig(hi)
	mod := new(big.Int).Add(new(big.Int).Sub(H, L), big.NewInt(1))
	in := mkAnd(mkLe(mkBig(L), v), mkLe(v, mkBig(H)))
	m := mkAdd(mk("mod", "", SInt, mkSub(v, mkBig(L)), mkBig(mod)), mkBig(L))
	return mkIte(in, v, m)
}

func bitName(op token.Token) string {
	return map[token.Token]string{token.AND: "and", token.OR: "or", token.XOR: "xor", token.SHL: "shl", token.SHR: "shr", token.AND_NOT: "andnot"}[op]
}

// incr wraps v+k for loop-counter like values without producing ites when bounded.
func (a *act) binop(st *State, op token.Token, X, Y ssa.Value, rt types.Type, pos token.Pos) Val {
	xv, yv := a.val(X, st), a.val(Y, st)
	return a.binopV(st, op, xv, yv, X.Type(), Y.Type(), rt, pos)
}

func isNilConst(v *Term, s *Sort) bool { return false }

func (a *act) binopV(st *State, op token.Token, xv, yv Val, xt, yt, rt types.Type, pos token.Pos) Val {
	c := a.c
	if op == token.EQL || op == token.NEQ {
		r := a.equal(st, xv, yv, xt, yt, pos)
		if op == token.NEQ {
			r = mkNot(r)
		}
		return r
	}
	x, ok1 := xv.(*Term)
	y, ok2 := yv.(*Term)
	if !ok1 || !ok2 {
		panic(unsupported(fmt.Sprintf("binop %s on %T,%T", op, xv, yv)))
	}
	if x.sort == SStr {
		switch op {
		case token.ADD:
			return c.concat(x, y)
		case token.LSS:
			return c.strLess(x, y)
		case token.GTR:
			return c.strLess(y, x)
		case token.LEQ:
			return mkNot(c.strLess(y, x))
		case token.GEQ:
			return mkNot(c.strLess(x, y))
		}
	}
	if x.sort == SReal {
		switch op {
		case token.LSS, token.LEQ, token.GTR, token.GEQ:
			return fresh("fcmp", SBool)
		}
		return fresh("fop", SReal)
	}
	switch op {
	case token.ADD:
		return c.wrapPC(st, mkAdd(x, y), rt)
	case token.SUB:
		return c.wrapPC(st, mkSub(x, y), rt)
	case token.MUL:
		m := mkMul(x, y)
		if m.op == "int" {
			return c.wrap(m, rt)
		}
		if x.op == "int" || y.op == "int" {
			return c.wrapMod(m, rt)
		}
		return c.bitop("mul", rt, x, y)
	case token.QUO, token.REM:
		a.must(st, mkNot(mkEq(y, mkInt(0))), "div-zero", pos)
		if x.op == "int" && y.op == "int" && y.big.Sign() != 0 {
			if op == token.QUO {
				return c.wrap(mkBig(new(big.Int).Quo(x.big, y.big)), rt)
			}
			return mkBig(new(big.Int).Rem(x.big, y.big))
		}
		if y.op == "int" && y.big.Sign() > 0 {
			pos := mk("div", "", SInt, x, y)
			neg := mkSub(mkInt(0), mk("div", "", SInt, mkSub(mkInt(0), x), y))
			q := mkIte(mkLe(mkInt(0), x), pos, neg)
			if op == token.QUO {
				return q
			}
			return mkSub(x, mkMul(q, y))
		}
		return c.bitop(map[token.Token]string{token.QUO: "quo", token.REM: "rem"}[op], rt, x, y)
	case token.LSS:
		return mkLt(x, y)
	case token.LEQ:
		return mkLe(x, y)
	case token.GTR:
		return mkLt(y, x)
	case token.GEQ:
		return mkLe(y, x)
	case token.AND, token.OR, token.XOR, token.SHL, token.SHR, token.AND_NOT:
		if x.sort == SBool {
			switch op {
			case token.AND:
				return mkAnd(x, y)
			case token.OR:
				return mkOr(x, y)
			}
		}
		if x.op == "int" && y.op == "int" {
			r := new(big.Int)
			switch op {
			case token.AND:
				r.And(x.big, y.big)
			case token.OR:
				r.Or(x.big, y.big)
			case token.XOR:
				r.Xor(x.big, y.big)
			case token.AND_NOT:
				r.AndNot(x.big, y.big)
			case token.SHL:
				r.Lsh(x.big, uint(y.big.Uint64()))
			case token.SHR:
				r.Rsh(x.big, uint(y.big.Uint64()))
			}
			return c.wrap(mkBig(r), rt)
		}
		return c.bitop("bit"+bitName(op), rt, x, y)
	}
	panic(unsupported("binop " + op.String()))
}

// wrapPC wraps, using bounds known syntactically.
func (c *Ctx) wrapPC(st *State, v *Term, t types.Type) *Term {
	return c.wrap(v, t)
}

func (a *act) equal(st *State, xv, yv Val, xt, yt types.Type, pos token.Pos) *Term {
	c := a.c
	x, ok1 := xv.(*Term)
	y, ok2 := yv.(*Term)
	if !ok1 || !ok2 {
		panic(unsupported(fmt.Sprintf("comparison of %T and %T", xv, yv)))
	}
	xi, yi := types.IsInterface(xt), types.IsInterface(yt)
	if xi != yi {
		// mixed comparison: box the concrete one (nil constants are typed already)
		if !xi {
			x = mkBox(xt, x)
		} else {
			y = mkBox(yt, y)
		}
		xi = true
	}
	if xi {
		if x != anil && y != anil {
			// run-time panic when both hold the same uncomparable type
			ok := mkOr(c.anyCmp(x), mkNot(mkEq(tyidTerm(x), tyidTerm(y))))
			a.must(st, ok, "compare-uncomparable", pos)
		}
		return mkEq(x, y)
	}
	switch xt.Underlying().(type) {
	case *types.Slice:
		if y == nilSlice {
			return mkEq(mkSel("s-arr", SInt, x), mkInt(0))
		}
		if x == nilSlice {
			return mkEq(mkSel("s-arr", SInt, y), mkInt(0))
		}
	case *types.Pointer:
		if y == nilRef {
			return mkEq(mkSel("root", SInt, x), mkInt(0))
		}
		if x == nilRef {
			return mkEq(mkSel("root", SInt, y), mkInt(0))
		}
	}
	return mkEq(x, y)
}

// anyCmp: the dynamic value is comparable (hashable)
func (c *Ctx) anyCmp(x *Term) *Term {
	if x.op == "ctor" {
		switch x.name {
		case "anil":
			return tTrue
		case "aother":
			return mkApp("cmp_other", SBool, x.args[0])
		}
		return c.comparableVal(boxByCtor[x.name].typ, x.args[0])
	}
	if x.op == "ite" {
		return mkIte(x.args[0], c.anyCmp(x.args[1]), c.anyCmp(x.args[2]))
	}
	if _, ok := ufAxioms["anycmp"]; !ok {
		ufAxioms["anycmp"] = func() []*Term {
			var out []*Term
			x := mkBV("x", SAny)
			ac := mkApp("anycmp", SBool, x)
			for _, b := range anyBoxes {
				bi := boxByCtor[b]
				if !types.Comparable(bi.typ) {
					out = append(out, mkForall([]*Term{x}, mkImp(mkIs(b, x), mkNot(ac)), []*Term{ac}))
				} else if strictlyComparable(bi.typ) {
					out = append(out, mkForall([]*Term{x}, mkImp(mkIs(b, x), ac), []*Term{ac}))
				}
			}
			out = append(out, mkForall([]*Term{x}, mkImp(mkIs("anil", x), ac), []*Term{ac}))
			return out
		}
	}
	return mkApp("anycmp", SBool, x)
}

func (c *Ctx) comparableVal(t types.Type, v *Term) *Term {
	if !types.Comparable(t) {
		return tFalse
	}
	if strictlyComparable(t) {
		return tTrue
	}
	return mkApp("cmpval_"+boxOf(t).name, SBool, v)
}

func strictlyComparable(t types.Type) bool {
	t = types.Unalias(t)
	if opaqueSort(t) != nil {
		return true
	}
	switch u := t.Underlying().(type) {
	case *types.Interface:
		return false
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if !strictlyComparable(u.Field(i).Type()) {
				return false
			}
		}
		return true
	case *types.Array:
		return strictlyComparable(u.Elem())
	case *types.Slice, *types.Map, *types.Signature:
		return false
	}
	return true
}

func (c *Ctx) makeIfaceT(v Val, t types.Type, st *State) *Term {
	tv, ok := v.(*Term)
	if !ok {
		switch x := v.(type) {
		case *RV:
			// boxed reflect.Value (e.g. for formatting): opaque
			return mkCtor("aother", SAny, mkInt(999), fresh("rv", SInt))
		default:
			panic(unsupported(fmt.Sprintf("interface of %T", x)))
		}
	}
	c.checkWhole(tv, t)
	return mkBox(t, tv)
}

func (a *act) makeIface(st *State, v Val, t types.Type) Val { return a.c.makeIfaceT(v, t, st) }

func (a *act) convert(st *State, v Val, from, to types.Type) Val {
	c := a.c
	x, ok := v.(*Term)
	if !ok {
		if types.Identical(from.Underlying(), to.Underlying()) {
			return v
		}
		panic(unsupported("convert"))
	}
	fs, ts := sortOf(from), sortOf(to)
	fb, _ := from.Underlying().(*types.Basic)
	tb, _ := to.Underlying().(*types.Basic)
	if fb != nil && tb != nil {
		if fs == SInt && ts == SInt {
			return c.wrapMod(x, to)
		}
		if fs == SStr && ts == SStr {
			return x
		}
		if fs == SInt && ts == SStr {
			return mkApp("str_of_rune", SStr, x)
		}
		if fs == SReal || ts == SReal {
			r := fresh("fconv", ts)
			if ts == SInt {
				return c.norm(st, r, to)
			}
			return r
		}
	}
	if fs == SStr && ts == SSlice { // []byte(s)
		id := mkInt(c.alloc(st))
		et := to.Underlying().(*types.Slice).Elem()
		arr := mkApp("str_bytes", ArraySort(SInt, SInt), x)
		c.setElems(st, et, id, arr)
		ln := c.strLen(x)
		return mkCtor("mkslice", SSlice, id, mkInt(0), ln, ln)
	}
	if fs == SSlice && ts == SStr {
		et := from.Underlying().(*types.Slice).Elem()
		return c.bytesToStr(st, et, x)
	}
	if fs == ts {
		return x
	}
	panic(unsupported("convert " + from.String() + " to " + to.String()))
}

func (c *Ctx) bytesToStr(st *State, et types.Type, s *Term) *Term {
	arr := c.elems(st, et, mkSel("s-arr", SInt, s))
	off, ln := mkSel("s-off", SInt, s), mkSel("s-len", SInt, s)
	if arr.op == "app" && arr.name == "str_bytes" && off.op == "int" && off.big.Sign() == 0 && ln == c.strLen(arr.args[0]) {
		return arr.args[0]
	}
	return mkApp("bytes_str", SStr, arr, off, ln)
}

func (c *Ctx) strLen(s *Term) *Term {
	if s.op == "strlit" {
		return mkInt(int64(len(s.name)))
	}
	r := mkApp("strlen", SInt, s)
	if _, ok := ufAxioms["strlen"]; !ok {
		ufAxioms["strlen"] = func() []*Term {
			x := mkBV("x", SStr)
			l := mkApp("strlen", SInt, x)
			return []*Term{
				mkForall([]*Term{x}, mkAnd(mkLe(mkInt(0), l), mkLe(l, bigLit("140737488355328"))), []*Term{l}),
				mkForall([]*Term{x}, mkImp(mkEq(l, mkInt(0)), mkEq(x, mkStr(""))), []*Term{l}),
				mkEq(mkApp("strlen", SInt, mkStr("")), mkInt(0)),
			}
		}
	}
	return r
}

func (c *Ctx) concat(a, b *Term) *Term {
	if a.op == "strlit" && b.op == "strlit" {
		return mkStr(a.name + b.name)
	}
	if a.op == "strlit" && a.name == "" {
		return b
	}
	if b.op == "strlit" && b.name == "" {
		return a
	}
	if b.op == "app" && b.name == "cat" && a.op == "strlit" && b.args[0].op == "strlit" {
		return c.concat(mkStr(a.name+b.args[0].name), b.args[1])
	}
	if a.op == "app" && a.name == "cat" && b.op == "strlit" && a.args[1].op == "strlit" {
		return c.concat(a.args[0], mkStr(a.args[1].name+b.name))
	}
	if _, ok := ufAxioms["cat"]; !ok {
		ufAxioms["cat"] = func() []*Term {
			x, y, z := mkBV("x", SStr), mkBV("y", SStr), mkBV("z", SStr)
			xy := mkApp("cat", SStr, x, y)
			xz := mkApp("cat", SStr, x, z)
			zy := mkApp("cat", SStr, z, y)
			return []*Term{
				mkForall([]*Term{x, y, z}, mkImp(mkEq(xy, xz), mkEq(y, z)), []*Term{xy, xz}),
				mkForall([]*Term{x, y, z}, mkImp(mkEq(xy, zy), mkEq(x, z)), []*Term{xy, zy}),
			}
		}
	}
	return mkApp("cat", SStr, a, b)
}

// string order: an injective embedding into the reals (any countable total order embeds)
func (c *Ctx) strLess(a, b *Term) *Term {
	if a.op == "strlit" && b.op == "strlit" {
		return mkBool(a.name < b.name)
	}
	if a == b {
		return tFalse
	}
	if _, ok := ufAxioms["sord"]; !ok {
		ufAxioms["sord"] = func() []*Term {
			x, y := mkBV("x", SStr), mkBV("y", SStr)
			sx, sy := mkApp("sord", SReal, x), mkApp("sord", SReal, y)
			return []*Term{mkForall([]*Term{x, y}, mkImp(mkEq(sx, sy), mkEq(x, y)), []*Term{sx, sy})}
		}
	}
	return mk("<", "", SBool, mkApp("sord", SReal, a), mkApp("sord", SReal, b))
}

func (a *act) slice(st *State, x *ssa.Slice) Val {
	c := a.c
	v := a.val(x.X, st)
	idx := func(y ssa.Value, def *Term) *Term {
		if y == nil {
			return def
		}
		return a.term(y, st)
	}
	switch u := x.X.Type().Underlying().(type) {
	case *types.Slice:
		s := v.(*Term)
		ln, cp, off := mkSel("s-len", SInt, s), mkSel("s-cap", SInt, s), mkSel("s-off", SInt, s)
		lo, hi, mx := idx(x.Low, mkInt(0)), idx(x.High, ln), idx(x.Max, cp)
		a.must(st, mkAnd(mkLe(mkInt(0), lo), mkLe(lo, hi), mkLe(hi, mx), mkLe(mx, cp)), "slice-bounds", x.Pos())
		return mkCtor("mkslice", SSlice, mkSel("s-arr", SInt, s), mkAdd(off, lo), mkSub(hi, lo), mkSub(mx, lo))
	case *types.Pointer:
		at := u.Elem().Underlying().(*types.Array)
		n := mkInt(at.Len())
		p, ok := v.(*Term)
		if !ok {
			panic(unsupported("slice of array element"))
		}
		lo, hi, mx := idx(x.Low, mkInt(0)), idx(x.High, n), idx(x.Max, n)
		a.must(st, mkAnd(mkLe(mkInt(0), lo), mkLe(lo, hi), mkLe(hi, mx), mkLe(mx, n)), "slice-bounds", x.Pos())
		return mkCtor("mkslice", SSlice, mkSel("root", SInt, p), lo, mkSub(hi, lo), mkSub(mx, lo))
	case *types.Basic:
		s := v.(*Term)
		ln := c.strLen(s)
		lo, hi := idx(x.Low, mkInt(0)), idx(x.High, ln)
		a.must(st, mkAnd(mkLe(mkInt(0), lo), mkLe(lo, hi), mkLe(hi, ln)), "slice-bounds", x.Pos())
		if s.op == "strlit" && lo.op == "int" && hi.op == "int" {
			return mkStr(s.name[lo.big.Int64():hi.big.Int64()])
		}
		return mkApp("substr", SStr, s, lo, hi)
	}
	panic(unsupported("slice expr"))
}

func (a *act) keyTerm(st *State, k Val) *Term {
	t, ok := k.(*Term)
	if !ok {
		panic(unsupported("map key"))
	}
	return t
}

func (a *act) lookup(st *State, x *ssa.Lookup) Val {
	c := a.c
	mt, ok := x.X.Type().Underlying().(*types.Map)
	if !ok {
		s := a.term(x.X, st)
		i := a.term(x.Index, st)
		a.must(st, mkAnd(mkLe(mkInt(0), i), mkLt(i, c.strLen(s))), "index", x.Pos())
		r := mkApp("strbyte", SInt, s, i)
		c.fact(mkAnd(mkLe(mkInt(0), r), mkLe(r, mkInt(255))))
		return r
	}
	m := a.term(x.X, st)
	k := a.keyTerm(st, a.val(x.Index, st))
	v, in := a.mapGet(st, mt, m, k, x.Pos())
	if x.CommaOk {
		return Tuple{v, in}
	}
	return v
}

func (a *act) mapGet(st *State, mt *types.Map, m, k *Term, pos token.Pos) (*Term, *Term) {
	c := a.c
	if types.IsInterface(mt.Key()) {
		a.must(st, c.anyCmp(k), "map-key-unhashable", pos)
	}
	a.checkMapGuard(st, m, false, pos)
	in := simplifyUnder(st.pc, mkSelect(c.mapDom(st, mt, m), k))
	v := mkSelect(c.mapVals(st, mt, m), k)
	v = c.norm(st, v, mt.Elem())
	r := mkIte(in, v, zeroVal(mt.Elem()))
	a.noteMapProv(st, m, v)
	if r != v {
		a.noteMapProv(st, m, r)
	}
	return r, in
}

func (a *act) mapUpdate(st *State, m *Term, t types.Type, k, v Val, pos token.Pos) {
	c := a.c
	mt := t.Underlying().(*types.Map)
	kt := a.keyTerm(st, k)
	vt, ok := v.(*Term)
	if !ok {
		panic(unsupported("map value"))
	}
	a.must(st, mkNot(mkEq(m, mkInt(0))), "nil-map-write", pos)
	if types.IsInterface(mt.Key()) {
		a.must(st, c.anyCmp(kt), "map-key-unhashable", pos)
	}
	a.checkMapGuard(st, m, true, pos)
	c.checkWhole(vt, mt.Elem())
	c.setMap(st, mt, m, mkStore(c.mapDom(st, mt, m), kt, tTrue), mkStore(c.mapVals(st, mt, m), kt, vt))
}

func (a *act) mapDelete(st *State, m *Term, t types.Type, k Val, pos token.Pos) {
	c := a.c
	mt := t.Underlying().(*types.Map)
	kt := a.keyTerm(st, k)
	if types.IsInterface(mt.Key()) {
		a.must(st, c.anyCmp(kt), "map-key-unhashable", pos)
	}
	a.checkMapGuard(st, m, true, pos)
	if m.op == "int" && m.big.Sign() == 0 {
		return
	}
	// deleting from a nil map is a no-op; nil map's domain stays empty
	dom := c.mapDom(st, mt, m)
	nd := mkStore(dom, kt, tFalse)
	nd = mkIte(mkEq(m, mkInt(0)), dom, nd)
	c.setMap(st, mt, m, nd, nil)
}

// ---------- map iteration ----------

func (a *act) mkIter(st *State, x *ssa.Range) Val {
	c := a.c
	c.oblNames["iter:"+a.key]++
	key := fmt.Sprintf("$it:%s:%d", a.key, c.oblNames["iter:"+a.key])
	mt, ok := x.X.Type().Underlying().(*types.Map)
	if !ok {
		return &Iter{key: key, str: true, m: a.term(x.X, st)}
	}
	m := a.term(x.X, st)
	it := &Iter{key: key, kt: mt.Key(), m: m, mt: mt}
	a.checkMapGuard(st, m, false, x.Pos())
	it.dom0 = c.mapDom(st, mt, m)
	ks := sortOf(mt.Key())
	c.setG(st, key+":V", mkConstArr(ArraySort(ks, SBool), tFalse))
	c.setG(st, key+":n", mkInt(0))
	c.setG(st, key+":k", c.getG(st, key+":k0", ArraySort(SInt, ks)))
	c.setG(st, key+":i", c.getG(st, key+":i0", ArraySort(ks, SInt)))
	return it
}

func (c *Ctx) setG(st *State, k string, v *Term) {
	c.heapSort[k] = v.sort
	st.heaps[k] = v
}
func (c *Ctx) getG(st *State, k string, s *Sort) *Term { return c.heap(st, k, s) }

func (c *Ctx) setGhostMap(st *State, name string, k, v *Term) {
	h := c.heap(st, name, ArraySort(SInt, SInt))
	st.heaps[name] = mkStore(h, k, v)
}
func (c *Ctx) setGhostMapB(st *State, name string, k, v *Term) {
	h := c.heap(st, name, ArraySort(SInt, SBool))
	st.heaps[name] = mkStore(h, k, v)
}

func (a *act) next(st *State, x *ssa.Next) Val {
	c := a.c
	it, ok := a.val(x.Iter, st).(*Iter)
	if !ok {
		panic(unsupported("iterator"))
	}
	okc := fresh("it_ok", SBool)
	if it.str {
		k := c.norm(st, fresh("it_i", SInt), types.Typ[types.Int])
		v := c.norm(st, fresh("it_r", SInt), types.Typ[types.Int32])
		return Tuple{okc, k, v}
	}
	a.checkMapGuard(st, it.m, false, x.Pos())
	ks := sortOf(it.kt)
	V := c.getG(st, it.key+":V", ArraySort(ks, SBool))
	n := c.getG(st, it.key+":n", SInt)
	vk := c.getG(st, it.key+":k", ArraySort(SInt, ks))
	vi := c.getG(st, it.key+":i", ArraySort(ks, SInt))
	dom := c.mapDom(st, it.mt, it.m)
	// concrete maps: a literal chain of present keys lets us unroll only when empty
	if dom.op == "constarr" && dom.args[0] == tFalse {
		return Tuple{tFalse, zeroVal(it.kt), zeroVal(it.mt.Elem())}
	}
	k := c.norm(st, fresh("it_k", ks), it.kt)
	// facts about the iteration so far (true by construction of the ghost state)
	j := mkBV("j", SInt)
	kb := mkBV("k", ks)
	facts := []*Term{
		mkLe(mkInt(0), n),
		mkForall([]*Term{kb}, mkImp(mkSelect(V, kb), mkAnd(mkLe(mkInt(0), mkSelect(vi, kb)), mkLt(mkSelect(vi, kb), n), mkEq(mkSelect(vk, mkSelect(vi, kb)), kb))), []*Term{mkSelect(V, kb)}),
		mkForall([]*Term{j}, mkImp(mkAnd(mkLe(mkInt(0), j), mkLt(j, n)), mkAnd(mkSelect(V, mkSelect(vk, j)), mkEq(mkSelect(vi, mkSelect(vk, j)), j))), []*Term{mkSelect(vk, j)}),
	}
	for _, f := range facts {
		c.assume(st, f)
	}
	s1 := mkImp(okc, mkAnd(mkSelect(dom, k), mkNot(mkSelect(V, k))))
	c.assume(st, s1)
	if types.IsInterface(it.kt) {
		c.assume(st, mkImp(okc, c.anyCmp(k))) // keys of a map are hashable
	}
	// on exhaustion every key present from start to now has been visited
	ex := mkForall([]*Term{kb}, mkImp(mkAnd(mkSelect(it.dom0, kb), mkSelect(dom, kb)), mkSelect(V, kb)), []*Term{mkSelect(dom, kb)}, []*Term{mkSelect(V, kb)})
	if it.dom0 == dom {
		c.assume(st, mkImp(mkNot(okc), mkEq(n, c.card(dom))))
		c.assume(st, mkImp(okc, mkLt(n, c.card(dom))))
	}
	c.assume(st, mkImp(mkNot(okc), ex))
	c.setG(st, it.key+":V", mkIte(okc, mkStore(V, k, tTrue), V))
	c.setG(st, it.key+":n", mkIte(okc, mkAdd(n, mkInt(1)), n))
	c.setG(st, it.key+":k", mkIte(okc, mkStore(vk, n, k), vk))
	c.setG(st, it.key+":i", mkIte(okc, mkStore(vi, k, n), vi))
	v := c.norm(st, mkSelect(c.mapVals(st, it.mt, it.m), k), it.mt.Elem())
	a.noteMapProv(st, it.m, v)
	return Tuple{okc, k, v}
}

// ---------- type assertions ----------

func (a *act) typeAssert(st *State, x *ssa.TypeAssert) Val {
	c := a.c
	v := a.term(x.X, st)
	at := x.AssertedType
	var ok, res *Term
	if types.IsInterface(at) {
		ok = c.implementsTerm(v, at)
		res = v
		zero := anil
		if x.CommaOk {
			ok = simplifyUnder(st.pc, ok)
			return Tuple{mkIte(ok, res, zero), ok}
		}
		a.must(st, ok, "type-assert", x.Pos())
		return res
	}
	if isReflectValue(at) {
		panic(unsupported("type assertion to reflect.Value"))
	}
	ok = simplifyUnder(st.pc, mkIsBox(at, v))
	if x.CommaOk {
		if ok == tFalse {
			return Tuple{zeroVal(at), tFalse}
		}
		res = c.norm(st, mkUnbox(at, v), at)
		return Tuple{mkIte(ok, res, zeroVal(at)), ok}
	}
	a.must(st, ok, "type-assert", x.Pos())
	res = c.norm(st, mkUnbox(at, v), at)
	return res
}

// implementsTerm: dynamic type of v implements interface it
func (c *Ctx) implementsTerm(v *Term, it types.Type) *Term {
	iface := it.Underlying().(*types.Interface)
	if v.op == "ctor" {
		switch v.name {
		case "anil":
			return tFalse
		case "aother":
			if iface.NumMethods() == 0 {
				return tTrue
			}
		default:
			return mkBool(types.Implements(boxByCtor[v.name].typ, iface))
		}
	}
	if v.op == "ite" {
		return mkIte(v.args[0], c.implementsTerm(v.args[1], it), c.implementsTerm(v.args[2], it))
	}
	if iface.NumMethods() == 0 {
		return mkNot(mkIs("anil", v))
	}
	name := "impl_" + sanitize(typeKey(it))
	if _, ok := ufAxioms[name]; !ok {
		ufAxioms[name] = func() []*Term {
			x := mkBV("x", SAny)
			ap := mkApp(name, SBool, x)
			var out []*Term
			for _, b := range anyBoxes {
				bi := boxByCtor[b]
				if isPseudo(bi.typ) {
					continue
				}
				r := ap
				if !types.Implements(bi.typ, iface) {
					r = mkNot(ap)
				}
				out = append(out, mkForall([]*Term{x}, mkImp(mkIs(b, x), r), []*Term{ap}))
			}
			out = append(out, mkNot(mkApp(name, SBool, anil)))
			return out
		}
	}
	return mkApp(name, SBool, v)
}

func (e *Engine) isRepoType(t types.Type) bool {
	n, ok := types.Unalias(t).(*types.Named)
	return ok && n.Obj().Pkg() != nil && e.isRepo(n.Obj().Pkg())
}
