package main

// Program loading, verification units, candidate elimination.

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const modulePath = "github.com/c-kruse/vanflow"

type Engine struct {
	reach        map[string][]string
	touch        map[*LockDecl]map[string]bool
	prog         *ssa.Program
	fset         *token.FileSet
	pkgs         []*packages.Package
	allPkgs      []*types.Package
	repoPkg      map[*types.Package]bool
	globalIDs    map[*ssa.Global]int64
	globalByID   map[int64]*ssa.Global
	loopCache    map[*ssa.Function]*loopForest
	heapElemType map[string]types.Type
	typeMemo     map[string]types.Type
	tctx         *types.Context
	specs        *Specs
	eventIDs     map[string]int64
	fns          map[string]*ssa.Function
	sentOn       map[string]bool
	sentinels    map[*ssa.Global]bool
	constGlob    map[*ssa.Global]bool
	repo         string
}

func loadEngine(repo, contracts string) (e *Engine, err error) {
	e = &Engine{globalIDs: map[*ssa.Global]int64{}, globalByID: map[int64]*ssa.Global{}, loopCache: map[*ssa.Function]*loopForest{}, heapElemType: map[string]types.Type{}, typeMemo: map[string]types.Type{}, tctx: types.NewContext(), eventIDs: map[string]int64{}, fns: map[string]*ssa.Function{}, repoPkg: map[*types.Package]bool{}, repo: repo}
	cfg := &packages.Config{Mode: packages.LoadAllSyntax | packages.NeedModule, Dir: repo, Fset: token.NewFileSet()}
	ps, err := packages.Load(cfg, "./...", "slices", "maps", "cmp")
	if err != nil {
		return nil, err
	}
	for _, p := range ps {
		for _, x := range p.Errors {
			return nil, fmt.Errorf("loading %s: %v", p.PkgPath, x)
		}
	}
	prog, _ := ssautil.AllPackages(ps, ssa.InstantiateGenerics)
	prog.Build()
	e.prog, e.fset, e.pkgs = prog, cfg.Fset, ps
	seen := map[*types.Package]bool{}
	packages.Visit(ps, func(p *packages.Package) bool {
		if p.Types != nil && !seen[p.Types] {
			seen[p.Types] = true
			e.allPkgs = append(e.allPkgs, p.Types)
			if strings.HasPrefix(p.PkgPath, modulePath) {
				e.repoPkg[p.Types] = true
			}
		}
		return true
	}, nil)
	rank := func(p *types.Package) int {
		if e.repoPkg[p] {
			return 0
		}
		if strings.Contains(p.Path(), ".") {
			return 1
		}
		if strings.Contains(p.Path(), "internal") || strings.Contains(p.Path(), "vendor") {
			return 3
		}
		return 2
	}
	sort.SliceStable(e.allPkgs, func(i, j int) bool {
		a, b := e.allPkgs[i], e.allPkgs[j]
		if rank(a) != rank(b) {
			return rank(a) < rank(b)
		}
		return a.Path() < b.Path()
	})
	for fn := range ssautil.AllFunctions(prog) {
		e.fns[shortFn(fn)] = fn
	}
	e.findSentinels()
	e.specs = loadSpecs(contracts)
	return e, nil
}

// findSentinels: package variables of type error (and other variables) that are
// never assigned outside their package's initialisation.
func (e *Engine) findSentinels() {
	e.sentinels = map[*ssa.Global]bool{}
	e.constGlob = map[*ssa.Global]bool{}
	written := map[*ssa.Global]bool{}
	for _, fn := range e.fns {
		isInit := fn.Name() == "init" && fn.Signature.Recv() == nil && fn.Synthetic != ""
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				var rands [10]*ssa.Value
				for _, op := range in.Operands(rands[:0]) {
					g, ok := (*op).(*ssa.Global)
					if !ok {
						continue
					}
					switch x := in.(type) {
					case *ssa.UnOp:
						continue // load
					case *ssa.Store:
						if x.Addr == g && x.Val != g {
							if !isInit {
								written[g] = true
							}
							continue
						}
						written[g] = true
					case *ssa.FieldAddr, *ssa.IndexAddr:
						// address of a component: may be written
						written[g] = true
					default:
						written[g] = true
					}
				}
			}
		}
	}
	for _, p := range e.prog.AllPackages() {
		for _, m := range p.Members {
			g, ok := m.(*ssa.Global)
			if !ok || written[g] {
				continue
			}
			e.constGlob[g] = true
			t := g.Type().Underlying().(*types.Pointer).Elem()
			if n, ok := types.Unalias(t).(*types.Named); ok && n.Obj().Name() == "error" && n.Obj().Pkg() == nil {
				e.sentinels[g] = true
			}
		}
	}
}

func (e *Engine) pos(p token.Pos) string {
	if !p.IsValid() {
		return ""
	}
	q := e.fset.Position(p)
	f := q.Filename
	if r, err := filepath.Rel(e.repo, f); err == nil && !strings.HasPrefix(r, "..") {
		f = r
	}
	return fmt.Sprintf("%s:%d", f, q.Line)
}

func (e *Engine) pkgOfType(t types.Type) *types.Package {
	if n, ok := types.Unalias(t).(*types.Named); ok {
		return n.Obj().Pkg()
	}
	return nil
}

func (e *Engine) methodOf(t types.Type, name string) *ssa.Function {
	ms := e.prog.MethodSets.MethodSet(t)
	for i := 0; i < ms.Len(); i++ {
		s := ms.At(i)
		if s.Obj().Name() == name {
			return e.prog.MethodValue(s)
		}
	}
	return nil
}

func (e *Engine) isRepo(p *types.Package) bool { return e.repoPkg[p] }

func (e *Engine) inlinable(fn *ssa.Function) bool {
	if fn.Blocks == nil {
		return false
	}
	f := fn
	for f.Parent() != nil {
		f = f.Parent()
	}
	var p *types.Package
	if f.Pkg != nil {
		p = f.Pkg.Pkg
	} else if o := f.Origin(); o != nil && o.Pkg != nil {
		p = o.Pkg.Pkg
	} else if f.Object() != nil {
		p = f.Object().Pkg()
	}
	if f.Synthetic != "" && f.Origin() == nil && p == nil {
		return true // thunks, bound methods, wrappers
	}
	if p == nil {
		return true
	}
	if e.repoPkg[p] {
		return true
	}
	switch p.Path() {
	case "slices", "maps", "cmp":
		return true
	case "sync":
		return strings.Contains(f.String(), "sync.OnceFunc") && false
	}
	if f.Synthetic != "" && f.Origin() == nil {
		return true
	}
	return false
}

// ---------- units ----------

type Unit struct {
	Name       string
	Safety     []string
	contract   *Contract
	fn         *ssa.Function
	entryHeaps map[string]*Term
	entryCtr   int64
	inlineAll  map[string]bool
	shared     bool
	split      int // case of a split, -1 for none
	caseType   types.Type
	splitVals  []bool // values of the contract's split locations
}

func (e *Engine) newCtx(u *Unit, dead map[string]bool) *Ctx {
	return &Ctx{e: e, unit: u, dead: dead, loopMod: map[string]map[string]bool{}, heapSort: map[string]*Sort{}, heapInit: map[string]bool{}, prov: map[int]string{}, guardedM: map[int]guardTag{}, fnTable: map[int64]*fnVal{}, fnIDs: map[*ssa.Function]int64{}, oblNames: map[string]int{}, props: map[string]bool{}, mutexes: map[int]*Term{}, used: map[string]bool{}, trusted: map[string]bool{}, inlined: map[string]bool{}, globals: map[*ssa.Global]*Term{}, candList: map[string]string{}, unrolled: map[string]bool{}, lockGhost: map[string]*Term{}, loopInfos: map[string]*loopInfo{}, noUnroll: map[string]bool{}, fieldTags: map[int]fieldTag{}, signals: map[int]bool{}, axDone: map[string]bool{}, axiomsUsed: map[string]bool{}, assumptions: map[string]bool{}, params: map[string]TV{}, results: map[string]TV{}, onceCells: map[int]bool{}}
}

func (c *Ctx) assumption(s string) { c.assumptions[s] = true }

func (c *Ctx) unitEnv(st *State) *Env {
	ev := &Env{c: c, st: st, entry: c.entry, vars: map[string]TV{}}
	for k, v := range c.params {
		ev.vars[k] = v
	}
	return ev
}

// sentinelVal: distinct values for error variables assigned only at initialisation.
func (c *Ctx) sentinelVal(id int64) *Term {
	return mkCtor("aother", SAny, mkInt(-id), mkInt(-id))
}

// globalConst returns the known value of the global with this object id.
func (c *Ctx) globalConst(id int64, t types.Type) *Term {
	g := c.e.globalByID[id]
	if g == nil || !c.e.sentinels[g] {
		return nil
	}
	if sortOf(t) != SAny {
		return nil
	}
	c.assumption("package-level error variables hold distinct non-nil values that are never reassigned (checked for assignments in the loaded program)")
	return c.sentinelVal(id)
}

func (c *Ctx) loadGlobal(st *State, g *ssa.Global, ref *Term) *Term {
	return c.load(st, ref, g.Type().Underlying().(*types.Pointer).Elem())
}

type UnitResult struct {
	Unit    *Unit
	Name    string
	Obls    []*Obligation
	Errs    []string
	Used    []string
	Trusted []string
	Inlined []string
	Assume  []string
	Axioms  []string
	Rounds  int
	Dur     time.Duration
	Cands   int
}

func resetGlobals() {
	freshCtr = 0
	ubound = map[int]int64{}
	heapFrames = map[int]*frameInfo{}
	localFrames = map[int]*Term{}
}

// execUnit runs the unit once symbolically, producing its obligations.
func (e *Engine) execUnit(u *Unit, dead map[string]bool, noUnroll map[string]bool) (c *Ctx) {
	resetGlobals()
	c = e.newCtx(u, dead)
	c.noUnroll = noUnroll
	defer func() {
		if r := recover(); r != nil {
			if x, ok := r.(unsupportedErr); ok {
				c.errs = append(c.errs, x.Error())
				if dbgTrace {
					debug.PrintStack()
				}
				return
			}
			c.errs = append(c.errs, fmt.Sprintf("internal: %v", r))
			if dbgTrace {
				debug.PrintStack()
			}
		}
	}()
	ct := u.contract
	st := &State{pc: tTrue, heaps: map[string]*Term{}, epoch: "0", ctr: 1}
	fn := u.fn
	if ct.Config["init"] != "" {
		c.runInit(st, strings.Fields(ct.Config["init"]))
	}
	u.entryCtr = st.ctr
	u.shared = ct.Config["shared"] != ""
	// parameters
	var args []Val
	pts := paramTypes(fn.Signature)
	for i, p := range fn.Params {
		nm := fmt.Sprintf("arg%d", i)
		if i < len(ct.Params) {
			nm = ct.Params[i]
		}
		t := pts[i]
		var v Val
		if isReflectValue(t) {
			v = &RV{opaque: true}
		} else if i == c.splitParam() && u.caseType != nil {
			x := mkConst("p_"+nm, sortOf(u.caseType))
			v = mkBox(u.caseType, c.normIn(st, x, u.caseType).(*Term))
		} else {
			v = c.normIn(st, mkConst("p_"+nm, sortOf(t)), t)
		}
		_ = p
		args = append(args, v)
		c.params[nm] = TV{v: v, typ: t}
	}
	for _, h := range ct.Holds {
		mu := c.unitEnv(st).eval(h).addr
		c.setG(st, "$lock", mkStore(c.lockHeap(st), mu, mkInt(-1)))
		c.holds = append(c.holds, mu)
	}
	for _, g := range ct.Given {
		ev := c.unitEnv(st)
		m := ev.eval(g.m)
		mt := m.typ.Underlying().(*types.Map)
		k, _ := ev.coerceTo(ev.eval(g.k), mt.Key())
		v, _ := ev.coerceTo(ev.eval(g.v), mt.Elem())
		mid := m.term()
		c.fact(mkNot(mkEq(mid, mkInt(0))))
		c.setMap(st, mt, mid, mkStore(c.mapDom(st, mt, mid), k, tTrue), mkStore(c.mapVals(st, mt, mid), k, v))
	}
	for i, b := range u.splitVals {
		tv := c.unitEnv(st).eval(ct.Splits[i])
		if tv.addr == nil || tv.typ.Underlying() != types.Typ[types.Bool] {
			panic(unsupported("split needs a boolean location"))
		}
		c.fact(mkEq(tv.term(), mkBool(b)))
		c.store(st, tv.addr, tv.typ, mkBool(b))
	}
	c.setGhosts(st, c.unitEnv(st), ct.Begin)
	c.entry = st.clone()
	u.entryHeaps = map[string]*Term{}
	for k, v := range st.heaps {
		u.entryHeaps[k] = v
	}
	ev := c.unitEnv(st)
	for _, r := range ct.Requires {
		c.fact(ev.bool(r.Expr))
	}
	for _, r := range e.specs.Axioms {
		_ = r
	}
	reqFacts := c.facts
	for k, v := range st.heaps {
		c.entry.heaps[k] = v
	}
	c.obls = append(c.obls, &Obligation{Unit: u.Name, Name: u.Name + "/cover:requires", Kind: "cover", Props: []string{"*"}, Goal: tFalse, Facts: reqFacts, Cover: true})
	rets, panics := c.execFunc(fn, args, nil, st, nil)
	if u.fn.Recover != nil && false {
		_ = rets
	}
	for _, p := range panics {
		goal := tFalse
		if ct.Panics != nil {
			goal = c.unitEnv(p.st).bool(ct.Panics.Expr)
			c.lockBalance(p.st, "panic", p.pos)
		}
		c.oblige(p.st, "panic", u.Name+"/no-panic:explicit", u.Safety, goal, p.pos)
	}
	var live []exit
	for _, r := range rets {
		if r.st.pc != tFalse {
			live = append(live, r)
		}
	}
	if len(live) == 0 {
		c.errs = append(c.errs, "function never returns")
		return
	}
	saved := c.facts
	var pcs []*Term
	for _, r := range live {
		pcs = append(pcs, r.st.pc)
	}
	if ct.Config["noreturn"] == "" {
		c.obls = append(c.obls, &Obligation{Unit: u.Name, Name: u.Name + "/cover:returns", Kind: "cover", Props: []string{"*"}, Goal: mkNot(mkOr(pcs...)), Facts: saved, Cover: true})
	}
	type cov struct {
		goals []*Term
		facts *Fact
	}
	covs := make([][]*Term, len(ct.Covers))
	for _, r := range live {
		c.lockBalance(r.st, "exit", r.pos)
		ev := c.unitEnv(r.st)
		for i, n := range ct.Results {
			if i < len(r.vals) && n != "_" {
				ev.vars[n] = TV{v: r.vals[i], typ: fn.Signature.Results().At(i).Type()}
			}
		}
		for _, l := range ct.Lets {
			ev.vars[l.name] = ev.eval(l.expr)
		}
		for _, cl := range ct.Ensures {
			func() {
				defer func() {
					if x := recover(); x != nil {
						ue, ok := x.(unsupportedErr)
						if !ok {
							panic(x)
						}
						c.obls = append(c.obls, &Obligation{Unit: u.Name, Name: u.Name + "/ensures:" + cl.Name, Kind: "ensures", Props: c.clauseProps(cl), Goal: tFalse, Err: ue.Error(), Pos: e.pos(r.pos)})
					}
				}()
				for gi, g := range conjuncts(ev.bool(cl.Expr)) {
					nm := u.Name + "/ensures:" + cl.Name
					if gi > 0 {
						nm += fmt.Sprintf(".%d", gi)
					}
					c.oblige(r.st, "ensures", nm, c.clauseProps(cl), g, r.pos)
				}
			}()
		}
		c.facts = saved
		for i, cl := range ct.Covers {
			covs[i] = append(covs[i], mkAnd(r.st.pc, ev.bool(cl.Expr)))
		}
		if ct.UseAt && !ct.ModAll {
			c.frameCheck(ev, r, ct)
		}
		c.facts = saved
	}
	for i, cl := range ct.Covers {
		c.obls = append(c.obls, &Obligation{Unit: u.Name, Name: u.Name + "/cover:" + cl.Name, Kind: "cover", Props: c.clauseProps(cl), Goal: mkNot(mkOr(covs[i]...)), Facts: saved, Cover: true})
	}
	return
}

// normIn normalises an input value (allocated before the call).
func (c *Ctx) normIn(st *State, v *Term, t types.Type) Val {
	s2 := *st
	s2.ctr = 1
	return c.norm(&s2, v, t)
}

func (c *Ctx) splitParam() int {
	n := c.unit.contract.Config["split-param"]
	for i, p := range c.unit.contract.Params {
		if p == n && n != "" {
			return i
		}
	}
	return -1
}

// frameCheck: only the places in the modifies clause (and fresh objects) change.
func (c *Ctx) frameCheck(ev *Env, r exit, ct *Contract) {
	allowed := map[string][]*Term{}
	wild := map[string]bool{}
	add := func(k string, t *Term) { allowed[k] = append(allowed[k], t) }
	var leaf func(p *Term, t types.Type)
	leaf = func(p *Term, t types.Type) {
		if u, ok := isStructT(t); ok {
			for i := 0; i < u.NumFields(); i++ {
				leaf(fieldRef(p, i), u.Field(i).Type())
			}
			return
		}
		if u, ok := isArrayT(t); ok {
			k, _ := c.e.elemKey(u.Elem())
			add(k, mkSel("root", SInt, p))
			return
		}
		k, _ := c.e.leafKey(t)
		add(k, p)
	}
	e0 := *ev
	e0.st = c.entry
	for _, m := range ct.Modifies {
		if m.op == "call" {
			switch m.name {
			case "contents":
				x := e0.eval(m.args[0])
				if mt, ok := x.typ.Underlying().(*types.Map); ok {
					dk, _, vk, _ := c.e.mapKeys(mt)
					add(dk, x.term())
					add(vk, x.term())
					continue
				}
				k, _ := c.e.elemKey(x.typ.Underlying().(*types.Slice).Elem())
				add(k, mkSel("s-arr", SInt, x.term()))
				continue
			case "deref":
				p := e0.eval(m.args[0])
				leaf(p.term(), p.typ.Underlying().(*types.Pointer).Elem())
				continue
			case "maps":
				t := c.e.resolveType(m.args[0].name).Underlying().(*types.Map)
				dk, _, vk, _ := c.e.mapKeys(t)
				wild[dk], wild[vk] = true, true
				continue
			}
		}
		if m.op == "name" {
			if _, ok := c.e.specs.Ghosts[m.name]; ok {
				continue
			}
		}
		x := e0.eval(m)
		if x.addr == nil {
			panic(unsupported("modifies: not a place"))
		}
		leaf(x.addr, x.typ)
	}
	if ct.Locks != "" {
		lk := c.e.lockByName(ct.Locks)
		for _, k := range c.guardedKeys(r.st, lk) {
			wild[k] = true
		}
	}
	// state guarded by a lock the function takes is never relied on by a caller
	// without acquiring that lock itself
	for _, aq := range c.acquired {
		t := c.e.resolveType(aq.l.Type)
		u := t.Underlying().(*types.Struct)
		for _, g := range aq.l.Guards {
			if i := c.e.fieldIdxOf(t, g); i >= 0 {
				leaf(fieldRef(aq.own, i), u.Field(i).Type())
			}
		}
		for _, h := range aq.l.Heaps {
			switch x := c.e.resolveType(h).Underlying().(type) {
			case *types.Map:
				dk, _, vk, _ := c.e.mapKeys(x)
				wild[dk], wild[vk] = true, true
			case *types.Slice:
				k, _ := c.e.elemKey(x.Elem())
				wild[k] = true
			}
		}
	}
	for _, k := range sortedKeys(r.st.heaps) {
		if !isObjHeap(k) || strings.HasPrefix(k, "old:") || wild[k] || k == "$chclosed" {
			continue
		}
		h := r.st.heaps[k]
		h0 := c.entry.heaps[k]
		if h0 == nil {
			h0 = c.heap(c.entry, k, h.sort)
		}
		if h == h0 {
			continue
		}
		out := map[int]*Term{}
		ok := collectWrites(h, h0, out, map[int]bool{})
		if ok {
			all := true
			for _, t := range out {
				good := freshSince(t, c.unit.entryCtr)
				for _, al := range allowed[k] {
					if cmpIdx(al, t) == 1 {
						good = true
					}
				}
				all = all && good
			}
			if all {
				continue
			}
		}
		x := mkConst("frame_x_"+sanitize(k), h.sort.Key)
		conds := []*Term{mkLeRaw(rootOf(x), mkInt(c.unit.entryCtr-1))}
		for _, al := range allowed[k] {
			conds = append(conds, mkNot(mkEq(x, al)))
		}
		c.oblige(r.st, "frame", c.unit.Name+"/frame:"+k, []string{"*"}, mkImp(mkAnd(conds...), mkEq(mkSelect(h, x), mkSelect(h0, x))), r.pos)
	}
}

// runInit executes the initialisation of the named packages.
func (c *Ctx) runInit(st *State, pkgs []string) {
	c.initing = true
	defer func() { c.initing = false }()
	for _, n := range pkgs {
		for _, p := range c.e.prog.AllPackages() {
			if p.Pkg.Path() != n && strings.TrimPrefix(p.Pkg.Path(), modulePath+"/") != n && !(n == "vanflow" && p.Pkg.Path() == modulePath) {
				continue
			}
			f := p.Func("init")
			// the guard variable starts false
			for nm, m := range p.Members {
				if g, ok := m.(*ssa.Global); ok && strings.HasPrefix(nm, "init$guard") {
					c.store(st, c.globalRef(g), types.Typ[types.Bool], tFalse)
				}
			}
			a := &act{c: c, key: "init", depth: 0, env: map[ssa.Value]Val{}, fn: f, in: map[*ssa.BasicBlock][]edge{}, back: map[*loop][]edge{}, loops: c.e.loopsOf(f)}
			rets, _ := c.execFunc(f, nil, nil, st, a)
			var ss []*State
			for _, r := range rets {
				ss = append(ss, r.st)
			}
			if len(ss) == 0 {
				panic(unsupported("package init does not return"))
			}
			m, _ := c.mergeStates(ss)
			*st = *m
			st.pc = tTrue
		}
	}
	c.obls = nil
	c.oblNames = map[string]int{}
}

var dbgTrace bool
var buildMu sync.Mutex

func solveObl(o *Obligation, to time.Duration, quick bool) SolveResult {
	return solve(o.Facts, o.Goal, to, quick, o.Name)
}

func parallel(n int, f func(i int)) {
	var wg sync.WaitGroup
	sem := make(chan struct{}, 8)
	for i := 0; i < n; i++ {
		wg.Add(1)
		sem <- struct{}{}
		go func(i int) {
			defer wg.Done()
			defer func() { <-sem }()
			f(i)
		}(i)
	}
	wg.Wait()
}

// runUnit: candidate elimination to a fixpoint, then the obligations relevant
// for prop ("" for all).
func (e *Engine) runUnit(u *Unit, rel func(o *Obligation) bool, to time.Duration) *UnitResult {
	t0 := time.Now()
	res := &UnitResult{Unit: u, Name: u.Name}
	dead := map[string]bool{}
	noUnroll := map[string]bool{}
	var c *Ctx
	for round := 0; ; round++ {
		res.Rounds = round + 1
		nd := len(dead)
		c = e.execUnit(u, dead, noUnroll)
		if len(c.errs) > 0 {
			break
		}
		var cs []*Obligation
		for _, o := range c.obls {
			if o.Cand != "" && !dead[o.Cand] {
				cs = append(cs, o)
			}
		}
		res.Cands = len(cs)
		var mu sync.Mutex
		parallel(len(cs), func(i int) {
			mu.Lock()
			d := dead[cs[i].Cand]
			mu.Unlock()
			if d {
				return
			}
			r := solveObl(cs[i], candTimeout, true)
			if r.Status != "unsat" {
				mu.Lock()
				dead[cs[i].Cand] = true
				mu.Unlock()
				if dbgCand {
					fmt.Println("  dead", round, cs[i].Name, r.Status)
				}
			}
		})
		if len(dead) == nd {
			break
		}
		if round > 40 {
			c.errs = append(c.errs, "candidate elimination did not converge")
			break
		}
	}
	for _, s := range c.errs {
		res.Errs = append(res.Errs, s)
	}
	var os []*Obligation
	for _, o := range c.obls {
		if o.Cand != "" {
			continue
		}
		if rel == nil || rel(o) {
			os = append(os, o)
		}
	}
	parallel(len(os), func(i int) {
		o := os[i]
		if o.Err != "" {
			o.Res = SolveResult{Status: "error", Out: o.Err}
			return
		}
		if o.Cover {
			o.Res = solve(o.Facts, o.Goal, 4*time.Second, true, o.Name)
			return
		}
		lim := to
		if nFailed.Load() >= 6 || !softDeadline.IsZero() && time.Now().After(softDeadline) {
			lim = 2 * time.Second
		}
		o.Res = solveObl(o, lim, false)
		if dbgSlow && o.Res.Dur > 3*time.Second {
			fmt.Fprintf(stderr, "SLOW %s %s %.1fs %s\n", o.Name, o.Res.Status, o.Res.Dur.Seconds(), o.Res.Solver)
		}
		if o.Res.Status != "unsat" {
			nFailed.Add(1)
		}
	})
	res.Obls = os
	res.Used = setKeys(c.used)
	res.Trusted = setKeys(c.trusted)
	res.Inlined = setKeys(c.inlined)
	res.Assume = setKeys(c.assumptions)
	res.Axioms = setKeys(c.axiomsUsed)
	res.Dur = time.Since(t0)
	return res
}

var candTimeout = 3 * time.Second

// A check that has already failed, or runs late, spends less on the obligations left.
var nFailed atomic.Int64
var softDeadline time.Time
var dbgCand bool
var dbgSlow = os.Getenv("VGO_SLOW") != ""
var stderr = os.Stderr

func setKeys(m map[string]bool) []string {
	out := []string{}
	for k, v := range m {
		if v {
			out = append(out, k)
		}
	}
	sort.Strings(out)
	return out
}

// ok: the obligation is discharged
func (o *Obligation) ok() bool {
	if o.Cover {
		return o.Res.Status != "unsat"
	}
	return o.Res.Status == "unsat"
}

// units builds the units of a contract (one per case of a split).
func (e *Engine) unitsOf(ct *Contract) ([]*Unit, error) {
	fn := e.fns[ct.Func]
	if fn == nil || fn.Blocks == nil {
		if ct.Helper {
			return nil, nil
		}
		return nil, fmt.Errorf("function %s not found in the program", ct.Func)
	}
	if len(ct.Params) > 0 && len(ct.Params) != len(fn.Params) || len(ct.Results) > 0 && len(ct.Results) != fn.Signature.Results().Len() {
		if ct.Helper {
			return nil, nil
		}
		return nil, fmt.Errorf("function %s has a different signature: %s", ct.Func, fn.Signature)
	}
	safety := ct.Safety
	if len(safety) == 0 {
		safety = ct.Props
	}
	inl := map[string]bool{}
	for _, x := range strings.Fields(ct.Config["inline"]) {
		inl[x] = true
	}
	base := func(sfx string) *Unit {
		return &Unit{Name: ct.Key + sfx, Safety: safety, contract: ct, fn: fn, inlineAll: inl, split: -1}
	}
	if ts := ct.Config["split-types"]; ts != "" {
		var us []*Unit
		for _, t := range strings.Fields(ts) {
			u := base("[" + t + "]")
			u.caseType = e.resolveType(t)
			us = append(us, u)
		}
		return us, nil
	}
	us := []*Unit{base("")}
	for range ct.Splits {
		// one unit for each value of the boolean location
		var next []*Unit
		for _, u := range us {
			for _, b := range []bool{false, true} {
				v := base("")
				v.Name = u.Name + map[bool]string{false: "[f]", true: "[t]"}[b]
				v.splitVals = append(append([]bool{}, u.splitVals...), b)
				next = append(next, v)
			}
		}
		us = next
	}
	return us, nil
}

func fileExists(p string) bool { _, err := os.Stat(p); return err == nil }
