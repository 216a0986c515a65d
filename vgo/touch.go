package main

import (
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// touchers lists the functions of the repository (by the name of the outermost declared
// function) whose code mentions the mutex or the state it guards, for each declared lock.
func (e *Engine) touchers() map[*LockDecl]map[string]bool {
	if e.touch != nil {
		return e.touch
	}
	e.touch = map[*LockDecl]map[string]bool{}
	type fkey struct {
		t string
		i int
	}
	byField := map[fkey]*LockDecl{}
	byGlobal := map[string]*LockDecl{}
	for _, l := range append(append([]*LockDecl{}, e.specs.Locks...), e.specs.GlobalLocks...) {
		e.touch[l] = map[string]bool{}
		if l.Global {
			for _, g := range append([]string{l.Field}, l.Guards...) {
				byGlobal[l.Type+"."+g] = l
			}
			continue
		}
		t := e.tryType(l.Type)
		if t == nil {
			continue
		}
		for _, g := range append([]string{l.Field}, l.Guards...) {
			if i := e.fieldIdxOf(t, g); i >= 0 {
				byField[fkey{typeKey(t), i}] = l
			}
		}
	}
	for _, fn := range e.fns {
		if fn.Blocks == nil || fn.Synthetic != "" && !strings.HasPrefix(fn.Synthetic, "instance of") {
			continue
		}
		out := fn
		for out.Parent() != nil {
			out = out.Parent()
		}
		if out.Pkg != nil && !e.repoPkg[out.Pkg.Pkg] {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case *ssa.FieldAddr:
					st := x.X.Type().Underlying().(*types.Pointer).Elem()
					if l := byField[fkey{typeKey(types.Unalias(st)), x.Field}]; l != nil && !freshBase(x.X) {
						e.touch[l][shortFn(out)] = true
					}
				default:
					var rands [10]*ssa.Value
					for _, op := range in.Operands(rands[:0]) {
						if g, ok := (*op).(*ssa.Global); ok && g.Pkg != nil {
							if l := byGlobal[g.Pkg.Pkg.Name()+"."+g.Name()]; l != nil {
								e.touch[l][shortFn(out)] = true
							}
						}
					}
				}
			}
		}
	}
	return e.touch
}

// freshBase: the object was allocated by this function (a constructor filling it in)
func freshBase(v ssa.Value) bool {
	_, ok := v.(*ssa.Alloc)
	return ok
}

// lockPeers: the functions that touch a lock some of the given functions touch, in order
func (e *Engine) lockPeers(covered map[string]bool) []string {
	set := map[string]bool{}
	for l, fs := range e.touchers() {
		used := l.Global // what a package mutex guards carries no invariant
		if used {
			continue
		}
		for f := range fs {
			used = used || covered[f]
		}
		if !used {
			continue
		}
		for f := range fs {
			if !covered[f] {
				set[f] = true
			}
		}
	}
	var out []string
	for f := range set {
		out = append(out, f)
	}
	sort.Strings(out)
	return out
}

// touchesLock: the function of the contract touches a declared lock or what it guards
func (e *Engine) touchesLock(ct *Contract) bool {
	for _, fs := range e.touchers() {
		if fs[ct.Func] {
			return true
		}
	}
	return false
}

// reachedFrom lists the contracts whose function reaches f through functions without contracts
// (and so is verified with f inlined)
func (e *Engine) reachedFrom(f string) []string {
	if e.reach == nil {
		e.reach = map[string][]string{}
		for _, k := range e.specs.Order {
			ct := e.specs.Contracts[k]
			fn := e.fns[ct.Func]
			if ct.Trusted || fn == nil || k != ct.Func {
				continue
			}
			seen := map[*ssa.Function]bool{}
			var walk func(g *ssa.Function)
			walk = func(g *ssa.Function) {
				if seen[g] || g.Blocks == nil {
					return
				}
				seen[g] = true
				n := shortFn(g)
				if g != fn {
					if c2 := e.specs.Contracts[n]; c2 != nil && !c2.Trusted {
						return
					}
					if g.Pkg != nil && !e.repoPkg[g.Pkg.Pkg] {
						return
					}
					e.reach[n] = append(e.reach[n], k)
				}
				for _, b := range g.Blocks {
					for _, in := range b.Instrs {
						var rands [10]*ssa.Value
						for _, op := range in.Operands(rands[:0]) {
							if h, ok := (*op).(*ssa.Function); ok {
								walk(h)
							}
						}
					}
				}
			}
			walk(fn)
		}
	}
	return e.reach[f]
}
