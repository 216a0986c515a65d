package main

// Models (trusted specifications) of the library functions the repository uses.

import (
	"fmt"
	"go/token"
	"go/types"
	"reflect"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type intrinsic func(a *act, st *State, fn *ssa.Function, args []Val, pos token.Pos) []Val

var intrinsics map[string]intrinsic

type prefixIntrinsic struct {
	prefix string
	h      intrinsic
}

var intrinsicPrefix []prefixIntrinsic

// interface methods with a model of their own
var invokeIntrinsics map[string]func(a *act, st *State, recv *Term, args []Val, pos token.Pos) []Val

func one(t Val) []Val { return []Val{t} }

func tm(v Val) *Term {
	t, ok := v.(*Term)
	if !ok {
		panic(unsupported(fmt.Sprintf("library call on %T", v)))
	}
	return t
}

// ---------- errors ----------

const (
	tagErr = 1
	tagCtx = 3
	tagObj = 4
)

func (c *Ctx) newErr(st *State, wraps []*Term) *Term {
	id := c.alloc(st)
	e := mkCtor("aother", SAny, mkInt(tagErr), mkInt(id))
	if c.errWraps == nil {
		c.errWraps = map[int64][]*Term{}
	}
	c.errWraps[id] = wraps
	return e
}

// errIs models errors.Is.
func (c *Ctx) errIs(e, target *Term, depth int) *Term {
	if e.op == "ite" {
		return mkIte(e.args[0], c.errIs(e.args[1], target, depth), c.errIs(e.args[2], target, depth))
	}
	if e == anil {
		return mkEq(target, anil)
	}
	if e.op == "ctor" {
		if e.name == "aother" {
			tag := e.args[0]
			if tag.op == "int" && tag.big.IsInt64() {
				switch {
				case tag.big.Int64() == tagErr && e.args[1].op == "int":
					ws, known := c.errWraps[e.args[1].big.Int64()]
					if known {
						out := []*Term{mkEq(e, target)}
						if depth < 20 {
							for _, w := range ws {
								out = append(out, mkAnd(mkNot(mkEq(w, anil)), c.errIs(w, target, depth+1)))
							}
						}
						return mkOr(out...)
					}
				case tag.big.Int64() >= 1000000000: // sentinel
					return mkEq(e, target)
				}
			}
		} else if bi := boxByCtor[e.name]; bi != nil {
			if c.e.methodOf(bi.typ, "Is") == nil && c.e.methodOf(bi.typ, "Unwrap") == nil {
				return mkEq(e, target)
			}
		}
	}
	c.assumption("errors.Is is a reflexive relation on error values; library errors may wrap any error")
	if _, ok := ufAxioms["errIs"]; !ok {
		ufAxioms["errIs"] = func() []*Term {
			x, y := mkBV("x", SAny), mkBV("y", SAny)
			ap := mkApp("errIs", SBool, x, y)
			fs := []*Term{
				mkForall([]*Term{x, y}, mkImp(mkEq(x, y), ap), []*Term{ap}),
				mkForall([]*Term{x, y}, mkImp(mkOr(mkIs("anil", x), mkIs("anil", y)), mkEq(ap, mkEq(x, y))), []*Term{ap}),
				mkForall([]*Term{x, y}, mkImp(mkAnd(mkIs("aother", x), mkLe(mkInt(1000000000), mkSel("ao-t", SInt, x))), mkEq(ap, mkEq(x, y))), []*Term{ap}),
			}
			for _, b := range anyBoxes {
				if bi := boxByCtor[b]; !isPseudo(bi.typ) && hasErrMethod(bi.typ, "Error") && !hasErrMethod(bi.typ, "Is") && !hasErrMethod(bi.typ, "Unwrap") {
					fs = append(fs, mkForall([]*Term{x, y}, mkImp(mkIs(b, x), mkEq(ap, mkEq(x, y))), []*Term{ap}))
				}
			}
			return fs
		}
	}
	return mkApp("errIs", SBool, e, target)
}

func hasErrMethod(t types.Type, name string) bool {
	ms := types.NewMethodSet(t)
	for i := 0; i < ms.Len(); i++ {
		if ms.At(i).Obj().Name() == name {
			return true
		}
	}
	return false
}

// variadic returns the elements of a variadic argument slice of known length.
func (c *Ctx) variadic(st *State, s *Term, et types.Type) ([]*Term, bool) {
	s = simplifyIte(st.pc, s)
	ln := mkSel("s-len", SInt, s)
	if ln.op != "int" {
		return nil, false
	}
	n := int(ln.big.Int64())
	if n == 0 {
		return nil, true
	}
	el := c.elems(st, et, mkSel("s-arr", SInt, s))
	off := mkSel("s-off", SInt, s)
	var out []*Term
	for i := 0; i < n; i++ {
		out = append(out, simplifyIte(st.pc, mkSelect(el, mkAdd(off, mkInt(int64(i))))))
	}
	return out, true
}

var anyType = types.NewInterfaceType(nil, nil)

// formatted strings are functions of their (basic) arguments
func (c *Ctx) sprintf(st *State, format string, args []*Term) *Term {
	// split into literal pieces and verbs
	res := mkStr("")
	i, k := 0, 0
	for i < len(format) {
		j := strings.IndexByte(format[i:], '%')
		if j < 0 {
			res = c.concat(res, mkStr(format[i:]))
			break
		}
		res = c.concat(res, mkStr(format[i:i+j]))
		i += j
		if i+1 >= len(format) {
			return nil
		}
		v := format[i+1]
		if v == '%' {
			res = c.concat(res, mkStr("%"))
			i += 2
			continue
		}
		if k >= len(args) || !strings.ContainsRune("svdqxXt", rune(v)) {
			return nil
		}
		p := c.fmtArg(st, v, args[k])
		if p == nil {
			return nil
		}
		res = c.concat(res, p)
		k++
		i += 2
	}
	if k != len(args) {
		return nil
	}
	return res
}

func (c *Ctx) fmtArg(st *State, verb byte, x *Term) *Term {
	if x.op == "ite" {
		p, q := c.fmtArg(st, verb, x.args[1]), c.fmtArg(st, verb, x.args[2])
		if p == nil || q == nil {
			return nil
		}
		return mkIte(x.args[0], p, q)
	}
	if x.op != "ctor" || boxByCtor[x.name] == nil {
		return nil
	}
	bi := boxByCtor[x.name]
	b, ok := bi.typ.Underlying().(*types.Basic)
	if !ok || hasErrMethod(bi.typ, "String") || hasErrMethod(bi.typ, "Error") || hasErrMethod(bi.typ, "Format") {
		return nil
	}
	if b.Info()&types.IsString != 0 && (verb == 's' || verb == 'v') {
		return x.args[0]
	}
	if b.Info()&types.IsInteger != 0 && x.args[0].op == "int" && (verb == 'd' || verb == 'v') {
		return mkStr(x.args[0].big.String())
	}
	nm := fmt.Sprintf("fmt_%c_%s", verb, sanitize(b.Name()))
	if b.Info()&types.IsInteger != 0 && (verb == 'd' || verb == 'v') {
		nm = "fmt_d"
		if _, ok := ufAxioms[nm]; !ok {
			ufAxioms[nm] = func() []*Term {
				i, j := mkBV("i", SInt), mkBV("j", SInt)
				p, q := mkApp(nm, SStr, i), mkApp(nm, SStr, j)
				return []*Term{mkForall([]*Term{i, j}, mkImp(mkEq(p, q), mkEq(i, j)), []*Term{p, q})}
			}
		}
	}
	return mkApp(nm, SStr, x.args[0])
}

// ---------- time ----------

func nanoOf(t *Term) *Term {
	if t.op == "app" && t.name == "timeOfNano" {
		return t.args[0]
	}
	if t.op == "ite" {
		return mkIte(t.args[0], nanoOf(t.args[1]), nanoOf(t.args[2]))
	}
	if _, ok := ufAxioms["nanoOf"]; !ok {
		ufAxioms["nanoOf"] = func() []*Term {
			x := mkBV("x", STime)
			n := mk("app", "nanoOf", SInt, x)
			return []*Term{mkForall([]*Term{x}, mkEq(mkApp("timeOfNano", STime, n), x), []*Term{n})}
		}
		ufAxioms["timeOfNano"] = func() []*Term {
			x := mkBV("x", SInt)
			t := mkApp("timeOfNano", STime, x)
			return []*Term{mkForall([]*Term{x}, mkEq(mkApp("nanoOf", SInt, t), x), []*Term{t})}
		}
	}
	return mkApp("nanoOf", SInt, t)
}

func timeOf(n *Term) *Term {
	if n.op == "app" && n.name == "nanoOf" {
		return n.args[0]
	}
	nanoOf(mkConst("dummy_t", STime))
	return mkApp("timeOfNano", STime, n)
}

func divE(x *Term, d int64) *Term {
	if x.op == "int" {
		q := newBig("0")
		m := newBig("0")
		q.DivMod(x.big, newBig(strconv.FormatInt(d, 10)), m)
		return mkBig(q)
	}
	// exact multiples fold
	if x.op == "*" && len(x.args) == 2 {
		for i := 0; i < 2; i++ {
			if x.args[i].op == "int" && x.args[i].big.IsInt64() && x.args[i].big.Int64() == d {
				return x.args[1-i]
			}
		}
	}
	return mk("div", "", SInt, x, mkInt(d))
}

func (c *Ctx) now(st *State) *Term {
	c.assumption("time.Now never decreases and lies between 1970 and 2262")
	prev := c.heap(st, "$g:$now", SInt)
	n := fresh("now", SInt)
	c.fact(mkAnd(mkLe(mkInt(0), n), mkLe(n, bigLit("9223372036854775807")), mkLe(prev, n)))
	c.setG(st, "$g:$now", n)
	return n
}

var int64T = types.Typ[types.Int64]

// ---------- binary codec ----------

func fixedSize(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch u.Kind() {
		case types.Int, types.Uint, types.Uintptr, types.String, types.UnsafePointer:
			return false
		}
		return true
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if !fixedSize(u.Field(i).Type()) || u.Field(i).Name() == "_" {
				return false
			}
		}
		return true
	case *types.Array:
		return fixedSize(u.Elem())
	}
	return false
}

func orderName(x *Term) string {
	if x.op == "ctor" && x.name != "aother" && x.name != "anil" {
		return sanitize(x.name)
	}
	return ""
}

func codecNames(order string, t types.Type) (enc, ok, dec string) {
	k := order + "_" + sanitize(typeKey(t))
	enc, ok, dec = "binenc_"+k, "binok_"+k, "bindec_"+k
	s := sortOf(t)
	if _, done := ufAxioms[enc]; !done {
		ax := func() []*Term {
			x := mkBV("x", s)
			e := mkApp(enc, SStr, x)
			return []*Term{mkForall([]*Term{x}, mkAnd(mkApp(ok, SBool, e), mkEq(mkApp(dec, s, e), x)), []*Term{e})}
		}
		ufAxioms[enc] = ax
	}
	return
}

func (c *Ctx) bufStr(st *State, p *Term, t types.Type) *Term {
	v := c.load(st, p, t)
	if v.op == "int" && v.big.Sign() == 0 {
		return mkStr("")
	}
	if v.op == "app" && v.name == "bufOf" {
		return v.args[0]
	}
	if v.op == "ite" {
		panic(unsupported("buffer with several possible contents"))
	}
	return mkApp("bufStr", SStr, v)
}

func (c *Ctx) strSlice(st *State, s *Term) *Term {
	id := mkInt(c.alloc(st))
	et := types.Typ[types.Byte]
	c.setElems(st, et, id, mkApp("str_bytes", ArraySort(SInt, SInt), s))
	ln := c.strLen(s)
	return mkCtor("mkslice", SSlice, id, mkInt(0), ln, ln)
}

func init() {
	intrinsics = map[string]intrinsic{}
	invokeIntrinsics = map[string]func(a *act, st *State, recv *Term, args []Val, pos token.Pos) []Val{}
	I := func(n string, h intrinsic) { intrinsics[n] = h }

	// --- sync ---
	for _, tn := range []string{"(*sync.Mutex)", "(*sync.RWMutex)"} {
		I(tn+".Lock", func(a *act, st *State, fn *ssa.Function, args []Val, pos token.Pos) []Val {
			a.muLock(st, tm(args[0]), false, pos)
			return nil
		})
		I(tn+".Unlock", func(a *act, st *State, fn *ssa.Function, args []Val, pos token.Pos) []Val {
			a.muUnlock(st, tm(args[0]), false, pos)
			return nil
		})
	}
	I("(*sync.RWMutex).RLock", func(a *act, st *State, fn *ssa.Function, args []Val, pos token.Pos) []Val {
		a.muLock(st, tm(args[0]), true, pos)
		return nil
	})
	I("(*sync.RWMutex).RUnlock", func(a *act, st *State, fn *ssa.Function, args []Val, pos token.Pos) []Val {
		a.muUnlock(st, tm(args[0]), true, pos)
		return nil
	})
	I("(*sync.Once).Do", func(a *act, st *State, fn *ssa.Function, args []Val, pos token.Pos) []Val {
		c := a.c
		p := tm(args[0])
		a.must(st, mkNot(mkEq(mkSel("root", SInt, p), mkInt(0))), "nil-deref", pos)
		ot := fn.Signature.Recv().Type().Underlying().(*types.Pointer).Elem()
		v := c.load(st, p, ot)
		a.split(st, mkEq(v, mkInt(0)), func(s *State) []Val {
			c.store(s, p, ot, mkInt(1))
			c.onceCells[p.id] = true
			c.onceDepth++
			a.callFnTerm(s, tm(args[1]), fn.Signature.Params().At(0).Type(), nil, pos)
			c.onceDepth--
			return nil
		}, func(s *State) []Val { return nil })
		return nil
	})
	nop := func(a *act, st *State, fn *ssa.Function, args []Val, pos token.Pos) []Val {
		return a.havocResults(st, fn.Signature, fn.Name())
	}
	I("(*sync.WaitGroup).Add", nop)
	I("(*sync.WaitGroup).Done", nop)
	I("(*sync.WaitGroup).Wait", func(a *act, st *State, fn *ssa.Function, args []Val, pos token.Pos) []Val {
		a.noLocks(st, "WaitGroup.Wait", pos)
		return nil
	})
	I("(*sync.WaitGroup).Go", func(a *act, st *State, fn *ssa.Function, args []Val, pos token.Pos) []Val {
		panic(unsupported("WaitGroup.Go"))
	})
	I("(*sync/atomic.Pointer[T]).Load", func(a *act, st *State, fn *ssa.Function, args []Val, pos token.Pos) []Val {
		return a.havocResults(st, fn.Signature, "atomic")
	})
	I("(*sync/atomic.Pointer[T]).Store", func(a *act, st *State, fn *ssa.Function, args []Val, pos token.Pos) []Val {
		a.c.setG(st, "$g:$atomic", mkBox(fn.Signature.Params().At(0).Type(), tm(args[1])))
		return nil
	})

	// --- errors and formatting ---
	I("errors.New", func(a *act, st *State, fn *ssa.Function, args []Val, pos token.Pos) []Val {
		return one(a.c.newErr(st, nil))
	})
	I("errors.Is", func(a *act, st *State, fn *ssa.Function, args []Val, pos token.Pos) []Val {
		return one(a.c.errIs(tm(args[0]), tm(args[1]), 0))
	})
	I("errors.Join", func(a *act, st *State, fn *ssa.Function, args []Val, pos token.Pos) []Val {
		es, ok := a.c.variadic(st, tm(args[0]), types.Universe.Lookup("error").Type())
		if !ok {
			panic(unsupported("errors.Join"))
		}
		var nn []*Term
		for _, e := range es {
			nn = append(nn, mkNot(mkEq(e, anil)))
		}
		return one(mkIte(mkOr(nn...), a.c.newErr(st, es), anil))
	})
	I("fmt.Errorf", func(a *act, st *State, fn *ssa.Function, args []Val, pos token.Pos) []Val {
		c := a.c
		f := tm(args[0])
		if f.op == "strlit" && strings.Contains(f.name, "%w") {
			es, ok := c.variadic(st, tm(args[1]), anyType)
			if !ok {
				panic(unsupported("fmt.Errorf arguments"))
			}
			var ws []*Term
			k := 0
			for i := 0; i+1 < len(f.name); i++ {
				if f.name[i] != '%' {
					continue
				}
				i++
				for i < len(f.name) && strings.IndexByte("+-# 0123456789.", f.name[i]) >= 0 {
					i++
				}
				if i >= len(f.name) || f.name[i] == '%' {
					continue
				}
				if f.name[i] == 'w' && k < len(es) {
					ws = append(ws, es[k])
				}
				k++
			}
			return one(c.newErr(st, ws))
		}
		return one(c.newErr(st, nil))
	})
	I("fmt.Sprintf", func(a *act, st *State, fn *ssa.Function, args []Val, pos token.Pos) []Val {
		c := a.c
		if f := tm(args[0]); f.op == "strlit" {
			if es, ok := c.variadic(st, tm(args[1]), anyType); ok {
				if r := c.sprintf(st, f.name, es); r != nil {
					return one(r)
				}
			}
		}
		return one(fresh("sprintf", SStr))
	})
	I("fmt.Sprint", func(a *act, st *State, fn *ssa.Function, args []Val, pos token.Pos) []Val {
		return one(fresh("sprint", SStr))
	})

	// --- time ---
	I("time.Now", func(a *act, st *State, fn *ssa.Function, args []Val, pos token.Pos) []Val {
		r := one(timeOf(a.c.now(st)))
		return r
	})
	I("time.Since", func(a *act, st *State, fn *ssa.Function, args []Val, pos token.Pos) []Val {
		return one(satDur(mkSub(a.c.now(st), nanoOf(tm(args[0])))))
	})
	I("time.Until", func(a *act, st *State, fn *ssa.Function, args []Val, pos token.Pos) []Val {
		return one(satDur(mkSub(nanoOf(tm(args[0])), a.c.now(st))))
	})
	cmp := func(f func(x, y *Term) *Term) intrinsic {
		return func(a *act, st *State, fn *ssa.Function, args []Val, pos token.Pos) []Val {
			return one(f(nanoOf(tm(args[0])), nanoOf(tm(args[1]))))
		}
	}
	I("(time.Time).After", cmp(mkGt))
	I("(time.Time).Before", cmp(mkLt))
	I("(time.Time).Equal", cmp(mkEq))
	I("(time.Time).Sub", cmp(func(x, y *Term) *Term { return satDur(mkSub(x, y)) }))
	I("(time.Time).Compare", cmp(func(x, y *Term) *Term {
		return mkIte(mkLt(x, y), mkInt(-1), mkIte(mkEq(x, y), mkInt(0), mkInt(1)))
	}))
	I("(time.Time).Add", func(a *act, st *State, fn *ssa.Function, args []Val, pos token.Pos) []Val {
		return one(timeOf(mkAdd(nanoOf(tm(args[0])), tm(args[1]))))
	})
	I("(time.Time).IsZero", func(a *act, st *State, fn *ssa.Function, args []Val, pos token.Pos) []Val {
		return one(mkEq(nanoOf(tm(args[0])), mkZeroNano()))
	})
	unix := func(d int64) intrinsic {
		return func(a *act, st *State, fn *ssa.Function, args []Val, pos token.Pos) []Val {
			return one(a.c.wrapMod(divE(nanoOf(tm(args[0])), d), int64T))
		}
	}
	I("(time.Time).Unix", unix(1000000000))
	I("(time.Time).UnixMilli", unix(1000000))
	I("(time.Time).UnixMicro", unix(1000))
	I("(time.Time).UnixNano", func(a *act, st *State, fn *ssa.Function, args []Val, pos token.Pos) []Val {
		return one(a.c.wrapMod(nanoOf(tm(args[0])), int64T))
	})
	same := func(a *act, st *State, fn *ssa.Function, args []Val, pos token.Pos) []Val { return one(args[0]) }
	I("(time.Time).UTC", same)
	I("(time.Time).Local", same)
	I("(time.Time).Truncate", func(a *act, st *State, fn *ssa.Function, args []Val, pos token.Pos) []Val {
		d := tm(args[1])
		if d.op != "int" || d.big.Sign() <= 0 {
			panic(unsupported("Time.Truncate"))
		}
		// since the zero time
		z := mkSub(nanoOf(tm(args[0])), mkZeroNano())
		return one(timeOf(mkAdd(mkMul(divE(z, d.big.Int64()), d), mkZeroNano())))
	})
	I("time.UnixMicro", func(a *act, st *State, fn *ssa.Function, args []Val, pos token.Pos) []Val {
		return one(timeOf(mkMul(tm(args[0]), mkInt(1000))))
	})
	I("time.UnixMilli", func(a *act, st *State, fn *ssa.Function, args []Val, pos token.Pos) []Val {
		return one(timeOf(mkMul(tm(args[0]), mkInt(1000000))))
	})
	I("time.Unix", func(a *act, st *State, fn *ssa.Function, args []Val, pos token.Pos) []Val {
		return one(timeOf(mkAdd(mkMul(tm(args[0]), mkInt(1000000000)), tm(args[1]))))
	})
	I("time.Sleep", func(a *act, st *State, fn *ssa.Function, args []Val, pos token.Pos) []Val {
		a.noLocks(st, "time.Sleep", pos)
		return nil
	})
	timer := func(a *act, st *State, fn *ssa.Function, args []Val, pos token.Pos) []Val {
		c := a.c
		if fn.Name() == "NewTicker" {
			a.must(st, mkLt(mkInt(0), tm(args[0])), "ticker-interval", pos)
		}
		id := c.alloc(st)
		p := mkCtor("ptr", SRef, mkInt(id), pnil)
		rt := fn.Signature.Results().At(0).Type().Underlying().(*types.Pointer).Elem()
		ch := c.alloc(st)
		c.store(st, fieldRef(p, 0), rt.Underlying().(*types.Struct).Field(0).Type(), mkInt(ch))
		c.timerChans = append(c.timerChans, mkInt(ch))
		return one(p)
	}
	I("time.NewTicker", timer)
	I("time.NewTimer", timer)
	I("(*time.Ticker).Stop", nop)
	I("(*time.Ticker).Reset", nop)
	I("(*time.Timer).Stop", nop)
	I("(*time.Timer).Reset", nop)
	I("time.After", func(a *act, st *State, fn *ssa.Function, args []Val, pos token.Pos) []Val {
		ch := mkInt(a.c.alloc(st))
		a.c.timerChans = append(a.c.timerChans, ch)
		return one(ch)
	})

	// --- context ---
	invokeIntrinsics["context.Context.Done"] = func(a *act, st *State, recv *Term, args []Val, pos token.Pos) []Val {
		d := mkApp("im_Done", SInt, recv)
		a.c.assumption("no context's Done channel is one made by the function under contract")
		a.c.fact(mkLe(d, mkInt(0)))
		return one(d)
	}
	invokeIntrinsics["context.Context.Err"] = func(a *act, st *State, recv *Term, args []Val, pos token.Pos) []Val {
		c := a.c
		h := c.heap(st, "$ctxdone", ArraySort(SAny, SBool))
		d := fresh("ctxdone", SBool)
		c.fact(mkImp(mkSelect(h, recv), d))
		c.setG(st, "$ctxdone", mkStore(h, recv, d))
		return one(mkIte(d, c.ctxErr(recv), anil))
	}
	invokeIntrinsics["context.Context.Value"] = func(a *act, st *State, recv *Term, args []Val, pos token.Pos) []Val {
		return one(a.c.ctxValue(recv, tm(args[0])))
	}
	I("context.WithValue", func(a *act, st *State, fn *ssa.Function, args []Val, pos token.Pos) []Val {
		p, k, v := tm(args[0]), tm(args[1]), tm(args[2])
		a.must(st, mkNot(mkEq(p, anil)), "nil-context", pos)
		a.must(st, mkNot(mkEq(k, anil)), "nil-context-key", pos)
		id := a.c.alloc(st)
		n := mkCtor("aother", SAny, mkInt(tagCtx), mkInt(id))
		if a.c.ctxParents == nil {
			a.c.ctxParents = map[int64][3]*Term{}
		}
		a.c.ctxParents[id] = [3]*Term{p, k, v}
		kk := mkBV("k", SAny)
		a.c.fact(mkForall([]*Term{kk}, mkEq(mkApp("im_Value", SAny, n, kk), mkIte(mkEq(kk, k), v, mkApp("im_Value", SAny, p, kk))), []*Term{mkApp("im_Value", SAny, n, kk)}))
		return one(n)
	})
	derive := func(a *act, st *State, fn *ssa.Function, args []Val, pos token.Pos) []Val {
		c := a.c
		p := tm(args[0])
		a.must(st, mkNot(mkEq(p, anil)), "nil-context", pos)
		id := c.alloc(st)
		n := mkCtor("aother", SAny, mkInt(tagCtx), mkInt(id))
		if c.ctxParents == nil {
			c.ctxParents = map[int64][3]*Term{}
		}
		c.ctxParents[id] = [3]*Term{p, nil, nil}
		c.nfn++
		fid := int64(1)<<40 + c.nfn
		c.fnTable[fid] = &fnVal{name: "cancel", ext: func(a *act, st *State, args []Val) []Val {
			h := a.c.heap(st, "$ctxdone", ArraySort(SAny, SBool))
			a.c.setG(st, "$ctxdone", mkStore(h, n, tTrue))
			return nil
		}}
		return []Val{n, mkInt(fid)}
	}
	parent := func(a *act, r []Val, p Val) *Term {
		n := tm(r[0])
		a.c.fact(mkEq(mkApp("ctx_parent", SAny, n), tm(p)))
		return n
	}
	I("context.WithCancel", func(a *act, st *State, fn *ssa.Function, args []Val, pos token.Pos) []Val {
		r := derive(a, st, fn, args, pos)
		parent(a, r, args[0])
		return r
	})
	I("context.WithTimeout", func(a *act, st *State, fn *ssa.Function, args []Val, pos token.Pos) []Val {
		r := derive(a, st, fn, args, pos)
		a.c.fact(mkEq(mkApp("ctx_timeout", SInt, parent(a, r, args[0])), tm(args[1])))
		return r
	})
	I("context.WithDeadline", func(a *act, st *State, fn *ssa.Function, args []Val, pos token.Pos) []Val {
		r := derive(a, st, fn, args, pos)
		a.c.fact(mkEq(mkApp("ctx_timeout", SInt, parent(a, r, args[0])), mkSub(nanoOf(tm(args[1])), a.c.now(st))))
		return r
	})
	I("os/signal.NotifyContext", derive)
	bg := func(a *act, st *State, fn *ssa.Function, args []Val, pos token.Pos) []Val {
		id := a.c.alloc(st)
		return one(mkCtor("aother", SAny, mkInt(tagCtx), mkInt(id)))
	}
	I("context.Background", bg)
	I("context.TODO", bg)

	// --- strings, strconv, struct tags ---
	I("strings.Compare", func(a *act, st *State, fn *ssa.Function, args []Val, pos token.Pos) []Val {
		x, y := tm(args[0]), tm(args[1])
		return one(mkIte(a.c.strLess(x, y), mkInt(-1), mkIte(mkEq(x, y), mkInt(0), mkInt(1))))
	})
	I("strings.Cut", func(a *act, st *State, fn *ssa.Function, args []Val, pos token.Pos) []Val {
		x, y := tm(args[0]), tm(args[1])
		if x.op == "strlit" && y.op == "strlit" {
			p, q, ok := strings.Cut(x.name, y.name)
			return []Val{mkStr(p), mkStr(q), mkBool(ok)}
		}
		return a.havocResults(st, fn.Signature, "cut")
	})
	I("strings.HasPrefix", func(a *act, st *State, fn *ssa.Function, args []Val, pos token.Pos) []Val {
		x, y := tm(args[0]), tm(args[1])
		if x.op == "strlit" && y.op == "strlit" {
			return one(mkBool(strings.HasPrefix(x.name, y.name)))
		}
		return one(mkApp("has_prefix", SBool, x, y))
	})
	I("strings.TrimPrefix", func(a *act, st *State, fn *ssa.Function, args []Val, pos token.Pos) []Val {
		x, y := tm(args[0]), tm(args[1])
		if x.op == "strlit" && y.op == "strlit" {
			return one(mkStr(strings.TrimPrefix(x.name, y.name)))
		}
		return one(mkApp("trim_prefix", SStr, x, y))
	})
	I("strings.Split", func(a *act, st *State, fn *ssa.Function, args []Val, pos token.Pos) []Val {
		x, y := tm(args[0]), tm(args[1])
		if x.op == "strlit" && y.op == "strlit" {
			ps := strings.Split(x.name, y.name)
			id := mkInt(a.c.alloc(st))
			arr := mkConstArr(ArraySort(SInt, SStr), mkStr(""))
			for i, p := range ps {
				arr = mkStore(arr, mkInt(int64(i)), mkStr(p))
			}
			a.c.setElems(st, types.Typ[types.String], id, arr)
			n := mkInt(int64(len(ps)))
			return one(mkCtor("mkslice", SSlice, id, mkInt(0), n, n))
		}
		return a.havocResults(st, fn.Signature, "split")
	})
	I("strconv.ParseUint", func(a *act, st *State, fn *ssa.Function, args []Val, pos token.Pos) []Val {
		x, b, z := tm(args[0]), tm(args[1]), tm(args[2])
		if x.op == "strlit" && b.op == "int" && z.op == "int" {
			n, err := strconv.ParseUint(x.name, int(b.big.Int64()), int(z.big.Int64()))
			e := anil
			if err != nil {
				e = a.c.newErr(st, nil)
			}
			return []Val{bigLit(strconv.FormatUint(n, 10)), e}
		}
		return a.havocResults(st, fn.Signature, "parse")
	})
	I("strconv.Atoi", func(a *act, st *State, fn *ssa.Function, args []Val, pos token.Pos) []Val {
		x := tm(args[0])
		if x.op == "strlit" {
			n, err := strconv.Atoi(x.name)
			e := anil
			if err != nil {
				e = a.c.newErr(st, nil)
			}
			return []Val{mkInt(int64(n)), e}
		}
		return a.havocResults(st, fn.Signature, "parse")
	})
	I("(reflect.StructTag).Get", func(a *act, st *State, fn *ssa.Function, args []Val, pos token.Pos) []Val {
		x, y := tm(args[0]), tm(args[1])
		if x.op == "strlit" && y.op == "strlit" {
			return one(mkStr(reflect.StructTag(x.name).Get(y.name)))
		}
		return one(mkApp("struct_tag", SStr, x, y))
	})
	I("(reflect.StructTag).Lookup", func(a *act, st *State, fn *ssa.Function, args []Val, pos token.Pos) []Val {
		x, y := tm(args[0]), tm(args[1])
		if x.op == "strlit" && y.op == "strlit" {
			v, ok := reflect.StructTag(x.name).Lookup(y.name)
			return []Val{mkStr(v), mkBool(ok)}
		}
		panic(unsupported("StructTag.Lookup"))
	})

	// --- binary tokens ---
	I("encoding/binary.Write", func(a *act, st *State, fn *ssa.Function, args []Val, pos token.Pos) []Val {
		c := a.c
		w, order, data := tm(args[0]), tm(args[1]), tm(args[2])
		on := orderName(order)
		if w.op == "ctor" && w.name != "aother" && w.name != "anil" && on != "" && data.op == "ctor" && boxByCtor[data.name] != nil {
			bi := boxByCtor[w.name]
			pt, ok := bi.typ.Underlying().(*types.Pointer)
			if ok && isNamed(pt.Elem(), "bytes", "Buffer") {
				dt := boxByCtor[data.name].typ
				v := data.args[0]
				if dp, isp := dt.Underlying().(*types.Pointer); isp {
					dt = dp.Elem()
					v = c.load(st, v, dt)
				}
				if !fixedSize(dt) {
					return one(c.newErr(st, nil))
				}
				c.assumption("encoding/binary: Read inverts Write for fixed-size values of the same type and byte order")
				enc, _, _ := codecNames(on, dt)
				if types.SizesFor("gc", "amd64").Sizeof(dt) > 0 {
					c.fact(mkNot(mkEq(mkApp(enc, SStr, v), mkStr(""))))
				}
				s := c.concat(c.bufStr(st, w.args[0], pt.Elem()), mkApp(enc, SStr, v))
				c.store(st, w.args[0], pt.Elem(), mkApp("bufOf", SInt, s))
				return one(anil)
			}
		}
		panic(unsupported("binary.Write to this destination"))
	})
	I("(*bytes.Buffer).Bytes", func(a *act, st *State, fn *ssa.Function, args []Val, pos token.Pos) []Val {
		c := a.c
		t := fn.Signature.Recv().Type().Underlying().(*types.Pointer).Elem()
		return one(c.strSlice(st, c.bufStr(st, tm(args[0]), t)))
	})
	I("(*bytes.Buffer).String", func(a *act, st *State, fn *ssa.Function, args []Val, pos token.Pos) []Val {
		t := fn.Signature.Recv().Type().Underlying().(*types.Pointer).Elem()
		return one(a.c.bufStr(st, tm(args[0]), t))
	})
	newBuf := func(a *act, st *State, fn *ssa.Function, args []Val, pos token.Pos) []Val {
		c := a.c
		id := c.alloc(st)
		p := mkCtor("ptr", SRef, mkInt(id), pnil)
		t := fn.Signature.Results().At(0).Type().Underlying().(*types.Pointer).Elem()
		s := tm(args[0])
		if s.sort == SSlice {
			s = c.bytesToStr(st, types.Typ[types.Byte], s)
		}
		c.store(st, p, t, mkApp("bufOf", SInt, s))
		return one(p)
	}
	I("bytes.NewReader", newBuf)
	I("bytes.NewBuffer", newBuf)
	I("bytes.NewBufferString", newBuf)
	I("encoding/binary.Read", func(a *act, st *State, fn *ssa.Function, args []Val, pos token.Pos) []Val {
		c := a.c
		r, order, data := tm(args[0]), tm(args[1]), tm(args[2])
		on := orderName(order)
		if r.op == "ctor" && boxByCtor[r.name] != nil && on != "" && data.op == "ctor" && boxByCtor[data.name] != nil {
			pt, ok := boxByCtor[r.name].typ.Underlying().(*types.Pointer)
			dp, ok2 := boxByCtor[data.name].typ.Underlying().(*types.Pointer)
			if ok && ok2 && (isNamed(pt.Elem(), "bytes", "Reader") || isNamed(pt.Elem(), "bytes", "Buffer")) {
				dt := dp.Elem()
				if !fixedSize(dt) {
					return one(c.newErr(st, nil))
				}
				c.assumption("encoding/binary: Read inverts Write for fixed-size values of the same type and byte order")
				_, okn, decn := codecNames(on, dt)
				s := c.bufStr(st, r.args[0], pt.Elem())
				okT := mkApp(okn, SBool, s)
				v := c.norm(st, mkApp(decn, sortOf(dt), s), dt)
				old := c.load(st, data.args[0], dt)
				c.store(st, data.args[0], dt, mkIte(okT, v, old))
				c.store(st, r.args[0], pt.Elem(), mkInt(c.alloc(st)))
				return one(mkIte(okT, anil, c.newErr(st, nil)))
			}
		}
		panic(unsupported("binary.Read from this source"))
	})
	I("(*encoding/base64.Encoding).EncodeToString", func(a *act, st *State, fn *ssa.Function, args []Val, pos token.Pos) []Val {
		c := a.c
		e := tm(args[0])
		s := c.bytesToStr(st, types.Typ[types.Byte], tm(args[1]))
		b64Axioms()
		c.assumption("encoding/base64: DecodeString inverts EncodeToString of the same encoding")
		return one(mkApp("b64enc", SStr, e, s))
	})
	I("(*encoding/base64.Encoding).DecodeString", func(a *act, st *State, fn *ssa.Function, args []Val, pos token.Pos) []Val {
		c := a.c
		e, s := tm(args[0]), tm(args[1])
		b64Axioms()
		c.assumption("encoding/base64: DecodeString inverts EncodeToString of the same encoding")
		ok := mkApp("b64ok", SBool, e, s)
		d := mkApp("b64dec", SStr, e, s)
		if s.op == "app" && s.name == "b64enc" && s.args[0] == e {
			ok, d = tTrue, s.args[1]
		}
		sl := c.strSlice(st, d)
		return []Val{sl, mkIte(ok, anil, c.newErr(st, nil))}
	})

	// --- sorting ---
	I("sort.Slice", sortSlice)
	I("sort.SliceStable", sortSlice)

	// --- quiet logging ---
	quiet := func(a *act, st *State, fn *ssa.Function, args []Val, pos token.Pos) []Val {
		rs := a.havocResults(st, fn.Signature, fn.Name())
		for i, r := range rs {
			if _, ok := fn.Signature.Results().At(i).Type().Underlying().(*types.Pointer); ok {
				a.c.fact(mkNot(mkEq(mkSel("root", SInt, r.(*Term)), mkInt(0))))
			}
		}
		return rs
	}
	for _, p := range []string{"log/slog.", "(*log/slog.Logger).", "log.", "(*log.Logger)."} {
		intrinsicPrefix = append(intrinsicPrefix, prefixIntrinsic{p, quiet})
	}
	I("(*github.com/cenkalti/backoff/v4.ExponentialBackOff).Reset", nop)
	I("github.com/cenkalti/backoff/v4.WithContext", func(a *act, st *State, fn *ssa.Function, args []Val, pos token.Pos) []Val {
		r := mkCtor("aother", SAny, mkInt(tagObj), mkInt(a.c.alloc(st)))
		return one(r)
	})
	I("github.com/cenkalti/backoff/v4.NewExponentialBackOff", quiet)
	I("github.com/cenkalti/backoff/v4.RetryNotify", retryNotify)
	I("github.com/cenkalti/backoff/v4.Retry", retryNotify)
	initReflect()
}

func satDur(d *Term) *Term {
	lo, hi := bigLit("-9223372036854775808"), bigLit("9223372036854775807")
	return mkIte(mkLt(d, lo), lo, mkIte(mkGt(d, hi), hi, d))
}

func b64Axioms() {
	if _, ok := ufAxioms["b64enc"]; ok {
		return
	}
	ufAxioms["b64enc"] = func() []*Term {
		e, x := mkBV("e", SRef), mkBV("x", SStr)
		t := mkApp("b64enc", SStr, e, x)
		return []*Term{mkForall([]*Term{e, x}, mkAnd(mkEq(mkEq(t, mkStr("")), mkEq(x, mkStr(""))), mkApp("b64ok", SBool, e, t), mkEq(mkApp("b64dec", SStr, e, t), x)), []*Term{t})}
	}
}

func (c *Ctx) ctxValue(ctx, k *Term) *Term {
	if ctx.op == "ite" {
		return mkIte(ctx.args[0], c.ctxValue(ctx.args[1], k), c.ctxValue(ctx.args[2], k))
	}
	if ctx.op == "ctor" && ctx.name == "aother" && ctx.args[1].op == "int" {
		if p, ok := c.ctxParents[ctx.args[1].big.Int64()]; ok && ctx.args[0] == mkInt(tagCtx) {
			if p[1] == nil {
				return c.ctxValue(p[0], k)
			}
			return mkIte(mkEq(p[1], k), p[2], c.ctxValue(p[0], k))
		}
	}
	return mkApp("im_Value", SAny, ctx, k)
}

// sortSlice models sort.Slice: the elements are permuted so that no element is
// less than an earlier one.  It relies on the comparison being a strict weak
// order, which becomes an obligation.
func sortSlice(a *act, st *State, fn *ssa.Function, args []Val, pos token.Pos) []Val {
	c := a.c
	x := tm(args[0])
	if x.op != "ctor" || boxByCtor[x.name] == nil {
		panic(unsupported("sort.Slice of an unknown type"))
	}
	sl, ok := boxByCtor[x.name].typ.Underlying().(*types.Slice)
	if !ok {
		panic(unsupported("sort.Slice of a non-slice"))
	}
	s := x.args[0]
	et := sl.Elem()
	arr, off, ln := mkSel("s-arr", SInt, s), mkSel("s-off", SInt, s), mkSel("s-len", SInt, s)
	old := c.elems(st, et, arr)
	lessT := fn.Signature.Params().At(1).Type()
	less := func(s0 *State, i, j *Term) *Term {
		s1 := s0.clone()
		s1.pc = mkAnd(s0.pc, mkLe(mkInt(0), i), mkLt(i, ln), mkLe(mkInt(0), j), mkLt(j, ln))
		r := a.callFnTerm(s1, tm(args[1]), lessT, []Val{i, j}, pos)
		if s1.pc == tFalse || len(r) == 0 {
			panic(unsupported("sort.Slice: comparison does not return"))
		}
		return tm(r[0])
	}
	// strict weak order on the initial contents
	n0 := freshCtr
	i, j, k := fresh("si", SInt), fresh("sj", SInt), fresh("sk", SInt)
	c.fact(mkAnd(mkLe(mkInt(0), i), mkLe(mkInt(0), j), mkLe(mkInt(0), k)))
	rng := func(ts ...*Term) *Term {
		var cs []*Term
		for _, t := range ts {
			cs = append(cs, mkLe(mkInt(0), t), mkLt(t, ln))
		}
		return mkAnd(cs...)
	}
	saved := c.facts
	lij := less(st, i, j)
	noFresh := func(l *Term, ok ...*Term) {
		cs, _, _, _, _ := collect([]*Term{l})
		for _, x := range cs {
			if x.id <= ok[0].id || strings.HasPrefix(x.name, "H@") || x == ok[0] || x == ok[1] || len(ok) > 2 && x == ok[2] {
				continue
			}
			panic(unsupported("sort.Slice: comparison is not a function of the elements"))
		}
	}
	noFresh(lij, i, j, k)
	bi := map[int]*Term{}
	gen := func(l *Term, x, y, nx, ny *Term) *Term {
		return subst(subst(subst(l, map[int]*Term{x.id: mkConst("$tmpx", SInt)}), map[int]*Term{y.id: ny}), map[int]*Term{mkConst("$tmpx", SInt).id: nx})
	}
	_ = bi
	at := func(x, y *Term) *Term { return gen(lij, i, j, x, y) }
	swo := mkImp(rng(i, j, k), mkAnd(
		mkNot(at(i, i)),
		mkImp(mkAnd(at(i, j), at(j, k)), at(i, k)),
		mkImp(mkAnd(mkNot(at(i, j)), mkNot(at(j, i)), mkNot(at(j, k)), mkNot(at(k, j))), mkAnd(mkNot(at(i, k)), mkNot(at(k, i)))),
	))
	c.oblige(st, "order", c.unit.Name+"/sort-strict-weak-order", []string{"*"}, swo, pos)
	c.facts = saved
	_ = n0
	// permuted contents
	nw := fresh("sorted", old.sort)
	perm := "perm_" + itoa(freshCtr)
	inv := "pinv_" + itoa(freshCtr)
	c.setElems(st, et, arr, nw)
	bx, by := mkBV("i", SInt), mkBV("j", SInt)
	px := mkApp(perm, SInt, bx)
	ix := mkApp(inv, SInt, bx)
	sel := func(a0, idx *Term) *Term { return mkSelect(a0, mkAdd(off, idx)) }
	in := mkAnd(mkLe(mkInt(0), bx), mkLt(bx, ln))
	c.fact(mkForall([]*Term{bx}, mkImp(in, mkAnd(mkLe(mkInt(0), px), mkLt(px, ln), mkEq(mkApp(inv, SInt, px), bx), mkEq(sel(nw, bx), sel(old, px)))), []*Term{px}, []*Term{sel(nw, bx)}))
	c.fact(mkForall([]*Term{bx}, mkImp(in, mkAnd(mkLe(mkInt(0), ix), mkLt(ix, ln), mkEq(mkApp(perm, SInt, ix), bx), mkEq(sel(nw, ix), sel(old, bx)))), []*Term{ix}, []*Term{sel(old, bx)}))
	// elements outside the slice keep their place
	c.fact(mkForall([]*Term{bx}, mkImp(mkOr(mkLt(bx, off), mkLe(mkAdd(off, ln), bx)), mkEq(mkSelect(nw, bx), mkSelect(old, bx))), []*Term{mkSelect(nw, bx)}))
	// sortedness
	i2, j2 := fresh("ti", SInt), fresh("tj", SInt)
	saved = c.facts
	l2 := less(st, i2, j2)
	c.facts = saved
	noFresh(l2, i2, j2)
	gx := gen(l2, i2, j2, by, bx) // less(by, bx)
	c.fact(mkForall([]*Term{bx, by}, mkImp(mkAnd(mkLe(mkInt(0), bx), mkLt(bx, by), mkLt(by, ln)), mkNot(gx)), []*Term{sel(nw, bx), sel(nw, by)}))
	c.setG(st, "$sortarr:"+nw.sort.Name, nw)
	c.setG(st, "$sortoff:"+nw.sort.Name, off)
	c.setG(st, "$sortlen:"+nw.sort.Name, ln)
	return nil
}

// retryNotify: zero or more failed attempts (after which memory is arbitrary),
// then an attempt that succeeds or is the last one.
func retryNotify(a *act, st *State, fn *ssa.Function, args []Val, pos token.Pos) []Val {
	c := a.c
	a.noLocks(st, "backoff.Retry", pos)
	opT := fn.Signature.Params().At(0).Type()
	var out []Val
	a.metaLoop(st, "retry", func(st *State) *State {
		out = nil
		r := a.callFnTerm(st, tm(args[0]), opT, nil, pos)
		if st.pc == tFalse {
			return nil
		}
		e := tm(r[0])
		var again *State
		out = a.split(st, mkEq(e, anil), func(s *State) []Val { return one(anil) }, func(s *State) []Val {
			more := fresh("retry_more", SBool)
			n := s.with(more)
			if len(args) > 2 {
				d := c.havocVal(n, int64T, "backoff")
				nt := fn.Signature.Params().At(2).Type()
				if f := tm(args[2]); f.op != "int" || f.big.Sign() != 0 {
					a.callFnTerm(n, f, nt, []Val{e, d}, pos)
				}
			}
			var rest []*State
			rest = append(rest, s.with(mkNot(more)))
			if n.pc != tFalse {
				again = n.clone()
				rest = append(rest, n)
			}
			x := fresh("retry_err", SAny)
			c.fact(mkNot(mkEq(x, anil)))
			m, _ := c.mergeStates(rest)
			*s = *m
			return one(x)
		})
		return again
	})
	if st.pc == tFalse {
		return nil
	}
	return out
}

// ctxErr is the error a finished context reports.
func (c *Ctx) ctxErr(ctx *Term) *Term {
	t := mkApp("im_Err", SAny, ctx)
	var alts []*Term
	if p := c.e.prog.ImportedPackage("context"); p != nil {
		for _, n := range []string{"Canceled", "DeadlineExceeded"} {
			if g := p.Var(n); g != nil {
				c.globalRef(g)
				alts = append(alts, mkEq(t, c.sentinelVal(c.e.globalIDs[g])))
			}
		}
	}
	if len(alts) == 2 {
		c.assumption("a finished context reports context.Canceled or context.DeadlineExceeded, the same one every time")
		c.fact(mkOr(alts...))
	} else {
		c.fact(mkNot(mkEq(t, anil)))
	}
	return t
}
