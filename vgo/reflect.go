package main

// Model of the reflect operations used by the attribute codec.  reflect.Type
// values are interface values of a pseudo type whose payload identifies the
// type; reflect.Value values are meta-level values.

import (
	"go/token"
	"go/types"
	"reflect"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type RV struct {
	invalid bool
	inv     *Term // condition under which the value is the zero Value (nil: never)
	opaque  bool
	typ     types.Type // concrete type
	val     *Term      // value, when not addressable
	addr    *Term      // address, when addressable
	dyn     *Term      // interface value whose dynamic type is not known
	isNil   *Term      // whether that value is nil, once asked
	ro      bool       // obtained through an unexported field
}

type RVCell struct{ v *RV }

func isReflectValue(t types.Type) bool { return t != nil && isNamed(t, "reflect", "Value") }

var rtypeT = types.NewNamed(types.NewTypeName(token.NoPos, types.NewPackage("vgo", "vgo"), "rtype", nil), types.Typ[types.Int64], nil)

func isPseudo(t types.Type) bool { return t == rtypeT }

// ---------- type identities ----------

var rtypeByID = map[int64]types.Type{}
var rtypeIface = map[string]int64{}

func rtid(t types.Type) int64 {
	t = types.Unalias(t)
	if types.IsInterface(t) {
		k := typeKey(t)
		id, ok := rtypeIface[k]
		if !ok {
			id = -1 - int64(len(rtypeIface))
			rtypeIface[k] = id
			rtypeByID[id] = t
		}
		return id
	}
	id := boxOf(t).tid
	rtypeByID[id] = t
	return id
}

func rtypeOf(t types.Type) *Term { return mkBox(rtypeT, mkInt(rtid(t))) }

func typeByRtid(t *Term) types.Type {
	if t.op != "int" {
		return nil
	}
	if x := rtypeByID[t.big.Int64()]; x != nil {
		return x
	}
	for _, b := range boxes {
		if b.tid == t.big.Int64() {
			return b.typ
		}
	}
	return nil
}

func kindOf(t types.Type) reflect.Kind {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch u.Kind() {
		case types.Bool:
			return reflect.Bool
		case types.Int:
			return reflect.Int
		case types.Int8:
			return reflect.Int8
		case types.Int16:
			return reflect.Int16
		case types.Int32:
			return reflect.Int32
		case types.Int64:
			return reflect.Int64
		case types.Uint:
			return reflect.Uint
		case types.Uint8:
			return reflect.Uint8
		case types.Uint16:
			return reflect.Uint16
		case types.Uint32:
			return reflect.Uint32
		case types.Uint64:
			return reflect.Uint64
		case types.Uintptr:
			return reflect.Uintptr
		case types.Float32:
			return reflect.Float32
		case types.Float64:
			return reflect.Float64
		case types.String:
			return reflect.String
		case types.UnsafePointer:
			return reflect.UnsafePointer
		}
	case *types.Pointer:
		return reflect.Pointer
	case *types.Struct:
		return reflect.Struct
	case *types.Map:
		return reflect.Map
	case *types.Slice:
		return reflect.Slice
	case *types.Array:
		return reflect.Array
	case *types.Chan:
		return reflect.Chan
	case *types.Signature:
		return reflect.Func
	case *types.Interface:
		return reflect.Interface
	}
	return reflect.Invalid
}

// kind of a type known only by its identity
func symKind(tid *Term) *Term {
	if t := typeByRtid(tid); t != nil {
		return mkInt(int64(kindOf(t)))
	}
	if _, ok := ufAxioms["rt_kind"]; !ok {
		ufAxioms["rt_kind"] = func() []*Term {
			var out []*Term
			for _, b := range anyBoxes {
				bi := boxByCtor[b]
				if !isPseudo(bi.typ) {
					out = append(out, mkEq(mk("app", "rt_kind", SInt, mkInt(bi.tid)), mkInt(int64(kindOf(bi.typ)))))
				}
			}
			return out
		}
		mkApp("rt_kind", SInt, mkInt(0))
	}
	return mkApp("rt_kind", SInt, tid)
}

// element type of a pointer type known only by its identity
func symElem(tid *Term) *Term {
	if _, ok := ufAxioms["rt_elem"]; !ok {
		ufAxioms["rt_elem"] = func() []*Term {
			var out []*Term
			x := mkBV("x", SInt)
			ap := mkApp("rt_elem", SInt, x)
			for _, b := range anyBoxes {
				bi := boxByCtor[b]
				p, ok := bi.typ.Underlying().(*types.Pointer)
				if !ok || isPseudo(bi.typ) {
					continue
				}
				if _, named := types.Unalias(bi.typ).(*types.Named); named {
					continue
				}
				if types.IsInterface(p.Elem()) {
					continue
				}
				if eb, ok := boxes[typeKey(types.Unalias(p.Elem()))]; ok {
					out = append(out, mkForall([]*Term{x}, mkImp(mkAnd(mkEq(symKind(x), mkInt(int64(reflect.Pointer))), mkEq(ap, mkInt(eb.tid))), mkEq(x, mkInt(bi.tid))), []*Term{ap}))
				}
			}
			return out
		}
	}
	return mkApp("rt_elem", SInt, tid)
}

// ---------- values ----------

func mergeRV(c *Term, x, y *RV) *RV {
	if rvSame(x, y) {
		return x
	}
	if x.addr != nil && y.addr != nil && types.Identical(x.typ, y.typ) && x.inv == y.inv {
		return &RV{typ: x.typ, addr: mkIte(c, x.addr, y.addr), inv: x.inv, ro: x.ro || y.ro}
	}
	if x.val != nil && y.val != nil && types.Identical(x.typ, y.typ) && x.inv == y.inv {
		return &RV{typ: x.typ, val: mkIte(c, x.val, y.val), inv: x.inv, ro: x.ro || y.ro}
	}
	if x.dyn != nil && y.dyn != nil && !x.opaque && !y.opaque {
		inv := func(v *RV) *Term {
			if v.invalid {
				return tTrue
			}
			if v.inv != nil {
				return v.inv
			}
			return tFalse
		}
		return &RV{dyn: mkIte(c, x.dyn, y.dyn), inv: mkIte(c, inv(x), inv(y)), ro: x.ro || y.ro}
	}
	return &RV{opaque: true}
}

func rvSame(x, y *RV) bool {
	if x == y {
		return true
	}
	return x.invalid == y.invalid && x.inv == y.inv && x.opaque == y.opaque && !x.opaque && x.val == y.val && x.addr == y.addr && x.dyn == y.dyn && x.ro == y.ro &&
		(x.typ == y.typ || x.typ != nil && y.typ != nil && types.Identical(x.typ, y.typ))
}

func (c *Ctx) rvTerm(st *State, rv *RV) *Term {
	panic(unsupported("reflect.Value stored in memory"))
}

func (a *act) rvValid(st *State, v *RV, pos token.Pos) {
	if v.opaque {
		panic(unsupported("operation on an unknown reflect.Value"))
	}
	if v.invalid {
		a.must(st, tFalse, "reflect-zero-Value", pos)
		st.pc = tFalse
		return
	}
	if v.inv != nil {
		a.must(st, mkNot(v.inv), "reflect-zero-Value", pos)
	}
	if v.dyn != nil {
		a.must(st, mkNot(mkEq(v.dyn, anil)), "reflect-zero-Value", pos)
	}
}

func (a *act) rvLoad(st *State, v *RV) *Term {
	if v.val != nil {
		return v.val
	}
	if v.addr != nil {
		return a.c.norm(st, a.c.load(st, v.addr, v.typ), v.typ)
	}
	panic(unsupported("value of an unknown reflect.Value"))
}

func (a *act) rvOf(st *State, x *Term) *RV {
	x = simplifyIte(st.pc, x)
	if x == anil {
		return &RV{invalid: true}
	}
	if x.op == "ctor" && x.name != "aother" {
		return &RV{typ: boxByCtor[x.name].typ, val: x.args[0]}
	}
	return &RV{dyn: x}
}

func (a *act) rvType(st *State, v *RV, pos token.Pos) *Term {
	a.rvValid(st, v, pos)
	if st.pc == tFalse {
		return anil
	}
	if v.typ != nil {
		return rtypeOf(v.typ)
	}
	return mkBox(rtypeT, tyidTerm(v.dyn))
}

func (a *act) rvElem(st *State, v *RV, pos token.Pos) *RV {
	a.rvValid(st, v, pos)
	if st.pc == tFalse {
		return &RV{invalid: true}
	}
	if v.typ == nil {
		// dynamic value of unknown type: only its element type is known
		k := symKind(tyidTerm(v.dyn))
		a.must(st, mkOr(mkEq(k, mkInt(int64(reflect.Pointer))), mkEq(k, mkInt(int64(reflect.Interface)))), "reflect-kind", pos)
		isnil := v.dynNil()
		e := fresh("dyn_elem", SAny)
		a.c.fact(mkNot(mkEq(e, anil)))
		a.c.fact(mkEq(tyidTerm(e), symElem(tyidTerm(v.dyn))))
		return &RV{dyn: e, inv: isnil}
	}
	p, ok := v.typ.Underlying().(*types.Pointer)
	if !ok {
		a.must(st, tFalse, "reflect-kind", pos)
		st.pc = tFalse
		return &RV{invalid: true}
	}
	r := a.rvLoad(st, v)
	isnil := mkEq(mkSel("root", SInt, r), mkInt(0))
	isnil = simplifyUnder(st.pc, isnil)
	if isnil == tTrue {
		return &RV{invalid: true}
	}
	out := &RV{typ: p.Elem(), addr: r, ro: v.ro}
	if isnil != tFalse {
		out.inv = isnil
	}
	return out
}

func argRV(v Val) *RV {
	r, ok := v.(*RV)
	if !ok {
		panic(unsupported("reflect.Value expected"))
	}
	return r
}

func initReflect() {
	I := func(n string, h func(a *act, st *State, args []Val, pos token.Pos) []Val) {
		intrinsics[n] = func(a *act, st *State, fn *ssa.Function, args []Val, pos token.Pos) []Val {
			return h(a, st, args, pos)
		}
	}
	I("reflect.ValueOf", func(a *act, st *State, args []Val, pos token.Pos) []Val {
		return one(a.rvOf(st, tm(args[0])))
	})
	I("reflect.TypeOf", func(a *act, st *State, args []Val, pos token.Pos) []Val {
		x := simplifyIte(st.pc, tm(args[0]))
		if x == anil {
			return one(anil)
		}
		if x.op == "ctor" && x.name != "aother" {
			return one(rtypeOf(boxByCtor[x.name].typ))
		}
		return one(mkIte(mkEq(x, anil), anil, mkBox(rtypeT, tyidTerm(x))))
	})
	I("reflect.New", func(a *act, st *State, args []Val, pos token.Pos) []Val {
		if x := readChain(simplifyIte(st.pc, tm(args[0]))); x.op == "ite" {
			// one of several known types
			p := mkCtor("ptr", SRef, mkInt(a.c.alloc(st)), pnil)
			var rec func(cond, t *Term) *Term
			rec = func(cond, t *Term) *Term {
				if t = readChain(simplifyIte(cond, t)); t.op == "ite" {
					x, y := rec(mkAnd(cond, t.args[0]), t.args[1]), rec(mkAnd(cond, mkNot(t.args[0])), t.args[2])
					return mkIte(t.args[0], x, y)
				}
				s2 := st.with(cond)
				ty := a.rtArg(s2, t)
				if s2.pc == tFalse {
					return anil
				}
				// zero at every type it may have
				a.c.store(st, p, ty, zeroVal(ty))
				return mkBox(types.NewPointer(ty), p)
			}
			return one(&RV{dyn: rec(st.pc, x)})
		}
		t := a.rtArg(st, args[0])
		p := mkCtor("ptr", SRef, mkInt(a.c.alloc(st)), pnil)
		a.c.store(st, p, t, zeroVal(t))
		return one(&RV{typ: types.NewPointer(t), val: p})
	})
	I("reflect.PointerTo", func(a *act, st *State, args []Val, pos token.Pos) []Val {
		return one(rtypeOf(types.NewPointer(a.rtArg(st, args[0]))))
	})
	intrinsics["reflect.PtrTo"] = intrinsics["reflect.PointerTo"]
	I("reflect.Zero", func(a *act, st *State, args []Val, pos token.Pos) []Val {
		t := a.rtArg(st, args[0])
		return one(&RV{typ: t, val: zeroVal(t)})
	})
	I("reflect.Indirect", func(a *act, st *State, args []Val, pos token.Pos) []Val {
		v := argRV(args[0])
		if v.invalid {
			return one(v)
		}
		if v.typ == nil {
			if v.opaque || v.dyn == nil {
				panic(unsupported("reflect.Indirect of an unknown value"))
			}
			p := mkEq(symKind(tyidTerm(v.dyn)), mkInt(int64(reflect.Pointer)))
			s2 := st.with(p)
			e := a.rvElem(s2, v, pos)
			return one(mergeRV(p, e, v))
		}
		if kindOf(v.typ) != reflect.Pointer {
			return one(v)
		}
		return one(a.rvElem(st, v, pos))
	})
	M := func(n string, h func(a *act, st *State, v *RV, args []Val, pos token.Pos) []Val) {
		I("(reflect.Value)."+n, func(a *act, st *State, args []Val, pos token.Pos) []Val {
			return h(a, st, argRV(args[0]), args[1:], pos)
		})
	}
	M("Type", func(a *act, st *State, v *RV, args []Val, pos token.Pos) []Val {
		return one(a.rvType(st, v, pos))
	})
	M("IsValid", func(a *act, st *State, v *RV, args []Val, pos token.Pos) []Val {
		if v.opaque {
			panic(unsupported("IsValid of an unknown reflect.Value"))
		}
		bad := mkBool(v.invalid)
		if v.inv != nil {
			bad = mkOr(bad, v.inv)
		}
		if v.dyn != nil {
			bad = mkOr(bad, mkEq(v.dyn, anil))
		}
		return one(mkNot(bad))
	})
	M("Kind", func(a *act, st *State, v *RV, args []Val, pos token.Pos) []Val {
		if v.invalid {
			return one(mkInt(0))
		}
		if v.opaque {
			panic(unsupported("Kind of an unknown reflect.Value"))
		}
		var k *Term
		if v.typ != nil {
			k = mkInt(int64(kindOf(v.typ)))
		} else {
			k = mkIte(mkEq(v.dyn, anil), mkInt(0), symKind(tyidTerm(v.dyn)))
		}
		if v.inv != nil {
			k = mkIte(v.inv, mkInt(0), k)
		}
		return one(k)
	})
	M("Elem", func(a *act, st *State, v *RV, args []Val, pos token.Pos) []Val {
		return one(a.rvElem(st, v, pos))
	})
	M("Field", func(a *act, st *State, v *RV, args []Val, pos token.Pos) []Val {
		a.rvValid(st, v, pos)
		if st.pc == tFalse {
			return one(&RV{invalid: true})
		}
		i := tm(args[0])
		if v.typ == nil || i.op != "int" {
			// only fields of known values can be handled: the path must be unreachable
			a.must(st, tFalse, "reflect-unknown-value", pos)
			st.pc = tFalse
			return one(&RV{invalid: true})
		}
		u, ok := isStructT(v.typ)
		k := int(i.big.Int64())
		if !ok || k < 0 || k >= u.NumFields() {
			a.must(st, tFalse, "reflect-field", pos)
			st.pc = tFalse
			return one(&RV{invalid: true})
		}
		f := u.Field(k)
		out := &RV{typ: f.Type(), ro: v.ro || !f.Exported()}
		if v.addr != nil {
			out.addr = fieldRef(v.addr, k)
		} else {
			s := sortOf(v.typ)
			out.val = a.c.norm(st, mkSel(s.Fields[k].Name, s.Fields[k].Sort, v.val), f.Type())
		}
		return one(out)
	})
	M("NumField", func(a *act, st *State, v *RV, args []Val, pos token.Pos) []Val {
		a.rvValid(st, v, pos)
		u, ok := isStructT(v.typ)
		if !ok {
			panic(unsupported("NumField"))
		}
		return one(mkInt(int64(u.NumFields())))
	})
	M("Addr", func(a *act, st *State, v *RV, args []Val, pos token.Pos) []Val {
		a.rvValid(st, v, pos)
		if v.addr == nil {
			a.must(st, tFalse, "reflect-addr", pos)
			st.pc = tFalse
			return one(&RV{invalid: true})
		}
		return one(&RV{typ: types.NewPointer(v.typ), val: v.addr, ro: v.ro})
	})
	M("CanAddr", func(a *act, st *State, v *RV, args []Val, pos token.Pos) []Val {
		if v.opaque {
			panic(unsupported("CanAddr"))
		}
		r := mkBool(v.addr != nil)
		if v.inv != nil {
			r = mkAnd(r, mkNot(v.inv))
		}
		return one(r)
	})
	M("CanSet", func(a *act, st *State, v *RV, args []Val, pos token.Pos) []Val {
		if v.opaque {
			panic(unsupported("CanSet"))
		}
		r := mkBool(v.addr != nil && !v.ro)
		if v.inv != nil {
			r = mkAnd(r, mkNot(v.inv))
		}
		return one(r)
	})
	M("CanInterface", func(a *act, st *State, v *RV, args []Val, pos token.Pos) []Val {
		a.rvValid(st, v, pos)
		return one(mkBool(!v.ro))
	})
	M("Interface", func(a *act, st *State, v *RV, args []Val, pos token.Pos) []Val {
		a.rvValid(st, v, pos)
		if st.pc == tFalse {
			return one(anil)
		}
		if v.ro {
			a.must(st, tFalse, "reflect-unexported", pos)
		}
		if v.dyn != nil {
			return one(v.dyn)
		}
		x := a.rvLoad(st, v)
		if types.IsInterface(v.typ) {
			return one(x)
		}
		return one(mkBox(v.typ, x))
	})
	for _, s := range []struct {
		n  string
		ok func(k reflect.Kind) bool
		t  types.Type
	}{
		{"String", func(k reflect.Kind) bool { return k == reflect.String }, types.Typ[types.String]},
		{"Int", func(k reflect.Kind) bool { return k >= reflect.Int && k <= reflect.Int64 }, types.Typ[types.Int64]},
		{"Uint", func(k reflect.Kind) bool { return k >= reflect.Uint && k <= reflect.Uintptr }, types.Typ[types.Uint64]},
	} {
		s := s
		M(s.n, func(a *act, st *State, v *RV, args []Val, pos token.Pos) []Val {
			a.rvValid(st, v, pos)
			if v.typ == nil || !s.ok(kindOf(v.typ)) {
				panic(unsupported("reflect.Value." + s.n))
			}
			return one(a.rvLoad(st, v))
		})
		M("Set"+s.n, func(a *act, st *State, v *RV, args []Val, pos token.Pos) []Val {
			a.rvValid(st, v, pos)
			if v.typ == nil || !s.ok(kindOf(v.typ)) || v.addr == nil || v.ro {
				panic(unsupported("reflect.Value.Set" + s.n))
			}
			a.c.store(st, v.addr, v.typ, a.c.wrapMod(tm(args[0]), v.typ))
			return nil
		})
	}
	M("IsNil", func(a *act, st *State, v *RV, args []Val, pos token.Pos) []Val {
		a.rvValid(st, v, pos)
		if st.pc == tFalse {
			return one(tTrue)
		}
		if v.typ == nil {
			k := symKind(tyidTerm(v.dyn))
			var ok []*Term
			for _, x := range []reflect.Kind{reflect.Pointer, reflect.Map, reflect.Chan, reflect.Func, reflect.Slice, reflect.Interface, reflect.UnsafePointer} {
				ok = append(ok, mkEq(k, mkInt(int64(x))))
			}
			a.must(st, mkOr(ok...), "reflect-kind", pos)
			return one(v.dynNil())
		}
		x := a.rvLoad(st, v)
		switch v.typ.Underlying().(type) {
		case *types.Pointer:
			return one(mkEq(mkSel("root", SInt, x), mkInt(0)))
		case *types.Map, *types.Chan, *types.Signature:
			return one(mkEq(x, mkInt(0)))
		case *types.Slice:
			return one(mkEq(mkSel("s-arr", SInt, x), mkInt(0)))
		case *types.Interface:
			return one(mkEq(x, anil))
		}
		a.must(st, tFalse, "reflect-kind", pos)
		st.pc = tFalse
		return one(tTrue)
	})
	M("IsZero", func(a *act, st *State, v *RV, args []Val, pos token.Pos) []Val {
		a.rvValid(st, v, pos)
		if st.pc == tFalse {
			return one(tTrue)
		}
		if v.typ == nil {
			panic(unsupported("IsZero of an unknown value"))
		}
		return one(mkEq(a.rvLoad(st, v), zeroVal(v.typ)))
	})
	M("Set", func(a *act, st *State, v *RV, args []Val, pos token.Pos) []Val {
		a.rvValid(st, v, pos)
		x := argRV(args[0])
		if st.pc == tFalse {
			return nil
		}
		if v.addr == nil || v.ro {
			a.must(st, tFalse, "reflect-set", pos)
			st.pc = tFalse
			return nil
		}
		a.rvValid(st, x, pos)
		if st.pc == tFalse {
			return nil
		}
		if x.typ != nil {
			xv := a.rvLoad(st, x)
			if types.IsInterface(v.typ) && !types.IsInterface(x.typ) {
				xv = mkBox(x.typ, xv)
			} else if !types.AssignableTo(x.typ, v.typ) {
				a.must(st, tFalse, "reflect-assign", pos)
				st.pc = tFalse
				return nil
			}
			a.c.store(st, v.addr, v.typ, xv)
			return nil
		}
		if types.IsInterface(v.typ) {
			panic(unsupported("reflect Set of an interface"))
		}
		a.must(st, mkIsBox(v.typ, x.dyn), "reflect-assign", pos)
		a.c.store(st, v.addr, v.typ, a.c.norm(st, mkUnbox(v.typ, x.dyn), v.typ))
		return nil
	})
	I("(reflect.StructField).IsExported", func(a *act, st *State, args []Val, pos token.Pos) []Val {
		f := tm(args[0])
		s := f.sort
		u := structTypeOf[s].Underlying().(*types.Struct)
		for i := 0; i < u.NumFields(); i++ {
			if u.Field(i).Name() == "PkgPath" {
				return one(mkEq(mkSel(s.Fields[i].Name, s.Fields[i].Sort, f), mkStr("")))
			}
		}
		panic(unsupported("StructField.IsExported"))
	})
}

// rtArg: a reflect.Type argument that must be known
// readChain: reading an array just written to, as a case distinction
func readChain(t *Term) *Term {
	if t.op == "select" && t.args[0].op == "store" {
		h := t.args[0]
		return mkIte(mkEq(t.args[1], h.args[1]), h.args[2], mk("select", "", t.sort, h.args[0], t.args[1]))
	}
	return t
}

func (a *act) rtArg(st *State, v Val) types.Type {
	x := simplifyIte(st.pc, tm(v))
	if x.op == "ctor" && x.name == boxOf(rtypeT).name {
		if t := typeByRtid(x.args[0]); t != nil {
			return t
		}
	}
	if dbgCand { println("unknown type", x.String()) }
	// only types known here can be handled: the path must be unreachable
	a.must(st, tFalse, "reflect-unknown-type", token.NoPos)
	st.pc = tFalse
	return types.NewStruct(nil, nil)
}

func (a *act) rtypeMethod(st *State, recv *Term, name string, args []Val, pos token.Pos) []Val {
	panic(unsupported("reflect.Type." + name + " of an unknown type"))
}

// pseudoMethod: methods of a known reflect.Type
func (a *act) pseudoMethod(st *State, bt types.Type, id Val, name string, args []Val, pos token.Pos) []Val {
	c := a.c
	tid := tm(id)
	t := typeByRtid(tid)
	if t == nil {
		switch name {
		case "Kind":
			return one(symKind(tid))
		case "String", "Name":
			return one(fresh("typename", SStr))
		case "AssignableTo":
			panic(unsupported("AssignableTo from an unknown type"))
		}
		panic(unsupported("reflect.Type." + name + " of an unknown type"))
	}
	switch name {
	case "Kind":
		return one(mkInt(int64(kindOf(t))))
	case "Elem":
		switch u := t.Underlying().(type) {
		case *types.Pointer:
			return one(rtypeOf(u.Elem()))
		case *types.Slice:
			return one(rtypeOf(u.Elem()))
		case *types.Map:
			return one(rtypeOf(u.Elem()))
		case *types.Array:
			return one(rtypeOf(u.Elem()))
		}
		a.must(st, tFalse, "reflect-kind", pos)
		st.pc = tFalse
		return one(anil)
	case "NumField":
		u, ok := t.Underlying().(*types.Struct)
		if !ok {
			a.must(st, tFalse, "reflect-kind", pos)
			st.pc = tFalse
			return one(mkInt(0))
		}
		return one(mkInt(int64(u.NumFields())))
	case "Field":
		u, ok := t.Underlying().(*types.Struct)
		i := tm(args[0])
		if !ok || i.op != "int" || i.big.Int64() >= int64(u.NumFields()) || i.big.Sign() < 0 {
			panic(unsupported("reflect.Type.Field"))
		}
		k := int(i.big.Int64())
		f := u.Field(k)
		var sf types.Type
		for _, p := range c.e.allPkgs {
			if p.Path() == "reflect" {
				sf = p.Scope().Lookup("StructField").Type()
			}
		}
		su := sf.Underlying().(*types.Struct)
		s := sortOf(sf)
		var fs []*Term
		for j := 0; j < su.NumFields(); j++ {
			switch su.Field(j).Name() {
			case "Name":
				fs = append(fs, mkStr(f.Name()))
			case "PkgPath":
				pp := ""
				if !f.Exported() {
					pp = f.Pkg().Path()
				}
				fs = append(fs, mkStr(pp))
			case "Type":
				fs = append(fs, rtypeOf(f.Type()))
			case "Tag":
				fs = append(fs, mkStr(u.Tag(k)))
			case "Index":
				aid := mkInt(c.alloc(st))
				c.setElems(st, types.Typ[types.Int], aid, mkConstArr(ArraySort(SInt, SInt), i))
				fs = append(fs, mkCtor("mkslice", SSlice, aid, mkInt(0), mkInt(1), mkInt(1)))
			case "Anonymous":
				fs = append(fs, mkBool(f.Anonymous()))
			default:
				fs = append(fs, zeroVal(su.Field(j).Type()))
			}
		}
		return one(mkStruct(s, fs...))
	case "Implements":
		it := a.rtArg(st, args[0])
		if !types.IsInterface(it) {
			a.must(st, tFalse, "reflect-kind", pos)
			st.pc = tFalse
			return one(tFalse)
		}
		return one(mkBool(types.Implements(t, it.Underlying().(*types.Interface))))
	case "AssignableTo":
		x := simplifyIte(st.pc, tm(args[0]))
		if x.op == "ctor" && x.name == boxOf(rtypeT).name {
			if o := typeByRtid(x.args[0]); o != nil {
				return one(mkBool(types.AssignableTo(t, o)))
			}
			// an unknown dynamic (non-interface) type
			if named(t) {
				if _, basic := types.Unalias(t).(*types.Basic); !basic {
					c.assumption("no value has an unnamed type identical to a named attribute type's underlying type")
				}
				return one(mkEq(mkInt(rtid(t)), x.args[0]))
			}
		}
		panic(unsupported("AssignableTo an unknown type"))
	case "String", "Name":
		s := types.TypeString(t, func(p *types.Package) string { return p.Name() })
		if name == "Name" {
			s = s[strings.LastIndex(s, ".")+1:]
		}
		return one(mkStr(s))
	case "PkgPath":
		if n, ok := types.Unalias(t).(*types.Named); ok && n.Obj().Pkg() != nil {
			return one(mkStr(n.Obj().Pkg().Path()))
		}
		return one(mkStr(""))
	case "ConvertibleTo":
		x := simplifyIte(st.pc, tm(args[0]))
		if x.op == "ctor" && x.name == boxOf(rtypeT).name {
			if o := typeByRtid(x.args[0]); o != nil {
				return one(mkBool(types.ConvertibleTo(t, o)))
			}
		}
	}
	panic(unsupported("reflect.Type." + name))
}

// named: predeclared or defined type (not a type literal)
func named(t types.Type) bool {
	switch types.Unalias(t).(type) {
	case *types.Named, *types.Basic:
		return true
	}
	return false
}

func (v *RV) dynNil() *Term {
	if v.isNil == nil {
		v.isNil = fresh("dyn_nil", SBool)
	}
	return v.isNil
}
