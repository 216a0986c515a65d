package main

// Mapping of Go types to sorts, zero values, boxing.

import (
	"fmt"
	"go/types"
	"strings"
	"sync"
)

var structSorts = map[string]*Sort{}
var structTypeOf = map[*Sort]types.Type{}
var typeNames = map[string]types.Type{}

// qualifier: short but unique enough package paths
func qual(p *types.Package) string { return p.Path() }
func typeKey(t types.Type) string {
	t = types.Unalias(t)
	if k, ok := typeKeys.Load(t); ok {
		return k.(string)
	}
	k := strings.ReplaceAll(types.TypeString(unaliasDeep(t), qual), "interface{}", "any")
	typeKeys.Store(t, k)
	return k
}

var typeKeys sync.Map

// unaliasDeep resolves the aliases inside a type literal.
func unaliasDeep(t types.Type) types.Type {
	t = types.Unalias(t)
	switch x := t.(type) {
	case *types.Pointer:
		if e := unaliasDeep(x.Elem()); e != x.Elem() {
			return types.NewPointer(e)
		}
	case *types.Slice:
		if e := unaliasDeep(x.Elem()); e != x.Elem() {
			return types.NewSlice(e)
		}
	case *types.Array:
		if e := unaliasDeep(x.Elem()); e != x.Elem() {
			return types.NewArray(e, x.Len())
		}
	case *types.Map:
		k, e := unaliasDeep(x.Key()), unaliasDeep(x.Elem())
		if k != x.Key() || e != x.Elem() {
			return types.NewMap(k, e)
		}
	case *types.Chan:
		if e := unaliasDeep(x.Elem()); e != x.Elem() {
			return types.NewChan(x.Dir(), e)
		}
	case *types.Signature:
		tup := func(u *types.Tuple) (*types.Tuple, bool) {
			var vs []*types.Var
			ch := false
			for i := 0; i < u.Len(); i++ {
				v := u.At(i)
				e := unaliasDeep(v.Type())
				if e != v.Type() {
					ch = true
				}
				vs = append(vs, types.NewVar(v.Pos(), v.Pkg(), v.Name(), e))
			}
			return types.NewTuple(vs...), ch
		}
		p, c1 := tup(x.Params())
		r, c2 := tup(x.Results())
		if c1 || c2 {
			return types.NewSignatureType(nil, nil, nil, p, r, x.Variadic())
		}
	}
	return t
}

func isNamed(t types.Type, path, name string) bool {
	n, ok := types.Unalias(t).(*types.Named)
	if !ok {
		return false
	}
	o := n.Obj()
	return o.Name() == name && o.Pkg() != nil && o.Pkg().Path() == path
}

// opaque struct types: represented as a single leaf
func opaqueSort(t types.Type) *Sort {
	n, ok := types.Unalias(t).(*types.Named)
	if !ok {
		return nil
	}
	o := n.Obj()
	if o.Pkg() == nil {
		return nil
	}
	switch o.Pkg().Path() {
	case "time":
		if o.Name() == "Time" {
			return STime
		}
		if o.Name() == "Timer" || o.Name() == "Ticker" {
			return nil
		}
	case "sync", "sync/atomic", "internal/sync":
		if _, ok := n.Underlying().(*types.Struct); ok {
			return SInt
		}
	case "reflect":
		if o.Name() == "Value" || o.Name() == "StructField" {
			return nil
		}
	case "crypto/tls", "crypto/x509", "net/http", "encoding/json", "bytes", "net/url", "crypto/ecdh":
		// opaque unless listed
		if o.Name() == "Config" || o.Name() == "Certificate" && o.Pkg().Path() == "crypto/tls" {
			return nil
		}
		if _, ok := n.Underlying().(*types.Struct); ok {
			return SInt
		}
	case "github.com/Azure/go-amqp":
		switch o.Name() {
		case "Conn", "Session", "Receiver", "Sender":
			return SInt
		}
	case "log/slog":
		if _, ok := n.Underlying().(*types.Struct); ok {
			return SInt
		}
	}
	return nil
}

func sortOf(t types.Type) *Sort {
	t = types.Unalias(t)
	if s := opaqueSort(t); s != nil {
		return s
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return SBool
		case u.Info()&types.IsString != 0:
			return SStr
		case u.Info()&types.IsInteger != 0:
			return SInt
		case u.Info()&types.IsFloat != 0:
			return SReal
		case u.Kind() == types.UnsafePointer:
			return SInt
		case u.Kind() == types.UntypedNil:
			return SAny
		}
	case *types.Pointer:
		return SRef
	case *types.Map, *types.Chan, *types.Signature:
		return SInt
	case *types.Interface:
		return SAny
	case *types.Slice:
		return SSlice
	case *types.Array:
		return ArraySort(SInt, sortOf(u.Elem()))
	case *types.Struct:
		return structSort(t, u)
	case *types.TypeParam:
		panic(unsupported("type parameter " + t.String()))
	}
	panic(unsupported("type " + t.String()))
}

type unsupportedErr string

func (e unsupportedErr) Error() string { return string(e) }
func unsupported(s string) error       { return unsupportedErr("unsupported: " + s) }

func structSort(t types.Type, u *types.Struct) *Sort {
	k := typeKey(t)
	if s, ok := structSorts[k]; ok {
		return s
	}
	s := &Sort{Name: "S_" + shortTypeName(t), Kind: "struct"}
	if _, ok := structByName[s.Name]; ok {
		s.Name = fmt.Sprintf("%s_%d", s.Name, len(structSorts))
	}
	structByName[s.Name] = s
	structSorts[k] = s
	structTypeOf[s] = t
	for i := 0; i < u.NumFields(); i++ {
		f := u.Field(i)
		s.Fields = append(s.Fields, SortField{Name: fmt.Sprintf("%s-%s.%d", s.Name, sanitize(f.Name()), i), Sort: sortOf(f.Type())})
	}
	regCtor("mk-"+s.Name, s, s.Fields...)
	structOrder = append(structOrder, s)
	return s
}

var structByName = map[string]*Sort{}

func shortTypeName(t types.Type) string {
	s := types.TypeString(types.Unalias(t), func(p *types.Package) string { return p.Name() })
	s = sanitize(s)
	if len(s) > 80 {
		s = s[:80]
	}
	return s
}

func mkStruct(s *Sort, args ...*Term) *Term { return mkCtor("mk-"+s.Name, s, args...) }

func isStructT(t types.Type) (*types.Struct, bool) {
	if opaqueSort(t) != nil {
		return nil, false
	}
	u, ok := types.Unalias(t).Underlying().(*types.Struct)
	return u, ok
}

func isArrayT(t types.Type) (*types.Array, bool) {
	u, ok := types.Unalias(t).Underlying().(*types.Array)
	return u, ok
}

func earlyCtor(name string, s *Sort, args ...*Term) *Term {
	if !_ctorsReady {
		panic("constructors")
	}
	return mkCtor(name, s, args...)
}

var pnil = earlyCtor("pnil", SPath)
var nilRef = earlyCtor("ptr", SRef, mkInt(0), pnil)
var nilSlice = earlyCtor("mkslice", SSlice, mkInt(0), mkInt(0), mkInt(0), mkInt(0))
var anil = earlyCtor("anil", SAny)

func zeroVal(t types.Type) *Term {
	t = types.Unalias(t)
	if s := opaqueSort(t); s != nil {
		if s == STime {
			return mkApp("timeOfNano", STime, mkZeroNano())
		}
		return mkInt(0)
	}
	s := sortOf(t)
	switch s {
	case SInt:
		return mkInt(0)
	case SBool:
		return tFalse
	case SStr:
		return mkStr("")
	case SReal:
		return mk("const", "0.0", SReal)
	case SRef:
		return nilRef
	case SSlice:
		return nilSlice
	case SAny:
		return anil
	}
	switch u := t.Underlying().(type) {
	case *types.Struct:
		var args []*Term
		for i := 0; i < u.NumFields(); i++ {
			args = append(args, zeroVal(u.Field(i).Type()))
		}
		return mkStruct(s, args...)
	case *types.Array:
		return mkConstArr(s, zeroVal(u.Elem()))
	}
	panic(unsupported("zero of " + t.String()))
}

// year 1 in nanoseconds since the epoch
func mkZeroNano() *Term {
	return mkMul(mkInt(-62135596800), mkInt(1000000000))
}

// ---------- boxing ----------

type boxInfo struct {
	typ  types.Type
	name string
	tid  int64
	sort *Sort
}

var boxes = map[string]*boxInfo{}
var boxByCtor = map[string]*boxInfo{}

func boxOf(t types.Type) *boxInfo {
	t = types.Unalias(t)
	k := typeKey(t)
	if b, ok := boxes[k]; ok {
		return b
	}
	s := sortOf(t)
	if b, ok := boxes[k]; ok { // registered while computing sorts
		return b
	}
	b := &boxInfo{typ: t, tid: int64(len(boxes) + 1), sort: s}
	b.name = fmt.Sprintf("box_%s_%d", shortTypeName(t), b.tid)
	boxes[k] = b
	boxByCtor[b.name] = b
	regCtor(b.name, SAny, SortField{fmt.Sprintf("unbox_%d", b.tid), s})
	anyBoxes = append(anyBoxes, b.name)
	return b
}

func mkBox(t types.Type, v *Term) *Term { return mkCtor(boxOf(t).name, SAny, v) }
func mkUnbox(t types.Type, v *Term) *Term {
	b := boxOf(t)
	return mkSel(fmt.Sprintf("unbox_%d", b.tid), b.sort, v)
}
func mkIsBox(t types.Type, v *Term) *Term { return mkIs(boxOf(t).name, v) }

func tyidTerm(v *Term) *Term {
	if v.op == "ctor" {
		switch v.name {
		case "anil":
			return mkInt(0)
		case "aother":
		default:
			return mkInt(boxByCtor[v.name].tid)
		}
	}
	if v.op == "ite" {
		return mkIte(v.args[0], tyidTerm(v.args[1]), tyidTerm(v.args[2]))
	}
	return mkApp("tyid", SInt, v)
}

func tyidDef() string {
	var sb strings.Builder
	sb.WriteString("(define-fun tyid ((a Any)) Int ")
	n := 0
	sb.WriteString("(ite ((_ is anil) a) 0 ")
	n++
	for _, c := range anyBoxes {
		fmt.Fprintf(&sb, "(ite ((_ is %s) a) %d ", smtName(c), boxByCtor[c].tid)
		n++
	}
	sb.WriteString("(+ 1000000 (ite (<= 0 (ao-t a)) (ao-t a) (- (ao-t a))))")
	sb.WriteString(strings.Repeat(")", n) + ")\n")
	return sb.String()
}

// integer ranges
func intRange(t types.Type) (lo, hi string, ok bool) {
	b, isb := types.Unalias(t).Underlying().(*types.Basic)
	if !isb {
		return "", "", false
	}
	switch b.Kind() {
	case types.Int, types.Int64:
		return "-9223372036854775808", "9223372036854775807", true
	case types.Int32:
		return "-2147483648", "2147483647", true
	case types.Int16:
		return "-32768", "32767", true
	case types.Int8:
		return "-128", "127", true
	case types.Uint, types.Uint64, types.Uintptr:
		return "0", "18446744073709551615", true
	case types.Uint32:
		return "0", "4294967295", true
	case types.Uint16:
		return "0", "65535", true
	case types.Uint8:
		return "0", "255", true
	}
	return "", "", false
}
