package main

// Contract language: parser and evaluator.

import (
	"fmt"
	"go/types"
	"math/big"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"unicode"

	"golang.org/x/tools/go/ssa"
)

type Node struct {
	op   string // name, int, str, bin, un, call, field, index, quant, old
	name string
	args []*Node
	vars []param
	pats [][]*Node
	typ  string // type text for is/as/cast
	src  string
}
type param struct{ name, typ string }

type Clause struct {
	Name  string
	Props []string
	Expr  *Node
	Src   string
	Line  string
}

type LoopTemplate struct {
	Name string
	Vars []param
	Expr *Node
	In   string
}

type Contract struct {
	Func     string
	Key      string // Func, or Func~variant: a further contract of the same function, never used by callers
	Given    []given
	Params   []string
	Results  []string
	Props    []string
	Safety   []string
	Requires []*Clause
	Holds    []*Node  // mutexes held (for writing) throughout
	Begin    []letDef // ghost assignments at unit entry
	Ensures  []*Clause
	Assumes  []*Clause // postconditions callers may rely on but nothing checks
	Panics   *Clause   // allowed panic condition
	Modifies []*Node
	ModAll   bool
	Loops    []*LoopTemplate
	Lets     []letDef
	Locks    string // receiver-relative mutex field the function acquires and releases
	Helper   bool   // no obligation when the function does not exist
	Trusted  bool   // assumed contract (dependency)
	Pure     bool
	NoInline bool
	UseAt    bool // apply at call sites
	Covers   []*Clause
	File     string
	Splits   []*Node
	Config   map[string]string
	Hooks    []*Hook
}

// given: the map has this entry at entry to the unit (a case distinction on the input)
type given struct{ m, k, v *Node }

type letDef struct {
	name string
	expr *Node
}

// Hook: ghost monitor over events
type Hook struct {
	Event   string
	Params  []string
	Asserts []*Clause
	Defines []*Node
	Updates []letDef
	Runs    []*hookRun
}

// hookRun: executing the function value Fn twice from the state of the event establishes Post
type hookRun struct {
	Fn   *Node
	Post *Clause
}

type LockDecl struct {
	Global bool // a package-level mutex; what it guards is taken not to change while a unit runs
	Type   string
	Field  string
	Self   string
	Guards []string
	Deep   bool
	Stable bool
	Props  []string
	Inv    []*Clause
	Hist   []*Clause // two-state: between one release and the next acquisition, and within every critical section
	Defs   []*Clause // definitional facts about ghost functions: assumed, never checked
	Heaps  []string  // types whose maps are guarded contents
}

type Def struct {
	name   string
	params []param
	body   *Node
}

type Fun struct {
	name string
	args []string
	res  string
}

type Specs struct {
	Contracts   map[string]*Contract
	Order       []string
	Defs        map[string]*Def
	Funs        map[string]*Fun
	Axioms      []*Clause
	AxiomFor    map[string][]*Clause
	GlobalLocks []*LockDecl
	Locks       []*LockDecl
	FnSpecs     map[string]string // signature -> kind
	Ghosts      map[string]string
	Lemmas      []*Clause
}

// ---------- lexer ----------

type tok struct {
	k string // id int str op eof
	s string
}

func lex(s string) []tok {
	var out []tok
	i := 0
	for i < len(s) {
		ch := rune(s[i])
		switch {
		case unicode.IsSpace(ch):
			i++
		case ch == '"':
			j := i + 1
			var sb strings.Builder
			for j < len(s) && s[j] != '"' {
				if s[j] == '\\' && j+1 < len(s) {
					j++
					switch s[j] {
					case 'n':
						sb.WriteByte('\n')
					default:
						sb.WriteByte(s[j])
					}
				} else {
					sb.WriteByte(s[j])
				}
				j++
			}
			out = append(out, tok{"str", sb.String()})
			i = j + 1
		case unicode.IsDigit(ch):
			j := i
			for j < len(s) && (unicode.IsDigit(rune(s[j]))) {
				j++
			}
			out = append(out, tok{"int", s[i:j]})
			i = j
		case unicode.IsLetter(ch) || ch == '_' || ch == '$':
			j := i
			for j < len(s) && (unicode.IsLetter(rune(s[j])) || unicode.IsDigit(rune(s[j])) || s[j] == '_' || s[j] == '$') {
				j++
			}
			out = append(out, tok{"id", s[i:j]})
			i = j
		default:
			matched := false
			for _, op := range []string{"<==>", "==>", "::", "==", "!=", "<=", ">=", "&&", "||"} {
				if strings.HasPrefix(s[i:], op) {
					out = append(out, tok{"op", op})
					i += len(op)
					matched = true
					break
				}
			}
			if !matched {
				out = append(out, tok{"op", string(s[i])})
				i++
			}
		}
	}
	return append(out, tok{"eof", ""})
}

type parser struct {
	t   []tok
	p   int
	src string
}

func (p *parser) peek() tok { return p.t[p.p] }
func (p *parser) next() tok { t := p.t[p.p]; p.p++; return t }
func (p *parser) is(s string) bool {
	return p.t[p.p].s == s && (p.t[p.p].k == "op" || p.t[p.p].k == "id")
}
func (p *parser) accept(s string) bool {
	if p.is(s) {
		p.p++
		return true
	}
	return false
}
func (p *parser) expect(s string) {
	if !p.accept(s) {
		panic(fmt.Sprintf("spec: expected %q at %q in: %s", s, p.peek().s, p.src))
	}
}

func parseExpr(s string) *Node {
	p := &parser{t: lex(s), src: s}
	n := p.expr(0)
	if p.peek().k != "eof" {
		panic(fmt.Sprintf("spec: trailing %q in: %s", p.peek().s, s))
	}
	return n
}

var prec = map[string]int{"<==>": 1, "==>": 2, "||": 3, "&&": 4, "==": 5, "!=": 5, "<": 5, "<=": 5, ">": 5, ">=": 5, "+": 6, "-": 6, "*": 7, "/": 7, "%": 7}

func (p *parser) expr(min int) *Node {
	if p.is("forall") || p.is("exists") {
		op := p.next().s
		var vs []param
		for {
			nm := p.next().s
			p.expect(":")
			ty := p.typeText()
			vs = append(vs, param{nm, ty})
			if !p.accept(",") {
				break
			}
		}
		n := &Node{op: op, vars: vs}
		for p.accept("{") {
			var pt []*Node
			for {
				pt = append(pt, p.expr(0))
				if !p.accept(",") {
					break
				}
			}
			p.expect("}")
			n.pats = append(n.pats, pt)
		}
		p.expect("::")
		n.args = []*Node{p.expr(0)}
		return n
	}
	if p.is("let") {
		p.next()
		nm := p.next().s
		p.expect("=")
		v := p.expr(3)
		p.expect("::")
		return &Node{op: "let", name: nm, args: []*Node{v, p.expr(0)}}
	}
	l := p.unary()
	for {
		o := p.peek()
		pr, ok := prec[o.s]
		if o.k != "op" || !ok || pr < min {
			return l
		}
		p.next()
		var r *Node
		if o.s == "==>" {
			r = p.expr(pr) // right assoc
		} else {
			r = p.expr(pr + 1)
		}
		l = &Node{op: "bin", name: o.s, args: []*Node{l, r}}
	}
}

func (p *parser) unary() *Node {
	if p.accept("!") {
		return &Node{op: "un", name: "!", args: []*Node{p.unary()}}
	}
	if p.accept("-") {
		return &Node{op: "un", name: "-", args: []*Node{p.unary()}}
	}
	if p.accept("*") {
		return &Node{op: "un", name: "*", args: []*Node{p.unary()}}
	}
	return p.postfix(p.primary())
}

func (p *parser) primary() *Node {
	if p.is("forall") || p.is("exists") || p.is("let") {
		return p.expr(0)
	}
	t := p.next()
	switch t.k {
	case "int":
		return &Node{op: "int", name: t.s}
	case "str":
		return &Node{op: "str", name: t.s}
	case "id":
		if (t.s == "is" || t.s == "implements" || t.s == "as" || t.s == "zero" || t.s == "box" || t.s == "emptyset" || t.s == "tid" || t.s == "cast" || t.s == "sortedat" || t.s == "sortedlen" || t.s == "mk") && p.is("(") {
			p.next()
			n := &Node{op: "call", name: t.s}
			if t.s == "mk" {
				n.typ = p.typeText()
				for p.accept(",") {
					n.args = append(n.args, p.expr(0))
				}
			} else if t.s != "zero" && t.s != "sortedlen" && t.s != "emptyset" && t.s != "tid" {
				n.args = append(n.args, p.expr(0))
				if p.accept(",") {
					n.typ = p.typeText()
				}
			} else {
				n.typ = p.typeText()
			}
			p.expect(")")
			return n
		}
		return &Node{op: "name", name: t.s}
	case "op":
		if t.s == "(" {
			n := p.expr(0)
			p.expect(")")
			return n
		}
	}
	panic(fmt.Sprintf("spec: unexpected %q in: %s", t.s, p.src))
}

func (p *parser) postfix(n *Node) *Node {
	for {
		switch {
		case p.accept("."):
			f := p.next().s
			n = &Node{op: "field", name: f, args: []*Node{n}}
		case p.accept("["):
			i := p.expr(0)
			if p.accept(":") {
				var hi *Node
				hi = p.expr(0)
				p.expect("]")
				n = &Node{op: "slice", args: []*Node{n, i, hi}}
				continue
			}
			p.expect("]")
			n = &Node{op: "index", args: []*Node{n, i}}
		case p.is("("):
			p.next()
			var as []*Node
			if n.op == "name" && n.name == "maps" {
				as = append(as, &Node{op: "name", name: p.typeText()})
			}
			for !p.is(")") {
				as = append(as, p.expr(0))
				if !p.accept(",") {
					break
				}
			}
			p.expect(")")
			if n.op == "name" {
				n = &Node{op: "call", name: n.name, args: as}
			} else if n.op == "field" {
				n = &Node{op: "method", name: n.name, args: append([]*Node{n.args[0]}, as...)}
			} else {
				panic("spec: bad call in " + p.src)
			}
		default:
			return n
		}
	}
}

// typeText consumes a type and returns its canonical text.
func (p *parser) typeText() string {
	switch {
	case p.accept("*"):
		return "*" + p.typeText()
	case p.accept("["):
		if p.peek().k == "int" {
			n := p.next().s
			p.expect("]")
			return "[" + n + "]" + p.typeText()
		}
		p.expect("]")
		return "[]" + p.typeText()
	}
	if p.is("map") && p.t[p.p+1].s == "[" {
		p.next()
		p.expect("[")
		k := p.typeText()
		p.expect("]")
		return "map[" + k + "]" + p.typeText()
	}
	if (p.is("set") || p.is("iter")) && p.t[p.p+1].s == "[" {
		w := p.next().s
		p.expect("[")
		k := p.typeText()
		p.expect("]")
		return w + "[" + k + "]"
	}
	if p.is("array") && p.t[p.p+1].s == "[" {
		p.next()
		p.expect("[")
		k := p.typeText()
		p.expect("]")
		return "array[" + k + "]" + p.typeText()
	}
	if p.is("func") && p.t[p.p+1].s == "(" {
		// opaque signature
		depth := 0
		s := ""
		for {
			t := p.next()
			s += t.s
			if t.s == "(" {
				depth++
			}
			if t.s == ")" {
				depth--
				if depth == 0 {
					break
				}
			}
		}
		return "func"
	}
	if p.is("chan") {
		p.next()
		return "chan " + p.typeText()
	}
	if p.is("struct") && p.t[p.p+1].s == "{" {
		p.next()
		p.expect("{")
		p.expect("}")
		return "struct{}"
	}
	id := p.next()
	if id.k != "id" {
		panic(fmt.Sprintf("spec: bad type at %q in %s", id.s, p.src))
	}
	s := id.s
	if p.is(".") && p.t[p.p+1].k == "id" {
		p.next()
		s += "." + p.next().s
	}
	if p.is("[") && p.t[p.p+1].k == "id" && strings.Contains(s, ".") {
		save := p.p
		p.next()
		a := p.typeText()
		if p.accept("]") {
			s += "[" + a + "]"
		} else {
			p.p = save
		}
	}
	return s
}

// ---------- contract files ----------

func loadSpecs(dir string) *Specs {
	sp := &Specs{Contracts: map[string]*Contract{}, Defs: map[string]*Def{}, Funs: map[string]*Fun{}, FnSpecs: map[string]string{}, Ghosts: map[string]string{}, AxiomFor: map[string][]*Clause{}}
	fs, _ := filepath.Glob(filepath.Join(dir, "*.vc"))
	sort.Strings(fs)
	for _, f := range fs {
		b, err := os.ReadFile(f)
		if err != nil {
			panic(err)
		}
		sp.parseFile(f, string(b))
	}
	return sp
}

// parseFile: logical lines are joined while continuation lines are indented more deeply
func (sp *Specs) parseFile(file, src string) {
	type line struct {
		ind int
		s   string
		n   int
	}
	var ls []line
	for i, l := range strings.Split(src, "\n") {
		if k := strings.Index(l, "//"); k >= 0 {
			l = l[:k]
		}
		t := strings.TrimSpace(l)
		if t == "" {
			continue
		}
		ind := len(l) - len(strings.TrimLeft(l, " \t"))
		// continuation: indentation deeper than a clause (4+)
		inHook := false
		if len(ls) > 0 {
			for _, p := range []string{"on ", "assert ", "set ", "define ", "run "} {
				if strings.HasPrefix(ls[len(ls)-1].s, p) && (strings.HasPrefix(t, "assert ") || strings.HasPrefix(t, "set ") || strings.HasPrefix(t, "define ") || strings.HasPrefix(t, "run ")) {
					inHook = true
				}
			}
		}
		if len(ls) > 0 && ind >= 4 && !inHook {
			ls[len(ls)-1].s += " " + t
			continue
		}
		ls = append(ls, line{ind, t, i + 1})
	}
	var cur *Contract
	var lk *LockDecl
	var hk *Hook
	for _, l := range ls {
		func() {
			defer func() {
				if r := recover(); r != nil {
					panic(fmt.Sprintf("%s:%d: %v", file, l.n, r))
				}
			}()
			w := l.s
			if k := strings.IndexAny(w, " ["); k >= 0 {
				w = w[:k]
			}
			rest := strings.TrimSpace(l.s[len(w):])
			if l.ind == 0 {
				hk = nil
			}
			switch w {
			case "unit", "helper", "trusted":
				cur = &Contract{File: file, Config: map[string]string{}}
				lk = nil
				fn, ps, rs := splitSig(rest)
				cur.Key = fn
				if i := strings.LastIndex(fn, "~"); i >= 0 {
					fn = fn[:i]
				}
				cur.Func = fn
				cur.Params = ps
				cur.Results = rs
				cur.Helper = w == "helper"
				cur.Trusted = w == "trusted"
				key := cur.Key
				if _, dup := sp.Contracts[key]; dup {
					panic("duplicate contract " + key)
				}
				sp.Contracts[key] = cur
				sp.Order = append(sp.Order, key)
			case "lock":
				// lock TYPE.field (self)
				// lock global PKG.variable
				cur = nil
				if strings.HasPrefix(rest, "global ") {
					nm := strings.TrimSpace(rest[7:])
					d := strings.LastIndex(nm, ".")
					lk = &LockDecl{Type: nm[:d], Field: nm[d+1:], Global: true}
					sp.GlobalLocks = append(sp.GlobalLocks, lk)
					break
				}
				i := strings.Index(rest, "(")
				nm := strings.TrimSpace(rest[:i])
				self := strings.Trim(strings.TrimSpace(rest[i:]), "()")
				d := strings.LastIndex(nm, ".")
				lk = &LockDecl{Type: nm[:d], Field: nm[d+1:], Self: self}
				sp.Locks = append(sp.Locks, lk)
			case "guards":
				for _, g := range strings.Split(rest, ",") {
					lk.Guards = append(lk.Guards, strings.TrimSpace(g))
				}
			case "contents":
				for _, g := range strings.Split(rest, ";") {
					lk.Heaps = append(lk.Heaps, strings.TrimSpace(g))
				}
			case "deep":
				lk.Deep = true
			case "stable":
				lk.Stable = true
			case "invariant":
				lk.Inv = append(lk.Inv, parseClause(rest, file, l.n))
			case "history":
				lk.Hist = append(lk.Hist, parseClause(rest, file, l.n))
			case "definition":
				lk.Defs = append(lk.Defs, parseClause(rest, file, l.n))
			case "fnspec":
				i := strings.LastIndex(rest, " ")
				sp.FnSpecs[strings.TrimSpace(rest[:i])] = rest[i+1:]
			case "ghost":
				i := strings.Index(rest, ":")
				sp.Ghosts[strings.TrimSpace(rest[:i])] = strings.TrimSpace(rest[i+1:])
			case "def":
				i := strings.Index(rest, "=")
				// skip "==" inside params: the first '=' after ')'
				j := strings.Index(rest, ")")
				i = j + strings.Index(rest[j:], "=")
				name, ps := splitParams(rest[:i])
				sp.Defs[name] = &Def{name, ps, parseExpr(rest[i+1:])}
			case "fun":
				name := rest[:strings.Index(rest, "(")]
				in := rest[strings.Index(rest, "(")+1 : strings.LastIndex(rest, ")")]
				res := strings.TrimSpace(rest[strings.LastIndex(rest, ")")+1:])
				f := &Fun{name: strings.TrimSpace(name), res: res}
				for _, x := range splitTop(in) {
					f.args = append(f.args, x)
				}
				sp.Funs[f.name] = f
			case "axiom":
				// axiom name(fun): expr
				cl := parseClause(rest, file, l.n)
				if i := strings.Index(cl.Name, "@"); i >= 0 {
					sp.AxiomFor[cl.Name[i+1:]] = append(sp.AxiomFor[cl.Name[i+1:]], cl)
				} else {
					sp.Axioms = append(sp.Axioms, cl)
				}
			case "lemma":
				sp.Lemmas = append(sp.Lemmas, parseClause(rest, file, l.n))
			case "props":
				cur.Props = strings.Fields(rest)
			case "safety":
				cur.Safety = strings.Fields(rest)
			case "given":
				// given MAP at KEY is VALUE
				i, j := strings.Index(rest, " at "), strings.LastIndex(rest, " is ")
				cur.Given = append(cur.Given, given{parseExpr(rest[:i]), parseExpr(rest[i+4 : j]), parseExpr(rest[j+4:])})
			case "requires":
				cur.Requires = append(cur.Requires, parseClause(rest, file, l.n))
			case "holds":
				for _, x := range splitTop(rest) {
					cur.Holds = append(cur.Holds, parseExpr(x))
				}
			case "begin":
				i := strings.Index(rest, "=")
				cur.Begin = append(cur.Begin, letDef{strings.TrimSpace(rest[:i]), parseExpr(rest[i+1:])})
			case "ensures":
				cur.Ensures = append(cur.Ensures, parseClause(rest, file, l.n))
			case "assumes":
				cur.Assumes = append(cur.Assumes, parseClause(rest, file, l.n))
			case "cover":
				cur.Covers = append(cur.Covers, parseClause(rest, file, l.n))
			case "panics":
				cur.Panics = parseClause(rest, file, l.n)
			case "modifies":
				if strings.TrimSpace(rest) == "all" {
					cur.ModAll = true
					break
				}
				for _, x := range splitTop(rest) {
					cur.Modifies = append(cur.Modifies, parseExpr(x))
				}
			case "split":
				cur.Splits = append(cur.Splits, parseExpr(rest))
			case "let":
				i := strings.Index(rest, "=")
				cur.Lets = append(cur.Lets, letDef{strings.TrimSpace(rest[:i]), parseExpr(rest[i+1:])})
			case "loop":
				// loop name(x: T, ...): expr
				i := strings.Index(rest, "(")
				j := matchParen(rest, i)
				_, ps := splitParams(rest[:j+1])
				e := strings.TrimSpace(rest[j+1:])
				if !strings.HasPrefix(e, ":") {
					panic("loop template needs ':'")
				}
				cur.Loops = append(cur.Loops, &LoopTemplate{Name: strings.TrimSpace(rest[:i]), Vars: ps, Expr: parseExpr(e[1:])})
			case "locks":
				cur.Locks = rest
			case "pure":
				cur.Pure = true
			case "use":
				cur.UseAt = true
			case "config":
				i := strings.Index(rest, " ")
				if i < 0 {
					cur.Config[rest] = "1"
				} else {
					cur.Config[rest[:i]] = strings.TrimSpace(rest[i+1:])
				}
			case "on":
				// on Event(a,b)
				i := strings.LastIndex(rest, "(")
				nm := strings.TrimSpace(rest)
				var ps []string
				if i >= 0 {
					nm = strings.TrimSpace(rest[:i])
					for _, x := range strings.Split(strings.TrimSuffix(strings.TrimSpace(rest[i+1:]), ")"), ",") {
						if x = strings.TrimSpace(x); x != "" {
							ps = append(ps, x)
						}
					}
				}
				hk = &Hook{Event: nm, Params: ps}
				cur.Hooks = append(cur.Hooks, hk)
			case "assert":
				hk.Asserts = append(hk.Asserts, parseClause(rest, file, l.n))
			case "run":
				// run NAME: F gives POST
				i, j := strings.Index(rest, ":"), strings.Index(rest, " gives ")
				hk.Runs = append(hk.Runs, &hookRun{parseExpr(rest[i+1 : j]), parseClause(rest[:i]+": "+rest[j+7:], file, l.n)})
			case "define":
				// names a received value: f(n) == v for an uninterpreted f
				hk.Defines = append(hk.Defines, parseExpr(rest))
			case "set":
				i := strings.Index(rest, "=")
				hk.Updates = append(hk.Updates, letDef{strings.TrimSpace(rest[:i]), parseExpr(rest[i+1:])})
			default:
				panic("unknown directive " + w)
			}
		}()
	}
}

func matchParen(s string, i int) int {
	d := 0
	for j := i; j < len(s); j++ {
		if s[j] == '(' {
			d++
		}
		if s[j] == ')' {
			d--
			if d == 0 {
				return j
			}
		}
	}
	panic("unbalanced parentheses: " + s)
}

func splitTop(s string) []string {
	var out []string
	d := 0
	st := 0
	for i := 0; i < len(s); i++ {
		switch s[i] {
		case '(', '[', '{':
			d++
		case ')', ']', '}':
			d--
		case ',':
			if d == 0 {
				out = append(out, strings.TrimSpace(s[st:i]))
				st = i + 1
			}
		}
	}
	if t := strings.TrimSpace(s[st:]); t != "" {
		out = append(out, t)
	}
	return out
}

// splitSig parses "NAME(params) (results)" where NAME may contain parentheses.
func splitSig(s string) (string, []string, []string) {
	s = strings.TrimSpace(s)
	i := 0
	if strings.HasPrefix(s, "(") {
		i = matchParen(s, 0) + 1
	}
	// generic instantiation brackets may not contain parens
	k := strings.Index(s[i:], "(")
	if k < 0 {
		return s, nil, nil
	}
	name := s[:i+k]
	j := matchParen(s, i+k)
	ps := splitTop(s[i+k+1 : j])
	rest := strings.TrimSpace(s[j+1:])
	var rs []string
	if rest != "" {
		rs = splitTop(strings.Trim(rest, "()"))
	}
	return name, ps, rs
}

func splitParams(s string) (string, []param) {
	i := strings.Index(s, "(")
	j := matchParen(s, i)
	var ps []param
	for _, x := range splitTop(s[i+1 : j]) {
		k := strings.Index(x, ":")
		if k < 0 {
			panic("parameter without type: " + x)
		}
		p := &parser{t: lex(x[k+1:]), src: x}
		ps = append(ps, param{strings.TrimSpace(x[:k]), p.typeText()})
	}
	return strings.TrimSpace(s[:i]), ps
}

// parseClause: [C01 C02] name: expr   or  name: expr  or expr
func parseClause(s, file string, n int) *Clause {
	cl := &Clause{Src: s, Line: fmt.Sprintf("%s:%d", filepath.Base(file), n)}
	s = strings.TrimSpace(s)
	if strings.HasPrefix(s, "[") {
		i := strings.Index(s, "]")
		cl.Props = strings.FieldsFunc(s[1:i], func(r rune) bool { return r == ' ' || r == ',' })
		s = strings.TrimSpace(s[i+1:])
	}
	if i := strings.Index(s, ":"); i > 0 && (i+1 >= len(s) || s[i+1] != ':') {
		nm := s[:i]
		ok := true
		for _, r := range nm {
			if !(unicode.IsLetter(r) || unicode.IsDigit(r) || r == '_' || r == '-' || r == '@') {
				ok = false
			}
		}
		if ok {
			cl.Name = nm
			s = s[i+1:]
		}
	}
	if cl.Name == "" {
		cl.Name = fmt.Sprintf("c%d", n)
	}
	cl.Expr = parseExpr(s)
	return cl
}

// ---------- types ----------

func (e *Engine) resolveType(s string) types.Type {
	if t, ok := e.typeMemo[s]; ok {
		return t
	}
	t := e.resolveType1(s)
	e.typeMemo[s] = t
	return t
}

type setType struct{ elem types.Type }

func (e *Engine) resolveType1(s string) types.Type {
	switch {
	case strings.HasPrefix(s, "*"):
		return types.NewPointer(e.resolveType(s[1:]))
	case strings.HasPrefix(s, "[]"):
		return types.NewSlice(e.resolveType(s[2:]))
	case strings.HasPrefix(s, "map["):
		d := 0
		for i := 3; i < len(s); i++ {
			if s[i] == '[' {
				d++
			}
			if s[i] == ']' {
				d--
				if d == 0 {
					return types.NewMap(e.resolveType(s[4:i]), e.resolveType(s[i+1:]))
				}
			}
		}
	case strings.HasPrefix(s, "["):
		i := strings.Index(s, "]")
		b, _ := new(big.Int).SetString(s[1:i], 10)
		return types.NewArray(e.resolveType(s[i+1:]), b.Int64())
	}
	if s == "any" {
		return types.NewInterfaceType(nil, nil)
	}
	if strings.HasPrefix(s, "chan ") {
		return types.NewChan(types.SendRecv, e.resolveType(s[5:]))
	}
	if s == "struct{}" {
		return types.NewStruct(nil, nil)
	}
	if s == "func" || s == "func()" {
		return types.NewSignatureType(nil, nil, nil, nil, nil, false)
	}
	if o := types.Universe.Lookup(s); o != nil {
		if tn, ok := o.(*types.TypeName); ok {
			return tn.Type()
		}
	}
	base := s
	var targ string
	if i := strings.Index(s, "["); i > 0 {
		base = s[:i]
		targ = s[i+1 : len(s)-1]
	}
	i := strings.Index(base, ".")
	if i < 0 {
		panic(unsupported("unknown type " + s))
	}
	pk, nm := base[:i], base[i+1:]
	for _, p := range e.allPkgs {
		if p.Name() == pk || p.Path() == pk || shortName(p.Path()) == pk || strings.ReplaceAll(strings.ReplaceAll(p.Path(), "/", "_"), "-", "_") == pk {
			if o, ok := p.Scope().Lookup(nm).(*types.TypeName); ok {
				t := o.Type()
				if targ != "" {
					ta := e.resolveType(targ)
					it, err := types.Instantiate(e.tctx, t, []types.Type{ta}, false)
					if err != nil {
						panic(unsupported(err.Error()))
					}
					return it
				}
				return t
			}
		}
	}
	panic(unsupported("unknown type " + s))
}

// specSort: sorts for spec-only types as well
func (e *Engine) specSort(s string) (*Sort, types.Type) {
	if strings.HasPrefix(s, "set[") {
		k, _ := e.specSort(s[4 : len(s)-1])
		return ArraySort(k, SBool), nil
	}
	if strings.HasPrefix(s, "array[") {
		d := 0
		for i := 5; i < len(s); i++ {
			if s[i] == '[' {
				d++
			}
			if s[i] == ']' {
				d--
				if d == 0 {
					k, _ := e.specSort(s[6:i])
					v, _ := e.specSort(s[i+1:])
					return ArraySort(k, v), nil
				}
			}
		}
	}
	if s == "Ref" {
		return SRef, nil
	}
	if s == "Real" {
		return SReal, nil
	}
	t := e.resolveType(s)
	return sortOf(t), t
}

// ---------- evaluation ----------

type TV struct {
	v    Val
	typ  types.Type
	addr *Term // address when known (struct places)
}

func (x TV) term() *Term {
	t, ok := x.v.(*Term)
	if !ok {
		panic(unsupported(fmt.Sprintf("spec value of kind %T", x.v)))
	}
	return t
}

type Env struct {
	cut int64 // objects from here on are fresh, if not those since the unit began
	c      *Ctx
	st     *State
	old    *State // explicit old state (callee contracts)
	entry  *State
	atLock bool
	inOld  bool
	vars   map[string]TV
	pkg    *types.Package
	a      *act
	depth  int
	hyp    *Term // what the enclosing formula already assumes
}

// under returns the environment for a subformula evaluated when h holds.
func (ev *Env) under(h *Term) *Env {
	n := *ev
	if n.hyp != nil {
		h = mkAnd(n.hyp, h)
	}
	n.hyp = h
	return &n
}

func (ev *Env) with(name string, v TV) *Env {
	n := *ev
	n.vars = make(map[string]TV, len(ev.vars)+1)
	for k, x := range ev.vars {
		n.vars[k] = x
	}
	n.vars[name] = v
	return &n
}

// oldState gives the state used inside old(): the state at the last lock
// acquisition for state snapshotted there, the entry state otherwise.
func (ev *Env) oldState() *State {
	if ev.old != nil {
		return ev.old
	}
	s := &State{pc: ev.st.pc, heaps: map[string]*Term{}, epoch: "0", ctr: ev.st.ctr}
	if ev.entry != nil {
		s.epoch = ev.entry.epoch
		for k, v := range ev.entry.heaps {
			s.heaps[k] = v
		}
	}
	if ct := ev.c.unit.contract; !ev.atLock && ct != nil && ct.UseAt && ct.Locks == "" {
		return s // callers relate old() to the state at the call
	}
	for k, v := range ev.st.heaps {
		if strings.HasPrefix(k, "old:") {
			s.heaps[k[4:]] = v
		}
	}
	return s
}

func (ev *Env) bool(n *Node) *Term {
	x := ev.eval(n).term()
	if x.sort != SBool {
		panic(unsupported("spec: not boolean: " + x.String()))
	}
	return x
}

func boolTV(t *Term) TV { return TV{v: t, typ: types.Typ[types.Bool]} }
func intTV(t *Term) TV  { return TV{v: t, typ: types.Typ[types.Int]} }

func (ev *Env) eval(n *Node) TV {
	c := ev.c
	switch n.op {
	case "int":
		return TV{v: bigLit(n.name), typ: types.Typ[types.UntypedInt]}
	case "str":
		return TV{v: mkStr(n.name), typ: types.Typ[types.String]}
	case "name":
		return ev.name(n.name)
	case "let":
		return ev.with(n.name, ev.eval(n.args[0])).eval(n.args[1])
	case "un":
		switch n.name {
		case "!":
			return boolTV(mkNot(ev.bool(n.args[0])))
		case "-":
			x := ev.eval(n.args[0])
			return TV{v: mkSub(mkInt(0), x.term()), typ: x.typ}
		case "*":
			x := ev.eval(n.args[0])
			p := x.typ.Underlying().(*types.Pointer)
			return TV{v: c.load(ev.st, x.term(), p.Elem()), typ: p.Elem(), addr: x.term()}
		}
	case "bin":
		return ev.bin(n)
	case "forall", "exists":
		e2 := ev
		var bs []*Term
		for _, v := range n.vars {
			s, t := c.e.specSort(v.typ)
			b := mkBV(v.name, s)
			bs = append(bs, b)
			e2 = e2.with(v.name, TV{v: b, typ: t})
		}
		body := e2.bool(n.args[0])
		var pats [][]*Term
		for _, pt := range n.pats {
			var ts []*Term
			for _, x := range pt {
				ts = append(ts, e2.eval(x).term())
			}
			pats = append(pats, ts)
		}
		if n.op == "forall" {
			return boolTV(mkForall(bs, body, fixPats(bs, pats)...))
		}
		return boolTV(mkExists(bs, body))
	case "field":
		return ev.field(n)
	case "index":
		x := ev.eval(n.args[0])
		return ev.index(x, ev.eval(n.args[1]))
	case "slice":
		x := ev.eval(n.args[0])
		lo, hi := ev.eval(n.args[1]).term(), ev.eval(n.args[2]).term()
		s := x.term()
		return TV{v: mkCtor("mkslice", SSlice, mkSel("s-arr", SInt, s), mkAdd(mkSel("s-off", SInt, s), lo), mkSub(hi, lo), mkSub(mkSel("s-cap", SInt, s), lo)), typ: x.typ}
	case "call":
		return ev.callSpec(n)
	case "method":
		x := ev.eval(n.args[0])
		var as []TV
		for _, y := range n.args[1:] {
			as = append(as, ev.eval(y))
		}
		return ev.method(x, n.name, as)
	}
	panic(unsupported("spec node " + n.op))
}

// fixPats drops patterns that do not mention every bound variable.
func fixPats(bs []*Term, pats [][]*Term) [][]*Term {
	var out [][]*Term
	for _, p := range pats {
		seen := map[int]bool{}
		good := true
		for _, t := range p {
			for id := range freeBVs(t) {
				seen[id] = true
			}
			if !(t.op == "select" || t.op == "app" || t.op == "sel" || t.op == "is") {
				good = false
			}
		}
		for _, b := range bs {
			if !seen[b.id] {
				good = false
			}
		}
		if good {
			out = append(out, p)
		}
	}
	return out
}

func (ev *Env) name(s string) TV {
	if v, ok := ev.vars[s]; ok {
		return v
	}
	switch s {
	case "true":
		return boolTV(tTrue)
	case "false":
		return boolTV(tFalse)
	case "nil":
		return TV{v: nil, typ: types.Typ[types.UntypedNil]}
	}
	if gt, ok := ev.c.e.specs.Ghosts[s]; ok {
		so, t := ev.c.e.specSort(gt)
		return TV{v: ev.c.heap(ev.st, "$g:"+s, so), typ: t}
	}
	if d, ok := ev.c.e.specs.Defs[s]; ok && len(d.params) == 0 {
		return ev.eval(d.body)
	}
	panic(unsupported("spec: unknown name " + s))
}

func (ev *Env) coerce(a, b TV) (*Term, *Term) {
	if a.v == nil && b.v == nil {
		return tTrue, tTrue
	}
	if a.v == nil {
		y, x := ev.coerce(b, a)
		return x, y
	}
	if b.v == nil {
		x := a.term()
		switch x.sort {
		case SRef:
			return mkSel("root", SInt, x), mkInt(0)
		case SSlice:
			return mkSel("s-arr", SInt, x), mkInt(0)
		case SAny:
			return x, anil
		case SInt:
			return x, mkInt(0)
		}
		panic(unsupported("nil comparison with " + x.sort.Name))
	}
	x, y := a.term(), b.term()
	if x.sort == SAny && y.sort != SAny && b.typ != nil {
		t := b.typ
		if bt, ok := t.(*types.Basic); ok && bt.Kind() == types.UntypedInt {
			t = types.Typ[types.Int]
		}
		y = mkBox(t, y)
	} else if y.sort == SAny && x.sort != SAny && a.typ != nil {
		t := a.typ
		if bt, ok := t.(*types.Basic); ok && bt.Kind() == types.UntypedInt {
			t = types.Typ[types.Int]
		}
		x = mkBox(t, x)
	}
	return x, y
}

func (ev *Env) bin(n *Node) TV {
	op := n.name
	switch op {
	case "&&":
		l := ev.bool(n.args[0])
		if l == tFalse {
			return boolTV(tFalse)
		}
		return boolTV(mkAnd(l, ev.under(l).bool(n.args[1])))
	case "||":
		l := ev.bool(n.args[0])
		if l == tTrue {
			return boolTV(tTrue)
		}
		return boolTV(mkOr(l, ev.under(mkNot(l)).bool(n.args[1])))
	case "==>":
		l := ev.bool(n.args[0])
		if l == tFalse {
			return boolTV(tTrue)
		}
		return boolTV(mkImp(l, ev.under(l).bool(n.args[1])))
	case "<==>":
		return boolTV(mkIffQ(ev.bool(n.args[0]), ev.bool(n.args[1])))
	}
	a, b := ev.eval(n.args[0]), ev.eval(n.args[1])
	switch op {
	case "==":
		x, y := ev.coerce(a, b)
		return boolTV(mkIffQ(x, y))
	case "!=":
		x, y := ev.coerce(a, b)
		return boolTV(mkNot(mkEq(x, y)))
	}
	x, y := a.term(), b.term()
	rt := a.typ
	if bt, ok := rt.(*types.Basic); ok && bt.Kind() == types.UntypedInt {
		rt = b.typ
	}
	if x.sort == SStr {
		switch op {
		case "+":
			return TV{v: ev.c.concat(x, y), typ: rt}
		case "<":
			return boolTV(ev.c.strLess(x, y))
		case ">":
			return boolTV(ev.c.strLess(y, x))
		case "<=":
			return boolTV(mkNot(ev.c.strLess(y, x)))
		case ">=":
			return boolTV(mkNot(ev.c.strLess(x, y)))
		}
	}
	switch op {
	case "<":
		return boolTV(mkLt(x, y))
	case "<=":
		return boolTV(mkLe(x, y))
	case ">":
		return boolTV(mkLt(y, x))
	case ">=":
		return boolTV(mkLe(y, x))
	case "+":
		return TV{v: mkAdd(x, y), typ: rt}
	case "-":
		return TV{v: mkSub(x, y), typ: rt}
	case "*":
		return TV{v: mkMul(x, y), typ: rt}
	case "/":
		return TV{v: mk("div", "", SInt, x, y), typ: rt}
	case "%":
		return TV{v: mk("mod", "", SInt, x, y), typ: rt}
	}
	panic(unsupported("spec op " + op))
}

// field access with promotion through embedded fields
func (ev *Env) field(n *Node) TV {
	// package-qualified constant, variable or function?
	if b := n.args[0]; b.op == "name" {
		if _, ok := ev.vars[b.name]; !ok {
			if _, g := ev.c.e.specs.Ghosts[b.name]; !g {
				if tv, ok := ev.c.e.lookupQualified(ev, b.name, n.name); ok {
					return tv
				}
			}
		}
	}
	x := ev.eval(n.args[0])
	return ev.fieldOf(x, n.name)
}

func (ev *Env) fieldOf(x TV, name string) TV {
	if x.typ == nil {
		panic(unsupported("spec: field " + name + " of untyped value"))
	}
	base := x.typ
	if p, ok := base.Underlying().(*types.Pointer); ok {
		base = p.Elem()
	}
	pkg := ev.c.e.pkgOfType(base)
	obj, path, _ := types.LookupFieldOrMethod(base, true, pkg, name)
	v, ok := obj.(*types.Var)
	if !ok {
		panic(unsupported("spec: no field " + name + " in " + x.typ.String()))
	}
	_ = v
	cur := x
	for _, i := range path {
		cur = ev.fieldIdx(cur, i)
	}
	return cur
}

func (ev *Env) fieldIdx(x TV, i int) TV {
	c := ev.c
	if p, ok := x.typ.Underlying().(*types.Pointer); ok {
		ft := p.Elem().Underlying().(*types.Struct).Field(i).Type()
		r := fieldRef(x.term(), i)
		if opaqueSort(ft) != nil && opaqueSort(ft) != STime {
			return TV{v: c.load(ev.st, r, ft), typ: ft, addr: r}
		}
		return TV{v: c.load(ev.st, r, ft), typ: ft, addr: r}
	}
	u, ok := x.typ.Underlying().(*types.Struct)
	if !ok {
		panic(unsupported("spec: field of " + x.typ.String()))
	}
	s := sortOf(x.typ)
	ft := u.Field(i).Type()
	r := TV{v: mkSel(s.Fields[i].Name, s.Fields[i].Sort, x.term()), typ: ft}
	if x.addr != nil {
		r.addr = fieldRef(x.addr, i)
	}
	if !r.v.(*Term).hasBV {
		r.v = c.norm(ev.st, r.v.(*Term), ft)
	}
	return r
}

func (ev *Env) index(x, i TV) TV {
	c := ev.c
	if x.typ == nil {
		return TV{v: mkSelect(x.term(), i.term()), typ: nil}
	}
	switch u := x.typ.Underlying().(type) {
	case *types.Slice:
		s := x.term()
		e := c.elems(ev.st, u.Elem(), mkSel("s-arr", SInt, s))
		v := mkSelect(e, mkAdd(mkSel("s-off", SInt, s), i.term()))
		if !v.hasBV {
			v = c.norm(ev.st, v, u.Elem())
		}
		return TV{v: v, typ: u.Elem()}
	case *types.Map:
		k, _ := ev.coerceTo(i, u.Key())
		in := mkSelect(c.mapDom(ev.st, u, x.term()), k)
		v := mkSelect(c.mapVals(ev.st, u, x.term()), k)
		if !v.hasBV {
			v = c.norm(ev.st, v, u.Elem())
		}
		if ev.hyp != nil && simplifyUnder(ev.hyp, in) == tTrue {
			return TV{v: v, typ: u.Elem()}
		}
		return TV{v: mkIte(in, v, zeroVal(u.Elem())), typ: u.Elem()}
	case *types.Array:
		return TV{v: mkSelect(x.term(), i.term()), typ: u.Elem()}
	case *types.Basic:
		return intTV(mkApp("strbyte", SInt, x.term(), i.term()))
	}
	panic(unsupported("spec: index of " + x.typ.String()))
}

func (ev *Env) coerceTo(x TV, t types.Type) (*Term, bool) {
	if x.v == nil {
		return zeroVal(t), true
	}
	v := x.term()
	if sortOf(t) == SAny && v.sort != SAny {
		xt := x.typ
		if bt, ok := xt.(*types.Basic); ok && bt.Kind() == types.UntypedInt {
			xt = types.Typ[types.Int]
		}
		return mkBox(xt, v), true
	}
	return v, true
}

func (ev *Env) callSpec(n *Node) TV {
	c := ev.c
	arg := func(i int) TV { return ev.eval(n.args[i]) }
	switch n.name {
	case "old":
		e2 := *ev
		e2.st = ev.oldState()
		e2.inOld = true
		return e2.eval(n.args[0])
	case "atlock":
		// guarded state as it was when its lock was last acquired
		e2 := *ev
		e2.atLock = true
		e2.st = e2.oldState()
		e2.inOld = true
		return e2.eval(n.args[0])
	case "entry":
		e2 := *ev
		e2.st = ev.entry
		return e2.eval(n.args[0])
	case "len":
		x := arg(0)
		switch x.typ.Underlying().(type) {
		case *types.Slice:
			return intTV(mkSel("s-len", SInt, x.term()))
		case *types.Map:
			return intTV(c.card(c.mapDom(ev.st, x.typ.Underlying().(*types.Map), x.term())))
		case *types.Basic:
			return intTV(c.strLen(x.term()))
		}
		panic(unsupported("spec len"))
	case "cap":
		if x := arg(0); x.typ != nil {
			if _, ok := x.typ.Underlying().(*types.Chan); ok {
				return intTV(mkSelect(c.heap(ev.st, "$chcap", ArraySort(SInt, SInt)), x.term()))
			}
		}
		return intTV(mkSel("s-cap", SInt, arg(0).term()))
	case "in":
		m := arg(1)
		k := arg(0)
		if m.typ == nil {
			return boolTV(mkSelect(m.term(), k.term()))
		}
		mt := m.typ.Underlying().(*types.Map)
		kt, _ := ev.coerceTo(k, mt.Key())
		return boolTV(mkSelect(c.mapDom(ev.st, mt, m.term()), kt))
	case "dom":
		m := arg(0)
		return TV{v: c.mapDom(ev.st, m.typ.Underlying().(*types.Map), m.term())}
	case "mvals":
		m := arg(0)
		return TV{v: c.mapVals(ev.st, m.typ.Underlying().(*types.Map), m.term())}
	case "elems":
		m := arg(0)
		return TV{v: c.elems(ev.st, m.typ.Underlying().(*types.Slice).Elem(), mkSel("s-arr", SInt, m.term()))}
	case "off":
		return intTV(mkSel("s-off", SInt, arg(0).term()))
	case "arr":
		return intTV(mkSel("s-arr", SInt, arg(0).term()))
	case "ite":
		a, b := arg(1), arg(2)
		x, y := ev.coerce(a, b)
		t := a.typ
		if a.v == nil {
			t = b.typ
			x = zeroVal(t)
			y = b.term()
		} else if b.v == nil {
			x = a.term()
			y = zeroVal(t)
		}
		return TV{v: mkIte(ev.bool(n.args[0]), x, y), typ: t}
	case "is":
		return boolTV(mkIsBox(c.e.resolveType(n.typ), arg(0).term()))
	case "as":
		t := c.e.resolveType(n.typ)
		v := mkUnbox(t, arg(0).term())
		if _, ptr := t.Underlying().(*types.Pointer); ptr || !v.hasBV {
			v = c.norm(ev.st, v, t)
		}
		return TV{v: v, typ: t}
	case "sortedlen":
		return intTV(c.getG(ev.st, "$sortlen:"+ArraySort(SInt, sortOf(c.e.resolveType(n.typ))).Name, SInt))
	case "sortedat": // element i of the slice of T that was last sorted, as the sort left it
		t := c.e.resolveType(n.typ)
		as := ArraySort(SInt, sortOf(t))
		return TV{v: mkSelect(c.getG(ev.st, "$sortarr:"+as.Name, as), mkAdd(c.getG(ev.st, "$sortoff:"+as.Name, SInt), arg(0).term())), typ: t}
	case "mk":
		t := c.e.resolveType(n.typ)
		stt := t.Underlying().(*types.Struct)
		if stt.NumFields() != len(n.args) {
			panic(unsupported("mk: wrong number of fields for " + n.typ))
		}
		var fs []*Term
		for i := range n.args {
			x, ok := ev.coerceTo(arg(i), stt.Field(i).Type())
			if !ok {
				panic(unsupported("mk: field " + stt.Field(i).Name()))
			}
			fs = append(fs, x)
		}
		return TV{v: mkStruct(sortOf(t), fs...), typ: t}
	case "cast":
		x, t := arg(0).term(), c.e.resolveType(n.typ)
		if b, ok := t.Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 && x.sort == SInt && x.op != "bv" {
			x = c.wrapMod(x, t)
		}
		return TV{v: x, typ: t}
	case "box":
		x := arg(0)
		t := x.typ
		if n.typ != "" {
			t = c.e.resolveType(n.typ)
		}
		if x.term().sort == SAny {
			return x
		}
		return TV{v: mkBox(t, x.term()), typ: types.NewInterfaceType(nil, nil)}
	case "zero":
		t := c.e.resolveType(n.typ)
		return TV{v: zeroVal(t), typ: t}
	case "emptyset":
		s, _ := c.e.specSort(n.typ)
		return TV{v: mkConstArr(ArraySort(s, SBool), tFalse)}
	case "store":
		return TV{v: mkStore(arg(0).term(), arg(1).term(), arg(2).term())}
	case "tid":
		return intTV(mkInt(boxOf(c.e.resolveType(n.typ)).tid))
	case "tyid":
		return intTV(tyidTerm(arg(0).term()))
	case "root":
		return intTV(rootOf(arg(0).term()))
	case "addr":
		x := arg(0)
		if x.addr == nil {
			panic(unsupported("spec: addr of non-place"))
		}
		return TV{v: x.addr, typ: types.NewPointer(x.typ)}
	case "isfresh":
		r := arg(0).term()
		if r.sort == SSlice {
			r = mkSel("s-arr", SInt, r)
		} else {
			r = rootOf(r)
		}
		cut := c.unit.entryCtr
		if ev.cut != 0 {
			cut = ev.cut
		}
		return boolTV(mkLeRaw(mkInt(cut), r))
	case "allocated":
		// the object exists in this state
		r := arg(0).term()
		if r.sort == SSlice {
			r = mkSel("s-arr", SInt, r)
		} else {
			r = rootOf(r)
		}
		return boolTV(mkLeRaw(r, mkInt(ev.st.ctr-1)))
	case "nanos":
		return intTV(nanoOf(arg(0).term()))
	case "card":
		x := arg(0)
		if x.typ != nil {
			return intTV(c.card(c.mapDom(ev.st, x.typ.Underlying().(*types.Map), x.term())))
		}
		return intTV(c.card(x.term()))
	case "evn":
		return intTV(c.heap(ev.st, "$ev:n", SInt))
	case "evfn":
		return intTV(mkSelect(c.heap(ev.st, "$ev.fn", ArraySort(SInt, SInt)), arg(0).term()))
	case "evarg":
		j := n.args[1].name
		return TV{v: mkSelect(c.heap(ev.st, "$ev.a"+j, ArraySort(SInt, SAny)), arg(0).term()), typ: types.NewInterfaceType(nil, nil)}
	case "rtype":
		// the reflect.Type of the dynamic type of a value
		return TV{v: mkBox(rtypeT, tyidTerm(arg(0).term())), typ: types.NewInterfaceType(nil, nil)}
	case "relem":
		return TV{v: mkBox(rtypeT, symElem(tyidTerm(arg(0).term()))), typ: types.NewInterfaceType(nil, nil)}
	case "rkind":
		return intTV(symKind(tyidTerm(arg(0).term())))
	case "held":
		x := arg(0)
		return intTV(mkSelect(c.heap(ev.st, "$lock", ArraySort(SRef, SInt)), x.addr))
	case "visited", "iterdom", "iterkey", "itern", "iteridx":
		it, ok := arg(0).v.(*Iter)
		if !ok {
			panic(unsupported("spec: not an iterator"))
		}
		ks := sortOf(it.kt)
		switch n.name {
		case "visited":
			return boolTV(mkSelect(c.getG(ev.st, it.key+":V", ArraySort(ks, SBool)), arg(1).term()))
		case "iterdom":
			return boolTV(mkSelect(it.dom0, arg(1).term()))
		case "iterkey":
			return TV{v: mkSelect(c.getG(ev.st, it.key+":k", ArraySort(SInt, ks)), arg(1).term()), typ: it.kt}
		case "iteridx":
			return intTV(mkSelect(c.getG(ev.st, it.key+":i", ArraySort(ks, SInt)), arg(1).term()))
		case "itern":
			return intTV(c.getG(ev.st, it.key+":n", SInt))
		}
	case "itermap":
		it := arg(0).v.(*Iter)
		return TV{v: it.m, typ: it.mt}
	case "callr", "call":
		// call(f, args...): first result of a pure function value
		f := arg(0)
		sig := f.typ.Underlying().(*types.Signature)
		var as []*Term
		for i := range n.args[1:] {
			x, _ := ev.coerceTo(arg(i+1), sig.Params().At(i).Type())
			as = append(as, x)
		}
		return TV{v: ev.callFn(sig, f.term(), as, 0), typ: sig.Results().At(0).Type()}
	case "call2":
		f := arg(0)
		sig := f.typ.Underlying().(*types.Signature)
		var as []*Term
		for i := range n.args[1:] {
			x, _ := ev.coerceTo(arg(i+1), sig.Params().At(i).Type())
			as = append(as, x)
		}
		return TV{v: ev.callFn(sig, f.term(), as, 1), typ: sig.Results().At(1).Type()}
	case "calllen":
		f := arg(0)
		sig := f.typ.Underlying().(*types.Signature)
		return intTV(pureLen(sig, f.term(), []*Term{arg(1).term()}))
	case "callelem":
		f := arg(0)
		sig := f.typ.Underlying().(*types.Signature)
		et := sig.Results().At(0).Type().Underlying().(*types.Slice).Elem()
		return TV{v: mkSelect(pureElems(sig, f.term(), []*Term{arg(1).term()}), arg(2).term()), typ: et}
	case "fnid":
		// fnid(pkg.Func)
		tv := ev.eval(n.args[0])
		return tv
	case "unchanged":
		e2 := *ev
		e2.st = ev.oldState()
		var cs []*Term
		for _, x := range n.args {
			p, q := ev.coerce(ev.eval(x), e2.eval(x))
			cs = append(cs, mkEq(p, q))
		}
		return boolTV(mkAnd(cs...))
	case "anycmp":
		return boolTV(c.anyCmp(arg(0).term()))
	case "implements":
		t := c.e.resolveType(n.typ)
		return boolTV(c.implementsTerm(arg(0).term(), t))
	case "iserr":
		return boolTV(mkAnd(mkNot(mkEq(arg(0).term(), anil)), c.errIs(arg(0).term(), arg(1).term(), 0)))
	case "ctxtimeout":
		// the time a context was given by WithTimeout or WithDeadline
		return intTV(mkApp("ctx_timeout", SInt, arg(0).term()))
	case "ctxparent":
		return TV{v: mkApp("ctx_parent", SAny, arg(0).term()), typ: arg(0).typ}
	case "ctxerr":
		return TV{v: c.ctxErr(arg(0).term()), typ: types.Universe.Lookup("error").Type()}
	case "closed":
		// closed(ch): the channel was closed
		return boolTV(mkSelect(c.heap(ev.st, "$chclosed", ArraySort(SInt, SBool)), arg(0).term()))
	case "clock":
		// the latest time read
		return intTV(c.heap(ev.st, "$g:$now", SInt))
	case "lastatomic":
		// the last value stored through an atomic pointer
		return TV{v: c.heap(ev.st, "$g:$atomic", SAny), typ: types.NewInterfaceType(nil, nil)}
	case "donechan":
		return TV{v: mkApp("im_Done", SInt, arg(0).term()), typ: types.NewChan(types.RecvOnly, types.NewStruct(nil, nil))}
	case "ctxdone":
		return boolTV(mkSelect(c.heap(ev.st, "$ctxdone", ArraySort(SAny, SBool)), arg(0).term()))
	case "sord":
		c.strLess(mkStr("\x00a"), mkConst("dummy_s", SStr))
		return TV{v: mkApp("sord", SReal, arg(0).term())}
	case "uf":
		// uf("name", "resulttype", args...)
		s, t := c.e.specSort(n.args[1].name)
		var as []*Term
		for i := 2; i < len(n.args); i++ {
			as = append(as, arg(i).term())
		}
		return TV{v: mkApp(n.args[0].name, s, as...), typ: t}
	}
	if d, ok := c.e.specs.Defs[n.name]; ok {
		if len(d.params) != len(n.args) {
			panic(unsupported("spec: arity of " + n.name))
		}
		e2 := *ev
		e2.vars = map[string]TV{}
		for i, p := range d.params {
			v := arg(i)
			s, t := c.e.specSort(p.typ)
			if v.v == nil {
				v = TV{v: zeroVal(t), typ: t}
			}
			if vt, ok := v.v.(*Term); ok {
				if vt.sort != s && s == SAny {
					x, _ := ev.coerceTo(v, t)
					v = TV{v: x, typ: t}
				} else if vt.sort != s {
					panic(unsupported(fmt.Sprintf("spec: argument %s of %s has sort %s, want %s", p.name, n.name, vt.sort.Name, s.Name)))
				}
				if t != nil {
					v.typ = t
				}
			}
			e2.vars[p.name] = v
		}
		e2.depth++
		if e2.depth > 40 {
			panic(unsupported("spec: recursive definition " + n.name))
		}
		return e2.eval(d.body)
	}
	if f, ok := c.e.specs.Funs[n.name]; ok {
		var as []*Term
		for i := range n.args {
			v := arg(i)
			s, t := c.e.specSort(f.args[i])
			if v.v == nil {
				v = TV{v: zeroVal(t), typ: t}
			}
			x := v.term()
			if x.sort != s && s == SAny {
				x, _ = ev.coerceTo(v, t)
			}
			as = append(as, x)
		}
		s, t := c.e.specSort(f.res)
		c.funAxioms(n.name)
		return TV{v: mkApp("sf_"+f.name, s, as...), typ: t}
	}
	panic(unsupported("spec: unknown function " + n.name))
}

// funAxioms registers the declared axioms of a spec function.
func (c *Ctx) funAxioms(name string) {
	cls := c.e.specs.AxiomFor[name]
	if len(cls) == 0 || c.axDone[name] {
		return
	}
	c.axDone[name] = true
	st := &State{pc: tTrue, heaps: map[string]*Term{}, epoch: "0", ctr: 1}
	ev := &Env{c: c, st: st, vars: map[string]TV{}}
	var ts []*Term
	for _, cl := range cls {
		c.axiomsUsed[cl.Src] = true
		ts = append(ts, ev.bool(cl.Expr))
	}
	ufAxioms["sf_"+name] = func() []*Term { return ts }
}

// knownCall evaluates a call of a function value whose code is known (a closure
// the unit made) by executing it.
func (ev *Env) callFn(sig *types.Signature, f *Term, as []*Term, i int) *Term {
	if f.op == "ite" {
		return mkIte(f.args[0], ev.callFn(sig, f.args[1], as, i), ev.callFn(sig, f.args[2], as, i))
	}
	if x, ok := ev.knownCall(f, as, i); ok {
		return x
	}
	return pureApp(sig, i, f, as)
}

func (ev *Env) knownCall(f *Term, args []*Term, i int) (*Term, bool) {
	c := ev.c
	if f.op != "int" || !f.big.IsInt64() {
		return nil, false
	}
	fv := c.fnTable[f.big.Int64()]
	if fv == nil || fv.fn == nil {
		return nil, false
	}
	var vs []Val
	for _, x := range args {
		vs = append(vs, x)
	}
	st := ev.st.clone()
	saved := c.facts
	c.dry++
	rets, _ := c.execFunc(fv.fn, append(append([]Val{}, fv.bound...), vs...), fv.binds, st, &act{c: c, key: "spec", depth: 1})
	c.dry--
	c.facts = saved
	if len(rets) == 0 {
		panic(unsupported("spec: function value does not return"))
	}
	var sts []*State
	var vals []Val
	for _, r := range rets {
		sts = append(sts, r.st)
		vals = append(vals, r.vals[i])
	}
	_, rel := c.mergeStates(sts)
	t, ok := mergeVals(rel, vals).(*Term)
	return t, ok
}

func (ev *Env) method(x TV, name string, args []TV) TV {
	c := ev.c
	t := x.term()
	if t.sort == SAny {
		var as []*Term
		for _, y := range args {
			as = append(as, y.term())
		}
		// pure interface method
		it := x.typ.Underlying().(*types.Interface)
		for i := 0; i < it.NumMethods(); i++ {
			m := it.Method(i)
			if m.Name() == name {
				rt := m.Type().(*types.Signature).Results().At(0).Type()
				return TV{v: mkApp("im_"+name, sortOf(rt), append([]*Term{t}, as...)...), typ: rt}
			}
		}
		panic(unsupported("spec: method " + name))
	}
	// concrete method: execute symbolically
	fn := c.e.methodOf(x.typ, name)
	if fn == nil {
		panic(unsupported("spec: method " + name + " of " + x.typ.String()))
	}
	vs := []Val{t}
	for _, y := range args {
		vs = append(vs, y.v)
	}
	st := ev.st.clone()
	c.dry++
	rets, _ := c.execFunc(fn, vs, nil, st, &act{c: c, key: "spec", depth: 1})
	c.dry--
	if len(rets) == 0 {
		panic(unsupported("spec: method call does not return"))
	}
	var sts []*State
	var vals []Val
	for _, r := range rets {
		sts = append(sts, r.st)
		vals = append(vals, r.vals[0])
	}
	_, rel := c.mergeStates(sts)
	return TV{v: mergeVals(rel, vals), typ: fn.Signature.Results().At(0).Type()}
}

// lookupQualified resolves pkg.Name in specs.
func (e *Engine) lookupQualified(ev *Env, pk, name string) (TV, bool) {
	for _, p := range e.allPkgs {
		if p.Name() != pk {
			continue
		}
		o := p.Scope().Lookup(name)
		switch x := o.(type) {
		case *types.Const:
			cv := ssa.NewConst(x.Val(), x.Type())
			return TV{v: ev.c.constVal(cv), typ: x.Type()}, true
		case *types.Var:
			sp := e.prog.Package(p)
			if sp == nil {
				continue
			}
			g := sp.Var(name)
			r := ev.c.globalRef(g)
			return TV{v: ev.c.loadGlobal(ev.st, g, r), typ: x.Type(), addr: r}, true
		case *types.Func:
			sp := e.prog.Package(p)
			if sp == nil {
				continue
			}
			return TV{v: ev.c.fnTerm(sp.Func(name), nil, nil), typ: x.Type()}, true
		}
	}
	return TV{}, false
}

// ---------- loop templates ----------

func (lc *loopCtx) templateCands(vars []lvar) []*cand {
	a := lc.a
	c := a.c
	var out []*cand
	if c.unit.contract == nil {
		return nil
	}
	tmpls := c.unit.contract.Loops
	for _, t := range tmpls {
		t := t
		// choices per variable
		type choice struct {
			text string
			get  func(st *State, vals map[*ssa.Phi]Val) TV
		}
		var opts [][]choice
		for _, v := range t.Vars {
			var cs []choice
			if strings.HasPrefix(v.typ, "iter[") {
				kt := c.e.resolveType(v.typ[5 : len(v.typ)-1])
				for i, it := range lc.allIters() {
					it := it
					if types.Identical(it.kt, kt) {
						cs = append(cs, choice{fmt.Sprintf("it%d", i), func(*State, map[*ssa.Phi]Val) TV { return TV{v: it} }})
					}
				}
				opts = append(opts, cs)
				continue
			}
			_, vt := c.e.specSort(v.typ)
			var late []choice
			for _, lv := range vars {
				lv := lv
				if types.Identical(lv.typ, vt) || sameUnder(lv.typ, vt) {
					cs = append(cs, choice{lv.name, func(st *State, vals map[*ssa.Phi]Val) TV {
						return TV{v: lv.get(st, vals), typ: vt}
					}})
					// a counter counts from 0 or, in a range loop, from -1
					if v.typ == "int" && lv.init != nil && lv.init.op == "int" {
						if z := lv.init.big.Sign(); z == 0 || z < 0 && lv.init.big.IsInt64() && lv.init.big.Int64() == -1 {
							d, sfx := mkInt(-1), "-1"
							if z != 0 {
								d, sfx = mkInt(1), "+1"
							}
							late = append(late, choice{lv.name + sfx, func(st *State, vals map[*ssa.Phi]Val) TV {
								return TV{v: mkAdd(lv.get(st, vals), d), typ: vt}
							}})
						}
					}
				}
			}
			cs = append(cs, late...)
			if !strings.HasSuffix(v.name, "_") {
				cs = append(cs, func() []choice {
					var os []choice
					seen := map[int]bool{}
					vs, ns := lc.outerVals(vt)
					for i, ov := range vs {
						ov := ov
						if seen[ov.id] {
							continue
						}
						seen[ov.id] = true
						os = append(os, choice{"o:" + ns[i], func(*State, map[*ssa.Phi]Val) TV { return TV{v: ov, typ: vt} }})
					}
					return os
				}()...)
			}
			opts = append(opts, cs)
		}
		total := 1
		for _, o := range opts {
			total *= len(o)
		}
		if total == 0 {
			continue
		}
		if total > 400 {
			total = 400
		}
		idx := make([]int, len(opts))
		for k := 0; k < total; k++ {
			sel := make([]choice, len(opts))
			txt := t.Name
			for i := range opts {
				sel[i] = opts[i][idx[i]]
				txt += " " + t.Vars[i].name + "=" + sel[i].text
			}
			out = append(out, &cand{text: txt, f: func(st *State, vals map[*ssa.Phi]Val, n *Term) *Term {
				ev := c.unitEnv(st)
				ev.a = a
				ev.vars["n"] = intTV(n)
				for i, v := range t.Vars {
					ev.vars[v.name] = sel[i].get(st, vals)
				}
				return ev.bool(t.Expr)
			}})
			for i := len(idx) - 1; i >= 0; i-- {
				idx[i]++
				if idx[i] < len(opts[i]) {
					break
				}
				idx[i] = 0
			}
		}
	}
	return out
}

func sameUnder(a, b types.Type) bool {
	if a == nil || b == nil {
		return false
	}
	switch a.Underlying().(type) {
	case *types.Basic, *types.Map, *types.Slice:
		return types.Identical(a.Underlying(), b.Underlying())
	}
	return false
}

// allIters: iterators of this loop and the enclosing loops
func (lc *loopCtx) allIters() []*Iter {
	var out []*Iter
	seen := map[*Iter]bool{}
	for _, it := range lc.iters() {
		seen[it] = true
		out = append(out, it)
	}
	for x := lc.a; x != nil; x = x.caller {
		for _, b := range x.loops.rpo {
			for _, in := range b.Instrs {
				if r, ok := in.(*ssa.Range); ok {
					if it, ok := x.env[r].(*Iter); ok && !it.str && !seen[it] {
						seen[it] = true
						out = append(out, it)
					}
				}
			}
		}
		if x.depth == 0 {
			break
		}
	}
	return out
}

// outerVals: values of type t defined before the loop in this activation
func (lc *loopCtx) outerVals(t types.Type) ([]*Term, []string) {
	var out []*Term
	var ns []string
	a := lc.a
	match := func(vt types.Type) bool { return types.Identical(vt, t) || sameUnder(vt, t) }
	for act := a; act != nil; act = act.caller {
		if act.fn == nil {
			break
		}
		for _, p := range act.fn.Params {
			if match(p.Type()) {
				if v, ok := act.env[p].(*Term); ok {
					out = append(out, v)
					ns = append(ns, fmt.Sprintf("%d.%s", act.depth, p.Name()))
				}
			}
		}
		for _, p := range act.fn.FreeVars {
			if match(p.Type()) {
				if v, ok := act.env[p].(*Term); ok {
					out = append(out, v)
					ns = append(ns, fmt.Sprintf("%d.%s", act.depth, p.Name()))
				}
			}
		}
		for _, b := range act.loops.rpo {
			if act == a && lc.l != nil && lc.l.blocks[b] {
				continue
			}
			for _, in := range b.Instrs {
				v, ok := in.(ssa.Value)
				if !ok || v.Type() == nil || !match(v.Type()) {
					continue
				}
				if x, ok := act.env[v].(*Term); ok && len(out) < 12 {
					out = append(out, x)
					ns = append(ns, fmt.Sprintf("%d.%s", act.depth, v.Name()))
				}
			}
		}
		if act.depth == 0 {
			break
		}
	}
	return out, ns
}

// mkIffQ: equality; of truth values one of which is quantified, as two implications
func mkIffQ(x, y *Term) *Term {
	if x.sort != SBool || x.op != "exists" && y.op != "exists" && x.op != "forall" && y.op != "forall" {
		return mkEq(x, y)
	}
	imp := func(x, y *Term) *Term {
		if x.op == "exists" {
			return mkForall(x.bound, mkImp(x.args[0], y))
		}
		return mkImp(x, y)
	}
	return mkAnd(imp(x, y), imp(y, x))
}
