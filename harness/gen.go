package main

import (
	"fmt"
	"strconv"
	"strings"
)

// Cfg controls what a Gen generates
type Cfg struct {
	Tasks, Workflow, Hex, Backtick bool
	NoHeredoc                      bool
	NoDefs                         bool // no definitions
	Focus                          string
	Budget                         int
	MaxDepth                       int
}

// Gen creates tokens and the expected AST at the same time. It is the constructive specification of the language: what it
// emits has, by construction, the meaning that the T's express.
type Gen struct {
	r      *Rng
	cfg    Cfg
	toks   []*Tok
	open   []*T
	defs   []*T
	budget int
	depth  int
	inStr  int
	noNL   int
	names  []string // enclosing names
	seq    int
	hdocs  int
	epp    bool // in code of an EPP template
	feat   map[string]int
	burst  int // when it counts down to zero, a long list is generated
}

// small returns the length of a list: mostly small, but one list in some programs is long
func (g *Gen) small(max int) int {
	if g.burst > 0 {
		if g.burst--; g.burst == 0 {
			g.count("long list")
			return 8 + g.r.N(40)
		}
	}
	return g.r.Small(max)
}

func NewGen(r *Rng, cfg Cfg) *Gen {
	if cfg.Budget == 0 {
		cfg.Budget = 10 + r.Small(60)
		if r.P(5) {
			cfg.Budget += r.N(400)
		}
	}
	if cfg.MaxDepth == 0 {
		cfg.MaxDepth = 5 + r.N(4)
		if r.P(4) {
			cfg.MaxDepth += r.N(25)
		}
	}
	g := &Gen{r: r, cfg: cfg, budget: cfg.Budget, feat: map[string]int{}}
	if r.P(10) {
		g.burst = 1 + r.N(20)
	}
	return g
}

// --- emission ---

func (g *Gen) emit(t *Tok) *Tok {
	if g.noNL > 0 && t.Nl == nlOK {
		t.Nl = nlNo
	}
	for _, n := range g.open {
		n.first = t
	}
	g.open = g.open[:0]
	g.toks = append(g.toks, t)
	return t
}

func (g *Gen) t(s string) *Tok   { return g.emit(&Tok{S: s}) }
func (g *Gen) raw(s string) *Tok { return g.emit(&Tok{S: s, Sp: spNone, RawText: true}) }
func (g *Gen) tight(s string) *Tok {
	return g.emit(&Tok{S: s, Sp: spNone})
}
func (g *Gen) sameLine(s string) *Tok { return g.emit(&Tok{S: s, Nl: nlNo}) }

func (g *Gen) lastTok() *Tok { return g.toks[len(g.toks)-1] }

// node starts a node at the next token
func (g *Gen) node(k string, as ...Attr) *T {
	n := &T{K: k, A: as}
	g.open = append(g.open, n)
	return n
}

func (g *Gen) done(n *T, fs ...Field) *T {
	n.F = fs
	n.last = g.lastTok()
	return n
}

// from creates a node that starts where another node starts
func (g *Gen) from(start *T, k string, as []Attr, fs ...Field) *T {
	n := &T{K: k, A: as, F: fs, first: start.first, dOff: start.dOff}
	n.last = g.lastTok()
	return n
}

type mark struct{ toks, defs, names, hdocs int }

func (g *Gen) mark() mark { return mark{len(g.toks), len(g.defs), len(g.names), g.hdocs} }
func (g *Gen) rollback(m mark) {
	g.toks = g.toks[:m.toks]
	g.defs = g.defs[:m.defs]
	g.names = g.names[:m.names]
	g.hdocs = m.hdocs
	g.open = g.open[:0]
}

// Resolve assigns offsets to a tree, after rendering
func Resolve(t *T) {
	if t.first != nil {
		t.Off = t.first.Off + t.dOff
		switch {
		case t.dEnd > 0:
			t.End = t.Off + t.dEnd
		case t.last != nil:
			t.End = t.last.End
		default:
			t.End = t.Off
		}
		if t.End < t.Off {
			t.End = t.Off
		}
	} else {
		t.NoLoc = true
	}
	for _, c := range t.Children() {
		Resolve(c)
	}
}

// --- vocabulary ---

var lowerNames = []string{"foo", "bar", "baz", "a", "b", "x1", "my_name", "apache", "ntp", "user", "file", "package", "exec", "e", "each_x",
	"information", "iffy", "nodes", "classy", "typed", "orange", "android", "inner", "undefined", "trueish", "caseless", "siteurl", "planet", "attribute", "x", "if_", "n9_9"}
var qualNames = []string{"foo::bar", "a::b::c", "mod::x_y", "::top", "::top::name", "apache::vhost", "a1::b2"}
var typeNames = []string{"Foo", "Bar", "String", "Integer", "Foo::Bar", "A::B::C", "::Top", "::Top::Name", "X", "Resource2", "T_1", "Class", "File", "Enum"}
var varNames = []string{"x", "y", "foo", "a::b", "::top", "::a::b", "some_var", "x1", "a::_p", "abc::def::g", "if", "node", "in", "class", "trusted", "z9_", "true", "undef"}
var kwNames = []string{"application", "and", "attr", "case", "class", "consumes", "default", "define", "function", "else", "elsif", "if", "in", "inherits",
	"node", "or", "private", "produces", "site", "type", "undef", "unless"}
var kwArgs = []string{"type", "function", "application", "consumes", "produces", "site"}
var stmtCallNames = []string{"require", "realize", "include", "contain", "tag", "debug", "info", "notice", "warning", "err", "fail", "import", "break", "next", "return"}

func (g *Gen) lname() string {
	if g.r.P(15) {
		g.seq++
		return "n" + strconv.Itoa(g.seq)
	}
	if g.r.P(20) {
		return g.r.Pick(qualNames)
	}
	if g.r.P(12) {
		return randomName(g.r, 'a')
	}
	return g.r.Pick(lowerNames)
}

func (g *Gen) tname() string {
	if g.r.P(12) {
		return randomName(g.r, 'A')
	}
	return g.r.Pick(typeNames)
}

func (g *Gen) vname() string {
	if g.r.P(12) {
		return randomName(g.r, '$')
	}
	return g.r.Pick(varNames)
}

const wordChars = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_"

// simpleName is a name without a namespace and without other meaning
func (g *Gen) simpleName() string {
	for g.r.P(12) {
		if s := randomName(g.r, 'a'); !strings.Contains(s, ":") {
			return s
		}
	}
	return g.r.Pick(lowerNames)
}

// randomName is any name, type name (kind A), variable name (kind $), or name with dashes (kind -), that has no other meaning
func randomName(r *Rng, kind byte) string {
	for {
		b := &strings.Builder{}
		segs := 1 + r.Small(5)
		lead := r.P(15)
		dashed := false
		for i := 0; i < segs; i++ {
			if i > 0 || lead {
				b.WriteString("::")
			}
			switch {
			case kind == 'A':
				b.WriteByte(wordChars[26+r.N(26)])
			case kind == '$' && i > 0 && i == segs-1 && r.P(15):
				b.WriteByte('_')
			default:
				b.WriteByte(wordChars[r.N(26)])
			}
			n := r.Small(10)
			if r.P(2) {
				n = r.N(80)
			}
			for ; n > 0; n-- {
				c := wordChars[r.N(26)]
				if r.P(40) {
					c = wordChars[r.N(len(wordChars))]
				}
				if kind == '-' && r.P(20) {
					dashed = true
					b.WriteString("---"[r.N(3):])
				}
				b.WriteByte(c)
			}
		}
		s := b.String()
		switch {
		case kind == '$':
			return s
		case kind == '-':
			if dashed {
				return s
			}
		case !reservedName(s):
			return s
		}
	}
}

var reservedNames = map[string]bool{}

// reservedName is true for a name with a meaning of its own: a keyword, a function that's called without parentheses, a word of some
// feature, or a type that is special to the grammar
func reservedName(s string) bool {
	if len(reservedNames) == 0 {
		panic("not initialized")
	}
	return reservedNames[s]
}

func init() {
	for _, ws := range [][]string{kwNames, stmtCallNames, {"true", "false", "plan", "workflow", "action", "resource", "stateHandler", "times", "range", "each", "parameters", "returns",
		"Object", "TypeSet", "Resource", "Deferred"}} {
		for _, w := range ws {
			reservedNames[w] = true
		}
	}
}

func (g *Gen) count(f string) { g.feat[f]++ }

// --- expressions ---

const (
	lvRel = iota
	lvAssign
	lvRes
	lvExpr // selector
	lvOr
	lvAnd
	lvComp
	lvEq
	lvShift
	lvAdd
	lvMul
	lvMatch
	lvIn
	lvUnary
	lvPrimary
)

var levelOps = map[int][]string{
	lvRel:    {"->", "~>", "<-", "<~"},
	lvAssign: {"=", "+=", "-="},
	lvOr:     {"or"},
	lvAnd:    {"and"},
	lvComp:   {"<", "<=", ">", ">="},
	lvEq:     {"==", "!="},
	lvShift:  {"<<", ">>"},
	lvAdd:    {"+", "-"},
	lvMul:    {"*", "/", "%"},
	lvMatch:  {"=~", "!~"},
	lvIn:     {"in"},
}

func binKind(level int) string {
	switch level {
	case lvRel:
		return "Relationship"
	case lvAssign:
		return "Assignment"
	case lvOr:
		return "Or"
	case lvAnd:
		return "And"
	case lvComp, lvEq:
		return "Comparison"
	case lvShift, lvAdd, lvMul:
		return "Arithmetic"
	case lvMatch:
		return "Match"
	}
	return "In"
}

func (g *Gen) deep() bool { return g.budget <= 0 || g.depth > g.cfg.MaxDepth }

// expr generates an expression of the given precedence level or higher. The tail flag is true if a selector without
// braces can be used, i.e. no operator will follow that could become part of it
func (g *Gen) expr(level int, tail bool) *T {
	g.budget--
	g.depth++
	defer func() { g.depth-- }()
	pOp := 22
	if g.cfg.Focus == "ops" {
		pOp = 75
	}
	if g.deep() || level > lvIn || !g.r.P(pOp) {
		if level <= lvExpr && !g.deep() && g.r.P(4) {
			return g.selector(tail)
		}
		if level <= lvRes && !g.deep() && !g.cfg.NoDefs && g.inStr == 0 && g.r.P(2) {
			return g.resourceLike()
		}
		return g.unary(level > lvUnary)
	}
	// choose level of operator. Assignments and relationships are less common
	l := g.r.Range(level, lvIn)
	if l < lvExpr && g.r.P(50) {
		l = g.r.Range(lvOr, lvIn)
	}
	switch l {
	case lvRes:
		l = lvAnd
	case lvExpr:
		return g.selector(tail)
	}
	if l < level {
		l = lvIn
	}
	var lhs *T
	switch l {
	case lvAssign:
		lhs = g.expr(lvRes, tail)
	case lvRel:
		lhs = g.expr(lvRel, tail)
	default:
		lhs = g.expr(l, false)
	}
	op := g.r.Pick(levelOps[l])
	if op == "/" && !g.divisible() {
		op = "*"
	}
	g.t(op)
	g.count("op " + op)
	var rhs *T
	switch l {
	case lvAssign:
		rhs = g.expr(lvAssign, tail)
	case lvRel:
		rhs = g.expr(lvAssign, tail)
	default:
		rhs = g.expr(l+1, false)
	}
	var as []Attr
	if k := binKind(l); k != "Or" && k != "And" && k != "In" {
		as = attrs(str("op", op))
	}
	return g.from(lhs, binKind(l), as, one("lhs", lhs), one("rhs", rhs))
}

// divisible returns true if a '/' after the last token is a division rather than the start of a regexp
func (g *Gen) divisible() bool {
	t := g.lastTok()
	if t.RawText {
		return true // end of string
	}
	switch t.S {
	case "}", "undef", "default", "attr", "private", "type", "class":
		return false
	}
	c := t.S[len(t.S)-1]
	return isW(c) || c == ')' || c == ']' || c == '\'' || c == '"' || c == '`'
}

func (g *Gen) selector(tail bool) *T {
	lhs := g.expr(lvOr, false)
	for {
		var entries []*T
		g.t("?")
		if tail && g.r.P(25) {
			g.count("selector single")
			m := g.mark()
			for {
				entries = []*T{g.selectorEntry()}
				if g.toks[m.toks].S[0] != '{' {
					break
				}
				// Braces would enclose the entries
				g.rollback(m)
			}
			return g.from(lhs, "Selector", nil, one("lhs", lhs), many("selectors", entries))
		}
		g.count("selector")
		g.t("{")
		entries = g.list("}", g.small(6), g.selectorEntry)
		g.t("}")
		lhs = g.from(lhs, "Selector", nil, one("lhs", lhs), many("selectors", entries))
		if !g.r.P(5) {
			return lhs
		}
	}
}

func (g *Gen) selectorEntry() *T {
	n := g.node("SelectorEntry")
	var m *T
	if g.r.P(25) {
		m = g.node("Default")
		g.t("default")
		g.done(m)
	} else {
		m = g.expr(lvExpr, true)
	}
	g.t("=>")
	v := g.expr(lvExpr, true)
	return g.done(n, one("matching", m), one("value", v))
}

// list generates elements, separated by comma, with an optional trailing comma
func (g *Gen) list(end string, n int, f func() *T) []*T {
	var r []*T
	for i := 0; i < n; i++ {
		if i > 0 {
			g.t(",")
		}
		r = append(r, f())
	}
	if n > 0 && g.r.P(10) {
		g.t(",")
	}
	return r
}

func startsWithDigit(s string) bool { return len(s) > 0 && isDig(s[0]) }

func (g *Gen) unary(primaryOnly bool) *T {
	if primaryOnly || g.deep() && g.r.P(80) || !g.r.P(12) {
		return g.primary()
	}
	switch g.r.N(6) {
	case 0, 1:
		n := g.node("Minus")
		g.t("-")
		g.count("op unary -")
		m := len(g.toks)
		e := g.primary()
		if startsWithDigit(g.toks[m].S) {
			g.toks[m].Sp = spReq
		}
		return g.done(n, one("expr", e))
	case 2, 3:
		n := g.node("Not")
		g.t("!")
		g.count("op !")
		e := g.unary(false)
		return g.done(n, one("expr", e))
	case 4:
		if g.inStr > 0 {
			return g.primary()
		}
		n := g.node("Unfold")
		g.t("*")
		g.count("op unfold")
		e := g.unary(false)
		return g.done(n, one("expr", e))
	default:
		// signed number
		sign := g.r.Pick([]string{"-", "-", "-", "+"})
		head := g.number(sign)
		if g.r.P(10) {
			return g.postfix(head)
		}
		return head
	}
}

// primary generates an atom, followed by any number of accesses and calls
func (g *Gen) primary() *T {
	if g.deep() {
		return g.atom()
	}
	switch {
	case g.cfg.Focus == "calls" && g.r.P(50), g.r.P(20):
		return g.callish()
	}
	return g.atom()
}

func (g *Gen) callish() *T {
	var head *T
	switch g.r.N(10) {
	case 0, 1, 2, 3:
		// named function call
		name := g.r.Pick(append([]string{"include", "notice", "require", "return", "fail"}, lowerNames...))
		head = g.node("Name", str("name", name))
		g.t(name)
		g.done(head)
		head = g.call(head)
		if g.r.P(70) {
			return head
		}
	case 4:
		head = g.typeName()
		if g.r.P(40) {
			head = g.call(head)
		}
	case 5, 6, 7:
		head = g.variable()
	case 8:
		head = g.paren()
	default:
		head = g.atom()
		switch head.K {
		case "Variable", "TypeName", "String", "List", "Concat", "Paren", "Name":
		default:
			return head
		}
	}
	return g.postfix(head)
}

// call generates a parenthesized argument list and/or a lambda
func (g *Gen) call(functor *T) *T {
	g.count("call")
	var args []*T
	var lambda *T
	if g.r.P(85) {
		g.sameLine("(")
		args = g.arguments(")")
		g.t(")")
	} else {
		lambda = g.lambda()
	}
	if lambda == nil && g.r.P(15) {
		lambda = g.lambda()
	}
	if functor.K == "NamedAccess" {
		return g.convertNA(functor, args, lambda)
	}
	return g.from(functor, "CallNamed", attrs(boolean("rval", true)), one("functor", functor), many("args", args), one("lambda", lambda))
}

func (g *Gen) convertNA(ne *T, args []*T, lambda *T) *T {
	return g.from(ne, "CallMethod", attrs(boolean("rval", true)), one("functor", convertInner(ne)), many("args", args), one("lambda", lambda))
}

// convertInner converts the left hand side of a named access that is a named access itself to a call
func convertInner(ne *T) *T {
	if lhs := ne.One("lhs"); lhs.K == "NamedAccess" {
		c := &T{K: "CallMethod", A: attrs(boolean("rval", true)), first: lhs.first, dOff: lhs.dOff, last: lhs.last}
		c.F = fields(one("functor", convertInner(lhs)), many("args", nil), one("lambda", nil))
		return &T{K: "NamedAccess", first: ne.first, dOff: ne.dOff, last: ne.last, F: fields(one("lhs", c), one("rhs", ne.One("rhs")))}
	}
	return ne
}

func (g *Gen) postfix(head *T) *T {
	cur := head
	n := 1 + g.small(5)
	for i := 0; i < n; i++ {
		switch g.r.N(7) {
		case 0, 1, 2:
			g.count("access")
			g.emit(&Tok{S: "[", Sp: spNone})
			cnt := 1
			if g.r.P(25) {
				cnt = g.small(5)
			}
			keys := g.elements(cnt)
			g.t("]")
			cur = g.from(cur, "Access", nil, one("operand", cur), many("keys", keys))
		case 3, 4, 5:
			g.count("method")
			g.t(".")
			var rhs *T
			switch {
			case g.r.P(8):
				rhs = g.node("Name", str("name", "type"))
				g.t("type")
				g.done(rhs)
			default:
				name := g.simpleName()
				rhs = g.node("Name", str("name", name))
				g.t(name)
				g.done(rhs)
			}
			cur = g.from(cur, "NamedAccess", nil, one("lhs", cur), one("rhs", rhs))
			if g.r.P(60) {
				cur = g.call(cur)
			}
		default:
			if cur.K == "NamedAccess" || cur.K == "Variable" || cur.K == "Access" || cur.K == "TypeName" {
				cur = g.call(cur)
			}
		}
	}
	if cur.K == "NamedAccess" {
		cur = g.convertNA(cur, nil, nil)
	}
	return cur
}

// joinEntries merges adjacent keyed entries into hashes
func joinEntries(es []*T) []*T {
	var r []*T
	var cur *T
	for _, e := range es {
		if e.K != "KeyedEntry" {
			cur = nil
			r = append(r, e)
			continue
		}
		if cur == nil {
			cur = &T{K: "Hash", first: e.first, dOff: e.dOff, F: fields(many("entries", nil))}
			r = append(r, cur)
		}
		cur.F[0].L = append(cur.F[0].L, e)
		cur.last = e.last
	}
	return r
}

func (g *Gen) arguments(end string) []*T {
	n := g.small(6)
	if g.deep() {
		n = g.r.N(2)
	} else if g.r.P(1) {
		n = g.r.N(60)
	}
	return g.elements(n)
}

func (g *Gen) elements(n int) []*T {
	return joinEntries(g.list("]", n, g.element))
}

func (g *Gen) element() *T {
	e := g.kwOr(lvRel)
	if g.r.P(12) {
		g.t("=>")
		v := g.kwOr(lvRel)
		return g.from(e, "KeyedEntry", nil, one("key", e), one("value", v))
	}
	return e
}

// kwOr generates an expression, or one of the keywords that can be used as a name in an argument list or hash
func (g *Gen) kwOr(level int) *T {
	if g.r.P(3) {
		kw := g.r.Pick(kwArgs)
		g.count("keyword as name")
		n := g.node("Name", str("name", kw))
		g.t(kw)
		g.done(n)
		if !g.deep() && g.r.P(30) {
			g.sameLine("(")
			args := g.arguments(")")
			g.t(")")
			var lambda *T
			if g.r.P(10) {
				lambda = g.lambda()
			}
			return g.from(n, "CallNamed", attrs(boolean("rval", true)), one("functor", n), many("args", args), one("lambda", lambda))
		}
		return n
	}
	return g.expr(level, true)
}

func (g *Gen) paren() *T {
	g.count("paren")
	n := g.node("Paren")
	g.t("(")
	e := g.expr(lvRel, true)
	// The location of the parenthesized expression includes the parenthesis
	g.t(")")
	return g.done(n, one("expr", e))
}

func (g *Gen) typeName() *T {
	s := g.tname()
	n := g.node("TypeName", str("name", s), str("down", strings.ToLower(s)))
	g.t(s)
	return g.done(n)
}

// typeExpr generates a parameter type
func (g *Gen) typeExpr() *T {
	tn := g.typeName()
	if g.r.P(40) && !g.deep() {
		g.tight("[")
		keys := g.elements(g.small(4))
		g.t("]")
		return g.from(tn, "Access", nil, one("operand", tn), many("keys", keys))
	}
	return tn
}

func (g *Gen) variable() *T {
	if g.r.P(8) {
		return g.numVariable()
	}
	s := g.vname()
	return g.variableNamed(s)
}

func (g *Gen) variableNamed(s string) *T {
	n := g.node("Variable")
	t := g.t("$" + s)
	return g.done(n, one("expr", &T{K: "Name", A: attrs(str("name", s)), first: t, dOff: 1, last: t}))
}

func (g *Gen) numVariable() *T {
	v := g.r.N(20)
	if g.r.P(20) {
		v = g.r.N(1 << 30)
	}
	n := g.node("Variable")
	t := g.t("$" + strconv.Itoa(v))
	return g.done(n, one("expr", &T{K: "Integer", A: attrs(num("value", int64(v)), num("radix", 10)), first: t, dOff: 1, last: t}))
}

var someInts = []string{"0", "1", "2", "10", "42", "7", "255", "65536", "9223372036854775807", "9223372036854775806", "1000000000000"}
var someHex = []string{"0x0", "0x1F", "0Xff", "0xDEADbeef", "0x7fffffffffffffff", "0xA", "0x00a"}
var someOct = []string{"017", "00", "0777", "01", "0777777777777777777777", "0010"}
var someFloats = []string{"0.0", "1.5", "3.14159", "1e10", "1E3", "0.1e-5", "12.5E+3", "0e5", "1.0", "100.0", "0.30000000000000004", "1.7976931348623157e308", "5e-324",
	"123456789.123", "2.5e15", "1e15", "1e16", "1e17", "123456789012345678.0", "1e-7", "10.10", "0.000001"}

func (g *Gen) number(sign string) *T {
	n := g.node("")
	neg := sign == "-"
	k := g.r.N(10)
	var s string
	switch {
	case k < 5:
		s = g.r.Pick(someInts)
		if g.r.P(30) {
			s = strconv.FormatUint(g.r.Next()>>uint(1+g.r.N(62)), 10)
		}
		if neg && g.r.P(10) {
			s = "9223372036854775808"
		}
		mag, err := strconv.ParseUint(s, 10, 64)
		if err != nil {
			panic(err)
		}
		n.K = "Integer"
		n.A = attrs(num("value", signed(mag, neg)), num("radix", 10))
		g.count("int decimal")
	case k < 6:
		s = g.r.Pick(someHex)
		if g.r.P(40) {
			s = "0x" + strconv.FormatUint(g.r.Next()>>uint(1+g.r.N(62)), 16)
			switch g.r.N(3) {
			case 0:
				s = g.r.Pick([]string{"0x", "0X"}) + strings.ToUpper(s[2:])
			case 1:
				b := []byte(s)
				for i := range b {
					if i > 0 && g.r.P(50) {
						b[i] = strings.ToUpper(string(b[i]))[0]
					}
				}
				s = string(b)
			}
		}
		mag, _ := strconv.ParseUint(s[2:], 16, 64)
		n.K = "Integer"
		n.A = attrs(num("value", signed(mag, neg)), num("radix", 16))
		g.count("int hex")
	case k < 7:
		s = g.r.Pick(someOct)
		if g.r.P(40) {
			s = "0" + strconv.FormatUint(g.r.Next()>>uint(1+g.r.N(62)), 8)
		}
		mag, _ := strconv.ParseUint(s, 8, 64)
		n.K = "Integer"
		n.A = attrs(num("value", signed(mag, neg)), num("radix", 8))
		g.count("int octal")
	default:
		s = g.r.Pick(someFloats)
		if g.r.P(40) {
			s = g.randFloat()
		}
		v, err := strconv.ParseFloat(s, 64)
		if err != nil {
			panic(err)
		}
		if neg {
			v = -v
		}
		n.K = "Float"
		n.A = attrs(Attr{"value", v})
		g.count("float")
	}
	g.t(sign + s)
	return g.done(n)
}

func (g *Gen) randFloat() string {
	r := g.r
	s := strconv.Itoa(r.N(100000))
	if len(s) > 1 && s[0] == '0' {
		s = "1" + s
	}
	if r.P(70) {
		s += "."
		for i := 1 + r.N(18); i > 0; i-- {
			s += strconv.Itoa(r.N(10))
		}
		if r.P(40) {
			s += r.Pick([]string{"e", "E"}) + r.Pick([]string{"", "-", "+"}) + strconv.Itoa(r.N(250))
		}
	} else {
		s += r.Pick([]string{"e", "E"}) + r.Pick([]string{"", "-", "+"}) + strconv.Itoa(r.N(250))
	}
	return s
}

func signed(mag uint64, neg bool) int64 {
	if neg {
		return int64(-mag)
	}
	return int64(mag)
}

func (g *Gen) atom() *T {
	g.budget--
	r := g.r
	if g.deep() {
		switch r.N(8) {
		case 0, 1:
			return g.number("")
		case 2, 3:
			return g.variable()
		case 4:
			return g.simpleString()
		case 5:
			return g.nameAtom()
		case 6:
			return g.keywordLit()
		default:
			return g.typeName()
		}
	}
	switch g.cfg.Focus {
	case "literals":
		if r.P(60) {
			switch r.N(6) {
			case 0, 1, 2:
				return g.number("")
			case 3:
				return g.keywordLit()
			case 4:
				return g.regexp()
			default:
				return g.variable()
			}
		}
	case "strings":
		if r.P(60) {
			return g.simpleString()
		}
	case "interp":
		if r.P(50) && g.inStr < 3 {
			return g.concat()
		}
	case "heredoc":
		if r.P(40) && g.inStr == 0 && !g.cfg.NoHeredoc {
			return g.heredoc()
		}
	case "flow":
		if r.P(30) && g.inStr == 0 {
			switch r.N(3) {
			case 0:
				return g.ifExpr(false)
			case 1:
				return g.ifExpr(true)
			default:
				return g.caseExpr()
			}
		}
	case "calls":
		if r.P(30) {
			if r.P(50) {
				return g.listLit()
			}
			return g.hashLit()
		}
	}
	switch x := r.N(100); {
	case x < 14:
		return g.number("")
	case x < 20:
		return g.keywordLit()
	case x < 30:
		return g.nameAtom()
	case x < 37:
		return g.typeName()
	case x < 53:
		return g.variable()
	case x < 65:
		return g.simpleString()
	case x < 70:
		if g.inStr < 2 {
			return g.concat()
		}
		return g.variable()
	case x < 72:
		if g.inStr == 0 && !g.cfg.NoHeredoc {
			return g.heredoc()
		}
		return g.simpleString()
	case x < 75:
		return g.regexp()
	case x < 82:
		return g.listLit()
	case x < 88:
		return g.hashLit()
	case x < 93:
		return g.paren()
	case x < 97:
		if g.inStr > 0 {
			return g.variable()
		}
		switch r.N(3) {
		case 0:
			return g.ifExpr(false)
		case 1:
			return g.ifExpr(true)
		default:
			return g.caseExpr()
		}
	default:
		w := r.Pick([]string{"attr", "private"})
		n := g.node("Reserved", str("name", w), boolean("future", false))
		g.t(w)
		return g.done(n)
	}
}

func (g *Gen) nameAtom() *T {
	if g.r.P(10) {
		// a name with dashes is a string
		s := g.r.Pick([]string{"a-b", "foo-bar-9", "x--y", "a::b-c", "i-f"})
		if g.r.P(50) {
			s = randomName(g.r, '-')
		}
		n := g.node("String", str("value", s))
		g.t(s)
		g.count("dashed name")
		return g.done(n)
	}
	s := g.lname()
	n := g.node("Name", str("name", s))
	g.t(s)
	return g.done(n)
}

func (g *Gen) keywordLit() *T {
	switch g.r.N(5) {
	case 0:
		n := g.node("Boolean", boolean("value", true))
		g.t("true")
		return g.done(n)
	case 1:
		n := g.node("Boolean", boolean("value", false))
		g.t("false")
		return g.done(n)
	case 2, 3:
		n := g.node("Undef")
		g.t("undef")
		return g.done(n)
	default:
		n := g.node("Default")
		g.t("default")
		return g.done(n)
	}
}

var rxPieces = []string{"a", "[a-z]+", `\d`, `\/`, `\.`, "(x|y)", "é", "^", "$", " ", `\\`, "'", `"`, "#", "{2}", "日", `\n`, "*", "?", "//x"}

// randomRx is any printable character without a meaning to the lexer, possibly escaped
func randomRx(r *Rng) string {
	for {
		c := rune(' ' + r.N(95))
		if r.P(20) {
			c = rune(0xa1 + r.N(0x2fff))
		}
		if strings.ContainsRune("/\\'\"#*%@", c) || c == 0x2028 || c == 0x2029 {
			continue
		}
		if r.P(25) && c < 128 {
			return "\\" + string(c)
		}
		return string(c)
	}
}

func (g *Gen) regexp() *T {
	n := g.node("Regexp")
	b, v := "", ""
	for i := g.small(6); i >= 0; i-- {
		p := g.r.Pick(rxPieces)
		if g.r.P(30) {
			p = randomRx(g.r)
		}
		if !g.cfg.NoHeredoc && (p == "'" || p == "\"") {
			// Quotes are not permitted in a regexp that shares a line with a heredoc tag
			p = "q"
		}
		if b == "" && (p[0] == '*' || p == "//x") || p == "//x" {
			p = "z"
		}
		b += p
		if p == `\/` {
			v += "/"
		} else {
			v += p
		}
	}
	n.A = attrs(str("value", v))
	g.t("/" + b + "/")
	g.count("regexp")
	return g.done(n)
}

func (g *Gen) listLit() *T {
	n := g.node("List")
	g.emit(&Tok{S: "[", Sp: spOpt})
	cnt := g.small(6)
	if g.r.P(2) {
		cnt = g.r.N(80)
	}
	es := g.elements(cnt)
	g.t("]")
	g.count("list")
	return g.done(n, many("elements", es))
}

func (g *Gen) hashLit() *T {
	n := g.node("Hash")
	g.t("{")
	es := g.list("}", g.small(6), g.hashEntry)
	g.t("}")
	g.count("hash")
	return g.done(n, many("entries", es))
}

func (g *Gen) hashEntry() *T {
	k := g.kwOr(lvRel)
	g.t("=>")
	v := g.kwOr(lvRel)
	return g.from(k, "KeyedEntry", nil, one("key", k), one("value", v))
}

// --- blocks and control flow ---

func (g *Gen) block(maxStmts int) *T {
	return g.blockOf(g.small(maxStmts))
}

// braces generates a block within braces
func (g *Gen) braces() *T {
	g.t("{")
	n := 4
	if g.deep() {
		n = 1
	}
	b := g.block(n)
	g.t("}")
	return b
}

func (g *Gen) blockOf(n int) *T {
	b := &T{K: "Block"}
	m := len(g.toks)
	ss := g.statements(n)
	b.F = fields(many("statements", ss))
	if len(ss) > 0 {
		b.first, b.dOff = g.toks[m], 0
		if g.epp {
			b.first, b.dOff = ss[0].first, ss[0].dOff
		}
		b.last = ss[len(ss)-1].last
	}
	return b
}

// statements generates a sequence of statements.
func (g *Gen) statements(n int) []*T { return g.statementsAfter(n, nil, false) }

// statementsAfter generates statements that follow the given ones. The initial text of an EPP template doesn't need, and cannot have
// a separator
func (g *Gen) statementsAfter(n int, prev []*T, initial bool) []*T {
	ss := append([]*T{}, prev...)
	for i := 0; i < n; i++ {
		if g.epp && g.inStr == 0 && g.r.P(35) {
			ss = append(ss, g.eppText()...)
		}
		m := len(g.toks)
		s := g.statement(i == n-1 && !g.epp)
		if len(ss) > 0 && !(initial && len(ss) == 1 && ss[0].K == "RenderString") {
			g.separate(m)
		} else if t := g.toks[m]; g.epp && (t.S[0] == '-' || t.S[0] == '=') && m > 0 && g.toks[m-1].EppTag {
			t.Sp = spReq
		}
		if s.K == "CallNamed" {
			s.Set("rval", false)
		}
		ss = append(ss, s)
	}
	if g.epp && g.inStr == 0 && g.r.P(25) {
		ss = append(ss, g.eppText()...)
	}
	return ss
}

// separate ensures that the statement that starts with the token at the given index isn't taken as a continuation of the previous one
func (g *Gen) separate(m int) {
	f := g.toks[m]
	semi := false
	switch c := f.S[0]; {
	case m > 0 && g.toks[m-1].EppTag && (c == '(' || c == '['):
		// the tag separates them
		g.count("epp tag starts with " + string(c))
	default:
		semi = g.joins(f)
		if semi && c == '(' && f.Nl == nlReq {
			return
		}
	}
	if semi || g.r.P(8) {
		g.toks = append(g.toks, nil)
		copy(g.toks[m+1:], g.toks[m:])
		g.toks[m] = &Tok{S: ";"}
		if g.noNL > 0 {
			g.toks[m].Nl = nlNo
		}
	}
}

// joins returns true if the token continues a statement that precedes it
func (g *Gen) joins(f *Tok) (semi bool) {
	switch c := f.S[0]; c {
	case '{', '-', '+', '*', '/', '|', '?', '.', '<', '=':
		semi = true
	case '(':
		if g.inStr == 0 && g.noNL == 0 && g.r.P(70) {
			f.Nl = nlReq
			return true
		}
		semi = true
	case '[':
		f.Sp = spReq
	}
	return
}

func (g *Gen) ifExpr(unless bool) *T {
	kw, k := "if", "If"
	if unless {
		kw, k = "unless", "Unless"
	}
	g.count(kw)
	n := g.node(k)
	g.t(kw)
	return g.ifRest(n, unless)
}

func (g *Gen) ifRest(n *T, unless bool) *T {
	test := g.expr(lvOr, false)
	then := g.braces()
	var els *T
	switch {
	case !unless && g.r.P(30) && !g.deep():
		els = g.node("If")
		g.t("elsif")
		g.count("elsif")
		g.ifRest(els, false)
	case g.r.P(40):
		g.t("else")
		els = g.braces()
	default:
		els = &T{K: "Nop", NoLoc: true}
	}
	return g.done(n, one("test", test), one("then", then), one("else", els))
}

func (g *Gen) caseExpr() *T {
	g.count("case")
	n := g.node("Case")
	g.t("case")
	test := g.expr(lvExpr, true)
	g.t("{")
	var opts []*T
	cnt := 1 + g.small(5)
	if g.deep() {
		cnt = 1
	}
	for i := 0; i < cnt; i++ {
		o := g.node("CaseOption")
		vs := g.list(":", 1+g.small(3), func() *T {
			if g.r.P(20) {
				d := g.node("Default")
				g.t("default")
				return g.done(d)
			}
			return g.expr(lvExpr, true)
		})
		g.t(":")
		b := g.braces()
		opts = append(opts, g.done(o, many("values", vs), one("then", b)))
	}
	g.t("}")
	return g.done(n, one("test", test), many("options", opts))
}

func (g *Gen) params(n int) []*T { return g.list(")", n, g.param) }

func (g *Gen) param() *T {
	n := g.node("Parameter")
	var ty, val *T
	if g.r.P(40) {
		ty = g.typeExpr()
	}
	rest := g.r.P(8)
	if rest {
		g.t("*")
	}
	g.seq++
	name := "p" + strconv.Itoa(g.seq)
	if g.r.P(15) {
		name = g.vname()
	}
	g.t("$" + name)
	if g.r.P(30) {
		g.t("=")
		val = g.expr(lvExpr, true)
	}
	n.A = attrs(str("name", name), boolean("rest", rest))
	g.count("param")
	return g.done(n, one("type", ty), one("value", val))
}

func (g *Gen) lambda() *T {
	g.count("lambda")
	n := g.node("Lambda")
	g.t("|")
	ps := g.params(g.small(4))
	g.t("|")
	var ret *T
	if g.r.P(15) {
		g.t(">>")
		ret = g.typeExpr()
	}
	body := g.braces()
	return g.done(n, many("params", ps), one("body", body), one("returns", ret))
}

// --- statements ---

func (g *Gen) statement(last bool) *T {
	r := g.r
	g.depth++
	defer func() { g.depth-- }()
	g.budget--
	top := 100
	if g.inStr > 0 {
		top = 40
	}
	if g.deep() {
		return g.exprStatement()
	}
	switch g.cfg.Focus {
	case "resources":
		if g.inStr == 0 && r.P(60) {
			return g.resourceStatement()
		}
	case "defs":
		if g.inStr == 0 && !g.cfg.NoDefs && r.P(60) {
			return g.definition()
		}
	case "flow":
		if r.P(60) {
			switch r.N(3) {
			case 0:
				return g.ifExpr(false)
			case 1:
				return g.ifExpr(true)
			default:
				return g.caseExpr()
			}
		}
	case "steps":
		if g.inStr == 0 && g.cfg.Workflow && r.P(50) {
			return g.step(true, false)
		}
	}
	switch x := r.N(top); {
	case x < 18:
		return g.exprStatement()
	case x < 30:
		return g.callish()
	case x < 40:
		if s := g.statementCall(last); s != nil {
			return s
		}
		return g.exprStatement()
	case x < 50:
		v := g.variable()
		g.t("=")
		e := g.expr(lvAssign, true)
		return g.from(v, "Assignment", attrs(str("op", "=")), one("lhs", v), one("rhs", e))
	case x < 58:
		return g.ifExpr(r.P(30))
	case x < 62:
		return g.caseExpr()
	case x < 82:
		return g.resourceStatement()
	case x < 84 && g.cfg.Workflow:
		return g.step(true, false)
	default:
		if g.cfg.NoDefs {
			return g.exprStatement()
		}
		return g.definition()
	}
}

func (g *Gen) exprStatement() *T {
	e := g.expr(lvRel, true)
	return e
}

func riskyStart(t *Tok) bool {
	switch t.S[0] {
	case '{', '-', '+', '*', '/', '|', '?', '.', '<', '=', '(':
		return true
	}
	return false
}

func (g *Gen) statementCall(last bool) *T {
	r := g.r
	name := r.Pick(stmtCallNames)
	fn := g.node("Name", str("name", name))
	g.t(name)
	g.done(fn)
	g.count("statement call")
	switch x := r.N(20); {
	case x < 2:
		// A call with a hash
		h := g.node("Hash")
		g.t("{")
		// The first key of this hash cannot be a call of a function named by a keyword
		first := true
		es := g.list("}", g.small(4), func() *T {
			for {
				m := g.mark()
				e := g.hashEntry()
				if k := g.toks[m.toks]; first && len(g.toks) > m.toks+1 && isKwArg(k.S) && g.toks[m.toks+1].S == "(" {
					g.rollback(m)
					continue
				}
				first = false
				return e
			}
		})
		g.t("}")
		g.done(h, many("entries", es))
		return g.from(fn, "CallNamed", attrs(boolean("rval", false)), one("functor", fn), many("args", []*T{h}), one("lambda", nil))
	case x < 4:
		// A call with a list, glued to the name
		g.tight("[")
		es := g.elements(g.small(4))
		g.t("]")
		l := g.from(fn, "List", nil, many("elements", es))
		return g.from(fn, "CallNamed", attrs(boolean("rval", false)), one("functor", fn), many("args", []*T{l}), one("lambda", nil))
	}
	if last && r.P(10) {
		return fn // no argument
	}
	for try := 0; try < 5; try++ {
		m := g.mark()
		a := g.expr(lvRel, true)
		f := g.toks[m.toks]
		if riskyStart(f) && f.S[0] != '(' || a.K == "Name" || isDefKind(a.K) || f.S == "[" && f.Sp == spNone {
			g.rollback(m)
			continue
		}
		switch f.S[0] {
		case '(':
			if g.inStr > 0 || g.noNL > 0 {
				g.rollback(m)
				continue
			}
			f.Nl = nlReq
		case '[':
			f.Sp = spReq
		}
		args := []*T{a}
		if r.P(25) {
			for i := 1 + r.N(3); i > 0; i-- {
				g.t(",")
				args = append(args, g.expr(lvRel, true))
			}
		}
		return g.from(fn, "CallNamed", attrs(boolean("rval", false)), one("functor", fn), many("args", args), one("lambda", nil))
	}
	g.toks = g.toks[:len(g.toks)-1]
	return nil
}

func isKwArg(s string) bool {
	for _, k := range kwArgs {
		if s == k {
			return true
		}
	}
	return false
}

func isDefKind(k string) bool {
	switch k {
	case "Class", "Define", "Function", "Plan", "Node", "Site", "Application", "TypeAlias", "TypeDefinition", "TypeMapping", "CapabilityMapping", "Step":
		return true
	}
	return false
}

// --- resources ---

func (g *Gen) resourceStatement() *T {
	r := g.r
	if r.P(25) {
		lhs := g.relOperand()
		for i := 1 + g.small(4); i > 0; i-- {
			op := r.Pick(levelOps[lvRel])
			g.t(op)
			g.count("op " + op)
			rhs := g.relOperand()
			lhs = g.from(lhs, "Relationship", attrs(str("op", op)), one("lhs", lhs), one("rhs", rhs))
		}
		return lhs
	}
	return g.resourceLike()
}

func (g *Gen) relOperand() *T {
	switch g.r.N(5) {
	case 0, 1:
		return g.resourceLike()
	case 2:
		return g.collector()
	case 3:
		tn := g.typeName()
		g.tight("[")
		keys := g.elements(1 + g.small(3))
		g.t("]")
		return g.from(tn, "Access", nil, one("operand", tn), many("keys", keys))
	default:
		return g.expr(lvAssign, true)
	}
}

func (g *Gen) resourceLike() *T {
	r := g.r
	x := r.N(20)
	if x < 4 {
		return g.collector()
	}
	form := "regular"
	var start *T
	if r.P(20) {
		start = &T{}
		g.open = append(g.open, start)
		if r.P(50) {
			form = "virtual"
			g.t("@")
		} else {
			form = "exported"
			g.t("@@")
		}
	}
	mk := func(first *T, k string, fs ...Field) *T {
		n := g.from(first, k, attrs(str("form", form)), fs...)
		if start != nil {
			n.first, n.dOff = start.first, 0
		}
		g.count(k + " " + form)
		return n
	}
	switch {
	case x < 13:
		var ty *T
		switch y := r.N(20); {
		case y < 15:
			name := g.lname()
			ty = g.node("Name", str("name", name))
			g.t(name)
			g.done(ty)
		case y < 17 && start == nil:
			ty = g.node("Name", str("name", "class"))
			g.t("class")
			g.done(ty)
		case y < 18:
			ty = g.typeName()
		default:
			ty = g.variable()
		}
		g.t("{")
		var bodies []*T
		cnt := 1 + g.small(4)
		if r.P(1) {
			cnt = r.Range(1, 40)
		}
		for i := 0; i < cnt; i++ {
			if i > 0 {
				g.t(";")
			}
			title := g.title()
			g.t(":")
			ops := g.attributeOps()
			bodies = append(bodies, g.from(title, "ResourceBody", nil, one("title", title), many("ops", ops)))
		}
		if r.P(20) {
			g.t(";")
		}
		g.t("}")
		return mk(ty, "Resource", one("type", ty), many("bodies", bodies))
	case x < 16:
		ty := g.typeName()
		if r.P(15) {
			// Resource[x] { ... } is also resource defaults
			ty.A = attrs(str("name", "Resource"), str("down", "resource"))
			g.lastTok().S = "Resource"
			g.tight("[")
			key := g.expr(lvRel, true)
			g.t("]")
			ty = g.from(ty, "Access", nil, one("operand", ty), many("keys", []*T{key}))
		}
		g.t("{")
		ops := g.attributeOps()
		g.t("}")
		return mk(ty, "ResourceDefaults", one("type", ty), many("ops", ops))
	default:
		var res *T
		if r.P(20) {
			res = g.variable()
		} else {
			res = g.typeName()
		}
		all := false
		if res.K == "TypeName" && r.P(10) {
			// With several keys, Resource is as any other type
			res.A = attrs(str("name", "Resource"), str("down", "resource"))
			g.lastTok().S = "Resource"
			all = true
		}
		g.tight("[")
		var keys []*T
		if all {
			for i := r.Range(2, 3); i > 0; i-- {
				keys = append(keys, g.expr(lvRel, true))
				if i > 1 {
					g.t(",")
				}
			}
		} else {
			keys = g.elements(1 + g.small(3))
		}
		g.t("]")
		res = g.from(res, "Access", nil, one("operand", res), many("keys", keys))
		g.t("{")
		ops := g.attributeOps()
		g.t("}")
		return mk(res, "ResourceOverride", one("resources", res), many("ops", ops))
	}
}

func (g *Gen) title() *T {
	for {
		m := g.mark()
		var t *T
		switch g.r.N(6) {
		case 0, 1, 2:
			t = g.simpleString()
		case 3:
			t = g.node("Default")
			g.t("default")
			g.done(t)
		case 4:
			t = g.nameAtom()
		default:
			t = g.expr(lvExpr, true)
		}
		if s := g.toks[m.toks].S; s[0] == '*' || isKw(s) && s != "default" && s != "undef" && s != "true" && s != "false" && s != "if" && s != "unless" && s != "case" {
			g.rollback(m)
			continue
		}
		return t
	}
}

func isKw(s string) bool {
	for _, k := range kwNames {
		if s == k {
			return true
		}
	}
	return false
}

func (g *Gen) attributeOps() []*T {
	n := g.small(6)
	if g.deep() {
		n = g.r.N(2)
	} else if g.r.P(1) {
		n = g.r.N(50)
	}
	return g.list("}", n, g.attributeOp)
}

func (g *Gen) attributeOp() *T {
	if g.r.P(8) {
		n := g.node("AttributesOp")
		g.t("*")
		g.t("=>")
		e := g.expr(lvExpr, true)
		g.count("attributes op")
		return g.done(n, one("expr", e))
	}
	n := g.node("AttributeOp")
	var name string
	switch g.r.N(8) {
	case 0:
		name = g.r.Pick(kwNames)
		g.count("keyword attribute")
	case 1:
		name = g.r.Pick(stmtCallNames)
	default:
		name = g.lname()
	}
	g.t(name)
	op := "=>"
	if g.r.P(20) {
		op = "+>"
	}
	g.t(op)
	g.count("attribute " + op)
	e := g.expr(lvExpr, true)
	n.A = attrs(str("op", op), str("name", name))
	return g.done(n, one("value", e))
}

func (g *Gen) collector() *T {
	ty := g.typeName()
	q := g.node("")
	exported := g.r.P(30)
	lt, rt := "<|", "|>"
	q.K = "VirtualQuery"
	if exported {
		lt, rt = "<<|", "|>>"
		q.K = "ExportedQuery"
	}
	g.t(lt)
	var qe *T
	if g.r.P(25) {
		qe = &T{K: "Nop", NoLoc: true}
	} else if g.r.P(60) {
		qe = g.query()
	} else {
		qe = g.expr(lvExpr, true)
	}
	g.t(rt)
	g.done(q, one("expr", qe))
	var ops []*T
	if g.r.P(25) {
		g.t("{")
		ops = g.attributeOps()
		g.t("}")
	}
	g.count("collector " + q.K)
	return g.from(ty, "Collect", nil, one("type", ty), one("query", q), many("ops", ops))
}

// query generates a query that is valid for a collector
func (g *Gen) query() *T {
	cmp := func() *T {
		var l *T
		name := g.simpleName()
		l = g.node("Name", str("name", name))
		g.t(name)
		g.done(l)
		op := g.r.Pick([]string{"==", "!="})
		g.t(op)
		rhs := g.atomSimple()
		return g.from(l, "Comparison", attrs(str("op", op)), one("lhs", l), one("rhs", rhs))
	}
	l := cmp()
	if g.r.P(30) {
		if g.r.P(50) {
			g.t("and")
			rr := cmp()
			return g.from(l, "And", nil, one("lhs", l), one("rhs", rr))
		}
		g.t("or")
		rr := cmp()
		return g.from(l, "Or", nil, one("lhs", l), one("rhs", rr))
	}
	return l
}

func (g *Gen) atomSimple() *T {
	switch g.r.N(4) {
	case 0:
		return g.number("")
	case 1:
		return g.variable()
	case 2:
		return g.keywordLit()
	default:
		return g.simpleString()
	}
}

// --- definitions ---

func (g *Gen) qname(n string) string {
	return strings.Join(append(append([]string{}, g.names...), n), "::")
}

func (g *Gen) push(n string) { g.names = append(g.names, n) }
func (g *Gen) pop()          { g.names = g.names[:len(g.names)-1] }

// paramList generates an optional parameter list within parenthesis
func (g *Gen) paramList() []*T {
	if g.r.P(35) {
		return nil
	}
	g.t("(")
	n := g.small(5)
	if g.r.P(1) {
		n = g.r.N(40)
	}
	ps := g.params(n)
	g.t(")")
	return ps
}

func (g *Gen) define(n *T) *T {
	g.defs = append(g.defs, n)
	g.count("def " + n.K)
	return n
}

func (g *Gen) defName() string {
	if g.r.P(40) {
		g.seq++
		return "d" + strconv.Itoa(g.seq)
	}
	return g.lname()
}

func (g *Gen) definition() *T {
	r := g.r
	for {
		switch r.N(13) {
		case 0, 1, 2:
			return g.class()
		case 3, 4:
			n := g.node("Define")
			g.t("define")
			name := g.defName()
			if r.P(10) {
				name = g.tname()
			}
			g.t(name)
			ps := g.paramList()
			b := g.braces()
			n.A = attrs(str("name", name))
			return g.define(g.done(n, many("params", ps), one("body", b)))
		case 5:
			return g.function()
		case 6:
			if !g.cfg.Tasks {
				continue
			}
			n := g.node("Plan")
			g.t("plan")
			name := g.defName()
			if r.P(10) {
				name = g.tname()
			}
			g.t(name)
			g.push(name)
			ps := g.paramList()
			var ret *T
			if r.P(30) {
				g.t(">>")
				ret = g.typeExpr()
			}
			b := g.braces()
			g.pop()
			n.A = attrs(str("name", name))
			return g.define(g.done(n, many("params", ps), one("body", b), one("returns", ret)))
		case 7:
			return g.nodeDef()
		case 8:
			if r.P(50) {
				n := g.node("Site")
				g.t("site")
				b := g.braces()
				return g.define(g.done(n, one("body", b)))
			}
			n := g.node("Application")
			g.t("application")
			name := g.defName()
			g.t(name)
			ps := g.paramList()
			b := g.braces()
			n.A = attrs(str("name", name))
			return g.define(g.done(n, many("params", ps), one("body", b)))
		case 9, 10:
			return g.typeAlias()
		case 11:
			n := g.node("TypeDefinition")
			g.t("type")
			name := g.tname()
			g.t(name)
			parent := ""
			if r.P(50) {
				g.t("inherits")
				parent = g.tname()
				g.t(parent)
			}
			b := g.braces()
			n.A = attrs(str("name", name), str("parent", parent))
			return g.define(g.done(n, one("body", b)))
		default:
			return g.capMapping()
		}
	}
}

func (g *Gen) class() *T {
	r := g.r
	n := g.node("Class")
	g.t("class")
	name := g.defName()
	if r.P(10) {
		name = g.tname()
	}
	g.t(name)
	name = strings.TrimPrefix(name, "::")
	g.push(name)
	ps := g.paramList()
	parent := ""
	if r.P(25) {
		g.t("inherits")
		switch r.N(4) {
		case 0:
			parent = "default"
		case 1:
			parent = g.tname()
		default:
			parent = g.lname()
		}
		g.t(parent)
	}
	b := g.braces()
	g.pop()
	n.A = attrs(str("name", g.qname(name)), str("parent", parent))
	return g.define(g.done(n, many("params", ps), one("body", b)))
}

func (g *Gen) function() *T {
	r := g.r
	n := g.node("Function")
	g.t("function")
	name := g.defName()
	if r.P(10) {
		name = g.tname()
	}
	g.t(name)
	ps := g.paramList()
	var ret *T
	if r.P(30) {
		g.t(">>")
		ret = g.typeExpr()
	}
	b := g.braces()
	n.A = attrs(str("name", name))
	return g.define(g.done(n, many("params", ps), one("body", b), one("returns", ret)))
}

func (g *Gen) nodeDef() *T {
	r := g.r
	n := g.node("Node")
	g.t("node")
	cnt := 1 + g.small(4)
	var ms []*T
	for i := 0; i < cnt; i++ {
		if i > 0 {
			g.t(",")
		}
		ms = append(ms, g.hostname())
	}
	if r.P(10) {
		g.t(",")
	}
	var parent *T
	if r.P(15) {
		g.t("inherits")
		parent = g.hostname()
	}
	b := g.braces()
	return g.define(g.done(n, many("matches", ms), one("parent", parent), one("body", b)))
}

func (g *Gen) hostname() *T {
	r := g.r
	switch r.N(8) {
	case 0:
		return g.regexp()
	case 1:
		n := g.node("Default")
		g.t("default")
		return g.done(n)
	case 2:
		return g.simpleString()
	case 3:
		if g.inStr == 0 {
			return g.concat()
		}
		return g.simpleString()
	case 4:
		s := r.Pick([]string{"10.0.0.1", "192.168.0.10", "1.20.0", "007.010", "10", "1e5.foo", "0.0", "3.00", "1.50.x", "8.8.8.8"})
		n := g.node("String", str("value", s))
		g.t(s)
		g.count("dotted number")
		return g.done(n)
	default:
		s := r.Pick([]string{"www", "example.com", "a.b.c.d", "Web.Example.org", "db01.x2", "host", "h1.r2.c3", "a::b.c"})
		n := g.node("String", str("value", s))
		g.t(s)
		return g.done(n)
	}
}

func (g *Gen) synthType(name string) *T {
	return &T{K: "TypeName", A: attrs(str("name", name), str("down", strings.ToLower(name))), NoLoc: true}
}

func (g *Gen) typeAlias() *T {
	r := g.r
	n := g.node("TypeAlias")
	g.t("type")
	if r.P(15) {
		// type mapping
		n.K = "TypeMapping"
		ty := g.typeName()
		g.tight("[")
		keys := g.elements(1 + g.small(3))
		g.t("]")
		ty = g.from(ty, "Access", nil, one("operand", ty), many("keys", keys))
		g.t("=")
		m := g.expr(lvExpr, true)
		return g.define(g.done(n, one("type", ty), one("mapping", m)))
	}
	name := g.tname()
	g.t(name)
	g.t("=")
	n.A = attrs(str("name", name))
	var body *T
	switch r.N(6) {
	case 0:
		// Object alias with just a hash
		h := g.hashLit()
		body = g.from(h, "Access", nil, one("operand", g.synthType("Object")), many("keys", []*T{h}))
	case 1:
		m := g.node("List")
		g.t("[")
		es := g.elements(1)
		g.t("]")
		g.done(m)
		body = g.from(m, "Access", nil, one("operand", g.synthType("Object")), many("keys", es))
	case 2:
		tn := g.typeName()
		pn := tn.Str("name")
		if r.P(30) {
			pn = r.Pick([]string{"Object", "TypeSet"})
			g.lastTok().S = pn
			tn.A = attrs(str("name", pn), str("down", strings.ToLower(pn)))
		}
		h := g.hashLit()
		if pn == "Object" || pn == "TypeSet" {
			body = g.from(tn, "Access", nil, one("operand", tn), many("keys", []*T{h}))
		} else {
			entry := &T{K: "KeyedEntry", NoLoc: true, F: fields(one("key", &T{K: "String", A: attrs(str("value", "parent")), NoLoc: true}), one("value", tn))}
			nh := g.from(tn, "Hash", nil, many("entries", append([]*T{entry}, h.Many("entries")...)))
			body = g.from(tn, "Access", nil, one("operand", g.synthType("Object")), many("keys", []*T{nh}))
		}
	default:
		for {
			m := g.mark()
			body = g.expr(lvExpr, true)
			if body.K == "List" || body.K == "Hash" {
				g.rollback(m)
				continue
			}
			break
		}
	}
	return g.define(g.done(n, one("type", body)))
}

func (g *Gen) capMapping() *T {
	r := g.r
	var comp *T
	switch r.N(5) {
	case 0:
		w := r.Pick([]string{"attr", "private"})
		comp = g.node("Name", str("name", g.qname(w)))
		g.t(w)
		g.done(comp)
	case 1, 2:
		comp = g.typeName()
		if r.P(40) {
			g.tight("[")
			keys := g.elements(1)
			g.t("]")
			comp = g.from(comp, "Access", nil, one("operand", comp), many("keys", keys))
		}
	default:
		s := g.lname()
		comp = g.node("Name", str("name", s))
		g.t(s)
		g.done(comp)
	}
	kind := r.Pick([]string{"produces", "consumes"})
	g.t(kind)
	cap := g.tname()
	if r.P(30) {
		cap = g.lname()
	}
	g.t(cap)
	g.t("{")
	ops := g.attributeOps()
	g.t("}")
	return g.define(g.from(comp, "CapabilityMapping", attrs(str("kind", kind), str("capability", g.qname(cap))),
		one("component", comp), many("mappings", ops)))
}

// Program generates a complete program
func (g *Gen) Program() *T {
	n := 1 + g.small(8)
	if g.r.P(2) {
		n = 0
	} else if g.r.P(3) {
		n = g.r.N(60)
	}
	b := g.blockOf(n)
	return &T{K: "Program", F: fields(one("body", b)), NoLoc: true}
}

func fmtT(v interface{}) string { return fmt.Sprint(v) }
