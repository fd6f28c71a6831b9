package main

import (
	"math"
	"strings"

	"github.com/lyraproj/puppet-parser/parser"
)

// C30. What the nodes of an AST say about themselves

var nodeLabels = map[string]string{
	"Step": "Step", "Access": "'[]' expression", "And": "'and' expression", "Arithmetic": "'OP' expression", "Application": "Application",
	"Assignment": "'OP' expression", "AttributeOp": "'OP' expression", "AttributesOp": "AttributesOperation", "Block": "Block Expression",
	"CallMethod": "Method Call", "CallNamed": "Function Call", "CapabilityMapping": "Capability Mapping", "Case": "'case' statement", "CaseOption": "CaseOption",
	"Collect": "CollectExpression", "Comparison": "'OP' expression", "Concat": "Concatenated String", "Define": "'define' expression", "Epp": "Epp Template",
	"ExportedQuery": "Exported Query", "Function": "Function Definition", "Heredoc": "Heredoc", "Class": "Host Class Definition", "If": "'if' statement",
	"In": "'in' expression", "KeyedEntry": "Hash Entry", "Lambda": "Lambda", "Boolean": "Literal Boolean", "Default": "'default' expression",
	"Float": "Literal Float", "Hash": "Hash Expression", "Integer": "Literal Integer", "List": "Array expression", "String": "Literal String", "Undef": "'undef' expression",
	"Match": "'OP' expression", "NamedAccess": "'.' expression", "Node": "Node Definition", "Nop": "Nop", "Not": "'!' expression", "Or": "'or' expression",
	"Parameter": "Parameter Definition", "Paren": "Parenthesized Expression", "Plan": "Plan Definition", "Program": "Program", "Name": "Name", "TypeName": "Type-Name",
	"Relationship": "'OP' expression", "Render": "Epp Interpolated Expression", "RenderString": "Epp Text", "Regexp": "Regular Expression", "Reserved": "Reserved Word 'NAME'",
	"ResourceBody": "Resource Instance Definition", "ResourceDefaults": "Resource Defaults Expression", "Resource": "Resource Statement", "ResourceOverride": "Resource Override",
	"SelectorEntry": "Selector option", "Selector": "Selector expression", "Site": "Site Definition", "Text": "Text expression", "TypeAlias": "Type Alias",
	"TypeDefinition": "Type Definition", "TypeMapping": "Type Mapping", "Minus": "Unary Minus", "Unfold": "Unfold", "Unless": "'unless' statement", "Variable": "Variable", "VirtualQuery": "Virtual Query",
}

func kindSet(s string) map[string]bool {
	m := map[string]bool{}
	for _, k := range strings.Fields(s) {
		m[k] = true
	}
	return m
}

var (
	nodeBinary  = kindSet("And Or Arithmetic Assignment Comparison In Match NamedAccess Relationship")
	nodeBoolean = kindSet("And Or")
	nodeUnary   = kindSet("Minus Not Paren Render Text Unfold Variable")
	nodeQuery   = kindSet("VirtualQuery ExportedQuery")
	nodeCall    = kindSet("CallNamed CallMethod CallFunction")
	nodeLiteral = kindSet("Boolean Default Float Integer String Undef Name TypeName Regexp Reserved RenderString")
	nodeNumber  = kindSet("Float Integer")
	nodeNamed   = kindSet("Application Class Define Function Plan")
	nodeForm    = kindSet("Resource ResourceDefaults ResourceOverride")
	nodeNames   = kindSet("Application Class Define Function Plan AttributeOp Parameter Name TypeName Reserved Step TypeAlias TypeDefinition")
)

func runC30(c *Case) {
	p := wideProg(c, 12, 30)
	if p == nil {
		return
	}
	a := c.mustParse(p)
	if d := Diff(p.T, a); d != "" {
		c.Fail("wrong AST: %s", d)
	}
	loc := a.E.Locator()
	var walk func(exp, act *T)
	walk = func(exp, act *T) {
		c.checkNode(p, exp, act, loc)
		for i, f := range exp.F {
			for j, x := range f.L {
				walk(x, act.F[i].L[j])
			}
		}
	}
	walk(p.T, a)
	if d := Diff(p.T, Dump(a.E)); d != "" {
		c.Fail("the AST is changed by being asked about itself: %s", d)
	}
	c.checkLocator(p.Src)
	c.observe(p)
	c.Seen(p.Src)
}

func (c *Case) checkNode(p *Prog, t, act *T, loc *parser.Locator) {
	e := act.E
	c.Count("node " + t.K)
	is := func(what string, got, want bool) {
		if got != want {
			c.Fail("%s: is %s: %v", t.K, what, got)
		}
	}
	label := nodeLabels[t.K]
	for _, a := range t.A {
		if a.N == "op" {
			label = strings.Replace(label, "OP", a.V.(string), 1)
		}
	}
	if t.K == "Reserved" {
		label = strings.Replace(label, "NAME", t.Str("name"), 1)
	}
	if e.Label() != label {
		c.Fail("%s: the label is \"%s\", expected \"%s\"", t.K, e.Label(), label)
	}
	is("nop", e.IsNop(), t.K == "Nop")
	if e.Locator() != loc {
		c.Fail("%s: has another locator than the program", t.K)
	}
	same := func(what string, x, y parser.Expression) {
		if x != y {
			c.Fail("%s: %s isn't the node that it should be", t.K, what)
		}
	}
	sub := func(name string) parser.Expression {
		if o := act.One(name); o != nil {
			return o.E
		}
		return nil
	}

	b, ok := e.(parser.BinaryExpression)
	is("a binary expression", ok, nodeBinary[t.K])
	if ok {
		same("lhs", b.Lhs(), sub("lhs"))
		same("rhs", b.Rhs(), sub("rhs"))
	}
	bo, ok := e.(parser.BooleanExpression)
	is("a boolean expression", ok, nodeBoolean[t.K])
	if ok {
		same("boolean expression", bo.ToBooleanExpression(), e)
	}
	u, ok := e.(parser.UnaryExpression)
	is("an unary expression", ok, nodeUnary[t.K])
	if ok {
		same("unary expression", u.ToUnaryExpression(), e)
		same("operand", u.Expr(), sub("expr"))
	}
	q, ok := e.(parser.QueryExpression)
	is("a query", ok, nodeQuery[t.K])
	if ok {
		same("query", q.ToQueryExpression(), e)
		same("expression", q.Expr(), sub("expr"))
	}
	call, ok := e.(parser.CallExpression)
	is("a call", ok, nodeCall[t.K])
	if ok {
		same("functor", call.Functor(), sub("functor"))
		as := act.Many("args")
		if len(as) != len(call.Arguments()) {
			c.Fail("%s: has %d arguments, expected %d", t.K, len(call.Arguments()), len(as))
		}
		for i, x := range call.Arguments() {
			same("argument", x, as[i].E)
		}
		if l := call.Lambda(); l != nil || act.One("lambda") != nil {
			same("lambda", l, sub("lambda"))
		}
	}
	d, ok := e.(parser.Definition)
	is("a definition", ok, defKinds[t.K])
	if ok {
		same("definition", d.ToDefinition(), e)
	}
	n, ok := e.(parser.NamedDefinition)
	is("a named definition", ok, nodeNamed[t.K])
	if ok {
		if n.Name() != t.Str("name") || len(n.Parameters()) != len(t.Many("params")) {
			c.Fail("%s: wrong name or parameters", t.K)
		}
		same("body", n.Body(), sub("body"))
	}
	f, ok := e.(parser.AbstractResource)
	is("a resource", ok, nodeForm[t.K])
	if ok && string(f.Form()) != t.Str("form") {
		c.Fail("%s: wrong form %s", t.K, f.Form())
	}
	ne, ok := e.(parser.NameExpression)
	is("something with a name", ok, nodeNames[t.K])
	if ok && ne.Name() != t.Str("name") {
		c.Fail("%s: the name is '%s', expected '%s'", t.K, ne.Name(), t.Str("name"))
	}
	l, ok := e.(parser.LiteralValue)
	is("a literal value", ok, nodeLiteral[t.K])
	if ok {
		want := t.Attr("value")
		switch t.K {
		case "Name", "TypeName", "Reserved":
			want = t.Str("name")
		case "Undef":
			want = nil
		case "Default":
			want = parser.DefaultInstance
		}
		if !valueEq(l.Value(), want) {
			c.Fail("%s: the value is %v, expected %v", t.K, l.Value(), want)
		}
		if v := l.ToLiteralValue(); !valueEq(v.Value(), want) {
			c.Fail("%s: the literal value is %v, expected %v", t.K, v.Value(), want)
		}
	}
	num, ok := e.(parser.LiteralNumber)
	is("a number", ok, nodeNumber[t.K])
	if ok {
		switch v := t.Attr("value").(type) {
		case int64:
			if num.Int() != v || num.Float() != float64(v) {
				c.Fail("the number %d is the integer %d, and the float %v", v, num.Int(), num.Float())
			}
		case float64:
			if num.Float() != v || math.Abs(v) < 1<<62 && num.Int() != int64(v) {
				c.Fail("the number %v is the integer %d, and the float %v", v, num.Int(), num.Float())
			}
		}
	}
	switch e := e.(type) {
	case *parser.LiteralHash:
		c.checkGet(e, t, act)
	case *parser.CallNamedFunctionExpression:
		if c.R.P(30) {
			x := e.WithFunctor(loc0(e))
			if x == e || x.Functor() != loc0(e) || e.Functor() != sub("functor") || len(x.Arguments()) != len(e.Arguments()) || x.Lambda() != e.Lambda() || x.RvalRequired() != e.RvalRequired() || x.ByteOffset() != e.ByteOffset() || x.ByteLength() != e.ByteLength() || x.Locator() != loc {
				c.Fail("a call with another functor isn't the same call with another functor")
			}
			c.Count("call with another functor")
		}
	case *parser.QualifiedReference:
		if c.R.P(30) {
			name := c.R.PickS("Foo", "Bar::Baz", "Éé", "FOO::Bar")
			x := e.WithName(name)
			if x == e || x.Name() != name || x.DowncasedName() != strings.ToLower(name) || e.Name() != t.Str("name") || e.DowncasedName() != t.Str("down") || x.ByteOffset() != e.ByteOffset() || x.Locator() != loc {
				c.Fail("a type name with another name isn't the same node with another name")
			}
			c.Count("type name with another name")
		}
	case *parser.VariableExpression:
		name, isName := e.Name()
		ix, isIx := e.Index()
		x := t.One("expr")
		if isName != (x.K == "Name") || isIx != (x.K == "Integer") {
			c.Fail("a variable with a %s has name=%v and index=%v", x.K, isName, isIx)
		}
		if isName && (name != x.Str("name") || e.NameOrIndex() != name) || isIx && (ix != x.Attr("value") || e.NameOrIndex() != ix) {
			c.Fail("a variable has name '%s', index %d and name or index %v, expected %v", name, ix, e.NameOrIndex(), x.A)
		}
	}
}

// loc0 returns the last argument of a call, or its functor
func loc0(e *parser.CallNamedFunctionExpression) parser.Expression {
	if as := e.Arguments(); len(as) > 0 {
		return as[len(as)-1]
	}
	return e.Functor()
}

// checkGet looks up each key of a hash, and some that it doesn't have
func (c *Case) checkGet(h *parser.LiteralHash, t, act *T) {
	find := func(key string) parser.Expression {
		for i, x := range t.Many("entries") {
			k := x.One("key")
			s := ""
			switch k.K {
			case "String":
				s = k.Str("value")
			case "Name", "TypeName":
				s = k.Str("name")
			default:
				continue
			}
			if s == key {
				return act.Many("entries")[i].One("value").E
			}
		}
		return nil
	}
	keys := []string{"", "a", "no such key", "Foo", "name"}
	for _, x := range t.Many("entries") {
		switch k := x.One("key"); k.K {
		case "String":
			keys = append(keys, k.Str("value"), k.Str("value")+" ")
		case "Name", "TypeName":
			keys = append(keys, k.Str("name"), strings.ToLower(k.Str("name")))
		case "Reserved":
			keys = append(keys, k.Str("name"))
		}
	}
	for _, k := range keys {
		got, want := h.Get(k), find(k)
		if got != want {
			c.Fail("the value of key '%s' of a hash is %v, expected %v", k, got, want)
		}
		if want != nil {
			c.Count("hash keys found")
		}
	}
}

// checkLocator asks for positions in a source, from the start to the end
func (c *Case) checkLocator(src string) {
	l := parser.NewLocator("x/y.pp", src)
	if l.File() != "x/y.pp" || l.String() != src {
		c.Fail("the locator has another file, or text")
	}
	for i := 0; i < 6; i++ {
		off := c.R.N(len(src) + 1)
		switch i {
		case 0:
			off = len(src)
		case 1:
			off = 0
		case 2:
			// just after a line break
			if k := strings.IndexByte(src[off:], '\n'); k >= 0 {
				off += k + 1
			}
		}
		for off < len(src) && src[off]&0xc0 == 0x80 {
			off++
		}
		line, pos := linePos(src, off)
		if gl, gp := l.LineForOffset(off), l.PosOnLine(off); gl != line || gp != pos {
			c.Fail("offset %d is at line %d, column %d, expected %d, %d", off, gl, gp, line, pos)
		}
		c.Count("offsets located")
	}
}

func init() {
	register(&Prop{ID: "C30", Quick: 80000, Thorough: 3000000, Run: runC30,
		Rule: "each node of generated programs (70%) and of randomly changed programs that an independent parser accepts (30%) is asked for its label, the abstract kinds that it is (binary, unary, boolean, query, call, definition, named, literal, number, resource) " +
			"and what these return, literal values, hash lookups of present and absent keys, and for copies, and the answers are compared with the expected AST; random offsets of the source are located by a new locator. Non-trivial: a distinct source",
		Assumptions: append([]string{"labels and kinds are those in the table of p_node.go"}, genAssumptions...)})
}
