package main

import (
	"fmt"
	"strings"
	"unicode/utf8"

	"github.com/lyraproj/issue/issue"
	"github.com/lyraproj/puppet-parser/parser"
	"github.com/lyraproj/puppet-parser/pn"
	"github.com/lyraproj/puppet-parser/validator"
)

// --- C34. Own front ends ---

// ownNode is a node type of the harness. It stands for the node in it
type ownNode struct {
	parser.Positioned
	node  parser.Expression
	extra []parser.Expression
}

func (n *ownNode) Label() string { return "Own Node" }
func (n *ownNode) IsNop() bool   { return n.node.IsNop() }
func (n *ownNode) ToPN() pn.PN   { return n.node.ToPN() }
func (n *ownNode) AllContents(path []parser.Expression, visitor parser.PathVisitor) {
	parser.DeepVisit(n, path, visitor, n.node, n.extra)
}
func (n *ownNode) Contents(path []parser.Expression, visitor parser.PathVisitor) {
	parser.ShallowVisit(n, path, visitor, n.node, n.extra)
}

// builder puts an AST together
type builder struct {
	f     parser.ExpressionFactory
	loc   *parser.Locator
	shift int
	built map[parser.Expression]parser.Expression
	defs  []parser.Definition
	own   func(t *T, parent *T) bool
	owned int
	// the nodes with their parents, in the order in which they have to be visited
	c *Case
}

// kinds of nodes that don't care about the type of their children
var plainParents = map[string]bool{"And": true, "Or": true, "In": true, "Arithmetic": true, "Comparison": true, "Match": true, "List": true, "Paren": true, "Not": true, "If": true, "Unless": true, "Case": true, "Minus": true}

func (b *builder) build(t, parent *T) parser.Expression {
	e := b.node(t)
	if e == nil {
		b.c.Fail("the factory has nothing for a %s", t.K)
	}
	b.built[t.E] = e
	if parent != nil && b.own != nil && plainParents[parent.K] && t.K != "Unfold" && t.K != "Block" && b.own(t, parent) {
		o := &ownNode{node: e}
		o.Init(b.loc, t.Off+b.shift, t.End-t.Off)
		for i := b.c.R.N(3); i > 0; i-- {
			o.extra = append(o.extra, b.f.Integer(int64(i), 10, b.loc, t.Off+b.shift, 0))
		}
		b.owned++
		return o
	}
	return e
}

func (b *builder) node(t *T) parser.Expression {
	one := func(n string) parser.Expression {
		if x := t.One(n); x != nil {
			return b.build(x, t)
		}
		return nil
	}
	many := func(n string) []parser.Expression {
		for _, f := range t.F {
			if f.N == n {
				es := make([]parser.Expression, len(f.L))
				for i, x := range f.L {
					es[i] = b.build(x, t)
				}
				return es
			}
		}
		return nil
	}
	f, l, o, n := b.f, b.loc, t.Off+b.shift, t.End-t.Off
	form := parser.ResourceForm(t.Str("form"))
	switch t.K {
	case "Step":
		return f.Step(t.Str("name"), parser.StepStyle(t.Str("style")), one("properties"), one("definition"), l, o, n)
	case "Access":
		return f.Access(one("operand"), many("keys"), l, o, n)
	case "And":
		return f.And(one("lhs"), one("rhs"), l, o, n)
	case "Application":
		return f.Application(t.Str("name"), many("params"), one("body"), l, o, n)
	case "Arithmetic":
		return f.Arithmetic(t.Str("op"), one("lhs"), one("rhs"), l, o, n)
	case "Assignment":
		return f.Assignment(t.Str("op"), one("lhs"), one("rhs"), l, o, n)
	case "AttributeOp":
		return f.AttributeOp(t.Str("op"), t.Str("name"), one("value"), l, o, n)
	case "AttributesOp":
		return f.AttributesOp(one("expr"), l, o, n)
	case "Block":
		return f.Block(many("statements"), l, o, n)
	case "CallMethod":
		return f.CallMethod(one("functor"), many("args"), one("lambda"), l, o, n)
	case "CallNamed":
		return f.CallNamed(one("functor"), t.Bool("rval"), many("args"), one("lambda"), l, o, n)
	case "CapabilityMapping":
		return f.CapabilityMapping(t.Str("kind"), one("component"), t.Str("capability"), many("mappings"), l, o, n)
	case "Case":
		return f.Case(one("test"), many("options"), l, o, n)
	case "CaseOption":
		return f.When(many("values"), one("then"), l, o, n)
	case "Collect":
		return f.Collect(one("type"), one("query"), many("ops"), l, o, n)
	case "Comparison":
		return f.Comparison(t.Str("op"), one("lhs"), one("rhs"), l, o, n)
	case "Concat":
		return f.ConcatenatedString(many("segments"), l, o, n)
	case "ExportedQuery":
		return f.ExportedQuery(one("expr"), l, o, n)
	case "VirtualQuery":
		return f.VirtualQuery(one("expr"), l, o, n)
	case "Function":
		return f.Function(t.Str("name"), many("params"), one("body"), one("returns"), l, o, n)
	case "Plan":
		return f.Plan(t.Str("name"), many("params"), one("body"), one("returns"), l, o, n)
	case "Heredoc":
		return f.Heredoc(one("text"), t.Str("syntax"), l, o, n)
	case "Class":
		return f.Class(t.Str("name"), many("params"), t.Str("parent"), one("body"), l, o, n)
	case "Unless":
		return f.Unless(one("test"), one("then"), one("else"), l, o, n)
	case "If":
		return f.If(one("test"), one("then"), one("else"), l, o, n)
	case "In":
		return f.In(one("lhs"), one("rhs"), l, o, n)
	case "KeyedEntry":
		return f.KeyedEntry(one("key"), one("value"), l, o, n)
	case "Lambda":
		if e := t.One("body"); e != nil && e.K == "Epp" {
			// The factory gives the expression of a template in its lambda
			ps := many("params")
			if !e.Bool("paramsSpecified") {
				ps = nil
			}
			body := e.One("body")
			lambda := f.EppExpression(ps, b.build(body, e), l, o, n)
			if x, ok := lambda.(*parser.LambdaExpression); ok {
				b.built[e.E] = x.Body()
			}
			return lambda
		}
		return f.Lambda(many("params"), one("body"), one("returns"), l, o, n)
	case "Boolean":
		return f.Boolean(t.Bool("value"), l, o, n)
	case "Default":
		return f.Default(l, o, n)
	case "Float":
		return f.Float(t.Attr("value").(float64), l, o, n)
	case "Hash":
		return f.Hash(many("entries"), l, o, n)
	case "Integer":
		return f.Integer(t.Attr("value").(int64), int(t.Attr("radix").(int64)), l, o, n)
	case "List":
		return f.Array(many("elements"), l, o, n)
	case "String":
		return f.String(t.Str("value"), l, o, n)
	case "Undef":
		return f.Undef(l, o, n)
	case "Match":
		return f.Match(t.Str("op"), one("lhs"), one("rhs"), l, o, n)
	case "NamedAccess":
		return f.NamedAccess(one("lhs"), one("rhs"), l, o, n)
	case "Node":
		return f.Node(many("matches"), one("parent"), one("body"), l, o, n)
	case "Nop":
		return f.Nop(l, o, n)
	case "Not":
		return f.Not(one("expr"), l, o, n)
	case "Or":
		return f.Or(one("lhs"), one("rhs"), l, o, n)
	case "Parameter":
		return f.Parameter(t.Str("name"), one("value"), one("type"), t.Bool("rest"), l, o, n)
	case "Paren":
		return f.Parenthesized(one("expr"), l, o, n)
	case "Program":
		body := one("body")
		var defs []parser.Definition
		for _, d := range t.E.(*parser.Program).Definitions() {
			if x, ok := b.built[d].(parser.Definition); ok {
				defs = append(defs, x)
			} else {
				b.c.Fail("the factory gives a %T for a definition", b.built[d])
			}
		}
		b.defs = defs
		return f.Program(body, defs, l, o, n)
	case "Name":
		return f.QualifiedName(t.Str("name"), l, o, n)
	case "TypeName":
		return f.QualifiedReference(t.Str("name"), l, o, n)
	case "Regexp":
		return f.Regexp(t.Str("value"), l, o, n)
	case "Relationship":
		return f.RelOp(t.Str("op"), one("lhs"), one("rhs"), l, o, n)
	case "Render":
		return f.RenderExpression(one("expr"), l, o, n)
	case "RenderString":
		return f.RenderString(t.Str("value"), l, o, n)
	case "Reserved":
		return f.ReservedWord(t.Str("name"), t.Bool("future"), l, o, n)
	case "ResourceBody":
		return f.ResourceBody(one("title"), many("ops"), l, o, n)
	case "ResourceDefaults":
		return f.ResourceDefaults(form, one("type"), many("ops"), l, o, n)
	case "Resource":
		return f.Resource(form, one("type"), many("bodies"), l, o, n)
	case "ResourceOverride":
		return f.ResourceOverride(form, one("resources"), many("ops"), l, o, n)
	case "Define":
		return f.Definition(t.Str("name"), many("params"), one("body"), l, o, n)
	case "SelectorEntry":
		return f.Selector(one("matching"), one("value"), l, o, n)
	case "Selector":
		return f.Select(one("lhs"), many("selectors"), l, o, n)
	case "Site":
		return f.Site(one("body"), l, o, n)
	case "Text":
		return f.Text(one("expr"), l, o, n)
	case "TypeAlias":
		return f.TypeAlias(t.Str("name"), one("type"), l, o, n)
	case "TypeDefinition":
		return f.TypeDefinition(t.Str("name"), t.Str("parent"), one("body"), l, o, n)
	case "TypeMapping":
		return f.TypeMapping(one("type"), one("mapping"), l, o, n)
	case "Minus":
		return f.Negate(one("expr"), l, o, n)
	case "Unfold":
		return f.Unfold(one("expr"), l, o, n)
	case "Variable":
		return f.Variable(one("expr"), l, o, n)
	}
	return nil
}

// ownIssues lists issues without their file, and their lines relative to the given one
func (c *Case) ownIssues(is []issue.Reported, line int) []string {
	r := make([]string, len(is))
	for i, x := range is {
		s, l := x.Error(), x.Location()
		suffix := fmt.Sprintf("(line: %d, column: %d)", l.Line(), l.Pos())
		if l.File() != "" {
			suffix = fmt.Sprintf("(file: %s, line: %d, column: %d)", l.File(), l.Line(), l.Pos())
		}
		r[i] = fmt.Sprintf("%s %s %d:%d %s", x.Severity(), x.Code(), l.Line()-line, l.Pos(), strings.TrimSuffix(s, " "+suffix))
	}
	return r
}

func runC34(c *Case) {
	if c.R.P(25) {
		c.ownReader()
		return
	}
	e, t := c.validSource()
	if e == nil || t.depth() > 150 || t.Count() > 20000 {
		return
	}
	r := c.R
	text := e.Locator().String()
	prefix := r.PickS("", "\n", "# own\n", "#å\r\n\n")
	lines := strings.Count(prefix, "\n")
	file := r.PickS("own.pp", "", "f.pp")
	b := &builder{f: parser.DefaultFactory(), loc: parser.NewLocator(file, prefix+text), shift: len(prefix), built: map[parser.Expression]parser.Expression{}, c: c}
	if r.P(40) {
		rate := r.PickS("1", "20", "100")
		b.own = func(_, _ *T) bool { return rate == "100" || rate == "20" && r.P(20) || r.P(1) }
	}
	before := t.String()
	x := b.build(t, nil)
	c.CountN("nodes built", len(b.built))

	if b.owned == 0 {
		// The AST has the parts that were given
		xt := Dump(x)
		if d := Diff(t, xt); d != "" {
			c.Fail("an AST that was built from the parts of another is different: %s", d)
		}
		issues := func(y parser.Expression, line int) [][]string {
			return [][]string{c.ownIssues(validator.ValidatePuppet(y, validator.StrictWarning).Issues(), line), c.ownIssues(validator.ValidateTasks(y).Issues(), line), c.ownIssues(validator.ValidateWorkflow(y).Issues(), line)}
		}
		exp, got := issues(e, 0), issues(x, lines)
		for i, m := range []string{"Puppet", "tasks", "workflow"} {
			if !sameStrings(exp[i], got[i]) {
				c.Fail("the %s validator reports for an AST that was built from the parts of another:\n%s\n\nexpected:\n%s", m, strings.Join(got[i], "\n"), strings.Join(exp[i], "\n"))
			}
			c.CountN("issues", len(exp[i]))
		}
	} else {
		c.CountN("own nodes", b.owned)
	}
	if p, q := e.ToPN().String(), x.ToPN().String(); p != q {
		c.Fail("the PN of an AST that was built from the parts of another is\n%s\n\nexpected\n%s", q, p)
	}
	t.Walk(func(n *T) {
		y := b.built[n.E]
		if y == nil {
			return
		}
		if y.Locator() != b.loc || y.File() != file || y.ByteOffset() != n.Off+b.shift || y.ByteLength() != n.End-n.Off {
			c.Fail("a %s built for %d+%d in %s is located at %d+%d in %s", n.K, n.Off+b.shift, n.End-n.Off, file, y.ByteOffset(), y.ByteLength(), y.File())
		}
		if y.Line() != n.E.Line()+lines || y.Pos() != n.E.Pos() || y.String() != n.E.String() || y.Label() != n.E.Label() || y.IsNop() != n.E.IsNop() {
			c.Fail("a %s built from the parts of another is '%s', %s, at %d:%d, expected '%s', %s, at %d:%d", n.K, y.String(), y.Label(), y.Line(), y.Pos(), n.E.String(), n.E.Label(), n.E.Line()+lines, n.E.Pos())
		}
	})
	if p, ok := x.(*parser.Program); ok {
		ds := p.Definitions()
		if len(ds) != len(b.defs) {
			c.Fail("a program built with %d definitions has %d", len(b.defs), len(ds))
		}
		for i := range ds {
			if ds[i] != b.defs[i] {
				c.Fail("definition %d of a program isn't the given one", i)
			}
		}
	}

	// A template has parameters when there's a list of them, also when it's empty
	for _, ps := range [][]parser.Expression{nil, {}, {b.f.Parameter("p", nil, nil, false, b.loc, 0, 0)}} {
		l, ok := b.f.EppExpression(ps, x, b.loc, 0, 1).(*parser.LambdaExpression)
		if !ok {
			c.Fail("the expression for a template isn't a lambda")
		}
		t, ok := l.Body().(*parser.EppExpression)
		if !ok || t.ParametersSpecified() != (ps != nil) || t.Body() != x || len(l.Parameters()) != len(ps) || len(ps) == 1 && l.Parameters()[0] != ps[0] || l.ReturnType() != nil {
			c.Fail("a template isn't built from its %d parameters and its body", len(ps))
		}
	}

	// Visits, in which own nodes take part
	type visit struct {
		e      parser.Expression
		parent parser.Expression
		depth  int
	}
	var want []visit
	var walk func(e, parent parser.Expression, depth int)
	wrapped := map[parser.Expression]*ownNode{}
	var got []visit
	x.AllContents(nil, func(path []parser.Expression, y parser.Expression) {
		got = append(got, visit{y, path[len(path)-1], len(path)})
		if o, ok := y.(*ownNode); ok {
			wrapped[o.node] = o
		}
	})
	if len(wrapped) != b.owned {
		c.Fail("%d of %d own nodes are visited", len(wrapped), b.owned)
	}
	walk = func(e, parent parser.Expression, depth int) {
		y := b.built[e]
		o := wrapped[y]
		if o != nil {
			want = append(want, visit{o, parent, depth})
			parent = o
			depth++
		}
		if depth > 0 {
			want = append(want, visit{y, parent, depth})
		}
		e.Contents(nil, func(_ []parser.Expression, ch parser.Expression) { walk(ch, y, depth+1) })
		if o != nil {
			for _, z := range o.extra {
				want = append(want, visit{z, o, depth})
			}
		}
	}
	walk(e, nil, 0)
	for i := 0; i < len(got) || i < len(want); i++ {
		if i >= len(got) || i >= len(want) || got[i] != want[i] {
			c.Fail("visit %d of %d (expected %d) isn't that of the given node", i, len(got), len(want))
		}
	}
	for _, o := range wrapped {
		w := o.node
		if o.ByteOffset() != w.ByteOffset() || o.ByteLength() != w.ByteLength() || o.Locator() != b.loc || o.File() != file || o.Line() != w.Line() || o.Pos() != w.Pos() || o.String() != w.String() || o.Location() != issue.Location(&o.Positioned) {
			c.Fail("an own node for %d+%d is located at %d+%d", w.ByteOffset(), w.ByteLength(), o.ByteOffset(), o.ByteLength())
		}
		var cs []parser.Expression
		o.Contents([]parser.Expression{x}, func(path []parser.Expression, y parser.Expression) {
			if len(path) != 2 || path[0] != x || path[1] != parser.Expression(o) {
				c.Fail("the path in an own node isn't that of the node")
			}
			cs = append(cs, y)
		})
		if len(cs) != 1+len(o.extra) || cs[0] != o.node {
			c.Fail("an own node with %d children has %d", 1+len(o.extra), len(cs))
		}
		for i, z := range o.extra {
			if cs[1+i] != z {
				c.Fail("child %d of an own node isn't the given one", 1+i)
			}
		}
	}

	// A validator is given own nodes too
	if b.owned > 0 {
		var seen []parser.Expression
		v := &ownValidator{visit: func(v *ownValidator, y parser.Expression) {
			if i := len(seen); i > 0 && i <= len(want) && v.Container() != want[i-1].parent {
				c.Fail("the container of an expression around or in an own node isn't its parent")
			}
			if o, ok := y.(*ownNode); ok {
				v.Accept(validator.ValidateReservedWord, o, issue.H{"word": "own"})
			}
			seen = append(seen, y)
		}}
		validator.Validate(v, x)
		if len(seen) != len(want)+1 || len(v.Issues()) != b.owned {
			c.Fail("%d expressions and %d own nodes, but %d validated and %d reported", len(want)+1, b.owned, len(seen), len(v.Issues()))
		}
	}
	if after := t.String(); after != before || Dump(e).String() != before {
		c.Fail("the AST whose parts were used has changed")
	}
	c.Seen(fmt.Sprint(b.owned > 0, prefix, c.Src))
}

// ownReader checks a reader against a model of it
func (c *Case) ownReader() {
	r := c.R
	var text string
	switch r.N(4) {
	case 0:
		in := hostile(c, 40)
		text = in.src
	case 1:
		for i := r.N(12); i > 0; i-- {
			text += r.PickS("a", "å", "世", "😀", "\n", "\x00", "\x7f", "\u0080", "\u07ff", "\u0800", "\uffff", "\U0010ffff", "\ufffd", " ")
		}
	case 2:
		for i := r.N(12); i > 0; i-- {
			text += r.PickS("a", "å", "世", "\xff", "\xc3", "\xe4\xb8", "\xed\xa0\x80", "\xf4\x90\x80\x80", "\x80", "\xc0\x80", "\ufffd", "😀")
		}
	default:
		if p := wideProg(c, 15, 35); p != nil {
			text = p.Src
		}
	}
	if len(text) > 4000 {
		text = text[:4000]
	}
	c.Src = text
	rd := parser.NewStringReader(text)
	if rd.Text() != text {
		c.Fail("the reader has another text")
	}
	pos := 0
	at := func() (rune, int, bool) {
		if pos >= len(text) {
			return 0, 0, true
		}
		x, n := utf8.DecodeRuneInString(text[pos:])
		return x, n, !(x == utf8.RuneError && n == 1)
	}
	refused := func(what string, p interface{}) {
		err, ok := p.(error)
		if !ok {
			c.Fail("%s at %d, which isn't a character, gives %v", what, pos, p)
			return
		}
		if exp := fmt.Sprintf("invalid unicode character at offset %d", pos); err.Error() != exp {
			c.Fail("%s gives '%s', expected '%s'", what, err.Error(), exp)
		}
		c.Count("refused by the reader")
	}
	jumps := r.P(50)
	for k := 0; k < 5000; k++ {
		x, n, ok := at()
		op := r.N(10)
		if !jumps {
			op = op / 2 // Next and Peek
		}
		switch {
		case op < 3:
			var y rune
			var s int
			if p := panicsWith(func() { y, s = rd.Next() }); !ok {
				refused("Next", p)
				pos++
				rd.SetPos(pos)
			} else if p != nil {
				c.Fail("Next at %d gives %v", pos, p)
			} else {
				if y != x || s != pos && n > 0 {
					c.Fail("Next at %d gives %q, %d, expected %q", pos, y, s, x)
				}
				pos += n
				c.Count("characters read")
			}
		case op < 5:
			var y rune
			var s int
			if p := panicsWith(func() { y, s = rd.Peek() }); !ok {
				refused("Peek", p)
			} else if p != nil {
				c.Fail("Peek at %d gives %v", pos, p)
			} else if y != x || s != n {
				c.Fail("Peek at %d gives %q, %d, expected %q, %d", pos, y, s, x, n)
			}
		case op < 7:
			if ok {
				rd.Advance(n)
				pos += n
			}
		case op < 8:
			start := r.N(pos + 1)
			if s := rd.From(start); s != text[start:pos] {
				c.Fail("From(%d) at %d gives '%s'", start, pos, s)
			}
		default:
			if k%7 == 0 {
				pos = r.N(len(text) + 1)
				rd.SetPos(pos)
			}
		}
		if rd.Pos() != pos {
			c.Fail("the reader is at %d, expected %d", rd.Pos(), pos)
		}
		if pos >= len(text) && r.P(10) {
			break
		}
	}
	c.Count("texts read")
	c.Seen("text " + text)
}

func init() {
	register(&Prop{ID: "C34", Quick: 60000, Thorough: 2000000, Run: runC34,
		Rule: "the ASTs of generated programs with violations, of generated and changed programs, and of accepted hostile sources are built once more by the expression factory from their kinds, attributes and children, with another locator and other offsets, and compared with the original: tree, PN, locations, labels, source text, issues of all three validators, order and paths of visits; in some, nodes are wrapped by a node type of the harness, which must take part in visits and validation. And readers for random, hostile and invalid texts are compared with a model over random histories of operations. " +
			"Non-trivial: a distinct source or text"})
}
