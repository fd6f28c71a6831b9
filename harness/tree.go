package main

import (
	"fmt"
	"math"
	"strings"

	"github.com/lyraproj/puppet-parser/parser"
)

// T is the harness' own model of an AST node. The generator builds expected T's, and Dump builds a T from what the
// exported accessors of the real AST return. It is deliberately independent of the ToPN functions of the library.
type T struct {
	K string
	A []Attr
	F []Field

	// Expected location, resolved once the source text has been rendered
	first, last *Tok
	dOff        int
	dEnd        int // if non zero, end is relative to start
	NoLoc       bool

	// Location, in bytes. End is exclusive
	Off, End int

	E parser.Expression // the real node (only for dumped trees)
}

type Attr struct {
	N string
	V interface{} // string, int64, float64, bool
}

type Field struct {
	N    string
	L    []*T
	List bool
}

func (t *T) Attr(n string) interface{} {
	for _, a := range t.A {
		if a.N == n {
			return a.V
		}
	}
	return nil
}

func (t *T) Str(n string) string {
	s, _ := t.Attr(n).(string)
	return s
}

func (t *T) Bool(n string) bool {
	s, _ := t.Attr(n).(bool)
	return s
}

func (t *T) Set(n string, v interface{}) {
	for i := range t.A {
		if t.A[i].N == n {
			t.A[i].V = v
			return
		}
	}
	t.A = append(t.A, Attr{n, v})
}

// One returns the single child of the given field, or nil
func (t *T) One(n string) *T {
	for _, f := range t.F {
		if f.N == n {
			if len(f.L) > 0 {
				return f.L[0]
			}
			return nil
		}
	}
	return nil
}

func (t *T) Many(n string) []*T {
	for _, f := range t.F {
		if f.N == n {
			return f.L
		}
	}
	return nil
}

func (t *T) SetOne(n string, c *T) {
	for i := range t.F {
		if t.F[i].N == n {
			t.F[i].L = []*T{c}
			return
		}
	}
}

// Children returns all children in order
func (t *T) Children() []*T {
	var r []*T
	for _, f := range t.F {
		r = append(r, f.L...)
	}
	return r
}

func (t *T) Walk(f func(*T)) {
	f(t)
	for _, c := range t.Children() {
		c.Walk(f)
	}
}

func (t *T) Count() int {
	n := 0
	t.Walk(func(*T) { n++ })
	return n
}

func one(n string, c *T) Field {
	if c == nil {
		return Field{n, nil, false}
	}
	return Field{n, []*T{c}, false}
}

func many(n string, cs []*T) Field { return Field{n, cs, true} }

func str(n, v string) Attr          { return Attr{n, v} }
func num(n string, v int64) Attr    { return Attr{n, v} }
func boolean(n string, v bool) Attr { return Attr{n, v} }
func attrs(as ...Attr) []Attr       { return as }
func fields(fs ...Field) []Field    { return fs }
func isNilExpr(e parser.Expression) bool {
	if e == nil {
		return true
	}
	return false
}

// String writes the tree as an indented text (for reports)
func (t *T) String() string {
	b := &strings.Builder{}
	t.write(b, 0)
	return b.String()
}

func (t *T) write(b *strings.Builder, ind int) {
	if ind > 60 {
		b.WriteString("...\n")
		return
	}
	fmt.Fprintf(b, "%s%s", strings.Repeat(" ", ind), t.K)
	for _, a := range t.A {
		fmt.Fprintf(b, " %s=%#v", a.N, a.V)
	}
	fmt.Fprintf(b, " @%d..%d\n", t.Off, t.End)
	for _, f := range t.F {
		if len(f.L) == 0 {
			continue
		}
		fmt.Fprintf(b, "%s.%s\n", strings.Repeat(" ", ind+1), f.N)
		for _, c := range f.L {
			c.write(b, ind+2)
		}
	}
}

// Dump converts a real AST to a T
func Dump(e parser.Expression) *T {
	if e == nil {
		return nil
	}
	t := &T{E: e}
	d1 := func(n string, c parser.Expression) Field {
		if isNilExpr(c) {
			return Field{n, nil, false}
		}
		return one(n, Dump(c))
	}
	dn := func(n string, cs []parser.Expression) Field {
		r := make([]*T, len(cs))
		for i, c := range cs {
			if c == nil {
				r[i] = &T{K: "NIL"}
			} else {
				r[i] = Dump(c)
			}
		}
		return Field{n, r, true}
	}
	// NOTE: Locations of the program, and of some nodes that have no source, might be odd, but are always valid
	t.Off = e.ByteOffset()
	t.End = t.Off + e.ByteLength()

	switch x := e.(type) {
	case *parser.StepExpression:
		t.K = "Step"
		t.A = attrs(str("name", x.Name()), str("style", string(x.Style())))
		t.F = fields(d1("properties", x.Properties()), d1("definition", x.Definition()))
	case *parser.AccessExpression:
		t.K = "Access"
		t.F = fields(d1("operand", x.Operand()), dn("keys", x.Keys()))
	case *parser.AndExpression:
		t.K = "And"
		t.F = fields(d1("lhs", x.Lhs()), d1("rhs", x.Rhs()))
	case *parser.Application:
		t.K = "Application"
		t.A = attrs(str("name", x.Name()))
		t.F = fields(dn("params", x.Parameters()), d1("body", x.Body()))
	case *parser.ArithmeticExpression:
		t.K = "Arithmetic"
		t.A = attrs(str("op", x.Operator()))
		t.F = fields(d1("lhs", x.Lhs()), d1("rhs", x.Rhs()))
	case *parser.AssignmentExpression:
		t.K = "Assignment"
		t.A = attrs(str("op", x.Operator()))
		t.F = fields(d1("lhs", x.Lhs()), d1("rhs", x.Rhs()))
	case *parser.AttributeOperation:
		t.K = "AttributeOp"
		t.A = attrs(str("op", x.Operator()), str("name", x.Name()))
		t.F = fields(d1("value", x.Value()))
	case *parser.AttributesOperation:
		t.K = "AttributesOp"
		t.F = fields(d1("expr", x.Expr()))
	case *parser.BlockExpression:
		t.K = "Block"
		t.F = fields(dn("statements", x.Statements()))
	case *parser.CallMethodExpression:
		t.K = "CallMethod"
		t.A = attrs(boolean("rval", x.RvalRequired()))
		t.F = fields(d1("functor", x.Functor()), dn("args", x.Arguments()), d1("lambda", x.Lambda()))
	case *parser.CallNamedFunctionExpression:
		t.K = "CallNamed"
		t.A = attrs(boolean("rval", x.RvalRequired()))
		t.F = fields(d1("functor", x.Functor()), dn("args", x.Arguments()), d1("lambda", x.Lambda()))
	case *parser.CallFunctionExpression:
		t.K = "CallFunction"
		t.A = attrs(boolean("rval", x.RvalRequired()))
		t.F = fields(d1("functor", x.Functor()), dn("args", x.Arguments()), d1("lambda", x.Lambda()))
	case *parser.CapabilityMapping:
		t.K = "CapabilityMapping"
		t.A = attrs(str("kind", x.Kind()), str("capability", x.Capability()))
		t.F = fields(d1("component", x.Component()), dn("mappings", x.Mappings()))
	case *parser.CaseExpression:
		t.K = "Case"
		t.F = fields(d1("test", x.Test()), dn("options", x.Options()))
	case *parser.CaseOption:
		t.K = "CaseOption"
		t.F = fields(dn("values", x.Values()), d1("then", x.Then()))
	case *parser.CollectExpression:
		t.K = "Collect"
		t.F = fields(d1("type", x.ResourceType()), d1("query", x.Query()), dn("ops", x.Operations()))
	case *parser.ComparisonExpression:
		t.K = "Comparison"
		t.A = attrs(str("op", x.Operator()))
		t.F = fields(d1("lhs", x.Lhs()), d1("rhs", x.Rhs()))
	case *parser.ConcatenatedString:
		t.K = "Concat"
		t.F = fields(dn("segments", x.Segments()))
	case *parser.EppExpression:
		t.K = "Epp"
		t.A = attrs(boolean("paramsSpecified", x.ParametersSpecified()))
		t.F = fields(d1("body", x.Body()))
	case *parser.ExportedQuery:
		t.K = "ExportedQuery"
		t.F = fields(d1("expr", x.Expr()))
	case *parser.VirtualQuery:
		t.K = "VirtualQuery"
		t.F = fields(d1("expr", x.Expr()))
	case *parser.FunctionDefinition:
		t.K = "Function"
		t.A = attrs(str("name", x.Name()))
		t.F = fields(dn("params", x.Parameters()), d1("body", x.Body()), d1("returns", x.ReturnType()))
	case *parser.PlanDefinition:
		t.K = "Plan"
		t.A = attrs(str("name", x.Name()))
		t.F = fields(dn("params", x.Parameters()), d1("body", x.Body()), d1("returns", x.ReturnType()))
	case *parser.HeredocExpression:
		t.K = "Heredoc"
		t.A = attrs(str("syntax", x.Syntax()))
		t.F = fields(d1("text", x.Text()))
	case *parser.HostClassDefinition:
		t.K = "Class"
		t.A = attrs(str("name", x.Name()), str("parent", x.ParentClass()))
		t.F = fields(dn("params", x.Parameters()), d1("body", x.Body()))
	case *parser.UnlessExpression:
		t.K = "Unless"
		t.F = fields(d1("test", x.Test()), d1("then", x.Then()), d1("else", x.Else()))
	case *parser.IfExpression:
		t.K = "If"
		t.F = fields(d1("test", x.Test()), d1("then", x.Then()), d1("else", x.Else()))
	case *parser.InExpression:
		t.K = "In"
		t.F = fields(d1("lhs", x.Lhs()), d1("rhs", x.Rhs()))
	case *parser.KeyedEntry:
		t.K = "KeyedEntry"
		t.F = fields(d1("key", x.Key()), d1("value", x.Value()))
	case *parser.LambdaExpression:
		t.K = "Lambda"
		t.F = fields(dn("params", x.Parameters()), d1("body", x.Body()), d1("returns", x.ReturnType()))
	case *parser.LiteralBoolean:
		t.K = "Boolean"
		t.A = attrs(boolean("value", x.Bool()))
	case *parser.LiteralDefault:
		t.K = "Default"
	case *parser.LiteralFloat:
		t.K = "Float"
		t.A = attrs(Attr{"value", x.Float()})
	case *parser.LiteralHash:
		t.K = "Hash"
		t.F = fields(dn("entries", x.Entries()))
	case *parser.LiteralInteger:
		t.K = "Integer"
		t.A = attrs(num("value", x.Int()), num("radix", int64(x.Radix())))
	case *parser.LiteralList:
		t.K = "List"
		t.F = fields(dn("elements", x.Elements()))
	case *parser.LiteralString:
		t.K = "String"
		t.A = attrs(str("value", x.StringValue()))
	case *parser.LiteralUndef:
		t.K = "Undef"
	case *parser.MatchExpression:
		t.K = "Match"
		t.A = attrs(str("op", x.Operator()))
		t.F = fields(d1("lhs", x.Lhs()), d1("rhs", x.Rhs()))
	case *parser.NamedAccessExpression:
		t.K = "NamedAccess"
		t.F = fields(d1("lhs", x.Lhs()), d1("rhs", x.Rhs()))
	case *parser.NodeDefinition:
		t.K = "Node"
		t.F = fields(dn("matches", x.HostMatches()), d1("parent", x.Parent()), d1("body", x.Body()))
	case *parser.Nop:
		t.K = "Nop"
	case *parser.NotExpression:
		t.K = "Not"
		t.F = fields(d1("expr", x.Expr()))
	case *parser.OrExpression:
		t.K = "Or"
		t.F = fields(d1("lhs", x.Lhs()), d1("rhs", x.Rhs()))
	case *parser.Parameter:
		t.K = "Parameter"
		t.A = attrs(str("name", x.Name()), boolean("rest", x.CapturesRest()))
		t.F = fields(d1("type", x.Type()), d1("value", x.Value()))
	case *parser.ParenthesizedExpression:
		t.K = "Paren"
		t.F = fields(d1("expr", x.Expr()))
	case *parser.Program:
		t.K = "Program"
		t.F = fields(d1("body", x.Body()))
	case *parser.QualifiedName:
		t.K = "Name"
		t.A = attrs(str("name", x.Name()))
	case *parser.QualifiedReference:
		t.K = "TypeName"
		t.A = attrs(str("name", x.Name()), str("down", x.DowncasedName()))
	case *parser.RegexpExpression:
		t.K = "Regexp"
		t.A = attrs(str("value", x.PatternString()))
	case *parser.RelationshipExpression:
		t.K = "Relationship"
		t.A = attrs(str("op", x.Operator()))
		t.F = fields(d1("lhs", x.Lhs()), d1("rhs", x.Rhs()))
	case *parser.RenderExpression:
		t.K = "Render"
		t.F = fields(d1("expr", x.Expr()))
	case *parser.RenderStringExpression:
		t.K = "RenderString"
		t.A = attrs(str("value", x.StringValue()))
	case *parser.ReservedWord:
		t.K = "Reserved"
		t.A = attrs(str("name", x.Name()), boolean("future", x.Future()))
	case *parser.ResourceBody:
		t.K = "ResourceBody"
		t.F = fields(d1("title", x.Title()), dn("ops", x.Operations()))
	case *parser.ResourceDefaultsExpression:
		t.K = "ResourceDefaults"
		t.A = attrs(str("form", string(x.Form())))
		t.F = fields(d1("type", x.TypeRef()), dn("ops", x.Operations()))
	case *parser.ResourceExpression:
		t.K = "Resource"
		t.A = attrs(str("form", string(x.Form())))
		t.F = fields(d1("type", x.TypeName()), dn("bodies", x.Bodies()))
	case *parser.ResourceOverrideExpression:
		t.K = "ResourceOverride"
		t.A = attrs(str("form", string(x.Form())))
		t.F = fields(d1("resources", x.Resources()), dn("ops", x.Operations()))
	case *parser.ResourceTypeDefinition:
		t.K = "Define"
		t.A = attrs(str("name", x.Name()))
		t.F = fields(dn("params", x.Parameters()), d1("body", x.Body()))
	case *parser.SelectorEntry:
		t.K = "SelectorEntry"
		t.F = fields(d1("matching", x.Matching()), d1("value", x.Value()))
	case *parser.SelectorExpression:
		t.K = "Selector"
		t.F = fields(d1("lhs", x.Lhs()), dn("selectors", x.Selectors()))
	case *parser.SiteDefinition:
		t.K = "Site"
		t.F = fields(d1("body", x.Body()))
	case *parser.TextExpression:
		t.K = "Text"
		t.F = fields(d1("expr", x.Expr()))
	case *parser.TypeAlias:
		t.K = "TypeAlias"
		t.A = attrs(str("name", x.Name()))
		t.F = fields(d1("type", x.Type()))
	case *parser.TypeDefinition:
		t.K = "TypeDefinition"
		t.A = attrs(str("name", x.Name()), str("parent", x.Parent()))
		t.F = fields(d1("body", x.Body()))
	case *parser.TypeMapping:
		t.K = "TypeMapping"
		t.F = fields(d1("type", x.Type()), d1("mapping", x.Mapping()))
	case *parser.UnaryMinusExpression:
		t.K = "Minus"
		t.F = fields(d1("expr", x.Expr()))
	case *parser.UnfoldExpression:
		t.K = "Unfold"
		t.F = fields(d1("expr", x.Expr()))
	case *parser.VariableExpression:
		t.K = "Variable"
		t.F = fields(d1("expr", x.Expr()))
	default:
		t.K = fmt.Sprintf("?%T", e)
	}
	return t
}

func valueEq(a, b interface{}) bool {
	if fa, ok := a.(float64); ok {
		if fb, ok := b.(float64); ok {
			return math.Float64bits(fa) == math.Float64bits(fb)
		}
		return false
	}
	return a == b
}

// below extends a path in a tree. Only its end is kept, since a tree can be very deep
func below(path, kind string) string {
	if len(path) > 200 {
		path = "..." + path[len(path)-150:]
	}
	return path + "/" + kind
}

// Diff returns an empty string if the two trees are equal, not considering locations, and otherwise a description
// of the first difference
func Diff(exp, act *T) string { return diff(exp, act, "") }

func diff(exp, act *T, path string) string {
	if exp == nil || act == nil {
		if exp == act {
			return ""
		}
		if exp == nil {
			return fmt.Sprintf("%s: unexpected %s", path, act.K)
		}
		return fmt.Sprintf("%s: missing %s", path, exp.K)
	}
	path = below(path, exp.K)
	if exp.K != act.K {
		return fmt.Sprintf("%s: expected %s, got %s", path, exp.K, act.K)
	}
	if len(exp.A) != len(act.A) {
		return fmt.Sprintf("%s: expected %d attributes, got %d", path, len(exp.A), len(act.A))
	}
	for i, a := range exp.A {
		if a.N != act.A[i].N || !valueEq(a.V, act.A[i].V) {
			return fmt.Sprintf("%s: expected %s=%#v, got %s=%#v", path, a.N, a.V, act.A[i].N, act.A[i].V)
		}
	}
	if len(exp.F) != len(act.F) {
		return fmt.Sprintf("%s: expected %d fields, got %d", path, len(exp.F), len(act.F))
	}
	for i, f := range exp.F {
		g := act.F[i]
		if f.N != g.N {
			return fmt.Sprintf("%s: expected field %s, got %s", path, f.N, g.N)
		}
		for j, c := range f.L {
			if j >= len(g.L) {
				return fmt.Sprintf("%s.%s: expected %d elements, got %d. Missing %s", path, f.N, len(f.L), len(g.L), c.K)
			}
			if d := diff(c, g.L[j], fmt.Sprintf("%s.%s[%d]", path, f.N, j)); d != "" {
				return d
			}
		}
		if len(g.L) > len(f.L) {
			return fmt.Sprintf("%s.%s: expected %d elements, got %d. Unexpected %s", path, f.N, len(f.L), len(g.L), g.L[len(f.L)].K)
		}
	}
	return ""
}

// aside says that a node for something that isn't written lies before its parent
func aside(exp, act, parent *T) string {
	if exp.NoLoc && act.Off < parent.Off {
		return fmt.Sprintf("starts at %d, before its parent, at %d", act.Off, parent.Off)
	}
	return ""
}

// DiffLoc compares the locations of two trees that are known to be equal in structure: the start must be exact, and the
// actual end must cover the construct
func DiffLoc(exp, act *T, path string, srcLen int) string {
	path = below(path, exp.K)
	if act.Off < 0 || act.End < act.Off || act.End > srcLen {
		return fmt.Sprintf("%s: location %d..%d is not within source of length %d", path, act.Off, act.End, srcLen)
	}
	if !exp.NoLoc {
		if exp.Off != act.Off {
			return fmt.Sprintf("%s: expected offset %d, got %d", path, exp.Off, act.Off)
		}
		if exp.End > act.End {
			return fmt.Sprintf("%s: expected location that covers %d..%d, got %d..%d", path, exp.Off, exp.End, act.Off, act.End)
		}
	}
	for i, f := range exp.F {
		for j, c := range f.L {
			a := act.F[i].L[j]
			if exp.NoLoc && !c.NoLoc && act.Off > a.Off {
				return fmt.Sprintf("%s: starts at %d, after its %s, at %d", path, act.Off, f.N, a.Off)
			}
			if d := aside(c, a, act); d != "" {
				return fmt.Sprintf("%s.%s[%d]: %s", path, f.N, j, d)
			}
			if d := DiffLoc(c, a, fmt.Sprintf("%s.%s[%d]", path, f.N, j), srcLen); d != "" {
				return d
			}
		}
	}
	return ""
}
