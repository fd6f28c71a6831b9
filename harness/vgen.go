package main

import (
	"fmt"
	"regexp"
	"strings"

	"github.com/lyraproj/puppet-parser/parser"
)

// vgen generates sources that have many, and often rare, violations of the rules of the validator. It's only concerned with
// the grammar in so far as most of what it generates is accepted.
type vgen struct {
	r      *Rng
	b      *strings.Builder
	budget int
	wf     bool
	tasks  bool
	q      bool // in a string
	burst  bool // one of the lists will be a long one
}

func vgenSource(r *Rng) ([]parser.Option, string) {
	g := &vgen{r: r, b: &strings.Builder{}, budget: 4 + r.Small(40), burst: r.P(12)}
	if r.P(20) {
		g.wf = true
	}
	if r.P(40) {
		g.tasks = true
	}
	cfg := Cfg{Tasks: g.tasks, Workflow: g.wf}
	if r.P(12) {
		return cfg.options(true), g.epp()
	}
	n := 1 + r.N(4)
	ss := make([]string, n)
	for i := range ss {
		if r.P(45) {
			ss[i] = g.def(4)
		} else {
			ss[i] = g.stmt(4)
		}
		if r.P(5) {
			ss[i] = stretch(r, ss[i])
		}
	}
	return cfg.options(false), strings.Join(ss, r.PickS("\n", "\n", "\n  ", "\n# comment\n"))
}

var wordRx = regexp.MustCompile(`[a-zA-Z][a-z0-9_]*`)

// stretch makes some word of the source long
func stretch(r *Rng, src string) string {
	ws := wordRx.FindAllStringIndex(src, -1)
	for try := 0; try < 3 && len(ws) > 0; try++ {
		w := ws[r.N(len(ws))]
		if rKeywords[src[w[0]:w[1]]] {
			continue
		}
		n := 1 << r.N(13)
		return src[:w[1]] + strings.Repeat(r.PickS("a", "b_", "x1", "name"), n+r.N(4)) + src[w[1]:]
	}
	return src
}

func (g *vgen) f(format string, args ...interface{}) string { return fmt.Sprintf(format, args...) }

func (g *vgen) many(lo, hi int, sep string, f func() string) string {
	n := g.count(lo, hi)
	ss := make([]string, n)
	for i := range ss {
		ss[i] = f()
	}
	return strings.Join(ss, sep)
}

// count is the number of elements of a list
func (g *vgen) count(lo, hi int) int {
	n := g.r.Range(lo, hi)
	if g.burst && g.r.P(30) {
		g.burst = false
		n = 6 + g.r.N(36)
	}
	return n
}

func (g *vgen) spend(d int) bool {
	g.budget--
	return d <= 0 || g.budget <= 0
}

func (g *vgen) v() string {
	return g.r.PickS("$x", "$y", "$a", "$a::b", "$::top", "$0", "$1", "$12", "$x", "$y", "$z", "$foo")
}

func (g *vgen) lit() string {
	return g.r.PickS("1", "2", "0x1", "1.0", "1.5", "'a'", "\"a\"", "a", "b", "true", "undef", "default", "Foo", "/a/", "'b c'", "foo::bar", "'1'", "0", "0.0", "'Foo'", "'default'", "false", "''")
}

func (g *vgen) params(paren bool) string {
	s := g.many(0, 4, ", ", g.param)
	if paren {
		return "(" + s + ")"
	}
	return s
}

func (g *vgen) param() string {
	r := g.r
	s := ""
	if r.P(25) {
		s = r.PickS("String ", "Integer[1,2] ", "Foo::Bar ", "Optional[String] ", "Application ", "Array[Array[Foo]] ")
	}
	if r.P(15) {
		s += "*"
	}
	s += "$" + r.PickS("a", "b", "c", "d", "e", "f1", "g_h", "name", "title", "type", "x", "y", "z", "a::b", "::c", "titles", "nam")
	if r.P(35) {
		switch r.N(5) {
		case 0:
			s += " = " + g.expr(1)
		case 1:
			s += " = ($x = 1)"
		case 2:
			s += " = " + r.PickS("[1, $x = 2]", "f($x = 2)", "{a => ($y = 1)}", "f() |$q| { $q2 = 1 }", "if true { $x = 2 }", "($x = ($y = 3))", "\"a${$x = 1}\"", "f() |$q = ($x = 1)| { 1 }",
				"($x += 1)", "[[$a = 1, $b = 2], $c = 3]", "$x ? { 1 => $y = 2 }", "f(1) |$q| { 2 }[$x = 3]", "-($x = 1)", "case $a { 1: { $x = 2 } }")
		default:
			s += " = " + g.lit()
		}
	}
	return s
}

func (g *vgen) dname() string {
	return g.r.PickS("foo", "bar", "foo::bar", "a", "a::b::c", "::foo", "::a::b", "foo", "my_x", "string", "integer", "any", "array", "runtime", "timespan", "semver", "init", "object",
		"x1", "resource_x", "foo", "hash", "struct", "a::string", "scalar", "optional", "e", "typeset", "sensitive", "foo::produces", "strings", "enum", "unit", "::produces", "::application", "::consumes", "::string")
}

func (g *vgen) tname() string {
	return g.r.PickS("Foo", "Bar", "Foo::Bar", "String", "Integer", "TypeSet", "Runtime", "SemVer", "A::B::C", "::Foo", "::A::B", "Application", "Produces", "Consumes", "X", "Object", "SemVerRange", "File", "Foo::String", "Strings", "Any", "TimeStamp", "Timestamp")
}

func (g *vgen) typ() string {
	return g.r.PickS("String", "Foo", "Integer[1,2]", "Application", "Produces[x]", "Consumes", "Foo::Bar", "Application[Foo]", "Application::Foo", "Optional[Application]", "Array[String]")
}

func (g *vgen) body(d int, top bool) string {
	n := g.count(0, 3)
	ss := make([]string, n)
	for i := range ss {
		if g.r.P(25) {
			ss[i] = g.def(d - 1)
		} else {
			ss[i] = g.stmt(d - 1)
		}
	}
	return "{ " + strings.Join(ss, "\n") + " }"
}

func (g *vgen) def(d int) string {
	r := g.r
	if g.spend(d) {
		return g.r.PickS("class foo {}", "function f() {}", "type X = Y", "define d {}", "node a {}", "type T {}", "site {}", "application a(){}")
	}
	switch k := r.N(21); k {
	case 0, 1, 2:
		s := "class " + g.dname()
		if r.P(50) {
			s += " " + g.params(true)
		}
		if r.P(20) {
			s += " inherits " + r.PickS("foo", "bar::x", "default")
		}
		return s + " " + g.body(d, true)
	case 3, 4, 5:
		s := "define " + g.dname()
		if r.P(60) {
			s += " " + g.params(true)
		}
		return s + " " + g.body(d, true)
	case 6, 7, 8:
		kw := "function "
		if g.tasks && r.P(40) {
			kw = "plan "
		}
		s := kw + g.dname() + " " + g.params(true)
		if r.P(35) {
			s += " >> " + g.typ()
		}
		return s + " " + g.body(d, true)
	case 9, 10, 11:
		s := "node " + g.many(1, 3, ", ", func() string {
			return r.PickS("foo", "'foo.bar'", "\"x-1\"", "default", "/re.*/", "'a b'", "'a/b'", "\"a$x\"", "\"${1}b\"", "foo.bar.com", "'x_y'", "'ö'", "\"a\\tb\"", "'*'", "127.0.0.1", "\"\"", "'a:b'", "a.b", "'-.-'", "\"a b\"", "\"${x}\"")
		})
		if r.P(20) {
			s += " inherits " + r.PickS("default", "'a b'", "foo")
		}
		return s + " " + g.body(d, true)
	case 12, 13:
		return "type " + g.tname() + " = " + r.PickS("String", "Application", "Foo[1]", "Application[x]", "$x", "1", "'a'", "Foo::Bar", "{a => 1}", "Object[{a => String}]", "foo", "[String]", "[1, 2]", "Consumes", "Foo[String] + 1", "f(1)", "Foo{a => 1}", "Variant[A,B]", "TypeSet[{}]")
	case 14:
		s := "type " + g.tname()
		if r.P(40) {
			s += " inherits " + r.PickS("Foo", "Bar::X")
		}
		return s + " " + g.body(d, true)
	case 15, 16:
		l := r.PickS("Runtime[ruby, 'a']", "Runtime[ruby, [/a/, 'b']]", "Foo[ruby, 'a']", "Runtime[ruby]", "Runtime[a, b, c]", "Runtime[ruby, [/a/]]", "Runtime[ruby, [/a/, b]]", "Foo::Runtime[ruby, 'a']", "Runtime[ruby, ['a', 'b']]", "Runtime[ruby, [/a/, 'b', 'c']]", "Runtime[[/a/, 'b'], x]", "Runtime[[/a/, 'b']]", "Runtime[ruby, [/a/, \"b$x\"]]")
		return "type " + l + " = " + r.PickS("Foo", "Foo[1]", "[/a/, 'b']", "['a', 'b']", "'x'", "1", "[/a/]", "[/a/, b]", "Foo::Bar", "$x", "[/a/, 'b', 'c']", "Foo[1][2]", "[[/a/, 'b']]", "[/a/, \"b\"]", "foo")
	case 17:
		return "site " + g.body(d, true)
	case 18:
		return "application " + g.dname() + " " + g.params(true) + " " + g.body(d, true)
	case 19:
		return r.PickS("Foo", "foo", "Foo[x]", "Foo['x']", "Foo[Bar]", "Foo[1]", "Foo[a,b]", "foo::bar", "Foo[$x]", "::Foo", "Foo::Bar", "Foo[\"x\"]", "Foo[x][y]") +
			r.PickS(" produces ", " consumes ") + r.PickS("Bar", "Foo::Bar", "::Foo", "bar", "foo::bar", "::A::B", "Foo_1") + " { " +
			g.many(0, 3, ", ", func() string {
				return r.PickS("a => 1", "b => $x", "* => $y", "a +> 1", "* => {a => 1}", "c => [1]", "d => 2")
			}) + " }"
	default:
		if g.wf {
			return g.step(d)
		}
		return "class " + g.dname() + " { " + g.def(d-1) + "\n" + g.def(d-2) + " }"
	}
}

func (g *vgen) step(d int) string {
	r := g.r
	props := func() string {
		s := r.PickS("", "", "type => Foo, ", "when => a, ", "repeat => 1, ")
		switch r.N(3) {
		case 0:
			return " { " + strings.TrimSuffix(s, ", ") + " } "
		case 1:
			return " "
		}
		return " { " + s + "parameters => ($a, Integer $b = " + r.PickS("1", "f(1)", "$x", "[$x = 2]") + "), returns => ($c) } "
	}
	switch r.N(4) {
	case 0:
		return "workflow " + r.PickS("foo", "a::b", "attach") + props() + "{ " + g.many(0, 3, "\n", func() string { return g.step(d - 1) }) + " }"
	case 1:
		return "resource " + r.PickS("foo", "vpc") + " { " + r.PickS("type => Foo", "type => Foo, parameters => ($a = 1)") + " } { " + r.PickS("a => 1", "b => $x, c => [1,2]", "", "d => {a => 1, a => 2}") + " }"
	case 2:
		return "action " + r.PickS("foo", "bar") + props() + g.body(d, false)
	default:
		return "stateHandler " + r.PickS("foo", "sh") + " " + "{ function create(String $x, *$y) { " + g.stmt(d-1) + " } }"
	}
}

func (g *vgen) stmts(d int) string {
	return "{ " + g.many(0, 3, "\n", func() string {
		if g.r.P(6) {
			return g.def(d - 1)
		}
		return g.stmt(d - 1)
	}) + " }"
}

func (g *vgen) attrs() string {
	return g.many(0, 4, ", ", func() string {
		return g.r.PickS("a => 1", "b => $x", "* => $h", "c +> 2", "* => {a => 1}", "d => 'x'", "* => f(1)", "require => File[a]", "e => [$x = 1]", "* => [class x {}]", "f => File <| |>", "* => X<||>", "g => {a=>1, a=>2}", "class +> 3", "notify => Foo['b']")
	})
}

func (g *vgen) bodies() string {
	return g.many(1, 3, "; ", func() string {
		return g.r.PickS("'a'", "$x", "default", "['a','b']", "a", "Foo") + ": " + g.attrs()
	})
}

func (g *vgen) query(d int) string {
	r := g.r
	if d <= 0 || r.P(45) {
		return r.PickS("a == 1", "a != $x", "$x", "a", "1", "1.5", "'s'", "true", "a < 1", "a =~ /x/", "Foo", "[1]", "!a", "f(1)", "a in b", "-1", "- $x", "\"a$x\"", "undef", "a == b", "tag == 'x'", "(a)", "a + 1", "a >= 1", "{a=>1}", "$x[1]", "default", "/a/", "a ? { b => c }", "X[1] == 2", "(a == 1)", "((b > 2))")
	}
	switch r.N(4) {
	case 0:
		return "(" + g.query(d-1) + ")"
	default:
		return g.query(d-1) + r.PickS(" and ", " or ") + g.query(d-1)
	}
}

func (g *vgen) resource(d int) string {
	r := g.r
	virt := r.PickS("", "", "", "@", "@@", "@ ", "")
	switch r.N(8) {
	case 0, 1:
		return virt + r.PickS("file", "class", "foo::bar", "notify", "classes", "user", "class") + " { " + g.bodies() + " }"
	case 2:
		return virt + r.PickS("File", "Foo::Bar", "Class", "User") + " { " + g.attrs() + " }"
	case 3:
		return virt + r.PickS("File['a']", "Foo[$x]", "Class[x]", "File[a,b]") + " { " + g.attrs() + " }"
	case 4, 5:
		s := r.PickS("File", "Foo::Bar", "User", "File", "Foo[1]", "foo", "$x", "f(1)", "Class") + " "
		if r.P(30) {
			s += "<<| " + r.PickS("", g.query(3)) + " |>>"
		} else {
			s += "<| " + r.PickS("", g.query(3)) + " |>"
		}
		if r.P(40) {
			s += " { " + g.attrs() + " }"
		}
		return s
	default:
		op := func() string { return r.PickS(" -> ", " ~> ", " <- ", " <~ ") }
		operand := func() string {
			return r.PickS("File['a']", "File <| |>", "$x", "file { 'x': }", "Foo <<| a == 1 |>>", "f(1)", "[File['a'], File <| |>]", "'x'", "notice")
		}
		s := operand() + op() + operand()
		if r.P(40) {
			s += op() + operand()
		}
		return s
	}
}

func (g *vgen) stmt(d int) string {
	r := g.r
	if g.spend(d) {
		return r.PickS("$x = 1", "notice('a')", "1", "$x", "f(1)", "include a", "$x + 1", "[1]", "'a'", "f(1) |$a| { 1 }", "undef", "fail 'x'")
	}
	switch r.N(20) {
	case 0, 1, 2:
		return g.expr(d)
	case 3, 4:
		return g.assign(d)
	case 5, 6, 7, 8:
		return g.resource(d)
	case 9, 10:
		kw := r.PickS("if ", "if ", "unless ")
		s := kw + g.cond(d) + " " + g.stmts(d)
		if kw == "if " && r.P(30) {
			s += " elsif " + g.cond(d) + " " + g.stmts(d)
		}
		if r.P(50) {
			s += " else " + g.stmts(d)
		}
		return s
	case 11, 12:
		s := "case " + g.cond(d) + " { "
		for i, n := 0, g.count(1, 3); i < n; i++ {
			s += g.many(1, 3, ", ", func() string {
				return r.PickS("default", "default", "1", "'a'", "Foo", "/x/", "[1,2]", "$x", "f(1)", "a", g.simple(d-1))
			}) + ": " + g.stmts(d) + " "
		}
		return s + "}"
	case 13, 14:
		return r.PickS("notice", "include", "f", "fail", "notice") + "(" + g.many(0, 3, ", ", func() string { return g.expr(d - 1) }) + ")" + r.PickS("", "", " |"+g.params(false)+"| "+r.PickS("", ">> "+g.typ()+" ")+g.stmts(d))
	case 15:
		return "$x.each |" + g.params(false) + "| " + r.PickS("", ">> "+g.typ()+" ") + g.stmts(d)
	case 16:
		return g.r.PickS("realize File['a']", "include foo, bar", "notice 1", "tag 'a'", "require foo", "fail \"x$y\"", "contain $x", "debug [1, $x = 2]")
	case 17:
		return g.def(d - 1)
	default:
		return g.expr(d)
	}
}

func (g *vgen) assign(d int) string {
	r := g.r
	rhs := r.PickS("1", "$y", "f(1)", "[1,2]", "if $x { 1 } else { 2 }", g.expr(d-1), g.expr(d-1), "File <| |>", "class z {}", "$q = 1", "$b[1] = 2", "type X = Y", "@file { 'a': }", "(define x {})", "undef")
	op := r.PickS(" = ", " = ", " = ", " = ", " = ", " += ", " -= ")
	lhs := r.PickS("$x", "$y", g.v(), "[$x, $y]", "$x[1]", "[$a, [$b, $0]]", "[$a::b, $x[2]]", "$a::b", "$0", "$::x", "[$x, [$y[1], [$c::d]]]", "$x[1][2]", "'a'", "foo", "Foo", "f(1)", "1", "[]", "[[]]", "{a => $b::c}", "($a::b)", "$x.y", "\"$a\"", "[1, $2, 'a']")
	return lhs + op + rhs
}

// noValue is something that doesn't have a value
func (g *vgen) noValue() string {
	return g.r.PickS("class n {}", "File <| |>", "define w {}", "type U = V", "function f() {}", "node a {}", "site {}", "application ap() {}", "File <<| |>>", "type T {}", "Foo <| a == 1 |> { b => 2 }",
		"A produces B {}", "type A /x/ = 'y'")
}

func (g *vgen) cond(d int) string {
	if g.r.P(7) {
		return g.noValue()
	}
	return g.r.PickS("$x", "true", "$x == 1", g.simple(d-1), "$x =~ /a/", "f(1)", "(class q {})", "!$x", "$a and $b", "$x in [1]", "(File <| |>)", "defined(Foo)", "undef", "(define w {})", "1", "($x = 1)", "'a'")
}

func (g *vgen) simple(d int) string {
	if g.r.P(3) {
		return g.noValue()
	}
	if g.spend(d) {
		return g.r.PickS(g.lit(), g.v())
	}
	switch g.r.N(6) {
	case 0:
		return "(" + g.expr(d-1) + ")"
	case 1:
		return "[" + g.many(0, 3, ", ", func() string { return g.expr(d - 1) }) + "]"
	case 2:
		return g.hash(d)
	case 3:
		return "f(" + g.many(0, 2, ", ", func() string { return g.expr(d - 1) }) + ")"
	case 4:
		return g.v() + "[" + g.many(1, 2, ", ", func() string { return g.expr(d - 1) }) + "]"
	}
	return g.v()
}

func (g *vgen) hash(d int) string {
	r := g.r
	return "{" + g.many(0, 5, ", ", func() string {
		k := r.PickS(g.lit(), g.lit(), "a", "'a'", "1", "b", "[a]", "['a']", "[1, 2]", "{a => 1}", "$x", "f(1)", "\"a\"", "\"a$x\"", "1.0", "default", "application", "File <| |>", "type U = V", "Foo[1]", "(1)", "private", "[0x10]", "[16]", "0x10", "16", "/a/", "undef", "''", "Foo", "'X'", "attr", "{a => 2}", "/b/", "site", "[]", "{}", "1e0", "-1", "-0.0")
		v := r.PickS("1", g.expr(d-1), "class k {}", "2", "File<||>", "x")
		return k + " => " + v
	}) + "}"
}

func (g *vgen) expr(d int) string {
	r := g.r
	if r.P(2) {
		return g.noValue()
	}
	if g.spend(d) {
		return r.PickS(g.lit(), g.v(), g.lit(), "$x", "private", "attr", "type", "site", "application", "produces")
	}
	x := func() string { return g.simple(d - 1) }
	switch r.N(26) {
	case 0:
		return "(" + g.def(d-1) + ")"
	case 1:
		return "[" + g.many(1, 3, ", ", func() string {
			return r.PickS(g.expr(d-1), "$x", "1", "class m {}", "File <| |>", "@@file { 'a': }", "type U = V")
		}) + "]"
	case 2, 3:
		return g.hash(d)
	case 4:
		return x() + r.PickS(" + ", " - ", " * ", " / ", " % ", " << ", " >> ") + x()
	case 5:
		return x() + r.PickS(" == ", " != ", " < ", " <= ", " >= ") + x()
	case 6:
		return x() + r.PickS(" and ", " or ", " in ") + x()
	case 7:
		return x() + r.PickS(" =~ ", " !~ ") + r.PickS("/a/", "$y", "Foo")
	case 8:
		return r.PickS("!", "-", "*", "!!", "- ") + r.PickS("(class n {})", g.noValue(), "$x", "("+g.expr(d-1)+")", "f(1)", "(File <| |>)")
	case 9:
		return x() + " ? { " + g.many(1, 4, ", ", func() string {
			return r.PickS("default", "default", "1", "'a'", "Foo", "/x/", "$x", "[1]", "(class o {})", "File <| |>", "class o {}") + " => " + r.PickS("1", "$y", g.simple(d-1))
		}) + " }"
	case 10:
		return "\"a${" + g.expr(d-2) + "}b\""
	case 11:
		return "\"${x}$y${z[1]}\""
	case 12, 13:
		return r.PickS("f", "foo::bar", "String", "Foo[1]", "Foo::Bar", "F", "Integer[1,2]", "g") + "(" + g.many(0, 2, ", ", func() string { return g.expr(d - 1) }) + ")" + r.PickS("", "", " |"+g.params(false)+"| "+g.stmts(d))
	case 14:
		return g.v() + "." + r.PickS("foo", "each", "foo::bar", "type", "Foo", "foo", "foo(1)", "each |$x| { $y }", "$x", "size", "lookup('a').bar", "Foo(1)")
	case 15:
		return g.v() + "[" + g.many(1, 2, ", ", func() string { return g.expr(d - 1) }) + "]"
	case 16:
		return r.PickS("$x", "1", "'a'", "$x[1]", "[1]", "f(1)", "(f)", "Foo[1][2]", "(Foo)") + "(" + r.PickS("", "1", "$x") + ")"
	case 17, 18:
		return g.assign(d)
	case 19:
		return "(" + g.expr(d-1) + ")"
	case 20:
		return "if " + g.cond(d) + " " + g.stmts(d) + r.PickS("", " else "+g.stmts(d))
	case 21:
		return "case " + g.cond(d) + " { 1: " + g.stmts(d) + " default: " + g.stmts(d) + r.PickS("", " default: { }") + " }"
	case 22:
		return g.resource(d)
	default:
		return x()
	}
}

// epp generates a template
func (g *vgen) epp() string {
	r := g.r
	s := ""
	if r.P(70) {
		s = "<% |" + g.params(false) + "| %>"
		if r.P(30) {
			s = "<%- |" + g.params(false) + "| -%>"
		}
	}
	for i, n := 0, 1+r.N(5); i < n; i++ {
		switch r.N(5) {
		case 0:
			s += "text\n"
		case 1:
			s += "<%= " + g.expr(3) + " %>"
		case 2:
			s += "<% " + g.stmt(3) + " %>"
		case 3:
			s += "<% if " + g.cond(2) + " { %>text" + r.PickS("", "<% } else { %>other") + "<% } %>"
		default:
			s += "<% $x.each |" + g.params(false) + "| { -%>\nline<%= " + g.expr(2) + " %>\n<% } -%>\n"
		}
	}
	return s
}
