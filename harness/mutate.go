package main

import (
	"strings"

	"github.com/lyraproj/puppet-parser/parser"
)

// dictionary of text that is inserted in sources
var dictionary = []string{
	"(", ")", "[", "]", "{", "}", "<|", "|>", "<<|", "|>>", "|", "||", ",", ";", ":", "::", ".", "..", "?", "=", "==", "=>", "+>", "+=", "-=", "!=", "!", "!~", "=~", "~", "~>", "->", "<-", "<~",
	"<", ">", "<=", ">=", "<<", ">>", "+", "-", "*", "/", "%", "@", "@@", "&", "^", "#", "$", "\\", "'", "\"", "`", "${", "$x", "$1", "$::a", "$a::b", "\"${", "}\"", "/*", "*/", "//", "/a/", "/\\//",
	"\n", "\r\n", "\r", "\t", " ", "\u00a0", "\u2028", "é", "日本", "🎉", "\xff", "\xc3", "\xe2\x82", "\x01", "\x7f", "\ufeff", "\u0000",
	"if", "else", "elsif", "unless", "case", "default", "undef", "true", "false", "and", "or", "in", "class", "define", "node", "inherits", "function", "type", "attr", "private", "site", "application",
	"produces", "consumes", "import", "notice", "include", "return", "fail", "Foo", "Foo::Bar", "::foo", "foo::bar", "a", "X[1]", "File['a']",
	"0", "1", "017", "08", "0x1F", "0xg", "1.5", "1e10", "1e400", "9223372036854775808", "-1", "1.", "1..2", "0x", "1_0",
	"@(END)", "@(\"END\")", "@(\"E\":json/nt$)", "@(E/", "|- END", "| END", "\nEND\n", "\n  | END\n", "-END", "@()", "@(\"", "@(E:",
	"<%", "%>", "<%=", "<%-", "-%>", "<%#", "<%%", "%%>", "<% |", "| %>", "<%= %>", "\\u{1F389}", "\\u00e9", "\\u{}", "\\u{d800}", "\\x41", "\\xg", "\\u12",
	"file { 'x': a => 1 }", "file { default: ; 'b': }", "File { a => 1 }", "@@file { x: }", "File<| a == 1 |>", "f($x) |$y| { $y }", "$x.each |$i| { }", "{ a => 1, b => [1, 2] }", "[1, 2]", "\"a${b}c\"", "$x = 1", "$a ? { 1 => 2, default => 3 }",
	"if 1 { } elsif 2 { } else { }", "case 1 { 1, 2: { } default: { } }", "class a { }", "class a($x = 1) inherits b { }", "define d(Integer $a, *$b) { }", "node a, /b/, default inherits c { }", "function f($x) >> Integer { }", "type A = Integer", "type A[B] = C", "type A inherits B { }", "Foo produces Bar { a => 1 }",
	"plan p($x) { }", "workflow w { } { }", "action a { parameters => ($x) } { }", "resource r { type => R } { }", "stateHandler s { } { }", "resource x { returns => ($a) } $x = times($n) |$i| { }", "site { }", "application a { }",
	"* =>", "a => 1", "*$x", "** ", "unless 1 { } else { }", "=> {", "-> ", "private attr",
}

// plainDictionary contains only what doesn't use the features of options
var plainDictionary []string

func init() {
	for _, s := range dictionary {
		if plain(s) {
			plainDictionary = append(plainDictionary, s)
		}
	}
}

var featureWords = []string{"`", "\\x", "plan", "workflow", "action", "resource", "stateHandler"}

// plain returns true if the source doesn't use any of the words of optional features
func plain(src string) bool {
	for _, w := range featureWords {
		if strings.Contains(src, w) {
			return false
		}
	}
	return true
}

func pieceOf(r *Rng, s string, max int) (int, int) {
	if len(s) == 0 {
		return 0, 0
	}
	i := r.N(len(s))
	n := 1 + r.N(max)
	if i+n > len(s) {
		n = len(s) - i
	}
	return i, i + n
}

// mutate makes a few random changes to a source. The other source is used for splicing
func mutate(r *Rng, s, other string, dict []string) string {
	n := 1 + r.N(3)
	if r.P(10) {
		n += r.N(10)
	}
	for k := 0; k < n; k++ {
		if len(s) > 1<<16 {
			s = s[:1<<16]
		}
		i, j := pieceOf(r, s, 1+r.N(12))
		switch r.N(14) {
		case 0:
			s = s[:i]
		case 1, 2:
			s = s[:i] + s[j:]
		case 3:
			s = s[:j] + s[i:]
		case 4, 5, 6:
			s = s[:i] + r.Pick(dict) + s[i:]
		case 7:
			s = s[:i] + " " + r.Pick(dict) + " " + s[i:]
		case 8, 9:
			s = s[:i] + r.Pick(dict) + s[j:]
		case 10:
			a, b := pieceOf(r, other, 40)
			s = s[:i] + other[a:b] + s[j:]
		case 11:
			a, b := pieceOf(r, s, 20)
			s = s[:i] + s[a:b] + s[i:]
		case 12:
			s = s[j:]
		default:
			// One character of punctuation is removed or doubled
			p := strings.IndexAny(s[i:], "()[]{}|,;:.?=!<>+-*/%@$\"'#\\\n")
			if p >= 0 {
				p += i
				if r.P(60) {
					s = s[:p] + s[p+1:]
				} else {
					s = s[:p] + s[p:p+1] + s[p:]
				}
			}
		}
	}
	return s
}

// tokenSoup is a random sequence from the dictionary
func tokenSoup(r *Rng, dict []string) string {
	b := &strings.Builder{}
	n := 1 + r.N(12)
	if r.P(10) {
		n = r.N(80)
	}
	for i := 0; i < n; i++ {
		b.WriteString(r.Pick(dict))
		if r.P(60) {
			b.WriteByte(" \n\t "[r.N(4)])
		}
	}
	return b.String()
}

// mutateToks changes the tokens of a program: removes, duplicates, replaces or swaps some
func mutateToks(r *Rng, toks []*Tok) []*Tok {
	ts := make([]*Tok, 0, len(toks)+1)
	for _, t := range toks {
		c := *t
		ts = append(ts, &c)
	}
	if len(ts) == 0 {
		return ts
	}
	for n := 1 + r.N(2); n > 0; n-- {
		i := r.N(len(ts))
		if ts[i].RawText || ts[i].StrOpen || ts[i].StrEnd || ts[i].Hd != nil {
			continue
		}
		switch r.N(4) {
		case 0:
			ts = append(ts[:i:i], ts[i+1:]...)
		case 1:
			c := *ts[i]
			ts = append(ts[:i+1:i+1], append([]*Tok{&c}, ts[i+1:]...)...)
		case 2:
			ts[i] = &Tok{S: r.Pick(softToks)}
		default:
			ts = append(ts[:i:i], append([]*Tok{{S: r.Pick(softToks)}}, ts[i:]...)...)
		}
		if len(ts) == 0 {
			break
		}
	}
	return ts
}

var softToks = []string{"(", ")", "[", "]", "{", "}", "|", ",", ";", ":", ".", "?", "=", "==", "=>", "+>", "!", "->", "<-", "+", "-", "*", "%", "@", "@@", "$x", "foo", "Foo", "1", "'s'",
	"if", "else", "elsif", "unless", "case", "default", "undef", "true", "and", "or", "in", "class", "define", "node", "inherits", "function", "type", "attr", "site", "application", "produces", "consumes", "<|", "|>", "<<|", "|>>"}

// magicToks are tokens that have a special meaning in some place
var magicToks = []string{"Resource", "Object", "TypeSet", "Deferred", "times", "range", "each", "parameters", "returns", "workflow", "action", "resource", "stateHandler", "plan", "private", "produces", "consumes",
	"require", "realize", "include", "contain", "tag", "debug", "info", "notice", "warning", "error", "crit", "alert", "emerg", "fail", "import", "break", "next", "return", "false", "parent", "new",
	"foo::bar", "::foo", "Foo::Bar", "::Foo", "a-b", "_x", "$0", "$1", "$010", "$::x", "$a::b", "$", "0", "010", "0x1F", "1.5", "1e3", "08", "-1", "\"d\"", "\"${x}\"", "\"$x\"", "''", "/re/", "+=", "-=", "<=", ">=", "<", ">", "!=", "=~", "!~", "<<", ">>", "~>", "<-", "<~", "/", "||", "=>1,", "()", "[]", "{}", "*=>", "|$y|{}", "<| |>"}

// changeToks changes the tokens of a program in more ways than mutateToks
func changeToks(r *Rng, toks []*Tok) []*Tok {
	if r.P(50) {
		return mutateToks(r, toks)
	}
	ts := make([]*Tok, 0, len(toks)+1)
	for _, t := range toks {
		c := *t
		ts = append(ts, &c)
	}
	fixed := func(t *Tok) bool { return t.RawText || t.StrOpen || t.StrEnd || t.Hd != nil || t.EppTag }
	for n := 1 + r.N(2); n > 0 && len(ts) > 0; n-- {
		i := r.N(len(ts))
		k := r.N(100)
		switch {
		case k < 25:
			if !fixed(ts[i]) {
				ts[i] = &Tok{S: r.Pick(magicToks)}
			}
		case k < 35:
			ts = append(ts[:i:i], append([]*Tok{{S: r.Pick(magicToks)}}, ts[i:]...)...)
		case k < 50:
			if j := r.N(len(ts)); !fixed(ts[i]) && !fixed(ts[j]) {
				ts[i] = &Tok{S: ts[j].S, Num: ts[j].Num, Multi: ts[j].Multi}
			}
		case k < 60:
			if i > 0 && !fixed(ts[i]) && !fixed(ts[i-1]) {
				ts[i], ts[i-1] = ts[i-1], ts[i]
			}
		default:
			a, b := bracketed(r, ts)
			if b <= a {
				continue
			}
			switch r.N(5) {
			case 0: // other brackets
				o := r.N(4)
				ts[a], ts[b] = &Tok{S: []string{"(", "[", "{", "<|"}[o]}, &Tok{S: []string{")", "]", "}", "|>"}[o]}
			case 1: // nothing in the brackets
				ts = append(ts[:a+1:a+1], ts[b:]...)
			case 2: // the brackets twice
				ts = append(ts[:b+1:b+1], append(cloneToks(ts[a:b+1]), ts[b+1:]...)...)
			case 3: // the content of others
				if c, d := bracketed(r, ts); d > c {
					ts = append(ts[:a+1:a+1], append(cloneToks(ts[c+1:d]), ts[b:]...)...)
				}
			default: // others instead
				if c, d := bracketed(r, ts); d > c {
					ts = append(ts[:a:a], append(cloneToks(ts[c:d+1]), ts[b+1:]...)...)
				}
			}
		}
	}
	return ts
}

// confusions are groups of tokens that can be taken for each other
var confusions = [][]string{
	{"=>", "+>", "=", "==", "->", ":", ",", "*", "?"},
	{",", ";", ":", ",,", "=>", ".", "|", "and"},
	{";", ",", ":", ";;", "}"},
	{":", "::", ",", ";", "=>", "{", "?", ":,"},
	{"(", "[", "{", "|", "<|", "(,", "((", "(*"},
	{")", "]", "}", "|", "|>", ",)", "))", "),"},
	{"[", "(", "{", "<|", "[,", "[[", "[*"},
	{"]", ")", "}", ",]", "]]", "],"},
	{"{", "(", "[", "{,", "{;", "{ {", "{ default:", "= {", "?{"},
	{"}", ")", "]", ",}", ";}", "}}", "};", "}{"},
	{"<|", "<<|", "<", "<<", "<||", "["},
	{"|>", "|>>", ">", "|", ">>", "||>", "]"},
	{"<<|", "<|", "<<", "<"},
	{"|>>", "|>", ">>", "|"},
	{"|", "||", "(", ")", "{", "<|", "|>", ",|"},
	{"->", "~>", "<-", "<~", "-", "=>", ">"},
	{"~>", "->", "<~", "=~", "~"},
	{"==", "=", "!=", "=~", "=>", ">=", "in"},
	{"!=", "!", "==", "!~"},
	{"=~", "!~", "==", "~>"},
	{"=", "==", "+=", "-=", "=>", "in"},
	{"+=", "=", "+", "-=", "+>"},
	{"-=", "=", "-", "+="},
	{"and", "or", "in", "&", ","},
	{"or", "and", "in", "||", "?"},
	{"in", "and", "==", "=", "inherits", "="},
	{"<", "<=", "<<", "<|", ">"},
	{">", ">=", ">>", "|>", "=>", "<"},
	{"<<", "<", "<<|", ">>"},
	{">>", ">", "<<", "=>", "|>>", ":"},
	{"+", "-", "*", "++", "+=", "+>"},
	{"-", "+", "*", "--", "-=", "->"},
	{"*", "**", "+", "/", "* =>", "%", "@"},
	{"/", "*", "%", "//", "+"},
	{"%", "*", "/", "%>"},
	{"!", "-", "!!", "*", "!=", "+"},
	{"@", "@@", "*", "&", "!"},
	{"@@", "@", "@@@", "*"},
	{".", "..", ",", "::", ".(", "->"},
	{"?", ":", "=>", "??", "."},
	{"if", "unless", "elsif", "case", "else if", "function"},
	{"unless", "if", "case", "else"},
	{"elsif", "else", "else if", "if", "unless"},
	{"else", "elsif", "elsif 1", "default"},
	{"case", "if", "unless", "class", "node"},
	{"default", "undef", "true", "'default'", "Default", "else"},
	{"undef", "default", "'undef'", "Undef", "false"},
	{"true", "false", "True", "undef"},
	{"false", "true", "False"},
	{"class", "define", "type", "node", "site", "application", "Class", "function", "plan"},
	{"define", "class", "application", "function", "type", "@define"},
	{"application", "define", "class", "site"},
	{"site", "node", "class", "site a"},
	{"node", "class", "site", "node default,"},
	{"inherits", "in", "=", "inherit", "inherits default", "inherits ::"},
	{"function", "define", "plan", "private function", "type"},
	{"plan", "function", "class", "action"},
	{"type", "class", "type alias", "type type", "function"},
	{"produces", "consumes", "provides", "inherits", "=>"},
	{"consumes", "produces", "in"},
	{"attr", "private", "type", "foo"},
	{"private", "attr", "foo"},
	{"workflow", "action", "resource", "stateHandler", "class"},
	{"action", "workflow", "resource", "stateHandler", "function"},
	{"resource", "workflow", "action", "Resource", "define"},
	{"stateHandler", "action", "workflow", "statehandler"},
	{"times", "each", "range", "repeat"},
	{"each", "times", "range", "map"},
	{"range", "times", "each"},
	{"parameters", "returns", "when", "parameter"},
	{"returns", "parameters", "return", "guard"},
}

var confusion = map[string][]string{}

func init() {
	for _, g := range confusions {
		confusion[g[0]] = g[1:]
	}
}

// atoms are tokens, of each kind that has a value
var atoms = []string{"foo", "foo::bar", "::foo", "Foo", "::Foo::Bar", "Resource", "'s'", "'a-b'", "\"d\"", "\"${x}\"", "''", "$x", "$1", "$::x", "$a::b", "1", "017", "0x1F", "1.5", "-1", "+1", "default", "undef", "true", "/re/", "[]", "{}", "[1]", "{a=>1}", "(1)", "()",
	"notice", "class", "type", "attr", "a-b", "$x[1]", "$x.foo", "foo()", "f(1)", "Foo[1]", "Foo[]", "*$x", "!$x", "-$x", "a => 1", "if 1 {}", "case 1 { 1: {} }", "1 + 2", "$x = 1", "$x -> $y", "$x ? 1 => 2", "Foo <| |>", "file { x: }", "@@f { x: }", "foo 1", "notice 1", "function f {}", "class c {}"}

// forms of a variable, a name and a type that are right in some places only
var (
	oddVars  = []string{"$", "$0", "$12", "$x", "$::x", "$a::b", "$x_", "$x9"}
	oddNames = []string{"a::b", "::a", "a", "a1", "a_b", "A", "a::b::c", "::a::b"}
	oddTypes = []string{"A::B", "::A", "A", "A1", "A_b", "a", "::A::B"}
)

// confuse makes one small change to the tokens of a program
func confuse(r *Rng, toks []*Tok) []*Tok {
	ts := cloneToks(toks)
	var i int
	for try := 0; ; try++ {
		i = r.N(len(ts))
		t := ts[i]
		if !(t.RawText || t.StrOpen || t.StrEnd || t.Hd != nil || t.EppTag) {
			break
		}
		if try == 10 {
			return ts
		}
	}
	k := r.N(100)
	alt := confusion[ts[i].S]
	switch {
	case k < 12:
		ts = append(ts[:i:i], ts[i+1:]...)
	case k < 18:
		c := *ts[i]
		ts = append(ts[:i+1:i+1], append([]*Tok{&c}, ts[i+1:]...)...)
	case k < 23:
		if j := i + 1; j < len(ts) && !(ts[j].RawText || ts[j].StrOpen || ts[j].StrEnd || ts[j].Hd != nil || ts[j].EppTag) {
			ts[i], ts[j] = ts[j], ts[i]
		}
	case k < 28:
		ts = append(ts[:i:i], append([]*Tok{{S: r.Pick(atoms)}}, ts[i:]...)...)
	case k < 33:
		ts = append(ts[:i:i], append([]*Tok{{S: r.Pick(confusions[r.N(len(confusions))])}}, ts[i:]...)...)
	case alt != nil && k < 90:
		ts[i] = &Tok{S: r.Pick(alt)}
	case k < 95:
		if s := ts[i].S; s != "" {
			switch c := s[0]; {
			case c == '$' && r.P(75):
				ts[i] = &Tok{S: r.Pick(oddVars)}
				return ts
			case c >= 'a' && c <= 'z' && r.P(50):
				ts[i] = &Tok{S: r.Pick(oddNames)}
				return ts
			case c >= 'A' && c <= 'Z' && r.P(50):
				ts[i] = &Tok{S: r.Pick(oddTypes)}
				return ts
			}
		}
		ts[i] = &Tok{S: r.Pick(atoms)}
	default:
		ts[i] = &Tok{S: r.Pick(magicToks)}
	}
	return ts
}

func cloneToks(ts []*Tok) []*Tok {
	cs := make([]*Tok, len(ts))
	for i, t := range ts {
		c := *t
		cs[i] = &c
	}
	return cs
}

// bracketed returns the indices of a bracket and the one that matches it, with no strings or heredocs in between
func bracketed(r *Rng, ts []*Tok) (int, int) {
	for try := 0; try < 8; try++ {
		a := r.N(len(ts))
		depth := 0
	scan:
		for i := a; i < len(ts) && i < a+60; i++ {
			t := ts[i]
			if t.RawText || t.StrOpen || t.StrEnd || t.Hd != nil || t.EppTag {
				break
			}
			switch t.S {
			case "(", "[", "{", "<|", "<<|":
				depth++
			case ")", "]", "}", "|>", "|>>":
				depth--
				if depth == 0 {
					return a, i
				}
			}
			if depth == 0 {
				break scan
			}
		}
	}
	return 0, 0
}

// parseOutcome is everything that can be observed from parsing a source
type parseOutcome struct {
	e    parser.Expression
	t    *T
	defs []string
	err  string
}

func (c *Case) dumpParse(e parser.Expression, err error) (o parseOutcome) {
	if err != nil {
		if e != nil {
			c.Fail("both an AST and an error: %s", err)
		}
		o.err = err.Error()
		return
	}
	if e == nil {
		c.Fail("no AST and no error")
	}
	o.e = e
	o.t = Dump(e)
	if p, ok := e.(*parser.Program); ok {
		for _, d := range p.Definitions() {
			o.defs = append(o.defs, d.Label()+" "+d.String())
		}
	}
	return
}

// sameLocations compares the locations of two dumped trees that have the same structure
func sameLocations(a, b *T, path string) string {
	path = below(path, a.K)
	if a.Off != b.Off || a.End != b.End {
		return path + ": locations differ"
	}
	if a.E != nil && b.E != nil && (a.E.File() != b.E.File() || a.E.Line() != b.E.Line() || a.E.Pos() != b.E.Pos()) {
		return path + ": file, line or column differ"
	}
	for i, f := range a.F {
		for j, x := range f.L {
			if d := sameLocations(x, b.F[i].L[j], path); d != "" {
				return d
			}
		}
	}
	return ""
}

// diffOutcome describes the difference between two outcomes. Locations are compared if loc is true
func diffOutcome(a, b parseOutcome, loc bool) string {
	if a.err != b.err {
		return "different result: " + a.resultString() + " and " + b.resultString()
	}
	if a.err != "" {
		return ""
	}
	if d := Diff(a.t, b.t); d != "" {
		return "different AST: " + d
	}
	if loc {
		if d := sameLocations(a.t, b.t, ""); d != "" {
			return "different locations: " + d
		}
		if strings.Join(a.defs, "\x00") != strings.Join(b.defs, "\x00") {
			return "different definitions"
		}
	}
	return ""
}

func (o *parseOutcome) resultString() string {
	if o.err != "" {
		return "the error '" + o.err + "'"
	}
	return "an AST"
}
