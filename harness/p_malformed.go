package main

import (
	"fmt"
	"math"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"unicode/utf8"

	"github.com/lyraproj/issue/issue"
	"github.com/lyraproj/puppet-parser/parser"
)

// --- C18. Malformed source ---

func runC18(c *Case) {
	switch x := c.R.N(100); {
	case x < 30:
		malformedConstruct(c)
	case x < 48:
		badLexeme(c)
	case x < 50:
		badByte(c)
	case x < 75:
		wrongToken(c)
	default:
		unparsed(c)
	}
}

// mustReject parses a malformed source, and returns the issue
func (c *Case) mustReject(src string, opts []parser.Option, what string) issue.Reported {
	c.Src = src
	e, err := parser.CreateParser(opts...).Parse("f.pp", src, false)
	if err == nil {
		c.Fail("malformed source (%s) is accepted: %s", what, clip(e.ToPN().String(), 2000))
	}
	if e != nil {
		c.Fail("both an AST and an issue")
	}
	i, ok := err.(issue.Reported)
	if !ok {
		c.Fail("the error isn't an issue: %s", err)
	}
	l := i.Location()
	if l == nil || l.File() != "f.pp" {
		c.Fail("the issue isn't located in the file: %s", i)
	}
	return i
}

// malformedConstruct places one of the malformed constructs of the table somewhere in a valid source
func malformedConstruct(c *Case) {
	r := c.R
	all := len(malformedTemplates) + len(malformedEpp)
	n := r.N(all)
	var m malformed
	isEpp := n >= len(malformedTemplates)
	if isEpp {
		m = malformedEpp[n-len(malformedTemplates)]
	} else {
		m = malformedTemplates[n]
	}
	has := func(k rune) bool { return strings.ContainsRune(m.where, k) }
	cfg := Cfg{Tasks: has('p') || r.P(20), Workflow: has('w') || r.P(20), Hex: has('h') || r.P(20), Backtick: has('b')}
	if !has('b') && !strings.Contains(m.src, "`") {
		cfg.Backtick = r.P(20)
	}
	if strings.Contains(m.src, "\\x") && !has('h') {
		cfg.Hex = false
	}
	truncated := has('z') || has('x')

	crlf := r.P(15)
	text := m.src
	nl := func() string {
		if crlf {
			return "\r\n"
		}
		return "\n"
	}
	text = strings.ReplaceAll(text, "⏎", "\n")
	// Blanks must not be changed between the name of a call and its parenthesis. Those have no '↵'
	for strings.Contains(text, "↵") {
		ws := ""
		for k := 1 + r.Small(3); k > 0; k-- {
			ws += r.PickS(" ", "\n", "\n", "\n\n", "\t", "\n  ", " # it's { a\n", " /* x */ ", "\n/* a\n b */")
		}
		if m := strings.Index(text, "↵"); strings.HasPrefix(text[m+len("↵"):], "§[") || strings.HasPrefix(text[m+len("↵"):], "§(") {
			// a line break changes the meaning
			ws = " "
		}
		text = strings.Replace(text, "↵", ws, 1)
	}

	b := &strings.Builder{}
	suffix := ""
	epp := isEpp
	if isEpp {
		// Valid text may come first
		if !strings.HasPrefix(m.src, "<%- |") && m.code != "PARSE_ILLEGAL_EPP_PARAMETERS" {
			for k := r.Small(3); k > 0; k-- {
				b.WriteString(r.PickS("text\n", "<%# comment\n %>", "<% $a = [1,\n2] %>\n", "<%= $x -%>\n", "<%% x\n", "<% if $x { -%>\n yes <% } else { -%>\n no<% } %>\n", "日本 -%>\n"))
			}
		}
		b.WriteString(text)
	} else {
		if !truncated && !has('t') && r.P(12) {
			epp = true
			b.WriteString(r.PickS("", "text\n", "\n\nx <%% y <%# c\n %>", "a\r\n<%= $x %> b\n") + r.PickS("<% ", "<%- ", "<%\n", "a<%"))
			suffix = r.PickS(" %>", "\n-%>\n", " %> text")
			b.WriteString("\n$start = 1;\n")
		} else {
			for k := r.Small(2); k > 0; k-- {
				if p := newProg(r, Cfg{Tasks: cfg.Tasks, Workflow: cfg.Workflow, Hex: cfg.Hex, Backtick: cfg.Backtick, Focus: r.Pick(allFocuses), Budget: 1 + r.N(25), MaxDepth: 3}, false); p != nil {
					b.WriteString(p.Src)
					b.WriteString("\n$sep = 1;\n")
				}
			}
			if r.P(10) {
				b.WriteString(r.PickS("\n\n\n", "# comment\n", "/* a\n b */\n", "$h = @(EOT)\n text }\n |- EOT\n$sep = 1;\n", "$m = 'a\nb\n';\n", "$m = \"a\n${x} ${[1,\n 2]}\nb\n\";\n"))
			}
		}
		if !has('t') {
			for k := r.Small(4); k > 0; k-- {
				open := r.PickS("class ctx::a {", "if $c {", "unless $c {", "if $c { } else {", "if $c {\n1\n} elsif $d {", "case $c { 1: { } 2, 3: {", "case $c { default: {", "$c.each |$i| {", "function g($p = 1) {", "function g() >> String {",
					"define d($p) {", "node 'n', /x/ {", "f(1, 2) |Foo $i, *$j| {", "class i inherits j {", "$l = f |$q| {", "application ap {", "unless $c {\n} else {")
				b.WriteString(open)
				b.WriteString(nl())
				suffix = "\n" + strings.Repeat("}", strings.Count(open, "{")-strings.Count(open, "}")) + "\n" + suffix
				if r.P(30) {
					b.WriteString(r.PickS("$y = 1;\n", "notice('x');\n", "foo { 'a': b => 1 }\n;", "# c\n", "$q = @(E)\nx\nE\n;"))
				}
			}
		}
		inString := false
		if has('e') || has('x') {
			cs := [][2]string{{"$v = ", ""}, {"f(1, ", ", 2)"}, {"[1, ", "]"}, {"$v = {'k' => ", "}"}, {"if (", ") { }"}, {"unless $x and (", ") { }"}, {"(", ")"}, {"foo { 't': a => ", " }"}, {"foo { 't': a => 1, * => ", " }"},
				{"foo { default: ; ", ": a => 1 }"}, {"Foo { a => ", "}"}, {"Foo['a'] { a => ", ", b => 1 }"}, {"class c($p = ", ") { }"}, {"define c(Foo $o, Foo[1] $p = ", ", $q) { }"}, {"$q ? { 1 => ", ", default => 2 }"}, {"$q ? { ", " => 1 }"},
				{"$q[", "]"}, {"$q = 1 + ", ""}, {"$q and ", " or 2"}, {"f |$x| { ", " }"}, {"$x.g(", ")"}, {"$x.each |$i = ", "| { }"}, {"case ", " { 1: { } }"}, {"case 1 { ", ": { } }"}, {"case 1 { 1, ", ": { } }"}, {"Foo <| a == ", " |>"},
				{"Foo <<| (a != 1 and b == ", ") |>>"}, {"@foo { 'x': a => ", "}"}, {"notice 1, ", ", 2"}, {"!", ""}, {"$f = \"a ${x} ${", "} b\""}, {"$f = \"a\n${", "}\""}, {"type T = A[", "]"}, {"File['x'] -> ", ""}, {"$z = -", ""}, {"f(*", ")"},
				{"$a = $b = ", ""}, {"$f = \"${g(", ")}\""}, {"$f = \"${x.map |$y| { ", " }}\""}}
			inner := [][2]string{{"f(1, ", ", 2)"}, {"[1, ", "]"}, {"[1, {'k' => ", "}]"}, {"(", ")"}, {"$q ? { 1 => ", ", default => 2 }"}, {"$q[", "]"}, {"f |$x| { ", " }"}, {"$x.g(", ")"},
				{"\"a ${", "}\""}, {"\"${x}${f(", ")}\""}, {"f(1) |$a, $b = 2| { if $x { ", " } }"}, {"$x[1].g(1, ", ")"}, {"g($x ? { default => [1, ", "]})"}, {"g(!", ")"}}
			for n, k := 0, 1+r.Small(3); n < k; n++ {
				x := cs[r.N(len(cs))]
				if n > 0 {
					x = inner[r.N(len(inner))]
				}
				if strings.Contains(x[0], "\"") {
					if inString || truncated && strings.Contains(m.src, "@(") || strings.Contains(m.src, "\"") {
						// No heredoc or string in a string
						x = cs[1]
					} else {
						inString = true
					}
				}
				b.WriteString(x[0])
				suffix = x[1] + suffix
			}
		}
		b.WriteString(text)
	}
	if !truncated {
		if !isEpp {
			if r.P(60) {
				suffix = r.PickS(" ", "\n", " # c\n") + suffix
			}
			if !epp && m.code != "PARSE_EXTRANEOUS_COMMA" && r.P(30) {
				// (superfluous commas are found when all statements have been parsed)
				suffix += "\n$x = 1;\n" + r.PickS("", "class last { }\n", "'a' \"b\" @(X\n", "}}}", "if", "file { x: }")
			}
		}
		b.WriteString(suffix)
	}
	src := b.String()
	if crlf {
		src = strings.ReplaceAll(strings.ReplaceAll(src, "\r\n", "\n"), "\n", "\r\n")
	}
	k := strings.Index(src, "§")
	line := 1 + strings.Count(src[:k], "\n")
	src = strings.Replace(src, "§", "", 1)
	c.Info = append(c.Info, "construct: "+m.src, fmt.Sprintf("expected: %s %v on line %d", m.code, m.args, line), cfg.String(), fmt.Sprintf("epp=%v", epp))
	i := c.mustReject(src, cfg.options(epp), m.src)
	c.checkIssue(i, m, line)
	c.Count("construct " + m.code)
	c.Seen(src)
}

func (c *Case) checkIssue(i issue.Reported, m malformed, line int) {
	if string(i.Code()) != m.code {
		c.Fail("the issue is %s (%s), expected %s", i.Code(), i, m.code)
	}
	if i.Location().Line() != line {
		c.Fail("the issue is on line %d, expected line %d: %s", i.Location().Line(), line, i)
	}
	var keys []string
	for k, v := range m.args {
		keys = append(keys, k)
		if g := fmt.Sprint(i.Argument(k)); g != v {
			c.Fail("the argument '%s' of the issue is \"%s\", expected \"%s\": %s", k, g, v, i)
		}
	}
	if len(i.Keys()) != len(m.args) {
		got := append([]string{}, i.Keys()...)
		sort.Strings(got)
		sort.Strings(keys)
		c.Fail("the issue has the arguments %v, expected %v", got, keys)
	}
	if i.Severity() != issue.SeverityError {
		c.Fail("the severity is %s", i.Severity())
	}
}

// words adds what the source of a node must have contained: names, literals, keywords and operators, but not punctuation
func (t *T) words(add func(string)) {
	name := func(s string) { add(lastSegment(s)) }
	switch t.K {
	case "Access", "List":
		add("[")
		add("]")
	case "And":
		add("and")
	case "Or":
		add("or")
	case "In":
		add("in")
	case "Application":
		add("application")
		name(t.Str("name"))
	case "Arithmetic", "Assignment", "Comparison", "Match", "Relationship":
		add(t.Str("op"))
	case "AttributeOp":
		name(t.Str("name"))
		add(t.Str("op"))
	case "AttributesOp":
		add("*")
		add("=>")
	case "CapabilityMapping":
		add(t.Str("kind"))
		name(t.Str("capability"))
	case "Case":
		add("case")
	case "CaseOption", "ResourceBody":
		add(":")
	case "ExportedQuery":
		add("<<|")
	case "VirtualQuery":
		add("<|")
	case "Function":
		add("function")
		name(t.Str("name"))
	case "Plan":
		add("plan")
		name(t.Str("name"))
	case "Class":
		add("class")
		name(t.Str("name"))
		if t.Str("parent") != "" {
			add("inherits")
			name(t.Str("parent"))
		}
	case "Define":
		add("define")
		name(t.Str("name"))
	case "Node":
		add("node")
		if t.One("parent") != nil {
			add("inherits")
		}
	case "Site":
		add("site")
	case "TypeAlias":
		add("type")
		name(t.Str("name"))
		add("=")
		if y := t.One("type"); y.K == "Access" && y.One("operand").Off == y.One("operand").End {
			// 'Object' is implied
			keys := y.Many("keys")
			if len(keys) == 1 && keys[0].K == "Hash" && keys[0].Off == y.Off {
				for _, x := range keys[0].Children() {
					if k := x.One("key"); k.Off == k.End {
						// so is the key of the parent
						x.One("value").words(add)
					} else {
						x.words(add)
					}
				}
				return
			}
			add("[")
			add("]")
			for _, x := range keys {
				x.words(add)
			}
			return
		}
	case "TypeDefinition":
		add("type")
		name(t.Str("name"))
		if t.Str("parent") != "" {
			add("inherits")
			name(t.Str("parent"))
		}
	case "TypeMapping":
		add("type")
		add("=")
	case "If", "Unless":
		add(strings.ToLower(t.K))
		if e := t.One("else"); e != nil && e.K != "Nop" {
			add("else")
		}
	case "KeyedEntry", "SelectorEntry":
		add("=>")
	case "Selector":
		add("?")
	case "Boolean":
		if t.Bool("value") {
			add("true")
		} else {
			add("false")
		}
	case "Default", "Undef":
		add(strings.ToLower(t.K))
	case "Float":
		f := t.Attr("value").(float64)
		if math.Signbit(f) {
			add("-")
			f = -f
		}
		add(fmt.Sprintf("%g", f))
	case "Integer":
		n := t.Attr("value").(int64)
		if n < 0 {
			add("-")
			n = -n
		}
		add(fmt.Sprintf("%d", n))
	case "String":
		name(t.Str("value"))
	case "Regexp":
		add("/" + t.Str("value") + "/")
	case "NamedAccess":
		add(".")
	case "Not":
		add("!")
	case "Minus":
		add("-")
	case "Unfold":
		add("*")
	case "Name", "TypeName", "Reserved":
		name(t.Str("name"))
	case "Parameter":
		if t.Bool("rest") {
			add("*")
		}
		add("$" + lastSegment(t.Str("name")))
		if t.One("value") != nil {
			add("=")
		}
	case "Variable":
		x := t.One("expr")
		switch x.K {
		case "Name":
			add("$" + lastSegment(x.Str("name")))
		case "Integer":
			add(fmt.Sprintf("$%d", x.Attr("value")))
		}
		return
	}
	if t.One("returns") != nil {
		add(">>")
	}
	switch t.Str("form") {
	case "virtual":
		add("@")
	case "exported":
		add("@@")
	}
	for _, x := range t.Children() {
		x.words(add)
	}
}

func lastSegment(s string) string {
	if k := strings.LastIndex(s, "::"); k >= 0 {
		return s[k+2:]
	}
	return s
}

// sourceWord normalises a token in the same way. Returns false for one that isn't accounted for
func sourceWord(s string) (ws []string, ok bool) {
	switch s {
	case "(", ")", "{", "}", ",", ";", "|", "|>", "|>>":
		return nil, true
	case "elsif":
		return []string{"else", "if"}, true
	case "node":
		// names of hosts are written with many kinds of tokens
		return nil, false
	case "<|", "<<|":
		return []string{s}, true
	}
	switch q := s[0]; {
	case q == '$':
		n := lastSegment(s[1:])
		if v, err := strconv.Atoi(n); err == nil {
			n = strconv.Itoa(v)
		}
		return []string{"$" + n}, true
	case isDig(q):
		if v, err := strconv.ParseInt(s, 0, 64); err == nil {
			return []string{fmt.Sprintf("%d", v)}, true
		}
		v, err := strconv.ParseFloat(s, 64)
		return []string{fmt.Sprintf("%g", v)}, err == nil
	case isW(q) || q == ':' && len(s) > 1:
		return []string{lastSegment(s)}, true
	case q == '\'':
		if strings.Contains(s, "\\") || len(s) < 2 {
			return nil, false
		}
		return []string{lastSegment(s[1 : len(s)-1])}, true
	case q == '"' || q == '`' || q == '/' && len(s) > 1 || q >= 0x80 || q == '@' && len(s) > 2:
		return nil, false
	case q == '+' && len(s) > 1:
		// sign or operator
		return []string{s}, s[1] == '=' || s[1] == '>'
	case q == '-' && len(s) > 1 && isDig(s[1]):
		ws, ok := sourceWord(s[1:])
		return append(ws, "-"), ok && ws[0] != "0" && !strings.HasPrefix(s, "-922337")
	}
	return []string{s}, true
}

var unparsedFocuses = []string{"", "ops", "calls", "flow", "resources", "defs"}

// unparsed changes tokens of a program. If the result is accepted, then everything that it contains must be found in the AST, and nothing else,
// and its brackets must be balanced
func unparsed(c *Case) {
	r := c.R
	cfg := randomCfg(r, r.Pick(unparsedFocuses))
	cfg.Workflow = false
	cfg.Budget = 1 + r.N(40)
	cfg.NoHeredoc = true
	p := genProg(c, cfg, false)
	if p == nil {
		return
	}
	for n := 0; n < 4; n++ {
		toks := p.G.toks
		if n > 0 {
			toks = mutateToks(r, toks)
		}
		var want []string
		var open []string
		balanced := true
		skip := false
		slashes := 0
		for i, t := range toks {
			if t.StrOpen || t.RawText || t.Hd != nil || t.S == "" {
				return
			}
			ws, ok := sourceWord(t.S)
			if !ok {
				return
			}
			want = append(want, ws...)
			if t.S == "/" {
				// Might start a regexp, that then ends at another
				slashes++
				skip = skip || slashes > 1
			}
			_, isOpen := closerOf[t.S]
			switch {
			case isOpen:
				open = append(open, t.S)
			case closers2[t.S]:
				if k := len(open); k > 0 && closerOf[open[k-1]] == t.S {
					open = open[:k-1]
				} else {
					balanced = false
				}
			}
			if i > 1 && t.S == "{" && toks[i-2].S == "=" && toks[i-1].S[0] != '$' {
				// Might be a type alias, where this implies more
				skip = true
			}
			switch prev := ""; t.S {
			case ",":
				if i > 0 {
					prev = toks[i-1].S
				}
				switch prev {
				case "", ",", "[", "(", "{", ";", "=>", "+>", "=", ".":
					balanced = false
				}
			case ";":
				if i > 0 {
					prev = toks[i-1].S
				}
				switch prev {
				case "", ";", "[", "(", "{", "=>", "+>", "=", ".":
					balanced = false
				}
			}
		}
		if skip {
			continue
		}
		balanced = balanced && len(open) == 0
		save := p.G.toks
		p.G.toks = toks
		src, ok := p.G.render(r, Style{Space: 100, OneLine: r.P(50), NL: 20}, false)
		p.G.toks = save
		if !ok {
			continue
		}
		c.Src = src
		e, err := parser.CreateParser(p.Opts...).Parse("f.pp", src, false)
		if err != nil {
			c.Count("changed source rejected")
			continue
		}
		d := Dump(e)
		if !balanced {
			c.Fail("unbalanced brackets or superfluous commas are accepted: %s", d)
		}
		var got []string
		d.words(func(s string) {
			if s == "elsif" {
				// (used as a name)
				got = append(got, "else")
				s = "if"
			}
			got = append(got, s)
		})
		sort.Strings(want)
		sort.Strings(got)
		if x, y := minus(want, got), minus(got, want); len(x)+len(y) > 0 {
			c.Fail("the source has %q which isn't in the AST, and the AST has %q which isn't in the source:\n%s", x, y, d)
		}
		c.Count("changed source accepted, and accounted for")
		c.Seen(src)
	}
}

// minus returns the elements of sorted list a that aren't in sorted list b
func minus(a, b []string) (d []string) {
	j := 0
	for _, s := range a {
		for j < len(b) && b[j] < s {
			j++
		}
		if j < len(b) && b[j] == s {
			j++
		} else {
			d = append(d, s)
		}
	}
	return
}

var closers2 = map[string]bool{")": true, "]": true, "}": true, "|>": true, "|>>": true}

func init() {
	register(&Prop{ID: "C18", Quick: 250000, Thorough: 10000000, Run: runC18,
		Rule: "distinct malformed sources"})
}

// site is a token of a program in front of which something can be inserted
type site struct {
	t    *Tok
	open []string // the brackets that are open there
	hd   bool     // in a heredoc
}

var closerOf = map[string]string{"(": ")", "[": "]", "{": "}", "${": "}", "<|": "|>", "<<|": "|>>"}

// sites returns the tokens that can be preceded by a blank and another token
func sites(toks []*Tok, hd bool, open []string) (ss []site) {
	for i, t := range toks {
		// A keyword is the name of an attribute only if '=>' is known to follow
		kw := (t.S == "=>" || t.S == "+>") && i > 1 && toks[i-2].S == "{" && len(toks[i-1].S) > 1 && isW(toks[i-1].S[0])
		if !t.RawText && t.Sp != spNone && t.S != "" && !strings.HasPrefix(t.S, "<%") && !kw {
			ss = append(ss, site{t, append([]string(nil), open...), hd})
		}
		if t.Hd != nil {
			ss = append(ss, sites(t.Hd.Toks, true, nil)...)
		}
		if t.RawText && t.S != "${" {
			continue
		}
		if _, ok := closerOf[t.S]; ok {
			open = append(open[:len(open):len(open)], t.S)
		} else if n := len(open); n > 0 && closerOf[open[n-1]] == t.S {
			open = open[:n-1]
		}
	}
	return
}

func hasHeredoc(toks []*Tok) bool {
	for _, t := range toks {
		if t.Hd != nil {
			return true
		}
	}
	return false
}

type lexeme struct {
	s, code string
	arg     string
}

var badLexemes = []lexeme{
	{"^", "LEX_UNEXPECTED_TOKEN", "token=^"},
	{"&", "LEX_UNEXPECTED_TOKEN", "token=&"},
	{`\`, "LEX_UNEXPECTED_TOKEN", `token=\`},
	{"é", "LEX_UNEXPECTED_TOKEN", "token=é"},
	{"日x", "LEX_UNEXPECTED_TOKEN", "token=日"},
	{"\x01", "LEX_UNEXPECTED_TOKEN", "token=\x01"},
	{"08", "LEX_OCTALDIGIT_EXPECTED", ""},
	{"0x", "LEX_HEXDIGIT_EXPECTED", ""},
	{"0xg1", "LEX_HEXDIGIT_EXPECTED", ""},
	{"1e", "LEX_DIGIT_EXPECTED", ""},
	{"12.x", "LEX_DIGIT_EXPECTED", ""},
	{"9a", "LEX_DIGIT_EXPECTED", ""},
	{"9223372036854775808", "LEX_NUMBER_OUT_OF_RANGE", "number=9223372036854775808"},
	{"0xFFFFFFFFFFFFFFFF", "LEX_NUMBER_OUT_OF_RANGE", "number=0xFFFFFFFFFFFFFFFF"},
	{":: 1", "LEX_DOUBLE_COLON_NOT_FOLLOWED_BY_NAME", ""},
	{"a::", "LEX_INVALID_NAME", ""},
	{"::b::C", "LEX_INVALID_NAME", ""},
	{"A::", "LEX_INVALID_TYPE_NAME", ""},
	{"A::b", "LEX_INVALID_TYPE_NAME", ""},
	{"$::", "LEX_INVALID_VARIABLE_NAME", ""},
	{"$a::", "LEX_INVALID_VARIABLE_NAME", ""},
}

var truncLexemes = []lexeme{
	{"'abc", "LEX_UNTERMINATED_STRING", "string_type=single"},
	{"'a\n}\\'", "LEX_UNTERMINATED_STRING", "string_type=single"},
	{"\"abc", "LEX_UNTERMINATED_STRING", "string_type=double"},
	{"\"a ${x} {\n\\\"", "LEX_UNTERMINATED_STRING", "string_type=double"},
	{"/* abc\n }", "LEX_UNTERMINATED_COMMENT", ""},
	{"@(END", "LEX_HEREDOC_DECL_UNTERMINATED", ""},
	{"@(END)", "LEX_HEREDOC_UNTERMINATED", ""},
	{"@(\"END\":json/t)\n text\n | EN\n", "LEX_HEREDOC_UNTERMINATED", ""},
}

// badLexeme inserts something that isn't a token in front of a token of a valid program. Everything before it is right, so the issue must be
// the one about the lexeme
func badLexeme(c *Case) {
	r := c.R
	f := r.Pick(allFocuses)
	cfg := randomCfg(r, f)
	cfg.Budget = 1 + r.N(60)
	p := genProg(c, cfg, r.P(15))
	if p == nil {
		return
	}
	ss := sites(p.G.toks, false, nil)
	if len(ss) == 0 {
		return
	}
	for n := 0; n < 3; n++ {
		s := ss[r.N(len(ss))]
		var l lexeme
		var src string
		if !p.Epp && r.P(20) && !hasHeredoc(p.G.toks) {
			l = truncLexemes[r.N(len(truncLexemes))]
			src = p.Src[:s.t.Off] + " " + l.s
		} else {
			l = badLexemes[r.N(len(badLexemes))]
			src = p.Src[:s.t.Off] + " " + l.s + " " + p.Src[s.t.Off:]
		}
		line := 1 + strings.Count(src[:s.t.Off], "\n")
		c.Info = []string{cfg.String(), fmt.Sprintf("epp=%v", p.Epp), fmt.Sprintf("lexeme: %q, expected: %s on line %d", l.s, l.code, line)}
		m := malformed{src: l.s, code: l.code}
		if l.arg != "" {
			k := strings.IndexByte(l.arg, '=')
			m.args = map[string]string{l.arg[:k]: l.arg[k+1:]}
		}
		i := c.mustReject(src, p.Opts, "invalid token "+l.s)
		c.checkIssue(i, m, line)
		c.Count("lexeme " + l.code)
		c.Seen(src)
	}
}

// badByte inserts a NUL or invalid UTF-8 anywhere in a valid program. Nothing before it is wrong, so the issue is about it and located exactly there
func badByte(c *Case) {
	r := c.R
	f := r.Pick(allFocuses)
	cfg := randomCfg(r, f)
	cfg.Budget = 1 + r.N(60)
	p := genProg(c, cfg, r.P(15))
	if p == nil || strings.IndexByte(p.Src, 0) >= 0 || !utf8.ValidString(p.Src) {
		return
	}
	for n := 0; n < 3; n++ {
		at := r.N(len(p.Src) + 1)
		for at < len(p.Src) && !utf8.RuneStart(p.Src[at]) {
			at++
		}
		bad := r.PickS("\x00", "\xff", "\xc3", "\xe6\x97", "\xed\xa0\x80", "\xc0\x80", "\xf4\x90\x80\x80", "\x80")
		src := p.Src[:at] + bad + p.Src[at:]
		c.Src = src
		c.Info = []string{cfg.String(), fmt.Sprintf("epp=%v", p.Epp), fmt.Sprintf("bytes: %q, at %d", bad, at)}
		if bad == "\x00" {
			line, pos := linePos(src, at)
			i := c.mustReject(src, p.Opts, "NUL")
			c.checkIssue(i, malformed{code: "LEX_UNEXPECTED_TOKEN", args: map[string]string{"token": `\0`}}, line)
			if a := i.Location().Pos(); a != pos {
				c.Fail("the issue is in column %d, expected %d: %s", a, pos, i)
			}
		} else {
			e, err := parser.CreateParser(p.Opts...).Parse("f.pp", src, false)
			if err == nil || e != nil {
				c.Fail("source with invalid UTF-8 is accepted")
			}
			// This isn't an issue, but tells where in the source it is
			if ns := numbers(err.Error()); len(ns) == 0 || ns[len(ns)-1] != fmt.Sprint(at) {
				c.Fail("the error doesn't tell that the source is invalid at offset %d: %s", at, err)
			}
		}
		c.Count(fmt.Sprintf("bytes %q", bad))
		c.Seen(src)
	}
}

var digits = regexp.MustCompile("[0-9]+")

func numbers(s string) []string { return digits.FindAllString(s, -1) }

var closers = []string{")", "]", "}", "|>", "|>>"}

// wrongToken inserts a bracket that doesn't close what is open, or ends the source where something is open. It must be rejected, and the issue
// is about that bracket
func wrongToken(c *Case) {
	r := c.R
	f := r.Pick(allFocuses)
	cfg := randomCfg(r, f)
	cfg.Budget = 1 + r.N(60)
	p := genProg(c, cfg, r.P(10))
	if p == nil {
		return
	}
	ss := sites(p.G.toks, false, nil)
	if len(ss) == 0 {
		return
	}
	trunc := !p.Epp && !hasHeredoc(p.G.toks)
	for n := 0; n < 3; n++ {
		s := ss[r.N(len(ss))]
		x := r.Pick(closers)
		src := p.Src[:s.t.Off] + " " + x + " " + p.Src[s.t.Off:]
		line := 1 + strings.Count(p.Src[:s.t.Off], "\n")
		what := "unbalanced"
		if trunc && r.P(40) {
			x = "EOF"
			what = "truncated"
			if len(s.open) == 0 {
				continue
			}
			src = p.Src[:s.t.Off]
			if r.P(30) {
				ws := r.PickS(" ", "\n", "\n\n# x\n", "\r\n\t/* \n */", " # it's")
				src += ws
			}
		} else if k := len(s.open); k > 0 && closerOf[s.open[k-1]] == x {
			continue
		}
		c.Info = []string{cfg.String(), fmt.Sprintf("epp=%v", p.Epp), fmt.Sprintf("%s: %s on line %d at %d", what, x, line, s.t.Off)}
		i := c.mustReject(src, p.Opts, what+" "+x)
		if x == "EOF" {
			line = 1 + strings.Count(src, "\n")
		}
		innermost := ""
		if k := len(s.open); k > 0 {
			innermost = s.open[k-1]
		}
		switch code := string(i.Code()); {
		case innermost == "{" && (code == "PARSE_RESOURCE_WITHOUT_TITLE" || code == "PARSE_EXPECTED_TITLE" || code == "PARSE_INVALID_RESOURCE" || code == "PARSE_EXPECTED_ATTRIBUTE_NAME" || code == "PARSE_INVALID_ATTRIBUTE"):
			// Located at what should have been a title or type
			if i.Location().Line() > line {
				c.Fail("the issue is on line %d: %s", i.Location().Line(), i)
			}
		default:
			if i.Location().Line() != line {
				c.Fail("the issue is on line %d: %s", i.Location().Line(), i)
			}
			if a := i.Argument("token"); a != nil && a != x {
				c.Fail("the issue is about '%v': %s", a, i)
			}
			if a := i.Argument("actual"); a != nil && a != x {
				c.Fail("the issue is about '%v': %s", a, i)
			}
		}
		c.Count(what + " " + string(i.Code()))
		c.Seen(src)
	}
}
