package main

import (
	"strings"
	"unicode/utf8"

	"github.com/lyraproj/issue/issue"
	"github.com/lyraproj/puppet-parser/parser"
)

// C31. The lexer as such

// lexNames are the names of the kinds of tokens, as they are written in messages
var lexNames = map[string]string{rEOF: "EOF", rID: "identifier", rTN: "type name", rStr: "string literal", rInt: "integer literal", rFlt: "float literal", rBol: "boolean literal",
	rVar: "variable", rRX: "regexp", "\n(": "(", " [": "[", "?{": "{", "|end": "|"}

func lexName(kind string) string {
	if n, ok := lexNames[kind]; ok {
		return n
	}
	return strings.TrimPrefix(kind, rKW)
}

// lexIDs are the numbers of the kinds of tokens
var lexIDs map[string]int

// lexExamples are sources that end with a token of the kind
func lexExamples() map[string]string {
	m := map[string]string{rEOF: "", rID: "foo", rTN: "Foo", rStr: "'x'", rInt: "1", rFlt: "1.5", rBol: "true", rVar: "$x", rRX: "/x/", "\n(": "(", "(": "a(", " [": "[", "[": "a[", "?{": "?{", "{": "{", "|end": "| {", "|": "|", "/": "1/"}
	for _, op := range rOps {
		if _, ok := m[op]; !ok {
			m[op] = op
		}
	}
	for w := range rKeywords {
		if w != "plan" {
			m[rKW+w] = w
		}
	}
	return m
}

// learnTokens finds the number of each kind of token
func (c *Case) learnTokens() {
	ids := map[string]int{}
	kinds := map[int]string{}
	for k, src := range lexExamples() {
		c.Src = src
		want, reject, _ := refTokens(src)
		if reject != "" {
			panic("bad example " + src)
		}
		n := len(want) - 2
		if k == rEOF {
			n = 0
		}
		if k == "|end" {
			n = 0
		}
		if want[n].k != k {
			panic("bad example " + src + " gives " + want[n].k)
		}
		l := parser.NewSimpleLexer("f.pp", src)
		id := 0
		for i := 0; i <= n; i++ {
			id = l.NextToken()
		}
		if other, ok := kinds[id]; ok {
			c.Fail("the tokens %s and %s have the same number, %d", k, other, id)
		}
		ids[k] = id
		kinds[id] = k
		if kw := strings.HasPrefix(k, rKW); kw != parser.IsKeywordToken(id) {
			c.Fail("the token %s is a keyword: %v", k, !kw)
		}
	}
	lexIDs = ids
}

// lexSource makes a text for the lexer
func lexSource(r *Rng) string {
	dict := plainDictionary
	if r.P(40) {
		dict = dictionary
	}
	switch k := r.N(10); {
	case k < 4:
		return tokenSoup(r, dict)
	case k < 5:
		b := &strings.Builder{}
		for n := 1 + r.N(20); n > 0; n-- {
			b.WriteString(r.Pick(softToks))
			b.WriteString(r.PickS("", "", " ", "\n", "\t", " # c\n", "/* c */", "\r\n"))
		}
		return b.String()
	}
	cfg := Cfg{Focus: r.Pick([]string{"ops", "literals", "calls", "flow", "resources", "defs", "strings", "interp", "heredoc"}), NoHeredoc: r.P(50), Budget: 3 + r.N(25)}
	p := newProg(r, cfg, false)
	if p == nil {
		return "$x"
	}
	if r.P(50) {
		return mutate(r, p.Src, p.Src, dict)
	}
	return p.Src
}

// caught returns what the function panics with
func caught(f func()) (x interface{}) {
	defer func() { x = recover() }()
	f()
	return
}

func runC31(c *Case) {
	if lexIDs == nil {
		c.learnTokens()
	}
	r := c.R
	src := lexSource(r)
	c.Src = src
	if !utf8.ValidString(src) || strings.IndexByte(src, 0) >= 0 {
		return
	}
	want, reject, skip := refTokens(src)
	l := parser.NewSimpleLexer("f.pp", src)
	for i, t := range want {
		id := 0
		if x := caught(func() { id = l.NextToken() }); x != nil {
			c.Fail("token %d (%s at %d) isn't recognized: %v", i, t.k, t.off, x)
		}
		if id != lexIDs[t.k] {
			c.Fail("token %d, at %d, is %d, expected %d (%s)", i, t.off, id, lexIDs[t.k], t.k)
		}
		if l.CurrentToken() != id {
			c.Fail("token %d is %d, but the current token is %d", i, id, l.CurrentToken())
		}
		if x := caught(func() { l.AssertToken(id) }); x != nil {
			c.Fail("token %d is %d, but isn't asserted to be: %v", i, id, x)
		}
		c.Count("token " + t.k)
		if t.k == rStr && strings.HasPrefix(src[t.off:], "@(") {
			c.Count("heredocs")
		} else if t.k == rStr && src[t.off] == '"' && strings.Contains(src[t.off:t.end], "$") {
			c.Count("interpolations")
		}
	}
	if skip != "" {
		c.Count("lexed up to " + skip)
		c.Seen(src)
		return
	}
	if reject != "" {
		x := caught(func() { l.NextToken() })
		if x == nil {
			c.Fail("a token is found where there is none: %s", reject)
		}
		err, ok := x.(error)
		if !ok {
			c.Fail("the panic isn't an issue: %v", x)
		}
		if i, ok := err.(issue.Reported); ok {
			if !strings.HasPrefix(string(i.Code()), "LEX_") {
				c.Fail("the issue isn't lexical: %s", i)
			}
			if n := strings.Count(src, "\n") + 1; i.Location().Line() < 1 || i.Location().Line() > n || i.Location().File() != "f.pp" {
				c.Fail("the location of the issue isn't in the source: %s", i)
			}
		}
		c.Count("lexical error")
		c.Seen(src)
		return
	}
	for k := 0; k < 2; k++ {
		if id := l.NextToken(); id != lexIDs[rEOF] {
			c.Fail("token %d follows the end", id)
		}
	}
	c.Seen(src)

	// What's reported about a token
	last := want[r.N(len(want))]
	l = parser.NewSimpleLexer("f.pp", src)
	for _, t := range want {
		l.NextToken()
		if t.off == last.off {
			break
		}
	}
	line, _ := linePos(src, last.off)
	if r.P(50) {
		exp := want[r.N(len(want))].k
		if exp != last.k {
			i, ok := caught(func() { l.AssertToken(lexIDs[exp]) }).(issue.Reported)
			if !ok || i.Code() != "PARSE_EXPECTED_TOKEN" || i.Argument("expected") != lexName(exp) || i.Argument("actual") != lexName(last.k) || i.Location().Line() != line {
				c.Fail("token %s at line %d is asserted to be %s, and the issue is '%v'", last.k, line, exp, i)
			}
			c.Count("expected token")
		}
	} else {
		i, ok := caught(l.SyntaxError).(issue.Reported)
		if !ok || i.Code() != "LEX_UNEXPECTED_TOKEN" || i.Argument("token") != lexName(last.k) {
			c.Fail("a syntax error at token %s gives '%v'", last.k, i)
		}
		c.Count("syntax error")
	}

	// Continue from elsewhere
	if strings.Contains(src, "@(") {
		return // the position of the text isn't known
	}
	k := r.N(len(want))
	if t := want[k]; k > 0 && t.k != rEOF && strings.IndexByte("/({[|", src[t.off]) < 0 {
		l.SetPos(want[k-1].end)
		if id := l.NextToken(); id != lexIDs[t.k] {
			c.Fail("after the position is set to %d the next token is %d, expected %d (%s)", want[k-1].end, id, lexIDs[t.k], t.k)
		}
		c.Count("position set")
	}
}

func init() {
	register(&Prop{ID: "C31", Quick: 250000, Thorough: 8000000, Run: runC31,
		Rule: "sources that are sequences of random tokens, generated programs, or randomly changed programs are read by the stand-alone lexer. The number of each token must be that of the kind of token that the reference lexer (refparse.go) finds, " +
			"all kinds have different numbers, and only keywords are keywords; what isn't a token gives a lexical issue; tokens are asserted, syntax errors raised, and positions set. Strings and heredocs are one token, also with interpolations. Non-trivial: a distinct source",
		Assumptions: []string{"the reference lexer (refparse.go) is the specification of the tokens"},
	})
}
