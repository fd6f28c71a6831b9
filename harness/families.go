package main

import (
	"fmt"
	"strings"

	"github.com/lyraproj/puppet-parser/parser"
)

// A family is a construct that is repeated or nested
type family struct {
	name             string
	pre, open        string
	core, close, suf string
	epp, wf          bool
	num              bool // '%d' in open and close is replaced by the number of the repetition
}

var families = []family{
	{name: "paren", open: "(", core: "1", close: ")"},
	{name: "list", open: "[ ", core: "1", close: "]"},
	{name: "list of two", open: "[1, ", core: "1", close: ", 2]"},
	{name: "hash", pre: "$x = ", open: "{a=>", core: "1", close: "}"},
	{name: "hash key", pre: "$x = ", open: "{", core: "1", close: "=>1}"},
	{name: "hash after hash", pre: "$x = ", open: "{a=>1,b=>", core: "1", close: ",c=>1}"},
	{name: "not", open: "!", core: "1"},
	{name: "minus", open: "-(", core: "$a", close: ")"},
	{name: "unfold", open: "*", core: "$a"},
	{name: "if", open: "if 1 {", close: "}"},
	{name: "if in test", open: "if (", core: "1", close: ") {}"},
	{name: "if else", open: "if 1 {} else {", close: "}"},
	{name: "elsif", pre: "if 1 {}", open: "elsif 1 {}"},
	{name: "unless", open: "unless 1 {", close: "}"},
	{name: "string", open: "\"${", core: "1", close: "}\""},
	{name: "string with text", open: "\"a ${", core: "$b", close: "} c\""},
	{name: "string with two", open: "\"${a}${", core: "$b", close: "}${c}\""},
	{name: "add", pre: "1", open: " + 1"},
	{name: "mixed operators", pre: "1", open: " + 1 * 2 == 3 and 4 or 5 in 6"},
	{name: "relationship", pre: "A[1]", open: "->A[1]"},
	{name: "assign", open: "$a = ", core: "1"},
	{name: "assign list", open: "[$a, $b] = ", core: "$c"},
	{name: "lambda", open: "a() || {", close: "}"},
	{name: "lambda method", open: "$x.each |$y| {", close: "}"},
	{name: "lambda parameter", open: "a() |$b = ", core: "1", close: "| {}"},
	{name: "dot", pre: "$a", open: ".b"},
	{name: "access", pre: "$a", open: "[1]"},
	{name: "access nested", open: "$a[", core: "1", close: "]"},
	{name: "call chain", pre: "$a", open: "(1)"},
	{name: "call", open: "f(", core: "1", close: ")"},
	{name: "call with hash", open: "f(a => ", core: "1", close: ")"},
	{name: "method", open: "$a.b(", core: "1", close: ")"},
	{name: "statement call", open: "notice f(", core: "1", close: ")"},
	{name: "statement call hash", open: "notice { a => [", core: "1", close: "] }"},
	{name: "keyword call", pre: "f(", open: "type(", close: ")", suf: ")"},
	{name: "class", open: "class a {", close: "}"},
	{name: "define", open: "define a {", close: "}"},
	{name: "function", open: "function a(){", close: "}"},
	{name: "node", open: "node a {", close: "}"},
	{name: "plan", open: "plan a {", close: "}"},
	{name: "parameter", open: "function a($a = a() |$b = ", core: "1", close: "| {}) {}"},
	{name: "case", open: "case 1 { 1: {", close: "}}"},
	{name: "case test", open: "case (", core: "1", close: ") {1: {}}"},
	{name: "case value", open: "case 1 { (", core: "1", close: "): {}}"},
	{name: "case options", pre: "case 1 {", open: "1: {}", close: "", suf: "}"},
	{name: "selector", open: "1?{1=>", core: "1", close: "}"},
	{name: "selector key", open: "1?{(", core: "1", close: ")=>1}"},
	{name: "selector chain", pre: "1", open: "?{1=>1}"},
	{name: "selector single", open: "1?1=>", core: "1"},
	{name: "resource", open: "file{'a': x=>", core: "1", close: "}"},
	{name: "virtual resource", open: "@file{'a': x=>", core: "1", close: "}"},
	{name: "resource title", open: "file{[", core: "1", close: "]:}"},
	{name: "resource title paren", open: "file{(", core: "1", close: "):}"},
	{name: "resource title call", open: "file{f(", core: "1", close: "):}"},
	{name: "resource title string", open: "file{\"${", core: "1", close: "}\":}"},
	{name: "resource title selector", open: "file{$a?{1=>", core: "1", close: "}:}"},
	{name: "resource title hash", open: "file{{a=>", core: "1", close: "}:}"},
	{name: "resource in title", open: "file{", core: "1", close: ":}"},
	{name: "resource lambda title", open: "file{f() |$x| {", core: "1", close: "}:}"},
	{name: "resource bodies", pre: "file{", open: "'a': x=>1;", suf: "}"},
	{name: "resource attributes", pre: "file{'a': ", open: "x=>1,", suf: "}"},
	{name: "defaults", open: "File{a=>", core: "1", close: "}"},
	{name: "defaults of access", open: "File[", core: "1", close: "]{a=>1}"},
	{name: "override", open: "File['a']{a=>", core: "1", close: "}"},
	{name: "braces", open: "a{", core: "1", close: "}"},
	{name: "braces 2", open: "{", core: "1", close: "}"},
	{name: "collector", open: "A<|a==", core: "1", close: "|>"},
	{name: "collector operations", pre: "A<||>{", open: "a=>1,", suf: "}"},
	{name: "type alias", pre: "type A = ", open: "A[", core: "1", close: "]"},
	{name: "type object", pre: "type A = {", open: "a=>Object[{", close: "}]", suf: "}"},
	{name: "type definition", open: "type A inherits B { a => f() |$x| {", close: "} }"},
	{name: "mapping", open: "A produces B{a=>f() || {", close: "}}"},
	{name: "site", open: "site {", close: "}"},
	{name: "application", open: "application a {", close: "}"},
	{name: "block comments", open: "/**/"},
	{name: "comments", open: "#\n"},
	{name: "line breaks", open: "\n"},
	{name: "spaces", open: " "},
	{name: "semicolons", open: "1;"},
	{name: "statements", open: "$x = 1\n"},
	{name: "names", open: "a\n"},
	{name: "long name", pre: "a", open: "b"},
	{name: "qualified name", pre: "a", open: "::b"},
	{name: "type name", pre: "A", open: "::B"},
	{name: "variable", pre: "$a", open: "::b"},
	{name: "digits", pre: "0.1", open: "1"},
	{name: "list elements", pre: "[", open: "1,", suf: "]"},
	{name: "hash elements", pre: "$x = {", open: "a=>1,", suf: "}"},
	{name: "arguments", pre: "f(", open: "1,", suf: ")"},
	{name: "keyed arguments", pre: "f(", open: "a=>1,", suf: ")"},
	{name: "parameters", pre: "class a(", open: "$x%d,", suf: "){}", num: true},
	{name: "interpolations", pre: "\"", open: "${a}", suf: "\""},
	{name: "variables in string", pre: "\"", open: "$a ", suf: "\""},
	{name: "escapes", pre: "'", open: "\\'", suf: "'"},
	{name: "escapes 2", pre: "\"", open: "\\n", suf: "\""},
	{name: "unicode escapes", pre: "\"", open: "\\u{1F389}", suf: "\""},
	{name: "text", pre: "\"", open: "é", suf: "\""},
	{name: "regexp", pre: "$x = /", open: "a\\/", suf: "/"},
	{name: "regexps", pre: "[", open: "/a/,", suf: "]"},
	{name: "slashes", pre: "$x", open: " / 2"},
	{name: "heredocs open", open: "@(a)\n"},
	{name: "heredocs", open: "@(a)\n|a\n"},
	{name: "heredocs on a line", pre: "[", open: "@(a%d),", suf: "]\n", num: true},
	{name: "heredoc interpolations", pre: "@(\"a\")\n", open: "${a}\n", suf: "|a\n"},
	{name: "heredoc text", pre: "@(a)\n", open: "a b\n", suf: "|a\n"},
	{name: "heredoc escapes", pre: "@(\"a\"/)\n", open: "\\n", suf: "\n|a\n"},
	{name: "heredoc in heredoc", open: "@(\"a%d\")\n${", num: true},
	{name: "heredoc almost ends", pre: "@(a)\n", open: "| aa\n|- b\n", suf: "|a\n"},
	{name: "epp comments", open: "<%# %>", epp: true},
	{name: "epp tags", open: "<% %>", epp: true},
	{name: "epp render", open: "<%= 1 %>", epp: true},
	{name: "epp text", open: "text <", epp: true},
	{name: "epp escapes", open: "<%% %%>", epp: true},
	{name: "epp blocks", open: "<% if 1 { %>", core: "x", close: "<% } %>", epp: true},
	{name: "epp trim", open: "<%- 1 -%>\n", epp: true},
	{name: "epp spaces", open: " ", suf: "<%- 1 -%>", epp: true},
	{name: "epp line breaks", open: "\n", suf: "<% 1 %>", epp: true},
	{name: "workflow", open: "workflow a {} {", close: "}", wf: true},
	{name: "actions", pre: "workflow a {} {", open: "action b {} {}", suf: "}", wf: true},
	{name: "resource state", pre: "resource a {}{a=>", open: "[ ", close: "]", suf: "}", wf: true},
	{name: "resource state calls", pre: "resource a {}{a=>", open: "f(", core: "$x", close: ")", suf: "}", wf: true},
	{name: "step properties", pre: "action a {", open: "type => A,", suf: "} {}", wf: true},
	{name: "if before statement", open: "if 1 {", core: "1", close: "} 1"},
	{name: "unless before statement", open: "unless 1 {", core: "1", close: "} else {} 1"},
	{name: "case before statement", open: "case 1 {1: {", core: "1", close: "}} $a"},
	{name: "elsif chains", open: "if 1 {} elsif 2 {", core: "$a", close: "} else {} 1"},
	{name: "lambda before statement", open: "f() || {", core: "1", close: "} 1"},
	{name: "class before statement", open: "class a(Integer $x = 1, String $y = 2) {", close: "} notice 1"},
	{name: "statement before if", open: "1 if 1 {", core: "1", close: "}"},
	{name: "list with list", open: "[[1, 2], ", core: "1", close: ", [3]]"},
	{name: "hash with keys", pre: "$x = ", open: "{a => 1, b => 2, c => ", core: "1", close: ", d => 3}"},
	{name: "statements with hash", open: "$a = {a => 1, b => {c => 2, d => [1, 2]}}\n"},
	{name: "resources", open: "file { '/a': ensure => present, mode => '0644', }\n"},
	{name: "classes", open: "class a%d($a, $b = 1) inherits b { notice $a }\n", num: true},
	{name: "words", open: "if "},
	{name: "open class", open: "class a("},
	{name: "quotes", open: "\""},
	{name: "single quotes", open: "'"},
	{name: "dollars", pre: "\"", open: "$"},
	{name: "backslashes", pre: "\"", open: "\\"},
	{name: "pipes", pre: "f() ", open: "|$a"},
	{name: "at", open: "@"},
	{name: "questions", pre: "$a", open: " ? "},
	{name: "commas", open: ","},
	{name: "colons", open: ":"},
	{name: "dots", pre: "$a", open: ".a("},
	{name: "random closers", open: ")]}"},
}

// build creates the source where the construct is repeated n times. closers is the number of repetitions of the end
func (f *family) build(n, closers int) string {
	b := &strings.Builder{}
	b.WriteString(f.pre)
	for i := 0; i < n; i++ {
		if f.num {
			fmt.Fprintf(b, f.open, i)
		} else {
			b.WriteString(f.open)
		}
	}
	b.WriteString(f.core)
	for i := 0; i < closers; i++ {
		b.WriteString(f.close)
	}
	if closers == n {
		b.WriteString(f.suf)
		if f.name == "heredocs on a line" {
			for i := 0; i < n; i++ {
				fmt.Fprintf(b, "x\n|a%d\n", i)
			}
		}
	}
	return b.String()
}

func (f *family) unit() int { return len(f.open) + len(f.close) }

func (f *family) options() []parser.Option {
	opts := []parser.Option{parser.TasksEnabled}
	if f.wf {
		opts = append(opts, parser.WorkflowEnabled)
	}
	if f.epp {
		opts = append(opts, parser.EppMode)
	}
	return opts
}
