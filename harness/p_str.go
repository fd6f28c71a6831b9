package main

import (
	"fmt"
	"strings"
	"unicode/utf8"

	"github.com/lyraproj/puppet-parser/parser"
)

// --- C06. Escapes ---

// decodeString is the reference for the value of the text between quotes. It returns ok=false if the string must be rejected,
// and skip=true if the text contains an interpolation or a code point that doesn't exist
func decodeString(q byte, s string, hex bool) (val string, ok, skip bool) {
	b := &strings.Builder{}
	for i := 0; i < len(s); {
		ch := s[i]
		if ch == '$' && q == '"' {
			if i+1 < len(s) {
				n := s[i+1]
				if n == '{' || n == ':' || n >= 'a' && n <= 'z' || n >= '0' && n <= '9' {
					return "", false, true
				}
			}
			return "", false, false
		}
		if ch != '\\' || q == '`' {
			b.WriteByte(ch)
			i++
			continue
		}
		if i+1 >= len(s) {
			return "", false, false // escapes the quote
		}
		n := s[i+1]
		i += 2
		if q == '\'' {
			switch n {
			case '\'', '\\':
				b.WriteByte(n)
			default:
				b.WriteByte('\\')
				i--
			}
			continue
		}
		switch n {
		case '\\', '"', '\'', '$':
			b.WriteByte(n)
		case 'n':
			b.WriteByte('\n')
		case 'r':
			b.WriteByte('\r')
		case 't':
			b.WriteByte('\t')
		case 's':
			b.WriteByte(' ')
		case 'u':
			rest := s[i:]
			digs := ""
			if strings.HasPrefix(rest, "{") {
				j := strings.IndexByte(rest, '}')
				if j < 0 {
					return "", false, false
				}
				digs = rest[1:j]
				if len(digs) < 2 || len(digs) > 6 {
					return "", false, false
				}
				i += j + 1
			} else {
				if len(rest) < 4 {
					return "", false, false
				}
				digs = rest[:4]
				i += 4
			}
			v, good := hexValue(digs)
			if !good {
				return "", false, false
			}
			if v > 0x10ffff || v >= 0xd800 && v < 0xe000 {
				skip = true
			}
			b.WriteRune(rune(v))
		case 'x':
			if !hex {
				b.WriteString(`\x`)
				continue
			}
			if len(s)-i < 2 {
				return "", false, false
			}
			v, good := hexValue(s[i : i+2])
			if !good {
				return "", false, false
			}
			b.WriteByte(byte(v))
			i += 2
		default:
			b.WriteByte('\\')
			i--
		}
	}
	return b.String(), true, skip
}

func hexValue(s string) (v int, ok bool) {
	for _, c := range s {
		switch {
		case c >= '0' && c <= '9':
			v = v*16 + int(c-'0')
		case c >= 'a' && c <= 'f':
			v = v*16 + int(c-'a') + 10
		case c >= 'A' && c <= 'F':
			v = v*16 + int(c-'A') + 10
		default:
			return 0, false
		}
	}
	return v, true
}

var rawPieces = []string{`\`, `\`, `\`, `\\`, `'`, `"`, "`", "$", "u", "x", "n", "r", "t", "s", "0", "4", "1", "a", "F", "g", "{", "}", "é", "日", "🎉", "\n", "\r\n", " ", "/", "q", "\\u", "\\x", "\\u{", "0041", "e9", "1F389", "\t", "#", "<%", "\u2028", "\\$", "\\n", "\u00a0"}

func rawContent(r *Rng, q byte) string {
	b := &strings.Builder{}
	n := r.N(8)
	if r.P(5) {
		n = r.N(60)
	}
	for i := 0; i < n; i++ {
		b.WriteString(r.Pick(rawPieces))
	}
	s := b.String()
	if r.N(250) == 0 && len(s) > 0 {
		// A long string
		s = strings.Repeat(s, 1+pumpSize(r, 70000)/len(s))
		s += r.Pick(rawPieces) + r.Pick(rawPieces)
	}
	// remove quotes that aren't escaped
	o := &strings.Builder{}
	esc := false
	for i := 0; i < len(s); i++ {
		if esc && q != '`' {
			esc = false
			o.WriteByte(s[i])
			continue
		}
		if s[i] == q {
			continue
		}
		esc = s[i] == '\\'
		o.WriteByte(s[i])
	}
	return o.String()
}

type strContext struct {
	pre, suf string
	get      func(p *T) *T
}

var strContexts = []strContext{
	{"$x = ", "", func(p *T) *T { return stmt(p, 0).One("rhs") }},
	{"f(", ", 'x')", func(p *T) *T { return stmt(p, 0).Many("args")[0] }},
	{"[1,", "]", func(p *T) *T { return stmt(p, 0).Many("elements")[1] }},
	{"file{", ":}", func(p *T) *T { return stmt(p, 0).Many("bodies")[0].One("title") }},
	{"$x = {", " => 1}", func(p *T) *T { return stmt(p, 0).One("rhs").Many("entries")[0].One("key") }},
	{"'first' == ", " and \"last\"", func(p *T) *T { return stmt(p, 0).One("lhs").One("rhs") }},
	{"\"${[", "]}\"", func(p *T) *T { return stmt(p, 0).Many("segments")[0].One("expr").Many("elements")[0] }},
	{"$x =", "# it's a \"comment", func(p *T) *T { return stmt(p, 0).One("rhs") }},
}

func runC06(c *Case) {
	r := c.R
	if r.P(35) {
		structuralC06(c)
		return
	}
	for i := 0; i < 5; i++ {
		q := "'\"'\"`"[r.N(5)]
		hex, bt := r.P(50), q == '`' || r.P(30)
		content := rawContent(r, q)
		ctx := strContexts[r.N(len(strContexts))]
		src := ctx.pre + string(rune(q)) + content + string(rune(q)) + ctx.suf
		c.Src = src
		c.Info = []string{fmt.Sprintf("hex=%v backtick=%v", hex, bt)}
		val, ok, skip := decodeString(q, content, hex)
		if skip {
			continue
		}
		if !ok && strings.HasSuffix(content, `\`) && ctx.suf != "" {
			// The end quote might be escaped, and what follows could contain another
			continue
		}
		e, err := parser.CreateParser(Cfg{Hex: hex, Backtick: bt}.options(false)...).Parse("f.pp", src, false)
		if !ok {
			if err == nil {
				c.Fail("the string must be rejected, but is accepted as\n%s", Dump(e))
			}
			c.Count("string rejected")
			c.Seen(src)
			continue
		}
		if err != nil {
			c.Fail("valid string is rejected: %s", err)
		}
		var act *T
		func() {
			defer func() {
				if r := recover(); r != nil {
					c.Fail("not parsed into the expected form:\n%s", Dump(e))
				}
			}()
			act = ctx.get(Dump(e))
		}()
		if act.K != "String" || act.Str("value") != val {
			c.Fail("expected the string %q, got %s %q", val, act.K, act.Str("value"))
		}
		c.Count("string in " + string(rune(q)))
		if val != content {
			c.Count("string with decoded escape")
		}
		c.Seen(src)
	}
}

var structuralC06 = structural("strings", hasKind("String", "Concat"))

// --- C07. Interpolation ---

func runC07(c *Case) {
	r := c.R
	if r.P(65) {
		structuralC07(c)
		return
	}
	if r.P(40) {
		rawInterpolation(c)
		return
	}
	// The AST of an embedded expression is the same as that of the expression by itself
	cfg := randomCfg(r, "")
	cfg.NoHeredoc = true
	cfg.NoDefs = r.P(70)
	cfg.Budget = 1 + r.N(15)
	g := NewGen(r, cfg)
	g.inStr = 1
	t := g.expr(lvRel, true)
	_ = t
	src, ok := g.render(r, randomStyle(r), false)
	if !ok || strings.Contains(src, "\x00") || !utf8.ValidString(src) {
		return
	}
	if i := strings.LastIndexByte(src, '#'); i >= 0 && !strings.Contains(src[i:], "\n") {
		src += "\n" // might be a comment
	}
	c.Src = src
	c.Info = []string{cfg.String()}
	opts := cfg.options(false)
	e1, err := parser.CreateParser(opts...).Parse("f.pp", src, true)
	if err != nil {
		c.Fail("valid expression is rejected: %s", err)
	}
	pre, suf := "", ""
	if r.P(50) {
		pre = r.Pick([]string{"a ", "é🎉", `\"`, `\\`, "{", "x\n", "'", " # "})
	}
	if r.P(50) {
		suf = r.Pick([]string{" b", "}", "é", `\n`, "'", "[1]", ".foo", "::x", "#", " /* "})
	}
	s2 := `"` + pre + "${" + src + "}" + suf + `"`
	c.Src = s2
	e2, err := parser.CreateParser(opts...).Parse("f.pp", s2, true)
	if err != nil {
		c.Fail("the expression is rejected when it's interpolated: %s", err)
	}
	a := Dump(e2)
	n, at := 1, 0
	if pre != "" {
		n++
		at++
	}
	if suf != "" {
		n++
	}
	segs := a.Many("segments")
	if a.K != "Concat" || len(segs) != n || segs[at].K != "Text" {
		c.Fail("expected a string with %d segments, got\n%s", n, a)
	}
	exp := convLeading(Dump(e1), nil)
	if d := Diff(exp, segs[at].One("expr")); d != "" {
		c.Fail("the AST of the interpolated expression differs from that of the expression by itself. %s", d)
	}
	if pre != "" {
		want, _, _ := decodeString('"', pre, false)
		if segs[0].Str("value") != want {
			c.Fail("expected text %q, got %q", want, segs[0].Str("value"))
		}
	}
	if suf != "" {
		want, _, _ := decodeString('"', suf, false)
		if segs[n-1].Str("value") != want {
			c.Fail("expected text %q, got %q", want, segs[n-1].Str("value"))
		}
	}
	c.Count("embedded expression compared")
	c.Seen(s2)
}

var structuralC07 = structural("interp", hasKind("Concat"))

func init() {
	register(&Prop{ID: "C06", Quick: 200000, Thorough: 8000000, Run: runC06,
		Rule:        "strings of random pieces (backslashes, quotes, escapes, digits, multibyte characters, line breaks) in each kind of quotes and 8 contexts, compared with an independent decoder; " + genRule + "Non-trivial: a distinct source with a string",
		Assumptions: append([]string{"the value of a unicode escape for a code point that doesn't exist (surrogate, or above 10FFFF) is not checked"}, genAssumptions...)})
	register(&Prop{ID: "C07", Quick: 200000, Thorough: 8000000, Run: runC07,
		Rule:        "random expressions parsed by themselves and interpolated in a string; strings and heredocs of random pieces with '$', names, braces and escapes, compared with an independent decoder; " + genRule + "Non-trivial: a distinct source with an interpolated string",
		Assumptions: append([]string{"heredocs inside of interpolations are not generated"}, genAssumptions...)})
	register(&Prop{ID: "C08", Quick: 250000, Thorough: 8000000, Run: structural("heredoc", hasKind("Heredoc")),
		Rule: genRule + "Non-trivial: a distinct source with a heredoc", Assumptions: append([]string{"heredocs inside of interpolations are not generated"}, genAssumptions...)})
}
