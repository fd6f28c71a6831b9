package main

import (
	"strings"
)

// unit is a piece of string source and the text that it denotes
type unit struct{ src, val string }

var plainUnits = []string{"a", "b", "xyz", " ", "  ", "0", "9", "hello world", "-", ":", "::", "{", "}", "}}", "(", ")", "[x]", "]", ".", ".foo", "(1)", "#", "# no", "/* no */", "/", "//", "=>", "@(X)", "<%", "%>",
	"é", "日本", "🎉", "\u00a0", "%s", "%!d", "<", ">", "&", "|", "@", "`", ",", ";", "\t", "undef", "\u2028", "\ufffd"}

func (g *Gen) plain() unit {
	s := g.r.Pick(plainUnits)
	return unit{s, s}
}

// sqUnit is a unit of a single quoted string
func (g *Gen) sqUnit() unit {
	r := g.r
	switch r.N(12) {
	case 0:
		return unit{`\'`, `'`}
	case 1:
		return unit{`\\`, `\`}
	case 2:
		s := r.Pick([]string{`\n`, `\t`, `\$`, `\"`, `\x`, `\u0041`, `\é`, `\ `, `\s`, `\/`, "\\`"})
		return unit{s, s}
	case 3:
		s := r.Pick([]string{`$`, `$x`, `${x}`, `"`, `""`, `$$`})
		return unit{s, s}
	case 4:
		if g.noNL == 0 && r.P(30) {
			return r.pickUnit(unit{"\n", "\n"}, unit{"\r\n", "\r\n"}, unit{"\\\n", "\\\n"}, unit{"\n\n  ", "\n\n  "})
		}
	}
	return g.plain()
}

func (r *Rng) pickUnit(us ...unit) unit { return us[r.N(len(us))] }

func utf8hex(cp rune) string { return string(cp) }

// dqUnit is a unit of a double quoted string. It never starts an interpolation
func (g *Gen) dqUnit() unit {
	r := g.r
	switch r.N(13) {
	case 0:
		return unit{`\"`, `"`}
	case 1:
		return r.pickUnit(unit{`\\`, `\`}, unit{`\'`, `'`}, unit{`\$`, `$`}, unit{`\${x}`, `${x}`}, unit{`\$x`, `$x`}, unit{`\\\$y`, `\$y`})
	case 2:
		return r.pickUnit(unit{`\n`, "\n"}, unit{`\r`, "\r"}, unit{`\t`, "\t"}, unit{`\s`, " "})
	case 3:
		// not escapes
		s := r.Pick([]string{`\q`, `\d`, `\ `, `\é`, `\/`, `\{`, `\a`, `\0`, `\(`, "\\`", `\日`, `\N`, `\U0041`})
		return unit{s, s}
	case 4:
		cp := []rune{0x41, 0xe9, 0x20, 0x22, 0x24, 0x5c, 0x3042, 0x7f, 0x9, 0xfffd, 0x7ff, 0x800, 0xffff}[r.N(13)]
		if r.P(30) {
			cp = rune(r.N(0xd800))
		}
		g.count("unicode escape 4")
		h := hex4(cp, r.P(50))
		return unit{`\u` + h, utf8hex(cp)}
	case 5:
		cp := []rune{0x41, 0x1f600, 0x10ffff, 0xe9, 0x10000, 0x5c, 0x24}[r.N(7)]
		if r.P(30) {
			cp = rune(0xe000 + r.N(0x10ffff-0xe000+1))
		}
		g.count("unicode escape braces")
		h := strings.TrimLeft(hexN(cp, r.P(50)), "0")
		for len(h) < 2 {
			h = "0" + h
		}
		for len(h) < 6 && r.P(20) {
			h = "0" + h
		}
		return unit{`\u{` + h + `}`, utf8hex(cp)}
	case 6:
		b := byte(r.N(128))
		if r.P(20) {
			b = byte(r.N(256))
		}
		src := `\x` + hexB(b, r.P(50))
		if g.cfg.Hex {
			g.count("hex escape")
			return unit{src, string([]byte{b})}
		}
		return unit{src, src}
	case 7:
		return unit{"'", "'"}
	case 8:
		if g.noNL == 0 && r.P(30) {
			return r.pickUnit(unit{"\n", "\n"}, unit{"\r\n", "\r\n"}, unit{"\\\n", "\\\n"}, unit{"\n\n  ", "\n\n  "})
		}
	}
	return g.plain()
}

const lhex = "0123456789abcdef"
const uhex = "0123456789ABCDEF"

func hexDigits(v uint32, n int, up bool) string {
	d := lhex
	if up {
		d = uhex
	}
	b := make([]byte, n)
	for i := n - 1; i >= 0; i-- {
		b[i] = d[v&15]
		v >>= 4
	}
	return string(b)
}
func hex4(c rune, up bool) string { return hexDigits(uint32(c), 4, up) }
func hexN(c rune, up bool) string { return hexDigits(uint32(c), 6, up) }
func hexB(b byte, up bool) string { return hexDigits(uint32(b), 2, up) }

func (g *Gen) units(n int, f func() unit) (src, val string) {
	for i := 0; i < n; i++ {
		u := f()
		src += u.src
		val += u.val
	}
	return
}

func (g *Gen) strLen() int {
	n := g.small(8)
	if g.r.P(1) {
		n = g.r.N(60)
	}
	return n
}

// simpleString generates a string without interpolation
func (g *Gen) simpleString() *T {
	r := g.r
	n := g.node("String")
	var src, val string
	x := r.N(10)
	if g.cfg.Backtick && x == 9 {
		for i := g.strLen(); i > 0; i-- {
			s := r.Pick([]string{"a", `\`, `'`, `"`, "$x", "${y}", `\n`, "é", "日", " ", "#", "{", "}", `\\`})
			src += s
		}
		val = src
		src = "`" + src + "`"
		g.count("string `")
	} else if x < 5 {
		src, val = g.units(g.strLen(), g.sqUnit)
		src = "'" + src + "'"
		g.count("string '")
	} else {
		src, val = g.units(g.strLen(), g.dqUnit)
		src = `"` + src + `"`
		g.count(`string "`)
	}
	n.A = attrs(str("value", val))
	g.emit(&Tok{S: src, Multi: strings.Contains(src, "\n")})
	return g.done(n)
}

// extendsName returns true when the text, placed directly after an interpolated variable, would become part of its name
func extendsName(s string) bool {
	if s == "" {
		return false
	}
	return isW(s[0]) || s[0] == ':'
}

// convLeading turns a leading name of an interpolated expression into a variable.
func convLeading(e *T, dollar *Tok) *T {
	cp := func(fs ...Field) *T {
		c := *e
		c.first, c.dOff, c.dEnd = dollar, 0, 0
		c.F = fs
		return &c
	}
	switch e.K {
	case "Name":
		return &T{K: "Variable", F: fields(one("expr", e)), first: dollar, last: e.last}
	case "Access":
		if c := convLeading(e.One("operand"), dollar); c != e.One("operand") {
			return cp(one("operand", c), e.F[1])
		}
	case "NamedAccess":
		if c := convLeading(e.One("lhs"), dollar); c != e.One("lhs") {
			return cp(one("lhs", c), e.F[1])
		}
	case "CallMethod":
		if c := convLeading(e.One("functor"), dollar); c != e.One("functor") {
			return cp(one("functor", c), e.F[1], e.F[2])
		}
	}
	return e
}

// interpolation generates one interpolation of a string
func (g *Gen) interpolation() *T {
	r := g.r
	n := g.node("Text")
	if r.P(40) {
		// $name
		g.count("interpolation $name")
		if r.P(12) {
			s := r.Pick([]string{"0", "1", "12", "007"})
			v := int64(0)
			for _, c := range s {
				v = v*10 + int64(c-'0')
			}
			t := g.raw("$" + s)
			e := &T{K: "Integer", A: attrs(num("value", v), num("radix", 10)), first: t, dOff: 1, last: t}
			return g.done(n, one("expr", &T{K: "Variable", F: fields(one("expr", e)), first: t, last: t}))
		}
		s := g.vname()
		t := g.raw("$" + s)
		e := &T{K: "Name", A: attrs(str("name", s)), first: t, dOff: 1, last: t}
		return g.done(n, one("expr", &T{K: "Variable", F: fields(one("expr", e)), first: t, last: t}))
	}
	d := g.raw("${")
	var e *T
	switch x := r.N(20); {
	case x == 0:
		g.count("interpolation empty")
		e = &T{K: "Undef", NoLoc: true}
	case x < 5:
		g.count("interpolation ${name}")
		name := r.Pick(append([]string{"a::_x", "::foo::bar"}, lowerNames...))
		if r.P(10) {
			name = randomName(r, 'a')
		}
		if strings.Contains(name, "::_") {
			name = "foo"
		}
		e = g.node("Name", str("name", name))
		g.t(name)
		g.done(e)
	case x < 11:
		// accesses and calls on a leading name
		g.count("interpolation ${name...}")
		name := g.simpleName()
		e = g.node("Name", str("name", name))
		g.t(name)
		g.done(e)
		e = g.postfix(e)
	case x == 11 && !g.deep():
		g.count("interpolation ${call}")
		e = g.callish()
	default:
		g.count("interpolation ${expr}")
		e = g.expr(lvRel, true)
	}
	e = convLeading(e, d)
	g.t("}")
	return g.done(n, one("expr", e))
}

// segments generates the contents of an interpolated string, and returns the segments. At least one of them is an interpolation.
// The last segment has a following text which is returned, unless it's empty
func (g *Gen) segments(cnt int, f func() unit) []*T {
	var segs []*T
	text := func() {
		prevVar := false
		if len(segs) > 0 && segs[len(segs)-1].last.S != "}" {
			prevVar = true
		}
		src, val := "", ""
		for i := g.small(4); i > 0; i-- {
			u := f()
			if src == "" && prevVar && extendsName(u.src) {
				continue
			}
			if src == "" && u.src == "" {
				continue
			}
			src += u.src
			val += u.val
		}
		if src == "" {
			return
		}
		s := g.node("String", str("value", val))
		g.raw(src)
		g.done(s)
		if val == "" {
			// No segment for an empty text
			return
		}
		segs = append(segs, s)
	}
	for i := 0; i < cnt; i++ {
		if g.r.P(70) {
			text()
		}
		if i > 0 && len(segs) > 0 && segs[len(segs)-1].K == "Text" && segs[len(segs)-1].last.S != "}" {
			// A variable directly followed by another is ok
			g.count("adjacent interpolations")
		}
		segs = append(segs, g.interpolation())
	}
	if g.r.P(70) {
		text()
	}
	return segs
}

// concat generates a double quoted string with interpolation
func (g *Gen) concat() *T {
	g.count("concat")
	n := g.node("Concat")
	open := g.emit(&Tok{S: `"`, StrOpen: true})
	m := len(g.toks)
	g.inStr++
	cnt := 1 + g.small(4)
	if g.r.P(1) {
		cnt += g.r.N(30)
	}
	segs := g.segments(cnt, g.dqUnit)
	g.inStr--
	g.emit(&Tok{S: `"`, Sp: spNone, RawText: true, StrEnd: true})
	for _, t := range g.toks[m:] {
		if t.Multi || t.RawText && strings.Contains(t.S, "\n") {
			open.Multi = true
		}
	}
	if segs[0].K == "String" {
		// includes the quote
		segs[0].first = open
	}
	return g.done(n, many("segments", segs))
}

var hdTags = []string{"END", "EOT", "X", "END-1", "A B", "x_y", "日本", "end.", "E+D", "1"}

// randomTag is a random tag or syntax of a heredoc, with nothing that has a meaning in a tag, in a string, or on the line of the tag
func randomTag(r *Rng, extra string) string {
	const chars = wordChars + "abcxyzENDTG.,;!?+*=<>[]{}(^~&|-_@éßÅ日本語Ω🎉 "
	all := []rune(strings.TrimSuffix(chars, " ") + extra)
	for {
		b := []rune{}
		for i := r.Small(9); i >= 0; i-- {
			b = append(b, all[r.N(len(all))])
		}
		s := string(b)
		if strings.TrimSpace(s) == s && s[0] != '|' && s[0] != '-' {
			return s
		}
	}
}

// heredoc generates a heredoc. The tag is emitted in place, and the text is attached to it
func (g *Gen) heredoc() *T {
	r := g.r
	g.hdocs++
	tag := r.Pick(hdTags)
	if r.P(30) {
		tag = randomTag(r, " ")
	}
	quoted := r.P(50)
	decl := tag
	if quoted {
		decl = `"` + tag + `"`
		if r.P(10) {
			decl = `" ` + tag + `"`
			decl = `"` + tag + `"`
		}
	}
	syntax := ""
	if r.P(30) {
		syntax = r.Pick([]string{"json", "yaml", "puppet", "x+y", "日", "epp.x"})
		if r.P(40) {
			syntax = randomTag(r, "")
		}
		decl += ":" + syntax
	}
	flags := ""
	if r.P(50) {
		cnt := 1 + r.N(4)
		if r.P(10) {
			cnt += r.N(24)
		}
		for i := cnt; i > 0; i-- {
			flags += r.Pick([]string{"t", "n", "r", "s", "u", "$", "L"})
		}
		decl += "/" + flags
	}
	has := func(c string) bool { return strings.Contains(flags, c) }

	n := g.node("Heredoc", str("syntax", syntax))
	dt := g.emit(&Tok{S: "@(" + decl + ")"})
	g.done(n)
	g.count("heredoc")

	// The text
	margin := ""
	useMargin := r.P(40)
	if useMargin {
		margin = strings.Repeat(r.Pick([]string{" ", " ", "\t"}), r.N(6))
		if r.P(10) {
			margin = " \t " + margin
		}
		g.count("heredoc margin")
	}
	suppress := r.P(35)
	nl := "\n"
	if r.P(15) {
		nl = "\r\n"
		g.count("heredoc crlf")
	}
	doEsc := flags != "" || quoted || useMargin && margin != ""
	_ = doEsc

	outerToks, outerOpen, outerNoNL := g.toks, g.open, g.noNL
	g.toks, g.open = nil, nil
	g.noNL++
	g.inStr++

	// Sequence of pieces. A nil piece is an interpolation
	lines := g.small(6)
	if r.P(2) {
		lines = r.N(40)
	}
	var segs []*T
	var cur *T
	val := ""
	first := (*Tok)(nil)
	put := func(src, v string) {
		if src == "" {
			return
		}
		if cur == nil {
			cur = &T{K: "String"}
			g.open = append(g.open, cur)
		}
		t := g.raw(src)
		if first == nil {
			first = t
		}
		val += v
	}
	flush := func() {
		if cur != nil {
			if val != "" {
				cur.A = attrs(str("value", val))
				cur.last = g.lastTok()
				segs = append(segs, cur)
			}
			cur = nil
			g.open = g.open[:0]
		}
		val = ""
	}
	strip := false // the previous line break was one where stripping is done
	for i := 0; i < lines; i++ {
		last := i == lines-1
		// leading white space. Lines that have the margin gets it stripped
		if useMargin && r.P(85) {
			put(margin, "")
			extra := strings.Repeat(" ", g.small(5))
			put(extra, extra)
		} else {
			// Either stripped partially, not at all, or fully depending on the content
			ws := strings.Repeat(r.Pick([]string{" ", "\t"}), g.small(7))
			v := ws
			if useMargin && len(ws) >= len(margin) {
				v = ws[len(margin):]
			}
			put(ws, v)
		}
		_ = strip
		// No white space in front of this
		ws := false
		prevVar := false
		cnt := g.small(6)
		body := ""
		if r.P(7) {
			// A line that starts as an end marker does, but isn't one
			u := r.Pick([]string{"", "", "", "|", "| ", "-", "| - ", "|-", "||", "--", "-|", "|\t"}) + tag + r.Pick([]string{" # x", "#", " #", " x", ";", ",", ")", " )", "|", " |", "-", " " + tag, tag, "/* */", " /* */", "}", ":", "\u00a0", "\v", "\f", "\"", "'", ".", "é", "0"})
			put(u, u)
			body, cnt = u, 0
			g.count("heredoc line that starts as the end marker")
		}
		for k := 0; k < cnt; k++ {
			if quoted && r.P(25) {
				flush()
				segs = append(segs, g.interpolation())
				if first == nil {
					first = segs[len(segs)-1].first
				}
				prevVar = g.lastTok().S != "}"
				ws = true
				body += "x"
				continue
			}
			u := g.hdUnit(quoted, flags)
			if k == 0 && !ws {
				u.src, u.val = trimBoth(u)
			}
			if u.src == "" || prevVar && extendsName(u.src) {
				continue
			}
			if body == "" && (u.src == "|" || u.src == "-") {
				// starts to look like an end marker, but isn't
				g.count("heredoc line starts with | or -")
			}
			prevVar = false
			put(u.src, u.val)
			body += u.src
		}
		if r.P(8) {
			// almost an end marker
			u := r.pickUnit(unit{tag + " x", tag + " x"}, unit{tag + "x", tag + "x"}, unit{"z" + tag, "z" + tag}, unit{"| x " + tag, "| x " + tag}, unit{"-" + tag + ".", "-" + tag + "."})
			if !(prevVar && extendsName(u.src)) {
				put(u.src, u.val)
				body += u.src
				g.count("heredoc near end marker")
			}
		}
		if isEndMarker(body, tag) {
			if prevVar {
				put(" !", " !")
			} else {
				put("z", "z")
			}
		}
		switch {
		case last && suppress:
			if strings.HasSuffix(body, `\`) {
				put(".", ".")
			}
			// the line break isn't part of the text
			flushNL := &Tok{S: nl, Sp: spNone, RawText: true}
			flush()
			g.toks = append(g.toks, flushNL)
		case has("L") && !last && r.P(30):
			put(`\`+nl, "")
			g.count("heredoc line continuation")
		case !last && r.P(3):
			// A backslash at the end of the line is only special when flag L is given
			if !has("L") {
				put(`\`+nl, `\`+nl)
			} else {
				put(nl, nl)
			}
		default:
			put(nl, nl)
		}
	}
	flush()
	// end marker
	em := margin
	if useMargin {
		em += "|" + r.Pick([]string{"", " ", "\t"})
	} else if r.P(30) {
		em = strings.Repeat(" ", r.N(5))
	}
	if suppress {
		em += "-" + r.Pick([]string{"", " ", "  "})
	}
	em += tag + r.Pick([]string{"", "", " ", "\t "})
	if first == nil {
		first = &Tok{S: "", Sp: spNone, RawText: true}
		g.toks = append([]*Tok{first}, g.toks...)
	}
	g.toks = append(g.toks, &Tok{S: em, Sp: spNone, RawText: true})
	dt.Hd = &Hdoc{g.toks, nl}
	g.toks, g.open, g.noNL = outerToks, outerOpen, outerNoNL
	g.inStr--
	for _, t := range dt.Hd.Toks {
		if t.Hd != nil {
			panic("heredoc in heredoc")
		}
	}

	var text *T
	hasInterp := false
	for _, s := range segs {
		if s.K == "Text" {
			hasInterp = true
		}
	}
	if hasInterp {
		g.count("heredoc interpolated")
		text = &T{K: "Concat", F: fields(many("segments", segs)), first: first, last: nil}
		if l := segs[len(segs)-1]; l.last != nil {
			text.last = l.last
		}
	} else {
		v := ""
		var l *Tok
		for _, s := range segs {
			v += s.Str("value")
			l = s.last
		}
		text = &T{K: "String", A: attrs(str("value", v)), first: first, last: l}
	}
	n.F = fields(one("text", text))
	return n
}

func isBlank(s string) bool { return strings.Trim(s, " \t\r\n") == "" }

func trimBoth(u unit) (string, string) {
	// the first unit of a line doesn't start with white space, since the amount of white space matters
	if len(u.src) > 0 && (u.src[0] == ' ' || u.src[0] == '\t') {
		return "w", "w"
	}
	return u.src, u.val
}

// isEndMarker returns true if the line would be taken as the end of the heredoc
func isEndMarker(line, tag string) bool {
	s := strings.Trim(line, " \t\r")
	s = strings.TrimLeft(strings.TrimPrefix(s, "|"), " \t\r")
	s = strings.TrimLeft(strings.TrimPrefix(s, "-"), " \t\r")
	return s == tag
}

// hdUnit is a unit of heredoc text. It contains no line breaks and doesn't start an interpolation
func (g *Gen) hdUnit(quoted bool, flags string) unit {
	r := g.r
	has := func(c string) bool { return strings.Contains(flags, c) }
	switch r.N(9) {
	case 0:
		switch r.N(7) {
		case 0:
			if has("n") {
				return unit{`\n`, "\n"}
			}
			return unit{`\n`, `\n`}
		case 1:
			if has("t") {
				return unit{`\t`, "\t"}
			}
			return unit{`\t`, `\t`}
		case 2:
			if has("r") {
				return unit{`\r`, "\r"}
			}
			return unit{`\r`, `\r`}
		case 3:
			if has("s") {
				return unit{`\s`, " "}
			}
			return unit{`\s`, `\s`}
		case 4:
			if has("u") {
				return r.pickUnit(unit{`\u00e9`, "é"}, unit{`\u{1F389}`, "🎉"}, unit{`\u0041`, "A"})
			}
			return r.pickUnit(unit{`\u00e9`, `\u00e9`}, unit{`\u{1F389}`, `\u{1F389}`}, unit{`\uz`, `\uz`})
		case 5:
			if has("$") {
				return r.pickUnit(unit{`\$`, `$`}, unit{`\$x`, `$x`}, unit{`\${x}`, `${x}`})
			}
			if !quoted {
				return unit{`\$x`, `\$x`}
			}
		default:
			return r.pickUnit(unit{`\"`, `\"`}, unit{`\'`, `\'`}, unit{`\q`, `\q`}, unit{`\é`, `\é`})
		}
	case 1:
		if !quoted {
			return r.pickUnit(unit{"$x", "$x"}, unit{"${x}", "${x}"}, unit{"$", "$"})
		}
	case 2:
		return r.pickUnit(unit{`"`, `"`}, unit{"'", "'"}, unit{"#", "#"}, unit{"/*", "/*"}, unit{"|", "|"}, unit{"-", "-"}, unit{"@(X)", "@(X)"})
	}
	return g.plain()
}
