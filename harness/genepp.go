package main

import "strings"

// eppBuf models the text between two tags
type eppBuf struct {
	src  string
	val  string
	last string
}

func (g *Gen) eppUnits(first bool) (src, val string) {
	r := g.r
	n := g.small(6)
	if r.P(2) {
		n = r.N(40)
	}
	for i := 0; i < n; i++ {
		var u unit
		switch r.N(14) {
		case 0:
			u = unit{"<%%", "<%"}
			g.count("epp <%%")
		case 1:
			u = unit{"%%>", "%>"}
			g.count("epp %%>")
		case 2:
			if strings.HasSuffix(src, " ") || strings.HasSuffix(src, "\t") || strings.HasSuffix(src, "<") || src == "" {
				continue
			}
			u = r.pickUnit(unit{"<%# comment %>", ""}, unit{"<%#%>", ""}, unit{"<%# <% } ' \" %>", ""}, unit{"<%# a\n b %>", ""}, unit{"<%# é %%> %>", ""})
			g.count("epp comment")
		case 3:
			s := r.Pick([]string{"%", "% ", "%%", "< ", "<b>", "<a%", "%>x", " %> ", "-%>", "<", "<<", "%x", "=", "|"})
			u = unit{s, s}
		case 4, 5:
			s := r.Pick([]string{"\n", "\n\n", "\r\n", "\n  ", "\n\t"})
			u = unit{s, s}
		case 6:
			s := r.Pick([]string{" ", "  ", "\t", " \t"})
			u = unit{s, s}
		case 7:
			s := r.Pick([]string{"$x", "${y}", "\"", "'", "\\", "\\n", "#", "# c", "/*", "*/", "{", "}", "(", "[", "@(END)"})
			u = unit{s, s}
		default:
			u = g.plain()
			if u.src == "<%" || u.src == "%>" {
				continue
			}
		}
		// the pieces must not form tags
		if len(src) > 0 {
			l := src[len(src)-1]
			if (l == '<' || l == '%') && (u.src[0] == '%' || u.src[0] == '>' || u.src[0] == '<') {
				src += "_"
				val += "_"
			}
		}
		src += u.src
		val += u.val
	}
	if l := len(src); l > 0 && (src[l-1] == '<' || src[l-1] == '%') {
		src += "."
		val += "."
	}
	return
}

func isBlankByte(b byte) bool { return b == ' ' || b == '\t' }

// eppText ends the current tag, generates text and perhaps render tags, and starts a new tag. It returns the resulting statements
func (g *Gen) eppText() []*T {
	var ss []*T
	g.eppClose()
	ss = g.eppTextAndTags(ss)
	return ss
}

// eppClose ends a tag
func (g *Gen) eppClose() {
	e := &Tok{S: "%>"}
	if g.r.P(35) {
		e.S = "-%>"
		g.count("epp -%>")
	}
	g.emit(e)
	// A heredoc that was declared in the tag must end before the tag does
	for i := len(g.toks) - 2; i >= 0 && !g.toks[i].EppTag; i-- {
		if g.toks[i].Hd != nil {
			e.Nl = nlReq
		}
	}
}

// trimNext removes the text that the end of a tag trims
func trimNext(val string) string {
	val = strings.TrimLeft(val, " \t")
	val = strings.TrimPrefix(val, "\r")
	return strings.TrimPrefix(val, "\n")
}

// eppTextAndTags generates text, and any number of render tags followed by text, and ends with the start of a tag
func (g *Gen) eppTextAndTags(ss []*T) []*T {
	for {
		src, val := g.eppUnits(false)
		raw := ""
		trimmed := 0
		if len(g.toks) > 0 && g.toks[len(g.toks)-1].S == "-%>" {
			// trim
			t := strings.TrimLeft(src, " \t")
			if strings.HasPrefix(t, "\r\n") {
				t = t[2:]
			} else if strings.HasPrefix(t, "\n") {
				t = t[1:]
			} else if g.r.P(30) {
				// make it likely
				raw = g.r.Pick([]string{"\n", " \n", "\r\n", "\t\r\n"})
				t = src
			}
			trimmed = len(src) - len(t)
			raw += src[:trimmed]
			src = src[trimmed:]
			val = val[trimmed:]
			g.toks = append(g.toks, &Tok{S: raw, Sp: spNone, RawText: true})
		}
		render := g.r.P(40)
		open := "<%"
		if render {
			open = "<%="
		} else if g.r.P(30) {
			open = "<%-"
			g.count("epp <%-")
			if g.r.P(50) {
				ws := g.r.Pick([]string{" ", "   ", "\t"})
				src += ws
				val += ws
			}
			val = trimEnd(src, val)
		}
		if val != "" {
			n := g.node("RenderString", str("value", val))
			g.raw(src)
			ss = append(ss, g.done(n))
			g.count("epp text")
		} else if src != "" {
			g.toks = append(g.toks, &Tok{S: src, Sp: spNone, RawText: true})
		}
		var rn *T
		if render {
			rn = g.node("Render")
		}
		if g.noNL > 0 {
			panic("epp in string")
		}
		g.emit(&Tok{S: open, Sp: spNone, RawText: true, EppTag: true})
		if !render {
			return ss
		}
		g.count("epp <%=")
		ep := g.epp
		g.epp = false
		m := len(g.toks)
		e := g.expr(lvExpr, true)
		if c := g.toks[m].S[0]; c == '-' || c == '=' || c == '%' {
			g.toks[m].Sp = spReq
		}
		g.epp = ep
		g.done(rn, one("expr", e))
		ss = append(ss, rn)
		if g.r.P(10) {
			// more statements in the same tag
			return ss
		}
		g.eppClose()
	}
}

// trimEnd removes blanks from the end of text, up to the start of the line
func trimEnd(src, val string) string {
	return strings.TrimRight(val, " \t")
}

// EppProgram generates a template
func (g *Gen) EppProgram() *T {
	r := g.r
	g.epp = true
	lambda := &T{K: "Lambda", NoLoc: true}
	epp := &T{K: "Epp", NoLoc: true}
	block := &T{K: "Block", NoLoc: true}
	specified := false
	var ps []*T
	var ss []*T
	switch x := r.N(10); {
	case x == 0:
		// only text
		src, val := g.eppUnits(true)
		s := g.node("RenderString", str("value", val))
		g.raw(src)
		g.done(s)
		ss = []*T{s}
		g.count("epp only text")
	case x < 5:
		// parameters
		specified = true
		g.count("epp parameters")
		if r.P(20) {
			g.raw("<%# leading comment %>")
		}
		if r.P(10) {
			g.emit(&Tok{S: " \t", Sp: spNone, RawText: true})
			g.emit(&Tok{S: "<%-", Sp: spNone, RawText: true, EppTag: true})
		} else {
			g.emit(&Tok{S: r.Pick([]string{"<%", "<%-"}), Sp: spNone, RawText: true, EppTag: true})
		}
		g.t("|")
		g.epp = false
		ps = g.params(g.small(4))
		g.epp = true
		g.t("|")
		if r.P(60) || len(ps) > 0 && ps[len(ps)-1].One("value") != nil {
			// (a '|' that follows a default value starts a lambda, unless a tag ends there)
			ss = g.eppText()
		} else {
			g.count("epp statement follows parameters")
		}
		ss = g.eppStatements(ss, specified)
	default:
		ss = g.eppTextAndTags(nil)
		ss = g.eppStatements(ss, specified)
	}
	if len(ss) == 0 && !specified {
		// An empty template renders an empty string
		ss = []*T{{K: "RenderString", A: attrs(str("value", "")), NoLoc: true}}
	}
	block.F = fields(many("statements", ss))
	epp.A = attrs(boolean("paramsSpecified", specified))
	epp.F = fields(one("body", block))
	lambda.F = fields(many("params", ps), one("body", epp), one("returns", nil))
	return &T{K: "Program", F: fields(one("body", lambda)), NoLoc: true}
}

// eppStatements generates the statements that follow the initial text, and the end of the template
func (g *Gen) eppStatements(prev []*T, specified bool) []*T {
	ss := g.statementsAfter(g.small(6), prev, !specified)
	g.eppClose()
	src, val := g.eppUnits(false)
	if g.lastTok().S == "-%>" {
		t := strings.TrimLeft(src, " \t")
		if strings.HasPrefix(t, "\r\n") {
			t = t[2:]
		} else if strings.HasPrefix(t, "\n") {
			t = t[1:]
		}
		n := len(src) - len(t)
		g.toks = append(g.toks, &Tok{S: src[:n], Sp: spNone, RawText: true})
		src, val = src[n:], val[n:]
	}
	if val != "" {
		n := g.node("RenderString", str("value", val))
		g.raw(src)
		ss = append(ss, g.done(n))
	} else if src != "" {
		g.toks = append(g.toks, &Tok{S: src, Sp: spNone, RawText: true})
	}
	return ss
}
