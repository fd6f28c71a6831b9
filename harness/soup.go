package main

import "strings"

// heredocSoup creates source with heredocs that share lines with other things that can span lines or contain what looks like a
// heredoc: strings, comments, regular expressions, and other heredocs. It's not necessarily a program
func heredocSoup(r *Rng) string {
	b := &strings.Builder{}
	nl := "\n"
	if r.P(15) {
		nl = "\r\n"
	}
	eol := func() string {
		if r.P(4) {
			return r.PickS("\n", "\r\n", "\r", " \n", "\t\r\n")
		}
		return nl
	}
	type text struct{ tag, flags string }
	var pending []text
	tags := []string{"A", "END", "a b", "X1", "é", "-", "|", "E.D", "END", "A"}
	ws := func() string { return r.PickS("", "", "", " ", "  ", "\t") }
	odd := func() string {
		return r.PickS("x", "| A", "|- A", "@(A)", "'", "\"", "$x", "${x}", "\\n", "\\", "\\t", "#", "/*", "/", "END", "|", "-", "é", "\\u{e9}", "${y}z", " ", "\t", "$", "A", "|-END", "{", "}", "\\$", "\r")
	}
	line := func(lo, hi int) string {
		s := ""
		for i := lo + r.N(hi-lo+1); i > 0; i-- {
			s += odd()
		}
		return s
	}
	texts := func() {
		for len(pending) > 0 {
			t := pending[0]
			pending = pending[1:]
			if r.P(2) {
				continue
			}
			indent := r.PickS("", "  ", "\t", "    ")
			for i := r.N(4); i > 0; i-- {
				if r.P(20) {
					b.WriteString(r.PickS("", " ", "\t") + eol())
					continue
				}
				b.WriteString(r.PickS(indent, indent, indent+" ", "") + line(0, 4) + eol())
			}
			m := r.PickS(indent, indent, "", ws()) + r.PickS("", "| ", "|- ", "|", "|-", "- ", "-", "| - ", " |  ") + t.tag + ws()
			b.WriteString(m)
			if !(len(pending) == 0 && r.P(15)) {
				b.WriteString(eol())
			}
		}
	}
	quote := func(s string, q byte) string {
		return string(q) + strings.Replace(strings.Replace(s, "\\", "\\\\", -1), string(q), "\\"+string(q), -1) + string(q)
	}
	heredoc := func() string {
		t := text{tag: r.Pick(tags)}
		s := "@(" + ws()
		if r.P(45) {
			s += "\"" + t.tag + "\""
		} else {
			s += t.tag
		}
		s += ws()
		if r.P(20) {
			s += ":" + ws() + r.PickS("json", "pp", "x y", "") + ws()
		}
		if r.P(40) {
			s += "/" + r.PickS("", "t", "L", "n$", "tsrnuL$", "s", "$", "L", "r", "u", "q") + ws()
		}
		pending = append(pending, t)
		return s + ")"
	}
	var element func(d int) string
	element = func(d int) string {
		switch r.N(16) {
		case 0, 1, 2, 3:
			return heredoc()
		case 4:
			return quote(line(0, 3), '\'')
		case 5:
			return quote(r.PickS("a", "b")+eol()+line(0, 2), '\'')
		case 6:
			return "\"" + r.PickS("a", "$x", "${x}", "@(A)", "\\\"", "'") + r.PickS("", eol()) + r.PickS("", "b", "| A", "${y}", "\\\n") + "\""
		case 7:
			return "/" + r.PickS("a", "@\\(A\\)", "\\/", "[#]", "@(A)", "'", "\"") + "/"
		case 8:
			return "/* " + r.PickS("a", "@(A)", "'", "\"") + r.PickS("", eol()+"x") + " */ 1"
		case 9:
			return "1 # " + r.PickS("a", "@(A)", "'", "\"", "@(\"A\")", "/*") + eol()
		case 10:
			return r.PickS("$x", "foo", "1", "$a / $b", "3 / 2", "Foo", "true")
		case 11:
			return r.PickS("$x", "1", "2") + eol()
		case 12:
			if d > 0 {
				return "[" + element(d-1) + ", " + element(d-1) + r.PickS("]", eol()+"]")
			}
		case 13:
			if d > 0 {
				return "f(" + element(d-1) + ")" + r.PickS("", "", " |$q| { "+r.PickS("", eol())+"2 }")
			}
		case 14:
			if d > 0 {
				return "{" + r.PickS("", eol()) + "a => " + element(d-1) + r.PickS("", ",", eol()) + "}"
			}
		default:
			if d > 0 && r.P(25) {
				return "\"x${" + element(d-1) + "}y\""
			}
		}
		return heredoc()
	}
	for n := 1 + r.N(3); n > 0; n-- {
		n := 1 + r.N(4)
		b.WriteString(r.PickS("[", "$x = [", "f([", "notice([", "file { 'a': b => ["))
		closer := "]"
		switch s := b.String(); {
		case strings.HasSuffix(s, "(["):
			closer = "])"
		case strings.HasSuffix(s, "=> ["):
			closer = "] }"
		}
		for i := 0; i < n; i++ {
			if i > 0 {
				b.WriteString("," + ws())
			}
			e := element(2)
			if r.P(40) {
				// The lines of a heredoc follow the line of its tag
				b.WriteString(e)
				if r.P(30) {
					b.WriteString(r.PickS("", " ", " # c", ",", " /* c */") + eol())
					texts()
				}
			} else if i := strings.IndexAny(e, "\n"); i >= 0 && len(pending) > 0 && r.P(80) {
				b.WriteString(e[:i+1])
				texts()
				b.WriteString(e[i+1:])
			} else {
				b.WriteString(e)
			}
		}
		b.WriteString(closer + r.PickS("", "", " # @(A)", " ", ";", " /* a */"))
		b.WriteString(eol())
		texts()
	}
	if r.P(30) {
		b.WriteString(r.PickS("1", "$x", "'a", "#", "| A", "foo { 'a': }", "@(A)"))
	}
	return b.String()
}
