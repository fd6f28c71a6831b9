package main

import (
	"strconv"
	"strings"

	"github.com/lyraproj/puppet-parser/parser"
)

// An independent decoder of interpolated text. The text is made of random pieces, so that what may follow a '$' is arbitrary.

var interpPieces = []string{"$a", "$a", "$ab1", "$::x", "$a::b", "$a::_b", "$1", "$12", "$007", "$aB_c", "${a}", "${a}", "${$b}", "${1}", "${f(1)}", "${a[1]}", "${'}'}", `${"}"}`, "${a.b}", "${ a }", "${{}}",
	"$", "$", "$", " ", "a", "B", "::", ":", "1", "_", "A", "-", ".", "[1]", "(", "{", "}", "\\$", "\\\\", "\\", "\\n", "é", "'", "\n", "/", "#", "$$", "\t", "$_", "$A", "$:"}

type segment struct {
	text string // when kind is 't'
	kind byte   // t: text, v: variable, n: numeric variable, e: the expression that the text gives by itself
}

// refVariable returns the end of the variable that starts at s[0], which is a '$'. The result is 0 if there is none, and -1 when
// it's unspecified
func refVariable(s string) int {
	i := 1
	if strings.HasPrefix(s[i:], "::") {
		i += 2
		if i >= len(s) || !(s[i] >= 'a' && s[i] <= 'z') {
			return 0
		}
	} else if i < len(s) && s[i] >= '0' && s[i] <= '9' {
		for i < len(s) && s[i] >= '0' && s[i] <= '9' {
			i++
		}
		return i
	} else if i >= len(s) || !(s[i] >= 'a' && s[i] <= 'z') {
		return 0
	}
	last := false
	for {
		for i < len(s) && isW(s[i]) {
			i++
		}
		if !strings.HasPrefix(s[i:], "::") {
			return i
		}
		if last || i+2 >= len(s) || !(s[i+2] >= 'a' && s[i+2] <= 'z' || s[i+2] == '_') {
			return -1
		}
		last = s[i+2] == '_'
		i += 3
	}
}

// refSegments decodes the text. ok is false if it must be rejected, and skip is true if what it means is unspecified
func refSegments(s string, heredoc bool) (segs []segment, ok, skip bool) {
	b := &strings.Builder{}
	flush := func() {
		if b.Len() > 0 {
			segs = append(segs, segment{b.String(), 't'})
			b.Reset()
		}
	}
	for i := 0; i < len(s); {
		switch {
		case s[i] == '$' && strings.HasPrefix(s[i:], "${"):
			found := ""
			for _, p := range interpPieces {
				if strings.HasPrefix(p, "${") && strings.HasPrefix(s[i:], p) {
					found = p
				}
			}
			if found == "" {
				return nil, false, true
			}
			flush()
			segs = append(segs, segment{found, 'e'})
			i += len(found)
		case s[i] == '$':
			n := refVariable(s[i:])
			if n == 0 {
				return nil, false, false
			}
			if n < 0 {
				return nil, false, true
			}
			flush()
			name := s[i+1 : i+n]
			if name[0] >= '0' && name[0] <= '9' {
				segs = append(segs, segment{name, 'n'})
			} else {
				segs = append(segs, segment{name, 'v'})
			}
			i += n
		case s[i] == '"' && !heredoc:
			return nil, false, true
		case s[i] == '\\' && !heredoc:
			if i+1 >= len(s) {
				return nil, false, true
			}
			switch s[i+1] {
			case '\\', '"', '\'', '$':
				b.WriteByte(s[i+1])
				i += 2
			case 'n':
				b.WriteByte('\n')
				i += 2
			case 'u', 'x', 'r', 't', 's':
				return nil, false, true
			default:
				b.WriteByte('\\')
				i++
			}
		default:
			b.WriteByte(s[i])
			i++
		}
	}
	flush()
	return segs, true, false
}

func rawInterpolation(c *Case) {
	r := c.R
	for k := 0; k < 4; k++ {
		b := &strings.Builder{}
		n := 1 + r.N(6)
		if r.P(5) {
			n = r.N(40)
		}
		for i := 0; i < n; i++ {
			b.WriteString(r.Pick(interpPieces))
		}
		content := b.String()
		heredoc := r.P(30)
		segs, ok, skip := refSegments(content, heredoc)
		if skip {
			continue
		}
		src := `"` + content + `"`
		if heredoc {
			src = "@(\"E\")\n" + content + "\n|- E\n"
		}
		c.Src = src
		c.Info = nil
		e, err := parser.CreateParser().Parse("f.pp", src, true)
		if !ok {
			if err == nil {
				c.Fail("the text has a '$' that starts no interpolation and must be rejected, but is accepted as\n%s", Dump(e))
			}
			c.Count("text with lone '$' rejected")
			c.Seen(src)
			continue
		}
		if err != nil {
			c.Fail("valid text is rejected: %s", err)
		}
		d := Dump(e)
		if heredoc {
			if d.K != "Heredoc" {
				c.Fail("expected a heredoc, got\n%s", d)
			}
			d = d.One("text")
		}
		act := d.Many("segments")
		if d.K == "String" {
			act = []*T{d}
		} else if d.K != "Concat" {
			c.Fail("expected a string, got\n%s", d)
		}
		if len(segs) == 0 {
			segs = []segment{{"", 't'}}
		}
		if len(act) != len(segs) {
			c.Fail("expected %d segments %q, got\n%s", len(segs), segs, d)
		}
		for i, s := range segs {
			a := act[i]
			good := false
			switch s.kind {
			case 't':
				good = a.K == "String" && a.Str("value") == s.text
			case 'v':
				good = a.K == "Text" && a.One("expr").K == "Variable" && a.One("expr").One("expr").K == "Name" && a.One("expr").One("expr").Str("name") == s.text
			case 'n':
				v, _ := strconv.ParseInt(s.text, 10, 64)
				if good = a.K == "Text" && a.One("expr").K == "Variable" && a.One("expr").One("expr").K == "Integer"; good {
					li, _ := a.One("expr").One("expr").E.(*parser.LiteralInteger)
					good = li != nil && li.Int() == v
				}
			case 'e':
				single, err := parser.CreateParser().Parse("f.pp", `"`+s.text+`"`, true)
				if err != nil {
					c.Fail("%s is rejected: %s", s.text, err)
				}
				good = Diff(Dump(single).Many("segments")[0], a) == ""
			}
			if !good {
				c.Fail("segment %d: expected %c %q, got\n%s", i, s.kind, s.text, a)
			}
		}
		c.Count("raw text decoded")
		c.Seen(src)
	}
}
