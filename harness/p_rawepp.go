package main

import (
	"strings"

	"github.com/lyraproj/puppet-parser/parser"
)

// An independent decoder of templates that are made of random pieces

var eppTags = []string{"<%= $x %>", "<%=$x-%>", "<%= $x -%>", "<% $x %>", "<%$x%>", "<%- $x %>", "<%- $x -%>", "<% %>", "<%- -%>"}

var eppPieces = append([]string{"<", "%", ">", "%%", "<%%", "%%>", "%%%>", "<<%%", "-", "-%>", "%>", " ", "  ", "\t", "\n", "\r\n", "\n", "a", "b ", "é", "#", "$x", "${x}", "'", "\"", "(", "[", "{", "|", "=", "\\",
	"<%# c %>", "<%#%>", "<%# a %%> b %>", "<%#\n%>"}, eppTags...)

type eppPart struct {
	kind byte // t: text, r: rendered $x, s: the statement $x
	text string
}

func refTemplate(s string) (parts []eppPart, ok, skip bool) {
	var b []byte
	fixed := 0 // the text up to here can't be trimmed
	flush := func() {
		if len(b) > 0 {
			parts = append(parts, eppPart{'t', string(b)})
		}
		b, fixed = nil, 0
	}
	afterComment := false // blanks since a comment may or may not be trimmed together with blanks before it
	for i := 0; i < len(s); {
		t := s[i:]
		switch {
		case strings.HasPrefix(t, "<%%"):
			b = append(b, "<%"...)
			fixed = len(b)
			i += 3
			afterComment = false
		case strings.HasPrefix(t, "<%#"):
			end := -1
			for j := 3; j+1 < len(t); j++ {
				if t[j] == '%' && t[j+1] == '>' && t[j-1] != '%' {
					end = j
					break
				}
			}
			if end < 0 {
				return nil, false, false
			}
			if t[end-1] == '-' {
				return nil, false, true
			}
			i += end + 2
			afterComment = fixed < len(b)
		case strings.HasPrefix(t, "<%"):
			tag := ""
			for _, x := range eppTags {
				if strings.HasPrefix(t, x) && len(x) > len(tag) {
					tag = x
				}
			}
			if tag == "" {
				return nil, false, true
			}
			if strings.HasPrefix(tag, "<%-") {
				if afterComment {
					return nil, false, true
				}
				b = b[:fixed]
			}
			flush()
			if strings.HasPrefix(tag, "<%=") {
				parts = append(parts, eppPart{'r', ""})
			} else if strings.Contains(tag, "$x") {
				parts = append(parts, eppPart{'s', ""})
			}
			i += len(tag)
			if strings.HasSuffix(tag, "-%>") {
				for i < len(s) && (s[i] == ' ' || s[i] == '\t') {
					i++
				}
				if strings.HasPrefix(s[i:], "\r\n") {
					i += 2
				} else if strings.HasPrefix(s[i:], "\n") {
					i++
				}
			}
			afterComment = false
		case strings.HasPrefix(t, "%%>"):
			b = append(b, "%>"...)
			fixed = len(b)
			i += 3
			afterComment = false
		case strings.HasPrefix(t, "%%"):
			b = append(b, "%%"...)
			fixed = len(b)
			i += 2
			afterComment = false
		default:
			b = append(b, s[i])
			if s[i] != ' ' && s[i] != '\t' {
				fixed = len(b)
				afterComment = false
			}
			i++
		}
	}
	flush()
	return parts, true, false
}

func rawTemplate(c *Case) {
	r := c.R
	for k := 0; k < 4; k++ {
		b := &strings.Builder{}
		n := 1 + r.N(7)
		if r.P(5) {
			n = r.N(40)
		}
		for i := 0; i < n; i++ {
			b.WriteString(r.Pick(eppPieces))
		}
		src := b.String()
		c.Src = src
		c.Info = []string{"epp=true", "parts of a template"}
		parts, ok, skip := refTemplate(src)
		if skip {
			continue
		}
		e, err := parser.CreateParser(parser.EppMode).Parse("f.epp", src, false)
		if !ok {
			if err == nil {
				c.Fail("the template has a comment that doesn't end, but is accepted as\n%s", Dump(e))
			}
			c.Count("unbalanced comment rejected")
			c.Seen(src)
			continue
		}
		if err != nil {
			c.Fail("valid template is rejected: %s", err)
		}
		d := Dump(e)
		var ss []*T
		if b := d.One("body"); b != nil && b.K == "Lambda" && b.One("body") != nil && b.One("body").K == "Epp" && b.One("body").One("body").K == "Block" {
			ss = b.One("body").One("body").Many("statements")
		} else {
			c.Fail("not a template\n%s", d)
		}
		if len(parts) == 0 {
			parts = []eppPart{{'t', ""}}
		}
		if len(ss) != len(parts) {
			c.Fail("expected %d parts %q, got\n%s", len(parts), parts, d)
		}
		isX := func(t *T) bool {
			return t != nil && t.K == "Variable" && t.One("expr").K == "Name" && t.One("expr").Str("name") == "x"
		}
		for i, p := range parts {
			a := ss[i]
			good := false
			switch p.kind {
			case 't':
				good = a.K == "RenderString" && a.Str("value") == p.text
			case 'r':
				good = a.K == "Render" && isX(a.One("expr"))
			case 's':
				good = isX(a)
			}
			if !good {
				c.Fail("part %d: expected %c %q, got\n%s", i, p.kind, p.text, a)
			}
		}
		c.Count("raw template decoded")
		c.CountN("raw template parts", len(parts))
		c.Seen(src)
	}
}
