package main

import (
	"errors"
	"strings"
)

const (
	spOpt  = 0 // space before the token is optional, if the tokens can be glued
	spNone = 1 // no space before the token
	spReq  = 2 // at least one white space character (or comment) before the token
)

const (
	nlOK  = 0 // line breaks are permitted before the token
	nlNo  = 1 // no line break
	nlReq = 2 // at least one line break
)

// Tok is one piece of source text together with the rules for white space in front of it
type Tok struct {
	S       string
	Sp      int
	Nl      int
	Hd      *Hdoc // heredoc declared by this token
	StrOpen bool  // start of an interpolated string
	StrEnd  bool
	Multi   bool // a line break in the token, or in the string that it opens
	Num     bool // starts with a digit
	RawText bool // string content, not a token of the language
	EppTag  bool // start of an EPP tag

	Off, End int
}

// Hdoc is the text of a heredoc, up to and including the end tag
type Hdoc struct {
	Toks []*Tok
	NL   string // line break after the end tag
}

type Style struct {
	Space int // percentage of optional spaces that are written
	NL    int // percentage of spaces that are line breaks
	Cmt   int // percentage of spaces that are comments
	CRLF  int // percentage of line breaks that are CRLF
	Multi int // percentage of spaces that consists of several parts
	Epp   bool

	OneLine bool // no optional line breaks
}

func randomStyle(r *Rng) Style {
	switch r.N(6) {
	case 0:
		return Style{Space: 60}
	case 1:
		return Style{Space: 0}
	case 2:
		return Style{Space: 50, NL: 30, Cmt: 30, CRLF: 30, Multi: 40}
	case 3:
		return Style{Space: 100, NL: 90, CRLF: r.N(2) * 100, Multi: 20}
	case 4:
		return Style{Space: 80, NL: 10, Cmt: 10, CRLF: 5, Multi: 10}
	default:
		return Style{Space: 30, NL: 5, Cmt: 3, Multi: 5}
	}
}

var errLayout = errors.New("no valid layout")

type layout struct {
	r       *Rng
	st      Style
	b       strings.Builder
	pending []*Hdoc
	strs    []bool // for each open string, true if no line breaks are permitted
	ctrNL   int
	prev    *Tok
	ctrCmt  int
}

var cmtTexts = []string{"", " comment", " it's", ` say "hi"`, " a { b [ c (", " } ] )", " $x ${y", " å日本🎉", " ** / *", " @(END)", "# //", " => ", " a\tb", "/* x", " a/*.pp {", "*", "**", "* @param x *", "/", " a\rb", "\r} $y = {", " \f\v\u00a0\u2028\u0085\ufeff$x", " \\", "\\\\ \\'", " `", " <% ", " ${", "\x01\x7f", "#", "\r\r\r"}

func (l *layout) noNL(t *Tok) bool {
	if t.Nl == nlNo || l.st.OneLine && t.Nl != nlReq {
		return true
	}
	for _, s := range l.strs {
		if s {
			return true
		}
	}
	return false
}

func (l *layout) newline() {
	if l.r.P(l.st.CRLF) {
		l.b.WriteString("\r\n")
	} else {
		l.b.WriteString("\n")
	}
	l.ctrNL++
	l.flush()
}

// flush writes pending heredocs. Must be called directly after a line break
func (l *layout) flush() {
	ps := l.pending
	l.pending = nil
	for _, h := range ps {
		for _, t := range h.Toks {
			if t.RawText || t.Sp == spNone {
				l.write(t)
				continue
			}
			l.space(t, true)
			l.write(t)
		}
		l.b.WriteString(h.NL)
	}
}

func (l *layout) write(t *Tok) {
	t.Off = l.b.Len()
	l.b.WriteString(t.S)
	t.End = l.b.Len()
	l.prev = t
}

func (l *layout) last() byte {
	s := l.b.String()
	if len(s) == 0 {
		return 0
	}
	return s[len(s)-1]
}

func (l *layout) space(t *Tok, noNL bool) {
	r := l.r
	need := t.Sp == spReq || (l.b.Len() > 0 && !canGlue(l.b.String(), t.S) && !l.splits(t))
	want := need || r.P(l.st.Space)
	if t.Nl == nlReq && l.b.Len() > 0 {
		if noNL {
			// cannot be satisfied
			l.ctrNL = -1 << 30
			return
		}
		for i := r.N(2); i > 0; i-- {
			l.piece(true, false)
		}
		if r.P(l.st.Cmt) {
			l.lineComment()
		} else {
			l.newline()
		}
		for i := r.N(3); i > 0; i-- {
			if r.P(l.st.Cmt) {
				l.piece(l.st.OneLine, false)
			} else {
				l.b.WriteByte(" \t"[r.N(2)])
			}
		}
		return
	}
	if !want {
		return
	}
	n := 1
	if r.P(l.st.Multi) {
		n += r.N(3)
	}
	for i := 0; i < n; i++ {
		l.piece(noNL, i == 0 && need)
	}
}

// lineComment writes a comment that reaches to the end of the line
func (l *layout) lineComment() {
	if c := l.last(); c == '/' || c == '%' {
		l.b.WriteByte(' ') // avoid that anything changes
	}
	l.b.WriteString("#" + cmtTexts[l.r.N(len(cmtTexts))])
	l.newline()
}

// piece writes one piece of white space.
func (l *layout) piece(noNL bool, must bool) {
	r := l.r
	if r.P(l.st.Cmt) {
		l.ctrCmt++
		if !noNL && r.P(50) {
			l.lineComment()
			return
		}
		switch l.last() {
		case '/', '*', '<', '%', '-', '=', '|', '@', '~', '!', '>', '+', '.', '?', '&':
			l.b.WriteByte(' ')
		}
		txt := strings.ReplaceAll(cmtTexts[r.N(len(cmtTexts))], "*/", "")
		if !noNL && len(l.pending) == 0 && r.P(30) {
			txt += "\n second line\n"
		}
		l.b.WriteString("/*" + txt)
		l.b.WriteString("*/")
		return
	}
	if !noNL && r.P(l.st.NL) {
		l.newline()
		for i := r.N(4); i > 0; i-- {
			l.b.WriteByte(' ')
		}
		return
	}
	if r.P(15) && l.st.Cmt > 0 {
		l.b.WriteByte('\t')
		return
	}
	if r.P(4) && l.st.Cmt > 0 {
		l.b.WriteString(r.Pick([]string{" \r", "\r ", "\r\t"})) // a carriage return without a line feed is a blank
		return
	}
	l.b.WriteByte(' ')
}

// Render creates source text from the tokens, and assigns the position of each token.
func Render(toks []*Tok, r *Rng, st Style) (string, error) {
	l := &layout{r: r, st: st}
	if !st.Epp && !st.OneLine && r.P(30) {
		for i := r.N(3); i > 0; i-- {
			l.piece(false, false)
		}
	}
	for _, t := range toks {
		if t.RawText {
			if st.Epp && len(l.strs) == 0 && len(l.pending) > 0 {
				return "", errLayout
			}
			l.write(t)
			if t.StrEnd {
				l.strs = l.strs[:len(l.strs)-1]
			}
			continue
		}
		noNL := l.noNL(t)
		if t.Sp != spNone {
			l.space(t, noNL)
		}
		if t.Multi && len(l.pending) > 0 {
			if noNL || t.Sp == spNone {
				return "", errLayout
			}
			l.newline()
		}
		l.write(t)
		if t.Hd != nil {
			l.pending = append(l.pending, t.Hd)
		}
		if t.StrOpen {
			l.strs = append(l.strs, len(l.pending) > 0)
		}
		if t.StrEnd {
			l.strs = l.strs[:len(l.strs)-1]
		}
	}
	if l.ctrNL < 0 {
		return "", errLayout
	}
	if len(l.pending) > 0 {
		if st.Epp {
			return "", errLayout
		}
		if r.P(40) {
			// Permit that the file ends with the end tag of the last heredoc
			l.pending[len(l.pending)-1] = &Hdoc{l.pending[len(l.pending)-1].Toks, ""}
			l.newline()
			return l.b.String(), nil
		}
		l.newline()
	}
	if !st.Epp && !st.OneLine && r.P(50) {
		for i := r.N(3); i > 0; i-- {
			l.piece(false, false)
		}
		if r.P(20) && st.Cmt > 0 {
			switch l.last() {
			case '/', '*', '<', '%', '-', '=', '|', '@':
				l.b.WriteByte(' ')
			}
			l.b.WriteString("# last comment")
		}
	}
	return l.b.String(), nil
}

func isW(c byte) bool {
	return c == '_' || c >= '0' && c <= '9' || c >= 'A' && c <= 'Z' || c >= 'a' && c <= 'z'
}

func isDig(c byte) bool { return c >= '0' && c <= '9' }

// canGlue returns true when text b can follow text a without white space, and still be recognized as a separate token
func canGlue(a, b string) bool {
	p := a[len(a)-1]
	if len(b) == 0 {
		return true
	}
	q := b[0]
	if p == ' ' || p == '\t' || p == '\n' || p == '\r' {
		return true
	}
	if p >= 0x80 {
		return false
	}
	dcolon := strings.HasPrefix(b, "::")
	if isW(p) {
		switch {
		case isW(q), dcolon, q >= 0x80:
			return false
		case q == '-':
			if !strings.HasPrefix(b, "->") {
				return false
			}
			return true
		case q == '.':
			return !endsWithNumber(a)
		case q == ':':
			return true
		}
		return true
	}
	switch p {
	case ')', ']', '}', '\'', '"', '`':
		return true
	case '(', '{', '[', ',', ';':
		return true
	case ':':
		return q != ':'
	}
	// operator characters
	if isW(q) {
		return !(isDig(q) && (p == '-' || p == '+'))
	}
	switch q {
	case '$', '\'', '"', '{', ')', ']', '}', ',', ';':
		return true
	case '(':
		return p != '@'
	case '[':
		return true
	}
	return dcolon
}

var operators = []string{"=", "+=", "-=", "*", "/", "%", "-", "+", "<<", ">>", "==", "!=", "<", "<=", ">", ">=", "=~", "!~", "<|", "<<|", "|>", "|>>",
	"=>", "+>", "->", "~>", "<-", "<~", "!", "@", "@@", "|", "?", "~"}

// splits returns true when the token can follow the previous token, which is an operator, because the longest operator at the start
// of the previous token is the previous token
func (l *layout) splits(t *Tok) bool {
	p := l.prev
	if p == nil || p.RawText || p.End != l.b.Len() || p.S == "" || t.S == "" || p.S == "?" || p.S == "@" && t.S == "(" {
		return false
	}
	found := false
	for _, o := range operators {
		if o == p.S {
			found = true
		}
	}
	if !found {
		return false
	}
	q := t.S[0]
	if isW(q) {
		// '-5' can differ from '- 5'
		return !isDig(q)
	}
	s := p.S + t.S
	if l.st.Epp && (strings.Contains(s, "<%") || strings.Contains(s, "%>")) || strings.Contains(s, "/*") || strings.HasPrefix(s, "//") || strings.HasPrefix(s, "*/") {
		return false
	}
	if q >= 0x80 || q == '#' || q == '.' || q == ':' {
		return false
	}
	longest := ""
	for _, o := range operators {
		if strings.HasPrefix(s, o) && len(o) > len(longest) {
			longest = o
		}
	}
	return longest == p.S
}

func endsWithNumber(a string) bool {
	i := len(a)
	for i > 0 && isW(a[i-1]) {
		i--
	}
	if i == len(a) || !isDig(a[i]) {
		return false
	}
	// A word that starts with a digit. Numeric variables are preceded by '$'
	return true
}
