package main

import (
	"fmt"
	"strconv"
	"strings"
	"unicode"
	"unicode/utf8"
)

// An independent parser for the language. It decides if a text is a program and, if so, which AST it has. In contrast to the
// generator, which only makes valid programs, it gives an answer for every text. It's written from the description of the
// grammar: tokens are classified by their text, binary operators are parsed by precedence climbing, and where the language needs
// more than one token of lookahead, alternatives are tried and taken back. It's used as the oracle for sources that were changed
// at random.

// rReject is the panic that rejects a source
type rReject struct {
	pos int
	why string
}

// rSkip is the panic for a source about which nothing is specified
type rSkip struct{ why string }

type rTok struct {
	k        string // kind
	s        string // text, for names, variables and strings
	i        int64
	f        float64
	radix    int64
	num      bool // numeric variable
	node     *T
	off, end int
}

const (
	rEOF = "eof"
	rID  = "identifier"
	rTN  = "type name"
	rStr = "string"
	rInt = "integer"
	rFlt = "float"
	rBol = "boolean"
	rDQ  = "interpolated string"
	rHD  = "heredoc"
	rVar = "variable"
	rRX  = "regexp"
	rTxt = "epp text"
	rKW  = "kw:" // prefix of keywords
)

var rKeywords = map[string]bool{}

func init() {
	for _, w := range strings.Fields("application and attr case class consumes default define function else elsif if in inherits node or plan private produces site type undef unless") {
		rKeywords[w] = true
	}
}

var rCalls = map[string]bool{}

func init() {
	for _, w := range strings.Fields("require realize include contain tag debug info notice warning err fail import break next return") {
		rCalls[w] = true
	}
}

type refParser struct {
	src    string
	tasks  bool
	wf     bool
	hex    bool
	bt     bool
	epp    bool
	single bool
	lexing bool // only tokens are read
	pos    int
	tok    rTok
	prev   string // kind of the token that precedes the one that is read
	bol    int    // where the current line of code starts
	resume int    // where the line after the current continues, when text of heredocs follow it, or -1
	inText bool   // the end of an EPP template was found in text
	neg    bool   // the number that is read is negated
	names  []string
	defs   []*T
	depth  int
	inHd   int
}

func (p *refParser) reject(why string) { panic(rReject{p.pos, why}) }

func (p *refParser) at(i int) byte {
	if i < 0 || i >= len(p.src) {
		return 0
	}
	return p.src[i]
}

func (p *refParser) rune(i int) rune {
	if i >= len(p.src) {
		return 0
	}
	c, _ := utf8.DecodeRuneInString(p.src[i:])
	return c
}

func (p *refParser) is(s string) bool { return strings.HasPrefix(p.src[p.pos:], s) }

func rDigit(c byte) bool { return c >= '0' && c <= '9' }
func rLower(c byte) bool { return c >= 'a' && c <= 'z' }
func rUpper(c byte) bool { return c >= 'A' && c <= 'Z' }
func rWord(c byte) bool  { return rDigit(c) || rLower(c) || rUpper(c) || c == '_' }
func rHex(c byte) bool {
	return rDigit(c) || c >= 'a' && c <= 'f' || c >= 'A' && c <= 'F'
}

// --- tokens ---

// space skips white space and comments
func (p *refParser) space() {
	for p.pos < len(p.src) {
		switch c := p.src[p.pos]; {
		case c == ' ' || c == '\t' || c == '\r':
			p.pos++
		case c == '\n':
			p.newline()
		case c == '#':
			for p.pos < len(p.src) && p.src[p.pos] != '\n' {
				p.pos++
			}
		case p.is("/*"):
			e := strings.Index(p.src[p.pos+2:], "*/")
			if e < 0 {
				p.reject("unterminated comment")
			}
			p.pos += e + 4
		default:
			return
		}
	}
}

func (p *refParser) newline() {
	p.pos++
	if p.resume > p.pos { // unless a token, that started on the line, ended after the text of the heredocs
		p.pos = p.resume
	}
	p.resume = -1
	p.bol = p.pos
}

var rOps = []string{"<<|", "|>>", "==", "=~", "=>", "!=", "!~", "+=", "+>", "-=", "->", "<=", "<<", "<|", "<-", "<~", ">=", ">>", "~>", "|>", "@@",
	"=", "!", "+", "-", "*", "/", "%", "<", ">", "@", "|", "(", ")", "[", "]", "{", "}", ",", ";", ".", "?", ":"}

// next reads a token
func (p *refParser) next() {
	p.prev = p.tok.k
	p.read(p.pos)
}

func (p *refParser) set(k string, start int) {
	p.tok = rTok{k: k, off: start, end: p.pos}
}

func (p *refParser) read(from int) {
	p.space()
	start := p.pos
	c := p.at(start)
	switch {
	case start >= len(p.src):
		if p.epp && !p.inText {
			p.reject("the last tag isn't closed")
		}
		p.set(rEOF, start)
	case rDigit(c):
		p.number(start)
	case rUpper(c) || p.is("::") && rUpper(p.at(start+2)):
		p.typeName(start)
	case rLower(c) || p.is("::") && rLower(p.at(start+2)):
		p.name(start)
	case p.is("::"):
		p.reject("'::' isn't followed by a name")
	case c == '\'':
		p.pos++
		s := p.singleQuoted()
		p.set(rStr, start)
		p.tok.s = s
	case c == '"':
		p.double(start)
	case c == '`' && p.bt:
		e := strings.IndexByte(p.src[start+1:], '`')
		if e < 0 {
			p.reject("unterminated string")
		}
		p.pos = start + 1 + e + 1
		p.set(rStr, start)
		p.tok.s = p.src[start+1 : p.pos-1]
	case c == '$':
		p.variable(start)
	case c == '/' && !rOperand[p.prev] && p.regexp(start):
	case p.is("@("):
		p.heredoc(start)
	case p.epp && p.is("%>"):
		p.pos += 2
		p.text()
	case p.epp && p.is("-%"):
		if !p.is("-%>") {
			p.reject("-%")
		}
		p.pos += 3
		i := p.pos
		for p.at(i) == ' ' || p.at(i) == '\t' {
			i++
		}
		p.pos = i
		if strings.HasPrefix(p.src[i:], "\r\n") {
			p.pos = i + 2
		} else if p.at(i) == '\n' {
			p.pos = i + 1
		}
		p.text()
	case p.epp && p.is("<%="):
		p.pos += 3
		p.set("<%=", start)
	case p.epp && p.is("<%"):
		p.pos += 2
		if p.at(p.pos) == '-' {
			p.pos++
		}
		p.bol = p.pos
		p.read(p.pos)
	default:
		for _, op := range rOps {
			if p.is(op) {
				p.pos += len(op)
				p.operator(op, from, start)
				return
			}
		}
		p.reject("unexpected character")
	}
}

var rOperand = map[string]bool{")": true, "]": true, rTN: true, rID: true, rBol: true, rInt: true, rFlt: true, rStr: true, rHD: true, rDQ: true, rRX: true, rVar: true}

// operator sets the token for an operator. The tokens '(' and '[' are different depending on the space that precedes them
func (p *refParser) operator(op string, from, start int) {
	switch op {
	case "(":
		if from <= p.bol && p.bol <= start {
			op = "\n("
		}
	case "[":
		if from < start || start == 0 || start == p.bol {
			op = " ["
		}
	case "{":
		if p.prev == "?" {
			op = "?{"
		}
	case "|":
		// The end of a parameter list is followed by a block, or by a type
		end := p.prev == "|"
		if !end {
			save := *p
			p.space()
			c := p.at(p.pos)
			end = c == '{' || c == '>' || p.epp && (c == '%' || c == '-')
			*p = save
		}
		if end {
			op = "|end"
		}
	}
	p.set(op, start)
}

func (p *refParser) digits() int {
	n := p.pos
	for rDigit(p.at(p.pos)) {
		p.pos++
	}
	return p.pos - n
}

func (p *refParser) number(start int) {
	c := p.at(start)
	if c == '0' && (p.at(start+1) == 'x' || p.at(start+1) == 'X') {
		p.pos += 2
		for rHex(p.at(p.pos)) {
			p.pos++
		}
		if p.pos == start+2 {
			p.reject("no hexadecimal digits")
		}
		p.integer(start, start+2, 16)
		return
	}
	p.digits()
	float := false
	if p.at(p.pos) == '.' && !(c == '0' && p.pos > start+1) {
		float = true
		p.pos++
		if p.digits() == 0 {
			p.reject("no digits in fraction")
		}
	}
	if float && p.pos == start {
		p.reject("no digits")
	}
	if c := p.at(p.pos); c == 'e' || c == 'E' {
		float = true
		p.pos++
		if c := p.at(p.pos); c == '+' || c == '-' {
			p.pos++
		}
		if p.digits() == 0 {
			p.reject("no digits in exponent")
		}
	}
	if float {
		s := p.src[start:p.pos]
		if c == '0' && s[1] != '.' && s[1] != 'e' && s[1] != 'E' {
			p.reject("octal number with fraction")
		}
		v, err := strconv.ParseFloat(s, 64)
		if err != nil {
			p.reject("number out of range")
		}
		p.noLetter()
		if p.neg {
			v = -v
		}
		p.set(rFlt, start)
		p.tok.f = v
		return
	}
	if c == '0' && p.pos > start+1 {
		p.integer(start, start+1, 8)
		return
	}
	p.integer(start, start, 10)
}

func (p *refParser) noLetter() {
	if unicode.IsLetter(p.rune(p.pos)) {
		p.reject("letter after number")
	}
}

func (p *refParser) integer(start, digits, radix int) {
	if radix == 16 {
		if rWord(p.at(p.pos)) {
			p.reject("letter after number")
		}
	} else {
		p.noLetter()
	}
	s := p.src[digits:p.pos]
	if p.neg {
		s = "-" + s
	}
	v, err := strconv.ParseInt(s, radix, 64)
	if err != nil {
		p.reject("not a number")
	}
	p.set(rInt, start)
	p.tok.i = v
	p.tok.radix = int64(radix)
}

func (p *refParser) words() {
	for rWord(p.at(p.pos)) {
		p.pos++
	}
}

func (p *refParser) typeName(start int) {
	for {
		if p.is("::") {
			p.pos += 2
			if !rUpper(p.at(p.pos)) {
				p.reject("invalid type name")
			}
		}
		p.words()
		if !p.is("::") {
			break
		}
	}
	p.set(rTN, start)
	p.tok.s = p.src[start:p.pos]
}

func (p *refParser) name(start int) {
	dash := false
	for {
		if p.is("::") {
			p.pos += 2
			if !rLower(p.at(p.pos)) {
				p.reject("invalid name")
			}
		}
		for {
			p.words()
			i := p.pos
			for p.at(i) == '-' {
				i++
			}
			if i == p.pos || !rWord(p.at(i)) {
				break
			}
			dash = true
			p.pos = i
		}
		if !p.is("::") {
			break
		}
	}
	w := p.src[start:p.pos]
	p.set(rID, start)
	p.tok.s = w
	switch {
	case dash:
		p.tok.k = rStr
	case w == "true" || w == "false":
		p.tok.k = rBol
	case w == "plan" && !p.tasks:
	case rKeywords[w]:
		p.tok.k = rKW + w
	}
}

func (p *refParser) variable(start int) {
	p.pos++
	if rDigit(p.at(p.pos)) {
		p.digits()
		v, err := strconv.ParseInt(p.src[start+1:p.pos], 10, 64)
		if err != nil {
			p.reject("number out of range")
		}
		p.set(rVar, start)
		p.tok.num = true
		p.tok.i = v
		return
	}
	if p.at(p.pos) == ':' {
		if p.is("::_") && p.lexing {
			panic(rSkip{"a global variable that starts with an underscore"})
		}
		if !p.is("::") || !rLower(p.at(p.pos+2)) {
			p.reject("invalid variable name")
		}
	}
	if !p.is("::") && !rLower(p.at(p.pos)) {
		if unicode.IsLetter(p.rune(p.pos)) {
			p.reject("invalid variable name")
		}
		p.set(rVar, start)
		return
	}
	under := false
	for {
		if p.is("::") {
			p.pos += 2
			c := p.at(p.pos)
			if under || !(rLower(c) || c == '_') {
				p.reject("invalid variable name")
			}
			under = c == '_'
		}
		p.words()
		if !p.is("::") {
			break
		}
	}
	p.set(rVar, start)
	p.tok.s = p.src[start+1 : p.pos]
}

func (p *refParser) singleQuoted() string {
	b := &strings.Builder{}
	for p.pos < len(p.src) {
		c := p.src[p.pos]
		p.pos++
		switch {
		case c == '\'':
			return b.String()
		case c == '\\' && (p.at(p.pos) == '\'' || p.at(p.pos) == '\\'):
			b.WriteByte(p.at(p.pos))
			p.pos++
		default:
			b.WriteByte(c)
		}
	}
	p.reject("unterminated string")
	return ""
}

func (p *refParser) regexp(start int) bool {
	b := &strings.Builder{}
	for i := start + 1; i < len(p.src); i++ {
		c := p.src[i]
		switch {
		case c == '/':
			p.pos = i + 1
			p.set(rRX, start)
			p.tok.s = b.String()
			return true
		case c == '\\' && p.at(i+1) == '/':
			b.WriteByte('/')
			i++
		case c == '\\' && i+1 < len(p.src):
			b.WriteString(p.src[i : i+2])
			i++
		default:
			b.WriteByte(c)
		}
	}
	return false
}

// hexCode reads the number of a unicode escape, after the 'u'
func (p *refParser) unicodeEscape() string {
	h := ""
	if p.at(p.pos) == '{' {
		e := strings.IndexByte(p.src[p.pos:], '}')
		if e < 0 {
			p.reject("unicode escape")
		}
		h = p.src[p.pos+1 : p.pos+e]
		p.pos += e + 1
		if len(h) < 2 || len(h) > 6 {
			p.reject("unicode escape")
		}
	} else {
		if p.pos+4 > len(p.src) {
			p.reject("unicode escape")
		}
		h = p.src[p.pos : p.pos+4]
		p.pos += 4
	}
	n := 0
	for i := 0; i < len(h); i++ {
		if !rHex(h[i]) {
			p.reject("unicode escape")
		}
		n = n*16 + strings.IndexByte("0123456789abcdef", h[i]|0x20&(h[i]>>1))
	}
	if n > 0x10ffff || n >= 0xd800 && n < 0xe000 {
		n = 0xfffd
	}
	return string(rune(n))
}

// segs collects the segments of a string
type segs struct {
	b     strings.Builder
	list  []*T
	start int // where the current literal segment starts
}

func (s *segs) literal() {
	if s.b.Len() > 0 {
		s.list = append(s.list, &T{K: "String", A: attrs(str("value", s.b.String())), Off: s.start})
		s.b.Reset()
	}
}

// result returns nil if the string has no interpolations
func (s *segs) result(off int) *T {
	if len(s.list) == 0 {
		return nil
	}
	s.literal()
	return &T{K: "Concat", F: fields(many("segments", s.list)), Off: off}
}

func (p *refParser) double(start int) {
	p.pos++
	s := &segs{start: start}
	for {
		if p.pos >= len(p.src) {
			p.reject("unterminated string")
		}
		c := p.src[p.pos]
		if c == '"' {
			p.pos++
			break
		}
		if c == '$' && !p.lexing {
			p.interpolation(s)
			continue
		}
		p.pos++
		if c != '\\' {
			s.b.WriteByte(c)
			continue
		}
		if p.pos >= len(p.src) {
			p.reject("unterminated string")
		}
		c = p.src[p.pos]
		p.pos++
		switch c {
		case '"', '\\', '\'', '$':
			s.b.WriteByte(c)
		case 'n':
			s.b.WriteByte('\n')
		case 'r':
			s.b.WriteByte('\r')
		case 't':
			s.b.WriteByte('\t')
		case 's':
			s.b.WriteByte(' ')
		case 'u':
			s.b.WriteString(p.unicodeEscape())
		case 'x':
			if !p.hex {
				s.b.WriteString("\\x")
				break
			}
			if !rHex(p.at(p.pos)) || !rHex(p.at(p.pos+1)) {
				p.reject("hex escape")
			}
			v, _ := strconv.ParseUint(p.src[p.pos:p.pos+2], 16, 8)
			s.b.WriteByte(byte(v))
			p.pos += 2
		default:
			s.b.WriteByte('\\')
			s.b.WriteByte(c)
		}
	}
	if t := s.result(start); t != nil {
		p.set(rDQ, start)
		p.tok.node = t
		return
	}
	p.set(rStr, start)
	p.tok.s = s.b.String()
}

// interpolation reads what's interpolated in a string, starting at the '$'
func (p *refParser) interpolation(s *segs) {
	start := p.pos
	s.literal()
	text := &T{K: "Text", Off: start}
	var e *T
	if p.at(start+1) == '{' {
		p.pos += 2
		save := *p
		p.tok = rTok{k: "{"}
		p.next()
		if p.tok.k == "}" {
			e = p.mk("Undef", p.tok.off)
		} else {
			e = p.relationship()
			p.expect("}")
		}
		e = leadingVariable(e, start)
		p.prev = save.prev
		p.neg = save.neg
	} else {
		c := p.at(start + 1)
		if !(c == ':' || rLower(c) || rDigit(c)) {
			p.reject("malformed interpolation")
		}
		p.variable(start)
		e = p.varNode(p.tok)
	}
	text.F = fields(one("expr", e))
	s.list = append(s.list, text)
	s.start = p.pos
}

// leadingVariable makes a variable of the name that an interpolated expression starts with
func leadingVariable(e *T, off int) *T {
	switch e.K {
	case "Name":
		return &T{K: "Variable", F: fields(one("expr", e)), Off: off}
	case "Access":
		if o := leadingVariable(e.One("operand"), off); o != e.One("operand") {
			c := *e
			c.F = fields(one("operand", o), e.F[1])
			c.Off = off
			return &c
		}
	case "NamedAccess":
		if o := leadingVariable(e.One("lhs"), off); o != e.One("lhs") {
			c := *e
			c.F = fields(one("lhs", o), e.F[1])
			c.Off = off
			return &c
		}
	case "CallMethod":
		if o := leadingVariable(e.One("functor"), off); o != e.One("functor") {
			c := *e
			c.F = fields(one("functor", o), e.F[1], e.F[2])
			c.Off = off
			return &c
		}
	}
	return e
}

func (p *refParser) lineEnd(i int) int {
	if n := strings.IndexByte(p.src[i:], '\n'); n >= 0 {
		return i + n
	}
	return -1
}

// heredoc reads a heredoc declaration and the text that it declares
func (p *refParser) heredoc(start int) {
	i := start + 2
	le := p.lineEnd(i)
	if le < 0 {
		le = len(p.src)
	}
	line := p.src[:le]
	tag, syntax, flags := "", "", ""
	quoted, hasSyntax, hasFlags := false, false, false
	part := i // where the current part starts
	for {
		if i >= len(line) {
			p.reject("unterminated heredoc declaration")
		}
		c := line[i]
		if c == ')' {
			switch {
			case hasFlags:
				flags = line[part:i]
			case hasSyntax:
				syntax = line[part:i]
			case tag == "":
				tag = line[part:i]
			}
			break
		}
		switch c {
		case ':':
			if hasFlags || hasSyntax {
				p.reject("second syntax, or after the flags")
			}
			if tag == "" {
				tag = line[part:i]
			}
			hasSyntax = true
			part = i + 1
		case '/':
			if hasFlags {
				p.reject("second flags")
			}
			if hasSyntax {
				syntax = line[part:i]
			} else if tag == "" {
				tag = line[part:i]
			}
			hasFlags = true
			part = i + 1
		case '"':
			if tag != "" {
				p.reject("second tag")
			}
			e := strings.IndexByte(line[i+1:], '"')
			if e <= 0 {
				p.reject("empty, or unterminated, quoted tag")
			}
			quoted = true
			tag = line[i+1 : i+1+e]
			i += e + 1
		}
		i++
	}
	if tag == "" {
		p.reject("empty tag")
	}
	for k := 0; k < len(flags); k++ {
		if strings.IndexByte("trnsuL$", flags[k]) < 0 {
			p.reject("illegal flag")
		}
	}
	after := i + 1
	p.pos = after

	// The text starts on the next line, unless the text of another heredoc does
	p.skipLine()
	if p.pos >= len(p.src) {
		p.reject("no heredoc text")
	}
	content := p.pos + 1
	if p.resume > content {
		content = p.resume
	}
	p.resume = -1

	// Find the line with the end tag
	blank := func(i int) int {
		for i < len(p.src) && (p.src[i] == ' ' || p.src[i] == '\t' || p.src[i] == '\r') {
			i++
		}
		return i
	}
	margin, end, resume := 0, -1, -1
	for ls := content; ; {
		k := blank(ls)
		m, trim := 0, false
		if p.at(k) == '|' {
			m = k - ls
			k = blank(k + 1)
		}
		if p.at(k) == '-' {
			trim = true
			k = blank(k + 1)
		}
		if strings.HasPrefix(p.src[k:], tag) {
			k = blank(k + len(tag))
			if k == len(p.src) || p.src[k] == '\n' {
				margin, end, resume = m, ls, k
				if k < len(p.src) {
					resume++
				}
				if trim && end > content {
					end--
					if end > content && p.src[end-1] == '\r' {
						end--
					}
				}
				break
			}
		}
		le := p.lineEnd(ls)
		if le < 0 {
			p.reject("unterminated heredoc")
		}
		ls = le + 1
	}

	s := &segs{start: content}
	if quoted || hasFlags || margin > 0 {
		p.inHd++
		p.heredocText(s, content, end, margin, flags, quoted)
		p.inHd--
	} else {
		s.b.WriteString(p.src[content:end])
	}
	text := s.result(content)
	if text == nil {
		text = &T{K: "String", A: attrs(str("value", s.b.String())), Off: content}
	}
	p.pos = after
	p.resume = resume
	if p.lexing {
		p.set(rStr, start)
		return
	}
	p.set(rHD, start)
	p.tok.node = &T{K: "Heredoc", A: attrs(str("syntax", syntax)), F: fields(one("text", text)), Off: start}
}

// skipLine skips to the end of the line, which can be after a comment
func (p *refParser) skipLine() {
	for p.pos < len(p.src) {
		c := p.src[p.pos]
		switch {
		case c == '\n':
			return
		case c == '#':
			if e := p.lineEnd(p.pos); e >= 0 {
				p.pos = e
			} else {
				p.pos = len(p.src)
			}
		case p.is("/*"):
			e := strings.Index(p.src[p.pos+2:], "*/")
			if e < 0 {
				p.reject("unterminated comment")
			}
			p.pos += e + 4
		case c == '\\':
			p.pos++
			if p.pos < len(p.src) && p.src[p.pos] != '\n' {
				p.pos++
			}
		case c == '\'' || c == '"':
			p.pos++
			for i := p.pos; i < len(p.src) && p.src[i] != '\n'; i++ {
				if p.src[i] == c {
					p.pos = i + 1
					break
				}
				if p.src[i] == '\\' && p.at(i+1) != '\n' {
					i++
				}
			}
		default:
			p.pos++
		}
	}
}

func (p *refParser) heredocText(s *segs, start, end, margin int, flags string, quoted bool) {
	p.pos = start
	has := func(c byte) bool { return strings.IndexByte(flags, c) >= 0 }
	strip := func() {
		n := 0
		for n < margin && (p.at(p.pos+n) == ' ' || p.at(p.pos+n) == '\t') {
			n++
		}
		if n == margin {
			p.pos += n
		}
	}
	dollar := func() {
		p.interpolation(s)
		if p.pos > end {
			p.reject("interpolation isn't terminated in heredoc")
		}
	}
	strip()
	for p.pos < end {
		c := p.src[p.pos]
		if c == '$' && quoted && !p.lexing {
			dollar()
			continue
		}
		p.pos++
		if c == '\n' {
			s.b.WriteByte(c)
			strip()
			continue
		}
		if c != '\\' || p.pos >= end {
			s.b.WriteByte(c)
			continue
		}
		e := p.src[p.pos]
		switch {
		case e == '\r' && has('L') && p.pos+1 < end && p.src[p.pos+1] == '\n':
			p.pos += 2
			strip()
		case e == '\n' && has('L'):
			p.pos++
			strip()
		case e == 'u' && has('u'):
			p.pos++
			s.b.WriteString(p.unicodeEscape())
		case e == 'n' && has('n'):
			p.pos++
			s.b.WriteByte('\n')
		case e == 'r' && has('r'):
			p.pos++
			s.b.WriteByte('\r')
		case e == 't' && has('t'):
			p.pos++
			s.b.WriteByte('\t')
		case e == 's' && has('s'):
			p.pos++
			s.b.WriteByte(' ')
		case e == '$' && has('$'):
			p.pos++
			s.b.WriteByte('$')
		case e == '\\':
			p.pos++
			s.b.WriteString("\\\\")
		default:
			s.b.WriteByte('\\')
		}
	}
}

// text reads the text of an EPP template up to, and including, the start of the next tag
func (p *refParser) text() {
	b := &strings.Builder{}
	start := p.pos
	keep := 0 // length of the text without trailing blanks
	p.inText = false
	for p.pos < len(p.src) {
		switch {
		case p.is("<%%"):
			p.pos += 3
			b.WriteString("<%")
			keep = b.Len()
		case p.is("<%#"):
			i := p.pos + 3
			prev := byte('#')
			for {
				if i >= len(p.src) {
					p.reject("unbalanced comment")
				}
				if p.src[i] == '%' && p.at(i+1) == '>' && prev != '%' {
					break
				}
				prev = p.src[i]
				i++
			}
			p.pos = i + 2
		case p.is("<%"):
			v := b.String()
			if p.at(p.pos+2) == '-' {
				v = v[:keep]
			}
			p.bol = p.pos
			tag := p.pos
			if v == "" {
				p.tok = rTok{k: rTxt}
				p.depth++
				p.next()
				p.depth--
				return
			}
			p.set(rTxt, start)
			p.tok.s = v
			p.tok.end = tag
			return
		case p.is("%%>"):
			p.pos += 3
			b.WriteString("%>")
			keep = b.Len()
		case p.is("%%"):
			p.pos += 2
			b.WriteString("%%")
			keep = b.Len()
		default:
			c := p.src[p.pos]
			p.pos++
			b.WriteByte(c)
			if !(c == ' ' || c == '\t') {
				keep = b.Len()
			}
		}
	}
	p.inText = true
	if b.Len() == 0 {
		p.set(rEOF, start)
		return
	}
	p.set(rTxt, start)
	p.tok.s = b.String()
}

// --- nodes ---

func (p *refParser) mk(k string, off int, fs ...Field) *T { return &T{K: k, Off: off, F: fs} }

func (p *refParser) mkA(k string, off int, as []Attr, fs ...Field) *T {
	return &T{K: k, Off: off, A: as, F: fs}
}

func rName(s string, off int) *T { return &T{K: "Name", A: attrs(str("name", s)), Off: off} }

func rType(s string, off int) *T {
	return &T{K: "TypeName", A: attrs(str("name", s), str("down", strings.ToLower(s))), Off: off}
}

func (p *refParser) varNode(t rTok) *T {
	var n *T
	if t.num {
		n = p.mkA("Integer", t.off+1, attrs(num("value", t.i), num("radix", 10)))
	} else {
		n = rName(t.s, t.off+1)
	}
	return p.mk("Variable", t.off, one("expr", n))
}

func (p *refParser) kw(w string) bool { return p.tok.k == rKW+w }

func (p *refParser) expect(k string) {
	if p.tok.k != k {
		p.reject("expected " + k + " and got " + p.tok.k)
	}
}

func (p *refParser) take(k string) {
	p.expect(k)
	p.next()
}

func (p *refParser) isOpenParen() bool { return p.tok.k == "(" || p.tok.k == "\n(" }

// word returns the text of the current token if it's a name or a keyword
func (p *refParser) word() (string, bool) {
	if p.tok.k == rID {
		return p.tok.s, true
	}
	if strings.HasPrefix(p.tok.k, rKW) {
		return p.tok.k[len(rKW):], true
	}
	return "", false
}

func (p *refParser) define(t *T) *T {
	p.defs = append(p.defs, t)
	return t
}

func (p *refParser) qualified(n string) string {
	return strings.Join(append(append([]string{}, p.names...), n), "::")
}

// list parses comma separated items, with an optional trailing comma, up to one of the given tokens
func (p *refParser) list(item func() *T, ends ...string) (r []*T) {
	done := func() bool {
		for _, e := range ends {
			if p.tok.k == e {
				return true
			}
		}
		return false
	}
	for !done() {
		r = append(r, item())
		if done() {
			break
		}
		p.take(",")
	}
	return
}

// --- statements ---

// block parses statements up to the given token
func (p *refParser) block(end string) *T {
	off := p.tok.off
	var ss [][]*T
	for p.tok.k != end {
		ss = append(ss, p.statement())
	}
	return p.mk("Block", off, many("statements", p.calls(ss)))
}

// statement parses a list of comma separated expressions, and the semicolon that can end it
func (p *refParser) statement() []*T {
	r := []*T{p.relationship()}
	for p.tok.k == "," {
		p.next()
		r = append(r, p.relationship())
	}
	if p.tok.k == ";" {
		p.next()
	}
	return r
}

// calls finds the names of statement functions that are followed by arguments
func (p *refParser) calls(ss [][]*T) (r []*T) {
	for i := 0; i < len(ss); i++ {
		s := ss[i]
		e := s[0]
		if len(s) == 1 && e.K == "Name" && rCalls[e.Str("name")] && i+1 < len(ss) {
			i++
			args := ss[i]
			if len(args) == 1 && args[0].K == "CallNamed" {
				args[0].Set("rval", true)
			}
			r = append(r, p.mkA("CallNamed", e.Off, attrs(boolean("rval", false)), one("functor", e), many("args", args), one("lambda", nil)))
			continue
		}
		if len(s) > 1 {
			p.reject("extraneous comma")
		}
		if e.K == "CallNamed" {
			e.Set("rval", false)
		}
		r = append(r, e)
	}
	return
}

// --- expressions ---

func (p *refParser) enter() {
	p.depth++
	if p.depth > 4000 {
		panic(rSkip{"nesting"})
	}
}

func (p *refParser) relationship() *T {
	e := p.assignment()
	for {
		switch op := p.tok.k; op {
		case "->", "~>", "<-", "<~":
			p.next()
			e = p.mkA("Relationship", e.Off, attrs(str("op", op)), one("lhs", e), one("rhs", p.assignment()))
		default:
			return e
		}
	}
}

func (p *refParser) assignment() *T {
	p.enter()
	defer func() { p.depth-- }()
	e := p.resource()
	switch op := p.tok.k; op {
	case "=", "+=", "-=":
		p.next()
		e = p.mkA("Assignment", e.Off, attrs(str("op", op)), one("lhs", e), one("rhs", p.assignment()))
	}
	return e
}

// resource parses an expression that can be what a resource expression, or a workflow step, starts with
func (p *refParser) resource() *T {
	e := p.expression()
	if p.tok.k == "{" {
		return p.resourceOf(e, "regular", e.Off)
	}
	if p.wf && e.K == "Name" {
		if style := e.Str("name"); rStyles[style] {
			if name, ok := p.word(); ok {
				p.next()
				return p.step(e.Off, style, name, true)
			}
		}
	}
	return e
}

var rStyles = map[string]bool{"action": true, "resource": true, "stateHandler": true, "workflow": true}

// expression is what operators and selectors form, and capability mappings
func (p *refParser) expression() *T {
	e := p.binary(1)
	for p.tok.k == "?" {
		p.next()
		var es []*T
		if p.tok.k == "?{" {
			p.next()
			es = p.list(p.selectorEntry, "}")
			p.next()
		} else {
			es = []*T{p.selectorEntry()}
		}
		e = p.mk("Selector", e.Off, one("lhs", e), many("selectors", es))
	}
	if p.kw("produces") || p.kw("consumes") {
		switch e.K {
		case "Name", "TypeName", "Reserved", "Access":
			kind, _ := p.word()
			p.next()
			c := p.className()
			ops := p.bracedOps()
			if e.K == "Reserved" {
				e = rName(p.qualified(e.Str("name")), e.Off)
			}
			return p.define(p.mkA("CapabilityMapping", e.Off, attrs(str("kind", kind), str("capability", p.qualified(c))), one("component", e), many("mappings", ops)))
		}
	}
	return e
}

func (p *refParser) selectorEntry() *T {
	m := p.expression()
	p.take("=>")
	return p.mk("SelectorEntry", m.Off, one("matching", m), one("value", p.expression()))
}

func (p *refParser) bracedOps() []*T {
	p.take("{")
	ops := p.attributeOps()
	p.take("}")
	return ops
}

type rBin struct {
	prec int
	kind string
}

var rBinary = map[string]rBin{
	rKW + "or": {1, "Or"}, rKW + "and": {2, "And"},
	"<": {3, "Comparison"}, "<=": {3, "Comparison"}, ">": {3, "Comparison"}, ">=": {3, "Comparison"},
	"==": {4, "Comparison"}, "!=": {4, "Comparison"},
	"<<": {5, "Arithmetic"}, ">>": {5, "Arithmetic"},
	"+": {6, "Arithmetic"}, "-": {6, "Arithmetic"},
	"*": {7, "Arithmetic"}, "/": {7, "Arithmetic"}, "%": {7, "Arithmetic"},
	"=~": {8, "Match"}, "!~": {8, "Match"},
	rKW + "in": {9, "In"},
}

// binary parses left associative operators of the given precedence, or higher
func (p *refParser) binary(min int) *T {
	e := p.unary()
	for {
		op := p.tok.k
		b, ok := rBinary[op]
		if !ok || b.prec < min {
			return e
		}
		p.next()
		rhs := p.binary(b.prec + 1)
		n := p.mk(b.kind, e.Off, one("lhs", e), one("rhs", rhs))
		if !strings.HasPrefix(op, rKW) {
			n.A = attrs(str("op", op))
		}
		e = n
	}
}

func (p *refParser) unary() *T {
	p.enter()
	defer func() { p.depth-- }()
	off := p.tok.off
	switch p.tok.k {
	case "-", "+":
		minus := p.tok.k == "-"
		if rDigit(p.at(p.pos)) {
			p.neg = minus
			p.next()
			p.neg = false
			p.tok.off = off
			return p.primary()
		}
		if !minus {
			p.reject("plus without number")
		}
		p.next()
		return p.mk("Minus", off, one("expr", p.primary()))
	case "!":
		p.next()
		return p.mk("Not", off, one("expr", p.unary()))
	case "*":
		p.next()
		return p.mk("Unfold", off, one("expr", p.unary()))
	case "@", "@@":
		form := "virtual"
		if p.tok.k == "@@" {
			form = "exported"
		}
		p.next()
		e := p.primary()
		p.expect("{")
		return p.resourceOf(e, form, off)
	}
	return p.primary()
}

// primary parses an atom, and the calls, accesses and collectors that follow it
func (p *refParser) primary() *T {
	e := p.atom()
	// names that follow dots are method calls, unless followed by an access
	for {
		switch p.tok.k {
		case "(", "|":
			var args []*T
			if p.tok.k == "(" {
				args = p.args()
			}
			var lambda *T
			if p.tok.k == "|" {
				lambda = p.lambda()
			}
			if e.K == "NamedAccess" {
				e = methodCall(e, args, lambda)
			} else {
				e = p.mkA("CallNamed", e.Off, attrs(boolean("rval", true)), one("functor", e), many("args", args), one("lambda", lambda))
			}
		case "<|", "<<|":
			e = p.collector(e)
		case "[":
			p.next()
			keys := p.entries("]")
			if e.K == "Name" && rCalls[e.Str("name")] {
				l := p.mk("List", e.Off, many("elements", keys))
				e = p.mkA("CallNamed", e.Off, attrs(boolean("rval", false)), one("functor", e), many("args", []*T{l}), one("lambda", nil))
			} else {
				e = p.mk("Access", e.Off, one("operand", e), many("keys", keys))
			}
		case ".":
			p.next()
			var rhs *T
			if p.kw("type") {
				rhs = rName("type", p.tok.off)
				p.next()
			} else {
				rhs = p.atom()
			}
			e = p.mk("NamedAccess", e.Off, one("lhs", e), one("rhs", rhs))
		default:
			if e.K == "NamedAccess" {
				e = methodCall(e, nil, nil)
			}
			return e
		}
	}
}

// methodCall makes a method call from a name after a dot. So is the name before that, when there's one
func methodCall(e *T, args []*T, lambda *T) *T {
	if l := e.One("lhs"); l.K == "NamedAccess" {
		e = &T{K: "NamedAccess", Off: e.Off, F: fields(one("lhs", methodCall(l, nil, nil)), e.F[1])}
	}
	return &T{K: "CallMethod", Off: e.Off, A: attrs(boolean("rval", true)), F: fields(one("functor", e), many("args", args), one("lambda", lambda))}
}

// args parses parenthesized arguments
func (p *refParser) args() []*T {
	p.next()
	return p.entries(")")
}

// entries parses arguments or elements of a list, up to and including the end. Adjacent key-value pairs are made into a hash
func (p *refParser) entries(end string) (r []*T) {
	es := p.list(p.entry, end)
	p.next()
	for i := 0; i < len(es); i++ {
		if es[i].K != "KeyedEntry" {
			r = append(r, es[i])
			continue
		}
		h := p.mk("Hash", es[i].Off)
		var hs []*T
		for ; i < len(es) && es[i].K == "KeyedEntry"; i++ {
			hs = append(hs, es[i])
		}
		i--
		h.F = fields(many("entries", hs))
		r = append(r, h)
	}
	return
}

func (p *refParser) entry() *T {
	e := p.keywordOr()
	if p.tok.k == "=>" {
		p.next()
		e = p.mk("KeyedEntry", e.Off, one("key", e), one("value", p.keywordOr()))
	}
	return e
}

func (p *refParser) hashEntry() *T {
	k := p.keywordOr()
	return p.hashEntryOf(k)
}

func (p *refParser) hashEntryOf(k *T) *T {
	p.take("=>")
	return p.mk("KeyedEntry", k.Off, one("key", k), one("value", p.keywordOr()))
}

// keywordOr parses an expression where some keywords are names
func (p *refParser) keywordOr() *T {
	w, _ := p.word()
	if p.tok.k != rID {
		switch w {
		case "type", "function", "plan", "application", "consumes", "produces", "site":
			e := rName(w, p.tok.off)
			p.next()
			if p.tok.k == "(" {
				args := p.args()
				var lambda *T
				if p.tok.k == "|" {
					lambda = p.lambda()
				}
				e = p.mkA("CallNamed", e.Off, attrs(boolean("rval", true)), one("functor", e), many("args", args), one("lambda", lambda))
			}
			return e
		}
	}
	return p.relationship()
}

func (p *refParser) lambda() *T {
	off := p.tok.off
	p.next()
	params := p.list(p.parameter, "|end", "|")
	p.next()
	ret := p.returns()
	body := p.body()
	return p.mk("Lambda", off, many("params", params), one("body", body), one("returns", ret))
}

func (p *refParser) returns() *T {
	if p.tok.k != ">>" {
		return nil
	}
	p.next()
	return p.typeRef()
}

// body parses a block within braces
func (p *refParser) body() *T {
	p.take("{")
	b := p.block("}")
	p.next()
	return b
}

func (p *refParser) typeRef() *T {
	p.expect(rTN)
	t := rType(p.tok.s, p.tok.off)
	p.next()
	if p.tok.k == "[" {
		p.next()
		return p.mk("Access", t.Off, one("operand", t), many("keys", p.entries("]")))
	}
	return t
}

func (p *refParser) parameter() *T {
	off := p.tok.off
	var typ, value *T
	rest := false
	if p.tok.k == rTN {
		typ = p.typeRef()
	}
	if p.tok.k == "*" {
		rest = true
		p.next()
	}
	name := p.paramName()
	if p.tok.k == "=" {
		p.next()
		value = p.expression()
	}
	return p.mkA("Parameter", off, attrs(str("name", name), boolean("rest", rest)), one("type", typ), one("value", value))
}

func (p *refParser) paramName() string {
	p.expect(rVar)
	if p.tok.num || p.tok.s == "" {
		p.reject("not the name of a parameter")
	}
	n := p.tok.s
	p.next()
	return n
}

// params parses an optional parameter list
func (p *refParser) params() []*T {
	if !p.isOpenParen() {
		return nil
	}
	p.next()
	ps := p.list(p.parameter, ")")
	p.next()
	return ps
}

func (p *refParser) atom() *T {
	t := p.tok
	off := t.off
	leaf := func(k string, as ...Attr) *T {
		p.next()
		return p.mkA(k, off, as)
	}
	switch t.k {
	case "(", "\n(":
		p.next()
		e := p.relationship()
		p.take(")")
		return p.mk("Paren", off, one("expr", e))
	case "[", " [":
		p.next()
		return p.mk("List", off, many("elements", p.entries("]")))
	case "{":
		p.next()
		es := p.list(p.hashEntry, "}")
		p.next()
		return p.mk("Hash", off, many("entries", es))
	case rBol:
		return leaf("Boolean", boolean("value", t.s == "true"))
	case rInt:
		return leaf("Integer", num("value", t.i), num("radix", t.radix))
	case rFlt:
		return leaf("Float", Attr{"value", t.f})
	case rStr:
		return leaf("String", str("value", t.s))
	case rRX:
		return leaf("Regexp", str("value", t.s))
	case rID:
		return leaf("Name", str("name", t.s))
	case rTN:
		p.next()
		return rType(t.s, off)
	case rDQ, rHD:
		p.next()
		return t.node
	case rVar:
		p.next()
		return p.varNode(t)
	case rTxt:
		return leaf("RenderString", str("value", t.s))
	case "<%=":
		p.next()
		return p.mk("Render", off, one("expr", p.expression()))
	case rKW + "undef":
		return leaf("Undef")
	case rKW + "default":
		return leaf("Default")
	case rKW + "attr", rKW + "private":
		return leaf("Reserved", str("name", t.s), boolean("future", false))
	case rKW + "if":
		return p.ifExpr("If")
	case rKW + "unless":
		return p.ifExpr("Unless")
	case rKW + "case":
		return p.caseExpr()
	case rKW + "class":
		p.next()
		if p.tok.k == "{" {
			return rName("class", off)
		}
		return p.class(off)
	case rKW + "type":
		p.next()
		if p.tok.k == rTN {
			return p.typeDef(off)
		}
		return rName("type", off)
	case rKW + "function", rKW + "plan":
		p.next()
		if p.tok.k != rID && p.tok.k != rTN {
			p.reject("not the name of a function")
		}
		name := p.tok.s
		p.next()
		if t.k == rKW+"plan" {
			p.names = append(p.names[:len(p.names):len(p.names)], name)
		}
		ps := p.params()
		ret := p.returns()
		body := p.body()
		k := "Function"
		if t.k == rKW+"plan" {
			k = "Plan"
			p.names = p.names[:len(p.names)-1]
		}
		return p.define(p.mkA(k, off, attrs(str("name", name)), many("params", ps), one("body", body), one("returns", ret)))
	case rKW + "define", rKW + "application":
		p.next()
		name := p.className()
		ps := p.params()
		body := p.body()
		k := "Define"
		if t.k == rKW+"application" {
			k = "Application"
		}
		return p.define(p.mkA(k, off, attrs(str("name", name)), many("params", ps), one("body", body)))
	case rKW + "site":
		p.next()
		return p.define(p.mk("Site", off, one("body", p.body())))
	case rKW + "node":
		return p.node()
	}
	p.reject("unexpected " + t.k)
	return nil
}

func (p *refParser) ifExpr(k string) *T {
	off := p.tok.off
	p.next()
	test := p.binary(1)
	then := p.body()
	els := &T{K: "Nop", NoLoc: true}
	if p.kw("else") {
		p.next()
		els = p.body()
	} else if p.kw("elsif") {
		if k == "Unless" {
			p.reject("elsif in unless")
		}
		p.enter()
		els = p.ifExpr("If")
		p.depth--
	}
	return p.mk(k, off, one("test", test), one("then", then), one("else", els))
}

func (p *refParser) caseExpr() *T {
	off := p.tok.off
	p.next()
	test := p.expression()
	p.take("{")
	var os []*T
	for {
		o := p.tok.off
		vs := p.list(p.expression, ":")
		p.next()
		os = append(os, p.mk("CaseOption", o, many("values", vs), one("then", p.body())))
		if p.tok.k == "}" {
			p.next()
			return p.mk("Case", off, one("test", test), many("options", os))
		}
	}
}

func (p *refParser) className() string {
	if p.tok.k != rID && p.tok.k != rTN {
		p.reject("not the name of a class")
	}
	n := p.tok.s
	p.next()
	return n
}

func (p *refParser) class(off int) *T {
	name := strings.TrimPrefix(p.className(), "::")
	full := p.qualified(name)
	p.names = append(p.names[:len(p.names):len(p.names)], name)
	ps := p.params()
	parent := ""
	if p.kw("inherits") {
		p.next()
		if p.kw("default") {
			parent = "default"
			p.next()
		} else {
			parent = p.className()
		}
	}
	body := p.body()
	p.names = p.names[:len(p.names)-1]
	return p.define(p.mkA("Class", off, attrs(str("name", full), str("parent", parent)), many("params", ps), one("body", body)))
}

func (p *refParser) typeDef(off int) *T {
	t := p.typeRef()
	if t.K == "Access" {
		p.take("=")
		return p.define(p.mk("TypeMapping", off, one("type", t), one("mapping", p.expression())))
	}
	name := t.Str("name")
	if p.tok.k == "=" {
		p.next()
		body := p.expression()
		off2 := body.Off
		object := rType("Object", 0)
		object.NoLoc = true
		switch {
		case body.K == "TypeName" && p.tok.k == "{":
			h := p.atom()
			if n := body.Str("name"); n == "Object" || n == "TypeSet" {
				body = p.mk("Access", off2, one("operand", body), many("keys", []*T{h}))
				break
			}
			parent := p.mk("KeyedEntry", off2, one("key", p.mkA("String", off2, attrs(str("value", "parent")))), one("value", body))
			h = p.mk("Hash", off2, many("entries", append([]*T{parent}, h.Many("entries")...)))
			body = p.mk("Access", off2, one("operand", object), many("keys", []*T{h}))
		case body.K == "List" && len(body.Many("elements")) == 1:
			body = p.mk("Access", off2, one("operand", object), many("keys", body.Many("elements")))
		case body.K == "Hash":
			body = p.mk("Access", off2, one("operand", object), many("keys", []*T{body}))
		}
		return p.define(p.mkA("TypeAlias", off, attrs(str("name", name)), one("type", body)))
	}
	parent := ""
	if p.kw("inherits") {
		p.next()
		p.expect(rTN)
		parent = p.tok.s
		p.next()
	}
	return p.define(p.mkA("TypeDefinition", off, attrs(str("name", name), str("parent", parent)), one("body", p.body())))
}

func (p *refParser) node() *T {
	off := p.tok.off
	p.next()
	var hs []*T
	for {
		hs = append(hs, p.hostname())
		if p.tok.k != "," {
			break
		}
		p.next()
		if p.kw("inherits") || p.tok.k == "{" {
			break
		}
	}
	var parent *T
	if p.kw("inherits") {
		p.next()
		parent = p.hostname()
	}
	return p.define(p.mk("Node", off, many("matches", hs), one("parent", parent), one("body", p.body())))
}

func (p *refParser) hostname() *T {
	off := p.tok.off
	switch p.tok.k {
	case rID, rTN, rInt, rFlt:
		var parts []string
		for {
			switch p.tok.k {
			case rID, rTN:
				parts = append(parts, p.tok.s)
			case rInt, rFlt:
				parts = append(parts, p.src[p.tok.off:p.tok.end])
			default:
				p.reject("not a part of a hostname")
			}
			p.next()
			if p.tok.k != "." {
				break
			}
			p.next()
		}
		return p.mkA("String", off, attrs(str("value", strings.Join(parts, "."))))
	case rStr, rRX, rDQ, rHD, rKW + "default":
		return p.atom()
	}
	p.reject("not a hostname")
	return nil
}

func (p *refParser) collector(typ *T) *T {
	off := p.tok.off
	k, end := "VirtualQuery", "|>"
	if p.tok.k == "<<|" {
		k, end = "ExportedQuery", "|>>"
	}
	p.next()
	q := &T{K: "Nop", NoLoc: true}
	if p.tok.k != end {
		q = p.expression()
	}
	p.take(end)
	var ops []*T
	if p.tok.k == "{" {
		ops = p.bracedOps()
	}
	return p.mk("Collect", typ.Off, one("type", typ), one("query", p.mk(k, off, one("expr", q))), many("ops", ops))
}

// --- resources ---

// isAttr returns true if the current token is a word that is followed by an arrow
func (p *refParser) isAttr() bool {
	if _, ok := p.word(); !ok {
		return false
	}
	save := *p
	p.space()
	r := p.is("=>") || p.is("+>")
	*p = save
	return r
}

func (p *refParser) resourceOf(first *T, form string, off int) *T {
	brace := p.tok.off
	p.next()
	titled := false
	if !(p.tok.k == "}" || p.tok.k == "*" || p.isAttr()) {
		save := *p
		title := p.expression()
		if p.tok.k == ":" {
			titled = true
			var bodies []*T
			for {
				p.take(":")
				bodies = append(bodies, p.mk("ResourceBody", title.Off, one("title", title), many("ops", p.attributeOps())))
				if p.tok.k != ";" {
					break
				}
				p.next()
				if p.tok.k == "}" {
					break
				}
				title = p.expression()
			}
			p.take("}")
			return p.mkA("Resource", off, attrs(str("form", form)), one("type", first), many("bodies", bodies))
		}
		*p = save
		if first.K != "Name" {
			p.reject("not an attribute")
		}
	}
	switch {
	case titled:
	case first.K == "Name":
		if !rCalls[first.Str("name")] || form != "regular" {
			p.reject("resource without title")
		}
		// A call with a hash. (The first key is an expression)
		var es []*T
		if p.tok.k == "}" || p.tok.k == "*" || p.isAttr() {
			es = p.list(p.hashEntry, "}")
		} else {
			es = []*T{p.hashEntryOf(p.relationship())}
			if p.tok.k != "}" {
				p.take(",")
				es = append(es, p.list(p.hashEntry, "}")...)
			}
		}
		h := p.mk("Hash", brace, many("entries", es))
		p.next()
		return p.mkA("CallNamed", off, attrs(boolean("rval", true)), one("functor", first), many("args", []*T{h}), one("lambda", nil))
	case first.K == "TypeName", first.K == "Access" && len(first.Many("keys")) == 1 && first.One("operand").K == "TypeName" && first.One("operand").Str("name") == "Resource":
		ops := p.attributeOps()
		p.take("}")
		return p.mkA("ResourceDefaults", off, attrs(str("form", form)), one("type", first), many("ops", ops))
	case first.K == "Access":
		ops := p.attributeOps()
		p.take("}")
		return p.mkA("ResourceOverride", off, attrs(str("form", form)), one("resources", first), many("ops", ops))
	}
	p.reject("not a resource")
	return nil
}

func (p *refParser) attributeOps() []*T {
	return p.listUntil(p.attributeOp, "}", ";")
}

// listUntil parses comma separated items. What follows the last of them is for the caller to judge
func (p *refParser) listUntil(item func() *T, ends ...string) (r []*T) {
	for {
		for _, e := range ends {
			if p.tok.k == e {
				return
			}
		}
		r = append(r, item())
		if p.tok.k != "," {
			return
		}
		p.next()
	}
}

func (p *refParser) attributeOp() *T {
	off := p.tok.off
	if p.tok.k == "*" {
		p.next()
		p.take("=>")
		return p.mk("AttributesOp", off, one("expr", p.expression()))
	}
	name, ok := p.word()
	if !ok {
		p.reject("not the name of an attribute")
	}
	p.next()
	op := p.tok.k
	if op != "=>" && op != "+>" {
		p.reject("no arrow")
	}
	p.next()
	return p.mkA("AttributeOp", off, attrs(str("op", op), str("name", name)), one("value", p.expression()))
}

// --- steps ---

func (p *refParser) step(off int, style, name string, top bool) *T {
	full := p.qualified(name)
	if style == "workflow" {
		p.names = append(p.names[:len(p.names):len(p.names)], name)
	}
	propOff := p.tok.off
	p.take("{")
	props := p.list(p.property, "}")
	p.next()

	iterName := name
	if p.tok.k == rVar {
		iterName = p.paramName()
		p.take("=")
		p.expect(rID)
	}
	syn := func(t *T) *T { t.NoLoc = true; return t }
	pair := func(k string, v *T) *T {
		return syn(p.mk("KeyedEntry", 0, one("key", syn(rName(k, 0))), one("value", v)))
	}
	if p.tok.k == rID {
		f := p.tok.s
		switch f {
		case "times", "range", "each":
		default:
			p.reject("not an iterator")
		}
		p.next()
		if !p.isOpenParen() {
			p.reject("no parameters")
		}
		ps := p.params0()
		p.expect("|")
		p.next()
		vs := p.list(p.parameter, "|end", "|")
		p.next()
		// The variables are evaluated by the iterator
		iter := syn(p.mk("Hash", 0, many("entries", []*T{
			pair("name", syn(rName(iterName, 0))),
			pair("function", syn(rName(f, 0))),
			pair("params", syn(p.mk("List", 0, many("elements", ps)))),
			pair("vars", syn(p.mk("List", 0, many("elements", vs))))})))
		props = append(props, pair("iteration", iter))
	}
	var pr *T
	if len(props) > 0 {
		pr = p.mk("Hash", propOff, many("entries", props))
	}
	var def *T
	switch style {
	case "workflow":
		if p.tok.k == "{" {
			o := p.tok.off
			p.next()
			var ss []*T
			for p.tok.k != "}" {
				ss = append(ss, p.activity())
			}
			p.next()
			if len(ss) > 0 {
				def = p.mk("Block", o, many("statements", ss))
			}
		}
		p.names = p.names[:len(p.names)-1]
	case "resource":
		if p.tok.k == "{" {
			o := p.tok.off
			p.next()
			es := p.list(p.stateAttr, "}")
			p.next()
			if len(es) > 0 {
				for i, e := range es {
					es[i] = lazily(e)
				}
				def = p.mk("Hash", o, many("entries", es))
			}
		}
	default:
		def = p.body()
	}
	st := p.mkA("Step", off, attrs(str("name", full), str("style", style)), one("properties", pr), one("definition", def))
	if top {
		p.define(st)
	}
	return st
}

// params0 parses parameters in parentheses
func (p *refParser) params0() []*T {
	p.next()
	ps := p.list(p.parameter, ")")
	p.next()
	return ps
}

func (p *refParser) activity() *T {
	off := p.tok.off
	if p.kw("function") {
		return p.atom()
	}
	if p.tok.k != rID || !rStyles[p.tok.s] {
		p.reject("not a step")
	}
	style := p.tok.s
	p.next()
	name, ok := p.word()
	if !ok {
		p.reject("not the name of a step")
	}
	p.next()
	p.enter()
	defer func() { p.depth-- }()
	return p.step(off, style, name, false)
}

func (p *refParser) property() *T {
	off := p.tok.off
	k, ok := p.word()
	if !ok {
		p.reject("not the name of a property")
	}
	p.next()
	p.take("=>")
	voff := p.tok.off
	var v *T
	switch k {
	case "parameters", "returns":
		if !p.isOpenParen() {
			p.reject("no parameters")
		}
		if k == "parameters" {
			v = p.mk("List", voff, many("elements", p.params0()))
		} else {
			p.next()
			rs := p.list(p.returned, ")")
			p.next()
			v = p.mk("List", voff, many("elements", rs))
		}
	default:
		v = p.keywordOr()
	}
	return p.mk("KeyedEntry", off, one("key", rName(k, off)), one("value", v))
}

func (p *refParser) returned() *T {
	off := p.tok.off
	var typ, value *T
	if p.tok.k == rTN {
		typ = p.typeRef()
	}
	name := p.paramName()
	if p.tok.k == "=" {
		p.next()
		if p.isOpenParen() {
			o := p.tok.off
			p.next()
			as := p.list(p.alias, ")")
			p.next()
			value = p.mk("List", o, many("elements", as))
		} else {
			value = p.alias()
		}
	}
	return p.mkA("Parameter", off, attrs(str("name", name), boolean("rest", false)), one("type", typ), one("value", value))
}

func (p *refParser) alias() *T {
	off := p.tok.off
	w, ok := p.word()
	if !ok {
		p.reject("not the name of an attribute")
	}
	p.next()
	return p.mkA("String", off, attrs(str("value", w)))
}

func (p *refParser) stateAttr() *T {
	off := p.tok.off
	w, ok := p.word()
	if !ok {
		p.reject("not the name of an attribute")
	}
	p.next()
	p.take("=>")
	return p.mk("KeyedEntry", off, one("key", rName(w, off)), one("value", p.expression()))
}

// lazily changes what depends on the state of the evaluation into a deferred call
func lazily(e *T) *T {
	all := func(ts []*T) []*T {
		r := make([]*T, len(ts))
		for i, t := range ts {
			r[i] = lazily(t)
		}
		return r
	}
	call := func(off int, lambda *T, args ...*T) *T {
		for _, a := range args {
			a.NoLoc = true
		}
		d := rType("Deferred", 0)
		d.NoLoc = true
		n := rName("new", 0)
		n.NoLoc = true
		na := &T{K: "NamedAccess", NoLoc: true, F: fields(one("lhs", d), one("rhs", n))}
		return &T{K: "CallMethod", Off: off, A: attrs(boolean("rval", true)), F: fields(one("functor", na), many("args", args), one("lambda", lambda))}
	}
	rstr := func(s string) *T { return &T{K: "String", A: attrs(str("value", s))} }
	rlist := func(ts []*T) *T { return &T{K: "List", F: fields(many("elements", ts))} }
	switch e.K {
	case "List":
		return &T{K: "List", Off: e.Off, F: fields(many("elements", all(e.Many("elements"))))}
	case "Hash":
		return &T{K: "Hash", Off: e.Off, F: fields(many("entries", all(e.Many("entries"))))}
	case "KeyedEntry":
		return &T{K: "KeyedEntry", Off: e.Off, F: fields(one("key", lazily(e.One("key"))), one("value", lazily(e.One("value"))))}
	case "CallNamed":
		f := e.One("functor")
		switch f.K {
		case "Name":
			return call(e.Off, e.One("lambda"), rstr(f.Str("name")), rlist(all(e.Many("args"))))
		case "TypeName":
			n := rName("new", 0)
			return call(e.Off, e.One("lambda"), n, rlist(all(append([]*T{f}, e.Many("args")...))))
		}
	case "Variable":
		n := e.One("expr")
		s := n.Str("name")
		if n.K == "Integer" {
			s = fmt.Sprint(n.Attr("value"))
		}
		return call(e.Off, nil, rstr("$"+s))
	}
	return e
}

// --- programs ---

func (p *refParser) program() *T {
	if !utf8.ValidString(p.src) || strings.IndexByte(p.src, 0) >= 0 {
		p.reject("not text")
	}
	p.resume = -1
	prog := func(b *T) *T { return &T{K: "Program", F: fields(one("body", b)), NoLoc: true} }
	if !p.epp {
		p.next()
		if p.single {
			if p.tok.k == rEOF {
				return p.mk("Undef", p.tok.off)
			}
			e := p.relationship()
			p.expect(rEOF)
			return e
		}
		b := p.block(rEOF)
		return prog(b)
	}
	var ss [][]*T
	var params []*T
	specified := false
	p.text()
	first := p.tok
	if first.k == rTxt {
		ss = append(ss, []*T{p.mkA("RenderString", first.off, attrs(str("value", first.s)))})
		p.next()
	}
	if p.tok.k == "|" {
		if first.k == rTxt {
			p.reject("text before the parameters")
		}
		specified = true
		p.next()
		params = p.list(p.parameter, "|end", "|")
		p.next()
	}
	for p.tok.k != rEOF {
		ss = append(ss, p.statement())
	}
	if len(ss) == 0 && !specified {
		ss = [][]*T{{{K: "RenderString", A: attrs(str("value", "")), NoLoc: true}}}
	}
	block := &T{K: "Block", F: fields(many("statements", p.calls(ss))), NoLoc: true}
	e := &T{K: "Epp", A: attrs(boolean("paramsSpecified", specified)), F: fields(one("body", block)), NoLoc: true}
	return prog(&T{K: "Lambda", F: fields(many("params", params), one("body", e), one("returns", nil)), NoLoc: true})
}

// refParse returns the AST of a source, or a reason why it's rejected, or why nothing is specified about it
func refParse(src string, cfg Cfg, epp, single bool) (t *T, reject, skip string) {
	p := &refParser{src: src, tasks: cfg.Tasks, wf: cfg.Workflow, hex: cfg.Hex, bt: cfg.Backtick, epp: epp, single: single}
	defer func() {
		if r := recover(); r != nil {
			switch r := r.(type) {
			case rReject:
				t, reject = nil, fmt.Sprintf("%s at %d", r.why, r.pos)
			case rSkip:
				t, skip = nil, r.why
			default:
				panic(r)
			}
		}
	}()
	t = p.program()
	return
}

// refTokens returns the tokens of a source, up to and including the end. If the source has something that isn't a token, then the tokens
// that precede it are returned, and the reason
func refTokens(src string) (ts []rTok, reject, skip string) {
	p := &refParser{src: src, lexing: true, resume: -1}
	defer func() {
		if r := recover(); r != nil {
			switch r := r.(type) {
			case rReject:
				reject = fmt.Sprintf("%s at %d", r.why, r.pos)
			case rSkip:
				skip = r.why
			default:
				panic(r)
			}
		}
	}()
	for {
		p.next()
		ts = append(ts, p.tok)
		if p.tok.k == rEOF {
			return
		}
	}
}
