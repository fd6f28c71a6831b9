package main

import (
	"bytes"
	"errors"
	"fmt"
	"math"
	"math/big"
	"regexp"
	"strconv"
	"strings"
	"unicode/utf8"

	"github.com/lyraproj/issue/issue"
	pjson "github.com/lyraproj/puppet-parser/json"
	"github.com/lyraproj/puppet-parser/parser"
	"github.com/lyraproj/puppet-parser/pn"
)

// --- C22. PN as text, data, and JSON ---

// pv is the harness' own model of a PN tree
type pv struct {
	k    byte // 'l' list, 'm' map, 'c' call, 's' string, 'i' integer, 'f' float, 'b' boolean, 'n' nil
	s    string
	i    *big.Int
	f    float64
	f32  bool
	b    bool
	keys []string
	kids []*pv
}

func (v *pv) String() string {
	b := &strings.Builder{}
	v.write(b, 0)
	return b.String()
}

func (v *pv) write(b *strings.Builder, depth int) {
	if depth > 60 || b.Len() > 20000 {
		b.WriteString("...")
		return
	}
	switch v.k {
	case 's':
		b.WriteString(strconv.Quote(v.s))
	case 'i':
		b.WriteString(v.i.String())
	case 'f':
		fmt.Fprintf(b, "float(%v)", v.f)
	case 'b':
		fmt.Fprint(b, v.b)
	case 'n':
		b.WriteString("nil")
	default:
		switch v.k {
		case 'c':
			fmt.Fprintf(b, "call %q", v.s)
		case 'm':
			b.WriteString("map")
		case 'l':
			b.WriteString("list")
		}
		b.WriteByte('[')
		for i, k := range v.kids {
			if i > 0 {
				b.WriteString(", ")
			}
			if v.k == 'm' {
				fmt.Fprintf(b, "%q: ", v.keys[i])
			}
			k.write(b, depth+1)
		}
		b.WriteByte(']')
	}
}

// pvDiff returns a description of the first difference, or an empty string
func pvDiff(a, b *pv) string { return pvDiffAt(a, b, "", true) }

func pvDiffAt(a, b *pv, path string, exactFloats bool) string {
	if len(path) > 200 {
		path = "..." + path[len(path)-150:]
	}
	if a.k != b.k {
		return fmt.Sprintf("at %s: expected %s, got %s", path, a, b)
	}
	switch a.k {
	case 's':
		// Bytes that aren't UTF-8 are unspecified
		if a.s != b.s && string([]rune(a.s)) != string([]rune(b.s)) {
			return fmt.Sprintf("at %s: expected %q, got %q", path, a.s, b.s)
		}
	case 'i':
		if a.i.Cmp(b.i) != 0 {
			return fmt.Sprintf("at %s: expected %s, got %s", path, a.i, b.i)
		}
	case 'f':
		if a.f32 || b.f32 {
			if float32(a.f) != float32(b.f) {
				return fmt.Sprintf("at %s: expected %v, got %v", path, a.f, b.f)
			}
		} else if a.f != b.f && (exactFloats || digits16(a.f) || math.Abs(a.f-b.f) > math.Abs(a.f)*1e-15) {
			return fmt.Sprintf("at %s: expected %v, got %v", path, a.f, b.f)
		}
	case 'b':
		if a.b != b.b {
			return fmt.Sprintf("at %s: expected %v, got %v", path, a.b, b.b)
		}
	case 'c':
		if a.s != b.s {
			return fmt.Sprintf("at %s: expected call %q, got call %q", path, a.s, b.s)
		}
	case 'm':
		if strings.Join(a.keys, " ") != strings.Join(b.keys, " ") {
			return fmt.Sprintf("at %s: expected keys %q, got %q", path, a.keys, b.keys)
		}
	}
	if len(a.kids) != len(b.kids) {
		return fmt.Sprintf("at %s: expected %d elements, got %d: expected %s, got %s", path, len(a.kids), len(b.kids), a, b)
	}
	for i := range a.kids {
		p := path + "/" + strconv.Itoa(i)
		if a.k == 'm' {
			p = path + "/" + a.keys[i]
		} else if a.k == 'c' {
			p = path + "/" + a.s + "." + strconv.Itoa(i)
		}
		if d := pvDiffAt(a.kids[i], b.kids[i], p, exactFloats); d != "" {
			return d
		}
	}
	return ""
}

// --- a reader of the notation ---

type pnReader struct {
	s string
	i int
}

type pnSyntax string

func readPN(s string) (v *pv, err error) {
	r := &pnReader{s: s}
	defer func() {
		if x := recover(); x != nil {
			m, ok := x.(pnSyntax)
			if !ok {
				panic(x)
			}
			err = fmt.Errorf("at offset %d of %s: %s", r.i, clip(s, 300), m)
		}
	}()
	v = r.value()
	if r.i != len(s) {
		panic(pnSyntax("text after the end"))
	}
	return
}

func (r *pnReader) fail(m string) { panic(pnSyntax(m)) }

func (r *pnReader) peek() byte {
	if r.i < len(r.s) {
		return r.s[r.i]
	}
	return 0
}

// word reads up to a delimiter
func (r *pnReader) word() string {
	j := r.i
	for j < len(r.s) && !strings.ContainsRune(" ()[]{}\"", rune(r.s[j])) {
		j++
	}
	w := r.s[r.i:j]
	if w == "" {
		r.fail("expected a word")
	}
	r.i = j
	return w
}

func (r *pnReader) space() {
	if r.peek() != ' ' {
		r.fail("expected one space")
	}
	r.i++
}

func (r *pnReader) value() *pv {
	switch c := r.peek(); c {
	case '(':
		r.i++
		v := &pv{k: 'c', s: r.word()}
		for r.peek() != ')' {
			r.space()
			v.kids = append(v.kids, r.value())
		}
		r.i++
		return v
	case '[':
		r.i++
		v := &pv{k: 'l'}
		for r.peek() != ']' {
			if len(v.kids) > 0 {
				r.space()
			}
			v.kids = append(v.kids, r.value())
		}
		r.i++
		return v
	case '{':
		r.i++
		v := &pv{k: 'm'}
		for r.peek() != '}' {
			if len(v.kids) > 0 {
				r.space()
			}
			if r.peek() != ':' {
				r.fail("expected a key")
			}
			r.i++
			v.keys = append(v.keys, r.word())
			r.space()
			v.kids = append(v.kids, r.value())
		}
		r.i++
		return v
	case '"':
		return &pv{k: 's', s: r.str()}
	}
	w := r.word()
	switch w {
	case "nil":
		return &pv{k: 'n'}
	case "true", "false":
		return &pv{k: 'b', b: w == "true"}
	}
	if i, ok := new(big.Int).SetString(w, 10); ok && w[0] != '+' && !strings.Contains(w, "_") {
		return &pv{k: 'i', i: i}
	}
	if strings.ContainsAny(w, ".e") && !strings.ContainsAny(w, "xXpPnN_") && w[0] != '+' {
		f, err := strconv.ParseFloat(w, 64)
		if math.IsInf(f, 0) && strings.Contains(w, "1.797693134862316e+308") {
			f = math.Copysign(math.MaxFloat64, f) // as 16 digits
			err = nil
		}
		if err == nil {
			return &pv{k: 'f', f: f}
		}
	}
	r.fail(fmt.Sprintf("%q isn't a literal", w))
	return nil
}

func (r *pnReader) str() string {
	b := &strings.Builder{}
	r.i++
	for {
		if r.i >= len(r.s) {
			r.fail("unterminated string")
		}
		c := r.s[r.i]
		r.i++
		switch {
		case c == '"':
			return b.String()
		case c < 0x20:
			r.fail("control character in string")
		case c != '\\':
			b.WriteByte(c)
		default:
			e := r.peek()
			r.i++
			switch e {
			case 't':
				b.WriteByte('\t')
			case 'n':
				b.WriteByte('\n')
			case 'r':
				b.WriteByte('\r')
			case '"', '\\':
				b.WriteByte(e)
			case 'o':
				if r.i+3 > len(r.s) {
					r.fail("short octal escape")
				}
				n, err := strconv.ParseUint(r.s[r.i:r.i+3], 8, 16)
				if err != nil {
					r.fail("bad octal escape")
				}
				r.i += 3
				b.WriteRune(rune(n))
			case 'u':
				// \u{14}
				end := strings.IndexByte(r.s[r.i:], '}')
				if r.peek() != '{' || end < 0 {
					r.fail("bad unicode escape")
				}
				n, err := strconv.ParseUint(r.s[r.i+1:r.i+end], 16, 32)
				if err != nil {
					r.fail("bad unicode escape")
				}
				r.i += end + 1
				b.WriteRune(rune(n))
			default:
				r.fail(fmt.Sprintf("unknown escape \\%c", e))
			}
		}
	}
}

// pvOfData converts the data form. It returns an error if the data doesn't obey the mapping
func pvOfData(d interface{}) (*pv, error) {
	switch d := d.(type) {
	case nil:
		return &pv{k: 'n'}, nil
	case bool:
		return &pv{k: 'b', b: d}, nil
	case string:
		return &pv{k: 's', s: d}, nil
	case int, int8, int16, int32, int64, uint, uint8, uint16, uint32, uint64:
		i, _ := new(big.Int).SetString(fmt.Sprint(d), 10)
		return &pv{k: 'i', i: i}, nil
	case float64:
		return &pv{k: 'f', f: d}, nil
	case float32:
		return &pv{k: 'f', f: float64(d), f32: true}, nil
	case []interface{}:
		v := &pv{k: 'l'}
		for _, x := range d {
			e, err := pvOfData(x)
			if err != nil {
				return nil, err
			}
			v.kids = append(v.kids, e)
		}
		return v, nil
	case map[string]interface{}:
		if len(d) != 1 {
			return nil, fmt.Errorf("a map with %d entries", len(d))
		}
		for k, x := range d {
			es, ok := x.([]interface{})
			if !ok {
				return nil, fmt.Errorf("the value of %q isn't a list", k)
			}
			vs := make([]*pv, len(es))
			for i, e := range es {
				var err error
				if vs[i], err = pvOfData(e); err != nil {
					return nil, err
				}
			}
			return pvWrap(k, vs)
		}
	}
	return nil, fmt.Errorf("unexpected %T", d)
}

// pvWrap creates the call or map from the key and elements
func pvWrap(key string, es []*pv) (*pv, error) {
	switch key {
	case "^":
		if len(es) == 0 || es[0].k != 's' {
			return nil, fmt.Errorf("a call without name")
		}
		return &pv{k: 'c', s: es[0].s, kids: es[1:]}, nil
	case "#":
		if len(es)%2 != 0 {
			return nil, fmt.Errorf("a map with an odd number of elements")
		}
		v := &pv{k: 'm'}
		for i := 0; i < len(es); i += 2 {
			if es[i].k != 's' {
				return nil, fmt.Errorf("a key that isn't a string")
			}
			v.keys = append(v.keys, es[i].s)
			v.kids = append(v.kids, es[i+1])
		}
		return v, nil
	}
	return nil, fmt.Errorf("unexpected key %q", key)
}

// pvOfJSON converts a JSON document. Since 1.0 may be written as 1, the expected tree tells if a number is a float
func pvOfJSON(j interface{}, exp *pv) (*pv, error) {
	child := func(i int) *pv {
		if exp != nil && i >= 0 && i < len(exp.kids) {
			return exp.kids[i]
		}
		return nil
	}
	switch j := j.(type) {
	case nil:
		return &pv{k: 'n'}, nil
	case bool:
		return &pv{k: 'b', b: j}, nil
	case string:
		return &pv{k: 's', s: j}, nil
	case jnum:
		if exp != nil && exp.k == 'f' {
			f, err := strconv.ParseFloat(string(j), 64)
			return &pv{k: 'f', f: f}, err
		}
		i, ok := new(big.Int).SetString(string(j), 10)
		if !ok {
			return nil, fmt.Errorf("the number %s isn't an integer", j)
		}
		return &pv{k: 'i', i: i}, nil
	case []interface{}:
		v := &pv{k: 'l'}
		for i, x := range j {
			e, err := pvOfJSON(x, child(i))
			if err != nil {
				return nil, err
			}
			v.kids = append(v.kids, e)
		}
		return v, nil
	case jobject:
		if len(j) != 1 {
			return nil, fmt.Errorf("an object with %d members", len(j))
		}
		es, ok := j[0].val.([]interface{})
		if !ok {
			return nil, fmt.Errorf("the value of %q isn't an array", j[0].key)
		}
		vs := make([]*pv, len(es))
		for i, e := range es {
			var err error
			n := i - 1
			if j[0].key == "#" {
				if n = i / 2; i%2 == 0 {
					n = -1
				}
			}
			if vs[i], err = pvOfJSON(e, child(n)); err != nil {
				return nil, err
			}
		}
		return pvWrap(j[0].key, vs)
	}
	return nil, fmt.Errorf("unexpected %T", j)
}

// --- generator ---

var pnNames = []string{"+", "-", "*", "/", "%", "!", "!=", "==", "=", "<", "<<", ">", ">=", "=~", "!~", "->", "~>", "=>", "?", "::", "a", "b", "str", "var", "if", "invoke-lambda", "a::b", "_x", "and", "nil", "true", "12",
	"render-s", "#", "^", "é", "&", "<-", ":a", "'", "\\", "a.b", "1.5"}

var pnKeys = []string{"a", "b", "A", "_", "-", "a-b", "a1", "_1", "a::b", "::a", "::a::b::1", "a::1", "a::-", "params", "name", "x9_-", "Z-", "when", "then"}

var pnStrings = []string{"", "a", " ", "\t", "\n", "\r", "\"", "\\", "\\\\", "'", "\x00", "\x01", "\x07", "\x08", "\x0b", "\x0c", "\x1b", "\x1f", "\x7f", "0", "1", "7", "12", "n", "t", "o", "o011", "u{14}", "é", "å", "日本", "🎉", "\u0085",
	"\u2028", "\u2029", "\ufffd", "\ufeff", "<", ">", "&", "(", ")", "[", "]", "{", "}", ":", ":a", "nil", "true", "$x", "#", "^", "/", "\\u0041", "%", "%d", "%s"}

func genPNString(r *Rng) string {
	b := &strings.Builder{}
	n := r.Small(8)
	if r.P(1) {
		n = r.N(300)
	}
	for i := 0; i < n; i++ {
		b.WriteString(r.Pick(pnStrings))
	}
	if r.P(10) {
		x := rune(r.N(0x10ffff))
		if x < 0xd800 || x > 0xdfff {
			b.WriteRune(x)
		}
	}
	return b.String()
}

// genFloat returns a float with at most 16 significant digits
func genFloat(r *Rng) float64 {
	for {
		var f float64
		switch r.N(6) {
		case 0:
			f = float64(r.N(2000)-1000) / 8
		case 1:
			f = float64(int64(r.Next()) >> uint(11+r.N(50)))
		case 2:
			f, _ = strconv.ParseFloat(fmt.Sprintf("%d.%de%d", r.N(10), r.Next()%1e15, r.N(600)-300), 64)
		case 3:
			f, _ = strconv.ParseFloat(fmt.Sprintf("%de%d", r.N(1000), r.N(620)-310), 64)
		case 4:
			f = r.PickF(0, 1, -1, 0.5, 100, 1e15, 1e16, 1e17, 1e20, 1e21, 1e22, 1e-4, 1e-5, 1e-7, 123456789012345, 1234567890123456, 0.1, 10.0, 100.5, 1e100, 5e-324, 1.7976931348623157e308, 1000000, 1e6, 120, 102, 10.01)
		default:
			f, _ = strconv.ParseFloat(fmt.Sprintf("%d.%d", r.N(100000), r.N(100000)), 64)
		}
		if math.IsInf(f, 0) {
			continue
		}
		if digits16(f) {
			return f
		}
	}
}

// digits16 is true if 16 significant digits represent the float
func digits16(f float64) bool {
	x, _ := strconv.ParseFloat(strconv.FormatFloat(f, 'e', 15, 64), 64)
	return x == f
}

func (r *Rng) PickF(fs ...float64) float64 { return fs[r.N(len(fs))] }

// genPN generates a tree, and builds it through the API
func genPN(r *Rng, depth int, budget *int) (*pv, pn.PN) {
	*budget--
	k := r.N(11)
	if depth <= 0 || *budget <= 0 {
		k = 6 + r.N(5)
	}
	if k <= 5 {
		n := r.Small(6)
		if r.P(2) {
			n = r.N(60)
		}
		var kids []*pv
		var ps []pn.PN
		for i := 0; i < n; i++ {
			v, p := genPN(r, depth-1, budget)
			kids = append(kids, v)
			ps = append(ps, p)
		}
		switch k {
		case 0, 1:
			v := &pv{k: 'l', kids: kids}
			if r.P(20) {
				// through another node
				return v, pn.List(pn.Call("x", ps...).AsParameters())
			}
			return v, pn.List(ps)
		case 2, 3:
			v := &pv{k: 'm', kids: kids}
			es := make([]pn.Entry, n)
			for i := range ps {
				key := r.Pick(pnKeys)
				v.keys = append(v.keys, key)
				es[i] = ps[i].WithName(key)
			}
			return v, pn.Map(es)
		default:
			name := r.Pick(pnNames)
			v := &pv{k: 'c', s: name, kids: kids}
			switch r.N(6) {
			case 0:
				return v, pn.List(ps).AsCall(name)
			case 1:
				return v, pn.Call("other", ps...).AsCall(name)
			case 2:
				if n == 1 && (kids[0].k == 'm' || kids[0].k != 'l' && kids[0].k != 'c') {
					return v, ps[0].AsCall(name)
				}
			case 3:
				if n == 1 && (kids[0].k == 'm' || kids[0].k != 'l' && kids[0].k != 'c') {
					return v, pn.Call(name, ps[0].AsParameters()...)
				}
			}
			return v, pn.Call(name, ps...)
		}
	}
	switch k {
	case 6, 7:
		s := genPNString(r)
		return &pv{k: 's', s: s}, pn.Literal(s)
	case 8:
		n := int64(r.Next()) >> uint(r.N(64))
		var x interface{} = n
		switch r.N(8) {
		case 0:
			n = int64(int8(n))
			x = int8(n)
		case 1:
			n = int64(uint8(n))
			x = uint8(n)
		case 2:
			x = int(n)
		case 3:
			n = int64(int32(n))
			x = int32(n)
		case 4:
			u := uint64(n)
			return &pv{k: 'i', i: new(big.Int).SetUint64(u)}, pn.Literal(u)
		case 5:
			n = int64(uint16(n))
			x = uint16(n)
		}
		return &pv{k: 'i', i: big.NewInt(n)}, pn.Literal(x)
	case 9:
		if r.P(5) {
			f := float32(r.N(100000)) / float32(1+r.N(100))
			return &pv{k: 'f', f: float64(f), f32: true}, pn.Literal(f)
		}
		f := genFloat(r)
		return &pv{k: 'f', f: f}, pn.Literal(f)
	default:
		if r.P(50) {
			return &pv{k: 'n'}, pn.Literal(nil)
		}
		b := r.P(50)
		return &pv{k: 'b', b: b}, pn.Literal(b)
	}
}

// brokenWriter fails when more than a number of bytes have been written
type brokenWriter struct{ left, got int }

func (w *brokenWriter) Write(b []byte) (int, error) {
	n := len(b)
	if n > w.left {
		n = w.left
	}
	w.left -= n
	w.got += n
	if n < len(b) {
		return n, errors.New("out of space")
	}
	return n, nil
}

func panics(f func()) (p bool) {
	defer func() { p = recover() != nil }()
	f()
	return
}

// checkPN checks that text, data and JSON of p agree, and are those of the expected tree, unless it's nil
func (c *Case) checkPN(p pn.PN, exp *pv, exactFloats bool) *pv {
	text := p.String()
	b := bytes.NewBufferString("")
	p.Format(b)
	if b.String() != text || pn.ToString(p) != text {
		c.Fail("String, ToString and Format of the PN differ")
	}
	tv, err := readPN(text)
	if err != nil {
		c.Fail("the text of the PN can't be read: %s", err)
	}
	data := p.ToData()
	dv, err := pvOfData(data)
	if err != nil {
		c.Fail("the data of the PN doesn't obey the mapping: %s", err)
	}
	if d := pvDiffAt(dv, tv, "", exactFloats); d != "" {
		c.Fail("the text of the PN isn't that of its data: %s\ntext: %s", d, clip(text, 1000))
	}
	if exp != nil {
		if d := pvDiffAt(exp, tv, "", exactFloats); d != "" {
			c.Fail("the text of the PN is wrong: %s\ntext: %s", d, clip(text, 1000))
		}
		if d := pvDiff(exp, dv); d != "" {
			c.Fail("the data of the PN is wrong: %s\ntext: %s", d, clip(text, 1000))
		}
	}
	if !utf8.ValidString(text) {
		return dv
	}
	b.Reset()
	pjson.ToJson(data, b)
	j, err := readJSON(b.String())
	if err != nil {
		c.Fail("%s: %s", err, clip(b.String(), 1000))
	}
	if c.R.P(3) {
		// A failure to write isn't hidden
		w := &brokenWriter{left: c.R.N(b.Len())}
		if !panics(func() { pjson.ToJson(data, w) }) {
			c.Fail("ToJson returns as if it had written %s, although writing more than %d bytes failed", clip(b.String(), 1000), w.got)
		}
		c.Count("failing writer")
	}
	if !strings.HasSuffix(b.String(), "\n") || strings.Contains(strings.TrimSuffix(b.String(), "\n"), "\n") {
		c.Fail("the JSON isn't one line: %s", clip(b.String(), 1000))
	}
	jv, err := pvOfJSON(j, dv)
	if err != nil {
		c.Fail("the JSON of the PN doesn't obey the mapping: %s: %s", err, clip(b.String(), 1000))
	}
	if d := pvDiff(dv, jv); d != "" {
		c.Fail("the JSON isn't that of the data: %s: %s", d, clip(b.String(), 1000))
	}
	// Nothing has changed
	if p.String() != text {
		c.Fail("the text of the PN has changed from %s to %s", clip(text, 500), clip(p.String(), 500))
	}
	c.CountN("PN bytes", len(text))
	return dv
}

// simpleKey matches the keys that the notation has always had
var simpleKey = regexp.MustCompile(`\A[A-Za-z_-][0-9A-Za-z_-]*\z`)

// anyKey creates a map with an arbitrary key. It's either refused, or a key that can be read back
func (c *Case) anyKey() {
	r := c.R
	key := r.Pick(pnKeys)
	for n := r.N(4); n > 0; n-- {
		i := r.N(len(key) + 1)
		x := r.PickS(" ", "\n", ":", "::", "{", "}", "[", "]", "(", ")", "\"", "\\", "\t", "é", "\x00", "\xff", ".", "/", "-", "_", "1", "a", "Z", "#", "^", "$", ",", "'", "\r", "", "a b", "\n:b 2")
		if r.P(30) {
			key = key[:i] + x
		} else {
			key = key[:i] + x + key[i:]
		}
	}
	c.Src = key
	entries := []pn.Entry{pn.Literal("v").WithName(key)}
	exp := &pv{k: 'm', keys: []string{key}, kids: []*pv{{k: 's', s: "v"}}}
	if r.P(50) {
		k := r.Pick(pnKeys)
		entries = append(entries, pn.Literal(int64(1)).WithName(k))
		exp.keys = append(exp.keys, k)
		exp.kids = append(exp.kids, &pv{k: 'i', i: big.NewInt(1)})
		if r.P(50) {
			entries[0], entries[1] = entries[1], entries[0]
			exp.keys[0], exp.keys[1] = exp.keys[1], exp.keys[0]
			exp.kids[0], exp.kids[1] = exp.kids[1], exp.kids[0]
		}
	}
	var p pn.PN
	func() {
		defer func() {
			if x := recover(); x != nil {
				if _, ok := x.(violation); ok {
					panic(x)
				}
				if simpleKey.MatchString(key) {
					c.Fail("the key %q is refused: %v", key, x)
				}
			}
		}()
		p = pn.Map(entries)
	}()
	if p == nil {
		c.Count("refused keys")
		c.Seen(key)
		return
	}
	c.Count("accepted keys")
	c.Seen(key)
	text := p.String()
	if key == "" || strings.ContainsAny(key, "()[]{}\"") || strings.IndexFunc(key, func(x rune) bool { return x <= ' ' || x == 0x7f }) >= 0 {
		c.Fail("the key %q, that can't be read back, is accepted: %q", key, text)
	}
	v, err := readPN(text)
	if err != nil {
		c.Fail("a map with the key %q is formatted as %q: %s", key, text, err)
	}
	if d := pvDiff(exp, v); d != "" {
		c.Fail("a map with the key %q is formatted as %q: %s", key, text, d)
	}
}

func runC22(c *Case) {
	r := c.R
	switch {
	case r.P(3):
		c.anyKey()
	case r.P(75):
		budget := 1 + r.Small(60)
		depth := 1 + r.N(8)
		if r.P(2) {
			budget, depth = 400, 300
		}
		v, p := genPN(r, depth, &budget)
		if r.P(1) {
			// deeply nested
			for i := r.N(3000); i > 0; i-- {
				switch r.N(3) {
				case 0:
					v, p = &pv{k: 'l', kids: []*pv{v}}, pn.List([]pn.PN{p})
				case 1:
					v, p = &pv{k: 'c', s: "f", kids: []*pv{v}}, pn.Call("f", p)
				default:
					v, p = &pv{k: 'm', keys: []string{"k"}, kids: []*pv{v}}, pn.Map([]pn.Entry{p.WithName("k")})
				}
			}
			c.Count("deeply nested")
		}
		c.Src = v.String()
		c.checkPN(p, v, true)
		c.Count("tree built through the API")
		c.Count("kind " + string(v.k))
		c.Seen(c.Src)
		// An entry
		if e := p.WithName("kk"); e.Key() != "kk" || e.Value() == nil || e.Value().String() != p.String() {
			c.Fail("WithName doesn't give the entry")
		}
	default:
		in := hostile(c, 35)
		c.use(in)
		e, err := in.parse()
		if err != nil {
			if ri, ok := err.(issue.Reported); ok {
				exp := &pv{k: 'm', keys: []string{"code", "severity", "message"}, kids: []*pv{{k: 's', s: string(ri.Code())}, {k: 's', s: ri.Severity().String()}, {k: 's', s: ri.Error()}}}
				if utf8.ValidString(ri.Error()) {
					c.checkPN(pn.ReportedToPN(ri), exp, true)
					c.Count("PN of an issue")
					c.Seen(ri.Error())
				}
			}
			return
		}
		if e == nil {
			return
		}
		// Floats with more digits than are written differ
		c.checkPN(e.ToPN(), nil, false)
		n := 0
		e.AllContents(nil, func(path []parser.Expression, x parser.Expression) {
			if n++; n < 60 {
				c.checkPN(x.ToPN(), nil, false)
			}
		})
		c.Count("PN of an AST")
		c.Seen(in.src)
	}
}

func init() {
	register(&Prop{ID: "C22", Quick: 90000, Thorough: 3000000, Run: runC22,
		Rule: "random PN trees are built through the API in different ways, and the PN of parsed (generated and mutated) sources and of issues are taken. The text is read by an independent reader, the data form is converted back, and the JSON is read by an independent reader: all must be the same tree, and that which was built. Arbitrary keys of maps are refused or read back. Non-trivial: distinct trees",
		Assumptions: []string{"the reader (p_pn.go) implements the notation as described in pn.md, with control characters in the form \\oNNN that is written (and \\u{X} that is described)",
			"floats that need more than 16 significant digits are only required to agree between data and JSON"}})
}
