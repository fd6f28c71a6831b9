package main

import (
	"errors"
	"fmt"
	"runtime/debug"
	"strconv"
	"unicode/utf16"
	"unicode/utf8"
)

// A reader of JSON (RFC 8259) that is independent of encoding/json, and has no limit of depth

type jnum string

type jmember struct {
	key string
	val interface{}
}

type jobject []jmember

type jreader struct {
	s string
	i int
}

var errJSON = errors.New("invalid JSON")

// readJSON reads one JSON document. The result consists of nil, bool, jnum, string, []interface{} and jobject
func readJSON(s string) (v interface{}, err error) {
	r := &jreader{s: s}
	defer debug.SetMaxStack(debug.SetMaxStack(4 << 30)) // for this reader only
	defer func() {
		if x := recover(); x != nil {
			if x != errJSON {
				panic(x)
			}
			err = fmt.Errorf("invalid JSON at offset %d", r.i)
		}
	}()
	r.space()
	v = r.value()
	r.space()
	if r.i != len(s) {
		panic(errJSON)
	}
	return
}

func (r *jreader) space() {
	for r.i < len(r.s) && (r.s[r.i] == ' ' || r.s[r.i] == '\t' || r.s[r.i] == '\n' || r.s[r.i] == '\r') {
		r.i++
	}
}

func (r *jreader) peek() byte {
	if r.i < len(r.s) {
		return r.s[r.i]
	}
	return 0
}

func (r *jreader) want(s string) {
	if len(r.s)-r.i < len(s) || r.s[r.i:r.i+len(s)] != s {
		panic(errJSON)
	}
	r.i += len(s)
}

func (r *jreader) value() interface{} {
	switch c := r.peek(); {
	case c == '{':
		r.i++
		o := jobject{}
		r.space()
		for r.peek() != '}' {
			if len(o) > 0 {
				r.want(",")
				r.space()
			}
			k := r.str()
			r.space()
			r.want(":")
			r.space()
			o = append(o, jmember{k, r.value()})
			r.space()
		}
		r.i++
		return o
	case c == '[':
		r.i++
		a := []interface{}{}
		r.space()
		for r.peek() != ']' {
			if len(a) > 0 {
				r.want(",")
				r.space()
			}
			a = append(a, r.value())
			r.space()
		}
		r.i++
		return a
	case c == '"':
		return r.str()
	case c == 't':
		r.want("true")
		return true
	case c == 'f':
		r.want("false")
		return false
	case c == 'n':
		r.want("null")
		return nil
	default:
		start := r.i
		if r.peek() == '-' {
			r.i++
		}
		digits := func() {
			n := r.i
			for r.peek() >= '0' && r.peek() <= '9' {
				r.i++
			}
			if n == r.i {
				panic(errJSON)
			}
		}
		if r.peek() == '0' {
			r.i++
		} else {
			digits()
		}
		if r.peek() == '.' {
			r.i++
			digits()
		}
		if r.peek() == 'e' || r.peek() == 'E' {
			r.i++
			if r.peek() == '+' || r.peek() == '-' {
				r.i++
			}
			digits()
		}
		return jnum(r.s[start:r.i])
	}
}

func (r *jreader) str() string {
	r.want("\"")
	var b []byte
	for {
		if r.i >= len(r.s) {
			panic(errJSON)
		}
		c := r.s[r.i]
		switch {
		case c == '"':
			r.i++
			return string(b)
		case c < 0x20:
			panic(errJSON)
		case c == '\\':
			r.i++
			e := r.peek()
			r.i++
			switch e {
			case '"', '\\', '/':
				b = append(b, e)
			case 'b':
				b = append(b, 8)
			case 'f':
				b = append(b, 12)
			case 'n':
				b = append(b, 10)
			case 'r':
				b = append(b, 13)
			case 't':
				b = append(b, 9)
			case 'u':
				u := r.hex4()
				if utf16.IsSurrogate(u) && r.i+1 < len(r.s) && r.s[r.i] == '\\' && r.s[r.i+1] == 'u' {
					r.i += 2
					u = utf16.DecodeRune(u, r.hex4())
				}
				b = append(b, string(u)...)
			default:
				panic(errJSON)
			}
		default:
			u, n := utf8.DecodeRuneInString(r.s[r.i:])
			if u == utf8.RuneError && n == 1 {
				panic(errJSON)
			}
			b = append(b, r.s[r.i:r.i+n]...)
			r.i += n
		}
	}
}

func (r *jreader) hex4() rune {
	if r.i+4 > len(r.s) {
		panic(errJSON)
	}
	u, err := strconv.ParseUint(r.s[r.i:r.i+4], 16, 16)
	if err != nil {
		panic(errJSON)
	}
	r.i += 4
	return rune(u)
}
