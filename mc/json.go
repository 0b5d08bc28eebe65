package main

import (
	"strconv"
	"strings"
	"unicode/utf8"
)

// jv is a JSON value of the reference model. Member order and number text are kept.
type jv struct {
	kind byte // o a s n b z
	s    string
	b    bool
	keys []string
	vals []*jv
}

type jparser struct {
	s string
	i int
}

// parseJSON reads one value; anything after it is ignored.
func parseJSON(s string) (*jv, bool) {
	p := &jparser{s: s}
	v := p.value(0)

	return v, v != nil
}

// parseJSONExact reads one value and nothing else.
func parseJSONExact(s string) (*jv, bool) {
	p := &jparser{s: s}
	v := p.value(0)
	p.ws()

	if p.i != len(s) {
		return nil, false
	}

	return v, v != nil
}

func (p *jparser) ws() {
	for p.i < len(p.s) && strings.IndexByte(" \t\r\n", p.s[p.i]) >= 0 {
		p.i++
	}
}

func (p *jparser) lit(l string) bool {
	if strings.HasPrefix(p.s[p.i:], l) {
		p.i += len(l)
		return true
	}

	return false
}

func (p *jparser) value(depth int) *jv {
	if depth > 200 {
		return nil
	}

	p.ws()

	if p.i >= len(p.s) {
		return nil
	}

	switch c := p.s[p.i]; {
	case c == '{':
		return p.object(depth)
	case c == '[':
		return p.array(depth)
	case c == '"':
		s, ok := p.str()
		if !ok {
			return nil
		}

		return &jv{kind: 's', s: s}
	case numChar(c):
		st := p.i

		for p.i < len(p.s) && numChar(p.s[p.i]) {
			p.i++
		}

		if t := p.s[st:p.i]; t == "-" || t == "+" {
			return nil
		} else if !isNumber(t) {
			return &jv{kind: 's', s: t}
		}

		p.i = st

		return p.number()
	case p.lit("true"):
		return &jv{kind: 'b', b: true}
	case p.lit("false"):
		return &jv{kind: 'b'}
	case p.lit("null"):
		return &jv{kind: 'z'}
	}

	return nil
}

func numChar(c byte) bool { return c >= '0' && c <= '9' || strings.IndexByte("+-.eE", c) >= 0 }

// isNumber tells texts that may stay for a number, others are kept as texts.
func isNumber(t string) bool {
	p := &jparser{s: t}

	return p.number() != nil && p.i == len(t)
}

func (p *jparser) number() *jv {
	st := p.i

	if p.i < len(p.s) && p.s[p.i] == '-' {
		p.i++
	}

	digits := func() int {
		n := 0
		for p.i < len(p.s) && p.s[p.i] >= '0' && p.s[p.i] <= '9' {
			p.i++
			n++
		}

		return n
	}

	n := digits()

	if p.i < len(p.s) && p.s[p.i] == '.' {
		p.i++
		n += digits()
	}

	if n == 0 {
		return nil
	}

	if p.i < len(p.s) && (p.s[p.i] == 'e' || p.s[p.i] == 'E') {
		p.i++

		if p.i < len(p.s) && (p.s[p.i] == '+' || p.s[p.i] == '-') {
			p.i++
		}

		if digits() == 0 {
			return nil
		}
	}

	return &jv{kind: 'n', s: p.s[st:p.i]}
}

func (p *jparser) str() (string, bool) {
	p.i++

	var sb strings.Builder

	for p.i < len(p.s) {
		c := p.s[p.i]
		p.i++

		switch c {
		case '"':
			return sb.String(), true
		case '\\':
			if p.i >= len(p.s) {
				return "", false
			}

			e := p.s[p.i]
			p.i++

			switch e {
			case '"', '\\', '/':
				sb.WriteByte(e)
			case 'b':
				sb.WriteByte('\b')
			case 'f':
				sb.WriteByte('\f')
			case 'n':
				sb.WriteByte('\n')
			case 'r':
				sb.WriteByte('\r')
			case 't':
				sb.WriteByte('\t')
			case 'u':
				r, ok := p.hex()
				if !ok {
					return "", false
				}

				if r >= 0xd800 && r < 0xdc00 && strings.HasPrefix(p.s[p.i:], "\\u") {
					p.i += 2

					r2, ok := p.hex()
					if !ok {
						return "", false
					}

					r = (r-0xd800)<<10 + (r2 - 0xdc00) + 0x10000
				}

				sb.WriteRune(r)
			default:
				// Kept as is.
				sb.WriteString(p.s[p.i-2 : p.i])
			}
		default:
			sb.WriteByte(c)
		}
	}

	return "", false
}

func (p *jparser) hex() (rune, bool) {
	if p.i+4 > len(p.s) {
		return utf8.RuneError, false
	}

	n, err := strconv.ParseUint(p.s[p.i:p.i+4], 16, 32)
	p.i += 4

	return rune(n), err == nil
}

func (p *jparser) object(depth int) *jv {
	p.i++
	v := &jv{kind: 'o'}

	p.ws()

	if p.i < len(p.s) && p.s[p.i] == '}' {
		p.i++
		return v
	}

	for {
		p.ws()

		if p.i >= len(p.s) || p.s[p.i] != '"' {
			return nil
		}

		k, ok := p.str()
		if !ok {
			return nil
		}

		p.ws()

		if p.i >= len(p.s) || p.s[p.i] != ':' {
			return nil
		}

		p.i++

		m := p.value(depth + 1)
		if m == nil {
			return nil
		}

		v.keys = append(v.keys, k)
		v.vals = append(v.vals, m)

		p.ws()

		if p.i >= len(p.s) {
			return nil
		}

		c := p.s[p.i]
		p.i++

		if c == '}' {
			return v
		}

		if c != ',' {
			return nil
		}
	}
}

func (p *jparser) array(depth int) *jv {
	p.i++
	v := &jv{kind: 'a'}

	p.ws()

	if p.i < len(p.s) && p.s[p.i] == ']' {
		p.i++
		return v
	}

	for {
		m := p.value(depth + 1)
		if m == nil {
			return nil
		}

		v.vals = append(v.vals, m)

		p.ws()

		if p.i >= len(p.s) {
			return nil
		}

		c := p.s[p.i]
		p.i++

		if c == ']' {
			return v
		}

		if c != ',' {
			return nil
		}
	}
}

// jeq compares values: member order counts, number text counts.
func jeq(a, b *jv) bool {
	if a.kind != b.kind || a.s != b.s || a.b != b.b || len(a.vals) != len(b.vals) {
		return false
	}

	for i := range a.keys {
		if a.keys[i] != b.keys[i] {
			return false
		}
	}

	for i := range a.vals {
		if !jeq(a.vals[i], b.vals[i]) {
			return false
		}
	}

	return true
}
