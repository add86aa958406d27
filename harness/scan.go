package main

import (
	"strconv"
	"strings"
	"unicode"
	"unicode/utf8"
)

// A reference scanner: the division of texts into tokens. Texts with heredocs and escapes by number
// are left open.

type scanner struct {
	s        string
	i        int
	tasks    bool
	workflow bool
	inner    bool // in an interpolation
	depth    int  // of braces
	ts       []tk
}

func (c *scanner) at(k int) rune {
	if c.i+k >= len(c.s) {
		return 0
	}
	r, _ := utf8.DecodeRuneInString(c.s[c.i+k:])
	return r
}

func isDigit(r rune) bool  { return r >= '0' && r <= '9' }
func isLower(r rune) bool  { return r >= 'a' && r <= 'z' }
func isUpper(r rune) bool  { return r >= 'A' && r <= 'Z' }
func isWordly(r rune) bool { return isDigit(r) || isLower(r) || isUpper(r) || r == '_' }

func (c *scanner) reject()            { panic(refReject{len(c.ts)}) }
func (c *scanner) unknown(why string) { panic(refUnknown{why}) }

func (c *scanner) while(f func(rune) bool) (n int) {
	for c.i < len(c.s) && f(c.at(0)) {
		c.i++
		n++
	}
	return
}

var refOperators = []string{"<<|", "|>>", "==", "=~", "=>", "-=", "->", "+=", "+>", "!=", "!~", ">=", ">>", "~>", "@@", "<=", "<<", "<|", "<-", "<~", "|>",
	"=", "{", "}", "[", "]", "(", ")", ",", ";", ".", "?", ":", "-", "+", "*", "%", "!", ">", "@", "<", "|"}

// scan divides a text
func (c *scanner) scan() []tk {
	for {
		glue, nl := true, c.i == 0
	white:
		for c.i < len(c.s) {
			switch {
			case strings.IndexByte(" \t\r\n", c.s[c.i]) >= 0:
				nl = nl || c.s[c.i] == '\n'
				c.i++
			case c.s[c.i] == '#':
				for c.i < len(c.s) && c.s[c.i] != '\n' {
					c.i++
				}
			case strings.HasPrefix(c.s[c.i:], "/*"):
				n := strings.Index(c.s[c.i+2:], "*/")
				if n < 0 {
					c.reject()
				}
				c.i += n + 4
			default:
				break white
			}
			glue = false
		}
		if c.i == len(c.s) {
			if c.inner {
				c.reject()
			}
			return c.ts
		}
		start := c.i
		t := c.token()
		switch {
		case t.k == "{":
			c.depth++
		case t.k == "}" && c.inner && c.depth == 0:
			return c.ts
		case t.k == "}":
			c.depth--
		}
		t.glue, t.nl = glue && start > 0, nl
		c.ts = append(c.ts, t)
	}
}

func (c *scanner) token() tk {
	start := c.i
	r := c.at(0)
	switch {
	case isDigit(r):
		return c.number()
	case isUpper(r):
		return tk{k: "ref", s: c.qualified(isUpper)}
	case isLower(r):
		return c.name()
	case strings.HasPrefix(c.s[c.i:], "::"):
		c.i += 2
		switch r = c.at(0); {
		case isUpper(r):
			return tk{k: "ref", s: "::" + c.qualified(isUpper)}
		case isLower(r):
			t := c.name()
			if t.k != "str" {
				t.k = "name"
			}
			t.s = "::" + t.s
			t.v = "::" + t.v
			return t
		}
		c.reject()
	case r == '$':
		c.i++
		if c.at(0) == ':' {
			if c.at(1) != ':' {
				c.reject()
			}
			c.i += 2
		}
		switch r = c.at(0); {
		case isLower(r):
			c.variable()
		case isDigit(r):
			c.while(isDigit)
			if v, err := strconv.ParseInt(c.s[start+1:c.i], 10, 64); err == nil {
				return tk{k: "var", s: "$" + strconv.FormatInt(v, 10)}
			}
			c.reject()
		case unicode.IsLetter(r):
			c.reject()
		default:
			return tk{k: "var", s: "$"}
		}
		return tk{k: "var", s: c.s[start:c.i]}
	case r == '\'' || r == '"':
		return c.quoted(r)
	case r == '/':
		if n := len(c.ts); n == 0 || !operand(c.ts[n-1].k) {
			if v, ok := c.regexp(); ok {
				return tk{k: "regexp", s: "//", v: v}
			}
		}
		c.i = start + 1
		return tk{k: "/", s: "/"}
	case strings.HasPrefix(c.s[c.i:], "@("):
		c.unknown("a heredoc")
	}
	for _, o := range refOperators {
		if strings.HasPrefix(c.s[c.i:], o) {
			c.i += len(o)
			return tk{k: o, s: o}
		}
	}
	c.reject()
	return tk{}
}

func (c *scanner) number() tk {
	start := c.i
	digits := func(f func(rune) bool) {
		if c.while(f) == 0 {
			c.reject()
		}
	}
	exponent := func() {
		c.i++
		if strings.IndexRune("+-", c.at(0)) >= 0 && c.at(0) != 0 {
			c.i++
		}
		digits(isDigit)
	}
	if c.at(0) == '0' && (c.at(1) == 'x' || c.at(1) == 'X') {
		c.i += 2
		digits(func(r rune) bool { return isDigit(r) || r >= 'a' && r <= 'f' || r >= 'A' && r <= 'F' })
		if isWordly(c.at(0)) {
			c.reject()
		}
		return c.integer(start)
	}
	octal := c.at(0) == '0' && isDigit(c.at(1))
	if octal {
		c.while(func(r rune) bool { return r >= '0' && r <= '7' })
		if isDigit(c.at(0)) {
			c.reject()
		}
	} else if c.at(0) == '0' {
		c.i++
	} else {
		c.while(isDigit)
	}
	k := "int"
	if !octal {
		switch c.at(0) {
		case '.':
			k = "float"
			c.i++
			digits(isDigit)
			if c.at(0) == 'e' || c.at(0) == 'E' {
				exponent()
			}
		case 'e', 'E':
			k = "float"
			exponent()
		}
	}
	if unicode.IsLetter(c.at(0)) {
		c.reject()
	}
	s := c.s[start:c.i]
	if k == "int" {
		return c.integer(start)
	}
	if k == "float" {
		if _, err := strconv.ParseFloat(s, 64); err != nil {
			c.reject()
		}
	}
	return tk{k: k, s: s}
}

// integer is a number of 64 bits, with the sign before it, if any
func (c *scanner) integer(start int) tk {
	s, radix := c.s[start:c.i], 10
	digits := s
	switch {
	case len(s) > 1 && (s[1] == 'x' || s[1] == 'X'):
		digits, radix = s[2:], 16
	case len(s) > 1 && s[0] == '0':
		radix = 8
	}
	if start > 0 && c.s[start-1] == '-' && len(c.ts) > 0 && c.ts[len(c.ts)-1].k == "-" {
		digits = "-" + digits
	}
	if _, err := strconv.ParseInt(digits, radix, 64); err != nil {
		c.reject()
	}
	return tk{k: "int", s: s}
}

func (c *scanner) qualified(first func(rune) bool) string {
	start := c.i
	for {
		c.while(isWordly)
		if c.at(0) != ':' || c.at(1) != ':' {
			return c.s[start:c.i]
		}
		c.i += 2
		if !first(c.at(0)) {
			c.reject()
		}
	}
}

func (c *scanner) variable() {
	for last := false; ; {
		c.while(isWordly)
		if c.at(0) != ':' || c.at(1) != ':' {
			return
		}
		c.i += 2
		if last || !isLower(c.at(0)) && c.at(0) != '_' {
			c.reject()
		}
		last = c.at(0) == '_'
	}
}

// name scans a name, a keyword, or a string: a name with dashes inside
func (c *scanner) name() tk {
	start := c.i
	dashes := false
	for {
		c.while(isWordly)
		n := 0
		for c.at(n) == '-' {
			n++
		}
		if n > 0 {
			if !isWordly(c.at(n)) {
				break
			}
			dashes = true
			c.i += n
			continue
		}
		if c.at(0) != ':' || c.at(1) != ':' {
			break
		}
		c.i += 2
		if !isLower(c.at(0)) {
			c.reject()
		}
	}
	s := c.s[start:c.i]
	switch {
	case dashes:
		return tk{k: "str", s: s, v: s}
	case s == "true" || s == "false":
		return tk{k: "bool", s: s}
	case s == "plan" && c.tasks || isOneOf(s, allKeywords...):
		return tk{k: s, s: s}
	}
	return tk{k: "name", s: s}
}

func (c *scanner) quoted(q rune) tk {
	b := strings.Builder{}
	var parts []*Node
	text := func() {
		if b.Len() > 0 {
			parts = append(parts, &Node{K: KStr, S: b.String()})
		}
		b.Reset()
	}
	c.i++
	for {
		r := c.at(0)
		if c.i >= len(c.s) {
			c.reject()
		}
		c.i += utf8.RuneLen(r)
		switch {
		case r == q:
			if parts == nil {
				return tk{k: "str", s: "''", v: b.String()}
			}
			text()
			return tk{k: "str", s: "''", n: &Node{K: KConcat, L: parts}}
		case r == '$' && q == '"':
			text()
			parts = append(parts, &Node{K: KText, A: c.interpolation()})
		case r != '\\':
			b.WriteRune(r)
		default:
			if c.i >= len(c.s) {
				c.reject()
			}
			r = c.at(0)
			c.i += utf8.RuneLen(r)
			if q == '"' {
				switch r {
				case 'u', 'x':
					c.unknown("an escape by number")
				case 'n':
					r = '\n'
				case 'r':
					r = '\r'
				case 't':
					r = '\t'
				case 's':
					r = ' '
				case '\\', '\'', '"', '$':
				default:
					b.WriteByte('\\')
				}
			} else if r != '\'' && r != '\\' {
				b.WriteByte('\\')
			}
			b.WriteRune(r)
		}
	}
}

// interpolation scans and parses what follows a dollar sign in a string
func (c *scanner) interpolation() *Node {
	start := c.i
	if c.at(0) == '{' {
		sub := &scanner{s: c.s, i: c.i + 1, tasks: c.tasks, workflow: c.workflow, inner: true}
		ts := sub.scan()
		c.i = sub.i
		if len(ts) == 0 || isOneOf(ts[0].k, refWords...) {
			c.unknown("a keyword or nothing in an interpolation")
		}
		for _, t := range ts {
			if isOneOf(t.k, "class", "plan", "produces", "consumes") || c.workflow && isOneOf(t.s, styles...) {
				c.unknown("a definition in an interpolation")
			}
		}
		n, _, open := derive(ts, true, c.workflow)
		if open != "" {
			c.unknown(open)
		}
		if n == nil {
			c.reject()
		}
		return interpolated(n)
	}
	if c.at(0) == ':' && c.at(1) == ':' {
		c.i += 2
	}
	switch r := c.at(0); {
	case isLower(r):
		c.variable()
		return &Node{K: KVar, S: c.s[start:c.i]}
	case isDigit(r) && c.i == start:
		c.while(isDigit)
		v, err := strconv.ParseInt(c.s[start:c.i], 10, 64)
		if err != nil {
			c.reject()
		}
		return &Node{K: KVar, I: v, Flag: true}
	}
	c.unknown("a dollar sign without a name")
	return nil
}

// interpolated makes a variable of a leading name
func interpolated(n *Node) *Node {
	m := *n
	switch n.K {
	case KName:
		return &Node{K: KVar, S: n.S}
	case KAccess, KMethod, KDot:
		if leading(n) {
			m.A = interpolated(n.A)
		}
	}
	return &m
}

func leading(n *Node) bool {
	switch n.K {
	case KName:
		return true
	case KAccess, KMethod, KDot:
		return leading(n.A)
	}
	return false
}

func (c *scanner) regexp() (string, bool) {
	b := strings.Builder{}
	c.i++
	for c.i < len(c.s) {
		r := c.at(0)
		c.i += utf8.RuneLen(r)
		if r == '/' {
			return b.String(), true
		}
		if r == '\\' && c.i < len(c.s) {
			if c.at(0) != '/' {
				b.WriteRune(r)
			}
			r = c.at(0)
			c.i += utf8.RuneLen(r)
		}
		b.WriteRune(r)
	}
	return "", false
}

// divide scans a text: the tokens, or why there are none
func divide(s string, tasks, workflow bool) (ts []tk, ok bool, open string) {
	c := &scanner{s: s, tasks: tasks, workflow: workflow}
	defer func() {
		switch r := recover().(type) {
		case nil:
		case refReject:
			ts, ok = c.ts, false
		case refUnknown:
			open = r.why
		default:
			panic(r)
		}
	}()
	return c.scan(), true, ""
}
