package main

import (
	"fmt"
	"strings"
	"unicode/utf8"

	"github.com/lyraproj/puppet-parser/parser"
)

// C04: quoted strings and regexps

// badEscapes are malformed in double quotes. They are reported at their start
var badEscapes = []string{`\u`, `\u{}`, `\u{1}`, `\u{1234567}`, `\u{0000041}`, `\u{00000e9}`, `\u{000000041}`, `\u12`, `\u123g`, `\uD800`, `\uDFFF`, `\udc00`, `\u{110000}`, `\u{ffffff}`, `\u{d800}`, `\u{12`, `\u{ 12}`, `\u(12)`, `\u(12}`, `\ug123456}`, `\u:ab}`, `\u+123`, `\u{+12}`, `\u{00110000}`, `\ug`, `\u123`, `\u{00d9ab}`, `\u{0_1}`}
var badHexEscapes = []string{`\x`, `\xg1`, `\x1g`, `\x1`, `\x-1`, `\x {`, `\x+1`}

// quoted writes text in double quotes with a random choice among all spellings of each character. Now and then it adds
// an escape sequence that is no escape sequence, which adds to the value, or a malformed one, whose offset it returns.
func (g *G) quoted(s string, hex, malformed bool) (src, val string, bad int) {
	bad = -1
	var b, v strings.Builder
	b.WriteByte('"')
	escape := g.n(100)
	rs := []rune(s)
	for i := 0; i <= len(rs); i++ {
		if g.pct(3) {
			// not an escape sequence
			c := g.pick([]string{"a", "b", "q", "N", "U", "{", "}", "(", "0", "1", "é", "😀", " ", "/", "#", "x", "X", "x41", "v", "f", "e", "*", "\n", "\t", "`", "%", "\u2028"})
			if hex && c[0] == 'x' {
				c = "X41"
			}
			b.WriteString(`\` + c)
			v.WriteString(`\` + c)
			g.tag("not an escape")
		}
		if i == len(rs) {
			break
		}
		if malformed && g.n(400) == 399 && bad < 0 {
			bad = b.Len()
			l := badEscapes
			if hex && g.bool() {
				l = badHexEscapes
			}
			b.WriteString(g.pick(l))
			b.WriteString("-") // no digit
		}
		r := rs[i]
		v.WriteRune(r)
		var forms []string
		switch r {
		case '"', '\\', '$':
			forms = append(forms, `\`+string(r))
		case '\'':
			forms = append(forms, `'`, `\'`)
		case '\n':
			forms = append(forms, "\n", `\n`)
		case '\r':
			forms = append(forms, "\r", `\r`)
		case '\t':
			forms = append(forms, "\t", `\t`)
		case ' ':
			forms = append(forms, " ", `\s`)
		default:
			forms = append(forms, string(r))
		}
		if g.n(100) < escape {
			if r <= 0xffff {
				forms = append(forms, fmt.Sprintf(`\u%04x`, r), fmt.Sprintf(`\u%04X`, r))
			}
			for w := 2; w <= 6; w++ {
				h := fmt.Sprintf("%0*x", w, r)
				if len(h) == w {
					if g.bool() {
						h = strings.ToUpper(h)
					}
					forms = append(forms, `\u{`+h+`}`)
				}
			}
			if hex && r < utf8.RuneSelf {
				forms = append(forms, fmt.Sprintf(`\x%02x`, r), fmt.Sprintf(`\x%02X`, r))
			}
		}
		b.WriteString(g.pick(forms))
	}
	b.WriteByte('"')
	return b.String(), v.String(), bad
}

// anyText generates text with a lot of characters that mean something to a lexer
func (g *G) anyText() string {
	switch g.n(5) {
	case 0:
		return g.plainText()
	case 1:
		var b strings.Builder
		for i := g.n(8); i > 0; i-- {
			b.WriteString(g.pick([]string{"'", "\"", "\\", "\\\\", "\\'", "\\\"", "$", "${", "}", "`", "/", "//", "/*", "*/", "#", "\n", "\r\n", "\\n", "\\u", "\\x", "@(", "|", " ", "a", "0", "\\$", "%>", "<%", "é", "😀"}))
		}
		if g.inInterp {
			return strings.Replace(b.String(), "/*", "/ *", -1)
		}
		return b.String()
	case 2:
		r := rune(1 + g.n(0x10fffe))
		if r >= 0xd800 && r < 0xe000 {
			r -= 0x1000
		}
		return strings.Repeat(string(r), 1+g.n(2))
	}
	return g.text(12)
}

func (g *G) stringLeaf(hex, tick bool) *Node {
	switch g.n(10) {
	case 0:
		return g.variable()
	case 1, 2, 3:
		s := g.anyText()
		var b strings.Builder
		b.WriteByte('\'')
		for i := 0; i < len(s); i++ {
			if s[i] == '\'' {
				b.WriteByte('\\')
			} else if s[i] == '\\' {
				// needs no backslash, unless what follows it is a quote, a backslash or the end
				if i+1 == len(s) || s[i+1] == '\'' || s[i+1] == '\\' || g.bool() {
					b.WriteByte('\\')
				}
			}
			b.WriteByte(s[i])
		}
		b.WriteByte('\'')
		g.tag("single quotes")
		return &Node{K: KStr, S: s, Src: b.String()}
	case 4:
		if tick {
			s := strings.Replace(g.anyText(), "`", "'", -1)
			g.tag("backtick")
			return &Node{K: KStr, S: s, Src: "`" + s + "`"}
		}
	case 5, 6:
		s := g.anyText()
		if strings.HasPrefix(s, "*") {
			s = "x" + s // not a comment
		}
		for strings.HasSuffix(s, `\`) {
			s = s[:len(s)-1]
		}
		g.tag("regexp")
		return regexpNode(s)
	}
	src, val, bad := g.quoted(g.anyText(), hex, true)
	g.tag("double quotes")
	n := &Node{K: KStr, S: val, Src: src}
	if bad >= 0 {
		n.Op, n.I = "bad", int64(bad)
	}
	return n
}

func checkC04(g *G) {
	hex, tick := g.bool(), g.bool()
	g.leafGen = func() *Node { return g.stringLeaf(hex, tick) }
	g.budget = 1 + g.n(15)
	n := g.numExpr(lvRel, 0)
	p := mkProgram(n)
	finish(p)
	src := g.Print(p, g.newLayout(), false)
	var opts []parser.Option
	if hex {
		opts = append(opts, parser.HandleHexEscapes)
	}
	if tick {
		opts = append(opts, parser.HandleBacktickStrings)
	}
	if g.bool() {
		opts = append(opts, parser.TasksEnabled)
	}
	bad := (*Node)(nil)
	strs := 0
	p.Walk(func(c *Node, path []*Node) {
		if (c.K == KStr && c.Op != "bare" || c.K == KRegexp) && !c.Syn {
			strs++
			if c.Op == "bad" && (bad == nil || c.Off < bad.Off) {
				bad = c
			}
		}
	})
	if strs == 0 {
		return
	}
	if bad != nil {
		g.note("%q", src)
		e, err := parser.CreateParser(opts...).Parse("f.pp", src, false)
		if err == nil {
			g.fail("a malformed escape sequence is accepted\n--- source\n%s\n--- string\n%s\n--- parsed\n%s", src, bad.Src, e.ToPN())
		}
		l, c := lineCol(src, bad.Off+int(bad.I))
		g.checkLocation(src, err, "f.pp", l, c)
		g.tag("malformed escape")
		g.count(src)
		return
	}
	e := g.parse(src, false, opts...)
	g.checkTree(p, src, e)
	g.pair(src, p, fromAST(e), func(w, a, _, _ *Node) {
		if (w.K == KStr || w.K == KRegexp) && a.S != w.S {
			g.fail("the value of %s is %q, not %q\n--- source\n%s", w.Src, a.S, w.S, src)
		}
	})
	switch n.K {
	case KCall, KClass, KResource:
	default:
		src = g.Print(n, g.newLayout(), true)
		g.checkTree(n, src, g.parse(src, true, opts...))
	}
	g.count(src)
}

func init() {
	register(&Prop{id: "C04", quick: 40000, thorough: 800000, check: checkC04,
		rule: "random expressions over strings in all kinds of quotes (every character spelled in a random way, with escape sequences that are none, and malformed ones) and regexps, next to divisions and other operators; non-trivial: at least one string or regexp; distinct by source text"})
}
