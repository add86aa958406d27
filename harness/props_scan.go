package main

import (
	"strings"

	"github.com/lyraproj/puppet-parser/parser"
)

// C31: texts are divided into tokens in the one way of the language

var scanPieces = []string{"'", "\"", "/", "*", "/*", "*/", "#", "\\", "$", ":", "::", "-", "--", "->", "<-", "=", ">", "<", "|", "~", "!", "@", "+", ".", "..", "0", "07", "08", "0x", "0xfF", "1", "9", "1e", "1e3", "1.", ".5", "1.5e-3", "2E+",
	"9223372036854775807", "9223372036854775808", "99999999999999999999", "1e308", "1e309", "1.0e400", "00", "_", "a", "A", "x", "e", "é", "É", "日", " ", "\t", "\r", "\r\n", "\n", "\u00a0", "\u2028", "\ufeff", "\x01", "\x7f", "%", "^", "~>", "`", ",", ";", "?", "(", ")", "[", "]", "{", "}", "\\'", "\\\\", "\\n", "\\/",
	"a-b", "a--b", "a-", "-b", "a::b", "a::", "::a", "A::b", "a::B", "A::B", "$a::_b", "$::", "$a::", "$_a", "$A", "$1a", "$01", "if", "true", "plan", "in", "/r/", "/ /", "'s'", "\"s\"", "''", "\"\"", "?{", "? {", "|{", "||", "| |", "|>", "|>>", "<<|", "<|", "@@", "=~", "!~", "=>", "+>", "+=", "-=", "==", "!=", ">=", "<=", "<<", ">>"}

var scanNumbers = []string{"0", "7", "00", "017", "0x1F", "0Xa", "1e3", "1E-2", "2.50", "0.1e+1", "0e0", "9223372036854775807", "9223372036854775808"}

// spelled writes a token, or another one of its kind, in some way
func (g *G) spelled(t tk) string {
	chars := []string{"a", " ", "é", "\\\\", "/*", "#", "'", "\"", "\\n", "\n", "/", "$", "1", "-", "\\", "*/", "日", ")"}
	switch t.k {
	case "str":
		switch g.u(8) {
		case 3, 4:
			b := strings.Builder{}
			for i := 1 + g.n(4); i > 0; i-- {
				switch g.u(4) {
				case 0:
					c := g.pick(chars)
					if c == "\"" || c == "$" {
						c = "\\" + c
					}
					b.WriteString(c)
				case 1:
					b.WriteString(g.pick([]string{"$a", "$::a", "$a::b", "$1", "$a::_x", "$a:", "$a[1]", "$a-b", "$a.b", "$10x", "\\$a", "$$a", "$A", "${a", "$a::"}))
				default:
					if g.interpDepth > 1 {
						continue
					}
					g.interpDepth++
					b.WriteString("${" + g.looseText(g.interpTokens()) + "}")
					g.interpDepth--
				}
			}
			return "\"" + b.String() + "\""
		case 0:
			return g.pick([]string{"a-b", "a--b1", "x-1", "if-x", "a::b-c", "b-_"})
		case 1, 2:
			q := g.pick([]string{"'", "\""})
			b := strings.Builder{}
			for i := g.n(5); i > 0; i-- {
				c := g.pick(chars)
				if c == q || c == "$" && q == "\"" {
					c = "\\" + c
				}
				b.WriteString(c)
			}
			return q + b.String() + q
		}
	case "regexp":
		if g.bool() {
			b := strings.Builder{}
			for i := 1 + g.n(4); i > 0; i-- {
				c := g.pick(chars)
				if c == "/" {
					c = "\\/"
				}
				b.WriteString(c)
			}
			if s := b.String(); s[0] != '*' {
				return "/" + s + "/"
			}
		}
	case "int", "float":
		if g.bool() {
			return g.pick(scanNumbers)
		}
	case "name":
		if g.pct(15) {
			return g.pick([]string{"a_b", "x9", "::a", "aB", "plans", "iff", "true_", "notice1"})
		}
	}
	return t.s
}

var interpTexts = []string{"a", "a [ 1 ]", "a . b", "a [ 1 ] . b ( 2 ) [ 3 ]", "a ( 1 )", "a . b | $x | { $x }", "$a", "$a + 1", "A", "1", "'s'", "{ 1 => 2 }", "[ 1 ]", "( a )", "a -> b", "a ? { 1 => 2 }", "- 1", "! a", "a = 1", "a , b", "a b", "a ;", "a { 's' : }", "if $x { 1 }", "undef", "true", "notice ( 1 )", "notice [ 1 ]", "a <| |>", "/r/", "x == y"}

// interpTokens generates what is in the braces of an interpolation
func (g *G) interpTokens() (ts []tk) {
	for _, s := range strings.Fields(g.pick(interpTexts)) {
		t := g.token(s)
		t.glue = g.pct(80) && s == "["
		ts = append(ts, t)
	}
	if g.pct(15) {
		ts = g.mutateTks(ts)
	}
	return
}

func (g *G) looseText(ts []tk) string {
	b := strings.Builder{}
	tight := g.u(101)
	last := ""
	for i, t := range ts {
		s := g.spelled(t)
		sep := ""
		word := last != "" && (isWordly(rune(last[len(last)-1])) || last == "$") && (isWordly(rune(s[0])) || s[0] == ':')
		switch {
		case t.nl:
			sep = g.pick([]string{"\n", "\n ", "\r\n", "# c'\n", "/* x */\n", "\n/* ( */"})
		case t.glue:
		case word && !g.pct(2), i > 0 && !g.pct(tight):
			sep = g.pick([]string{" ", " ", " ", "\t", "  ", "\n", "/**/", "/* \n */", " # [\n", "\r"})
		}
		b.WriteString(sep)
		b.WriteString(s)
		last = s
	}
	return b.String()
}

// disturbed changes a few characters
func (g *G) disturbed(s string) string {
	for i := g.weighted(5, 4, 2, 1); i > 0; i-- {
		rs := []rune(s)
		at := g.u(len(rs) + 1)
		piece := g.pick(scanPieces)
		switch g.u(6) {
		case 0, 1:
			s = string(rs[:at]) + piece + string(rs[at:])
		case 2:
			if at < len(rs) {
				s = string(rs[:at]) + piece + string(rs[at+1:])
			}
		case 3:
			if at < len(rs) {
				s = string(rs[:at]) + string(rs[at+1:])
			}
		case 4:
			if at+1 < len(rs) {
				rs[at], rs[at+1] = rs[at+1], rs[at]
				s = string(rs)
			}
		default: // white space only
			for k := 0; k < len(rs); k++ {
				if a := (at + k) % len(rs); strings.ContainsRune(" \n\t", rs[a]) {
					s = string(rs[:a]) + g.pick([]string{"", "", "\n", " ", "/**/", "#\n"}) + string(rs[a+1:])
					break
				}
			}
		}
	}
	return s
}

func checkC31(g *G) {
	src := ""
	if g.pct(15) {
		g.tasks, g.workflow = g.bool(), g.pct(25)
		for i := 1 + g.n(8); i > 0; i-- {
			src += g.pick(scanPieces)
		}
		g.tag("pieces")
	} else {
		src = g.disturbed(g.looseText(g.nearProgram(1)))
	}
	single := g.pct(10)
	g.note("%q", src)
	var want *Node
	ts, ok, open := divide(src, g.tasks, g.workflow)
	at := len(ts)
	if ok && open == "" {
		want, at, open = derive(ts, single, g.workflow)
	}
	e, err := parser.CreateParser(g.options()...).Parse("f.pp", src, single)
	if len(ts) >= 3 && open == "" {
		g.count(src)
	}
	g.compare(src, ts, want, at, open, e, err)
}

func init() {
	register(&Prop{id: "C31", quick: 80000, thorough: 2000000, check: checkC31,
		rule: "texts of token sequences in which tokens stand close together, are spelled in many ways and have up to three characters changed, and sequences of short pieces; compared with a reference scanner and parser; non-trivial: three or more tokens that the reference decides; distinct by source text"})
}
