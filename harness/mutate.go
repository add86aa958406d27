package main

import (
	_ "embed"
	"encoding/json"
	"regexp"
	"strings"
)

// Sources from the tests of /repo, and texts that resemble sources

//go:embed corpus.json
var corpusJSON []byte

var corpus = func() (r []string) {
	if err := json.Unmarshal(corpusJSON, &r); err != nil {
		panic(err)
	}
	return
}()

var vocabulary = []string{
	"and", "or", "in", "if", "elsif", "else", "unless", "case", "default", "undef", "true", "false", "class", "define", "node", "function",
	"plan", "type", "application", "site", "consumes", "produces", "inherits", "attr", "private", "step", "workflow", "resource", "action", "iteration",
	"parameters", "returns", "state", "while", "times", "range", "each", "include", "notice", "return", "a", "b::c", "::d", "File", "A::B", "::Z", "Object", "Resource",
	"$x", "$a::b", "$0", "$", "$::", "$_p", "x-y", "_x", "é", "日本", "😀", "1", "0", "0x1F", "017", "1.5", "1e3", "0x", "08", "1.", "1e", "9223372036854775808", "1e999",
	"'s'", "''", "'it\\'s'", "\"d\"", "\"\"", "\"a${x}b\"", "\"$x\"", "\"${", "}\"", "\"\\u{1F600}\"", "\"\\u12\"", "\"\\x4\"", "'", "\"", "`", "\\", "\\\\", "/r/", "/a\\/b/", "/",
	"@(E)\n  t\n  | E\n", "@(\"E\"/L)\n  ${x}\n  -E\n", "@(E:json/nt)", "@(", "\n|- E\n", "\nE\n", "@", "@@", "#", "# c\n", "/* c */", "/*", "*/",
	"(", ")", "[", "]", "{", "}", "|", "<|", "|>", "<<|", "|>>", ",", ";", ":", "::", ".", "?", "=>", "+>", "=", "+=", "-=", "==", "!=", "=~", "!~", "<", "<=", ">", ">=", "<<", ">>",
	"->", "<-", "~>", "<~", "+", "-", "*", "%", "!", "^", "&", "~",
	"<%", "%>", "<%=", "<%-", "-%>", "<%#", "<%%", "%%>", "<%|", "|%>", "<%- |", "| -%>",
	" ", "\n", "\r\n", "\t", "\r", "\x00", "\x01", "\xff", "\xc3", "\u00a0", "\u2028", "\ufeff", "\ufffd", "\xed\xa0\x80", "\xf4\x90\x80\x80",
}

// soup is a sequence of tokens
func (g *G) soup(max int) string {
	var b strings.Builder
	sep := g.n(3)
	for i := 1 + g.n(max); i > 0; i-- {
		b.WriteString(g.pick(vocabulary))
		switch {
		case sep == 0 || sep == 1 && g.pct(50):
			b.WriteByte(' ')
		case g.pct(5):
			b.WriteByte('\n')
		}
	}
	return b.String()
}

func (g *G) rawBytes(max int) string {
	b := make([]byte, g.n(max))
	for i := range b {
		b[i] = byte(g.n(256))
	}
	return string(b)
}

// mutate changes something in a source
func (g *G) mutate(s string) string {
	for i := 1 + g.n(4); i > 0; i-- {
		a := g.n(len(s) + 1)
		b := a + g.n(min(len(s)-a, 12)+1)
		if g.pct(10) {
			b = a + g.n(len(s)-a+1)
		}
		switch g.n(8) {
		case 0, 1:
			s = s[:a] + s[b:]
		case 2, 3:
			s = s[:a] + g.pick(vocabulary) + s[a:]
		case 4:
			s = s[:a] + g.pick(vocabulary) + s[b:]
		case 5:
			s = s[:b] + s[a:]
		case 6:
			c := g.pick(corpus)
			l := g.n(len(c) + 1)
			s = s[:a] + c[l:l+g.n(len(c)-l+1)] + s[b:]
		case 7:
			if len(s) > 0 {
				k := g.n(len(s))
				s = s[:k] + string([]byte{byte(g.n(256))}) + s[k+1:]
			}
		}
		if len(s) > 4000 {
			s = s[:4000]
		}
	}
	return s
}

var tokenPattern = regexp.MustCompile(`[A-Za-z_][\w:]*|\$[\w:]*|\d+|\s+|<<?\||\|>>?|[=+]>|[-~]>|<[-~]|[=!]~|[=!<>+-]=|<<|>>|[^\w\s]`)

func isOpener(s string) bool { return s == "(" || s == "[" || s == "{" || s == "<|" || s == "<<|" }
func isCloser(s string) bool { return s == ")" || s == "]" || s == "}" || s == "|>" || s == "|>>" }

// mutateTokens changes the tokens of a source, or what is between brackets
func (g *G) mutateTokens(s string) string {
	ts := tokenPattern.FindAllString(s, -1)
	for i := 1 + g.n(3); i > 0 && len(ts) > 0; i-- {
		type pair struct{ a, b int }
		var pairs []pair
		var stack []int
		for k, t := range ts {
			if isOpener(t) {
				stack = append(stack, k)
			} else if isCloser(t) && len(stack) > 0 {
				pairs = append(pairs, pair{stack[len(stack)-1], k})
				stack = stack[:len(stack)-1]
			}
		}
		k := g.u(len(ts))
		splice := func(a, b int, with ...string) {
			ts = append(append(append([]string{}, ts[:a]...), with...), ts[b:]...)
		}
		op := g.u(11)
		if len(pairs) == 0 && op < 6 {
			op += 6
		}
		switch op {
		case 0, 1:
			p := pairs[g.u(len(pairs))]
			splice(p.a+1, p.b)
		case 2:
			p, q := pairs[g.u(len(pairs))], pairs[g.u(len(pairs))]
			splice(p.a+1, p.b, append([]string{}, ts[q.a+1:q.b]...)...)
		case 3:
			p, q := pairs[g.u(len(pairs))], pairs[g.u(len(pairs))]
			splice(p.a, p.b+1, append([]string{}, ts[q.a:q.b+1]...)...)
		case 4:
			p := pairs[g.u(len(pairs))]
			splice(p.a, p.b+1)
		case 5:
			p := pairs[g.u(len(pairs))]
			splice(p.b, p.b+1)
			splice(p.a, p.a+1)
		case 6, 7:
			splice(k, k+1)
		case 8:
			splice(k, k, ts[k])
		case 9:
			splice(k, k, g.pick(vocabulary))
		default:
			splice(k, k+1, ts[g.u(len(ts))])
		}
		if len(ts) > 1500 {
			ts = ts[:1500]
		}
	}
	return strings.Join(ts, "")
}

// wraps are things that can be nested
var wraps = [][2]string{
	{"(", ")"}, {"[", "]"}, {"{a => ", "}"}, {"{", " => 1}"}, {"-(", ")"}, {"!", ""}, {"- ", ""}, {"*", ""}, {"* ", ""}, {"+", ""}, {"$a[", "]"}, {"f(", ")"}, {"a.b(", ")"}, {"1 + ", ""}, {"1 ? ", " => 2"}, {"$a ? { 1 => ", "}"}, {"1 ? {", " => 1}"},
	{"if true { ", " }"}, {"if ", " { }"}, {"if 1 { } elsif ", " { }"}, {"if 1 { } else { ", " }"}, {"unless ", " { }"}, {"unless 1 { } else { ", " }"}, {"case 1 { 1: { ", " } }"}, {"case 1 { ", ": { } }"}, {"case ", " { 1: { } }"},
	{"f() |$x| { ", " }"}, {"f() |$x = ", "| { }"}, {"f(1, 2) |Integer[", "] $x| { }"}, {"f.map |$x| { ", " }"}, {"include ", ""}, {"notice {", " => 1 }"}, {"notice {[", "] => 1 }"}, {"notice {a => ", " }"}, {"notice {1 -> ", " => 1 }"}, {"notice ", ", 1"}, {"notice(", ")"},
	{"file { 'x': a => ", " }"}, {"file { ", ": }"}, {"file { [", "]: }"}, {"file { x: * => ", "; y: }"}, {"@file { x: y => ", "}"}, {"File { a => ", " }"}, {"File['x'] { a => ", " }"}, {"File[", "] { a => 1 }"}, {"File<| a == (", ") |>"}, {"File<| (", ") |>"}, {"File<<| a == 1 and ", " |>>"}, {"File<| |> { a => ", "}"},
	{"class c { ", " }"}, {"class c($x = ", ") { }"}, {"class c(", " $x) { }"}, {"define d { ", " }"}, {"define d($x = ", ") { }"}, {"function f($x = ", ") { }"}, {"function f() { ", " }"}, {"function f() >> ", " { }"}, {"plan p() { ", " }"}, {"node x { ", " }"}, {"node /x/, ", " { }"}, {"type X = ", ""}, {"type X = Y[", "]"}, {"type X = Object[{ a => ", "}]"}, {"type X { ", " }"},
	{"application a() { ", " }"}, {"site { ", " }"}, {"A consumes B { a => ", " }"},
	{"\"${", "}\""}, {"\"a ${", "} b\""}, {"\"$x${[", "]}\""}, {"\"${x[", "]}\""}, {"@(\"A\")\n${", "}\nA\n"}, {"a -> ", ""}, {"", " -> a"}, {"$x = ", ""}, {"a and ", ""}, {"1 =~ ", ""}, {"1 in ", ""}, {"", ".b"}, {"", "[1]"}, {"", " + 1"}, {"", " and a"}, {"", " == 1"}, {"", ".b(1)"}, {"", ".b |$x| { 1 }"}, {"", "; 1"}, {"", "\n1"}, {"1\n", ""}, {"", " => 1"},
	{"workflow w { ", " }"}, {"workflow w { workflow x { ", " } }"}, {"workflow w { step x { ", " } }"}, {"workflow w { resource x { state => { a => ", " } } }"}, {"workflow w { resource x { state => ", " } }"}, {"workflow w { parameters => (", " $x) { } }"}, {"workflow w { resource x { state => { a => [", "] } } }"}, {"workflow w { returns => ", " }"}, {"workflow w { workflow x { iteration => ", " } { } }"}, {"workflow w { resource x times ", " as $i { } }"},
	{"<% if true { %>", "<% } %>"}, {"<%= ", " %>"}, {"<% ", " %>"}, {"<%# ", " %>"}, {"<%- |$x = ", "| -%>"}, {"[1, ", ", 2]"}, {"{a => 1, b => ", ", c => 2}"}, {"(1 + ", ") * 2"}, {"type(", ")"}, {"$a = [", "]"}, {"/* ", " */"}, {"# ", "\n"},
}

// nested is something that is nested deeply
func (g *G) nested(maxDepth int) string {
	var ws [][2]string
	for i := 1 + g.weighted(6, 3, 1); i > 0; i-- {
		ws = append(ws, wraps[g.n(len(wraps))])
	}
	depth := 1 + g.n(maxDepth)
	if g.pct(30) {
		depth = 1 + g.n(40)
	}
	var pre, post strings.Builder
	for i := 0; i < depth; i++ {
		pre.WriteString(ws[i%len(ws)][0])
	}
	for i := depth - 1; i >= 0; i-- {
		post.WriteString(ws[i%len(ws)][1])
	}
	s := pre.String()
	switch g.n(5) {
	case 0:
		s += g.soup(3)
	case 1:
		s += g.pick(corpus)
	default:
		s += g.pick([]string{"1", "a", "$x", "X", "", "'s'", "[]", "{}", "f()", "/r/"})
	}
	if !g.pct(15) {
		p := post.String()
		if g.pct(15) {
			p = p[:g.n(len(p)+1)]
		}
		s += p
	}
	return s
}

// anyText is a text that can be given to the parser
func (g *G) anySource(maxDepth int) (s string) {
	switch g.weighted(4, 14, 3, 16, 14, 8, 16, 25) {
	case 0:
		g.tag("bytes")
		s = g.rawBytes(60)
	case 1:
		g.tag("tokens")
		s = g.soup(25)
	case 2:
		g.tag("corpus")
		s = g.pick(corpus)
	case 3:
		g.tag("mutated corpus")
		s = g.mutate(g.pick(corpus))
	case 4:
		g.tag("mutated program")
		s = g.mutate(g.Print(g.anyInput(), g.newLayout(), false))
	case 6:
		g.tag("corpus with changed tokens")
		s = g.mutateTokens(g.pick(corpus))
	case 7:
		g.tag("program with changed tokens")
		if g.bool() {
			g.tasks, g.workflow = g.bool(), g.bool()
			s = g.Print(g.program(2+g.n(8), 4), g.newLayout(), false)
		} else {
			s = g.Print(g.anyInput(), g.newLayout(), false)
		}
		s = g.mutateTokens(s)
	default:
		g.tag("nested")
		s = g.nested(maxDepth)
		if g.pct(10) {
			s = g.mutate(s)
		}
	}
	return
}
