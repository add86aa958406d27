package main

import (
	"regexp"
	"strings"

	"github.com/lyraproj/issue/issue"
	"github.com/lyraproj/puppet-parser/parser"
)

// C09: places of errors

// No token begins with one of these
var badChars = []string{"^", "&", "\\", "`", "é", "€", "😀", "\u0001", "\u00a0", "\u2028", "\u007f", "日"}

var badOps = []string{"=>", "|>", "and", "or", "in", "==", "!=", ">=", "=~", "->", "+>", ";"}
var badOperands = []string{"1", "'x'", "\"y\"", "$v", "2.5", "true"}
var afterOp = map[string]bool{"(": true, "[": true, "+": true, "/": true, "%": true, "==": true, "!=": true, "<": true, "<=": true, ">": true, ">=": true, "=~": true, "!~": true, "->": true, "<-": true, "~>": true, "<~": true, "=": true, "+=": true, "-=": true, "=>": true, "!": true, "?": true, "<<": true}

var operandTok = regexp.MustCompile(`^(\$.*|[0-9].*|'(?s:.*)'|"(?s:.*)")$`)

// breakToks inserts a token that nothing can follow the tokens before it with
func (g *G) breakToks(toks []Tok, inner bool) (r []Tok, bad string, exact bool) {
	i := g.n(len(toks) + 1)
	insert := func(s string) {
		t := Tok{T: s, Starts: []*Node{g.mark}, NeedWS: true}
		r = append(r, toks[:i]...)
		r = append(r, t)
		r = append(r, toks[i:]...)
		if i < len(toks) {
			r[i+1].NeedWS = !r[i+1].Glue
		}
		bad = s
		// after the name of a type, the end of the token is reported
		g.atEnd = i > 1 && toks[i-2].T == "type"
	}
	for i > 1 && toks[i-2].T == "{" && isKeyword(toks[i-1].T) {
		i-- // a keyword is a name there only because of the arrow that follows it
	}
	prev, next := "", ""
	if i > 0 {
		prev = toks[i-1].T
	}
	if i < len(toks) {
		next = toks[i].T
	}
	if k := g.n(3); k > 0 {
		switch {
		case afterOp[prev]:
			g.tag("operator without operand")
			op := g.pick(badOps)
			if wordByte(op[0]) && (g.workflow || prev == "=") {
				op = "=>" // in the results of a step, any word can follow
			}
			insert(op)
			return
		case (next == ")" || next == "]") && operandTok.MatchString(prev):
			g.tag("operands without operator")
			insert(g.pick(badOperands))
			return
		case k == 2:
			// closes nothing, or something else
			var stack []string
			for _, t := range toks[:i] {
				switch t.T {
				case "(", "[", "{":
					stack = append(stack, t.T)
				case ")", "]", "}":
					stack = stack[:len(stack)-1]
				}
			}
			var cs []string
			top := ""
			if len(stack) > 0 {
				top = stack[len(stack)-1]
			}
			for _, c := range []string{"()", "[]", "{}"} {
				if top != c[:1] && (c != "{}" || top != "" || !inner) {
					cs = append(cs, c[1:])
				}
			}
			g.tag("wrong closing bracket")
			insert(g.pick(cs))
			return
		}
	}
	g.tag("illegal character")
	insert(g.pick(badChars))
	exact = true
	return
}

func isKeyword(s string) bool {
	for _, k := range allKeywords {
		if s == k {
			return true
		}
	}
	return false
}

var fileNames = []string{"f.pp", "", "a/b c.pp", "é.epp", "/x/y.pp", "%s", "x:1"}

func checkC09(g *G) {
	p := g.anyProgram()
	file := g.pick(fileNames)
	if g.pct(15) {
		g.checkUnterminated(p, file)
		return
	}
	if g.pct(3) {
		g.checkListed(file)
		return
	}
	interps := 0
	p.Walk(func(c *Node, _ []*Node) {
		if c.K == KText && c.Op != "$" {
			interps++
		}
	})
	target := interps
	if g.pct(40) {
		target = g.n(interps + 1)
	}
	var bad string
	var exact bool
	g.mark = &Node{K: KNop, Off: -1, End: -1}
	calls := 0
	g.breaker = func(toks []Tok, inner bool) []Tok {
		calls++
		if calls-1 != target {
			return toks
		}
		toks, bad, exact = g.breakToks(toks, inner)
		return toks
	}
	src := g.Print(p, g.newLayout(), false)
	if target < interps {
		g.tag("in an interpolation")
	}
	g.note("%q", src)
	e, err := parser.CreateParser(g.options()...).Parse(file, src, false)
	if err == nil {
		g.fail("%q at offset %d is accepted\n--- source\n%s\n--- parsed\n%s", bad, g.mark.Off, src, e.ToPN())
	}
	if r, ok := err.(issue.Reported); ok {
		switch r.Code() {
		case "PARSE_RESOURCE_WITHOUT_TITLE", "PARSE_INVALID_RESOURCE", "PARSE_EXPECTED_TITLE":
			// about something that the token is a part of, which is reported at its start
			ok := false
			p.Walk(func(c *Node, _ []*Node) {
				if l, col := lineCol(src, max(c.Off, 0)); c.Off >= 0 && c.Off < g.mark.Off && r.Location().Line() == l && r.Location().Pos() == col {
					ok = true
				}
			})
			if !ok || r.Location().File() != file {
				g.fail("the error is reported at %s:%d:%d, where nothing starts\n--- error\n%v\n--- source\n%s", r.Location().File(), r.Location().Line(), r.Location().Pos(), err, src)
			}
			g.tag("resource")
			return
		}
	}
	title := false
	p.Walk(func(c *Node, _ []*Node) {
		if c.K != KResource || c.Off < 0 || c.A.End > g.mark.Off || title {
			return
		}
		b := c.L[0]
		if end := b.End; len(b.L) > 0 {
			end = b.L[0].Off
			title = g.mark.Off <= end
		} else {
			title = g.mark.Off <= end+2 || g.mark.Off < c.End
		}
		if title {
			// what has no colon is not a title, but one of the operations of defaults or overrides
			l, col := lineCol(src, c.A.End)
			l2, col2 := lineCol(src, g.mark.Off)
			loc := err.(issue.Reported).Location()
			if loc.File() != file || loc.Line() < l || loc.Line() == l && loc.Pos() < col || loc.Line() > l2 || loc.Line() == l2 && loc.Pos() > col2+len(bad) {
				g.fail("the error is reported at %s:%d:%d, not between %d:%d and %d:%d\n--- error\n%v\n--- source\n%s", loc.File(), loc.Line(), loc.Pos(), l, col, l2, col2, err, src)
			}
		}
	})
	if title {
		g.tag("title")
		return
	}
	g.checkBad(src, err, file, bad, g.mark.Off, exact)
	if g.mark.Off > 20 {
		g.count(src)
	}
}

// checkBad checks an error that is caused by the token bad at the given offset
func (g *G) checkBad(src string, err error, file, bad string, off int, exact bool) {
	l, c := lineCol(src, off)
	r, ok := err.(issue.Reported)
	if !ok {
		g.fail("the error is a %T: %v\n--- source\n%s", err, err, src)
	}
	msg := err.Error()
	names := strings.Contains(msg, "unexpected token '") || strings.Contains(msg, "', got '")
	if names {
		exact = exact || !g.atEnd
		if !operandTok.MatchString(bad) && bad != "true" && !strings.Contains(msg, "'"+bad+"'") {
			g.fail("the error does not name %q: %s\n--- source\n%s", bad, msg, src)
		}
	}
	if exact {
		g.checkLocation(src, err, file, l, c)
		g.tag("exact place")
		return
	}
	loc := r.Location()
	if loc.File() != file || loc.Line() != l || loc.Pos() < c || loc.Pos() > c+len(bad) {
		g.fail("the error is reported at %s:%d:%d, not at %s:%d:%d\n--- error\n%v\n--- source\n%s", loc.File(), loc.Line(), loc.Pos(), file, l, c, err, src)
	}
}

// checkListed lists expressions where no call takes them
func (g *G) checkListed(file string) {
	blank := func() string { return g.pick([]string{"", " ", "\n", "\t ", " # é\n", "/* é */"}) }
	src := g.pick([]string{"", "$é = 'x'\n", "if $x { 'é' }", "'é'; ", "function f() { "})
	src = strings.Replace(src, "$é", "$y", 1) + blank()
	closed := ""
	if strings.HasPrefix(src, "function") {
		closed = "}"
	}
	src += g.pick([]string{"$a", "foo(1)", "'é'", "[1, 2]", "A", "$a.y", "foo", "true", "7", "$a + 1", "$a = {1 => 2}"})
	from := len(src)
	to := 0
	for i := 1 + g.n(4); i > 0; i-- {
		src += blank()
		if to == 0 {
			to = len(src)
		}
		src += "," + blank() + g.pick([]string{"$b", "bar(1)", "'é'", "{}", "B", "2", "notice"})
	}
	src += blank() + closed
	g.note("%q", src)
	e, err := parser.CreateParser().Parse(file, src, false)
	if err == nil {
		g.fail("expressions that no call takes are accepted\n--- source\n%s\n--- parsed\n%s", src, e.ToPN())
	}
	l, c := lineCol(src, from)
	l2, c2 := lineCol(src, to+1)
	loc := err.(issue.Reported).Location()
	if loc.File() != file || loc.Line() < l || loc.Line() == l && loc.Pos() < c || loc.Line() > l2 || loc.Line() == l2 && loc.Pos() > c2 {
		g.fail("the error is reported at %s:%d:%d, not between %d:%d and %d:%d\n--- error\n%v\n--- source\n%s", loc.File(), loc.Line(), loc.Pos(), l, c, l2, c2, err, src)
	}
	g.tag("extraneous comma")
	g.count(src)
}

// checkUnterminated replaces the rest of the program by something that does not end
func (g *G) checkUnterminated(p *Node, file string) {
	g.breaker = func(toks []Tok, inner bool) []Tok {
		if inner {
			return toks
		}
		i := g.n(len(toks) + 1)
		for i > 1 && toks[i-2].T == "{" && isKeyword(toks[i-1].T) {
			i-- // a keyword is a name there only because of the arrow that follows it
		}
		return toks[:i]
	}
	src := g.Print(p, g.newLayout(), false) + "\n"
	switch g.n(4) {
	case 0:
		src += "/* é */ "
	case 1:
		src += " \t"
	case 2:
		src += "# é\n "
	}
	off := len(src)
	bad := g.pick([]string{"'", "\"", "/*", "@(A)\n", "@(A", "@(\"A)", "\"$x ", "\"${x} ", "'\\", "\"\\", "`"})
	src += bad
	for i := g.n(4); i > 0; i-- {
		src += g.pick([]string{"x", " ", "\n", "é", "😀", "\r\n", "}", "(", "#", ",", "{ b", "1", "\\n", "A x", " | ", "-"})
	}
	g.note("%q", src)
	opts := g.options()
	if bad == "`" {
		opts = append(opts, parser.HandleBacktickStrings)
	}
	e, err := parser.CreateParser(opts...).Parse(file, src, false)
	if err == nil {
		g.fail("text that does not end is accepted\n--- source\n%s\n--- parsed\n%s", src, e.ToPN())
	}
	l, c := lineCol(src, off)
	g.checkLocation(src, err, file, l, c)
	if m := err.Error(); !strings.HasPrefix(m, "unterminated ") {
		g.fail("wrong error: %s\n--- source\n%s", m, src)
	}
	g.tag("unterminated")
	g.count(src)
}

func init() {
	register(&Prop{id: "C09", quick: 40000, thorough: 800000, check: checkC09,
		rule: "random programs in which one token is inserted that nothing can continue (an illegal character, a bracket that closes nothing, an operator without operand, an operand without operator), at any place including interpolations, or whose rest is replaced by a string, comment or heredoc without end; non-trivial: at least 20 bytes before the place; distinct by source text"})
}
