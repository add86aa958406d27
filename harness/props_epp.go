package main

import (
	"strings"

	"github.com/lyraproj/issue/issue"
	"github.com/lyraproj/puppet-parser/parser"
)

// C17: templates

// withText puts text and rendered expressions between statements
func (g *G) withText(l []*Node) (r []*Node) {
	for i := 0; ; i++ {
		for k := 0; k < 3; k++ {
			if g.pct(60) && (len(r) == 0 || r[len(r)-1].K != KRenderS) {
				if t := g.renderS(); t != nil {
					r = append(r, t)
				}
			}
			if !g.pct(25) {
				break
			}
			r = append(r, &Node{K: KRender, A: g.expr(lvSel)})
			g.tag("rendered expression")
		}
		if i == len(l) {
			return
		}
		r = append(r, l[i])
	}
}

var eppTexts = []string{"foo", "a", " ", "\t", "\n", "\r\n", "<", "%", ">", "<%", "%>", "-", "=", "#", "{", "}", "$x", "${y}", "\"", "'", "\\", "/*", "*/", "|", "@(END)", "é", "😀", "\u2028", "\u00a0", "  ", "\n\n", "<%=", "-%>", "%%", "\r", "word word", "if $x {", "\u0001"}

// eppText is text and how it is written
func (g *G) eppText() (text, src string) {
	for i := 1 + g.n(3); i > 0; i-- {
		s := ""
		for j := g.n(5); j > 0; j-- {
			s += g.pick(eppTexts)
		}
		if g.bool() {
			s += g.pick(eppTexts[:7])
		}
		e := strings.Replace(strings.Replace(s, "<%", "<%%", -1), "%>", "%%>", -1)
		if strings.Contains(e, "%%%") || strings.Contains(s, "<%>") {
			continue
		}
		text += s
		src += e
		if i > 1 || g.pct(10) {
			src += g.eppComment()
		}
	}
	return
}

func (g *G) eppComment() string {
	g.tag("comment")
	c := g.pick([]string{"", " c ", "-", "\n", "%%>", " <% ", " <%# ", "{", "é", "= $x ", "\"", "%x", "<%= 1 %%>"})
	return "<%#" + c + "%>"
}

func (g *G) renderS() *Node {
	text, src := g.eppText()
	if text == "" {
		return nil
	}
	return &Node{K: KRenderS, S: text, Src: src}
}

// eppBlanks is white space before a trimming tag, with comments
func (g *G) eppBlanks() string {
	s := ""
	for i := g.n(3); i > 0; i-- {
		s += g.blank()
		if g.pct(20) {
			s += g.eppComment()
		}
	}
	return s
}

// eppOpen begins a section of code after text
func (g *G) eppOpen(next *Node, text string) string {
	if next != nil && next.K == KRender {
		return "<%="
	}
	if g.pct(40) && !strings.HasSuffix(text, " ") && !strings.HasSuffix(text, "\t") {
		s := g.eppBlanks()
		if s != "" {
			g.tag("trimmed before")
		}
		return s + "<%-"
	}
	return "<%"
}

// eppClose ends a section of code before text. src is the text as written.
func (g *G) eppClose(src string) string {
	if g.pct(60) {
		return "%>"
	}
	s := "-%>"
	for i := g.n(3); i > 0; i-- {
		s += g.blank()
	}
	if src == "" && g.pct(30) || src != "" && strings.IndexByte(" \t\r\n", src[0]) < 0 && g.pct(30) {
		return s
	}
	g.tag("trimmed after")
	if g.pct(30) {
		return s + "\r\n"
	}
	return s + "\n"
}

func (p *Printer) raw(s string) {
	p.toks = append(p.toks, Tok{T: s, Raw: true})
}

// sections prints statements of a template. It begins and ends inside of a section of code
func (p *Printer) sections(n *Node) {
	g := p.g
	text := n.Op == "epp"
	for _, s := range n.L {
		text = text || s.K == KRender || s.K == KRenderS
	}
	if len(n.L) > 0 && !text {
		p.open = append(p.open, n)
	}
	sep := true // nothing can be joined with the next statement
	empty := func() {
		if g.pct(10) {
			p.raw(g.eppClose("") + g.eppOpen(nil, ""))
			sep = true
			g.tag("empty text")
		}
	}
	if len(p.toks) > 0 && p.toks[len(p.toks)-1].T == "{" && len(p.open) == 0 && (len(n.L) == 0 || n.L[0].K != KRenderS && n.L[0].K != KRender) {
		empty()
	}
	for i, s := range n.L {
		var next *Node
		if i+1 < len(n.L) {
			next = n.L[i+1]
		}
		open := len(p.toks) > 0
		switch s.K {
		case KRenderS:
			t := s.Src
			if open {
				t = g.eppClose(t) + t
			}
			if next != nil || n.Op != "epp" {
				t += g.eppOpen(next, s.S)
			}
			p.raw(t)
			sep = true
		case KRender:
			sep = false
			if i == 0 || n.L[i-1].K != KRenderS {
				t := ""
				if open {
					t = g.eppClose("")
				}
				if g.pct(10) {
					t += g.eppComment()
				}
				p.raw(t + "<%=")
			}
			p.node(s.A)
			if next == nil && n.Op == "epp" {
				p.raw(g.eppClose(""))
			} else if next == nil || next.K != KRenderS && next.K != KRender {
				t := g.eppClose("")
				if g.pct(10) {
					t += g.eppComment()
				}
				p.raw(t + g.eppOpen(nil, ""))
			}
		default:
			if !open {
				p.raw(g.eppOpen(nil, ""))
			}
			p.flags.stmt = !sep
			p.node(s)
			sep = false
			if next != nil && next.K == KRenderS {
				break
			}
			if g.pct(12) {
				p.t(";")
				if next != nil && next.K != KRender {
					empty()
				}
			}
			if next == nil && n.Op == "epp" {
				p.raw(g.eppClose(""))
			}
		}
	}
	if len(n.L) > 0 && !text {
		p.end(n)
	}
}

// printEpp prints a template
func (g *G) printEpp(t *Node, l Layout) string {
	g.layout = l
	t.Walk(func(c *Node, _ []*Node) { c.Off, c.End = -1, -1 })
	p := &Printer{g: g}
	la := t.A
	body := la.B.A
	if la.Flag {
		s := ""
		if g.pct(20) {
			s = g.eppBlanks() + "<%-"
		} else {
			s = g.eppOpen(nil, "")
		}
		p.raw(s)
		p.params(la.L, "|", "|")
		if len(body.L) == 0 {
			p.raw(g.eppClose(""))
		} else if k := body.L[0].K; k != KRenderS && k != KRender {
			p.raw(g.eppClose("") + g.eppOpen(nil, ""))
		}
	}
	p.sections(body)
	src := layout(g, p.toks, l, false)
	t.Walk(func(c *Node, _ []*Node) {
		if c.K == KVar && len(c.M) == 1 {
			c.M[0].Off, c.M[0].End = c.Off+1, c.End
		}
	})
	return src
}

// template generates a template
func (g *G) template() *Node {
	g.epp = true
	g.tasks = g.bool()
	g.workflow = g.pct(10)
	g.budget = 3 + g.n(30)
	var l []*Node
	k := g.n(5)
	if g.rarely() {
		k = g.many(70)
		g.tag("long")
	}
	for ; k > 0; k-- {
		l = append(l, g.stmt(true))
	}
	body := &Node{K: KBlock, L: g.withText(l), Op: "epp"}
	la := &Node{K: KLambda, B: &Node{K: KEpp, A: body}}
	if g.pct(30) {
		la.Flag = true
		la.L = g.params(3)
		g.tag("parameters")
	}
	if len(body.L) == 0 && !la.Flag {
		body.L = []*Node{{K: KRenderS}}
	}
	p := &Node{K: KProgram, A: la}
	finish(p)
	return p
}

// badTemplate checks a template that has parameters after text or a comment without an end
func (g *G) badTemplate(t *Node) {
	body := t.A.B.A
	if g.bool() {
		t.A.Flag, t.A.L = true, g.params(2)
		text, src := g.eppText()
		if text == "" {
			text, src = "x", "x"
		}
		head := g.printEpp(t, Layout{mode: g.n(3)})
		i := strings.Index(head, "|")
		src += head[:i]
		if strings.Contains(head[:i], "<%-") && strings.Trim(text, " \t") == "" {
			src = "x" + src
		}
		g.tag("parameters after text")
		l, c := lineCol(src, len(src))
		src += head[i:]
		g.rejected(src, "PARSE_ILLEGAL_EPP_PARAMETERS", l, c, c+1, parser.EppMode)
		return
	}
	if n := len(body.L); n == 0 || body.L[n-1].K != KRenderS {
		body.L = append(body.L, &Node{K: KRenderS, S: "x", Src: "x"})
	}
	src := g.printEpp(t, g.newLayout())
	l, c := lineCol(src, len(src))
	src += "<%#" + g.pick([]string{"", "x", "%%>", " <% ", "\n\n", "-%", "%"})
	g.tag("endless comment")
	g.rejected(src, "LEX_UNBALANCED_EPP_COMMENT", l, c, c, parser.EppMode)
}

// rejected checks that there is an error with the code at the place
func (g *G) rejected(src, code string, line, col, toCol int, opts ...parser.Option) {
	g.note("%q", src)
	e, err := parser.CreateParser(append(g.options(), opts...)...).Parse("f.pp", src, false)
	if err == nil {
		g.fail("the source is accepted, %s is expected\n--- source\n%s\n--- parsed\n%s", code, src, e.ToPN())
	}
	if r, ok := err.(issue.Reported); ok && r.Location().Pos() == toCol {
		col = toCol
	}
	g.checkLocation(src, err, "f.pp", line, col)
	if c := string(err.(issue.Reported).Code()); c != code {
		g.fail("the error is %s, not %s\n--- source\n%s", c, code, src)
	}
	g.count(src)
}

func checkC17(g *G) {
	t := g.template()
	if g.pct(10) {
		g.badTemplate(t)
		return
	}
	src := g.printEpp(t, g.newLayout())
	e := g.parse(src, false, append(g.options(), parser.EppMode)...)
	w, a := t.PN(), fromAST(e)
	if got := e.ToPN().String(); w != got {
		g.fail("the tree is not the one the template denotes\n--- source\n%s\n--- expected\n%s\n--- parsed\n%s", src, w, got)
	}
	if got := a.PN(); w != got {
		g.fail("the tree is not the one the template denotes\n--- source\n%s\n--- expected\n%s\n--- read through the accessors\n%s", src, w, got)
	}
	if epp := a.A.B; epp.K != KEpp || epp.Flag != t.A.Flag {
		g.fail("the tree does not tell whether parameters are specified\n--- source\n%s\n--- expected\n%v", src, t.A.Flag)
	}
	if t.Count() > 8 {
		g.count(src)
	}
}

func init() {
	register(&Prop{id: "C17", quick: 40000, thorough: 1000000, check: checkC17,
		rule: "random templates: text with escaped tags and comments, statements, rendered expressions and trimming tags, also inside blocks and lambdas that span sections; non-trivial: more than eight nodes; distinct by source text"})
}
