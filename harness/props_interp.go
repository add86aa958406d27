package main

import (
	"fmt"
	"strings"
)

// C06: interpolation

// richString generates a double quoted string with interpolations of all kinds, which contain such strings again
func (g *G) richString(d int) *Node {
	saved, ih := g.noHeredoc, g.inInterp
	g.noHeredoc, g.inInterp = true, true
	defer func() { g.noHeredoc, g.inInterp = saved, ih }()
	n := &Node{K: KConcat}
	src, val := "", ""
	flush := func() {
		if src == "" {
			return
		}
		if l := len(n.L); l > 0 && n.L[l-1].Op == "$" && (wordByte(src[0]) || strings.HasPrefix(src, "::")) {
			src, val = "."+src, "."+val
		}
		n.L = append(n.L, &Node{K: KStr, S: val, Src: src})
		src, val = "", ""
	}
	times := 1 + g.n(5)
	if d == 0 && g.rarely() {
		times = g.many(120)
		g.tag("long")
	}
	for i := times; i > 0; i-- {
		if g.pct(45) {
			s, v, _ := g.quoted(g.anyText(), false, false)
			src += s[1 : len(s)-1]
			val += v
			continue
		}
		flush()
		n.L = append(n.L, g.richPart(d))
	}
	flush()
	if len(n.L) == 0 {
		return &Node{K: KStr, Src: `""`}
	}
	if len(n.L) == 1 && n.L[0].K == KStr {
		n.L[0].Src = `"` + n.L[0].Src + `"`
		return n.L[0]
	}
	if d > 0 {
		g.tag(fmt.Sprintf("nested %d", d))
	}
	return n
}

func (g *G) richPart(d int) *Node {
	switch g.n(10) {
	case 0, 1, 2:
		if g.pct(15) {
			return &Node{K: KText, Op: "$", A: mkIdx(int64(g.n(1000)))}
		}
		v := g.pick(varNames)
		if v == "_self" {
			v = "a::_x"
		} else if g.pct(7) {
			v = g.ident()
		}
		if g.pct(10) {
			v = "::" + v
		}
		return &Node{K: KText, Op: "$", A: mkVar(v)}
	case 3, 4:
		// a leading name
		var e *Node
		switch g.n(12) {
		case 0:
			v := mkVar(g.pick([]string{"notice", "type", "include", "tag", "require", "break", "action", "workflow", "plan"}))
			v.Op, v.Syn, v.M[0].Syn = "bare", true, true
			return &Node{K: KText, A: v}
		default:
			e = g.name()
		}
		for i := g.n(4); i > 0; i-- {
			if g.bool() {
				e = &Node{K: KAccess, A: e, L: []*Node{g.richExpr(lvRel, d)}}
			} else {
				m := &Node{K: KMethod, A: &Node{K: KDot, A: e, B: mkName(g.pick(callNames))}}
				if g.bool() {
					m.L = []*Node{g.richExpr(lvRel, d)}
				} else if g.bool() {
					m.Op = "bare"
				}
				if g.pct(25) {
					m.B = &Node{K: KLambda, L: []*Node{{K: KParam, S: "x"}}, B: mkBlock(g.richExpr(lvRel, d))}
					if m.Op == "bare" {
						m.Op = "lambda"
					}
				}
				e = m
			}
		}
		g.tag("leading name")
		return &Node{K: KText, A: interpExpr(e)}
	case 5:
		g.budget -= 3
		return &Node{K: KText, A: interpExpr(g.expr(lvRel))}
	}
	return &Node{K: KText, A: interpExpr(g.richExpr(lvRel, d))}
}

func (g *G) richExpr(level, d int) *Node {
	saved := g.leafGen
	defer func() { g.leafGen = saved }()
	g.leafGen = func() *Node {
		switch g.n(10) {
		case 0, 1:
			return g.variable()
		case 2:
			return g.number()
		case 3:
			return g.name()
		case 4:
			return regexpNode(g.pick([]string{"}", "{", "a", "'", "\"", "${x}", "#", "\\}"}))
		case 5:
			return mkStr(g.pick([]string{"}", "{", "${x}", "$x", "\"", "'", "`", "}}\"", "#", "@(END)"}))
		}
		if d >= 4 || g.budget < 0 {
			return mkStr("}")
		}
		return g.richString(d + 1)
	}
	g.budget -= 2
	return at(level, g.rawNumExpr(3+d/2))
}

func checkC06(g *G) {
	g.budget = 5 + g.n(40)
	var n *Node
	src := ""
	lay := g.newLayout()
	lay.inInterp = true
	var p *Node
	if g.pct(75) {
		g.leafGen = func() *Node {
			if g.pct(10) {
				return g.variable()
			}
			return g.richString(0)
		}
		switch g.n(3) {
		case 0:
			n = g.rawNumExpr(2)
		default:
			n = g.richString(0)
		}
		p = mkProgram(n)
		if g.pct(20) {
			p.A.L = append(p.A.L, g.safeStmt(g.richString(0)))
		}
	} else {
		lay.inInterp = false
		g.leafGen = func() *Node {
			g.oneLine, g.noHeredoc, g.inInterp = true, true, true
			defer func() { g.oneLine, g.noHeredoc, g.inInterp = false, false, false }()
			return g.heredoc()
		}
		n = g.leafGen()
		p = mkProgram(n)
		g.tag("heredoc")
	}
	if g.rarely() {
		g.grow(p)
	}
	finish(p)
	src = g.Print(p, lay, false)
	e := g.parse(src, false)
	g.checkTree(p, src, e)
	parts := 0
	p.Walk(func(c *Node, _ []*Node) {
		if c.K == KText {
			parts++
		}
	})
	// without any interpolation: an escaped dollar sign is text
	if parts > 0 {
		g.count(src)
	}
}

func init() {
	register(&Prop{id: "C06", quick: 30000, thorough: 600000, check: checkC06,
		rule: "strings (75%) and heredocs with interpolations of variables, names, accesses, calls, lambdas and random expressions, nested up to four levels, with comments and line breaks inside of the braces, between text in random spelling; non-trivial: at least one interpolation; distinct by source text"})
}
