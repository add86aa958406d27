package main

// C07: layout never changes the meaning

// seqBlock generates statements that meet in the places where layout has a meaning: one ends with an operand, the next
// begins with a bracket or a parenthesis
func (g *G) seqBlock(depth, max int) *Node {
	b := &Node{K: KBlock}
	for i := 1 + g.n(max); i > 0; i-- {
		b.L = append(b.L, g.seqStmt(depth))
	}
	return b
}

func (g *G) seqStmt(depth int) *Node {
	g.budget--
	k := 14
	if depth > 3 || g.budget < 0 {
		k = 9
	}
	nothing := func() *Node { return &Node{K: KNop} }
	switch g.n(k) {
	case 0:
		return g.variable()
	case 1:
		return g.name()
	case 2:
		n := &Node{K: KCall, A: mkName("foo"), L: g.elements(2)}
		if g.pct(30) {
			n.B = &Node{K: KLambda, L: g.params(1), B: g.seqBlock(depth+1, 2)}
		}
		return n
	case 3:
		return &Node{K: KList, L: g.elements(2)}
	case 4:
		return paren(g.expr(lvRel))
	case 5:
		return g.suffixed(&Node{K: KList, L: g.elements(2)})
	case 6:
		return g.suffixed(paren(g.expr(lvRel)))
	case 7:
		return g.suffixed(g.base())
	case 8:
		return g.leaf()
	case 9:
		n := &Node{K: KIf, A: g.cond(lvOr), B: g.seqBlock(depth+1, 3), C: nothing()}
		if g.bool() {
			n.C = g.seqBlock(depth+1, 2)
		}
		return n
	case 10:
		return &Node{K: KCase, A: g.variable(), L: []*Node{{K: KOption, L: []*Node{g.expr(lvSel)}, B: g.seqBlock(depth+1, 3)}}}
	case 11:
		return g.stmtCall()
	case 12:
		if g.inInterp {
			return g.leaf()
		}
		return &Node{K: []Kind{KClass, KDefine, KFunction}[g.n(3)], S: g.defName(), L: g.params(2), B: g.seqBlock(depth+1, 3)}
	default:
		if g.inInterp {
			return g.leaf()
		}
		return &Node{K: KNode, L: []*Node{g.hostname()}, B: g.seqBlock(depth+1, 3)}
	}
}

// suffixed continues a base with an access, a method call or an operator
func (g *G) suffixed(b *Node) *Node {
	if endsWithLambda(b) {
		b = paren(b)
	}
	switch g.n(5) {
	case 0:
		return &Node{K: KAccess, A: b, L: []*Node{g.arg()}}
	case 1:
		n := &Node{K: KMethod, A: &Node{K: KDot, A: b, B: mkName("each")}}
		g.callArgs(n)
		if n.B == nil && len(n.L) == 0 && g.bool() {
			n.Op = "bare"
		}
		return n
	case 2:
		return g.binary(g.pick([]string{"+", "-", "==", "and", "*", "->", "in"}), b, g.leaf())
	case 3:
		if b.K != KList && b.K != KName && b.K != KMethod {
			if b.K != KVar && b.K != KAccess && b.K != KCall && b.K != KRef {
				b = paren(b)
			}
			return &Node{K: KCall, A: b, L: g.elements(1)}
		}
	}
	return b
}

func checkC07(g *G) {
	var p *Node
	if g.pct(60) {
		g.tasks = g.bool()
		g.budget = 5 + g.n(40)
		p = &Node{K: KProgram, A: g.seqBlock(0, 5)}
		finish(p)
		g.tag("sequences")
	} else {
		p = g.anyProgram()
		g.tag("programs")
	}
	want := p.PN()
	var first string
	plain, counted := g.bool(), false
	for i := 0; i < 3; i++ {
		l := g.newLayout()
		if i == 0 {
			l = Layout{mode: 0}
		}
		src := g.Print(p, l, plain != (i == 1))
		if i > 0 && src == first {
			continue
		}
		e := g.parse(src, false, g.options()...)
		if got := e.ToPN().String(); got != want {
			g.fail("the layout changes the tree\n--- source\n%s\n--- tree\n%s\n--- the same tokens parse to this tree with other layout\n%s\n--- as in\n%s", src, got, want, first)
		}
		if i == 0 {
			first = src
		} else if p.Count() > 8 && !counted {
			counted = true
			g.count(first + "\n=== and ===\n" + src)
		}
	}
}

func init() {
	register(&Prop{id: "C07", quick: 30000, thorough: 500000, check: checkC07,
		rule: "random programs, and random sequences of statements that begin with brackets and parentheses at the top and in nested blocks, each printed with three layouts (minimal, and two random ones with blanks, tabs, CRLF, comments, with and without optional separators); non-trivial: more than 8 nodes and two different texts; distinct by the pair of texts"})
}
