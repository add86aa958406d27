package main

// C24: calls

var nearlyStmtCalls = []string{"notices", "includes", "inform", "::include", "foo::notice", "tagged", "requires", "nexts", "returned", "faile"}

// parenForm returns a copy of a tree in which no call is a statement call without parentheses
func parenForm(n *Node) *Node {
	if n == nil {
		return nil
	}
	c := *n
	c.A, c.B, c.C = parenForm(n.A), parenForm(n.B), parenForm(n.C)
	all := func(ns []*Node) (r []*Node) {
		for _, x := range ns {
			r = append(r, parenForm(x))
		}
		return
	}
	c.L, c.M = all(n.L), all(n.M)
	if c.K == KCall && (c.Op == "stmt" || c.Op == "hash") {
		for _, a := range c.L {
			if argSafe(a) != a {
				return &c // begins with a word that is a name there
			}
		}
		c.Op = ""
	}
	return &c
}

// callBlock generates statements, many of them calls
func (g *G) callBlock(depth, max int) *Node {
	b := &Node{K: KBlock}
	for i := 1 + g.n(max); i > 0; i-- {
		b.L = append(b.L, g.callStmt(depth))
	}
	return b
}

func (g *G) callStmt(depth int) *Node {
	g.budget--
	k := 19
	if depth > 3 || g.budget < 0 {
		k = 9
	}
	lambda := func() *Node { return &Node{K: KLambda, L: g.params(2), B: g.callBlock(depth+1, 2)} }
	switch g.n(k) {
	case 0, 1, 2:
		return g.stmtCall()
	case 3:
		return mkName(g.pick(nearlyStmtCalls))
	case 4:
		return &Node{K: KCall, A: mkName(g.pick(stmtCalls)), L: g.elements(3)}
	case 5:
		n := &Node{K: KCall, A: mkName(g.pick(append(nearlyStmtCalls, callNames...))), L: g.elements(3)}
		if n.A.S != "type" && g.bool() {
			n.B = lambda()
		}
		return n
	case 6:
		return g.leaf()
	case 7:
		return g.call()
	case 8:
		return &Node{K: KBin, S: "=", A: mkVar("v"), B: at(lvAssign, g.call())}
	case 9:
		n := &Node{K: KMethod, A: &Node{K: KDot, A: g.base(), B: mkName(g.pick([]string{"each", "notice", "include"}))}, L: g.elements(2)}
		if n.A.A.K == KName {
			n.A.A = g.variable()
		}
		if g.bool() {
			n.B = lambda()
			if g.bool() {
				n.Op, n.L = "lambda", nil
			}
		}
		return n
	case 10:
		n := &Node{K: KIf, A: g.cond(lvOr), B: g.callBlock(depth+1, 3), C: g.callBlock(depth+1, 2)}
		if g.bool() {
			n.K = KUnless
		} else if g.bool() {
			n.C = &Node{K: KIf, Op: "elsif", A: g.cond(lvOr), B: g.callBlock(depth+1, 2), C: &Node{K: KNop}}
		}
		return n
	case 11:
		return &Node{K: KCase, A: g.variable(), L: []*Node{
			{K: KOption, L: []*Node{g.leaf()}, B: g.callBlock(depth+1, 2)},
			{K: KOption, L: []*Node{{K: KDefault, S: "default"}}, B: g.callBlock(depth+1, 2)}}}
	case 12:
		kinds := []Kind{KClass, KDefine, KFunction, KApplication, KPlan}
		if !g.tasks {
			kinds = kinds[:4]
		}
		return &Node{K: kinds[g.n(len(kinds))], S: g.defName(), L: g.params(2), B: g.callBlock(depth+1, 3)}
	case 13:
		return &Node{K: KNode, L: []*Node{g.hostname()}, B: g.callBlock(depth+1, 3)}
	case 14:
		return &Node{K: KSite, B: g.callBlock(depth+1, 3)}
	case 15:
		return paren(&Node{K: KIf, A: g.variable(), B: g.callBlock(depth+1, 2), C: &Node{K: KNop}})
	case 16:
		return &Node{K: KResource, A: mkName("file"), L: []*Node{{K: KBody, A: mkStr("x"), L: []*Node{{K: KAttr, S: "mode", Op: "=>", A: at(lvSel, g.call())}}}}}
	case 17:
		return &Node{K: KTypeDef, S: "Foo", B: g.callBlock(depth+1, 2)}
	default:
		return &Node{K: KCall, A: mkName("with"), L: g.elements(2), B: lambda()}
	}
}

func checkC24(g *G) {
	g.tasks = g.bool()
	g.budget = 8 + g.n(40)
	p := &Node{K: KProgram, A: g.callBlock(0, 6)}
	if g.rarely() {
		g.grow(p)
	}
	finish(p)
	src := g.Print(p, g.newLayout(), false)
	e := g.parse(src, false, g.options()...)
	g.checkTree(p, src, e)
	q := parenForm(p)
	src2 := g.Print(q, g.newLayout(), false)
	e2 := g.parse(src2, false, g.options()...)
	if a, b := e.ToPN().String(), e2.ToPN().String(); a != b {
		g.fail("calls with and without parentheses differ\n--- source\n%s\n--- tree\n%s\n--- with parentheses\n%s\n--- tree\n%s", src, a, src2, b)
	}
	calls := 0
	p.Walk(func(n *Node, _ []*Node) {
		if n.K == KCall || n.K == KMethod {
			calls++
		}
	})
	if calls > 2 {
		g.count(src)
	}
}

func init() {
	register(&Prop{id: "C24", quick: 30000, thorough: 500000, check: checkC24,
		rule: "random programs made mostly of calls in every kind of block, parsed as generated and with all argument lists in parentheses; non-trivial: at least three calls; distinct by source text"})
}
