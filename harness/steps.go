package main

// Workflow steps

var stepNames = []string{"a", "foo", "create_it", "b2", "x::y", "type", "each", "class", "x", "action", "resource"}
var stepProps = []string{"type", "external_id", "when", "source", "site", "x", "a::b", "function", "else", "action", "workflow"}

func (g *G) stepName() string {
	n := g.pick(stepNames)
	if n == "each" && g.pct(50) {
		n = "e"
	}
	return n
}

// aliased return parameters
func (g *G) returnsList() *Node {
	n := &Node{K: KList, Op: "returns"}
	alias := func() *Node {
		s := g.pick([]string{"x", "y_1", "a::b", "type", "id", "::top", "::a::b"})
		return &Node{K: KStr, S: s, Src: s, Op: "alias"}
	}
	for i := g.n(3); i > 0; i-- {
		p := &Node{K: KParam, S: g.pick([]string{"x", "y", "a::b", "out_1"})}
		if g.bool() {
			p.A = g.typeExpr()
		}
		switch g.n(4) {
		case 2:
			p.B = alias()
		case 3:
			l := &Node{K: KList, Op: "returns"}
			for j := g.n(3); j > 0; j-- {
				l.L = append(l.L, alias())
			}
			p.B = l
		}
		n.L = append(n.L, p)
	}
	return n
}

func (g *G) step(depth int) *Node {
	g.tag("step")
	n := &Node{K: KStep, Op: g.pick(styles), S: g.stepName()}
	var props []*Node
	for i := g.size(4); i > 0; i-- {
		e := &Node{K: KEntry}
		switch g.n(6) {
		case 0:
			e.A = mkName("parameters")
			e.B = &Node{K: KList, Op: "params", L: g.params(3)}
			e.Op = "params"
		case 1:
			e.A = mkName("returns")
			e.B = g.returnsList()
			e.Op = "returns"
		default:
			e.A = mkName(g.pick(stepProps))
			if g.pct(10) {
				e.B = g.wordName()
			} else {
				e.B = g.arg()
			}
		}
		props = append(props, e)
	}
	if g.pct(30) {
		g.tag("iteration")
		name := n.S
		if g.bool() {
			name = g.pick([]string{"res", "a", "it_1", "name", n.S})
			if name == n.S {
				n.F = 1 // written out
			}
		}
		fn := g.pick([]string{"times", "range", "each"})
		k := func(s string) *Node { return &Node{K: KName, S: s, Syn: true} }
		en := func(a, b *Node) *Node { return &Node{K: KEntry, A: a, B: b, Syn: true} }
		it := &Node{K: KHash, Syn: true, L: []*Node{
			en(k("name"), k(name)),
			en(k("function"), &Node{K: KName, S: fn}),
			en(k("params"), &Node{K: KList, Op: "params", L: g.params(2)}),
			en(k("vars"), &Node{K: KList, Op: "vars", L: g.params(2)}),
		}}
		e := en(k("iteration"), it)
		e.Op = "iter"
		props = append(props, e)
	}
	if len(props) > 0 {
		n.A = &Node{K: KHash, L: props, Op: "stepprops"}
	}
	switch n.Op {
	case "workflow":
		b := &Node{K: KBlock, Op: "activities"}
		if depth < 3 {
			for i := g.size(3); i > 0; i-- {
				if g.pct(15) && !g.noDefs {
					b.L = append(b.L, &Node{K: KFunction, S: g.defName(), L: g.params(2), B: g.block(1)})
				} else {
					b.L = append(b.L, g.step(depth+1))
				}
			}
		}
		if len(b.L) > 0 {
			n.B = b
		} else {
			n.Flag = g.pct(30)
		}
	case "resource":
		for i := g.size(4); i > 0; i-- {
			v := g.stateValue(0)
			n.M = append(n.M, &Node{K: KEntry, A: mkName(g.attrName()), B: v})
		}
		if len(n.M) > 0 {
			h := &Node{K: KHash, Syn: true}
			for _, e := range n.M {
				h.L = append(h.L, deferred(e))
			}
			n.B = h
		} else {
			n.Flag = g.pct(30)
		}
	default:
		n.B = g.block(2)
	}
	if len(props) > 0 && props[len(props)-1].Op == "iter" {
		n.Flag = false // the end of the variables is recognised by what follows
	}
	return n
}

// stateValue is a value of an attribute of a resource step
func (g *G) stateValue(d int) *Node {
	k := 10
	if d > 2 {
		k = 4
	}
	switch g.n(k) {
	case 0, 1:
		return g.variable()
	case 2:
		return g.str()
	case 3:
		return g.leaf()
	case 4:
		n := &Node{K: KList}
		for i := g.n(3); i > 0; i-- {
			n.L = append(n.L, g.stateValue(d+1))
		}
		return n
	case 5:
		n := &Node{K: KHash}
		for i := g.n(3); i > 0; i-- {
			n.L = append(n.L, &Node{K: KEntry, A: g.stateValue(d + 1), B: g.stateValue(d + 1)})
		}
		return n
	case 6, 7:
		n := &Node{K: KCall}
		if g.pct(30) {
			n.A = g.ref()
		} else {
			n.A = mkName(g.pick(callNames))
		}
		for i := g.n(5); i > 0; i-- {
			n.L = append(n.L, g.stateValue(d+1))
		}
		return n
	default:
		e := g.expr(lvSel)
		if e.K == KCall && e.B != nil {
			return paren(e) // a deferred call takes no lambda
		}
		if e.K == KList || e.K == KHash || e.K == KCall {
			return paren(e)
		}
		return argSafe(e)
	}
}

// deferred returns what a part of the state of a resource step becomes. What it leaves as it is, is returned itself.
func deferred(n *Node) *Node {
	all := func(ns []*Node) (r []*Node) {
		for _, c := range ns {
			r = append(r, deferred(c))
		}
		return
	}
	mk := func(args ...*Node) *Node {
		return &Node{K: KMethod, Syn: true,
			A: &Node{K: KDot, Syn: true, A: &Node{K: KRef, S: "Deferred", Syn: true}, B: &Node{K: KName, S: "new", Syn: true}}, L: args}
	}
	str := func(s string) *Node { return &Node{K: KStr, S: s, Syn: true} }
	switch n.K {
	case KVar:
		if n.Flag {
			return mk(str("$" + mkIdx(n.I).M[0].Src))
		}
		return mk(str("$" + n.S))
	case KList, KHash:
		return &Node{K: n.K, L: all(n.L), Syn: true}
	case KEntry:
		return &Node{K: KEntry, A: deferred(n.A), B: deferred(n.B), Syn: true}
	case KCall:
		switch n.A.K {
		case KName:
			return mk(str(n.A.S), &Node{K: KList, Syn: true, L: all(n.L)})
		case KRef:
			return mk(&Node{K: KName, S: "new", Syn: true}, &Node{K: KList, Syn: true, L: append([]*Node{n.A}, all(n.L)...)})
		}
	}
	return n
}

// a step without a body can only come last, or before a semicolon
func fixSteps(n *Node) {
	n.Walk(func(b *Node, _ []*Node) {
		if b.K != KBlock {
			return
		}
		for i, s := range b.L {
			if s.K == KStep && i < len(b.L)-1 {
				s.Flag = false
			}
		}
	})
}

// C22: workflow steps

func checkC22(g *G) {
	g.workflow = true
	g.tasks = g.bool()
	g.budget = 10 + g.n(50)
	var stmts []*Node
	for i := 1 + g.n(3); i > 0; i-- {
		if g.pct(75) {
			stmts = append(stmts, g.step(0))
		} else {
			stmts = append(stmts, g.stmt(true))
		}
	}
	p := mkProgram(stmts...)
	if g.rarely() {
		g.grow(p)
	}
	finish(p)
	src := g.Print(p, g.newLayout(), false)
	e := g.parse(src, false, g.options()...)
	g.checkTree(p, src, e)
	steps := 0
	p.Walk(func(n *Node, path []*Node) {
		if n.K == KStep {
			steps++
			g.tag(n.Op)
			if n.Op == "resource" {
				for _, e := range n.M {
					if deferred(e.B) != e.B {
						g.tag("deferred")
					}
				}
			}
		}
	})
	if steps > 1 {
		g.count(src)
	}
}

func init() {
	register(&Prop{id: "C22", quick: 40000, thorough: 700000, check: checkC22,
		rule: "random programs made mostly of workflow steps of all styles with properties, parameters, aliased returns, iterations and nested steps; states of resource steps with variables, calls, lists and hashes in each other; non-trivial: at least two steps; distinct by source text"})
}
