package main

import (
	"strconv"
	"strings"
)

// Large programs. A grown program has one or two parts that are far longer or far deeper than what the budget of the
// generators gives, which costs no random choices.

// clone copies a node with all parts. What was shared between parts is shared between the copies
func (n *Node) clone() *Node { return n.cloneTo(map[*Node]*Node{}) }

func (n *Node) cloneTo(seen map[*Node]*Node) *Node {
	if n == nil || seen[n] != nil {
		return seen[n]
	}
	c := *n
	seen[n] = &c
	list := func(ns []*Node) (r []*Node) {
		for _, e := range ns {
			r = append(r, e.cloneTo(seen))
		}
		return
	}
	c.A, c.B, c.C, c.L, c.M = n.A.cloneTo(seen), n.B.cloneTo(seen), n.C.cloneTo(seen), list(n.L), list(n.M)
	return &c
}

func (n *Node) hasStep() (r bool) {
	n.Walk(func(c *Node, _ []*Node) { r = r || c.K == KStep })
	return
}

func joined(n *Node) bool { return n.Syn && n.K == KHash }

// many is a number that is large, and now and then just beyond what fits in one or two bytes
func (g *G) many(max int) int {
	k := g.pick([]string{"9", "12", "17", "33", "40", "65", "70", "101", "129", "150", "257", "300", "520"})
	i, _ := strconv.Atoi(k)
	i += g.n(4)
	if i > max {
		return 1 + g.n(max)
	}
	return i
}

// weight is about the size of the text of a node
func (n *Node) weight() (w int) {
	n.Walk(func(c *Node, _ []*Node) { w += 1 + len(c.S)/8 })
	return
}

// repeat makes a list of parts longer by copies of its parts
func (g *G) repeat(n *Node) bool {
	cost := 0
	for _, c := range n.L {
		cost += c.weight()
	}
	if cost == 0 || cost > 300 {
		return false
	}
	k := g.many(1 + 2500/cost)
	var more []*Node
	switch n.K {
	case KBlock, KList, KCall, KMethod, KHash, KCase, KOption, KSelector, KResource, KBody, KDefaults, KOverride, KCollect, KNode, KAccess:
		for i := 0; i < k; i++ {
			for _, c := range n.L {
				if !joined(c) {
					more = append(more, c.clone())
				}
			}
			if len(more) > 1200 {
				break
			}
		}
		if len(more) == 0 {
			return false
		}
		n.L = append(n.L, more...)
	case KLambda, KClass, KDefine, KFunction, KPlan, KApplication:
		for i := 0; i < k; i++ {
			p := n.L[0].clone()
			p.Flag = false
			p.S = p.S + "_" + strconv.Itoa(i)
			more = append(more, p)
		}
		n.L = append(more, n.L...)
	default:
		return false
	}
	return true
}

func (g *G) wrap(e *Node) *Node {
	k := g.n(4)
	if e.K == KName && isOneOf(e.S, keywordNames...) || e.K == KCall && e.A.K == KName && isOneOf(e.A.S, keywordNames...) {
		k = 0
	}
	switch k {
	case 0:
		return &Node{K: KList, L: []*Node{e}}
	case 1:
		return paren(e)
	case 2:
		return &Node{K: KHash, L: []*Node{{K: KEntry, A: mkStr("k"), B: e}}}
	default:
		return &Node{K: KCall, A: mkName("foo"), L: []*Node{e}}
	}
}

func (g *G) wrapBlock(n *Node) {
	b := mkBlock(n.L...)
	switch g.n(4) {
	case 0:
		n.L = []*Node{{K: KIf, A: mkVar("x"), B: b, C: &Node{K: KNop}}}
	case 1:
		n.L = []*Node{{K: KUnless, A: mkVar("x"), B: mkBlock(), C: b}}
	case 2:
		n.L = []*Node{{K: KCase, A: mkVar("x"), L: []*Node{{K: KOption, L: []*Node{mkInt(1)}, B: b}}}}
	default:
		n.L = []*Node{{K: KCall, A: mkName("foo"), L: []*Node{mkInt(1)}, B: &Node{K: KLambda, B: b}}}
	}
}

// deepen puts a part of a node into many others
func (g *G) deepen(n *Node) bool {
	k := g.many(60)
	slot := func(p **Node) bool {
		if *p == nil || joined(*p) || (*p).K == KUnfold || (*p).Syn {
			return false
		}
		*p = argSafe(*p)
		for i := 0; i < k; i++ {
			*p = g.wrap(*p)
		}
		return true
	}
	switch n.K {
	case KList, KCall, KMethod:
		return len(n.L) > 0 && slot(&n.L[g.u(len(n.L))])
	case KEntry:
		return slot(&n.B)
	case KParen:
		return slot(&n.A)
	case KBlock:
		if len(n.L) == 0 {
			return false
		}
		for i := 0; i < k; i++ {
			g.wrapBlock(n)
		}
		return true
	}
	return false
}

// grow makes one or two parts of a program large
func (g *G) grow(p *Node) {
	if g.epp {
		return
	}
	for i := 1 + g.n(2); i > 0; i-- {
		var all []*Node
		var rec func(n *Node)
		rec = func(n *Node) {
			switch {
			case n.K == KStep:
				return
			case n.K == KTypeAlias && n.A.K == KAccess: // the text may lack the type
				return
			case n.K == KText || n.K == KConcat: // what is in a string
				return
			case n.K == KList && n.Op == "returns", n.K == KSelector && n.Flag, n.K == KAccess && n.A.K == KRef && n.A.S == "Resource":
			case (n.K == KCall || n.K == KMethod) && n.Op != "":
			default:
				all = append(all, n)
			}
			for _, c := range n.Parts() {
				rec(c)
			}
		}
		rec(p)
		if len(all) == 0 || p.weight() > 4000 {
			return
		}
		for try := 0; try < 8; try++ {
			n := all[g.u(len(all))]
			if n.hasStep() {
				continue
			}
			if g.bool() {
				if g.repeat(n) {
					g.tag("long")
					break
				}
			} else if g.deepen(n) {
				g.tag("deep")
				break
			}
		}
	}
}

// rarely is true in one of a hundred cases, for what is large
func (g *G) rarely() bool { return g.u(100) == 99 }

// ident is a random identifier
func (g *G) ident() string {
	for {
		var b strings.Builder
		switch {
		case g.pct(45): // begins like a keyword
			b.WriteString(g.pick(identWords))
			b.WriteString(g.pick([]string{"s", "_", "_x", "1", "9a", "X", "if", "::a", "::in", "::class", ""}))
		case g.pct(10):
			b.WriteString(strings.Repeat(g.pick([]string{"ab", "a_1", "zZ", "abc::d"}), 8+g.n(60)))
		default:
			b.WriteByte("abcxyz"[g.u(6)])
			for i := g.n(6); i > 0; i-- {
				b.WriteByte("abcdefghijklmnopqrstuvwxyzABXZ0189__"[g.u(36)])
			}
			if g.pct(25) {
				b.WriteString("::" + g.pick([]string{"a", "b2", "x_", "type", "nil", "z9::y"}))
			}
		}
		if s := b.String(); !isOneOf(s, identWords...) && !isOneOf(s, stmtCalls...) && !isOneOf(s, styles...) {
			return s
		}
	}
}

// typeIdent is a random name of a type
func (g *G) typeIdent() string {
	parts := strings.Split(g.ident(), "::")
	for i, p := range parts {
		parts[i] = strings.ToUpper(p[:1]) + p[1:]
	}
	return strings.Join(parts, "::")
}

var identWords = append([]string{"plan", "true", "false", "not", "step", "private", "inherits"}, allKeywords...)
