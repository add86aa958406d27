package main

import (
	"fmt"
	"math"
	"strings"

	"github.com/lyraproj/puppet-parser/parser"
)

// C29: what kinds of nodes have in common, the keys of hashes, and copies of nodes

// categories gives the interfaces of a node, and checks that each leads back to the node
func (g *G) categories(x parser.Expression) string {
	var r []string
	is := func(c string, ok bool, self parser.Expression) {
		if ok {
			r = append(r, c)
			if self != x {
				g.fail("a node seen as %s is another node: %s\n--- node\n%s", c, what(self), what(x))
			}
		}
	}
	if d, ok := x.(parser.Definition); ok {
		is("definition", ok, d.ToDefinition())
	}
	_, ok := x.(parser.NamedDefinition)
	is("named", ok, x)
	_, ok = x.(parser.BinaryExpression)
	is("binary", ok, x)
	if d, ok := x.(parser.BooleanExpression); ok {
		is("boolean", ok, d.ToBooleanExpression())
	}
	_, ok = x.(parser.CallExpression)
	is("call", ok, x)
	if d, ok := x.(parser.QueryExpression); ok {
		is("query", ok, d.ToQueryExpression())
	}
	if d, ok := x.(parser.UnaryExpression); ok {
		is("unary", ok, d.ToUnaryExpression())
	}
	_, ok = x.(parser.NameExpression)
	is("name", ok, x)
	if d, ok := x.(parser.LiteralValue); ok {
		is("literal", ok, d.ToLiteralValue())
	}
	_, ok = x.(parser.LiteralNumber)
	is("number", ok, x)
	_, ok = x.(parser.AbstractResource)
	is("resource", ok, x)
	return strings.Join(r, " ")
}

// kindCategories are the categories of each kind of node
func kindCategories(n *Node) string {
	switch n.K {
	case KClass, KFunction, KPlan, KDefine, KApplication:
		return "definition named name"
	case KTypeAlias, KTypeDef, KStep:
		return "definition name"
	case KNode, KSite, KTypeMapping, KCapability:
		return "definition"
	case KBin:
		if n.S == "and" || n.S == "or" {
			return "binary boolean"
		}
		return "binary"
	case KDot:
		return "binary"
	case KCall, KMethod:
		return "call"
	case KQuery:
		return "query"
	case KNot, KNegate, KUnfold, KParen, KText, KRender, KVar:
		return "unary"
	case KAttr, KParam:
		return "name"
	case KName, KRef, KReserved:
		return "name literal"
	case KBool, KDefault, KUndef, KStr, KRegexp, KRenderS:
		return "literal"
	case KInt, KFloat:
		return "literal number"
	case KResource, KDefaults, KOverride:
		return "resource"
	}
	return ""
}

func checkC29(g *G) {
	p := g.anyInput()
	opts := g.options()
	var src string
	if g.epp {
		src = g.printEpp(p, g.newLayout())
		opts = append(opts, parser.EppMode)
	} else {
		src = g.Print(p, g.newLayout(), false)
	}
	e := g.parse(src, false, opts...)
	before := e.ToPN().String()
	nodes, hashes, copies := 0, 0, 0
	fail := func(x parser.Expression, f string, a ...any) {
		g.fail("%s\n--- node\n%s\n--- source\n%s", fmt.Sprintf(f, a...), what(x), src)
	}
	root := fromAST(e)
	root.Walk(func(n *Node, _ []*Node) {
		x := n.X.(parser.Expression)
		nodes++
		if w, got := kindCategories(n), g.categories(x); w != got {
			fail(x, "the node is %q, not %q", got, w)
		}
		if x.IsNop() != (n.K == KNop) {
			fail(x, "the node says that it is empty: %v", x.IsNop())
		}
		if x.Label() == "" || x.Locator() != e.Locator() || x.File() != "f.pp" {
			fail(x, "the node has label %q and is in file %q, its locator is that of the tree: %v", x.Label(), x.File(), x.Locator() == e.Locator())
		}
		if n.Off < 0 || n.End < n.Off || n.End > len(src) || x.String() != src[n.Off:n.End] {
			fail(x, "the node from %d to %d has text %q", n.Off, n.End, x.String())
		}
		name := func(want string) {
			if s := x.(parser.NameExpression).Name(); s != want {
				fail(x, "the node is named %q, not %q", s, want)
			}
		}
		value := func(want any) {
			if v := x.(parser.LiteralValue).Value(); v != want {
				fail(x, "the node has value %#v, not %#v", v, want)
			}
		}
		same := func(what string, got parser.Expression, want *Node) {
			if isNil(got) != (want == nil) || want != nil && got != want.X.(parser.Expression) {
				fail(x, "the %s of the node is %s", what, got)
			}
		}
		switch x := x.(type) {
		case *parser.LiteralHash:
			hashes++
			g.checkKeys(x, n, fail)
		case *parser.QualifiedReference:
			name(n.S)
			value(n.S)
			g.checkWithName(x, fail)
			copies++
		case *parser.CallNamedFunctionExpression:
			g.checkWithFunctor(x, root, fail)
			copies++
		case parser.LiteralNumber:
			if n.K == KInt && x.Float() != float64(n.I) || n.K == KFloat && math.Abs(n.F) < 1<<62 && x.Int() != int64(n.F) {
				fail(x, "the number is %d and %v", x.Int(), x.Float())
			}
			if n.K == KInt {
				value(n.I)
			} else {
				value(n.F)
			}
		case *parser.QualifiedName, *parser.ReservedWord:
			name(n.S)
			value(n.S)
		case *parser.LiteralString, *parser.RegexpExpression, *parser.RenderStringExpression:
			value(n.S)
		case *parser.LiteralBoolean:
			value(n.S == "true")
		case *parser.LiteralUndef:
			value(nil)
		case *parser.VariableExpression:
			same("operand", x.Expr(), n.M[0])
		case parser.UnaryExpression:
			same("operand", x.Expr(), n.A)
		case parser.QueryExpression:
			same("operand", x.Expr(), n.A)
		case parser.BinaryExpression:
			same("left operand", x.Lhs(), n.A)
			same("right operand", x.Rhs(), n.B)
		case parser.NameExpression:
			name(n.S)
		}
	})
	if after := e.ToPN().String(); after != before {
		g.fail("asking the nodes has changed the tree\n--- source\n%s\n--- before\n%s\n--- after\n%s", src, before, after)
	}
	if nodes > 5 {
		g.count(src)
	}
	if hashes > 0 {
		g.tag("hash")
	}
	if copies > 0 {
		g.tag("copy")
	}
}

// checkGet looks for keys in a hash
func (g *G) checkKeys(h *parser.LiteralHash, n *Node, fail func(parser.Expression, string, ...any)) {
	keys := []string{"", "a", "title", "1", "true", "default", "undef"}
	for i, c := range n.L {
		if i < 20 || i > len(n.L)-3 {
			k := c.A.S
			keys = append(keys, k, strings.ToUpper(k), k+" ")
		}
	}
	for _, k := range keys {
		var want *Node
		for _, c := range n.L {
			if (c.A.K == KStr || c.A.K == KName || c.A.K == KRef) && c.A.S == k {
				want = c.B
				break
			}
		}
		v := h.Get(k)
		if isNil(v) != (want == nil) || want != nil && v != want.X.(parser.Expression) {
			fail(h, "the hash has for key %q: %s", k, what(v))
		}
	}
}

func (g *G) checkWithName(x *parser.QualifiedReference, fail func(parser.Expression, string, ...any)) {
	old, low := x.Name(), x.DowncasedName()
	name := g.pick([]string{"Foo", "Foo::Bar", "X9::Y_z", "Éa", "", "ABC"})
	c := x.WithName(name)
	if c == x || c.Name() != name || c.DowncasedName() != strings.ToLower(name) || c.Value() != any(name) || c.ToPN().String() != mkRef(name).PN() {
		fail(x, "the copy with name %q is %s with name %q, %q", name, what(c), c.Name(), c.DowncasedName())
	}
	if c.ByteOffset() != x.ByteOffset() || c.ByteLength() != x.ByteLength() || c.Locator() != x.Locator() || c.Label() != x.Label() {
		fail(x, "the copy with name %q is elsewhere", name)
	}
	if x.Name() != old || x.DowncasedName() != low {
		fail(x, "the copy with name %q has changed the original, which was %q", name, old)
	}
}

func (g *G) checkWithFunctor(x *parser.CallNamedFunctionExpression, root *Node, fail func(parser.Expression, string, ...any)) {
	old := x.Functor()
	f := root.X.(parser.Expression)
	if g.bool() {
		f = parser.DefaultFactory().QualifiedName("other", x.Locator(), 0, 0)
	}
	c := x.WithFunctor(f)
	if c == x || c.Functor() != f || c.Lambda() != x.Lambda() || c.RvalRequired() != x.RvalRequired() || len(c.Arguments()) != len(x.Arguments()) {
		fail(x, "the copy with functor %T differs", f)
	}
	for i, a := range c.Arguments() {
		if a != x.Arguments()[i] {
			fail(x, "argument %d of the copy with functor %T differs", i, f)
		}
	}
	if c.ByteOffset() != x.ByteOffset() || c.ByteLength() != x.ByteLength() || c.Locator() != x.Locator() || c.Label() != x.Label() {
		fail(x, "the copy with functor %T is elsewhere", f)
	}
	first := true
	c.Contents(nil, func(_ []parser.Expression, e parser.Expression) {
		if first && e != f {
			fail(x, "the first part of the copy with functor %T is %s", f, what(e))
		}
		first = false
	})
	if x.Functor() != old {
		fail(x, "the copy with functor %T has changed the original", f)
	}
}

func init() {
	register(&Prop{id: "C29", quick: 30000, thorough: 1000000, check: checkC29,
		rule: "random programs and templates, every node asked through all its interfaces, hashes for present and absent keys, copies of type names and calls; non-trivial: more than five nodes; distinct by source text"})
}
