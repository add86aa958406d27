package main

import (
	"fmt"
	"github.com/lyraproj/issue/issue"
	"sort"
	"strings"
	"unicode/utf8"

	"github.com/lyraproj/puppet-parser/parser"
)

// C13, C08, C20: properties of the nodes of a tree

// pair walks an expected tree and a tree that was read from the parser at the same time
func (g *G) pair(src string, want, got *Node, f func(w, a, wParent, parent *Node)) {
	var rec func(w, a, wParent, parent *Node)
	rec = func(w, a, wParent, parent *Node) {
		if w.K != a.K {
			g.fail("the tree is not the one the text denotes\n--- source\n%s\n--- expected\n%s\n--- parsed (%T)\n%s", src, w.PN(), a.X, a.PN())
		}
		f(w, a, wParent, parent)
		wp, ap := w.Parts(), a.Parts()
		if len(wp) != len(ap) {
			g.fail("a node has not the parts it should have\n--- source\n%s\n--- expected\n%s\n--- parsed (%T)\n%s", src, w.PN(), a.X, a.PN())
		}
		for i := range wp {
			rec(wp[i], ap[i], w, a)
		}
	}
	rec(want, got, nil, nil)
}

type visit struct {
	e    parser.Expression
	path []parser.Expression
}

func (v visit) String() string {
	var b strings.Builder
	for _, p := range v.path {
		fmt.Fprintf(&b, "%T/", p)
	}
	fmt.Fprintf(&b, "%T %s", v.e, v.e.ToPN())
	return b.String()
}

func visitAll(e parser.Expression, path []parser.Expression) (r []visit) {
	e.AllContents(path, func(p []parser.Expression, c parser.Expression) {
		r = append(r, visit{c, append([]parser.Expression(nil), p...)})
	})
	return
}

func visitDirect(e parser.Expression, path []parser.Expression) (r []visit) {
	e.Contents(path, func(p []parser.Expression, c parser.Expression) {
		r = append(r, visit{c, append([]parser.Expression(nil), p...)})
	})
	return
}

// checkWalk compares the two kinds of walks over a parsed tree with its parts as they are read through the accessors
func (g *G) checkWalk(src string, e parser.Expression, start []parser.Expression) (visited int) {
	before := e.ToPN().String()
	all := visitAll(e, start)
	tree := fromAST(e)
	fail := func(what string, w, a any) {
		g.fail("%s\n--- source\n%s\n--- expected\n%v\n--- visited\n%v", what, src, w, a)
	}
	at := 0
	var rec func(n *Node, path []parser.Expression)
	rec = func(n *Node, path []parser.Expression) {
		self := n.X.(parser.Expression)
		direct := visitDirect(self, path)
		here := append(append([]parser.Expression(nil), path...), self)
		parts := map[parser.Expression]*Node{}
		for _, p := range n.Parts() {
			if _, ok := parts[p.X.(parser.Expression)]; ok {
				fail("the same node is used for two parts", p.PN(), n.PN())
			}
			parts[p.X.(parser.Expression)] = p
		}
		if len(direct) != len(parts) {
			fail(fmt.Sprintf("the direct contents of a %T are not its parts: %d instead of %d", self, len(direct), len(parts)), n.PN(), direct)
		}
		for _, d := range direct {
			p, ok := parts[d.e]
			if !ok {
				fail(fmt.Sprintf("%T is not a part of the %T it is visited in, or visited twice", d.e, self), n.PN(), d)
			}
			delete(parts, d.e)
			if !samePath(here, d.path) {
				fail("wrong path to a direct part", visit{d.e, here}, d)
			}
			if at >= len(all) {
				fail("a part is not reached by the full walk", d, "end")
			}
			if all[at].e != d.e || !samePath(all[at].path, here) {
				fail("the full walk visits something else than the parts of the parts", d, all[at])
			}
			if isNil(d.e) {
				fail("nil is visited", "a node", "nil")
			}
			at++
			rec(p, here)
		}
	}
	rec(tree, start)
	if at != len(all) {
		fail("the full walk visits more than the parts", at, all[at])
	}
	if after := e.ToPN().String(); after != before {
		fail("the walk changed the tree", before, after)
	}
	if s, w := tree.PN(), before; s != w {
		fail("accessors and PN of a tree do not agree", w, s)
	}
	return len(all)
}

func samePath(a, b []parser.Expression) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func checkC13(g *G) {
	p := g.anyInput()
	src := g.Print(p, g.newLayout(), false)
	e := g.parse(src, false, g.options()...)
	var start []parser.Expression
	switch g.n(4) {
	case 1:
		start = make([]parser.Expression, 1, 1+g.n(20))
		start[0] = e
	case 2:
		start = make([]parser.Expression, 0, 1+g.n(20))
	}
	n := g.checkWalk(src, e, start)
	if w := p.Count() - 1; w != n {
		g.fail("%d nodes are visited, the program has %d\n--- source\n%s\n--- tree\n%s", n, w, src, p.PN())
	}
	if n > 10 {
		g.count(src)
	}
}

// ---------------------------------------------------------------------------------------------
// Positions

// lineCol is our own idea of lines and columns: characters, from 1
func lineCol(src string, off int) (line, col int) {
	line = 1 + strings.Count(src[:off], "\n")
	start := strings.LastIndexByte(src[:off], '\n') + 1
	return line, 1 + utf8.RuneCountInString(src[start:off])
}

func hasHeredoc(n *Node) (r bool) {
	n.Walk(func(c *Node, _ []*Node) { r = r || c.K == KHeredoc })
	return
}

// exact is true for nodes that are one token, whose text is exactly what was written
func exactToken(n *Node) bool {
	switch n.K {
	case KInt, KFloat, KStr, KRegexp, KBool, KUndef, KDefault, KName, KRef, KReserved, KVar:
		return !n.Syn
	case KConcat:
		return !n.Syn
	}
	return false
}

func (g *G) checkPositions(src string, p *Node, e parser.Expression) {
	fail := func(a *Node, format string, args ...any) {
		g.fail("%s\n--- node %T at %d, length %d\n%s\n--- source\n%s", fmt.Sprintf(format, args...), a.X, a.Off, a.End-a.Off, a.PN(), src)
	}
	g.pair(src, p, fromAST(e), func(w, a, wParent, parent *Node) {
		x := a.X.(parser.Expression)
		if a.Off < 0 || a.End < a.Off || a.End > len(src) {
			fail(a, "the span is not inside the source, which has %d bytes", len(src))
		}
		if l, c := lineCol(src, a.Off); x.Line() != l || x.Pos() != c {
			fail(a, "line and column are %d:%d, those of the offset are %d:%d", x.Line(), x.Pos(), l, c)
		}
		if at, ok := x.(interface{ Location() issue.Location }); ok {
			if l := at.Location(); l.File() != x.File() || l.Line() != x.Line() || l.Pos() != x.Pos() {
				fail(a, "the location is %s:%d:%d, the position %d:%d", l.File(), l.Line(), l.Pos(), x.Line(), x.Pos())
			}
		}
		if x.File() != "f.pp" {
			fail(a, "the file is %q", x.File())
		}
		if x.String() != src[a.Off:a.End] {
			fail(a, "the text is %q, the span holds %q", x.String(), src[a.Off:a.End])
		}
		if parent != nil && parent.Off > a.Off && !w.Syn && !wParent.Syn && w.Off >= 0 {
			fail(a, "the node starts before its parent, a %T that starts at %d", parent.X, parent.Off)
		}
		if parent != nil && a.End > parent.End && !hasHeredoc(w) && !w.Syn && !wParent.Syn && w.Off >= 0 {
			fail(a, "the node ends after its parent, a %T with span %d-%d", parent.X, parent.Off, parent.End)
		}
		if _, ok := x.(*parser.ConcatenatedString); ok {
			// its parts follow each other from one end of it to the other
			at := a.Off
			for i, c := range a.Parts() {
				if c.Off < at || c.Off > at && (i > 0 || src[at:c.Off] != `"` && strings.TrimSpace(src[at:c.Off]) != "") {
					fail(c, "part %d of a string starts at %d, what precedes it ends at %d", i+1, c.Off, at)
				}
				at = c.End
			}
			if at > a.End || at < a.End && src[at:a.End] != `"` {
				fail(a, "the last part of the string ends at %d, the string at %d", at, a.End)
			}
		}
		if w.Off < 0 || w.Syn || w.K == KProgram {
			return
		}
		if w.Off != a.Off {
			fail(a, "the node starts at %d, not at its first token at %d: %q", a.Off, w.Off, head(src[w.Off:], 30))
		}
		if a.End < w.End && !hasHeredoc(w) {
			fail(a, "ends at %d, before its last token which ends at %d", a.End, w.End)
		}
		if w.Next > 0 && a.End > w.Next && !hasHeredoc(w) {
			fail(a, "ends at %d, after the token that follows it, which ends at %d", a.End, w.Next)
		}
		if exactToken(w) && a.End != w.End {
			fail(a, "the text of the token is %q", src[w.Off:w.End])
		}
	})
}

func checkC08(g *G) {
	p := g.anyInput()
	src := g.Print(p, g.newLayout(), false)
	e := g.parse(src, false, g.options()...)
	g.checkPositions(src, p, e)
	if p.Count() > 10 {
		g.count(src)
	}
}

// ---------------------------------------------------------------------------------------------
// Definitions

func checkC20(g *G) {
	g.manyDefs = g.pct(80)
	p := g.anyInput()
	src := g.Print(p, g.newLayout(), false)
	e := g.parse(src, false, g.options()...)
	g.checkDefinitions(src, p, e)
}

func (g *G) checkDefinitions(src string, p *Node, e parser.Expression) {
	type def struct {
		w     *Node
		depth int
		x     any
	}
	var want []def
	g.pair(src, p, fromAST(e), func(w, a, wParent, parent *Node) {})
	var rec func(w, a *Node, depth int, inWorkflow bool)
	rec = func(w, a *Node, depth int, inWorkflow bool) {
		if isDefKind(w.K) && !(w.K == KStep && inWorkflow) {
			want = append(want, def{w, depth, a.X})
		}
		in := w.K == KBlock && w.Op == "activities"
		wp, ap := w.Parts(), a.Parts()
		for i := range wp {
			rec(wp[i], ap[i], depth+1, in)
		}
	}
	rec(p, fromAST(e), 0, false)
	sort.SliceStable(want, func(i, j int) bool {
		a, b := want[i], want[j]
		if a.w.End != b.w.End {
			return a.w.End < b.w.End
		}
		return a.depth > b.depth
	})
	got := e.(*parser.Program).Definitions()
	describe := func() string {
		var b strings.Builder
		b.WriteString("--- expected\n")
		for _, w := range want {
			b.WriteString(head(w.w.PN(), 200) + "\n")
		}
		b.WriteString("--- registered\n")
		for _, d := range got {
			b.WriteString(head(d.ToPN().String(), 200) + "\n")
		}
		return b.String() + "--- source\n" + src
	}
	if len(got) != len(want) {
		g.fail("%d definitions are registered, the program has %d\n%s", len(got), len(want), describe())
	}
	for i, d := range got {
		if any(d) != want[i].x {
			g.fail("definition %d is not the node in the tree that should be registered there\n%s", i+1, describe())
		}
		if w, got := want[i].w.PN(), d.ToPN().String(); w != got {
			g.fail("definition %d is\n%s\n--- it should be\n%s\n--- source\n%s", i+1, got, w, src)
		}
	}
	if len(want) > 2 {
		g.count(src)
	}
	for _, w := range want {
		g.tag(fmt.Sprintf("%s %d", w.x.(parser.Expression).Label(), min(w.depth, 3)))
	}
}

func init() {
	register(&Prop{id: "C13", quick: 40000, thorough: 700000, check: checkC13,
		rule: "random programs as for C02; non-trivial: more than 10 nodes; distinct by source text"})
	register(&Prop{id: "C08", quick: 40000, thorough: 700000, check: checkC08,
		rule: "random programs as for C02 with a random layout (comments, multi-byte text, CRLF, heredocs); non-trivial: more than 10 nodes; distinct by source text"})
	register(&Prop{id: "C20", quick: 40000, thorough: 700000, check: checkC20,
		rule: "random programs with nested definitions; non-trivial: at least three definitions; distinct by source text"})
}
