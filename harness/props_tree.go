package main

import (
	"github.com/lyraproj/issue/issue"
	"github.com/lyraproj/puppet-parser/parser"
)

func (g *G) options() (r []parser.Option) {
	if g.tasks {
		r = append(r, parser.TasksEnabled)
	}
	if g.workflow {
		r = append(r, parser.WorkflowEnabled)
	}
	if g.epp {
		r = append(r, parser.EppMode)
	}
	return
}

// anyInput generates a program or a template
func (g *G) anyInput() *Node {
	if g.pct(12) {
		g.tag("template")
		return g.template()
	}
	return g.anyProgram()
}

// anyProgram generates a program of varying size
func (g *G) anyProgram() *Node {
	g.epp = false
	g.tasks = g.bool()
	g.workflow = g.pct(25)
	return g.program(5+g.n(60), 5)
}

// parse parses a generated program, which must be accepted
func (g *G) parse(src string, single bool, opts ...parser.Option) parser.Expression {
	g.note("%q", src)
	e, err := parser.CreateParser(opts...).Parse("f.pp", src, single)
	if err != nil {
		g.fail("a well-formed program is rejected\n--- source\n%s\n--- error\n%v", src, err)
	}
	return e
}

func (g *G) checkTree(want *Node, src string, e parser.Expression) {
	if w, got := want.PN(), e.ToPN().String(); w != got {
		g.fail("the tree is not the one the text denotes\n--- source\n%s\n--- expected\n%s\n--- parsed\n%s", src, w, got)
	}
	a := fromAST(e)
	if w, got := want.PN(), a.PN(); w != got {
		g.fail("the tree is not the one the text denotes\n--- source\n%s\n--- expected\n%s\n--- read through the accessors\n%s", src, w, got)
	}
	g.pair(src, want, a, func(w, a, _, _ *Node) {
		if w.K == KReserved && a.Flag || w.K == KVar && w.Flag != a.Flag {
			g.fail("wrong kind of word or variable\n--- source\n%s\n--- expected\n%s\n--- parsed\n%s", src, w.PN(), a.PN())
		}
	})
}

func init() {
	register(&Prop{id: "C02", quick: 80000, thorough: 1500000, check: checkC02,
		rule: "random program trees of 1-5 statements, up to ~60 constructs, printed with a random layout; non-trivial: more than ten nodes; distinct by source text"})
}

func checkC02(g *G) {
	p := g.anyProgram()
	src := g.Print(p, g.newLayout(), false)
	e := g.parse(src, false, g.options()...)
	g.checkTree(p, src, e)
	if s := p.A.L[0]; len(p.A.L) == 1 && !(s.K == KCall && (s.Op == "stmt" || s.Op == "hash")) {
		// the same text as a single expression. No call is a statement there
		g.tag("single expression")
		s.Flag = s.Flag && s.K != KCall
		src = g.Print(p, g.newLayout(), true)
		e = g.parse(src, true, g.options()...)
		g.checkTree(s, src, e)
	}
	if p.Count() > 10 {
		g.count(src)
	}
}

// checkLocation checks where an error is reported
func (g *G) checkLocation(src string, err error, file string, line, col int) {
	r, ok := err.(issue.Reported)
	if !ok {
		g.fail("the error is a %T: %v\n--- source\n%s", err, err, src)
	}
	loc := r.Location()
	if loc.File() != file || loc.Line() != line || loc.Pos() != col {
		g.fail("the error is reported at %s:%d:%d, not at %s:%d:%d\n--- error\n%v\n--- source\n%s", loc.File(), loc.Line(), loc.Pos(), file, line, col, err, src)
	}
}
