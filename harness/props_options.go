package main

import (
	"strings"

	"github.com/lyraproj/issue/issue"
	"github.com/lyraproj/puppet-parser/parser"
)

// C21: parser options

// optionSet is the needed options and perhaps some of the others, in any order, perhaps repeated
func (g *G) optionSet(need map[parser.Option]bool, without parser.Option) (r []parser.Option) {
	for _, o := range allOptions {
		if o == without || o == parser.EppMode && !need[o] {
			continue
		}
		if need[o] || g.bool() {
			r = append(r, o)
			if g.pct(10) {
				r = append(r, o)
			}
		}
	}
	for i := range r {
		j := i + g.u(len(r)-i)
		r[i], r[j] = r[j], r[i]
	}
	return
}

func optionNames(l []parser.Option) string {
	var s []string
	for _, o := range l {
		s = append(s, optionName(o))
	}
	return strings.Join(s, ",")
}

func checkC21(g *G) {
	if g.pct(30) {
		g.checkOrdinaryWords()
		return
	}
	g.tasks, g.workflow = g.bool(), g.pct(70)
	g.backticks, g.hexes = g.pct(40), g.pct(40)
	p := g.program(5+g.n(40), 4)
	src := g.Print(p, g.newLayout(), false)
	need := map[parser.Option]bool{}
	p.Walk(func(n *Node, _ []*Node) {
		switch {
		case n.K == KPlan:
			need[parser.TasksEnabled] = true
		case n.K == KStep:
			need[parser.WorkflowEnabled] = true
		case n.K == KStr && n.Op == "backtick":
			need[parser.HandleBacktickStrings] = true
		case n.K == KStr && n.Op == "hex":
			need[parser.HandleHexEscapes] = true
		}
	})
	without := parser.Option(-1)
	if len(need) > 0 && g.pct(50) {
		for _, o := range allOptions {
			if need[o] && (without < 0 || g.bool()) {
				without = o
			}
		}
	}
	opts := g.optionSet(need, without)
	g.note("%s: %q", optionNames(opts), src)
	fail := func(f string, a ...any) {
		g.fail(f+"\n--- options\n%s\n--- source\n%s", append(a, optionNames(opts), src)...)
	}
	ps := parser.CreateParser(opts...)
	if without < 0 && len(opts) < 3 && !need[parser.TasksEnabled] && !need[parser.WorkflowEnabled] && g.pct(20) {
		g.tag("CreatePspecParser")
		ps = parser.CreatePspecParser()
	}
	if p.Count() > 10 {
		g.count(optionNames(opts) + src)
	}
	e, err := ps.Parse("f.pp", src, false)
	if without >= 0 {
		g.tag("without " + optionName(without))
		switch without {
		case parser.HandleBacktickStrings:
			if err == nil {
				fail("strings in backticks are accepted without the option for them")
			}
			r, ok := err.(issue.Reported)
			if !ok || r.Code() != "LEX_UNEXPECTED_TOKEN" {
				fail("strings in backticks are rejected with %v", err)
			}
			return
		case parser.HandleHexEscapes:
			g.tag("literal escapes")
			p.Walk(func(n *Node, _ []*Node) {
				if n.K == KStr && n.Op == "hex" {
					n.S = n.Full
				}
			})
		default:
			if err != nil {
				return
			}
			fromAST(e).Walk(func(n *Node, _ []*Node) {
				if n.K == KStep && without == parser.WorkflowEnabled || n.K == KPlan && without == parser.TasksEnabled {
					fail("the feature is there without the option %s: %s", optionName(without), n.PN())
				}
			})
			return
		}
	}
	if err != nil {
		fail("a well-formed program is rejected: %v", err)
	}
	g.checkTree(p, src, e)
	if len(need) == 0 {
		g.tag("no feature")
		g.checkPositions(src, p, e)
	}
}

// checkOrdinaryWords uses the words of features that are not enabled as names
func (g *G) checkOrdinaryWords() {
	g.tasks, g.workflow = g.bool(), g.bool()
	var opts []parser.Option
	if g.tasks {
		opts = append(opts, parser.TasksEnabled)
	} else {
		g.words = append(g.words, "plan")
	}
	if g.workflow {
		opts = append(opts, parser.WorkflowEnabled)
	} else {
		g.words = append(g.words, "action", "resource", "stateHandler", "workflow")
	}
	for _, o := range []parser.Option{parser.HandleBacktickStrings, parser.HandleHexEscapes} {
		if g.bool() {
			opts = append(opts, o)
		}
	}
	if len(g.words) == 0 {
		return
	}
	g.tag("words as names")
	p := g.program(5+g.n(40), 4)
	src := g.Print(p, g.newLayout(), false)
	e := g.parse(src, false, opts...)
	g.checkTree(p, src, e)
	k := 0
	p.Walk(func(n *Node, _ []*Node) {
		for _, w := range g.words {
			if n.K == KName && n.S == w {
				k++
			}
		}
	})
	if k > 0 {
		g.count(optionNames(opts) + src)
	}
}

func init() {
	register(&Prop{id: "C21", quick: 40000, thorough: 800000, check: checkC21,
		rule: "random programs that use features, parsed with every set and order of options that has all they need, and with one that they need missing; programs that use the words of missing features as names; non-trivial: more than ten nodes, or such a word; distinct by options and source text"})
}
