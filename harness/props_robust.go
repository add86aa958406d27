package main

import (
	"bytes"
	"fmt"
	"strings"

	"github.com/lyraproj/issue/issue"
	"github.com/lyraproj/puppet-parser/json"
	"github.com/lyraproj/puppet-parser/literal"
	"github.com/lyraproj/puppet-parser/parser"
	"github.com/lyraproj/puppet-parser/pn"
	"github.com/lyraproj/puppet-parser/validator"
)

// C01: every text is parsed or rejected

var allOptions = []parser.Option{parser.EppMode, parser.HandleBacktickStrings, parser.HandleHexEscapes, parser.TasksEnabled, parser.WorkflowEnabled}

func optionName(o parser.Option) string {
	return map[parser.Option]string{parser.EppMode: "epp", parser.HandleBacktickStrings: "backticks", parser.HandleHexEscapes: "hex", parser.TasksEnabled: "tasks", parser.WorkflowEnabled: "workflow"}[o]
}

// someOptions is any combination of the options
func (g *G) someOptions() (r []parser.Option, text string) {
	for i, o := range allOptions {
		p := 40
		if i == 0 {
			p = 15
		}
		if g.pct(p) {
			r = append(r, o)
			text += " " + optionName(o)
		}
	}
	return
}

// checkUse does everything that can be done with a parsed tree
func (g *G) checkUse(src, what string, e parser.Expression) {
	if isNil(e) {
		g.fail("neither an expression nor an error is returned\n%s\n--- source\n%q", what, src)
	}
	p := e.ToPN()
	text := p.String()
	data := p.ToData()
	var buf bytes.Buffer
	json.ToJson(data, &buf)
	if text == "" || buf.Len() == 0 {
		g.fail("the tree has no text\n%s\n--- source\n%q", what, src)
	}
	nodes := 0
	lines := strings.Count(src, "\n") + 1
	visit := func(c parser.Expression) {
		nodes++
		s, l, col, off, n := c.String(), c.Line(), c.Pos(), c.ByteOffset(), c.ByteLength()
		if off < 0 || n < 0 || off+n > len(src) || s != src[off:off+n] || l < 1 || l > lines || col < 1 || c.File() != "f.pp" || c.Locator() == nil || c.Label() == "" {
			g.fail("a node has no proper position: %T offset %d length %d line %d column %d file %q\n%s\n--- source\n%q", c, off, n, l, col, c.File(), what, src)
		}
		if nodes < 300 {
			literal.ToLiteral(c)
			_ = c.IsNop()
			if nodes < 40 {
				_ = c.ToPN().String()
			}
			c.Contents(nil, func(_ []parser.Expression, _ parser.Expression) {})
		}
	}
	visit(e)
	e.AllContents(nil, func(_ []parser.Expression, c parser.Expression) { visit(c) })
	if pr, ok := e.(*parser.Program); ok {
		for _, d := range pr.Definitions() {
			_ = d.ToPN()
		}
	}
	texts := map[issue.Code]int{}
	for k, v := range []func() validator.Validator{
		func() validator.Validator { return validator.ValidatePuppet(e, validator.StrictOff) },
		func() validator.Validator { return validator.ValidatePuppet(e, validator.StrictWarning) },
		func() validator.Validator { return validator.ValidatePuppet(e, validator.StrictError) },
		func() validator.Validator { return validator.ValidateTasks(e) },
		func() validator.Validator { return validator.ValidateWorkflow(e) },
	} {
		is := v().Issues()
		for _, i := range is {
			// Texts are expensive, and alike for issues of one kind
			if texts[i.Code()] < 2 {
				texts[i.Code()]++
				if i.Error() == "" || i.String() == "" || pn.ReportedToPN(i).String() == "" {
					g.fail("an issue has no text\n%s\n--- source\n%q", what, src)
				}
			}
			g.locationInside(src, i)
		}
		if len(is) > 0 {
			g.tag(fmt.Sprintf("issues of validator %d", k))
		}
	}
	if after := e.ToPN().String(); after != text {
		g.fail("the tree changed\n%s\n--- source\n%q\n--- before\n%s\n--- after\n%s", what, src, text, after)
	}
	if nodes > 5 {
		g.count(what + "\n" + src)
	}
	switch {
	case nodes > 100:
		g.tag("accepted, more than 100 nodes")
	case nodes > 5:
		g.tag("accepted, 6-100 nodes")
	default:
		g.tag("accepted, up to 5 nodes")
	}
}

func checkC01(g *G) {
	src := g.anySource(600)
	opts, what := g.someOptions()
	single := g.pct(10)
	what = fmt.Sprintf("options:%s single: %v", what, single)
	g.note("%s %q", what, src)
	e, err := parser.CreateParser(opts...).Parse("f.pp", src, single)
	if err == nil {
		g.checkUse(src, what, e)
		return
	}
	g.tag("rejected")
	if err.Error() == "" {
		g.fail("an error without text\n%s\n--- source\n%q", what, src)
	}
	g.locationInside(src, err)
	if i, ok := err.(issue.Reported); ok {
		if i.Code() == "" || i.Location().File() != "f.pp" || !strings.Contains(err.Error(), fmt.Sprintf("line: %d", i.Location().Line())) {
			g.fail("an incomplete error: %#v\n%s\n--- source\n%q", i, what, src)
		}
		if pn.ReportedToPN(i).String() == "" || i.Severity() != issue.SeverityError {
			g.fail("not an error: %v\n%s\n--- source\n%q", i, what, src)
		}
		if i.Location().Line() > 1 || i.Location().Pos() > 8 {
			g.count(what + "\n" + src)
		}
	}
}

func init() {
	register(&Prop{id: "C01", quick: 100000, thorough: 3000000, check: checkC01,
		rule: "bytes, token sequences, the sources of the repository's tests and mutations of them, mutated random programs, and constructs nested up to 600 deep, with every combination of options; a parsed tree is rendered, walked, located, converted and validated; non-trivial: a tree of more than five nodes or an error that is not at the start; distinct by options and source text"})
}
