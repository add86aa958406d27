package main

import (
	"fmt"
	"sort"
	"strings"

	"github.com/lyraproj/issue/issue"
	"github.com/lyraproj/puppet-parser/parser"
	"github.com/lyraproj/puppet-parser/validator"
)

// C14, C15, C16: validation

// parsed is some source that can be parsed
func (g *G) parsed() (string, parser.Expression) {
	var src string
	var opts []parser.Option
	single := false
	g.sloppy = g.bool()
	switch g.weighted(45, 10, 15, 30) {
	case 0:
		g.tag("program")
		p := g.anyInput()
		src = g.Print(p, g.newLayout(), false)
		opts = g.options()
	case 1:
		g.tag("mutated program")
		p := g.anyInput()
		src = g.mutate(g.Print(p, g.newLayout(), false))
		opts = g.options()
	case 2:
		g.tag("corpus")
		src = g.pick(corpus)
		opts, _ = g.someOptions()
		single = g.pct(10)
	default:
		g.tag("mutated corpus")
		src = g.mutate(g.pick(corpus))
		if g.pct(30) {
			src = g.pick(corpus) + "\n" + src
		}
		opts, _ = g.someOptions()
	}
	g.note("%q", src)
	e, err := parser.CreateParser(opts...).Parse("f.pp", src, single)
	if err != nil {
		g.tag("rejected")
		return src, nil
	}
	return src, e
}

type issueAt struct {
	code      string
	line, col int
}

func (i issueAt) String() string { return fmt.Sprintf("%s at %d:%d", i.code, i.line, i.col) }

func issueSet(m map[issueAt]int) string {
	var r []string
	for i, n := range m {
		r = append(r, fmt.Sprintf("%s (%d)", i, n))
	}
	sort.Strings(r)
	return strings.Join(r, "\n")
}

// checkIssues compares the issues of a validator with those that the rules demand
func (g *G) checkIssues(src, mode string, e parser.Expression, v validator.Validator) {
	want := map[issueAt]int{}
	tree := fromAST(e)
	for _, i := range refIssues(tree, mode) {
		l, c := lineCol(src, i.n.Off)
		want[issueAt{i.code, l, c}]++
	}
	got := map[issueAt]int{}
	for _, i := range v.Issues() {
		loc := i.Location()
		if loc.File() != "f.pp" {
			g.fail("an issue in file %q: %s\n--- source\n%s", loc.File(), i, src)
		}
		got[issueAt{string(i.Code()), loc.Line(), loc.Pos()}]++
		sev := issue.SeverityError
		if i.Code() == deprecationCode {
			sev = issue.SeverityDeprecation
		}
		if i.Severity() != issue.Severity(sev) {
			g.fail("an issue of severity %s: %s\n--- source\n%s", i.Severity(), i, src)
		}
		g.tag(string(i.Code()))
	}
	for i, n := range want {
		exact := strings.HasSuffix(i.code, "_OPERATION_NOT_SUPPORTED") // reported once each
		if got[i] == 0 || exact && got[i] != n {
			g.fail("the %s rules demand %s (%d), reported %d times\n--- source\n%s\n--- parsed\n%s\n--- expected\n%s\n--- reported\n%s", mode, i, n, got[i], src, e.ToPN(), issueSet(want), issueSet(got))
		}
	}
	for i := range got {
		if want[i] == 0 {
			g.fail("no %s rule demands %s\n--- source\n%s\n--- parsed\n%s\n--- expected\n%s\n--- reported\n%s", mode, i, src, e.ToPN(), issueSet(want), issueSet(got))
		}
	}
	if len(got) > 0 {
		g.count(mode + "\n" + src)
	} else {
		g.tag("no issues")
	}
}

func checkC14(g *G) {
	src, e := g.parsed()
	if e != nil {
		g.checkIssues(src, "base", e, validator.ValidatePuppet(e, validator.StrictError))
	}
}

func checkC16(g *G) {
	src, e := g.parsed()
	if e == nil {
		return
	}
	g.checkIssues(src, "tasks", e, validator.ValidateTasks(e))
	g.checkIssues(src, "workflow", e, validator.ValidateWorkflow(e))
}

// checkC15 compares the issues of the levels of strictness
func checkC15(g *G) {
	src, e := g.parsed()
	if e == nil {
		return
	}
	type lv struct {
		s   validator.Strictness
		sev issue.Severity
		is  []issue.Reported
	}
	lvs := []*lv{{s: validator.StrictOff, sev: issue.SeverityIgnore}, {s: validator.StrictWarning, sev: issue.SeverityWarning}, {s: validator.StrictError, sev: issue.SeverityError}}
	for i, n := range []string{"off", "warning", "error"} {
		name := []byte(n)
		for k := range name {
			if g.bool() {
				name[k] -= 'a' - 'A'
			}
		}
		if s := validator.Strict(string(name)); s != lvs[i].s || s.String() != n {
			g.fail("the level %q is %s", name, s)
		}
	}
	// other names are refused
	if other := g.pick([]string{"none", "on", "ok", "true", "0", "1", "2", "3", "warn", "err", "errors", "warnings", "strict", "ignore", "offf", "of", "w", " ", " off", "error ", "off,error", "warning\n", "\x00", "deprecation", "ôff"}); g.pct(20) {
		g.mustPanic("the level "+fmt.Sprintf("%q", other), func() { validator.Strict(other) })
	}
	reuse := g.bool()
	soft, hard := 0, 0
	for _, l := range lvs {
		v := validator.ValidatePuppet(e, l.s)
		if reuse {
			validator.Validate(v, e)
		}
		l.is = v.Issues()
	}
	show := func(is []issue.Reported) string {
		var b strings.Builder
		for _, i := range is {
			fmt.Fprintf(&b, "%s %s %s\n", i.Severity(), i.Code(), i)
		}
		return b.String()
	}
	all := lvs[2].is
	for _, l := range lvs {
		var want []issue.Reported
		for _, i := range all {
			if !softCodes[string(i.Code())] || l.sev != issue.SeverityIgnore {
				want = append(want, i)
			}
		}
		ok := len(want) == len(l.is)
		for k := 0; ok && k < len(want); k++ {
			w, i := want[k], l.is[k]
			sev := w.Severity()
			if softCodes[string(w.Code())] {
				sev = l.sev
				soft++
			} else {
				hard++
			}
			wl, il := w.Location(), i.Location()
			ok = i.Code() == w.Code() && i.Severity() == sev && wl.File() == il.File() && wl.Line() == il.Line() && wl.Pos() == il.Pos() && w.Error() == i.Error()
			if i.Code() == deprecationCode && i.Severity() != issue.SeverityDeprecation {
				ok = false
			}
		}
		if !ok {
			g.fail("the issues at level %s are not those at level error, but for the severity of soft ones\n--- source\n%s\n--- error\n%s--- %s\n%s", l.s, src, show(all), l.s, show(l.is))
		}
	}
	if soft > 0 {
		g.tag("soft issues")
		g.count(src)
	}
	if hard > 0 {
		g.tag("hard issues")
	}
}

func init() {
	register(&Prop{id: "C14", quick: 30000, thorough: 600000, check: checkC14,
		rule: "random programs that break rules, the sources of the repository's tests, and mutations of both, as far as they parse; the set of reported codes and places is compared with that of an independent statement of the rules over a tree read through accessors; non-trivial: at least one issue; distinct by source text"})
	register(&Prop{id: "C15", quick: 30000, thorough: 600000, check: checkC15,
		rule: "the same sources validated at the three levels; non-trivial: at least one soft issue; distinct by source text"})
	register(&Prop{id: "C16", quick: 25000, thorough: 500000, check: checkC16,
		rule: "the same sources validated for tasks and for workflows, compared with the rules; non-trivial: at least one issue; distinct by kind of validation and source text"})
}
