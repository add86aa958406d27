package main

import (
	"fmt"
	"strings"
	"unicode/utf8"

	"github.com/lyraproj/issue/issue"
	"github.com/lyraproj/puppet-parser/parser"
	"github.com/lyraproj/puppet-parser/validator"
)

// C27: validators other than those of the repository, and their reuse

// finding is an issue that a scout has, and where
type finding struct {
	code issue.Code
	e    parser.Expression
}

// scout is a validator that records where it is
type scout struct {
	validator.AbstractValidator
	g       *G
	seen    []parser.Expression
	parents map[parser.Expression]parser.Expression // as the tree has them
	src     string
	plan    map[parser.Expression][]issue.Code // the issues to report
	found   []finding
}

func (s *scout) Validate(e parser.Expression) {
	s.seen = append(s.seen, e)
	parent, ok := s.parents[e]
	if !ok {
		s.g.fail("an expression is validated that is no part of the tree: %T %s\n--- source\n%s", e, e.ToPN(), s.src)
	}
	if c := s.Container(); !sameNode(c, parent) {
		s.g.fail("the container of %s is %s, not %s\n--- source\n%s", what(e), what(c), what(parent), s.src)
	}
	for x := e; !isNil(x); x = s.parents[x] {
		if c := s.ContainerOf(x); !sameNode(c, s.parents[x]) {
			s.g.fail("while %s is validated, the container of %s is %s, not %s\n--- source\n%s", what(e), what(x), what(c), what(s.parents[x]), s.src)
		}
	}
	if n := len(s.seen); n > 1 {
		if x := s.seen[s.g.n(n)]; !s.isAncestor(x, e) {
			if c := s.ContainerOf(x); c != nil {
				s.g.fail("while %s is validated, the container of %s, which is not one of its containers, is %s\n--- source\n%s", what(e), what(x), what(c), s.src)
			}
		}
	}
	for _, c := range s.plan[e] {
		s.Accept(c, e, issue.H{"expression": e, "key": "k", "word": "w", "param": "p", "operator": "o", "name": "n", "var": "v", "value": e, "title": "t"})
		s.found = append(s.found, finding{c, e})
	}
}

func (s *scout) isAncestor(x, e parser.Expression) bool {
	for ; !isNil(e); e = s.parents[e] {
		if x == e {
			return true
		}
	}
	return false
}

func sameNode(a, b parser.Expression) bool { return isNil(a) && isNil(b) || a == b }

func what(e parser.Expression) string {
	if isNil(e) {
		return "nothing"
	}
	return fmt.Sprintf("%T %s", e, e.ToPN())
}

var scoutCodes = []issue.Code{"VALIDATE_DUPLICATE_KEY", "VALIDATE_FUTURE_RESERVED_WORD", "VALIDATE_IDEM_EXPRESSION_NOT_LAST", "VALIDATE_DUPLICATE_PARAMETER", "VALIDATE_APPENDS_DELETES_NO_LONGER_SUPPORTED", "VALIDATE_NOT_TOP_LEVEL", "VALIDATE_ILLEGAL_ASSIGNMENT_VIA_INDEX"}

func (g *G) mustPanic(what string, f func()) {
	ok := false
	func() {
		defer func() { ok = recover() != nil }()
		f()
	}()
	if !ok {
		g.fail("%s is accepted", what)
	}
}

func sameIssues(a, b []issue.Reported) bool {
	if len(a) != len(b) {
		return false
	}
	for k := range a {
		x, y := a[k], b[k]
		if x.Code() != y.Code() || x.Severity() != y.Severity() || x.Location().File() != y.Location().File() || x.Location().Line() != y.Location().Line() || x.Location().Pos() != y.Location().Pos() {
			return false
		}
	}
	return true
}

func checkC27(g *G) {
	s := &scout{g: g}
	severities := map[issue.Code]issue.Severity{}
	demote := func() {
		c := g.pick2(scoutCodes)
		if !softCodes[string(c)] && c != "VALIDATE_FUTURE_RESERVED_WORD" {
			g.mustPanic("the demotion of the hard issue "+string(c), func() { s.Demote(c, issue.SeverityWarning) })
			return
		}
		sev := []issue.Severity{issue.SeverityIgnore, issue.SeverityDeprecation, issue.SeverityWarning, issue.SeverityError}[g.u(4)]
		s.Demote(c, sev)
		severities[c] = sev
		g.tag("demoted")
	}
	for i := g.n(4); i > 0; i-- {
		demote()
	}
	levels := []validator.Strictness{validator.StrictOff, validator.StrictWarning, validator.StrictError}
	level := levels[g.u(3)]
	make := []func() validator.Validator{
		func() validator.Validator { return validator.NewChecker(level) },
		func() validator.Validator { return validator.NewTasksChecker() },
		func() validator.Validator { return validator.NewWorkflowChecker() },
	}[g.weighted(5, 2, 2)]
	reused := make()
	opts := g.options()
	p := parser.CreateParser(opts...)
	pv := validator.NewParserValidator(p, reused)
	type past struct {
		src  string
		is   []issue.Reported
		text string
		what string
	}
	var history []past
	show := func(is []issue.Reported) string {
		var b strings.Builder
		for _, i := range is {
			fmt.Fprintf(&b, "%s %s %s\n", i.Severity(), i.Code(), i)
		}
		return b.String()
	}
	keep := func(what, src string, is []issue.Reported) {
		history = append(history, past{src, is, show(is), what})
	}
	rounds, issues := 0, 0
	times := 1 + g.n(4)
	if g.rarely() {
		times = 20 + g.n(20)
		g.tag("many programs")
	}
	for i := times; i > 0; i-- {
		var src string
		if g.pct(60) {
			g.sloppy = g.bool()
			g.epp = false
			g.tasks, g.workflow = g.bool(), g.pct(25)
			src = g.Print(g.program(2+g.n(20), 4), g.newLayout(), false)
			if g.pct(15) {
				src = g.mutateTokens(src)
			}
		} else {
			src = g.pick(corpus)
		}
		g.note("%q", src)
		e, err := parser.CreateParser(opts...).Parse("f.pp", src, false)
		// validators of other rule sets and severities come and go
		for k := g.n(3); k > 0; k-- {
			bystander := validator.NewChecker(levels[g.u(3)])
			if d, ok := bystander.(interface {
				Demote(issue.Code, issue.Severity)
			}); ok && g.bool() {
				d.Demote(validator.ValidateDuplicateKey, issue.SeverityDeprecation)
				d.Demote(validator.ValidateFutureReservedWord, issue.SeverityIgnore)
			}
			if err == nil && g.bool() {
				validator.Validate(bystander, e)
			}
			g.tag("other validators at work")
		}
		// parsing and validation at once
		pe, res := pv.Parse("f.pp", src)
		switch {
		case err != nil:
			if pe != nil || res == nil || !res.Error() || len(res.Issues()) != 1 {
				g.fail("a source that is rejected gives %s\n--- source\n%s", what(pe), src)
			}
			i := res.Issues()[0]
			if r, ok := err.(issue.Reported); ok && !sameIssues([]issue.Reported{r}, res.Issues()) || !ok && (i.Code() != "VALIDATE_INVALID_SOURCE" || !strings.Contains(i.Error(), err.Error())) {
				g.fail("the issue is %v, not %v\n--- source\n%s", i, err, src)
			}
			g.tag("rejected")
			continue
		case isNil(pe) || pe.ToPN().String() != e.ToPN().String():
			g.fail("a parser that validates gives another tree\n--- source\n%s", src)
		}
		fresh := make()
		validator.Validate(fresh, e)
		var got []issue.Reported
		if res != nil {
			got = res.Issues()
		}
		if (res == nil) != (len(fresh.Issues()) == 0) || !sameIssues(fresh.Issues(), got) {
			g.fail("a validator that is used again reports other issues\n--- earlier sources\n%q\n--- source\n%s\n--- fresh\n%s--- used\n%s", history, src, show(fresh.Issues()), show(got))
		}
		if res != nil {
			worst := false
			for _, i := range got {
				worst = worst || i.Severity() == issue.SeverityError
			}
			if res.Error() != worst {
				g.fail("the result says error: %v\n--- source\n%s\n--- issues\n%s", res.Error(), src, show(got))
			}
		}
		keep("validation", src, got)
		issues += len(got)

		// a validator of our own
		tree := fromAST(e)
		s.seen, s.found, s.src = nil, nil, src
		s.parents = map[parser.Expression]parser.Expression{e: nil}
		s.plan = map[parser.Expression][]issue.Code{}
		parts := 0
		var rec func(n *Node)
		rec = func(n *Node) {
			self := n.X.(parser.Expression)
			parts++
			for k := g.n(3); k > 1; k-- {
				if parts < 30 {
					s.plan[self] = append(s.plan[self], g.pick2(scoutCodes))
				}
			}
			for _, c := range n.Parts() {
				x := c.X.(parser.Expression)
				if _, ok := s.parents[x]; !ok {
					s.parents[x] = self
					rec(c)
				}
			}
		}
		rec(tree)
		validator.Validate(s, e)
		if len(s.seen) != len(s.parents) {
			g.fail("%d parts are validated, %d exist\n--- source\n%s", len(s.seen), len(s.parents), src)
		}
		k := 0
		is := s.Issues()
		for _, f := range s.found {
			sev, ok := severities[f.code]
			if !ok {
				sev = issue.SeverityError
			}
			if sev == issue.SeverityIgnore {
				continue
			}
			l, c := lineCol(src, f.e.ByteOffset())
			if k >= len(is) || is[k].Code() != f.code || is[k].Severity() != sev || is[k].Location().Line() != l || is[k].Location().Pos() != c || is[k].Location().File() != "f.pp" {
				g.fail("issue %d should be %s of severity %s at %d:%d\n--- source\n%s\n--- issues\n%s", k, f.code, sev, l, c, src, show(is))
			}
			k++
		}
		if k != len(is) {
			g.fail("%d issues, %d were accepted\n--- source\n%s\n--- issues\n%s", len(is), k, src, show(is))
		}
		keep("own validator", src, is)
		rounds++
		if parts > 5 && (rounds > 1 || len(is) > 0) {
			g.count(src)
		}
		if g.pct(30) {
			demote()
		}
	}
	for _, h := range history {
		if t := show(h.is); t != h.text {
			g.fail("issues have changed after they were returned (%s)\n--- source\n%s\n--- before\n%s--- after\n%s", h.what, h.src, h.text, t)
		}
	}
	if issues > 0 {
		g.tag("issues")
	}
	if rounds > 1 {
		g.tag("used again")
	}
	s.Clear()
	if len(s.Issues()) != 0 {
		g.fail("issues remain after they are cleared")
	}
}

func (g *G) pick2(a []issue.Code) issue.Code { return a[g.u(len(a))] }

// C28: positions in arbitrary text

func (g *G) positionText() string {
	if g.rarely() {
		// long lines or many of them
		g.tag("long")
		// (locating takes time in proportion to the line, and every offset is located)
		part := g.pick([]string{"", "\n", "é"}) + g.smallText()
		return strings.Repeat(part, 1+min(g.many(300), 8000/(len(part)+1)))
	}
	return g.smallText()
}

func (g *G) smallText() string {
	switch g.weighted(30, 20, 20, 15, 15) {
	case 0:
		var b strings.Builder
		for i := g.n(30); i > 0; i-- {
			b.WriteString(g.pick([]string{"a", "\n", "\n", "\r\n", "é", "日", "😀", "\t", " ", "\r", "\u2028", "\ufffd", "\ufeff", "e\u0301", "x = 1\n", "\x7f", "\u0085"}))
		}
		return b.String()
	case 1:
		return g.soup(20)
	case 2:
		return g.pick(corpus)
	case 3:
		return g.rawBytes(40)
	default:
		return g.mutate(g.pick(corpus))
	}
}

func checkC28(g *G) {
	text := g.positionText()
	g.note("%q", text)
	g.checkReader(text)
	if !utf8.ValidString(text) {
		return
	}
	loc := parser.NewLocator("some/file.pp", text)
	if loc.String() != text || loc.File() != "some/file.pp" {
		g.fail("the locator of %q for file %q has text %q", text, loc.File(), loc.String())
	}
	check := func(off int) {
		l, c := lineCol(text, off)
		if gl, gc := loc.LineForOffset(off), loc.PosOnLine(off); gl != l || gc != c {
			g.fail("offset %d of %q is at %d:%d, not at %d:%d", off, text, gl, gc, l, c)
		}
	}
	// some in random order, then all
	for i := g.n(5); i > 0; i-- {
		off := g.u(len(text) + 1)
		for off < len(text) && !utf8.RuneStart(text[off]) {
			off++
		}
		check(off)
	}
	lines := 0
	line, col := 1, 1
	at := func(off int) {
		if gl, gc := loc.LineForOffset(off), loc.PosOnLine(off); gl != line || gc != col {
			g.fail("offset %d of %q is at %d:%d, not at %d:%d", off, text, gl, gc, line, col)
		}
	}
	for off, c := range text {
		at(off)
		col++
		if c == '\n' {
			lines++
			line++
			col = 1
		}
	}
	at(len(text))
	if lines > 0 || len(text) != utf8.RuneCountInString(text) {
		g.count(text)
	}
	if lines > 0 {
		g.tag("several lines")
	}
	// an expression takes its position from its locator
	off := g.u(len(text) + 1)
	for off < len(text) && !utf8.RuneStart(text[off]) {
		off++
	}
	end := off + g.n(len(text)-off+1)
	e := parser.DefaultFactory().Undef(loc, off, end-off)
	l, c := lineCol(text, off)
	if e.String() != text[off:end] || e.Line() != l || e.Pos() != c || e.File() != "some/file.pp" || e.ByteOffset() != off || e.ByteLength() != end-off || e.Locator() != loc {
		g.fail("an expression from %d to %d of %q has text %q at %d:%d", off, end, text, e.String(), e.Line(), e.Pos())
	}
	var p parser.Positioned
	p.Init(loc, off, end-off)
	if p.String() != text[off:end] || p.Line() != l || p.Pos() != c || p.File() != "some/file.pp" || p.ByteOffset() != off || p.ByteLength() != end-off || p.Locator() != loc {
		g.fail("a position from %d to %d of %q has text %q at %d:%d", off, end, text, p.String(), p.Line(), p.Pos())
	}
	if x := p.Location(); x.File() != "some/file.pp" || x.Line() != l || x.Pos() != c {
		g.fail("the location of a position from %d to %d of %q is %s:%d:%d, not %d:%d", off, end, text, x.File(), x.Line(), x.Pos(), l, c)
	}
}

// checkReader uses a reader in a random way
func (g *G) checkReader(text string) {
	r := parser.NewStringReader(text)
	at := 0
	var log strings.Builder
	fail := func(f string, a ...any) {
		g.fail("reader of %q after%s\n%s", text, log.String(), fmt.Sprintf(f, a...))
	}
	// expected is what is next: its value and size, or that it is illegal
	expected := func() (rune, int, bool) {
		if at >= len(text) {
			return 0, 0, true
		}
		c, n := utf8.DecodeRuneInString(text[at:])
		return c, n, c != 0 && !(c == utf8.RuneError && n == 1)
	}
	call := func(what string, f func() (rune, int)) (c rune, n int, ok bool) {
		defer func() {
			if x := recover(); x != nil {
				if err, isErr := x.(error); !isErr || err.Error() == "" {
					fail("%s panics with %v", what, x)
				}
				ok = false
			}
		}()
		c, n = f()
		return c, n, true
	}
	var starts []int
	for i := 1 + g.n(25); i > 0; i-- {
		c, n, legal := expected()
		switch g.weighted(50, 20, 10, 12, 8, 6) {
		case 0:
			log.WriteString(" Next")
			gc, start, ok := call("Next", r.Next)
			if ok != legal || ok && (gc != c || n > 0 && start != at) {
				fail("Next gives %q at %d (%v), not %q at %d (%v)", gc, start, ok, c, at, legal)
			}
			if ok {
				starts = append(starts, at)
				at += n
			} else {
				g.tag("illegal")
			}
		case 1:
			log.WriteString(" Peek")
			gc, gn, ok := call("Peek", r.Peek)
			if ok != legal || ok && (gc != c || gn != n) {
				fail("Peek gives %q, %d (%v), not %q, %d (%v)", gc, gn, ok, c, n, legal)
			}
		case 2:
			log.WriteString(" Advance")
			if legal {
				r.Advance(n)
				at += n
			}
		case 3:
			at = 0
			if len(starts) > 0 && g.pct(80) {
				at = starts[g.u(len(starts))]
			}
			fmt.Fprintf(&log, " SetPos(%d)", at)
			r.SetPos(at)
		case 5:
			// a place further on or back is seen without going there
			pk, has := r.(interface{ PeekAt(int) (rune, int) })
			if !has {
				break
			}
			back := at
			if len(starts) > 0 && g.bool() {
				at = starts[g.u(len(starts))]
			} else if legal {
				at += n
			}
			c, n, legal := expected()
			fmt.Fprintf(&log, " PeekAt(%d)", at)
			gc, gn, ok := call("PeekAt", func() (rune, int) { return pk.PeekAt(at) })
			if ok != legal || ok && (gc != c || gn != n) {
				fail("PeekAt gives %q, %d (%v), not %q, %d (%v)", gc, gn, ok, c, n, legal)
			}
			at = back
		case 4:
			s := g.u(at + 1)
			if got := r.From(s); got != text[s:at] {
				fail("From(%d) gives %q, not %q", s, got, text[s:at])
			}
		}
		if r.Pos() != at || r.Text() != text {
			fail("the position is %d, not %d", r.Pos(), at)
		}
	}
}

func init() {
	register(&Prop{id: "C27", quick: 12000, thorough: 250000, check: checkC27,
		rule: "sequences of programs and of the sources of the repository's tests, all validated by one instance, and a validator of our own that reports random issues at random parts with random severities; non-trivial: a tree of more than five parts that is not the first, or has issues; distinct by source text"})
	register(&Prop{id: "C28", quick: 100000, thorough: 2000000, check: checkC28,
		rule: "texts of several lines, ends of lines and widths of characters, token sequences, test sources and bytes; every offset is located, and a reader is used by random calls next to a model; non-trivial: several lines or characters of more than one byte; distinct by text"})
}
