package main

import (
	"fmt"
	"hash/fnv"
	"strings"
	"sync"

	"github.com/lyraproj/issue/issue"
	"github.com/lyraproj/puppet-parser/literal"
	"github.com/lyraproj/puppet-parser/parser"
	"github.com/lyraproj/puppet-parser/validator"
)

// C11: no memory, no shared state

// outcome is everything that can be observed of a parse
func outcome(e parser.Expression, err error) string {
	var b strings.Builder
	if err != nil {
		fmt.Fprintf(&b, "error %T %s", err, err)
		if r, ok := err.(issue.Reported); ok {
			fmt.Fprintf(&b, " %s %s:%d:%d", r.Code(), r.Location().File(), r.Location().Line(), r.Location().Pos())
		}
		if !isNil(e) {
			fmt.Fprintf(&b, " and expression %s", e.ToPN())
		}
		return b.String()
	}
	b.WriteString(e.ToPN().String())
	index := map[parser.Expression]int{e: 0}
	h := fnv.New64a()
	one := func(c parser.Expression) {
		fmt.Fprintf(h, "%T %d %d %d %d %s\n", c, c.ByteOffset(), c.ByteLength(), c.Line(), c.Pos(), c.File())
	}
	one(e)
	e.AllContents(nil, func(path []parser.Expression, c parser.Expression) {
		if _, ok := index[c]; !ok {
			index[c] = len(index)
		}
		fmt.Fprintf(h, "%d ", len(path))
		one(c)
	})
	if p, ok := e.(*parser.Program); ok {
		for _, d := range p.Definitions() {
			i, ok := index[d]
			fmt.Fprintf(&b, " def %d %v %s", i, ok, d.Label())
		}
	}
	fmt.Fprintf(&b, " nodes %d %x", len(index), h.Sum64())
	return b.String()
}

func issuesText(is []issue.Reported) string {
	var b strings.Builder
	for _, i := range is {
		fmt.Fprintf(&b, "%s %s %s\n", i.Code(), i.Severity(), i.String())
	}
	return b.String()
}

type job struct {
	opts   []parser.Option
	what   string
	file   string
	src    string
	single bool
}

func (j *job) String() string {
	return fmt.Sprintf("options:%s file: %q single: %v source: %q", j.what, j.file, j.single, j.src)
}

func (j *job) parse(p parser.ExpressionParser) (parser.Expression, error) {
	return p.Parse(j.file, j.src, j.single)
}

// brokenOff are sources that end within something
var brokenOff = []string{
	"class a::b { class c { define d() { ", "workflow w {} { workflow x {} { resource y {", "function f() { $x = @(E)\n  a\n", "$a = \"x ${ class c { ", "notice { [1] =", "file { a: b => @(X)", "class foo { @(\"E\"/L)\n ${",
	"workflow foo::x {} { workflow y {} { ^", "0x1F +", "$x = 017 0", "- ", "-", "x -", "class x { }\nclass y { \xff", "define q { }\x00", "plan p { \"${", "f() |$x = @(E)|\n b\nE", "@(A) @(B)\n a\n A\n", "'", "class m { $x = /a/ }}",
	"type X = Object[{", "type Y = ", "type Z inherits A { $a", "foo::", "\"${a[", "\"${\"${\"${", "@(E:x/", "case 1 { 2: {", "site { application z {", "A produces B {", "%>", "<%", "a <% b %> c <%= $x", "<%- |$x| -%> \"${",
}

func (g *G) job() *job {
	j := &job{file: g.pick([]string{"a.pp", "b.pp", "f.epp", "", "/x/y z.pp"}), single: g.pct(15)}
	switch g.weighted(40, 20, 20, 20, 10) {
	case 0:
		p := g.anyInput()
		j.src = g.Print(p, g.newLayout(), false)
	case 1:
		j.src = g.mutate(g.Print(g.anyInput(), g.newLayout(), false))
	case 2:
		j.src = g.pick(brokenOff)
		if g.pct(30) {
			j.src = g.pick(corpus) + "\n" + j.src
		}
	case 3:
		j.src = g.pick(corpus)
	default:
		j.src = g.mutate(g.pick(corpus))
	}
	return j
}

var smallOnes = []string{"5", "-5", "0x1F", "017", "1.5", "x", "$x", "'a'", "\"a $b\"", "/a/", "[1]", "{1 => 2}", "- 3", "!true", "(1)", "foo(1)", "@(E)\n a\n E\n", "1\n2", "$a = 5", "class c { }", "9223372036854775808", "-9223372036854775809",
	"1e999", "-1e999", "-0x", "-09", "-1.", "- 5", "-'a'", "\"${-", "\"${-9223372036854775809}\"", "x\n(1)", "x(1)", "$x [1]", "$x[1]", "|", "a <| |>", "`a`", "\"\\x41\"", "include x", "a", "\"a", "\"${x}\"", "\"$x", "8", "08", "0", "x::y", "X::Y",
	"-1e9999 5", "[-", "[-99999999999999999999, 5]", "{", "}", ")", "a => 1", "{a => -", "<%= 5 %>", "a", "a <%", "plan p { }", "plan", "f |$x| { }", "f |", "$x ? { 1 => -08 }", "<% -08 %>", "type X = Y", "type = 1", "site { }",
	"site", "resource", "workflow", "workflow w {} { }", "# a", "/* a", "/* a */ 5", "\r\n5", "5\r\n6", "é", "'é' \xff", "\u00e9\n\u00e9 $", "case 1 { default: { 5 } }"}

// smallJob is the parse of a few tokens
func (g *G) smallJob() *job {
	j := &job{file: g.pick([]string{"a.pp", "b.pp", "f.epp"}), single: g.pct(25)}
	switch g.weighted(45, 20, 15, 10, 10) {
	case 0:
		j.src = g.pick(smallOnes)
	case 1:
		j.src = g.pick(smallOnes) + g.pick([]string{"", " ", "\n"}) + g.pick(smallOnes)
	case 2:
		j.src = g.soup(4)
	case 3:
		j.src = g.mutate(g.pick(smallOnes))
	default:
		j.src = g.pick(brokenOff)
	}
	return j
}

// first is a job that several do at once, and what they got
type first struct {
	j   *job
	res [2][2]string
}

func (f *first) String() string { return f.j.String() + "\n" }

// together does all jobs at once, each of them twice
func together(firsts []*first, strict validator.Strictness) {
	var wg sync.WaitGroup
	start := make(chan bool)
	for k := 0; k < 2*len(firsts); k++ {
		wg.Add(1)
		go func(j *job, res *[2]string) {
			defer wg.Done()
			defer func() {
				if r := recover(); r != nil {
					res[0] = fmt.Sprintf("panic: %v", r)
				}
			}()
			<-start
			e, err := j.parse(parser.CreateParser(j.opts...))
			res[0] = outcome(e, err)
			if err == nil {
				res[1] = issuesText(validator.ValidatePuppet(e, strict).Issues())
				literal.ToLiteral(e)
				e.AllContents(nil, func(_ []parser.Expression, x parser.Expression) { literal.ToLiteral(x) })
			}
		}(firsts[k/2].j, &firsts[k/2].res[k%2])
	}
	close(start)
	wg.Wait()
}

func checkC11(g *G) {
	small := g.pct(65)
	type inst struct {
		p    parser.ExpressionParser
		opts []parser.Option
		what string
	}
	var ps []*inst
	for i := 1 + g.n(2); i > 0; i-- {
		o, w := g.someOptions()
		if g.pct(50) {
			o, w = append(o, parser.TasksEnabled, parser.WorkflowEnabled), w+" tasks workflow"
		}
		ps = append(ps, &inst{parser.CreateParser(o...), o, w})
	}
	strict := []validator.Strictness{validator.StrictOff, validator.StrictWarning, validator.StrictError}[g.u(3)]
	check := validator.NewChecker(strict)
	type done struct {
		j    *job
		e    parser.Expression
		err  error
		text string
		iss  string
	}
	var ds []*done
	var log strings.Builder
	trees, errs := 0, 0
	times := 2 + g.n(5)
	if small && g.rarely() {
		times = g.many(70)
		g.tag("long")
	}
	var firsts []*first
	if !small && g.pct(50) {
		// at the same time, and before anything in these sources has been seen
		g.tag("new to all")
		for i := 0; i < times; i++ {
			in := ps[g.u(len(ps))]
			g.manyDefs = g.bool()
			j := g.job()
			g.manyDefs = false
			j.opts, j.what = in.opts, in.what
			firsts = append(firsts, &first{j: j})
			g.note("at once: %s", firsts)
		}
		together(firsts, strict)
	}
	for i := times; i > 0; i-- {
		in := ps[g.u(len(ps))]
		var j *job
		var f *first
		if len(firsts) > 0 {
			f = firsts[i-1]
			j = f.j
		} else if len(ds) > 0 && g.pct(20) {
			c := *ds[g.u(len(ds))].j // again
			j = &c
		} else if small {
			j = g.smallJob()
		} else {
			j = g.job()
		}
		if f != nil {
			in = &inst{parser.CreateParser(j.opts...), j.opts, j.what}
		}
		j.opts, j.what = in.opts, in.what
		fmt.Fprintf(&log, "%s\n", j)
		g.note("%s", log.String())
		e, err := j.parse(in.p)
		d := &done{j: j, e: e, err: err, text: outcome(e, err)}
		fe, ferr := j.parse(parser.CreateParser(in.opts...))
		if f := outcome(fe, ferr); f != d.text {
			g.fail("a parser that was used before gives another result than a new one\n%s\n--- new\n%s\n--- used\n%s", log.String(), f, d.text)
		}
		if err != nil {
			errs++
		} else {
			trees++
			validator.Validate(check, e)
			d.iss = issuesText(check.Issues())
			if f := issuesText(validator.ValidatePuppet(fe, strict).Issues()); f != d.iss {
				g.fail("a validator that was used before gives another result than a new one\n%s\n--- new\n%s\n--- used\n%s", log.String(), f, d.iss)
			}
			// the issues of one run are not changed by the next
			was := check.Issues()
			defer func(text string) {
				if s := issuesText(was); s != text {
					g.fail("issues were changed by later validations\n%s\n--- before\n%s\n--- after\n%s", log.String(), text, s)
				}
			}(d.iss)
		}
		if f != nil {
			for _, r := range f.res {
				if r != [2]string{d.text, d.iss} {
					g.fail("parsing and validation while others work gives another result: %s\n--- alone\n%s\n%s\n--- together\n%s\n%s", j, d.text, d.iss, r[0], r[1])
				}
			}
		}
		ds = append(ds, d)
	}
	for _, d := range ds {
		if s := outcome(d.e, d.err); s != d.text {
			g.fail("an earlier result was changed\n%s\n--- before\n%s\n--- after\n%s", log.String(), d.text, s)
		}
	}
	count := func() {
		g.tag(fmt.Sprintf("%d trees", trees))
		g.tag(fmt.Sprintf("%d errors", errs))
		if trees > 0 && errs > 0 {
			g.count(log.String())
		}
	}
	if small {
		g.tag("small")
		count()
		return
	}
	// all at once: every source with its own parser, and every tree read by two
	fails := make([]string, 3*len(ds))
	var wg sync.WaitGroup
	start := make(chan bool)
	shared := make([]parser.Expression, len(ds))
	for i, d := range ds {
		if d.err == nil {
			// nothing was asked of this one yet
			shared[i], _ = d.j.parse(parser.CreateParser(d.j.opts...))
		}
	}
	for k := range fails {
		wg.Add(1)
		go func(k int) {
			defer wg.Done()
			defer func() {
				if r := recover(); r != nil {
					fails[k] = fmt.Sprintf("panic: %v", r)
				}
			}()
			d := ds[k/3]
			<-start
			var e parser.Expression
			if k%3 == 0 {
				var err error
				e, err = d.j.parse(parser.CreateParser(d.j.opts...))
				if s := outcome(e, err); s != d.text {
					fails[k] = fmt.Sprintf("parsing while other parsers work gives another result: %s\n--- alone\n%s\n--- together\n%s", d.j, d.text, s)
				}
			} else if d.err == nil {
				e = shared[k/3]
				if s := outcome(e, nil); s != d.text {
					fails[k] = fmt.Sprintf("a tree that is read by several at once reads as another: %s\n--- alone\n%s\n--- together\n%s", d.j, d.text, s)
				}
			}
			if d.err == nil && fails[k] == "" {
				if s := issuesText(validator.ValidatePuppet(e, strict).Issues()); s != d.iss {
					fails[k] = fmt.Sprintf("validating while others work gives another result: %s\n--- alone\n%s\n--- together\n%s", d.j, d.iss, s)
				}
			}
		}(k)
	}
	close(start)
	wg.Wait()
	for _, f := range fails {
		if f != "" {
			g.fail("%s", f)
		}
	}
	count()
}

func init() {
	register(&Prop{id: "C11", quick: 4000, thorough: 100000, check: checkC11, race: true,
		rule:   "histories of 2-6 parses by 1-2 parser instances with any options, with sources that parse, fail at any point or repeat; every result is compared with that of a new parser, all are compared again at the end, and then, unless all are small (65%), all are repeated at the same time by several goroutines under the race detector, half of these also before anything else; non-trivial: at least one tree and one error; distinct by history",
		assume: []string{"the race detector reports races of the schedules that occurred"}})
}
