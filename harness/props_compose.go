package main

import (
	"fmt"
	"regexp"
	"strings"

	"github.com/lyraproj/puppet-parser/parser"
)

// C25: the parts of a program do not influence each other

// shifted tells the first node at which two trees differ, if one is that of the same text further down
func shifted(a, b *Node, by int) string {
	if a.K != b.K {
		return fmt.Sprintf("%T instead of %T", b.X, a.X)
	}
	if a.Off+by != b.Off && a.K != KNop {
		return fmt.Sprintf("%T %s at %d instead of %d", b.X, head(b.PN(), 80), b.Off, a.Off+by)
	}
	ap, bp := a.Parts(), b.Parts()
	if len(ap) != len(bp) {
		return fmt.Sprintf("%s instead of %s", b.PN(), a.PN())
	}
	for i := range ap {
		if s := shifted(ap[i], bp[i], by); s != "" {
			return s
		}
	}
	return ""
}

// statementsOf are the statements of a parsed program
func statementsOf(n *Node) []*Node {
	if n.K == KProgram {
		n = n.A
	}
	if n.K == KBlock {
		return n.L
	}
	return nil
}

var lineEndsStatement = regexp.MustCompile(`(?m);[ \t\r]*(#.*|/\*.*)?$`)

var endsStatement = regexp.MustCompile(`;(\s|#[^\n]*(\n|$)|(?s:/\*.*?\*/))*$`)

type piece struct {
	src  string
	tree *Node
	pn   []string
}

// piece is some text that is a sequence of statements
func (g *G) piece(opts []parser.Option) *piece {
	var src string
	switch g.weighted(35, 15, 20, 30) {
	case 0:
		p := g.program(3+g.n(20), 3)
		src = g.Print(p, g.newLayout(), false)
		g.tag("program")
	case 1:
		p := g.program(3+g.n(20), 3)
		src = g.mutate(g.Print(p, g.newLayout(), false))
		g.tag("mutated program")
	case 2:
		src = g.pick(corpus)
		g.tag("corpus")
	default:
		src = g.mutate(g.pick(corpus))
		g.tag("mutated corpus")
	}
	g.note("%q", src)
	e, err := parser.CreateParser(opts...).Parse("f.pp", src, false)
	if err != nil {
		return nil
	}
	t := fromAST(e)
	ss := statementsOf(t)
	if len(ss) == 0 {
		return nil
	}
	// a semicolon can follow unless there is one already; the name of a statement call looks for an argument even then
	if endsStatement.MatchString(src) || strings.Contains(src, "@(") && lineEndsStatement.MatchString(src) {
		return nil
	}
	if l := ss[len(ss)-1]; l.K == KName && isOneOf(l.S, stmtCalls...) {
		return nil
	}
	// a slash that would begin a regexp if there was another one, further down
	alone := false
	t.Walk(func(n *Node, _ []*Node) {
		alone = alone || n.K == KBin && n.S == "/" && !divisible(n.A)
	})
	if alone {
		return nil
	}
	p := &piece{src: src, tree: t}
	for _, s := range ss {
		p.pn = append(p.pn, s.PN())
	}
	return p
}

// blocks are places for statements. The names of definitions do not depend on these places
var blocks = [][2]string{
	{"", ""}, {"", ""}, {"if true {\n", "\n}"}, {"unless $x {", "\n}"}, {"if $x { } else {\n\n", "\n}"}, {"case 1 { default: {", "\n} }"}, {"foo() |$y| {", "\n}"}, {"define zz($a = 1) {\n", "\n}"}, {"node 'é' {", "\n}"}, {"function zz() >> Any {", "\n}"}, {"$x.each |$y| {\n  ", "\n}\n"},
	{"if 1 { } elsif 2 {", "\n}"}, {"application zz() { ", "\n}"},
}

// blockIn finds the block of a program that is only one of blocks
func blockIn(n *Node) *Node {
	s := statementsOf(n)[0]
	switch s.K {
	case KIf, KUnless:
		if s.C.K == KIf {
			return s.C.B
		}
		if s.C.K == KBlock {
			return s.C
		}
		return s.B
	case KCase:
		return s.L[0].B
	case KCall, KMethod:
		return s.B.B
	}
	return s.B
}

func (g *G) composeStatements() {
	g.tasks, g.workflow = g.bool(), g.pct(25)
	opts := g.options()
	if g.pct(20) {
		opts = append(opts, parser.HandleBacktickStrings, parser.HandleHexEscapes)
	}
	var ps []*piece
	for i := 2 + g.n(2); i > 0; i-- {
		if p := g.piece(opts); p != nil {
			ps = append(ps, p)
		}
	}
	if len(ps) == 0 {
		return
	}
	w := blocks[g.u(len(blocks))]
	if len(ps) == 1 && w[0] == "" {
		return
	}
	src := w[0]
	var at []int
	for i, p := range ps {
		if i > 0 {
			src += "\n;\n"
		}
		at = append(at, len(src))
		src += p.src
	}
	src += w[1]
	g.note("%q", src)
	e, err := parser.CreateParser(opts...).Parse("f.pp", src, false)
	if err != nil {
		g.fail("the parts are accepted, the whole is not\n--- source\n%s\n--- error\n%v", src, err)
	}
	whole := fromAST(e)
	b := whole
	if w[0] != "" {
		g.tag("in a block")
		b = blockIn(whole)
	}
	got := statementsOf(b)
	k := 0
	for i, p := range ps {
		for j, s := range statementsOf(p.tree) {
			if k >= len(got) || got[k].PN() != p.pn[j] {
				what := "nothing"
				if k < len(got) {
					what = got[k].PN()
				}
				g.fail("a statement is parsed differently among others\n--- alone\n%s\n--- in the whole\n%s\n--- source\n%s\n--- the part\n%s", p.pn[j], what, src, p.src)
			}
			if d := shifted(s, got[k], at[i]); d != "" {
				g.fail("a statement has another place among others: %s\n--- source\n%s\n--- the part\n%s", d, src, p.src)
			}
			k++
		}
	}
	if k != len(got) {
		g.fail("the whole has %d statements more\n--- source\n%s", len(got)-k, src)
	}
	// definitions
	var want []string
	for _, p := range ps {
		e, _ := parser.CreateParser(opts...).Parse("f.pp", p.src, false)
		for _, d := range e.(*parser.Program).Definitions() {
			want = append(want, d.ToPN().String())
		}
	}
	var defs []string
	for _, d := range e.(*parser.Program).Definitions() {
		defs = append(defs, d.ToPN().String())
	}
	if isDefKind(statementsOf(whole)[0].K) && w[0] != "" {
		defs = defs[:len(defs)-1]
	}
	if strings.Join(defs, "\n") != strings.Join(want, "\n") {
		g.fail("other definitions are registered\n--- source\n%s\n--- those of the parts\n%s\n--- of the whole\n%s", src, strings.Join(want, "\n"), strings.Join(defs, "\n"))
	}
	g.tag("statements")
	g.count(src)
}

// A place for an expression, and where it is in the tree of a single expression or statement
type place struct {
	pre, post string
	level     int
	brace     bool // a brace follows
	arg       bool // no definition can begin there
	get       func(n *Node) *Node
}

var places = []place{
	{"(", ")", lvRel, false, false, func(n *Node) *Node { return n.A }},
	{"((", "\n))", lvRel, false, false, func(n *Node) *Node { return n.A.A }},
	{"[", "]", lvRel, false, true, func(n *Node) *Node { return n.L[0] }},
	{"[$x, ", ", 2]", lvRel, false, true, func(n *Node) *Node { return n.L[1] }},
	{"[1, 'é',", ",]", lvRel, false, true, func(n *Node) *Node { return n.L[2] }},
	{"{a => ", "}", lvRel, false, true, func(n *Node) *Node { return n.L[0].B }},
	{"{1 => 2, b => ", ", c => 3}", lvRel, false, true, func(n *Node) *Node { return n.L[1].B }},
	{"{", " => 1}", lvRel, false, true, func(n *Node) *Node { return n.L[0].A }},
	{"foo(", ")", lvRel, false, true, func(n *Node) *Node { return n.L[0] }},
	{"foo(\n1,", ", 3)", lvRel, false, true, func(n *Node) *Node { return n.L[1] }},
	{"foo(a => ", ")", lvRel, false, true, func(n *Node) *Node { return n.L[0].L[0].B }},
	{"$x.foo(", ") |$y| { }", lvRel, false, true, func(n *Node) *Node { return n.L[0] }},
	{"Foo(", ")", lvRel, false, true, func(n *Node) *Node { return n.L[0] }},
	{"$x[", "]", lvRel, false, true, func(n *Node) *Node { return n.L[0] }},
	{"File['x', ", "]", lvRel, false, true, func(n *Node) *Node { return n.L[1] }},
	{"\"é ${(", ")} b\"", lvRel, false, true, func(n *Node) *Node { return n.L[1].A.A }},
	{"\"${[", "]}\"", lvRel, false, true, func(n *Node) *Node { return n.L[0].A.L[0] }},
	{"@(\"A\")\nx ${[", "]}\n A\n", lvRel, false, true, func(n *Node) *Node { return n.A.L[1].A.L[0] }},
	{"$x = ", "", lvAssign, false, false, func(n *Node) *Node { return n.B }},
	{"$x = $y += ", "", lvAssign, false, false, func(n *Node) *Node { return n.B.B }},
	{"a -> ", "", lvRel + 1, false, false, func(n *Node) *Node { return n.B }},
	{"case 1 { 2, ", ": { } }", lvSel, false, false, func(n *Node) *Node { return n.L[0].L[1] }},
	{"case ", " { 1: { } }", lvSel, true, false, func(n *Node) *Node { return n.A }},
	{"if ", " { }", lvOr, true, false, func(n *Node) *Node { return n.A }},
	{"unless ", " { }", lvOr, true, false, func(n *Node) *Node { return n.A }},
	{"if 1 { } elsif ", " { }", lvOr, true, false, func(n *Node) *Node { return n.C.A }},
	{"1 ? { 2 => ", " }", lvSel, false, false, func(n *Node) *Node { return n.L[0].B }},
	{"1 ? { 2 => 3, ", " => 4, }", lvSel + 1, false, false, func(n *Node) *Node { return n.L[1].A }},
	{"1 ? 2 => ", "", lvSel, false, false, func(n *Node) *Node { return n.L[0].B }},
	{"foo |$y = ", ", $z| { }", lvSel, false, false, func(n *Node) *Node { return n.B.L[0].B }},
	{"class c($y = ", ") { }", lvSel, false, false, func(n *Node) *Node { return n.L[0].B }},
	{"class c($x, String $y = ", ", $z = 1) { }", lvSel, false, false, func(n *Node) *Node { return n.L[1].B }},
	{"define d($y = ", ",) { }", lvSel, false, false, func(n *Node) *Node { return n.L[0].B }},
	{"file { 'x': a => ", " }", lvSel, false, false, func(n *Node) *Node { return n.L[0].L[0].A }},
	{"file { 'x': a => 1, b => ", ", }", lvSel, false, false, func(n *Node) *Node { return n.L[0].L[1].A }},
	{"@@file { x: ; y: * => ", "; }", lvSel, false, false, func(n *Node) *Node { return n.L[1].L[0].A }},
	{"File { a => ", " }", lvSel, false, false, func(n *Node) *Node { return n.L[0].A }},
	{"File['x'] { a +> ", " }", lvSel, false, false, func(n *Node) *Node { return n.L[0].A }},
	{"File <| |> { a => ", " }", lvSel, false, false, func(n *Node) *Node { return n.L[0].A }},
	{"A produces B { a => ", " }", lvSel, false, false, func(n *Node) *Node { return n.L[0].A }},
	{"1 or ", "", lvOr + 1, false, false, func(n *Node) *Node { return n.B }},
	{"1 and ", "", lvAnd + 1, false, false, func(n *Node) *Node { return n.B }},
	{"$x < ", "", lvCmp + 1, false, false, func(n *Node) *Node { return n.B }},
	{"$x + ", "", lvAdd + 1, false, false, func(n *Node) *Node { return n.B }},
	{"$x * ", "", lvMul + 1, false, false, func(n *Node) *Node { return n.B }},
	{"$x in ", "", lvIn + 1, false, false, func(n *Node) *Node { return n.B }},
	{"! ", "", lvUnary, false, false, func(n *Node) *Node { return n.A }},
	{"foo() |$y| { 1; ", "\n}", lvRel, false, false, func(n *Node) *Node { return n.B.B.L[1] }},
	{"if 1 {\n", "\n}", lvRel, false, false, func(n *Node) *Node { return n.B.L[0] }},
}

// composeExpression puts the same expression in two places
func (g *G) composeExpression() {
	var src string
	var m *Node
	known := false
	g.tasks, g.workflow = g.pct(25), false
	switch g.weighted(50, 20, 30) {
	case 0:
		g.budget = 2 + g.n(20)
		m = g.rawExpr()
		if g.rarely() {
			g.grow(m)
		}
		finish(m)
		l := g.newLayout()
		src = g.Print(m, l, true)
		known = true
		g.tag("expression")
	case 1:
		src = g.pick(corpus)
		g.tag("corpus expression")
	default:
		src = g.mutate(g.pick(corpus))
		g.tag("mutated expression")
	}
	g.note("%q", src)
	opts := g.options()
	e, err := parser.CreateParser(opts...).Parse("f.pp", src, true)
	if err != nil {
		if known {
			g.fail("a well-formed expression is rejected\n--- source\n%s\n--- error\n%v", src, err)
		}
		return
	}
	alone := fromAST(e)
	src = strings.TrimSpace(src)
	if strings.TrimSpace(src) == "" || alone.Off != 0 || strings.HasPrefix(src, "+") {
		return // begins with something else
	}
	if !known {
		// what the model knows of generated expressions is not known of these: leave out what depends on it
		m = alone
	}
	want := alone.PN()
	for i := 0; i < 3; i++ {
		p := places[g.u(len(places))]
		if prec(m) < p.level || bareCall(m, src) && p.level > lvRes || p.brace && (!known || endsOpen(m)) || p.arg && argSafe(m) != m {
			continue
		}
		if isOneOf(firstWord(src), "type", "function", "plan", "application", "consumes", "produces", "site") && (p.arg || !known) {
			continue
		}
		if !fits(p, m, src) {
			continue
		}
		s := p.pre + src + "\n" + p.post
		g.note("%q", s)
		x, err := parser.CreateParser(opts...).Parse("f.pp", s, true)
		if err != nil {
			g.fail("the expression is not accepted as part of another one\n--- source\n%s\n--- error\n%v\n--- the expression\n%s", s, err, src)
		}
		got := p.get(fromAST(x))
		if got.PN() != want && !(strings.HasPrefix(want, "(call") && strings.Replace(strings.Replace(got.PN(), "(invoke", "(call", 1), "(invoke_", "(call_", 1) == want) {
			g.fail("the expression has another tree as part of another one\n--- alone\n%s\n--- as a part\n%s\n--- source\n%s", want, got.PN(), s)
		}
		if d := shifted(alone, got, len(p.pre)); d != "" {
			g.fail("the expression has another place as part of another one: %s\n--- source\n%s", d, s)
		}
		g.tag(p.pre + "…" + p.post)
		g.count(s)
	}
}

func firstWord(s string) string {
	i := 0
	for i < len(s) && isWordByte(s[i]) {
		i++
	}
	return s[:i]
}

// bareCall is true for the call of a function with a hash instead of arguments
func bareCall(n *Node, src string) bool {
	if n.K != KCall || n.B != nil || n.A.K != KName || len(n.L) != 1 || n.L[0].K != KHash {
		return false
	}
	if n.Op == "hash" || n.Op == "stmt" {
		return true
	}
	return !strings.HasPrefix(src[n.A.Off+len(n.A.S):], "(")
}

func kindsOf(m *Node) (ks []Kind) {
	m.Walk(func(n *Node, _ []*Node) { ks = append(ks, n.K) })
	return
}

// fits tells if nothing in an expression reads differently because of what surrounds it
func fits(p place, m *Node, src string) bool {
	switch p.post {
	case "":
		if p.level == lvSel && m.K == KSelector { // without braces
			return false
		}
	}
	if strings.HasPrefix(p.pre, "\"") || strings.HasPrefix(p.pre, "@(\"") {
		// no heredocs and definitions in strings
		bad := strings.Contains(src, "@(")
		m.Walk(func(n *Node, _ []*Node) {
			bad = bad || n.K == KHeredoc || isDefKind(n.K) || n.K == KConcat
		})
		if bad || strings.Contains(src, "\n") && p.pre[0] == '@' {
			return false
		}
	}
	if p.pre == "1 ? { 2 => 3, " && m.K == KSelector {
		return false
	}
	if strings.HasPrefix(p.pre, "class c(") {
		// the names of definitions depend on the class
		for _, k := range kindsOf(m) {
			if isDefKind(k) {
				return false
			}
		}
	}
	if p.pre == "if 1 {\n" || strings.HasPrefix(p.pre, "foo() |$y|") {
		// statements: the name of a statement call looks for an argument
		if m.K == KName {
			return false
		}
	}
	return true
}

func checkC25(g *G) {
	if g.pct(55) {
		g.composeStatements()
	} else {
		g.composeExpression()
	}
}

func init() {
	register(&Prop{id: "C25", quick: 120000, thorough: 600000, check: checkC25,
		rule: "sequences of two or three programs (generated, from the sources of the repository's tests, and mutations of both) at the top or in a block, compared with the trees, places and definitions of the parts alone (55%), and expressions of the same kinds compared with themselves in 49 other places (45%); non-trivial: something was composed; distinct by source text"})
}
