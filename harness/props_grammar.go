package main

import (
	"regexp"
	"strings"

	"github.com/lyraproj/puppet-parser/parser"
)

// C30: the programs that are accepted are those of the grammar

var (
	tkName  = regexp.MustCompile(`^(::)?[a-z_][A-Za-z0-9_]*(::[a-z][A-Za-z0-9_]*)*$`)
	tkRef   = regexp.MustCompile(`^(::)?[A-Z][A-Za-z0-9_]*(::[A-Z][A-Za-z0-9_]*)*$`)
	tkVar   = regexp.MustCompile(`^\$((::)?[a-z_][A-Za-z0-9_]*(::[a-z][A-Za-z0-9_]*)*|[0-9]|[1-9][0-9]+)$`)
	tkInt   = regexp.MustCompile(`^(0|[1-9][0-9]{0,17})$`)
	tkFloat = regexp.MustCompile(`^[0-9]+\.[0-9]+$`)
	tkStr   = regexp.MustCompile(`^'[A-Za-z0-9 ]*'$`)
	tkRegex = regexp.MustCompile(`^/[A-Za-z0-9]+/$`)
)

var tkOperators = []string{"=", "+=", "-=", "=>", "+>", "+", "-", "*", "/", "%", "==", "!=", "=~", "!~", "<", "<=", ">", ">=", "<<", ">>",
	"->", "~>", "<-", "<~", "<|", "|>", "<<|", "|>>", "|", "!", "@", "@@", ".", ",", ";", ":", "?", "(", ")", "[", "]", "{", "}"}

// token makes a token of a text, a similar one if need be
func (g *G) token(s string) tk {
	t := tk{s: s}
	switch {
	case s == "true" || s == "false":
		t.k = "bool"
	case s == "plan":
		t.k = "name"
		if g.tasks {
			t.k = "plan"
		}
	case isOneOf(s, allKeywords...):
		t.k = s
	case isOneOf(s, tkOperators...):
		t.k = s
	case tkName.MatchString(s):
		t.k = "name"
	case tkRef.MatchString(s):
		t.k = "ref"
	case tkVar.MatchString(s):
		t.k = "var"
	case tkInt.MatchString(s):
		t.k = "int"
	case tkFloat.MatchString(s):
		t.k = "float"
	case tkStr.MatchString(s):
		t.k = "str"
	case tkRegex.MatchString(s):
		t.k = "regexp"
	case s[0] == '/':
		t.k, t.s = "regexp", "/r/"
	case s[0] == '$':
		t.k, t.s = "var", "$v"
	case s[0] >= '0' && s[0] <= '9':
		t.k, t.s = "int", "7"
		if g.pct(30) {
			t.k, t.s = "float", "1.5"
		}
	case s[0] == '\'' || s[0] == '"' || s[0] == '@':
		t.k, t.s = "str", "'s'"
	default:
		t.k, t.s = "name", "odd"
	}
	return t
}

func (g *G) tokensOf(prog *Node) (r []tk) {
	done := false
	g.breaker = func(toks []Tok, inner bool) []Tok {
		if inner || done {
			return toks
		}
		done = true
		for _, t := range toks {
			s := t.T
			if s == "" {
				continue
			}
			k := tk{}
			if len(s) > 1 && (s[0] == '-' || s[0] == '+') && s[1] >= '0' && s[1] <= '9' {
				r = append(r, tk{k: s[:1], s: s[:1]})
				k = g.token(s[1:])
				k.glue = true
			} else {
				k = g.token(s)
			}
			switch {
			case t.List:
			case s == "[":
				k.glue = true
			}
			k.nl = t.Paren || t.Stmt && g.pct(50)
			r = append(r, k)
		}
		return toks
	}
	g.Print(prog, Layout{}, false)
	g.breaker = nil
	return
}

var tkCommon = []string{"x", "foo", "notice", "include", "A", "File", "Resource", "Object", "$a", "$b", "$1", "1", "2.5", "'s'", "/r/", "true", "undef", "default",
	"(", ")", "[", "]", "{", "}", "(", ")", "[", "]", "{", "}", ",", ",", ";", ":", "=>", "=>", "=", "|", "|", ".", "?", "*", "-", "!", "@", "<|", "|>", ">>", "+"}
var tkNames = []string{"x", "foo::bar", "notice", "include", "require", "action", "workflow", "resource", "stateHandler", "each", "times", "range", "parameters", "returns", "name", "init", "step"}

var tkTails = []string{"produces B { a => 1 }", "consumes x { }", "<| |>", "<<| |>>", "<| a == 1 |> { a => 1 }", "{ 's' : }", "{ a => 1 }", "{ 's' => 1 }", "{ }", "[ 1 ]", "[ ]", "[ A , B ]",
	"( 1 )", "( )", "| $x | { }", "| | { }", ". x", ". x ( 1 )", ". type", "? { 1 => 2 , }", "? 1 => 2", "inherits a", "inherits B", "inherits default", "else { }", "elsif 1 { }", ">> A", ">> A [ 1 ]",
	"=> 1", "+> 1", "= 1", "+= 1", ": { }", ": ", ": a => 1", "; 's' : a => 1", "; 's'", "; ;", ", ,", ", a => 1", ", * => 1", ", 1", "-> b", "in c", "and 1", "== 2", "- 1", "- $x", "* 3", "=~ /r/", ", $y = 1",
	", A $y", "times ( 1 ) | $i | { }", "each ( ) | $i |", "$i = each ( $x ) | $i | { }", "parameters => ( $x )", "returns => ( $x = y )", ", default", "undef", "@ x { 's' : }", "! x", "* $x", "x { 's' : }"}

var tkHeads = []string{"unless x { }", "unless $x { 1 }", "if x { }", "if 1 { } elsif 2 { }", "case 1 { 2 : { } }", "case x { 1 , default : { 2 } }", "File", "x", "$x", "A [ 1 ]", "$x [ 1 ]", "class a", "class a { }", "class { 'a' : }",
	"class", "define a", "define a { }", "define a ( $x )", "application a { }", "function f", "function f ( A $x )", "function f ( ) >> A", "plan p", "plan p ( )", "plan", "type", "type A", "type A =", "type A = B", "type A = {", "type A = [", "type A [ 1 ]", "type A inherits B", "type A { }",
	"node a", "node a ,", "node a . b", "node 's' , /r/", "node default", "node 1 . 2", "site", "site { }", "notice", "notice {", "notice 1", "include a , b", "foo", "foo {", "foo ( 1 )", "foo | $x | { }", "foo |", "foo ( ) | A $x = 1 ,", "x . y", "x . y ( 1 )", "$x . each | $i |",
	"[", "(", "{", "[ 1 ,", "{ a =>", "{ 1 => 2 ,", "{ 1 => 2 }", "[ 1 ]", "( 1 )", "( x )", "'s'", "/r/", "1", "2.5", "undef", "default", "true", "attr", "private", "consumes", "produces", "!", "-", "- 1", "*", "@", "@@", "@ x", "@ File", "@@ x { 's' : }", "x {", "File {", "A [ 1 ] {", "x { 's' : }", "x { 's' :",
	"File { a => 1 }", "Resource [ A ]", "Resource [ A , B ] {", "$x ?", "$x ? {", "$x ? { 1 => 2 }", "A produces B { }", "x consumes B {", "attr produces a { }", "File <| |>", "File <| a == 1", "File <<| |>> { a => 1 }", "$x = 1", "$x =", "[ $x , $y ] = 1", "A -> B", "A ->", "1 +", "x in", "1 == 2",
	"action a { }", "action a {", "workflow a { }", "workflow a { } {", "resource a { }", "resource a { } {", "resource a { type => A } { a => $x ,", "stateHandler a {", "workflow a { parameters => (", "workflow a { returns => (", "action a { } times ( 1 ) | $i |", "action a { } $v = each ( 1 ) | $i | {", "action", "workflow",
	"notice { type ( 1 ) =>", "notice { type =>", "notice { function ( 1 ) =>", "notice { site =>", "type ( 1 )", "function ( 1 )", "plan a::init { class b", "plan a::b { A produces", "class a { attr produces", "class a::b { private consumes c { }", "class ::a { class ::b",
	"resource a { } { a => f ( $x , 1 , $y )", "resource a { } { a => F ( $x , $::y , $z )", "workflow a { returns => ( $x = ::y ) }", "action a { } $name = each", "foo ( type", "[ function (", "{ plan =>"}

func (g *G) phrase() (r []tk) {
	s := strings.Fields(g.pick(tkTails))
	if g.pct(40) {
		s = strings.Fields(g.pick(tkHeads))
	}
	for k := range s {
		r = append(r, g.token(s[k]))
		r[k].glue = k == 0 && g.pct(70) || k > 0 && s[k-1] == "-"
		if s[k] == "[" && k > 0 {
			r[k].glue = g.pct(85)
		}
	}
	if len(r) > 0 {
		r[0].nl = g.pct(8)
	}
	return
}

func (g *G) randomToken() tk {
	var s string
	switch g.u(10) {
	case 0, 1, 2, 3, 4, 5:
		s = g.pick(tkCommon)
	case 6, 7:
		s = g.pick(tkOperators)
	case 8:
		s = g.pick(refWords)
	default:
		s = g.pick(tkNames)
	}
	t := g.token(s)
	t.glue = g.pct(70)
	t.nl = g.pct(8)
	return t
}

func matching(ts []tk, i int) int {
	open, depth := ts[i].s, 0
	closing := map[string]string{"(": ")", "[": "]", "{": "}"}[open]
	for ; i < len(ts); i++ {
		switch ts[i].s {
		case open:
			depth++
		case closing:
			if depth--; depth == 0 {
				return i
			}
		}
	}
	return -1
}

func (g *G) mutateTks(ts []tk) []tk {
	if len(ts) == 0 {
		return append(ts, g.randomToken())
	}
	splice := func(a, b int, with ...tk) []tk {
		r := append([]tk{}, ts[:a]...)
		r = append(r, with...)
		return append(r, ts[b:]...)
	}
	i := g.u(len(ts))
	switch g.u(16) {
	case 11, 12: // what can follow something
		with := g.phrase()
		for k := 0; k < len(ts) && g.pct(80) && !isOneOf(ts[i].s, ")", "]", "}", "|>", "|>>"); k++ {
			i = (i + 1) % len(ts)
		}
		return splice(i+1, i+1, with...)
	case 13, 14, 15: // brackets and some of what precedes them: again, elsewhere, or not
		for k := 0; k < len(ts); k++ {
			a := (i + k) % len(ts)
			if !isOneOf(ts[a].s, "(", "[", "{") {
				continue
			}
			b := matching(ts, a)
			if b < 0 {
				break
			}
			for n := g.n(5); n > 0 && a > 0; n-- {
				a--
			}
			switch g.u(5) {
			case 0:
				return splice(a, b+1)
			case 1:
				k := g.u(len(ts) + 1)
				return splice(k, k, append([]tk{}, ts[a:b+1]...)...)
			case 2:
				return splice(b+1, b+1, append([]tk{g.randomToken()}, ts[a:b+1]...)...)
			default:
				return splice(b+1, b+1, append([]tk{}, ts[a:b+1]...)...)
			}
		}
	case 0, 1:
		return splice(i, i+1)
	case 2, 3:
		return splice(i, i, g.randomToken())
	case 4:
		return splice(i, i+1, g.randomToken())
	case 5:
		return splice(i, i, ts[i])
	case 6:
		if i+1 < len(ts) {
			return splice(i, i+2, ts[i+1], ts[i])
		}
	case 7: // a piece again elsewhere
		j := i + 1 + g.n(8)
		if j > len(ts) {
			j = len(ts)
		}
		k := g.u(len(ts) + 1)
		return splice(k, k, append([]tk{}, ts[i:j]...)...)
	case 8:
		j := i + 1 + g.n(8)
		if j > len(ts) {
			j = len(ts)
		}
		return splice(i, j)
	case 9: // other or no brackets, or what is in them elsewhere
		for k := 0; k < len(ts); k++ {
			a := (i + k) % len(ts)
			if !isOneOf(ts[a].s, "(", "[", "{") {
				continue
			}
			b := matching(ts, a)
			if b < 0 {
				break
			}
			in := append([]tk{}, ts[a+1:b]...)
			switch g.u(4) {
			case 0:
				return splice(a, b+1, in...)
			case 1:
				return splice(a+1, b)
			case 2:
				p := g.pick([]string{"()", "[]", "{}"})
				o, c := g.token(p[:1]), g.token(p[1:])
				o.glue, o.nl = ts[a].glue, ts[a].nl
				in = append([]tk{o}, in...)
				return splice(a, b+1, append(in, c)...)
			default:
				k := g.u(len(ts) + 1)
				return splice(k, k, append([]tk{}, ts[a:b+1]...)...)
			}
		}
	default:
		r := append([]tk{}, ts...)
		r[i].nl = !r[i].nl
		r[i].glue = !r[i].glue
		return r
	}
	return ts
}

func operand(k string) bool {
	return isOneOf(k, ")", "]", "ref", "name", "bool", "int", "float", "str", "regexp", "var")
}

// lay writes tokens down. What depends on what is before is made to fit.
func (g *G) lay(ts []tk) ([]tk, string) {
	b := strings.Builder{}
	r := append([]tk{}, ts...)
	for i := range r {
		t := &r[i]
		prev := ""
		if i > 0 {
			prev = r[i-1].k
		}
		switch {
		case t.k == "regexp" && operand(prev):
			t.k, t.s = "str", "'r'"
		case t.k == "/" && !operand(prev):
			t.k, t.s = "%", "%"
		}
		switch t.k {
		case "[":
			t.glue = t.glue && i > 0
		case "int", "float":
			t.glue = t.glue && isOneOf(prev, "-", "+")
		default:
			t.glue = false
		}
		if t.glue {
			t.nl = false
		}
		switch {
		case t.glue || i == 0:
		case t.nl:
			b.WriteString("\n")
		default:
			b.WriteString(" ")
		}
		b.WriteString(t.s)
	}
	return r, b.String()
}

// nearProgram generates tokens of a program or nearly so
func (g *G) nearProgram(changes int) (ts []tk) {
	switch g.u(8) {
	case 0:
		g.tasks, g.workflow = g.bool(), g.pct(25)
		for i := 1 + g.n(12); i > 0; i-- {
			ts = append(ts, g.randomToken())
		}
	case 1, 2:
		g.tasks, g.workflow = g.bool(), g.pct(25)
		if g.bool() {
			for _, s := range strings.Fields(g.pick(tkHeads)) {
				ts = append(ts, g.token(s))
				ts[len(ts)-1].glue = g.pct(85)
			}
		}
		for i := 1 + g.u(4); i > 0; i-- {
			ts = append(ts, g.phrase()...)
		}
		for open := []tk{}; len(ts) < 100; { // mostly with all brackets closed
			open = open[:0]
			for _, t := range ts {
				switch t.k {
				case "(", "[", "{":
					open = append(open, t)
				case ")", "]", "}":
					if len(open) > 0 {
						open = open[:len(open)-1]
					}
				}
			}
			if len(open) == 0 || g.pct(5) {
				break
			}
			ts = append(ts, g.token(map[string]string{"(": ")", "[": "]", "{": "}"}[open[len(open)-1].k]))
		}
		if g.pct(30) {
			ts = g.mutateTks(ts)
		}
	default:
		g.manyDefs = g.pct(20)
		if g.bool() {
			ts = g.tokensOf(g.anyProgram())
		} else {
			g.tasks, g.workflow = g.bool(), g.pct(25)
			ts = g.tokensOf(g.program(1+g.n(12), 3))
		}
		for i := g.u(1 + changes); i > 0; i-- {
			ts = g.mutateTks(ts)
		}
	}
	return
}

func checkC30(g *G) {
	ts := g.nearProgram(3)
	single := g.pct(10)
	ts, src := g.lay(ts)
	g.note("%q", src)
	want, at, open := derive(ts, single, g.workflow)
	opts := g.options()
	e, err := parser.CreateParser(opts...).Parse("f.pp", src, single)
	if len(ts) >= 3 && open == "" {
		g.count(src)
	}
	g.compare(src, ts, want, at, open, e, err)
}

// compare compares what the parser says of a text with what the reference says
func (g *G) compare(src string, ts []tk, want *Node, at int, open string, e parser.Expression, err error) {
	switch {
	case open != "":
		g.tag("open")
	case want == nil && err == nil:
		rest := []string{}
		for _, t := range ts[at:] {
			rest = append(rest, t.s)
		}
		g.fail("accepted, although nothing of the grammar goes on with %q here\n--- source\n%s\n--- parsed\n%s", strings.Join(rest, " "), src, e.ToPN())
	case want != nil && err != nil:
		g.fail("a program of the grammar is rejected\n--- source\n%s\n--- tree\n%s\n--- error\n%v", src, want.PN(), err)
	case want == nil:
		g.tag("rejected")
	default:
		g.tag("accepted")
		if w, got := want.PN(), e.ToPN().String(); w != got {
			g.fail("the tree is not the one the grammar derives\n--- source\n%s\n--- expected\n%s\n--- parsed\n%s", src, w, got)
		}
	}
}

func init() {
	register(&Prop{id: "C30", quick: 80000, thorough: 2000000, check: checkC30,
		rule: "token sequences of random programs with up to three changes, and random short ones, compared with a reference parser; non-trivial: three or more tokens that the reference decides; distinct by source text"})
}
