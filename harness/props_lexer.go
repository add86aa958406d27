package main

import (
	"strings"
	"sync"

	"github.com/lyraproj/issue/issue"
	"github.com/lyraproj/puppet-parser/parser"
)

// C23: the simple lexer

// tokenClasses are the kinds of tokens, with one example of each first
var tokenClasses = map[string][]string{
	"identifier": {"foo", "a", "bar_1", "a::b", "::foo", "x86", "inx", "class_x", "a::b::c", "plan", "action", "truex"},
	"type name":  {"File", "A", "Foo::Bar", "::Foo::B", "X9"},
	"integer":    {"1", "0", "12", "0x1F", "017", "0XaB", "9223372036854775807"},
	"float":      {"1.5", "0.25", "2e3", "1.5e-7", "3E+2"},
	"string":     {"'a'", "''", "'it\\'s'", "\"x\"", "\"\"", "\"\\u{e9}\\n\"", "\"a $x ${y} b\"", "'a\nb'", "'é'", "\"\\\"\"", "'#'", "\"/*\"", "a-b", "x::y-z"},
	"variable":   {"$x", "$a::b", "$::x", "$1", "$0", "$x_1"},
	"regexp":     {"/a/", "/^a.*$/", "/a\\/b/", "/\\\\/", "/#/", "/'/", "/ x/", "/é/"},
	"boolean":    {"true", "false"},
}

var operatorTokens = []string{"=", "+=", "-=", "*", "/", "%", "-", "+", "<<", ">>", "==", "!=", "<", "<=", ">", ">=", "=~", "!~", "<|", "<<|", "|>", "|>>", "=>", "+>", "->", "~>", "<-", "<~", "!", "@", "@@", "(", ")", "[", "]", "{", "}", "|", ",", ".", "?", ":", ";"}

var tokenClassNames = []string{"identifier", "type name", "integer", "float", "string", "variable", "regexp", "boolean"}

type kindTable struct {
	end        int
	classes    map[string]int
	words      map[string]int // operators and keywords
	access     int            // a bracket that does not begin a list
	call       int            // a parenthesis that may begin arguments
	selector   int            // a brace that begins the options of a selector
	endsParams int            // a bar that ends parameters
}

// the kinds are learnt from tokens that stand alone
var kinds = sync.OnceValue(func() *kindTable {
	kind := func(s string) (k int) {
		l := parser.NewSimpleLexer("x", s)
		for {
			n := l.NextToken()
			if n == 0 {
				return
			}
			k = n
		}
	}
	t := &kindTable{end: parser.NewSimpleLexer("x", "").NextToken(), classes: map[string]int{}, words: map[string]int{}}
	for c, w := range tokenClasses {
		t.classes[c] = kind(w[0])
	}
	for _, o := range operatorTokens {
		t.words[o] = kind(o)
	}
	for _, k := range allKeywords {
		t.words[k] = kind(k)
	}
	t.access = kind("a[")
	t.call = kind("a(")
	t.selector = kind("? {")
	t.endsParams = kind("||")
	return t
})

type lexTok struct {
	kinds []int // any of these
	off   int
	end   int
	text  string
}

func (g *G) panics(f func()) (r any) {
	defer func() { r = recover() }()
	f()
	return nil
}

func has(ks []int, k int) bool {
	for _, e := range ks {
		if e == k {
			return true
		}
	}
	return false
}

func checkC23(g *G) {
	t := kinds()
	if t.end != 0 {
		g.fail("the kind of the end of the text is %d", t.end)
	}
	seen := map[int]string{0: "the end"}
	for n, k := range t.words {
		if o, ok := seen[k]; ok {
			g.fail("%q and %q are the same kind of token", n, o)
		}
		seen[k] = n
	}
	for n, k := range t.classes {
		if o, ok := seen[k]; ok {
			g.fail("%s and %q are the same kind of token", n, o)
		}
		seen[k] = n
	}
	for n, k := range t.words {
		if parser.IsKeywordToken(k) != wordByte(n[0]) {
			g.fail("%q is taken as a keyword: %v", n, parser.IsKeywordToken(k))
		}
	}
	for n, k := range t.classes {
		if parser.IsKeywordToken(k) {
			g.fail("%s is taken as a keyword", n)
		}
	}
	if g.pct(35) {
		g.lexProgram()
		return
	}

	// a sequence of tokens
	var toks []Tok
	var want []lexTok
	k := g.u(14)
	if g.rarely() {
		k = g.many(500)
		g.tag("long")
	}
	divisible := false
	for i := 0; i < k; i++ {
		s, ks := "", []int{}
		operand := false
		switch g.weighted(50, 40, 10) {
		case 0:
			c := g.pick(tokenClassNames)
			if c == "regexp" && divisible {
				c = "variable"
			}
			s, ks = g.pick(tokenClasses[c]), []int{t.classes[c]}
			operand = true
		case 1:
			s = g.pick(operatorTokens)
			if s == "/" && !divisible {
				s = "="
			}
			ks = []int{t.words[s]}
			operand = s == ")" || s == "]"
		default:
			s = g.pick(allKeywords)
			ks = []int{t.words[s]}
		}
		divisible = operand
		n := &Node{K: KName}
		toks = append(toks, Tok{T: s, Starts: []*Node{n}, Ends: []*Node{n}})
		want = append(want, lexTok{kinds: ks, text: s})
	}
	bad := -1
	if g.pct(20) {
		bad = g.u(k + 1)
		n := &Node{K: KName}
		x := g.pick([]string{"^", "&", "\\", "`", "é", "😀", "\u0001", "~", "'abc", "\"x", "/* x", "::1", "$:x", "1a", "@()", "@(x"})
		if x == "/* x" && bad > 0 && toks[bad-1].T == "|" {
			x = "^" // a comment is seen already when a bar is
		}
		toks = append(toks[:bad:bad], Tok{T: x, Starts: []*Node{n}, Ends: []*Node{n}, NeedWS: true})
		want = append(want[:bad:bad], lexTok{text: x})
		g.tag("illegal text")
	}
	src := layout(g, toks, g.newLayout(), false)
	for i := range want {
		n := toks[i].Starts[0]
		want[i].off, want[i].end = n.Off, n.End
	}
	if bad >= 0 {
		src = src[:want[bad].end] // the illegal text is the last
	}
	g.note("%q", src)
	g.lex(src, want, bad)
	if k > 4 {
		g.count(src)
	}
}

// fixKinds sets the kinds of tokens that depend on what precedes them
func fixKinds(t *kindTable, src string, want []lexTok) {
	for i := range want {
		w := &want[i]
		switch w.text {
		case "[":
			if w.off == 0 || i > 0 && want[i-1].end < w.off || i == 0 {
				w.kinds = []int{t.words["["]}
			} else {
				w.kinds = []int{t.access}
			}
		case "(":
			w.kinds = []int{t.call}
			if strings.Contains(src, "@(") {
				w.kinds = append(w.kinds, t.words["("])
			} else if i == 0 || breaksLine(src[want[i-1].end:w.off]) {
				w.kinds = []int{t.words["("]}
			}
		case "{":
			if i > 0 && want[i-1].text == "?" {
				w.kinds = []int{t.selector}
			}
		case "|":
			w.kinds = []int{t.words["|"], t.endsParams}
		}
	}
}

// breaksLine is true if white space has a line break that is not in a comment
func breaksLine(s string) bool {
	for len(s) > 0 {
		if strings.HasPrefix(s, "/*") {
			s = s[2:]
			s = s[strings.Index(s, "*/")+2:]
			continue
		}
		if s[0] == '\n' {
			return true
		}
		if s[0] == '#' {
			return strings.Contains(s, "\n")
		}
		s = s[1:]
	}
	return false
}

// lex checks the tokens of a text
func (g *G) lex(src string, want []lexTok, bad int) {
	t := kinds()
	fixKinds(t, src, want)
	l := parser.NewSimpleLexer("f.pp", src)
	located := func(r any, off, end int, what string) {
		rep, ok := r.(issue.Reported)
		if !ok {
			g.fail("%s: not an error but %T: %v\n--- text\n%s", what, r, r, src)
		}
		loc := rep.Location()
		for i := off; i <= end; i++ {
			if ln, c := lineCol(src, i); ln == loc.Line() && c == loc.Pos() && loc.File() == "f.pp" {
				return
			}
		}
		ln, c := lineCol(src, off)
		g.fail("%s: the error is located at %s:%d:%d, should be f.pp:%d:%d\n%v\n--- text\n%s", what, loc.File(), loc.Line(), loc.Pos(), ln, c, rep, src)
	}
	next := func(i int, w lexTok, lenient bool) {
		var k int
		if r := g.panics(func() { k = l.NextToken() }); r != nil {
			g.fail("token %d, %q at %d, is rejected: %v\n--- text\n%s", i, w.text, w.off, r, src)
		}
		if l.CurrentToken() != k {
			g.fail("the current token is %d, the next was %d\n--- text\n%s", l.CurrentToken(), k, src)
		}
		ks := w.kinds
		if lenient {
			switch w.text {
			case "(":
				ks = []int{t.call, t.words["("]}
			case "{":
				ks = []int{t.selector, t.words["{"]}
			}
		}
		if !has(ks, k) {
			g.fail("token %d, %q at %d, is of kind %d, should be %d\n--- text\n%s", i, w.text, w.off, k, w.kinds, src)
		}
		switch {
		case g.pct(4):
			g.tag("AssertToken")
			if r := g.panics(func() { l.AssertToken(k) }); r != nil {
				g.fail("token %d, %q, is not what it is: %v\n--- text\n%s", i, w.text, r, src)
			}
			if g.pct(20) && !strings.HasPrefix(w.text, "part of") {
				located(g.panics(func() { l.AssertToken(k + 1) }), w.off, w.off, "AssertToken")
				l.SetPos(w.end)
			}
		case g.pct(3):
			g.tag("SyntaxError")
			r := g.panics(l.SyntaxError)
			located(r, w.off, w.end, "SyntaxError")
		}
	}
	for i, w := range want {
		if i == bad {
			end := w.end
			r := g.panics(func() { l.NextToken() })
			if r == nil {
				g.fail("text %q at %d is taken as a token of kind %d\n--- text\n%s", w.text, w.off, l.CurrentToken(), src)
			}
			located(r, w.off, end, "illegal text")
			return
		}
		next(i, w, false)
	}
	for i := 1 + g.n(3); i > 0; i-- {
		if k := l.NextToken(); k != t.end {
			g.fail("a token of kind %d after the end\n--- text\n%s", k, src)
		}
	}
	for n := g.n(3); n > 0 && len(want) > 0; n-- {
		// read again from a place
		i := g.u(len(want))
		if strings.HasPrefix(want[i].text, "/") || strings.HasPrefix(want[i].text, "|") || strings.HasPrefix(want[i].text, "part of") || strings.Contains(src, "@(") {
			continue
		}
		if i == 0 {
			l.SetPos(0)
		} else {
			l.SetPos(want[i-1].end)
		}
		g.tag("SetPos")
		m := len(want)
		if g.bool() {
			m = i + 1 + g.u(m-i)
		}
		for j := i; j < m; j++ {
			next(j, want[j], true)
		}
		if m == len(want) {
			if k := l.NextToken(); k != t.end {
				g.fail("a token of kind %d after the end\n--- text\n%s", k, src)
			}
		}
	}
}

// lexProgram checks the tokens of a program. What each is when it stands alone tells the kinds.
func (g *G) lexProgram() {
	g.tag("program")
	t := kinds()
	p := g.anyProgram()
	g.layout = g.newLayout()
	pr := &Printer{g: g}
	pr.node(p)
	inner := func(s string) bool { return strings.HasPrefix(s, "\"") && strings.Contains(s, "$") }
	for i := range pr.toks {
		if inner(pr.toks[i].T) {
			return
		}
	}
	nodes := make([]*Node, len(pr.toks))
	for i := range pr.toks {
		nodes[i] = &Node{K: KName}
		pr.toks[i].Starts = append(pr.toks[i].Starts, nodes[i])
		pr.toks[i].Ends = append(pr.toks[i].Ends, nodes[i])
	}
	src := layout(g, pr.toks, g.layout, false)
	g.note("%q", src)
	var want []lexTok
	for i := range pr.toks {
		tok := pr.toks[i]
		off, end := nodes[i].Off, nodes[i].End
		if tok.Semi > 0 {
			want = append(want, lexTok{[]int{t.words[";"]}, tok.Semi - 1, tok.Semi, ";"})
		}
		if tok.Body != "" {
			want = append(want, lexTok{[]int{t.classes["string"]}, off, end, "heredoc"})
			continue
		}
		if tok.T == "/" {
			want = append(want, lexTok{[]int{t.words["/"]}, off, end, "/"})
			continue
		}
		l := parser.NewSimpleLexer("x", tok.T)
		var ks []int
		for k := l.NextToken(); k != t.end; k = l.NextToken() {
			ks = append(ks, k)
		}
		if len(ks) == 1 {
			want = append(want, lexTok{ks, off, end, tok.T})
			continue
		}
		for _, k := range ks {
			w := lexTok{[]int{k}, off, end, "part of " + tok.T}
			want = append(want, w)
		}
	}
	g.lex(src, want, -1)
	if len(want) > 10 {
		g.count(src)
	}
}

func init() {
	register(&Prop{id: "C23", quick: 80000, thorough: 1500000, check: checkC23,
		rule: "random sequences of tokens and the tokens of random programs, with random layout, some followed by illegal text; the kinds are learnt from tokens that stand alone; non-trivial: more than four tokens (ten in a program); distinct by text"})
}
