package main

import (
	"fmt"
	"regexp"
	"strconv"
	"strings"
	"unicode/utf8"

	"github.com/lyraproj/issue/issue"
	"github.com/lyraproj/puppet-parser/parser"
)

// C10: nothing is ignored

func balanced(toks []Tok) bool {
	var stack []string
	pairs := map[string]string{")": "(", "]": "[", "}": "{"}
	for _, t := range toks {
		switch t.T {
		case "(", "[", "{":
			stack = append(stack, t.T)
		case ")", "]", "}":
			if len(stack) == 0 || stack[len(stack)-1] != pairs[t.T] {
				return false
			}
			stack = stack[:len(stack)-1]
		}
	}
	return len(stack) == 0
}

var heads = map[string]bool{"class": true, "define": true, "node": true, "if": true, "unless": true, "case": true, "inherits": true, "elsif": true, "else": true, "and": true, "or": true, "in": true, "<|": true, "<<|": true, "@": true, "@@": true}

// mustReject parses text that is not a program
func (g *G) mustReject(src, why string, single bool, opts ...parser.Option) error {
	g.note("%q", src)
	e, err := parser.CreateParser(opts...).Parse("f.pp", src, single)
	if err == nil {
		g.fail("%s is accepted\n--- source\n%q\n%s\n--- parsed\n%s", why, src, src, e.ToPN())
	}
	g.locationInside(src, err)
	if strings.HasPrefix(why, "the form ") {
		why = "a wrong form"
	}
	g.tag(why)
	g.count(src)
	return err
}

var offsetMsg = regexp.MustCompile(`^(illegal null|invalid unicode) character at offset (\d+)$`)

// locationInside checks that an error has a location in the source
func (g *G) locationInside(src string, err error) {
	r, ok := err.(issue.Reported)
	if !ok {
		// there is no line and column in something that is no text
		m := offsetMsg.FindStringSubmatch(err.Error())
		if m == nil {
			g.fail("the error is a %T without offset: %v\n--- source\n%q", err, err, src)
		}
		i, _ := strconv.Atoi(m[2])
		if i >= len(src) || m[1] == "illegal null" && src[i] != 0 || m[1] != "illegal null" && src[i] < utf8.RuneSelf {
			g.fail("wrong offset: %v\n--- source\n%q", err, src)
		}
		return
	}
	loc := r.Location()
	lines := strings.Split(src, "\n")
	if loc == nil || loc.Line() < 1 || loc.Line() > len(lines) || loc.Pos() < 1 || loc.Pos() > utf8.RuneCountInString(lines[loc.Line()-1])+1 {
		g.fail("the location is outside of the source: %v\n--- source\n%q", err, src)
	}
}

var slot = regexp.MustCompile(`\bE2?\b`)

// wrongForm is a statement that cannot be in any program, and why
func (g *G) wrongForm(steps bool) (src, form string) {
	form = g.pick(wrongForms)
	if steps {
		form = g.pick(wrongSteps)
	}
	src = slot.ReplaceAllStringFunc(form, func(string) string {
		g.budget = 1 + g.n(5)
		e := g.expr(lvPrim)
		finish(e)
		s := g.Print(e, Layout{}, true)
		if strings.Contains(s, "@(") || strings.ContainsAny(s, "#\n") {
			return "$v"
		}
		return s
	})
	return
}

// checkWrongForm puts such a statement into a program
func (g *G) checkWrongForm() {
	opts := g.options()
	steps := g.pct(25)
	if steps {
		g.workflow = true
		opts = append(opts, parser.WorkflowEnabled)
	}
	src, form := g.wrongForm(steps)
	// followed by something that cannot complete it
	if !strings.ContainsAny(form, "'\"/`") && !strings.HasSuffix(form, "$") && !strings.HasSuffix(form, "@(A") && !strings.HasSuffix(form, ";") && g.bool() {
		src += "\n;\n$z = 1"
		if g.bool() {
			w := blocks[g.u(len(blocks))]
			src = w[0] + "\n" + src + "\n" + w[1]
		}
	}
	if p := g.piece(opts); p != nil && g.bool() {
		src = p.src + "\n;\n" + src
	}
	g.mustReject(src, "the form "+form, false, opts...)
}

func checkC10(g *G) {
	if g.pct(15) {
		g.checkWrongForm()
		return
	}
	p := g.anyProgram()
	kind := g.n(8)
	ok := false
	why := ""
	g.mark = &Node{K: KNop, Off: -1, End: -1}
	cutTok := (*Tok)(nil)
	g.breaker = func(ts []Tok, inner bool) []Tok {
		if inner {
			return ts
		}
		switch kind {
		case 0, 1: // only the first tokens
			k := g.n(len(ts) + 1)
			r := ts[:k:k]
			why = "a program that ends too early"
			last := ""
			if k > 0 {
				last = r[k-1].T
			}
			ok = !balanced(r) || afterOp[last] || heads[last]
			return r
		case 2: // without some of the tokens
			if len(ts) == 0 {
				return ts
			}
			i := g.n(len(ts))
			k := 1
			if g.bool() {
				k += g.n(len(ts) - i)
			}
			r := append(ts[:i:i], ts[i+k:]...)
			why = "a program that lacks brackets"
			ok = !balanced(r) && plainTokens(r)
			return r
		case 3: // with more brackets, or others
			i := g.n(len(ts) + 1)
			b := g.pick([]string{"(", ")", "[", "]", "{", "}"})
			if g.pct(40) { // something else instead of a bracket
				var at []int
				for k, t := range ts {
					if strings.Contains("()[]{}", t.T) && t.T != "" {
						at = append(at, k)
					}
				}
				if len(at) > 0 {
					i = at[g.u(len(at))]
					b = g.pick([]string{";", ",", ":", "=>", "|", ".", "=", "?", "x", "'y'", "(", ")", "[", "]", "{", "}"})
					r := append(append(ts[:i:i], Tok{T: b, NeedWS: true}), ts[i+1:]...)
					why = "a program with something else instead of a bracket"
					ok = !balanced(r) && plainTokens(r)
					return r
				}
			}
			var r []Tok
			r = append(r, ts[:i]...)
			r = append(r, Tok{T: b, NeedWS: true})
			if g.bool() && i < len(ts) {
				i++
			}
			r = append(r, ts[i:]...)
			why = "a program with wrong brackets"
			ok = !balanced(r) && plainTokens(r)
			return r
		case 4, 5: // cut in the middle of a token
			var at []int
			for i, t := range ts {
				if len(t.T) > 1 && (t.T[0] == '"' || t.T[0] == '\'' || t.Body != "") {
					at = append(at, i)
				}
			}
			if len(at) > 0 {
				cutTok = &ts[at[g.n(len(at))]]
				cutTok.Starts = append(cutTok.Starts, g.mark)
				ok = true
			}
		}
		return ts
	}
	src := g.Print(p, g.newLayout(), false)
	opts := g.options()
	switch kind {
	case 0, 1, 2, 3:
		if ok {
			g.mustReject(src, why, false, opts...)
		}
	case 4, 5:
		if !ok {
			return
		}
		if cutTok.Body != "" {
			i := strings.Index(src[g.mark.Off:], cutTok.Body)
			if i < 0 {
				return
			}
			start := g.mark.Off + i
			marker := strings.TrimRight(cutTok.Body, "\n")
			cut := start + g.n(len(marker))
			for !utf8.RuneStart(src[cut]) {
				cut--
			}
			if g.pct(20) {
				cut = g.mark.Off + 1 + g.n(len(cutTok.T)-1)
				if cut == g.mark.Off+1 {
					cut++
				}
			}
			line := src[strings.LastIndexByte(src[:cut], '\n')+1 : cut]
			if strings.Trim(line, " \t|-") == strings.Trim(strings.TrimSuffix(strings.TrimPrefix(cutTok.T, "@("), ")"), " ") {
				return // ends with a marker after all
			}
			g.mustReject(src[:cut], "a heredoc that ends too early", false, opts...)
			return
		}
		cut := g.mark.Off + 1 + g.n(len(cutTok.T)-1)
		for !utf8.RuneStart(src[cut]) {
			cut--
		}
		g.mustReject(src[:cut], "a string that ends too early", false, opts...)
	case 6: // bytes that are not text
		bad := g.pick([]string{"\x00", "\x00", "\xff", "\xc0\x80", "\xed\xa0\x80", "\xe2\x82", "\x80", "\xf8\x88\x80\x80\x80"})
		i := g.n(len(src) + 1)
		for i < len(src) && !utf8.RuneStart(src[i]) {
			i++
		}
		if g.pct(20) {
			i = len(src)
		}
		s := src[:i] + bad + src[i:]
		err := g.mustReject(s, "a source with bytes that are no text", false, opts...)
		if want := fmt.Sprintf(" at offset %d", i); !strings.HasSuffix(err.Error(), want) {
			g.fail("the error should be%s: %v\n--- source\n%q", want, err, s)
		}
	case 7: // more than one expression
		s := p.A.L[0]
		if s.K == KCall && (s.Op == "stmt" || s.Op == "hash") {
			return
		}
		s.Flag = s.Flag && s.K != KCall
		g.breaker = nil
		src := g.Print(s, g.newLayout(), true)
		if strings.LastIndexByte(src, '#') >= 0 || s.K == KStep {
			src += "\n"
		}
		if s.K == KTypeAlias || s.K == KTypeMapping {
			return
		}
		junk := g.pick([]string{" 1", " 'x'", " $v", " \"y\"", " true", " )", " ]", " }", " =>", " ,", " |>", " ^", " undef", " if 1 {}", " class a {}", ";", "; 1", ", 1"})
		if strings.HasPrefix(junk, " 1") && s.K == KVar {
			junk = " 'x'"
		}
		g.mustReject(src+junk, "text after the expression", true, opts...)
	}
}

// plainTokens tells if brackets in the tokens are brackets whatever is around them
func plainTokens(ts []Tok) bool {
	for _, t := range ts {
		if t.T == "/" || t.T == "*" || t.T == "@" || t.T == "@@" || strings.HasPrefix(t.T, "/") {
			return false
		}
	}
	return true
}

func init() {
	register(&Prop{id: "C10", quick: 40000, thorough: 800000, check: checkC10,
		rule: "random programs that are cut between tokens, in strings or in heredocs, that lack tokens or have additional ones so that brackets are not balanced, that contain bytes which are no text, or that are followed by more text when a single expression is asked for; all must be rejected with a location inside of the source; non-trivial: every such text; distinct by text"})
}
