package main

import (
	"fmt"
	"regexp"
	"strings"

	"github.com/lyraproj/puppet-parser/parser"
)

// C05: heredocs

var heredocTags = []string{"END", "A", "EOT", "END OF TEXT", "a", "x-y", "É", "日本", "1", "E.N*D", "END_", "[x]", "#", "//"}
var heredocSyntaxes = []string{"json", "yaml", "pp", "x y", "é"}
var heredocWords = []string{"hello", "x", "", " ", "a 'b", "\"q\"", "/* c", "*/", "# d", "{", "}", "é", "😀", "| z", "|", "-", "@(END)", "%>", "<%", "0", "\t", "''", "`", ",", "END", "//"}

type herePiece struct {
	src, val string
	node     *Node
}

// heredoc generates a heredoc with everything that the language has to offer. The value is put together from the pieces
// while they are generated
func (g *G) heredoc() *Node {
	tag := g.pick(heredocTags)
	quoted := g.bool()
	n := &Node{K: KHeredoc}
	spell := tag
	if quoted || strings.ContainsAny(tag, "/") {
		quoted = true
		spell = `"` + tag + `"`
		if g.pct(10) {
			spell = " " + spell + " "
		}
	}
	if g.pct(30) {
		n.S = g.pick(heredocSyntaxes)
		spell += ":" + n.S
	}
	flags := ""
	if g.pct(50) {
		for _, f := range []string{"t", "r", "n", "s", "u", "$", "L"} {
			if g.pct(40) {
				flags += f
			}
		}
		if b := []byte(flags); len(b) > 1 && g.bool() {
			for i := range b {
				j := g.n(len(b))
				b[i], b[j] = b[j], b[i]
			}
			if g.pct(20) {
				b = append(b, b[g.n(len(b))]) // given twice
			}
			flags = string(b)
		}
		if flags != "" {
			spell += "/" + flags
		}
	}
	n.Src = spell
	nl := "\n"
	if g.pct(15) && !strings.Contains(flags, "L") {
		nl = "\r\n"
		g.tag("CRLF")
	}
	dash := g.bool()
	bar := g.pct(60)
	margin := 0
	if bar {
		margin = g.n(4)
		if g.pct(10) {
			margin = g.n(24)
		}
		if margin > 0 {
			g.tag("margin")
		}
	}
	blanks := func(k int) string {
		var b strings.Builder
		for ; k > 0; k-- {
			b.WriteString(g.pick([]string{" ", " ", " ", "\t"}))
		}
		return b.String()
	}
	// the marker, as the documentation describes it: an optional bar, an optional dash and the tag
	marker := regexp.MustCompile(`^[ \t\r]*(\|[ \t\r]*)?(-[ \t\r]*)?` + regexp.QuoteMeta(tag) + `[ \t\r]*$`)

	// body
	var src, val strings.Builder // since the last interpolation
	var parts []*Node
	lines := g.n(5)
	if g.rarely() {
		lines = g.many(150)
		g.tag("long")
	}
	joined := false
	for i := 0; i < lines; i++ {
		indent := blanks(g.rng(0, 6))
		if bar && g.pct(60) {
			indent = blanks(margin) + blanks(g.n(2))
		}
		var ps []herePiece
		if g.pct(20) {
			// looks like an end marker
			g.tag("look-alike")
			s := g.pick([]string{tag + "x", tag + " x", "x" + tag, "| " + tag + ".", "- " + tag + " -", "-- " + tag, "|| " + tag, "- | " + tag, tag[:len(tag)-1], "|", "-", "|-", "| -", "." + tag, tag + "|", strings.ToLower(tag) + "_", "|-" + tag + tag})
			if !validUTF8(s) || s == "" {
				s = "|"
			}
			ps = append(ps, herePiece{src: s, val: s})
		} else {
			ps = g.herePieces(quoted, flags)
		}
		var raw strings.Builder
		raw.WriteString(indent)
		for _, p := range ps {
			raw.WriteString(p.src)
			if p.node != nil {
				raw.WriteString("\x00")
			}
		}
		cont := false // ends with a backslash that is not part of an escape sequence
		if g.pct(15) && nl == "\n" && !(dash && i == lines-1 && strings.Contains(flags, "L")) {
			cont = true
			raw.WriteString(`\`)
		}
		if marker.MatchString(raw.String()) {
			ps = append([]herePiece{{src: ":", val: ":"}}, ps...)
		}
		if len(indent) < margin && len(ps) > 0 && ps[0].node == nil && (ps[0].src[0] == ' ' || ps[0].src[0] == '\t') {
			ps = append([]herePiece{{src: ".", val: "."}}, ps...)
		}
		src.WriteString(indent)
		if margin > 0 && len(indent) >= margin {
			val.WriteString(indent[margin:])
		} else {
			val.WriteString(indent)
		}
		for _, p := range ps {
			if p.node != nil {
				if val.Len() > 0 {
					parts = append(parts, &Node{K: KStr, S: val.String(), Src: src.String(), Syn: true})
				} else {
					p.node.Src = src.String()
				}
				src.Reset()
				val.Reset()
				parts = append(parts, p.node)
				continue
			}
			src.WriteString(p.src)
			val.WriteString(p.val)
		}
		joined = false
		if cont {
			src.WriteString(`\`)
			if strings.Contains(flags, "L") {
				joined = true
				g.tag("joined lines")
			} else {
				val.WriteString(`\`)
			}
		}
		src.WriteString(nl)
		if !joined {
			val.WriteString(nl)
		}
	}
	tail := src.String()
	v := val.String()
	if dash && lines > 0 {
		v = strings.TrimSuffix(v, nl)
	}
	end := blanks(margin)
	if bar {
		end += "|" + blanks(g.n(2))
	} else {
		end = blanks(g.n(4))
	}
	if dash {
		end += "-" + blanks(g.n(2))
	}
	end += tag
	if g.pct(15) {
		end += blanks(1 + g.n(2))
	}
	end += nl
	n.Op = end
	if len(parts) == 0 {
		n.A = &Node{K: KStr, S: v, Src: tail, Syn: true}
	} else {
		g.tag("interpolation")
		if v != "" {
			parts = append(parts, &Node{K: KStr, S: v, Src: tail, Syn: true})
		} else {
			n.Op = tail + n.Op
		}
		n.A = &Node{K: KConcat, L: parts, Syn: true}
	}
	if flags != "" {
		g.tag("flags")
	}
	if quoted {
		g.tag("quoted tag")
	}
	return n
}

func validUTF8(s string) bool { return strings.ToValidUTF8(s, "") == s }

func (g *G) herePieces(quoted bool, flags string) (ps []herePiece) {
	afterVar := false
	add := func(src, val string) {
		if afterVar && src != "" && (wordByte(src[0]) || src[0] == ':') {
			ps = append(ps, herePiece{src: " ", val: " "})
		}
		afterVar = false
		ps = append(ps, herePiece{src: src, val: val})
	}
	for i := g.n(5); i > 0; i-- {
		switch k := g.n(10); {
		case k < 4:
			w := g.pick(heredocWords)
			if w != "" {
				add(w, w)
			}
		case k < 5:
			s := strings.Map(func(r rune) rune {
				if r == '\n' || r == '\r' || r == '\\' || r == '$' && quoted || r == '`' {
					return '.'
				}
				return r
			}, g.text(6))
			if s != "" {
				add(s, s)
			}
		case k < 6 && !quoted:
			s := g.pick([]string{"$", "${", "${x}", "$x", "$$"})
			add(s, s)
		case k < 8 && quoted:
			t := g.interpolation()
			ps = append(ps, herePiece{node: t})
			afterVar = t.Op == "$"
		default:
			c := g.pick([]string{"t", "r", "n", "s", "u", "$", "\\", "x", "'", "\"", "é", "L", " ", "/", "0"})
			on := strings.Contains(flags, c) && c != "L"
			switch {
			case on && c == "u":
				r := []rune{'a', 'é', '😀', '$', '\\', '\n', 'u', '\u2028', 1}[g.n(9)]
				s := fmt.Sprintf(`\u{%02x}`, r)
				if r <= 0xffff && g.bool() {
					s = fmt.Sprintf(`\u%04x`, r)
				}
				add(s, string(r))
			case on:
				add(`\`+c, map[string]string{"t": "\t", "r": "\r", "n": "\n", "s": " ", "$": "$"}[c])
			case c == "$" && quoted:
				// an interpolation all the same
				add(`\`, `\`)
				ps = append(ps, herePiece{node: g.interpolation()})
				afterVar = ps[len(ps)-1].node.Op == "$"
			default:
				add(`\`+c, `\`+c)
			}
		}
	}
	return
}

func (g *G) hereLeaf() *Node {
	if g.inInterp {
		switch g.n(3) {
		case 0:
			return g.variable()
		case 1:
			return mkInt(int64(g.n(10)))
		}
		return mkStr(g.pick([]string{"", "a", "it's", "{", "}", "|", "#"}))
	}
	switch g.n(8) {
	case 0:
		return g.variable()
	case 1:
		return mkStr(g.pick([]string{"", "a", "it's", "@(END)", "\"", "/*", "#", "END", "a\nb", "\\"}))
	case 2:
		return &Node{K: KStr, S: "x\"y", Src: `"x\"y"`}
	case 3:
		return g.name()
	}
	saved, lg := g.inInterp, g.leafGen
	g.inInterp, g.noHeredoc = true, true
	defer func() { g.inInterp, g.noHeredoc = saved, false }()
	oneLine := g.oneLine
	g.oneLine = true
	defer func() { g.oneLine = oneLine; g.leafGen = lg }()
	return g.heredoc()
}

var badTags = []string{"@()", `@("")`, "@(A:x:y)", "@(A/t/n)", `@("A""B")`, "@(A/x)", "@(A/tq)", "@(A", `@("A)`, "@(:json)", "@(/t)", `@("A"b)`, `@(b"A")`, "@(A/t:s)", "@(A\n)", "@(\"A\n\")", "@(A/ t)", "@(A/T)"}

func checkC05(g *G) {
	g.leafGen = g.hereLeaf
	g.budget = 1 + g.n(12)
	n := g.numExpr(lvRel, 0)
	p := mkProgram(n)
	if g.bool() {
		g.budget = 1 + g.n(8)
		m := g.safeStmt(g.numExpr(lvRel, 0))
		p.A.L = append(p.A.L, m)
	}
	finish(p)
	var heres []*Node
	p.Walk(func(c *Node, _ []*Node) {
		if c.K == KHeredoc {
			heres = append(heres, c)
		}
	})
	if len(heres) == 0 {
		return
	}
	bad := g.n(100)
	if bad == 99 {
		h := heres[g.n(len(heres))]
		spell := g.pick(badTags)
		h.Src, h.S = strings.TrimSuffix(strings.TrimPrefix(spell, "@("), ")"), "bad"
		if strings.HasPrefix(spell, "@(") && !strings.HasSuffix(spell, ")") {
			h.Src += "\n"
		}
		h.Op = "A\n"
		src := g.Print(p, g.newLayout(), false)
		g.note("%q", src)
		e, err := parser.CreateParser().Parse("f.pp", src, false)
		if err == nil {
			g.fail("a malformed heredoc tag is accepted\n--- source\n%s\n--- tag\n%s\n--- parsed\n%s", src, spell, e.ToPN())
		}
		g.tag("malformed tag")
		g.count(src)
		return
	}
	if bad >= 94 && bad < 97 {
		// the source ends in a tag
		h := heres[g.n(len(heres))]
		src := g.Print(p, g.newLayout(), false)
		src = src[:h.Off+1+g.u(2+len(h.Src))]
		g.note("%q", src)
		e, err := parser.CreateParser().Parse("f.pp", src, false)
		if err == nil {
			g.fail("a source that ends in a heredoc tag is accepted\n--- source\n%s\n--- parsed\n%s", src, e.ToPN())
		}
		g.tag("ends in a tag")
		g.count(src)
		return
	}
	if bad >= 97 && len(heres) == 1 {
		heres[0].Op = ""
	}
	src := g.Print(p, g.newLayout(), false)
	if len(heres) == 1 && heres[0].Op == "" {
		// without the marker
		if hasMarker(src[heres[0].Off:], heres[0].Src) {
			return
		}
		g.note("%q", src)
		e, err := parser.CreateParser().Parse("f.pp", src, false)
		if err == nil {
			g.fail("an unterminated heredoc is accepted\n--- source\n%s\n--- parsed\n%s", src, e.ToPN())
		}
		l, c := lineCol(src, heres[0].Off)
		g.checkLocation(src, err, "f.pp", l, c)
		g.tag("unterminated")
		g.count(src)
		return
	}
	if strings.HasSuffix(src, "\n") && g.pct(30) {
		src = strings.TrimSuffix(strings.TrimSuffix(src, "\n"), "\r")
	}
	e := g.parse(src, false)
	g.checkTree(p, src, e)
	if len(heres) > 1 {
		g.tag("several heredocs")
	}
	g.count(src)
}

// hasMarker is a coarse test for text that could end a heredoc
func hasMarker(s, spell string) bool {
	spell = strings.Trim(strings.SplitN(strings.SplitN(spell, ":", 2)[0], "/", 2)[0], " \"")
	return spell == "" || strings.Contains(s[3+len(spell):], spell)
}

func init() {
	register(&Prop{id: "C05", quick: 40000, thorough: 800000, check: checkC05,
		rule: "random expressions with heredocs (all tags, flags, margins, line ends, look-alikes of end markers, interpolations) in all kinds of places, several on a line and with more code after the tag; now and then a malformed tag or a missing end marker; non-trivial: at least one heredoc; distinct by source text"})
}

// richHeredoc is a heredoc of any kind as part of other expressions
func (g *G) richHeredoc() *Node {
	saved, here, oneLine := g.inInterp, g.noHeredoc, g.oneLine
	defer func() { g.inInterp, g.noHeredoc, g.oneLine = saved, here, oneLine }()
	g.inInterp, g.noHeredoc, g.oneLine = true, true, true
	g.tag("rich heredoc")
	return g.heredoc()
}
