package main

import (
	"strconv"
	"strings"
	"unicode/utf8"
)

// Tok is one token of generated source together with the layout constraints of the language.
type Tok struct {
	T      string
	Starts []*Node
	Ends   []*Node
	Inner  []*Node // nodes with offsets relative to the start of this token
	Glue   bool    // no white space before
	NoNL   bool    // not first on its line
	NeedWS bool    // white space before
	List   bool    // an opening bracket of a list
	Paren  bool    // an opening parenthesis that is not a call
	Stmt   bool    // first token of a statement that follows another
	Raw    bool    // EPP text, no white space on either side
	Semi   int     // offset after a semicolon that the layout has put before
	Body   string  // heredoc body, placed after the end of the line
	BodyIn []*Node // nodes with offsets relative to the start of the body
	BodyEn []*Node
}

type Printer struct {
	g     *G
	toks  []Tok
	open  []*Node
	flags struct{ glue, noNL, needWS, list, paren, stmt bool }
	plain bool // no optional commas or semicolons
	sub   bool // in an interpolation
}

func (p *Printer) t(s string) {
	t := Tok{T: s, Starts: p.open, Glue: p.flags.glue, NoNL: p.flags.noNL, NeedWS: p.flags.needWS, List: p.flags.list, Paren: p.flags.paren, Stmt: p.flags.stmt}
	p.open = nil
	p.flags.glue, p.flags.noNL, p.flags.needWS, p.flags.list, p.flags.paren, p.flags.stmt = false, false, false, false, false, false
	p.toks = append(p.toks, t)
}

func (p *Printer) comma(close string) {
	if !p.plain && p.g.pct(15) {
		p.t(",")
	}
	p.t(close)
}

func (p *Printer) list(ns []*Node) {
	for i, n := range ns {
		if i > 0 {
			p.t(",")
		}
		p.node(n)
	}
}

func (p *Printer) node(n *Node) {
	if n.Syn && n.K == KHash { // keyed entries without braces
		start := len(p.toks)
		p.open = append(p.open, n)
		p.list(n.L)
		_ = start
		p.end(n)
		return
	}
	p.open = append(p.open, n)
	p.body(n)
	p.end(n)
}

func (p *Printer) end(n *Node) {
	if l := len(p.toks); l > 0 {
		p.toks[l-1].Ends = append(p.toks[l-1].Ends, n)
	}
}

func (p *Printer) block(n *Node) {
	p.t("{")
	p.stmts(n)
	p.t("}")
}

func (p *Printer) stmts(n *Node) {
	if p.g.epp && !p.sub {
		p.sections(n)
		return
	}
	if len(n.L) > 0 {
		p.open = append(p.open, n)
	}
	for i, s := range n.L {
		if i > 0 {
			p.flags.stmt = true
		}
		p.node(s)
		if !p.plain && p.g.pct(12) {
			p.t(";")
		}
	}
	if len(n.L) > 0 {
		p.end(n)
	}
}

func (p *Printer) params(ps []*Node, open, close string) {
	p.t(open)
	p.list(ps)
	if len(ps) > 0 {
		p.comma(close)
	} else {
		p.t(close)
	}
}

func (p *Printer) ops(ops []*Node) {
	p.list(ops)
	if len(ops) > 0 && !p.plain && p.g.pct(20) {
		p.t(",")
	}
}

func (p *Printer) defHead(n *Node, kw string) {
	p.t(kw)
	p.t(n.S)
	if len(n.L) > 0 || n.Flag {
		if p.g.pct(50) {
			p.params(n.L, "(", ")")
		} else {
			p.flags.needWS = true
			p.params(n.L, "(", ")")
		}
	}
}

func (p *Printer) ret(n *Node) {
	if n != nil {
		p.t(">>")
		p.node(n)
	}
}

func endsOperand(t string) bool {
	if t == "" {
		return false
	}
	c := t[len(t)-1]
	switch {
	case c == ')' || c == ']' || c == '\'' || c == '"' || c == '`' || c == '/' && len(t) > 1, c == '_':
		return true
	case c >= '0' && c <= '9' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z':
		return true
	}
	return false
}

func (p *Printer) body(n *Node) {
	switch n.K {
	case KInt, KFloat, KStr, KRegexp, KName, KRef, KReserved, KBool, KUndef, KDefault:
		if n.Src != "" {
			p.t(n.Src)
		} else {
			p.t(n.S)
		}
	case KVar:
		switch {
		case n.Op == "bare":
			p.t(n.S)
		case n.Flag:
			p.t("$" + strconv.FormatInt(n.I, 10))
		default:
			p.t("$" + n.S)
		}
	case KConcat:
		p.t("")
		tk := &p.toks[len(p.toks)-1]
		tk.T, tk.Inner = p.concat(n, '"')
	case KHeredoc:
		p.t("@(" + n.Src + ")")
		tk := &p.toks[len(p.toks)-1]
		tk.Body, tk.BodyIn = p.heredocBody(n)
	case KList:
		if n.Op == "returns" {
			p.params(n.L, "(", ")")
			return
		}
		p.flags.list = true
		p.t("[")
		p.list(n.L)
		if len(n.L) > 0 {
			p.comma("]")
		} else {
			p.t("]")
		}
	case KHash:
		p.t("{")
		p.list(n.L)
		if len(n.L) > 0 {
			p.comma("}")
		} else {
			p.t("}")
		}
	case KEntry, KSelEntry:
		p.node(n.A)
		p.t("=>")
		p.node(n.B)
	case KParen:
		p.flags.paren = true
		p.t("(")
		p.node(n.A)
		p.t(")")
	case KBin:
		p.node(n.A)
		p.t(n.S)
		p.node(n.B)
	case KDot:
		p.node(n.A)
		p.t(".")
		p.node(n.B)
	case KNot:
		p.t("!")
		p.node(n.A)
	case KUnfold:
		p.t("*")
		p.node(n.A)
	case KNegate:
		p.t("-")
		i := len(p.toks)
		p.node(n.A)
		if c := p.toks[i].T[0]; c >= '0' && c <= '9' {
			p.toks[i].NeedWS = true // a minus directly before a number belongs to the number
		}
	case KSelector:
		p.node(n.A)
		p.t("?")
		if n.Flag {
			p.node(n.L[0])
		} else {
			p.t("{")
			p.list(n.L)
			p.comma("}")
		}
	case KAccess:
		p.node(n.A)
		p.flags.glue = true
		p.t("[")
		p.list(n.L)
		if len(n.L) > 0 {
			p.comma("]")
		} else {
			p.t("]")
		}
	case KCall, KMethod:
		switch n.Op {
		case "stmt":
			p.node(n.A)
			p.list(n.L)
		case "hash": // notice { a => 1 }
			p.node(n.A)
			p.node(n.L[0])
		default:
			p.node(n.A)
			if n.Op != "lambda" && !(n.K == KMethod && n.Op == "bare") {
				p.flags.noNL = true
				p.t("(")
				p.list(n.L)
				if len(n.L) > 0 {
					p.comma(")")
				} else {
					p.t(")")
				}
			}
			if n.B != nil {
				p.node(n.B)
			}
		}
	case KLambda:
		p.params(n.L, "|", "|")
		p.ret(n.A)
		p.block(n.B)
	case KParam:
		if n.A != nil {
			p.node(n.A)
		}
		if n.Flag {
			p.t("*")
		}
		p.t("$" + n.S)
		if n.B != nil {
			p.t("=")
			p.node(n.B)
		}
	case KIf, KUnless:
		switch {
		case n.Op == "elsif":
			p.t("elsif")
		case n.K == KIf:
			p.t("if")
		default:
			p.t("unless")
		}
		p.node(n.A)
		p.block(n.B)
		switch {
		case n.C.K == KNop:
		case n.C.K == KIf && n.C.Op == "elsif":
			p.node(n.C)
		default:
			p.t("else")
			p.block(n.C)
		}
	case KCase:
		p.t("case")
		p.node(n.A)
		p.t("{")
		for _, o := range n.L {
			p.node(o)
		}
		p.t("}")
	case KOption:
		p.list(n.L)
		p.comma(":")
		p.block(n.B)
	case KResource, KDefaults, KOverride:
		switch n.Op {
		case "virtual":
			p.t("@")
		case "exported":
			p.t("@@")
		}
		p.node(n.A)
		p.t("{")
		if n.K == KResource {
			for i, b := range n.L {
				if i > 0 {
					p.t(";")
				}
				p.node(b)
			}
			if !p.plain && p.g.pct(20) {
				p.t(";")
			}
		} else {
			p.ops(n.L)
		}
		p.t("}")
	case KBody:
		p.node(n.A)
		p.t(":")
		p.ops(n.L)
	case KAttr:
		p.t(n.S)
		p.t(n.Op)
		p.node(n.A)
	case KSplat:
		p.t("*")
		p.t("=>")
		p.node(n.A)
	case KCollect:
		p.node(n.A)
		p.node(n.B)
		if len(n.L) > 0 || n.Flag {
			p.t("{")
			p.ops(n.L)
			p.t("}")
		}
	case KQuery:
		o, c := "<|", "|>"
		if n.Flag {
			o, c = "<<|", "|>>"
		}
		p.t(o)
		if n.A.K != KNop {
			p.node(n.A)
		}
		p.t(c)
	case KClass:
		p.defHead(n, "class")
		if n.Op != "" {
			p.t("inherits")
			p.t(n.Op)
		}
		p.block(n.B)
	case KDefine:
		p.defHead(n, "define")
		p.block(n.B)
	case KApplication:
		p.defHead(n, "application")
		p.block(n.B)
	case KFunction:
		p.defHead(n, "function")
		p.ret(n.C)
		p.block(n.B)
	case KPlan:
		p.defHead(n, "plan")
		p.ret(n.C)
		p.block(n.B)
	case KNode:
		p.t("node")
		p.list(n.L)
		if !p.plain && p.g.pct(10) {
			p.t(",")
		}
		if n.A != nil {
			p.t("inherits")
			p.node(n.A)
		}
		p.block(n.B)
	case KSite:
		p.t("site")
		p.block(n.B)
	case KTypeAlias:
		p.t("type")
		p.t(n.S)
		p.t("=")
		if n.M != nil { // desugared: printed from M
			for _, m := range n.M {
				p.node(m)
			}
		} else {
			p.node(n.A)
		}
	case KTypeMapping:
		p.t("type")
		p.node(n.A)
		p.t("=")
		p.node(n.B)
	case KTypeDef:
		p.t("type")
		p.t(n.S)
		if n.Op != "" {
			p.t("inherits")
			p.t(n.Op)
		}
		p.block(n.B)
	case KCapability:
		p.node(n.A)
		p.t(n.S)
		p.t(n.Op)
		p.t("{")
		p.ops(n.L)
		p.t("}")
	case KStep:
		p.step(n)
	case KProgram:
		p.stmts(n.A)
	case KBlock:
		p.stmts(n)
	default:
		panic("print: kind " + strconv.Itoa(int(n.K)))
	}
}

// concat spells a string with interpolations; the offsets of the nodes in it are relative to its start.
func (p *Printer) concat(n *Node, quote byte) (string, []*Node) {
	var b strings.Builder
	var inner []*Node
	if quote != 0 {
		b.WriteByte(quote)
	}
	for _, s := range n.L {
		if s.K != KText {
			s.Off, s.End = -1, -1 // pieces of text are not tokens
			b.WriteString(s.Src)
			continue
		}
		b.WriteString(s.Src) // text that does not count
		p.interp(s, &b, &inner)
	}
	if quote != 0 {
		b.WriteByte(quote)
	}
	return b.String(), inner
}

// heredocBody spells the lines of a heredoc, including the end marker.
func (p *Printer) heredocBody(n *Node) (string, []*Node) {
	if n.A.K == KConcat {
		s, in := p.concat(n.A, 0)
		return s + n.Op, in
	}
	n.A.Off, n.A.End = -1, -1
	return n.A.Src + n.Op, nil
}

func (p *Printer) interp(s *Node, b *strings.Builder, inner *[]*Node) {
	s.Off = b.Len()
	*inner = append(*inner, s)
	if s.Op == "$" {
		v := s.A
		b.WriteByte('$')
		v.Off = s.Off
		if v.Flag {
			b.WriteString(strconv.FormatInt(v.I, 10))
		} else {
			b.WriteString(v.S)
		}
		v.End = b.Len()
		s.End = b.Len()
		*inner = append(*inner, v)
		return
	}
	b.WriteString("${")
	placed := p.g.mark != nil && p.g.mark.Off >= 0
	sub := &Printer{g: p.g, plain: p.plain, sub: true}
	sub.node(s.A)
	base := b.Len()
	lay := p.g.layout
	text := layout(p.g, sub.toks, lay.forInterp(), true)
	if m := p.g.mark; m != nil && m.Off >= 0 && !placed {
		m.Off += base
		*inner = append(*inner, m)
	}
	b.WriteString(text)
	b.WriteByte('}')
	s.End = b.Len()
	s.A.Walk(func(c *Node, _ []*Node) {
		if c.Off >= 0 {
			c.Off += base
			c.End += base
			*inner = append(*inner, c)
		}
	})
}

// ---------------------------------------------------------------------------------------------
// Layout

type Layout struct {
	inInterp bool // comments and line breaks also inside of interpolations
	mode     int  // 0 minimal, 1 single blanks, 2 blanks and line breaks, 3 everything
	comments bool
	noNL     bool
}

func (l Layout) forInterp() Layout {
	if l.inInterp {
		return l
	}
	if l.mode > 2 {
		l.mode = 2
	}
	l.noNL = true
	l.comments = false
	return l
}

func (g *G) newLayout() Layout {
	m := g.n(10)
	switch {
	case m < 2:
		m = 0
	case m < 4:
		m = 1
	case m < 6:
		m = 2
	default:
		m = 3
	}
	g.hugeAt = 0
	if g.u(100) == 99 {
		g.tag("large layout")
		g.hugeAt = 1 + g.n(40)
		m = 3
		k := g.many(700)
		switch g.n(5) {
		case 0:
			g.huge = strings.Repeat("\n", k)
		case 1:
			g.huge = "#" + strings.Repeat(" é#", k) + "\n"
		case 2:
			g.huge = "/*" + strings.Repeat("* x", k) + "*/"
		case 3:
			g.huge = strings.Repeat(" ", k)
		default:
			g.huge = "#" + strings.Repeat(" # long", 1400*(1+g.n(8))) + "\r\n"
		}
	}
	return Layout{mode: m, comments: m == 3}
}

func wordByte(c byte) bool {
	return c >= '0' && c <= '9' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c == '_'
}

// canTouch is true if b can follow a without anything in between. It may be false although b could.
func canTouch(a, b string) bool {
	if a == "" || b == "" {
		return false
	}
	la, fb := a[len(a)-1], b[0]
	if la >= utf8.RuneSelf || fb >= utf8.RuneSelf {
		return false
	}
	switch a {
	case "(", "[", ",", "{", ";", ")", "]", "}", "=>", "+>":
		return true
	case ".", "?":
		return true
	case "@", "@@":
		return wordByte(fb)
	case ":":
		return fb != ':'
	case "|":
		return fb != '>'
	case "/":
		return wordByte(fb) || fb == '$' || fb == '(' || fb == '\''
	case "<|", "<<|", "|>", "|>>":
		return wordByte(fb) || fb == '$' || fb == '(' || fb == '|' || fb == '{'
	}
	switch b {
	case "(", ")", "]", ",", ";", "}", "{", "[":
		return true
	case "|", "|>", "|>>", "<|", "<<|":
		return wordByte(la) || la == '\'' || la == '"'
	case ":":
		return true
	case "?", "=>", "+>":
		return wordByte(la) || la == '\'' || la == '"'
	case ".":
		return a[0] == '$' && wordByte(la) || a[0] >= 'a' && a[0] <= 'z' || a[0] >= 'A' && a[0] <= 'Z' || la == '\'' || la == '"'
	}
	if wordByte(la) {
		if (b == "-" || b == "->") && (a[0] == '$' || a[0] >= '0' && a[0] <= '9') {
			return true
		}
		if wordByte(fb) || fb == '-' || fb == ':' {
			return false
		}
		if fb == '$' || fb == '\'' || fb == '"' || fb == '@' || fb == '`' {
			return true
		}
		if fb == '/' {
			return b == "/"
		}
		// operators
		return a[0] == '$' || a[0] >= '0' && a[0] <= '9'
	}
	switch la {
	case '\'', '"', '`':
		return true
	case '/', ')', ']', '}':
		return wordByte(fb) || fb == '$' || fb == '.'
	}
	// a is an operator
	return wordByte(fb) || fb == '$' || fb == '\'' || fb == '"' || fb == '('
}

var commentTexts = []string{"", " c", "'", "\"", "{", "}", "@(END)", "é€", "*", "**", "* * ", "/*", "# x", "//", "<%", "$x", "%", "(", "|", "/", "\\", "\t", "😀", "\u2028", "\u00a0", "`"}

func (g *G) blank() string {
	switch g.n(5) {
	case 0:
		return "\t"
	case 1:
		return "  "
	default:
		return " "
	}
}

// space generates white space. nl: line breaks allowed, must: at least one blank, first: must contain a line break
// that is followed by blanks only.
func (l Layout) space(g *G, nl, must, first bool, inHere bool) string {
	if l.noNL {
		nl = false
	}
	br := func() string {
		if g.pct(20) {
			return "\r\n"
		}
		return "\n"
	}
	if first {
		s := ""
		if l.mode >= 2 && g.pct(30) {
			s = g.blank()
		}
		s += br()
		if l.mode >= 2 && g.pct(40) {
			s += g.blank()
		}
		return s
	}
	switch l.mode {
	case 0:
		if must {
			return " "
		}
		return ""
	case 1:
		return " "
	}
	var b strings.Builder
	k := 0
	if must {
		k = 1
	}
	n := g.n(10)
	switch {
	case n < 3:
	case n < 8:
		k = 1
	case n < 9:
		k = 2
	default:
		k = 3
	}
	if must && k == 0 {
		k = 1
	}
	for i := 0; i < k; i++ {
		if l.comments && g.pct(35) {
			c := g.pick(commentTexts)
			if nl && g.pct(50) {
				b.WriteString("#" + c + br())
				continue
			}
			if nl && !inHere && g.pct(25) {
				c += br() + g.pick(commentTexts)
			}
			b.WriteString("/*" + c + "*/")
			continue
		}
		if nl && g.pct(35) {
			b.WriteString(br())
		} else {
			b.WriteString(g.blank())
		}
	}
	return b.String()
}

func lastWord(t string) bool {
	return endsOperand(t) || strings.HasSuffix(t, "}") || strings.HasSuffix(t, "|>") || strings.HasSuffix(t, ">>")
}

// layout turns tokens into text and records the offset of every node.
func layout(g *G, toks []Tok, l Layout, inner bool) string {
	if g.breaker != nil {
		toks = g.breaker(toks, inner)
	}
	var b strings.Builder
	var pending []*Tok
	prev := ""
	brk := func(s string) string {
		// inserts pending heredoc bodies after the first line break of s, which is placed at the current position
		if len(pending) == 0 {
			b.WriteString(s)
			return s
		}
		i := strings.IndexByte(s, '\n')
		if i < 0 {
			b.WriteString(s)
			return s
		}
		b.WriteString(s[:i+1])
		for _, h := range pending {
			base := b.Len()
			for _, n := range h.BodyIn {
				if n.Off >= 0 {
					n.Off += base
					n.End += base
				}
			}
			b.WriteString(h.Body)
		}
		pending = nil
		b.WriteString(s[i+1:])
		return s
	}
	for i := range toks {
		t := &toks[i]
		must, nl, first := t.NeedWS, !t.NoNL, false
		sep := ""
		if t.Stmt {
			switch t.T[0] {
			case '-', '+', '*', '{', '/', '<', '.', '?', '|', '%', '=':
				if prev != ";" {
					if l.mode == 3 && g.pct(30) {
						s := l.space(g, true, false, false, len(pending) > 0)
						if strings.HasPrefix(s, "#") {
							s = " " + s // not a comment of a template
						}
						brk(s)
					}
					b.WriteString(";")
					t.Semi = b.Len()
					prev = ";"
				}
			case '(':
				if prev != ";" {
					if g.pct(50) && !l.noNL {
						first = true
					} else {
						b.WriteString(";")
						t.Semi = b.Len()
						prev = ";"
					}
				}
			case '[':
				if prev != ";" {
					must = true
				}
			}
		} else if t.List && lastWord(prev) {
			must = true
		}
		if i == 0 && t.Raw {
			sep = ""
		} else if i == 0 && !inner {
			if l.mode == 3 && g.pct(40) {
				sep = l.space(g, true, false, false, false)
			}
		} else if i == 0 {
			sep = l.space(g, nl, must, false, false)
			if l.mode < 2 {
				sep = ""
			}
		} else if t.Glue {
			sep = ""
		} else if i > 0 && toks[i-1].Raw {
			sep = l.space(g, nl, strings.IndexByte("-#=%", t.T[0]) >= 0 || must && t.Stmt, first, false)
			if strings.HasPrefix(sep, "#") {
				sep = " " + sep
			}
		} else {
			if !must && !t.Raw && !canTouch(prev, t.T) {
				must = true
			}
			sep = l.space(g, nl, must, first, len(pending) > 0)
			if i == g.hugeAt && !inner && !t.Raw && l.mode >= 2 {
				if nl && !l.noNL {
					sep = " " + g.huge + sep
				} else {
					sep = strings.Repeat(" ", len(g.huge)) + sep
				}
			}
		}
		if len(pending) > 0 && (t.Raw || strings.Contains(t.T, "\n")) && !strings.Contains(sep, "\n") {
			sep += "\n"
		}
		brk(sep)
		off := b.Len()
		for _, n := range t.Starts {
			n.Off = off
		}
		for _, n := range t.Inner {
			if n.Off >= 0 {
				n.Off += off
				n.End += off
			}
		}
		b.WriteString(t.T)
		for _, n := range t.Ends {
			n.End = b.Len()
			n.Next = 0
		}
		if i > 0 && !inner && !t.Raw {
			for _, n := range toks[i-1].Ends {
				n.Next = b.Len()
			}
		}
		if t.Body != "" {
			pending = append(pending, t)
		}
		prev = t.T
		if t.Body != "" {
			prev = ")"
		}
	}
	if inner {
		if l.mode >= 2 {
			b.WriteString(l.space(g, false, false, false, false))
		}
		return b.String()
	}
	if len(pending) > 0 {
		brk("\n")
	}
	if len(toks) > 0 && toks[len(toks)-1].Raw {
		return b.String()
	}
	if l.mode >= 2 {
		b.WriteString(l.space(g, true, false, false, false))
		if l.comments && g.pct(10) {
			b.WriteString(" # no line break")
		}
	} else if g.pct(30) {
		b.WriteString("\n")
	}
	return b.String()
}

// Print turns a program into source text, and sets the offsets of all nodes.
func (g *G) Print(n *Node, l Layout, plain bool) string {
	if n.K == KProgram && n.A.K == KLambda {
		return g.printEpp(n, l)
	}
	g.layout = l
	n.Walk(func(c *Node, _ []*Node) { c.Off, c.End = -1, -1 })
	p := &Printer{g: g, plain: plain}
	p.node(n)
	text := layout(g, p.toks, l, false)
	n.Walk(func(c *Node, _ []*Node) {
		if c.K == KVar && len(c.M) == 1 {
			c.M[0].Off, c.M[0].End = c.Off+1, c.End
		}
	})
	return text
}

// step prints a workflow step. Properties: A is a hash. An entry "iteration" that is marked with Op "iter" is printed
// after the properties. Parameter lists are arrays of parameters
func (p *Printer) step(n *Node) {
	p.t(n.Op)
	p.t(n.S)
	p.t("{")
	var iter *Node
	if n.A != nil {
		var ps []*Node
		for _, e := range n.A.L {
			if e.Op == "iter" {
				iter = e
			} else {
				ps = append(ps, e)
			}
		}
		for i, e := range ps {
			if i > 0 {
				p.t(",")
			}
			p.open = append(p.open, e)
			p.node(e.A)
			p.t("=>")
			if e.Op == "params" || e.Op == "returns" {
				p.open = append(p.open, e.B)
				p.params(e.B.L, "(", ")")
				p.end(e.B)
			} else {
				p.node(e.B)
			}
			p.end(e)
		}
		if len(ps) > 0 && !p.plain && p.g.pct(20) {
			p.t(",")
		}
	}
	p.t("}")
	if iter != nil {
		es := iter.B.L // name, function, params, vars
		if es[0].B.S != n.S || n.F == 1 {
			p.t("$" + es[0].B.S)
			p.t("=")
		}
		p.open = append(p.open, es[1].B)
		p.t(es[1].B.S)
		p.end(es[1].B)
		p.open = append(p.open, es[2].B)
		p.params(es[2].B.L, "(", ")")
		p.end(es[2].B)
		p.open = append(p.open, es[3].B)
		p.params(es[3].B.L, "|", "|")
		p.end(es[3].B)
	}
	if n.Flag {
		return
	}
	switch n.Op {
	case "workflow":
		p.t("{")
		if n.B != nil {
			for _, s := range n.B.L {
				p.node(s)
			}
		}
		p.t("}")
	case "resource":
		p.t("{")
		if n.B != nil {
			p.ops(n.M)
		}
		p.t("}")
	default:
		p.block(n.B)
	}
}
