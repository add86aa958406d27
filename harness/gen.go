package main

import (
	"fmt"
	"strconv"
	"strings"

	"pgregory.net/rapid"
)

// G makes all random choices, through rapid, so that every failure shrinks and replays.
type G struct {
	t      *rapid.T
	layout Layout
	huge   string // white space to put before token hugeAt
	hugeAt int
	budget int
	depth  int

	tasks, workflow, epp bool
	noHeredoc            bool // inside an interpolation
	inInterp             bool
	oneLine              bool // no line breaks in strings
	noDefs               bool
	sane                 bool     // mostly programs a user would write
	manyDefs             bool     // definitions everywhere
	sloppy               bool     // programs that break rules again and again
	backticks, hexes     bool     // string literals of these kinds
	words                []string // names to use besides others
	classes              map[string]bool
	interpDepth          int
	breaker              func(toks []Tok, inner bool) []Tok // changes the tokens that are printed
	atEnd                bool
	mark                 *Node        // a node that is not part of the tree, put by breaker
	leafGen              func() *Node // for rawNumExpr: what to use instead of numbers
}

var intGens [1025]*rapid.Generator[int]

// Floating point numbers of one magnitude are drawn without preference
const uniBase = 1 << 51

var uniGens [1025]*rapid.Generator[float64]

func init() {
	for i := 1; i < len(intGens); i++ {
		intGens[i] = rapid.IntRange(0, i-1)
		uniGens[i] = rapid.Float64Range(uniBase, uniBase+float64(i-1))
	}
}

func newG(t *rapid.T) *G { return &G{t: t, classes: map[string]bool{}} }

func (g *G) n(k int) int {
	if k <= 1 {
		return 0
	}
	if k < len(intGens) {
		return intGens[k].Draw(g.t, "")
	}
	return rapid.IntRange(0, k-1).Draw(g.t, "")
}

// u is a number below k. Most are drawn from the uniform distribution, while n prefers small ones
func (g *G) u(k int) int {
	if k <= 1 {
		return 0
	}
	if k < len(uniGens) {
		return int(uniGens[k].Draw(g.t, "") - uniBase)
	}
	return int(rapid.Float64Range(uniBase, uniBase+float64(k-1)).Draw(g.t, "") - uniBase)
}

func (g *G) rng(lo, hi int) int { return lo + g.n(hi-lo+1) }

// pct is true in about p percent of the cases. It shrinks to false
func (g *G) pct(p int) bool { return g.u(100) >= 100-p }

// size is the number of repeated parts: usually below k, now and then more
func (g *G) size(k int) int {
	p := 3
	if g.sloppy {
		p = 15
	}
	if g.pct(p) {
		if g.pct(15) {
			return k + 8 + g.n(16)
		}
		return k + g.n(8)
	}
	return g.n(k)
}

func (g *G) bool() bool { return g.n(2) == 1 }

func (g *G) pick(s []string) string { return s[g.u(len(s))] }

func (g *G) tag(s string) { g.classes[s] = true }

func (g *G) weighted(ws ...int) int {
	sum := 0
	for _, w := range ws {
		sum += w
	}
	x := g.u(sum)
	for i, w := range ws {
		if x < w {
			return i
		}
		x -= w
	}
	return 0
}

// ---------------------------------------------------------------------------------------------
// Words

var names = []string{"foo", "a", "bar_1", "x", "a::b", "zz9", "foo::bar::baz", "mode", "ensure", "each", "file", "user", "inx", "default_x", "classy", "orx", "typed", "e1", "x86", "trueish", "undefx", "nodes"}
var topNames = []string{"::foo", "::a::b"}
var refs = []string{"File", "A", "Foo::Bar", "Integer", "String", "Class", "X9::Y", "Resource", "Type"}
var varNames = []string{"x", "a", "foo", "y_1", "a::b", "bar", "z9", "_self", "class", "if", "type", "in"}
var keywordNames = []string{"type", "function", "application", "consumes", "produces", "site"}
var allKeywords = []string{"application", "and", "attr", "case", "class", "consumes", "default", "define", "function", "else", "elsif", "if", "in", "inherits", "node", "or", "private", "produces", "site", "type", "undef", "unless"}
var callNames = []string{"foo", "bar::baz", "each", "lookup", "x", "sprintf", "::foo::bar", "notice", "include", "fail", "tag", "type", "action", "workflow"}
var stmtCalls = []string{"require", "realize", "include", "contain", "tag", "debug", "info", "notice", "warning", "err", "fail", "import", "break", "next", "return"}
var styles = []string{"action", "resource", "stateHandler", "workflow"}

func mkName(s string) *Node { return &Node{K: KName, S: s} }
func mkRef(s string) *Node  { return &Node{K: KRef, S: s} }

func mkVar(s string) *Node {
	return &Node{K: KVar, S: s, M: []*Node{{K: KName, S: s, Syn: true}}}
}

func mkIdx(i int64) *Node {
	return &Node{K: KVar, Flag: true, I: i, M: []*Node{{K: KInt, I: i, Src: strconv.FormatInt(i, 10), Syn: true}}}
}

func mkInt(i int64) *Node { return &Node{K: KInt, I: i, Src: strconv.FormatInt(i, 10)} }

func mkStr(s string) *Node { return &Node{K: KStr, S: s, Src: singleQuote(s)} }

func mkBlock(ns ...*Node) *Node { return &Node{K: KBlock, L: ns} }

func mkProgram(ns ...*Node) *Node { return &Node{K: KProgram, A: mkBlock(ns...)} }

func singleQuote(s string) string {
	var b strings.Builder
	b.WriteByte('\'')
	for i := 0; i < len(s); i++ {
		switch s[i] {
		case '\'', '\\':
			b.WriteByte('\\')
		}
		b.WriteByte(s[i])
	}
	b.WriteByte('\'')
	return b.String()
}

func (g *G) name() *Node {
	if len(g.words) > 0 && g.pct(30) {
		return mkName(g.pick(g.words))
	}
	if g.pct(8) {
		return mkName(g.pick(topNames))
	}
	if g.pct(7) {
		return mkName(g.ident())
	}
	return mkName(g.pick(names))
}

// wordName is a name that has a meaning as first word of some constructs
func (g *G) wordName() *Node {
	if g.pct(35) {
		return mkName(g.pick(styles))
	}
	n := mkName(g.pick(keywordNames))
	if g.budget > 0 && g.pct(20) {
		n = &Node{K: KCall, A: n}
		g.callArgs(n)
		if n.Op == "lambda" {
			n.Op = ""
		}
	}
	return n
}

func (g *G) ref() *Node {
	if g.pct(7) {
		return mkRef(g.typeIdent())
	}
	return mkRef(g.pick(refs))
}

func (g *G) varName() string {
	if g.pct(7) {
		return g.ident()
	}
	n := g.pick(varNames)
	if n == "_self" {
		// a leading underscore is only accepted after a double colon
		return "a::_self"
	}
	if g.pct(6) {
		return "::" + n
	}
	return n
}

func (g *G) variable() *Node {
	if g.pct(4) {
		return mkIdx(int64(g.n(12)))
	}
	return mkVar(g.varName())
}

// ---------------------------------------------------------------------------------------------
// Literals

func (g *G) integer() *Node {
	var v int64
	switch g.n(6) {
	case 0, 1, 2:
		v = int64(g.n(20))
	case 3:
		v = int64(g.n(1 << 16))
	default:
		v = rapid.Int64Range(0, 1<<63-1).Draw(g.t, "")
	}
	n := &Node{K: KInt, I: v}
	switch g.n(8) {
	case 6:
		n.Op = "16"
		s := strconv.FormatInt(v, 16)
		if g.bool() {
			s = strings.ToUpper(s)
		}
		n.Src = "0x" + s
		if g.bool() {
			n.Src = "0X" + s
		}
		g.tag("hex")
	case 7:
		if v > 0 {
			n.Op = "8"
			n.Src = "0" + strconv.FormatInt(v, 8)
			g.tag("octal")
			break
		}
		fallthrough
	default:
		n.Op = "10"
		n.Src = strconv.FormatInt(v, 10)
	}
	return n
}

func (g *G) float() *Node {
	// the value is what strconv makes of the spelling: an independent implementation
	digits := func(k int) string {
		var b strings.Builder
		for i := 0; i < k; i++ {
			b.WriteByte(byte('0' + g.n(10)))
		}
		return b.String()
	}
	s := "0"
	if g.bool() {
		s = strconv.Itoa(1 + g.n(999))
	}
	frac := g.pct(80)
	if frac {
		s += "." + digits(1+g.n(4))
	}
	if !frac || g.pct(30) {
		s += g.pick([]string{"e", "E"}) + g.pick([]string{"", "-", "+"}) + strconv.Itoa(g.n(20))
	}
	f, err := strconv.ParseFloat(s, 64)
	if err != nil {
		panic(err)
	}
	return &Node{K: KFloat, F: f, Src: s}
}

func (g *G) number() *Node {
	if g.pct(25) {
		return g.float()
	}
	return g.integer()
}

// signed returns a number that can have a sign. It is a unary level expression
func (g *G) signed() *Node {
	n := g.number()
	if g.pct(75) {
		n.Src = "-" + n.Src
		n.I = -n.I
		n.F = -n.F
		if n.K == KFloat && n.F == 0 {
			n.F = 0
			n.F = -n.F
		}
	} else {
		n.Src = "+" + n.Src
	}
	return n
}

var runePool = []rune{'a', 'b', 'Z', '0', '_', ' ', '\n', '\t', '\r', '\'', '"', '\\', '$', '{', '}', '/', '#', '*', '%', '<', '>', '|', '@', '(', ')', '[', ']', ':', '-', '~', '`', ',', ';', '=', 'é', '€', '😀', 'ÿ', '\u00a0', '\u2028', '\ufffd', '\u0301', 1, 0x1f, 0x7f}

func (g *G) text(max int) string {
	k := g.n(max + 1)
	var b strings.Builder
	for i := 0; i < k; i++ {
		if g.pct(5) {
			r := rune(1 + g.n(1000))
			if r >= 0xd800 && r < 0xe000 {
				r = 'x'
			}
			b.WriteRune(r)
		} else {
			b.WriteRune(runePool[g.n(len(runePool))])
		}
	}
	s := b.String()
	if g.pct(1) && s != "" {
		s = strings.Repeat(s, 1+g.many(3000/len(s)))
	}
	if g.oneLine {
		s = strings.Map(func(r rune) rune {
			if r == '\n' || r == '\r' {
				return ' '
			}
			return r
		}, s)
	}
	if g.inInterp || !g.noHeredoc {
		s = strings.Replace(s, "/*", "/ *", -1)
	}
	return s
}

var plainTexts = []string{"", "a", "foo", "hello world", "0644", "it's", "x${y", "a\nb", "é€", "/tmp/x", "a-b", "%{x}", "1 2", "\\", "#", "{}", "B"}

func (g *G) plainText() string {
	if g.pct(70) {
		s := g.pick(plainTexts)
		if g.oneLine {
			s = strings.Replace(s, "\n", " ", -1)
		}
		return s
	}
	return g.text(6)
}

func (g *G) str() *Node {
	s := g.plainText()
	if strings.HasPrefix(s, "x${") {
		// not to be confused with an interpolation
		return mkStr(s)
	}
	if g.backticks && g.pct(30) {
		return g.backtick(s)
	}
	if g.hexes && g.pct(30) {
		return g.hexString()
	}
	switch g.n(10) {
	case 0, 1, 2, 3:
		return mkStr(s)
	case 4:
		if len(s) > 0 && wordOnly(s) {
			return mkStr(s)
		}
		w := g.pick([]string{"a-b", "x-1", "foo-bar-baz", "a--b", "a1-2b::c"})
		g.tag("dashed")
		return &Node{K: KStr, S: w, Src: w, Op: "bare"}
	default:
		return &Node{K: KStr, S: s, Src: `"` + g.dq(s, false) + `"`}
	}
}

// backtick is a string in backticks
func (g *G) backtick(s string) *Node {
	if g.bool() {
		s += g.pick([]string{"\\", "$x", "${y}", "\"", "'", "#", "\\n", "/* */", "\\'"})
	}
	g.tag("backticks")
	s = strings.ReplaceAll(s, "`", "")
	return &Node{K: KStr, S: s, Src: "`" + s + "`", Op: "backtick"}
}

// hexString is a string with escape sequences that are only known with the option for them. Full is the text without it.
func (g *G) hexString() *Node {
	n := &Node{K: KStr, Op: "hex", Src: `"`}
	for i := 1 + g.n(3); i > 0; i-- {
		s := g.plainText()
		n.S += s
		n.Full += s
		n.Src += g.dq(s, false)
		c := byte(g.u(127)) + 1
		x := fmt.Sprintf(`\x%02x`, c)
		if g.bool() {
			x = fmt.Sprintf(`\x%02X`, c)
		}
		n.S += string(rune(c))
		n.Full += x
		n.Src += x
	}
	n.Src += `"`
	g.tag("hex escapes")
	return n
}

func wordOnly(s string) bool {
	for i := 0; i < len(s); i++ {
		if !wordByte(s[i]) {
			return false
		}
	}
	return true
}

// dq spells s for a double quoted string. With interp, an interpolation or the end of the string follows, so that
// a final dollar sign must be escaped.
func (g *G) dq(s string, interp bool) string {
	var b strings.Builder
	for _, r := range s {
		esc := ""
		switch r {
		case '"', '\\':
			esc = `\` + string(r)
		case '$':
			esc = `\$`
		case '\n':
			if g.bool() {
				esc = `\n`
			}
		case '\r':
			if g.bool() {
				esc = `\r`
			}
		case '\t':
			if g.bool() {
				esc = `\t`
			}
		case ' ':
			if g.pct(10) {
				esc = `\s`
			}
		case '\'':
			if g.pct(20) {
				esc = `\'`
			}
		}
		if esc == "" && g.pct(4) {
			if r <= 0xffff && g.bool() {
				esc = fmt.Sprintf(`\u%04x`, r)
			} else {
				esc = fmt.Sprintf(`\u{%02X}`, r)
			}
		}
		if esc == "" {
			esc = string(r)
		}
		b.WriteString(esc)
	}
	return b.String()
}

// lone dollar signs: "$ " is plain text
func (g *G) regexp() *Node {
	pats := []string{"a", "^a.*$", "[/]", "a\\/b", "x", "\\d+", "(a|b)", "#", "'", "\\\\", "é", "a{1,2}", " ", "\\."}
	s := ""
	for i := 1 + g.n(2); i > 0; i-- {
		s += g.pick(pats)
	}
	return regexpNode(s)
}

// regexpNode makes a literal from the pattern as the user means it: a slash is written with a backslash
func regexpNode(s string) *Node {
	var src, val strings.Builder
	for i := 0; i < len(s); i++ {
		c := s[i]
		if c == '\\' && i+1 < len(s) {
			if s[i+1] == '/' {
				src.WriteString(`\/`)
				val.WriteByte('/')
			} else {
				src.WriteString(s[i : i+2])
				val.WriteString(s[i : i+2])
			}
			i++
			continue
		}
		if c == '/' {
			src.WriteString(`\/`)
			val.WriteByte('/')
			continue
		}
		src.WriteByte(c)
		val.WriteByte(c)
	}
	return &Node{K: KRegexp, S: val.String(), Src: "/" + src.String() + "/"}
}

func (g *G) concat() *Node {
	saved, ih := g.noHeredoc, g.inInterp
	g.noHeredoc, g.inInterp = true, true
	defer func() { g.noHeredoc, g.inInterp = saved, ih }()
	n := &Node{K: KConcat}
	k := 1 + g.n(3)
	if g.pct(60) {
		g.addText(n, "")
	}
	for i := 0; i < k; i++ {
		n.L = append(n.L, g.interpolation())
		if g.pct(60) {
			g.addText(n, "")
		}
	}
	g.tag("interpolation")
	return n
}

// addText adds a piece of text that cannot be taken for a continuation of the interpolation before it
func (g *G) addText(n *Node, s string) {
	if s == "" {
		s = g.plainText()
	}
	if s == "" || strings.Contains(s, "${") {
		return
	}
	if l := len(n.L); l > 0 && n.L[l-1].K == KText && n.L[l-1].Op == "$" {
		// the first character must not continue the name
		c := s[0]
		if wordByte(c) || c == ':' {
			s = " " + s
		}
	}
	n.L = append(n.L, &Node{K: KStr, S: s, Src: g.dq(s, true)})
}

func (g *G) interpolation() *Node {
	if g.budget <= 0 || g.pct(50) {
		if g.pct(8) {
			return &Node{K: KText, Op: "$", A: mkIdx(int64(g.n(100)))}
		}
		v := g.pick(varNames)
		if v == "_self" {
			v = "a::_x"
		} else if g.pct(7) {
			v = g.ident()
		}
		return &Node{K: KText, Op: "$", A: mkVar(v)}
	}
	e := g.expr(0)
	return &Node{K: KText, A: interpExpr(e)}
}

// interpExpr: a leading bare name denotes a variable
func interpExpr(e *Node) *Node {
	switch e.K {
	case KName:
		v := mkVar(e.S)
		v.Op = "bare"
		v.Syn = true // its position is that of the whole interpolation
		v.M[0].Syn = true
		v.Src = e.Src
		return v
	case KAccess, KDot:
		c := *e
		c.A = interpExpr(e.A)
		if c.A != e.A {
			c.Syn = true
			return &c
		}
	case KMethod:
		c := *e
		c.A = interpExpr(e.A)
		if c.A != e.A {
			c.Syn = true
			return &c
		}
	}
	return e
}

// ---------------------------------------------------------------------------------------------
// Expressions

// levels, from loose to tight
const (
	lvRel = iota
	lvAssign
	lvRes
	lvSel
	lvOr
	lvAnd
	lvCmp
	lvEq
	lvShift
	lvAdd
	lvMul
	lvMatch
	lvIn
	lvUnary
	lvPrim
	lvAtom
)

var binOps = [][]string{
	lvRel:    {"->", "~>", "<-", "<~"},
	lvAssign: {"=", "+=", "-="},
	lvOr:     {"or"},
	lvAnd:    {"and"},
	lvCmp:    {"<", "<=", ">", ">="},
	lvEq:     {"==", "!="},
	lvShift:  {"<<", ">>"},
	lvAdd:    {"+", "-"},
	lvMul:    {"*", "/", "%"},
	lvMatch:  {"=~", "!~"},
	lvIn:     {"in"},
}

func opLevel(op string) int {
	for l, ops := range binOps {
		for _, o := range ops {
			if o == op {
				return l
			}
		}
	}
	panic(op)
}

func prec(n *Node) int {
	switch n.K {
	case KBin:
		return opLevel(n.S)
	case KSelector:
		return lvSel
	case KResource, KDefaults, KOverride, KCollect, KTypeAlias, KTypeMapping, KCapability, KStep:
		return lvRes
	case KNot, KNegate, KUnfold:
		return lvUnary
	case KInt, KFloat:
		if n.Src != "" && (n.Src[0] == '-' || n.Src[0] == '+') {
			return lvUnary
		}
	case KCall, KMethod:
		if n.Op == "stmt" || n.Op == "hash" {
			return -1
		}
		return lvPrim
	}
	return lvPrim
}

func paren(n *Node) *Node { return &Node{K: KParen, A: n} }

// at returns n, in parentheses if it cannot be written at the given level
func at(level int, n *Node) *Node {
	if prec(n) < level {
		return paren(n)
	}
	return n
}

func (g *G) binary(op string, l, r *Node) *Node {
	lv := opLevel(op)
	ll, rl := lv, lv+1
	if lv == lvAssign {
		ll, rl = lvRes, lvAssign
	}
	l = at(ll, l)
	if op == "/" && !divisible(l) {
		l = paren(l)
	}
	return &Node{K: KBin, S: op, A: l, B: at(rl, r)}
}

// divisible is true if a slash after the expression is a division
func divisible(n *Node) bool {
	switch n.K {
	case KHash, KIf, KUnless, KCase, KUndef, KDefault, KReserved, KSelector:
		return false
	case KCall, KMethod:
		return n.B == nil && !(n.K == KMethod && n.Op == "bare" && (n.A.B.S == "type"))
	case KBin:
		return divisible(n.B)
	case KNot, KNegate, KUnfold:
		return divisible(n.A)
	case KName:
		// a slash after a keyword begins a regexp, also where that keyword is a name
		return !isOneOf(n.S, allKeywords...) && !isOneOf(n.S, "plan", "step", "workflow")
	}
	return !isDefKind(n.K) && n.K != KCollect && n.K != KResource && n.K != KDefaults && n.K != KOverride
}

func (g *G) leaf() *Node {
	switch g.weighted(22, 18, 14, 8, 6, 3, 3, 4, 4, 1, 2, 2, 1) {
	case 0:
		return g.variable()
	case 1:
		return g.integer()
	case 2:
		return g.str()
	case 3:
		return g.name()
	case 4:
		return g.ref()
	case 5:
		return g.float()
	case 6:
		return &Node{K: KBool, S: g.pick([]string{"true", "false"})}
	case 7:
		return &Node{K: KUndef, S: "undef"}
	case 8:
		return &Node{K: KDefault, S: "default"}
	case 9:
		return &Node{K: KReserved, S: g.pick([]string{"attr", "private"})}
	case 10:
		return g.regexp()
	case 11:
		return g.signed()
	default:
		if g.noHeredoc {
			return g.integer()
		}
		return g.simpleHeredoc()
	}
}

// expr generates an expression that can be written where the given level is accepted
func (g *G) expr(level int) *Node {
	return at(level, g.rawExpr())
}

func (g *G) rawExpr() *Node {
	g.budget--
	if g.budget <= 0 || g.depth > 7 {
		return g.leaf()
	}
	g.depth++
	defer func() { g.depth-- }()
	defs := 1
	if g.manyDefs {
		defs = 25
	}
	switch g.weighted(40, 22, 5, 6, 6, 6, 7, 9, 7, 3, 3, 3, 4, 2, defs) {
	case 0:
		return g.leaf()
	case 1:
		return g.binExpr()
	case 2:
		switch g.n(3) {
		case 0:
			return &Node{K: KNot, A: g.expr(lvUnary)}
		case 1:
			return &Node{K: KNegate, A: g.expr(lvPrim)}
		default:
			return &Node{K: KUnfold, A: g.expr(lvUnary)}
		}
	case 3:
		return paren(g.expr(lvRel))
	case 4:
		return g.array()
	case 5:
		return g.hash()
	case 6:
		return g.access()
	case 7:
		return g.call()
	case 8:
		return g.method()
	case 9:
		return g.selector()
	case 10:
		return g.ifExpr(false)
	case 11:
		return g.caseExpr()
	case 12:
		return g.concat()
	case 13:
		if g.inInterp {
			return g.leaf()
		}
		return g.resourceLike()
	default:
		if g.inInterp || g.noDefs {
			return g.leaf()
		}
		return g.definition()
	}
}

func (g *G) binExpr() *Node {
	lv := []int{lvRel, lvAssign, lvOr, lvAnd, lvCmp, lvEq, lvShift, lvAdd, lvAdd, lvMul, lvMul, lvMatch, lvIn}[g.n(13)]
	op := g.pick(binOps[lv])
	if lv == lvAssign && g.sane {
		op = "="
	}
	// left and right without parentheses as often as with
	l, r := g.rawExpr(), g.rawExpr()
	return g.binary(op, l, r)
}

func (g *G) exprs(max int, level int) (r []*Node) {
	for i := g.size(max + 1); i > 0; i-- {
		r = append(r, g.expr(level))
	}
	return
}

// elements of a list, keys of an access or arguments of a call, with keyed entries joined into hashes
func (g *G) elements(max int) (r []*Node) {
	lastSyn := false
	for i := g.size(max + 1); i > 0; i-- {
		if !lastSyn && g.pct(12) {
			r = append(r, &Node{K: KHash, Syn: true, L: g.entries(1 + g.size(2))})
			lastSyn = true
			g.tag("joined")
			continue
		}
		lastSyn = false
		if g.pct(3) {
			r = append(r, g.wordName())
			continue
		}
		r = append(r, g.arg())
	}
	return
}

func (g *G) entries(k int) (r []*Node) {
	for i := 0; i < k; i++ {
		var key *Node
		if g.sloppy && g.bool() {
			key = mkStr(g.pick([]string{"a", "b"}))
			if g.bool() {
				key = g.leaf()
			}
			r = append(r, &Node{K: KEntry, A: key, B: g.leaf()})
			continue
		}
		switch g.n(6) {
		case 0, 1:
			key = g.str()
		case 2, 3:
			key = g.name()
		case 4:
			key = g.wordName()
		default:
			key = g.arg()
		}
		var v *Node
		if g.pct(3) {
			v = g.wordName()
		} else {
			v = g.arg()
		}
		r = append(r, &Node{K: KEntry, A: key, B: v})
	}
	return
}

func (g *G) array() *Node { return &Node{K: KList, L: g.elements(3)} }

func (g *G) hash() *Node { return &Node{K: KHash, L: g.entries(g.size(4))} }

// base of an access or method call
func (g *G) base() *Node {
	if g.budget <= 0 {
		return g.variable()
	}
	switch g.weighted(30, 10, 10, 6, 6, 6, 4, 3) {
	case 0:
		return g.variable()
	case 1:
		return g.ref()
	case 2:
		return g.name()
	case 3:
		return g.call()
	case 4:
		return g.method()
	case 5:
		return g.access()
	case 6:
		return g.array()
	default:
		return at(lvPrim, g.notStmtEnd(g.rawExpr()))
	}
}

// notStmtEnd puts what ends with a block in parentheses
func (g *G) notStmtEnd(n *Node) *Node {
	switch n.K {
	case KIf, KUnless, KCase, KCollect, KResource, KDefaults, KOverride, KReserved, KUndef, KDefault, KRegexp:
		return paren(n)
	case KInt, KFloat:
		return paren(n)
	}
	if isDefKind(n.K) {
		return paren(n)
	}
	return n
}

func endsWithLambda(n *Node) bool { return (n.K == KCall || n.K == KMethod) && n.B != nil }

func (g *G) access() *Node {
	b := g.base()
	if endsWithLambda(b) {
		b = paren(b)
	}
	l := g.elements(2)
	if len(l) == 0 {
		l = append(l, g.arg())
	}
	return &Node{K: KAccess, A: b, L: l}
}

func (g *G) callArgs(n *Node) {
	n.L = g.elements(3)
	switch g.n(8) {
	case 6:
		n.B = g.lambda()
	case 7:
		n.B = g.lambda()
		n.L = nil
		n.Op = "lambda"
	}
}

func (g *G) call() *Node {
	n := &Node{K: KCall}
	switch g.n(16) {
	case 0:
		n.A = g.ref()
	case 1:
		b := g.base()
		if endsWithLambda(b) || b.K == KMethod || b.K == KName || b.K == KList || b.K == KHash {
			b = paren(b)
		}
		n.A = b
		if b.K == KParen {
			g.tag("odd functor")
		}
	case 2:
		n.A = &Node{K: KAccess, A: g.ref(), L: []*Node{g.arg()}}
	default:
		n.A = mkName(g.pick(callNames))
		if g.pct(7) {
			n.A = mkName(g.ident())
		}
	}
	g.callArgs(n)
	if n.Op == "lambda" && n.A.K == KName && n.A.S == "type" {
		n.Op = ""
	}
	if n.Op == "lambda" && n.A.K == KCall {
		n.A = paren(n.A)
	}
	return n
}

func (g *G) method() *Node {
	b := g.base()
	if b.K == KName && (b.S == "notice") {
		b = g.variable()
	}
	m := mkName(g.pick([]string{"each", "foo", "map", "a::b", "type", "new"}))
	n := &Node{K: KMethod, A: &Node{K: KDot, A: b, B: m}}
	g.callArgs(n)
	if n.B == nil && len(n.L) == 0 && g.bool() {
		n.Op = "bare"
	}
	return n
}

func (g *G) typeExpr() *Node {
	if g.budget > 0 && g.pct(30) {
		g.budget--
		var l []*Node
		for i := 1 + g.n(2); i > 0; i-- {
			if g.bool() {
				l = append(l, g.typeExpr())
			} else {
				l = append(l, g.arg())
			}
		}
		return &Node{K: KAccess, A: g.ref(), L: l}
	}
	return g.ref()
}

var paramNames = []string{"x", "y", "a", "b_1", "foo", "z", "xY", "xy"}
var badParams = []string{"X::y", "a::b", "title", "name", "x"}

func (g *G) param(used map[string]bool, defaults bool) *Node {
	n := &Node{K: KParam}
	for {
		n.S = g.pick(paramNames)
		if g.sloppy && g.pct(50) {
			n.S = g.pick(paramNames[:2])
			break
		}
		if !used[n.S] || g.pct(3) {
			break
		}
		if len(used) >= len(paramNames) {
			break
		}
	}
	if g.pct(3) {
		n.S = g.pick([]string{"a::b", "title", "name"})
	} else if g.pct(4) {
		n.S = g.ident()
	}
	used[n.S] = true
	if g.pct(35) {
		n.A = g.typeExpr()
	}
	if defaults && g.pct(30) {
		n.B = g.expr(lvSel)
	}
	return n
}

func (g *G) params(max int) (r []*Node) {
	used := map[string]bool{}
	k := g.size(max + 1)
	for i := 0; i < k; i++ {
		p := g.param(used, true)
		if i == k-1 && g.pct(10) || g.pct(2) || g.sloppy && g.pct(15) {
			p.Flag = true
		}
		r = append(r, p)
	}
	return
}

func (g *G) lambda() *Node {
	n := &Node{K: KLambda, L: g.params(3), B: g.block(2)}
	if g.pct(15) {
		n.A = g.typeExpr()
	}
	g.tag("lambda")
	return n
}

func (g *G) selector() *Node {
	l := g.expr(lvOr)
	n := &Node{K: KSelector, A: l}
	if g.pct(20) {
		n.Flag = true
		m := g.expr(lvOr)
		if firstByte(m) == '{' {
			m = paren(m)
		}
		n.L = []*Node{{K: KSelEntry, A: m, B: g.expr(lvSel)}}
		return n
	}
	for i := 1 + g.size(3); i > 0; i-- {
		m := g.expr(lvSel)
		if g.sloppy && g.pct(40) {
			m = &Node{K: KDefault, S: "default"}
		}
		if m.K == KSelector && m.Flag {
			m = paren(m)
		}
		n.L = append(n.L, &Node{K: KSelEntry, A: m, B: g.expr(lvSel)})
	}
	if g.pct(10) && prec(n) >= lvSel {
		return &Node{K: KSelector, A: n, L: []*Node{{K: KSelEntry, A: g.expr(lvOr), B: g.expr(lvSel)}}}
	}
	return n
}

// cond is an expression that is followed by a block
func (g *G) cond(level int) *Node {
	e := g.expr(level)
	if endsOpen(e) {
		return paren(e)
	}
	return e
}

// endsOpen is true if a left brace that follows would continue the expression
func endsOpen(n *Node) bool {
	switch n.K {
	case KCollect:
		return len(n.L) == 0 && !n.Flag
	case KBin:
		return endsOpen(n.B)
	case KNot, KNegate, KUnfold:
		return endsOpen(n.A)
	case KSelector:
		return n.Flag && endsOpen(n.L[0].B)
	case KTypeAlias:
		return true
	case KTypeMapping:
		return endsOpen(n.B)
	}
	return false
}

func (g *G) ifExpr(elsif bool) *Node {
	n := &Node{K: KIf, A: g.cond(lvOr), B: g.block(3), C: &Node{K: KNop}}
	if elsif {
		n.Op = "elsif"
	} else if g.pct(25) {
		n.K = KUnless
	}
	switch g.n(4) {
	case 2:
		n.C = g.block(2)
	case 3:
		if n.K == KIf && g.budget > 0 {
			n.C = g.ifExpr(true)
		}
	}
	return n
}

func (g *G) caseExpr() *Node {
	n := &Node{K: KCase, A: g.cond(lvSel)}
	for i := 1 + g.size(3); i > 0; i-- {
		o := &Node{K: KOption, B: g.block(2)}
		if g.pct(20) || g.sloppy && g.pct(30) {
			o.L = append(o.L, &Node{K: KDefault, S: "default"})
		}
		for j := g.size(3); j > 0 || len(o.L) == 0; j-- {
			if g.sloppy && g.pct(20) {
				o.L = append(o.L, &Node{K: KDefault, S: "default"})
				continue
			}
			o.L = append(o.L, g.expr(lvSel))
		}
		n.L = append(n.L, o)
	}
	return n
}

// ---------------------------------------------------------------------------------------------
// Statements

func (g *G) block(max int) *Node {
	b := &Node{K: KBlock}
	if g.budget <= 0 {
		max = 1
	}
	for i := g.size(max + 1); i > 0; i-- {
		b.L = append(b.L, g.stmt(false))
	}
	if g.epp && !g.inInterp {
		b.L = g.withText(b.L)
	}
	return b
}

func (g *G) statements(max int) []*Node {
	var l []*Node
	for i := 1 + g.n(max); i > 0; i-- {
		l = append(l, g.stmt(true))
	}
	return l
}

func (g *G) stmt(top bool) *Node {
	if g.budget <= 0 {
		if g.bool() {
			return &Node{K: KCall, A: mkName("foo"), L: []*Node{g.leaf()}}
		}
		return g.safeStmt(g.leaf())
	}
	g.budget--
	defs := 6
	if top {
		defs = 22
	}
	if g.manyDefs {
		defs = 50
	}
	if g.noDefs || g.inInterp {
		defs = 0
	}
	if g.workflow && !g.inInterp && !g.noDefs && g.pct(25) {
		return g.step(0)
	}
	switch g.weighted(18, 10, 12, 10, 6, 16, 6, defs, 14) {
	case 0:
		l := mkVar(g.pick(varNames[:6]))
		return g.binary("=", l, g.rawExpr())
	case 1:
		return g.call()
	case 2:
		return g.stmtCall()
	case 3:
		return g.ifExpr(false)
	case 4:
		return g.caseExpr()
	case 5:
		return g.resourceLike()
	case 6:
		return g.relChain()
	case 7:
		return g.definition()
	default:
		return g.safeStmt(g.rawExpr())
	}
}

// safeStmt wraps what would be read differently as a statement
func (g *G) safeStmt(n *Node) *Node {
	if n.K == KName && n.S == "type" {
		return paren(n)
	}
	return n
}

func (g *G) stmtCall() *Node {
	n := &Node{K: KCall, Op: "stmt", A: mkName(g.pick(stmtCalls))}
	if g.pct(12) {
		n.Op = "hash"
		n.L = []*Node{{K: KHash, L: g.entries(g.size(3))}}
		g.tag("stmt call hash")
		return n
	}
	for i := 1 + g.size(2); i > 0; i-- {
		e := g.expr(lvRel)
		if len(n.L) == 0 {
			switch firstByte(e) {
			case '(', '{', '-', '+', '*', '/', '<', '.', '[':
				e = &Node{K: KCall, A: mkName("foo"), L: []*Node{e}}
				if g.pct(20) {
					e = &Node{K: KNot, A: e}
				}
			}
		}
		n.L = append(n.L, e)
	}
	g.tag("stmt call")
	return n
}

// leftmost returns the part of an expression that its text begins with
func leftmost(n *Node) *Node {
	for {
		switch n.K {
		case KHash:
			if !n.Syn {
				return n
			}
			n = n.L[0]
		case KBin, KDot, KSelector, KAccess, KCall, KMethod, KEntry, KCollect, KCapability, KSelEntry:
			n = n.A
		case KResource, KDefaults, KOverride:
			if n.Op != "" {
				return n
			}
			n = n.A
		default:
			return n
		}
	}
}

// firstByte of the text of an expression
func firstByte(n *Node) byte {
	n = leftmost(n)
	switch n.K {
	case KList:
		return '['
	case KHash:
		return '{'
	case KParen:
		return '('
	case KResource, KDefaults, KOverride, KHeredoc:
		return '@'
	case KNegate:
		return '-'
	case KNot:
		return '!'
	case KUnfold:
		return '*'
	case KConcat:
		return '"'
	case KVar:
		return '$'
	}
	if n.Src != "" {
		return n.Src[0]
	}
	if n.S != "" {
		return n.S[0]
	}
	return 'a'
}

// arg generates an expression where keywords that begin definitions are names
func (g *G) arg() *Node { return argSafe(g.expr(lvRel)) }

func argSafe(e *Node) *Node {
	switch leftmost(e).K {
	case KSite, KTypeAlias, KTypeMapping, KTypeDef, KFunction, KPlan, KApplication:
		return paren(e)
	}
	return e
}

func (g *G) attrName() string {
	if g.pct(15) {
		return g.pick(allKeywords)
	}
	if g.pct(7) {
		return g.ident()
	}
	return g.pick([]string{"mode", "ensure", "owner", "a", "x_1", "require", "notice", "content"})
}

func (g *G) attrs(max int, plus, splat int) (r []*Node) {
	if g.sloppy {
		splat += 15
	}
	for i := g.size(max + 1); i > 0; i-- {
		if g.pct(splat) {
			r = append(r, &Node{K: KSplat, A: g.expr(lvSel)})
			continue
		}
		op := "=>"
		if g.pct(plus) {
			op = "+>"
		}
		r = append(r, &Node{K: KAttr, S: g.attrName(), Op: op, A: g.expr(lvSel)})
	}
	return
}

func (g *G) resourceLike() *Node {
	form := ""
	switch g.n(8) {
	case 6:
		form = "virtual"
	case 7:
		form = "exported"
	}
	switch g.weighted(50, 14, 14, 18) {
	case 0:
		var t *Node
		switch g.n(10) {
		case 8:
			t = mkName("class")
		case 9:
			t = g.typeExpr()
		default:
			t = mkName(g.pick([]string{"file", "user", "foo::bar", "package", "::top::x", "notice", "resource", "workflow"}))
		}
		n := &Node{K: KResource, A: t, Op: form}
		for i := 1 + g.size(2); i > 0; i-- {
			b := &Node{K: KBody, A: g.title(), L: g.attrs(3, 2, 6)}
			n.L = append(n.L, b)
		}
		return n
	case 1:
		var t *Node = g.ref()
		if g.pct(10) {
			t = &Node{K: KAccess, A: mkRef("Resource"), L: []*Node{g.arg()}}
		}
		if form != "" && g.pct(70) {
			form = ""
		}
		n := &Node{K: KDefaults, A: t, Op: form, L: g.attrs(3, 3, 4)}
		return n
	case 2:
		t := &Node{K: KAccess, A: g.ref(), L: g.elements(2)}
		if len(t.L) == 0 {
			t.L = append(t.L, g.str())
		}
		if t.A.S == "Resource" && len(t.L) == 1 {
			t.A.S = "File"
		}
		if form != "" && g.pct(70) {
			form = ""
		}
		return &Node{K: KOverride, A: t, Op: form, L: g.attrs(3, 15, 4)}
	default:
		return g.collect()
	}
}

func (g *G) title() *Node {
	switch g.n(6) {
	case 0, 1:
		return g.str()
	case 2:
		return g.variable()
	case 3:
		return g.array()
	default:
		e := g.expr(lvSel)
		if b := firstByte(e); b == '*' {
			return paren(e)
		}
		return e
	}
}

func (g *G) collect() *Node {
	q := &Node{K: KQuery, A: &Node{K: KNop}, Flag: g.pct(30)}
	if g.pct(75) {
		q.A = g.query()
	}
	n := &Node{K: KCollect, A: g.ref(), B: q}
	if g.pct(4) {
		n.A = g.name()
	}
	if g.pct(25) {
		n.L = g.attrs(2, 20, 6)
		n.Flag = true
	}
	g.tag("collect")
	return n
}

func (g *G) query() *Node {
	switch g.n(8) {
	case 0, 1, 2:
		return &Node{K: KBin, S: g.pick(binOps[lvEq]), A: g.name(), B: at(lvShift, g.leaf())}
	case 3:
		return g.binary("and", g.query(), g.query())
	case 4:
		return g.binary("or", g.query(), g.query())
	case 5:
		return paren(g.query())
	case 6:
		return g.leafQuery()
	default:
		return g.expr(lvSel)
	}
}

func (g *G) leafQuery() *Node {
	switch g.n(4) {
	case 0:
		return g.name()
	case 1:
		return g.variable()
	case 2:
		return g.str()
	default:
		return g.integer()
	}
}

func (g *G) relChain() *Node {
	operand := func() *Node {
		switch g.n(4) {
		case 0:
			return g.resourceLike()
		case 1:
			return g.collect()
		default:
			return &Node{K: KAccess, A: g.ref(), L: []*Node{g.arg()}}
		}
	}
	n := operand()
	for i := 1 + g.size(2); i > 0; i-- {
		n = g.binary(g.pick(binOps[lvRel]), n, operand())
	}
	return n
}

// ---------------------------------------------------------------------------------------------
// Definitions

var classNames = []string{"foo", "a::b", "x", "::top", "bar::_x", "File", "Foo::Bar", "any", "init", "z_1", "a::init"}

func (g *G) defName() string {
	if g.pct(7) {
		return g.ident()
	}
	for {
		n := g.pick(classNames)
		if g.pct(10) {
			if n = g.pick(reservedTypes); n == "type" {
				continue
			}
			if g.pct(30) {
				n = strings.ToUpper(n[:1]) + n[1:]
			}
		}
		if n == "bar::_x" {
			n = "bar::x"
		}
		return n
	}
}

func (g *G) typeName() string {
	if g.pct(30) {
		n := g.pick(reservedTypes)
		b := []byte(strings.ToUpper(n[:1]) + n[1:])
		if g.pct(25) {
			for i := 1; i < len(b); i++ {
				if g.pct(30) {
					b[i] -= 'a' - 'A'
				}
			}
		}
		return string(b)
	}
	if g.pct(10) {
		return g.typeIdent()
	}
	return g.pick([]string{"X", "Foo::Bar", "Mine"})
}

func (g *G) definition() *Node {
	kind := g.weighted(24, 14, 12, 8, 6, 14, 3, 8, 4, 5, 5)
	if g.manyDefs && g.bool() {
		kind = g.weighted(3, 0, 0, 3, 0, 0, 0, 0, 0, 0, 1)
	}
	if kind == 3 && !g.tasks {
		kind = 0
	}
	switch kind {
	case 0:
		n := &Node{K: KClass, S: g.defName(), L: g.params(3)}
		if g.pct(25) {
			n.Op = g.pick([]string{"foo", "a::b", "::top", "default", "Base"})
		}
		n.B = g.defBody()
		return n
	case 1:
		return &Node{K: KDefine, S: g.defName(), L: g.params(3), B: g.defBody()}
	case 2:
		n := &Node{K: KFunction, S: g.defName(), L: g.params(3)}
		if g.pct(30) {
			n.C = g.typeExpr()
		}
		n.B = g.defBody()
		return n
	case 3:
		n := &Node{K: KPlan, S: g.defName(), L: g.params(3)}
		if g.pct(30) {
			n.C = g.typeExpr()
		}
		n.B = g.defBody()
		return n
	case 4:
		return &Node{K: KApplication, S: g.defName(), L: g.params(2), B: g.defBody()}
	case 5:
		n := &Node{K: KNode}
		for i := 1 + g.size(2); i > 0; i-- {
			n.L = append(n.L, g.hostname())
		}
		if g.pct(20) {
			n.A = g.hostname()
		}
		n.B = g.defBody()
		return n
	case 6:
		return &Node{K: KSite, B: g.defBody()}
	case 7:
		return g.typeAlias()
	case 8:
		l := &Node{K: KAccess, A: mkRef(g.pick([]string{"Runtime", "Runtime", "Foo"})), L: g.elements(2)}
		if len(l.L) == 0 || g.bool() {
			l.L = []*Node{mkStr("ruby"), g.mappingPart()}
			if g.pct(10) {
				l.L = append(l.L, g.leaf())
			}
		}
		return &Node{K: KTypeMapping, A: l, B: g.mappingTarget()}
	case 9:
		n := &Node{K: KTypeDef, S: g.pick(refs), B: g.defBody()}
		if g.bool() {
			n.Op = g.pick(refs)
		}
		return n
	default:
		n := &Node{K: KCapability, S: g.pick([]string{"produces", "consumes"}), Op: g.pick([]string{"Sql", "A::B", "sql"}), L: g.attrs(2, 2, 5)}
		switch g.n(4) {
		case 0:
			n.A = &Node{K: KAccess, A: g.ref(), L: []*Node{g.leafQuery()}}
		case 1:
			n.A = mkName("foo")
		default:
			n.A = g.ref()
		}
		return n
	}
}

func (g *G) mappingPart() *Node {
	if g.bool() {
		return mkStr("X")
	}
	return g.replacement()
}

// replacement is a pattern with its replacement, or something similar
func (g *G) replacement() *Node {
	n := &Node{K: KList, L: []*Node{g.regexp(), mkStr("y")}}
	switch g.n(12) {
	case 7:
		n.L[0] = g.leaf()
	case 8:
		n.L[1] = g.leaf()
	case 9:
		n.L = append(n.L, mkStr("z"))
	case 10:
		n.L = n.L[:1]
	case 11:
		n.L[0], n.L[1] = n.L[1], n.L[0]
	}
	return n
}

func (g *G) mappingTarget() *Node {
	switch g.n(5) {
	case 0:
		return g.typeExpr()
	case 4:
		return &Node{K: KAccess, A: g.typeExpr(), L: []*Node{g.arg()}}
	case 1:
		return g.replacement()
	case 2:
		return g.expr(lvSel)
	default:
		return g.ref()
	}
}

func (g *G) typeAlias() *Node {
	n := &Node{K: KTypeAlias, S: g.typeName()}
	object := func(keys ...*Node) *Node {
		return &Node{K: KAccess, Syn: true, A: &Node{K: KRef, S: "Object", Syn: true}, L: keys}
	}
	switch g.n(8) {
	case 0: // type X = { ... }
		h := &Node{K: KHash, L: g.entries(g.size(3))}
		n.A = object(h)
		n.M = []*Node{h}
	case 1: // type X = [ x ]
		e := g.arg()
		n.A = object(e)
		n.M = []*Node{{K: KList, L: []*Node{e}, Syn: true}}
	case 2: // type X = Parent { ... }
		h := &Node{K: KHash, L: g.entries(g.size(3))}
		r := mkRef(g.pick([]string{"Parent", "A::B"}))
		pe := &Node{K: KEntry, Syn: true, A: &Node{K: KStr, S: "parent", Syn: true}, B: r}
		n.A = object(&Node{K: KHash, Syn: true, Op: "parent", L: append([]*Node{pe}, h.L...)})
		n.M = []*Node{r, h}
	case 3:
		h := &Node{K: KHash, L: g.entries(g.size(3))}
		r := mkRef(g.pick([]string{"Object", "TypeSet"}))
		n.A = &Node{K: KAccess, Syn: true, A: r, L: []*Node{h}}
		n.M = []*Node{r, h}
	case 4, 5:
		n.A = g.typeExpr()
	default:
		n.A = g.ref()
		if g.pct(40) {
			e := g.expr(lvSel)
			if e.K != KHash && !(e.K == KList && len(e.L) == 1) {
				n.A = e
			}
		}
	}
	return n
}

// labels is a host name without quotes
func (g *G) labels() string {
	var l []string
	for i := 1 + g.size(5); i > 0; i-- {
		switch g.n(6) {
		case 4: // two labels that are numbers
			l = append(l, g.pick([]string{"0", "1", "10", "192"})+"."+g.pick([]string{"0", "5", "50", "08", "168", "007", "100"}))
		case 5:
			l = append(l, g.pick([]string{"Example", "X1", "Foo_b"}))
		default:
			l = append(l, g.pick([]string{"a", "web", "n_1", "x9z", "e1"}))
		}
	}
	if g.pct(20) {
		l = append(l, g.pick([]string{"7", "0", "017", "0x1F", "12345"}))
	}
	return strings.Join(l, ".")
}

func (g *G) hostname() *Node {
	switch g.n(8) {
	case 0, 1, 2:
		return mkStr(g.pick([]string{"a", "host.example.com", "x-1", "a b", "", "é", "web_01"}))
	case 3:
		return g.regexp()
	case 4:
		return &Node{K: KDefault, S: "default"}
	case 5:
		if g.noHeredoc {
			return mkStr("a")
		}
		if g.pct(25) {
			return g.simpleHeredoc()
		}
		return g.concat()
	case 6:
		s := g.labels()
		return &Node{K: KStr, S: s, Src: s, Op: "bare"}
	default:
		s := g.pick([]string{"web", "a.b.c", "x.1.2.y", "10.0.0.1", "www.Example.com", "n1", "a.007", "web.0x1"})
		return &Node{K: KStr, S: s, Src: s, Op: "bare"}
	}
}

func (g *G) defBody() *Node {
	return g.block(3)
}

// program generates a whole program
func (g *G) program(budget, max int) *Node {
	g.budget = budget
	n := mkProgram(g.statements(max)...)
	if g.rarely() {
		g.grow(n)
	}
	finish(n)
	return n
}

// finish sets what depends on where a node is: full names and calls that are statements.
func finish(n *Node) {
	fixSteps(n)
	var rec func(n *Node, stack []string)
	qual := func(stack []string, s string) string {
		return strings.Join(append(stack[:len(stack):len(stack)], s), "::")
	}
	rec = func(n *Node, stack []string) {
		if n == nil {
			return
		}
		switch n.K {
		case KClass:
			nm := strings.TrimPrefix(n.S, "::")
			n.Full = qual(stack, nm)
			stack = append(stack[:len(stack):len(stack)], nm)
		case KPlan:
			stack = append(stack[:len(stack):len(stack)], n.S)
		case KStep:
			n.Full = qual(stack, n.S)
			if n.Op == "workflow" {
				stack = append(stack[:len(stack):len(stack)], n.S)
			}
		case KCapability:
			n.Full = qual(stack, n.Op)
		case KBlock:
			for _, s := range n.L {
				if s.K == KCall {
					s.Flag = true
				}
			}
		}
		for _, c := range n.Parts() {
			rec(c, stack)
		}
	}
	rec(n, nil)
}
