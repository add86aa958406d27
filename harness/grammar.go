package main

import (
	"strconv"
	"strings"
)

// A reference parser: the grammar of programs over sequences of tokens. It says of each sequence whether it is
// a program, and if so, of which tree. It leaves a few oddities open.

type tk struct {
	k    string // what kind of token: itself, or name, ref, var, int, float, str, regexp, bool
	s    string // text
	glue bool   // no white space before
	nl   bool   // first on its line
	c    string // kind where it is
	v    string // what is denoted, if that is not what is between the ends of the text
	n    *Node  // what is denoted by a string with interpolations
}

func (t tk) value() string {
	if t.v != "" || len(t.s) < 2 {
		return t.v
	}
	return t.s[1 : len(t.s)-1]
}

type (
	refReject  struct{ at int }
	refUnknown struct{ why string }
)

type refParser struct {
	ts       []tk
	i        int
	workflow bool
	stack    []string
	odd      []*Node // calls that are statements or else unclaimed
}

func (p *refParser) cur() string {
	if p.i < len(p.ts) {
		return p.ts[p.i].c
	}
	return ""
}

func (p *refParser) peek() string {
	if p.i+1 < len(p.ts) {
		return p.ts[p.i+1].c
	}
	return ""
}

func (p *refParser) text() string { return p.ts[p.i].s }
func (p *refParser) reject()      { panic(refReject{p.i}) }
func (p *refParser) unknown(why string) {
	panic(refUnknown{why})
}

func (p *refParser) is(ks ...string) bool { return isOneOf(p.cur(), ks...) }

func (p *refParser) eat(ks ...string) string {
	if !p.is(ks...) || p.cur() == "" {
		p.reject()
	}
	s := p.text()
	p.i++
	return s
}

func (p *refParser) opt(ks ...string) bool {
	if p.cur() != "" && p.is(ks...) {
		p.i++
		return true
	}
	return false
}

// classify finds out what each token is where it is
func classify(ts []tk) {
	for i := range ts {
		t := &ts[i]
		prev, next := "", ""
		if i > 0 {
			prev = ts[i-1].c
		}
		if i+1 < len(ts) {
			next = ts[i+1].s
		}
		t.c = t.k
		switch t.k {
		case "[":
			if !t.glue || i == 0 {
				t.c = "l["
			}
		case "(":
			if t.nl || i == 0 {
				t.c = "w("
			}
		case "{":
			if prev == "?" {
				t.c = "?{"
			}
		case "|":
			if prev == "|" || strings.HasPrefix(next, "{") || strings.HasPrefix(next, ">") {
				t.c = "|e"
			}
		}
	}
}

var refWords = append([]string{"plan"}, allKeywords...)

func (p *refParser) keyword() bool { return isOneOf(p.cur(), refWords...) }

func (p *refParser) word() (string, bool) {
	if p.is("name") || p.keyword() {
		s := p.text()
		p.i++
		return s, true
	}
	return "", false
}

func (p *refParser) list(end string, f func() *Node) (r []*Node) {
	for !p.endsList(end) {
		r = append(r, f())
		if !p.opt(",") {
			if !p.endsList(end) {
				p.reject()
			}
			break
		}
	}
	return
}

func (p *refParser) endsList(end string) bool {
	return p.cur() == end || end == "|e" && p.cur() == "|"
}

func (p *refParser) closeList() { p.i++ }

// block is what is between braces, or everything
func (p *refParser) block(end string) *Node {
	type stmt struct {
		n    *Node
		l    []*Node
		semi bool
	}
	var ss []stmt
	for p.cur() != end {
		s := stmt{n: p.relationship()}
		for p.opt(",") {
			if s.l == nil {
				s.l = []*Node{s.n}
			}
			s.l = append(s.l, p.relationship())
		}
		s.semi = p.opt(";")
		ss = append(ss, s)
	}
	if end != "" {
		p.i++
	}
	b := &Node{K: KBlock}
	for i := 0; i < len(ss); i++ {
		s := ss[i]
		n := s.n
		if s.l == nil && n.K == KName && isOneOf(n.S, stmtCalls...) && i+1 < len(ss) {
			if s.semi {
				p.unknown("the name of a statement call before a semicolon")
			}
			i++
			args := ss[i].l
			if args == nil {
				args = []*Node{ss[i].n}
				p.settle(ss[i].n, false)
			}
			n = &Node{K: KCall, A: n, L: args, Flag: true}
		} else if s.l != nil {
			p.reject()
		} else if n.K == KCall {
			p.settle(n, true)
		}
		b.L = append(b.L, n)
	}
	return b
}

// settle sets whether a call is a statement
func (p *refParser) settle(n *Node, stmt bool) {
	if n.K != KCall {
		return
	}
	n.Flag = stmt
	for i, o := range p.odd {
		if o == n {
			p.odd = append(p.odd[:i:i], p.odd[i+1:]...)
			break
		}
	}
}

// value is a part of a list, a hash or arguments. Some keywords are names there.
func (p *refParser) value() *Node {
	switch {
	case p.is("type", "function", "plan", "application", "consumes", "produces", "site"):
		if p.cur() == "type" && p.peek() == "(" {
			return p.relationship()
		}
		n := mkName(p.text())
		p.i++
		if p.is("(") {
			n = p.call(n)
		}
		return n
	}
	return p.relationship()
}

func (p *refParser) argument() *Node {
	n := p.value()
	if p.opt("=>") {
		n = &Node{K: KEntry, A: n, B: p.value()}
	}
	return n
}

func (p *refParser) entry() *Node {
	n := p.value()
	p.eat("=>")
	return &Node{K: KEntry, A: n, B: p.value()}
}

func joinEntries(ns []*Node) (r []*Node) {
	var h *Node
	for _, n := range ns {
		if n.K == KEntry {
			if h == nil {
				h = &Node{K: KHash}
				r = append(r, h)
			}
			h.L = append(h.L, n)
			continue
		}
		h = nil
		r = append(r, n)
	}
	return
}

func (p *refParser) elements(end string) []*Node {
	l := p.list(end, p.argument)
	p.i++
	return joinEntries(l)
}

func (p *refParser) entries() *Node {
	h := &Node{K: KHash, L: p.list("}", p.entry)}
	p.i++
	return h
}

func (p *refParser) left(next func() *Node, ops ...string) *Node {
	n := next()
	for p.is(ops...) {
		op := p.text()
		p.i++
		n = &Node{K: KBin, S: op, A: n, B: next()}
	}
	return n
}

func (p *refParser) relationship() *Node {
	return p.left(p.assignment, "->", "~>", "<-", "<~")
}

func (p *refParser) assignment() *Node {
	n := p.step()
	for p.is("=", "+=", "-=") {
		op := p.text()
		p.i++
		n = &Node{K: KBin, S: op, A: n, B: p.assignment()}
	}
	return n
}

func (p *refParser) resource() *Node {
	n := p.expression()
	if p.is("{") {
		n = p.resourceOf(n, "")
	}
	return n
}

func (p *refParser) expression() *Node {
	n := p.selector()
	if p.is("produces", "consumes") {
		switch n.K {
		case KName, KRef, KReserved, KAccess:
			c := &Node{K: KCapability, S: p.text(), A: n}
			p.i++
			c.Op = p.className()
			c.Full = p.qualified(c.Op)
			if n.K == KReserved {
				c.A = mkName(p.qualified(n.S))
			}
			p.eat("{")
			c.L = p.attributes()
			p.eat("}")
			return c
		}
	}
	return n
}

func (p *refParser) qualified(s string) string {
	return strings.Join(append(p.stack[:len(p.stack):len(p.stack)], s), "::")
}

func (p *refParser) selector() *Node {
	n := p.or()
	for p.opt("?") {
		s := &Node{K: KSelector, A: n}
		if p.opt("?{") {
			if p.is("}") {
				p.unknown("a selector without anything to select")
			}
			s.L = p.list("}", p.selEntry)
			p.i++
		} else {
			s.L = []*Node{p.selEntry()}
		}
		n = s
	}
	return n
}

func (p *refParser) selEntry() *Node {
	n := &Node{K: KSelEntry, A: p.expression()}
	p.eat("=>")
	n.B = p.expression()
	return n
}

func (p *refParser) or() *Node       { return p.left(p.and, "or") }
func (p *refParser) and() *Node      { return p.left(p.compare, "and") }
func (p *refParser) compare() *Node  { return p.left(p.equal, "<", "<=", ">", ">=") }
func (p *refParser) equal() *Node    { return p.left(p.shift, "==", "!=") }
func (p *refParser) shift() *Node    { return p.left(p.add, "<<", ">>") }
func (p *refParser) add() *Node      { return p.left(p.multiply, "+", "-") }
func (p *refParser) multiply() *Node { return p.left(p.match, "*", "/", "%") }
func (p *refParser) match() *Node    { return p.left(p.in, "=~", "!~") }
func (p *refParser) in() *Node       { return p.left(p.unary, "in") }

func (p *refParser) signed() bool {
	return p.i+1 < len(p.ts) && p.ts[p.i+1].glue && isOneOf(p.ts[p.i+1].k, "int", "float")
}

func (p *refParser) unary() *Node {
	switch p.cur() {
	case "-":
		if p.signed() {
			p.i++
			t := &p.ts[p.i]
			was := t.s
			t.s = "-" + t.s
			defer func() { t.s = was }()
			return p.primary()
		}
		p.i++
		return &Node{K: KNegate, A: p.primary()}
	case "+":
		if p.signed() {
			p.i++
			return p.primary()
		}
		p.reject()
	case "!":
		p.i++
		return &Node{K: KNot, A: p.unary()}
	case "*":
		p.i++
		return &Node{K: KUnfold, A: p.unary()}
	case "@", "@@":
		form := map[string]string{"@": "virtual", "@@": "exported"}[p.text()]
		p.i++
		n := p.primary()
		if !p.is("{") {
			p.reject()
		}
		return p.resourceOf(n, form)
	}
	return p.primary()
}

// method makes a call of a dotted name
func method(n *Node, args []*Node, lambda *Node) *Node {
	return &Node{K: KMethod, A: n, L: args, B: lambda}
}

func settled(n *Node) *Node {
	if n.K == KDot {
		return method(n, nil, nil)
	}
	return n
}

func (p *refParser) primary() *Node {
	n := p.atom()
	for {
		switch p.cur() {
		case "(", "|":
			n = p.call(n)
		case "<|", "<<|":
			n = settled(n)
			q := &Node{K: KQuery, Flag: p.cur() == "<<|", A: &Node{K: KNop}}
			end := map[bool]string{false: "|>", true: "|>>"}[q.Flag]
			p.i++
			if !p.is(end) {
				q.A = p.expression()
			}
			p.eat(end)
			n = &Node{K: KCollect, A: n, B: q}
			if p.opt("{") {
				n.L = p.attributes()
				p.eat("}")
			}
		case "[":
			n = settled(n)
			p.i++
			l := p.elements("]")
			if n.K == KName && isOneOf(n.S, stmtCalls...) {
				n = &Node{K: KCall, A: n, L: []*Node{{K: KList, L: l}}, Flag: true}
				p.odd = append(p.odd, n)
			} else {
				n = &Node{K: KAccess, A: n, L: l}
			}
		case ".":
			p.i++
			n = settled(n)
			if p.is("type") {
				n = &Node{K: KDot, A: n, B: mkName("type")}
				p.i++
			} else {
				n = &Node{K: KDot, A: n, B: p.atom()}
			}
		default:
			return settled(n)
		}
	}
}

func (p *refParser) call(n *Node) *Node {
	var args []*Node
	var lambda *Node
	if p.opt("(") {
		args = p.elements(")")
	}
	if p.is("|") {
		lambda = p.lambda()
	}
	if n.K == KDot {
		return method(n, args, lambda)
	}
	return &Node{K: KCall, A: n, L: args, B: lambda}
}

func (p *refParser) lambda() *Node {
	p.eat("|")
	n := &Node{K: KLambda, L: p.list("|e", p.parameter)}
	p.i++
	if p.opt(">>") {
		n.A = p.typeExpr()
	}
	p.eat("{")
	n.B = p.block("}")
	return n
}

func (p *refParser) atom() *Node {
	if p.i >= len(p.ts) {
		p.reject()
	}
	t := p.ts[p.i]
	switch t.c {
	case "(", "w(":
		p.i++
		n := &Node{K: KParen, A: p.relationship()}
		p.eat(")")
		return n
	case "[", "l[":
		p.i++
		return &Node{K: KList, L: p.elements("]")}
	case "{":
		p.i++
		return p.entries()
	case "bool":
		p.i++
		return &Node{K: KBool, S: t.s}
	case "int":
		p.i++
		v, err := strconv.ParseInt(t.s, 10, 64)
		op := ""
		digits := strings.TrimPrefix(t.s, "-")
		switch {
		case strings.HasPrefix(digits, "0x"), strings.HasPrefix(digits, "0X"):
			op = "16"
			v, err = strconv.ParseInt(strings.Replace(t.s, digits[:2], "", 1), 16, 64)
		case len(digits) > 1 && digits[0] == '0':
			op = "8"
			v, err = strconv.ParseInt(t.s, 8, 64)
		}
		if err != nil {
			p.i--
			p.reject()
		}
		return &Node{K: KInt, I: v, Op: op}
	case "float":
		p.i++
		v, _ := strconv.ParseFloat(t.s, 64)
		return &Node{K: KFloat, F: v}
	case "str":
		p.i++
		if t.n != nil {
			return t.n
		}
		return &Node{K: KStr, S: t.value()}
	case "regexp":
		p.i++
		return &Node{K: KRegexp, S: t.value()}
	case "attr", "private":
		p.i++
		return &Node{K: KReserved, S: t.s}
	case "default":
		p.i++
		return &Node{K: KDefault}
	case "undef":
		p.i++
		return &Node{K: KUndef}
	case "ref":
		p.i++
		return &Node{K: KRef, S: t.s}
	case "name":
		p.i++
		return mkName(t.s)
	case "var":
		p.i++
		if v, err := strconv.ParseInt(t.s[1:], 10, 64); err == nil {
			return &Node{K: KVar, I: v, Flag: true}
		}
		return &Node{K: KVar, S: t.s[1:]}
	case "case":
		return p.caseOf()
	case "if", "unless":
		return p.ifOf()
	case "class":
		p.i++
		if p.is("{") {
			return mkName("class")
		}
		return p.class()
	case "type":
		p.i++
		if p.is("ref") {
			return p.typeDef()
		}
		return mkName("type")
	case "plan", "function":
		return p.function()
	case "node":
		return p.node()
	case "define", "application":
		p.i++
		n := &Node{K: KDefine, S: p.className()}
		if t.c == "application" {
			n.K = KApplication
		}
		n.L = p.parameters()
		p.eat("{")
		n.B = p.block("}")
		return n
	case "site":
		p.i++
		p.eat("{")
		return &Node{K: KSite, B: p.block("}")}
	}
	p.reject()
	return nil
}

func (p *refParser) ifOf() *Node {
	n := &Node{K: KIf, C: &Node{K: KNop}}
	if p.is("unless") {
		n.K = KUnless
	}
	p.i++
	n.A = p.or()
	p.eat("{")
	n.B = p.block("}")
	switch p.cur() {
	case "else":
		p.i++
		p.eat("{")
		n.C = p.block("}")
	case "elsif":
		if n.K == KUnless {
			p.reject()
		}
		n.C = p.ifOf()
	}
	return n
}

func (p *refParser) caseOf() *Node {
	p.i++
	n := &Node{K: KCase, A: p.expression()}
	p.eat("{")
	for {
		o := &Node{K: KOption, L: p.list(":", p.expression)}
		if len(o.L) == 0 {
			p.reject()
		}
		p.i++
		p.eat("{")
		o.B = p.block("}")
		n.L = append(n.L, o)
		if p.opt("}") {
			return n
		}
	}
}

// resourceOf parses what is in braces after the type of a resource
func (p *refParser) resourceOf(n *Node, form string) *Node {
	start := p.i
	p.i++
	if form == "" && n.K == KName && isOneOf(n.S, stmtCalls...) {
		// a call, unless it turns out to be a resource
		if h := p.try(p.entries); h != nil {
			return &Node{K: KCall, A: n, L: []*Node{h}}
		}
	}
	p.i = start + 1
	titled := false
	if !p.is("*", "}") && !(p.keyword() && isOneOf(p.peek(), "=>", "+>")) {
		t := p.expression()
		if p.is(":") {
			titled = true
			r := &Node{K: KResource, A: n, Op: form}
			for {
				b := &Node{K: KBody, A: t}
				p.eat(":")
				b.L = p.attributes()
				r.L = append(r.L, b)
				if !p.opt(";") || p.is("}") {
					break
				}
				t = p.expression()
			}
			p.eat("}")
			return r
		}
	}
	if !titled {
		p.i = start + 1
		r := &Node{A: n, Op: form}
		switch {
		case n.K == KRef:
			r.K = KDefaults
		case n.K == KAccess && n.A.K == KRef && n.A.S == "Resource" && len(n.L) == 1:
			r.K = KDefaults
		case n.K == KAccess:
			r.K = KOverride
		default:
			p.reject()
		}
		r.L = p.attributes()
		p.eat("}")
		return r
	}
	return nil
}

// try parses something, or returns nil
func (p *refParser) try(f func() *Node) (n *Node) {
	stack, odd := len(p.stack), len(p.odd)
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(refReject); !ok {
				panic(r)
			}
			p.stack, p.odd = p.stack[:stack], p.odd[:odd]
			n = nil
		}
	}()
	return f()
}

func (p *refParser) attributes() (r []*Node) {
	for !p.is(";", "}") {
		if p.opt("*") {
			p.eat("=>")
			r = append(r, &Node{K: KSplat, A: p.expression()})
		} else {
			s, ok := p.word()
			if !ok {
				p.reject()
			}
			a := &Node{K: KAttr, S: s, Op: p.eat("=>", "+>")}
			a.A = p.expression()
			r = append(r, a)
		}
		if !p.opt(",") {
			return
		}
	}
	return
}

func (p *refParser) typeExpr() *Node {
	n := &Node{K: KRef, S: p.eat("ref")}
	if p.opt("[") {
		n = &Node{K: KAccess, A: n, L: p.elements("]")}
	}
	return n
}

func (p *refParser) typeDef() *Node {
	t := p.typeExpr()
	if t.K == KAccess {
		p.eat("=")
		return &Node{K: KTypeMapping, A: t, B: p.expression()}
	}
	object := func(l ...*Node) *Node { return &Node{K: KAccess, A: &Node{K: KRef, S: "Object"}, L: l} }
	switch {
	case p.opt("="):
		b := p.expression()
		switch {
		case b.K == KRef && p.is("{"):
			p.i++
			h := p.entries()
			if b.S == "Object" || b.S == "TypeSet" {
				b = &Node{K: KAccess, A: b, L: []*Node{h}}
			} else {
				h.L = append([]*Node{{K: KEntry, A: &Node{K: KStr, S: "parent"}, B: b}}, h.L...)
				b = object(h)
			}
		case b.K == KList && len(b.L) == 1:
			b = object(b.L...)
		case b.K == KHash:
			b = object(b)
		}
		return &Node{K: KTypeAlias, S: t.S, A: b}
	case p.is("inherits", "{"):
		n := &Node{K: KTypeDef, S: t.S}
		if p.opt("inherits") {
			n.Op = p.eat("ref")
		}
		p.eat("{")
		n.B = p.block("}")
		return n
	}
	p.reject()
	return nil
}

func (p *refParser) className() string { return p.eat("name", "ref") }

func (p *refParser) class() *Node {
	n := &Node{K: KClass, S: p.className()}
	name := strings.TrimPrefix(n.S, "::")
	n.Full = p.qualified(name)
	p.stack = append(p.stack, name)
	n.L = p.parameters()
	if p.opt("inherits") {
		if p.opt("default") {
			n.Op = "default"
		} else {
			n.Op = p.className()
		}
	}
	p.eat("{")
	n.B = p.block("}")
	p.stack = p.stack[:len(p.stack)-1]
	return n
}

func (p *refParser) function() *Node {
	n := &Node{K: KFunction}
	if p.is("plan") {
		n.K = KPlan
	}
	p.i++
	n.S = p.eat("name", "ref")
	if n.K == KPlan {
		p.stack = append(p.stack, n.S)
	}
	n.L = p.parameters()
	if p.opt(">>") {
		n.C = p.typeExpr()
	}
	p.eat("{")
	n.B = p.block("}")
	if n.K == KPlan {
		p.stack = p.stack[:len(p.stack)-1]
	}
	return n
}

func (p *refParser) node() *Node {
	p.i++
	n := &Node{K: KNode}
	for {
		n.L = append(n.L, p.host())
		if !p.opt(",") || p.is("inherits", "{") {
			break
		}
	}
	if p.opt("inherits") {
		n.A = p.host()
	}
	p.eat("{")
	n.B = p.block("}")
	return n
}

func (p *refParser) host() *Node {
	if p.is("name", "ref", "int", "float") {
		s := p.text()
		p.i++
		for p.opt(".") {
			s += "." + p.eat("name", "ref", "int", "float")
		}
		return &Node{K: KStr, S: s}
	}
	if !p.is("regexp", "str", "default") {
		p.reject()
	}
	return p.atom()
}

func (p *refParser) parameters() []*Node {
	if !p.is("(", "w(") {
		return nil
	}
	return p.parameterList()
}

func (p *refParser) parameterList() []*Node {
	p.eat("(", "w(")
	l := p.list(")", p.parameter)
	p.i++
	return l
}

func (p *refParser) varName() string {
	s := p.eat("var")[1:]
	if s == "" || s[0] >= '0' && s[0] <= '9' {
		p.reject()
	}
	return s
}

func (p *refParser) parameter() *Node {
	n := &Node{K: KParam}
	if p.is("ref") {
		n.A = p.typeExpr()
	}
	n.Flag = p.opt("*")
	n.S = p.varName()
	if p.opt("=") {
		n.B = p.expression()
	}
	return n
}

// steps of workflows

func (p *refParser) step() *Node {
	n := p.resource()
	if p.workflow && n.K == KName && isOneOf(n.S, styles...) {
		if s, ok := p.word(); ok {
			return p.stepOf(n.S, s)
		}
	}
	return n
}

func (p *refParser) stepOf(style, name string) *Node {
	n := &Node{K: KStep, Op: style, S: name, Full: p.qualified(name)}
	if style == "workflow" {
		p.stack = append(p.stack, name)
	}
	p.eat("{")
	props := p.list("}", p.stepProperty)
	p.i++
	iter := name
	variable := p.is("var")
	if variable {
		iter = p.varName()
		p.eat("=")
		if !p.is("name") {
			p.reject()
		}
	}
	iterated := p.is("name")
	if iterated {
		if !isOneOf(p.text(), "times", "range", "each") {
			p.reject()
		}
		f := mkName(p.text())
		p.i++
		en := func(k string, v *Node) *Node { return &Node{K: KEntry, A: mkName(k), B: v} }
		params := &Node{K: KList, L: p.parameterList()}
		p.eat("|")
		vars := &Node{K: KList, L: p.list("|e", p.parameter)}
		p.i++
		if !p.is("{") {
			if style == "workflow" || style == "resource" {
				p.unknown("an iteration without a body")
			}
			p.reject()
		}
		props = append(props, en("iteration", &Node{K: KHash, L: []*Node{en("name", mkName(iter)), en("function", f), en("params", params), en("vars", vars)}}))
	}
	if len(props) > 0 {
		n.A = &Node{K: KHash, L: props}
	}
	switch style {
	case "workflow":
		if p.opt("{") {
			b := &Node{K: KBlock}
			for !p.opt("}") {
				if p.is("function") {
					b.L = append(b.L, p.function())
					continue
				}
				if !p.is("name") || !isOneOf(p.text(), styles...) {
					p.reject()
				}
				s := p.text()
				p.i++
				w, ok := p.word()
				if !ok {
					p.reject()
				}
				b.L = append(b.L, p.stepOf(s, w))
			}
			if len(b.L) > 0 {
				n.B = b
			}
		}
		p.stack = p.stack[:len(p.stack)-1]
	case "resource":
		if p.opt("{") {
			h := &Node{K: KHash}
			h.L = p.list("}", func() *Node {
				s, ok := p.word()
				if !ok {
					p.reject()
				}
				p.eat("=>")
				v := p.expression()
				if v.K == KCall && v.B != nil {
					p.unknown("a deferred call with a lambda")
				}
				return deferred(&Node{K: KEntry, A: mkName(s), B: v})
			})
			p.i++
			if len(h.L) > 0 {
				n.B = h
			}
		}
	default:
		p.eat("{")
		n.B = p.block("}")
	}
	return n
}

func (p *refParser) stepProperty() *Node {
	s, ok := p.word()
	if !ok {
		p.reject()
	}
	p.eat("=>")
	n := &Node{K: KEntry, A: mkName(s)}
	switch s {
	case "parameters":
		n.B = &Node{K: KList, L: p.parameterList()}
	case "returns":
		p.eat("(", "w(")
		n.B = &Node{K: KList, L: p.list(")", p.returned)}
		p.i++
	default:
		n.B = p.value()
	}
	return n
}

func (p *refParser) returned() *Node {
	n := &Node{K: KParam}
	if p.is("ref") {
		n.A = p.typeExpr()
	}
	n.S = p.varName()
	alias := func() *Node {
		s, ok := p.word()
		if !ok {
			p.reject()
		}
		return &Node{K: KStr, S: s}
	}
	if p.opt("=") {
		if p.opt("(", "w(") {
			n.B = &Node{K: KList, L: p.list(")", alias)}
			p.i++
		} else {
			n.B = alias()
		}
	}
	return n
}

// derive parses the tokens: the tree, nil if there is none, or why that is left open
func derive(ts []tk, single, workflow bool) (n *Node, at int, open string) {
	p := &refParser{ts: ts, workflow: workflow}
	classify(ts)
	defer func() {
		switch r := recover().(type) {
		case nil:
		case refReject:
			n, at = nil, r.at
		case refUnknown:
			n, open = nil, r.why
		default:
			panic(r)
		}
	}()
	if single {
		if len(ts) == 0 {
			return &Node{K: KUndef}, 0, ""
		}
		n = p.relationship()
		if p.i < len(ts) {
			p.reject()
		}
	} else {
		n = p.block("")
	}
	if len(p.odd) > 0 {
		return nil, 0, "a statement call with brackets that is no statement"
	}
	return
}
