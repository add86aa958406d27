package main

import (
	"fmt"
	"strconv"
	"strings"
)

// The model: our own syntax tree. Everything the checks expect of the parser is derived from it,
// by code that shares nothing with the code under test.

type Kind int

const (
	KInt Kind = iota
	KFloat
	KStr
	KConcat
	KText // ${ } or $name inside a string
	KHeredoc
	KRegexp
	KBool
	KUndef
	KDefault
	KName
	KRef
	KReserved
	KVar
	KList
	KHash
	KEntry
	KParen
	KBin
	KNot
	KNegate
	KUnfold
	KSelector
	KSelEntry
	KAccess
	KCall
	KMethod
	KDot
	KLambda
	KParam
	KIf
	KUnless
	KCase
	KOption
	KBlock
	KNop
	KResource
	KBody
	KAttr
	KSplat
	KDefaults
	KOverride
	KCollect
	KQuery
	KClass
	KFunction
	KPlan
	KDefine
	KApplication
	KNode
	KSite
	KTypeAlias
	KTypeMapping
	KTypeDef
	KCapability
	KStep
	KRender
	KRenderS
	KEpp
	KProgram
)

type Node struct {
	K  Kind
	S  string // name, operator, denoted text, ...
	Op string // secondary operator, form (virtual, exported)
	I  int64
	F  float64

	A, B, C *Node
	L, M    []*Node
	Flag    bool // KHash: no braces; KCall: statement position; KParam: captures rest; KSelector: without braces; ...

	Src string // spelling of a literal

	Full string // KClass, KStep, KCapability: name as it ends up in the tree

	X any // read from a parsed tree: the node itself
	V any // and its value, if it is a literal

	// set by the layout
	Off, End int
	Next     int  // end of the token that follows, or 0
	Syn      bool // synthetic: there is no text for this node itself
}

// ---------------------------------------------------------------------------------------------
// PN

func pnStr(s string) string {
	var b strings.Builder
	b.WriteByte('"')
	for _, c := range s {
		switch c {
		case '\t':
			b.WriteString(`\t`)
		case '\n':
			b.WriteString(`\n`)
		case '\r':
			b.WriteString(`\r`)
		case '"':
			b.WriteString(`\"`)
		case '\\':
			b.WriteString(`\\`)
		default:
			if c < 0x20 {
				b.WriteString(`\o`)
				o := strconv.FormatInt(int64(c), 8)
				b.WriteString(strings.Repeat("0", 3-len(o)))
				b.WriteString(o)
			} else {
				b.WriteRune(c)
			}
		}
	}
	b.WriteByte('"')
	return b.String()
}

// pnFloat: sixteen digits, no trailing zeroes, always recognisable as a float
func pnFloat(f float64) string {
	s := fmt.Sprintf("%.16g", f)
	mant, exp := s, ""
	if i := strings.IndexByte(s, 'e'); i >= 0 {
		mant, exp = s[:i], s[i:]
	}
	if exp == "" && !strings.Contains(mant, ".") {
		s = fmt.Sprintf("%.16e", f)
		i := strings.IndexByte(s, 'e')
		mant, exp = s[:i], s[i:]
	}
	if i := strings.IndexByte(mant, '.'); i >= 0 {
		for len(mant) > i+2 && mant[len(mant)-1] == '0' {
			mant = mant[:len(mant)-1]
		}
	}
	return mant + exp
}

func pnSeq(b *strings.Builder, ns []*Node) {
	for i, n := range ns {
		if i > 0 {
			b.WriteByte(' ')
		}
		n.pn(b)
	}
}

func pnCall(b *strings.Builder, name string, ns ...*Node) {
	b.WriteByte('(')
	b.WriteString(name)
	for _, n := range ns {
		b.WriteByte(' ')
		n.pn(b)
	}
	b.WriteByte(')')
}

type pnMap struct {
	b     *strings.Builder
	first bool
}

func newPnMap(b *strings.Builder, call string) *pnMap {
	b.WriteByte('(')
	b.WriteString(call)
	b.WriteString(" {")
	return &pnMap{b, true}
}

func (m *pnMap) key(k string) *strings.Builder {
	if !m.first {
		m.b.WriteByte(' ')
	}
	m.first = false
	m.b.WriteByte(':')
	m.b.WriteString(k)
	m.b.WriteByte(' ')
	return m.b
}

func (m *pnMap) list(k string, ns []*Node) {
	b := m.key(k)
	b.WriteByte('[')
	pnSeq(b, ns)
	b.WriteByte(']')
}

func (m *pnMap) node(k string, n *Node) {
	if n != nil {
		n.pn(m.key(k))
	}
}

func (m *pnMap) str(k, s string) { m.key(k).WriteString(pnStr(s)) }

func (m *pnMap) block(k string, n *Node) {
	if n.K == KBlock {
		m.list(k, n.L)
	} else {
		m.list(k, []*Node{n})
	}
}

func (m *pnMap) params(ps []*Node) {
	if len(ps) == 0 {
		return
	}
	b := m.key("params")
	b.WriteByte('{')
	for i, p := range ps {
		if i > 0 {
			b.WriteByte(' ')
		}
		b.WriteByte(':')
		b.WriteString(p.S)
		b.WriteByte(' ')
		pm := &pnMap{b, true}
		b.WriteByte('{')
		pm.node("type", p.A)
		if p.Flag {
			pm.key("splat").WriteString("true")
		}
		pm.node("value", p.B)
		b.WriteByte('}')
	}
	b.WriteByte('}')
}

func (m *pnMap) end() { m.b.WriteString("})") }

func (n *Node) PN() string {
	var b strings.Builder
	n.pn(&b)
	return b.String()
}

func (n *Node) form(m *pnMap) {
	if n.Op != "" {
		m.str("form", n.Op)
	}
}

func (n *Node) pn(b *strings.Builder) {
	switch n.K {
	case KInt:
		if n.Op == "" || n.Op == "10" {
			b.WriteString(strconv.FormatInt(n.I, 10))
		} else {
			fmt.Fprintf(b, "(int {:radix %s :value %d})", n.Op, n.I)
		}
	case KFloat:
		b.WriteString(pnFloat(n.F))
	case KStr:
		b.WriteString(pnStr(n.S))
	case KConcat:
		pnCall(b, "concat", n.L...)
	case KText:
		pnCall(b, "str", n.A)
	case KHeredoc:
		m := newPnMap(b, "heredoc")
		if n.S != "" {
			m.str("syntax", n.S)
		}
		m.node("text", n.A)
		m.end()
	case KRegexp:
		b.WriteString("(regexp " + pnStr(n.S) + ")")
	case KBool:
		b.WriteString(n.S)
	case KUndef:
		b.WriteString("nil")
	case KDefault:
		b.WriteString("(default)")
	case KName:
		b.WriteString("(qn " + pnStr(n.S) + ")")
	case KRef:
		b.WriteString("(qr " + pnStr(n.S) + ")")
	case KReserved:
		b.WriteString("(reserved " + pnStr(n.S) + ")")
	case KVar:
		if n.Flag {
			fmt.Fprintf(b, "(var %d)", n.I)
		} else {
			b.WriteString("(var " + pnStr(n.S) + ")")
		}
	case KList:
		pnCall(b, "array", n.L...)
	case KHash:
		pnCall(b, "hash", n.L...)
	case KEntry, KSelEntry:
		pnCall(b, "=>", n.A, n.B)
	case KParen:
		pnCall(b, "paren", n.A)
	case KBin:
		pnCall(b, n.S, n.A, n.B)
	case KDot:
		pnCall(b, ".", n.A, n.B)
	case KNot:
		pnCall(b, "!", n.A)
	case KNegate:
		pnCall(b, "-", n.A)
	case KUnfold:
		pnCall(b, "unfold", n.A)
	case KSelector:
		b.WriteString("(? ")
		n.A.pn(b)
		b.WriteString(" [")
		pnSeq(b, n.L)
		b.WriteString("])")
	case KAccess:
		pnCall(b, "access", append([]*Node{n.A}, n.L...)...)
	case KCall, KMethod:
		s := "call"
		if n.K == KMethod {
			s = "call-method"
		} else if n.Flag {
			s = "invoke"
		}
		m := newPnMap(b, s)
		m.node("functor", n.A)
		m.list("args", n.L)
		m.node("block", n.B)
		m.end()
	case KLambda:
		m := newPnMap(b, "lambda")
		m.params(n.L)
		m.node("returns", n.A)
		m.block("body", n.B)
		m.end()
	case KParam:
		m := newPnMap(b, "param")
		m.str("name", n.S)
		m.node("type", n.A)
		if n.Flag {
			m.key("splat").WriteString("true")
		}
		m.node("value", n.B)
		m.end()
	case KIf, KUnless:
		s := "if"
		if n.K == KUnless {
			s = "unless"
		}
		m := newPnMap(b, s)
		m.node("test", n.A)
		m.block("then", n.B)
		if n.C.K != KNop {
			m.block("else", n.C)
		}
		m.end()
	case KCase:
		b.WriteString("(case ")
		n.A.pn(b)
		b.WriteString(" [")
		pnSeq(b, n.L)
		b.WriteString("])")
	case KOption:
		m := &pnMap{b, true}
		b.WriteByte('{')
		m.list("when", n.L)
		m.block("then", n.B)
		b.WriteByte('}')
	case KBlock:
		pnCall(b, "block", n.L...)
	case KNop:
		b.WriteString("(nop)")
	case KResource:
		m := newPnMap(b, "resource")
		m.node("type", n.A)
		m.list("bodies", n.L)
		n.form(m)
		m.end()
	case KBody:
		m := &pnMap{b, true}
		b.WriteByte('{')
		m.node("title", n.A)
		m.list("ops", n.L)
		b.WriteByte('}')
	case KAttr:
		b.WriteString("(" + n.Op + " " + pnStr(n.S) + " ")
		n.A.pn(b)
		b.WriteByte(')')
	case KSplat:
		pnCall(b, "splat-hash", n.A)
	case KDefaults, KOverride:
		s, k := "resource-defaults", "type"
		if n.K == KOverride {
			s, k = "resource-override", "resources"
		}
		m := newPnMap(b, s)
		m.node(k, n.A)
		m.list("ops", n.L)
		n.form(m)
		m.end()
	case KCollect:
		m := newPnMap(b, "collect")
		m.node("type", n.A)
		m.node("query", n.B)
		if len(n.L) > 0 {
			m.list("ops", n.L)
		}
		m.end()
	case KQuery:
		s := "virtual-query"
		if n.Flag {
			s = "exported-query"
		}
		if n.A.K == KNop {
			pnCall(b, s)
		} else {
			pnCall(b, s, n.A)
		}
	case KClass, KDefine, KApplication, KFunction, KPlan:
		s := map[Kind]string{KClass: "class", KDefine: "define", KApplication: "application", KFunction: "function", KPlan: "plan"}[n.K]
		m := newPnMap(b, s)
		m.str("name", n.defName())
		if n.Op != "" {
			m.str("parent", n.Op)
		}
		m.params(n.L)
		m.block("body", n.B)
		m.node("returns", n.C)
		m.end()
	case KNode:
		m := newPnMap(b, "node")
		m.list("matches", n.L)
		m.node("parent", n.A)
		m.block("body", n.B)
		m.end()
	case KSite:
		pnCall(b, "site", n.B.L...)
	case KTypeAlias:
		b.WriteString("(type-alias " + pnStr(n.S) + " ")
		n.A.pn(b)
		b.WriteByte(')')
	case KTypeMapping:
		pnCall(b, "type-mapping", n.A, n.B)
	case KTypeDef:
		b.WriteString("(type-definition " + pnStr(n.S) + " " + pnStr(n.Op) + " ")
		n.B.pn(b)
		b.WriteByte(')')
	case KCapability:
		b.WriteString("(" + n.S + " ")
		n.A.pn(b)
		b.WriteString(" [" + pnStr(n.Full))
		for _, o := range n.L {
			b.WriteByte(' ')
			o.pn(b)
		}
		b.WriteString("])")
	case KStep:
		m := newPnMap(b, "step")
		m.str("name", n.Full)
		m.str("style", n.Op)
		m.node("properties", n.A)
		m.node("definition", n.B)
		m.end()
	case KRender:
		pnCall(b, "render", n.A)
	case KRenderS:
		b.WriteString("(render-s " + pnStr(n.S) + ")")
	case KEpp:
		pnCall(b, "epp", n.A.L...)
	case KProgram:
		n.A.pn(b)
	default:
		panic("pn: unknown kind")
	}
}

func (n *Node) defName() string {
	if n.Full != "" {
		return n.Full
	}
	return n.S
}

// Parts returns the direct parts of a node, as the walk over its contents should deliver them.
func (n *Node) Parts() (r []*Node) {
	add := func(ns ...*Node) {
		for _, c := range ns {
			if c != nil {
				r = append(r, c)
			}
		}
	}
	switch n.K {
	case KConcat, KList, KHash, KBlock:
		add(n.L...)
	case KText, KHeredoc, KParen, KNot, KNegate, KUnfold, KQuery, KAttr, KSplat, KRender, KTypeAlias, KProgram, KEpp:
		add(n.A)
	case KVar:
		add(n.M...)
	case KEntry, KSelEntry, KBin, KDot, KTypeMapping:
		add(n.A, n.B)
	case KParam:
		add(n.A, n.B)
	case KSelector, KAccess, KCase, KResource, KBody, KDefaults, KOverride, KCapability:
		add(n.A)
		add(n.L...)
	case KCall, KMethod:
		add(n.A)
		add(n.L...)
		add(n.B)
	case KLambda:
		add(n.L...)
		add(n.B, n.A)
	case KIf, KUnless:
		add(n.A, n.B, n.C)
	case KOption:
		add(n.L...)
		add(n.B)
	case KCollect:
		add(n.A, n.B)
		add(n.L...)
	case KClass, KDefine, KApplication, KFunction, KPlan:
		add(n.L...)
		add(n.B, n.C)
	case KNode:
		add(n.A)
		add(n.L...)
		add(n.B)
	case KSite, KTypeDef:
		add(n.B)
	case KStep:
		add(n.A, n.B)
	}
	return
}

func (n *Node) Walk(f func(n *Node, path []*Node)) {
	var rec func(n *Node, path []*Node)
	rec = func(n *Node, path []*Node) {
		f(n, path)
		p := append(path[:len(path):len(path)], n)
		for _, c := range n.Parts() {
			rec(c, p)
		}
	}
	rec(n, nil)
}

func (n *Node) Count() (c int) {
	n.Walk(func(*Node, []*Node) { c++ })
	return
}

func isDefKind(k Kind) bool {
	switch k {
	case KClass, KFunction, KPlan, KDefine, KApplication, KNode, KSite, KTypeAlias, KTypeMapping, KTypeDef, KCapability, KStep:
		return true
	}
	return false
}
