package main

import (
	"fmt"
	"strings"
)

// The rules of the validators, over model trees. An issue has a code and the offset of the part it is about

type refIssue struct {
	code  string
	n     *Node
	shows []string // what the message names. A label begins with ~
}

type ruleBook struct {
	mode   string // base, tasks or workflow
	issues []refIssue
}

var softCodes = map[string]bool{"VALIDATE_DUPLICATE_KEY": true, "VALIDATE_IDEM_EXPRESSION_NOT_LAST": true}

const deprecationCode = "VALIDATE_FUTURE_RESERVED_WORD"

// refIssues returns what a validator should report for a tree
func refIssues(root *Node, mode string) []refIssue {
	b := &ruleBook{mode: mode}
	root.Walk(func(n *Node, path []*Node) { b.check(n, path) })
	return b.issues
}

func (b *ruleBook) report(code string, n *Node, shows ...string) {
	b.issues = append(b.issues, refIssue{"VALIDATE_" + code, n, shows})
}

var kindLabels = map[Kind]string{KStep: "step", KAccess: "[]", KApplication: "application", KBlock: "block", KCall: "function call", KMethod: "method call", KCapability: "capability", KCase: "'case'", KCollect: "collect", KConcat: "string", KEpp: "epp",
	KFunction: "function definition", KHeredoc: "heredoc", KClass: "class", KIf: "'if'", KUnless: "'unless'", KEntry: "hash entry", KLambda: "lambda", KBool: "boolean", KDefault: "'default'", KFloat: "float", KHash: "hash", KInt: "integer", KList: "array", KStr: "string",
	KUndef: "'undef'", KDot: "'.'", KNode: "node", KNot: "'!'", KParam: "parameter", KParen: "parenthesized", KPlan: "plan", KProgram: "program", KName: "name", KRef: "type-name", KRegexp: "regular expression", KBody: "resource instance", KDefaults: "resource defaults",
	KResource: "resource statement", KOverride: "resource override", KDefine: "'define'", KSelEntry: "selector option", KSelector: "selector expression", KSite: "site", KTypeAlias: "type alias", KTypeMapping: "type mapping", KTypeDef: "type definition", KNegate: "unary minus", KUnfold: "unfold", KVar: "variable", KNop: "nop", KText: "text"}

// label is a part of how a message names what a node is
func label(n *Node) string {
	switch n.K {
	case KBin:
		return "~'" + n.S + "' expression"
	case KAttr:
		return "~'" + n.Op + "' expression"
	case KReserved:
		return "~reserved word '" + n.S + "'"
	}
	return "~" + kindLabels[n.K]
}

func isWordByte(c byte) bool {
	return c == '_' || c >= '0' && c <= '9' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z'
}

// segments tells if a name consists of segments that start with a letter of the given kind
func segments(s string, lo, hi byte) bool {
	for _, p := range strings.Split(s, "::") {
		if p == "" || p[0] < lo || p[0] > hi {
			return false
		}
		for i := range []byte(p) {
			if !isWordByte(p[i]) {
				return false
			}
		}
	}
	return true
}

var reservedTypes = strings.Fields("type any unit scalar boolean numeric integer float collection array hash tuple struct variant optional enum regexp pattern runtime init object sensitive semver semverrange string timestamp timespan typeset")

func isOneOf(s string, of ...string) bool {
	for _, o := range of {
		if s == o {
			return true
		}
	}
	return false
}

func isFuture(s string) bool { return isOneOf(s, "application", "produces", "consumes") }

func isAssignment(n *Node) bool { return n.K == KBin && isOneOf(n.S, "=", "+=", "-=") }
func isRelation(n *Node) bool   { return n.K == KBin && isOneOf(n.S, "->", "~>", "<-", "<~") }
func isUnaryKind(k Kind) bool {
	switch k {
	case KParen, KNot, KNegate, KUnfold, KText, KRender:
		return true
	}
	return false
}

func (b *ruleBook) check(n *Node, path []*Node) {
	var in *Node
	if len(path) > 0 {
		in = path[len(path)-1]
	}
	if b.mode != "base" {
		catalog := isRelation(n)
		switch n.K {
		case KClass, KNode, KResource, KDefaults, KOverride, KCollect, KDefine, KSite, KApplication, KCapability:
			catalog = true
		}
		if catalog {
			b.report("CATALOG_OPERATION_NOT_SUPPORTED", n, sourceText(n))
			return
		}
	}
	if isUnaryKind(n.K) {
		b.rvalue(n.A)
	}
	switch n.K {
	case KStep:
		if b.mode != "workflow" {
			b.report("WORKFLOW_OPERATION_NOT_SUPPORTED", n, sourceText(n))
		}
	case KBin:
		switch {
		case n.S == "=":
			b.assigned(n.A)
		case isAssignment(n):
			b.report("APPENDS_DELETES_NO_LONGER_SUPPORTED", n, "'"+n.S+"'")
		case isRelation(n):
			for _, c := range []*Node{n.A, n.B} {
				if c.K != KCollect {
					b.rvalue(c)
				}
			}
		default:
			b.rvalue(n.A)
			b.rvalue(n.B)
		}
	case KAttr:
		if n.Op == "+>" && in.K != KCollect && in.K != KOverride {
			b.report("ILLEGAL_ATTRIBUTE_APPEND", n, n.S, label(in))
		}
	case KSplat:
		if in.K != KBody {
			b.report("UNSUPPORTED_OPERATOR_IN_CONTEXT", in, "*", label(in))
		}
		b.rvalue(n.A)
	case KBlock:
		for i, s := range n.L {
			if i < len(n.L)-1 && idem(s) {
				b.report("IDEM_EXPRESSION_NOT_LAST", s, label(s))
				break
			}
		}
	case KCall:
		f := n.A
		if !(f.K == KName || f.K == KRef || f.K == KAccess && f.A.K == KRef) {
			b.report("ILLEGAL_EXPRESSION", f, label(f), "function name", label(n))
		}
	case KCapability:
		c := n.A
		switch {
		case c.K == KRef:
		case c.K == KName:
			b.report("ILLEGAL_CLASSREF", c, "'"+c.S+"'")
		case c.K == KAccess && c.A.K == KRef && len(c.L) == 1 && (c.L[0].K == KStr || c.L[0].K == KName || c.L[0].K == KRef):
		default:
			b.report("ILLEGAL_EXPRESSION", c, label(c), label(n))
		}
		if !segments(strings.TrimPrefix(n.Full, "::"), 'A', 'Z') {
			b.report("ILLEGAL_CLASSREF", n, "'"+n.Full+"'")
		}
	case KCase:
		b.rvalue(n.A)
		defaults := 0
		for _, o := range n.L {
			for _, v := range o.L {
				if v.K == KDefault {
					if defaults++; defaults > 1 {
						b.report("DUPLICATE_DEFAULT", v, label(n))
					}
				}
			}
		}
	case KOption:
		for _, v := range n.L {
			b.rvalue(v)
		}
	case KCollect:
		if n.A.K != KRef {
			b.report("ILLEGAL_EXPRESSION", n.A, label(n.A), "type name", label(n))
		}
	case KEpp:
		if in != nil && in.K == KLambda {
			b.noCapture(in.L, "~")
			b.unique(in.L)
		}
	case KFunction:
		b.definition(n, path)
		b.captureLast(n.L)
		b.typeRef(n.C, n)
	case KClass, KDefine:
		b.definition(n, path)
		b.noCapture(n.L, label(n))
		for _, p := range n.L {
			if isOneOf(p.S, "name", "title") {
				b.report("RESERVED_PARAMETER", n, "$"+p.S, label(n))
			}
		}
		b.noIdemLast(n.B, n)
	case KIf, KUnless:
		b.rvalue(n.A)
	case KEntry:
		b.rvalue(n.A)
		b.rvalue(n.B)
	case KLambda:
		b.captureLast(n.L)
		b.typeRef(n.A, n)
	case KHash:
		seen := map[string]bool{}
		for _, e := range n.L {
			if k, ok := literalKey(e.A); ok {
				if seen[k] {
					b.report("DUPLICATE_KEY", e, "'"+sourceText(e.A)+"'")
				}
				seen[k] = true
			}
		}
	case KList:
		for _, e := range n.L {
			b.rvalue(e)
		}
	case KDot:
		if n.B.K != KName {
			b.report("ILLEGAL_EXPRESSION", n.B, label(n.B), "method name", container(in))
		}
	case KNode:
		for _, h := range n.L {
			s := h
			if h.K == KConcat {
				if len(h.L) != 1 || h.L[0].K != KStr {
					b.report("ILLEGAL_HOSTNAME_INTERPOLATION", h)
					continue
				}
				s = h.L[0]
			}
			if s.K == KStr {
				for i := range []byte(s.S) {
					if c := s.S[i]; !isWordByte(c) && c != '-' && c != '.' {
						b.report("ILLEGAL_HOSTNAME_CHARS", h, "'"+s.S+"'")
						break
					}
				}
			}
		}
		b.top(n, path)
		b.noIdemLast(n.B, n)
	case KParam:
		if c := n.S[0]; c >= '0' && c <= '9' {
			b.report("ILLEGAL_NUMERIC_PARAMETER", n, "$"+n.S)
		} else if s := n.S; !(c == '_' || c >= 'a' && c <= 'z') || strings.IndexFunc(s, func(r rune) bool { return r > 127 || !isWordByte(byte(r)) }) >= 0 {
			b.report("ILLEGAL_PARAMETER_NAME", n, "'"+n.S+"'")
		}
		if n.B != nil {
			b.noAssignment(n.B)
		}
	case KQuery:
		if n.A != nil && n.A.K != KNop {
			b.query(n.A)
		}
	case KReserved:
		if n.Flag {
			b.report("FUTURE_RESERVED_WORD", n, "'"+futureWord(n)+"'")
		} else {
			b.report("RESERVED_WORD", n, n.S)
		}
	case KBody:
		splats := 0
		for _, o := range n.L {
			if o.K == KSplat {
				if splats++; splats > 1 {
					b.report("MULTIPLE_ATTRIBUTES_UNFOLD", o)
				}
			}
		}
	case KDefaults, KOverride:
		if n.Op != "" {
			b.report("NOT_VIRTUALIZABLE", n)
		}
	case KResource:
		if n.Op != "" && n.A.K == KName && n.A.S == "class" {
			b.report("NOT_VIRTUALIZABLE", n)
		}
	case KSelEntry:
		b.rvalue(n.A)
	case KSelector:
		b.rvalue(n.A)
		defaults := 0
		for _, e := range n.L {
			if e.A.K == KDefault {
				if defaults++; defaults > 1 {
					b.report("DUPLICATE_DEFAULT", e, label(n))
				}
			}
		}
	case KTypeAlias:
		b.top(n, path)
		if !segments(n.S, 'A', 'Z') {
			b.report("ILLEGAL_DEFINITION_NAME", n, "'"+defName(n)+"'", label(n))
		}
		b.reservedType(n, n.S)
		b.typeRef(n.A, n)
	case KTypeMapping:
		b.top(n, path)
		if t := n.A; t.K != KAccess || t.A.K != KRef || t.A.S != "Runtime" {
			b.report("UNSUPPORTED_EXPRESSION", n, label(n))
		} else if len(t.L) == 2 && isReplacement(t.L[1]) {
			if !isReplacement(n.B) {
				b.report("ILLEGAL_REGEXP_TYPE_MAPPING", n)
			}
		} else if !isRefOrAccess(n.B) {
			b.report("ILLEGAL_SINGLE_TYPE_MAPPING", n)
		}
	}
}

func isReplacement(n *Node) bool {
	return n.K == KList && len(n.L) == 2 && n.L[0].K == KRegexp && n.L[1].K == KStr
}

func isRefOrAccess(n *Node) bool { return n.K == KRef || n.K == KAccess && n.A.K == KRef }

// rvalue is for what must have a value
func (b *ruleBook) rvalue(n *Node) {
	for isUnaryKind(n.K) {
		n = n.A
	}
	if isDefKind(n.K) || n.K == KCollect {
		b.report("NOT_RVALUE", n, label(n))
	}
}

func (b *ruleBook) assigned(n *Node) {
	switch n.K {
	case KAccess:
		b.report("ILLEGAL_ASSIGNMENT_VIA_INDEX", n)
	case KList:
		for _, e := range n.L {
			b.assigned(e)
		}
	case KVar:
		if n.Flag {
			b.report("ILLEGAL_NUMERIC_ASSIGNMENT", n, fmt.Sprintf("$%d", n.I))
		} else if strings.Contains(n.S, "::") {
			b.report("CROSS_SCOPE_ASSIGNMENT", n, "'"+n.S+"'")
		}
	}
}

func (b *ruleBook) noAssignment(n *Node) {
	if isAssignment(n) {
		b.report("ILLEGAL_ASSIGNMENT_CONTEXT", n)
	} else if n.K != KLambda {
		for _, p := range n.Parts() {
			b.noAssignment(p)
		}
	}
}

func (b *ruleBook) noCapture(ps []*Node, where string) {
	for _, p := range ps {
		if p.Flag {
			b.report("CAPTURES_REST_NOT_SUPPORTED", p, "$"+p.S, where)
		}
	}
}

func (b *ruleBook) captureLast(ps []*Node) {
	for i, p := range ps {
		if p.Flag && i < len(ps)-1 {
			b.report("CAPTURES_REST_NOT_LAST", p, "$"+p.S)
		}
	}
}

func (b *ruleBook) unique(ps []*Node) {
	seen := map[string]bool{}
	for _, p := range ps {
		if seen[p.S] {
			b.report("DUPLICATE_PARAMETER", p, "'"+p.S+"'")
		}
		seen[p.S] = true
	}
}

func (b *ruleBook) definition(n *Node, path []*Node) {
	b.top(n, path)
	if !segments(n.Full, 'a', 'z') {
		b.report("ILLEGAL_DEFINITION_NAME", n, "'"+defName(n)+"'", label(n))
	}
	b.reservedType(n, n.Full)
	if isFuture(n.Full) {
		b.report("FUTURE_RESERVED_WORD", n, "'"+futureWord(n)+"'")
	}
	b.unique(n.L)
}

func (b *ruleBook) reservedType(n *Node, name string) {
	if isOneOf(strings.ToLower(name), reservedTypes...) {
		b.report("RESERVED_TYPE_NAME", n, "'"+name+"'", label(n))
	}
}

func (b *ruleBook) typeRef(n, of *Node) {
	if n == nil {
		return
	}
	r := n
	if n.K == KAccess {
		r = n.A
	}
	if r.K != KRef {
		b.report("ILLEGAL_EXPRESSION", n, label(n), "type reference", label(of))
	} else if isFuture(strings.ToLower(r.S)) {
		b.report("FUTURE_RESERVED_WORD", n, "'"+futureWord(n)+"'")
	}
}

// top is for what belongs in the top scope or a class
func (b *ruleBook) top(n *Node, path []*Node) {
	for i := len(path) - 1; i >= 0; i-- {
		switch path[i].K {
		case KClass, KProgram:
			return
		case KBlock:
			if i > 0 && path[i-1].K == KProgram {
				return
			}
			if n.K == KFunction || n.K == KTypeAlias || n.K == KTypeMapping {
				b.report("NOT_ABSOLUTE_TOP_LEVEL", n, label(n))
				return
			}
		default:
			b.report("NOT_TOP_LEVEL", n)
			return
		}
	}
}

func (b *ruleBook) query(n *Node) {
	switch {
	case n.K == KBin && isOneOf(n.S, "==", "!="):
	case n.K == KBin && isOneOf(n.S, "and", "or"):
		b.query(n.A)
		b.query(n.B)
	case n.K == KParen:
		b.query(n.A)
	case n.K == KVar, n.K == KName, n.K == KInt, n.K == KFloat, n.K == KStr, n.K == KBool:
	default:
		b.report("ILLEGAL_QUERY_EXPRESSION", n, label(n))
	}
}

func (b *ruleBook) noIdemLast(body, of *Node) {
	if k := len(body.L); k > 0 && idem(body.L[k-1]) {
		b.report("IDEM_NOT_ALLOWED_LAST", body.L[k-1], label(body.L[k-1]), label(of))
	}
}

// idem tells if an expression produces a value and has no effect
func idem(n *Node) bool {
	all := func(ns []*Node) bool {
		for _, c := range ns {
			if !idem(c) {
				return false
			}
		}
		return true
	}
	switch n.K {
	case KInt, KFloat, KStr, KBool, KUndef, KDefault, KName, KRef, KReserved, KRegexp, KVar, KConcat, KHeredoc, KText, KList, KHash, KAccess, KSelector, KNop, KNot, KNegate, KUnfold, KDot:
		return true
	case KBin:
		return !isAssignment(n) && !isRelation(n) && !isOneOf(n.S, "=~", "!~")
	case KParen:
		return idem(n.A)
	case KBlock:
		return all(n.L)
	case KIf, KUnless:
		return idem(n.A) && idem(n.B) && idem(n.C)
	case KCase:
		return idem(n.A) && all(n.L)
	case KOption:
		return all(n.L) && idem(n.B)
	}
	return false
}

// literalKey tells the keys of a hash apart
func literalKey(n *Node) (string, bool) {
	if !isLiteral(n) {
		return "", false
	}
	for n.K == KHeredoc {
		n = n.A
	}
	if n.K == KConcat {
		n = n.L[0]
	}
	switch n.K {
	case KList, KHash, KRegexp:
		return n.PN(), true
	case KInt:
		return fmt.Sprint("integer ", n.I), true
	case KFloat:
		return fmt.Sprint("float ", n.F), true
	case KStr, KName, KRef, KReserved:
		return "text " + n.S, true
	case KBool:
		return "bool " + n.S, true
	}
	return fmt.Sprint("kind ", n.K), true
}

// isLiteral tells if a tree consists of literals only
func isLiteral(n *Node) bool {
	switch n.K {
	case KInt, KFloat, KStr, KBool, KUndef, KDefault, KName, KRef, KReserved, KRegexp:
		return true
	case KConcat:
		return len(n.L) == 1 && n.L[0].K == KStr
	case KHeredoc:
		return isLiteral(n.A)
	case KList:
		for _, c := range n.L {
			if !isLiteral(c) {
				return false
			}
		}
		return true
	case KHash:
		for _, e := range n.L {
			k := e.A
			for k.K == KHeredoc {
				k = k.A
			}
			if k.K == KList || k.K == KHash || !isLiteral(k) || !isLiteral(e.B) {
				return false
			}
		}
		return true
	}
	return false
}

func defName(n *Node) string {
	if n.K == KClass || n.K == KPlan {
		return n.Full
	}
	return n.S
}

func futureWord(n *Node) string {
	switch n.K {
	case KReserved:
		return n.S
	case KAccess:
		return strings.ToLower(n.A.S)
	case KRef:
		return strings.ToLower(n.S)
	}
	return defName(n)
}

// sourceText is the text of a node of a parsed tree
func sourceText(n *Node) string {
	if x, ok := n.X.(interface{ String() string }); ok {
		return x.String()
	}
	return ""
}

func container(n *Node) string {
	if n == nil {
		return "~"
	}
	return label(n)
}
