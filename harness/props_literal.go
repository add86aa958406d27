package main

import (
	"fmt"
	"reflect"

	"github.com/lyraproj/puppet-parser/literal"
	"github.com/lyraproj/puppet-parser/parser"
)

// C18: conversion of expressions to literal values

// literalValue is the reference: the value of a model node, if it is a literal
func literalValue(n *Node) (any, bool) {
	switch n.K {
	case KInt:
		return n.I, true
	case KFloat:
		return n.F, true
	case KStr, KName, KRef, KRegexp, KReserved:
		return n.S, true
	case KBool:
		return n.S == "true", true
	case KUndef:
		return nil, true
	case KDefault:
		return parser.DefaultInstance, true
	case KHeredoc:
		return literalValue(n.A)
	case KConcat:
		if len(n.L) == 1 && n.L[0].K == KStr {
			return n.L[0].S, true
		}
	case KList:
		r := make([]any, 0, len(n.L))
		for _, c := range n.L {
			v, ok := literalValue(c)
			if !ok {
				return nil, false
			}
			r = append(r, v)
		}
		return r, true
	case KHash:
		r := map[any]any{}
		for _, c := range n.L {
			if c.K != KEntry {
				return nil, false
			}
			k, ok := literalValue(c.A)
			if !ok {
				return nil, false
			}
			switch k.(type) {
			case []any, map[any]any:
				return nil, false
			}
			v, ok := literalValue(c.B)
			if !ok {
				return nil, false
			}
			r[k] = v
		}
		return r, true
	}
	return nil, false
}

func (g *G) checkLiteral(src string, w *Node, x parser.Expression) (bool, any) {
	want, ok := literalValue(w)
	got, gok := literal.ToLiteral(x)
	if ok != gok {
		g.fail("%s is taken as a literal: %v, should be: %v\n--- source\n%s", w.PN(), gok, ok, src)
	}
	if ok && !reflect.DeepEqual(want, got) {
		g.fail("the value of %s is %#v instead of %#v\n--- source\n%s", w.PN(), got, want, src)
	}
	if !ok && got != nil {
		g.fail("%s is not a literal but has the value %#v\n--- source\n%s", w.PN(), got, src)
	}
	return ok, got
}

// litExpr generates literals, rarely with something in them that is none
func (g *G) litExpr(d int) *Node {
	g.budget--
	k := 20
	if d > 4 || g.budget < 0 {
		k = 12
	}
	switch g.n(k) {
	case 0:
		return g.integer()
	case 1:
		return g.float()
	case 2, 3:
		return g.str()
	case 4:
		return g.name()
	case 5:
		return g.ref()
	case 6:
		return &Node{K: KBool, S: g.pick([]string{"true", "false"})}
	case 7:
		return &Node{K: KUndef, S: "undef"}
	case 8:
		return &Node{K: KDefault, S: "default"}
	case 9:
		return g.signed()
	case 10:
		return g.regexp()
	case 11:
		if g.pct(70) {
			return g.integer()
		}
		switch g.n(5) {
		case 3:
			return g.richHeredoc()
		case 0:
			return g.variable()
		case 1:
			return g.concat()
		case 2:
			return &Node{K: KCall, A: mkName("foo")}
		}
		return argSafe(g.rawExpr())
	case 12, 13, 14, 15:
		n := &Node{K: KList}
		for i := g.n(4); i > 0; i-- {
			e := g.litExpr(d + 1)
			if prec(e) < lvRel {
				e = paren(e)
			}
			n.L = append(n.L, e)
		}
		return n
	case 16, 17, 18:
		n := &Node{K: KHash}
		for i := g.n(4); i > 0; i-- {
			n.L = append(n.L, &Node{K: KEntry, A: at(lvRel, g.litExpr(d+2+g.n(4))), B: at(lvRel, g.litExpr(d+1))})
		}
		return n
	default:
		return g.simpleHeredoc()
	}
}

// spoil changes all lists and hashes of a value
func spoil(v interface{}) {
	switch v := v.(type) {
	case []interface{}:
		for i, e := range v {
			spoil(e)
			v[i] = "spoiled"
		}
		v = append(v, "spoiled")
	case map[interface{}]interface{}:
		for k, e := range v {
			spoil(e)
			delete(v, k)
		}
		v["spoiled"] = true
	}
}

func checkC18(g *G) {
	if g.pct(40) {
		p := g.anyInput()
		src := g.Print(p, g.newLayout(), false)
		e := g.parse(src, false, g.options()...)
		lits := 0
		g.pair(src, p, fromAST(e), func(w, a, _, _ *Node) {
			if w.K == KRenderS {
				return
			}
			if ok, _ := g.checkLiteral(src, w, a.X.(parser.Expression)); ok {
				lits++
			}
		})
		g.tag("every node of programs")
		if p.Count() > 8 {
			g.count(src)
		}
		return
	}
	g.budget = 4 + g.n(25)
	n := at(lvRel, g.litExpr(0))
	if g.u(100) >= 97 {
		g.grow(n)
		g.grow(n)
	}
	finish(n)
	src := g.Print(n, g.newLayout(), true)
	e := g.parse(src, true)
	g.checkTree(n, src, e)
	before := e.ToPN().String()
	ok, v := g.checkLiteral(src, n, e)
	if ok2, v2 := g.checkLiteral(src, n, e); ok != ok2 || !reflect.DeepEqual(v, v2) || e.ToPN().String() != before {
		g.fail("converting again gives something else, or changes the tree\n--- source\n%s", src)
	}
	if ok {
		// the value is the caller's to change
		v, _ := literal.ToLiteral(e)
		spoil(v)
		g.checkLiteral(src, n, e)
	}
	g.tag(fmt.Sprintf("literal: %v", ok))
	if h, isHash := e.(*parser.LiteralHash); isHash {
		g.checkGet(src, n, h)
	}
	if n.Count() > 3 {
		g.count(src)
	}
}

// checkGet: a value can be looked up by the text of its key. The first entry with the key counts
func (g *G) checkGet(src string, n *Node, h *parser.LiteralHash) {
	first := map[string]*Node{}
	for _, e := range n.L {
		switch e.A.K {
		case KStr, KName, KRef:
			if first[e.A.S] == nil {
				first[e.A.S] = e.B
			}
		}
	}
	for k, v := range first {
		x := h.Get(k)
		if isNil(x) || x.ToPN().String() != v.PN() {
			g.fail("Get(%q) is not %s\n--- source\n%s", k, v.PN(), src)
		}
	}
	if x := h.Get("no such key"); first["no such key"] == nil && !isNil(x) {
		g.fail("Get of a missing key gives %s\n--- source\n%s", x.ToPN(), src)
	}
}

func init() {
	register(&Prop{id: "C18", quick: 40000, thorough: 800000, check: checkC18,
		rule: "random nested lists and hashes of literals with now and then a part that is no literal (60%), and every node of random programs (40%), compared with a reference conversion of the model; non-trivial: more than 3 nodes (programs: 8); distinct by source text"})
}
