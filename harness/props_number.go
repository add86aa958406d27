package main

import (
	"github.com/lyraproj/issue/issue"
	"math"
	"math/big"
	"strconv"
	"strings"

	"github.com/lyraproj/puppet-parser/parser"
	"pgregory.net/rapid"
)

// C03: numbers

var (
	maxInt = big.NewInt(math.MaxInt64)
	minInt = big.NewInt(math.MinInt64)
)

// magnitude generates a number without sign, often close to the limits
func (g *G) magnitude() *big.Int {
	v := new(big.Int)
	switch g.n(6) {
	case 0:
		v.SetInt64(int64(g.n(20)))
	case 1:
		v.SetInt64(int64(g.n(1 << 20)))
	case 2:
		v.SetUint64(rapid.Uint64().Draw(g.t, ""))
	case 3:
		// around 2^63 and 2^64
		v.SetInt64(int64(g.n(5) - 2))
		v.Add(v, new(big.Int).Lsh(big.NewInt(1), uint(63+g.n(2))))
	case 4:
		v.SetUint64(rapid.Uint64().Draw(g.t, ""))
		v.Mul(v, big.NewInt(int64(1+g.n(100))))
	default:
		v.SetInt64(rapid.Int64Range(0, math.MaxInt64).Draw(g.t, ""))
	}
	return v
}

var malformed = []string{"0x", "0X", "0xg", "0x1g", "08", "0189", "09", "1e", "1E+", "2e-", "1.5e", "3.", "1.e5", "1a", "12abc", "1.5x", "1e5x", "2.5e3f", "0xFFg", "017a", "0b1", "0o7", "12é", "1.5é", "0é", "07é", "1_000", "0x_1", "00x1", "0e", "0.", "0.x", "1.5e+x", "0x1z", "4r", "1..2", "1.-5", "1.+5", "1.5e+", "1.5E-"}

// numLit generates a numeric literal. Op "bad" marks one that must be rejected, "range" one that is out of range
func (g *G) numLit(signed bool) *Node {
	sign := ""
	if signed {
		sign = g.pick([]string{"", "-", "-", "+"})
	}
	if g.pct(2) {
		return &Node{K: KInt, Op: "bad", Src: sign + g.pick(malformed), S: sign}
	}
	if g.pct(30) {
		return g.numFloat(sign)
	}
	v := g.magnitude()
	n := &Node{K: KInt, S: sign}
	switch g.n(4) {
	case 0:
		h := v.Text(16)
		for i := g.n(3); i > 0; i-- {
			h = "0" + h
		}
		if g.bool() {
			h = strings.ToUpper(h)
		}
		n.Op, n.Src = "16", g.pick([]string{"0x", "0X"})+h
	case 1:
		o := v.Text(8)
		for i := g.n(3); i > 0; i-- {
			o = "0" + o
		}
		n.Op, n.Src = "8", "0"+o
	default:
		n.Op, n.Src = "10", v.Text(10)
	}
	if sign == "-" {
		v.Neg(v)
	}
	n.Src = sign + n.Src
	if v.Cmp(maxInt) > 0 || v.Cmp(minInt) < 0 {
		n.Op = "range"
		return n
	}
	n.I = v.Int64()
	return n
}

func (g *G) digits(k int) string {
	var b strings.Builder
	for i := 0; i < k; i++ {
		b.WriteByte(byte('0' + g.n(10)))
	}
	return b.String()
}

func (g *G) numFloat(sign string) *Node {
	s := "0"
	if g.bool() {
		s = strconv.Itoa(1 + g.n(9))
		s += g.digits(g.n(20))
	}
	frac := g.pct(70)
	if frac {
		s += "." + g.digits(1+g.n(20))
	}
	if !frac || g.pct(40) {
		e := g.n(40)
		if g.pct(15) {
			e = 280 + g.n(60)
		}
		es := g.pick([]string{"", "-", "+"})
		if es == "-" && e > 270 {
			e -= 200 // numbers that are too small are zero
		}
		s += g.pick([]string{"e", "E"}) + es + strconv.Itoa(e)
	}
	n := &Node{K: KFloat, Src: sign + s, S: sign}
	r, ok := new(big.Rat).SetString(s)
	if !ok {
		panic("not a rational: " + s)
	}
	f, _ := r.Float64()
	if math.IsInf(f, 0) {
		n.Op = "range"
		return n
	}
	if sign == "-" {
		f = -f
		if f == 0 {
			f = math.Copysign(0, -1)
		}
	}
	n.F = f
	return n
}

// number is a literal. A malformed one is in parentheses, so that what follows does not complete it
func (g *G) numLeaf(signed bool) *Node {
	if g.leafGen != nil {
		return g.leafGen()
	}
	n := g.numLit(signed)
	if n.Op == "bad" {
		return paren(n)
	}
	return n
}

func (g *G) numExpr(level, d int) *Node { return at(level, g.rawNumExpr(d)) }

func (g *G) rawNumExpr(d int) *Node {
	g.budget--
	k := 26
	if d > 4 || g.budget < 0 {
		k = 4
	}
	switch x := g.n(k); x {
	case 0:
		return g.numLeaf(false)
	case 1, 2, 3:
		return g.numLeaf(true)
	case 4:
		return g.variable()
	case 5:
		return &Node{K: KNegate, A: g.numExpr(lvPrim, d+1)}
	case 6:
		return &Node{K: []Kind{KNot, KUnfold}[g.n(2)], A: g.numExpr(lvUnary, d+1)}
	case 7:
		return paren(g.numExpr(lvRel, d+1))
	case 8, 9:
		n := &Node{K: KList}
		for i := g.n(4); i > 0; i-- {
			n.L = append(n.L, g.numExpr(lvRel, d+1))
		}
		return n
	case 10:
		n := &Node{K: KHash}
		for i := g.n(3); i > 0; i-- {
			n.L = append(n.L, &Node{K: KEntry, A: g.numExpr(lvRel, d+1), B: g.numExpr(lvRel, d+1)})
		}
		return n
	case 11:
		return &Node{K: KAccess, A: g.variable(), L: []*Node{g.numExpr(lvRel, d+1)}}
	case 12:
		return &Node{K: KCall, A: mkName("foo"), L: []*Node{g.numExpr(lvRel, d+1), g.numExpr(lvRel, d+1)}}
	case 13:
		return &Node{K: KSelector, A: g.numExpr(lvOr, d+1), L: []*Node{{K: KSelEntry, A: g.numExpr(lvSel, d+1), B: g.numExpr(lvSel, d+1)}}}
	case 14:
		return &Node{K: KCase, A: g.numExpr(lvSel, d+1), L: []*Node{{K: KOption, L: []*Node{g.numExpr(lvSel, d+1), g.numExpr(lvSel, d+1)}, B: mkBlock(g.numExpr(lvRel, d+1))}}}
	case 15:
		if g.inInterp {
			return g.numLeaf(true)
		}
		return &Node{K: KClass, S: "foo", L: []*Node{{K: KParam, S: "x", B: g.numExpr(lvSel, d+1)}}, B: mkBlock(g.numExpr(lvRel, d+1))}
	case 16:
		if g.inInterp {
			return g.numLeaf(true)
		}
		return &Node{K: KResource, A: mkName("file"), L: []*Node{{K: KBody, A: at(lvSel, g.variable()), L: []*Node{{K: KAttr, S: "mode", Op: "=>", A: g.numExpr(lvSel, d+1)}}}}}
	case 17:
		if g.inInterp {
			return g.numLeaf(true)
		}
		return &Node{K: KConcat, L: []*Node{{K: KStr, S: "a", Src: "a"}, {K: KText, A: func() *Node {
			g.inInterp = true
			defer func() { g.inInterp = false }()
			return g.numExpr(lvRel, d+1)
		}()}}}
	case 18:
		return &Node{K: KAccess, A: mkRef("Integer"), L: []*Node{g.numExpr(lvRel, d+1), g.numExpr(lvRel, d+1)}}
	default:
		op := g.pick([]string{"+", "-", "-", "-", "*", "/", "%", "<<", "==", "<", "=~", "in", "and", "->", "="})
		l, r := g.rawNumExpr(d+1), g.rawNumExpr(d+1)
		return g.binary(op, l, r)
	}
}

func checkC03(g *G) {
	g.budget = 2 + g.n(20)
	n := g.numExpr(lvRel, 0)
	p := mkProgram(n)
	finish(p)
	src := g.Print(p, g.newLayout(), false)
	bad := (*Node)(nil)
	nums := 0
	p.Walk(func(c *Node, path []*Node) {
		if c.K != KInt && c.K != KFloat || c.Syn {
			return
		}
		nums++
		if (c.Op == "bad" || c.Op == "range") && (bad == nil || c.Off < bad.Off) {
			bad = c
		}
	})
	if nums == 0 {
		return
	}
	if bad != nil {
		g.note("%q", src)
		e, err := parser.CreateParser().Parse("f.pp", src, false)
		if err == nil {
			g.fail("the number %s is accepted\n--- source\n%s\n--- parsed\n%s", bad.Src, src, e.ToPN())
		}
		if i, ok := err.(issue.Reported); !ok || (i.Code() == "LEX_NUMBER_OUT_OF_RANGE") != (bad.Op == "range") {
			g.fail("the number %s is reported as something else: %v\n--- source\n%s", bad.Src, err, src)
		}
		if bad.Op == "range" {
			l, c := lineCol(src, bad.Off+len(bad.S))
			g.checkLocation(src, err, "f.pp", l, c)
		}
		g.tag(bad.Op)
		g.count(src)
		return
	}
	e := g.parse(src, false)
	g.checkTree(p, src, e)
	g.pair(src, p, fromAST(e), func(w, a, _, _ *Node) {
		switch x := a.X.(type) {
		case *parser.LiteralInteger:
			r := w.Op
			if r == "" {
				r = "10"
			}
			if a.I != w.I || a.Op != r || a.V != any(w.I) || x.Float() != float64(w.I) {
				g.fail("the integer %s is %d with radix %s and value %v, not %d with radix %s\n--- source\n%s", w.Src, a.I, a.Op, a.V, w.I, r, src)
			}
			g.tag("radix " + r)
		case *parser.LiteralFloat:
			if math.Float64bits(a.F) != math.Float64bits(w.F) || a.V != any(w.F) || math.Abs(w.F) < 1<<52 && x.Int() != int64(w.F) {
				g.fail("the float %s is %v with value %v, not %v\n--- source\n%s", w.Src, a.F, a.V, w.F, src)
			}
			g.tag("float")
		}
	})
	// single expression
	switch n.K {
	case KCall, KClass, KResource:
	default:
		src = g.Print(n, g.newLayout(), true)
		g.checkTree(n, src, g.parse(src, true))
	}
	if nums > 1 {
		g.count(src)
	}
}

func init() {
	register(&Prop{id: "C03", quick: 40000, thorough: 800000, check: checkC03,
		rule: "random expressions over numeric literals of all radixes, floats and signs, next to operators, signs, brackets and in all kinds of places, with values close to the limits and beyond them and with malformed literals; the reference value is computed with math/big; non-trivial: at least two numbers, or one that must be rejected; distinct by source text"})
}
