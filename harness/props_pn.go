package main

import (
	"bytes"
	stdjson "encoding/json"
	"fmt"
	"math"
	"reflect"
	"regexp"
	"strconv"
	"strings"
	"unicode/utf8"

	"github.com/lyraproj/puppet-parser/json"
	"github.com/lyraproj/puppet-parser/pn"
	"pgregory.net/rapid"
)

// C12: PN. val is our own representation of a PN value.
type val struct {
	kind string // nil, bool, int, float, string, list, map, call
	b    bool
	i    string // decimal
	f    float64
	s    string // string, name of a call
	l    []*val
	keys []string
	f32  bool
}

func (v *val) String() string {
	switch v.kind {
	case "nil":
		return "nil"
	case "bool":
		return strconv.FormatBool(v.b)
	case "int":
		return "int " + v.i
	case "float":
		return "float " + strconv.FormatFloat(v.f, 'g', -1, 64)
	case "string":
		return strconv.Quote(v.s)
	}
	var b strings.Builder
	b.WriteString(v.kind + "(" + v.s)
	for i, e := range v.l {
		b.WriteString(", ")
		if v.kind == "map" {
			b.WriteString(v.keys[i] + ": ")
		}
		b.WriteString(e.String())
	}
	return b.String() + ")"
}

func round16(f float64) float64 {
	r, _ := strconv.ParseFloat(strconv.FormatFloat(f, 'e', 15, 64), 64)
	return r
}

func same(a, b *val) bool {
	if a.kind != b.kind || a.b != b.b || a.i != b.i || a.s != b.s || len(a.l) != len(b.l) {
		return false
	}
	if a.kind == "float" && a.f != b.f && round16(a.f) != round16(b.f) {
		return false
	}
	for i := range a.l {
		if a.kind == "map" && a.keys[i] != b.keys[i] {
			return false
		}
		if !same(a.l[i], b.l[i]) {
			return false
		}
	}
	return true
}

// pnReader reads the text form
type pnReader struct {
	s   string
	pos int
}

func readPN(s string) (v *val, err error) {
	r := &pnReader{s: s}
	defer func() {
		if x := recover(); x != nil {
			err = fmt.Errorf("%v at %d of %s", x, r.pos, s)
		}
	}()
	v = r.value()
	if r.pos != len(s) {
		panic("text after the value")
	}
	return
}

func (r *pnReader) peek() byte {
	if r.pos >= len(r.s) {
		panic("end of text")
	}
	return r.s[r.pos]
}

func (r *pnReader) expect(c byte) {
	if r.peek() != c {
		panic(fmt.Sprintf("%q expected", c))
	}
	r.pos++
}

func (r *pnReader) word(stop string) string {
	start := r.pos
	for r.pos < len(r.s) && strings.IndexByte(stop, r.s[r.pos]) < 0 {
		r.pos++
	}
	if r.pos == start {
		panic("word expected")
	}
	return r.s[start:r.pos]
}

func (r *pnReader) value() *val {
	switch c := r.peek(); c {
	case '"':
		return &val{kind: "string", s: r.str()}
	case '[':
		r.pos++
		v := &val{kind: "list"}
		for first := true; r.peek() != ']'; first = false {
			if !first {
				r.expect(' ')
			}
			v.l = append(v.l, r.value())
		}
		r.pos++
		return v
	case '{':
		r.pos++
		v := &val{kind: "map"}
		for first := true; r.peek() != '}'; first = false {
			if !first {
				r.expect(' ')
			}
			r.expect(':')
			v.keys = append(v.keys, r.word(" "))
			r.expect(' ')
			v.l = append(v.l, r.value())
		}
		r.pos++
		return v
	case '(':
		r.pos++
		v := &val{kind: "call", s: r.word(" )")}
		for r.peek() != ')' {
			r.expect(' ')
			v.l = append(v.l, r.value())
		}
		r.pos++
		return v
	default:
		w := r.word(" )]}")
		switch w {
		case "nil":
			return &val{kind: "nil"}
		case "true", "false":
			return &val{kind: "bool", b: w == "true"}
		}
		if strings.ContainsAny(w, ".e") {
			f, err := strconv.ParseFloat(w, 64)
			if err != nil || !floatText.MatchString(w) {
				panic("not a float: " + w)
			}
			return &val{kind: "float", f: f}
		}
		digits := strings.TrimPrefix(w, "-")
		if digits == "" || strings.Trim(digits, "0123456789") != "" {
			panic("not a number: " + w)
		}
		return &val{kind: "int", i: w}
	}
}

func (r *pnReader) str() string {
	var b strings.Builder
	r.expect('"')
	for {
		c := r.peek()
		r.pos++
		switch c {
		case '"':
			return b.String()
		case '\\':
			c = r.peek()
			r.pos++
			switch c {
			case 't':
				b.WriteByte('\t')
			case 'n':
				b.WriteByte('\n')
			case 'r':
				b.WriteByte('\r')
			case '"', '\\':
				b.WriteByte(c)
			case 'o':
				n, err := strconv.ParseUint(r.s[r.pos:r.pos+3], 8, 8)
				if err != nil {
					panic(err)
				}
				r.pos += 3
				b.WriteByte(byte(n))
			default:
				panic("unknown escape")
			}
		default:
			if c < 0x20 {
				panic("control character in string")
			}
			b.WriteByte(c)
		}
	}
}

// fromData reads the data form, made by ToData or by decoding JSON
func fromData(d any) *val {
	switch d := d.(type) {
	case nil:
		return &val{kind: "nil"}
	case bool:
		return &val{kind: "bool", b: d}
	case string:
		return &val{kind: "string", s: d}
	case float32:
		return &val{kind: "float", f: float64(d)}
	case float64:
		return &val{kind: "float", f: d}
	case stdjson.Number:
		return &val{kind: "number", i: string(d)}
	case []any:
		v := &val{kind: "list"}
		for _, e := range d {
			v.l = append(v.l, fromData(e))
		}
		return v
	case map[string]any:
		if len(d) != 1 {
			panic(fmt.Sprintf("a map with %d keys", len(d)))
		}
		if m, ok := d["#"]; ok {
			v := &val{kind: "map"}
			es := m.([]any)
			if len(es)%2 != 0 {
				panic("odd number of elements in a map")
			}
			for i := 0; i < len(es); i += 2 {
				v.keys = append(v.keys, es[i].(string))
				v.l = append(v.l, fromData(es[i+1]))
			}
			return v
		}
		if m, ok := d["^"]; ok {
			es := m.([]any)
			v := &val{kind: "call", s: es[0].(string)}
			for _, e := range es[1:] {
				v.l = append(v.l, fromData(e))
			}
			return v
		}
		panic("a map with an unknown key")
	}
	switch r := reflect.ValueOf(d); r.Kind() {
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64, reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		return &val{kind: "int", i: fmt.Sprint(d)}
	}
	panic(fmt.Sprintf("a %T in data", d))
}

// sameJSON compares decoded JSON with a value: JSON has one kind of numbers
func sameJSON(want, got *val) bool {
	if got.kind == "number" {
		switch want.kind {
		case "int":
			return want.i == got.i
		case "float":
			f, err := strconv.ParseFloat(got.i, 64)
			return err == nil && (f == want.f || round16(f) == round16(want.f) || want.f32 && float32(f) == float32(want.f))
		}
		return false
	}
	if want.kind != got.kind || want.b != got.b || want.s != got.s || len(want.l) != len(got.l) {
		return false
	}
	for i := range want.l {
		if want.kind == "map" && want.keys[i] != got.keys[i] {
			return false
		}
		if !sameJSON(want.l[i], got.l[i]) {
			return false
		}
	}
	return true
}

func (g *G) checkPN(what string, p pn.PN, want *val) {
	text := p.String()
	if want == nil {
		v, err := readPN(text)
		if err != nil {
			g.fail("the PN text cannot be read: %v\n--- of\n%s", err, what)
		}
		want = v
	} else if v, err := readPN(text); err != nil || !same(want, v) {
		g.fail("the PN text is not that of the value (%v)\n--- value\n%s\n--- text\n%s\n--- denotes\n%v", err, want, text, v)
	}
	var b bytes.Buffer
	p.Format(&b)
	if b.String() != text || pn.ToString(p) != text {
		g.fail("Format, String and ToString do not agree\n%s\n%s\n%s", b.String(), text, pn.ToString(p))
	}
	data := p.ToData()
	if v := fromData(data); !same(want, v) {
		g.fail("the data form is not that of the value\n--- value\n%s\n--- data\n%v", want, v)
	}
	b.Reset()
	json.ToJson(data, &b)
	dec := stdjson.NewDecoder(&b)
	dec.UseNumber()
	js := b.String()
	var dd any
	if err := dec.Decode(&dd); err != nil {
		g.fail("the JSON text cannot be decoded: %v\n%s", err, js)
	}
	if v := fromData(dd); !sameJSON(want, v) {
		g.fail("the JSON text is not that of the value\n--- value\n%s\n--- JSON\n%s\n--- decoded\n%v", want, js, v)
	}
}

var pnNames = []string{"a", "access", "call-method", "=>", "->", "+", "!", "?", ".", "%", "==", "x::y", "é", "<=", "+>"}
var pnKeys = []string{"a", "name", "::x", "a::b", "_x", "x-1", "A::9", "-", "a_b::c-d"}

func (g *G) pnValue(d int) (pn.PN, *val) {
	k := 12
	if d > 4 || g.budget <= 0 {
		k = 6
	}
	g.budget--
	switch g.n(k) {
	case 0:
		return pn.Literal(nil), &val{kind: "nil"}
	case 1:
		b := g.bool()
		return pn.Literal(b), &val{kind: "bool", b: b}
	case 2:
		var i any
		switch g.u(14) {
		case 0:
			i = int(g.n(100)) - 50
		case 1:
			i = int8(g.n(256) - 128)
		case 2:
			i = int32(-g.n(1 << 20))
		case 3:
			i = uint8(g.n(256))
		case 4:
			i = ^uint64(0) - uint64(g.n(100))
		case 5:
			i = int16(g.n(1000) - 500)
		case 6:
			i = uint16(g.n(1 << 16))
		case 7:
			i = uint32(g.n(1 << 30))
		case 8:
			i = uint(g.n(1 << 30))
		default:
			i = rapid.Int64().Draw(g.t, "")
		}
		return pn.Literal(i), &val{kind: "int", i: fmt.Sprint(i)}
	case 3:
		f := g.anyFloat()
		if g.pct(10) && math.Abs(f) < 1e30 {
			f32 := float32(f)
			return pn.Literal(f32), &val{kind: "float", f: float64(f32), f32: true}
		}
		return pn.Literal(f), &val{kind: "float", f: f}
	case 4, 5:
		s := g.text(8)
		if g.rarely() && s != "" {
			s = strings.Repeat(s, 1+g.many(5000/len(s)))
		}
		return pn.Literal(s), &val{kind: "string", s: s}
	case 6, 7:
		ps, vs := g.pnValues(d)
		return pn.List(ps), &val{kind: "list", l: vs}
	case 8, 9:
		var es []pn.Entry
		v := &val{kind: "map"}
		ps, vs := g.pnValues(d)
		for i, p := range ps {
			k := g.pick(pnKeys)
			es = append(es, p.WithName(k))
			v.keys = append(v.keys, k)
			v.l = append(v.l, vs[i])
		}
		return pn.Map(es), v
	default:
		n := g.pick(pnNames)
		ps, vs := g.pnValues(d)
		return pn.Call(n, ps...), &val{kind: "call", s: n, l: vs}
	}
}

func (g *G) pnValues(d int) (ps []pn.PN, vs []*val) {
	k := g.n(5)
	if g.rarely() {
		k = g.many(300)
	}
	ps = make([]pn.PN, 0, k+g.n(4)) // with room, so that an append to a shared slice shows
	for i := 0; i < k; i++ {
		p, v := g.pnValue(d + 1)
		ps = append(ps, p)
		vs = append(vs, v)
	}
	return
}

func (g *G) anyFloat() float64 {
	switch g.n(5) {
	case 0:
		return float64(g.n(2000)-1000) / 8
	case 1:
		f, _ := strconv.ParseFloat(fmt.Sprintf("%d.%de%d", g.n(10), g.n(1000), g.n(40)-20), 64)
		return f
	case 2:
		return float64(g.n(1<<30)) * 1e10
	case 3:
		return float64(g.n(20)) * math.Pow(10, float64(g.n(30)-5))
	}
	f := math.Float64frombits(rapid.Uint64().Draw(g.t, ""))
	if math.IsNaN(f) || math.IsInf(f, 0) {
		return 0
	}
	return f
}

func checkC12(g *G) {
	if g.pct(40) {
		p := g.anyInput()
		src := g.Print(p, g.newLayout(), false)
		e := g.parse(src, false, g.options()...)
		t := e.ToPN()
		g.checkPN(src, t, nil)
		g.tag("trees")
		if p.Count() > 8 {
			g.count(src)
		}
		return
	}
	g.budget = 4 + g.n(30)
	p, v := g.pnValue(0)
	g.note("PN %s", v)
	before := p.String()
	g.checkPN("", p, v)

	// conversions
	kids := []*val{v}
	if v.kind == "list" || v.kind == "call" {
		kids = v.l
	}
	name := g.pick(pnNames)
	first := p.AsCall(name)
	g.checkPN("", first, &val{kind: "call", s: name, l: kids})
	params := p.AsParameters()
	if len(params) != len(kids) {
		g.fail("AsParameters has %d elements instead of %d: %s", len(params), len(kids), before)
	}
	for i, x := range params {
		g.checkPN("", x, kids[i])
	}
	key := g.pick(pnKeys)
	en := p.WithName(key)
	if en.Key() != key {
		g.fail("the key of a named entry is %q instead of %q", en.Key(), key)
	}
	g.checkPN("", en.Value(), v)
	g.checkPN("", pn.Map([]pn.Entry{en}), &val{kind: "map", keys: []string{key}, l: []*val{v}})
	if g.pct(20) {
		g.checkKey(p, v)
	}
	n2 := g.pick(pnNames)
	g.checkPN("", first.AsCall(n2), &val{kind: "call", s: n2, l: kids})
	g.checkPN("", first, &val{kind: "call", s: name, l: kids})
	g.checkPN("", pn.Call(n2, p.AsParameters()...), &val{kind: "call", s: n2, l: kids})
	if p.String() != before {
		g.fail("a conversion changed the original: %s is now %s", before, p.String())
	}
	g.checkPN("", p, v)
	g.tag(v.kind)
	if len(before) > 12 && utf8.ValidString(before) {
		g.count(before)
	}
}

// floatText is a float as readers of all languages know it
var floatText = regexp.MustCompile(`^-?[0-9]+(\.[0-9]+)?(e[-+]?[0-9]+)?$`)

var goodKey = regexp.MustCompile(`^(::)?[A-Za-z_-][0-9A-Za-z_-]*(::[0-9A-Za-z_-]+)*$`)

// checkKey gives a map a key that may be one that text cannot show
func (g *G) checkKey(p pn.PN, v *val) {
	key := ""
	for i := g.n(5); i > 0; i-- {
		key += g.pick([]string{"a", "Z", "7", "_", "-", "::", ":", " ", "\"", "}", "{", "(", "]", "\n", "é", ".", "#", "nil", "\x00"})
	}
	var m pn.PN
	defer func() {
		r := recover()
		if r == nil || m != nil {
			if r != nil {
				panic(r)
			}
			return
		}
		if goodKey.MatchString(key) {
			g.fail("the key %q is refused: %v", key, r)
		}
		g.tag("refused key")
	}()
	m = pn.Map([]pn.Entry{p.WithName("a"), p.WithName(key)})
	g.checkPN("", m, &val{kind: "map", keys: []string{"a", key}, l: []*val{v, v}})
}

func init() {
	register(&Prop{id: "C12", quick: 40000, thorough: 800000, check: checkC12,
		rule:   "random PN values of all kinds built with the API (60%) and the PN of random programs (40%); the text is read back by an independent reader, data and JSON by an independent decoder; non-trivial: text of more than 12 bytes, or a program of more than 8 nodes; distinct by text",
		assume: []string{"strings hold valid UTF-8; names of calls hold no white space or brackets; floats are finite"}})
}
