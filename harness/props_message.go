package main

import (
	"fmt"
	"reflect"
	"regexp"
	"strconv"
	"strings"
	"unicode"
	"unicode/utf8"

	"github.com/lyraproj/issue/issue"
	"github.com/lyraproj/puppet-parser/parser"
	"github.com/lyraproj/puppet-parser/pn"
	"github.com/lyraproj/puppet-parser/validator"
)

// C26: messages of issues

var (
	residues     = []string{"%!", "%{", "%<", "MISSING", "<nil>", "%%", "value of type", "Positioned", "%s", "%v", "0x", "EXTRA"}
	placeholder  = regexp.MustCompile(`%\{([^}]*)\}`)
	saysLocation = regexp.MustCompile(`[^\w](file|line):\s+`) // the library adds no location to messages that contain one
)

// offsetOf is the offset of a line and column
func offsetOf(src string, line, col int) int {
	at := 0
	for ; line > 1; line-- {
		i := strings.IndexByte(src[at:], '\n')
		if i < 0 {
			return -1
		}
		at += i + 1
	}
	for ; col > 1; col-- {
		_, n := utf8.DecodeRuneInString(src[at:])
		if n == 0 {
			return -1
		}
		at += n
	}
	return at
}

// message checks what holds for every issue and returns its message without the location
func (g *G) message(src, file string, r issue.Reported) string {
	msg := r.Error()
	fail := func(what string, args ...any) {
		g.fail("%s\n--- message\n%s\n--- code %s\n--- source\n%s", fmt.Sprintf(what, args...), msg, r.Code(), src)
	}
	if r.String() != msg || fmt.Sprint(r) != msg {
		fail("the string form is another one: %s", r)
	}
	is, ok := issue.ForCode2(r.Code())
	if !ok || string(is.Code()) != string(r.Code()) {
		fail("there is no such issue")
	}
	for _, m := range placeholder.FindAllStringSubmatch(is.MessageFormat(), -1) {
		a := r.Argument(m[1])
		if a == nil || fmt.Sprint(a) == "" && r.Code() != "VALIDATE_ILLEGAL_HOSTNAME_CHARS" && r.Code() != "VALIDATE_DUPLICATE_KEY" && !strings.HasPrefix(string(r.Code()), "VALIDATE_ILLEGAL_DEF") {
			fail("the argument %s has no value", m[1])
		}
	}
	for _, s := range residues {
		if strings.Contains(msg, s) && !strings.Contains(src, s) && !strings.Contains(file, s) {
			fail("the message contains %s", s)
		}
	}
	loc := r.Location()
	want := " ("
	if loc.File() != file {
		fail("the file is %q instead of %q", loc.File(), file)
	}
	if file != "" {
		want += "file: " + file + ", "
	}
	want += fmt.Sprintf("line: %d, column: %d)", loc.Line(), loc.Pos())
	text := strings.TrimSuffix(msg, want)
	if text == msg && !saysLocation.MatchString(msg) {
		fail("the message does not end with the location%s", want)
	}
	if strings.TrimSpace(text) == "" || !utf8.ValidString(text) {
		fail("there is no message")
	}
	if r.Cause() != nil || r.Stack() != "" {
		fail("there is a cause or a stack")
	}
	// the structured form
	form := pn.ReportedToPN(r)
	if got, want := form.ToData(), map[string]any{"code": string(r.Code()), "severity": r.Severity().String(), "message": msg}; !sameFields(got, want) {
		fail("the structured form is %v", got)
	}
	v, err := readPN(form.String())
	if err != nil {
		fail("the structured form cannot be read: %s", form)
	}
	if w := (&val{kind: "map", keys: []string{"code", "severity", "message"}, l: []*val{strVal(string(r.Code())), strVal(r.Severity().String()), strVal(msg)}}); !same(v, w) {
		fail("the structured form is %s", form)
	}
	return text
}

// sameFields compares the data form, a list of keys and values under one key, with a map
func sameFields(data any, want map[string]any) bool {
	m, ok := data.(map[string]any)
	if !ok || len(m) != 1 {
		return false
	}
	l, ok := m["#"].([]any)
	if !ok || len(l) != 2*len(want) {
		return false
	}
	for i := 0; i < len(l); i += 2 {
		k, _ := l[i].(string)
		if w, ok := want[k]; !ok || !reflect.DeepEqual(fmt.Sprint(w), fmt.Sprint(l[i+1])) {
			return false
		}
	}
	return true
}

// showsAll tells if a message names everything in a list
func showsAll(msg string, shows []string) bool {
	for _, s := range shows {
		if strings.HasPrefix(s, "~") {
			if !strings.Contains(strings.ToLower(msg), strings.ToLower(s[1:])) {
				return false
			}
			continue
		}
		if !delimited(msg, s) {
			return false
		}
	}
	return true
}

// delimited tells if a text occurs as a whole
func delimited(msg, s string) bool {
	for at := 0; ; at++ {
		i := strings.Index(msg[at:], s)
		if i < 0 {
			return false
		}
		at += i
		end := at + len(s)
		word := func(i int) bool { return i >= 0 && i < len(msg) && isWordByte(msg[i]) }
		if !(word(at-1) && word(at)) && !(word(end-1) && word(end)) {
			return true
		}
		if at+1 > len(msg) {
			return false
		}
	}
}

// checkMessages compares the messages of a validator with what the rules say about them
func (g *G) checkMessages(src, mode string, e parser.Expression, is []issue.Reported) {
	type reported struct {
		text string
		used bool
	}
	got := map[issueAt][]*reported{}
	for _, i := range is {
		at := issueAt{string(i.Code()), i.Location().Line(), i.Location().Pos()}
		got[at] = append(got[at], &reported{text: g.message(src, "f.pp", i)})
		g.tag(string(i.Code()))
	}
	for _, w := range refIssues(fromAST(e), mode) {
		l, c := lineCol(src, w.n.Off)
		at := issueAt{w.code, l, c}
		ok := false
		for _, r := range got[at] {
			if showsAll(r.text, w.shows) {
				ok, r.used = true, true
			}
		}
		if !ok && len(got[at]) > 0 {
			g.fail("the message should name %q\n--- message\n%s\n--- code %s\n--- source\n%s", w.shows, got[at][0].text, w.code, src)
		}
	}
	for at, rs := range got {
		for _, r := range rs {
			if !r.used {
				g.fail("the message names something else\n--- message\n%s\n--- code %s\n--- source\n%s", r.text, at.code, src)
			}
		}
	}
}

var quoted = regexp.MustCompile(`(?:unexpected token|got) '(.*)'$`)

var tokenEnds = map[string]*regexp.Regexp{"variable": regexp.MustCompile(`\$[\w:]*$`), "identifier": regexp.MustCompile(`\w$`), "type name": regexp.MustCompile(`[A-Z]\w*$`), "string literal": regexp.MustCompile("['\"`\\w-]$"), "dq string literal": regexp.MustCompile(`"$`),
	"integer literal": regexp.MustCompile(`[0-9a-fA-F]$`), "float literal": regexp.MustCompile(`[0-9]$`), "heredoc": regexp.MustCompile(`\)$`), "regexp": regexp.MustCompile(`/$`), "boolean literal": regexp.MustCompile(`e$`)}

// tokenAt tells if a token that an error names is at the place of the error
func tokenAt(src string, off int, tok string) bool {
	here, before := src[off:], src[:off]
	if strings.HasPrefix(here, tok) || strings.HasSuffix(before, tok) {
		return true
	}
	if end := tokenEnds[tok]; end != nil && end.MatchString(before) {
		return true // some errors are reported at the end of the token
	}
	first, _ := utf8.DecodeRuneInString(here)
	starts := func(s string) bool { return strings.ContainsRune(s, first) && here != "" }
	switch tok {
	case "EOF":
		return off == len(src) || strings.HasPrefix(here, "}") || strings.HasSuffix(before, "}")
	case "identifier":
		return first == ':' || first == '_' || unicode.IsLower(first)
	case "type name":
		return first == ':' || unicode.IsUpper(first)
	case "string literal":
		return starts("'\"`") || unicode.IsLower(first)
	case "dq string literal":
		return starts("\"@")
	case "integer literal", "float literal":
		return starts("0123456789")
	case "boolean literal":
		return strings.HasPrefix(here, "true") || strings.HasPrefix(here, "false")
	case "heredoc":
		return first == '@'
	case "variable":
		return first == '$'
	case "regexp":
		return first == '/'
	case "epp text":
		return true
	}
	return false
}

func (g *G) checkSyntaxMessage(src, file string, err error, epp bool) string {
	r, ok := err.(issue.Reported)
	if !ok {
		if !offsetMsg.MatchString(err.Error()) {
			g.fail("unexpected message %q\n--- source\n%q", err, src)
		}
		g.tag("no text")
		return ""
	}
	text := g.message(src, file, r)
	fail := func(what string) {
		g.fail("%s\n--- message\n%s\n--- code %s\n--- source\n%s", what, r, r.Code(), src)
	}
	if r.Severity() != issue.SeverityError {
		fail("the severity is " + r.Severity().String())
	}
	g.tag(string(r.Code()))
	off := offsetOf(src, r.Location().Line(), r.Location().Pos())
	if off < 0 || off > len(src) {
		fail("the location is outside of the source")
	}
	if m := quoted.FindStringSubmatch(text); m != nil {
		tok := m[1]
		if tok == "" {
			fail("the token is missing")
		}
		if !tokenAt(src, off, tok) && !(epp && (tok == ";" || tok == "EOF")) {
			fail(fmt.Sprintf("there is no %q at %q", tok, head(src[off:], 20)))
		}
		if strings.Contains(tok, "'") {
			fail("the token cannot be told from the text")
		}
	}
	switch r.Code() {
	case "LEX_UNTERMINATED_STRING":
		k := map[string]string{"'": "single", "\"": "double", "`": "backtick"}[head(src[off:], 1)]
		if k == "" || !strings.Contains(text, k) {
			fail("the kind of string is another one")
		}
	case "LEX_HEREDOC_ILLEGAL_ESCAPE":
		if i := strings.IndexByte(src[off:]+"\n", '\n'); !strings.Contains(src[:off+i], text[strings.Index(text, "'")+1:len(text)-1]) {
			fail("there is no such escape")
		}
	case "PARSE_RESOURCE_WITHOUT_TITLE":
		if n := fmt.Sprint(r.Argument("name")); !strings.HasPrefix(src[off:], n) && !(src[off] == '@' && strings.Contains(src[off:], n)) || !delimited(text, "'"+n+"'") {
			fail("the name is another one")
		}
	case "PARSE_EXPECTED_ITERATOR_STYLE":
		if s := fmt.Sprint(r.Argument("style")); !strings.HasSuffix(strings.TrimSpace(src[:off]), s) && !strings.HasPrefix(src[off:], s) || !strings.HasSuffix(text, "'"+s+"'") {
			fail("the word is another one")
		}
	case "PARSE_EXPECTED_STEP_NAME":
		m := stepWord.FindAllString(src[:off], -1)
		if len(m) == 0 || !delimited(text, m[len(m)-1]) {
			fail("the style is another one")
		}
	}
	return text
}

// checkResult compares the outcome of parsing and validating in one step
func (g *G) checkResult(src string, opts []parser.Option) {
	v := validator.NewChecker([]validator.Strictness{validator.StrictOff, validator.StrictWarning, validator.StrictError}[g.n(3)])
	e, res := validator.NewParserValidator(parser.CreateParser(opts...), v).Parse("f.pp", src)
	ref, err := parser.CreateParser(opts...).Parse("f.pp", src, false)
	if err != nil {
		if !isNil(e) || res == nil || !res.Error() || len(res.Issues()) != 1 {
			g.fail("parsing and validating gives %v, parsing fails: %v\n--- source\n%s", res, err, src)
		}
		i := res.Issues()[0]
		if r, ok := err.(issue.Reported); ok {
			if i.Code() != r.Code() || i.Error() != r.Error() || i.Severity() != r.Severity() {
				g.fail("parsing and validating gives\n%s\n--- parsing gives\n%s\n--- source\n%s", i, r, src)
			}
		} else if i.Code() != "VALIDATE_INVALID_SOURCE" || !strings.HasPrefix(i.Error(), err.Error()) || i.Severity() != issue.SeverityError || i.Location().File() != "f.pp" {
			g.fail("parsing and validating gives\n%s\n--- parsing gives\n%s\n--- source\n%q", i, err, src)
		}
		return
	}
	if isNil(e) || e.ToPN().String() != ref.ToPN().String() {
		g.fail("parsing and validating gives another tree\n--- source\n%s", src)
	}
	is := v.Issues()
	hard := false
	for _, i := range is {
		hard = hard || i.Severity() == issue.SeverityError
	}
	if res == nil {
		if len(is) > 0 {
			g.fail("the issues are lost\n--- source\n%s\n%s", src, is[0])
		}
		return
	}
	if !reflect.DeepEqual(res.Issues(), is) || res.Error() != hard || len(is) == 0 {
		g.fail("parsing and validating gives other issues: %v, %v\n--- source\n%s", res.Issues(), is, src)
	}
}

var stepWord = regexp.MustCompile(`\b(action|resource|stateHandler|workflow)\b`)

// brokenStep is the text of a step with a wrong word
func (g *G) brokenStep() string {
	style := g.pick(styles)
	name := " x"
	if g.pct(30) {
		name = g.pick([]string{" 'x'", " X", " 1", "", " $x"})
	}
	props := g.pick([]string{" { }", " { a => 1 }", " { parameters => ($x), returns => ($y) }", "{ a => [\n1]\n}"})
	iter := g.pick([]string{" foo", " timess", "\neach_", " $v = foo", " $v = Each", " range", " \u00a0", " each($x) |$y|", " $v = x::y", ""})
	s := style + name + props + iter + g.pick([]string{" { }", "", "($x) |$y| { }", " foo { }"})
	if g.bool() {
		s = "workflow w { }{\n  " + s + "\n}"
	}
	return g.pick([]string{"", "# é\n", "$x = 'é' "}) + s
}

func strVal(s string) *val { return &val{kind: "string", s: s} }

func checkC26(g *G) {
	switch g.weighted(40, 25, 25, 10) {
	case 0:
		src, e := g.parsed()
		if e == nil {
			return
		}
		k := 0
		for i, v := range []validator.Validator{validator.ValidatePuppet(e, validator.StrictError), validator.ValidateTasks(e), validator.ValidateWorkflow(e)} {
			g.checkMessages(src, []string{"base", "tasks", "workflow"}[i], e, v.Issues())
			k += len(v.Issues())
		}
		if k > 0 {
			g.count(src)
		}
	case 1: // a broken program
		p := g.anyProgram()
		g.mark = &Node{K: KNop, Off: -1, End: -1}
		g.breaker = func(ts []Tok, inner bool) []Tok {
			if inner && !g.pct(20) {
				return ts
			}
			r, _, _ := g.breakToks(ts, inner)
			return r
		}
		file := g.pick(fileNames)
		g.syntaxMessage(g.Print(p, g.newLayout(), false), file, g.options()...)
	case 2:
		opts, _ := g.someOptions()
		if g.pct(12) {
			opts = []parser.Option{parser.WorkflowEnabled}
			g.syntaxMessage(g.brokenStep(), g.pick(fileNames), opts...)
			return
		}
		if g.pct(25) {
			steps := g.pct(25)
			if steps {
				opts = append(opts, parser.WorkflowEnabled)
			}
			src, _ := g.wrongForm(steps)
			switch g.u(4) {
			case 0:
				src = g.pick([]string{"", "x", "é\n"}) + g.pick([]string{"<% ", "<%= ", "<%- "}) + src + g.pick([]string{" %>", " -%>", "%>\n", ""})
				opts = append(opts, parser.EppMode)
			case 1:
				src = g.pick(corpus) + "\n" + src
			case 2:
				w := blocks[g.u(len(blocks))]
				src = w[0] + src + w[1]
			}
			g.syntaxMessage(src, g.pick(fileNames), opts...)
			return
		}
		g.syntaxMessage(g.anySource(40), g.pick(fileNames), opts...)
	default:
		opts, _ := g.someOptions()
		var src string
		if g.bool() {
			src = g.anySource(40)
		} else {
			src = g.pick(corpus)
		}
		g.note("%q", src)
		g.checkResult(src, opts)
	}
}

var (
	expectedOne  = regexp.MustCompile(`^expected token '(.*)', got '`)
	expectedMany = regexp.MustCompile(`^expected one of '(.*)' or '(.*)', got '`)
)

// supplies are texts that are what the messages say should be there
var supplies = map[string]string{
	"PARSE_EXPECTED_ATTRIBUTE_NAME":           " zz ",
	"PARSE_EXPECTED_CLASS_NAME":               " zz ",
	"PARSE_EXPECTED_HOSTNAME":                 " 'zz' ",
	"PARSE_EXPECTED_NAME_AFTER_FUNCTION":      " zz ",
	"PARSE_EXPECTED_NAME_AFTER_PLAN":          " zz ",
	"PARSE_EXPECTED_TYPE_NAME":                " Zz ",
	"PARSE_EXPECTED_TYPE_NAME_AFTER_TYPE":     " Zz ",
	"PARSE_INHERITS_MUST_BE_TYPE_NAME":        " Zz ",
	"PARSE_EXPECTED_VARIABLE":                 " $zz ",
	"PARSE_EXPECTED_FARROW_AFTER_KEY":         " => ",
	"PARSE_EXPECTED_TITLE":                    " 'zz': ",
	"PARSE_EXPECTED_STEP_NAME":                " zz ",
	"PARSE_EXPECTED_STEP_STYLE":               " action zz { } { } ",
	"PARSE_EXPECTED_ITERATOR_STYLE":           " times($zz) |$zz| ",
	"PARSE_EXPECTED_NAME_OR_NUMBER_AFTER_DOT": " zz ",
	"LEX_DIGIT_EXPECTED":                      "1 ",
	"LEX_HEXDIGIT_EXPECTED":                   "f ",
	"LEX_OCTALDIGIT_EXPECTED":                 "7 ",
}

// checkSupplied does the same for errors that may be at the end of the token: the missing part makes a difference before it
func (g *G) checkSupplied(src, file, in string, r issue.Reported, single bool, opts []parser.Option) {
	off := offsetOf(src, r.Location().Line(), r.Location().Pos())
	var changed string
	var n issue.Reported
	if off == len(src) && in[0] == ' ' {
		in = "\n" + in // the source may end in a comment
	}
	for at := off; at >= 0; at-- {
		if at == off-1000 {
			return // a very long token
		}
		changed = src[:at] + in + src[at:]
		_, err := parser.CreateParser(opts...).Parse(file, changed, single)
		var ok bool
		if n, ok = err.(issue.Reported); !ok {
			return
		}
		if n.Code() != r.Code() || offsetOf(changed, n.Location().Line(), n.Location().Pos()) > off+len(in) {
			g.tag("supplied")
			return
		}
	}
	g.fail("what was expected is not accepted\n--- message\n%s\n--- with it\n%s\n--- source\n%s\n--- changed\n%s", r, n, src, changed)
}

// checkExpected puts what an error says was expected in front of the place, and sees that it is accepted
func (g *G) checkExpected(src, file, text string, r issue.Reported, single bool, opts []parser.Option) {
	off := offsetOf(src, r.Location().Line(), r.Location().Pos())
	var expected []string
	if m := expectedOne.FindStringSubmatch(text); m != nil {
		expected = m[1:]
	} else if m := expectedMany.FindStringSubmatch(text); m != nil {
		expected = m[1:]
	}
	for _, x := range expected {
		var changed string
		in := " " + x + " "
		switch {
		case x == "EOF":
			if strings.Contains(src, "@(") {
				continue
			}
			changed, in = src[:off], ""
		case x == "identifier":
			in = " each " // only an iteration expects one
			changed = src[:off] + in + src[off:]
		case x == "|" && len(expected) == 1:
			in = " |$zz| "
			changed = src[:off] + in + src[off:]
		default:
			changed = src[:off] + in + src[off:]
		}
		_, err := parser.CreateParser(opts...).Parse(file, changed, single)
		n, ok := err.(issue.Reported)
		if !ok {
			continue
		}
		at := offsetOf(changed, n.Location().Line(), n.Location().Pos())
		if at >= off && (at < off+len(in) || in == "") && n.Code() != "PARSE_EXTRANEOUS_COMMA" && n.Code() != "PARSE_EXPECTED_CLASS_NAME" {
			g.fail("what was expected is not accepted\n--- message\n%s\n--- with it\n%s\n--- source\n%s\n--- changed\n%s", r, n, src, changed)
		}
		g.tag("expected supplied")
	}
}

func (g *G) syntaxMessage(src, file string, opts ...parser.Option) {
	g.note("%q", src)
	single := g.pct(10)
	_, err := parser.CreateParser(opts...).Parse(file, src, single)
	if err == nil {
		return
	}
	epp := false
	for _, o := range opts {
		epp = epp || optionName(o) == optionName(parser.EppMode)
	}
	text := g.checkSyntaxMessage(src, file, err, epp)
	if r, ok := err.(issue.Reported); ok && !epp {
		if in := supplies[string(r.Code())]; in != "" {
			g.checkSupplied(src, file, in, r, single, opts)
		} else {
			g.checkExpected(src, file, text, r, single, opts)
		}
	}
	g.count(strconv.Quote(file) + src)
}

func init() {
	register(&Prop{id: "C26", quick: 25000, thorough: 500000, check: checkC26,
		rule: "messages of all issues of random programs and sources that break rules (40%), of programs with a token that does not fit (25%), of mutated and arbitrary sources (25%), and of parsing and validating in one step (10%); non-trivial: at least one issue; distinct by source text"})
}
