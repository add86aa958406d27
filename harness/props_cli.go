package main

import (
	"bytes"
	"encoding/json"
	"errors"
	"math"
	"os"
	"os/exec"
	"path/filepath"
	"reflect"
	"strconv"
	"strings"

	"github.com/lyraproj/issue/issue"
	"github.com/lyraproj/puppet-parser/parser"
	"github.com/lyraproj/puppet-parser/validator"
)

// C19: the command line tool

type cliRun struct {
	out, err string
	code     int
}

func (g *G) cli(args ...string) (r cliRun) {
	c := exec.Command(os.Getenv("VERIF_CLI"), args...)
	var o, e bytes.Buffer
	c.Stdout, c.Stderr = &o, &e
	err := c.Run()
	var x *exec.ExitError
	if err != nil && !errors.As(err, &x) {
		panic(err)
	}
	r.out, r.err, r.code = o.String(), e.String(), c.ProcessState.ExitCode()
	return
}

// plainJSON is v as it is read back from JSON
func plainJSON(v any) any {
	switch v := v.(type) {
	case string:
		var b strings.Builder
		for _, c := range v {
			b.WriteRune(c)
		}
		return b.String()
	case json.Number:
		if i, err := strconv.ParseInt(string(v), 10, 64); err == nil {
			return i
		}
		f, err := strconv.ParseFloat(string(v), 64)
		if err != nil {
			return string(v)
		}
		return plainJSON(f)
	case []any:
		r := make([]any, len(v))
		for i := range v {
			r[i] = plainJSON(v[i])
		}
		return r
	case map[string]any:
		r := map[string]any{}
		for k, e := range v {
			r[k] = plainJSON(e)
		}
		return r
	case float64:
		if v == math.Trunc(v) && math.Abs(v) < 1<<62 {
			return int64(v)
		}
		return v
	case int:
		return int64(v)
	case float32:
		return plainJSON(float64(v))
	case nil, bool, int64:
		return v
	}
	rv := reflect.ValueOf(v)
	switch {
	case rv.CanInt():
		return rv.Int()
	case rv.CanUint():
		return int64(rv.Uint())
	case rv.Kind() == reflect.String:
		return plainJSON(rv.String())
	}
	return v
}

func issueData(i issue.Reported) any {
	return map[string]any{"#": []any{"code", string(i.Code()), "severity", i.Severity().String(), "message", i.Error()}}
}

func checkC19(g *G) {
	if os.Getenv("VERIF_CLI") == "" {
		g.fail("VERIF_CLI is not set")
	}
	name := g.pick([]string{"f.pp", "x.epp", "a b.pp", "é.pp", "epp", "f.epp.pp", "y", "é x.epp", "a.EPP", ".epp"})
	var src string
	switch g.weighted(40, 15, 15, 20, 4, 6) {
	case 0:
		p := g.anyProgram()
		if strings.HasSuffix(name, ".epp") {
			p = g.template()
		}
		src = g.Print(p, g.newLayout(), false)
		g.tag("program")
	case 1:
		src = g.mutate(g.Print(g.anyInput(), g.newLayout(), false))
		g.tag("mutated program")
	case 2:
		src = g.pick(corpus)
		g.tag("corpus")
	case 3:
		src = g.mutate(g.pick(corpus))
		g.tag("mutated corpus")
	case 4:
		src = g.rawBytes(30)
		g.tag("bytes")
	default:
		// no issues but soft ones
		src = g.pick([]string{"$x = {a=>1,a=>2}", "$x = {a=>1,'a'=>2, b=>1, b=>1}", "case $x { default: {} default: {} }", "$x = $y ? { default => 1, default => 2 }", "class x { $x = 1 }", "notice 3", "", "'x\\u{3042}<&>'", "$x = 1.5e300"})
		g.tag("soft issues")
	}
	var args []string
	var opts []parser.Option
	strict := validator.StrictOff
	text, validateOnly := true, false
	if strings.HasSuffix(name, ".epp") {
		opts = append(opts, parser.EppMode)
		g.tag("template")
	}
	flags := []func(){
		func() { args, validateOnly = append(args, g.pick([]string{"-v", "-v", "-v=true", "--v"})), true },
		func() { args, text = append(args, g.pick([]string{"-j", "--j", "-j=true"})), false },
		func() { args, opts = append(args, "-t"), append(opts, parser.TasksEnabled) },
		func() { args, opts = append(args, "-w"), append(opts, parser.WorkflowEnabled) },
		func() {
			s := g.u(3)
			strict = []validator.Strictness{validator.StrictOff, validator.StrictWarning, validator.StrictError}[s]
			l := []string{"off", "warning", "error"}[s]
			switch g.n(8) {
			case 1:
				l = strings.ToUpper(l)
			case 2:
				l = strings.ToUpper(l[:1]) + l[1:]
			case 3:
				if s == 0 {
					l = ""
				}
			}
			if g.pct(20) {
				args = append(args, "-s="+l)
			} else {
				args = append(args, "-s", l)
			}
		},
	}
	for i := range flags {
		j := i + g.u(len(flags)-i)
		flags[i], flags[j] = flags[j], flags[i]
		if g.pct(50) {
			flags[i]()
		}
	}
	dir, err := os.MkdirTemp("", "verif-cli")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(dir)
	file := filepath.Join(dir, name)
	if err := os.WriteFile(file, []byte(src), 0o600); err != nil {
		panic(err)
	}
	if g.pct(3) {
		bad := g.pick([]string{"none", "two", "missing", "strictness"})
		g.tag("wrong arguments")
		switch bad {
		case "none":
		case "two":
			args = append(args, file, file)
		case "strictness":
			args = append(args, "-s", g.pick([]string{"on", "warn", "errors", "0", "of", "ignore", " error", "warning,error", "true"}), file)
		default:
			args = append(args, file+"x")
		}
		if r := g.cli(args...); r.code == 0 || r.out != "" || r.err == "" {
			g.fail("wrong arguments %q: exit status %d\n--- stdout\n%s\n--- stderr\n%s", args, r.code, r.out, r.err)
		}
		return
	}
	g.note("%q %q %q", name, args, src)
	r := g.cli(append(args, file)...)
	fail := func(f string, a ...any) {
		g.fail(f+"\n--- file\n%s\n--- arguments\n%q\n--- source\n%s\n--- exit status %d, stdout\n%s\n--- stderr\n%s", append(a, name, args, src, r.code, r.out, r.err)...)
	}

	// what the library says
	doc := map[string]any{}
	var stdout, stderr strings.Builder
	code := 0
	e, perr := parser.CreateParser(opts...).Parse(file, src, false)
	if perr != nil {
		g.tag("parse error")
		code = 1
		if i, ok := perr.(issue.Reported); ok {
			doc["issues"] = []any{issueData(i)}
		} else {
			doc["error"] = perr.Error()
		}
		stderr.WriteString(perr.Error() + "\n")
	} else {
		v := validator.ValidatePuppet(e, strict)
		var is []any
		for _, i := range v.Issues() {
			is = append(is, issueData(i))
			stderr.WriteString(i.String() + "\n")
			if i.Severity() == issue.SeverityError {
				code = 1
			}
		}
		if len(is) > 0 {
			doc["issues"] = is
			g.tag("issues")
			if code == 0 {
				g.tag("only issues that are no errors")
			}
		}
		if code == 0 && !validateOnly {
			doc["ast"] = e.ToPN().ToData()
			stdout.WriteString(e.ToPN().String() + "\n")
		}
	}

	if r.code != code {
		fail("the exit status should be %d", code)
	}
	if text {
		g.tag("text")
		if r.out != stdout.String() {
			fail("the output should be\n%s", stdout.String())
		}
		if r.err != stderr.String() {
			fail("the issues should be\n%s", stderr.String())
		}
	} else {
		g.tag("json")
		if r.err != "" {
			fail("there is output to stderr")
		}
		d := json.NewDecoder(strings.NewReader(r.out))
		d.UseNumber()
		var got any
		if err := d.Decode(&got); err != nil {
			fail("the output is not JSON: %v", err)
		}
		var more any
		if err := d.Decode(&more); err == nil {
			fail("the output has more than one JSON document")
		}
		if w, g := plainJSON(doc), plainJSON(got); !reflect.DeepEqual(w, g) {
			ws, _ := json.Marshal(w)
			gs, _ := json.Marshal(g)
			fail("the output should be\n%s\nnot\n%s", ws, gs)
		}
	}
	if src != "" {
		g.count(strings.Join(args, " ") + "\n" + name + "\n" + src)
	}
}

func init() {
	register(&Prop{id: "C19", quick: 700, thorough: 25000, check: checkC19,
		rule: "the command is run on generated, mutated and broken programs and templates with all flags, and what it prints is compared with the results of the library; non-trivial: source text that is not empty; distinct by flags, name and source text"})
}
