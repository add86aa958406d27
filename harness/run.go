package main

import (
	"bytes"
	"encoding/binary"
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"testing"
	"time"

	"pgregory.net/rapid"
)

// Prop is one property with the check that decides it.
type Prop struct {
	id       string
	check    func(g *G)
	quick    int // cases per shard
	thorough int
	race     bool   // to be run by a build with the race detector
	rule     string // how cases are made, and what makes one non-trivial
	assume   []string
}

var props []*Prop

func register(p *Prop) { props = append(props, p) }

func findProp(id string) *Prop {
	for _, p := range props {
		if p.id == id {
			return p
		}
	}
	return nil
}

// ---------------------------------------------------------------------------------------------
// One case

// state of the worker that is shared with the watchdog
var (
	caseMu      sync.Mutex
	caseStart   time.Duration // CPU time of the process when the case started
	caseActive  atomic.Bool
	slowest     time.Duration
	caseNote    string // the input of the case that is running
	lastFailure string
	journal     *os.File

	evaluations int
	nontrivial  = map[uint64]struct{}{}
	samples     []string
	classes     = map[string]int{}
	shrinking   bool
	deadline    time.Time
	allClasses  = map[string]bool{}
)

func cpuTime() time.Duration {
	var ru syscall.Rusage
	syscall.Getrusage(syscall.RUSAGE_SELF, &ru)
	return time.Duration(ru.Utime.Nano() + ru.Stime.Nano())
}

// note records what is about to be given to the code under test
func (g *G) note(format string, args ...any) {
	s := fmt.Sprintf(format, args...)
	caseMu.Lock()
	caseNote = s
	caseStart = cpuTime()
	caseMu.Unlock()
	if journal != nil {
		journal.Truncate(0)
		journal.WriteAt([]byte(s), 0)
	}
}

// count records a non-trivial case. The key tells cases apart
func (g *G) count(key string) {
	if shrinking {
		return
	}
	h := fnv.New64a()
	h.Write([]byte(key))
	nontrivial[h.Sum64()] = struct{}{}
	if len(samples) < 3 || len(samples) < 8 && evaluations%97 == 0 {
		if len(key) > 600 {
			key = key[:600] + "..."
		}
		samples = append(samples, key)
	}
}

// fail ends the case with a violation
func (g *G) fail(format string, args ...any) {
	s := fmt.Sprintf(format, args...)
	lastFailure = s
	if !shrinking {
		debug.SetGCPercent(50) // the cache of the shrinker is big
	}
	shrinking = true
	g.t.Fatalf("%s", s)
}

func (p *Prop) run(t *rapid.T) {
	if !shrinking && !deadline.IsZero() && time.Now().After(deadline) {
		return
	}
	g := newG(t)
	caseMu.Lock()
	caseStart = cpuTime()
	caseMu.Unlock()
	caseActive.Store(true)
	defer func() {
		caseActive.Store(false)
		if used := cpuTime() - caseStart; used > slowest && !shrinking {
			slowest = used
			if f := os.Getenv("HSLOW"); f != "" && used > time.Second {
				os.WriteFile(f, []byte(fmt.Sprintf("%v\n%s\n", used, caseNote)), 0644)
			}
		}
		if r := recover(); r != nil {
			if s := fmt.Sprintf("%T", r); strings.HasPrefix(s, "rapid.") {
				panic(r)
			}
			shrinking = true
			lastFailure = fmt.Sprintf("panic: %v\ninput: %s\n%s", r, caseNote, debug.Stack())
			t.Fatalf("panic: %v", r)
		}
	}()
	p.check(g)
	if !shrinking {
		evaluations++
		for c := range g.classes {
			classes[c]++
		}
	}
}

// ---------------------------------------------------------------------------------------------
// Worker

type result struct {
	Evaluations int
	Samples     []string
	Classes     map[string]int
	Failure     string
	Kind        string
	Slowest     float64
}

type tb struct {
	failed bool
	name   string
}

type tbFail struct{}

func (t *tb) Helper()                           {}
func (t *tb) Name() string                      { return t.name }
func (t *tb) Logf(format string, args ...any)   {}
func (t *tb) Log(args ...any)                   {}
func (t *tb) Skipf(format string, args ...any)  {}
func (t *tb) Skip(args ...any)                  {}
func (t *tb) SkipNow()                          {}
func (t *tb) Errorf(format string, args ...any) { t.failed = true; t.out(fmt.Sprintf(format, args...)) }
func (t *tb) Error(args ...any)                 { t.failed = true; t.out(fmt.Sprint(args...)) }
func (t *tb) Fatalf(format string, args ...any) { t.failed = true; panic(tbFail{}) }
func (t *tb) Fatal(args ...any)                 { t.failed = true; panic(tbFail{}) }
func (t *tb) FailNow()                          { t.failed = true; panic(tbFail{}) }
func (t *tb) Fail()                             { t.failed = true }
func (t *tb) Failed() bool                      { return t.failed }
func (t *tb) out(s string) {
	if strings.HasPrefix(s, "[rapid] flaky") || strings.HasPrefix(s, "[rapid] only generated") {
		t.name = s
		if i := strings.Index(s, "\nTraceback ("); i > 0 {
			fmt.Fprintln(os.Stderr, s[:i])
		} else {
			fmt.Fprintln(os.Stderr, s)
		}
	}
}

const (
	hangCPU  = 40 * time.Second
	maxBytes = 3 << 30
)

func rss() int64 {
	b, err := os.ReadFile("/proc/self/statm")
	if err != nil {
		return 0
	}
	f := strings.Fields(string(b))
	if len(f) < 2 {
		return 0
	}
	n, _ := strconv.ParseInt(f[1], 10, 64)
	return n * int64(os.Getpagesize())
}

func writeResult(dir string, shard int, r *result) {
	b, _ := json.Marshal(r)
	os.WriteFile(filepath.Join(dir, fmt.Sprintf("result.%d.json", shard)), b, 0644)
	var buf bytes.Buffer
	for h := range nontrivial {
		binary.Write(&buf, binary.LittleEndian, h)
	}
	os.WriteFile(filepath.Join(dir, fmt.Sprintf("hashes.%d", shard)), buf.Bytes(), 0644)
}

func watchdog(dir string, shard int, limit time.Duration) {
	for {
		time.Sleep(200 * time.Millisecond)
		if !caseActive.Load() {
			continue
		}
		caseMu.Lock()
		used, note := cpuTime()-caseStart, caseNote
		caseMu.Unlock()
		kind := ""
		if used > limit {
			kind = fmt.Sprintf("the case does not end: %v of CPU time used", used)
		} else if rss() > maxBytes {
			kind = fmt.Sprintf("runaway memory use: %d MB", rss()>>20)
		}
		if kind != "" && caseActive.Load() {
			if os.Getenv("HDUMP") != "" {
				buf := make([]byte, 1<<20)
				os.WriteFile(os.Getenv("HDUMP"), buf[:runtime.Stack(buf, true)], 0644)
			}
			b, _ := json.Marshal(&result{Failure: kind + "\ninput: " + note, Kind: "hang"})
			os.WriteFile(filepath.Join(dir, fmt.Sprintf("result.%d.json", shard)), b, 0644)
			os.Exit(3)
		}
	}
}

func worker(p *Prop, dir string, shard int, maxTime time.Duration) {
	debug.SetMaxStack(256 << 20)
	runtime.GOMAXPROCS(2)
	debug.SetGCPercent(400)
	if maxTime > 0 {
		deadline = time.Now().Add(maxTime)
	}
	limit := hangCPU
	if p.race {
		limit *= 4
	}
	go watchdog(dir, shard, limit)
	t := &tb{name: p.id}
	func() {
		defer func() {
			if r := recover(); r != nil {
				if _, ok := r.(tbFail); !ok {
					panic(r)
				}
			}
		}()
		rapid.Check(t, p.run)
	}()
	r := &result{Evaluations: evaluations, Samples: samples, Classes: classes, Slowest: slowest.Seconds()}
	if t.failed {
		r.Failure = lastFailure
		r.Kind = "violation"
		if lastFailure == "" {
			r.Kind = "error"
			r.Failure = t.name
		}
	}
	writeResult(dir, shard, r)
}

// ---------------------------------------------------------------------------------------------
// Driver

func fatal(format string, args ...any) {
	fmt.Fprintf(os.Stderr, format+"\n", args...)
	os.Exit(2)
}

func main() {
	testing.Init()
	propID := flag.String("prop", "", "property")
	tier := flag.String("tier", "quick", "quick or thorough")
	seed := flag.Int64("seed", 1, "seed")
	shard := flag.Int("shard", -1, "run as worker")
	dir := flag.String("dir", "", "scratch directory")
	maxTime := flag.Duration("maxtime", 0, "generate no more cases after this time")
	out := flag.String("out", "/verif/evidence", "evidence directory")
	shards := flag.Int("shards", 0, "number of workers")
	checks := flag.Int("cases", 0, "cases per worker")
	journalFile := flag.String("journal", "", "file for the input of the case that is running")
	replay := flag.String("replay", "", "replay file")
	known := flag.String("known", "", "file with known findings")
	list := flag.Bool("list", false, "list properties")
	flag.Parse()
	if *list {
		for _, p := range props {
			fmt.Println(p.id)
		}
		return
	}
	p := findProp(*propID)
	if p == nil {
		fatal("no check for property %q", *propID)
	}
	if *journalFile != "" {
		f, err := os.Create(*journalFile)
		if err != nil {
			fatal("%v", err)
		}
		journal = f
	}
	if *shard >= 0 {
		worker(p, *dir, *shard, *maxTime)
		return
	}
	if *replay != "" {
		os.Exit(runReplay(p, *replay))
	}
	if *dir == "" {
		t, err := os.MkdirTemp("", "verif-"+p.id+"-")
		if err != nil {
			fatal("%v", err)
		}
		*dir = t
	}
	d := &driver{p: p, tier: *tier, seed: *seed, dir: *dir, out: *out, shards: *shards, cases: *checks, maxTime: *maxTime, known: loadKnown(*known, p.id)}
	code := d.drive()
	if strings.HasPrefix(filepath.Base(d.dir), "verif-"+p.id+"-") {
		os.RemoveAll(d.dir)
	}
	os.Exit(code)
}

func runReplay(p *Prop, file string) int {
	flag.Set("rapid.failfile", file)
	flag.Set("rapid.nofailfile", "true")
	flag.Set("rapid.checks", "1")
	dir, err := os.MkdirTemp("", "replay")
	if err != nil {
		fatal("%v", err)
	}
	worker(p, dir, 0, 0)
	b, _ := os.ReadFile(filepath.Join(dir, "result.0.json"))
	os.RemoveAll(dir)
	var r result
	json.Unmarshal(b, &r)
	if r.Failure != "" {
		fmt.Println(r.Failure)
		fmt.Printf("VIOLATION property=%s replay=%s\n", p.id, file)
		return 1
	}
	fmt.Println("the case passes")
	return 0
}

type driver struct {
	p       *Prop
	tier    string
	seed    int64
	dir     string
	out     string
	shards  int
	cases   int
	maxTime time.Duration
	known   []knownFinding
}

type knownFinding struct {
	re   *regexp.Regexp
	text string
}

// loadKnown reads lines "known: property=<id> match=<regexp> :: <what fails>". The regexp is matched with the report
// of the failing case, which shows its input.
func loadKnown(file, id string) (r []knownFinding) {
	if file == "" {
		return
	}
	b, err := os.ReadFile(file)
	if err != nil {
		return
	}
	for _, l := range strings.Split(string(b), "\n") {
		if !strings.HasPrefix(l, "known: property="+id+" match=") {
			continue
		}
		l = strings.TrimPrefix(l, "known: property="+id+" match=")
		parts := strings.SplitN(l, " :: ", 2)
		if len(parts) == 2 {
			r = append(r, knownFinding{regexp.MustCompile(parts[0]), parts[1]})
		}
	}
	return
}

func (d *driver) start(i, cases int, journal bool) (*exec.Cmd, *bytes.Buffer) {
	// rapid's seeds of consecutive cases are close together, those of shards must be far apart
	seed := uint64(1) + uint64(d.seed)*1000003*1000000007 + uint64(i)*1000000000039
	if seed == 0 {
		seed = 1
	}
	args := []string{"-prop", d.p.id, "-shard", strconv.Itoa(i), "-dir", d.dir, "-maxtime", d.maxTime.String(), "-tier", d.tier,
		"-rapid.checks", strconv.Itoa(cases), "-rapid.seed", strconv.FormatUint(seed, 10), "-rapid.shrinktime", "8s"}
	if journal {
		args = append(args, "-journal", filepath.Join(d.dir, fmt.Sprintf("journal.%d", i)))
	}
	c := exec.Command(os.Args[0], args...)
	wd := filepath.Join(d.dir, fmt.Sprintf("wd.%d", i))
	os.MkdirAll(wd, 0755)
	c.Dir = wd
	var errBuf bytes.Buffer
	c.Stderr = &errBuf
	c.Env = append(os.Environ(), "GORACE=halt_on_error=1 exitcode=66", "GOTRACEBACK=single", "VERIF_WORKER=1")
	return c, &errBuf
}

func tail(s string, n int) string {
	if len(s) > n {
		return s[len(s)-n:]
	}
	return s
}

func (d *driver) drive() int {
	begin := time.Now()
	if d.shards == 0 {
		d.shards = 8
	}
	if d.cases == 0 {
		d.cases = d.p.quick
		if d.tier == "thorough" {
			d.cases = d.p.thorough
		}
	}
	if d.maxTime == 0 {
		d.maxTime = 100 * time.Second
		if d.tier == "thorough" {
			d.maxTime = 600 * time.Second
		}
	}
	type outcome struct {
		res    result
		exited bool
		stderr string
		shard  int
	}
	outs := make([]outcome, d.shards)
	var wg sync.WaitGroup
	for i := 0; i < d.shards; i++ {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			o := &outs[i]
			o.shard = i
			for attempt := 0; attempt < 2; attempt++ {
				os.Remove(filepath.Join(d.dir, fmt.Sprintf("result.%d.json", i)))
				c, errBuf := d.start(i, d.cases, attempt > 0)
				c.Run()
				o.stderr = errBuf.String()
				b, err := os.ReadFile(filepath.Join(d.dir, fmt.Sprintf("result.%d.json", i)))
				o.res = result{}
				if err == nil && json.Unmarshal(b, &o.res) == nil {
					o.exited = true
					return
				}
				// the process died: run it again to find out what it was working on
			}
		}(i)
	}
	wg.Wait()

	hashes := map[uint64]struct{}{}
	total := 0
	var samples []string
	cls := map[string]int{}
	code := 0
	violations := 0
	slow := 0.0
	report := func(kind, failure, failfile string, shard int) {
		for _, k := range d.known {
			if k.re.MatchString(failure) {
				fmt.Printf("KNOWN-FINDING: property=%s %s\n", d.p.id, k.text)
				return
			}
		}
		violations++
		if code == 1 {
			return
		}
		code = 1
		os.MkdirAll(filepath.Join(d.out, "replay"), 0755)
		path := filepath.Join(d.out, "replay", fmt.Sprintf("%s-%d-%d.fail", d.p.id, d.seed, shard))
		var b strings.Builder
		fmt.Fprintf(&b, "# property %s tier %s seed %d shard %d: %s\n", d.p.id, d.tier, d.seed, shard, kind)
		for _, l := range strings.Split(failure, "\n") {
			b.WriteString("# " + l + "\n")
		}
		if failfile != "" {
			if fb, err := os.ReadFile(failfile); err == nil {
				b.Write(fb)
			}
		}
		os.WriteFile(path, []byte(b.String()), 0644)
		fmt.Println(tail(failure, 6000))
		fmt.Printf("VIOLATION property=%s replay=%s\n", d.p.id, path)
	}
	for i := range outs {
		o := &outs[i]
		total += o.res.Evaluations
		slow = max(slow, o.res.Slowest)
		if len(samples) < 6 {
			samples = append(samples, o.res.Samples...)
		}
		for c, n := range o.res.Classes {
			cls[c] += n
		}
		if b, err := os.ReadFile(filepath.Join(d.dir, fmt.Sprintf("hashes.%d", i))); err == nil {
			for j := 0; j+8 <= len(b); j += 8 {
				hashes[binary.LittleEndian.Uint64(b[j:])] = struct{}{}
			}
		}
		switch {
		case !o.exited:
			what := ""
			for _, s := range []string{"goroutine stack exceeds", "concurrent map", "DATA RACE", "all goroutines are asleep", "fatal error: "} {
				if strings.Contains(o.stderr, s) {
					what = s
					break
				}
			}
			if strings.Contains(o.stderr, "out of memory") || what == "" && !strings.Contains(o.stderr, "panic: ") {
				fmt.Fprintf(os.Stderr, "worker %d died: %s\n", i, tail(o.stderr, 2000))
				if code == 0 {
					code = 2
				}
				break
			}
			in, _ := os.ReadFile(filepath.Join(d.dir, fmt.Sprintf("journal.%d", i)))
			report("crash", "the process crashed: "+what+"\ninput: "+string(in)+"\n"+head(o.stderr, 3000), "", i)
		case o.res.Kind == "error":
			fmt.Fprintf(os.Stderr, "worker %d: %s %s\n", i, o.res.Failure, tail(o.stderr, 2000))
			if code == 0 {
				code = 2
			}
		case o.res.Failure != "":
			ff, _ := filepath.Glob(filepath.Join(d.dir, fmt.Sprintf("wd.%d", i), "testdata", "rapid", "*", "*.fail"))
			f := ""
			if len(ff) > 0 {
				f = ff[0]
			}
			report(o.res.Kind, o.res.Failure, f, i)
		}
	}
	if len(samples) > 6 {
		samples = samples[:6]
	}
	ev := map[string]any{
		"property": d.p.id, "tier": d.tier, "seed": d.seed, "level": "exploration",
		"coverage": map[string]any{
			"evaluations": total, "distinct_nontrivial": len(hashes), "rule": d.p.rule, "samples": samples, "classes": sortedClasses(cls),
		},
		"assumptions": append([]string{"cases are drawn with rapid from generators of bounded size; absence of a violation is evidence, not proof"}, d.p.assume...),
		"wall_s":      time.Since(begin).Seconds(),
		"slowest_s":   slow, // CPU time of the slowest case
		"violations":  violations,
	}
	os.MkdirAll(d.out, 0755)
	b, _ := json.MarshalIndent(ev, "", " ")
	if err := os.WriteFile(filepath.Join(d.out, d.p.id+".json"), append(b, '\n'), 0644); err != nil {
		fatal("%v", err)
	}
	if code == 0 && (total == 0 || len(hashes) == 0) {
		fmt.Fprintln(os.Stderr, "nothing was explored")
		code = 2
	}
	fmt.Printf("%s: %d cases, %d distinct and non-trivial, %.1f s, slowest %.1f s, violations: %d\n", d.p.id, total, len(hashes), time.Since(begin).Seconds(), slow, violations)
	return code
}

func head(s string, n int) string {
	if len(s) > n {
		return s[:n]
	}
	return s
}

func sortedClasses(m map[string]int) (r []string) {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		r = append(r, fmt.Sprintf("%s: %d", k, m[k]))
	}
	return
}
