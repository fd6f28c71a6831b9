package main

import (
	"bytes"
	"fmt"
	"io/ioutil"
	"os"
	"os/exec"
	"runtime"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"

	"github.com/lyraproj/issue/issue"
	pjson "github.com/lyraproj/puppet-parser/json"
	"github.com/lyraproj/puppet-parser/literal"
	"github.com/lyraproj/puppet-parser/parser"
	"github.com/lyraproj/puppet-parser/pn"
	"github.com/lyraproj/puppet-parser/validator"
)

// --- C21. Concurrency ---
//
// The harness is built with the race detector. What several goroutines do at the same time must not make it report anything,
// and each of them must get what it gets when it's alone.

type op struct {
	name string
	f    func(e parser.Expression) string
}

func allNodes(e parser.Expression) []parser.Expression {
	ns := []parser.Expression{e}
	e.AllContents(nil, func(path []parser.Expression, x parser.Expression) { ns = append(ns, x) })
	return ns
}

func eachNode(e parser.Expression, f func(b *strings.Builder, x parser.Expression)) string {
	b := &strings.Builder{}
	for _, x := range allNodes(e) {
		f(b, x)
		b.WriteByte('\n')
	}
	return b.String()
}

func issuesText(is []issue.Reported) string {
	b := &strings.Builder{}
	for _, i := range is {
		fmt.Fprintf(b, "%s %s %s\n", i.Severity(), i.Code(), i)
		bb := &bytes.Buffer{}
		pjson.ToJson(pn.ReportedToPN(i).ToData(), bb)
		b.Write(bb.Bytes())
	}
	return b.String()
}

func literalText(v interface{}) string {
	switch x := v.(type) {
	case map[interface{}]interface{}:
		var ss []string
		for k, v := range x {
			ss = append(ss, literalText(k)+"="+literalText(v))
		}
		sort.Strings(ss)
		return "{" + strings.Join(ss, ",") + "}"
	case []interface{}:
		var ss []string
		for _, v := range x {
			ss = append(ss, literalText(v))
		}
		return "[" + strings.Join(ss, ",") + "]"
	}
	return fmt.Sprintf("%T %v", v, v)
}

var readOps = []op{
	{"PN text", func(e parser.Expression) string { return e.ToPN().String() }},
	{"PN JSON", func(e parser.Expression) string {
		b := &bytes.Buffer{}
		pjson.ToJson(e.ToPN().ToData(), b)
		return b.String()
	}},
	{"PN of definitions", func(e parser.Expression) string {
		s := ""
		if p, ok := e.(*parser.Program); ok {
			for _, d := range p.Definitions() {
				s += d.Label() + " " + d.ToPN().String() + "\n"
			}
		}
		return s
	}},
	{"locations", func(e parser.Expression) string {
		return eachNode(e, func(b *strings.Builder, x parser.Expression) {
			fmt.Fprint(b, x.File(), x.Line(), x.Pos(), x.ByteOffset(), x.ByteLength())
		})
	}},
	{"locations backwards", func(e parser.Expression) string {
		ns := allNodes(e)
		b := &strings.Builder{}
		for i := len(ns) - 1; i >= 0; i-- {
			fmt.Fprintln(b, ns[i].Pos(), ns[i].Line())
		}
		return b.String()
	}},
	{"source text", func(e parser.Expression) string {
		return eachNode(e, func(b *strings.Builder, x parser.Expression) { b.WriteString(x.String()) })
	}},
	{"labels", func(e parser.Expression) string {
		return eachNode(e, func(b *strings.Builder, x parser.Expression) { b.WriteString(x.Label()) })
	}},
	{"visit", func(e parser.Expression) string {
		b := &strings.Builder{}
		e.AllContents(make([]parser.Expression, 0, 4), func(path []parser.Expression, x parser.Expression) {
			for _, p := range path {
				b.WriteString(p.Label())
				b.WriteByte('/')
			}
			b.WriteString(x.Label())
			x.Contents(path, func(path []parser.Expression, y parser.Expression) { b.WriteString(y.Label()) })
		})
		return b.String()
	}},
	{"accessors", func(e parser.Expression) string { return Dump(e).String() }},
	{"literals", func(e parser.Expression) string {
		return eachNode(e, func(b *strings.Builder, x parser.Expression) {
			v, ok := literal.ToLiteral(x)
			fmt.Fprint(b, ok, literalText(v))
		})
	}},
	{"puppet validator", func(e parser.Expression) string {
		return issuesText(validator.ValidatePuppet(e, validator.StrictError).Issues())
	}},
	{"puppet validator, warnings", func(e parser.Expression) string {
		return issuesText(validator.ValidatePuppet(e, validator.StrictWarning).Issues())
	}},
	{"tasks validator", func(e parser.Expression) string { return issuesText(validator.ValidateTasks(e).Issues()) }},
	{"workflow validator", func(e parser.Expression) string { return issuesText(validator.ValidateWorkflow(e).Issues()) }},
}

var pnOps = []struct {
	name string
	f    func(p pn.PN) string
}{
	{"PN to text", func(p pn.PN) string { return p.String() }},
	{"PN format", func(p pn.PN) string {
		b := &bytes.Buffer{}
		p.Format(b)
		return b.String()
	}},
	{"PN to data", func(p pn.PN) string { return fmt.Sprint(p.ToData()) }},
	{"PN to JSON", func(p pn.PN) string {
		b := &bytes.Buffer{}
		pjson.ToJson(p.ToData(), b)
		return b.String()
	}},
	{"PN as call and as parameters", func(p pn.PN) string {
		s := p.AsCall("x").String()
		for _, x := range p.AsParameters() {
			s += x.String()
		}
		return s + p.WithName("k").Value().String()
	}},
}

// task is something that a goroutine does. The text is what it gives
type task struct {
	name string
	f    func() string
}

var raceLog string

// concurrently runs the tasks of each goroutine, and compares what they give with what is expected
func (c *Case) concurrently(tasks [][]task, want [][]string) {
	r := c.R
	before := raceErrors()
	procs := 2 + r.N(7)
	runtime.GOMAXPROCS(procs)
	n := len(tasks)
	got := make([][]string, n)
	var ready, done sync.WaitGroup
	start := make(chan struct{})
	var inFlight, maxInFlight, ticket int32
	order := make([][]int32, n)
	ready.Add(n)
	done.Add(n)
	for i := range tasks {
		got[i] = make([]string, len(tasks[i]))
		order[i] = make([]int32, len(tasks[i]))
		yields := r.N(3)
		go func(i int) {
			defer done.Done()
			ready.Done()
			<-start
			for k := 0; k < yields; k++ {
				runtime.Gosched()
			}
			for k, t := range tasks[i] {
				// These atomic operations order what the tasks do only where they're adjacent to a task; relaxed counters don't exist in
				// Go, so only every other goroutine is observed
				if i%2 == 0 {
					m := atomic.AddInt32(&inFlight, 1)
					for {
						old := atomic.LoadInt32(&maxInFlight)
						if m <= old || atomic.CompareAndSwapInt32(&maxInFlight, old, m) {
							break
						}
					}
				}
				got[i][k] = runTask(t)
				if i%2 == 0 {
					atomic.AddInt32(&inFlight, -1)
					order[i][k] = atomic.AddInt32(&ticket, 1)
				}
			}
		}(i)
	}
	ready.Wait()
	close(start)
	done.Wait()
	for i := range tasks {
		for k, t := range tasks[i] {
			if got[i][k] != want[i][k] {
				c.Fail("concurrently, '%s' gives another result:\n%s\n\nexpected:\n%s", t.name, firstDiff(got[i][k], want[i][k]), firstDiff(want[i][k], got[i][k]))
			}
		}
	}
	if raceErrors() != before {
		b, _ := ioutil.ReadFile(raceLog + "." + fmt.Sprint(os.Getpid()))
		if i := bytes.Index(b, []byte("WARNING: DATA RACE")); i > 0 {
			b = b[i:]
		}
		var names []string
		for _, ts := range tasks {
			for _, t := range ts {
				names = append(names, t.name)
			}
		}
		c.Fail("data race in [%s]: %s", clip(strings.Join(names, ", "), 500), clip(string(b), 5000))
	}
	c.Count("rounds")
	c.CountN("tasks", func() (n int) {
		for _, ts := range tasks {
			n += len(ts)
		}
		return
	}())
	if maxInFlight > 1 {
		c.Count("rounds with overlapping tasks observed")
	}
	c.Max("goroutines", n)
	c.Max("tasks in flight", int(maxInFlight))
	c.Seen(fmt.Sprint(order, procs, hashID(c.Src)))
}

func runTask(t task) (s string) {
	defer func() {
		if x := recover(); x != nil {
			s = fmt.Sprintf("panic: %v", x)
		}
	}()
	return t.f()
}

func firstDiff(a, b string) string {
	i := 0
	for i < len(a) && i < len(b) && a[i] == b[i] {
		i++
	}
	if i > 60 {
		i -= 60
	} else {
		i = 0
	}
	return clip(a[i:], 400)
}

func errorText(err error) string {
	if r, ok := err.(issue.Reported); ok {
		return issuesText([]issue.Reported{r})
	}
	return "error: " + err.Error()
}

func parseText(p parser.ExpressionParser, in *input, full bool) string {
	e, err := p.Parse("f.pp", in.src, in.single)
	if err != nil {
		return errorText(err)
	}
	if full {
		return readOps[0].f(e) + readOps[3].f(e) + readOps[10].f(e)
	}
	return Dump(e).String()
}

// raceInput is a source that may be used several times
func raceInput(c *Case) *input {
	in := hostile(c, 60)
	if len(in.src) > 6000 {
		in.src = in.src[:6000]
	}
	if c.R.P(25) {
		opts, src := vgenSource(c.R)
		in = &input{src: src, opts: opts}
	}
	return in
}

func runC21(c *Case) {
	r := c.R
	n := 2 + r.N(7)
	tasks := make([][]task, n)
	switch k := r.N(100); {
	case k < 45:
		// Each goroutine has its own parser
		var ins []*input
		for i := 0; i < 3; i++ {
			ins = append(ins, raceInput(c))
		}
		c.Src = ins[0].src
		c.Info = []string{ins[0].info, "separate parsers"}
		for i := range tasks {
			var p parser.ExpressionParser
			opts := ins[r.N(3)].opts
			reuse := r.P(30)
			for k, m := 0, 1+r.N(3); k < m; k++ {
				in := ins[r.N(len(ins))]
				full := r.P(40)
				if reuse {
					o := *in
					o.opts = opts
					in = &o
					tasks[i] = append(tasks[i], task{"parse with the goroutine's parser", func() string {
						if p == nil {
							p = parser.CreateParser(opts...)
						}
						return parseText(p, in, full)
					}})
				} else {
					tasks[i] = append(tasks[i], task{"create parser and parse", func() string { return parseText(parser.CreateParser(in.opts...), in, full) }})
				}
			}
		}
		c.Count("kind: separate parsers")
	case k < 88:
		// The goroutines read the same AST
		var in *input
		var e, e2 parser.Expression
		for i := 0; i < 20; i++ {
			var err error
			in = raceInput(c)
			if e, err = in.parse(); err == nil {
				break
			}
			e = nil
		}
		if e == nil {
			return
		}
		e2, _ = in.parse()
		c.Src = in.src
		c.Info = []string{in.info, "shared AST"}
		want := make([][]string, n)
		cache := map[int]string{}
		few := 1 + r.N(len(readOps))
		from := r.N(len(readOps))
		for i := range tasks {
			for k, m := 0, 1+r.N(4); k < m; k++ {
				x := (from + r.N(few)) % len(readOps)
				o := readOps[x]
				tasks[i] = append(tasks[i], task{o.name, func() string { return o.f(e) }})
				if _, ok := cache[x]; !ok {
					cache[x] = runTask(task{o.name, func() string { return o.f(e2) }})
				}
				want[i] = append(want[i], cache[x])
				c.Count("op " + o.name)
			}
		}
		c.Count("kind: shared AST")
		c.concurrently(tasks, want)
		return
	case k < 94:
		// The goroutines use the same PN
		e, err := raceInput(c).parse()
		if err != nil {
			return
		}
		p := e.ToPN()
		q := e.ToPN()
		want := make([][]string, n)
		for i := range tasks {
			for k, m := 0, 1+r.N(4); k < m; k++ {
				o := pnOps[r.N(len(pnOps))]
				tasks[i] = append(tasks[i], task{o.name, func() string { return o.f(p) }})
				want[i] = append(want[i], o.f(q))
			}
		}
		c.Count("kind: shared PN")
		c.concurrently(tasks, want)
		return
	default:
		// The goroutines use the same issues, of a rejected source, or of a validation
		in := raceInput(c)
		c.Src = in.src
		c.Info = []string{in.info, "shared issues"}
		get := func() []issue.Reported {
			e, err := in.parse()
			if err != nil {
				if i, ok := err.(issue.Reported); ok {
					return []issue.Reported{i}
				}
				return nil
			}
			return validator.ValidatePuppet(e, validator.StrictError).Issues()
		}
		is, is2 := get(), get()
		want := make([][]string, n)
		for i := range tasks {
			tasks[i] = []task{{"issue text", func() string { return issuesText(is) }}}
			want[i] = []string{issuesText(is2)}
		}
		c.Count("kind: shared issues")
		c.concurrently(tasks, want)
		return
	}
	// What each task gives when it's alone is found afterwards, so that what is created on demand isn't created before
	first := r.P(50)
	want := make([][]string, n)
	expect := func() {
		for i := range tasks {
			want[i] = nil
			for _, t := range tasks[i] {
				want[i] = append(want[i], runTask(t))
			}
		}
	}
	if first {
		expect()
		c.concurrently(tasks, want)
		return
	}
	// The results are compared by running them concurrently twice, once without expectations
	got := make([][]string, n)
	var wg sync.WaitGroup
	wg.Add(n)
	for i := range tasks {
		go func(i int) {
			defer wg.Done()
			for _, t := range tasks[i] {
				got[i] = append(got[i], runTask(t))
			}
		}(i)
	}
	wg.Wait()
	expect()
	for i := range tasks {
		for k := range tasks[i] {
			if got[i][k] != want[i][k] {
				c.Fail("concurrently, '%s' gives another result:\n%s\n\nexpected:\n%s", tasks[i][k].name, firstDiff(got[i][k], want[i][k]), firstDiff(want[i][k], got[i][k]))
			}
		}
	}
	c.concurrently(tasks, want)
}

// raceEnv runs the program again with an environment that makes the race detector write to a file, and continue after a race
func raceEnv() {
	if !raceBuild {
		return
	}
	if raceLog = os.Getenv("VERIF_RACELOG"); raceLog != "" {
		return
	}
	dir, err := ioutil.TempDir("/verif/build", "race")
	if err != nil {
		inconclusive("%s", err)
	}
	exe, err := os.Executable()
	if err != nil {
		inconclusive("%s", err)
	}
	cmd := exec.Command(exe, os.Args[1:]...)
	cmd.Env = append(os.Environ(), "VERIF_RACELOG="+dir+"/log", "GORACE=log_path="+dir+"/log exitcode=0 halt_on_error=0 history_size=3")
	cmd.Stdout = os.Stdout
	cmd.Stderr = os.Stderr
	cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	err = cmd.Run()
	_ = os.RemoveAll(dir)
	code := cmd.ProcessState.ExitCode()
	if code < 0 || err != nil && code == 0 {
		inconclusive("%s", err)
	}
	os.Exit(code)
}

func init() {
	register(&Prop{ID: "C21", Quick: 6000, Thorough: 300000, Run: runC21, NoMemLimit: true, Shards: 4,
		Rule: "distinct orders in which concurrent tasks on distinct sources completed"})
}
