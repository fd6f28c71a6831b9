package main

import (
	"bytes"
	"fmt"
	"io"
	"io/ioutil"
	"os"
	"os/exec"
	"path/filepath"
	"reflect"
	"strings"
	"syscall"
	"unicode/utf8"

	"github.com/lyraproj/issue/issue"
	pjson "github.com/lyraproj/puppet-parser/json"
	"github.com/lyraproj/puppet-parser/parser"
	"github.com/lyraproj/puppet-parser/validator"
)

// --- C28. The command line program ---
//
// The real program is run in a scratch directory, and its exit code, output, and effects on files are compared with what the
// library (which is subject to the other properties) says about the same source.

const cliProgram = "/verif/build/parse"

func cliSource(c *Case) (src string, epp, tasks, wf bool) {
	r := c.R
	switch r.N(10) {
	case 0, 1, 2:
		g := &vgen{r: r, b: &strings.Builder{}, budget: 4 + r.Small(40), tasks: r.P(30), wf: r.P(20)}
		tasks, wf = g.tasks, g.wf
		if epp = r.P(20); epp {
			src = g.epp()
		} else {
			src = g.many(1, 4, "\n", func() string { return g.stmt(3) })
		}
	case 3, 4, 5, 6:
		cfg := randomCfg(r, r.Pick(allFocuses))
		cfg.Hex, cfg.Backtick = false, false
		tasks, wf = cfg.Tasks, cfg.Workflow
		epp = r.P(15)
		if p := newProg(r, cfg, epp); p != nil {
			src = p.Src
		}
	case 7:
		src = r.PickS("", "\n", "$x = 1", "notice('hi')", "1 + 1", "class foo { }", "$x = {a => 1, a => 2}\n", "1 2", "\xff\xfe", "if", "$x = \"\u00e5\x01\"", "notice('%s %d %%')",
			"fail('\\n')", "\"a\nb\"", "@(X)\nabc\n|X\n", "plan foo() {}", "workflow foo {}", "site {}", "\xef\xbb\xbf$x = 1", "\x00", "[1,2,3].each |$x| { }", "<% x %>", "$x +", "application\n", "type X = Consumes", "'<&>\u2028'")
		epp = r.P(10)
	default:
		in := hostile(c, 60)
		src = in.src
		epp = r.P(20)
	}
	return
}

func runC28(c *Case) {
	r := c.R
	src, epp, tasks, wf := cliSource(c)
	if r.P(8) {
		epp = !epp
	}
	if r.P(15) {
		tasks = !tasks
	}
	if r.P(15) {
		wf = !wf
	}
	dir, err := ioutil.TempDir("/verif/build", "cli")
	if err != nil {
		inconclusive("%s", err)
	}
	defer os.RemoveAll(dir)
	name := r.PickS("a", "site", "x y", "\u00e5\u65e5", "a.epp", "-a", "%d", "a'b")
	if epp {
		name += ".epp"
		if r.P(5) {
			name = ".epp"
		}
	} else {
		name += r.PickS(".pp", ".pp", "", ".EPP", ".epp.pp", ".txt", "epp")
		if strings.HasSuffix(name, ".epp") {
			epp = true
		}
	}
	sub := ""
	if r.P(30) {
		sub = r.PickS("m", "b.epp")
		if err = os.Mkdir(filepath.Join(dir, sub), 0755); err != nil {
			inconclusive("%s", err)
		}
	}
	path := filepath.Join(dir, sub, name)
	if err = ioutil.WriteFile(path, []byte(src), 0644); err != nil {
		inconclusive("%s", err)
	}
	arg := filepath.Join(sub, name)
	if r.P(25) {
		arg = path
	} else if r.P(20) {
		arg = "./" + arg
	}
	if strings.HasPrefix(arg, "-") {
		arg = "./" + arg
	}

	// Flags, in any order and form
	jsonOut, only := r.P(50), r.P(30)
	strict := r.PickS("", "off", "warning", "error")
	var flags [][]string
	dash := func(f string) string {
		if r.P(20) {
			return "--" + f
		}
		return "-" + f
	}
	flag := func(f string, on bool) {
		switch {
		case on && r.P(15):
			flags = append(flags, []string{dash(f) + r.PickS("=true", "=1", "=T")})
		case on:
			flags = append(flags, []string{dash(f)})
		case r.P(8):
			flags = append(flags, []string{dash(f) + "=false"})
		}
	}
	flag("j", jsonOut)
	flag("v", only)
	flag("t", tasks)
	flag("w", wf)
	if strict != "" {
		s := strict
		if r.P(20) {
			s = r.PickS(strings.ToUpper(s), strings.Title(s))
		}
		if r.P(40) {
			flags = append(flags, []string{dash("s") + "=" + s})
		} else {
			flags = append(flags, []string{dash("s"), s})
		}
	}
	var args []string
	for _, i := range r.perm(len(flags)) {
		args = append(args, flags[i]...)
	}
	c.Src = src
	usage := ""
	switch r.N(40) {
	case 0:
		usage = "no file"
	case 1:
		usage = "two files"
		args = append(args, arg, r.PickS(arg, "-v", "x.pp"))
	case 2:
		usage = "unknown flag"
		args = append(args, r.PickS("-x", "--verbose", "-vj"), arg)
	case 3:
		usage = "missing file"
		args = append(args, r.PickS("no_such_file.pp", "m/no.epp", dir+"x.pp"))
	case 4:
		usage = "invalid strictness"
		args = append(args, "-s", r.PickS("on", "warn", "errors", "1", "offf"), arg)
	case 5:
		args = append(args, "--", arg)
	default:
		args = append(args, arg)
	}
	c.Info = append([]string{"parse"}, args...)

	code, stdout, stderr := runProgram(dir, args)
	if b, err := ioutil.ReadFile(path); err != nil || string(b) != src {
		c.Fail("the source file is changed")
	}
	n := 0
	_ = filepath.Walk(dir, func(p string, info os.FileInfo, err error) error {
		n++
		return nil
	})
	exp := 2
	if sub != "" {
		exp = 3
	}
	if n != exp {
		c.Fail("the program creates or removes files")
	}
	c.Count(fmt.Sprintf("exit %d", code))
	if usage != "" {
		c.Count("usage: " + usage)
		if code == 0 {
			c.Fail("success although there's a usage error (%s)", usage)
		}
		if stdout != "" {
			c.Fail("a usage error (%s) writes to the standard output: %s", usage, stdout)
		}
		if strings.TrimSpace(stderr) == "" {
			c.Fail("nothing is written for a usage error (%s)", usage)
		}
		switch usage {
		case "missing file", "invalid strictness":
			what := args[len(args)-1]
			if usage == "invalid strictness" {
				what = args[len(args)-2]
			}
			if !strings.Contains(stderr, what) {
				c.Fail("the message for a usage error (%s) doesn't mention %s: %s", usage, what, clip(stderr, 1000))
			}
		default:
			for _, f := range []string{"-j", "-s", "-t", "-v", "-w"} {
				if !strings.Contains(stderr, f) {
					c.Fail("the message for a usage error (%s) doesn't list the flag %s: %s", usage, f, clip(stderr, 1000))
				}
			}
		}
		c.Seen("")
		return
	}

	cfg := Cfg{Tasks: tasks, Workflow: wf}
	e, err := parser.CreateParser(cfg.options(epp)...).Parse(arg, src, false)
	var issues []issue.Reported
	other := ""
	failed := false
	if err != nil {
		failed = true
		if i, ok := err.(issue.Reported); ok {
			issues = []issue.Reported{i}
		} else {
			other = err.Error()
		}
		c.Count("parse error")
	} else {
		issues = validator.ValidatePuppet(e, validator.Strict(strict)).Issues()
		for _, i := range issues {
			failed = failed || i.Severity() == issue.SeverityError
		}
		if len(issues) == 0 {
			c.Count("no issues")
		} else if failed {
			c.Count("validation error")
		} else {
			c.Count("only warnings")
		}
	}
	if failed != (code != 0) || code < 0 || code > 1 {
		c.Fail("exit code %d, expected an error: %v. stderr: %s", code, failed, clip(stderr, 1000))
	}
	if jsonOut {
		c.Count("JSON")
		if stderr != "" {
			c.Fail("JSON output writes to stderr: %s", stderr)
		}
		if !utf8.ValidString(stdout) {
			c.Fail("the JSON output isn't valid UTF-8")
		}
		v, err := readJSON(stdout)
		if err != nil {
			c.Fail("%s: %s", err, clip(stdout, 2000))
		}
		obj, ok := v.(jobject)
		if !ok {
			c.Fail("the JSON output isn't an object")
		}
		want := map[string]interface{}{}
		switch {
		case other != "":
			want["error"] = toJ(c, other)
		case len(issues) > 0:
			is := []interface{}{}
			for _, i := range issues {
				is = append(is, map[string]interface{}{"#": []interface{}{"code", string(i.Code()), "severity", i.Severity().String(), "message", i.Error()}})
			}
			want["issues"] = toJ(c, is)
		}
		if !failed && !only {
			want["ast"] = toJ(c, e.ToPN().ToData())
		}
		seen := map[string]bool{}
		for _, m := range obj {
			if seen[m.key] {
				c.Fail("the JSON output has several '%s'", m.key)
			}
			seen[m.key] = true
			x, ok := want[m.key]
			if !ok {
				c.Fail("unexpected '%s' in the JSON output: %s", m.key, clip(stdout, 2000))
			}
			if !reflect.DeepEqual(x, m.val) {
				c.Fail("wrong '%s' in the JSON output: %s\nexpected: %v", m.key, clip(stdout, 2000), clip(fmt.Sprint(x), 2000))
			}
		}
		for k := range want {
			if !seen[k] {
				c.Fail("no '%s' in the JSON output: %s", k, clip(stdout, 2000))
			}
		}
	} else {
		c.Count("text")
		exp := ""
		if err != nil {
			exp = err.Error() + "\n"
		} else {
			for _, i := range issues {
				exp += i.String() + "\n"
			}
		}
		if stderr != exp {
			c.Fail("stderr is:\n%s\nexpected:\n%s", clip(stderr, 3000), clip(exp, 3000))
		}
		exp = ""
		if !failed && !only {
			exp = e.ToPN().String() + "\n"
		}
		if stdout != exp {
			c.Fail("stdout is:\n%s\nexpected:\n%s", clip(stdout, 3000), clip(exp, 3000))
		}
	}
	if r.P(4) {
		// The output can't be written
		for k, text := range []string{stdout, stderr} {
			if text == "" {
				continue
			}
			f, err := os.OpenFile("/dev/full", os.O_WRONLY, 0)
			if err != nil {
				inconclusive("%s", err)
			}
			out, errOut := io.Writer(f), io.Writer(&bytes.Buffer{})
			if k == 1 {
				out, errOut = errOut, out
			}
			code := runProgramTo(dir, args, out, errOut)
			_ = f.Close()
			if code == 0 {
				c.Fail("success although the output can't be written")
			}
			c.Count("failing output")
		}
	}
	c.CountN("issues compared", len(issues))
	c.Max("bytes on stdout", len(stdout))
	c.Seen(strings.Join(append(args, src), " "))
}

// toJ returns what readJSON gives for a value
func toJ(c *Case, v interface{}) interface{} {
	b := &bytes.Buffer{}
	pjson.ToJson(v, b)
	j, err := readJSON(b.String())
	if err != nil {
		c.Fail("%s", err)
	}
	return j
}

// runProgram runs the command line program. The exit code is negative if it's ended by a signal
func runProgram(dir string, args []string) (int, string, string) {
	out, errOut := &bytes.Buffer{}, &bytes.Buffer{}
	code := runProgramTo(dir, args, out, errOut)
	return code, out.String(), errOut.String()
}

func runProgramTo(dir string, args []string, out, errOut io.Writer) int {
	cmd := exec.Command(cliProgram, args...)
	cmd.Dir = dir
	cmd.Stdout = out
	cmd.Stderr = errOut
	cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	if err := cmd.Run(); err != nil {
		if _, ok := err.(*exec.ExitError); !ok {
			inconclusive("%s", err)
		}
	}
	return cmd.ProcessState.ExitCode()
}

func init() {
	register(&Prop{ID: "C28", Quick: 20000, Thorough: 400000, Run: runC28,
		Rule: "distinct command lines and sources that aren't usage errors"})
}
