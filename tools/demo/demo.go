package main

// Reads cases.json (beside this file, or as argument) and compares what the library does with each source with what is
// expected. With -gen, the expectations are (re)written.

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"strings"

	"github.com/lyraproj/issue/issue"
	pjson "github.com/lyraproj/puppet-parser/json"
	"github.com/lyraproj/puppet-parser/literal"
	"github.com/lyraproj/puppet-parser/parser"
	"github.com/lyraproj/puppet-parser/pn"
	"github.com/lyraproj/puppet-parser/validator"
)

type kase struct {
	Mode   string   `json:"mode"`
	Opts   []string `json:"opts,omitempty"`
	Src    string   `json:"src"`
	Repeat int      `json:"repeat,omitempty"`
	Want   string   `json:"want"`
}

func text(p pn.PN) string {
	b := bytes.NewBufferString(``)
	p.Format(b)
	return b.String()
}

func run(k kase) (result string) {
	defer func() {
		if r := recover(); r != nil {
			result = fmt.Sprintf("panic: %v", r)
		}
	}()
	var opts []parser.Option
	epp, single := false, false
	strict := validator.StrictError
	for _, o := range k.Opts {
		switch o {
		case `wf`:
			opts = append(opts, parser.WorkflowEnabled)
		case `tasks`:
			opts = append(opts, parser.TasksEnabled)
		case `bt`:
			opts = append(opts, parser.HandleBacktickStrings)
		case `hex`:
			opts = append(opts, parser.HandleHexEscapes)
		case `epp`:
			opts = append(opts, parser.EppMode)
			epp = true
		case `off`:
			strict = validator.StrictOff
		case `warning`:
			strict = validator.StrictWarning
		case `single`:
			single = true
		}
	}
	_ = epp
	src := k.Src
	if k.Repeat > 0 {
		// everything between « and » is repeated
		a, z := strings.Index(src, `«`), strings.Index(src, `»`)
		src = src[:a] + strings.Repeat(src[a+len(`«`):z], k.Repeat) + src[z+len(`»`):]
	}
	e, err := parser.CreateParser(opts...).Parse(`t.pp`, src, single)
	if err != nil {
		return "error: " + err.Error()
	}
	out := &strings.Builder{}
	issues := func(v validator.Validator) {
		validator.Validate(v, e)
		for _, i := range v.Issues() {
			fmt.Fprintf(out, "%s %s %s\n", i.Severity(), i.Code(), i.Error())
		}
	}
	switch k.Mode {
	case `dump`:
		out.WriteString(text(e.ToPN()))
	case `ok`:
		out.WriteString("accepted")
	case `puppet`:
		issues(validator.NewChecker(strict))
	case `tasks`:
		issues(validator.NewTasksChecker())
	case `workflow`:
		issues(validator.NewWorkflowChecker())
	case `locations`:
		e.AllContents(nil, func(path []parser.Expression, x parser.Expression) {
			fmt.Fprintf(out, "%s %d %d:%d %q\n", x.Label(), x.ByteOffset(), x.Line(), x.Pos(), x.String())
		})
	case `paths`:
		e.AllContents(nil, func(path []parser.Expression, x parser.Expression) {
			for _, p := range path {
				fmt.Fprintf(out, "%s > ", p.Label())
			}
			fmt.Fprintf(out, "%s\n", x.Label())
		})
	case `contents`:
		e.AllContents(nil, func(path []parser.Expression, x parser.Expression) {
			fmt.Fprintf(out, "%s:", x.Label())
			x.Contents(path, func(p []parser.Expression, c parser.Expression) {
				fmt.Fprintf(out, " %s(%d)", c.Label(), len(p))
			})
			fmt.Fprintln(out)
		})
	case `definitions`:
		for _, d := range e.(*parser.Program).Definitions() {
			fmt.Fprintf(out, "%s\n", d.(parser.Expression).ToPN().String())
		}
	case `literal`:
		v, ok := literal.ToLiteral(e)
		fmt.Fprintf(out, "%#v %t", v, ok)
	case `json`:
		pjson.ToJson(e.ToPN().ToData(), out)
	case `both`:
		x, res := validator.NewParserValidator(parser.CreateParser(opts...), validator.NewChecker(strict)).Parse(`t.pp`, src)
		fmt.Fprintf(out, "%t %t\n", x == nil, res == nil)
		if res != nil {
			for _, i := range res.Issues() {
				fmt.Fprintf(out, "%s %s\n", i.Severity(), i.Error())
			}
		}
	default:
		return "bad mode"
	}
	_ = issue.NoArgs
	return out.String()
}

func main() {
	file := os.Args[1]
	data, err := os.ReadFile(file)
	if err != nil {
		panic(err)
	}
	var ks []kase
	if err = json.Unmarshal(data, &ks); err != nil {
		panic(err)
	}
	gen := len(os.Args) > 2 && os.Args[2] == `-gen`
	failed := false
	for i := range ks {
		got := run(ks[i])
		if gen {
			ks[i].Want = got
		} else if got != ks[i].Want {
			failed = true
			fmt.Printf("FAILED %s\n  source: %.300q\n  want: %.600q\n  got:  %.600q\n", ks[i].Mode, ks[i].Src, ks[i].Want, got)
		}
	}
	if gen {
		b := &bytes.Buffer{}
		enc := json.NewEncoder(b)
		enc.SetEscapeHTML(false)
		enc.SetIndent("", "  ")
		_ = enc.Encode(ks)
		_ = os.WriteFile(file, b.Bytes(), 0644)
		for _, k := range ks {
			fmt.Printf("%s %.200q\n  %s\n", k.Mode, k.Src, k.Want)
		}
	}
	if failed {
		os.Exit(1)
	}
}
