package main

import (
	"fmt"
	"strings"

	"github.com/lyraproj/puppet-parser/parser"
)

// Prog is a generated program with its expected AST
type Prog struct {
	Src  string
	T    *T
	Defs []*T
	G    *Gen
	Cfg  Cfg
	Opts []parser.Option
	Epp  bool
}

func (cfg Cfg) options(epp bool) []parser.Option {
	var opts []parser.Option
	if cfg.Backtick {
		opts = append(opts, parser.HandleBacktickStrings)
	}
	if cfg.Hex {
		opts = append(opts, parser.HandleHexEscapes)
	}
	if cfg.Tasks {
		opts = append(opts, parser.TasksEnabled)
	}
	if cfg.Workflow {
		opts = append(opts, parser.WorkflowEnabled)
	}
	if epp {
		opts = append(opts, parser.EppMode)
	}
	return opts
}

func (cfg Cfg) String() string {
	return fmt.Sprintf("tasks=%v workflow=%v hex=%v backtick=%v focus=%s", cfg.Tasks, cfg.Workflow, cfg.Hex, cfg.Backtick, cfg.Focus)
}

// randomCfg selects the options of the parser
func randomCfg(r *Rng, focus string) Cfg {
	cfg := Cfg{Focus: focus}
	switch focus {
	case "steps":
		cfg.Workflow = true
		cfg.Tasks = r.P(30)
	case "defs":
		cfg.Tasks = r.P(80)
		cfg.Workflow = r.P(15)
	default:
		cfg.Tasks = r.P(20)
		cfg.Workflow = r.P(15)
	}
	cfg.Hex = r.P(30)
	cfg.Backtick = r.P(30)
	return cfg
}

var allFocuses = []string{"", "", "", "ops", "calls", "literals", "strings", "interp", "heredoc", "flow", "resources", "defs", "steps"}

// newProg generates a program, and its expected AST. Returns nil in the rare case that the tokens can't be laid out
func newProg(r *Rng, cfg Cfg, epp bool) *Prog {
	for try := 0; try < 4; try++ {
		g := NewGen(r, cfg)
		var t *T
		if epp {
			g.cfg.NoHeredoc = r.P(70)
			t = g.EppProgram()
		} else {
			t = g.Program()
		}
		for k := 0; k < 5; k++ {
			if src, ok := g.render(r, randomStyle(r), epp); ok {
				Resolve(t)
				return &Prog{src, t, g.defs, g, cfg, cfg.options(epp), epp}
			}
		}
	}
	return nil
}

func (g *Gen) render(r *Rng, st Style, epp bool) (string, bool) {
	st.Epp = epp
	src, err := Render(g.toks, r, st)
	return src, err == nil
}

// genProg generates a program for a case
func genProg(c *Case, cfg Cfg, epp bool) *Prog {
	p := newProg(c.R, cfg, epp)
	if p == nil {
		c.Count("no layout")
		return nil
	}
	c.Src = p.Src
	c.Info = []string{cfg.String(), fmt.Sprintf("epp=%v", epp)}
	return p
}

func (p *Prog) parse() (parser.Expression, error) {
	return parser.CreateParser(p.Opts...).Parse("f.pp", p.Src, false)
}

// observe counts the features of the program
func (c *Case) observe(p *Prog) {
	if p.G != nil {
		for k, v := range p.G.feat {
			c.feat[k] += v
		}
	}
	c.Max("nodes", p.T.Count())
	c.Max("source bytes", len(p.Src))
}

// mustParse parses a valid program and returns the dumped AST
func (c *Case) mustParse(p *Prog) *T {
	e, err := p.parse()
	if err != nil {
		c.Fail("valid source is rejected: %s", err)
	}
	if e == nil {
		c.Fail("no AST and no error")
	}
	return Dump(e)
}

// checkStructure compares the real AST of the program with the expected, and the definitions
func (c *Case) checkStructure(p *Prog) *T {
	a := c.mustParse(p)
	if d := Diff(p.T, a); d != "" {
		c.Fail("wrong AST. %s", d)
	}
	c.checkDefinitions(a)
	return a
}

var defKinds = map[string]bool{"Class": true, "Define": true, "Function": true, "Plan": true, "Node": true, "Site": true, "Application": true,
	"TypeAlias": true, "TypeDefinition": true, "TypeMapping": true, "CapabilityMapping": true, "Step": true}

// checkDefinitions compares the list of definitions of the program with the definitions that its AST contains
func (c *Case) checkDefinitions(a *T) {
	prg, ok := a.E.(*parser.Program)
	if !ok {
		c.Fail("expected a Program, got %T", a.E)
	}
	// find the definitions in the AST. A step that is an activity of a workflow belongs to the definition of that workflow
	want := map[parser.Expression]string{}
	var find func(t *T, activity bool)
	find = func(t *T, activity bool) {
		if defKinds[t.K] && !(activity && t.K == "Step") {
			want[t.E] = t.K + " " + t.Str("name")
		}
		for _, f := range t.F {
			for _, x := range f.L {
				find(x, t.K == "Step" && t.Str("style") == "workflow" && f.N == "definition" || activity && t.K == "Block" && f.N == "statements")
			}
		}
	}
	find(a, false)
	got := map[parser.Expression]bool{}
	for i, d := range prg.Definitions() {
		if got[d] {
			c.Fail("definition %d (%s) is listed twice", i, d.Label())
		}
		got[d] = true
		if _, ok := want[d]; !ok {
			c.Fail("the list of definitions contains %s, which isn't an expected definition of the AST", d.Label())
		}
	}
	for d, name := range want {
		if !got[d] {
			c.Fail("the list of definitions doesn't contain %s", name)
		}
	}
	c.CountN("definitions listed", len(got))
}

// structural returns a function that generates programs with a given focus, and checks their structure
func structural(focus string, nontrivial func(p *Prog) bool) func(c *Case) {
	return func(c *Case) {
		f := focus
		if c.R.P(7) {
			f = c.R.Pick(allFocuses)
		}
		cfg := randomCfg(c.R, f)
		epp := focus == "epp" || focus != "steps" && c.R.P(2)
		p := genProg(c, cfg, epp)
		if p == nil {
			return
		}
		c.checkStructure(p)
		c.observe(p)
		key := p.Src
		if nontrivial != nil && !nontrivial(p) {
			key = ""
		}
		c.Seen(key)
	}
}

func hasKind(kinds ...string) func(p *Prog) bool {
	return func(p *Prog) bool {
		found := false
		p.T.Walk(func(t *T) {
			for _, k := range kinds {
				if t.K == k {
					found = true
				}
			}
		})
		return found
	}
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

func lines(s string) int { return strings.Count(s, "\n") + 1 }
