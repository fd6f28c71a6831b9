package main

import (
	"fmt"
	"github.com/lyraproj/issue/issue"
	"github.com/lyraproj/puppet-parser/validator"
	"os"
	"strings"

	"github.com/lyraproj/puppet-parser/parser"
)

// The reference parser gives an answer for every text. Here, the real parser is compared with it for texts that aren't programs, or
// that are other programs than the ones that were generated

// refSource is a text, and the options that it's parsed with
type refSource struct {
	src    string
	cfg    Cfg
	epp    bool
	single bool
	kind   string
}

// nearProgram makes a text that is, more or less, like a program
func nearProgram(r *Rng, focus string) *refSource {
	cfg := randomCfg(r, focus)
	if r.P(60) {
		cfg.Budget = 3 + r.N(25)
	}
	in := &refSource{cfg: cfg, epp: focus == "epp" || r.P(5)}
	in.single = !in.epp && r.P(8)
	if r.P(4) {
		in.kind = "token soup"
		in.src = tokenSoup(r, dictionary)
		return in
	}
	if !in.epp && (r.P(4) || focus == "heredoc" && r.P(25)) {
		in.kind = "heredocs on shared lines"
		in.src = heredocSoup(r)
		if r.P(10) {
			in.src = mutate(r, in.src, in.src, dictionary)
		}
		return in
	}
	p := newProg(r, cfg, in.epp)
	if p == nil {
		p = &Prog{Src: "$x = 1"}
	}
	in.src = p.Src
	k := r.N(100)
	if p.G == nil {
		k = 99
	}
	switch {
	case k < 6:
		in.kind = "generated"
	case k < 60:
		in.kind = "changed tokens"
		g := p.G
		save := g.toks
		g.toks = changeToks(r, g.toks)
		if s, ok := g.render(r, randomStyle(r), in.epp); ok {
			in.src = s
		}
		g.toks = save
	case k < 63:
		in.kind = "other options"
		in.cfg = randomCfg(r, r.Pick(allFocuses))
	default:
		in.kind = "mutated"
		other := in.src
		if r.P(10) {
			if p2 := newProg(r, cfg, in.epp); p2 != nil {
				other = p2.Src
			}
		}
		in.src = mutate(r, in.src, other, dictionary)
	}
	return in
}

// diffOff compares where nodes start
func diffOff(exp, act *T, path string) string {
	path = below(path, exp.K)
	if !exp.NoLoc && exp.Off != act.Off {
		return fmt.Sprintf("%s: expected offset %d, got %d", path, exp.Off, act.Off)
	}
	for i, f := range exp.F {
		for j, c := range f.L {
			a := act.F[i].L[j]
			if d := aside(c, a, act); d != "" {
				return fmt.Sprintf("%s.%s[%d]: %s", path, f.N, j, d)
			}
			if d := diffOff(c, a, fmt.Sprintf("%s.%s[%d]", path, f.N, j)); d != "" {
				return d
			}
		}
	}
	return ""
}

// refMode selects what a property claims about a text
type refMode struct {
	over  bool // that it's rejected if it isn't a program
	under bool // that it's accepted, with the right AST, if it is
	loc   bool // that nodes start where they should
}

// checkRef compares the real parser with the reference for a source. It returns the expected AST, or nil if it's not a program or unspecified
func (c *Case) checkRef(in *refSource, m refMode) (want *T, specified bool) {
	c.Src = in.src
	c.Info = []string{in.kind, in.cfg.String(), fmt.Sprintf("epp=%v single=%v", in.epp, in.single)}
	want, reject, skip := refParse(in.src, in.cfg, in.epp, in.single)
	if skip != "" {
		c.Count("unspecified: " + skip)
		return nil, false
	}
	e, err := parser.CreateParser(in.cfg.options(in.epp)...).Parse("f.pp", in.src, in.single)
	problem := ""
	switch {
	case reject != "" && err == nil:
		if m.over {
			problem = fmt.Sprintf("a text that isn't a program is accepted (%s), as %s", reject, e.ToPN())
		}
	case reject == "" && err != nil:
		if m.under {
			problem = fmt.Sprintf("valid source is rejected: %s", err)
		}
		want = nil
	case reject == "":
		a := Dump(e)
		if d := Diff(want, a); d != "" {
			if m.under {
				problem = "wrong AST. " + d
			}
			want = nil
		} else if m.loc {
			if d := diffOff(want, a, ""); d != "" {
				problem = "wrong location. " + d
			}
			n := 0
			a.Walk(func(t *T) {
				c.checkLocation(in.src, t)
				n++
			})
			c.CountN("locations checked", n)
		}
		if m.under && problem == "" && !in.single {
			c.checkDefinitions(a)
		}
	}
	if problem != "" {
		if os.Getenv("REF_LIST") != "" {
			f, _ := os.OpenFile(os.Getenv("REF_LIST"), os.O_CREATE|os.O_APPEND|os.O_WRONLY, 0644)
			fmt.Fprintf(f, "----- %s\n%s\n%q\n", problem, strings.Join(c.Info, " | "), in.src)
			f.Close()
			return nil, false
		}
		c.Fail("%s", problem)
	}
	if reject != "" {
		c.Count("rejected " + in.kind)
	} else {
		c.Count("accepted " + in.kind)
	}
	return want, true
}

// nearCase checks texts that are nearly programs until the reference accepts one
func nearCase(c *Case, focus string, m refMode, nontrivial func(p *Prog) bool) {
	if focus == "any" {
		focus = c.R.Pick(allFocuses)
		if c.R.P(15) {
			focus = "epp"
		}
	}
	long := c.R.P(4)
	if !long && c.R.P(40) {
		neighbours(c, focus, m, nontrivial)
		return
	}
	for try := 0; try < 3; try++ {
		var in *refSource
		if long {
			if in = pumpedProgram(c.R, focus); in == nil {
				continue
			}
		} else {
			in = nearProgram(c.R, focus)
		}
		if !m.over {
			if _, reject, _ := refParse(in.src, in.cfg, in.epp, in.single); reject != "" {
				continue
			}
		}
		t, ok := c.checkRef(in, m)
		if !ok || t == nil && !m.over {
			continue
		}
		key := in.src
		if t != nil && nontrivial != nil && !nontrivial(&Prog{T: t}) {
			key = ""
		}
		c.Seen(key)
		return
	}
}

// neighbours checks many of the texts that differ in one token from a small program
func neighbours(c *Case, focus string, m refMode, nontrivial func(p *Prog) bool) {
	r := c.R
	cfg := randomCfg(r, focus)
	cfg.Budget = 1 + r.N(14)
	epp := focus == "epp" || r.P(3)
	p := newProg(r, cfg, epp)
	if p == nil || p.G == nil || len(p.G.toks) == 0 {
		return
	}
	g := p.G
	single := !epp && r.P(8)
	style := Style{Space: 60}
	if r.P(30) {
		style = randomStyle(r)
	}
	save := g.toks
	defer func() { g.toks = save }()
	n := 4 + len(save)
	if n > 24 {
		n = 24
	}
	if !m.over {
		n *= 2
	}
	for i := 0; i < n; i++ {
		g.toks = confuse(r, save)
		src, ok := g.render(r, style, epp)
		if !ok {
			continue
		}
		in := &refSource{src: src, cfg: cfg, epp: epp, single: single, kind: "confused tokens"}
		if !m.over {
			if _, reject, _ := refParse(in.src, in.cfg, in.epp, in.single); reject != "" {
				continue
			}
		}
		t, ok := c.checkRef(in, m)
		if !ok || t == nil && !m.over {
			continue
		}
		key := in.src
		if t != nil && nontrivial != nil && !nontrivial(&Prog{T: t}) {
			key = ""
		}
		c.Seen(key)
	}
}

// changedProg makes a changed program that the reference parser accepts, with the AST that it gives. Returns nil if it fails to
func changedProg(c *Case, focus string) *Prog {
	long := c.R.P(6)
	for try := 0; try < 6; try++ {
		var in *refSource
		if long {
			in = pumpedProgram(c.R, focus)
		} else {
			in = nearProgram(c.R, focus)
		}
		if in == nil {
			continue
		}
		in.single = false
		t, reject, skip := refParse(in.src, in.cfg, in.epp, false)
		if reject != "" || skip != "" {
			continue
		}
		if long {
			// What the checks do themselves can take quadratic time
			max := 1500
			if c.P.ID == "C19" {
				max = 200
			}
			if t.depth() > max {
				continue
			}
			c.Count("long program")
		}
		c.Src = in.src
		c.Info = []string{in.kind, in.cfg.String(), fmt.Sprintf("epp=%v", in.epp)}
		c.Count("changed program")
		return &Prog{Src: in.src, T: t, Cfg: in.cfg, Opts: in.cfg.options(in.epp), Epp: in.epp}
	}
	return nil
}

// wideProg is a generated, or a changed, program
func wideProg(c *Case, pEpp, pChanged int) *Prog {
	if c.R.P(pChanged) {
		f := c.R.Pick(allFocuses)
		if c.R.P(pEpp) {
			f = "epp"
		}
		return changedProg(c, f)
	}
	return anyProg(c, pEpp)
}

// repeated checks that programs can be long: what is accepted, with the same number of statements for each repetition, when it's repeated
// a few times must be when it's repeated thousands of times. The last repetition must be like the others in all respects (c.P tells which are
// checked)
func repeated(c *Case) {
	r := c.R
	focus := r.Pick(allFocuses)
	if r.P(15) {
		focus = "epp"
	}
	validation := c.P.ID == "C24"
	var src string
	var opts []parser.Option
	for try := 0; try < 20 && src == ""; try++ {
		if validation {
			g := &vgen{r: r, b: &strings.Builder{}, budget: 2 + r.N(12)}
			src = g.stmt(2)
		} else {
			cfg := randomCfg(r, focus)
			cfg.Budget = 1 + r.N(10)
			if p := newProg(r, cfg, focus == "epp"); p != nil {
				src, opts = p.Src, p.Opts
			}
		}
		if len(src) > 160 {
			src = ""
		}
	}
	if src == "" {
		c.Count("no program to repeat")
		return
	}
	src += "\n"
	if r.P(10) {
		src += strings.Repeat("\n", r.N(12))
	}
	type result struct {
		text        string
		statements  []parser.Expression
		definitions []parser.Definition
		issues      []issue.Reported
	}
	parse := func(n int) (result, error) {
		x := result{text: strings.Repeat(src, n)}
		e, err := parser.CreateParser(opts...).Parse("f.pp", x.text, false)
		if err != nil {
			return x, err
		}
		pr := e.(*parser.Program)
		body := pr.Body()
		if l, ok := body.(*parser.LambdaExpression); ok {
			body = l.Body()
		}
		if ep, ok := body.(*parser.EppExpression); ok {
			body = ep.Body()
		}
		switch b := body.(type) {
		case *parser.BlockExpression:
			x.statements = b.Statements()
		case *parser.Nop:
		default:
			x.statements = []parser.Expression{b}
		}
		x.definitions = pr.Definitions()
		if validation {
			x.issues = validator.ValidatePuppet(e, validator.StrictError).Issues()
		}
		return x, nil
	}
	count := func(x result) [3]int { return [3]int{len(x.statements), len(x.definitions), len(x.issues)} }
	var first, prev, per [3]int
	var x5 result
	for n := 1; n < 6; n++ {
		x, err := parse(n)
		if err != nil {
			c.Count("not repeatable")
			return
		}
		k := count(x)
		switch n {
		case 1:
			first = k
		case 2:
			per = [3]int{k[0] - first[0], k[1] - first[1], k[2] - first[2]}
		default:
			if k != [3]int{prev[0] + per[0], prev[1] + per[1], prev[2] + per[2]} {
				c.Count("not repeatable")
				return
			}
		}
		prev, x5 = k, x
	}
	if per[0] == 0 {
		// Each repetition is nested in the one before it
		c.Count("not repeatable")
		return
	}
	n := 10200 + r.N(200)
	c.Src = src
	c.Info = []string{"repeated", fmt.Sprint(n), focus, fmt.Sprint("options: ", len(opts))}
	x, err := parse(n)
	if err != nil {
		c.Fail("a program is accepted when it's repeated 1 to 5 times, but not when it's repeated %d times: %s", n, err)
	}
	if k, want := count(x), [3]int{first[0] + (n-1)*per[0], first[1] + (n-1)*per[1], first[2] + (n-1)*per[2]}; k != want {
		c.Fail("a program that is repeated %d times has %d statements, definitions and issues, but each repetition of the first 5 gives %d", n, k, per)
	}

	// The last repetition is like the fifth
	bytes, lines := (n-5)*len(src), (n-5)*strings.Count(src, "\n")
	like := func(what string, e, f parser.Expression) {
		switch {
		case e.ToPN().String() != f.ToPN().String():
			c.Fail("%s %s of the last of %d repetitions isn't like that of the fifth, %s", what, clip(f.ToPN().String(), 500), n, clip(e.ToPN().String(), 500))
		case c.P.ID != "C17":
		case f.ByteOffset() != e.ByteOffset()+bytes || f.ByteLength() != e.ByteLength() && f.ByteOffset()+f.ByteLength() != len(x.text):
			c.Fail("%s %s, at %d, length %d: expected %d, length %d", what, f.Label(), f.ByteOffset(), f.ByteLength(), e.ByteOffset()+bytes, e.ByteLength())
		case f.Line() != e.Line()+lines || f.Pos() != e.Pos():
			c.Fail("%s %s, at %d: expected line %d, column %d, got %d, %d", what, f.Label(), f.ByteOffset(), e.Line()+lines, e.Pos(), f.Line(), f.Pos())
		}
	}
	for i := 1; i <= per[0]; i++ {
		like("statement", x5.statements[len(x5.statements)-i], x.statements[len(x.statements)-i])
	}
	for i := 1; i <= per[1]; i++ {
		like("definition", x5.definitions[len(x5.definitions)-i].(parser.Expression), x.definitions[len(x.definitions)-i].(parser.Expression))
	}
	last := func(x result, n int) (is []issue.Reported) {
		for _, i := range x.issues {
			if i.Location().Line() > (n-1)*strings.Count(src, "\n") {
				is = append(is, i)
			}
		}
		return
	}
	a5, an := last(x5, 5), last(x, n)
	if len(a5) != len(an) {
		c.Fail("the last of %d repetitions has %d issues, the fifth has %d", n, len(an), len(a5))
	}
	for i, a := range a5 {
		if b := an[i]; a.Code() != b.Code() || b.Location().Line() != a.Location().Line()+lines || b.Location().Pos() != a.Location().Pos() {
			c.Fail("the issue %s of the last of %d repetitions isn't like that of the fifth, %s", b, n, a)
		}
	}
	c.Count("repeated program")
	c.CountN("repeated statements", per[0]*n)
	c.CountN("repeated issues", per[2]*n)
	c.Max("repetitions", n)
	c.Max("bytes", len(x.text))
	c.Seen(src)
}

func init() {
	register(&Prop{ID: "C29", Quick: 300000, Thorough: 12000000, Run: func(c *Case) {
		nearCase(c, "any", refMode{over: true, under: true}, nil)
	},
		Rule: "60% of the cases: a generated program with changed tokens (54%) or bytes (33%), parsed with other options (3%), or unchanged (6%), or a token soup (4%). The other 40%: many of the neighbours of a small generated program that differ in one token (removed, repeated, swapped, inserted, or replaced by one that it can be taken for). Some are parsed as a single expression. " +
			"An independent parser (harness/refparse.go) decides if the text is a program and which AST it has. The real parser must accept exactly those, with an equal AST (all values, without locations) and the definitions that it contains. " +
			"Non-trivial: every distinct text",
		Assumptions: []string{"the reference parser (harness/refparse.go) is the specification of the language. It was written separately from the generator of programs, and the two agree on all programs that are generated",
			"texts that are nested deeper than 4000 levels are unspecified"},
	})
}
