package main

import (
	"fmt"
	"regexp"
	"strings"
	"unicode/utf8"

	"github.com/lyraproj/issue/issue"
	"github.com/lyraproj/puppet-parser/literal"
	"github.com/lyraproj/puppet-parser/parser"
	"github.com/lyraproj/puppet-parser/validator"
)

// anyProg generates a program with random focus
func anyProg(c *Case, pEpp int) *Prog {
	f := c.R.Pick(allFocuses)
	return genProg(c, randomCfg(c.R, f), c.R.P(pEpp))
}

// --- C15. White space ---

// noise is a style that uses every kind of space except line breaks
var noise = Style{Space: 100, Cmt: 40, Multi: 50, OneLine: true}

func runC15(c *Case) {
	p := anyProg(c, 10)
	if p == nil {
		return
	}
	r := c.R
	opts := p.Opts
	if r.P(35) {
		// Source that isn't (necessarily) valid. The same issue is reported
		if p.Epp {
			return
		}
		toks := mutateToks(r, p.G.toks)
		if len(toks) == 0 {
			return
		}
		for _, t := range toks {
			if t.StrOpen || t.RawText || t.Hd != nil || t.S[0] == '/' {
				return // white space can become significant when a string or regexp isn't closed
			}
		}
		st := Style{Space: 100, OneLine: true}
		save := p.G.toks
		p.G.toks = toks
		s1, ok1 := p.G.render(r, st, false)
		st = noise
		s2, ok2 := p.G.render(r, st, false)
		p.G.toks = save
		if !ok1 || !ok2 {
			return
		}
		c.Src = s2
		e1, err1 := parser.CreateParser(opts...).Parse("f.pp", s1, false)
		e2, err2 := parser.CreateParser(opts...).Parse("f.pp", s2, false)
		k1, k2 := codeOf(err1), codeOf(err2)
		if k1 != k2 {
			c.Fail("different result depending on white space: '%v' and '%v'. The other source is\n%s", err1, err2, s1)
		}
		if err1 == nil {
			if d := Diff(Dump(e1), Dump(e2)); d != "" {
				c.Fail("different AST depending on white space: %s. The other source is\n%s", d, s1)
			}
			c.Count("changed source accepted")
		} else {
			c.Count("changed source rejected")
		}
		c.Seen(s2)
		return
	}
	a := c.mustParse(p)
	n := 0
	for k := 0; k < 3; k++ {
		s2, ok := p.G.render(r, randomStyle(r), p.Epp)
		if !ok || s2 == p.Src {
			continue
		}
		c.Src = s2
		e, err := parser.CreateParser(opts...).Parse("f.pp", s2, false)
		if err != nil {
			c.Fail("rejected: %s\nwith this space it is accepted:\n%s", err, p.Src)
		}
		if d := Diff(a, Dump(e)); d != "" {
			c.Fail("different AST: %s\nfrom that of:\n%s", d, p.Src)
		}
		n++
		c.Seen(s2)
	}
	c.CountN("layouts compared", n)
	c.observe(p)
}

func codeOf(err error) string {
	if err == nil {
		return ""
	}
	if r, ok := err.(issue.Reported); ok {
		return string(r.Code())
	}
	return err.Error()
}

// --- C16. Options ---

// sameOptions parses a source with parsers whose options are given in different ways
func (c *Case) sameOptions() {
	r := c.R
	in := hostile(c, 35)
	in.opts = nil
	if r.P(50) {
		in.opts = append(in.opts, parser.HandleBacktickStrings)
	}
	if r.P(50) {
		in.opts = append(in.opts, parser.HandleHexEscapes)
	}
	pspec := len(in.opts) == 2
	for _, o := range []parser.Option{parser.TasksEnabled, parser.WorkflowEnabled} {
		if r.P(30) {
			pspec = false
			in.opts = append(in.opts, o)
		}
	}
	if in.epp {
		pspec = false
		in.opts = append(in.opts, parser.EppMode)
	}
	c.use(in)
	a := c.dumpParse(parser.CreateParser(in.opts...).Parse("f.pp", in.src, in.single))
	other := append([]parser.Option{}, in.opts...)
	for i := range other {
		j := r.N(i + 1)
		other[i], other[j] = other[j], other[i]
	}
	for n := r.N(3); n > 0 && len(other) > 0; n-- {
		other = append(other, r.pickOption(other))
	}
	if d := diffOutcome(a, c.dumpParse(parser.CreateParser(other...).Parse("f.pp", in.src, in.single)), true); d != "" {
		c.Fail("with the same options, in other order or repeated (%v and %v): %s", in.opts, other, d)
	}
	c.Count("same options in other order or repeated")
	if pspec {
		if d := diffOutcome(a, c.dumpParse(parser.CreatePspecParser().Parse("f.pp", in.src, in.single)), true); d != "" {
			c.Fail("the parser for specs differs from one with backtick strings and hex escapes: %s", d)
		}
		c.Count("parser for specs")
	}
	c.Seen(in.src)
}

func (r *Rng) pickOption(o []parser.Option) parser.Option { return o[r.N(len(o))] }

func runC16(c *Case) {
	r := c.R
	if r.P(6) {
		c.sameOptions()
		return
	}
	if r.P(25) {
		c.featureWords()
		return
	}
	switch r.N(10) {
	case 0, 1, 2:
		// A single expression is the same as the only statement of a program
		f := r.Pick(allFocuses)
		cfg := randomCfg(r, f)
		cfg.NoDefs = r.P(50)
		g := NewGen(r, cfg)
		g.expr(lvRel, true)
		src, ok := g.render(r, randomStyle(r), false)
		if !ok {
			return
		}
		c.Src = src
		c.Info = []string{cfg.String()}
		opts := cfg.options(false)
		e1, err := parser.CreateParser(opts...).Parse("f.pp", src, true)
		if err != nil {
			c.Fail("valid expression is rejected: %s", err)
		}
		a1 := Dump(e1)
		e2, err := parser.CreateParser(opts...).Parse("f.pp", src, false)
		if err != nil {
			c.Fail("valid expression is rejected as a program: %s", err)
		}
		ss := Dump(e2).One("body").Many("statements")
		if len(ss) != 1 {
			c.Fail("a single expression is parsed into %d statements", len(ss))
		}
		// Calls are statements rather than values
		if ss[0].K == "CallNamed" && a1.K == "CallNamed" {
			ss[0].Set("rval", a1.Bool("rval"))
		}
		if d := Diff(ss[0], a1); d != "" {
			c.Fail("the AST of the single expression differs from that of the statement: %s", d)
		}
		if d := sameLocations(ss[0], a1, ""); d != "" {
			c.Fail("the single expression and the statement have different locations: %s", d)
		}
		// Text after the expression is not permitted
		if r.P(20) && !strings.Contains(src, "#") {
			src2 := src + " " + r.Pick([]string{")", "}", "]", "$zz", "; 1", "'s'", ",", "=>", "|"})
			c.Src = src2
			if _, err := parser.CreateParser(opts...).Parse("f.pp", src2, true); err == nil {
				c.Fail("text after the single expression is ignored")
			}
		}
		c.Count("single expression")
		c.Seen(src)
	case 3, 4:
		// The words of features that aren't enabled are ordinary names
		f := r.Pick(allFocuses)
		cfg := randomCfg(r, f)
		cfg.Tasks, cfg.Workflow = false, false
		p := newProg(r, cfg, r.P(5))
		if p == nil {
			return
		}
		names := map[string]bool{}
		for _, t := range p.G.toks {
			if t.RawText || !identRx.MatchString(t.S) {
				continue
			}
			for _, n := range lowerNames {
				if t.S == n {
					names[n] = true
				}
			}
		}
		var cand []string
		for _, n := range lowerNames {
			if names[n] {
				cand = append(cand, n)
			}
		}
		if len(cand) == 0 {
			return
		}
		from := r.Pick(cand)
		words := []string{"plan", "workflow", "action", "resource", "stateHandler"}
		to := r.Pick(words)
		if !p.Epp && strings.Contains(p.Src, to) {
			return
		}
		switch r.N(3) {
		case 0:
			if to != "plan" {
				p.Opts = append(p.Opts, parser.TasksEnabled)
			}
		case 1:
			if to == "plan" {
				p.Opts = append(p.Opts, parser.WorkflowEnabled)
			}
		}
		// The other words must not occur if they're enabled
		var changed []*Tok
		for _, t := range p.G.toks {
			if !t.RawText && t.S == from {
				t.S = to
				changed = append(changed, t)
			}
		}
		src, ok := p.G.render(r, randomStyle(r), p.Epp)
		for _, t := range changed {
			t.S = from
		}
		if !ok {
			return
		}
		c.Src = src
		c.Info = []string{cfg.String()}
		e, err := parser.CreateParser(p.Opts...).Parse("f.pp", src, false)
		if err != nil {
			c.Fail("the word '%s' isn't accepted as a name, although its feature isn't enabled: %s", to, err)
		}
		a := Dump(e)
		rename := func(s string) string {
			parts := strings.Split(s, "::")
			for i := range parts {
				if parts[i] == from {
					parts[i] = to
				}
			}
			return strings.Join(parts, "::")
		}
		// All strings that equal the name come from it, except the text of strings and the names of variables
		norm := func(t *T) {
			t.Walk(func(x *T) {
				for i, at := range x.A {
					if s, ok := at.V.(string); ok {
						x.A[i].V = rename(s)
					}
				}
			})
		}
		exp := p.T
		norm(exp)
		norm(a)
		if d := Diff(exp, a); d != "" {
			c.Fail("'%s' doesn't have the same meaning as another name, although its feature isn't enabled: %s", to, d)
		}
		c.Count("word of disabled feature used as name: " + to)
		c.Seen(src)
	default:
		// Options don't affect source that doesn't use their features
		f := r.Pick(allFocuses)
		cfg := randomCfg(r, f)
		cfg.Tasks, cfg.Workflow, cfg.Hex, cfg.Backtick = false, false, false, false
		if f == "steps" {
			cfg.Focus = ""
		}
		p := genProg(c, cfg, r.P(8))
		if p == nil {
			return
		}
		src := p.Src
		if r.P(55) {
			if r.P(30) {
				src = tokenSoup(r, plainDictionary)
			} else {
				src = mutate(r, src, src, plainDictionary)
			}
		}
		c.Src = src
		if !plain(src) {
			c.Count("skipped, uses a feature")
			return
		}
		single := r.P(10)
		o1 := c.dumpParse(parser.CreateParser(p.Opts...).Parse("f.pp", src, single))
		for k := 0; k < 2; k++ {
			cfg2 := Cfg{Tasks: r.P(50), Workflow: r.P(50), Hex: r.P(50), Backtick: r.P(50)}
			c.Info = []string{cfg2.String(), fmt.Sprintf("epp=%v single=%v", p.Epp, single)}
			o2 := c.dumpParse(parser.CreateParser(cfg2.options(p.Epp)...).Parse("f.pp", src, single))
			if d := diffOutcome(o1, o2, true); d != "" {
				c.Fail("without the options: %s", d)
			}
		}
		if o1.err != "" {
			c.Count("rejected with and without options")
		} else {
			c.Count("accepted with and without options")
		}
		c.Seen(src)
	}
}

var wordsOfFeatures = []string{"plan", "plan", "workflow", "action", "resource", "stateHandler", "times", "range", "each", "parameters", "returns"}

// featureWords replaces names by words of features, and compares what's made of them under several sets of options with what the
// reference makes of them
func (c *Case) featureWords() {
	r := c.R
	cfg := randomCfg(r, r.Pick(allFocuses))
	cfg.Budget = 3 + r.N(25)
	p := newProg(r, cfg, r.P(4))
	if p == nil || p.G == nil {
		return
	}
	g := p.G
	save := g.toks
	defer func() { g.toks = save }()
	var cand []int
	for i, t := range save {
		if !t.RawText && identRx.MatchString(t.S) {
			cand = append(cand, i)
		}
	}
	if len(cand) == 0 {
		return
	}
	for k := 0; k < 4; k++ {
		g.toks = append([]*Tok{}, save...)
		for n := 1 + r.N(3)*r.N(2); n > 0; n-- {
			i := cand[r.N(len(cand))]
			t := *save[i]
			t.S = r.Pick(wordsOfFeatures)
			g.toks[i] = &t
		}
		src, ok := g.render(r, randomStyle(r), p.Epp)
		if !ok {
			continue
		}
		cfgs := []Cfg{{}, {Tasks: true}, {Workflow: true}, {Tasks: true, Workflow: true}}
		for _, cf := range cfgs {
			cf.Hex, cf.Backtick = cfg.Hex, cfg.Backtick
			in := &refSource{src: src, cfg: cf, epp: p.Epp, kind: "words of features"}
			if t, ok := c.checkRef(in, refMode{over: true, under: true}); ok && t != nil {
				c.Seen(fmt.Sprint(cf.Tasks, cf.Workflow, src))
			}
		}
	}
}

var identRx = regexp.MustCompile(`\A[a-z][a-zA-Z0-9_]*\z`)

// --- C17. Locations ---

// lineIndex is an independent calculation of line and column
func linePos(src string, off int) (int, int) {
	line := 1 + strings.Count(src[:off], "\n")
	bol := strings.LastIndexByte(src[:off], '\n') + 1
	return line, 1 + utf8.RuneCountInString(src[bol:off])
}

func runC17(c *Case) {
	p := wideProg(c, 15, 30)
	if p == nil {
		return
	}
	if !p.Epp && c.Idx%300 == 7 {
		c.farAway(p)
	}
	a := c.mustParse(p)
	if d := Diff(p.T, a); d != "" {
		c.Fail("wrong AST. %s", d)
	}
	if d := DiffLoc(p.T, a, "", len(p.Src)); d != "" {
		c.Fail("%s", d)
	}
	n := 0
	a.Walk(func(t *T) {
		c.checkLocation(p.Src, t)
		n++
	})
	for _, d := range a.E.(*parser.Program).Definitions() {
		c.checkLocation(p.Src, Dump(d))
	}
	c.CountN("locations checked", n)
	c.observe(p)
	key := ""
	if n > 3 {
		key = p.Src
	}
	c.Seen(key)
}

// farAway puts long white space before a program
func (c *Case) farAway(p *Prog) {
	r := c.R
	piece := r.Pick([]string{" ", "\t", "/*å*/", "/**/", "\n", "\r\n", " \n", "/* */\n", "# 🎉\n"})
	pad := strings.Repeat(piece, pumpSize(r, 200000))
	if r.P(30) {
		piece := r.Pick([]string{"日", "a", "\n", "*", " x\n"})
		pad = "/*" + strings.Repeat(piece, pumpSize(r, 200000)) + "*/" + r.Pick([]string{"", "\n", " "})
	}
	q := *p
	q.Src = pad + p.Src
	q.T = p.T.shifted(len(pad))
	*p = q
	c.Src = p.Src
	c.Count("far away")
}

// shifted returns a copy that is located further away
func (t *T) shifted(by int) *T {
	x := *t
	x.Off += by
	x.End += by
	x.F = append([]Field(nil), t.F...)
	for i, f := range x.F {
		l := make([]*T, len(f.L))
		for k, e := range f.L {
			l[k] = e.shifted(by)
		}
		x.F[i].L = l
	}
	return &x
}

func (c *Case) checkLocation(src string, t *T) {
	e := t.E
	if t.Off < 0 || t.End < t.Off || t.End > len(src) {
		c.Fail("%s: location %d..%d is not in the source", t.K, t.Off, t.End)
	}
	if e.File() != "f.pp" {
		c.Fail("%s: wrong file '%s'", t.K, e.File())
	}
	if l, p := linePos(src, t.Off); l != e.Line() || p != e.Pos() {
		c.Fail("%s at offset %d: expected line %d, column %d, got %d, %d", t.K, t.Off, l, p, e.Line(), e.Pos())
	}
	if s := e.String(); s != src[t.Off:t.End] {
		c.Fail("%s at %d..%d: the source text is %q, but it's %q in the source", t.K, t.Off, t.End, s, src[t.Off:t.End])
	}
}

// --- C19. Visitors ---

// elsewhere tells if a child isn't visited where it's written: the return type of a lambda follows the body, the parent of a node definition is
// the first child, and a template starts where its source does
func elsewhere(t *T, e parser.Expression) bool {
	switch t.K {
	case "Lambda":
		if t.One("body").K == "Epp" {
			return true
		}
		return t.One("returns") != nil && t.One("returns").E == e
	case "Node":
		return t.One("parent") != nil && t.One("parent").E == e
	}
	return false
}

// checkEnds checks the order of visits of those that aren't visited where they're written
func (c *Case) checkEnds(f string, t *T, first, last parser.Expression) {
	switch t.K {
	case "Lambda":
		if r := t.One("returns"); r != nil && last != r.E {
			c.Fail("%s doesn't visit the return type of a lambda last", f)
		}
	case "Node":
		if p := t.One("parent"); p != nil && first != p.E {
			c.Fail("%s doesn't visit the parent of a node definition first", f)
		}
	}
}

func runC19(c *Case) {
	p := wideProg(c, 10, 30)
	if p == nil {
		return
	}
	a := c.mustParse(p)
	parent := map[parser.Expression]*T{}
	total := 0
	depth := map[parser.Expression]int{}
	var index func(t *T, d int)
	index = func(t *T, d int) {
		depth[t.E] = d
		total++
		for _, x := range t.Children() {
			if x.E == nil {
				c.Fail("%s has a nil child", t.K)
			}
			if _, dup := parent[x.E]; dup {
				c.Fail("%s is a child of more than one node", x.K)
			}
			parent[x.E] = t
			index(x, d+1)
		}
	}
	index(a, 0)

	checkPath := func(root *T, base, path []parser.Expression, e parser.Expression) {
		// base, root, ..., parent of e
		if len(path) < len(base)+1 {
			c.Fail("the path of %s is too short", e.Label())
		}
		for i, b := range base {
			if path[i] != b {
				c.Fail("the path of %s doesn't start with the given path", e.Label())
			}
		}
		x := e
		for i := len(path) - 1; i >= len(base); i-- {
			pt := parent[x]
			if pt == nil {
				c.Fail("%s isn't in the AST", x.Label())
			}
			if path[i] != pt.E {
				c.Fail("element %d of the path of %s is %s, expected %s", i, e.Label(), path[i].Label(), pt.E.Label())
			}
			x = pt.E
		}
		if x != root.E {
			c.Fail("the path of %s doesn't start at the root of the iteration", e.Label())
		}
	}
	base := []parser.Expression{}
	switch c.R.N(3) {
	case 0:
		base = nil
	case 1:
		base = make([]parser.Expression, 0, c.R.N(20))
	}
	if c.R.P(20) {
		base = append(base, &parser.Nop{})
	}
	deep := func(root *T) {
		seen := map[parser.Expression]bool{root.E: true}
		last := map[parser.Expression]parser.Expression{} // the last visited child of a node
		first := map[parser.Expression]parser.Expression{}
		root.E.AllContents(base, func(path []parser.Expression, e parser.Expression) {
			if seen[e] {
				c.Fail("AllContents visits %s more than once", e.Label())
			}
			seen[e] = true
			checkPath(root, base, path, e)
			up := path[len(path)-1]
			if a := last[up]; a != nil && e.ByteOffset() < a.ByteOffset() && !elsewhere(parent[e], a) && !elsewhere(parent[e], e) {
				c.Fail("AllContents visits %s, at %d, after its sibling %s, at %d", e.Label(), e.ByteOffset(), a.Label(), a.ByteOffset())
			}
			last[up] = e
			if first[up] == nil {
				first[up] = e
			}
			for k, anc := range path[len(base)+1:] {
				if last[path[len(base)+k]] != anc {
					c.Fail("AllContents visits %s, in %s, when it has left that", e.Label(), anc.Label())
				}
			}
			for _, anc := range path[len(base):] {
				if !seen[anc] {
					c.Fail("AllContents visits %s before its ancestor %s", e.Label(), anc.Label())
				}
			}
		})
		n := 0
		root.Walk(func(x *T) {
			n++
			if !seen[x.E] {
				c.Fail("AllContents of %s doesn't visit %s, which is a child of %s", root.K, x.K, parent[x.E].K)
			}
			c.checkEnds("AllContents", x, first[x.E], last[x.E])
		})
		if n != len(seen) {
			c.Fail("AllContents of %s visits %d nodes, expected %d", root.K, len(seen), n)
		}
		c.CountN("nodes visited", n)
	}
	shallow := func(t *T) {
		seen := map[parser.Expression]bool{}
		var order []parser.Expression
		t.E.Contents(base, func(path []parser.Expression, e parser.Expression) {
			if seen[e] {
				c.Fail("Contents of %s visits %s more than once", t.K, e.Label())
			}
			seen[e] = true
			if len(path) != len(base)+1 {
				c.Fail("Contents of %s gives a path of length %d, expected %d", t.K, len(path), len(base)+1)
			}
			checkPath(t, base, path, e)
			order = append(order, e)
		})
		cs := t.Children()
		for _, x := range cs {
			if !seen[x.E] {
				c.Fail("Contents of %s doesn't visit its child %s", t.K, x.K)
			}
		}
		if len(cs) != len(seen) {
			c.Fail("Contents of %s visits %d nodes, expected %d", t.K, len(seen), len(cs))
		}
		for i := 1; i < len(order); i++ {
			if a, b := order[i-1], order[i]; b.ByteOffset() < a.ByteOffset() && !elsewhere(t, a) && !elsewhere(t, b) {
				c.Fail("Contents of %s visits %s, at %d, after %s, at %d", t.K, b.Label(), b.ByteOffset(), a.Label(), a.ByteOffset())
			}
		}
		if len(order) > 0 {
			c.checkEnds("Contents", t, order[0], order[len(order)-1])
		}
		c.Count("contents of " + t.K)
	}
	deep(a)
	k := 0
	a.Walk(func(t *T) {
		shallow(t)
		if k++; c.R.P(10) && k < 200 {
			deep(t)
		}
	})
	key := ""
	if total > 3 {
		key = p.Src
	}
	c.Seen(key)
}

// --- C20. Reuse ---

func runC20(c *Case) {
	r := c.R
	cfg := randomCfg(r, r.Pick(allFocuses))
	epp := r.P(25)
	opts := cfg.options(epp)
	shared := parser.CreateParser(opts...)
	n := 2 + r.N(6)
	type result struct {
		src    string
		single bool
		o      parseOutcome
		pn     string
	}
	var rs []result
	c.Info = []string{cfg.String(), fmt.Sprintf("epp=%v", epp)}
	prev := "class a { $x = 1 }"
	for i := 0; i < n; i++ {
		var src string
		single := false
		if len(rs) > 0 && r.P(15) {
			src = rs[r.N(len(rs))].src
		} else {
			cf := cfg
			cf.Focus = r.Pick(allFocuses)
			cf.Budget = 3 + r.N(30)
			p := newProg(r, cf, epp)
			if p == nil {
				continue
			}
			src = p.Src
			switch r.N(10) {
			case 0, 1, 2, 3:
				src = mutate(r, src, prev, dictionary)
			case 4:
				src = src[:r.N(len(src)+1)]
			case 5:
				src = tokenSoup(r, dictionary)
			case 6:
				single = true
			}
			prev = src
		}
		c.Src = src
		file := fmt.Sprintf("f%d.pp", r.N(3))
		o2 := c.dumpParse(shared.Parse(file, src, single))
		o1 := c.dumpParse(parser.CreateParser(opts...).Parse(file, src, single))
		if d := diffOutcome(o1, o2, true); d != "" {
			var hist []string
			for _, x := range rs {
				hist = append(hist, x.src)
			}
			c.Fail("a new parser and a reused: %s\nearlier sources:\n%s", d, strings.Join(hist, "\n---\n"))
		}
		x := result{src: src, single: single, o: o2}
		if o2.err == "" {
			c.Count("accepted")
			x.pn = o2.e.ToPN().String()
			if s := o1.e.ToPN().String(); s != x.pn {
				c.Fail("the PN of two equal ASTs differs:\n%s\n%s", s, x.pn)
			}
			if r.P(30) {
				v1 := issueStrings(validator.ValidatePuppet(o2.e, validator.StrictWarning).Issues())
				v2 := issueStrings(validator.ValidatePuppet(o1.e, validator.StrictWarning).Issues())
				if v1 != v2 {
					c.Fail("validation gives different issues for equal ASTs:\n%s\n%s", v1, v2)
				}
			}
		} else {
			c.Count("rejected")
		}
		rs = append(rs, x)
	}
	// Earlier results are unchanged
	for _, x := range rs {
		if x.o.err != "" {
			continue
		}
		c.Src = x.src
		o := c.dumpParse(x.o.e, nil)
		if d := diffOutcome(x.o, o, true); d != "" {
			c.Fail("the AST of an earlier result has changed: %s", d)
		}
		if s := x.o.e.ToPN().String(); s != x.pn {
			c.Fail("the PN of an earlier result has changed from:\n%s\nto\n%s", x.pn, s)
		}
	}
	if len(rs) > 1 {
		var ss []string
		for _, x := range rs {
			ss = append(ss, x.src)
		}
		c.Seen(strings.Join(ss, "\n---\n"))
		c.Count(fmt.Sprintf("sequences of %d", len(rs)))
	}
}

func issueStrings(is []issue.Reported) string {
	var r []string
	for _, i := range is {
		r = append(r, i.Severity().String()+" "+i.Error())
	}
	return strings.Join(r, "\n")
}

// --- C27. Literals ---

// refLiteral is the reference for the literal value of a tree
func refLiteral(t *T) (interface{}, bool) {
	switch t.K {
	case "Program":
		return refLiteral(t.One("body"))
	case "Integer", "Float", "Boolean", "String", "Regexp", "RenderString":
		return t.Attr("value"), true
	case "Undef":
		return nil, true
	case "Default":
		return parser.DefaultInstance, true
	case "Name", "Reserved":
		return t.Str("name"), true
	case "TypeName":
		return t.Str("name"), true
	case "Heredoc":
		return refLiteral(t.One("text"))
	case "Concat":
		segs := t.Many("segments")
		if len(segs) == 1 && segs[0].K == "String" {
			return segs[0].Str("value"), true
		}
		return nil, false
	case "List":
		r := []interface{}{}
		for _, x := range t.Many("elements") {
			v, ok := refLiteral(x)
			if !ok {
				return nil, false
			}
			r = append(r, v)
		}
		return r, true
	case "Hash":
		r := map[interface{}]interface{}{}
		for _, x := range t.Many("entries") {
			k, ok := refLiteral(x.One("key"))
			if !ok {
				return nil, false
			}
			switch x.One("key").K {
			case "List", "Hash":
				return nil, false
			}
			v, ok := refLiteral(x.One("value"))
			if !ok {
				return nil, false
			}
			r[k] = v
		}
		return r, true
	}
	return nil, false
}

func litEqual(a, b interface{}) bool {
	switch x := a.(type) {
	case []interface{}:
		y, ok := b.([]interface{})
		if !ok || len(x) != len(y) {
			return false
		}
		for i := range x {
			if !litEqual(x[i], y[i]) {
				return false
			}
		}
		return true
	case map[interface{}]interface{}:
		y, ok := b.(map[interface{}]interface{})
		if !ok || len(x) != len(y) {
			return false
		}
		for k, v := range x {
			w, ok := y[k]
			if !ok || !litEqual(v, w) {
				return false
			}
		}
		return true
	}
	switch b.(type) {
	case []interface{}, map[interface{}]interface{}:
		return false
	}
	if fa, ok := a.(float64); ok {
		fb, ok := b.(float64)
		return ok && valueEq(fa, fb)
	}
	return a == b
}

// litGen generates an expression that is perhaps literal
func litGen(g *Gen, depth int) *T {
	r := g.r
	if depth > 0 && r.P(55) {
		if r.P(50) {
			n := g.node("List")
			g.t("[")
			var es []*T
			for i, k := 0, r.Small(5); i < k; i++ {
				if i > 0 {
					g.t(",")
				}
				es = append(es, litGen(g, depth-1))
			}
			g.t("]")
			return g.done(n, many("elements", es))
		}
		n := g.node("Hash")
		g.t("{")
		var es []*T
		for i, k := 0, r.Small(5); i < k; i++ {
			if i > 0 {
				g.t(",")
			}
			e := g.node("KeyedEntry")
			kd := 0
			if r.P(8) {
				kd = 1
			}
			key := litGen(g, kd)
			g.t("=>")
			es = append(es, g.done(e, one("key", key), one("value", litGen(g, depth-1))))
		}
		g.t("}")
		return g.done(n, many("entries", es))
	}
	if r.P(6) {
		return g.expr(lvOr, false)
	}
	return g.literalAtom()
}

// literalAtom generates a literal that consists of one token
func (g *Gen) literalAtom() *T {
	simple := func(k, s string, as ...Attr) *T {
		n := g.node(k, as...)
		g.t(s)
		return g.done(n)
	}
	switch g.r.N(10) {
	case 0:
		return g.number(g.r.Pick([]string{"", "", "-"}))
	case 1:
		return simple("Boolean", "true", boolean("value", true))
	case 2:
		return simple("Boolean", "false", boolean("value", false))
	case 3:
		return simple("Undef", "undef")
	case 4:
		return simple("Default", "default")
	case 5:
		s := g.lname()
		return simple("Name", s, str("name", s))
	case 6:
		return g.typeName()
	case 7:
		if g.r.P(40) {
			return simple("String", "'a b'", str("value", "a b"))
		}
		return g.number("")
	default:
		if g.r.P(50) {
			return simple("String", "''", str("value", ""))
		}
		return g.atom()
	}
}

func runC27(c *Case) {
	r := c.R
	var root *T
	if r.P(50) {
		cfg := randomCfg(r, r.Pick([]string{"literals", "strings", "heredoc", "interp"}))
		g := NewGen(r, cfg)
		t := g.node("Paren")
		g.t("(")
		x := litGen(g, r.N(5))
		g.t(")")
		g.done(t, one("expr", x))
		src, ok := g.render(r, randomStyle(r), false)
		if !ok {
			return
		}
		c.Src = src
		c.Info = []string{cfg.String()}
		e, err := parser.CreateParser(cfg.options(false)...).Parse("f.pp", src, true)
		if err != nil {
			c.Fail("valid source is rejected: %s", err)
		}
		root = Dump(e)
		if d := Diff(t, root); d != "" {
			c.Fail("wrong AST. %s", d)
		}
		root = root.One("expr")
	} else {
		p := anyProg(c, 5)
		if p == nil {
			return
		}
		root = c.mustParse(p)
		if d := Diff(p.T, root); d != "" {
			c.Fail("wrong AST. %s", d)
		}
	}
	n, lits := 0, 0
	root.Walk(func(t *T) {
		want, ok := refLiteral(t)
		got, gok := literal.ToLiteral(t.E)
		if ok != gok {
			c.Fail("%s: expected ok=%v, got %v, value %#v\n%s", t.K, ok, gok, got, clip(t.String(), 2000))
		}
		if !gok && got != nil {
			c.Fail("%s: not a literal, but gives the value %#v", t.K, got)
		}
		if ok && !litEqual(want, got) {
			c.Fail("%s: expected %#v, got %#v", t.K, want, got)
		}
		n++
		if ok {
			lits++
			c.Count("literal " + t.K)
		}
	})
	c.CountN("conversions", n)
	key := ""
	if lits > 0 {
		key = c.Src
	}
	c.Seen(key)
}

func init() {
	register(&Prop{ID: "C15", Quick: 120000, Thorough: 4000000, Run: runC15,
		Rule:        "the tokens of a generated program are written with up to four different random choices of spaces, line breaks (LF, CRLF) and comments, and the ASTs are compared; the tokens of changed, mostly invalid, programs are written with single spaces and with other spaces without line breaks, and the AST or the code of the issue are compared. Non-trivial: a distinct source",
		Assumptions: []string{"the generator knows where white space and line breaks are significant: in front of '[' and '(' , in strings, heredocs and EPP text"}})
	register(&Prop{ID: "C16", Quick: 150000, Thorough: 5000000, Run: runC16,
		Rule: "generated and mutated sources that don't contain the words and characters of optional features are parsed with none and with random sets of options, and AST, locations, definitions and issue compared; names in programs are replaced by the words of features that aren't enabled, and the AST compared with that of the original name; names in programs are replaced by words of features, and the result under each set of options compared with that of the reference; " +
			"single expressions are compared with the same expression as a statement; hostile sources are parsed with the options in other order and repeated, and with the parser for specs. Non-trivial: a distinct source",
		Assumptions: []string{"a source uses a feature only if it contains one of: backtick, \\x, plan, workflow, action, resource, stateHandler"}})
	register(&Prop{ID: "C17", Quick: 150000, Thorough: 5000000, Run: runC17,
		Rule:        "the offset of each node of generated programs is compared with the position of its first token as recorded when the source was written, its extent with that of its last token, and line, column and source text with an independent calculation. Non-trivial: a distinct source with more than three nodes",
		Assumptions: []string{"nodes that the parser creates without a source of their own must only have a location in the source"}})
	register(&Prop{ID: "C19", Quick: 120000, Thorough: 4000000, Run: runC19,
		Rule:        "each AST is iterated by AllContents (the program and some nodes) and Contents (every node) with different initial paths, and the visits are compared with the tree that the accessors of the nodes return, and their order with the source. Non-trivial: a distinct source with more than three nodes",
		Assumptions: []string{"the accessors of the nodes return all children"}})
	register(&Prop{ID: "C20", Quick: 40000, Thorough: 1500000, Run: runC20,
		Rule: "sequences of two to seven valid, mutated, truncated and random sources are parsed by one parser, and each result (AST, locations, definitions, issue, PN) compared with that of a new parser; all results are compared again after the last source. Non-trivial: a distinct sequence"})
	register(&Prop{ID: "C27", Quick: 150000, Thorough: 5000000, Run: runC27,
		Rule: "each node of generated programs, and of nested lists and hashes of literals, is converted and compared with a reference conversion of the expected tree. Non-trivial: a distinct source that contains a literal"})
}
