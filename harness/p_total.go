package main

import (
	"bytes"
	"fmt"
	"runtime/debug"
	"strings"
	"unicode/utf8"

	"github.com/lyraproj/issue/issue"
	pjson "github.com/lyraproj/puppet-parser/json"
	"github.com/lyraproj/puppet-parser/literal"
	"github.com/lyraproj/puppet-parser/parser"
	"github.com/lyraproj/puppet-parser/pn"
	"github.com/lyraproj/puppet-parser/validator"
)

// input is a source, and how to parse it
type input struct {
	src    string
	opts   []parser.Option
	single bool
	epp    bool
	kind   string
	info   string
}

func (in *input) parse() (parser.Expression, error) {
	return parser.CreateParser(in.opts...).Parse("f.pp", in.src, in.single)
}

func (c *Case) use(in *input) {
	c.Src = clip(in.src, 20000)
	c.Info = []string{in.kind, in.info}
}

func randomOptions(r *Rng) Cfg {
	return Cfg{Tasks: r.P(35), Workflow: r.P(30), Hex: r.P(40), Backtick: r.P(40)}
}

// hostile generates a source that can be anything, but which is often nearly valid
func hostile(c *Case, budget int) *input {
	r := c.R
	cfg := randomCfg(r, r.Pick(allFocuses))
	if budget > 0 {
		cfg.Budget = 3 + r.N(budget)
	}
	in := &input{epp: r.P(18)}
	if r.P(25) {
		// Other options than those that the program is generated for
		o := randomOptions(r)
		in.opts = o.options(r.P(30))
		in.epp = false
		in.info = o.String()
	} else {
		in.opts = cfg.options(in.epp)
		in.info = fmt.Sprintf("%s epp=%v", cfg.String(), in.epp)
	}
	in.single = r.P(10)
	k := r.N(100)
	if k < 74 {
		p := newProg(r, cfg, in.epp)
		if p == nil {
			p = &Prog{Src: "$x = 1"}
		}
		in.src = p.Src
		switch {
		case k < 12:
			in.kind = "generated"
		case k < 18 && p.T != nil:
			if s := pump(r, p, 1+r.N(40)); s != "" {
				in.kind = "pumped"
				in.src = s
			} else {
				in.kind = "generated"
			}
		case k < 32:
			in.kind = "truncated"
			in.src = in.src[:r.N(len(in.src)+1)]
		case k < 36 && p.G != nil:
			in.kind = "changed tokens"
			g := p.G
			save := g.toks
			g.toks = mutateToks(r, g.toks)
			if s, ok := g.render(r, randomStyle(r), in.epp); ok {
				in.src = s
			}
			g.toks = save
		default:
			in.kind = "mutated"
			other := in.src
			if r.P(10) {
				if p2 := newProg(r, cfg, in.epp); p2 != nil {
					other = p2.Src
				}
			}
			in.src = mutate(r, in.src, other, dictionary)
		}
		return in
	}
	switch {
	case k < 88:
		in.kind = "token soup"
		in.src = tokenSoup(r, dictionary)
	case k < 92:
		in.kind = "random bytes"
		b := make([]byte, r.N(60))
		for i := range b {
			if r.P(70) {
				b[i] = byte(32 + r.N(95))
			} else {
				b[i] = byte(r.N(256))
			}
		}
		in.src = string(b)
	default:
		max := 400
		if budget > 0 && !r.P(2) {
			max = 50
		}
		nestInput(r, in, max)
	}
	return in
}

// nestInput creates a source where a random sequence of constructs is nested
func nestInput(r *Rng, in *input, max int) {
	in.kind = "nested"
	n := 1 + r.N(4)
	var fs []*family
	epp, wf := false, false
	for i := 0; i < n; i++ {
		f := &families[r.N(len(families))]
		fs = append(fs, f)
		epp = epp || f.epp
		wf = wf || f.wf
		in.info += " | " + f.name
	}
	in.opts = append(in.opts, fs[0].options()...)
	if wf {
		in.opts = append(in.opts, parser.WorkflowEnabled)
	}
	if epp {
		in.opts = append(in.opts, parser.EppMode)
	}
	depth := 1 + r.N(max)
	in.src = nest(r, fs, depth, r.P(60), r.P(10))
}

func nest(r *Rng, fs []*family, depth int, closed, random bool) string {
	b := &strings.Builder{}
	var closers []string
	add := func(s string, i int) {
		if strings.Contains(s, "%d") {
			s = strings.Replace(s, "%d", fmt.Sprint(i), -1)
		}
		b.WriteString(s)
	}
	b.WriteString(fs[0].pre)
	for i := 0; i < depth; i++ {
		f := fs[i%len(fs)]
		if i > 0 && i < len(fs) && r.P(30) {
			b.WriteString(f.pre)
		}
		add(f.open, i)
		closers = append(closers, f.close)
	}
	if r.P(70) {
		b.WriteString(fs[(depth-1)%len(fs)].core)
	}
	if closed {
		for i := len(closers) - 1; i >= 0; i-- {
			if random && r.P(3) {
				b.WriteString(r.Pick([]string{")", "]", "}", "\"", "%>", ","}))
			}
			b.WriteString(closers[i])
		}
		b.WriteString(fs[0].suf)
	}
	return b.String()
}

// --- C01. Totality ---

// artefacts of incomplete formatting. They are only significant when the source doesn't contain their text
var artefacts = []string{"%{", "%!", "<nil>", "0x", "&{", "map[", "(MISSING)", "EXTRA "}

// checkReported checks that an issue is complete
func (c *Case) checkReported(src string, ri issue.Reported) {
	if ri.Code() == "" {
		c.Fail("issue without a code: %s", ri.Error())
	}
	msg := ri.Error()
	if strings.TrimSpace(msg) == "" {
		c.Fail("issue %s has no message", ri.Code())
	}
	for _, a := range artefacts {
		if strings.Contains(msg, a) && !strings.Contains(src, a) {
			c.Fail("issue %s has an incomplete message: %s", ri.Code(), msg)
		}
	}
	loc := ri.Location()
	if loc == nil {
		c.Fail("issue %s has no location", ri.Code())
	}
	if loc.File() != "f.pp" {
		c.Fail("issue %s has file '%s'", ri.Code(), loc.File())
	}
	line, pos := loc.Line(), loc.Pos()
	if line == 0 && pos == 0 && !utf8.ValidString(src) {
		return
	}
	if line < 1 || line > 1+strings.Count(src, "\n") {
		c.Fail("issue %s is at line %d, but the source has %d lines", ri.Code(), line, 1+strings.Count(src, "\n"))
	}
	s := src
	for i := 1; i < line; i++ {
		s = s[strings.IndexByte(s, '\n')+1:]
	}
	if i := strings.IndexByte(s, '\n'); i >= 0 {
		s = s[:i]
	}
	if max := utf8.RuneCountInString(s) + 1; pos < 1 || pos > max {
		c.Fail("issue %s is at line %d, column %d, but that line has only %d columns", ri.Code(), line, pos, max-1)
	}
	c.checkMessage(ri)
	if strings.Contains(src, "file:") || strings.Contains(src, "line:") {
		return // the message can look as if it has a location
	}
	if want := fmt.Sprintf("(file: f.pp, line: %d, column: %d)", line, pos); !strings.HasSuffix(msg, want) {
		c.Fail("issue %s: the message doesn't end with its location: %s", ri.Code(), msg)
	}
}

// checkMessage compares the message of an issue with its format and its arguments
func (c *Case) checkMessage(ri issue.Reported) {
	dsc, ok := issue.ForCode2(ri.Code())
	if !ok {
		c.Fail("unknown issue %s", ri.Code())
	}
	args := map[string]bool{}
	for _, k := range ri.Keys() {
		args[k] = true
	}
	b := &strings.Builder{}
	f := dsc.MessageFormat()
	for {
		i := strings.Index(f, "%{")
		if i < 0 {
			break
		}
		j := i + strings.IndexByte(f[i:], '}')
		key := f[i+2 : j]
		if !args[key] {
			c.Fail("issue %s has no argument '%s': %s", ri.Code(), key, ri.Error())
		}
		a := ri.Argument(key)
		if a == nil {
			c.Fail("the argument '%s' of issue %s is nil: %s", key, ri.Code(), ri.Error())
		}
		if fm, ok := dsc.ArgFormatters()[key]; ok {
			a = fm(a)
		}
		s := fmt.Sprint(a)
		if s == "" {
			c.Count("empty argument " + key + " of " + string(ri.Code()))
		}
		b.WriteString(strings.Replace(f[:i], "%%", "%", -1))
		b.WriteString(s)
		f = f[j+1:]
	}
	b.WriteString(strings.Replace(f, "%%", "%", -1))
	if !strings.HasPrefix(ri.Error(), b.String()) {
		c.Fail("the message of issue %s isn't made of its format and arguments: %s", ri.Code(), ri.Error())
	}
}

// checkTotal parses an input. The result is nil when it's rejected
func (c *Case) checkTotal(in *input) parser.Expression {
	e, err := in.parse()
	if err != nil {
		if e != nil {
			c.Fail("both an AST and an error: %s", err)
		}
		if ri, ok := err.(issue.Reported); ok {
			c.checkReported(in.src, ri)
			c.Count("issue " + string(ri.Code()))
		} else {
			if utf8.ValidString(in.src) {
				c.Fail("the error is not a reported issue: %T %s", err, err)
			}
			if err.Error() == "" {
				c.Fail("error without message")
			}
			c.Count("not UTF-8")
		}
		return nil
	}
	if e == nil {
		c.Fail("no AST and no error")
	}
	c.Count("accepted " + in.kind)
	return e
}

// fixedSizes are the lengths of sources for the families
func familyInput(idx, limit, deep int) (in *input) {
	f := &families[idx%len(families)]
	in = &input{kind: "family", opts: f.options(), epp: f.epp, info: f.name}
	switch v := idx / len(families); v {
	case 0, 1:
		// As large as permitted
		n := limit / f.unit()
		if f.num {
			n = limit / (f.unit() + 6)
		}
		if f.name == "heredocs on a line" {
			n = 800 // each heredoc reads past the text of the preceding ones
		}
		k := n
		if v == 1 {
			k = 0
		}
		in.src = f.build(n, k)
		in.info += fmt.Sprintf(" *%d, %d", n, k)
	case 2:
		// Near the limit of nesting
		in.src = f.build(deep, deep)
		if f.name == "heredocs on a line" {
			in.src = f.build(300, 300)
		}
		in.info += fmt.Sprintf(" *%d", deep)
	default:
		in.src = f.build(40+v, 40+v-1)
	}
	if len(in.src) > 1<<20 {
		in.src = in.src[:1<<20]
	}
	return
}

// farTooDeep parses something that is nested much deeper than the limit of nesting, with a stack that isn't larger than what
// the limit calls for. A recursion that escapes the limit ends the process
func (c *Case) farTooDeep(i int) {
	r := c.R
	defer debug.SetMaxStack(debug.SetMaxStack(64 << 20))
	in := &input{}
	size := 4 << 20
	if i < 2*len(families) {
		f := &families[i%len(families)]
		n, closers := size/f.unit(), 0
		if f.name == "dot" {
			n /= 16 // left recursive, and not limited
		}
		if f.num || f.name == "heredocs on a line" {
			n = 4000
		}
		if i < len(families) {
			closers = n
		}
		in = &input{opts: f.options(), epp: f.epp, info: f.name, src: f.build(n, closers)}
	} else {
		fs := make([]*family, 2+r.N(2))
		unit := 0
		for k := range fs {
			f := &families[r.N(len(families))]
			if f.close == "" || f.num || f.name == "dot" || f.name == "heredocs on a line" {
				f = &families[0]
			}
			fs[k] = f
			unit += f.unit()
			in.opts = append(in.opts, f.options()...)
			in.epp = in.epp || f.epp
			in.info += " | " + f.name
		}
		in.src = nest(r, fs, size/unit*len(fs), r.P(50), false)
	}
	in.kind = "far too deep"
	c.use(in)
	c.checkTotal(in)
	c.Count("nested far beyond the limit")
}

func runC01(c *Case) {
	r := c.R
	limit := 250000
	if c.Tier == "thorough" {
		limit = 1 << 20
	}
	nf := 4 * len(families)
	if c.Idx >= nf && c.Idx < nf+2*len(families)+100 {
		c.farTooDeep(c.Idx - nf)
		return
	}
	if c.Idx < nf {
		in := familyInput(c.Idx, limit, 9000)
		c.use(in)
		c.checkTotal(in)
		c.Count("families")
		c.Max("source bytes", len(in.src))
		c.Seen(in.src)
		return
	}
	if r.P(3) {
		// All truncations of a small program
		in := hostile(c, 12)
		if len(in.src) > 400 {
			in.src = in.src[:400]
		}
		src := in.src
		in.kind = "all truncations"
		for i := 0; i <= len(src); i++ {
			in.src = src[:i]
			c.use(in)
			c.checkTotal(in)
			c.Seen(in.src)
		}
		c.CountN("truncations", len(src)+1)
		return
	}
	if r.P(1) && r.P(30) {
		// A long program
		in := hostile(c, 20)
		in.src = strings.Repeat(in.src+"\n", 1+r.N(200))
		if len(in.src) > 1<<17 {
			in.src = in.src[:1<<17]
		}
		in.kind = "repeated"
		c.use(in)
		c.checkTotal(in)
		c.Max("source bytes", len(in.src))
		c.Seen(in.src)
		return
	}
	in := hostile(c, 0)
	c.use(in)
	c.checkTotal(in)
	c.Count("input " + in.kind)
	c.Max("source bytes", len(in.src))
	key := in.src
	if len(key) < 3 {
		key = ""
	}
	c.Seen(key)
}

// --- C03. Consumers ---

// consume does everything that can be done with an AST
func (c *Case) consume(in *input, e parser.Expression) {
	src := in.src
	// As PN
	p := e.ToPN()
	text := p.String()
	if text == "" {
		c.Fail("empty PN")
	}
	b := bytes.NewBufferString("")
	p.Format(b)
	if b.String() != text {
		c.Fail("Format and String of the PN differ")
	}
	data := p.ToData()
	b.Reset()
	pjson.ToJson(data, b)
	if utf8.ValidString(text) {
		if _, err := readJSON(b.String()); err != nil {
			c.Fail("%s", err)
		}
	}
	// The nodes
	nodes := []parser.Expression{e}
	e.AllContents(nil, func(path []parser.Expression, x parser.Expression) {
		nodes = append(nodes, x)
	})
	if prg, ok := e.(*parser.Program); ok {
		for _, d := range prg.Definitions() {
			nodes = append(nodes, d)
			if d.ToDefinition() == nil {
				c.Fail("%s: no definition", d.Label())
			}
		}
	}
	step := 1 + len(nodes)/400
	for i, x := range nodes {
		if x == nil {
			c.Fail("nil node")
		}
		if x.Label() == "" {
			c.Fail("%T has no label", x)
		}
		_ = x.IsNop()
		off, n := x.ByteOffset(), x.ByteLength()
		if off < 0 || n < 0 || off+n > len(src) {
			c.Fail("%s: location %d+%d isn't in the source", x.Label(), off, n)
		}
		if x.String() != src[off:off+n] {
			c.Fail("%s: the source text isn't that of its location", x.Label())
		}
		if i%step == 0 {
			if l, pos := linePos(src, off); l != x.Line() || pos != x.Pos() {
				c.Fail("%s at offset %d: line %d, column %d, expected %d and %d", x.Label(), off, x.Line(), x.Pos(), l, pos)
			}
			if x.File() != "f.pp" {
				c.Fail("%s: file '%s'", x.Label(), x.File())
			}
			if len(nodes) < 2000 || i < 3*step {
				v, ok := literal.ToLiteral(x)
				if !ok && v != nil {
					c.Fail("%s isn't a literal but has the value %v", x.Label(), v)
				}
				if s := x.ToPN().String(); s == "" {
					c.Fail("%s has no PN", x.Label())
				}
				kids := 0
				x.Contents(nil, func(path []parser.Expression, y parser.Expression) { kids++ })
			}
		}
	}
	c.CountN("nodes", len(nodes))
	// The validators
	var all []issue.Reported
	for _, s := range []validator.Strictness{validator.StrictOff, validator.StrictWarning, validator.StrictError} {
		all = append(all, validator.ValidatePuppet(e, s).Issues()...)
	}
	all = append(all, validator.ValidateTasks(e).Issues()...)
	all = append(all, validator.ValidateWorkflow(e).Issues()...)
	if len(all) > 500 {
		all = all[:500]
	}
	size := 0
	for _, i := range all {
		if size += len(i.Error()); size > 300000 {
			break // the message can contain all of the source
		}
		c.checkReported(src, i)
		c.Count("validation issue " + string(i.Code()))
		switch i.Severity() {
		case issue.SeverityError, issue.SeverityWarning, issue.SeverityDeprecation:
		default:
			c.Fail("issue %s has severity %d", i.Code(), i.Severity())
		}
		if s := pn.ReportedToPN(i).String(); s == "" {
			c.Fail("no PN for issue %s", i.Code())
		}
	}
	res := issue.NewResult(all)
	_ = res.Error()
	c.Seen(src)
}

func runC03(c *Case) {
	limit, deep := 30000, 1500
	if c.Tier == "thorough" {
		limit, deep = 1<<20, 9000
	}
	if c.Idx < 4*len(families) {
		if f := &families[c.Idx%len(families)]; f.name == "hash key" {
			limit /= 5 // validation compares keys that contain keys, which is quadratic
		}
		in := familyInput(c.Idx, limit, deep)
		c.use(in)
		if e, err := in.parse(); err == nil {
			c.consume(in, e)
			c.Count("families")
			c.Max("source bytes", len(in.src))
		}
		return
	}
	for k := 0; k < 3; k++ {
		in := hostile(c, 60)
		c.use(in)
		e, err := in.parse()
		if err != nil {
			c.Count("rejected")
			continue
		}
		c.Count("accepted " + in.kind)
		c.consume(in, e)
		return
	}
}

func init() {
	register(&Prop{ID: "C03", Quick: 80000, Thorough: 5000000, Run: runC03,
		Rule: "the ASTs of all accepted sources among generated, mutated, truncated, nested and random sources, and of 157 constructs repeated up to the limit of size, are converted to PN, text, data and JSON (all nodes of small ASTs), iterated, asked for label, source text and location, converted to literals, and validated by the Puppet validator with each strictness, the tasks and the workflow validator. " +
			"Checked is that nothing panics, that each location and text is that of the source, and that each issue is complete: severity, location, and the message equal to its format with all arguments. Non-trivial: a distinct source that is accepted"})
	register(&Prop{ID: "C01", Quick: 250000, Thorough: 12000000, Run: runC01,
		Rule: "generated programs (also EPP) and mutations, truncations (each length), token sequences, random bytes (also invalid UTF-8), mixed constructs nested to random depth, and 157 fixed constructs that are repeated or nested up to the limit of size, closed and unclosed, are parsed with random options, as program and as single expression. Each of the constructs, and mixtures of them, are also nested much deeper than the limit of nesting (4 MB of source) with a stack of at most 64 MB. " +
			"Checked is that the process survives, that exactly one of AST and error is returned, and that the issue is complete and located in the source. Non-trivial: a distinct source of at least three bytes"})
}

// pump repeats the part of a program that is around a node that is enclosed in another, i.e. the program A B C D E where B C D
// is a node and C is a node in it, becomes A B..B C D..D E. Returns "" if there are no such nodes
func pump(r *Rng, p *Prog, depth int) string {
	type pair struct{ x, y *T }
	var pairs []pair
	var path []*T
	var visit func(t *T)
	visit = func(t *T) {
		ok := !t.NoLoc && t.K != "Program" && t.End > t.Off
		if ok {
			for i := len(path) - 1; i >= 0 && i >= len(path)-4; i-- {
				x := path[i]
				if x.Off <= t.Off && t.End <= x.End && x.End-x.Off > t.End-t.Off {
					pairs = append(pairs, pair{x, t})
				}
			}
			path = append(path, t)
		}
		for _, ch := range t.Children() {
			visit(ch)
		}
		if ok {
			path = path[:len(path)-1]
		}
	}
	visit(p.T)
	if len(pairs) == 0 {
		return ""
	}
	pr := pairs[r.N(len(pairs))]
	if r.P(60) {
		// The same kind of node is more likely to be possible
		for k := 0; k < 20 && pr.x.K != pr.y.K; k++ {
			pr = pairs[r.N(len(pairs))]
		}
	}
	s := p.Src
	before, after := s[pr.x.Off:pr.y.Off], s[pr.y.End:pr.x.End]
	max := 60000
	if n := len(before) + len(after); n*depth > max {
		depth = max/n + 1
	}
	closers := depth
	switch r.N(6) {
	case 0:
		closers = 0
	case 1:
		closers = r.N(depth)
	}
	return s[:pr.x.Off] + strings.Repeat(before, depth) + s[pr.y.Off:pr.y.End] + strings.Repeat(after, closers) + s[pr.x.End:]
}
