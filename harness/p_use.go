package main

import (
	"bytes"
	"fmt"
	"runtime"
	"strings"

	pjson "github.com/lyraproj/puppet-parser/json"
	"github.com/lyraproj/puppet-parser/literal"
	"github.com/lyraproj/puppet-parser/parser"
	"github.com/lyraproj/puppet-parser/validator"
)

// --- C32. The work done when an AST is used ---

// shape is the size of an AST
type shape struct {
	nodes  int // number of nodes, counted with AllContents
	depth  int // the longest path
	depths int // the sum of the lengths of all paths
}

func shapeOf(e parser.Expression) (s shape) {
	s.nodes = 1
	e.AllContents(nil, func(path []parser.Expression, _ parser.Expression) {
		s.nodes++
		s.depths += len(path)
		if len(path) > s.depth {
			s.depth = len(path)
		}
	})
	return
}

// use is something that is done with an AST, and its bound
type use struct {
	name string
	run  func(e parser.Expression, all []parser.Expression) int
	// per byte of the source and node
	blocks, alloc int
	output        bool // the size of the output counts
	looked        bool // the text of hash keys, conditional statements, and default values counts
}

const (
	useBlocks = 4000
	useAlloc  = 40000
)

var sink int

func issuesOf(v validator.Validator) int {
	n := 0
	for _, i := range v.Issues() {
		n += len(i.Code())
	}
	return n
}

var uses = []use{
	{name: "pn", run: func(e parser.Expression, _ []parser.Expression) int {
		b := &bytes.Buffer{}
		e.ToPN().Format(b)
		return b.Len()
	}, output: true, blocks: 20, alloc: 200},
	{name: "json", run: func(e parser.Expression, _ []parser.Expression) int {
		b := &bytes.Buffer{}
		pjson.ToJson(e.ToPN().ToData(), b)
		return b.Len()
	}, output: true, blocks: 20, alloc: 500},
	{name: "visit", run: func(e parser.Expression, _ []parser.Expression) int {
		n := 0
		e.AllContents(nil, func(path []parser.Expression, _ parser.Expression) { n++ })
		return n
	}, blocks: 20, alloc: 150},
	{name: "contents", run: func(e parser.Expression, all []parser.Expression) int {
		n := 0
		for _, x := range all {
			x.Contents(nil, func(path []parser.Expression, _ parser.Expression) { n++ })
		}
		return n
	}, blocks: 20, alloc: 150},
	{name: "describe", run: func(e parser.Expression, all []parser.Expression) int {
		n := 0
		for _, x := range all {
			n += len(x.Label()) + x.ByteOffset() + x.ByteLength() + len(x.File())
		}
		return n
	}, blocks: 20, alloc: 150},
	{name: "lines", run: func(e parser.Expression, all []parser.Expression) int {
		n := 0
		for _, x := range all {
			n += x.Line()
		}
		return n
	}, blocks: 20, alloc: 150},
	{name: "columns", run: func(e parser.Expression, all []parser.Expression) int {
		n := 0
		for _, x := range all {
			n += x.Pos()
		}
		return n
	}, blocks: 20, alloc: 150},
	{name: "text", run: func(e parser.Expression, all []parser.Expression) int {
		n := 0
		for _, x := range all {
			n += len(x.String())
		}
		return n
	}, output: true, blocks: 10, alloc: 100},
	{name: "literal", run: func(e parser.Expression, _ []parser.Expression) int {
		n := 0
		lit := func(x parser.Expression) {
			if _, ok := literal.ToLiteral(x); ok {
				n++
			}
		}
		lit(e)
		if p, ok := e.(*parser.Program); ok {
			if b, ok := p.Body().(*parser.BlockExpression); ok {
				for _, s := range b.Statements() {
					lit(s)
				}
			}
		}
		return n
	}, blocks: 20, alloc: 150},
	{name: "validate puppet", run: func(e parser.Expression, _ []parser.Expression) int {
		return issuesOf(validator.ValidatePuppet(e, validator.StrictError))
	}, looked: true, blocks: 40, alloc: 800},
	{name: "validate tasks", run: func(e parser.Expression, _ []parser.Expression) int {
		return issuesOf(validator.ValidateTasks(e))
	}, looked: true, blocks: 40, alloc: 800},
	{name: "validate workflow", run: func(e parser.Expression, _ []parser.Expression) int {
		return issuesOf(validator.ValidateWorkflow(e))
	}, looked: true, blocks: 40, alloc: 800},
}

func (c *Case) checkUse(in *input, e parser.Expression) {
	var all []parser.Expression
	all = append(all, e)
	e.AllContents(nil, func(_ []parser.Expression, x parser.Expression) { all = append(all, x) })
	s := shapeOf(e)
	n := len(in.src)
	looked := 0
	for _, x := range all {
		switch x := x.(type) {
		case *parser.LiteralHash:
			for _, e := range x.Entries() {
				if k, ok := e.(*parser.KeyedEntry); ok {
					looked += k.Key().ByteLength()
				}
			}
		case *parser.Parameter:
			if x.Value() != nil {
				looked += x.Value().ByteLength()
			}
		case *parser.BlockExpression:
			for _, s := range x.Statements() {
				switch s.(type) {
				case *parser.IfExpression, *parser.UnlessExpression, *parser.CaseExpression, *parser.ParenthesizedExpression, *parser.BlockExpression:
					looked += s.ByteLength()
				}
			}
		}
	}
	var m0, m1 runtime.MemStats
	for i := range uses {
		u := &uses[i]
		// the first time pays for what is remembered
		for k := 0; k < 2; k++ {
			c.workLimit = 1000000000
			accumulateBlocks()
			runtime.ReadMemStats(&m0)
			size := u.run(e, all)
			runtime.ReadMemStats(&m1)
			sink += size
			b, a := int(work()), int(m1.TotalAlloc-m0.TotalAlloc)
			units := n + s.nodes
			if u.output {
				units += size
			}
			if u.looked {
				units += looked
			}
			if lim := useBlocks + u.blocks*units; b > lim {
				c.Fail("%s: %d blocks are executed for a source of %d bytes with %d nodes, the limit is %d", u.name, b, n, s.nodes, lim)
			}
			if lim := useAlloc + u.alloc*units; a > lim {
				c.Fail("%s: %d bytes are allocated for a source of %d bytes with %d nodes, the limit is %d", u.name, a, n, s.nodes, lim)
			}
			if b > useBlocks {
				c.Max(u.name+": blocks per 10 units", (b-useBlocks)*10/units)
			}
			if a > useAlloc {
				c.Max(u.name+": allocated per unit", (a-useAlloc)/units)
			}
		}
	}
	c.CountN("uses", 2*len(uses))
	c.Max("nodes", s.nodes)
	c.Max("depth", s.depth)
	c.Seen(in.src)
}

func runC32(c *Case) {
	r := c.R
	in := &input{}
	sizes := []int{1000, 4000, 16000}
	if c.Tier == "thorough" {
		sizes = append(sizes, 64000)
	}
	if c.Idx < len(sizes)*len(families) {
		f := &families[c.Idx%len(families)]
		size := sizes[c.Idx/len(families)]
		n := size / f.unit()
		if n > 9000 {
			n = 9000
		}
		in = &input{kind: "family", src: f.build(n, n), opts: f.options(), info: fmt.Sprintf("%s *%d", f.name, n)}
	} else {
		switch k := r.N(100); {
		case k < 30:
			nestInput(r, in, 200)
		case k < 50:
			in = hostile(c, 0)
		default:
			cfg := randomCfg(r, r.Pick(allFocuses))
			cfg.Budget = 5 + r.N(60)
			in.epp = r.P(10)
			in.opts = cfg.options(in.epp)
			in.info = cfg.String()
			p := newProg(r, cfg, in.epp)
			if p == nil {
				return
			}
			in.kind = "generated"
			in.src = p.Src
			if r.P(40) {
				if s := pump(r, p, 1+r.N(100)); s != "" {
					in.src, in.kind = s, "pumped"
				}
			} else if r.P(50) {
				in.src = strings.Repeat(in.src+"\n", 2+r.N(30))
				in.kind = "repeated"
			}
		}
	}
	c.use(in)
	e, err := in.parse()
	if err != nil {
		c.Count("rejected")
		return
	}
	c.Count("accepted " + in.kind)
	c.checkUse(in, e)
}

func init() {
	register(&Prop{ID: "C32", Quick: 9000, Thorough: 300000, Run: runC32,
		Rule: "the basic blocks executed and bytes allocated are counted while an AST is converted to PN text and to JSON, visited (AllContents, and Contents of all nodes), validated with the Puppet, tasks and workflow validators, converted to literals, and while all nodes are asked for label, location, line, column and source text, each twice. " +
			"ASTs are those of generated, repeated, pumped, nested and hostile programs, and of 157 fixed constructs at sizes 1 kB to 16 kB (64 kB in the thorough tier). A unit is a byte of the source, a node, a byte of the output, and, for validation, a byte of the key of a hash (keys are compared by their PN), of a conditional statement (which is searched for effects at each level that encloses it), or of the default value of a parameter (which is searched for assignments in the same way). " +
			"The bound is 4000 blocks and 40000 bytes plus 10 to 40 blocks and 100 to 800 bytes for each unit, which is at least four times what has been measured. Non-trivial: a distinct source that is accepted",
		Assumptions: []string{"basic blocks as seen by 'go tool cover' in the packages of the repository; work in the Go library isn't counted, except for what it allocates"}})
}
