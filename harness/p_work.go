package main

import (
	"fmt"
	"runtime"
	"strings"

	"github.com/lyraproj/puppet-parser/parser"
)

// --- C02. Work ---

// measure parses a source and returns the number of executed blocks and allocated bytes
func measure(opts []parser.Option, src string, single, mem bool) (blocks, alloc int, err error) {
	p := parser.CreateParser(opts...)
	accumulateBlocks()
	var m0, m1 runtime.MemStats
	if mem {
		runtime.ReadMemStats(&m0)
	}
	_, err = p.Parse("f.pp", src, single)
	if mem {
		runtime.ReadMemStats(&m1)
		alloc = int(m1.TotalAlloc - m0.TotalAlloc)
	}
	blocks = int(work())
	return
}

// The bounds. What has been measured is at most 61 blocks and 220 bytes for each character. The text of a heredoc on a line
// follows the text of the preceding ones on that line, so they are all read for each, and the qualified name of a
// definition contains the names of those that enclose it.
const (
	blocksFixed    = 20000
	blocksPerChar  = 300
	blocksPerHd    = 3 // for each heredoc and character
	allocFixed     = 200000
	allocPerChar   = 1200
	allocPerNaming = 3 // for each definition and character
)

func blockLimit(src string) int {
	n := len(src)
	return blocksFixed + blocksPerChar*n + blocksPerHd*n*strings.Count(src, "@(")
}

func allocLimit(src string) int {
	n := len(src)
	defs := 0
	for _, w := range []string{"class", "plan", "workflow", "@("} {
		defs += strings.Count(src, w)
	}
	return allocFixed + allocPerChar*n + allocPerNaming*n*defs
}

func (c *Case) checkWork(in *input) (int, int) {
	c.workLimit = 10000000 + 10*uint64(blockLimit(in.src))
	b, a, err := measure(in.opts, in.src, in.single, true)
	n := len(in.src)
	if lim := blockLimit(in.src); b > lim {
		c.Fail("%d blocks are executed for a source of %d bytes, the limit is %d. Result: %v", b, n, lim, err)
	}
	if lim := allocLimit(in.src); a > lim {
		c.Fail("%d bytes are allocated for a source of %d bytes, the limit is %d. Result: %v", a, n, lim, err)
	}
	if n > 1000 && strings.Count(in.src, "@(") < 3 {
		c.Max("blocks per 100 bytes", b*100/n)
		if allocLimit(in.src) == allocFixed+allocPerChar*n {
			c.Max("allocated per byte", a/n)
		}
	}
	if err == nil {
		c.Count("accepted " + in.kind)
	} else {
		c.Count("rejected " + in.kind)
	}
	c.Max("source bytes", n)
	c.Seen(in.src)
	return b, a
}

func runC02(c *Case) {
	r := c.R
	sizes := []int{1000, 4000, 16000, 64000}
	if c.Tier == "thorough" {
		sizes = append(sizes, 256000, 1<<20)
	}
	if c.Idx < 4*len(families) {
		// Each family at growing size. The work for each byte must not grow
		f := &families[c.Idx%len(families)]
		variant := c.Idx / len(families)
		closed := variant != 1
		first := 0
		for _, size := range sizes {
			size0 := size
			if variant >= 2 {
				size /= 2
			}
			n := size / f.unit()
			if f.num {
				n = size / (f.unit() + 6)
			}
			if f.name == "heredocs on a line" && n > 1600 {
				break
			}
			k := 0
			if closed {
				k = n
			}
			in := &input{kind: "family", src: f.build(n, k), opts: f.options(), info: fmt.Sprintf("%s *%d closed=%v", f.name, n, closed)}
			if variant >= 2 && !f.epp {
				// on the same line as something long
				bulk := "/* " + strings.Repeat("x", size0/2) + " */ "
				if variant == 2 {
					in.src = bulk + in.src
				} else {
					in.src += " " + bulk
				}
			}
			if len(in.src) > 1<<20 {
				in.src = in.src[:1<<20]
			}
			c.use(in)
			b, _ := c.checkWork(in)
			perByte := (b - 2000) * 100 / len(in.src)
			if first == 0 {
				first = perByte + 500
			} else if !strings.Contains(f.name, "heredocs on a line") && perByte > 3*first {
				c.Fail("the number of executed blocks for each byte has grown from %.2f to %.2f", float64(first)/100, float64(perByte)/100)
			}
		}
		c.Count("families")
		return
	}
	in := &input{}
	switch k := r.N(100); {
	case k < 40:
		in = hostile(c, 0)
	case k < 70:
		max := 100
		if r.P(10) {
			max = 3000
		}
		nestInput(r, in, max)
	default:
		cfg := randomCfg(r, r.Pick(allFocuses))
		cfg.Budget = 5 + r.N(30)
		in.epp = r.P(10)
		in.opts = cfg.options(in.epp)
		in.info = cfg.String()
		p := newProg(r, cfg, in.epp)
		if p == nil {
			return
		}
		depth := 1 + r.N(60)
		if r.P(10) {
			depth = 2000
		}
		in.kind = "pumped"
		in.src = pump(r, p, depth)
		if r.P(20) {
			in.src = mutate(r, in.src, p.Src, dictionary)
		}
	}
	if r.P(15) && in.src != "" {
		in.src = insertBulk(r, in)
		in.kind = "bulk in " + in.kind
	}
	c.use(in)
	c.checkWork(in)
}

// insertBulk inserts something long at some place in the source, and repeats some part of what follows
func insertBulk(r *Rng, in *input) string {
	n := 1000 + r.N(5000)
	var bulk string
	switch r.N(8) {
	case 0, 1:
		bulk = "/*" + strings.Repeat(r.PickS("x", " ", "*", "/", "(", "å"), n) + "*/"
	case 2:
		bulk = strings.Repeat(r.PickS(" ", "\t", "\n", " \n", "\r\n", "#\n", "/**/"), n/2)
	case 3:
		bulk = "'" + strings.Repeat(r.PickS("x", "(", "$", "\n", "å"), n) + "'"
	case 4:
		bulk = "\"" + strings.Repeat(r.PickS("x", "(", "${a}", "\n", "å"), n) + "\""
	case 5:
		bulk = "[" + strings.Repeat(r.PickS("1,", "a,", "$a,", "(1),", "[],"), n/4) + "]"
	case 6:
		bulk = "a" + strings.Repeat(r.PickS("b", "::b", "-b", "-", "_"), n)
	default:
		bulk = "@(E)\n" + strings.Repeat(r.PickS("x", "x\n", "\n", " | ", "E x\n", "$"), n) + "\n|E\n"
	}
	src := in.src
	if len(src) > 4000 {
		src = src[:4000]
	}
	at := r.N(len(src) + 1)
	if r.P(50) {
		at = 0
		if r.P(50) {
			if i := strings.LastIndexByte(src[:r.N(len(src)+1)], '\n'); i >= 0 {
				at = i + 1
			}
		}
	}
	rest := src[at:]
	if r.P(60) {
		rest = strings.Map(func(c rune) rune {
			if c == '\n' {
				return ';'
			}
			return c
		}, rest)
	}
	if k := len(rest); k > 0 && r.P(70) {
		rest = strings.Repeat(rest+r.PickS(";", " ", ""), n/k+1)
	}
	return src[:at] + bulk + r.PickS(" ", "", ",", "\n") + rest
}

func init() {
	register(&Prop{ID: "C02", Quick: 150000, Thorough: 3000000, Run: runC02,
		Rule: "the basic blocks executed and bytes allocated by the parser are counted for generated, mutated, truncated and random sources, for mixed constructs nested to random depth, for programs in which the part around a random node is repeated (A B C D E to A BB.. C ..DD E), and for 157 fixed constructs at sizes 1 kB to 1 MB (64 kB in the quick tier), closed and unclosed. " +
			"The bound is 20000 + 300 n blocks (+ 3 n for each heredoc) and 200000 + 1200 n bytes (+ 3 n for each definition). Non-trivial: a distinct source",
		Assumptions: []string{"basic blocks as seen by 'go tool cover' in the packages of the repository; work in the Go library isn't counted, except for what it allocates"}})
}
