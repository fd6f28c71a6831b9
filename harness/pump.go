package main

import (
	"strings"
)

// A program in which a part, or two parts, can be repeated is repeated many times: lists, chains, names, strings, nested constructs and so on
// become long, also beyond the sizes that a program usually has

// pumpSize is a number of repetitions. The numbers around the powers of two are preferred
func pumpSize(r *Rng, max int) int {
	for {
		n := 4 + r.N(60)
		if r.P(75) {
			n = 1<<uint(3+r.N(16)) + r.N(5) - 2
		}
		if n <= max {
			return n
		}
	}
}

// pumpParts finds a part of an accepted program that can be repeated. It returns the longer program, or nil if it fails
func pumpParts(r *Rng, in *refSource, limit int) *refSource {
	accepted := func(s string) bool {
		_, reject, skip := refParse(s, in.cfg, in.epp, in.single)
		return reject == "" && skip == ""
	}
	src := in.src
	if len(src) < 2 || len(src) > 2000 || !accepted(src) {
		return nil
	}
	slice := func(lo, hi int) (int, int) {
		i := lo + r.N(hi-lo)
		n := 1 + r.Small(24)
		if i+n > hi {
			n = hi - i
		}
		return i, i + n
	}
	for try := 0; try < 40; try++ {
		a, b := slice(0, len(src))
		c, d := b, b
		if b < len(src) && r.P(40) {
			c, d = slice(b, len(src))
		}
		build := func(n int) string {
			return src[:a] + strings.Repeat(src[a:b], n) + src[b:c] + strings.Repeat(src[c:d], n) + src[d:]
		}
		if strings.TrimSpace(src[a:b]+src[c:d]) == "" || !accepted(build(2)) || !accepted(build(3)) {
			continue
		}
		max := limit / (b - a + d - c)
		if c < d && max > 3000 {
			max = 3000
		}
		if max < 6 {
			max = 6
		}
		n := pumpSize(r, max)
		s := build(n)
		if !accepted(s) {
			continue
		}
		x := *in
		x.src = s
		x.kind = "repeated parts"
		return &x
	}
	return nil
}

// pumpedProgram makes a long program that the reference parser accepts
func pumpedProgram(r *Rng, focus string) *refSource {
	limit := 3000
	if r.P(15) {
		limit = 40000
	}
	if r.P(20) {
		f := &families[r.N(len(families))]
		in := &refSource{cfg: Cfg{Tasks: true, Workflow: f.wf}, epp: f.epp}
		max := limit / f.unit()
		if max > 3000 {
			max = 3000
		}
		if max < 6 {
			max = 6
		}
		n := pumpSize(r, max)
		k := n
		if r.P(50) {
			k = 0
		}
		in.src = f.build(n, k)
		in.kind = "family"
		if _, reject, skip := refParse(in.src, in.cfg, in.epp, false); reject != "" || skip != "" {
			return nil
		}
		return in
	}
	cfg := randomCfg(r, focus)
	cfg.Budget = 1 + r.N(14)
	in := &refSource{cfg: cfg, epp: focus == "epp" || r.P(5)}
	p := newProg(r, cfg, in.epp)
	if p == nil {
		return nil
	}
	in.src = p.Src
	return pumpParts(r, in, limit)
}

func (t *T) depth() int {
	max := 0
	for _, c := range t.Children() {
		if d := c.depth(); d > max {
			max = d
		}
	}
	return max + 1
}
