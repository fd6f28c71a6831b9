package main

import (
	"strconv"

	pjson "github.com/lyraproj/puppet-parser/json"
	"github.com/lyraproj/puppet-parser/literal"
	"github.com/lyraproj/puppet-parser/parser"
	"github.com/lyraproj/puppet-parser/pn"
	"github.com/lyraproj/puppet-parser/validator"
)

// The counters of the executed blocks in the instrumented packages

type counterFile struct {
	file  string
	count []uint32
	pos   []uint32
	seen  []bool
}

var counterFiles []*counterFile

func init() {
	add := func(file string, count, pos []uint32) {
		counterFiles = append(counterFiles, &counterFile{file, count, pos, make([]bool, len(count))})
	}
	parser.VerifCounters(add)
	validator.VerifCounters(add)
	pn.VerifCounters(add)
	literal.VerifCounters(add)
	pjson.VerifCounters(add)
}

// accumulateBlocks remembers which blocks that have been executed, and resets the counters
func accumulateBlocks() {
	for _, f := range counterFiles {
		for i, c := range f.count {
			if c > 0 {
				f.seen[i] = true
				f.count[i] = 0
			}
		}
	}
}

// work returns the number of blocks executed in the parser since the last accumulateBlocks
func work() (n uint64) {
	for _, f := range counterFiles {
		for _, c := range f.count {
			n += uint64(c)
		}
	}
	return
}

func executedBlocks() (r []string, total int) {
	for _, f := range counterFiles {
		for i, s := range f.seen {
			total++
			if s {
				r = append(r, f.file+":"+strconv.Itoa(i))
			}
		}
	}
	return
}
