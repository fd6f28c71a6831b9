package main

import (
	"encoding/json"
	"fmt"
	"os"
	"sync"
	"time"
)

// The watch looks at the counters of executed blocks while a case is running, and reports the case when it has done an
// amount of work that no case should do. The verdict depends on the counters and not on time.

var watched struct {
	sync.Mutex
	c       *Case
	started bool
	seq     int
}

const defaultWorkLimit = 4000000000

func watchCase(c *Case) {
	if len(counterFiles) == 0 {
		return
	}
	watched.Lock()
	watched.c = c
	watched.seq++
	if !watched.started {
		watched.started = true
		go watch()
	}
	watched.Unlock()
}

func watch() {
	var last, sum uint64
	seq := 0
	for {
		time.Sleep(100 * time.Millisecond)
		now := work()
		watched.Lock()
		c := watched.c
		if seq != watched.seq {
			seq = watched.seq
			sum = 0
		} else if now > last {
			sum += now - last
		}
		last = now
		limit := c.limitOfWork()
		if sum > limit {
			msg := fmt.Sprintf("the case had executed %d basic blocks when it was stopped, the limit is %d", sum, limit)
			rep := &report{Property: c.P.ID, Tier: c.Tier, Seed: c.Seed, Index: c.Idx, Message: msg, Source: clip(c.Src, 1<<20), Info: c.Info,
				Replay: fmt.Sprintf("cd /verif && VERIF_TIER=%s VERIF_SEED=%d ./run.sh %s %d", c.Tier, c.Seed, c.P.ID, c.Idx)}
			b, _ := json.Marshal(rep)
			fmt.Printf("REPORT %s\n", b)
			os.Exit(1)
		}
		watched.Unlock()
	}
}

func (c *Case) limitOfWork() uint64 {
	if c.workLimit > 0 {
		return c.workLimit
	}
	return defaultWorkLimit
}
