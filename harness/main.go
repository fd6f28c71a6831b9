package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"hash/fnv"
	"io/ioutil"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"syscall"
	"time"
)

// A Prop decides one property by running a number of cases. Each case is determined by the property, the tier, the seed, and
// its index, and by nothing else.
type Prop struct {
	ID          string
	Quick       int // number of cases
	Thorough    int
	Run         func(c *Case)
	Setup       func(tier string, seed uint64) // called once per process
	Rule        string
	Assumptions []string
	NoMemLimit  bool
	Shards      int
}

var props = map[string]*Prop{}

func register(p *Prop) { props[p.ID] = p }

// Case is one case
type Case struct {
	P    *Prop
	Idx  int
	N    int
	Tier string
	Seed uint64
	R    *Rng

	Src    string         // the input of the case, for reports
	Info   []string       // other things that identify the case
	feat   map[string]int // what the monitors have observed
	evals  int            // number of evaluations of the oracle
	keys   map[uint64]struct{}
	sample string

	workLimit uint64 // set when the watch should stop the case earlier
}

type violation struct {
	msg string
}

// Fail reports a violation of the property
func (c *Case) Fail(format string, args ...interface{}) {
	panic(violation{fmt.Sprintf(format, args...)})
}

// Seen counts an evaluation of the oracle. The key identifies the input, and is empty if the evaluation is trivial
func (c *Case) Seen(key string) {
	c.evals++
	if key != "" {
		h := fnv.New64a()
		h.Write([]byte(key))
		c.keys[h.Sum64()] = struct{}{}
		if c.sample == "" {
			c.sample = key
		}
	}
}

func (c *Case) Count(f string)         { c.feat[f]++ }
func (c *Case) CountN(f string, n int) { c.feat[f] += n }
func (c *Case) Max(f string, n int) {
	f = "max " + f
	if n > c.feat[f] {
		c.feat[f] = n
	}
}

type report struct {
	Property string   `json:"property"`
	Tier     string   `json:"tier"`
	Seed     uint64   `json:"seed"`
	Index    int      `json:"index"`
	Message  string   `json:"message"`
	Source   string   `json:"source"`
	Info     []string `json:"info,omitempty"`
	Replay   string   `json:"replay"`
}

func hashID(s string) uint64 {
	h := fnv.New64a()
	h.Write([]byte(s))
	return h.Sum64()
}

// runCase runs one case and returns a report if there's a violation
func runCase(p *Prop, tier string, seed uint64, idx, n int, acc *Case) (rep *report) {
	c := acc
	c.P, c.Idx, c.N, c.Tier, c.Seed = p, idx, n, tier, seed
	c.R = NewRng(seed, hashID(p.ID), uint64(idx))
	c.Src = ""
	c.Info = nil
	c.workLimit = 0
	watchCase(c)
	defer func() {
		if r := recover(); r != nil {
			msg := ""
			if v, ok := r.(violation); ok {
				msg = v.msg
			} else {
				msg = fmt.Sprintf("panic: %v\n%s", r, debug.Stack())
			}
			rep = &report{Property: p.ID, Tier: tier, Seed: seed, Index: idx, Message: msg, Source: c.Src, Info: c.Info,
				Replay: fmt.Sprintf("cd /verif && VERIF_TIER=%s VERIF_SEED=%d ./run.sh %s %d", tier, seed, p.ID, idx)}
		}
	}()
	p.Run(c)
	return nil
}

func newAcc() *Case { return &Case{feat: map[string]int{}, keys: map[uint64]struct{}{}} }

// slowLog is a file that receives the slow cases, for debugging
var slowLog = os.Getenv("VERIF_SLOW")

// --- worker ---

type workerResult struct {
	Evals   int            `json:"evals"`
	Cases   int            `json:"cases"`
	Feat    map[string]int `json:"feat"`
	Keys    []uint64       `json:"keys"`
	Samples []string       `json:"samples"`
	Blocks  []string       `json:"blocks"` // executed blocks of the code under test
	Total   int            `json:"total"`
	Rep     *report        `json:"report"`
}

func limitMemory(p *Prop) {
	if p.NoMemLimit {
		return
	}
	lim := &syscall.Rlimit{Cur: 8 << 30, Max: 8 << 30}
	_ = syscall.Setrlimit(syscall.RLIMIT_AS, lim)
}

func worker(p *Prop, tier string, seed uint64, n, shard, shards int, journal, result string) {
	limitMemory(p)
	if p.Setup != nil {
		p.Setup(tier, seed)
	}
	jf, err := os.OpenFile(journal, os.O_RDWR|os.O_CREATE, 0644)
	if err != nil {
		panic(err)
	}
	res := workerResult{}
	acc := newAcc()
	for idx := shard; idx < n; idx += shards {
		_, _ = jf.WriteAt([]byte(fmt.Sprintf("%012d", idx)), 0)
		acc.sample = ""
		t0 := time.Now()
		res.Rep = runCase(p, tier, seed, idx, n, acc)
		if slowLog != "" && time.Since(t0) > 300*time.Millisecond {
			if f, err := os.OpenFile(slowLog, os.O_APPEND|os.O_CREATE|os.O_WRONLY, 0644); err == nil {
				fmt.Fprintf(f, "%v %s %d %v %q\n", time.Since(t0), p.ID, idx, acc.Info, clip(acc.Src, 100))
				_ = f.Close()
			}
		}
		res.Cases++
		if res.Rep != nil {
			break
		}
		if acc.sample != "" && len(res.Samples) < 2 && len(acc.sample) < 1500 && len(acc.sample) > 15 {
			res.Samples = append(res.Samples, acc.sample)
		}
	}
	res.Evals = acc.evals
	res.Feat = acc.feat
	for k := range acc.keys {
		res.Keys = append(res.Keys, k)
	}
	accumulateBlocks()
	res.Blocks, res.Total = executedBlocks()
	f, err := os.Create(result)
	if err != nil {
		panic(err)
	}
	w := bufio.NewWriter(f)
	if err = json.NewEncoder(w).Encode(&res); err != nil {
		panic(err)
	}
	if err = w.Flush(); err != nil {
		panic(err)
	}
	if err = f.Close(); err != nil {
		panic(err)
	}
}

// --- parent ---

const stallLimit = 100 * time.Second
const cpuLimit = 80 * time.Second

func inconclusive(format string, args ...interface{}) {
	fmt.Printf("INCONCLUSIVE "+format+"\n", args...)
	os.Exit(2)
}

func journalIdx(path string) int {
	b, err := ioutil.ReadFile(path)
	if err != nil {
		return -1
	}
	i, err := strconv.Atoi(strings.TrimLeft(strings.TrimSpace(string(b)), "0"))
	if err != nil {
		return 0
	}
	return i
}

type shardState struct {
	cmd     *exec.Cmd
	done    chan error
	journal string
	result  string
	stderr  string
	last    string
	lastAt  time.Time
	over    bool
	stalled bool
	err     error
}

func run(p *Prop, tier string, seed uint64) {
	start := time.Now()
	n := p.Quick
	if tier == "thorough" {
		n = p.Thorough
	}
	if s := os.Getenv("VERIF_CASES"); s != "" {
		n, _ = strconv.Atoi(s)
	}
	exe, err := os.Executable()
	if err != nil {
		inconclusive("%s", err)
	}
	tmp, err := ioutil.TempDir("/verif/build", "run")
	if err != nil {
		inconclusive("%s", err)
	}
	defer os.RemoveAll(tmp)
	shards := 8
	if p.Shards > 0 {
		shards = p.Shards
	}
	if c := runtime.NumCPU(); p.Shards == 0 && c < shards {
		shards = c
	}
	var ss []*shardState
	for i := 0; i < shards; i++ {
		s := &shardState{journal: filepath.Join(tmp, fmt.Sprintf("j%d", i)), result: filepath.Join(tmp, fmt.Sprintf("r%d", i)),
			stderr: filepath.Join(tmp, fmt.Sprintf("e%d", i)), done: make(chan error, 1), lastAt: time.Now()}
		s.cmd = exec.Command(exe, "worker", p.ID, tier, strconv.FormatUint(seed, 10), strconv.Itoa(n), strconv.Itoa(i), strconv.Itoa(shards), s.journal, s.result)
		s.cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true, Pdeathsig: syscall.SIGKILL}
		ef, err := os.Create(s.stderr)
		if err != nil {
			inconclusive("%s", err)
		}
		s.cmd.Stderr = ef
		s.cmd.Stdout = ef
		if err = s.cmd.Start(); err != nil {
			inconclusive("%s", err)
		}
		go func(s *shardState) { s.done <- s.cmd.Wait(); ef.Close() }(s)
		ss = append(ss, s)
	}
	for open := len(ss); open > 0; {
		time.Sleep(20 * time.Millisecond)
		for _, s := range ss {
			if s.over {
				continue
			}
			select {
			case s.err = <-s.done:
				s.over = true
				open--
			default:
				b, _ := ioutil.ReadFile(s.journal)
				if string(b) != s.last {
					s.last = string(b)
					s.lastAt = time.Now()
				} else if time.Since(s.lastAt) > stallLimit && !s.stalled {
					s.stalled = true
					_ = syscall.Kill(-s.cmd.Process.Pid, syscall.SIGKILL)
				}
			}
		}
	}

	var reps []*report
	total := workerResult{Feat: map[string]int{}}
	keys := map[uint64]struct{}{}
	blocks := map[string]struct{}{}
	incon := ""
	for _, s := range ss {
		b, err := ioutil.ReadFile(s.result)
		var r workerResult
		if err == nil && s.err == nil {
			err = json.Unmarshal(b, &r)
		}
		if err != nil || s.err != nil {
			// Died. Run the case that was in progress again, by itself
			idx := journalIdx(s.journal)
			out := tail(s.stderr, 60)
			if idx < 0 {
				incon = fmt.Sprintf("worker failed before its first case: %v\n%s", s.err, out)
				continue
			}
			if len(reps) > 0 {
				continue // there is a violation already
			}
			rep, why := confirm(exe, p, tier, seed, n, idx)
			if rep != nil {
				reps = append(reps, rep)
			} else {
				incon = fmt.Sprintf("worker failed in case %d (%v, stalled=%v), but that case by itself: %s\n%s", idx, s.err, s.stalled, why, out)
			}
			continue
		}
		total.Evals += r.Evals
		total.Cases += r.Cases
		for k, v := range r.Feat {
			if strings.HasPrefix(k, "max ") {
				if v > total.Feat[k] {
					total.Feat[k] = v
				}
			} else {
				total.Feat[k] += v
			}
		}
		for _, k := range r.Keys {
			keys[k] = struct{}{}
		}
		for _, k := range r.Blocks {
			blocks[k] = struct{}{}
		}
		if r.Total > total.Total {
			total.Total = r.Total
		}
		total.Samples = append(total.Samples, r.Samples...)
		if r.Rep != nil {
			reps = append(reps, r.Rep)
		}
	}

	// Known findings are not violations, but reported as such
	known := knownFindings(p.ID)
	var viols []*report
	for _, r := range reps {
		if f := matchFinding(known, r); f != "" {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", p.ID, f)
		} else {
			viols = append(viols, r)
		}
	}
	writeEvidence(p, tier, seed, total, len(keys), blocks, len(viols), time.Since(start))
	if len(viols) > 0 {
		sort.Slice(viols, func(i, j int) bool { return len(viols[i].Source) < len(viols[j].Source) })
		for i, v := range viols {
			if i >= 3 {
				break
			}
			path := fmt.Sprintf("/verif/evidence/replay_%s_%d.json", p.ID, v.Index)
			if b, err := json.MarshalIndent(v, "", "  "); err == nil {
				_ = ioutil.WriteFile(path, append(b, '\n'), 0644)
			}
			src := v.Source
			if len(src) > 2000 {
				src = src[:2000] + "..."
			}
			msg := v.Message
			if len(msg) > 3000 {
				msg = msg[:3000] + "..."
			}
			fmt.Printf("-- case %d %s\n%s\n-- %s\n", v.Index, strings.Join(v.Info, " "), src, msg)
			fmt.Printf("VIOLATION property=%s replay=%s\n", p.ID, path)
		}
		os.RemoveAll(tmp)
		os.Exit(1)
	}
	if incon != "" {
		os.RemoveAll(tmp)
		inconclusive("property=%s %s", p.ID, incon)
	}
	fmt.Printf("OK property=%s tier=%s cases=%d evaluations=%d distinct=%d blocks=%d/%d wall=%.1fs\n", p.ID, tier, total.Cases, total.Evals, len(keys), len(blocks), total.Total, time.Since(start).Seconds())
}

// confirm runs one case in a process by itself. The result is a report if the case fails
func confirm(exe string, p *Prop, tier string, seed uint64, n, idx int) (*report, string) {
	cmd := exec.Command(exe, "one", p.ID, tier, strconv.FormatUint(seed, 10), strconv.Itoa(n), strconv.Itoa(idx))
	cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true, Pdeathsig: syscall.SIGKILL}
	f, err := ioutil.TempFile("/verif/build", "one")
	if err != nil {
		return nil, err.Error()
	}
	defer os.Remove(f.Name())
	defer f.Close()
	cmd.Stdout = f
	cmd.Stderr = f
	if err = cmd.Start(); err != nil {
		return nil, err.Error()
	}
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	killed := false
	select {
	case err = <-done:
	case <-time.After(3 * stallLimit):
		killed = true
		_ = syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL)
		err = <-done
	}
	out, _ := ioutil.ReadFile(f.Name())
	if err == nil {
		return nil, "passed"
	}
	rep := &report{Property: p.ID, Tier: tier, Seed: seed, Index: idx, Replay: fmt.Sprintf("cd /verif && VERIF_TIER=%s VERIF_SEED=%d ./run.sh %s %d", tier, seed, p.ID, idx)}
	if i := strings.Index(string(out), "REPORT "); i >= 0 {
		line := string(out[i+7:])
		if j := strings.IndexByte(line, '\n'); j >= 0 {
			line = line[:j]
		}
		if json.Unmarshal([]byte(line), rep) == nil {
			return rep, ""
		}
	}
	ps := cmd.ProcessState
	if ps != nil {
		cpu := ps.UserTime() + ps.SystemTime()
		ws, _ := ps.Sys().(syscall.WaitStatus)
		if ws.Signaled() && cpu > cpuLimit {
			rep.Message = fmt.Sprintf("the case doesn't end. It used %s of CPU time", cpu)
			return rep, ""
		}
		if killed {
			return nil, fmt.Sprintf("stalled after %s of CPU time", cpu)
		}
		if ws.Signaled() && ws.Signal() == syscall.SIGKILL {
			return nil, "killed"
		}
	}
	o := string(out)
	if len(o) > 3000 {
		o = o[:3000]
	}
	rep.Message = "the process that runs the case crashed: " + err.Error() + "\n" + o
	return rep, ""
}

func single(p *Prop, tier string, seed uint64, n, idx int) {
	limitMemory(p)
	lim := &syscall.Rlimit{Cur: uint64(cpuLimit/time.Second) + 5, Max: uint64(cpuLimit/time.Second) + 10}
	_ = syscall.Setrlimit(syscall.RLIMIT_CPU, lim)
	if p.Setup != nil {
		p.Setup(tier, seed)
	}
	rep := runCase(p, tier, seed, idx, n, newAcc())
	if rep != nil {
		b, _ := json.Marshal(rep)
		fmt.Printf("REPORT %s\n", b)
		fmt.Printf("-- %s\n%s\n-- %s\n", strings.Join(rep.Info, " "), rep.Source, rep.Message)
		os.Exit(1)
	}
}

func tail(path string, lines int) string {
	b, _ := ioutil.ReadFile(path)
	ls := strings.Split(string(b), "\n")
	if len(ls) > lines {
		ls = ls[:lines]
	}
	return strings.Join(ls, "\n")
}

// knownFindings returns the findings listed for the given property. A finding is a line
//
//	known: property=<id> match=<text that the message of the report contains> :: <what fails>
func knownFindings(id string) [][2]string {
	b, err := ioutil.ReadFile("/verif/known_findings.txt")
	if err != nil {
		return nil
	}
	var r [][2]string
	pfx := "known: property=" + id + " match="
	for _, l := range strings.Split(string(b), "\n") {
		if strings.HasPrefix(l, pfx) {
			l = l[len(pfx):]
			if i := strings.Index(l, " :: "); i > 0 {
				r = append(r, [2]string{l[:i], l[i+4:]})
			}
		}
	}
	return r
}

func matchFinding(known [][2]string, r *report) string {
	for _, k := range known {
		if strings.Contains(r.Message, k[0]) {
			return k[1]
		}
	}
	return ""
}

func writeEvidence(p *Prop, tier string, seed uint64, t workerResult, distinct int, blocks map[string]struct{}, viols int, wall time.Duration) {
	feats := map[string]int{}
	for k, v := range t.Feat {
		feats[k] = v
	}
	samples := []interface{}{}
	for i, s := range t.Samples {
		if i >= 6 {
			break
		}
		samples = append(samples, s)
	}
	cov := map[string]interface{}{
		"evaluations":         t.Evals,
		"cases":               t.Cases,
		"distinct_nontrivial": distinct,
		"rule":                p.Rule,
		"samples":             samples,
		"observed":            feats,
	}
	if t.Total > 0 {
		per := map[string]int{}
		for b := range blocks {
			per[b[:strings.IndexByte(b, ':')]]++
		}
		cov["code_blocks_executed"] = len(blocks)
		cov["code_blocks_total"] = t.Total
		cov["code_blocks_executed_per_file"] = per
	}
	if f := os.Getenv("VH_BLOCKS"); f != "" {
		// for finding code that no check reaches
		b := &strings.Builder{}
		for _, f := range counterFiles {
			for i := range f.count {
				k := f.file + ":" + strconv.Itoa(i)
				if _, ok := blocks[k]; ok {
					fmt.Fprintf(b, "+%s:%d\n", f.file, f.pos[3*i])
				} else {
					fmt.Fprintf(b, "-%s:%d\n", f.file, f.pos[3*i])
				}
			}
		}
		_ = ioutil.WriteFile(f+"."+p.ID, []byte(b.String()), 0644)
	}
	as := p.Assumptions
	if as == nil {
		as = []string{}
	}
	ev := map[string]interface{}{
		"property": p.ID, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov,
		"assumptions": as, "wall_s": wall.Seconds(), "violations": viols,
	}
	b, err := json.MarshalIndent(ev, "", " ")
	if err != nil {
		inconclusive("%s", err)
	}
	if err = ioutil.WriteFile("/verif/evidence/"+p.ID+".json", append(b, '\n'), 0644); err != nil {
		inconclusive("%s", err)
	}
}

func main() {
	a := os.Args[1:]
	if len(a) == 0 {
		fmt.Println("usage: vh run|worker|one ...")
		os.Exit(2)
	}
	raceEnv()
	atoi := func(s string) int {
		i, err := strconv.Atoi(s)
		if err != nil {
			inconclusive("%s", err)
		}
		return i
	}
	prop := func(s string) *Prop {
		p, ok := props[s]
		if !ok {
			inconclusive("no property %s", s)
		}
		return p
	}
	switch a[0] {
	case "run":
		tier := os.Getenv("VERIF_TIER")
		if tier == "" {
			tier = "quick"
		}
		seed := uint64(1)
		if s := os.Getenv("VERIF_SEED"); s != "" {
			v, err := strconv.ParseUint(s, 10, 64)
			if err != nil {
				v = hashID(s)
			}
			seed = v % (1 << 53)
		}
		p := prop(a[1])
		if len(a) > 2 {
			n := p.Quick
			if tier == "thorough" {
				n = p.Thorough
			}
			single(p, tier, seed, n, atoi(a[2]))
			fmt.Println("passed")
			return
		}
		run(p, tier, seed)
	case "worker":
		seed, _ := strconv.ParseUint(a[3], 10, 64)
		worker(prop(a[1]), a[2], seed, atoi(a[4]), atoi(a[5]), atoi(a[6]), a[7], a[8])
	case "one":
		seed, _ := strconv.ParseUint(a[3], 10, 64)
		single(prop(a[1]), a[2], seed, atoi(a[4]), atoi(a[5]))
	case "cases":
		// For debugging: prints the cases
		for i := 0; i < atoi(a[2]); i++ {
			c := newAcc()
			rep := runCase(prop(a[1]), "quick", 1, i, prop(a[1]).Quick, c)
			fmt.Printf("=== %d\n%s\n", i, c.Src)
			if rep != nil {
				fmt.Println("-- " + rep.Message)
			}
		}
	default:
		inconclusive("unknown command %s", a[0])
	}
}
