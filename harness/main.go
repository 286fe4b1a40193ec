// Command zz_verif is the model checker of /verif: it enumerates bounded spaces of executions of the
// code in /repo and compares each with a reference model. See /verif/DESIGN.md.
package main

import (
	"bufio"
	"bytes"
	"encoding/binary"
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"runtime/pprof"
	"sort"
	"strings"
	"sync"
	"syscall"
	"time"
)

// Check decides one property
type Check struct {
	ID     string
	Level  string
	Rule   string   // how cases are made, what makes one non-trivial
	Bound  []string // the bounds that were explored, quick tier
	Assum  []string
	Serial bool // one worker only
	Run    func(c *Ctx)
}

var checks = map[string]*Check{}

func register(c *Check) { checks[c.ID] = c }

// Ctx is the context of one worker: it owns the cases idx with idx % n == shard
type Ctx struct {
	Thorough bool
	Dir      string // scratch directory of this worker
	n, shard int64
	only     int64 // if >= 0, only this case
	from     int64
	upto     int64
	idx      int64
	cur      int64
	deadline time.Time
	journal  *os.File
	tick     int64
	inst     bool

	Stats
	hashes map[uint64]struct{}
}

type Stats struct {
	Cases       int64
	Transitions int64
	Traces      int64
	Evaluations int64
	Nontrivial  int64
	Incomplete  string
	Outcomes    map[string]int64
	Samples     []string
	Bounds      map[string]string
	Viol        *Viol
}

type Viol struct {
	Idx    int64
	Case   string
	Detail string
}

func (c *Ctx) Tick() {
	c.tick++
	c.writeJournal()
}

func (c *Ctx) writeJournal() {
	if c.journal == nil {
		return
	}
	var b [16]byte
	binary.LittleEndian.PutUint64(b[:8], uint64(c.cur))
	binary.LittleEndian.PutUint64(b[8:], uint64(c.tick))
	c.journal.WriteAt(b[:], 0)
}

// State records a distinct model state
func (c *Ctx) State(key string) {
	h := fnv.New64a()
	h.Write([]byte(key))
	c.hashes[h.Sum64()] = struct{}{}
}

func (c *Ctx) Outcome(s string) { c.Outcomes[s]++ }

func (c *Ctx) Sample(f string, a ...any) {
	if len(c.Samples) < 2 {
		s := fmt.Sprintf(f, a...)
		if len(s) > 3000 {
			s = s[:3000] + "..."
		}
		c.Samples = append(c.Samples, s)
	}
}

func (c *Ctx) Bounds_(k, f string, a ...any) { c.Bounds[k] = fmt.Sprintf(f, a...) }

// Stop tells whether this worker should stop enumerating
func (c *Ctx) Stop() bool {
	if c.Viol != nil || c.Incomplete != "" {
		return true
	}
	if c.idx > c.upto {
		return true
	}
	return false
}

// Mine tells whether the next case belongs to this worker, and claims it
func (c *Ctx) Case(name func() string, f func() error) {
	i := c.idx
	c.idx++
	if c.Stop() {
		return
	}
	if c.only >= 0 {
		if i != c.only {
			return
		}
	} else if i%c.n != c.shard || i < c.from || i > c.upto {
		return
	}
	if time.Now().After(c.deadline) {
		c.Incomplete = fmt.Sprintf("time budget spent before case %d", i)
		return
	}
	c.cur = i // the journal names the running case
	c.Tick()
	c.Cases++
	err := protect(f)
	if err != nil {
		c.Viol = &Viol{Idx: i, Case: name(), Detail: err.Error()}
	} else if len(c.Samples) == 0 {
		c.Sample("case %d: %s", i, name())
	}
}

// protect turns panics into errors
func protect(f func() error) (err error) {
	defer func() {
		if r := recover(); r != nil {
			if inf, ok := r.(infra); ok {
				panic(inf)
			}
			err = fmt.Errorf("panic: %v\n%s", r, trimStack(debug.Stack()))
		}
	}()
	return f()
}

// infra is a failure of the harness' environment, not of the code under test
type infra struct{ msg string }

func trimStack(b []byte) string {
	lines := strings.Split(string(b), "\n")
	if len(lines) > 40 {
		lines = lines[:40]
	}
	return strings.Join(lines, "\n")
}

func main() {
	mode := flag.String("mode", "run", "run | worker | replay")
	prop := flag.String("prop", "", "property")
	tier := flag.String("tier", "quick", "tier")
	seed := flag.Int("seed", 1, "seed (recorded only: nothing is random)")
	evDir := flag.String("evidence", "", "evidence directory")
	scratch := flag.String("scratch", "", "scratch directory")
	shard := flag.Int64("shard", 0, "")
	n := flag.Int64("n", 8, "workers")
	only := flag.Int64("only", -1, "")
	from := flag.Int64("from", 0, "")
	upto := flag.Int64("upto", 1<<62, "")
	budget := flag.Int("budget", 0, "seconds")
	out := flag.String("out", "", "worker output")
	replay := flag.String("replay", "", "replay file")
	inst := flag.Bool("inst", false, "built with instrumentation")
	flag.Parse()

	if *replay != "" {
		b, err := os.ReadFile(*replay)
		if err != nil {
			fmt.Println(err)
			os.Exit(2)
		}
		var r replayFile
		if err := json.Unmarshal(b, &r); err != nil {
			fmt.Println(err)
			os.Exit(2)
		}
		*prop, *tier = r.Property, r.Tier
		p := &parent{ck: checks[r.Property], tier: r.Tier, scratch: *scratch, inst: *inst, budget: 1800}
		res := p.alone(r.CaseIndex, 600*time.Second)
		fmt.Printf("case %d: %s\n%s\n", r.CaseIndex, res.kind, res.detail)
		if res.kind != "ok" {
			fmt.Printf("VIOLATION property=%s replay=%s\n", r.Property, *replay)
			os.Exit(1)
		}
		return
	}

	ck := checks[*prop]
	if ck == nil {
		fmt.Println("unknown property", *prop)
		os.Exit(2)
	}
	if *mode == "worker" {
		worker(ck, *tier, *scratch, *shard, *n, *only, *from, *upto, *budget, *out, *inst)
		return
	}
	b := *budget
	if b == 0 {
		b = 500
		if *tier == "thorough" {
			b = 5400
		}
	}
	p := &parent{ck: ck, tier: *tier, seed: *seed, scratch: *scratch, evDir: *evDir, n: *n, budget: b, inst: *inst}
	if ck.Serial {
		p.n = 1
	}
	os.Exit(p.run())
}

func worker(ck *Check, tier, dir string, shard, n, only, from, upto int64, budget int, out string, inst bool) {
	debug.SetMaxStack(512 << 20)
	// raccoondb prints keys
	if null, err := os.OpenFile(os.DevNull, os.O_WRONLY, 0); err == nil {
		os.Stdout = null
	}
	runtime.GOMAXPROCS(2)
	if ck.Serial {
		runtime.GOMAXPROCS(8)
	}
	debug.SetGCPercent(400)
	c := &Ctx{Thorough: tier == "thorough", Dir: dir, n: n, shard: shard, only: only, from: from, upto: upto, inst: inst,
		deadline: time.Now().Add(time.Duration(budget) * time.Second), hashes: map[uint64]struct{}{}}
	c.Outcomes = map[string]int64{}
	c.Bounds = map[string]string{}
	var err error
	c.journal, err = os.Create(filepath.Join(dir, "journal"))
	if err != nil {
		panic(err)
	}
	c.writeJournal()
	if f := os.Getenv("VERIF_CPUPROFILE"); f != "" {
		pf, _ := os.Create(f)
		pprof.StartCPUProfile(pf)
		defer pprof.StopCPUProfile()
	}
	ck.Run(c)
	b, _ := json.Marshal(&c.Stats)
	if err := os.WriteFile(out, b, 0o644); err != nil {
		panic(err)
	}
	hf, _ := os.Create(out + ".hashes")
	w := bufio.NewWriter(hf)
	for h := range c.hashes {
		binary.Write(w, binary.LittleEndian, h)
	}
	w.Flush()
	hf.Close()
}

// ---- parent ----

type parent struct {
	ck      *Check
	tier    string
	seed    int
	scratch string
	evDir   string
	n       int64
	budget  int
	inst    bool
	seq     int
	mu      sync.Mutex
	stop    chan struct{}
	once    sync.Once
	maxRSS  int64
}

type result struct {
	kind   string // ok, error, crash, hang
	detail string
	idx    int64
	stats  *Stats
	hashes []uint64
}

type replayFile struct {
	Property   string `json:"property"`
	Tier       string `json:"tier"`
	CaseIndex  int64  `json:"case_index"`
	Case       string `json:"case"`
	Kind       string `json:"kind"`
	Detail     string `json:"detail"`
	Reproduced string `json:"reproduced"`
	Command    string `json:"command"`
}

// spawn runs one worker process to its end
func (p *parent) spawn(shard, n, only, from, upto int64, hang time.Duration, budget int) result {
	p.mu.Lock()
	p.seq++
	dir := filepath.Join(p.scratch, fmt.Sprintf("w%d", p.seq))
	p.mu.Unlock()
	os.MkdirAll(dir, 0o755)
	defer os.RemoveAll(dir)
	out := filepath.Join(dir, "out.json")
	args := []string{"-mode", "worker", "-prop", p.ck.ID, "-tier", p.tier, "-scratch", dir,
		"-shard", fmt.Sprint(shard), "-n", fmt.Sprint(n), "-only", fmt.Sprint(only), "-from", fmt.Sprint(from), "-upto", fmt.Sprint(upto),
		"-budget", fmt.Sprint(budget), "-out", out, fmt.Sprintf("-inst=%v", p.inst)}
	cmd := exec.Command("/proc/self/exe", args...)
	cmd.Args[0] = "zz_verif"
	errFile, _ := os.Create(filepath.Join(dir, "stderr"))
	cmd.Stderr = errFile
	cmd.Stdout = errFile
	cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL, Setpgid: true}
	runtime.LockOSThread() // Pdeathsig is tied to the thread
	defer runtime.UnlockOSThread()
	if err := cmd.Start(); err != nil {
		return result{kind: "infra", detail: err.Error()}
	}
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	var last [16]byte
	lastChange := time.Now()
	idx := int64(-1)
	readJournal := func() {
		b, err := os.ReadFile(filepath.Join(dir, "journal"))
		if err == nil && len(b) == 16 {
			idx = int64(binary.LittleEndian.Uint64(b[:8]))
			if !bytes.Equal(b, last[:]) {
				copy(last[:], b)
				lastChange = time.Now()
			}
		}
	}
	tailErr := func() string {
		b, _ := os.ReadFile(filepath.Join(dir, "stderr"))
		if len(b) > 6000 {
			b = append(append([]byte{}, b[:3000]...), b[len(b)-3000:]...)
		}
		return string(b)
	}
	kill := func() {
		syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL)
	}
	t := time.NewTicker(200 * time.Millisecond)
	defer t.Stop()
	for {
		select {
		case err := <-done:
			readJournal()
			if err != nil {
				d := tailErr()
				if strings.Contains(d, "main.infra") {
					return result{kind: "infra", detail: d, idx: idx}
				}
				return result{kind: "crash", detail: fmt.Sprintf("worker ended: %v\n%s", err, d), idx: idx}
			}
			b, err := os.ReadFile(out)
			st := &Stats{}
			if err == nil {
				err = json.Unmarshal(b, st)
			}
			if err != nil {
				return result{kind: "infra", detail: fmt.Sprint(err), idx: idx}
			}
			r := result{kind: "ok", stats: st}
			hb, _ := os.ReadFile(out + ".hashes")
			for len(hb) >= 8 {
				r.hashes = append(r.hashes, binary.LittleEndian.Uint64(hb))
				hb = hb[8:]
			}
			if st.Viol != nil {
				r.kind, r.idx, r.detail = "error", st.Viol.Idx, st.Viol.Detail
			}
			return r
		case <-p.stop:
			kill()
			<-done
			return result{kind: "stopped"}
		case <-t.C:
			readJournal()
			// a worker which takes all the memory would have others killed
			if m := rss(cmd.Process.Pid); m > memLimit && p.tier == "quick" {
				kill()
				<-done
				return result{kind: "crash", idx: idx, detail: fmt.Sprintf("the process took %d MiB of memory", m>>20)}
			} else {
				p.mu.Lock()
				p.maxRSS = max(p.maxRSS, m)
				p.mu.Unlock()
			}
			if time.Since(lastChange) > hang {
				// ask the runtime for the stacks, then end it
				syscall.Kill(-cmd.Process.Pid, syscall.SIGQUIT)
				select {
				case <-done:
				case <-time.After(10 * time.Second):
					kill()
					<-done
				}
				return result{kind: "hang", idx: idx, detail: fmt.Sprintf("no progress for %v\n%s", hang, tailErr())}
			}
		}
	}
}

const memLimit = 8 << 30 // on the unchanged tree at most 3 GiB (long chains, C02)

func rss(pid int) int64 {
	b, _ := os.ReadFile(fmt.Sprintf("/proc/%d/statm", pid))
	var size, res int64
	fmt.Sscan(string(b), &size, &res)
	return res * int64(os.Getpagesize())
}

// alone runs a single case in a fresh process
func (p *parent) alone(idx int64, hang time.Duration) result {
	return p.spawn(0, 1, idx, 0, 1<<62, hang, 3600)
}

func (p *parent) run() int {
	start := time.Now()
	p.stop = make(chan struct{})
	type shardRes struct {
		shard int64
		rs    []result
		viol  *result
	}
	total := Stats{Outcomes: map[string]int64{}, Bounds: map[string]string{}}
	hashes := map[uint64]struct{}{}
	var incomplete []string
	var violation *result
	var reproduced string
	var infraMsg string
	results := make(chan shardRes, p.n)
	deadline := start.Add(time.Duration(p.budget) * time.Second)
	for s := int64(0); s < p.n; s++ {
		go func(s int64) {
			sr := shardRes{shard: s}
			from := int64(0)
			for try := 0; ; try++ {
				left := int(time.Until(deadline).Seconds())
				if left < 1 {
					left = 1
				}
				r := p.spawn(s, p.n, -1, from, 1<<62, 40*time.Second, left)
				sr.rs = append(sr.rs, r)
				if r.kind == "ok" || r.kind == "stopped" {
					break
				}
				if r.kind == "error" {
					sr.viol = &r
					break
				}
				if r.kind == "infra" {
					if try < 2 {
						time.Sleep(time.Second)
						continue
					}
					break
				}
				// crash or hang: confirm alone
				a := p.alone(r.idx, 150*time.Second)
				if a.kind == "stopped" {
					break
				}
				if a.kind == "error" || a.kind == "crash" || a.kind == "hang" {
					a.idx = r.idx
					a.kind = a.kind + " (confirmed alone)"
					if a.detail == "" {
						a.detail = r.detail
					}
					sr.viol = &a
					break
				}
				if r.kind == "crash" && (strings.Contains(r.detail, "fatal error:") && !strings.Contains(r.detail, "out of memory") || strings.Contains(r.detail, "panic:")) {
					// a crash of the code under test which depends on the history of the process
					b := p.spawn(s, p.n, -1, from, r.idx, 150*time.Second, 3600)
					if b.kind == "crash" {
						r.kind = "crash (repeated with the preceding cases)"
					} else {
						r.kind = "crash (not repeated)"
					}
					sr.viol = &r
					break
				}
				// not confirmed: go on after it
				from = r.idx + 1
				if try > 20 {
					break
				}
			}
			if sr.viol != nil {
				p.once.Do(func() { close(p.stop) })
			}
			results <- sr
		}(s)
	}
	for s := int64(0); s < p.n; s++ {
		sr := <-results
		for _, r := range sr.rs {
			if r.kind == "infra" {
				infraMsg = r.detail
			}
			if r.kind == "hang" || r.kind == "crash" {
				incomplete = append(incomplete, fmt.Sprintf("case %d: %s, not confirmed when run alone", r.idx, r.kind))
			}
			if r.stats == nil {
				continue
			}
			if r.stats.Incomplete != "" {
				incomplete = append(incomplete, r.stats.Incomplete)
			}
			total.Cases += r.stats.Cases
			total.Transitions += r.stats.Transitions
			total.Traces += r.stats.Traces
			total.Evaluations += r.stats.Evaluations
			total.Nontrivial += r.stats.Nontrivial
			for k, v := range r.stats.Outcomes {
				total.Outcomes[k] += v
			}
			for k, v := range r.stats.Bounds {
				total.Bounds[k] = v
			}
			if len(total.Samples) < 4 {
				total.Samples = append(total.Samples, r.stats.Samples...)
			}
			for _, h := range r.hashes {
				hashes[h] = struct{}{}
			}
		}
		if sr.viol != nil && (violation == nil || sr.viol.idx < violation.idx) {
			violation = sr.viol
			if sr.viol.stats != nil && sr.viol.stats.Viol != nil {
				total.Viol = sr.viol.stats.Viol
			} else {
				total.Viol = &Viol{Idx: sr.viol.idx, Case: "see detail", Detail: sr.viol.detail}
			}
		}
	}
	replayPath := ""
	if violation != nil {
		p.stop = nil
		rep := 0
		const tries = 5
		for i := 0; i < tries; i++ {
			a := p.alone(violation.idx, 150*time.Second)
			if a.kind == "error" || a.kind == "crash" || a.kind == "hang" {
				rep++
				if a.stats != nil && a.stats.Viol != nil {
					total.Viol = a.stats.Viol
				}
			}
			if strings.HasPrefix(violation.kind, "hang") {
				rep = 1
				break
			}
		}
		reproduced = fmt.Sprintf("%d of %d reruns of the case alone", rep, tries)
		os.MkdirAll(filepath.Join(p.evDir, "replay"), 0o755)
		replayPath = filepath.Join(p.evDir, "replay", fmt.Sprintf("%s-%s-%d.json", p.ck.ID, p.tier, violation.idx))
		rf := replayFile{Property: p.ck.ID, Tier: p.tier, CaseIndex: violation.idx, Case: total.Viol.Case, Kind: violation.kind,
			Detail: total.Viol.Detail, Reproduced: reproduced, Command: fmt.Sprintf("./check.sh %s --replay %s", p.ck.ID, replayPath)}
		b, _ := json.MarshalIndent(rf, "", " ")
		os.WriteFile(replayPath, b, 0o644)
	}

	if total.Samples == nil {
		total.Samples = []string{}
	}
	sort.Strings(incomplete)
	cov := map[string]any{
		"exhaustive":                    len(incomplete) == 0 && infraMsg == "" && violation == nil,
		"cases":                         total.Cases,
		"states":                        len(hashes),
		"transitions":                   total.Transitions,
		"traces_validated_against_impl": total.Traces,
		"evaluations":                   total.Evaluations,
		"distinct_nontrivial":           total.Nontrivial,
		"distinct_outcomes":             len(total.Outcomes),
		"outcomes":                      topOutcomes(total.Outcomes),
		"rule":                          p.ck.Rule,
		"bounds":                        total.Bounds,
		"samples":                       total.Samples,
	}
	if len(incomplete) > 0 {
		cov["incomplete"] = incomplete
	}
	nv := 0
	if violation != nil {
		nv = 1
		cov["violation_replay"] = replayPath
	}
	ev := map[string]any{
		"property": p.ck.ID, "tier": p.tier, "seed": p.seed, "level": p.ck.Level, "coverage": cov,
		"assumptions": p.ck.Assum, "wall_s": time.Since(start).Seconds(), "violations": nv,
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	if p.evDir != "" {
		os.MkdirAll(p.evDir, 0o755)
		os.WriteFile(filepath.Join(p.evDir, p.ck.ID+".json"), append(b, '\n'), 0o644)
	}
	fmt.Printf("%s %s: cases=%d states=%d transitions=%d traces=%d evaluations=%d nontrivial=%d outcomes=%d incomplete=%d wall=%.1fs mem=%dMiB\n",
		p.ck.ID, p.tier, total.Cases, len(hashes), total.Transitions, total.Traces, total.Evaluations, total.Nontrivial, len(total.Outcomes), len(incomplete), time.Since(start).Seconds(), p.maxRSS>>20)
	if violation != nil {
		fmt.Printf("case %d: %s\n%s\n%s\nreproduced: %s\n", violation.idx, violation.kind, total.Viol.Case, total.Viol.Detail, reproduced)
		fmt.Printf("VIOLATION property=%s replay=%s\n", p.ck.ID, replayPath)
		return 1
	}
	if infraMsg != "" {
		fmt.Println("environment failure:", infraMsg)
		return 2
	}
	for i, s := range incomplete {
		if i < 4 {
			fmt.Println("incomplete:", s)
		}
	}
	return 0
}

func topOutcomes(m map[string]int64) map[string]int64 {
	out := map[string]int64{}
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Slice(ks, func(i, j int) bool { return m[ks[i]] > m[ks[j]] })
	for i, k := range ks {
		if i >= 20 {
			break
		}
		kk := k
		if len(kk) > 100 {
			kk = kk[:100]
		}
		out[kk] += m[k]
	}
	return out
}
