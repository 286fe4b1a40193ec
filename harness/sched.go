package main

import (
	"bytes"
	"fmt"
	"runtime"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	zz_vsync "zzverif/vsync"
)

// Controlled scheduler: the registered threads run one at a time; at every point (storage operation,
// lock operation, statement in instrumented builds, end of a request) the running thread decides by
// the prefix of choices which thread goes on. Explore enumerates all choice sequences up to a number
// of preemptions.

type tstate int

const (
	tReady    tstate = iota
	tWaiting         // until ready() holds
	tExternal        // blocked outside the scheduler's knowledge
	tDone
)

type thread struct {
	id    int
	goid  int64
	g     uintptr
	wake  chan struct{}
	state tstate
	ready func() bool
	what  string
}

type choice struct {
	chosen, n int
	what      string
	thread    int
}

type sched struct {
	mu       sync.Mutex
	threads  []*thread
	byG      map[uintptr]*thread
	cur      *thread // nil: nobody
	prefix   []int
	trace    []choice
	preempts int
	bound    int
	stmts    bool // preempt also at statements
	deep     bool // and at those of the parser, the utilities and the exported types
	steps    int64
	finished int
	dead     string
	done     chan struct{}
	clock    int64
	idle     int // how often in a row nothing could go on
}

var active atomic.Pointer[sched]

func init() {
	zz_vsync.Point = func(what string) bool {
		s := active.Load()
		return s != nil && s.point(what)
	}
	zz_vsync.Stmt = func() {
		if s := active.Load(); s != nil && s.stmts {
			s.point("stmt")
		}
	}
	zz_vsync.Deep = func() {
		if s := active.Load(); s != nil && s.deep {
			s.point("stmt")
		}
	}
	zz_vsync.Wait = func(ready func() bool) { active.Load().wait(ready) }
}

func goid() int64 {
	var buf [40]byte
	n := runtime.Stack(buf[:], false)
	f := buf[len("goroutine "):n]
	if i := bytes.IndexByte(f, ' '); i > 0 {
		id, _ := strconv.ParseInt(string(f[:i]), 10, 64)
		return id
	}
	return -1
}

// me is the calling thread, or nil
func (s *sched) me() *thread {
	return s.byG[zz_vsync.G()]
}

// runnable lists the threads which may go on, the current one first
func (s *sched) runnable() []*thread {
	var out []*thread
	ok := func(t *thread) bool {
		switch t.state {
		case tReady:
			return true
		case tWaiting:
			return t.ready()
		}
		return false
	}
	if s.cur != nil && ok(s.cur) {
		out = append(out, s.cur)
	}
	for _, t := range s.threads {
		if t != s.cur && ok(t) {
			out = append(out, t)
		}
	}
	return out
}

// pick chooses the next thread; free: a switch is not a preemption. Called with mu held.
func (s *sched) pick(free bool, what string) *thread {
	s.steps++
	list := s.runnable()
	if len(list) == 0 {
		return nil
	}
	curOK := list[0] == s.cur
	if curOK && !free && s.preempts >= s.bound {
		return s.cur
	}
	i := 0
	if len(list) > 1 {
		k := len(s.trace)
		if k < len(s.prefix) {
			i = s.prefix[k]
			if i >= len(list) {
				i = 0
			}
		}
		id := -1
		if s.cur != nil {
			id = s.cur.id
		}
		s.trace = append(s.trace, choice{i, len(list), what, id})
	}
	t := list[i]
	if curOK && t != s.cur && !free {
		s.preempts++
	}
	return t
}

// switchTo hands over to t; the caller (if it is a thread) sleeps until it is chosen again. Called with mu held; returns without it.
func (s *sched) switchTo(t, caller *thread) {
	if t != nil {
		if t.state == tWaiting {
			t.state, t.ready = tReady, nil
		}
		s.cur = t
		if t == caller {
			s.mu.Unlock()
			return
		}
		t.wake <- struct{}{} // buffered
	} else {
		s.cur = nil
	}
	s.mu.Unlock()
	if caller != nil {
		<-caller.wake
	}
}

func (s *sched) point(what string) bool { return s.at(what, false) }

func (s *sched) at(what string, free bool) bool {
	s.mu.Lock()
	t := s.me()
	if t == nil || t.state == tDone {
		s.mu.Unlock()
		return false
	}
	if s.dead != "" {
		s.mu.Unlock()
		select {} // the execution was given up
	}
	t.what = what
	if t != s.cur {
		// was blocked elsewhere and came back
		t.state = tReady
		s.steps++
		if s.cur == nil {
			s.switchTo(s.pick(true, what), t)
		} else {
			s.mu.Unlock()
			<-t.wake
		}
		return true
	}
	s.switchTo(s.pick(free, what), t)
	return true
}

func (s *sched) wait(ready func() bool) {
	s.mu.Lock()
	t := s.me()
	t.state, t.ready = tWaiting, ready
	if t != s.cur {
		if s.cur == nil {
			s.switchTo(s.pick(true, "wait"), t)
		} else {
			s.mu.Unlock()
			<-t.wake
		}
		return
	}
	s.switchTo(s.pick(true, "wait"), t)
}

func (s *sched) finish(t *thread) {
	s.mu.Lock()
	t.state = tDone
	s.finished++
	s.steps++
	if s.finished == len(s.threads) {
		close(s.done)
		s.cur = nil
		s.mu.Unlock()
		return
	}
	if s.cur == t {
		s.switchTo(s.pick(true, "end"), nil)
		return
	}
	s.mu.Unlock()
}

// supervise is called when nothing happened for a while
func (s *sched) supervise(idle time.Duration) {
	s.mu.Lock()
	before := s.steps
	s.mu.Unlock()
	buf := make([]byte, 1<<18)
	buf = buf[:runtime.Stack(buf, true)]
	s.mu.Lock()
	defer s.mu.Unlock()
	if s.steps != before || s.finished == len(s.threads) {
		return // the stacks show an earlier moment
	}
	gs := map[int64]string{}
	mine := map[int64]bool{}
	for _, t := range s.threads {
		mine[t.goid] = true
	}
	self := goid()
	busy, sleeping := false, false
	for _, g := range strings.Split(string(buf), "\n\n") {
		if !strings.HasPrefix(g, "goroutine ") {
			continue
		}
		h := g[len("goroutine "):]
		i := strings.IndexByte(h, ' ')
		j := strings.IndexByte(h, ']')
		if i < 0 || j < i+2 {
			continue
		}
		id, _ := strconv.ParseInt(h[:i], 10, 64)
		st := h[i+2 : j]
		if k := strings.IndexByte(st, ','); k >= 0 {
			st = st[:k]
		}
		gs[id] = st
		if ok := mine[id]; ok || id == self {
			if st == "sleep" && ok && !strings.Contains(g, "zz_vsync") {
				sleeping = true
			}
			if ok && (st == "running" || st == "runnable") {
				busy = true
			}
			continue
		}
		switch st {
		case "running", "runnable":
			busy = true
		case "sleep":
			if strings.Contains(g, "sourcenetwork/zanzi") {
				sleeping = true
			}
		}
	}
	if busy {
		return
	}
	if s.cur != nil {
		st := gs[s.cur.goid]
		if st == "running" || st == "runnable" || st == "syscall" || st == "" {
			return
		}
		// the current thread is blocked by something else
		s.cur.state = tExternal
		s.cur = nil
	}
	if t := s.pick(true, "external"); t != nil {
		if t.state == tWaiting {
			t.state, t.ready = tReady, nil
		}
		s.cur = t
		t.wake <- struct{}{}
		return
	}
	if s.idle++; sleeping || idle < 2*time.Second || s.idle < 200 {
		return
	}
	var d []string
	for _, t := range s.threads {
		if t.state != tDone {
			d = append(d, fmt.Sprintf("client %d is blocked (%s, last seen at %s)", t.id, gs[t.goid], t.what))
		}
	}
	s.dead = strings.Join(d, "\n") + "\n" + wedgeStacks(string(buf))
}

// execution is one explored schedule
type execution struct {
	trace []choice
	dead  string
	panic string
	steps int64
}

func (x *execution) String() string {
	var b strings.Builder
	for i, c := range x.trace {
		if c.chosen != 0 {
			fmt.Fprintf(&b, "choice %d: client %d at %s, switch to alternative %d of %d\n", i, c.thread, c.what, c.chosen, c.n)
		}
	}
	return b.String()
}

// runSched executes the bodies under one schedule. end is called by a body between requests.
func runSched(prefix []int, bound int, stmts, deep bool, bodies []func(s *sched)) *execution {
	s := &sched{prefix: prefix, bound: bound, stmts: stmts, deep: deep, byG: map[uintptr]*thread{}, done: make(chan struct{})}
	reg := make(chan struct{})
	var pmu sync.Mutex
	x := &execution{}
	for i := range bodies {
		t := &thread{id: i, wake: make(chan struct{}, 1)}
		s.threads = append(s.threads, t)
		go func() {
			t.goid, t.g = goid(), zz_vsync.G()
			reg <- struct{}{}
			<-t.wake
			defer s.finish(t)
			if err := protect(func() error { bodies[t.id](s); return nil }); err != nil {
				pmu.Lock()
				x.panic = fmt.Sprintf("client %d: %v", t.id, err)
				pmu.Unlock()
			}
		}()
		<-reg
		s.byG[t.g] = t
	}
	active.Store(s)
	s.mu.Lock()
	s.switchTo(s.pick(true, "start"), nil)
	var last int64 = -1
	since, ticks := time.Now(), 0
	tick := time.NewTimer(2 * time.Millisecond)
	defer tick.Stop()
loop:
	for {
		select {
		case <-s.done:
			break loop
		case <-tick.C:
			s.mu.Lock()
			n := s.steps
			s.mu.Unlock()
			if n != last {
				last, since, ticks, s.idle = n, time.Now(), 0, 0
			} else {
				ticks++
				s.supervise(time.Since(since))
				if s.dead != "" {
					break loop
				}
				if time.Since(since) > 60*time.Second && ticks > 2000 {
					s.dead = "no progress for 60 s"
					break loop
				}
			}
			tick.Reset(2 * time.Millisecond)
		}
	}
	active.Store(nil)
	s.mu.Lock()
	x.trace, x.dead, x.steps = s.trace, s.dead, s.steps
	s.mu.Unlock()
	return x
}

func (s *sched) now() int64 { return atomic.AddInt64(&s.clock, 1) }

// explore runs all schedules up to the preemption bound
func explore(run func(prefix []int) (*execution, error)) error {
	var prefix []int
	for {
		x, err := run(prefix)
		if err != nil {
			return fmt.Errorf("%w\nschedule:\n%s", err, x)
		}
		i := len(x.trace) - 1
		for ; i >= 0; i-- {
			if x.trace[i].chosen+1 < x.trace[i].n {
				break
			}
		}
		if i < 0 {
			return nil
		}
		np := make([]int, i+1)
		for j := 0; j < i; j++ {
			np[j] = x.trace[j].chosen
		}
		np[i] = x.trace[i].chosen + 1
		prefix = np
	}
}

// ---- linearizability ----

type call_ struct {
	op         Op
	got        string
	err        error
	start, end int64
}

// program is a set of clients with their requests, on a base state
type program struct {
	name    string
	kv      *SpyKV
	w       World
	clients [][]Op
	obs     []Op // observed at the end
	light   []Op // observed at the end if the store has contents already observed
	deep    bool // schedule at the statements of the parser, the utilities and the exported types
	onlyEnd bool // judge only that all requests end
	lockIt  bool // the store locks like the bundled memory store does with a full iterator buffer
}

func (p *program) String() string {
	var b strings.Builder
	fmt.Fprintf(&b, "base %s\n", p.name)
	for i, c := range p.clients {
		fmt.Fprintf(&b, "client %d:", i)
		for _, o := range c {
			fmt.Fprintf(&b, " %v;", o)
		}
		b.WriteString("\n")
	}
	return b.String()
}

// seqMemo answers of the implementation to requests the model does not specify in full, run alone
var seqMemo = map[string]string{}

func sequential(w World, o Op) string {
	k := w.Key() + "\x00" + o.String()
	if r, ok := seqMemo[k]; ok {
		return r
	}
	s := NewSys(NewSpyKV())
	for _, ps := range w {
		Op{K: KCreate, Pol: ps.Pol, Data: ps.Data}.Run(s)
		for _, t := range sortedTups(ps.Rels) {
			Op{K: KSet, Pid: ps.Pol.ID, T: t, Data: ps.Rels[t]}.Run(s)
		}
	}
	r := o.Run(s)
	if len(seqMemo) > 20000 {
		seqMemo = map[string]string{}
	}
	seqMemo[k] = r
	return r
}

func answers(w World, o Op) []string {
	if o.K == KExplain || o.K == KExpand {
		return []string{sequential(w, o)}
	}
	return w.Apply(o)
}

// linearizable searches an order of the calls which explains all answers and the final state
func linearizable(w World, calls []*call_, final []*call_) bool {
	if len(calls) == 0 {
		w = w.Clone()
		for _, f := range final {
			if !accepts(answers(w, f.op), f.got) {
				return false
			}
		}
		return true
	}
	for i, c := range calls {
		first := true
		for _, d := range calls {
			if d.end < c.start {
				first = false
				break
			}
		}
		if !first {
			continue
		}
		w2 := w.Clone()
		if !accepts(answers(w2, c.op), c.got) {
			continue
		}
		rest := make([]*call_, 0, len(calls)-1)
		rest = append(append(rest, calls[:i]...), calls[i+1:]...)
		if linearizable(w2, rest, final) {
			return true
		}
	}
	return false
}

// decide explores all schedules of a program
func (p *program) decide(c *Ctx, bound int, stmts bool) error {
	seen, dumps := map[string]bool{}, map[string]bool{}
	n := 0
	err := explore(func(prefix []int) (*execution, error) {
		kv := p.kv.Clone()
		if p.lockIt {
			kv.Mtx = &zz_vsync.RWMutex{}
		}
		s := NewSys(kv)
		kv.Point = func(op string) { zz_vsync.Point("storage " + op) }
		var calls []*call_
		var bodies []func(*sched)
		for i, ops := range p.clients {
			mine := make([]*call_, len(ops))
			for j, o := range ops {
				mine[j] = &call_{op: o}
				calls = append(calls, mine[j])
			}
			_ = i
			bodies = append(bodies, func(sc *sched) {
				for j, k := range mine {
					if j > 0 {
						sc.at("next request", true)
					}
					k.start = sc.now()
					k.got, k.err = k.op.RunErr(s)
					k.end = sc.now()
				}
			})
		}
		c.tick++
		n++
		if n%64 == 0 {
			c.writeJournal()
		}
		x := runSched(prefix, bound, stmts, p.deep, bodies)
		c.Traces++
		c.Transitions += x.steps
		if x.dead != "" {
			return x, fmt.Errorf("the clients block each other:\n%s", x.dead)
		}
		if p.onlyEnd {
			c.Evaluations++
			if len(x.trace) > 0 {
				c.Nontrivial++
			}
			return x, nil
		}
		if x.panic != "" {
			return x, fmt.Errorf("%s", x.panic)
		}
		kv.Point, kv.Mtx = nil, nil
		// the final state, judged once for every distinct outcome
		var key strings.Builder
		var final []*call_
		dump := kv.Dump()
		obs := p.obs
		if dumps[dump] {
			obs = p.light // the store is as in an earlier schedule: look only for what an instance may keep in memory
		}
		dumps[dump] = true
		for _, o := range obs {
			final = append(final, &call_{op: o, got: o.Run(s)})
		}
		order := 0
		for _, a := range calls {
			for _, b := range calls {
				order <<= 1
				if a.end < b.start {
					order |= 1
				}
			}
		}
		fmt.Fprintf(&key, "%d", order)
		for _, k := range calls {
			key.WriteString("\x00" + k.got)
		}
		for _, k := range final {
			key.WriteString("\x00" + k.got)
		}
		if seen[key.String()] {
			return x, nil
		}
		seen[key.String()] = true
		c.State(p.String() + key.String())
		c.Evaluations++
		if len(x.trace) > 0 {
			c.Nontrivial++
		}
		if !linearizable(p.w, calls, final) {
			var b strings.Builder
			for _, k := range append(append([]*call_{}, calls...), final...) {
				fmt.Fprintf(&b, "[%d,%d] %v -> %s (error: %v)\n", k.start, k.end, k.op, show(k.got), k.err)
			}
			return x, fmt.Errorf("no order of the requests explains these answers:\n%s", b.String())
		}
		return x, nil
	})
	c.Outcome(fmt.Sprintf("%d outcomes", len(seen)))
	return err
}
