package main

import (
	"context"
	"errors"
	"fmt"
	"strings"

	"github.com/sourcenetwork/zanzi/pkg/api"
)

func init() {
	register(&Check{ID: "C16", Level: "model_checking",
		Rule:  "every prefix of the storage writes of every write request in every base state is turned into a crashed store; a new instance on it is observed, the request is repeated (itself crashed at every write in the nested exploration), the policy is deleted and created again; compared with the reference model. Non-trivial: the prefix is neither empty nor complete.",
		Assum: []string{"a single storage write is atomic and writes reach the store in program order (process crash)", "flags and counts of a repeated request are not compared", "while a deletion is interrupted, listings may still show relationships it addressed"},
		Run:   runC16})
	register(&Check{ID: "C17", Level: "model_checking",
		Rule:  "every request in every base state is run with each of its storage operations failing (once; from then on; after having taken effect; pairs of failing operations), including iterator creation, step, end and close; the response must be an error or the fault-free response with its effect, everything not addressed must be unchanged, and repetition without fault must have the normal effect. Non-trivial: the fault was hit.",
		Assum: []string{"a failing operation returns an error; it never returns wrong data"},
		Run:   runC17})
}

func crashPol(id string) *Pol {
	return polWith(id, ResDef{Name: "u"},
		ResDef{Name: "g", Rels: []RelDef{rel("m", "_this")}},
		ResDef{Name: "d", Rels: []RelDef{rel("v", "_this + parent->w"), rel("parent", "_this"), rel("w", "_this - b"), rel("b", "_this"), rel("x", "v & w")}})
}

func crashPol2(id string) *Pol {
	p := polWith(id, ResDef{Name: "u"},
		ResDef{Name: "g", Rels: []RelDef{rel("m", "_this")}},
		ResDef{Name: "d", Rels: []RelDef{rel("v", "w"), rel("parent", "_this"), rel("w", "_this + b"), rel("b", "_this")}})
	p.Attrs = map[string]string{"k": "v"}
	return p
}

var crashTups = []Tup{
	T("d", "1", "v", E("u", "a")), T("d", "1", "v", S("g", "1", "m")), T("g", "1", "m", E("u", "b")), T("d", "2", "w", W("u")), T("d", "1", "parent", E("d", "2")), T("d", "2", "b", E("u", "c")),
}

func crashQueries(ids ...string) []Op {
	var out []Op
	for _, id := range ids {
		for _, n := range []node{{Ent{"d", "1"}, "v"}, {Ent{"d", "2"}, "w"}, {Ent{"g", "1"}, "m"}, {Ent{"d", "1"}, "parent"}} {
			for _, u := range []Ent{{"u", "a"}, {"u", "b"}, {"u", "c"}, {"d", "2"}} {
				out = append(out, Op{K: KCheck, Pid: id, N: n, Sub: u})
			}
		}
	}
	return out
}

func crashOps(tups []Tup) []Op {
	var ops []Op
	for _, t := range tups {
		ops = append(ops, Op{K: KSet, Pid: "p", T: t, Data: "new"}, Op{K: KDel, Pid: "p", T: t})
	}
	ops = append(ops, Op{K: KSet, Pid: "p", T: tups[0]}, Op{K: KSet, Pid: "p", T: T("d", "1", "nope", E("u", "a"))},
		Op{K: KDelSel, Pid: "p", Sel: SelAll}, Op{K: KDelSel, Pid: "p", Sel: Sel{OK: 'x', O: Ent{"d", "1"}, LK: '*', SK: '*'}}, Op{K: KDelSel, Pid: "p", Sel: Sel{OK: '*', LK: '*', SK: 'r', S: Sub{R: "u"}}}, Op{K: KDelSel, Pid: "p", Sel: Sel{OK: 'r', O: Ent{R: "d"}, LK: 'x', L: "v", SK: '*'}},
		Op{K: KUpdate, Pol: crashPol2("p"), Data: "upd"}, Op{K: KUpdate, Pol: crashPol("p"), Data: "upd"}, Op{K: KDelPol, Pid: "p"},
		Op{K: KCreate, Pol: crashPol("p"), Data: "again"}, Op{K: KCreate, Pol: crashPol2("r"), Data: "third"})
	return ops
}

// pidOf is the policy an operation addresses
func pidOf(o Op) string {
	if o.Pol != nil {
		return o.Pol.ID
	}
	return o.Pid
}

// addressed tells whether the request addresses the relationship
func addressed(o Op, t Tup) bool {
	switch o.K {
	case KSet, KDel:
		return o.T == t
	case KDelSel:
		return o.Sel.Matches(t)
	case KDelPol, KCreate:
		return true
	}
	return false
}

func runAll(s Svc, ops []Op) []string {
	var out []string
	for _, o := range ops {
		out = append(out, o.Run(s))
	}
	return out
}

// verdictsOf are the acceptable answers of all queries in a state
func verdictsOf(w World, ops []Op) [][]string {
	var out [][]string
	for _, o := range ops {
		out = append(out, w.Clone().Apply(o))
	}
	return out
}

func acceptAll(alts [][]string, got []string) bool {
	for i := range got {
		if !accepts(alts[i], got[i]) {
			return false
		}
	}
	return true
}

// crashChecker examines a store in which a request was interrupted (crash) or failed
type crashChecker struct {
	c      *Ctx
	ids    []string
	tups   []Tup
	cheap  bool
	strict bool // listings of the addressed policy must be complete records
}

// partial checks what must hold in any partially executed state. before and after are the model states.
func (k *crashChecker) partial(kv *SpyKV, before, after World, o Op) error {
	c := k.c
	s := NewSys(kv.Clone())
	addr := pidOf(o)
	for _, id := range k.ids {
		if id == addr {
			continue
		}
		if err := k.observe(s, before, []string{id}[:0], nil, nil); err != nil && o.K != KCreate && o.K != KDelPol {
			return fmt.Errorf("listing of policies: %w", err)
		}
		// everything of other policies
		list := []Op{{K: KGetPol, Pid: id}, {K: KFind, Pid: id, Sel: SelAll}, {K: KDump, Pid: id}}
		for _, t := range k.tups {
			list = append(list, Op{K: KGet, Pid: id, T: t})
		}
		list = append(list, crashQueries(id)...)
		for _, q := range list {
			c.Evaluations++
			if err := Step1(s, before, q); err != nil {
				return fmt.Errorf("policy %q was not addressed: %w", id, err)
			}
		}
	}
	get := Op{K: KGetPol, Pid: addr}
	got := get.Run(s)
	isBefore := accepts(before.Clone().Apply(get), got)
	isAfter := accepts(after.Clone().Apply(get), got)
	c.Evaluations++
	if !isBefore && !isAfter {
		return fmt.Errorf("GetPolicy(%q) is neither as before nor as after the request: %s", addr, show(got))
	}
	list := Op{K: KList}.Run(s)
	want := before
	if !isBefore || isAfter && before[addr] == nil && after[addr] == nil {
		want = after
	}
	if (before[addr] == nil) != (after[addr] == nil) {
		if isAfter {
			want = after
		} else {
			want = before
		}
	}
	if !accepts(want.Clone().Apply(Op{K: KList}), list) {
		return fmt.Errorf("ListPolicyIds answers %s although GetPolicy(%q) answers %s", list, addr, show(got))
	}
	qs := crashQueries(addr)
	ans := runAll(s, qs)
	c.Evaluations += int64(len(qs))
	switch o.K {
	case KSet, KDel, KUpdate, KDelPol, KCreate:
		b, a := acceptAll(verdictsOf(before, qs), ans), acceptAll(verdictsOf(after, qs), ans)
		ok := b || a
		if o.K == KUpdate || o.K == KDelPol || o.K == KCreate { // the decisions go with the policy record
			ok = isBefore && b || isAfter && a
		}
		if !ok {
			return fmt.Errorf("access decisions are neither those before nor those after the request: %s", diffAnswers(qs, ans, verdictsOf(before, qs), verdictsOf(after, qs)))
		}
	}
	// relationships which are not addressed
	if before[addr] != nil {
		gone := before[addr] != nil && after[addr] == nil && !isBefore
		if !gone {
			for _, t := range k.tups {
				if o.K == KDelPol || !addressed(o, t) { // a policy which is still there is whole
					c.Evaluations++
					if err := Step1(s, before, Op{K: KGet, Pid: addr, T: t}); err != nil {
						return fmt.Errorf("relationship not addressed: %w", err)
					}
				}
			}
			f, err := call(s, Op{K: KFind, Pid: addr, Sel: SelAll}.Req())
			if err != nil {
				return fmt.Errorf("FindRelationshipRecords(%q): %v", addr, err)
			}
			seen := map[Tup]bool{}
			for _, r := range f.(*api.FindRelationshipRecordsResponse).GetResult().GetRecords() {
				if r == nil {
					if o.K != KSet && o.K != KDel && o.K != KDelSel {
						return fmt.Errorf("FindRelationshipRecords(%q) lists a nil record", addr)
					}
					continue
				}
				t, err := tupFromProto(r.Relationship)
				if err != nil {
					return err
				}
				if seen[t] {
					return fmt.Errorf("FindRelationshipRecords(%q) lists %v twice", addr, t)
				}
				seen[t] = true
				_, was := before[addr].Rels[t]
				if !was && !(addressed(o, t) && o.K == KSet) {
					return fmt.Errorf("FindRelationshipRecords(%q) lists %v which was not stored", addr, t)
				}
			}
			for t := range before[addr].Rels {
				if !seen[t] && (o.K == KDelPol || !addressed(o, t)) {
					return fmt.Errorf("FindRelationshipRecords(%q) does not list %v", addr, t)
				}
			}
		}
	}
	return nil
}

func diffAnswers(qs []Op, got []string, b, a [][]string) string {
	var sb strings.Builder
	for i := range qs {
		if !accepts(b[i], got[i]) || !accepts(a[i], got[i]) {
			fmt.Fprintf(&sb, "\n%v: %s, before %v, after %v", qs[i], got[i], b[i], a[i])
		}
	}
	return sb.String()
}

// completes repeats the request and compares with the state after it
func (k *crashChecker) completes(s Svc, after World, o Op, orig string) error {
	got, err := o.RunErr(s)
	k.c.Evaluations++
	if got == ERR && orig != ERR && o.K != KCreate {
		return fmt.Errorf("repeating the request: %v", err)
	}
	if err := k.observe(s, after, k.ids, k.tups, crashQueries(k.ids...)); err != nil {
		return fmt.Errorf("after the request was repeated: %w", err)
	}
	return nil
}

// recreate deletes and creates the policy: it must start empty
func (k *crashChecker) recreate(kv *SpyKV, w World, pid string) error {
	s := NewSys(kv)
	delete(w, pid)
	if got, err := (Op{K: KDelPol, Pid: pid}).RunErr(s); got == ERR {
		return fmt.Errorf("DeletePolicy(%q): %v", pid, err)
	}
	p := crashPol(pid)
	p.Name = "created later"
	if err := Step1(s, w, Op{K: KCreate, Pol: p, Data: "later"}); err != nil {
		return err
	}
	if err := k.observe(s, w, k.ids, k.tups, crashQueries(k.ids...)); err != nil {
		return fmt.Errorf("policy created after a deletion: %w", err)
	}
	for _, t := range k.tups {
		if ok, _ := p.Admits(t); !ok {
			continue
		}
		if err := Step1(s, w, Op{K: KSet, Pid: pid, T: t, Data: "later"}); err != nil {
			return fmt.Errorf("policy created after a deletion: %w", err)
		}
	}
	if err := k.observe(s, w, k.ids, k.tups, crashQueries(k.ids...)); err != nil {
		return fmt.Errorf("policy created after a deletion: %w", err)
	}
	return nil
}

// crashes explores the crash points of one request, then those of its repetition (depth)
func (k *crashChecker) crashes(kv *SpyKV, before World, o Op, depth int, trail string) error {
	c := k.c
	after := before.Clone()
	alts := after.Apply(o)
	run := kv.Clone()
	run.LogOn = true
	orig, err := o.RunErr(NewSys(run))
	if trail == "" && !accepts(alts, orig) {
		return fmt.Errorf("%v: expected %s, got %s (%v)\nstate:\n%v", o, show(strings.Join(alts, " or ")), show(orig), err, before)
	}
	log := run.Log
	c.State(run.Dump())
	for n := 0; n <= len(log); n++ {
		c.Transitions++
		c.Traces++
		if n > 0 && n < len(log) {
			c.Nontrivial++
		}
		crashed := kv.Clone()
		for _, wr := range log[:n] {
			crashed.Apply(wr)
		}
		c.State(crashed.Dump())
		fail := func(err error) error {
			return fmt.Errorf("%s%v interrupted after %d of its %d storage writes: %w\nstate before:\n%v", trail, o, n, len(log), err, before)
		}
		if err := k.partial(crashed, before, after, o); err != nil {
			return fail(err)
		}
		if !k.cheap || depth == 0 {
			rep := crashed.Clone()
			s := NewSys(rep)
			if err := k.completes(s, after.Clone(), o, orig); err != nil {
				return fail(err)
			}
			// further requests on the instance
			w := after.Clone()
			for _, f := range []Op{{K: KSet, Pid: "q", T: k.tups[0], Data: "f"}, {K: KSet, Pid: "p", T: k.tups[0], Data: "f"}, {K: KDel, Pid: "p", T: k.tups[len(k.tups)-1]}, {K: KDelSel, Pid: "p", Sel: SelAll}, {K: KList}} {
				if err := Step1(s, w, f); err != nil {
					return fail(fmt.Errorf("after repetition: %w", err))
				}
			}
			if err := k.recreate(crashed.Clone(), before.Clone(), pidOf(o)); err != nil {
				return fail(err)
			}
			if o.K == KDelPol && n > 0 {
				// creation without repeating the deletion
				gone := before.Clone()
				get := Op{K: KGetPol, Pid: o.Pid}
				if get.Run(NewSys(crashed.Clone())) == "none" {
					delete(gone, o.Pid)
					cr := Op{K: KCreate, Pol: crashPol("p"), Data: "later"}
					kv2 := crashed.Clone()
					s := NewSys(kv2)
					if err := Step1(s, gone, cr); err != nil {
						return fail(err)
					}
					if err := k.observe(s, gone, k.ids, k.tups, crashQueries(k.ids...)); err != nil {
						return fail(fmt.Errorf("created after the interrupted deletion: %w", err))
					}
					if depth > 0 {
						// crash the creation as well
						delete(gone, o.Pid)
						if err := k.crashes(crashed, gone, cr, depth-1, trail+fmt.Sprintf("%v interrupted after %d writes, then ", o, n)); err != nil {
							return err
						}
					}
				}
			}
		}
		if depth > 0 && n > 0 {
			if err := k.repeated(crashed, before, after, o, orig, depth-1, trail+fmt.Sprintf("%v interrupted after %d of %d writes, repeated and then ", o, n, len(log))); err != nil {
				return err
			}
		}
	}
	return nil
}

// repeated crashes the repetition of a crashed request at every write
func (k *crashChecker) repeated(kv *SpyKV, before, after World, o Op, orig string, depth int, trail string) error {
	run := kv.Clone()
	run.LogOn = true
	o.RunErr(NewSys(run))
	for n := 1; n <= len(run.Log); n++ {
		k.c.Transitions++
		k.c.Traces++
		crashed := kv.Clone()
		for _, wr := range run.Log[:n] {
			crashed.Apply(wr)
		}
		k.c.State(crashed.Dump())
		fail := func(err error) error {
			return fmt.Errorf("%sinterrupted after %d of its %d storage writes: %w\nstate before:\n%v", trail, n, len(run.Log), err, before)
		}
		if err := k.partial(crashed, before, after, o); err != nil {
			return fail(err)
		}
		if err := k.completes(NewSys(crashed.Clone()), after.Clone(), o, orig); err != nil {
			return fail(err)
		}
		if err := k.recreate(crashed.Clone(), before.Clone(), pidOf(o)); err != nil {
			return fail(err)
		}
		if depth > 0 {
			if err := k.repeated(crashed, before, after, o, orig, depth-1, trail+fmt.Sprintf("again after %d writes, ", n)); err != nil {
				return err
			}
		}
	}
	return nil
}

// baseState builds a store with policies p and q and the given relationships in both
func baseState(tups []Tup, set int, history bool) (*SpyKV, World, error) {
	kv := NewSpyKV()
	s := NewSys(kv)
	w := World{}
	var ops []Op
	ops = append(ops, Op{K: KCreate, Pol: crashPol("p"), Data: "P"}, Op{K: KCreate, Pol: crashPol("q"), Data: "Q"})
	for i, t := range tups {
		if history || set>>i&1 == 1 {
			ops = append(ops, Op{K: KSet, Pid: "p", T: t, Data: fmt.Sprint("d", i)}, Op{K: KSet, Pid: "q", T: t, Data: fmt.Sprint("q", i)})
		}
		if history && set>>i&1 == 0 {
			ops = append(ops, Op{K: KDel, Pid: "p", T: t})
		}
	}
	for _, o := range ops {
		if err := Step1(s, w, o); err != nil {
			return nil, nil, err
		}
	}
	return kv, w, nil
}

func runC16(c *Ctx) {
	ids := []string{"p", "q", "r"}
	tups := crashTups
	depth := 1
	if c.Thorough {
		depth = 2
	}
	ops := crashOps(tups)
	c.Bounds_("A", "%d base states (all subsets of %d relationships) x %d requests x every write prefix x every write prefix of the repetition (nesting %d)", 1<<len(tups), len(tups), len(ops), depth)
	for set := 0; set < 1<<len(tups); set++ {
		c.Case(func() string { return fmt.Sprintf("crashes, relationships %b", set) }, func() error {
			for h := 0; h < 2; h++ {
				kv, w, err := baseState(tups, set, h == 1)
				if err != nil {
					return err
				}
				k := &crashChecker{c: c, ids: ids, tups: tups}
				for _, o := range ops {
					c.Tick()
					d := depth
					if h == 1 {
						d = 0
					}
					if err := k.crashes(kv, w, o, d, ""); err != nil {
						return err
					}
				}
			}
			c.Sample("all crash points of %d requests with relationships %b", len(ops), set)
			return nil
		})
	}
	// histories: the last request is interrupted
	hops := []Op{{K: KCreate, Pol: crashPol("p"), Data: "1"}, {K: KDelPol, Pid: "p"}, {K: KUpdate, Pol: crashPol2("p"), Data: "2"},
		{K: KSet, Pid: "p", T: tups[0], Data: "s"}, {K: KSet, Pid: "p", T: tups[2]}, {K: KDel, Pid: "p", T: tups[0]}, {K: KDelSel, Pid: "p", Sel: SelAll}, {K: KCreate, Pol: crashPol("q")}, {K: KSet, Pid: "q", T: tups[0], Data: "q"}}
	n := 3
	if c.Thorough {
		n = 5
	}
	c.Bounds_("B", "all histories of length up to %d over %d requests, the last one interrupted at every write", n, len(hops))
	for l := 1; l <= n; l++ {
		product(len(hops), l, func(ix []int) bool {
			seq := append([]int{}, ix...)
			c.Case(func() string { return fmt.Sprintf("history %v", seq) }, func() error {
				kv := NewSpyKV()
				s := NewSys(kv)
				w := World{}
				for i, x := range seq {
					if i == len(seq)-1 {
						k := &crashChecker{c: c, ids: ids, tups: tups[:3]}
						return k.crashes(kv, w, hops[x], 0, "")
					}
					if err := Step1(s, w, hops[x]); err != nil {
						return err
					}
				}
				return nil
			})
			return !c.Stop()
		})
	}
	// two different requests interrupted one after the other
	c.Bounds_("C", "all pairs of requests, both interrupted at every write: what neither addresses is unchanged, and a policy created afterwards starts empty")
	for a := range ops {
		c.Case(func() string { return fmt.Sprintf("pairs of interrupted requests starting with %v", ops[a]) }, func() error {
			for _, set := range []int{1<<len(tups) - 1, 0b010101} {
				kv, w, err := baseState(tups, set, false)
				if err != nil {
					return err
				}
				run := kv.Clone()
				run.LogOn = true
				ops[a].Run(NewSys(run))
				for n := 0; n <= len(run.Log); n++ {
					c.Tick()
					kv1 := kv.Clone()
					for _, wr := range run.Log[:n] {
						kv1.Apply(wr)
					}
					for b := range ops {
						run2 := kv1.Clone()
						run2.LogOn = true
						ops[b].Run(NewSys(run2))
						for m := 0; m <= len(run2.Log); m++ {
							kv2 := kv1.Clone()
							for _, wr := range run2.Log[:m] {
								kv2.Apply(wr)
							}
							c.Traces++
							c.Transitions++
							c.State(kv2.Dump())
							trail := func(err error) error {
								return fmt.Errorf("%v interrupted after %d writes, then %v after %d: %w\nstate before:\n%v", ops[a], n, ops[b], m, err, w)
							}
							k := &crashChecker{c: c, ids: ids, tups: tups}
							s := NewSys(kv2)
							for _, q := range append([]Op{{K: KGetPol, Pid: "q"}, {K: KFind, Pid: "q", Sel: SelAll}, {K: KDump, Pid: "q"}}, crashQueries("q")...) {
								if err := Step1(s, w, q); err != nil {
									return trail(err)
								}
							}
							k.ids = []string{"p", "q"}
							w2 := w.Clone()
							if pidOf(ops[a]) == "r" || pidOf(ops[b]) == "r" {
								if (Op{K: KGetPol, Pid: "r"}).Run(s) != "none" {
									w2["r"] = &PState{Pol: crashPol2("r"), Data: "third", Rels: map[Tup]string{}}
								}
							}
							if err := k.recreate(kv2, w2, "p"); err != nil {
								return trail(err)
							}
						}
					}
				}
			}
			return nil
		})
	}
	// sizes
	sizes := []int{1, 2, 3, 7, 16, 33}
	if c.Thorough {
		sizes = []int{1, 2, 3, 5, 8, 16, 31, 32, 33, 64, 65, 101}
	}
	c.Bounds_("D", "policies of %v relationships deleted, deleted by selector, created over leftovers, interrupted at every write", sizes)
	for _, n := range sizes {
		for _, kind := range []Op{{K: KDelPol, Pid: "p"}, {K: KDelSel, Pid: "p", Sel: SelAll}, {K: KUpdate, Pol: crashPol2("p")}} {
			c.Case(func() string { return fmt.Sprintf("%d relationships, %v", n, kind) }, func() error {
				var ts []Tup
				for i := 0; i < n; i++ {
					ts = append(ts, T("d", fmt.Sprint(i%7), "v", E("u", fmt.Sprint("u", i))))
				}
				kv, w, err := baseState(ts, 0, false)
				if err != nil {
					return err
				}
				s := NewSys(kv)
				for i, t := range ts {
					for _, id := range []string{"p", "q"} {
						if err := Step1(s, w, Op{K: KSet, Pid: id, T: t, Data: fmt.Sprint(i)}); err != nil {
							return err
						}
					}
				}
				probe := ts
				if n > 8 {
					probe = []Tup{ts[0], ts[1], ts[n/2], ts[n-1]}
				}
				k := &crashChecker{c: c, ids: []string{"p", "q"}, tups: probe}
				return k.crashes(kv, w, kind, 0, "")
			})
		}
	}
}

// ---- C17 ----

var errFault = errors.New("injected storage failure")

// faultPlan makes operations fail; modes: 0 once, 1 from then on, 2 once but after taking effect, 3 none fails but
// the context of the request is cancelled at the operation (-1: before the request)
type faultPlan struct {
	at   []int
	mode int
}

func (f faultPlan) String() string {
	if f.mode == 3 {
		return fmt.Sprintf("the context cancelled at storage operation %d", f.at[0])
	}
	return fmt.Sprintf("storage operations %v failing (%s)", f.at, []string{"once", "from then on", "once, after taking effect"}[f.mode])
}

func (f faultPlan) fails(n int) bool {
	for _, a := range f.at {
		if n == a || f.mode == 1 && n >= a {
			return true
		}
	}
	return false
}

func runC17(c *Ctx) {
	ids := []string{"p", "q", "r"}
	tups := crashTups
	ops := append(crashOps(tups), Op{K: KGetPol, Pid: "p"}, Op{K: KGetPol, Pid: "none"}, Op{K: KList}, Op{K: KFind, Pid: "p", Sel: SelAll}, Op{K: KFind, Pid: "p", Sel: Sel{OK: 'r', O: Ent{R: "d"}, LK: 'x', L: "v", SK: '*'}}, Op{K: KDump, Pid: "p"})
	for _, t := range tups {
		ops = append(ops, Op{K: KGet, Pid: "p", T: t})
	}
	for _, n := range []node{{Ent{"d", "1"}, "v"}, {Ent{"d", "2"}, "w"}, {Ent{"d", "1"}, "x"}} {
		for _, u := range []string{"a", "b", "c", "z"} {
			ops = append(ops, Op{K: KCheck, Pid: "p", N: n, Sub: Ent{"u", u}})
		}
		ops = append(ops, Op{K: KExplain, Pid: "p", N: n, Sub: Ent{"u", "a"}, Fmt: api.ExplainFormat_JSON}, Op{K: KExplain, Pid: "p", N: n, Sub: Ent{"u", "c"}, Fmt: api.ExplainFormat_DOT}, Op{K: KExpand, Pid: "p", N: n, Fmt: api.ExplainFormat_JSON}, Op{K: KExpand, Pid: "p", N: n, Fmt: api.ExplainFormat_SPEW})
	}
	pairSets := map[int]bool{0b111111: true, 0b011001: true, 0b000110: true}
	c.Bounds_("A", "%d base states (all subsets of %d relationships) x %d requests x every storage operation x {once, from then on, once after taking effect}, and the context of the request cancelled before it or at that operation", 1<<len(tups), len(tups), len(ops))
	c.Bounds_("B", "pairs of failing operations on %d base states", len(pairSets))
	if c.Thorough {
		c.Bounds_("B", "pairs of failing operations on all base states")
	}
	for set := 0; set < 1<<len(tups); set++ {
		c.Case(func() string { return fmt.Sprintf("faults, relationships %b", set) }, func() error {
			kv, w, err := baseState(tups, set, false)
			if err != nil {
				return err
			}
			for _, o := range ops {
				c.Tick()
				if err := faults(c, kv, w, o, ids, tups, c.Thorough || pairSets[set]); err != nil {
					return err
				}
			}
			c.Sample("all single faults of %d requests with relationships %b", len(ops), set)
			return nil
		})
	}
	// leftovers, empty store, sizes
	c.Case(func() string { return "empty store" }, func() error {
		for _, o := range ops {
			if err := faults(c, NewSpyKV(), World{}, o, ids, tups, true); err != nil {
				return err
			}
		}
		return nil
	})
	sizes := []int{1, 2, 5, 12, 33}
	if c.Thorough {
		sizes = []int{1, 2, 3, 5, 9, 12, 33, 65, 101}
	}
	c.Bounds_("C", "queries and deletions over %v relationships, every storage operation failing; expressions with each operator, the failing read in each operand", sizes)
	for _, n := range sizes {
		c.Case(func() string { return fmt.Sprintf("faults with %d relationships", n) }, func() error {
			kv := NewSpyKV()
			s, w, err := startOn(kv, crashPol("p"))
			if err != nil {
				return err
			}
			var probe []Tup
			for i := 0; i < n; i++ {
				t := T("d", "1", "v", S("g", fmt.Sprint(i), "m"))
				m := T("g", fmt.Sprint(i), "m", E("u", fmt.Sprint("u", i)))
				for _, x := range []Tup{t, m} {
					if err := Step1(s, w, Op{K: KSet, Pid: "p", T: x}); err != nil {
						return err
					}
				}
				if i == 0 || i == n-1 {
					probe = append(probe, t, m)
				}
			}
			if err := Step1(s, w, Op{K: KCreate, Pol: crashPol("q")}); err != nil {
				return err
			}
			nn := node{Ent{"d", "1"}, "v"}
			for _, o := range []Op{{K: KCheck, Pid: "p", N: nn, Sub: Ent{"u", fmt.Sprint("u", n-1)}}, {K: KCheck, Pid: "p", N: nn, Sub: Ent{"u", "none"}}, {K: KFind, Pid: "p", Sel: SelAll}, {K: KDump, Pid: "p"}, {K: KDelSel, Pid: "p", Sel: Sel{OK: 'r', O: Ent{R: "g"}, LK: '*', SK: '*'}}, {K: KDelPol, Pid: "p"}, {K: KList}, {K: KExpand, Pid: "p", N: nn, Fmt: api.ExplainFormat_JSON}} {
				c.Tick()
				if err := faults(c, kv, w, o, []string{"p", "q"}, probe, false); err != nil {
					return err
				}
			}
			return nil
		})
	}
	leaves := []*Expr{parseRef("_this"), parseRef("w"), parseRef("parent->w")}
	exprs := upTo(leaves, 3)
	for _, e := range exprs {
		c.Case(func() string { return fmt.Sprintf("faults in %s", e.Text()) }, func() error {
			p := crashPol("p")
			p.Res[2].Rels[0].Text = e.Text()
			kv := NewSpyKV()
			s, w, err := startOn(kv, p)
			if err != nil {
				return err
			}
			for _, t := range crashTups {
				if err := Step1(s, w, Op{K: KSet, Pid: "p", T: t}); err != nil {
					return err
				}
			}
			if err := Step1(s, w, Op{K: KSet, Pid: "p", T: T("d", "1", "w", E("u", "b"))}); err != nil {
				return err
			}
			for _, u := range []string{"a", "b", "c", "z"} {
				if err := faults(c, kv, w, Op{K: KCheck, Pid: "p", N: node{Ent{"d", "1"}, "v"}, Sub: Ent{"u", u}}, []string{"p"}, nil, true); err != nil {
					return err
				}
			}
			return faults(c, kv, w, Op{K: KExpand, Pid: "p", N: node{Ent{"d", "1"}, "v"}, Fmt: api.ExplainFormat_JSON}, []string{"p"}, nil, false)
		})
	}
	// more than one policy: listing
	c.Case(func() string { return "listing of many policies" }, func() error {
		kv := NewSpyKV()
		s := NewSys(kv)
		w := World{}
		for i := 0; i < 12; i++ {
			if err := Step1(s, w, Op{K: KCreate, Pol: crashPol(fmt.Sprint("p", i))}); err != nil {
				return err
			}
			if err := faults(c, kv, w, Op{K: KList}, nil, nil, true); err != nil {
				return err
			}
		}
		return nil
	})
}

// faults explores all fault plans of one request in one state
func faults(c *Ctx, kv *SpyKV, before World, o Op, ids []string, tups []Tup, pairs bool) error {
	after := before.Clone()
	alts := after.Apply(o)
	clean := kv.Clone()
	clean.Count = true
	orig, err := o.RunErr(NewSys(clean))
	if alts != nil && !accepts(alts, orig) {
		return fmt.Errorf("%v without fault: expected %s, got %s (%v)\nstate:\n%v", o, show(strings.Join(alts, " or ")), show(orig), err, before)
	}
	total := clean.Ops
	plans := []faultPlan{{[]int{-1}, 3}}
	for n := 0; n < total; n++ {
		plans = append(plans, faultPlan{[]int{n}, 0}, faultPlan{[]int{n}, 1}, faultPlan{[]int{n}, 3})
		if o.Write() {
			plans = append(plans, faultPlan{[]int{n}, 2})
		}
	}
	for i := 0; i < len(plans); i++ {
		if i%50 == 49 {
			c.Tick()
		}
		p := plans[i]
		ops, err := oneFault(c, kv, before, after, o, ids, tups, p, orig)
		if err != nil {
			return fmt.Errorf("%v with %v (of %d): %w\nstate before:\n%v", o, p, total, err, before)
		}
		if pairs && len(p.at) == 1 && p.mode == 0 { // operations performed after the first failure
			for m := p.at[0] + 1; m < ops; m++ {
				plans = append(plans, faultPlan{[]int{p.at[0], m}, 0})
			}
		}
	}
	return nil
}

func oneFault(c *Ctx, kv *SpyKV, before, after World, o Op, ids []string, tups []Tup, p faultPlan, orig string) (int, error) {
	run := kv.Clone()
	s := NewSys(run)
	run.Ops = 0
	hit := false
	ctx, cancel := context.WithCancel(bg)
	defer cancel()
	if p.mode == 3 && p.at[0] < 0 {
		hit = true
		cancel()
	}
	run.Fault = func(n int, op string) error {
		if p.fails(n) {
			hit = true
			if p.mode == 3 {
				cancel()
				return nil
			}
			if p.mode == 2 && (op == "set" || op == "delete") {
				return errApplied
			}
			return errFault
		}
		return nil
	}
	c.Traces++
	c.Transitions++
	c.Evaluations++
	got, gerr := o.RunCtx(ctx, s)
	ops := run.Ops
	run.Fault = nil
	if hit {
		c.Nontrivial++
	}
	c.State(run.Dump())
	k := &crashChecker{c: c, ids: ids, tups: tups}
	if run.OpenIter != 0 {
		c.Outcome("iterator left open")
	}
	if got != ERR {
		c.Outcome("answered despite the fault")
		if got != orig {
			return ops, fmt.Errorf("answered %s, without fault %s", show(got), show(orig))
		}
		if !o.Write() {
			if run.Dump() != kv.Dump() {
				return ops, fmt.Errorf("the query changed the store")
			}
			return ops, nil
		}
		if err := k.observe(NewSys(run.Clone()), after, ids, tups, crashQueries(ids...)); err != nil {
			return ops, fmt.Errorf("acknowledged, but: %w", err)
		}
		return ops, nil
	}
	c.Outcome("error reported")
	_ = gerr
	if !o.Write() {
		if run.Dump() != kv.Dump() {
			return ops, fmt.Errorf("the query failed and changed the store")
		}
		again := o.Run(s)
		if again != orig {
			return ops, fmt.Errorf("after the fault was gone, answered %s instead of %s", show(again), show(orig))
		}
		return ops, nil
	}
	if orig == ERR { // would be refused anyway
		if run.Dump() != kv.Dump() {
			return ops, fmt.Errorf("the request is to be refused, but changed the store")
		}
		return ops, nil
	}
	if err := k.partial(run, before, after, o); err != nil {
		return ops, err
	}
	if err := k.completes(s, after.Clone(), o, orig); err != nil {
		return ops, err
	}
	return ops, nil
}

var errApplied = errors.New("injected storage failure after taking effect")

func parseRef(s string) *Expr {
	e, ok := parseExpr(s)
	if !ok {
		panic(s)
	}
	return e
}

// observe does not touch the count of non-trivial cases
func (k *crashChecker) observe(s Svc, w World, pids []string, tups []Tup, more []Op) error {
	n := k.c.Nontrivial
	defer func() { k.c.Nontrivial = n }()
	return k.c.observe(s, w, pids, tups, more)
}
