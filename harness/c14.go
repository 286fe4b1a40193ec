package main

import (
	"fmt"
	"runtime"

	"github.com/sourcenetwork/zanzi/pkg/api"
)

func init() {
	sched := []string{"one thread runs at a time and is preempted at storage operations, lock operations and (in the statement part) before every statement of the repository's request handling code", "single storage operations are atomic"}
	register(&Check{ID: "C14", Level: "model_checking",
		Rule:  "for every program (base state, clients, requests) of the space, all schedules up to the preemption bound are executed on the real code under a controlled scheduler; the responses with their real-time order and the final state must be explained by some sequential order of the requests on the reference model. Non-trivial: the schedule had at least one choice; evaluations counts distinct outcomes judged.",
		Assum: sched, Run: runC14})
	register(&Check{ID: "C15", Level: "model_checking",
		Rule:  "for every program of queries overlapping with writes and with other queries, all schedules up to the preemption bound are executed on the real code under a controlled scheduler; every query must answer as on one state of some sequential order of the writes consistent with real time (Check, Find and Dump: reference model; ExplainCheck and Expand: the implementation run alone on that state). Non-trivial: the schedule had at least one choice.",
		Assum: sched, Run: runC15})
}

func concPol(id string) *Pol {
	return polWith(id, ResDef{Name: "u"},
		ResDef{Name: "g", Rels: []RelDef{rel("m", "_this")}},
		ResDef{Name: "d", Rels: []RelDef{rel("v", "a & b"), rel("w", "a - b"), rel("x", "_this + parent->x"), rel("a", "_this"), rel("b", "_this"), rel("parent", "_this")}})
}

// concPol2 swaps the meaning of relations
func concPol2(id string) *Pol {
	p := polWith(id, ResDef{Name: "u"},
		ResDef{Name: "g", Rels: []RelDef{rel("m", "_this")}},
		ResDef{Name: "d", Rels: []RelDef{rel("v", "b - a"), rel("w", "b"), rel("x", "a + b"), rel("a", "_this"), rel("b", "_this"), rel("parent", "_this")}})
	p.Attrs = map[string]string{"k": "v"}
	return p
}

var (
	cA  = T("d", "1", "a", E("u", "1"))
	cB  = T("d", "1", "b", E("u", "1"))
	cG  = T("d", "1", "a", S("g", "1", "m"))
	cM  = T("g", "1", "m", E("u", "1"))
	cP  = T("d", "1", "parent", E("d", "2"))
	cX2 = T("d", "2", "x", E("u", "1"))
	cX1 = T("d", "1", "x", E("u", "1"))
)

// concBase makes a base state
func concBase(pol *Pol, tups ...Tup) (*SpyKV, World) {
	kv, w := NewSpyKV(), World{}
	s := NewSys(kv)
	if pol == nil {
		return kv, w
	}
	ops := []Op{{K: KCreate, Pol: pol, Data: "base"}}
	for _, t := range tups {
		ops = append(ops, Op{K: KSet, Pid: pol.ID, T: t, Data: "base"})
	}
	for _, o := range ops {
		if err := Step(s, w, o); err != nil {
			panic("base state: " + err.Error())
		}
	}
	return kv, w
}

func concObs(ids ...string) []Op {
	out := []Op{{K: KList}}
	for _, id := range ids {
		out = append(out, Op{K: KGetPol, Pid: id}, Op{K: KFind, Pid: id, Sel: SelAll}, Op{K: KGet, Pid: id, T: cA}, Op{K: KGet, Pid: id, T: cB}, Op{K: KCheck, Pid: id, N: node{Ent{"d", "1"}, "a"}, Sub: Ent{"u", "1"}}, Op{K: KCheck, Pid: id, N: node{Ent{"d", "1"}, "v"}, Sub: Ent{"u", "1"}})
	}
	return out
}

// inspect the final state including what a policy created again would show
var concN = node{Ent{"d", "1"}, "v"}

// concRequests collide on policy p and its relationships; the first nine are writes
func concRequests() []Op {
	u1 := Ent{"u", "1"}
	return []Op{
		{K: KCreate, Pol: concPol2("p"), Data: "c"},
		{K: KCreate, Pol: concPol("q"), Data: "q"},
		{K: KUpdate, Pol: concPol2("p"), Data: "u"},
		{K: KDelPol, Pid: "p"},
		{K: KSet, Pid: "p", T: cA, Data: "s"},
		{K: KSet, Pid: "p", T: cB, Data: "t"},
		{K: KDel, Pid: "p", T: cA},
		{K: KDelSel, Pid: "p", Sel: SelAll},
		{K: KDelSel, Pid: "p", Sel: Sel{OK: 'x', O: Ent{"d", "1"}, LK: 'x', L: "a", SK: '*'}},
		{K: KGetPol, Pid: "p"},
		{K: KList},
		{K: KGet, Pid: "p", T: cA},
		{K: KFind, Pid: "p", Sel: SelAll},
		{K: KCheck, Pid: "p", N: concN, Sub: u1},
		{K: KDump, Pid: "p"},
		{K: KUpdate, Pol: polWith("p", ResDef{Name: "u"}, ResDef{Name: "d", Rels: []RelDef{rel("a", "_this")}}), Data: "narrow"},
		{K: KExplain, Pid: "p", N: concN, Sub: u1, Fmt: api.ExplainFormat_DOT},
		{K: KExpand, Pid: "p", N: concN, Fmt: api.ExplainFormat_JSON},
	}
}

func runC14(c *Ctx) {
	runtime.GOMAXPROCS(1)
	type base struct {
		name string
		kv   *SpyKV
		w    World
	}
	mk := func(name string, p *Pol, t ...Tup) base {
		kv, w := concBase(p, t...)
		return base{name, kv, w}
	}
	bases := []base{mk("policy p with d:1#a@u:1, d:1#a@g:1#m, g:1#m@u:1", concPol("p"), cA, cG, cM), mk("empty store", nil)}
	all := concRequests()
	writes := all[:9]
	obs := concObs("p", "q")
	light := []Op{{K: KGetPol, Pid: "p"}, {K: KFind, Pid: "p", Sel: SelAll}}
	kvBound, kvBound3, stBound := 3, 2, 1
	if c.Thorough {
		kvBound, kvBound3, stBound = 5, 3, 2
	}
	run := func(part string, b base, clients [][]Op, bound int, stmts bool) {
		p := &program{name: b.name, kv: b.kv, w: b.w, clients: clients, obs: obs, light: light}
		c.Case(func() string { return fmt.Sprintf("part %s\n%v", part, p) }, func() error { return p.decide(c, bound, stmts) })
	}
	c.Bounds_("A", "2 clients x 1 request, all unordered pairs of %d requests, %d base states, storage granularity, preemption bound %d", len(all), len(bases), kvBound)
	for _, b := range bases {
		for i, o := range all {
			for _, q := range all[i:] {
				run("A", b, [][]Op{{o}, {q}}, kvBound, false)
			}
		}
	}
	c.Bounds_("B", "2 clients x 1 request, pairs with at least one write, statement granularity (instrumented=%v), preemption bound %d", c.inst, stBound)
	if c.inst {
		for _, b := range bases {
			for i, o := range writes {
				for _, q := range all[i:] {
					run("B", b, [][]Op{{o}, {q}}, stBound, true)
				}
			}
		}
	}
	c.Bounds_("C", "3 clients x 1 request, all unordered triples with at least two writes, storage granularity, preemption bound %d", kvBound3)
	for _, b := range bases {
		for i, o := range writes {
			for j := i; j < len(writes); j++ {
				for _, r := range all[j:] {
					run("C", b, [][]Op{{o}, {writes[j]}, {r}}, kvBound3, false)
				}
			}
		}
	}
	small := []Op{all[0], all[2], all[3], all[4], all[6], all[7], all[12], all[13]}
	if c.Thorough {
		small = all
	}
	c.Bounds_("D", "2 clients x 2 requests, all sequences over %d requests, storage granularity, preemption bound 2", len(small))
	n := len(small)
	for _, b := range bases {
		for i := 0; i < n*n; i++ {
			for j := i; j < n*n; j++ {
				run("D", b, [][]Op{{small[i/n], small[i%n]}, {small[j/n], small[j%n]}}, 2, false)
			}
		}
	}
	if c.Thorough {
		three := []Op{all[0], all[2], all[3], all[4], all[7], all[12]}
		c.Bounds_("E", "3 clients x 2 requests over %d requests for the first two clients, one request for the third, storage granularity, preemption bound 2", len(three))
		m := len(three)
		for _, b := range bases {
			for i := 0; i < m*m; i++ {
				for j := i; j < m*m; j++ {
					for _, o := range three {
						run("E", b, [][]Op{{three[i/m], three[i%m]}, {three[j/m], three[j%m]}, {o}}, 2, false)
					}
				}
			}
		}
	}
}

func runC15(c *Ctx) {
	runtime.GOMAXPROCS(1)
	u1 := Ent{"u", "1"}
	n := func(l string) node { return node{Ent{"d", "1"}, l} }
	del := func(t Tup) Op { return Op{K: KDel, Pid: "p", T: t} }
	set := func(t Tup) Op { return Op{K: KSet, Pid: "p", T: t, Data: "w"} }
	upd := Op{K: KUpdate, Pol: concPol2("p"), Data: "w"}
	back := Op{K: KUpdate, Pol: concPol("p"), Data: "w"}
	delp := Op{K: KDelPol, Pid: "p"}
	create := Op{K: KCreate, Pol: concPol2("p"), Data: "w"}
	delAll := Op{K: KDelSel, Pid: "p", Sel: SelAll}
	type scen struct {
		tups   []Tup
		writes [][]Op
		rel    []string
	}
	scens := []scen{
		// v = a & b: never both
		{[]Tup{cA}, [][]Op{{del(cA), set(cB)}, {set(cB), del(cA)}, {del(cA)}, {set(cB)}, {upd}, {delp}, {delp, create}, {upd, set(cB)}, {set(cB), upd}, {delAll}, {delAll, set(cB)}}, []string{"v", "w", "x"}},
		{[]Tup{cB}, [][]Op{{del(cB), set(cA)}, {set(cA), del(cB)}, {upd}, {upd, set(cA)}}, []string{"v", "w"}},
		// w = a - b: never without b
		{[]Tup{cA, cB}, [][]Op{{del(cA), del(cB)}, {del(cB), del(cA)}, {upd}, {delAll}, {delp}, {upd, back}, {upd, del(cA)}}, []string{"v", "w"}},
		// through a group
		{[]Tup{cG, cM, cB}, [][]Op{{del(cG), del(cM)}, {del(cM), set(cA)}, {set(cA), del(cM)}, {del(cB), del(cG)}, {delAll}, {delp, create}}, []string{"a", "v", "w"}},
		{[]Tup{cG}, [][]Op{{del(cG), set(cM)}, {set(cM), del(cG)}}, []string{"a", "w"}},
		// through a parent
		{[]Tup{cP}, [][]Op{{del(cP), set(cX2)}, {set(cX2), del(cP)}, {set(cX2), del(cP), set(cX1)}, {upd, set(cX2)}}, []string{"x"}},
		{[]Tup{cP, cX2}, [][]Op{{set(cX1), del(cX2)}, {del(cP), del(cX2)}, {set(cX1), del(cP)}, {upd}}, []string{"x"}},
	}
	queries := func(l string) []Op {
		q := []Op{
			{K: KCheck, Pid: "p", N: n(l), Sub: u1},
			{K: KExplain, Pid: "p", N: n(l), Sub: u1, Fmt: api.ExplainFormat_JSON},
			{K: KExpand, Pid: "p", N: n(l), Fmt: api.ExplainFormat_JSON},
		}
		return q
	}
	fixed := []Op{{K: KDump, Pid: "p"}, {K: KFind, Pid: "p", Sel: SelAll}, {K: KFind, Pid: "p", Sel: Sel{OK: 'r', O: Ent{R: "d"}, LK: 'x', L: "a", SK: '*'}}}
	b1, bS, b3 := 3, 1, 2
	if c.Thorough {
		b1, bS, b3 = 5, 2, 3
	}
	obs := concObs("p")
	light := []Op{{K: KGetPol, Pid: "p"}, {K: KCheck, Pid: "p", N: n("a"), Sub: u1}}
	type pk struct {
		p     *program
		bound int
		stmts bool
		part  string
	}
	run := func(part string, p *program, bound int, stmts bool) {
		c.Case(func() string { return fmt.Sprintf("part %s\n%v", part, p) }, func() error { return p.decide(c, bound, stmts) })
	}
	c.Bounds_("A", "%d base states, every query (Check, ExplainCheck, Expand of the relations concerned, Dump, Find) against every write sequence of one to three requests, storage granularity bound %d, statement granularity (instrumented=%v) bound %d", len(scens), b1, c.inst, bS)
	c.Bounds_("B", "the same with a second query (quick: Check only), storage granularity, preemption bound %d", b3)
	for i, s := range scens {
		kv, w := concBase(concPol("p"), s.tups...)
		name := fmt.Sprintf("%d: policy p with %v", i, s.tups)
		var qs []Op
		for _, l := range s.rel {
			qs = append(qs, queries(l)...)
		}
		qs = append(qs, fixed...)
		for _, ws := range s.writes {
			for qi, q := range qs {
				run("A", &program{name: name, kv: kv, w: w, clients: [][]Op{{q}, ws}, obs: obs, light: light}, b1, false)
				if c.inst {
					run("A", &program{name: name, kv: kv, w: w, clients: [][]Op{{q}, ws}, obs: obs, light: light}, bS, true)
				}
				if len(ws) > 1 {
					// the writes by different clients
					cl := [][]Op{{q}}
					for _, o := range ws {
						cl = append(cl, []Op{o})
					}
					run("A", &program{name: name, kv: kv, w: w, clients: cl, obs: obs, light: light}, b3, false)
				}
				for _, q2 := range qs[qi:] {
					if q.K == KCheck && q2.K == KCheck || c.Thorough {
						run("B", &program{name: name, kv: kv, w: w, clients: [][]Op{{q}, {q2}, ws}, obs: obs, light: light}, b3, false)
					}
				}
			}
		}
	}
	// queries among each other
	rich := []Tup{cA, cB, cG, cM, cP, cX2, T("d", "2", "x", S("g", "1", "m")), T("d", "3", "a", W("u")), T("d", "3", "parent", E("d", "1"))}
	kv, w := concBase(concPol("p"), rich...)
	kv2 := kv.Clone()
	w2 := w.Clone()
	s2 := NewSys(kv2)
	for _, o := range []Op{{K: KCreate, Pol: concPol2("q"), Data: "q"}, {K: KSet, Pid: "q", T: cB}} {
		if err := Step(s2, w2, o); err != nil {
			panic(err.Error())
		}
	}
	var qq []Op
	for _, pid := range []string{"p", "q"} {
		for _, o := range []string{"1", "3"} {
			for _, l := range []string{"v", "w", "x", "a"} {
				for _, u := range []string{"1", "2"} {
					qq = append(qq, Op{K: KCheck, Pid: pid, N: node{Ent{"d", o}, l}, Sub: Ent{"u", u}})
				}
			}
		}
		for f, l := range []string{"v", "x"} {
			qq = append(qq, Op{K: KExplain, Pid: pid, N: n(l), Sub: u1, Fmt: formats[f%len(formats)]}, Op{K: KExpand, Pid: pid, N: n(l), Fmt: formats[(f+1)%len(formats)]})
		}
		qq = append(qq, Op{K: KDump, Pid: pid}, Op{K: KGetPol, Pid: pid}, Op{K: KGet, Pid: pid, T: cA}, Op{K: KFind, Pid: pid, Sel: fixed[2].Sel})
	}
	qq = append(qq, Op{K: KList})
	few := []Op{qq[0], qq[3], qq[4], qq[12], qq[16], qq[17], qq[18], qq[20], qq[24], qq[len(qq)-2]}
	if c.Thorough {
		few = qq
	}
	c.Bounds_("C", "all unordered pairs of %d queries on two policies, storage granularity bound 2; pairs of %d at statement granularity bound %d", len(qq), len(few), bS)
	for i, a := range qq {
		for _, b := range qq[i:] {
			run("C", &program{name: "two policies", kv: kv2, w: w2, clients: [][]Op{{a}, {b}}}, 2, false)
		}
	}
	if c.inst {
		for i, a := range few {
			for _, b := range few[i:] {
				run("C", &program{name: "two policies", kv: kv2, w: w2, clients: [][]Op{{a}, {b}}}, bS, true)
			}
		}
	}
	if c.inst {
		deepQ := []Op{qq[0], qq[2], qq[4], few[len(few)-1]}
		for _, q := range qq {
			if q.K == KExplain || q.K == KExpand || q.K == KDump {
				deepQ = append(deepQ, q)
			}
		}
		if !c.Thorough {
			deepQ = deepQ[:9]
		}
		c.Bounds_("E", "all unordered pairs of %d queries at the statements of the expression parser, the utilities and the exported types, bound 1", len(deepQ))
		for i, a := range deepQ {
			for _, b := range deepQ[i:] {
				run("E", &program{name: "two policies", kv: kv2, w: w2, clients: [][]Op{{a}, {b}}, deep: true}, 1, false)
			}
		}
	}
	c.Bounds_("D", "all unordered triples of %d queries, storage granularity, bound 1", len(few))
	for i, a := range few {
		for j, b := range few[i:] {
			for _, d := range few[i+j:] {
				run("D", &program{name: "two policies", kv: kv2, w: w2, clients: [][]Op{{a}, {b}, {d}}}, 1, false)
			}
		}
	}
}

// overlapping clients must not block each other, on a store which locks like the bundled memory store
// does while an iterator has more entries than its buffer
func runC22Overlap(c *Ctx) {
	runtime.GOMAXPROCS(1)
	u1 := Ent{"u", "1"}
	pol := polWith("p", ResDef{Name: "u"}, ResDef{Name: "g", Rels: []RelDef{rel("m", "_this")}},
		ResDef{Name: "d", Rels: []RelDef{rel("v", "a & b"), rel("w", "a - b"), rel("x", "_this + parent->x"), rel("a", "_this"), rel("b", "_this"), rel("parent", "_this"), rel("bad", "parent->nowhere")}})
	kv, w := concBase(pol, cA, cG, cM, cP, T("d", "9", "parent", W("d")))
	kv2 := kv.Clone()
	s2, w2 := NewSys(kv2), w.Clone()
	for _, id := range []string{"q", "r"} {
		if err := Step(s2, w2, Op{K: KCreate, Pol: concPol(id)}); err != nil {
			panic(err.Error())
		}
	}
	reqs := append(concRequests(), // and requests which fail at various points
		Op{K: KSet, Pid: "p", T: T("d", "1", "nope", E("u", "1"))},
		Op{K: KSet, Pid: "none", T: cA},
		Op{K: KUpdate, Pol: polWith("p", ResDef{Name: "d", Rels: []RelDef{rel("v", "nope")}})},
		Op{K: KCheck, Pid: "p", N: node{Ent{"d", "1"}, "bad"}, Sub: u1},
		Op{K: KCheck, Pid: "p", N: node{Ent{"d", "9"}, "x"}, Sub: u1},
		Op{K: KExpand, Pid: "p", N: node{Ent{"d", "9"}, "x"}},
		Op{K: KFind, Pid: "p", Sel: Sel{OK: 'r', O: Ent{R: "nope"}, LK: '*', SK: '*'}},
		Op{K: KDelSel, Pid: "p", Sel: Sel{}},
		Op{K: KDump, Pid: "none"})
	bound, bS := 2, 0
	if c.Thorough {
		bound, bS = 4, 1
	}
	follow := Op{K: KSet, Pid: "q", T: cA}
	run := func(clients [][]Op, bound int, stmts bool) {
		if len(clients) == 2 {
			for i := range clients {
				clients[i] = append(clients[i], follow) // every client writes in the end
			}
		}
		p := &program{name: "policies p, q, r", kv: kv2, w: w2, clients: clients, lockIt: true, onlyEnd: true}
		c.Case(func() string { return fmt.Sprintf("part C\n%v", p) }, func() error { return p.decide(c, bound, stmts) })
	}
	c.Bounds_("C", "2 clients: all unordered pairs of %d requests, each followed by a write, storage and lock granularity, preemption bound %d, store whose open iterators keep writers out; 3 clients: all triples (quick: of 9 of them), bound 1", len(reqs), bound)
	for i, a := range reqs {
		for _, b := range reqs[i:] {
			run([][]Op{{a}, {b}}, bound, false)
			if bS > 0 && c.inst {
				run([][]Op{{a}, {b}}, bS, true)
			}
		}
	}
	few := reqs
	if !c.Thorough {
		few = []Op{reqs[2], reqs[3], reqs[5], reqs[7], reqs[10], reqs[12], reqs[13], reqs[17], reqs[22]}
	}
	for i, a := range few {
		for j, b := range few[i:] {
			for _, d := range few[i+j:] {
				run([][]Op{{a}, {b}, {d}}, 1, false)
			}
		}
	}
}
