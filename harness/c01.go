package main

import (
	"fmt"
	"strings"
)

// enumExprs lists all expressions with exactly n leaves
func enumExprs(leaves []*Expr, n int) []*Expr {
	if n == 1 {
		return leaves
	}
	var out []*Expr
	for k := 1; k < n; k++ {
		ls, rs := enumExprs(leaves, k), enumExprs(leaves, n-k)
		for _, l := range ls {
			for _, r := range rs {
				for _, op := range []byte{'+', '&', '-'} {
					out = append(out, Bin(l, op, r))
				}
			}
		}
	}
	return out
}

func upTo(leaves []*Expr, n int) []*Expr {
	var out []*Expr
	for k := 1; k <= n; k++ {
		out = append(out, enumExprs(leaves, k)...)
	}
	return out
}

// grayWalk visits every subset of tups, each by one SetRelationship or DeleteRelationship
// from the one before it, and calls f there.
func grayWalk(c *Ctx, s Svc, w World, pid string, tups []Tup, f func() error) error {
	if err := f(); err != nil {
		return err
	}
	for i := uint(1); i < 1<<len(tups); i++ {
		b := 0
		for i>>b&1 == 0 {
			b++
		}
		o := Op{K: KSet, Pid: pid, T: tups[b]}
		if _, ok := w[pid].Rels[tups[b]]; ok {
			o.K = KDel
		}
		if err := Step(s, w, o); err != nil {
			return err
		}
		c.Transitions++
		if i%64 == 0 {
			c.Tick()
		}
		if err := f(); err != nil {
			return err
		}
	}
	return nil
}

type query struct {
	n   node
	sub Ent
}

// compareChecks compares Check with the reference semantics for all queries on the current state
func compareChecks(c *Ctx, s Svc, ps *PState, pid string, g *Graph, qs []query) error {
	g.SetRels(ps.Rels)
	for _, q := range qs {
		alts := checkAlternatives(g, q.n, q.sub)
		o := Op{K: KCheck, Pid: pid, N: q.n, Sub: q.sub}
		got, err := o.RunErr(s)
		c.Evaluations++
		if len(alts) == 1 {
			c.Nontrivial++
			c.Outcome(got)
		} else if len(alts) == 3 {
			c.Outcome("unstratified: " + got)
		} else {
			c.Outcome("undefined relation: " + got)
		}
		if !accepts(alts, got) {
			return fmt.Errorf("%v\nexpected %s, got %s (error: %v)\n%vrelationships:\n%s", o, strings.Join(alts, " or "), got, err, ps.Pol, fmtTups(ps.Rels))
		}
	}
	return nil
}

func polWith(id string, res ...ResDef) *Pol { return &Pol{ID: id, Name: "n " + id, Res: res} }

func rel(name, text string) RelDef { return RelDef{Name: name, Text: text, R: Any()} }

func start(p *Pol) (Svc, World, error) {
	return startOn(NewSpyKV(), p)
}

func init() {
	register(&Check{ID: "C01", Level: "model_checking",
		Rule:  "every expression up to the leaf bound x every subset of the tuple universe (reached by single writes from another subset) x every query, compared with a reference semantics (least fixpoint over the ground graph); plus size sweeps. Non-trivial: the reference semantics allows exactly one answer.",
		Assum: []string{"the store is an in-memory KV owned by the harness", "reference semantics in harness/model.go"},
		Run:   runC01})
	register(&Check{ID: "C02", Level: "model_checking",
		Rule:  "every pair of mutually recursive expressions up to the leaf bound x every subset of a cyclic tuple universe x every query, compared with the least fixpoint of the reference semantics; ExplainCheck, Expand and DumpRelationships must return. Non-trivial: stratified, so that exactly one answer is right.",
		Assum: []string{"the store is an in-memory KV owned by the harness", "reference semantics in harness/model.go", "unstratified definitions: only termination is checked"},
		Run:   runC02})
}

func runC01(c *Ctx) {
	// family A: one expression over non-recursive operands
	leaves := []*Expr{This(), Cu("a"), Cu("b"), Ttu("parent", "a"), Ttu("parent", "v")}
	exprs := upTo(leaves, 3)
	tups := []Tup{
		T("doc", "1", "v", E("user", "u")),
		T("doc", "1", "a", E("user", "u")),
		T("doc", "1", "b", W("user")),
		T("doc", "1", "a", S("group", "g", "m")),
		T("group", "g", "m", E("user", "u")),
		T("doc", "1", "parent", E("doc", "2")),
		T("doc", "2", "a", E("user", "u")),
		T("doc", "2", "v", W("user")),
	}
	if c.Thorough {
		exprs = append(exprs, enumExprs(leaves[:4], 4)...)
		tups = append(tups, T("doc", "1", "v", S("doc", "2", "b")), T("doc", "2", "b", E("user", "u")))
	}
	qs := []query{{node{Ent{"doc", "1"}, "v"}, Ent{"user", "u"}}, {node{Ent{"doc", "1"}, "v"}, Ent{"user", "x"}}, {node{Ent{"doc", "2"}, "v"}, Ent{"user", "u"}}}
	c.Bounds_("A", "%d expressions x 2^%d relationship sets x %d queries", len(exprs), len(tups), len(qs))
	for i, e := range exprs {
		c.Case(func() string { return "family A: v = " + e.Text() }, func() error {
			d := RelDef{Name: "v", E: e, R: Any()}
			if i%2 == 0 {
				d = RelDef{Name: "v", Text: e.Text(), R: Any()}
			}
			p := polWith("p", ResDef{Name: "user"}, ResDef{Name: "group", Rels: []RelDef{rel("m", "_this")}},
				ResDef{Name: "doc", Rels: []RelDef{rel("a", "_this"), rel("b", "_this"), rel("parent", "_this"), d}})
			return c.walk(p, tups, qs)
		})
	}
	// family G: tuple-to-userset rules over every kind of tupleset subject
	leavesG := []*Expr{This(), Cu("a"), Ttu("parent", "a"), Ttu("parent", "v"), Ttu("a", "b")}
	exprsG := upTo(leavesG, 2)
	tupsG := []Tup{
		T("doc", "1", "parent", E("doc", "2")),
		T("doc", "1", "parent", S("doc", "2", "b")),
		T("doc", "1", "parent", S("folder", "2", "v")),
		T("doc", "1", "a", S("folder", "2", "a")),
		T("doc", "2", "a", E("user", "u")),
		T("doc", "2", "b", E("user", "u")),
		T("folder", "2", "a", E("user", "u")),
		T("folder", "2", "b", W("user")),
		T("folder", "2", "v", E("user", "u")),
	}
	if c.Thorough {
		tupsG = append(tupsG, T("doc", "1", "parent", E("folder", "2")), T("doc", "2", "parent", S("doc", "1", "parent")), T("doc", "1", "parent", W("folder")))
	}
	var qG []query
	for _, r := range []string{"doc", "folder"} {
		for _, l := range []string{"v", "t"} {
			qG = append(qG, query{node{Ent{r, "1"}, l}, Ent{"user", "u"}}, query{node{Ent{r, "2"}, l}, Ent{"user", "u"}})
		}
	}
	c.Bounds_("G", "%d expressions x 2^%d relationship sets x %d queries", len(exprsG), len(tupsG), len(qG))
	for _, e := range exprsG {
		c.Case(func() string { return "family G: v = " + e.Text() }, func() error {
			rels := func() []RelDef {
				return []RelDef{rel("a", "_this"), rel("b", "_this"), rel("parent", "_this"), {Name: "v", E: e, R: Any()}, rel("t", "parent->v - a->b")}
			}
			return c.walk(polWith("p", ResDef{Name: "user"}, ResDef{Name: "doc", Rels: rels()}, ResDef{Name: "folder", Rels: rels()}), tupsG, qG)
		})
	}
	// family B: chains of computed usersets and nested sets, wildcards and kinds of subjects at each level
	var tupsB []Tup
	tupsB = append(tupsB,
		T("doc", "1", "v", S("group", "g", "m")), T("doc", "1", "v", S("group", "h", "m")), T("doc", "1", "v", E("group", "g")),
		T("group", "g", "m", S("group", "h", "m")), T("group", "h", "m", E("user", "u")), T("group", "g", "m", W("user")),
		T("doc", "1", "ex", E("user", "u")), T("doc", "1", "ex", S("group", "h", "m")), T("group", "h", "m", W("group")), T("doc", "1", "v", E("user", "u/x")))
	qB := []query{}
	for _, sub := range []Ent{{"user", "u"}, {"user", "u/x"}, {"group", "g"}, {"user", "*"}, {"use", "ru"}, {"nores", "u"}} {
		for _, l := range []string{"v", "ex", "w", "z"} {
			qB = append(qB, query{node{Ent{"doc", "1"}, l}, sub})
		}
	}
	defsB := []string{"v - ex", "v & ex", "ex - v", "(v + ex) - (v & ex)", "v - (v - ex)"}
	c.Bounds_("B", "%d policies x 2^%d relationship sets x %d queries", len(defsB), len(tupsB), len(qB))
	for _, d := range defsB {
		// split over the first three tuples
		for fix := 0; fix < 8; fix++ {
			c.Case(func() string { return fmt.Sprintf("family B: w = %s, first relationships %03b", d, fix) }, func() error {
				p := polWith("p", ResDef{Name: "user"}, ResDef{Name: "group", Rels: []RelDef{rel("m", "_this")}},
					ResDef{Name: "doc", Rels: []RelDef{rel("v", "_this"), rel("ex", "_this"), rel("w", d), rel("z", "w - v")}})
				kv := NewSpyKV()
				s, w, err := startOn(kv, p)
				if err != nil {
					return err
				}
				for b := 0; b < 3; b++ {
					if fix>>b&1 == 1 {
						if err := Step(s, w, Op{K: KSet, Pid: "p", T: tupsB[b]}); err != nil {
							return err
						}
					}
				}
				return c.walkFrom(s, w, "p", tupsB[3:], qB)
			})
		}
	}
	// family C: size sweeps
	runSizes(c)
	// family D: long expressions: position of the deciding operand
	maxLen := 40
	if c.Thorough {
		maxLen = 120
	}
	c.Bounds_("D", "operand lists of every length 1..%d, every deciding position, three operators, left and right nested", maxLen)
	for n := 1; n <= maxLen; n++ {
		for shape := 0; shape < 6; shape++ {
			c.Case(func() string { return fmt.Sprintf("family D: %d operands, shape %d", n, shape) }, func() error {
				return longExpr(c, n, shape)
			})
		}
	}
	// family E: declaration and insertion orders
	runOrders(c)
	// family F: adversarial names
	runNames(c)
	histories(c, "I", map[bool]int{false: 3, true: 4}[c.Thorough], histChecks(c))
	variants(c, "J", histChecks(c))
	divided(c, "L", dividedChecks(c))
	subjectSets(c, "M", false)
	dividedNodes(c, "N", func(s Svc, w World, pid string, g *Graph, qs []query) error {
		return compareChecks(c, s, w[pid], pid, g, qs)
	})
	runShapes(c, "J", map[bool]int{false: 5, true: 7}[c.Thorough])
}

func startOn(kv *SpyKV, p *Pol) (Svc, World, error) {
	s := NewSys(kv)
	w := World{}
	if err := Step(s, w, Op{K: KCreate, Pol: p}); err != nil {
		return s, w, err
	}
	return s, w, nil
}

func (c *Ctx) walk(p *Pol, tups []Tup, qs []query) error {
	s, w, err := start(p)
	if err != nil {
		return err
	}
	return c.walkFrom(s, w, p.ID, tups, qs)
}

func (c *Ctx) walkFrom(s Svc, w World, pid string, tups []Tup, qs []query) error {
	g := NewGraph(w[pid].Pol, w[pid].Rels)
	pk := polKey(w[pid].Pol)
	c.Traces++
	err := grayWalk(c, s, w, pid, tups, func() error {
		c.State(pk + fmtTups(w[pid].Rels))
		return compareChecks(c, s, w[pid], pid, g, qs)
	})
	if err == nil {
		c.Sample("%vlast relationships:\n%s", w[pid].Pol, fmtTups(w[pid].Rels))
	}
	return err
}

func sizes(quick, thorough []int, c *Ctx) []int {
	if c.Thorough {
		return append(append([]int{}, quick...), thorough...)
	}
	return quick
}

func runSizes(c *Ctx) {
	pol := func() *Pol {
		return polWith("p", ResDef{Name: "user"}, ResDef{Name: "group", Rels: []RelDef{rel("m", "_this")}},
			ResDef{Name: "doc", Rels: []RelDef{rel("own", "_this"), rel("parent", "_this"), rel("v", "own + parent->v"), rel("x", "own - parent->x")}})
	}
	set := func(s Svc, w World, t Tup) error { return Step1(s, w, Op{K: KSet, Pid: "p", T: t}) }
	check := func(s Svc, o Ent, l string, sub Ent, want bool) error {
		op := Op{K: KCheck, Pid: "p", N: node{o, l}, Sub: sub}
		got, err := op.RunErr(s)
		c.Evaluations++
		c.Nontrivial++
		if got != fmt.Sprintf("authorized=%v", want) {
			return fmt.Errorf("%v: expected authorized=%v, got %s (%v)", op, want, got, err)
		}
		return nil
	}
	id := func(i int) string { return fmt.Sprintf("n%d", i) }
	// chains: every depth up to the bound, by querying every node of one chain
	for _, n := range sizes([]int{700}, []int{2500}, c) {
		for kind := 0; kind < 3; kind++ {
			c.Case(func() string {
				return fmt.Sprintf("chain of %d, kind %d (0 nested sets, 1 parents, 2 alternating difference)", n, kind)
			}, func() error {
				s, w, err := start(pol())
				if err != nil {
					return err
				}
				for i := 0; i < n; i++ {
					t := T("group", id(i), "m", S("group", id(i+1), "m"))
					if kind > 0 {
						t = T("doc", id(i), "parent", E("doc", id(i+1)))
					}
					if err := set(s, w, t); err != nil {
						return err
					}
				}
				last := T("group", id(n), "m", E("user", "u"))
				if kind > 0 {
					last = T("doc", id(n), "own", E("user", "u"))
				}
				if err := set(s, w, last); err != nil {
					return err
				}
				if kind == 2 {
					for i := 0; i < n; i++ {
						if err := set(s, w, T("doc", id(i), "own", E("user", "u"))); err != nil {
							return err
						}
					}
				}
				for i := n; i >= 0; i-- {
					c.Tick()
					o, l, want := Ent{"group", id(i)}, "m", true
					if kind == 1 {
						o, l = Ent{"doc", id(i)}, "v"
					}
					if kind == 2 {
						o, l, want = Ent{"doc", id(i)}, "x", (n-i)%2 == 0
					}
					if err := check(s, o, l, Ent{"user", "u"}, want); err != nil {
						return fmt.Errorf("chain of %d, depth %d: %w", n, n-i, err)
					}
					if i%50 == 0 {
						if err := check(s, o, l, Ent{"user", "nobody"}, false); err != nil {
							return fmt.Errorf("chain of %d, depth %d: %w", n, n-i, err)
						}
					}
				}
				return nil
			})
		}
	}
	for _, n := range sizes([]int{6000}, []int{15000}, c) {
		c.Case(func() string { return fmt.Sprintf("one chain of %d", n) }, func() error {
			s, w, err := start(pol())
			if err != nil {
				return err
			}
			for i := 0; i < n; i++ {
				if i%200 == 0 {
					c.Tick()
				}
				if err := set(s, w, T("group", id(i), "m", S("group", id(i+1), "m"))); err != nil {
					return err
				}
			}
			if err := set(s, w, T("group", id(n), "m", E("user", "u"))); err != nil {
				return err
			}
			c.Tick()
			if err := check(s, Ent{"group", id(0)}, "m", Ent{"user", "u"}, true); err != nil {
				return err
			}
			return check(s, Ent{"group", id(0)}, "m", Ent{"user", "nobody"}, false)
		})
	}
	// fan-out: every width up to the bound, the target at every position
	for _, n := range sizes([]int{400}, []int{1500}, c) {
		for kind := 0; kind < 3; kind++ {
			c.Case(func() string { return fmt.Sprintf("fan-out up to %d, kind %d (0 users, 1 groups, 2 parents)", n, kind) }, func() error {
				s, w, err := start(pol())
				if err != nil {
					return err
				}
				for i := 0; i < n; i++ {
					c.Tick()
					u := fmt.Sprintf("u%d", i)
					var ts []Tup
					l := "own"
					switch kind {
					case 0:
						ts = []Tup{T("doc", "d", "own", E("user", u))}
					case 1:
						ts = []Tup{T("doc", "d", "own", S("group", id(i), "m")), T("group", id(i), "m", E("user", u))}
					case 2:
						ts = []Tup{T("doc", "d", "parent", E("doc", id(i))), T("doc", id(i), "own", E("user", u))}
						l = "v"
					}
					for _, t := range ts {
						if err := set(s, w, t); err != nil {
							return err
						}
					}
					if err := check(s, Ent{"doc", "d"}, l, Ent{"user", u}, true); err != nil {
						return fmt.Errorf("fan-out %d, newest: %w", i+1, err)
					}
					if err := check(s, Ent{"doc", "d"}, l, Ent{"user", "u0"}, true); err != nil {
						return fmt.Errorf("fan-out %d, oldest: %w", i+1, err)
					}
				}
				l := "own"
				if kind == 2 {
					l = "v"
				}
				for i := 0; i < n; i++ {
					c.Tick()
					if err := check(s, Ent{"doc", "d"}, l, Ent{"user", fmt.Sprintf("u%d", i)}, true); err != nil {
						return fmt.Errorf("fan-out %d, position %d: %w", n, i, err)
					}
				}
				return check(s, Ent{"doc", "d"}, l, Ent{"user", "nobody"}, false)
			})
		}
	}
	// unrelated relationships and definitions do not matter
	for _, n := range []int{0, 1, 10, 63, 64, 65, 127, 128, 129, 1000} {
		c.Case(func() string { return fmt.Sprintf("%d unrelated relationships and relations", n) }, func() error {
			p := pol()
			var extra []RelDef
			for i := 0; i < n; i++ {
				extra = append(extra, rel(fmt.Sprintf("r%d", i), "_this"))
			}
			p.Res = append([]ResDef{{Name: "aaa", Rels: extra}}, p.Res...)
			p.Res = append(p.Res, ResDef{Name: "zzz", Rels: extra})
			s, w, err := start(p)
			if err != nil {
				return err
			}
			if err := set(s, w, T("doc", "d", "own", E("user", "u"))); err != nil {
				return err
			}
			for i := 0; i < n; i++ {
				c.Tick()
				if err := set(s, w, T("doc", id(i), "own", E("user", "v"))); err != nil {
					return err
				}
				if err := set(s, w, T("zzz", "d", fmt.Sprintf("r%d", i), E("user", "v"))); err != nil {
					return err
				}
			}
			for _, l := range []string{"own", "v"} {
				if err := check(s, Ent{"doc", "d"}, l, Ent{"user", "u"}, true); err != nil {
					return err
				}
				if err := check(s, Ent{"doc", "d"}, l, Ent{"user", "v"}, false); err != nil {
					return err
				}
			}
			if n > 0 {
				return check(s, Ent{"zzz", "d"}, fmt.Sprintf("r%d", n-1), Ent{"user", "v"}, true)
			}
			return nil
		})
	}
	c.Bounds_("C", "chains of every depth to 700 and one of 6000 (thorough 2500, 15000), fan-out of every width to 400 (thorough 1500), up to 1000 unrelated relationships and relations")
}

// Step1 is Step without the description of the state before, for large states
func Step1(s Svc, w World, o Op) error {
	alts := w.Apply(o)
	got, err := o.RunErr(s)
	if !accepts(alts, got) {
		return fmt.Errorf("request: %v\nexpected: %s\ngot:      %s (error: %v)", o, show(strings.Join(alts, " or ")), show(got), err)
	}
	return nil
}

func longExpr(c *Ctx, n, shape int) error {
	op := []byte{'+', '&', '-'}[shape%3]
	rightNested := shape >= 3
	name := func(i int) string { return fmt.Sprintf("r%d", i) }
	var e *Expr
	if rightNested {
		for i := n - 1; i >= 0; i-- {
			if e == nil {
				e = Cu(name(i))
			} else {
				e = Bin(Cu(name(i)), op, e)
			}
		}
	} else {
		for i := 0; i < n; i++ {
			if e == nil {
				e = Cu(name(i))
			} else {
				e = Bin(e, op, Cu(name(i)))
			}
		}
	}
	d := RelDef{Name: "v", E: e, R: Any()}
	if n <= 12 { // parsing time grows with the square of the nesting
		d = RelDef{Name: "v", Text: e.Text(), R: Any()}
	}
	rels := []RelDef{d}
	for i := 0; i < n; i++ {
		rels = append(rels, rel(name(i), "_this"))
	}
	p := polWith("p", ResDef{Name: "user"}, ResDef{Name: "doc", Rels: rels})
	s, w, err := start(p)
	if err != nil {
		return err
	}
	g := NewGraph(p, nil)
	q := []query{{node{Ent{"doc", "1"}, "v"}, Ent{"user", "u"}}}
	// all operands but one hold / only one operand holds
	for i := 0; i < n; i++ {
		c.Tick()
		o := Op{K: KSet, Pid: "p", T: T("doc", "1", name(i), E("user", "u"))}
		if err := Step1(s, w, o); err != nil {
			return err
		}
		if err := compareChecks(c, s, w["p"], "p", g, q); err != nil {
			return err
		}
		c.State(fmt.Sprint(n, shape, "one", i))
		o.K = KDel
		if err := Step1(s, w, o); err != nil {
			return err
		}
	}
	for i := 0; i < n; i++ {
		if err := Step1(s, w, Op{K: KSet, Pid: "p", T: T("doc", "1", name(i), E("user", "u"))}); err != nil {
			return err
		}
	}
	for i := 0; i < n; i++ {
		c.Tick()
		o := Op{K: KDel, Pid: "p", T: T("doc", "1", name(i), E("user", "u"))}
		if err := Step1(s, w, o); err != nil {
			return err
		}
		if err := compareChecks(c, s, w["p"], "p", g, q); err != nil {
			return err
		}
		c.State(fmt.Sprint(n, shape, "all but", i))
		o.K = KSet
		if err := Step1(s, w, o); err != nil {
			return err
		}
	}
	c.Transitions += int64(5 * n)
	c.Traces++
	return nil
}

func permutations(n int) [][]int {
	if n == 0 {
		return [][]int{{}}
	}
	var out [][]int
	for _, p := range permutations(n - 1) {
		for i := 0; i <= len(p); i++ {
			q := append(append(append([]int{}, p[:i]...), n-1), p[i:]...)
			out = append(out, q)
		}
	}
	return out
}

// runOrders: the answer does not depend on the order of declarations and writes
func runOrders(c *Ctx) {
	res := []ResDef{{Name: "user"}, {Name: "group", Rels: []RelDef{rel("m", "_this")}},
		{Name: "doc", Rels: []RelDef{rel("own", "_this"), rel("ban", "_this"), rel("parent", "_this"), rel("v", "(own + parent->v) - ban")}}}
	tups := []Tup{T("doc", "1", "parent", E("doc", "2")), T("doc", "2", "own", S("group", "g", "m")), T("group", "g", "m", E("user", "u")),
		T("doc", "1", "ban", E("user", "b")), T("group", "g", "m", E("user", "b"))}
	var qs []query
	for _, d := range []string{"1", "2"} {
		for _, u := range []string{"u", "b", "z"} {
			qs = append(qs, query{node{Ent{"doc", d}, "v"}, Ent{"user", u}})
		}
	}
	resP, relP, tupP := permutations(3), permutations(4), permutations(5)
	c.Bounds_("E", "%d orders of resources x %d of relations, %d orders of writes", len(resP), len(relP), len(tupP))
	for _, rp := range resP {
		for _, lp := range relP {
			c.Case(func() string { return fmt.Sprintf("family E: resources in order %v, relations in order %v", rp, lp) }, func() error {
				var rs []ResDef
				for _, i := range rp {
					r := res[i]
					if r.Name == "doc" {
						var ls []RelDef
						for _, j := range lp {
							ls = append(ls, r.Rels[j])
						}
						r.Rels = ls
					}
					rs = append(rs, r)
				}
				s, w, err := start(polWith("p", rs...))
				if err != nil {
					return err
				}
				return c.walkFrom(s, w, "p", tups, qs)
			})
		}
	}
	for _, tp := range tupP {
		c.Case(func() string { return fmt.Sprintf("family E: writes in order %v", tp) }, func() error {
			s, w, err := start(polWith("p", res...))
			if err != nil {
				return err
			}
			g := NewGraph(w["p"].Pol, nil)
			for _, i := range tp {
				for rep := 0; rep < 2; rep++ { // writing twice changes nothing
					if err := Step(s, w, Op{K: KSet, Pid: "p", T: tups[i]}); err != nil {
						return err
					}
					c.Transitions++
					if err := compareChecks(c, s, w["p"], "p", g, qs); err != nil {
						return err
					}
				}
				c.State(fmt.Sprint("order", fmtTups(w["p"].Rels)))
			}
			for _, i := range tp {
				if err := Step(s, w, Op{K: KDel, Pid: "p", T: tups[i]}); err != nil {
					return err
				}
				c.Transitions++
				if err := compareChecks(c, s, w["p"], "p", g, qs); err != nil {
					return err
				}
			}
			c.Traces++
			return nil
		})
	}
}

// adversarialNames are names which careless normalization, splitting, folding or truncation would confuse
var adversarialNames = []string{"a", "b", "ab", "a/b", "/", "a:b", "a#b", "a, b", "A", "a ", " a", "a\n", "_a", "a_", "é", "e\u0301", "ａ", "a\x00b", "a\x00", "*", "0", "00", "a.b", "(a", "a)", "%61", "a@b", "a->b",
	strings.Repeat("x", 300) + "1", strings.Repeat("x", 300) + "2"}

// alikePairs have the same checksum, also as parts of the same longer text: polynomials in 31 and in 33, Adler-32,
// CRC-32 (IEEE, Castagnoli, Koopman) and CRC-64 (ISO, ECMA)
var alikePairs = [][2]string{{"Aa", "BB"}, {"aB", "b!"}, {"bcb", "cac"},
	{strings.Repeat("a", 222), "ccaccaaaacaaaacacaccccacaaaaccaaaccccaacccaacaaaaaccccaccccccacaccaaaaacaaaccaccacccacaccacacaccaccaaacaaccacacaccacccacaccaacaccacaacacaaaacacccccaacaaacaacccacaccaccccaaccccaaaacccaaaacccccaccacccaccaccccacacccacacaccacc"}}

// alikeIds have the same checksum alone: FNV-32, FNV-32a, the first or last 32 bits of SHA-256, SHA-1 and MD5
var alikeIds = [][2]string{{"k07a0f5", "k0aec20"}, {"k019f8a", "k089aa0"}, {"k000a79", "k010022"}, {"k009631", "k00b9b8"}, {"k006f5b", "k00fc40"}, {"k006611", "k00baa7"}}

// magicNames have a meaning elsewhere
var magicNames = []string{"...", "_this", "_THIS", "self", "null", "nil", "none", "any", "-", "?", "root", "<nil>"}

func namesAndAlike() []string {
	out := append(append([]string{}, adversarialNames...), magicNames...)
	for _, p := range alikePairs {
		out = append(out, p[0], p[1])
	}
	return out
}

// isAlike tells whether the two names are a pair whose checksums coincide
func isAlike(a, b string) bool {
	for _, p := range append(append([][2]string{}, alikePairs...), alikeIds...) {
		if p == [2]string{a, b} || p == [2]string{b, a} {
			return true
		}
	}
	return false
}

// namePairs: all ordered pairs of adversarial names, and the pairs whose checksums coincide
func namePairs() [][2]string {
	var out [][2]string
	for _, a := range adversarialNames {
		for _, b := range adversarialNames {
			if a != b {
				out = append(out, [2]string{a, b})
			}
		}
	}
	for _, p := range append(append([][2]string{}, alikePairs...), alikeIds...) {
		out = append(out, p, [2]string{p[1], p[0]})
	}
	for _, m := range magicNames {
		out = append(out, [2]string{m, "a"}, [2]string{"a", m})
	}
	return out
}

// ident tells whether the text is a letter followed by letters, digits and underscores
func ident(s string) bool {
	for i, r := range s {
		letter := r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z'
		if !letter && (i == 0 || r != '_' && (r < '0' || r > '9')) {
			return false
		}
	}
	return s != ""
}

// runNames: entities, sets and relations which only differ in how their names are divided
func runNames(c *Ctx) {
	c.Bounds_("F", "all pairs of %d names, %d pairs of names with the same checksum and %d names with a meaning elsewhere, as resources, ids and relations", len(adversarialNames), len(alikePairs)+len(alikeIds), len(magicNames))
	for _, pair := range namePairs() {
		{
			r1, r2 := pair[0], pair[1]
			c.Case(func() string { return fmt.Sprintf("family F: resources %q and %q", r1, r2) }, func() error {
				rels := func() []RelDef { return []RelDef{rel(r1, "_this"), rel(r2, "_this")} }
				s, w, err := start(polWith("p", ResDef{Name: r1, Rels: rels()}, ResDef{Name: r2, Rels: rels()}))
				if err != nil {
					return err
				}
				g := NewGraph(w["p"].Pol, nil)
				var all []Ent
				for _, r := range []string{r1, r2} {
					for _, i := range []string{r1, r2} {
						all = append(all, Ent{r, i})
					}
				}
				var qs []query
				for _, o := range all {
					for _, l := range []string{r1, r2} {
						for _, u := range all {
							qs = append(qs, query{node{o, l}, u})
						}
					}
				}
				o := all[0]
				for _, l := range []string{r1, r2} {
					for _, u := range all {
						for _, sub := range []Sub{E(u.R, u.I), S(u.R, u.I, r2), W(u.R)} {
							if err := Step(s, w, Op{K: KSet, Pid: "p", T: Tup{o, l, sub}}); err != nil {
								return err
							}
							c.Transitions++
							if sub.K == 's' {
								x := Tup{u, r2, E(r2, "zz")}
								if err := Step(s, w, Op{K: KSet, Pid: "p", T: x}); err != nil {
									return err
								}
								if err := compareChecks(c, s, w["p"], "p", g, append(qs, query{node{o, l}, Ent{r2, "zz"}})); err != nil {
									return err
								}
								if err := Step(s, w, Op{K: KDel, Pid: "p", T: x}); err != nil {
									return err
								}
							}
							c.State(fmt.Sprint(r1, "\x01", r2, fmtTups(w["p"].Rels)))
							if err := compareChecks(c, s, w["p"], "p", g, qs); err != nil {
								return err
							}
							if err := Step(s, w, Op{K: KDel, Pid: "p", T: Tup{o, l, sub}}); err != nil {
								return err
							}
						}
					}
				}
				c.Traces++
				return namedChain(c, r1, r2)
			})
		}
	}
	// family K: expressions given as text which differ in one name
	var words []string
	for _, n := range append(namesAndAlike(), "parent", "Parent", "aa", "AA", "a1", "a2", "a_1") {
		if ident(n) {
			words = append(words, n)
		}
	}
	shapes := []string{"N", "_this + N", "(N)", "N->N", "q - N", "N & N->N"}
	c.Bounds_("K", "all pairs of %d names in %d expressions given as text", len(words), len(shapes))
	for _, x := range words {
		c.Case(func() string { return fmt.Sprintf("family K: expressions with %q and every other name", x) }, func() error {
			for _, y := range words {
				if x == y {
					continue
				}
				rels := []RelDef{rel(x, "_this"), rel(y, "_this"), rel("q", "_this")}
				var qs []query
				for i, sh := range shapes {
					for _, n := range []string{x, y} {
						l := fmt.Sprint("v ", i, n)
						rels = append(rels, rel(l, strings.ReplaceAll(sh, "N", n)))
						qs = append(qs, query{node{Ent{"doc", "1"}, l}, Ent{"user", "u"}})
					}
				}
				p := polWith("p", ResDef{Name: "user"}, ResDef{Name: "doc", Rels: rels})
				c.Tick()
				tups := []Tup{T("doc", "1", "q", E("user", "u")), T("doc", "1", x, E("user", "u")), T("doc", "1", y, E("doc", "1"))}
				if err := c.walk(p, tups, qs); err != nil {
					return err
				}
			}
			return nil
		})
	}
	// family H: two subjects of one object whose textual forms are alike
	ids := []string{"a", "*", "a, b", "a#b", "b", "a:b", "a)", ""}
	for _, pair := range [][2]string{{"r", "s"}, {"r", "r:a"}, {"r", "r, b"}, {"r", "(r"}} {
		var subs []Sub
		for _, r := range pair {
			subs = append(subs, W(r))
			for _, i := range ids {
				if i == "" {
					continue
				}
				subs = append(subs, E(r, i), S(r, i, "b"), S(r, i, "a, b"))
			}
		}
		c.Bounds_("H", "all pairs of %d subjects on one object, 4 pairs of resources", len(subs))
		for x := range subs {
			c.Case(func() string {
				return fmt.Sprintf("family H: subject %v of resources %q with every other", subs[x], pair)
			}, func() error {
				rels := func() []RelDef { return []RelDef{rel("v", "_this"), rel("b", "_this"), rel("a, b", "_this")} }
				p := polWith("p", ResDef{Name: pair[0], Rels: rels()}, ResDef{Name: pair[1], Rels: rels()}, ResDef{Name: "doc", Rels: rels()})
				s, w, err := start(p)
				if err != nil {
					return err
				}
				var qs []query
				n := node{Ent{"doc", "1"}, "v"}
				for _, r := range pair {
					for _, i := range append(ids, "zz") {
						if i != "" {
							qs = append(qs, query{n, Ent{r, i}})
						}
					}
				}
				for i, sub := range subs {
					if sub.K == 's' {
						// a member of its own for every set
						t := T(sub.R, sub.I, sub.L, E("doc", fmt.Sprint("m", i)))
						if err := Step1(s, w, Op{K: KSet, Pid: "p", T: t}); err != nil {
							return err
						}
						qs = append(qs, query{n, Ent{"doc", fmt.Sprint("m", i)}})
					}
				}
				g := NewGraph(p, nil)
				for y := range subs {
					if x == y {
						continue
					}
					for _, o := range []Op{{K: KSet, Pid: "p", T: T("doc", "1", "v", subs[x])}, {K: KSet, Pid: "p", T: T("doc", "1", "v", subs[y])}} {
						if err := Step1(s, w, o); err != nil {
							return err
						}
					}
					c.Tick()
					if err := compareChecks(c, s, w["p"], "p", g, qs); err != nil {
						return err
					}
					c.State(fmt.Sprint("H", pair, x, y))
					c.Transitions += 4
					for _, o := range []Op{{K: KDel, Pid: "p", T: T("doc", "1", "v", subs[x])}, {K: KDel, Pid: "p", T: T("doc", "1", "v", subs[y])}} {
						if err := Step1(s, w, o); err != nil {
							return err
						}
					}
				}
				c.Traces++
				return nil
			})
		}
	}
}

// namedChain: computed usersets, tuple-to-userset rules and nested sets between two relations, resources and ids
// with the given names; if the nodes were confused, the search would see a cycle
func namedChain(c *Ctx, x, y string) error {
	exprs := [][2]*Expr{
		{Cu(y), This()},
		{Bin(This(), '+', Cu(y)), Bin(This(), '+', Cu(x))},
		{Ttu(y, y), This()},
		{Bin(This(), '-', Cu(y)), This()},
	}
	for _, e := range exprs {
		rels := func() []RelDef { return []RelDef{{Name: x, E: e[0], R: Any()}, {Name: y, E: e[1], R: Any()}} }
		p := polWith("p", ResDef{Name: x, Rels: rels()}, ResDef{Name: y, Rels: rels()}, ResDef{Name: "user"})
		u := E("user", "u")
		sets := [][]Tup{
			{T(x, x, y, u)},
			{T(x, x, y, S(y, x, y)), T(y, x, y, u)},
			{T(x, x, y, S(x, y, y)), T(x, y, y, u)},
			{T(x, x, x, S(x, y, x)), T(x, y, x, u)},
			{T(x, x, x, u), T(x, x, y, S(x, y, x)), T(x, y, y, u)},
			{T(x, x, y, E(x, y)), T(x, y, y, u)},
		}
		for _, ts := range sets {
			s, w, err := start(p)
			if err != nil {
				return err
			}
			g := NewGraph(p, nil)
			var qs []query
			for _, r := range []string{x, y} {
				for _, i := range []string{x, y} {
					for _, l := range []string{x, y} {
						qs = append(qs, query{node{Ent{r, i}, l}, Ent{"user", "u"}})
					}
				}
			}
			for _, t := range ts {
				if err := Step1(s, w, Op{K: KSet, Pid: "p", T: t}); err != nil {
					return err
				}
			}
			c.Tick()
			c.Transitions += int64(len(ts))
			if err := compareChecks(c, s, w["p"], "p", g, qs); err != nil {
				return err
			}
		}
	}
	return nil
}
