package main

import (
	"fmt"

	"github.com/sourcenetwork/zanzi/pkg/api"
)

func runC02(c *Ctx) {
	leaves := []*Expr{This(), Cu("a"), Cu("b"), Ttu("parent", "a"), Ttu("parent", "b")}
	n := 2
	exprs := upTo(leaves, n)
	tups := []Tup{
		T("d", "1", "a", E("u", "x")),
		T("d", "1", "b", E("u", "x")),
		T("d", "1", "parent", E("d", "2")),
		T("d", "2", "parent", E("d", "1")),
		T("d", "2", "b", E("u", "x")),
		T("d", "1", "a", S("d", "2", "a")),
		T("d", "2", "a", S("d", "1", "b")),
	}
	if c.Thorough {
		tups = append(tups, T("d", "2", "b", S("d", "1", "a")), T("d", "1", "parent", S("d", "1", "a")))
	}
	var qs []query
	for _, o := range []string{"1", "2"} {
		for _, l := range []string{"a", "b"} {
			qs = append(qs, query{node{Ent{"d", o}, l}, Ent{"u", "x"}})
		}
	}
	c.Bounds_("A", "%d x %d pairs of recursive expressions x 2^%d relationship sets x %d queries", len(exprs), len(exprs), len(tups), len(qs))
	for _, ea := range exprs {
		for _, eb := range exprs {
			c.Case(func() string { return fmt.Sprintf("family A: a = %s, b = %s", ea.Text(), eb.Text()) }, func() error {
				p := polWith("p", ResDef{Name: "u"}, ResDef{Name: "d", Rels: []RelDef{rel("parent", "_this"),
					{Name: "a", E: ea, R: Any()}, {Name: "b", E: eb, R: Any()}}})
				return c.walk(p, tups, qs)
			})
		}
	}
	// family B: three nodes, every graph of group memberships among them (cycles, shared, self)
	ids := []string{"1", "2", "3"}
	var edges []Tup
	for _, x := range ids {
		for _, y := range ids {
			edges = append(edges, T("g", x, "m", S("g", y, "m")))
		}
	}
	defs := []struct{ m, k, f string }{
		{"_this", "m - ban", "m & ban"},
		{"_this", "m & adm", "k - ban"},
		{"_this - ban", "m", "m + adm"},
		{"_this & adm", "m", "m - ban"},
		{"_this + adm", "m - (m - adm)", "k & m"},
		{"(_this - ban) + (_this & adm)", "m", "m"},
	}
	c.Bounds_("B", "%d policies x all 2^9 graphs on 3 groups x placements of a member, an exception and an addition", len(defs))
	for di, d := range defs {
		for place := 0; place < 27; place++ {
			c.Case(func() string { return fmt.Sprintf("family B: policy %d, placement %d", di, place) }, func() error {
				p := polWith("p", ResDef{Name: "u"}, ResDef{Name: "g", Rels: []RelDef{rel("m", d.m), rel("ban", "_this"), rel("adm", "_this"), rel("k", d.k), rel("f", d.f)}})
				s, w, err := start(p)
				if err != nil {
					return err
				}
				pl := place
				for _, l := range []string{"m", "ban", "adm"} {
					if err := Step(s, w, Op{K: KSet, Pid: "p", T: T("g", ids[pl%3], l, E("u", "x"))}); err != nil {
						return err
					}
					pl /= 3
				}
				var qs []query
				for _, o := range ids {
					for _, l := range []string{"m", "k", "f"} {
						qs = append(qs, query{node{Ent{"g", o}, l}, Ent{"u", "x"}})
					}
				}
				return c.walkFrom(s, w, "p", edges, qs)
			})
		}
	}
	// family F: nodes with similar names are not taken for cycles
	c.Case(func() string { return "family F: names with the same checksum" }, func() error {
		for _, p := range namePairs() {
			if isAlike(p[0], p[1]) {
				if err := namedChain(c, p[0], p[1]); err != nil {
					return err
				}
			}
		}
		return nil
	})
	c.Bounds_("F", "all pairs of %d names, and pairs with the same checksum, as resources, ids and relations of recursive definitions", len(adversarialNames))
	for _, x := range adversarialNames {
		c.Case(func() string { return fmt.Sprintf("family F: %q with every other name", x) }, func() error {
			for _, y := range adversarialNames {
				if x != y {
					if err := namedChain(c, x, y); err != nil {
						return err
					}
				}
			}
			return nil
		})
	}
	subjectSets(c, "G", true)
	// family C: every query kind returns on cyclic data
	c.Bounds_("C", "every graph on 3 groups x Expand, ExplainCheck, DumpRelationships in all formats")
	for fix := 0; fix < 1<<9; fix++ {
		c.Case(func() string { return fmt.Sprintf("family C: graph %09b", fix) }, func() error {
			p := polWith("p", ResDef{Name: "u"}, ResDef{Name: "g", Rels: []RelDef{rel("m", "_this + m + n"), rel("n", "m - n2"), rel("n2", "_this & m")}})
			s, w, err := start(p)
			if err != nil {
				return err
			}
			for b, e := range edges {
				if fix>>b&1 == 1 {
					if err := Step(s, w, Op{K: KSet, Pid: "p", T: e}); err != nil {
						return err
					}
				}
			}
			return allQueriesReturn(c, s, w, Ent{"g", "1"}, []string{"m", "n", "n2"})
		})
	}
	// family D: dense and long cycles in reasonable time
	dense := []int{2, 3, 5, 8, 12, 16, 24, 32}
	long := []int{1, 2, 10, 100, 1000}
	if c.Thorough {
		dense = append(dense, 48, 64)
		long = append(long, 4000)
	}
	c.Bounds_("D", "complete graphs on %v groups, layered graphs of width 3, rings of %v groups", dense, long)
	for _, n := range dense {
		for kind := 0; kind < 4; kind++ {
			c.Case(func() string { return fmt.Sprintf("family D: dense graph, %d nodes, kind %d", n, kind) }, func() error { return denseGraph(c, n, kind) })
		}
	}
	for _, n := range long {
		c.Case(func() string { return fmt.Sprintf("family D: ring of %d", n) }, func() error { return ring(c, n) })
	}
	c.Case(func() string { return "family E: recursion through unstratified difference" }, func() error {
		for _, e := range []string{"_this - a", "_this - parent->a", "a - a", "a - (a - a)", "(_this + a) - (a & parent->a)"} {
			p := polWith("p", ResDef{Name: "u"}, ResDef{Name: "d", Rels: []RelDef{rel("parent", "_this"), rel("a", e)}})
			s, w, err := start(p)
			if err != nil {
				return err
			}
			for _, t := range []Tup{T("d", "1", "parent", E("d", "1")), T("d", "1", "a", E("u", "x")), T("d", "1", "a", S("d", "1", "a")), T("d", "1", "parent", E("d", "2")), T("d", "2", "parent", E("d", "1"))} {
				if err := Step(s, w, Op{K: KSet, Pid: "p", T: t}); err != nil {
					return err
				}
				if err := allQueriesReturn(c, s, w, Ent{"d", "1"}, []string{"a"}); err != nil {
					return err
				}
			}
		}
		return nil
	})
}

func allQueriesReturn(c *Ctx, s Svc, w World, o Ent, rels []string) error {
	c.Tick()
	for _, l := range rels {
		for f := api.ExplainFormat(0); f < 3; f++ {
			for _, k := range []Kind{KExplain, KExpand} {
				op := Op{K: k, Pid: "p", N: node{o, l}, Sub: Ent{"u", "x"}, Fmt: f}
				got, err := op.RunErr(s)
				c.Evaluations++
				if got == ERR {
					return fmt.Errorf("%v failed: %v\nstate:\n%v", op, err, w)
				}
			}
		}
	}
	c.State("C" + fmtTups(w["p"].Rels))
	return Step(s, w, Op{K: KDump, Pid: "p"})
}

func denseGraph(c *Ctx, n, kind int) error {
	p := polWith("p", ResDef{Name: "u"}, ResDef{Name: "g", Rels: []RelDef{rel("m", "_this"), rel("adm", "_this"), rel("ban", "_this"),
		rel("k", "(_this & adm) + m"), rel("f", "_this - ban"), rel("parent", "_this"), rel("v", "_this + parent->v")}})
	s, w, err := start(p)
	if err != nil {
		return err
	}
	id := func(i int) string { return fmt.Sprintf("n%d", i) }
	l := "m"
	for i := 0; i < n; i++ {
		for j := 0; j < n; j++ {
			c.Tick()
			var ts []Tup
			switch kind {
			case 0:
				ts = []Tup{T("g", id(i), "m", S("g", id(j), "m"))}
			case 1:
				l = "k"
				ts = []Tup{T("g", id(i), "k", S("g", id(j), "k")), T("g", id(i), "adm", S("g", id(j), "k"))}
			case 2: // layered: n layers of 3
				l = "f"
				if j < 3 {
					for x := 0; x < 3; x++ {
						ts = append(ts, T("g", id(i*3+j), "f", S("g", id((i+1)*3+x), "f")))
					}
				}
			case 3:
				l = "v"
				ts = []Tup{T("g", id(i), "parent", E("g", id(j)))}
			}
			for _, t := range ts {
				if err := Step1(s, w, Op{K: KSet, Pid: "p", T: t}); err != nil {
					return err
				}
			}
		}
	}
	g := NewGraph(p, nil)
	var qs []query
	for i := 0; i < n && i < 4; i++ {
		qs = append(qs, query{node{Ent{"g", id(i)}, l}, Ent{"u", "x"}})
	}
	one := func() error {
		for _, q := range qs {
			c.Tick()
			if err := compareChecks(c, s, w["p"], "p", g, []query{q}); err != nil {
				return err
			}
			for _, k := range []Kind{KExplain, KExpand} {
				c.Tick()
				op := Op{K: k, Pid: "p", N: q.n, Sub: q.sub, Fmt: api.ExplainFormat_JSON}
				resp, err := call(s, op.Req())
				if err != nil {
					return fmt.Errorf("%v: %v", op, err)
				}
				c.Evaluations++
				if r, ok := resp.(*api.ExpandResponse); ok && len(r.GoalTree) > 200<<20 {
					return fmt.Errorf("%v: %d bytes", op, len(r.GoalTree))
				}
			}
		}
		c.Tick()
		op := Op{K: KDump, Pid: "p"}
		if got, err := op.RunErr(s); got == ERR {
			return err
		}
		c.State(fmt.Sprint("dense", n, kind, len(w["p"].Rels)))
		return nil
	}
	if err := one(); err != nil {
		return err
	}
	last := n - 1
	if kind == 2 {
		last = n*3 + 1
	}
	if err := Step1(s, w, Op{K: KSet, Pid: "p", T: T("g", id(last), l, E("u", "x"))}); err != nil {
		return err
	}
	if kind == 1 {
		if err := Step1(s, w, Op{K: KSet, Pid: "p", T: T("g", id(last), "adm", E("u", "x"))}); err != nil {
			return err
		}
	}
	c.Traces++
	return one()
}

func ring(c *Ctx, n int) error {
	p := polWith("p", ResDef{Name: "u"}, ResDef{Name: "g", Rels: []RelDef{rel("m", "_this"), rel("parent", "_this"), rel("v", "m + parent->v")}})
	s, w, err := start(p)
	if err != nil {
		return err
	}
	id := func(i int) string { return fmt.Sprintf("n%d", i%n) }
	for i := 0; i < n; i++ {
		c.Tick()
		for _, t := range []Tup{T("g", id(i), "m", S("g", id(i+1), "m")), T("g", id(i), "parent", E("g", id(i+1)))} {
			if err := Step1(s, w, Op{K: KSet, Pid: "p", T: t}); err != nil {
				return err
			}
		}
	}
	if err := Step1(s, w, Op{K: KSet, Pid: "p", T: T("g", id(n-1), "m", E("u", "x"))}); err != nil {
		return err
	}
	g := NewGraph(p, nil)
	for _, l := range []string{"m", "v"} {
		for _, i := range []int{0, n / 2, n - 1} {
			for _, u := range []string{"x", "y"} {
				c.Tick()
				if err := compareChecks(c, s, w["p"], "p", g, []query{{node{Ent{"g", id(i)}, l}, Ent{"u", u}}}); err != nil {
					return err
				}
			}
		}
	}
	for _, k := range []Kind{KExpand, KExplain, KDump} {
		for f := api.ExplainFormat(0); f < 3; f++ {
			c.Tick()
			op := Op{K: k, Pid: "p", N: node{Ent{"g", id(0)}, "v"}, Sub: Ent{"u", "x"}, Fmt: f}
			if _, err := call(s, op.Req()); err != nil {
				return fmt.Errorf("%v: %v", op, err)
			}
		}
	}
	c.State(fmt.Sprint("ring", n))
	c.Traces++
	return nil
}
