package main

import (
	"fmt"
)

// Histories: the same queries before the first and after every request of a sequence, on one instance
// which serves two policies with the same names. Whatever the instance remembers of earlier answers,
// policies or relationships must not show.

func histPol(id, v string) *Pol {
	return polWith(id, ResDef{Name: "user"}, ResDef{Name: "group", Rels: []RelDef{rel("m", "_this")}},
		ResDef{Name: "doc", Rels: []RelDef{rel("a", "_this"), rel("b", "_this"), rel("parent", "_this"), rel("v", v)}})
}

func histOps() []Op {
	t := func(id, l string, s Sub) Op { return Op{K: KSet, Pid: "p", T: T("doc", id, l, s)} }
	d := func(o Op) Op { o.K = KDel; return o }
	return []Op{
		{K: KUpdate, Pol: histPol("p", "a & b")},
		{K: KUpdate, Pol: histPol("p", "parent->a + b")},
		{K: KDelPol, Pid: "p"},
		{K: KCreate, Pol: histPol("p", "a - b")},
		t("1", "a", E("user", "u")),
		d(t("1", "a", E("user", "u"))),
		t("1", "b", S("group", "g", "m")),
		{K: KSet, Pid: "p", T: T("group", "g", "m", E("user", "u"))},
		{K: KDel, Pid: "p", T: T("group", "g", "m", E("user", "u"))},
		t("1", "parent", E("doc", "2")),
		{K: KDelSel, Pid: "p", Sel: Sel{OK: 'x', O: Ent{"doc", "1"}, LK: '*', SK: '*'}},
		t("2", "a", W("user")),
		{K: KSet, Pid: "q", T: T("group", "g", "m", E("user", "u"))},
		{K: KUpdate, Pol: histPol("q", "a")},
	}
}

// histories runs all sequences of the given length
func histories(c *Ctx, name string, depth int, obs func(s Svc, w World, pid string, g *Graph) error) {
	longRuns(c, name, obs)
	ops := histOps()
	c.Bounds_(name, "all %d^%d sequences over %d requests to two policies with the same names, queried before the first and after every request on one instance", len(ops), depth, len(ops))
	for i := range ops {
		for j := range ops {
			c.Case(func() string { return fmt.Sprintf("histories %v; %v; ...", ops[i], ops[j]) }, func() error {
				var fail error
				product(len(ops), depth-2, func(rest []int) bool {
					c.Tick()
					fail = history(c, append([]int{i, j}, rest...), obs)
					return fail == nil
				})
				return fail
			})
		}
	}
}

// longRuns: one instance which serves many requests, and one whose queries were repeated many times
// before a request changes their answers
func longRuns(c *Ctx, name string, obs func(s Svc, w World, pid string, g *Graph) error) {
	ops := histOps()
	n, warm := 300, 70
	if c.Thorough {
		n, warm = 3000, 1100
	}
	c.Bounds_(name+", long runs", "6 orders of %d requests to one instance, queried after every request; every pair of requests after the queries were repeated %d times", n, warm)
	for _, stride := range []int{1, 3, 5, 9, 11, 13} {
		c.Case(func() string { return fmt.Sprintf("long run, stride %d", stride) }, func() error {
			seq := make([]int, n)
			for i := range seq {
				seq[i] = (i*stride + i/len(ops)) % len(ops)
			}
			err := history(c, seq, obs)
			if err != nil && len(err.Error()) > 4000 {
				err = fmt.Errorf("%.4000s...", err.Error())
			}
			return err
		})
	}
	for i := range ops {
		c.Case(func() string { return fmt.Sprintf("repeated queries, then %v, ...", ops[i]) }, func() error {
			for j := range ops {
				first := map[string]int{}
				err := history(c, []int{i, j}, func(s Svc, w World, pid string, g *Graph) error {
					k := 1
					if first[pid]++; first[pid] == 1 {
						k = warm
					}
					for ; k > 0; k-- {
						if err := obs(s, w, pid, g); err != nil {
							return err
						}
					}
					c.Tick()
					return nil
				})
				if err != nil {
					return err
				}
			}
			return nil
		})
	}
}

func history(c *Ctx, seq []int, obs func(s Svc, w World, pid string, g *Graph) error) error {
	ops := histOps()
	s, w, err := start(histPol("p", "a - b"))
	if err != nil {
		return err
	}
	for _, o := range []Op{{K: KSet, Pid: "p", T: T("doc", "1", "a", E("user", "u"))}, {K: KCreate, Pol: histPol("q", "b + a")}, {K: KSet, Pid: "q", T: T("doc", "1", "b", S("group", "g", "m"))}} {
		if err := Step1(s, w, o); err != nil {
			return err
		}
	}
	look := func(done int) error {
		for _, pid := range []string{"p", "q"} {
			var g *Graph
			if ps := w[pid]; ps != nil {
				g = NewGraph(ps.Pol, ps.Rels)
			}
			if err := obs(s, w, pid, g); err != nil {
				var h []Op
				for _, k := range seq[:done] {
					h = append(h, ops[k])
				}
				return fmt.Errorf("%w\nafter the requests %v", err, h)
			}
		}
		return nil
	}
	if err := look(0); err != nil {
		return err
	}
	for i, k := range seq {
		if err := Step1(s, w, ops[k]); err != nil {
			return err
		}
		c.Transitions++
		c.Tick()
		if err := look(i + 1); err != nil {
			return err
		}
	}
	c.State(w.Key())
	c.Traces++
	return nil
}

var histQueries = []query{{node{Ent{"doc", "1"}, "v"}, Ent{"user", "u"}}, {node{Ent{"doc", "1"}, "b"}, Ent{"user", "u"}}, {node{Ent{"doc", "1"}, "v"}, Ent{"user", "x"}}}

// histChecks is the observation of C01
func histChecks(c *Ctx) func(s Svc, w World, pid string, g *Graph) error {
	return func(s Svc, w World, pid string, g *Graph) error {
		if g == nil {
			for _, q := range histQueries {
				c.Evaluations++
				if err := Step1(s, w, Op{K: KCheck, Pid: pid, N: q.n, Sub: q.sub}); err != nil {
					return err
				}
			}
			return nil
		}
		return compareChecks(c, s, w[pid], pid, g, histQueries)
	}
}

// histSteps observes requests the model answers
func histSteps(c *Ctx, of func(pid string) []Op) func(s Svc, w World, pid string, g *Graph) error {
	return func(s Svc, w World, pid string, g *Graph) error {
		for _, o := range of(pid) {
			c.Evaluations++
			c.Nontrivial++
			if err := Step1(s, w, o); err != nil {
				return err
			}
		}
		return nil
	}
}

// shapes lists all binary trees over the leaves c0..cn-1 in this order with every choice of operators
func shapes(lo, hi int) []*Expr {
	if hi-lo == 1 {
		return []*Expr{Cu(fmt.Sprint("c", lo))}
	}
	var out []*Expr
	for m := lo + 1; m < hi; m++ {
		for _, l := range shapes(lo, m) {
			for _, r := range shapes(m, hi) {
				for _, op := range []byte("+&-") {
					out = append(out, Bin(l, op, r))
				}
			}
		}
	}
	return out
}

// runShapes: expressions of n distinct operands x all memberships in the operands
func runShapes(c *Ctx, name string, max int) {
	n := 0
	for k := 4; k <= max; k++ {
		es := shapes(0, k)
		n += len(es)
		const chunk = 64
		for lo := 0; lo < len(es); lo += chunk {
			part := es[lo:min(lo+chunk, len(es))]
			c.Case(func() string { return fmt.Sprintf("expressions of %d operands %d..., first %s", k, lo, part[0].Text()) }, func() error {
				res := ResDef{Name: "doc"}
				var tups []Tup
				for i := 0; i < k; i++ {
					res.Rels = append(res.Rels, rel(fmt.Sprint("c", i), "_this"))
					tups = append(tups, T("doc", "1", fmt.Sprint("c", i), []Sub{E("user", "u"), W("user")}[i%2]))
				}
				var qs []query
				for i, e := range part {
					d := RelDef{Name: fmt.Sprint("v", i), E: e, R: Any()}
					if i%2 == 1 {
						d = RelDef{Name: d.Name, Text: e.Text(), R: Any()}
					}
					res.Rels = append(res.Rels, d)
					qs = append(qs, query{node{Ent{"doc", "1"}, d.Name}, Ent{"user", "u"}})
				}
				c.Traces++
				return c.walk(polWith("p", ResDef{Name: "user"}, res), tups, qs)
			})
		}
	}
	c.Bounds_(name, "%d expressions of 4 to %d distinct operands (all nestings and operators) x all memberships in the operands", n, max)
}

// selNames: selectors tell apart what only differs in how names are divided
func selNames(c *Ctx) {
	names := namesAndAlike()
	c.Bounds_("C", "for each pair of components of a relationship, all pairs of %d names stored together x 11 selectors for each name, find, then delete every other one", len(names))
	for i := 0; i < 6; i++ {
		for j := i + 1; j < 6; j++ {
			c.Case(func() string { return fmt.Sprintf("all names in components %d and %d", i, j) }, func() error {
				set := map[Tup]bool{}
				for _, x := range names {
					for _, y := range names {
						v := []string{"a", "1", "a", "a", "1", "a"}
						v[i], v[j] = x, y
						for _, t := range []Tup{T(v[0], v[1], v[2], S(v[3], v[4], v[5])), T(v[0], v[1], v[2], E(v[3], v[4])), T(v[0], v[1], v[2], W(v[3]))} {
							set[t] = true
						}
					}
				}
				data := map[Tup]string{}
				for t := range set {
					data[t] = ""
				}
				ts := sortedTups(data)
				s, w, err := start(freePolicy("p", ts))
				if err != nil {
					return err
				}
				for k, t := range ts {
					if err := Step1(s, w, Op{K: KSet, Pid: "p", T: t, Data: fmt.Sprint(k)}); err != nil {
						return err
					}
					c.Transitions++
					if k%100 == 0 {
						c.Tick()
					}
				}
				c.State(w.Key())
				c.Traces++
				for k, x := range names {
					for m, sel := range []Sel{{OK: 'r', O: Ent{R: x}, LK: '*', SK: '*'}, {OK: 'x', O: Ent{x, "1"}, LK: '*', SK: '*'}, {OK: 'x', O: Ent{"a", x}, LK: '*', SK: '*'}, {OK: '*', LK: 'x', L: x, SK: '*'}, {OK: '*', LK: '*', SK: 'r', S: Sub{R: x}},
						{OK: '*', LK: '*', SK: 'x', S: E(x, "1")}, {OK: '*', LK: '*', SK: 'x', S: E("a", x)}, {OK: '*', LK: '*', SK: 'x', S: W(x)}, {OK: '*', LK: '*', SK: 'x', S: S(x, "1", "a")}, {OK: '*', LK: '*', SK: 'x', S: S("a", x, "a")}, {OK: '*', LK: '*', SK: 'x', S: S("a", "1", x)}} {
						c.Tick()
						c.Evaluations++
						c.Nontrivial++
						if err := Step1(s, w, Op{K: KFind, Pid: "p", Sel: sel}); err != nil {
							return err
						}
						if k%2 == 0 && m%4 == k/2%4 {
							c.Transitions++
							if err := Step1(s, w, Op{K: KDelSel, Pid: "p", Sel: sel}); err != nil {
								return err
							}
						}
					}
				}
				return Step1(s, w, Op{K: KFind, Pid: "p", Sel: SelAll})
			})
		}
	}
}

// restrHistories: the restriction in force is the one of the current policy
func restrHistories(c *Ctx) {
	items := []RItem{{Res: "user"}, {Res: "group"}, {Res: "group", Rel: "m", Set: true}, {Res: "doc", Rel: "v", Set: true}}
	var rs []Restr
	for set := 0; set < 1<<len(items); set++ {
		var r Restr
		for b := range items {
			if set>>b&1 == 1 {
				r.Items = append(r.Items, items[b])
			}
		}
		rs = append(rs, r)
	}
	rs = append(rs, Any())
	subs := []Sub{E("user", "1"), W("user"), E("group", "1"), W("group"), S("group", "1", "m"), S("group", "1", "v"), E("doc", "1"), S("doc", "1", "v"), S("doc", "1", "w")}
	c.Bounds_("D", "all ordered pairs of %d restrictions of one relation x %d subjects, before and after an update, its reversal, and deletion and creation; a second policy with the other restriction", len(rs), len(subs))
	for _, r1 := range rs {
		for _, r2 := range rs {
			c.Case(func() string { return fmt.Sprintf("restriction %+v, then %+v", r1, r2) }, func() error {
				kv := NewSpyKV()
				s, w, err := startOn(kv, restrPol(r1))
				if err != nil {
					return err
				}
				q := restrPol(r2)
				q.ID = "q"
				if err := Step1(s, w, Op{K: KCreate, Pol: q}); err != nil {
					return err
				}
				sets := func() error {
					for _, pid := range []string{"p", "q"} {
						for _, sub := range subs {
							if err := setCompare(c, kv, s, w, pid, Tup{Ent{"doc", "1"}, "v", sub}, false); err != nil {
								return err
							}
						}
					}
					return nil
				}
				for _, o := range []Op{{K: KList}, {K: KUpdate, Pol: restrPol(r2)}, {K: KUpdate, Pol: restrPol(r1)}, {K: KDelPol, Pid: "p"}, {K: KCreate, Pol: restrPol(r2)}} {
					if err := Step1(s, w, o); err != nil {
						return err
					}
					if err := sets(); err != nil {
						return err
					}
				}
				c.Traces++
				return nil
			})
		}
	}
}

// appData lists data which might be mistaken for something else
func appData() []string {
	out := []string{"", "\x00", "\x00\x00", "nil", "null", "{}", "\xff\xfe", "é", "\n", " ", "0"}
	for n := 1; n <= 300; n++ {
		b := make([]byte, n)
		for i := range b {
			b[i] = byte(i*7 + n)
		}
		out = append(out, string(b))
	}
	for b := 0; b < 256; b++ {
		out = append(out, string([]byte{byte(b)}), string([]byte{'x', byte(b), 'y'}))
	}
	for _, n := range []int{1023, 1024, 4096, 65535, 65536, 1 << 20} {
		out = append(out, string(make([]byte, n)))
	}
	return out
}

// dataFamily: app data comes back byte for byte, of relationships and of policies
func dataFamily(c *Ctx, name string, kind Kind) {
	ds := appData()
	c.Case(func() string { return "app data left out or empty" }, func() error { return emptyData(c, kind) })
	c.Bounds_(name, "data, no data and empty data in all sequences of length 4; %d app data values (every length to 300, every byte, up to 1 MiB), stored, overwritten by the next one and fetched", len(ds))
	const chunk = 50
	for lo := 0; lo < len(ds); lo += chunk {
		part := ds[lo:min(lo+chunk+1, len(ds))]
		c.Case(func() string { return fmt.Sprintf("app data %d...", lo) }, func() error {
			s, w, err := start(selPol("p"))
			if err != nil {
				return err
			}
			t := T("doc", "1", "v", E("user", "u"))
			for _, d := range part {
				ops := []Op{{K: KSet, Pid: "p", T: t, Data: d}, {K: KGet, Pid: "p", T: t}, {K: KFind, Pid: "p", Sel: SelAll}}
				if kind == KUpdate {
					ops = []Op{{K: KUpdate, Pol: selPol("p"), Data: d}, {K: KGetPol, Pid: "p"}, {K: KCreate, Pol: selPol("q"), Data: d}, {K: KGetPol, Pid: "q"}, {K: KDelPol, Pid: "q"}}
				}
				for _, o := range ops {
					c.Transitions++
					c.Evaluations++
					c.Nontrivial++
					if err := Step1(s, w, o); err != nil {
						if len(err.Error()) > 3000 {
							err = fmt.Errorf("%.3000s", err.Error())
						}
						return err
					}
				}
				c.Tick()
			}
			c.Traces++
			return nil
		})
	}
}

// variants: what a policy says besides names and expressions, and how it came to be, does not matter to
// any query: restrictions, forms of the expressions, descriptions, attributes, the order of definitions,
// unrelated resources with the same relation names, YAML, an update.
const nVariants = 1 << 7

func variantPol(v int, expr string) (p *Pol, prev *Pol) {
	p = histPol("p", expr)
	on := func(b int) bool { return v>>b&1 == 1 }
	if on(1) {
		p.Name, p.Doc, p.Attrs = "v", "a & b", map[string]string{"v": "_this", "": "x"}
	}
	tweak := func(d *RelDef) {
		if on(0) {
			d.R = Only(RItem{Res: "user"}, RItem{Res: "group", Rel: "m", Set: true})
			switch d.Name {
			case "parent":
				d.R = Only(RItem{Res: "doc"})
			case "b":
				d.R = Only(RItem{Res: "group", Rel: "m", Set: true}, RItem{Res: "user"}, RItem{Res: "doc"})
			case "v":
				d.R = Only()
			}
		}
		if on(1) {
			d.Doc = "_this"
		}
		if on(2) {
			d.E, _ = parseExpr(d.Text)
			d.Text = ""
		}
	}
	for i := range p.Res {
		for j := range p.Res[i].Rels {
			tweak(&p.Res[i].Rels[j])
		}
	}
	if on(3) {
		other := func(n string) ResDef {
			return ResDef{Name: n, Doc: "unrelated", Rels: []RelDef{rel("v", "_this"), rel("m", "v"), rel("a", "_this + v"), {Name: "b", Text: "_this", R: Only()}, {Name: "parent", Text: "v - a", R: Only(RItem{Res: n})}}}
		}
		p.Res = append(append([]ResDef{other("app")}, p.Res...), other("zoo"), ResDef{Name: "empty"})
	}
	if on(4) {
		rev := func(n int, swap func(i, j int)) {
			for i := 0; i < n/2; i++ {
				swap(i, n-1-i)
			}
		}
		rev(len(p.Res), func(i, j int) { p.Res[i], p.Res[j] = p.Res[j], p.Res[i] })
		for k := range p.Res {
			l := p.Res[k].Rels
			rev(len(l), func(i, j int) { l[i], l[j] = l[j], l[i] })
		}
	}
	if on(5) {
		prev = histPol("p", "b")
		prev.Res = append(prev.Res, ResDef{Name: "old", Rels: []RelDef{rel("v", "_this")}})
	}
	return p, prev
}

func variants(c *Ctx, name string, obs func(s Svc, w World, pid string, g *Graph) error) {
	exprs := []string{"a - b", "a & b", "parent->a + b"}
	tups := []Tup{T("doc", "1", "a", E("user", "u")), T("doc", "1", "b", S("group", "g", "m")), T("group", "g", "m", E("user", "u")), T("doc", "1", "parent", E("doc", "2")), T("doc", "2", "a", W("user")), T("doc", "2", "a", E("user", "x"))}
	c.Bounds_(name, "%d expressions x %d ways to write and to submit the policy (restrictions, form of the expressions, descriptions, unrelated resources, order, YAML, update) x 2^%d relationship sets", len(exprs), nVariants, len(tups))
	for _, e := range exprs {
		for v := 0; v < nVariants; v++ {
			if v>>6&1 == 1 && v>>2&1 == 1 { // YAML has no trees
				continue
			}
			c.Case(func() string { return fmt.Sprintf("v = %s written in way %07b", e, v) }, func() error {
				p, prev := variantPol(v, e)
				s, w := NewSys(NewSpyKV()), World{}
				create := Op{K: KCreate, Pol: p}
				if prev != nil {
					if err := Step1(s, w, Op{K: KCreate, Pol: prev}); err != nil {
						return err
					}
					create.K = KUpdate
				}
				if v>>6&1 == 1 {
					p.SortNames()
					create.Yaml = p.Yaml(0)
				}
				if err := Step1(s, w, create); err != nil {
					return err
				}
				for set := 0; set < 1<<len(tups); set++ {
					c.Tick()
					if set > 0 { // Gray code: one request per set
						k := 0
						for set>>k&1 == 0 {
							k++
						}
						o := Op{K: KSet, Pid: "p", T: tups[k]}
						if _, ok := w["p"].Rels[tups[k]]; ok {
							o.K = KDel
						}
						if err := Step1(s, w, o); err != nil {
							return err
						}
						c.Transitions++
					}
					if err := obs(s, w, "p", NewGraph(p, w["p"].Rels)); err != nil {
						return fmt.Errorf("%w\nstate:\n%v", err, w)
					}
				}
				c.State(polKey(p))
				c.Traces++
				return nil
			})
		}
	}
}

// emptyData: overwriting with no data and with empty data
func emptyData(c *Ctx, kind Kind) error {
	s, w, err := start(selPol("p"))
	if err != nil {
		return err
	}
	var fail error
	product(4, 4, func(ix []int) bool {
		t := T("doc", fmt.Sprint(ix), "v", E("user", "u"))
		for _, i := range ix {
			o := []Op{{Data: "x"}, {Data: "y"}, {}, {Empty: true}}[i]
			o.K, o.Pid, o.T = kind, "p", t
			q := Op{K: KGet, Pid: "p", T: t}
			if kind == KUpdate {
				o.Pol, q = selPol("p"), Op{K: KGetPol, Pid: "p"}
			}
			for _, o := range []Op{o, q} {
				c.Transitions++
				c.Evaluations++
				c.Nontrivial++
				if fail = Step1(s, w, o); fail != nil {
					fail = fmt.Errorf("%w\nin the sequence %v (0, 1: data; 2: none; 3: empty)", fail, ix)
					return false
				}
			}
		}
		c.Tick()
		return true
	})
	return fail
}
