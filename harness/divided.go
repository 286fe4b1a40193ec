package main

import (
	"fmt"
	"strings"
)

var separators = []string{"", ":", "/", "#", "@", " ", ".", ",", "|", "-", "->", "\x00", ", ", "\n", "_", "::", "\\", "="}

// divisions lists all ways to divide n words, joined by the separator, into k names
func divisions(words []string, sep string, k int) [][]string {
	if k == 1 {
		return [][]string{{strings.Join(words, sep)}}
	}
	var out [][]string
	for i := 1; i <= len(words)-k+1; i++ {
		for _, rest := range divisions(words[i:], sep, k-1) {
			out = append(out, append([]string{strings.Join(words[:i], sep)}, rest...))
		}
	}
	return out
}

// dividedTups lists the relationships which are the same text when their names are joined by the separator
func dividedTups(words []string, sep string) []Tup {
	var out []Tup
	for _, d := range divisions(words, sep, 5) {
		out = append(out, T(d[0], d[1], d[2], E(d[3], d[4])))
	}
	for _, d := range divisions(words, sep, 6) {
		out = append(out, T(d[0], d[1], d[2], S(d[3], d[4], d[5])))
	}
	for _, d := range divisions(words, sep, 4) {
		out = append(out, T(d[0], d[1], d[2], W(d[3])))
	}
	seen := map[Tup]bool{}
	uniq := out[:0]
	for _, t := range out { // without a separator, equal words make equal names
		if !seen[t] {
			seen[t] = true
			uniq = append(uniq, t)
		}
	}
	return uniq
}

// divided stores one by one, and then removes, all relationships whose names joined by a separator are the same text
func divided(c *Ctx, name string, obs func(s Svc, w World, pid string, g *Graph, tups []Tup) error) {
	n := 6
	if c.Thorough {
		n = 7
	}
	c.Bounds_(name, "all relationships whose names, joined by one of %d separators, are the same text of %d words (all different, all the same): stored one by one, then every other one removed, observed after each request", len(separators), n)
	for _, sep := range separators {
		for kind := 0; kind < 2; kind++ {
			c.Case(func() string { return fmt.Sprintf("names divided at %q, words %d", sep, kind) }, func() error {
				var words []string
				for i := 0; i < n; i++ {
					words = append(words, string(rune('a'+i*(1-kind))))
				}
				tups := dividedTups(words, sep)
				p := freePolicy("p", tups)
				s, w, err := start(p)
				if err != nil {
					return err
				}
				step := func(o Op) error {
					if err := Step1(s, w, o); err != nil {
						return err
					}
					c.Transitions++
					c.Tick()
					c.State(fmtTups(w["p"].Rels))
					if err := obs(s, w, "p", NewGraph(p, w["p"].Rels), tups); err != nil {
						return fmt.Errorf("%w\nafter %v\nstate:\n%v", err, o, w)
					}
					return nil
				}
				for i, t := range tups {
					if err := step(Op{K: KSet, Pid: "p", T: t, Data: fmt.Sprint(i)}); err != nil {
						return err
					}
				}
				for i := 0; i < len(tups); i += 2 {
					if err := step(Op{K: KDel, Pid: "p", T: tups[i]}); err != nil {
						return err
					}
				}
				c.Traces++
				return nil
			})
		}
	}
}

// dividedChecks asks for every entity at every object and relation of the relationships
func dividedChecks(c *Ctx) func(s Svc, w World, pid string, g *Graph, tups []Tup) error {
	return func(s Svc, w World, pid string, g *Graph, tups []Tup) error {
		return compareChecks(c, s, w[pid], pid, g, dividedQueries(tups))
	}
}

func dividedQueries(tups []Tup) []query {
	var qs []query
	nodes, ents := map[node]bool{}, map[Ent]bool{}
	var ns []node
	var es []Ent
	for _, t := range tups {
		if n := (node{t.O, t.L}); !nodes[n] {
			nodes[n] = true
			ns = append(ns, n)
		}
		if e := (Ent{t.S.R, t.S.I}); t.S.K == 'e' && !ents[e] {
			ents[e] = true
			es = append(es, e)
		}
	}
	for _, n := range ns {
		for _, e := range es {
			qs = append(qs, query{n, e})
		}
	}
	return qs
}

// dividedPolicies: as divided, the first name being the id of the policy
func dividedPolicies(c *Ctx, name string) {
	n := 7
	c.Bounds_(name, "all policy ids and relationships in them whose names, joined by one of %d separators, are the same text of %d words (all different, all the same)", len(separators), n)
	for _, sep := range separators {
		for kind := 0; kind < 2; kind++ {
			c.Case(func() string { return fmt.Sprintf("policy ids and names divided at %q, words %d", sep, kind) }, func() error {
				var words []string
				for i := 0; i < n; i++ {
					words = append(words, string(rune('a'+i*(1-kind))))
				}
				type entry struct {
					pid string
					t   Tup
				}
				var all []entry
				var pids []string
				of := map[string][]Tup{}
				for i := 1; i <= n-4; i++ {
					pid := strings.Join(words[:i], sep)
					pids = append(pids, pid)
					of[pid] = dividedTups(words[i:], sep)
					for _, t := range of[pid] {
						all = append(all, entry{pid, t})
					}
				}
				s, w := NewSys(NewSpyKV()), World{}
				for _, pid := range pids {
					if err := Step1(s, w, Op{K: KCreate, Pol: freePolicy(pid, of[pid])}); err != nil {
						return err
					}
				}
				observe := func(o Op) error {
					if err := Step1(s, w, o); err != nil {
						return err
					}
					c.Tick()
					c.Transitions++
					c.State(w.String())
					for _, pid := range append(pids, "other") {
						for _, q := range []Op{{K: KFind, Pid: pid, Sel: SelAll}, {K: KDump, Pid: pid}, {K: KGetPol, Pid: pid}} {
							c.Evaluations++
							c.Nontrivial++
							if err := Step1(s, w, q); err != nil {
								return fmt.Errorf("after %v: %w", o, err)
							}
						}
					}
					return nil
				}
				for i, e := range all {
					if err := observe(Op{K: KSet, Pid: e.pid, T: e.t, Data: fmt.Sprint(i)}); err != nil {
						return err
					}
				}
				for _, e := range all {
					if err := Step1(s, w, Op{K: KGet, Pid: e.pid, T: e.t}); err != nil {
						return err
					}
				}
				for i := 0; i < len(all); i += 3 {
					if err := observe(Op{K: KDel, Pid: all[i].pid, T: all[i].t}); err != nil {
						return err
					}
				}
				for i := 1; i < len(pids); i++ {
					if err := observe(Op{K: KDelPol, Pid: pids[i]}); err != nil {
						return err
					}
				}
				c.Traces++
				return nil
			})
		}
	}
}

// subjectSets: every set of subjects of one object and relation
func subjectSets(c *Ctx, name string, cyclic bool) {
	o := Ent{"doc", "1"}
	subs := []Sub{E("user", "u"), E("user", "x"), W("user"), S("doc", "1", "b"), S("doc", "2", "a"), S("doc", "2", "b"), S("group", "g", "m"), S("doc", "1", "a"), E("doc", "2"), W("doc"), E("group", "g")}
	if c.Thorough {
		subs = append(subs, S("doc", "1", "c"), S("group", "h", "m"), E("user", "y"))
	}
	defs := []string{"_this", "_this - b", "_this & c", "a->a", "_this + a->b"}
	c.Bounds_(name, "%d definitions x all 2^%d sets of subjects of one object and relation, every set of which has a member of its own (cyclic: %v), all members queried", len(defs), len(subs), cyclic)
	for _, d := range defs {
		for fix := 0; fix < 4; fix++ {
			c.Case(func() string {
				return fmt.Sprintf("sets of subjects, v = %s, first subjects %02b, cyclic: %v", d, fix, cyclic)
			}, func() error {
				rels := func(v string) []RelDef {
					return []RelDef{rel("a", "_this"), rel("b", "_this"), rel("c", "_this"), rel("v", v)}
				}
				p := polWith("p", ResDef{Name: "user"}, ResDef{Name: "group", Rels: append(rels("_this"), rel("m", "_this"))}, ResDef{Name: "doc", Rels: rels(d)})
				s, w, err := start(p)
				if err != nil {
					return err
				}
				var base []Tup
				qs := []query{}
				ask := func(e Ent) {
					qs = append(qs, query{node{o, "v"}, e}, query{node{o, "a"}, e})
				}
				ask(Ent{"user", "u"})
				ask(Ent{"user", "x"})
				ask(Ent{"doc", "2"})
				ask(Ent{"doc", "9"})
				for i, sub := range subs {
					if sub.K != 's' {
						continue
					}
					m := Ent{"group", fmt.Sprint("member ", i)}
					if sub.I != "1" || sub.L != "a" {
						base = append(base, T(sub.R, sub.I, sub.L, E(m.R, m.I)))
					}
					ask(m)
					if cyclic {
						base = append(base, T(sub.R, sub.I, sub.L, S("doc", "1", "a")), T(sub.R, sub.I, sub.L, S("doc", "1", "v")))
					}
				}
				base = append(base, T("doc", "1", "c", E("user", "u")), T("group", "g", "a", E("user", "q")), T("doc", "2", "a", E("user", "r")))
				ask(Ent{"user", "q"})
				ask(Ent{"user", "r"})
				for _, l := range []string{"a", "v"} {
					for b := 0; b < 2; b++ {
						if fix>>b&1 == 1 {
							base = append(base, T("doc", "1", l, subs[b]))
						}
					}
				}
				for _, t := range base {
					if err := Step1(s, w, Op{K: KSet, Pid: "p", T: t}); err != nil {
						return err
					}
				}
				g := NewGraph(p, w["p"].Rels)
				rest := subs[2:]
				for set := 0; set < 1<<len(rest); set++ {
					c.Tick()
					if set > 0 {
						k := 0
						for set>>k&1 == 0 {
							k++
						}
						for _, l := range []string{"a", "v"} {
							t := T("doc", "1", l, rest[k])
							op := Op{K: KSet, Pid: "p", T: t}
							if _, ok := w["p"].Rels[t]; ok {
								op.K = KDel
							}
							if err := Step1(s, w, op); err != nil {
								return err
							}
							c.Transitions++
						}
					}
					c.State(fmt.Sprint(d, cyclic, fix, set))
					if err := compareChecks(c, s, w["p"], "p", g, qs); err != nil {
						return err
					}
				}
				c.Traces++
				return nil
			})
		}
	}
}

// dividedNodes: entity sets whose names joined by a separator are the same text, met in one search: side by side, one
// inside another, and as the objects of a tupleset
func dividedNodes(c *Ctx, name string, obs func(s Svc, w World, pid string, g *Graph, qs []query) error) {
	n := 5
	if c.Thorough {
		n = 6
	}
	c.Bounds_(name, "all entity sets whose names, joined by one of %d separators, are the same text of %d words (all different, all the same), met in one search: side by side with one of them holding the subject, every ordered pair one inside the other, and as objects of a tupleset", len(separators), n)
	for _, sep := range separators {
		for kind := 0; kind < 2; kind++ {
			c.Case(func() string { return fmt.Sprintf("entity sets divided at %q, words %d", sep, kind) }, func() error {
				var words []string
				for i := 0; i < n; i++ {
					words = append(words, string(rune('a'+i*(1-kind))))
				}
				var sets []Sub
				for _, d := range divisions(words, sep, 3) {
					sets = append(sets, S(d[0], d[1], d[2]))
				}
				for _, d := range divisions(words[:n-1], sep, 2) { // the same last name
					if x := S(d[0], d[1], words[n-1]); !contains(sets, x) {
						sets = append(sets, x)
					}
				}
				u := E("user", "u")
				var all []Tup
				for i, x := range sets {
					all = append(all, T("root", "1", "r", x), T("root", fmt.Sprint("e", i), "par", E(x.R, x.I)), T(x.R, x.I, x.L, u))
					for _, y := range sets {
						all = append(all, T(x.R, x.I, x.L, y))
					}
				}
				p := freePolicy("p", all)
				last := words[n-1]
				for i := range p.Res {
					if p.Res[i].Name == "root" {
						p.Res[i].Rels = append(p.Res[i].Rels, rel("t", "par->"+last))
					}
				}
				s, w, err := start(p)
				if err != nil {
					return err
				}
				step := func(k Kind, ts ...Tup) error {
					for _, t := range ts {
						c.Transitions++
						c.Tick()
						if err := Step1(s, w, Op{K: k, Pid: "p", T: t}); err != nil {
							return err
						}
					}
					return nil
				}
				ask := func(qs ...query) error {
					c.State(fmtTups(w["p"].Rels))
					if err := obs(s, w, "p", NewGraph(p, w["p"].Rels), qs); err != nil {
						return fmt.Errorf("%w\nstate:\n%v", err, w)
					}
					return nil
				}
				at := func(x Sub) node { return node{Ent{x.R, x.I}, x.L} }
				us := Ent{"user", "u"}
				// side by side
				for _, x := range sets {
					if err := step(KSet, T("root", "1", "r", x)); err != nil {
						return err
					}
				}
				for _, x := range sets {
					t := T(x.R, x.I, x.L, u)
					if err := step(KSet, t); err != nil {
						return err
					}
					if err := ask(query{node{Ent{"root", "1"}, "r"}, us}); err != nil {
						return err
					}
					if err := step(KDel, t); err != nil {
						return err
					}
				}
				// one inside the other
				for _, x := range sets {
					for _, y := range sets {
						if x == y {
							continue
						}
						ts := []Tup{T(x.R, x.I, x.L, y), T(y.R, y.I, y.L, u)}
						if err := step(KSet, ts...); err != nil {
							return err
						}
						if err := ask(query{at(x), us}, query{at(y), us}); err != nil {
							return err
						}
						if err := step(KDel, ts...); err != nil {
							return err
						}
					}
				}
				// objects of a tupleset
				for _, x := range sets {
					if x.L != last {
						continue
					}
					if err := step(KSet, T("root", "1", "par", E(x.R, x.I))); err != nil {
						return err
					}
				}
				for _, x := range sets {
					t := T(x.R, x.I, x.L, u)
					if err := step(KSet, t); err != nil {
						return err
					}
					if err := ask(query{node{Ent{"root", "1"}, "t"}, us}); err != nil {
						return err
					}
					if err := step(KDel, t); err != nil {
						return err
					}
				}
				c.Traces++
				return nil
			})
		}
	}
}

func contains(xs []Sub, x Sub) bool {
	for _, y := range xs {
		if x == y {
			return true
		}
	}
	return false
}
