package main

import (
	"fmt"
	"sort"
	"strings"

	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/types/known/timestamppb"

	"github.com/sourcenetwork/zanzi/pkg/api"
	"github.com/sourcenetwork/zanzi/pkg/domain"
)

func init() {
	register(&Check{ID: "C09", Level: "model_checking",
		Rule:  "every subset of the restriction items of a policy (and universal, absent, repeated, long lists) x every relationship over defined, undefined, empty and look-alike names and all subject kinds, and every incomplete message: acceptance compared with the reference admission rule, store bytes compared on refusal, complete observation on acceptance. Non-trivial: all components are present.",
		Assum: []string{"the store is an in-memory KV owned by the harness", "a relation without subject restriction is left open by the property"},
		Run:   runC09})
	register(&Check{ID: "C10", Level: "model_checking",
		Rule:  "every policy of bounded families (names, relations, expressions, restrictions; each defect at each position; malformed messages) submitted to CreatePolicy and UpdatePolicy in structured and YAML form: acceptance compared with the reference validation, store bytes compared on rejection. Non-trivial: the policy has at least one relation.",
		Assum: []string{"the store is an in-memory KV owned by the harness", "the computed relation of a tuple-to-userset rule is not constrained"},
		Run:   runC10})
	register(&Check{ID: "C11", Level: "model_checking",
		Rule:  "all request sequences up to the length bound over two policy ids (create, update, delete, set, delete relationship), each from a fresh instance, observed after every request and, separately, only at the end; responses and creation times compared with the reference model; size sweeps. Non-trivial: the sequence changes the state at least twice.",
		Assum: []string{"the store is an in-memory KV owned by the harness"},
		Run:   runC11})
}

// restrPol is the policy of C09: relation doc#v has the given restriction
func restrPol(r Restr) *Pol {
	return polWith("p",
		ResDef{Name: "user"},
		ResDef{Name: "group", Rels: []RelDef{rel("m", "_this"), rel("v", "_this")}},
		ResDef{Name: "doc", Rels: []RelDef{{Name: "v", Text: "_this", R: r}, rel("w", "_this"), {Name: "computed", Text: "v", R: Only(RItem{Res: "user"})}}})
}

func restrRels() []Tup {
	var subs []Sub
	for _, r := range []string{"user", "group", "doc", "nores", "", "User", "use", "users", "*"} {
		subs = append(subs, W(r))
		for _, i := range []string{"1", "", "*"} {
			subs = append(subs, E(r, i))
			for _, l := range []string{"m", "v", "w", "none", "", "*", "V"} {
				subs = append(subs, S(r, i, l))
			}
		}
	}
	var out []Tup
	for _, o := range []Ent{{"doc", "1"}, {"doc", ""}, {"group", "1"}, {"user", "1"}, {"nores", "1"}, {"", "1"}, {"Doc", "1"}} {
		for _, l := range []string{"v", "w", "computed", "m", "none", "", "V"} {
			if l == "w" && o.I == "" {
				continue
			}
			for _, s := range subs {
				out = append(out, Tup{o, l, s})
			}
		}
	}
	return out
}

func setCompare(c *Ctx, kv *SpyKV, s Svc, w World, pid string, t Tup, observe bool) error {
	before := kv.Dump()
	o := Op{K: KSet, Pid: pid, T: t, Data: "d"}
	complete := t.O.R != "" && t.O.I != "" && t.L != "" && t.S.R != ""
	c.Evaluations++
	if complete {
		c.Nontrivial++
	}
	var open bool
	if ps := w[pid]; ps != nil {
		_, open = ps.Pol.Admits(t)
	}
	if open {
		got, _ := o.RunErr(s)
		c.Outcome("left open: " + got)
		if got == ERR && kv.Dump() != before {
			return fmt.Errorf("%v was refused but changed the store\nstate:\n%v", o, w)
		}
		if got != ERR {
			w[pid].Rels[t] = "d"
			return Step(s, w, Op{K: KDel, Pid: pid, T: t})
		}
		return nil
	}
	if err := Step1(s, w, o); err != nil {
		return err
	}
	_, stored := map[Tup]string{}, false
	if w[pid] != nil {
		_, stored = w[pid].Rels[t]
	}
	if !stored {
		c.Outcome("refused")
		if kv.Dump() != before {
			return fmt.Errorf("%v was refused but changed the store\nstate:\n%v", o, w)
		}
		return nil
	}
	c.Outcome("stored")
	c.State(polKey(w[pid].Pol) + t.String())
	c.Transitions++
	if observe {
		if err := c.observe(s, w, []string{pid}, []Tup{t}, nil); err != nil {
			return err
		}
	}
	return Step1(s, w, Op{K: KDel, Pid: pid, T: t})
}

func runC09(c *Ctx) {
	items := []RItem{{Res: "user"}, {Res: "group"}, {Res: "doc"}, {Res: "group", Rel: "m", Set: true}, {Res: "doc", Rel: "v", Set: true}, {Res: "doc", Rel: "w", Set: true}}
	tups := restrRels()
	var restrs []Restr
	for set := 0; set < 1<<len(items); set++ {
		var r Restr
		for b := range items {
			if set>>b&1 == 1 {
				r.Items = append(r.Items, items[b])
			}
		}
		restrs = append(restrs, r)
		if len(r.Items) > 1 { // in the other order
			q := Restr{}
			for i := len(r.Items) - 1; i >= 0; i-- {
				q.Items = append(q.Items, r.Items[i])
			}
			restrs = append(restrs, q)
		}
	}
	restrs = append(restrs, Any(), Restr{None: true}, Only(items[0], items[0]), Only(items[3], items[0], items[3]))
	c.Bounds_("A", "%d restrictions x %d relationships", len(restrs), len(tups))
	for _, r := range restrs {
		for yaml := 0; yaml < 2; yaml++ {
			if yaml == 1 && r.None {
				continue
			}
			c.Case(func() string { return fmt.Sprintf("restriction %+v, yaml %v", r, yaml) }, func() error {
				p := restrPol(r)
				kv := NewSpyKV()
				s := NewSys(kv)
				w := World{}
				cr := Op{K: KCreate, Pol: p}
				if yaml == 1 {
					p.SortNames()
					cr.Yaml = p.Yaml(0)
				}
				if err := Step1(s, w, cr); err != nil {
					return err
				}
				for i, t := range tups {
					if err := setCompare(c, kv, s, w, "p", t, true); err != nil {
						return err
					}
					if i%100 == 0 {
						c.Tick()
					}
				}
				c.Traces++
				c.Sample("%v every relationship", p)
				return nil
			})
		}
	}
	// position of the admitting item in long restriction lists
	c.Bounds_("B", "restriction lists of length 1..70, admitting item at every position")
	for n := 1; n <= 70; n++ {
		c.Case(func() string { return fmt.Sprintf("restriction list of length %d", n) }, func() error {
			p := polWith("p", ResDef{Name: "doc", Rels: []RelDef{{Name: "v", Text: "_this"}}})
			d := &p.Res[0].Rels[0]
			for i := 0; i < n; i++ {
				name := fmt.Sprint("r", i)
				p.Res = append(p.Res, ResDef{Name: name, Rels: []RelDef{rel("m", "_this")}})
				d = &p.Res[0].Rels[0]
				d.R.Items = append(d.R.Items, RItem{Res: name, Rel: "m", Set: i%2 == 1})
				if i%2 == 0 {
					d.R.Items[i].Rel = ""
				}
			}
			kv := NewSpyKV()
			s, w, err := startOn(kv, p)
			if err != nil {
				return err
			}
			for i := 0; i < n; i++ {
				name := fmt.Sprint("r", i)
				for _, sub := range []Sub{E(name, "1"), S(name, "1", "m"), W(name)} {
					if err := setCompare(c, kv, s, w, "p", Tup{Ent{"doc", "1"}, "v", sub}, false); err != nil {
						return err
					}
				}
			}
			c.Traces++
			return nil
		})
	}
	// the same name as a resource, as a relation and as an id
	co := []string{"x", "y"}
	var coItems []RItem
	for _, r := range co {
		coItems = append(coItems, RItem{Res: r})
		for _, l := range co {
			coItems = append(coItems, RItem{Res: r, Rel: l, Set: true})
		}
	}
	var coTups []Tup
	var coSubs []Sub
	for _, r := range append(co, "z") {
		coSubs = append(coSubs, W(r))
		for _, i := range append(co, "*") {
			coSubs = append(coSubs, E(r, i))
			for _, l := range append(co, "z") {
				coSubs = append(coSubs, S(r, i, l))
			}
		}
	}
	for _, o := range co {
		for _, l := range co {
			for _, s := range coSubs {
				coTups = append(coTups, Tup{Ent{o, "x"}, l, s})
			}
		}
	}
	c.Bounds_("C", "resources and relations named alike: every restriction set over %d items for relation x of resource x, its complement for relation y of resource y x %d relationships", len(coItems), len(coTups))
	for set := 0; set < 1<<len(coItems); set++ {
		c.Case(func() string { return fmt.Sprintf("coinciding names, restrictions %06b", set) }, func() error {
			var r, q Restr
			for b, it := range coItems {
				if set>>b&1 == 1 {
					r.Items = append(r.Items, it)
				} else {
					q.Items = append(q.Items, it)
				}
			}
			kv := NewSpyKV()
			s, w, err := startOn(kv, polWith("p",
				ResDef{Name: "x", Rels: []RelDef{{Name: "x", Text: "_this", R: r}, {Name: "y", Text: "x", R: Only(coItems[set%6])}}},
				ResDef{Name: "y", Rels: []RelDef{{Name: "x", Text: "_this", R: Any()}, {Name: "y", Text: "_this", R: q}}}))
			if err != nil {
				return err
			}
			for i, t := range coTups {
				if i%50 == 0 {
					c.Tick()
				}
				if err := setCompare(c, kv, s, w, "p", t, true); err != nil {
					return err
				}
			}
			c.Traces++
			return nil
		})
	}
	// names which run into each other when they are joined
	joined := []string{"a", "b", "ab", "ba", "aa", "a/b", "a#b", "/", "#", "a:b", "a.b", "A", " a", "a b"}
	c.Bounds_("D", "%d names as resources and as relations: every single restriction x every subject of the resources and relations", len(joined))
	for i1 := range joined {
		for k := -1; k < len(joined); k++ {
			it := RItem{Res: joined[i1]}
			if k >= 0 {
				it = RItem{Res: joined[i1], Rel: joined[k], Set: true}
			}
			c.Case(func() string { return fmt.Sprintf("joined names, restriction %+v", it) }, func() error {
				p := polWith("p")
				for _, r := range joined {
					def := ResDef{Name: r}
					for _, l := range joined {
						def.Rels = append(def.Rels, RelDef{Name: l, Text: "_this", R: Only()})
					}
					p.Res = append(p.Res, def)
				}
				o, l := joined[(i1+k+1)%len(joined)], joined[(k+1)*3%len(joined)]
				p.Rel(o, l).R = Only(it)
				kv := NewSpyKV()
				s, w, err := startOn(kv, p)
				if err != nil {
					return err
				}
				try := func(o, l string, x Sub) error {
					return setCompare(c, kv, s, w, "p", Tup{Ent{o, "1"}, l, x}, false)
				}
				for _, r := range joined {
					c.Tick()
					for _, x := range append([]Sub{E(r, "1"), W(r)}, func() (out []Sub) {
						for _, m := range joined {
							out = append(out, S(r, "1", m))
						}
						return
					}()...) {
						if err := try(o, l, x); err != nil {
							return err
						}
					}
				}
				good := E(it.Res, "1")
				if it.Set {
					good = S(it.Res, "1", it.Rel)
				}
				for _, r := range joined {
					for _, m := range joined {
						if err := try(r, m, good); err != nil {
							return err
						}
					}
				}
				c.Traces++
				return nil
			})
		}
	}
	// undefined names which are similar to defined ones
	pairs := namePairs()
	for _, x := range []string{" user", "user ", "user\n", "\tuser", "User", "USER", "user\x00", "user/", "/user", "users", "use", "user:", "user#", "user1", "us er", "user\u00a0", "user\ufeff", ".user", "user.", "usër", "_user", "user_", "u", "ⓤser", "ſ"} {
		pairs = append(pairs, [2]string{"user", x}, [2]string{x, "user"})
	}
	pairs = append(pairs, [2]string{"s", "ſ"}, [2]string{"K", "\u212a"}, [2]string{"k", "\u212a"}, [2]string{"ß", "ss"}, [2]string{"İ", "i"}, [2]string{"ﬁ", "fi"})
	c.Bounds_("E", "%d pairs of a defined and an undefined name: every component of a relationship of every kind has the undefined name in turn, without restriction and restricted to the defined names", len(pairs))
	for _, pair := range pairs {
		a, b := pair[0], pair[1]
		c.Case(func() string { return fmt.Sprintf("%q is defined, %q is not", a, b) }, func() error {
			for _, r := range []Restr{Any(), Only(RItem{Res: a}, RItem{Res: a, Rel: a, Set: true})} {
				kv := NewSpyKV()
				s, w, err := startOn(kv, polWith("p", ResDef{Name: a, Rels: []RelDef{{Name: a, Text: "_this", R: r}, {Name: "other", Text: "_this", R: r}}}, ResDef{Name: "other", Rels: []RelDef{{Name: "other", Text: "_this", R: r}}}))
				if err != nil {
					return err
				}
				for m := 0; m < 1<<4; m++ {
					n := func(i int) string {
						if m>>i&1 == 1 {
							return b
						}
						return a
					}
					for _, t := range []Tup{T(n(0), "1", n(1), E(n(2), "2")), T(n(0), "1", n(1), S(n(2), "2", n(3))), T(n(0), "1", n(1), W(n(2)))} {
						if err := setCompare(c, kv, s, w, "p", t, false); err != nil {
							return err
						}
					}
				}
				c.Tick()
			}
			c.Traces++
			return nil
		})
	}
	// existing relationships, missing policies, after updates
	c.Case(func() string { return "other policies, updates, overwrites" }, func() error {
		kv := NewSpyKV()
		s, w, err := startOn(kv, restrPol(Only(items[0])))
		if err != nil {
			return err
		}
		for _, pid := range []string{"q", "", "P", "pp"} {
			for i, t := range tups {
				if i%7 == 0 {
					if err := setCompare(c, kv, s, w, pid, t, false); err != nil {
						return err
					}
				}
			}
		}
		pols := []*Pol{restrPol(Only(items[3])), restrPol(Any()), restrPol(Only()), restrPol(Only(items[0], items[4]))}
		for _, p := range pols {
			if err := Step1(s, w, Op{K: KUpdate, Pol: p}); err != nil {
				return err
			}
			for _, t := range tups {
				if err := setCompare(c, kv, s, w, "p", t, false); err != nil {
					return err
				}
			}
			c.Tick()
		}
		// a relationship that is stored but no longer admitted may not be set again
		if err := Step1(s, w, Op{K: KUpdate, Pol: pols[1]}); err != nil {
			return err
		}
		t := T("doc", "1", "v", S("group", "1", "m"))
		for _, o := range []Op{{K: KSet, Pid: "p", T: t, Data: "1"}, {K: KUpdate, Pol: restrPol(Only(items[0]))}, {K: KSet, Pid: "p", T: t, Data: "2"}, {K: KGet, Pid: "p", T: t}, {K: KFind, Pid: "p", Sel: SelAll}} {
			if err := Step1(s, w, o); err != nil {
				return err
			}
		}
		return nil
	})
	// incomplete messages
	c.Case(func() string { return "incomplete messages" }, func() error {
		full := func() *domain.Relationship { return T("doc", "1", "v", E("user", "1")).Proto() }
		muts := map[string]func(r *api.SetRelationshipRequest){
			"no relationship":        func(r *api.SetRelationshipRequest) { r.Relationship = nil },
			"empty relationship":     func(r *api.SetRelationshipRequest) { r.Relationship = &domain.Relationship{} },
			"no object":              func(r *api.SetRelationshipRequest) { r.Relationship.Object = nil },
			"empty object":           func(r *api.SetRelationshipRequest) { r.Relationship.Object = &domain.Entity{} },
			"no subject":             func(r *api.SetRelationshipRequest) { r.Relationship.Subject = nil },
			"empty subject":          func(r *api.SetRelationshipRequest) { r.Relationship.Subject = &domain.Subject{} },
			"subject without entity": func(r *api.SetRelationshipRequest) { r.Relationship.Subject.Subject = &domain.Subject_Entity{} },
			"subject with empty entity": func(r *api.SetRelationshipRequest) {
				r.Relationship.Subject.Subject = &domain.Subject_Entity{Entity: &domain.Entity{}}
			},
			"subject without set": func(r *api.SetRelationshipRequest) { r.Relationship.Subject.Subject = &domain.Subject_EntitySet{} },
			"subject with empty set": func(r *api.SetRelationshipRequest) {
				r.Relationship.Subject.Subject = &domain.Subject_EntitySet{EntitySet: &domain.EntitySet{}}
			},
			"set without entity": func(r *api.SetRelationshipRequest) {
				r.Relationship.Subject.Subject = &domain.Subject_EntitySet{EntitySet: &domain.EntitySet{Relation: "m"}}
			},
			"set without relation": func(r *api.SetRelationshipRequest) {
				r.Relationship.Subject.Subject = &domain.Subject_EntitySet{EntitySet: &domain.EntitySet{Entity: &domain.Entity{Resource: "group", Id: "1"}}}
			},
			"subject without resource": func(r *api.SetRelationshipRequest) { r.Relationship.Subject.Subject = &domain.Subject_ResourceSet{} },
			"subject with empty resource": func(r *api.SetRelationshipRequest) {
				r.Relationship.Subject.Subject = &domain.Subject_ResourceSet{ResourceSet: &domain.ResourceSet{}}
			},
			"no relation": func(r *api.SetRelationshipRequest) { r.Relationship.Relation = "" },
			"no policy":   func(r *api.SetRelationshipRequest) { r.PolicyId = "" },
		}
		for _, restr := range []Restr{Any(), Only(items[0]), Only(items...), {None: true}, Only()} {
			kv := NewSpyKV()
			s, w, err := startOn(kv, restrPol(restr))
			if err != nil {
				return err
			}
			for name, m := range muts {
				r := &api.SetRelationshipRequest{PolicyId: "p", Relationship: full()}
				m(r)
				before := kv.Dump()
				c.Evaluations++
				if resp, err := call(s, r); err == nil {
					return fmt.Errorf("SetRelationship with %s was accepted: %v\n%v", name, resp, w)
				}
				if kv.Dump() != before {
					return fmt.Errorf("SetRelationship with %s was refused but changed the store", name)
				}
			}
		}
		return nil
	})
	restrHistories(c)
}

// ---- C10 ----

func polCompare(c *Ctx, p *Pol, yaml string, want bool) error {
	// create on a store with another policy, and update of an existing policy
	for _, upd := range []bool{false, true} {
		kv := NewSpyKV()
		s := NewSys(kv)
		w := World{}
		other := selPol("other")
		base := selPol(p.ID)
		setup := []Op{{K: KCreate, Pol: other}}
		if upd {
			if p.ID == "" || p.ID == "other" {
				continue
			}
			setup = append(setup, Op{K: KCreate, Pol: base, Data: "old"})
		}
		for _, o := range setup {
			if err := Step1(s, w, o); err != nil {
				return err
			}
		}
		before := kv.Dump()
		o := Op{K: KCreate, Pol: p, Data: "new", Yaml: yaml}
		if upd {
			o.K = KUpdate
		}
		c.Evaluations++
		n := 0
		for i := range p.Res {
			n += len(p.Res[i].Rels)
		}
		if n > 0 {
			c.Nontrivial++
		}
		got, err := o.RunErr(s)
		if (got != ERR) != want {
			return fmt.Errorf("%v\naccepted: %v (error: %v), expected acceptance: %v", o, got != ERR, err, want)
		}
		c.Outcome(fmt.Sprintf("%s accepted=%v", kindName[o.K], want))
		if !want {
			if kv.Dump() != before {
				return fmt.Errorf("%v\nwas rejected but changed the store", o)
			}
			continue
		}
		c.Transitions++
		w[p.ID] = &PState{Pol: p, Data: "new", Rels: map[Tup]string{}}
		c.State(polKey(p))
		if yaml == "" {
			if err := c.observe(s, w, []string{p.ID, "other"}, nil, nil); err != nil {
				return err
			}
		} else if err := Step1(s, w, Op{K: KList}); err != nil {
			return err
		}
	}
	return nil
}

func polBoth(c *Ctx, p *Pol) error {
	want := p.Valid()
	if err := polCompare(c, p, "", want); err != nil {
		return err
	}
	if y, ok := p.yamlForm(); ok {
		q := *p
		q.SortNames()
		return polCompare(c, &q, y, want)
	}
	return nil
}

// yamlForm renders the policy if YAML can express it
func (p *Pol) yamlForm() (string, bool) {
	seen := map[string]bool{}
	for i := range p.Res {
		if seen[p.Res[i].Name] {
			return "", false
		}
		seen[p.Res[i].Name] = true
		rs := map[string]bool{}
		for j := range p.Res[i].Rels {
			d := &p.Res[i].Rels[j]
			if rs[d.Name] || d.NoExpr || d.R.None {
				return "", false
			}
			rs[d.Name] = true
			for _, it := range d.R.Items {
				if it.Set && strings.Contains(it.Res, ":") || !it.Set && (strings.Contains(it.Res, ":") || it.Res == "*") {
					return "", false
				}
			}
		}
	}
	return p.Yaml(0), true
}

func runC10(c *Ctx) {
	exprs := []RelDef{
		{Text: "_this"}, {Text: "x"}, {Text: "y"}, {Text: "x + y"}, {Text: "x->anything"}, {Text: "nope->x"}, {Text: "_this & (x - y)"}, {Text: ""}, {Text: "x +"}, {Text: "(x"}, {Text: "x y"}, {Text: "X"},
		{E: This()}, {E: Bin(This(), '-', Cu("y"))}, {E: Cu("nope")}, {E: Ttu("y", "zzz")}, {E: Ttu("nope", "x")}, {NoExpr: true},
		{E: Cu("y")}, {E: Cu("x")}, {E: Bin(Cu("x"), '+', Cu("y"))}, {E: Ttu("x", "x")},
	}
	restrs := []Restr{Any(), {None: true}, Only(), Only(RItem{Res: "a"}), Only(RItem{Res: "b"}), Only(RItem{Res: "b", Rel: "x", Set: true}), Only(RItem{Res: "a", Rel: "y", Set: true}), Only(RItem{Res: "a"}, RItem{Res: "nope"}), Only(RItem{Res: ""}), Only(RItem{Res: "b", Rel: "", Set: true})}
	shapes := [][]string{{}, {"x"}, {"x", "y"}, {"y", "x"}, {"x", "x"}, {"", "x"}, {"x", "y", "x"}}
	names := [][]string{{"a"}, {"a", "b"}, {"b", "a"}, {"a", "a"}, {"a", ""}, {"", "a"}, {}, {"a", "b", "a"}, {"a", "A"}}
	if !c.Thorough {
		restrs = restrs[:8]
	}
	c.Bounds_("A", "%d resource name lists x %d relation name lists x %d expressions x %d restrictions (of the first relation of the first resource; the second resource has relation x), create and update, structured and YAML", len(names), len(shapes), len(exprs), len(restrs))
	for _, rn := range names {
		for _, sh := range shapes {
			for ei, ex := range exprs {
				c.Case(func() string { return fmt.Sprintf("resources %q, relations %q, expression %d", rn, sh, ei) }, func() error {
					for _, r := range restrs {
						p := polWith("p")
						for i, n := range rn {
							res := ResDef{Name: n}
							if i == 0 {
								for j, l := range sh {
									d := rel(l, "_this")
									if j == 0 {
										d = ex
										d.Name, d.R = l, r
									}
									res.Rels = append(res.Rels, d)
								}
							} else {
								res.Rels = []RelDef{rel("x", "_this")}
							}
							p.Res = append(p.Res, res)
						}
						if err := polBoth(c, p); err != nil {
							return err
						}
					}
					c.Traces++
					return nil
				})
			}
		}
	}
	// each defect at each position
	maxN := 7
	if c.Thorough {
		maxN = 20
	}
	defects := map[string]func(p *Pol, i, j int){
		"none":               func(p *Pol, i, j int) {},
		"empty relation":     func(p *Pol, i, j int) { p.Res[i].Rels[j].Name = "" },
		"repeated relation":  func(p *Pol, i, j int) { p.Res[i].Rels[j].Name = p.Res[i].Rels[(j+1)%len(p.Res[i].Rels)].Name },
		"empty resource":     func(p *Pol, i, j int) { p.Res[i].Name = "" },
		"repeated resource":  func(p *Pol, i, j int) { p.Res[i].Name = p.Res[(i+1)%len(p.Res)].Name },
		"dangling computed":  func(p *Pol, i, j int) { p.Res[i].Rels[j].Text = "_this + nope" },
		"dangling tupleset":  func(p *Pol, i, j int) { p.Res[i].Rels[j].Text = "nope->l0" },
		"malformed":          func(p *Pol, i, j int) { p.Res[i].Rels[j].Text = "l0 - " },
		"no expression":      func(p *Pol, i, j int) { p.Res[i].Rels[j].NoExpr = true },
		"restriction":        func(p *Pol, i, j int) { p.Res[i].Rels[j].R = Only(RItem{Res: "nope"}) },
		"restriction set":    func(p *Pol, i, j int) { p.Res[i].Rels[j].R = Only(RItem{Res: "r0", Rel: "nope", Set: true}) },
		"restriction set 2":  func(p *Pol, i, j int) { p.Res[i].Rels[j].R = Only(RItem{Res: "r0", Rel: "other0", Set: true}) },
		"no restriction":     func(p *Pol, i, j int) { p.Res[i].Rels[j].R = Restr{None: true} },
		"sibling's relation": func(p *Pol, i, j int) { p.Res[i].Rels[j].Text = fmt.Sprint("other", (i+1)%len(p.Res)) },
		"relation removed": func(p *Pol, i, j int) {
			p.Res[i].Rels = append(append([]RelDef{}, p.Res[i].Rels[:j]...), p.Res[i].Rels[j+1:]...)
		},
		"computed, restr.": func(p *Pol, i, j int) {
			d := &p.Res[i].Rels[j]
			d.Text, d.E, d.R = "", Cu("l0"), Only(RItem{Res: "nope"})
		},
		"description": func(p *Pol, i, j int) { p.Res[i].Rels[j].Doc = "words" },
	}
	var dn []string
	for k := range defects {
		dn = append(dn, k)
	}
	sort.Strings(dn)
	c.Bounds_("B", "%d defects at every position of policies with 1..%d resources and 1..%d relations; all pairs of defects at corners", len(dn), maxN, maxN)
	mk := func(nr, nl int) *Pol {
		p := polWith("p")
		for i := 0; i < nr; i++ {
			r := ResDef{Name: fmt.Sprint("r", i)}
			for j := 0; j < nl; j++ {
				d := rel(fmt.Sprint("l", j), "_this")
				if j > 0 {
					d.Text = fmt.Sprintf("_this + l%d", j-1)
					d.R = Only(RItem{Res: "r0"}, RItem{Res: "r0", Rel: "l0", Set: true})
				}
				r.Rels = append(r.Rels, d)
			}
			r.Rels = append(r.Rels, rel(fmt.Sprint("other", i), "_this"))
			p.Res = append(p.Res, r)
		}
		return p
	}
	for nr := 1; nr <= maxN; nr++ {
		for nl := 1; nl <= maxN; nl++ {
			if !c.Thorough && nr > 3 && nl > 3 {
				continue
			}
			c.Case(func() string { return fmt.Sprintf("defects in %d resources with %d relations", nr, nl) }, func() error {
				for i := 0; i < nr; i++ {
					for j := 0; j < nl; j++ {
						for _, k := range dn {
							p := mk(nr, nl)
							defects[k](p, i, j)
							if err := polBoth(c, p); err != nil {
								return fmt.Errorf("defect %q at resource %d relation %d: %w", k, i, j, err)
							}
							if nr <= 2 && nl <= 2 {
								for _, k2 := range dn {
									for i2 := 0; i2 < nr; i2++ {
										for j2 := 0; j2 < nl; j2++ {
											p := mk(nr, nl)
											defects[k](p, i, j)
											if j2 >= len(p.Res[i2].Rels) {
												continue
											}
											defects[k2](p, i2, j2)
											if err := polBoth(c, p); err != nil {
												return fmt.Errorf("defects %q at %d,%d and %q at %d,%d: %w", k, i, j, k2, i2, j2, err)
											}
										}
									}
								}
							}
						}
					}
					c.Tick()
				}
				c.Traces++
				return nil
			})
		}
	}
	// dangling leaf at each position of an expression
	c.Bounds_("C", "all expressions with up to 4 leaves over {_this, x, x->z}, each leaf replaced by a dangling one, as tree and as text")
	exs := upTo([]*Expr{This(), Cu("x"), Ttu("x", "z")}, 3)
	exs = append(exs, enumExprs([]*Expr{This(), Cu("x")}, 4)...)
	for i := 0; i < len(exs); i += 8 {
		c.Case(func() string { return "expressions from " + exs[i].Text() }, func() error {
			for _, e := range exs[i:min(i+8, len(exs))] {
				n := 0
				e.leaves(func(*Expr) { n++ })
				for k := -1; k < n; k++ {
					for _, bad := range []*Expr{Cu("nope"), Ttu("nope", "x"), Cu("X"), Cu("z")} {
						at := 0
						f := e.mapLeaves(func(l *Expr) *Expr {
							at++
							if at-1 == k {
								return bad
							}
							return l
						})
						for _, d := range []RelDef{{Name: "v", E: f, R: Any()}, {Name: "v", Text: f.Text(), R: Any()}} {
							if err := polBoth(c, polWith("p", ResDef{Name: "a", Rels: []RelDef{rel("x", "_this"), d}}, ResDef{Name: "b", Rels: []RelDef{rel("z", "_this"), rel("nope", "_this")}})); err != nil {
								return err
							}
						}
						if k == -1 {
							break
						}
					}
				}
			}
			c.Traces++
			return nil
		})
	}
	// whole small policies
	dx := []RelDef{{Text: "_this"}, {Text: "x"}, {Text: "y - x"}, {Text: "x->v"}, {E: Cu("x")}, {E: Ttu("y", "q")}}
	dr := []Restr{Any(), Only(), Only(RItem{Res: "a"}), Only(RItem{Res: "c"}), Only(RItem{Res: "b", Rel: "x", Set: true}), Only(RItem{Res: "a", Rel: "v", Set: true}), Only(RItem{Res: "a"}, RItem{Res: "b", Rel: "y", Set: true})}
	c.Bounds_("D", "two resources, each with any subset of two plain relations and a relation with one of %d expressions and %d restrictions", len(dx), len(dr))
	for have := 0; have < 16; have++ {
		for e1 := range dx {
			c.Case(func() string {
				return fmt.Sprintf("whole policies: plain relations %04b, first expression %d", have, e1)
			}, func() error {
				for e2 := range dx {
					for r1 := range dr {
						for r2 := range dr {
							p := polWith("p")
							for i, n := range []string{"a", "b"} {
								r := ResDef{Name: n}
								for b, l := range []string{"x", "y"} {
									if have>>(2*i+b)&1 == 1 {
										r.Rels = append(r.Rels, rel(l, "_this"))
									}
								}
								d := dx[[]int{e1, e2}[i]]
								d.Name, d.R = "v", dr[[]int{r1, r2}[i]]
								r.Rels = append(r.Rels, d)
								p.Res = append(p.Res, r)
							}
							if (r1+r2+e2)%4 == 0 || c.Thorough {
								if err := polBoth(c, p); err != nil {
									return err
								}
							} else if err := polCompare(c, p, "", p.Valid()); err != nil {
								return err
							}
						}
					}
					c.Tick()
				}
				c.Traces++
				return nil
			})
		}
	}
	nm := []string{"a", "b", "a/b", "b/a", "a/", "/b", "a b", "a:b", "a#b", "A", "b "}
	c.Bounds_("E", "all quadruples of %d names: the first two define a relation, the others refer to one (computed, tupleset, restriction)", len(nm))
	for _, r1 := range nm {
		for _, l1 := range nm {
			c.Case(func() string { return fmt.Sprintf("names: relation %q of resource %q", l1, r1) }, func() error {
				for _, r2 := range nm {
					for _, l2 := range nm {
						for k, d := range []RelDef{{E: Cu(l2), R: Any()}, {E: Ttu(l2, "q"), R: Any()}, {E: This(), R: Only(RItem{Res: r2, Rel: l2, Set: true})}, {E: This(), R: Only(RItem{Res: r2})}} {
							d.Name = "zz"
							var p *Pol
							switch {
							case k >= 2:
								p = polWith("p", ResDef{Name: r1, Rels: []RelDef{rel(l1, "_this")}}, ResDef{Name: "yy", Rels: []RelDef{d}})
							case r1 == r2:
								p = polWith("p", ResDef{Name: r1, Rels: []RelDef{rel(l1, "_this"), d}})
							default:
								p = polWith("p", ResDef{Name: r1, Rels: []RelDef{rel(l1, "_this")}}, ResDef{Name: r2, Rels: []RelDef{d}})
							}
							if err := polCompare(c, p, "", p.Valid()); err != nil {
								return err
							}
						}
					}
					c.Tick()
				}
				c.Traces++
				return nil
			})
		}
	}
	pairNames := append(append([]string{}, nm...), "B", "ab", "a.b", "a\x00b", "é", "e\u0301", "É", "_this", "x", "x1", strings.Repeat("x", 300)+"1", strings.Repeat("x", 300)+"2")
	for _, p := range alikePairs {
		pairNames = append(pairNames, p[0], p[1])
	}
	c.Bounds_("F", "all ordered pairs of %d names as two resources, as two relations of one resource, and as relation and resource; the sizes of 19 dimensions of a policy from 0 to 140 and selected larger ones", len(pairNames))
	for _, a := range pairNames {
		c.Case(func() string { return fmt.Sprintf("pairs of names with %q", a) }, func() error {
			for _, b := range pairNames {
				for _, p := range []*Pol{
					polWith("p", ResDef{Name: a, Rels: []RelDef{rel("r", "_this")}}, ResDef{Name: b, Rels: []RelDef{rel("r", "_this")}}),
					polWith("p", ResDef{Name: "u"}, ResDef{Name: "d", Rels: []RelDef{rel(a, "_this"), rel(b, "_this")}}),
					polWith("p", ResDef{Name: a, Rels: []RelDef{rel(b, "_this"), rel("q", "_this")}}, ResDef{Name: b + "2", Rels: []RelDef{rel(a, "_this"), rel(b+"2", "_this")}}),
				} {
					if err := polCompare(c, p, "", p.Valid()); err != nil {
						return err
					}
				}
			}
			c.Traces++
			return nil
		})
	}
	large := []int{200, 255, 256, 257}
	if c.Thorough {
		large = append(large, 511, 512, 513, 1000, 1024)
	}
	for n := 0; n <= 140+len(large); n++ {
		size := n
		if n > 140 {
			size = large[n-141]
		}
		c.Case(func() string { return fmt.Sprintf("policies of size %d", size) }, func() error {
			for _, p := range sizedPolicies(size) {
				c.Tick()
				if err := polCompare(c, p, "", p.Valid()); err != nil {
					return err
				}
			}
			c.Traces++
			return nil
		})
	}
	// names and descriptions
	c.Case(func() string { return "ids, names, attributes" }, func() error {
		for _, id := range append(adversarialIds(), "", " ", "\n", "other") {
			for _, name := range []string{"", "n", strings.Repeat("n", 500)} {
				p := selPol(id)
				p.Name, p.Doc = name, name
				p.Attrs = map[string]string{"k": "v", "": "", "*": name}
				want := p.Valid() && id != "other"
				if err := polCompare(c, p, "", want); err != nil {
					return err
				}
			}
		}
		for _, n := range append(append([]string{}, awkward...), " ", "_this", "a->b", strings.Repeat("x", 300)) {
			p := polWith("p", ResDef{Name: n, Rels: []RelDef{rel(n, "_this"), {Name: "t", E: Bin(Cu(n), '+', Ttu(n, n)), R: Only(RItem{Res: n}, RItem{Res: n, Rel: n, Set: true})}}})
			if err := polCompare(c, p, "", true); err != nil {
				return err
			}
		}
		return nil
	})
	// malformed messages
	c.Case(func() string { return "malformed messages" }, func() error {
		muts := map[string]func(p *domain.Policy){
			"nil resource":     func(p *domain.Policy) { p.Resources = append(p.Resources, nil) },
			"nil relation":     func(p *domain.Policy) { p.Resources[2].Relations = append(p.Resources[2].Relations, nil) },
			"nil relation 2":   func(p *domain.Policy) { p.Resources[1].Relations[0] = nil },
			"no expression":    func(p *domain.Policy) { p.Resources[2].Relations[0].RelationExpression = nil },
			"empty expression": func(p *domain.Policy) { p.Resources[2].Relations[0].RelationExpression = &domain.RelationExpression{} },
			"nil tree":         func(p *domain.Policy) { setTree(p, nil) },
			"empty tree":       func(p *domain.Policy) { setTree(p, &domain.RelationExpressionTree{}) },
			"nil operation": func(p *domain.Policy) {
				setTree(p, &domain.RelationExpressionTree{Node: &domain.RelationExpressionTree_OpNode{}})
			},
			"operation without operands": func(p *domain.Policy) { setTree(p, domain.NewOpNode(nil, domain.Operator_UNION, nil)) },
			"operation without left":     func(p *domain.Policy) { setTree(p, domain.NewOpNode(nil, domain.Operator_UNION, domain.ThisNode())) },
			"operation without right": func(p *domain.Policy) {
				setTree(p, domain.NewOpNode(domain.ThisNode(), domain.Operator_DIFFERENCE, nil))
			},
			"nested without right": func(p *domain.Policy) {
				setTree(p, domain.NewOpNode(domain.NewOpNode(domain.ThisNode(), domain.Operator_DIFFERENCE, nil), domain.Operator_UNION, domain.ThisNode()))
			},
			"undefined operator": func(p *domain.Policy) { setTree(p, domain.NewOpNode(domain.ThisNode(), 7, domain.ThisNode())) },
			"nil rule": func(p *domain.Policy) {
				setTree(p, &domain.RelationExpressionTree{Node: &domain.RelationExpressionTree_Rule{}})
			},
			"empty rule": func(p *domain.Policy) {
				setTree(p, &domain.RelationExpressionTree{Node: &domain.RelationExpressionTree_Rule{Rule: &domain.Rule{}}})
			},
			"empty computed": func(p *domain.Policy) { setTree(p, domain.CUNode("")) },
			"nil computed": func(p *domain.Policy) {
				setTree(p, &domain.RelationExpressionTree{Node: &domain.RelationExpressionTree_Rule{Rule: &domain.Rule{Rule: &domain.Rule_Cu{}}}})
			},
			"empty tupleset": func(p *domain.Policy) { setTree(p, domain.TTUNode("", "v")) },
			"nil tupleset": func(p *domain.Policy) {
				setTree(p, &domain.RelationExpressionTree{Node: &domain.RelationExpressionTree_Rule{Rule: &domain.Rule{Rule: &domain.Rule_Ttu{}}}})
			},
			"empty restriction": func(p *domain.Policy) { p.Resources[2].Relations[0].SubjectRestriction = &domain.SubjectRestriction{} },
			"nil item":          func(p *domain.Policy) { setItems(p, nil) },
			"empty item":        func(p *domain.Policy) { setItems(p, &domain.SubjectRestrictionSet_Restriction{}) },
			"nil entity item": func(p *domain.Policy) {
				setItems(p, &domain.SubjectRestrictionSet_Restriction{Entry: &domain.SubjectRestrictionSet_Restriction_Entity{}})
			},
			"nil set item": func(p *domain.Policy) {
				setItems(p, &domain.SubjectRestrictionSet_Restriction{Entry: &domain.SubjectRestrictionSet_Restriction_EntitySet{}})
			},
		}
		for name, m := range muts {
			for _, upd := range []bool{false, true} {
				kv := NewSpyKV()
				s := NewSys(kv)
				w := World{}
				if err := Step1(s, w, Op{K: KCreate, Pol: selPol("q")}); err != nil {
					return err
				}
				if upd {
					if err := Step1(s, w, Op{K: KCreate, Pol: selPol("p")}); err != nil {
						return err
					}
				}
				p := selPol("p").Proto()
				m(p)
				def := &api.PolicyDefinition{Definition: &api.PolicyDefinition_Policy{Policy: p}}
				var req proto.Message = &api.CreatePolicyRequest{PolicyDefinition: def}
				if upd {
					req = &api.UpdatePolicyRequest{PolicyDefinition: def}
				}
				before := kv.Dump()
				c.Evaluations++
				if _, err := call(s, req); err == nil {
					return fmt.Errorf("policy with %s was accepted (update: %v)", name, upd)
				}
				if kv.Dump() != before {
					return fmt.Errorf("policy with %s was rejected but changed the store", name)
				}
			}
		}
		return nil
	})
}

func setTree(p *domain.Policy, t *domain.RelationExpressionTree) {
	p.Resources[2].Relations[0].RelationExpression = &domain.RelationExpression{Expression: &domain.RelationExpression_Tree{Tree: t}}
}

func setItems(p *domain.Policy, it *domain.SubjectRestrictionSet_Restriction) {
	p.Resources[2].Relations[0].SubjectRestriction = &domain.SubjectRestriction{SubjectRestriction: &domain.SubjectRestriction_RestrictionSet{
		RestrictionSet: &domain.SubjectRestrictionSet{Restrictions: []*domain.SubjectRestrictionSet_Restriction{it}}}}
}

func (e *Expr) mapLeaves(f func(*Expr) *Expr) *Expr {
	if e.Op == 0 {
		return f(e)
	}
	l := e.L.mapLeaves(f)
	return Bin(l, e.Op, e.R.mapLeaves(f))
}

// ---- C11 ----

type lifeOp struct {
	Op
	name string
}

func lifeOps() []Op {
	p1 := isoPol("a")
	p2 := polWith("a", ResDef{Name: "u", Doc: "users"}, ResDef{Name: "g", Rels: []RelDef{rel("m", "_this"), rel("v", "m")}})
	p2.Attrs = map[string]string{"x": "y"}
	bad := polWith("a", ResDef{Name: "g", Rels: []RelDef{rel("m", "nope")}})
	b := isoPol("b")
	return []Op{
		{K: KCreate, Pol: p1, Data: "1"}, {K: KCreate, Pol: p2, Data: "2"}, {K: KUpdate, Pol: p2, Data: "3"}, {K: KUpdate, Pol: p1}, {K: KUpdate, Pol: bad, Data: "x"}, {K: KUpdate, Pol: polWith("a")},
		{K: KDelPol, Pid: "a"}, {K: KSet, Pid: "a", T: isoTups[0], Data: "r"}, {K: KSet, Pid: "a", T: T("g", "1", "v", S("g", "1", "m")), Data: "r"}, {K: KDel, Pid: "a", T: isoTups[0]},
		{K: KCreate, Pol: b}, {K: KDelPol, Pid: "b"}, {K: KSet, Pid: "b", T: isoTups[0]},
	}
}

type clock map[string]*timestamppb.Timestamp

// lifeStep performs a request and checks that creation times are kept
func lifeStep(s Svc, w World, o Op, cl clock) error {
	before := w.String()
	alts := w.Apply(o)
	resp, err := call(s, o.Req())
	got := ERR
	if err == nil {
		got = canonResp(resp)
	}
	if !accepts(alts, got) {
		return fmt.Errorf("%v\nexpected: %s\ngot:      %s (error: %v)\nstate before:\n%s", o, show(strings.Join(alts, " or ")), show(got), err, before)
	}
	switch r := resp.(type) {
	case *api.CreatePolicyResponse:
		cl[o.Pol.ID] = r.Record.CreatedAt
	case *api.GetPolicyResponse:
		if r.Record != nil && !proto.Equal(r.Record.CreatedAt, cl[o.Pid]) {
			return fmt.Errorf("%v\ncreation time %v, but the policy was created at %v\nstate:\n%s", o, r.Record.CreatedAt, cl[o.Pid], before)
		}
	}
	return nil
}

// clockOf reads the creation time of policy a
func clockOf(s Svc) clock {
	resp, err := call(s, &api.GetPolicyRequest{Id: "a"})
	if err != nil {
		return clock{}
	}
	return clock{"a": resp.(*api.GetPolicyResponse).GetRecord().GetCreatedAt()}
}

func runC11(c *Ctx) {
	ops := lifeOps()
	obs := func(s Svc, w World, cl clock) error {
		list := []Op{{K: KList}}
		for _, id := range []string{"a", "b"} {
			list = append(list, Op{K: KGetPol, Pid: id}, Op{K: KFind, Pid: id, Sel: SelAll}, Op{K: KGet, Pid: id, T: isoTups[0]},
				Op{K: KCheck, Pid: id, N: node{Ent{"g", "1"}, "v"}, Sub: Ent{"u", "x"}})
		}
		for _, o := range list {
			c.Evaluations++
			if err := lifeStep(s, w, o, cl); err != nil {
				return err
			}
		}
		return nil
	}
	run := func(seq []int, each bool) error {
		s := NewSys(NewSpyKV())
		w := World{}
		cl := clock{}
		changes := 0
		for i, k := range seq {
			key := w.Key()
			if err := lifeStep(s, w, ops[k], cl); err != nil {
				return fmt.Errorf("sequence %v: %w", seq[:i+1], err)
			}
			if w.Key() != key {
				changes++
			}
			c.Transitions++
			if each {
				if err := obs(s, w, cl); err != nil {
					return fmt.Errorf("sequence %v: %w", seq[:i+1], err)
				}
			}
		}
		if !each {
			if err := obs(s, w, cl); err != nil {
				return fmt.Errorf("sequence %v: %w", seq, err)
			}
		}
		if changes > 1 {
			c.Nontrivial++
		}
		c.State(w.Key())
		c.Outcome(fmt.Sprintf("%d changes", changes))
		c.Traces++
		return nil
	}
	depth, depthEach := 5, 4
	if c.Thorough {
		depth, depthEach = 6, 5
	}
	c.Bounds_("A", "all %d^%d sequences observed at the end, all %d^%d observed after every request", len(ops), depth, len(ops), depthEach)
	for a := range ops {
		for b := range ops {
			for each := 0; each < 2; each++ {
				d := depth
				if each == 1 {
					d = depthEach
				}
				c.Case(func() string {
					return fmt.Sprintf("sequences starting with %v; %v (observed each time: %d)", ops[a], ops[b], each)
				}, func() error {
					var res error
					n := 0
					product(len(ops), d-2, func(v []int) bool {
						n++
						if n%50 == 0 {
							c.Tick()
						}
						res = run(append([]int{a, b}, v...), each == 1)
						return res == nil
					})
					return res
				})
			}
		}
	}
	// one long-lived instance: all sequences of length 3 in a row, without a fresh start
	c.Case(func() string { return "all sequences of length 3 on one instance" }, func() error {
		s := NewSys(NewSpyKV())
		w := World{}
		cl := clock{}
		var res error
		product(len(ops), 3, func(v []int) bool {
			for _, k := range v {
				if res = lifeStep(s, w, ops[k], cl); res != nil {
					return false
				}
				c.Transitions++
				if res = obs(s, w, cl); res != nil {
					return false
				}
			}
			c.Tick()
			return true
		})
		return res
	})
	// number of relationships removed
	var ns []int
	for i := 0; i <= 130; i++ {
		ns = append(ns, i)
	}
	ns = append(ns, 255, 256, 257, 500, 999, 1000, 1001, 1024, 1025)
	ns = append(ns, 2049, 4097, 5001)
	if c.Thorough {
		ns = append(ns, 10001, 20000)
	}
	c.Bounds_("B", "policies with 0..130 and selected numbers up to %d of relationships, deleted and created again", ns[len(ns)-1])
	for _, n := range ns {
		c.Case(func() string { return fmt.Sprintf("%d relationships", n) }, func() error {
			s, w, err := start(isoPol("a"))
			if err != nil {
				return err
			}
			cl := clock{}
			if err := lifeStep(s, w, Op{K: KCreate, Pol: isoPol("b")}, cl); err != nil {
				return err
			}
			for i := 0; i < n; i++ {
				c.Tick()
				t := T("g", fmt.Sprint(i), "m", []Sub{E("u", fmt.Sprint(i)), W("u"), S("g", "0", "m")}[i%3])
				if err := Step1(s, w, Op{K: KSet, Pid: "a", T: t}); err != nil {
					return err
				}
				if i%10 == 0 {
					if err := Step1(s, w, Op{K: KSet, Pid: "b", T: t}); err != nil {
						return err
					}
				}
			}
			c.Tick()
			for _, o := range []Op{{K: KUpdate, Pol: isoPol("a"), Data: "u"}, {K: KFind, Pid: "a", Sel: SelAll}, {K: KDelPol, Pid: "a"}, {K: KFind, Pid: "b", Sel: SelAll}, {K: KCreate, Pol: isoPol("a")}, {K: KFind, Pid: "a", Sel: SelAll}, {K: KDump, Pid: "a"}, {K: KDelPol, Pid: "a"}, {K: KDelPol, Pid: "a"}, {K: KList}} {
				c.Evaluations++
				if err := Step1(s, w, o); err != nil {
					return err
				}
			}
			c.Traces++
			return nil
		})
	}
	c.Bounds_("C", "1..150 policies listed, updated, deleted in three orders; up to 1030 policies, listed at selected sizes")
	c.Case(func() string { return "very many policies" }, func() error {
		s, w := NewSys(NewSpyKV()), World{}
		n := 1030
		look := func(k int) bool {
			return k > n-3 || k < 300 && k%20 < 3 || k%250 < 3 || k%256 < 3
		}
		for i := 0; i < n; i++ {
			ops := []Op{{K: KCreate, Pol: isoPol(fmt.Sprint(i * 7 % n))}}
			if look(i) {
				ops = append(ops, Op{K: KList})
			}
			for _, o := range ops {
				if err := Step1(s, w, o); err != nil {
					return err
				}
				c.Evaluations++
			}
			c.Tick()
		}
		for i := 0; i < n; i++ {
			ops := []Op{{K: KDelPol, Pid: fmt.Sprint(i * 11 % n)}}
			if look(n - 1 - i) {
				ops = append(ops, Op{K: KList})
			}
			for _, o := range ops {
				if err := Step1(s, w, o); err != nil {
					return err
				}
				c.Evaluations++
			}
			c.Tick()
		}
		c.Traces++
		return nil
	})
	for ord := 0; ord < 3; ord++ {
		c.Case(func() string { return fmt.Sprintf("many policies, order %d", ord) }, func() error {
			s := NewSys(NewSpyKV())
			w := World{}
			n := 150
			id := func(i int) string { return fmt.Sprintf("%d", (i*37)%n) }
			for i := 0; i < n; i++ {
				for _, o := range []Op{{K: KCreate, Pol: isoPol(id(i)), Data: id(i)}, {K: KList}, {K: KGetPol, Pid: id(i / 2)}, {K: KCreate, Pol: isoPol(id(i / 2))}, {K: KUpdate, Pol: isoPol(id(i / 3)), Data: fmt.Sprint(i)}, {K: KList}} {
					if err := Step1(s, w, o); err != nil {
						return err
					}
					c.Evaluations++
				}
				c.Tick()
			}
			for i := 0; i < n; i++ {
				k := []int{i, n - 1 - i, (i * 7) % n}[ord]
				for _, o := range []Op{{K: KDelPol, Pid: fmt.Sprint(k)}, {K: KList}, {K: KGetPol, Pid: fmt.Sprint(k)}, {K: KGetPol, Pid: fmt.Sprint((k + 1) % n)}} {
					if err := Step1(s, w, o); err != nil {
						return err
					}
					c.Evaluations++
				}
				c.Tick()
			}
			return nil
		})
	}
	// what an update adds and drops
	parts := 7
	mkPol := func(set int) *Pol {
		has := func(b int) bool { return set>>b&1 == 1 }
		p := &Pol{ID: "a"}
		if has(0) {
			p.Res = append(p.Res, ResDef{Name: "u"})
		}
		if has(1) {
			g := ResDef{Name: "g"}
			if has(2) {
				g.Rels = append(g.Rels, rel("m", "_this"))
			}
			p.Res = append(p.Res, g)
		}
		d := ResDef{Name: "d"}
		if has(3) {
			d.Rels = append(d.Rels, rel("v", "_this"))
		}
		if has(4) {
			d.Rels = append(d.Rels, rel("w", "_this"))
		}
		if len(d.Rels) > 0 {
			p.Res = append(p.Res, d)
		}
		if has(5) {
			p.Name, p.Doc, p.Attrs = "n", "d", map[string]string{"k": "v"}
		}
		return p
	}
	data := func(set int) string {
		if set>>6&1 == 1 {
			return "data"
		}
		return ""
	}
	cand := []Tup{T("d", "1", "v", E("u", "1")), T("d", "1", "w", S("g", "1", "m")), T("g", "1", "m", W("u")), T("d", "2", "v", W("g")), T("d", "1", "v", E("d", "2")), T("d", "2", "w", S("d", "1", "v"))}
	c.Bounds_("D", "all ordered pairs of 2^%d policies (resources, relations, texts, app data present or absent): the first with all relationships it admits is updated to the second, and back, and created again", parts)
	for a := 0; a < 1<<parts; a++ {
		c.Case(func() string { return fmt.Sprintf("updates from policy %07b", a) }, func() error {
			if a>>2&3 == 1 && a>>1&1 == 0 { // same policy without g
				return nil
			}
			base := NewSpyKV()
			s0 := NewSys(base)
			w0 := World{}
			cl := clock{}
			if err := lifeStep(s0, w0, Op{K: KCreate, Pol: mkPol(a), Data: data(a)}, cl); err != nil {
				return err
			}
			for _, t := range cand {
				if err := lifeStep(s0, w0, Op{K: KSet, Pid: "a", T: t, Data: "r"}, cl); err != nil {
					return err
				}
			}
			for b := 0; b < 1<<parts; b++ {
				s, w := NewSys(base.Clone()), w0.Clone()
				for _, o := range []Op{{K: KUpdate, Pol: mkPol(b), Data: data(b)}, {K: KCreate, Pol: mkPol(a), Data: "again"}, {K: KUpdate, Pol: mkPol(a), Data: data(a)}, {K: KDelPol, Pid: "a"}, {K: KCreate, Pol: mkPol(b), Data: data(b)}} {
					if err := lifeStep(s, w, o, cl); err != nil {
						return err
					}
					c.Transitions++
					c.State(w.Key())
					obs := []Op{{K: KGetPol, Pid: "a"}, {K: KFind, Pid: "a", Sel: SelAll}, {K: KList}}
					if w["a"] != nil {
						obs = append(obs, Op{K: KDump, Pid: "a"})
					}
					for _, t := range cand {
						obs = append(obs, Op{K: KGet, Pid: "a", T: t})
					}
					for _, o := range obs {
						c.Evaluations++
						if err := lifeStep(s, w, o, cl); err != nil {
							return err
						}
					}
				}
				c.Nontrivial++
				c.Traces++
				cl = clockOf(s0) // the base state was created at another time than its copy
			}
			return nil
		})
	}
	// definitions are returned as given
	c.Case(func() string { return "definitions" }, func() error {
		s := NewSys(NewSpyKV())
		w := World{}
		for i, id := range adversarialIds() {
			p := restrPol(Only(RItem{Res: "user"}, RItem{Res: "group", Rel: "m", Set: true}))
			p.ID, p.Doc, p.Name = id, "doc "+id, ""
			p.Attrs = map[string]string{"a": id, "": "x", strings.Repeat("k", i): "v"}
			p.Res[0].Doc = id
			p.Res[1].Rels[0].Doc = "\x00" + id
			p.Res[1].Rels[0] = RelDef{Name: "m", E: Bin(This(), '-', Bin(Cu("v"), '&', Ttu("v", "zz"))), R: Restr{None: true}}
			for _, o := range []Op{{K: KCreate, Pol: p, Data: id}, {K: KGetPol, Pid: id}, {K: KList}, {K: KUpdate, Pol: p, Data: ""}, {K: KGetPol, Pid: id}, {K: KCreate, Pol: isoPol(id), Data: "no"}, {K: KGetPol, Pid: id}} {
				if err := Step1(s, w, o); err != nil {
					return err
				}
			}
		}
		return nil
	})
	dataFamily(c, "E", KUpdate)
}
