package main

import (
	"fmt"
	"path/filepath"
	"strings"

	rcdb "github.com/sourcenetwork/raccoondb"
	"google.golang.org/protobuf/proto"

	"github.com/sourcenetwork/zanzi/pkg/api"
)

// product calls f with every vector of length k over 0..n-1; f returns false to stop
func product(n, k int, f func([]int) bool) {
	v := make([]int, k)
	for {
		if !f(v) {
			return
		}
		i := k - 1
		for i >= 0 {
			v[i]++
			if v[i] < n {
				break
			}
			v[i] = 0
			i--
		}
		if i < 0 {
			return
		}
	}
}

func pow(a, b int) int {
	r := 1
	for ; b > 0; b-- {
		r *= a
	}
	return r
}

// freePolicy defines all resources and relations used by the tuples, without restrictions
func freePolicy(id string, tups []Tup) *Pol {
	p := polWith(id)
	need := func(r, l string) {
		for i := range p.Res {
			if p.Res[i].Name == r {
				if l != "" && p.Rel(r, l) == nil {
					p.Res[i].Rels = append(p.Res[i].Rels, rel(l, "_this"))
				}
				return
			}
		}
		p.Res = append(p.Res, ResDef{Name: r})
		if l != "" {
			p.Res[len(p.Res)-1].Rels = append(p.Res[len(p.Res)-1].Rels, rel(l, "_this"))
		}
	}
	for _, t := range tups {
		need(t.O.R, t.L)
		need(t.S.R, t.S.L)
	}
	return p
}

func init() {
	register(&Check{ID: "C06", Level: "model_checking",
		Rule:  "for every unordered pair of an adversarial universe of relationships, all sequences of set (two payloads) and delete requests up to the length bound, each from a fresh instance, responses compared with a map model; all subsets of a universe; the same on the bundled stores. Non-trivial: at least one relationship is stored when the state is observed.",
		Assum: []string{"quick tier: an in-memory KV owned by the harness, plus the bundled MemKV and LevelDB for one family"},
		Run:   runC06})
	register(&Check{ID: "C07", Level: "model_checking",
		Rule:  "for every ordered pair of an adversarial set of policy ids, both policies holding the same and different relationships, every request kind addressed to the first followed by a complete observation of both; all request sequences up to the length bound over three policies. Non-trivial: the other policy holds relationships.",
		Assum: []string{"the store is an in-memory KV owned by the harness"},
		Run:   runC07})
	register(&Check{ID: "C08", Level: "model_checking",
		Rule:  "every subset of a tuple universe x every combination of object, relation and subject selectors: FindRelationshipRecords (built in memory and decoded from the wire) and DeleteRelationships followed by a complete observation, compared with a filter over the model. Non-trivial: the selector selects some but not all stored relationships.",
		Assum: []string{"the store is an in-memory KV owned by the harness", "an exact subject that names an undefined relation of a defined resource may be refused or select nothing"},
		Run:   runC08})
}

// adversarialTuples differ in how the same characters are divided, in case, in kind, in one component
func adversarialTuples(c *Ctx) []Tup {
	ts := []Tup{
		T("a", "1", "r", E("a", "1")), T("a", "1", "r", S("a", "1", "r")), T("a", "1", "r", W("a")), T("a", "1", "r", E("a", "*")),
		T("ab", "1", "r", E("a", "1")), T("a", "b1", "r", E("a", "1")), T("a", "1", "rr", E("a", "1")), T("a", "1r", "r", E("a", "1")),
		T("a", "11", "r", E("a", "1")), T("a", "1", "r", E("a", "11")), T("a", "1", "r", E("a", "1r")), T("a", "1", "r", E("ab", "1")), T("a", "1", "r", E("a", "b1")),
		T("a", "1", "r", S("a", "1", "rr")), T("a", "1", "r", S("a", "1r", "r")), T("a", "1", "r", W("a1")), T("a", "1", "r", W("ab")), T("a1", "1", "r", E("a", "1")),
		T("A", "1", "r", E("a", "1")), T("a", "1", "R", E("a", "1")), T("a", "1", "r", E("A", "1")), T("a", "X", "r", E("a", "1")), T("a", "x", "r", E("a", "1")),
		T("a", "1", "r", E("a", "x")), T("a", "1", "r", E("a", "X")),
		T("a", "1/", "r", E("a", "1")), T("a", "/1", "r", E("a", "1")), T("a/", "1", "r", E("a", "1")), T("a", "1", "r/", E("a", "1")), T("a", "1", "r", E("a", "/1")), T("a", "1", "r", E("a/", "1")),
		T("a", "1:", "r", E("a", "1")), T("a", "1#r", "r", E("a", "1")), T("a", "1", "r", E("a", "1#r")), T("a", "1", "r", E("a", "1@")), T("a", " 1", "r", E("a", "1")), T("a", "1 ", "r", E("a", "1")),
		T("a", "1\x00", "r", E("a", "1")), T("a", "\x001", "r", E("a", "1")), T("a", "1", "r", E("a", "1\x00")), T("a", "é", "r", E("a", "1")), T("a", "e\u0301", "r", E("a", "1")), T("a", "\u00ff", "r", E("a", "\uffff")),
		T("a", "01", "r", E("a", "1")), T("a", "1", "r", E("a", "01")), T("a", "1.0", "r", E("a", "1")), T("a", "%31", "r", E("a", "1")),
		T("a", strings.Repeat("x", 300), "r", E("a", "1")), T("a", strings.Repeat("x", 301), "r", E("a", "1")), T("a", "1", "r", E("a", strings.Repeat("x", 300))), T("a", "1", "r", E("a", strings.Repeat("x", 299)+"y")),
		T("a", "2", "r", E("a", "1")), T("a", "1", "r", E("a", "2")), T("a", "2", "r", E("a", "2")), T("1", "a", "r", E("a", "1")), T("a", "1", "r", E("1", "a")), T("r", "1", "a", E("a", "1")), T("a", "r", "1", E("a", "1")),
		T("a", "1", "r", S("a", "r", "1")), T("a", "1", "r", S("r", "1", "a")), T("ab", "1", "r", W("a")),
	}
	return ts
}

const dumpToo = true

func runC06(c *Ctx) {
	tups := adversarialTuples(c)
	pol := freePolicy("p", tups)
	depth := 3
	if c.Thorough {
		depth = 4
	}
	c.Bounds_("A", "all pairs of %d relationships x all sequences of length %d of {set x with data, set x without data, set y, delete x, delete y}; observed at the end", len(tups), depth)
	for i := range tups {
		for j := i + 1; j < len(tups); j++ {
			c.Case(func() string { return fmt.Sprintf("pair %v and %v", tups[i], tups[j]) }, func() error {
				return pairSeqs(c, func() rcdb.KVStore { return NewSpyKV() }, pol, tups[i], tups[j], depth, false)
			})
		}
	}
	// deeper for pairs most likely to collide, observed at every step
	core := []int{0, 1, 2, 3, 4, 5, 13, 7}
	d2 := 5
	if c.Thorough {
		d2 = 6
	}
	c.Bounds_("B", "all pairs of %d relationships x all sequences of length %d of those and {set x with other data}, observed after every request", len(core), d2)
	for x := range core {
		for y := x + 1; y < len(core); y++ {
			c.Case(func() string { return fmt.Sprintf("pair %v and %v, deep", tups[core[x]], tups[core[y]]) }, func() error {
				return pairSeqs(c, func() rcdb.KVStore { return NewSpyKV() }, pol, tups[core[x]], tups[core[y]], d2, true)
			})
		}
	}
	// all subsets
	sub := []Tup{tups[0], tups[1], tups[2], tups[3], tups[4], tups[5], tups[6], tups[7], tups[13], tups[14], tups[15]}
	if c.Thorough {
		sub = append(sub, tups[20], tups[24], tups[25])
	}
	c.Bounds_("C", "all 2^%d subsets, complete observation of each", len(sub))
	for fix := 0; fix < 8; fix++ {
		c.Case(func() string { return fmt.Sprintf("subsets, first relationships %03b", fix) }, func() error {
			s, w, err := start(pol)
			if err != nil {
				return err
			}
			for b := 0; b < 3; b++ {
				if fix>>b&1 == 1 {
					if err := Step(s, w, Op{K: KSet, Pid: "p", T: sub[b], Data: "x"}); err != nil {
						return err
					}
				}
			}
			c.Traces++
			return grayWalk(c, s, w, "p", sub[3:], func() error {
				c.State(fmtTups(w["p"].Rels))
				return c.observe(s, w, []string{"p"}, sub, nil)
			})
		})
	}
	// payloads
	c.Case(func() string { return "app data" }, func() error {
		s, w, err := start(pol)
		if err != nil {
			return err
		}
		var all []byte
		for i := 0; i < 256; i++ {
			all = append(all, byte(i))
		}
		datas := []string{"", "a", "\x00", "\x00\x00", string(all), strings.Repeat("d", 70000), "\n", "\x0a\x03abc", "{}"}
		for b := 0; b < 256; b++ {
			datas = append(datas, string([]byte{byte(b)}))
		}
		for _, a := range datas[:9] { // each over each
			for _, b := range datas[:9] {
				for _, d := range []string{a, b} {
					if err := Step(s, w, Op{K: KSet, Pid: "p", T: tups[0], Data: d}); err != nil {
						return err
					}
					if err := c.observe(s, w, []string{"p"}, tups[:1], nil); err != nil {
						return err
					}
				}
			}
			c.Tick()
		}
		for i, d := range datas {
			for k := 0; k < 2; k++ {
				t := tups[(i+k)%4]
				if err := Step(s, w, Op{K: KSet, Pid: "p", T: t, Data: d}); err != nil {
					return err
				}
				if err := c.observe(s, w, []string{"p"}, tups[:4], nil); err != nil {
					return err
				}
			}
		}
		c.Traces++
		return nil
	})
	// sizes
	max := 1030
	if c.Thorough {
		max = 3000
	}
	c.Bounds_("D", "1..%d relationships of one object, and of as many objects; each fetched, then deleted in three orders", max)
	for kind := 0; kind < 6; kind++ {
		c.Case(func() string { return fmt.Sprintf("sizes, kind %d", kind) }, func() error {
			return sizesC06(c, NewSpyKV(), kind, max)
		})
	}
	// no two relationships share storage: a whole universe stored at once
	short := []string{"a", "b", "ab", "a/", "/a"}
	if c.Thorough {
		short = append(short, "/", "a:")
	}
	c.Bounds_("F", "all %d^6 + %d^5 + %d^4 relationships over %q stored together; and, for each pair of components, all pairs of %d names stored together", len(short), len(short), len(short), short, len(namesAndAlike()))
	c.Case(func() string { return fmt.Sprintf("all relationships over %q", short) }, func() error {
		var ts []Tup
		product(len(short), 6, func(v []int) bool {
			n := func(i int) string { return short[v[i]] }
			ts = append(ts, T(n(0), n(1), n(2), S(n(3), n(4), n(5))))
			if v[5] == 0 {
				ts = append(ts, T(n(0), n(1), n(2), E(n(3), n(4))))
				if v[4] == 0 {
					ts = append(ts, T(n(0), n(1), n(2), W(n(3))))
				}
			}
			return true
		})
		return together(c, ts)
	})
	for i := 0; i < 6; i++ {
		for j := i + 1; j < 6; j++ {
			c.Case(func() string { return fmt.Sprintf("all names in components %d and %d", i, j) }, func() error {
				var ts []Tup
				seen := map[Tup]bool{}
				for _, x := range namesAndAlike() {
					for _, y := range namesAndAlike() {
						v := []string{"a", "1", "a", "a", "1", "a"}
						v[i], v[j] = x, y
						for _, t := range []Tup{T(v[0], v[1], v[2], S(v[3], v[4], v[5])), T(v[0], v[1], v[2], E(v[3], v[4])), T(v[0], v[1], v[2], W(v[3]))} {
							if !seen[t] {
								seen[t] = true
								ts = append(ts, t)
							}
						}
					}
				}
				return together(c, ts)
			})
		}
	}
	// the bundled stores
	n := 3
	c.Bounds_("E", "MemKV and LevelDB: all sequences of length %d over pairs, one policy per sequence", n)
	for st := 0; st < 2; st++ {
		for x := 0; x < 4; x++ {
			for y := x + 1; y < 4; y++ {
				c.Case(func() string { return fmt.Sprintf("bundled store %d: pair %v and %v", st, tups[x], tups[y]) }, func() error {
					kv, done, err := bundled(c, st, fmt.Sprintf("c06-%d-%d", x, y))
					if err != nil {
						panic(infra{err.Error()})
					}
					defer done()
					s := NewSys(kv)
					w := World{}
					cnt := 0
					var res error
					product(5, n, func(v []int) bool {
						cnt++
						pid := fmt.Sprintf("p%d", cnt)
						p := *pol
						p.ID = pid
						if res = Step1(s, w, Op{K: KCreate, Pol: &p}); res != nil {
							return false
						}
						for _, k := range v {
							if res = Step1(s, w, pairOp(pid, tups[x], tups[y], k)); res != nil {
								return false
							}
							c.Transitions++
							for _, o := range []Op{{K: KGet, Pid: pid, T: tups[x]}, {K: KGet, Pid: pid, T: tups[y]}, {K: KFind, Pid: pid, Sel: SelAll}} {
								c.Evaluations++
								if res = Step1(s, w, o); res != nil {
									return false
								}
							}
						}
						c.Tick()
						c.Traces++
						return true
					})
					return res
				})
			}
		}
		for kind := 0; kind < 3; kind++ {
			c.Case(func() string { return fmt.Sprintf("bundled store %d: sizes kind %d", st, kind) }, func() error {
				kv, done, err := bundled(c, st, fmt.Sprintf("c06-s%d", kind))
				if err != nil {
					panic(infra{err.Error()})
				}
				defer done()
				return sizesC06(c, kv, kind, 150)
			})
		}
	}
	dataFamily(c, "G", KSet)
	obs := histSteps(c, func(pid string) []Op {
		var out []Op
		for _, o := range histOps() {
			if o.K == KSet {
				out = append(out, Op{K: KGet, Pid: pid, T: o.T})
			}
		}
		return append(out, Op{K: KFind, Pid: pid, Sel: SelAll})
	})
	histories(c, "histories", map[bool]int{false: 3, true: 4}[c.Thorough], obs)
	variants(c, "variants", obs)
	divided(c, "divided", func(s Svc, w World, pid string, g *Graph, tups []Tup) error {
		return histSteps(c, func(pid string) []Op {
			out := []Op{{K: KFind, Pid: pid, Sel: SelAll}}
			for _, t := range tups {
				out = append(out, Op{K: KGet, Pid: pid, T: t})
			}
			return out
		})(s, w, pid, g)
	})
}

// together stores all the relationships, each with its own data, then deletes every other one
func together(c *Ctx, ts []Tup) error {
	s, w, err := start(freePolicy("p", ts))
	if err != nil {
		return err
	}
	do := func(o Op) error {
		c.Evaluations++
		if o.K == KGet {
			c.Nontrivial++
		}
		return Step1(s, w, o)
	}
	each := func(step int, f func(i int) Op) error {
		for i := 0; i < len(ts); i += step {
			if i%200 == 0 {
				c.Tick()
			}
			if err := do(f(i)); err != nil {
				return err
			}
		}
		return do(Op{K: KFind, Pid: "p", Sel: SelAll})
	}
	get := func(i int) Op { return Op{K: KGet, Pid: "p", T: ts[i]} }
	set := func(i int) Op { c.Transitions++; return Op{K: KSet, Pid: "p", T: ts[i], Data: fmt.Sprint(i)} }
	del := func(i int) Op { c.Transitions++; return Op{K: KDel, Pid: "p", T: ts[i]} }
	for _, f := range []func() error{
		func() error { return each(1, set) }, func() error { return each(1, get) },
		func() error { return each(2, del) }, func() error { return each(1, get) },
		func() error { return each(4, set) }, func() error { return each(1, del) }, func() error { return each(1, get) },
	} {
		if err := f(); err != nil {
			return err
		}
	}
	c.Traces++
	return nil
}

// bundled opens one of the stores which come with raccoondb
func bundled(c *Ctx, st int, name string) (rcdb.KVStore, func(), error) {
	if st == 0 {
		return rcdb.NewMemKV(), func() {}, nil
	}
	dir := filepath.Join(c.Dir, name)
	kv, err := rcdb.NewLevelDB(dir, "t.db")
	if err != nil {
		return nil, nil, err
	}
	return kv, func() {
		if x, ok := kv.(interface{ Close() error }); ok {
			x.Close()
		}
	}, nil
}

func pairOp(pid string, x, y Tup, k int) Op {
	switch k {
	case 0:
		return Op{K: KSet, Pid: pid, T: x, Data: "d1"}
	case 1:
		return Op{K: KDel, Pid: pid, T: x}
	case 2:
		return Op{K: KSet, Pid: pid, T: y, Data: "d1"}
	case 3:
		return Op{K: KDel, Pid: pid, T: y}
	}
	if k == 5 {
		return Op{K: KSet, Pid: pid, T: x, Data: "d2"}
	}
	return Op{K: KSet, Pid: pid, T: x}
}

func pairSeqs(c *Ctx, kv func() rcdb.KVStore, pol *Pol, x, y Tup, depth int, each bool) error {
	var res error
	base := NewSpyKV()
	s0 := NewSys(base)
	w0 := World{}
	if err := Step1(s0, w0, Op{K: KCreate, Pol: pol}); err != nil {
		return err
	}
	pk := fmt.Sprintf("%v %v ", x, y)
	kinds := 5
	if each {
		kinds = 6
	}
	product(kinds, depth, func(v []int) bool {
		s := NewSys(base.Clone())
		w := w0.Clone()
		for i, k := range v {
			if res = Step1(s, w, pairOp("p", x, y, k)); res != nil {
				res = fmt.Errorf("sequence %v: %w", v[:i+1], res)
				return false
			}
			c.Transitions++
			if each {
				if res = c.observe(s, w, []string{"p"}, []Tup{x, y}, nil); res != nil {
					res = fmt.Errorf("sequence %v: %w", v[:i+1], res)
					return false
				}
			}
		}
		c.State(pk + fmtTups(w["p"].Rels))
		if res = c.observe(s, w, []string{"p"}, []Tup{x, y}, nil); res != nil {
			res = fmt.Errorf("sequence %v: %w", v, res)
			return false
		}
		c.Traces++
		c.Tick()
		return true
	})
	if res == nil {
		c.Sample("all sequences over %v and %v", x, y)
	}
	return res
}

// observe compares the complete observable state of some policies
func (c *Ctx) observe(s Svc, w World, pids []string, tups []Tup, more []Op) error {
	stored := false
	do := func(o Op) error {
		c.Evaluations++
		if stored {
			c.Nontrivial++
		}
		c.Outcome(kindName[o.K])
		return Step1(s, w, o)
	}
	if err := do(Op{K: KList}); err != nil {
		return err
	}
	for _, id := range pids {
		stored = w[id] != nil && len(w[id].Rels) > 0
		for _, o := range []Op{{K: KGetPol, Pid: id}, {K: KFind, Pid: id, Sel: SelAll}, {K: KDump, Pid: id}} {
			if err := do(o); err != nil {
				return err
			}
		}
		for _, t := range tups {
			if err := do(Op{K: KGet, Pid: id, T: t}); err != nil {
				return err
			}
		}
	}
	for _, o := range more {
		if err := do(o); err != nil {
			return err
		}
	}
	return nil
}

func sizesC06(c *Ctx, kv rcdb.KVStore, kind, max int) error {
	p := polWith("p", ResDef{Name: "a", Rels: []RelDef{rel("r", "_this"), rel("q", "_this")}})
	s := NewSys(kv)
	w := World{}
	if err := Step1(s, w, Op{K: KCreate, Pol: p}); err != nil {
		return err
	}
	id := func(i int) string { return fmt.Sprint("i", i) }
	var ts []Tup
	for i := 0; i < max; i++ {
		switch kind % 3 {
		case 0:
			ts = append(ts, T("a", "o", "r", E("a", id(i))))
		case 1:
			ts = append(ts, T("a", id(i), "r", E("a", "s")))
		case 2:
			ts = append(ts, T("a", id(i/3), []string{"r", "q"}[i%2], []Sub{E("a", id(i)), S("a", id(i/7), "r"), W("a")}[i%3]))
		}
	}
	if kind%3 == 2 { // repeated tuples are overwritten
		seen := map[Tup]bool{}
		var u []Tup
		for _, t := range ts {
			if !seen[t] {
				seen[t] = true
				u = append(u, t)
			}
		}
		ts = u
	}
	for i, t := range ts {
		if err := Step1(s, w, Op{K: KSet, Pid: "p", T: t, Data: id(i)}); err != nil {
			return err
		}
		c.Transitions++
		for _, j := range []int{i, 0, i / 2, i + 1} {
			if j < len(ts) {
				if err := Step1(s, w, Op{K: KGet, Pid: "p", T: ts[j]}); err != nil {
					return err
				}
				c.Evaluations++
			}
		}
		if i%16 == 15 || i < 70 {
			if err := Step1(s, w, Op{K: KFind, Pid: "p", Sel: SelAll}); err != nil {
				return err
			}
			c.Evaluations++
			c.Tick()
		}
	}
	n := len(ts)
	for k := 0; k < n; k++ {
		i := k
		switch kind / 3 {
		case 1:
			i = n - 1 - k
		}
		if kind%2 == 1 {
			i = (k * 7) % n
			if n%7 == 0 {
				i = k
			}
		}
		if err := Step1(s, w, Op{K: KDel, Pid: "p", T: ts[i]}); err != nil {
			return err
		}
		c.Transitions++
		if err := Step1(s, w, Op{K: KGet, Pid: "p", T: ts[i]}); err != nil {
			return err
		}
		if j := (i + 1) % n; true {
			if err := Step1(s, w, Op{K: KGet, Pid: "p", T: ts[j]}); err != nil {
				return err
			}
		}
		c.Evaluations += 2
		if k%16 == 0 {
			if err := Step1(s, w, Op{K: KFind, Pid: "p", Sel: SelAll}); err != nil {
				return err
			}
			c.Tick()
		}
	}
	c.Traces++
	return Step1(s, w, Op{K: KFind, Pid: "p", Sel: SelAll})
}

// ---- C07 ----

func adversarialIds() []string {
	return []string{"1", "11", "2", "/", "1/", "/1", "1//", "1/1", "1////in/x", "1////out", "p", "P", "p ", " p", "pp", "p/p", "p/", "\x00", "1\x00", "é", "e\u0301", "*", "3", "4", "\u00ff", "\u07ff\uffff", "policy", strings.Repeat("p", 300), strings.Repeat("p", 301), "ÿÿ", "0"}
}

func isoPol(id string) *Pol {
	return polWith(id, ResDef{Name: "u"}, ResDef{Name: "g", Rels: []RelDef{rel("m", "_this"), rel("v", "_this + m"), rel("parent", "_this"), rel("w", "parent->v")}})
}

var isoTups = []Tup{T("g", "1", "m", E("u", "x")), T("g", "1", "v", S("g", "2", "m")), T("g", "2", "m", W("u")), T("g", "1", "parent", E("g", "2"))}

// isoOps are requests of every kind addressed to one policy
func isoOps(id string) []Op {
	p2 := polWith(id, ResDef{Name: "u"}, ResDef{Name: "g", Rels: []RelDef{rel("m", "_this"), rel("v", "m & _this"), rel("parent", "_this"), rel("w", "v")}})
	q := node{Ent{"g", "1"}, "v"}
	return []Op{
		{K: KCreate, Pol: isoPol(id), Data: "again"}, {K: KUpdate, Pol: p2, Data: "upd"}, {K: KDelPol, Pid: id},
		{K: KSet, Pid: id, T: isoTups[0], Data: "over"}, {K: KSet, Pid: id, T: T("g", "9", "m", E("u", "z")), Data: "new"}, {K: KDel, Pid: id, T: isoTups[0]}, {K: KDel, Pid: id, T: isoTups[3]}, {K: KDel, Pid: id, T: T("g", "9", "m", E("u", "none"))},
		{K: KDelSel, Pid: id, Sel: SelAll}, {K: KDelSel, Pid: id, Sel: Sel{OK: 'x', O: Ent{"g", "1"}, LK: '*', SK: '*'}},
		{K: KGetPol, Pid: id}, {K: KGet, Pid: id, T: isoTups[1]}, {K: KFind, Pid: id, Sel: SelAll}, {K: KCheck, Pid: id, N: q, Sub: Ent{"u", "x"}}, {K: KDump, Pid: id}, {K: KList},
	}
}

func isoObs(ids ...string) []Op {
	var out []Op
	for _, id := range ids {
		for _, l := range []string{"m", "v", "w"} {
			for _, u := range []string{"x", "z", "only"} {
				out = append(out, Op{K: KCheck, Pid: id, N: node{Ent{"g", "1"}, l}, Sub: Ent{"u", u}})
			}
		}
	}
	return out
}

func runC07(c *Ctx) {
	ids := adversarialIds()
	c.Bounds_("A", "all ordered pairs of %d policy ids x %d requests to the first x all pairs of first and second request (thorough), complete observation of both", len(ids), len(isoOps("x")))
	for _, a := range ids {
		for _, b := range ids {
			if a == b {
				continue
			}
			c.Case(func() string { return fmt.Sprintf("ids %q and %q", a, b) }, func() error { return isoPair(c, a, b) })
		}
	}
	alike := append(append([][2]string{}, alikePairs...), alikeIds...)
	c.Bounds_("E", "%d pairs of policy ids with the same checksum", len(alike))
	for _, p := range alike {
		for i := 0; i < 2; i++ {
			a, b := p[i], p[1-i]
			c.Case(func() string { return fmt.Sprintf("ids %q and %q", a, b) }, func() error {
				if err := isoPair(c, a, b); err != nil {
					return err
				}
				return isoMissing(c, a, b)
			})
		}
	}
	dividedPolicies(c, "F")
	c.Bounds_("D", "all ordered pairs of %d policy ids: every request addressed to the first, which does not exist, while the second is displayed under the name of the first", len(ids))
	for _, a := range ids {
		for _, b := range ids {
			if a != b {
				c.Case(func() string { return fmt.Sprintf("id %q does not exist, %q does", a, b) }, func() error { return isoMissing(c, a, b) })
			}
		}
	}
	// three policies, sequences
	ids3 := []string{"1", "11", "1/"}
	var ops []Op
	for _, id := range ids3 {
		ops = append(ops, Op{K: KCreate, Pol: isoPol(id)}, Op{K: KDelPol, Pid: id}, Op{K: KSet, Pid: id, T: isoTups[0], Data: id}, Op{K: KDelSel, Pid: id, Sel: SelAll})
	}
	depth := 4
	if c.Thorough {
		depth = 5
	}
	c.Bounds_("B", "all sequences of length %d over %d requests to three policies, observed after the last", depth, len(ops))
	for first := range ops {
		for second := range ops {
			c.Case(func() string { return fmt.Sprintf("sequences starting with %v, %v", ops[first], ops[second]) }, func() error {
				var res error
				product(len(ops), depth-2, func(v []int) bool {
					s := NewSys(NewSpyKV())
					w := World{}
					seq := append([]int{first, second}, v...)
					for _, k := range seq {
						c.Transitions++
						if res = Step1(s, w, ops[k]); res != nil {
							res = fmt.Errorf("sequence %v: %w", seq, res)
							return false
						}
					}
					c.State(w.Key())
					if res = c.observe(s, w, ids3, isoTups[:1], nil); res != nil {
						res = fmt.Errorf("sequence %v: %w", seq, res)
						return false
					}
					c.Traces++
					return true
				})
				c.Tick()
				return res
			})
		}
	}
	// number of policies
	c.Case(func() string { return "many policies" }, func() error {
		n := 200
		s := NewSys(NewSpyKV())
		w := World{}
		for i := 0; i < n; i++ {
			id := fmt.Sprint(i)
			for _, o := range []Op{{K: KCreate, Pol: isoPol(id)}, {K: KSet, Pid: id, T: isoTups[0], Data: id}, {K: KSet, Pid: id, T: isoTups[2]}} {
				if err := Step1(s, w, o); err != nil {
					return err
				}
			}
			for _, j := range []int{0, i / 2, i} {
				if err := c.observe(s, w, []string{fmt.Sprint(j)}, isoTups[:2], isoObs(fmt.Sprint(j))); err != nil {
					return err
				}
			}
			c.Tick()
		}
		for i := 0; i < n; i += 2 {
			if err := Step1(s, w, Op{K: KDelPol, Pid: fmt.Sprint(i)}); err != nil {
				return err
			}
			if err := c.observe(s, w, []string{fmt.Sprint(i), fmt.Sprint(i + 1)}, isoTups[:2], isoObs(fmt.Sprint(i+1))); err != nil {
				return err
			}
			c.Tick()
		}
		return nil
	})
}

// isoMissing: policy b is displayed as a; there is no policy a
func isoMissing(c *Ctx, a, b string) error {
	base := NewSpyKV()
	s := NewSys(base)
	w := World{}
	pb := isoPol(b)
	pb.Name = a
	setup := []Op{{K: KCreate, Pol: pb, Data: "B"}}
	for i, t := range isoTups {
		setup = append(setup, Op{K: KSet, Pid: b, T: t, Data: fmt.Sprint("b", i)})
	}
	for _, o := range setup {
		if err := Step1(s, w, o); err != nil {
			return err
		}
	}
	obs := isoObs(a, b)
	for _, o := range isoOps(a) {
		s, w := NewSys(base.Clone()), w.Clone()
		if err := Step1(s, w, o); err != nil {
			return err
		}
		c.Transitions++
		if err := c.observe(s, w, []string{a, b}, isoTups, obs); err != nil {
			return fmt.Errorf("after %v: %w", o, err)
		}
		c.State(w.Key())
		c.Traces++
	}
	return nil
}

func isoPair(c *Ctx, a, b string) error {
	base := NewSpyKV()
	s := NewSys(base)
	w := World{}
	pa, pb := isoPol(a), isoPol(b)
	pa.Name, pb.Name = b, a // a display name is not an id
	setup := []Op{{K: KCreate, Pol: pa, Data: "A"}, {K: KCreate, Pol: pb, Data: "B"}}
	for i, t := range isoTups {
		setup = append(setup, Op{K: KSet, Pid: a, T: t, Data: fmt.Sprint("a", i)}, Op{K: KSet, Pid: b, T: t, Data: fmt.Sprint("b", i)})
	}
	setup = append(setup, Op{K: KSet, Pid: b, T: T("g", "1", "m", E("u", "only"))})
	tups := append(append([]Tup{}, isoTups...), T("g", "1", "m", E("u", "only")), T("g", "9", "m", E("u", "z")))
	for _, o := range setup {
		if err := Step1(s, w, o); err != nil {
			return err
		}
		c.Transitions++
		if err := c.observe(s, w, []string{a, b}, nil, nil); err != nil {
			return err
		}
	}
	ops := isoOps(a)
	obs := isoObs(a, b)
	if err := c.observe(s, w, []string{a, b}, tups, obs); err != nil {
		return err
	}
	seconds := []Op{{}}
	if c.Thorough {
		seconds = append(seconds, ops...)
	}
	for _, o := range ops {
		for i, o2 := range seconds {
			kv := base.Clone()
			s := NewSys(kv)
			w := w.Clone()
			if err := Step1(s, w, o); err != nil {
				return err
			}
			if i > 0 {
				if err := Step1(s, w, o2); err != nil {
					return fmt.Errorf("after %v: %w", o, err)
				}
			}
			c.Transitions++
			c.State(w.Key())
			if err := c.observe(s, w, []string{a, b}, tups, obs); err != nil {
				return fmt.Errorf("after %v: %w", o, err)
			}
			c.Traces++
		}
	}
	c.Sample("policies %q and %q: every request to the first", a, b)
	return nil
}

// ---- C08 ----

func selUniverse() (objs, rels, subs []Sel) {
	for _, o := range []Ent{{"doc", "1"}, {"doc", "2"}, {"group", "g"}, {"doc", "none"}, {"nores", "1"}, {"", ""}, {"doc", ""}, {"Doc", "1"}} {
		objs = append(objs, Sel{OK: 'x', O: o})
	}
	for _, r := range []string{"doc", "group", "user", "nores", "", "do", "Doc"} {
		objs = append(objs, Sel{OK: 'r', O: Ent{R: r}})
	}
	objs = append(objs, Sel{OK: '*'})
	for _, l := range []string{"v", "m", "a", "none", "", "V"} {
		rels = append(rels, Sel{LK: 'x', L: l})
	}
	rels = append(rels, Sel{LK: '*'})
	for _, s := range []Sub{E("user", "u"), E("user", "uu"), E("group", "g"), S("group", "g", "m"), S("group", "g", "none"), S("doc", "1", "v"), W("user"), W("group"), E("user", "*"), E("nores", "u"), W("nores"), S("nores", "g", "m"), E("User", "u"), E("user", "")} {
		subs = append(subs, Sel{SK: 'x', S: s})
	}
	for _, r := range []string{"user", "group", "doc", "nores", "", "use"} {
		subs = append(subs, Sel{SK: 'r', S: Sub{R: r}})
	}
	subs = append(subs, Sel{SK: '*'})
	return
}

func selPol(id string) *Pol {
	return polWith(id, ResDef{Name: "user"}, ResDef{Name: "group", Rels: []RelDef{rel("m", "_this")}},
		ResDef{Name: "doc", Rels: []RelDef{rel("v", "_this"), rel("a", "_this")}})
}

var selTups = []Tup{
	T("doc", "1", "v", E("user", "u")), T("doc", "2", "v", E("user", "u")), T("doc", "1", "a", E("user", "u")), T("doc", "1", "v", S("group", "g", "m")),
	T("doc", "1", "v", W("user")), T("group", "g", "m", E("user", "uu")), T("doc", "1", "v", E("group", "g")), T("group", "g", "m", S("doc", "1", "v")),
	T("doc", "2", "v", W("group")), T("doc", "2", "a", S("doc", "1", "v")),
}

func runC08(c *Ctx) {
	objs, rels, subs := selUniverse()
	n := 8
	if c.Thorough {
		n = 10
	}
	tups := selTups[:n]
	c.Bounds_("A", "2^%d relationship sets x %d selectors (%d object, %d relation, %d subject), find and delete", n, len(objs)*len(rels)*len(subs), len(objs), len(rels), len(subs))
	for set := 0; set < 1<<n; set++ {
		// find: all selectors on all sets; delete: each selector on each set that has a match, on a copy
		c.Case(func() string { return fmt.Sprintf("relationship set %0*b", n, set) }, func() error {
			kv := NewSpyKV()
			s := NewSys(kv)
			w := World{}
			p, q := selPol("p"), selPol("q")
			for _, o := range []Op{{K: KCreate, Pol: p}, {K: KCreate, Pol: q}, {K: KSet, Pid: "q", T: tups[0], Data: "q"}, {K: KSet, Pid: "q", T: tups[3], Data: "q"}} {
				if err := Step1(s, w, o); err != nil {
					return err
				}
			}
			for b := 0; b < n; b++ {
				if set>>b&1 == 1 {
					if err := Step1(s, w, Op{K: KSet, Pid: "p", T: tups[b], Data: fmt.Sprint("d", b)}); err != nil {
						return err
					}
					c.Transitions++
				}
			}
			c.State(fmtTups(w["p"].Rels))
			c.Traces++
			for _, so := range objs {
				c.Tick()
				for _, sl := range rels {
					for _, ss := range subs {
						sel := Sel{so.OK, so.O, sl.LK, sl.L, ss.SK, ss.S}
						hits := 0
						for t := range w["p"].Rels {
							if sel.Matches(t) {
								hits++
							}
						}
						c.Evaluations++
						if hits > 0 && hits < len(w["p"].Rels) {
							c.Nontrivial++
						}
						c.Outcome(fmt.Sprintf("%d of %d", hits, len(w["p"].Rels)))
						o := Op{K: KFind, Pid: "p", Sel: sel}
						if err := Step1(s, w, o); err != nil {
							return err
						}
						if ok, _ := sel.Valid(p); !ok && !c.Thorough && set%8 != 7 && hits == 0 {
							continue
						}
						// decoded from the wire
						if set%4 == 3 || c.Thorough {
							b, err := proto.Marshal(o.Req())
							if err != nil {
								return err
							}
							r := &api.FindRelationshipRecordsRequest{}
							if err := proto.Unmarshal(b, r); err != nil {
								return err
							}
							got := ERR
							if resp, err := call(s, r); err == nil {
								got = canonResp(resp)
							}
							if alts := w.Clone().Apply(o); !accepts(alts, got) {
								return fmt.Errorf("%v decoded from the wire\nexpected: %v\ngot: %s\nstate:\n%v", o, alts, got, w)
							}
						}
						if hits > 0 || set == 0 || set == 1<<n-1 {
							s2, w2 := NewSys(kv.Clone()), w.Clone()
							o.K = KDelSel
							if err := Step1(s2, w2, o); err != nil {
								return err
							}
							c.Transitions++
							for _, ob := range []Op{{K: KFind, Pid: "p", Sel: SelAll}, {K: KDump, Pid: "p"}, {K: KFind, Pid: "q", Sel: SelAll}} {
								if err := Step1(s2, w2, ob); err != nil {
									return fmt.Errorf("after %v: %w", o, err)
								}
							}
							if set%4 == 3 {
								for _, t := range tups {
									if err := Step1(s2, w2, Op{K: KGet, Pid: "p", T: t}); err != nil {
										return fmt.Errorf("after %v: %w", o, err)
									}
								}
								// a second time: nothing left
								if err := Step1(s2, w2, o); err != nil {
									return fmt.Errorf("repeated: %w", err)
								}
							}
						}
					}
				}
			}
			c.Sample("relationships:\n%sall selectors", fmtTups(w["p"].Rels))
			return nil
		})
	}
	// numbers of matching and other relationships
	var ns []int
	for i := 0; i <= 130; i++ {
		ns = append(ns, i)
	}
	ns = append(ns, 199, 200, 201, 255, 256, 257, 300, 499, 500, 501, 511, 512, 513, 999, 1000, 1001, 1023, 1024, 1025)
	ns = append(ns, 2048, 2049, 4097, 5001)
	if c.Thorough {
		ns = append(ns, 8193, 10001, 20000)
	}
	c.Bounds_("B", "0..130 and selected sizes up to %d matching relationships among as many others", ns[len(ns)-1])
	for _, k := range ns {
		c.Case(func() string { return fmt.Sprintf("%d matching relationships", k) }, func() error {
			s, w, err := start(selPol("p"))
			if err != nil {
				return err
			}
			for i := 0; i < k; i++ {
				id := fmt.Sprint(i)
				c.Tick()
				for _, t := range []Tup{T("doc", id, "v", E("user", id)), T("doc", id, "a", W("user"))} {
					if err := Step1(s, w, Op{K: KSet, Pid: "p", T: t, Data: id}); err != nil {
						return err
					}
				}
			}
			c.Tick()
			sels := []Sel{{OK: '*', LK: 'x', L: "v", SK: '*'}, {OK: 'r', O: Ent{R: "doc"}, LK: '*', SK: 'x', S: W("user")}, SelAll, {OK: 'r', O: Ent{R: "group"}, LK: '*', SK: '*'}}
			for _, sel := range sels {
				c.Evaluations++
				if err := Step1(s, w, Op{K: KFind, Pid: "p", Sel: sel}); err != nil {
					return err
				}
			}
			dels := []Sel{sels[3], sels[0], SelAll}
			if k > 2049 {
				dels = dels[:1] // a request with so many deletions takes too long on a busy machine
			}
			for _, sel := range dels {
				c.Tick()
				if err := Step1(s, w, Op{K: KDelSel, Pid: "p", Sel: sel}); err != nil {
					return err
				}
				if err := Step1(s, w, Op{K: KFind, Pid: "p", Sel: SelAll}); err != nil {
					return err
				}
			}
			c.Traces++
			return nil
		})
	}
	// relationships left over by a policy update, and unknown policies
	c.Case(func() string { return "undefined names, unknown policies" }, func() error {
		s, w, err := start(selPol("p"))
		if err != nil {
			return err
		}
		for _, t := range selTups {
			if err := Step1(s, w, Op{K: KSet, Pid: "p", T: t}); err != nil {
				return err
			}
		}
		if err := Step1(s, w, Op{K: KUpdate, Pol: polWith("p", ResDef{Name: "user"}, ResDef{Name: "doc", Rels: []RelDef{rel("v", "_this")}})}); err != nil {
			return err
		}
		for _, pid := range []string{"p", "q", ""} {
			for _, so := range objs {
				for _, sl := range rels {
					for _, ss := range subs {
						if err := Step1(s, w, Op{K: KFind, Pid: pid, Sel: Sel{so.OK, so.O, sl.LK, sl.L, ss.SK, ss.S}}); err != nil {
							return err
						}
					}
				}
			}
		}
		return nil
	})
	selNames(c)
	divided(c, "divided", func(s Svc, w World, pid string, g *Graph, tups []Tup) error {
		return histSteps(c, func(pid string) []Op {
			out := []Op{{K: KFind, Pid: pid, Sel: SelAll}}
			for _, t := range tups {
				for k := 1; k < 12; k++ {
					x := Sel{OK: "*xr"[k%3], LK: "*x"[k/3%2], SK: "*xr"[(k+k/6)%3], O: t.O, L: t.L, S: t.S}
					out = append(out, Op{K: KFind, Pid: pid, Sel: x})
				}
			}
			return out
		})(s, w, pid, g)
	})
	obs := histSteps(c, func(pid string) []Op {
		var out []Op
		for _, x := range []Sel{SelAll, {OK: 'x', O: Ent{"doc", "1"}, LK: '*', SK: '*'}, {OK: 'r', O: Ent{R: "doc"}, LK: 'x', L: "a", SK: '*'}, {OK: '*', LK: '*', SK: 'x', S: E("user", "u")}, {OK: '*', LK: 'x', L: "b", SK: 'r', S: Sub{R: "group"}}} {
			out = append(out, Op{K: KFind, Pid: pid, Sel: x})
		}
		return out
	})
	histories(c, "histories", map[bool]int{false: 3, true: 4}[c.Thorough], obs)
	variants(c, "variants", histSteps(c, func(pid string) []Op {
		var out []Op
		for _, o := range []Sel{{OK: '*'}, {OK: 'r', O: Ent{R: "doc"}}, {OK: 'x', O: Ent{"doc", "1"}}, {OK: 'r', O: Ent{R: "zoo"}}} {
			for _, l := range []Sel{{LK: '*'}, {LK: 'x', L: "a"}, {LK: 'x', L: "v"}, {LK: 'x', L: "m"}, {LK: 'x', L: "none"}} {
				for _, x := range []Sel{{SK: '*'}, {SK: 'x', S: E("user", "u")}, {SK: 'x', S: S("group", "g", "m")}, {SK: 'r', S: Sub{R: "user"}}, {SK: 'r', S: Sub{R: "none"}}} {
					out = append(out, Op{K: KFind, Pid: pid, Sel: Sel{o.OK, o.O, l.LK, l.L, x.SK, x.S}})
				}
			}
		}
		return out
	}))
}
