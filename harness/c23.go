package main

import (
	"fmt"
	"net"
	"os"
	"os/user"
	"path/filepath"
	"strings"
	"time"

	rcdb "github.com/sourcenetwork/raccoondb"
	"google.golang.org/protobuf/proto"

	zanzi "github.com/sourcenetwork/zanzi"
	"github.com/sourcenetwork/zanzi/pkg/domain"
	"github.com/sourcenetwork/zanzi/pkg/server"
	"github.com/sourcenetwork/zanzi/pkg/types"
)

func init() {
	register(&Check{ID: "C23", Level: "model_checking",
		Rule:  "all lists of options up to the length bound; all request sequences up to the length bound over two instances in one process, both observed after every request and compared with one reference model each. Non-trivial: the list has at least two options, or both instances received a request.",
		Assum: []string{"stores are used by one instance at a time", "which data an instance without store option keeps over a restart is left open"},
		Run:   runC23})
	register(&Check{ID: "C24", Level: "model_checking",
		Rule:  "all call sequences on the builders up to the length bound; every constructor and accessor on every combination of adversarial names and every expression tree up to the leaf bound, compared with messages written out by the harness. Non-trivial: every case.",
		Assum: []string{"names that occur twice in a policy are left open"},
		Run:   runC24})
}

// ---- C23 ----

func listOf[T any](xs ...T) []T { return xs }

type recLogger struct{ n int }

func (r *recLogger) Errorf(m string, a ...any) { r.n += len(fmt.Sprintf(m, a...)) }
func (r *recLogger) Warnf(m string, a ...any)  { r.n += len(fmt.Sprintf(m, a...)) }
func (r *recLogger) Infof(m string, a ...any)  { r.n += len(fmt.Sprintf(m, a...)) }
func (r *recLogger) Debugf(m string, a ...any) { r.n += len(fmt.Sprintf(m, a...)) }

const nOptions = 10

// optionScript runs requests of every kind against the model
func optionScript(c *Ctx, s Svc, w World) error {
	ops := []Op{{K: KList}, {K: KCreate, Pol: histPol("p", "a - b"), Data: "data"}, {K: KSet, Pid: "p", T: T("doc", "1", "a", E("user", "u")), Data: "x"}, {K: KSet, Pid: "p", T: T("doc", "1", "a", W("user"))}, {K: KSet, Pid: "p", T: T("doc", "1", "b", S("group", "g", "m"))}, {K: KSet, Pid: "p", T: T("group", "g", "m", E("user", "x"))},
		{K: KSet, Pid: "p", T: T("doc", "1", "nope", E("user", "u"))}}
	for _, u := range []string{"u", "x"} {
		ops = append(ops, Op{K: KCheck, Pid: "p", N: node{Ent{"doc", "1"}, "v"}, Sub: Ent{"user", u}})
	}
	ops = append(ops, Op{K: KFind, Pid: "p", Sel: SelAll}, Op{K: KDump, Pid: "p"}, Op{K: KGetPol, Pid: "p"}, Op{K: KCheck, Pid: "none", N: node{Ent{"doc", "1"}, "v"}, Sub: Ent{"user", "u"}}, Op{K: KList})
	for _, o := range ops {
		c.Transitions++
		c.Evaluations++
		if err := Step1(s, w, o); err != nil {
			return err
		}
	}
	return nil
}

func runOptions(c *Ctx, seq []int) error {
	a, b := NewSpyKV(), NewSpyKV()
	dir := ""
	wantFail := false
	var last any // the store in force
	opts := listOf(zanzi.WithoutLogger(nil))[:0]
	var names []string
	rec := &recLogger{}
	for _, k := range seq {
		switch k {
		case 0:
			opts, last, names = append(opts, zanzi.WithMemKVStore()), nil, append(names, "WithMemKVStore")
		case 1:
			opts, last, names = append(opts, zanzi.WithKVStore(a)), a, append(names, "WithKVStore(a)")
		case 2:
			opts, last, names = append(opts, zanzi.WithKVStore(b)), b, append(names, "WithKVStore(b)")
		case 3:
			dir = filepath.Join(c.Dir, fmt.Sprint("opt", seq, len(opts)))
			opts, last, names = append(opts, zanzi.WithDefaultKVStore(dir)), dir, append(names, "WithDefaultKVStore")
		case 4:
			opts, last, names = append(opts, zanzi.WithDevelopmentConfig()), nil, append(names, "WithDevelopmentConfig")
		case 5:
			opts, names = append(opts, zanzi.WithDefaultLogger()), append(names, "WithDefaultLogger")
		case 6:
			opts, names = append(opts, zanzi.WithDevelopmentLogger()), append(names, "WithDevelopmentLogger")
		case 7:
			opts, names = append(opts, zanzi.WithoutLogger(nil)), append(names, "WithoutLogger")
		case 8:
			opts, names = append(opts, zanzi.WithLogger(rec)), append(names, "WithLogger")
		case 9:
			f := filepath.Join(c.Dir, fmt.Sprint("file", seq))
			if err := os.WriteFile(f, []byte("not a directory"), 0o600); err != nil {
				panic(infra{err.Error()})
			}
			opts, names, wantFail = append(opts, zanzi.WithDefaultKVStore(f)), append(names, "WithDefaultKVStore(a file)"), true
		}
	}
	defer func() {
		if dir != "" {
			os.RemoveAll(dir)
		}
	}()
	c.Traces++
	if len(seq) > 1 {
		c.Nontrivial++
	}
	fail := func(f string, args ...any) error {
		return fmt.Errorf("New(%s): %s", strings.Join(names, ", "), fmt.Sprintf(f, args...))
	}
	z, err := zanzi.New(opts...)
	if wantFail {
		if err == nil {
			return fail("a data directory which cannot be opened is not reported")
		}
		c.Outcome("refused")
		return nil
	}
	if err != nil {
		return fail("%v", err)
	}
	if z.GetLogger() == nil {
		return fail("no logger")
	}
	s := Svc{z.GetPolicyService(), z.GetRelationGraphService()}
	w := World{}
	if err := optionScript(c, s, w); err != nil {
		return fail("%v", err)
	}
	for _, kv := range []*SpyKV{a, b} {
		if used := kv.Dump() != NewSpyKV().Dump(); used != (last == any(kv)) {
			return fail("a given store: used %v, want %v", used, last == any(kv))
		}
		if last == any(kv) {
			// another instance over the same store sees the same
			if err := sameView(NewSys(kv), w); err != nil {
				return fail("an instance over the same store: %v", err)
			}
		}
	}
	if d, ok := last.(string); ok {
		if m, _ := os.ReadDir(d); len(m) == 0 {
			return fail("nothing was written to the data directory")
		}
		cp := d + "-copy"
		defer os.RemoveAll(cp)
		if err := copyDir(d, cp); err != nil {
			panic(infra{err.Error()})
		}
		s2, err := openDefault(cp)
		if err != nil {
			return fail("opening a copy of the data directory: %v", err)
		}
		if err := sameView(s2, w); err != nil {
			return fail("an instance over a copy of the data directory: %v", err)
		}
	}
	c.Outcome(fmt.Sprintf("store %T", last))
	return nil
}

func sameView(s Svc, w World) error {
	for _, o := range []Op{{K: KList}, {K: KGetPol, Pid: "p"}, {K: KFind, Pid: "p", Sel: SelAll}, {K: KCheck, Pid: "p", N: node{Ent{"doc", "1"}, "v"}, Sub: Ent{"user", "u"}}} {
		if err := Step1(s, w, o); err != nil {
			return err
		}
	}
	return nil
}

// twinOps are requests to an instance
func twinOps() []Op {
	return []Op{
		{K: KCreate, Pol: histPol("p", "a - b")},
		{K: KUpdate, Pol: histPol("p", "a & b")},
		{K: KDelPol, Pid: "p"},
		{K: KSet, Pid: "p", T: T("doc", "1", "a", E("user", "u"))},
		{K: KSet, Pid: "p", T: T("doc", "1", "b", S("group", "g", "m")), Data: "x"},
		{K: KSet, Pid: "p", T: T("group", "g", "m", E("user", "u"))},
		{K: KDel, Pid: "p", T: T("doc", "1", "a", E("user", "u"))},
		{K: KDelSel, Pid: "p", Sel: SelAll},
	}
}

func twins(c *Ctx, mk func() Svc, seq []int, each bool) error {
	ops := twinOps()
	s := []Svc{mk(), mk()}
	w := []World{{}, {}}
	for i := range s {
		for _, o := range []Op{{K: KCreate, Pol: histPol("p", []string{"a - b", "a + b"}[i])}, {K: KSet, Pid: "p", T: T("doc", "1", []string{"a", "b"}[i], E("user", []string{"u", "x"}[i]))}} {
			if err := Step1(s[i], w[i], o); err != nil {
				return err
			}
		}
	}
	look := func() error {
		for i := range s {
			qs := []Op{{K: KList}, {K: KGetPol, Pid: "p"}, {K: KFind, Pid: "p", Sel: SelAll}, {K: KDump, Pid: "p"}, {K: KGet, Pid: "p", T: T("doc", "1", "a", E("user", "u"))}}
			for _, l := range []string{"v", "b"} {
				for _, u := range []string{"u", "x"} {
					qs = append(qs, Op{K: KCheck, Pid: "p", N: node{Ent{"doc", "1"}, l}, Sub: Ent{"user", u}})
				}
			}
			for _, o := range qs {
				c.Evaluations++
				if err := Step1(s[i], w[i], o); err != nil {
					return fmt.Errorf("instance %d: %w", i, err)
				}
			}
			n := node{Ent{"doc", "1"}, "v"}
			for _, o := range []Op{{K: KExplain, Pid: "p", N: n, Sub: Ent{"user", "u"}}, {K: KExpand, Pid: "p", N: n}} {
				c.Evaluations++
				if got, want := o.Run(s[i]), sequential(w[i], o); got != want {
					return fmt.Errorf("instance %d: %v\nanswers %s\nalone it answers %s", i, o, show(got), show(want))
				}
			}
		}
		return nil
	}
	desc := func(n int) string {
		var b strings.Builder
		for _, k := range seq[:n] {
			fmt.Fprintf(&b, "instance %d: %v\n", k/len(ops), ops[k%len(ops)])
		}
		return b.String()
	}
	if each {
		if err := look(); err != nil {
			return err
		}
	}
	both := 0
	for i, k := range seq {
		both |= 1 << (k / len(ops))
		if err := Step1(s[k/len(ops)], w[k/len(ops)], ops[k%len(ops)]); err != nil {
			return fmt.Errorf("%w\nafter\n%s", err, desc(i))
		}
		c.Transitions++
		if each || i == len(seq)-1 {
			if err := look(); err != nil {
				return fmt.Errorf("%w\nafter\n%s", err, desc(i+1))
			}
		}
	}
	if both == 3 {
		c.Nontrivial++
	}
	c.State(w[0].Key() + "\x00" + w[1].Key())
	c.Traces++
	return nil
}

func runC23(c *Ctx) {
	max := 3
	if c.Thorough {
		max = 4
	}
	c.Bounds_("A", "all lists of up to %d of %d options (data directories in lists of up to 2)", max, nOptions)
	for n := 0; n <= max; n++ {
		product(nOptions, n, func(v []int) bool {
			seq := append([]int{}, v...)
			for _, k := range seq {
				if n > 2 && (k == 3 || k == 9) {
					return true
				}
			}
			c.Case(func() string { return fmt.Sprintf("options %v", seq) }, func() error { return runOptions(c, seq) })
			return true
		})
	}
	// the home directory
	c.Bounds_("tilde", "a data directory named relative to the home directory")
	c.Case(func() string { return "data directory ~/..." }, func() error {
		u, err := user.Current()
		if err != nil {
			panic(infra{err.Error()})
		}
		dir := filepath.Join(c.Dir, "tilde")
		relPath, err := filepath.Rel(u.HomeDir, dir)
		if err != nil || !filepath.IsAbs(dir) {
			panic(infra{fmt.Sprint("no relative path from ", u.HomeDir, " to ", dir)})
		}
		// a store named otherwise would be created below the working directory
		cwd, _ := os.Getwd()
		work := filepath.Join(c.Dir, "tilde-work")
		if err := os.MkdirAll(work, 0o755); err != nil {
			panic(infra{err.Error()})
		}
		if err := os.Chdir(work); err != nil {
			panic(infra{err.Error()})
		}
		defer os.Chdir(cwd)
		s, err := openDefault("~/" + relPath)
		if err != nil {
			return fmt.Errorf("WithDefaultKVStore(~/%s): %v", relPath, err)
		}
		c.Evaluations++
		c.Nontrivial++
		w := World{}
		if err := optionScript(c, s, w); err != nil {
			return err
		}
		if m, _ := os.ReadDir(dir); len(m) == 0 {
			return fmt.Errorf("WithDefaultKVStore(~/%s): nothing in %s", relPath, dir)
		}
		return nil
	})
	dirNames := []string{"plain", "data~1", "a~b~c", "x~", "with space", "d.b", "zanzi", "zanzi.db", "é", "..data", "-d", "%s", "$HOME", "*", "a/b"}
	c.Bounds_("directories", "%d names of data directories, absolute, relative to the working directory and relative to the home directory", len(dirNames))
	for _, name := range dirNames {
		c.Case(func() string { return fmt.Sprintf("data directory named %q", name) }, func() error {
			u, err := user.Current()
			if err != nil {
				panic(infra{err.Error()})
			}
			base := filepath.Join(c.Dir, "dirs")
			relHome, err := filepath.Rel(u.HomeDir, base)
			if err != nil {
				panic(infra{err.Error()})
			}
			cwd, _ := os.Getwd()
			defer func() {
				os.Chdir(cwd)
				os.RemoveAll(base)
			}()
			for _, prefix := range []string{base + "/", "", "./", "~/" + relHome + "/"} {
				os.RemoveAll(base)
				if err := os.MkdirAll(filepath.Join(base, filepath.Dir(name)), 0o755); err != nil {
					panic(infra{err.Error()})
				}
				if err := os.Chdir(base); err != nil {
					panic(infra{err.Error()})
				}
				path := prefix + name
				s, err := openDefault(path)
				if err != nil {
					return fmt.Errorf("WithDefaultKVStore(%s): %v", path, err)
				}
				c.Evaluations++
				c.Nontrivial++
				if err := Step1(s, World{}, Op{K: KCreate, Pol: histPol("p", "a - b"), Data: "data"}); err != nil {
					return err
				}
				if m, _ := os.ReadDir(filepath.Join(base, name)); len(m) == 0 {
					return fmt.Errorf("WithDefaultKVStore(%s): nothing in %s", path, filepath.Join(base, name))
				}
				top := strings.Split(name, "/")[0]
				m, _ := os.ReadDir(base)
				for _, e := range m {
					if e.Name() != top {
						return fmt.Errorf("WithDefaultKVStore(%s): made %s", path, e.Name())
					}
				}
			}
			return nil
		})
	}
	// the server reports an address it cannot listen on
	c.Bounds_("address", "addresses which cannot be listened on; a free one")
	c.Case(func() string { return "server addresses" }, func() error {
		l, err := net.Listen("tcp", "127.0.0.1:0")
		if err != nil {
			panic(infra{err.Error()})
		}
		defer l.Close()
		for _, a := range []string{l.Addr().String(), "127.0.0.1:notaport", "127.0.0.1", "127.0.0.1:99999"} {
			z, err := zanzi.New(zanzi.WithoutLogger(nil))
			if err != nil {
				return err
			}
			srv := server.NewServer(a)
			c.Evaluations++
			if err := srv.Init(&z); err == nil {
				return fmt.Errorf("Init on address %q does not fail", a)
			}
		}
		return nil
	})
	// two instances
	ops := twinOps()
	depth := 3
	if c.Thorough {
		depth = 4
	}
	c.Bounds_("B", "two instances in one process, own in-memory stores: all %d^%d sequences over %d requests to either, both observed after every request; all %d^%d sequences observed after the last one", 2*len(ops), depth, 2*len(ops), 2*len(ops), depth+1)
	stores := []func() Svc{
		func() Svc { return NewSys(NewSpyKV()) },
		func() Svc { return NewSys(rcdb.NewMemKV()) },
		func() Svc {
			z, err := zanzi.New(zanzi.WithLogger(&types.NoopLogger{}))
			if err != nil {
				panic(err)
			}
			return Svc{z.GetPolicyService(), z.GetRelationGraphService()}
		},
	}
	for st, mk := range stores {
		for first := 0; first < 2*len(ops); first++ {
			for second := 0; second < 2*len(ops); second++ {
				c.Case(func() string {
					return fmt.Sprintf("two instances, store kind %d, first requests %d %d", st, first, second)
				}, func() error {
					var fail error
					d := depth - 2
					if st > 0 {
						d = 0
					}
					product(2*len(ops), d, func(v []int) bool {
						c.Tick()
						fail = twins(c, mk, append([]int{first, second}, v...), true)
						return fail == nil
					})
					if fail != nil || st > 0 {
						return fail
					}
					product(2*len(ops), depth-1, func(v []int) bool {
						c.Tick()
						fail = twins(c, mk, append([]int{first, second}, v...), false)
						return fail == nil
					})
					return fail
				})
			}
		}
	}
}

// ---- C24 ----

type selTriple [3]proto.Message

func selMsg(t selTriple) *domain.RelationshipSelector {
	out := &domain.RelationshipSelector{}
	if t[0] != nil {
		out.ObjectSelector = t[0].(*domain.ObjectSelector)
	}
	if t[1] != nil {
		out.RelationSelector = t[1].(*domain.RelationSelector)
	}
	if t[2] != nil {
		out.SubjectSelector = t[2].(*domain.SubjectSelector)
	}
	return out
}

// builderCalls are the calls on a SelectorBuilder and their meaning
func builderCalls() (names []string, call []func(b *domain.SelectorBuilder) *domain.SelectorBuilder, model []func(t *selTriple)) {
	add := func(name string, f func(b *domain.SelectorBuilder) *domain.SelectorBuilder, slot int, m proto.Message) {
		names = append(names, name)
		call = append(call, f)
		model = append(model, func(t *selTriple) { t[slot] = proto.Clone(m) })
	}
	add("AnyObject", (*domain.SelectorBuilder).AnyObject, 0, Sel{OK: '*'}.Proto().ObjectSelector)
	for _, o := range []Ent{{"doc", "1"}, {"doc", "*"}, {"", ""}} {
		o := o // go.mod asks for the old loop variables
		add(fmt.Sprintf("WithObject(%v)", o), func(b *domain.SelectorBuilder) *domain.SelectorBuilder { return b.WithObject(o.Proto()) }, 0, Sel{OK: 'x', O: o}.Proto().ObjectSelector)
	}
	add("AnyRelation", (*domain.SelectorBuilder).AnyRelation, 1, Sel{LK: '*'}.Proto().RelationSelector)
	for _, l := range []string{"v", "*", ""} {
		l := l
		add(fmt.Sprintf("WithRelation(%q)", l), func(b *domain.SelectorBuilder) *domain.SelectorBuilder { return b.WithRelation(l) }, 1, Sel{LK: 'x', L: l}.Proto().RelationSelector)
	}
	add("AnySubject", (*domain.SelectorBuilder).AnySubject, 2, Sel{SK: '*'}.Proto().SubjectSelector)
	for _, s := range []Sub{E("user", "u"), S("group", "g", "m"), W("user")} {
		s := s
		add(fmt.Sprintf("WithSubject(%v)", s), func(b *domain.SelectorBuilder) *domain.SelectorBuilder { return b.WithSubject(s.Proto()) }, 2, Sel{SK: 'x', S: s}.Proto().SubjectSelector)
	}
	return
}

func builderSeq(c *Ctx, seq []int) error {
	names, call, model := builderCalls()
	b := &domain.SelectorBuilder{}
	var t selTriple
	type built struct {
		got  *domain.RelationshipSelector
		want *domain.RelationshipSelector
	}
	var all []built
	var done []string
	check := func() error {
		for i, x := range all {
			c.Evaluations++
			if !proto.Equal(x.got, x.want) {
				return fmt.Errorf("selector %d built by %s: %v, want %v", i, strings.Join(done, "; "), x.got, x.want)
			}
		}
		return nil
	}
	for _, k := range seq {
		c.Transitions++
		switch {
		case k < len(call):
			done = append(done, names[k])
			if r := call[k](b); r != b {
				b = r // a fluent builder may return another one
			}
			model[k](&t)
		case k == len(call):
			done = append(done, "Build")
			got := b.Build()
			all = append(all, built{&got, proto.Clone(selMsg(t)).(*domain.RelationshipSelector)})
			if err := check(); err != nil {
				return err
			}
		default:
			done = append(done, "Reset")
			b.Reset()
			t = selTriple{}
		}
	}
	got := b.Build()
	all = append(all, built{&got, proto.Clone(selMsg(t)).(*domain.RelationshipSelector)})
	c.Traces++
	c.Nontrivial++
	c.State(fmt.Sprint(selMsg(t)))
	return check()
}

func runC24(c *Ctx) {
	names, _, _ := builderCalls()
	n := len(names) + 2
	depth := 5
	if c.Thorough {
		depth = 6
	}
	c.Bounds_("A", "all %d^%d sequences of calls on a SelectorBuilder (with Build and Reset); what was built before stays as it was", n, depth)
	for i := 0; i < n; i++ {
		for j := 0; j < n; j++ {
			c.Case(func() string { return fmt.Sprintf("builder calls %d %d ...", i, j) }, func() error {
				var fail error
				product(n, depth-2, func(v []int) bool {
					fail = builderSeq(c, append([]int{i, j}, v...))
					return fail == nil
				})
				c.Tick()
				return fail
			})
		}
	}
	adv := namesAndAlike()
	c.Bounds_("B", "relationship builders, entities, subject resources and node identities: all pairs of %d names in every pair of components", len(adv))
	for i := 0; i < 6; i++ {
		for j := i + 1; j < 6; j++ {
			c.Case(func() string { return fmt.Sprintf("builders, names in components %d and %d", i, j) }, func() error {
				ids := map[string]string{}
				for _, x := range append(append([]string{}, adv...), "") {
					for _, y := range append(append([]string{}, adv...), "") {
						v := []string{"a", "1", "a", "a", "1", "a"}
						v[i], v[j] = x, y
						if err := vocabulary(c, v, ids); err != nil {
							return err
						}
					}
				}
				c.Tick()
				c.Traces++
				return nil
			})
		}
	}
	trees := upTo([]*Expr{This(), Cu("a"), Ttu("b", "c")}, 4)
	c.Bounds_("C", "%d expression trees: constructors, rules in order, text read back by the reference parser", len(trees))
	const chunk = 200
	for lo := 0; lo < len(trees); lo += chunk {
		c.Case(func() string { return fmt.Sprintf("trees %d...", lo) }, func() error {
			for _, e := range trees[lo:min(lo+chunk, len(trees))] {
				if err := treeVocabulary(c, e); err != nil {
					return fmt.Errorf("%s: %w", e.Text(), err)
				}
			}
			c.Traces++
			return nil
		})
	}
	c.Bounds_("D", "lookups by name in policies of 0 to 40 resources and relations, every name")
	c.Case(func() string { return "lookups by name" }, func() error { return lookups(c) })
}

func vocabulary(c *Ctx, v []string, ids map[string]string) error {
	eq := func(what string, got, want proto.Message) error {
		c.Evaluations++
		c.Nontrivial++
		if !proto.Equal(got, want) {
			return fmt.Errorf("%s(%q) = %v, want %v", what, v, got, want)
		}
		return nil
	}
	b := &domain.RelationshipBuilder{}
	r1 := b.Relationship(v[0], v[1], v[2], v[3], v[4])
	r2 := b.EntitySet(v[0], v[1], v[2], v[3], v[4], v[5])
	r3 := b.Wildcard(v[0], v[1], v[2], v[3])
	e := domain.NewEntity(v[0], v[1])
	for _, x := range []struct {
		what      string
		got, want proto.Message
	}{{"Relationship", &r1, T(v[0], v[1], v[2], E(v[3], v[4])).Proto()}, {"EntitySet", &r2, T(v[0], v[1], v[2], S(v[3], v[4], v[5])).Proto()}, {"Wildcard", &r3, T(v[0], v[1], v[2], W(v[3])).Proto()}, {"NewEntity", e, Ent{v[0], v[1]}.Proto()}} {
		if err := eq(x.what, x.got, x.want); err != nil {
			return err
		}
	}
	for _, r := range []*domain.Relationship{&r1, &r2, &r3} {
		if got := r.Subject.GetResourceName(); got != v[3] {
			return fmt.Errorf("resource of subject %v: %q", r.Subject, got)
		}
		t0 := time.Now().Add(-time.Second)
		rec := domain.NewRelationshipRecord(v[0], r, []byte(v[1]))
		if rec.PolicyId != v[0] || !proto.Equal(rec.Relationship, r) || string(rec.AppData) != v[1] || rec.CreatedAt.AsTime().Before(t0) || rec.CreatedAt.AsTime().After(time.Now().Add(time.Second)) {
			return fmt.Errorf("NewRelationshipRecord(%q, %v, %q) = %v", v[0], r, v[1], rec)
		}
	}
	// node identities
	for _, s := range []Sub{S(v[0], v[1], v[2]), E(v[0], v[1]), W(v[0])} {
		n := expandReq("", 0, s).Root
		id := n.Id()
		c.Evaluations++
		if id != expandReq("", 0, s).Root.Id() {
			return fmt.Errorf("node %v: two identities", s)
		}
		if other, ok := ids[id]; ok && other != s.String() {
			return fmt.Errorf("nodes %s and %s have the same identity %s", other, s, id)
		}
		ids[id] = s.String()
		if n.IsEntity() != (s.K == 'e') || n.IsTerminalNode() != (s.K != 's') {
			return fmt.Errorf("node %v: IsEntity %v, IsTerminalNode %v", s, n.IsEntity(), n.IsTerminalNode())
		}
		if o := n.GetObject(); s.K == 'w' && o != nil || s.K != 'w' && !proto.Equal(o, Ent{s.R, s.I}.Proto()) {
			return fmt.Errorf("node %v: object %v", s, o)
		}
	}
	return nil
}

// build makes the tree with the exported constructors
func (e *Expr) build() *domain.RelationExpressionTree {
	switch e.K {
	case 't':
		return domain.ThisNode()
	case 'c':
		return domain.CUNode(e.A)
	case 'x':
		return domain.TTUNode(e.A, e.B)
	}
	l, r := e.L.build(), e.R.build()
	switch e.Op {
	case '+':
		return domain.UnionNode(l, r)
	case '&':
		return domain.IntersectionNode(l, r)
	}
	return domain.DifferenceNode(l, r)
}

func treeVocabulary(c *Ctx, e *Expr) error {
	t := e.build()
	c.Evaluations++
	c.Nontrivial++
	c.State(e.Text())
	if !proto.Equal(t, e.Proto()) {
		return fmt.Errorf("constructors give %v, want %v", t, e.Proto())
	}
	rules := t.GetRules()
	var want []*domain.Rule
	e.leaves(func(l *Expr) { want = append(want, l.Proto().GetRule()) })
	if len(rules) != len(want) {
		return fmt.Errorf("%d rules, want %d", len(rules), len(want))
	}
	for i := range want {
		if !proto.Equal(rules[i], want[i]) {
			return fmt.Errorf("rule %d is %v, want %v", i, rules[i], want[i])
		}
	}
	text := t.RelationExpression()
	back, ok := parseExpr(text)
	if !ok || !proto.Equal(back.Proto(), e.Proto()) {
		return fmt.Errorf("printed as %q, which is another expression", text)
	}
	return nil
}

func lookups(c *Ctx) error {
	for n := 0; n <= 40; n++ {
		p := &domain.Policy{Id: "p"}
		for i := 0; i < n; i++ {
			r := &domain.Resource{Name: fmt.Sprint("r", i)}
			for j := 0; j < n; j++ {
				r.Relations = append(r.Relations, &domain.Relation{Name: fmt.Sprint("r", j), Description: fmt.Sprint(i, j)})
			}
			p.Resources = append(p.Resources, r)
		}
		for i := 0; i <= n; i++ {
			r := p.GetResourceByName(fmt.Sprint("r", i))
			c.Evaluations++
			c.Nontrivial++
			if i == n {
				if r != nil {
					return fmt.Errorf("an undefined resource is found: %v", r)
				}
				continue
			}
			if r != p.Resources[i] {
				return fmt.Errorf("resource %d of %d is not found by its name", i, n)
			}
			for j := 0; j <= n; j++ {
				l := r.GetRelationByName(fmt.Sprint("r", j))
				if j == n {
					if l != nil {
						return fmt.Errorf("an undefined relation is found: %v", l)
					}
				} else if l == nil || l.Description != fmt.Sprint(i, j) {
					return fmt.Errorf("relation %d of resource %d of %d is not found by its name", j, i, n)
				}
			}
		}
		for _, bad := range []string{"", "R0", "r", "r0 ", "r00"} {
			if r := p.GetResourceByName(bad); r != nil {
				return fmt.Errorf("resource %q is found: %v", bad, r.Name)
			}
		}
	}
	for _, d := range []string{"", "x", "\x00"} {
		pol := &domain.Policy{Id: "p", Name: "n"}
		rec := domain.NewPolicyRecord(pol, []byte(d))
		if !proto.Equal(rec.Policy, pol) || string(rec.AppData) != d || rec.CreatedAt.AsTime().Before(time.Now().Add(-time.Minute)) || rec.CreatedAt.AsTime().After(time.Now().Add(time.Second)) {
			return fmt.Errorf("NewPolicyRecord(%v, %q) = %v", pol, d, rec)
		}
	}
	c.Traces++
	return nil
}
