package main

import (
	"fmt"
	"reflect"
	"runtime/debug"
	"strings"

	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/reflect/protoreflect"

	"github.com/sourcenetwork/zanzi/pkg/api"
	"github.com/sourcenetwork/zanzi/pkg/domain"
)

func init() {
	register(&Check{ID: "C18", Level: "model_checking",
		Rule:  "every request message x every single and every pair of mutations (field absent, empty message, empty or odd string, out-of-range enum, other oneof member, oneof member with nil payload, nil or empty list element, repeated element) x {empty store, populated store}, run in-process and after a round trip through the wire encoding; no panic, refused requests leave the store bytes as they were, and all queries still get a response or error afterwards. Non-trivial: the mutated request got past the store being empty.",
		Assum: []string{"the top-level request pointer is not nil", "the store is an in-memory KV owned by the harness"},
		Run:   runC18})
}

// mutate calls visit for every mutation of the message; visit returns true to apply it
type mutator struct {
	n      int // mutations seen
	target int // which one to apply, -1: none
	name   string
}

func (m *mutator) hit(name string, args ...any) bool {
	m.n++
	if m.n-1 == m.target {
		m.name = fmt.Sprintf(name, args...)
		return true
	}
	return false
}

var oddStrings = []string{"", "*", "\x00", "nonexistent", "\xff"}

func (m *mutator) walk(v reflect.Value, path string) {
	if m.target >= 0 && m.n > m.target {
		return
	}
	// v is a non-nil pointer to a message struct
	st := v.Elem()
	pm, isMsg := v.Interface().(proto.Message)
	for i := 0; i < st.NumField(); i++ {
		sf := st.Type().Field(i)
		if !sf.IsExported() {
			continue
		}
		f := st.Field(i)
		p := path + "." + sf.Name
		switch f.Kind() {
		case reflect.Ptr:
			if !f.IsNil() && m.hit("%s absent", p) {
				f.Set(reflect.Zero(f.Type()))
				return
			}
			if m.hit("%s empty message", p) {
				f.Set(reflect.New(f.Type().Elem()))
				return
			}
			if !f.IsNil() && f.Type().Elem().Kind() == reflect.Struct {
				m.walk(f, p)
			}
		case reflect.Interface: // oneof
			if !f.IsNil() {
				if m.hit("%s absent", p) {
					f.Set(reflect.Zero(f.Type()))
					return
				}
				// payload nil
				w := f.Elem()
				pay := w.Elem().Field(0)
				if pay.Kind() == reflect.Ptr {
					if m.hit("%s payload nil", p) {
						nw := reflect.New(w.Type().Elem())
						f.Set(nw)
						return
					}
					if !pay.IsNil() {
						m.walk(pay, p+"("+w.Type().Elem().Name()+")")
					}
				} else if pay.Kind() == reflect.String {
					for _, s := range oddStrings {
						if m.hit("%s = %q", p, s) {
							pay.SetString(s)
							return
						}
					}
				}
			}
			if isMsg {
				od := pm.ProtoReflect().Descriptor().Oneofs()
				for k := 0; k < od.Len(); k++ {
					if camel(string(od.Get(k).Name())) != sf.Name {
						continue
					}
					fs := od.Get(k).Fields()
					for j := 0; j < fs.Len(); j++ {
						if m.hit("%s := empty %s", p, fs.Get(j).Name()) {
							r := pm.ProtoReflect()
							r.Set(fs.Get(j), r.NewField(fs.Get(j)))
							return
						}
					}
				}
			}
		case reflect.String:
			for _, s := range oddStrings {
				if m.hit("%s = %q", p, s) {
					f.SetString(s)
					return
				}
			}
		case reflect.Int32: // enum
			for _, e := range []int64{-1, 1, 2, 3, 99, 1 << 30} {
				if m.hit("%s = %d", p, e) {
					f.SetInt(e)
					return
				}
			}
		case reflect.Slice:
			if f.Type().Elem().Kind() == reflect.Uint8 {
				if m.hit("%s bytes empty", p) {
					f.Set(reflect.Zero(f.Type()))
					return
				}
				continue
			}
			if m.hit("%s empty list", p) {
				f.Set(reflect.Zero(f.Type()))
				return
			}
			if f.Type().Elem().Kind() != reflect.Ptr {
				continue
			}
			if m.hit("%s nil element added", p) {
				f.Set(reflect.Append(f, reflect.Zero(f.Type().Elem())))
				return
			}
			if m.hit("%s empty element added", p) {
				f.Set(reflect.Append(f, reflect.New(f.Type().Elem().Elem())))
				return
			}
			if f.Len() > 0 {
				if m.hit("%s first element repeated", p) {
					f.Set(reflect.Append(f, f.Index(0)))
					return
				}
				if m.hit("%s nil element first", p) {
					n := reflect.MakeSlice(f.Type(), 1, f.Len()+1)
					f.Set(reflect.AppendSlice(n, f))
					return
				}
			}
			for j := 0; j < f.Len(); j++ {
				if !f.Index(j).IsNil() {
					m.walk(f.Index(j), fmt.Sprintf("%s[%d]", p, j))
				}
			}
		case reflect.Map:
			if m.hit("%s empty key", p) {
				nm := reflect.MakeMap(f.Type())
				nm.SetMapIndex(reflect.Zero(f.Type().Key()), reflect.Zero(f.Type().Elem()))
				f.Set(nm)
				return
			}
		}
	}
}

func camel(s string) string {
	var b strings.Builder
	for _, p := range strings.Split(s, "_") {
		if p != "" {
			b.WriteString(strings.ToUpper(p[:1]) + p[1:])
		}
	}
	return b.String()
}

// cloneMsg copies a message including states which the wire encoding does not know
func cloneMsg(v reflect.Value) reflect.Value {
	switch v.Kind() {
	case reflect.Ptr:
		if v.IsNil() {
			return v
		}
		n := reflect.New(v.Type().Elem())
		for i := 0; i < v.Elem().NumField(); i++ {
			if v.Elem().Type().Field(i).IsExported() {
				n.Elem().Field(i).Set(cloneMsg(v.Elem().Field(i)))
			}
		}
		return n
	case reflect.Interface:
		if v.IsNil() {
			return v
		}
		n := reflect.New(v.Type()).Elem()
		n.Set(cloneMsg(v.Elem()))
		return n
	case reflect.Slice:
		if v.IsNil() || v.Type().Elem().Kind() == reflect.Uint8 {
			return v
		}
		n := reflect.MakeSlice(v.Type(), v.Len(), v.Len())
		for i := 0; i < v.Len(); i++ {
			n.Index(i).Set(cloneMsg(v.Index(i)))
		}
		return n
	case reflect.Map:
		if v.IsNil() {
			return v
		}
		n := reflect.MakeMap(v.Type())
		for _, k := range v.MapKeys() {
			n.SetMapIndex(k, v.MapIndex(k))
		}
		return n
	}
	return v
}

func cloneReq(m proto.Message) proto.Message {
	return cloneMsg(reflect.ValueOf(m)).Interface().(proto.Message)
}

// mutations returns how many mutations there are
func mutations(m proto.Message) int {
	mu := &mutator{target: -1}
	mu.walk(reflect.ValueOf(m), "")
	return mu.n
}

func mutated(m proto.Message, i int) (proto.Message, string) {
	c := cloneReq(m)
	mu := &mutator{target: i}
	mu.walk(reflect.ValueOf(c), "")
	return c, mu.name
}

// malPol has every construct; in structured and YAML form
func malPol(id string) *Pol {
	p := polWith(id, ResDef{Name: "u"}, ResDef{Name: "g", Rels: []RelDef{{Name: "m", Text: "_this", R: Only(RItem{Res: "u"}, RItem{Res: "g", Rel: "m", Set: true})}}},
		ResDef{Name: "d", Rels: []RelDef{rel("parent", "_this"), rel("o", "_this"), rel("v", "_this + o & parent->o")}})
	return p
}

func malTree() *domain.RelationExpressionTree {
	this := &domain.RelationExpressionTree{Node: &domain.RelationExpressionTree_Rule{Rule: &domain.Rule{Rule: &domain.Rule_This{This: &domain.This{}}}}}
	cu := &domain.RelationExpressionTree{Node: &domain.RelationExpressionTree_Rule{Rule: &domain.Rule{Rule: &domain.Rule_Cu{Cu: &domain.ComputedUserset{TargetRelation: "o"}}}}}
	ttu := &domain.RelationExpressionTree{Node: &domain.RelationExpressionTree_Rule{Rule: &domain.Rule{Rule: &domain.Rule_Ttu{Ttu: &domain.TupleToUserset{TuplesetRelation: "parent", ComputedUsersetRelation: "o"}}}}}
	inner := &domain.RelationExpressionTree{Node: &domain.RelationExpressionTree_OpNode{OpNode: &domain.OpNode{Left: cu, Operator: domain.Operator_DIFFERENCE, Right: ttu}}}
	return &domain.RelationExpressionTree{Node: &domain.RelationExpressionTree_OpNode{OpNode: &domain.OpNode{Left: this, Operator: domain.Operator_UNION, Right: inner}}}
}

var malTups = []Tup{T("d", "1", "v", E("u", "a")), T("d", "1", "v", S("g", "1", "m")), T("d", "1", "o", W("u")), T("g", "1", "m", E("u", "b")), T("d", "1", "parent", E("d", "2"))}

func malRequests() []proto.Message {
	var out []proto.Message
	sub := func(s Sub) *api.SetRelationshipRequest {
		return &api.SetRelationshipRequest{PolicyId: "p", Relationship: Tup{Ent{"d", "1"}, "v", s}.Proto(), AppData: []byte("x")}
	}
	for _, s := range []Sub{E("u", "n"), S("g", "1", "m"), W("u")} {
		set := sub(s)
		out = append(out, set,
			&api.DeleteRelationshipRequest{PolicyId: "p", Relationship: Tup{Ent{"d", "1"}, "v", s}.Proto()},
			&api.GetRelationshipRequest{PolicyId: "p", Relationship: Tup{Ent{"d", "1"}, "v", s}.Proto()})
	}
	for _, o := range []byte("xr*") {
		for _, l := range []byte("x*") {
			for _, u := range []byte("xr*") {
				sel := Sel{OK: o, O: Ent{"d", "1"}, LK: l, L: "v", SK: u, S: E("u", "a")}
				out = append(out, &api.FindRelationshipRecordsRequest{PolicyId: "p", Selector: sel.Proto()})
				if o == 'x' && u == 'x' || o == l || o == 'r' && u == 'r' {
					out = append(out, &api.DeleteRelationshipsRequest{PolicyId: "p", Selector: sel.Proto()})
				}
			}
		}
	}
	for _, s := range []Sub{S("g", "1", "m"), W("u")} {
		sel := Sel{OK: '*', LK: '*', SK: 'x', S: s}
		out = append(out, &api.FindRelationshipRecordsRequest{PolicyId: "p", Selector: sel.Proto()}, &api.DeleteRelationshipsRequest{PolicyId: "p", Selector: sel.Proto()})
	}
	acc := &domain.AccessRequest{Object: Ent{"d", "1"}.Proto(), Relation: "v", Subject: Ent{"u", "a"}.Proto()}
	out = append(out, &api.CheckRequest{PolicyId: "p", AccessRequest: acc})
	for _, f := range formats {
		out = append(out, &api.ExplainCheckRequest{PolicyId: "p", AccessRequest: acc, Format: f})
		for _, s := range []Sub{S("d", "1", "v"), E("d", "1"), W("d")} {
			out = append(out, expandReq("p", f, s))
		}
	}
	out = append(out, &api.DumpRelationshipsRequest{PolicyId: "p"}, &api.GetPolicyRequest{Id: "p"}, &api.DeletePolicyRequest{Id: "p"}, &api.ListPolicyIdsRequest{})
	for _, id := range []string{"p", "new"} {
		textual := malPol(id).Proto()
		textual.Attributes = map[string]string{"a": "b"}
		tree := malPol(id).Proto()
		setTree(tree, malTree())
		for _, pol := range []*domain.Policy{textual, tree} {
			def := &api.PolicyDefinition{Definition: &api.PolicyDefinition_Policy{Policy: pol}}
			out = append(out, &api.CreatePolicyRequest{PolicyDefinition: def, AppData: []byte("x")}, &api.UpdatePolicyRequest{PolicyDefinition: def})
		}
		y := &api.PolicyDefinition{Definition: &api.PolicyDefinition_PolicyYaml{PolicyYaml: malPol(id).Yaml(0)}}
		out = append(out, &api.CreatePolicyRequest{PolicyDefinition: y}, &api.UpdatePolicyRequest{PolicyDefinition: y})
	}
	return out
}

// oddTups: every kind of subject in a tupleset, resources without the relation, and cycles
var oddTups = []Tup{T("d", "1", "parent", W("d")), T("d", "1", "parent", S("g", "1", "m")), T("d", "1", "parent", E("u", "x")), T("d", "2", "parent", E("d", "1")), T("d", "2", "v", S("d", "1", "v")), T("d", "1", "v", S("d", "2", "v")), T("d", "3", "parent", W("u")), T("d", "3", "o", E("u", "a")), T("d", "3", "v", E("u", "a")), T("d", "1", "v", S("d", "3", "v")), T("g", "1", "m", S("g", "1", "m"))}

func malStore(tups []Tup) (*SpyKV, error) {
	kv := NewSpyKV()
	s, w, err := startOn(kv, malPol("p"))
	if err != nil {
		return nil, err
	}
	for _, t := range tups {
		if err := Step1(s, w, Op{K: KSet, Pid: "p", T: t}); err != nil {
			return nil, err
		}
	}
	return kv, nil
}

// malQueries are sent after each accepted request
func malQueries() []proto.Message {
	acc := func(o, l, u string) *domain.AccessRequest {
		return &domain.AccessRequest{Object: Ent{"d", o}.Proto(), Relation: l, Subject: Ent{"u", u}.Proto()}
	}
	var out []proto.Message
	for _, id := range []string{"p", "new", "", "*"} {
		out = append(out, &api.GetPolicyRequest{Id: id}, &api.CheckRequest{PolicyId: id, AccessRequest: acc("1", "v", "zz")}, &api.CheckRequest{PolicyId: id, AccessRequest: acc("1", "o", "b")},
			&api.ExplainCheckRequest{PolicyId: id, AccessRequest: acc("1", "v", "zz"), Format: api.ExplainFormat_JSON}, &api.ExplainCheckRequest{PolicyId: id, AccessRequest: acc("1", "v", "a"), Format: api.ExplainFormat_DOT},
			expandReq(id, api.ExplainFormat_JSON, S("d", "1", "v")), &api.DumpRelationshipsRequest{PolicyId: id}, &api.FindRelationshipRecordsRequest{PolicyId: id, Selector: SelAll.Proto()},
			&api.SetRelationshipRequest{PolicyId: id, Relationship: malTups[0].Proto()})
	}
	return append(out, &api.ListPolicyIdsRequest{})
}

func malRun(c *Ctx, base *SpyKV, req proto.Message, what string, follow bool) error {
	kv := base.Clone()
	s := NewSys(kv)
	before := kv.Dump()
	c.Evaluations++
	c.Traces++
	resp, err := call(s, req)
	name := string(req.ProtoReflect().Descriptor().Name())
	if err != nil {
		c.Outcome(name + " refused")
		if kv.Dump() != before {
			return fmt.Errorf("%s %s: refused (%v), but the store changed", name, what, err)
		}
		return nil
	}
	c.Outcome(name + " answered")
	c.Nontrivial++
	// the response can be encoded
	if _, merr := proto.Marshal(resp); merr != nil && !strings.Contains(merr.Error(), "UTF-8") {
		return fmt.Errorf("%s %s: the response cannot be encoded: %v", name, what, merr)
	}
	if follow && kv.Dump() != before {
		c.State(kv.Dump())
		for _, q := range malQueries() {
			c.Evaluations++
			call(s, q)
		}
		call(NewSys(kv), &api.ListPolicyIdsRequest{})
	}
	return nil
}

func malBoth(c *Ctx, bases []*SpyKV, req proto.Message, what string, follow bool) (err error) {
	defer func() {
		if r := recover(); r != nil {
			if inf, ok := r.(infra); ok {
				panic(inf)
			}
			err = fmt.Errorf("%s %s: panic: %v\n%s", req.ProtoReflect().Descriptor().Name(), what, r, trimStack(stack()))
		}
	}()
	for _, b := range bases {
		if err := malRun(c, b, req, what, follow); err != nil {
			return err
		}
	}
	return nil
}

func runC18(c *Ctx) {
	reqs := malRequests()
	var total int
	for _, r := range reqs {
		total += mutations(r)
	}
	c.Bounds_("A", "%d request messages, %d single mutations and all pairs of mutations, on an empty and a populated store", len(reqs), total)
	populated, err := malStore(malTups)
	if err != nil {
		c.Case(func() string { return "populated store" }, func() error { return err })
		return
	}
	odd, err := malStore(append(append([]Tup{}, malTups...), oddTups...))
	if err != nil {
		c.Case(func() string { return "populated store" }, func() error { return err })
		return
	}
	bases := []*SpyKV{NewSpyKV(), populated, odd}
	c.Bounds_("A0", "the unmutated messages on an empty store, on a populated one, and on one with every kind of subject in a tupleset and cycles; all queries for the objects of the last")
	for ri, r := range reqs {
		c.Case(func() string { return fmt.Sprintf("request %d %s", ri, r.ProtoReflect().Descriptor().Name()) }, func() error { return malBoth(c, bases, r, "unmutated", true) })
	}
	c.Case(func() string { return "queries on a store with odd tuplesets" }, func() error {
		for _, id := range []string{"1", "2", "3"} {
			for _, l := range []string{"parent", "o", "v"} {
				for _, u := range []string{"a", "b", "x", "zz"} {
					c.Tick()
					acc := &domain.AccessRequest{Object: Ent{"d", id}.Proto(), Relation: l, Subject: Ent{"u", u}.Proto()}
					qs := []proto.Message{&api.CheckRequest{PolicyId: "p", AccessRequest: acc}}
					for _, f := range formats {
						qs = append(qs, &api.ExplainCheckRequest{PolicyId: "p", AccessRequest: acc, Format: f}, expandReq("p", f, S("d", id, l)))
					}
					for _, q := range qs {
						if err := malBoth(c, bases[2:], q, fmt.Sprintf("d:%s#%s@u:%s", id, l, u), false); err != nil {
							return err
						}
					}
				}
			}
		}
		return nil
	})
	for ri, r := range reqs {
		n := mutations(r)
		big := n > 60
		for i := 0; i < n; i++ {
			if i%4 != 0 {
				continue
			}
			lo, hi := i, min(i+4, n)
			c.Case(func() string {
				return fmt.Sprintf("request %d %s, mutations %d to %d", ri, r.ProtoReflect().Descriptor().Name(), lo, hi-1)
			}, func() error {
				for i := lo; i < hi; i++ {
					m, name := mutated(r, i)
					c.State(fmt.Sprint(ri, name))
					if err := malBoth(c, bases, m, name, true); err != nil {
						return err
					}
					if err := malWire(c, bases, m, name); err != nil {
						return err
					}
					k := mutations(m)
					for j := 0; j < k; j++ {
						if j%50 == 0 {
							c.Tick()
						}
						m2, name2 := mutated(m, j)
						c.Transitions++
						if err := malBoth(c, bases[1:2], m2, name+", "+name2, true); err != nil {
							return err
						}
						if c.Thorough && !big {
							k3 := mutations(m2)
							for l := 0; l < k3; l++ {
								m3, name3 := mutated(m2, l)
								if err := malBoth(c, bases[1:2], m3, name+", "+name2+", "+name3, false); err != nil {
									return err
								}
							}
						}
					}
				}
				c.Sample("%s with mutations %d to %d", r.ProtoReflect().Descriptor().Name(), lo, hi-1)
				return nil
			})
		}
	}
	// deep and long definitions
	depths := []int{10, 100, 1000, 3000}
	c.Bounds_("B", "expression trees of depth %v, parentheses and expressions of length up to 300", depths)
	for _, d := range depths {
		for side := 0; side < 2; side++ {
			c.Case(func() string { return fmt.Sprintf("tree of depth %d, side %d", d, side) }, func() error {
				t := malTree()
				for i := 0; i < d; i++ {
					op := &domain.OpNode{Left: t, Operator: domain.Operator(i % 3), Right: malTree()}
					if side == 1 {
						op.Left, op.Right = op.Right, op.Left
					}
					t = &domain.RelationExpressionTree{Node: &domain.RelationExpressionTree_OpNode{OpNode: op}}
				}
				pol := malPol("new").Proto()
				setTree(pol, t)
				def := &api.PolicyDefinition{Definition: &api.PolicyDefinition_Policy{Policy: pol}}
				if err := malBoth(c, bases, &api.CreatePolicyRequest{PolicyDefinition: def}, "deep tree", false); err != nil {
					return err
				}
				return malBoth(c, bases, &api.UpdatePolicyRequest{PolicyDefinition: def}, "deep tree", false)
			})
		}
	}
	for _, n := range []int{1, 10, 100, 300} {
		for _, text := range []string{strings.Repeat("(", n), strings.Repeat(")", n), strings.Repeat("+", n), strings.Repeat("_this", n), strings.Repeat("o", n), strings.Repeat("(", n) + "o", strings.Repeat("o->", n), strings.Repeat("o + ", n), strings.Repeat("\xff", n), strings.Repeat("\u2028", n), strings.Repeat("-", n), strings.Repeat(">", n), "o" + strings.Repeat(" ", n), strings.Repeat("𝔘", n)} {
			c.Case(func() string { return fmt.Sprintf("expression %.20q of length %d", text, n) }, func() error {
				p := malPol("new")
				p.Res[2].Rels[2].Text = text
				for _, o := range []Op{{K: KCreate, Pol: p}, {K: KCreate, Yaml: p.Yaml(0), Pol: p}} {
					c.Tick()
					if err := malBoth(c, bases, o.Req(), text, true); err != nil {
						return err
					}
				}
				return nil
			})
		}
	}
	// YAML documents: every prefix, every byte removed, every byte replaced
	y := malPol("new").Yaml(2)
	repl := []string{"", ":", "\n", "\t", "\x00", "{", "[", "\"", "'", "&", "*", "!", "|", "%", "#", "-", " ", "\xff", "é"}
	c.Bounds_("C", "every prefix, deletion and replacement by %d characters at every position of a YAML policy of %d bytes", len(repl), len(y))
	for i := 0; i < len(y); i++ {
		c.Case(func() string { return fmt.Sprintf("YAML changed at byte %d", i) }, func() error {
			docs := []string{y[:i]}
			for _, r := range repl {
				docs = append(docs, y[:i]+r+y[i+1:], y[:i]+r+y[i:])
			}
			for _, d := range docs {
				for _, r := range []proto.Message{&api.CreatePolicyRequest{PolicyDefinition: &api.PolicyDefinition{Definition: &api.PolicyDefinition_PolicyYaml{PolicyYaml: d}}}} {
					if err := malBoth(c, bases, r, fmt.Sprintf("document\n%s", d), false); err != nil {
						return err
					}
				}
			}
			return nil
		})
	}
}

// malWire sends the message as it looks after a round trip through the encoding
func malWire(c *Ctx, bases []*SpyKV, m proto.Message, what string) error {
	b, err := safeMarshal(m)
	if err != nil {
		return nil // cannot arrive over the wire
	}
	d := m.ProtoReflect().New().Interface()
	if err := proto.Unmarshal(b, d); err != nil {
		return nil
	}
	if err := malBoth(c, bases, d, what+" (encoded and decoded)", true); err != nil {
		return err
	}
	// with an unknown field
	u := d.ProtoReflect()
	u.SetUnknown(protoreflect.RawFields{0xf8, 0x3f, 1})
	return malBoth(c, bases[1:], d, what+" (with an unknown field)", false)
}

func safeMarshal(m proto.Message) (b []byte, err error) {
	defer func() {
		if r := recover(); r != nil {
			err = fmt.Errorf("%v", r)
		}
	}()
	return proto.Marshal(m)
}

func stack() []byte { return debug.Stack() }
