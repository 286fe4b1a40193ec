// Helpers shared by the demonstrations. Each demonstration holds its own copy.
package main

import (
	"context"
	"fmt"
	"os"
	"sort"
	"strings"

	rcdb "github.com/sourcenetwork/raccoondb"

	zanzi "github.com/sourcenetwork/zanzi"
	"github.com/sourcenetwork/zanzi/pkg/api"
	"github.com/sourcenetwork/zanzi/pkg/domain"
	"github.com/sourcenetwork/zanzi/pkg/types"
)

var ctx = context.Background()

type Z struct {
	P api.PolicyServiceServer
	G api.RelationGraphServer
}

func Open(kv rcdb.KVStore) *Z {
	z, err := zanzi.New(zanzi.WithoutLogger(nil), zanzi.WithKVStore(kv))
	must(err)
	return &Z{z.GetPolicyService(), z.GetRelationGraphService()}
}

func Mem() *Z { return Open(rcdb.NewMemKV()) }

var _ types.Logger = (*types.NoopLogger)(nil)

func must(err error) {
	if err != nil {
		bug("unexpected error: %v", err)
	}
}

// bug reports that the demonstration failed
func bug(f string, a ...any) {
	fmt.Printf("FAILED: "+f+"\n", a...)
	os.Exit(1)
}

func Yaml(s string) *api.PolicyDefinition {
	return &api.PolicyDefinition{Definition: &api.PolicyDefinition_PolicyYaml{PolicyYaml: strings.ReplaceAll(s, "\t", "  ")}}
}

func Struct(p *domain.Policy) *api.PolicyDefinition {
	return &api.PolicyDefinition{Definition: &api.PolicyDefinition_Policy{Policy: p}}
}

// Pol builds a policy from lines "resource relation expression"; all subjects are allowed.
func Pol(id string, lines ...string) *domain.Policy {
	p := &domain.Policy{Id: id}
	for _, line := range lines {
		f := strings.SplitN(line, " ", 3)
		res := p.GetResourceByName(f[0])
		if res == nil {
			res = &domain.Resource{Name: f[0]}
			p.Resources = append(p.Resources, res)
		}
		if len(f) == 3 {
			res.Relations = append(res.Relations, Relation(f[1], f[2], Anyone()))
		}
	}
	return p
}

func Relation(name, expr string, r *domain.SubjectRestriction) *domain.Relation {
	return &domain.Relation{
		Name:               name,
		RelationExpression: &domain.RelationExpression{Expression: &domain.RelationExpression_Expr{Expr: expr}},
		SubjectRestriction: r,
	}
}

func Anyone() *domain.SubjectRestriction {
	return &domain.SubjectRestriction{SubjectRestriction: &domain.SubjectRestriction_UniversalSet{UniversalSet: &domain.UniversalSet{}}}
}

// Only builds a restriction set from entries "resource" or "resource:relation"
func Only(entries ...string) *domain.SubjectRestriction {
	set := &domain.SubjectRestrictionSet{}
	for _, e := range entries {
		r := &domain.SubjectRestrictionSet_Restriction{}
		if a, b, ok := strings.Cut(e, ":"); ok {
			r.Entry = &domain.SubjectRestrictionSet_Restriction_EntitySet{EntitySet: &domain.EntitySetRestriction{ResourceName: a, RelationName: b}}
		} else {
			r.Entry = &domain.SubjectRestrictionSet_Restriction_Entity{Entity: &domain.EntityRestriction{ResourceName: e}}
		}
		set.Restrictions = append(set.Restrictions, r)
	}
	return &domain.SubjectRestriction{SubjectRestriction: &domain.SubjectRestriction_RestrictionSet{RestrictionSet: set}}
}

func Ent(s string) *domain.Entity {
	r, i, _ := strings.Cut(s, ":")
	return &domain.Entity{Resource: r, Id: i}
}

// Subj reads "user:bob", "group:g#member" or "user:*"
func Subj(s string) *domain.Subject {
	if strings.HasSuffix(s, ":*") {
		return Wild(strings.TrimSuffix(s, ":*"))
	}
	if e, rel, ok := strings.Cut(s, "#"); ok {
		return &domain.Subject{Subject: &domain.Subject_EntitySet{EntitySet: &domain.EntitySet{Entity: Ent(e), Relation: rel}}}
	}
	return &domain.Subject{Subject: &domain.Subject_Entity{Entity: Ent(s)}}
}

func Wild(r string) *domain.Subject {
	return &domain.Subject{Subject: &domain.Subject_ResourceSet{ResourceSet: &domain.ResourceSet{ResourceName: r}}}
}

// Rel reads "doc:1#viewer@user:bob"
func Rel(s string) *domain.Relationship {
	l, sub, _ := strings.Cut(s, "@")
	o, rel, _ := strings.Cut(l, "#")
	return &domain.Relationship{Object: Ent(o), Relation: rel, Subject: Subj(sub)}
}

func (z *Z) TryCreate(d *api.PolicyDefinition) error {
	_, err := z.P.CreatePolicy(ctx, &api.CreatePolicyRequest{PolicyDefinition: d})
	return err
}
func (z *Z) Create(d *api.PolicyDefinition) *Z { must(z.TryCreate(d)); return z }
func (z *Z) TrySet(pid string, r *domain.Relationship) error {
	_, err := z.P.SetRelationship(ctx, &api.SetRelationshipRequest{PolicyId: pid, Relationship: r})
	return err
}
func (z *Z) Set(pid string, rels ...string) *Z {
	for _, r := range rels {
		must(z.TrySet(pid, Rel(r)))
	}
	return z
}
func (z *Z) SetData(pid, rel, data string) bool {
	resp, err := z.P.SetRelationship(ctx, &api.SetRelationshipRequest{PolicyId: pid, Relationship: Rel(rel), AppData: []byte(data)})
	must(err)
	return resp.RecordOverwritten
}
func (z *Z) Del(pid, rel string) bool {
	resp, err := z.P.DeleteRelationship(ctx, &api.DeleteRelationshipRequest{PolicyId: pid, Relationship: Rel(rel)})
	must(err)
	return resp.Found
}
func (z *Z) Get(pid, rel string) *domain.RelationshipRecord {
	resp, err := z.P.GetRelationship(ctx, &api.GetRelationshipRequest{PolicyId: pid, Relationship: Rel(rel)})
	must(err)
	return resp.Record
}

func acc(q string) *domain.AccessRequest {
	r := Rel(q)
	return &domain.AccessRequest{Object: r.Object, Relation: r.Relation, Subject: r.Subject.GetEntity()}
}

func (z *Z) TryCheck(pid, q string) (bool, error) {
	resp, err := z.G.Check(ctx, &api.CheckRequest{PolicyId: pid, AccessRequest: acc(q)})
	return resp.GetResult().GetAuthorized(), err
}

// Want fails unless Check answers want
func (z *Z) Want(want bool, pid, q string) {
	got, err := z.TryCheck(pid, q)
	if err != nil {
		bug("check %v: %v", q, err)
	}
	if got != want {
		bug("check %v answers %v, want %v", q, got, want)
	}
}

func (z *Z) Explain(pid, q string, f api.ExplainFormat) (*api.ExplainCheckResponse, error) {
	return z.G.ExplainCheck(ctx, &api.ExplainCheckRequest{PolicyId: pid, AccessRequest: acc(q), Format: f})
}

func (z *Z) Expand(pid, set string, f api.ExplainFormat) (string, error) {
	o, rel, _ := strings.Cut(set, "#")
	resp, err := z.G.Expand(ctx, &api.ExpandRequest{PolicyId: pid, Format: f, Root: &domain.RelationNode{
		Node: &domain.RelationNode_EntitySet{EntitySet: &domain.EntitySetNode{Object: Ent(o), Relation: rel}}}})
	return resp.GetGoalTree(), err
}

func (z *Z) Dump(pid string) (string, error) {
	resp, err := z.G.DumpRelationships(ctx, &api.DumpRelationshipsRequest{PolicyId: pid, Format: api.DumpRelationshipsRequest_DOT})
	return resp.GetDot(), err
}

// Find returns the relationships a selector selects, sorted
func (z *Z) Find(pid string, s *domain.RelationshipSelector) ([]string, error) {
	resp, err := z.P.FindRelationshipRecords(ctx, &api.FindRelationshipRecordsRequest{PolicyId: pid, Selector: s})
	var out []string
	for _, r := range resp.GetResult().GetRecords() {
		out = append(out, Text(r.GetRelationship()))
	}
	sort.Strings(out)
	return out, err
}

func Text(r *domain.Relationship) string {
	s := fmt.Sprintf("%v:%v#%v@", r.GetObject().GetResource(), r.GetObject().GetId(), r.GetRelation())
	switch x := r.GetSubject().GetSubject().(type) {
	case *domain.Subject_Entity:
		return s + x.Entity.Resource + ":" + x.Entity.Id
	case *domain.Subject_EntitySet:
		return s + x.EntitySet.Entity.Resource + ":" + x.EntitySet.Entity.Id + "#" + x.EntitySet.Relation
	case *domain.Subject_ResourceSet:
		return s + x.ResourceSet.ResourceName + ":*"
	}
	return s + "?"
}

func All() *domain.RelationshipSelector {
	b := domain.SelectorBuilder{}
	s := b.AnyObject().AnyRelation().AnySubject().Build()
	return &s
}

func (z *Z) Ids() []string {
	resp, err := z.P.ListPolicyIds(ctx, &api.ListPolicyIdsRequest{})
	must(err)
	var out []string
	for _, r := range resp.Records {
		out = append(out, r.Id)
	}
	sort.Strings(out)
	return out
}

func same(what string, got, want any) {
	if g, w := fmt.Sprintf("%v", got), fmt.Sprintf("%v", want); g != w {
		bug("%s: got %s, want %s", what, g, w)
	}
}
