package main

import (
	"context"
	"encoding/base64"
	"encoding/json"
	"fmt"
	"regexp"
	"sort"
	"strings"
	"sync"

	rcdb "github.com/sourcenetwork/raccoondb"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/reflect/protoreflect"

	zanzi "github.com/sourcenetwork/zanzi"
	"github.com/sourcenetwork/zanzi/pkg/api"
	"github.com/sourcenetwork/zanzi/pkg/domain"
	"github.com/sourcenetwork/zanzi/pkg/types"
)

// Svc is a pair of services of one system under test
type Svc struct {
	P api.PolicyServiceServer
	G api.RelationGraphServer
}

func NewSys(kv rcdb.KVStore) Svc {
	z, err := zanzi.New(zanzi.WithKVStore(kv), zanzi.WithLogger(&types.NoopLogger{}))
	if err != nil {
		panic(fmt.Sprintf("zanzi.New: %v", err))
	}
	return Svc{z.GetPolicyService(), z.GetRelationGraphService()}
}

var bg = context.Background()

// Sel is a relationship selector; kinds: 'x' exact, 'r' resource, '*' any
type Sel struct {
	OK byte
	O  Ent
	LK byte
	L  string
	SK byte
	S  Sub
}

var SelAll = Sel{OK: '*', LK: '*', SK: '*'}

func (s Sel) String() string {
	o, l, u := "*", "*", "*"
	switch s.OK {
	case 'x':
		o = s.O.String()
	case 'r':
		o = fmt.Sprintf("%q:", s.O.R)
	}
	if s.LK == 'x' {
		l = fmt.Sprintf("%q", s.L)
	}
	switch s.SK {
	case 'x':
		u = "=" + s.S.String()
	case 'r':
		u = fmt.Sprintf("%q:", s.S.R)
	}
	return fmt.Sprintf("[%s # %s @ %s]", o, l, u)
}

func (s Sel) Proto() *domain.RelationshipSelector {
	out := &domain.RelationshipSelector{ObjectSelector: &domain.ObjectSelector{}, RelationSelector: &domain.RelationSelector{}, SubjectSelector: &domain.SubjectSelector{}}
	switch s.OK {
	case 'x':
		out.ObjectSelector.Selector = &domain.ObjectSelector_ObjectSpec{ObjectSpec: s.O.Proto()}
	case 'r':
		out.ObjectSelector.Selector = &domain.ObjectSelector_ResourceSpec{ResourceSpec: s.O.R}
	case '*':
		out.ObjectSelector.Selector = &domain.ObjectSelector_Wildcard{Wildcard: &domain.WildcardSelector{}}
	}
	switch s.LK {
	case 'x':
		out.RelationSelector.Selector = &domain.RelationSelector_RelationName{RelationName: s.L}
	case '*':
		out.RelationSelector.Selector = &domain.RelationSelector_Wildcard{Wildcard: &domain.WildcardSelector{}}
	}
	switch s.SK {
	case 'x':
		out.SubjectSelector.Selector = &domain.SubjectSelector_SubjectSpec{SubjectSpec: s.S.Proto()}
	case 'r':
		out.SubjectSelector.Selector = &domain.SubjectSelector_ResourceSpec{ResourceSpec: s.S.R}
	case '*':
		out.SubjectSelector.Selector = &domain.SubjectSelector_Wildcard{Wildcard: &domain.WildcardSelector{}}
	}
	return out
}

func (s Sel) Matches(t Tup) bool {
	if s.OK == 'x' && t.O != s.O || s.OK == 'r' && t.O.R != s.O.R {
		return false
	}
	if s.LK == 'x' && t.L != s.L {
		return false
	}
	if s.SK == 'x' && t.S != s.S || s.SK == 'r' && t.S.R != s.S.R {
		return false
	}
	return true
}

// Valid tells whether all names in the selector are defined; open is true if the property leaves it open
func (s Sel) Valid(p *Pol) (ok, open bool) {
	if s.OK != '*' && !p.HasRes(s.O.R) {
		return false, false
	}
	if s.LK == 'x' {
		if s.OK == '*' {
			def := false
			for _, r := range p.Res {
				def = def || p.Rel(r.Name, s.L) != nil
			}
			if !def {
				return false, false
			}
		} else if p.Rel(s.O.R, s.L) == nil {
			return false, false
		}
	}
	if s.SK != '*' && !p.HasRes(s.S.R) {
		return false, false
	}
	if s.SK == 'x' && s.S.K == 's' && p.Rel(s.S.R, s.S.L) == nil {
		return true, true
	}
	return true, false
}

type Kind int

const (
	KCreate Kind = iota
	KUpdate
	KDelPol
	KGetPol
	KList
	KSet
	KDel
	KGet
	KFind
	KDelSel
	KCheck
	KExplain
	KExpand
	KDump
)

var kindName = []string{"CreatePolicy", "UpdatePolicy", "DeletePolicy", "GetPolicy", "ListPolicyIds", "SetRelationship",
	"DeleteRelationship", "GetRelationship", "FindRelationshipRecords", "DeleteRelationships", "Check", "ExplainCheck", "Expand", "DumpRelationships"}

// Op is a request
type Op struct {
	K     Kind
	Pid   string
	Pol   *Pol
	Yaml  string // if set, the policy is sent as this YAML document
	Data  string
	Empty bool // with empty Data: empty instead of nil
	T     Tup
	Sel   Sel
	N     node // Check, ExplainCheck, Expand
	Sub   Ent
	Fmt   api.ExplainFormat
}

func (o Op) Write() bool {
	switch o.K {
	case KCreate, KUpdate, KDelPol, KSet, KDel, KDelSel:
		return true
	}
	return false
}

func (o Op) String() string {
	s := kindName[o.K]
	switch o.K {
	case KCreate, KUpdate:
		if o.Yaml != "" {
			return fmt.Sprintf("%s(data=%q, yaml:\n%s)", s, o.Data, o.Yaml)
		}
		return fmt.Sprintf("%s(data=%q, %v)", s, o.Data, o.Pol)
	case KDelPol, KGetPol, KDump:
		return fmt.Sprintf("%s(%q)", s, o.Pid)
	case KSet:
		return fmt.Sprintf("%s(%q, %v, data=%q)", s, o.Pid, o.T, o.Data)
	case KDel, KGet:
		return fmt.Sprintf("%s(%q, %v)", s, o.Pid, o.T)
	case KFind, KDelSel:
		return fmt.Sprintf("%s(%q, %v)", s, o.Pid, o.Sel)
	case KCheck:
		return fmt.Sprintf("%s(%q, %v#%q @ %v)", s, o.Pid, o.N.O, o.N.L, o.Sub)
	case KExplain:
		return fmt.Sprintf("%s(%q, %v#%q @ %v, %v)", s, o.Pid, o.N.O, o.N.L, o.Sub, o.Fmt)
	case KExpand:
		return fmt.Sprintf("%s(%q, %v#%q, %v)", s, o.Pid, o.N.O, o.N.L, o.Fmt)
	}
	return s
}

func (o Op) def() *api.PolicyDefinition {
	if o.Yaml != "" {
		return &api.PolicyDefinition{Definition: &api.PolicyDefinition_PolicyYaml{PolicyYaml: o.Yaml}}
	}
	return &api.PolicyDefinition{Definition: &api.PolicyDefinition_Policy{Policy: o.Pol.Proto()}}
}

func (o Op) acc() *domain.AccessRequest {
	return &domain.AccessRequest{Object: o.N.O.Proto(), Relation: o.N.L, Subject: o.Sub.Proto()}
}

// Req is the request message
func (o Op) Req() proto.Message {
	var data []byte
	if o.Data != "" {
		data = []byte(o.Data)
	} else if o.Empty {
		data = []byte{}
	}
	switch o.K {
	case KCreate:
		return &api.CreatePolicyRequest{PolicyDefinition: o.def(), AppData: data}
	case KUpdate:
		return &api.UpdatePolicyRequest{PolicyDefinition: o.def(), AppData: data}
	case KDelPol:
		return &api.DeletePolicyRequest{Id: o.Pid}
	case KGetPol:
		return &api.GetPolicyRequest{Id: o.Pid}
	case KList:
		return &api.ListPolicyIdsRequest{}
	case KSet:
		return &api.SetRelationshipRequest{PolicyId: o.Pid, Relationship: o.T.Proto(), AppData: data}
	case KDel:
		return &api.DeleteRelationshipRequest{PolicyId: o.Pid, Relationship: o.T.Proto()}
	case KGet:
		return &api.GetRelationshipRequest{PolicyId: o.Pid, Relationship: o.T.Proto()}
	case KFind:
		return &api.FindRelationshipRecordsRequest{PolicyId: o.Pid, Selector: o.Sel.Proto()}
	case KDelSel:
		return &api.DeleteRelationshipsRequest{PolicyId: o.Pid, Selector: o.Sel.Proto()}
	case KCheck:
		return &api.CheckRequest{PolicyId: o.Pid, AccessRequest: o.acc()}
	case KExplain:
		return &api.ExplainCheckRequest{PolicyId: o.Pid, AccessRequest: o.acc(), Format: o.Fmt}
	case KExpand:
		return &api.ExpandRequest{PolicyId: o.Pid, Format: o.Fmt, Root: &domain.RelationNode{Node: &domain.RelationNode_EntitySet{
			EntitySet: &domain.EntitySetNode{Object: o.N.O.Proto(), Relation: o.N.L}}}}
	case KDump:
		return &api.DumpRelationshipsRequest{PolicyId: o.Pid}
	}
	panic("kind")
}

// call sends any request message
func call(s Svc, req proto.Message) (proto.Message, error) {
	return callCtx(bg, s, req)
}

func callCtx(ctx context.Context, s Svc, req proto.Message) (proto.Message, error) {
	switch r := req.(type) {
	case *api.CreatePolicyRequest:
		return wrapResp(s.P.CreatePolicy(ctx, r))
	case *api.UpdatePolicyRequest:
		return wrapResp(s.P.UpdatePolicy(ctx, r))
	case *api.DeletePolicyRequest:
		return wrapResp(s.P.DeletePolicy(ctx, r))
	case *api.GetPolicyRequest:
		return wrapResp(s.P.GetPolicy(ctx, r))
	case *api.ListPolicyIdsRequest:
		return wrapResp(s.P.ListPolicyIds(ctx, r))
	case *api.SetRelationshipRequest:
		return wrapResp(s.P.SetRelationship(ctx, r))
	case *api.DeleteRelationshipRequest:
		return wrapResp(s.P.DeleteRelationship(ctx, r))
	case *api.GetRelationshipRequest:
		return wrapResp(s.P.GetRelationship(ctx, r))
	case *api.FindRelationshipRecordsRequest:
		return wrapResp(s.P.FindRelationshipRecords(ctx, r))
	case *api.DeleteRelationshipsRequest:
		return wrapResp(s.P.DeleteRelationships(ctx, r))
	case *api.CheckRequest:
		return wrapResp(s.G.Check(ctx, r))
	case *api.ExplainCheckRequest:
		return wrapResp(s.G.ExplainCheck(ctx, r))
	case *api.ExpandRequest:
		return wrapResp(s.G.Expand(ctx, r))
	case *api.DumpRelationshipsRequest:
		return wrapResp(s.G.DumpRelationships(ctx, r))
	}
	panic(fmt.Sprintf("request %T", req))
}

func wrapResp[T any, P interface {
	*T
	proto.Message
}](m P, err error) (proto.Message, error) {
	if err != nil {
		return nil, err
	}
	if m == nil {
		return nil, fmt.Errorf("nil response without error")
	}
	return m, nil
}

const ERR = "ERR"

// Run performs the request and returns the response in canonical form
func (o Op) Run(s Svc) string {
	r, _ := o.RunErr(s)
	return r
}

func (o Op) RunErr(s Svc) (string, error) { return o.RunCtx(bg, s) }

func (o Op) RunCtx(ctx context.Context, s Svc) (string, error) {
	req := o.Req()
	resp, err := callCtx(ctx, s, req)
	if err != nil {
		scramble(req)
		return ERR, err
	}
	got := canonResp(resp)
	// clients may reuse the messages they sent and received
	scramble(req)
	scramble(resp)
	return got, nil
}

// scramble changes a message in place, including its byte slices
func scramble(m proto.Message) {
	if m == nil {
		return
	}
	scrambleMsg(m.ProtoReflect())
}

func scrambleMsg(m protoreflect.Message) {
	m.Range(func(fd protoreflect.FieldDescriptor, v protoreflect.Value) bool {
		switch {
		case fd.IsMap():
			if fd.MapValue().Kind() == protoreflect.StringKind {
				v.Map().Range(func(k protoreflect.MapKey, _ protoreflect.Value) bool {
					v.Map().Set(k, protoreflect.ValueOfString("scrambled"))
					return true
				})
			}
		case fd.IsList():
			for i := 0; i < v.List().Len(); i++ {
				if fd.Kind() == protoreflect.MessageKind {
					scrambleMsg(v.List().Get(i).Message())
				}
			}
		case fd.Kind() == protoreflect.MessageKind:
			scrambleMsg(v.Message())
		case fd.Kind() == protoreflect.StringKind:
			m.Set(fd, protoreflect.ValueOfString("scrambled"))
		case fd.Kind() == protoreflect.BytesKind:
			b := v.Bytes()
			for i := range b {
				b[i] ^= 0x55
			}
		case fd.Kind() == protoreflect.BoolKind:
			m.Set(fd, protoreflect.ValueOfBool(!v.Bool()))
		case fd.Kind() == protoreflect.EnumKind:
			m.Set(fd, protoreflect.ValueOfEnum(v.Enum()+1))
		}
		return true
	})
}

func canonPol(p *domain.Policy) string {
	if p == nil {
		return "nil"
	}
	b, err := proto.MarshalOptions{Deterministic: true}.Marshal(p)
	if err != nil {
		return "unmarshalable policy: " + err.Error()
	}
	return base64.RawStdEncoding.EncodeToString(b)
}

func canonPolRec(r *domain.PolicyRecord) string {
	if r == nil {
		return "none"
	}
	return fmt.Sprintf("policy=%s data=%q ts=%v", canonPol(r.Policy), r.AppData, r.CreatedAt != nil && r.CreatedAt.Seconds > 0)
}

func canonRel(r *domain.RelationshipRecord) string {
	if r == nil {
		return "none"
	}
	t, err := tupFromProto(r.Relationship)
	if err != nil {
		return err.Error()
	}
	return fmt.Sprintf("%q %v data=%q ts=%v", r.PolicyId, t, r.AppData, r.CreatedAt != nil && r.CreatedAt.Seconds > 0)
}

var hexRe = regexp.MustCompile(`\(?0x[0-9a-f]+\)?`)

func canonResp(m proto.Message) string {
	switch r := m.(type) {
	case *api.CreatePolicyResponse:
		return "created " + canonPolRec(r.Record)
	case *api.UpdatePolicyResponse:
		return "updated"
	case *api.DeletePolicyResponse:
		return fmt.Sprintf("found=%v removed=%d", r.Found, r.RelationshipsRemoved)
	case *api.GetPolicyResponse:
		return canonPolRec(r.Record)
	case *api.ListPolicyIdsResponse:
		var ids []string
		for _, x := range r.Records {
			ids = append(ids, fmt.Sprintf("%q", x.GetId()))
		}
		sort.Strings(ids)
		return "ids " + strings.Join(ids, ",")
	case *api.SetRelationshipResponse:
		return fmt.Sprintf("overwritten=%v", r.RecordOverwritten)
	case *api.DeleteRelationshipResponse:
		return fmt.Sprintf("found=%v", r.Found)
	case *api.GetRelationshipResponse:
		return canonRel(r.Record)
	case *api.FindRelationshipRecordsResponse:
		var out []string
		for _, x := range r.GetResult().GetRecords() {
			out = append(out, canonRel(x))
		}
		sort.Strings(out)
		return "records\n" + strings.Join(out, "\n")
	case *api.DeleteRelationshipsResponse:
		return fmt.Sprintf("affected=%d", r.RecordsAffected)
	case *api.CheckResponse:
		if r.Result == nil {
			return "no result"
		}
		return fmt.Sprintf("authorized=%v", r.Result.Authorized)
	case *api.ExplainCheckResponse:
		return fmt.Sprintf("authorized=%v format=%v tree=%s", r.Authorized, r.Format, canonTree(r.Format, r.GoalTree))
	case *api.ExpandResponse:
		return fmt.Sprintf("format=%v tree=%s", r.Format, canonTree(r.Format, r.GoalTree))
	case *api.DumpRelationshipResponse:
		g, err := parseDOT(r.GetDot())
		if err != nil {
			return "malformed dump: " + err.Error() + "\n" + r.GetDot()
		}
		return "dump " + strings.Join(g.labelEdges(), "\n")
	}
	panic(fmt.Sprintf("%T", m))
}

func canonTree(f api.ExplainFormat, s string) string {
	switch f {
	case api.ExplainFormat_SPEW:
		return hexRe.ReplaceAllString(s, "")
	case api.ExplainFormat_JSON:
		var v any
		if err := json.Unmarshal([]byte(s), &v); err != nil {
			return "malformed JSON " + s
		}
		b, _ := json.Marshal(v)
		return string(b)
	}
	return s
}

// ---- reference model of the service ----

type World map[string]*PState

func (w World) Clone() World {
	c := World{}
	for id, p := range w {
		q := &PState{Pol: p.Pol, Data: p.Data, Rels: make(map[Tup]string, len(p.Rels))}
		for t, d := range p.Rels {
			q.Rels[t] = d
		}
		c[id] = q
	}
	return c
}

// Key is a canonical form of the state
func (w World) Key() string {
	var ids []string
	for id := range w {
		ids = append(ids, id)
	}
	sort.Strings(ids)
	var b strings.Builder
	for _, id := range ids {
		p := w[id]
		fmt.Fprintf(&b, "%q %s %q\n%s", id, polKey(p.Pol), p.Data, fmtTups(p.Rels))
	}
	return b.String()
}

var polKeys sync.Map

func polKey(p *Pol) string {
	if k, ok := polKeys.Load(p); ok {
		return k.(string)
	}
	k := canonPol(p.Proto())
	polKeys.Store(p, k)
	return k
}

func (w World) String() string {
	var ids []string
	for id := range w {
		ids = append(ids, id)
	}
	sort.Strings(ids)
	var b strings.Builder
	for _, id := range ids {
		p := w[id]
		fmt.Fprintf(&b, "%v data=%q relationships:\n%s", p.Pol, p.Data, fmtTups(p.Rels))
	}
	return b.String()
}

func recStr(pid string, t Tup, d string) string {
	return fmt.Sprintf("%q %v data=%q ts=true", pid, t, d)
}

func polRecStr(p *Pol, d string) string {
	return fmt.Sprintf("policy=%s data=%q ts=true", canonPol(p.Proto()), d)
}

// Apply changes the state as the request does and returns the acceptable responses.
// A nil result means that every response is acceptable (but the state is as if refused).
func (w World) Apply(o Op) []string {
	one := func(f string, a ...any) []string { return []string{fmt.Sprintf(f, a...)} }
	ps := w[o.Pid]
	switch o.K {
	case KCreate:
		if !o.Pol.Valid() || w[o.Pol.ID] != nil {
			return one(ERR)
		}
		w[o.Pol.ID] = &PState{Pol: o.Pol, Data: o.Data, Rels: map[Tup]string{}}
		return one("created %s", polRecStr(o.Pol, o.Data))
	case KUpdate:
		if !o.Pol.Valid() || w[o.Pol.ID] == nil {
			return one(ERR)
		}
		w[o.Pol.ID].Pol, w[o.Pol.ID].Data = o.Pol, o.Data
		return one("updated")
	case KDelPol:
		if ps == nil {
			return one("found=false removed=0")
		}
		delete(w, o.Pid)
		return one("found=true removed=%d", len(ps.Rels))
	case KGetPol:
		if ps == nil {
			return one("none")
		}
		return one("%s", polRecStr(ps.Pol, ps.Data))
	case KList:
		var ids []string
		for id := range w {
			ids = append(ids, fmt.Sprintf("%q", id))
		}
		sort.Strings(ids)
		return one("ids %s", strings.Join(ids, ","))
	case KSet:
		if ps == nil {
			return one(ERR)
		}
		ok, open := ps.Pol.Admits(o.T)
		if open {
			return one(ERR) // the implementation refuses; not decided by any property
		}
		if !ok {
			return one(ERR)
		}
		_, had := ps.Rels[o.T]
		ps.Rels[o.T] = o.Data
		return one("overwritten=%v", had)
	case KDel:
		if ps == nil {
			return []string{"found=false", ERR}
		}
		_, had := ps.Rels[o.T]
		delete(ps.Rels, o.T)
		return one("found=%v", had)
	case KGet:
		if ps == nil {
			return []string{"none", ERR}
		}
		d, had := ps.Rels[o.T]
		if !had {
			return one("none")
		}
		return one("%s", recStr(o.Pid, o.T, d))
	case KFind:
		if ps == nil {
			return one(ERR)
		}
		ok, open := o.Sel.Valid(ps.Pol)
		if !ok {
			return one(ERR)
		}
		var out []string
		for t, d := range ps.Rels {
			if o.Sel.Matches(t) {
				out = append(out, recStr(o.Pid, t, d))
			}
		}
		sort.Strings(out)
		res := one("records\n%s", strings.Join(out, "\n"))
		if open {
			res = append(res, ERR)
		}
		return res
	case KDelSel:
		if ps == nil {
			return []string{"affected=0", ERR}
		}
		n := 0
		for t := range ps.Rels {
			if o.Sel.Matches(t) {
				delete(ps.Rels, t)
				n++
			}
		}
		res := one("affected=%d", n)
		if ok, open := o.Sel.Valid(ps.Pol); n == 0 && (!ok || open) {
			res = append(res, ERR)
		}
		return res
	case KCheck:
		if ps == nil {
			return one(ERR)
		}
		return checkAlternatives(NewGraph(ps.Pol, ps.Rels), o.N, o.Sub)
	case KDump:
		if ps == nil {
			return one(ERR)
		}
		var out []string
		for t := range ps.Rels {
			out = append(out, prettySet(t.O, t.L)+" -> "+prettySub(t.S))
		}
		sort.Strings(out)
		return one("dump %s", strings.Join(out, "\n"))
	}
	return nil
}

func checkAlternatives(g *Graph, n node, sub Ent) []string {
	v := g.Check(n, sub)
	if v.Unstr {
		return []string{"authorized=true", "authorized=false", ERR}
	}
	res := []string{fmt.Sprintf("authorized=%v", v.Auth)}
	if v.Undef {
		res = append(res, ERR)
	}
	return res
}

func prettySet(o Ent, l string) string { return fmt.Sprintf("(%v:%v, %v)", o.R, o.I, l) }
func prettySub(s Sub) string {
	switch s.K {
	case 'e':
		return fmt.Sprintf("(%v:%v)", s.R, s.I)
	case 'w':
		return fmt.Sprintf("(%v:*)", s.R)
	}
	return prettySet(Ent{s.R, s.I}, s.L)
}

func accepts(alts []string, got string) bool {
	if alts == nil {
		return true
	}
	for _, a := range alts {
		if a == got {
			return true
		}
	}
	return false
}

// Step performs the request on both sides and compares
func Step(s Svc, w World, o Op) error {
	before := ""
	if len(w) > 0 {
		before = w.String()
	}
	alts := w.Apply(o)
	got, err := o.RunErr(s)
	if !accepts(alts, got) {
		return fmt.Errorf("request: %v\nexpected: %s\ngot:      %s (error: %v)\nstate before:\n%s", o, show(strings.Join(alts, " or ")), show(got), err, before)
	}
	return nil
}

// show makes canonical responses readable: policies are printed as text
var polRe = regexp.MustCompile(`policy=([A-Za-z0-9+/]*)`)

func show(s string) string {
	return polRe.ReplaceAllStringFunc(s, func(m string) string {
		b, err := base64.RawStdEncoding.DecodeString(strings.TrimPrefix(m, "policy="))
		if err != nil {
			return m
		}
		p := &domain.Policy{}
		if proto.Unmarshal(b, p) != nil {
			return m
		}
		return "policy={" + p.String() + "}"
	})
}

// Observe compares the whole observable state of the given policies
func Observe(s Svc, w World, pids []string, tups []Tup, checks []Op) error {
	ops := []Op{{K: KList}}
	for _, id := range pids {
		ops = append(ops, Op{K: KGetPol, Pid: id}, Op{K: KFind, Pid: id, Sel: SelAll})
		for _, t := range tups {
			ops = append(ops, Op{K: KGet, Pid: id, T: t})
		}
	}
	ops = append(ops, checks...)
	for _, o := range ops {
		if err := Step(s, w, o); err != nil {
			return err
		}
	}
	return nil
}
