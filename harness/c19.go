package main

import (
	"bytes"
	"context"
	"fmt"
	"io"
	"net"
	"net/http"
	"net/http/httptest"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"sort"
	"strings"
	"syscall"
	"time"

	gwrt "github.com/grpc-ecosystem/grpc-gateway/v2/runtime"
	rcdb "github.com/sourcenetwork/raccoondb"
	"google.golang.org/grpc"
	"google.golang.org/grpc/credentials/insecure"
	"google.golang.org/protobuf/encoding/protojson"
	"google.golang.org/protobuf/proto"

	zanzi "github.com/sourcenetwork/zanzi"
	"github.com/sourcenetwork/zanzi/pkg/api"
	"github.com/sourcenetwork/zanzi/pkg/server"
	"github.com/sourcenetwork/zanzi/pkg/types"
)

func init() {
	register(&Check{ID: "C19", Level: "model_checking",
		Rule:  "all request histories up to the length bound with a new instance opened at every point and run in lock step with the old one to the end of the history; complete observation of both; raw store bytes compared around every query; every request compared with its copy after the call; the same on the bundled memory store, on LevelDB (directory copied while open) and with the zanzid daemon killed and restarted. Non-trivial: the history changed the state.",
		Assum: []string{"the harness KV has the semantics of the bundled stores (which are run as well)", "creation times are compared for presence, and for equality between instances on the same store"},
		Run:   runC19})
	register(&Check{ID: "C20", Level: "model_checking",
		Rule:  "all request sequences up to the length bound, all selectors, all formats and all malformed requests of the single-mutation space, sent in lock step to an embedded instance and to a served instance over loopback gRPC; responses compared. Non-trivial: the embedded instance answered without error.",
		Assum: []string{"requests and responses stay within the message size limit of the transport", "loopback TCP works"},
		Run:   runC20})
	register(&Check{ID: "C21", Level: "model_checking",
		Rule: "all operation sequences up to the length bound on both graph containers over three node ids, two data values, self loops, duplicates and unknown nodes, compared after every operation with a reference graph; DOT output parsed and compared; all pairs of awkward ids and labels. Non-trivial: the graph has an edge.",
		Run:  runC21})
	register(&Check{ID: "C22", Level: "model_checking",
		Rule:  "for every store size of the sweep, every request (successful and failing) is followed by every kind of write on the bundled stores; each must return; all interleavings of overlapping requests up to the preemption bound must end. Non-trivial: the first request answered or failed after touching the store.",
		Assum: []string{"a call that does not return within 30 s (normal: microseconds) is blocked"},
		Run:   runC22})
}

// ---- C19 ----

// snap answers queries with everything observable
func snap(s Svc, ids []string, tups []Tup) []string {
	ops := []Op{{K: KList}}
	for _, id := range ids {
		ops = append(ops, Op{K: KGetPol, Pid: id}, Op{K: KFind, Pid: id, Sel: SelAll}, Op{K: KFind, Pid: id, Sel: Sel{OK: 'r', O: Ent{R: "d"}, LK: 'x', L: "v", SK: '*'}}, Op{K: KDump, Pid: id})
		for _, t := range tups {
			ops = append(ops, Op{K: KGet, Pid: id, T: t})
		}
		ops = append(ops, crashQueries(id)...)
		for _, f := range formats {
			ops = append(ops, Op{K: KExplain, Pid: id, N: node{Ent{"d", "1"}, "v"}, Sub: Ent{"u", "b"}, Fmt: f}, Op{K: KExpand, Pid: id, N: node{Ent{"d", "1"}, "v"}, Fmt: f})
		}
	}
	return runAll(s, ops)
}

// exactTimes are the creation times, which a restart must not change
func exactTimes(s Svc, ids []string) string {
	var out []string
	for _, id := range ids {
		if r, err := s.P.GetPolicy(bg, &api.GetPolicyRequest{Id: id}); err == nil {
			out = append(out, fmt.Sprint(id, r.GetRecord().GetCreatedAt().AsTime()))
		}
		if r, err := s.P.FindRelationshipRecords(bg, &api.FindRelationshipRecordsRequest{PolicyId: id, Selector: SelAll.Proto()}); err == nil {
			for _, x := range r.GetResult().GetRecords() {
				out = append(out, fmt.Sprint(id, canonRel(x), x.GetCreatedAt().AsTime()))
			}
		}
	}
	sort.Strings(out)
	return strings.Join(out, "\n")
}

func restartOps() []Op {
	t := crashTups
	q := crashPol("q")
	q.SortNames() // the order of YAML policies
	return []Op{
		{K: KCreate, Pol: crashPol("p"), Data: "1"}, {K: KUpdate, Pol: crashPol2("p"), Data: "2"}, {K: KDelPol, Pid: "p"},
		{K: KSet, Pid: "p", T: t[1], Data: "x"}, {K: KSet, Pid: "p", T: t[2]}, {K: KDel, Pid: "p", T: t[2]}, {K: KDelSel, Pid: "p", Sel: Sel{OK: 'x', O: Ent{"d", "1"}, LK: '*', SK: '*'}},
		{K: KCreate, Pol: q, Yaml: q.Yaml(0)}, {K: KSet, Pid: "q", T: t[1], Data: "q"},
	}
}

func firstDiff(a, b []string) string {
	for i := range a {
		if a[i] != b[i] {
			return fmt.Sprintf("old instance: %s\nnew instance: %s", show(a[i]), show(b[i]))
		}
	}
	return ""
}

func runC19(c *Ctx) {
	ids := []string{"p", "q"}
	tups := crashTups[:3]
	ops := restartOps()
	depth := 4
	if c.Thorough {
		depth = 6
	}
	c.Bounds_("A", "all histories of length up to %d over %d requests, a new instance at every point run in lock step to the end", depth, len(ops))
	product(len(ops), depth, func(ix []int) bool {
		seq := append([]int{}, ix...)
		c.Case(func() string { return fmt.Sprintf("history %v", seq) }, func() error {
			kv := NewSpyKV()
			type pair struct {
				kv *SpyKV
				s  Svc
			}
			all := []pair{{kv, NewSys(kv)}}
			w := World{}
			for i, x := range seq {
				o := ops[x]
				alts := w.Apply(o)
				var first string
				for j, p := range all {
					req := o.Req()
					copy_ := proto.Clone(req)
					resp, err := call(p.s, req)
					got := ERR
					if err == nil {
						got = canonResp(resp)
					}
					c.Transitions++
					if !proto.Equal(req, copy_) {
						return fmt.Errorf("step %d: the request was modified by the call\nbefore: %v\nafter:  %v", i, copy_, req)
					}
					if !accepts(alts, got) {
						return fmt.Errorf("step %d, %v: instance %d (0 old, k: restarted after k requests): expected %s, got %s (%v)\nrequests: %v", i, o, j, show(strings.Join(alts, " or ")), show(got), err, fmtSeq(ops, seq))
					}
					if j == 0 {
						first = got
					} else if got != first {
						return fmt.Errorf("step %d, %v: old instance answered %s, the one restarted after %d requests %s", i, o, show(first), j, show(got))
					}
				}
				nk := kv.Clone()
				all = append(all, pair{nk, NewSys(nk)})
				c.State(w.Key())
			}
			before := kv.Dump()
			want := snap(all[0].s, ids, tups)
			c.Evaluations += int64(len(want))
			if kv.Dump() != before {
				return fmt.Errorf("queries changed the store\nrequests: %v", fmtSeq(ops, seq))
			}
			times := exactTimes(all[0].s, ids)
			for j, p := range all[1:] {
				got := snap(p.s, ids, tups)
				c.Evaluations += int64(len(want))
				if d := firstDiff(want, got); d != "" {
					return fmt.Errorf("instance restarted after %d requests: %s\nrequests: %v", j+1, d, fmtSeq(ops, seq))
				}
			}
			// on the very same store creation times agree as well
			ns := NewSys(kv)
			if got := exactTimes(ns, ids); got != times {
				return fmt.Errorf("creation times differ after a restart:\n%s\nnow:\n%s", times, got)
			}
			if err := c.observe(ns, w, ids, tups, nil); err != nil {
				return fmt.Errorf("new instance: %w\nrequests: %v", err, fmtSeq(ops, seq))
			}
			c.Traces++
			if len(w) > 0 {
				c.Nontrivial++
			}
			c.Sample("%v", fmtSeq(ops, seq))
			return nil
		})
		return !c.Stop()
	})
	// every query, one by one, in every base state: store bytes and request unchanged, same answer when repeated
	bops := crashTups
	c.Bounds_("B", "every query kind one by one in all %d base states: store bytes, request, repeated answer", 1<<len(bops))
	for set := 0; set < 1<<len(bops); set++ {
		c.Case(func() string { return fmt.Sprintf("queries in state %b", set) }, func() error {
			kv, _, err := baseState(bops, set, set%2 == 1)
			if err != nil {
				return err
			}
			s := NewSys(kv)
			before := kv.Dump()
			for _, req := range queryRequests() {
				cp := proto.Clone(req)
				kv.LogOn = true
				a, errA := call(s, req)
				if kv.Dump() != before {
					return fmt.Errorf("%T %v changed the store", req, req)
				}
				if !proto.Equal(req, cp) {
					return fmt.Errorf("%T: the request was modified\nbefore: %v\nafter:  %v", req, cp, req)
				}
				b, errB := call(NewSys(kv), proto.Clone(req))
				c.Evaluations += 2
				if (errA == nil) != (errB == nil) || errA == nil && canonResp(a) != canonResp(b) {
					return fmt.Errorf("%T %v: answered %v (%v), a new instance %v (%v)", req, req, a, errA, b, errB)
				}
			}
			// the caller may reuse what it passed in
			for _, o := range []Op{{K: KSet, Pid: "p", T: bops[0], Data: "keep"}, {K: KUpdate, Pol: crashPol2("p"), Data: "keep"}, {K: KCreate, Pol: crashPol("r"), Data: "keep"}} {
				req := o.Req()
				if resp, err := call(s, req); err != nil {
					return fmt.Errorf("%v: %v", o, err)
				} else {
					want := snap(s, []string{"p", "q", "r"}, bops)
					scribble(req)
					scribble(resp)
					c.Evaluations++
					if d := firstDiff(want, snap(s, []string{"p", "q", "r"}, bops)); d != "" {
						return fmt.Errorf("%v: changing the request or response message after the call changed the stored state: %s", o, d)
					}
				}
			}
			return nil
		})
	}
	// bundled stores
	names := []string{"memory", "leveldb (directory copied while open)"}
	bdepth := 2
	if c.Thorough {
		bdepth = 3
	}
	c.Bounds_("C", "all histories of length up to %d on the bundled memory store and on LevelDB, a restart at every point", bdepth)
	for st, name := range names {
		for l := 1; l <= bdepth; l++ {
			product(len(ops), l, func(ix []int) bool {
				seq := append([]int{0, 7}, ix...) // policies exist
				c.Case(func() string { return fmt.Sprintf("%s, history %v", name, seq) }, func() error { return restartBundled(c, st, ops, seq, ids, tups) })
				return !c.Stop()
			})
		}
	}
	// long scripted history, restart at every point
	long := []int{0, 3, 4, 7, 8, 1, 5, 3, 6, 4, 2, 0, 4, 3, 2, 7, 0, 8, 3}
	for st, name := range names {
		c.Case(func() string { return fmt.Sprintf("%s, long history", name) }, func() error { return restartBundled(c, st, ops, long, ids, tups) })
	}
	// the daemon
	c.Case(func() string { return "zanzid killed and restarted after every request" }, func() error { return restartDaemon(c, ops, long, ids, tups) })
}

// scribble overwrites all strings and bytes of a message in place
func scribble(m proto.Message) {
	switch r := m.(type) {
	case *api.SetRelationshipRequest:
		for i := range r.AppData {
			r.AppData[i] = '!'
		}
		r.Relationship.Relation = "scribbled"
		r.Relationship.Object.Id = "scribbled"
	case *api.UpdatePolicyRequest:
		for i := range r.AppData {
			r.AppData[i] = '!'
		}
		r.PolicyDefinition.GetPolicy().Name = "scribbled"
		r.PolicyDefinition.GetPolicy().Resources = nil
	case *api.CreatePolicyRequest:
		for i := range r.AppData {
			r.AppData[i] = '!'
		}
		r.PolicyDefinition.GetPolicy().Name = "scribbled"
		r.PolicyDefinition.GetPolicy().Resources = nil
	case *api.CreatePolicyResponse:
		r.Record.AppData = []byte("scribbled")
		if r.Record.Policy != nil {
			r.Record.Policy.Id = "scribbled"
		}
	}
}

func fmtSeq(ops []Op, seq []int) string {
	var b strings.Builder
	for _, x := range seq {
		fmt.Fprintf(&b, "\n  %v", ops[x])
	}
	return b.String()
}

func queryRequests() []proto.Message {
	var out []proto.Message
	for _, id := range []string{"p", "none"} {
		for _, o := range []Op{{K: KGetPol, Pid: id}, {K: KList}, {K: KFind, Pid: id, Sel: SelAll}, {K: KDump, Pid: id}, {K: KGet, Pid: id, T: crashTups[0]}, {K: KGet, Pid: id, T: crashTups[3]}} {
			out = append(out, o.Req())
		}
		for _, s := range selUniverseReqs(id) {
			out = append(out, s)
		}
		for _, n := range []node{{Ent{"d", "1"}, "v"}, {Ent{"d", "2"}, "w"}, {Ent{"d", "1"}, "nope"}, {Ent{"d", "1"}, "x"}} {
			for _, u := range []string{"a", "b", "c", "z"} {
				out = append(out, Op{K: KCheck, Pid: id, N: n, Sub: Ent{"u", u}}.Req())
			}
			for _, f := range formats {
				out = append(out, Op{K: KExplain, Pid: id, N: n, Sub: Ent{"u", "b"}, Fmt: f}.Req(), Op{K: KExpand, Pid: id, N: n, Fmt: f}.Req())
			}
		}
	}
	return out
}

func selUniverseReqs(id string) []proto.Message {
	var out []proto.Message
	for _, o := range []byte("xr*") {
		for _, l := range []byte("x*") {
			for _, u := range []byte("xr*") {
				out = append(out, &api.FindRelationshipRecordsRequest{PolicyId: id, Selector: Sel{OK: o, O: Ent{"d", "1"}, LK: l, L: "v", SK: u, S: E("u", "a")}.Proto()})
			}
		}
	}
	return out
}

// openDefault opens an instance as a program with the default store does
func openDefault(dir string) (Svc, error) {
	z, err := zanzi.New(zanzi.WithDefaultKVStore(dir), zanzi.WithLogger(&types.NoopLogger{}))
	if err != nil {
		return Svc{}, err
	}
	return Svc{z.GetPolicyService(), z.GetRelationGraphService()}, nil
}

func copyDir(from, to string) error {
	return filepath.Walk(from, func(p string, info os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		rel, _ := filepath.Rel(from, p)
		dst := filepath.Join(to, rel)
		if info.IsDir() {
			return os.MkdirAll(dst, 0o755)
		}
		if info.Name() == "LOCK" {
			return nil
		}
		in, err := os.Open(p)
		if err != nil {
			if os.IsNotExist(err) { // files may disappear while they are compacted
				return nil
			}
			return err
		}
		defer in.Close()
		out, err := os.Create(dst)
		if err != nil {
			return err
		}
		defer out.Close()
		_, err = io.Copy(out, in)
		return err
	})
}

func restartBundled(c *Ctx, st int, ops []Op, seq []int, ids []string, tups []Tup) error {
	w := World{}
	dir := filepath.Join(c.Dir, fmt.Sprintf("lv%d", c.Traces))
	defer os.RemoveAll(dir)
	defer func() { c.Traces++ }()
	var s Svc
	var mem rcdb.KVStore
	open := func() error {
		switch st {
		case 0:
			s = NewSys(mem)
		case 1:
			var err error
			s, err = openDefault(dir)
			return err
		}
		return nil
	}
	if st == 0 {
		mem = rcdb.NewMemKV()
	} else {
		os.MkdirAll(dir, 0o755)
	}
	if err := open(); err != nil {
		panic(infra{fmt.Sprintf("cannot open store %d: %v", st, err)})
	}
	for i, x := range seq {
		c.Tick()
		if err := Step1(s, w, ops[x]); err != nil {
			return fmt.Errorf("step %d: %w", i, err)
		}
		want := snap(s, ids, tups)
		times := exactTimes(s, ids)
		c.Evaluations += int64(len(want))
		c.Transitions++
		switch st {
		case 0:
			if err := open(); err != nil {
				return err
			}
		case 1: // the copy is what a crash of the process would leave
			if i%4 == 3 || i == len(seq)-1 {
				cp := filepath.Join(c.Dir, "copy")
				os.RemoveAll(cp)
				if err := copyDir(dir, cp); err != nil {
					panic(infra{err.Error()})
				}
				ns, err := openDefault(cp)
				if err != nil {
					return fmt.Errorf("opening a copy of the directory: %v", err)
				}
				got := snap(ns, ids, tups)
				tm := exactTimes(ns, ids)
				os.RemoveAll(cp)
				if d := firstDiff(want, got); d != "" {
					return fmt.Errorf("after step %d: %s\nrequests: %v", i, d, fmtSeq(ops, seq[:i+1]))
				}
				if tm != times {
					return fmt.Errorf("creation times differ after a restart:\n%s\nnow:\n%s", times, tm)
				}
			}
			continue
		}
		if d := firstDiff(want, snap(s, ids, tups)); d != "" {
			return fmt.Errorf("after step %d: %s\nrequests: %v", i, d, fmtSeq(ops, seq[:i+1]))
		}
		if tm := exactTimes(s, ids); tm != times {
			return fmt.Errorf("creation times differ after a restart:\n%s\nnow:\n%s", times, tm)
		}
	}
	c.State(w.Key())
	if len(w) > 0 {
		c.Nontrivial++
	}
	return c.observe(s, w, ids, tups, crashQueries(ids...))
}

// ---- daemon ----

type daemon struct {
	cmd  *exec.Cmd
	conn *grpc.ClientConn
	s    Svc
}

func freeAddr() string {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		panic(infra{"no loopback: " + err.Error()})
	}
	defer l.Close()
	return l.Addr().String()
}

func startDaemon(c *Ctx, bin, dir string) *daemon {
	for try := 0; try < 20; try++ {
		addr := freeAddr()
		cmd := exec.Command(bin, "--address", addr, "--data_dir", dir)
		cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
		cmd.Env = append(os.Environ(), "HOME="+c.Dir)
		if err := cmd.Start(); err != nil {
			panic(infra{"zanzid: " + err.Error()})
		}
		d := &daemon{cmd: cmd}
		done := make(chan error, 1)
		go func() { done <- cmd.Wait() }()
		for i := 0; i < 400; i++ {
			c.Tick()
			select {
			case <-done:
				i = 400
			default:
				if k, err := net.DialTimeout("tcp", addr, time.Second); err == nil {
					k.Close()
					d.conn, d.s = dialSvc(addr)
					if _, err := d.s.P.ListPolicyIds(bg, &api.ListPolicyIdsRequest{}); err == nil {
						return d
					}
					d.conn.Close()
				}
				time.Sleep(25 * time.Millisecond)
			}
		}
		cmd.Process.Kill()
	}
	return nil
}

func (d *daemon) kill() {
	d.conn.Close()
	d.cmd.Process.Signal(syscall.SIGKILL)
	for i := 0; i < 400; i++ { // wait for the lock of the store to be released
		if err := d.cmd.Process.Signal(syscall.Signal(0)); err != nil {
			return
		}
		time.Sleep(10 * time.Millisecond)
	}
}

func restartDaemon(c *Ctx, ops []Op, seq []int, ids []string, tups []Tup) error {
	bin := os.Getenv("VERIF_ZANZID")
	if bin == "" {
		return nil
	}
	dir := filepath.Join(c.Dir, "daemon")
	os.MkdirAll(dir, 0o755)
	defer os.RemoveAll(dir)
	d := startDaemon(c, bin, dir)
	if d == nil {
		return fmt.Errorf("zanzid does not serve requests")
	}
	defer func() { d.kill() }()
	w := World{}
	for i, x := range seq {
		c.Tick()
		if err := Step1(d.s, w, ops[x]); err != nil {
			return fmt.Errorf("zanzid, step %d: %w", i, err)
		}
		want := snap(d.s, ids, tups)
		times := exactTimes(d.s, ids)
		d.kill()
		n := startDaemon(c, bin, dir)
		if n == nil {
			return fmt.Errorf("zanzid does not start again after step %d", i)
		}
		d = n
		c.Transitions++
		c.Evaluations += int64(2 * len(want))
		if df := firstDiff(want, snap(d.s, ids, tups)); df != "" {
			return fmt.Errorf("zanzid restarted after step %d: %s\nrequests: %v", i, df, fmtSeq(ops, seq[:i+1]))
		}
		if tm := exactTimes(d.s, ids); tm != times {
			return fmt.Errorf("creation times differ after a restart of zanzid:\n%s\nnow:\n%s", times, tm)
		}
	}
	c.Traces++
	c.Outcome("daemon restarts")
	return c.observe(d.s, w, ids, tups, crashQueries(ids...))
}

// ---- C20 ----

type polClient struct {
	api.UnimplementedPolicyServiceServer
	c api.PolicyServiceClient
}

func (p *polClient) CreatePolicy(ctx context.Context, r *api.CreatePolicyRequest) (*api.CreatePolicyResponse, error) {
	return p.c.CreatePolicy(ctx, r)
}
func (p *polClient) UpdatePolicy(ctx context.Context, r *api.UpdatePolicyRequest) (*api.UpdatePolicyResponse, error) {
	return p.c.UpdatePolicy(ctx, r)
}
func (p *polClient) DeletePolicy(ctx context.Context, r *api.DeletePolicyRequest) (*api.DeletePolicyResponse, error) {
	return p.c.DeletePolicy(ctx, r)
}
func (p *polClient) GetPolicy(ctx context.Context, r *api.GetPolicyRequest) (*api.GetPolicyResponse, error) {
	return p.c.GetPolicy(ctx, r)
}
func (p *polClient) ListPolicyIds(ctx context.Context, r *api.ListPolicyIdsRequest) (*api.ListPolicyIdsResponse, error) {
	return p.c.ListPolicyIds(ctx, r)
}
func (p *polClient) SetRelationship(ctx context.Context, r *api.SetRelationshipRequest) (*api.SetRelationshipResponse, error) {
	return p.c.SetRelationship(ctx, r)
}
func (p *polClient) DeleteRelationship(ctx context.Context, r *api.DeleteRelationshipRequest) (*api.DeleteRelationshipResponse, error) {
	return p.c.DeleteRelationship(ctx, r)
}
func (p *polClient) GetRelationship(ctx context.Context, r *api.GetRelationshipRequest) (*api.GetRelationshipResponse, error) {
	return p.c.GetRelationship(ctx, r)
}
func (p *polClient) DeleteRelationships(ctx context.Context, r *api.DeleteRelationshipsRequest) (*api.DeleteRelationshipsResponse, error) {
	return p.c.DeleteRelationships(ctx, r)
}
func (p *polClient) FindRelationshipRecords(ctx context.Context, r *api.FindRelationshipRecordsRequest) (*api.FindRelationshipRecordsResponse, error) {
	return p.c.FindRelationshipRecords(ctx, r)
}

type graphClient struct {
	api.UnimplementedRelationGraphServer
	c api.RelationGraphClient
}

func (p *graphClient) Check(ctx context.Context, r *api.CheckRequest) (*api.CheckResponse, error) {
	return p.c.Check(ctx, r)
}
func (p *graphClient) ExplainCheck(ctx context.Context, r *api.ExplainCheckRequest) (*api.ExplainCheckResponse, error) {
	return p.c.ExplainCheck(ctx, r)
}
func (p *graphClient) Expand(ctx context.Context, r *api.ExpandRequest) (*api.ExpandResponse, error) {
	return p.c.Expand(ctx, r)
}
func (p *graphClient) DumpRelationships(ctx context.Context, r *api.DumpRelationshipsRequest) (*api.DumpRelationshipResponse, error) {
	return p.c.DumpRelationships(ctx, r)
}

func dialSvc(addr string) (*grpc.ClientConn, Svc) {
	conn, err := grpc.Dial(addr, grpc.WithTransportCredentials(insecure.NewCredentials()), grpc.WithNoProxy())
	if err != nil {
		panic(infra{"dial: " + err.Error()})
	}
	return conn, Svc{&polClient{c: api.NewPolicyServiceClient(conn)}, &graphClient{c: api.NewRelationGraphClient(conn)}}
}

// serve starts a server of the package under test on a free port
func serve(kv rcdb.KVStore) (*grpc.ClientConn, Svc, error) {
	z, err := zanzi.New(zanzi.WithKVStore(kv), zanzi.WithLogger(&types.NoopLogger{}))
	if err != nil {
		return nil, Svc{}, err
	}
	var ierr error
	for try := 0; try < 20; try++ {
		addr := freeAddr()
		srv := server.NewServer(addr)
		if ierr = srv.Init(&z); ierr != nil {
			continue
		}
		go srv.Run()
		conn, s := dialSvc(addr)
		return conn, s, nil
	}
	return nil, Svc{}, fmt.Errorf("server.Init: %v", ierr)
}

// lock sends a request to both and compares
func lock(c *Ctx, emb, srv Svc, req proto.Message) error {
	wire := proto.Clone(req)
	a, errA := call(emb, req)
	b, errB := call(srv, wire)
	c.Transitions++
	c.Evaluations++
	name := string(req.ProtoReflect().Descriptor().Name())
	if (errA == nil) != (errB == nil) {
		return fmt.Errorf("%s %v\nembedded: %v (error: %v)\nserved:   %v (error: %v)", name, req, a, errA, b, errB)
	}
	if errA != nil {
		c.Outcome(name + " error")
		return nil
	}
	c.Outcome(name + " answered")
	c.Nontrivial++
	if x, y := canonResp(a), canonResp(b); x != y {
		return fmt.Errorf("%s %v\nembedded: %s\nserved:   %s", name, req, show(x), show(y))
	}
	return nil
}

func runC20(c *Ctx) {
	type sys struct {
		emb, srv Svc
		conn     *grpc.ClientConn
	}
	var cur *sys
	get := func() (*sys, error) {
		if cur == nil {
			conn, s, err := serve(NewSpyKV())
			if err != nil {
				return nil, err
			}
			cur = &sys{NewSys(NewSpyKV()), s, conn}
			for i := 0; ; i++ { // wait for the server
				_, err := s.P.ListPolicyIds(bg, &api.ListPolicyIdsRequest{})
				if err == nil {
					break
				}
				if i > 200 {
					return nil, fmt.Errorf("the server does not answer: %v", err)
				}
				time.Sleep(10 * time.Millisecond)
			}
		}
		return cur, nil
	}
	reset := func(s *sys) error {
		for _, id := range []string{"p", "q", "new", "", "*", "\x00", "nonexistent"} {
			if err := lock(c, s.emb, s.srv, &api.DeletePolicyRequest{Id: id}); err != nil {
				return err
			}
		}
		return lock(c, s.emb, s.srv, &api.ListPolicyIdsRequest{})
	}
	fill := func(s *sys) error {
		if err := lock(c, s.emb, s.srv, Op{K: KCreate, Pol: malPol("p"), Data: "x"}.Req()); err != nil {
			return err
		}
		for _, t := range malTups {
			if err := lock(c, s.emb, s.srv, Op{K: KSet, Pid: "p", T: t, Data: "y"}.Req()); err != nil {
				return err
			}
		}
		return nil
	}
	// sequences
	t := crashTups
	var ops []Op
	ops = append(ops, restartOps()...)
	ops = append(ops, Op{K: KSet, Pid: "p", T: t[1], Empty: true}, Op{K: KUpdate, Pol: crashPol("p"), Empty: true})
	ops = append(ops, Op{K: KGetPol, Pid: "p"}, Op{K: KList}, Op{K: KFind, Pid: "p", Sel: SelAll}, Op{K: KGet, Pid: "p", T: t[1]}, Op{K: KCheck, Pid: "p", N: node{Ent{"d", "1"}, "v"}, Sub: Ent{"u", "b"}}, Op{K: KExplain, Pid: "p", N: node{Ent{"d", "1"}, "v"}, Sub: Ent{"u", "b"}, Fmt: api.ExplainFormat_JSON}, Op{K: KExpand, Pid: "p", N: node{Ent{"d", "1"}, "v"}, Fmt: api.ExplainFormat_DOT}, Op{K: KDump, Pid: "p"})
	depth := 3
	if c.Thorough {
		depth = 4
	}
	c.Bounds_("A", "all sequences of length %d over %d requests, with and without an existing policy", depth, len(ops))
	for a := range ops {
		for b := range ops {
			c.Case(func() string { return fmt.Sprintf("sequences starting with %v, %v", ops[a], ops[b]) }, func() error {
				s, err := get()
				if err != nil {
					return err
				}
				var ierr error
				for pre := 0; pre < 2; pre++ {
					product(len(ops), depth-2, func(ix []int) bool {
						c.Tick()
						if ierr = reset(s); ierr != nil {
							return false
						}
						seq := append([]int{a, b}, ix...)
						if pre == 1 {
							seq = append([]int{0, 3, 4}, seq...)
						}
						for _, x := range seq {
							if err := lock(c, s.emb, s.srv, ops[x].Req()); err != nil {
								ierr = fmt.Errorf("%w\nrequests: %v", err, fmtSeq(ops, seq))
								return false
							}
						}
						c.Traces++
						c.State(fmt.Sprint(seq))
						return true
					})
				}
				c.Sample("sequences starting with %v, %v", ops[a], ops[b])
				return ierr
			})
		}
	}
	// every request message of C18, unmutated and with every single mutation that can be encoded
	reqs := malRequests()
	c.Bounds_("B", "%d request messages with every single mutation that can be encoded; awkward identifiers; all selectors", len(reqs))
	for ri, r := range reqs {
		c.Case(func() string {
			return fmt.Sprintf("mutations of request %d, %s", ri, r.ProtoReflect().Descriptor().Name())
		}, func() error {
			s, err := get()
			if err != nil {
				return err
			}
			n := mutations(r)
			for i := -1; i < n; i++ {
				m, name := cloneReq(r), "unmutated"
				if i >= 0 {
					m, name = mutated(r, i)
				}
				b, err := safeMarshal(m)
				if err != nil {
					continue
				}
				d := m.ProtoReflect().New().Interface()
				if err := proto.Unmarshal(b, d); err != nil || !proto.Equal(d, d) {
					continue
				}
				if err := reset(s); err != nil {
					return err
				}
				if err := fill(s); err != nil {
					return err
				}
				c.Tick()
				if err := lock(c, s.emb, s.srv, d); err != nil {
					return fmt.Errorf("%s: %w", name, err)
				}
				// built in memory, not decoded
				if strings.Contains(name, "payload nil") { // not the message that was encoded
					continue
				}
				if err := lock(c, s.emb, s.srv, m); err != nil {
					return fmt.Errorf("%s (in memory): %w", name, err)
				}
				for _, q := range malQueries() {
					if err := lock(c, s.emb, s.srv, q); err != nil {
						return fmt.Errorf("after %s of %v: %w", name, d, err)
					}
				}
				c.Traces++
			}
			return nil
		})
	}
	c.Case(func() string { return "selectors over the wire" }, func() error {
		s, err := get()
		if err != nil {
			return err
		}
		if err := reset(s); err != nil {
			return err
		}
		pol := selPol("p")
		if err := lock(c, s.emb, s.srv, Op{K: KCreate, Pol: pol}.Req()); err != nil {
			return err
		}
		for _, t := range selTups {
			if err := lock(c, s.emb, s.srv, Op{K: KSet, Pid: "p", T: t, Data: "x"}.Req()); err != nil {
				return err
			}
		}
		objs, rels, subs := selUniverse()
		for _, o := range objs {
			for _, l := range rels {
				c.Tick()
				for _, u := range subs {
					sel := Sel{OK: o.OK, O: o.O, LK: l.LK, L: l.L, SK: u.SK, S: u.S}
					if err := lock(c, s.emb, s.srv, Op{K: KFind, Pid: "p", Sel: sel}.Req()); err != nil {
						return err
					}
					if err := lock(c, s.emb, s.srv, Op{K: KDelSel, Pid: "p", Sel: sel}.Req()); err != nil {
						return err
					}
					for _, t := range selTups {
						if sel.Matches(t) {
							if err := lock(c, s.emb, s.srv, Op{K: KSet, Pid: "p", T: t, Data: "x"}.Req()); err != nil {
								return err
							}
						}
					}
				}
			}
		}
		return nil
	})
	c.Case(func() string { return "awkward identifiers and data over the wire" }, func() error {
		s, err := get()
		if err != nil {
			return err
		}
		for _, id := range adversarialIds() {
			for _, data := range []string{"", "\x00\xff", strings.Repeat("x", 70000)} {
				c.Tick()
				p := malPol("p")
				p.Name, p.Doc = id, id
				p.Attrs = map[string]string{id: id}
				if err := reset(s); err != nil {
					return err
				}
				seq := []Op{{K: KCreate, Pol: p, Data: data}, {K: KGetPol, Pid: "p"}, {K: KSet, Pid: "p", T: T("d", id, "v", E("u", id)), Data: data}, {K: KSet, Pid: "p", T: T("d", id, "o", S("g", id, "m"))}, {K: KSet, Pid: "p", T: T("g", id, "m", E("u", id+"x"))}, {K: KFind, Pid: "p", Sel: SelAll}, {K: KFind, Pid: "p", Sel: Sel{OK: 'x', O: Ent{"d", id}, LK: '*', SK: '*'}},
					{K: KGet, Pid: "p", T: T("d", id, "v", E("u", id))}, {K: KDump, Pid: "p"}, {K: KDelSel, Pid: "p", Sel: Sel{OK: '*', LK: '*', SK: 'x', S: E("u", id)}}, {K: KDelPol, Pid: "p"}}
				for _, f := range formats {
					seq = append(seq[:len(seq)-2], append([]Op{{K: KExplain, Pid: "p", N: node{Ent{"d", id}, "v"}, Sub: Ent{"u", id + "x"}, Fmt: f}, {K: KExpand, Pid: "p", N: node{Ent{"d", id}, "v"}, Fmt: f}, {K: KCheck, Pid: "p", N: node{Ent{"d", id}, "v"}, Sub: Ent{"u", id}}}, seq[len(seq)-2:]...)...)
				}
				for _, o := range seq {
					if err := lock(c, s.emb, s.srv, o.Req()); err != nil {
						return err
					}
				}
			}
		}
		return nil
	})
	// the HTTP gateway, in the process and in front of a server
	for gw := 0; gw < 2; gw++ {
		c.Case(func() string {
			return []string{"HTTP gateway of the services", "HTTP gateway of the server"}[gw]
		}, func() error {
			mux := gwrt.NewServeMux()
			if gw == 0 {
				z, err := zanzi.New(zanzi.WithKVStore(NewSpyKV()), zanzi.WithLogger(&types.NoopLogger{}))
				if err != nil {
					return err
				}
				if err := api.RegisterPolicyServiceHandlerServer(bg, mux, z.GetPolicyService()); err != nil {
					return err
				}
				if err := api.RegisterRelationGraphHandlerServer(bg, mux, z.GetRelationGraphService()); err != nil {
					return err
				}
			} else {
				conn, _, err := serve(NewSpyKV())
				if err != nil {
					return err
				}
				defer conn.Close()
				if err := api.RegisterPolicyServiceHandlerClient(bg, mux, api.NewPolicyServiceClient(conn)); err != nil {
					return err
				}
				if err := api.RegisterRelationGraphHandlerClient(bg, mux, api.NewRelationGraphClient(conn)); err != nil {
					return err
				}
			}
			conn := &gwConn{c, mux}
			s := &sys{emb: NewSys(NewSpyKV()), srv: Svc{&polClient{c: api.NewPolicyServiceClient(conn)}, &graphClient{c: api.NewRelationGraphClient(conn)}}}
			for i := 0; ; i++ { // wait for the server
				_, err := s.srv.P.ListPolicyIds(bg, &api.ListPolicyIdsRequest{})
				if err == nil {
					break
				}
				if i > 200 {
					return fmt.Errorf("the gateway does not answer: %v", err)
				}
				time.Sleep(10 * time.Millisecond)
			}
			// all sequences of two requests, with and without an existing policy
			for pre := 0; pre < 2; pre++ {
				for a := range ops {
					for b := range ops {
						c.Tick()
						if err := reset(s); err != nil {
							return err
						}
						seq := []int{a, b}
						if pre == 1 {
							seq = []int{0, 3, 4, a, b}
						}
						for _, x := range seq {
							if err := lock(c, s.emb, s.srv, ops[x].Req()); err != nil {
								return fmt.Errorf("%w\nrequests: %v", err, fmtSeq(ops, seq))
							}
						}
						c.Traces++
					}
				}
			}
			if err := reset(s); err != nil {
				return err
			}
			if err := fill(s); err != nil {
				return err
			}
			for _, q := range append(malQueries(), queryRequests()...) {
				if _, err := protojson.Marshal(q); err != nil {
					continue
				}
				if err := lock(c, s.emb, s.srv, q); err != nil {
					return err
				}
			}
			return nil
		})
	}
	// messages of growing size, below the limit of the transport
	c.Case(func() string { return "sizes of messages over the wire" }, func() error {
		s, err := get()
		if err != nil {
			return err
		}
		for _, n := range []int{1 << 10, 1<<12 + 1, 1<<14 - 1, 1<<15 + 7, 1 << 16, 1<<18 + 1, 1<<19 + 1, 1<<20 + 1, 1<<21 + 1, 3 << 20, 4<<20 - 4096} {
			c.Tick()
			if err := reset(s); err != nil {
				return err
			}
			data := strings.Repeat("0123456789abcdef", n/16)
			p := malPol("p")
			for _, o := range []Op{{K: KCreate, Pol: p, Data: data}, {K: KGetPol, Pid: "p"}, {K: KSet, Pid: "p", T: malTups[0], Data: data}, {K: KGet, Pid: "p", T: malTups[0]}, {K: KFind, Pid: "p", Sel: SelAll}, {K: KUpdate, Pol: p, Data: "x" + data}, {K: KGetPol, Pid: "p"}, {K: KDel, Pid: "p", T: malTups[0]}} {
				if err := lock(c, s.emb, s.srv, o.Req()); err != nil {
					return fmt.Errorf("%d bytes of data: %s", n, show(err.Error()))
				}
			}
			c.Traces++
		}
		return reset(s)
	})
	// several connections to one server
	c.Case(func() string { return "several clients of one server" }, func() error {
		s, err := get()
		if err != nil {
			return err
		}
		if err := reset(s); err != nil {
			return err
		}
		var clients []Svc
		for i := 0; i < 12; i++ {
			conn, k := dialSvc(s.conn.Target())
			defer conn.Close()
			clients = append(clients, k)
		}
		for i, o := range append(append([]Op{}, ops...), ops...) {
			for j := range clients {
				c.Tick()
				if err := lock(c, s.emb, clients[(i+j)%len(clients)], o.Req()); err != nil {
					return err
				}
			}
		}
		return reset(s)
	})
	// sizes
	c.Case(func() string { return "sizes over the wire" }, func() error {
		s, err := get()
		if err != nil {
			return err
		}
		if err := reset(s); err != nil {
			return err
		}
		if err := lock(c, s.emb, s.srv, Op{K: KCreate, Pol: malPol("p")}.Req()); err != nil {
			return err
		}
		for i := 0; i < 300; i++ {
			c.Tick()
			if err := lock(c, s.emb, s.srv, Op{K: KSet, Pid: "p", T: T("d", "1", "v", E("u", fmt.Sprint(i)))}.Req()); err != nil {
				return err
			}
			if i%50 == 49 || i < 3 {
				for _, o := range []Op{{K: KFind, Pid: "p", Sel: SelAll}, {K: KDump, Pid: "p"}, {K: KExpand, Pid: "p", N: node{Ent{"d", "1"}, "v"}, Fmt: api.ExplainFormat_JSON}, {K: KCheck, Pid: "p", N: node{Ent{"d", "1"}, "v"}, Sub: Ent{"u", "0"}}} {
					if err := lock(c, s.emb, s.srv, o.Req()); err != nil {
						return err
					}
				}
			}
		}
		return lock(c, s.emb, s.srv, Op{K: KDelPol, Pid: "p"}.Req())
	})
	// the daemon against an embedded instance, directly and through the command line client
	for cli := 0; cli < 3; cli++ {
		c.Case(func() string {
			return []string{"zanzid in lock step", "zanzi-cli and zanzid in lock step", "zanzi-cli and zanzid in lock step, queries"}[cli]
		}, func() error {
			bin, client := os.Getenv("VERIF_ZANZID"), os.Getenv("VERIF_ZANZICLI")
			if bin == "" || cli > 0 && client == "" {
				return nil
			}
			dir := filepath.Join(c.Dir, "daemon")
			os.MkdirAll(dir, 0o755)
			defer os.RemoveAll(dir)
			d := startDaemon(c, bin, dir)
			if d == nil {
				return fmt.Errorf("zanzid does not serve requests")
			}
			defer d.kill()
			s := &sys{emb: NewSys(NewSpyKV()), srv: d.s}
			what := "zanzid"
			if cli > 0 {
				what = "zanzi-cli"
				conn := &cliConn{c, client, d.conn.Target()}
				s.srv = Svc{&polClient{c: api.NewPolicyServiceClient(conn)}, &graphClient{c: api.NewRelationGraphClient(conn)}}
			}
			if err := fill(s); err != nil {
				return fmt.Errorf("%s: %w", what, err)
			}
			if cli < 2 {
				for _, o := range append(append([]Op{}, ops...), ops...) {
					if err := lock(c, s.emb, s.srv, o.Req()); err != nil {
						return fmt.Errorf("%s: %w", what, err)
					}
				}
			}
			if cli != 1 {
				for _, q := range append(malQueries(), queryRequests()...) {
					if cli > 0 {
						if _, err := protojson.Marshal(q); err != nil {
							continue
						}
					}
					if err := lock(c, s.emb, s.srv, q); err != nil {
						return fmt.Errorf("%s: %w", what, err)
					}
				}
			}
			return nil
		})
	}
}

// gwConn sends requests to the HTTP gateway
type gwConn struct {
	c   *Ctx
	mux *gwrt.ServeMux
}

func (k *gwConn) Invoke(ctx context.Context, method string, args, reply any, _ ...grpc.CallOption) error {
	in, err := protojson.Marshal(args.(proto.Message))
	if err != nil {
		return err
	}
	w := httptest.NewRecorder()
	k.mux.ServeHTTP(w, httptest.NewRequest("POST", method, bytes.NewReader(in)))
	if w.Code != http.StatusOK {
		return fmt.Errorf("status %d: %s", w.Code, w.Body.String())
	}
	return protojson.Unmarshal(w.Body.Bytes(), reply.(proto.Message))
}

func (k *gwConn) NewStream(context.Context, *grpc.StreamDesc, string, ...grpc.CallOption) (grpc.ClientStream, error) {
	return nil, fmt.Errorf("no streams")
}

// cliConn sends requests with the command line client
type cliConn struct {
	c         *Ctx
	bin, addr string
}

func (k *cliConn) Invoke(ctx context.Context, method string, args, reply any, _ ...grpc.CallOption) error {
	k.c.Tick()
	in, err := protojson.Marshal(args.(proto.Message))
	if err != nil {
		return err
	}
	parts := strings.Split(strings.Trim(method, "/"), "/")
	svc := parts[0][strings.LastIndexByte(parts[0], '.')+1:]
	cmd := exec.Command(k.bin, kebab(svc), kebab(parts[1]), "-s", k.addr, "-f", "-", "--timeout", "60s")
	cmd.Env = append(os.Environ(), "HOME="+k.c.Dir)
	cmd.Stdin = bytes.NewReader(in)
	var out, msg bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &msg
	if err := cmd.Run(); err != nil {
		return fmt.Errorf("%v: %s", err, strings.SplitN(msg.String(), "\n", 2)[0])
	}
	return protojson.Unmarshal(out.Bytes(), reply.(proto.Message))
}

func (k *cliConn) NewStream(context.Context, *grpc.StreamDesc, string, ...grpc.CallOption) (grpc.ClientStream, error) {
	return nil, fmt.Errorf("no streams")
}

// kebab writes CreatePolicy as create-policy
func kebab(s string) string {
	var b strings.Builder
	for i, r := range s {
		if i > 0 && r >= 'A' && r <= 'Z' {
			b.WriteByte('-')
		}
		b.WriteRune(r)
	}
	return strings.ToLower(b.String())
}

// ---- C21 ----

func runC21(c *Ctx) {
	depth := 7
	if c.Thorough {
		depth = 9
	}
	ids := []string{"a", "b", "c"}
	type gop struct {
		node bool
		x, y int
		d    int
	}
	var ops []gop
	for i := range ids {
		for d := 0; d < 2; d++ {
			ops = append(ops, gop{node: true, x: i, d: d})
		}
	}
	for i := range ids {
		for j := range ids {
			ops = append(ops, gop{x: i, y: j})
		}
	}
	pairsOf := func(m map[string]string, es map[[2]string]bool) (succ, anc map[string][]string) {
		succ, anc = map[string][]string{}, map[string][]string{}
		for e := range es {
			succ[e[0]] = append(succ[e[0]], m[e[1]])
			anc[e[1]] = append(anc[e[1]], m[e[0]])
		}
		return
	}
	sorted := func(x []string) string {
		y := append([]string{}, x...)
		sort.Strings(y)
		return strings.Join(y, ",")
	}
	data := func(i, d int) string { return fmt.Sprintf("%s%d", ids[i], d) }
	// exhaustive depth-first over the generic graph; states reached again with the same history suffix are not merged:
	// a case is a pair of first operations
	c.Bounds_("A", "all sequences of %d operations (15 operations: 6 node insertions or updates, 9 edges) on MapGraph[string]", depth-1)
	c.Bounds_("B", "all sequences of %d operations on MapDiGraph, DOT parsed after the last", depth-2)
	for a := range ops {
		for b := range ops {
			c.Case(func() string { return fmt.Sprintf("MapGraph, first operations %+v %+v", ops[a], ops[b]) }, func() error {
				var ierr error
				product(len(ops), depth-3, func(ix []int) bool {
					seq := append([]int{a, b}, ix...)
					g := types.New[string]()
					m := map[string]string{}
					es := map[[2]string]bool{}
					for _, x := range seq {
						o := ops[x]
						c.Transitions++
						if o.node {
							g.SetNode(ids[o.x], data(o.x, o.d))
							m[ids[o.x]] = data(o.x, o.d)
						} else {
							err := g.SetEdge(ids[o.x], ids[o.y])
							_, ok1 := m[ids[o.x]]
							_, ok2 := m[ids[o.y]]
							if (err == nil) != (ok1 && ok2) {
								ierr = fmt.Errorf("SetEdge(%s, %s): error %v, nodes %v", ids[o.x], ids[o.y], err, m)
								return false
							}
							if err == nil {
								es[[2]string{ids[o.x], ids[o.y]}] = true
							}
						}
					}
					succ, anc := pairsOf(m, es)
					for _, id := range append([]string{"zz", ""}, ids...) {
						c.Evaluations++
						if got := sorted(g.GetSucessors(id)); got != sorted(succ[id]) {
							ierr = fmt.Errorf("successors of %s: %s, expected %s", id, got, sorted(succ[id]))
							return false
						}
						if got := sorted(g.GetAncestors(id)); got != sorted(anc[id]) {
							ierr = fmt.Errorf("ancestors of %s: %s, expected %s", id, got, sorted(anc[id]))
							return false
						}
						n := g.GetNode(id)
						d, ok := m[id]
						if n.IsEmpty() == ok || ok && n.Value() != d {
							ierr = fmt.Errorf("GetNode(%s): %+v, expected %v %q", id, n, ok, d)
							return false
						}
					}
					if len(es) > 0 {
						c.Nontrivial++
					}
					c.Traces++
					return true
				})
				if ierr != nil {
					return ierr
				}
				c.Sample("all sequences starting with %+v %+v", ops[a], ops[b])
				return nil
			})
			c.Case(func() string { return fmt.Sprintf("MapDiGraph, first operations %+v %+v", ops[a], ops[b]) }, func() error {
				var ierr error
				product(len(ops), depth-4, func(ix []int) bool {
					seq := append([]int{a, b}, ix...)
					g := types.NewMapDiGraph()
					m := map[string]string{}
					es := map[[2]string]bool{}
					for _, x := range seq {
						o := ops[x]
						c.Transitions++
						if o.node {
							g.AddNode(&types.GraphNode{Id: ids[o.x], Data: data(o.x, o.d)})
							m[ids[o.x]] = data(o.x, o.d)
						} else {
							g.AddEdge(&types.GraphEdge{Source: ids[o.x], Dest: ids[o.y]})
							es[[2]string{ids[o.x], ids[o.y]}] = true
						}
					}
					c.State(fmt.Sprint(m, es))
					if len(es) > 0 {
						c.Nontrivial++
					}
					c.Traces++
					if err := diCompare(c, g, m, es); err != nil {
						ierr = fmt.Errorf("%w\nsequence %v", err, seq)
						return false
					}
					return true
				})
				return ierr
			})
		}
	}
	// awkward ids and labels, sizes
	words := append(adversarialIds(), `"`, `\`, `\"`, `""`, "a\nb", "\t", "->", "digraph", "G", "[label=x]", ";", "{", "}", "//", "/*", "#", "<b>", "node", "", " ")
	c.Bounds_("C", "all ordered pairs of %d awkward ids and labels; graphs of up to 200 nodes", len(words))
	for i, x := range words {
		c.Case(func() string { return fmt.Sprintf("awkward id %q", x) }, func() error {
			for j, y := range words {
				if x == y {
					continue
				}
				g := types.NewMapDiGraph()
				m := map[string]string{x: y, y: x + "'"}
				for k, v := range m {
					g.AddNode(&types.GraphNode{Id: k, Data: v})
				}
				es := map[[2]string]bool{{x, y}: true}
				if (i+j)%2 == 0 {
					es[[2]string{x, x}] = true
				}
				for e := range es {
					g.AddEdge(&types.GraphEdge{Source: e[0], Dest: e[1]})
				}
				c.Nontrivial++
				if err := diCompare(c, g, m, es); err != nil {
					return err
				}
				h := types.New[string]()
				h.SetNode(x, y)
				if err := h.SetEdge(x, y); err == nil {
					return fmt.Errorf("edge to the unknown node %q accepted", y)
				}
				if err := h.SetEdge(y, x); err == nil {
					return fmt.Errorf("edge from the unknown node %q accepted", y)
				}
				if len(h.GetSucessors(x)) != 0 || len(h.GetAncestors(x)) != 0 || len(h.GetSucessors(y)) != 0 || len(h.GetAncestors(y)) != 0 {
					return fmt.Errorf("a refused edge had an effect (%q, %q)", x, y)
				}
				h.SetNode(y, x)
				if err := h.SetEdge(x, y); err != nil || sorted(h.GetSucessors(x)) != x || sorted(h.GetAncestors(y)) != y || len(h.GetSucessors(y)) != 0 {
					return fmt.Errorf("edge %q -> %q: %v %q %q", x, y, err, h.GetSucessors(x), h.GetAncestors(y))
				}
			}
			return nil
		})
	}
	for _, n := range []int{1, 2, 9, 10, 11, 33, 64, 65, 128, 200} {
		c.Case(func() string { return fmt.Sprintf("graph of %d nodes", n) }, func() error {
			g := types.NewMapDiGraph()
			h := types.New[string]()
			m := map[string]string{}
			es := map[[2]string]bool{}
			for i := 0; i < n; i++ {
				id := fmt.Sprint("n", i)
				m[id] = fmt.Sprint("d", i)
				g.AddNode(&types.GraphNode{Id: id, Data: m[id]})
				h.SetNode(id, m[id])
			}
			add := func(x, y int) {
				e := [2]string{fmt.Sprint("n", x), fmt.Sprint("n", y)}
				es[e] = true
				g.AddEdge(&types.GraphEdge{Source: e[0], Dest: e[1]})
				h.SetEdge(e[0], e[1])
			}
			for i := 0; i < n; i++ { // star out, star in, ring
				add(0, i)
				add(i, 0)
				add(i, (i+1)%n)
			}
			succ, anc := pairsOf(m, es)
			for id := range m {
				if sorted(h.GetSucessors(id)) != sorted(succ[id]) || sorted(h.GetAncestors(id)) != sorted(anc[id]) {
					return fmt.Errorf("node %s of %d: successors %v, ancestors %v, expected %v and %v", id, n, h.GetSucessors(id), h.GetAncestors(id), succ[id], anc[id])
				}
			}
			return diCompare(c, g, m, es)
		})
	}
}

func diCompare(c *Ctx, g *types.MapDiGraph, m map[string]string, es map[[2]string]bool) error {
	c.Evaluations++
	for id, d := range m {
		if n := g.GetNode(id); n == nil || n.Id != id || n.Data != d {
			return fmt.Errorf("GetNode(%q) = %v, expected data %q", id, n, d)
		}
	}
	if g.GetNode("no such node") != nil {
		return fmt.Errorf("GetNode of an unknown id is not nil")
	}
	if len(g.Nodes) != len(m) {
		return fmt.Errorf("%d nodes, expected %d", len(g.Nodes), len(m))
	}
	nf, nb := 0, 0
	for s, em := range g.ForwardEdges {
		for d := range em.Edges {
			nf++
			if !es[[2]string{s, d}] {
				return fmt.Errorf("forward edge %q -> %q was not added", s, d)
			}
		}
	}
	for d, em := range g.BackEdges {
		for s := range em.Edges {
			nb++
			if !es[[2]string{s, d}] {
				return fmt.Errorf("back edge %q -> %q was not added", s, d)
			}
		}
	}
	if nf != len(es) || nb != len(es) {
		return fmt.Errorf("%d forward and %d back edges, expected %d", nf, nb, len(es))
	}
	for e := range es { // the rendering of edges at unknown nodes is left open
		for _, id := range e {
			if _, ok := m[id]; !ok {
				return nil
			}
		}
	}
	dot, err := parseDOT(types.GraphToDOT(g))
	if err != nil {
		return fmt.Errorf("DOT: %v\n%s", err, types.GraphToDOT(g))
	}
	return dot.same(m, es)
}

// ---- C22 ----

// watched runs f in a goroutine; f reports progress. It fails when there is none for a long time.
func watched(c *Ctx, f func(progress func(string)) error) error {
	done := make(chan error, 1)
	step := make(chan string, 1024)
	go func() {
		done <- protect(func() error { return f(func(s string) { step <- s }) })
	}()
	last := "start"
	for quiet := 0; ; {
		t := time.NewTimer(time.Second)
		select {
		case err := <-done:
			t.Stop()
			return err
		case last = <-step:
			t.Stop()
			quiet = 0
		case <-t.C:
			if quiet++; quiet < 20 {
				continue
			}
			buf := make([]byte, 1<<20)
			st := string(buf[:runtime.Stack(buf, true)])
			// a machine under load may be slow: only what waits is blocked
			if quiet < 120 && strings.Count(st, " [runn") > 1 {
				continue
			}
			return fmt.Errorf("blocked: %s\n%s", last, wedgeStacks(st))
		}
	}
}

// wedgeStacks keeps the goroutines which are inside of the code under test
func wedgeStacks(s string) string {
	var out []string
	for _, g := range strings.Split(s, "\n\n") {
		if strings.Contains(g, "sourcenetwork/zanzi/internal") || strings.Contains(g, "tm-db") || strings.Contains(g, "cometbft-db") {
			out = append(out, g)
		}
	}
	r := strings.Join(out, "\n\n")
	if len(r) > 4000 {
		r = r[:4000]
	}
	return r
}

func wedgePol(id string) *Pol {
	return polWith(id, ResDef{Name: "u"}, ResDef{Name: "g", Rels: []RelDef{rel("m", "_this")}},
		ResDef{Name: "d", Rels: []RelDef{rel("v", "_this + parent->o"), rel("parent", "_this"), rel("o", "_this"), rel("i", "v & o"), rel("s", "v - o"), rel("bad", "parent->nowhere"), rel("loop", "loop")}})
}

// wedgeRequests are requests of every kind which succeed or fail at various points
func wedgeRequests(id string) []proto.Message {
	var out []proto.Message
	for _, pid := range []string{id, "none", ""} {
		for _, o := range []Op{{K: KGetPol, Pid: pid}, {K: KList}, {K: KFind, Pid: pid, Sel: SelAll}, {K: KFind, Pid: pid, Sel: Sel{OK: 'r', O: Ent{R: "nope"}, LK: '*', SK: '*'}}, {K: KFind, Pid: pid, Sel: Sel{OK: '*', LK: 'x', L: "v", SK: 'x', S: E("u", "1")}}, {K: KFind, Pid: pid, Sel: Sel{}}, {K: KDump, Pid: pid},
			{K: KGet, Pid: pid, T: T("d", "0", "v", E("u", "0"))}, {K: KSet, Pid: pid, T: T("d", "0", "nope", E("u", "0"))}, {K: KSet, Pid: pid, T: T("d", "0", "v", E("u", "0")), Data: "z"}, {K: KDel, Pid: pid, T: T("d", "0", "v", E("u", "absent"))}, {K: KDelSel, Pid: pid, Sel: Sel{OK: 'x', O: Ent{"d", "absent"}, LK: '*', SK: '*'}}, {K: KDelSel, Pid: pid, Sel: Sel{}},
			{K: KCreate, Pol: wedgePol(pid)}, {K: KUpdate, Pol: wedgePol(pid)}, {K: KCreate, Pol: polWith(pid, ResDef{Name: "d", Rels: []RelDef{rel("v", "w")}})}, {K: KUpdate, Pol: polWith(pid, ResDef{Name: "d", Rels: []RelDef{rel("v", "(")}})}} {
			out = append(out, o.Req())
		}
		for _, l := range []string{"v", "i", "s", "bad", "loop", "parent", "nope"} {
			for _, o := range []string{"0", "many", "absent", "wild"} {
				n := node{Ent{"d", o}, l}
				for _, u := range []string{"0", "absent"} {
					out = append(out, Op{K: KCheck, Pid: pid, N: n, Sub: Ent{"u", u}}.Req())
				}
				out = append(out, Op{K: KExplain, Pid: pid, N: n, Sub: Ent{"u", "0"}, Fmt: api.ExplainFormat_JSON}.Req(), Op{K: KExplain, Pid: pid, N: n, Sub: Ent{"u", "0"}, Fmt: 99}.Req(), Op{K: KExpand, Pid: pid, N: n, Fmt: api.ExplainFormat_DOT}.Req())
			}
		}
	}
	return out
}

// wedgeWrites is a sequence of all kinds of writes which restores the state
func wedgeWrites(id string) []Op {
	t := T("d", "probe", "v", E("u", "probe"))
	return []Op{{K: KSet, Pid: id, T: t}, {K: KSet, Pid: id, T: t, Data: "again"}, {K: KDel, Pid: id, T: t}, {K: KSet, Pid: id, T: t}, {K: KDelSel, Pid: id, Sel: Sel{OK: 'x', O: Ent{"d", "probe"}, LK: '*', SK: '*'}},
		{K: KUpdate, Pol: wedgePol(id), Data: "upd"}, {K: KCreate, Pol: wedgePol("tmp")}, {K: KSet, Pid: "tmp", T: t}, {K: KDelPol, Pid: "tmp"}, {K: KCheck, Pid: id, N: node{Ent{"d", "0"}, "v"}, Sub: Ent{"u", "0"}}, {K: KList}}
}

func runC22(c *Ctx) {
	sizes := []int{0, 1, 2, 31, 33, 62, 63, 64, 65, 66, 67, 129}
	if c.Thorough {
		sizes = nil
		for i := 0; i <= 140; i++ {
			sizes = append(sizes, i)
		}
		sizes = append(sizes, 255, 256, 257, 300, 1000)
	}
	c.Bounds_("A", "store sizes %v (policies, relationships of one object, relationships of many objects) x %d requests x %d following requests, with live and cancelled contexts, memory store and LevelDB", sizes, len(wedgeRequests("p")), len(wedgeWrites("p")))
	cancelled, cancel := context.WithCancel(bg)
	cancel()
	for st := 0; st < 2; st++ {
		for _, n := range sizes {
			for shape := 0; shape < 3; shape++ {
				for cc, ctx := range []context.Context{bg, cancelled} {
					if cc == 1 && (n != 65 && !c.Thorough) {
						continue
					}
					c.Case(func() string { return fmt.Sprintf("store %d, size %d, shape %d, context %d", st, n, shape, cc) }, func() error {
						kv, closeKV, err := bundled(c, st, fmt.Sprint("w", n, "-", shape, "-", cc))
						if err != nil {
							panic(infra{err.Error()})
						}
						defer closeKV()
						s := NewSys(kv)
						return watched(c, func(progress func(string)) error {
							w := World{}
							id := "p"
							do := func(o Op) error {
								progress(o.String())
								return Step1(s, w, o)
							}
							if err := do(Op{K: KCreate, Pol: wedgePol(id)}); err != nil {
								return err
							}
							if err := do(Op{K: KSet, Pid: id, T: T("d", "wild", "parent", W("d"))}); err != nil {
								return err
							}
							for i := 0; i < n; i++ {
								o := Op{K: KCreate, Pol: wedgePol(fmt.Sprintf("x%03d", i))}
								switch shape {
								case 1:
									o = Op{K: KSet, Pid: id, T: T("d", "many", []string{"v", "parent"}[i%2], E([]string{"u", "d"}[i%2], fmt.Sprint(i)))}
								case 2:
									o = Op{K: KSet, Pid: id, T: T("d", fmt.Sprint(i), "v", E("u", fmt.Sprint(i)))}
								}
								if err := do(o); err != nil {
									return err
								}
							}
							if shape == 0 {
								if err := do(Op{K: KSet, Pid: id, T: T("d", "0", "v", E("u", "0"))}); err != nil {
									return err
								}
							}
							c.State(w.Key())
							for _, r := range wedgeRequests(id) {
								c.Tick()
								progress(fmt.Sprintf("%T %v", r, r))
								_, err := callCtx(ctx, s, proto.Clone(r))
								if err != nil {
									c.Outcome("request failed")
								} else {
									c.Outcome("request answered")
								}
								c.Nontrivial++
								c.Traces++
								follow := wedgeWrites(id)
								if st == 1 && !c.Thorough { // LevelDB is slow
									follow = follow[:3]
								}
								for _, o := range follow {
									progress(fmt.Sprintf("%v after %T %v", o, r, r))
									c.Transitions++
									c.Evaluations++
									if got, err := o.RunErr(s); got == ERR && (o.K == KSet || o.K == KCreate || o.K == KList || o.K == KDelPol) {
										return fmt.Errorf("%v after %T %v: %v", o, r, r, err)
									}
								}
							}
							return nil
						})
					})
				}
			}
		}
	}
	// malformed requests, then writes
	reqs := malRequests()
	c.Bounds_("B", "%d request messages with every single mutation on the memory store with 70 policies and 70 relationships, each followed by a write", len(reqs))
	for ri, r := range reqs {
		c.Case(func() string { return fmt.Sprintf("malformed requests %d %T", ri, r) }, func() error {
			kv, _, err := bundled(c, 0, "")
			if err != nil {
				panic(infra{err.Error()})
			}
			s := NewSys(kv)
			return watched(c, func(progress func(string)) error {
				w := World{}
				for i := 0; i < 70; i++ {
					progress("setup")
					if err := Step1(s, w, Op{K: KCreate, Pol: malPol(fmt.Sprint("x", i))}); err != nil {
						return err
					}
				}
				n := mutations(r)
				for i := 0; i < n; i++ {
					c.Tick()
					call(s, Op{K: KCreate, Pol: malPol("p")}.Req())
					call(s, Op{K: KUpdate, Pol: malPol("p")}.Req())
					for j := 0; j < 70; j++ {
						if i > 0 && j > 2 && j < 68 {
							continue
						}
						call(s, Op{K: KSet, Pid: "p", T: T("d", "1", "v", E("u", fmt.Sprint(j)))}.Req())
					}
					m, name := mutated(r, i)
					progress(fmt.Sprintf("%T %s", m, name))
					call(s, m)
					c.Traces++
					c.Evaluations++
					progress(fmt.Sprintf("writes after %T %s", m, name))
					call(s, Op{K: KCreate, Pol: malPol("p")}.Req())
					if got, err := (Op{K: KSet, Pid: "p", T: T("d", "1", "v", E("u", "x"))}).RunErr(s); got == ERR {
						call(s, Op{K: KUpdate, Pol: malPol("p")}.Req())
						if got, err = (Op{K: KSet, Pid: "p", T: T("d", "1", "v", E("u", "x"))}).RunErr(s); got == ERR {
							return fmt.Errorf("SetRelationship after %T %s: %v", m, name, err)
						}
					}
				}
				return nil
			})
		})
	}
	runC22Sizes(c)
	runC22Overlap(c)
}

// sizedPolicies are policies of which one dimension has size n
func sizedPolicies(n int) map[string]*Pol {
	rep := func(s string) string { return strings.Repeat(s, n) }
	d := func(text string, more ...RelDef) *Pol {
		return polWith("p", ResDef{Name: "u"}, ResDef{Name: "d", Rels: append([]RelDef{rel("v", text), rel("o", "_this"), rel("parent", "_this")}, more...)})
	}
	name := "o" + rep("x")
	items := []RItem{}
	var rels []RelDef
	res := []ResDef{{Name: "u"}, {Name: "d", Rels: []RelDef{rel("v", "_this"), rel("o", "_this"), rel("parent", "_this")}}}
	for i := 0; i < n; i++ {
		items = append(items, RItem{Res: "u"})
		rels = append(rels, rel(fmt.Sprint("r", i), "_this"))
		res = append(res, ResDef{Name: fmt.Sprint("x", i)})
	}
	return map[string]*Pol{
		"union":             d("_this" + rep(" + o")),
		"intersection":      d("_this" + rep(" & o")),
		"difference":        d("_this" + rep(" - o")),
		"tuple to userset":  d("_this" + rep("+parent->o")),
		"parentheses":       d(rep("(") + "_this" + rep(")")),
		"right nesting":     d(rep("(o + ") + "_this" + rep(")")),
		"spaces":            d("_this" + rep(" ") + "+" + rep("\t") + "o"),
		"long name":         d("_this + "+name, rel(name, "_this")),
		"relations":         d("_this", rels...),
		"resources":         polWith("p", res...),
		"restrictions":      d("_this", RelDef{Name: "q", Text: "_this", R: Restr{Items: items}}),
		"unclosed":          d(rep("(") + "_this"),
		"closed too often":  d("_this" + rep(")")),
		"operators":         d("_this" + rep(" +")),
		"names":             d("_this" + rep(" o")),
		"illegal character": d("_this" + rep(" + o") + " ?"),
		"illegal start":     d("?" + rep(" + o")),
		"arrows":            d("parent" + rep("->o")),
		"cut arrow":         d("_this" + rep(" + o") + " + parent-"),
	}
}

// runC22Sizes: policies of every size are accepted or rejected, and the instance goes on answering
func runC22Sizes(c *Ctx) {
	max := 140
	if c.Thorough {
		max = 300
	}
	c.Bounds_("D", "%d dimensions of a policy (terms, nesting, names, relations, resources, restrictions, malformed expressions), each with every size from 0 to %d (and two larger ones without queries): CreatePolicy, UpdatePolicy, the queries on the policy, then writes", len(sizedPolicies(0)), max)
	sizes := []int{}
	for n := 0; n <= max; n++ {
		sizes = append(sizes, n)
	}
	sizes = append(sizes, max+60, max+160)
	for _, n := range sizes {
		pols := sizedPolicies(n)
		names := make([]string, 0, len(pols))
		for k := range pols {
			names = append(names, k)
		}
		sort.Strings(names)
		for _, k := range names {
			c.Case(func() string { return fmt.Sprintf("policy with %s of size %d", k, n) }, func() error {
				return watched(c, func(progress func(string)) error {
					s := NewSys(NewSpyKV())
					do := func(o Op) (string, error) {
						progress(fmt.Sprintf("%v: %s of size %d", o.K, k, n))
						c.Transitions++
						return o.RunErr(s)
					}
					ops := []Op{{K: KCreate, Pol: pols[k]}, {K: KGetPol, Pid: "p"}, {K: KDelPol, Pid: "p"}, {K: KCreate, Pol: polWith("p", ResDef{Name: "u"}, ResDef{Name: "d", Rels: []RelDef{rel("v", "_this"), rel("o", "_this"), rel("parent", "_this")}})}, {K: KUpdate, Pol: pols[k]},
						{K: KSet, Pid: "p", T: T("d", "0", "o", E("u", "0"))}, {K: KSet, Pid: "p", T: T("d", "1", "parent", E("d", "0"))}}
					for _, o := range []string{"0", "1"} {
						if n > max {
							break // queries take long, which is no wedge
						}
						ops = append(ops, Op{K: KCheck, Pid: "p", N: node{Ent{"d", o}, "v"}, Sub: Ent{"u", "0"}}, Op{K: KCheck, Pid: "p", N: node{Ent{"d", o}, "v"}, Sub: Ent{"u", "none"}},
							Op{K: KExplain, Pid: "p", N: node{Ent{"d", o}, "v"}, Sub: Ent{"u", "0"}, Fmt: api.ExplainFormat_JSON}, Op{K: KExpand, Pid: "p", N: node{Ent{"d", o}, "v"}, Fmt: api.ExplainFormat_DOT})
					}
					ops = append(ops, Op{K: KDump, Pid: "p"}, Op{K: KFind, Pid: "p", Sel: SelAll}, Op{K: KDelSel, Pid: "p", Sel: SelAll})
					for _, o := range ops {
						got, _ := do(o)
						c.Outcome(map[bool]string{true: "request failed", false: "request answered"}[got == ERR])
					}
					c.Traces++
					c.Evaluations++
					c.Nontrivial++
					for _, o := range []Op{{K: KSet, Pid: "p", T: T("d", "0", "o", E("u", "0"))}, {K: KDelPol, Pid: "p"}, {K: KCreate, Pol: wedgePol("q")}, {K: KList}} {
						if got, err := do(o); got == ERR {
							return fmt.Errorf("%v after a policy with %s of size %d: %v", o, k, n, err)
						}
					}
					return nil
				})
			})
		}
	}
}
