package main

import (
	"encoding/json"
	"fmt"
	"regexp"
	"sort"
	"strconv"
	"strings"

	"github.com/sourcenetwork/zanzi/pkg/api"
	"github.com/sourcenetwork/zanzi/pkg/domain"
	"google.golang.org/protobuf/encoding/prototext"
)

var formats = []api.ExplainFormat{api.ExplainFormat_SPEW, api.ExplainFormat_JSON, api.ExplainFormat_DOT}

// treeInfo is what can be read from a serialized goal tree
type treeInfo struct {
	exact  bool            // nodes holds every node of the tree
	nodes  map[string]bool // in the notation of nodeName
	result string          // result at the root, if shown
	root   *tnode          // the structure of the tree, if it can be read
}

// tnode is a node of a goal tree
type tnode struct {
	kind   byte // p: path, o: or, a: and, d: difference, x: or / and
	name   string
	sub    *Sub // of a path, if known
	result string
	kids   []*tnode
}

// consistent verifies that the result of every node follows from those of its children, that the paths
// which end in success end at the subject, and that every granted set is explained once
func (ti *treeInfo) consistent(f api.ExplainFormat, q query, member func(node) bool) error {
	granted, explained := map[string]bool{}, map[string]bool{}
	leafOK := map[string]bool{nodeName(f, E(q.sub.R, q.sub.I)): true, nodeName(f, W(q.sub.R)): true}
	var walk func(t *tnode) error
	walk = func(t *tnode) error {
		succ, n := t.result == "SUCCESS", 0
		for _, k := range t.kids {
			if k.result == "SUCCESS" {
				n++
			}
		}
		bad := false
		switch t.kind {
		case 'p':
			if len(t.kids) == 1 {
				bad = succ != (n == 1)
				if succ {
					explained[t.name] = true
				}
			} else if succ {
				if !leafOK[t.name] {
					granted[t.name] = true
				}
			}
			if t.sub != nil && succ {
				if t.sub.K == 's' {
					if !member(node{Ent{t.sub.R, t.sub.I}, t.sub.L}) {
						return fmt.Errorf("shows that %s contains the subject", t.name)
					}
				} else if !leafOK[t.name] {
					return fmt.Errorf("shows %s as the subject", t.name)
				}
			}
		case 'o':
			bad = succ != (n > 0)
		case 'a':
			bad = succ != (n == len(t.kids))
		case 'x':
			bad = succ && n == 0 || !succ && n > 0 && n == len(t.kids)
		case 'd':
			if len(t.kids) != 2 {
				return fmt.Errorf("has a difference with %d operands", len(t.kids))
			}
			bad = succ != (t.kids[0].result == "SUCCESS" && t.kids[1].result != "SUCCESS")
		}
		if bad {
			return fmt.Errorf("has a node (%c) %s with result %s, %d of its %d children succeed", t.kind, t.name, t.result, n, len(t.kids))
		}
		for _, k := range t.kids {
			if err := walk(k); err != nil {
				return err
			}
		}
		return nil
	}
	if err := walk(ti.root); err != nil {
		return err
	}
	for n := range granted {
		if !explained[n] {
			return fmt.Errorf("grants through %s without an explanation", n)
		}
	}
	return nil
}

// jsonTree reads the structure of a goal tree; nil if it is not known
func jsonTree(v any) *tnode {
	m, ok := v.(map[string]any)
	if !ok {
		return nil
	}
	t := &tnode{}
	if t.result, ok = m["Result"].(string); !ok {
		return nil
	}
	kid := func(v any) bool {
		k := jsonTree(v)
		t.kids = append(t.kids, k)
		return k != nil
	}
	if rn, ok := m["RelationNode"].(map[string]any); ok {
		t.kind = 'p'
		sub := jsonNode(rn)
		if sub == nil {
			return nil
		}
		t.sub, t.name = sub, sub.String()
		if m["Path"] != nil && !kid(m["Path"]) {
			return nil
		}
		return t
	}
	if l, ok := m["Left"]; ok {
		t.kind = 'd'
		if kid(l) && kid(m["Right"]) {
			return t
		}
		return nil
	}
	if ps, ok := m["Paths"]; ok {
		t.kind = 'x'
		list, _ := ps.([]any)
		for _, p := range list {
			if !kid(p) {
				return nil
			}
		}
		return t
	}
	return nil
}

// jsonNode reads a relation node
func jsonNode(x map[string]any) *Sub {
	n, ok := x["Node"].(map[string]any)
	if !ok {
		return nil
	}
	var s Sub
	if e, ok := n["EntitySet"]; ok {
		s = S(jsonStr(e, "object", "resource"), jsonStr(e, "object", "id"), jsonStr(e, "relation"))
	} else if e, ok := n["Entity"]; ok {
		s = E(jsonStr(e, "object", "resource"), jsonStr(e, "object", "id"))
	} else if e, ok := n["Wildcard"]; ok {
		s = W(jsonStr(e, "resource"))
	} else {
		return nil
	}
	return &s
}

func nodeName(f api.ExplainFormat, s Sub) string {
	if f == api.ExplainFormat_DOT {
		return prettySub(s)
	}
	return s.String()
}

func setName(f api.ExplainFormat, n node) string { return nodeName(f, S(n.O.R, n.O.I, n.L)) }

func readTree(f api.ExplainFormat, s string) (*treeInfo, error) {
	ti := &treeInfo{nodes: map[string]bool{}, exact: true}
	switch f {
	case api.ExplainFormat_JSON:
		var v any
		if err := json.Unmarshal([]byte(s), &v); err != nil {
			return nil, fmt.Errorf("malformed JSON: %v", err)
		}
		m, ok := v.(map[string]any)
		if !ok {
			return nil, fmt.Errorf("JSON is not an object")
		}
		if r, ok := m["Result"].(string); ok {
			ti.result = r
		}
		jsonNodes(v, ti)
		ti.root = jsonTree(v)
	case api.ExplainFormat_DOT:
		g, err := parseDOT(s)
		if err != nil {
			return nil, fmt.Errorf("malformed DOT: %v", err)
		}
		if err := dotTree(g, ti); err != nil {
			return nil, err
		}
	case api.ExplainFormat_SPEW:
		if strings.TrimSpace(s) == "" {
			return nil, fmt.Errorf("empty tree")
		}
		spewNodes(s, ti)
		if m := spewResult.FindStringSubmatch(s); m != nil {
			ti.result = m[1]
		}
	}
	if len(ti.nodes) == 0 {
		if f == api.ExplainFormat_SPEW {
			ti.exact = false
		} else {
			return nil, fmt.Errorf("tree without nodes")
		}
	}
	return ti, nil
}

func jsonStr(v any, path ...string) string {
	for _, p := range path {
		m, ok := v.(map[string]any)
		if !ok {
			return ""
		}
		v = m[p]
	}
	s, _ := v.(string)
	return s
}

func jsonNodes(v any, ti *treeInfo) {
	switch x := v.(type) {
	case []any:
		for _, e := range x {
			jsonNodes(e, ti)
		}
	case map[string]any:
		if n := jsonNode(x); n != nil {
			ti.nodes[n.String()] = true
		}
		for _, e := range x {
			jsonNodes(e, ti)
		}
	}
}

func dotTree(g *DOT, ti *treeInfo) error {
	// every node is reachable from the artificial root
	kids := map[string][]string{}
	indeg := map[string]int{}
	for _, e := range g.edges {
		kids[e[0]] = append(kids[e[0]], e[1])
		indeg[e[1]]++
	}
	seen := map[string]bool{}
	var stack []string
	for id := range g.nodes {
		if indeg[id] == 0 {
			stack = append(stack, id)
			seen[id] = true
		}
	}
	if len(stack) != 1 {
		return fmt.Errorf("DOT tree has %d roots", len(stack))
	}
	isTree := true
	for _, n := range indeg {
		isTree = isTree && n == 1
	}
	if top := kids[stack[0]]; isTree && len(top) == 1 {
		var build func(id string) *tnode
		build = func(id string) *tnode {
			l := g.label(id)
			t := &tnode{}
			switch {
			case strings.HasPrefix(l, "PathNode\nrelation node: "):
				t.kind = 'p'
				l = strings.TrimPrefix(l, "PathNode\nrelation node: ")
				j := strings.LastIndex(l, "\nreason: ")
				if j < 0 {
					return nil
				}
				t.name = l[:j]
			case strings.HasPrefix(l, "ORNode\n"):
				t.kind = 'o'
			case strings.HasPrefix(l, "ANDNode\n"):
				t.kind = 'a'
			case strings.HasPrefix(l, "DifferenceNode\n"):
				t.kind = 'd'
			default:
				return nil
			}
			j := strings.LastIndex(l, "\nresult: ")
			if j < 0 {
				return nil
			}
			t.result = l[j+len("\nresult: "):]
			// ids are numbered in the order of the operands
			sort.SliceStable(kids[id], func(i, j int) bool {
				a, errA := strconv.Atoi(kids[id][i])
				b, errB := strconv.Atoi(kids[id][j])
				return errA == nil && errB == nil && a < b
			})
			for _, k := range kids[id] {
				kt := build(k)
				if kt == nil {
					return nil
				}
				t.kids = append(t.kids, kt)
			}
			return t
		}
		ti.root = build(top[0])
	}
	for len(stack) > 0 {
		id := stack[len(stack)-1]
		stack = stack[:len(stack)-1]
		for _, k := range kids[id] {
			if !seen[k] {
				seen[k] = true
				stack = append(stack, k)
			}
		}
	}
	if len(seen) != len(g.nodes) {
		return fmt.Errorf("DOT tree has %d nodes, but %d are connected", len(g.nodes), len(seen))
	}
	for id := range g.nodes {
		l := g.label(id)
		i := strings.Index(l, "relation node: ")
		if i < 0 {
			continue
		}
		l = l[i+len("relation node: "):]
		j := strings.LastIndex(l, "\nreason: ")
		if j < 0 {
			continue
		}
		ti.nodes[l[:j]] = true
		if strings.Contains(l[j:], "reason: Request") {
			if k := strings.LastIndex(l, "\nresult: "); k >= 0 {
				ti.result = l[k+len("\nresult: "):]
			}
		}
	}
	return nil
}

var spewResult = regexp.MustCompile(`(?m)^ Result: \([^)]*\) (\w+)`)
var spewNode = regexp.MustCompile(`(?:entity_set|entity|wildcard):\s*\{`)

func spewNodes(s string, ti *treeInfo) {
	for _, loc := range spewNode.FindAllStringIndex(s, -1) {
		if loc[0] == 0 || s[loc[0]-1] != '(' {
			continue
		}
		// balanced braces, outside of strings
		depth, inStr, end := 0, false, -1
		for i := loc[1] - 1; i < len(s); i++ {
			ch := s[i]
			if inStr {
				if ch == '\\' {
					i++
				} else if ch == '"' {
					inStr = false
				}
				continue
			}
			if ch == '"' {
				inStr = true
			} else if ch == '{' {
				depth++
			} else if ch == '}' {
				depth--
				if depth == 0 {
					end = i + 1
					break
				}
			}
		}
		if end < 0 {
			continue
		}
		n := &domain.RelationNode{}
		if prototext.Unmarshal([]byte(s[loc[0]:end]), n) != nil {
			continue
		}
		switch x := n.Node.(type) {
		case *domain.RelationNode_EntitySet:
			ti.nodes[S(x.EntitySet.GetObject().GetResource(), x.EntitySet.GetObject().GetId(), x.EntitySet.GetRelation()).String()] = true
		case *domain.RelationNode_Entity:
			ti.nodes[E(x.Entity.GetObject().GetResource(), x.Entity.GetObject().GetId()).String()] = true
		case *domain.RelationNode_Wildcard:
			ti.nodes[W(x.Wildcard.GetResource()).String()] = true
		}
	}
}

// names lists the reachable nodes in the notation of the format
func (r *Reach) names(f api.ExplainFormat) map[string]bool {
	out := map[string]bool{}
	for n := range r.Nodes {
		out[setName(f, n)] = true
	}
	for e := range r.Ents {
		out[nodeName(f, E(e.R, e.I))] = true
	}
	for w := range r.Wild {
		out[nodeName(f, W(w))] = true
	}
	return out
}

func keysOf(m map[string]bool) string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return strings.Join(ks, "  ")
}

// explainCompare: ExplainCheck against Check and the reference semantics
func explainCompare(c *Ctx, s Svc, w World, pid string, g *Graph, qs []query) error {
	for _, q := range qs {
		ck := Op{K: KCheck, Pid: pid, N: q.n, Sub: q.sub}
		verdict, cerr := ck.RunErr(s)
		var alts []string
		var reach *Reach
		if ps := w[pid]; ps != nil {
			alts = checkAlternatives(g, q.n, q.sub)
			reach = g.Reach(q.n)
		} else {
			alts = []string{ERR}
		}
		for _, f := range formats {
			o := Op{K: KExplain, Pid: pid, N: q.n, Sub: q.sub, Fmt: f}
			fail := func(format string, a ...any) error {
				return fmt.Errorf("%v: %s\nstate:\n%v", o, fmt.Sprintf(format, a...), w)
			}
			resp, err := call(s, o.Req())
			c.Evaluations++
			if (err != nil) != (cerr != nil) {
				return fail("Check gave %s (error: %v), ExplainCheck error: %v", verdict, cerr, err)
			}
			if err != nil {
				c.Outcome(f.String() + " " + ERR)
				if !accepts(alts, ERR) {
					return fail("failed: %v", err)
				}
				continue
			}
			r := resp.(*api.ExplainCheckResponse)
			got := fmt.Sprintf("authorized=%v", r.Authorized)
			c.Outcome(f.String() + " " + got)
			if got != verdict {
				return fail("%s, but Check answers %s", got, verdict)
			}
			if !accepts(alts, got) {
				return fail("%s, expected %v", got, alts)
			}
			if r.Format != f {
				return fail("response has format %v", r.Format)
			}
			ti, err := readTree(f, r.GoalTree)
			if err != nil {
				return fail("%v\n%s", err, r.GoalTree)
			}
			if !ti.exact {
				continue
			}
			c.Nontrivial++
			if !ti.nodes[setName(f, q.n)] {
				return fail("explanation does not name %s\n%s", setName(f, q.n), r.GoalTree)
			}
			if r.Authorized && !ti.nodes[nodeName(f, E(q.sub.R, q.sub.I))] && !ti.nodes[nodeName(f, W(q.sub.R))] {
				return fail("access granted, but the explanation names neither subject nor wildcard\n%s", r.GoalTree)
			}
			if ti.result != "" && (ti.result == "SUCCESS") != r.Authorized {
				return fail("%s, but the explanation ends in %s\n%s", got, ti.result, r.GoalTree)
			}
			if ti.root != nil {
				err := ti.consistent(f, q, func(n node) bool {
					as := checkAlternatives(g, n, q.sub)
					return len(as) != 1 || as[0] == "authorized=true"
				})
				if err != nil {
					return fail("explanation %v\n%s", err, r.GoalTree)
				}
				c.Outcome(f.String() + " structure compared")
			}
			names := reach.names(f)
			for n := range ti.nodes {
				if !names[n] {
					return fail("explanation mentions %s, which is not reachable\n%s", n, r.GoalTree)
				}
			}
		}
	}
	return nil
}

func expandReq(pid string, f api.ExplainFormat, s Sub) *api.ExpandRequest {
	r := &domain.RelationNode{}
	switch s.K {
	case 's':
		r.Node = &domain.RelationNode_EntitySet{EntitySet: &domain.EntitySetNode{Object: &domain.Entity{Resource: s.R, Id: s.I}, Relation: s.L}}
	case 'e':
		r.Node = &domain.RelationNode_Entity{Entity: &domain.EntityNode{Object: &domain.Entity{Resource: s.R, Id: s.I}}}
	case 'w':
		r.Node = &domain.RelationNode_Wildcard{Wildcard: &domain.WildcardNode{Resource: s.R}}
	}
	return &api.ExpandRequest{PolicyId: pid, Format: f, Root: r}
}

// expandCompare: Expand shows exactly the reachable nodes
func expandCompare(c *Ctx, s Svc, w World, pid string, g *Graph, roots []Sub) error {
	for _, root := range roots {
		for _, f := range formats {
			fail := func(format string, a ...any) error {
				return fmt.Errorf("Expand(%q, %v, %v): %s\nstate:\n%v", pid, root, f, fmt.Sprintf(format, a...), w)
			}
			resp, err := call(s, expandReq(pid, f, root))
			c.Evaluations++
			if w[pid] == nil {
				if err == nil {
					return fail("succeeded for an unknown policy")
				}
				continue
			}
			var want map[string]bool
			undef := false
			if root.K == 's' {
				if w[pid].Pol.Rel(root.R, root.L) == nil {
					if err == nil {
						return fail("succeeded for an undefined relation")
					}
					c.Outcome(ERR)
					continue
				}
				reach := g.Reach(node{Ent{root.R, root.I}, root.L})
				want, undef = reach.names(f), reach.Undef
			} else {
				want = map[string]bool{nodeName(f, root): true}
			}
			if err != nil {
				if !undef {
					return fail("failed: %v", err)
				}
				c.Outcome("undefined relation: " + ERR)
				continue
			}
			r := resp.(*api.ExpandResponse)
			if r.Format != f {
				return fail("response has format %v", r.Format)
			}
			ti, err := readTree(f, r.GoalTree)
			if err != nil {
				return fail("%v\n%s", err, r.GoalTree)
			}
			c.Outcome(fmt.Sprintf("%v %d nodes", f, len(ti.nodes)))
			if !ti.exact {
				continue
			}
			c.Nontrivial++
			for n := range ti.nodes {
				if !want[n] {
					return fail("shows %s, which is not reachable\n%s", n, r.GoalTree)
				}
			}
			if undef {
				continue
			}
			for n := range want {
				if !ti.nodes[n] {
					return fail("does not show %s\nreachable: %s\n%s", n, keysOf(want), r.GoalTree)
				}
			}
		}
	}
	return nil
}

func init() {
	register(&Check{ID: "C03", Level: "model_checking",
		Rule:  "every expression up to the leaf bound x every subset of the tuple universe x every query x every format: ExplainCheck compared with Check on the same state and with the reference semantics; the goal tree is parsed back (JSON, DOT grammar, SPEW) and its nodes compared with the reference reachability. Non-trivial: a tree was parsed and compared node by node.",
		Assum: []string{"the store is an in-memory KV owned by the harness", "reference semantics in harness/model.go", "DOT parser in harness/dot.go"},
		Run:   runC03})
	register(&Check{ID: "C04", Level: "model_checking",
		Rule:  "every expression up to the leaf bound x every subset of the tuple universe x every root x every format: the set of nodes in the parsed tree compared with the reference reachability. Non-trivial: the tree was parsed and compared.",
		Assum: []string{"the store is an in-memory KV owned by the harness", "reference reachability in harness/model.go", "DOT parser in harness/dot.go", "SPEW output is only compared if its nodes can be extracted"},
		Run:   runC04})
	register(&Check{ID: "C05", Level: "model_checking",
		Rule:  "every subset of tuple universes with every kind of subject, cycles and shared nodes, all reached by single writes; the parsed DOT graph compared with the model's relationship set as a multiset of labelled edges. Non-trivial: the set is not empty.",
		Assum: []string{"the store is an in-memory KV owned by the harness", "DOT parser in harness/dot.go"},
		Run:   runC05})
}

var awkward = []string{"1", `q"`, `b\`, `a\"b`, "<&>", "x y", "a:b", "a,b", "(", ")", "->", "{", "}", "é日", "*", "root", "\\n", "'", "[", "#", "//", "/*", "\"\"", "\t", "0", "=", ";", "%v", "$", "\\", "label",
	strings.Repeat("x", 300) + "1", strings.Repeat("x", 300) + "2", strings.Repeat("y ", 2500) + "1", strings.Repeat("y ", 2500) + "2"}

func c3Policy(v RelDef) *Pol {
	return polWith("p", ResDef{Name: "user"}, ResDef{Name: "group", Rels: []RelDef{rel("m", "_this")}},
		ResDef{Name: "doc", Rels: []RelDef{rel("a", "_this"), rel("b", "_this"), rel("parent", "_this"), v}})
}

func c3Tuples(c *Ctx) []Tup {
	tups := []Tup{
		T("doc", "1", "v", E("user", "u")),
		T("doc", "1", "a", S("group", "g", "m")),
		T("doc", "1", "b", W("user")),
		T("group", "g", "m", E("user", "u")),
		T("doc", "1", "parent", E("doc", "2")),
		T("doc", "2", "v", W("user")),
	}
	if c.Thorough {
		tups = append(tups, T("group", "g", "m", S("group", "g", "m")), T("doc", "2", "parent", E("doc", "1")))
	}
	return tups
}

// forStates walks over all states of the common families of C03 and C04
func forStates(c *Ctx, name string, exprs []*Expr, tups []Tup, f func(s Svc, w World, g *Graph) error) {
	c.Bounds_(name, "%d expressions x 2^%d relationship sets", len(exprs), len(tups))
	for i, e := range exprs {
		c.Case(func() string { return name + ": v = " + e.Text() }, func() error {
			d := RelDef{Name: "v", E: e, R: Any()}
			if i%2 == 1 {
				d = RelDef{Name: "v", Text: e.Text(), R: Any()}
			}
			p := c3Policy(d)
			s, w, err := start(p)
			if err != nil {
				return err
			}
			g := NewGraph(p, nil)
			c.Traces++
			err = grayWalk(c, s, w, "p", tups, func() error {
				g.SetRels(w["p"].Rels)
				c.State(e.Text() + fmtTups(w["p"].Rels))
				return f(s, w, g)
			})
			if err == nil {
				c.Sample("%v", w)
			}
			return err
		})
	}
}

var c3Leaves = []*Expr{This(), Cu("a"), Cu("b"), Ttu("parent", "a"), Ttu("parent", "v")}

func c3Exprs(c *Ctx) []*Expr {
	if c.Thorough {
		return upTo(c3Leaves, 3)
	}
	out := upTo(c3Leaves, 2)
	// three leaves: over three of the leaves
	return append(out, enumExprs([]*Expr{This(), Cu("a"), Ttu("parent", "v")}, 3)...)
}

func runC03(c *Ctx) {
	qs := []query{{node{Ent{"doc", "1"}, "v"}, Ent{"user", "u"}}, {node{Ent{"doc", "1"}, "v"}, Ent{"user", "x"}}, {node{Ent{"doc", "1"}, "none"}, Ent{"user", "u"}}}
	forStates(c, "A", c3Exprs(c), c3Tuples(c), func(s Svc, w World, g *Graph) error {
		return explainCompare(c, s, w, "p", g, qs)
	})
	awkwardIds(c, func(s Svc, w World, g *Graph, o, x string) error {
		qs := []query{{node{Ent{"doc", o}, "v"}, Ent{"user", x}}, {node{Ent{"doc", o}, "v"}, Ent{"user", "w" + x}}, {node{Ent{"doc", o}, "w"}, Ent{"user", x}}, {node{Ent{"doc", x}, "v"}, Ent{"user", o}}}
		return explainCompare(c, s, w, "p", g, qs)
	})
	cyclesAndSizes(c, func(s Svc, w World, g *Graph, root node, subs []Ent) error {
		for _, sub := range subs {
			if err := explainCompare(c, s, w, "p", g, []query{{root, sub}}); err != nil {
				return err
			}
		}
		return nil
	})
	// requests which fail
	c.Case(func() string { return "failing requests" }, func() error {
		p := c3Policy(rel("v", "_this + parent->nope"))
		s, w, err := start(p)
		if err != nil {
			return err
		}
		g := NewGraph(p, nil)
		for _, t := range []Tup{T("doc", "1", "parent", E("doc", "2")), T("doc", "3", "parent", W("doc")), T("doc", "1", "v", E("user", "u"))} {
			if err := Step(s, w, Op{K: KSet, Pid: "p", T: t}); err != nil {
				return err
			}
			g.SetRels(w["p"].Rels)
			for _, pid := range []string{"p", "none", "", "P"} {
				var qs []query
				for _, r := range []string{"doc", "user", "none", ""} {
					for _, i := range []string{"1", "2", "3", ""} {
						for _, l := range []string{"v", "a", "nope", ""} {
							for _, u := range []Ent{{"user", "u"}, {"doc", "2"}, {"none", "u"}} {
								qs = append(qs, query{node{Ent{r, i}, l}, u})
							}
						}
					}
				}
				if err := explainCompare(c, s, w, pid, g, qs); err != nil {
					return err
				}
			}
		}
		c.Traces++
		return nil
	})
	c.Case(func() string { return "undefined formats" }, func() error {
		s, w, err := start(c3Policy(rel("v", "_this")))
		if err != nil {
			return err
		}
		for _, f := range []api.ExplainFormat{3, 7, -1, 1 << 20} {
			o := Op{K: KExplain, Pid: "p", N: node{Ent{"doc", "1"}, "v"}, Sub: Ent{"user", "u"}, Fmt: f}
			if got, _ := o.RunErr(s); got != ERR {
				return fmt.Errorf("%v: %s\n%v", o, got, w)
			}
		}
		return nil
	})
	obs := func(s Svc, w World, pid string, g *Graph) error {
		return explainCompare(c, s, w, pid, g, histQueries)
	}
	histories(c, "histories", map[bool]int{false: 3, true: 4}[c.Thorough], obs)
	variants(c, "variants", obs)
	divided(c, "divided", func(s Svc, w World, pid string, g *Graph, tups []Tup) error {
		var qs []query
		for i, q := range dividedQueries(tups) {
			if i%7 == len(w[pid].Rels)%7 {
				qs = append(qs, q)
			}
		}
		return explainCompare(c, s, w, pid, g, qs)
	})
	dividedNodes(c, "divided sets", func(s Svc, w World, pid string, g *Graph, qs []query) error {
		return explainCompare(c, s, w, pid, g, qs)
	})
}

// awkwardIds: identifiers with characters which are special in the formats
func awkwardIds(c *Ctx, f func(s Svc, w World, g *Graph, o, x string) error) {
	c.Bounds_("identifiers", "all pairs of %d identifiers as object and subject ids", len(awkward))
	for _, o := range awkward {
		c.Case(func() string { return fmt.Sprintf("object id %q with every subject id", o) }, func() error {
			for _, x := range awkward {
				p := c3Policy(rel("v", "_this + parent->v"))
				p.Res[2].Rels = append(p.Res[2].Rels, rel("w", "v - a"))
				s, w, err := start(p)
				if err != nil {
					return err
				}
				g := NewGraph(p, nil)
				for _, t := range []Tup{T("doc", o, "v", E("user", x)), T("doc", o, "v", S("group", x, "m")), T("group", x, "m", E("user", "w"+x)), T("doc", o, "parent", E("doc", x)), T("doc", x, "v", E("user", o)), T("doc", o, "a", W("user"))} {
					if err := Step(s, w, Op{K: KSet, Pid: "p", T: t}); err != nil {
						return err
					}
					c.Transitions++
					g.SetRels(w["p"].Rels)
					c.State(fmtTups(w["p"].Rels))
					if err := f(s, w, g, o, x); err != nil {
						return err
					}
				}
				c.Traces++
			}
			return nil
		})
	}
	// resource and relation names
	c.Case(func() string { return "awkward resource and relation names" }, func() error {
		for _, a := range awkward {
			p := polWith("p", ResDef{Name: a, Rels: []RelDef{rel(a, "_this")}}, ResDef{Name: "z" + a, Rels: []RelDef{rel("y"+a, "_this")}})
			s, w, err := start(p)
			if err != nil {
				return err
			}
			g := NewGraph(p, nil)
			for _, t := range []Tup{T(a, "1", a, S("z"+a, "1", "y"+a)), T("z"+a, "1", "y"+a, E(a, "x")), T(a, "1", a, W("z"+a))} {
				if err := Step(s, w, Op{K: KSet, Pid: "p", T: t}); err != nil {
					return err
				}
				g.SetRels(w["p"].Rels)
				if err := explainCompare(c, s, w, "p", g, []query{{node{Ent{a, "1"}, a}, Ent{a, "x"}}, {node{Ent{a, "1"}, a}, Ent{"z" + a, "x"}}}); err != nil {
					return err
				}
				if err := expandCompare(c, s, w, "p", g, []Sub{S(a, "1", a)}); err != nil {
					return err
				}
				if err := Step(s, w, Op{K: KDump, Pid: "p"}); err != nil {
					return err
				}
			}
		}
		return nil
	})
}

// cyclesAndSizes: deep, wide, shared and cyclic graphs
func cyclesAndSizes(c *Ctx, f func(s Svc, w World, g *Graph, root node, subs []Ent) error) {
	ns := []int{1, 2, 3, 5, 8, 16, 17, 32, 33, 64, 65, 100, 128, 129}
	ns = append(ns, 200, 256, 257)
	if c.Thorough {
		ns = append(ns, 300, 400)
	}
	ns = append(ns, 500, 513, 1000, 1001, 1025) // chains and fans only
	c.Bounds_("sizes", "chains, fans, rings, ladders, cliques of sizes %v, from 500 chains and fans only", ns)
	for _, n := range ns {
		for kind := 0; kind < 6; kind++ {
			if kind == 5 && n > 17 || kind > 1 && n >= 500 {
				continue
			}
			c.Case(func() string { return fmt.Sprintf("graph shape %d of size %d", kind, n) }, func() error {
				p := polWith("p", ResDef{Name: "user"}, ResDef{Name: "g", Rels: []RelDef{rel("m", "_this"), rel("parent", "_this"), rel("v", "_this + parent->v"), rel("ban", "_this"), rel("f", "m - ban"), rel("h", "v & m")}})
				s, w, err := start(p)
				if err != nil {
					return err
				}
				id := func(i int) string { return fmt.Sprintf("n%d", i) }
				var ts []Tup
				root := node{Ent{"g", id(0)}, "m"}
				subs := []Ent{{"user", "u"}, {"user", "none"}}
				for i := 0; i < n; i++ {
					switch kind {
					case 0: // chain of sets
						ts = append(ts, T("g", id(i), "m", S("g", id(i+1), "m")))
					case 1: // fan
						ts = append(ts, T("g", id(0), "m", E("user", id(i))))
					case 2: // ring
						ts = append(ts, T("g", id(i), "m", S("g", id((i+1)%n), "m")))
					case 3: // chain of parents
						ts = append(ts, T("g", id(i), "parent", E("g", id(i+1))))
						root.L = "v"
					case 4: // ladder: each step has two ways
						ts = append(ts, T("g", id(i), "m", S("g", "x"+id(i), "m")), T("g", id(i), "m", S("g", "y"+id(i), "m")),
							T("g", "x"+id(i), "m", S("g", id(i+1), "m")), T("g", "y"+id(i), "m", S("g", id(i+1), "m")))
					case 5: // clique
						for j := 0; j < n; j++ {
							ts = append(ts, T("g", id(i), "m", S("g", id(j), "m")))
						}
					}
				}
				last := map[int]Tup{0: T("g", id(n), "m", E("user", "u")), 1: T("g", id(0), "m", E("user", "u")), 2: T("g", id(n-1), "m", E("user", "u")),
					3: T("g", id(n), "v", E("user", "u")), 4: T("g", id(n), "m", E("user", "u")), 5: T("g", id(n-1), "m", E("user", "u"))}[kind]
				ts = append(ts, last)
				for _, t := range ts {
					if err := Step1(s, w, Op{K: KSet, Pid: "p", T: t}); err != nil {
						return err
					}
					c.Transitions++
				}
				c.Tick()
				g := NewGraph(p, w["p"].Rels)
				c.State(fmt.Sprint(kind, " ", n))
				c.Traces++
				if err := f(s, w, g, root, subs); err != nil {
					return err
				}
				for _, l := range []string{"f", "h"} {
					root.L = l
					if err := f(s, w, g, root, subs); err != nil {
						return err
					}
				}
				return nil
			})
		}
	}
}

func runC04(c *Ctx) {
	roots := []Sub{S("doc", "1", "v"), S("doc", "2", "v"), S("doc", "1", "none"), E("user", "u"), W("user")}
	tups := c3Tuples(c)
	if !c.Thorough {
		tups = append(tups, T("doc", "2", "parent", E("doc", "1")))
	}
	forStates(c, "A", c3Exprs(c), tups, func(s Svc, w World, g *Graph) error {
		return expandCompare(c, s, w, "p", g, roots)
	})
	awkwardIds(c, func(s Svc, w World, g *Graph, o, x string) error {
		return expandCompare(c, s, w, "p", g, []Sub{S("doc", o, "v"), S("doc", o, "w"), S("doc", x, "v"), E("user", x)})
	})
	cyclesAndSizes(c, func(s Svc, w World, g *Graph, root node, subs []Ent) error {
		return expandCompare(c, s, w, "p", g, []Sub{S(root.O.R, root.O.I, root.L)})
	})
	c.Case(func() string { return "refused requests" }, func() error {
		p := c3Policy(rel("v", "_this + parent->nope"))
		s, w, err := start(p)
		if err != nil {
			return err
		}
		g := NewGraph(p, nil)
		for _, t := range []Tup{T("doc", "9", "v", E("user", "u")), T("doc", "1", "parent", E("doc", "2")), T("doc", "3", "parent", W("doc"))} {
			if err := Step(s, w, Op{K: KSet, Pid: "p", T: t}); err != nil {
				return err
			}
			g.SetRels(w["p"].Rels)
			var roots []Sub
			for _, r := range []string{"doc", "user", "none"} {
				for _, i := range []string{"1", "2", "3", "9"} {
					for _, l := range []string{"v", "a", "nope"} {
						roots = append(roots, S(r, i, l))
					}
				}
			}
			for _, pid := range []string{"p", "none", "", "P"} {
				if err := expandCompare(c, s, w, pid, g, roots); err != nil {
					return err
				}
			}
		}
		for _, f := range []api.ExplainFormat{3, 7, -1} {
			if _, err := call(s, expandReq("p", f, S("doc", "1", "v"))); err == nil {
				return fmt.Errorf("Expand with format %v succeeded", f)
			}
		}
		c.Traces++
		return nil
	})
	obs := func(s Svc, w World, pid string, g *Graph) error {
		return expandCompare(c, s, w, pid, g, []Sub{S("doc", "1", "v"), S("doc", "1", "b")})
	}
	histories(c, "histories", map[bool]int{false: 3, true: 4}[c.Thorough], obs)
	variants(c, "variants", obs)
	divided(c, "divided", func(s Svc, w World, pid string, g *Graph, tups []Tup) error {
		var roots []Sub
		for _, t := range tups {
			roots = append(roots, S(t.O.R, t.O.I, t.L))
		}
		return expandCompare(c, s, w, pid, g, roots)
	})
	dividedNodes(c, "divided sets", func(s Svc, w World, pid string, g *Graph, qs []query) error {
		var roots []Sub
		for _, q := range qs {
			roots = append(roots, S(q.n.O.R, q.n.O.I, q.n.L))
		}
		return expandCompare(c, s, w, pid, g, roots)
	})
}

func runC05(c *Ctx) {
	tups := []Tup{
		T("doc", "1", "v", E("user", "u")), T("doc", "1", "v", W("user")), T("doc", "1", "v", S("group", "g", "m")),
		T("group", "g", "m", E("user", "u")), T("group", "g", "m", S("group", "h", "m")), T("group", "h", "m", S("group", "g", "m")),
		T("doc", "1", "parent", E("doc", "2")), T("doc", "2", "parent", E("doc", "1")), T("group", "h", "m", S("group", "h", "m")),
		T("doc", "2", "v", W("user")), T("doc", "2", "v", S("doc", "1", "v")), T("doc", "1", "a", E("user", "u")),
	}
	if c.Thorough {
		tups = append(tups, T("doc", "1", "v", E("group", "g")), T("doc", "1", "parent", E("doc", "1")), T("group", "g", "m", W("group")))
	}
	split := 5
	c.Bounds_("A", "2^%d relationship sets; two policies", len(tups))
	other := c3Policy(rel("v", "_this"))
	other.ID = "q"
	for fix := 0; fix < 1<<split; fix++ {
		c.Case(func() string { return fmt.Sprintf("first relationships %05b", fix) }, func() error {
			p := c3Policy(rel("v", "_this + parent->v - a"))
			s, w, err := start(p)
			if err != nil {
				return err
			}
			for _, o := range []Op{{K: KCreate, Pol: other}, {K: KSet, Pid: "q", T: T("doc", "q", "v", E("user", "q"))}} {
				if err := Step(s, w, o); err != nil {
					return err
				}
			}
			for b := 0; b < split; b++ {
				if fix>>b&1 == 1 {
					if err := Step(s, w, Op{K: KSet, Pid: "p", T: tups[b]}); err != nil {
						return err
					}
				}
			}
			c.Traces++
			return grayWalk(c, s, w, "p", tups[split:], func() error {
				c.State(fmtTups(w["p"].Rels))
				c.Outcome(fmt.Sprintf("%d edges", len(w["p"].Rels)))
				c.Evaluations++
				if len(w["p"].Rels) > 0 {
					c.Nontrivial++
				}
				if err := Step1(s, w, Op{K: KDump, Pid: "p"}); err != nil {
					return err
				}
				return Step1(s, w, Op{K: KDump, Pid: "q"})
			})
		})
	}
	awkwardIds(c, func(s Svc, w World, g *Graph, o, x string) error {
		c.Evaluations++
		c.Nontrivial++
		return Step(s, w, Op{K: KDump, Pid: "p"})
	})
	cyclesAndSizes(c, func(s Svc, w World, g *Graph, root node, subs []Ent) error {
		c.Evaluations++
		c.Nontrivial++
		return Step1(s, w, Op{K: KDump, Pid: "p"})
	})
	// many components: number of relationships, each on its own
	c.Case(func() string { return "1..150 disconnected relationships" }, func() error {
		s, w, err := start(c3Policy(rel("v", "_this")))
		if err != nil {
			return err
		}
		for i := 0; i < 150; i++ {
			t := T("doc", fmt.Sprint(i), []string{"v", "a", "parent"}[i%3], []Sub{E("user", fmt.Sprint(i)), W("user"), S("group", fmt.Sprint(i), "m")}[i/3%3])
			if err := Step1(s, w, Op{K: KSet, Pid: "p", T: t}); err != nil {
				return err
			}
			c.Tick()
			c.Transitions++
			c.Evaluations++
			if err := Step1(s, w, Op{K: KDump, Pid: "p"}); err != nil {
				return err
			}
		}
		c.Traces++
		return nil
	})
	c.Case(func() string { return "unknown policies and formats, updated policies" }, func() error {
		s, w, err := start(c3Policy(rel("v", "_this")))
		if err != nil {
			return err
		}
		for _, pid := range []string{"", "P", "pp", "q", "p "} {
			if err := Step(s, w, Op{K: KDump, Pid: pid}); err != nil {
				return err
			}
		}
		for _, f := range []api.DumpRelationshipsRequest_DumpFormat{1, -1, 9} {
			if m, err := call(s, &api.DumpRelationshipsRequest{PolicyId: "p", Format: f}); err == nil {
				return fmt.Errorf("dump with format %v: %v", f, m)
			}
		}
		// relationships whose resource or relation the policy no longer defines stay listed
		if err := Step(s, w, Op{K: KSet, Pid: "p", T: T("doc", "1", "v", S("group", "g", "m"))}); err != nil {
			return err
		}
		if err := Step(s, w, Op{K: KUpdate, Pid: "p", Pol: polWith("p", ResDef{Name: "user"})}); err != nil {
			return err
		}
		return Step(s, w, Op{K: KDump, Pid: "p"})
	})
	obs := histSteps(c, func(pid string) []Op { return []Op{{K: KDump, Pid: pid}} })
	histories(c, "histories", 4, obs)
	variants(c, "variants", obs)
	divided(c, "divided", func(s Svc, w World, pid string, g *Graph, tups []Tup) error { return obs(s, w, pid, g) })
	dividedNodes(c, "divided sets", func(s Svc, w World, pid string, g *Graph, qs []query) error { return obs(s, w, pid, g) })
}
