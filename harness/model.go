package main

import (
	"fmt"
	"sort"
	"strings"
	"unicode"

	"github.com/sourcenetwork/zanzi/pkg/domain"
)

// ---- plain data types ----

type Ent struct{ R, I string }

// Sub is a subject: K is 'e' (entity), 's' (entity set) or 'w' (all entities of a resource)
type Sub struct {
	K       byte
	R, I, L string
}

type Tup struct {
	O Ent
	L string
	S Sub
}

func E(r, i string) Sub      { return Sub{K: 'e', R: r, I: i} }
func S(r, i, l string) Sub   { return Sub{K: 's', R: r, I: i, L: l} }
func W(r string) Sub         { return Sub{K: 'w', R: r} }
func (e Ent) String() string { return fmt.Sprintf("%q:%q", e.R, e.I) }
func (s Sub) String() string {
	switch s.K {
	case 'e':
		return fmt.Sprintf("%q:%q", s.R, s.I)
	case 's':
		return fmt.Sprintf("%q:%q#%q", s.R, s.I, s.L)
	case 'w':
		return fmt.Sprintf("%q:*", s.R)
	}
	return "?"
}
func (t Tup) String() string      { return fmt.Sprintf("%v#%q@%v", t.O, t.L, t.S) }
func T(r, i, l string, s Sub) Tup { return Tup{Ent{r, i}, l, s} }

func (e Ent) Proto() *domain.Entity { return &domain.Entity{Resource: e.R, Id: e.I} }
func (s Sub) Proto() *domain.Subject {
	switch s.K {
	case 'e':
		return &domain.Subject{Subject: &domain.Subject_Entity{Entity: &domain.Entity{Resource: s.R, Id: s.I}}}
	case 's':
		return &domain.Subject{Subject: &domain.Subject_EntitySet{EntitySet: &domain.EntitySet{
			Entity: &domain.Entity{Resource: s.R, Id: s.I}, Relation: s.L}}}
	case 'w':
		return &domain.Subject{Subject: &domain.Subject_ResourceSet{ResourceSet: &domain.ResourceSet{ResourceName: s.R}}}
	}
	return &domain.Subject{}
}
func (t Tup) Proto() *domain.Relationship {
	return &domain.Relationship{Object: t.O.Proto(), Relation: t.L, Subject: t.S.Proto()}
}
func tupFromProto(r *domain.Relationship) (Tup, error) {
	if r == nil || r.Object == nil || r.Subject == nil {
		return Tup{}, fmt.Errorf("incomplete relationship %v", r)
	}
	t := Tup{O: Ent{r.Object.Resource, r.Object.Id}, L: r.Relation}
	switch s := r.Subject.Subject.(type) {
	case *domain.Subject_Entity:
		t.S = E(s.Entity.GetResource(), s.Entity.GetId())
	case *domain.Subject_EntitySet:
		t.S = S(s.EntitySet.GetEntity().GetResource(), s.EntitySet.GetEntity().GetId(), s.EntitySet.GetRelation())
	case *domain.Subject_ResourceSet:
		t.S = W(s.ResourceSet.GetResourceName())
	default:
		return t, fmt.Errorf("incomplete subject %v", r)
	}
	return t, nil
}

// ---- relation expressions ----

// Expr is a leaf (K: 't' _this, 'c' computed userset A, 'x' tuple to userset A->B) or an operation
type Expr struct {
	Op   byte
	L, R *Expr
	K    byte
	A, B string
}

func This() *Expr                         { return &Expr{K: 't'} }
func Cu(a string) *Expr                   { return &Expr{K: 'c', A: a} }
func Ttu(a, b string) *Expr               { return &Expr{K: 'x', A: a, B: b} }
func Bin(l *Expr, op byte, r *Expr) *Expr { return &Expr{Op: op, L: l, R: r} }

// Text is the textual form; without parentheses where left associativity makes them unnecessary
func (e *Expr) Text() string {
	switch e.K {
	case 't':
		return "_this"
	case 'c':
		return e.A
	case 'x':
		return e.A + "->" + e.B
	}
	r := e.R.Text()
	if e.R.Op != 0 {
		r = "(" + r + ")"
	}
	return e.L.Text() + " " + string(e.Op) + " " + r
}

func (e *Expr) Proto() *domain.RelationExpressionTree {
	switch e.K {
	case 't':
		return domain.ThisNode()
	case 'c':
		return domain.CUNode(e.A)
	case 'x':
		return domain.TTUNode(e.A, e.B)
	}
	op := map[byte]domain.Operator{'+': domain.Operator_UNION, '&': domain.Operator_INTERSECTION, '-': domain.Operator_DIFFERENCE}[e.Op]
	return domain.NewOpNode(e.L.Proto(), op, e.R.Proto())
}

func (e *Expr) leaves(f func(*Expr)) {
	if e.Op == 0 {
		f(e)
		return
	}
	e.L.leaves(f)
	e.R.leaves(f)
}

type tok struct {
	k byte // t _this, i identifier, > arrow, + & - ( )
	s string
}

// lex and parseExpr are the reference implementation of the documented expression language
func lex(s string) ([]tok, bool) {
	var out []tok
	rs := []rune(s)
	isId := func(r rune) bool { return unicode.IsLetter(r) || unicode.IsDigit(r) || r == '_' }
	for i := 0; i < len(rs); {
		r := rs[i]
		switch {
		case unicode.IsSpace(r):
			i++
		case r == '(' || r == ')' || r == '+' || r == '&':
			out = append(out, tok{k: byte(r)})
			i++
		case r == '-':
			if i+1 < len(rs) && rs[i+1] == '>' {
				out = append(out, tok{k: '>'})
				i += 2
			} else {
				out = append(out, tok{k: '-'})
				i++
			}
		case isId(r):
			j := i
			for j < len(rs) && isId(rs[j]) {
				j++
			}
			w := string(rs[i:j])
			if w == "_this" {
				out = append(out, tok{k: 't'})
			} else {
				out = append(out, tok{k: 'i', s: w})
			}
			i = j
		default:
			return nil, false
		}
	}
	return out, true
}

func parseExpr(s string) (*Expr, bool) {
	ts, ok := lex(s)
	if !ok {
		return nil, false
	}
	return parseToks(ts)
}

func parseToks(ts []tok) (*Expr, bool) {
	p := &rdParser{ts: ts}
	e := p.expr()
	if e == nil || p.i != len(ts) {
		return nil, false
	}
	return e, true
}

type rdParser struct {
	ts []tok
	i  int
}

func (p *rdParser) peek() byte {
	if p.i < len(p.ts) {
		return p.ts[p.i].k
	}
	return 0
}
func (p *rdParser) expr() *Expr {
	l := p.term()
	for l != nil {
		op := p.peek()
		if op != '+' && op != '&' && op != '-' {
			return l
		}
		p.i++
		r := p.term()
		if r == nil {
			return nil
		}
		l = Bin(l, op, r)
	}
	return nil
}
func (p *rdParser) term() *Expr {
	switch p.peek() {
	case 't':
		p.i++
		return This()
	case 'i':
		a := p.ts[p.i].s
		p.i++
		if p.peek() != '>' {
			return Cu(a)
		}
		p.i++
		if p.peek() != 'i' {
			return nil
		}
		b := p.ts[p.i].s
		p.i++
		return Ttu(a, b)
	case '(':
		p.i++
		e := p.expr()
		if e == nil || p.peek() != ')' {
			return nil
		}
		p.i++
		return e
	}
	return nil
}

// ---- policies ----

type RItem struct {
	Res, Rel string
	Set      bool
}
type Restr struct {
	None, Universal bool
	Items           []RItem
}

func Any() Restr                { return Restr{Universal: true} }
func Only(items ...RItem) Restr { return Restr{Items: items} }

type RelDef struct {
	Name, Doc string
	E         *Expr  // used when Text is empty
	Text      string // textual expression
	NoExpr    bool   // no expression at all
	R         Restr
}
type ResDef struct {
	Name, Doc string
	Rels      []RelDef
}
type Pol struct {
	ID, Name, Doc string
	Attrs         map[string]string
	Res           []ResDef
}

func (r *Restr) Proto() *domain.SubjectRestriction {
	if r.None {
		return nil
	}
	if r.Universal {
		return &domain.SubjectRestriction{SubjectRestriction: &domain.SubjectRestriction_UniversalSet{UniversalSet: &domain.UniversalSet{}}}
	}
	set := &domain.SubjectRestrictionSet{}
	for _, it := range r.Items {
		if it.Set {
			set.Restrictions = append(set.Restrictions, &domain.SubjectRestrictionSet_Restriction{
				Entry: &domain.SubjectRestrictionSet_Restriction_EntitySet{EntitySet: &domain.EntitySetRestriction{ResourceName: it.Res, RelationName: it.Rel}}})
		} else {
			set.Restrictions = append(set.Restrictions, &domain.SubjectRestrictionSet_Restriction{
				Entry: &domain.SubjectRestrictionSet_Restriction_Entity{Entity: &domain.EntityRestriction{ResourceName: it.Res}}})
		}
	}
	return &domain.SubjectRestriction{SubjectRestriction: &domain.SubjectRestriction_RestrictionSet{RestrictionSet: set}}
}

func (p *Pol) Proto() *domain.Policy {
	out := &domain.Policy{Id: p.ID, Name: p.Name, Description: p.Doc}
	if p.Attrs != nil {
		out.Attributes = map[string]string{}
		for k, v := range p.Attrs {
			out.Attributes[k] = v
		}
	}
	for i := range p.Res {
		r := &p.Res[i]
		res := &domain.Resource{Name: r.Name, Description: r.Doc}
		for j := range r.Rels {
			d := &r.Rels[j]
			rel := &domain.Relation{Name: d.Name, Description: d.Doc, SubjectRestriction: d.R.Proto()}
			switch {
			case d.NoExpr:
			case d.E != nil:
				rel.RelationExpression = &domain.RelationExpression{Expression: &domain.RelationExpression_Tree{Tree: d.E.Proto()}}
			default:
				rel.RelationExpression = &domain.RelationExpression{Expression: &domain.RelationExpression_Expr{Expr: d.Text}}
			}
			res.Relations = append(res.Relations, rel)
		}
		out.Resources = append(out.Resources, res)
	}
	return out
}

// Expr returns the expression of a relation
func (d *RelDef) Expr() (*Expr, bool) {
	if d.NoExpr {
		return nil, false
	}
	if d.E != nil {
		return d.E, true
	}
	return parseExpr(d.Text)
}

func (p *Pol) HasRes(r string) bool {
	for i := range p.Res {
		if p.Res[i].Name == r {
			return true
		}
	}
	return false
}
func (p *Pol) Rel(r, l string) *RelDef {
	for i := range p.Res {
		if p.Res[i].Name == r {
			for j := range p.Res[i].Rels {
				if p.Res[i].Rels[j].Name == l {
					return &p.Res[i].Rels[j]
				}
			}
		}
	}
	return nil
}

// Valid is the reference policy validation
func (p *Pol) Valid() bool {
	if p.ID == "" {
		return false
	}
	seen := map[string]bool{}
	for i := range p.Res {
		r := &p.Res[i]
		if r.Name == "" || seen[r.Name] {
			return false
		}
		seen[r.Name] = true
		seenRel := map[string]bool{}
		for j := range r.Rels {
			d := &r.Rels[j]
			if d.Name == "" || seenRel[d.Name] {
				return false
			}
			seenRel[d.Name] = true
		}
	}
	for i := range p.Res {
		r := &p.Res[i]
		for j := range r.Rels {
			d := &r.Rels[j]
			e, ok := d.Expr()
			if !ok {
				return false
			}
			ok = true
			e.leaves(func(l *Expr) {
				if (l.K == 'c' || l.K == 'x') && p.Rel(r.Name, l.A) == nil {
					ok = false
				}
			})
			if !ok {
				return false
			}
			for _, it := range d.R.Items {
				if it.Set && p.Rel(it.Res, it.Rel) == nil || !it.Set && !p.HasRes(it.Res) {
					return false
				}
			}
		}
	}
	return true
}

// Admits is the reference decision on whether a relationship may be stored.
// unspecified is true if the property leaves it open.
func (p *Pol) Admits(t Tup) (ok, unspecified bool) {
	if t.O.R == "" || t.O.I == "" || t.L == "" || t.S.R == "" {
		return false, false
	}
	d := p.Rel(t.O.R, t.L)
	if d == nil {
		return false, false
	}
	switch t.S.K {
	case 'e':
		if t.S.I == "" || !p.HasRes(t.S.R) {
			return false, false
		}
	case 's':
		if t.S.I == "" || t.S.L == "" || p.Rel(t.S.R, t.S.L) == nil {
			return false, false
		}
	case 'w':
		if !p.HasRes(t.S.R) {
			return false, false
		}
	default:
		return false, false
	}
	if d.R.None {
		return false, true
	}
	if d.R.Universal {
		return true, false
	}
	for _, it := range d.R.Items {
		if t.S.K == 's' && it.Set && it.Res == t.S.R && it.Rel == t.S.L {
			return true, false
		}
		if t.S.K != 's' && !it.Set && it.Res == t.S.R {
			return true, false
		}
	}
	return false, false
}

// ---- state of one policy, and the semantics of Check ----

type PState struct {
	Pol  *Pol
	Data string
	Rels map[Tup]string
}

type node struct {
	O Ent
	L string
}

// Graph is an indexed snapshot of a policy's relationships
type Graph struct {
	pol   *Pol
	exprs map[[2]string]*Expr
	succ  map[node][]Sub
}

func NewGraph(p *Pol, rels map[Tup]string) *Graph {
	g := &Graph{pol: p, exprs: map[[2]string]*Expr{}, succ: map[node][]Sub{}}
	for i := range p.Res {
		for j := range p.Res[i].Rels {
			d := &p.Res[i].Rels[j]
			e, _ := d.Expr()
			g.exprs[[2]string{p.Res[i].Name, d.Name}] = e
		}
	}
	for t := range rels {
		n := node{t.O, t.L}
		g.succ[n] = append(g.succ[n], t.S)
	}
	return g
}

func (g *Graph) SetRels(rels map[Tup]string) {
	g.succ = map[node][]Sub{}
	for t := range rels {
		n := node{t.O, t.L}
		g.succ[n] = append(g.succ[n], t.S)
	}
}

// Reach is everything reachable from a node by the rewrite rules
type Reach struct {
	Nodes map[node]bool // entity sets
	Ents  map[Ent]bool
	Wild  map[string]bool
	Undef bool // an undefined relation, or a wildcard in a tupleset, was met
}

func (g *Graph) Reach(root node) *Reach {
	r := &Reach{map[node]bool{}, map[Ent]bool{}, map[string]bool{}, false}
	stack := []node{root}
	r.Nodes[root] = true
	push := func(n node) {
		if !r.Nodes[n] {
			r.Nodes[n] = true
			stack = append(stack, n)
		}
	}
	for len(stack) > 0 {
		n := stack[len(stack)-1]
		stack = stack[:len(stack)-1]
		e := g.exprs[[2]string{n.O.R, n.L}]
		if e == nil {
			r.Undef = true
			continue
		}
		e.leaves(func(l *Expr) {
			switch l.K {
			case 't':
				for _, s := range g.succ[n] {
					switch s.K {
					case 'e':
						r.Ents[Ent{s.R, s.I}] = true
					case 's':
						push(node{Ent{s.R, s.I}, s.L})
					case 'w':
						r.Wild[s.R] = true
					}
				}
			case 'c':
				push(node{n.O, l.A})
			case 'x':
				for _, s := range g.succ[node{n.O, l.A}] {
					if s.K == 'w' {
						r.Undef = true
					} else {
						push(node{Ent{s.R, s.I}, l.B})
					}
				}
			}
		})
	}
	return r
}

type Verdict struct {
	Auth  bool
	Undef bool // some needed relation is undefined: errors are allowed
	Unstr bool // recursion through difference: anything goes
}

// Check is the reference semantics: the least fixpoint, stratum by stratum.
func (g *Graph) Check(root node, sub Ent) Verdict {
	// ground graph
	type gnode struct {
		n    node
		e    *Expr
		deps []int // of the leaves in order, -1 terminated per leaf
		low  int
		num  int
		on   bool
	}
	idx := map[node]int{}
	var ns []*gnode
	v := Verdict{}
	get := func(n node) int {
		if i, ok := idx[n]; ok {
			return i
		}
		i := len(ns)
		idx[n] = i
		ns = append(ns, &gnode{n: n, e: g.exprs[[2]string{n.O.R, n.L}], num: -1})
		return i
	}
	get(root)
	type leafInfo struct {
		hit  bool
		deps []int
	}
	info := []map[*Expr]*leafInfo{}
	neg := []map[int]bool{} // dependencies through the right-hand side of a difference
	for i := 0; i < len(ns); i++ {
		x := ns[i]
		m := map[*Expr]*leafInfo{}
		ng := map[int]bool{}
		info = append(info, m)
		neg = append(neg, ng)
		if x.e == nil {
			v.Undef = true
			continue
		}
		var walk func(e *Expr, inNeg bool)
		walk = func(e *Expr, inNeg bool) {
			if e.Op != 0 {
				walk(e.L, inNeg)
				walk(e.R, inNeg || e.Op == '-')
				return
			}
			li := m[e]
			if li == nil {
				li = &leafInfo{}
				m[e] = li
			}
			dep := func(n node) {
				j := get(n)
				li.deps = append(li.deps, j)
				x.deps = append(x.deps, j)
				if inNeg {
					ng[j] = true
				}
			}
			switch e.K {
			case 't':
				for _, s := range g.succ[x.n] {
					switch s.K {
					case 'e':
						if s.R == sub.R && s.I == sub.I {
							li.hit = true
						}
					case 'w':
						if s.R == sub.R {
							li.hit = true
						}
					case 's':
						dep(node{Ent{s.R, s.I}, s.L})
					}
				}
			case 'c':
				dep(node{x.n.O, e.A})
			case 'x':
				for _, s := range g.succ[node{x.n.O, e.A}] {
					if s.K == 'w' {
						v.Undef = true
					} else {
						dep(node{Ent{s.R, s.I}, e.B})
					}
				}
			}
		}
		walk(x.e, false)
	}
	val := make([]bool, len(ns))
	comp := make([]int, len(ns))
	for i := range comp {
		comp[i] = -1
	}
	var eval func(i int, e *Expr) bool
	eval = func(i int, e *Expr) bool {
		switch e.Op {
		case '+':
			return eval(i, e.L) || eval(i, e.R)
		case '&':
			return eval(i, e.L) && eval(i, e.R)
		case '-':
			return eval(i, e.L) && !eval(i, e.R)
		}
		li := info[i][e]
		if li.hit {
			return true
		}
		for _, j := range li.deps {
			if val[j] {
				return true
			}
		}
		return false
	}
	// Tarjan, iterative: components come out in dependency order
	num := 0
	var stack []int
	type frame struct{ i, k int }
	for s := range ns {
		if ns[s].num >= 0 {
			continue
		}
		fr := []frame{{s, 0}}
		ns[s].num, ns[s].low, ns[s].on = num, num, true
		num++
		stack = append(stack, s)
		for len(fr) > 0 {
			f := &fr[len(fr)-1]
			x := ns[f.i]
			if f.k < len(x.deps) {
				j := x.deps[f.k]
				f.k++
				y := ns[j]
				if y.num < 0 {
					y.num, y.low, y.on = num, num, true
					num++
					stack = append(stack, j)
					fr = append(fr, frame{j, 0})
				} else if y.on && y.num < x.low {
					x.low = y.num
				}
				continue
			}
			if x.low == x.num {
				var c []int
				for {
					j := stack[len(stack)-1]
					stack = stack[:len(stack)-1]
					ns[j].on = false
					comp[j] = f.i
					c = append(c, j)
					if j == f.i {
						break
					}
				}
				for _, a := range c {
					for b := range neg[a] {
						if comp[b] == f.i {
							v.Unstr = true
						}
					}
				}
				for changed := true; changed; {
					changed = false
					for _, a := range c {
						if !val[a] && ns[a].e != nil && eval(a, ns[a].e) {
							val[a] = true
							changed = true
						}
					}
				}
			}
			i := f.i
			fr = fr[:len(fr)-1]
			if len(fr) > 0 {
				p := ns[fr[len(fr)-1].i]
				if ns[i].low < p.low {
					p.low = ns[i].low
				}
			}
		}
	}
	v.Auth = val[0]
	return v
}

func sortedTups(m map[Tup]string) []Tup {
	var out []Tup
	for t := range m {
		out = append(out, t)
	}
	sort.Slice(out, func(i, j int) bool { return out[i].String() < out[j].String() })
	return out
}

func fmtTups(m map[Tup]string) string {
	var b strings.Builder
	for _, t := range sortedTups(m) {
		fmt.Fprintf(&b, "  %v data=%q\n", t, m[t])
	}
	return b.String()
}

func (p *Pol) String() string {
	var b strings.Builder
	fmt.Fprintf(&b, "policy %q name=%q doc=%q attrs=%v\n", p.ID, p.Name, p.Doc, p.Attrs)
	for _, r := range p.Res {
		fmt.Fprintf(&b, "  resource %q doc=%q\n", r.Name, r.Doc)
		for _, d := range r.Rels {
			form := "text"
			t := d.Text
			if d.E != nil {
				form, t = "tree", d.E.Text()
			}
			if d.NoExpr {
				form = "none"
			}
			fmt.Fprintf(&b, "    relation %q doc=%q %s=%q restriction=%+v\n", d.Name, d.Doc, form, t, d.R)
		}
	}
	return b.String()
}
