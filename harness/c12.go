package main

import (
	"fmt"
	"strings"
	"unicode/utf8"

	"google.golang.org/protobuf/proto"

	"github.com/sourcenetwork/zanzi/pkg/api"
	"github.com/sourcenetwork/zanzi/pkg/domain"
	"github.com/sourcenetwork/zanzi/pkg/policy_definition"
)

func init() {
	register(&Check{ID: "C12", Level: "model_checking",
		Rule:  "all token strings up to the length bound, all strings up to a length bound over an alphabet of special characters, single characters of a unicode range in several contexts, white-space variants: acceptance by CreatePolicy compared with a reference lexer and parser; the set denoted by each accepted expression compared by Check on all 2^7 memberships of its possible operands; printed trees parsed back. Non-trivial: the text is in the language.",
		Assum: []string{"reference lexer and parser in harness/model.go", "valid UTF-8 only"},
		Run:   runC12})
	register(&Check{ID: "C13", Level: "model_checking",
		Rule:  "every policy of a bounded family in every order of keys, quoting style and flow or block style: the stored policy compared byte for byte between renderings and, up to the order of resources and relations, with the structured form; every list of type entries up to the bound; unknown fields at every level; malformed documents. Non-trivial: accepted and compared with the structured form.",
		Assum: []string{"the YAML renderer in harness/yaml.go and harness/c12.go"},
		Run:   runC13})
}

// acceptText tells whether a policy with the expression, and relations of all given names, is accepted
func acceptText(text string, ids []string) (bool, error) {
	s := NewSys(NewSpyKV())
	p := polWith("p", ResDef{Name: "r"})
	for _, id := range ids {
		p.Res[0].Rels = append(p.Res[0].Rels, rel(id, "_this"))
	}
	p.Res[0].Rels = append(p.Res[0].Rels, rel("the relation", text))
	_, err := call(s, Op{K: KCreate, Pol: p}.Req())
	return err == nil, err
}

// words lists every identifier which some reading of the text could contain
func words(text string) []string {
	var keep []rune
	for _, r := range text {
		if !strings.ContainsRune("()+&-> \t\n\r", r) {
			keep = append(keep, r)
		}
	}
	seen := map[string]bool{}
	var out []string
	for i := range keep {
		for j := i + 1; j <= len(keep) && j-i <= 8; j++ {
			w := string(keep[i:j])
			if !seen[w] {
				seen[w] = true
				out = append(out, w)
			}
		}
	}
	return out
}

func compareText(c *Ctx, text string) error {
	e, want := parseExpr(text)
	ids := words(text)
	if want {
		// exactly the identifiers of the expression
		seen := map[string]bool{}
		ids = nil
		e.leaves(func(l *Expr) {
			for _, a := range []string{l.A, l.B} {
				if a != "" && !seen[a] {
					seen[a] = true
					ids = append(ids, a)
				}
			}
		})
	}
	got, err := acceptText(text, ids)
	c.Evaluations++
	c.Outcome(fmt.Sprintf("accepted=%v", got))
	if want {
		c.Nontrivial++
		c.State(text)
	}
	if got != want {
		return fmt.Errorf("expression %q: accepted: %v (error: %v), but in the language: %v", text, got, err, want)
	}
	return nil
}

// meaning compares the sets denoted by the texts (or trees) with the expressions, on all memberships of seven operands
func meaning(c *Ctx, texts []string, trees []*Expr, exprs []*Expr) error {
	leaves := []*Expr{This(), Cu("a"), Cu("b"), Ttu("a", "a"), Ttu("a", "b"), Ttu("b", "a"), Ttu("b", "b")}
	ab := func() []RelDef { return []RelDef{rel("a", "_this"), rel("b", "_this")} }
	p := polWith("p", ResDef{Name: "u", Rels: ab()}, ResDef{Name: "o", Rels: ab()})
	n := len(exprs)
	name := func(i int) string { return fmt.Sprint("e", i) }
	for i := 0; i < n; i++ {
		d := RelDef{Name: name(i), R: Any()}
		if texts != nil {
			d.Text = texts[i]
		} else {
			d.E = trees[i]
		}
		p.Res[1].Rels = append(p.Res[1].Rels, d)
	}
	s := NewSys(NewSpyKV())
	w := World{p.ID: &PState{Pol: p, Rels: map[Tup]string{}}}
	if _, err := call(s, Op{K: KCreate, Pol: p}.Req()); err != nil {
		return fmt.Errorf("%v\n%v", err, p)
	}
	u := E("u", "u")
	set := func(k Kind, t Tup) error { return Step1(s, w, Op{K: k, Pid: "p", T: t}) }
	for _, t := range []Tup{T("o", "1", "a", E("o", "A")), T("o", "1", "b", E("o", "B"))} {
		if err := set(KSet, t); err != nil {
			return err
		}
	}
	toggle := func(b int, k Kind) error {
		switch b {
		case 0:
			for i := 0; i < n; i++ {
				if err := set(k, T("o", "1", name(i), u)); err != nil {
					return err
				}
			}
			return nil
		case 1, 2:
			return set(k, T("o", "1", leaves[b].A, u))
		}
		return set(k, T("o", strings.ToUpper(leaves[b].A), leaves[b].B, u))
	}
	in := make([]bool, 7)
	var eval func(e *Expr) bool
	eval = func(e *Expr) bool {
		switch e.Op {
		case '+':
			return eval(e.L) || eval(e.R)
		case '&':
			return eval(e.L) && eval(e.R)
		case '-':
			return eval(e.L) && !eval(e.R)
		}
		for i, l := range leaves {
			if *l == *e {
				return in[i]
			}
		}
		panic("leaf " + e.Text())
	}
	check := func() error {
		for i := 0; i < n; i++ {
			o := Op{K: KCheck, Pid: "p", N: node{Ent{"o", "1"}, name(i)}, Sub: Ent{"u", "u"}}
			got, err := o.RunErr(s)
			c.Evaluations++
			c.Nontrivial++
			if want := fmt.Sprintf("authorized=%v", eval(exprs[i])); got != want {
				src := ""
				if texts != nil {
					src = texts[i]
				} else {
					src = "tree " + trees[i].Text()
				}
				return fmt.Errorf("expression %q, subject in %s: Check answers %s (error: %v), expected %s", src, inLeaves(leaves, in), got, err, want)
			}
		}
		return nil
	}
	if err := check(); err != nil {
		return err
	}
	for i := uint(1); i < 128; i++ {
		b := 0
		for i>>b&1 == 0 {
			b++
		}
		// the costly toggle of _this last
		b = 6 - b
		k := KSet
		if in[b] {
			k = KDel
		}
		if err := toggle(b, k); err != nil {
			return err
		}
		in[b] = !in[b]
		c.Transitions++
		c.Tick()
		if err := check(); err != nil {
			return err
		}
	}
	c.Traces += int64(n)
	return nil
}

func inLeaves(leaves []*Expr, in []bool) string {
	var out []string
	for i, l := range leaves {
		if in[i] {
			out = append(out, l.Text())
		}
	}
	return "{" + strings.Join(out, ", ") + "}"
}

func runC12(c *Ctx) {
	toks := []string{"_this", "a", "b", "->", "+", "&", "-", "(", ")"}
	max := 6
	if c.Thorough {
		max = 7
	}
	c.Bounds_("A", "all strings of up to %d tokens of %v", max, toks)
	// acceptance; accepted ones are collected for the comparison of meanings
	for n := 0; n <= max; n++ {
		pre := min(n, 3)
		product(len(toks), pre, func(first []int) bool {
			head := append([]int{}, first...)
			c.Case(func() string { return fmt.Sprintf("token strings of length %d starting %v", n, head) }, func() error {
				var res error
				var ok []string
				cnt := 0
				product(len(toks), n-pre, func(rest []int) bool {
					var sb []string
					for _, k := range append(append([]int{}, head...), rest...) {
						sb = append(sb, toks[k])
					}
					text := strings.Join(sb, " ")
					if cnt++; cnt%200 == 0 {
						c.Tick()
					}
					if res = compareText(c, text); res != nil {
						return false
					}
					if _, in := parseExpr(text); in {
						ok = append(ok, text)
					}
					return true
				})
				for len(ok) > 0 && res == nil {
					k := min(60, len(ok))
					var exprs []*Expr
					for _, t := range ok[:k] {
						e, _ := parseExpr(t)
						exprs = append(exprs, e)
					}
					res = meaning(c, ok[:k], nil, exprs)
					c.Sample("%s", strings.Join(ok[:min(3, k)], "\n"))
					ok = ok[k:]
				}
				return res
			})
			return true
		})
	}
	// characters
	alpha := []rune{'_', 'a', '-', '>', '+', '&', '(', ')', ' ', '\n', 'é', '1', '.', 'T'}
	maxC := 4
	if c.Thorough {
		maxC = 5
	}
	c.Bounds_("B", "all strings of up to %d characters of %q", maxC, string(alpha))
	for n := 1; n <= maxC; n++ {
		product(len(alpha), min(n, 2), func(first []int) bool {
			head := append([]int{}, first...)
			c.Case(func() string { return fmt.Sprintf("character strings of length %d starting %v", n, head) }, func() error {
				var res error
				cnt := 0
				product(len(alpha), n-len(head), func(rest []int) bool {
					var rs []rune
					for _, k := range append(append([]int{}, head...), rest...) {
						rs = append(rs, alpha[k])
					}
					if cnt++; cnt%200 == 0 {
						c.Tick()
					}
					res = compareText(c, string(rs))
					return res == nil
				})
				return res
			})
			return true
		})
	}
	// around _this
	c.Case(func() string { return "one and two edits of _this" }, func() error {
		edits := func(s string) []string {
			var out []string
			rs := []rune(s)
			for i := 0; i <= len(rs); i++ {
				for _, x := range []rune("_xTt 1-é") {
					out = append(out, string(rs[:i])+string(x)+string(rs[i:]))
					if i < len(rs) {
						out = append(out, string(rs[:i])+string(x)+string(rs[i+1:]))
					}
				}
				if i < len(rs) {
					out = append(out, string(rs[:i])+string(rs[i+1:]))
				}
			}
			return out
		}
		for _, base := range []string{"_this", "_this->a", "a->_this", "_this + a", "_this_this", "(_this)", "a->b"} {
			for _, e1 := range edits(base) {
				c.Tick()
				if err := compareText(c, e1); err != nil {
					return err
				}
				if base == "_this" {
					for _, e2 := range edits(e1) {
						if err := compareText(c, e2); err != nil {
							return err
						}
					}
				}
			}
		}
		return nil
	})
	// single characters
	hi := 0x3100
	if c.Thorough {
		hi = 0x20000
	}
	c.Bounds_("C", "every code point up to %#x in 5 contexts", hi)
	for lo := 0; lo < hi; lo += 0x100 {
		c.Case(func() string { return fmt.Sprintf("code points from %#x", lo) }, func() error {
			for r := rune(lo); r < rune(lo+0x100); r++ {
				if !utf8.ValidRune(r) {
					continue
				}
				x := string(r)
				for _, t := range []string{x, "a" + x + "b", "a " + x + " + b", "a+b" + x, x + "_this"} {
					if err := compareText(c, t); err != nil {
						return err
					}
				}
				c.Tick()
			}
			return nil
		})
	}
	// white space between the tokens
	ws := []string{"", " ", "\t\n", "  \r\n "}
	c.Bounds_("D", "every choice of %d white spaces at every gap of expressions with up to 7 tokens", len(ws))
	for _, parts := range [][]string{{"a"}, {"_this"}, {"a", "->", "b"}, {"a", "+", "b"}, {"a", "-", "b"}, {"(", "a", ")"}, {"a", "-", "(", "b", ")"}, {"a", "->", "b", "-", "a"}, {"(", "a", "&", "b", ")"}, {"a", "+", "_this", "-", "b"}, {"a", "-", ">", "b"}, {"_", "this"}, {"a", "b"}} {
		c.Case(func() string { return fmt.Sprintf("white space in %v", parts) }, func() error {
			var res error
			var texts []string
			var exprs []*Expr
			flush := func() {
				if len(texts) > 0 && res == nil {
					res = meaning(c, texts, nil, exprs)
				}
				texts, exprs = nil, nil
			}
			product(len(ws), len(parts)+1, func(v []int) bool {
				t := ws[v[0]]
				for i, p := range parts {
					t += p + ws[v[i+1]]
				}
				if res = compareText(c, t); res != nil {
					return false
				}
				c.Tick()
				if e, ok := parseExpr(t); ok && len(texts) < 60 {
					// identifiers other than a and b have no meaning here
					fine := true
					e.leaves(func(l *Expr) {
						for _, x := range []string{l.A, l.B} {
							fine = fine && (x == "" || x == "a" || x == "b")
						}
					})
					if fine {
						texts, exprs = append(texts, t), append(exprs, e)
					}
				}
				return true
			})
			flush()
			return res
		})
	}
	// trees, and their textual form
	leaves := []*Expr{This(), Cu("a"), Cu("b"), Ttu("a", "b")}
	trees := upTo(leaves, 3)
	trees = append(trees, enumExprs([]*Expr{This(), Cu("a"), Cu("b")}, 4)[:2187]...)
	if c.Thorough {
		trees = append(trees, enumExprs(leaves, 4)...)
		trees = append(trees, enumExprs([]*Expr{Cu("a"), Cu("b")}, 5)...)
	}
	c.Bounds_("E", "%d trees: printed form parsed by the reference parser and by the implementation; the tree itself evaluated", len(trees))
	for i := 0; i < len(trees); i += 60 {
		c.Case(func() string { return "trees from " + trees[i].Text() }, func() error {
			ts := trees[i:min(i+60, len(trees))]
			var texts []string
			for _, t := range ts {
				x := t.Proto().RelationExpression()
				e, ok := parseExpr(x)
				if !ok {
					return fmt.Errorf("tree %s is printed as %q, which is not an expression", t.Text(), x)
				}
				if !sameFunction(e, t) {
					return fmt.Errorf("tree %s is printed as %q, which means something else", t.Text(), x)
				}
				texts = append(texts, x)
			}
			if err := meaning(c, texts, nil, ts); err != nil {
				return err
			}
			return meaning(c, nil, ts, ts)
		})
	}
	// long and deep expressions
	ns := []int{2, 3, 5, 9, 16, 17, 32, 33, 50, 64, 65, 100}
	if c.Thorough {
		ns = append(ns, 128, 129, 200, 255, 256, 257)
	}
	c.Bounds_("F", "chains and nestings of sizes %v", ns)
	for _, n := range ns {
		c.Case(func() string { return fmt.Sprintf("long expressions of size %d", n) }, func() error {
			var texts []string
			ops := []string{" + ", " & ", " - "}
			ls := []string{"_this", "a", "b", "a->b", "b->a"}
			for sh := 0; sh < 6; sh++ {
				var b strings.Builder
				switch sh {
				case 0, 1, 2: // chain
					for i := 0; i < n; i++ {
						if i > 0 {
							b.WriteString(ops[(i*i+sh)%3])
						}
						b.WriteString(ls[(i*3+sh+i/7)%5])
					}
				case 3: // parentheses around one
					b.WriteString(strings.Repeat("(", n) + "a" + strings.Repeat(")", n))
				case 4: // right nested
					for i := 0; i < n; i++ {
						b.WriteString(ls[(i*3)%5] + ops[(i+1)%3] + "(")
					}
					b.WriteString("a" + strings.Repeat(")", n))
				case 5: // left nested
					b.WriteString(strings.Repeat("(", n) + "a")
					for i := 0; i < n; i++ {
						b.WriteString(ops[i%3] + ls[(i*2)%5] + ")")
					}
				}
				texts = append(texts, b.String())
			}
			var exprs []*Expr
			for _, t := range texts {
				e, ok := parseExpr(t)
				if !ok {
					panic("reference parser: " + t)
				}
				exprs = append(exprs, e)
				// malformed by one token
				for _, bad := range []string{t + ")", "(" + t, t + " +", "- " + t, t + " a", t + " ->"} {
					c.Tick()
					if err := compareText(c, bad); err != nil {
						return err
					}
				}
			}
			return meaning(c, texts, nil, exprs)
		})
	}
	runTextSizes(c)
	runKeywords(c)
	// identifiers
	c.Case(func() string { return "identifiers" }, func() error {
		for _, id := range []string{"x", "X", "_", "__", "_x", "x_", "1", "1x", "x1", "é", "日本", "this", "_thisx", "_This", "x_this", "thiS", strings.Repeat("long", 50), "а" /* cyrillic */, "٣", "and", "or", "union"} {
			for _, t := range []string{id, id + "->" + id, "(" + id + ")", id + "+_this", "_this-" + id, id + "&" + id + "x"} {
				if err := compareText(c, t); err != nil {
					return err
				}
				// the identifier must be kept as it is: without the relation the policy is refused
				e, _ := parseExpr(t)
				var a string
				e.leaves(func(l *Expr) {
					if l.A != "" && a == "" {
						a = l.A
					}
				})
				ids := []string{id + "x", strings.ToUpper(id) + "q", "zz"}
				if got, _ := acceptText(t, ids); got && a == id {
					return fmt.Errorf("expression %q accepted although relation %q is not defined", t, id)
				}
			}
		}
		return nil
	})
}

// runKeywords: every identifier, however similar to the keyword, denotes the relation of that name
func runKeywords(c *Ctx) {
	var ids []string
	seen := map[string]bool{}
	add := func(x string) {
		if e, ok := parseExpr(x); ok && e.K == 'c' && !seen[x] {
			seen[x] = true
			ids = append(ids, x)
		}
	}
	const kw = "_this"
	for m := 0; m < 1<<5; m++ {
		x := []byte(kw)
		for i := range x {
			if m>>i&1 == 1 && x[i] != '_' {
				x[i] -= 'a' - 'A'
			}
		}
		add(string(x))
	}
	for i := 0; i <= len(kw); i++ {
		for _, ch := range []string{"", "_", "t", "s", "a", "z", "A", "Z", "0", "9"} {
			add(kw[:i] + ch + kw[i:])
			if i < len(kw) {
				add(kw[:i] + ch + kw[i+1:])
			}
		}
	}
	for _, x := range []string{"this", "This", "self", "all", "any", "none", "nil", "null", "true", "or", "and", "not", "union", "minus", "intersection", "exclusion", "except", "with", "from", "_", "__", "_self", "_all", "_any", "_none", "_nil", "computed_userset", "tuple_to_userset", "this_", "_this_this", "thisthis", "a", "A"} {
		add(x)
	}
	texts := []string{"N", "N + z", "z - N", "N & z", "N->z", "z->N", "(N)", "N->N", "_this - N", "N - _this"}
	c.Bounds_("H", "%d identifiers (all spellings of the keyword in upper and lower case, all with one character added, removed or changed, words that are keywords elsewhere) in %d expressions x all memberships of the operands", len(ids), len(texts))
	for _, id := range ids {
		c.Case(func() string { return fmt.Sprintf("identifier %q", id) }, func() error {
			rels := []RelDef{rel(id, "_this")}
			if id != "z" {
				rels = append(rels, rel("z", "_this"))
			}
			var qs []query
			tups := []Tup{T("doc", "1", id, E("user", "u")), T("doc", "1", "z", E("user", "u")), T("doc", "1", id, E("doc", "2")), T("doc", "1", "z", E("doc", "2")), T("doc", "2", "z", E("user", "u")), T("doc", "2", id, E("user", "u"))}
			for i, t := range texts {
				l := fmt.Sprint("the relation ", i)
				rels = append(rels, rel(l, strings.ReplaceAll(t, "N", id)))
				qs = append(qs, query{node{Ent{"doc", "1"}, l}, Ent{"user", "u"}}, query{node{Ent{"doc", "1"}, l}, Ent{"user", "x"}})
				if strings.Contains(t, "_this") || i == 0 {
					tups = append(tups, T("doc", "1", l, E("user", "x")))
				}
			}
			return c.walk(polWith("p", ResDef{Name: "user"}, ResDef{Name: "doc", Rels: rels}), tups, qs)
		})
	}
}

// runTextSizes: no length or number of anything makes an expression lose or gain membership in the language
func runTextSizes(c *Ctx) {
	max, long := 140, []int{200, 255, 256, 257, 300}
	longer := []int{511, 512, 513, 1000, 1023, 1024, 1025, 4095, 4096, 4097, 65535, 65536, 65537}
	if c.Thorough {
		long = append(long, 511, 512, 513, 600)
	}
	c.Bounds_("G", "dimensions of a text (terms of each operator, groups, nesting, white space, length and number of identifiers, malformed ends), each with every size from 1 to %d and %v; identifiers and white space also of sizes %v", max, long, longer)
	run := func(n int, light bool) {
		rep := func(s string) string { return strings.Repeat(s, n) }
		var many strings.Builder
		for i := 0; i < n && !light; i++ {
			fmt.Fprintf(&many, " + r%d", i)
		}
		id := rep("x")
		texts := []string{id, "_this + " + id, id + "->" + id, rep("é"), "a" + rep(" ") + "+" + rep("\n") + "b", rep("\t") + "a" + rep(" "), "_this" + id, rep("_"), rep("7"), "a " + id + " b", id + "-", "a" + rep(" ") + "->" + rep(" ") + "b"}
		if !light {
			texts = append(texts, "a"+rep(" + b"), "a"+rep(" & b"), "a"+rep(" - b"), "a"+rep(" + (b)"), "(a)"+rep(" - (b)"), "a"+rep("+a->b"), rep("(")+"a"+rep(")"), rep("(a + ")+"b"+rep(")"), rep("(")+"a"+rep(" - b)"), "_this"+many.String(),
				"a"+rep(" + (a & b)"), rep("(")+"a", "a"+rep(")"), "a"+rep(" + b")+" +", "a"+rep(" + b")+" b", "a"+rep("->b"), "a"+rep(" + b")+" ?", "a"+rep(" + b")+" + ()")
		}
		for _, t := range texts {
			c.Tick()
			if err := compareText(c, t); err != nil {
				panic(caseError{err})
			}
		}
	}
	one := func(n int, light bool) {
		c.Case(func() string { return fmt.Sprintf("texts of size %d", n) }, func() (err error) {
			defer func() {
				if r := recover(); r != nil {
					ce, ok := r.(caseError)
					if !ok {
						panic(r)
					}
					err = ce.error
				}
			}()
			run(n, light)
			return nil
		})
	}
	for n := 1; n <= max; n++ {
		one(n, false)
	}
	for _, n := range long {
		one(n, false)
	}
	for _, n := range longer {
		one(n, true)
	}
}

type caseError struct{ error }

// sameFunction compares two expressions as functions of their leaves
func sameFunction(a, b *Expr) bool {
	idx := map[Expr]int{}
	for _, e := range []*Expr{a, b} {
		e.leaves(func(l *Expr) {
			if _, ok := idx[*l]; !ok {
				idx[*l] = len(idx)
			}
		})
	}
	var eval func(e *Expr, m int) bool
	eval = func(e *Expr, m int) bool {
		switch e.Op {
		case '+':
			return eval(e.L, m) || eval(e.R, m)
		case '&':
			return eval(e.L, m) && eval(e.R, m)
		case '-':
			return eval(e.L, m) && !eval(e.R, m)
		}
		return m>>idx[*e]&1 == 1
	}
	for m := 0; m < 1<<len(idx); m++ {
		if eval(a, m) != eval(b, m) {
			return false
		}
	}
	return true
}

// ---- C13 ----

// ynode is a YAML value under the harness' control: scalar, map with ordered keys, or list
type ynode struct {
	scalar string
	raw    bool // scalar printed as it is
	keys   []string
	vals   []*ynode
	list   bool
}

func ys(s string) *ynode     { return &ynode{scalar: s} }
func (y *ynode) isMap() bool { return !y.list && y.scalar == "" && !y.raw && len(y.vals) > 0 }

func (y *ynode) add(k string, v *ynode) *ynode {
	y.keys, y.vals = append(y.keys, k), append(y.vals, v)
	return y
}

func (y *ynode) perm(p []int) *ynode {
	q := &ynode{}
	for _, i := range p {
		q.add(y.keys[i], y.vals[i])
	}
	return q
}

func (y *ynode) block(b *strings.Builder, ind, style int) {
	pad := strings.Repeat(" ", ind)
	switch {
	case y.list:
		for _, v := range y.vals {
			fmt.Fprintf(b, "%s- %s\n", pad, yq(v.scalar, style))
		}
	default:
		for i, k := range y.keys {
			v := y.vals[i]
			if style == 2 && i%2 == 1 {
				fmt.Fprintf(b, "%s# comment: ' \" { [\n", pad)
			}
			switch {
			case v == nil:
				fmt.Fprintf(b, "%s%s:\n", pad, yq(k, style))
			case v.raw:
				fmt.Fprintf(b, "%s%s: %s\n", pad, yq(k, style), v.scalar)
			case v.list && len(v.vals) == 0:
				fmt.Fprintf(b, "%s%s: []\n", pad, yq(k, style))
			case v.list || len(v.vals) > 0:
				fmt.Fprintf(b, "%s%s:\n", pad, yq(k, style))
				v.block(b, ind+2, style)
			default:
				fmt.Fprintf(b, "%s%s: %s\n", pad, yq(k, style), yq(v.scalar, style))
			}
		}
	}
}

func (y *ynode) flow() string {
	switch {
	case y == nil:
		return "null"
	case y.raw:
		return y.scalar
	case y.list:
		var out []string
		for _, v := range y.vals {
			out = append(out, v.flow())
		}
		return "[" + strings.Join(out, ", ") + "]"
	case len(y.keys) > 0:
		var out []string
		for i, k := range y.keys {
			out = append(out, yq(k, 0)+": "+y.vals[i].flow())
		}
		return "{" + strings.Join(out, ", ") + "}"
	}
	return yq(y.scalar, 0)
}

func (y *ynode) doc(style int) string {
	if style == 3 {
		return y.flow()
	}
	if style == 4 {
		return "---\n" + y.flow() + "\n"
	}
	var b strings.Builder
	y.block(&b, 0, style)
	return b.String()
}

func relNode(d *RelDef) *ynode {
	r := &ynode{}
	r.add("expr", ys(d.text()))
	if ts := d.R.types(); len(ts) > 0 {
		l := &ynode{list: true}
		for _, t := range ts {
			l.vals = append(l.vals, ys(t))
		}
		r.add("types", l)
	}
	if d.Doc != "" {
		r.add("doc", ys(d.Doc))
	}
	return r
}

func resNode(r *ResDef, relPerm, keyPerm []int) *ynode {
	n := &ynode{}
	if len(r.Rels) > 0 {
		rels := &ynode{}
		for j := range r.Rels {
			rn := relNode(&r.Rels[j])
			if keyPerm != nil && len(keyPerm) == len(rn.keys) {
				rn = rn.perm(keyPerm)
			}
			rels.add(r.Rels[j].Name, rn)
		}
		if relPerm != nil && len(relPerm) == len(rels.keys) {
			rels = rels.perm(relPerm)
		}
		n.add("relations", rels)
	}
	if r.Doc != "" {
		n.add("doc", ys(r.Doc))
	}
	if len(n.keys) == 0 {
		return nil
	}
	return n
}

func polNode(p *Pol, relPerm, keyPerm, resPerm []int) *ynode {
	n := &ynode{}
	n.add("id", ys(p.ID))
	if p.Name != "" {
		n.add("name", ys(p.Name))
	}
	if len(p.Res) > 0 {
		rs := &ynode{}
		for i := range p.Res {
			rs.add(p.Res[i].Name, resNode(&p.Res[i], relPerm, keyPerm))
		}
		if resPerm != nil {
			rs = rs.perm(resPerm)
		}
		n.add("resources", rs)
	}
	if p.Doc != "" {
		n.add("doc", ys(p.Doc))
	}
	if len(p.Attrs) > 0 {
		a := &ynode{}
		for _, k := range sortedKeys(p.Attrs) {
			a.add(k, ys(p.Attrs[k]))
		}
		n.add("attributes", a)
	}
	return n
}

// storedPolicy creates a policy from YAML and returns the stored definition, canonical form
func storedPolicy(yaml string) (*domain.Policy, error) {
	s := NewSys(NewSpyKV())
	resp, err := call(s, &api.CreatePolicyRequest{PolicyDefinition: &api.PolicyDefinition{Definition: &api.PolicyDefinition_PolicyYaml{PolicyYaml: yaml}}})
	if err != nil {
		return nil, err
	}
	created := resp.(*api.CreatePolicyResponse).GetRecord().GetPolicy()
	resp, err = call(s, &api.GetPolicyRequest{Id: created.GetId()})
	if err != nil {
		return nil, err
	}
	got := resp.(*api.GetPolicyResponse).GetRecord().GetPolicy()
	if !proto.Equal(got, created) {
		return nil, fmt.Errorf("HARNESS created and stored policy differ:\n%v\n%v", created, got)
	}
	return got, nil
}

// sortProto orders resources and relations by name
func sortProto(p *domain.Policy) *domain.Policy {
	q := proto.Clone(p).(*domain.Policy)
	for i := range q.Resources {
		for j := i + 1; j < len(q.Resources); j++ {
			if q.Resources[j].Name < q.Resources[i].Name {
				q.Resources[i], q.Resources[j] = q.Resources[j], q.Resources[i]
			}
		}
		rels := q.Resources[i].Relations
		for a := range rels {
			for b := a + 1; b < len(rels); b++ {
				if rels[b].Name < rels[a].Name {
					rels[a], rels[b] = rels[b], rels[a]
				}
			}
		}
	}
	if len(q.Attributes) == 0 {
		q.Attributes = nil
	}
	return q
}

func compareYaml(c *Ctx, p *Pol, yaml string, first *string) error {
	want := p.Valid()
	got, err := storedPolicy(yaml)
	c.Evaluations++
	if err != nil && strings.HasPrefix(err.Error(), "HARNESS") {
		return fmt.Errorf("%v\nYAML:\n%s", err, yaml)
	}
	if (err == nil) != want {
		return fmt.Errorf("YAML policy accepted: %v (error: %v), the structured form is valid: %v\n%v\nYAML:\n%s", err == nil, err, want, p, yaml)
	}
	c.Outcome(fmt.Sprintf("accepted=%v", want))
	if !want {
		return nil
	}
	c.Nontrivial++
	if a, b := sortProto(got), sortProto(p.Proto()); !proto.Equal(a, b) {
		return fmt.Errorf("YAML policy is stored as\n%v\nits structured form is\n%v\nYAML:\n%s", a, b, yaml)
	}
	k := canonPol(got)
	c.State(k)
	if *first == "" {
		*first = k
	} else if *first != k {
		return fmt.Errorf("the stored policy depends on the order of keys or quoting:\n%s\n%s\nYAML:\n%s", show("policy="+*first), show("policy="+k), yaml)
	}
	direct, err := policy_definition.PolicyFromYaml(yaml)
	if err != nil {
		return fmt.Errorf("PolicyFromYaml: %v\nYAML:\n%s", err, yaml)
	}
	if !proto.Equal(sortProto(direct), sortProto(got)) {
		return fmt.Errorf("PolicyFromYaml gives\n%v\nstored is\n%v", direct, got)
	}
	return nil
}

func runC13(c *Ctx) {
	big := polWith("p",
		ResDef{Name: "user", Doc: "users"},
		ResDef{Name: "group", Rels: []RelDef{{Name: "m", Text: "_this", Doc: "member", R: Only(RItem{Res: "user"}, RItem{Res: "group", Rel: "m", Set: true})}}},
		ResDef{Name: "doc", Doc: "a: b", Rels: []RelDef{
			{Name: "v", Text: "_this + o - parent->v", Doc: "x", R: Only(RItem{Res: "group", Rel: "m", Set: true}, RItem{Res: "user"})},
			{Name: "o", Text: "_this", Doc: "y", R: Any()},
			{Name: "parent", Text: "(_this & o)", Doc: "z", R: Only(RItem{Res: "doc"})}}})
	big.Doc = "documentation"
	big.Attrs = map[string]string{"k": "v", "a b": "c: d", "": ""}
	small := polWith("q", ResDef{Name: "user"}, ResDef{Name: "d", Rels: []RelDef{rel("v", "_this"), {Name: "w", Text: "v"}}})
	empty := polWith("e")
	empty.Name = ""
	bad := polWith("b", ResDef{Name: "d", Rels: []RelDef{rel("v", "nope"), rel("w", "_this"), rel("x", "_this")}})
	bad2 := polWith("b2", ResDef{Name: "d", Rels: []RelDef{{Name: "v", Text: "_this", R: Only(RItem{Res: "nope"})}}})
	noid := polWith("", ResDef{Name: "d"})
	pols := []*Pol{big, small, empty, bad, bad2, noid}
	c.Bounds_("A", "%d policies x all orders of top-level keys, resources, relations and relation keys x 5 styles", len(pols))
	for pi, p := range pols {
		base := polNode(p, nil, nil, nil)
		for _, perm := range permutations(len(base.keys)) {
			c.Case(func() string { return fmt.Sprintf("policy %d, key order %v", pi, perm) }, func() error {
				first := ""
				for style := 0; style < 5; style++ {
					if err := compareYaml(c, p, polNode(p, nil, nil, nil).perm(perm).doc(style), &first); err != nil {
						return err
					}
				}
				for _, rp := range permutations(len(p.Res)) {
					for _, lp := range permutations(3) {
						for _, kp := range permutations(3) {
							c.Tick()
							if err := compareYaml(c, p, polNode(p, lp, kp, rp).perm(perm).doc(len(rp)%3), &first); err != nil {
								return err
							}
						}
					}
				}
				c.Traces++
				c.Sample("%s", polNode(p, nil, nil, nil).perm(perm).doc(2))
				return nil
			})
		}
	}
	// type lists
	entries := []string{"user", "group", "doc", "group:m", "doc:v", "doc:w", "*", "nope", "group:nope", "nope:m", "", ":", "group:", ":m", "user:*", "User", "user ", "group :m", "group: m", "**", "doc:v:w", "user:m"}
	maxL := 2
	if c.Thorough {
		maxL = 3
	}
	c.Bounds_("B", "all lists of up to %d of %d type entries", maxL, len(entries))
	for n := 0; n <= maxL; n++ {
		product(len(entries), min(n, 1), func(first []int) bool {
			head := append([]int{}, first...)
			c.Case(func() string { return fmt.Sprintf("type lists of length %d starting %v", n, head) }, func() error {
				var res error
				product(len(entries), n-len(head), func(rest []int) bool {
					var r Restr
					l := &ynode{list: true}
					univ, undef := false, false
					for _, k := range append(append([]int{}, head...), rest...) {
						e := entries[k]
						l.vals = append(l.vals, ys(e))
						if e == "*" {
							univ = true
							continue
						}
						if i := strings.Index(e, ":"); i >= 0 {
							r.Items = append(r.Items, RItem{Res: e[:i], Rel: e[i+1:], Set: true})
						} else {
							r.Items = append(r.Items, RItem{Res: e})
						}
					}
					p := polWith("p", ResDef{Name: "user"}, ResDef{Name: "group", Rels: []RelDef{rel("m", "_this")}},
						ResDef{Name: "doc", Rels: []RelDef{{Name: "v", Text: "_this", R: r}, rel("w", "_this"), rel("v:w", "_this")}})
					if univ {
						undef = !p.Valid()
						p.Res[2].Rels[0].R = Any()
					}
					if undef {
						return true // left open
					}
					y := polNode(p, nil, nil, nil)
					y.vals[2].vals[2].vals[0].vals[0] = (&ynode{}).add("expr", ys("_this")).add("types", l)
					for style := 0; style < 5; style++ {
						first := ""
						if res = compareYaml(c, p, y.doc(style), &first); res != nil {
							return false
						}
					}
					c.Tick()
					return true
				})
				return res
			})
			return true
		})
	}
	// names: resources, relations, ids and texts with awkward characters
	c.Case(func() string { return "awkward names and texts" }, func() error {
		for _, n := range append(append([]string{}, awkward...), "yes", "null", "~", "1.5", "0x1", "a: b", "- a", "# a", "'", "!!str", "&a", "*a", "|", ">", "@", "`", "true", "\n", "a\nb", " lead", "trail ", "{a}", "[b]") {
			if len(n) > 1000 {
				continue // longer than an implicit key
			}
			p := polWith("id "+n, ResDef{Name: n, Doc: n, Rels: []RelDef{{Name: n, Text: "_this", Doc: n, R: Any()}, {Name: "z" + n, Text: "_this", R: Any()}}})
			p.Name, p.Doc = n, n
			p.Attrs = map[string]string{n: n, "x" + n: ""}
			first := ""
			for style := 0; style < 5; style++ {
				if err := compareYaml(c, p, polNode(p, nil, nil, nil).doc(style), &first); err != nil {
					return err
				}
			}
		}
		return nil
	})
	runYamlForms(c)
	// two resources and two relations for every pair of names
	c.Bounds_("D", "all pairs of %d names, and %d pairs of names with the same checksum, as resources and relations, in every order x 5 styles, twice", len(adversarialNames), len(alikePairs)+len(alikeIds))
	for _, pair := range namePairs() {
		x, y := pair[0], pair[1]
		if strings.ContainsAny(x+y, "\x00:") || x == "*" || y == "*" {
			continue
		}
		c.Case(func() string { return fmt.Sprintf("resources and relations %q and %q", x, y) }, func() error {
			p := polWith("p", ResDef{Name: x, Doc: "1", Rels: []RelDef{{Name: x, Text: "_this", Doc: "2", R: Only(RItem{Res: x})}, {Name: y, Text: "_this", Doc: "3", R: Only(RItem{Res: y, Rel: y, Set: true})}}},
				ResDef{Name: y, Doc: "4", Rels: []RelDef{{Name: y, Text: "_this", Doc: "5", R: Only(RItem{Res: x, Rel: y, Set: true})}, {Name: x, Text: "_this", Doc: "6", R: Only(RItem{Res: x, Rel: x, Set: true}, RItem{Res: y})}}})
			first := ""
			for rep := 0; rep < 2; rep++ {
				for _, rp := range permutations(2) {
					for _, lp := range permutations(2) {
						for style := 0; style < 5; style++ {
							c.Tick()
							if err := compareYaml(c, p, polNode(p, lp, nil, rp).doc(style), &first); err != nil {
								return err
							}
						}
					}
				}
			}
			c.Traces++
			return nil
		})
	}
	// every optional part present or absent
	pnames := append([]string{"r", " lead", "trail ", "UPPER", "a:b", "*", "é", "a\nb"}, adversarialNames[:8]...)
	c.Bounds_("E", "%d names x every optional part (policy name, doc, attributes; doc and relations of two resources; doc and types of a relation) present or absent x 5 styles", len(pnames))
	for _, n := range pnames {
		for top := 0; top < 8; top++ {
			c.Case(func() string { return fmt.Sprintf("optional parts, name %q, top %03b", n, top) }, func() error {
				for k := 0; k < 1<<6; k++ {
					p := &Pol{ID: n}
					if top&1 != 0 {
						p.Name = n
					}
					if top&2 != 0 {
						p.Doc = n
					}
					if top&4 != 0 {
						p.Attrs = map[string]string{n: n}
					}
					r := ResDef{Name: n}
					if k&1 != 0 {
						r.Doc = n
					}
					if k&2 != 0 {
						d := RelDef{Name: n, Text: "_this"}
						if k&4 != 0 {
							d.Doc = n
						}
						if k&8 != 0 {
							d.R = Any()
						}
						r.Rels = []RelDef{d, {Name: n + "2", Text: "_this", R: Only(RItem{Res: "zz"})}}
						if strings.Contains(n, ":") {
							r.Rels[1].R = Any()
						}
					} else if k&12 != 0 {
						continue
					}
					p.Res = []ResDef{r, {Name: "zz"}}
					if k&16 != 0 {
						p.Res[1].Doc = n
					}
					if k&32 != 0 {
						p.Res = append(p.Res, ResDef{Name: n + "3", Rels: []RelDef{rel("x", "_this")}}, ResDef{Name: n + "4"})
					}
					first := ""
					for style := 0; style < 5; style++ {
						if err := compareYaml(c, p, polNode(p, nil, nil, nil).doc(style), &first); err != nil {
							return err
						}
					}
					c.Tick()
				}
				c.Traces++
				return nil
			})
		}
	}
	// numbers of resources and relations
	c.Case(func() string { return "sizes" }, func() error {
		for _, n := range []int{1, 2, 3, 9, 10, 11, 26, 33, 64, 100} {
			for _, rev := range []bool{false, true} {
				p := polWith("p")
				for i := 0; i < n; i++ {
					k := i
					if rev {
						k = n - 1 - i
					}
					r := ResDef{Name: fmt.Sprint("r", k)}
					for j := 0; j < n/4+1; j++ {
						r.Rels = append(r.Rels, RelDef{Name: fmt.Sprint("l", (j*5)%(n/4+1)*2), Text: "_this", R: Only(RItem{Res: fmt.Sprint("r", (i*3)%n)})})
					}
					if (n/4+1)%5 == 0 {
						r.Rels = r.Rels[:1]
					}
					p.Res = append(p.Res, r)
				}
				first := ""
				for style := 0; style < 4; style++ {
					c.Tick()
					if err := compareYaml(c, p, polNode(p, nil, nil, nil).doc(style), &first); err != nil {
						return err
					}
				}
			}
		}
		return nil
	})
	// unknown fields at every level, malformed documents: refused, nothing stored
	c.Case(func() string { return "unknown fields and malformed documents" }, func() error {
		var docs []string
		for _, f := range []string{"unknown", "Id", "ID", "version", "resource", "description", "Name", "types", "expr", "relation", "type", "relations", "attribute"} {
			top := polNode(big, nil, nil, nil)
			if f != "doc" && f != "name" {
				docs = append(docs, top.add(f, ys("x")).doc(0), polNode(big, nil, nil, nil).add(f, nil).doc(0))
			}
			if f != "relations" {
				y := polNode(big, nil, nil, nil)
				y.vals[2].vals[2].add(f, ys("x"))
				docs = append(docs, y.doc(0), y.doc(3))
			}
			if f != "types" && f != "expr" {
				y := polNode(big, nil, nil, nil)
				y.vals[2].vals[2].vals[0].vals[1].add(f, ys("x"))
				docs = append(docs, y.doc(0), y.doc(3))
			}
		}
		docs = append(docs,
			"", "\n", "---\n", "null", "id", "[]", "- id: p", "id: p\nresources: []", "id: p\nresources: x", "id: p\nresources:\n  r: x", "id: p\nresources:\n  r: []", "id: p\nresources:\n  r:\n    relations: []", "id: p\nresources:\n  r:\n    relations: x",
			"id: p\nresources:\n  r:\n    relations:\n      v: x", "id: p\nresources:\n  r:\n    relations:\n      v: []", "id: p\nresources:\n  r:\n    relations:\n      v:\n        expr: _this\n        types: user", "id: p\nresources:\n  r:\n    relations:\n      v:\n        expr: []",
			"id: p\nresources:\n  r:\n    relations:\n      v:\n        expr: {a: b}", "id: p\nresources:\n  r:\n    relations:\n      v:\n        expr: _this\n        types: {a: b}", "id: p\nattributes: []", "id: p\nattributes: x", "id: p\nattributes:\n  a: []", "id: []", "id: {a: b}", "name: x",
			"id: p\nid: q", "id: p\nresources:\n  r:\n  r:", "id: p\nresources:\n  r:\n    relations:\n      v: {expr: _this}\n      v: {expr: _this}", "id: p\n name: x", "id: \"p", "{id: p", "\tid: p", "id: p\nresources:\n  r:\n    relations:\n      v:\n        expr: _this\n        expr: _this",
			"id: *a", "%", "id: p: q", "id: p\nresources:\n  r:\n    relations:\n      v:", "id: p\nresources:\n  r:\n    relations:\n      v: {}", "id: p\nresources:\n  r:\n    relations:\n      v: {types: [\"*\"]}")
		for _, d := range docs {
			for upd := 0; upd < 2; upd++ {
				kv := NewSpyKV()
				s := NewSys(kv)
				w := World{}
				for _, id := range []string{"p", "other"} {
					if upd == 0 && id == "p" {
						continue
					}
					if err := Step1(s, w, Op{K: KCreate, Pol: selPol(id)}); err != nil {
						return err
					}
				}
				def := &api.PolicyDefinition{Definition: &api.PolicyDefinition_PolicyYaml{PolicyYaml: d}}
				var req proto.Message = &api.CreatePolicyRequest{PolicyDefinition: def}
				if upd == 1 {
					req = &api.UpdatePolicyRequest{PolicyDefinition: def}
				}
				before := kv.Dump()
				c.Evaluations++
				if resp, err := call(s, req); err == nil {
					return fmt.Errorf("document accepted (update: %v): %v\n%s", upd == 1, resp, d)
				}
				if kv.Dump() != before {
					return fmt.Errorf("document refused but the store changed\n%s", d)
				}
			}
		}
		return nil
	})
	// relationships are admitted and access is decided as with the structured form
	restrs := []Restr{Any(), Only(), Only(RItem{Res: "user"}), Only(RItem{Res: "group", Rel: "m", Set: true}), Only(RItem{Res: "user"}, RItem{Res: "doc", Rel: "v", Set: true})}
	exprs := []string{"_this", "_this + w", "w - _this", "computed & _this"}
	c.Bounds_("C", "%d restrictions x %d expressions: every relationship and query on a YAML and a structured policy in lock step", len(restrs), len(exprs))
	for _, r := range restrs {
		for _, ex := range exprs {
			c.Case(func() string { return fmt.Sprintf("lock step: restriction %+v, expression %s", r, ex) }, func() error {
				p := restrPol(r)
				p.Res[2].Rels[0].Text = ex
				q := restrPol(r)
				q.Res[2].Rels[0].Text = ex
				q.ID = "q"
				s := NewSys(NewSpyKV())
				for _, o := range []Op{{K: KCreate, Pol: p}, {K: KCreate, Pol: q, Yaml: q.Yaml(2)}} {
					if got, err := o.RunErr(s); got == ERR {
						return fmt.Errorf("%v: %v", o, err)
					}
				}
				for i, t := range restrRels() {
					a, b := Op{K: KSet, Pid: "p", T: t}.Run(s), Op{K: KSet, Pid: "q", T: t}.Run(s)
					c.Evaluations++
					if a != b {
						return fmt.Errorf("SetRelationship(%v): structured %s, YAML %s", t, a, b)
					}
					if i%50 == 0 {
						c.Tick()
					}
				}
				for _, o := range []string{"doc", "group"} {
					for _, l := range []string{"v", "w", "computed", "m"} {
						for _, u := range []Ent{{"user", "1"}, {"user", "*"}, {"group", "1"}, {"doc", "1"}, {"nores", "1"}} {
							n := node{Ent{o, "1"}, l}
							a, b := Op{K: KCheck, Pid: "p", N: n, Sub: u}.Run(s), Op{K: KCheck, Pid: "q", N: n, Sub: u}.Run(s)
							c.Evaluations++
							if a != b {
								return fmt.Errorf("Check(%v, %v): structured %s, YAML %s", n, u, a, b)
							}
						}
					}
				}
				return nil
			})
		}
	}
}
