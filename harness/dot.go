package main

import (
	"fmt"
	"sort"
	"strings"
	"unicode"
)

// DOT is a parsed directed graph. The parser implements the grammar of the Graphviz documentation
// for everything but HTML strings and ports.
type DOT struct {
	nodes map[string]map[string]string
	order []string
	edges [][2]string
}

type dotTok struct {
	id  bool
	quo bool
	txt string
}

func dotLex(s string) ([]dotTok, error) {
	var out []dotTok
	rs := []rune(s)
	for i := 0; i < len(rs); {
		r := rs[i]
		switch {
		case unicode.IsSpace(r):
			i++
		case strings.ContainsRune("{}[];,=:", r):
			out = append(out, dotTok{txt: string(r)})
			i++
		case r == '-' && i+1 < len(rs) && (rs[i+1] == '>' || rs[i+1] == '-'):
			out = append(out, dotTok{txt: string(rs[i : i+2])})
			i += 2
		case r == '"':
			var b strings.Builder
			i++
			closed := false
			for i < len(rs) {
				if rs[i] == '\\' && i+1 < len(rs) {
					switch rs[i+1] {
					case '"', '\\':
						b.WriteRune(rs[i+1])
					default:
						b.WriteRune('\\')
						b.WriteRune(rs[i+1])
					}
					i += 2
					continue
				}
				if rs[i] == '"' {
					closed = true
					i++
					break
				}
				b.WriteRune(rs[i])
				i++
			}
			if !closed {
				return nil, fmt.Errorf("unterminated string")
			}
			out = append(out, dotTok{true, true, b.String()})
		case unicode.IsLetter(r) || unicode.IsDigit(r) || r == '_' || r == '.' || r == '-':
			j := i
			num := unicode.IsDigit(r) || r == '.' || r == '-'
			if r == '-' {
				j++
			}
			for j < len(rs) && (unicode.IsLetter(rs[j]) || unicode.IsDigit(rs[j]) || rs[j] == '_' || rs[j] == '.' && num) {
				if num && (unicode.IsLetter(rs[j]) || rs[j] == '_') {
					return nil, fmt.Errorf("malformed number near %q", string(rs[i:j+1]))
				}
				j++
			}
			if j == i || r == '-' && j == i+1 {
				return nil, fmt.Errorf("unexpected %q", r)
			}
			out = append(out, dotTok{id: true, txt: string(rs[i:j])})
			i = j
		default:
			return nil, fmt.Errorf("unexpected character %q", r)
		}
	}
	return out, nil
}

func parseDOT(s string) (*DOT, error) {
	ts, err := dotLex(s)
	if err != nil {
		return nil, err
	}
	g := &DOT{nodes: map[string]map[string]string{}}
	p := 0
	peek := func() string {
		if p < len(ts) {
			return ts[p].txt
		}
		return ""
	}
	isId := func() bool { return p < len(ts) && ts[p].id }
	if strings.EqualFold(peek(), "strict") {
		p++
	}
	if !strings.EqualFold(peek(), "digraph") {
		return nil, fmt.Errorf("not a digraph")
	}
	p++
	if isId() {
		p++
	}
	if peek() != "{" || isId() {
		return nil, fmt.Errorf("expected {")
	}
	p++
	attrs := func() (map[string]string, error) {
		m := map[string]string{}
		for p < len(ts) && !ts[p].id && peek() == "[" {
			p++
			for !(p < len(ts) && !ts[p].id && peek() == "]") {
				if !isId() {
					return nil, fmt.Errorf("attribute name expected, got %q", peek())
				}
				k := peek()
				p++
				if isId() || peek() != "=" {
					return nil, fmt.Errorf("= expected, got %q", peek())
				}
				p++
				if !isId() {
					return nil, fmt.Errorf("attribute value expected, got %q", peek())
				}
				m[k] = peek()
				p++
				if !isId() && (peek() == "," || peek() == ";") {
					p++
				}
			}
			p++
		}
		return m, nil
	}
	touch := func(id string) map[string]string {
		m := g.nodes[id]
		if m == nil {
			m = map[string]string{}
			g.nodes[id] = m
			g.order = append(g.order, id)
		}
		return m
	}
	for {
		if p >= len(ts) {
			return nil, fmt.Errorf("unexpected end")
		}
		if !ts[p].id && peek() == "}" {
			p++
			break
		}
		if !ts[p].id && peek() == ";" {
			p++
			continue
		}
		if !isId() {
			return nil, fmt.Errorf("statement expected, got %q", peek())
		}
		id := peek()
		keyword := !ts[p].quo
		p++
		if !isId() && peek() == "=" {
			p++
			if !isId() {
				return nil, fmt.Errorf("value expected")
			}
			p++
			continue
		}
		chain := []string{id}
		for !isId() && peek() == "->" {
			p++
			if !isId() {
				return nil, fmt.Errorf("edge target expected")
			}
			chain = append(chain, peek())
			p++
		}
		at, err := attrs()
		if err != nil {
			return nil, err
		}
		if len(chain) == 1 {
			if lw := strings.ToLower(id); (lw == "graph" || lw == "node" || lw == "edge") && keyword && len(at) > 0 {
				continue
			}
			m := touch(id)
			for k, v := range at {
				m[k] = v
			}
			continue
		}
		for i := 0; i+1 < len(chain); i++ {
			touch(chain[i])
			touch(chain[i+1])
			g.edges = append(g.edges, [2]string{chain[i], chain[i+1]})
		}
	}
	if p != len(ts) {
		return nil, fmt.Errorf("text after the graph")
	}
	return g, nil
}

func (g *DOT) label(id string) string {
	if l, ok := g.nodes[id]["label"]; ok {
		return l
	}
	return id
}

// labelEdges lists the edges by label, without those of the artificial root
func (g *DOT) labelEdges() []string {
	var out []string
	for _, e := range g.edges {
		if g.label(e[0]) == "root" {
			continue
		}
		out = append(out, g.label(e[0])+" -> "+g.label(e[1]))
	}
	sort.Strings(out)
	return out
}

// same compares with the expected nodes (id to label) and edges
func (d *DOT) same(m map[string]string, es map[[2]string]bool) error {
	seen := map[[2]string]int{}
	for _, e := range d.edges {
		seen[e]++
		if !es[e] {
			return fmt.Errorf("DOT has the edge %q, which is not in the graph", e)
		}
		if seen[e] > 1 {
			return fmt.Errorf("DOT has the edge %q twice", e)
		}
	}
	if len(seen) != len(es) {
		return fmt.Errorf("DOT has %d edges, the graph %d", len(seen), len(es))
	}
	ends := map[string]bool{}
	for e := range es {
		ends[e[0]], ends[e[1]] = true, true
	}
	for id, label := range m {
		a, ok := d.nodes[id]
		if !ok {
			return fmt.Errorf("DOT lacks the node %q", id)
		}
		if a["label"] != label {
			return fmt.Errorf("DOT labels the node %q %q, expected %q", id, a["label"], label)
		}
	}
	for id := range d.nodes {
		if _, ok := m[id]; !ok && !ends[id] {
			return fmt.Errorf("DOT has the node %q, which is not in the graph", id)
		}
	}
	return nil
}
