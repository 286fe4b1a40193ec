package main

import (
	"encoding/json"
	"fmt"
	"sort"
	"strings"
)

// SortNames puts resources and relations in the order of their names
func (p *Pol) SortNames() {
	res := append([]ResDef{}, p.Res...)
	sort.SliceStable(res, func(i, j int) bool { return res[i].Name < res[j].Name })
	for k := range res {
		rels := append([]RelDef{}, res[k].Rels...)
		sort.SliceStable(rels, func(i, j int) bool { return rels[i].Name < rels[j].Name })
		for l := range rels {
			if rels[l].E != nil {
				rels[l].Text, rels[l].E = rels[l].E.Text(), nil
			}
		}
		res[k].Rels = rels
	}
	p.Res = res
}

// quoting styles: 0 double quotes, 1 single quotes, 2 plain where possible
func yq(s string, style int) string {
	switch style {
	case 1:
		if !strings.ContainsAny(s, "\n\t\x00\r") {
			return "'" + strings.ReplaceAll(s, "'", "''") + "'"
		}
	case 2:
		plain := s != "" && s != "_" && s != "null" && s != "true" && s != "false" && s != "no" && s != "yes" && s != "on" && s != "off" && s != "y" && s != "n"
		for i, r := range s {
			ok := r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' || r == '_' && i > 0 || i > 0 && (r == '-' || r == '>' || r == '+' || r == ' ' && i < len(s)-1 || r >= '0' && r <= '9')
			plain = plain && ok
		}
		if plain {
			return s
		}
	}
	b, _ := json.Marshal(s)
	return string(b)
}

func (r *Restr) types() []string {
	if r.Universal {
		return []string{"*"}
	}
	var out []string
	for _, it := range r.Items {
		if it.Set {
			out = append(out, it.Res+":"+it.Rel)
		} else {
			out = append(out, it.Res)
		}
	}
	return out
}

func (d *RelDef) text() string {
	if d.E != nil {
		return d.E.Text()
	}
	return d.Text
}

// Yaml renders the policy as a block style document
func (p *Pol) Yaml(style int) string {
	var b strings.Builder
	fmt.Fprintf(&b, "id: %s\n", yq(p.ID, style))
	if p.Name != "" {
		fmt.Fprintf(&b, "name: %s\n", yq(p.Name, style))
	}
	if p.Doc != "" {
		fmt.Fprintf(&b, "doc: %s\n", yq(p.Doc, style))
	}
	if len(p.Attrs) > 0 {
		b.WriteString("attributes:\n")
		for _, k := range sortedKeys(p.Attrs) {
			fmt.Fprintf(&b, "  %s: %s\n", yq(k, style), yq(p.Attrs[k], style))
		}
	}
	if len(p.Res) > 0 {
		b.WriteString("resources:\n")
	}
	for i := range p.Res {
		r := &p.Res[i]
		fmt.Fprintf(&b, "  %s:\n", yq(r.Name, style))
		if r.Doc != "" {
			fmt.Fprintf(&b, "    doc: %s\n", yq(r.Doc, style))
		}
		if len(r.Rels) > 0 {
			b.WriteString("    relations:\n")
		}
		for j := range r.Rels {
			d := &r.Rels[j]
			fmt.Fprintf(&b, "      %s:\n", yq(d.Name, style))
			if d.Doc != "" {
				fmt.Fprintf(&b, "        doc: %s\n", yq(d.Doc, style))
			}
			fmt.Fprintf(&b, "        expr: %s\n", yq(d.text(), style))
			if ts := d.R.types(); len(ts) > 0 {
				b.WriteString("        types:\n")
				for _, t := range ts {
					fmt.Fprintf(&b, "          - %s\n", yq(t, style))
				}
			}
		}
	}
	return b.String()
}

func sortedKeys(m map[string]string) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

// yamlForms are ways to write the same document: aliases, merge keys, block scalars, comments, markers, explicit keys
var yamlForms = []string{
	`id: p
name: n
doc: d
attributes: {k: v, l: v}
resources:
  user: {}
  group: {doc: r, relations: {m: {expr: _this, types: [user], doc: x}, o: {expr: _this, types: [user], doc: x}}}
  doc: {doc: r, relations: {m: {expr: _this, types: [user], doc: x}, o: {expr: _this, types: [user], doc: x}}}
`,
	`id: p
name: n
doc: d
attributes: {k: &v v, l: *v}
resources:
  user:
  group: &g
    doc: r
    relations:
      m: &m
        expr: &this _this
        types: &t
          - user
        doc: x
      o: *m
  doc: *g
`,
	`id: p
name: n
doc: d
attributes: {k: v, l: v}
resources:
  user: ~
  group: &g {doc: r, relations: &l {m: &m {expr: _this, types: &t [user], doc: &x x}, o: {expr: _this, types: *t, doc: *x}}}
  doc: {doc: r, relations: *l}
`,
	`id: p
name: n
doc: d
attributes: &a {k: v, l: v}
resources:
  user: null
  group: &g
    doc: r
    relations: {m: &m {expr: _this, types: [user], doc: x}, o: {<<: *m}}
  doc:
    <<: *g
    doc: r
`,
	`--- # a policy
id: p # its id
# a line
name: "n"
doc: 'd'
attributes:
    k: "\x76"
    l: 'v'
resources:
        user: {
        }
        group:
                doc: |-
                        r
                relations:
                        m:
                                expr: >-
                                        _this
                                types:
                                - user
                                doc: !!str x
                        ? o
                        : expr: "_\
                            this"
                          types: [
                            user,
                          ]
                          doc: x
        ? "doc"
        : { relations: { m: { types: [ 'user', ], doc: x, "expr": _this },
              o: { "expr": "_this", 'doc': 'x', types: [ "user" ] } }, doc: r }
...
`,
	`{"id": "p", "name": "n", "doc": "d", "attributes": {"k": "v", "l": "v"}, "resources": {"doc": {"doc": "r", "relations": {"m": {"doc": "x", "expr": "_this", "types": ["user"]}, "o": {"doc": "x", "expr": "_this", "types": ["user"]}}}, "group": {"doc": "r", "relations": {"m": {"doc": "x", "expr": "_this", "types": ["user"]}, "o": {"doc": "x", "expr": "_this", "types": ["user"]}}}, "user": {}}}`,
	`%YAML 1.1
---
id: p
name: n
doc: d
attributes: {k: v, l: v}
resources:
 user: {doc: "", relations: {}}
 group: {doc: r, relations: {m: {expr: _this, types: [user], doc: x}, o: {expr: _this, types: [user], doc: x}}}
 doc: {doc: r, relations: {m: {expr: _this, types: [user], doc: x}, o: {expr: _this, types: [user], doc: x}}}
`,
}

// runYamlForms: the stored policy does not depend on how the document is written
func runYamlForms(c *Ctx) {
	rels := func() []RelDef {
		return []RelDef{{Name: "m", Text: "_this", Doc: "x", R: Only(RItem{Res: "user"})}, {Name: "o", Text: "_this", Doc: "x", R: Only(RItem{Res: "user"})}}
	}
	p := polWith("p", ResDef{Name: "user"}, ResDef{Name: "group", Doc: "r", Rels: rels()}, ResDef{Name: "doc", Doc: "r", Rels: rels()})
	p.Name, p.Doc, p.Attrs = "n", "d", map[string]string{"k": "v", "l": "v"}
	c.Bounds_("F", "%d ways to write one document (aliases, merge keys, block scalars, comments, markers, explicit keys, JSON) x line endings, leading and trailing blank lines and comments", len(yamlForms))
	first := ""
	for i, text := range yamlForms {
		c.Case(func() string { return fmt.Sprintf("way %d to write a document", i) }, func() error {
			texts := []string{text, strings.ReplaceAll(text, "\n", "\r\n"), strings.TrimRight(text, "\n"), text + "\n\n", text + "# end\n", text + "# end"}
			if !strings.HasPrefix(text, "%") {
				texts = append(texts, "\n\n"+text, "# begin\n"+text, "\ufeff"+text)
			}
			for _, t := range texts {
				c.Tick()
				if err := compareYaml(c, p, t, &first); err != nil {
					return err
				}
			}
			c.Traces++
			return nil
		})
	}
}
