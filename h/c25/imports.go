package main

import (
	"fmt"
	"sort"
	"strings"

	"github.com/john-nguyen09/phpintel/internal/zzverif/kit"
	"github.com/john-nguyen09/phpintel/internal/zzverif/names"
)

// uses tells whether a name makes use of an import.
func uses(c names.Clause, kind, name string) bool {
	if strings.HasPrefix(name, "\\") || strings.HasPrefix(strings.ToLower(name), "namespace\\") {
		return false
	}
	first, _, qualified := names.Cut(name, "\\")
	if qualified || kind == names.Typed {
		kind = "class"
	}
	if kind != c.Kind {
		return false
	}
	return first == c.Alias || kind != "const" && strings.EqualFold(first, c.Alias)
}

// block is a namespace: what it imports and what it names.
type block struct {
	ns      string // "" for none
	braces  bool
	decls   []names.Decl
	written []names.Written
	doc     string
}

func (e *env) imports(name string, blocks []block) {
	var b strings.Builder
	b.WriteString("<?php\n")
	var spots [][3]interface{} // from, to, used
	n := 0
	for _, bl := range blocks {
		switch {
		case bl.braces:
			b.WriteString("namespace " + bl.ns + " {\n")
		case bl.ns != "":
			b.WriteString("namespace " + bl.ns + ";\n")
		}
		for _, d := range bl.decls {
			at := b.Len()
			b.WriteString(d.Text + "\n")
			from := strings.IndexByte(d.Text, ' ')
			for _, cl := range d.Clauses {
				i := from + strings.Index(d.Text[from:], cl.Text)
				used := false
				for _, w := range bl.written {
					used = used || uses(cl, w.Site.Kind, w.Name)
				}
				spots = append(spots, [3]interface{}{at + i, at + i + len(cl.Text), used})
				from = i + len(cl.Text)
			}
		}
		b.WriteString(bl.doc)
		for _, w := range bl.written {
			n++
			b.WriteString(w.String(n) + "\n")
		}
		if bl.braces {
			b.WriteString("}\n")
		}
	}
	t := b.String()
	var want []string
	for _, s := range spots {
		if !s[2].(bool) {
			want = append(want, at(t, s[0].(int), s[1].(int)))
		}
	}
	sort.Strings(want)
	var got []string
	for _, g := range e.unused(name, t) {
		if !strings.HasPrefix(g[strings.IndexByte(g, ' ')+1:], "$") {
			got = append(got, g)
		}
	}
	if strings.Join(got, ", ") != strings.Join(want, ", ") {
		e.c.SubP(name)
		e.c.Fail("imports", "%s: %q: unused imports are %q, expected %q", name, t, got, want)
	}
}

func imports(e *kit.Enum) {
	for i, d := range names.Decls {
		d := d
		e.Case(fmt.Sprintf("imports/%d", i), func(c *kit.C) {
			v := start(c)
			defer v.s.Stop()
			v.imports("alone", []block{{decls: []names.Decl{d}}})
			for j, s := range names.Sites {
				for k, n := range names.Names {
					if s.Kind == names.Typed && strings.Contains(n, "\\") {
						continue
					}
					if strings.HasPrefix(s.Text, "%s") && strings.HasPrefix(n, "namespace") {
						continue // the parser takes it for the start of a namespace
					}
					w := names.Written{Site: s, Name: n}
					name := s.Kind + " " + s.Text
					v.imports(name, []block{{decls: []names.Decl{d}, written: []names.Written{w}}})
					v.imports(name, []block{{ns: "N", decls: []names.Decl{d}, written: []names.Written{w}}})
					// of two namespaces, the other one's imports are not for it
					v.imports(name, []block{{ns: "N", braces: true, decls: []names.Decl{d}}, {ns: "", braces: true, decls: []names.Decl{d}, written: []names.Written{w}}})
					v.imports(name, []block{{ns: "N", decls: []names.Decl{d}, written: []names.Written{w}}, {ns: "O\\P", decls: []names.Decl{d}}})
					// of three
					v.imports(name, []block{{ns: "N", decls: []names.Decl{d}}, {ns: "O\\P", decls: []names.Decl{d}, written: []names.Written{w}}, {ns: "Q", decls: []names.Decl{d}}})
					// with another declaration
					v.imports(name, []block{{decls: []names.Decl{{"use A\\zz, A\\BB as zy;", []names.Clause{{"A\\zz", "class", "zz", "A\\zz"}, {"A\\BB as zy", "class", "zy", "A\\BB"}}}, d}, written: []names.Written{w, {names.Sites[(j+k)%len(names.Sites)], "zz"}}}})
				}
			}
		})
	}
}
