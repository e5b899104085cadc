// C17: references are all the places that mean something, and no others.
package main

import (
	"fmt"
	"sort"
	"strings"
	"unicode/utf16"

	"github.com/john-nguyen09/phpintel/internal/lsp/protocol"
	"github.com/john-nguyen09/phpintel/internal/zzverif/kit"
	debounce "github.com/john-nguyen09/phpintel/internal/zzverif/mcdebounce"
	"github.com/john-nguyen09/phpintel/internal/zzverif/names"
	"github.com/john-nguyen09/phpintel/internal/zzverif/srv"
)

// position of an offset.
func position(t string, off int) protocol.Position {
	l := strings.Count(t[:off], "\n")
	i := strings.LastIndexByte(t[:off], '\n') + 1
	return protocol.Position{Line: l, Character: len(utf16.Encode([]rune(t[i:off])))}
}

// place is where a symbol is named: its kind and name tell what it means.
type place struct {
	file     string
	from, to int
	means    string
	decl     bool
}

type env struct {
	c      *kit.C
	s      *srv.S
	texts  map[string]string
	places map[string][]place
	open   map[string]bool
}

func start(c *kit.C) *env {
	e := &env{c: c, texts: map[string]string{}, places: map[string][]place{}}
	e.s = srv.Start(c.Scratch(), map[string]string{"a.php": "<?php\n"})
	e.s.Open("a.php")
	e.open = map[string]bool{"a.php": true}
	return e
}

// put makes a text the content of a file.
func (e *env) put(file, text string, places []place) {
	for i := range places {
		places[i].file = file
	}
	e.texts[file], e.places[file] = text, places
	if e.open[file] {
		e.s.Change(file, text)
	} else {
		e.s.Write(file, text)
		e.s.Open(file)
		e.s.Close(file)
	}
	debounce.Take()
}

func (e *env) show(p place) string {
	t := e.texts[p.file]
	a, b := position(t, p.from), position(t, p.to)
	return fmt.Sprintf("%s %d:%d-%d:%d", p.file, a.Line, a.Character, b.Line, b.Character)
}

// ask compares the references at an offset with the places of what is there.
func (e *env) ask(name, file string, off int, means string) {
	t := e.texts[file]
	p := &protocol.ReferenceParams{}
	p.TextDocument.URI, p.Position = e.s.URI(file), position(t, off)
	p.Context.IncludeDeclaration = true
	locs, err := e.s.Server.References(e.s.Ctx, p)
	e.c.Eval(1)
	if err != nil {
		e.c.Fail("error", "%s: %v", name, err)
		return
	}
	want := map[string]int{}
	for _, ps := range e.places {
		for _, q := range ps {
			if q.means == means {
				want[e.show(q)] = 1
			}
		}
	}
	var wrong []string
	for _, l := range locs {
		rel := strings.TrimPrefix(l.URI, e.s.URI("")+"/")
		k := fmt.Sprintf("%s %d:%d-%d:%d", rel, l.Range.Start.Line, l.Range.Start.Character, l.Range.End.Line, l.Range.End.Character)
		n, ok := want[k]
		switch {
		case !ok:
			wrong = append(wrong, "not at "+k)
		case n == 0:
			wrong = append(wrong, "twice at "+k)
		}
		want[k] = 0
	}
	for k, n := range want {
		if n > 0 {
			wrong = append(wrong, "also at "+k)
		}
	}
	if len(wrong) > 0 {
		sort.Strings(wrong)
		e.c.SubP(name)
		e.c.Fail("references", "%s: %s at %v of %s in %q: it is %s", name, means, p.Position, file, t, strings.Join(wrong, ", "))
	}
}

// targets are the names that the generated places can mean.
var targets = []string{"x", "y", "M", "B", "xx", "X", "A\\x", "A\\B", "A\\B\\x", "A\\B\\y", "A\\B\\B", "A\\x\\x", "M\\x", "B\\x", "x\\x", "A\\A\\x", "A\\B\\B\\x", "A\\x\\B\\x"}

// world declares the targets and refers to each of them.
func (e *env) world() {
	var d, r strings.Builder
	var dp, rp []place
	d.WriteString("<?php\n")
	r.WriteString("<?php\n")
	for _, t := range targets {
		i := strings.LastIndexByte(t, '\\')
		ns := ""
		if i > 0 {
			ns = t[:i]
		}
		d.WriteString("namespace " + ns + " {\nclass ")
		dp = append(dp, place{from: d.Len(), to: d.Len() + len(t) - i - 1, means: "class " + t, decl: true})
		d.WriteString(t[i+1:] + " {}\nfunction ")
		dp = append(dp, place{from: d.Len(), to: d.Len() + len(t) - i - 1, means: "function " + t, decl: true})
		d.WriteString(t[i+1:] + "() {}\n}\n")
		r.WriteString("new ")
		rp = append(rp, place{from: r.Len(), to: r.Len() + len(t) + 1, means: "class " + t})
		r.WriteString("\\" + t + "(")
		rp = append(rp, place{from: r.Len(), to: r.Len() + len(t) + 1, means: "function " + t})
		r.WriteString("\\" + t + "());\n")
	}
	e.put("d.php", d.String(), dp)
	e.s.Open("d.php")
	e.open["d.php"] = true
	e.put("r.php", r.String(), rp)
}

// meaning of a name of a kind, by PHP's rules. In the namespace none of the targets is declared.
func meaning(kind, name, ns string, cl []names.Clause) string {
	if kind == names.Typed {
		kind = "class"
	}
	if strings.HasPrefix(name, "\\") {
		return kind + " " + name[1:]
	}
	first, rest, qualified := names.Cut(name, "\\")
	want := kind
	if qualified {
		want = "class"
	}
	for _, c := range cl {
		if c.Kind == want && c.Alias == first {
			if qualified {
				return kind + " " + c.Target + "\\" + rest
			}
			return kind + " " + c.Target
		}
	}
	if ns == "" || kind == "function" && !qualified {
		return kind + " " + name
	}
	return kind + " " + ns + "\\" + name
}

// program is a file with one declaration of imports and one place.
func program(ns string, d names.Decl, sites []names.Site, written []string) (string, []place) {
	var b strings.Builder
	b.WriteString("<?php\n")
	if ns != "" {
		b.WriteString("namespace " + ns + ";\n")
	}
	b.WriteString(d.Text + " /* é😀 */")
	var ps []place
	for i, s := range sites {
		t := strings.ReplaceAll(s.Text, "%d", fmt.Sprint(i+1))
		for j, part := range strings.Split(t, "%s") {
			if j > 0 {
				ps = append(ps, place{from: b.Len(), to: b.Len() + len(written[i]), means: meaning(s.Kind, written[i], ns, d.Clauses)})
				b.WriteString(written[i])
			}
			b.WriteString(part)
		}
		b.WriteString("\n")
	}
	return b.String(), ps
}

// exact are the names whose letter case is that of what they mean.
func exact(n string) bool {
	return n != "X" && n != "m\\x" && !strings.HasPrefix(n, "namespace")
}

func inTargets(means string) bool {
	for _, t := range targets {
		if strings.HasSuffix(means, " "+t) {
			return true
		}
	}
	return false
}

func written(e *kit.Enum) {
	var sites []names.Site
	for _, s := range names.Sites {
		if s.Kind != "const" {
			sites = append(sites, s)
		}
	}
	decls := append([]names.Decl{{Text: ""}}, names.Decls...)
	for i, d := range decls {
		d := d
		for _, ns := range []string{"", "N"} {
			ns := ns
			e.Case(fmt.Sprintf("written/%d/%s", i, ns), func(c *kit.C) {
				v := start(c)
				defer v.s.Stop()
				v.world()
				for j, s := range sites {
					for k, n := range names.Names {
						if !exact(n) || s.Kind == names.Typed && strings.Contains(n, "\\") {
							continue
						}
						other := sites[(j+k+1)%len(sites)]
						second := "x"
						if other.Kind == names.Typed {
							second = "B"
						}
						for m, ss := range [][]names.Site{{s}, {s, other}} {
							t, ps := program(ns, d, ss, []string{n, second})
							v.put("a.php", t, ps)
							c.Distinct(t)
							c.Trans(1)
							name := s.Kind + " " + s.Text
							if m == 1 {
								name += " and " + other.Text
							}
							for _, p := range ps {
								if ns != "" || inTargets(p.means) {
									v.ask(name, "a.php", p.from, p.means)
									v.ask(name, "a.php", p.to, p.means)
								}
							}
							for _, p := range v.places["d.php"] {
								if p.means == ps[0].means {
									v.ask(name+" from declaration", "d.php", p.from, p.means)
								}
							}
						}
					}
				}
			})
		}
	}
}

// fallback: which functions exist tells what an unqualified call means.
func fallback(e *kit.Enum) {
	names := []string{"x", "N\\x", "N\\M\\x"}
	spaces := []string{"", "N", "N\\M"}
	for first := 0; first < 8; first++ {
		first := first
		e.Case(fmt.Sprintf("fallback/%d", first), func(c *kit.C) {
			for second := 0; second < 8; second++ {
				v := start(c)
				for step, set := range []int{first, second} {
					exists := map[string]bool{}
					var d, a strings.Builder
					var dp, ap []place
					d.WriteString("<?php\n")
					for i, n := range names {
						d.WriteString("namespace " + spaces[i] + " {\n")
						if set&(1<<uint(i)) != 0 {
							exists[n] = true
							d.WriteString("function ")
							dp = append(dp, place{from: d.Len(), to: d.Len() + 1, means: "function " + n, decl: true})
							d.WriteString("x() {}\n")
						}
						d.WriteString("}\n")
					}
					a.WriteString("<?php\n")
					for i, ns := range spaces {
						a.WriteString("namespace " + ns + " {\n")
						own := names[i]
						if !exists[own] && exists["x"] {
							own = "x"
						}
						for _, w := range []struct{ text, means string }{{"x", own}, {"\\x", "x"}, {"\\N\\x", "N\\x"}, {"M\\x", strings.TrimPrefix(ns+"\\M\\x", "\\")}} {
							ap = append(ap, place{from: a.Len(), to: a.Len() + len(w.text), means: "function " + w.means})
							a.WriteString(w.text + "();\n")
						}
						a.WriteString("}\n")
					}
					v.put("d.php", d.String(), dp)
					if step == 0 {
						v.s.Open("d.php")
						v.open["d.php"] = true
						v.put("a.php", a.String(), ap)
					}
					v.places["a.php"] = ap
					for i := range ap {
						ap[i].file = "a.php"
					}
					c.Distinct(d.String())
					c.Trans(1)
					for _, p := range append(append([]place(nil), ap...), dp...) {
						// What exists nowhere may mean any of the two
						if !exists[strings.TrimPrefix(p.means, "function ")] {
							continue
						}
						v.ask(fmt.Sprintf("functions %d after %d", set, first), p.file, p.from, p.means)
						v.ask(fmt.Sprintf("functions %d after %d", set, first), p.file, p.to, p.means)
					}
				}
				v.s.Stop()
			}
		})
	}
}

func main() {
	kit.Main(kit.Check{
		ID:    "C17",
		Level: "model_checking",
		Rule:  "the places of what is under the cursor are known by construction, by PHP's rules of names; the references must be exactly those",
		Enumerate: func(e *kit.Enum) {
			written(e)
			fallback(e)
			members(e)
			sizes(e)
			histories(e)
		},
	})
}
