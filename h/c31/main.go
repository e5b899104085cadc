// C31: what is told to be deprecated are the references to what is deprecated.
package main

import (
	"fmt"
	"regexp"
	"sort"
	"strings"
	"unicode/utf16"

	"github.com/john-nguyen09/phpintel/internal/lsp/protocol"
	"github.com/john-nguyen09/phpintel/internal/zzverif/kit"
	debounce "github.com/john-nguyen09/phpintel/internal/zzverif/mcdebounce"
	"github.com/john-nguyen09/phpintel/internal/zzverif/refs"
	"github.com/john-nguyen09/phpintel/internal/zzverif/srv"
)

func position(text string, off int) protocol.Position {
	l := strings.Count(text[:off], "\n")
	line := text[strings.LastIndexByte(text[:off], '\n')+1 : off]
	return protocol.Position{Line: l, Character: len(utf16.Encode([]rune(line)))}
}

func before(a, b protocol.Position) bool {
	return a.Line < b.Line || a.Line == b.Line && a.Character < b.Character
}

var (
	oneLine   = regexp.MustCompile(`/\*\* (@var int )?W(\w+?)W \*/`)
	manyLines = regexp.MustCompile(` \* W(\w+?)W\n \*\n`)
	word      = regexp.MustCompile(`W(\w+?)W`)
)

// world are the declarations, those chosen are deprecated.
func world(dep func(w string) bool) string {
	w := oneLine.ReplaceAllStringFunc(refs.World, func(s string) string {
		m := oneLine.FindStringSubmatch(s)
		if !dep(m[2]) {
			return "/**\n * " + strings.Trim(m[1], " ") + "\n */"
		}
		return "/**\n * " + strings.Trim(m[1], " ") + "\n * @deprecated W" + m[2] + "W\n */"
	})
	return manyLines.ReplaceAllStringFunc(w, func(s string) string {
		m := manyLines.FindStringSubmatch(s)
		if !dep(m[1]) {
			return ""
		}
		return " * @deprecated W" + m[1] + "W\n"
	})
}

// meant are the words of what a reference refers to.
func meant(r *refs.Ref) []string {
	if len(r.Want) == 1 && (r.Want[0] == "Pc" || r.Want[0] == "Mc") {
		// new names the class
		if strings.HasPrefix(r.What, "C.") {
			return []string{r.What[2:3]}
		}
		return nil
	}
	if len(r.Want) == 1 && r.Want[0] == "T" {
		return nil // what documents a trait is not kept
	}
	return r.Want
}

func judge(sub string, c *kit.C, s *srv.S, d *refs.Doc, from int, dep func(string) bool, which string) {
	text := d.B.String()
	for fs := debounce.Take(); len(fs) > 0; fs = debounce.Take() {
		for _, f := range fs {
			f()
		}
	}
	ds, _ := s.Diags("a.php")
	c.Eval(1)
	type told struct {
		words []string
		at    protocol.Range
		msg   string
		taken bool
	}
	var got []*told
	for _, x := range ds {
		for _, tag := range x.Tags {
			if tag == protocol.Deprecated && !before(x.Range.Start, position(text, from)) {
				t := &told{at: x.Range, msg: x.Message}
				for _, m := range word.FindAllStringSubmatch(x.Message, -1) {
					t.words = append(t.words, m[1])
				}
				got = append(got, t)
			}
		}
	}
	// The narrowest ones first
	sort.SliceStable(got, func(i, j int) bool { return before(got[j].at.Start, got[i].at.Start) })
	var wrong []string
	for i := len(d.Refs) - 1; i >= 0; i-- {
		r := &d.Refs[i]
		if r.Start < 0 {
			continue
		}
		want := map[string]bool{}
		for _, w := range meant(r) {
			if dep(w) {
				want[w] = true
			}
		}
		if len(want) == 0 {
			continue
		}
		found := false
		for _, t := range got {
			if t.taken || len(t.words) != 1 || !want[t.words[0]] {
				continue
			}
			if before(position(text, r.Start), t.at.Start) || before(t.at.End, position(text, r.End)) || before(t.at.Start, position(text, r.Lo)) || before(position(text, r.Hi), t.at.End) || strings.HasPrefix(t.msg, " ") {
				continue
			}
			t.taken, found = true, true
			break
		}
		if !found {
			wrong = append(wrong, fmt.Sprintf("%q at %d is not told", text[r.Start:r.End], r.Start-from))
		}
	}
	// what is named in another way may be told
	allowed := func(words []string, at protocol.Range) bool {
		if len(words) != 1 || !dep(words[0]) {
			return false
		}
		for i := range d.Refs {
			r := &d.Refs[i]
			if before(at.Start, position(text, r.Lo)) || before(position(text, r.Hi), at.End) {
				continue
			}
			for _, w := range r.Want {
				if r.Start < 0 && w == words[0] {
					return true
				}
			}
		}
		for _, kw := range []string{"self", "static", "parent"} {
			for off := from; off+len(kw) <= len(text); off++ {
				if text[off:off+len(kw)] == kw && position(text, off) == at.Start && position(text, off+len(kw)) == at.End {
					return true
				}
			}
		}
		return false
	}
	for _, t := range got {
		if strings.HasPrefix(t.msg, " ") || !t.taken && !allowed(t.words, t.at) {
			wrong = append(wrong, fmt.Sprintf("%q is told at %v", t.msg, t.at))
		}
	}
	if len(wrong) > 0 {
		c.Fail(sub, "with %s deprecated, in %q: %s", which, text[from:], strings.Join(wrong, "; "))
	}
}

func main() {
	kit.Main(kit.Check{
		ID:    "C31",
		Level: "model_checking",
		Rule:  "a case is a set of documents of one context; two are distinct when the texts or what is deprecated differ",
		Assumptions: []string{
			"each declaration is told by a word in the description of its @deprecated tag",
			"of several declarations which a reference of a union type leads to, one is told",
		},
		HangSeconds: 60,
		Bounds: func(t bool) string {
			return fmt.Sprintf("%d expressions in %d places and %d statements, in %d contexts; everything deprecated, and each declaration alone", len(refs.Exprs), len(refs.Holes()), len(refs.Stmts), len(refs.Ctxs()))
		},
		Enumerate: func(en *kit.Enum) {
			for _, x := range refs.Ctxs() {
				x := x
				run := func(c *kit.C, texts []string, subs []string) {
					files := map[string]string{"a.php": "<?php\n"}
					if !x.Same {
						files["w.php"] = "<?php\n"
					}
					s := srv.Start(c.Scratch(), files)
					defer s.Stop()
					if !x.Same {
						s.Open("w.php")
					}
					s.Open("a.php")
					last := ""
					for i, t := range texts {
						// what is deprecated
						p := &refs.Doc{Name: x.NameFunc}
						p.Emit(t)
						which := []string{"everything", "nothing"}
						seen := map[string]bool{}
						for j := range p.Refs {
							for _, w := range meant(&p.Refs[j]) {
								if w != "" && !seen[w] {
									seen[w] = true
									which = append(which, w)
								}
							}
						}
						for _, wh := range which {
							dep := func(w string) bool {
								return wh == "everything" && w != "Pc" && w != "Mc" || w == wh
							}
							w := world(dep)
							if x.WorldNS != "" {
								w = "namespace " + x.WorldNS + ";\n" + w
							}
							d := &refs.Doc{Name: x.NameFunc}
							d.B.WriteString("<?php\n")
							if x.Same {
								d.B.WriteString(w)
							} else if w != last {
								last = w
								s.Change("w.php", "<?php\n"+w)
							}
							d.B.WriteString(x.Open)
							from := d.B.Len()
							d.Emit(t)
							d.B.WriteString(x.Shut)
							c.SubP(subs[i])
							c.Distinct(wh + d.B.String())
							s.Change("a.php", d.B.String())
							judge(subs[i], c, s, d, from, dep, wh)
						}
					}
				}
				for _, h := range refs.Holes() {
					h := h
					en.Case("expressions "+x.Name+" "+h.Name, func(c *kit.C) {
						var ts, subs []string
						for _, e := range refs.Exprs {
							ts = append(ts, h.Before+e+h.After)
							subs = append(subs, e)
						}
						run(c, ts, subs)
					})
				}
				for _, o := range refs.Outer {
					o := o
					if !en.Thorough {
						break
					}
					for _, h := range refs.Holes() {
						h := h
						if strings.Contains(h.Before, "class ZZ") || strings.Contains(h.Before, "trait ZZ") || strings.Contains(h.Before, "function z") {
							continue
						}
						en.Case("expressions "+x.Name+" "+o.Name+" "+h.Name, func(c *kit.C) {
							var ts, subs []string
							for _, e := range refs.Exprs {
								ts = append(ts, o.Before+h.Before+e+h.After+o.After)
								subs = append(subs, e)
							}
							run(c, ts, subs)
						})
					}
				}
				en.Case("more "+x.Name, func(c *kit.C) { run(c, refs.More, refs.More) })
				en.Case("statements "+x.Name, func(c *kit.C) { run(c, refs.Stmts, refs.Stmts) })
			}
		},
	})
}
