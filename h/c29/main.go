// C29: hovering over a reference shows the declarations it leads to.
package main

import (
	"fmt"
	"sort"
	"strings"
	"unicode/utf16"

	"github.com/john-nguyen09/phpintel/internal/lsp/protocol"
	"github.com/john-nguyen09/phpintel/internal/zzverif/kit"
	debounce "github.com/john-nguyen09/phpintel/internal/zzverif/mcdebounce"
	"github.com/john-nguyen09/phpintel/internal/zzverif/refs"
	"github.com/john-nguyen09/phpintel/internal/zzverif/srv"
)

func words(s string) []string {
	var r []string
	seen := map[string]bool{}
	for i := 0; i < len(s); i++ {
		if s[i] != 'W' {
			continue
		}
		j := strings.IndexByte(s[i+1:], 'W')
		if j < 1 || strings.ContainsAny(s[i+1:i+1+j], " \n`\\():;") {
			continue
		}
		w := s[i+1 : i+1+j]
		i += j + 1
		if !seen[w] {
			seen[w] = true
			r = append(r, w)
		}
	}
	// traits have no description
	if strings.Contains(s, "trait T\n") {
		r = append(r, "T")
	}
	sort.Strings(r)
	return r
}

func same(a, b []string) bool { return strings.Join(a, ",") == strings.Join(b, ",") }

func position(text string, off int) protocol.Position {
	l := strings.Count(text[:off], "\n")
	line := text[strings.LastIndexByte(text[:off], '\n')+1 : off]
	return protocol.Position{Line: l, Character: len(utf16.Encode([]rune(line)))}
}

func before(a, b protocol.Position) bool {
	return a.Line < b.Line || a.Line == b.Line && a.Character < b.Character
}

// judge hovers over every place of what was written from an offset on.
func judge(c *kit.C, s *srv.S, d *refs.Doc, from int) {
	text := d.B.String()
	for off := from; off <= len(text); off++ {
		if off < len(text) && text[off]&0xc0 == 0x80 {
			continue
		}
		p := position(text, off)
		c.Eval(1)
		h, err := s.Hover(s.Ctx, &protocol.HoverParams{TextDocumentPositionParams: s.At("a.php", p.Line, p.Character)})
		if err != nil {
			c.Fail("error", "hovering fails: %v", err)
			return
		}
		content := ""
		if h != nil {
			content = h.Contents.Value
		}
		got := words(content)
		may := map[string]bool{}
		var in, at *refs.Ref
		for i := range d.Refs {
			r := &d.Refs[i]
			if off >= r.Start && off < r.End {
				in = r
			}
			if off == r.End {
				at = r
			}
			if off >= r.Lo && off <= r.Hi {
				for _, w := range r.Want {
					may[w] = true
				}
			}
		}
		where := text[from:off] + "|" + text[off:]
		if in != nil {
			want := append([]string{}, in.Want...)
			sort.Strings(want)
			if !same(got, want) {
				c.Fail(in.What, "hovering over %q shows %q, not %q, in %q", text[in.Start:in.End], got, want, where)
				continue
			}
			if h == nil {
				if len(want) > 0 {
					c.Fail(in.What, "nothing is shown in %q", where)
				}
				continue
			}
			if len(want) > 0 {
				if h.Range == nil {
					c.Fail(in.What, "no range in %q", where)
				} else if before(position(text, in.Start), h.Range.Start) || before(h.Range.End, position(text, in.End)) ||
					before(h.Range.Start, position(text, in.Lo)) || before(position(text, in.Hi), h.Range.End) {
					c.Fail(in.What, "the range %v is not that of %q in %q", *h.Range, text[in.Start:in.End], where)
				}
			}
			continue
		}
		_ = at
		for _, w := range got {
			if !may[w] {
				c.Fail("elsewhere", "%q is shown in %q", w, where)
			}
		}
	}
}

func main() {
	kit.Main(kit.Check{
		ID:          "C29",
		Level:       "model_checking",
		Rule:        "a case is a set of documents of one context; two documents are distinct when their texts differ",
		Assumptions: []string{"each declaration is told by a word in its description"},
		HangSeconds: 60,
		Bounds: func(t bool) string {
			return fmt.Sprintf("%d expressions in %d places and %d statements, in %d contexts; every position of each", len(refs.Exprs), len(refs.Holes()), len(refs.Stmts), len(refs.Ctxs()))
		},
		Enumerate: func(en *kit.Enum) {
			for _, x := range refs.Ctxs() {
				x := x
				run := func(c *kit.C, texts []string, subs []string) {
					w := refs.World
					if x.WorldNS != "" {
						w = "namespace " + x.WorldNS + ";\n" + w
					}
					files := map[string]string{"a.php": "<?php\n"}
					if !x.Same {
						files["w.php"] = "<?php\n" + w
					}
					s := srv.Start(c.Scratch(), files)
					defer s.Stop()
					if !x.Same {
						s.Open("w.php")
					}
					s.Open("a.php")
					for i, t := range texts {
						d := &refs.Doc{Name: x.NameFunc}
						d.B.WriteString("<?php\n")
						if x.Same {
							d.B.WriteString(w)
						}
						d.B.WriteString(x.Open)
						from := d.B.Len()
						d.Emit(t)
						d.B.WriteString(x.Shut)
						c.SubP(subs[i])
						c.Distinct(d.B.String())
						s.Change("a.php", d.B.String())
						debounce.Take()
						judge(c, s, d, from)
					}
				}
				for _, h := range refs.Holes() {
					h := h
					en.Case("expressions "+x.Name+" "+h.Name, func(c *kit.C) {
						var ts, subs []string
						for _, e := range refs.Exprs {
							ts = append(ts, h.Before+e+h.After)
							subs = append(subs, e)
						}
						run(c, ts, subs)
					})
				}
				for _, o := range refs.Outer {
					o := o
					if !en.Thorough {
						break
					}
					for _, h := range refs.Holes() {
						h := h
						if strings.Contains(h.Before, "class ZZ") || strings.Contains(h.Before, "trait ZZ") || strings.Contains(h.Before, "function z") {
							continue
						}
						en.Case("expressions "+x.Name+" "+o.Name+" "+h.Name, func(c *kit.C) {
							var ts, subs []string
							for _, e := range refs.Exprs {
								ts = append(ts, o.Before+h.Before+e+h.After+o.After)
								subs = append(subs, e)
							}
							run(c, ts, subs)
						})
					}
				}
				en.Case("more "+x.Name, func(c *kit.C) { run(c, refs.More, refs.More) })
				en.Case("statements "+x.Name, func(c *kit.C) { run(c, refs.Stmts, refs.Stmts) })
				en.Case("offered "+x.Name, func(c *kit.C) { offered(c, x) })
			}
			signatures(en)
		},
	})
}
