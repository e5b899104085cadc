package main

import (
	"fmt"
	"sort"
	"strings"

	"github.com/john-nguyen09/phpintel/internal/lsp/protocol"
	"github.com/john-nguyen09/phpintel/internal/zzverif/corpus"
	"github.com/john-nguyen09/phpintel/internal/zzverif/kit"
	debounce "github.com/john-nguyen09/phpintel/internal/zzverif/mcdebounce"
	"github.com/john-nguyen09/phpintel/internal/zzverif/srv"
)

var versions = []string{
	"<?php\n",
	"<?php\noldf(); $x = new OldC;\n",
	"<?php\nuse M\\N;\nuse Q; function f(OldC $a) { oldf(1, (new Q)->m(); }\n",
	"<?php\r\n\r\n$é = oldf(); /* 😀 */ oldf(); use A as B;",
	"<?php\nfunction (",
}

// listed are diagnostics as text, in order.
func listed(ds []protocol.Diagnostic) string {
	var out []string
	for _, d := range ds {
		out = append(out, fmt.Sprintf("%v %v %v %v", d.Range, d.Severity, d.Tags, d.Message))
	}
	sort.Strings(out)
	return strings.Join(out, "\n")
}

// doc is an open document and its text.
type doc struct {
	rel, text string
	open      bool
}

// op is something that happens to documents.
type op struct {
	name string
	do   func(h *history)
}

type history struct {
	s    *srv.S
	docs map[string]*doc
}

func (h *history) set(rel, text string) {
	d := h.docs[rel]
	if d.open {
		d.text = text
		h.s.Change(rel, text)
	}
}

// edit inserts text at a place.
func (h *history) edit(rel string, l, ch int, text string) {
	d := h.docs[rel]
	if !d.open {
		return
	}
	lines := strings.SplitAfter(d.text, "\n")
	if l >= len(lines) {
		return
	}
	off := ch
	for _, s := range lines[:l] {
		off += len(s)
	}
	d.text = d.text[:off] + text + d.text[off:]
	pos := protocol.Position{Line: l, Character: ch}
	p := &protocol.DidChangeTextDocumentParams{ContentChanges: []protocol.TextDocumentContentChangeEvent{{Text: text, Range: &protocol.Range{Start: pos, End: pos}}}}
	p.TextDocument.URI = h.s.URI(rel)
	h.s.Server.DidChange(h.s.Ctx, p)
}

func (h *history) toggle(rel string) {
	d := h.docs[rel]
	if d.open {
		h.s.Close(rel)
		d.open = false
		return
	}
	h.s.Write(rel, d.text)
	h.s.Open(rel)
	d.open = true
}

var ops = []op{
	{"A1", func(h *history) { h.set("a.php", versions[1]) }},
	{"A2", func(h *history) { h.set("a.php", versions[2]) }},
	{"A4", func(h *history) { h.set("a.php", versions[4]) }},
	{"A+", func(h *history) { h.edit("a.php", 1, 0, "\noldf();") }},
	{"A/", func(h *history) { h.toggle("a.php") }},
	{"B1", func(h *history) { h.set("b.php", versions[1]) }},
	{"B3", func(h *history) { h.set("b.php", versions[3]) }},
	{"B/", func(h *history) { h.toggle("b.php") }},
	{"due", func(h *history) { drain() }},
}

func histories(e *kit.Enum) {
	for _, immediate := range []bool{false, true} {
		for i := range ops {
			immediate, i := immediate, i
			e.Case(fmt.Sprintf("histories/%v/%s", immediate, ops[i].name), func(c *kit.C) {
				debounce.Immediate = immediate
				defer func() { debounce.Immediate = false }()
				fresh := start(c)
				expected := map[string]string{}
				expect := func(rel, text string) string {
					if want, ok := expected[rel+text]; ok {
						return want
					}
					fresh.s.Write(rel, text)
					fresh.s.Open(rel)
					drain()
					ds, _ := fresh.s.Diags(rel)
					fresh.s.Close(rel)
					expected[rel+text] = listed(ds)
					return expected[rel+text]
				}
				for _, t := range versions {
					expect("a.php", t)
					expect("b.php", t)
				}
				n := 0
				var v *env
				var run func(seq []int)
				run = func(seq []int) {
					if len(seq) < 3 || c.Thorough() && len(seq) < 4 {
						for j := range ops {
							if j != seq[len(seq)-1] || ops[j].name == "A+" {
								run(append(append([]int{}, seq...), j))
							}
						}
					}
					if n++; v == nil || n%200 == 0 {
						if v != nil {
							v.s.Stop()
							drain()
						}
						v = start(c)
					}
					h := &history{s: v.s, docs: map[string]*doc{"a.php": {rel: "a.php", text: "<?php\n", open: true}, "b.php": {rel: "b.php", text: "<?php\n", open: true}}}
					v.s.Write("a.php", "<?php\n")
					v.s.Write("b.php", "<?php\n")
					v.s.Open("a.php")
					v.s.Open("b.php")
					var names []string
					for _, j := range seq {
						ops[j].do(h)
						names = append(names, ops[j].name)
					}
					drain()
					name := strings.Join(names, " ")
					c.Trans(len(seq))
					for _, d := range []*doc{h.docs["a.php"], h.docs["b.php"]} {
						if !d.open {
							continue
						}
						got := listed(v.within(name, d.rel, d.text))
						if want := expect(d.rel, d.text); got != want {
							c.SubP(name)
							c.Fail("histories", "%s: the last diagnostics of %s, which is %q, are %q, expected %q", name, d.rel, d.text, got, want)
						}
						if d.open {
							v.s.Close(d.rel)
						}
					}
				}
				run([]int{i})
				// what is due when the server stops does no harm
				v.s.Open("a.php")
				v.s.Change("a.php", versions[1])
				v.s.Stop()
				drain()
				fresh.s.Stop()
			})
		}
	}
}

// texts are the ranges for texts of every kind.
func texts(e *kit.Enum) {
	all := corpus.Texts()
	var keys []string
	for k := range all {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		t := all[k]
		e.Case("texts/"+k, func(c *kit.C) {
			v := start(c)
			defer v.s.Stop()
			step := 1
			if len(t) > 1000 && !c.Thorough() {
				step = 3
			}
			for i := 0; i <= len(t); i += step {
				if i < len(t) && t[i]&0xc0 == 0x80 {
					continue
				}
				v.s.Change("a.php", t[:i])
				drain()
				v.within("prefix", "a.php", t[:i])
				c.Trans(1)
			}
			for i, u := range corpus.Unfinished {
				p := t + "\n" + u
				v.s.Change("a.php", p)
				drain()
				v.within(fmt.Sprint("unfinished ", i), "a.php", p)
			}
		})
	}
}
