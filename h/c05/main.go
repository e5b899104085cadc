// C05: incremental edits leave exactly the text the editor has.
package main

import (
	"fmt"

	"github.com/john-nguyen09/phpintel/analysis"
	"github.com/john-nguyen09/phpintel/internal/lsp/protocol"
	"github.com/john-nguyen09/phpintel/internal/zzverif/kit"
	"github.com/john-nguyen09/phpintel/internal/zzverif/ref"
)

type edit struct {
	full   bool
	s, e   ref.Pos
	insert string
}

func (d edit) event() protocol.TextDocumentContentChangeEvent {
	if d.full {
		return protocol.TextDocumentContentChangeEvent{Text: d.insert}
	}
	return protocol.TextDocumentContentChangeEvent{Range: &protocol.Range{
		Start: protocol.Position{Line: d.s.L, Character: d.s.C},
		End:   protocol.Position{Line: d.e.L, Character: d.e.C},
	}, Text: d.insert}
}

func (d edit) apply(t string) string {
	if d.full {
		return d.insert
	}
	return ref.Splice(t, d.s.L, d.s.C, d.e.L, d.e.C, d.insert)
}

func (d edit) String() string {
	if d.full {
		return fmt.Sprintf("full%q", d.insert)
	}
	return fmt.Sprintf("[%d:%d-%d:%d]%q", d.s.L, d.s.C, d.e.L, d.e.C, d.insert)
}

func edits(t string, ins []string, beyond bool, full []string) []edit {
	var out []edit
	ps := ref.Positions(t, beyond)
	for _, s := range ps {
		for _, e := range ps {
			if e.Less(s) {
				continue
			}
			for _, i := range ins {
				if s == e && i == "" {
					continue
				}
				out = append(out, edit{s: s, e: e, insert: i})
			}
		}
	}
	for _, f := range full {
		out = append(out, edit{full: true, insert: f})
	}
	return out
}

// compare checks text and every position of it.
func compare(c *kit.C, sub string, d *analysis.Document, want string, allPos bool) {
	c.Eval(1)
	if got := string(d.GetText()); got != want {
		c.Fail(sub, "text is %q, want %q", got, want)
		return
	}
	if !allPos {
		return
	}
	for _, p := range ref.Positions(want, true) {
		c.Eval(1)
		got := d.OffsetAtPosition(protocol.Position{Line: p.L, Character: p.C})
		if w := ref.Offset(want, p.L, p.C); got != w {
			c.Fail(sub, "text %q: position %d:%d denotes offset %d, want %d", want, p.L, p.C, got, w)
			return
		}
	}
}

// step applies one notification to the document the way the server does, with a fresh document per notification.
func step(d *analysis.Document, es ...edit) *analysis.Document {
	n := d.CloneForMutate()
	var ev []protocol.TextDocumentContentChangeEvent
	for _, e := range es {
		ev = append(ev, e.event())
	}
	n.ApplyChanges(ev)
	return n
}

func main() {
	kit.Main(kit.Check{
		ID: "C05", Level: "model_checking",
		Rule: "direct exploration of the real document: every text over the alphabet x every edit sequence, compared after every notification with a byte-string model; a state is a document text",
		Bounds: func(th bool) string {
			return "alphabet {a,LF,CR,2-byte,4-byte}; 1 edit: texts<=4 (5 thorough) symbols, inserts<=2, all position pairs incl. out of range; 2 edits in one and in two notifications: texts<=2, inserts<=1; 3 edits: texts<=1 (2), inserts<=1"
		},
		Assumptions: []string{"edit positions lie at UTF-16 code point boundaries and start<=end"},
		Enumerate:   enumerate,
	})
}

func enumerate(e *kit.Enum) {
	al := []string{"a", "\n", "\r", "é", "😀"}
	n1, n3 := 4, 1
	if e.Thorough {
		n1, n3 = 5, 2
	}
	ins2 := ref.Strings(al, 2)
	ins1 := append(ref.Strings(al, 1), "\r\n")
	fulls := []string{"", "a", "\r\n", "é\na", "\r"}
	for _, t := range ref.Strings(al, n1) {
		t := t
		e.Case(fmt.Sprintf("one %q", t), func(c *kit.C) {
			d := analysis.NewDocument("file:///a.php", []byte(t))
			compare(c, "initial", d, t, true)
			for _, ed := range edits(t, ins2, true, fulls) {
				w := ed.apply(t)
				c.Sub(ed.String())
				r := step(d, ed)
				c.Trans(1)
				c.State(w)
				compare(c, ed.String(), r, w, true)
				c.Distinct(fmt.Sprint(len(w), len(t), ed.full))
			}
			if string(d.GetText()) != t {
				c.Fail("base", "the document before the change was modified to %q", d.GetText())
			}
		})
	}
	for _, t := range ref.Strings(al, 2) {
		t := t
		e.Case(fmt.Sprintf("two %q", t), func(c *kit.C) {
			d := analysis.NewDocument("file:///a.php", []byte(t))
			for _, e1 := range edits(t, ins1, false, fulls) {
				t1 := e1.apply(t)
				d1 := step(d, e1)
				for _, e2 := range edits(t1, ins1, false, fulls[:2]) {
					w := e2.apply(t1)
					sub := e1.String() + " " + e2.String()
					c.Sub(sub)
					c.State(w)
					// in two notifications
					compare(c, sub, step(d1, e2), w, true)
					// in one notification
					compare(c, sub+" together", step(d, e1, e2), w, true)
					c.Trans(2)
				}
			}
		})
	}
	for _, t := range ref.Strings(al, n3) {
		t := t
		for _, e1 := range edits(t, ins1, false, fulls) {
			e1 := e1
			e.Case(fmt.Sprintf("three %q %s", t, e1), func(c *kit.C) {
				d := analysis.NewDocument("file:///a.php", []byte(t))
				t1 := e1.apply(t)
				d1 := step(d, e1)
				small := []string{"", "a", "\n", "\r", "😀"}
				for _, e2 := range edits(t1, small, false, fulls[:1]) {
					t2 := e2.apply(t1)
					d2 := step(d1, e2)
					for _, e3 := range edits(t2, small, false, nil) {
						w := e3.apply(t2)
						sub := e1.String() + " " + e2.String() + " " + e3.String()
						c.Sub(sub)
						c.State(w)
						compare(c, sub, step(d2, e3), w, true)
						compare(c, sub+" together", step(d1, e2, e3), w, true)
						c.Trans(2)
					}
				}
			})
		}
	}
}
