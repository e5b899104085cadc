// C06: positions and text offsets agree, by the protocol's definition.
package main

import (
	"fmt"
	"sort"
	"strings"

	"github.com/john-nguyen09/phpintel/analysis"
	"github.com/john-nguyen09/phpintel/internal/lsp/protocol"
	"github.com/john-nguyen09/phpintel/internal/zzverif/hx"
	"github.com/john-nguyen09/phpintel/internal/zzverif/kit"
	"github.com/john-nguyen09/phpintel/internal/zzverif/ref"

	"github.com/john-nguyen09/go-phpparser/lexer"
	"github.com/john-nguyen09/go-phpparser/phrase"
)

// slots are @1@ .. @7@; each is inside a comment or a string
const base = `<?php /*@1@*/
namespace Nsp;
use Oth\Imp; use Oth\Unu;
/*@2@*/ class Cls extends Imp implements Ifc { /*@3@*/ const CC = '@4@'; public $prop = "@4@"; static $sta;
  function meth(Cls $par, $q = '@5@') { /*@5@*/ $loc = foo('@6@', $this->prop, $par) ; return $loc->meth(1)->prop; }
}
interface Ifc {} trait Tra {} function foo($a) { return new Cls(/*@3@*/ Cls::CC, Cls::$sta, \Nsp\foo(2)); }
const KK = '@7@'; /*@7@*/ define('DD', 1); $glo = KK; echo /*@1@*/ Imp::make($glo, DD);
`

// syntax errors after and around slots
var errBases = []string{
	"<?php /*@1@*/ function f( { /*@2@*/ } $x = ; '@3@' class { }",
	"<?php '@1@'; $a = ) /*@2@*/ foo '@3@' bar; $b = 1;",
	"<?php foo('@1@' 2 /*@2@*/ 3); class A { foo /*@3@*/ bar baz; }",
}

// skipped gives the texts of what the parser could not make sense of, in the order of the tree:
// what it left out, or the token it did not expect
func skipped(t string, node phrase.AstNode, out *[]string) {
	switch n := node.(type) {
	case *phrase.Phrase:
		if n.Type == phrase.DocumentComment {
			return
		}
		for _, c := range n.Children {
			skipped(t, c, out)
		}
	case *phrase.ParseError:
		first, last := n.Unexpected, n.Unexpected
		for i, c := range n.Children {
			if i == 0 {
				first = c.(*lexer.Token)
			}
			last = c.(*lexer.Token)
		}
		*out = append(*out, t[first.Offset:last.Offset+last.Length])
	}
}

// a document reports everything it locates as (what, location)
type item struct {
	what string
	r    protocol.Range
}

func locate(s *analysis.Store, d *analysis.Document, errs bool) []item {
	var out []item
	add := func(w string, r protocol.Range) { out = append(out, item{w, r}) }
	if errs {
		for i, x := range analysis.GetParserDiagnostics(d) {
			add(fmt.Sprintf("diagnostic %d", i), x.Range)
		}
		return out
	}
	for i, x := range analysis.UnusedDiagnostics(d) {
		add(fmt.Sprintf("unused %d %s", i, x.Message), x.Range)
	}
	for _, x := range s.GetClasses("\\Nsp\\Cls") {
		add("class", x.GetLocation().Range)
		add("class name", x.ReferenceLocation().Range)
	}
	for _, x := range s.GetInterfaces("\\Nsp\\Ifc") {
		add("interface", x.GetLocation().Range)
	}
	for _, x := range s.GetTraits("\\Nsp\\Tra") {
		add("trait", x.GetLocation().Range)
	}
	for _, x := range s.GetFunctions("\\Nsp\\foo") {
		add("function", x.GetLocation().Range)
	}
	for _, x := range s.GetAllMethods("\\Nsp\\Cls") {
		add("method", x.GetLocation().Range)
	}
	for _, x := range s.GetAllProperties("\\Nsp\\Cls") {
		add("property "+x.GetName(), x.GetLocation().Range)
	}
	for _, x := range s.GetAllClassConsts("\\Nsp\\Cls") {
		add("class constant", x.GetLocation().Range)
	}
	for _, x := range s.GetConsts("\\Nsp\\KK") {
		add("constant", x.GetLocation().Range)
	}
	for _, x := range s.GetConsts("KK") {
		add("constant", x.GetLocation().Range)
	}
	for _, x := range s.GetDefines("DD") {
		add("define", x.GetLocation().Range)
	}
	for _, x := range s.GetDefines("\\DD") {
		add("define", x.GetLocation().Range)
	}
	for _, rf := range []string{"\\Nsp\\Cls", "\\Nsp\\Ifc", "\\Oth\\Imp", "\\Nsp\\foo()", ".meth", ".prop", ".$prop", ".CC", ".$sta", ".make()", ".meth()", "\\Nsp\\Tra", "\\Nsp\\Cls::CC", ".make"} {
		var rs []protocol.Range
		for _, l := range s.GetReferences(rf) {
			rs = append(rs, l.Range)
		}
		sort.Slice(rs, func(i, j int) bool { return protocol.ComparePos(rs[i].Start, rs[j].Start) < 0 })
		for i, r := range rs {
			add(fmt.Sprintf("ref %s %d", rf, i), r)
		}
	}
	return out
}

func slice(t string, r protocol.Range) string {
	a, b := ref.Offset(t, r.Start.Line, r.Start.Character), ref.Offset(t, r.End.Line, r.End.Character)
	if a > b {
		return fmt.Sprintf("reversed range %s", hx.Rng(r))
	}
	// the position must be exact, not merely clamp to the right place
	if l, c := ref.Position(t, a); l != r.Start.Line || c != r.Start.Character {
		return fmt.Sprintf("no such position %s", hx.Rng(r))
	}
	if l, c := ref.Position(t, b); l != r.End.Line || c != r.End.Character {
		return fmt.Sprintf("no such position %s", hx.Rng(r))
	}
	return t[a:b]
}

type seg struct {
	slot int // 0: literal
	text string
}

func split(tpl string) []seg {
	var out []seg
	for {
		i := strings.Index(tpl, "@")
		if i < 0 {
			return append(out, seg{0, tpl})
		}
		out = append(out, seg{0, tpl[:i]})
		out = append(out, seg{int(tpl[i+1] - '0'), tpl[i : i+3]})
		tpl = tpl[i+3:]
	}
}

// render fills slots; slot 0 fills all. The map gives the new offset of each base offset.
func render(tpl string, slot int, p string) (string, []int) {
	m := make([]int, len(tpl)+1)
	var b strings.Builder
	pos := 0
	for _, s := range split(tpl) {
		for i := range s.text {
			m[pos+i] = -1
			if s.slot == 0 {
				m[pos+i] = b.Len() + i
			}
		}
		pos += len(s.text)
		switch {
		case s.slot == 0:
			b.WriteString(s.text)
		case slot == 0 || s.slot == slot:
			b.WriteString(p)
		default:
			b.WriteString("@_@")
		}
	}
	m[len(tpl)] = b.Len()
	return b.String(), m
}

func fill(tpl string, slot int, p string) string { s, _ := render(tpl, slot, p); return s }

func main() {
	kit.Main(kit.Check{
		ID: "C06", Level: "model_checking",
		Rule: "every filler text in every slot of a program (metamorphic against the ASCII program and against the protocol's own position arithmetic): all reported locations must denote the same source text, every cursor position must find the same symbol; documents made fresh and by edits. A state is one program text; a transition is one located item or cursor query",
		Bounds: func(th bool) string {
			return "filler texts up to 3 (4 thorough) symbols of {a, LF, CR, 2-byte, 3-byte, 4-byte}, 7 slots singly and together, fresh and by one edit per slot; plus all plain texts up to 5 (6) symbols x all positions"
		},
		Assumptions: []string{"documents are valid UTF-8"},
		Enumerate:   enumerate,
	})
}

type expect struct{ what, text string }

func enumerate(e *kit.Enum) {
	al := []string{"a", "\n", "\r", "é", "漢", "😀"}
	n, nt := 3, 5
	if e.Thorough {
		n, nt = 4, 6
	}
	small := []string{"a", "\n", "\r", "é", "😀"}
	// plain texts: position -> offset for every position, through a fresh document
	for _, first := range ref.Strings(small, 2) {
		first := first
		e.Case(fmt.Sprintf("plain %q*", first), func(c *kit.C) {
			rest := ref.Strings(small, nt-2)
			if len([]rune(first)) < 2 {
				rest = []string{""}
			}
			for _, r := range rest {
				t := first + r
				c.Sub(fmt.Sprintf("%q", t))
				d := analysis.NewDocument("file:///w/a.php", []byte(t))
				c.State(t)
				for _, p := range ref.Positions(t, true) {
					c.Eval(1)
					c.Trans(1)
					if g, w := d.OffsetAtPosition(protocol.Position{Line: p.L, Character: p.C}), ref.Offset(t, p.L, p.C); g != w {
						c.Fail(fmt.Sprintf("%q", t), "position %d:%d denotes offset %d, want %d", p.L, p.C, g, w)
					}
				}
			}
		})
	}
	var items []expect
	var cursor map[int]expect
	prep := func(c *kit.C) {
		if items != nil {
			return
		}
		// the ASCII program, checked by hand-written expectations
		s, done := hx.Fresh(hx.NewMemFS(), c.Scratch())
		defer done()
		t := fill(base, 9, "")
		d := hx.Index(s, "file:///w/a.php", t)
		for _, it := range locate(s, d, false) {
			items = append(items, expect{it.what, slice(t, it.r)})
		}
		want := map[string]string{
			"function": "function foo($a) { return", "interface": "interface Ifc {}", "trait": "trait Tra {}", "class constant": "CC", "ref \\Oth\\Imp 0": "Imp",
			"method": "function meth(Cls $par, $q =", "property $sta": "$sta", "ref \\Nsp\\Cls 1": "Cls", "ref \\Nsp\\foo() 1": "foo",
		}
		seen := map[string]bool{}
		for _, x := range items {
			if w, ok := want[x.what]; ok && !seen[x.what] {
				seen[x.what] = true
				c.Eval(1)
				if !strings.HasPrefix(x.text, w) {
					c.Fail("ascii program", "%s is located at %q, want text starting %q", x.what, x.text, w)
				}
			}
		}
		for w := range want {
			if !seen[w] {
				c.Fail("ascii program", "%s is not reported; have %v", w, items)
			}
		}
		cursor = map[int]expect{}
		for o := 0; o < len(t); o++ {
			l, ch := ref.Position(t, o)
			cursor[o] = at(d, t, l, ch)
		}
	}
	for _, p := range ref.Strings(al, n) {
		for slot := 0; slot <= 7; slot++ {
			p, slot := p, slot
			if strings.Count(p, "")-1 == n && n > 3 && slot != 0 && slot != 4 {
				continue
			}
			e.Case(fmt.Sprintf("slot %d %q", slot, p), func(c *kit.C) {
				prep(c)
				baseText, bm := render(base, 9, "")
				t, m := render(base, slot, p)
				c.State(t)
				check := func(how string, d *analysis.Document) {
					s, done := hx.Fresh(hx.NewMemFS(), c.Scratch())
					defer done()
					s.SyncDocument(d)
					got := locate(s, d, false)
					if len(got) != len(items) {
						c.Fail(how, "%d items are located, want %d", len(got), len(items))
						return
					}
					_ = baseText
					// expected texts: substitute in the template slice
					for i, it := range got {
						c.Eval(1)
						c.Trans(1)
						w := strings.ReplaceAll(items[i].text, "@_@", "\x00")
						g := slice(t, it.r)
						if it.what != items[i].what || !matches(w, g, p, slot) {
							c.Fail(how, "%s at %s is text %q, want %q (slots filled)", it.what, hx.Rng(it.r), g, items[i].text)
						}
					}
					for o := 0; o < len(base); o++ {
						if m[o] < 0 || bm[o] < 0 {
							continue
						}
						c.Eval(1)
						c.Trans(1)
						l, ch := ref.Position(t, m[o])
						g, w := at(d, t, l, ch), cursor[bm[o]]
						if g.what != w.what || !matches(strings.ReplaceAll(w.text, "@_@", "\x00"), g.text, p, slot) {
							c.Fail(how, "cursor at %d:%d finds %s %q, want %s %q", l, ch, g.what, g.text, w.what, w.text)
						}
					}
				}
				d := analysis.NewDocument("file:///w/a.php", []byte(t))
				d.Load()
				check("fresh", d)
				// by edits: fill one slot occurrence after the other
				e0 := analysis.NewDocument("file:///w/a.php", []byte(fill(base, 9, "")))
				e0.Load()
				cur := fill(base, 9, "")
				done := 0
				var ev []protocol.TextDocumentContentChangeEvent
				for _, sg := range split(base) {
					if sg.slot == 0 {
						done += len(sg.text)
						continue
					}
					if slot != 0 && sg.slot != slot {
						done += 3
						continue
					}
					sl, sc := ref.Position(cur, done)
					el, ec := ref.Position(cur, done+3)
					ev = append(ev, protocol.TextDocumentContentChangeEvent{Text: p, Range: &protocol.Range{
						Start: protocol.Position{Line: sl, Character: sc}, End: protocol.Position{Line: el, Character: ec}}})
					cur = cur[:done] + p + cur[done+3:]
					done += len(p)
				}
				if cur != t {
					panic("harness: edit script")
				}
				e1 := e0.CloneForMutate()
				e1.ApplyChanges(ev)
				check("edited", e1)
				// documents with syntax errors
				for ei, errBase := range errBases {
					te := fill(errBase, slot%4, p)
					de := analysis.NewDocument("file:///w/e.php", []byte(te))
					de.Load()
					b0 := fill(errBase, 9, "")
					d0 := analysis.NewDocument("file:///w/e.php", []byte(b0))
					d0.Load()
					g, w := locate(nil, de, true), locate(nil, d0, true)
					var sk []string
					skipped(te, de.GetRootNode(), &sk)
					if len(g) != len(w) || len(w) == 0 || len(sk) != len(g) {
						c.Fail("errors", "program %d: %d parse errors, want %d", ei, len(g), len(w))
						continue
					}
					var texts []string
					for i := range g {
						c.Eval(1)
						gt, wt := slice(te, g[i].r), slice(b0, w[i].r)
						texts = append(texts, gt)
						if !matches(strings.ReplaceAll(wt, "@_@", "\x00"), gt, p, slot%4) {
							c.Fail("errors", "program %d: parse error %d at %s is text %q, want %q", ei, i, hx.Rng(g[i].r), gt, wt)
						}
					}
					sort.Strings(texts)
					sort.Strings(sk)
					if fmt.Sprint(texts) != fmt.Sprint(sk) {
						c.Fail("errors", "program %d: parse errors at %q, what the parser left out is %q", ei, texts, sk)
					}
				}
			})
		}
	}
}

// matches tells whether got is want with each \x00 slot filled by p or left as @_@.
func matches(want, got, p string, slot int) bool {
	i := strings.IndexByte(want, 0)
	if i < 0 {
		return want == got
	}
	if !strings.HasPrefix(got, want[:i]) {
		return false
	}
	want, got = want[i+1:], got[i:]
	if strings.HasPrefix(got, p) && matches(want, got[len(p):], p, slot) {
		return true
	}
	return strings.HasPrefix(got, "@_@") && matches(want, got[3:], p, slot)
}

func at(d *analysis.Document, t string, l, ch int) expect {
	h := d.HasTypesAtPos(protocol.Position{Line: l, Character: ch})
	if h == nil {
		return expect{"nothing", ""}
	}
	return expect{fmt.Sprintf("%T", h), slice(t, h.GetLocation().Range)}
}
