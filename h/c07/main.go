// C07: analysis after edits equals analysis of the final text.
package main

import (
	"fmt"
	"sort"

	"github.com/john-nguyen09/phpintel/analysis"
	"github.com/john-nguyen09/phpintel/internal/lsp/protocol"
	"github.com/john-nguyen09/phpintel/internal/zzverif/hist"
	"github.com/john-nguyen09/phpintel/internal/zzverif/hx"
	"github.com/john-nguyen09/phpintel/internal/zzverif/kit"
	"github.com/john-nguyen09/phpintel/internal/zzverif/ref"
	"github.com/john-nguyen09/phpintel/internal/zzverif/view"
)

var texts = map[string]string{
	"x-vars":    "<?php\n$a = new A();\n$b = $a;\nfunction f($x, A $y) { $z = $x; return function() use ($z) { echo $z; }; }\n",
	"x-uses":    "<?php\nnamespace N;\nuse X\\A;\nuse X\\{B, C as D};\nuse function X\\fn1;\nuse const X\\K;\n$a = new A(); fn1(K);\n",
	"x-twons":   "<?php\nnamespace N {\nuse X\\A;\nnew A;\nfunction f() {}\n}\nnamespace M {\nuse Y\\A;\nnew A;\nf();\n}\n",
	"x-heredoc": "<?php\n$s = <<<EOT\nname {$a->p} $b[0]\nEOT;\n/* c */ // d\n# e\n$s .= \"x{$s}\";\n",
	"x-broken":  "<?php\nclass A { function m( { $this->; }\nfunction g(\n",
	"x-html":    "<p>x</p><?php if ($a): ?>\n<b><?= $a ?></b>\n<?php endif; class Z extends A {} ?>\ntail",
	"x-doc":     "<?php\n/**\n * Text é😀.\n * @deprecated since 2\n * @param int $p The p.\n * @return A|null\n */\nfunction old($p) {}\nold(1);\n$x = old(2);\n",
	"x-anon":    "<?php\nclass O {\npublic $p;\nfunction m() { $c = new class($this->p) extends A { public $q; function n() { return $this->q; } }; return $c; }\nconst K = self::L;\n}\n",
	"x-crlf":    "<?php\r\nclass W\r\n{\r\n    public $p = 1;\r\n}\r\n$w = new W();\r\n$w->p;\r\n",
	"x-empty":   "",
}

func pool() []string {
	var ks []string
	for k, v := range hist.Versions {
		texts[k] = v
	}
	for k := range texts {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

// splice is the minimal change from a to b.
func splice(a, b string) protocol.TextDocumentContentChangeEvent {
	ar, br := []rune(a), []rune(b)
	i := 0
	for i < len(ar) && i < len(br) && ar[i] == br[i] {
		i++
	}
	j := 0
	for j < len(ar)-i && j < len(br)-i && ar[len(ar)-1-j] == br[len(br)-1-j] {
		j++
	}
	// no change may begin or end between a CR and its LF: such a place has no position
	for i > 0 && (i < len(ar) && ar[i-1] == '\r' && ar[i] == '\n' || i < len(br) && br[i-1] == '\r' && br[i] == '\n') {
		i--
	}
	for j > 0 && (j < len(ar) && ar[len(ar)-1-j] == '\r' && ar[len(ar)-j] == '\n' || j < len(br) && br[len(br)-1-j] == '\r' && br[len(br)-j] == '\n') {
		j--
	}
	s := posAt(a, len(string(ar[:i])))
	e := posAt(a, len(string(ar[:len(ar)-j])))
	return protocol.TextDocumentContentChangeEvent{Range: &protocol.Range{Start: s, End: e}, Text: string(br[i : len(br)-j])}
}

func posAt(t string, off int) protocol.Position {
	for _, p := range ref.Positions(t, false) {
		if ref.Offset(t, p.L, p.C) == off {
			return protocol.Position{Line: p.L, Character: p.C}
		}
	}
	panic(fmt.Sprintf("no position at %d of %q", off, t))
}

func full(b string) protocol.TextDocumentContentChangeEvent {
	return protocol.TextDocumentContentChangeEvent{Text: b}
}

const uri = hx.Root + "/a.php"

type env struct {
	c     *kit.C
	s     *analysis.Store
	fresh map[string]map[string]string
}

func (v *env) want(t string) map[string]string {
	if m, ok := v.fresh[t]; ok {
		return m
	}
	d := analysis.NewDocument(uri, []byte(t))
	d.Load()
	m := view.Doc(v.s, d)
	v.fresh[t] = m
	return m
}

func (v *env) check(sub string, d *analysis.Document, t string) bool {
	v.c.Eval(1)
	v.c.State(t)
	got, want := view.Doc(v.s, d), v.want(t)
	if x := want["diagnostics after queries"]; x != "" {
		v.c.Fail(sub, "asking about %q changes its diagnostics from %s to %s", t, want["diagnostics"], x)
		return false
	}
	if diff := hx.Diff(got, want); diff != "" {
		v.c.Fail(sub, "after %s, %q: %s", sub, t, diff)
		return false
	}
	return true
}

type step struct {
	name string
	evs  []protocol.TextDocumentContentChangeEvent
	text string
}

func (v *env) run(sub, v0 string, steps []step) {
	d := analysis.NewDocument(uri, []byte(v0))
	d.Load()
	for _, s := range steps {
		n := d.CloneForMutate()
		n.ApplyChanges(s.evs)
		v.c.Trans(1)
		if !v.check(sub+" "+s.name, n, s.text) {
			return
		}
		d = n
	}
	// the same notifications again, without looking in between
	d = analysis.NewDocument(uri, []byte(v0))
	d.Load()
	for _, s := range steps {
		n := d.CloneForMutate()
		n.ApplyChanges(s.evs)
		d = n
	}
	v.c.Trans(len(steps))
	v.check(sub+" unobserved", d, steps[len(steps)-1].text)
}

// typed turns a into b a character at a time: first deletions, then insertions.
func typed(a, b string, every int) []step {
	sp := splice(a, b)
	so := ref.Offset(a, sp.Range.Start.Line, sp.Range.Start.Character)
	eo := ref.Offset(a, sp.Range.End.Line, sp.Range.End.Character)
	var out []step
	add := func(from, to string) {
		out = append(out, step{fmt.Sprintf("step %d", len(out)), []protocol.TextDocumentContentChangeEvent{splice(from, to)}, to})
	}
	cur := a
	mid := []rune(a[so:eo])
	for len(mid) > 0 {
		k := every
		if k > len(mid) {
			k = len(mid)
		}
		mid = mid[:len(mid)-k]
		nxt := a[:so] + string(mid) + a[eo:]
		add(cur, nxt)
		cur = nxt
	}
	ins := []rune(sp.Text)
	for i := 0; i < len(ins); {
		i += every
		if i > len(ins) {
			i = len(ins)
		}
		nxt := a[:so] + string(ins[:i]) + a[eo:]
		add(cur, nxt)
		cur = nxt
	}
	return out
}

func main() {
	kit.Main(kit.Check{
		ID:    "C07",
		Level: "model_checking",
		Rule:  "Every history v0 -> v1 -> v2 over a pool of texts, by minimal splices and full replacements, in one notification or two, and every text typed and deleted character by character, run on the real Document; the edited document is asked everything (symbols, types at every position, variables, imports, calls, diagnostics) and must answer as a fresh analysis of the same text.",
		Bounds: func(thorough bool) string {
			if thorough {
				return fmt.Sprintf("all triples of %d texts; typed in ones and twos", len(pool()))
			}
			return fmt.Sprintf("all pairs and a quarter of the triples of %d texts; typed in threes", len(pool()))
		},
		Enumerate: func(e *kit.Enum) {
			ks := pool()
			mk := func(c *kit.C) (*env, func()) {
				s, done := hx.Fresh(hx.NewMemFS(), c.Scratch())
				return &env{c: c, s: s, fresh: map[string]map[string]string{}}, done
			}
			for _, a := range ks {
				for _, b := range ks {
					if a == b {
						continue
					}
					a, b := a, b
					e.Case("pair "+a+" "+b, func(c *kit.C) {
						v, done := mk(c)
						defer done()
						ta, tb := texts[a], texts[b]
						for _, x := range ks {
							if x != a && x != b && !c.Thorough() && (len(x)+len(a)*3+len(b)*7)%4 != 0 {
								continue // quick: a quarter of the third versions (fixed choice)
							}
							tx := texts[x]
							two := func(e1, e2 protocol.TextDocumentContentChangeEvent) []step {
								return []step{{"first", []protocol.TextDocumentContentChangeEvent{e1}, tb}, {"second", []protocol.TextDocumentContentChangeEvent{e2}, tx}}
							}
							v.run("splice,splice "+x, ta, two(splice(ta, tb), splice(tb, tx)))
							v.run("full,splice "+x, ta, two(full(tb), splice(tb, tx)))
							v.run("splice,full "+x, ta, two(splice(ta, tb), full(tx)))
							v.run("both at once "+x, ta, []step{{"one", []protocol.TextDocumentContentChangeEvent{splice(ta, tb), splice(tb, tx)}, tx}, {"nothing", nil, tx}})
						}
					})
				}
			}
			for _, a := range ks {
				for _, b := range ks {
					if a == b {
						continue
					}
					a, b := a, b
					e.Case("typed "+a+" "+b, func(c *kit.C) {
						v, done := mk(c)
						defer done()
						if c.Thorough() {
							v.run("typing singly", texts[a], typed(texts[a], texts[b], 1))
							v.run("typing pairs", texts[a], typed(texts[a], texts[b], 2))
						} else {
							v.run("typing", texts[a], typed(texts[a], texts[b], 3))
						}
					})
				}
			}
		},
	})
}
