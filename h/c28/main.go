// C28: the outline of a document is the tree of its declarations, and the symbols of the
// workspace are those declarations too.
package main

import (
	"fmt"
	"strings"
	"unicode/utf16"

	"github.com/john-nguyen09/phpintel/internal/lsp/protocol"
	"github.com/john-nguyen09/phpintel/internal/zzverif/kit"
	debounce "github.com/john-nguyen09/phpintel/internal/zzverif/mcdebounce"
	"github.com/john-nguyen09/phpintel/internal/zzverif/srv"
)

const (
	kClass    = protocol.Class
	kIface    = protocol.Interface
	kMethod   = protocol.Method
	kProp     = protocol.Property
	kConst    = protocol.Constant
	kFunction = protocol.Function
)

// node is a declaration a document must list.
type node struct {
	kind       protocol.SymbolKind
	name       string // empty for an anonymous class
	start, end int    // where the declaration extends to, with what it is written with
	at         int    // where its name is
	children   []*node
	parent     *node
	block      bool // the declaration ends where end says
	ns         string
}

// doc is a document that is being written.
type doc struct {
	b    strings.Builder
	cur  *node
	n    int
	ns   string
	root node
}

func newDoc() *doc {
	d := &doc{}
	d.cur = &d.root
	return d
}

func (d *doc) w(s string) { d.b.WriteString(s) }

func (d *doc) name(p string) string {
	d.n++
	return fmt.Sprintf("%sqz%c%c", p, 'a'+(d.n-1)/26, 'a'+(d.n-1)%26)
}

// open writes a declaration up to and including its name.
func (d *doc) open(kind protocol.SymbolKind, before, name string, block bool) *node {
	n := &node{kind: kind, name: name, start: d.b.Len(), parent: d.cur, block: block, ns: d.ns}
	d.w(before)
	n.at = d.b.Len()
	d.w(name)
	d.cur.children = append(d.cur.children, n)
	d.cur = n
	return n
}

func (d *doc) close() {
	d.cur.end = d.b.Len()
	d.cur = d.cur.parent
}

type piece struct {
	name string
	emit func(d *doc)
}

func lit(s string) func(*doc) { return func(d *doc) { d.w(s) } }

func method(name, before, after string) piece {
	return piece{name, func(d *doc) {
		d.open(kMethod, before, d.name("m"), true)
		d.w(after)
		d.close()
	}}
}

func props(name, before string, inits ...string) piece {
	return piece{name, func(d *doc) {
		for i, x := range inits {
			b := before
			if i > 0 {
				b = ", "
			}
			d.open(kProp, b, d.name("$p"), false)
			d.w(x)
			d.close()
		}
		d.w(";")
	}}
}

func consts(name, before string, n int, kind protocol.SymbolKind) piece {
	return piece{name, func(d *doc) {
		for i := 0; i < n; i++ {
			b := before
			if i > 0 {
				b = ", "
			}
			d.open(kind, b, d.name("K"), false)
			d.w(" = 1")
			d.close()
		}
		d.w(";")
	}}
}

func wrap(name, before string, in piece, after string) piece {
	return piece{name, func(d *doc) {
		d.w(before)
		in.emit(d)
		d.w(after)
	}}
}

func class(name string, kind protocol.SymbolKind, before, after string, members ...piece) piece {
	return piece{name, func(d *doc) {
		d.open(kind, before, d.name("C"), true)
		d.w(after + " {")
		for _, m := range members {
			d.w(" ")
			m.emit(d)
		}
		d.w(" }")
		d.close()
	}}
}

func fun(name, before, after string, in ...piece) piece {
	return piece{name, func(d *doc) {
		d.open(kFunction, before, d.name("f"), true)
		d.w(after + " {")
		for _, m := range in {
			d.w(" ")
			m.emit(d)
		}
		d.w(" }")
		d.close()
	}}
}

func anon(name, before, after string, members ...piece) piece {
	return piece{name, func(d *doc) {
		d.w(before)
		d.open(kClass, "new class", "", true)
		d.w(after + " {")
		for _, m := range members {
			d.w(" ")
			m.emit(d)
		}
		d.w(" }")
		d.close()
	}}
}

func define(name, before, q, arg, after string) piece {
	return piece{name, func(d *doc) {
		d.w(before)
		d.open(kConst, "define("+q, d.name("D"), false)
		d.w(q + arg + ")")
		d.close()
		d.w(after)
	}}
}

func members() []piece {
	return []piece{
		method("method", "function ", "() {}"),
		method("public", "public function ", "($a, P $b = null): int { return 1; }"),
		method("static", "public static function ", "() { $x = 1; }"),
		method("reference", "function &", "() {}"),
		method("abstract", "abstract protected function ", "($x);"),
		method("bodyless", "public function ", "();"),
		method("final", "final private function ", "() {}"),
		method("documented", "/**\n * @param int $a\n */\npublic function ", "($a) {}"),
		props("var", "var ", ""),
		props("property", "public ", " = 1"),
		props("properties", "private ", "", " = [1, 2]", ""),
		props("static properties", "private static ", " = 'x'", ""),
		props("typed", "public int ", ""),
		props("typed nullable", "public ?P ", " = null"),
		props("documented property", "/** @var int */\nprotected ", ""),
		consts("const", "const ", 1, kConst),
		consts("consts", "const ", 3, kConst),
		consts("public const", "public const ", 2, kConst),
		{"use", lit("use T1, T2;")},
		{"use rules", lit("use T1 { m as n; }")},
		{"comment", lit("/* function nope() {} */")},
		{"nesting method", func(d *doc) {
			d.open(kMethod, "function ", d.name("m"), true)
			d.w("() { ")
			fun("", "function ", "()").emit(d)
			class("", kClass, "class ", "").emit(d)
			d.w(" ")
			define("", "", "'", ", 1", ";").emit(d)
			d.w(" }")
			d.close()
		}},
		{"method with a class", func(d *doc) {
			d.open(kMethod, "function ", d.name("m"), true)
			d.w("() { ")
			anon("", "return ", "", method("", "function ", "() {}")).emit(d)
			d.w("; }")
			d.close()
		}},
	}
}

type shell struct {
	name string
	mk   func(in ...piece) piece
}

// may tells whether p may be a member: an interface has neither properties nor traits.
func (s shell) may(p piece) bool {
	return s.name != "interface" || !strings.Contains(p.name, "propert") && !strings.HasPrefix(p.name, "typed") && p.name != "var" && !strings.HasPrefix(p.name, "use")
}

// shells are what members are declared in.
func shells() []shell {
	return []shell{
		{"class", func(in ...piece) piece { return class("class", kClass, "class ", "", in...) }},
		{"abstract class", func(in ...piece) piece {
			return class("abstract class", kClass, "abstract class ", " extends P implements I, J", in...)
		}},
		{"final class", func(in ...piece) piece { return class("final class", kClass, "final class ", "", in...) }},
		{"documented class", func(in ...piece) piece {
			return class("documented class", kClass, "/**\n * Some class.\n */\nclass ", " extends P", in...)
		}},
		{"interface", func(in ...piece) piece { return class("interface", kIface, "interface ", " extends I", in...) }},
		{"trait", func(in ...piece) piece { return class("trait", kClass, "trait ", "", in...) }},
		{"anonymous class", func(in ...piece) piece { return wrap("", "$v = ", anon("", "", "", in...), ";") }},
		{"anonymous class of arguments", func(in ...piece) piece {
			return wrap("", "call(1, ", anon("", "", "(1, 2) extends P implements I", in...), ");")
		}},
	}
}

func items() []piece {
	m := method("", "public function ", "() {}")
	var r []piece
	for _, s := range shells() {
		p := s.mk(m)
		if s.name != "interface" {
			p = s.mk(props("", "public ", ""), m)
		}
		r = append(r, piece{s.name, p.emit})
	}
	return append(r,
		fun("function", "function ", "()"),
		fun("function of parameters", "function &", "(array $a, P ...$b): ?P"),
		fun("documented function", "/** @return int */\nfunction ", "()"),
		fun("nesting function", "function ", "()", fun("", "function ", "()", class("", kClass, "class ", "", m)), define("", "", "'", ", 1", ";")),
		fun("function with a class", "function ", "()", anon("", "return ", "", m), piece{"", lit(";")}),
		consts("const", "const ", 1, kConst),
		consts("consts", "const ", 3, kConst),
		define("define", "", "'", ", 1", ";"),
		define("define 2", "", "\"", ", [1], true", ";"),
		piece{"statement", lit("$x = strlen('class Nope {}');")},
		piece{"closure", lit("$x = function ($a) use ($x) { return 1; };")},
	)
}

type hole struct{ name, before, after string }

// holes are places where a declaration may be written.
func holes() []hole {
	return []hole{
		{"top", "", ""},
		{"block", "{ ", " }"},
		{"if", "if ($a) { ", " }"},
		{"else", "if ($a) {} else { ", " }"},
		{"elseif", "if ($a) {} elseif ($b) { ", " } else {}"},
		{"if endif", "if ($a): ", " endif;"},
		{"else endif", "if ($a): $b; else: ", " endif;"},
		{"elseif endif", "if ($a): elseif ($b): ", " endif;"},
		{"while", "while ($a) { ", " }"},
		{"while endwhile", "while ($a): ", " endwhile;"},
		{"do", "do { ", " } while ($a);"},
		{"for", "for ($i = 0; $i < 1; $i++) { ", " }"},
		{"for endfor", "for (;;): ", " endfor;"},
		{"foreach", "foreach ($a as $b => $c) { ", " }"},
		{"foreach endforeach", "foreach ($a as $b): ", " endforeach;"},
		{"switch", "switch ($a) { case 1: ", " break; default: }"},
		{"default", "switch ($a) { case 1: break; default: ", " }"},
		{"switch endswitch", "switch ($a): case 1: ", " endswitch;"},
		{"try", "try { ", " } catch (E $e) {}"},
		{"catch", "try {} catch (E | F $e) { ", " }"},
		{"finally", "try {} finally { ", " }"},
		{"declare", "declare(ticks=1) { ", " }"},
		{"function body", "$v = function () use ($a) { ", " };"},
		{"static function body", "call(static function () { ", " });"},
		{"second element", "$v = [1, 'a' => function () { ", " }];"},
	}
}

// exprs are places where an expression that declares something may be written.
func exprHoles() []hole {
	return []hole{
		{"assigned", "$v = ", ";"},
		{"returned", "return ", ";"},
		{"argument", "call(1, ", ", 2);"},
		{"argument of a method", "$o->call(", ");"},
		{"argument of a static method", "P::call(", ");"},
		{"argument of new", "new P(", ");"},
		{"echoed", "echo ", ";"},
		{"or", "$a or ", ";"},
		{"and", "$a && ", ";"},
		{"ternary", "$a ? ", " : 1;"},
		{"ternary else", "$a ? 1 : ", ";"},
		{"coalesce", "$a ?? ", ";"},
		{"element", "$v = [1, ", "];"},
		{"element of a key", "$v = array('a' => ", ");"},
		{"parenthesised", "(", ");"},
		{"negated", "$v = !", ";"},
		{"silenced", "@", ";"},
		{"condition", "if (", ") {}"},
		{"loop condition", "while (", ") {}"},
		{"iterated", "foreach (", " as $x) {}"},
		{"switched", "switch (", ") {}"},
		{"thrown", "throw ", ";"},
		{"index", "$a[", "] = 1;"},
		{"in a string", "$v = 'a' . ", " . 'b';"},
		{"static variable", "$v = $w = ", ";"},
		{"statement of if", "if ($a) ", ";"},
		{"statement of else", "if ($a) ; else ", ";"},
		{"returned by a function", "$v = function () { return ", "; };"},
	}
}

func exprs() []piece {
	return []piece{
		define("define", "", "'", ", 1", ""),
		anon("class", "", "", method("", "public function ", "() {}"), props("", "public ", "")),
		anon("class of arguments", "", "($a)", consts("", "const ", 1, kConst)),
	}
}

type frame struct {
	name        string
	open        string
	sep         string
	ns          string
	shut        string
	reopen      string // what is written between the first and the second piece
	nsb         string
	replaceCRLF bool
}

func frames() []frame {
	return []frame{
		{name: "lines", open: "<?php\n", sep: "\n"},
		{name: "one line", open: "<?php ", sep: " "},
		{name: "after wide characters", open: "<?php /* \U0001d4b3é */ ", sep: " /* é\U0001d4b3 */ "},
		{name: "crlf", open: "<?php\n", sep: "\n\n", replaceCRLF: true},
		{name: "html", open: "<html>\n<?php ", sep: " ?>\n<b>class Nope {}</b>\n<?php\n", shut: " ?>\n</html>\n"},
		{name: "namespace", open: "<?php\nnamespace N\\M;\nuse P\\Q;\n", sep: "\n", ns: "\\N\\M", nsb: "\\N\\M"},
		{name: "namespace block", open: "<?php\nnamespace N {\n", sep: "\n", shut: "\n}\n", ns: "\\N", nsb: "\\N"},
		{name: "namespaces", open: "<?php\nnamespace A;\n", reopen: "\nnamespace B;\n", sep: "\n", ns: "\\A", nsb: "\\B"},
		{name: "namespace blocks", open: "<?php\nnamespace A { ", reopen: "\n}\nnamespace {\n", sep: "\n", shut: "\n}", ns: "\\A"},
	}
}

func (f frame) write(ps []piece) (*doc, string) {
	d := newDoc()
	d.w(f.open)
	d.ns = f.ns
	for i, p := range ps {
		if i == 1 && f.reopen != "" {
			d.w(f.reopen)
			d.ns = f.nsb
		} else if i > 0 {
			d.w(f.sep)
		}
		p.emit(d)
	}
	d.w(f.shut)
	return d, d.b.String()
}

type lines struct{ at []int }

func offsetOf(text string, p protocol.Position) int {
	off := 0
	for l := 0; l < p.Line; l++ {
		i := strings.IndexByte(text[off:], '\n')
		if i < 0 {
			return -1
		}
		off += i + 1
	}
	u := 0
	for i, r := range text[off:] {
		if u >= p.Character {
			if u > p.Character {
				return -1
			}
			return off + i
		}
		if r == '\n' {
			return -1
		}
		u += len(utf16.Encode([]rune{r}))
	}
	if u == p.Character {
		return len(text)
	}
	return -1
}

func kindName(k protocol.SymbolKind) string {
	return map[protocol.SymbolKind]string{kClass: "class", kIface: "interface", kMethod: "method", kProp: "property", kConst: "constant", kFunction: "function"}[k]
}

// own is the name of a symbol without what qualifies it.
func own(name string) string { return name[strings.LastIndexByte(name, '\\')+1:] }

type checker struct {
	c    *kit.C
	s    *srv.S
	text string
	sub  string
	move []int // where what was at an offset is now
}

func (k *checker) fail(f string, a ...interface{}) {
	k.c.Fail(k.sub, "%s in %q", fmt.Sprintf(f, a...), k.text)
}

func (k *checker) to(i int) int {
	if k.move == nil {
		return i
	}
	return k.move[i]
}

func (k *checker) inRange(n *node, r protocol.Range, what string) (int, int) {
	a, b := offsetOf(k.text, r.Start), offsetOf(k.text, r.End)
	if a < 0 || b < a {
		k.fail("the %s of %s %s is %v, which is no range", what, kindName(n.kind), n.name, r)
		return 0, 0
	}
	if a < k.to(n.start) || b > k.to(n.end) || a > k.to(n.at) || b < k.to(n.at)+len(n.name) {
		k.fail("the %s of %s %s is %v, %q", what, kindName(n.kind), n.name, r, k.text[a:b])
	} else if n.block && b != k.to(n.end) {
		k.fail("the %s of %s %s ends in %q", what, kindName(n.kind), n.name, k.text[a:b])
	}
	return a, b
}

func (k *checker) tree(want []*node, got []protocol.DocumentSymbol, lo, hi int) {
	var w, g []string
	for _, n := range want {
		w = append(w, kindName(n.kind)+" "+n.name)
	}
	ok := len(want) == len(got)
	for i, x := range got {
		nm := own(x.Name)
		if ok && want[i].name == "" {
			nm = ""
		}
		g = append(g, kindName(x.Kind)+" "+nm)
		ok = ok && g[i] == w[i]
	}
	if !ok {
		k.fail("listed are %q, declared %q", g, w)
		return
	}
	for i, x := range got {
		n := want[i]
		a, b := k.inRange(n, x.Range, "range")
		sa, sb := offsetOf(k.text, x.SelectionRange.Start), offsetOf(k.text, x.SelectionRange.End)
		if sa < a || sb > b || sb < sa {
			k.fail("the selection of %s is %v, outside of %v", n.name, x.SelectionRange, x.Range)
		}
		if a < lo || b > hi {
			k.fail("the range of %s is %v, outside of the one around it", n.name, x.Range)
		}
		k.tree(n.children, x.Children, a, b)
	}
}

func flatten(ns []*node, f func(*node)) {
	for _, n := range ns {
		f(n)
		flatten(n.children, f)
	}
}

func (k *checker) outline(d *doc) {
	k.c.Eval(1)
	r, err := k.s.DocumentSymbol(k.s.Ctx, &protocol.DocumentSymbolParams{TextDocument: protocol.TextDocumentIdentifier{URI: k.s.URI("a.php")}})
	if err != nil {
		k.fail("error %v", err)
		return
	}
	k.tree(d.root.children, r, 0, len(k.text))
}

// workspace asks for every declaration by its name.
func (k *checker) workspace(d *doc) {
	all := map[string]*node{}
	flatten(d.root.children, func(n *node) { all[n.name] = n })
	flatten(d.root.children, func(n *node) {
		if n.name == "" {
			return
		}
		k.c.Eval(1)
		q := strings.TrimPrefix(n.name, "$")
		r, err := k.s.Symbol(k.s.Ctx, &protocol.WorkspaceSymbolParams{Query: q})
		if err != nil {
			k.fail("error %v", err)
			return
		}
		found := 0
		for _, x := range r {
			if x.Location.URI != k.s.URI("a.php") {
				continue
			}
			m := all[own(x.Name)]
			if m == nil {
				if strings.Contains(x.Name, "qz") {
					k.fail("%s is found and not declared", x.Name)
				}
				continue
			}
			if m == n {
				found++
			}
			if x.Kind != m.kind {
				k.fail("%s is found as %v", m.name, x.Kind)
			}
			k.inRange(m, x.Location.Range, "location")
			member := m.parent != nil && (m.kind == kMethod || m.kind == kProp || m.kind == kConst && m.parent.kind != 0 && m.parent.kind != kMethod && m.parent.kind != kFunction)
			if member {
				if x.Name != m.name {
					k.fail("%s is found as %s", m.name, x.Name)
				}
				if p := m.parent; p.name != "" && x.ContainerName != p.ns+"\\"+p.name {
					k.fail("%s is found in %q", m.name, x.ContainerName)
				}
			} else if ns := m.ns; x.Name != ns+"\\"+m.name && !(m.kind == kConst && x.Name == "\\"+m.name) {
				k.fail("%s is found as %s", m.name, x.Name)
			}
		}
		if found != 1 {
			k.fail("%s %s is found %d times", kindName(n.kind), n.name, found)
		}
	})
}

func crlf(s string) (string, []int) {
	var b strings.Builder
	m := make([]int, len(s)+1)
	for i := 0; i < len(s); i++ {
		m[i] = b.Len()
		if s[i] == '\n' {
			b.WriteByte('\r')
		}
		b.WriteByte(s[i])
	}
	m[len(s)] = b.Len()
	return b.String(), m
}

func main() {
	kit.Main(kit.Check{
		ID:          "C28",
		Level:       "model_checking",
		Rule:        "a case is a set of documents of the grammar of declarations in one layout; two documents are distinct when their texts differ",
		Assumptions: []string{"the members of a declaration are listed below it, whatever is declared in the body of a function below the function"},
		HangSeconds: 60,
		Bounds: func(t bool) string {
			return fmt.Sprintf("%d declarations and sequences of %d of them, %d members and sequences of 2 in %d kinds of class, in %d statements and %d expressions, nested up to %d; %d layouts", len(items()), map[bool]int{false: 2, true: 3}[t], len(members()), len(shells()), len(holes()), len(exprHoles()), map[bool]int{false: 2, true: 3}[t], len(frames()))
		},
		Enumerate: func(en *kit.Enum) {
			group := func(name string, fs []frame, seqs [][]piece, ws bool) {
				for _, f := range fs {
					f := f
					const n = 120
					for i := 0; i < len(seqs); i += n {
						j := i + n
						if j > len(seqs) {
							j = len(seqs)
						}
						part := seqs[i:j]
						en.Case(fmt.Sprintf("%s %s %d", name, f.name, i/n), func(c *kit.C) {
							s := srv.Start(c.Scratch(), map[string]string{"a.php": "<?php\n"})
							defer s.Stop()
							s.Open("a.php")
							for _, ps := range part {
								var names []string
								for _, p := range ps {
									names = append(names, p.name)
								}
								d, text := f.write(ps)
								k := &checker{c: c, s: s, sub: strings.Join(names, "; ")}
								if f.replaceCRLF {
									text, k.move = crlf(text)
								}
								k.text = text
								c.SubP(k.sub)
								c.Distinct(text)
								s.Change("a.php", text)
								debounce.Take()
								k.outline(d)
								if ws {
									k.workspace(d)
								}
							}
						})
					}
				}
			}
			its := items()
			var one, pairs, triples [][]piece
			for _, a := range its {
				one = append(one, []piece{a})
				for _, b := range its {
					pairs = append(pairs, []piece{a, b})
					for _, x := range its {
						triples = append(triples, []piece{a, b, x})
					}
				}
			}
			var ms [][]piece
			for _, sh := range shells() {
				for _, a := range members() {
					if !sh.may(a) {
						continue
					}
					p := sh.mk(a)
					ms = append(ms, []piece{{sh.name + " of " + a.name, p.emit}})
					for _, b := range members() {
						if !sh.may(b) {
							continue
						}
						p := sh.mk(a, b)
						ms = append(ms, []piece{{sh.name + " of " + a.name + ", " + b.name, p.emit}})
					}
				}
			}
			ss := append([]piece{}, its...)
			for _, h := range exprHoles() {
				for _, e := range exprs() {
					p := wrap(h.name+" "+e.name, h.before, e, h.after)
					ss = append(ss, p)
				}
			}
			var in, inin [][]piece
			for _, h := range holes() {
				for _, p := range ss {
					in = append(in, []piece{wrap(h.name+" "+p.name, h.before, p, h.after)})
				}
				for _, h2 := range holes() {
					for _, p := range its {
						q := wrap(h2.name+" "+p.name, h2.before, p, h2.after)
						inin = append(inin, []piece{wrap(h.name+" "+q.name, h.before, q, h.after), its[0]})
					}
				}
			}
			fs := frames()
			group("alone", fs, one, true)
			group("pairs", fs, pairs, en.Thorough)
			group("pairs found", fs[5:6], pairs, true)
			group("members", fs[:1], ms, true)
			group("members", fs[1:], ms, en.Thorough)
			group("in statements", fs, in, en.Thorough)
			group("nested", fs[:1], inin, en.Thorough)
			if en.Thorough {
				var three [][]piece
				for _, sh := range shells() {
					for _, a := range members() {
						for _, b := range members() {
							for _, x := range members() {
								if sh.may(a) && sh.may(b) && sh.may(x) {
									three = append(three, []piece{{sh.name + " of " + a.name + ", " + b.name + ", " + x.name, sh.mk(a, b, x).emit}})
								}
							}
						}
					}
				}
				group("triples", fs, triples, false)
				group("three members", fs[:2], three, false)
				group("nested", fs[1:], inin, false)
			}
		},
	})
}
