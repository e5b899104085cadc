// C20: applying a completion makes the inserted name mean what was offered, and changes nothing else.
package main

import (
	"fmt"
	"sort"
	"strings"
	"unicode/utf16"

	"github.com/john-nguyen09/phpintel/internal/lsp/protocol"
	"github.com/john-nguyen09/phpintel/internal/zzverif/kit"
	debounce "github.com/john-nguyen09/phpintel/internal/zzverif/mcdebounce"
	"github.com/john-nguyen09/phpintel/internal/zzverif/srv"
)

func position(t string, off int) protocol.Position {
	l := strings.Count(t[:off], "\n")
	i := strings.LastIndexByte(t[:off], '\n') + 1
	return protocol.Position{Line: l, Character: len(utf16.Encode([]rune(t[i:off])))}
}

func offset(t string, p protocol.Position) int {
	i := 0
	for l := 0; l < p.Line; l++ {
		j := strings.IndexByte(t[i:], '\n')
		if j < 0 {
			return len(t)
		}
		i += j + 1
	}
	for n := 0; n < p.Character && i < len(t) && t[i] != '\n' && t[i] != '\r'; {
		r := []rune(t[i:min(i+4, len(t))])[0]
		n += len(utf16.Encode([]rune{r}))
		i += len(string(r))
	}
	return i
}

// The symbols of the worlds: in each of these namespaces a class, an interface, a trait, a function
// and a constant. A world has some of the namespaces.
var spaces = []string{"", "A", "A\\B", "N", "N\\A", "Foo"}

var worlds = []struct {
	name string
	has  []int
}{{"all", []int{0, 1, 2, 3, 4, 5}}, {"A", []int{1}}, {"A,B", []int{1, 2}}, {"global,B", []int{0, 2}}, {"A,N", []int{1, 3}}, {"B,NA", []int{2, 4}}, {"A,Foo", []int{1, 5}}}

var symbols = []struct{ kind, php, name string }{
	{"class", "class %s {}", "Foo"}, {"const", "define('%n', 2);", "FooD"}, {"class", "interface %s {}", "Fooi"}, {"class", "trait %s {}", "Foot"},
	{"function", "function %s() {}", "Foo"}, {"function", "function %s($a) {}", "foo_b"}, {"const", "const %s = 1;", "Foo"},
}

func worldText(has []int, exists map[string]bool) string {
	var b strings.Builder
	b.WriteString("<?php\n")
	for _, i := range has {
		b.WriteString("namespace " + spaces[i] + " {\n")
		for _, s := range symbols {
			full := join(spaces[i], s.name)
			exists[canon(s.kind+" "+full)] = true
			b.WriteString("/**\n * " + s.kind + " " + full + "\n */\n" + strings.NewReplacer("%s", s.name, "%n", full).Replace(s.php) + "\n")
		}
		b.WriteString("}\n")
	}
	return b.String()
}

var opens = []string{"<?php\n", "<?php ", "<?php // é😀\n", "<?php\n/** text */\n", "<?php\n\n/*\n * text\n */\n\n", "<b>\n  <?php\n", "\t<?php\n"}

var declares = []string{"", "declare(strict_types=1);\n", "declare(ticks=1); ", "declare(strict_types=1);\ndeclare(ticks=1);\n"}

// %U is where imports are, %B what has the cursor.
var layouts = []string{
	"%U%B",
	"namespace N;\n%U%B",
	"namespace N;%U%B",
	"\tnamespace N;\n%U%B",
	"namespace N {\n%U%B}\n",
	"namespace {\n    %U%B}\n",
	"namespace A;\n\n%U\n%B",
	"namespace A\\B;\n%U%B",
	"namespace M;\nuse A\\B\\Foo;\nnew Foo;\nnamespace N;\n%U%B",
	"namespace N;\n%U%B\nnamespace M;\nuse A\\Foo;\nnew Foo;\n",
	"namespace M { use A\\B\\Foo; new Foo; }\nnamespace N {\n%U%B}\n",
	"namespace N {\n%U%B}\nnamespace M { use A\\Foo; new Foo; }\n",
	"function g() { if (1) { } }\n%U%B",
	"namespace N;\nfunction g() { return function () use ($a) {}; }\n%U%B",
	"%Uf(1); ?> <i> <?php %B",
	"%B use Z\\Y;\n",
	"namespace N;\n%B use Z\\Y;\n",
	"%U ?>\n<i><?= f() ?>\n<?php\n%B",
	"use Z\\Y;\n$a = 1; use Z\\X;\n%B",
	"if (1) { f(); }\n%U%B",
}

var uses = []string{
	"", "use A\\Foo;\n", "use A\\B\\Foo;\n", "use A\\B;\n", "use A;\n", "use A\\Foo as Q;\n", "use A\\{Foo, B as R};\n",
	"use function A\\Foo;\n", "use const A\\Foo;\n", "use A\\B as Foo;\n", "use N\\A;\n", "use function A\\B\\Foo as Q; ",
	"use A\\B\\Foo as A;\n", "  use Z\\Y;\n", "use Z\\Y; use Z\\X;\n", "use Z\\Y; // text\n", "use Z\\Y /* text */;\n",
	"use A\\{B\\Foo, function foo_b, const Foo as K};\n", "use A\\B\\fOO;\n", "use function Z\\foo, Z\\foo_b;\n",
	"use Z\\Foo, Z\\Fooi, Z\\Foot; use const Z\\Foo;\n", "use Z\\{A, B};\n",
}

// Declarations in the same namespace as the cursor.
var owns = []string{"", "class Foo {}\n", "function Foo() {}\ninterface Fooi {}\n", "const Foo = 1; class A {}\n", "abstract class foo {}\n"}

var places = []string{
	"new %W;", "new %W();", "%W;", "f(%W);", "%W::K;", "function z(%W $p) {}", "class Z extends %W {}",
	"class Z implements I, %W {}", "interface Z extends %W {}", "class Z { use %W; }", "f($a instanceof %W);", "return %W;",
	"class Z { function m() { $a = %W; } }", "class Z { function m(?%W $p) { } }", "f(function () { return new %W; });",
}

var words = []string{"Fo", "\\Fo", "\\A\\Fo", "A\\Fo", "A\\B\\Fo", "B\\Fo", "\\A\\B\\Fo", "foo", "Foo\\Fo", "R\\Fo", "Q"}

// tail are other names, which must mean what they did.
var tail = []struct{ before, name, kind, after string }{
	{"new ", "Foo", "class", ";\n"}, {"", "Foo", "function", "();\n"}, {"f(", "Foo", "const", ");\n"}, {"", "Fooi", "class", "::f();\n"},
	{"new ", "A\\Foo", "class", ";\n"}, {"new ", "B\\Foo", "class", ";\n"}, {"new ", "Foo\\Foo", "class", ";\n"}, {"", "A\\B\\Foo", "function", "();\n"},
	{"", "foo_b", "function", "();\n"}, {"f(", "A\\Foo", "const", ");\n"}, {"", "Foot", "class", "::f();\n"}, {"", "\\Foo", "function", "();\n"},
}

type mark struct {
	at   int
	kind string
	name string
}

type program struct {
	open, declare, layout, use, own, place, word string
}

// write builds a text: where its cursor is, and other names.
func (p program) write() (string, int, []mark) {
	body := p.own + strings.Replace(p.place, "%W", p.word+"\x00", 1) + "\n"
	for i, t := range tail {
		body += t.before + fmt.Sprintf("\x01%c", rune('a'+i)) + t.name + t.after
	}
	t := strings.Replace(strings.Replace(p.open+p.declare+p.layout, "%U", p.use, 1), "%B", body, 1)
	var b strings.Builder
	var ms []mark
	cursor := 0
	for i := 0; i < len(t); i++ {
		switch t[i] {
		case 0:
			cursor = b.Len()
		case 1:
			i++
			x := tail[t[i]-'a']
			ms = append(ms, mark{b.Len(), x.kind, x.name})
		default:
			b.WriteByte(t[i])
		}
	}
	return b.String(), cursor, ms
}

type env struct {
	c      *kit.C
	s      *srv.S
	exists map[string]bool
}

func start(c *kit.C, has []int) *env {
	e := &env{c: c, exists: map[string]bool{}}
	e.s = srv.Start(c.Scratch(), map[string]string{"a.php": "<?php\n"})
	e.s.Write("w.php", worldText(has, e.exists))
	e.s.Open("w.php")
	e.s.Close("w.php")
	e.s.Open("a.php")
	debounce.Take()
	return e
}

// run completes in a program, applies each item and judges what it makes.
func (e *env) run(name string, p program, eol string) {
	t, cursor, ms := p.write()
	if eol != "\n" {
		t0 := t
		grow := func(o int) int { return o + strings.Count(t0[:o], "\n")*(len(eol)-1) }
		t = strings.ReplaceAll(t, "\n", eol)
		cursor = grow(cursor)
		for i := range ms {
			ms[i].at = grow(ms[i].at)
		}
	}
	before := read(t)
	if len(before.errors) > 0 {
		e.c.Count("invalid programs", 1)
		return
	}
	exists := map[string]bool{}
	for k := range e.exists {
		exists[k] = true
	}
	for _, s := range before.segments {
		for d := range s.declared {
			kn := strings.SplitN(d, " ", 2)
			exists[canon(kn[0]+" "+join(s.ns, kn[1]))] = true
		}
	}
	e.s.Change("a.php", t)
	debounce.Take()
	cp := &protocol.CompletionParams{}
	cp.TextDocument.URI, cp.Position = e.s.URI("a.php"), position(t, cursor)
	list, err := e.s.Server.Completion(e.s.Ctx, cp)
	e.c.Trans(1)
	e.c.Distinct(t)
	if err != nil {
		e.c.SubP(name)
		e.c.Fail("error", "%s: %v", name, err)
		return
	}
	if list == nil {
		return
	}
	for _, item := range list.Items {
		kind, means := offered(item, before, cursor)
		if means == "" {
			e.c.Count("items of namespaces and others", 1)
			continue
		}
		if !exists[canon(means)] {
			e.c.SubP(name)
			e.c.Fail("offered", "%s: %s, which is %q, in %q does not exist", name, item.Label, means, t[:cursor]+"|"+t[cursor:])
			continue
		}
		e.c.Eval(1)
		e.c.Count("items", 1)
		if len(item.AdditionalTextEdits) > 0 {
			e.c.Count("items with edits", 1)
		}
		if wrong := judge(t, cursor, ms, before, exists, kind, means, item); wrong != "" {
			e.c.SubP(name)
			e.c.Fail("completion", "%s: %s in %q: %s", name, means, t[:cursor]+"|"+t[cursor:], wrong)
		}
	}
}

// offered tells what an item is of: symbols of the worlds say it in their descriptions, except
// of traits which have none; those of the program itself do not have descriptions.
func offered(item protocol.CompletionItem, before *outline, cursor int) (string, string) {
	doc := strings.TrimSpace(item.Documentation.Value)
	switch item.Kind {
	case protocol.FunctionCompletion:
		if doc != "" {
			return "function", doc
		}
		return "function", "function " + join(before.at(cursor).ns, item.Label[strings.LastIndexByte(item.Label, '\\')+1:])
	case protocol.ConstantCompletion:
		return "const", "const " + strings.TrimPrefix(doc[:strings.IndexByte(doc+" ", ' ')], "\\")
	case protocol.ClassCompletion, protocol.InterfaceCompletion:
		if doc != "" {
			return "class", doc
		}
		detail := item.Detail[:strings.IndexByte(item.Detail+"\n", '\n')]
		return "class", "class " + strings.TrimPrefix(detail, "\\")
	}
	return "", ""
}

func judge(t string, cursor int, ms []mark, before *outline, exists map[string]bool, kind, means string, item protocol.CompletionItem) string {
	insert := item.InsertText
	if insert == "" {
		insert = item.Label
	}
	insert = strings.TrimSuffix(strings.TrimSuffix(insert, "($0)"), "()")
	// The client replaces the last part of the name before the cursor
	from := cursor
	for from > 0 && word(t[from-1]) && t[from-1] != '\\' {
		from--
	}
	whole := from
	for whole > 0 && word(t[whole-1]) {
		whole--
	}
	type edit struct {
		from, to int
		text     string
	}
	var edits []edit
	for _, x := range item.AdditionalTextEdits {
		a, b := offset(t, x.Range.Start), offset(t, x.Range.End)
		if a != b && (a < whole || b > from) {
			return fmt.Sprintf("the edit of %d-%d removes something", a, b)
		}
		if a > from {
			if a < cursor {
				return "the edit is inside of the completed name"
			}
			return "the edit is after the completed name"
		}
		edits = append(edits, edit{a, b, x.NewText})
	}
	edits = append(edits, edit{from, cursor, insert})
	sort.SliceStable(edits, func(i, j int) bool { return edits[i].from < edits[j].from })
	var b strings.Builder
	last := 0
	at := 0
	moved := func(o int) int {
		n := o
		for _, x := range edits {
			if x.to <= o {
				n += len(x.text) - (x.to - x.from)
			}
		}
		return n
	}
	for _, x := range edits {
		if x.from < last {
			return "edits overlap"
		}
		b.WriteString(t[last:x.from])
		b.WriteString(x.text)
		if x.to == cursor && x.from == from {
			at = b.Len()
		}
		last = x.to
	}
	b.WriteString(t[last:])
	r := b.String()
	after := read(r)
	if len(after.errors) > 0 {
		return fmt.Sprintf("%s makes %q: %s", insert, r, strings.Join(after.errors, ", "))
	}
	start := at
	for start > 0 && word(r[start-1]) {
		start--
	}
	if got := after.meaning(start, kind, r[start:at], exists); got != means && (kind == "const" || !strings.EqualFold(got, means)) {
		return fmt.Sprintf("%s makes %q, where it means %s", r[start:at], r, got)
	}
	for _, m := range ms {
		was := before.meaning(m.at, m.kind, m.name, exists)
		if is := after.meaning(moved(m.at), m.kind, m.name, exists); is != was && exists[canon(was)] {
			return fmt.Sprintf("%s makes %q, where %s %s means %s, not %s", insert, r, m.kind, m.name, is, was)
		}
	}
	return ""
}

func main() {
	kit.Main(kit.Check{
		ID:    "C20",
		Level: "model_checking",
		Rule:  "each completion item is applied as a client does; a reader of namespaces and imports by PHP's rules tells what the names mean before and after",
		Enumerate: func(e *kit.Enum) {
			base := program{opens[0], "", layouts[1], "", "", places[0], words[0]}
			// Where an import is written
			for i, l := range layouts {
				for j, u := range uses {
					l, u := l, u
					e.Case(fmt.Sprintf("where/%d/%d", i, j), func(c *kit.C) {
						v := start(c, worlds[1].has)
						defer v.s.Stop()
						for _, o := range opens {
							for _, d := range declares {
								for k, eol := range []string{"\n", "\r\n"} {
									p := base
									p.open, p.declare, p.layout, p.use = o, d, l, u
									for _, pl := range []string{places[0], places[3], places[12]} {
										p.place = pl
										v.run(fmt.Sprintf("open %q, %q, layout %q, %q, eol %d, %q", o, d, l, u, k, pl), p, eol)
									}
								}
							}
						}
					})
				}
			}
			// What is written
			for wi := range worlds {
				for j, u := range uses {
					wi, u := wi, u
					e.Case(fmt.Sprintf("what/%d/%d", wi, j), func(c *kit.C) {
						v := start(c, worlds[wi].has)
						defer v.s.Stop()
						for i, l := range layouts {
							if i != 0 && i != 1 && i != 6 && i != 7 && !e.Thorough {
								continue
							}
							for _, own := range owns {
								for k, w := range words {
									for n, pl := range places {
										if own != "" && n > 3 && (n+k)%3 != 0 && !e.Thorough {
											continue
										}
										p := base
										p.layout, p.use, p.own, p.word, p.place = l, u, own, w, pl
										v.run(fmt.Sprintf("world %s, %q, %q, %q, %s %s", worlds[wi].name, l, u, own, pl, w), p, "\n")
									}
								}
							}
						}
					})
				}
			}
		},
	})
}
