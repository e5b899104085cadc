// C19: names resolve as PHP resolves them.
package main

import (
	"fmt"
	"os"
	"sort"
	"strings"

	"github.com/john-nguyen09/phpintel/internal/lsp/protocol"
	"github.com/john-nguyen09/phpintel/internal/zzverif/kit"
	debounce "github.com/john-nguyen09/phpintel/internal/zzverif/mcdebounce"
	"github.com/john-nguyen09/phpintel/internal/zzverif/srv"
)

// imports are the use declarations in force: alias (lower case, except for constants) to name.
type imports struct{ class, function, constant map[string]string }

// one use declaration: its text and what it imports.
type use struct {
	text string
	what [][3]string // kind, alias, name
}

var uses = []use{
	{"", nil},
	{"use A\\x;", [][3]string{{"class", "x", "A\\x"}}},
	{"use \\A\\x;", [][3]string{{"class", "x", "A\\x"}}},
	{"use A\\x as y;", [][3]string{{"class", "y", "A\\x"}}},
	{"use A\\x as M;", [][3]string{{"class", "M", "A\\x"}}},
	{"use A\\B;", [][3]string{{"class", "B", "A\\B"}}},
	{"use A\\B as M;", [][3]string{{"class", "M", "A\\B"}}},
	{"use A\\B as x;", [][3]string{{"class", "x", "A\\B"}}},
	{"use A\\x, A\\B as M;", [][3]string{{"class", "x", "A\\x"}, {"class", "M", "A\\B"}}},
	{"use A\\{x, B as M};", [][3]string{{"class", "x", "A\\x"}, {"class", "M", "A\\B"}}},
	{"use A\\{B\\x, B as M};", [][3]string{{"class", "x", "A\\B\\x"}, {"class", "M", "A\\B"}}},
	{"use function A\\x;", [][3]string{{"function", "x", "A\\x"}}},
	{"use function A\\x as y;", [][3]string{{"function", "y", "A\\x"}}},
	{"use function A\\{x as y, B\\x};", [][3]string{{"function", "y", "A\\x"}, {"function", "x", "A\\B\\x"}}},
	{"use function A\\x as M;", [][3]string{{"function", "M", "A\\x"}}},
	{"use const A\\x;", [][3]string{{"const", "x", "A\\x"}}},
	{"use const A\\x as y;", [][3]string{{"const", "y", "A\\x"}}},
	{"use const A\\{x as y, B\\x};", [][3]string{{"const", "y", "A\\x"}, {"const", "x", "A\\B\\x"}}},
	{"use A\\{function x, const B\\x, x as M};", [][3]string{{"function", "x", "A\\x"}, {"const", "x", "A\\B\\x"}, {"class", "M", "A\\x"}}},
	{"use A\\{const x as y, B, function B\\x as y};", [][3]string{{"const", "y", "A\\x"}, {"class", "B", "A\\B"}, {"function", "y", "A\\B\\x"}}},
	{"use M;", [][3]string{{"class", "M", "M"}}},
}

// composed are all declarations of n clauses of one kind, as a list or as a group.
func composed(kind string, group bool, n int) []use {
	clauses := [][2]string{{"x", ""}, {"x", "y"}, {"x", "M"}, {"B\\x", ""}, {"B\\x", "y"}, {"B", ""}, {"B", "M"}}
	var out []use
	var rec func(done [][2]string)
	rec = func(done [][2]string) {
		if len(done) == n {
			u := use{text: "use " + map[string]string{"function": "function ", "const": "const "}[kind]}
			var cs []string
			seen := map[string]bool{}
			for _, c := range done {
				alias := c[1]
				if alias == "" {
					alias = c[0][strings.LastIndex(c[0], "\\")+1:]
				}
				if seen[alias] {
					return
				}
				seen[alias] = true
				u.what = append(u.what, [3]string{kind, alias, "A\\" + c[0]})
				t := c[0]
				if !group {
					t = "A\\" + t
				}
				if c[1] != "" {
					t += " as " + c[1]
				}
				cs = append(cs, t)
			}
			if group {
				u.text += "A\\{" + strings.Join(cs, ", ") + "};"
			} else {
				u.text += strings.Join(cs, ", ") + ";"
			}
			out = append(out, u)
			return
		}
		for _, c := range clauses {
			rec(append(done[:len(done):len(done)], c))
		}
	}
	rec(nil)
	return out
}

func mk(us []use) imports {
	im := imports{map[string]string{}, map[string]string{}, map[string]string{}}
	for _, u := range us {
		for _, w := range u.what {
			switch w[0] {
			case "class":
				im.class[strings.ToLower(w[1])] = w[2]
			case "function":
				im.function[strings.ToLower(w[1])] = w[2]
			case "const":
				im.constant[w[1]] = w[2]
			}
		}
	}
	return im
}

var written = []string{"x", "X", "y", "M", "M\\x", "m\\x", "M\\X", "B\\x", "\\x", "\\A\\x", "\\a\\x", "A\\x", "A\\B\\x", "namespace\\x", "namespace\\M\\x", "N\\x", "\\N\\x", "x\\x", "\\M\\x"}

func join(ns, n string) string {
	if ns == "" {
		return n
	}
	return ns + "\\" + n
}

// resolve gives the names that a written name can mean, in the order PHP tries them.
func resolve(kind, ns string, im imports, w string) []string {
	if strings.HasPrefix(w, "\\") {
		return []string{w[1:]}
	}
	if strings.HasPrefix(strings.ToLower(w), "namespace\\") {
		return []string{join(ns, w[len("namespace\\"):])}
	}
	parts := strings.SplitN(w, "\\", 2)
	if len(parts) == 2 {
		if n, ok := im.class[strings.ToLower(parts[0])]; ok {
			return []string{n + "\\" + parts[1]}
		}
		return []string{join(ns, w)}
	}
	switch kind {
	case "class":
		if n, ok := im.class[strings.ToLower(w)]; ok {
			return []string{n}
		}
		return []string{join(ns, w)}
	case "function":
		if n, ok := im.function[strings.ToLower(w)]; ok {
			return []string{n}
		}
	case "const":
		if n, ok := im.constant[w]; ok {
			return []string{n}
		}
	}
	if ns == "" {
		return []string{w}
	}
	return []string{join(ns, w), w}
}

// fold makes equal names equal: constants keep the case of their last part.
func fold(kind, n string) string {
	if kind != "const" {
		return strings.ToLower(n)
	}
	i := strings.LastIndexByte(n, '\\') + 1
	return strings.ToLower(n[:i]) + n[i:]
}

// site is a way to write a name.
type site struct {
	kind, name string
	before     string // text before the name
	after      string
}

var sites = []site{
	{"class", "new", "new ", "();"},
	{"class", "static", "", "::f();"},
	{"class", "class constant", "", "::K;"},
	{"class", "instanceof", "$a instanceof ", ";"},
	{"class", "parameter", "function zz%d(", " $p) {}"},
	{"class", "extends", "class Z%d extends ", " {}"},
	{"class", "catch", "try {} catch (", " $e) {}"},
	{"function", "call", "", "();"},
	{"function", "argument", "strlen(", "(1));"},
	{"const", "constant", "$a = ", ";"},
	{"const", "operand", "$a = 1 + ", ";"},
}

// members are the places where what the name means shows in the member that is found.
var members = []site{
	{"class", "member of new", "(new ", ")->mem();"},
	{"class", "static member", "", "::smem();"},
	{"class", "member of a parameter", "function zp%d(", " $p) { $p->mem(); }"},
	{"class", "member of a result", "/** @return ", " */\nfunction zr%d() {} zr%d()->mem();"},
	{"class", "member of a documented parameter", "/** @param ", " $p */\nfunction zd%d($p) { $p->mem(); }"},
	{"class", "member of a property", "class ZP%d { /** @var ", " */\npublic $zp; function t() { $this->zp->mem(); } }"},
	{"class", "member of a method's result", "class ZM%d { /** @return ", "|null */\nfunction zm() {} function t() { $this->zm()->mem(); } }"},
	{"class", "member of a subclass", "class ZZ%d extends ", " {} (new ZZ%d)->mem();"},
	{"class", "member of a documented variable", "/** @var ", " $v%d */\n$v%d->mem();"},
}

// the places of an interface's name.
var interfaceSites = []site{
	{"class", "implements", "class Z%d implements ", " {}"},
	{"class", "implements two", "class Z%d implements Foo, ", " {}"},
	{"class", "member of a parameter", "function zp%d(", " $p) { $p->mem(); }"},
	{"class", "member of a subclass", "abstract class ZZ%d implements ", " { function t() { $this->mem(); } }"},
	{"class", "member of a subinterface", "interface ZI%d extends ", " {} function zp%d(ZI%d $p) { $p->mem(); }"},
	{"class", "constant of the interface", "", "::K;"},
}

// the places of a trait's name.
var traitSites = []site{
	{"class", "use in a class", "class Z%d { use ", "; }"},
	{"class", "second use in a class", "class Z%d { use Foo, ", "; }"},
	{"class", "member of a user", "class ZZ%d { use ", "; function t() { $this->mem(); } }"},
}

// classKind are the kinds of classes that a world declares.
type classKind struct {
	name    string
	sites   []site
	members []site
}

var classKinds = []classKind{{"class", sites, members}, {"interface", interfaceSites, nil}, {"trait", traitSites, nil}}

// world declares x in all namespaces but one.
func world(kind, without string) (string, map[string]map[string]int) {
	text := "<?php\n"
	at := map[string]map[string]int{"class": {}, "function": {}, "const": {}, "mem": {}, "smem": {}, "K": {}}
	line := 1
	put := func(s string) {
		text += s + "\n"
		line++
	}
	for _, ns := range []string{"", "N", "N\\M", "A", "A\\B", "M", "N\\A", "N\\N"} {
		if ns == without {
			continue
		}
		put("namespace " + ns + " {")
		k := join(ns, "x")
		at["class"][fold("class", k)] = line
		put(kind + " x {")
		at["mem"][fold("class", k)] = line
		if kind == "interface" {
			put("public function mem();")
		} else {
			put("public function mem() {}")
		}
		if kind == "class" {
			at["smem"][fold("class", k)] = line
			put("public static function smem() {}")
		}
		if kind != "trait" {
			at["K"][fold("class", k)] = line
			put("const K = 1;")
		}
		put("}")
		at["function"][fold("function", k)] = line
		put("function x() {}")
		at["const"][fold("const", k)] = line
		switch ns {
		case "", "A\\B", "N\\M":
			put("define('" + strings.ReplaceAll(k, "\\", "\\\\") + "', 1);")
		default:
			put("const x = 1;")
		}
		put("}")
	}
	return text, at
}

type env struct {
	c    *kit.C
	s    *srv.S
	at   map[string]map[string]int
	name string
	kind classKind
}

func start(c *kit.C, kind classKind, without string) *env {
	text, at := world(kind.name, without)
	s := srv.Start(c.Scratch(), map[string]string{"w.php": text, "a.php": "<?php\n"})
	s.Open("w.php")
	s.Open("a.php")
	debounce.Take()
	if os.Getenv("VERIF_DEBUG") != "" {
		fmt.Fprintln(os.Stderr, text)
	}
	return &env{c, s, at, kind.name + ", without x in '" + without + "'", kind}
}

// layouts: how the file is divided into namespaces; the name is in namespace ns.
type layout struct {
	name, ns string
	text     func(use, body string) (string, int) // and the line of the first line of the body
	imported bool
}

var layouts = []layout{
	{"global", "", func(u, b string) (string, int) { return "<?php\n" + u + "\n" + b, 2 }, true},
	{"namespace", "N", func(u, b string) (string, int) { return "<?php\nnamespace N;\n" + u + "\n" + b, 3 }, true},
	{"braces", "N", func(u, b string) (string, int) {
		return "<?php\nnamespace A\\B { use M as y; function q() {} }\nnamespace N {\n" + u + "\n" + b + "\n}\nnamespace Q { use M\\x; function q() {} }\n", 4
	}, true},
	{"after another", "N", func(u, b string) (string, int) {
		return "<?php\nnamespace A;\n" + u + "\nnamespace N;\n" + b, 4
	}, false},
	{"before another", "N", func(u, b string) (string, int) {
		return "<?php\nnamespace N;\n" + b + "\nnamespace A;\n" + u + "\n", 2
	}, false},
}

func lines(ls []protocol.Location) string {
	var out []string
	for _, l := range ls {
		i := strings.LastIndexByte(l.URI, '/')
		out = append(out, fmt.Sprintf("%s:%d", l.URI[i+1:], l.Range.Start.Line))
	}
	sort.Strings(out)
	if len(out) == 0 {
		return "nothing"
	}
	return strings.Join(out, ", ")
}

func (e *env) check(la layout, us []use) {
	var ut []string
	for _, u := range us {
		ut = append(ut, u.text)
	}
	im := mk(us)
	if !la.imported {
		im = mk(nil)
	}
	type place struct {
		what, kind, w string
		line, col     int
		table         string
	}
	var body []string
	var places []place
	put := func(st site, w, table string) {
		before, after := st.before, st.after
		if before == "" && strings.HasPrefix(w, "namespace") {
			before = "$a = " // the parser takes namespace at the start of a statement for a declaration
		}
		n := fmt.Sprint(len(body))
		before, after = strings.ReplaceAll(before, "%d", n), strings.ReplaceAll(after, "%d", n)
		l := before + w + after
		col := len(before) + len(w) - 1
		if table == "" {
			table = "K"
			if i := strings.LastIndex(l, "mem("); i >= 0 {
				col, table = i, "mem"
				if l[i-1] == 's' {
					table = "smem"
				}
			} else {
				col = strings.LastIndex(l, "K")
			}
		}
		line := len(body)
		what := strings.ReplaceAll(l, "\n", " ")
		for _, part := range strings.SplitAfter(l, "\n") {
			if strings.HasSuffix(part, "\n") {
				col -= len(part)
				line++
			}
			body = append(body, strings.TrimSuffix(part, "\n"))
		}
		places = append(places, place{st.name + " " + what, st.kind, w, line, col, table})
	}
	for _, w := range written {
		for _, st := range e.kind.sites {
			if strings.HasPrefix(st.name, "member") || strings.HasPrefix(st.name, "constant of") {
				put(st, w, "")
			} else {
				put(st, w, st.kind)
			}
		}
		for _, st := range e.kind.members {
			put(st, w, "")
		}
	}
	text, first := la.text(strings.Join(ut, " "), strings.Join(body, "\n"))
	e.s.Change("a.php", text)
	debounce.Take()
	e.c.Distinct(la.name + strings.Join(ut, " ") + e.name)
	for _, p := range places {
		e.c.Eval(1)
		want, exact, fqn := "nothing", "nothing", ""
		for _, n := range resolve(p.kind, la.ns, im, p.w) {
			if l, ok := e.at[p.table][fold(p.kind, n)]; ok && want == "nothing" {
				want, fqn = fmt.Sprintf("w.php:%d", l), n
			}
			if l, ok := e.at[p.table][fold(p.kind, n)]; ok && exact == "nothing" && asDeclared(n, p.kind == "class" && e.kind.name == "class") {
				exact = fmt.Sprintf("w.php:%d", l)
			}
		}
		sub := fmt.Sprintf("%s | %s | %s | %s", la.name, strings.Join(ut, " "), p.what, e.name)
		e.c.SubP(sub)
		at := e.s.At("a.php", first+p.line, p.col)
		ls, err := e.s.Definition(e.s.Ctx, &protocol.DefinitionParams{TextDocumentPositionParams: at})
		if err != nil {
			e.c.Fail(sub, "definition: %v", err)
			continue
		}
		got := lines(ls)
		if got == want {
			continue
		}
		why := ""
		switch {
		case strings.HasPrefix(p.w, "namespace\\") && got == "nothing":
			why = "a name relative to the namespace: "
		case got == exact:
			why = "a name in another letter case than its declaration: "
		}
		e.c.Fail(sub, "%s%s, %s: %q means %s (%s), definition gives %s", why, la.name, strings.Join(ut, " "), p.what, fqn, want, got)
	}
}

// asDeclared: the name is in the letter case of its declaration (the last part of a class may differ).
func asDeclared(n string, last bool) bool {
	i := strings.LastIndexByte(n, '\\') + 1
	return n[:i] == strings.ToUpper(n[:i]) && (last || n[i:] == "x")
}

func main() {
	kit.Main(kit.Check{
		ID:          "C19",
		Level:       "model_checking",
		Rule:        "a case is a layout of namespaces and a first use declaration; with every second one, every name is written in every place a name can be in, and going to its definition must lead to the symbol that PHP's rules give, in a world that declares it in all namespaces, or in all but one",
		Assumptions: []string{"PHP 7 name resolution rules as written down in the harness"},
		HangSeconds: 60,
		Bounds: func(t bool) string {
			return fmt.Sprintf("every use declaration of two or three of 7 clauses, as a list and as a group; %d use declarations, %s; %d written names, %d places; %d layouts", len(uses), map[bool]string{true: "all pairs", false: "all pairs, with a third of them where a name is missing"}[t], len(written), len(sites)+len(members), len(layouts))
		},
		Enumerate: func(e *kit.Enum) {
			for _, la := range layouts {
				for _, kind := range []string{"class", "function", "const"} {
					for _, group := range []bool{false, true} {
						la, kind, group := la, kind, group
						e.Case(fmt.Sprintf("composed %s %s group:%v", la.name, kind, group), func(c *kit.C) {
							en := start(c, classKinds[0], "-")
							defer en.s.Stop()
							for _, u := range append(composed(kind, group, 2), composed(kind, group, 3)...) {
								en.check(la, []use{u})
							}
						})
					}
				}
			}
			for _, k := range classKinds {
				for _, without := range []string{"-", "N", "", "N\\M"} {
					for _, la := range layouts {
						for i, u := range uses {
							if (i > 0 && without == "N\\M" || k.name != "class" && without != "-") && !e.Thorough {
								continue
							}
							e.Case(fmt.Sprintf("%s %s %s | %s", k.name, without, la.name, u.text), func(c *kit.C) {
								en := start(c, k, without)
								defer en.s.Stop()
								en.check(la, []use{u})
								for j, v := range uses {
									if j <= i || clash(u, v) || !c.Thorough() && j%4 != 2 && (without != "-" || k.name != "class") {
										continue
									}
									en.check(la, []use{u, v})
								}
								c.Sample(la.name + " " + u.text)
							})
						}
					}
				}
			}
		},
	})
}

// clash: two declarations of the same alias are an error.
func clash(a, b use) bool {
	for _, x := range a.what {
		for _, y := range b.what {
			if x[0] == y[0] && strings.EqualFold(x[1], y[1]) {
				return true
			}
		}
	}
	return false
}
