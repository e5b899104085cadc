// Package names is declarations of imports, and places for names.
package names

import (
	"fmt"
	"strings"
)

// Clause is an import: the part of the use declaration that is told to be unused, its kind and its alias.
type Clause struct{ Text, Kind, Alias, Target string }

// Decl is a use declaration.
type Decl struct {
	Text    string
	Clauses []Clause
}

var Decls = []Decl{
	{"use A\\x;", []Clause{{"A\\x", "class", "x", "A\\x"}}},
	{"use \\A\\x;", []Clause{{"A\\x", "class", "x", "A\\x"}}},
	{"use A\\x as y;", []Clause{{"A\\x as y", "class", "y", "A\\x"}}},
	{"use A\\B as M ;", []Clause{{"A\\B as M", "class", "M", "A\\B"}}},
	{"use M;", []Clause{{"M", "class", "M", "M"}}},
	{"use A\\x, A\\B as M;", []Clause{{"A\\x", "class", "x", "A\\x"}, {"A\\B as M", "class", "M", "A\\B"}}},
	{"use A\\{x, B as M};", []Clause{{"x", "class", "x", "A\\x"}, {"B as M", "class", "M", "A\\B"}}},
	{"use A\\{\n\tB\\x,\n\tB as M,\n};", []Clause{{"B\\x", "class", "x", "A\\B\\x"}, {"B as M", "class", "M", "A\\B"}}},
	{"use function A\\x;", []Clause{{"A\\x", "function", "x", "A\\x"}}},
	{"use function A\\x as y;", []Clause{{"A\\x as y", "function", "y", "A\\x"}}},
	{"use function A\\{x as y, B\\x};", []Clause{{"x as y", "function", "y", "A\\x"}, {"B\\x", "function", "x", "A\\B\\x"}}},
	{"use const A\\x;", []Clause{{"A\\x", "const", "x", "A\\x"}}},
	{"use const A\\{x as y, B\\x};", []Clause{{"x as y", "const", "y", "A\\x"}, {"B\\x", "const", "x", "A\\B\\x"}}},
	{"use A\\{function x, const B\\x, x as M};", []Clause{{"function x", "function", "x", "A\\x"}, {"const B\\x", "const", "x", "A\\B\\x"}, {"x as M", "class", "M", "A\\x"}}},
	{"use A\\{const x as y, B, function B\\x as M};", []Clause{{"const x as y", "const", "y", "A\\x"}, {"B", "class", "B", "A\\B"}, {"function B\\x as M", "function", "M", "A\\B\\x"}}},
	{"use function A\\x, A\\B\\y;", []Clause{{"A\\x", "function", "x", "A\\x"}, {"A\\B\\y", "function", "y", "A\\B\\y"}}},
}

// Site is a place for a name: %s is the name, %d a number that is not used yet.
type Site struct{ Kind, Text string }

// Typed properties: the parser only knows types of one part.
const Typed = "Typed"

var Sites = []Site{
	{"class", "new %s;"}, {"class", "%s::f();"}, {"class", "f(%s::K);"}, {"class", "%s::$p = 1;"}, {"class", "f($a instanceof %s);"}, {"class", "f(%s::class);"},
	{"class", "function zz%d(%s $p) { return $p; }"}, {"class", "function zz%d(?%s ...$p) { return $p; }"}, {"class", "function zz%d(): %s { }"}, {"class", "function zz%d($p = %s::K) { return $p; }"},
	{"class", "class Z%d extends %s {}"}, {"class", "class Z%d implements I, %s {}"}, {"class", "interface Z%d extends %s {}"}, {"class", "class Z%d { use %s; }"}, {"class", "class Z%d { use T, %s { T::m insteadof %s; } }"},
	{"class", "class Z%d { function m(%s $p) { return $p; } }"}, {"class", "class Z%d { function m(): ?%s { } }"}, {"class", "class Z%d { public $p = %s::K; const C = 1; }"}, {"class", "class Z%d { const C = %s::K; }"},
	{"class", "class Z%d { function m($p = [%s::K]) { return $p; } }"}, {"class", "interface Z%d { function m(): %s; }"}, {"class", "trait Z%d { use %s; }"}, {Typed, "class Z%d { private ?%s $p; }"}, {Typed, "class Z%d { public $a; var %s $p = 1; }"},
	{"class", "try {} catch (%s $e) { f($e); }"}, {"class", "try {} catch (E | %s $e) { f($e); }"}, {"class", "f(function (%s $p) { return $p; });"}, {"class", "f(function (): %s { });"}, {"class", "f(fn(%s $p) => $p);"}, {"class", "f(fn(): %s => 1);"},
	{"class", "new class extends %s implements I {};"}, {"class", "new class(new %s) { use T; };"}, {"class", "const C%d = %s::K;"}, {"class", "function zz%d() { static $s = %s::K; }"}, {"class", "f($a ?? new %s);"}, {"class", "f($a ? %s::K : 1);"}, {"class", "f([%s::K => 1]);"}, {"class", "f(\"{$a[%s::K]}\");"}, {"class", "f(-%s::K | 2 ** 3);"}, {"class", "switch (1) { case %s::K: }"},
	{"class", "return new %s;"}, {"class", "throw new %s;"}, {"class", "f((new %s)->m());"}, {"class", "f(%s::f()::g());"}, {"class", "f(%s::$p[1]);"}, {"class", "while (%s::f()) {}"}, {"class", "foreach (%s::f() as $v) f($v);"}, {"class", "foreach ([] as $v) f(%s::K);"},
	{"function", "%s();"}, {"function", "f(%s(1));"}, {"function", "$a = %s() ?: 2; f($a);"}, {"function", "f(%s()->p, \"{$a[%s()]}\");"}, {"function", "f(fn() => %s());"}, {"function", "class Z%d { function m() { return %s(); } }"}, {"function", "f(!%s() && 1);"}, {"function", "echo %s(), 1;"}, {"function", "if (%s()): endif;"}, {"function", "f(%s()());"}, {"function", "f(...%s());"},
	{"const", "f(%s);"}, {"const", "$a = %s; f($a);"}, {"const", "f(1 + %s);"}, {"const", "function zz%d($p = %s) { return $p; }"}, {"const", "class Z%d { public $p = %s; }"}, {"const", "class Z%d { const C = %s; }"}, {"const", "const C%d = %s;"}, {"const", "f([%s => %s]);"}, {"const", "echo %s;"}, {"const", "return %s;"}, {"const", "f($a[%s]);"}, {"const", "f(%s ? 1 : 2);"}, {"const", "function zz%d() { static $s = %s; }"}, {"const", "switch (1) { case %s: }"}, {"const", "f($a ?? %s);"}, {"const", "class Z%d { const C = [1, 2 + %s]; }"},
}

var Names = []string{"x", "X", "y", "M", "B", "M\\x", "m\\x", "B\\x", "x\\x", "\\x", "\\A\\x", "\\M\\x", "A\\x", "namespace\\x", "namespace\\M\\x", "xx"}

func Cut(s, sep string) (string, string, bool) {
	if i := strings.Index(s, sep); i >= 0 {
		return s[:i], s[i+len(sep):], true
	}
	return s, "", false
}

type Written struct {
	Site Site
	Name string
}

func (w Written) String(n int) string {
	t := strings.ReplaceAll(w.Site.Text, "%s", w.Name)
	return strings.ReplaceAll(t, "%d", fmt.Sprint(n))
}
