package bind

// Pieces are statements on $x and $z.
var Pieces = []string{
	"f($x);", "echo \"a $x {$z}\";", "return $x;", "f($x->p, $z[1]);", "f([$z => $x]);", "if (isset($x)) { f(); } elseif ($z) { }", "f(compact('¤x', \"¤z\"));", "$x();", "f(fn() => $x);", "f(fn(→k) => 1);", "f(fn(→x) => $z + $x);",
	"⇒x = 1;", "⇒z = $x;", "⇒x = $x + 1;", "⇒x = ⇒z = 2;", "f(⇒x = 1);", "if (⇒x = f($z)) { }", "⇒x = [$z];",
	"foreach ($z as →x) { }", "foreach (f() as →x => →z) { f($x); }", "foreach (f() as [→x, 'k' => →z]) { f($z); }", "foreach ($z as &⇄x) { }",
	"try { } catch (E →x) { }", "[⇒x, ⇒z] = f();", "list(, ⇒x) = f($x);", "['k' => [⇒x, 2 => ⇒z], $z => ⇒y] = f();", "[, $x->p, $x[1]] = f(⇒z = 1);",
	"static ⇄x = 1, ⇄z;", "global ⇄x;", "⇄x = &↔z;", "↔x[] = $z;", "unset(↔x);", "↔x .= 1;", "for (⇒x = 0; $x < 3; f()) { }", "switch ($x) { case ⇒z = 1: }", "while ($x) { ⇒x = f(); }", "do { ⇒x = f(); } while ($x);",
	"new class($x) { public §x; function m(→x) { f($x, $this); } };", "{ ⇒x = $z ?: 1; }", "f(function () { ⇒x = 1; });",
}

// Piece is a statement, some have scopes of their own.
func Piece(t string) Node {
	switch t {
	case "f(fn(→k) => 1);":
		return Arrow("f(fn(", "$k", Text("1"), ");")
	case "f(fn(→x) => $z + $x);":
		return Arrow("f(fn(", "$x", Text("$z + $x"), ");")
	case "new class($x) { public §x; function m(→x) { f($x, $this); } };":
		return Function("new class($x) { public §x; function m(", "$x", ") { ", Text("f($x, $this);"), " } };")
	case "f(function () { ⇒x = 1; });":
		return Closure("f(function (", "", nil, "", Text("⇒x = 1;"), ");")
	}
	return Text(t)
}

// Around are statements around others.
var Around = []struct {
	Name string
	Wrap func(Node) Node
}{
	{"while", func(b Node) Node { return Loop("while (f()) { ", b, " }") }},
	{"while:", func(b Node) Node { return Loop("while (f()): ", b, " endwhile;") }},
	{"for", func(b Node) Node { return Loop("for (;;) { ", b, " }") }},
	{"do", func(b Node) Node { return Loop("do { ", b, " } while (f());") }},
	{"foreach", func(b Node) Node { return Loop("foreach (f() as →k) { f($k); ", b, " }") }},
	{"while if", func(b Node) Node { return Loop("while (f()) { if ($x) { ", b, " } }") }},
	{"if", func(b Node) Node { return Seq(Text("if (f()) { "), b, Text(" }")) }},
	{"try", func(b Node) Node { return Seq(Text("try { "), b, Text(" } finally { f(); }")) }},
	{"by value", func(b Node) Node { return Closure("f(function (", "", []string{"x", "z"}, "", b, ");") }},
	{"by reference", func(b Node) Node {
		return Closure("⇒k = function (", "$k", []string{"x"}, "&", b, "; $k();")
	}},
	{"loop closure", func(b Node) Node {
		return Loop("while (f()) { ", Closure("f(function (", "", []string{"x"}, "", b, ");"), " }")
	}},
	{"closure loop", func(b Node) Node {
		return Closure("f(function (", "&$x", nil, "", Loop("while (f()) { ", b, " }"), ");")
	}},
	{"arrow", func(b Node) Node {
		return Arrow("f(fn(", "$x", Closure("function (", "", []string{"x"}, "&", b, ""), ");")
	}},
}

// Scopes are what statements are in.
var Scopes = []struct {
	Name string
	Wrap func(Node) Node
}{
	{"top", func(b Node) Node { return b }},
	{"function", func(b Node) Node { return Function("function ff(", "", ") { ", b, " }") }},
	{"params", func(b Node) Node { return Function("function ff(", "$x, $z = 1", ") { ", b, " }") }},
	{"references", func(b Node) Node { return Function("function ff(", "&$x, X ...$z", ") { ", b, " }") }},
	{"method", func(b Node) Node {
		return Function("class A { public §x; static function m(", "X $x", "): ?X { ", b, " } function z() { } }")
	}},
	{"namespace", func(b Node) Node { return Seq(Text("namespace N { "), b, Text(" }")) }},
}
