// C27: the members of an expression are those of its type.
package main

import (
	"fmt"
	"sort"
	"strings"

	"github.com/john-nguyen09/phpintel/internal/lsp/protocol"
	"github.com/john-nguyen09/phpintel/internal/zzverif/kit"
	debounce "github.com/john-nguyen09/phpintel/internal/zzverif/mcdebounce"
	"github.com/john-nguyen09/phpintel/internal/zzverif/srv"
)

// ty is one of the types of an expression: a class, and how many arrays are around it.
type ty struct {
	class string
	level int
}

// The world: m is declared by A, B and D (which extends A), mA, mB and mD only by one of them.
const world = `<?php
class A {
	public function m() {}
	public function mA() {}
	/** @return B */
	public function toB(): B {}
	/** @return B */
	public function docB() {}
	/** @return B[] */
	public function bs() {}
	/** @return B|A */
	public function both() {}
	/** @return self */
	public function me(): self {}
	/** @return self */
	public function docMe() {}
	/**
	 * @return static
	 */
	public function st() {}
	/** @return $this */
	public function th() {}
	/** @return null|B */
	public function opt(): ?B {}
	/** @return B|null */
	public function docOpt() {}
	public function none() {}
	public function num(): int {}
	/** @var B */
	public $b;
	/** @var B */
	public $tb;
	/** @var B[] */
	public $lb;
	/** @var A|B */
	public $ab;
	public $made;
	public $n;
	public function __construct() { $this->made = new B; }
	/** @return self */
	public static function mk(): self {}
	/**
	 * @return static
	 */
	public static function mkst() {}
	/** @var B */
	public static $sb;
	/** @var A[] */
	public static $sas;
}
class B {
	public function m() {}
	public function mB() {}
	/** @return A */
	public function toA(): A {}
	/** @return A[] */
	public function as() {}
	/** @var A */
	public $a;
	/** @var A[] */
	public $la;
	/** @return self */
	public function me(): self {}
	/**
	 * @return static
	 */
	public function st() {}
}
/**
 * @property B $pb
 * @property A[] $pla
 * @method B gb()
 * @method E gst()
 */
class E extends B {
}
interface I {
	public function m();
	public function mI();
	/** @return B */
	public function toB(): B;
	/**
	 * @return static
	 */
	public function st();
}
trait T {
	/** @return B */
	public function tB(): B {}
	/**
	 * @return static
	 */
	public function tst() {}
	/** @var A */
	public $ta;
}
class U {
	use T;
	public function m() {}
	public function mU() {}
}
/** @return A */
function fA(): A {}
/** @return A */
function dA() {}
/** @return A|B */
function dAB() {}
/** @return A[] */
function dAs() {}
/** @return A[][] */
function dAss() {}
/** @return A|B[] */
function dAorBs() {}
/** @return A|A[] */
function dAorAs() {}
/** @return A|null */
function fOpt(): ?A {}
/** @return null|A */
function dOpt() {}
/** @return D */
function fD(): D {}
/** @return E */
function fE(): E {}
/** @return I */
function fI(): I {}
/** @return U */
function fU(): U {}
function fnone() {}
/** @global A $gA */
global $gA;
global $gB;
$gB = new B;
/** @global A[] $gAs */
global $gAs;
function other($gAs) {
	$gA = new B;
	$gB = new A;
	$gAs = new A;
	$f = function () {
		$gB = new A;
	};
}
function fint(): int {}
`

// methods and properties: class, member -> types; "static" is the class it is called on.
var members = map[string]map[string][]ty{
	"A": {"toB()": {{"B", 0}}, "docB()": {{"B", 0}}, "bs()": {{"B", 1}}, "both()": {{"A", 0}, {"B", 0}}, "me()": {{"A", 0}}, "docMe()": {{"A", 0}},
		"st()": {{"static", 0}}, "th()": {{"static", 0}}, "opt()": {{"B", 0}}, "docOpt()": {{"B", 0}}, "none()": nil, "num()": nil,
		"b": {{"B", 0}}, "tb": {{"B", 0}}, "lb": {{"B", 1}}, "ab": {{"A", 0}, {"B", 0}}, "made": {{"B", 0}}, "n": nil,
		"::mk()": {{"A", 0}}, "::mkst()": {{"static", 0}}, "::$sb": {{"B", 0}}, "::$sas": {{"A", 1}}},
	"B": {"toA()": {{"A", 0}}, "as()": {{"A", 1}}, "a": {{"A", 0}}, "la": {{"A", 1}}, "me()": {{"B", 0}}, "st()": {{"static", 0}}},
	"E": {"pb": {{"B", 0}}, "pla": {{"A", 1}}, "gb()": {{"B", 0}}, "gst()": {{"E", 0}}},
	"I": {"toB()": {{"B", 0}}, "st()": {{"static", 0}}},
	"U": {"tB()": {{"B", 0}}, "tst()": {{"static", 0}}, "ta": {{"A", 0}}},
}

var parent = map[string]string{"D": "A", "E": "B", "anon": "B"}

// where m is found on a class, and the markers it has.
var mOf = map[string]string{"A": "A", "B": "B", "D": "D", "E": "B", "I": "I", "U": "U", "anon": "B"}
var marks = map[string][]string{"A": {"mA"}, "B": {"mB"}, "D": {"mA", "mD"}, "E": {"mB"}, "I": {"mI"}, "U": {"mU"}, "anon": {"mB"}}

func member(class, name string) []ty {
	for c := class; c != ""; c = parent[c] {
		if ts, ok := members[c][name]; ok {
			var out []ty
			for _, t := range ts {
				if t.class == "static" {
					t.class = class
				}
				out = append(out, t)
			}
			return out
		}
	}
	return nil
}

func norm(ts []ty) []ty {
	seen := map[ty]bool{}
	var out []ty
	for _, t := range ts {
		if !seen[t] {
			seen[t] = true
			out = append(out, t)
		}
	}
	sort.Slice(out, func(i, j int) bool { return fmt.Sprint(out[i]) < fmt.Sprint(out[j]) })
	return out
}

// expr is an expression; deref is how it is written before ->.
type expr struct {
	code, deref string
	types       []ty
	inD         bool // only inside class D
	pre, post   string
}

func e(code string, ts ...ty) expr { return expr{code: code, deref: code, types: ts} }

func (x expr) apply(m string) expr {
	var ts []ty
	for _, t := range x.types {
		if t.level == 0 {
			ts = append(ts, member(t.class, m)...)
		}
	}
	c := x.deref + "->" + m
	return expr{c, c, norm(ts), x.inD, x.pre, x.post}
}

func bases() []expr {
	A, B, D := ty{"A", 0}, ty{"B", 0}, ty{"D", 0}
	nw := func(c string, ts ...ty) expr { return expr{code: "new " + c, deref: "(new " + c + ")", types: ts} }
	out := []expr{
		nw("A", A), nw("A()", A), nw("\\D", D), nw("E", ty{"E", 0}), nw("U", ty{"U", 0}), e("fA()", A), e("dA()", A), e("dAB()", A, B), e("dAs()", ty{"A", 1}), e("dAss()", ty{"A", 2}),
		e("dAorBs()", A, ty{"B", 1}), e("dAorAs()", A, ty{"A", 1}), e("fOpt()", A), e("dOpt()", A), e("fD()", D), e("fE()", ty{"E", 0}), e("fI()", ty{"I", 0}), e("fU()", ty{"U", 0}), e("fnone()"), e("fint()"),
		e("A::mk()", A), e("D::mk()", A), e("A::mkst()", A), e("D::mkst()", D), e("A::$sb", B), e("D::$sb", B), e("A::$sas", ty{"A", 1}), e("\\fA()", A),
		e("$pa", A), e("$pb", B), e("$pab", A, B), e("$pas", ty{"A", 1}), e("$pn", A), e("$dn", A), e("$pi"), e("$pu"), e("$pI", ty{"I", 0}), e("$def", B),
	}
	with := func(pre string, x expr, post string) {
		x.pre, x.post = pre, post
		out = append(out, x)
	}
	with("global $gA;\n", e("$gA", A), "")
	with("global $gOther, $gB;\n", e("$gB", B), "")
	with("global $gAs;\n", e("$gAs", ty{"A", 1}), "")
	with("", e("$gA"), "")
	with("try { } catch (A $ex) {\n", e("$ex", A), "\n}")
	with("try { } catch (A | B $ex) {\n", e("$ex", A, B), "\n}")
	with("try { } catch (\\Nowhere $ex) { } catch (B $ex) {\n", e("$ex", B), "\n}")
	with("foreach (dAs() as $fe) {\n", e("$fe", A), "\n}")
	with("foreach (dAss() as $fe) {\n", e("$fe", ty{"A", 1}), "\n}")
	with("$cl = function (A $in, B $pb) use ($pa) {\n", e("$in", A), "\n};")
	with("$cl = function (A $in, A $pb) use ($pab) {\n", e("$pb", A), "\n};")
	with("$cl = function (A $in) use ($pab) {\n", e("$pab", A, B), "\n};")
	with("$cl = function (A $in) use (&$pb) {\n", e("$pb", B), "\n};")
	with("$cl = function (A $in) {\n", e("$pb"), "\n};")
	with("$an = new class($pa) extends B { function inner(A $in) {\n", e("$this", ty{"anon", 0}), "\n} };")
	with("$an = new class($pa) extends B { function inner(A $in) {\n", e("$in", A), "\n} };")
	with("$an = new class($pa) extends B { function inner(A $in) {\n", e("$pa"), "\n} };")
	with("$an = new class($pa) { use T; function inner(A $in) {\n", e("parent::mkst()"), "\n} };")
	with("/** @var A */\n$an = $pu;\n", e("$an", A), "")
	with("/** @var A[]|B $an */\n$an = $pu;\n", e("$an", ty{"A", 1}, B), "")
	for _, x := range []expr{e("$this", D), nw("self", D), nw("static", D), nw("parent", A), nw("parent()", A), e("self::mk()", A), e("static::mkst()", D), e("self::mkst()", D), e("parent::mkst()", D), e("self::$sb", B), e("static::$sb", B), e("parent::$sb", B), e("parent::me()", A), e("parent::st()", D)} {
		x.inD = true
		out = append(out, x)
	}
	return out
}

const params = `A $pa, B $pb, $pab, $pas, ?A $pn, $dn, int $pi, $pu, I $pI, B $def = null`
const paramDoc = `	/**
	 * @param A|B $pab
	 * @param A[] $pas
	 * @param A|null $dn
	 */
`

var steps = []string{"toB()", "docB()", "bs()", "both()", "me()", "docMe()", "st()", "th()", "opt()", "docOpt()", "none()", "num()", "b", "tb", "lb", "ab", "made", "n", "toA()", "as()", "a", "la", "pb", "pla", "gb()", "gst()", "tB()", "tst()", "ta"}

// exprs are all expressions of at most n steps.
func exprs(n int) []expr {
	out := bases()
	last := out
	for i := 0; i < n; i++ {
		var next []expr
		for _, x := range last {
			if len(x.types) == 0 {
				continue
			}
			for _, s := range steps {
				y := x.apply(s)
				// a member that no type has is only interesting once
				if len(y.types) == 0 && s != "none()" && s != "n" && s != "b" && s != "toA()" && s != "pb" {
					continue
				}
				next = append(next, y)
			}
		}
		out = append(out, next...)
		last = next
	}
	return out
}

func dearray(ts []ty) []ty {
	var out []ty
	for _, t := range ts {
		if t.level > 0 {
			out = append(out, ty{t.class, t.level - 1})
		}
	}
	return out
}

// consumer writes statements with one or more places "@" where a member of the type is used.
type consumer struct {
	name string
	text func(x expr) string
	ts   func(ts []ty) []ty
	// may are types that the variable also had before, which it may keep
	may func(ts []ty) []ty
}

func none(ts []ty) []ty { return nil }

func same(ts []ty) []ty { return ts }

var consumers = []consumer{
	{"direct", func(x expr) string { return x.deref + "->@m();" }, same, nil},
	{"variable", func(x expr) string { return "$x = " + x.code + "; $x->@m();" }, same, nil},
	{"argument", func(x expr) string { return "fA(1, " + x.deref + "->@m());" }, same, nil},
	{"parentheses", func(x expr) string { return "$x = (" + x.code + "); return ($x)->@m();" }, same, nil},
	{"clone", func(x expr) string { return "$x = clone " + x.code + "; $x->@m();" }, same, nil},
	{"copy", func(x expr) string { return "$x = " + x.code + ";\n$y = $x; $y->@m();" }, same, nil},
	{"assigned again", func(x expr) string { return "$x = new A; $x = fI(); $x = " + x.code + "; $x->@m(); $x = new D;" }, same, func([]ty) []ty { return []ty{{"A", 0}, {"I", 0}} }},
	{"foreach", func(x expr) string { return "foreach (" + x.code + " as $v) { $v->@m(); }" }, dearray, nil},
	{"foreach with key", func(x expr) string { return "$x = " + x.code + ";\nforeach ($x as $k => $v) { if ($k) $v->@m(); }" }, dearray, nil},
	{"foreach twice", func(x expr) string { return "foreach (" + x.code + " as $v) { foreach ($v as $w) { $w->@m(); } }" }, func(ts []ty) []ty { return dearray(dearray(ts)) }, nil},
	{"closure", func(x expr) string { return "$x = " + x.code + "; $f = function ($q) use ($x) { return $x->@m(); };" }, same, nil},
	{"arrow function", func(x expr) string { return "$x = " + x.code + "; $f = fn($q) => $x->@m();" }, same, nil},
	{"shadowed by an arrow function", func(x expr) string { return "$x = " + x.code + "; $f = fn($x) => $x->@m();" }, none, nil},
	{"shadowed by a closure", func(x expr) string { return "$x = " + x.code + "; $f = function ($x) { $x->@m(); };" }, none, nil},
	{"not in the closure", func(x expr) string { return "$x = " + x.code + "; $f = function () use ($pu) { $x->@m(); };" }, none, nil},
	{"only in the closure", func(x expr) string {
		return "$f = function () use ($pu) { $x = new D; }; $g = fn($x) => $x + 1; $x->@m();"
	}, none, nil},
	{"condition", func(x expr) string {
		return "$x = " + x.code + ";\nif ($x->@m()) { $z = $x->@m(); } else { echo $x->@m(); }"
	}, same, nil},
	{"loop", func(x expr) string { return "for ($i = 0; $i < 3; $i++) { $x = " + x.code + "; while ($x->@m()) { } }" }, same, nil},
	{"instanceof", func(x expr) string { return "$x = " + x.code + "; if ($x instanceof B) { $x->@m(); }" }, func(ts []ty) []ty { return []ty{{"B", 0}} }, same},
	{"ternary", func(x expr) string { return "$x = $pu ? " + x.code + " : null; $x->@m();" }, none, same},
	{"coalesce", func(x expr) string { return "$x = $pu ?? " + x.code + "; $x->@m();" }, none, same},
	{"assignment in an expression", func(x expr) string { return "if ($x = " + x.code + ") { $x->@m(); }" }, same, nil},
	{"assigned twice", func(x expr) string { return "$y = $x = " + x.code + "; $x->@m(); $y->@m();" }, none, same},
	{"first element", func(x expr) string { return "$x = " + x.code + "; $x[0]->@m();" }, none, dearray},
	{"destructured", func(x expr) string { return "[$x] = " + x.code + "; $x->@m();" }, none, dearray},
	{"property of the class", func(x expr) string { return "$o = new A; $o->n = " + x.code + "; $o->n->@m();" }, none, same},
	{"nullsafe", func(x expr) string { return "$x = " + x.code + "; $x?->@m();" }, none, same},
	{"in a nested function", func(x expr) string { return "$x = new D; function in@() { $x = " + x.code + "; $x->@m(); }" }, same, nil},
	{"annotated", func(x expr) string { return "/** @var B $x */\n$x = " + x.code + ";\n$x->@m();" }, func([]ty) []ty { return []ty{{"B", 0}} }, same},
	{"string", func(x expr) string { return "$x = " + x.code + "; echo \"a {$x->@m()} b\";" }, same, nil},
}

// Declarations that tell a type in only one way.
var told = []struct{ name, text string }{
	{"the return type of a function", "function f(): A {}\nf()->@m();\n"},
	{"the return type of a method", "class B { function f(): A {} }\n(new B)->f()->@m();\n"},
	{"the return type of a static method", "class B { static function f(): A {} }\nB::f()->@m();\n"},
	{"the return type of a method of an interface", "interface B { function f(): A; }\nfunction g(B $b) { $b->f()->@m(); }\n"},
	{"the nullable type of a property", "class B { public ?A $p = null; }\n(new B)->p->@m();\n"},
	{"the self type of a property", "class B extends A { public self $p, $q; }\n(new B)->p->q->@m();\n"},
	{"the type of a property of a trait", "trait T { public A $p; }\nclass B { use T; }\n(new B)->p->@m();\n"},
	{"the type of a property", "class B { public A $p; }\n(new B)->p->@m();\n"},
	{"the type of a variadic parameter", "function g(A ...$as) { foreach ($as as $a) { $a->@m(); } }\n"},
	{"the type of a parameter", "function g(A $a) { $a->@m(); }\n"},
	{"the nullable type of a parameter", "function g(?A $a) { $a->@m(); }\n"},
	{"the type of a parameter of a closure", "$f = function (A $a) { $a->@m(); };\n"},
	{"the type of a parameter of an arrow function", "$f = fn (A $a) => $a->@m();\n"},
	{"a catch clause", "try { } catch (A $a) { $a->@m(); }\n"},
	{"an annotation", "/** @var A $a */\n$a = f(); $a->@m();\n"},
	{"a documented parameter", "/** @param A $a */\nfunction g($a) { $a->@m(); }\n"},
	{"a documented function", "/** @return A */\nfunction g() { }\ng()->@m();\n"},
	{"a documented property", "class B { /**\n * @var A\n */\n public $p; }\n(new B)->p->@m();\n"},
	{"a documented static property", "class B { /**\n * @var A\n */\n static $p; }\nB::$p->@m();\n"},
	{"a property of the documentation", "/** @property A $p */\nclass B { }\n(new B)->p->@m();\n"},
	{"a method of the documentation", "/** @method A f() */\nclass B { }\n(new B)->f()->@m();\n"},
	{"an assignment in the constructor", "class B { public $p; function __construct() { $this->p = new A; } }\n(new B)->p->@m();\n"},
	{"a parameter assigned to a property", "class B { public $p; function __construct(A $a) { $this->p = $a; } }\n(new B)->p->@m();\n"},
	{"a generator", "/** @return A[] */\nfunction g() { yield new A; }\nforeach (g() as $k => $a) { $a->@m(); }\n"},
	{"a static variable", "function g() { /** @var A $a */\n static $a; $a->@m(); }\n"},
	{"instanceof", "function g($a) { if ($a instanceof A) { $a->@m(); } }\n"},
	{"a documented foreach", "/** @var A $a */\nforeach ($as as $a) { $a->@m(); }\n"},
	{"an anonymous class", "(new class extends A { })->@m();\n"},
	{"cloning", "(clone new A)->@m();\n"},
}

type access struct {
	line, col int
	types     []ty
	may       []ty
	what      string
}

func lineOf(text, class, what string) int {
	in := false
	for i, l := range strings.Split(text, "\n") {
		if strings.HasPrefix(l, "class "+class+" ") || strings.HasPrefix(l, "class "+class+"\r") || strings.HasPrefix(l, "interface "+class+" ") {
			in = true
		} else if strings.HasPrefix(l, "}") {
			in = false
		}
		if in && strings.Contains(l, what) {
			return i
		}
	}
	return -1
}

// In the second variant the world is in a namespace, and what is used of it is imported.
const imports = `use N\A, N\B, N\E; use N\{I, U, T}; use function N\{fA, dA, dAB, dAs, dAss, dAorBs, dAorAs}; use function N\fOpt, N\dOpt, N\fD, N\fE, N\fI, N\fU, N\fnone, N\fint;`

var inNamespace = strings.NewReplacer(`\D`, "D", `\fA`, `\N\fA`)

// build writes one function for every expression and consumer.
func build(xs []expr, cs []consumer, ns bool) (string, []access) {
	var acc []access
	text := "<?php\n"
	if ns {
		text = "<?php namespace M; " + imports + "\n"
		xs = append([]expr{}, xs...)
		for i, x := range xs {
			xs[i].code, xs[i].deref = inNamespace.Replace(x.code), inNamespace.Replace(x.deref)
		}
	}
	add := func(s string, ts, may []ty, what string) {
		for {
			i := strings.Index(s, "@m")
			if i < 0 {
				break
			}
			text += s[:i]
			s = s[i+1:]
			l := strings.Count(text, "\n")
			col := len(text) - strings.LastIndex(text, "\n") - 1
			acc = append(acc, access{l, col, norm(ts), norm(may), what})
		}
		text += s
	}
	n := 0
	for _, inD := range []bool{false, true} {
		if inD {
			text += "class D extends A {\n\tpublic function m() {}\n\tpublic function mD() {}\n"
		}
		for _, x := range xs {
			for _, c := range cs {
				if x.inD != inD {
					continue
				}
				if c.name == "in a nested function" && (strings.ContainsAny(x.code, "$") && !strings.Contains(x.code, "::$s")) {
					continue
				}
				n++
				text += paramDoc + fmt.Sprintf("\tfunction zz%d(%s) {\n\t\t%s", n, params, x.pre)
				ts := c.ts(x.types)
				var may []ty
				if c.may != nil {
					may = c.may(x.types)
				}
				add(strings.Replace(c.text(x), "in@", fmt.Sprint("in", n), 1), ts, may, c.name+" of "+x.code)
				text += x.post + "\n\t}\n"
			}
		}
		if inD {
			text += "}\n"
		}
	}
	return text, acc
}

func check(c *kit.C, s *srv.S, wantLines map[string]string, xs []expr, cs []consumer, ns bool) {
	text, acc := build(xs, cs, ns)
	s.Change("a.php", text)
	debounce.Take()
	if strings.Contains(text, "class D ") {
		wantLines["D"] = fmt.Sprint("a.php:", lineOf(text, "D", "function m()"))
	}
	c.Eval(len(acc))
	for _, a := range acc {
		c.Distinct(fmt.Sprint(a.types))
		var want, wantMarks []string
		for _, t := range a.types {
			if t.level == 0 {
				want = append(want, wantLines[mOf[t.class]])
				wantMarks = append(wantMarks, marks[t.class]...)
			}
		}
		var may, mayMarks []string
		for _, t := range a.may {
			if t.level == 0 {
				may = append(may, wantLines[mOf[t.class]])
				mayMarks = append(mayMarks, marks[t.class]...)
			}
		}
		p := s.At("a.php", a.line, a.col)
		c.SubP(a.what)
		ls, err := s.Definition(s.Ctx, &protocol.DefinitionParams{TextDocumentPositionParams: p})
		if err != nil {
			c.Fail(a.what, "definition: %v", err)
			return
		}
		var got []string
		for _, l := range ls {
			f := string(l.URI)
			got = append(got, fmt.Sprintf("%s:%d", f[strings.LastIndex(f, "/")+1:], l.Range.Start.Line))
		}
		if g, w := set(without(got, may, want)), set(want); g != w {
			c.Fail(a.what, "%s has the types %v: m is declared at %s, definition says %s; line %q", a.what, a.types, w, g, strings.Split(text, "\n")[a.line])
			continue
		}
		offers(c, s, a, text, "with ", p, 1, wantMarks, mayMarks)
		offers(c, s, a, text, "before ", p, 0, wantMarks, mayMarks)
	}
	// what is offered once only the arrow is written
	lines := strings.Split(text, "\n")
	var left []access
	for _, a := range acc {
		l := lines[a.line]
		if a.col < 2 || strings.Count(l, "->m") != 1 || !strings.HasPrefix(l[a.col-2:], "->m") {
			continue
		}
		rest := strings.TrimPrefix(l[a.col:], "m")
		lines[a.line] = l[:a.col] + strings.TrimPrefix(rest, "()")
		left = append(left, a)
	}
	text = strings.Join(lines, "\n")
	s.Change("a.php", text)
	debounce.Take()
	for _, a := range left {
		c.Eval(1)
		c.SubP(a.what)
		offers(c, s, a, text, "alone ", s.At("a.php", a.line, a.col), 0, a.wantMarks(), a.mayMarks())
	}
}

func (a access) wantMarks() []string { return marksOf(a.types) }
func (a access) mayMarks() []string  { return marksOf(a.may) }

func marksOf(ts []ty) (r []string) {
	for _, t := range ts {
		if t.level == 0 {
			r = append(r, marks[t.class]...)
		}
	}
	return
}

// offers looks at the members offered some characters after p.
func offers(c *kit.C, s *srv.S, a access, text, how string, p protocol.TextDocumentPositionParams, after int, wantMarks, mayMarks []string) {
	p.Position.Character += after
	cl, err := s.Completion(s.Ctx, &protocol.CompletionParams{TextDocumentPositionParams: p})
	if err != nil {
		c.Fail(a.what, "completion: %v", err)
		return
	}
	var got []string
	if cl != nil {
		for _, it := range cl.Items {
			if len(it.Label) == 2 && it.Label[0] == 'm' && it.Label[1] < 'a' {
				got = append(got, it.Label)
			}
		}
	}
	if g, w := set(without(got, mayMarks, wantMarks)), set(wantMarks); g != w {
		c.Fail(a.what, "%s has the types %v with %s, completion %soffers %s; line %q", a.what, a.types, w, how, g, strings.Split(text, "\n")[a.line])
	}
}

// without is what is of use in got: not what may be there, unless it is wanted.
func without(got, may, want []string) []string {
	skip := map[string]bool{}
	for _, m := range may {
		skip[m] = true
	}
	for _, w := range want {
		delete(skip, w)
	}
	var out []string
	for _, g := range got {
		if !skip[g] {
			out = append(out, g)
		}
	}
	return out
}

func set(in []string) string {
	m := map[string]bool{}
	var out []string
	for _, s := range in {
		if !m[s] {
			m[s] = true
			out = append(out, s)
		}
	}
	sort.Strings(out)
	return strings.Join(out, " ")
}

func main() {
	kit.Main(kit.Check{
		ID:          "C27",
		Level:       "model_checking",
		Rule:        "a case is a set of expressions of the grammar (a base and some accesses to members) and one way to use them; two are distinct when their types differ",
		Assumptions: []string{"only what declarations say: the value of a variable is what was assigned last before the place, in the order of the text"},
		HangSeconds: 60,
		Bounds: func(t bool) string {
			return fmt.Sprintf("%d bases, at most %d accesses to %d members, %d ways of use", len(bases()), map[bool]int{false: 2, true: 3}[t], len(steps), len(consumers))
		},
		Enumerate: func(en *kit.Enum) {
			group := func(name string, xs []expr, cs []consumer, ns bool) {
				const n = 60
				for i := 0; i < len(xs); i += n {
					j := i + n
					if j > len(xs) {
						j = len(xs)
					}
					part := xs[i:j]
					en.Case(fmt.Sprintf("%s %d", name, i/n), func(c *kit.C) {
						world := world
						if ns {
							world = strings.Replace(world, "<?php\n", "<?php namespace N;\n", 1)
							world = strings.Replace(world, "@return D ", "@return \\M\\D ", 1)
						}
						s := srv.Start(c.Scratch(), map[string]string{"a.php": "<?php\n", "w.php": world})
						defer s.Stop()
						s.Open("w.php")
						s.Open("a.php")
						lines := map[string]string{}
						for _, k := range []string{"A", "B", "I", "U"} {
							lines[k] = fmt.Sprint("w.php:", lineOf(world, k, "function m()"))
						}
						check(c, s, lines, part, cs, ns)
					})
				}
			}
			for _, co := range consumers {
				group(co.name, exprs(1), []consumer{co}, false)
				group(co.name+" imported", exprs(1), []consumer{co}, true)
			}
			n := 2
			if en.Thorough {
				n = 3
			}
			group("chains", exprs(n), consumers[1:2], false)
			group("chains imported", exprs(2), consumers[1:2], true)
			for _, k := range told {
				k := k
				en.Case("told by "+k.name, func(c *kit.C) {
					s := srv.Start(c.Scratch(), map[string]string{"a.php": "<?php\n"})
					defer s.Stop()
					s.Open("a.php")
					text := "<?php\nclass A {\n\tfunction m() {}\n}\n" + k.text
					at := strings.Index(text, ">@m") + 1
					text = strings.Replace(text, ">@m", ">m", 1)
					s.Change("a.php", text)
					debounce.Take()
					c.Eval(1)
					l := strings.Count(text[:at], "\n")
					ls, err := s.Definition(s.Ctx, &protocol.DefinitionParams{TextDocumentPositionParams: s.At("a.php", l, at-strings.LastIndex(text[:at], "\n")-1)})
					if err != nil || len(ls) != 1 || ls[0].Range.Start.Line != 2 {
						c.Fail(k.name, "the type told by %s is not that of the expression: %v %v", k.name, ls, err)
					}
				})
			}
		},
	})
}
