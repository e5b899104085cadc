package main

import (
	"fmt"
	"strings"

	"github.com/john-nguyen09/phpintel/internal/zzverif/kit"
)

// memberTexts are statements which declare and access members: @m marks the name of a method,
// @p that of a property, which is written with its $ in declarations and after ::, and @k that of
// a constant of a class. @n is the same name where it is not that of a member.
var memberTexts = []string{
	"class Z%d { function @m() {} }",
	"class Z%d { public static function &@m($a) { return $a->@p; } private function other() {} }",
	"abstract class Z%d { abstract protected function @m(); public $other; }",
	"interface Z%d { const @k = 1; function @m(); }",
	"trait Z%d { private @p; function f() { return $this->@p(); } }",
	"class Z%d { public @p = 1, $other = 2; }",
	"class Z%d { public $other, @p = [1, 2]; }",
	"class Z%d { var @p; static function f() { return self::@p; } }",
	"class Z%d { private static @p = null; /** text */ const @k = self::OTHER, OTHER = 1; }",
	"class Z%d { const OTHER = 1, @k = self::@k; }",
	"class Z%d { private const @k = 1; protected $a = self::@k; }",
	"new class { function @m() {} public @p = 2; const @k = 3; };",
	"class Z%d { function f($a = self::@k) { return static::@m() . parent::@m(); } }",
	"class Z%d { function f() { return function () { return $this->@m(); }; } }",
	"$a->@m();",
	"$a->@p;",
	"$a->b()->@m();",
	"$a->@p->@m()->@p;",
	"$a->@p[0]->@m();",
	"$a->@p = 1;",
	"$a->b = $a->@p;",
	"$a->@p++;",
	"unset($a->@p);",
	"\"{$a->@p}\";",
	"\"text $a->@p text\";",
	"\"{$a->@m()}\";",
	"<<<A\n$a->@p text {$a->@m()}\nA;\n",
	"C::@m();",
	"C::@p;",
	"C::@k;",
	"\\C::@k . \\N\\C::@p . \\N\\C::@m();",
	"$a::@k;",
	"$a::@m();",
	"$a::@p;",
	"(new C)->@m();",
	"(new C)->@p;",
	"f()->@p;",
	"f()::@k;",
	"f($a->@m(), $a->@p, C::@k, C::@p, C::@m());",
	"($a->@p)();",
	"isset($a->@p, C::@p);",
	"foreach ($a->@p as $b) { f($b->@p); }",
	"foreach ($a as $a->@p) { }",
	"fn() => $a->@m($a->@p);",
	"$a->@m($a->@m($a->@m()));",
	"C::@p->@m();",
	"C::@p[1];",
	"C::@m()::@m();",
	"C::@m(C::@m())::@k;",
	"C::@m()->@p;",
	"switch ($a->@p) { case C::@k: $a->@m(); }",
	"list($a->@p, $b) = [C::@k];",
	"[$a->@p] = $a->@m();",
	"$a->@p ?: $a->@m() ?? C::@k;",
	"function zz%d($p = C::@k) { static $s = C::@k; return $p . $s; }",
	"const C%d = C::@k;",
	"clone $a->@p;",
	"$a\n  ->@p\n  /* text */ ->@m()\n  ->@p;",
	"$a[C::@k]->@p[C::@k] = 1;",
	"$a /* t */ -> /* u */ @m /* v */ ();",
	"C /* t */ :: /* u */ @m /* v */ ();",
	"C /* t */\n::\n@k . C\n// t\n::\n// u\n@p;",
	"$a\n// t\n->\n# u\n@p;",
	"class Z%d { public function /* t */ & /* u */ @m /* v */ () {} const /* t */ @k /* u */ = 1; public /* t */ @p /* u */ = 1; }",
	// None of these names a member
	"$a->$@n;",
	"$a->$@n();",
	"C::$@n();",
	"$a->{'@n'};",
	"$a->{$@n};",
	"$a->{$@n}();",
	"C::$$@n;",
	"$@n = \"@n->@n\"; f('C::@n()', $@n);",
	"function zzz%d($@n) { return $@n; }",
	"// $a->@n()\n/* C::@n */",
}

var memberNames = []string{"mm", "list", "mé", "M_2"}

var usual = func(n string) bool { return n == "mm" || n == "M_2" || n == "mé" }

// memberProgram writes texts with a name.
func memberProgram(texts []string, name string) (string, []place) {
	var b strings.Builder
	var ps []place
	b.WriteString("<?php\n/* é😀 */")
	for i, t := range texts {
		t = strings.ReplaceAll(t, "%d", fmt.Sprint(i+1))
		for {
			j := strings.IndexByte(t, '@')
			if j < 0 {
				break
			}
			b.WriteString(t[:j])
			from, word := b.Len(), name
			switch t[j+1] {
			case 'm':
				ps = append(ps, place{from: from, to: from + len(name), means: "method " + name})
			case 'k':
				ps = append(ps, place{from: from, to: from + len(name), means: "const " + name})
			case 'p':
				if i, k := strings.LastIndex(t[:j], "->"), strings.LastIndexAny(t[:j], ":(,;}{"); i < k || i < 0 {
					word = "$" + name
				}
				if strings.HasPrefix(t[j+2:], "()") {
					// What is called is a method
					word = name
					ps = append(ps, place{from: from, to: from + len(word), means: "method " + name})
				} else {
					ps = append(ps, place{from: from, to: from + len(word), means: "property " + name})
				}
			}
			b.WriteString(word)
			t = t[j+2:]
		}
		b.WriteString(t + "\n")
	}
	return b.String(), ps
}

// distant tells whether there is a comment between -> and a name: the parser library takes
// a word like list there for the keyword.
func distant(texts []string) bool {
	t := strings.Join(texts, "\n")
	return strings.Contains(t, "-> /* u */") || strings.Contains(t, "->\n#")
}

func (e *env) askAll(name string) {
	for _, p := range e.places["a.php"] {
		t := e.texts["a.php"]
		e.ask(name, "a.php", p.from, p.means)
		e.ask(name, "a.php", p.to, p.means)
		if p.to-p.from > 2 || t[p.from] < 0x80 && p.to-p.from > 1 {
			e.ask(name, "a.php", p.to-1, p.means)
		}
	}
}

func members(e *kit.Enum) {
	for i := range memberTexts {
		i := i
		e.Case(fmt.Sprintf("members/%d", i), func(c *kit.C) {
			v := start(c)
			defer v.s.Stop()
			for _, n := range memberNames {
				// Another file that declares and uses everything, also what is no member
				t, ps := memberProgram([]string{"class @n { function @m() {} public static @p; const @k = 1; }", "function @n() {}", "new @n; @n(); $a->@m(); C::@m(); $a->@p; C::@p; C::@k;"}, n)
				if !usual(n) {
					t, ps = memberProgram([]string{"class Q { function @m() {} public static @p; const @k = 1; }", "$a->@m(); C::@m(); $a->@p; C::@p; C::@k;"}, n)
				}
				v.put("d.php", t, ps)
				if !v.open["d.php"] {
					v.s.Open("d.php")
					v.open["d.php"] = true
				}
				for j := -1; j < len(memberTexts); j++ {
					texts := []string{memberTexts[i]}
					if j >= 0 {
						if n != "mm" && (i+j)%4 != 0 && !c.Thorough() {
							continue
						}
						texts = append(texts, memberTexts[j])
					}
					if n == "list" && distant(texts) {
						continue
					}
					t, ps := memberProgram(texts, n)
					v.put("a.php", t, ps)
					c.Distinct(t)
					c.Trans(1)
					name := memberTexts[i]
					if j >= 0 {
						name += " and " + memberTexts[j]
					}
					v.askAll(name)
					for _, p := range v.places["d.php"] {
						v.ask(name+" from elsewhere", "d.php", p.from, p.means)
					}
				}
			}
		})
	}
}
