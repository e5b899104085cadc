// Package corpus is texts of PHP, odd ones among them.
package corpus

import (
	"fmt"
	"os"
	"path/filepath"
	"strings"

	"github.com/john-nguyen09/phpintel/internal/zzverif/hist"
)

// Texts are texts by name.
func Texts() map[string]string {
	out := map[string]string{}
	for k, v := range hist.Versions {
		out["v-"+k] = v
	}
	filepath.Walk("/repo/cases", func(p string, fi os.FileInfo, err error) error {
		if err == nil && strings.HasSuffix(p, ".php") && fi.Size() < 3000 {
			b, _ := os.ReadFile(p)
			out["c-"+p[len("/repo/cases/"):]] = string(b)
		}
		return nil
	})
	for i, t := range extra {
		out[fmt.Sprintf("x-%02d", i)] = t
	}
	return out
}

var extra = []string{
	"<?php\nclass A extends A { function m() { return $this->m()->m(); } }\n(new A)->m();\nA::m();\n",
	"<?php\nclass A extends B {}\nclass B extends A { const K = parent::K; }\n$x = new A; $x->y; B::K; $x->z();\n",
	"<?php\ninterface I extends J {}\ninterface J extends I {}\nfunction f(I $i) { $i->m(); $i->p; I::K; }\n",
	"<?php\ntrait T { use U; }\ntrait U { use T; function m() { $this->n(); self::o(); } }\nclass C { use T; use U; }\n$c = new C; $c->m();\n",
	"<?php\n$a = $b; $b = $a; $a = $a->a[$b]()::c; [$x, list($y, 'k' => $z)] = $a; foreach ($a as $k => [$p, $q]) {} $f = fn($v) => $v->w; $f()();\n",
	"<?php\nnamespace A\\B { use C\\{D, E as F}; use function g\\h; use const I\\J; h(J, new F, D::x, namespace\\k()); }\nnamespace { \\A\\B\\k(); }\n",
	"<?php\n/** @var A[][] $v @see x */\n/**\n * @method static A|B[] m(int ...$a, $b = [1,2]) Text.\n * @property-read ?A $p\n * @property \\A\\B[]|null $q\n * @global A $g\n * @param A $x , y\n * @return $this|static|self[]\n * @deprecated 1.0 since\n */\nclass D { function m(self $s, parent $p, static $t) : ?D { return new static(...func_get_args()); } }\n",
	"<?php\n$o = new class(1, 2) extends A implements B { use T { m as protected n; T::x insteadof U; } public ?int $a = 1, $b; abstract function q(); };\n$o?->a?->b(); clone $o; yield from $o; goto l; l: switch (1) { case 2: default: } declare(strict_types=1);\n",
	"<?php\ndefine('X', 1); define(\"Y\"); define(); define($x, 2); define(X . 'y', 3); const Z = X, W = 'v'; echo X, \\Y, namespace\\Z; __halt_compiler(); rest\n",
	"<?php\n$s = \"a $b[c] {$d->e['f']} ${g} ${h[1]} \\x{41}\"; $t = <<<\"E\"\n$x {$y->z()}\nE;\n$u = <<<'N'\nraw $x\nN;\n`ls $x`;\n",
	"<?php\nfunction &f(array &$a = [], callable ...$b) : iterable { static $s = 1; global $g, $$h; unset($a, $s); isset($g[1]->x); return function () use (&$s, $a) : void {}; }\nf(1, f(2, f(\n",
	"x <?= $a ?> y <?php if (1): elseif (2): else: endif; while (1): endwhile; for (;;): endfor; foreach ($a as $b): endforeach; ?> z",
	"<?php\nclass self {} class parent extends self {} function static() {} class A { const class = 1; function new() {} function list() { self::class; A::new(); $this->class; } }\n",
	"<?php\n$a->; $b::; $c-> ; new ; A:: ; \\ ; \\A\\ ; f( ; $ ; $$ ; [ ; { ; & ; use ; namespace ; catch ( ; function ( ; class ; instanceof ; ->b ; ::c ;\n",
}

// Unfinished are the beginnings of statements.
var Unfinished = []string{
	"use A, B\\",
	"use A, B\\;",
	"use A as B\\",
	"use A, B\\class",
	"use A, \\class",
	"use A\\{B, \\",
	"use A\\{B\\",
	"use A\\{\\",
	"use A\\{B, C\\",
	"use A\\{B as \\",
	"use A\\{B as C\\",
	"use A\\{function",
	"use A\\{B, function",
	"use A\\{B, function \\",
	"use A\\{B, C\\}",
	"use A\\{B, C\\} ;",
	"class X { use A, \\",
	"class X { use A, B\\",
	"class X { use A, B\\ ; }",
	"class X implements A, \\",
	"class X implements A, B\\",
	"class X { use A, B { \\",
	"class X { use A, B { A\\",
	"class X { use A, B { A::",
	"class X { use A, B { A::b as",
	"class X { use A, B { A::b insteadof \\",
	"function () use ($a, \\",
	"try {} catch (A | \\",
	"try {} catch (A | B\\",
	"const A, \\",
	"const A = \\",
	"class X { const A, \\",
	"class X { public $a, \\",
	"static $a, \\",
	"global $a, \\",
	"unset($a, \\",
	"echo $a, \\",
	"f($a, \\",
	"function f($a, \\",
	"fn($a, \\",
	"function f(A|\\",
	"interface X extends A, \\",
	"interface X extends A, B\\",
	"for (;;$a, \\",
	"isset($a, \\",
	"list($a, \\",
	"[$a, \\",
	"declare(a, \\",
	"new class extends \\",
	"new \\",
	"A::\\",
	"$a->\\",
	"use A, ,",
	"use A, function",
	"use function A, \\",
	"use ,",
	"use as as",
	"use A as",
	"use A as as B",
	"use A, as",
	"use A\\{,",
	"use A\\{as",
	"use A\\{B as as",
}
