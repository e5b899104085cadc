// C23: renaming a variable edits each of its occurrences in its scope once, and nothing else.
package main

import (
	"fmt"
	"sort"
	"strings"
	"unicode/utf16"

	"github.com/john-nguyen09/phpintel/internal/lsp/protocol"
	"github.com/john-nguyen09/phpintel/internal/zzverif/bind"
	"github.com/john-nguyen09/phpintel/internal/zzverif/kit"
	debounce "github.com/john-nguyen09/phpintel/internal/zzverif/mcdebounce"
	"github.com/john-nguyen09/phpintel/internal/zzverif/srv"
)

// around are the scopes that a piece of a program can be in.
var around = []struct {
	name string
	wrap func(body bind.Node) bind.Node
}{
	{"file", func(b bind.Node) bind.Node { return b }},
	{"function", func(b bind.Node) bind.Node { return bind.Function("function f(", "$x, array $z = []", ") { ", b, " }") }},
	{"function that returns a reference", func(b bind.Node) bind.Node { return bind.Function("function &f(", "X &$x, ...$z", "): X { ", b, " }") }},
	{"method", func(b bind.Node) bind.Node {
		return bind.Function("class A extends X { private §x = 1; public static §z; public function m(", "int $x = 1, $z = null", ") { ", b, " } public function n() { return $this->x; } }")
	}},
	{"constructor", func(b bind.Node) bind.Node {
		return bind.Function("class A { /** @var X */ private §p; public function __construct(", "X $x", ") { ", b, " } }")
	}},
	{"static method of a trait", func(b bind.Node) bind.Node {
		return bind.Function("trait A { static function m(", "$x", ") { ", b, " } }")
	}},
	{"closure", func(b bind.Node) bind.Node {
		return bind.Closure("$x = 1; $f = function (", "$z", nil, "", b, "; echo $x, $z;")
	}},
	{"closure with use", func(b bind.Node) bind.Node {
		return bind.Closure("$x = 1; $z = 2; g(function (", "$k", []string{"x", "z"}, "", b, "); echo $x; echo $z;")
	}},
	{"closure with use by reference", func(b bind.Node) bind.Node {
		return bind.Closure("g(static function (", "", []string{"x"}, "&", b, "); $z = $x;")
	}},
	{"namespace", func(b bind.Node) bind.Node { return bind.Seq(bind.Text("namespace N { "), b, bind.Text(" }")) }},
	{"method of an anonymous class", func(b bind.Node) bind.Node {
		return bind.Function("$x = new class($x, $z) { public §x; function m(", "$x", ") { ", b, " } }; echo $x, $z;")
	}},
	{"nested function", func(b bind.Node) bind.Node {
		return bind.Function("function g(", "$x", ") { ", bind.Seq(bind.Text("$z = $x; "), bind.Function("function f(", "$z", ") { ", b, " } "), bind.Text("return $z;")), " }")
	}},
	{"after functions", func(b bind.Node) bind.Node {
		return bind.Seq(bind.Function("function g(", "$x", ") { ", bind.Text("return $x;"), " } "), bind.Closure("$x = function(", "", nil, "", bind.Text("$x = 1;"), "; "), b)
	}},
}

var pieces = []string{
	`$x = 1;`, `$x .= 'a' . $x;`, `$x += $z;`, `$x ??= 1;`, `$x = &$z;`, `$x = $x + 1;`, `$x = $z = $k;`, `$x = [$x, $z];`, `$x = $x;`,
	`echo $x;`, `echo $x, $z;`, `print $x;`, `$x++; --$z;`, `f($x);`, `f(...$x);`, `f($x, g($z), $x);`, `$x;`,
	`$x->p;`, `$x->m($z);`, `$x->m()->n($x);`, `$x->p->q = $z;`, `$x->p = $x;`, `$x[0] = $z;`, `$x[$z] = 1;`, `$x[] = $x[$z];`, `$x[$z][$k]->p;`,
	`$x::s($z);`, `$x::C;`, `$x::§p;`, `X::§x = $z;`, `X::§x->m($x);`, `self::§z = $x;`, `$o->x = $x;`, `$o->$x;`, `$o->$x = 1;`, `$o->{$x} = $z;`, `$o->$x($z);`, `X::$x();`, `X::{$x}();`,
	`$this->p = $x;`, `$this->p = $x ?: $z;`, `$this->$x = $z;`, `$this->p[$x] = $z;`, `$this->p .= $x;`, `$this->p = f($x, $z);`, `$this->p = [$x => $z];`, `$x->p = new X($z);`, `$this->p->q = $x;`,
	`new $x;`, `$z = new $x($z);`, `$x();`, `$x($x);`, `$x[0]($z);`, `if ($x instanceof X && $z instanceof $k) {}`,
	`foreach ($x as $z) {}`, `foreach ($z as $k => $x) { echo $x; }`, `foreach ($z as &$x) { $x = 1; }`, `foreach ($z as [$x, $k]) {}`, `foreach ($z as $k => list($x, 'a' => $z)) {}`, `foreach ($x->p as $x->q => $z[0]) {}`, `foreach (f($x) as $x): echo $x; endforeach;`,
	`list($x, $z) = f();`, `list(, $x) = $z;`, `list('a' => $x, 'b' => list($z)) = $x;`, `[$x, $z] = [$z, $x];`, `['a' => $x, $k => [$z]] = f($x);`, `[$x->p, $z[$k]] = $x;`, `[, &$x] = $z;`,
	`static $x = 1;`, `static $x, $z = 2;`,
	`try { $z; } catch (E $x) { echo $x; }`, `try {} catch (E | F $x) {} catch (G $z) { $x; } finally { $x = 1; }`,
	`f("$x");`, `f("{$x} $z");`, `f("${¤x}");`, `f("${¤x[0]} ${¤z}");`, `f("$x[0] $x[k] $x[$z] $z");`, `f("$x->p $x->z->x");`, `f("{$x->m($z)} {$x[$k]['a']}");`, `f("\§x \\$x §");`, "f(<<<A\n$x {$z}\n  ${¤x}\nA\n);", "$z = <<<\"A\"\n$x {$z->p[$x]} $x->p\nA;\n", `f('§x');`, "f(`ls $x`);", `f("a$x" . "{$x}b" . "$z$x");`, `f("${x}");`,
	"# §x\n$x;", "// §x\n$x;", "/* §x */ $x;",
	`unset($x, $z[$x]);`, `isset($x, $z->p[$x]);`, `empty($x);`, `if ($x) {} elseif ($z) { $x; } else { $z; }`, `if ($x): $z; else: $x; endif;`, `while ($x) { $x--; }`, `do { $x; } while ($z = $x);`, `for ($x = 0, $z = 1; $x < $z; $x++, $z--) { $x; }`,
	`switch ($x) { case $z: $x; break; default: $k; }`, `return $x;`, `return;`, `yield $x;`, `$z = yield $x => $k;`, `yield from $x;`, `throw $x;`, `clone $x;`, `f((int) $x, (string) $z);`, `f(@$x, !$x, -$x, ~$z, +$k);`,
	`f($x ? $z : $k, $x ?: $z, $x ?? $z);`, `f($x && $z || $x and $k xor !$x);`, `f($x . $z, $x <=> $z, $x ** $z, $x << $z);`, `f([$x, 'a' => $z, $k => $x, ...$x]);`, `f(array($x, $z => array($k)), ($x));`, `f([&$x]);`, `include $x; require_once "$z";`, `exit($x);`, `die("$x");`, `eval($x);`,
	`$$x = 1;`, `${$x} = $z;`, `f($$x);`, `$o->{'a' . $x}->{$z};`,
	`?><b><?= $x ?></b><?php echo $z ?>§x<?php`,
	"/** @var X ¿x */\n$x = f();", `/** @var X ¿x */ foreach ($z as $x) {}`,
	`new class($x) { public §x = 1; };`, `new class($x, new X($z)) extends X {};`,
	`$X = $x; $xx = $X; $x_x = $xx;`, `$_x = $x;`, `é($x); /* 😀 */ $x;`,
	`declare(ticks=1) { $x; }`, `{ $x; { $z; } }`, `a: $x; goto a;`, `const C = 1; $x = C;`,
	`$x = function() {}; $x();`, `$x = fn() => $x;`, `f(fn() => $x, $z);`,
	`$x?->p; $x?->m($z);`, `f(a: $x);`, `$x = match($z) { $k => $x, default => 1 };`, `f($x::class);`,
	`f($x{0});`, `$x =& f($z);`, `$x = & new X($z);`, `$x = (function() { return 1; })();`, `if (($x = f($z)) !== null) { $x; }`, `while (list($k, $x) = each($z)) {}`, `$x = $y['a'] ?? [$x];`, `assert($x > 0, "$x");`, `$z = ($x)->p; ($x)(); (clone $x)->m();`, `X::m($x)::n($z);`, `(new X($x))->m($z);`, `$x->{$z}[$k];`, `new X;`, `static::f($x);`, `parent::f($x, $z);`, `$x->m(...$z);`, `f(...[$x]);`, `f(1, $x = 2);`, `echo "a", $x, 'b';`, `switch (true): case $x: $z; endswitch;`, `global §x;`,
}

// skip tells the pieces that are not what PHP 7 accepts where they are, or that tie names beyond the file.
func skip(piece string) bool {
	return strings.Contains(piece, "global ") || piece == `f("${x}");` || strings.Contains(piece, "match(") || strings.Contains(piece, "?->") || strings.Contains(piece, "f(a: ")
}

// narrow tells the pieces in which a space may not become a line break.
func narrow(piece string) bool {
	for _, x := range []string{"#", "//", "/*", "<<<", "yield from", "/**"} {
		if strings.Contains(piece, x) {
			return true
		}
	}
	return false
}

// nest is a function of some kind around something else (nothing when nil), as a statement.
type nest func(body bind.Node) bind.Node

func stmt(body bind.Node, t string) bind.Node {
	if body == nil {
		return bind.Text(t)
	}
	return bind.Seq(bind.Text(t+" "), body, bind.Text(" "+t))
}

// nests are the kinds of functions; what an arrow function contains is the argument of a call, in a closure when it
// is a declaration.
var nests = func() (all []nest) {
	const use = "$x = $z + $x;"
	for _, params := range []string{"", "$x", "$z", "$x, &...$z"} {
		params := params
		all = append(all, func(b bind.Node) bind.Node { return bind.Function("function f(", params, ") { ", stmt(b, use), " }") })
		all = append(all, func(b bind.Node) bind.Node {
			return bind.Function("class A { public §x; static function m(", params, "): X { ", stmt(b, use), " } }")
		})
		all = append(all, func(b bind.Node) bind.Node {
			return bind.Function("f(new class($x) extends X { use T; function m(", params, ") { ", stmt(b, use), " } const C = 1; }, $z);")
		})
		for _, uses := range [][]string{{}, {"x"}, {"z", "x"}} {
			uses := uses
			if strings.Contains(params, "$") && len(uses) > 0 && (params != "$z" || len(uses) > 1) {
				continue
			}
			amp := []string{"", "&"}[len(uses)%2]
			all = append(all, func(b bind.Node) bind.Node {
				return bind.Closure("$f = function(", params, uses, amp, stmt(b, use), ";")
			})
		}
		all = append(all, func(b bind.Node) bind.Node {
			return bind.Arrow("$f = fn(", params, bind.Seq(bind.Text("f($x, $z"), func(p *bind.Prog, s *bind.Scope) {
				if b != nil {
					p.Put(s, ", ")
					bind.Closure("function(", "", []string{"x"}, "", b, "")(p, s)
				}
			}, bind.Text(")")), ";")
		})
		all = append(all, func(b bind.Node) bind.Node {
			return bind.Arrow("g(static fn(", params, func(p *bind.Prog, s *bind.Scope) {
				p.Put(s, "[$x, ")
				bind.Arrow("fn(", "$k", bind.Text("$x . $k . $z"), "")(p, s)
				if b != nil {
					p.Put(s, ", ")
					bind.Function("new class { function m(", "$x", ") { ", b, " } }")(p, s)
				}
				p.Put(s, "]")
			}, ", $x);")
		})
	}
	return all
}()

type env struct {
	c *kit.C
	s *srv.S
}

func start(c *kit.C) *env {
	s := srv.Start(c.Scratch(), map[string]string{"w.php": "<?php\nclass X { public $p; function m(X $x) {} static function s() {} }\nfunction f() { return new X; }\n", "a.php": "<?php\n"})
	s.Open("w.php")
	s.Open("a.php")
	debounce.Take()
	return &env{c, s}
}

// position of an offset.
func position(t string, off int) protocol.Position {
	l := strings.Count(t[:off], "\n")
	i := strings.LastIndexByte(t[:off], '\n') + 1
	return protocol.Position{Line: l, Character: len(utf16.Encode([]rune(t[i:off])))}
}

func edit(p *bind.Prog, o bind.Occ, name string) string {
	t := p.B.String()
	if o.Bare {
		name = name[1:]
	}
	a, b := position(t, o.From), position(t, o.To)
	return fmt.Sprintf("%d:%d-%d:%d %s", a.Line, a.Character, b.Line, b.Character, name)
}

func (e *env) rename(pos protocol.Position, name string) []string {
	r, err := e.s.Rename(e.s.Ctx, &protocol.RenameParams{TextDocument: protocol.TextDocumentIdentifier{URI: e.s.URI("a.php")}, Position: pos, NewName: name})
	if err != nil {
		e.c.Fail("error", "renaming at %v: %v", pos, err)
		return nil
	}
	var out []string
	if r == nil {
		return nil
	}
	for u, edits := range r.Changes {
		if u != e.s.URI("a.php") && len(edits) > 0 {
			out = append(out, "in "+u)
		}
		for _, ed := range edits {
			out = append(out, fmt.Sprintf("%d:%d-%d:%d %s", ed.Range.Start.Line, ed.Range.Start.Character, ed.Range.End.Line, ed.Range.End.Character, ed.NewText))
		}
	}
	if len(r.DocumentChanges) > 0 {
		out = append(out, "document changes")
	}
	sort.Strings(out)
	return out
}

// run judges one program: every place in it, or the start of each occurrence.
func (e *env) run(name string, all, wide bool, n bind.Node) {
	p := &bind.Prog{Wide: wide}
	s := p.Scope()
	p.Put(s, "<?php\n")
	n(p, s)
	p.Put(s, "\n")
	t := p.B.String()
	e.s.Change("a.php", t)
	debounce.Take()
	e.c.Distinct(t)
	e.c.Trans(1)
	const to = "$renamed"
	// what may be edited in a comment
	maybe := map[string]bool{}
	want := map[int][]string{}
	for _, o := range p.Occs {
		if o.Maybe {
			maybe[edit(p, o, to)] = true
		} else {
			want[o.ID] = append(want[o.ID], edit(p, o, to))
		}
	}
	for _, w := range want {
		sort.Strings(w)
	}
	judge := func(off int, want []string, what string) {
		e.c.Eval(1)
		pos := position(t, off)
		got := e.rename(pos, to)
		g := got[:0:0]
		for _, x := range got {
			if !maybe[x] {
				g = append(g, x)
			}
		}
		if strings.Join(g, ", ") != strings.Join(want, ", ") {
			e.c.SubP(name)
			e.c.Fail(what, "%s: renaming at %d:%d in %q: edits %v, expected %v", name, pos.Line, pos.Character, t, g, want)
		}
	}
	in := make([]int, len(t)+2)
	for i, o := range p.Occs {
		for off := o.From; off <= o.To; off++ {
			in[off] = i + 1
		}
		if o.Maybe {
			continue
		}
		judge(o.From, want[o.ID], "start")
		if all {
			judge(o.To-1, want[o.ID], "last")
			if i+1 == len(p.Occs) || p.Occs[i+1].From > o.To {
				judge(o.To, want[o.ID], "end")
			}
			if got := e.rename(position(t, o.From), to[1:]); strings.Join(got, ", ") != strings.Join(e.rename(position(t, o.From), to), ", ") {
				e.c.SubP(name)
				e.c.Fail("dollar", "%s: renaming at %v in %q to a name without a dollar: edits %v", name, position(t, o.From), t, got)
			}
		}
	}
	if !all {
		return
	}
	for off := 0; off <= len(t); off++ {
		if off < len(t) && t[off]&0xC0 == 0x80 || in[off] != 0 || off > 0 && in[off-1] != 0 || in[off+1] != 0 || inThis(t, off) {
			continue
		}
		judge(off, nil, "elsewhere")
	}
}

func inThis(t string, off int) bool {
	for i := off - 5; i <= off; i++ {
		if i >= 0 && strings.HasPrefix(t[i:], "$this") {
			return true
		}
	}
	return false
}

func main() {
	kit.Main(kit.Check{
		ID:    "C23",
		Level: "model_checked",
		Rule:  "the edits are one for each occurrence of the variable that PHP's scoping rules give, whichever of them is renamed, and none elsewhere",
		Assumptions: []string{
			"a variable that a closure uses is the same in and around the closure, as the program would change otherwise",
			"names shared through global, compact, extract and variable variables are not judged",
		},
		Enumerate: func(e *kit.Enum) {
			for _, a := range around {
				a := a
				e.Case("one/"+a.name, func(c *kit.C) {
					v := start(c)
					defer v.s.Stop()
					for _, piece := range pieces {
						if skip(piece) {
							continue
						}
						v.run(a.name+": "+piece, true, false, a.wrap(bind.Text(piece)))
						if !narrow(piece) {
							v.run(a.name+": "+piece+" (wide)", c.Thorough(), true, a.wrap(bind.Text(piece)))
						}
					}
				})
			}
			for _, a := range around {
				if a.name != "function" && a.name != "closure with use" && a.name != "constructor" && !e.Thorough {
					continue
				}
				for i := range pieces {
					a, first := a, pieces[i]
					if skip(first) {
						continue
					}
					e.Case("two/"+a.name+"/"+fmt.Sprint(i), func(c *kit.C) {
						v := start(c)
						defer v.s.Stop()
						for _, second := range pieces {
							if !skip(second) {
								v.run(a.name+": "+first+" "+second, false, false, a.wrap(bind.Text(first+" "+second)))
							}
						}
					})
				}
			}
			// every nesting of functions, and something between them
			for i, outer := range nests {
				for j, middle := range nests {
					i, j, outer, middle := i, j, outer, middle
					e.Case(fmt.Sprintf("nested/%d/%d", i, j), func(c *kit.C) {
						v := start(c)
						defer v.s.Stop()
						name := "nested"
						v.run(name, true, true, bind.Seq(outer(middle(nil)), bind.Text(" echo $x, $z;")))
						for k, inner := range nests {
							v.run(name, false, false, bind.Seq(bind.Text("$x = 1; "), outer(middle(inner(nil))), bind.Text(" echo $x, $z;")))
							// one after the other
							v.run(name, false, false, bind.Seq(bind.Text("$x = 1; "), outer(middle(nil)), bind.Text(" "), inner(nil), bind.Text(" echo $x, $z;")))
							v.run(name, false, false, bind.Seq(outer(func(p *bind.Prog, s *bind.Scope) {
								middle(nil)(p, s)
								bind.Text(" ")(p, s)
								inner(nil)(p, s)
							}), bind.Text(" echo $x, $z;")))
							if !c.Thorough() {
								continue
							}
							for _, last := range nests {
								v.run(name, false, k%2 == 1, bind.Seq(bind.Text("$x = 1; "), outer(middle(inner(last(nil)))), bind.Text(" echo $x, $z;")))
							}
						}
					})
				}
			}
		},
	})
}
