// C24: signature help shows the call that the cursor is in, and the argument it is in.
package main

import (
	"fmt"
	"sort"
	"strings"
	"unicode/utf16"

	"github.com/john-nguyen09/phpintel/internal/lsp/protocol"
	"github.com/john-nguyen09/phpintel/internal/zzverif/kit"
	debounce "github.com/john-nguyen09/phpintel/internal/zzverif/mcdebounce"
	"github.com/john-nguyen09/phpintel/internal/zzverif/srv"
)

// callable is something to call: the text before the parenthesis, and its signature ("" when it is not known).
type callable struct {
	name, before, label, after string
	params                     []string
	variadic                   bool
	in                         bool // only within a class
}

const world = `<?php
function f($a, $b = 1) {}
function none() {}
function va($a, ...$more) {}
/** @return X */
function mk($one, $two, $three) {}
class X {
	/** @param string $p1 */
	public function __construct(X $x, $p1, $p2 = null) {}
	public function m($m1, $m2) {}
	public static function s($s1, array $s2 = [], &$s3 = 'a,b') {}
	/** @var X|U */
	public static $un;
}
class U {
	public function m($u1, $u2, $u3) {}
}
class Y extends X {}
interface I { public function im($i1, $i2); }
`

var callables = []callable{
	{name: "function", before: "f", label: "f($a, $b = 1)", params: []string{"$a", "$b"}},
	{name: "method", before: "$o->m", label: "m($m1, $m2)", params: []string{"$m1", "$m2"}},
	{name: "static", before: "X::s", label: "s($s1, array $s2 = [], $s3 = 'a,b')", params: []string{"$s1", "$s2", "$s3"}},
	{name: "new", before: "new X", label: "__construct(\\X $x, string $p1, $p2 = null)", params: []string{"$x", "$p1", "$p2"}},
	{name: "unknown", before: "zz"},
	{name: "variable", before: "$fn"},
	{name: "no parameters", before: "none", label: "none()"},
	{name: "variadic", before: "va", label: "va($a, $more)", params: []string{"$a", "$more"}, variadic: true},
	{name: "documented result", before: "mk", label: "mk($one, $two, $three)", params: []string{"$one", "$two", "$three"}},
	{name: "inherited", before: "new Y", label: "__construct(\\X $x, string $p1, $p2 = null)", params: []string{"$x", "$p1", "$p2"}},
	{name: "inherited static", before: "Y::s", label: "s($s1, array $s2 = [], $s3 = 'a,b')", params: []string{"$s1", "$s2", "$s3"}},
	{name: "method of new", before: "(new X(1, 2))->m", label: "m($m1, $m2)", params: []string{"$m1", "$m2"}},
	{name: "unknown method", before: "$o->zz"},
	{name: "anonymous", before: "new class", after: " extends X {}", label: "__construct(\\X $x, string $p1, $p2 = null)", params: []string{"$x", "$p1", "$p2"}},
	{name: "anonymous with its own", before: "new class", after: " { function __construct($n1, $n2) { f(1); } }", label: "__construct($n1, $n2)", params: []string{"$n1", "$n2"}},
	{name: "this", before: "$this->m", in: true, label: "m($m1, $m2)", params: []string{"$m1", "$m2"}},
	{name: "self", before: "self::s", in: true, label: "s($s1, array $s2 = [], $s3 = 'a,b')", params: []string{"$s1", "$s2", "$s3"}},
	{name: "static", before: "static::s", in: true, label: "s($s1, array $s2 = [], $s3 = 'a,b')", params: []string{"$s1", "$s2", "$s3"}},
	{name: "parent", before: "parent::__construct", in: true, label: "__construct(\\X $x, string $p1, $p2 = null)", params: []string{"$x", "$p1", "$p2"}},
	{name: "union", before: "X::$un->m", label: "m($m1, $m2) or m($u1, $u2, $u3)", params: []string{"$m1", "$m2"}},
	{name: "qualified", before: "\\f", label: "f($a, $b = 1)", params: []string{"$a", "$b"}},
}

// ctx is where a cursor is: in which argument of which call.
type ctx struct {
	call  *callable
	arg   int
	array bool // in an array within it: nothing may be shown, too
	any   bool // not judged
}

// doc is a text and the context of each offset in it.
type doc struct {
	b   strings.Builder
	at  []ctx
	cur ctx
	// cuts are the offsets between arguments and what separates them
	cuts []int
	// args are the arguments of known calls, with the parameter each belongs to.
	args []arg
}

type arg struct {
	from, to int
	param    string
}

func (d *doc) put(s string) {
	for i := 0; i < len(s); i++ {
		for len(d.at) <= d.b.Len() {
			d.at = append(d.at, d.cur)
		}
		d.b.WriteByte(s[i])
	}
}

func (d *doc) in(c ctx) {
	d.cur = c
	if len(d.at) > d.b.Len() {
		d.at = d.at[:d.b.Len()]
	}
	d.at = append(d.at, c)
}

func (d *doc) cut() { d.cuts = append(d.cuts, d.b.Len()) }

// an expression, emitted into a document.
type expr func(d *doc)

func lit(s string) expr { return func(d *doc) { d.put(s) } }

// arr is an array in the given brackets.
func arr(open, close string, items ...expr) expr {
	return func(d *doc) {
		old := d.cur
		d.put(open)
		c := old
		c.array = true
		d.in(c)
		for i, it := range items {
			if i > 0 {
				d.put(", ")
			}
			it(d)
		}
		d.put(close)
		d.in(old)
	}
}

// spacing are the separators of arguments.
var commas = []string{", ", ",", " , ", ",\n  ", ", /* , */ "}

func call(c *callable, comma string, args ...expr) expr {
	return func(d *doc) {
		old := d.cur
		if c.name == "method of new" {
			x := &callables[3]
			d.put("(new X(")
			d.in(ctx{call: x, arg: 0})
			d.args = append(d.args, arg{d.b.Len(), d.b.Len() + 1, "$x"})
			d.put("1,")
			d.in(ctx{call: x, arg: 1})
			d.args = append(d.args, arg{d.b.Len() + 1, d.b.Len() + 2, "$p1"})
			d.put(" 2)")
			d.in(old)
			d.put(")->m")
		} else {
			d.put(c.before)
		}
		d.put("(")
		d.in(ctx{call: c})
		d.cut()
		for i, a := range args {
			if i > 0 {
				k := strings.IndexByte(comma, ',')
				d.put(comma[:k+1])
				d.in(ctx{call: c, arg: i})
				d.cut()
				d.put(comma[k+1:])
				d.cut()
			}
			from := d.b.Len()
			a(d)
			to := d.b.Len() - len(d.b.String()) + len(strings.TrimRight(d.b.String(), "\n"))
			d.in(ctx{call: c, arg: i})
			d.cut()
			if i < len(c.params) {
				d.args = append(d.args, arg{from, to, c.params[i]})
			}
		}
		d.put(")")
		d.in(old)
		if i := strings.Index(c.after, "f(1)"); i >= 0 {
			// a call within the class
			d.put(c.after[:i+2])
			d.in(ctx{call: &callables[0]})
			d.args = append(d.args, arg{d.b.Len(), d.b.Len() + 1, "$a"})
			d.put("1)")
			d.in(old)
			d.put(c.after[i+4:])
		} else {
			d.put(c.after)
		}
	}
}

var leaves = []struct {
	name string
	e    expr
}{
	{"1", lit("1")},
	{"$v", lit("$v")},
	{"'a,(b'", lit("'a,(b'")},
	{"\"x, $v )\"", lit("\"x, $v )\"")},
	{"astral", lit("'é😀,'")},
	{"[1, 2]", arr("[", "]", lit("1"), lit("2"))},
	{"array(1, 2)", arr("array(", ")", lit("1"), lit("'k' => 2"))},
	{"[]", arr("[", "]")},
	{"[[1, 2], 3]", arr("[", "]", arr("[", "]", lit("1"), lit("2")), lit("3"))},
	{"closure", lit("function ($x, $y) { return $x; }")},
	{"arrow", lit("fn($x, $y) => $x")},
	{"(1)", lit("(1)")},
	{"$v[0]", lit("$v[0]")},
	{"ternary", lit("$v ? 1 : 2")},
	{"constant", lit("X::K")},
	{"spread", lit("...$v")},
	{"negative", lit("-1")},
	{"list", func(d *doc) { arr("list(", ")", lit("$q"), lit("$r"))(d); d.put(" = $v") }},
	{"heredoc", lit("<<<T\n a, b(\nT\n")},
	{"match", lit("isset($v, $o)")},
}

var contexts = []struct{ name, before, after string }{
	{"statement", "", ";\n"},
	{"assignment", "$x = ", ";\n"},
	{"condition", "if (", ") {}\n"},
	{"echo", "echo 1, ", ", 2;\n"},
	{"operand", "$x = 1 + ", " + 2;\n"},
	{"chain", "", "->zz;\n"},
	{"array", "$x = [1, ", ", 2];\n"},
	{"function", "function zf%d($o, $v) { $o = new X; return ", "; }\n"},
	{"class", "class Q%d extends X { function q($v, $o) { $o = new X; ", "; } }\n"},
	{"closure", "$x = function ($v) use ($o) { return ", "; };\n"},
}

type env struct {
	c *kit.C
	s *srv.S
}

func start(c *kit.C) *env {
	s := srv.Start(c.Scratch(), map[string]string{"w.php": world, "a.php": "<?php\n"})
	s.Open("w.php")
	s.Open("a.php")
	debounce.Take()
	return &env{c, s}
}

// position of an offset.
func position(t string, off int) (int, int) {
	l := strings.Count(t[:off], "\n")
	i := strings.LastIndexByte(t[:off], '\n') + 1
	return l, len(utf16.Encode([]rune(t[i:off])))
}

func (e *env) check(name string, d *doc, unfinished bool) {
	t := d.b.String()
	e.s.Change("a.php", t)
	debounce.Take()
	e.c.Distinct(t)
	for off := 0; off <= len(t); off++ {
		if off < len(t) && t[off]&0xC0 == 0x80 {
			continue
		}
		x := d.cur
		if off < len(d.at) {
			x = d.at[off]
		}
		if x.any {
			continue
		}
		e.one(name, t, off, x)
	}
	e.signatures(name, t, d)
	// while the call is being written, its end is missing
	for i, off := range d.cuts {
		if !unfinished {
			break
		}
		rest := []string{"", ";", "\n", "\n$z = 1;\n"}[i%4]
		t := t[:off] + rest
		e.s.Change("a.php", t)
		debounce.Take()
		e.one(name+", unfinished", t, off, d.at[off])
	}
}

// signatures checks the names of parameters that are shown before arguments.
func (e *env) signatures(name, t string, d *doc) {
	var want, got []string
	for _, a := range d.args {
		l, c := position(t, a.from)
		l2, c2 := position(t, a.to)
		want = append(want, fmt.Sprintf("%s at %d:%d-%d:%d", a.param, l, c, l2, c2))
	}
	sub := name + " | signatures of " + t[strings.Index(t, "$v = [];")+9:]
	e.c.SubP(sub)
	e.c.Eval(1)
	es, err := e.s.DocumentSignatures(e.s.Ctx, &protocol.TextDocumentIdentifier{URI: e.s.URI("a.php")})
	if err != nil {
		e.c.Fail(sub, "%v", err)
		return
	}
	for _, x := range es {
		got = append(got, fmt.Sprintf("%s at %d:%d-%d:%d", x.NewText, x.Range.Start.Line, x.Range.Start.Character, x.Range.End.Line, x.Range.End.Character))
	}
	sort.Strings(want)
	sort.Strings(got)
	if w, g := strings.Join(want, ", "), strings.Join(got, ", "); w != g {
		e.c.Fail(sub, "%s: the parameters' names should be %s but are %s", t, w, g)
	}
}

func (e *env) one(name, t string, off int, x ctx) {
	l, c := position(t, off)
	e.c.Eval(1)
	b := strings.LastIndexByte(t[:off], '\n') + 1
	en := len(t)
	if i := strings.IndexByte(t[off:], '\n'); i >= 0 {
		en = off + i
	}
	where := t[b:off] + "‸" + t[off:en]
	sub := name + " | " + where
	e.c.SubP(sub)
	h, err := e.s.SignatureHelp(e.s.Ctx, &protocol.SignatureHelpParams{TextDocumentPositionParams: e.s.At("a.php", l, c)})
	if err != nil {
		e.c.Fail(sub, "%v", err)
		return
	}
	got := "nothing"
	if h != nil && len(h.Signatures) > 0 {
		var ls []string
		for _, s := range h.Signatures {
			l := s.Label
			if i := strings.IndexByte(l, '('); i >= 0 {
				// modifiers before the name do not matter
				l = l[strings.LastIndexByte(l[:i], ' ')+1:]
			}
			ls = append(ls, l)
			var ps []string
			for _, p := range s.Parameters {
				ps = append(ps, p.Label)
			}
			if !strings.HasSuffix(s.Label, "("+strings.Join(ps, ", ")+")") {
				e.c.Fail(sub, "%s: the parameters of %s are %q", where, s.Label, ps)
			}
		}
		sort.Strings(ls)
		got = strings.Join(ls, " or ") + fmt.Sprintf(" at %d", int(h.ActiveParameter))
	}
	want, clamped := "nothing", ""
	if x.call != nil && x.call.label != "" {
		want = fmt.Sprintf("%s at %d", x.call.label, x.arg)
		if x.call.variadic && x.arg >= len(x.call.params) {
			clamped = fmt.Sprintf("%s at %d", x.call.label, len(x.call.params)-1)
		}
	}
	if got == want || got == clamped || x.array && got == "nothing" {
		return
	}
	e.c.Fail(sub, "%s: expected %s, signature help shows %s", where, want, got)
}

// nested are calls that can be arguments.
func nested(n int) (out []struct {
	name string
	e    expr
}) {
	for i := range callables {
		if i >= n {
			break
		}
		c := &callables[i]
		for _, as := range [][]int{{}, {0}, {0, 2}, {5}, {0, 0, 9}} {
			var es []expr
			nm := c.before + "("
			for _, a := range as {
				es = append(es, leaves[a].e)
				nm += leaves[a].name + ";"
			}
			out = append(out, struct {
				name string
				e    expr
			}{nm + ")", call(c, ", ", es...)})
		}
	}
	return
}

func main() {
	kit.Main(kit.Check{
		ID:          "C24",
		Level:       "model_checking",
		Rule:        "a case is a callable and a first argument; with every second argument, every separator and every place of the call, signature help at every position of the text must show the innermost call there and the argument the position is in",
		Assumptions: []string{"inside an array literal within an argument nothing may be shown, too"},
		HangSeconds: 60,
		Bounds: func(t bool) string {
			return fmt.Sprintf("%d callables, %d simple arguments and calls of them nested, argument lists of up to %d, %d separators, %d places", len(callables), len(leaves), map[bool]int{false: 2, true: 3}[t], len(commas), len(contexts))
		},
		Enumerate: func(e *kit.Enum) {
			all := append(leaves[:len(leaves):len(leaves)], nested(8)...)
			pre := "<?php\n$o = new X; $v = [];\n"
			for ci := range callables {
				cb := &callables[ci]
				for i, a := range append([]struct {
					name string
					e    expr
				}{{"none", nil}}, all...) {
					a, i := a, i
					e.Case(cb.before+"("+a.name+")", func(c *kit.C) {
						en := start(c)
						defer en.s.Stop()
						c.Sample(cb.before + " " + a.name)
						run := func(k int, comma string, args ...expr) {
							d := &doc{}
							d.put(pre)
							for cb.in && contexts[k].name != "class" {
								k = (k + 1) % len(contexts)
							}
							cx := contexts[k]
							d.put(strings.ReplaceAll(cx.before, "%d", "1"))
							if cx.name == "array" {
								d.cur.array = true
								d.in(d.cur)
							}
							call(cb, comma, args...)(d)
							d.put(cx.after)
							en.check(cx.name, d, a.e == nil || k == 0 && len(args) == 1)
						}
						if a.e == nil {
							for k := range contexts {
								run(k, ", ")
							}
							return
						}
						for k := range contexts {
							run(k, ", ", a.e)
						}
						for j, b := range all {
							if !c.Thorough() && (i+j)%3 != 0 {
								continue
							}
							run(j%len(contexts), commas[(i+j)%len(commas)], a.e, b.e)
							if c.Thorough() {
								run((j+3)%len(contexts), commas[(i+j+2)%len(commas)], b.e, a.e, leaves[j%len(leaves)].e)
							}
						}
					})
				}
			}
		},
	})
}
