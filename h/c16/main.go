// C16: what is stored about a declaration is what the source declares.
package main

import (
	"fmt"
	"math"
	"strings"

	"github.com/john-nguyen09/phpintel/analysis"
	"github.com/john-nguyen09/phpintel/analysis/storage"
	"github.com/john-nguyen09/phpintel/internal/lsp/protocol"
	"github.com/john-nguyen09/phpintel/internal/zzverif/facts"
	"github.com/john-nguyen09/phpintel/internal/zzverif/hx"
	"github.com/john-nguyen09/phpintel/internal/zzverif/kit"
)

// A want is an expectation about the only declaration of a kind and name.
type want struct {
	kind, name string
	facts      []string
}

type program struct {
	text  string
	wants []want
}

var store *analysis.Store

// check indexes the program and compares what is stored with what is analysed and with what was declared.
func check(c *kit.C, p program) {
	if store == nil {
		store, _ = hx.Fresh(hx.NewMemFS(), c.Scratch())
	}
	uri := hx.Root + "/a.php"
	d := hx.Index(store, uri, p.text)
	decls := facts.Declarations(d)
	byName := map[string][]analysis.Symbol{}
	for _, s := range decls {
		kind := facts.Kind(s)
		n := kind + " " + name(s)
		byName[n] = append(byName[n], s)
	}
	for n, ss := range byName {
		st := facts.Stored(store, ss[0])
		c.Eval(1)
		if len(ss) == 1 && len(st) != 1 {
			c.Fail(n, "%s is read back %d times from %q", n, len(st), p.text)
			continue
		}
		if len(ss) != 1 {
			continue
		}
		for _, diff := range facts.DiffLines(facts.Describe(st[0]), facts.Describe(ss[0])) {
			c.Fail(n, "%s of %q: %s", n, p.text, diff)
		}
	}
	for _, w := range p.wants {
		n := w.kind + " " + w.name
		ss := byName[n]
		if len(ss) != 1 {
			c.Fail(n, "%q declares %s, analysis finds it %d times (%v)", p.text, n, len(ss), keys(byName))
			continue
		}
		st := facts.Stored(store, ss[0])
		if len(st) != 1 {
			continue
		}
		got := map[string]bool{}
		all := facts.Describe(st[0])
		for _, g := range all {
			got[g] = true
		}
		for _, f := range w.facts {
			c.Eval(1)
			if !got[f] {
				k := strings.SplitN(f, " = ", 2)[0]
				have := "nothing"
				for _, g := range all {
					if strings.HasPrefix(g, k+" = ") {
						have = g
					}
				}
				c.Fail(n, "%q declares %s with %s, stored is %s", p.text, n, f, have)
			}
		}
	}
}

func keys(m map[string][]analysis.Symbol) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	return out
}

func name(s analysis.Symbol) string {
	switch v := s.(type) {
	case *analysis.Class:
		return v.Name.GetFQN()
	case *analysis.Interface:
		return v.Name.GetFQN()
	case *analysis.Trait:
		return v.Name.GetFQN()
	case *analysis.Function:
		return v.Name.GetFQN()
	case *analysis.Const:
		return v.Name.GetFQN()
	case *analysis.Define:
		return v.Name.GetFQN()
	case *analysis.Method:
		return v.Scope.GetFQN() + "::" + v.Name
	case *analysis.Property:
		return v.Scope.GetFQN() + "::" + v.Name
	case *analysis.ClassConst:
		return v.Scope.GetFQN() + "::" + v.Name
	case *analysis.GlobalVariable:
		return v.Name
	}
	return "?"
}

func q(path, v string) string { return fmt.Sprintf("%s = %q", path, v) }

type doc struct{ text, desc, dep string }

func docs(vars string) []doc {
	return []doc{
		{"", "", ".deprecated = false"},
		{"/** Some text. */\n", "Some text.", ".deprecated = false"},
		{"/**\n * Some text.\n * @deprecated use \"x\" instead\n */\n", "Some text.", `.deprecated = true "use \"x\" instead"`},
		{"/**\n * @deprecated\n */\n", "", `.deprecated = true ""`},
		{"/**\n * Ünïcode 😀.\n" + vars + " */\n", "Ünïcode 😀.", ".deprecated = false"},
	}
}

var namespaces = []struct{ head, tail, ns string }{{"<?php\n", "", "\\"}, {"<?php\nnamespace N;\n", "", "\\N\\"}, {"<?php\nnamespace N\\M {\n", "}\n", "\\N\\M\\"}}

var vis = map[string]string{"": "0", "public ": "0", "protected ": "1", "private ": "2", "var ": "0"}

func main() {
	kit.Main(kit.Check{
		ID:          "C16",
		Level:       "model_checking",
		Rule:        "a failing case is a program and the declaration of it that differs, or a sequence of encoded values; two are distinct when these differ",
		Assumptions: []string{"reference locations (the place of the name inside a declaration) and analysed bodies are not stored and not compared", "declared types of return values that appear only in the signature are compared as analysed, not against the source"},
		Bounds: func(t bool) string {
			return "every declaration of a class, interface, trait, method, property, class constant, function, constant, define and global over the product of modifiers, parents, parameter types, defaults and documentation listed in the generator; every sequence of 2 (thorough 3) encoded values over 40 boundary values"
		},
		HangSeconds: 120,
		Enumerate: func(e *kit.Enum) {
			encoding(e)
			cases := func(k string, ps []program) {
				for i := 0; i < len(ps); i += 20 {
					j := i + 20
					if j > len(ps) {
						j = len(ps)
					}
					part := ps[i:j]
					e.Case(fmt.Sprintf("%s %d", k, i), func(c *kit.C) {
						for _, p := range part {
							c.SubP(p.text)
							check(c, p)
						}
					})
				}
			}
			cases("class", classes())
			cases("member", members())
			cases("function", functions(e.Thorough))
			cases("other", others())
			cases("nested", nested())
		},
	})
}

func classes() []program {
	var out []program
	for _, ns := range namespaces {
		for mi, m := range []string{"", "abstract ", "final "} {
			for _, ext := range []string{"", "B", "\\X\\B", "Al"} {
				for _, im := range [][]string{nil, {"I"}, {"I", "\\X\\J"}} {
					for _, us := range [][]string{nil, {"T"}, {"T", "\\X\\U"}} {
						for _, d := range docs(" * @property int $pp A prop.\n * @method string mm(int $a, $b = 1) A method.\n") {
							if (len(im) > 1 && len(us) > 1 && d.desc == "") || (d.text != "" && len(im) == 1) {
								continue
							}
							t := ns.head + "use Y\\Al;\n" + d.text + m + "class Cc"
							res := func(n string) string {
								if n == "Al" {
									return "\\Y\\Al"
								}
								if n[0] == '\\' {
									return n
								}
								return ns.ns + n
							}
							w := want{"class", ns.ns + "Cc", []string{q(".GetName()", "Cc"), fmt.Sprintf(".Modifier = %d", mi), q(".GetDescription()", d.desc), d.dep}}
							w.facts[1] = fmt.Sprintf(".Modifier = %d", mi)
							if ext != "" {
								t += " extends " + ext
								w.facts = append(w.facts, q(".Extends.GetFQN()", res(ext)))
							}
							if len(im) > 0 {
								t += " implements " + strings.Join(im, ", ")
							}
							w.facts = append(w.facts, fmt.Sprintf("len .Interfaces = %d", len(im)))
							for i, n := range im {
								w.facts = append(w.facts, q(fmt.Sprintf(".Interfaces[%d].GetFQN()", i), res(n)))
							}
							t += " {\n"
							for _, n := range us {
								t += "use " + n + ";\n"
							}
							w.facts = append(w.facts, fmt.Sprintf("len .Use = %d", len(us)))
							for i, n := range us {
								w.facts = append(w.facts, q(fmt.Sprintf(".Use[%d].GetFQN()", i), res(n)))
							}
							t += "}\n" + ns.tail
							out = append(out, program{t, []want{w}})
						}
					}
				}
			}
		}
	}
	return out
}

func members() []program {
	var out []program
	for _, ns := range namespaces {
		for _, holder := range []string{"class Cc", "abstract class Cc extends B", "trait Cc", "interface Cc"} {
			iface := strings.HasPrefix(holder, "interface")
			for _, d := range docs(" * @param int $a The a.\n * @return \\X\\R|null\n * @var string|int $p The p.\n") {
				add := func(code string, ws ...want) {
					out = append(out, program{ns.head + holder + " {\n" + d.text + code + "\n}\n" + ns.tail, ws})
				}
				for v, vn := range vis {
					if iface && v != "" && v != "public " {
						continue
					}
					if v != "var " {
						for _, st := range []string{"", "static "} {
							for mi, m := range []string{"", "abstract ", "final "} {
								if iface && mi > 0 {
									continue
								}
								body := " {}"
								if mi == 1 || iface {
									body = ";"
								}
								add(m+v+st+"function Me"+"($a, &$b = 1)"+body, want{"method", ns.ns + "Cc::Me", []string{
									q(".Name", "Me"), ".Visibility() = " + vn, fmt.Sprintf(".IsStatic() = %v", st != ""), fmt.Sprintf(".ClassModifier = %d", mi),
									"len .Params = 2", q(".Params[0].Name", "$a"), q(".Params[1].Name", "$b"), q(".Params[1].Value", "1"), ".Params[0].HasValue() = false", ".Params[1].HasValue() = true",
									q(".GetDescription()", d.desc), d.dep, q(".GetScope()", ns.ns+"Cc"),
								}})
							}
						}
					}
					if !iface && v != "" {
						for _, st := range []string{"", "static "} {
							if v == "var " && st != "" {
								continue
							}
							for _, def := range []string{"", " = 1", " = ['a' => 1]"} {
								add(v+st+"$p"+def+", $q;", want{"property", ns.ns + "Cc::$p", []string{q(".Name", "$p"), ".Visibility() = " + vn, fmt.Sprintf(".IsStatic() = %v", st != ""), d.dep, q(".GetScope()", ns.ns+"Cc")}},
									want{"property", ns.ns + "Cc::$q", []string{".Visibility() = " + vn, fmt.Sprintf(".IsStatic() = %v", st != "")}})
							}
						}
					}
					if v != "var " {
						for _, val := range []string{"1", "'x'", "self::B", "[1, 2]", "1 + 2", "-1"} {
							add(v+"const K = "+val+", L = 2;", want{"class constant", ns.ns + "Cc::K", []string{q(".Name", "K"), q(".Value", val), ".Visibility() = " + vn, q(".GetScope()", ns.ns+"Cc"), d.dep, q(".GetDescription()", d.desc)}},
								want{"class constant", ns.ns + "Cc::L", []string{q(".Value", "2"), ".Visibility() = " + vn}})
						}
					}
				}
			}
		}
	}
	return out
}

type par struct {
	code  string
	facts []string // with %s for the parameter's path
}

func params() []par {
	var out []par
	for _, t := range []struct{ code, typ string }{{"", ""}, {"int ", "int"}, {"Al ", "\\Y\\Al"}, {"\\X\\B ", "\\X\\B"}, {"array ", "array"}, {"?int ", ""}} {
		for _, pre := range []string{"", "&", "..."} {
			for _, def := range []string{"", "1", "null", "'a, b'", "[1, 2]", "array('x' => 1)", "\\X\\B::K", "-1.5", "FOO", "PHP_EOL . 'x'"} {
				if pre == "..." && def != "" {
					continue
				}
				p := par{code: t.code + pre + "$%s"}
				if def != "" {
					p.code += " = " + strings.ReplaceAll(def, "%", "%%")
				}
				p.facts = append(p.facts, q("%s.Value", def), fmt.Sprintf("%%s.HasValue() = %v", def != ""))
				if t.typ != "" {
					p.facts = append(p.facts, q("%s.Type.ToString()", t.typ))
				}
				out = append(out, p)
			}
		}
	}
	return out
}

func functions(thorough bool) []program {
	var out []program
	ps := params()
	for ni, ns := range namespaces {
		for di, d := range docs(" * @param string $a Thé a.\n * @return Al|int[]\n") {
			for i, p := range ps {
				for j, p2 := range ps {
					if !thorough && (i+j+di+ni)%7 != 0 && j != 0 {
						continue
					}
					if strings.Contains(p.code, "...") && j != 0 {
						continue
					}
					code := ns.head + "use Y\\Al;\n" + d.text + "function fF(" + fmt.Sprintf(p.code, "a")
					w := want{"function", ns.ns + "fF", []string{q(".Name.GetOriginal()", "fF"), q(".GetDescription()", d.desc), d.dep, q(".Params[0].Name", "$a")}}
					addF := func(k string, fs []string, typed bool) {
						for _, f := range fs {
							if strings.Contains(f, "Type.") && !typed {
								continue
							}
							w.facts = append(w.facts, strings.Replace(f, "%s", k, 1))
						}
					}
					addF(".Params[0]", p.facts, !strings.Contains(d.text, "@param"))
					n := 1
					if j != 0 {
						code += ", " + fmt.Sprintf(p2.code, "b")
						addF(".Params[1]", p2.facts, true)
						n++
					}
					if strings.Contains(d.text, "@param") {
						w.facts = append(w.facts, q(".Params[0].GetDescription()", "Thé a."))
					}
					if strings.Contains(d.text, "@return") {
						w.facts = append(w.facts, q(".GetDetail()", "\\Y\\Al|int[]"))
					}
					w.facts = append(w.facts, fmt.Sprintf("len .Params = %d", n))
					out = append(out, program{code + ") {}\n" + ns.tail, []want{w}})
				}
			}
		}
	}
	return out
}

func others() []program {
	var out []program
	for _, ns := range namespaces {
		for _, d := range docs("") {
			for _, val := range []string{"1", "'x'", "A . B", "[1, 2]", "-1", "\\X\\Y::Z"} {
				out = append(out, program{ns.head + d.text + "const Kk = " + val + ", Ll = 2;\n" + ns.tail, []want{
					{"const", ns.ns + "Kk", []string{q(".Value", val), d.dep}}, {"const", ns.ns + "Ll", []string{q(".Value", "2")}}}})
				out = append(out, program{ns.head + d.text + "define('Dd', " + val + ");\n" + ns.tail, []want{{"define", "\\Dd", []string{q(".Value", val), d.dep}}}})
				out = append(out, program{ns.head + d.text + "define('De\\\\F\\Dd', " + val + ");\n" + ns.tail, []want{{"define", "\\De\\F\\Dd", []string{q(".Value", val), d.dep}}}})
			}
			for _, ext := range [][]string{nil, {"B"}, {"B", "\\X\\D"}, {"Al"}} {
				t := ns.head + "use Y\\Al;\n" + d.text + "interface Ii"
				w := want{"interface", ns.ns + "Ii", []string{fmt.Sprintf("len .Extends = %d", len(ext)), q(".GetDescription()", d.desc), d.dep}}
				if ext != nil {
					t += " extends " + strings.Join(ext, ", ")
				}
				out = append(out, program{t + " {}\n" + ns.tail, []want{w}})
			}
			out = append(out, program{ns.head + d.text + "trait Tt {}\n" + ns.tail, []want{{"trait", ns.ns + "Tt", nil}}})
		}
		for _, ty := range []string{"int", "\\X\\B", "A|B[]"} {
			out = append(out, program{ns.head + "function g() {\n/** @global " + ty + " $gg Some text. */\nglobal $gg;\n}\n" + ns.tail, []want{{"global", "$gg", []string{q(".GetDescription()", "Some text.")}}}})
		}
	}
	return out
}

// nested classes, functions in functions and classes after each other: who owns a member.
func nested() []program {
	var out []program
	inner := []string{"", "new class { public $x; const Z = 1; function x() {} };", "$f = function($p) { return $p; };", "function in($z) {}", "if (1) { class Inner { function y() {} public $y; } }"}
	for _, ns := range namespaces {
		for _, kind := range []string{"class", "trait", "final class"} {
			for _, a := range inner {
				for _, b := range inner {
					if strings.HasPrefix(a, "if") && strings.HasPrefix(b, "if") || strings.HasPrefix(a, "function in") && strings.HasPrefix(b, "function in") {
						continue
					}
					ws := []want{}
					for _, m := range []string{"m1", "m2", "m3"} {
						ws = append(ws, want{"method", ns.ns + "Out::" + m, nil})
					}
					ws = append(ws, want{"property", ns.ns + "Out::$p1", nil}, want{"property", ns.ns + "Out::$p2", nil}, want{"class constant", ns.ns + "Out::K1", nil}, want{"class constant", ns.ns + "Out::K2", nil}, want{"method", ns.ns + "Later::l", nil}, want{"function", ns.ns + "after", nil})
					if strings.HasPrefix(a, "if") || strings.HasPrefix(b, "if") {
						ws = append(ws, want{"method", ns.ns + "Inner::y", nil}, want{"property", ns.ns + "Inner::$y", nil})
					}
					if kind == "trait" { // traits have no constants before PHP 8.2
						ws = append(ws[:5], ws[7:]...)
					}
					k1, k2 := "const K1 = 1; ", "const K2 = 2; "
					if kind == "trait" {
						k1, k2 = "", ""
					}
					t := ns.head + kind + " Out {\n public $p1; " + k1 + "function m1() {" + a + "}\n function m2() {" + b + "}\n public $p2; " + k2 + "function m3() {}\n}\nclass Later { function l() {" + "} }\nfunction after() {}\n" + ns.tail
					out = append(out, program{t, ws})
				}
			}
		}
	}
	return out
}

// encoding: every sequence of values is read back equal and in order.
type val struct {
	name  string
	write func(e *storage.Encoder)
	read  func(d *storage.Decoder) bool
}

func values() []val {
	var vs []val
	add := func(n string, w func(e *storage.Encoder), r func(d *storage.Decoder) bool) {
		vs = append(vs, val{n, w, r})
	}
	for _, i := range []int{0, 1, -1, 255, 256, math.MaxInt32, math.MinInt32, math.MaxInt64, math.MinInt64} {
		i := i
		add(fmt.Sprintf("int %d", i), func(e *storage.Encoder) { e.WriteInt(i) }, func(d *storage.Decoder) bool { return d.ReadInt() == i })
	}
	for _, i := range []uint64{0, 1, math.MaxUint32, math.MaxUint64} {
		i := i
		add(fmt.Sprintf("uint64 %d", i), func(e *storage.Encoder) { e.WriteUInt64(i) }, func(d *storage.Decoder) bool { return d.ReadUInt64() == i })
	}
	for _, i := range []uint32{0, 1, math.MaxUint32} {
		i := i
		add(fmt.Sprintf("uint32 %d", i), func(e *storage.Encoder) { e.WriteUInt32(i) }, func(d *storage.Decoder) bool { return d.ReadUInt32() == i })
	}
	for _, f := range []float64{0, math.Copysign(0, -1), 1.5, math.Inf(1), math.MaxFloat64, math.SmallestNonzeroFloat64} {
		f := f
		add(fmt.Sprintf("float64 %g", f), func(e *storage.Encoder) { e.WriteFloat64(f) }, func(d *storage.Decoder) bool { return math.Float64bits(d.ReadFloat64()) == math.Float64bits(f) })
		g := float32(f)
		add(fmt.Sprintf("float32 %g", g), func(e *storage.Encoder) { e.WriteFloat32(g) }, func(d *storage.Decoder) bool { return math.Float32bits(d.ReadFloat32()) == math.Float32bits(g) })
	}
	all := make([]byte, 256)
	for i := range all {
		all[i] = byte(i)
	}
	for _, s := range []string{"", "a", "\x00", "a\x00b", string(all), "😀", "\xff", strings.Repeat("x", 70000)} {
		s := s
		n := s
		if len(n) > 10 {
			n = n[:10]
		}
		add(fmt.Sprintf("string %d %q", len(s), n), func(e *storage.Encoder) { e.WriteString(s) }, func(d *storage.Decoder) bool { return d.ReadString() == s })
		add(fmt.Sprintf("bytes %d %q", len(s), n), func(e *storage.Encoder) { e.WriteBytes([]byte(s)) }, func(d *storage.Decoder) bool { return string(d.ReadBytes()) == s })
	}
	for _, b := range []bool{true, false} {
		b := b
		add(fmt.Sprintf("bool %v", b), func(e *storage.Encoder) { e.WriteBool(b) }, func(d *storage.Decoder) bool { return d.ReadBool() == b })
	}
	for _, p := range []protocol.Position{{}, {Line: 3, Character: 9}, {Line: 1 << 40, Character: 2}, {Line: 1 << 20}, {Line: 1, Character: 300}, {Line: 2, Character: 70000}, {Line: 3, Character: 1 << 20}} {
		p := p
		add(fmt.Sprintf("position %v", p), func(e *storage.Encoder) { e.WritePosition(p) }, func(d *storage.Decoder) bool { return d.ReadPosition() == p })
		l := protocol.Location{URI: "file:///a\x00b", Range: protocol.Range{Start: p, End: protocol.Position{Line: 7, Character: 8}}}
		add(fmt.Sprintf("location %v", p), func(e *storage.Encoder) { e.WriteLocation(l) }, func(d *storage.Decoder) bool { return d.ReadLocation() == l })
	}
	return vs
}

func encoding(e *kit.Enum) {
	vs := values()
	for _, v := range vs {
		v := v
		e.Case("encoding starting with "+v.name, func(c *kit.C) {
			run := func(seq ...val) {
				c.Eval(1)
				enc := storage.NewEncoder()
				for _, x := range seq {
					x.write(enc)
				}
				buf := append([]byte{}, enc.Bytes()...)
				d := storage.NewDecoder(buf)
				n := ""
				for _, x := range seq {
					n += x.name + "; "
				}
				for _, x := range seq {
					if !x.read(d) {
						c.Fail(n, "%s of [%s] is not read back equal", x.name, n)
						return
					}
				}
				if d.Len() != 0 {
					c.Fail(n, "%d bytes are left after reading back [%s]", d.Len(), n)
				}
			}
			run(v)
			for _, w := range vs {
				run(v, w)
				if c.Thorough() {
					for _, x := range vs {
						run(v, w, x)
					}
				}
			}
		})
	}
}
