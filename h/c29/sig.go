package main

import (
	"encoding/json"
	"fmt"
	"regexp"
	"strings"

	"github.com/john-nguyen09/phpintel/internal/lsp/protocol"
	"github.com/john-nguyen09/phpintel/internal/zzverif/kit"
	debounce "github.com/john-nguyen09/phpintel/internal/zzverif/mcdebounce"
	"github.com/john-nguyen09/phpintel/internal/zzverif/refs"
	"github.com/john-nguyen09/phpintel/internal/zzverif/srv"
)

// A param is a parameter and what must be shown of it.
type param struct {
	text, typ, value string
	doc              string
}

func params() []param {
	return []param{
		{text: "$%s"},
		{text: "int $%s", typ: "int"},
		{text: "X $%s", typ: "X"},
		{text: "?X $%s", typ: "X"},
		{text: "\\X $%s", typ: "X"},
		{text: "array $%s = []", typ: "array", value: "[]"},
		{text: "$%s = 1", value: "1"},
		{text: "$%s = -1", value: "-1"},
		{text: "$%s = 'a, b'", value: "'a, b'"},
		{text: "$%s = \"a\"", value: "\"a\""},
		{text: "$%s = KK", value: "KK"},
		{text: "$%s = X::KK", value: "X::KK"},
		{text: "$%s = [1, 'k' => [2]]", value: "[1, 'k' => [2]]"},
		{text: "X $%s = null", typ: "X", value: "null"},
		{text: "$%s = 1 + 2", value: "1 + 2"},
		{text: "&$%s"},
		{text: "X &$%s", typ: "X"},
		{text: "$%s", typ: "X", doc: "@param X $%s some"},
		{text: "$%s = null", typ: "int|X", value: "null", doc: "@param int|X $%s"},
		{text: "callable $%s", typ: "callable"},
	}
}

var last = []param{
	{text: "...$%s"},
	{text: "X ...$%s", typ: "X"},
}

type ret struct{ text, doc, typ string }

var rets = []ret{
	{},
	{text: ": X", typ: "X"},
	{text: ": ?X", typ: "X"},
	{text: ": int", typ: "int"},
	{text: ": \\X", typ: "X"},
	{doc: "@return X", typ: "X"},
	{doc: "@return X|int some", typ: "X|int"},
	{doc: "@return X[]", typ: "X[]"},
	{text: ": array", doc: "@return X[]", typ: "X[]"},
}

func squash(s string) string { return strings.NewReplacer(" ", "", "\n", "", "\t", "").Replace(s) }

// typRe matches the type when it is shown.
func typRe(t string) string {
	var r []string
	for _, p := range strings.Split(t, "|") {
		r = append(r, `\\?\??\\?`+regexp.QuoteMeta(p))
	}
	if len(r) == 1 {
		return r[0] + `(\|[\\\w]+)*`
	}
	return "(" + r[0] + `\|` + r[1] + "|" + r[1] + `\|` + r[0] + ")"
}

func sigRe(ps []param, r ret) string {
	var parts []string
	for i, p := range ps {
		s := `(&|\.\.\.)?\$` + pname(i)
		if p.typ != "" {
			s = typRe(p.typ) + `(\[\])?` + s
		}
		if p.value != "" {
			s += "=" + regexp.QuoteMeta(squash(p.value))
		}
		parts = append(parts, s)
	}
	s := `\(` + strings.Join(parts, ",") + `\)`
	if r.typ != "" {
		s += ":" + typRe(r.typ)
	}
	return s
}

func pname(i int) string { return string(rune('p' + i)) }

func docOf(ps []param, r ret) string {
	d := "/**\n * WdW\n"
	for i, p := range ps {
		if p.doc != "" {
			d += " * " + fmt.Sprintf(p.doc, pname(i)) + "\n"
		}
	}
	if r.doc != "" {
		d += " * " + r.doc + "\n"
	}
	return d + " */\n"
}

func sigText(ps []param, r ret) string {
	var t []string
	for i, p := range ps {
		t = append(t, fmt.Sprintf(p.text, pname(i)))
	}
	return "(" + strings.Join(t, ", ") + ")" + r.text
}

// shown is what is shown at the mark of the text.
func shown(c *kit.C, s *srv.S, text string) (string, string) {
	i := strings.Index(text, "@@")
	text = strings.Replace(text, "@@", "", 1)
	c.Distinct(text)
	s.Change("a.php", text)
	debounce.Take()
	c.Eval(1)
	p := position(text, i)
	h, err := s.Hover(s.Ctx, &protocol.HoverParams{TextDocumentPositionParams: s.At("a.php", p.Line, p.Character)})
	if err != nil || h == nil {
		return "", text
	}
	return h.Contents.Value, text
}

func expect(c *kit.C, s *srv.S, text, re string, not ...string) {
	got, text := shown(c, s, text)
	q := squash(got)
	if !regexp.MustCompile(re).MatchString(q) {
		c.Fail(re, "%q is shown, not %s, in %q", got, re, text)
	}
	for _, n := range not {
		if regexp.MustCompile(n).MatchString(q) {
			c.Fail("not "+n, "%q is shown with %s, in %q", got, n, text)
		}
	}
}

func paramLists(n int) [][]param {
	r := [][]param{nil}
	var grow func(l []param, n int)
	grow = func(l []param, n int) {
		for _, p := range params() {
			x := append(append([]param{}, l...), p)
			r = append(r, x)
			if n > 1 {
				grow(x, n-1)
			}
		}
		for _, p := range last {
			r = append(r, append(append([]param{}, l...), p))
		}
	}
	grow(nil, n)
	return r
}

var values = []string{"1", "-1", "1.5", "'x'", "'a b'", "\"a\"", "1 + 2", "X::KK", "KK", "\\KK", "[1, 2]", "array('a' => 1)", "'a' . 'b'", "true", "null", "(1)", "KK ? 1 : 2", "1 | 2", "X::KK . 'x'", "!true"}

func signatures(en *kit.Enum) {
	start := func(c *kit.C) *srv.S {
		s := srv.Start(c.Scratch(), map[string]string{"a.php": "<?php\n"})
		s.Open("a.php")
		return s
	}
	n := 2
	lists := paramLists(n)
	for ri, r := range rets {
		r := r
		en.Case(fmt.Sprint("functions ", ri), func(c *kit.C) {
			s := start(c)
			defer s.Stop()
			for _, ps := range lists {
				c.SubP("function" + sigText(ps, r))
				expect(c, s, "<?php\n"+docOf(ps, r)+"function fn1"+sigText(ps, r)+" {}\nfn@@1();", "functionfn1"+sigRe(ps, r)+".*WdW")
			}
		})
		for _, vis := range []string{"", "public ", "protected ", "private "} {
			for _, st := range []string{"", "static "} {
				if r.text != "" && r.doc == "" {
					continue // that of a method is not kept, see C27
				}
				for _, kind := range []string{"class", "abstract class", "trait", "interface"} {
					vis, st, kind := vis, st, kind
					if kind == "interface" && (vis == "protected " || vis == "private ") {
						continue
					}
					if !en.Thorough && vis == "protected " && kind != "class" {
						continue
					}
					en.Case(fmt.Sprint(kind, " ", vis, st, "methods ", ri), func(c *kit.C) {
						s := start(c)
						defer s.Stop()
						l := lists
						if !c.Thorough() {
							l = paramLists(1)
						}
						v := strings.TrimSpace(vis)
						if v == "" {
							v = "public"
						}
						for _, ps := range l {
							sub := vis + st + "function" + sigText(ps, r)
							c.SubP(sub)
							body := " {}"
							pre := vis + st
							call := "function call() { $this->me@@1(); }"
							if st != "" {
								call = "function call() { self::me@@1(); }"
							}
							text := "<?php\nclass X {}\n" + kind + " C {\n"
							after := "\n" + call + "\n}"
							re, not := v+"function", "static"
							if st != "" {
								re, not = v+"static"+"function", "^!"
							}
							if kind == "trait" {
								after = "\n}\nclass Z {\nuse C;\n" + call + "\n}"
							}
							if kind == "interface" {
								body = ";"
								after = "\n}\nfunction z(C $c) { $c->me@@1(); }"
								if st != "" {
									after = "\n}\nC::me@@1();"
								}
							} else if kind == "abstract class" {
								body = ";"
								pre = "abstract " + vis + st
								if vis == "private " {
									pre, body = vis+st, " {}"
								}
							}
							expect(c, s, text+docOf(ps, r)+pre+"function me1"+sigText(ps, r)+body+after, re+"me1"+sigRe(ps, r)+`.*`+kindOf(kind)+`\\C.*WdW`, not)
						}
					})
				}
			}
		}
	}
	en.Case("values", func(c *kit.C) {
		s := start(c)
		defer s.Stop()
		for _, v := range values {
			c.SubP(v)
			q := regexp.QuoteMeta(squash(v))
			expect(c, s, "<?php\n/** WdW */\nconst K1 = "+v+";\necho K@@1;", "constK1="+q+"\\W.*WdW")
			expect(c, s, "<?php\nconst K1 = "+v+", K2 = 5;\necho K@@1;", "constK1="+q+"\\W", "=5")
			expect(c, s, "<?php\nconst K2 = 5, K1 = "+v+";\necho K@@1;", "constK1="+q+"\\W", "=5")
			expect(c, s, "<?php\n/** WdW */\ndefine('K1', "+v+");\necho K@@1;", `define\('\\?K1',`+q+"\\).*WdW")
			expect(c, s, "<?php\ndefine('K1', "+v+", true);\necho K@@1;", `define\('\\?K1',`+q+"[,)]")
			expect(c, s, "<?php\nclass C {\n/** WdW */\nconst K1 = "+v+";\n}\necho C::K@@1;", "constK1="+q+`\W.*class\\C.*WdW`)
			expect(c, s, "<?php\nclass C { const K2 = 5, K1 = "+v+", K3 = 5; }\necho C::K@@1;", "constK1="+q+"\\W", "=5")
			expect(c, s, "<?php\ninterface C { public const K2 = 5, K1 = "+v+"; }\necho C::K@@1;", "constK1="+q+"\\W", "=5")
		}
	})
	en.Case("heads", func(c *kit.C) {
		s := start(c)
		defer s.Stop()
		for _, mod := range []string{"", "abstract ", "final "} {
			for _, ext := range []string{"", "P", "\\P", "Q\\P"} {
				for _, impl := range [][]string{nil, {"I"}, {"I", "J"}, {"\\I", "Q\\J"}} {
					t := mod + "class C"
					re := "classC"
					if ext != "" {
						t += " extends " + ext
						re += `extends\\?` + regexp.QuoteMeta(strings.TrimPrefix(ext, "\\"))
					}
					if impl != nil {
						t += " implements " + strings.Join(impl, ", ")
						re += "implements" + regexp.QuoteMeta(strings.Join(impl, ","))
					}
					c.SubP(t)
					expect(c, s, "<?php\n/** WdW */\n"+t+" {}\nC@@::class;", re+"[^,\\w].*WdW")
					c.SubP("new " + t)
					if mod != "abstract " {
						expect(c, s, "<?php\n/** WdW */\n"+t+" {}\nnew C@@;", re+"[^,\\w].*WdW")
					}
				}
			}
		}
		for _, ext := range [][]string{nil, {"I"}, {"I", "J"}, {"\\I", "Q\\J"}} {
			t, re := "interface C", "interfaceC"
			if ext != nil {
				t += " extends " + strings.Join(ext, ", ")
				re += "extends" + regexp.QuoteMeta(strings.Join(ext, ","))
			}
			c.SubP(t)
			expect(c, s, "<?php\n/** WdW */\n"+t+" {}\nclass D implements C@@ {}", re+"[^,\\w].*WdW")
		}
	})
	en.Case("properties", func(c *kit.C) {
		s := start(c)
		defer s.Stop()
		for _, vis := range []string{"var ", "public ", "protected ", "private ", ""} {
			for _, st := range []string{"", "static "} {
				for _, ty := range []struct{ doc, text, typ string }{{}, {"/** @var X WdW */\n", "", "X"}, {"/** @var int|X */\n", "", "int|X"}, {"/** @var X[] */\n", "", "X[]"}, {"", "int ", "int"}, {"", "X ", "X"}, {"", "?X ", "X"}} {
					for _, more := range []string{"", " = 1", ", $b", " = 'x', $b = 2"} {
						if vis == "var " && (st != "" || ty.text != "") || vis+st == "" {
							continue
						}
						for _, kind := range []string{"class", "trait"} {
							t := vis + st + ty.text + "$a1" + more + ";"
							c.SubP(kind + " " + t)
							v := strings.TrimSpace(vis)
							if v == "" || v == "var" {
								v = "public"
							}
							re, not, use := v+`\$a1`, "static", "$this->a@@1"
							if st != "" {
								re, not, use = v+`static\$a1`, "^!", "self::$a@@1"
							}
							if ty.text != "" {
								// the parser library leaves out the modifiers of a property with a type
								re, not = `(public|private|protected)(static)?\$a1`, "^!"
								if st != "" {
									continue
								}
							}
							if ty.typ != "" {
								re += ":" + typRe(ty.typ)
							}
							call := "function call() { " + use + "; }\n}"
							if kind == "trait" {
								call = "}\nclass Z { use C; " + call
							}
							expect(c, s, "<?php\n"+kind+" C {\n"+ty.doc+t+"\n"+call, re+`\W.*`+kind+`\\C`, not)
						}
					}
				}
			}
		}
	})
	en.Case("variables", func(c *kit.C) {
		s := start(c)
		defer s.Stop()
		for _, v := range []struct{ text, typ string }{
			{"$v = new X; $v@@;", "X"},
			{"$@@v = new X;", "X"},
			{"$v = new X; foo($v@@);", "X"},
			{"$v = new X; $v@@->a;", "X"},
			{"function z(X $v) { $v@@; }", "X"},
			{"function z(?X $v) { return $@@v; }", "X"},
			{"/** @param X $v some */\nfunction z($v) { $v@@; }", "X"},
			{"function z(X $v) { return function () use ($v@@) {}; }", "X"},
			{"function z(X $v) { return function () use ($v) { $v@@; }; }", "X"},
			{"try {} catch (X $v) { $v@@; }", "X"},
			{"/** @var X $v */\n$v@@;", "X"},
			{"class C { function z() { $v = $this; $v@@; } }", "C"},
			{"function z(X $v) { $w = $v; $w@@; }", "X"},
		} {
			c.SubP(v.text)
			n := "v"
			if strings.Contains(v.text, "$w@@") {
				n = "w"
			}
			expect(c, s, "<?php\n"+v.text, typRe(v.typ)+`\$`+n)
		}
	})
}

// offered looks at what completion tells of what it offers.
func offered(c *kit.C, x refs.Ctx) {
	w := refs.World
	if x.WorldNS != "" {
		w = "namespace " + x.WorldNS + ";\n" + w
	}
	files := map[string]string{"a.php": "<?php\n"}
	if !x.Same {
		files["w.php"] = "<?php\n" + w
	}
	s := srv.Start(c.Scratch(), files)
	defer s.Stop()
	if !x.Same {
		s.Open("w.php")
	}
	s.Open("a.php")
	// what is written, and the word and scope of what is offered
	type offer struct{ label, word, scope string }
	members := []offer{{"cm", "cm", "C"}, {"pm", "pm", "P"}, {"o", "Co", "C"}, {"tm", "tm", "T"}, {"pp", "pp", "P"}, {"op", "Cop", "C"}, {"tp", "tp", "T"}, {"im", "im", "I"}}
	statics := []offer{{"cs", "cs", "C"}, {"CK", "CK", ""}, {"PK", "PK", ""}, {"ps", "ps", "P"}, {"$csp", "csp", "C"}, {"$psp", "psp", "P"}}
	for _, q := range []struct {
		text  string
		offer []offer
	}{
		{"F.mkC()->", []offer{{"cm", "cm", "C"}, {"pm", "pm", "P"}, {"o", "Co", "C"}, {"tm", "tm", "T"}, {"pp", "pp", "P"}, {"op", "Cop", "C"}, {"tp", "tp", "T"}, {"im", "im", "I"}}},
		{"F.mkC()->p", []offer{{"pm", "pm", "P"}, {"pp", "pp", "P"}}},
		{"$o = «F.mkC:»(); $o->", nil},
		{"$o = «F.mkC:»(); $o->|\nfoo", nil},
		{"$o = «F.mkC:»();\n$o\n\t->|\n", nil},
		{"if (1) { «F.mkC:»()->|\n}", nil},
		{"call(«F.mkC:»()->|", nil},
		{"call(«F.mkC:»()->|)", nil},
		{"call(«F.mkC:»()->|, 2)", nil},
		{"[«F.mkC:»()->|]", nil},
		{"$v = «F.mkC:»()->|\n$w = 1", nil},
		{"return «F.mkC:»()->|\n", nil},
		{"function z(«C.C:» $o) { $o->|}", nil},
		{"function z(«C.C:» $o) { $o->| return 1; }", nil},
		{"function z(«C.C:» $o) { return function () use ($o) { return $o->|; }; }", nil},
		{"class Z extends «C.C:» { function z() { $this->| } }", []offer{{"cm", "cm", "C"}, {"pm", "pm", "P"}, {"pp", "pp", "P"}, {"tm", "tm", "T"}}},
		{"class Z extends «C.C:» { function z() { self::| } }", statics},
		{"class Z extends «C.C:» { function z() { static::| } }", statics},
		{"class Z extends «C.C:» { function z() { parent::| } }", statics},
		{"class Z extends «C.C:» { function z() { return parent::c|; } }", statics[:1]},
		{"class Z extends «C.C:» { function z() { return self::$c|; } }", []offer{{"$csp", "csp", "C"}}},
		{"$o = new «C.C:»(1); $o::|", statics},
		{"$o = new «C.C:»(1); call($o::|)", statics},
		{"$o = new «C.C:»(1); $o::c|s()", statics[:1]},
		{"$o = new «C.C:»(1); $o::c|", statics[:1]},
		{"$o = new «C.C:»(1); $o::|cs()", statics},
		{"$o = new «C.C:»(1); $o::$c|", statics[4:5]},
		{"$o = new «C.C:»(1); $o::C|K", statics[1:2]},
		{"$o = new «C.C:»(1); $o->c|m(1)", members[:1]},
		{"$o = new «C.C:»(1); $o->|cm(1)", members},
		{"$o = new «C.C:»(1); $o->p|p", members[4:5]},
		{"$o = new «C.C:»(1); $o->|pp = 1", members},
		{"«C.C:»::|\nfoo()", statics},
		{"if (1) { «C.C:»::|\n}", statics},
		{"call(«C.C:»::|", statics},
		{"call(«C.C:»::|, 1)", statics},
		{"[«C.C:»::|]", statics},
		{"«C.C:»::|cs()", statics},
		{"«C.C:»::c|s()", statics[:1]},
		{"call(«C.C:»::C|)", statics[1:2]},
		{"«C.C:»::|CK", statics},
		{"«C.C:»::|$csp", statics[4:]},
		{"«C.C:»::$|", statics[4:]},
		{"«C.C:»::$|csp", statics[4:]},
		{"«C.C:»::$c|sp", statics[4:5]},
		{"const Z = «C.C:»::|", statics[1:3]},
		{"class Z { const Z = «C.C:»::| }", statics[1:3]},
		{"class Z { function z($a = «C.C:»::|) {} }", statics[1:3]},
		{"$v = 1 + «C.C:»::| + 2", statics},
		{"$v = $a ? «C.C:»::| : 2", statics},
		{"switch (1) { case «C.C:»::|: }", statics[1:3]},
		{"return «C.C:»::|\n", statics},
		{"/* \U0001d4b3 */ «C.C:»::|", statics},
		{"/* \U0001d4b3 */ «F.mkC:»()->|", nil},
		{"F.mkJ()->", []offer{{"jm", "jm", "J"}, {"im", "im", "I"}}},
		{"C.C::", []offer{{"CK", "CK", ""}, {"PK", "PK", ""}, {"OK", "COK", ""}, {"cs", "cs", "C"}, {"ps", "ps", "P"}, {"$csp", "csp", "C"}, {"$psp", "psp", "P"}}},
		{"C.C", []offer{{"C", "C", ""}}},
		{"F.mk", []offer{{"mkC", "mkC", ""}, {"mkU", "mkU", ""}, {"mkJ", "mkJ", ""}}},
		{"F.f", []offer{{"f", "f", ""}}},
		{"K.K", []offer{{"K", "K", ""}}},
		{"K.DD", []offer{{"DD", "DD", ""}}},
	} {
		d := &refs.Doc{Name: x.NameFunc}
		d.B.WriteString("<?php\n")
		if x.Same {
			d.B.WriteString(w)
		}
		d.B.WriteString(x.Open)
		t := q.text
		rest := ""
		if q.offer == nil {
			q.offer = members
		}
		if strings.ContainsAny(t, "«|") {
			if i := strings.Index(t, "|"); i > 0 {
				t, rest = t[:i], t[i+1:]
			}
			d.Emit(t)
		} else if i := strings.IndexAny(t, "(:-"); i > 0 {
			d.B.WriteString(d.Name(t[0], t[2:i]) + t[i:])
		} else {
			if n := d.Name(t[0], t[2:]); n != t[2:] {
				continue // how names are completed is C20
			}
			d.B.WriteString(t[2:])
		}
		at := d.B.Len()
		d.B.WriteString(rest + ";" + x.Shut)
		c.SubP(q.text)
		s.Change("a.php", d.B.String())
		debounce.Take()
		c.Eval(1)
		p := position(d.B.String(), at)
		l, err := s.Completion(s.Ctx, &protocol.CompletionParams{TextDocumentPositionParams: s.At("a.php", p.Line, p.Character)})
		if err != nil || l == nil {
			c.Fail(q.text, "error %v", err)
			continue
		}
		for _, o := range q.offer {
			found := 0
			for _, it := range l.Items {
				if it.Label != o.label {
					continue
				}
				b, _ := json.Marshal(it.Documentation)
				ws := words(string(b))
				if len(ws) == 1 && ws[0] == o.word {
					found++
					if o.scope != "" && !regexp.MustCompile(`[\\ ]`+o.scope+"\\W").Match(b) {
						c.Fail(q.text+" "+o.label, "%s is said to be of %s, not %s", o.label, b, o.scope)
					}
				} else {
					c.Fail(q.text+" "+o.label, "%s is described by %s", o.label, b)
				}
			}
			if found != 1 {
				var all []string
				for _, it := range l.Items {
					all = append(all, it.Label)
				}
				c.Fail(q.text+" "+o.label, "%s is offered %d times among %q %q %v", o.label, found, all, d.B.String()[d.B.Len()-20:], p)
			}
		}
	}
}

func kindOf(k string) string { return k[strings.LastIndexByte(k, ' ')+1:] }
