// C33: what is told about a document follows the current contents of the other documents.
package main

import (
	"encoding/json"
	"fmt"
	"os"
	"sort"
	"strings"

	"github.com/john-nguyen09/phpintel/internal/lsp/protocol"
	"github.com/john-nguyen09/phpintel/internal/zzverif/kit"
	debounce "github.com/john-nguyen09/phpintel/internal/zzverif/mcdebounce"
	"github.com/john-nguyen09/phpintel/internal/zzverif/srv"
)

// parts are the declarations of the other document, each in two forms
var parts = [][2]string{
	{"/** @return A */\nfunction f() {}\n", "/** @return B */\nfunction f($zz) {}\n"},
	{"class K extends A { /** @return A */ function m() {} /** @return A */ static function s() {} /** @var A */ public $p; /** @var A */ static $sp; const C = 1; }\n",
		"class K extends A { /** @return B */ function m($zz) {} /** @return B[] */ static function s() {} /** @var B */ public $p; /** @var B */ static $sp; const C = 2; }\n"},
	{"class L extends A {}\n", "class L extends B {}\n"},
	{"class A { function am() {} public $ap; const AC = 1; static function as() {} }\n", "class A { function amm() {} public $app; const ACC = 1; static function ass() {} }\n"},
	{"function g() {\n/** @global A */\nglobal $gg;\n}\n", "function g() {\n/** @global B */\nglobal $gg;\n}\n"},
	{"interface I { /** @return A */ function im(); }\n", "interface I { /** @return B */ function im(); }\n"},
	{"trait T { /** @return A */ function tm() {} }\n", "trait T { /** @return B */ function tm() {} }\n"},
	{"const D = 1;\ndefine('E', 1);\n", "const D = 2;\ndefine('E', 2);\n"},
}

// versions are the texts of the other document: all first forms, each part in its second form
// or gone, all in the second, and nothing
func versions() (out []string) {
	text := func(form func(i int) int) string {
		t := "<?php\nclass B { function bm() {} public $bp; const BC = 1; static function bs() {} }\n"
		for i, p := range parts {
			if f := form(i); f < 2 {
				t += p[f]
			}
		}
		return t
	}
	out = append(out, text(func(int) int { return 0 }), text(func(int) int { return 1 }), "<?php\n")
	for f := 1; f <= 2; f++ {
		for i := range parts {
			i, f := i, f
			out = append(out, text(func(j int) int {
				if i == j {
					return f
				}
				return 0
			}))
		}
	}
	return out
}

// uses are the documents asked about, at each @
var uses = []struct{ name, text string }{
	{"variables", "<?php\n$x = f(@);\n$x@->@;\n$k = new K(@);\n$y = $k->m@(@);\n$y@->@;\n$z = $y;\n$z->@;\nforeach (K::s() as $e) {\n$e@->@;\n}\n$l = new L;\n$l->@;\n"},
	{"chains", "<?php\nf@()->@;\n(new K)->m@()->@;\nK::s@()->@;\n(new K)->p@->@;\nK::$sp@->@;\n(new L)->@;\nL::@;\nK::C@;\n$gg@->@;\nD@;\nE@;\n"},
	{"scopes", "<?php\nfunction u(K $k, I $i, L ...$ls) {\n$k->m@()->@;\n$i->im@()->@;\n$k->p->@;\n$c = function () use ($k) {\n$k->m()->@;\n};\nglobal $gg;\n$gg->@;\n}\nclass U extends K implements I {\nuse T;\nfunction w() {\n$this->m@()->@;\n$this->tm@()->@;\nparent::s@()->@;\nself::@;\n$this->im@()->@;\n$v = $this->p;\n$v->@;\n}\n}\n"},
	{"statements", "<?php\n$a = [f()];\n$a[0]@->@;\n$t = true ? f() : null;\n$t->@;\n$n = f() ?: new A;\n$n->@;\n$o = clone f();\n$o->@;\ntry {\n} catch (K $ex) {\n$ex->m()@->@;\n}\n$q = $r = f();\n$q@->@;\n$r->@;\nif ($w = f()) {\n$w@->@;\n}\n"},
}

func asJSON(v interface{}, err error) string {
	if err != nil {
		return err.Error()
	}
	b, _ := json.Marshal(v)
	return string(b)
}

// ask gives all that is told about the document
func ask(c *kit.C, s *srv.S, text string) []string {
	debounce.Take()
	var out []string
	l, ch := 0, 0
	say := func(what, told string) {
		out = append(out, fmt.Sprintf("%d:%d %s %s", l, ch, what, strings.ReplaceAll(told, s.Root, "")))
	}
	for _, r := range text {
		if r == '\n' {
			l, ch = l+1, 0
			continue
		}
		if r != '@' {
			ch++
			continue
		}
		p := s.At("u.php", l, ch)
		list, err := s.Completion(s.Ctx, &protocol.CompletionParams{TextDocumentPositionParams: p})
		var items []string
		if list != nil {
			for _, i := range list.Items {
				items = append(items, asJSON(i, nil))
			}
			sort.Strings(items)
		}
		say("completion", asJSON(items, err))
		h, err := s.Hover(s.Ctx, &protocol.HoverParams{TextDocumentPositionParams: p})
		say("hover", asJSON(h, err))
		sh, err := s.SignatureHelp(s.Ctx, &protocol.SignatureHelpParams{TextDocumentPositionParams: p})
		say("signature", asJSON(sh, err))
		def, err := s.Definition(s.Ctx, &protocol.DefinitionParams{TextDocumentPositionParams: p})
		var locs []string
		for _, d := range def {
			locs = append(locs, asJSON(d, nil))
		}
		sort.Strings(locs)
		say("definition", asJSON(locs, err))
		c.Trans(4)
	}
	return out
}

func start(c *kit.C, d, u string, uFirst bool) *srv.S {
	s := srv.Start(c.Scratch(), map[string]string{"d.php": d, "u.php": strings.ReplaceAll(u, "@", "")})
	names := []string{"d.php", "u.php"}
	if uFirst {
		names = []string{"u.php", "d.php"}
	}
	for _, n := range names {
		s.Open(n)
	}
	return s
}

var told = map[string][]string{}

// fresh is what a server tells that never had another version
func fresh(c *kit.C, d, u string) []string {
	k := u + "\x00" + d
	if told[k] == nil {
		s := start(c, d, u, false)
		defer s.Stop()
		told[k] = ask(c, s, u)
	}
	return told[k]
}

func main() {
	vs := versions()
	kit.Main(kit.Check{
		ID:          "C33",
		Level:       "model_checking",
		Rule:        "a case is a document that uses what another declares, and the first two versions of the other; every further version follows, asked about at each step or only at the end; states are the documents with a version and what was asked before",
		Assumptions: []string{"what a server tells that never had another version of the documents is right (the other checks decide that)"},
		HangSeconds: 120,
		Bounds: func(t bool) string {
			return fmt.Sprintf("%d documents, %d versions of the other one, histories of three versions, asked before each or not, edited, closed and deleted", len(uses), len(vs))
		},
		Enumerate: func(e *kit.Enum) {
			for ui := range uses {
				u := uses[ui]
				for i := range vs {
					for j := range vs {
						i, j := i, j
						if i == j || i > 2 && j > 2 && !e.Thorough {
							continue
						}
						e.Case(fmt.Sprintf("%s, %d then %d", u.name, i, j), func(c *kit.C) {
							compare := func(s *srv.S, how string, d string) {
								g, w := ask(c, s, u.text), fresh(c, d, u.text)
								c.Eval(len(w))
								for k := range w {
									if k < len(g) && g[k] != w[k] {
										c.Fail(how, "told %.300s, a fresh server tells %.300s", g[k], w[k])
										return
									}
								}
							}
							if i == 0 && j == 1 {
								a, b, none := fresh(c, vs[0], u.text), fresh(c, vs[1], u.text), fresh(c, vs[2], u.text)
								if fmt.Sprint(a) == fmt.Sprint(b) || fmt.Sprint(a) == fmt.Sprint(none) {
									panic("harness: the versions make no difference")
								}
							}
							for _, uFirst := range []bool{false, true} {
								s := start(c, vs[i], u.text, uFirst)
								how := fmt.Sprintf("user first %v", uFirst)
								compare(s, how+", opened", vs[i])
								s.Change("d.php", vs[j])
								compare(s, how+", changed", vs[j])
								for k := range vs {
									if k == j || !c.Thorough() && (k+i+j)%4 != 0 {
										continue
									}
									c.State(fmt.Sprint(u.name, i, j, k))
									s.Change("d.php", vs[k])
									if (i+k)%2 == 0 {
										compare(s, how+", changed again", vs[k])
									}
									s.Change("d.php", vs[j])
									compare(s, how+", changed back", vs[j])
								}
								// the file on disk is the first version
								s.Close("d.php")
								compare(s, how+", closed", vs[i])
								s.Open("d.php")
								s.Change("d.php", vs[j])
								s.Change("u.php", strings.ReplaceAll(u.text, "@", "")+" ")
								s.Change("u.php", strings.ReplaceAll(u.text, "@", ""))
								compare(s, how+", both changed", vs[j])
								// there is no file to go back to
								os.Remove(s.Path("d.php"))
								s.Close("d.php")
								compare(s, how+", gone", vs[2])
								s.Stop()
							}
						})
					}
				}
			}
		},
	})
}
