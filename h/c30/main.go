// C30: the variables that completion offers are those of the scope.
package main

import (
	"fmt"
	"sort"
	"strings"
	"unicode/utf16"

	"github.com/john-nguyen09/phpintel/internal/lsp/protocol"
	"github.com/john-nguyen09/phpintel/internal/zzverif/bind"
	"github.com/john-nguyen09/phpintel/internal/zzverif/kit"
	"github.com/john-nguyen09/phpintel/internal/zzverif/srv"
)

type env struct {
	c *kit.C
	s *srv.S
}

func start(c *kit.C) *env {
	s := srv.Start(c.Scratch(), map[string]string{"w.php": "<?php\nfunction f() {}\n$x = 1;\n$world = 2;\n", "a.php": "<?php\n"})
	s.Open("w.php")
	s.Open("a.php")
	return &env{c, s}
}

// probes are statements in which a variable is being written; the unfinished ones come last.
var probes = []string{
	"f(¶);", "f(¶x);", "¶;", "⇒y = ¶;", "f($x, ¶z);", "echo \"a ¶x\";", "echo \"a {¶x}\";", "f([1, ¶]);", "if (¶) { }", "return ¶;", "f($z->p + ¶);", "f(¶q);",
	"¶ = 1;", "foreach (¶ as →k) { }", "switch (¶x) { }", "f($x[¶z]);", "new X(¶);", "$x->m(¶);", "echo ¶;", "f(fn() => ¶x);", "¶->p;", "¶::s();", "¶x::s();", "¶x::§p;", "¶x::C;", "¶x->p = 1;", "¶x();", "¶x[1] = 1;", "(¶x)->p;", "¶x++;", "f(&¶x);", "@¶x;", "new ¶x;", "f(...¶x);", "¶x instanceof X;", "f(¶x ?? 1);",
	"¶", "f(¶", "⇒y = ¶", "return ¶x", "$x->m(¶",
}

func probe(t string) bind.Node {
	if t == "f(fn() => ¶x);" {
		return bind.Arrow("f(fn(", "", bind.Text("¶x"), ");")
	}
	return bind.Text(t)
}

// finished tells whether a statement can be followed by others.
func finished(t string) bool { return strings.HasSuffix(t, ";") || strings.HasSuffix(t, "}") }

// offered judges what is offered where a variable is being written.
func (e *env) offered(name, t string, p *bind.Prog, at int, pre string, in *bind.Scope, self int) {
	must, may := map[string]bool{}, map[string]bool{}
	for _, s := range in.Visible() {
		for _, o := range p.Occs {
			n := "$" + strings.TrimPrefix(t[o.From:o.To], "$")
			if o.In != s && o.ID != s.ID(n[1:]) || o.From == self {
				continue
			}
			if o.From < at {
				may[n] = true
			}
			for _, l := range p.Loops {
				if l.From <= o.From && o.From < l.To && l.From <= at && at <= l.To {
					may[n] = true
				}
			}
			if o.In == s && o.Kind == bind.Write && !o.Bare && !o.Maybe && o.Eff < at-len(pre) && o.From < self && !strings.HasPrefix(t[o.From-1:], "&") {
				must[n] = strings.HasPrefix(n, pre)
			}
		}
	}
	l, line := strings.Count(t[:at], "\n"), t[strings.LastIndexByte(t[:at], '\n')+1:at]
	list, err := e.s.Server.Completion(e.s.Ctx, &protocol.CompletionParams{TextDocumentPositionParams: e.s.At("a.php", l, len(utf16.Encode([]rune(line))))})
	e.c.Eval(1)
	got := map[string]int{}
	if list != nil {
		for _, item := range list.Items {
			got[item.Label]++
			if item.InsertText != item.Label && item.InsertText != "" {
				got[item.Label+" inserting "+item.InsertText]++
			}
		}
	}
	var wrong []string
	for n, m := range must {
		if m && got[n] == 0 {
			wrong = append(wrong, n+" is not offered")
		}
	}
	for n, k := range got {
		if n == "$this" {
			continue
		}
		if !may[n] {
			wrong = append(wrong, n+" is offered, which is not there")
		}
		if k > 1 {
			wrong = append(wrong, fmt.Sprintf("%s is offered %d times", n, k))
		}
	}
	if err != nil {
		wrong = append(wrong, err.Error())
	}
	if len(wrong) > 0 {
		sort.Strings(wrong)
		e.c.SubP(name)
		e.c.Fail("offered", "%s: completing %s| in %q: %s", name, line, t, strings.Join(wrong, ", "))
	}
}

func (e *env) run(name string, scope int, nodes ...bind.Node) {
	e.put(name, false, scope, nodes...)
}

func (e *env) put(name string, wide bool, scope int, nodes ...bind.Node) {
	p := &bind.Prog{Wide: wide}
	p.B.WriteString("<?php\n")
	bind.Scopes[scope].Wrap(func(p *bind.Prog, s *bind.Scope) {
		for _, n := range nodes {
			n(p, s)
			p.B.WriteString("\n")
		}
	})(p, p.Scope())
	t := p.B.String()
	name = bind.Scopes[scope].Name + ": " + name
	e.s.Change("a.php", t)
	e.c.Distinct(t)
	e.c.Trans(1)
	for _, pr := range p.Probes {
		e.offered(name, t, p, pr.At, pr.Pre, pr.In, pr.At-len(pr.Pre))
	}
}

func main() {
	kit.Main(kit.Check{
		ID:    "C30",
		Level: "model_checking",
		Rule:  "what is offered where a variable is being written are the variables that the generated program has in that scope before it, by PHP's scoping rules",
		Enumerate: func(e *kit.Enum) {
			for i, s := range bind.Scopes {
				i := i
				for j, first := range bind.Pieces {
					j, first := j, first
					e.Case(fmt.Sprintf("%s/%s", s.Name, first), func(c *kit.C) {
						v := start(c)
						defer v.s.Stop()
						for q, pr := range probes {
							v.run(pr+" after "+first, i, bind.Piece(first), probe(pr))
							v.put("wide "+pr+" after "+first, true, i, bind.Piece(first), bind.Text("if (f( )) {"), probe(pr))
							if finished(pr) {
								v.run(pr+" before "+first, i, probe(pr), bind.Piece(first))
							}
							for l, a := range bind.Around {
								if !c.Thorough() && (i+j+l+q)%3 != 0 {
									continue
								}
								v.run(pr+" after "+a.Name+"("+first+")", i, a.Wrap(bind.Piece(first)), probe(pr))
								if finished(pr) {
									v.run(first+" "+a.Name+"("+pr+")", i, bind.Piece(first), a.Wrap(probe(pr)))
									v.run(a.Name+"("+first+" "+pr+")", i, a.Wrap(bind.Seq(bind.Piece(first), bind.Text(" "), probe(pr))))
									v.run(a.Name+"("+pr+") "+first, i, a.Wrap(probe(pr)), bind.Piece(first))
								}
							}
						}
						for k, second := range bind.Pieces {
							for l, a := range bind.Around {
								if !c.Thorough() && (i+j+k+l)%14 != 0 {
									continue
								}
								for m, b := range bind.Around {
									pr := probes[(k+l+m)%36]
									v.run(first+" "+a.Name+"("+second+" "+b.Name+"("+pr+"))", i, bind.Piece(first), a.Wrap(bind.Seq(bind.Piece(second), bind.Text(" "), b.Wrap(probe(pr)))))
									v.run(a.Name+"("+first+" "+b.Name+"("+second+") "+pr+")", i, a.Wrap(bind.Seq(bind.Piece(first), bind.Text(" "), b.Wrap(bind.Piece(second)), bind.Text(" "), probe(pr))))
								}
							}
						}
					})
				}
			}
		},
	})
}
