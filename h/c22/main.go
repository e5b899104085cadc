// C22: no PHP text makes a handler crash or hang.
package main

import (
	"fmt"
	"runtime"
	"sort"
	"strings"

	"github.com/john-nguyen09/phpintel/internal/lsp/protocol"
	"github.com/john-nguyen09/phpintel/internal/zzverif/corpus"
	"github.com/john-nguyen09/phpintel/internal/zzverif/kit"
	debounce "github.com/john-nguyen09/phpintel/internal/zzverif/mcdebounce"
	"github.com/john-nguyen09/phpintel/internal/zzverif/ref"
	"github.com/john-nguyen09/phpintel/internal/zzverif/srv"
)

// tokens are the pieces of the texts of the second part.
var tokens = []string{"a", "A", "$a", "$this", "self", "parent", "static", "->", "::", "::class", "?->", "\\", "(", ")", "[", "]", "{", "}", ";", ",", "=", "=>", "&", "...", "|", "?", ":", "'x'", "'", "\"", "\"{$a", "1", "new ", "class ", "interface ", "trait ", "extends ", "implements ", "function ", "fn", "abstract ", "public ", "const ", "use ", "namespace ", "return ", "global ", "foreach", "as ", "instanceof ", "try", "catch", "define", "array", "list", "echo ", "/** ", "/** @var ", "@param ", "@return ", "@method ", "@property ", "@global ", "@deprecated", "@author ", "*/", "/*", "//", "#", "?>", "<?php ", "<?=", "<<<A\n", "<<<'A'\n", "\nA;\n", "\n", "é"}

type item struct{ kind, text string }

func panicSite() string {
	pc := make([]uintptr, 40)
	n := runtime.Callers(3, pc)
	fs := runtime.CallersFrames(pc[:n])
	var out []string
	for {
		f, more := fs.Next()
		fn := f.Function
		if i := strings.LastIndex(fn, "/"); i >= 0 {
			fn = fn[i+1:]
		}
		if !strings.HasPrefix(fn, "runtime.") && !strings.Contains(fn, "main.") && len(out) < 3 {
			out = append(out, fn)
		}
		if !more {
			return strings.Join(out, " < ")
		}
	}
}

type asker struct {
	c    *kit.C
	s    *srv.S
	sub  string
	text string
	seen map[string]bool
	bad  bool
}

func (a *asker) try(what string, f func()) {
	defer func() {
		if r := recover(); r != nil {
			m := fmt.Sprintf("%v at %s", r, panicSite())
			a.bad = true
			if !a.seen[m] {
				a.seen[m] = true
				a.c.Fail(a.sub, "%s of %q panics: %s", what, a.text, m)
			}
		}
	}()
	a.c.SubP(a.sub)
	a.c.Trans(1)
	f()
}

func positions(text string, all bool) []ref.Pos {
	ps := ref.Positions(text, true)
	if all || len(ps) == 0 {
		return ps
	}
	return ps[len(ps)-1:]
}

func (a *asker) at(p ref.Pos) {
	s, x := a.s, a.s.At("a.php", p.L, p.C)
	at := fmt.Sprintf(" at %d:%d", p.L, p.C)
	a.try("completion"+at, func() {
		s.Completion(s.Ctx, &protocol.CompletionParams{TextDocumentPositionParams: x})
	})
	a.try("hover"+at, func() { s.Hover(s.Ctx, &protocol.HoverParams{TextDocumentPositionParams: x}) })
	a.try("signature help"+at, func() {
		s.SignatureHelp(s.Ctx, &protocol.SignatureHelpParams{TextDocumentPositionParams: x})
	})
	a.try("definition"+at, func() { s.Definition(s.Ctx, &protocol.DefinitionParams{TextDocumentPositionParams: x}) })
	a.try("references"+at, func() { s.References(s.Ctx, &protocol.ReferenceParams{TextDocumentPositionParams: x}) })
	a.try("rename"+at, func() {
		s.Rename(s.Ctx, &protocol.RenameParams{TextDocument: x.TextDocument, Position: x.Position, NewName: "$zz"})
	})
}

// ask makes the text the content of the open document and sends every request.
func (a *asker) ask(text string, all bool) bool {
	a.text, a.bad = text, false
	a.c.Eval(1)
	a.c.State(text)
	a.try("change to", func() { a.s.Change("a.php", text) })
	if a.bad {
		return false
	}
	for _, f := range debounce.Take() {
		a.try("delayed diagnostics", f)
	}
	a.try("document symbols", func() {
		p := &protocol.DocumentSymbolParams{}
		p.TextDocument.URI = a.s.URI("a.php")
		a.s.DocumentSymbol(a.s.Ctx, p)
	})
	a.try("signatures of the document", func() {
		a.s.DocumentSignatures(a.s.Ctx, &protocol.TextDocumentIdentifier{URI: a.s.URI("a.php")})
	})
	for _, q := range []string{"a", "A\\"} {
		a.try("workspace symbols", func() { a.s.Symbol(a.s.Ctx, &protocol.WorkspaceSymbolParams{Query: q}) })
	}
	for _, p := range positions(text, all) {
		a.at(p)
	}
	return true
}

// start starts a server whose document a.php is open.
func start(c *kit.C) *asker {
	a := &asker{c: c, seen: map[string]bool{}}
	a.s = srv.Start(c.Scratch(), map[string]string{"a.php": "<?php\n"})
	a.s.Write("b.php", "<?php class A extends B { public $p; static function m($x) { return $this; } const K = 1; } interface B extends A {} trait T { use T; } function a(A $x, $y = 1) {} const C = 1;")
	a.s.Open("b.php")
	a.s.Open("a.php")
	debounce.Take()
	return a
}

func main() {
	kit.Main(kit.Check{
		ID:          "C22",
		Level:       "model_checking",
		Rule:        "Every prefix and every one-token deletion of every text of a corpus (the project's own test inputs among them), and every sequence of tokens up to a length, is made the content of an open document of the real server, and every kind of request is sent at every position (at the end only for prefixes and the longest sequences); no handler may panic or fail to return.",
		Assumptions: []string{"A handler that makes no progress for the check's hang limit is reported as hanging; the limit is far above any handler's time on these texts."},
		HangSeconds: 60,
		Bounds: func(thorough bool) string {
			if thorough {
				return fmt.Sprintf("token sequences of length 3 over %d tokens, all positions; all prefixes and deletions, all positions", len(tokens))
			}
			return fmt.Sprintf("token sequences of length 2 over %d tokens, all positions; all prefixes of the corpus, last position; all one-token deletions of the small texts", len(tokens))
		},
		Enumerate: enumerate,
	})
}

func chunk(e *kit.Enum, name string, n int, texts []string, all bool) {
	for i := 0; i < len(texts); i += n {
		j := i + n
		if j > len(texts) {
			j = len(texts)
		}
		part := texts[i:j]
		e.Case(fmt.Sprintf("%s %d", name, i/n), func(c *kit.C) {
			a := start(c)
			defer func() { a.s.Stop() }()
			for k, t := range part {
				a.sub = fmt.Sprint(k)
				if !a.ask(t, all) {
					a.s.Stop()
					seen := a.seen
					a = start(c)
					a.seen = seen
				}
			}
		})
	}
}

func enumerate(e *kit.Enum) {
	var seqs []string
	for _, x := range tokens {
		seqs = append(seqs, "<?php "+x)
		for _, y := range tokens {
			seqs = append(seqs, "<?php "+x+y)
		}
	}
	chunk(e, "pairs", 300, seqs, true)
	seqs = nil
	for _, x := range tokens {
		seqs = append(seqs, "<?php class A extends B { "+x, "<?php class A extends B { function m() { $x = new A; $x"+x, "<?php function f(A $p) { foreach ($p"+x, "<?php\n/** "+x, "<?php\nnamespace N;\nuse A\\B;\nclass C { /** "+x+" */ public $p;", x, "<?php a("+x, "<?php "+x+" }", "<?php "+x+";\nclass A {}\n$a->b();")
	}
	chunk(e, "contexts", 100, seqs, true)
	seqs = nil
	for _, x := range corpus.Unfinished {
		for _, y := range []string{"", ";", "class", " A", "\n\nclass B {}\n", "{", "}", ")", "::", "/** @author x */ class B {}\n", "/** @method m($x = ["} {
			seqs = append(seqs, "<?php "+x+y)
		}
	}
	chunk(e, "unfinished", 100, seqs, true)
	cs := corpus.Texts()
	var ks []string
	for k := range cs {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		t := cs[k]
		chunk(e, "whole "+k, 1, []string{t}, true)
		r := []rune(t)
		var pre []string
		for i := range r {
			pre = append(pre, string(r[:i]))
		}
		chunk(e, "prefixes "+k, 400, pre, e.Thorough)
		if e.Thorough || strings.HasPrefix(k, "x-") {
			ws := pieces(t)
			var del []string
			for i := range ws {
				del = append(del, strings.Join(append(append([]string{}, ws[:i]...), ws[i+1:]...), ""))
			}
			chunk(e, "deletions "+k, 40, del, true)
		}
	}
	if e.Thorough {
		for _, x := range tokens {
			var s3 []string
			for _, y := range tokens {
				for _, z := range tokens {
					s3 = append(s3, "<?php "+x+y+z)
				}
			}
			chunk(e, "triples "+x, 1000, s3, true)
		}
	}
}

// pieces cuts a text into words and single other characters.
func pieces(t string) (out []string) {
	w := ""
	for _, r := range t {
		if r == '_' || r == '$' || r >= '0' && r <= '9' || r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' {
			w += string(r)
			continue
		}
		if w != "" {
			out = append(out, w)
			w = ""
		}
		out = append(out, string(r))
	}
	if w != "" {
		out = append(out, w)
	}
	return out
}
