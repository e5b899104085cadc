// C18: searching finds every symbol by any prefix of any word of its name, within the limits asked for.
package main

import (
	"context"
	"fmt"
	"sort"
	"strings"
	"unicode"

	"github.com/john-nguyen09/phpintel/analysis"
	"github.com/john-nguyen09/phpintel/internal/lsp/protocol"
	"github.com/john-nguyen09/phpintel/internal/zzverif/hx"
	"github.com/john-nguyen09/phpintel/internal/zzverif/kit"
	"github.com/john-nguyen09/phpintel/internal/zzverif/srv"
)

// words of a name: split at underscores and where the kind of characters changes, except that a
// single capital belongs to the lower case that follows it.
func words(name string) []string {
	kind := func(r rune) int {
		switch {
		case unicode.IsUpper(r):
			return 2
		case unicode.IsDigit(r):
			return 3
		}
		return 1
	}
	var out []string
	for _, part := range strings.Split(name, "_") {
		rs := []rune(part)
		var w []rune
		for i, r := range rs {
			if i > 0 && kind(rs[i-1]) != kind(r) {
				if kind(rs[i-1]) == 2 && kind(r) == 1 {
					if len(w) > 1 {
						out = append(out, string(w[:len(w)-1]))
					}
					w = w[len(w)-1:]
				} else {
					out = append(out, string(w))
					w = nil
				}
			}
			w = append(w, r)
		}
		if len(w) > 0 {
			out = append(out, string(w))
		}
	}
	return out
}

// found is one search result.
type found struct{ name, scope, id string }

type search struct {
	kind string
	decl func(name string) string // declares a symbol of that name
	f    func(s *analysis.Store, scope, kw string, o analysis.SearchOptions) ([]found, analysis.SearchResult)
}

func id(l protocol.Location) string {
	return fmt.Sprintf("%s %d:%d", l.URI, l.Range.Start.Line, l.Range.Start.Character)
}

func join(scope, kw string) string {
	switch scope {
	case "":
		return kw
	case "\\":
		return "\\" + kw
	}
	return scope + "\\" + kw
}

var searches = []search{
	{"class", func(n string) string { return "class " + n + " {}" }, func(s *analysis.Store, sc, kw string, o analysis.SearchOptions) (out []found, r analysis.SearchResult) {
		xs, r := s.SearchClasses(join(sc, kw), o)
		for _, x := range xs {
			out = append(out, found{x.Name.GetOriginal(), x.Name.GetNamespace(), id(x.GetLocation())})
		}
		return out, r
	}},
	{"interface", func(n string) string { return "interface " + n + " {}" }, func(s *analysis.Store, sc, kw string, o analysis.SearchOptions) (out []found, r analysis.SearchResult) {
		xs, r := s.SearchInterfaces(join(sc, kw), o)
		for _, x := range xs {
			out = append(out, found{x.Name.GetOriginal(), x.Name.GetNamespace(), id(x.GetLocation())})
		}
		return out, r
	}},
	{"trait", func(n string) string { return "trait " + n + " {}" }, func(s *analysis.Store, sc, kw string, o analysis.SearchOptions) (out []found, r analysis.SearchResult) {
		xs, r := s.SearchTraits(join(sc, kw), o)
		for _, x := range xs {
			out = append(out, found{x.Name.GetOriginal(), x.Name.GetNamespace(), id(x.GetLocation())})
		}
		return out, r
	}},
	{"function", func(n string) string { return "function " + n + "() {}" }, func(s *analysis.Store, sc, kw string, o analysis.SearchOptions) (out []found, r analysis.SearchResult) {
		xs, r := s.SearchFunctions(join(sc, kw), o)
		for _, x := range xs {
			out = append(out, found{x.Name.GetOriginal(), x.Name.GetNamespace(), id(x.GetLocation())})
		}
		return out, r
	}},
	{"const", func(n string) string { return "const " + n + " = 1;" }, func(s *analysis.Store, sc, kw string, o analysis.SearchOptions) (out []found, r analysis.SearchResult) {
		xs, r := s.SearchConsts(join(sc, kw), o)
		for _, x := range xs {
			out = append(out, found{x.Name.GetOriginal(), x.Name.GetNamespace(), id(x.GetLocation())})
		}
		return out, r
	}},
	{"define", func(n string) string { return "define('" + n + "', 1);" }, func(s *analysis.Store, sc, kw string, o analysis.SearchOptions) (out []found, r analysis.SearchResult) {
		xs, r := s.SearchDefines(join(sc, kw), o)
		for _, x := range xs {
			out = append(out, found{x.Name.GetOriginal(), x.Name.GetNamespace(), id(x.GetLocation())})
		}
		return out, r
	}},
	{"method", func(n string) string { return "class Holder { function " + n + "() {} }" }, func(s *analysis.Store, sc, kw string, o analysis.SearchOptions) (out []found, r analysis.SearchResult) {
		xs, r := s.SearchMethods(sc, kw, o)
		for _, x := range xs {
			out = append(out, found{x.Name, x.GetScope(), id(x.GetLocation())})
		}
		return out, r
	}},
	{"property", func(n string) string { return "class Holder { public $" + n + "; }" }, func(s *analysis.Store, sc, kw string, o analysis.SearchOptions) (out []found, r analysis.SearchResult) {
		xs, r := s.SearchProperties(sc, kw, o)
		for _, x := range xs {
			out = append(out, found{strings.TrimPrefix(x.Name, "$"), x.GetScope(), id(x.GetLocation())})
		}
		return out, r
	}},
	{"class constant", func(n string) string { return "class Holder { const " + n + " = 1; }" }, func(s *analysis.Store, sc, kw string, o analysis.SearchOptions) (out []found, r analysis.SearchResult) {
		xs, r := s.SearchClassConsts(sc, kw, o)
		for _, x := range xs {
			out = append(out, found{x.Name, x.GetScope(), id(x.GetLocation())})
		}
		return out, r
	}},
	{"namespace", func(n string) string { return "namespace " + n + ";" }, func(s *analysis.Store, sc, kw string, o analysis.SearchOptions) (out []found, r analysis.SearchResult) {
		xs, r := s.SearchNamespaces(join(sc, kw), o)
		for _, x := range xs {
			out = append(out, found{strings.TrimPrefix(x, "\\"), "", x})
		}
		return out, r
	}},
}

// fold is how declarations compete in one file: case does not count.
func names(alpha []string, n int) (out []string) {
	var rec func(p string, n int)
	rec = func(p string, n int) {
		if p != "" {
			out = append(out, p)
		}
		if n == 0 {
			return
		}
		for _, a := range alpha {
			if p == "" && (a == "1" || a[0] > 127) { // the parser library splits a first letter outside ASCII
				continue
			}
			rec(p+a, n-1)
		}
	}
	rec("", n)
	return out
}

func matches(name, kw string) bool {
	k := strings.ToLower(kw)
	for _, w := range append(words(name), name, strings.Trim(name, "_")) {
		if strings.HasPrefix(strings.ToLower(w), k) {
			return true
		}
	}
	return false
}

// related tells whether the name has anything to do with the keyword.
func related(name, kw string) bool {
	n := strings.ToLower(name)
	for _, w := range append(words(kw), kw, strings.Trim(kw, "_")) {
		if strings.Contains(n, strings.ToLower(w)) {
			return true
		}
	}
	return false
}

func prefixes(c *kit.C, sr search, ns []string) {
	s, done := hx.Fresh(hx.NewMemFS(), c.Scratch())
	defer done()
	if sr.kind == "namespace" && strings.Contains(c.Key, "é") {
		return
	}
	// the letter case decides on the file, so that no two declarations of a file are the same
	files := map[string]int{}
	ids := map[string]string{}
	for _, n := range ns {
		l := strings.ToLower(n)
		uri := fmt.Sprintf("file:///w/f%d.php", files[l])
		if sr.kind == "namespace" || strings.HasPrefix(sr.decl("x"), "class Holder") {
			uri = fmt.Sprintf("file:///w/f%d.php", len(files)*100+files[l])
		}
		files[l]++
		ids[n] = uri
	}
	docs := map[string]string{}
	for _, n := range ns {
		docs[ids[n]] += "\n" + sr.decl(n)
	}
	var us []string
	for u := range docs {
		us = append(us, u)
	}
	sort.Strings(us)
	for _, u := range us {
		d := analysis.NewDocument(u, []byte("<?php"+docs[u]+"\n"))
		d.Load()
		s.SyncDocument(d)
	}
	kws := map[string]bool{}
	for _, n := range ns {
		for _, w := range append(words(n), n, strings.Trim(n, "_")) {
			rs := []rune(w)
			for i := 1; i <= len(rs); i++ {
				p := string(rs[:i])
				kws[p] = true
				kws[strings.ToLower(p)] = true
				kws[strings.ToUpper(p)] = true
			}
		}
	}
	for kw := range kws {
		got, r := sr.f(s, "", kw, analysis.NewSearchOptions())
		c.Eval(1)
		c.Trans(len(got))
		c.State(sr.kind + " " + kw)
		have := map[string]int{}
		for _, g := range got {
			have[g.name]++
			if have[g.name] == 2 {
				c.Fail("", "searching %s %q returns %q twice", sr.kind, kw, g.name)
			}
			if !related(g.name, kw) {
				c.Fail("", "searching %s %q returns %q", sr.kind, kw, g.name)
			}
		}
		if !r.IsComplete {
			c.Fail("", "searching %s %q without a limit is incomplete", sr.kind, kw)
		}
		for _, n := range ns {
			if have[n] == 0 && matches(n, kw) {
				c.Fail("", "searching %s %q does not find %q (words %q)", sr.kind, kw, n, words(n))
			}
		}
	}
}

// corpus of the second part: the same names in several scopes and files.
var corpus = map[string]string{
	"a.php": "abOne abTwo AbThree one_ab Other",
	"b.php": "N;abOne abTwo one_ab Zed",
	"c.php": "N\\M;abOne abFour",
	"d.php": "NX;abOne abTwo",
	"e.php": "N;abFive abOne",
}

func limits(c *kit.C, sr search) {
	s, done := hx.Fresh(hx.NewMemFS(), c.Scratch())
	defer done()
	for f, t := range corpus {
		text := "<?php\n"
		prefix := ""
		if i := strings.IndexByte(t, ';'); i >= 0 {
			if sr.kind == "define" {
				// What define declares does not depend on the namespace it is in
				prefix = strings.ReplaceAll(t[:i]+"\\", "\\", "\\\\")
			}
			if sr.kind != "namespace" {
				text += "namespace " + t[:i+1] + "\n"
			}
			t = t[i+1:]
		}
		for i, n := range strings.Fields(t) {
			n = prefix + n
			d := sr.decl(n)
			d = strings.Replace(d, "class Holder", fmt.Sprintf("class Holder%d", i%2), 1)
			text += d + "\n"
		}
		d := analysis.NewDocument("file:///w/"+f, []byte(text))
		d.Load()
		s.SyncDocument(d)
	}
	scopes := []string{"", "\\", "\\N", "\\N\\M", "\\NX", "\\None"}
	member := strings.HasPrefix(sr.decl("x"), "class Holder")
	if member {
		scopes = []string{"", "\\Holder0", "\\Holder1", "\\N\\Holder0", "\\N\\Holder1", "\\Holder", "\\n\\None"}
	}
	if sr.kind == "namespace" {
		scopes = []string{""}
	}
	for _, scope := range scopes {
		for _, kw := range []string{"", "a", "ab", "AB", "abo", "one", "ONE", "zed", "o", "two", "x", "_", "abOne"} {
			if kw == "" && (scope == "" || member) {
				continue
			}
			all, _ := sr.f(s, scope, kw, analysis.NewSearchOptions())
			seen := map[string]bool{}
			for _, g := range all {
				if seen[g.name+g.scope+g.id] {
					c.Fail("", "searching %s %q in %q returns %v twice", sr.kind, kw, scope, g)
				}
				seen[g.name+g.scope+g.id] = true
				if scope != "" && g.scope != scope {
					c.Fail("", "searching %s %q in %q returns %v", sr.kind, kw, scope, g)
				}
				if kw != "" && !related(g.name, kw) {
					c.Fail("", "searching %s %q in %q returns %v", sr.kind, kw, scope, g)
				}
			}
			n := 0
			for f, t := range corpus {
				ns := "\\"
				if i := strings.IndexByte(t, ';'); i >= 0 {
					ns, t = "\\"+t[:i], t[i+1:]
				}
				for i, name := range strings.Fields(t) {
					sc := ns
					if member {
						sc = strings.TrimSuffix(ns, "\\") + fmt.Sprintf("\\Holder%d", i%2)
					}
					if (scope == "" || sc == scope) && matches(name, kw) {
						n++
						ok := false
						for _, g := range all {
							ok = ok || g.name == name && (sr.kind == "namespace" || strings.Contains(g.id, f))
						}
						if !ok {
							c.Fail("", "searching %s %q in %q does not find %s of %s", sr.kind, kw, scope, name, f)
						}
					}
				}
			}
			for limit := 0; limit <= len(all)+2; limit++ {
				for pred := 0; pred < 3; pred++ {
					o := analysis.NewSearchOptions().WithLimit(limit)
					want := all
					even := func(x analysis.Symbol) bool { return x.GetLocation().Range.Start.Line%2 == 0 }
					if pred > 0 && sr.kind != "namespace" {
						o = o.WithPredicate(even)
						if pred > 1 {
							o = o.WithPredicate(func(x analysis.Symbol) bool { return !strings.Contains(x.GetLocation().URI, "b.php") })
						}
						want = nil
						for _, g := range all {
							var l int
							fmt.Sscanf(g.id[strings.IndexByte(g.id, ' ')+1:], "%d", &l)
							if l%2 == 0 && (pred < 2 || !strings.Contains(g.id, "b.php")) {
								want = append(want, g)
							}
						}
					}
					got, r := sr.f(s, scope, kw, o)
					c.Eval(1)
					c.Trans(len(got))
					in := map[string]int{}
					for _, w := range want {
						in[w.id+w.name]++
					}
					for _, g := range got {
						if in[g.id+g.name]--; in[g.id+g.name] < 0 {
							c.Fail("", "searching %s %q in %q with limit %d and %d restrictions returns %v", sr.kind, kw, scope, limit, pred, g)
						}
					}
					w := len(want)
					if limit < w {
						w = limit
					}
					if len(got) != w {
						c.Fail("", "searching %s %q in %q with limit %d and %d restrictions returns %d of %d results", sr.kind, kw, scope, limit, pred, len(got), len(want))
					}
					if r.IsComplete != (len(want) <= limit) {
						c.Fail("", "searching %s %q in %q with limit %d and %d restrictions: complete is %v with %d of %d results", sr.kind, kw, scope, limit, pred, r.IsComplete, len(got), len(want))
					}
				}
			}
		}
	}
}

// asked sends completion and workspace symbol requests around the server's limit.
func asked(c *kit.C, n map[string]int, inNS bool) {
	text, total, tail := "<?php\n", 0, ""
	if inNS {
		text += "namespace N;\n"
	}
	for _, k := range []string{"class", "interface", "trait", "function", "const", "define"} {
		for i := 0; i < n[k]; i++ {
			for _, sr := range searches {
				if sr.kind == k {
					text += sr.decl(fmt.Sprintf("zq%s%d", k[:2], i)) + "\n"
				}
			}
		}
		if k != "trait" {
			total += n[k]
		}
	}
	word := "zq"
	if inNS {
		tail = "namespace N;\n"
	}
	s := srv.Start(c.Scratch(), map[string]string{"a.php": text, "b.php": "<?php\n" + tail + word + "\n"})
	defer s.Stop()
	s.Open("a.php")
	s.Open("b.php")
	line := 1
	if inNS {
		line = 2
	}
	r, err := s.Completion(s.Ctx, &protocol.CompletionParams{TextDocumentPositionParams: s.At("b.php", line, len(word))})
	c.Eval(1)
	if err != nil || r == nil {
		c.Fail("", "completion fails: %v", err)
		return
	}
	c.Trans(len(r.Items))
	const limit = 1000
	want := total
	if want > limit {
		want = limit
	}
	if len(r.Items) != want || r.IsIncomplete != (total > limit) {
		c.Fail("", "completion gives %d items of %d, incomplete %v", len(r.Items), total, r.IsIncomplete)
	}
	seen := map[string]bool{}
	for _, it := range r.Items {
		if seen[it.Label] {
			c.Fail("", "completion gives %s twice", it.Label)
		}
		seen[it.Label] = true
	}
	syms, err := s.Symbol(s.Ctx, &protocol.WorkspaceSymbolParams{Query: "zq"})
	total += n["trait"]
	want = total
	if want > limit {
		want = limit
	}
	if err != nil || len(syms) != want {
		c.Fail("", "workspace symbols: %d of %d (%v)", len(syms), total, err)
	}
	_ = context.Background
}

func main() {
	kit.Main(kit.Check{
		ID:          "C18",
		Level:       "model_checking",
		Rule:        "a case is a set of names of one kind, or a kind with scopes, keywords, limits and restrictions; every keyword that is a prefix of a word of one of the names, in three letter cases, is searched, and the results are compared with a reference that splits and compares names itself",
		Assumptions: []string{"a word ends at an underscore and where small letters, capitals and digits change, except that the last of several capitals begins the word of the small letters after it; the name as a whole counts as a word"},
		HangSeconds: 120,
		Bounds: func(t bool) string {
			if t {
				return "all names of up to 6 characters over {a, b, A, _, 1} and of up to 4 over {a, B, é, É, 1, _}, 10 kinds; limits 0 to results+2"
			}
			return "all names of up to 4 characters over {a, b, A, _, 1} and of up to 3 over {a, B, é, É, 1, _}, 10 kinds; limits 0 to results+2"
		},
		Enumerate: func(e *kit.Enum) {
			n, m := 4, 3
			if e.Thorough {
				n, m = 6, 4
			}
			for ai, alpha := range [][]string{{"a", "b", "A", "_", "1"}, {"a", "B", "é", "É", "1", "_"}} {
				l := n
				if ai == 1 {
					l = m
				}
				ns := names(alpha, l)
				for _, sr := range searches {
					for i := 0; i < len(ns); i += 100 {
						j := i + 100
						if j > len(ns) {
							j = len(ns)
						}
						part := ns[i:j]
						sr := sr
						e.Case(fmt.Sprintf("prefixes %s %d.%d", sr.kind, ai, i/100), func(c *kit.C) { prefixes(c, sr, part) })
					}
				}
			}
			for _, sr := range searches {
				sr := sr
				e.Case("limits "+sr.kind, func(c *kit.C) { limits(c, sr) })
			}
			for _, k := range []string{"class", "interface", "function", "const", "define"} {
				for _, k2 := range []string{"", "class", "interface", "function", "const", "define"} {
					for _, a := range []int{999, 1000, 1001} {
						for _, ns := range []bool{false, true} {
							m := map[string]int{k: a}
							if k2 != "" && k2 != k {
								m[k2] = 1
							} else if k2 != "" {
								continue
							}
							ns := ns
							e.Case(fmt.Sprintf("server %s %d + %s namespace %v", k, a, k2, ns), func(c *kit.C) { asked(c, m, ns) })
						}
					}
				}
			}
		},
	})
}
