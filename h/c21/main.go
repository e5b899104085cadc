// C21: member lookup follows PHP's inheritance and visibility, and always ends.
package main

import (
	"fmt"
	"sort"
	"strings"

	"github.com/john-nguyen09/phpintel/analysis"
	"github.com/john-nguyen09/phpintel/internal/lsp/protocol"
	"github.com/john-nguyen09/phpintel/internal/zzverif/hx"
	"github.com/john-nguyen09/phpintel/internal/zzverif/kit"
	debounce "github.com/john-nguyen09/phpintel/internal/zzverif/mcdebounce"
	"github.com/john-nguyen09/phpintel/internal/zzverif/srv"
)

// decl declares (or not) the member of a type.
type decl struct {
	vis    int // 0 none, 1 public, 2 protected, 3 private
	static bool
}

var visName = []string{"", "public", "protected", "private"}

func (d decl) String() string {
	s := []string{"-", "+", "#", "~"}[d.vis]
	if d.static {
		s += "s"
	}
	return s
}

// typ is a class, interface or trait.
type typ struct {
	name, kind string // "class", "interface", "trait"
	ext        []string
	impl       []string
	uses       []string
	d          decl
	line       int // of its member
}

// world is a hierarchy.
type world struct {
	kind  string // "method", "property", "const"
	types []*typ
	by    map[string]*typ
}

func (w *world) get(n string) *typ { return w.by[n] }

func (w *world) parent(t *typ) *typ {
	if t.kind == "class" && len(t.ext) > 0 {
		return w.get(t.ext[0])
	}
	return nil
}

// own is the declaration that is in the class itself: its own or one of its traits'.
func (w *world) own(t *typ) (decl, *typ) {
	if t.d.vis != 0 {
		return t.d, t
	}
	if w.kind == "const" {
		return decl{}, nil
	}
	for _, u := range t.uses {
		if d, at := w.own(w.get(u)); at != nil {
			return d, at
		}
	}
	return decl{}, nil
}

// subclass: a is b or below it.
func (w *world) subclass(a, b *typ) bool {
	for ; a != nil; a = w.parent(a) {
		if a == b {
			return true
		}
	}
	return false
}

// root is the first class above that declares the member that is not private.
func (w *world) root(t *typ) *typ {
	r := t
	for p := w.parent(t); p != nil; p = w.parent(p) {
		if d, at := w.own(p); at != nil && d.vis != 3 {
			r = p
		}
	}
	return r
}

// interfaces that declare the member, of a class or an interface.
func (w *world) interfaces(t *typ) map[*typ]bool {
	out := map[*typ]bool{}
	for p := t; p != nil; p = w.parent(p) {
		for _, n := range append(append([]string{}, p.impl...), map[bool][]string{true: p.ext}[p.kind == "interface"]...) {
			i := w.get(n)
			if i.d.vis != 0 {
				out[i] = true
				if w.kind == "const" {
					continue
				}
			}
			for x := range w.interfaces(i) {
				out[x] = true
			}
		}
	}
	return out
}

// nested: the line is of a trait that only another trait uses.
func (w *world) nested(line string) bool {
	for _, t := range w.types {
		if t.kind != "trait" || t.d.vis == 0 || fmt.Sprint(t.line) != line {
			continue
		}
		byTrait := false
		for _, u := range w.types {
			for _, n := range u.uses {
				if n == t.name {
					if u.kind != "trait" {
						return false
					}
					byTrait = true
				}
			}
		}
		return byTrait
	}
	return false
}

// fromInterfaces finds the member in the interfaces of a class or an interface.
func (w *world) fromInterfaces(t *typ) *typ {
	for _, n := range append(append([]string{}, t.impl...), map[bool][]string{true: t.ext}[t.kind == "interface"]...) {
		i := w.get(n)
		if i.d.vis != 0 {
			return i
		}
		if x := w.fromInterfaces(i); x != nil {
			return x
		}
	}
	if p := w.parent(t); p != nil {
		return w.fromInterfaces(p)
	}
	return nil
}

// lookup finds the member in the function, property or constant table of a class: its
// declaration, the type holding the text of it, and the class it belongs to.
func (w *world) lookup(t *typ) (d decl, at, class *typ) {
	for p := t; p != nil; p = w.parent(p) {
		if d, at := w.own(p); at != nil {
			if w.kind == "const" && d.vis == 3 && p != t {
				continue
			}
			return d, at, p
		}
	}
	if w.kind != "property" {
		if i := w.fromInterfaces(t); i != nil {
			return i.d, i, i
		}
	}
	return decl{}, nil, nil
}

// valid: PHP accepts the hierarchy.
func (w *world) valid() bool {
	for _, t := range w.types {
		if t.kind != "class" {
			continue
		}
		if w.kind == "const" && len(w.interfaces(t)) > 0 {
			for p := t; p != nil; p = w.parent(p) {
				if p.d.vis != 0 && (p.d.vis != 3 || p == t) {
					return false
				}
			}
		}
		if w.kind == "const" && len(w.interfaces(t)) > 1 {
			return false
		}
		if w.kind == "method" && len(w.interfaces(t)) > 0 {
			if d, at, c := w.lookup(t); at.kind != "interface" && (d.vis != 1 || d.static) && c != nil {
				return false
			}
		}
		d, at := w.own(t)
		if w.kind == "property" && t.d.vis != 0 {
			for _, u := range t.uses {
				if x, at := w.own(w.get(u)); at != nil && x != t.d {
					return false
				}
			}
		}
		if at == nil {
			continue
		}
		for p := w.parent(t); p != nil; p = w.parent(p) {
			pd, pat := w.own(p)
			if pat == nil || pd.vis == 3 {
				continue
			}
			if d.vis > pd.vis || d.static != pd.static {
				return false
			}
		}
	}
	return true
}

const (
	dontcare = "any"
	none     = "none"
)

// expect is what an access from inside a class (nil: outside) gives; form is "->" or "::".
func (w *world) expect(site, target *typ, form string, relative bool) string {
	d, at, class := w.lookup(target)
	if form == "->" && site != nil && site != class && w.subclass(target, site) {
		// a private member of the class the access is in comes first
		if sd, sat := w.own(site); sat != nil && sd.vis == 3 {
			d, at, class = sd, sat, site
		}
	}
	if at == nil {
		return none
	}
	ok := false
	switch d.vis {
	case 1:
		ok = true
	case 2:
		r := class
		if class.kind == "class" {
			r = w.root(class)
		}
		ok = site != nil && (w.subclass(site, r) || w.subclass(r, site))
	case 3:
		ok = site == class
	}
	if !ok {
		return none
	}
	if form == "->" && w.kind == "property" && d.static {
		return dontcare // a notice and an undefined property, but shown on purpose
	}
	if form == "::" && !d.static {
		switch w.kind {
		case "property":
			return none
		case "method":
			if !relative {
				if site != nil && w.subclass(site, target) {
					return dontcare // an instance method of a class above, called by its name
				}
				return none
			}
		}
	}
	if at.kind == "interface" && at != target {
		// which of several abstract declarations is shown does not matter
		var ls []string
		for i := range w.interfaces(target) {
			ls = append(ls, fmt.Sprint(i.line))
		}
		sort.Strings(ls)
		return strings.Join(ls, "|")
	}
	return fmt.Sprint(at.line)
}

func ok(want, got string) bool {
	for _, x := range strings.Split(want, "|") {
		if x == got || x == dontcare {
			return true
		}
	}
	return false
}

// access is one place that accesses the member.
type access struct {
	line, col int
	text      string
	want      string
	name      string
}

type builder struct {
	w     *world
	lines []string
	accs  []access
}

func (b *builder) add(format string, a ...interface{}) int {
	b.lines = append(b.lines, fmt.Sprintf(format, a...))
	return len(b.lines) - 1
}

// sites writes the accesses that can be made in a class, or outside.
func (b *builder) sites(site *typ) {
	var classes []*typ
	var params []string
	for _, t := range b.w.types {
		if t.kind == "class" || t.kind == "interface" {
			classes = append(classes, t)
			params = append(params, fmt.Sprintf("%s $v%s", t.name, t.name))
		}
	}
	where := "outside"
	kw := "function zzOutside"
	if site != nil {
		where = "in " + site.name
		kw = "public function zzSite"
	}
	if n := len(classes); n > 1 {
		params = append(params, "$either")
		b.add("/** @param %s|%s $either */", classes[n-2].name, classes[n-1].name)
	}
	b.add("%s(%s) {", kw, strings.Join(params, ", "))
	one := func(prefix, form string, target *typ, relative bool) {
		text := prefix
		switch {
		case b.w.kind == "method":
			text += "member()"
		case b.w.kind == "property" && form == "->":
			text += "member"
		case b.w.kind == "property":
			text += "$member"
		default:
			text += "MEMBER"
		}
		n := b.add("    %s;", text)
		b.accs = append(b.accs, access{n, 4 + len(prefix) + 3, text, b.w.expect(site, target, form, relative), text + " " + where})
	}
	for _, t := range classes {
		if b.w.kind != "const" && !(t.kind == "interface" && b.w.kind == "property") {
			one("$v"+t.name+"->", "->", t, false)
		}
		if t.kind == "class" || b.w.kind == "const" {
			one(t.name+"::", "::", t, false)
		}
	}
	if n := len(classes) - 1; b.w.kind != "const" && classes[n].kind == "class" && classes[n-1].kind == "class" {
		// an object of either of two classes
		k, l := b.w.expect(site, classes[n-1], "->", false), b.w.expect(site, classes[n], "->", false)
		want := dontcare
		switch {
		case k == dontcare || l == dontcare || strings.Contains(k+l, "|"):
		case k == none || k == l:
			want = l
		case l == none:
			want = k
		default:
			two := []string{k, l}
			sort.Strings(two)
			want = strings.Join(two, ",")
		}
		one("$either->", "->", classes[n], false)
		b.accs[len(b.accs)-1].want = want
	}
	if site != nil && site.kind == "trait" {
		// of the class it will be part of, only what the trait has itself is known
		if site.d.vis != 0 && b.w.kind == "method" {
			one("$this->", "->", site, true)
		}
	} else if site != nil {
		if b.w.kind != "const" {
			one("$this->", "->", site, false)
		}
		one("self::", "::", site, true)
		one("static::", "::", site, true)
		if p := b.w.parent(site); p != nil {
			one("parent::", "::", p, true)
		}
	}
	b.add("}")
}

func (b *builder) text(t *typ) string {
	s := t.kind + " " + t.name
	if len(t.ext) > 0 {
		s += " extends " + strings.Join(t.ext, ", ")
	}
	if len(t.impl) > 0 {
		s += " implements " + strings.Join(t.impl, ", ")
	}
	return s
}

// build writes the text: twice, because what is expected is the lines of the members.
func build(w *world, ns string) *builder {
	once(w, ns)
	return once(w, ns)
}

func once(w *world, ns string) *builder {
	b := &builder{w: w}
	b.add("<?php")
	if ns != "" {
		b.add("namespace %s;", ns)
	}
	for _, t := range w.types {
		b.add("%s {", b.text(t))
		if len(t.uses) > 0 {
			b.add("use %s;", strings.Join(t.uses, ", "))
		}
		if t.d.vis != 0 {
			st := ""
			if t.d.static {
				st = "static "
			}
			switch w.kind {
			case "method":
				body := "{ }"
				if t.kind == "interface" {
					body = ";"
				}
				t.line = b.add("%s %sfunction member()%s", visName[t.d.vis], st, body)
			case "property":
				t.line = b.add("%s %s$member;", visName[t.d.vis], st)
			case "const":
				t.line = b.add("%s const MEMBER = 1;", visName[t.d.vis])
			}
		}
		if t.kind == "class" || t.kind == "trait" && w.kind != "const" {
			b.sites(t)
		}
		b.add("}")
	}
	b.sites(nil)
	return b
}

func (b *builder) finish() string { return strings.Join(b.lines, "\n") + "\n" }

func (w *world) String() string {
	var p []string
	for _, t := range w.types {
		s := t.name + t.d.String()
		for _, e := range t.ext {
			s += "<" + e
		}
		for _, e := range t.impl {
			s += "^" + e
		}
		for _, e := range t.uses {
			s += "%" + e
		}
		p = append(p, s)
	}
	return w.kind + " " + strings.Join(p, " ")
}

func lines(ls []protocol.Location) string {
	m := map[string]bool{}
	var out []string
	for _, l := range ls {
		s := fmt.Sprint(l.Range.Start.Line)
		if !m[s] {
			m[s] = true
			out = append(out, s)
		} else {
			out = append(out, s+" again")
		}
	}
	sort.Strings(out)
	if len(out) == 0 {
		return none
	}
	return strings.Join(out, ",")
}

type checker struct {
	c *kit.C
	s *srv.S
}

func (k *checker) check(w *world, ns string) {
	b := build(w, ns)
	text := b.finish()
	key := w.String()
	if ns != "" {
		key += " in " + ns
	}
	k.c.Eval(len(b.accs))
	k.c.Distinct(key)
	k.s.Change("a.php", text)
	debounce.Take()
	want := "member"
	if w.kind == "const" {
		want = "MEMBER"
	}
	for _, a := range b.accs {
		p := k.s.At("a.php", a.line, a.col)
		for round := 0; round < 2; round++ {
			k.c.SubP(key + " " + a.name)
			ls, err := k.s.Definition(k.s.Ctx, &protocol.DefinitionParams{TextDocumentPositionParams: p})
			if err != nil {
				k.c.Fail(key+" "+a.name, "definition: %v", err)
				break
			}
			if got := lines(ls); got == none && w.nested(a.want) {
				k.c.Fail(key+" definition "+a.name, "a member of a trait that only another trait uses is not found: %s %s", key, a.name)
				break
			} else if !ok(a.want, got) {
				k.c.Fail(key+" definition "+a.name, "%s: %s is declared on line %s, definition says %s; text:\n%s", key, a.name, a.want, got, text)
				break
			}
			h, err := k.s.Hover(k.s.Ctx, &protocol.HoverParams{TextDocumentPositionParams: p})
			if err != nil {
				k.c.Fail(key+" "+a.name, "hover: %v", err)
				break
			}
			if a.want != dontcare && (h != nil && h.Contents.Value != "") != (a.want != none) {
				k.c.Fail(key+" hover "+a.name, "%s: hover over %s, which is on line %s, says %v; text:\n%s", key, a.name, a.want, h, text)
				break
			}
			cl, err := k.s.Completion(k.s.Ctx, &protocol.CompletionParams{TextDocumentPositionParams: p})
			if err != nil {
				k.c.Fail(key+" "+a.name, "completion: %v", err)
				break
			}
			n := 0
			if cl != nil {
				for _, it := range cl.Items {
					if strings.TrimPrefix(it.Label, "$") == want {
						n++
					}
				}
			}
			exp := 1 + strings.Count(a.want, ",")
			if a.want == none {
				exp = 0
			}
			if a.want != dontcare && n != exp && !strings.Contains(a.name, "$this->member() in T") && !strings.Contains(a.name, "$this->member() in U") {
				k.c.Fail(key+" completion "+a.name, "%s: completing %s, which is on line %s, offers it %d times; text:\n%s", key, a.name, a.want, n, text)
				break
			}
		}
	}
}

// lookups on one Query: every sequence of two or three must answer as if each was the first.
var lookupNames = []string{"get member", "get all", "search mem", "search z"}

func lookup(q *analysis.Query, kind string, class *analysis.Class, how string, site string) string {
	var out []string
	acc := &access2{site}
	add := func(name string, l protocol.Location, score int) {
		out = append(out, fmt.Sprintf("%s %d (%d)", name, l.Range.Start.Line, score))
	}
	word := map[string]string{"search mem": "mem", "search z": "z"}[how]
	if kind == "const" && word == "mem" {
		word = "MEM"
	}
	name := ""
	if how == "get member" {
		name = map[string]string{"method": "member", "property": "$member", "const": "MEMBER"}[kind]
	}
	switch kind {
	case "method":
		ms := q.GetClassMethods
		r := analysis.InheritedMethods{}
		if word != "" {
			r = q.SearchClassMethods(class, word, nil)
		} else {
			r = ms(class, name, nil)
		}
		for _, m := range r.ReduceAccess(site, acc) {
			add(m.Method.Name, m.Method.GetLocation(), m.Score)
		}
		for _, m := range r.ReduceStatic(site, acc) {
			add(m.Method.Name, m.Method.GetLocation(), m.Score)
		}
	case "property":
		r := analysis.InheritedProps{}
		if word != "" {
			r = q.SearchClassProps(class, word, nil)
		} else {
			r = q.GetClassProps(class, name, nil)
		}
		for _, m := range r.ReduceAccess(site, acc) {
			add(m.Prop.Name, m.Prop.GetLocation(), m.Score)
		}
		for _, m := range r.ReduceStatic(site, acc) {
			add(m.Prop.Name, m.Prop.GetLocation(), m.Score)
		}
	default:
		r := analysis.InheritedClassConst{}
		if word != "" {
			r = q.SearchClassClassConsts(class, word, nil)
		} else {
			r = q.GetClassClassConsts(class, name, nil)
		}
		for _, m := range r.ReduceStatic(site, acc) {
			add(m.Const.Name, m.Const.GetLocation(), m.Score)
		}
	}
	return strings.Join(out, ", ")
}

// access2 is an access to an instance by a variable.
type access2 struct{ class string }

func (a *access2) GetLocation() protocol.Location      { return protocol.Location{} }
func (a *access2) GetTypes() analysis.TypeComposite    { return analysis.TypeComposite{} }
func (a *access2) Resolve(ctx analysis.ResolveContext) {}
func (a *access2) ScopeName() string                   { return "$x" }
func (a *access2) ScopeTypes() analysis.TypeComposite  { return analysis.TypeComposite{} }

func sameQuery(c *kit.C, w *world, depth int) {
	fs := hx.NewMemFS()
	b := build(w, "")
	text := strings.Replace(b.finish(), "<?php", "<?php class Z { public function zz() {} public $zz; const ZZ = 1; }", 1)
	text = strings.Replace(text, "class K", "class K extends Z", 1)
	s, done := hx.Fresh(fs, c.Scratch())
	defer done()
	hx.Index(s, hx.Root+"/a.php", text)
	q0 := analysis.NewQuery(s)
	classes := map[string]*analysis.Class{}
	var names []string
	for _, t := range w.types {
		if cs := q0.GetClasses("\\" + t.name); len(cs) == 1 {
			classes[t.name] = cs[0]
			names = append(names, t.name)
		}
	}
	type ask struct{ class, how string }
	var asks []ask
	for _, n := range names {
		for _, h := range lookupNames {
			asks = append(asks, ask{n, h})
		}
	}
	fresh := map[ask]string{}
	for _, a := range asks {
		fresh[a] = lookup(analysis.NewQuery(s), w.kind, classes[a.class], a.how, "\\K")
	}
	var seqs func(prefix []ask)
	seqs = func(prefix []ask) {
		if len(prefix) == depth {
			q := analysis.NewQuery(s)
			for i, a := range prefix {
				got := lookup(q, w.kind, classes[a.class], a.how, "\\K")
				if got != fresh[a] {
					c.Fail(fmt.Sprint(w, prefix[:i+1]), "%s: %v of one query gives %q, first of a query %q", w, prefix[:i+1], got, fresh[a])
					return
				}
			}
			c.Eval(1)
			return
		}
		for _, a := range asks {
			seqs(append(prefix[:len(prefix):len(prefix)], a))
		}
	}
	seqs(nil)
}

func mk(kind string, ts ...*typ) *world {
	w := &world{kind: kind, types: ts, by: map[string]*typ{}}
	for _, t := range ts {
		w.by[t.name] = t
	}
	return w
}

func cl(n string, d decl, ext ...string) *typ { return &typ{name: n, kind: "class", d: d, ext: ext} }

func decls(kind string) []decl {
	out := []decl{{}, {1, false}, {2, false}, {3, false}}
	if kind != "const" {
		out = append(out, decl{1, true}, decl{2, true}, decl{3, true})
	}
	return out
}

// worlds enumerates the hierarchies.
func worlds(kind string, thorough bool, f func(w *world)) {
	add := func(w *world) {
		if w.valid() {
			f(w)
		}
	}
	ds := decls(kind)
	for _, a := range ds {
		for _, b := range ds {
			for _, c := range ds {
				add(mk(kind, cl("K", a), cl("L", b, "K"), cl("S", c, "K")))
				add(mk(kind, cl("K", a), cl("L", b, "K"), cl("M", c, "L")))
				if kind == "const" {
					continue
				}
				add(mk(kind, &typ{name: "T", kind: "trait", d: a}, cl("K", b), &typ{name: "L", kind: "class", d: c, ext: []string{"K"}, uses: []string{"T"}}))
				add(mk(kind, &typ{name: "T", kind: "trait", d: a}, &typ{name: "K", kind: "class", d: b, uses: []string{"T"}}, cl("L", c, "K")))
				add(mk(kind, &typ{name: "U", kind: "trait", d: a}, &typ{name: "T", kind: "trait", d: b, uses: []string{"U"}}, &typ{name: "K", kind: "class", uses: []string{"T"}, d: c}, cl("L", decl{}, "K")))
			}
		}
	}
	for _, a := range ds[:4] {
		for _, b := range ds[:4] {
			for _, c := range ds[:4] {
				for _, d := range ds[:4] {
					add(mk(kind, cl("K", a), cl("L", b, "K"), cl("M", c, "L"), cl("N", d, "M")))
				}
			}
		}
	}
	if kind == "property" {
		return
	}
	pub := []decl{{}, {1, false}}
	for _, i := range pub {
		for _, j := range pub {
			for _, k := range ds {
				for _, l := range ds {
					add(mk(kind, &typ{name: "I", kind: "interface", d: i}, &typ{name: "J", kind: "interface", d: j, ext: []string{"I"}},
						&typ{name: "K", kind: "class", d: k, impl: []string{"J"}}, cl("L", l, "K")))
					add(mk(kind, &typ{name: "I", kind: "interface", d: i}, &typ{name: "J", kind: "interface", d: j},
						cl("K", k), &typ{name: "L", kind: "class", d: l, ext: []string{"K"}, impl: []string{"I", "J"}}))
					add(mk(kind, &typ{name: "I", kind: "interface", d: i}, &typ{name: "J", kind: "interface", d: j},
						&typ{name: "K", kind: "class", d: k, impl: []string{"I"}}, &typ{name: "L", kind: "class", d: l, ext: []string{"K"}, impl: []string{"J"}}))
				}
			}
		}
	}
	// the same interface reached over two paths
	for _, i := range pub {
		for _, j := range pub {
			for _, m := range pub {
				for _, k := range pub {
					add(mk(kind, &typ{name: "I", kind: "interface", d: i}, &typ{name: "J", kind: "interface", d: j, ext: []string{"I"}},
						&typ{name: "M", kind: "interface", d: m, ext: []string{"I"}}, &typ{name: "X", kind: "interface", ext: []string{"J", "M"}},
						&typ{name: "K", kind: "class", d: k, impl: []string{"X"}}))
					add(mk(kind, &typ{name: "I", kind: "interface", d: i}, &typ{name: "J", kind: "interface", d: j, ext: []string{"I"}},
						&typ{name: "M", kind: "interface", d: m, ext: []string{"I", "J"}},
						&typ{name: "K", kind: "class", d: k, impl: []string{"J", "M"}}))
					add(mk(kind, &typ{name: "I", kind: "interface", d: i}, &typ{name: "J", kind: "interface", d: j, ext: []string{"I"}},
						&typ{name: "K", kind: "class", d: k, impl: []string{"J"}}, &typ{name: "L", kind: "class", d: m, ext: []string{"K"}, impl: []string{"I"}}))
				}
			}
		}
	}
}

// cycles: hierarchies PHP does not accept; every request must end, and say the same twice.
func cycles(k *checker) {
	names := []string{"A", "B", "C"}
	opts := append([]string{""}, names...)
	for _, kind := range []string{"class", "interface", "trait", "mixed"} {
		for _, a := range opts {
			for _, b := range opts {
				for _, d := range opts {
					ext := []string{a, b, d}
					text := "<?php\n"
					for i, n := range names {
						e := ext[i]
						switch kind {
						case "class", "interface":
							if e != "" {
								e = " extends " + e
							}
							text += kind + " " + n + e + " { public function f" + n + "() {} const K" + n + " = 1; }\n"
						case "trait":
							if e != "" {
								e = "use " + e + ";"
							}
							text += "trait " + n + " { " + e + " public $p" + n + "; public function f" + n + "() {} }\n"
						case "mixed":
							if e != "" {
								e = " extends " + e + " implements " + e
							}
							text += "class " + n + e + " { use A; public $p" + n + "; public function f" + n + "() {} const K" + n + " = 1; }\ninterface " + n + strings.Replace(e, "implements", ",", 1) + " {}\ntrait " + n + " { use A, B; }\n"
						}
					}
					if kind == "trait" {
						text += "class X { use A; }\n"
					}
					n := strings.Count(text, "\n")
					text += "function f(A $a, X $x) {\n$a->fC();\n$a->pC;\nA::fC();\nA::KC;\n$x->fC();\nX::fC();\n}\n"
					key := kind + " " + strings.Join(ext, ",")
					k.c.SubP(key)
					k.c.Eval(1)
					k.s.Change("a.php", text)
					debounce.Take()
					for l := 1; l <= 6; l++ {
						first := ""
						for round := 0; round < 2; round++ {
							p := k.s.At("a.php", n+l, 5)
							ls, err := k.s.Definition(k.s.Ctx, &protocol.DefinitionParams{TextDocumentPositionParams: p})
							h, err2 := k.s.Hover(k.s.Ctx, &protocol.HoverParams{TextDocumentPositionParams: p})
							c, err3 := k.s.Completion(k.s.Ctx, &protocol.CompletionParams{TextDocumentPositionParams: p})
							if err != nil || err2 != nil || err3 != nil {
								k.c.Fail(key, "%s line %d: %v %v %v", key, l, err, err2, err3)
								return
							}
							s := fmt.Sprint(ls)
							if h != nil {
								s += h.Contents.Value
							}
							if c != nil {
								s += fmt.Sprint(len(c.Items))
							}
							if round == 1 && s != first {
								k.c.Fail(key, "%s line %d: %s, asked again %s", key, l, first, s)
							}
							first = s
						}
					}
				}
			}
		}
	}
}

func main() {
	kit.Main(kit.Check{
		ID:          "C21",
		Level:       "model_checking",
		Rule:        "a case is a part of the hierarchies of classes, interfaces and traits in which one member is declared or not, with every visibility, static or not, in each of the types; in every class and outside, every kind of access to it is written, and definition, hover and completion must give the declaration that PHP's rules give, or nothing; cyclic hierarchies must only end and answer the same twice; every sequence of three lookups on one query answers as three queries do",
		Assumptions: []string{"hierarchies PHP refuses (narrowed visibility and the like) are only in the cyclic part", "an instance method of a class above called by the class's name, and a static property of an instance, are not judged"},
		HangSeconds: 60,
		Bounds: func(t bool) string {
			return "5 shapes of 3 types over 7 declarations, chains of 4 classes, 3 shapes of 2 interfaces and 2 classes, 3 shapes in which an interface is reached over two paths; with and without a namespace; all extends-graphs of 3 types"
		},
		Enumerate: func(e *kit.Enum) {
			for _, kind := range []string{"method", "property", "const"} {
				for _, ns := range []string{"", "App\\Model"} {
					var ws []*world
					worlds(kind, e.Thorough, func(w *world) { ws = append(ws, w) })
					const n = 40
					for i := 0; i < len(ws); i += n {
						j := i + n
						if j > len(ws) {
							j = len(ws)
						}
						part := ws[i:j]
						ns := ns
						e.Case(fmt.Sprintf("%s %s %d", kind, ns, i/n), func(c *kit.C) {
							s := srv.Start(c.Scratch(), map[string]string{"a.php": "<?php\n"})
							defer s.Stop()
							s.Open("a.php")
							for _, w := range part {
								(&checker{c, s}).check(w, ns)
							}
							c.Sample(part[0].String())
						})
					}
				}
			}
			for _, kind := range []string{"method", "property", "const"} {
				ws := []*world{
					mk(kind, cl("K", decl{1, false}), cl("L", decl{1, false}, "K"), cl("S", decl{}, "K")),
					mk(kind, cl("K", decl{2, true}), cl("L", decl{}, "K"), cl("M", decl{2, true}, "L")),
					mk(kind, &typ{name: "T", kind: "trait", d: decl{1, true}}, &typ{name: "K", kind: "class", uses: []string{"T"}}, cl("L", decl{3, true}, "K")),
					mk(kind, &typ{name: "I", kind: "interface", d: decl{1, false}}, &typ{name: "K", kind: "class", impl: []string{"I"}}, &typ{name: "L", kind: "class", impl: []string{"I"}, ext: []string{"K"}, d: decl{1, false}}),
				}
				for i, w := range ws {
					if kind == "property" && i == 3 || kind == "const" && i >= 2 {
						continue
					}
					w := w
					e.Case("one query "+w.String(), func(c *kit.C) { sameQuery(c, w, 3) })
				}
			}
			e.Case("cycles", func(c *kit.C) {
				s := srv.Start(c.Scratch(), map[string]string{"a.php": "<?php\n"})
				defer s.Stop()
				s.Open("a.php")
				cycles(&checker{c, s})
			})
		},
	})
}
