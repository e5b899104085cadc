// Package hx drives the analysis store of the code under test.
package hx

import (
	"context"
	"errors"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"github.com/davecgh/go-spew/spew"
	"github.com/john-nguyen09/phpintel/analysis"
	"github.com/john-nguyen09/phpintel/internal/lsp/protocol"
	"github.com/syndtr/goleveldb/leveldb/opt"
)

// A smaller buffer makes opening an index cheap (the default is cleared on every opening).
func init() { opt.DefaultWriteBuffer = 64 << 10 }

// MemFS is a file system in memory, keyed by URI.
type MemFS struct {
	Files map[string]string
	Reads []string
}

// NewMemFS makes an empty file system.
func NewMemFS() *MemFS { return &MemFS{Files: map[string]string{}} }

// ConvertToURI implements protocol.FS.
func (f *MemFS) ConvertToURI(u string) string { return u }

// ReadFile implements protocol.FS.
func (f *MemFS) ReadFile(ctx context.Context, uri string) ([]byte, error) {
	f.Reads = append(f.Reads, uri)
	if t, ok := f.Files[uri]; ok {
		return []byte(t), nil
	}
	return nil, errors.New("no such file " + uri)
}

// ListFiles implements protocol.FS.
func (f *MemFS) ListFiles(ctx context.Context, base string) ([]protocol.TextDocumentIdentifier, error) {
	var out []protocol.TextDocumentIdentifier
	for u := range f.Files {
		if strings.HasPrefix(u, base) {
			out = append(out, protocol.TextDocumentIdentifier{URI: u})
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].URI < out[j].URI })
	return out, nil
}

// Root is the URI of the workspace folder used by most harnesses.
const Root = "file:///w"

var seq int

// Dir makes a fresh directory below scratch.
func Dir(scratch string) string {
	seq++
	d := filepath.Join(scratch, fmt.Sprintf("st%d", seq))
	os.RemoveAll(d)
	return d
}

// Open opens a store.
func Open(fs protocol.FS, dir string) *analysis.Store {
	s, err := analysis.NewStore(fs, Root, dir)
	if err != nil {
		panic(fmt.Sprintf("NewStore: %v", err))
	}
	return s
}

// Fresh opens a new store in a fresh directory; call the returned function when done.
func Fresh(fs protocol.FS, scratch string) (*analysis.Store, func()) {
	d := Dir(scratch)
	s := Open(fs, d)
	return s, func() { s.Close(); os.RemoveAll(d) }
}

// Index indexes a text as the given document.
func Index(s *analysis.Store, uri, text string) *analysis.Document {
	d := analysis.NewDocument(uri, []byte(text))
	d.Load()
	s.SyncDocument(d)
	return d
}

var cfg = spew.ConfigState{Indent: " ", SortKeys: true, DisablePointerAddresses: true, DisableMethods: true, DisableCapacities: true, SpewKeys: true}

// Deep prints a value canonically.
func Deep(v interface{}) string { return cfg.Sdump(v) }

// Universe is the set of names a dump asks for.
type Universe struct {
	Classes, Functions, Consts, Members, Vars, Keywords, Refs []string
}

// Dump asks the store everything about the universe and returns a canonical answer per question.
func Dump(s *analysis.Store, u Universe) map[string]string {
	out := map[string]string{}
	add := func(q string, items []string, ordered bool) {
		if len(items) == 0 {
			return
		}
		if !ordered {
			sort.Strings(items)
		}
		out[q] = strings.Join(items, "\n")
	}
	strs := func(n int, f func(i int) interface{}) []string {
		r := make([]string, n)
		for i := range r {
			r[i] = Deep(f(i))
		}
		return r
	}
	for _, c := range u.Classes {
		x := s.GetClasses(c)
		add("class "+c, strs(len(x), func(i int) interface{} { return x[i] }), false)
		y := s.GetInterfaces(c)
		add("interface "+c, strs(len(y), func(i int) interface{} { return y[i] }), false)
		z := s.GetTraits(c)
		add("trait "+c, strs(len(z), func(i int) interface{} { return z[i] }), false)
		m := s.GetAllMethods(c)
		add("methods of "+c, strs(len(m), func(i int) interface{} { return m[i] }), false)
		p := s.GetAllProperties(c)
		add("properties of "+c, strs(len(p), func(i int) interface{} { return p[i] }), false)
		k := s.GetAllClassConsts(c)
		add("constants of "+c, strs(len(k), func(i int) interface{} { return k[i] }), false)
		for _, n := range u.Members {
			m := s.GetMethods(c, n)
			add("method "+c+"::"+n, strs(len(m), func(i int) interface{} { return m[i] }), false)
			p := s.GetProperties(c, "$"+n)
			add("property "+c+"::$"+n, strs(len(p), func(i int) interface{} { return p[i] }), false)
			k := s.GetClassConsts(c, n)
			add("constant "+c+"::"+n, strs(len(k), func(i int) interface{} { return k[i] }), false)
		}
	}
	for _, f := range u.Functions {
		x := s.GetFunctions(f)
		add("function "+f, strs(len(x), func(i int) interface{} { return x[i] }), false)
	}
	for _, f := range u.Consts {
		x := s.GetConsts(f)
		add("const "+f, strs(len(x), func(i int) interface{} { return x[i] }), false)
		y := s.GetDefines(f)
		add("define "+f, strs(len(y), func(i int) interface{} { return y[i] }), false)
	}
	for _, v := range u.Vars {
		x := s.GetGlobalVariables(v)
		add("global "+v, strs(len(x), func(i int) interface{} { return x[i] }), false)
	}
	for _, k := range u.Keywords {
		o := analysis.NewSearchOptions
		{
			x, r := s.SearchClasses(k, o())
			add(fmt.Sprintf("search class %q %v", k, r), strs(len(x), func(i int) interface{} { return x[i] }), false)
		}
		{
			x, r := s.SearchInterfaces(k, o())
			add(fmt.Sprintf("search interface %q %v", k, r), strs(len(x), func(i int) interface{} { return x[i] }), false)
		}
		{
			x, r := s.SearchTraits(k, o())
			add(fmt.Sprintf("search trait %q %v", k, r), strs(len(x), func(i int) interface{} { return x[i] }), false)
		}
		{
			x, r := s.SearchFunctions(k, o())
			add(fmt.Sprintf("search function %q %v", k, r), strs(len(x), func(i int) interface{} { return x[i] }), false)
		}
		{
			x, r := s.SearchConsts(k, o())
			add(fmt.Sprintf("search const %q %v", k, r), strs(len(x), func(i int) interface{} { return x[i] }), false)
		}
		{
			x, r := s.SearchDefines(k, o())
			add(fmt.Sprintf("search define %q %v", k, r), strs(len(x), func(i int) interface{} { return x[i] }), false)
		}
		{
			x, r := s.SearchMethods("", k, o())
			add(fmt.Sprintf("search method %q %v", k, r), strs(len(x), func(i int) interface{} { return x[i] }), false)
		}
		if k != "" {
			x, r := s.SearchProperties("", k, o())
			add(fmt.Sprintf("search property %q %v", k, r), strs(len(x), func(i int) interface{} { return x[i] }), false)
			y, r := s.SearchClassConsts("", k, o())
			add(fmt.Sprintf("search class const %q %v", k, r), strs(len(y), func(i int) interface{} { return y[i] }), false)
		}
		x, r := s.SearchNamespaces(k, o())
		add(fmt.Sprintf("search namespace %q %v", k, r), append([]string{}, x...), false)
	}
	for _, r := range u.Refs {
		x := s.GetReferences(r)
		var ls []string
		for _, l := range x {
			ls = append(ls, Loc(l))
		}
		add("references of "+r, ls, false)
	}
	return out
}

// Loc prints a location.
func Loc(l protocol.Location) string { return l.URI + " " + Rng(l.Range) }

// Rng prints a range.
func Rng(r protocol.Range) string {
	return fmt.Sprintf("%d:%d-%d:%d", r.Start.Line, r.Start.Character, r.End.Line, r.End.Character)
}

// Diff returns the first difference between two dumps, or "".
func Diff(got, want map[string]string) string {
	var ks []string
	for k := range got {
		ks = append(ks, k)
	}
	for k := range want {
		if _, ok := got[k]; !ok {
			ks = append(ks, k)
		}
	}
	sort.Strings(ks)
	for _, k := range ks {
		if got[k] != want[k] {
			return fmt.Sprintf("%s: %s", k, Short(got[k], want[k]))
		}
	}
	return ""
}

// DiffKeys returns every differing question.
func DiffKeys(got, want map[string]string) []string {
	var ks []string
	for k := range got {
		if got[k] != want[k] {
			ks = append(ks, k)
		}
	}
	for k := range want {
		if _, ok := got[k]; !ok {
			ks = append(ks, k)
		}
	}
	sort.Strings(ks)
	return ks
}

// Short shows the first differing line of two texts.
func Short(got, want string) string {
	if got == "" {
		return "nothing found, want " + head(want)
	}
	if want == "" {
		return "found " + head(got) + ", want nothing"
	}
	g, w := strings.Split(got, "\n"), strings.Split(want, "\n")
	for i := 0; i < len(g) && i < len(w); i++ {
		if g[i] != w[i] {
			return fmt.Sprintf("got %q, want %q (line %d)", strings.TrimSpace(g[i]), strings.TrimSpace(w[i]), i)
		}
	}
	return fmt.Sprintf("got %d lines, want %d lines", len(g), len(w))
}

func head(s string) string {
	s = strings.Join(strings.Fields(s), " ")
	if len(s) > 160 {
		s = s[:160] + "..."
	}
	return s
}
