// Package hist replays histories of indexing operations on the real store and compares every
// lookup with a store freshly built from the contents the history ends with.
package hist

import (
	"context"
	"fmt"
	"os"
	"sort"
	"strings"

	"github.com/john-nguyen09/phpintel/analysis"
	"github.com/john-nguyen09/phpintel/internal/lsp/protocol"
	"github.com/john-nguyen09/phpintel/internal/zzverif/hx"
	"github.com/john-nguyen09/phpintel/internal/zzverif/kit"
)

// Versions are the contents files take, by key.
var Versions = map[string]string{
	"e": "<?php\n",
	"cl": `<?php
/** A class. */
class A { const K = 1; const KK = 2; public $p; public $pq; function m() {} static function ms() {} }
`,
	"cm": `<?php


class A extends B { private const K = 'x'; protected static $q = 1; function m2(int $i, $j = 3) {} }
`,
	"if": `<?php
interface A { const K = 1; function m(); }
trait T { public $p; function m() {} }
`,
	"fn": `<?php
function A() {}
/** @deprecated old */
function fooBar(A $a, string ...$b): int {}
class A {}
`,
	"ns": `<?php
namespace N;
class A extends \A { function m() {} }
function A() {}
const A = 1;
`,
	"nm": `<?php
namespace N\M;
class AB { public $p; const K = 5; }
interface IB extends IC {}
function fooBar() {}
`,
	"co": `<?php
const A = 1;
define('A', 2);
define('B_C', 3);
const AB = 'x';
`,
	"gl": `<?php
function g() {
/** @global A $A */
global $A;
/** @global B $AB */
global $AB;
}
`,
	"rf": `<?php
$x = new A();
A::m();
fooBar($x);
A::K;
$x->p; $x->m(); A::$q;
`,
	"rg": `<?php
use N\A;
new A();
N\A();
\A();
class AB extends A { use T; }
fooBar(); $y->p;
`,
	"tr": `<?php
trait A { public $p; function m() {} static function ms() {} }
trait AB { use A; }
`,
	"np": `<?php
namespace M\N;
trait A {} interface AB {} class A {} function A() {} const A = 2;
`,
}

// Keys lists the versions in order.
func Keys() []string {
	var ks []string
	for k := range Versions {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

// Uni is everything a dump asks for.
var Uni = func() hx.Universe {
	u := hx.Universe{
		Members:  []string{"K", "KK", "p", "pq", "q", "m", "ms", "m2"},
		Vars:     []string{"$A", "$AB"},
		Keywords: []string{"", "A", "AB", "B", "fooBar", "bar", "m", "ms", "p", "$p", "$q", "K", "N", "M", "N\\", "N\\M", "N\\A", "C", "T", "I", "M\\N", "\\N\\A"},
		Refs:     []string{"\\A", "\\AB", "\\B", "\\T", "\\N\\A", "\\N\\M\\AB", "\\N\\M\\IB", "\\N\\M\\IC", "\\M\\N\\A", "\\A()", "\\N\\A()", "\\fooBar()", "\\N\\fooBar()", "\\N\\M\\fooBar()", ".p", ".$p", ".m()", ".m", ".K", ".$q", ".pq", ".m2()", ".ms()"},
	}
	for _, n := range []string{"A", "AB", "B", "T", "IB", "IC", "fooBar", "g", "B_C"} {
		for _, ns := range []string{"\\", "\\N\\", "\\N\\M\\", "\\M\\N\\"} {
			for _, x := range []string{n, strings.ToLower(n)} {
				u.Classes = append(u.Classes, ns+x)
			}
			u.Functions = append(u.Functions, ns+n)
			u.Consts = append(u.Consts, ns+n, ns[1:]+n)
		}
	}
	u.Classes = dedup(u.Classes)
	u.Consts = dedup(u.Consts)
	return u
}()

func dedup(in []string) []string {
	seen := map[string]bool{}
	var out []string
	for _, s := range in {
		if !seen[s] {
			seen[s] = true
			out = append(out, s)
		}
	}
	return out
}

// URI of a file.
func URI(f string) string { return hx.Root + "/" + f }

// H is one running history.
type H struct {
	C       *kit.C
	S       *analysis.Store
	FS      *hx.MemFS
	Dir     string
	Disk    map[string]string // file -> version
	Open    map[string]string // file -> version in the editor
	Seen    map[string]string // file -> version the server was told of
	Text    func(version string) string
	scratch string
}

// New starts a history on an empty store.
func New(c *kit.C) *H {
	h := &H{C: c, FS: hx.NewMemFS(), Disk: map[string]string{}, Open: map[string]string{}, Seen: map[string]string{}, scratch: c.Scratch()}
	h.Text = func(v string) string { return Versions[v] }
	h.Dir = hx.Dir(h.scratch)
	h.S = hx.Open(h.FS, h.Dir)
	return h
}

// Done closes and removes the store.
func (h *H) Done() { h.S.Close(); os.RemoveAll(h.Dir) }

var bg = context.Background()

// Do applies one operation; ok is false if it does not apply here.
//
//	i:f:v  the file changes on disk to v and the server is told
//	d:p    the file or directory p is deleted and the server is told
//	o:f e:f:v c:f  the editor opens, edits, closes
//	m:f:v r:f  the file changes or goes while nobody looks
//	x  the folder is indexed, as at start-up
//	R  the server restarts
func (h *H) Do(op string) bool {
	p := strings.Split(op, ":")
	switch p[0] {
	case "i":
		h.Disk[p[1]] = p[2]
		h.FS.Files[URI(p[1])] = h.Text(p[2])
		h.S.CompareAndIndexDocument(bg, URI(p[1]))
		h.Seen[p[1]] = p[2]
	case "d":
		found := false
		for f := range h.Disk {
			if f == p[1] || strings.HasPrefix(f, p[1]+"/") {
				found = true
				if _, open := h.Open[f]; open {
					return false
				}
			}
		}
		if !found {
			return false
		}
		for f := range h.Disk {
			if f == p[1] || strings.HasPrefix(f, p[1]+"/") {
				delete(h.Disk, f)
				delete(h.FS.Files, URI(f))
				delete(h.Seen, f)
			}
		}
		h.S.DeleteDocument(URI(p[1]))
		h.S.DeleteFolder(URI(p[1]))
	case "o":
		v, ok := h.Disk[p[1]]
		if _, open := h.Open[p[1]]; open || !ok {
			return false
		}
		h.S.OpenDocument(URI(p[1]), h.Text(v))
		h.Open[p[1]] = v
		h.Seen[p[1]] = v
	case "e":
		if _, open := h.Open[p[1]]; !open || h.Open[p[1]] == p[2] {
			return false
		}
		d := h.S.GetOrCreateDocument(bg, URI(p[1]))
		if d == nil || !d.IsOpen() {
			h.C.Fail("", "open document %s is gone", p[1])
			return false
		}
		h.S.ChangeDocument(bg, URI(p[1]), []protocol.TextDocumentContentChangeEvent{{Text: h.Text(p[2])}})
		h.Open[p[1]] = p[2]
	case "c":
		if _, open := h.Open[p[1]]; !open {
			return false
		}
		h.S.CloseDocument(bg, URI(p[1]))
		delete(h.Open, p[1])
		if v, ok := h.Disk[p[1]]; ok {
			h.Seen[p[1]] = v
		}
	case "m":
		if h.Disk[p[1]] == p[2] {
			return false
		}
		h.Disk[p[1]] = p[2]
		h.FS.Files[URI(p[1])] = h.Text(p[2])
	case "r":
		if _, ok := h.Disk[p[1]]; !ok {
			return false
		}
		delete(h.Disk, p[1])
		delete(h.FS.Files, URI(p[1]))
	case "x":
		// the folder is indexed at start-up, when no document has been open yet; an open document
		// whose file is gone cannot be there
		for f := range h.Open {
			if _, ok := h.Disk[f]; !ok {
				return false
			}
		}
		h.S.PrepareForIndexing()
		ds, _ := h.FS.ListFiles(bg, hx.Root)
		for _, d := range ds {
			h.S.CompareAndIndexDocument(bg, d.URI)
		}
		h.S.FinishIndexing()
		h.Seen = map[string]string{}
		for f, v := range h.Disk {
			h.Seen[f] = v
		}
	case "R":
		h.S.Close()
		h.S = hx.Open(h.FS, h.Dir)
		for f, v := range h.Open {
			// the editor is gone too: what the index had is the editor's text
			if h.Disk[f] != v {
				h.Seen[f] = v
			}
			delete(h.Open, f)
		}
	default:
		panic("unknown op " + op)
	}
	h.C.Trans(1)
	return true
}

// Contents is what the index must describe.
func (h *H) Contents() map[string]string {
	m := map[string]string{}
	for f, v := range h.Seen {
		m[f] = v
	}
	for f, v := range h.Open {
		m[f] = v
	}
	return m
}

func key(m map[string]string) string {
	var ks []string
	for f, v := range m {
		ks = append(ks, f+"="+v)
	}
	sort.Strings(ks)
	return strings.Join(ks, ",")
}

var cache = map[string]map[string]string{}

// Fresh dumps a store freshly built from the contents.
func (h *H) Fresh(m map[string]string) map[string]string {
	k := key(m)
	if d, ok := cache[k]; ok {
		return d
	}
	s, done := hx.Fresh(hx.NewMemFS(), h.scratch)
	defer done()
	var fs []string
	for f := range m {
		fs = append(fs, f)
	}
	sort.Strings(fs)
	for _, f := range fs {
		hx.Index(s, URI(f), h.Text(m[f]))
	}
	d := hx.Dump(s, Uni)
	if len(cache) > 4000 {
		cache = map[string]map[string]string{}
	}
	cache[k] = d
	return d
}

// Check compares the store with a fresh one.
func (h *H) Check(sub string) bool {
	m := h.Contents()
	h.C.State(key(m))
	got := hx.Dump(h.S, Uni)
	want := h.Fresh(m)
	h.C.Eval(len(got))
	if d := hx.Diff(got, want); d != "" {
		h.C.Fail(sub, "after this history the index should describe {%s}; %s (%d questions differ)", key(m), d, len(hx.DiffKeys(got, want)))
		return false
	}
	return true
}

// Run replays ops and checks at the end; histories with an inapplicable operation are skipped.
func Run(c *kit.C, ops []string) {
	h := New(c)
	defer h.Done()
	for _, o := range ops {
		if !h.Do(o) {
			c.Count("not applicable", 1)
			return
		}
	}
	h.Check("")
}

// Key names a history.
func Key(ops []string) string { return strings.Join(ops, " ") }

// Sequences calls f with every sequence over ops of exactly n.
func Sequences(ops []string, n int, f func([]string)) {
	cur := make([]string, 0, n)
	var rec func()
	rec = func() {
		if len(cur) == n {
			f(append([]string{}, cur...))
			return
		}
		for _, o := range ops {
			cur = append(cur, o)
			rec()
			cur = cur[:len(cur)-1]
		}
	}
	rec()
}

var _ = fmt.Sprint
