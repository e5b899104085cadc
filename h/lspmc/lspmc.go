// Package lspmc runs the real language server, workers and all, under the schedule explorer:
// a script of notifications is sent, and after everything has come to rest the indexes that
// the server leaves on disk are compared with fresh ones of the contents they should describe.
package lspmc

import (
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"net/url"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"

	"github.com/john-nguyen09/phpintel/analysis"
	"github.com/john-nguyen09/phpintel/internal/lsp"
	"github.com/john-nguyen09/phpintel/internal/lsp/protocol"
	"github.com/john-nguyen09/phpintel/internal/zzverif/hx"
	debounce "github.com/john-nguyen09/phpintel/internal/zzverif/mcdebounce"
	"github.com/john-nguyen09/phpintel/internal/zzverif/mcrt"
	"github.com/john-nguyen09/phpintel/util"
	homedir "github.com/mitchellh/go-homedir"
)

// Texts are the contents that scripts use.
var Texts = map[string]string{
	"1": "<?php class A { function m() {} }\n",
	"2": "<?php class B { public $p; } new A();\n",
	"3": "<?php namespace N; function f() {} f();\n",
	"4": "<?php interface A {} trait B {} $x = new B(); A::K;\n",
	"0": "",
}

// Uni is what indexes are asked for.
var Uni = hx.Universe{
	Classes:   []string{"\\A", "\\a", "\\B", "\\b"},
	Functions: []string{"\\N\\f"},
	Members:   []string{"m", "p"},
	Keywords:  []string{"A", "B", "f", "N", "m", "$p"},
	Refs:      []string{"\\A", "\\B", "\\N\\f()", ".K"},
}

type stream struct {
	mu     sync.Mutex
	in     chan []byte
	closed chan struct{}
	n      map[string]int
	// ask answers the server's requests for the files of the client.
	ask func(method string, params json.RawMessage) (interface{}, error)
}

func (s *stream) Read(ctx context.Context) ([]byte, int64, error) {
	select {
	case b := <-s.in:
		return b, int64(len(b)), nil
	case <-s.closed:
		return nil, 0, errors.New("closed")
	}
}

func (s *stream) Write(ctx context.Context, b []byte) (int64, error) {
	var m struct {
		ID     json.RawMessage
		Method string
		Params json.RawMessage
	}
	if err := json.Unmarshal(b, &m); err != nil {
		panic(err)
	}
	s.mu.Lock()
	s.n[m.Method]++
	s.mu.Unlock()
	if m.ID != nil && (m.Method == "workspace/xfiles" || m.Method == "textDocument/xcontent") {
		r, err := s.ask(m.Method, m.Params)
		a := map[string]interface{}{"jsonrpc": "2.0", "id": m.ID}
		if err != nil {
			a["error"] = map[string]interface{}{"code": -32603, "message": err.Error()}
		} else {
			a["result"] = r
		}
		j, err := json.Marshal(a)
		if err != nil {
			panic(err)
		}
		s.in <- j
		return int64(len(b)), nil
	}
	if m.Method != "" && m.ID != nil {
		s.in <- []byte(fmt.Sprintf(`{"jsonrpc":"2.0","id":%s,"result":null}`, m.ID))
	}
	return int64(len(b)), nil
}

// Session is a running server and what it should know.
type Session struct {
	*lsp.Server
	Ctx  context.Context
	Base string
	*Model
	// Remote is set to a scheme when the files are not on disk: the server has to ask the client for them.
	Remote string
	// Styles are the ways of writing URIs that notifications use in turn.
	Styles string
	said   int
	cancel func()
	st     *stream
	idle   []string
}

// Path of a file or folder below Base.
func (s *Session) Path(rel string) string { return filepath.Join(s.Base, "ws", rel) }

// URI of a file or folder, as editors write it.
func (s *Session) URI(rel string) string { return s.scheme() + Escape(s.Path(rel)) }

func (s *Session) scheme() string {
	if s.Remote == "" || s.Remote == "file" {
		return "file://"
	}
	return s.Remote + "://host"
}

// rel is the file that a URI of the server refers to.
func (s *Session) rel(uri string) (string, bool) {
	p, err := url.PathUnescape(uri)
	pre := s.scheme() + s.Path("") + "/"
	if err != nil || !strings.HasPrefix(p, pre) {
		return "", false
	}
	return p[len(pre):], true
}

// client answers as an editor that provides the files.
func (s *Session) client(method string, params json.RawMessage) (interface{}, error) {
	var p struct {
		Base         string
		TextDocument struct{ URI string }
	}
	if err := json.Unmarshal(params, &p); err != nil {
		panic(err)
	}
	if method == "workspace/xfiles" {
		d, ok := s.rel(p.Base)
		fs, _ := s.files(d)
		if !ok {
			return nil, fmt.Errorf("there is no %s", p.Base)
		}
		l := []interface{}{}
		for _, f := range fs {
			l = append(l, map[string]string{"uri": s.say(f)})
		}
		return l, nil
	}
	f, ok := s.rel(p.TextDocument.URI)
	v, found := s.Disk[f]
	if !ok || !found {
		return nil, fmt.Errorf("there is no %s", p.TextDocument.URI)
	}
	return map[string]interface{}{"uri": p.TextDocument.URI, "languageId": "php", "version": 1, "text": Texts[v]}, nil
}

// remoteFS reads what the client would provide.
type remoteFS struct{ s *Session }

func (r remoteFS) ConvertToURI(uri string) string { return uri }
func (r remoteFS) ListFiles(context.Context, string) ([]protocol.TextDocumentIdentifier, error) {
	return nil, nil
}
func (r remoteFS) ReadFile(ctx context.Context, uri string) ([]byte, error) {
	f, ok := r.s.rel(uri)
	v, found := r.s.Disk[f]
	if !ok || !found {
		return nil, fmt.Errorf("there is no %s", uri)
	}
	return []byte(Texts[v]), nil
}

func (s *Session) fs() protocol.FS {
	if s.Remote != "" {
		return remoteFS{s}
	}
	return protocol.NewFileFS()
}

// say is the URI that the next notification uses for a file or folder.
func (s *Session) say(rel string) string {
	if len(s.Styles) == 0 || s.scheme() != "file://" {
		return s.URI(rel)
	}
	st := s.Styles[s.said%len(s.Styles)]
	s.said++
	return "file://" + EscapeStyle(s.Path(rel), st)
}

// EscapeStyle escapes a path in one of the ways of editors: 'c' as VS Code, 'l' as VS Code with lower-case digits,
// 'm' only what has to be, 'a' whatever is no letter.
func EscapeStyle(p string, style byte) string {
	var b strings.Builder
	for i := 0; i < len(p); i++ {
		c := p[i]
		alnum := '0' <= c && c <= '9' || 'a' <= c && c <= 'z' || 'A' <= c && c <= 'Z'
		raw := c == '/' || alnum
		switch style {
		case 'c', 'l':
			raw = raw || strings.IndexByte("-_.~", c) >= 0
		case 'm':
			raw = raw || strings.IndexByte("-_.~!$&'()*+,;=:@", c) >= 0
		}
		if raw {
			b.WriteByte(c)
		} else if style == 'l' {
			fmt.Fprintf(&b, "%%%02x", c)
		} else {
			fmt.Fprintf(&b, "%%%02X", c)
		}
	}
	return b.String()
}

// Escape escapes a path as VS Code does.
func Escape(p string) string {
	var b strings.Builder
	for i := 0; i < len(p); i++ {
		c := p[i]
		if c == '/' || c == '-' || c == '_' || c == '.' || c == '~' || '0' <= c && c <= '9' || 'a' <= c && c <= 'z' || 'A' <= c && c <= 'Z' {
			b.WriteByte(c)
		} else {
			fmt.Fprintf(&b, "%%%02X", c)
		}
	}
	return b.String()
}

func (s *Session) mkdir(d string) {
	if s.Remote == "" {
		os.MkdirAll(s.Path(d), 0o755)
	}
}

func (s *Session) write(f, v string) {
	if s.Remote != "" {
		return
	}
	p := s.Path(f)
	os.MkdirAll(filepath.Dir(p), 0o755)
	if err := os.WriteFile(p, []byte(Texts[v]), 0o644); err != nil {
		panic(err)
	}
}

// Start starts a server on the folders (ops "+ x") and the files given ("f=v"). When settle is set, the first
// indexing is done, by one schedule, before Start returns.
func Start(base string, folders []string, files []string, settle bool) *Session {
	return StartRemote(base, "", "", folders, files, settle)
}

// StartRemote starts a server whose client provides the files, by URIs of the scheme.
func StartRemote(base, remote, styles string, folders []string, files []string, settle bool) *Session {
	debounce.Take()
	for _, d := range []string{"ws", "home"} {
		os.RemoveAll(filepath.Join(base, d))
		os.MkdirAll(filepath.Join(base, d), 0o755)
	}
	os.Setenv("HOME", filepath.Join(base, "home"))
	homedir.DisableCache = true
	s := &Session{Base: base, Model: NewModel(folders, files), Remote: remote, Styles: styles}
	for f, v := range s.Disk {
		s.write(f, v)
	}
	for f := range s.Folders {
		s.mkdir(f)
	}
	s.start(settle)
	return s
}

// FolderList are the folders in the order of their names.
func (m *Model) FolderList() (fs []string) {
	for f := range m.Folders {
		fs = append(fs, f)
	}
	sort.Strings(fs)
	return
}

func (s *Session) start(settle bool) {
	s.st = &stream{in: make(chan []byte, 1000), closed: make(chan struct{}), n: map[string]int{}, ask: s.client}
	ctx, cancel := context.WithCancel(context.Background())
	s.cancel = cancel
	mcrt.Quiet(true)
	ctx, s.Server = lsp.NewServer(ctx, s.st)
	s.Ctx = ctx
	go s.Server.Run(ctx)
	p := &protocol.InitializeParams{}
	p.Capabilities.XContentProvider, p.Capabilities.XFilesProvider = s.Remote != "", s.Remote != ""
	for _, f := range s.FolderList() {
		p.WorkspaceFolders = append(p.WorkspaceFolders, protocol.WorkspaceFolder{URI: s.URI(f), Name: f})
	}
	if _, err := s.Server.Initialize(ctx, p); err != nil {
		panic(err)
	}
	mcrt.Settle()
	s.idle = mcrt.Waiting()
	if !settle {
		mcrt.Quiet(false)
	}
	if err := s.Server.Initialized(ctx, &protocol.InitializedParams{}); err != nil {
		panic(err)
	}
	if settle {
		mcrt.Settle()
		mcrt.Quiet(false)
	}
}

func (s *Session) stop() {
	s.Server.Shutdown(s.Ctx)
	s.cancel()
	close(s.st.closed)
}

func (s *Session) event(f string, t protocol.FileChangeType) {
	s.Server.DidChangeWatchedFiles(s.Ctx, &protocol.DidChangeWatchedFilesParams{Changes: []protocol.FileEvent{{URI: s.say(f), Type: t}}})
}

// Below tells whether f is d or below it.
func Below(f, d string) bool { return d == "." || f == d || strings.HasPrefix(f, d+"/") }

// Model is what is known about the files, open documents and folders.
type Model struct {
	Disk map[string]string // file -> version
	Open map[string]string
	// Folders are the workspace folders, below Base.
	Folders map[string]bool
	// Down is set while no server runs.
	Down bool
}

// NewModel makes a model.
func NewModel(folders, files []string) *Model {
	m := &Model{Disk: map[string]string{}, Open: map[string]string{}, Folders: map[string]bool{}}
	for _, f := range folders {
		m.Folders[f] = true
	}
	for _, f := range files {
		i := strings.LastIndexByte(f, '=')
		m.Disk[f[:i]] = f[i+1:]
	}
	return m
}

// Clone copies the model.
func (m *Model) Clone() *Model {
	n := NewModel(nil, nil)
	for k, v := range m.Disk {
		n.Disk[k] = v
	}
	for k, v := range m.Open {
		n.Open[k] = v
	}
	for k, v := range m.Folders {
		n.Folders[k] = v
	}
	n.Down = m.Down
	return n
}

func (m *Model) files(d string) (fs []string, open bool) {
	for f := range m.Disk {
		if Below(f, d) {
			_, o := m.Open[f]
			open = open || o
			fs = append(fs, f)
		}
	}
	for f := range m.Open {
		open = open || Below(f, d)
	}
	sort.Strings(fs)
	return
}

// Apply carries out an operation; it returns false, and changes nothing, when it does not apply.
func (m *Model) Apply(op string) bool {
	p := Split(op)
	if m.Down != (p[0] == "^" || p[0] == "w." || p[0] == "d.") {
		return false
	}
	v, onDisk := "", false
	o, open := "", false
	if len(p) > 1 {
		v, onDisk = m.Disk[p[1]]
		o, open = m.Open[p[1]]
	}
	switch p[0] {
	case "w", "wD", "w.":
		if onDisk && v == p[2] || p[0] == "wD" && onDisk {
			return false
		}
		m.Disk[p[1]] = p[2]
	case "w-":
		if !open || v == p[2] {
			return false
		}
		m.Disk[p[1]] = p[2]
	case "d", "d.", "mv":
		fs, op := m.files(p[1])
		if op || len(fs) == 0 {
			return false
		}
		if p[0] == "mv" {
			if t, _ := m.files(p[2]); len(t) > 0 {
				return false
			}
		}
		for _, f := range fs {
			if p[0] == "mv" {
				m.Disk[p[2]+strings.TrimPrefix(f, p[1])] = m.Disk[f]
			}
			delete(m.Disk, f)
		}
	case "n":
		return onDisk
	case "o":
		if len(p) > 2 {
			v, onDisk = p[2], true
		}
		if open || !onDisk {
			return false
		}
		m.Open[p[1]] = v
	case "e":
		if !open || o == p[2] {
			return false
		}
		m.Open[p[1]] = p[2]
	case "s":
		if !open || v == o {
			return false
		}
		m.Disk[p[1]] = o
	case "c":
		delete(m.Open, p[1])
		return open
	case "+":
		if m.Folders[p[1]] {
			return false
		}
		m.Folders[p[1]] = true
	case "-":
		if !m.Folders[p[1]] {
			return false
		}
		delete(m.Folders, p[1])
	case "~", "?":
	case "!":
		if len(m.Open) > 0 {
			return false
		}
		m.Down = true
	case "^":
		m.Down = false
	default:
		panic("op " + op)
	}
	return true
}

// Split splits an operation into its words; "_" within a word stands for a space.
func Split(op string) []string {
	p := strings.Split(op, " ")
	for i := range p {
		p[i] = strings.ReplaceAll(p[i], "_", " ")
	}
	return p
}

// Scripts are all sequences of 1 to n operations that apply.
func Scripts(m *Model, alphabet []string, n int) (out [][]string) {
	var walk func(m *Model, pre []string)
	walk = func(m *Model, pre []string) {
		for _, o := range alphabet {
			if x := m.Clone(); x.Apply(o) {
				sc := append(append([]string{}, pre...), o)
				if !x.Down {
					out = append(out, sc)
				}
				if len(sc) < n {
					walk(x, sc)
				}
			}
		}
	}
	walk(m, nil)
	sort.SliceStable(out, func(i, j int) bool { return len(out[i]) < len(out[j]) })
	return
}

// Do performs one operation; it returns false when it does not apply.
func (s *Session) Do(op string) bool {
	old := s.Model.Clone()
	if !s.Model.Apply(op) {
		return false
	}
	p := Split(op)
	switch p[0] {
	case "w": // the file is written and the editor reports it
		t := protocol.Changed
		if _, ok := old.Disk[p[1]]; !ok {
			t = protocol.Created
		}
		s.write(p[1], p[2])
		s.event(p[1], t)
	case "wD": // the file is written in a new directory and the editor reports that
		s.write(p[1], p[2])
		s.event(filepath.Dir(p[1]), protocol.Created)
	case "w-", "w.": // the file is written (while it is open, or no server runs); the editor says nothing
		s.write(p[1], p[2])
	case "d": // a file or folder is deleted and the editor reports that
		os.RemoveAll(s.Path(p[1]))
		s.event(p[1], protocol.Deleted)
	case "d.":
		os.RemoveAll(s.Path(p[1]))
	case "mv": // a folder or file is moved
		if s.Remote == "" {
			os.MkdirAll(filepath.Dir(s.Path(p[2])), 0o755)
			os.Remove(s.Path(p[2]))
			if err := os.Rename(s.Path(p[1]), s.Path(p[2])); err != nil {
				panic(err)
			}
		}
		s.Server.DidChangeWatchedFiles(s.Ctx, &protocol.DidChangeWatchedFilesParams{Changes: []protocol.FileEvent{
			{URI: s.say(p[2]), Type: protocol.Created}, {URI: s.say(p[1]), Type: protocol.Deleted}}})
	case "n": // the editor reports a file again
		s.event(p[1], protocol.Changed)
	case "o": // open, with the text on disk or another
		s.Server.DidOpen(s.Ctx, &protocol.DidOpenTextDocumentParams{TextDocument: protocol.TextDocumentItem{URI: s.say(p[1]), LanguageID: "php", Version: 1, Text: Texts[s.Open[p[1]]]}})
	case "e":
		// only what follows the open tag is replaced
		from, to := Texts[old.Open[p[1]]], Texts[p[2]]
		r := &protocol.Range{}
		if from != "" && to != "" {
			r.Start.Character, to = 6, to[6:]
		}
		r.End.Line = strings.Count(from, "\n")
		c := &protocol.DidChangeTextDocumentParams{ContentChanges: []protocol.TextDocumentContentChangeEvent{{Range: r, Text: to}}}
		c.TextDocument.URI = s.say(p[1])
		s.Server.DidChange(s.Ctx, c)
	case "s": // saved
		s.write(p[1], s.Open[p[1]])
		s.event(p[1], protocol.Changed)
	case "c":
		s.Server.DidClose(s.Ctx, &protocol.DidCloseTextDocumentParams{TextDocument: protocol.TextDocumentIdentifier{URI: s.say(p[1])}})
	case "+":
		s.mkdir(p[1])
		s.Server.DidChangeWorkspaceFolders(s.Ctx, &protocol.DidChangeWorkspaceFoldersParams{Event: protocol.WorkspaceFoldersChangeEvent{
			Added: []protocol.WorkspaceFolder{{URI: s.say(p[1]), Name: p[1]}}}})
	case "-":
		s.Server.DidChangeWorkspaceFolders(s.Ctx, &protocol.DidChangeWorkspaceFoldersParams{Event: protocol.WorkspaceFoldersChangeEvent{
			Removed: []protocol.WorkspaceFolder{{URI: s.say(p[1]), Name: p[1]}}}})
	case "~": // everything comes to rest
		mcrt.Settle()
	case "!": // the server is stopped when everything is at rest
		mcrt.Settle()
		mcrt.Quiet(true)
		s.stop()
		mcrt.Quiet(false)
	case "^": // another one is started
		s.start(false)
	case "?": // the editor asks about a file
		s.Server.DocumentSymbol(s.Ctx, &protocol.DocumentSymbolParams{TextDocument: protocol.TextDocumentIdentifier{URI: s.say(p[1])}})
	}
	return true
}

// Owner is the innermost folder holding f, "" for none.
func (s *Session) Owner(f string) string {
	best := ""
	for d := range s.Folders {
		if Below(f, d) && len(d) > len(best) {
			best = d
		}
	}
	return best
}

// Contents are the versions that the index of a folder should describe.
func (s *Session) Contents(folder string) map[string]string {
	m := map[string]string{}
	for f, v := range s.Disk {
		if strings.HasSuffix(f, ".php") && s.Owner(f) == folder {
			m[f] = v
		}
	}
	for f, v := range s.Open {
		if s.Owner(f) == folder {
			m[f] = v
		}
	}
	return m
}

// Key prints contents.
func Key(m map[string]string) string {
	var l []string
	for f, v := range m {
		l = append(l, f+"="+v)
	}
	sort.Strings(l)
	return strings.Join(l, " ")
}

var cache = map[string]map[string]string{}

func (s *Session) fresh(folder string, m map[string]string) map[string]string {
	k := s.scheme() + s.Base + " " + folder + ": " + Key(m)
	if d, ok := cache[k]; ok {
		return d
	}
	dir := filepath.Join(s.Base, "fresh")
	os.RemoveAll(dir)
	defer os.RemoveAll(dir)
	st, err := analysis.NewStore(s.fs(), s.URI(folder), dir)
	if err != nil {
		panic(err)
	}
	defer st.Close()
	st.LoadStubs()
	for f, v := range m {
		hx.Index(st, s.URI(f), Texts[v])
	}
	d := hx.Dump(st, Uni)
	cache[k] = d
	return d
}

func (s *Session) symbols(f string) string {
	syms, err := s.Server.DocumentSymbol(s.Ctx, &protocol.DocumentSymbolParams{TextDocument: protocol.TextDocumentIdentifier{URI: s.URI(f)}})
	if err != nil {
		return err.Error()
	}
	var l []string
	for _, x := range syms {
		l = append(l, x.Name)
	}
	return strings.Join(l, ",")
}

var wantSyms = map[string]string{"0": "", "1": "A", "2": "B", "3": "f", "4": "A,B"}

// Finish lets everything come to rest, stops the server and compares what it knew with what it should.
// It returns the state reached, for counting.
func (s *Session) Finish() string {
	mcrt.Settle()
	mcrt.Quiet(true)
	if w := mcrt.Waiting(); strings.Join(w, ";") != strings.Join(s.idle, ";") {
		mcrt.Failf("after everything has come to rest, tasks wait for %v instead of %v", w, s.idle)
	}
	for f, v := range s.Open {
		if s.Owner(f) == "" {
			continue
		}
		if got := s.symbols(f); got != wantSyms[v] {
			mcrt.Failf("the open document %s has the symbols %q instead of %q", f, got, wantSyms[v])
		}
	}
	s.stop()
	var key []string
	for d := range s.Folders {
		m := s.Contents(d)
		key = append(key, d+": "+Key(m))
		st, err := analysis.NewStore(s.fs(), s.URI(d), filepath.Join(s.Base, "home", ".phpintel", "data", util.GetURIID(s.URI(d))))
		if err != nil {
			mcrt.Failf("the index of %s cannot be opened again: %v", d, err)
			continue
		}
		got := hx.Dump(st, Uni)
		st.Close()
		want := s.fresh(d, m)
		if x := hx.Diff(got, want); x != "" {
			mcrt.Failf("the index of %s should describe {%s}; %s (%d questions differ)", d, Key(m), x, len(hx.DiffKeys(got, want)))
		}
	}
	sort.Strings(key)
	return strings.Join(key, " | ")
}
