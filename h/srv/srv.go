// Package srv calls the handlers of the real language server directly, with a stream that
// answers the server's own requests.
package srv

import (
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"os"
	"path/filepath"
	"sync"
	"time"

	"github.com/john-nguyen09/phpintel/internal/lsp"
	"github.com/john-nguyen09/phpintel/internal/lsp/protocol"
	homedir "github.com/mitchellh/go-homedir"
)

type stream struct {
	mu     sync.Mutex
	in     chan []byte
	closed chan struct{}
	Diags  map[string][]protocol.PublishDiagnosticsParams
	calls  map[string]int
}

func (s *stream) Read(ctx context.Context) ([]byte, int64, error) {
	select {
	case b := <-s.in:
		return b, int64(len(b)), nil
	case <-s.closed:
		return nil, 0, errors.New("closed")
	}
}

func (s *stream) Write(ctx context.Context, b []byte) (int64, error) {
	var m struct {
		ID     json.RawMessage
		Method string
		Params json.RawMessage
	}
	if err := json.Unmarshal(b, &m); err != nil {
		panic(err)
	}
	s.mu.Lock()
	if m.Method == "textDocument/publishDiagnostics" {
		var p protocol.PublishDiagnosticsParams
		if err := json.Unmarshal(m.Params, &p); err != nil {
			panic(err)
		}
		s.Diags[p.URI] = append(s.Diags[p.URI], p)
	}
	s.calls[m.Method]++
	s.mu.Unlock()
	if m.Method != "" && m.ID != nil {
		r := []byte(fmt.Sprintf(`{"jsonrpc":"2.0","id":%s,"result":null}`, m.ID))
		go func() {
			select {
			case s.in <- r:
			case <-s.closed:
			}
		}()
	}
	return int64(len(b)), nil
}

// S is a running server.
type S struct {
	*lsp.Server
	Ctx    context.Context
	Root   string
	Home   string
	st     *stream
	cancel func()
}

var seq int

// Start starts a server on a fresh workspace folder holding the given files.
func Start(scratch string, files map[string]string) *S {
	seq++
	base := filepath.Join(scratch, fmt.Sprintf("srv%d", seq))
	s := &S{Root: filepath.Join(base, "ws"), Home: filepath.Join(base, "home")}
	os.MkdirAll(s.Root, 0o755)
	os.MkdirAll(s.Home, 0o755)
	os.Setenv("HOME", s.Home)
	homedir.DisableCache = true
	for n, t := range files {
		s.Write(n, t)
	}
	s.st = &stream{in: make(chan []byte), closed: make(chan struct{}), Diags: map[string][]protocol.PublishDiagnosticsParams{}, calls: map[string]int{}}
	ctx, cancel := context.WithCancel(context.Background())
	s.cancel = cancel
	ctx, s.Server = lsp.NewServer(ctx, s.st)
	s.Ctx = ctx
	go s.Server.Run(ctx)
	p := &protocol.InitializeParams{}
	p.WorkspaceFolders = []protocol.WorkspaceFolder{{URI: s.URI(""), Name: "ws"}}
	if _, err := s.Server.Initialize(ctx, p); err != nil {
		panic(err)
	}
	if err := s.Server.Initialized(ctx, &protocol.InitializedParams{}); err != nil {
		panic(err)
	}
	return s
}

// Stop shuts the server down and removes its files.
func (s *S) Stop() {
	s.Server.Shutdown(s.Ctx)
	s.cancel()
	close(s.st.closed)
	os.RemoveAll(filepath.Dir(s.Root))
}

// Path of a file of the workspace.
func (s *S) Path(rel string) string { return filepath.Join(s.Root, rel) }

// URI of a file of the workspace.
func (s *S) URI(rel string) string {
	if rel == "" {
		return "file://" + s.Root
	}
	return "file://" + s.Root + "/" + rel
}

// Write writes a file.
func (s *S) Write(rel, text string) {
	p := s.Path(rel)
	os.MkdirAll(filepath.Dir(p), 0o755)
	if err := os.WriteFile(p, []byte(text), 0o644); err != nil {
		panic(err)
	}
}

// Open opens a document that is on disk.
func (s *S) Open(rel string) {
	t, err := os.ReadFile(s.Path(rel))
	if err != nil {
		panic(err)
	}
	s.Server.DidOpen(s.Ctx, &protocol.DidOpenTextDocumentParams{TextDocument: protocol.TextDocumentItem{URI: s.URI(rel), LanguageID: "php", Version: 1, Text: string(t)}})
}

// Change replaces the text of an open document.
func (s *S) Change(rel, text string) {
	p := &protocol.DidChangeTextDocumentParams{ContentChanges: []protocol.TextDocumentContentChangeEvent{{Text: text}}}
	p.TextDocument.URI = s.URI(rel)
	s.Server.DidChange(s.Ctx, p)
}

// Close closes a document.
func (s *S) Close(rel string) {
	s.Server.DidClose(s.Ctx, &protocol.DidCloseTextDocumentParams{TextDocument: protocol.TextDocumentIdentifier{URI: s.URI(rel)}})
}

// At is a position in a document.
func (s *S) At(rel string, l, c int) protocol.TextDocumentPositionParams {
	return protocol.TextDocumentPositionParams{TextDocument: protocol.TextDocumentIdentifier{URI: s.URI(rel)}, Position: protocol.Position{Line: l, Character: c}}
}

// Diags returns the last diagnostics published for a document.
func (s *S) Diags(rel string) ([]protocol.Diagnostic, bool) {
	s.st.mu.Lock()
	defer s.st.mu.Unlock()
	all := s.st.Diags[s.URI(rel)]
	if len(all) == 0 {
		return nil, false
	}
	return all[len(all)-1].Diagnostics, true
}

// Until waits (generously) for a condition that background work brings about.
func Until(f func() bool) bool {
	for i := 0; i < 20000; i++ {
		if f() {
			return true
		}
		time.Sleep(time.Millisecond)
	}
	return false
}
