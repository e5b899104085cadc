// Package wire drives the real server over its wire protocol, in process.
package wire

import (
	"bufio"
	"context"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"github.com/john-nguyen09/phpintel/internal/jsonrpc2"
	"github.com/john-nguyen09/phpintel/internal/lsp"
)

// Msg is one message received from the server.
type Msg struct {
	ID     json.RawMessage `json:"id"`
	Method string          `json:"method"`
	Params json.RawMessage `json:"params"`
	Result json.RawMessage `json:"result"`
	Error  *struct {
		Code    int64  `json:"code"`
		Message string `json:"message"`
	} `json:"error"`
	Raw string `json:"-"`
}

// Client talks to one server.
type Client struct {
	in     *io.PipeWriter
	out    *io.PipeReader
	mu     sync.Mutex
	cond   *sync.Cond
	seq    int
	reply  map[string][]Msg
	Notes  []Msg // notifications from the server, in order
	Calls  []Msg // requests from the server
	closed bool
	wmu    sync.Mutex
	Done   chan error
	// AutoReply answers the server's own requests; default replies null.
	AutoReply func(m Msg) (string, bool)
	Err       error
}

// Start starts a server.
func Start() *Client {
	ir, iw := io.Pipe()
	or, ow := io.Pipe()
	c := &Client{in: iw, out: or, reply: map[string][]Msg{}, Done: make(chan error, 1)}
	c.cond = sync.NewCond(&c.mu)
	ctx, srv := lsp.NewServer(context.Background(), jsonrpc2.NewHeaderStream(ir, ow))
	go func() { c.Done <- srv.Run(ctx); ow.Close() }()
	go c.read()
	return c
}

func (c *Client) read() {
	r := bufio.NewReader(c.out)
	for {
		n := 0
		for {
			line, err := r.ReadString('\n')
			if err != nil {
				c.fail(err)
				return
			}
			line = strings.TrimSpace(line)
			if line == "" {
				break
			}
			if strings.HasPrefix(line, "Content-Length:") {
				n, _ = strconv.Atoi(strings.TrimSpace(line[15:]))
			}
		}
		b := make([]byte, n)
		if _, err := io.ReadFull(r, b); err != nil {
			c.fail(err)
			return
		}
		var m Msg
		if err := json.Unmarshal(b, &m); err != nil {
			c.fail(fmt.Errorf("server wrote invalid JSON %q: %v", b, err))
			return
		}
		m.Raw = string(b)
		c.mu.Lock()
		switch {
		case m.Method != "" && m.ID != nil:
			c.Calls = append(c.Calls, m)
			ar := c.AutoReply
			c.mu.Unlock()
			res, ok := "null", true
			if ar != nil {
				res, ok = ar(m)
			}
			if ok {
				go c.Raw(fmt.Sprintf(`{"jsonrpc":"2.0","id":%s,"result":%s}`, m.ID, res))
			}
			c.mu.Lock()
		case m.Method != "":
			c.Notes = append(c.Notes, m)
		default:
			c.reply[string(m.ID)] = append(c.reply[string(m.ID)], m)
		}
		c.cond.Broadcast()
		c.mu.Unlock()
	}
}

func (c *Client) fail(err error) {
	c.mu.Lock()
	c.closed = true
	c.Err = err
	c.cond.Broadcast()
	c.mu.Unlock()
}

// Raw sends one message body.
func (c *Client) Raw(body string) {
	c.wmu.Lock()
	defer c.wmu.Unlock()
	fmt.Fprintf(c.in, "Content-Length: %d\r\n\r\n%s", len(body), body)
}

// Notify sends a notification.
func (c *Client) Notify(method string, params interface{}) {
	b, _ := json.Marshal(params)
	c.Raw(fmt.Sprintf(`{"jsonrpc":"2.0","method":%q,"params":%s}`, method, b))
}

// Send sends a request and returns its id without waiting.
func (c *Client) Send(method string, params interface{}) string {
	c.mu.Lock()
	c.seq++
	id := strconv.Itoa(c.seq)
	c.mu.Unlock()
	b, _ := json.Marshal(params)
	if params == nil {
		c.Raw(fmt.Sprintf(`{"jsonrpc":"2.0","id":%s,"method":%q}`, id, method))
	} else {
		c.Raw(fmt.Sprintf(`{"jsonrpc":"2.0","id":%s,"method":%q,"params":%s}`, id, method, b))
	}
	return id
}

// Timeout is how long Wait waits; a reply takes milliseconds, so this is reached only by a wedged server.
var Timeout = 30 * time.Second

// Wait waits for the reply to id.
func (c *Client) Wait(id string) (Msg, error) {
	t := time.AfterFunc(Timeout, func() { c.mu.Lock(); c.cond.Broadcast(); c.mu.Unlock() })
	defer t.Stop()
	dead := time.Now().Add(Timeout)
	c.mu.Lock()
	defer c.mu.Unlock()
	for len(c.reply[id]) == 0 {
		if c.closed {
			return Msg{}, fmt.Errorf("connection closed: %v", c.Err)
		}
		if !time.Now().Before(dead) {
			return Msg{}, fmt.Errorf("no reply to request %s", id)
		}
		c.cond.Wait()
	}
	return c.reply[id][0], nil
}

// Replies returns all replies received for an id.
func (c *Client) Replies(id string) []Msg {
	c.mu.Lock()
	defer c.mu.Unlock()
	return append([]Msg{}, c.reply[id]...)
}

// AllReplies returns the ids that got replies with their number.
func (c *Client) AllReplies() map[string]int {
	c.mu.Lock()
	defer c.mu.Unlock()
	out := map[string]int{}
	for k, v := range c.reply {
		out[k] = len(v)
	}
	return out
}

// Call sends a request and waits for its reply.
func (c *Client) Call(method string, params interface{}) (Msg, error) {
	return c.Wait(c.Send(method, params))
}

// Must is Call, panicking when there is no reply.
func (c *Client) Must(method string, params interface{}) Msg {
	m, err := c.Call(method, params)
	if err != nil {
		panic(fmt.Sprintf("%s: %v", method, err))
	}
	return m
}

// Text is the reply as text: the result, or the error.
func (m Msg) Text() string {
	if m.Error != nil {
		return fmt.Sprintf("error %d %s", m.Error.Code, m.Error.Message)
	}
	return string(m.Result)
}

// TakeNotes returns and forgets the notifications received so far.
func (c *Client) TakeNotes() []Msg {
	c.mu.Lock()
	defer c.mu.Unlock()
	n := c.Notes
	c.Notes = nil
	return n
}

// NoteCount counts notifications received so far.
func (c *Client) NoteCount() int { c.mu.Lock(); defer c.mu.Unlock(); return len(c.Notes) }

// WaitCalls waits until the server has made n requests of its own.
func (c *Client) WaitCalls(method string, n int) error {
	dead := time.Now().Add(Timeout)
	for {
		c.mu.Lock()
		k := 0
		for _, m := range c.Calls {
			if m.Method == method {
				k++
			}
		}
		c.mu.Unlock()
		if k >= n {
			return nil
		}
		if time.Now().After(dead) {
			return fmt.Errorf("the server made %d %s requests, want %d", k, method, n)
		}
		time.Sleep(200 * time.Microsecond)
	}
}

// Stop shuts the connection.
func (c *Client) Stop() {
	c.in.Close()
	c.out.Close()
	select {
	case <-c.Done:
	case <-time.After(5 * time.Second):
	}
}

// WS is a workspace directory on disk.
type WS struct {
	Root string
	Home string
}

var wsSeq int

// NewWS creates a scratch workspace.
func NewWS(scratch string) *WS {
	wsSeq++
	r := filepath.Join(scratch, fmt.Sprintf("ws%d", wsSeq))
	os.MkdirAll(r, 0o755)
	return &WS{Root: r, Home: os.Getenv("HOME")}
}

// Path is the absolute path of a file of the workspace.
func (w *WS) Path(rel string) string { return filepath.Join(w.Root, rel) }

// URI is the plain URI of a file of the workspace (no escaping needed for the names used).
func (w *WS) URI(rel string) string {
	if rel == "" {
		return "file://" + w.Root
	}
	return "file://" + w.Root + "/" + rel
}

// Write writes a file.
func (w *WS) Write(rel, text string) {
	p := w.Path(rel)
	os.MkdirAll(filepath.Dir(p), 0o755)
	if err := os.WriteFile(p, []byte(text), 0o644); err != nil {
		panic(err)
	}
}

// Remove deletes a file or directory.
func (w *WS) Remove(rel string) { os.RemoveAll(w.Path(rel)) }

// Clean removes the workspace and the server's data directory.
func (w *WS) Clean() {
	os.RemoveAll(w.Root)
	os.RemoveAll(filepath.Join(w.Home, ".phpintel"))
}

// Init performs initialize/initialized for the given folders ("" is the root) and waits until the folders are registered.
func (c *Client) Init(w *WS, folders ...string) error {
	var fs []map[string]string
	for _, f := range folders {
		fs = append(fs, map[string]string{"uri": w.URI(f), "name": f})
	}
	m, err := c.Call("initialize", map[string]interface{}{"processId": 1, "rootUri": w.URI(folders[0]), "capabilities": map[string]interface{}{}, "workspaceFolders": fs})
	if err != nil {
		return err
	}
	if m.Error != nil {
		return fmt.Errorf("initialize: %s", m.Text())
	}
	c.Notify("initialized", map[string]interface{}{})
	return c.WaitCalls("client/registerCapability", len(folders))
}

// M is a JSON object.
type M = map[string]interface{}

// Doc is a text document identifier.
func Doc(uri string) M { return M{"uri": uri} }

// At is a text document position.
func At(uri string, l, ch int) M {
	return M{"textDocument": Doc(uri), "position": M{"line": l, "character": ch}}
}

// Open opens a document (the text is that on disk).
func (c *Client) Open(uri, text string) {
	c.Notify("textDocument/didOpen", M{"textDocument": M{"uri": uri, "languageId": "php", "version": 1, "text": text}})
}

// Close closes a document.
func (c *Client) Close(uri string) { c.Notify("textDocument/didClose", M{"textDocument": Doc(uri)}) }

// Change sends content changes.
func (c *Client) Change(uri string, changes ...M) {
	c.Notify("textDocument/didChange", M{"textDocument": M{"uri": uri, "version": 2}, "contentChanges": changes})
}

// Watched reports a file event (1 created, 2 changed, 3 deleted).
func (c *Client) Watched(typ int, uris ...string) {
	var ch []M
	for _, u := range uris {
		ch = append(ch, M{"uri": u, "type": typ})
	}
	c.Notify("workspace/didChangeWatchedFiles", M{"changes": ch})
}

// Sync waits until every message sent so far has been handled.
func (c *Client) Sync() {
	c.Must("textDocument/documentSymbol", M{"textDocument": Doc("file:///nonexistent/zz.php")})
}

// Symbols asks for workspace symbols and returns "name@file" sorted.
func (c *Client) Symbols(q string) []string {
	m := c.Must("workspace/symbol", M{"query": q})
	var r []struct {
		Name     string `json:"name"`
		Location struct {
			URI string `json:"uri"`
		} `json:"location"`
	}
	json.Unmarshal(m.Result, &r)
	var out []string
	for _, x := range r {
		out = append(out, x.Name+"@"+x.Location.URI)
	}
	sort.Strings(out)
	return out
}
