// C04: no message stops the server or makes it hang.
package main

import (
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"github.com/john-nguyen09/phpintel/internal/lsp"
	"github.com/john-nguyen09/phpintel/internal/zzverif/kit"
	debounce "github.com/john-nguyen09/phpintel/internal/zzverif/mcdebounce"
	"github.com/john-nguyen09/phpintel/internal/zzverif/mcrt"
	"github.com/john-nguyen09/phpintel/internal/zzverif/mcx"
	homedir "github.com/mitchellh/go-homedir"
)

// stream is the client's side: it answers the calls of the server, and keeps the replies.
type stream struct {
	in      chan []byte
	answers map[string]string // how the client answers the server's calls; "" for all others
	replies map[string][]reply
}

type reply struct{ result, err string }

func (s *stream) Read(ctx context.Context) ([]byte, int64, error) {
	b, ok := mcrt.Recv2(s.in)
	if !ok {
		return nil, 0, errors.New("closed")
	}
	return b, int64(len(b)), nil
}

func (s *stream) send(b string) { mcrt.SendTo(s.in)([]byte(b)) }

func (s *stream) Write(ctx context.Context, b []byte) (int64, error) {
	var m struct {
		ID            json.RawMessage
		Method        string
		Result, Error json.RawMessage
	}
	if err := json.Unmarshal(b, &m); err != nil {
		mcrt.Failf("the server wrote %q: %v", b, err)
	}
	if m.Method != "" && m.ID != nil {
		a, ok := s.answers[m.Method]
		if !ok {
			a = s.answers[""]
		}
		s.send(fmt.Sprintf(`{"jsonrpc":"2.0","id":%s,%s}`, m.ID, a))
	} else if m.Method == "" {
		s.replies[string(m.ID)] = append(s.replies[string(m.ID)], reply{string(m.Result), string(m.Error)})
	}
	return int64(len(b)), nil
}

// states of the server.
const (
	created = iota
	initializing
	initialized
	down
)

var stateNames = []string{"new", "initializing", "initialized", "shut down"}

type session struct {
	c      *kit.C
	base   string
	st     *stream
	state  int
	n      int
	close  func()
	wait   []pending
	opened bool
}

// pending is a request that was sent: want is "ok", "error", "any" or text that the result must contain.
type pending struct{ id, what, want string }

func (s *session) uri(f string) string { return "file://" + filepath.Join(s.base, "ws", f) }

const text = "<?php\nclass A { function m($p) { return $p; } }\n$a = new A();\n$a->m(1);\n"

func open(c *kit.C) *session {
	debounce.Take()
	base := c.Scratch()
	for _, d := range []string{"ws", "home", "cwd"} {
		os.RemoveAll(filepath.Join(base, d))
		os.MkdirAll(filepath.Join(base, d), 0o755)
	}
	os.Setenv("HOME", filepath.Join(base, "home"))
	homedir.DisableCache = true
	os.Chdir(filepath.Join(base, "cwd"))
	os.WriteFile(filepath.Join(base, "ws", "a.php"), []byte(text), 0o644)
	os.WriteFile(filepath.Join(base, "ws", "b.php"), []byte("<?php interface I {}\n"), 0o644)
	s := &session{c: c, base: base, st: &stream{in: mcrt.MakeChan[[]byte](1000), answers: map[string]string{"": `"result":null`}, replies: map[string][]reply{}}}
	ctx, cancel := context.WithCancel(context.Background())
	ctx, srv := lsp.NewServer(ctx, s.st)
	mcrt.Go(func() { srv.Run(ctx) })
	s.close = func() {
		srv.Shutdown(ctx) // closes the stores
		cancel()
	}
	return s
}

// subst fills in the names of the files.
func (s *session) subst(t string) string {
	t = strings.ReplaceAll(t, "@A", s.uri("a.php"))
	t = strings.ReplaceAll(t, "@B", s.uri("b.php"))
	t = strings.ReplaceAll(t, "@W", s.uri(""))
	return strings.ReplaceAll(t, "@O", "file://"+filepath.Join(s.base, "cwd", "o.php"))
}

// message is the JSON of a message; params "" for none, id "" for a notification.
func message(id, method, params string) string {
	m := `{"jsonrpc":"2.0"`
	if id != "" {
		m += `,"id":` + id
	}
	m += `,"method":` + method
	if params != "" {
		m += `,"params":` + params
	}
	return m + "}"
}

// send sends a message; a request is expected to be answered.
func (s *session) send(request bool, method, params, want string) {
	id := ""
	if request {
		s.n++
		id = fmt.Sprint(s.n)
		s.wait = append(s.wait, pending{id, method + " " + params, want})
	}
	b, _ := json.Marshal(method)
	s.st.send(message(id, string(b), s.subst(params)))
}

// settle lets the server come to rest and checks the replies.
func (s *session) settle() {
	mcrt.Settle()
	for _, p := range s.wait {
		r := s.st.replies[p.id]
		if len(r) != 1 {
			mcrt.Failf("%d replies to %s (server %s)", len(r), p.what, stateNames[s.state])
			continue
		}
		delete(s.st.replies, p.id)
		isErr := r[0].err != "" && r[0].err != "null"
		switch {
		case p.want == "any":
		case p.want == "error":
			if !isErr {
				mcrt.Failf("%s succeeds (server %s): %s", p.what, stateNames[s.state], r[0].result)
			}
		case isErr:
			mcrt.Failf("%s fails (server %s): %s", p.what, stateNames[s.state], r[0].err)
		case p.want != "ok" && !strings.Contains(r[0].result, p.want):
			mcrt.Failf("%s gives %s (server %s), which lacks %s", p.what, r[0].result, stateNames[s.state], p.want)
		}
	}
	s.wait = nil
	for id, r := range s.st.replies {
		mcrt.Failf("%d replies to %s, which was no request (server %s)", len(r), id, stateNames[s.state])
	}
	s.st.replies = map[string][]reply{}
}

// life performs a step of the life cycle.
func (s *session) life(op string) {
	doc := `{"textDocument":{"uri":"@A"}}`
	switch op {
	case "init", "init root", "init both", "init extensions":
		want := "error"
		if s.state == created {
			want, s.state = "capabilities", initializing
		}
		p := map[string]string{
			"init":            `{"capabilities":{},"workspaceFolders":[{"uri":"@W","name":"w"}]}`,
			"init root":       `{"rootUri":"@W"}`,
			"init both":       `{"processId":1,"rootPath":null,"rootUri":"@W","capabilities":{"workspace":{}},"trace":"off","workspaceFolders":[{"uri":"@W","name":"w"}]}`,
			"init extensions": `{"rootUri":"@W","capabilities":{"xcontentProvider":true,"xfilesProvider":true}}`,
		}[op]
		s.send(true, "initialize", p, want)
	case "initialized":
		if s.state == initializing {
			s.state = initialized
		}
		s.send(false, "initialized", "{}", "")
	case "shutdown":
		want := "any"
		if s.state < initialized {
			want = "error"
		} else if s.state == initialized {
			want, s.state = "ok", down
		}
		s.send(true, "shutdown", "", want)
	case "ask":
		want := "any"
		if s.state == initialized && s.opened {
			want = `"A"`
		} else if s.state == initialized {
			want = "ok"
		}
		s.send(true, "textDocument/documentSymbol", doc, want)
	case "hover":
		want := "any"
		s.send(true, "textDocument/hover", `{"textDocument":{"uri":"@A"},"position":{"line":2,"character":10}}`, want)
	case "open":
		s.opened = s.state == initialized
		b, _ := json.Marshal(text)
		s.send(false, "textDocument/didOpen", `{"textDocument":{"uri":"@A","languageId":"php","version":1,"text":`+string(b)+`}}`, "")
	case "change":
		s.send(false, "textDocument/didChange", `{"textDocument":{"uri":"@A","version":2},"contentChanges":[{"range":{"start":{"line":1,"character":0},"end":{"line":1,"character":0}},"text":" "}]}`, "")
	case "close":
		s.opened = false
		s.send(false, "textDocument/didClose", doc, "")
	case "watched":
		s.send(false, "workspace/didChangeWatchedFiles", `{"changes":[{"uri":"@A","type":2}]}`, "")
	case "folders":
		s.send(false, "workspace/didChangeWorkspaceFolders", `{"event":{"added":[{"uri":"@W","name":"w"}],"removed":[]}}`, "")
	case "cancel":
		s.send(false, "$/cancelRequest", fmt.Sprintf(`{"id":%d}`, s.n), "")
	case "unknown":
		s.send(true, "textDocument/nothing", "{}", "error")
	default:
		panic(op)
	}
}

// finish brings the server to the state initialized, if it can still be, and asks it something.
func (s *session) finish() {
	if s.state == created {
		s.life("init")
		s.settle()
	}
	if s.state == initializing {
		s.life("initialized")
		s.settle()
	}
	s.life("ask")
	s.life("hover")
	s.settle()
	s.life("init")
	s.settle()
	if s.state == initialized {
		s.life("close")
		s.life("open")
		s.life("ask")
		s.settle()
	}
	s.life("shutdown")
	s.settle()
	s.c.State(stateNames[s.state])
	mcrt.Quiet(true)
	s.close()
	mcrt.Finish()
}

// methods are those of the protocol; true for requests.
var methods = map[string]bool{}

var names []string

func init() {
	for _, m := range strings.Fields("workspace/didChangeWorkspaceFolders initialized workspace/didChangeConfiguration textDocument/didOpen textDocument/didChange textDocument/didClose textDocument/didSave textDocument/willSave workspace/didChangeWatchedFiles $/progress $/setTraceNotification $/logTraceNotification $/cancelRequest $/unknown unknown") {
		methods[m] = false
	}
	for _, m := range strings.Fields("textDocument/implementation textDocument/typeDefinition textDocument/documentColor textDocument/colorPresentation textDocument/foldingRange textDocument/declaration textDocument/selectionRange initialize shutdown textDocument/willSaveWaitUntil textDocument/completion completionItem/resolve textDocument/hover textDocument/signatureHelp textDocument/definition textDocument/references textDocument/documentHighlight textDocument/documentSymbol textDocument/codeAction workspace/symbol textDocument/codeLens codeLens/resolve textDocument/documentLink documentLink/resolve textDocument/formatting textDocument/rangeFormatting textDocument/onTypeFormatting textDocument/rename textDocument/prepareRename workspace/executeCommand documentSignatures") {
		methods[m] = true
	}
	for m := range methods {
		names = append(names, m)
	}
	sort.Strings(names)
}

// general are parameters for any method.
var general = []string{"", "null", "{}", "[]", "[null]", "[{}]", `""`, `"x"`, "0", "true", "1.5"}

// doc are parameters for methods that are about a document.
var doc = []string{
	`{"textDocument":null}`, `{"textDocument":5}`, `{"textDocument":[]}`, `{"textDocument":{}}`, `{"textDocument":{"uri":null}}`, `{"textDocument":{"uri":5}}`,
	`{"textDocument":{"uri":""}}`, `{"textDocument":{"uri":"x"}}`, `{"textDocument":{"uri":"%"}}`, `{"textDocument":{"uri":"file://%zz/a.php"}}`, `{"textDocument":{"uri":"untitled:Untitled-1"}}`, `{"textDocument":{"uri":"@O"}}`,
	`{"textDocument":{"uri":"@W"}}`, `{"textDocument":{"uri":"@W/nothing.php"}}`, `{"textDocument":{"uri":"@A"}}`, `{"textDocument":{"uri":"@B"}}`, `{"uri":"@A"}`, `{"uri":""}`, `{"uri":"@O"}`,
}

var positions = []string{
	`null`, `{}`, `[]`, `5`, `{"line":null,"character":null}`, `{"line":"0","character":0}`, `{"line":1.5,"character":0}`, `{"line":-1,"character":0}`, `{"line":0,"character":-1}`, `{"line":-1,"character":-1}`,
	`{"line":1,"character":9999}`, `{"line":9999,"character":0}`, `{"line":9999,"character":9999}`, `{"line":99999999999999999999,"character":0}`, `{"line":4,"character":0}`, `{"line":3,"character":5}`, `{"line":2,"character":10}`,
}

var special = map[string][]string{
	"initialize":           {`{"rootUri":null,"workspaceFolders":null}`, `{"rootUri":""}`, `{"rootUri":5}`, `{"workspaceFolders":{}}`, `{"workspaceFolders":[]}`, `{"workspaceFolders":[5]}`, `{"capabilities":null}`, `{"capabilities":5}`},
	"textDocument/didOpen": {`{"textDocument":{"uri":"@A"}}`, `{"textDocument":{"uri":"@A","text":null}}`, `{"textDocument":{"uri":"@A","text":5}}`, `{"textDocument":{"uri":"@A","text":"","version":null}}`, `{"textDocument":{"uri":"@O","text":"<?php"}}`, `{"textDocument":{"uri":"","text":"<?php"}}`},
	"textDocument/didChange": {`{"textDocument":{"uri":"@A"},"contentChanges":null}`, `{"textDocument":{"uri":"@A"},"contentChanges":[]}`, `{"textDocument":{"uri":"@A"},"contentChanges":{}}`, `{"textDocument":{"uri":"@A"},"contentChanges":[null]}`, `{"textDocument":{"uri":"@A"},"contentChanges":[{}]}`, `{"textDocument":{"uri":"@A"},"contentChanges":[{"text":null}]}`, `{"textDocument":{"uri":"@A"},"contentChanges":[{"range":null,"text":"<?php class A {}"}]}`, `{"textDocument":{"uri":"@A"},"contentChanges":[{"range":{},"text":""}]}`,
		`{"textDocument":{"uri":"@A"},"contentChanges":[{"range":{"start":{"line":3,"character":0},"end":{"line":1,"character":0}},"text":""}]}`, `{"textDocument":{"uri":"@A"},"contentChanges":[{"range":{"start":{"line":-3,"character":-1},"end":{"line":999,"character":999}},"text":"<?php class A {}"}]}`,
		`{"textDocument":{"uri":"@B"},"contentChanges":[{"range":{"start":{"line":0,"character":0},"end":{"line":0,"character":0}},"text":""}]}`, `{"textDocument":{"uri":"@W/nothing.php"},"contentChanges":[{"range":{"start":{"line":0,"character":0},"end":{"line":0,"character":0}},"text":"x"}]}`, `{"textDocument":{"uri":"@O"},"contentChanges":[{"text":"x"}]}`},
	"workspace/didChangeWatchedFiles":     {`{"changes":null}`, `{"changes":{}}`, `{"changes":[null]}`, `{"changes":[{}]}`, `{"changes":[{"uri":"@A"}]}`, `{"changes":[{"uri":"@A","type":9}]}`, `{"changes":[{"uri":"","type":1}]}`, `{"changes":[{"uri":"","type":3}]}`, `{"changes":[{"uri":"%","type":1}]}`, `{"changes":[{"uri":"@O","type":1}]}`, `{"changes":[{"uri":"@W/nothing.php","type":1},{"uri":"@W/nothing.php","type":3}]}`, `{"changes":[{"uri":"@A","type":2},{"uri":"@A","type":2}]}`},
	"workspace/didChangeWorkspaceFolders": {`{"event":null}`, `{"event":{}}`, `{"event":{"added":null,"removed":null}}`, `{"event":{"added":[null]}}`, `{"event":{"added":[{"uri":""}]}}`, `{"event":{"added":[{"uri":"x"}]}}`, `{"event":{"added":[{"uri":"%"}]}}`, `{"event":{"added":[{"uri":"http://x/y"}]}}`, `{"event":{"added":[{"uri":"@W"}]}}`, `{"event":{"added":[{"uri":"@W/nothing"}]}}`, `{"event":{"added":[{"uri":"@A"}]}}`, `{"event":{"removed":[{"uri":""}]}}`, `{"event":{"removed":[{"uri":"x"}]}}`, `{"event":{"removed":[{"uri":"@O"}]}}`, `{"event":{"removed":[null]}}`},
	"$/cancelRequest":                     {`{"id":null}`, `{"id":1}`, `{"id":"1"}`, `{"id":999}`, `{"id":{}}`},
	"workspace/symbol":                    {`{"query":null}`, `{"query":""}`, `{"query":"A"}`, `{"query":5}`, `{"query":"\\"}`, `{"query":"$"}`},
	"completionItem/resolve":              {`{"label":"x"}`},
	"workspace/executeCommand":            {`{"command":null}`, `{"command":"x","arguments":[]}`},
}

func params(m string) []string {
	ps := append([]string{}, general...)
	ps = append(ps, special[m]...)
	if strings.HasPrefix(m, "textDocument/") || m == "documentSignatures" {
		ps = append(ps, doc...)
	}
	if strings.HasPrefix(m, "textDocument/") && methods[m] {
		for _, p := range positions {
			ps = append(ps, `{"textDocument":{"uri":"@A"},"position":`+p+`}`)
			if m == "textDocument/rename" {
				ps = append(ps, `{"textDocument":{"uri":"@A"},"position":`+p+`,"newName":"n"}`)
			}
		}
		ps = append(ps, `{"textDocument":{"uri":"@A"},"position":{"line":2,"character":10},"context":null}`, `{"textDocument":{"uri":"@A"},"position":{"line":2,"character":10},"context":5}`,
			`{"textDocument":{"uri":"@A"},"range":null}`, `{"textDocument":{"uri":"@W/nothing.php"},"position":{"line":2,"character":10}}`, `{"textDocument":{"uri":"@O"},"position":{"line":2,"character":10}}`, `{"position":{"line":2,"character":10}}`)
	}
	return ps
}

// raw are messages that are wrong before any method is looked at.
var raw = []string{
	``, `x`, `null`, `5`, `[]`, `{}`, `""`, `{"jsonrpc":"1.0"}`, `{"jsonrpc":"2.0","id":1}`, `{"jsonrpc":"2.0","id":777,"result":null}`, `{"jsonrpc":"2.0","id":"x","error":null}`, `{"jsonrpc":"2.0","id":778,"error":{"code":1,"message":"x"}}`,
	`{"jsonrpc":"2.0","method":""}`, `{"jsonrpc":"2.0","method":null}`, `{"jsonrpc":"2.0","method":5}`, `{"jsonrpc":"2.0","method":"textDocument/hover"`, `{"jsonrpc":"2.0","id":null,"method":"textDocument/didSave"}`, `{"jsonrpc":"2.0","id":{},"method":"textDocument/hover"}`,
}

// reach brings the server to a state.
func (s *session) reach(state string) {
	for _, op := range map[string][]string{"new": nil, "initializing": {"init"}, "initialized": {"init", "initialized"}, "open": {"init", "initialized", "open"}, "down": {"init", "initialized", "shutdown"}}[state] {
		s.life(op)
		s.settle()
	}
}

// answers are the client's to the question for the files of a folder, contents to that for a file.
var answers = []string{`"result":null`, `"result":[]`, `"result":{}`, `"result":5`, `"error":{"code":1,"message":"no"}`, `"error":null`, `"x":1`, `"result":[null]`, `"result":[{}]`, `"result":[5]`, `"result":[{"uri":""}]`, `"result":[{"uri":"%"}]`, `"result":[{"uri":"@A"},{"uri":"@B"}]`, `"result":[{"uri":"@A"},{"uri":"@A"}]`, `"result":[{"uri":"@O"}]`}
var contents = []string{`"result":null`, `"result":{"text":"<?php class A {}"}`, `"result":{"text":null}`, `"result":{"text":5}`, `"result":[]`, `"error":{"code":1,"message":"no"}`, `"x":1`}

var lifeOps = []string{"init", "init root", "initialized", "shutdown", "ask", "open", "change", "close", "watched", "folders", "cancel", "unknown"}

func main() {
	kit.Main(kit.Check{
		ID:          "C04",
		Level:       "model_checking",
		Rule:        "a case is a state of the server and a method, with each of the parameters as a request and as a notification, or a sequence of life-cycle messages; after each, the server must have answered every request once and must still answer a valid one; a panic or a request that waits for ever is found by the scheduler, not by a clock",
		Assumptions: []string{"scheduling points are the goroutine, channel and lock operations of jsonrpc2, lsp, analysis and analysis/storage, and storage and file reads", "the client answers the server's calls"},
		HangSeconds: 300,
		Bounds: func(t bool) string {
			n, p := 3, 2
			if t {
				n, p = 4, 3
			}
			return fmt.Sprintf("%d methods in 5 states, up to %d parameters; life-cycle sequences of up to %d of %d messages in a row and at rest between, of up to %d with one preemption", len(methods), len(params("textDocument/rename")), n, len(lifeOps), p)
		},
		Enumerate: func(e *kit.Enum) {
			for _, state := range []string{"initialized", "open", "new", "initializing", "down"} {
				for _, m := range names {
					e.Case("message "+state+" "+m, func(c *kit.C) {
						c.Distinct(state + m)
						c.Sample(m)
						for _, p := range params(m) {
							for _, request := range []bool{true, false} {
								name := fmt.Sprintf("message %s %s(%s) request %v", state, m, p, request)
								mcx.Explore(c, name, mcx.Opt{Delay: -1, Seconds: 120}, func() {
									s := open(c)
									s.reach(state)
									if m == "shutdown" && s.state == initialized {
										s.state = down
									}
									s.send(request, m, p, "any")
									s.settle()
									s.opened = false // whatever it is now
									if m == "initialize" && s.state == created {
										// whether this one counts is not judged
										s.life("unknown")
										s.settle()
										s.close()
										mcrt.Finish()
									}
									s.finish()
								})
							}
						}
					})
				}
				e.Case("raw "+state, func(c *kit.C) {
					for _, r := range raw {
						mcx.Explore(c, "raw "+state+" "+r, mcx.Opt{Delay: -1, Seconds: 120}, func() {
							s := open(c)
							s.reach(state)
							s.st.send(r)
							mcrt.Settle()
							s.st.replies = map[string][]reply{}
							s.finish()
						})
					}
				})
			}
			for _, a := range answers {
				for _, b := range contents {
					e.Case("client "+a+" "+b, func(c *kit.C) {
						c.Distinct(a + b)
						for _, rest := range []string{`"result":null`, `"error":{"code":1,"message":"no"}`, `"result":5`, `"error":null`, `"x":1`} {
							mcx.Explore(c, "client "+a+" "+b+" "+rest, mcx.Opt{Delay: -1, Seconds: 120}, func() {
								s := open(c)
								s.st.answers = map[string]string{"": rest, "workspace/xfiles": s.subst(a), "textDocument/xcontent": s.subst(b)}
								s.life("init extensions")
								s.settle()
								s.life("initialized")
								s.settle()
								s.life("watched")
								s.life("folders")
								s.settle()
								s.finish()
							})
						}
					})
				}
			}
			n, pn := 3, 2
			if e.Thorough {
				n, pn = 4, 3
			}
			var walk func(pre []string)
			walk = func(pre []string) {
				if len(pre) > 0 {
					key := "life " + strings.Join(pre, ", ")
					seq := append([]string{}, pre...)
					e.Case(key, func(c *kit.C) {
						c.Distinct(key)
						c.Sample(key)
						run := func(between bool, pre, delay int) {
							mcx.Explore(c, fmt.Sprintf("%s; between %v p%d", key, between, pre), mcx.Opt{Preempt: pre, Delay: delay, Seconds: 120}, func() {
								s := open(c)
								for _, op := range seq {
									s.life(op)
									if between {
										s.settle()
									}
								}
								s.settle()
								s.finish()
							})
						}
						run(true, 0, -1)
						run(false, 0, -1)
						if len(seq) <= pn {
							run(false, 1, 1)
						}
					})
				}
				if len(pre) < n {
					for _, op := range lifeOps {
						walk(append(pre[:len(pre):len(pre)], op))
					}
				}
			}
			walk(nil)
		},
	})
}
