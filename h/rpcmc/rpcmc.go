// Package rpcmc drives jsonrpc2.Conn over its header stream under the schedule explorer.
package rpcmc

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"io"
	"strconv"
	"strings"

	"github.com/john-nguyen09/phpintel/internal/jsonrpc2"
	"github.com/john-nguyen09/phpintel/internal/zzverif/mcrt"
)

// Msg is one message of a client script.
type Msg struct {
	Name string // short name
	Body string // JSON text
	ID   string // JSON text of the id, "" for none
	Kind string // method
	Want string // what the reply must be: "result:<json>", "error", "any", "" (no reply)
}

// Peer says how the client answers the server's own calls.
type Peer string

// Peers.
const (
	Right Peer = "right" // one right answer
	Dup   Peer = "dup"   // the right answer twice
	Wrong Peer = "wrong" // an answer to an unknown call, then the right one
	Err   Peer = "err"   // an error answer
	Bad   Peer = "bad"   // an unparsable message, a message that is nothing, then the right answer
	Late  Peer = "late"  // the right answer, once the call has returned
)

type reader struct {
	ch  chan []byte
	cur []byte
}

func (r *reader) Read(p []byte) (int, error) {
	if len(r.cur) == 0 {
		b, ok := mcrt.Recv2(r.ch)
		if !ok {
			return 0, io.EOF
		}
		r.cur = b
	}
	n := copy(p, r.cur)
	r.cur = r.cur[n:]
	return n, nil
}

type writer struct {
	buf  []byte
	on   func([]byte)
	done int
}

func (w *writer) Write(p []byte) (int, error) {
	// a transport may take the bytes in pieces
	mcrt.Point("transport write")
	w.buf = append(w.buf, p...)
	w.pump()
	return len(p), nil
}

// pump hands whole frames to the peer.
func (w *writer) pump() {
	for {
		rest := w.buf[w.done:]
		i := bytes.Index(rest, []byte("\r\n\r\n"))
		if i < 0 {
			return
		}
		h := string(rest[:i])
		n, err := strconv.Atoi(strings.TrimSpace(strings.TrimPrefix(h, "Content-Length:")))
		if err != nil || len(rest) < i+4+n {
			return
		}
		w.done += i + 4 + n
		if w.on != nil {
			w.on(rest[i+4 : i+4+n])
		}
	}
}

// Frame wraps a body.
func Frame(b string) []byte {
	return []byte(fmt.Sprintf("Content-Length: %d\r\n\r\n%s", len(b), b))
}

type handled struct {
	idx      int
	started  bool
	released bool
	returned bool
}

type handler struct {
	jsonrpc2.EmptyHandler
	r *run
}

type run struct {
	script []Msg
	seen   int // handlers started so far
	hs     []*handled
	conn   *jsonrpc2.Conn
	in     chan []byte
	calls  int
	ended  int
	peer   Peer
	prop   string
	out    *writer
	late   [][]byte
	errs   int
}

func (r *run) fail(prop, f string, a ...interface{}) {
	if prop == r.prop {
		mcrt.Failf(f, a...)
	}
}

// requests only: the k-th message of the script that is a request or notification
func (h *handler) Error(ctx context.Context, err error) { h.r.errs++ }

func (h *handler) Deliver(ctx context.Context, req *jsonrpc2.Request, delivered bool) bool {
	if delivered {
		return false
	}
	r := h.r
	var p struct{ K int }
	k := -1
	if req.Params != nil {
		if json.Unmarshal(*req.Params, &p) == nil {
			k = p.K
		}
	}
	// start: every earlier message must have been released
	if k != r.seen {
		r.fail("C02", "message %d is handled when message %d is due", k, r.seen)
	}
	r.seen++
	for _, o := range r.hs[:k] {
		if !o.released {
			r.fail("C02", "message %d (%s) starts while message %d (%s) is still being handled", k, r.script[k].Name, o.idx, r.script[o.idx].Name)
		}
	}
	me := r.hs[k]
	me.started = true
	mcrt.Log("handle %d %s", k, req.Method)
	defer func() { me.released, me.returned = true, true }()
	reply := func(v interface{}, err error) {
		me.released = true
		req.Reply(ctx, v, err)
	}
	mcrt.Point("handler " + req.Method)
	switch req.Method {
	case "echo":
		reply(map[string]int{"K": k}, nil)
	case "null":
		reply(nil, nil)
	case "err":
		reply(nil, jsonrpc2.NewErrorf(7, "no"))
	case "twice":
		reply(map[string]int{"K": k}, nil)
		if req.Reply(ctx, nil, nil) == nil {
			r.fail("C01", "a second reply to the same request was accepted")
		}
	case "none":
	case "parnone":
		me.released = true
		req.Parallel()
		mcrt.Point("parallel part")
	case "par":
		me.released = true
		req.Parallel()
		req.Parallel()
		mcrt.Point("parallel part")
		reply(map[string]int{"K": k}, nil)
	case "replynote":
		if req.Reply(ctx, 1, nil) == nil {
			r.fail("C01", "a reply to a notification was accepted")
		}
	case "cancelprev": // cancels the request before it
		id := jsonrpc2.ID{}
		if k > 0 && r.script[k-1].ID != "" {
			json.Unmarshal([]byte(r.script[k-1].ID), &id)
			r.conn.Cancel(id)
		}
	case "cancelnext":
		id := jsonrpc2.ID{}
		if k+1 < len(r.script) && r.script[k+1].ID != "" {
			json.Unmarshal([]byte(r.script[k+1].ID), &id)
			r.conn.Cancel(id)
		}
	case "cancelself":
		id := jsonrpc2.ID{}
		json.Unmarshal([]byte(r.script[k].ID), &id)
		r.conn.Cancel(id)
		reply(map[string]int{"K": k}, nil)
	case "call", "callpar", "callcancel":
		if req.Method == "callpar" {
			me.released = true
			req.Parallel()
		}
		r.calls++
		n := r.calls
		cctx, cancel := context.WithCancel(ctx)
		if req.Method == "callcancel" {
			mcrt.GoNamed("canceller", func() { mcrt.Point("cancel"); cancel() })
		}
		var res struct{ N int }
		err := r.conn.Call(cctx, "ask", map[string]int{"N": n}, &res)
		r.ended++
		for _, b := range r.late {
			mcrt.SendTo(r.in)(b)
		}
		r.late = nil
		if err == nil && res.N != n {
			r.fail("C02", "call %d got the answer to call %d", n, res.N)
		}
		if err == nil && r.peer == Err {
			r.fail("C02", "call %d was answered with an error and returned none", n)
		}
		if err != nil && req.Method != "callcancel" && r.peer != Err && ctx.Err() == nil {
			r.fail("C02", "call %d failed: %v", n, err)
		}
		if err != nil && cctx.Err() == nil && r.peer != Err {
			r.fail("C02", "call %d failed though nothing cancelled it: %v", n, err)
		}
		cancel()
		reply(map[string]int{"K": k}, nil)
	case "notify":
		r.conn.Notify(context.Background(), "tell", map[string]int{"K": k})
		reply(map[string]int{"K": k}, nil)
	default:
		me.released = true
		return false
	}
	return true
}

// Body makes the function explored: the script is sent, the peer answers the server's calls.
func Body(prop string, script []Msg, peer Peer) func() {
	return func() {
		r := &run{script: script, peer: peer, prop: prop}
		for i := range script {
			r.hs = append(r.hs, &handled{idx: i})
		}
		r.in = mcrt.MakeChan[[]byte](64)
		out := &writer{}
		r.out = out
		out.on = func(body []byte) {
			var m struct {
				ID     json.RawMessage
				Method string
				Params struct{ N int }
			}
			if json.Unmarshal(body, &m) != nil || m.Method != "ask" {
				return
			}
			right := Frame(fmt.Sprintf(`{"jsonrpc":"2.0","id":%s,"result":{"N":%d}}`, m.ID, m.Params.N))
			switch peer {
			case Right:
				mcrt.SendTo(r.in)(right)
			case Dup:
				mcrt.SendTo(r.in)(append(append([]byte{}, right...), right...))
			case Wrong:
				mcrt.SendTo(r.in)(append(Frame(`{"jsonrpc":"2.0","id":4711,"result":{"N":99}}`), right...))
			case Err:
				mcrt.SendTo(r.in)(Frame(fmt.Sprintf(`{"jsonrpc":"2.0","id":%s,"error":{"code":5,"message":"no"}}`, m.ID)))
			case Bad:
				mcrt.SendTo(r.in)(append(append(Frame(`{"jsonrpc":`), Frame(`{"jsonrpc":"2.0"}`)...), right...))
			case Late:
				r.late = append(r.late, right)
			}
		}
		s := jsonrpc2.NewHeaderStream(&reader{ch: r.in}, out)
		r.conn = jsonrpc2.NewConn(s)
		r.conn.AddHandler(&handler{r: r})
		running := true
		mcrt.GoNamed("run", func() {
			r.conn.Run(context.Background())
			running = false
		})
		for _, m := range script {
			mcrt.SendTo(r.in)(Frame(m.Body))
		}
		mcrt.Settle()
		if r.seen != len(script) {
			r.fail(prop, "only %d of %d messages were handled; blocked: %s", r.seen, len(script), strings.Join(mcrt.Blocked(), "; "))
			return
		}
		for _, h := range r.hs {
			if !h.returned && !(script[h.idx].Kind == "callcancel") {
				r.fail(prop, "message %d (%s) never finished; blocked: %s", h.idx, script[h.idx].Name, strings.Join(mcrt.Blocked(), "; "))
				return
			}
		}
		// the connection must still work
		mcrt.Close(r.in)
		mcrt.Settle()
		if running {
			r.fail(prop, "the connection does not end when its stream does; blocked: %s", strings.Join(mcrt.Blocked(), "; "))
			return
		}
		if b := mcrt.Blocked(); len(b) > 0 {
			r.fail(prop, "blocked for ever: %s", strings.Join(b, "; "))
			return
		}
		r.check()
	}
}

func (r *run) check() {
	if r.out.done != len(r.out.buf) {
		r.fail("C03", "the bytes written are no sequence of whole frames: %q", r.out.buf[r.out.done:])
	}
	var got []struct {
		ID     json.RawMessage
		Method *string
		Result json.RawMessage
		Error  json.RawMessage
	}
	b := r.out.buf[:r.out.done]
	for len(b) > 0 {
		i := bytes.Index(b, []byte("\r\n\r\n"))
		n, _ := strconv.Atoi(strings.TrimSpace(strings.TrimPrefix(string(b[:i]), "Content-Length:")))
		body := b[i+4 : i+4+n]
		b = b[i+4+n:]
		var m struct {
			Jsonrpc string
			ID      json.RawMessage
			Method  *string
			Result  json.RawMessage
			Error   json.RawMessage
		}
		if err := json.Unmarshal(body, &m); err != nil || m.Jsonrpc != "2.0" {
			r.fail("C03", "a frame holds no message: %q", body)
			continue
		}
		got = append(got, struct {
			ID     json.RawMessage
			Method *string
			Result json.RawMessage
			Error  json.RawMessage
		}{m.ID, m.Method, m.Result, m.Error})
	}
	replies := map[string][]string{}
	for _, m := range got {
		if m.Method != nil {
			continue
		}
		v := "error"
		if m.Error == nil {
			v = "result:" + string(m.Result)
		} else if m.Result != nil {
			v = "both a result and an error"
		}
		replies[string(m.ID)] = append(replies[string(m.ID)], v)
	}
	for _, m := range r.script {
		if m.ID == "" {
			continue
		}
		l := replies[m.ID]
		if len(l) != 1 {
			r.fail("C01", "request %s with id %s got %d replies", m.Name, m.ID, len(l))
			continue
		}
		if m.Want != "any" && l[0] != m.Want {
			r.fail("C01", "request %s with id %s got the reply %s, want %s", m.Name, m.ID, l[0], m.Want)
		}
		delete(replies, m.ID)
	}
	for id, l := range replies {
		r.fail("C01", "%d replies with id %s, which no request has", len(l), id)
	}
}

// Make builds the k-th message of a script.
func Make(k int, kind string, id string) Msg {
	want := fmt.Sprintf(`result:{"K":%d}`, k)
	switch kind {
	case "null":
		want = "result:null"
	case "err", "none", "parnone", "unknown":
		want = "error"
	case "replynote", "cancelprev", "cancelnext", "note":
		id, want = "", ""
	}
	m := Msg{Name: kind, Kind: kind, ID: id, Want: want}
	if kind == "note" {
		kind = "none"
	}
	if id != "" {
		m.Body = fmt.Sprintf(`{"jsonrpc":"2.0","id":%s,"method":%q,"params":{"K":%d}}`, id, kind, k)
	} else {
		m.Body = fmt.Sprintf(`{"jsonrpc":"2.0","method":%q,"params":{"K":%d}}`, kind, k)
		m.Want = ""
	}
	return m
}
