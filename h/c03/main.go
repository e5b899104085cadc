// C03: message framing survives any split of the byte stream.
package main

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"io"
	"strings"

	"github.com/john-nguyen09/phpintel/internal/jsonrpc2"
	"github.com/john-nguyen09/phpintel/internal/zzverif/kit"
	"github.com/john-nguyen09/phpintel/internal/zzverif/mcrt"
	"github.com/john-nguyen09/phpintel/internal/zzverif/mcx"
)

var errTransport = errors.New("transport broke")

// cutReader delivers data in the given pieces, then err. With eofWith the error comes together with the last piece.
type cutReader struct {
	pieces  [][]byte
	err     error
	eofWith bool
	zero    bool
}

func (r *cutReader) Read(p []byte) (int, error) {
	for len(r.pieces) > 0 && len(r.pieces[0]) == 0 {
		r.pieces = r.pieces[1:]
		if r.zero {
			return 0, nil
		}
	}
	if len(r.pieces) == 0 {
		return 0, r.err
	}
	n := copy(p, r.pieces[0])
	r.pieces[0] = r.pieces[0][n:]
	if len(r.pieces[0]) == 0 {
		r.pieces = r.pieces[1:]
		if len(r.pieces) == 0 && r.eofWith {
			return n, r.err
		}
	}
	return n, nil
}

type stream struct {
	name   string
	data   string
	bodies []string
	bad    bool // after the bodies comes something malformed: Read must fail
	plain  bool
}

func frame(b string) string { return fmt.Sprintf("Content-Length: %d\r\n\r\n%s", len(b), b) }

func streams() []stream {
	a, b, u := `{"a":1}`, `[]`, `{"é":"\u0001 😀\r\n\r\n"}`
	tricky := "Content-Length: 3\r\n\r\n{}\n"
	out := []stream{
		{name: "two", data: frame(a) + frame(b), bodies: []string{a, b}},
		{name: "unicode", data: frame(u) + frame(a), bodies: []string{u, a}},
		{name: "nested header", data: frame(tricky) + frame(b), bodies: []string{tricky, b}},
		{name: "body ends in newlines", data: frame("{}\r\n") + frame("\r\n\r\n{}") + frame(b), bodies: []string{"{}\r\n", "\r\n\r\n{}", b}},
		{name: "type after", data: "Content-Length: 2\r\nContent-Type: application/vscode-jsonrpc; charset=utf-8\r\n\r\n{}" + frame(a), bodies: []string{"{}", a}},
		{name: "type before", data: "Content-Type: x:y\r\nContent-Length: 2\r\n\r\n{}" + frame(a), bodies: []string{"{}", a}},
		{name: "spaces", data: "Content-Length:   2  \r\n\r\n{}" + frame(a), bodies: []string{"{}", a}},
		{name: "no space", data: "Content-Length:2\r\n\r\n{}" + frame(a), bodies: []string{"{}", a}},
		{name: "ten bytes", data: frame(`["234567"]`) + frame(strings.Repeat(" ", 110)), bodies: []string{`["234567"]`, strings.Repeat(" ", 110)}},
	}
	for n, h := range map[string]string{
		"no length": "Content-Type: x\r\n\r\n{}", "negative": "Content-Length: -2\r\n\r\n{}", "zero": "Content-Length: 0\r\n\r\n",
		"not a number": "Content-Length: 2x\r\n\r\n{}", "empty number": "Content-Length: \r\n\r\n{}", "no colon": "Content-Length 2\r\n\r\n{}",
		"overflow": "Content-Length: 99999999999999999999\r\n\r\n{}", "no header": "\r\n{}", "plus": "Content-Length: 2 2\r\n\r\n{}", "hex": "Content-Length: 0x2\r\n\r\n{}",
	} {
		out = append(out, stream{name: "malformed " + n, data: frame(a) + h, bodies: []string{a}, bad: true})
	}
	return out
}

func check(c *kit.C, sub string, s stream, r io.Reader, avail int) {
	c.Eval(1)
	st := jsonrpc2.NewHeaderStream(r, io.Discard)
	if s.plain {
		st = jsonrpc2.NewStream(r, io.Discard)
	}
	// how many whole bodies are within the available bytes
	want := 0
	if avail >= 0 {
		pos := 0
		for _, b := range s.bodies {
			i := strings.Index(s.data[pos:], b)
			// the body follows its own header
			h := strings.Index(s.data[pos:], "\r\n\r\n")
			if h >= 0 && !s.plain {
				i = h + 4
			}
			pos += i + len(b)
			if pos <= avail {
				want++
			}
		}
	} else {
		want = len(s.bodies)
	}
	total := int64(0)
	for i := 0; i < want; i++ {
		got, n, err := st.Read(context.Background())
		c.Trans(1)
		if err != nil {
			c.Fail(sub, "message %d: %v", i, err)
			return
		}
		if string(got) != s.bodies[i] {
			c.Fail(sub, "message %d is %q, want %q", i, got, s.bodies[i])
			return
		}
		total += n
	}
	got, n, err := st.Read(context.Background())
	if err == nil {
		c.Fail(sub, "after the last whole message Read returned %q and no error", got)
		return
	}
	if len(got) != 0 {
		c.Fail(sub, "Read returned %d bytes together with an error", len(got))
	}
	_ = n
}

func cuts(c *kit.C, s stream, three bool) {
	d := s.data
	for i := 0; i <= len(d); i++ {
		for _, zero := range []bool{false, true} {
			for _, with := range []bool{false, true} {
				sub := fmt.Sprintf("cut at %d zero=%v with=%v", i, zero, with)
				c.Sub(sub)
				check(c, sub, s, &cutReader{pieces: [][]byte{[]byte(d[:i]), []byte(d[i:])}, err: io.EOF, eofWith: with, zero: zero}, -1)
			}
		}
		if three {
			for j := i; j <= len(d); j++ {
				sub := fmt.Sprintf("cuts at %d, %d", i, j)
				c.Sub(sub)
				check(c, sub, s, &cutReader{pieces: [][]byte{[]byte(d[:i]), []byte(d[i:j]), []byte(d[j:])}, err: io.EOF}, -1)
			}
		}
		// truncation after i bytes, delivered whole and byte by byte
		if !s.bad {
			for _, e := range []error{io.EOF, errTransport} {
				sub := fmt.Sprintf("truncated after %d: %v", i, e)
				c.Sub(sub)
				check(c, sub, s, &cutReader{pieces: [][]byte{[]byte(d[:i])}, err: e}, i)
				var ps [][]byte
				for k := 0; k < i; k++ {
					ps = append(ps, []byte{d[k]})
				}
				check(c, sub+" bytewise", s, &cutReader{pieces: ps, err: e}, i)
			}
		}
	}
	for size := 1; size <= len(d); size++ {
		var ps [][]byte
		for k := 0; k < len(d); k += size {
			e := k + size
			if e > len(d) {
				e = len(d)
			}
			ps = append(ps, []byte(d[k:e]))
		}
		check(c, fmt.Sprintf("pieces of %d", size), s, &cutReader{pieces: ps, err: io.EOF}, -1)
	}
}

// shortWriter takes the bytes of each Write in pieces, with a scheduling point between them.
type pieceWriter struct {
	buf    []byte
	pieces int
	fail   int // fail the n-th write (1-based), 0 never
	n      int
}

func (w *pieceWriter) Write(p []byte) (int, error) {
	w.n++
	if w.n == w.fail {
		k := len(p) / 2
		w.buf = append(w.buf, p[:k]...)
		return k, errTransport
	}
	step := (len(p) + w.pieces - 1) / w.pieces
	if step == 0 {
		step = 1
	}
	for i := 0; i < len(p); i += step {
		e := i + step
		if e > len(p) {
			e = len(p)
		}
		mcrt.Point("write")
		w.buf = append(w.buf, p[i:e]...)
	}
	return len(p), nil
}

// writers: n goroutines write their messages; the output must be whole frames, each goroutine's in its order.
func writers(n, msgs, pieces int, cancelled bool) func() {
	return func() {
		w := &pieceWriter{pieces: pieces}
		st := jsonrpc2.NewHeaderStream(strings.NewReader(""), w)
		left := n
		skipped := map[string]bool{}
		body := func(g, k int) string {
			return fmt.Sprintf(`{"g":%d,"k":%d,"p":"%s"}`, g, k, strings.Repeat("é", g+2*k))
		}
		for g := 0; g < n; g++ {
			g := g
			mcrt.GoNamed(fmt.Sprint("writer ", g), func() {
				defer func() { left-- }()
				for k := 0; k < msgs; k++ {
					ctx, cancel := context.WithCancel(context.Background())
					if cancelled && g == 0 {
						mcrt.GoNamed("canceller", func() { mcrt.Point("cancel"); cancel() })
					}
					b := body(g, k)
					total, err := st.Write(ctx, []byte(b))
					if err != nil {
						if ctx.Err() == nil {
							mcrt.Failf("Write: %v", err)
						}
						skipped[b] = true
					} else if total != int64(len(frame(b))) {
						mcrt.Failf("Write reports %d bytes, the frame has %d", total, len(frame(b)))
					}
					cancel()
				}
			})
		}
		mcrt.Settle()
		if left != 0 {
			mcrt.Failf("a writer is blocked: %v", mcrt.Blocked())
			return
		}
		rest := string(w.buf)
		next := make([]int, n)
		for len(rest) > 0 {
			ok := false
			for g := 0; g < n && !ok; g++ {
				for next[g] < msgs && skipped[body(g, next[g])] {
					next[g]++
				}
				if next[g] < msgs && strings.HasPrefix(rest, frame(body(g, next[g]))) {
					rest = rest[len(frame(body(g, next[g]))):]
					next[g]++
					ok = true
				}
			}
			if !ok {
				mcrt.Failf("the output holds no whole frame at %q", rest)
				return
			}
		}
		for g := range next {
			for next[g] < msgs && skipped[body(g, next[g])] {
				next[g]++
			}
			if next[g] != msgs {
				mcrt.Failf("message %d of writer %d was not written", next[g], g)
			}
		}
	}
}

func main() {
	kit.Main(kit.Check{
		ID: "C03", Level: "model_checking",
		Rule:        "Every split of the byte stream into two and three reads, every piece size and every truncation point is delivered to the real stream reader and the messages that come out are compared with those sent; every schedule of concurrent writers within the preemption bound is run on the real stream writer and the output parsed.",
		Assumptions: []string{"the transport delivers bytes in order", "goroutines switch at lock and transport operations"},
		Bounds: func(t bool) string {
			if t {
				return "9 well-formed and 10 malformed streams: all two- and three-way splits, all piece sizes, all truncations; 3 writers x 2 messages with 4 preemptions"
			}
			return "9 well-formed and 10 malformed streams: all two- and three-way splits, all piece sizes, all truncations; 2 writers x 2 and 3 writers x 1 messages with 3 preemptions"
		},
		Enumerate: func(e *kit.Enum) {
			for _, s := range streams() {
				s := s
				e.Case("stream "+s.name, func(c *kit.C) {
					cuts(c, s, true)
					c.State(s.name)
					c.Distinct(s.name)
					c.Sample(s.data)
				})
			}
			for _, l := range [][]string{{`{"a":1}`, `[1,2]`}, {`{"x":"}{"}`, `{}`, `[]`}} {
				l := l
				e.Case("plain "+strings.Join(l, ""), func(c *kit.C) {
					s := stream{plain: true, data: strings.Join(l, ""), bodies: l}
					d := s.data
					for i := 0; i <= len(d); i++ {
						for j := i; j <= len(d); j++ {
							check(c, fmt.Sprintf("cuts at %d, %d", i, j), s, &cutReader{pieces: [][]byte{[]byte(d[:i]), []byte(d[i:j]), []byte(d[j:])}, err: io.EOF}, -1)
						}
					}
					c.Distinct(c.Key)
				})
			}
			type wc struct {
				n, m, p, pre int
				cancel       bool
			}
			l := []wc{{2, 1, 2, 4, false}, {2, 2, 1, 3, false}, {3, 1, 2, 3, false}, {2, 1, 2, 3, true}, {2, 2, 2, 2, true}}
			if e.Thorough {
				l = append(l, wc{2, 2, 2, 5, false}, wc{3, 2, 1, 4, false}, wc{3, 1, 3, 4, false}, wc{2, 2, 2, 4, true}, wc{3, 1, 2, 3, true})
			}
			for _, w := range l {
				w := w
				sh := 1
				if w.n*w.m > 3 {
					sh = 8
				}
				for k := 0; k < sh; k++ {
					k := k
					e.Case(fmt.Sprintf("writers %+v shard %d", w, k), func(c *kit.C) {
						mcx.Explore(c, c.Key, mcx.Opt{Preempt: w.pre, Shard: k, N: sh}, writers(w.n, w.m, w.p, w.cancel))
						c.State(c.Key)
						c.Distinct(c.Key)
					})
				}
			}
			_ = bytes.Equal
		},
	})
}
