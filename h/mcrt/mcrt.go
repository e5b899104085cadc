// Package mcrt is the runtime of the schedule explorer: it runs the goroutines of
// instrumented code one at a time and enumerates, by depth-first search, every
// schedule up to a preemption bound. Outside an exploration all operations are the
// real ones.
package mcrt

import (
	"fmt"
	"reflect"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"time"
)

type thread struct {
	id     int
	name   string
	wake   chan struct{}
	cond   func() bool // nil: runnable
	what   string      // what it is waiting for or about to do
	cases  []Case      // channel operation it is parked in
	done   bool
	gone   chan struct{}
	res    Sel
	fired  bool // a partner completed the channel operation
	daemon bool
}

// decision is one scheduling or data choice made during an execution.
type decision struct {
	n      int  // alternatives
	chosen int  // taken
	free   bool // choosing another alternative is no preemption
	data   bool // not about scheduling
}

// Exec is one execution.
type Exec struct {
	quiet     bool
	threads   []*thread
	cur       *thread
	dec       []decision
	prefix    []int
	preempts  int
	aborted   bool
	abortWhy  string
	trace     []string
	chans     map[uintptr]*vchan
	inside    map[interface{}]map[int]*section
	fails     []string
	steps     int
	maxSteps  int
	finish    chan struct{}
	finished  bool
	panicText string
	keepTrace bool
	points    int
}

var ex *Exec

// Active reports whether an exploration is running.
func Active() bool { return ex != nil && !ex.finished && !ex.aborted }

// Dying reports whether the goroutines of an ended execution are being unwound; operations do nothing then.
func Dying() bool { return ex != nil && (ex.finished || ex.aborted) }

type vchan struct {
	cap    int
	buf    []interface{}
	closed bool
	keep   interface{}
}

func logf(f string, a ...interface{}) {
	if ex.keepTrace && len(ex.trace) < 4000 {
		ex.trace = append(ex.trace, fmt.Sprintf("T%d:", ex.cur.id)+fmt.Sprintf(f, a...))
	}
}

// Log adds a line to the trace of the execution.
func Log(f string, a ...interface{}) {
	if Active() {
		logf(f, a...)
	}
}

// Failf records a violation in the running execution.
func Failf(f string, a ...interface{}) {
	if ex != nil {
		ex.fails = append(ex.fails, fmt.Sprintf(f, a...))
	}
}

func (e *Exec) enabled() []*thread {
	var out []*thread
	add := func(t *thread) {
		if !t.done && (t.cond == nil || t.cond()) {
			out = append(out, t)
		}
	}
	if e.cur != nil {
		add(e.cur)
	}
	for _, t := range e.threads {
		if t != e.cur {
			add(t)
		}
	}
	return out
}

// choose makes a decision among n alternatives.
func (e *Exec) choose(n int, free, data bool) int {
	if n <= 1 || e.quiet {
		return 0
	}
	i := len(e.dec)
	c := 0
	if i < len(e.prefix) {
		c = e.prefix[i]
		if c >= n {
			e.fails = append(e.fails, fmt.Sprintf("INTERNAL nondeterminism: decision %d has %d alternatives, replaying %d", i, n, c))
			c = 0
		}
	}
	e.dec = append(e.dec, decision{n, c, free, data})
	if c != 0 && !free {
		e.preempts++
	}
	return c
}

// Choose makes a free data choice among n alternatives.
func Choose(n int) int {
	if !Active() {
		return 0
	}
	c := ex.choose(n, true, true)
	logf("choose %d/%d", c, n)
	return c
}

func (e *Exec) abort(why string) {
	if !e.aborted {
		e.aborted = true
		e.abortWhy = why
	}
}

// schedule hands control to the next thread; the caller's thread state is already set.
func (e *Exec) schedule(self *thread) {
	if e.aborted {
		e.die(self)
		return
	}
	e.steps++
	if e.steps > e.maxSteps {
		e.abort(fmt.Sprintf("no end after %d steps (livelock?)", e.maxSteps))
		e.die(self)
		return
	}
	var en []*thread
	for tries := 0; ; tries++ {
		en = e.enabled()
		if len(en) > 0 {
			break
		}
		if e.onlyDaemons() {
			e.end()
			e.die(self)
			return
		}
		// threads may be waiting for something outside (a context, a real channel)
		if tries >= 3 {
			e.abort("deadlock: " + e.waiting())
			e.die(self)
			return
		}
		runtime.Gosched()
		time.Sleep(200 * time.Microsecond)
	}
	selfEnabled := !self.done && en[0] == self
	t := en[e.choose(len(en), !selfEnabled, false)]
	if t == self {
		self.cond = nil
		return
	}
	t.cond = nil
	e.cur = t
	t.wake <- struct{}{}
	if self.done {
		return
	}
	<-self.wake
	if e.aborted || e.finished {
		e.die(self)
	}
}

func (e *Exec) waiting() string {
	var l []string
	for _, t := range e.threads {
		if !t.done && !t.daemon {
			l = append(l, fmt.Sprintf("T%d(%s) waits for %s", t.id, t.name, t.what))
		}
	}
	sort.Strings(l)
	return strings.Join(l, "; ")
}

func (e *Exec) onlyDaemons() bool {
	for _, t := range e.threads {
		if !t.done && !t.daemon {
			return false
		}
	}
	return true
}

// end marks the execution as finished.
func (e *Exec) end() {
	if !e.finished {
		e.finished = true
		close(e.finish)
	}
}

// die ends the calling goroutine of an aborted or finished execution.
func (e *Exec) die(self *thread) {
	e.end()
	if self.done {
		return
	}
	self.done = true
	runtime.Goexit()
}

// yield parks the current thread until cond holds and it is chosen.
func yield(what string, cond func() bool) {
	e := ex
	self := e.cur
	self.what = what
	self.cond = cond
	e.points++
	e.schedule(self)
}

// Point is a scheduling point.
func Point(what string) {
	if !Active() {
		return
	}
	yield(what, nil)
	logf("%s", what)
}

// Wait parks until cond holds.
func Wait(what string, cond func() bool) {
	if Dying() {
		return
	}
	if !Active() {
		panic("mcrt.Wait outside an exploration: " + what)
	}
	yield(what, cond)
	logf("%s", what)
}

// Go starts a controlled goroutine.
func Go(f func()) { GoNamed("", f) }

// GoNamed starts a controlled goroutine with a name for reports.
func GoNamed(name string, f func()) {
	if Dying() {
		return
	}
	if !Active() {
		go f()
		return
	}
	// no scheduling point: the next operation of either thread is one
	ex.spawn(name, false, f)
}

// Daemon marks the current thread as one that may stay blocked at the end.
func Daemon() {
	if Active() {
		ex.cur.daemon = true
	}
}

// Settle waits until every other non-daemon thread is blocked or done and no other thread can run.
func Settle() {
	if !Active() {
		return
	}
	e := ex
	self := e.cur
	Wait("quiescence", func() bool {
		for _, t := range e.threads {
			if t == self || t.done {
				continue
			}
			if t.cond == nil || t.cond() {
				return false
			}
		}
		return true
	})
}

// Quiet switches choices off (the first alternative is taken) and on again.
func Quiet(on bool) {
	if Active() {
		ex.quiet = on
	}
}

// Finish ends the execution, whatever the other threads wait for.
func Finish() {
	if !Active() {
		return
	}
	e := ex
	self := e.cur
	e.die(self)
}

// Waiting lists what the other threads that are not done wait for.
func Waiting() []string {
	var l []string
	for _, t := range ex.threads {
		if !t.done && t != ex.cur {
			l = append(l, t.what)
		}
	}
	sort.Strings(l)
	return l
}

// Blocked lists the threads that are neither done nor runnable.
func Blocked() []string {
	var l []string
	for _, t := range ex.threads {
		if !t.done && t != ex.cur {
			l = append(l, fmt.Sprintf("T%d(%s): %s", t.id, t.name, t.what))
		}
	}
	return l
}

func (e *Exec) spawn(name string, daemon bool, f func()) *thread {
	t := &thread{id: len(e.threads), name: name, wake: make(chan struct{}), gone: make(chan struct{}), daemon: daemon, what: "start"}
	e.threads = append(e.threads, t)
	go func() {
		defer close(t.gone)
		<-t.wake
		normal := false
		defer func() {
			if !normal && !e.aborted && !e.finished {
				if p := recover(); p != nil {
					e.panicText = fmt.Sprintf("panic: %v\n%s", p, debug.Stack())
					e.abort(fmt.Sprintf("panic: %v", p))
				}
			} else {
				recover()
			}
			if t.done {
				return
			}
			t.done = true
			if e.finished {
				return
			}
			if e.aborted {
				e.end()
				return
			}
			if t.id == 0 {
				// the main thread has returned: the execution is over
				e.end()
				return
			}
			e.schedule(t)
		}()
		if e.finished || e.aborted {
			return
		}
		f()
		normal = true
	}()
	return t
}

// Leave ends what Enter began.
func Leave(obj interface{}) {
	if !Active() {
		return
	}
	if m := ex.inside[obj]; m != nil {
		if m[ex.cur.id].n--; m[ex.cur.id].n == 0 {
			delete(m, ex.cur.id)
		}
	}
}

type section struct {
	what string
	n    int
}

// Enter marks the begin of an exclusive section and is a scheduling point.
func Enter(obj interface{}, what string) {
	if !Active() {
		return
	}
	m := ex.inside[obj]
	if m == nil {
		m = map[int]*section{}
		ex.inside[obj] = m
	}
	for id, w := range m {
		if id != ex.cur.id {
			Failf("%s runs while another task is in %s of the same object", what, w.what)
		}
	}
	if m[ex.cur.id] == nil {
		m[ex.cur.id] = &section{what: what}
	}
	m[ex.cur.id].n++
	Point("in " + what)
}

// ---- channels ----

// Case is one alternative of a select.
type Case struct {
	recv bool
	id   uintptr
	ch   reflect.Value
	v    *vchan
	ext  bool
	val  interface{}
}

// Sel is the outcome of a select.
type Sel struct {
	Index int
	Val   interface{}
	Ok    bool
}

// MakeChan makes a channel known to the explorer.
func MakeChan[T any](n int) chan T {
	c := make(chan T, n)
	if Active() {
		ex.chans[reflect.ValueOf(c).Pointer()] = &vchan{cap: n, keep: c}
	}
	return c
}

func lookup(v reflect.Value) (*vchan, bool) {
	if v.IsNil() {
		return nil, false
	}
	vc, ok := ex.chans[v.Pointer()]
	return vc, ok
}

// RecvCase is a receive alternative.
func RecvCase[T any](ch <-chan T) Case {
	return Case{recv: true, ch: reflect.ValueOf(ch)}
}

// SendCase is a send alternative.
func SendCase[T any](ch chan<- T) func(T) Case {
	return func(v T) Case { return Case{ch: reflect.ValueOf(ch), val: v} }
}

// Got extracts the received value.
func Got[T any](ch <-chan T, s Sel) T {
	if s.Val == nil {
		var z T
		return z
	}
	return s.Val.(T)
}

// Got2 extracts the received value and whether the channel was open.
func Got2[T any](ch <-chan T, s Sel) (T, bool) { return Got(ch, s), s.Ok }

// extReady polls a channel the explorer does not know (a context's Done channel).
func extReady(c *Case) bool {
	if c.ch.IsNil() {
		return false
	}
	if c.ch.Type().Elem().Size() != 0 {
		return c.ch.Len() > 0
	}
	chosen, _, _ := reflect.Select([]reflect.SelectCase{{Dir: reflect.SelectRecv, Chan: c.ch}, {Dir: reflect.SelectDefault}})
	return chosen == 0
}

func partner(self *thread, c *Case) (*thread, int) {
	for _, t := range ex.threads {
		if t == self || t.done || t.fired || t.cases == nil {
			continue
		}
		for i := range t.cases {
			o := &t.cases[i]
			if o.v == c.v && o.v != nil && o.recv != c.recv {
				return t, i
			}
		}
	}
	return nil, 0
}

func ready(self *thread, c *Case) bool {
	if c.ext {
		return extReady(c)
	}
	if c.v == nil {
		return false
	}
	if c.recv {
		if len(c.v.buf) > 0 || c.v.closed {
			return true
		}
		t, _ := partner(self, c)
		return t != nil
	}
	if c.v.closed || len(c.v.buf) < c.v.cap {
		return true
	}
	t, _ := partner(self, c)
	return t != nil
}

func chanOp(what string, hasDefault bool, cases []Case) Sel {
	e := ex
	self := e.cur
	for i := range cases {
		c := &cases[i]
		if c.ch.IsNil() {
			continue
		}
		v, ok := lookup(c.ch)
		if ok {
			c.v = v
		} else {
			c.ext = true
		}
	}
	anyReady := func() bool {
		if self.fired {
			return true
		}
		for i := range cases {
			if ready(self, &cases[i]) {
				return true
			}
		}
		return false
	}
	self.fired = false
	if hasDefault {
		yield(what, nil)
		if !anyReady() {
			logf("%s: default", what)
			return Sel{Index: -1}
		}
	} else {
		self.cases = cases
		yield(what, anyReady)
		self.cases = nil
		if self.fired {
			self.fired = false
			logf("%s: case %d", what, self.res.Index)
			return self.res
		}
	}
	var rs []int
	for i := range cases {
		if ready(self, &cases[i]) {
			rs = append(rs, i)
		}
	}
	i := rs[e.choose(len(rs), true, false)]
	c := &cases[i]
	logf("%s: case %d", what, i)
	if c.ext {
		return Sel{Index: i}
	}
	if c.recv {
		if len(c.v.buf) > 0 {
			x := c.v.buf[0]
			c.v.buf = c.v.buf[1:]
			if t, k := partner(self, c); t != nil { // a sender blocked on a full buffer moves up
				c.v.buf = append(c.v.buf, t.cases[k].val)
				t.res, t.fired = Sel{Index: k, Ok: true}, true
			}
			return Sel{Index: i, Val: x, Ok: true}
		}
		if t, k := partner(self, c); t != nil {
			t.res, t.fired = Sel{Index: k, Ok: true}, true
			return Sel{Index: i, Val: t.cases[k].val, Ok: true}
		}
		return Sel{Index: i}
	}
	if c.v.closed {
		panic("send on closed channel")
	}
	if t, k := partner(self, c); t != nil && len(c.v.buf) == 0 {
		t.res, t.fired = Sel{Index: k, Val: c.val, Ok: true}, true
		return Sel{Index: i, Ok: true}
	}
	c.v.buf = append(c.v.buf, c.val)
	return Sel{Index: i, Ok: true}
}

// Select runs a select statement.
func Select(hasDefault bool, cases ...Case) Sel {
	if Dying() {
		runtime.Goexit()
	}
	if !Active() {
		return realSelect(hasDefault, cases)
	}
	return chanOp("select", hasDefault, cases)
}

func realSelect(hasDefault bool, cases []Case) Sel {
	var rc []reflect.SelectCase
	for _, c := range cases {
		if c.recv {
			rc = append(rc, reflect.SelectCase{Dir: reflect.SelectRecv, Chan: c.ch})
		} else {
			rc = append(rc, reflect.SelectCase{Dir: reflect.SelectSend, Chan: c.ch, Send: reflect.ValueOf(c.val)})
		}
	}
	if hasDefault {
		rc = append(rc, reflect.SelectCase{Dir: reflect.SelectDefault})
	}
	i, v, ok := reflect.Select(rc)
	if i == len(cases) {
		return Sel{Index: -1}
	}
	s := Sel{Index: i, Ok: ok}
	if cases[i].recv && ok {
		s.Val = v.Interface()
	}
	return s
}

// SendTo sends on a channel.
func SendTo[T any](ch chan<- T) func(T) {
	return func(v T) {
		if Dying() {
			return
		}
		if !Active() {
			ch <- v
			return
		}
		chanOp("send "+reflect.TypeOf(ch).Elem().String(), false, []Case{{ch: reflect.ValueOf(ch), val: v}})
	}
}

// Recv receives from a channel.
func Recv[T any](ch <-chan T) T {
	v, _ := Recv2(ch)
	return v
}

// Recv2 receives from a channel.
func Recv2[T any](ch <-chan T) (T, bool) {
	if Dying() {
		runtime.Goexit()
	}
	if !Active() {
		v, ok := <-ch
		return v, ok
	}
	rv := reflect.ValueOf(ch)
	if _, ok := lookup(rv); !ok && !rv.IsNil() && rv.Type().Elem().Size() != 0 {
		v, ok := <-ch // served by code outside the exploration
		return v, ok
	}
	s := chanOp("receive "+rv.Type().Elem().String(), false, []Case{{recv: true, ch: rv}})
	return Got(ch, s), s.Ok
}

// Close closes a channel.
func Close[T any](ch chan<- T) {
	if Dying() {
		return
	}
	if !Active() {
		close(ch)
		return
	}
	v, ok := lookup(reflect.ValueOf(ch))
	if !ok {
		close(ch)
		return
	}
	Point("close")
	if v.closed {
		panic("close of closed channel")
	}
	v.closed = true
}

// ---- exploration ----

// Result is what one execution did.
type Result struct {
	Fails    []string
	Abort    string
	Panic    string
	Choices  []int
	Preempts int
	Trace    []string
	Steps    int
}

// Options bound an exploration.
type Options struct {
	Preempt  int // preemption bound
	Delay    int // at most so many scheduling decisions differ from the default one; 0: no such bound, -1: none
	MaxSteps int
	MaxExecs int // 0: none
	Shard, N int // explore only every N-th subtree of first deviations
	Deadline time.Time
	Progress func(n int)
}

// Stats counts what was explored.
type Stats struct {
	Execs, Steps int
	Capped       bool
	MaxThreads   int
}

func run(prefix []int, maxSteps int, keep bool, body func()) (*Exec, Result) {
	e := &Exec{prefix: prefix, chans: map[uintptr]*vchan{}, inside: map[interface{}]map[int]*section{}, maxSteps: maxSteps, finish: make(chan struct{}), keepTrace: keep}
	ex = e
	t := e.spawn("main", false, body)
	e.cur = t
	t.wake <- struct{}{}
	<-e.finish
	// let every parked goroutine die
	for _, t := range e.threads {
		select {
		case t.wake <- struct{}{}:
			<-t.gone
		case <-t.gone:
		case <-time.After(2 * time.Second):
		}
	}
	ex = nil
	r := Result{Fails: e.fails, Abort: e.abortWhy, Panic: e.panicText, Preempts: e.preempts, Trace: e.trace, Steps: e.steps}
	for _, d := range e.dec {
		r.Choices = append(r.Choices, d.chosen)
	}
	return e, r
}

// Replay runs one schedule and returns its trace.
func Replay(choices []int, maxSteps int, body func()) Result {
	if maxSteps == 0 {
		maxSteps = 20000
	}
	_, r := run(choices, maxSteps, true, body)
	return r
}

var initMu sync.Mutex

// Explore runs body under every schedule within the bounds. visit is called after each
// execution and returns false to stop.
func Explore(o Options, body func(), visit func(Result) bool) Stats {
	initMu.Lock()
	defer initMu.Unlock()
	if o.MaxSteps == 0 {
		o.MaxSteps = 20000
	}
	if o.N == 0 {
		o.N = 1
	}
	var st Stats
	one := func(prefix []int) (*Exec, bool) {
		e, r := run(prefix, o.MaxSteps, false, body)
		st.Execs++
		st.Steps += e.steps
		if len(e.threads) > st.MaxThreads {
			st.MaxThreads = len(e.threads)
		}
		if o.Progress != nil && st.Execs%64 == 0 {
			o.Progress(st.Execs)
		}
		ok := visit(r)
		if o.MaxExecs > 0 && st.Execs >= o.MaxExecs {
			st.Capped = true
			ok = false
		}
		if !o.Deadline.IsZero() && time.Now().After(o.Deadline) {
			st.Capped = true
			ok = false
		}
		return e, ok
	}
	// root execution: all defaults
	e, ok := one(nil)
	if !ok {
		return st
	}
	sub := 0
	// explore subtree: all executions whose choices start with prefix; e is the execution of prefix+defaults
	var expand func(e *Exec, from int, used, delays int, top bool) bool
	expand = func(e *Exec, from int, used, delays int, top bool) bool {
		dec := append([]decision{}, e.dec...)
		for i := from; i < len(dec); i++ {
			cost := 0
			if !dec[i].free {
				cost = 1
			}
			delay := 1
			if dec[i].data {
				delay = 0
			}
			if used+cost > o.Preempt || o.Delay > 0 && delays+delay > o.Delay || o.Delay < 0 && delay > 0 {
				continue
			}
			for a := 1; a < dec[i].n; a++ {
				if top {
					sub++
					if sub%o.N != o.Shard {
						continue
					}
				}
				p := make([]int, i+1)
				for k := 0; k < i; k++ {
					p[k] = dec[k].chosen
				}
				p[i] = a
				e2, ok := one(p)
				if !ok {
					return false
				}
				if !expand(e2, i+1, used+cost, delays+delay, false) {
					return false
				}
			}
		}
		return true
	}
	expand(e, 0, 0, 0, true)
	return st
}
