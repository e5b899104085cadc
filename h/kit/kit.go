// Package kit runs an exhaustive enumeration of cases against the real code, in
// parallel worker processes, and reports violations, known findings and evidence.
package kit

import (
	"bufio"
	"bytes"
	"encoding/json"
	"fmt"
	"hash/fnv"
	"io"
	"log"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"runtime"
	"runtime/debug"
	"runtime/pprof"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// Check describes one property check.
type Check struct {
	ID          string
	Level       string // model_checking, fault_enumeration, exploration
	Rule        string
	Assumptions []string
	// Enumerate calls e.Case for every case, in the same order every time.
	Enumerate func(e *Enum)
	// Bounds explains what was enumerated for the tier.
	Bounds func(thorough bool) string
	// HangSeconds is how long one case may take before it counts as a hang.
	HangSeconds int
	// Workers overrides the number of worker processes.
	Workers int
	// BudgetSeconds caps the run (quick, thorough); reaching it ends the run with exhaustive:false.
	BudgetQuick, BudgetThorough int
	// Setup runs once per worker before enumeration.
	Setup func()
}

// Enum is handed to Enumerate.
type Enum struct {
	Thorough bool
	Scratch  string // private scratch directory of this worker
	shard    int
	nshards  int
	start    int
	only     string
	index    int
	chk      *Check
	st       *stats
	stop     bool
	deadline time.Time
	prog     *os.File
	viol     []Violation
	distinct map[uint64]struct{}
	states   map[uint64]struct{}
	replay   bool
}

type stats struct {
	Cases       int64            `json:"cases"`
	Evals       int64            `json:"evals"`
	Transitions int64            `json:"transitions"`
	Distinct    int64            `json:"distinct"`
	States      int64            `json:"states"`
	Samples     []string         `json:"samples"`
	Capped      bool             `json:"capped"`
	Extra       map[string]int64 `json:"extra"`
}

// Violation is one failed case.
type Violation struct {
	Key string `json:"key"`
	Sub string `json:"sub"`
	Msg string `json:"msg"`
}

func (v Violation) id() string { return v.Key + " | " + v.Sub }

// C is the context of one running case.
type C struct {
	e     *Enum
	Key   string
	fails int
	sub   string
}

// Case registers one case. key must be unique and stable.
func (e *Enum) Case(key string, run func(c *C)) {
	if e.stop {
		return
	}
	i := e.index
	e.index++
	if e.only != "" {
		if key != e.only {
			return
		}
	} else {
		if i%e.nshards != e.shard || i < e.start {
			return
		}
		if time.Now().After(e.deadline) {
			e.st.Capped = true
			e.stop = true
			return
		}
	}
	e.progress(i, key, "")
	c := &C{e: e, Key: key}
	atomic.AddInt64(&e.st.Cases, 1)
	func() {
		defer func() {
			if r := recover(); r != nil {
				if _, ok := r.(abortCase); ok {
					return
				}
				c.Fail(c.sub, fmt.Sprintf("panic: %v at %s", r, panicSite(debug.Stack())))
			}
		}()
		run(c)
	}()
	if len(e.st.Samples) < 2 {
		e.st.Samples = append(e.st.Samples, key)
	}
}

type abortCase struct{}

var frameRe = regexp.MustCompile(`(?m)^github\.com/john-nguyen09/[^\s]+\(.*\)$`)

// panicSite names the first function of the code under test on the panicking stack.
func panicSite(stack []byte) string {
	idx := bytes.Index(stack, []byte("panic("))
	if idx >= 0 {
		stack = stack[idx:]
	}
	for _, m := range frameRe.FindAll(stack, -1) {
		s := string(m)
		if strings.Contains(s, "zzverif") {
			continue
		}
		s = s[strings.LastIndex(s, "/")+1:]
		if p := strings.LastIndex(s, "("); p > 0 {
			// drop arguments
			s = s[:p]
		}
		return s
	}
	return "?"
}

func (e *Enum) progress(i int, key, sub string) {
	if e.prog == nil {
		return
	}
	b, _ := json.Marshal([]string{strconv.Itoa(i), key, sub})
	b = append(b, '\n')
	buf := make([]byte, 4096)
	for k := range buf {
		buf[k] = ' '
	}
	if len(b) > 4096 {
		b, _ = json.Marshal([]string{strconv.Itoa(i), key, "..."})
		if len(b) > 4090 {
			b = []byte(`["` + strconv.Itoa(i) + `","long key",""]`)
		}
		b = append(b, '\n')
	}
	copy(buf, b)
	e.prog.WriteAt(buf, 0)
}

// Sub names the part of the case being evaluated, for crash reports.
func (c *C) Sub(sub string) { c.sub = sub }

// SubP is Sub, also recorded for the supervisor (use before code that might kill or hang the process).
func (c *C) SubP(sub string) {
	c.sub = sub
	c.e.progress(c.e.index-1, c.Key, sub)
}

// Eval counts n oracle evaluations.
func (c *C) Eval(n int) { c.e.st.Evals += int64(n) }

// Trans counts n transitions (operations executed on the implementation).
func (c *C) Trans(n int) { c.e.st.Transitions += int64(n) }

// Count adds to a named counter in the evidence.
func (c *C) Count(name string, n int) {
	if c.e.st.Extra == nil {
		c.e.st.Extra = map[string]int64{}
	}
	c.e.st.Extra[name] += int64(n)
}

func h64(s string) uint64 {
	h := fnv.New64a()
	io.WriteString(h, s)
	return h.Sum64()
}

// State records a visited state by its canonical form.
func (c *C) State(canon string) { c.e.states[h64(canon)] = struct{}{} }

// Distinct records a distinct non-trivial outcome.
func (c *C) Distinct(canon string) { c.e.distinct[h64(canon)] = struct{}{} }

// Sample adds a sample to the evidence.
func (c *C) Sample(s string) {
	if len(c.e.st.Samples) < 6 {
		c.e.st.Samples = append(c.e.st.Samples, s)
	}
}

// Scratch is the worker's private scratch directory.
func (c *C) Scratch() string { return c.e.Scratch }

// Thorough tells the tier.
func (c *C) Thorough() bool { return c.e.Thorough }

// Fail records a violation.
func (c *C) Fail(sub, format string, a ...interface{}) {
	msg := format
	if len(a) > 0 {
		msg = fmt.Sprintf(format, a...)
	}
	c.fails++
	v := Violation{c.Key, sub, msg}
	if known(c.e.chk.ID, v) != nil {
		for _, w := range c.e.viol {
			if w == v {
				return
			}
		}
		if len(c.e.viol) < 400 {
			c.e.viol = append(c.e.viol, v)
		}
		return
	}
	n := 0
	for _, w := range c.e.viol {
		if known(c.e.chk.ID, w) == nil {
			n++
		}
	}
	max := 3
	if os.Getenv("VERIF_MAXVIOL") != "" {
		max, _ = strconv.Atoi(os.Getenv("VERIF_MAXVIOL"))
	}
	if n < max {
		c.e.viol = append(c.e.viol, v)
	}
	if n+1 >= max {
		c.e.stop = true
		panic(abortCase{})
	}
}

// Failed tells whether this case has failed already.
func (c *C) Failed() bool { return c.fails > 0 }

// ---- known findings ----

type finding struct {
	Property string `json:"property"`
	Status   string `json:"status"` // known | fixed
	Match    string `json:"match"`  // regexp over "key | sub | msg"
	What     string `json:"what"`
	Commit   string `json:"commit,omitempty"`
	re       *regexp.Regexp
}

var findings []*finding
var findingsOnce sync.Once

func loadFindings() {
	b, err := os.ReadFile(filepath.Join(root(), "known_findings.json"))
	if err != nil {
		return
	}
	var f struct {
		Findings []*finding `json:"findings"`
	}
	if err := json.Unmarshal(b, &f); err != nil {
		fmt.Fprintln(os.Stderr, "known_findings.json:", err)
		os.Exit(3)
	}
	for _, x := range f.Findings {
		if x.Status == "known" {
			x.re = regexp.MustCompile("^(?s:" + x.Match + ")$")
		}
	}
	findings = f.Findings
}

func known(id string, v Violation) *finding {
	findingsOnce.Do(loadFindings)
	for _, f := range findings {
		if f.Property == id && f.re != nil && f.re.MatchString(v.Key+" | "+v.Sub+" | "+v.Msg) {
			return f
		}
	}
	return nil
}

// Known reports whether a failure with this key/sub/msg is a listed finding (so that a harness can
// continue past it).
func (c *C) Known(sub, msg string) bool { return known(c.e.chk.ID, Violation{c.Key, sub, msg}) != nil }

func root() string {
	if r := os.Getenv("VERIF_ROOT"); r != "" {
		return r
	}
	return "/verif"
}

// ---- main ----

type workerOut struct {
	Stats    stats       `json:"stats"`
	Viol     []Violation `json:"viol"`
	Distinct []uint64    `json:"distinct"`
	States   []uint64    `json:"states"`
	Done     bool        `json:"done"`
}

// Main runs the check.
func Main(chk Check) {
	log.SetOutput(io.Discard)
	if os.Getenv("KIT_WORKER") != "" {
		worker(&chk)
		return
	}
	thorough := os.Getenv("VERIF_TIER") == "thorough"
	replay := ""
	for i := 1; i < len(os.Args); i++ {
		switch os.Args[i] {
		case "--thorough":
			thorough = true
		case "--replay":
			i++
			replay = os.Args[i]
		case "--only":
			i++
			os.Exit(runOnly(&chk, thorough, os.Args[i]))
		}
	}
	if replay != "" {
		b, err := os.ReadFile(replay)
		if err != nil {
			fmt.Println(err)
			os.Exit(3)
		}
		var v struct {
			Violation
			Tier string `json:"tier"`
		}
		json.Unmarshal(b, &v)
		os.Exit(runOnly(&chk, v.Tier == "thorough" || thorough, v.Key))
	}
	os.Exit(supervise(&chk, thorough))
}

func runOnly(chk *Check, thorough bool, key string) int {
	out, crashed, _ := runWorker(chk, thorough, 0, 1, 0, key, 3600, true)
	for _, v := range out.Viol {
		fmt.Printf("FAILED %s: %s\n", v.id(), v.Msg)
	}
	if crashed != nil {
		fmt.Printf("FAILED %s: %s\n", crashed.id(), crashed.Msg)
		return 1
	}
	if len(out.Viol) > 0 {
		return 1
	}
	fmt.Printf("%+v\n", out.Stats)
	fmt.Println("held")
	return 0
}

func scratchBase() string {
	for _, d := range []string{"/dev/shm", os.TempDir()} {
		if t, err := os.MkdirTemp(d, "vk-"); err == nil {
			return t
		}
	}
	panic("no scratch space")
}

func worker(chk *Check) {
	thorough := os.Getenv("KIT_THOROUGH") == "1"
	shard, _ := strconv.Atoi(os.Getenv("KIT_SHARD"))
	n, _ := strconv.Atoi(os.Getenv("KIT_N"))
	start, _ := strconv.Atoi(os.Getenv("KIT_START"))
	budget, _ := strconv.Atoi(os.Getenv("KIT_BUDGET"))
	dir := os.Getenv("KIT_DIR")
	os.Setenv("HOME", filepath.Join(dir, "home"))
	os.MkdirAll(filepath.Join(dir, "home"), 0o755)
	os.MkdirAll(filepath.Join(dir, "s"), 0o755)
	debug.SetGCPercent(200)
	debug.SetMaxStack(256 << 20)
	if chk.Workers != 1 && os.Getenv("GOMAXPROCS") == "" {
		runtime.GOMAXPROCS(2)
	}
	prog, _ := os.OpenFile(filepath.Join(dir, "progress"), os.O_CREATE|os.O_RDWR, 0o644)
	e := &Enum{Thorough: thorough, Scratch: filepath.Join(dir, "s"), shard: shard, nshards: n, start: start,
		only: os.Getenv("KIT_ONLY"), chk: chk, st: &stats{}, deadline: time.Now().Add(time.Duration(budget) * time.Second),
		prog: prog, distinct: map[uint64]struct{}{}, states: map[uint64]struct{}{}}
	if chk.Setup != nil {
		chk.Setup()
	}
	if f := os.Getenv("VERIF_PROF"); f != "" {
		w, _ := os.Create(f)
		pprof.StartCPUProfile(w)
		defer w.Close()
	}
	chk.Enumerate(e)
	pprof.StopCPUProfile()
	out := workerOut{Stats: *e.st, Viol: e.viol, Done: true}
	for h := range e.distinct {
		out.Distinct = append(out.Distinct, h)
	}
	for h := range e.states {
		out.States = append(out.States, h)
	}
	f, err := os.Create(filepath.Join(dir, "out.json"))
	if err != nil {
		panic(err)
	}
	w := bufio.NewWriter(f)
	json.NewEncoder(w).Encode(out)
	w.Flush()
	f.Close()
	os.Exit(0)
}

// runWorker runs one worker process; on a crash or hang it returns the violation and the case index.
func runWorker(chk *Check, thorough bool, shard, n, start int, only string, budget int, verbose bool) (workerOut, *Violation, int) {
	dir := scratchBase()
	defer os.RemoveAll(dir)
	cmd := exec.Command(os.Args[0])
	th := "0"
	if thorough {
		th = "1"
	}
	cmd.Env = append(os.Environ(), "KIT_WORKER=1", "KIT_THOROUGH="+th, "KIT_SHARD="+strconv.Itoa(shard), "KIT_N="+strconv.Itoa(n),
		"KIT_START="+strconv.Itoa(start), "KIT_BUDGET="+strconv.Itoa(budget), "KIT_DIR="+dir, "KIT_ONLY="+only)
	errf, _ := os.Create(filepath.Join(dir, "stderr"))
	cmd.Stderr = errf
	cmd.Stdout = errf
	if verbose {
		cmd.Stdout = os.Stdout
	}
	if err := cmd.Start(); err != nil {
		panic(err)
	}
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	hang := chk.HangSeconds
	if hang == 0 {
		hang = 60
	}
	last, lastT := "", time.Now()
	hung := false
	var err error
loop:
	for {
		select {
		case err = <-done:
			break loop
		case <-time.After(500 * time.Millisecond):
			b, _ := os.ReadFile(filepath.Join(dir, "progress"))
			if s := string(b); s != last {
				last, lastT = s, time.Now()
			} else if time.Since(lastT) > time.Duration(hang)*time.Second {
				hung = true
				cmd.Process.Signal(os.Signal(sigquit))
				select {
				case err = <-done:
				case <-time.After(5 * time.Second):
					cmd.Process.Kill()
					err = <-done
				}
				break loop
			}
		}
	}
	errf.Close()
	var out workerOut
	b, rerr := os.ReadFile(filepath.Join(dir, "out.json"))
	if rerr == nil {
		json.Unmarshal(b, &out)
	}
	if err == nil && out.Done {
		return out, nil, 0
	}
	pb, _ := os.ReadFile(filepath.Join(dir, "progress"))
	var p []string
	json.Unmarshal(bytes.TrimSpace(bytes.TrimRight(pb, " ")), &p)
	for len(p) < 3 {
		p = append(p, "0")
	}
	idx, _ := strconv.Atoi(p[0])
	eb, _ := os.ReadFile(filepath.Join(dir, "stderr"))
	msg := crashMessage(eb, hung, err)
	if os.Getenv("VERIF_DEBUG") != "" {
		fmt.Fprintf(os.Stderr, "%s\n", eb)
	}
	return out, &Violation{p[1], p[2], msg}, idx
}

var reHex = regexp.MustCompile(`0x[0-9a-f]+`)

func crashMessage(eb []byte, hung bool, err error) string {
	if hung {
		return "hang: no progress; stack: " + panicSiteAny(eb)
	}
	s := string(eb)
	for _, key := range []string{"panic: ", "fatal error: ", "runtime: goroutine stack exceeds"} {
		if i := strings.Index(s, key); i >= 0 {
			line := s[i:]
			if j := strings.IndexByte(line, '\n'); j > 0 {
				line = line[:j]
			}
			return "process died: " + reHex.ReplaceAllString(line, "0x") + " at " + panicSiteAny(eb[i:])
		}
	}
	if len(s) > 300 {
		s = s[len(s)-300:]
	}
	return fmt.Sprintf("process died: %v %s", err, s)
}

func panicSiteAny(b []byte) string {
	for _, m := range frameRe.FindAll(b, -1) {
		s := string(m)
		if strings.Contains(s, "zzverif") {
			continue
		}
		s = s[strings.LastIndex(s, "/")+1:]
		if p := strings.LastIndex(s, "("); p > 0 {
			s = s[:p]
		}
		return s
	}
	return "?"
}

func supervise(chk *Check, thorough bool) int {
	t0 := time.Now()
	n := chk.Workers
	if n == 0 {
		n = runtime.NumCPU()
		if n > 8 {
			n = 8
		}
	}
	if v := os.Getenv("VERIF_WORKERS"); v != "" {
		n, _ = strconv.Atoi(v)
	}
	budget := chk.BudgetQuick
	if budget == 0 {
		budget = 240
	}
	if thorough {
		budget = chk.BudgetThorough
		if budget == 0 {
			budget = 780
		}
	}
	if v := os.Getenv("VERIF_BUDGET"); v != "" {
		budget, _ = strconv.Atoi(v)
	}
	var mu sync.Mutex
	total := stats{Extra: map[string]int64{}}
	distinct, states := map[uint64]struct{}{}, map[uint64]struct{}{}
	var viol []Violation
	var wg sync.WaitGroup
	var stop int32
	for s := 0; s < n; s++ {
		wg.Add(1)
		go func(s int) {
			defer wg.Done()
			start := 0
			for {
				left := budget - int(time.Since(t0).Seconds())
				if left <= 0 || atomic.LoadInt32(&stop) != 0 {
					mu.Lock()
					total.Capped = true
					mu.Unlock()
					return
				}
				out, crash, idx := runWorker(chk, thorough, s, n, start, "", left, false)
				mu.Lock()
				total.Cases += out.Stats.Cases
				total.Evals += out.Stats.Evals
				total.Transitions += out.Stats.Transitions
				total.Capped = total.Capped || out.Stats.Capped
				for k, v := range out.Stats.Extra {
					total.Extra[k] += v
				}
				if len(total.Samples) < 6 {
					total.Samples = append(total.Samples, out.Stats.Samples...)
				}
				for _, h := range out.Distinct {
					distinct[h] = struct{}{}
				}
				for _, h := range out.States {
					states[h] = struct{}{}
				}
				viol = append(viol, out.Viol...)
				if crash != nil {
					viol = append(viol, *crash)
				}
				mu.Unlock()
				if crash == nil {
					return
				}
				if known(chk.ID, *crash) == nil {
					// stop this shard; others finish their budget on their own
					return
				}
				start = idx + 1
			}
		}(s)
	}
	wg.Wait()
	// classify
	seenKnown := map[string]bool{}
	var real []Violation
	for _, v := range viol {
		if f := known(chk.ID, v); f != nil {
			seenKnown[f.What] = true
		} else {
			real = append(real, v)
		}
	}
	sort.Slice(real, func(i, j int) bool {
		if len(real[i].Key) != len(real[j].Key) {
			return len(real[i].Key) < len(real[j].Key)
		}
		return real[i].id() < real[j].id()
	})
	// confirm: a violation must reproduce when its case is run alone
	var confirmed []Violation
	var flaky []string
	maxConfirm := 3
	if os.Getenv("VERIF_MAXVIOL") != "" {
		confirmed = real
		real = nil
	}
	for _, v := range real {
		if len(confirmed) >= maxConfirm {
			break
		}
		ok := true
		for k := 0; k < 2 && ok; k++ {
			out, crash, _ := runWorker(chk, thorough, 0, 1, 0, v.Key, 600, false)
			bad := crash != nil && known(chk.ID, *crash) == nil
			for _, w := range out.Viol {
				if known(chk.ID, w) == nil {
					bad = true
				}
			}
			ok = bad
		}
		if ok {
			confirmed = append(confirmed, v)
		} else {
			flaky = append(flaky, v.id()+": "+v.Msg)
			if len(flaky) > 5 {
				break
			}
		}
	}
	tier := "quick"
	if thorough {
		tier = "thorough"
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	cov := map[string]interface{}{
		"exhaustive": !total.Capped && len(confirmed) == 0 && len(flaky) == 0,
		"samples":    total.Samples,
		"cases":      total.Cases,
	}
	if chk.Bounds != nil {
		cov["bounds"] = chk.Bounds(thorough)
	}
	if chk.Level == "model_checking" {
		cov["states"] = len(states)
		cov["transitions"] = total.Transitions
		cov["traces_validated_against_impl"] = total.Cases
		cov["oracle_evaluations"] = total.Evals
		cov["distinct_outcomes"] = len(distinct)
		cov["how"] = chk.Rule
	} else {
		cov["evaluations"] = total.Evals
		cov["distinct_nontrivial"] = len(distinct)
		cov["rule"] = chk.Rule
		if len(states) > 0 {
			cov["states"] = len(states)
		}
		if total.Transitions > 0 {
			cov["transitions"] = total.Transitions
		}
	}
	for k, v := range total.Extra {
		cov[k] = v
	}
	if len(flaky) > 0 {
		cov["unreproduced"] = flaky
	}
	if len(total.Samples) == 0 {
		cov["samples"] = []string{"(none)"}
	}
	ev := map[string]interface{}{"property": chk.ID, "tier": tier, "seed": seed, "level": chk.Level, "coverage": cov,
		"assumptions": chk.Assumptions, "wall_s": time.Since(t0).Seconds(), "violations": len(confirmed)}
	if ev["assumptions"] == nil || len(chk.Assumptions) == 0 {
		ev["assumptions"] = []string{}
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(root(), "evidence"), 0o755)
	if err := os.WriteFile(filepath.Join(root(), "evidence", chk.ID+".json"), b, 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
	}
	fmt.Printf("%s %s: cases=%d evaluations=%d states=%d transitions=%d distinct=%d capped=%v wall=%.1fs\n", chk.ID, tier, total.Cases, total.Evals, len(states), total.Transitions, len(distinct), total.Capped, time.Since(t0).Seconds())
	var ks []string
	for k := range seenKnown {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		fmt.Printf("KNOWN-FINDING: property=%s %s\n", chk.ID, k)
	}
	for _, f := range flaky {
		fmt.Printf("note: not reproduced, ignored: %s\n", f)
	}
	if len(confirmed) > 0 {
		dir := filepath.Join(root(), "evidence", "replay")
		os.MkdirAll(dir, 0o755)
		for i, v := range confirmed {
			path := filepath.Join(dir, fmt.Sprintf("%s-%d.json", chk.ID, i))
			rb, _ := json.MarshalIndent(map[string]string{"property": chk.ID, "tier": tier, "key": v.Key, "sub": v.Sub, "msg": v.Msg}, "", " ")
			os.WriteFile(path, rb, 0o644)
			fmt.Printf("  %s\n    %s\n", v.id(), v.Msg)
			fmt.Printf("VIOLATION property=%s replay=%s\n", chk.ID, path)
		}
		return 1
	}
	return 0
}
