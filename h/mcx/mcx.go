// Package mcx connects the schedule explorer to the check runner.
package mcx

import (
	"fmt"
	"strings"
	"time"

	"github.com/john-nguyen09/phpintel/internal/zzverif/kit"
	"github.com/john-nguyen09/phpintel/internal/zzverif/mcrt"
)

// Opt bounds one exploration.
type Opt struct {
	Preempt, Delay, MaxSteps, MaxExecs int
	Shard, N                           int
	Seconds                            int
	// Benign tells whether an abort (deadlock text) is acceptable.
	NoDeadlock bool
}

// Explore runs body under every schedule within the bounds; body reports violations with
// mcrt.Failf. The first failing schedule is reported with its trace.
func Explore(c *kit.C, name string, o Opt, body func()) mcrt.Stats {
	mo := mcrt.Options{Preempt: o.Preempt, Delay: o.Delay, MaxSteps: o.MaxSteps, MaxExecs: o.MaxExecs, Shard: o.Shard, N: o.N}
	if o.Seconds > 0 {
		mo.Deadline = time.Now().Add(time.Duration(o.Seconds) * time.Second)
	}
	c.SubP(name)
	last := time.Now()
	mo.Progress = func(n int) {
		if time.Since(last) > 2*time.Second {
			last = time.Now()
			c.SubP(fmt.Sprintf("%s after %d schedules", name, n))
		}
	}
	var bad *mcrt.Result
	st := mcrt.Explore(mo, body, func(r mcrt.Result) bool {
		if r.Abort != "" || len(r.Fails) > 0 {
			x := r
			bad = &x
			return false
		}
		return true
	})
	c.Trans(st.Steps)
	c.Eval(st.Execs)
	c.Count("schedules", st.Execs)
	if st.Capped {
		c.Count("scenarios capped", 1)
	}
	if bad != nil {
		r := mcrt.Replay(bad.Choices, o.MaxSteps, body)
		msg := bad.Abort
		if len(bad.Fails) > 0 {
			msg = bad.Fails[0]
		}
		if r.Abort == "" && len(r.Fails) == 0 {
			c.Count("unconfirmed failing schedules", 1)
			return st
		}
		tr := r.Trace
		if len(tr) > 200 {
			tr = append(append([]string{}, tr[:60]...), append([]string{"..."}, tr[len(tr)-140:]...)...)
		}
		det := strings.Join(tr, "\n      ")
		if bad.Panic != "" {
			det = bad.Panic + "\n      " + det
		}
		c.Fail(name, "%s\n    schedule %v (%d preemptions)\n      %s", msg, bad.Choices, bad.Preempts, det)
	}
	return st
}
