// Package debounce stands in for github.com/bep/debounce: what is due runs when the harness says.
package debounce

import (
	"sync"
	"time"
)

var mu sync.Mutex
var due = map[int]func(){}
var seq int

// Immediate makes what is delayed happen at once.
var Immediate bool

// New makes a debouncer; as with the original, a later call replaces a waiting one.
func New(after time.Duration) func(f func()) {
	mu.Lock()
	seq++
	k := seq
	mu.Unlock()
	return func(f func()) {
		if Immediate {
			f()
			return
		}
		mu.Lock()
		due[k] = f
		mu.Unlock()
	}
}

// Take returns what waits, in the order in which the debouncers were made, and forgets it.
func Take() []func() {
	mu.Lock()
	defer mu.Unlock()
	var out []func()
	for k := 1; k <= seq; k++ {
		if f := due[k]; f != nil {
			out = append(out, f)
		}
	}
	due = map[int]func(){}
	return out
}
