// C02: messages take effect in arrival order; replies reach the right caller.
package main

import (
	"fmt"
	"strings"

	"github.com/john-nguyen09/phpintel/internal/zzverif/kit"
	"github.com/john-nguyen09/phpintel/internal/zzverif/mcx"
	"github.com/john-nguyen09/phpintel/internal/zzverif/rpcmc"
)

var kinds = []string{"echo", "par", "note", "none", "callpar", "callcancel", "notify", "cancelprev", "call"}
var ids = []string{`1`, `"1"`, `2`, `"a"`}

func main() {
	kit.Main(kit.Check{
		ID: "C02", Level: "model_checking",
		Rule: "jsonrpc2.Conn over its header stream under a controlled scheduler: every schedule within the preemption bound is executed for every script of handlers (serial, parallel, calling the client, cancelled while calling) and every client answer pattern; handlers must start in arrival order, each only after its predecessors released the line, each call returns its own answer, and nothing stays blocked.",
		Assumptions: []string{
			"goroutines switch at channel, lock, spawn and transport operations",
			"a handler that calls the client without declaring itself parallel only blocks later requests, never responses",
		},
		Bounds: func(t bool) string {
			if t {
				return "all scripts of 2 messages (9 kinds) x 6 answer patterns with 2 preemptions (3 with at most one handler calling the client), of 3 messages with 1 preemption (2 without calls)"
			}
			return "all scripts of 2 messages (9 kinds) x 6 answer patterns with 2 preemptions (1 when both handlers call the client), of 3 messages without calls with 1 preemption"
		},
		Enumerate: func(e *kit.Enum) {
			// maxCalls bounds the handlers of a script that call the client
			scripts := func(n int, p int, maxCalls int) {
				idx := make([]int, n)
				for {
					var ms []rpcmc.Msg
					var names []string
					calls, ncalls := false, 0
					for k, i := range idx {
						ms = append(ms, rpcmc.Make(k, kinds[i], ids[k]))
						names = append(names, kinds[i])
						if strings.HasPrefix(kinds[i], "call") {
							ncalls++
						}
						calls = calls || strings.HasPrefix(kinds[i], "call")
					}
					for _, peer := range []rpcmc.Peer{rpcmc.Right, rpcmc.Dup, rpcmc.Wrong, rpcmc.Err, rpcmc.Bad, rpcmc.Late} {
						if !calls && peer != rpcmc.Right {
							continue
						}
						if ncalls > maxCalls {
							continue
						}
						if peer == rpcmc.Late {
							only := true
							for _, n := range names {
								only = only && (n == "callcancel" || !strings.HasPrefix(n, "call"))
							}
							if !only {
								continue
							}
						}
						key := fmt.Sprintf("%s %s p%d", strings.Join(names, ","), peer, p)
						peer := peer
						e.Case(key, func(c *kit.C) {
							mcx.Explore(c, key, mcx.Opt{Preempt: p}, rpcmc.Body("C02", ms, peer))
							c.Distinct(key)
							c.State(key)
							c.Sample(key)
						})
					}
					j := n - 1
					for ; j >= 0; j-- {
						idx[j]++
						if idx[j] < len(kinds) {
							break
						}
						idx[j] = 0
					}
					if j < 0 {
						return
					}
				}
			}
			scripts(1, 3, 1)
			if e.Thorough {
				scripts(2, 2, 2)
				scripts(3, 1, 2)
				scripts(2, 3, 1)
				scripts(3, 2, 0)
				return
			}
			scripts(2, 1, 2)
			scripts(2, 2, 1)
			scripts(3, 1, 0)
		},
	})
}
