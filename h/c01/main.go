// C01: every request gets exactly one reply, carrying its own id.
package main

import (
	"fmt"
	"strings"

	"github.com/john-nguyen09/phpintel/internal/zzverif/kit"
	"github.com/john-nguyen09/phpintel/internal/zzverif/mcx"
	"github.com/john-nguyen09/phpintel/internal/zzverif/rpcmc"
)

var kinds = []string{"echo", "err", "none", "parnone", "par", "twice", "unknown", "null", "note", "replynote", "cancelprev", "cancelnext", "cancelself", "callpar", "notify"}
var idsets = [][]string{{`1`, `"1"`, `2`, `"a"`}, {`0`, `""`, `"0"`, `-1`}}

func main() {
	kit.Main(kit.Check{
		ID: "C01", Level: "model_checking",
		Rule:        "jsonrpc2.Conn over its header stream, its goroutines, channels, selects and locks run by a controlled scheduler: every schedule within the preemption bound is executed for every script, and the replies written are compared with the script.",
		Assumptions: []string{"a client does not use one id for two requests in flight", "goroutines switch at channel, lock, spawn and transport operations"},
		Bounds: func(t bool) string {
			if t {
				return "all scripts of 3 messages (15 kinds) with 2 preemptions and of 2 messages with 3 preemptions, 2 id sets"
			}
			return "all scripts of 2 messages (15 kinds, 2 id sets) with 2 preemptions, all of 3 messages with 1 preemption"
		},
		Enumerate: func(e *kit.Enum) {
			scripts := func(n int, p int, sets int) {
				idx := make([]int, n)
				for {
					for s := 0; s < sets; s++ {
						var ms []rpcmc.Msg
						var names []string
						for k, i := range idx {
							ms = append(ms, rpcmc.Make(k, kinds[i], idsets[s][k]))
							names = append(names, kinds[i])
						}
						key := fmt.Sprintf("%s ids%d p%d", strings.Join(names, ","), s, p)
						e.Case(key, func(c *kit.C) {
							mcx.Explore(c, key, mcx.Opt{Preempt: p}, rpcmc.Body("C01", ms, rpcmc.Right))
							c.Distinct(key)
							c.State(key)
							c.Sample(key)
						})
					}
					j := n - 1
					for ; j >= 0; j-- {
						idx[j]++
						if idx[j] < len(kinds) {
							break
						}
						idx[j] = 0
					}
					if j < 0 {
						return
					}
				}
			}
			scripts(1, 2, 2)
			if e.Thorough {
				scripts(2, 3, 2)
				scripts(3, 2, 1)
				return
			}
			scripts(2, 2, 2)
			scripts(3, 1, 1)
		},
	})
}
