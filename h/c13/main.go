// C13: background indexing and what the editor does to the same file, under every schedule.
package main

import (
	"fmt"
	"strings"

	"github.com/john-nguyen09/phpintel/internal/zzverif/kit"
	"github.com/john-nguyen09/phpintel/internal/zzverif/lspmc"
	"github.com/john-nguyen09/phpintel/internal/zzverif/mcrt"
	"github.com/john-nguyen09/phpintel/internal/zzverif/mcx"
)

var alphabet = []string{"o w/a.php", "o w/a.php 2", "e w/a.php 3", "e w/a.php 2", "c w/a.php", "s w/a.php", "w w/a.php 2", "w- w/a.php 4", "n w/a.php", "? w/a.php", "d w/a.php"}

// beside tells whether something of the script runs beside something else.
func beside(ops []string, indexing bool) bool {
	for _, o := range ops {
		if strings.Contains("w n s d", strings.Split(o, " ")[0]) {
			return true
		}
	}
	return indexing
}

func body(c *kit.C, ops []string, indexing bool) func() {
	base := c.Scratch()
	return func() {
		s := lspmc.Start(base, []string{"w"}, []string{"w/a.php=1"}, !indexing)
		for _, o := range ops {
			if !s.Do(o) {
				mcrt.Failf("INTERNAL: %s does not apply", o)
			}
		}
		c.State(s.Finish())
		mcrt.Finish()
	}
}

func main() {
	kit.Main(kit.Check{
		ID:          "C13",
		Level:       "model_checking",
		Rule:        "a case is a script of editor notifications about one file; each is run on the real server with its workers under every schedule within the preemption bound, and the index left on disk is compared with a fresh one of the newest text",
		Assumptions: []string{"scheduling points are the goroutine, channel and lock operations of internal/lsp, analysis and analysis/storage, storage and file reads, and the entries of the document operations of the store", "the connection itself is not part of this exploration (C01, C02)", "editor notifications are handled one after the other (C02)"},
		HangSeconds: 300,
		Bounds: func(t bool) string {
			if t {
				return "scripts of up to 2 operations with 2 preemptions and of 3 with 1, at most 2 further scheduling decisions other than the default one, with the first indexing under way or done"
			}
			return "scripts of up to 2 operations with 1 preemption and at most 2 further scheduling decisions other than the default one, with the first indexing under way or done"
		},
		Enumerate: func(e *kit.Enum) {
			n := 2
			if e.Thorough {
				n = 3
			}
			{
				for _, sc := range lspmc.Scripts(lspmc.NewModel([]string{"w"}, []string{"w/a.php=1"}), alphabet, n) {
					l := len(sc)
					for _, ix := range []bool{false, true} {
						if !beside(sc, ix) {
							continue
						}
						for pre := 1; pre <= 2; pre++ {
							if pre == 2 && !(e.Thorough && l < 3) {
								continue
							}
							sc, ix, pre := sc, ix, pre
							shards := 1
							if len(sc) > 1 {
								shards = 4
							}
							for sh := 0; sh < shards; sh++ {
								sh := sh
								key := fmt.Sprintf("%s; indexing %v p%d part %d", strings.Join(sc, ", "), ix, pre, sh)
								e.Case(key, func(c *kit.C) {
									mcx.Explore(c, key, mcx.Opt{Preempt: pre, Delay: pre + 2, Seconds: 120, Shard: sh, N: shards}, body(c, sc, ix))
									c.Distinct(key)
									c.Sample(key)
								})
							}
						}
					}
				}
			}
		},
	})
}
