// C10: workspace folders that come and go, beside each other and within each other.
package main

import (
	"fmt"
	"strings"

	"github.com/john-nguyen09/phpintel/internal/zzverif/kit"
	"github.com/john-nguyen09/phpintel/internal/zzverif/lspmc"
	"github.com/john-nguyen09/phpintel/internal/zzverif/mcrt"
	"github.com/john-nguyen09/phpintel/internal/zzverif/mcx"
)

func body(c *kit.C, folders, ops []string, settle, between bool) func() {
	base := c.Scratch()
	return func() {
		s := lspmc.Start(base, folders, files, settle)
		for _, o := range ops {
			if !s.Do(o) {
				mcrt.Failf("INTERNAL: %s does not apply", o)
			}
			if between {
				s.Do("~")
			}
		}
		c.State(s.Finish())
		mcrt.Finish()
	}
}

var (
	files  = []string{"w/a.php=1", "w/in/b.php=2", "w2/c.php=3"}
	starts = [][]string{{"w"}, {"w", "w/in"}, {"w", "w2"}, {"w/in"}, {"w", "w/in", "w2"}}
	ops    = []string{"+ w", "- w", "+ w/in", "- w/in", "+ w2", "- w2",
		"w w/in/b.php 4", "d w/in/b.php", "w w2/c.php 4", "d w",
		"o w/in/b.php", "o w/in/b.php 4", "e w/in/b.php 3", "c w/in/b.php", "o w/a.php", "e w/a.php 4", "c w/a.php", "o w2/c.php 4", "c w2/c.php"}
)

func main() {
	kit.Main(kit.Check{
		ID:          "C10",
		Level:       "model_checking",
		Rule:        "a case is a set of workspace folders and a script of folders being added and removed and files being changed in them; each is run on the real server under every schedule within the bounds, and the index of every folder left on disk is compared with a fresh one of the files that belong to it",
		Assumptions: []string{"scheduling points are the goroutine, channel and lock operations of internal/lsp, analysis and analysis/storage, storage and file reads, and the entries of the document operations of the store", "a removed folder has no index to answer from; what counts is that it works when it is added again"},
		HangSeconds: 300,
		Bounds: func(t bool) string {
			if t {
				return "3 folders (one within another, one sharing its prefix), 6 sets of them at the start, scripts of up to 2 operations with 1 preemption and 1 other scheduling decision, and of up to 4 with none, in a row or at rest between"
			}
			return "3 folders (one within another, one sharing its prefix), 6 sets of them at the start, single operations with 1 preemption or other scheduling decision, and scripts of up to 3 with none, in a row or at rest between"
		},
		Enumerate: func(e *kit.Enum) {
			add := func(folders, sc []string, settle, between bool, pre, delay, shards int) {
				for sh := 0; sh < shards; sh++ {
					sh := sh
					key := fmt.Sprintf("{%s} %s; settled %v between %v p%d d%d part %d", strings.Join(folders, " "), strings.Join(sc, ", "), settle, between, pre, delay, sh)
					e.Case(key, func(c *kit.C) {
						mcx.Explore(c, key, mcx.Opt{Preempt: pre, Delay: delay, Seconds: 120, Shard: sh, N: shards}, body(c, folders, sc, settle, between))
						c.Distinct(key)
						c.Sample(key)
					})
				}
			}
			n, sched := 3, 1
			if e.Thorough {
				n, sched = 4, 2
			}
			for _, st := range starts {
				for _, sc := range lspmc.Scripts(lspmc.NewModel(st, files), ops, n) {
					folder := false
					for _, o := range sc {
						folder = folder || o[0] == '+' || o[0] == '-'
					}
					if !folder && len(st) < 2 {
						continue
					}
					add(st, sc, true, true, 0, -1, 1)
					add(st, sc, false, false, 0, -1, 1)
					if len(sc) <= sched {
						add(st, sc, false, false, 1, sched, 1+3*(len(sc)-1))
					}
				}
			}
		},
	})
}
