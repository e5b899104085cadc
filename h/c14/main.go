// C14: indexing a folder and applying file-change events, under every schedule.
package main

import (
	"fmt"
	"strings"

	"github.com/john-nguyen09/phpintel/internal/zzverif/kit"
	"github.com/john-nguyen09/phpintel/internal/zzverif/lspmc"
	"github.com/john-nguyen09/phpintel/internal/zzverif/mcrt"
	"github.com/john-nguyen09/phpintel/internal/zzverif/mcx"
)

func body(c *kit.C, files, ops []string, indexing bool) func() {
	base := c.Scratch()
	return func() {
		s := lspmc.Start(base, []string{"w"}, files, !indexing)
		for _, o := range ops {
			if !s.Do(o) {
				mcrt.Failf("INTERNAL: %s does not apply", o)
			}
		}
		c.State(s.Finish())
		mcrt.Finish()
	}
}

// tree is a folder and the operations that are tried on it.
type tree struct {
	files, ops []string
	n          int
}

var trees = []tree{
	{[]string{"w/a.php=1", "w/d/b.php=2"}, []string{"w w/a.php 3", "d w/a.php", "d w/d", "mv w/d w/e", "mv w/a.php w/c.php", "wD w/n/c.php 3", "w w/d/c.php 3", "n w/d/b.php", "w w/c.txt 3"}, 2},
	{[]string{"w/a.php=1", "w/d/e/b.php=2", "w/d2/b.php=3"}, []string{"d w/d", "d w/d/e", "mv w/d/e w/d/f", "mv w/d w/d2/d", "wD w/d/e2/c.php 4", "d w/d2"}, 2},
	{[]string{"w/a.php=1", "w/b.php=2"}, []string{"!", "w. w/a.php 3", "w. w/a.php 2", "d. w/a.php", "w. w/c.php 3", "^", "w w/a.php 4", "d w/a.php", "d w/b.php"}, 4},
	{[]string{"w/x.php/b.php=1", "w/y.php=2"}, []string{"d w/x.php", "mv w/x.php w/x", "mv w/y.php w/y.txt", "w w/x.php/c.php 3", "wD w/z.php/c.php 4"}, 2},
}

// names are file and directory names that URIs have to escape, or nearly have to.
var names = []string{"s p", "p+q", "100%", "%41", "h#", "q?", "é", "日本", "c:d", "a;b", "a&b", "[x]", "{x}", "a@b", "a=b", "\\n", "'", "\"", "~", "!", "$x", "a,b", "(x)", "*", "-", ".h", "..h", "%2F", "%", "<", "|", "^", "`"}

func main() {
	kit.Main(kit.Check{
		ID:          "C14",
		Level:       "model_checking",
		Rule:        "a case is a folder and a script of changes of files and directories reported by the editor; each is run on the real server with its walker and workers under every schedule within the bounds, and the index left on disk is compared with a fresh one of the files then found",
		Assumptions: []string{"scheduling points are the goroutine, channel and lock operations of internal/lsp, analysis and analysis/storage, storage and file reads, and the entries of the document operations of the store", "the editor reports each change of the disk once it is done, at the latest when later changes have been made", "an editor that moves a directory reports the two names only"},
		HangSeconds: 300,
		Bounds: func(t bool) string {
			if t {
				return "scripts of up to 2 operations on 4 trees with up to 2 preemptions or other scheduling decisions, 3 operations (5 around a restart) with 2 other scheduling decisions; one of 33 names in need of escaping as file, directory or folder, with up to 2 operations"
			}
			return "single operations on 4 trees with 1 preemption and 1 other scheduling decision, 2 operations with one of the two, scripts of up to 4 operations around a restart with 1 other scheduling decision; one of 33 names in need of escaping as file, directory or folder, with 1 operation"
		},
		Enumerate: func(e *kit.Enum) {
			add := func(files, sc []string, ix bool, pre, delay, shards int) {
				for sh := 0; sh < shards; sh++ {
					sh := sh
					key := fmt.Sprintf("%s: %s; indexing %v p%d part %d", strings.Join(files, " "), strings.Join(sc, ", "), ix, pre, sh)
					e.Case(key, func(c *kit.C) {
						mcx.Explore(c, key, mcx.Opt{Preempt: pre, Delay: delay, Seconds: 120, Shard: sh, N: shards}, body(c, files, sc, ix))
						c.Distinct(key)
						c.Sample(key)
					})
				}
			}
			for _, t := range trees {
				n := t.n
				if e.Thorough {
					n++
				}
				for _, sc := range append([][]string{nil}, lspmc.Scripts(lspmc.NewModel([]string{"w"}, t.files), t.ops, n)...) {
					for _, ix := range []bool{false, true} {
						pre, delay, shards := 1, 2, 1
						if len(sc) == 2 && !e.Thorough {
							delay = 1
						}
						if len(sc) > 2 {
							pre, delay = 0, 1
							if e.Thorough {
								delay = 2
							}
						} else if e.Thorough {
							pre, delay, shards = 2, 2, 8
						}
						add(t.files, sc, ix, pre, delay, shards)
					}
				}
			}
			for _, x := range names {
				f := strings.ReplaceAll(x, " ", "_")
				for _, m := range []struct{ files, ops []string }{
					{[]string{"w/" + x + ".php=1"}, []string{"w w/" + f + ".php 2", "d w/" + f + ".php", "mv w/" + f + ".php w/z" + f + ".php", "o w/" + f + ".php 3", "n w/" + f + ".php"}},
					{[]string{"w/" + x + "/a.php=1"}, []string{"w w/" + f + "/a.php 2", "d w/" + f, "mv w/" + f + " w/z" + f, "wD w/z" + f + "/b.php 3", "o w/" + f + "/a.php 3"}},
				} {
					for _, sc := range append([][]string{nil}, lspmc.Scripts(lspmc.NewModel([]string{"w"}, m.files), m.ops, map[bool]int{false: 1, true: 2}[e.Thorough])...) {
						add(m.files, sc, false, 0, 1, 1)
						add(m.files, sc, true, 0, 1, 1)
					}
				}
			}
		},
	})
}
