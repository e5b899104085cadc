// C32: a workspace whose files the client provides, under every schedule.
package main

import (
	"fmt"
	"strings"

	"github.com/john-nguyen09/phpintel/internal/zzverif/kit"
	"github.com/john-nguyen09/phpintel/internal/zzverif/lspmc"
	"github.com/john-nguyen09/phpintel/internal/zzverif/mcrt"
	"github.com/john-nguyen09/phpintel/internal/zzverif/mcx"
)

type world struct {
	folders, files, ops []string
	n                   int
}

func body(c *kit.C, w world, scheme, styles string, ops []string, indexing bool) func() {
	base := c.Scratch()
	return func() {
		s := lspmc.StartRemote(base, scheme, styles, w.folders, w.files, !indexing)
		for _, o := range ops {
			if !s.Do(o) {
				mcrt.Failf("INTERNAL: %s does not apply", o)
			}
		}
		c.State(s.Finish())
		mcrt.Finish()
	}
}

var worlds = []world{
	// changes that the client reports
	{[]string{"w"}, []string{"w/a.php=1", "w/d/b.php=2", "w/t.txt=3"}, []string{"w w/a.php 3", "d w/a.php", "d w/d", "mv w/d w/e", "mv w/a.php w/c.php", "w w/n/c.php 3", "n w/d/b.php", "w w/c.txt 3"}, 2},
	// open documents
	{[]string{"w"}, []string{"w/a.php=1", "w/b.php=2"}, []string{"o w/a.php", "o w/a.php 3", "e w/a.php 4", "s w/a.php", "c w/a.php", "w- w/a.php 2", "w w/b.php 3", "o w/n.php 3", "c w/n.php"}, 3},
	// restarts
	{[]string{"w"}, []string{"w/a.php=1", "w/b.php=2"}, []string{"!", "w. w/a.php 3", "d. w/a.php", "w. w/c.php 3", "^", "w w/a.php 4"}, 4},
	// folders
	{[]string{"w"}, []string{"w/a.php=1", "w/d/b.php=2", "v/c.php=3"}, []string{"+ w/d", "- w/d", "+ v", "- w", "w w/d/b.php 4", "o w/d/b.php 3"}, 3},
}

// names are file names that URIs have to escape, or nearly have to.
var names = []string{"s p", "p+q", "100%", "%41", "h#", "é", "c:d", "a;b", "a&b", "[x]", "a@b", "~", "!", "(x)", "%2F"}

func main() {
	kit.Main(kit.Check{
		ID:          "C32",
		Level:       "model_checking",
		Rule:        "a case is a set of files that only the client has, a scheme and way of writing its URIs and a script of changes, document and folder notifications; each is run on the real server under every schedule within the bounds, the client answering what the files are at that moment, and the index left on disk is compared with a fresh one of the files and open documents then found",
		Assumptions: []string{"scheduling points are the goroutine, channel and lock operations of internal/lsp, analysis and analysis/storage, storage commits, the server's requests for files, and the entries of the document operations of the store", "the client reports each change of its files once it is done", "a client writes a file: URI in any way; URIs of another scheme are always written alike"},
		HangSeconds: 300,
		Bounds: func(t bool) string {
			if t {
				return "scripts of up to 3 to 4 operations in 4 worlds, file: and another scheme, with 2 scheduling decisions other than preemptions (1 for 2 operations), and 1 preemption up to 2 operations; one of 15 names in need of escaping in 4 spellings with up to 2 operations"
			}
			return "scripts of up to 2 to 4 operations in 4 worlds, file: and another scheme, with 1 scheduling decision other than preemptions, and 1 preemption for single operations; one of 15 names in need of escaping in 4 spellings with 1 operation"
		},
		Enumerate: func(e *kit.Enum) {
			add := func(w world, scheme, styles string, sc []string, ix bool, pre, delay, shards int) {
				for sh := 0; sh < shards; sh++ {
					sh := sh
					key := fmt.Sprintf("%s %s%s: %s: %s; indexing %v p%d part %d", strings.Join(w.folders, " "), scheme, styles, strings.Join(w.files, " "), strings.Join(sc, ", "), ix, pre, sh)
					e.Case(key, func(c *kit.C) {
						mcx.Explore(c, key, mcx.Opt{Preempt: pre, Delay: delay, Seconds: 120, Shard: sh, N: shards}, body(c, w, scheme, styles, sc, ix))
						c.Distinct(key)
						c.Sample(key)
					})
				}
			}
			for _, w := range worlds {
				n := w.n
				if n == 2 && e.Thorough {
					n = 3
				}
				for _, sc := range append([][]string{nil}, lspmc.Scripts(lspmc.NewModel(w.folders, w.files), w.ops, n)...) {
					for _, scheme := range []string{"file", "vfs"} {
						for _, ix := range []bool{false, true} {
							pre, delay, shards := 0, 1, 1
							switch {
							case e.Thorough && len(sc) < 2:
								pre, delay, shards = 1, 2, 4
							case e.Thorough && len(sc) == 2:
								pre, delay, shards = 1, 1, 2
							case e.Thorough:
								delay, shards = 2, 2
							case len(sc) < 2:
								pre, delay = 1, 1
							}
							add(w, scheme, "", sc, ix, pre, delay, shards)
						}
					}
				}
			}
			for _, x := range names {
				f := strings.ReplaceAll(x, " ", "_")
				w := world{folders: []string{"w"}, files: []string{"w/" + x + ".php=1", "w/" + x + "/b.php=2"}}
				ops := []string{"w w/" + f + ".php 2", "d w/" + f + ".php", "mv w/" + f + ".php w/z" + f + ".php", "o w/" + f + ".php 3", "n w/" + f + ".php", "d w/" + f, "mv w/" + f + " w/z" + f}
				for _, sc := range append([][]string{nil}, lspmc.Scripts(lspmc.NewModel(w.folders, w.files), ops, map[bool]int{false: 1, true: 2}[e.Thorough])...) {
					for _, styles := range []string{"c", "la", "m", "mcal"} {
						add(w, "file", styles, sc, true, 0, 1, 1)
					}
				}
			}
		},
	})
}
