// C09: removing a file or directory removes that and nothing else.
package main

import (
	"fmt"
	"strings"

	"github.com/john-nguyen09/phpintel/internal/zzverif/hist"
	"github.com/john-nguyen09/phpintel/internal/zzverif/kit"
)

var files = []string{"a.php", "a.php.php", "a.phpx/c.php", "d/a.php", "d/b.php", "d/e/a.php", "d.php", "d2/a.php", "d%2F/a.php", "D/a.php"}
var paths = []string{"a.php", "a.php.php", "a.phpx", "a.phpx/c.php", "d", "d/a.php", "d/e", "d/e/a.php", "d.php", "d2", "d%2F", "D", "d/b.php"}

func main() {
	kit.Main(kit.Check{
		ID:          "C09",
		Level:       "model_checking",
		Rule:        "a failing history is an assignment of contents to files followed by a sequence of deletions; two are distinct when these differ",
		Assumptions: []string{"file contents range over the corpus of small documents in h/hist; ten files whose names share prefixes in every relevant way"},
		Bounds: func(t bool) string {
			n := "every sequence of at most 2 deletions of files or directories"
			if t {
				n = "every sequence of at most 3 deletions of files or directories"
			}
			return n + " over ten files, for every rotation of the document corpus over them; every deletion after a re-index or restart, and every re-creation after a deletion"
		},
		HangSeconds: 120,
		Enumerate: func(e *kit.Enum) {
			enumerateStored(e)
			ks := hist.Keys()
			run := func(name string, ops []string) {
				e.Case(name, func(c *kit.C) { hist.Run(c, ops) })
			}
			for r := range ks {
				var base []string
				for i, f := range files {
					base = append(base, "i:"+f+":"+ks[(i+r)%len(ks)])
				}
				same := make([]string, 0, len(files))
				for _, f := range files {
					same = append(same, "i:"+f+":"+ks[r])
				}
				max := 2
				if e.Thorough {
					max = 3
				}
				for n := 1; n <= max; n++ {
					var del []string
					for _, p := range paths {
						del = append(del, "d:"+p)
					}
					hist.Sequences(del, n, func(s []string) {
						run(fmt.Sprintf("rotation %d then %s", r, hist.Key(s)), append(append([]string{}, base...), s...))
						if n < 2 || (n == 2 && e.Thorough) {
							run(fmt.Sprintf("all %s then %s", ks[r], hist.Key(s)), append(append([]string{}, same...), s...))
							for _, x := range []string{"x", "R"} {
								run(fmt.Sprintf("rotation %d %s then %s", r, x, hist.Key(s)), append(append(append([]string{}, base...), x), s...))
								run(fmt.Sprintf("rotation %d then %s %s", r, hist.Key(s), x), append(append(append([]string{}, base...), s...), x))
							}
							for _, f := range files {
								if !strings.HasPrefix(f, strings.TrimPrefix(s[0], "d:")) {
									continue
								}
								for k, v := range ks {
									if !e.Thorough && (k+r)%3 != 0 {
										continue
									}
									run(fmt.Sprintf("rotation %d then %s then %s=%s", r, hist.Key(s), f, v), append(append(append([]string{}, base...), s...), "i:"+f+":"+v))
								}
							}
						}
					})
				}
			}
		},
	})
}
