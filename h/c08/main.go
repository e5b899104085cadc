// C08: the index always equals the indexing of the current file contents.
package main

import (
	"fmt"

	"github.com/john-nguyen09/phpintel/internal/zzverif/hist"
	"github.com/john-nguyen09/phpintel/internal/zzverif/kit"
)

func main() {
	kit.Main(kit.Check{
		ID:          "C08",
		Level:       "model_checking",
		Rule:        "a failing history is an operation sequence; two are distinct when the sequences differ",
		Assumptions: []string{"file contents range over the corpus of small documents in h/hist; each history is on one folder"},
		Bounds: func(t bool) string {
			d := "every pair of versions of one file (by watched change, by edit, through deletion) alone and beside a second file of every version"
			if t {
				return d + "; every sequence of 4 operations (watch-change, open, edit, close, delete) over 2 files and 3 versions"
			}
			return d + "; every sequence of 3 operations (watch-change, open, edit, close, delete) over 2 files and 3 versions"
		},
		HangSeconds: 120,
		Enumerate: func(e *kit.Enum) {
			enumerateStored(e)
			run := func(ops ...string) {
				e.Case(hist.Key(ops), func(c *kit.C) { hist.Run(c, ops) })
			}
			ks := hist.Keys()
			for _, a := range ks {
				for _, b := range ks {
					run("i:a.php:"+a, "i:a.php:"+b)
					run("i:a.php:"+a, "d:a.php", "i:a.php:"+b)
					run("i:a.php:"+a, "o:a.php", "e:a.php:"+b)
					run("i:a.php:"+a, "o:a.php", "e:a.php:"+b, "c:a.php")
					run("i:a.php:"+a, "o:a.php", "e:a.php:"+b, "m:a.php:"+b, "c:a.php")
					for _, d := range ks {
						// a second file with the same or different names beside it
						if e.Thorough || len(a+b+d) > 0 {
							run("i:b.php:"+d, "i:a.php:"+a, "i:a.php:"+b)
						}
						run("i:a.php:"+a, "i:a.php:"+b, "i:a.php:"+d)
					}
					run("i:b.php:"+b, "i:a.php:"+a, "d:a.php")
				}
			}
			n := 3
			if e.Thorough {
				n = 4
			}
			for _, vs := range [][]string{{"cl", "fn", "rf"}, {"ns", "rg", "if"}} {
				var ops []string
				for _, f := range []string{"a.php", "b.php"} {
					for _, v := range vs {
						ops = append(ops, "i:"+f+":"+v)
					}
					ops = append(ops, "e:"+f+":"+vs[0], "e:"+f+":"+vs[1], "o:"+f, "c:"+f, "d:"+f)
				}
				hist.Sequences(ops, n, func(s []string) { run(append([]string{"i:a.php:" + vs[0], "i:b.php:" + vs[1]}, s...)...) })
			}
			_ = fmt.Sprint
		},
	})
}
