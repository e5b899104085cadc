// C11: a restart loses nothing and re-indexes exactly what changed.
package main

import (
	"fmt"
	"strings"

	"github.com/john-nguyen09/phpintel/internal/zzverif/hist"
	"github.com/john-nguyen09/phpintel/internal/zzverif/hx"
	"github.com/john-nguyen09/phpintel/internal/zzverif/kit"
)

// run replays a history and checks after every restart and at the end. After a restart the index must answer
// as before it; once the folder has been indexed it must describe the files.
func run(c *kit.C, ops []string) {
	h := hist.New(c)
	defer h.Done()
	for i, o := range ops {
		sub := fmt.Sprintf("step %d (%s)", i, o)
		before := map[string]string(nil)
		if o == "R" {
			before = hx.Dump(h.S, hist.Uni)
		}
		reads := len(h.FS.Reads)
		if !h.Do(o) {
			c.Count("not applicable", 1)
			return
		}
		if o == "R" {
			after := hx.Dump(h.S, hist.Uni)
			c.Eval(len(after))
			if d := hx.Diff(after, before); d != "" {
				c.Fail(sub, "the restart changed an answer: %s", d)
				return
			}
			if n := len(h.FS.Reads) - reads; n != 0 {
				c.Fail(sub, "the restart read %d files", n)
				return
			}
		}
		if o == "x" {
			if !h.Check(sub) {
				return
			}
		}
	}
	h.Check("end")
}

func main() {
	kit.Main(kit.Check{
		ID:          "C11",
		Level:       "model_checking",
		Rule:        "a failing history is an operation sequence; two are distinct when the sequences differ",
		Assumptions: []string{"file contents range over the corpus of small documents in h/hist", "the store is closed in an orderly way (crashes are C12)"},
		Bounds: func(t bool) string {
			d := "every pair of contents before and after a down-time for one file, alone and beside a second; files from 0.5 KB to 256 KB (4 MB) that differ at one of five places; "
			n := 4
			if t {
				n = 5
			}
			return d + fmt.Sprintf("every sequence of %d operations (restart, re-index, change, offline change, offline removal, deletion, open, edit) over 2 files and 2 contents", n)
		},
		HangSeconds: 120,
		Enumerate: func(e *kit.Enum) {
			cs := func(ops ...string) {
				e.Case(hist.Key(ops), func(c *kit.C) { run(c, ops) })
			}
			ks := hist.Keys()
			for _, a := range ks {
				for _, b := range ks {
					cs("i:a.php:"+a, "R", "m:a.php:"+b, "x", "R")
					cs("i:a.php:"+a, "m:a.php:"+b, "R", "x", "m:a.php:"+a, "x")
					cs("i:a.php:"+a, "i:b.php:"+b, "R", "r:a.php", "x", "R")
					cs("i:a.php:"+a, "i:b.php:"+b, "R", "d:a.php", "R", "x")
					cs("i:a.php:"+a, "R", "r:a.php", "m:b.php:"+b, "x", "R")
					cs("i:a.php:"+a, "o:a.php", "e:a.php:"+b, "R", "x")
					cs("i:a.php:"+a, "R", "o:a.php", "e:a.php:"+b, "c:a.php", "R", "x")
					cs("i:a.php:"+a, "R", "i:a.php:"+b, "R", "i:a.php:"+a)
					cs("i:d/a.php:"+a, "i:d.php:"+b, "R", "d:d", "R")
					cs("i:a.php:"+a, "R", "r:a.php", "x", "i:a.php:"+b)
					cs("i:a.php:"+a, "i:b.php:"+b, "R", "r:a.php", "m:b.php:"+a, "x", "i:a.php:"+a, "R", "d:b.php", "i:b.php:"+a)
					cs("i:a.php:"+a, "R", "x", "d:a.php", "i:a.php:"+b, "d:a.php", "i:a.php:"+a, "R")
					cs("i:d/a.php:"+a, "i:d.php:"+b, "R", "r:d/a.php", "x", "R")
				}
			}
			// files of every order of size that differ at one place only, by as many bytes
			size := 256 << 10
			if e.Thorough {
				size = 4 << 20
			}
			for n := 1 << 9; n <= size; n *= 2 {
				for at := 0; at <= 4; at++ {
					var ks []string
					for _, name := range []string{"A", "B"} {
						k := fmt.Sprintf("large%d.%d%s", n, at, name)
						half := func(n int) string { return strings.Repeat("// filler\n", n/10) }
						hist.Versions[k] = "<?php\n" + half(n*at/4) + "class " + name + " {}\n" + half(n-n*at/4)
						ks = append(ks, k)
					}
					cs("i:a.php:"+ks[0], "i:a.php:"+ks[1])
					cs("i:a.php:"+ks[0], "R", "m:a.php:"+ks[1], "x")
				}
			}
			n := 4
			if e.Thorough {
				n = 5
			}
			for i, vs := range [][]string{{"cl", "rg"}, {"ns", "tr"}, {"if", "gl"}} {
				if !e.Thorough && i > 0 {
					break
				}
				ops := []string{"R", "x"}
				for _, f := range []string{"a.php", "b.php"} {
					ops = append(ops, "i:"+f+":"+vs[0], "i:"+f+":"+vs[1], "m:"+f+":"+vs[0], "m:"+f+":"+vs[1], "r:"+f)
				}
				ops = append(ops, "d:a.php", "o:a.php", "e:a.php:"+vs[1])
				hist.Sequences(ops, n, func(s []string) {
					k := hist.Key(s)
					// only histories in which a restart or a re-index matters, ended by one of them
					if !strings.Contains(k, "R") || (s[n-1] != "x" && s[n-1] != "R") {
						return
					}
					cs(append([]string{"i:a.php:" + vs[0]}, append(s, "x")...)...)
				})
			}
		},
	})
}
