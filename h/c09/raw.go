package main

import (
	"fmt"
	"sort"
	"strings"

	"github.com/john-nguyen09/phpintel/analysis"
	"github.com/john-nguyen09/phpintel/internal/zzverif/corpus"
	"github.com/john-nguyen09/phpintel/internal/zzverif/hx"
	"github.com/john-nguyen09/phpintel/internal/zzverif/kit"
)

// enumerateStored checks that nothing is left on the disk of what was deleted: with it
// indexed and deleted, a store has the keys of one which never had it.
func enumerateStored(e *kit.Enum) {
	texts := corpus.Texts()
	texts["wordy"] = hx.Wordy
	var names []string
	for k := range texts {
		names = append(names, k)
	}
	sort.Strings(names)
	for _, n := range names {
		n := n
		text := texts[n]
		e.Case("stored "+n, func(c *kit.C) {
			other := func(s *analysis.Store) { hx.Index(s, hx.Root+"/d2/a.php", text) }
			with := hx.Stored(c.Scratch(), func(s *analysis.Store, _ func() *analysis.Store) { other(s) })
			without := hx.Stored(c.Scratch(), func(*analysis.Store, func() *analysis.Store) {})
			for _, f := range []string{"a.php", "d/a.php", "d/e/a.php"} {
				for _, del := range []string{"file", "folder"} {
					if del == "folder" && !strings.Contains(f, "/") {
						continue
					}
					for _, how := range []string{"at once", "after another text", "after a restart"} {
						for _, w := range []bool{false, true} {
							sub := fmt.Sprintf("%s as %s, %s deleted %s, with another file %v", n, f, del, how, w)
							c.SubP(sub)
							c.Eval(1)
							uri := hx.Root + "/" + f
							got := hx.Stored(c.Scratch(), func(s *analysis.Store, reopen func() *analysis.Store) {
								if w {
									other(s)
								}
								hx.Index(s, uri, text)
								switch how {
								case "after another text":
									hx.Index(s, uri, "<?php\nclass ZzOtherName {}\n")
								case "after a restart":
									s = reopen()
								}
								if del == "file" {
									s.DeleteDocument(uri)
								} else {
									s.DeleteFolder(hx.Root + "/d")
								}
								c.Trans(1)
							})
							want := without
							if w {
								want = with
							}
							if x := hx.Missing(got, want); len(x) > 0 {
								c.Fail(sub, "left on the disk: %s", strings.Join(x, ", "))
							}
							if x := hx.Missing(want, got); len(x) > 0 {
								c.Fail(sub, "missing from the disk: %s", strings.Join(x, ", "))
							}
						}
					}
				}
			}
		})
	}
}
