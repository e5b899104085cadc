package main

import (
	"sort"
	"strings"

	"github.com/john-nguyen09/phpintel/analysis"
	"github.com/john-nguyen09/phpintel/internal/zzverif/corpus"
	"github.com/john-nguyen09/phpintel/internal/zzverif/hx"
	"github.com/john-nguyen09/phpintel/internal/zzverif/kit"
)

// enumerateStored checks that what is on the disk is that of the content alone: the keys of
// a store are those of one which never had another content of the file.
func enumerateStored(e *kit.Enum) {
	texts := corpus.Texts()
	texts["wordy"] = hx.Wordy
	var names []string
	for k := range texts {
		names = append(names, k)
	}
	sort.Strings(names)
	uri := hx.Root + "/a.php"
	for _, n := range names {
		n := n
		e.Case("stored "+n, func(c *kit.C) {
			want := hx.Stored(c.Scratch(), func(s *analysis.Store, _ func() *analysis.Store) { hx.Index(s, uri, texts[n]) })
			for _, m := range names {
				if !e.Thorough && m != "wordy" && !strings.HasPrefix(m, "v-") {
					continue
				}
				for _, restart := range []bool{false, true} {
					sub := n + " after " + m
					if restart {
						sub += " and a restart"
					}
					c.SubP(sub)
					c.Eval(1)
					got := hx.Stored(c.Scratch(), func(s *analysis.Store, reopen func() *analysis.Store) {
						hx.Index(s, uri, texts[m])
						if restart {
							s = reopen()
						}
						hx.Index(s, uri, texts[n])
						c.Trans(2)
					})
					if x := hx.Missing(got, want); len(x) > 0 {
						c.Fail(sub, "left on the disk: %s", strings.Join(x, ", "))
					}
					if x := hx.Missing(want, got); len(x) > 0 {
						c.Fail(sub, "missing from the disk: %s", strings.Join(x, ", "))
					}
				}
			}
		})
	}
}
