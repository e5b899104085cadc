package main

import (
	"fmt"
	"os"
	"sort"
	"strings"

	"github.com/john-nguyen09/phpintel/analysis"
	"github.com/john-nguyen09/phpintel/internal/zzverif/hx"
	"github.com/john-nguyen09/phpintel/internal/zzverif/kit"
)

const dir = "file:///w"

// files are texts of files, as lists of the functions that are called, one call on each line.
type files map[string][]string

func phpOf(names []string) string {
	var b strings.Builder
	b.WriteString("<?php\n")
	for _, n := range names {
		b.WriteString(n + "();\n")
	}
	return b.String()
}

// expected lists where each name is called.
func expected(fs files, name string) string {
	var out []string
	for f, names := range fs {
		for i, n := range names {
			if n == name {
				out = append(out, fmt.Sprintf("%s/%s %d:0-%d:%d", dir, f, i+1, i+1, len(n)))
			}
		}
	}
	sort.Strings(out)
	return strings.Join(out, ", ")
}

func found(s *analysis.Store, name string) string {
	var out []string
	for _, l := range s.GetReferences("\\" + name + "()") {
		out = append(out, fmt.Sprintf("%s %d:%d-%d:%d", l.URI, l.Range.Start.Line, l.Range.Start.Character, l.Range.End.Line, l.Range.End.Character))
	}
	sort.Strings(out)
	return strings.Join(out, ", ")
}

func compare(c *kit.C, s *analysis.Store, fs files, names []string, when string) bool {
	for _, n := range names {
		c.Eval(1)
		if got, want := found(s, n), expected(fs, n); got != want {
			c.SubP(when)
			c.Fail("stored", "%s: references of %s are [%s], not [%s]", when, n, got, want)
			return false
		}
	}
	return true
}

type stored struct {
	s   *analysis.Store
	fs  *hx.MemFS
	dir string
	now files
}

func newStored(c *kit.C) *stored {
	t := &stored{fs: hx.NewMemFS(), dir: hx.Dir(c.Scratch()), now: files{}}
	t.s = hx.Open(t.fs, t.dir)
	return t
}

func (t *stored) index(file string, names []string) {
	hx.Index(t.s, dir+"/"+file, phpOf(names))
	t.now[file] = names
}

func (t *stored) delete(file string) {
	t.s.DeleteDocument(dir + "/" + file)
	delete(t.now, file)
}

func (t *stored) end() {
	t.s.Close()
	os.RemoveAll(t.dir)
}

func (t *stored) reopen() {
	t.s.Close()
	t.s = hx.Open(t.fs, t.dir)
}

// sizes are files with every number of different names up to a bound, and what they become.
func sizes(e *kit.Enum) {
	last := 96
	if e.Thorough {
		last = 300
	}
	for n := 0; n <= last; n++ {
		n := n
		e.Case(fmt.Sprintf("sizes/%d", n), func(c *kit.C) {
			t := newStored(c)
			defer t.end()
			all := []string{}
			for i := 0; i <= n; i++ {
				all = append(all, fmt.Sprintf("f%d", i))
			}
			other := []string{"f0", "other", "f0", fmt.Sprintf("f%d", n)}
			t.index("other.php", other)
			asked := append([]string{"other", "none"}, all...)
			t.index("a.php", all[:n])
			if !compare(c, t.s, t.now, asked, fmt.Sprintf("%d names", n)) {
				return
			}
			t.reopen()
			if !compare(c, t.s, t.now, asked, fmt.Sprintf("%d names and restart", n)) {
				return
			}
			for _, m := range []int{n + 1, n / 2, 1, 0, n} {
				if m > n+1 {
					continue
				}
				for k := 0; k < 2; k++ {
					to := all[:m]
					if k == 1 { // the last ones, all twice
						to = append(append([]string{}, all[n+1-m:]...), all[n+1-m:]...)
					}
					t.index("a.php", to)
					c.Trans(1)
					c.Distinct(fmt.Sprint(n, m, k))
					when := fmt.Sprintf("%d names after %d (%d)", m, n, k)
					if !compare(c, t.s, t.now, asked, when) {
						return
					}
					t.reopen()
					if !compare(c, t.s, t.now, asked, when+" and restart") {
						return
					}
				}
			}
		})
	}
}

// histories are sequences of what can happen to two files.
func histories(e *kit.Enum) {
	contents := [][]string{nil, {"x"}, {"y", "x", "y"}}
	var ops []struct {
		name string
		do   func(*stored)
	}
	add := func(name string, do func(*stored)) {
		ops = append(ops, struct {
			name string
			do   func(*stored)
		}{name, do})
	}
	for _, f := range []string{"a.php", "d/b.php"} {
		f := f
		for i, names := range contents {
			names := names
			add(fmt.Sprintf("%s=%d", f, i), func(t *stored) { t.index(f, names) })
		}
		add("delete "+f, func(t *stored) { t.delete(f) })
	}
	add("restart", func(t *stored) { t.reopen() })
	depth := 4
	if e.Thorough {
		depth = 5
	}
	for i := range ops {
		for j := range ops {
			i, j := i, j
			e.Case(fmt.Sprintf("histories/%s/%s", ops[i].name, ops[j].name), func(c *kit.C) {
				seq := make([]int, depth)
				seq[0], seq[1] = i, j
				var walk func(int)
				walk = func(at int) {
					if at < depth {
						for k := range ops {
							seq[at] = k
							walk(at + 1)
						}
						return
					}
					t := newStored(c)
					defer t.end()
					when := ""
					for step, k := range seq {
						ops[k].do(t)
						c.Trans(1)
						when += ops[k].name + " "
						// What shorter sequences end with is the same for all that go on
						if step+1 < depth && tail(seq[step+1:]) > 0 {
							continue
						}
						if !compare(c, t.s, t.now, []string{"x", "y"}, when) {
							return
						}
					}
				}
				walk(2)
			})
		}
	}
}

func tail(seq []int) int {
	n := 0
	for _, k := range seq {
		n += k
	}
	return n
}
