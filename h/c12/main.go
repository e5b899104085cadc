// C12: the process dies between any two changes of its files.
package main

import (
	"context"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"github.com/john-nguyen09/phpintel/analysis"
	"github.com/john-nguyen09/phpintel/internal/zzverif/hist"
	"github.com/john-nguyen09/phpintel/internal/zzverif/hx"
	"github.com/john-nguyen09/phpintel/internal/zzverif/kit"
	"github.com/john-nguyen09/phpintel/zzverifos"
)

type snap struct {
	dir, what string
}

func copyTree(from, to string) {
	filepath.Walk(from, func(p string, i os.FileInfo, err error) error {
		if err != nil {
			return nil
		}
		rel, _ := filepath.Rel(from, p)
		if i.IsDir() {
			return os.MkdirAll(filepath.Join(to, rel), 0o755)
		}
		b, err := os.ReadFile(p)
		if err != nil {
			return err
		}
		return os.WriteFile(filepath.Join(to, rel), b, 0o644)
	})
}

// watch runs f and copies dir before every change of a file and at the end.
func watch(base, dir string, f func()) (snaps []snap) {
	n := 0
	take := func(what string) {
		s := snap{filepath.Join(base, fmt.Sprint(n)), what}
		n++
		os.RemoveAll(s.dir)
		copyTree(dir, s.dir)
		snaps = append(snaps, s)
	}
	last := ""
	zzverifos.SetHook(func(op, name string) {
		rel, err := filepath.Rel(dir, name)
		if err != nil || strings.HasPrefix(rel, "..") {
			return
		}
		if filepath.Base(name) == "LOG" && op == "write" {
			return // the log of the storage library
		}
		take(fmt.Sprintf("%s, before %s %s", last, op, rel))
		last = op + " " + rel
	})
	defer zzverifos.SetHook(nil)
	f()
	zzverifos.SetHook(nil)
	take(last + ", at the end")
	return
}

func diskKey(m map[string]string) string {
	var l []string
	for f, v := range m {
		l = append(l, f+"="+v)
	}
	sort.Strings(l)
	return strings.Join(l, " ")
}

func clone(m map[string]string) map[string]string {
	n := map[string]string{}
	for k, v := range m {
		n[k] = v
	}
	return n
}

const version = "v9.0.0"

// start starts on what a crash left, with the files of disk.
func start(dir string, disk map[string]string) (*analysis.Store, error) {
	fs := hx.NewMemFS()
	for f, v := range disk {
		fs.Files[hist.URI(f)] = hist.Versions[v]
	}
	s, err := analysis.NewStore(fs, hx.Root, dir)
	if err != nil {
		return nil, err
	}
	s.Migrate(version)
	s.PrepareForIndexing()
	ds, _ := fs.ListFiles(context.Background(), hx.Root)
	for _, d := range ds {
		s.CompareAndIndexDocument(context.Background(), d.URI)
	}
	s.FinishIndexing()
	return s, nil
}

func compare(c *kit.C, h *hist.H, s *analysis.Store, disk map[string]string, sub, what string) bool {
	got, want := hx.Dump(s, hist.Uni), h.Fresh(disk)
	c.Eval(len(got))
	c.State(diskKey(disk) + what)
	if d := hx.Diff(got, want); d != "" {
		c.Fail(sub, "%s: the index should describe {%s}; %s (%d questions differ)", what, diskKey(disk), d, len(hx.DiffKeys(got, want)))
		return false
	}
	return true
}

// alternatives are the contents that the files can have at the next start.
func alternatives(before, after map[string]string, f string) (out []map[string]string) {
	seen := map[string]bool{}
	add := func(m map[string]string) {
		if k := diskKey(m); !seen[k] {
			seen[k] = true
			out = append(out, m)
		}
	}
	add(after)
	add(before)
	if f != "" {
		m := clone(after)
		delete(m, f)
		add(m)
		m = clone(after)
		m[f] = "co"
		add(m)
	}
	return
}

func crash(c *kit.C, ops []string, twice bool) {
	h := hist.New(c)
	defer func() { h.S.Close(); os.RemoveAll(h.Dir); os.RemoveAll(filepath.Join(c.Scratch(), "snaps")) }()
	h.S.Migrate(version)
	for _, o := range ops[:len(ops)-1] {
		if !h.Do(o) {
			c.Count("not applicable", 1)
			return
		}
	}
	before := clone(h.Disk)
	ok := true
	lastOp := ops[len(ops)-1]
	snaps := watch(filepath.Join(c.Scratch(), "snaps"), h.Dir, func() {
		switch lastOp {
		case "S": // stop
			h.S.Close()
			h.S = hx.Open(h.FS, hx.Dir(c.Scratch()))
		case "U": // start again after an upgrade that starts over
			h.S.PutVersion("v0.0.1")
			h.S.Migrate(version)
		default:
			ok = h.Do(lastOp)
		}
	})
	if !ok {
		c.Count("not applicable", 1)
		return
	}
	f := ""
	if p := strings.Split(lastOp, ":"); len(p) > 1 {
		f = p[1]
	}
	if h.Disk[f] == "" && before[f] == "" {
		f = ""
	}
	c.Count("crash points", len(snaps))
	c.Trans(len(snaps))
	for i, sn := range snaps {
		for _, disk := range alternatives(before, h.Disk, f) {
			sub := fmt.Sprintf("crash %d with {%s}", i, diskKey(disk))
			c.SubP(sub)
			d := filepath.Join(c.Scratch(), "again")
			try := func(from string, w string, sub string, inside func(dir string) (*analysis.Store, error)) bool {
				os.RemoveAll(d)
				copyTree(from, d)
				s, err := inside(d)
				if err != nil {
					c.Fail(sub, "after a crash (%s) the index cannot be opened: %v", w, err)
					return false
				}
				defer s.Close()
				if !compare(c, h, s, disk, sub, "after a crash ("+w+") and indexing the folder") {
					return false
				}
				return true
			}
			c.Distinct(strings.Join(ops, " ") + sn.what + diskKey(disk))
			if !try(sn.dir, sn.what, sub, func(dir string) (*analysis.Store, error) { return start(dir, disk) }) {
				return
			}
			if !twice {
				continue
			}
			// and again while it recovers
			two := filepath.Join(c.Scratch(), "two")
			os.RemoveAll(two)
			copyTree(sn.dir, two)
			var s *analysis.Store
			base := filepath.Join(c.Scratch(), "snaps2")
			os.RemoveAll(base)
			again := watch(base, two, func() {
				var err error
				if s, err = start(two, disk); err != nil {
					panic(err)
				}
			})
			s.Close()
			c.Count("second crash points", len(again))
			for k, sn2 := range again {
				if !try(sn2.dir, sn.what+", and then "+sn2.what, fmt.Sprintf("%s then %d", sub, k), func(dir string) (*analysis.Store, error) { return start(dir, disk) }) {
					return
				}
			}
			os.RemoveAll(base)
			os.RemoveAll(two)
		}
	}
}

var ops = []string{"i:a.php:cl", "i:a.php:cm", "i:a.php:rf", "i:b.php:nm", "i:a.php:ns", "d:a.php", "o:a.php", "e:a.php:if", "e:a.php:rg", "c:a.php", "m:a.php:fn", "r:a.php", "x", "S", "U", "R"}

func main() {
	kit.Main(kit.Check{
		ID:          "C12",
		Level:       "model_checking",
		Rule:        "a case is a history of index operations; the process is taken to die before every single change of a file (create, write, truncate, rename, remove) that the storage libraries make in the last operation, and the files left are opened and indexed again with each of the contents that the folder can then have; the index must equal a fresh one",
		Assumptions: []string{"what a process has written is there after it dies (the machine goes on running)", "a write to a file happens as a whole"},
		HangSeconds: 300,
		Bounds: func(t bool) string {
			if t {
				return "histories of up to 3 operations of 16, all crash points of the last; of up to 2 with all second crash points while recovering"
			}
			return "histories of up to 2 operations of 16 (the empty folder and an indexed one before), all crash points of the last"
		},
		Enumerate: func(e *kit.Enum) {
			add := func(ops []string, twice bool) {
				ops = append([]string{}, ops...)
				key := fmt.Sprintf("%s twice %v", hist.Key(ops), twice)
				e.Case(key, func(c *kit.C) {
					crash(c, ops, twice)
					c.Sample(key)
				})
			}
			for n := 1; n <= 3; n++ {
				hist.Sequences(ops, n, func(sc []string) {
					if strings.Contains(strings.Join(sc[:n-1], ""), "S") || strings.Contains(strings.Join(sc[:n-1], ""), "U") {
						return
					}
					if n < 3 || e.Thorough || sc[0] == "i:a.php:cl" || sc[0] == "i:a.php:rf" {
						add(sc, false)
					}
					if e.Thorough && n < 3 {
						add(sc, true)
					}
				})
			}
		},
	})
}
