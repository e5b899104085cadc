// C15: both storage engines behave like one sorted map.
package main

import (
	"bytes"
	"errors"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"github.com/john-nguyen09/phpintel/analysis/storage"
	"github.com/john-nguyen09/phpintel/internal/zzverif/kit"
)

// keys are chosen so that each is a prefix or a neighbour of another, with the
// separator and the byte that makes an exclusive upper bound carry.
var keys = []string{"a", "a\x00", "a\x00b", "a\xff", "a\xff\xff", "ab", "b"}
var prefixes = []string{"", "a", "a\x00", "a\xff", "a\xff\xff", "ab", "abc", "b", "\xff", "c"}

type op struct {
	name  string
	apply func(db storage.DB) string // returns what it observed
	model func(m map[string]string) string
	open  bool
}

var errBatch = errors.New("no")

type bop struct {
	del bool
	k   string
	v   string
}

func (b bop) String() string {
	if b.del {
		return fmt.Sprintf("-%q", b.k)
	}
	return fmt.Sprintf("+%q=%q", b.k, b.v)
}

func batchOp(fail bool, bs ...bop) op {
	var n []string
	for _, b := range bs {
		n = append(n, b.String())
	}
	name := "batch(" + strings.Join(n, " ") + ")"
	if fail {
		name = "failing " + name
	}
	return op{name: name, apply: func(db storage.DB) string {
		err := db.WriteBatch(func(b storage.Batch) error {
			for _, x := range bs {
				k, v := []byte(x.k), []byte(x.v)
				if x.del {
					b.Delete(k)
				} else {
					b.Put(k, v)
				}
				scribble(k)
				scribble(v)
			}
			if fail {
				return errBatch
			}
			return nil
		})
		if err != nil {
			return "error"
		}
		return "ok"
	}, model: func(m map[string]string) string {
		if fail {
			return "error"
		}
		for _, x := range bs {
			if x.del {
				delete(m, x.k)
			} else {
				m[x.k] = x.v
			}
		}
		return "ok"
	}}
}

func scribble(b []byte) {
	for i := range b {
		b[i] = '#'
	}
}

func ops(ks []string, vals []string, full bool) []op {
	var out []op
	for _, k := range ks {
		for _, v := range vals {
			k, v := k, v
			out = append(out, op{name: fmt.Sprintf("put %q=%q", k, v), apply: func(db storage.DB) string {
				kb, vb := []byte(k), []byte(v)
				err := db.Put(kb, vb)
				scribble(kb)
				scribble(vb)
				return fmt.Sprint(err)
			}, model: func(m map[string]string) string { m[k] = v; return "<nil>" }})
		}
		k := k
		out = append(out, op{name: fmt.Sprintf("delete %q", k), apply: func(db storage.DB) string {
			kb := []byte(k)
			err := db.Delete(kb)
			scribble(kb)
			return fmt.Sprint(err)
		}, model: func(m map[string]string) string { delete(m, k); return "<nil>" }})
	}
	out = append(out,
		op{name: "clear", apply: func(db storage.DB) string { db.Clear(); return "" }, model: func(m map[string]string) string {
			for k := range m {
				delete(m, k)
			}
			return ""
		}},
		op{name: "reopen", open: true, model: func(m map[string]string) string { return "" }, apply: func(db storage.DB) string { return "" }},
		batchOp(false, bop{k: ks[0], v: "B"}, bop{del: true, k: ks[0]}, bop{k: ks[1], v: "B"}),
		batchOp(false, bop{del: true, k: ks[1]}, bop{k: ks[1], v: "C"}, bop{del: true, k: ks[2]}),
		batchOp(true, bop{k: ks[0], v: "F"}, bop{del: true, k: ks[1]}),
	)
	for _, p := range prefixes {
		if !full && p != "a" {
			continue
		}
		p := p
		out = append(out, op{name: fmt.Sprintf("delete each while scanning %q", p), apply: func(db storage.DB) string {
			var seen []string
			db.PrefixStream([]byte(p), func(it storage.Iterator) {
				seen = append(seen, string(it.Key()))
				db.Delete(it.Key())
			})
			return strings.Join(seen, ",")
		}, model: func(m map[string]string) string {
			seen := scan(m, p)
			for _, k := range seen {
				delete(m, k)
			}
			return strings.Join(seen, ",")
		}})
	}
	return out
}

func scan(m map[string]string, p string) []string {
	var out []string
	for k := range m {
		if strings.HasPrefix(k, p) {
			out = append(out, k)
		}
	}
	sort.Strings(out)
	return out
}

// observe compares everything readable with the model.
func observe(c *kit.C, sub string, db storage.DB, m map[string]string) {
	for _, k := range append([]string{"zz"}, keys...) {
		c.Eval(1)
		v, err := db.Get([]byte(k))
		w, ok := m[k]
		if ok != (err == nil) {
			c.Fail(sub, "Get(%q): error %v, the map has it: %v", k, err, ok)
			return
		}
		if ok && string(v) != w {
			c.Fail(sub, "Get(%q) = %q, want %q", k, v, w)
			return
		}
		scribble(v)
	}
	for _, p := range prefixes {
		want := scan(m, p)
		for stop := 0; stop <= len(want); stop++ {
			if stop == 0 && len(want) > 0 {
				continue
			}
			c.Eval(1)
			var got []string
			pb := []byte(p)
			if p == "" {
				pb = nil
			}
			bad := ""
			var heldK, heldV [][]byte
			db.PrefixStream(pb, func(it storage.Iterator) {
				k, v := it.Key(), it.Value()
				if m[string(k)] != string(v) {
					bad = fmt.Sprintf("value %q for key %q, want %q", v, k, m[string(k)])
				}
				got = append(got, string(k))
				heldK, heldV = append(heldK, k), append(heldV, v)
				if len(got) == stop {
					it.Stop()
				}
			})
			for i, k := range heldK {
				if string(k) != got[i] || (bad == "" && string(heldV[i]) != m[got[i]]) {
					bad = fmt.Sprintf("a key or value handed out during the scan changed afterwards: %q", k)
				}
			}
			for i := range heldK {
				scribble(heldK[i])
				scribble(heldV[i])
			}
			w := want[:stop]
			if strings.Join(got, "|") != strings.Join(w, "|") {
				bad = fmt.Sprintf("keys %q, want %q", got, w)
			}
			if bad != "" {
				c.Fail(sub, "scan of prefix %q stopped after %d: %s", p, stop, bad)
				return
			}
		}
	}
}

type engine struct {
	name  string
	db    storage.DB
	dir   string
	model map[string]string
}

func (e *engine) reopen(c *kit.C) {
	if e.dir == "" {
		return
	}
	e.db.Close()
	db, err := storage.NewGoLevelDB(e.dir)
	if err != nil {
		panic(err)
	}
	e.db = db
}

func run(c *kit.C, all []op, depth int, first int, dir string) {
	lv, err := storage.NewGoLevelDB(dir)
	if err != nil {
		panic(err)
	}
	es := []*engine{{name: "memory"}, {name: "disk", db: lv, dir: dir}}
	defer func() { es[1].db.Close(); os.RemoveAll(dir) }()
	idx := make([]int, depth)
	for n := 0; ; n++ {
		idx[0] = first
		var names []string
		for _, i := range idx {
			names = append(names, all[i].name)
		}
		sub := strings.Join(names, "; ")
		if n%200 == 0 {
			c.SubP(sub)
		}
		c.Sub(sub)
		es[0].db = storage.NewMemory()
		es[1].db.Clear()
		for _, e := range es {
			m := map[string]string{}
			if e.dir != "" {
				left := 0
				e.db.PrefixStream(nil, func(storage.Iterator) { left++ })
				if left > 0 {
					c.Fail(sub, "%s: %d keys left after clear", e.name, left)
					return
				}
			}
			for _, i := range idx {
				o := all[i]
				if o.open {
					e.reopen(c)
				}
				got, want := o.apply(e.db), o.model(m)
				c.Trans(1)
				if got != want {
					c.Fail(sub, "%s: %s returned %q, want %q", e.name, o.name, got, want)
				}
			}
			observe(c, sub+" ["+e.name+"]", e.db, m)
			// reading must not have changed anything
			observe(c, sub+" ["+e.name+", again]", e.db, m)
			var ks []string
			for _, k := range scan(m, "") {
				ks = append(ks, k+"="+m[k])
			}
			c.State(fmt.Sprintf("%q", ks))
		}
		c.Distinct(sub)
		j := depth - 1
		for ; j >= 1; j-- {
			idx[j]++
			if idx[j] < len(all) {
				break
			}
			idx[j] = 0
		}
		if j < 1 {
			break
		}
	}
	c.Sample(c.Key)
}

// big fills the disk engine so that its log is turned into table files and compacted.
func big(c *kit.C, dir string, n, size int, pattern int) {
	db, err := storage.NewGoLevelDB(dir)
	if err != nil {
		panic(err)
	}
	defer func() { db.Close(); os.RemoveAll(dir) }()
	m := map[string]string{}
	for i := 0; i < n; i++ {
		k := keys[(i*pattern)%len(keys)] + fmt.Sprint(i%37)
		if i%5 == 4 {
			db.Delete([]byte(k))
			delete(m, k)
		} else {
			v := strings.Repeat(string(rune('a'+i%26)), size+i)
			db.Put([]byte(k), []byte(v))
			m[k] = v
		}
		c.Trans(1)
	}
	for pass := 0; pass < 2; pass++ {
		for _, p := range prefixes {
			var got []string
			db.PrefixStream([]byte(p), func(it storage.Iterator) {
				k := string(it.Key())
				got = append(got, k)
				if !bytes.Equal(it.Value(), []byte(m[k])) {
					c.Fail(fmt.Sprint("pass ", pass, " ", p), "wrong value for %q", k)
				}
			})
			c.Eval(1)
			if fmt.Sprint(got) != fmt.Sprint(scan(m, p)) {
				c.Fail(fmt.Sprint("pass ", pass, " ", p), "got %q want %q", got, scan(m, p))
			}
		}
		db.Close()
		if db, err = storage.NewGoLevelDB(dir); err != nil {
			panic(err)
		}
	}
}

func main() {
	kit.Main(kit.Check{
		ID: "C15", Level: "model_checking",
		Rule: "The model is a sorted map; every operation sequence of the stated length is run on both real engines and every read (point lookups, every prefix scan stopped after every number of entries) is compared with the model.",
		Assumptions: []string{
			"the engines are used from one goroutine at a time",
			"writes made to an engine from inside one of its own batch functions are not explored",
		},
		Bounds: func(t bool) string {
			if t {
				return "all sequences of 3 operations over 7 keys x 2 values and of 5 operations over 3 keys x 1 value, of 4 over 4 keys x 2 values (put, delete, clear, reopen, 3 batches, delete-while-scanning); compaction histories"
			}
			return "all sequences of 4 operations over 4 keys x 2 values (put, delete, clear, reopen, 3 batches incl. a failing one, delete-while-scanning); compaction histories"
		},
		Enumerate: func(e *kit.Enum) {
			sets := []struct {
				ks   []string
				vs   []string
				d    int
				full bool
			}{{[]string{"a", "a\x00", "a\xff\xff", "ab"}, []string{"", "1"}, 4, false}}
			if e.Thorough {
				sets = append(sets, struct {
					ks   []string
					vs   []string
					d    int
					full bool
				}{keys, []string{"", "1"}, 3, true}, struct {
					ks   []string
					vs   []string
					d    int
					full bool
				}{[]string{"a\x00", "a\x00b", "a\xff"}, []string{"1"}, 5, false})
			}
			for si, s := range sets {
				all := ops(s.ks, s.vs, s.full)
				for i := range all {
					s, i, si := s, i, si
					e.Case(fmt.Sprintf("set%d depth%d first=%s", si, s.d, all[i].name), func(c *kit.C) {
						run(c, all, s.d, i, filepath.Join(c.Scratch(), fmt.Sprintf("l%d_%d", si, i)))
					})
				}
			}
			for p := 1; p < 4; p++ {
				p := p
				e.Case(fmt.Sprintf("compaction %d", p), func(c *kit.C) {
					big(c, filepath.Join(c.Scratch(), fmt.Sprintf("big%d", p)), 400, 40000, p)
				})
			}
		},
	})
}
