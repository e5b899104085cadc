// C26: paths and URIs, and the identity of files.
package main

import (
	"fmt"
	"strings"
	"unicode/utf8"

	"github.com/john-nguyen09/phpintel/internal/zzverif/kit"
	"github.com/john-nguyen09/phpintel/internal/zzverif/lspmc"
	"github.com/john-nguyen09/phpintel/internal/zzverif/mcrt"
	"github.com/john-nguyen09/phpintel/internal/zzverif/mcx"
	"github.com/john-nguyen09/phpintel/util"
)

var alphabet = []string{"a", "A", "2", " ", "+", "%", "#", "?", ":", "é", ".", "-", "\\", "&", "~", "日", "\xff", ";", "[", "\"", "\n"}

func words(alpha []string, n int, f func(string)) {
	var walk func(p string, k int)
	walk = func(p string, k int) {
		if k > 0 {
			f(p)
		}
		if k < n {
			for _, a := range alpha {
				walk(p+a, k+1)
			}
		}
	}
	walk("", 0)
}

// drive tells whether a first component is taken for that of Windows, which is how the two are told apart.
func drive(c string) bool {
	return len(c) == 2 && c[1] == ':' && (c[0]|32) >= 'a' && (c[0]|32) <= 'z'
}

func forward(c *kit.C, p string) string {
	c.Eval(1)
	u := util.PathToURI(p)
	if !strings.HasPrefix(u, "file:///") {
		c.Fail(p, "the URI of %q is %q", p, u)
	}
	for _, r := range u[8:] {
		if r <= ' ' || r >= 0x7f || strings.ContainsRune("#?\"<>[]\\^`{|}", r) {
			c.Fail(p, "the URI of %q has a character it cannot have: %q", p, u)
			break
		}
	}
	q, err := util.URIToPath(u)
	if err != nil || q != p {
		c.Fail(p, "the path %q has the URI %q, which is converted back to %q, %v", p, u, q, err)
	}
	return u
}

// spellings are all the ways of writing a path in a URI.
func spellings(p string, f func(u string)) {
	var walk func(i int, u string)
	walk = func(i int, u string) {
		if i == len(p) {
			f(u)
			return
		}
		c := p[i]
		if c == '/' {
			walk(i+1, u+"/")
			return
		}
		h := fmt.Sprintf("%%%02X", c)
		walk(i+1, u+h)
		if l := strings.ToLower(h); l != h {
			walk(i+1, u+l)
		}
		if 'a' <= c && c <= 'z' || 'A' <= c && c <= 'Z' || '0' <= c && c <= '9' || strings.IndexByte("-_.~!$&'()*+,;=:@", c) >= 0 || c >= 0x80 {
			walk(i+1, u+string([]byte{c}))
		}
	}
	walk(0, "file://")
}

var names = []string{"a b", "p+q", "100%", "%41", "h#", "q?", "é", "c:d", "a;b", "[x]", "'", "(x)", "~", "-", "a@b", "$x", "\\n", "..h"}

func scripts() (out [][]string) {
	return [][]string{
		{"w F 2", "d F"}, {"w F 2", "w F 3"}, {"o F 3", "e F 4", "c F"}, {"o F 3", "e F 4"}, {"o F", "w- F 2", "c F"}, {"o F 2", "n F"}, {"o F 2", "s F", "c F", "d F"},
		{"d F", "w F 3"}, {"mv F Gx", "mv Gx F"}, {"d D"}, {"mv D E"}, {"- D", "+ D"}, {"+ D"}, {"+ D", "w F 3", "- D"}, {"o F 3", "+ D", "e F 4"}, {"+ D", "o F 3", "- D", "c F"},
	}
}

func main() {
	kit.Main(kit.Check{
		ID:    "C26",
		Level: "model_checking",
		Rule:  "a case is a family of paths, or a file with an unusual name and a script of notifications whose URIs are written in different ways; conversions must be inverses of each other, and the server must know each file once",
		Assumptions: []string{"a URI may escape any character other than the slash", "a first component that is a letter and a colon is a Windows drive",
			"data directories are compared for the folders enumerated; their names carry 32 bits of a hash"},
		HangSeconds: 120,
		Bounds: func(t bool) string {
			n, m := 4, 3
			if t {
				n, m = 5, 4
			}
			return fmt.Sprintf("all components of up to %d characters of %d, all pairs of components of 2, all spellings of components of up to %d characters, data directories of all of them up to 2; 18 unusual names as file and folder, 16 scripts, all pairs of 4 ways of writing URIs, one schedule", n, len(alphabet), m)
		},
		Enumerate: func(e *kit.Enum) {
			n, m := 3, 3
			if e.Thorough {
				n, m = 4, 4
			}
			for _, a := range alphabet {
				for _, b := range alphabet {
					a, b := a, b
					e.Case(fmt.Sprintf("components from %q", a+b), func(c *kit.C) {
						one := func(w string) {
							if w == "." || w == ".." {
								return
							}
							if !drive(w) {
								c.Distinct(forward(c, "/"+w))
								forward(c, "/"+w+"/x.php")
							}
							c.Distinct(forward(c, "/x/"+w))
							if !strings.Contains(w, "\\") {
								forward(c, "C:\\"+w)
								forward(c, "d:\\x\\"+w)
							}
						}
						one(a + b)
						if b == alphabet[0] {
							one(a)
						}
						words(alphabet, n-1, func(w string) { one(a + b + w) })
					})
					e.Case(fmt.Sprintf("pairs from %q", a+b), func(c *kit.C) {
						words(alphabet, 2, func(w string) {
							if w != "." && w != ".." && a+b != ".." && !drive(a+b) {
								c.Distinct(forward(c, "/"+a+b+"/"+w))
							}
						})
					})
					e.Case(fmt.Sprintf("spellings of %q", a+b), func(c *kit.C) {
						one := func(w string) {
							if w == "." || w == ".." {
								return
							}
							p := "/x/" + w
							want := util.PathToURI(p)
							spellings(p[2:], func(u string) {
								c.Eval(1)
								u = "file:///x" + u[7:]
								if got, err := util.URIToPath(u); err != nil || got != p {
									c.Fail(u, "%q is converted to the path %q, %v instead of %q", u, got, err, p)
								}
								if got := util.NormaliseURI(u); got != want {
									c.Fail(u, "%q is the file %q, but not %q", u, got, want)
								}
							})
						}
						one(a + b)
						if b == alphabet[0] {
							one(a)
						}
						words(alphabet, m-2, func(w string) {
							if utf8.RuneCountInString(w) <= m-2 {
								one(a + b + w)
							}
						})
					})
				}
			}
			e.Case("data directories", func(c *kit.C) {
				seen := map[string]string{}
				one := func(p string) {
					c.Eval(1)
					u := util.PathToURI(p)
					id := util.GetURIID(u)
					if id == "" || id == "." || id == ".." || strings.ContainsAny(id, "/\x00") || len(id) > 255 {
						c.Fail(p, "the folder %.60q has the data directory %.60q of %d bytes", p, id, len(id))
					}
					if o, ok := seen[id]; ok && o != p {
						c.Fail(p, "the folders %q and %q have the same data directory %q", p, o, id)
					}
					seen[id] = p
				}
				one("/")
				words(alphabet, 2, func(w string) {
					if w == "." || w == ".." || drive(w) {
						return
					}
					one("/" + w)
					one("/x/" + w)
					one("/y/" + w)
					one("/" + w + "/x")
					one("/xx/" + w + "/x")
				})
				for k := 1; k <= 255; k++ {
					one("/" + strings.Repeat("x", k))
					one("/w/" + strings.Repeat("é", k/2+1))
				}
				for k := 1; k <= 400; k++ {
					one(strings.Repeat("/d", k))
				}
				c.Distinct(fmt.Sprint(len(seen)))
			})
			styles := "clma"
			for _, n := range names {
				for i, sc := range scripts() {
					for _, s1 := range styles {
						for _, s2 := range styles {
							n, sc, st := n, sc, string(s1)+string(s2)
							key := fmt.Sprintf("%s as %s: %s", n, st, strings.Join(sc, ", "))
							i := i
							e.Case(key, func(c *kit.C) {
								f := strings.ReplaceAll(n, " ", "_")
								r := strings.NewReplacer("F", "w/"+f+"/"+f+".php", "Gx", "w/"+f+"/x.php", "D", "w/"+f, "E", "w/x"+f)
								base := c.Scratch()
								mcx.Explore(c, key, mcx.Opt{Delay: -1}, func() {
									s := lspmc.Start(base, []string{"w"}, []string{"w/" + n + "/" + n + ".php=1"}, true)
									if i == 11 {
										s.Do(r.Replace("+ D"))
									}
									s.Styles = st
									for _, o := range sc {
										if !s.Do(r.Replace(o)) {
											mcrt.Failf("INTERNAL: %s does not apply", o)
										}
										s.Do("~")
									}
									c.State(s.Finish())
									mcrt.Finish()
								})
								c.Sample(key)
							})
						}
					}
				}
			}
		},
	})
}
