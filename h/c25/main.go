// C25: diagnostics are those of the latest text, and tell what it does not use.
package main

import (
	"fmt"
	"sort"
	"strings"
	"unicode/utf16"

	"github.com/john-nguyen09/phpintel/internal/lsp/protocol"
	"github.com/john-nguyen09/phpintel/internal/zzverif/kit"
	debounce "github.com/john-nguyen09/phpintel/internal/zzverif/mcdebounce"
	"github.com/john-nguyen09/phpintel/internal/zzverif/srv"
)

type env struct {
	c *kit.C
	s *srv.S
}

func start(c *kit.C) *env {
	s := srv.Start(c.Scratch(), map[string]string{"w.php": world, "a.php": "<?php\n", "b.php": "<?php\n"})
	s.Open("w.php")
	s.Open("a.php")
	drain()
	return &env{c, s}
}

const world = "<?php\n/** @deprecated */\nfunction oldf() {}\n/** @deprecated */\nclass OldC { }\nclass X { public $p; function m(X $x) {} static function s() {} }\n"

// drain lets what is due happen, until there is nothing more.
func drain() {
	for fs := debounce.Take(); len(fs) > 0; fs = debounce.Take() {
		for _, f := range fs {
			f()
		}
	}
}

// position of an offset.
func position(t string, off int) protocol.Position {
	l := strings.Count(t[:off], "\n")
	i := strings.LastIndexByte(t[:off], '\n') + 1
	return protocol.Position{Line: l, Character: len(utf16.Encode([]rune(t[i:off])))}
}

// at is a part of a text, as a range and what it is.
func at(t string, from, to int) string {
	a, b := position(t, from), position(t, to)
	return fmt.Sprintf("%d:%d-%d:%d %s", a.Line, a.Character, b.Line, b.Character, t[from:to])
}

// offset of a position, -1 when there is none.
func offset(t string, p protocol.Position) int {
	off := 0
	for l := 0; l < p.Line; l++ {
		i := strings.IndexAny(t[off:], "\r\n")
		if i < 0 {
			return -1
		}
		off += i + 1
		if t[off-1] == '\r' && off < len(t) && t[off] == '\n' {
			off++
		}
	}
	n := 0
	for off < len(t) && t[off] != '\n' && t[off] != '\r' && n < p.Character {
		r := []rune(t[off:])[0]
		n += len(utf16.Encode([]rune{r}))
		off += len(string(r))
	}
	if n != p.Character {
		return -1
	}
	return off
}

// within judges the ranges of the last diagnostics of a document.
func (e *env) within(name, rel, t string) []protocol.Diagnostic {
	ds, ok := e.s.Diags(rel)
	if !ok {
		e.c.Fail("none", "%s: no diagnostics were published for %q", name, t)
	}
	e.c.Eval(1)
	for _, d := range ds {
		a, b := offset(t, d.Range.Start), offset(t, d.Range.End)
		if a < 0 || b < 0 || a > b {
			e.c.SubP(name)
			e.c.Fail("range", "%s: %q is shown at %v, which is not in %q", name, d.Message, d.Range, t)
		}
	}
	return ds
}

// unusedAt are the parts of a.php that are told not to be used.
func (e *env) unusedAt(name, t string) [][2]int {
	e.s.Change("a.php", t)
	drain()
	e.c.Distinct(t)
	e.c.Trans(1)
	var out [][2]int
	for _, d := range e.within(name, "a.php", t) {
		for _, tag := range d.Tags {
			if tag != protocol.Unnecessary {
				continue
			}
			a, b := offset(t, d.Range.Start), offset(t, d.Range.End)
			if a >= 0 && b >= a {
				out = append(out, [2]int{a, b})
			}
		}
	}
	return out
}

func (e *env) unused(name, t string) []string {
	var out []string
	for _, p := range e.unusedAt(name, t) {
		out = append(out, at(t, p[0], p[1]))
	}
	sort.Strings(out)
	return out
}

func main() {
	kit.Main(kit.Check{
		ID:    "C25",
		Level: "model_checking",
		Rule:  "what is told to be unused is what the generated program does not use by PHP's rules of names and scopes; the last diagnostics after a history are those of a fresh server",
		Assumptions: []string{
			"a variable that is read somewhere may still be told to be unused where a value is given to it that nothing after that, and no loop around it, reads",
			"values given to references, static and global variables can be read elsewhere: the variable is used when it is mentioned at all",
		},
		Enumerate: func(e *kit.Enum) {
			imports(e)
			variables(e)
			histories(e)
			texts(e)
		},
	})
}
