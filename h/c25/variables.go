package main

import (
	"fmt"
	"sort"
	"strings"

	"github.com/john-nguyen09/phpintel/internal/zzverif/bind"
	"github.com/john-nguyen09/phpintel/internal/zzverif/kit"
)

// judge says what must be, and what must not be, told to be unused: true or false by place, nothing when either will do.
func judge(p *bind.Prog) map[[2]int]bool {
	m := map[[2]int]bool{}
	byOwn := map[int][]bind.Occ{}
	for _, o := range p.Occs {
		byOwn[o.Own] = append(byOwn[o.Own], o)
	}
	for _, o := range p.Passed {
		byOwn[o.Own] = append(byOwn[o.Own], o)
	}
	for own, occs := range byOwn {
		var reads, writes []bind.Occ
		open := false
		for _, o := range occs {
			switch o.Kind {
			case bind.Read:
				reads = append(reads, o)
				if o.To > 0 {
					m[[2]int{o.From, o.To}] = false
				}
			case bind.Write:
				writes = append(writes, o)
			default:
				open = true
			}
		}
		if open {
			continue
		}
		for _, w := range writes {
			at := [2]int{w.From, w.To}
			switch {
			case w.Use && len(occs) > 1:
				continue
			case p.Refs[own]:
				m[at] = len(occs) == 1
			case len(reads) == 0:
				m[at] = true
			}
			for _, r := range reads {
				if r.From >= w.Eff {
					m[at] = false
				}
				for _, l := range p.Loops {
					if l.In == w.In && l.From <= w.From && w.From < l.To && l.From <= r.From && r.From < l.To {
						m[at] = false
					}
				}
			}
		}
	}
	return m
}

func (e *env) vars(name string, scope int, nodes ...bind.Node) {
	p := &bind.Prog{}
	p.B.WriteString("<?php\n")
	bind.Scopes[scope].Wrap(func(p *bind.Prog, s *bind.Scope) {
		for _, n := range nodes {
			n(p, s)
			p.B.WriteString("\n")
		}
	})(p, p.Scope())
	t := p.B.String()
	told := map[[2]int]bool{}
	for _, g := range e.unusedAt(bind.Scopes[scope].Name+": "+name, t) {
		told[g] = true
	}
	want := judge(p)
	var wrong []string
	for at, w := range want {
		if told[at] != w {
			wrong = append(wrong, fmt.Sprintf("%s at %d is %s", t[at[0]:at[1]], at[0], map[bool]string{true: "used nowhere and not told", false: "used and told to be unused"}[w]))
		}
	}
	for at := range told {
		found := false
		for _, o := range p.Occs {
			found = found || at == [2]int{o.From, o.To}
		}
		if !found && !strings.Contains(t[at[0]:at[1]], "use") {
			wrong = append(wrong, fmt.Sprintf("%q at %d is no variable", t[at[0]:at[1]], at[0]))
		}
	}
	if len(wrong) > 0 {
		sort.Strings(wrong)
		e.c.SubP(name)
		e.c.Fail("variables", "%s: %s: %q: %s", bind.Scopes[scope].Name, name, t, strings.Join(wrong, ", "))
	}
}

func variables(e *kit.Enum) {
	for i, s := range bind.Scopes {
		i := i
		for j, first := range bind.Pieces {
			first := first
			deep := (i+j)%3 == 0 || e.Thorough
			e.Case(fmt.Sprintf("variables/%s/%s", s.Name, first), func(c *kit.C) {
				v := start(c)
				defer v.s.Stop()
				v.vars(first, i, bind.Piece(first))
				for k, second := range bind.Pieces {
					v.vars(first+" "+second, i, bind.Piece(first), bind.Piece(second))
					for l, a := range bind.Around {
						v.vars(a.Name+"("+first+") "+second, i, a.Wrap(bind.Piece(first)), bind.Piece(second))
						v.vars(first+" "+a.Name+"("+second+")", i, bind.Piece(first), a.Wrap(bind.Piece(second)))
						v.vars(a.Name+"("+first+" "+second+")", i, a.Wrap(bind.Seq(bind.Piece(first), bind.Text(" "), bind.Piece(second))))
						if !c.Thorough() && (k+l)%17 != 0 {
							continue
						}
						for _, b := range bind.Around {
							v.vars(a.Name+"("+first+" "+b.Name+"("+second+"))", i, a.Wrap(bind.Seq(bind.Piece(first), bind.Text(" "), b.Wrap(bind.Piece(second)))))
						}
					}
					if !deep {
						continue
					}
					for l, third := range bind.Pieces {
						if c.Thorough() || (k+l)%11 == 0 {
							v.vars(first+" "+second+" "+third, i, bind.Piece(first), bind.Piece(second), bind.Piece(third))
						}
					}
				}
			})
		}
	}
}
