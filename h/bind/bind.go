// Package bind generates programs and knows, by PHP's scoping rules, which variable each name in them is.
package bind

import "strings"

// Scope is the variables of a function: the number of each of its names.
type Scope struct {
	vars, own map[string]int
	up        *Scope // of an arrow function: where the names that are not parameters belong
}

// The kinds of occurrences.
const (
	Read   = 'r'
	Write  = 'w'
	Either = '?' // not told
)

// Occ is an occurrence of a variable.
type Occ struct {
	From, To int
	// ID is the variable, the same in and around a closure that uses it; Own is another for a closure that uses its value.
	ID, Own int
	Bare    bool // without its dollar
	Maybe   bool // in a comment
	Kind    byte
	// Eff is where what is written takes effect.
	Eff int
	// In is the scope it belongs to.
	In *Scope
	// Use is for those that a closure shares.
	Use bool
}

// Part is a part of a program, in a scope.
type Part struct {
	From, To int
	In       *Scope
}

// Probe is where a variable is being written: what is written of it ends At.
type Probe struct {
	At  int
	Pre string
	In  *Scope
}

// Prog is a program and the variables in it.
type Prog struct {
	B    strings.Builder
	Occs []Occ
	// Passed are the reads that giving values to closures is.
	Passed []Occ
	// Refs are the own numbers of variables that others can see.
	Refs map[int]bool
	// Loops are the parts that repeat.
	Loops []Part
	ids   int
	// Probes are where a variable is being written.
	Probes []Probe
	// Wide puts a line break, and characters of several bytes, in each space
	Wide bool
}

// Scope makes a scope.
func (p *Prog) Scope() *Scope { return &Scope{vars: map[string]int{}, own: map[string]int{}} }

func (p *Prog) id(s *Scope, name string) (int, int) {
	if id, ok := s.vars[name]; ok {
		return id, s.own[name]
	}
	if s.up != nil {
		return p.id(s.up, name)
	}
	p.ids++
	s.vars[name], s.own[name] = p.ids, p.ids
	return p.ids, p.ids
}

// Ref notes that a variable is visible elsewhere.
func (p *Prog) Ref(s *Scope, name string) {
	if p.Refs == nil {
		p.Refs = map[int]bool{}
	}
	_, own := p.id(s, name)
	p.Refs[own] = true
}

func letter(c byte) bool { return c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c == '_' }

// Put writes source text of the scope. In it, $name is an occurrence, but not $this; § is a dollar that makes none,
// ¤name is an occurrence that is written without a dollar, and ¿name one that is written with a dollar in a comment.
// →name is $name that is given a value there, ⇒name one that is given a value at the end of the text, ↔name one that may
// be either, ⇄name one that is given a value and is a reference, and ¶name one that is being written.
func (p *Prog) Put(s *Scope, t string) {
	first := len(p.Occs)
	for i := 0; i < len(t); {
		var mark string
		for _, m := range []string{"$", "§", "¤", "¿", "→", "⇒", "↔", "⇄", "¶"} {
			if strings.HasPrefix(t[i:], m) {
				mark = m
			}
		}
		if mark == "" {
			if t[i] == ' ' && p.Wide {
				p.B.WriteString(" /*é😀*/\r\n ")
			} else {
				p.B.WriteByte(t[i])
			}
			i++
			continue
		}
		i += len(mark)
		j := i
		for j < len(t) && letter(t[j]) {
			j++
		}
		from := p.B.Len()
		if mark != "¤" {
			p.B.WriteByte('$')
		}
		p.B.WriteString(t[i:j])
		if mark == "¶" {
			p.Probes = append(p.Probes, Probe{p.B.Len(), "$" + t[i:j], s})
		} else if name := t[i:j]; name != "" && name != "this" && mark != "§" {
			o := Occ{From: from, To: p.B.Len(), Bare: mark == "¤", Maybe: mark == "¿", Kind: Read}
			o.ID, o.Own = p.id(s, name)
			for o.In = s; o.In.up != nil; o.In = o.In.up {
				if _, ok := o.In.vars[name]; ok {
					break
				}
			}
			o.Eff = o.To
			switch mark {
			case "→":
				o.Kind = Write
			case "⇒":
				o.Kind, o.Eff = Write, -1
			case "↔":
				o.Kind = Either
			case "⇄":
				o.Kind = Write
				p.Ref(s, name)
			}
			p.Occs = append(p.Occs, o)
		}
		i = j
	}
	for i := first; i < len(p.Occs); i++ {
		if p.Occs[i].Eff < 0 {
			p.Occs[i].Eff = p.B.Len()
		}
	}
}

// Node is a part of a program.
type Node func(p *Prog, s *Scope)

func Text(t string) Node { return func(p *Prog, s *Scope) { p.Put(s, t) } }

func Seq(nodes ...Node) Node {
	return func(p *Prog, s *Scope) {
		for _, n := range nodes {
			n(p, s)
		}
	}
}

// Loop is something that repeats.
func Loop(before string, body Node, after string) Node {
	return func(p *Prog, s *Scope) {
		from := p.B.Len()
		p.Put(s, before)
		body(p, s)
		p.Put(s, after)
		in := s
		for in.up != nil {
			in = in.up
		}
		p.Loops = append(p.Loops, Part{from, p.B.Len(), in})
	}
}

// Function is a function of its own: what comes before the parameters, the parameters, what comes between them and
// the body, the body, and what comes after it.
func Function(before, params, between string, body Node, after string) Node {
	return func(p *Prog, s *Scope) {
		in := p.Scope()
		p.Put(s, before)
		p.params(in, params)
		p.Put(in, between)
		body(p, in)
		p.Put(s, after)
	}
}

func (p *Prog) params(s *Scope, params string) {
	params = strings.ReplaceAll(params, "&$", "&⇄")
	p.Put(s, strings.ReplaceAll(params, "$", "→"))
}

// Closure is an anonymous function that shares the given names with the scope around it.
func Closure(before, params string, uses []string, amp string, body Node, after string) Node {
	return func(p *Prog, s *Scope) {
		in := p.Scope()
		p.Put(s, before)
		p.params(in, params)
		p.Put(in, ")")
		for i, u := range uses {
			p.Put(s, []string{" use (", ", "}[min(i, 1)]+amp)
			id, own := p.id(s, u)
			in.vars[u], in.own[u] = id, own
			if amp == "" {
				p.ids++
				in.own[u] = p.ids
				p.Passed = append(p.Passed, Occ{From: p.B.Len(), ID: id, Own: own, Kind: Read})
			} else {
				p.Ref(in, u)
			}
			p.Put(in, "→"+u)
			p.Occs[len(p.Occs)-1].Use = amp != ""
		}
		if len(uses) > 0 {
			p.Put(s, ")")
		}
		p.Put(in, " { ")
		body(p, in)
		p.Put(in, " }")
		p.Put(s, after)
	}
}

// Arrow is an arrow function: the names that are not its parameters are those of the scope around it.
func Arrow(before, params string, body Node, after string) Node {
	return func(p *Prog, s *Scope) {
		in := p.Scope()
		p.Put(s, before)
		p.params(in, params)
		p.Put(in, ") => ")
		in.up = s
		body(p, in)
		p.Put(s, after)
	}
}

// Visible are the scopes whose variables are visible in a scope: an arrow function has those around it.
func (s *Scope) Visible() []*Scope {
	var out []*Scope
	for ; s != nil; s = s.up {
		out = append(out, s)
	}
	return out
}

// ID is the variable of a name, 0 when there is none.
func (s *Scope) ID(name string) int { return s.vars[name] }

func min(a, b int) int {
	if a < b {
		return a
	}
	return b
}
