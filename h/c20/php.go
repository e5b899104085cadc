package main

import (
	"fmt"
	"strings"
)

// clause is one import: it holds from where it is written to the end of its namespace.
type clause struct {
	from          int
	kind          string
	alias, target string
}

// segment is the extent of a namespace.
type segment struct {
	from, to int
	ns       string
	clauses  []clause
	declared map[string]bool // "class foo"
}

// outline is what the names of a text depend on, and what is wrong with it.
type outline struct {
	segments []*segment
	errors   []string
}

type tok struct {
	at   int
	text string
}

func word(b byte) bool {
	return b == '_' || b == '\\' || b >= 0x80 || b >= '0' && b <= '9' || b >= 'A' && b <= 'Z' || b >= 'a' && b <= 'z'
}

// tokens of a text, without spaces and comments: an open tag is "<?", a close tag ";" and text
// outside of PHP that is not empty "html".
func tokens(t string) []tok {
	var out []tok
	php := false
	for i := 0; i < len(t); {
		rest := t[i:]
		if !php {
			j := strings.Index(rest, "<?")
			if j < 0 {
				j = len(rest)
			}
			if j > 0 {
				out = append(out, tok{i, "html"})
			}
			i += j
			if i < len(t) {
				if strings.HasPrefix(t[i:], "<?=") {
					out = append(out, tok{i, "<?"}, tok{i, "echo"})
					i += 3
				} else {
					out = append(out, tok{i, "<?"})
					i += 5
				}
				php = true
			}
			continue
		}
		switch {
		case strings.HasPrefix(rest, "?>"):
			out = append(out, tok{i, ";"})
			i += 2
			if i < len(t) && t[i] == '\n' {
				i++
			}
			php = false
		case strings.HasPrefix(rest, "/*"):
			j := strings.Index(rest[2:], "*/")
			if j < 0 {
				return append(out, tok{i, "unclosed"})
			}
			i += j + 4
		case strings.HasPrefix(rest, "//") || rest[0] == '#':
			for i < len(t) && t[i] != '\n' && t[i] != '\r' && !strings.HasPrefix(t[i:], "?>") {
				i++
			}
		case rest[0] == '\'' || rest[0] == '"':
			j := i + 1
			for j < len(t) && t[j] != rest[0] {
				if t[j] == '\\' {
					j++
				}
				j++
			}
			out = append(out, tok{i, "string"})
			i = j + 1
		case strings.IndexByte(" \t\r\n", rest[0]) >= 0:
			i++
		case word(rest[0]) || rest[0] == '$':
			j := i + 1
			for j < len(t) && word(t[j]) {
				j++
			}
			out = append(out, tok{i, t[i:j]})
			i = j
		default:
			out = append(out, tok{i, rest[:1]})
			i++
		}
	}
	return out
}

func read(t string) *outline {
	o := &outline{}
	cur := &segment{from: 0, to: len(t), declared: map[string]bool{}}
	o.segments = append(o.segments, cur)
	bad := func(at int, f string, a ...interface{}) {
		o.errors = append(o.errors, fmt.Sprintf(f, a...)+fmt.Sprintf(" at %d", at))
	}
	depth, base := 0, 0
	start, other := true, false // at the start of a statement; something was before
	ts := tokens(t)
	end := func(i int) int { // of the statement
		for i < len(ts) && ts[i].text != ";" {
			i++
		}
		return i
	}
	text := func(i int) string {
		if i < len(ts) {
			return ts[i].text
		}
		return ""
	}
	for i := 0; i < len(ts); i++ {
		x := ts[i]
		low := strings.ToLower(x.text)
		top := start && depth == base
		switch {
		case low == "unclosed":
			bad(x.at, "a comment without end")
		case low == "html":
			other = true
			start = true
			continue
		case low == "<?":
			start = true
			continue
		case low == "declare" && top:
			strict := text(i+2) == "strict_types"
			if strict && other {
				bad(x.at, "strict_types is not the first statement")
			}
			i = end(i)
			if !strict {
				// Other directives may be before a namespace too
			}
			start = true
			continue
		case low == "namespace" && top && depth == 0 && !strings.HasPrefix(text(i+1), "\\"):
			first := cur.ns == "" && len(o.segments) == 1 && cur.from == 0
			if first && other {
				bad(x.at, "namespace is not the first statement")
			}
			i++
			ns := ""
			if text(i) != "{" && text(i) != ";" {
				ns = text(i)
				i++
			}
			cur.to = x.at
			cur = &segment{from: ts[min(i, len(ts)-1)].at + 1, to: len(t), ns: ns, declared: map[string]bool{}}
			o.segments = append(o.segments, cur)
			switch text(i) {
			case "{":
				depth, base = 1, 1
			case ";":
			default:
				bad(x.at, "namespace without end")
			}
			start, other = true, true
			continue
		case low == "use" && top:
			j := end(i)
			clauses(cur, ts[i+1:j], bad)
			if j < len(ts) {
				for k := range cur.clauses {
					if cur.clauses[k].from < 0 {
						cur.clauses[k].from = ts[j].at
					}
				}
			}
			i = j
			start, other = true, true
			continue
		case (low == "class" || low == "interface" || low == "trait") && depth == base && word(firstByte(text(i+1))) && (start || i > 0 && (ts[i-1].text == "abstract" || ts[i-1].text == "final")):
			declare(cur, "class", text(i+1), bad, x.at)
		case low == "function" && top && word(firstByte(text(i+1))):
			declare(cur, "function", text(i+1), bad, x.at)
		case low == "const" && top && word(firstByte(text(i+1))):
			declare(cur, "const", text(i+1), bad, x.at)
		}
		if low == "use" && !top && depth <= base {
			// Of a closure, or misplaced
			if text(i+1) != "(" {
				bad(x.at, "use inside of a statement")
			}
		}
		if base == 1 && depth == 0 && low != "declare" {
			bad(x.at, "%s outside of the namespaces", x.text)
		}
		other = true
		switch x.text {
		case "{":
			depth++
			start = true
		case "}":
			depth--
			start = true
			if depth == 0 && base == 1 {
				cur.to = x.at
				base = 1
				depth = 0
				base = 0
				cur = &segment{from: x.at, to: len(t), declared: map[string]bool{}}
				o.segments = append(o.segments, cur)
			}
		case ";", ":":
			start = true
		default:
			start = x.text == "<?"
		}
	}
	return o
}

func firstByte(s string) byte {
	if s == "" {
		return ' '
	}
	return s[0]
}

func min(a, b int) int {
	if a < b {
		return a
	}
	return b
}

func declare(s *segment, kind, name string, bad func(int, string, ...interface{}), at int) {
	s.declared[kind+" "+fold(kind, name)] = true
	for _, c := range s.clauses {
		if c.kind == kind && fold(kind, c.alias) == fold(kind, name) && fold(kind, c.target) != fold(kind, join(s.ns, name)) {
			bad(at, "%s %s is declared and imported", kind, name)
		}
	}
}

func join(ns, name string) string {
	if ns == "" {
		return name
	}
	return ns + "\\" + name
}

func fold(kind, name string) string {
	if kind == "const" {
		return name
	}
	return strings.ToLower(name)
}

// clauses reads what is between use and its end.
func clauses(s *segment, ts []tok, bad func(int, string, ...interface{})) {
	if len(ts) == 0 {
		return
	}
	at := ts[0].at
	kind := "class"
	take := func() string {
		if len(ts) == 0 {
			return ""
		}
		x := ts[0].text
		ts = ts[1:]
		return x
	}
	kindOf := func(k string) string {
		if len(ts) > 1 && (ts[0].text == "function" || ts[0].text == "const") && word(firstByte(ts[1].text)) {
			return take()
		}
		return k
	}
	kind = kindOf(kind)
	prefix := ""
	for len(ts) > 0 {
		k := kindOf(kind)
		name := take()
		if !word(firstByte(name)) {
			bad(at, "%q in a use declaration", name)
			return
		}
		if len(ts) > 0 && ts[0].text == "{" && strings.HasSuffix(name, "\\") {
			take()
			prefix = name
			continue
		}
		full := strings.TrimPrefix(prefix+name, "\\")
		alias := full[strings.LastIndexByte(full, '\\')+1:]
		if len(ts) > 1 && ts[0].text == "as" {
			take()
			alias = take()
		}
		for _, c := range s.clauses {
			if c.kind == k && fold(k, c.alias) == fold(k, alias) {
				bad(at, "%s %s is imported twice", k, alias)
			}
		}
		if s.declared[k+" "+fold(k, alias)] && fold(k, full) != fold(k, join(s.ns, alias)) {
			bad(at, "%s %s is declared and imported", k, alias)
		}
		s.clauses = append(s.clauses, clause{-1, k, alias, full})
		switch x := take(); x {
		case ",", "":
		case "}":
			prefix = ""
			if len(ts) > 0 {
				bad(at, "%q after a group", ts[0].text)
				return
			}
		default:
			bad(at, "%q in a use declaration", x)
			return
		}
		if len(ts) > 0 && ts[0].text == "}" {
			take()
		}
	}
}

// at is the segment at an offset.
func (o *outline) at(at int) *segment {
	s := o.segments[0]
	for _, x := range o.segments {
		if x.from <= at {
			s = x
		}
	}
	return s
}

// canon is a kind and a name in the letter case which matters.
func canon(key string) string {
	i := strings.IndexByte(key, ' ')
	return key[:i+1] + fold(key[:i], key[i+1:])
}

// meaning of a name at an offset, by PHP's rules.
func (o *outline) meaning(at int, kind, name string, exists map[string]bool) string {
	s := o.at(at)
	low := strings.ToLower(name)
	switch {
	case strings.HasPrefix(name, "\\"):
		return kind + " " + name[1:]
	case strings.HasPrefix(low, "namespace\\"):
		return kind + " " + join(s.ns, name[10:])
	}
	first, rest := name, ""
	want := kind
	i := strings.IndexByte(name, '\\')
	if i >= 0 {
		first, rest, want = name[:i], name[i:], "class"
	}
	for _, c := range s.clauses {
		if c.from <= at && c.kind == want && fold(want, c.alias) == fold(want, first) {
			return kind + " " + c.target + rest
		}
	}
	own := kind + " " + join(s.ns, name)
	if kind != "class" && i < 0 && !exists[canon(own)] && exists[canon(kind+" "+name)] {
		return kind + " " + name
	}
	return own
}
