// Package ref holds the boring reference models.
package ref

import "unicode/utf8"

// LineStarts returns the byte offset of every line start and the end of its content (before the EOL).
func LineStarts(t string) (starts, ends []int) {
	starts = []int{0}
	for i := 0; i < len(t); i++ {
		if t[i] == '\n' {
			ends = append(ends, i)
			starts = append(starts, i+1)
		} else if t[i] == '\r' {
			ends = append(ends, i)
			if i+1 < len(t) && t[i+1] == '\n' {
				i++
			}
			starts = append(starts, i+1)
		}
	}
	ends = append(ends, len(t))
	return
}

// Units is the UTF-16 length of a rune.
func Units(r rune) int {
	if r >= 0x10000 {
		return 2
	}
	return 1
}

// Offset converts a protocol position to a byte offset (clamped to line and document).
func Offset(t string, line, char int) int {
	s, e := LineStarts(t)
	if line >= len(s) {
		return len(t)
	}
	off := s[line]
	u := 0
	for off < e[line] && u < char {
		r, n := utf8.DecodeRuneInString(t[off:])
		u += Units(r)
		off += n
	}
	return off
}

// Position converts a byte offset to a protocol position.
func Position(t string, off int) (line, char int) {
	s, _ := LineStarts(t)
	line = len(s) - 1
	for line > 0 && s[line] > off {
		line--
	}
	for i := s[line]; i < off; {
		r, n := utf8.DecodeRuneInString(t[i:])
		char += Units(r)
		i += n
	}
	return
}

// Splice applies one ranged change.
func Splice(t string, sl, sc, el, ec int, ins string) string {
	a, b := Offset(t, sl, sc), Offset(t, el, ec)
	return t[:a] + ins + t[b:]
}

// Strings enumerates all strings over the alphabet with at most n symbols, shortest first.
func Strings(alpha []string, n int) []string {
	out := []string{""}
	cur := []string{""}
	for i := 0; i < n; i++ {
		var next []string
		for _, s := range cur {
			for _, a := range alpha {
				next = append(next, s+a)
			}
		}
		out = append(out, next...)
		cur = next
	}
	return out
}

// Pos is a protocol position.
type Pos struct{ L, C int }

// Positions enumerates the meaningful positions of a text, plus out-of-range ones.
func Positions(t string, beyond bool) []Pos {
	s, e := LineStarts(t)
	var out []Pos
	for l := range s {
		u := 0
		out = append(out, Pos{l, 0})
		for i := s[l]; i < e[l]; {
			r, n := utf8.DecodeRuneInString(t[i:])
			u += Units(r)
			i += n
			out = append(out, Pos{l, u})
		}
		if beyond {
			out = append(out, Pos{l, u + 1}, Pos{l, u + 3})
		}
	}
	if beyond {
		out = append(out, Pos{len(s), 0}, Pos{len(s), 2}, Pos{len(s) + 1, 0})
	}
	return out
}

// Less orders positions.
func (p Pos) Less(q Pos) bool { return p.L < q.L || p.L == q.L && p.C < q.C }
