// Package view prints everything the analysis of one document can be asked.
package view

import (
	"fmt"
	"sort"

	"github.com/john-nguyen09/phpintel/analysis"
	"github.com/john-nguyen09/phpintel/internal/lsp/protocol"
	"github.com/john-nguyen09/phpintel/internal/zzverif/hx"
	"github.com/john-nguyen09/phpintel/internal/zzverif/ref"
)

func safe(f func() string) (s string) {
	defer func() {
		if r := recover(); r != nil {
			s = fmt.Sprintf("panic: %v", r)
		}
	}()
	return f()
}

// Diags prints the diagnostics of a document.
func Diags(s *analysis.Store, d *analysis.Document) string {
	return safe(func() string {
		ds := append(analysis.GetParserDiagnostics(d), analysis.UnusedDiagnostics(d)...)
		ds = append(ds, analysis.DeprecatedDiagnostics(analysis.NewResolveContext(analysis.NewQuery(s), d))...)
		var out []string
		for _, x := range ds {
			out = append(out, hx.Deep(x))
		}
		sort.Strings(out)
		return fmt.Sprint(out)
	})
}

// Doc asks a loaded document everything: its symbols, what is at each position, its variables,
// imports and diagnostics (before and after the other questions: asking must change nothing).
func Doc(s *analysis.Store, d *analysis.Document) map[string]string {
	text := string(d.GetText())
	m := map[string]string{"text": text}
	m["diagnostics"] = Diags(s, d)
	m["symbols"] = safe(func() string { return hx.Deep(append([]analysis.Symbol{}, d.Children...)) })
	m["unused variables"] = safe(func() string {
		var out []string
		for _, v := range d.UnusedVariables() {
			out = append(out, hx.Deep(v))
		}
		sort.Strings(out)
		return fmt.Sprint(out)
	})
	m["hash"] = safe(func() string { return fmt.Sprintf("%x", d.GetHash()) })
	for _, p := range ref.Positions(text, false) {
		pos := protocol.Position{Line: p.L, Character: p.C}
		k := fmt.Sprintf("%d:%d ", p.L, p.C)
		m[k+"types at"] = safe(func() string { return hx.Deep(d.HasTypesAtPos(pos)) })
		m[k+"types before"] = safe(func() string { return hx.Deep(d.HasTypesBeforePos(pos)) })
		m[k+"word"] = safe(func() string { return d.WordAtPos(pos) })
		m[k+"class"] = safe(func() string {
			c := d.ClassAt(pos)
			if c == nil {
				return "none"
			}
			return hx.Loc(c.GetLocation())
		})
		m[k+"call"] = safe(func() string {
			a, f := d.ArgumentListAndFunctionCallAt(pos)
			return hx.Deep(a) + hx.Deep(f)
		})
		m[k+"variables"] = safe(func() string {
			var out []string
			for _, v := range d.GetVariableTableAt(pos).GetVariables(pos) {
				out = append(out, hx.Deep(v))
			}
			sort.Strings(out)
			return fmt.Sprint(out)
		})
		m[k+"imports"] = safe(func() string {
			t := d.ImportTableAtPos(pos)
			return t.GetNamespace() + " " + t.ResolveScopeNamespace("A") + " " + fmt.Sprint(t.FunctionPossibleFQNs(analysis.NewTypeString("f")))
		})
	}
	if x := Diags(s, d); x != m["diagnostics"] {
		m["diagnostics after queries"] = x
	}
	return m
}
