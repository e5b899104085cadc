// Package facts describes a declaration by everything its exported methods and fields say.
package facts

import (
	"fmt"
	"reflect"
	"sort"
	"strings"

	"github.com/john-nguyen09/phpintel/analysis"
)

// skip lists what is not part of a declaration: its analysed body and bookkeeping of the index.
var skip = map[string]bool{
	"GetChildren": true, "ReferenceLocation": true, "GetKey": true, "GetCollection": true, "GetIndexCollection": true,
	"ToVariable": true, "MarshalJSON": true, "Resolve": false,
}

// Describe lists the facts of a symbol, one per line.
func Describe(s interface{}) []string {
	var out []string
	walk("", reflect.ValueOf(s), 0, &out)
	// the deprecation tag has no accessor
	v := reflect.ValueOf(s)
	for v.Kind() == reflect.Ptr {
		v = v.Elem()
	}
	if v.Kind() == reflect.Struct {
		if f := v.FieldByName("deprecatedTag"); f.IsValid() && f.Kind() == reflect.Ptr {
			if f.IsNil() {
				out = append(out, ".deprecated = false")
			} else {
				d := ""
				if x := f.Elem().FieldByName("Description"); x.IsValid() {
					d = x.String()
				}
				out = append(out, ".deprecated = true "+fmt.Sprintf("%q", d))
			}
		}
	}
	sort.Strings(out)
	return out
}

func walk(path string, v reflect.Value, depth int, out *[]string) {
	if depth > 5 || !v.IsValid() {
		return
	}
	switch v.Kind() {
	case reflect.Interface:
		walk(path, v.Elem(), depth, out)
		return
	case reflect.String, reflect.Bool, reflect.Int, reflect.Int64:
		*out = append(*out, fmt.Sprintf("%s = %#v", path, v.Interface()))
		return
	case reflect.Slice:
		*out = append(*out, fmt.Sprintf("len %s = %d", path, v.Len()))
		for i := 0; i < v.Len(); i++ {
			walk(fmt.Sprintf("%s[%d]", path, i), v.Index(i), depth+1, out)
		}
		return
	case reflect.Map, reflect.Func, reflect.Chan:
		return
	}
	// methods of the pointer where there is one
	pv := v
	if v.Kind() != reflect.Ptr && v.CanAddr() {
		pv = v.Addr()
	} else if v.Kind() != reflect.Ptr {
		pv = reflect.New(v.Type())
		pv.Elem().Set(v)
	} else if v.IsNil() {
		*out = append(*out, path+" = nil")
		return
	}
	t := pv.Type()
	for i := 0; i < t.NumMethod(); i++ {
		m := t.Method(i)
		if skip[m.Name] || m.Type.NumIn() != 1 || m.Type.NumOut() != 1 || m.PkgPath != "" {
			continue
		}
		if !strings.HasPrefix(m.Name, "Get") && !strings.HasPrefix(m.Name, "Is") && !strings.HasPrefix(m.Name, "Has") && m.Name != "ToString" && m.Name != "Resolve" && m.Name != "Visibility" && m.Name != "ScopeTypeString" && m.Name != "ReferenceFQN" && m.Name != "String" {
			continue
		}
		r := pv.Method(i).Call(nil)[0]
		if m.Name == "GetParams" && path != "" {
			continue
		}
		walk(path+"."+m.Name+"()", r, depth+1, out)
	}
	if e := pv.Elem(); e.Kind() == reflect.Struct {
		for i := 0; i < e.NumField(); i++ {
			f := e.Type().Field(i)
			if f.PkgPath != "" || skip[f.Name] {
				continue
			}
			walk(path+"."+f.Name, e.Field(i), depth+1, out)
		}
	}
}

// Kind names the kind of a stored declaration, or "".
func Kind(s analysis.Symbol) string {
	switch s.(type) {
	case *analysis.Class:
		return "class"
	case *analysis.Interface:
		return "interface"
	case *analysis.Trait:
		return "trait"
	case *analysis.Function:
		return "function"
	case *analysis.Const:
		return "const"
	case *analysis.Define:
		return "define"
	case *analysis.Method:
		return "method"
	case *analysis.Property:
		return "property"
	case *analysis.ClassConst:
		return "class constant"
	case *analysis.GlobalVariable:
		return "global"
	}
	return ""
}

// Stored reads the declarations with this symbol's name back from the store.
func Stored(st *analysis.Store, s analysis.Symbol) []analysis.Symbol {
	var out []analysis.Symbol
	switch v := s.(type) {
	case *analysis.Class:
		for _, x := range st.GetClasses(analysis.GetClassFQNLowerCase(v.Name.GetFQN())) {
			out = append(out, x)
		}
	case *analysis.Interface:
		for _, x := range st.GetInterfaces(v.Name.GetFQN()) {
			out = append(out, x)
		}
	case *analysis.Trait:
		for _, x := range st.GetTraits(v.Name.GetFQN()) {
			out = append(out, x)
		}
	case *analysis.Function:
		for _, x := range st.GetFunctions(v.Name.GetFQN()) {
			out = append(out, x)
		}
	case *analysis.Const:
		for _, x := range st.GetConsts(v.Name.GetFQN()) {
			out = append(out, x)
		}
	case *analysis.Define:
		for _, x := range st.GetDefines(v.Name.GetFQN()) {
			out = append(out, x)
		}
	case *analysis.Method:
		for _, x := range st.GetMethods(v.Scope.GetFQN(), v.Name) {
			out = append(out, x)
		}
	case *analysis.Property:
		for _, x := range st.GetProperties(v.Scope.GetFQN(), v.Name) {
			out = append(out, x)
		}
	case *analysis.ClassConst:
		for _, x := range st.GetClassConsts(v.Scope.GetFQN(), v.Name) {
			out = append(out, x)
		}
	case *analysis.GlobalVariable:
		for _, x := range st.GetGlobalVariables(v.Name) {
			out = append(out, x)
		}
	}
	return out
}

// Declarations returns the declarations of a loaded document that are indexed.
func Declarations(d *analysis.Document) []analysis.Symbol {
	var out []analysis.Symbol
	analysis.TraverseDocument(d, func(s analysis.Symbol) {
		if Kind(s) == "" {
			return
		}
		if g, ok := s.(*analysis.GlobalVariable); ok && g.GetDetail() == "" {
			return // without a declared type a global statement declares nothing
		}
		out = append(out, s)
	}, nil)
	return out
}

// DiffLine returns the first differing fact.
func DiffLine(got, want []string) string {
	if d := DiffLines(got, want); len(d) > 0 {
		return d[0]
	}
	return ""
}

// DiffLines returns every difference.
func DiffLines(got, want []string) (out []string) {
	g := map[string]bool{}
	for _, x := range got {
		g[x] = true
	}
next:
	for _, x := range want {
		if !g[x] {
			k := strings.SplitN(x, " = ", 2)[0]
			for _, y := range got {
				if strings.HasPrefix(y, k+" = ") {
					out = append(out, fmt.Sprintf("read back %s, analysed %s", y, x))
					continue next
				}
			}
			out = append(out, "lost "+x)
		}
	}
	if len(out) == 0 && len(got) != len(want) {
		out = append(out, fmt.Sprintf("%d facts read back, %d analysed", len(got), len(want)))
	}
	return out
}
