package main

import (
	"fmt"
	"hash/fnv"
	"reflect"
	"sort"
	"strings"

	"github.com/vim-jp/go-vimlparser/ast"
)

// Cmp says what a comparison of two ASTs looks at.
type Cmp struct {
	Pos      bool // positions of nodes
	ExArg    bool // extra arguments, without positions unless Pos
	CmdFull  bool // flags, minlen and parser of commands, not only the name
	Curly    bool // position of CurlyNameExpr
	Args     bool // fields of ExArg other than positions (with ExArg)
	NoParens bool // look through ParenExpr
	MapPos   func(ast.Pos) ast.Pos
}

var (
	cmpStruct = Cmp{}
	cmpAll    = Cmp{Pos: true, ExArg: true, CmdFull: true, Curly: true, Args: true}
)

var (
	tPos       = reflect.TypeOf(ast.Pos{})
	tExArg     = reflect.TypeOf(ast.ExArg{})
	tCmd       = reflect.TypeOf(ast.Cmd{})
	tCurlyExpr = reflect.TypeOf(ast.CurlyNameExpr{})
	tParen     = reflect.TypeOf(ast.ParenExpr{})
)

// deref follows pointers and interfaces.
func deref(v reflect.Value) reflect.Value {
	for v.IsValid() && (v.Kind() == reflect.Ptr || v.Kind() == reflect.Interface) {
		if v.IsNil() {
			return reflect.Value{}
		}
		v = v.Elem()
	}
	return v
}

// Diff returns "" or where want and got differ first.
func Diff(want, got any, c Cmp) string {
	return diffv(reflect.ValueOf(want), reflect.ValueOf(got), c, "", tPos)
}

func short(v reflect.Value) string {
	if !v.IsValid() {
		return "nil"
	}
	s := ""
	switch v.Kind() {
	case reflect.Struct:
		s = fmt.Sprintf("%s%+v", v.Type(), v.Interface())
	case reflect.String:
		s = fmt.Sprintf("%q", v.String())
	default:
		s = fmt.Sprintf("%v", v.Interface())
	}
	if len(s) > 160 {
		s = s[:160] + "..."
	}
	return s
}

func diffv(a, b reflect.Value, c Cmp, path string, parent reflect.Type) string {
	a, b = deref(a), deref(b)
	if c.NoParens {
		for a.IsValid() && a.Type() == tParen {
			a = deref(a.FieldByName("X"))
		}
		for b.IsValid() && b.Type() == tParen {
			b = deref(b.FieldByName("X"))
		}
	}
	empty := func(v reflect.Value) bool {
		return !v.IsValid() || (v.Kind() == reflect.Slice || v.Kind() == reflect.Map) && v.Len() == 0
	}
	if empty(a) && empty(b) {
		return ""
	}
	if !a.IsValid() || !b.IsValid() {
		return fmt.Sprintf("%s: want %s, got %s", path, short(a), short(b))
	}
	if a.Type() != b.Type() {
		return fmt.Sprintf("%s: want %s (%s), got %s (%s)", path, short(a), a.Type(), short(b), b.Type())
	}
	switch a.Kind() {
	case reflect.Struct:
		t := a.Type()
		switch t {
		case tPos:
			if !c.Pos || parent == tCurlyExpr && !c.Curly {
				return ""
			}
			p, q := a.Interface().(ast.Pos), b.Interface().(ast.Pos)
			if c.MapPos != nil {
				p = c.MapPos(p)
			}
			if p != q {
				return fmt.Sprintf("%s: want %s offset %d, got %s offset %d", path, p, p.Offset, q, q.Offset)
			}
			return ""
		case tExArg:
			if !c.ExArg {
				return ""
			}
		case tCmd:
			if !c.Args {
				return ""
			}
			if !c.CmdFull {
				if x, y := a.FieldByName("Name").String(), b.FieldByName("Name").String(); x != y {
					return fmt.Sprintf("%s.Name: want %q, got %q", path, x, y)
				}
				return ""
			}
		}
		for i := 0; i < a.NumField(); i++ {
			f := t.Field(i)
			if f.Anonymous || f.PkgPath != "" {
				continue
			}
			if t == tExArg && !c.Args && f.Type != reflect.PointerTo(tPos) {
				continue
			}
			name := f.Name
			if t != tPos && t != tExArg && t != tCmd && t.Name() != "FuncAttr" && t.Name() != "KeyValue" && f.Type != tPos && f.Type != tExArg {
				name = t.Name() + "." + f.Name
			}
			if d := diffv(a.Field(i), b.Field(i), c, path+"/"+name, t); d != "" {
				return d
			}
		}
		return ""
	case reflect.Slice:
		n := a.Len()
		if b.Len() < n {
			n = b.Len()
		}
		for i := 0; i < n; i++ {
			if d := diffv(a.Index(i), b.Index(i), c, fmt.Sprintf("%s[%d]", path, i), parent); d != "" {
				return d
			}
		}
		if a.Len() != b.Len() {
			return fmt.Sprintf("%s: want %d elements, got %d", path, a.Len(), b.Len())
		}
		return ""
	case reflect.Map:
		for _, k := range a.MapKeys() {
			if d := diffv(a.MapIndex(k), b.MapIndex(k), c, fmt.Sprintf("%s[%v]", path, k), parent); d != "" {
				return d
			}
		}
		for _, k := range b.MapKeys() {
			if !a.MapIndex(k).IsValid() {
				return fmt.Sprintf("%s[%v]: not wanted", path, k)
			}
		}
		return ""
	case reflect.String:
		if a.String() != b.String() {
			return fmt.Sprintf("%s: want %q, got %q", path, a.String(), b.String())
		}
		return ""
	case reflect.Int, reflect.Int64, reflect.Int32:
		if a.Int() != b.Int() {
			return fmt.Sprintf("%s: want %v, got %v", path, a.Interface(), b.Interface())
		}
		return ""
	case reflect.Bool:
		if a.Bool() != b.Bool() {
			return fmt.Sprintf("%s: want %v, got %v", path, a.Bool(), b.Bool())
		}
		return ""
	}
	if !reflect.DeepEqual(a.Interface(), b.Interface()) {
		return fmt.Sprintf("%s: want %v, got %v", path, a.Interface(), b.Interface())
	}
	return ""
}

// Dump writes everything in an AST in a canonical form.
func Dump(v any, c Cmp) string {
	var b strings.Builder
	dumpv(&b, reflect.ValueOf(v), c, tPos)
	return b.String()
}

func dumpv(w *strings.Builder, v reflect.Value, c Cmp, parent reflect.Type) {
	v = deref(v)
	if !v.IsValid() || (v.Kind() == reflect.Slice || v.Kind() == reflect.Map) && v.Len() == 0 {
		w.WriteByte('-')
		return
	}
	switch v.Kind() {
	case reflect.Struct:
		t := v.Type()
		if t == tPos {
			p := v.Interface().(ast.Pos)
			if c.Pos && (parent != tCurlyExpr || c.Curly) {
				fmt.Fprintf(w, "%s@%d", p, p.Offset)
			}
			return
		}
		if t == tExArg && !c.ExArg || t == tCmd && !c.Args {
			return
		}
		if c.NoParens && t == tParen {
			dumpv(w, v.FieldByName("X"), c, parent)
			return
		}
		w.WriteString(t.Name())
		w.WriteByte('(')
		for i := 0; i < v.NumField(); i++ {
			f := t.Field(i)
			if f.Anonymous || f.PkgPath != "" || t == tCmd && !c.CmdFull && f.Name != "Name" {
				continue
			}
			if t == tExArg && !c.Args && f.Type != reflect.PointerTo(tPos) {
				continue
			}
			w.WriteByte(' ')
			dumpv(w, v.Field(i), c, t)
		}
		w.WriteByte(')')
	case reflect.Slice:
		w.WriteByte('[')
		for i := 0; i < v.Len(); i++ {
			if i > 0 {
				w.WriteByte(' ')
			}
			dumpv(w, v.Index(i), c, parent)
		}
		w.WriteByte(']')
	case reflect.Map:
		ks := v.MapKeys()
		sort.Slice(ks, func(i, j int) bool { return fmt.Sprint(ks[i]) < fmt.Sprint(ks[j]) })
		w.WriteByte('{')
		for _, k := range ks {
			fmt.Fprintf(w, "%v:", k)
			dumpv(w, v.MapIndex(k), c, parent)
			w.WriteByte(' ')
		}
		w.WriteByte('}')
	case reflect.String:
		fmt.Fprintf(w, "%q", v.String())
	default:
		fmt.Fprintf(w, "%v", v.Interface())
	}
}

func digest(s string) uint64 {
	h := fnv.New64a()
	h.Write([]byte(s))
	return h.Sum64()
}

// Shape is the digest of the node types of an AST, for counting how many
// different structures a workload produced.
func Shape(v any) uint64 {
	h := uint64(14695981039346656037)
	var rec func(v reflect.Value)
	mix := func(x uint64) { h = (h ^ x) * 1099511628211 }
	rec = func(v reflect.Value) {
		v = deref(v)
		if !v.IsValid() {
			mix(1)
			return
		}
		switch v.Kind() {
		case reflect.Struct:
			t := v.Type()
			if t == tPos {
				return
			}
			if t == tExArg {
				rec(v.FieldByName("Cmd"))
				return
			}
			if t == tCmd {
				mix(hashStr(v.FieldByName("Name").String()))
				return
			}
			mix(hashStr(t.Name()))
			for i := 0; i < v.NumField(); i++ {
				if f := t.Field(i); !f.Anonymous {
					k := f.Type.Kind()
					if k == reflect.Slice || k == reflect.Struct || k == reflect.Interface || k == reflect.Ptr || k == reflect.Int {
						rec(v.Field(i))
					}
				}
			}
		case reflect.Slice:
			mix(uint64(v.Len()) + 7)
			for i := 0; i < v.Len(); i++ {
				rec(v.Index(i))
			}
		case reflect.Int:
			mix(uint64(v.Int()) + 99)
		}
	}
	rec(reflect.ValueOf(v))
	return h
}
