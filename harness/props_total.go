package main

import (
	"encoding/json"
	"fmt"
	"io"
	"reflect"

	vimlparser "github.com/vim-jp/go-vimlparser"
	"github.com/vim-jp/go-vimlparser/ast"
)

func init() {
	register(&Prop{
		ID: "P01",
		Rule: "Scripts and expressions of all kinds: generated, recorded (the repository's test scripts and Vim's runtime), both mutated, every prefix of some, token soup, random bytes, all strings of one and two bytes. " +
			"The monitor watches for panics, exceeded step counts, foreign errors, results that are both or neither, nil or unusable nodes, positions that are no place of the input, and misformatted error texts, and then walks, compiles and marshals each AST. Distinct: different AST shapes and different errors.",
		Units: units(330, 8000),
		Run:   runP01,
	})
}

func runP01(c *Ctx, unit int) {
	if unit < 66 {
		// all short strings
		if unit == 0 {
			totalFile(c, "", "empty", false)
			totalExpr(c, "", "empty")
			for i := 0; i < 256; i++ {
				totalFile(c, string([]byte{byte(i)}), "one byte", i&1 == 0)
				totalExpr(c, string([]byte{byte(i)}), "one byte")
			}
		}
		for i := unit; i < 65536; i += 66 {
			s := string([]byte{byte(i >> 8), byte(i)})
			totalFile(c, s, "two bytes", false)
			totalExpr(c, s, "two bytes")
		}
		return
	}
	if unit < 130 {
		// every prefix
		s := corpusPart(c.R, 25)
		if len(s) > 600 {
			s = s[:600]
		}
		nv := c.R.P(0.3)
		for i := range s {
			totalFile(c, s[:i], "prefix of a recorded script", nv)
		}
		g := newGen(c.R)
		g.scriptOpts()
		g.maxLen = 300
		g.script(20)
		s = g.src()
		if len(s) > 800 {
			s = s[:800]
		}
		for i := range s {
			totalFile(c, s[:i], "prefix of a generated script", g.neovim)
		}
		g = newGen(c.R)
		e := g.expr(1, 5)
		g.emit(e.t)
		s = g.src()
		for i := range s {
			totalExpr(c, s[:i], "prefix of an expression")
		}
		return
	}
	for i := 0; i < 220; i++ {
		s, kind, nv := input(c.R)
		totalFile(c, s, kind, nv)
		s, kind = inputExpr(c.R)
		totalExpr(c, s, kind)
	}
	for i := unit - 130; i < len(corpusNames); i += 64 {
		if unit < 194 {
			totalFile(c, corpusText[corpusNames[i]], "recorded script", false)
			totalFile(c, corpusText[corpusNames[i]], "recorded script", true)
		}
	}
}

var oddFileNames = []string{"%s.vim", "%d%%", "%!v(x)", "a b:1:2", "é/あ.vim", "\xff", "new\nline", " ", ":", `C:\a\b.vim`}

func totalFile(c *Ctx, src, kind string, neovim bool) {
	c.Count(kind)
	name := fname
	switch len(src) % 7 {
	case 3:
		name = ""
	case 5:
		name = oddFileNames[int(hashStr(src)>>8)%len(oddFileNames)]
	}
	res := parseFile(c, src, neovim, name)
	judgeTotal(c, src, res, name)
	if res.File != nil {
		c.Sample(src)
	}
}

func totalExpr(c *Ctx, src, kind string) {
	c.Count(kind)
	judgeTotal(c, src, parseExpr(c, src), "")
}

// eachPos calls f for every position in v.
func eachPos(v reflect.Value, path string, f func(path string, p ast.Pos)) {
	switch v.Kind() {
	case reflect.Ptr, reflect.Interface:
		if !v.IsNil() {
			eachPos(v.Elem(), path, f)
		}
	case reflect.Slice:
		for i := 0; i < v.Len(); i++ {
			eachPos(v.Index(i), fmt.Sprintf("%s[%d]", path, i), f)
		}
	case reflect.Struct:
		if v.Type() == tPos {
			f(path, v.Interface().(ast.Pos))
			return
		}
		for i := 0; i < v.NumField(); i++ {
			ft := v.Type().Field(i)
			if ft.Anonymous || ft.PkgPath != "" {
				continue
			}
			eachPos(v.Field(i), path+"."+ft.Name, f)
		}
	}
}

// isNilNode tells whether n is nil or holds a nil pointer.
func isNilNode(n ast.Node) bool {
	if n == nil {
		return true
	}
	v := reflect.ValueOf(n)
	return v.Kind() == reflect.Ptr && v.IsNil()
}

func judgeTotal(c *Ctx, src string, res *Res, name string) {
	bad := func(format string, a ...any) {
		c.Viol("total", fmt.Sprintf(format, a...), src)
	}
	switch {
	case res.Panic != "":
		bad("the parser panics: %s", res.Panic)
		return
	case res.Exceeded:
		bad("the parser took more than %d steps", stepLimit(len(src)))
		return
	case res.Node() == nil && res.Err == nil:
		bad("neither an AST nor an error")
		return
	case res.Node() != nil && res.Err != nil:
		bad("an AST and an error: %v", res.Err)
		return
	}
	var s *Src
	place := func(line, col, off int) string {
		if s == nil {
			s = NewSrc([]byte(src))
		}
		i := s.At(line, col)
		if i < 0 {
			return "no such place"
		}
		ch := s.Ch(i)
		if off != ch.Off {
			return fmt.Sprintf("offset %d for offset %d", off, ch.Off)
		}
		return ""
	}
	if res.Err != nil {
		e, ok := res.Err.(*vimlparser.ErrVimlParser)
		if !ok {
			bad("an error of type %T: %v", res.Err, res.Err)
			return
		}
		c.Count("syntax errors")
		c.Eval(hashStr(e.Msg), true)
		want := fmt.Sprintf("vimlparser: %s: line %d col %d", e.Msg, e.Line, e.Column)
		if name != "" {
			want = fmt.Sprintf("%s:%d:%d: vimlparser: %s", name, e.Line, e.Column, e.Msg)
		}
		if e.Error() != want || e.Filename != name || e.Msg == "" {
			bad("Error() is %q for %+v", e.Error(), *e)
		}
		if m := place(e.Line, e.Column, e.Offset); m != "" {
			bad("error %+v: %s", *e, m)
		}
		return
	}
	n := res.Node()
	c.Count("ASTs")
	c.Eval(Shape(n), len(src) > 0)
	if isNilNode(n) {
		bad("a nil AST of type %T", n)
		return
	}
	ok := true
	eachPos(reflect.ValueOf(n), "", func(path string, p ast.Pos) {
		if !ok {
			return
		}
		c.Count("positions checked")
		if m := place(p.Line, p.Column, p.Offset); m != "" {
			ok = false
			bad("position %s = %+v: %s", path, p, m)
		} else if res.File != nil && p.Filename != name && p.Filename != "" {
			ok = false
			bad("position %s has file name %q", path, p.Filename)
		}
	})
	nodes := 0
	if p, _, _ := guarded(len(src), func() {
		ast.Inspect(n, func(x ast.Node) bool {
			if x == nil {
				return true
			}
			nodes++
			if isNilNode(x) {
				panic(fmt.Sprintf("Inspect visits a nil %T", x))
			}
			_ = x.Pos()
			if e, ok := x.(ast.ExCommand); ok {
				_ = e.Cmd()
			}
			return true
		})
	}); p != "" {
		bad("walking the AST: %s", p)
		return
	}
	c.Add("nodes walked", nodes)
	if res.File != nil {
		if _, err, p := compile(c, n, len(src)); err != nil || p != "" {
			bad("compiling the AST: error %v %s", err, p)
		}
	} else if _, err, p := compile(c, n, len(src)); err != nil || p != "" {
		bad("compiling the expression: error %v %s", err, p)
	}
	var jerr error
	if p, _, _ := guarded(len(src), func() { jerr = json.NewEncoder(io.Discard).Encode(n) }); jerr != nil || p != "" {
		bad("encoding the AST as JSON: error %v %s", jerr, p)
	}
}
