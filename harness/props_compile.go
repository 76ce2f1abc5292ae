package main

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"reflect"
	"strings"

	"github.com/vim-jp/go-vimlparser/ast"
	"github.com/vim-jp/go-vimlparser/compiler"
)

func init() {
	register(&Prop{
		ID: "P15",
		Rule: "ASTs of generated and recorded scripts and expressions (valid ones, and mutated ones that still parse), and single statements and expressions taken out of them, are compiled with different indentations; an independent renderer of the reference format makes the text that must come out. " +
			"Distinct: different sequences of node types.",
		Units: units(400, 12000),
		Run:   runP15,
	})
	register(&Prop{
		ID: "P14",
		Rule: "The same ASTs are compiled several times, by fresh and reused compilers with other ASTs and refused nodes in between, with different indentations, and into writers that fail, write short or panic at a random byte; the AST is compared with a snapshot made before, the bytes with those of the first time. " +
			"Distinct: different sequences of node types.",
		Units: units(400, 12000),
		Run:   runP14,
	})
}

var indents = []string{"  ", "  ", "", "\t", " ", "    ", "%d", "あ", "(", "\n"}

// someNode gives an AST of any kind, and the text it was made from.
func someNode(c *Ctx) (ast.Node, string) {
	r := c.R
	for {
		if r.P(0.25) {
			var src, kind string
			if r.P(0.01) {
				g := newGen(r)
				e, what := g.hugeExpr()
				g.emit(e.t)
				c.Count("AST with very many " + what)
				return e.n, g.src()
			}
			if r.P(0.7) {
				g := newGen(r)
				e := g.expr(1, r.Range(1, 6))
				g.emit(e.t)
				if r.P(0.3) {
					c.Count("AST of a generated expression, as built by the generator")
					return e.n, g.src()
				}
				src, kind = g.src(), "generated expression"
			} else {
				src, kind = inputExpr(r)
			}
			if res := parseExpr(c, src); res.Expr != nil {
				c.Count("AST of a " + kind)
				return res.Expr, src
			}
			continue
		}
		src, kind, nv := "", "", r.P(0.3)
		if r.P(0.6) {
			g := newGen(r)
			g.scriptOpts()
			nv = g.neovim
			f := g.script(r.Range(1, 25))
			src, kind = g.src(), "generated script"
			if r.P(0.3) {
				c.Count("AST of a generated script, as built by the generator")
				return f, src
			}
		} else {
			src, kind, nv = input(r)
		}
		res := parseFile(c, src, nv, fname)
		if res.File == nil || res.Err != nil {
			continue
		}
		c.Count("AST of a " + kind)
		return res.File, src
	}
}

// subNodes are the statements and expressions which can be compiled on their
// own.
func subNodes(n ast.Node) (r []ast.Node) {
	eachNode(reflect.ValueOf(n), func(x ast.Node) {
		switch x.(type) {
		case *ast.EndFunction, *ast.EndIf, *ast.EndWhile, *ast.EndFor, *ast.EndTry, *ast.Else, *ast.ElseIf, *ast.Catch, *ast.Finally:
		default:
			r = append(r, x)
		}
	})
	return
}

// eachNode calls f for every node in v, found by reflection.
func eachNode(v reflect.Value, f func(ast.Node)) {
	switch v.Kind() {
	case reflect.Ptr, reflect.Interface:
		if v.IsNil() {
			return
		}
		if v.Kind() == reflect.Ptr {
			if n, ok := v.Interface().(ast.Node); ok {
				f(n)
			}
		}
		eachNode(v.Elem(), f)
	case reflect.Slice:
		for i := 0; i < v.Len(); i++ {
			eachNode(v.Index(i), f)
		}
	case reflect.Struct:
		if v.Type() == tPos || v.Type() == tExArg {
			return
		}
		for i := 0; i < v.NumField(); i++ {
			if ft := v.Type().Field(i); !ft.Anonymous && ft.PkgPath == "" {
				eachNode(v.Field(i), f)
			}
		}
	}
}

func compileWith(cc *compiler.Compiler, n ast.Node, size int) (string, error, string) {
	var b bytes.Buffer
	var err error
	p, _, _ := guarded(size, func() { err = cc.Compile(&b, n) })
	return b.String(), err, p
}

func runP15(c *Ctx, unit int) {
	if unit == 0 {
		for _, n := range corpusNames {
			src := corpusText[n]
			if res := parseFile(c, src, strings.Contains(n, "neo"), n); res.File != nil {
				judgeRender(c, res.File, src, "  ")
				c.Count("whole recorded scripts")
			}
		}
	}
	for i := 0; i < 60; i++ {
		n, src := someNode(c)
		if f, ok := n.(*ast.File); ok && i == 1 && unit%10 == 1 && len(f.Body) > 0 && len(src) < 3000 {
			h := hugeBody(f)
			judgeRender(c, h, strings.Repeat(src, len(h.Body)/len(f.Body)), "  ")
			c.Count("ASTs with very many statements")
		}
		if c.R.P(0.3) {
			c.Add("texts in the AST replaced", oddTexts(c.R, n, float64(c.R.Range(1, 100))/100))
		}
		judgeRender(c, n, src, "  ")
		subs := subNodes(n)
		for k := 0; k < 3; k++ {
			judgeRender(c, pick(c.R, subs), src, pick(c.R, indents))
		}
	}
}

// oddTexts replaces texts in an AST by others, so that what is special in the
// output format, or anywhere on the way, occurs in all kinds of nodes.
func oddTexts(r *Rng, n ast.Node, share float64) (changed int) {
	chunks := []string{`\`, `\`, `"`, `"`, "%s", "%", "%!d", "(", ")", ";", "'", "\t", "\r", "a", "b c", " ", "é", "あ", "😀", "\u0301", "\xff", "\x00", "\x1b", "\ufeff", "/", "{}", "...", "$&", "&amp;"}
	flags := map[ast.Node]bool{} // of heredocs: words
	eachNode(reflect.ValueOf(n), func(x ast.Node) {
		v := reflect.ValueOf(x).Elem()
		word := flags[x]
		if h, ok := x.(*ast.HeredocExpr); ok {
			word = true // the marker
			for _, f := range h.Flags {
				flags[f] = true
			}
		}
		for i := 0; i < v.NumField(); i++ {
			f := v.Field(i)
			if v.Type().Field(i).Name == "CmdName" {
				continue // the same as Cmd().Name
			}
			if f.Kind() != reflect.String || !f.CanSet() || v.Type().Field(i).Anonymous || !r.P(share) {
				continue
			}
			if id, ok := x.(*ast.Ident); ok && id.Name == "..." {
				continue
			}
			s := ""
			for k := r.N(5); k > 0; k-- {
				s += pick(r, chunks)
			}
			if r.P(0.2) && f.String() != "" {
				// Also inside of the text there was.
				k := r.N(len(f.String()))
				s = f.String()[:k] + s + f.String()[k:]
			} else if r.P(0.1) {
				s += "\nx"
			}
			if word {
				s = strings.NewReplacer("\t", "", "\r", "", "\n", "").Replace(s)
			}
			f.SetString(s)
			changed++
		}
	})
	return
}

func judgeRender(c *Ctx, n ast.Node, src, indent string) {
	if indent == "\n" {
		indent = "\t\t" // closing parentheses go before line ends
	}
	var got, p string
	var err error
	if indent == "  " {
		got, err, p = compile(c, n, len(src)+1000)
	} else {
		got, err, p = compileWith(&compiler.Compiler{Config: compiler.Config{Indent: indent}}, n, len(src)+1000)
	}
	want := render(n, indent)
	c.Eval(Shape(n), len(want) > 3)
	c.Add("bytes of S-expressions", len(got))
	c.Count(fmt.Sprintf("compiled %T", n))
	if err != nil || p != "" {
		c.Viol("Compile fails", fmt.Sprintf("node %s\nerror %v %s", Dump(n, cmpStruct), err, p), src)
		return
	}
	if got != want {
		i := 0
		for i < len(got) && i < len(want) && got[i] == want[i] {
			i++
		}
		at := strings.LastIndexByte(want[:i], '\n') + 1
		cut := func(s string) string {
			s = s[min(at, len(s)):]
			if len(s) > 400 {
				s = s[:400]
			}
			return s
		}
		c.Viol("wrong S-expression", fmt.Sprintf("indent %q, from the first different line:\nwant %q\ngot  %q", indent, cut(want), cut(got)), src)
		return
	}
	if len(got) > 40 {
		c.Sample(got)
	}
}

// badWriter fails after some bytes.
type badWriter struct {
	b     []byte
	room  int
	err   error
	calls int
}

func (w *badWriter) Write(p []byte) (int, error) {
	w.calls++
	n := min(len(p), w.room)
	w.b = append(w.b, p[:n]...)
	w.room -= n
	if n < len(p) {
		return n, w.err // nil: a short write
	}
	return n, nil
}

var errInjected = errors.New("injected fault")

// refused are nodes which are no statements of their own.
func refused(r *Rng) ast.Node {
	return pick(r, []ast.Node{&ast.EndIf{}, &ast.EndFor{}, &ast.EndWhile{}, &ast.EndTry{}, &ast.EndFunction{},
		&ast.Else{}, &ast.ElseIf{}, &ast.Catch{}, &ast.Finally{}})
}

func runP14(c *Ctx, unit int) {
	r := c.R
	reused := map[string]*compiler.Compiler{}
	for i := 0; i < 40; i++ {
		n, src := someNode(c)
		if r.P(0.3) {
			n = pick(r, subNodes(n))
		}
		size := len(src) + 1000
		if f, ok := n.(*ast.File); ok && i == 1 && unit%20 == 1 && len(f.Body) > 0 && len(src) < 2000 {
			h := hugeBody(f)
			n, size = h, size*(len(h.Body)/len(f.Body))
			c.Count("ASTs with very many statements")
		}
		before := Dump(n, cmpAll)
		indent := pick(r, indents)
		fresh := func() *compiler.Compiler { return &compiler.Compiler{Config: compiler.Config{Indent: indent}} }
		first, err, p := compileWith(fresh(), n, size)
		c.Eval(Shape(n), len(first) > 3)
		bad := func(key, format string, a ...any) {
			c.Viol(key, fmt.Sprintf("indent %q: ", indent)+fmt.Sprintf(format, a...), src)
		}
		pure := func(what string) bool {
			c.Count("ASTs compared with their snapshot")
			if after := Dump(n, cmpAll); after != before {
				k := 0
				for k < len(after) && k < len(before) && after[k] == before[k] {
					k++
				}
				bad("compiling changes the AST", "%s\nbefore ...%s\nafter  ...%s", what, cutAt(before, k), cutAt(after, k))
				return false
			}
			return true
		}
		if err != nil || p != "" {
			bad("Compile fails", "error %v %s", err, p)
			continue
		}
		if !pure("after compiling once") {
			continue
		}
		again := func(key string, got string, err error, p string) bool {
			c.Count(key)
			if err != nil || p != "" || got != first {
				k := 0
				for k < len(got) && k < len(first) && got[k] == first[k] {
					k++
				}
				bad(key, "error %v %s\nfirst time ...%q\nthis time  ...%q", err, p, cutAt(first, k), cutAt(got, k))
				return false
			}
			return true
		}
		g2, e2, p2 := compileWith(fresh(), n, size)
		if !again("a fresh compiler gives the same", g2, e2, p2) {
			continue
		}
		if indent == "  " {
			g2, e2, p2 = compile(c, n, size)
			if !again("the function Compile uses two blanks", g2, e2, p2) {
				continue
			}
		}
		cc := reused[indent]
		if cc == nil {
			cc = fresh()
			reused[indent] = cc
		}
		g2, e2, p2 = compileWith(cc, n, size)
		if !again("a reused compiler gives the same", g2, e2, p2) {
			continue
		}
		// Refused nodes.
		bn := refused(r)
		if r.P(0.5) {
			bn = &ast.File{Body: []ast.Statement{&ast.Comment{Text: "x"}, bn.(ast.Statement)}}
		}
		g2, e2, p2 = compileWith(cc, bn, size)
		c.Count("refused nodes")
		if e2 == nil || g2 != "" || p2 != "" {
			bad("a node that is no statement is refused", "node %s: error %v, output %q %s", Dump(bn, cmpStruct), e2, g2, p2)
		}
		g2, e2, p2 = compileWith(cc, n, size)
		if !again("a compiler that refused a node gives the same", g2, e2, p2) {
			continue
		}
		// Failing writers.
		for k := 0; k < 3 && first != ""; k++ {
			w := &badWriter{room: r.N(len(first)), err: errInjected}
			if r.P(0.25) {
				w.room = len(first) - 1
			}
			short := r.P(0.25)
			if short {
				w.err = nil
			}
			var werr error
			p, _, _ := guarded(size, func() { werr = cc.Compile(w, n) })
			c.Count("writer faults injected")
			if werr == nil || !short && !errors.Is(werr, errInjected) || p != "" {
				bad("the writer's error is returned", "writer fails at byte %d of %d (short write: %v): error %v %s", len(w.b), len(first), short, werr, p)
			}
			if !strings.HasPrefix(first, string(w.b)) {
				bad("a failing writer gets the beginning of the output", "got %q, output %q", w.b, first)
			}
		}
		// Writers of other kinds.
		pr, pw := io.Pipe()
		done := make(chan string)
		go func() {
			var b []byte
			one := make([]byte, 1+len(src)%7)
			for {
				n, err := pr.Read(one)
				b = append(b, one[:n]...)
				if err != nil {
					done <- string(b)
					return
				}
			}
		}()
		p3, _, _ := guarded(size, func() { e2 = cc.Compile(pw, n) })
		pw.Close()
		again("a pipe read in small pieces gets the same", <-done, e2, p3)
		// The first compiler after everything.
		g2, e2, p2 = compileWith(cc, n, size)
		if !again("a compiler gives the same after a writer failed", g2, e2, p2) {
			continue
		}
		pure("after all compilations")
		// The indentation is used for nesting and nothing else.
		other := pick(r, indents)
		if other != "\n" && indent != "\n" && other != "" {
			g2, e2, p2 = compileWith(&compiler.Compiler{Config: compiler.Config{Indent: "\x01\x02"}}, n, size)
			if !strings.Contains(before, "\x02") && !strings.Contains(before, `\x02`) {
				g2 = strings.ReplaceAll(g2, "\x01\x02", indent)
				again("the indentation is used for nesting and nothing else", g2, e2, p2)
			}
		}
		c.Sample(first)
	}
}

func cutAt(s string, k int) string {
	lo, hi := max(0, k-100), min(len(s), k+200)
	return s[lo:hi]
}
