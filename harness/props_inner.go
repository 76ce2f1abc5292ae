package main

import (
	"fmt"
	"strings"

	"github.com/vim-jp/go-vimlparser/ast"
)

func init() {
	register(&Prop{
		ID: "P22",
		Rule: "Package go holds two more ways to the same text: the AST of the parser itself and the compiler translated from the reference. Both compilers run on the same generated, mutated and recorded scripts, token soup and every command with odd endings. " +
			"The lines must be the same, and one may fail only where the other does, with the same message. Distinct: different shapes of AST and different errors.",
		Units: units(700, 25000),
		Run:   runP22,
	})
}

// goCompile is the compiler in package go, see data/p22.
var goCompile func(lines []string, neovim bool) (out []string, failed any)

func judgeP22(c *Ctx, src string, neovim bool) {
	// The file name is no part of this parser's errors.
	pub := parseFile(c, src, neovim, "")
	var lines []string
	var failed any
	p, _, _ := guarded(len(src), func() { lines, failed = goCompile(splitLines(src), neovim) })
	if pub.Panic != "" || pub.Exceeded || p != "" {
		if pub.Panic == "" && !pub.Exceeded {
			c.Viol("the inner compiler does not end", p, src)
		}
		return // P01, P02
	}
	if pub.Err != nil || failed != nil {
		c.Count("compared errors")
		pm, gm := "", ""
		if pub.Err != nil {
			pm = pub.Err.Error()
			if pub.VErr != nil {
				pm = pub.VErr.Msg
			}
			c.Eval(hashStr(pm), true)
		}
		if failed != nil {
			gm = fmt.Sprint(failed)
		}
		// The message of the inner parser has the position around it.
		if pub.Err == nil || failed == nil || !strings.Contains(gm, pm) {
			c.Viol("the compilers fail on different scripts", fmt.Sprintf("neovim %v; public: %q, inner: %q", neovim, pm, gm), src)
		}
		return
	}
	c.Count("compared outputs")
	want, err, p := compile(c, pub.File, len(src)+1000)
	got := strings.Join(lines, "\n")
	if len(lines) > 0 {
		got += "\n"
	}
	c.Eval(Shape(pub.File), len(lines) > 0)
	c.Add("lines of S-expressions", len(lines))
	eachKind(pub.File, func(k string) { c.Count("statement " + k) })
	if err != nil || p != "" || got != want {
		i := 0
		for i < len(got) && i < len(want) && got[i] == want[i] {
			i++
		}
		c.Viol("the compilers write different text", fmt.Sprintf("neovim %v, error %v %s\npublic ...%q\ninner  ...%q", neovim, err, p, cutAt(want, i), cutAt(got, i)), src)
	}
}

// eachKind calls f with the types of the statements.
func eachKind(f *ast.File, fn func(string)) {
	ast.Inspect(f, func(n ast.Node) bool {
		if s, ok := n.(ast.Statement); ok {
			fn(strings.TrimPrefix(fmt.Sprintf("%T", s), "*ast."))
			return true
		}
		_, isFile := n.(*ast.File)
		return isFile
	})
}

func runP22(c *Ctx, unit int) {
	if goCompile == nil {
		c.Inconcl = append(c.Inconcl, "the check was built without the gate to package go")
		return
	}
	r := c.R
	for i := 0; i < 60; i++ {
		src, kind, neovim := "", "", false
		switch {
		case r.P(0.35):
			g := newGen(r)
			g.scriptOpts()
			g.neovim = r.P(0.3)
			neovim = g.neovim
			g.script(r.Range(1, 15))
			src, kind = g.src(), "generated script"
		case r.P(0.25):
			e, _ := inputExpr(r)
			src, kind = pick(r, []string{"echo ", "call ", "let x = ", "return ", "let ", "if ", "for x in ", "execute ", "throw ", "eval "})+e+"\n", "command with an expression"
		default:
			src, kind, neovim = input(r)
		}
		c.Count(kind)
		judgeP22(c, src, neovim)
		if unit == 0 && i < 3 {
			c.Sample(src)
		}
	}
}
