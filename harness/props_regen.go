package main

import (
	"errors"
	"fmt"
	"os"
	"path/filepath"
	"strings"

	vimlparser "github.com/vim-jp/go-vimlparser"
	"github.com/vim-jp/go-vimlparser/ast"
)

func init() {
	register(&Prop{
		ID: "P10",
		Rule: "Vim runs the repository's generators on autoload/vimlparser.vim; the Go parser and table that come out are built, instrumented as the committed ones are, into a package of their own and run beside the library on generated, mutated and recorded scripts, token soup, random bytes and expressions in both modes, and on every prefix of every command with odd endings. " +
			"The ASTs with positions and extra arguments, or the errors, must be the same. Distinct: different shapes of AST and different errors.",
		Units: units(1600, 60000),
		Run:   runP10,
		Finish: func(r *Report) {
			same, _ := os.ReadFile(filepath.Join(os.Getenv("VMON_REGEN"), "same"))
			for _, f := range []string{"vimlparser.go", "builtin_commands.go"} {
				if strings.Contains(string(same), f+"\n") {
					r.Counters["generated file equals the committed one: "+f] = 1
				} else {
					r.Counters["generated file differs from the committed one: "+f] = 1
				}
			}
			if _, err := os.Stat(filepath.Join(os.Getenv("VMON_REGEN"), "helpers")); err == nil {
				r.Counters["frozen helpers used with the generated files"] = 1
			}
		},
	})
}

// Set by the gate to the generated package, see regen.sh.
var (
	regenFile  func(lines []string, neovim bool, name string) ast.Node
	regenExpr  func(lines []string) ast.Expr
	regenError func(v any) (msg string, offset, line, col int, ok bool)
)

// splitLines does what the library does with its input.
func splitLines(src string) []string {
	l := strings.Split(src, "\n")
	if l[len(l)-1] == "" {
		l = l[:len(l)-1]
	}
	return l
}

// regen runs the generated parser.
func regen(c *Ctx, src string, neovim, expr bool) *Res {
	c.Begin(src)
	var r Res
	r.Panic, r.Steps, r.Exceeded = guarded(len(src), func() {
		defer func() {
			if v := recover(); v != nil {
				r.File, r.Expr = nil, nil
				if msg, offset, line, col, ok := regenError(v); ok {
					e := &vimlparser.ErrVimlParser{Offset: offset, Line: line, Column: col, Msg: msg}
					if !expr {
						e.Filename = fname
					}
					r.Err = e
				} else {
					r.Err = fmt.Errorf("%v", v)
				}
			}
		}()
		if expr {
			r.Expr = regenExpr(splitLines(src))
		} else {
			r.File = regenFile(splitLines(src), neovim, fname).(*ast.File)
		}
	})
	errors.As(r.Err, &r.VErr)
	return &r
}

func judgeP10(c *Ctx, src string, neovim, expr bool) {
	if strings.Contains(src, "\r") {
		src = strings.ReplaceAll(src, "\r", "x")
	}
	var lib *Res
	if expr {
		lib = parseExpr(c, src)
	} else {
		lib = parseFile(c, src, neovim, fname)
	}
	gen := regen(c, src, neovim, expr)
	if d := same(gen, lib, cmpAll); d != "" || gen.Exceeded != lib.Exceeded {
		c.Viol("the generated parser behaves differently", fmt.Sprintf("want: what the generated parser does; got: what the committed one does (neovim %v, expression %v)\n%s", neovim, expr, d), src)
	}
	switch {
	case lib.Err != nil:
		m := lib.Err.Error()
		if lib.VErr != nil {
			m = lib.VErr.Msg
		}
		c.Eval(hashStr(m), true)
		c.Count("compared errors")
	case lib.Node() != nil:
		c.Eval(Shape(lib.Node()), true)
		c.Count("compared ASTs")
	}
}

func runP10(c *Ctx, unit int) {
	if regenFile == nil {
		if unit == 0 {
			b, err := os.ReadFile(filepath.Join(os.Getenv("VMON_REGEN"), "error"))
			if err != nil {
				c.Inconcl = append(c.Inconcl, "there is no generated parser")
				return
			}
			c.Eval(0, true)
			c.Viol("the generator makes no Go parser of the reference", string(b), "")
		}
		return
	}
	r := c.R
	for i := 0; i < 60; i++ {
		if i%5 == 4 {
			src, kind := inputExpr(r)
			c.Count(kind)
			judgeP10(c, src, false, true)
			continue
		}
		src, kind, neovim := input(r)
		c.Count(kind)
		judgeP10(c, src, neovim, false)
		if i%10 == 0 {
			judgeP10(c, src, !neovim, false)
		}
		if unit == 0 && i == 0 {
			c.Sample(src)
		}
	}
	// The command table.
	names := cmdNames()
	n := c.Prop().Units(c.Tier)
	for k := unit; k < len(names); k += n {
		w := names[k]
		for j := 1; j <= len(w); j++ {
			for _, e := range []string{"", "!", " x", "1", "p", "! |x", " ++ff=unix x", " x|y"} {
				for _, lead := range []string{"", "1,2", "silent "} {
					for _, nv := range []bool{false, true} {
						judgeP10(c, lead+w[:j]+e+"\n", nv, false)
						c.Count("prefixes of commands")
					}
				}
			}
		}
	}
}
