package main

import (
	"fmt"
	"reflect"
	"strconv"
	"strings"

	"github.com/vim-jp/go-vimlparser/ast"
)

const genRule = "Scripts are generated together with the AST they stand for: every command of Vim and Neovim under every abbreviation, modifiers, ranges, bangs, options, expressions, blocks, heredocs, script lines and comments, laid out with random white space, bars, multi-byte and invalid characters and line continuations. "

func init() {
	register(&Prop{
		ID:    "P04",
		Rule:  genRule + "The oracle compares every position (line, column, offset, file name) of the AST with the place where the generator wrote the token. Distinct: different sequences of node types.",
		Units: units(400, 20000),
		Run:   func(c *Ctx, unit int) { runScripts(c, unit, "P04") },
	})
	register(&Prop{
		ID:    "P07",
		Rule:  genRule + "The oracle compares the statements, their types, order, bodies and operands. Distinct: different sequences of node types.",
		Units: units(400, 20000),
		Run:   func(c *Ctx, unit int) { runScripts(c, unit, "P07") },
	})
	register(&Prop{
		ID:    "P08",
		Rule:  genRule + "The oracle compares the extra arguments (modifiers, range, bang, options, +cmd, filter, append, amount, command) of each statement. Distinct: different sequences of node types.",
		Units: units(400, 20000),
		Run:   func(c *Ctx, unit int) { runScripts(c, unit, "P08") },
	})
}

var posType = reflect.TypeOf(ast.Pos{})

// methods compares what the methods of a node return with its fields: Pos with
// the one field that is a position, Cmd with the command.
func methods(n ast.Node, id string) string {
	v := reflect.ValueOf(n)
	if v.Kind() != reflect.Ptr || v.Elem().Kind() != reflect.Struct {
		return ""
	}
	v = v.Elem()
	if id == "P04" {
		field, found := ast.Pos{}, 0
		for i := 0; i < v.NumField(); i++ {
			if v.Type().Field(i).Type == posType {
				field = v.Field(i).Interface().(ast.Pos)
				found++
			}
		}
		p := n.Pos()
		if found == 1 && p != field {
			return fmt.Sprintf("Pos() of %T is %v, its position is %v", n, p, field)
		}
		want := strconv.Itoa(p.Line) + ":" + strconv.Itoa(p.Column)
		if q := (ast.Pos{Offset: p.Offset, Line: p.Line, Column: p.Column}); q.String() != want {
			return fmt.Sprintf("String() of position %#v is %q", q, q.String())
		}
		if p.Filename != "" {
			want = p.Filename + ":" + want
		}
		if got := p.String(); got != want {
			return fmt.Sprintf("String() of position %#v is %q", p, got)
		}
		return ""
	}
	if x, ok := n.(ast.ExCommand); ok {
		f := v.FieldByName("ExArg")
		if !f.IsValid() {
			return ""
		}
		var want ast.Cmd
		if ea, ok := f.Interface().(ast.ExArg); ok && ea.Cmd != nil {
			want = *ea.Cmd
		} else if ea, ok := f.Interface().(*ast.ExArg); ok && ea != nil && ea.Cmd != nil {
			want = *ea.Cmd
		}
		if got := x.Cmd(); got != want {
			return fmt.Sprintf("Cmd() of %T is %v, its command is %v", n, got, want)
		}
	}
	return ""
}

func countNodes(f *ast.File) (n int) {
	ast.Inspect(f, func(x ast.Node) bool {
		if x != nil {
			n++
		}
		return true
	})
	return
}

func runScripts(c *Ctx, unit int, id string) {
	cmp := map[string]Cmp{
		"P04": {Pos: true, ExArg: true, Curly: true},
		"P07": cmpStruct,
		"P08": {ExArg: true, Args: true, CmdFull: true},
	}[id]
	if id == "P07" && unit == 0 {
		// Vim takes any character for the delimiter of a pattern here.
		src := "syntax match X #a|b#\n"
		if res := parseFile(c, src, false, fname); res.File == nil || len(res.File.Body) != 1 {
			c.Viol("syntax-delimiter", res.show(), src)
		}
	}
	for i := 0; i < 60; i++ {
		g := newGen(c.R)
		g.scriptOpts()
		if id == "P08" {
			g.pMod, g.pRange, g.pOpt = 0.3, 0.3, 0.5
			g.pBlock, g.pExpr, g.pLet = 8, 8, 4
		}
		n := c.R.Range(1, 40)
		if i == 0 && unit%4 == 1 {
			// something very long
			g.big = pick(c.R, []int{bigLines, bigColumn, bigWide})
			g.maxLen = 200000
			n = 40
		}
		f := g.script(n)
		src := g.src()
		cmp := cmp
		if id == "P04" && c.R.P(0.2) && !strings.Contains(src, "\r") {
			src = strings.ReplaceAll(src, "\n", "\r\n")
			s := NewSrc([]byte(src))
			cmp.MapPos = func(p ast.Pos) ast.Pos {
				if i := s.At(p.Line, p.Column); i >= 0 {
					return s.Pos(i, p.Filename)
				}
				return p
			}
			c.Count("scripts with CR LF line ends")
		}
		res := parseFile(c, src, g.neovim, fname)
		c.Eval(Shape(f), len(f.Body) > 0)
		c.Add("bytes parsed", len(src))
		c.Add("line continuations", g.w.breaks)
		c.Max("max bytes in a script", int64(len(src)))
		if res.File == nil || res.Err != nil {
			c.Viol("a valid script is rejected", res.show()+fmt.Sprintf("\nneovim: %v", g.neovim), src)
			continue
		}
		if d := Diff(f, res.File, cmp); d != "" {
			c.Viol("wrong AST", fmt.Sprintf("%s\nneovim: %v", d, g.neovim), src)
			continue
		}
		if id == "P04" || id == "P08" {
			eachNode(reflect.ValueOf(res.File), func(n ast.Node) {
				if m := methods(n, id); m != "" {
					c.Viol("a method of a node", m, src)
				}
				c.Count("methods of nodes called")
			})
		}
		c.Add("statements at top level", len(f.Body))
		c.Add("nodes", countNodes(res.File))
		for k, v := range g.kinds {
			c.Add("generated "+k, v)
		}
		c.Sample(src)
	}
}
