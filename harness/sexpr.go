package main

import (
	"fmt"
	"strconv"
	"strings"

	"github.com/vim-jp/go-vimlparser/ast"
	"github.com/vim-jp/go-vimlparser/token"
)

// An independent renderer of the S-expression format of vim-vimlparser's
// compiler. It makes the tree of lists first and lays it out afterwards.

// sx is a statement: a first line, then blocks of statements between
// continuing lines, and whether a parenthesis closes it.
type sx struct {
	open   string
	blocks []sxBlock
	block  bool
}

type sxBlock struct {
	head string // "" for the first
	body []sx
}

func quote(s, special string) string {
	var b strings.Builder
	for i := 0; i < len(s); i++ {
		if strings.IndexByte(special, s[i]) >= 0 {
			b.WriteByte('\\')
		}
		b.WriteByte(s[i])
	}
	return `"` + b.String() + `"`
}

func list(parts ...string) string { return "(" + strings.Join(parts, " ") + ")" }

func exs[T ast.Expr](xs []T) (r []string) {
	for _, x := range xs {
		r = append(r, sexpr(x))
	}
	return
}

func orNil(e ast.Expr) string {
	if e == nil {
		return "nil"
	}
	return sexpr(e)
}

func heredocText(s string) string {
	return `"` + strings.NewReplacer("\n", `\n`, "\t", `\t`, "\r", `\r`).Replace(s) + `"`
}

func sexpr(e ast.Expr) string {
	switch n := e.(type) {
	case *ast.Ident:
		return n.Name
	case *ast.BasicLit:
		return n.Value
	case *ast.ParenExpr:
		return sexpr(n.X)
	case *ast.TernaryExpr:
		return list("?:", sexpr(n.Condition), sexpr(n.Left), sexpr(n.Right))
	case *ast.BinaryExpr:
		op := opText[n.Op]
		if n.Op == token.DOT {
			op = "concat"
		}
		return list(op, sexpr(n.Left), sexpr(n.Right))
	case *ast.UnaryExpr:
		return list(opText[n.Op], sexpr(n.X))
	case *ast.SubscriptExpr:
		return list("subscript", sexpr(n.Left), sexpr(n.Right))
	case *ast.SliceExpr:
		return list("slice", sexpr(n.X), orNil(n.Low), orNil(n.High))
	case *ast.DotExpr:
		return list("dot", sexpr(n.Left), sexpr(n.Right))
	case *ast.CallExpr:
		return list(append([]string{sexpr(n.Fun)}, exs(n.Args)...)...)
	case *ast.MethodExpr:
		return list("method", sexpr(n.Left), list(append([]string{sexpr(n.Method)}, exs(n.Args)...)...))
	case *ast.List:
		return list(append([]string{"list"}, exs(n.Values)...)...)
	case *ast.Dict:
		p := []string{"dict"}
		for _, kv := range n.Entries {
			p = append(p, list(sexpr(kv.Key), sexpr(kv.Value)))
		}
		return list(p...)
	case *ast.LambdaExpr:
		return list("lambda", list(exs(n.Params)...), sexpr(n.Expr))
	case *ast.CurlyName:
		return strings.Join(exs(n.Parts), "")
	case *ast.CurlyNameLit:
		return n.Value
	case *ast.CurlyNameExpr:
		return "{" + sexpr(n.Value) + "}"
	case *ast.HeredocExpr:
		part := func(xs []ast.Expr) string {
			p := []string{"list"}
			for _, x := range xs {
				p = append(p, heredocText(sexpr(x)))
			}
			return list(p...)
		}
		return list("heredoc", part(n.Flags), heredocText(n.EndMarker), part(n.Body))
	}
	panic(fmt.Sprintf("sexpr: %T", e))
}

func sxTargets(left ast.Expr, l []ast.Expr, rest ast.Expr) string {
	if left != nil {
		return sexpr(left)
	}
	p := exs(l)
	if rest != nil {
		if len(p) == 0 {
			p = []string{""}
		}
		p = append(p, ".", sexpr(rest))
	}
	return list(p...)
}

func sxs(body []ast.Statement) (r []sx) {
	for _, s := range body {
		r = append(r, sxOf(s))
	}
	return
}

func sxOf(s ast.Statement) sx {
	line := func(parts ...string) sx { return sx{open: list(parts...)} }
	blk := func(body []ast.Statement, parts ...string) sx {
		return sx{open: "(" + strings.Join(parts, " "), blocks: []sxBlock{{"", sxs(body)}}, block: true}
	}
	lock := func(name string, depth int, l []ast.Expr) sx {
		p := []string{name}
		if depth != 0 {
			p = append(p, strconv.Itoa(depth))
		}
		return line(append(p, exs(l)...)...)
	}
	spaced := func(name string, l []ast.Expr) sx { // "(echo )" without arguments
		return sx{open: "(" + name + " " + strings.Join(exs(l), " ") + ")"}
	}
	switch n := s.(type) {
	case *ast.Comment:
		return sx{open: ";" + n.Text}
	case *ast.Excmd:
		return line("excmd", quote(n.Command, `\"`))
	case *ast.Function:
		p := []string{sexpr(n.Name)}
		ps := n.Params
		rest := len(ps) > 0 && ps[len(ps)-1].Name == "..."
		if rest {
			ps = ps[:len(ps)-1]
		}
		plain := len(ps) - len(n.DefaultArgs)
		for i, x := range ps {
			if i < plain {
				p = append(p, x.Name)
			} else {
				p = append(p, list(x.Name, sexpr(n.DefaultArgs[i-plain])))
			}
		}
		if rest {
			p = append(p, ".", "...")
		}
		return blk(n.Body, "function", list(p...))
	case *ast.DelFunction:
		return line("delfunction", sexpr(n.Name))
	case *ast.Return:
		if n.Result == nil {
			return line("return")
		}
		return line("return", sexpr(n.Result))
	case *ast.ExCall:
		return line("call", sexpr(n.FuncCall))
	case *ast.Let:
		return line(n.Cmd().Name, n.Op, sxTargets(n.Left, n.List, n.Rest), sexpr(n.Right))
	case *ast.UnLet:
		return line(append([]string{"unlet"}, exs(n.List)...)...)
	case *ast.LockVar:
		return lock("lockvar", n.Depth, n.List)
	case *ast.UnLockVar:
		return lock("unlockvar", n.Depth, n.List)
	case *ast.Break:
		return line("break")
	case *ast.Continue:
		return line("continue")
	case *ast.Throw:
		return line("throw", sexpr(n.Expr))
	case *ast.Eval:
		return line("eval", sexpr(n.Expr))
	case *ast.EchoCmd:
		return spaced(n.CmdName, n.Exprs)
	case *ast.Execute:
		return spaced("execute", n.Exprs)
	case *ast.Echohl:
		return line("echohl", quote(n.Name, `\"`))
	case *ast.While:
		return blk(n.Body, "while", sexpr(n.Condition))
	case *ast.For:
		return blk(n.Body, "for", sxTargets(n.Left, n.List, n.Rest), sexpr(n.Right))
	case *ast.If:
		r := blk(n.Body, "if", sexpr(n.Condition))
		for _, e := range n.ElseIf {
			r.blocks = append(r.blocks, sxBlock{" elseif " + sexpr(e.Condition), sxs(e.Body)})
		}
		if n.Else != nil {
			r.blocks = append(r.blocks, sxBlock{" else", sxs(n.Else.Body)})
		}
		return r
	case *ast.Try:
		r := blk(n.Body, "try")
		for _, e := range n.Catch {
			h := " catch"
			if e.Pattern != "" {
				h += " /" + e.Pattern + "/"
			}
			r.blocks = append(r.blocks, sxBlock{h, sxs(e.Body)})
		}
		if n.Finally != nil {
			r.blocks = append(r.blocks, sxBlock{" finally", sxs(n.Finally.Body)})
		}
		return r
	}
	panic(fmt.Sprintf("sexpr: %T", s))
}

func (x sx) lay(b *strings.Builder, indent string, depth int, close string) {
	type line struct {
		text string
		kids []sx
	}
	b.WriteString(strings.Repeat(indent, depth))
	b.WriteString(x.open)
	if x.block {
		close = ")" + close
	}
	for i, k := range x.blocks {
		if i > 0 {
			b.WriteString("\n" + strings.Repeat(indent, depth) + k.head)
		}
		for j, s := range k.body {
			b.WriteString("\n")
			last := ""
			if i == len(x.blocks)-1 && j == len(k.body)-1 {
				last, close = close, ""
			}
			s.lay(b, indent, depth+1, last)
		}
	}
	b.WriteString(close)
}

// render is what Compile must write for the node.
func render(n ast.Node, indent string) string {
	var b strings.Builder
	switch n := n.(type) {
	case *ast.File:
		for _, s := range n.Body {
			sxOf(s).lay(&b, indent, 0, "")
			b.WriteString("\n")
		}
	case ast.Statement:
		sxOf(n).lay(&b, indent, 0, "")
		b.WriteString("\n")
	case ast.Expr:
		b.WriteString(sexpr(n))
	}
	return b.String()
}
