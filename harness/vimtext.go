package main

import (
	"fmt"
	"strconv"
	"strings"

	"github.com/vim-jp/go-vimlparser/ast"
	"github.com/vim-jp/go-vimlparser/token"
)

// vimText writes an AST as a script for Vim which depends on nothing but the
// AST: every operand is in parentheses, every command is on a line of its own
// with its full name. It shares nothing with the printer.
type vimText struct {
	b   strings.Builder
	err string
	sp  int // nesting of functions, for heredocs
}

func (v *vimText) bad(format string, a ...any) string {
	if v.err == "" {
		v.err = fmt.Sprintf(format, a...)
	}
	return "!"
}

func (v *vimText) list(es []ast.Expr, sep string) string {
	var s []string
	for _, e := range es {
		s = append(s, v.expr(e))
	}
	return strings.Join(s, sep)
}

// expr writes an expression in parentheses.
func (v *vimText) expr(e ast.Expr) string { return "(" + v.bare(e) + ")" }

func (v *vimText) bare(e ast.Expr) string {
	switch n := e.(type) {
	case *ast.TernaryExpr:
		return v.expr(n.Condition) + " ? " + v.expr(n.Left) + " : " + v.expr(n.Right)
	case *ast.BinaryExpr:
		op, ok := opText[n.Op]
		if !ok || n.Op == token.NOT {
			return v.bad("binary operator %v", n.Op)
		}
		return v.expr(n.Left) + " " + op + " " + v.expr(n.Right)
	case *ast.UnaryExpr:
		if n.Op != token.NOT && n.Op != token.MINUS && n.Op != token.PLUS {
			return v.bad("unary operator %v", n.Op)
		}
		return opText[n.Op] + v.expr(n.X)
	case *ast.SubscriptExpr:
		return v.expr(n.Left) + "[" + v.expr(n.Right) + "]"
	case *ast.SliceExpr:
		return v.expr(n.X) + v.slice(n)
	case *ast.MethodExpr:
		return v.expr(n.Left) + "->" + v.callee(n.Method) + "(" + v.list(n.Args, ", ") + ")"
	case *ast.CallExpr:
		return v.callee(n.Fun) + "(" + v.list(n.Args, ", ") + ")"
	case *ast.DotExpr:
		return v.expr(n.Left) + "." + v.name(n.Right)
	case *ast.BasicLit:
		return n.Value
	case *ast.List:
		return "[" + v.list(n.Values, ", ") + "]"
	case *ast.Dict:
		var s []string
		for _, x := range n.Entries {
			s = append(s, v.expr(x.Key)+": "+v.expr(x.Value))
		}
		return "{" + strings.Join(s, ", ") + "}"
	case *ast.LambdaExpr:
		var s []string
		for _, x := range n.Params {
			s = append(s, v.name(x))
		}
		return "{" + strings.Join(s, ", ") + " -> " + v.expr(n.Expr) + "}"
	case *ast.ParenExpr:
		return v.expr(n.X)
	case *ast.Ident:
		return v.name(n)
	case *ast.CurlyName:
		return v.lval(n)
	}
	return v.bad("expression of type %T", e)
}

func (v *vimText) name(n *ast.Ident) string {
	if n == nil {
		return v.bad("no name")
	}
	return n.Name
}

func (v *vimText) slice(n *ast.SliceExpr) string {
	s := "["
	if n.Low != nil {
		s += v.expr(n.Low)
	}
	s += " : "
	if n.High != nil {
		s += v.expr(n.High)
	}
	return s + "]"
}

// callee writes what is called. A name stands for a function only without
// parentheses.
func (v *vimText) callee(e ast.Expr) string {
	switch n := e.(type) {
	case *ast.Ident, *ast.CurlyName, *ast.LambdaExpr:
		return v.bare(e)
	case *ast.DotExpr:
		return v.bare(n)
	}
	return v.expr(e)
}

// lval writes what is assigned to, or the function of a :call.
func (v *vimText) lval(e ast.Expr) string {
	switch n := e.(type) {
	case *ast.Ident:
		return n.Name
	case *ast.CurlyName:
		s := ""
		for _, p := range n.Parts {
			switch x := p.(type) {
			case *ast.CurlyNameLit:
				s += x.Value
			case *ast.CurlyNameExpr:
				s += "{" + v.expr(x.Value) + "}"
			default:
				return v.bad("part of a name of type %T", p)
			}
		}
		return s
	case *ast.BasicLit:
		if n.Kind == token.OPTION || n.Kind == token.ENV || n.Kind == token.REG {
			return n.Value
		}
	case *ast.DotExpr:
		return v.lval(n.Left) + "." + v.name(n.Right)
	case *ast.SubscriptExpr:
		return v.lval(n.Left) + "[" + v.expr(n.Right) + "]"
	case *ast.SliceExpr:
		return v.lval(n.X) + v.slice(n)
	case *ast.CallExpr:
		return v.lval(n.Fun) + "(" + v.list(n.Args, ", ") + ")"
	}
	return v.bad("%T where there is to be something to assign to", e)
}

func (v *vimText) line(format string, a ...any) { fmt.Fprintf(&v.b, format+"\n", a...) }

// head is the beginning of a command, up to its name.
func (v *vimText) head(ea *ast.ExArg) string {
	s := ""
	for _, m := range ea.Modifiers {
		x, ok := m.(map[string]interface{})
		if !ok {
			return v.bad("modifier %v", m)
		}
		if n, ok := x["count"]; ok && fmt.Sprint(n) != "<nil>" {
			s += fmt.Sprint(n)
		}
		s += fmt.Sprint(x["name"])
		if x["bang"] == 1 {
			s += "!"
		}
		s += " "
	}
	for _, r := range ea.Range {
		s += fmt.Sprint(r)
	}
	if ea.Cmd == nil {
		return v.bad("no command")
	}
	s += ea.Cmd.Name
	if ea.Forceit {
		s += "!"
	}
	return s
}

func (v *vimText) body(b []ast.Statement) {
	for _, s := range b {
		v.stmt(s)
	}
}

// lhs is the left side of an assignment and of :for.
func (v *vimText) lhs(left ast.Expr, list []ast.Expr, rest ast.Expr) string {
	if left != nil {
		return v.lval(left)
	}
	var s []string
	for _, x := range list {
		s = append(s, v.lval(x))
	}
	r := "[" + strings.Join(s, ", ")
	if rest != nil {
		r += "; " + v.lval(rest)
	}
	return r + "]"
}

func (v *vimText) stmt(s ast.Statement) {
	switch n := s.(type) {
	case *ast.Comment:
	case *ast.Excmd:
		v.line("%s", n.Command)
	case *ast.Function:
		h := v.head(&n.ExArg) + " " + v.lval(n.Name) + "("
		var ps []string
		defs := len(n.Params) - len(n.DefaultArgs)
		if k := len(n.Params); k > 0 && n.Params[k-1].Name == "..." {
			defs--
		}
		for i, p := range n.Params {
			t := p.Name
			if k := i - defs; k >= 0 && k < len(n.DefaultArgs) {
				t += " = " + v.expr(n.DefaultArgs[k])
			}
			ps = append(ps, t)
		}
		h += strings.Join(ps, ", ") + ")"
		for i, w := range []string{"range", "abort", "dict", "closure"} {
			if []bool{n.Attr.Range, n.Attr.Abort, n.Attr.Dict, n.Attr.Closure}[i] {
				h += " " + w
			}
		}
		v.line("%s", h)
		v.body(n.Body)
		v.line("%s", v.head(&n.EndFunction.ExArg))
	case *ast.DelFunction:
		v.line("%s %s", v.head(&n.ExArg), v.lval(n.Name))
	case *ast.Return:
		if n.Result == nil {
			v.line("%s", v.head(&n.ExArg))
		} else {
			v.line("%s %s", v.head(&n.ExArg), v.expr(n.Result))
		}
	case *ast.ExCall:
		v.line("%s %s", v.head(&n.ExArg), v.lval(n.FuncCall))
	case *ast.Let:
		h := v.head(&n.ExArg) + " " + v.lhs(n.Left, n.List, n.Rest)
		if d, ok := n.Right.(*ast.HeredocExpr); ok {
			h += " =<<"
			for _, f := range d.Flags {
				h += " " + lit(f)
			}
			v.line("%s %s", h, d.EndMarker)
			for _, l := range d.Body {
				v.line("%s", lit(l))
			}
			v.line("%s", d.EndMarker)
			return
		}
		v.line("%s %s %s", h, n.Op, v.expr(n.Right))
	case *ast.UnLet:
		v.line("%s %s", v.head(&n.ExArg), v.lvals(n.List))
	case *ast.LockVar:
		v.line("%s %s%s", v.head(&n.ExArg), depthText(n.Depth), v.lvals(n.List))
	case *ast.UnLockVar:
		v.line("%s %s%s", v.head(&n.ExArg), depthText(n.Depth), v.lvals(n.List))
	case *ast.If:
		v.line("%s %s", v.head(&n.ExArg), v.expr(n.Condition))
		v.body(n.Body)
		for _, x := range n.ElseIf {
			v.line("%s %s", v.head(&x.ExArg), v.expr(x.Condition))
			v.body(x.Body)
		}
		if n.Else != nil {
			v.line("%s", v.head(&n.Else.ExArg))
			v.body(n.Else.Body)
		}
		v.line("%s", v.head(&n.EndIf.ExArg))
	case *ast.While:
		v.line("%s %s", v.head(&n.ExArg), v.expr(n.Condition))
		v.body(n.Body)
		v.line("%s", v.head(&n.EndWhile.ExArg))
	case *ast.For:
		v.line("%s %s in %s", v.head(&n.ExArg), v.lhs(n.Left, n.List, n.Rest), v.expr(n.Right))
		v.body(n.Body)
		v.line("%s", v.head(&n.EndFor.ExArg))
	case *ast.Continue:
		v.line("%s", v.head(&n.ExArg))
	case *ast.Break:
		v.line("%s", v.head(&n.ExArg))
	case *ast.Try:
		v.line("%s", v.head(&n.ExArg))
		v.body(n.Body)
		for _, x := range n.Catch {
			if x.Pattern == "" {
				v.line("%s", v.head(&x.ExArg))
			} else {
				v.line("%s %s", v.head(&x.ExArg), delimited(x.Pattern))
			}
			v.body(x.Body)
		}
		if n.Finally != nil {
			v.line("%s", v.head(&n.Finally.ExArg))
			v.body(n.Finally.Body)
		}
		v.line("%s", v.head(&n.EndTry.ExArg))
	case *ast.Throw:
		v.line("%s %s", v.head(&n.ExArg), v.expr(n.Expr))
	case *ast.Eval:
		v.line("%s %s", v.head(&n.ExArg), v.expr(n.Expr))
	case *ast.EchoCmd:
		if n.ExArg.Cmd != nil && n.ExArg.Cmd.Name != n.CmdName {
			v.bad("CmdName is %q, Cmd.Name %q", n.CmdName, n.ExArg.Cmd.Name)
		}
		v.line("%s %s", v.head(&n.ExArg), v.list(n.Exprs, " "))
	case *ast.Echohl:
		v.line("%s %s", v.head(&n.ExArg), n.Name)
	case *ast.Execute:
		v.line("%s %s", v.head(&n.ExArg), v.list(n.Exprs, " "))
	default:
		v.bad("statement of type %T", s)
	}
}

func (v *vimText) lvals(es []ast.Expr) string {
	var s []string
	for _, e := range es {
		s = append(s, v.lval(e))
	}
	return strings.Join(s, " ")
}

func depthText(d int) string {
	if d == 0 {
		return ""
	}
	return strconv.Itoa(d) + " "
}

// delimited writes a pattern with a delimiter which it does not contain.
func delimited(p string) string {
	for _, d := range "/#%=,;~@" {
		if !strings.ContainsRune(p, d) {
			return string(d) + p + string(d)
		}
	}
	return "/" + p + "/"
}

func lit(e ast.Expr) string {
	if b, ok := e.(*ast.BasicLit); ok {
		return b.Value
	}
	return fmt.Sprintf("%T", e)
}
