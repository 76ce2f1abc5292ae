package main

import (
	"strings"

	"github.com/vim-jp/go-vimlparser/ast"
	"github.com/vim-jp/go-vimlparser/token"
)

// Sizes beyond what small counters can hold. A generator with big set writes
// one very long thing among the ordinary ones.
const (
	bigLines  = iota + 1 // empty lines between two statements
	bigColumn            // white space where white space may be
	bigWide              // a list or dictionary, a name, a text
	bigBody              // very many statements
)

const hugeMin, hugeMax = 65600, 70000

func (g *Gen) hugeSpace() {
	g.big = 0
	g.w.hold++
	g.w.put(strings.Repeat(" ", g.r.Range(hugeMin, hugeMax)))
	g.w.hold--
	g.count("very long white space")
}

// hugeLines writes empty lines, at the start of a line.
func (g *Gen) hugeLines() {
	if n := len(g.w.j); n > 0 && g.w.j[n-1] != '\n' {
		return
	}
	g.big = 0
	b := g.w.pBreak
	g.w.pBreak = 0
	for k := g.r.Range(hugeMin, hugeMax); k > 0; k-- {
		g.w.eol()
	}
	g.w.pBreak = b
	g.count("very many lines")
}

// items is the number of items of a list or a dictionary.
func (g *Gen) items(d int) int {
	if g.big == bigWide && d <= 1 {
		g.big = 0
		g.count("very many items")
		return g.r.Range(256, 2000)
	}
	return g.r.N(4)
}

// hugeBody repeats the statements until there are more than 65536.
func hugeBody(f *ast.File) *ast.File {
	h := *f
	h.Body = nil
	for len(f.Body) > 0 && len(h.Body) < hugeMin {
		h.Body = append(h.Body, f.Body...)
	}
	return &h
}

// hugeExpr is an expression of very many operands or levels.
func (g *Gen) hugeExpr() (ex, string) {
	r := g.r
	n := r.Range(258, 700)
	name := func() ex {
		id := &ast.Ident{Name: pick(r, []string{"a", "x1", "g:y", "foo"})}
		return ex{[]Tok{{T: id.Name, K: kName}}, id}
	}
	e := name()
	if n%3 == 0 {
		n = 256
	}
	switch k := r.N(9); k {
	case 0, 1, 2, 3:
		ops := [][]token.Token{{token.PLUS, token.MINUS}, {token.STAR, token.SLASH, token.PERCENT}, {token.ANDAND}, {token.OROR}}[k]
		for ; n > 0; n-- {
			op, y := pick(r, ops), name()
			e = ex{cat(e, op.String(), y), &ast.BinaryExpr{Left: e.n, Op: op, Right: y.n}}
		}
		return e, "operators"
	case 4:
		for ; n > 0; n-- {
			x, y := name(), name()
			e = ex{cat(x, " ? ", y, " : ", e), &ast.TernaryExpr{Condition: x.n, Left: y.n, Right: e.n}}
		}
		return e, "conditions"
	case 5:
		for ; n > 0; n-- {
			e = ex{cat("(", e, ")"), &ast.ParenExpr{X: e.n}}
		}
		return e, "parentheses"
	case 6:
		for ; n > 0; n-- {
			e = ex{cat("[", e, "]"), &ast.List{Values: []ast.Expr{e.n}}}
		}
		return e, "lists in each other"
	case 7:
		for ; n > 0; n-- {
			y := name()
			e = ex{cat(e, Tok{T: "[", Pre: preNone}, y, "]"), &ast.SubscriptExpr{Left: e.n, Right: y.n}}
		}
		return e, "subscripts"
	}
	for ; n > 0; n-- {
		e = ex{cat("!", e), &ast.UnaryExpr{Op: token.NOT, X: e.n}}
	}
	return e, "negations"
}

// hugeSource is a script of more than 65536 lines.
func hugeSource(r *Rng) string {
	lines := []string{"e x\n", "let a = 1\n", "\" c\n", "ec a.b\n", "if 1 | endif\n", "call f()\n", "se ai\n"}
	var b strings.Builder
	for k := r.Range(hugeMin, hugeMax); k > 0; k-- {
		b.WriteString(pick(r, lines))
	}
	return b.String()
}
