package main

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"strings"

	"github.com/vim-jp/go-vimlparser/ast"
	"github.com/vim-jp/go-vimlparser/printer"
	"github.com/vim-jp/go-vimlparser/token"
)

func init() {
	register(&Prop{
		ID: "P17",
		Rule: "Expressions of the node types the printer supports: generated and parsed ones, all hand-built trees with two operators, and random hand-built trees, with parentheses in all places and none. Each is printed and the text parsed again; the trees must be equal up to parentheses, and printing that gives the same text. Writers fail in all ways. " +
			"Distinct: different printed texts.",
		Units: units(300, 12000),
		Run:   runP17,
	})
}

// bareExpr writes an expression without regard to parentheses and positions.
func bareExpr(e ast.Expr) string {
	var b strings.Builder
	var w func(e ast.Expr)
	w = func(e ast.Expr) {
		switch x := e.(type) {
		case *ast.ParenExpr:
			w(x.X)
		case *ast.BinaryExpr:
			b.WriteString("(" + opText[x.Op] + " ")
			w(x.Left)
			b.WriteString(" ")
			w(x.Right)
			b.WriteString(")")
		case *ast.UnaryExpr:
			b.WriteString("(u" + opText[x.Op] + " ")
			w(x.X)
			b.WriteString(")")
		case *ast.SubscriptExpr:
			b.WriteString("([] ")
			w(x.Left)
			b.WriteString(" ")
			w(x.Right)
			b.WriteString(")")
		case *ast.BasicLit:
			fmt.Fprintf(&b, "lit:%d:%q", x.Kind, x.Value)
		case *ast.Ident:
			fmt.Fprintf(&b, "id:%q", x.Name)
		default:
			fmt.Fprintf(&b, "%T", e)
		}
	}
	w(e)
	return b.String()
}

func fprint(c *Ctx, n ast.Node, cfg *printer.Config) (string, error, string) {
	var b bytes.Buffer
	var err error
	p, _, _ := guarded(100000, func() { err = printer.Fprint(&b, n, cfg) })
	return b.String(), err, p
}

func judgePrint(c *Ctx, e ast.Expr, what string) bool {
	before := Dump(e, cmpAll)
	want := bareExpr(e)
	out, err, p := fprint(c, e, nil)
	c.Eval(hashStr(out), out != "")
	c.Count("printed: " + what)
	bad := func(key, format string, a ...any) bool {
		c.Viol(key, fmt.Sprintf(format, a...)+"\ntree: "+want, out)
		return false
	}
	if p != "" || err != nil {
		return bad("an expression is not printed", "%v %s", err, p)
	}
	if after := Dump(e, cmpAll); after != before {
		return bad("printing changes the AST", "before %s\nafter  %s", before, after)
	}
	if out2, err, p := fprint(c, e, &printer.Config{}); out2 != out || err != nil || p != "" {
		return bad("printing again gives another text", "%q and %q %v %s", out, out2, err, p)
	}
	res := parseExpr(c, out)
	if res.Expr == nil {
		return bad("the printed text is no expression", "%s", res.show())
	}
	if got := bareExpr(res.Expr); got != want {
		return bad("the printed text is another expression", "got   %s", got)
	}
	// As the right-hand side of a statement nothing may be left over.
	if !strings.Contains(out, "\n") {
		f := parseFile(c, "let x = "+out+"\n", false, fname)
		ok := false
		if f.File != nil && len(f.File.Body) == 1 {
			if l, is := f.File.Body[0].(*ast.Let); is && l.Right != nil {
				ok = bareExpr(l.Right) == want
			}
		}
		if !ok {
			return bad("the printed text is more than an expression", "%s", f.show())
		}
	}
	out3, err, p := fprint(c, res.Expr, nil)
	if out3 != out || err != nil || p != "" {
		return bad("printing is not stable", "printed %q, and what that is parsed to as %q %v %s", out, out3, err, p)
	}
	return true
}

func (g *Gen) leaf() ast.Expr {
	if g.r.P(0.5) {
		return g.ident().n
	}
	return g.lit().n
}

var printOps = append([]token.Token{token.OROR, token.ANDAND, token.PLUS, token.MINUS, token.DOT, token.STAR, token.SLASH, token.PERCENT}, cmpOps...)

// nodeKinds are the ways to make a node of one or two operands.
type nodeKind struct {
	name string
	n    int
	mk   func(a, b ast.Expr) ast.Expr
}

var nodeKinds []nodeKind

func init() {
	for _, op := range printOps {
		nodeKinds = append(nodeKinds, nodeKind{opText[op], 2, func(a, b ast.Expr) ast.Expr { return &ast.BinaryExpr{Left: a, Op: op, Right: b} }})
	}
	for _, op := range []token.Token{token.NOT, token.MINUS, token.PLUS} {
		nodeKinds = append(nodeKinds, nodeKind{"u" + opText[op], 1, func(a, _ ast.Expr) ast.Expr { return &ast.UnaryExpr{Op: op, X: a} }})
	}
	nodeKinds = append(nodeKinds,
		nodeKind{"[]", 2, func(a, b ast.Expr) ast.Expr { return &ast.SubscriptExpr{Left: a, Right: b} }},
		nodeKind{"()", 1, func(a, _ ast.Expr) ast.Expr { return &ast.ParenExpr{X: a} }})
}

func (g *Gen) built(d int) ast.Expr {
	if d <= 0 || g.r.P(0.2) {
		return g.leaf()
	}
	k := nodeKinds[g.r.N(len(nodeKinds))]
	switch g.r.N(4) { // the comparisons are many
	case 0:
		k = nodeKinds[g.r.N(8)]
	case 1:
		k = nodeKinds[len(nodeKinds)-1-g.r.N(5)]
	}
	return k.mk(g.built(d-1), g.built(d-1))
}

func runP17(c *Ctx, unit int) {
	r := c.R
	g := newGen(r)
	g.prOnly = true
	// All trees of two or three operators which begin with this one.
	if unit < len(nodeKinds) {
		k := nodeKinds[unit]
		for _, k2 := range nodeKinds {
			for pos := 0; pos < k.n; pos++ {
				in := k2.mk(g.leaf(), g.leaf())
				ab := [2]ast.Expr{g.leaf(), g.leaf()}
				ab[pos] = in
				judgePrint(c, k.mk(ab[0], ab[1]), "all trees of two operators")
				if k.n == 2 {
					judgePrint(c, k.mk(k2.mk(g.leaf(), g.leaf()), k2.mk(g.leaf(), g.leaf())), "all trees of two operators")
				}
				for _, k3 := range nodeKinds {
					if !c.Thorough() && !r.P(0.1) {
						continue
					}
					for q := 0; q < k2.n; q++ {
						cd := [2]ast.Expr{g.leaf(), g.leaf()}
						cd[q] = k3.mk(g.leaf(), g.leaf())
						ab[pos] = k2.mk(cd[0], cd[1])
						judgePrint(c, k.mk(ab[0], ab[1]), "trees of three operators")
					}
				}
			}
		}
	}
	for {
		e, what := g.hugeExpr()
		if what == "lists in each other" || what == "conditions" {
			continue // the printer does not know them
		}
		if !judgePrint(c, e.n, "very many "+what) {
			return
		}
		break
	}
	for i := 0; i < 30; i++ {
		if !judgePrint(c, g.built(r.Range(0, 5)), "random hand-built trees") {
			return
		}
	}
	for i := 0; i < 20; i++ {
		g := newGen(r)
		g.prOnly = true
		e := g.expr(1, r.Range(1, 6))
		g.sp = pick(r, []float64{0, 0.1, 0.5, 1})
		g.emit(e.t)
		src := g.src()
		res := parseExpr(c, src)
		if res.Expr == nil {
			c.Viol("a valid expression is rejected", res.show(), src)
			return
		}
		if !judgePrint(c, res.Expr, "parsed expressions") {
			return
		}
		if len(src) < 80 {
			c.Sample(fmt.Sprintf("%q", src))
		}
	}
	badPrints(c, g)
}

// badPrints: writers that fail, and what cannot be printed.
func badPrints(c *Ctx, g *Gen) {
	e := g.built(4)
	out, _, _ := fprint(c, e, nil)
	for _, want := range []error{errInjected, io.ErrShortWrite, io.ErrClosedPipe, fmt.Errorf("wrapped: %w", errInjected)} {
		for _, part := range []bool{false, true} {
			w := &failWriter{err: want, part: part}
			var err error
			p, _, _ := guarded(100000, func() { err = printer.Fprint(w, e, nil) })
			c.Count("writer faults injected")
			if p != "" || !errors.Is(err, want) {
				c.Viol("a writer's error is returned", fmt.Sprintf("the writer fails with %q: %v %s", want, err, p), out)
				return
			}
		}
	}
	// A writer which fails after some writes, if there are that many.
	for n := 1; ; n++ {
		w := &failWriter{err: errInjected, after: n}
		var err error
		p, _, _ := guarded(100000, func() { err = printer.Fprint(w, e, nil) })
		if p != "" || w.failed != (err != nil) || w.failed && !errors.Is(err, errInjected) || !w.failed && w.got.String() != out {
			c.Viol("a writer's error is returned", fmt.Sprintf("the writer fails at call %d: %v %s, written %q", n+1, err, p, w.got.String()), out)
			return
		}
		if !w.failed {
			break
		}
	}
	n, src := someNode(c)
	if f, ok := n.(*ast.File); ok && len(f.Body) > 0 && c.R.P(0.7) {
		n = pick(c.R, f.Body)
	}
	if _, ok := n.(ast.Expr); ok || n == nil {
		return
	}
	if _, ok := n.(ast.Statement); !ok {
		if _, ok := n.(*ast.File); !ok {
			return
		}
	}
	got, err, p := fprint(c, n, nil)
	c.Count("files and statements refused")
	if p != "" || err == nil || got != "" {
		c.Viol("files and statements are refused", fmt.Sprintf("%T: error %v, written %q %s", n, err, got, p), src)
	}
}

type failWriter struct {
	err    error
	part   bool
	after  int
	failed bool
	got    strings.Builder
}

func (w *failWriter) Write(p []byte) (int, error) {
	if w.after > 0 {
		w.after--
		w.got.Write(p)
		return len(p), nil
	}
	w.failed = true
	if w.part {
		return len(p) / 2, w.err
	}
	return 0, w.err
}
