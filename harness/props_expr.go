package main

import (
	"fmt"
	"reflect"
	"strings"

	"github.com/vim-jp/go-vimlparser/ast"
	"github.com/vim-jp/go-vimlparser/token"
)

func init() {
	register(&Prop{
		ID:    "P06",
		Rule:  "Expressions are generated together with the tree Vim's grammar gives them, written with random white space, trailing commas and line breaks, and parsed on their own and as the argument of each command that takes an expression; plus every sequence of two binary operators and of unary operators, with a tree made by precedence climbing. The oracle compares the trees. Distinct: different sequences of node types and operators; trivial: a single literal or identifier.",
		Units: units(64, 1200),
		Run:   runP06,
	})
}

// exprCtxs are the commands which take an expression; get finds it in the AST.
var exprCtxs = []struct {
	name, before, after string
	get                 func(f *ast.File) ast.Expr
}{
	{"echo", "echo ", "", func(f *ast.File) ast.Expr { return f.Body[0].(*ast.EchoCmd).Exprs[0] }},
	{"echon 2", "echon 1 ", " 2", func(f *ast.File) ast.Expr { return f.Body[0].(*ast.EchoCmd).Exprs[1] }},
	{"echomsg bar", "echomsg ", "|echo", func(f *ast.File) ast.Expr { return f.Body[0].(*ast.EchoCmd).Exprs[0] }},
	{"echoerr", "silent! echoerr ", "", func(f *ast.File) ast.Expr { return f.Body[0].(*ast.EchoCmd).Exprs[0] }},
	{"execute", "execute ", "| echo", func(f *ast.File) ast.Expr { return f.Body[0].(*ast.Execute).Exprs[0] }},
	{"let", "let x = ", "", func(f *ast.File) ast.Expr { return f.Body[0].(*ast.Let).Right }},
	{"let .=", "let [x, y; z] = ", " \" c", func(f *ast.File) ast.Expr { return f.Body[0].(*ast.Let).Right }},
	{"const", "const x = ", "", func(f *ast.File) ast.Expr { return f.Body[0].(*ast.Let).Right }},
	{"let lhs", "let x[", "] = 1", func(f *ast.File) ast.Expr { return f.Body[0].(*ast.Let).Left.(*ast.SubscriptExpr).Right }},
	{"let +=", "let x += ", "|", func(f *ast.File) ast.Expr { return f.Body[0].(*ast.Let).Right }},
	{"if", "if ", "\nendif", func(f *ast.File) ast.Expr { return f.Body[0].(*ast.If).Condition }},
	{"elseif", "if 1\nelseif ", "\nendif", func(f *ast.File) ast.Expr { return f.Body[0].(*ast.If).ElseIf[0].Condition }},
	{"while", "while ", "|endwhile", func(f *ast.File) ast.Expr { return f.Body[0].(*ast.While).Condition }},
	{"for", "for x in ", "\nendfor", func(f *ast.File) ast.Expr { return f.Body[0].(*ast.For).Right }},
	{"throw", "throw ", "", func(f *ast.File) ast.Expr { return f.Body[0].(*ast.Throw).Expr }},
	{"eval", "eval ", "", func(f *ast.File) ast.Expr { return f.Body[0].(*ast.Eval).Expr }},
	{"return", "function F()\nreturn ", "\nendfunction", func(f *ast.File) ast.Expr { return f.Body[0].(*ast.Function).Body[0].(*ast.Return).Result }},
	{"default", "function F(a, b = ", ")\nendfunction", func(f *ast.File) ast.Expr { return f.Body[0].(*ast.Function).DefaultArgs[0] }},
	{"call", "call f(1, ", ")", func(f *ast.File) ast.Expr { return f.Body[0].(*ast.ExCall).FuncCall.Args[1] }},
	{"unlet", "unlet x[", "]", func(f *ast.File) ast.Expr { return f.Body[0].(*ast.UnLet).List[0].(*ast.SubscriptExpr).Right }},
	{"lockvar", "lockvar 2 y x[", "]", func(f *ast.File) ast.Expr { return f.Body[0].(*ast.LockVar).List[1].(*ast.SubscriptExpr).Right }},
	{"delfunction", "delfunction x[", "]", func(f *ast.File) ast.Expr { return f.Body[0].(*ast.DelFunction).Name.(*ast.SubscriptExpr).Right }},
}

func trivialExpr(e ast.Expr) bool {
	switch e.(type) {
	case *ast.BasicLit, *ast.Ident:
		return true
	}
	return false
}

// curlyParts checks that the pieces of a name tell whether they are expressions.
func curlyParts(c *Ctx, e ast.Expr) (d string) {
	eachNode(reflect.ValueOf(e), func(n ast.Node) {
		name, ok := n.(*ast.CurlyName)
		if !ok {
			return
		}
		for _, p := range name.Parts {
			_, want := p.(*ast.CurlyNameExpr)
			c.Count("pieces of curly-braces names")
			if got := p.IsCurlyExpr(); got != want {
				d = fmt.Sprintf("IsCurlyExpr() of %T at %s is %v", p, p.Pos(), got)
			}
		}
	})
	return
}

func runP06(c *Ctx, unit int) {
	if unit < 8 {
		opSequences(c, unit, 8)
	}
	n := 250
	for i := 0; i < n; i++ {
		g := newGen(c.R)
		e := g.expr(1, c.R.Range(1, 6))
		if i < 2 {
			var what string
			e, what = g.hugeExpr()
			g.count("very many " + what)
		} else if len(e.t) > 400 {
			continue
		}
		sh := Shape(e.n)
		for k := 0; k < 3; k++ {
			g.start()
			g.emit(e.t)
			src := g.src()
			c.Eval(sh, !trivialExpr(e.n))
			c.Max("max tokens in an expression", int64(len(e.t)))
			c.Add("tokens parsed", len(e.t))
			res := parseExpr(c, src)
			if res.Err != nil || res.Panic != "" || res.Exceeded {
				c.Viol("expression not parsed", res.show()+"\nwant "+Dump(e.n, cmpStruct), src)
			} else if d := Diff(e.n, res.Expr, cmpStruct); d != "" {
				c.Viol("wrong tree", d+"\nwant "+Dump(e.n, cmpStruct)+"\ngot  "+Dump(res.Expr, cmpStruct), src)
			} else if d := curlyParts(c, res.Expr); d != "" {
				c.Viol("the pieces of a curly-braces name", d, src)
			}
			c.Sample(src)
			g.sp = pick(c.R, []float64{0, 0.1, 0.5, 1})
			g.pBreak = pick(c.R, []float64{0, 0, 0.1, 0.4})
		}
		x := exprCtxs[(i+unit)%len(exprCtxs)]
		if x.name == "echon 2" && strings.IndexByte("(-+.<", e.first()) >= 0 {
			continue // would continue the expression before it
		}
		for k := 0; k < 2; k++ {
			g.start()
			g.w.hold++
			for i, l := range strings.Split(x.before, "\n") {
				if i > 0 {
					g.w.eol()
				}
				g.w.put(l)
			}
			g.w.hold--
			g.emit(e.t)
			if x.after != "" && x.after[0] != '\n' && needSpace(&g.prev, &Tok{T: x.after}) {
				g.ws(true)
			}
			src := g.src() + x.after
			c.Eval(sh*31+uint64(k)+uint64(i%len(exprCtxs)), true)
			c.Count("as argument of " + x.name)
			res := parseFile(c, src, i%2 == 1, fname)
			if res.File == nil || res.Err != nil {
				c.Viol("command not parsed", res.show(), src)
				continue
			}
			var got ast.Expr
			if p, _, _ := guarded(100, func() { got = x.get(res.File) }); p != "" {
				c.Viol("expression not found in the statement", Dump(res.File, cmpStruct), src)
				continue
			}
			if d := Diff(e.n, got, cmpStruct); d != "" {
				c.Viol("wrong tree as an argument", d+"\nwant "+Dump(e.n, cmpStruct)+"\ngot  "+Dump(got, cmpStruct), src)
			}
		}
		for k, v := range g.kinds {
			c.Add("generated "+k, v)
		}
	}
}

// precedence of binary operators, from Vim's documentation (expr2 to expr6).
func precOf(op token.Token) int {
	switch {
	case op == token.OROR:
		return 2
	case op == token.ANDAND:
		return 3
	case op >= token.EQEQ && op <= token.ISNOTCS:
		return 4
	case op == token.PLUS || op == token.MINUS || op == token.DOT:
		return 5
	}
	return 6
}

var binOps = append(append([]token.Token{}, cmpOps...), token.OROR, token.ANDAND, token.PLUS, token.MINUS, token.DOT, token.STAR, token.SLASH, token.PERCENT)

// climb builds the tree of operand op operand op ... or nil if two
// comparisons follow each other, which Vim does not allow.
func climb(operands []ast.Expr, ops []token.Token, min int) (e ast.Expr, restO []ast.Expr, restP []token.Token, ok bool) {
	e, operands = operands[0], operands[1:]
	cmp := false
	for len(ops) > 0 && precOf(ops[0]) >= min {
		op := ops[0]
		p := precOf(op)
		if p == 4 {
			if cmp {
				return nil, nil, nil, false
			}
			cmp = true
		}
		var r ast.Expr
		r, operands, ops, ok = climb(operands, ops[1:], p+1)
		if !ok {
			return nil, nil, nil, false
		}
		e = &ast.BinaryExpr{Left: e, Op: op, Right: r}
	}
	return e, operands, ops, true
}

// opSequences parses every sequence of three operands and two operators, with
// and without unary operators and a ternary around it.
func opSequences(c *Ctx, part, parts int) {
	idents := []string{"a", "b", "c", "d"}
	k := 0
	try := func(ops []token.Token, un [4]string, tern int) {
		k++
		if k%parts != part {
			return
		}
		var operands []ast.Expr
		var b strings.Builder
		for i := 0; i <= len(ops); i++ {
			var e ast.Expr = &ast.Ident{Name: idents[i]}
			for j := len(un[i]) - 1; j >= 0; j-- {
				op := map[byte]token.Token{'!': token.NOT, '-': token.MINUS, '+': token.PLUS}[un[i][j]]
				e = &ast.UnaryExpr{Op: op, X: e}
			}
			operands = append(operands, e)
			b.WriteString(un[i] + idents[i])
			if i < len(ops) {
				b.WriteString(" " + opText[ops[i]] + " ")
			}
		}
		want, _, _, ok := climb(operands, ops, 0)
		if !ok {
			return
		}
		src := b.String()
		one := func(n string) ast.Expr { return &ast.Ident{Name: n} }
		switch tern {
		case 1:
			want, src = &ast.TernaryExpr{Condition: want, Left: one("x"), Right: one("y")}, src+" ? x : y"
		case 2:
			want, src = &ast.TernaryExpr{Condition: one("x"), Left: want, Right: one("y")}, "x ? "+src+" : y"
		case 3:
			want, src = &ast.TernaryExpr{Condition: one("x"), Left: one("y"), Right: want}, "x ? y : "+src
		case 4:
			want, src = &ast.TernaryExpr{Condition: one("x"), Left: one("y"), Right: &ast.TernaryExpr{Condition: want, Left: one("p"), Right: one("q")}}, "x ? y : "+src+" ? p : q"
		case 5:
			want, src = &ast.TernaryExpr{Condition: one("x"), Left: &ast.TernaryExpr{Condition: want, Left: one("p"), Right: one("q")}, Right: one("z")}, "x ? "+src+" ? p : q : z"
		}
		c.Eval(hashStr(src), true)
		c.Count("operator sequences")
		res := parseExpr(c, src)
		if res.Err != nil || res.Panic != "" {
			c.Viol("expression not parsed", res.show(), src)
		} else if d := Diff(want, res.Expr, cmpStruct); d != "" {
			c.Viol("wrong precedence or associativity", fmt.Sprintf("%s\nwant %s\ngot  %s", d, Dump(want, cmpStruct), Dump(res.Expr, cmpStruct)), src)
		}
	}
	un := []string{"", "!", "-", "+", "!!", "-+", "!-"}
	for i, p := range binOps {
		for t := 0; t < 6; t++ {
			for _, u := range un {
				for _, v := range un {
					try([]token.Token{p}, [4]string{u, v}, t)
				}
			}
		}
		for j, q := range binOps {
			for t := 0; t < 6; t++ {
				try([]token.Token{p, q}, [4]string{}, t)
			}
			try([]token.Token{p, q}, [4]string{un[(i+j)%7], un[(i*3+j)%7], un[(i+j*5)%7]}, 0)
			for _, r := range []token.Token{token.OROR, token.ANDAND, token.NEQ, token.ISNOTCI, token.MINUS, token.DOT, token.STAR, token.PERCENT} {
				try([]token.Token{p, q, r}, [4]string{}, 0)
			}
		}
	}
}
