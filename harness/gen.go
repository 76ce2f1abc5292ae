package main

import (
	"strings"
	"unicode/utf8"

	"github.com/vim-jp/go-vimlparser/ast"
	"github.com/vim-jp/go-vimlparser/token"
)

// W writes source text and knows the position of every character it writes.
// Between any two characters it may break the line with a continuation.
type W struct {
	b      []byte
	j      []byte // the text without line continuations
	line   int
	bol    int
	ready  bool
	pBreak float64
	r      *Rng
	file   string
	hold   int // > 0: no breaks
	breaks int
}

func newW(r *Rng, file string) *W { return &W{r: r, file: file, line: 1} }

func (w *W) prep() {
	if w.ready {
		return
	}
	w.ready = true
	if w.pBreak == 0 || w.hold > 0 || len(w.b) > 0 && (w.b[len(w.b)-1] == '\r' || w.b[len(w.b)-1] == '\x16') || !w.r.P(w.pBreak) {
		return
	}
	for {
		w.breaks++
		w.b = append(w.b, '\n')
		w.bol = len(w.b)
		w.line++
		for k := w.r.N(7); k > 0; k-- {
			w.b = append(w.b, pick(w.r, []byte{' ', ' ', '\t'}))
		}
		w.b = append(w.b, '\\')
		if !w.r.P(0.12) {
			return
		}
	}
}

// pos is the position of the character written next.
func (w *W) pos() ast.Pos {
	w.prep()
	return ast.Pos{Offset: len(w.b), Line: w.line, Column: len(w.b) - w.bol + 1, Filename: w.file}
}

func (w *W) ppos() *ast.Pos { p := w.pos(); return &p }

func (w *W) put(s string) {
	for len(s) > 0 {
		_, n := utf8.DecodeRuneInString(s)
		w.prep()
		w.b = append(w.b, s[:n]...)
		w.j = append(w.j, s[:n]...)
		w.ready = false
		s = s[n:]
	}
}

func (w *W) eol() {
	w.prep()
	w.b = append(w.b, '\n')
	w.j = append(w.j, '\n')
	w.ready = false
	w.line++
	w.bol = len(w.b)
}

// Token kinds, for deciding where white space is required.
const (
	kOther = iota
	kName
	kKey // the name behind a dot
	kNum
	kBlob
	kSQ
	kCmp
)

const (
	preAny = iota
	preNone
	preMust
)

// Tok is a token of an expression with the position fields which it defines.
type Tok struct {
	T     string
	Pre   int
	K     int
	P     []*ast.Pos
	After []*ast.Pos // the position of the character after the token
}

// Gen generates scripts and expressions together with the AST they stand for.
type Gen struct {
	r   *Rng
	w   *W
	sp  float64 // how often optional white space is written
	uni bool    // multi-byte, invalid and control characters
	// options
	pBreak   float64
	noParens bool
	big      int  // something is very long: see huge.go
	prOnly   bool // only what the printer supports
	ascii    bool // nothing Vim itself could not read
	runs     bool // Vim runs it
	curly    int  // budget of curly-braces names nested in each other

	cur    *[]ast.Statement
	fn     int
	loop   int
	prev   Tok
	budget int
	kinds  map[string]int
	argJ   int  // where the argument of the command begins
	ended  bool // by :finish or :loadkeymap

	neovim       bool
	top          *[]ast.Statement
	depth        int // of expressions
	maxLen       int
	pMod, pRange float64
	pOpt         float64
	pBar         int
	pBlock       int
	pExpr, pLet  int
}

func newGen(r *Rng) *Gen {
	g := &Gen{r: r, kinds: map[string]int{}, curly: 2}
	g.sp = pick(r, []float64{0, 0.2, 0.5, 0.9})
	g.uni = r.P(0.5)
	if r.P(0.5) {
		g.pBreak = pick(r, []float64{0.01, 0.05, 0.3})
	}
	g.start()
	return g
}

// start begins a new text.
func (g *Gen) start() {
	g.w = newW(g.r, fname)
	g.w.pBreak = g.pBreak
	g.argJ = -1
	g.prev = Tok{}
}

// src is the text written so far.
func (g *Gen) src() string { return string(g.w.b) }

func (g *Gen) count(k string) { g.kinds[k]++ }

func (g *Gen) ws(must bool) {
	n := 0
	if must {
		n = 1
	}
	if g.r.P(g.sp * 0.3) {
		n += g.r.Range(1, 3)
	}
	for ; n > 0; n-- {
		g.w.put(pick(g.r, []string{" ", " ", " ", "\t"}))
	}
	if g.big == bigColumn && g.r.P(0.05) {
		g.hugeSpace()
	}
}

func needSpace(p, t *Tok) bool {
	if p.T == "" || t.T == "" {
		return false
	}
	a, b := p.T[len(p.T)-1], t.T[0]
	if isWord(a) && isWord(b) {
		return true
	}
	switch p.K {
	case kName:
		if b == ':' && len(p.T) > 1 && p.T[1] == ':' && strings.IndexByte("vgslabwt", p.T[0]) >= 0 {
			return false // g:x:g:y
		}
		return isName(b) || b == '{'
	case kKey:
		if b == ':' && (len(p.T) > 1 || strings.IndexByte("vgslabwt", p.T[0]) < 0) {
			return false // g:d.key:x
		}
		return isName(b) || b == '{'
	case kNum:
		return b == '.' && (t.T != ".." || strings.Contains(p.T, "."))
	case kBlob:
		return b == '.' || isWord(b)
	case kSQ:
		return b == '\''
	case kCmp:
		return b == '#' || b == '?'
	}
	return false
}

// emit writes tokens.
func (g *Gen) emit(toks []Tok) {
	for i := range toks {
		t := &toks[i]
		must := t.Pre == preMust || t.Pre != preNone && needSpace(&g.prev, t)
		if t.Pre != preNone && len(g.w.j) != g.argJ {
			if must {
				g.ws(true)
			} else if g.r.P(g.sp) {
				g.ws(g.r.P(0.8))
			}
		}
		if len(t.P) > 0 {
			p := g.w.pos()
			for _, x := range t.P {
				*x = p
			}
		}
		g.w.put(t.T)
		if len(t.After) > 0 {
			p := g.w.pos()
			for _, x := range t.After {
				*x = p
			}
		}
		g.prev = *t
	}
}

// ex is a generated expression.
type ex struct {
	t []Tok
	n ast.Expr
}

func (e ex) lambdaLike() bool {
	return len(e.t) > 1 && e.t[0].K == kName && (e.t[1].T == "->" || e.t[1].T == ",")
}

func (e ex) first() byte { return e.t[0].T[0] }

func cat(parts ...any) []Tok {
	var r []Tok
	for _, p := range parts {
		switch x := p.(type) {
		case string:
			r = append(r, Tok{T: x})
		case Tok:
			r = append(r, x)
		case []Tok:
			r = append(r, x...)
		case ex:
			r = append(r, x.t...)
		}
	}
	return r
}

// none marks the first token as one before which no white space may be.
func none(t []Tok) []Tok { t[0].Pre = preNone; return t }

var plainNames = []string{"x", "y", "foo", "bar", "_a", "Foo", "n1", "issue", "isx", "ina", "not", "end", "e", "E1", "SID", "in_", "abcdefghij"}
var scopedNames = []string{"g:x", "s:foo", "a:000", "a:1", "l:v", "v:true", "b:_x", "w:w", "t:t", "foo#bar", "a#b#c", "g:foo#x", "s:_0", "g:", "Foo#Bar"}

func (g *Gen) name() string {
	switch {
	case g.r.P(0.55):
		return pick(g.r, plainNames)
	case g.r.P(0.7):
		return pick(g.r, scopedNames)
	}
	return g.plainName()
}

func (g *Gen) plainName() string {
	const a, b = "abcdefghjklmopqrtuvwxyzABCZ_", "abcxyzABC019_"
	s := string(a[g.r.N(len(a))])
	n := g.r.N(8)
	if g.big == bigWide && g.r.P(0.05) {
		g.big = 0
		n = g.r.Range(256, 70000)
		g.count("very long name")
	}
	for k := n; k > 0; k-- {
		s += string(b[g.r.N(len(b))])
	}
	return s
}

var uniChunks = []string{"é", "日本", "😀", "ß", "\u00a0", "\u3000", "ñ", "\ufeff"}
var rawChunks = []string{"\xff", "\xc3", "\xe3\x81", "\x01", "\x7f", "\x1b", "\xa0", "\xed\xa0\x80", "\v", "\f", "\x00"}

// text makes free text from the given chunks, with odd characters if wanted.
func (g *Gen) text(chunks []string, max int) string {
	var b strings.Builder
	for k := g.r.N(max + 1); k > 0; k-- {
		switch {
		case g.uni && g.r.P(0.15):
			b.WriteString(pick(g.r, uniChunks))
		case g.uni && !g.ascii && g.r.P(0.05):
			b.WriteString(pick(g.r, rawChunks))
		default:
			b.WriteString(pick(g.r, chunks))
		}
	}
	return b.String()
}

var dqChunks = []string{"a", "b", "foo", " ", "\\n", "\\\"", "\\\\", "|", "'", "\\<C-a>", "%d", "%s", "#", "{", "}", "\t", "\\x41", "(", "]", "\\u3042", "//", "1"}
var sqChunks = []string{"a", "b", "foo", " ", "\\", "''", "\"", "|", "%d", "%", "#", "{", "}", "\t", "\\n", ")", "[", ",", "0"}

func (g *Gen) lit() ex {
	b := &ast.BasicLit{}
	t := Tok{P: []*ast.Pos{&b.ValuePos}}
	switch k := g.r.N(100); {
	case k < 34:
		b.Kind, t.K = token.NUMBER, kNum
		b.Value = pick(g.r, []string{"0", "1", "42", "007", "0x1F", "0XaB9", "0b101", "0B0", "1.5", "0.0", "1.5e10", "2.0E-3", "3.25e+7", "123456789012345678901234567890", "08", "1.0"})
	case k < 55:
		b.Kind = token.STRING
		b.Value = `"` + g.text(dqChunks, 6) + `"`
	case k < 76:
		b.Kind, t.K = token.STRING, kSQ
		b.Value = "'" + g.text(sqChunks, 6) + "'"
	case k < 84:
		b.Kind = token.OPTION
		b.Value = pick(g.r, []string{"&ts", "&g:tw", "&l:fo", "&encoding", "&t_Co", "&lines", "&g1"})
	case k < 90:
		b.Kind = token.ENV
		b.Value = pick(g.r, []string{"$HOME", "$A_B1", "$x", "$VIM"})
	case k < 95:
		b.Kind = token.REG
		b.Value = pick(g.r, []string{"@a", "@\"", "@0", "@/", "@+", "@-", "@:", "@@", "@_", "@*", "@%", "@#", "@=", "@.", "@|", "@ "})
		if g.uni && g.r.P(0.1) {
			b.Value = "@é"
		}
	default:
		b.Kind, t.K = token.BLOB, kBlob
		b.Value = pick(g.r, []string{"0z", "0z00", "0zDEADbeef", "0Z0011.2233", "0z01.02", "0zFF00.ED01.5DAF"})
	}
	t.T = b.Value
	return ex{[]Tok{t}, b}
}

func (g *Gen) ident() ex {
	n := &ast.Ident{Name: g.name()}
	return ex{[]Tok{{T: n.Name, K: kName, P: []*ast.Pos{&n.NamePos}}}, n}
}

// curlyName makes a curly-braces name. With lead it may start with a brace.
func (g *Gen) curlyName(d int, lead bool) ex {
	g.count("CurlyName")
	n := &ast.CurlyName{}
	var t []Tok
	litPart := func(s string, pre int) {
		p := &ast.CurlyNameLit{Value: s}
		n.Parts = append(n.Parts, p)
		t = append(t, Tok{T: s, K: kName, Pre: pre, P: []*ast.Pos{&p.CurlyNameLit}})
	}
	exprPart := func(pre int, first bool) {
		p := &ast.CurlyNameExpr{}
		n.Parts = append(n.Parts, p)
		var e ex
		for {
			e = g.expr(1, d-1)
			if !e.lambdaLike() {
				break
			}
		}
		p.Value = e.n
		t = append(t, Tok{T: "{", Pre: pre, After: []*ast.Pos{&p.CurlyNameExpr}})
		t = append(t, e.t...)
		t = append(t, Tok{T: "}", K: kName})
	}
	switch k := g.r.N(10); {
	case k < 2:
		litPart(pick(g.r, []string{"<SID>", "<sid>", "<Sid>"}), preAny)
		if g.r.P(0.6) {
			litPart(pick(g.r, []string{"foo", "_x", "Bar", "a1"}), preNone)
		} else {
			exprPart(preNone, false)
		}
	case k < 5 && lead && g.curly > 0:
		g.curly--
		exprPart(preAny, true)
		g.curly++
	default:
		litPart(g.name(), preAny)
		exprPart(preNone, false)
	}
	for g.r.P(0.4) {
		if _, ok := n.Parts[len(n.Parts)-1].(*ast.CurlyNameLit); !ok && g.r.P(0.6) {
			litPart(pick(g.r, []string{"bar", "_1", "0", "2x", ":y", "#z", "B"}), preNone)
		} else {
			exprPart(preNone, false)
		}
	}
	t[0].P = append(t[0].P, &n.CurlyName)
	return ex{t, n}
}

func (g *Gen) dictLit(d int) ex {
	g.count("literal dict")
	n := &ast.Dict{}
	t := []Tok{{T: "#{", P: []*ast.Pos{&n.Lcurlybrace}}}
	k := g.items(d)
	for i := 0; i < k; i++ {
		key := pick(g.r, []string{"a", "key", "foo-bar", "_x", "12", "A1-2", "is", "-a", "isnot", "b-"})
		b := &ast.BasicLit{Kind: token.STRING, Value: "'" + key + "'"}
		v := g.expr(1, d-1)
		n.Entries = append(n.Entries, ast.KeyValue{Key: b, Value: v.n})
		t = append(t, Tok{T: key, P: []*ast.Pos{&b.ValuePos}}, Tok{T: ":"})
		t = append(t, v.t...)
		if i < k-1 || g.r.P(0.2) {
			t = append(t, Tok{T: ","})
		}
	}
	return ex{append(t, Tok{T: "}"}), n}
}

func (g *Gen) dict(d int) ex {
	g.count("dict")
	n := &ast.Dict{}
	t := []Tok{{T: "{", P: []*ast.Pos{&n.Lcurlybrace}}}
	k := g.items(d)
	for i := 0; i < k; i++ {
		var key ex
		for {
			key = g.expr(1, d-1)
			if i > 0 || !key.lambdaLike() && key.first() != '{' {
				break
			}
		}
		v := g.expr(1, d-1)
		n.Entries = append(n.Entries, ast.KeyValue{Key: key.n, Value: v.n})
		t = append(t, key.t...)
		t = append(t, Tok{T: ":"})
		t = append(t, v.t...)
		if i < k-1 || g.r.P(0.2) {
			t = append(t, Tok{T: ","})
		}
	}
	return ex{append(t, Tok{T: "}"}), n}
}

func (g *Gen) lambda(d int) ex {
	g.count("lambda")
	n := &ast.LambdaExpr{}
	t := []Tok{{T: "{", P: []*ast.Pos{&n.Lcurlybrace}}}
	k := g.r.N(4)
	used := map[string]bool{}
	param := func(s string) {
		p := &ast.Ident{Name: s}
		n.Params = append(n.Params, p)
		t = append(t, Tok{T: s, P: []*ast.Pos{&p.NamePos}})
	}
	for i := 0; i < k; i++ {
		s := g.plainName()
		if used[s] || g.r.P(0.5) {
			s = pick(g.r, []string{"a", "b", "k", "val", "_", "X9"})
		}
		if used[s] {
			continue
		}
		used[s] = true
		if len(n.Params) > 0 {
			t = append(t, Tok{T: ",", Pre: preNone})
		}
		param(s)
	}
	switch {
	case g.r.P(0.15):
		if len(n.Params) > 0 {
			t = append(t, Tok{T: ",", Pre: preNone})
		}
		param("...")
	case len(n.Params) > 0 && g.r.P(0.1):
		t = append(t, Tok{T: ",", Pre: preNone})
	}
	e := g.expr(1, d-1)
	n.Expr = e.n
	return ex{cat(t, "->", e, "}"), n}
}

func (g *Gen) args(d int) ([]ast.Expr, []Tok) {
	var as []ast.Expr
	var t []Tok
	k := g.r.N(4)
	if g.r.P(0.02) {
		k = 20
	}
	for i := 0; i < k; i++ {
		dd := d - 1
		if k > 4 {
			dd = 0
		}
		e := g.expr(1, dd)
		as = append(as, e.n)
		t = append(t, e.t...)
		if i < k-1 || g.r.P(0.15) {
			t = append(t, Tok{T: ","})
		}
	}
	return as, append(t, Tok{T: ")"})
}

func (g *Gen) primary(d int) ex {
	if d <= 0 || g.r.P(0.45) {
		if g.r.P(0.5) {
			return g.ident()
		}
		return g.lit()
	}
	k := g.r.N(100)
	if g.prOnly {
		k = 99
	}
	switch {
	case k < 20:
		g.count("list")
		n := &ast.List{}
		t := []Tok{{T: "[", P: []*ast.Pos{&n.Lsquare}}}
		c := g.items(d)
		for i := 0; i < c; i++ {
			e := g.expr(1, d-1)
			n.Values = append(n.Values, e.n)
			t = append(t, e.t...)
			if i < c-1 || g.r.P(0.2) {
				t = append(t, Tok{T: ","})
			}
		}
		return ex{append(t, Tok{T: "]"}), n}
	case k < 38:
		return g.dict(d)
	case k < 50:
		return g.dictLit(d)
	case k < 64:
		return g.lambda(d)
	case k < 80:
		return g.curlyName(d, true)
	}
	if g.noParens {
		return g.ident()
	}
	g.count("paren")
	n := &ast.ParenExpr{}
	e := g.expr(1, d-1)
	n.X = e.n
	return ex{cat(Tok{T: "(", P: []*ast.Pos{&n.Lparen}}, e, ")"), n}
}

func dotable(n ast.Expr) bool {
	switch n.(type) {
	case *ast.Ident, *ast.CurlyName, *ast.Dict, *ast.SubscriptExpr, *ast.CallExpr, *ast.DotExpr:
		return true
	}
	return false
}

// last8 is the operand which ends the expression.
func last8(n ast.Expr) ast.Expr {
	for {
		switch x := n.(type) {
		case *ast.BinaryExpr:
			n = x.Right
		case *ast.UnaryExpr:
			n = x.X
		case *ast.TernaryExpr:
			n = x.Right
		default:
			return n
		}
	}
}

func (g *Gen) subscript(e ex, d int) ex {
	lb := Tok{T: "[", Pre: preNone}
	if !g.prOnly && g.r.P(0.35) {
		g.count("slice")
		n := &ast.SliceExpr{X: e.n}
		lb.P = []*ast.Pos{&n.Lbrack}
		t := append(e.t, lb)
		if g.r.P(0.7) {
			x := g.expr(1, d-1)
			n.Low = x.n
			t = append(t, x.t...)
		}
		t = append(t, Tok{T: ":"})
		if g.r.P(0.7) {
			x := g.expr(1, d-1)
			n.High = x.n
			t = append(t, x.t...)
		}
		return ex{append(t, Tok{T: "]"}), n}
	}
	g.count("subscript")
	n := &ast.SubscriptExpr{Left: e.n}
	lb.P = []*ast.Pos{&n.Lbrack}
	x := g.expr(1, d-1)
	n.Right = x.n
	return ex{cat(e, lb, x, "]"), n}
}

func (g *Gen) dot(e ex) ex {
	g.count("dot")
	id := &ast.Ident{Name: pick(g.r, []string{"a", "len", "x1", "0", "12", "_p", "is", "name", "K"})}
	n := &ast.DotExpr{Left: e.n, Right: id}
	return ex{append(e.t, Tok{T: ".", Pre: preNone, P: []*ast.Pos{&n.Dot}},
		Tok{T: id.Name, Pre: preNone, K: kKey, P: []*ast.Pos{&id.NamePos}}), n}
}

func (g *Gen) call(e ex, d int) ex {
	g.count("call")
	n := &ast.CallExpr{Fun: e.n}
	as, t := g.args(d)
	n.Args = as
	lp := Tok{T: "(", P: []*ast.Pos{&n.Lparen}}
	switch e.n.(type) {
	case *ast.Ident, *ast.CurlyName:
	default: // white space ends the operand
		lp.Pre = preNone
	}
	return ex{cat(e, lp, t), n}
}

func (g *Gen) postfix(d int) ex {
	e := g.primary(d)
	for d > 0 && g.r.P(0.35) {
		k := g.r.N(10)
		if g.prOnly {
			k = 0
		}
		switch {
		case k < 4:
			e = g.subscript(e, d)
		case k < 6 && dotable(e.n):
			e = g.dot(e)
		case k < 8:
			e = g.call(e, d)
		default:
			g.count("method")
			n := &ast.MethodExpr{Left: e.n}
			var m ex
			switch {
			case g.r.P(0.7):
				m = g.ident()
			case g.r.P(0.5):
				m = g.lambda(d - 1)
			default:
				m = g.curlyName(d-1, false)
			}
			n.Method = m.n
			as, t := g.args(d)
			n.Args = as
			e = ex{cat(e, "->", m, Tok{T: "(", P: []*ast.Pos{&n.Lparen}}, t), n}
		}
		d--
	}
	return e
}

var cmpOps = []token.Token{
	token.EQEQ, token.EQEQCI, token.EQEQCS, token.NEQ, token.NEQCI, token.NEQCS, token.GT, token.GTCI, token.GTCS,
	token.GTEQ, token.GTEQCI, token.GTEQCS, token.LT, token.LTCI, token.LTCS, token.LTEQ, token.LTEQCI, token.LTEQCS,
	token.MATCH, token.MATCHCI, token.MATCHCS, token.NOMATCH, token.NOMATCHCI, token.NOMATCHCS,
	token.IS, token.ISCI, token.ISCS, token.ISNOT, token.ISNOTCI, token.ISNOTCS,
}

// opText is what the operators are written like; it is not taken from the
// token package, whose texts are among the things to be checked.
var opText = map[token.Token]string{
	token.OROR: "||", token.ANDAND: "&&",
	token.EQEQ: "==", token.EQEQCI: "==?", token.EQEQCS: "==#", token.NEQ: "!=", token.NEQCI: "!=?", token.NEQCS: "!=#",
	token.GT: ">", token.GTCI: ">?", token.GTCS: ">#", token.GTEQ: ">=", token.GTEQCI: ">=?", token.GTEQCS: ">=#",
	token.LT: "<", token.LTCI: "<?", token.LTCS: "<#", token.LTEQ: "<=", token.LTEQCI: "<=?", token.LTEQCS: "<=#",
	token.MATCH: "=~", token.MATCHCI: "=~?", token.MATCHCS: "=~#", token.NOMATCH: "!~", token.NOMATCHCI: "!~?", token.NOMATCHCS: "!~#",
	token.IS: "is", token.ISCI: "is?", token.ISCS: "is#", token.ISNOT: "isnot", token.ISNOTCI: "isnot?", token.ISNOTCS: "isnot#",
	token.PLUS: "+", token.MINUS: "-", token.DOT: ".", token.STAR: "*", token.SLASH: "/", token.PERCENT: "%", token.NOT: "!",
}

func (g *Gen) binary(l ex, op token.Token, r ex) ex {
	if op == token.DOT && floatFirst(r.t) {
		// . 1.2 would be . 1 . 2
		if g.prOnly {
			op = token.PLUS
		} else {
			p := &ast.ParenExpr{X: r.n}
			r = ex{cat(Tok{T: "(", P: []*ast.Pos{&p.Lparen}}, r, ")"), p}
		}
	}
	n := &ast.BinaryExpr{Left: l.n, Op: op, Right: r.n}
	t := Tok{T: opText[op], P: []*ast.Pos{&n.OpPos}}
	switch {
	case op >= token.EQEQ && op <= token.ISNOTCS:
		t.K = kCmp
	case op == token.DOT:
		if g.r.P(0.5) {
			t.T = ".."
		} else if dotable(last8(l.n)) {
			t.Pre = preMust
		}
	}
	g.count("op " + opText[op])
	return ex{cat(l, t, r), n}
}

// floatFirst is whether the first operand, without its signs, is a Float.
func floatFirst(t []Tok) bool {
	for len(t) > 1 && (t[0].T == "-" || t[0].T == "+" || t[0].T == "!") {
		t = t[1:]
	}
	return t[0].K == kNum && strings.Contains(t[0].T, ".")
}

// signed puts a sign in front of an operand: a number takes it before what
// follows the number does.
func signed(u *ast.UnaryExpr, x ast.Expr) ast.Expr {
	u.X = x
	if u.Op == token.NOT {
		return u
	}
	at := &x
	for {
		switch n := (*at).(type) {
		case *ast.SubscriptExpr:
			at = &n.Left
			continue
		case *ast.SliceExpr:
			at = &n.X
			continue
		case *ast.CallExpr:
			at = &n.Fun
			continue
		case *ast.MethodExpr:
			at = &n.Left
			continue
		case *ast.DotExpr:
			at = &n.Left
			continue
		case *ast.UnaryExpr:
			if at == &x {
				return u
			}
		case *ast.BasicLit:
			if n.Kind != token.NUMBER {
				return u
			}
		default:
			return u
		}
		break
	}
	if at == &x {
		return u
	}
	u.X = *at
	*at = u
	return x
}

// expr makes an expression of the level: 1 ternary, 2 ||, 3 &&, 4 comparison,
// 5 additive, 6 multiplicative, 7 unary, 8 postfix.
func (g *Gen) expr(level, d int) ex {
	if d <= 0 {
		level = 8
	}
	switch level {
	case 1:
		if !g.prOnly && g.r.P(0.12) {
			g.count("ternary")
			n := &ast.TernaryExpr{}
			c, l, r := g.expr(2, d-1), g.expr(1, d-1), g.expr(1, d-1)
			n.Condition, n.Left, n.Right = c.n, l.n, r.n
			return ex{cat(c, Tok{T: "?", P: []*ast.Pos{&n.Ternary}}, l, ":", r), n}
		}
		return g.expr(2, d)
	case 2, 3:
		e := g.expr(level+1, d)
		for g.r.P(0.1) {
			e = g.binary(e, []token.Token{token.OROR, token.ANDAND}[level-2], g.expr(level+1, d-1))
		}
		return e
	case 4:
		e := g.expr(5, d)
		if g.r.P(0.15) {
			e = g.binary(e, pick(g.r, cmpOps), g.expr(5, d-1))
		}
		return e
	case 5:
		e := g.expr(6, d)
		for g.r.P(0.15) {
			e = g.binary(e, pick(g.r, []token.Token{token.PLUS, token.MINUS, token.DOT, token.DOT}), g.expr(6, d-1))
		}
		return e
	case 6:
		e := g.expr(7, d)
		for g.r.P(0.1) {
			e = g.binary(e, pick(g.r, []token.Token{token.STAR, token.SLASH, token.PERCENT}), g.expr(7, d-1))
		}
		return e
	case 7:
		if g.r.P(0.12) {
			n := &ast.UnaryExpr{Op: pick(g.r, []token.Token{token.NOT, token.MINUS, token.PLUS})}
			g.count("unary " + opText[n.Op])
			e := g.expr(7, d-1)
			t := cat(Tok{T: opText[n.Op], P: []*ast.Pos{&n.OpPos}}, e)
			return ex{t, signed(n, e.n)}
		}
	}
	return g.postfix(d)
}
