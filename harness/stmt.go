package main

import (
	"strconv"
	"strings"

	"github.com/vim-jp/go-vimlparser/ast"
	"github.com/vim-jp/go-vimlparser/token"
)

// The generator of scripts: it writes a script and at the same time builds
// the AST the script stands for, with all positions and extra arguments.

// head is the part of a command before its name.
type head struct {
	ea    ast.ExArg
	j0    int // where the command begins in the joined text
	first bool
	kind  int
}

const (
	rangeNone   = iota
	rangePlain  // tokens were written
	rangeClosed // a colon follows them or they end with %
)

const suffixes = " !|\"([-+.\n/1"

// nameOK tells whether text selects the command wherever it is written.
func (g *Gen) nameOK(c *CmdInfo, s string) bool {
	if m := modifierOf(s); m != "" && c.Name != "hide" && c.Name != "filter" {
		return false
	}
	if s == "tab" {
		return false
	}
	for i := -1; i < len(suffixes); i++ {
		t := s
		if i >= 0 {
			t += suffixes[i : i+1]
			if suffixes[i] == '\n' {
				t = s
			}
			if suffixes[i] == '1' {
				if strings.HasPrefix(s, "py") {
					continue
				}
				t = s + " xyz"
			}
		}
		r, n := resolve(t, g.neovim)
		if r == nil || r.Name != c.Name || r.Flags != c.Flags || r.Parser != c.Parser || n != len(s) {
			return false
		}
	}
	return true
}

type abbrevKey struct {
	c      *CmdInfo
	neovim bool
}

var abbrevCache = map[abbrevKey][]string{}

// abbrevs are the names of the command.
func (g *Gen) abbrevs(c *CmdInfo) []string {
	key := abbrevKey{c, g.neovim}
	if a, ok := abbrevCache[key]; ok {
		return a
	}
	a := []string{}
	for n := max(1, c.Min); n <= len(c.Name); n++ {
		if s := c.Name[:n]; g.nameOK(c, s) {
			a = append(a, s)
		}
	}
	abbrevCache[key] = a
	return a
}

func (g *Gen) abbrev(c *CmdInfo) string {
	a := g.abbrevs(c)
	switch k := g.r.N(10); {
	case len(a) == 0:
		return ""
	case k < 4:
		return a[len(a)-1]
	case k < 7:
		return a[0]
	}
	if s := pick(g.r, a); s != "final" || !g.runs { // see :help :final
		return s
	}
	return c.Name
}

var cmdByName = map[string]*CmdInfo{}
var genericCmds [2][]*CmdInfo // parse_cmd_common commands of Vim and Neovim mode
var interesting [2][]*CmdInfo // with options or special rules

func init() {
	for _, c := range builtins {
		if cmdByName[c.Name] == nil {
			cmdByName[c.Name] = c
		}
	}
	for m := 0; m < 2; m++ {
		g := &Gen{neovim: m == 1}
		seen := map[string]bool{}
		add := func(c *CmdInfo) {
			if c.Parser != "parse_cmd_common" || seen[c.Name] || len(g.abbrevs(c)) == 0 {
				return
			}
			seen[c.Name] = true
			genericCmds[m] = append(genericCmds[m], c)
			switch c.Name {
			case "!", "@", "*", "<", ">", "redir", "read", "write", "update", "vimgrep", "lvimgrep", "substitute", "global", "normal",
				"vimgrepadd", "lvimgrepadd", "k", "edit", "map", "command", "autocmd", "set", "hide", "delete", "wq", "args", "menu", "grep":
				interesting[m] = append(interesting[m], c)
			}
		}
		if m == 1 {
			for _, c := range nvimAdd {
				add(c)
			}
		}
		for _, c := range builtins {
			add(c)
		}
	}
}

func (g *Gen) mode() int {
	if g.neovim {
		return 1
	}
	return 0
}

func cmdOf(c *CmdInfo) *ast.Cmd {
	return &ast.Cmd{Name: c.Name, Minlen: c.Min, Flags: c.Flags, Parser: c.Parser}
}

// wsc writes white space and colons.
func (g *Gen) wsc() {
	for g.r.P(g.sp * 0.4) {
		g.w.put(pick(g.r, []string{" ", "  ", "\t", ":", ": ", " :"}))
	}
}

// lineStart tells whether nothing but white space is on the logical line.
func (g *Gen) lineStart() bool {
	j := g.w.j
	for i := len(j) - 1; i >= 0; i-- {
		switch j[i] {
		case '\n':
			return true
		case ' ', '\t':
		default:
			return false
		}
	}
	return true
}

// needCmd says what follows the head: a command with this name ("" for none).
func (g *Gen) head(name string) *head {
	h := &head{first: true}
	g.wsc()
	var bs bool // a range which begins with a backslash
	var mods []string
	nm := 0
	if g.r.P(g.pMod) {
		nm = g.r.Range(1, 3)
	}
	for i := 0; i < nm; i++ {
		mods = append(mods, pick(g.r, modTable).Name)
	}
	useRange := g.r.P(g.pRange) && name != "!" || name == "*" || g.r.P(g.pRange) && name == "!"
	if name == "" && nm == 0 {
		useRange = true
	}
	if l := len(mods) - 1; name == "" && !useRange && (mods[l] == "hide" || mods[l] == "filter") {
		mods[l] = "keepalt" // :hide and :filter alone are commands
	}
	if useRange && nm == 0 && g.lineStart() {
		bs = true
		g.w.put(":")
	}
	_ = bs
	lp := g.w.ppos()
	h.ea.Linepos = lp
	h.j0 = len(g.w.j)
	h.ea.Modifiers = []interface{}{}
	for i, m := range mods {
		g.count("modifier " + m)
		min := 0
		for _, t := range modTable {
			if t.Name == m {
				min = t.Min
			}
		}
		word := m[:g.r.Range(min, len(m))]
		if modifierOf(word) != m {
			word = m
		}
		mm := map[string]interface{}{"name": m}
		switch m {
		case "tab", "verbose":
			if m == "verbose" {
				mm["count"] = 1
			}
			if g.r.P(0.5) {
				n := pick(g.r, []int{0, 1, 9, 15, 123456})
				mm["count"] = n
				s := strconv.Itoa(n)
				if g.r.P(0.1) {
					s = "0" + s
				}
				g.w.put(s)
				g.ws(false)
			}
		}
		g.w.put(word)
		sep := true
		if m == "silent" {
			mm["bang"] = 0
			if g.r.P(0.4) {
				mm["bang"] = 1
				g.w.put("!")
				sep = false
			}
		}
		if m == "filter" {
			p := pick(g.r, []string{"/x/", "/a|b/", "#\"#", "/[/|]/g", "?a\\?b?jg", "+x+", "foo", "_x|\"", "9"})
			mm["bang"] = 0
			if g.r.P(0.3) {
				mm["bang"] = 1
				g.w.put("!")
				g.ws(false)
			} else {
				g.ws(isWord(p[0]))
			}
			mm["pattern"] = p
			g.w.put(p)
		}
		h.ea.Modifiers = append(h.ea.Modifiers, mm)
		last := i == len(mods)-1
		switch {
		case last && name == "" && !useRange:
			if m == "hide" {
				panic("hide")
			}
			if g.r.P(0.3) {
				g.ws(true)
			}
		case m == "hide" || m == "filter" || sep && !(last && (useRange || name != "" && !isAlpha(name[0]) && name[0] != '!')):
			g.ws(true)
			if m != "hide" && m != "filter" {
				g.wsc()
			}
		default:
			g.ws(false)
			g.wsc()
		}
	}
	h.ea.Range = []interface{}{}
	if useRange {
		g.rangeToks(h, name)
	}
	if name == "*" && h.kind != rangeClosed {
		g.w.put(":")
	}
	if useRange {
		g.wsc()
	}
	h.ea.Cmdpos = g.w.ppos()
	return h
}

var rangePats = []string{"foo", "[a:alpha:]", "[x=a=]", "[-.b.]", "[a[=b=]/]", "[[.x.]?/]", "[[:x]", "^a", "\\/", "x?", "[/]", "[^]/?]", "a b", "|", "\"", "\\\\", "[[:alpha:]/]", "$", "*", "é"}

func (g *Gen) rangeToks(h *head, name string) {
	var ts []interface{}
	digitEnd := false
	ws := func(must bool) {
		if len(ts) > 0 || must {
			g.ws(must)
		}
	}
	tok := func(t string) {
		ws(digitEnd && isDigit(t[0]))
		g.w.put(t)
		ts = append(ts, t)
		digitEnd = isDigit(t[len(t)-1]) || t == "+" || t == "-"
	}
	pat := func(d string) {
		ws(false)
		p := ""
		for k := g.r.N(4); k > 0; k-- {
			c := pick(g.r, rangePats)
			if g.ascii && c == "é" {
				continue
			}
			if d == "?" && c == "x?" {
				c = "x\\?"
			}
			p += c
		}
		g.w.put(d + p + d)
		ts = append(ts, p)
		digitEnd = false
	}
	segs := 1 + g.r.N(3)
	for i := 0; i < segs; i++ {
		h.kind = rangePlain
		any := false
		for {
			any = true
			switch k := g.r.N(12); {
			case k < 1:
				tok(".")
			case k < 2:
				tok("$")
			case k < 4:
				m := pick(g.r, []string{"a", "z", "<", ">", "'", "[", "]", "\"", "A", "0", "|", "^"})
				tok("'" + m)
				digitEnd = false
			case k < 5:
				pat("/")
			case k < 6:
				pat("?")
			case k < 7:
				ws(false)
				t := pick(g.r, []string{"\\/", "\\?", "\\&"})
				g.w.put(t)
				ts = append(ts, t)
				digitEnd = false
			case k < 10:
				tok(pick(g.r, []string{"1", "0", "42", "007", "123456789012345678901"}))
			default:
				any = false
			}
			for g.r.P(0.25) {
				any = true
				tok(pick(g.r, []string{"+1", "-2", "+", "-", "+05", "3", "-10"}))
			}
			if !g.r.P(0.15) {
				break
			}
			pat(pick(g.r, []string{"/", "?"}))
			for g.r.P(0.25) {
				tok(pick(g.r, []string{"+1", "-2", "+", "-"}))
			}
			if true {
				break
			}
		}
		if !any && (i == segs-1 || g.r.P(0.5)) {
			tok(pick(g.r, []string{"%", "%", "*"}))
			h.kind = rangeClosed
		}
		if i < segs-1 || g.r.P(0.05) {
			if t := pick(g.r, []string{",", ",", ";"}); h.kind == rangeClosed { // no white space
				g.w.put(t)
				ts = append(ts, t)
			} else {
				tok(t)
			}
			h.kind = rangePlain
		}
	}
	h.ea.Range = ts
	g.count("range")
	// Nothing that could continue the range may follow.
	g.ws(false)
	if name == "*" {
		g.w.put(":")
		h.kind = rangeClosed
	}
}

// name writes the name of the command, the bang and the white space after it,
// and sets the position of the argument. arg is the first byte of the
// argument, 0 if unknown.
func (g *Gen) cmdName(h *head, c *CmdInfo, name string, bang bool, arg byte) {
	h.ea.Cmd = cmdOf(c)
	g.count("command " + c.Name)
	g.w.put(name)
	if bang {
		g.w.put("!")
		h.ea.Forceit = true
	}
	if c.Name != "!" {
		must := !bang && isWord(name[len(name)-1]) && (arg == 0 || isWord(arg) || arg == '!' || arg >= 0x80) || arg == '!' || bang && arg == '!'
		if !isWord(name[len(name)-1]) {
			must = arg == '!'
		}
		g.ws(must)
	}
	h.ea.Argpos = g.w.ppos()
	g.argJ = len(g.w.j)
	g.prev = Tok{}
}

// tws writes white space after an argument; where there is no argument the
// white space before it is all there is.
func (g *Gen) tws() {
	if len(g.w.j) > g.argJ {
		g.ws(false)
	}
}

const (
	tBar     = 1
	tComment = 2
	tAll     = 3
	tEOL     = 0
)

// term ends a command: with a bar, the end of the line or a comment.
func (g *Gen) term(flags int) {
	k := g.r.N(100)
	switch {
	case flags&tBar != 0 && k < g.pBar:
		g.tws()
		g.w.put("|")
		g.count("bar")
		return
	case flags&tComment != 0 && k >= 85:
		g.tws()
		g.comment()
		return
	}
	if flags != 0 {
		g.tws()
	}
	g.w.eol()
}

var commentChunks = []string{"a", "foo", " ", "|", "\"", "'", "\\", "\\n", "%d", "#", "{{{", "\t", "endif", ":", "!", "(", "vim: set ft=vim:"}

func (g *Gen) comment() {
	c := &ast.Comment{Quote: g.w.pos()}
	c.Text = g.text(commentChunks, 6)
	g.w.put("\"" + c.Text)
	g.w.eol()
	*g.cur = append(*g.cur, c)
	g.count("comment")
}

// body line: a line of a heredoc, script or :append.
func (g *Gen) bodyLine(not ...string) string {
	for {
		s := g.text([]string{"a", "foo", " ", "\t", "|", "\"", "'", "echo 1", ".", "EOF", "\\", "endfunction", "%s", ":", "<<", "let x = 1", "  "}, 5)
		ok := !strings.HasPrefix(strings.TrimLeft(s, " \t"), "\\")
		for _, n := range not {
			if s == n {
				ok = false
			}
		}
		if ok {
			return s
		}
	}
}

func (g *Gen) add(s ast.Statement) { *g.cur = append(*g.cur, s) }

// command writes head, name and white space before an argument.
func (g *Gen) command(name string, bang bool, arg byte) (*head, bool) {
	c := cmdByName[name]
	a := g.abbrev(c)
	if a == "" {
		return nil, false
	}
	if bang && !c.Has("BANG") && name != "endfunction" {
		bang = false
	}
	h := g.head(a)
	g.cmdName(h, c, a, bang, arg)
	return h, true
}

func (g *Gen) exprTok(min int) ex { return g.expr(1, g.r.N(g.depth)+min) }

func firstByte(t []Tok) byte {
	if len(t) == 0 {
		return 0
	}
	return t[0].T[0]
}

var varNames = []string{"is#foo", "isnot#bar", "is", "isnot", "g:x", "s:foo", "l:v", "v:true", "b:_x", "w:w", "t:t", "foo#bar", "a#b#c", "g:foo#x", "s:_0", "a:x", "g:"}

// lvalue makes something :let can assign to.
func (g *Gen) lvalue(d int, constant bool, sid bool) ex {
	var e ex
	ident := func() ex {
		n := &ast.Ident{Name: pick(g.r, plainNames)}
		if g.r.P(0.4) {
			n.Name = pick(g.r, varNames)
		}
		return ex{[]Tok{{T: n.Name, K: kName, P: []*ast.Pos{&n.NamePos}}}, n}
	}
	for {
		k := g.r.N(20)
		switch {
		case k < 14:
			e = ident()
		case k < 16:
			e = g.curlyName(d, true)
			if !sid && e.t[0].T[0] == '<' {
				continue
			}
		case constant:
			e = ident()
		default:
			e = g.lit()
			switch e.n.(*ast.BasicLit).Kind {
			case token.OPTION, token.ENV, token.REG:
			default:
				continue
			}
			return e
		}
		break
	}
	if constant {
		return e
	}
	for g.r.P(0.3) {
		if g.r.P(0.6) || !dotable(e.n) {
			e = g.subscript(e, d)
		} else {
			e = g.dot(e)
		}
	}
	return e
}

func (g *Gen) lhs(constant bool) (left ast.Expr, list []ast.Expr, rest ast.Expr, t []Tok) {
	if !g.r.P(0.25) {
		e := g.lvalue(2, constant, true)
		return e.n, nil, nil, e.t
	}
	g.count("list of lvalues")
	t = []Tok{{T: "["}}
	for k := g.r.Range(1, 4); k > 0; k-- {
		e := g.lvalue(2, false, true)
		list = append(list, e.n)
		t = append(t, e.t...)
		if k > 1 {
			t = append(t, Tok{T: ","})
		}
	}
	if g.r.P(0.3) {
		e := g.lvalue(2, false, true)
		rest = e.n
		t = cat(t, ";", e)
	}
	return nil, list, rest, append(t, Tok{T: "]"})
}

// exprs makes a list of expressions as :echo takes it.
func (g *Gen) exprs() ([]ast.Expr, []Tok) {
	var es []ast.Expr
	var t []Tok
	for k := pick(g.r, []int{0, 1, 1, 1, 2, 3}); k > 0; k-- {
		e := g.exprTok(0)
		if len(es) > 0 {
			if strings.IndexByte("-+.<", e.first()) >= 0 {
				continue
			}
			if e.first() == '(' {
				// it is a call after a name, white space or not
				if l := t[len(t)-1].T; l == "" || strings.IndexByte("])\"'", l[len(l)-1]) < 0 {
					continue
				}
				g.count("parenthesis behind an expression")
			}
			e.t[0].Pre = preMust
		}
		es = append(es, e.n)
		t = append(t, e.t...)
	}
	return es, t
}

// stmt writes one statement and what ends it. It returns false if it could
// not write anything.
func (g *Gen) stmt(d int) {
	if g.big == bigLines && g.r.P(0.3) {
		g.hugeLines()
	}
	k := g.r.N(100)
	switch {
	case k < g.pBlock && d > 0:
		switch g.r.N(5) {
		case 0:
			g.ifStmt(d)
		case 1:
			g.whileStmt(d)
		case 2:
			g.forStmt(d)
		case 3:
			g.tryStmt(d)
		case 4:
			g.funcStmt(d)
		}
	case k < g.pBlock+g.pExpr:
		g.exprStmt()
	case k < g.pBlock+g.pExpr+g.pLet:
		g.letStmt()
	case k < 96:
		g.generic()
	default:
		g.odd()
	}
}

func (g *Gen) generic() {
	switch k := g.r.N(20); {
	case k < 8:
		g.genericCmd(pick(g.r, genericCmds[g.mode()]))
	case k < 13:
		g.genericCmd(pick(g.r, interesting[g.mode()]))
	case k < 15:
		g.userCmd()
	case k < 16:
		g.alone()
	case k < 17:
		g.syntaxCmd()
	case k < 18:
		g.wincmd()
	case k < 19:
		g.echohl()
	default:
		g.scriptCmd()
	}
}

// odd are lines without a command, and rare things.
func (g *Gen) odd() {
	switch g.r.N(5) {
	case 0:
		if g.lineStart() {
			if len(g.w.j) > 0 && g.w.j[len(g.w.j)-1] != '\n' {
				g.w.eol()
			}
			g.w.put("#!" + g.text([]string{"/usr/bin/vim", " ", "|", "\""}, 3))
		}
		g.w.eol()
	case 1:
		g.wsc()
		g.w.eol()
	default:
		g.wsc()
		g.comment()
	}
}

func (g *Gen) finishTop() {
	h, ok := g.command("finish", false, ' ')
	if !ok {
		return
	}
	g.add(&ast.Excmd{Excmd: *h.ea.Cmdpos, ExArg: h.ea, Command: string(g.w.j[h.j0:])})
	g.count("finish")
	g.w.eol()
	for k := g.r.N(4); k > 0; k-- {
		g.w.put(g.bodyLine())
		g.w.eol()
	}
	g.ended = true
}

func (g *Gen) keymapTop() {
	h, ok := g.command("loadkeymap", false, ' ')
	if !ok {
		return
	}
	g.w.eol()
	for k := g.r.N(4); k > 0; k-- {
		g.w.put(g.bodyLine())
		g.w.eol()
	}
	g.add(&ast.Excmd{Excmd: *h.ea.Cmdpos, ExArg: h.ea, Command: strings.TrimSuffix(string(g.w.j[h.j0:]), "\n")})
	g.count("loadkeymap")
	g.ended = true
}

// stmts writes statements into the body.
func (g *Gen) stmts(body *[]ast.Statement, n, d int) {
	old := g.cur
	g.cur = body
	for ; n > 0 && len(g.w.b) < g.maxLen; n-- {
		g.stmt(d)
	}
	g.cur = old
}

func (g *Gen) body(body *[]ast.Statement, d int, term int) {
	old := g.cur
	g.cur = body
	if *body == nil {
		*body = []ast.Statement{}
	}
	g.term(term)
	n := g.r.N(4)
	for ; n > 0 && len(g.w.b) < g.maxLen; n-- {
		g.stmt(d - 1)
	}
	g.cur = old
}

func (g *Gen) ifStmt(d int) {
	e := g.exprTok(0)
	h, ok := g.command("if", false, firstByte(e.t))
	if !ok {
		return
	}
	n := &ast.If{If: *h.ea.Cmdpos, ExArg: h.ea, Condition: e.n}
	g.emit(e.t)
	g.add(n)
	g.body(&n.Body, d, tAll)
	for g.r.P(0.3) {
		e := g.exprTok(0)
		h, _ := g.command("elseif", false, firstByte(e.t))
		x := &ast.ElseIf{ElseIf: *h.ea.Cmdpos, ExArg: h.ea, Condition: e.n}
		g.emit(e.t)
		n.ElseIf = append(n.ElseIf, x)
		g.body(&x.Body, d, tAll)
	}
	if g.r.P(0.3) {
		h, _ := g.command("else", false, ' ')
		n.Else = &ast.Else{Else: *h.ea.Cmdpos, ExArg: h.ea}
		g.body(&n.Else.Body, d, tAll)
	}
	h, _ = g.command("endif", false, ' ')
	n.EndIf = &ast.EndIf{EndIf: *h.ea.Cmdpos, ExArg: h.ea}
	g.term(tAll)
}

func (g *Gen) whileStmt(d int) {
	e := g.exprTok(0)
	h, ok := g.command("while", false, firstByte(e.t))
	if !ok {
		return
	}
	n := &ast.While{While: *h.ea.Cmdpos, ExArg: h.ea, Condition: e.n}
	g.emit(e.t)
	g.add(n)
	g.loop++
	g.body(&n.Body, d, tAll)
	g.loop--
	h, _ = g.command("endwhile", false, ' ')
	n.EndWhile = &ast.EndWhile{EndWhile: *h.ea.Cmdpos, ExArg: h.ea}
	g.term(tAll)
}

func (g *Gen) forStmt(d int) {
	n := &ast.For{}
	l, list, rest, t := g.lhs(false)
	n.Left, n.List, n.Rest = l, list, rest
	e := g.exprTok(0)
	n.Right = e.n
	h, ok := g.command("for", false, firstByte(t))
	if !ok {
		return
	}
	n.For, n.ExArg = *h.ea.Cmdpos, h.ea
	g.emit(t)
	g.emit([]Tok{{T: "in", K: kName}})
	g.emit(e.t)
	g.add(n)
	g.loop++
	g.body(&n.Body, d, tAll)
	g.loop--
	h, _ = g.command("endfor", false, ' ')
	n.EndFor = &ast.EndFor{EndFor: *h.ea.Cmdpos, ExArg: h.ea}
	g.term(tAll)
}

var catchPats = []string{"E123", "[a:alpha:]", "[x=a=]", "[-.b.]", "[a[=b=]/]", "[[.x.]/|]", "[[:x]", "[^[:digit:]/]", "^Vim", ".*", "(", ")", ":", "\\/", "\\\\", "[/]", "[]/]", "[^]/]", "]", "[[]", "|", "\"", " ", "a"}

func (g *Gen) tryStmt(d int) {
	h, ok := g.command("try", false, ' ')
	if !ok {
		return
	}
	n := &ast.Try{Try: *h.ea.Cmdpos, ExArg: h.ea}
	g.add(n)
	g.body(&n.Body, d, tAll)
	for g.r.P(0.6) {
		delim := pick(g.r, []string{"/", "/", "/", ",", "#", "+", "%"})
		pat, has := "", g.r.P(0.7)
		arg := byte(' ')
		if has {
			arg = delim[0]
			for k := g.r.N(5); k > 0; k-- {
				s := pick(g.r, catchPats)
				if g.uni && g.r.P(0.1) {
					s = pick(g.r, uniChunks)
				}
				pat += s
			}
		}
		h, _ := g.command("catch", false, arg)
		c := &ast.Catch{Catch: *h.ea.Cmdpos, ExArg: h.ea, Pattern: pat}
		flags := tAll
		if has {
			g.w.put(delim + pat)
			if g.r.P(0.1) {
				flags = -1 // no delimiter: the end of the line ends it
			} else {
				g.w.put(delim)
			}
		}
		n.Catch = append(n.Catch, c)
		if flags == -1 {
			c.Body = []ast.Statement{}
			g.w.eol()
			g.stmts(&c.Body, g.r.N(3), d-1)
		} else {
			g.body(&c.Body, d, flags)
		}
	}
	if g.r.P(0.4) {
		h, _ := g.command("finally", false, ' ')
		n.Finally = &ast.Finally{Finally: *h.ea.Cmdpos, ExArg: h.ea}
		g.body(&n.Finally.Body, d, tAll)
	}
	h, _ = g.command("endtry", false, ' ')
	n.EndTry = &ast.EndTry{EndTry: *h.ea.Cmdpos, ExArg: h.ea}
	g.term(tAll)
}

// funcName makes the name of a function.
func (g *Gen) funcName() ex {
	switch k := g.r.N(10); {
	case k < 6:
		n := &ast.Ident{Name: pick(g.r, []string{"Foo", "s:foo", "g:F", "foo#bar", "a#b#c", "_x", "F1", "Foo#Bar", "X_y9", "b:f"})}
		return ex{[]Tok{{T: n.Name, K: kName, P: []*ast.Pos{&n.NamePos}}}, n}
	case k < 8:
		n := &ast.Ident{Name: pick(g.r, []string{"d", "s:d", "self", "Dict"})}
		e := ex{[]Tok{{T: n.Name, K: kName, P: []*ast.Pos{&n.NamePos}}}, n}
		for {
			if g.r.P(0.7) {
				e = g.dot(e)
			} else {
				for {
					s := g.subscript(e, 2)
					if _, ok := s.n.(*ast.SubscriptExpr); ok {
						e = s
						break
					}
				}
			}
			if g.r.P(0.7) {
				return e
			}
		}
	}
	return g.curlyName(2, true)
}

func (g *Gen) funcStmt(d int) {
	name := g.funcName()
	n := &ast.Function{Name: name.n}
	t := append(name.t, Tok{T: "("})
	used := map[string]bool{}
	np := g.r.N(4)
	if g.r.P(0.02) {
		np = 25
	}
	deflt := false
	for i := 0; i < np; i++ {
		s := g.plainName()
		if g.r.P(0.5) {
			s = pick(g.r, []string{"a", "b", "self_", "x1", "X", "_"})
		}
		if used[s] || s == "firstline" || s == "lastline" {
			continue
		}
		used[s] = true
		if len(n.Params) > 0 {
			t = append(t, Tok{T: ",", Pre: preNone})
		}
		p := &ast.Ident{Name: s}
		n.Params = append(n.Params, p)
		t = append(t, Tok{T: s, P: []*ast.Pos{&p.NamePos}})
		if deflt || g.r.P(0.2) {
			deflt = true
			e := g.exprTok(0)
			n.DefaultArgs = append(n.DefaultArgs, e.n)
			t = cat(t, "=", e)
		}
	}
	switch {
	case g.r.P(0.2):
		if len(n.Params) > 0 {
			t = append(t, Tok{T: ",", Pre: preNone})
		}
		p := &ast.Ident{Name: "..."}
		n.Params = append(n.Params, p)
		t = append(t, Tok{T: "...", P: []*ast.Pos{&p.NamePos}})
	case len(n.Params) > 0 && g.r.P(0.1):
		t = append(t, Tok{T: ",", Pre: preNone})
	}
	t = append(t, Tok{T: ")"})
	for g.r.P(0.4) {
		s := pick(g.r, []string{"range", "abort", "dict", "closure"})
		switch s {
		case "range":
			n.Attr.Range = true
		case "abort":
			n.Attr.Abort = true
		case "dict":
			n.Attr.Dict = true
		case "closure":
			n.Attr.Closure = true
		}
		t = append(t, Tok{T: s, K: kName})
	}
	h, ok := g.command("function", g.r.P(0.4), firstByte(t))
	if !ok {
		return
	}
	n.Func, n.ExArg = *h.ea.Cmdpos, h.ea
	g.emit(t)
	g.add(n)
	loop := g.loop
	g.loop = 0
	g.fn++
	g.body(&n.Body, d, tAll)
	g.fn--
	g.loop = loop
	rest := ""
	if g.r.P(0.2) {
		rest = pick(g.r, []string{"\" comment", "| echo 1", "Foo", "!!", "x", "\\"})
	}
	h, _ = g.command("endfunction", g.r.P(0.1), (rest + " ")[0])
	n.EndFunction = &ast.EndFunction{EndFunc: *h.ea.Cmdpos, ExArg: h.ea}
	g.w.put(rest)
	g.w.eol()
}

func (g *Gen) exprStmt() {
	k := g.r.N(100)
	switch {
	case k < 40:
		name := pick(g.r, []string{"echo", "echon", "echomsg", "echoerr", "execute", "echo"})
		es, t := g.exprs()
		h, ok := g.command(name, false, firstByte(cat(t, " ")))
		if !ok {
			return
		}
		g.emit(t)
		if name == "execute" {
			g.add(&ast.Execute{Execute: *h.ea.Cmdpos, ExArg: h.ea, Exprs: es})
		} else {
			g.add(&ast.EchoCmd{Start: *h.ea.Cmdpos, CmdName: name, ExArg: h.ea, Exprs: es})
		}
		g.term(tBar)
	case k < 52:
		e := g.call(g.postfix(g.r.N(g.depth)), g.r.N(g.depth))
		for e.first() == '"' { // would be a comment
			e = g.call(g.postfix(g.r.N(g.depth)), g.r.N(g.depth))
		}
		h, ok := g.command("call", false, firstByte(e.t))
		if !ok {
			return
		}
		g.emit(e.t)
		g.add(&ast.ExCall{ExCall: *h.ea.Cmdpos, ExArg: h.ea, FuncCall: e.n.(*ast.CallExpr)})
		g.term(tAll)
	case k < 60:
		e := g.exprTok(0)
		h, ok := g.command("throw", false, firstByte(e.t))
		if !ok {
			return
		}
		g.emit(e.t)
		g.add(&ast.Throw{Throw: *h.ea.Cmdpos, ExArg: h.ea, Expr: e.n})
		g.term(tAll)
	case k < 68:
		e := g.exprTok(0)
		h, ok := g.command("eval", false, firstByte(e.t))
		if !ok {
			return
		}
		g.emit(e.t)
		g.add(&ast.Eval{Eval: *h.ea.Cmdpos, ExArg: h.ea, Expr: e.n})
		g.term(tAll)
	case k < 80 && g.fn > 0:
		if g.r.P(0.3) {
			h, ok := g.command("return", false, ' ')
			if !ok {
				return
			}
			g.add(&ast.Return{Return: *h.ea.Cmdpos, ExArg: h.ea})
			g.term(tBar)
			return
		}
		e := g.exprTok(0)
		h, ok := g.command("return", false, firstByte(e.t))
		if !ok {
			return
		}
		g.emit(e.t)
		g.add(&ast.Return{Return: *h.ea.Cmdpos, ExArg: h.ea, Result: e.n})
		g.term(tAll)
	case k < 86 && g.loop > 0:
		if g.r.P(0.5) {
			if h, ok := g.command("break", false, ' '); ok {
				g.add(&ast.Break{Break: *h.ea.Cmdpos, ExArg: h.ea})
				g.term(tAll)
			}
		} else if h, ok := g.command("continue", false, ' '); ok {
			g.add(&ast.Continue{Continue: *h.ea.Cmdpos, ExArg: h.ea})
			g.term(tAll)
		}
	case k < 90:
		e := g.funcName()
		h, ok := g.command("delfunction", g.r.P(0.3), firstByte(e.t))
		if !ok {
			return
		}
		g.emit(e.t)
		g.add(&ast.DelFunction{DelFunc: *h.ea.Cmdpos, ExArg: h.ea, Name: e.n})
		g.term(tAll)
	default:
		name := pick(g.r, []string{"unlet", "lockvar", "unlockvar"})
		var t []Tok
		depth := 0
		if name != "unlet" && g.r.P(0.5) {
			depth = pick(g.r, []int{0, 1, 3, 100})
			t = append(t, Tok{T: strconv.Itoa(depth), K: kNum})
		}
		var list []ast.Expr
		for k := g.r.Range(1, 3); k > 0; k-- {
			e := g.lvalue(2, false, len(list) == 0)
			if len(list) > 0 {
				e.t[0].Pre = preMust
			}
			list = append(list, e.n)
			t = append(t, e.t...)
		}
		h, ok := g.command(name, g.r.P(0.3), firstByte(t))
		if !ok {
			return
		}
		g.emit(t)
		switch name {
		case "unlet":
			g.add(&ast.UnLet{UnLet: *h.ea.Cmdpos, ExArg: h.ea, List: list})
		case "lockvar":
			g.add(&ast.LockVar{LockVar: *h.ea.Cmdpos, ExArg: h.ea, Depth: depth, List: list})
		default:
			g.add(&ast.UnLockVar{UnLockVar: *h.ea.Cmdpos, ExArg: h.ea, Depth: depth, List: list})
		}
		g.term(tAll)
	}
}

func (g *Gen) letStmt() {
	switch k := g.r.N(20); {
	case k < 2: // lists variables
		name := pick(g.r, []string{"let", "const"})
		rest := pick(g.r, []string{"", "x", "g: l:", "x y z", "x ", "a.b", "@a &ts $X", "g:x[1:]\ty{z}"})
		if name == "const" {
			rest = pick(g.r, []string{"", "x", "x y"})
		}
		h, ok := g.command(name, false, (rest + " ")[0])
		if !ok {
			return
		}
		g.w.put(rest)
		g.tws()
		g.add(&ast.Excmd{Excmd: *h.ea.Cmdpos, ExArg: h.ea, Command: string(g.w.j[h.j0:])})
		switch k := g.r.N(100); {
		case k < g.pBar:
			g.w.put("|")
		case k >= 85:
			g.comment()
		default:
			g.w.eol()
		}
		return
	case k < 5:
		g.heredoc()
		return
	}
	constant := g.r.P(0.2)
	n := &ast.Let{Op: "="}
	l, list, rest, t := g.lhs(constant)
	n.Left, n.List, n.Rest = l, list, rest
	name := "let"
	if constant {
		name = "const"
	} else if g.r.P(0.35) {
		n.Op = pick(g.r, []string{"+=", "-=", ".=", "..=", "*=", "/=", "%="})
	}
	e := g.exprTok(0)
	n.Right = e.n
	h, ok := g.command(name, false, firstByte(t))
	if !ok {
		return
	}
	n.Let, n.ExArg = *h.ea.Cmdpos, h.ea
	g.emit(t)
	if g.r.P(g.sp) {
		g.ws(false)
	}
	g.w.put(n.Op)
	g.count("let " + n.Op)
	g.prev = Tok{}
	g.emit(e.t)
	g.add(n)
	g.term(tAll)
}

func (g *Gen) heredoc() {
	n := &ast.Let{Op: "=<<"}
	hd := &ast.HeredocExpr{}
	n.Right = hd
	l, list, rest, t := g.lhs(false)
	n.Left, n.List, n.Rest = l, list, rest
	h, ok := g.command("let", false, firstByte(t))
	if !ok {
		return
	}
	g.count("heredoc")
	n.Let, n.ExArg = *h.ea.Cmdpos, h.ea
	g.emit(t)
	if g.r.P(g.sp) {
		g.ws(false)
	}
	hd.OpPos = g.w.pos()
	g.w.put("=<<")
	trim := false
	first := true
	for g.r.P(0.4) {
		f := pick(g.r, []string{"trim", "trim", "eval", "x1"})
		if f == "trim" {
			trim = true
		}
		g.ws(!first)
		first = false
		b := &ast.BasicLit{Kind: token.STRING, Value: f, ValuePos: g.w.pos()}
		g.w.put(f)
		hd.Flags = append(hd.Flags, b)
	}
	hd.EndMarker = pick(g.r, []string{"END", "EOF", "E1", "_x", "0", "X", "Lines"})
	g.ws(!first)
	g.w.put(hd.EndMarker)
	g.add(n)
	if g.r.P(0.15) {
		g.ws(true)
		g.comment()
	} else {
		g.ws(false)
		g.w.eol()
	}
	// the indentation of the line of :let
	i := strings.LastIndexByte(string(g.w.j[:h.j0]), '\n') + 1
	indent := span(string(g.w.j[i:]), func(c byte) bool { return c == ' ' || c == '\t' })
	not := []string{hd.EndMarker}
	if trim {
		not = append(not, indent+hd.EndMarker)
	}
	for k := g.r.N(5); k > 0; k-- {
		s := g.bodyLine(not...)
		if g.r.P(0.1) {
			s = hd.EndMarker + pick(g.r, []string{" ", "x", "|"})
		}
		b := &ast.BasicLit{Kind: token.STRING, Value: s, ValuePos: g.w.pos()}
		g.w.put(s)
		g.w.eol()
		hd.Body = append(hd.Body, b)
	}
	if trim && g.r.P(0.5) {
		g.w.put(indent)
	}
	g.w.put(hd.EndMarker)
	g.w.eol()
}

var argChunks = []string{"a", "foo", "x1", " ", "  ", "\t", "\\|", "\\\"", "%", "#", "<C-r>", "'", "~/.vimrc", "/", "=", "+", "-", "(", ")", "[", "]", "{", "}", "\\\\n", ":", ",", "é", "<bar>", "!"}
var rawArgChunks = append([]string{"|", "\"", "\\", "`", "``"}, argChunks...)

func (g *Gen) argText(chunks []string, max int) string {
	for {
		s := strings.TrimLeft(g.text(chunks, max), " \t")
		if strings.HasSuffix(s, "\\") || g.ascii && strings.Contains(s, "é") {
			continue
		}
		return s
	}
}

// ownPatterns are arguments of commands which see the bar behind their
// patterns: those which end where the pattern tells, and those which go on to
// the end of the line, with any text for *.
var ownPatterns = map[string]struct{ closed, open []string }{}

func init() {
	sub := struct{ closed, open []string }{
		[]string{"/a/b/", "/a/b/g", "#x#y#", "/|/\"/e", "!a!b!", "", "g", "e 3", "//|/", "/a|b/c|d/ge 2", "/[/|]/x/", "/a\\/|b/\\/|/", "\\/a|\"b/g", "\\&x&", "\\?|?e", "/é/\"/", "?|?|?", "+a\\|b+|+"},
		[]string{"/a/b", "/a|b", "/a/*", "/*", "#x#|\"", "/[/|/b/", "/x\\", "/x/y\\", "\\/*"}}
	ownPatterns["substitute"], ownPatterns["smagic"], ownPatterns["snomagic"] = sub, sub, sub
	amp := struct{ closed, open []string }{[]string{"", "r", "ge 3", "&", ""}, []string{""}}
	ownPatterns["&"], ownPatterns["~"] = amp, amp
	ownPatterns["sort"] = struct{ closed, open []string }{
		[]string{"", "u", "n /a|b/ u", "x /\"/", "/|/r", "iu", "#[#|]#", "/a\\/|/"}, []string{"/a|b", "u /*", "/[/|/", "/x\\"}}
	ownPatterns["match"] = struct{ closed, open []string }{
		[]string{"", "none", "NONE", "Foo /a|b/", "Foo |a|", "X \"a|\"", "Foo /[/|]/", "nones /a|b/"}, []string{"Foo /a|b", "Foo /*", "Foo|x", "X /a\\"}}
	find := struct{ closed, open []string }{[]string{"/a|b/", "2 /\"|/", "12/[/|]/", "/a\\/|/"}, []string{"", "x|y", "2 x|\"", "/a|b", "/*", "3 a/|/", "/a\\"}}
	for _, n := range []string{"djump", "dlist", "dsearch", "dsplit", "ijump", "ilist", "isearch", "isplit", "psearch"} {
		ownPatterns[n] = find
	}
	ownPatterns["help"] = struct{ closed, open []string }{nil, []string{"|", "||", "a|", "x||", "", "x", "\"a", "x y", ":s\""}} // a bar ends it unless nothing is behind it
}

func (g *Gen) genericCmd(c *CmdInfo) {
	name := g.abbrev(c)
	if name == "" {
		return
	}
	hide := c.Name == "hide" // with an argument or a bang it is a modifier
	if c.Name == "finish" && g.fn == 0 && g.nest() == 0 {
		return
	}
	bang := c.Has("BANG") && g.r.P(0.3) && !hide && c.Name != "substitute" && c.Name != "smagic" && c.Name != "snomagic"
	bar := c.Has("TRLBAR")
	noCom := c.Has("NOTRLCOM")
	files := c.Has("XFILE") || c.Has("FILES") || c.Has("FILE1")

	// The argument is made before the command, because its first character
	// decides whether white space is needed.
	type piece struct {
		text string
		ws   bool // white space must follow
		end  bool // the options end here
		expr []Tok
	}
	var ps []piece
	var set []func(ea *ast.ExArg)
	usefilter := false
	if c.Has("ARGOPT") && g.r.P(g.pOpt) {
		for k := g.r.Range(1, 3); k > 0; k-- {
			g.count("++opt")
			switch g.r.N(7) {
			case 0:
				ps = append(ps, piece{text: "++bin", ws: true})
				set = append(set, func(ea *ast.ExArg) { ea.ForceBin = 1 })
			case 1:
				ps = append(ps, piece{text: "++nobin", ws: true})
				set = append(set, func(ea *ast.ExArg) { ea.ForceBin = 2 })
			case 2:
				ps = append(ps, piece{text: "++edit", ws: true})
				set = append(set, func(ea *ast.ExArg) { ea.ReadEdit = 1 })
			case 3, 4:
				ff := pick(g.r, []string{"dos", "unix", "mac"})
				ps = append(ps, piece{text: pick(g.r, []string{"++ff=", "++fileformat="}) + ff, ws: true})
				set = append(set, func(ea *ast.ExArg) { ea.ForceFf = ff })
			case 5:
				enc := pick(g.r, []string{"utf-8", "latin1", "x", "a|b", "cp932\""})
				ps = append(ps, piece{text: pick(g.r, []string{"++enc=", "++encoding="}) + enc, ws: true})
				set = append(set, func(ea *ast.ExArg) { ea.ForceEnc = enc })
			case 6:
				bad := pick(g.r, []string{"keep", "drop", "?", "x", "_", "|", "\"", "é", "k"})
				if g.ascii && bad == "é" {
					bad = "?"
				}
				ps = append(ps, piece{text: "++bad=" + bad, ws: true})
				set = append(set, func(ea *ast.ExArg) { ea.BadChar = bad })
			}
		}
	}
	arg := func(s string) { ps = append(ps, piece{text: s}) }
	switch c.Name {
	case "write", "update":
		switch {
		case g.r.P(0.2):
			ps = append(ps, piece{text: ">>"})
			set = append(set, func(ea *ast.ExArg) { ea.Append = 1 })
			g.count("append to file")
		case c.Name == "write" && g.r.P(0.25):
			ps = append(ps, piece{text: "!"})
			usefilter = true
			g.count("filter")
		}
	case "read":
		if bang {
			usefilter = true
			g.count("filter")
		} else if g.r.P(0.25) {
			ps = append(ps, piece{text: "!"})
			usefilter = true
			g.count("filter")
		}
	case "<", ">":
		n := g.r.N(4)
		if n > 0 {
			ps = append(ps, piece{text: strings.Repeat(c.Name, n)})
		}
		set = append(set, func(ea *ast.ExArg) { ea.Amount = 1 + n })
	}
	plus := c.Has("EDITCMD") && !usefilter
	if plus && g.r.P(g.pOpt) {
		g.count("+cmd")
		if g.r.P(0.25) {
			ps = append(ps, piece{text: "+", ws: true})
			set = append(set, func(ea *ast.ExArg) { ea.DoEcmdCmd = "$" })
		} else {
			txt, val := "", ""
			for k := g.r.Range(1, 3); k > 0; k-- {
				s := pick(g.r, []string{"10", "/foo", "set\\ nu", "a|b", "\"", "\\\\", "x", "+", "\\|", "`="})
				if txt == "" && s == "+" {
					s = "1"
				}
				txt += s
				for i := 0; i < len(s); i++ {
					if s[i] == '\\' {
						i++
					}
					val += s[i : i+1]
				}
			}
			ps = append(ps, piece{text: "+" + txt, ws: true})
			set = append(set, func(ea *ast.ExArg) { ea.DoEcmdCmd = val })
		}
	}
	optEnd := len(ps) // the argument proper follows
	raw := !bar || usefilter
	own, isOwn := ownPatterns[c.Name]
	switch {
	case hide:
	case c.Name == "filter":
		// it is a modifier when a pattern and something more follow
		arg(pick(g.r, []string{"", "\"abc\" ls", "|a| ls", "|", "\"", "/x", "/a|b/", "/x/g", "#x|y ls", "foo", "_a|b", "/x\\/ y", "|/x/ ls"}))
		g.count(":filter as a command")
	case isOwn:
		// it finds the bar behind its patterns itself
		g.count("patterns of its own")
		if raw = len(own.closed) == 0 || g.r.P(0.3); raw {
			s := pick(g.r, own.open)
			if strings.Contains(s, "*") {
				s = strings.Replace(s, "*", strings.ReplaceAll(g.argText(rawArgChunks, 4), "/", "_"), 1)
			}
			arg(s)
		} else {
			arg(pick(g.r, own.closed))
		}
		for i := range ps {
			if g.ascii {
				ps[i].text = strings.ReplaceAll(ps[i].text, "é", "e")
			}
		}
	case raw:
		s := g.argText(rawArgChunks, 7)
		if g.r.P(0.1) {
			s += "\\"
		}
		arg(s)
	default:
		if strings.HasSuffix(c.Name, "vimgrep") || strings.HasSuffix(c.Name, "vimgrepadd") {
			g.count("vimgrep pattern")
			switch g.r.N(3) {
			case 0:
				arg(pick(g.r, []string{"foo", "a|b", "x\"y", "_"}) + " ")
			case 1:
				arg(pick(g.r, []string{"/a|b/", "/\"/gj", "/[/|]/j", "#x\\#|#", "/]/|"}))
				if strings.HasSuffix(ps[len(ps)-1].text, "|") {
					ps[len(ps)-1].text = "/]/ "
				}
			default:
				arg("/x/g ")
			}
		}
		if (c.Name == "@" || c.Name == "*") && g.r.P(0.3) {
			arg("\"")
			g.count("register \"")
		}
		if c.Name == "redir" && g.r.P(0.4) {
			arg("@\"")
			g.count("register \"")
		}
		for k := g.r.N(3); k >= 0; k-- {
			switch {
			case files && g.r.P(0.15):
				var e ex
				for {
					e = g.exprTok(0)
					if len(e.t) < 60 {
						break
					}
				}
				ps = append(ps, piece{expr: e.t})
				g.count("`=expr`")
			case g.r.P(0.1):
				arg("\x16" + pick(g.r, []string{"|", "\"", "a", "\x16", "x", " ", "\x16 ", "\t"}))
				g.count("CTRL-V")
			default:
				s := g.text(argChunks, 5)
				if g.ascii {
					s = strings.ReplaceAll(s, "é", "e")
				}
				if noCom && g.r.P(0.3) {
					s += pick(g.r, []string{"\"", "\" x", "\"\""})
				}
				if strings.HasSuffix(s, "\\") {
					s += pick(g.r, []string{"n", " ", "\t"})
				}
				arg(s)
			}
		}
	}
	endV := false
	// Join the plain pieces of the argument and avoid what would be read as
	// something else.
	for i := optEnd; i+1 < len(ps); {
		if ps[i].expr == nil && ps[i+1].expr == nil {
			ps[i].text += ps[i+1].text
			ps = append(ps[:i+1], ps[i+2:]...)
		} else {
			i++
		}
	}
	if n := len(ps); n > optEnd && !raw && !isOwn && ps[n-1].expr == nil && g.r.P(0.04) {
		ps[n-1].text += "\x16"
	}
	if n := len(ps); n > optEnd && !raw && ps[n-1].expr == nil && strings.HasSuffix(ps[n-1].text, "\x16") {
		if endV = g.r.P(0.5); !endV {
			ps[n-1].text += "x" // or what comes next is escaped
		} else {
			g.count("CTRL-V at the end of the line")
		}
	}
	if len(ps) > optEnd {
		p := &ps[optEnd]
		if p.expr == nil {
			p.text = strings.TrimLeft(p.text, " \t")
			for plus && optEnd == 0 && strings.HasPrefix(p.text, "+") || c.Has("ARGOPT") && strings.HasPrefix(p.text, "++") ||
				plus && strings.HasPrefix(p.text, "+") ||
				(c.Name == "<" || c.Name == ">") && strings.HasPrefix(p.text, c.Name) ||
				(c.Name == "write" || c.Name == "update") && strings.HasPrefix(p.text, ">") ||
				!bang && strings.HasPrefix(p.text, "!") && c.Name != "!" && c.Name != "substitute" && (c.Name != "write" && c.Name != "read" || optEnd == 0) ||
				c.Name == "!" && !bang && strings.HasPrefix(p.text, "!") ||
				(c.Name == "read" || c.Name == "write") && !usefilter && strings.HasPrefix(p.text, "!") {
				p.text = strings.TrimLeft(p.text[1:], " \t")
			}
		}
	}
	fb := byte(' ')
	for _, p := range ps {
		if p.expr != nil {
			fb = '`'
			break
		}
		if p.text != "" {
			fb = p.text[0]
			break
		}
	}
	// Something like :s/a/b: the name and what follows must not be read as
	// another command.
	if c.Name == "substitute" || c.Name == "!" || !isWord(name[0]) {
		t := name
		for _, p := range ps {
			t += p.text
		}
		if r, n := resolve(t, g.neovim); r == nil || r.Name != c.Name || n != len(name) {
			return
		}
	}
	h := g.head(name)
	if c.Name == "!" {
		h.ea.Cmd = cmdOf(c)
		g.count("command !")
		g.w.put(name)
		if bang {
			g.w.put("!")
			h.ea.Forceit = true
		}
		h.ea.Argpos = g.w.ppos()
	} else if c.Name == "substitute" && len(ps) > 0 && fb == '!' {
		h.ea.Cmd = cmdOf(c)
		g.w.put(name)
		h.ea.Argpos = g.w.ppos()
	} else {
		g.cmdName(h, c, name, bang, fb)
	}
	if usefilter {
		h.ea.Usefilter = true
		if c.Name == "read" {
			h.ea.Forceit = false
		}
	}
	for _, f := range set {
		f(&h.ea)
	}
	jArg := len(g.w.j)
	for i, p := range ps {
		if p.expr != nil {
			g.w.put("`=")
			g.prev = Tok{}
			g.emit(p.expr)
			g.w.put("`")
			continue
		}
		g.w.put(p.text)
		if i < optEnd {
			last := i == optEnd-1
			if !(c.Name == "write" || c.Name == "read") || p.text != "!" {
				g.ws(p.ws)
			}
			if p.text == "+" || strings.HasPrefix(p.text, "+") && !strings.HasPrefix(p.text, "++") {
				if last {
					// white space after +cmd belongs to the argument
				}
			}
			jArg = len(g.w.j)
			g.argJ = jArg
			if strings.HasPrefix(p.text, "+") && !strings.HasPrefix(p.text, "++") {
				// the white space after +cmd is not skipped
				k := jArg
				for k > 0 && (g.w.j[k-1] == ' ' || g.w.j[k-1] == '\t') {
					k--
				}
				jArg = k
			}
		}
	}
	end := len(g.w.j)
	flags := tEOL
	if !raw {
		flags = tBar
		if !noCom && !((c.Name == "@" || c.Name == "*") && len(g.w.j) == g.argJ) { // @" is a register
			flags |= tComment
		}
		if strings.HasSuffix(string(g.w.j), "\\") {
			flags = tEOL
		}
	}
	k := end
	if !raw && !noCom {
		// an escaped blank is not trailing
		for k > jArg && (g.w.j[k-1] == ' ' || g.w.j[k-1] == '\t') && !(k-2 >= jArg && (g.w.j[k-2] == '\\' || g.w.j[k-2] == 0x16)) {
			k--
		}
		if k < jArg {
			k = jArg
		}
	}
	x := &ast.Excmd{Excmd: *h.ea.Cmdpos, ExArg: h.ea}
	g.add(x)
	if endV {
		x.Command = string(g.w.j[h.j0:end])
		g.w.eol()
		return
	}
	if noCom && !raw {
		// Everything up to the bar or the end of the line belongs to it.
		g.tws()
		k = len(g.w.j)
		x.Command = string(g.w.j[h.j0:k])
		switch {
		case g.r.N(100) < g.pBar:
			g.w.put("|")
		case c.Name == "sort" && g.r.P(0.2):
			g.comment()
		default:
			g.w.eol()
		}
		return
	}
	x.Command = string(g.w.j[h.j0:k])
	if raw {
		g.w.eol()
		return
	}
	g.term(flags)
}

func (g *Gen) nest() int {
	if g.cur == g.top {
		return 0
	}
	return 1
}

func (g *Gen) userCmd() {
	name := pick(g.r, []string{"Foo", "MyCmd", "Foo1", "P", "Print", "A", "Zz9", "ABC", "Pri", "N1x", "Xyz"})
	r, n := resolve(name, g.neovim)
	if r == nil || r.Flags != "USERCMD" || n != len(name) {
		return
	}
	s := g.argText(rawArgChunks, 7)
	bang := g.r.P(0.3)
	if !bang {
		s = strings.TrimLeft(s, "! \t")
	}
	h := g.head(name)
	g.cmdName(h, r, name, bang, (s + " ")[0])
	g.w.put(s)
	g.add(&ast.Excmd{Excmd: *h.ea.Cmdpos, ExArg: h.ea, Command: string(g.w.j[h.j0:])})
	g.w.eol()
}

// alone writes a range or modifiers without a command.
func (g *Gen) alone() {
	h := g.head("")
	g.count("no command")
	g.add(&ast.Excmd{Excmd: *h.ea.Cmdpos, ExArg: h.ea, Command: string(g.w.j[h.j0:])})
	switch g.r.N(4) {
	case 0:
		g.w.put("|")
	case 1:
		g.comment()
	default:
		g.w.eol()
	}
}

// synPattern writes a pattern of :syntax: any character delimits it, and blanks, bars and quotes are a part of it.
func (g *Gen) synPattern() string {
	r := g.r
	d := pick(r, []string{"/", "/", "'", "\"", "\"", "+", "#", "!", ";", ":", "@", "x", "=", "~", "-", "?"})
	pieces := []string{"a", " ", "|", "[a:al:]", "[x=a=]", "[-.b.]", "[y[=b=]|]", "[[.x.] ]", "[[:x]", "\"", "'", "/", "#", "\t", "+", "\\d\\+", "\\|", "\\(b\\|c\\)", "[^|]*", "[]]", "[^]a]", "[a b]", "[[:alpha:]|]", "\\[", "\\]", "]", "^", "$", ".*", "\\\\", "\\" + d, "b|" + "c"}
	if strings.Contains("/'\"+#!,;@", d) {
		pieces = append(pieces, "["+d+"]", "[^"+d+"|]")
	}
	s := d
	for k := 1 + r.N(4); k > 0; k-- {
		p := pick(r, pieces)
		if strings.Contains(p, d) && !strings.HasPrefix(p, "\\"+d) && !strings.HasPrefix(p, "["+d) && !strings.HasPrefix(p, "[^"+d) {
			continue
		}
		s += p
	}
	if r.N(8) == 0 && d != "V" {
		s += pick(r, []string{"\\V[", "\\M[", "\\V[^", "\\V\\v[|]", "\\M\\m[ \"]"})
	}
	return s + d
}

func (g *Gen) synPatternOff() string {
	return g.synPattern() + pick(g.r, []string{"", "", "", "ms=s+1", "me=e-1,hs=s+2", "lc=3", "rs=e+1"})
}

func (g *Gen) synOptions(region bool) string {
	s := ""
	for k := g.r.N(4); k > 0; k-- {
		o := []string{"contained", "CONTAINED", "contains=A,B", "contains=@a , b", "contains = ALLBUT,x", "nextgroup=X", "containedin=ALL", "skipwhite", "skipempty", "display", "transparent", "fold", "extend", "excludenl", "conceal", "cchar=|", "cchar=\"", "cchar=/", "Contains=TOP"}
		if region {
			o = append(o, "oneline", "keepend", "concealends")
		}
		x := pick(g.r, o)
		s += " " + x
		if strings.Contains(x, "=") && !strings.HasPrefix(x, "cchar") || g.r.N(6) == 0 {
			s += pick(g.r, []string{" ", "\t"})
		}
	}
	return s
}

func (g *Gen) synMatch() string {
	return "match" + pick(g.r, []string{" ", "  ", "\t"}) + "Foo" + g.synOptions(false) + " " + g.synPatternOff() + g.synOptions(false)
}

func (g *Gen) synRegion() string {
	r := g.r
	s := pick(r, []string{"region", "region", "REGION"}) + " Foo" + g.synOptions(true)
	for k := 1 + r.N(3); k > 0; k-- {
		s += " " + pick(r, []string{"start", "end", "skip", "START", "end"}) + pick(r, []string{"=", "=", "=", " = "}) + g.synPatternOff()
		if r.N(4) == 0 {
			s += " matchgroup=" + pick(r, []string{"NONE ", "Bar "})
		}
		s += g.synOptions(true)
	}
	return s
}

func (g *Gen) syntaxCmd() {
	r := g.r
	s := ""
	switch r.N(9) {
	case 0, 1, 2:
		s = g.synMatch()
	case 3, 4:
		s = g.synRegion()
	case 5, 6:
		s = "keyword Foo"
		for k := r.N(4); k > 0; k-- {
			s += " " + pick(r, []string{"if", "el[se]", "a|b", "x\"y", "\\|", "\\|\\|", "/", "=", "\\\"x", "'q'", ";", "contained", "contains=A,B", "cchar=|", "nextgroup=Y"})
		}
		s += " "
	case 7:
		s = "sync " + pick(r, []string{"fromstart", "minlines=5", "ccomment Foo maxlines=3", "clear", "match Foo grouphere NONE " + g.synPattern(), "match Foo groupthere Bar " + g.synPatternOff(), "linecont " + g.synPattern(), g.synRegion(), "lines=2 " + g.synMatch(), "linebreaks=1"}) + " "
	default:
		s = pick(r, []string{"", "on", "off", "clear", "clear Foo", "case match", "case ignore", "cluster X contains=a,b", "cluster X add=@y remove=z", "include @X syntax/c.vim", "spell toplevel", "list Foo", "iskeyword @,48-57", "manual", "reset", "enable", "conceal on", "foldlevel start"})
	}
	s = strings.TrimLeft(s, " \t")
	h, ok := g.command("syntax", false, (s + " ")[0])
	if !ok {
		return
	}
	g.w.put(s)
	g.tws()
	g.add(&ast.Excmd{Excmd: *h.ea.Cmdpos, ExArg: h.ea, Command: string(g.w.j[h.j0:])})
	if g.r.N(100) < g.pBar {
		g.w.put("|")
	} else {
		g.w.eol()
	}
}

func (g *Gen) wincmd() {
	s := pick(g.r, []string{"w", "p", "|", "\"", "=", "gf", "g]", "\x07x", "_", "é", "+", "g|", "1"})
	if g.ascii && s == "é" {
		s = "e"
	}
	h, ok := g.command("wincmd", false, s[0])
	if !ok {
		return
	}
	g.w.put(s)
	g.add(&ast.Excmd{Excmd: *h.ea.Cmdpos, ExArg: h.ea, Command: string(g.w.j[h.j0:])})
	g.term(tAll)
}

func (g *Gen) echohl() {
	s := pick(g.r, []string{"", "None", "WarningMsg", "Foo ", "x y", "1", "Error\t", `a\b`, `\`, `x\\ \t`, "%s", "x(y)", "あ"})
	if g.ascii && s == "あ" {
		s = "A"
	}
	h, ok := g.command("echohl", false, (s + " ")[0])
	if !ok {
		return
	}
	x := &ast.Echohl{Echohl: *h.ea.Cmdpos, ExArg: h.ea}
	j := len(g.w.j)
	g.w.put(s)
	if s != "" {
		g.ws(false)
	}
	x.Name = string(g.w.j[j:])
	g.add(x)
	switch k := g.r.N(100); {
	case k < g.pBar:
		g.w.put("|")
	case k > 85:
		g.comment()
	default:
		g.w.eol()
	}
}

// scriptCmd writes commands followed by lines which belong to them.
func (g *Gen) scriptCmd() {
	name := pick(g.r, []string{"append", "insert", "change", "pyx", "pythonx", "lua", "mzscheme", "perl", "python", "python3", "py3", "ruby", "tcl"})
	var x *ast.Excmd
	if name == "append" || name == "insert" || name == "change" {
		h, ok := g.command(name, g.r.P(0.3), ' ')
		if !ok {
			return
		}
		x = &ast.Excmd{Excmd: *h.ea.Cmdpos, ExArg: h.ea}
		if g.r.P(0.2) {
			g.w.put(pick(g.r, []string{"\" x", "| y"}))
		}
		g.w.eol()
		for k := g.r.N(4); k > 0; k-- {
			g.w.put(g.bodyLine("."))
			g.w.eol()
		}
		g.w.put(".")
		x.Command = string(g.w.j[h.j0:])
	} else {
		s := g.argText(rawArgChunks, 5)
		here := g.r.P(0.6)
		if here || strings.HasPrefix(s, "<<") {
			here = true
			s = "<<"
		}
		s = strings.TrimLeft(s, "! \t")
		h, ok := g.command(name, false, (s + " ")[0])
		if !ok {
			return
		}
		x = &ast.Excmd{Excmd: *h.ea.Cmdpos, ExArg: h.ea}
		g.w.put(s)
		if here {
			m := pick(g.r, []string{"EOF", "END", "", ".", "eof", "x y"})
			g.ws(false)
			g.w.put(m)
			if m == "" {
				m = "."
			}
			g.w.eol()
			for k := g.r.N(4); k > 0; k-- {
				g.w.put(g.bodyLine(m))
				g.w.eol()
			}
			g.w.put(m)
		}
		x.Command = string(g.w.j[h.j0:])
	}
	g.count("script lines")
	g.add(x)
	g.w.eol()
}

// scriptOpts sets how scripts are made.
func (g *Gen) scriptOpts() {
	r := g.r
	g.pMod = pick(r, []float64{0, 0.1, 0.3})
	g.pRange = pick(r, []float64{0, 0.05, 0.3})
	g.pOpt = pick(r, []float64{0.1, 0.4})
	g.pBar = pick(r, []int{0, 10, 40})
	g.pBlock = pick(r, []int{10, 25, 40})
	g.pExpr = pick(r, []int{10, 25})
	g.pLet = pick(r, []int{5, 15})
	g.depth = r.Range(1, 4)
	g.maxLen = pick(r, []int{200, 800, 3000})
	g.neovim = r.P(0.3)
}

// script makes a whole script of about n statements.
func (g *Gen) script(n int) *ast.File {
	g.start()
	g.ended = false
	f := &ast.File{Body: []ast.Statement{}}
	f.Start = g.w.pos()
	g.top = &f.Body
	d := g.r.N(5)
	g.cur = g.top
	for ; n > 0 && len(g.w.b) < g.maxLen; n-- {
		g.stmt(d)
	}
	if g.r.P(0.04) {
		if g.r.P(0.5) {
			g.finishTop()
		} else {
			g.keymapTop()
		}
	}
	if len(g.w.j) == 0 {
		g.w.eol()
	}
	if g.w.j[len(g.w.j)-1] == '\n' && !g.ended && len(g.w.j) > 1 && g.w.j[len(g.w.j)-2] != '\n' && g.r.P(0.2) && !strings.HasSuffix(string(g.w.b), "\\\n") {
		g.w.b = g.w.b[:len(g.w.b)-1] // no final newline
		g.w.j = g.w.j[:len(g.w.j)-1]
	}
	return f
}
