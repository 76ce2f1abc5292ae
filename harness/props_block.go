package main

import (
	"fmt"

	"github.com/vim-jp/go-vimlparser/ast"
	"github.com/vim-jp/go-vimlparser/token"
)

const (
	bFunction = iota
	bEndfunction
	bIf
	bElseif
	bElse
	bEndif
	bWhile
	bEndwhile
	bFor
	bEndfor
	bTry
	bCatch
	bFinally
	bEndtry
	bReturn
	bBreak
	bContinue
	bEcho
	bCount
)

var blockNames = []string{"function", "endfunction", "if", "elseif", "else", "endif", "while", "endwhile", "for", "endfor",
	"try", "catch", "finally", "endtry", "return", "break", "continue", "echo"}

func init() {
	register(&Prop{
		ID: "P03",
		Rule: "All sequences of block commands (17 commands and :echo) up to a length bound (4 quick, 5 thorough), and long random ones with modifiers, abbreviations, bars, comments and nested bodies. " +
			"A pushdown automaton written for this check runs beside the parser: it gives the tree of a legal sequence or the first offending command and its error. Distinct: different outcomes of the automaton.",
		Units: func(t string) int {
			if t == "thorough" {
				return bCount*bCount + 10000
			}
			return bCount*bCount + 800
		},
		Run: runP03,
	})
}

// blockModel is the automaton. Each entry of the stack is an open block.
type blockModel struct {
	file  *ast.File
	stack []*openBlock
}

type openBlock struct {
	kind  int // bFunction, bIf, bWhile, bFor, bTry
	phase int // bIf, bElseif, bElse or bTry, bCatch, bFinally
	node  ast.Statement
	body  *[]ast.Statement
}

func newBlockModel() *blockModel {
	m := &blockModel{file: &ast.File{Body: []ast.Statement{}}}
	m.stack = []*openBlock{{kind: -1, body: &m.file.Body}}
	return m
}

func (m *blockModel) top() *openBlock { return m.stack[len(m.stack)-1] }

func (m *blockModel) add(s ast.Statement) { b := m.top().body; *b = append(*b, s) }

func (m *blockModel) push(kind int, n ast.Statement, body *[]ast.Statement) {
	m.add(n)
	*body = []ast.Statement{}
	m.stack = append(m.stack, &openBlock{kind, kind, n, body})
}

func (m *blockModel) in(kind int) bool {
	for i := len(m.stack) - 1; i >= 0; i-- {
		if m.stack[i].kind == kind {
			return true
		}
		if m.stack[i].kind == bFunction {
			return false
		}
	}
	return false
}

func missing(kind int) string {
	switch kind {
	case bFunction:
		return "E126: Missing :endfunction:    "
	case bIf:
		return "E171: Missing :endif:    "
	case bWhile:
		return "E170: Missing :endwhile:    "
	case bFor:
		return "E170: Missing :endfor:    "
	case bTry:
		return "E600: Missing :endtry:    "
	}
	return ""
}

// one is the expression every condition consists of.
func one(pos ast.Pos) *ast.BasicLit {
	return &ast.BasicLit{ValuePos: pos, Kind: token.NUMBER, Value: "1"}
}

// step runs one command and returns the error it must give. pos is the place
// of the command, argp that of its argument.
func (m *blockModel) step(sym int, ea ast.ExArg, pos, argp ast.Pos, value bool) string {
	t := m.top()
	close := func() { m.stack = m.stack[:len(m.stack)-1] }
	switch sym {
	case bFunction:
		n := &ast.Function{Func: pos, ExArg: ea, Name: &ast.Ident{NamePos: argp, Name: "F"}}
		m.push(bFunction, n, &n.Body)
	case bIf:
		n := &ast.If{If: pos, ExArg: ea, Condition: one(argp)}
		m.push(bIf, n, &n.Body)
	case bWhile:
		n := &ast.While{While: pos, ExArg: ea, Condition: one(argp)}
		m.push(bWhile, n, &n.Body)
	case bFor:
		x := argp
		x.Column += 5 // i in 1
		x.Offset += 5
		n := &ast.For{For: pos, ExArg: ea, Left: &ast.Ident{NamePos: argp, Name: "i"}, Right: one(x)}
		m.push(bFor, n, &n.Body)
	case bTry:
		n := &ast.Try{Try: pos, ExArg: ea}
		m.push(bTry, n, &n.Body)
	case bElseif:
		if t.kind != bIf || t.phase == bElse {
			return "E582: :elseif without :if"
		}
		n := &ast.ElseIf{ElseIf: pos, ExArg: ea, Condition: one(argp), Body: []ast.Statement{}}
		x := t.node.(*ast.If)
		x.ElseIf = append(x.ElseIf, n)
		t.phase, t.body = bElseif, &n.Body
	case bElse:
		if t.kind != bIf || t.phase == bElse {
			return "E581: :else without :if"
		}
		n := &ast.Else{Else: pos, ExArg: ea, Body: []ast.Statement{}}
		t.node.(*ast.If).Else = n
		t.phase, t.body = bElse, &n.Body
	case bEndif:
		if t.kind != bIf {
			return "E580: :endif without :if"
		}
		t.node.(*ast.If).EndIf = &ast.EndIf{EndIf: pos, ExArg: ea}
		close()
	case bEndwhile:
		if t.kind != bWhile {
			return "E588: :endwhile without :while"
		}
		t.node.(*ast.While).EndWhile = &ast.EndWhile{EndWhile: pos, ExArg: ea}
		close()
	case bEndfor:
		if t.kind != bFor {
			return "E588: :endfor without :for"
		}
		t.node.(*ast.For).EndFor = &ast.EndFor{EndFor: pos, ExArg: ea}
		close()
	case bCatch:
		if t.kind == bTry && t.phase == bFinally {
			return "E604: :catch after :finally"
		}
		if t.kind != bTry {
			return "E603: :catch without :try"
		}
		n := &ast.Catch{Catch: pos, ExArg: ea, Body: []ast.Statement{}}
		if value {
			n.Pattern = "p"
		}
		x := t.node.(*ast.Try)
		x.Catch = append(x.Catch, n)
		t.phase, t.body = bCatch, &n.Body
	case bFinally:
		if t.kind != bTry || t.phase == bFinally {
			return "E606: :finally without :try"
		}
		n := &ast.Finally{Finally: pos, ExArg: ea, Body: []ast.Statement{}}
		t.node.(*ast.Try).Finally = n
		t.phase, t.body = bFinally, &n.Body
	case bEndtry:
		if t.kind != bTry {
			return "E602: :endtry without :try"
		}
		t.node.(*ast.Try).EndTry = &ast.EndTry{EndTry: pos, ExArg: ea}
		close()
	case bEndfunction:
		if t.kind == -1 {
			return "E193: :endfunction not inside a function"
		}
		if t.kind != bFunction {
			return missing(t.kind) + "ENDFUNCTION"
		}
		t.node.(*ast.Function).EndFunction = &ast.EndFunction{EndFunc: pos, ExArg: ea}
		close()
	case bReturn:
		if !m.in(bFunction) {
			return "E133: :return not inside a function"
		}
		n := &ast.Return{Return: pos, ExArg: ea}
		if value {
			n.Result = one(argp)
		}
		m.add(n)
	case bBreak:
		if !m.in(bWhile) && !m.in(bFor) {
			return "E587: :break without :while or :for"
		}
		m.add(&ast.Break{Break: pos, ExArg: ea})
	case bContinue:
		if !m.in(bWhile) && !m.in(bFor) {
			return "E586: :continue without :while or :for"
		}
		m.add(&ast.Continue{Continue: pos, ExArg: ea})
	case bEcho:
		m.add(&ast.EchoCmd{Start: pos, CmdName: "echo", ExArg: ea, Exprs: []ast.Expr{one(argp)}})
	}
	return ""
}

func blockArg(sym int, value bool) string {
	switch sym {
	case bFunction:
		return "F()"
	case bIf, bElseif, bWhile, bEcho:
		return "1"
	case bFor:
		return "i in 1"
	case bReturn:
		if value {
			return "1"
		}
	case bCatch:
		if value {
			return "/p/"
		}
	}
	return ""
}

// judgeBlocks compares the parser with the automaton. errAt is where the
// first error is, if there is one.
func judgeBlocks(c *Ctx, m *blockModel, src string, neovim bool, msg string, at ast.Pos, cmp Cmp) {
	if msg == "" && m.top().kind != -1 {
		msg = missing(m.top().kind) + "TOPLEVEL"
		e := NewSrc([]byte(src)).EOF
		at = ast.Pos{Offset: e.Off, Line: e.Line, Column: e.Col}
	}
	res := parseFile(c, src, neovim, fname)
	if msg != "" {
		c.Eval(hashStr(msg)+uint64(len(m.stack)), true)
		c.Count("illegal: " + msg)
		if res.VErr == nil || res.File != nil || res.VErr.Msg != msg || res.VErr.Line != at.Line || res.VErr.Column != at.Column || res.VErr.Offset != at.Offset {
			c.Viol("an illegal sequence of block commands", fmt.Sprintf("want error %q at %d:%d offset %d, got %s", msg, at.Line, at.Column, at.Offset, res.show()), src)
		}
		return
	}
	c.Eval(Shape(m.file), true)
	c.Count("legal sequences")
	if res.Err != nil || res.File == nil {
		c.Viol("a legal sequence of block commands", "rejected: "+res.show(), src)
		return
	}
	if d := Diff(m.file, res.File, cmp); d != "" {
		c.Viol("a legal sequence of block commands", "wrong tree: "+d, src)
	}
}

func runP03(c *Ctx, unit int) {
	if unit < bCount*bCount {
		n := 4
		if c.Thorough() {
			n = 5
		}
		seq := []int{unit / bCount, unit % bCount}
		if unit%bCount == 0 {
			runBlockSeq(c, seq[:1])
		}
		allBlocks(c, seq, n)
		return
	}
	for i := 0; i < 40; i++ {
		randomBlocks(c)
	}
}

func allBlocks(c *Ctx, seq []int, n int) {
	runBlockSeq(c, seq)
	if len(seq) == n {
		return
	}
	for s := 0; s < bCount; s++ {
		allBlocks(c, append(seq[:len(seq):len(seq)], s), n)
	}
}

var blockCmp = Cmp{Pos: true, Curly: true}

func runBlockSeq(c *Ctx, seq []int) {
	m := newBlockModel()
	w := newW(c.R, fname)
	m.file.Start = w.pos()
	msg := ""
	var at ast.Pos
	for i, s := range seq {
		pos := w.pos()
		w.put(blockNames[s])
		argp := pos
		a := blockArg(s, i%2 == 0)
		if a != "" {
			w.put(" ")
			argp = w.pos()
			w.put(a)
		}
		w.eol()
		if msg == "" {
			if msg = m.step(s, ast.ExArg{}, pos, argp, i%2 == 0); msg != "" {
				at = pos
			}
		}
	}
	judgeBlocks(c, m, string(w.b), false, msg, at, blockCmp)
}

// randomBlocks makes a long sequence, legal in most places.
func randomBlocks(c *Ctx) {
	r := c.R
	g := newGen(r)
	g.scriptOpts()
	g.pBreak = 0
	g.start()
	m := newBlockModel()
	m.file.Start = g.w.pos()
	dummy := []ast.Statement{}
	g.cur = &dummy
	msg := ""
	var at ast.Pos
	n := pick(r, []int{5, 20, 60, 200})
	bad := pick(r, []float64{0, 0, 0.01, 0.05})
	deep := pick(r, []int{3, 8, 40})
	for i := 0; i < n || msg == "" && len(m.stack) > 1 && bad == 0; i++ {
		var s int
		for {
			s = r.N(bCount)
			if r.P(bad) {
				break
			}
			t := m.top()
			if (s == bFunction || s == bIf || s == bWhile || s == bFor || s == bTry) && (len(m.stack) > deep || i >= n) {
				continue
			}
			// try it on the automaton
			ok := false
			switch s {
			case bFunction, bIf, bWhile, bFor, bTry, bEcho:
				ok = true
			case bEndfunction:
				ok = t.kind == bFunction
			case bElseif, bElse:
				ok = t.kind == bIf && t.phase != bElse
			case bEndif:
				ok = t.kind == bIf
			case bEndwhile:
				ok = t.kind == bWhile
			case bEndfor:
				ok = t.kind == bFor
			case bCatch, bFinally:
				ok = t.kind == bTry && t.phase != bFinally
			case bEndtry:
				ok = t.kind == bTry
			case bReturn:
				ok = m.in(bFunction)
			case bBreak, bContinue:
				ok = m.in(bWhile) || m.in(bFor)
			}
			if ok {
				break
			}
		}
		value := r.P(0.5)
		a := blockArg(s, value)
		h, _ := g.command(blockNames[s], s == bFunction && r.P(0.5), (a + " ")[0])
		argp := g.w.pos()
		g.w.put(a)
		if msg == "" {
			if msg = m.step(s, h.ea, *h.ea.Cmdpos, argp, value); msg != "" {
				at = *h.ea.Cmdpos
			}
		}
		// What ends the command. Comments become statements of the model.
		switch {
		case s == bEndfunction:
			g.w.eol()
		case s == bEcho || s == bReturn && a == "":
			g.term(tBar)
		default:
			g.cur = m.top().body
			if msg != "" {
				g.cur = &dummy
			}
			g.term(tAll)
			g.cur = &dummy
		}
	}
	if len(g.w.b) == 0 {
		g.w.eol()
	}
	c.Max("max commands in a sequence", int64(n))
	judgeBlocks(c, m, string(g.w.b), g.neovim, msg, at, Cmp{Pos: true, Curly: true, ExArg: true, Args: true})
}
