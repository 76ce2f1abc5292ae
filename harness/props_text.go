package main

import (
	"bufio"
	"errors"
	"fmt"
	"io"
	"reflect"
	"strings"

	vimlparser "github.com/vim-jp/go-vimlparser"
	"github.com/vim-jp/go-vimlparser/ast"
	"github.com/vim-jp/go-vimlparser/token"
)

func init() {
	register(&Prop{
		ID: "P11",
		Rule: "Generated, mutated and recorded scripts and expressions, valid or not, are laid out again: existing continuations are joined and random new ones made before any character, with random indentation. The outcome must be the same with every position mapped through the character it belongs to. And lines which begin with a backslash behind something that is not white space must not be joined. " +
			"Distinct: different sequences of node types, and messages.",
		Units: units(300, 9000),
		Run:   runP11,
	})
	register(&Prop{
		ID: "P19",
		Rule: "The same bytes are parsed at once and through readers that deliver them in random pieces, with empty reads and an error together with data; with and without a final newline, with CR LF line ends, with and without options and file name, with lines of up to 70 000 (thorough: 200 000) bytes; and through readers that fail at every offset (small texts) or random ones. " +
			"Distinct: different sequences of node types, and messages.",
		Units: units(240, 6000),
		Run:   runP19,
	})
	register(&Prop{
		ID: "P21",
		Rule: "For every AST of generated, mutated and recorded scripts: the text of every comment, command, literal, name, pattern and body line is compared with the characters at its position in an independent model of the joined source, and every line with something on it must belong to a statement; and random bytes put in comments, commands, strings, bodies and patterns must be found again in the node they belong to. " +
			"Distinct: different sequences of node types.",
		Units: units(300, 9000),
		Run:   runP21,
	})
}

// parseAny parses a script or an expression.
func parseAny(c *Ctx, src string, expr, neovim bool) *Res {
	if expr {
		return parseExpr(c, src)
	}
	return parseFile(c, src, neovim, fname)
}

func someInput(c *Ctx) (src string, expr, neovim bool) {
	if c.R.P(0.25) {
		s, kind := inputExpr(c.R)
		c.Count("inputs: " + kind)
		return s, true, false
	}
	s, kind, nv := input(c.R)
	c.Count("inputs: " + kind)
	return s, false, nv
}

func (c *Ctx) evalRes(r *Res) {
	if r.VErr != nil {
		c.Count("outcome: syntax error")
		c.Eval(hashStr(r.VErr.Msg), true)
	} else if n := r.Node(); n != nil {
		c.Count("outcome: AST")
		c.Eval(Shape(n), true)
	} else {
		c.Eval(0, false)
	}
}

var contIndents = []string{"", "", "", " ", " ", "  ", "  ", "\t", "\t", "      ", "\t \t", strings.Repeat(" ", 83), strings.Repeat("\t", 41), strings.Repeat(" \t", 301)}

func runP11(c *Ctx, unit int) {
	r := c.R
	for i := 0; i < 40; i++ {
		src, expr, nv := someInput(c)
		relayout(c, src, expr, nv)
	}
	if unit%20 == 0 {
		notJoined(c)
	}
	if unit%10 == 0 {
		n := pick(r, corpusNames)
		relayout(c, corpusText[n], false, strings.Contains(n, "neo"))
		c.Count("whole recorded scripts")
	}
}

func relayout(c *Ctx, src string, expr, nv bool) {
	r := c.R
	s := NewSrc([]byte(src))
	for i := range s.Chars {
		if s.Chars[i].S == "\n" && i > 0 && strings.HasSuffix(s.Chars[i-1].S, "\r") {
			return
		}
	}
	base := parseAny(c, src, expr, nv)
	c.evalRes(base)
	for k := 0; k < 3; k++ {
		p := pick(r, []float64{0, 0.02, 0.1, 0.4, 1})
		if len(src) > 5000 {
			p = pick(r, []float64{0, 0.001, 0.01})
		}
		chars := s.Joined()
		breaks := 0
		b := Relayout(chars, func(i int) string {
			if i > 0 && strings.HasSuffix(chars[i-1], "\r") || !r.P(p) {
				return ""
			}
			t := ""
			for n := 1; n > 0; n-- {
				t += "\n" + pick(r, contIndents) + "\\"
				if r.P(0.1) {
					n++
				}
				breaks++
			}
			return t
		})
		// A line that began with a backslash was the first of the file; it is
		// joined if something comes before it.
		s2 := NewSrc(b)
		if len(s2.Chars) != len(s.Chars) {
			c.Count("layouts dropped: the first line begins with a backslash")
			continue
		}
		c.Add("continuations made", breaks)
		c.Count("layouts compared")
		bad := ""
		cmp := cmpAll
		cmp.MapPos = func(p ast.Pos) ast.Pos {
			i := s.At(p.Line, p.Column)
			if i < 0 {
				bad = fmt.Sprintf("position %+v is no place in the text", p)
				return p
			}
			return s2.Pos(i, p.Filename)
		}
		got := parseAny(c, string(b), expr, nv)
		d := same(base, got, cmp)
		if d == "" {
			d = bad
		}
		if d != "" {
			c.Viol("another layout, another result", fmt.Sprintf("%s\nneovim: %v expression: %v\n--- the text as it was\n%s", d, nv, expr, src), string(b))
			return
		}
	}
	if len(src) < 100 {
		c.Sample(fmt.Sprintf("%q", src))
	}
}

var notWhite = []string{"x", "\"", ":", "|", "1", "\x0b", "\x0c", "\u00a0", "\u3000", "\u2003", "\xa0", "\x00", "\x1f", "/", "'", "\\"[:0] + "\u0085", "\ufeff"}

// notJoined: a backslash that does not lead its line.
func notJoined(c *Ctx) {
	r := c.R
	for _, x := range notWhite {
		for _, ind := range []string{"", " ", "\t"} {
			for _, mid := range []string{"", " "} {
				src := "echo 1\n" + ind + x + mid + "\\ + 2\necho 3\n"
				res := parseFile(c, src, r.P(0.5), fname)
				c.Count("backslashes that do not lead a line")
				c.Eval(hashStr(x+ind+mid), true)
				ok := false
				if res.VErr != nil {
					ok = res.VErr.Line == 2
				} else if res.File != nil && len(res.File.Body) == 3 {
					e, is := res.File.Body[0].(*ast.EchoCmd)
					ok = is && len(e.Exprs) == 1 && res.File.Body[1].Pos().Line == 2 && res.File.Body[2].Pos().Line == 3
					if ok {
						_, ok = e.Exprs[0].(*ast.BasicLit)
					}
				}
				if !ok {
					c.Viol("a line is joined that is no continuation", res.show(), src)
				}
			}
		}
	}
}

// chunkReader delivers its text in random pieces.
type chunkReader struct {
	r       *Rng
	s       string
	max     int
	zero    bool // sometimes nothing and no error
	last    bool // the error comes with the last piece
	err     error
	reads   int
	zeroRun int
}

func (k *chunkReader) Read(p []byte) (int, error) {
	k.reads++
	if k.s == "" {
		return 0, k.err
	}
	if k.zero && k.zeroRun < 3 && k.r.P(0.2) {
		k.zeroRun++
		return 0, nil
	}
	k.zeroRun = 0
	n := min(len(p), len(k.s), 1+k.r.N(k.max))
	copy(p, k.s[:n])
	k.s = k.s[n:]
	if k.s == "" && k.last {
		return n, k.err
	}
	return n, nil
}

func parseReader(c *Ctx, rd io.Reader, size int, expr, neovim bool, name string, nilOpt bool) *Res {
	var r Res
	r.Panic, r.Steps, r.Exceeded = guarded(size, func() {
		if expr {
			r.Expr, r.Err = vimlparser.ParseExpr(rd)
			return
		}
		var opt *vimlparser.ParseOption
		if !nilOpt {
			opt = &vimlparser.ParseOption{Neovim: neovim}
		}
		r.File, r.Err = vimlparser.ParseFile(rd, name, opt)
	})
	errors.As(r.Err, &r.VErr)
	return &r
}

func runP19(c *Ctx, unit int) {
	r := c.R
	for i := 0; i < 25; i++ {
		src, expr, nv := someInput(c)
		for r.P(0.25) {
			// Bytes which readers of texts treat in their own ways.
			b := pick(r, []string{"\ufeff", "\ufeff", "\xff\xfe", "\xfe\xff", "\xef", "\xef\xbb", "\x00", "\x1a", "\x04", "\f", "\v", "\u0085", "\u2028", "\r", "\n\n", "\r\n", "#!x\n", "\x1f\x8b\b", "\\\n"})
			k := 0
			switch r.N(4) {
			case 0:
				k = len(src)
			case 1:
				k = r.N(len(src) + 1)
			}
			src = src[:k] + b + src[k:]
			c.Count("inputs with odd bytes")
		}
		chunked(c, src, expr, nv)
	}
	if unit%8 == 0 {
		n := pick(r, corpusNames)
		chunked(c, corpusText[n], false, strings.Contains(n, "neo"))
		c.Count("whole recorded scripts")
	}
	longLines(c)
}

func chunked(c *Ctx, src string, expr, nv bool) {
	r := c.R
	base := parseAny(c, src, expr, nv)
	c.evalRes(base)
	bad := func(key, d, src2 string) {
		c.Viol(key, fmt.Sprintf("%s\nneovim: %v expression: %v\n--- the text as it was\n%s", d, nv, expr, src), src2)
	}
	for k := 0; k < 4; k++ {
		rd := &chunkReader{r: r, s: src, max: pick(r, []int{1, 2, 7, 100, 4096, 1 << 20}), zero: r.P(0.3), last: r.P(0.5), err: io.EOF}
		max := rd.max
		var wrapped io.Reader = rd
		if r.P(0.2) {
			wrapped = bufio.NewReaderSize(rd, 16)
		}
		got := parseReader(c, wrapped, len(src), expr, nv, fname, !nv && r.P(0.3))
		c.Add("reads observed", rd.reads)
		c.Count("chunked parses")
		if d := same(base, got, cmpAll); d != "" {
			bad("chunks change the result", fmt.Sprintf("pieces of up to %d bytes: %s", max, d), src)
			return
		}
	}
	// Another file name changes the name and nothing else.
	if !expr {
		for _, name := range []string{"", "a/b c.vim", "é", "%d%s"} {
			got := parseReader(c, strings.NewReader(src), len(src), false, nv, name, false)
			want := *base
			if base.VErr != nil {
				e := *base.VErr
				e.Filename = name
				want.Err, want.VErr = &e, &e
			}
			cmp := cmpAll
			cmp.MapPos = func(p ast.Pos) ast.Pos {
				if p.Filename == fname {
					p.Filename = name
				}
				return p
			}
			c.Count("other file names")
			if d := same(&want, got, cmp); d != "" {
				bad("the file name changes the result", fmt.Sprintf("name %q: %s", name, d), src)
				return
			}
		}
	}
	// A final newline.
	if src != "" && !strings.HasSuffix(src, "\n") {
		got := parseAny(c, src+"\n", expr, nv)
		c.Count("final newline added")
		if d := same(base, got, cmpAll); d != "" {
			bad("a final newline changes the result", d, src+"\n")
			return
		}
	}
	// CR LF.
	if !strings.Contains(src, "\r") && strings.Contains(src, "\n") {
		crlf := strings.ReplaceAll(src, "\n", "\r\n")
		s2 := NewSrc([]byte(crlf))
		got := parseAny(c, crlf, expr, nv)
		c.Count("CR LF line ends")
		cmp := cmpAll
		cmp.MapPos = func(p ast.Pos) ast.Pos {
			if i := s2.At(p.Line, p.Column); i >= 0 {
				return s2.Pos(i, p.Filename)
			}
			return p
		}
		if d := same(base, got, cmp); d != "" {
			bad("CR LF line ends change more than offsets", d, crlf)
			return
		}
	}
	// Reads that fail.
	offs := []int{0, len(src), r.N(len(src) + 1), r.N(len(src) + 1)}
	if len(src) <= 60 {
		offs = offs[:0]
		for o := 0; o <= len(src); o++ {
			offs = append(offs, o)
		}
	}
	for _, o := range offs {
		e := pick(r, []error{errInjected, io.ErrUnexpectedEOF, io.ErrClosedPipe, fmt.Errorf("wrapped: %w", errInjected)})
		rd := &chunkReader{r: r, s: src[:o], max: pick(r, []int{1, 7, 4096}), zero: r.P(0.3), last: r.P(0.5), err: e}
		if o == 0 {
			rd.last = false
		}
		got := parseReader(c, rd, len(src), expr, nv, fname, false)
		c.Count("read faults injected")
		if got.Panic != "" || !errors.Is(got.Err, e) || got.File != nil || got.Expr != nil {
			bad("a read error is returned", fmt.Sprintf("the reader fails at byte %d with %q: %s", o, e, got.show()), src)
			return
		}
	}
	if len(src) < 100 {
		c.Sample(fmt.Sprintf("%q", src))
	}
}

// longLines: a line may be of any length.
func longLines(c *Ctx) {
	r := c.R
	// The time goes with the square of the length.
	n := pick(r, []int{100, 4094, 4095, 4096, 4097, 8191, 8192, 8193})
	if c.Unit%12 == 0 {
		n = pick(r, []int{65534, 65535, 65536, 65537, 70000})
	}
	if c.Unit%1000 == 999 {
		n = 200000
	}
	kind := c.Unit / 12 % 4
	filler := strings.Repeat(pick(r, []string{"a", "é", "xy z", "\xff"}), n)[:n]
	switch kind {
	case 0, 1, 2:
		q := []string{"echo '§'", "\" §", "normal! §"}[kind]
		pre := pick(r, []string{"", "let x = 1\n", "if 1\nendif\n"})
		post := pick(r, []string{"", "\n", "\nlet y = 2\n", "\n\n"})
		src := pre + strings.Replace(q, "§", filler, 1) + post
		res := parseReader(c, &chunkReader{r: r, s: src, max: pick(r, []int{1000, 4096, 1 << 20}), err: io.EOF}, len(src), false, false, fname, true)
		c.Count("long lines")
		c.Max("max bytes in a line", int64(n))
		want := []string{"'" + filler + "'", filler, "normal! " + filler}[kind]
		found := false
		stmts := 0
		if res.File != nil {
			stmts = len(res.File.Body)
			eachNode(reflect.ValueOf(res.File), func(x ast.Node) {
				switch x := x.(type) {
				case *ast.BasicLit:
					found = found || kind == 0 && x.Value == want
				case *ast.Comment:
					found = found || kind == 1 && strings.TrimLeft(x.Text, " ") == strings.TrimLeft(want, " ")
				case *ast.Excmd:
					found = found || kind == 2 && x.Command == strings.TrimRight(want, " ") || kind == 2 && x.Command == want
				}
			})
		}
		ws := 1
		if pre != "" {
			ws++
		}
		if strings.Contains(post, "y") {
			ws++
		}
		c.Eval(hashStr(fmt.Sprint(kind, n, pre, post)), true)
		if !found || stmts != ws {
			msg := res.show()
			if len(msg) > 300 {
				msg = msg[:300]
			}
			c.Viol("a long line", fmt.Sprintf("%q with %d bytes, before %q, behind %q: want %d statements, got %d, text found: %v\n%s", q, n, pre, post, ws, stmts, found, msg), src)
		}
	default:
		n = min(n, 70000)
		src := strings.Repeat("1 + ", n/4) + "1"
		res := parseReader(c, &chunkReader{r: r, s: src, max: 4096, err: io.EOF}, len(src), true, false, "", true)
		c.Count("long expressions")
		ops := 0
		e := res.Expr
		for {
			b, ok := e.(*ast.BinaryExpr)
			if !ok {
				break
			}
			ops++
			e = b.Left
		}
		c.Eval(hashStr(fmt.Sprint(kind, n)), true)
		if ops != n/4 {
			c.Viol("a long expression", fmt.Sprintf("%d operators, got %d: %v", n/4, ops, res.Err), src)
		}
	}
}

func runP21(c *Ctx, unit int) {
	if unit == 0 {
		bodyBackslash(c)
	}
	if unit < len(corpusNames) {
		n := corpusNames[unit]
		judgeText(c, corpusText[n], strings.Contains(n, "neo"))
		c.Count("whole recorded scripts")
	}
	for i := 0; i < 40; i++ {
		src, kind, nv := input(c.R)
		c.Count("inputs: " + kind)
		judgeText(c, src, nv)
		roundTrip(c)
	}
}

// bodyBackslash: Vim does not join the lines of heredocs.
func bodyBackslash(c *Ctx) {
	for _, t := range []struct{ key, src, cmd, body string }{
		{"let-heredoc-backslash", "let x =<< END\na\n \\ b\nEND\n", "", "a\n \\ b"},
		{"script-heredoc-backslash", "python << END\na\n \\ b\nEND\n", "python << END\na\n \\ b\nEND", ""},
	} {
		res := parseFile(c, t.src, false, fname)
		c.Count("body lines that begin with a backslash")
		got := ""
		if res.File != nil {
			eachNode(reflect.ValueOf(res.File), func(x ast.Node) {
				switch x := x.(type) {
				case *ast.Excmd:
					got = x.Command
				case *ast.HeredocExpr:
					var l []string
					for _, e := range x.Body {
						l = append(l, e.(*ast.BasicLit).Value)
					}
					got = strings.Join(l, "\n")
				}
			})
		}
		if got != t.cmd+t.body {
			c.KnownOr(t.key, fmt.Sprintf("a line of a heredoc that begins with a backslash is joined to the line before it: want %q, got %q", t.cmd+t.body, got), t.src)
		}
	}
}

func isBlank(s string) bool { return strings.Trim(s, " \t:|") == "" }

// judgeText compares texts in the AST with the source at their positions.
func judgeText(c *Ctx, src string, nv bool) {
	res := parseFile(c, src, nv, fname)
	if res.File == nil || res.Err != nil {
		return
	}
	f := res.File
	s := NewSrc([]byte(src))
	c.Eval(Shape(f), len(f.Body) > 0)
	// line[i] is the number of the logical line of character i.
	line := make([]int, len(s.Chars)+1)
	var texts []string
	var starts []int
	k := 0
	for i := range s.Chars {
		if i == 0 || s.Chars[i-1].S == "\n" {
			starts = append(starts, i)
			texts = append(texts, s.Line(i))
		}
		line[i] = len(starts) - 1
	}
	_ = k
	taken := make([]bool, len(starts)+1)
	failed := false
	bad := func(key, format string, a ...any) {
		if !failed {
			failed = true
			c.Viol(key, fmt.Sprintf(format, a...)+fmt.Sprintf("\nneovim: %v", nv), src)
		}
	}
	at := func(p ast.Pos) int {
		i := s.At(p.Line, p.Column)
		if i < 0 {
			bad("a position is no place in the text", "%+v", p)
			return len(s.Chars)
		}
		return i
	}
	text := func(what string, p ast.Pos, want string) {
		i := at(p)
		if failed {
			return
		}
		c.Count("texts compared: " + what)
		if got := s.Bytes(i, len(want)); got != want {
			bad("a text differs from the source", "%s at %s: %q in the AST, %q in the source", what, p, want, got)
		}
	}
	lineAt := func(p ast.Pos) {
		if i := at(p); !failed && i < len(s.Chars) {
			taken[line[i]] = true
		}
	}
	eachNode(reflect.ValueOf(f), func(n ast.Node) {
		if failed {
			return
		}
		switch n := n.(type) {
		case *ast.File:
			return
		case *ast.Comment:
			i := at(n.Quote)
			if !failed && (i >= len(s.Chars) || s.Line(i) != s.Ch(i).S+n.Text || s.Ch(i).S != `"` && !(i == 0 && s.Ch(i).S == "#")) {
				bad("a text differs from the source", "comment at %s: %q in the AST, %q in the source", n.Quote, n.Text, s.Line(i))
			}
			c.Count("texts compared: comment")
		case *ast.Excmd:
			text("command", *n.ExArg.Linepos, n.Command)
			if !failed {
				i := at(*n.ExArg.Linepos)
				for j := 0; j <= strings.Count(n.Command, "\n"); j++ {
					if l := line[min(i, len(s.Chars))] + j; l < len(taken) {
						taken[l] = true
					}
				}
			}
		case *ast.Ident:
			text("identifier", n.NamePos, n.Name)
		case *ast.CurlyNameLit:
			text("part of a curly-braces name", n.CurlyNameLit, n.Value)
		case *ast.BasicLit:
			v := n.Value
			i := at(n.ValuePos)
			if failed {
				return
			}
			if n.Kind == token.STRING && strings.HasPrefix(v, "'") && s.Ch(i).S != "'" {
				v = strings.Trim(v, "'") // the key of a literal dictionary
			}
			text("literal", n.ValuePos, v)
			if i < len(s.Chars) {
				taken[line[i]] = true
			}
		case *ast.HeredocExpr:
			text("operator", n.OpPos, "=<<")
			if failed {
				return
			}
			l := line[at(n.OpPos)]
			for _, b := range n.Body {
				if i := at(b.Pos()); !failed && (i < len(s.Chars) && starts[line[i]] != i || line[i] != l+1 || s.Line(i) != b.(*ast.BasicLit).Value) {
					bad("a text differs from the source", "line of a heredoc at %s: %q in the AST, %q in the source", b.Pos(), b.(*ast.BasicLit).Value, s.Line(i))
				}
				l++
			}
			if l+1 < len(texts) {
				taken[l+1] = true
				if m := strings.TrimLeft(texts[l+1], " \t"); m != n.EndMarker {
					bad("a heredoc ends at its marker", "marker %q, line %q", n.EndMarker, texts[l+1])
				}
			}
		case *ast.Echohl:
			if a := n.ExArg.Argpos; n.Name != "" && a != nil {
				text("highlight group", *a, n.Name)
			}
		case *ast.Catch:
			if n.Pattern != "" {
				i := at(n.Catch)
				if !failed && !strings.Contains(s.Line(i), n.Pattern) {
					bad("a text differs from the source", "pattern of :catch at %s: %q in the AST, line %q", n.Catch, n.Pattern, s.Line(i))
				}
				c.Count("texts compared: pattern")
			}
		}
		if st, ok := n.(ast.Statement); ok {
			lineAt(st.Pos())
			if e, ok := n.(ast.ExCommand); ok && !failed {
				// The command is the word at its position.
				i := at(st.Pos())
				name := e.Cmd().Name
				w := s.Line(i)
				if name != "" && !failed && (w == "" || w[0] != name[0]) && !(name == "k" || name == "delete" || name == "Next") {
					bad("a statement has the name of its command", "%T at %s is %q, the source has %q", n, st.Pos(), name, w)
				}
				c.Count("texts compared: command name")
			}
		}
	})
	if failed {
		return
	}
	// What follows :finish is not read.
	last := len(texts)
	for _, st := range f.Body {
		if e, ok := st.(*ast.Excmd); ok && e.Cmd().Name == "finish" {
			last = line[at(e.Excmd)]
		}
	}
	for l := 0; l < last; l++ {
		c.Count("lines accounted for")
		if !taken[l] && !isBlank(texts[l]) && !strings.HasPrefix(texts[l], "#!") {
			bad("a line belongs to no statement", "line %d: %q", s.Ch(starts[l]).Line, texts[l])
			return
		}
	}
	if len(src) < 150 {
		c.Sample(fmt.Sprintf("%q", src))
	}
}

// hostileText makes bytes for a text without any of the stop bytes.
func hostileText(r *Rng, stop string) string {
	var b strings.Builder
	pieces := []string{"\xff", "\x80", "\xe3\x81", "\xf0\x9f\x98\x80", "é", "あ", "\u0301", "\ufffd", "\u2028", "\u0085", "\u00a0", "\x00", "\x01", "\x0b", "\x0c", "\x1b", "\x7f", "\ufeff", "\r", "\t", " ", "\\", "\\\\", "\\n", "%", "%s", "%d", "<EOL>", "<EOF>", "<SPACE>", "\xed\xa0\x80", "\xc0\x80", "\xf8\x88\x80\x80\x80", "|", "\"", "'", "#", "{", "}", "EOF", "."}
	for n := r.N(12); n > 0; n-- {
		var p string
		if r.P(0.3) {
			p = string([]byte{byte(r.N(256))})
		} else {
			p = pick(r, pieces)
		}
		if strings.ContainsAny(p, "\n") || stop != "" && containsByte(p, stop) {
			continue
		}
		b.WriteString(p)
	}
	s := b.String()
	return strings.TrimRight(s, "\r")
}

func containsByte(s, stop string) bool {
	for i := 0; i < len(s); i++ {
		if strings.IndexByte(stop, s[i]) >= 0 {
			return true
		}
	}
	return false
}

type textT struct {
	text string // § is replaced by hostile text
	stop string // bytes which it must not contain
	find func(f *ast.File) (string, bool)
	pre  string // what is found before the text
	post string
	trim bool
}

func firstOf[T ast.Node](get func(T) string) func(f *ast.File) (string, bool) {
	return func(f *ast.File) (s string, ok bool) {
		eachNode(reflect.ValueOf(f), func(x ast.Node) {
			if n, is := x.(T); is && !ok {
				s, ok = get(n), true
			}
		})
		return
	}
}

var findLit = firstOf(func(n *ast.BasicLit) string { return n.Value })
var findExcmd = firstOf(func(n *ast.Excmd) string { return n.Command })

var textTemplates = []textT{
	{"\"§", "", firstOf(func(n *ast.Comment) string { return n.Text }), "", "", false},
	{"  let x = 1 \"§", "", firstOf(func(n *ast.Comment) string { return n.Text }), "", "", false},
	{"echo '§'", "'", findLit, "'", "'", false},
	{"echo \"§\"", "\"\\", findLit, "\"", "\"", false},
	{"let x = f('a§b', 2)", "'", findLit, "'a", "b'", false},
	{"let d = #{k: '§'}", "'", func(f *ast.File) (s string, ok bool) {
		eachNode(reflect.ValueOf(f), func(x ast.Node) {
			if d, is := x.(*ast.Dict); is {
				s, ok = d.Entries[0].Value.(*ast.BasicLit).Value, true
			}
		})
		return
	}, "'", "'", false},
	{"normal x§", "", findExcmd, "normal x", "", false},
	{"normal! a§", "", findExcmd, "normal! a", "", false},
	{"autocmd BufRead * x§", "", findExcmd, "autocmd BufRead * x", "", false},
	{"!x§", "", findExcmd, "!x", "", false},
	{"g/x/§", "", findExcmd, "g/x/", "", false},
	{"command! Foo §y", "", findExcmd, "command! Foo ", "y", false},
	{"map <F2> §z", "|\x16\\", findExcmd, "map <F2> ", "z", false},
	{"set x=§z", "|\"\x16\\", findExcmd, "set x=", "z", false},
	{"silent highlight §z", "|\"\x16\\", findExcmd, "silent highlight ", "z", false},
	{"Foo §z", "", findExcmd, "Foo ", "z", false},
	{"let x =<< END\n§\nEND", "\\", firstOf(func(n *ast.HeredocExpr) string {
		if len(n.Body) != 1 {
			return fmt.Sprintf("%d lines", len(n.Body))
		}
		return n.Body[0].(*ast.BasicLit).Value
	}), "", "", false},
	{"append\n§\n.", "\\", findExcmd, "append\n", "\n.", false},
	{"python << XX\n§\nXX", "\\", findExcmd, "python << XX\n", "\nXX", false},
	{"lua §", "<", findExcmd, "lua ", "", false},
	{"loadkeymap\n§", "\\", findExcmd, "loadkeymap\n", "", false},
	{"try\ncatch /§/\nendtry", "/\\[]", firstOf(func(n *ast.Catch) string { return n.Pattern }), "", "", false},
	{"echohl §", "|\"", firstOf(func(n *ast.Echohl) string { return n.Name }), "", "", false},
	{"syntax keyword X §z", "|\"'/=\\[", findExcmd, "syntax keyword X ", "z", false},
	{"edit §z", "|\"\x16\\+`", findExcmd, "edit ", "z", false},
}

func roundTrip(c *Ctx) {
	r := c.R
	t := pick(r, textTemplates)
	h := hostileText(r, t.stop)
	if h == "." || h == "END" || h == "XX" || h == "" && strings.Contains(t.text, "catch") {
		return
	}
	if strings.HasPrefix(t.text, "echohl") {
		h = strings.TrimLeft(h, " \t")
	}
	post := pick(r, []string{"\n", "\n\" end\n"})
	if strings.HasPrefix(t.text, "loadkeymap") {
		post = "\n"
	}
	src := pick(r, []string{"", "let x = 1\n", "\n", "é\n"[:0]}) + strings.Replace(t.text, "§", h, 1) + post
	if strings.HasPrefix(src, "let x") && (strings.Contains(t.text, "echo '") || strings.Contains(t.text, "f('a") || strings.Contains(t.text, "echo \"") || strings.Contains(t.text, "#{")) {
		src = strings.TrimPrefix(src, "let x = 1\n")
	}
	res := parseFile(c, src, false, fname)
	c.Count("hostile texts")
	if h != "" {
		c.Eval(hashStr(t.text)+uint64(len(h)), true)
	}
	if res.File == nil {
		c.Viol("a text with odd bytes is rejected", res.show(), src)
		return
	}
	got, ok := t.find(res.File)
	want := t.pre + h + t.post
	if !ok || got != want {
		c.Viol("a text is kept byte for byte", fmt.Sprintf("template %q: want %q, got %q (found: %v)", t.text, want, got, ok), src)
	}
}
