package main

import (
	"fmt"
	"reflect"
	"strings"

	"github.com/vim-jp/go-vimlparser/ast"
)

func init() {
	register(&Prop{
		ID: "P12",
		Rule: "Every prefix of every command of the frozen table, with and without another letter, digit or bang behind it, every word of up to three (thorough: four) letters, and capitalised and special names are parsed in both modes, alone and in random histories within one script, in both orders. " +
			"The oracle is a model of Vim's abbreviation rules over the frozen table; the command of the statement (name, minimal length, flags, parser) or E492 with the text and position of the command must be observed. Distinct: different words and modes.",
		Units: func(tier string) int {
			if tier == "thorough" {
				return 26*26 + 4*26 + 6000
			}
			return 26 + 26 + 200
		},
		Run: runP12,
	})
}

// asked is a command as it was written, and what it should be.
type asked struct {
	word      string
	pre, post string // lines around it
	line      string // the line of the command
	col       int    // where the command is in the line
	cmd       *CmdInfo
	bang      bool // a bang which is not allowed
	forceit   bool
	last      bool // nothing may come behind it
}

var cmdArgs = map[string][3]string{ // lines before, argument, lines behind
	"parse_cmd_append": {"", "", "x\n."}, "parse_cmd_insert": {"", "", "x\n."},
	"parse_cmd_break": {"while 1", "", "endwhile"}, "parse_cmd_continue": {"while 1", "", "endwhile"},
	"parse_cmd_call": {"", " F()", ""}, "parse_cmd_catch": {"try", " /x/", "endtry"}, "parse_cmd_finally": {"try", "", "endtry"},
	"parse_cmd_try": {"", "", "endtry"}, "parse_cmd_endtry": {"try", "", ""},
	"parse_cmd_const": {"", " x = 1", ""}, "parse_cmd_let": {"", " x = 1", ""},
	"parse_cmd_delfunction": {"", " F", ""}, "parse_cmd_echo": {"", " 1", ""}, "parse_cmd_echon": {"", " 1", ""}, "parse_cmd_echomsg": {"", " 1", ""},
	"parse_cmd_echoerr": {"", " 1", ""}, "parse_cmd_execute": {"", " 1", ""}, "parse_cmd_eval": {"", " 1", ""}, "parse_cmd_throw": {"", " 1", ""},
	"parse_cmd_if": {"", " 1", "endif"}, "parse_cmd_else": {"if 1", "", "endif"}, "parse_cmd_elseif": {"if 1", " 1", "endif"}, "parse_cmd_endif": {"if 1", "", ""},
	"parse_cmd_for": {"", " x in y", "endfor"}, "parse_cmd_endfor": {"for x in y", "", ""},
	"parse_cmd_while": {"", " 1", "endwhile"}, "parse_cmd_endwhile": {"while 1", "", ""},
	"parse_cmd_function": {"", " F()", "endfunction"}, "parse_cmd_endfunction": {"function F()", "", ""}, "parse_cmd_return": {"function F()", " 1", "endfunction"},
	"parse_cmd_lockvar": {"", " x", ""}, "parse_cmd_unlockvar": {"", " x", ""}, "parse_cmd_unlet": {"", " x", ""},
	"parse_cmd_syntax": {"", " on", ""}, "parse_wincmd": {"", " j", ""}, "parse_cmd_loadkeymap": {"", "", ""}, "parse_cmd_finish": {"", "", ""},
}

// ask makes a command of a word.
func ask(word string, bang, neovim bool, lead string) *asked {
	w := word
	if w == "" || w[0] == ' ' || w[0] == '*' && lead != "1:" {
		return nil
	}
	alpha := span(w, isAlpha)
	if alpha != "" && modifierOf(alpha) != "" {
		return nil // a command modifier
	}
	a := &asked{word: word, col: len(lead)}
	if bang {
		w += "!"
	}
	a.cmd, _ = resolve(w+" x", neovim)
	var n int
	if a.cmd, n = resolve(w+" x", neovim); a.cmd == nil {
		a.line = lead + w + " x"
		return a
	}
	arg := [3]string{"", " x", ""}
	if t, ok := cmdArgs[a.cmd.Parser]; ok {
		if n < len(word) {
			return nil // the argument begins in the word
		}
		arg = t
	}
	if bang && n == len(word) {
		if strings.Contains(" substitute smagic snomagic ", " "+a.cmd.Name+" ") || a.cmd.Name == "!" || a.cmd.Name == "#" || a.cmd.Name == "read" {
			return nil
		}
		a.forceit = true
		a.bang = !a.cmd.Has("BANG") && !a.cmd.Has("USERCMD") && a.cmd.Name != "endfunction"
	}
	a.pre, a.post = arg[0], arg[2]
	a.line = lead + w + arg[1]
	a.last = a.cmd.Parser == "parse_cmd_finish" || a.cmd.Parser == "parse_cmd_loadkeymap"
	return a
}

// judgeCmds parses the commands as one script.
func judgeCmds(c *Ctx, as []*asked, neovim bool) {
	var b strings.Builder
	line := 0
	at := make([]int, len(as))
	fail := -1
	put := func(s string) {
		if s != "" {
			b.WriteString(s + "\n")
			line += 1 + strings.Count(s, "\n")
		}
	}
	for i, a := range as {
		put(a.pre)
		at[i] = line + 1
		put(a.line)
		put(a.post)
		if fail < 0 && (a.cmd == nil || a.bang) {
			fail = i
		}
		m := uint64(0)
		if neovim {
			m = 1
		}
		c.Eval(hashStr(a.line)+m, true)
	}
	src := b.String()
	res := parseFile(c, src, neovim, fname)
	bad := func(key, format string, x ...any) {
		c.Viol(key, fmt.Sprintf(format, x...)+fmt.Sprintf("\nneovim: %v", neovim), src)
	}
	if fail >= 0 {
		a := as[fail]
		want := "E477: No ! allowed"
		if a.cmd == nil {
			want = "E492: Not an editor command: " + a.line[a.col:]
			c.Count("words that are no command")
		} else {
			c.Count("bangs that are not allowed")
		}
		if res.VErr == nil || res.VErr.Msg != want || res.VErr.Line != at[fail] || res.VErr.Column != a.col+1 {
			bad("an error is missing or wrong", "%q: want %q at %d:%d, got %s", a.line, want, at[fail], a.col+1, res.show())
		}
		return
	}
	if res.File == nil || res.Err != nil {
		bad("a command is rejected", "%s", res.show())
		return
	}
	found := map[[2]int]ast.ExCommand{}
	eachNode(reflect.ValueOf(res.File), func(n ast.Node) {
		if e, ok := n.(ast.ExCommand); ok {
			found[[2]int{n.Pos().Line, n.Pos().Column}] = e
		}
	})
	for i, a := range as {
		e := found[[2]int{at[i], a.col + 1}]
		if e == nil {
			bad("a command is lost", "%q: no statement at %d:%d", a.line, at[i], a.col+1)
			return
		}
		got := e.Cmd()
		want := ast.Cmd{Name: a.cmd.Name, Minlen: a.cmd.Min, Flags: a.cmd.Flags, Parser: a.cmd.Parser}
		c.Count("words that are a command")
		if got != want {
			bad("a word is taken for another command", "%q: want %+v, got %+v", a.line, want, got)
			return
		}
		// The statement must be of the kind which goes with the command.
		kind := strings.ToLower(strings.TrimPrefix(fmt.Sprintf("%T", e), "*ast."))
		wantKind := stmtKind(a.cmd)
		if kind != wantKind {
			bad("a command becomes another statement", "%q: want %s, got %T", a.line, wantKind, e)
			return
		}
		if x := exArg(e); x == nil || x.Forceit != a.forceit && a.cmd.Name != "read" {
			bad("a bang is lost or made up", "%q: %+v", a.line, x)
			return
		}
	}
}

func exArg(e ast.ExCommand) *ast.ExArg {
	v := reflect.ValueOf(e)
	if v.Kind() == reflect.Ptr {
		if f := v.Elem().FieldByName("ExArg"); f.IsValid() {
			if x, ok := f.Interface().(ast.ExArg); ok {
				return &x
			}
			if x, ok := f.Interface().(*ast.ExArg); ok {
				return x
			}
		}
	}
	return nil
}

func stmtKind(c *CmdInfo) string {
	switch c.Parser {
	case "parse_cmd_echo", "parse_cmd_echon", "parse_cmd_echomsg", "parse_cmd_echoerr":
		return "echocmd"
	case "parse_cmd_call":
		return "excall"
	case "parse_cmd_let", "parse_cmd_const":
		return "let"
	case "parse_cmd_break", "parse_cmd_continue", "parse_cmd_catch", "parse_cmd_delfunction", "parse_cmd_echohl", "parse_cmd_else", "parse_cmd_elseif",
		"parse_cmd_endfor", "parse_cmd_endfunction", "parse_cmd_endif", "parse_cmd_endtry", "parse_cmd_endwhile", "parse_cmd_eval", "parse_cmd_execute", "parse_cmd_finally",
		"parse_cmd_for", "parse_cmd_function", "parse_cmd_if", "parse_cmd_lockvar", "parse_cmd_return", "parse_cmd_throw", "parse_cmd_try", "parse_cmd_unlet", "parse_cmd_unlockvar", "parse_cmd_while":
		return strings.TrimPrefix(c.Parser, "parse_cmd_")
	}
	return "excmd"
}

func oneWord(c *Ctx, word string) {
	for _, nv := range []bool{false, true} {
		for _, bang := range []bool{false, true} {
			if a := ask(word, bang, nv, ""); a != nil {
				judgeCmds(c, []*asked{a}, nv)
			}
		}
	}
}

var allNames []string

func cmdNames() []string {
	if allNames == nil {
		for _, t := range [][]*CmdInfo{builtins, nvimAdd, nvimDel} {
			for _, x := range t {
				allNames = append(allNames, x.Name)
			}
		}
	}
	return allNames
}

func runP12(c *Ctx, unit int) {
	r := c.R
	letters := "abcdefghijklmnopqrstuvwxyz"
	words := 26
	if c.Thorough() {
		words = 26 * 26
	}
	switch {
	case unit < words:
		// All short words which begin with these letters.
		p := letters[unit%26 : unit%26+1]
		if c.Thorough() {
			p = letters[unit/26:unit/26+1] + p
		}
		oneWord(c, p[:1])
		oneWord(c, p)
		for _, x := range letters {
			oneWord(c, p+string(x))
			for _, y := range letters {
				oneWord(c, p+string(x)+string(y))
			}
		}
		c.Count("sets of short words")
		return
	case unit < words+26 || c.Thorough() && unit < words+4*26:
		// The prefixes of the names.
		names := cmdNames()
		k := unit - words
		step := 26
		if c.Thorough() {
			step = 4 * 26
		}
		for i := k; i < len(names); i += step {
			n := names[i]
			for j := 1; j <= len(n); j++ {
				oneWord(c, n[:j])
				for _, x := range letters + "109_AZ" {
					if j == len(n) || r.P(0.2) || c.Thorough() {
						oneWord(c, n[:j]+string(x))
					}
				}
				oneWord(c, strings.ToUpper(n[:1])+n[1:j])
				oneWord(c, strings.ToUpper(n[:1])+n[1:j]+"1")
				if a := ask(n[:j], false, false, ":  : "); a != nil {
					judgeCmds(c, []*asked{a}, false)
				}
				c.Count("prefixes")
			}
		}
		for _, nv := range []bool{false, true} {
			judgeCmds(c, []*asked{ask("*", false, nv, "1:")}, nv)
		}
		for _, n := range []string{"@", "!", "=", ">", "<", "&", "~", "#", "&&", "X", "Next", "N", "Print", "P", "Pr", "Prints", "Print2", "é", "あ", "_", "\x0b", "(", "{", "-x", "1_", "`", "]"} {
			if n == "1_" || n == "-x" {
				continue // a range
			}
			oneWord(c, n)
		}
		return
	}
	// Histories: the same words in one script, in another order and mode.
	for k := 0; k < 12; k++ {
		var ws []string
		for n := r.Range(2, 40); n > 0; n-- {
			w := pick(r, cmdNames())
			switch {
			case r.P(0.7):
				w = w[:1+r.N(len(w))]
			case r.P(0.3):
				w = strings.ToUpper(w[:1]) + w[1:1+r.N(len(w))]
			}
			switch {
			case r.P(0.1):
				w += pick(r, []string{"1", "2", "x", "s", "e", "A", "23"})
			case len(ws) > 0 && r.P(0.2):
				// a word close to one seen before
				o := pick(r, ws)
				if r.P(0.5) {
					w = o[:1+r.N(len(o))]
				} else {
					w = o + pick(r, []string{"1", "a", "e", "2x"})
				}
			}
			ws = append(ws, w)
		}
		badAt := -1
		if r.P(0.4) {
			badAt = r.N(len(ws))
		}
		for _, nv := range []bool{r.P(0.5), r.P(0.5)} {
			var as []*asked
			for i, w := range ws {
				a := ask(w, r.P(0.1), nv, pick(r, []string{"", "", "", " ", ":", "\t"}))
				if a == nil || a.last && i < len(ws)-1 || (a.cmd == nil || a.bang) && i != badAt {
					continue
				}
				as = append(as, a)
				if a.last {
					break
				}
			}
			judgeCmds(c, as, nv)
			c.Count("histories")
			c.Max("max commands in a history", int64(len(as)))
			for i, j := 0, len(ws)-1; i < j; i, j = i+1, j-1 {
				ws[i], ws[j] = ws[j], ws[i]
			}
		}
	}
}
