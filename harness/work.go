package main

import (
	"embed"
	"os"
	"sort"
	"strings"
)

//go:embed corpus
var corpusFS embed.FS

var corpusNames []string
var corpusText = map[string]string{}

func init() {
	es, _ := corpusFS.ReadDir("corpus")
	for _, e := range es {
		b, _ := corpusFS.ReadFile("corpus/" + e.Name())
		corpusNames = append(corpusNames, e.Name())
		corpusText[e.Name()] = string(b)
	}
	sort.Strings(corpusNames)
}

// corpusPart returns some consecutive lines of a file.
func corpusPart(r *Rng, max int) string {
	t := corpusText[pick(r, corpusNames)]
	if len(realFiles) > 0 && r.P(0.4) {
		if b, err := os.ReadFile(pick(r, realFiles)); err == nil { // a script that comes with Vim
			t = string(b)
		}
	}
	lines := strings.SplitAfter(t, "\n")
	if len(lines) <= 2 {
		return t
	}
	i := r.N(len(lines))
	if r.P(0.3) {
		i = 0
	}
	return strings.Join(lines[i:min(len(lines), i+r.Range(1, max))], "")
}

var soup = []string{
	"a", "b:", "s:x", "g:", "1", "0x1F", "1.5", "0z12", "0b1", "'", "\"", "''", "\"\\\"", "(", ")", "[", "]", "{", "}", "#{", "->", "{->", "{x->", "...",
	"+", "-", "*", "/", "%", ".", "..", "!", "&", "&&", "|", "||", "?", ":", "==", "=~", "!=", "!~#", "is", "isnot?", ">=", "<", "=", "=<<", ",", ";", "@", "@@", "@\"", "$A", "&o", "&l:x",
	"<SID>", "`", "``=", "`=", "~", "^", "\\", "\\\n", "\n\\", "\n  \\", "\n", "\n", " ", " ", "\t", "é", "\xff", "\x80\xe3", "あ", "\x00", "\x16", "\r", "\r\n", "　",
	"let ", "const ", "if ", "else", "elseif ", "endif", "while ", "endwhile", "for ", " in ", "endfor", "function F(", "endfunction", "return ", "try", "catch ", "catch /", "finally", "endtry",
	"throw ", "echo ", "echomsg ", "execute ", "call ", "eval ", "unlet ", "lockvar ", "delfunction ", "break", "continue", "finish", "loadkeymap", "append", "insert", "python <<EOF\n", "lua << ", "EOF\n", ".\n",
	"silent! ", "silent ", "tab ", "verbose ", "3verbose ", "hide ", "vertical ", "1,2", "%", ".,$", "'<,'>", "/x/", "?x?", "\\/", "++enc=", "++ff=dos", "++bin", "++bad=", "+cmd", ">>", "!sh", "w ", "r!", "e ", "s/a/b/", "g/x/d", "norm ", "map a b", "syntax match A /x/", "wincmd ", "vimgrep /a|b/ ",
	"echohl ", "Foo ", "py3 ", "autocmd ", "command! ", "redir @", "set x=", "normal! ", "doautocmd ", "k", "k a", "dl", "0", "007", "1e", "9999999999999999999999", "\" comment", "#!", "* ", "@:", "= ", ":", "::",
	"abort", "range", "dict", "closure", "a:0", "firstline", "trim ", "eval ", "if 1", "F()", "x.y", "x[1:2]", "{a: 1}", "{'a': 1}", "[1,2]", "[a, b; c]",
}

func soupText(r *Rng, n int) string {
	var b strings.Builder
	for ; n > 0; n-- {
		b.WriteString(pick(r, soup))
		if r.P(0.2) {
			b.WriteByte(' ')
		}
	}
	return b.String()
}

const mutBytes = "()[]{}\"'|\\:#.,=<>!? \t\n\rx0aZ_&$@%-+*/\xff"

// mutate changes the text in a few places.
func mutate(r *Rng, s string) string {
	b := []byte(s)
	for k := r.Range(1, 4); k > 0; k-- {
		n := len(b)
		i := r.N(n + 1)
		switch r.N(11) {
		case 0: // delete
			j := min(n, i+r.Range(1, 4))
			b = append(b[:i:i], b[j:]...)
		case 1: // truncate
			if r.P(0.3) {
				b = b[:i]
			}
		case 2: // a byte
			b = append(b[:i:i], append([]byte{byte(r.N(256))}, b[i:]...)...)
		case 3, 4, 5: // something meaningful
			b = append(b[:i:i], append([]byte(pick(r, soup)), b[i:]...)...)
		case 6: // copy a piece
			j := r.N(n + 1)
			l := min(n, j+r.N(30))
			p := append([]byte(nil), b[j:l]...)
			b = append(b[:i:i], append(p, b[i:]...)...)
		case 7: // replace a byte
			if i < n {
				b[i] = mutBytes[r.N(len(mutBytes))]
			}
		case 8: // swap two lines
			l := strings.SplitAfter(string(b), "\n")
			x, y := r.N(len(l)), r.N(len(l))
			l[x], l[y] = l[y], l[x]
			b = []byte(strings.Join(l, ""))
		case 10: // a character which is nearly the same
			if i < n {
				b = append(b[:i:i], append([]byte(relative(r, b[i])), b[i+1:]...)...)
			}
		case 9: // drop or double a line
			l := strings.SplitAfter(string(b), "\n")
			x := r.N(len(l))
			if r.P(0.5) {
				l[x] += l[x]
			} else {
				l[x] = ""
			}
			b = []byte(strings.Join(l, ""))
		}
	}
	return string(b)
}

// relative is a character that folds to the one given, or is classed with it
// by Unicode but not by Vim.
func relative(r *Rng, x byte) string {
	switch {
	case x == 's' || x == 'S':
		return "\u017f"
	case x == 'k' || x == 'K':
		return "\u212a"
	case x == 'i' || x == 'I':
		return pick(r, []string{"\u0130", "\u0131"})
	case x == ' ' || x == '\t':
		return pick(r, []string{"\u00a0", "\u3000", "\f", "\v", "\u0085", "\u2003"})
	case x >= '0' && x <= '9':
		return pick(r, []string{"\u0663", "\uff19", "\u00b2"})
	case x >= 'a' && x <= 'z':
		return pick(r, []string{"\u00e9", "\uff41", "\u00aa", string(rune(x - 32))})
	case x >= 'A' && x <= 'Z':
		return pick(r, []string{"\u00c9", "\uff21", string(rune(x + 32))})
	case x > ' ' && x < 0x7f:
		return string(rune(x) + 0xfee0) // fullwidth forms
	}
	return "\x01"
}

// input makes a script of any kind. The kind is for the evidence.
func input(r *Rng) (src, kind string, neovim bool) {
	neovim = r.P(0.3)
	valid := func() string {
		g := newGen(r)
		g.scriptOpts()
		g.neovim = neovim
		g.script(r.Range(1, 12))
		return g.src()
	}
	switch k := r.N(100); {
	case k < 15:
		return valid(), "generated script", neovim
	case k < 40:
		return mutate(r, valid()), "mutated generated script", neovim
	case k < 55:
		return corpusPart(r, 60), "piece of a recorded script", neovim
	case k < 75:
		return mutate(r, corpusPart(r, 30)), "mutated recorded script", neovim
	case k < 95:
		return soupText(r, r.Range(1, 25)), "token soup", neovim
	}
	if r.P(0.7) {
		return nearError(r), "near a syntax error", neovim
	}
	b := make([]byte, r.N(60))
	for i := range b {
		b[i] = byte(r.N(256))
	}
	return string(b), "random bytes", neovim
}

// nearError is a statement with a syntax error, changed a little or not.
func nearError(r *Rng) string {
	s := errorText(r, r.N(len(errLines)+len(errExprs)))
	if r.P(0.5) {
		s = mutate(r, s)
	}
	return s + "\n"
}

func errorText(r *Rng, k int) string {
	s := ""
	if k < len(errLines) {
		s = errLines[k].text
	} else {
		s = pick(r, exprHosts) + errExprs[k-len(errLines)].text
	}
	return strings.ReplaceAll(s, "§", "")
}

// inputExpr makes an expression of any kind.
func inputExpr(r *Rng) (src, kind string) {
	valid := func() string {
		g := newGen(r)
		e := g.expr(1, r.Range(1, 5))
		g.emit(e.t)
		return g.src()
	}
	switch k := r.N(100); {
	case k < 30:
		return valid(), "generated expression"
	case k < 60:
		return mutate(r, valid()), "mutated expression"
	}
	return soupText(r, r.Range(1, 15)), "token soup expression"
}
