package main

import (
	"bytes"
	_ "embed"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"

	"github.com/vim-jp/go-vimlparser/ast"
)

//go:embed data/exec.vim
var execVim string

func init() {
	register(&Prop{
		ID: "P26",
		Rule: "Vim runs generated programs and, from the same state, what their AST says: the text which a renderer of the monitor makes of nothing but the AST, each operand in parentheses and each command on a line of its own. " +
			"Value, calls traced, messages, exception, variables, buffer, registers, mappings and commands must be the same, and what Vim runs without an error must be accepted. Distinct: different shapes of AST.",
		Units: units(64, 1600),
		Run:   runP26,
		Assume: []string{
			"Programs use the language the parser supports: no ??, <<, >>, 0o, $'', $\"\" and nothing of Vim9 script.",
		},
	})
}

type execCase struct {
	kind string // "e" or "s"
	a, b string // the program and what its AST says
	err  error  // of the parser
	soup bool   // what Vim does not evaluate may be no expression
	node ast.Node
}

var (
	lambdaName = regexp.MustCompile(`<lambda>\d+|<SNR>\d+|\d+_|function\('\d+'`)
	errorCode  = regexp.MustCompile(`(?:Vim(?:\((\w+)\))?:)?(E\d+):.*`)
	caseFile   = regexp.MustCompile(`\d+[ab]\.vim`)
	margin     = regexp.MustCompile(`\n +`)
	lineMsg    = regexp.MustCompile(`(?m)^(line +\d+:|Error detected while processing.*)$\n?`)
)

// normal takes away what depends on the layout of the program.
func normal(v any) any {
	switch x := v.(type) {
	case string:
		x = lineMsg.ReplaceAllString(x, "")
		x = caseFile.ReplaceAllString(x, "x.vim")
		x = margin.ReplaceAllString(x, "\n")
		x = lambdaName.ReplaceAllString(x, "<>")
		return errorCode.ReplaceAllString(x, "$1 $2")
	case []any:
		r := make([]any, len(x))
		for i, y := range x {
			r[i] = normal(y)
		}
		return r
	}
	return v
}

// normalJSON is the normal form of what Vim wrote.
func normalJSON(m json.RawMessage) string {
	var v any
	json.Unmarshal(m, &v)
	b, _ := json.Marshal(normal(v))
	return string(b)
}

const noAnswer = "programs after which Vim does not come back"

// vimExec has Vim run the cases.
func vimExec(c *Ctx, cases []execCase, step int) [][2]json.RawMessage {
	if len(cases) == 0 {
		return nil
	}
	dir, err := os.MkdirTemp(*fTmp, "exec")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(dir)
	var in [][3]string
	write := func(i int, which, s string) string {
		if s == "" {
			return ""
		}
		f := filepath.Join(dir, fmt.Sprintf("%d%s.vim", i, which))
		if os.WriteFile(f, []byte(s), 0o644) != nil {
			panic("cannot write to the scratch directory")
		}
		return f
	}
	for i, x := range cases {
		if x.kind == "s" {
			in = append(in, [3]string{x.kind, write(i, "a", x.a), write(i, "b", x.b)})
		} else {
			in = append(in, [3]string{x.kind, x.a, x.b})
		}
	}
	b, err := json.Marshal(in)
	if err != nil {
		panic(err)
	}
	script := filepath.Join(dir, "exec.vim")
	if os.WriteFile(filepath.Join(dir, "in"), asciiJSON(b), 0o644) != nil || os.WriteFile(script, []byte(execVim), 0o644) != nil {
		panic("cannot write to the scratch directory")
	}
	cmd := exec.Command("timeout", "-s", "KILL", "20", "vim", "-Z", "-u", "NONE", "-i", "NONE", "-N", "-n", "-es", "-S", script, "-c", "qall!")
	cmd.Dir = dir
	cmd.Env = append(os.Environ(), "VMON_IN="+filepath.Join(dir, "in"), "VMON_OUT="+filepath.Join(dir, "out"), fmt.Sprintf("VMON_STEP=%d", step), "HOME="+dir, "LC_ALL=C.UTF-8")
	runErr := cmd.Run()
	b, _ = os.ReadFile(filepath.Join(dir, "out"))
	var out [][2]json.RawMessage
	for _, l := range bytes.SplitAfter(b, []byte("\n")) {
		var o [2]json.RawMessage
		if json.Unmarshal(l, &o) != nil {
			break
		}
		out = append(out, o)
	}
	if n := len(out); n < len(cases) {
		if n == 0 && c.Counters[noAnswer] > 30 {
			c.Inconcl = append(c.Inconcl, fmt.Sprintf("vim does not run: %v", runErr))
			return nil
		}
		if step > 1 {
			// one of the next cases is to blame
			m := n + step
			if m > len(cases) {
				m = len(cases)
			}
			out = append(out, vimExec(c, cases[n:m], 1)...)
			return append(out, vimExec(c, cases[m:], step)...)
		}
		c.Count(noAnswer)
		if os.Getenv("VMON_DEBUG") != "" {
			fmt.Fprintf(os.Stderr, "no answer: %v\n%s\n-----\n%s\n", runErr, cases[n].a, cases[n].b)
		}
		out = append(out, [2]json.RawMessage{json.RawMessage(`["none"]`), json.RawMessage(`["none"]`)})
		out = append(out, vimExec(c, cases[n+1:], 1)...)
	}
	return out
}

// unsupported finds what the parser does not claim to know.
var unsupported = regexp.MustCompile(`\?\?|<<|>>|\b0[oO]|\$['"]|=>|->\s*[^\sA-Za-z_{]`)

// judgeP26 finds what is wrong with what Vim did for a case.
func judgeP26(c *Ctx, x execCase, out [2]json.RawMessage) (key, detail string) {
	a, b := normalJSON(out[0]), normalJSON(out[1])
	var how []json.RawMessage
	json.Unmarshal(out[0], &how)
	ok := len(how) > 1 && strings.HasPrefix(string(how[0]), `"ok`)
	switch {
	case x.kind == "s" && ok && !failed.MatchString(a):
		c.Count("scripts without any error")
	case x.kind == "s":
		c.Count("scripts with an error somewhere")
	case x.soup:
		c.Count("mutated expressions")
	case ok:
		c.Count("expressions with a value")
	default:
		c.Count("expressions with an error")
	}
	switch {
	case x.err != nil:
		if ok && x.kind == "s" && !failed.MatchString(a) || ok && !(x.soup && lenient.MatchString(x.a)) && !afterCall.MatchString(x.a) {
			return "what Vim runs is rejected: " + keyOf(x.err.Error()), fmt.Sprintf("the parser: %v\nVim: %s", x.err, out[0])
		}
	case a != b:
		if x.kind == "s" && strings.Contains(x.a, "|") && (failed.MatchString(a) || failed.MatchString(b)) {
			// after an error Vim does not go on with the line
			c.Count("programs with an error and a bar")
			return "", ""
		}
		if x.kind == "e" && (x.soup && strings.Contains(x.a, "{") || afterCall.MatchString(x.a)) {
			c.Count("programs whose meaning depends on more than their text")
			return "", ""
		}
		if !ok && !runtimeError.MatchString(string(out[0])) {
			c.Count("programs with an error of syntax")
			return "", ""
		}
		return "the AST means something else", fmt.Sprintf("what the AST says:\n%s\n%s", x.b, difference(a, b))
	}
	return "", ""
}

// difference shows the parts of two results which differ.
func difference(a, b string) string {
	var x, y any
	json.Unmarshal([]byte(a), &x)
	json.Unmarshal([]byte(b), &y)
	s := ""
	var walk func(path string, x, y any)
	walk = func(path string, x, y any) {
		p, ok := x.([]any)
		q, ok2 := y.([]any)
		if ok && ok2 && len(p) == len(q) {
			for i := range p {
				walk(fmt.Sprintf("%s/%d", path, i), p[i], q[i])
			}
			return
		}
		m, _ := json.Marshal(x)
		n, _ := json.Marshal(y)
		if string(m) != string(n) && len(s) < 3000 {
			s += fmt.Sprintf("Vim runs the program%s: %s\n        and the AST%s: %s\n", path, m, path, n)
		}
	}
	walk("", x, y)
	return s
}

// failed finds traces of an error in the result of a script.
var failed = regexp.MustCompile(`^\["error|\bE\d{2,}`)

// runtimeError matches the errors of values, not of the syntax, which may be
// found anywhere.
var runtimeError = regexp.MustCompile(`^\["error (?:[^"]*E(121|117|684|685|716|728|729|730|731|734|735|741|745|703|706|805|806|808|118|119|605|690|691|692|693|694|695|712|714|715|717|737|740|741|742|794|795|896|897|898|899|906|907|908|976|979):|",?"?mine)`)

// lenient finds where Vim does not evaluate, and so may accept anything.
var lenient = regexp.MustCompile("[?|&{]")

// afterCall finds white space between a call and its subscript, which only
// newer versions of Vim allow, for "." only when a dictionary is returned.
var afterCall = regexp.MustCompile(`\)\s+(?:[\[(]|\.\w)`)

func keyOf(s string) string {
	return regexp.MustCompile(`\d+|"[^"]*"|'[^']*'`).ReplaceAllString(s, "N")
}

// execFixed are scripts for what is rare among the random ones.
var execFixed = []string{
	"if 1|s/a/b/|endif\n",
	"if 1|s/a/|/|endif|call T(2)\n",
	"if 1|&&|~|endif\n",
	"if 1|match Todo /a|b/|endif|call T(3)\n",
	"if 0|silent! dlist /a|b/|endif|call T(4)\n",
	"if 0|sort /a|b/ u|endif|call T(5)\n",
	"if 0|help x|endif|call T(6)\n",
	"if 0|help x||call T(7)\n",
	"if 1|filter /a|b/ let g:n|endif|call T(8)\n",
	"filter! #x|y# let g:n g:n1|call T(9)\n",
	"2c\nif 1\n.\ncall T(10)\n",
	"change\n  endif|\n.\n",
	"let d = {'in': 1}|let d.in = 2|let is = d.in|call T(is)\n",
	"let isnot = 3|let is = isnot|call T(is isnot isnot, is is isnot)|unlet is isnot\n",
	"let g:x = 1|let g:y = 2|call T(g:x ? g:x:g:y)\n",
	"function Fn(a, b = 2, ...) abort\n  return a:a . a:b . a:0\nendfunction\ncall T(Fn(1), Fn(1, 3), Fn(1, 3, 4))\n",
	"let [a, b; c] = [1, 2, 3, 4]|for [x, y] in [[a, b], [3, 4]]|call T(x, y, c)|endfor\n",
	"const g:k = [1]|call T(g:k)|lockvar 1 g:k|unlockvar! g:k\n",
	"append\n| \" x\n  .\n.\ncall T(1)\n",
	"0insert!\n\\x\n.\ncall T(1)\n",
	"let x =<< trim END\n  a\n    b\n  END\ncall T(x)\n",
	"g/a/s/a/b/|call T(1)\ncall T(2)\n",
	"normal! 2Gx|call T(1)\ncall T(2)\n",
	"execute 'call T(1)|call T(2)' |call T(3)\n",
	"let x = \"a\\\"|b\" | call T(x) \" c | d\n",
	"call T('a''|b') | call T(\"|\") \"| call T(4)\n",
	"try|throw 'a|b'|catch /a|b/|call T(v:exception)|finally|call T(1)|endtry\n",
	"while 1|call T(1)|break|endwhile|call T(2)\n",
	"call T(-2 . 3 * 4, !1 + 1, -'3'[0], 1 - 2 - 3, 8 / 4 / 2, 7 % 4 * 2)\n",
	"call T(1 ? 2 : 0 ? 3 : 4, 1 || 0 && 0, 1 == 1 ? 'a' . 'b' : 'c')\n",
	"call T([1, 2, 3, 4][1:2], [1, 2][-1], 'abc'[1:], 'abc'[:-2], {'a': {'b': 5}}.a.b)\n",
	"call T([3, 1, 2]->copy()->sort()->map({_, v -> v * 2}), -5->abs(), (-5)->abs())\n",
	"set ts=3|call T(&ts)|setlocal sw=2|call T(&l:sw + &g:ts)\n",
	"map ,q x\\|y|call T(1)\nmap ,r x\x16|y|call T(2)\n",
	"command! -nargs=* Vm call T(<q-args>)|call T(2)\nVm a|b\n",
	"redir => g:out|silent echo 1|redir END|call T(g:out)\n",
	"2,3d|1t.|$m0|call T(getline(1, '$'))\n",
	"1;/c/d a|call T(@a)\n",
	"'a,'bd|call T(1)\n",
	"silent! call T(nothing)|call T(1)\n",
	"echo 1 2|echon 'a' 'b'|echomsg 'x' . 1\n",
	"if 0\nelseif 1\ncall T(1)\nelse\ncall T(2)\nendif\n",
	"delfunction! NoSuch|call T(exists('*NoSuch'))\n",
	"eval T(1)->T()|eval [1]->map('T(v:val)')\n",
	"let $VMON_X .= 'z'|let @a .= 'y'|let &ts += 2|call T($VMON_X, @a, &ts)\n",
	"let g:l[1:2] = [8, 9]|let g:d['z'] = 1|let g:d.y = 2|call T(g:l, g:d.z)\n",
	"call T(0x1F, 0b101, 017, 1.5e2, 0z0102.03, 'x'.1.5)\n",
	"finish\ncall T((\n",
	"let x = 1 \\\n  \\ + 2\n  \"\\ comment\n  \\ + 3\ncall T(x)\n",
	"windo let w:q=1|call T(3)\ncall T(w:q)\n",
	"autocmd VmonG User VmonE call T(1)|call T(2)\ndoautocmd User VmonE|call T(3)\n",
	"lua << END\nprint(1)\nEND\n",
	"nnoremap <silent> ,a :call T(1)<Bar>call T(2)<CR>|call T(3)\n",
	"wincmd w|wincmd =|wincmd | |call T(1)\n",
	"return|call T(1)\n",
	"s/a/\\=T('|')/|call T(2)\n",
	"vimgrep /a|b/j %|call T(1)\n",
	"echo 'a' |\" c\ncall T(1)\n",
	"let g:x = {a, b -> [a, b]}|call T(g:x(1, 2), call(g:x, [3, 4]))\n",
	"exe 'let g:z = 1'|unlet g:z|call T(exists('g:z'))\n",
}

// execKnown are the scripts of the known findings.
var execKnown = map[string]string{
	"let x = 1|let y = 2|call T([1, 2, 3, 4][x:y])\n": "name-with-colon",
	"let x = 1|let y = 2|call T(1 ? x:y)\n":           "name-with-colon",
	"call copy([1])->T()\n":                           "call-method",
	"let g:l = [1]|call copy(g:l)->T()\n":             "call-method",
}

func runP26(c *Ctx, unit int) {
	r := c.R
	if s := os.Getenv("VMON_REAL"); s != "" {
		// for debugging: one of the scripts of Vim
		n, _ := strconv.Atoi(s)
		realScript(c, realFiles[n])
		return
	}
	var cases []execCase
	add := func(src string, soup bool) {
		if unsupported.MatchString(src) {
			return
		}
		x := execCase{kind: "e", a: src, soup: soup}
		res := parseFile(c, "let g:r = "+src+"\n", false, "")
		if res.Exceeded || res.Panic != "" {
			c.Viol("the parser fails", res.show(), src)
			return
		}
		x.err = res.Err
		if x.err == nil {
			if len(res.File.Body) != 1 {
				c.Count("expressions with something behind them")
				return
			}
			l, ok := res.File.Body[0].(*ast.Let)
			if !ok {
				c.Viol("no assignment", fmt.Sprintf("%T", res.File.Body[0]), src)
				return
			}
			v := &vimText{}
			x.b = v.expr(l.Right)
			if v.err != "" {
				c.Viol("the AST cannot be written: "+keyOf(v.err), v.err, src)
				return
			}
			x.node = l.Right
		}
		cases = append(cases, x)
	}
	for i := 0; i < 250; i++ {
		x := newXg(r)
		t := x.top(1 + r.N(4))
		if len(t) > 80 {
			continue
		}
		for k := range x.kinds {
			c.Count(k)
		}
		add(x.textOf(t), false)
		if i%2 == 0 {
			add(x.textOf(x.mutTokens(t)), true)
		}
	}
	script := func(src string) {
		y := execCase{kind: "s", a: src}
		res := parseFile(c, src, false, "")
		if res.Exceeded || res.Panic != "" {
			c.Viol("the parser fails", res.show(), src)
			return
		}
		y.err = res.Err
		if y.err == nil {
			v := &vimText{}
			v.body(res.File.Body)
			y.b = v.b.String() + "\n"
			if v.err != "" {
				c.Viol("the AST cannot be written: "+keyOf(v.err), v.err, src)
				return
			}
		}
		cases = append(cases, y)
	}
	if unit == 0 {
		for _, src := range execFixed {
			script(src)
		}
		var known []string
		for src := range execKnown {
			known = append(known, src)
		}
		sort.Strings(known)
		for _, src := range known {
			script(src)
		}
	}
	for k := 0; k < 3 && len(realFiles) > 0; k++ {
		i := unit*3 + k
		if !c.Thorough() {
			i = r.N(len(realFiles))
		}
		realScript(c, realFiles[i%len(realFiles)])
	}
	for i := 0; i < 60; i++ {
		x := newXg(r)
		src := x.script()
		for k := range x.kinds {
			c.Count(k)
		}
		script(src)
	}
	if dir := os.Getenv("VMON_CASES"); dir != "" {
		cases = cases[:0]
		for i := 0; ; i++ {
			b, err := os.ReadFile(fmt.Sprintf("%s/%d", dir, i))
			if err != nil {
				break
			}
			script(string(b))
		}
	}
	out := vimExec(c, cases, 50)
	if len(out) < len(cases) {
		return
	}
	for i, x := range cases {
		key, detail := judgeP26(c, x, out[i])
		if key != "" && x.kind == "s" {
			// another script may be to blame
			if again := vimExec(c, []execCase{x}, 1); len(again) == 1 {
				if key, detail = judgeP26(c, x, again[0]); key == "" {
					c.Count("scripts which behave otherwise alone")
				}
			}
		}
		if key != "" {
			if os.Getenv("VMON_DEBUG") != "" {
				fmt.Fprintf(os.Stderr, "@@ %s\n%s\n@@D %s\n@@E\n", key, x.a, detail)
			}
			if k := execKnown[x.a]; k != "" {
				key = k
				if len(detail) > 150 {
					detail = detail[:150] + "..."
				}
			}
			c.KnownOr(key, detail, x.a)
		}
		c.Eval(hashStr(x.b), x.err == nil)
		if i < 2 {
			c.Sample(x.a)
		}
	}
}
