package main

import (
	"bytes"
	"fmt"
	"os/exec"
	"runtime"
	"strings"
	"time"

	vimlparser "github.com/vim-jp/go-vimlparser"
	"github.com/vim-jp/go-vimlparser/ast"
	"github.com/vim-jp/go-vimlparser/compiler"
	"github.com/vim-jp/go-vimlparser/verifmon"
)

func init() {
	register(&Prop{
		ID: "P02",
		Rule: "Families of inputs of growing size n for every construct: long (repeated lines, commands, bars, comments, tokens, continuations, names, script lines) and deeply nested, and random ones made by repeating random pieces. " +
			"The monitor counts the steps (functions, loops and branches of the instrumented code) and the bytes allocated while parsing, walking and compiling, and compares n, 2n and 4n: doubling the input may multiply the work by at most about four. Any input has an absolute limit of steps. Distinct: different families.",
		Units: units(96, 1200),
		Run:   runP02,
		Assume: []string{
			"Work is counted in executed blocks of the library's own Go code and bytes allocated, not in time; work inside the standard library shows only by its allocations.",
		},
	})
}

// A family is a text with repeated parts.
type family struct {
	name string
	expr bool
	gen  func(n int) string
}

func rep(s string, n int) string { return strings.Repeat(s, n) }

func around(name, pre, mid, post string) family {
	return family{name, true, func(n int) string { return rep(pre, n) + mid + rep(post, n) }}
}

func file(name, head, part, tail string) family {
	return family{name, false, func(n int) string { return head + rep(part, n) + tail }}
}

func nestFile(name, open, close string) family {
	return family{name, false, func(n int) string { return rep(open, n) + rep(close, n) }}
}

var families = []family{
	around("parens", "(", "1", ")"),
	around("open parens", "(", "", ""),
	around("lists", "[", "1", "]"),
	around("open lists", "[", "", ""),
	around("dicts", "{'a':", "1", "}"),
	around("open dicts", "{'a':", "", ""),
	around("literal dicts", "#{a:", "1", "}"),
	around("open literal dicts", "#{a:", "", ""),
	around("lambdas", "{->", "1", "}"),
	around("lambdas with parameters", "{x,y->", "1", "}"),
	around("open lambdas", "{x->", "", ""),
	around("calls", "f(", "1", ")"),
	around("open calls", "f(", "", ""),
	around("subscripts", "a[", "1", "]"),
	around("open subscripts", "a[", "", ""),
	around("slices", "a[1:", "1", "]"),
	around("slices from", "a[", "1", ":]"),
	around("ternary in the middle", "1 ? ", "1", " : 2"),
	around("ternary at the end", "1 ? 2 : ", "3", ""),
	around("open ternary", "1 ? ", "", ""),
	around("not", "!", "1", ""),
	around("minus", "-", "1", ""),
	around("plus", "+ ", "1", ""),
	around("sums", "1 + ", "1", ""),
	around("products", "1 * ", "1", ""),
	around("ors", "x || ", "1", ""),
	around("ands", "x && ", "1", ""),
	around("concatenations", "x . ", "y", ""),
	around("dot dots", "x .. ", "y", ""),
	around("comparisons in parentheses", "(1 == ", "1", ")"),
	around("members", "a.", "b", ""),
	around("methods", "", "x", "->f()"),
	around("method lambdas", "", "x", "->{y -> y}()"),
	around("nested methods", "x->f(", "1", ")"),
	around("chained calls", "", "f", "()"),
	around("chained subscripts", "", "a", "[0]"),
	around("list values", "", "[1", ", 1"),
	{"long list", true, func(n int) string { return "[" + rep("1, ", n) + "]" }},
	{"long dict", true, func(n int) string { return "{" + rep("'a': 1, ", n) + "}" }},
	{"long literal dict", true, func(n int) string { return "#{" + rep("a: 1, ", n) + "}" }},
	{"long call", true, func(n int) string { return "f(" + rep("1, ", n) + "1)" }},
	{"long lambda", true, func(n int) string {
		var b strings.Builder
		b.WriteByte('{')
		for i := 0; i < min(n, 20); i++ {
			fmt.Fprintf(&b, "a%d, ", i)
		}
		b.WriteString("... -> 1}")
		return b.String()
	}},
	{"long string", true, func(n int) string { return "'" + rep("a", n) + "'" }},
	{"long string with quotes", true, func(n int) string { return "'" + rep("''", n) + "'" }},
	{"long double quoted string", true, func(n int) string { return `"` + rep(`\"`, n) + `"` }},
	{"unclosed string", true, func(n int) string { return "'" + rep("ab", n) }},
	{"unclosed double quoted string", true, func(n int) string { return `"` + rep(`\\`, n) }},
	{"long name", true, func(n int) string { return rep("a", n) }},
	{"long autoload name", true, func(n int) string { return rep("a#", n) + "b" }},
	{"long number", true, func(n int) string { return rep("1", n) }},
	{"long hex number", true, func(n int) string { return "0x" + rep("f", n) }},
	{"long float", true, func(n int) string { return "1." + rep("0", n) }},
	{"long blob", true, func(n int) string { return "0z" + rep("00", n) }},
	{"long dotted blob", true, func(n int) string { return "0z" + rep("00.", n) + "00" }},
	{"long option", true, func(n int) string { return "&" + rep("a", n) }},
	{"long environment variable", true, func(n int) string { return "$" + rep("A", n) }},
	{"long white space", true, func(n int) string { return "1" + rep(" ", n) + "+ 1" }},
	{"curly parts", true, func(n int) string { return "a" + rep("{b}c", n) }},
	{"curly parts alone", true, func(n int) string { return "a" + rep("{b}", n) }},
	{"dict or lambda or curly", true, func(n int) string { return "[" + rep("{a -> a}, {'a': 1}, {a}b, ", n) + "]" }},
	{"curly with long expression", true, func(n int) string { return "a{" + rep("1 + ", n) + "1}" }},
	{"dict keys", true, func(n int) string { return "{" + rep("[", n) + rep("]", n) + ": 1}" }},
	{"backslash continuation in expression", true, func(n int) string { return "1" + rep("\n\\ + 1", n) }},
	{"garbage after", true, func(n int) string { return "1 " + rep("x", n) }},

	file("empty lines", "", "\n", ""),
	file("blank lines", "", " \t\n", ""),
	file("comments", "", "\" x\n", ""),
	file("long comment", "\"", "x", "\n"),
	file("bars", "", "|", "\n"),
	file("colons", "", ":", "\n"),
	file("spaces", "", " ", "x\n"),
	file("echo lines", "", "echo 1\n", ""),
	file("echo bars", "", "echo 1 | ", "\n"),
	file("long echo", "echo", " 1", "\n"),
	file("lets", "", "let x = 1\n", ""),
	file("long let list", "let [a", ", b", "] = x\n"),
	file("nested let subscripts", "let ", "a[", "\n"),
	file("unlets", "unlet a", " b", "\n"),
	file("lock names", "lockvar a", " b", "\n"),
	file("commands", "", "set x\n", ""),
	file("unknown command", "", "x", "\n"),
	file("user commands", "", "Foo bar\n", ""),
	file("long user command", "Foo ", "x", "\n"),
	file("long command argument", "set ", "x", "\n"),
	file("long trailing white space", "set x", " ", "\n"),
	file("white space pieces", "set x", " x  ", "\n"),
	file("command bars", "set x", " | set x", "\n"),
	file("backticks", "edit ", "`=1` ", "\n"),
	file("backticks unclosed", "edit ", "`", "\n"),
	file("CTRL-V", "edit ", "\x16|", "\n"),
	file("escapes", "edit ", "\\|", "\n"),
	file("modifiers", "", "silent ", "echo 1\n"),
	file("modifiers with bang", "", "silent! ", "echo 1\n"),
	file("counted modifiers", "", "9verbose ", "echo 1\n"),
	file("hides", "", "hide ", "echo 1\n"),
	file("range commas", "1", ",1", "d\n"),
	file("range signs", "1", "+1", "d\n"),
	file("range patterns", "1", "/x/", "d\n"),
	file("long range pattern", "/", "x", "/d\n"),
	file("range pattern brackets", "/", "[", "/d\n"),
	file("range pattern closed brackets", "/", "[a]", "/d\n"),
	file("range marks", "'a", "'a", "d\n"),
	file("digits", "", "1", "d\n"),
	file("file options", "edit ", "++bin ", "x\n"),
	file("encoding", "edit ++enc=", "a", " x\n"),
	file("plus command", "edit +", "a", " x\n"),
	file("plus command escapes", "edit +", "\\ ", " x\n"),
	file("shift", "", ">", "\n"),
	file("bangs", "", "!", "\n"),
	file("substitute", "s/", "a", "/b/\n"),
	file("global", "g/", "a", "/d\n"),
	file("syntax patterns", "syntax match A ", "/x/ ", "\n"),
	file("syntax brackets", "syntax match A /", "[", "/\n"),
	file("syntax equals", "syntax region A ", "start=/x/ ", "\n"),
	file("vimgrep", "vimgrep /", "x", "/ y\n"),
	file("catch pattern", "try\ncatch /", "[a]", "/\nendtry\n"),
	file("catch brackets", "try\ncatch /", "[", "/\nendtry\n"),
	file("catches", "try\n", "catch /x/\n", "endtry\n"),
	file("elseifs", "if 1\n", "elseif 1\n", "endif\n"),
	file("heredoc lines", "let x =<< END\n", "line\n", "END\n"),
	file("heredoc without end", "let x =<< END\n", "line\n", ""),
	file("heredoc flags", "let x =<< ", "trim ", "END\nEND\n"),
	file("heredocs", "", "let x =<< END\nEND\n", ""),
	file("heredoc trim indentation", "let x =<< trim END\n", " ", "END\nEND\n"),
	file("python lines", "python << EOF\n", "line\n", "EOF\n"),
	file("python without end", "python << EOF\n", "line\n", ""),
	file("append lines", "append\n", "line\n", ".\n"),
	file("append without end", "append\n", "line\n", ""),
	file("finish", "finish\n", "line\n", ""),
	file("loadkeymap", "loadkeymap\n", "line\n", ""),
	file("continuations", "echo 1", "\n\\", "\n"),
	file("continuation pieces", "echo [", "\n\\ 1,", "\n\\ ]\n"),
	file("continuations at the start", "", "\\ x\n", ""),
	file("continued comment", "\"", "\n\\ x", "\n"),
	file("carriage returns", "", "echo 1\r\n", ""),
	file("NUL", "echo '", "\x00", "'\n"),
	file("invalid UTF-8", "\"", "\xff", "\n"),
	file("multi-byte", "echo '", "あ", "'\n"),
	file("functions", "", "function F()\nendfunction\n", ""),
	file("long function name", "function ", "F", "()\nendfunction\n"),
	file("function name parts", "function a", ".b", "()\nendfunction\n"),
	file("function attributes", "function F()", " abort", "\nendfunction\n"),
	file("echohl", "echohl ", "x", "\n"),
	file("wincmds", "", "wincmd w\n", ""),
	file("delfunctions", "", "delfunction F\n", ""),
	file("calls in lines", "", "call F(1, 2)\n", ""),
	file("return", "function F()\nreturn ", "1 + ", "1\nendfunction\n"),
	file("body", "function F()\n", "  echo 1\n", "endfunction\n"),
	file("redir", "redir @", "a", "\n"),
	file("registers", "", "@\"\n", ""),
	file("normal", "normal ", "x", "\n"),
	file("map", "map a ", "x", "\n"),
	nestFile("nested if", "if 1\n", "endif\n"),
	nestFile("nested else", "if 1\nelse\n", "endif\n"),
	nestFile("nested elseif", "if 1\nelseif 2\n", "endif\n"),
	nestFile("nested while", "while 1\n", "endwhile\n"),
	nestFile("nested for", "for i in x\n", "endfor\n"),
	nestFile("nested try", "try\n", "endtry\n"),
	nestFile("nested catch", "try\ncatch\n", "endtry\n"),
	nestFile("nested finally", "try\nfinally\n", "endtry\n"),
	nestFile("nested function", "function F()\n", "endfunction\n"),
	nestFile("nested bars", "if 1 | while 2 | ", "endwhile | endif | "),
	nestFile("unclosed if", "if 1\n", ""),
	nestFile("unclosed while and break", "while 1\nbreak\n", ""),
	nestFile("mixed blocks", "if 1\nwhile 1\nfor i in x\ntry\n", "endtry\nendfor\nendwhile\nendif\n"),
	{"nested function and if", false, func(n int) string {
		return rep("function F()\nif 1\n", n) + "return\n" + rep("endif\nendfunction\n", n)
	}},
	{"deep break", false, func(n int) string {
		return "while 1\n" + rep("if 1\n", n) + rep("break\n", n) + rep("endif\n", n) + "endwhile\n"
	}},
	{"deep default arguments", false, func(n int) string {
		return "function F(a=" + rep("[", n) + rep("]", n) + ")\nendfunction\n"
	}},
}

type work3 struct {
	steps int64
	alloc int64
	bad   string
}

// measure parses, walks and compiles the text.
func measure(c *Ctx, src string, expr bool) (w work3) {
	c.Begin(src)
	var m0, m1 runtime.MemStats
	runtime.ReadMemStats(&m0)
	var panicked string
	var exceeded bool
	panicked, w.steps, exceeded = guarded(len(src), func() {
		var n ast.Node
		if expr {
			e, err := vimlparser.ParseExpr(strings.NewReader(src))
			if err != nil {
				return
			}
			n = e
		} else {
			f, err := vimlparser.ParseFile(strings.NewReader(src), fname, nil)
			if err != nil {
				return
			}
			n = f
		}
		ast.Inspect(n, func(ast.Node) bool { return true })
		var b bytes.Buffer
		compiler.Compile(&b, n)
	})
	runtime.ReadMemStats(&m1)
	w.alloc = int64(m1.TotalAlloc - m0.TotalAlloc)
	if panicked != "" {
		w.bad = panicked
	}
	if exceeded {
		w.bad = fmt.Sprintf("more than %d steps", stepLimit(len(src)))
	}
	c.Max("max steps", w.steps)
	c.Max("max steps per byte", w.steps/int64(len(src)+1))
	c.Max("max bytes of input", int64(len(src)))
	return
}

// growth compares sizes n, 2n and 4n.
func growth(c *Ctx, f family, n int) {
	s := f.gen(n)
	c.Eval(hashStr(f.name), true)
	c.Count("families measured")
	a := measure(c, s, f.expr)
	b := measure(c, f.gen(2*n), f.expr)
	d := measure(c, f.gen(4*n), f.expr)
	show := func() string {
		return fmt.Sprintf("family %q, n=%d: steps %d, %d, %d; bytes allocated %d, %d, %d for n, 2n, 4n", f.name, n, a.steps, b.steps, d.steps, a.alloc, b.alloc, d.alloc)
	}
	for _, w := range []work3{a, b, d} {
		if w.bad != "" {
			c.Viol("unbounded work", show()+": "+w.bad, s)
			return
		}
	}
	// A quadratic family multiplies the work by four each time.
	if grew(a.steps, b.steps, 2000) && grew(b.steps, d.steps, 2000) {
		c.Viol("work grows too fast", show(), s)
	} else if grew(a.alloc, b.alloc, 1<<20) && grew(b.alloc, d.alloc, 1<<20) {
		c.Viol("memory grows too fast", show(), s)
	}
}

func grew(a, b, slack int64) bool { return b > 5*a+slack }

func runP02(c *Ctx, unit int) {
	const fixed = 64
	if unit < fixed {
		for i := unit; i < len(families); i += fixed {
			growth(c, families[i], 60)
			growth(c, families[i], 300)
			if c.Thorough() {
				growth(c, families[i], 1500)
			}
		}
		switch unit {
		case 1:
			nestedCurly(c)
		case 2:
			veryDeep(c)
		}
		return
	}
	// Random families: a random piece between random others, repeated.
	for i := 0; i < 40; i++ {
		expr := c.R.P(0.5)
		pre, mid, post := "", "", ""
		for {
			pre, mid, post = soupText(c.R, c.R.Range(0, 3)), soupText(c.R, c.R.Range(0, 2)), soupText(c.R, c.R.Range(0, 3))
			if !expr && c.R.P(0.5) {
				pre, post = corpusPart(c.R, 3), ""
				if c.R.P(0.5) {
					pre = mutate(c.R, pre)
				}
			}
			if strings.Count(pre+mid+post, "{") > strings.Count(pre+mid+post, "#{") {
				continue // see nestedCurly
			}
			break
		}
		growth(c, family{fmt.Sprintf("random %q %q %q", pre, mid, post), expr, func(n int) string { return rep(pre, n) + mid + rep(post, n) }}, 30)
	}
}

// nestedCurly: each level of a curly-braces name which could also be a
// dictionary or lambda.
func nestedCurly(c *Ctx) {
	var steps []int64
	grows := 0
	for n := 2; n <= 10; n++ {
		w := measure(c, rep("{", n)+"a"+rep("}", n), true)
		if w.bad != "" {
			break
		}
		steps = append(steps, w.steps)
		if k := len(steps); k > 1 && steps[k-1]*2 > steps[k-2]*3 && n > 6 {
			grows++
		}
	}
	c.Eval(1, true)
	if grows >= 3 {
		c.KnownOr("nested-curly-exponential", fmt.Sprintf("one more level of nested braces {{{a}}} multiplies the work: steps %v for 2 to 10 levels", steps), "{{{{{{a}}}}}}")
	}
}

// veryDeep runs a deeply nested input in a process of its own.
func veryDeep(c *Ctx) {
	if c.Self == "" {
		return
	}
	run := func(kind string) (string, error) {
		cmd := exec.Command(c.Self, "-child", kind)
		var out tail
		cmd.Stdout, cmd.Stderr = &out, &out
		if err := cmd.Start(); err != nil {
			return "", err
		}
		t := time.AfterFunc(200*time.Second, func() { cmd.Process.Kill() })
		defer t.Stop()
		err := cmd.Wait()
		return out.String(), err
	}
	for _, k := range []string{"deep:20000:(", "deep:20000:[", "deep:20000:!", "deep:20000:f(", "deepfile:20000:if 1\n"} {
		out, err := run(k)
		c.Eval(hashStr(k), true)
		c.Count("deeply nested input in a child process")
		if err != nil || !strings.Contains(out, "child done") {
			c.Viol("deeply nested input", fmt.Sprintf("%q nested 20000 times: %v\n%s", k, err, out), k)
		}
	}
	out, err := run("deep:3000000:(")
	c.Eval(2, true)
	if err != nil || !strings.Contains(out, "child done") {
		what := "killed"
		if strings.Contains(out, "stack overflow") || strings.Contains(out, "stack exceeds") {
			what = "fatal error: stack overflow, which no caller can recover from"
			c.KnownOr("deep-nesting-stack-overflow", "3000000 nested parentheses end the process: "+what, "rep(\"(\", 3000000)")
			return
		}
		c.Viol("deeply nested input", fmt.Sprintf("3000000 parentheses: %s: %v\n%s", what, err, out), "deep")
	}
}

func init() { verifmon.Limit = 1 << 62 }
