package main

import (
	"fmt"
	"strings"

	"github.com/vim-jp/go-vimlparser/ast"
)

func init() {
	register(&Prop{
		ID: "P05",
		Rule: "Some 250 kinds of syntax errors with a marked position, expressions among them placed at any depth of other expressions and commands, after random valid scripts (also inside open blocks), broken by line continuations, with random garbage after them: message, line, column and offset must be those of the mark. " +
			"And any erroneous script (mutated recorded and generated scripts, token soup): valid text put before it must only move the error, text after its line must not change it, and the text before its line must have no error of its own. Distinct: different messages and templates.",
		Units: units(960, 8000),
		Run:   runP05,
	})
}

type errT struct {
	msg, text string
	top       bool // only outside of any block
}

// The mark is §. §§ means the end of the file.
var errLines = []errT{
	{`E10: \\ should be followed by /, ? or &`, `:§\x`, false},
	{`E10: \\ should be followed by /, ? or &`, `1,§\x`, false},
	{`E492: Not an editor command: \xd`, `1§\xd`, false},
	{`E492: Not an editor command: foo bar`, `§foo bar`, false},
	{`E492: Not an editor command: foo!`, `§foo!`, false},
	{`E492: Not an editor command: é`, `§é`, false},
	{`E492: Not an editor command: }`, `§}`, false},
	{`E492: Not an editor command: foo`, `:1;2§foo`, false},
	{`E492: Not an editor command: foo|bar`, `'<,'> §foo|bar`, false},
	{`E492: Not an editor command: foo`, `silent §foo`, false},
	{`E492: Not an editor command: foo`, `silent! 3verbose %§foo`, false},
	{`E492: Not an editor command: foo`, `echo 1 | §foo`, false},
	{`E492: Not an editor command: _x`, `set x | §_x`, false},
	{`E492: Not an editor command: endfoo`, `§endfoo`, false},
	{`E477: No ! allowed`, `§echo! 1`, false},
	{`E477: No ! allowed`, `§let! x = 1`, false},
	{`E477: No ! allowed`, `§if! 1`, false},
	{`E477: No ! allowed`, `§endif!`, false},
	{`E477: No ! allowed`, "function F()\nif 1\n§return! 1", false},
	{`E112: Option name missing`, `echo §&`, false},
	{`E112: Option name missing`, `let x = [§&g: ]`, false},
	{`E112: Option name missing`, `if 1 ? §&l:+1 : 2`, false},
	{`E112: Option name missing`, `let §&l: = 1`, false},
	{`unexpected token: $`, `echo §$`, false},
	{`unexpected token: $`, `call f(§$'x')`, false},
	{`unexpected token: $`, `let §$ = 1`, false},
	{`unexpected token: $`, `unlet §$-`, false},
	{`E477: No ! allowed`, `silent §call! f()`, false},
	{`E477: No ! allowed`, `1,2 §delete! x`, false},
	{`E494: Use w or w>>`, `§write>x`, false},
	{`E494: Use w or w>>`, `§w >`, false},
	{`E494: Use w or w>>`, `keepalt §update >x`, false},
	{`E474: Invalid Argument`, `edit §++foo x`, false},
	{`E474: Invalid Argument`, `edit §++ff`, false},
	{`E474: Invalid Argument`, `edit §++ff=x y`, false},
	{`E474: Invalid Argument`, `edit §++bad`, false},
	{`E474: Invalid Argument`, `edit ++bin §++enc x`, false},
	{`E474: Invalid Argument`, `edit! §++bad= x`, false},
	{`E474: Invalid Argument`, `read §++enc= x`, false},
	{`E474: Invalid Argument`, `e §++ff=dosx x`, false},
	{`E488: Trailing characters: 2`, `if 1 §2`, false},
	{`E488: Trailing characters: )`, `if 1 §) `, false},
	{`E488: Trailing characters: )`, `while f(1)§)`, false},
	{`E488: Trailing characters: z`, `for x in y §z`, false},
	{`E488: Trailing characters: x`, `try §x`, false},
	{`E488: Trailing characters: x`, "if 1\nelse §x", false},
	{`E488: Trailing characters: x`, "if 1\nendif §x", false},
	{`E488: Trailing characters: x`, "while 1\nbreak §x", false},
	{`E488: Trailing characters: 1`, "while 1\ncontinue §1", false},
	{`E488: Trailing characters: [`, "while 1\nendwhile §[", false},
	{`E488: Trailing characters: x`, "for i in j\nendfor §x", false},
	{`E488: Trailing characters: x`, "try\ncatch /a/ §x", false},
	{`E488: Trailing characters: y`, "try\ncatch /a|b/§y", false},
	{`E488: Trailing characters: x`, "try\nfinally §x", false},
	{`E488: Trailing characters: x`, "try\nendtry §x", false},
	{`E488: Trailing characters: 2`, `let x = 1 §2`, false},
	{`E488: Trailing characters: x`, `let x = 1 §x`, false},
	{`E488: Trailing characters: )`, `let [a, b] = x§)`, false},
	{`E488: Trailing characters: y`, `const x = 1 §y`, false},
	{`E488: Trailing characters: x`, `call f() §x`, false},
	{`E488: Trailing characters: 2`, `eval 1 §2`, false},
	{`E488: Trailing characters: 2`, `throw 'a' §2`, false},
	{`E488: Trailing characters: (`, `delfunction f§()`, false},
	{`E488: Trailing characters: y`, `delfunction x §y`, false},
	{`E488: Trailing characters: x`, "let x =<< END §x\nEND", false},
	{`E488: Trailing characters: 1`, "function Foo() §1", false},
	{`E488: Trailing characters: .`, "function Foo()§.bar", false},
	{`E488: Trailing characters: 2`, "function F()\nreturn 1 §2", false},
	{`Not an function call`, `call §x`, false},
	{`Not an function call`, `call §1`, false},
	{`Not an function call`, `call §'f()'`, false},
	{`Not an function call`, `call f(1)§[0]`, false},
	{`Not an function call`, `call f(1)§.x`, false},
	{`Not an function call`, `call f(1) §+ g(1)`, false},
	{`E471: Argument required`, `call§`, false},
	{`E471: Argument required`, `call §"`, false},
	{`E471: Argument required`, `call §| echo 1`, false},
	{`E471: Argument required`, `wincmd§`, false},
	{`E474: Invalid Argument`, `wincmd g§`, false},
	{`E474: Invalid Argument`, `wincmd x §y`, false},
	{`E474: Invalid Argument`, `wincmd w§x`, false},
	{`unexpected token: <EOL>`, `eval§`, false},
	{`unexpected token: <EOL>`, `throw §`, false},
	{`unexpected token: <EOL>`, `if§`, false},
	{`unexpected token: |`, `if §| endif`, false},
	{`unexpected token: <EOL>`, `while §`, false},
	{`unexpected token: <EOL>`, "if 1\nelseif§", false},
	{`unexpected token: <EOL>`, `let x =§`, false},
	{`unexpected token: )`, `let x = §)`, false},
	{`unexpected token: <EOL>`, `let x += §`, false},
	{`unexpected token: 1`, `let §1 = 2`, false},
	{`unexpected token: '`, `let §'a' = 1`, false},
	{`unexpected token: (`, `let §(x) = 1`, false},
	{`unexpected token: ]`, `let [§] = x`, false},
	{`E475 Invalid argument: =`, `let [a §= 1`, false},
	{`unexpected token: =`, `let [a, §= 1`, false},
	{`E475 Invalid argument: ,`, `let [a; b§, c] = 1`, false},
	{`unexpected token: ]`, `let [a; §] = 1`, false},
	{`E475 Invalid argument: b`, `let [a §b] = 1`, false},
	{`E461: Illegal variable name: a:1x`, `let §a:1x = 1`, false},
	{`E461: Illegal variable name: x:y`, `let §x:y = 1`, false},
	{`E461: Illegal variable name: x:y`, `let [a, §x:y] = 1`, false},
	{`E461: Illegal variable name: x:y`, `let [a; §x:y] = 1`, false},
	{`E172: Missing marker`, `let x =<<§`, false},
	{`E172: Missing marker`, `let x =<< trim §`, false},
	{`E990: Missing end marker 'END'`, "let x =<< END§§", false},
	{`E990: Missing end marker 'END'`, "let x =<< trim END\n foo\n ENDx\nEND \n§§", false},
	{`E488: Trailing characters: |`, "let x =<< END §| echo\nEND", false},
	{`E488: Trailing characters: E`, "let [a, b] =<< trim END §EOF\nEND", false},
	{`unexpected token: <EOL>`, `echo 0z.§`, false},
	{`unexpected token: =`, `let x[ §= 1`, false},
	{`unexpected token: =`, `let x[1 §= 1`, false},
	{`unexpected token: <`, `let x =§< 1`, false},
	{`E996: Cannot lock a list or dict`, `const x§.y = 1`, false},
	{`E996: Cannot lock a list or dict`, `const x§[0] = 1`, false},
	{`E996: Cannot lock a list or dict`, `const x§[0:1] = 1`, false},
	{`E996: Cannot lock an option`, `const §&x = 1`, false},
	{`E996: Cannot lock an environment variable`, `const §$x = 1`, false},
	{`E996: Cannot lock a register`, `const §@x = 1`, false},
	{`E461: Illegal variable name: x:y`, `const §x:y = 1`, false},
	{`unexpected token: 1`, `const §1 = 1`, false},
	{`unexpected token: <EOL>`, `const x = §`, false},
	{`E475 Invalid argument: =`, `const [a §= 1`, false},
	{`unexpected token: <EOL>`, `unlet§`, false},
	{`unexpected token: )`, `unlet x §)`, false},
	{`unexpected token: 1`, `unlet x §1`, false},
	{`unexpected token: (`, `unlet x f§()`, false},
	{`unexpected token: <EOL>`, `lockvar§`, false},
	{`unexpected token: <EOL>`, `lockvar 1§`, false},
	{`unexpected token: )`, `lockvar 1 x §)`, false},
	{`E461: Illegal variable name: y:z`, `lockvar x §y:z`, false},
	{`unexpected token: '`, `unlockvar x §'a'`, false},
	{`unexpected token: <EOL>`, `delfunction§`, false},
	{`unexpected token: 1`, `delfunction §1`, false},
	{`unexpected token: '`, `delfunction! §'x'`, false},
	{`Invalid Expression`, `delfunction x§[1:2]`, false},
	{`E128: Function name must start with a capital or contain a colon: foo`, `function §foo()`, false},
	{`E128: Function name must start with a capital or contain a colon: foo`, `function! §foo()`, false},
	{`unexpected token: <EOL>`, "function Foo(§", false},
	{`unexpected token: <EOL>`, "function Foo(a§", false},
	{`unexpected token: <EOL>`, "function Foo(a,§", false},
	{`unexpected token: b`, "function Foo(a §b)", false},
	{`unexpected token: ,`, "function Foo(§,)", false},
	{`E853: Duplicate argument name: a`, "function Foo(a,§a)", false},
	{`E853: Duplicate argument name: bb`, "function Foo(a, bb, c, §bb)", false},
	{`unexpected token: 1`, "function Foo(§1)", false},
	{`E125: Illegal argument: a:b`, "function Foo(§a:b)", false},
	{`E125: Illegal argument: a#b`, "function Foo(x, §a#b)", false},
	{`E125: Illegal argument: firstline`, "function Foo(§firstline)", false},
	{`E125: Illegal argument: lastline`, "function Foo(a, §lastline)", false},
	{`E475: Invalid argument: White space is not allowed before comma`, "function Foo(a§ ,b)", false},
	{`unexpected token: ,`, "function Foo(...§, a)", false},
	{`unexpected token: a`, "function Foo(... §a)", false},
	{`E989: Non-default argument follows default argument`, "function Foo(a=1,§b)", false},
	{`E989: Non-default argument follows default argument`, "function Foo(x, a = 1, §b, c=3)", false},
	{`unexpected token: ,`, "function Foo(a=§,b)", false},
	{`unexpected token: )`, "function Foo(a=§)", false},
	{`unexpected token: b`, "function Foo(a=1 §b)", false},
	{`unexpected token: foo`, "function Foo() §foo", false},
	{`unexpected token: foo`, "function Foo() abort §foo", false},
	{`unexpected token: x`, "function Foo() dict abort §x y", false},
	{`unexpected token: 1`, "function §1()", false},
	{`unexpected token: '`, "function §'a'()", false},
	{`unexpected token: <EOL>`, "function {a()§", false},
	{`unexpected token: <EOL>`, `for§`, false},
	{`Missing "in" after :for`, `for x§`, false},
	{`Missing "in" after :for`, `for x §y`, false},
	{`Missing "in" after :for`, `for x §of y`, false},
	{`Missing "in" after :for`, `for [x, y] §=`, false},
	{`unexpected token: <EOL>`, `for x in§`, false},
	{`E475 Invalid argument: in`, `for [x §in y`, false},
	{`unexpected token: 1`, `for §1 in y`, false},
	{`unexpected token: )`, `for x in §)`, false},
	{`E461: Illegal variable name: x:y`, `for §x:y in z`, false},
	{`unexpected token: ]`, `for [§] in x`, false},
	{`E580: :endif without :if`, `§endif`, true},
	{`E580: :endif without :if`, `while 1 | §endif`, false},
	{`E581: :else without :if`, `§else`, true},
	{`E581: :else without :if`, "if 1\nelse\n§else", false},
	{`E582: :elseif without :if`, `§elseif 1`, true},
	{`E582: :elseif without :if`, "if 1\nelse\n§elseif 1", false},
	{`E588: :endwhile without :while`, `§endwhile`, true},
	{`E588: :endfor without :for`, `§endfor`, true},
	{`E588: :endfor without :for`, "while 1\n§endfor", false},
	{`E586: :continue without :while or :for`, `§continue`, true},
	{`E587: :break without :while or :for`, `§break`, true},
	{`E587: :break without :while or :for`, "while 1\nendwhile\n§break", true},
	{`E587: :break without :while or :for`, "while 1\nfunction F()\n§break", false},
	{`E602: :endtry without :try`, `§endtry`, true},
	{`E603: :catch without :try`, `§catch /x/`, true},
	{`E604: :catch after :finally`, "try\nfinally\n§catch /x/", false},
	{`E606: :finally without :try`, `§finally`, true},
	{`E193: :endfunction not inside a function`, `§endfunction`, true},
	{`E133: :return not inside a function`, `§return 1`, true},
	{`E133: :return not inside a function`, "function F()\nendfunction\n§return )", true},
	{`E171: Missing :endif:    ENDFUNCTION`, "function F()\nif 1\nelse\n§endfunction", false},
	{`E600: Missing :endtry:    ENDFUNCTION`, "function F()\ntry\ncatch\n§endfunction", false},
	{`E170: Missing :endwhile:    ENDFUNCTION`, "function F()\nwhile 1\n§endfunction", false},
	{`E170: Missing :endfor:    ENDFUNCTION`, "function F()\nfor i in x\n§endfunction", false},
	{`E126: Missing :endfunction:    TOPLEVEL`, "function F()\necho 1\n§§", false},
	{`E171: Missing :endif:    TOPLEVEL`, "if 1\nelseif 2\n§§", false},
	{`E600: Missing :endtry:    TOPLEVEL`, "try\nfinally\n§§", false},
	{`E170: Missing :endwhile:    TOPLEVEL`, "while 1\nif 1\nendif\n§§", false},
	{`E170: Missing :endfor:    TOPLEVEL`, "for x in y\n§§", false},
	{`E682: Invalid search pattern or delimiter`, `/a\§`, false},
	{`E682: Invalid search pattern or delimiter`, `1,?b\§`, false},
	{`E682: Invalid search pattern or delimiter`, "try\ncatch /a\\§", false},
	{`E682: Invalid search pattern or delimiter`, `syntax match A /a\§`, false},
	{`unexpected token: )`, `execute 1 §)`, false},
	{`unexpected token: )`, `echomsg §)`, false},
	{`unexpected token: =`, `echo 1 §= 2`, false},
	{`unexpected token: )`, `echo x y§)`, false},
	{`unexpected token: ==`, `echo 1 == 2 §== 3`, false},
	{`unexpectd EOL`, `echo "a" "b§`, false},
	{`unexpected EOL`, `edit x` + "`=" + `'b§`, false},
	{"unexpected token: `", "edit `=§`", false},
	{`unexpected character: )`, "edit `=1§)`", false},
}

// init adds every token which cannot begin an expression.
func init() {
	ops := []string{"?", ":", "->", "*", "/", "%", ".", "..", "...", "||", "&&", "=", "}", ")", ",", "#", ";", "`", "is?", "isnot?"}
	for _, o := range []string{"==", "!=", ">", ">=", "<", "<=", "=~", "!~"} {
		ops = append(ops, o, o+"#", o+"?")
	}
	for _, o := range ops {
		msg := "unexpected token: " + o
		errLines = append(errLines, errT{msg, "echo [§" + o + " 1]", false}, errT{msg, "let x = (a) + [1, §" + o + " b", false}, errT{msg, "if f(1 + §" + o + "x", false}, errT{msg, "call f(§" + o, false})
		switch o {
		case ")", "`":
			errLines = errLines[:len(errLines)-1]
		}
		if o != "=" && o != "#" { // they may end the condition
			errLines = append(errLines, errT{msg, "while g:a - §" + o, false})
		}
	}
}

// Errors inside an expression, wherever it is.
var errExprs = []errT{
	{"unexpected token: <EOL>", "(1§", false},
	{"unexpected token: 2", "(1 §2)", false},
	{"unexpected token: 2", "[1 §2]", false},
	{"unexpected token: <EOL>", "[1§", false},
	{"unexpected token: <EOL>", "[1,§", false},
	{"unexpected token: ,", "[§,1]", false},
	{"unexpected token: )", "[1§)", false},
	{"unexpected token: ]", "(1§]", false},
	{"unexpected token: }", "f(1§}", false},
	{"unexpected token: 1", "{'a' §1}", false},
	{"unexpected token: <EOL>", "{'a': 1§", false},
	{"unexpected token: 2", "{'a': 1 §2}", false},
	{"unexpected token: }", "{'a': §}", false},
	{"unexpected token: ,", "{§,}", false},
	{"unexpected token: ,", "{1:2,§,}", false},
	{"unexpected token: ;", "{'a':1§;}", false},
	{"unexpected token: 1", "#{a §1}", false},
	{"unexpected token: b:", "#{a: 1 §b: 2}", false},
	{"unexpected character: '", "#{§'a b': 1}", false},
	{"unexpected character: (", "#{§(: 1}", false},
	{"unexpected character: <EOL>", "#{§", false},
	{"unexpected character: :", "#{§: 1}", false},
	{"unexpectd EOL", "#{a§", false},
	{"unexpected token: }", "{x -> §}", false},
	{"unexpected token: <EOL>", "{x -> 1§", false},
	{"E853: Duplicate argument name: x", "{x,§x -> 1}", false},
	{"E853: Duplicate argument name: y", "{x, y, §y -> 1}", false},
	{"E475: Invalid argument: White space is not allowed before comma", "{x§ ,y -> 1}", false},
	{"E125: Illegal argument: a:b", "{x, §a:b -> 1}", false},
	{"unexpected token: 2", "{-> 1 §2}", false},
	{"unexpected token: <EOL>", "1 ? 2§", false},
	{"unexpected token: 3", "1 ? 2 §3", false},
	{"unexpected token: :", "1 ? §: 2", false},
	{"unexpected token: <EOL>", "1 ? 2 :§", false},
	{"unexpected token: <EOL>", "1 +§", false},
	{"unexpected token: <EOL>", "x ||§", false},
	{"unexpected token: &&", "x || §&& y", false},
	{"unexpected token: <EOL>", "x ==# §", false},
	{"unexpected token: =~", "x !~? §=~ y", false},
	{"unexpected token: ==", "1 == §== 2", false},
	{"unexpected token: /", "1 * §/ 2", false},
	{"unexpected token: %", "1 / §% 2", false},
	{"unexpected token: ..", "'a' .. §.. 2", false},
	{"unexpected token: <EOL>", "!§", false},
	{"unexpected token: <EOL>", "-§", false},
	{"unexpected token: <EOL>", "x[§", false},
	{"unexpected token: <EOL>", "x[1§", false},
	{"unexpected token: 2", "x[1 §2]", false},
	{"unexpected token: <EOL>", "x[1:§", false},
	{"unexpected token: <EOL>", "x[1:2§", false},
	{"unexpected token: 3", "x[1:2 §3]", false},
	{"unexpected token: ]", "x[§]", false},
	{"unexpected token: <EOL>", "x[:§", false},
	{"unexpected token: <EOL>", "x[: 1§", false},
	{"unexpected token: ,", "x[1§, 2]", false},
	{"unexpected token: <EOL>", "x->§", false},
	{"E107: Missing parentheses: lambda", "x->f§", false},
	{"E107: Missing parentheses: lambda", "x->f§[1]", false},
	{"unexpected token: <EOL>", "f(§", false},
	{"unexpected token: <EOL>", "f(1§", false},
	{"unexpected token: <EOL>", "f(1,§", false},
	{"unexpected token: ,", "f(§,)", false},
	{"unexpected token: ,", "f(1,§,)", false},
	{"unexpected token: 2", "f(1 §2)", false},
	{"unexpected token: ;", "f(1§;2)", false},
	{"unexpected token: ;", "x->m(1§;2)", false},
	{"unexpected EOL", "'abc§", false},
	{"unexpected EOL", "'a''b§", false},
	{"unexpectd EOL", "\"abc§", false},
	{"unexpectd EOL", "\"a\\\"§", false},
	{"ExprTokenizer: unexpected EOL", "\"abc\\§", false},
	{"unexpected token: <EOL>", "a{§", false},
	{"unexpected token: <EOL>", "a{b§", false},
	{"unexpected token: c", "a{b §c}", false},
	{"unexpected token: }", "a{§}", false},
	{"unexpected token: <EOL>", "{§", false},
	{"unexpected token: <EOL>", "{a§", false},
	{"unexpected EOL", "{'a§", false},
	{"unexpected character: ~", "§~", false},
	{"unexpected character: ~", "1 + §~", false},
	{"unexpected token: <", "§<", false},
	{"unexpected token: ;", "§;", false},
	{"unexpected token: ...", "§...", false},
	{"unexpected token: |", "1 + §| 2", false},
	{"unexpected token: ,", "{a§, }", false},
	{"unexpected token: ,", "{1§, ", false},
	{"unexpected token: }", "{'a': 1, 'b'§}", false},
	{"unexpected token: b", "{a §b}", false},
	{"unexpected token: >", "#{-§>a}", false},
	{"unexpected token: >", "#{a: 1, -§> b}", false},
	{"unexpected token: <EOL>", "1.§", false},
	{"unexpected token: <EOL>", "x.§", false},
	{"unexpected token: <EOL>", "x . §", false},
	{"unexpected token: <EOL>", "x.. §", false},
	{"unexpected token: <EOL>", "{a{b§", false},
	{"unexpected token: <EOL>", "a{b}{§", false},
	{"E107: Missing parentheses: lambda", "x->1§", false},
	{"E107: Missing parentheses: lambda", "x->{y -> z}§", false},
	{"E107: Missing parentheses: lambda", "x->y§.z", false},
	{"E740: Too many arguments for function", "f(1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21§)", false},
	{"E973: Blob literal should have an even number of hex characters:", "", false},
}

var exprHosts = []string{"echo ", "let y = ", "let y .= ", "let [a, b] = ", "const c = ", "if ", "while ", "for i in ", "for [i, j] in ", "eval ", "throw ", "execute ", "echomsg ", "call F(", "call x.F(1, ",
	"let x[", "let x[1:", "unlet x[", "lockvar x[", "edit `=", "read x`=", "function Foo(a= ", "function Foo(a, b = 1, c = ", "silent! echon ", "1,2call F(", "delfunction d[", "function d["}

var exprWraps = []string{"[", "[1, ", "(", "f(", "f(1, ", "{'k': ", "{'a': 1, 'k': ", "#{k: ", "#{a: 1, k: ", "{-> ", "{x, y -> ", "x[", "x[1:", "x[:", "a{", "x->m(", "x->m(1, ", "1 + ", "1 ? ", "1 ? 2 : ", "! ", "- ", "x == (", "x is [", "x || ", "x && ", "x . ", "x .. ", "x * ", "d.f("}

func runP05(c *Ctx, unit int) {
	if unit%2 == 1 {
		for i := 0; i < 60; i++ {
			s, kind, nv := input(c.R)
			errorMeta(c, s, kind, nv)
			exprErrorMeta(c)
		}
		return
	}
	for i := range errLines {
		if !(errLines[i].top && c.R.P(0.3)) {
			errorTemplate(c, errLines[i], false)
		}
	}
	for _, t := range errExprs {
		if t.text != "" {
			errorTemplate(c, t, true)
		}
	}
}

// garbage is text which must not matter. Its first line is no continuation.
func garbage(r *Rng) string {
	for {
		var s string
		switch r.N(4) {
		case 0:
			s = soupText(r, r.Range(0, 10))
		case 1:
			s = corpusPart(r, 5)
		case 2:
			s = "endif\nendwhile\nendfor\nendtry\nendfunction\nEND\nEOF\n.\n"
		default:
			s, _, _ = input(r)
		}
		if !strings.HasPrefix(strings.TrimLeft(s, " \t"), "\\") {
			return s
		}
	}
}

// validPrefix writes a valid script into g.
func validPrefix(c *Ctx, g *Gen, n int) {
	for {
		g.start()
		g.scriptOpts()
		body := []ast.Statement{}
		g.top = &body
		g.cur = &body
		g.ended = false
		for ; n > 0; n-- {
			g.stmt(c.R.N(3))
		}
		return
	}
}

func errorTemplate(c *Ctx, t errT, isExpr bool) {
	r := c.R
	g := newGen(r)
	if g.pBreak > 0.1 {
		g.pBreak = 0.1
	}
	validPrefix(c, g, r.N(4))
	if len(g.w.j) > 0 && g.w.j[len(g.w.j)-1] != '\n' {
		g.w.eol()
	}
	if !t.top && !strings.Contains(t.text, "§§") {
		for _, o := range []string{"if 1", "while 2", "for i in j", "try", "function F()", "function s:g(...) abort", "if 1\nelse", "try\ncatch /x/", "try\nfinally"} {
			if r.P(0.05) {
				g.put(o)
				g.w.eol()
			}
		}
	}
	huge := r.P(0.004)
	if huge {
		g.big = bigLines
		g.hugeLines()
	}
	text := t.text
	if isExpr {
		host := pick(r, exprHosts)
		for r.P(0.5) {
			host += pick(r, exprWraps)
		}
		text = host + text
		// Some combinations make other tokens.
		for _, bad := range []string{"{{", "a{{", "!=", "- -", "!!", "1 + +", "{(", "?:"} {
			if strings.Contains(text, bad) {
				return
			}
		}
		if strings.HasPrefix(t.text, "§") && (strings.HasSuffix(host, "f(") || strings.HasSuffix(host, "(")) && t.text == "§)" {
			return
		}
	}
	if r.P(0.3) {
		g.ws(true)
	}
	if r.P(0.2) {
		g.w.put(":")
		g.ws(false)
	}
	if huge && r.P(0.5) {
		g.hugeSpace()
	}
	text = strings.TrimLeft(text, " ")
	before, after, _ := strings.Cut(text, "§")
	eof := strings.HasPrefix(after, "§")
	g.put(before)
	var want ast.Pos
	if !eof {
		want = g.w.pos()
		g.put(after)
	}
	src := g.src()
	if eof {
		if !strings.HasSuffix(src, "\n") && r.P(0.5) {
			src += "\n"
		}
		e := NewSrc([]byte(src)).EOF
		want = ast.Pos{Offset: e.Off, Line: e.Line, Column: e.Col}
	} else {
		src += "\n"
		if r.P(0.8) {
			src += garbage(r)
		}
	}
	res := parseFile(c, src, g.neovim, fname)
	c.Eval(hashStr(t.msg+t.text), true)
	c.Count("templates placed")
	for _, k := range []string{"very many lines", "very long white space"} {
		if g.kinds[k] > 0 {
			c.Count("templates behind " + k)
		}
	}
	c.Add("line continuations", g.w.breaks)
	if res.VErr == nil || res.VErr.Msg != t.msg || res.VErr.Line != want.Line || res.VErr.Column != want.Column || res.VErr.Offset != want.Offset || res.VErr.Filename != fname {
		c.Viol("a marked error", fmt.Sprintf("template %q: want error %q at %d:%d offset %d, got %s\nneovim: %v", text, t.msg, want.Line, want.Column, want.Offset, res.show(), g.neovim), src)
		return
	}
	c.Sample(fmt.Sprintf("%q: %s at %d:%d", text, t.msg, want.Line, want.Column))
}

// put writes several lines.
func (g *Gen) put(s string) {
	for i, l := range strings.Split(s, "\n") {
		if i > 0 {
			g.w.eol()
		}
		g.w.put(l)
	}
}

var eofErrors = []string{"E126:", "E171:", "E170:", "E600:", "E990:"}

// errorMeta checks an error of any script against other scripts with the same
// error.
func errorMeta(c *Ctx, src, kind string, neovim bool) {
	res := parseFile(c, src, neovim, fname)
	if res.VErr == nil {
		return
	}
	e := *res.VErr
	c.Count("errors in a " + kind)
	c.Eval(hashStr(e.Msg), true)
	first := strings.TrimLeft(src, " \t")
	check := func(what, s string, line, off int) bool {
		r2 := parseFile(c, s, neovim, fname)
		want := e
		want.Line += line
		want.Offset += off
		if r2.VErr == nil || *r2.VErr != want {
			c.Viol(what, fmt.Sprintf("want %+v, got %s\nneovim: %v\n--- the text with the error, %q at %d:%d\n%s", want, r2.show(), neovim, e.Msg, e.Line, e.Column, src), s)
			return false
		}
		c.Count(what)
		return true
	}
	if !strings.HasPrefix(first, "\\") {
		g := newGen(c.R)
		validPrefix(c, g, c.R.Range(1, 3))
		p := g.src()
		if p != "" && !strings.HasSuffix(p, "\n") {
			p += "\n"
		}
		if g.neovim == neovim && !g.ended {
			check("valid text before an error only moves it", p+src, strings.Count(p, "\n"), len(p))
		}
	}
	s := NewSrc([]byte(src))
	i := s.At(e.Line, e.Column)
	if i < 0 || i >= len(s.Chars) {
		return
	}
	j := i
	for j < len(s.Chars) && s.Chars[j].S != "\n" {
		j++
	}
	end := s.Chars[min(j, len(s.Chars)-1)].Off
	if strings.HasSuffix(src[:min(end, len(src))], "\r") {
		return // would be taken for a part of the new end of the line
	}
	check("text after the line of an error does not matter", src[:min(end, len(src))]+"\n"+garbage(c.R), 0, 0)
	check("an error is the same at the end of the file", src[:min(end, len(src))], 0, 0)
	j = i
	for j > 0 && s.Chars[j-1].S != "\n" {
		j--
	}
	if k := s.Chars[j].Off; j > 0 {
		// The line begins after the line end before it.
		k = s.Chars[j-1].Off
		for k < len(src) && src[k] != '\n' {
			k++
		}
		k++
		r3 := parseFile(c, src[:k], neovim, fname)
		ok := r3.File != nil
		if r3.VErr != nil {
			for _, p := range eofErrors {
				ok = ok || strings.HasPrefix(r3.VErr.Msg, p) && r3.VErr.Column == 0
			}
		}
		if !ok {
			c.Viol("the text before the line of an error has no error", fmt.Sprintf("error %+v of the whole text; the text before its line: %s", e, r3.show()), src)
		}
		c.Count("the text before the line of an error has no error")
	}
}

func exprErrorMeta(c *Ctx) {
	src, kind := inputExpr(c.R)
	res := parseExpr(c, src)
	if res.VErr == nil {
		return
	}
	c.Count("errors in a " + kind)
	e := *res.VErr
	c.Eval(hashStr(e.Msg), true)
	sp := strings.Repeat(pick(c.R, []string{" ", "\t"}), c.R.Range(1, 5))
	if strings.HasPrefix(strings.TrimLeft(src, " \t"), "\\") || src == "" {
		return
	}
	r2 := parseExpr(c, sp+src)
	want := e
	want.Offset += len(sp)
	if e.Line == 1 {
		want.Column += len(sp)
	}
	if r2.VErr == nil || *r2.VErr != want {
		c.Viol("white space before an expression only moves its error", fmt.Sprintf("want %+v, got %s", want, r2.show()), sp+src)
	}
	c.Count("white space before an expression only moves its error")
}
