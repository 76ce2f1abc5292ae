package main

import (
	"fmt"
	"strings"

	"github.com/vim-jp/go-vimlparser/ast"
)

// This file generates scripts which Vim can run; see execgen.go.

// scope remembers which variables are known where a block begins.
type scope struct{ n, s, l, d int }

func (x *xg) mark() scope { return scope{len(x.nums), len(x.strs), len(x.lists), len(x.dicts)} }
func (x *xg) release(m scope) {
	x.nums, x.strs, x.lists, x.dicts = x.nums[:m.n], x.strs[:m.s], x.lists[:m.l], x.dicts[:m.d]
}

// known records that the name has a value of the kind.
func (x *xg) known(kind int, name string) {
	x.forget(name)
	switch kind {
	case xN:
		x.nums = append(x.nums, name)
	case xS:
		x.strs = append(x.strs, name)
	case xL:
		x.lists = append(x.lists, name)
	case xD:
		x.dicts = append(x.dicts, name)
	}
}

// forget makes names of other kinds unknown; what another block knows of them
// may be wrong from then on, which costs no more than an error of Vim's.
func (x *xg) forget(name string) {
	for _, l := range []*[]string{&x.nums, &x.strs, &x.lists, &x.dicts} {
		for i, n := range *l {
			if n == name {
				(*l)[i] = map[*[]string]string{&x.nums: "g:n", &x.strs: "g:s", &x.lists: "g:l", &x.dicts: "g:d"}[l]
			}
		}
	}
}

// variable is a name to assign to.
func (x *xg) variable() string {
	p := []string{"g:a1", "g:a2", "g:long_name", "pv1", "pv2", "s:q", "s:r", "b:z", "w:k", "t:m", "g:is", "g:vmon#y", "pvin", "is", "isnot", "g:in", "not"}
	if x.inFn > 0 {
		p = append(p, "l:x", "l:y", "loc", "loc2", "l:x", "loc")
	}
	return pick(x.r, p)
}

func (x *xg) depthOf() int { return pick(x.r, []int{0, 0, 1, 1, 1, 2, 2, 3}) }

func (x *xg) ex(kind int) []Tok { return x.e(kind, 1, x.depthOf()) }

// newline makes sure that what follows begins a line.
func (x *xg) newline() {
	if !x.lineStart() {
		x.w.eol()
	}
	x.argJ = -1
}

var quietMods = []string{"silent", "silent", "silent!", "keepjumps", "lockmarks", "noautocmd", "keepalt", "keepmarks", "keeppatterns", "keepj", "sil", "sil!", "noa", "lockm", "unsilent", "0verbose", "tab", "vertical", "belowright", "confirm"}

// cmd writes the name of a command.
func (x *xg) cmd(name string, bang bool, t []Tok) {
	if x.bare {
		x.bare = false
	} else if x.p(0.05) {
		x.wsc()
		m := pick(x.r, quietMods)
		x.count("modifier")
		x.w.put(m)
		x.ws(true)
	}
	first := byte(' ')
	for i := len(t) - 1; i >= 0; i-- {
		if t[i].T != "" {
			first = t[i].T[0]
		}
	}
	if _, ok := x.command(name, bang, first); !ok {
		panic("no name for " + name)
	}
	x.count("command " + name)
}

// simple writes a command with its argument and ends it.
func (x *xg) simple(name string, t []Tok, flags int) {
	x.cmd(name, false, t)
	x.emit(t)
	x.term(flags)
}

func (x *xg) stmts(n, d int) {
	for ; n > 0; n-- {
		x.statement(d)
	}
}

func (x *xg) block(d, term int) {
	m := x.mark()
	x.term(term)
	x.stmts(1+x.r.N(3), d-1)
	x.release(m)
}

func (x *xg) trace(args ...[]Tok) {
	x.simple("call", x.fcall("T", args...), tAll)
}

func (x *xg) statement(d int) {
	if x.p(0.04) {
		x.newline()
		switch x.r.N(3) {
		case 0:
			x.w.eol()
		case 1:
			x.ws(true)
			x.comment()
		default:
			x.w.put(":")
			x.w.eol()
		}
		return
	}
	k := x.r.N(100)
	if d <= 0 && k >= 78 {
		k = x.r.N(78)
	}
	switch {
	case k < 24:
		x.xlet()
	case k < 32:
		x.xecho()
	case k < 42:
		x.xcall()
	case k < 47:
		x.xexecute()
	case k < 51:
		x.xunlet()
	case k < 73:
		x.excmd()
	case k < 75:
		x.xheredoc()
	case k < 78:
		x.jump()
	case k < 84:
		x.xif(d)
	case k < 87:
		x.xwhile(d)
	case k < 91:
		x.xfor(d)
	case k < 96:
		x.xtry(d)
	default:
		if x.inFn == 0 && x.inLoop == 0 {
			x.xfunction(d)
		} else {
			x.xif(d)
		}
	}
}

func (x *xg) opTok(op string) Tok { return Tok{T: op, K: kCmp, Pre: preAny} }

func (x *xg) xlet() {
	switch k := x.r.N(20); {
	case k < 9:
		kind := pick(x.r, []int{xN, xN, xS, xS, xL, xD})
		v := x.variable()
		t := []Tok{id(v)}
		name := "let"
		if x.p(0.08) {
			x.nconst++
			v = fmt.Sprintf("%s%d", pick(x.r, []string{"g:const", "s:const", "konst"}), x.nconst)
			t = []Tok{id(v)}
			name = "const"
		} else if x.p(0.1) {
			// curly braces
			t = []Tok{id("g:c"), glue("{"), str(pick(x.r, []string{"'x'", "'y'", "\"z\""})), Tok{T: "}"}, {T: "_", K: kName, Pre: preNone}}
			v = ""
		}
		e := x.ex(kind)
		x.simple(name, cat(t, x.opTok("="), e), tAll)
		if v != "" {
			x.known(kind, v)
		}
	case k < 12:
		if len(x.nums) == 0 && len(x.strs) == 0 && len(x.lists) == 0 {
			x.trace(x.ex(xN))
			return
		}
		switch y := x.r.N(3); {
		case y == 0 && len(x.nums) > 0:
			x.simple("let", cat(id(pick(x.r, x.nums)), x.opTok(pick(x.r, []string{"+=", "-=", "*=", "/=", "%="})), x.ex(xN)), tAll)
		case y == 1 && len(x.lists) > 0:
			x.simple("let", cat(id(pick(x.r, x.lists)), x.opTok("+="), x.ex(xL)), tAll)
		case len(x.strs) > 0:
			x.simple("let", cat(id(pick(x.r, x.strs)), x.opTok(pick(x.r, []string{".=", "..="})), x.ex(pick(x.r, []int{xN, xS, xS}))), tAll)
		default:
			x.simple("let", cat(id("g:n1"), x.opTok("+="), x.ex(xN)), tAll)
		}
	case k < 14:
		a, b, c := x.variable(), x.variable(), x.variable()
		t := []Tok{{T: "["}, id(a), {T: ","}, id(b)}
		if x.p(0.4) {
			t = append(t, Tok{T: ";"}, id(c), Tok{T: "]"}, x.opTok("="))
			t = cat(t, "[", x.ex(xN), ",", x.ex(xS), ",", x.ex(xN), "]")
			x.forget(c)
		} else if x.p(0.2) {
			t = cat(Tok{T: "["}, id("g:n"), ",", id("g:n1"), "]", x.opTok(pick(x.r, []string{"+=", "-=", "*="})), "[", x.ex(xN), ",", x.ex(xN), "]")
			x.simple("let", t, tAll)
			return
		} else {
			t = append(t, Tok{T: "]"}, x.opTok("="))
			t = cat(t, "[", x.ex(xN), ",", x.ex(xS), "]")
		}
		x.simple("let", t, tAll)
		x.forget(a)
		x.forget(b)
	case k < 17:
		switch x.r.N(7) {
		case 0:
			x.simple("let", cat(Tok{T: pick(x.r, []string{"&ts", "&l:ts", "&g:sw", "&l:tw", "&tabstop"}), K: kName}, x.opTok(pick(x.r, []string{"=", "+="})), num(pick(x.r, []string{"1", "3", "0x4"}))), tAll)
		case 1:
			x.simple("let", cat(Tok{T: pick(x.r, []string{"@a", "@b", "@z", "@/", "@\""})}, x.opTok(pick(x.r, []string{"=", ".=", "="})), x.ex(xS)), tAll)
		case 2:
			x.simple("let", cat(Tok{T: "$VMON_X", K: kName}, x.opTok(pick(x.r, []string{"=", ".="})), x.ex(xS)), tAll)
		case 3:
			x.simple("let", cat(x.dotName("g:d", pick(x.r, []string{"a", "new", "is", "b"})), x.opTok("="), x.ex(x.any())), tAll)
		case 4:
			x.simple("let", cat(id("g:d"), glue("["), x.ex(xS), "]", x.opTok("="), x.ex(x.any())), tAll)
		case 5:
			x.simple("let", cat(id("g:l"), glue("["), num(pick(x.r, []string{"0", "1", "2"})), "]", x.opTok(pick(x.r, []string{"=", "+="})), x.ex(xN)), tAll)
		default:
			x.simple("let", cat(id("g:l"), glue("["), pick(x.r, []string{"0", "1"}), ":", pick(x.r, []string{"", "1"}), glue("]"), x.opTok("="), "[", x.ex(xN), ",", x.ex(xN), "]"), tAll)
		}
	case k < 18:
		x.simple("let", cat(x.dotName("g:d", "in"), glue("."), Tok{T: "x", K: kName, Pre: preNone}, x.opTok(pick(x.r, []string{"+=", "-=", "="})), x.ex(xN)), tAll)
	default:
		v := pick(x.r, []string{"s:q", "b:z", "w:k", "g:Fv", "t:m"}) // others have to begin with a capital
		x.simple("let", cat(id(v), x.opTok("="), x.e(xF, 1, x.depthOf())), tAll)
		x.forget(v)
	}
}

func (x *xg) exprList() []Tok {
	var t []Tok
	for k := 1 + x.r.N(3); k > 0; k-- {
		e := append([]Tok{}, x.ex(x.any())...)
		if len(t) > 0 {
			// what may not be taken for part of the one before
			switch c := e[0].T[0]; {
			case isWord(c) || c == '\'' || c == '"' || c == '@' || c == '$':
				e[0].Pre = preMust
			default:
				e = x.fcall("Id", e) // a bracket might belong to what is before
				e[0].Pre = preMust
			}
			if strings.HasPrefix(e[0].T, "is") || e[0].T == "in" {
				e = cat("g:n")
				e[0].Pre = preMust
			}
		}
		t = append(t, e...)
	}
	return t
}

func (x *xg) xecho() {
	name := pick(x.r, []string{"echo", "echo", "echon", "echomsg"})
	if x.inTry > 0 && x.p(0.1) {
		name = "echoerr"
	}
	if x.p(0.08) {
		x.simple("echohl", []Tok{{T: pick(x.r, []string{"Error", "None", "NONE", "Todo"})}}, tAll)
		return
	}
	var t []Tok
	if !x.p(0.05) {
		t = x.exprList()
	}
	x.simple(name, t, tBar)
}

func (x *xg) xcall() {
	switch x.r.N(9) {
	case 0:
		x.simple("call", append(cat(x.dotName("g:d", "f"), glue("(")), x.argList([][]Tok{x.ex(xN)})...), tAll)
	case 1:
		x.simple("call", x.fcall("Tr", x.ex(xN)), tAll)
	case 2:
		x.wsc()
		if x.lineStart() {
			x.w.put(":")
		}
		x.w.put(pick(x.r, []string{"1,2", "2", "%", "$", ".,$", "2,3", "1;3"}))
		x.bare = true
		x.simple("call", x.fcall(pick(x.r, []string{"Tr", "T"}), x.ex(xN)), tAll)
	case 3:
		if len(x.fns) > 0 {
			f := pick(x.r, x.fns)
			x.simple("call", x.fcall(f, x.ex(xN)), tAll)
			return
		}
		x.trace(x.ex(xS))
	case 4:
		x.simple("eval", x.numPost(1), tAll)
	case 5:
		if len(x.fns) > 0 {
			f := pick(x.r, x.fns)
			x.trace(x.fcall(f, x.ex(xN), x.ex(xS)))
			return
		}
		x.trace(x.ex(xL))
	default:
		x.trace(x.ex(x.any()), x.ex(x.any()))
	}
}

func (x *xg) xexecute() {
	switch x.r.N(6) {
	case 0:
		x.simple("execute", cat(str("'let g:ex ='"), Tok{T: ".", Pre: preMust}, str("' '"), Tok{T: ".", Pre: preMust}, x.fcall("string", x.ex(x.any()))), tBar)
	case 1:
		x.simple("execute", cat(str("'let g:ex2 ='"), Tok{T: "g:n", K: kName, Pre: preMust}, str("'+ 1'")), tBar)
	case 2:
		x.simple("execute", cat(str("\"call T(1)|call T(2)\"")), tBar)
	case 3:
		x.simple("execute", cat(str("'normal!'"), str("\"2Gx\"")), tBar)
	case 4:
		x.simple("execute", cat(x.paren(x.e(xN, 1, 1)), glue("["), num("0"), "]", Tok{T: ".", Pre: preMust}, str("'call Tr()'")), tBar)
	default:
		x.simple("execute", cat(str("'call'"), str("'T('"), x.fcall("string", x.ex(xS)), str("')'")), tBar)
	}
}

func (x *xg) xunlet() {
	switch x.r.N(6) {
	case 0:
		t := []Tok{}
		for k := 1 + x.r.N(3); k > 0; k-- {
			y := pick(x.r, []string{"g:nope", "s:nope", "g:a1", "b:z", "nope2", "isnot", "$VMON_NO"})
			x.forget(y)
			t = append(t, Tok{T: y, K: kName, Pre: preMust})
		}
		x.cmd("unlet", true, t)
		x.emit(t)
		x.term(tAll)
	case 1:
		x.simple("unlet", cat(id("g:ll"), glue("["), x.ex(xN), "]"), tAll)
	case 2:
		x.simple("unlet", cat(x.dotName("g:d", pick(x.r, []string{"b", "in", "k"}))), tAll)
	case 3:
		x.simple(pick(x.r, []string{"lockvar", "unlockvar"}), cat(pick(x.r, []string{"1 ", "2 ", "3 ", "", ""}), id(pick(x.r, []string{"g:ll", "g:is", "g:fl", "g:S2"})), Tok{T: "g:fl", K: kName, Pre: preMust}), tAll)
	case 4:
		x.cmd("lockvar", true, []Tok{id("g:ll")})
		x.emit([]Tok{id("g:ll")})
		x.term(tAll)
	default:
		x.simple("unlet", []Tok{id("g:is"), {T: "g:fl", K: kName, Pre: preMust}}, tAll)
	}
}

// jump leaves a loop, a function or the script.
func (x *xg) jump() {
	switch {
	case x.inLoop > 0 && x.p(0.7):
		x.simple("if", x.ex(xN), tAll)
		x.simple(pick(x.r, []string{"break", "continue"}), nil, tAll)
		x.simple("endif", nil, tAll)
	case x.inFn > 0:
		x.simple("if", x.ex(xN), tAll)
		if x.p(0.2) {
			x.simple("return", nil, tBar)
		} else {
			x.simple("return", x.ex(x.any()), tAll)
		}
		x.simple("endif", nil, tAll)
	case x.inTry > 0:
		x.simple("throw", cat(str(pick(x.r, []string{"'mine'", "\"mine|x\"", "'my' . 1"}))), tAll)
	default:
		x.trace(x.ex(x.any()))
	}
}

func (x *xg) xif(d int) {
	c := x.ex(xN)
	x.cmd("if", false, c)
	x.emit(c)
	x.block(d, tAll)
	for x.p(0.3) {
		c := x.ex(xN)
		x.cmd("elseif", false, c)
		x.emit(c)
		x.block(d, tAll)
	}
	if x.p(0.4) {
		x.cmd("else", false, nil)
		x.block(d, tAll)
	}
	x.simple("endif", nil, tAll)
}

func (x *xg) xwhile(d int) {
	x.nLoop++
	v := fmt.Sprintf("%s%d", pick(x.r, []string{"g:w_", "s:w_", "b:w_"}), x.nLoop)
	x.simple("let", []Tok{id(v), x.opTok("="), num("0")}, tAll)
	x.cmd("while", false, []Tok{id(v)})
	x.emit(cat(id(v), "<", num(pick(x.r, []string{"1", "2", "3"}))))
	if x.p(0.3) {
		x.emit(cat("&&", x.e(xN, 4, 1)))
	}
	x.term(tAll)
	m := x.mark()
	x.simple("let", []Tok{id(v), x.opTok("+="), num("1")}, tAll)
	x.inLoop++
	x.stmts(1+x.r.N(3), d-1)
	x.inLoop--
	x.release(m)
	x.simple("endwhile", nil, tAll)
}

func (x *xg) xfor(d int) {
	var t []Tok
	v, w := x.variable(), x.variable()
	m := x.mark()
	switch x.r.N(4) {
	case 0:
		t = cat("[", id(v), ",", id(w), "]", Tok{T: "in", K: kName}, id("g:ll"))
		x.forget(v)
		x.forget(w)
	case 1:
		t = cat("[", id(v), ";", id(w), "]", Tok{T: "in", K: kName}, Tok{T: "[", Pre: preMust}, x.ex(xL), ",", "[", x.ex(xN), "]", "]")
		x.forget(v)
		x.forget(w)
	case 2:
		t = cat(id(v), Tok{T: "in", K: kName}, Tok{T: "[", Pre: preMust}, x.ex(xN), ",", x.ex(xN), "]")
		defer x.release(m)
		x.known(xN, v)
		x.known(xN, v)
	default:
		t = cat(id(v), Tok{T: "in", K: kName}, x.fcall("copy", x.ex(xL)), glue("["), ":", "2", "]")
		x.forget(v)
	}
	x.cmd("for", false, t)
	x.emit(t)
	x.term(tAll)
	x.inLoop++
	y := x.mark()
	x.stmts(1+x.r.N(3), d-1)
	x.release(y)
	x.inLoop--
	x.simple("endfor", nil, tAll)
}

func (x *xg) xtry(d int) {
	x.cmd("try", false, nil)
	x.inTry++
	x.block(d, tAll)
	x.inTry--
	for k := x.r.N(3); k > 0; k-- {
		pat := pick(x.r, []string{"", "/^Vim/", "/E121\\|E684/", "#E7/#", "/mine/", "/.*/", ",a|b,", "/\"/", "/mine|x/", "/Vim(let)/", "+E\\d\\++", "/\\/\\|my/", "/[/]/"})
		x.cmd("catch", false, []Tok{{T: pat + " "}})
		x.w.put(pat)
		m := x.mark()
		x.term(tAll)
		if x.p(0.95) {
			x.trace([]Tok{id("matchstr"), glue("("), id("v:exception"), {T: ","}, str(`'E\d\+\|^my.*'`), {T: ")"}})
		}
		x.stmts(x.r.N(3), d-1)
		x.release(m)
	}
	if x.p(0.35) {
		x.cmd("finally", false, nil)
		x.block(d, tAll)
	}
	if x.inFn > 0 || x.inLoop > 0 {
		x.simple("endtry", nil, tComment) // Vim runs what is behind the bar before it leaves
	} else {
		x.simple("endtry", nil, tAll)
	}
}

func (x *xg) xfunction(d int) {
	x.newline()
	x.nfn++
	dict := x.p(0.2)
	var name []Tok
	f := ""
	switch {
	case dict && x.p(0.7):
		name = x.dotName("g:obj", fmt.Sprintf("M%d", x.nfn))
		f = fmt.Sprintf("g:obj.M%d", x.nfn)
	case x.p(0.15):
		f = fmt.Sprintf("Vx%d_end", x.nfn)
		name = []Tok{id("Vx"), glue("{"), num(fmt.Sprint(x.nfn)), {T: "}"}, {T: "_end", K: kName, Pre: preNone}}
	default:
		dict = false
		f = fmt.Sprintf("%s%d", pick(x.r, []string{"VxF", "s:fn", "g:VxG", "s:VxF", "<SID>fn", "vmon#fn"}), x.nfn)
		name = []Tok{id(f)}
		if strings.HasPrefix(f, "vmon#") {
			f = fmt.Sprintf("VxA%d", x.nfn)
			name = []Tok{id(f)}
		}
		if strings.HasPrefix(f, "<SID>") {
			f = "s:" + f[5:]
		}
	}
	t := append(name, Tok{T: "("})
	saved := [4][]string{x.nums, x.strs, x.lists, x.dicts}
	glob := func(l []string) []string {
		var r []string
		for _, n := range l {
			if len(n) > 2 && n[1] == ':' && n[0] != 'l' && n[0] != 'a' {
				r = append(r, n)
			}
		}
		return r
	}
	x.nums, x.strs, x.lists, x.dicts = glob(x.nums), glob(x.strs), glob(x.lists), glob(x.dicts)
	params := []string{"a", "is", "x_1", "in", "notes", "Z"}
	shuffle(x.r, params)
	np := x.r.N(3)
	for i := 0; i < np; i++ {
		if i > 0 {
			t = append(t, Tok{T: ",", Pre: preNone})
		}
		t = append(t, Tok{T: params[i]})
		if i > 0 || x.p(0.4) { // the first gets a number
			t = cat(t, "=", x.e(xN, 1, 1))
		}
		x.known(xN, "a:"+params[i])
	}
	if np == 0 || x.p(0.5) {
		if np > 0 {
			t = append(t, Tok{T: ",", Pre: preNone})
		}
		t = append(t, Tok{T: "..."})
	}
	t = append(t, Tok{T: ")"})
	attrs := []string{"abort", "range", "dict"}
	if !dict {
		attrs = attrs[:2]
	}
	shuffle(x.r, attrs)
	for _, a := range attrs {
		if a == "dict" || x.p(0.35) {
			t = append(t, Tok{T: a, K: kName})
		}
	}
	x.cmd("function", x.p(0.5), t)
	x.emit(t)
	x.term(tComment)
	x.inFn++
	inTry := x.inTry
	x.inTry = 0
	if dict && x.p(0.7) {
		x.trace(x.dotName("self", "v"))
	}
	x.trace(append([]Tok{}, id("a:0")))
	x.stmts(1+x.r.N(4), d-1)
	if x.p(0.6) {
		x.simple("return", x.ex(x.any()), tAll)
	}
	x.inTry = inTry
	x.inFn--
	x.newline()
	x.cmd("endfunction", x.p(0.1), nil)
	x.w.eol()
	x.nums, x.strs, x.lists, x.dicts = saved[0], saved[1], saved[2], saved[3]
	if strings.Contains(f, ".") {
		x.simple("call", append(cat(x.dotName("g:obj", f[6:]), glue("(")), x.argList([][]Tok{x.ex(xN)})...), tAll)
	} else if !dict {
		x.fns = append(x.fns, f)
		x.trace(x.fcall(f, x.ex(xN)))
		if x.p(0.15) {
			x.simple("delfunction", []Tok{id(f)}, tAll)
			x.fns = x.fns[:len(x.fns)-1]
		}
	} else if x.p(0.5) {
		x.simple("let", cat(x.dotName("g:obj", "meth"), x.opTok("="), x.fcall("function", []Tok{str("'" + f + "'")})), tAll)
		x.simple("call", cat(x.dotName("g:obj", "meth"), glue("("), x.ex(xN), ")"), tAll)
	}
}

func (x *xg) xheredoc() {
	x.newline()
	v := x.variable()
	x.w.hold++
	defer func() { x.w.hold-- }()
	x.ws(false)
	ind := x.w.j[strings.LastIndexByte(string(x.w.j), '\n')+1:]
	indent := string(ind)
	x.w.put(pick(x.r, []string{"let ", "let  ", "let\t"}))
	mark := pick(x.r, []string{"END", "EOF", "E1", "X"})
	trim := x.p(0.5)
	x.w.put(v + " =<< ")
	if trim {
		x.w.put("trim ")
	}
	x.w.put(mark)
	if x.p(0.15) {
		x.w.put(" \" a comment")
	}
	x.w.eol()
	for k := x.r.N(4); k > 0; k-- {
		if trim {
			x.w.put(indent + pick(x.r, []string{"", "  ", "\t"}))
		}
		x.w.put(pick(x.r, []string{"abc", "echo 1 | echo 2", "\" no comment", "endfunction", "let x = 1", "  in", "", mark + " ", "x" + mark, "if 1", "a\\nb", "{g:n}"}))
		x.w.eol()
	}
	if trim {
		x.w.put(indent)
	}
	x.w.put(mark)
	x.w.eol()
	x.known(xL, v)
}

type exTemplate struct {
	text  string
	flags int
}

// exTemplates are commands for Vim: what may follow them is known from Vim's
// documentation.
var exTemplates = []exTemplate{
	{"s/a/X/", tAll}, {"%s/a/[&]/ge", tAll}, {"1,3s/b\\|c/Y/e", tAll}, {"s#a#b/c#e", tAll}, {"%s/\\v(a)(b)/\\2\\1/e", tAll},
	{"s/a/|/e", tBar}, {"s/a\\|b/c|d/e", tBar}, {"%s/x/\\=T(1)/e", tAll}, {"s/a/\"/e", tAll}, {"&&e", tAll}, {"%&e", tAll}, {"sil! s", tAll}, {"s/a/b", tEOL}, {"s/a\\|[|/]/|/ge 2", tAll}, {"s+a|b+c\\+|+e", tAll}, {"s\\/|\"/", tAll}, {"s\\&x&e", tAll}, {"sge", tAll}, {"s e 2", tAll}, {"s!alpha!x|y!", tAll}, {"2s#x#\\=T('#')#e", tEOL},
	{"smagic/a./|/e", tAll}, {"sno?a.?b|?e", tAll}, {"&re", tAll}, {"%&&e", tAll}, {"~e", tAll}, {"%~e", tAll}, {"&e 2", tAll}, {"s/a/\"/g", tAll}, {"silent! s/x\\", tEOL}, {"silent! s/x/y\\", tEOL}, {"silent! s/x", tEOL},
	{"sort /a|b/ u", tComment}, {"sort! #|# n", tComment}, {"sort n /\"/", tComment}, {"sor iu", tComment}, {"match Todo |a|", tAll}, {"3match none", tAll}, {"mat NONE", tAll}, {"match Todo \"a\"", tAll}, {"sil! isearch /x|y/", tAll}, {"sil! dsearch x|y", tEOL}, {"sil! ijump 2 /q|/", tAll}, {"sil! psearch! /q|/", tAll},
	{"2d", tAll}, {"1,2d a", tAll}, {"d b 2", tAll}, {"d", tAll}, {"dl", tAll}, {"dp", tAll}, {"$", tComment}, {"3", tComment}, {"/foo/", tComment}, {"?alpha?", tComment}, {"2;/x/", tComment},
	{"/foo/;+1", tComment}, {"'a", tComment}, {"1,3y a", tAll}, {"y b 2", tAll}, {"2pu a", tAll}, {"pu! b", tAll}, {"1t.", tAll}, {"1co$", tAll}, {"2m0", tAll}, {"m$", tAll},
	{"1,2j", tAll}, {"j!", tAll}, {"%j", tAll}, {"2>", tAll}, {"1,2<", tAll}, {">>", tAll}, {"> 2", tAll}, {"sort", tComment}, {"sort!", tComment}, {"sort u", tComment}, {"sort /a/ r", tComment}, {"sor n", tComment},
	{"ma a", tAll}, {"2ma b", tAll}, {"k c", tAll}, {"ka", tAll}, {"delmarks a b", tAll}, {"delm!", tAll}, {"1mark c", tAll},
	{"set ts=4 sw=2", tAll}, {"set et noic", tAll}, {"set tw&", tAll}, {"setl sts=3", tAll}, {"setlocal ai", tAll}, {"se invet", tAll}, {"set et! ts+=1", tAll}, {"set ts?", tAll}, {"set fo=a\\|b", tAll}, {"setg sw=3", tAll},
	{"set path=a\\ b\\|c", tAll}, {"set cms=a%s\\ ", tAll}, {"set cms=x%s\\  ", tAll}, {"set ts=8 cms=\\ %s\\ \\ ", tAll}, {"set cms=%sb\\\\\\ ", tAll}, {"set cms=%s\\\\ ", tAll}, {"set cms=%s\x16 ", tAll},
	{"new|hide", tAll}, {"sp | hid", tAll}, {"sp|sil! 1hide", tAll}, {"hide call T(3)|call T(4)", tAll}, {"sp|hid|2p", tAll},
	{"new", tAll}, {"split", tAll}, {"vnew", tAll}, {"only", tAll}, {"wincmd w", tAll}, {"winc p", tAll}, {"1print", tAll}, {"2,3number", tAll}, {"list", tAll}, {"2#", tAll}, {"=", tAll}, {"1=", tAll}, {".=", tAll}, {"p", tAll}, {"nu 2", tAll},
	{"retab", tAll}, {"left", tAll}, {"center 20", tAll}, {"ri 30", tAll}, {"1,2left 2", tAll}, {"noh", tAll}, {"runtime nothing.vim", tAll}, {"redraw", tBar}, {"stopinsert", tAll},
	{"abclear", tAll}, {"mapclear", tAll}, {"comclear", tAll}, {"registers a", tEOL}, {"di b", tEOL},
	{"map x y", tBar}, {"nnoremap <silent> ,a :echo 1<Bar>echo 2<CR>", tBar}, {"map <buffer> q w", tBar}, {"imap jj <Esc>\"x", tBar}, {"map z a\\|b", tBar}, {"nmap <expr> k T(1)", tBar},
	{"abbrev tt this \"text", tBar}, {"iabbrev ee T(2)", tBar}, {"noremap a b\x16|c", tBar}, {"map <F2> :s/a/b/ \\| d<CR>", tBar}, {"map! ,q \"a", tBar}, {"cno x  y  ", tBar}, {"ino <unique> zz z\\\\|", tBar}, {"unm x", tBar}, {"silent! unmap nope", tBar}, {"una tt", tBar},
	{"normal 2Gx", tEOL}, {"normal! yyp|k", tEOL}, {"norm \"ayy\"ap", tEOL}, {"2,3normal x", tEOL}, {"normal! 3G|x\" no comment", tEOL}, {"%norm A;", tEOL},
	{"g/a/s//b/|normal x", tEOL}, {"v/x/d", tEOL}, {"g!/b/t.", tEOL}, {"g/foo/call T(1) | call T(2)", tEOL}, {"g#a\\|x#call T(3)|s/a/q/e", tEOL}, {"g/\"/call T(9)", tEOL}, {"1,3g/./m0", tEOL}, {"vglobal+a+j", tEOL},
	{"autocmd VmonG User VmonE call T(1) | call T(2)", tEOL}, {"au VmonG User VmonE let g:au = 1", tEOL}, {"au! VmonG User VmonE", tEOL}, {"au VmonG User VmonE ++once call T(4)", tEOL},
	{"windo let w:q=1|call T(3)", tEOL}, {"tabdo call T(1)|call T(2)", tEOL}, {"bufdo call T(6) | call T(7)", tEOL}, {"cdo call T(5)", tEOL}, {"argdo call T(5)|call T(6)", tEOL},
	{"command! VmC call T(<q-args>)|call T(2)", tEOL}, {"com! -nargs=* VmD call T(<f-args>)", tEOL}, {"command! -nargs=+ -bang VmE call T('<bang>', <q-args>) | call T(8)", tEOL}, {"delc VmD", tAll},
	{"let g:n", tAll}, {"let g:n g:s", tAll}, {"let g:l g:d.k", tAll}, {"syntax clear", tBar}, {"hi VmonH ctermfg=1", tAll}, {"hi clear VmonH", tAll}, {"hi link VmonH2 Todo", tAll}, {"match none", tAll}, {"match Todo /a|b/", tAll}, {"2match Error \"x|y\"", tAll}, {"echohl Todo", tAll},
	{"filetype", tAll}, {"compiler nothing_there", tAll}, {"scriptencoding", tAll}, {"sleep 1m", tAll}, {"nop", 0}, {"undojoin", tAll}, {"behave mswin", tAll}, {"behave xterm", tAll}, {"ascii", tAll}, {"file", tAll}, {"changes", 0}, {"version", 0},
	{"lockmarks 1d", tAll}, {"keepjumps $", tComment}, {"sil! /nothing there/", tAll}, {"silent! s/nothing there/x/", tAll}, {"keepp s/a/b/e", tAll}, {"noautocmd new", tAll}, {"vert new", tAll}, {"tab sp", tAll}, {"top new", tAll}, {"aboveleft 3new", tAll},
	{"menu Vmon.x :echo 1<CR>", tBar}, {"unmenu Vmon.x", tBar}, {"silent! aunmenu Vmon", tBar}, {"sign define VmonS text=>>", tBar}, {"sign list", tBar},
	{"cexpr ['a:1:x', 'b-c']", tBar}, {"lgetexpr 'x:1:y'", tBar}, {"cgete []", tBar}, {"cle", tAll}, {"clist", tAll},
	{"digraph a| 63", 0}, {"lan mes C", tAll}, {"@c", tAll}, {"iabc", tAll}, {"smapclear", tAll}, {"2;3p", tAll}, {"2,3p | p", tAll}, {"1;+1d|2p", tAll}, {".,+1>", tAll}, {"$-1", tComment}, {"1,$-3d _", tAll}, {"+", tComment}, {"-", tComment},
	{"1,2", tComment}, {"%", tComment}, {"ijump /foo/", 0}, {"tabe", tAll}, {"tabo", tAll}, {"fold", 0}, {"2,3fo", 0}, {"foldopen", 0}, {"exe", tBar}, {"echo", tBar}, {"z", 0}, {"2z.1", 0}, {"2y|2pu|1d", tAll}, {"star", 0}, {"~ e", tAll}, {"&e", tAll}, {"s/b/~/e", tAll},
	{"cal T(2)", tAll}, {"ec 3 | ec 4", tBar}, {"unl! g:zz | let g:zz = 4", tAll}, {"wh 0 | endw", tAll}, {"if 1|call T(8)|en", tAll}, {"try|call T(9)|endt", tAll}, {"for g:i_ in [1,2]|call T(g:i_)|endfo", tAll},
}

func init() {
	var l []exTemplate
	for _, t := range exTemplates {
		switch strings.Fields(t.text)[0] {
		case "nop", "changes", "version", "digraph", "ijump", "fold", "2,3fo", "foldopen", "z", "2z.1", "star", "@c":
		default:
			l = append(l, t)
		}
	}
	exTemplates = l
}

func (x *xg) excmd() {
	switch k := x.r.N(20); {
	case k < 16:
		t := pick(x.r, exTemplates)
		x.wsc()
		c := t.text[0]
		if !isAlpha(c) && x.lineStart() && x.p(0.5) {
			x.w.put(":")
		}
		if x.p(0.04) && isAlpha(c) && t.text != "2|3" {
			x.w.put(pick(x.r, quietMods[:10]) + " ")
		}
		x.count("template")
		x.argJ = len(x.w.j)
		x.w.put(t.text)
		x.term(t.flags)
	case k < 17:
		x.newline()
		x.w.hold++
		x.w.put(pick(x.r, []string{"a", "append", "2i", "insert", "$a", "2c", "1,2change", "a!", "0a"}))
		x.w.eol()
		for k := x.r.N(3); k > 0; k-- {
			x.w.put(pick(x.r, []string{"new text", "  a|b", "\" c", "endfunction", "", "..", "if"}))
			x.w.eol()
		}
		x.w.put(".")
		x.w.eol()
		x.w.hold--
	case k < 18:
		x.simple("let", []Tok{{T: "@a"}, x.opTok("="), str(pick(x.r, []string{"'call T(5)'", "\"call T(6)|call T(7)\\n\"", "'2d'"}))}, tAll)
		x.wsc()
		x.argJ = len(x.w.j)
		x.w.put(pick(x.r, []string{"@a", "@ a", "2@a", "@a"}))
		x.term(tAll)
	case k < 19:
		x.newline()
		x.w.put(pick(x.r, []string{"com! -nargs=* VmU call T(<q-args>)", "command! -nargs=1 -bang VmU let g:u = <q-args>", "com! -nargs=* VmU call T(<f-args>) | call T(3)"}))
		x.w.eol()
		x.wsc()
		x.w.put(pick(x.r, []string{"VmU a b", "VmU a | call T(1)", "VmU \"x", "VmU  in  ", "sil VmU q", "VmU a\\|b"}))
		x.w.eol()
	default:
		x.newline()
		x.w.put(pick(x.r, []string{"au VmonG User VmonE call T(1) | call T(2)", "autocmd VmonG User VmonE call T(expand('<amatch>'))", "au! VmonG User VmonE let g:au2 = 2 | call T(5) \" x"}))
		x.w.eol()
		x.wsc()
		x.argJ = len(x.w.j)
		x.w.put(pick(x.r, []string{"doautocmd User VmonE", "do User VmonE", "doau <nomodeline> User VmonE"}))
		x.term(tAll)
	}
}

// script makes a whole script.
func (x *xg) script() string {
	x.ascii = true
	x.whole, x.runs = true, true
	x.depth = 2
	var none []ast.Statement
	x.cur = &none
	x.pBar = pick(x.r, []int{0, 15, 50})
	x.pBreak = pick(x.r, []float64{0, 0, 0.01, 0.05})
	x.start()
	x.stmts(pick(x.r, []int{2, 3, 4, 6, 8, 12}), 3)
	if !x.lineStart() {
		x.w.eol()
	}
	if x.p(0.05) {
		x.w.put("finish")
		x.w.eol()
		x.w.put("call T('not reached'")
		x.w.eol()
	}
	return x.src()
}
