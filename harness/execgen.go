package main

import (
	"strings"
)

// xg generates programs which Vim can run: text only, with no model of their
// AST. Expressions are typed, so that most of them have a value.
type xg struct {
	*Gen
	nums   []string // variables in reach which are numbers
	strs   []string
	lists  []string
	dicts  []string
	whole  bool // a whole script
	bare   bool // no modifier for the next command
	inFn   int
	inLoop int
	inTry  int
	fns    []string // functions defined so far
	nfn    int
	nLoop  int
	nconst int
}

const (
	xN = iota // number
	xS        // string
	xL        // list
	xD        // dictionary
	xF        // function
)

func newXg(r *Rng) *xg {
	x := &xg{Gen: &Gen{r: r, kinds: map[string]int{}}}
	x.sp = pick(r, []float64{0, 0.2, 0.5, 0.9})
	x.start()
	return x
}

func id(s string) Tok          { return Tok{T: s, K: kName} }
func glue(s string) Tok        { return Tok{T: s, Pre: preNone} }
func (x *xg) p(f float64) bool { return x.r.P(f) }
func (x *xg) any() int         { return pick(x.r, []int{xN, xN, xS, xS, xL, xD}) }
func num(s string) Tok         { return Tok{T: s, K: kNum} }
func str(s string) Tok         { return strTok(s) }
func strTok(s string) Tok {
	if s[0] == '\'' {
		return Tok{T: s, K: kSQ}
	}
	return Tok{T: s}
}

// call writes NAME(args).
func (x *xg) fcall(name string, args ...[]Tok) []Tok {
	open := Tok{T: "("}
	if !x.p(0.1) || strings.Contains(name, ".") {
		open.Pre = preNone
	}
	t := []Tok{id(name), open}
	return append(t, x.argList(args)...)
}

func (x *xg) argList(args [][]Tok) []Tok {
	var t []Tok
	for i, a := range args {
		if i > 0 {
			t = append(t, Tok{T: ","})
		}
		t = append(t, a...)
	}
	if len(args) > 0 && x.p(0.03) {
		t = append(t, Tok{T: ","})
	}
	return append(t, Tok{T: ")"})
}

// method writes base->NAME(args).
func (x *xg) method(base []Tok, name []Tok, args ...[]Tok) []Tok {
	arrow := Tok{T: "->", Pre: preNone}
	if x.p(0.1) {
		arrow.Pre = preAny
	}
	return append(cat(base, arrow, none(name), glue("(")), x.argList(args)...)
}

func (x *xg) paren(t []Tok) []Tok { return cat("(", t, ")") }

// wrap puts t, whose operator has the given level, where level is wanted.
func (x *xg) wrap(t []Tok, have, want int) []Tok {
	if have < want || x.p(0.03) {
		return x.paren(t)
	}
	return t
}

func (x *xg) bin(l []Tok, op string, r []Tok) []Tok {
	t := Tok{T: op}
	switch {
	case strings.ContainsAny(op, "=<>~") || strings.HasPrefix(op, "is"):
		t.K = kCmp
		if op[0] == 'i' {
			t.Pre = preMust
		}
	case op == "." || op == "..":
		last := l[len(l)-1]
		if op == "." && !(last.T[0] == '"' || last.T[0] == '\'') {
			t.Pre = preMust
		}
		if op == "." {
			r = append([]Tok{}, r...)
			if x.p(0.7) && (r[0].K == kName || r[0].K == kNum) {
				r[0].Pre = preMust
			}
		}
	}
	x.count("op " + op)
	return cat(l, t, r)
}

var numLits = []string{"0", "1", "2", "3", "42", "007", "010", "08", "0x1F", "0XaB", "0b101", "0B11", "100"}
var sLits = []string{`'a'`, `"b"`, `'it''s'`, `"q\"q"`, `"\t\x41\u00e9"`, `''`, `""`, `'\n'`, `"a b"`, `'x|y'`, `"x|y"`, `'"'`, `"'"`, `'abc'`, `"AbC"`, `"\<C-a>"`, `"é日"`, `'日本'`, `'#'`, `"{x}"`, `'a.b'`, `"\\"`, `'\'`, `'12'`, `" "`, `"\101\n"`}

// cmpOp picks a comparison and writes it.
var xcmp = []string{"==", "==#", "==?", "!=", "!=#", "!=?", ">", ">#", ">?", ">=", ">=#", ">=?", "<", "<#", "<?", "<=", "<=#", "<=?"}
var xmatch = []string{"=~", "=~#", "=~?", "!~", "!~#", "!~?"}
var xis = []string{"is", "is#", "is?", "isnot", "isnot#", "isnot?"}

// e makes an expression of the kind whose operator binds at least as strongly
// as the level says, see Gen.expr.
func (x *xg) e(kind, level, d int) []Tok {
	if d <= 0 {
		return x.atom(kind)
	}
	if x.p(0.07) {
		x.count("ternary")
		cond := xN
		if !x.whole || x.p(0.05) { // a List or a Dictionary is an error
			cond = x.any()
		}
		return x.wrap(cat(x.e(cond, 2, d-1), Tok{T: "?", Pre: preMust}, x.e(kind, 1, d-1), Tok{T: ":", Pre: preMust}, x.e(kind, 1, d-1)), 1, level)
	}
	if x.p(0.05) {
		return x.paren(x.e(kind, 1, d-1))
	}
	switch kind {
	case xN:
		switch k := x.r.N(100); {
		case k < 6:
			return x.wrap(x.bin(x.e(xN, 2, d-1), "||", x.e(xN, 3, d-1)), 2, level)
		case k < 12:
			return x.wrap(x.bin(x.e(xN, 3, d-1), "&&", x.e(xN, 4, d-1)), 3, level)
		case k < 24:
			return x.wrap(x.compare(d), 4, level)
		case k < 36:
			return x.wrap(x.bin(x.e(xN, 5, d-1), pick(x.r, []string{"+", "-", "-"}), x.e(xN, 6, d-1)), 5, level)
		case k < 46:
			return x.wrap(x.bin(x.e(xN, 6, d-1), pick(x.r, []string{"*", "/", "%"}), x.e(xN, 7, d-1)), 6, level)
		case k < 56:
			op := pick(x.r, []string{"-", "!", "+", "!"})
			x.count("unary " + op)
			return x.wrap(cat(op, x.e(xN, 7, d-1)), 7, level)
		case k < 92:
			return x.numPost(d)
		}
	case xS:
		switch k := x.r.N(100); {
		case k < 40:
			return x.wrap(x.bin(x.e(pick(x.r, []int{xS, xS, xS, xN}), 5, d-1), pick(x.r, []string{".", ".."}), x.e(pick(x.r, []int{xS, xS, xN}), 6, d-1)), 5, level)
		case k < 90:
			return x.strPost(d)
		}
	case xL:
		switch k := x.r.N(100); {
		case k < 15:
			return x.wrap(x.bin(x.e(xL, 5, d-1), "+", x.e(xL, 6, d-1)), 5, level)
		case k < 40:
			return x.listLit(d)
		case k < 90:
			return x.listPost(d)
		}
	case xD:
		switch k := x.r.N(100); {
		case k < 55:
			return x.dictExpr(d)
		case k < 90:
			return x.dictPost(d)
		}
	case xF:
		if x.p(0.6) {
			return x.lambdaExpr([]int{xN}, xN, d)
		}
	}
	return x.atom(kind)
}

func (x *xg) compare(d int) []Tok {
	switch k := x.r.N(10); {
	case k < 5:
		kind := pick(x.r, []int{xN, xN, xS, xS})
		return x.bin(x.e(kind, 5, d-1), pick(x.r, xcmp), x.e(kind, 5, d-1))
	case k < 7:
		return x.bin(x.e(xS, 5, d-1), pick(x.r, xmatch), []Tok{str(pick(x.r, []string{`'a'`, `'^x'`, `"b$"`, `'[A-Z]'`, `'.'`, `'\d\+'`, `"\\w"`}))})
	default:
		kind := pick(x.r, []int{xL, xD, xN, xS})
		ops := xis
		if x.p(0.5) {
			ops = []string{"==", "!=", "==#", "!=?"}
		}
		return x.bin(x.e(kind, 5, d-1), pick(x.r, ops), x.e(kind, 5, d-1))
	}
}

func (x *xg) atom(kind int) []Tok {
	switch kind {
	case xN:
		if len(x.nums) > 0 && x.p(0.4) {
			return []Tok{id(pick(x.r, x.nums))}
		}
		switch k := x.r.N(22); {
		case k < 8:
			return []Tok{num(pick(x.r, numLits))}
		case k < 14:
			return []Tok{id(pick(x.r, []string{"g:n", "g:n1", "g:n2", "v:true", "v:false", "g:vmon#x"}))}
		case k == 14:
			return x.dotName("g:d", "a")
		case k == 15:
			return []Tok{{T: pick(x.r, []string{"&ts", "&g:sw", "&l:tw", "&et", "&tabstop", "&l:sts"}), K: kName}}
		case k == 16:
			return []Tok{id("g:n"), glue("{"), num("1"), glue("}")}
		case k == 17:
			return []Tok{id("g:"), glue("{"), str(`'n'`), glue("}")}
		case k == 18:
			return []Tok{id("g:l"), glue("["), num(pick(x.r, []string{"0", "1", "2"})), Tok{T: "]"}}
		case k == 19:
			return cat(x.dotName("g:d", "in"), glue("."), Tok{T: "x", K: kName, Pre: preNone})
		case k == 20:
			if x.whole && x.p(0.7) { // many operators and functions do not take it
				return []Tok{num("3")}
			}
			t := []Tok{num(pick(x.r, []string{"1.5", "0.25", "2.0e2", "1.0E-1", "3.5e+1"}))}
			if x.whole { // what is behind . is no Float
				t = x.paren(t)
			}
			return t
		default:
			return []Tok{id("g:d"), glue("["), str(pick(x.r, []string{`'a'`, `"a"`})), Tok{T: "]"}}
		}
	case xS:
		if len(x.strs) > 0 && x.p(0.3) {
			return []Tok{id(pick(x.r, x.strs))}
		}
		switch k := x.r.N(20); {
		case k < 10:
			return []Tok{str(pick(x.r, sLits))}
		case k < 14:
			return []Tok{id(pick(x.r, []string{"g:s", "g:s1", "g:e", "g:S2"}))}
		case k == 14:
			return []Tok{{T: pick(x.r, []string{"@a", `@"`, "@/", "@c"})}}
		case k == 15:
			return []Tok{{T: "$VMON_X", K: kName}}
		case k == 16:
			return []Tok{{T: "&ff", K: kName}}
		case k == 17:
			return x.dotName("g:d", "b")
		case k == 18:
			return []Tok{id("g:"), glue("{"), str(`"s"`), glue("}"), {T: "1", K: kName, Pre: preNone}}
		default:
			return cat(x.dotName("g:d", "in"), glue("["), str(`'s'`), "]")
		}
	case xL:
		if len(x.lists) > 0 && x.p(0.3) {
			return []Tok{id(pick(x.r, x.lists))}
		}
		switch x.r.N(6) {
		case 0:
			return x.dotName("g:d", "k")
		case 1:
			return []Tok{Tok{T: "["}, Tok{T: "]"}}
		case 2:
			return []Tok{id("g:ll")}
		case 3:
			return []Tok{id("g:is")}
		}
		return []Tok{id("g:l")}
	case xD:
		if len(x.dicts) > 0 && x.p(0.3) {
			return []Tok{id(pick(x.r, x.dicts))}
		}
		switch x.r.N(5) {
		case 0:
			return x.dotName("g:d", "in")
		case 1:
			return []Tok{Tok{T: "{"}, Tok{T: "}"}}
		case 2:
			return []Tok{Tok{T: "#{"}, Tok{T: "}"}}
		}
		return []Tok{id("g:d")}
	}
	switch x.r.N(5) {
	case 0:
		return x.fcall("function", []Tok{str(`'Id'`)})
	case 1:
		return []Tok{id("g:F")}
	case 2:
		return x.dotName("g:d", "f")
	case 3:
		return x.fcall("funcref", []Tok{str(`"Id"`)})
	}
	return x.lambdaExpr([]int{xN}, xN, 1)
}

func (x *xg) dotName(a, b string) []Tok {
	return []Tok{id(a), glue("."), {T: b, K: kName, Pre: preNone}}
}

func (x *xg) listLit(d int) []Tok {
	t := []Tok{{T: "["}}
	n := x.r.N(4)
	for i := 0; i < n; i++ {
		t = append(t, x.e(x.any(), 1, d-1)...)
		if i < n-1 || x.p(0.2) {
			t = append(t, Tok{T: ","})
		}
	}
	return append(t, Tok{T: "]"})
}

func (x *xg) dictExpr(d int) []Tok {
	n := x.r.N(4)
	lits := x.p(0.4)
	open := "{"
	if lits {
		open = "#{"
	}
	t := []Tok{{T: open}}
	keys := []string{"a", "b-c", "1", "if", "x_y", "2b", "k"}
	shuffle(x.r, keys)
	for i := 0; i < n; i++ {
		if lits {
			t = append(t, Tok{T: keys[i]}, glue(":"))
		} else {
			if x.p(0.6) {
				t = append(t, str(`'`+keys[i]+`'`))
			} else {
				t = append(t, x.e(pick(x.r, []int{xS, xN}), 1, d-1)...)
				t[len(t)-1].K = kName
			}
			t = append(t, Tok{T: ":", Pre: preMust})
		}
		t = append(t, x.e(x.any(), 1, d-1)...)
		if i < n-1 || x.p(0.2) {
			t = append(t, Tok{T: ","})
		}
	}
	return append(t, Tok{T: "}"})
}

// lambdaExpr makes a lambda whose parameters are of the kinds.
func (x *xg) lambdaExpr(kinds []int, body, d int) []Tok {
	x.count("lambda")
	n, s := len(x.nums), len(x.strs)
	comma := Tok{T: ","}
	if x.whole {
		comma = glue(",") // white space before it is an error, but only where it runs
	}
	t := []Tok{{T: "{"}}
	names := []string{"x", "y", "_", "v", "idx", "is", "in", "key"}
	shuffle(x.r, names)
	for i, k := range kinds {
		if i > 0 {
			t = append(t, comma)
		}
		t = append(t, id(names[i]))
		if k == xN {
			x.nums = append(x.nums, names[i])
		} else if k == xS {
			x.strs = append(x.strs, names[i])
		}
	}
	if x.p(0.1) {
		if len(kinds) > 0 {
			t = append(t, comma)
		}
		t = append(t, Tok{T: "..."})
	}
	t = append(t, Tok{T: "->", Pre: preMust})
	t = append(t, x.e(body, 1, d-1)...)
	x.nums, x.strs = x.nums[:n], x.strs[:s]
	return append(t, Tok{T: "}"})
}

func (x *xg) numPost(d int) []Tok {
	d--
	switch x.r.N(24) {
	case 0:
		return x.fcall("len", x.e(pick(x.r, []int{xS, xL, xD}), 1, d))
	case 1:
		return x.method(x.e(pick(x.r, []int{xS, xL, xD}), 8, d), []Tok{id("len")})
	case 2, 3, 4:
		return x.fcall("T", x.e(xN, 1, d))
	case 5:
		return x.fcall("Add", x.e(xN, 1, d), x.e(xN, 1, d))
	case 6:
		return x.fcall("g:F", x.e(xN, 1, d))
	case 7:
		return append(cat(x.dotName("g:d", "f"), glue("(")), x.argList([][]Tok{x.e(xN, 1, d)})...)
	case 8:
		return append(cat(x.lambdaExpr([]int{xN, xN}, xN, d), glue("(")), x.argList([][]Tok{x.e(xN, 1, d), x.e(xN, 1, d)})...)
	case 9:
		return x.method(x.e(xN, 8, d), []Tok{id(pick(x.r, []string{"Id", "T", "abs", "g:F"}))})
	case 10:
		return x.method(x.e(xN, 8, d), x.lambdaExpr([]int{xN}, xN, d))
	case 11:
		return x.method(x.e(xN, 8, d), []Tok{id("Add")}, x.e(xN, 1, d))
	case 12:
		return append(cat(x.dotName("g:obj", "Get"), glue("(")), x.argList([][]Tok{x.e(xN, 1, d), x.e(xS, 1, d)})...)
	case 13:
		return cat(x.dotName("g:obj", "Self"), glue("("), ")", glue("."), Tok{T: "Get", K: kName, Pre: preNone}, glue("("), ")")
	case 14:
		return cat(x.fcall("g:obj.Self"), glue("["), str(`'v'`), "]")
	case 15:
		return x.fcall("get", x.e(xL, 1, d), x.e(xN, 1, d), x.e(xN, 1, d))
	case 16:
		return x.fcall("call", x.e(xF, 1, d), cat("[", x.e(xN, 1, d), "]"))
	case 17:
		return x.fcall("str2nr", x.e(xS, 1, d))
	case 18:
		return x.fcall("stridx", x.e(xS, 1, d), x.e(xS, 1, d))
	case 19:
		return append(cat(x.paren(x.e(xF, 1, d)), glue("(")), x.argList([][]Tok{x.e(xN, 1, d)})...)
	case 20:
		return cat(x.e(xN, 8, d), glue("["), x.e(xN, 1, d), "]")
	case 21:
		// curly braces in the name of a function
		return append([]Tok{id("A"), glue("{"), str(`'d'`), Tok{T: "}"}, {T: "d", K: kName, Pre: preNone}, glue("(")}, x.argList([][]Tok{x.e(xN, 1, d), x.e(xN, 1, d)})...)
	case 22:
		return cat(x.listLitOf(d), glue("["), num("0"), "]", glue("["), num("0"), "]")
	}
	return x.fcall("count", x.e(xL, 1, d), x.e(xN, 1, d))
}

// listLitOf is a list of a list of a number.
func (x *xg) listLitOf(d int) []Tok { return cat("[", "[", x.e(xN, 1, d-1), "]", "]") }

func (x *xg) strPost(d int) []Tok {
	d--
	switch x.r.N(16) {
	case 0, 1:
		return x.fcall("string", x.e(x.any(), 1, d))
	case 2:
		return x.fcall("join", x.e(xL, 1, d), x.e(xS, 1, d))
	case 3:
		return x.fcall("toupper", x.e(xS, 1, d))
	case 4:
		return x.method(x.e(xS, 8, d), []Tok{id(pick(x.r, []string{"toupper", "tolower", "Id", "T", "trim"}))})
	case 5:
		return x.fcall("repeat", x.e(xS, 1, d), x.bin(x.paren(x.e(xN, 1, d)), "%", []Tok{num("4")}))
	case 6:
		return x.fcall("printf", []Tok{str(pick(x.r, []string{`'%d'`, `"%5d|"`, `'%x'`}))}, x.e(xN, 1, d))
	case 7, 8:
		return cat(x.e(xS, 8, d), glue("["), x.e(xN, 1, d), "]")
	case 9, 10:
		return x.sliceOf(x.e(xS, 8, d), d)
	case 11:
		return x.fcall("Cat", x.e(x.any(), 1, d), x.e(x.any(), 1, d), x.e(x.any(), 1, d))
	case 12:
		return x.fcall("substitute", x.e(xS, 1, d), []Tok{str(pick(x.r, []string{`'a'`, `'\w'`, `"[b-y]"`}))}, x.e(xS, 1, d), []Tok{str(pick(x.r, []string{`'g'`, `''`}))})
	case 13:
		return x.method(x.e(xL, 8, d), []Tok{id("join")}, x.e(xS, 1, d))
	case 14:
		return x.method(x.e(x.any(), 8, d), []Tok{id("string")})
	}
	return x.fcall("T", x.e(xS, 1, d))
}

func (x *xg) sliceOf(t []Tok, d int) []Tok {
	x.count("slice")
	t = cat(t, glue("["))
	if x.p(0.7) {
		t = append(t, x.e(xN, 1, d-1)...)
		t = append(t, Tok{T: ":", Pre: preMust})
	} else {
		t = append(t, Tok{T: ":"})
	}
	if x.p(0.7) {
		y := append([]Tok{}, x.e(xN, 1, d-1)...)
		y[0].Pre = preMust
		t = append(t, y...)
	}
	return append(t, Tok{T: "]"})
}

func (x *xg) listPost(d int) []Tok {
	d--
	switch x.r.N(14) {
	case 0:
		return x.fcall("map", x.fcall("copy", x.e(xL, 1, d)), x.lambdaExpr([]int{xN, xA()}, x.any(), d))
	case 1:
		return x.fcall("filter", x.fcall("copy", x.e(xL, 1, d)), []Tok{str(pick(x.r, []string{`'v:key > 0'`, `"v:val isnot 2"`, `'v:key'`}))})
	case 2:
		return x.fcall("range", x.bin(x.fcall("abs", x.e(xN, 1, d)), "%", []Tok{num("6")}))
	case 3:
		return x.fcall("split", x.e(xS, 1, d), []Tok{str(pick(x.r, []string{`'a'`, `'\zs'`, `"|"`}))})
	case 4:
		return x.fcall("reverse", x.fcall("copy", x.e(xL, 1, d)))
	case 5, 6, 7:
		return x.sliceOf(x.e(xL, 8, d), d)
	case 8:
		return x.fcall("sort", x.fcall("keys", x.e(xD, 1, d)))
	case 9:
		return x.method(x.fcall("copy", x.e(xL, 1, d)), []Tok{id("map")}, x.lambdaExpr([]int{xN, xA()}, x.any(), d))
	case 10:
		return x.method(x.e(xD, 8, d), []Tok{id("keys")})
	case 11:
		return cat(x.e(xD, 8, d), glue("["), x.e(xS, 1, d), "]")
	case 12:
		return cat("[", x.e(xL, 1, d), ",", x.e(xL, 1, d), "]", glue("["), x.e(xN, 4, d), "]")
	}
	return x.fcall("T", x.e(xL, 1, d))
}

// xA is a kind no variable is of, for parameters with any value.
func xA() int { return -1 }

func (x *xg) dictPost(d int) []Tok {
	d--
	switch x.r.N(6) {
	case 0:
		return x.fcall("extend", x.fcall("copy", x.e(xD, 1, d)), x.e(xD, 1, d))
	case 1:
		return x.fcall("map", x.fcall("copy", x.e(xD, 1, d)), x.lambdaExpr([]int{xS, xA()}, x.any(), d))
	case 2:
		return x.fcall("deepcopy", x.e(xD, 1, d))
	case 3:
		return x.method(x.e(xD, 8, d), []Tok{id("deepcopy")})
	case 4:
		return cat("[", x.e(xD, 1, d), "]", glue("["), num("0"), "]")
	}
	return x.fcall("T", x.e(xD, 1, d))
}

// top makes a whole expression.
func (x *xg) top(d int) []Tok {
	if x.p(0.05) {
		return x.e(xF, 1, d)
	}
	if x.p(0.03) {
		// behind white space the dot is an operator, also for a dictionary
		return cat([]Tok{id(pick(x.r, []string{"g:d", "g:obj"})), {T: ".", Pre: preMust}, {T: pick(x.r, []string{"a", "in", "v", "n"}), K: kName, Pre: pick(x.r, []int{preNone, preMust})}})
	}
	return x.e(x.any(), 1, d)
}

// text lays the tokens out.
func (x *xg) textOf(t []Tok) string {
	x.start()
	x.emit(t)
	return x.src()
}

var mutToks = []string{"+", "-", "!", "*", "/", "%", ".", "..", "==", "=~#", "is", "isnot?", "<", "&&", "||", "?", ":", "(", ")", "[", "]", "{", "}", ",", "->", "#{", "1", "g:n", "g:s", "'a'", "\"b\"", "g:l", "g:d", "0x1", "1.5", "a", "len", "Id", "&ts", "@a", "$VMON_X", "0z12", "v:val"}

// mutTokens changes a few tokens.
func (x *xg) mutTokens(t []Tok) []Tok {
	t = append([]Tok{}, t...)
	for k := 1 + x.r.N(3); k > 0 && len(t) > 0; k-- {
		i := x.r.N(len(t))
		switch x.r.N(6) {
		case 0:
			t = append(t[:i:i], t[i+1:]...)
		case 1:
			t = append(t[:i+1:i+1], t[i:]...)
		case 2:
			j := x.r.N(len(t))
			t[i].T, t[j].T = t[j].T, t[i].T
		case 3:
			t[i].T = pick(x.r, mutToks)
		case 4:
			t = append(t[:i:i], append([]Tok{{T: pick(x.r, mutToks)}}, t[i:]...)...)
		case 5:
			t[i].Pre = x.r.N(3)
		}
	}
	return t
}
