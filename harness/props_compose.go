package main

import (
	"fmt"
	"reflect"
	"regexp"
	"sort"
	"strings"

	"github.com/vim-jp/go-vimlparser/ast"
)

func init() {
	register(&Prop{
		ID: "P23",
		Rule: "Valid scripts (generated, recorded, mutated) are parsed; then blank lines, comments, whole other scripts, white space and colons are put before lines where statements begin, at every depth of nesting, and the result is parsed. " +
			"The AST must be the first one with its positions moved, plus the AST of each inserted script with its positions moved, in the place it was put. An inserted script with an error must give that error, moved. Two scripts one after the other are the special case. Distinct: different shapes of AST and different errors.",
		Units: units(600, 20000),
		Run:   runP23,
	})
}

var contRe = regexp.MustCompile(`^[ \t]*\\`)

// blockMsg is the error of a block, which depends on what is around.
var blockMsg = regexp.MustCompile(`^E(126|133|170|171|193|58\d|60\d|990):`)

// closedScript makes a valid script after which another may follow.
func closedScript(c *Ctx, n int) (string, *ast.File, bool) {
	r := c.R
	for {
		var src string
		nv := r.P(0.3)
		switch k := r.N(10); {
		case k < 6:
			g := newGen(r)
			g.scriptOpts()
			g.neovim = nv
			g.script(r.Range(1, n))
			src = g.src()
		case k < 8:
			src = corpusPart(r, 4*n)
		default:
			src = mutate(r, corpusPart(r, 2*n))
		}
		if !strings.HasSuffix(src, "\n") {
			src += "\n"
		}
		if contRe.MatchString(src) || strings.HasPrefix(src, "\ufeff") {
			continue
		}
		res := parseFile(c, src, nv, fname)
		if res.File == nil {
			continue
		}
		end, open := mayEnd(res.File)
		if end {
			continue
		}
		t := parseFile(c, src+"vmon\n", nv, fname)
		if t.VErr != nil && t.VErr.Msg == "E492: Not an editor command: vmon" {
			return src, res.File, nv
		}
		if !open {
			c.Viol("what follows a valid script is not read", t.show(), src)
		}
	}
}

// mayEnd tells whether a command in the script ends the reading of commands,
// and whether one takes lines up to a mark that may be missing.
func mayEnd(f *ast.File) (end, open bool) {
	eachNode(reflect.ValueOf(f), func(n ast.Node) {
		switch x := n.(type) {
		case *ast.HeredocExpr:
			open = true
		case ast.ExCommand:
			switch cmd := x.Cmd(); cmd.Name {
			case "finish", "loadkeymap":
				end = true
			case "append", "insert", "change":
				open = true
			default:
				if e, ok := n.(*ast.Excmd); ok && strings.Contains(e.Command, "<<") {
					open = true
				}
			}
		}
	})
	return
}

// insertion is text put into a script at an offset, the start of a line.
type insertion struct {
	at     int
	text   string
	prefix bool // white space and colons before what there is
	file   *ast.File
	bad    bool // with an error
}

var tStmts = reflect.TypeOf([]ast.Statement{})

// cutStmts takes out of an AST the statements that begin in a range of
// offsets.
func cutStmts(v reflect.Value, lo, hi int, out *[][]ast.Statement) {
	v = deref(v)
	if !v.IsValid() {
		return
	}
	switch v.Kind() {
	case reflect.Struct:
		if v.Type() == tPos || v.Type() == tExArg {
			return
		}
		for i := 0; i < v.NumField(); i++ {
			if v.Type().Field(i).Anonymous {
				continue
			}
			cutStmts(v.Field(i), lo, hi, out)
		}
	case reflect.Slice:
		if v.Type() == tStmts {
			var keep, cut []ast.Statement
			for _, s := range v.Interface().([]ast.Statement) {
				o := startOf(s)
				if o >= lo && o < hi {
					cut = append(cut, s)
				} else {
					keep = append(keep, s)
					cutStmts(reflect.ValueOf(s), lo, hi, out)
				}
			}
			if cut != nil {
				*out = append(*out, cut)
				v.Set(reflect.ValueOf(keep))
			}
			return
		}
		if k := v.Type().Elem().Kind(); k != reflect.Ptr && k != reflect.Interface && k != reflect.Struct {
			return
		}
		for i := 0; i < v.Len(); i++ {
			cutStmts(v.Index(i), lo, hi, out)
		}
	}
}

// startOf is the offset where the text of a statement begins, modifiers and
// range included, -1 if nothing says it.
func startOf(n any) int {
	if x, ok := n.(*ast.Comment); ok {
		return x.Quote.Offset
	}
	v := reflect.ValueOf(n).Elem()
	if f := v.FieldByName("ExArg"); f.IsValid() {
		if p := f.Interface().(ast.ExArg).Linepos; p != nil {
			return p.Offset
		}
	}
	return -1
}

// firstLines gives the offsets of the lines that begin with a statement (or
// with what ends or divides a block), and for each whether a heredoc may begin
// there.
func firstLines(src string, f *ast.File) (at []int, here map[int]bool) {
	seen := map[int]bool{}
	var rec func(v reflect.Value)
	add := func(o int) {
		if o < 0 || o > len(src) {
			return
		}
		l := strings.LastIndexByte(src[:o], '\n') + 1
		if l == 0 || strings.Trim(src[l:o], " \t:") != "" || strings.HasPrefix(src[o:], "#!") || seen[l] {
			return
		}
		seen[l] = true
		at = append(at, l)
	}
	rec = func(v reflect.Value) {
		v = deref(v)
		if !v.IsValid() {
			return
		}
		switch v.Kind() {
		case reflect.Struct:
			if v.Type() == tPos || v.Type() == tExArg || v.Type() == tCmd {
				return
			}
			if v.CanAddr() {
				add(startOf(v.Addr().Interface()))
			}
			for i := 0; i < v.NumField(); i++ {
				if !v.Type().Field(i).Anonymous {
					rec(v.Field(i))
				}
			}
		case reflect.Slice:
			for i := 0; i < v.Len(); i++ {
				rec(v.Index(i))
			}
		}
	}
	rec(reflect.ValueOf(f))
	sort.Ints(at)
	here = map[int]bool{}
	for i, l := range at {
		end := len(src)
		if i+1 < len(at) {
			end = at[i+1]
		}
		here[l] = strings.Contains(src[l:end], "<<")
	}
	return
}

// moved is where a position goes when the insertions are made; ins is sorted.
func moved(ins []insertion, src string) func(p ast.Pos) ast.Pos {
	return func(p ast.Pos) ast.Pos {
		lo := 0
		if p.Offset <= len(src) {
			lo = strings.LastIndexByte(src[:p.Offset], '\n') + 1
		} else {
			lo = p.Offset
		}
		q := p
		for _, x := range ins {
			if x.at > p.Offset {
				break
			}
			q.Offset += len(x.text)
			q.Line += strings.Count(x.text, "\n")
			if x.prefix && x.at == lo {
				q.Column += len(x.text)
			}
		}
		return q
	}
}

func runP23(c *Ctx, unit int) {
	r := c.R
	for i := 0; i < 25; i++ {
		base, _, nv := closedScript(c, 10)
		base = "\n" + base
		one := parseFile(c, base, nv, fname)
		if one.File == nil {
			c.Viol("a blank line before a valid script", one.show(), base)
			continue
		}
		lines, here := firstLines(base, one.File)
		// The end is a place as well.
		lines = append(lines, len(base))
		var ins []insertion
		bad := -1 // the insertion with an error
		var badErr *Res
		for k := r.Range(1, 5); k > 0; k-- {
			l := pick(r, lines)
			x := insertion{at: l}
			switch t := r.N(10); {
			case t < 2:
				for j := r.Range(1, 3); j > 0; j-- {
					x.text += pick(r, []string{"", "", " ", "\t \t", ":", " : : "}) + "\n"
				}
				c.Count("inserted blank lines")
				if r.P(0.01) {
					x.text = strings.Repeat("\n", r.Range(hugeMin, hugeMax))
					c.Count("inserted very many lines")
				}
			case t < 4:
				if here[l] || l == len(base) {
					continue
				}
				for j := r.Range(1, 4); j > 0; j-- {
					x.text += pick(r, []string{" ", "\t", ":", "  ", ": "})
				}
				x.prefix = true
				c.Count("inserted white space and colons")
			case t == 4 && bad < 0:
				s, _, _ := input(r)
				if r.P(0.5) {
					s = mutate(r, corpusPart(r, 6))
				}
				if !strings.HasSuffix(s, "\n") {
					s += "\n"
				}
				if contRe.MatchString(s) || strings.HasPrefix(s, "\ufeff") || strings.HasPrefix(s, "#!") {
					continue
				}
				badErr = parseFile(c, s, nv, fname)
				if badErr.VErr == nil || badErr.Exceeded || badErr.Panic != "" || blockMsg.MatchString(badErr.VErr.Msg) || badErr.VErr.Offset >= len(s) {
					continue
				}
				x.text = s
				x.bad = true
				c.Count("inserted scripts with an error")
			default:
				s, _, _ := closedScript(c, 4)
				t := parseFile(c, s, nv, fname)
				if t.File == nil || strings.HasPrefix(s, "#!") {
					continue
				}
				x.text, x.file = s, t.File
				c.Count("inserted scripts")
			}
			dup := false
			for _, y := range ins {
				if y.at == x.at && y.prefix == x.prefix {
					dup = true
				}
			}
			if dup {
				continue
			}
			if x.bad {
				bad = l
			}
			ins = append(ins, x)
		}
		if len(ins) == 0 {
			continue
		}
		sort.SliceStable(ins, func(a, b int) bool {
			if ins[a].at != ins[b].at {
				return ins[a].at < ins[b].at
			}
			return !ins[a].prefix
		})
		judgeP23(c, base, one, ins, bad, badErr, nv)
		if unit == 0 && i == 0 {
			c.Sample(base)
		}
	}
}

func judgeP23(c *Ctx, base string, one *Res, ins []insertion, bad int, badErr *Res, nv bool) {
	var b strings.Builder
	last := 0
	start := make([]int, len(ins)) // offsets of the inserted texts
	for k, x := range ins {
		b.WriteString(base[last:x.at])
		start[k] = b.Len()
		b.WriteString(x.text)
		last = x.at
	}
	b.WriteString(base[last:])
	src := b.String()
	got := parseFile(c, src, nv, fname)
	describe := func() string {
		s := ""
		for k, x := range ins {
			s += fmt.Sprintf("inserted at offset %d: %q\n", start[k], x.text)
		}
		return s
	}
	shift := func(k int) func(ast.Pos) ast.Pos {
		n := strings.Count(src[:start[k]], "\n")
		return func(p ast.Pos) ast.Pos {
			p.Offset += start[k]
			p.Line += n
			return p
		}
	}
	if bad >= 0 {
		for k, x := range ins {
			if !x.bad {
				continue
			}
			cmp := cmpAll
			cmp.MapPos = shift(k)
			if got.VErr != nil {
				c.Eval(hashStr(got.VErr.Msg), true)
			}
			if d := same(badErr, got, cmp); d != "" {
				c.Viol("an error in an inserted script", d+"\n"+describe(), src)
			}
			return
		}
	}
	if got.File == nil {
		c.Viol("scripts valid by themselves are not valid together", got.show()+"\n"+describe(), src)
		return
	}
	c.Eval(Shape(got.File), true)
	for k, x := range ins {
		if x.prefix {
			continue
		}
		var cut [][]ast.Statement
		cutStmts(reflect.ValueOf(got.File), start[k], start[k]+len(x.text), &cut)
		if x.file == nil {
			if cut != nil {
				c.Viol("statements in blank lines", Dump(cut, cmpStruct)+"\n"+describe(), src)
			}
			continue
		}
		c.Add("inserted statements compared", len(x.file.Body))
		var have []ast.Statement
		if len(cut) == 1 {
			have = cut[0]
		} else if len(cut) > 1 {
			c.Viol("an inserted script in several places", Dump(cut, cmpStruct)+"\n"+describe(), src)
			return
		}
		cmp := cmpAll
		cmp.MapPos = shift(k)
		if d := Diff(x.file.Body, have, cmp); d != "" {
			c.Viol("an inserted script means something else", d+"\n"+describe(), src)
			return
		}
	}
	cmp := cmpAll
	cmp.MapPos = moved(ins, base)
	c.Add("statements around compared", len(one.File.Body))
	if d := Diff(one.File, got.File, cmp); d != "" {
		c.Viol("a script means something else around an insertion", d+"\n"+describe(), src)
	}
}
