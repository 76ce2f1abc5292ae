package main

import (
	_ "embed"
	"encoding/json"
	"fmt"
	goast "go/ast"
	goparser "go/parser"
	gotoken "go/token"
	"os"
	"os/exec"
	"path/filepath"
	"reflect"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"time"
)

//go:embed data/helpers.vim
var helpersVim string

func init() {
	register(&Prop{
		ID: "P25",
		Rule: "Vim evaluates =~# with every pattern package go uses, ==?, escape(), join(), split(), str2nr(), stridx(), range() and the reference's predicates of characters (isalpha and so on) with the same arguments as the stand-ins in package go: " +
			"every character up to U+02FF and many above, strings made from the letters of the pattern, near misses of strings that match, and random ones. The values must be the same. Distinct: different calls.",
		Units: units(96, 2400),
		Run:   runP25,
		Assume: []string{
			"Strings are valid UTF-8 without NUL, line breaks and combining characters, which the parser of the reference never passes on alone.",
		},
	})
}

// goHelpers are the stand-ins in package go, see data/p25_gate.sh.
var goHelpers map[string]any

// frozenPatterns were in use when the check was written.
var frozenPatterns = []string{
	"^[A-Za-z]$", "^[0-9A-Za-z]$", "^[0-9]$", "^[0-7]$", "^[0-9A-Fa-f]$", "^[0-9A-Za-z_]$", "^[A-Za-z_]$", "^[ \\t]$", "^[0-9A-Za-z_:#]$",
	"^[A-Za-z_][0-9A-Za-z_]*$", "^[vgslabwt]:$\\|^\\([vgslabwt]:\\)\\?[A-Za-z_][0-9A-Za-z_#]*$", "^[A-Z]$", "^[a-z]$",
	"^\\(:\\a\\+:\\|=.=\\|\\..\\.\\)\\]", "\\<BANG\\>", "\\<USERCMD\\>", "\\<ARGOPT\\>", "\\<EDITCMD\\>", "\\v^s%(c[^sr][^i][^p]|g|i[^mlg]|I|r[^e])",
	"[@*!=><&~#]", "\\v^d%[elete][lp]$", "^[A-Z]", "^++bin\\>", "^++nobin\\>", "^++edit\\>", "^++ff=\\(dos\\|unix\\|mac\\)\\>",
	"^++fileformat=\\(dos\\|unix\\|mac\\)\\>", "^++enc=\\S", "^++encoding=\\S", "^++bad=\\(keep\\|drop\\|\\S\\)\\(\\s\\|$\\)", "^++bad=keep", "^++bad=drop",
	"^++", "\\<TRLBAR\\>", "\\<\\(XFILE\\|FILES\\|FILE1\\)\\>", "\\<NOTRLCOM\\>", "\\<USECTRLV\\>", "^[0-9A-Fa-f][0-9A-Fa-f]$", "^\\.[0-9A-Fa-f]$",
	"^[0-9A-Fa-f][^0-9A-Fa-f]$", "^\\s*\\\\",
}

// usedPatterns are the literal patterns in the calls of package go.
func usedPatterns(repo string) (pats []string, used map[string]bool) {
	used = map[string]bool{}
	pkgs, _ := goparser.ParseDir(gotoken.NewFileSet(), filepath.Join(repo, "go"), nil, 0)
	for _, p := range pkgs {
		for name, f := range p.Files {
			if strings.HasSuffix(name, "_test.go") {
				continue
			}
			goast.Inspect(f, func(n goast.Node) bool {
				if x, ok := n.(*goast.CallExpr); ok && len(x.Args) == 2 {
					if id, ok := x.Fun.(*goast.Ident); ok && id.Name == "viml_eqregh" {
						if l, ok := x.Args[1].(*goast.BasicLit); ok {
							if s, err := strconv.Unquote(l.Value); err == nil {
								used[s] = true
							}
						}
					}
				}
				return true
			})
		}
	}
	all := map[string]bool{}
	for _, p := range frozenPatterns {
		all[p] = true
	}
	for p := range used {
		all[p] = true
	}
	for p := range all {
		pats = append(pats, p)
	}
	sort.Strings(pats)
	return
}

var wordEnd = regexp.MustCompile(`\\[<>]`)

// patAtoms are the words and characters in a pattern.
var patAtom = regexp.MustCompile(`\\[a-zA-Z<>|()+?.]|%?\[[^]]*\]|[A-Za-z0-9]+|.`)

func patAlphabet(p string) (atoms []string) {
	for _, a := range patAtom.FindAllString(p, -1) {
		switch {
		case a == `\S` || a == `\s` || a == `\a` || a == `\v` || a == `\<` || a == `\>`:
			atoms = append(atoms, " ", "\t", "a", "Z")
		case strings.HasPrefix(a, `\`):
			atoms = append(atoms, a[1:], a)
		case strings.Contains(a, "["):
			in := strings.Trim(a, "%[]^")
			for i, x := range in {
				atoms = append(atoms, string(x))
				if x == '-' && i > 0 && i+1 < len(in) {
					lo, hi := in[i-1], in[i+1]
					atoms = append(atoms, string(rune(lo+(hi-lo)/2)), string(rune(lo-1)), string(rune(hi+1)))
				}
			}
		default:
			atoms = append(atoms, a)
			if len(a) > 1 {
				atoms = append(atoms, a[:1], a[1:], a[:len(a)-1], strings.ToLower(a), strings.ToUpper(a))
			}
		}
	}
	return
}

// relatives are characters that fold or map to ASCII, or are classed as
// spaces, digits or letters outside of it.
var relatives = []rune("ſKİıåÅµσςẞß   　٣９ａＡ０＿\f\v\x01\x1b\x7f\u0085\u00ad\ufeff")

func anyRune(r *Rng) rune {
	for {
		x := rune(0)
		switch r.N(5) {
		case 0:
			x = pick(r, relatives)
		case 1:
			x = rune(r.Range(0x80, 0x2ff))
		case 2:
			x = rune(r.Range(0x300, 0xffff))
		case 3:
			x = rune(r.Range(0x10000, 0x1ffff))
		default:
			x = rune(r.Range(1, 0x7f))
		}
		if s := refText(string(x)); s == string(x) && x != '\n' {
			return x
		}
	}
}

func runeString(r *Rng, n int) string {
	var b strings.Builder
	for i := r.N(n + 1); i > 0; i-- {
		b.WriteRune(anyRune(r))
	}
	return b.String()
}

func patString(r *Rng, atoms []string) string {
	var b strings.Builder
	for i := r.Range(1, 7); i > 0; i-- {
		switch {
		case r.P(0.12):
			b.WriteRune(anyRune(r))
		case r.P(0.1):
			b.WriteByte(pick(r, []byte(" |:#_-+=.]")))
		default:
			b.WriteString(pick(r, atoms))
		}
	}
	return b.String()
}

var flagWords = strings.Fields("RANGE BANG EXTRA XFILE NOSPC DFLALL WHOLEFOLD NEEDARG TRLBAR REGSTR COUNT NOTRLCOM ZEROR USECTRLV NOTADR EDITCMD BUFNAME BUFUNL ARGOPT SBOXOK CMDWIN MODIFY EXFLAGS FILES WORD1 FILE1 NAMEDF NOTMODIFY USERCMD")

// hits are strings the ++opt and :s patterns are about.
func likeHit(r *Rng, pat string) string {
	switch {
	case strings.HasPrefix(pat, "^++"):
		return "++" + pick(r, []string{"bin", "nobin", "edit", "ff=", "fileformat=", "enc=", "encoding=", "bad=", "b", ""}) +
			pick(r, []string{"dos", "unix", "mac", "keep", "drop", "x", "", " ", "\t", "é", "_", "9", "-", "\f", "\v", string(anyRune(r))}) + pick(r, []string{"", " ", "\t", "x", "_", ".", "7", "\f", "=", string(anyRune(r))})
	case strings.Contains(pat, "c[^sr]"):
		return "s" + pick(r, []string{"c", "g", "i", "I", "r", "m", "l", ""}) + pick(r, []string{"s", "r", "i", "p", "m", "l", "g", "e", " ", "é", "c", ""}) + pick(r, []string{"i", "r", "p", "x", "", "ſ"}) + pick(r, []string{"p", "t", "", "x"})
	case strings.Contains(pat, "elete"):
		w := "delete"
		return w[:r.N(7)] + pick(r, []string{"", "l", "p", "lp", "e", "el", "x", "L", "ł"}) + pick(r, []string{"", "l", "p", " "})
	case strings.HasPrefix(pat, `\<`):
		var f []string
		for i := r.N(5); i >= 0; i-- {
			w := pick(r, flagWords)
			if r.P(0.2) {
				w = patAlphabet(pat)[r.N(len(patAlphabet(pat)))]
			}
			f = append(f, w)
		}
		return strings.Join(f, pick(r, []string{"|", " ", ",", ""}))
	case strings.Contains(pat, `:\a`):
		return pick(r, []string{":", "=", ".", "["}) + pick(r, []string{"alpha", "a", "Alpha", "ALPHA", "Z", "é", "=", "", ".", "x1", "ab", "a-b", string(anyRune(r))}) + pick(r, []string{":", "=", ".", ""}) + pick(r, []string{"]", "", "x]", "]]"})
	case strings.Contains(pat, "vgslabwt"):
		return pick(r, []string{"", "v:", "g:", "s:", "l:", "a:", "b:", "w:", "t:", "x:", "V:"}) + pick(r, []string{"", "foo", "_", "a#b", "#", "1", "9a", "a:b", "é", "a9", "A_#"})
	case strings.Contains(pat, `\\`):
		return pick(r, []string{"", " ", "\t", "  \t", " ", "　", "\f", "\v", "x"}) + pick(r, []string{`\`, `\\`, "", "/", `"\`}) + pick(r, []string{"", "x"})
	}
	return ""
}

type helperCall []any

func runP25(c *Ctx, unit int) {
	if goHelpers == nil {
		c.Inconcl = append(c.Inconcl, "the check was built without the gate to package go")
		return
	}
	r := c.R
	pats, used := usedPatterns(*fRepo)
	n := c.Prop().Units(c.Tier)
	var calls []helperCall
	add := func(name string, args ...any) {
		if goHelpers[name] == nil {
			c.Count("helpers that are not there: " + name)
			return
		}
		for _, a := range args {
			if s, ok := a.(string); ok && refText(s) != s && !strings.Contains(s, "\r") {
				return
			}
		}
		calls = append(calls, append(helperCall{name}, args...))
	}
	preds := strings.Fields("isalpha isalnum isdigit isodigit isxdigit iswordc iswordc1 iswhite isnamec isnamec1 isargname isvarname isidc isupper islower")
	if unit < 8 {
		// Every character alone, with the predicates and the patterns.
		for x := rune(1 + unit); x < 0x300; x += 8 {
			if x == '\n' {
				continue
			}
			for _, p := range preds {
				add(p, string(x))
			}
			for _, p := range pats {
				if !wordEnd.MatchString(p) {
					add("viml_eqregh", string(x), p)
				}
			}
		}
		for _, p := range preds {
			for _, s := range []string{"", "<EOF>", "<EOL>"} {
				add(p, s)
			}
		}
	}
	for k := unit; k < len(pats)*((n+len(pats)-1)/len(pats)); k += n {
		p := pats[k%len(pats)]
		atoms := patAlphabet(p)
		for i := 0; i < 700; i++ {
			s := ""
			switch {
			case r.P(0.45):
				s = likeHit(r, p)
			case r.P(0.1):
				s = runeString(r, 5)
			}
			if s == "" {
				s = patString(r, atoms)
			}
			if r.P(0.2) {
				s = strings.Map(func(x rune) rune {
					if x < 0x80 && r.P(0.3) {
						if x >= 'a' && x <= 'z' {
							return x - 32
						} else if x >= 'A' && x <= 'Z' {
							return x + 32
						}
					}
					return x
				}, s)
			}
			if wordEnd.MatchString(p) && !strings.HasPrefix(p, "^++") {
				// Flags of commands are ASCII.
				s = strings.Map(func(x rune) rune {
					if x > 0x7f {
						return '_'
					}
					return x
				}, s)
			}
			add("viml_eqregh", s, p)
		}
	}
	if unit == 0 {
		add("viml_eqregh", "++ff=dosé", "^++ff=\\(dos\\|unix\\|mac\\)\\>") // the known finding
	}
	for i := 0; i < 60; i++ {
		for _, p := range preds {
			add(p, string(anyRune(r)))
			add(p, pick(r, []string{"_", "a", "Z", "9", ":", "#", "v:", "b:x", "a#", ""})+pick(r, []string{"", "a", "é", "1", "_", " ", ":", "$", string(anyRune(r))}))
		}
	}
	for i := 0; i < 300; i++ {
		base := pick(r, []string{"<SID>", "SID>", "aStK", "ß", "İI", "Σσς", "x"})
		b := []rune(base)
		for j := range b {
			switch {
			case r.P(0.4):
				s := []rune(strings.ToLower(string(b[j])))
				b[j] = s[0]
			case r.P(0.1):
				b[j] = anyRune(r)
			case r.P(0.15):
				b[j] = pick(r, []rune("ſKİıiIsSkK"))
			}
		}
		add("viml_equalci", string(b), base)
		if r.P(0.5) {
			add("viml_equalci", pick(r, []string{"<SID>", "SID>"}), string(b[:r.N(len(b)+1)]))
		}
		add("viml_escape", runeString(r, 6)+pick(r, []string{`\`, `"`, `\"`, "'", ""})+runeString(r, 3), pick(r, []string{`\"`, `"`, `\`, `'\`}))
		s := runeString(r, 8)
		add("viml_split", s, `\zs`)
		t := []rune(s)
		sub := ""
		if len(t) > 0 {
			k := r.N(len(t))
			sub = string(t[k : k+1+r.N(len(t)-k)])
		}
		add("viml_stridx", s, pick(r, []string{sub, sub + "x", "", "#", ":", runeString(r, 2)}))
		w := pick(r, cmdNames())
		add("viml_stridx", w, w[r.N(len(w)):][:1]+w[1:r.Range(1, len(w))])
		var l []any
		for j := r.N(5); j > 0; j-- {
			l = append(l, runeString(r, 3))
		}
		if l == nil {
			l = []any{}
		}
		add("viml_join", l, pick(r, []string{" ", ", ", "", " . "}))
		base2 := pick(r, []int{8, 10, 16})
		d := ""
		for j := r.Range(1, 22); j > 0; j-- {
			d += string("0123456789abcdefABCDEF"[r.N(map[int]int{8: 8, 10: 10, 16: 22}[base2])])
		}
		add("viml_str2nr", d, base2)
		a := r.Range(-3, 6)
		add("viml_range", a, a-1+r.N(7))
	}
	judgeP25(c, calls, used)
	if unit == 0 {
		c.Sample(fmt.Sprint(calls[len(calls)-30:]))
	}
}

func judgeP25(c *Ctx, calls []helperCall, used map[string]bool) {
	out, problem := vimHelpers(calls)
	if out == nil {
		c.Inconcl = append(c.Inconcl, "vim does not evaluate the calls: "+problem)
		return
	}
	for i, x := range calls {
		name := x[0].(string)
		show := fmt.Sprintf("%q", x)
		c.Begin(show)
		if len(out[i]) > 1 || out[i][0] == "no such function" {
			c.Count("calls Vim has no value for: " + name)
			continue
		}
		want := plain(out[i][0])
		got, panicked, fits := callHelper(goHelpers[name], x[1:])
		if !fits {
			c.Count("helpers with another signature: " + name)
			continue
		}
		c.Eval(hashStr(show), true)
		c.Count("calls of " + name)
		if want == "1" || want == "true" {
			c.Count("calls of " + name + " that are true")
		}
		pat := ""
		if name == "viml_eqregh" {
			pat = x[2].(string)
			if panicked && !used[pat] {
				c.Count("patterns no longer known")
				continue
			}
		}
		if got != want {
			key := name + " differs from Vim"
			if pat != "" && strings.HasSuffix(pat, `\>`) && argoptEnd.MatchString(x[1].(string)) {
				key = "argopt-word-end"
			}
			c.KnownOr(key, fmt.Sprintf("%s: Vim %s, here %s", show, want, got), show)
		}
	}
}

// plain writes a value in a form that is the same for both sides.
func plain(v any) string {
	switch x := v.(type) {
	case bool:
		if x {
			return "1"
		}
		return "0"
	case float64:
		return strconv.FormatFloat(x, 'f', -1, 64)
	case int:
		return strconv.Itoa(x)
	case json.Number:
		return x.String()
	case string:
		return strconv.Quote(x)
	}
	if r := reflect.ValueOf(v); r.IsValid() && r.Kind() == reflect.Slice {
		s := "["
		for i := 0; i < r.Len(); i++ {
			s += plain(r.Index(i).Interface()) + ","
		}
		return s + "]"
	}
	return fmt.Sprint(v)
}

func callHelper(f any, args []any) (out string, panicked, fits bool) {
	v := reflect.ValueOf(f)
	if v.Type().NumIn() != len(args) || v.Type().NumOut() != 1 || v.Type().IsVariadic() {
		return
	}
	var in []reflect.Value
	for i, a := range args {
		x := reflect.ValueOf(a)
		if !x.Type().AssignableTo(v.Type().In(i)) {
			return
		}
		in = append(in, x)
	}
	fits = true
	defer func() {
		if p := recover(); p != nil {
			out, panicked = fmt.Sprintf("panic: %v", p), true
		}
	}()
	out = plain(v.Call(in)[0].Interface())
	return
}

// vimHelpers has Vim evaluate the calls.
func vimHelpers(calls []helperCall) (out [][]any, problem string) {
	dir, err := os.MkdirTemp(*fTmp, "helpers")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(dir)
	b, err := json.Marshal(calls)
	if err != nil {
		panic(err)
	}
	script := filepath.Join(dir, "helpers.vim")
	if os.WriteFile(filepath.Join(dir, "in"), asciiJSON(b), 0o644) != nil || os.WriteFile(script, []byte(helpersVim), 0o644) != nil {
		panic("cannot write to the scratch directory")
	}
	cmd := exec.Command("vim", "-u", "NONE", "-i", "NONE", "-N", "-es", "--cmd", "let &rtp .= ',' . $VMON_REPO", "-S", script, "-c", "qall!")
	cmd.Dir = dir
	cmd.Env = append(os.Environ(), "VMON_REPO="+*fRepo, "VMON_IN="+filepath.Join(dir, "in"), "VMON_OUT="+filepath.Join(dir, "out"), "HOME="+dir)
	if err := cmd.Start(); err != nil {
		return nil, err.Error()
	}
	t := time.AfterFunc(120*time.Second, func() { cmd.Process.Kill() })
	werr := cmd.Wait()
	t.Stop()
	b, err = os.ReadFile(filepath.Join(dir, "out"))
	if err != nil {
		return nil, fmt.Sprint(werr, err)
	}
	d := json.NewDecoder(strings.NewReader(string(b)))
	d.UseNumber()
	if err := d.Decode(&out); err != nil || len(out) != len(calls) {
		return nil, fmt.Sprintf("%v %v %.200q", werr, err, b)
	}
	return out, ""
}
