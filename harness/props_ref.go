package main

import (
	_ "embed"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"strings"
	"time"
	"unicode"
	"unicode/utf16"
	"unicode/utf8"
)

//go:embed data/ref.vim
var refVim string

func init() {
	register(&Prop{
		ID: "P09",
		Rule: "Vim runs the reference parser and compiler of the tree on the same scripts as this package: generated, mutated and recorded scripts, token soup and every prefix of every command, in both modes. " +
			"The S-expressions, or the error with its line and column, must be the same. Distinct: different shapes of AST and different errors.",
		Units: units(64, 1600),
		Run:   runP09,
		Assume: []string{
			"Scripts are valid UTF-8 without NUL and carriage return, which is what Vim's readfile() can pass on to the reference.",
			"There are no combining characters: the reference takes them together with the character before, as split() does, the Go parser does not, and neither does Vim.",
		},
	})
}

// The word at the end of these options is followed by a letter beyond ASCII.
var argoptEnd = regexp.MustCompile(`\+\+(bin|nobin|edit|(ff|fileformat)=(dos|unix|mac))[^\x00-\x7f]`)

type refCase struct {
	src    string
	neovim bool
}

// reference runs the reference on the cases.
func reference(c *Ctx, cases []refCase) [][2]any {
	dir, err := os.MkdirTemp(*fTmp, "ref")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(dir)
	var in [][2]any
	for _, x := range cases {
		nv := 0
		if x.neovim {
			nv = 1
		}
		in = append(in, [2]any{splitLines(x.src), nv})
	}
	b, err := json.Marshal(in)
	if err != nil {
		panic(err)
	}
	script := filepath.Join(dir, "ref.vim")
	if os.WriteFile(filepath.Join(dir, "in"), asciiJSON(b), 0o644) != nil || os.WriteFile(script, []byte(refVim), 0o644) != nil {
		panic("cannot write to the scratch directory")
	}
	cmd := exec.Command("vim", "-u", "NONE", "-i", "NONE", "-N", "-es", "--cmd", "let &rtp .= ',' . $VMON_REPO", "-S", script, "-c", "qall!")
	cmd.Dir = dir
	cmd.Env = append(os.Environ(), "VMON_REPO="+*fRepo, "VMON_IN="+filepath.Join(dir, "in"), "VMON_OUT="+filepath.Join(dir, "out"), "HOME="+dir)
	if err := cmd.Start(); err != nil {
		c.Inconcl = append(c.Inconcl, "vim does not run: "+err.Error())
		return nil
	}
	t := time.AfterFunc(60*time.Second, func() { cmd.Process.Kill() })
	werr := cmd.Wait()
	t.Stop()
	b, err = os.ReadFile(filepath.Join(dir, "out"))
	var out [][2]any
	if err != nil || json.Unmarshal(b, &out) != nil || len(out) != len(cases) {
		if c.NViols > 0 {
			return nil
		}
		if len(cases) > 1 {
			// Find out which script it is.
			h := len(cases) / 2
			x := reference(c, cases[:h])
			if y := reference(c, cases[h:]); x != nil && y != nil {
				return append(x, y...)
			}
			return nil
		}
		c.Viol("the reference does not come to an end", fmt.Sprintf("vim: %v, output: %.200q", werr, b), cases[0].src)
		return [][2]any{{"none", nil}}
	}
	return out
}

func judgeP09(c *Ctx, x refCase, ref [2]any) {
	bad := func(key, format string, a ...any) {
		if argoptEnd.MatchString(x.src) {
			key = "argopt-word-end"
		}
		c.KnownOr(key, fmt.Sprintf(format, a...)+fmt.Sprintf("\nneovim: %v", x.neovim), x.src)
	}
	res := parseFile(c, x.src, x.neovim, "")
	got, isErr := "", false
	switch {
	case res.Exceeded || res.Panic != "":
		got, isErr = res.show(), true
	case res.Err != nil:
		got, isErr = res.Err.Error(), true
	default:
		s, err, p := compile(c, res.File, len(x.src))
		if p != "" || err != nil {
			bad("the compiler fails", "%v %s", err, p)
			return
		}
		got = strings.TrimSuffix(s, "\n")
	}
	switch ref[0] {
	case "ok":
		var l []string
		for _, v := range ref[1].([]any) {
			l = append(l, v.(string))
		}
		want := strings.Join(l, "\n")
		if isErr {
			bad("an error the reference does not give", "reference:\n%s\nhere: %s", want, got)
		} else if key := knownRef(want, got); key != "" {
			bad(key, "%s", firstLine(want, got))
		} else if want != got {
			bad("another S-expression", "%s\nreference:\n%s\nhere:\n%s", firstLine(want, got), want, got)
		}
		c.Eval(Shape(res.Node()), true)
		c.Count("compared S-expressions")
	case "error":
		want, where, _ := strings.Cut(ref[1].(string), "\n")
		if !strings.HasPrefix(want, "vimlparser: ") {
			c.Count("errors of Vim itself in the reference: " + want[:min(len(want), 60)])
			bad("the reference fails in Vim", "reference: %s at %s\nhere: %s", want, where, got)
			return
		}
		if !isErr {
			bad("an error of the reference is not given", "reference: %s\nhere:\n%s", want, got)
		} else if want != got {
			bad("another error", "reference: %s\nhere:      %s", want, got)
		}
		c.Eval(hashStr(want), true)
		c.Count("compared errors")
	}
}

// knownRef tells whether the S-expressions differ only in one of the known
// ways: what it is called, and "" if they are the same or differ otherwise.
func knownRef(want, got string) string {
	x, y := strings.Split(want, "\n"), strings.Split(got, "\n")
	if len(x) != len(y) {
		return ""
	}
	key := ""
	for i := range x {
		if x[i] == y[i] {
			continue
		}
		t := strings.TrimLeft(x[i], " ")
		n := len(x[i]) - len(t)
		switch {
		case strings.TrimRight(t, ")") == "catch //" && y[i] == x[i][:n]+"catch"+t[8:]:
			key = "catch-empty-pattern"
		case strings.HasPrefix(t, "(lockvar 0 ") && y[i] == x[i][:n]+"(lockvar "+t[11:]:
			key = "lockvar-depth-0"
		case strings.HasPrefix(t, "(unlockvar 0 ") && y[i] == x[i][:n]+"(unlockvar "+t[13:]:
			key = "lockvar-depth-0"
		default:
			return ""
		}
	}
	return key
}

// asciiJSON writes the characters beyond ASCII as \u escapes, because Vim's
// readfile() would take some of them out.
func asciiJSON(b []byte) []byte {
	var o []byte
	for _, x := range string(b) {
		if x < 0x80 {
			o = append(o, byte(x))
			continue
		}
		for _, u := range utf16.Encode([]rune{x}) {
			o = append(o, fmt.Sprintf("\\u%04x", u)...)
		}
	}
	return o
}

func firstLine(a, b string) string {
	x, y := strings.Split(a, "\n"), strings.Split(b, "\n")
	for i := range x {
		if i >= len(y) || x[i] != y[i] {
			g := "nothing"
			if i < len(y) {
				g = y[i]
			}
			return fmt.Sprintf("line %d: reference %q, here %q", i+1, x[i], g)
		}
	}
	return fmt.Sprintf("%d lines more here", len(y)-len(x))
}

// refText makes the script one Vim can be given.
func refText(s string) string {
	s = strings.NewReplacer("\r", "", "\x00", "").Replace(s)
	if !utf8.ValidString(s) {
		s = strings.ToValidUTF8(s, "é")
	}
	return strings.Map(func(x rune) rune {
		switch {
		case unicode.Is(unicode.M, x), x == 0x200d, x >= 0x1160 && x <= 0x11ff, x >= 0x1f1e6 && x <= 0x1f1ff, x >= 0x1f3fb && x <= 0x1f3ff:
			return 'x'
		}
		return x
	}, s)
}

func runP09(c *Ctx, unit int) {
	r := c.R
	var cases []refCase
	lines := 0
	add := func(src string, nv bool) {
		src = refText(src)
		cases = append(cases, refCase{src, nv})
		lines += 1 + strings.Count(src, "\n")
	}
	if unit == 0 {
		// The known findings.
		add("lockvar 0 x", false)
		add("try\ncatch //\nendtry", false)
		add("e ++ff=dosé x", false)
		// Characters that are nearly what the syntax asks for.
		for _, w := range []string{"call <SİD>x()", "call <\u017fID>x()", "echo <\u017fid>x", "function <s\u0131D>f()\nendfunction", "e ++enc=\f x", "e ++encoding=\v", "e ++bad=\f x",
			"call <SID>x()", "let \uff41 = 1", "echo \uff11", "e\u00a0x", "\u3000e x", "1\u0663d", "echo 0x\uff21", "\u212aeepalt e"} {
			add(w, false)
		}
	}
	for i := 0; i < 40 && lines < 220; i++ {
		src, kind, neovim := input(r)
		c.Count(kind)
		add(src, neovim)
		if i < 8 {
			e, kind := inputExpr(r)
			c.Count(kind)
			add("echo "+e, false)
		}
	}
	n := c.Prop().Units(c.Tier)
	names := cmdNames()
	for k := unit; k < len(names); k += n {
		w := names[k]
		for j := 1; j <= len(w); j++ {
			add(w[:j]+pick(r, []string{"", "!", " x", "1", "p", " ++ff=unix x", " x|y"}), r.P(0.5))
		}
	}
	for k := unit; k < len(errLines)+len(errExprs); k += n {
		s := errorText(r, k)
		add(s, r.P(0.5))
		add(mutate(r, s), r.P(0.5))
		c.Count("syntax errors by template")
	}
	out := reference(c, cases)
	if out == nil {
		return
	}
	for i, x := range cases {
		judgeP09(c, x, out[i])
		if unit == 0 && i < 3 {
			c.Sample(x.src)
		}
	}
}
