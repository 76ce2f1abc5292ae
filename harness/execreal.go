package main

import (
	_ "embed"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
)

//go:embed data/real.vim
var realVim string

// realSkip lists scripts which tell their text from its equivalent: colortest
// edits its own file, and in the other two Vim tells :syntax keyword X with a
// comment behind it from the same without, which is an error.
var realSkip = map[string]bool{"colortest.vim": true, "haste.vim": true, "smarty.vim": true}

// realFiles are the scripts that come with Vim.
var realFiles = func() []string {
	var r []string
	for _, d := range []string{"syntax", "indent", "ftplugin", "colors", "compiler", "keymap", "autoload", "plugin", "macros", "lang"} {
		m, _ := filepath.Glob("/usr/share/vim/vim[0-9]*/" + d + "/*.vim")
		for _, f := range m {
			if !realSkip[filepath.Base(f)] {
				r = append(r, f)
			}
		}
	}
	sort.Strings(r)
	return r
}()

// realNormal takes away what depends on the place and the layout of a script.
func realNormal(b []byte, dir string) any {
	var v any
	json.Unmarshal(b, &v)
	var walk func(v any) any
	walk = func(v any) any {
		switch x := v.(type) {
		case string:
			x = strings.ReplaceAll(x, dir+"/a/", "DIR/")
			x = strings.ReplaceAll(x, dir+"/b/", "DIR/")
			x = realLine.ReplaceAllString(x, "")
			return normal(x)
		case []any:
			r := make([]any, len(x))
			for i, y := range x {
				r[i] = walk(y)
			}
			return r
		}
		return v
	}
	return walk(v)
}

var realLine = regexp.MustCompile(`(?m)\b[Ll]ine +\d+:?|\[\d+\]`)

// realScript has Vim source one of its own scripts, and what its AST says.
func realScript(c *Ctx, file string) {
	b, err := os.ReadFile(file)
	if err != nil {
		return
	}
	src := string(b)
	if strings.Contains(src, "vim9script") || unsupported.MatchString(src) && strings.Contains(src, "??") {
		c.Count("scripts of Vim in another language")
		return
	}
	res := parseFile(c, src, false, "")
	if res.Exceeded || res.Panic != "" {
		c.Viol("the parser fails", res.show(), src)
		return
	}
	if res.Err != nil {
		c.Count("scripts of Vim which the parser rejects")
		c.Count("rejected: " + filepath.Base(file) + ": " + keyOf(res.Err.Error()))
		return
	}
	v := &vimText{}
	v.body(res.File.Body)
	if v.err != "" {
		c.Viol("the AST cannot be written: "+keyOf(v.err), v.err, src)
		return
	}
	out := v.b.String() + "\n"
	dir, err := os.MkdirTemp(*fTmp, "real")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(dir)
	run := func(which, text string) any {
		d := filepath.Join(dir, which, filepath.Base(filepath.Dir(file)))
		f := filepath.Join(d, filepath.Base(file))
		os.MkdirAll(d, 0o755)
		home := filepath.Join(dir, "home")
		os.MkdirAll(home, 0o755)
		script := filepath.Join(dir, "real.vim")
		if os.WriteFile(f, []byte(text), 0o644) != nil || os.WriteFile(script, []byte(realVim), 0o644) != nil {
			panic("cannot write to the scratch directory")
		}
		o := filepath.Join(dir, "out")
		os.Remove(o)
		cmd := exec.Command("timeout", "-s", "KILL", "20", "vim", "-Z", "-u", "NONE", "-i", "NONE", "-N", "-n", "-es", "-S", script, "-c", "qall!")
		cmd.Dir = home
		cmd.Env = append(os.Environ(), "VMON_SRC="+f, "VMON_OUT="+o, "HOME="+home, "LC_ALL=C.UTF-8")
		cmd.Run()
		b, _ := os.ReadFile(o)
		if len(b) == 0 {
			return nil
		}
		return realNormal(b, dir)
	}
	x, y := run("a", src), run("b", out)
	if x == nil || y == nil {
		if y == nil && x != nil {
			y = run("b", out)
		}
		if x == nil || y == nil {
			c.Count(noAnswer)
			return
		}
	}
	c.Eval(hashStr(file), true)
	p, _ := json.Marshal(x)
	q, _ := json.Marshal(y)
	how := fmt.Sprint(x.([]any)[0])
	c.Count("scripts of Vim: " + strings.Fields(how)[0])
	if string(p) != string(q) {
		key := "the AST of a script of Vim means something else"
		if os.Getenv("VMON_DEBUG") != "" {
			fmt.Fprintf(os.Stderr, "@@ %s: %s\n%s\n@@E\n", key, file, difference(string(p), string(q)))
		}
		c.Viol(key, file+"\n"+difference(string(p), string(q)), src)
	}
}
