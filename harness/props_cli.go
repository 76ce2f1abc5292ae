package main

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"time"

	"encoding/json"

	"github.com/vim-jp/go-vimlparser/ast"
	"github.com/vim-jp/go-vimlparser/compiler"
)

func init() {
	register(&Prop{
		ID: "P18",
		Rule: "The built command is run on random lists of files (generated, recorded, mutated, empty, missing, directories, the same file again, odd names), with and without -json and -neovim, and on standard input from files and pipes in pieces; and with standard output on a full device. Its output, error output and exit status are compared with what the library gives for the same bytes in this process. " +
			"Distinct: different combinations of flags and kinds of files.",
		Units: units(400, 8000),
		Run:   runP18,
	})
}

// ran is what a run of the command did.
type ran struct {
	out, err string
	code     int
	failed   string
}

func cmdBin() string {
	return filepath.Join(filepath.Dir(strings.TrimSuffix(*fTmp, "/")), "vimlparser")
}

func runCmd(dir string, stdin io.Reader, stdout io.Writer, args ...string) *ran {
	return runBin(dir, cmdBin(), stdin, stdout, args...)
}

func runBin(dir, bin string, stdin io.Reader, stdout io.Writer, args ...string) *ran {
	ctx, stop := context.WithTimeout(context.Background(), 300*time.Second)
	defer stop()
	cmd := exec.CommandContext(ctx, bin, args...)
	cmd.Dir = dir
	var o, e bytes.Buffer
	cmd.Stdin = stdin
	cmd.Stdout = &o
	if stdout != nil {
		cmd.Stdout = stdout
	}
	cmd.Stderr = &e
	err := cmd.Run()
	r := &ran{out: o.String(), err: e.String()}
	var xe *exec.ExitError
	switch {
	case err == nil:
	case errors.As(err, &xe) && xe.Exited():
		r.code = xe.ExitCode()
	default:
		r.failed = err.Error()
	}
	return r
}

// want is what the command has to do with a file.
type want struct {
	arg  string
	kind string
	src  string
	node *ast.File
	text string // what is printed without -json
	err  string // a line of the error output, or a part of it
}

// lib parses a file as the command should.
func (w *want) lib(c *Ctx, nv bool, name string) {
	res := parseFile(c, w.src, nv, name)
	if res.Err != nil || res.File == nil {
		if res.Err == nil {
			w.err = "no AST and no error"
			return
		}
		w.err = res.Err.Error()
		return
	}
	w.node = res.File
	var b bytes.Buffer
	cc := &compiler.Compiler{Config: compiler.Config{Indent: "  "}}
	if err := cc.Compile(&b, res.File); err != nil {
		w.err = err.Error()
		return
	}
	w.text = b.String()
}

var oddNames = []string{"a.vim", "b c.vim", "é.vim", "%s%d.vim", "x", "sub/y.vim", ".vimrc", "a:b.vim", "q'\".vim", "-dash.vim", "new\nline.vim"}

func runP18(c *Ctx, unit int) {
	r := c.R
	dir, err := os.MkdirTemp(*fTmp, "cli")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(dir)
	os.MkdirAll(dir+"/sub/dir", 0o755)
	if unit%20 == 0 {
		manyFiles(c, dir)
	}
	for i := 0; i < 6; i++ {
		js, nv := r.P(0.4), r.P(0.4)
		var flags []string
		if js {
			flags = append(flags, pick(r, []string{"-json", "--json", "-json=true"}))
		} else if r.P(0.1) {
			flags = append(flags, "-json=false")
		}
		if nv {
			flags = append(flags, "-neovim")
		}
		if len(flags) == 2 && r.P(0.5) {
			flags[0], flags[1] = flags[1], flags[0]
		}
		if i%3 == 2 {
			fromStdin(c, dir, flags, js, nv)
			continue
		}
		var ws []*want
		used := map[string]*want{}
		for n := r.Range(1, 5); n > 0; n-- {
			w := &want{}
			switch k := r.N(12); {
			case k == 0:
				w.kind = "missing"
				w.arg = pick(r, []string{"missing.vim", "nodir/x.vim", "sub/none", "m %d.vim"})
				w.err = w.arg + ": "
			case k == 1:
				w.kind = "directory"
				w.arg = pick(r, []string{"sub", "sub/dir", "."})
				w.err = w.arg + ": "
			case k == 2 && len(ws) > 0:
				o := *pick(r, ws)
				w = &o
				w.kind = "again"
			default:
				w.arg = pick(r, oddNames)
				if used[w.arg] != nil {
					continue
				}
				var kind string
				w.src, kind, _ = input(r)
				if r.P(0.1) {
					w.src, kind = "", "empty"
				}
				w.kind = kind
				used[w.arg] = w
				if err := os.WriteFile(filepath.Join(dir, w.arg), []byte(w.src), 0o644); err != nil {
					panic(err)
				}
			}
			ws = append(ws, w)
		}
		args := append([]string{}, flags...)
		if strings.HasPrefix(ws[0].arg, "-") {
			args = append(args, "--")
		}
		abs := r.P(0.2)
		shape := strings.Join(flags, " ")
		for _, w := range ws {
			broken := w.kind == "missing" || w.kind == "directory" || strings.HasSuffix(w.err, ": ")
			if abs && broken {
				w.err = filepath.Join(dir, w.arg) + ": "
			}
			arg := w.arg
			if abs {
				arg = filepath.Join(dir, w.arg)
			}
			if !broken && w.err == "" && w.node == nil {
				w.lib(c, nv, arg)
			}
			args = append(args, arg)
			shape += " " + w.kind
			if w.err != "" {
				shape += "!"
			}
			c.Count("files: " + w.kind)
		}
		if abs && args[len(flags)] == "--" {
			args = append(args[:len(flags)], args[len(flags)+1:]...)
		}
		c.Eval(hashStr(shape), true)
		// Standard input is not to be read.
		var stdin io.Reader
		if r.P(0.3) {
			stdin = strings.NewReader("let stdin = read\n")
		}
		got := runCmd(dir, stdin, nil, args...)
		judgeRun(c, ws, got, js, args)
		if i == 0 {
			fullDevice(c, dir, ws, args)
		}
		c.Sample(fmt.Sprintf("%q exit status %d", args, got.code))
	}
}

func judgeRun(c *Ctx, ws []*want, got *ran, js bool, args []string) {
	c.Count("runs of the command")
	detail := func(format string, a ...any) string {
		s := fmt.Sprintf(format, a...) + fmt.Sprintf("\narguments %q, exit status %d %s\nerror output %.1000q\noutput %.1000q", args, got.code, got.failed, got.err, got.out)
		for _, w := range ws {
			s += fmt.Sprintf("\n%s %q: %.300q", w.kind, w.arg, w.src)
		}
		return s
	}
	input := strings.Join(args, " ")
	if got.failed != "" {
		c.Viol("the command does not end normally", detail(""), input)
		return
	}
	fails := 0
	rest := got.err
	for _, w := range ws {
		if w.err == "" {
			continue
		}
		fails++
		i := strings.Index(rest, w.err)
		if i < 0 {
			c.Viol("a failure is not reported", detail("%q is missing, or in the wrong place", w.err), input)
			return
		}
		rest = rest[i+len(w.err):]
	}
	if fails == 0 && got.err != "" {
		c.Viol("a failure is reported that is none", detail(""), input)
		return
	}
	code := 0
	if fails > 0 {
		code = 1
	}
	c.Count(fmt.Sprintf("exit status %d", got.code))
	if got.code != code {
		c.Viol("wrong exit status", detail("want %d", code), input)
		return
	}
	if !js {
		out := ""
		for _, w := range ws {
			out += w.text
		}
		c.Add("bytes of output compared", len(out))
		if got.out != out {
			c.Viol("wrong output", detail("want %.1000q", out), input)
		}
		return
	}
	d := json.NewDecoder(strings.NewReader(got.out))
	for _, w := range ws {
		if w.err != "" {
			continue
		}
		var m json.RawMessage
		if err := d.Decode(&m); err != nil {
			c.Viol("a JSON document is missing", detail("for %q: %v", w.arg, err), input)
			return
		}
		c.Count("JSON documents compared")
		if df := jsonDiff(c, m, w.node); df != "" {
			c.Viol("a JSON document differs from the AST", detail("for %q: %s", w.arg, df), input)
			return
		}
	}
	if _, err := d.Token(); err != io.EOF {
		c.Viol("too much output", detail("behind the last document"), input)
	}
}

func fromStdin(c *Ctx, dir string, flags []string, js, nv bool) {
	r := c.R
	w := &want{kind: "standard input"}
	w.src, _, _ = input(r)
	switch r.N(10) {
	case 0:
		w.src = ""
	case 1:
		w.src = corpusText[pick(r, corpusNames)]
	}
	w.lib(c, nv, "")
	var in io.Reader = strings.NewReader(w.src)
	how := "pipe"
	switch r.N(3) {
	case 0:
		how = "file"
		os.WriteFile(dir+"/stdin", []byte(w.src), 0o644)
		f, err := os.Open(dir + "/stdin")
		if err != nil {
			panic(err)
		}
		defer f.Close()
		in = f
	case 1:
		how = "pipe in pieces"
		in = &chunkReader{r: r, s: w.src, max: pick(r, []int{1, 10, 5000}), err: io.EOF}
	}
	c.Count("standard input: " + how)
	c.Eval(hashStr(fmt.Sprint(flags, how, w.err != "")), true)
	judgeRun(c, []*want{w}, runCmd(dir, in, nil, flags...), js, flags)
}

// manyFiles: more files than may be open at the same time, and no garbage
// collection which closes those left open.
func manyFiles(c *Ctx, dir string) {
	r := c.R
	js, nv := r.P(0.5), r.P(0.3)
	var flags []string
	if js {
		flags = append(flags, "-json")
	}
	if nv {
		flags = append(flags, "-neovim")
	}
	var ws []*want
	args := []string{"-c", `ulimit -n 32; cmd=$1; shift; GOGC=off exec "$cmd" "$@"`, "sh", cmdBin()}
	args = append(args, flags...)
	bad := r.P(0.5) // some, or all, have errors
	for i := 0; i < 80; i++ {
		w := &want{arg: fmt.Sprintf("f%d.vim", i), kind: "one of many"}
		for {
			g := newGen(r)
			g.neovim = nv
			g.script(r.Range(1, 4))
			w.src = g.src()
			if bad || r.P(0.3) {
				w.src = mutate(r, w.src)
			}
			if len(w.src) < 5000 {
				break
			}
		}
		if err := os.WriteFile(filepath.Join(dir, w.arg), []byte(w.src), 0o644); err != nil {
			panic(err)
		}
		w.lib(c, nv, w.arg)
		ws = append(ws, w)
		args = append(args, w.arg)
	}
	c.Eval(hashStr(fmt.Sprint("many", flags, bad)), true)
	c.Count("runs with more files than may be open")
	judgeRun(c, ws, runBin(dir, "/bin/sh", nil, nil, args...), js, args[4:])
	for _, w := range ws {
		os.Remove(filepath.Join(dir, w.arg))
	}
}

// fullDevice: the output cannot be written.
func fullDevice(c *Ctx, dir string, ws []*want, args []string) {
	f, err := os.OpenFile("/dev/full", os.O_WRONLY, 0)
	if err != nil {
		return
	}
	defer f.Close()
	writes := 0
	for _, w := range ws {
		if w.text != "" {
			writes++
		}
	}
	if writes == 0 {
		return
	}
	got := runCmd(dir, nil, f, args...)
	c.Count("runs with a full device")
	if got.failed != "" || got.code != 1 || strings.Count(got.err, "/dev/stdout") < 1 {
		c.Viol("a failed write is not reported", fmt.Sprintf("arguments %q, exit status %d %s\nerror output %q", args, got.code, got.failed, got.err), strings.Join(args, " "))
	}
}
