package main

import (
	"bytes"
	"errors"
	"fmt"
	"runtime/debug"
	"strings"

	vimlparser "github.com/vim-jp/go-vimlparser"
	"github.com/vim-jp/go-vimlparser/ast"
	"github.com/vim-jp/go-vimlparser/compiler"
	"github.com/vim-jp/go-vimlparser/verifmon"
)

// stepLimit is far above what any input of this size needs: random inputs
// take some hundred steps per byte.
func stepLimit(n int) int64 { return 5_000_000 + 20_000*int64(n) }

// guarded runs f with the step limit for n bytes of input. It returns the
// panic, if there was one, and the steps.
func guarded(n int, f func()) (panicked string, steps int64, exceeded bool) {
	verifmon.Exceeded = false
	s0 := verifmon.Steps
	verifmon.Limit = s0 + stepLimit(n)
	defer func() {
		steps = verifmon.Steps - s0
		verifmon.Limit = 1 << 62
		exceeded = verifmon.Exceeded
		verifmon.Exceeded = false
		if r := recover(); r != nil {
			if _, ok := r.(verifmon.StepLimit); ok {
				panicked = "step limit"
				return
			}
			panicked = fmt.Sprintf("panic: %v\n%s", r, debug.Stack())
		}
	}()
	f()
	return
}

// Res is what parsing gave.
type Res struct {
	File     *ast.File
	Expr     ast.Expr
	Err      error
	VErr     *vimlparser.ErrVimlParser
	Panic    string
	Exceeded bool
	Steps    int64
}

func (r *Res) Node() ast.Node {
	if r.File != nil {
		return r.File
	}
	if r.Expr != nil {
		return r.Expr
	}
	return nil
}

const fname = "x.vim"

func parseFile(c *Ctx, src string, neovim bool, name string) *Res {
	c.Begin(src)
	var r Res
	r.Panic, r.Steps, r.Exceeded = guarded(len(src), func() {
		r.File, r.Err = vimlparser.ParseFile(strings.NewReader(src), name, &vimlparser.ParseOption{Neovim: neovim})
	})
	errors.As(r.Err, &r.VErr)
	return &r
}

func parseExpr(c *Ctx, src string) *Res {
	c.Begin(src)
	var r Res
	r.Panic, r.Steps, r.Exceeded = guarded(len(src), func() {
		r.Expr, r.Err = vimlparser.ParseExpr(strings.NewReader(src))
	})
	errors.As(r.Err, &r.VErr)
	return &r
}

func compile(c *Ctx, n ast.Node, size int) (string, error, string) {
	var b bytes.Buffer
	var err error
	p, _, _ := guarded(size, func() { err = compiler.Compile(&b, n) })
	return b.String(), err, p
}

// show describes the outcome of a parse.
func (r *Res) show() string {
	switch {
	case r.Panic != "":
		return r.Panic
	case r.Exceeded:
		return "step limit exceeded"
	case r.Err != nil:
		if r.VErr != nil {
			return fmt.Sprintf("error %q at %d:%d offset %d", r.VErr.Msg, r.VErr.Line, r.VErr.Column, r.VErr.Offset)
		}
		return fmt.Sprintf("error of type %T: %v", r.Err, r.Err)
	case r.File != nil:
		return "parsed: " + Dump(r.File, cmpAll)
	case r.Expr != nil:
		return "parsed: " + Dump(r.Expr, cmpAll)
	}
	return "nothing"
}

// same compares two outcomes of the same text.
func same(want, got *Res, cmp Cmp) string {
	if want.Panic != got.Panic && (want.Panic == "" || got.Panic == "") {
		return fmt.Sprintf("want %s, got %s", want.show(), got.show())
	}
	if (want.Err == nil) != (got.Err == nil) {
		return fmt.Sprintf("want %s, got %s", want.show(), got.show())
	}
	if want.Err != nil {
		if want.VErr == nil || got.VErr == nil {
			if want.Err.Error() != got.Err.Error() {
				return fmt.Sprintf("want %s, got %s", want.show(), got.show())
			}
			return ""
		}
		a, b := *want.VErr, *got.VErr
		if cmp.Pos && cmp.MapPos != nil {
			p := cmp.MapPos(ast.Pos{Offset: a.Offset, Line: a.Line, Column: a.Column})
			a.Offset, a.Line, a.Column = p.Offset, p.Line, p.Column
		}
		if !cmp.Pos {
			a.Offset, a.Line, a.Column = b.Offset, b.Line, b.Column
		}
		if a != b {
			return fmt.Sprintf("want error %+v, got error %+v", a, b)
		}
		return ""
	}
	if want.File != nil || got.File != nil {
		return Diff(want.File, got.File, cmp)
	}
	return Diff(want.Expr, got.Expr, cmp)
}
