package main

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"hash/fnv"
	"io"
	"os/exec"
	"reflect"
	"runtime"
	"runtime/debug"
	"strings"
	"sync"
	"sync/atomic"

	vimlparser "github.com/vim-jp/go-vimlparser"
	"github.com/vim-jp/go-vimlparser/ast"
	"github.com/vim-jp/go-vimlparser/compiler"
	"github.com/vim-jp/go-vimlparser/printer"
)

func init() {
	register(&Prop{
		ID: "P16",
		Rule: "The code is built with the race detector and yields the processor at random in its loops and branches. Goroutines parse, walk, compile, print and encode the same and different scripts and expressions (generated, mutated, recorded), share ASTs for reading, fail in the middle of reading, and overwrite every field of the ASTs and errors they were given; each result is compared with the one observed alone, afterwards again, and with that of a fresh process. " +
			"Distinct: different orders in which the jobs of a round ended.",
		Units: units(60, 1500),
		Run:   runP16,
		Procs: 12,
	})
}

// job is a text and what was observed when nothing else was running.
type job struct {
	src          string
	expr, neovim bool
	want         string
}

// observe does everything there is to do with a text and describes the
// results. It uses no state of the harness.
func observe(src string, expr, neovim bool) (s string, n ast.Node, err error) {
	defer func() {
		if r := recover(); r != nil {
			s = fmt.Sprintf("panic: %v", r)
		}
	}()
	if expr {
		var e ast.Expr
		e, err = vimlparser.ParseExpr(strings.NewReader(src))
		if e != nil {
			n = e
		}
	} else {
		var f *ast.File
		f, err = vimlparser.ParseFile(strings.NewReader(src), fname, &vimlparser.ParseOption{Neovim: neovim})
		if f != nil {
			n = f
		}
	}
	if err != nil {
		var v *vimlparser.ErrVimlParser
		if errors.As(err, &v) {
			return fmt.Sprintf("error %+v", *v), nil, err
		}
		return fmt.Sprintf("error %v", err), nil, err
	}
	return readAST(n), n, nil
}

// readAST describes an AST by all means there are.
func readAST(n ast.Node) string {
	var b strings.Builder
	b.WriteString(Dump(n, cmpAll))
	b.WriteString("\n-- compiled\n")
	err := compiler.Compile(&b, n)
	fmt.Fprintf(&b, "%v\n-- walked\n", err)
	depth := 0
	ast.Inspect(n, func(x ast.Node) bool {
		if x == nil {
			depth--
			return true
		}
		fmt.Fprintf(&b, "%d%T ", depth, x)
		depth++
		return true
	})
	b.WriteString("\n-- encoded\n")
	j, err := json.Marshal(n)
	fmt.Fprintf(&b, "%s %v\n", j, err)
	if e, ok := n.(ast.Expr); ok {
		var p bytes.Buffer
		func() {
			defer func() {
				if r := recover(); r != nil {
					fmt.Fprintf(&p, "panic: %v", r)
				}
			}()
			if err := printer.Fprint(&p, e, nil); err != nil {
				fmt.Fprintf(&p, " %v", err)
			}
		}()
		b.WriteString("-- printed\n" + p.String())
	}
	return b.String()
}

// scramble overwrites everything that can be reached from v.
func scramble(v reflect.Value, seen map[uintptr]bool, n *int) {
	switch v.Kind() {
	case reflect.Ptr:
		if v.IsNil() || seen[v.Pointer()] {
			return
		}
		seen[v.Pointer()] = true
		scramble(v.Elem(), seen, n)
	case reflect.Interface:
		if !v.IsNil() {
			scramble(v.Elem(), seen, n)
		}
	case reflect.Slice:
		for i := 0; i < v.Len(); i++ {
			scramble(v.Index(i), seen, n)
		}
		if v.Len() > 0 {
			reflect.Append(v, v.Index(0)) // what is behind the end of the slice
			if v.Index(0).CanSet() {
				v.Index(0).Set(v.Index(v.Len() - 1))
			}
			*n++
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			scramble(v.Field(i), seen, n)
		}
	case reflect.String:
		if v.CanSet() {
			v.SetString("scrambled")
			*n++
		}
	case reflect.Int, reflect.Int64:
		if v.CanSet() {
			v.SetInt(-77)
			*n++
		}
	case reflect.Bool:
		if v.CanSet() {
			v.SetBool(!v.Bool())
			*n++
		}
	case reflect.Map:
		if !v.IsNil() {
			for _, k := range v.MapKeys() {
				v.SetMapIndex(k, reflect.Value{})
				*n++
			}
		}
	}
}

func firstDiff(a, b string) string {
	i := 0
	for i < len(a) && i < len(b) && a[i] == b[i] {
		i++
	}
	cut := func(s string) string { return s[max(0, min(i, len(s))-100):min(len(s), i+200)] }
	return fmt.Sprintf("at byte %d\nalone ...%q\nnow   ...%q", i, cut(a), cut(b))
}

var probes = []string{
	"function! s:F(a, b = 1, ...) abort range\n  return a:a + a:b\nendfunction\ncall s:F(1)\n",
	"Foo1 a b\nFoo x\nFoo2\nlet x = 1 | silent! 1,2delete\n",
	"if 1\nelseif 2\nelse\nendif\nfor [a, b; c] in x\nendfor\nwhile 1\nbreak\nendwhile\n",
	"try\nthrow 1\ncatch /x/\nfinally\nendtry\n",
	"let x =<< trim END\n  a\n  END\necho {'a': 1, 'b': [1, 2, {x -> x + 1}]}\n",
	"append\nx\n.\npython << EOF\nprint 1\nEOF\nset x=y\n",
	"echo x{y}z[1:2].a->f(1, @a, &x, $HOME, 0z00)\n",
	"foo bar\n", "if 1\n", "echo (\n", "endfunction\n", "print\nPrint\nedit ++enc=utf-8 +10 x\nshell\nrshada\n",
	"lockvar 2 a b\nunlet! $x\nexecute 'a' 'b'\nechohl None\nloadkeymap\na b\n",
}

// digest is what the probes give, in the order of the arguments.
func probeDigest(reverse bool) string {
	h := make([]string, 2*len(probes))
	for k := range h {
		if reverse {
			k = len(h) - 1 - k
		}
		s, _, _ := observe(probes[k/2], false, k%2 == 1)
		f := fnv.New64a()
		io.WriteString(f, s)
		h[k] = fmt.Sprintf("%x", f.Sum64())
	}
	return strings.Join(h, " ")
}

func someJob(c *Ctx) *job {
	r := c.R
	j := &job{}
	switch {
	case r.P(0.2):
		j.src, _ = inputExpr(r)
		j.expr = true
	case r.P(0.05):
		n := pick(r, corpusNames)
		j.src, j.neovim = corpusText[n], strings.Contains(n, "neo")
		if len(j.src) > 30000 {
			j.src = corpusPart(r, 200)
		}
	case r.P(0.2):
		j.src, j.neovim = pick(r, probes), r.P(0.5)
	default:
		j.src, _, j.neovim = input(r)
	}
	return j
}

// fresh is the digest of a process which has done nothing else.
var fresh string

func runP16(c *Ctx, unit int) {
	r := c.R
	debug.SetGCPercent(100)
	bad := func(key, detail, src string) { c.Viol(key, detail, src) }
	if fresh == "" {
		out, err := exec.Command(c.Self, "-child", "digest:0:"+[]string{"forward", "reverse"}[unit%2]).Output()
		if i := strings.Index(string(out), "digest "); err == nil && i >= 0 {
			fresh = strings.TrimSpace(string(out)[i+7:])
		} else {
			bad("the process died", fmt.Sprintf("digest of a fresh process: %v %s", err, out), "")
			return
		}
	}
	// In half of the units nothing is known yet when the goroutines start, so
	// that what is made on first use is made by several at a time.
	late := unit/12%2 == 0
	jobs := make([]*job, 12)
	for i := range jobs {
		jobs[i] = someJob(c)
		if !late {
			c.Begin(jobs[i].src)
			jobs[i].want, _, _ = observe(jobs[i].src, jobs[i].expr, jobs[i].neovim)
		}
	}
	c.Begin("round of concurrent jobs: " + jobs[0].src)
	// ASTs that are shared, for reading.
	var shared []ast.Node
	var sharedWant []string
	for _, j := range jobs {
		if late && len(shared) == 2 {
			break
		}
		if s, n, _ := observe(j.src, j.expr, j.neovim); n != nil && len(shared) < 4 {
			shared = append(shared, n)
			sharedWant = append(sharedWant, s)
		}
	}
	type result struct {
		key, detail, src string
	}
	type seen struct {
		j   *job
		got string
	}
	var seens []seen
	rounds := 3
	for round := 0; round < rounds; round++ {
		var wg sync.WaitGroup
		var mu sync.Mutex
		var fails []result
		var order []int
		var running, most, parses, reads, scrambled, faults atomic.Int64
		workers := pick(r, []int{4, 8, 16})
		gate := make(chan bool)
		same := r.P(0.3) // all do the same
		for w := 0; w < workers; w++ {
			rr := NewRng(r.U64())
			wg.Add(1)
			go func(w int) {
				defer wg.Done()
				<-gate
				for k := 0; k < 5; k++ {
					id := rr.N(len(jobs))
					if same {
						id = (round + k) % len(jobs)
					}
					j := jobs[id]
					n := running.Add(1)
					for m := most.Load(); n > m && !most.CompareAndSwap(m, n); m = most.Load() {
					}
					var f result
					what := rr.N(10)
					switch {
					case what < 5:
						got, _, _ := observe(j.src, j.expr, j.neovim)
						parses.Add(1)
						if late {
							mu.Lock()
							seens = append(seens, seen{j, got})
							mu.Unlock()
						} else if got != j.want {
							f = result{"a concurrent parse gives another result", firstDiff(j.want, got), j.src}
						}
					case what < 7 && len(shared) > 0:
						i := rr.N(len(shared))
						got := readAST(shared[i])
						reads.Add(1)
						if got != sharedWant[i] {
							f = result{"reading a shared AST gives another result", firstDiff(sharedWant[i], got), ""}
						}
					case what < 9:
						got, n, err := observe(j.src, j.expr, j.neovim)
						parses.Add(1)
						if late {
							mu.Lock()
							seens = append(seens, seen{j, got})
							mu.Unlock()
						} else if got != j.want {
							f = result{"a concurrent parse gives another result", firstDiff(j.want, got), j.src}
						}
						cnt := 0
						if n != nil {
							scramble(reflect.ValueOf(n), map[uintptr]bool{}, &cnt)
						} else if err != nil {
							scramble(reflect.ValueOf(err), map[uintptr]bool{}, &cnt)
						}
						scrambled.Add(int64(cnt))
					default:
						rd := &chunkReader{r: rr, s: j.src[:rr.N(len(j.src)+1)], max: 10, err: errInjected}
						var err error
						if j.expr {
							_, err = vimlparser.ParseExpr(rd)
						} else {
							_, err = vimlparser.ParseFile(rd, fname, nil)
						}
						faults.Add(1)
						if !errors.Is(err, errInjected) {
							f = result{"a concurrent read error is lost", fmt.Sprint(err), j.src}
						}
					}
					running.Add(-1)
					mu.Lock()
					order = append(order, w, id)
					if f.key != "" {
						fails = append(fails, f)
					}
					mu.Unlock()
					if rr.P(0.2) {
						runtime.Gosched()
					}
				}
			}(w)
		}
		close(gate)
		wg.Wait()
		c.Eval(hashStr(fmt.Sprint(order)), true)
		c.Count("rounds")
		c.Add("jobs", len(order)/2)
		c.Add("concurrent parses compared", int(parses.Load()))
		c.Add("reads of shared ASTs compared", int(reads.Load()))
		c.Add("fields overwritten", int(scrambled.Load()))
		c.Add("read faults injected", int(faults.Load()))
		c.Max("max jobs at the same time", most.Load())
		for _, f := range fails {
			bad(f.key, f.detail, f.src)
		}
		if len(fails) > 0 {
			return
		}
	}
	if late {
		for _, j := range jobs {
			j.want, _, _ = observe(j.src, j.expr, j.neovim)
		}
		for _, x := range seens {
			if x.got != x.j.want {
				bad("a concurrent parse gives another result", firstDiff(x.j.want, x.got), x.j.src)
				return
			}
		}
		c.Count("units in which the goroutines were first")
	}
	// Afterwards everything is as it was, alone and one after the other.
	for _, i := range []int{0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 3, 1} {
		j := jobs[i]
		got, n, err := observe(j.src, j.expr, j.neovim)
		c.Count("later parses compared")
		if got != j.want {
			bad("a later parse gives another result", firstDiff(j.want, got), j.src)
			return
		}
		cnt := 0
		if n != nil {
			scramble(reflect.ValueOf(n), map[uintptr]bool{}, &cnt)
		} else if err != nil {
			scramble(reflect.ValueOf(err), map[uintptr]bool{}, &cnt)
		}
		c.Add("fields overwritten", cnt)
	}
	for i, n := range shared {
		if got := readAST(n); got != sharedWant[i] {
			bad("a shared AST has changed", firstDiff(sharedWant[i], got), "")
			return
		}
	}
	if got := probeDigest(r.P(0.5)); got != fresh {
		bad("another result than in a fresh process", fmt.Sprintf("fresh %s\nnow   %s", fresh, got), strings.Join(probes, ""))
		return
	}
	c.Count("comparisons with a fresh process")
	c.Sample(fmt.Sprintf("%d jobs, the first %.60q", len(jobs), jobs[0].src))
}
