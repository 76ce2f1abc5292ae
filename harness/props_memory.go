package main

import (
	"fmt"
	"io"
	"reflect"
	"runtime"
	"runtime/debug"
	"strings"
	"testing/iotest"
	"time"

	vimlparser "github.com/vim-jp/go-vimlparser"
	"github.com/vim-jp/go-vimlparser/ast"
)

func init() {
	register(&Prop{
		ID: "P24",
		Rule: "The monitor measures the heap that is live after a garbage collection. (a) While the result of one parse is held: for every family of inputs of P02 and for random ones, at n, 2n and 4n, the live bytes may grow no faster than the input, and they are at most twice the size of the nodes and texts in the AST. " +
			"(b) After results are dropped: batches of thousands of parses, compilations, prints, walks and failures with names, texts, commands and patterns that were never used before, kind by kind; the live heap and the number of goroutines must not grow from batch to batch. Distinct: different families and kinds.",
		Units: units(96, 800),
		Run:   runP24,
		Assume: []string{
			"Memory is what runtime.MemStats.HeapAlloc says after a collection; memory outside the Go heap is not seen (the library has no cgo).",
		},
	})
}

// liveHeap is the size of what is reachable.
func liveHeap() int64 {
	var m runtime.MemStats
	for i := 0; i < 2; i++ {
		runtime.GC()
	}
	runtime.ReadMemStats(&m)
	return int64(m.HeapAlloc)
}

type held struct {
	live  int64
	bytes int
	nodes int
	size  int64 // of what is in the AST
	err   bool
}

// sizeOf adds up everything in an AST.
func sizeOf(v reflect.Value, inline bool) (n int64) {
	if !v.IsValid() {
		return 0
	}
	if !inline {
		n = int64(v.Type().Size())
	}
	switch v.Kind() {
	case reflect.Ptr, reflect.Interface:
		if !v.IsNil() {
			n += sizeOf(v.Elem(), false)
		}
	case reflect.String:
		n += int64(v.Len())
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			n += sizeOf(v.Field(i), true)
		}
	case reflect.Slice:
		n += int64(v.Len()) * int64(v.Type().Elem().Size())
		for i := 0; i < v.Len(); i++ {
			n += sizeOf(v.Index(i), true)
		}
	case reflect.Map:
		n += 350 // a map of Go has room for eight entries
		for _, k := range v.MapKeys() {
			n += 2*sizeOf(k, false) + 2*sizeOf(v.MapIndex(k), false)
		}
	}
	return
}

// hold measures what the result of parsing keeps alive.
func hold(c *Ctx, src string, expr bool) (h held, bad string) {
	c.Begin(src)
	var n any
	h.bytes = len(src)
	m0 := liveHeap()
	bad, _, _ = guarded(len(src), func() {
		var err error
		if expr {
			n, err = vimlparser.ParseExpr(strings.NewReader(src))
		} else {
			n, err = vimlparser.ParseFile(strings.NewReader(src), fname, nil)
		}
		if err != nil {
			n, h.err = err, true
		}
	})
	// what was freed meanwhile does not make the result smaller than nothing
	h.live = max(0, liveHeap()-m0)
	if f, ok := n.(ast.Node); ok && bad == "" {
		h.size = sizeOf(reflect.ValueOf(f), true)
		eachNode(reflect.ValueOf(f), func(ast.Node) { h.nodes++ })
	}
	runtime.KeepAlive(n)
	runtime.KeepAlive(src)
	return
}

func holdGrowth(c *Ctx, f family, n int) {
	var h [3]held
	for k := range h {
		var bad string
		h[k], bad = hold(c, f.gen(n<<k), f.expr)
		if bad != "" {
			return // P01, P02
		}
		// something else may have been kept for the first time
		again, bad := hold(c, f.gen(n<<k), f.expr)
		if bad == "" && again.live < h[k].live {
			h[k] = again
		}
	}
	c.Eval(hashStr(f.name), true)
	c.Count("families measured")
	c.Max("max bytes kept per byte of input, times 100", 100*h[2].live/int64(h[2].bytes+1))
	c.Max("max nodes in one AST", int64(h[2].nodes))
	show := fmt.Sprintf("family %q, n=%d: %d, %d, %d bytes kept for %d, %d, %d bytes of input", f.name, n, h[0].live, h[1].live, h[2].live, h[0].bytes, h[1].bytes, h[2].bytes)
	fast := func(a, b held) bool { return b.live > 3*a.live+8192 }
	if fast(h[0], h[1]) && fast(h[1], h[2]) {
		c.Viol("what a result keeps grows faster than the input", show, f.gen(n))
	}
	c.Max("max bytes kept per byte in the AST, times 100", 100*(h[2].live-8192)/(h[2].size+1))
	if h[2].live > 2*h[2].size+2*int64(h[2].bytes)+32768 {
		c.Viol("a result keeps much more than what is in it", fmt.Sprintf("%s; %d bytes in %d nodes", show, h[2].size, h[2].nodes), f.gen(n))
	}
}

// kinds of scripts with the text %s in them, which is always another.
var uniqueKinds = []struct {
	name string
	text string
}{
	{"variables", "let %s = 1\necho g:%s\n"},
	{"options", "let &%s = 1\n"},
	{"environment variables", "echo $%s\n"},
	{"autoload names", "call a#%s#f()\n"},
	{"curly names", "echo x{%s}y\n"},
	{"strings", "echo '%s' \"%s\\n\"\n"},
	{"dict keys", "echo {'%s': 1, %s: 2}\n"},
	{"literal dict keys", "echo #{%s: 1}\n"},
	{"members", "echo a.%s\n"},
	{"methods", "echo a->%s()\n"},
	{"lambdas", "echo {%s -> %s}\n"},
	{"user commands", "U%s x\nU%s y | z\n"},
	{"unknown commands", "v%s\n"},
	{"command arguments", "set %s\nmap %s x\n"},
	{"functions", "function F%s(%s, x = %s)\nendfunction\n"},
	{"bad functions", "function f%s()\nendfunction\n"},
	{"function without end", "function F%s()\n"},
	{"calls", "call F(%s)\ncall %s()\n"},
	{"catch patterns", "try\ncatch /%s/\nendtry\n"},
	{"range patterns", "/%s/,?%s?d\n"},
	{"search commands", "g/%s/d\ns/%s/x/\n"},
	{"vimgrep", "vimgrep /%s/ x\n"},
	{"syntax", "syntax match %s /%s/\n"},
	{"heredocs", "let x =<< %s\nline\n%s\n"},
	{"heredocs without end", "let x =<< %s\nline\n"},
	{"script heredocs", "python << %s\nx\n%s\n"},
	{"script text", "append\n%s\n.\n"},
	{"comments", "\" %s\n"},
	{"echohl", "echohl %s\n"},
	{"wincmd", "wincmd %s\n"},
	{"delfunction", "delfunction %s\n"},
	{"encodings", "edit ++enc=%s x\n"},
	{"plus commands", "edit +%s x\n"},
	{"encoding and file names", "write >> %s\n"},
	{"redir", "redir > %s\n"},
	{"normal", "normal %s\n"},
	{"conditions", "if %s\nelseif %s\nendif\n"},
	{"loops", "for %s in %s\nendfor\nwhile %s\nendwhile\n"},
	{"trailing text", "endif %s\n"},
	{"unclosed strings", "echo '%s\n"},
	{"operators missing", "echo %s +\n"},
	{"bad expressions", "echo (%s\n"},
	{"bad lets", "let %s %s\n"},
	{"bad names", "let 1%s = 1\n"},
	{"numbers", "echo 0x%x\n"},
	{"blobs", "echo 0z%X\n"},
	{"modifiers", "silent! verbose %s\n"},
	{"finish", "finish\n%s\n"},
	{"keymaps", "loadkeymap\n%s\n"},
	{"lockvar", "lockvar %s\nunlockvar %s\nunlet %s\n"},
	{"marks", "'x,'y%s\n"},
	{"duplicate arguments", "function F(%s, %s)\nendfunction\n"},
	{"continuations", "echo\n  \\ %s\n"},
	{"carriage returns", "echo %s\r\n"},
	{"hash bangs", "#!%s\n"},
}

// leak runs batches of parses with texts that never come again.
func leak(c *Ctx, name string, size, batches int, one func(k int)) {
	c.Count("kinds measured")
	c.Eval(hashStr(name), true)
	k := 0
	batch := func() {
		for i := 0; i < size; i++ {
			one(k)
			k++
		}
	}
	batch() // to warm up
	g0 := runtime.NumGoroutine()
	last := liveHeap()
	var grew []int64
	growing := 0
	room := max(16384, int64(size)*12) // less than a string for each parse
	for i := 0; i < batches; i++ {
		batch()
		now := liveHeap()
		grew = append(grew, now-last)
		if now-last > room {
			growing++
		}
		last = now
	}
	if g := runtime.NumGoroutine(); g > g0 {
		time.Sleep(100 * time.Millisecond)
		if g = runtime.NumGoroutine(); g > g0+batches/2 {
			c.Viol("goroutines are left behind", fmt.Sprintf("kind %q: %d before and %d after %d parses", name, g0, g, size*batches), name)
		}
	}
	c.Add("parses whose results were dropped", k)
	c.Max("max bytes a batch left behind", grew[len(grew)-1])
	total := int64(0)
	for _, x := range grew {
		total += x
	}
	if growing >= batches-1 && total > int64(batches)*room {
		c.Viol("memory is left behind", fmt.Sprintf("kind %q: the live heap grew by %v bytes in batches of %d parses", name, grew, size), name)
	}
}

func runP24(c *Ctx, unit int) {
	defer debug.SetGCPercent(debug.SetGCPercent(400))
	const fixed = 48
	if unit < fixed {
		for i := unit; i < len(families); i += fixed {
			holdGrowth(c, families[i], 100)
			holdGrowth(c, families[i], 700)
			if c.Thorough() {
				holdGrowth(c, families[i], 4000)
			}
		}
		size := 1500
		batches := 3
		if c.Thorough() {
			size, batches = 4000, 4
		}
		for i := unit; i < len(uniqueKinds); i += fixed {
			kind := uniqueKinds[i]
			leak(c, kind.name, size, batches, func(k int) {
				id := fmt.Sprintf("q%dz%dx", k, c.Seed)
				src := strings.NewReplacer("%s", id, "%x", fmt.Sprintf("%x", k), "%X", fmt.Sprintf("%08x", k)).Replace(kind.text)
				res := parseFile(c, src, k%2 == 0, "f"+id)
				if res.File != nil {
					ast.Inspect(res.File, func(ast.Node) bool { return true })
					compile(c, res.File, len(src))
				}
				if x := parseExpr(c, id+" + "+id); x.Expr != nil {
					fprint(c, x.Expr, nil)
					compile(c, x.Expr, len(src))
				}
				if k%4 == 0 {
					vimlparser.ParseFile(io.MultiReader(strings.NewReader(src), iotest.ErrReader(errInjected)), id, nil)
				}
			})
		}
		return
	}
	// Random families, and random scripts.
	for i := 0; i < 12; i++ {
		expr := c.R.P(0.4)
		pre, mid, post := "", "", ""
		for {
			pre, mid, post = soupText(c.R, c.R.Range(0, 3)), soupText(c.R, c.R.Range(0, 2)), soupText(c.R, c.R.Range(0, 3))
			if !expr && c.R.P(0.5) {
				pre, post = corpusPart(c.R, 3), ""
			}
			if strings.Count(pre+mid+post, "{") == strings.Count(pre+mid+post, "#{") {
				break
			}
		}
		holdGrowth(c, family{fmt.Sprintf("random %q %q %q", pre, mid, post), expr, func(n int) string { return rep(pre, n) + mid + rep(post, n) }}, 40)
	}
	r := c.R
	leak(c, "random input", 150, 3, func(k int) {
		src, _, nv := input(r)
		res := parseFile(c, src, nv, fname)
		if res.File != nil {
			compile(c, res.File, len(src))
		}
	})
	if unit == fixed {
		c.Sample(uniqueKinds[0].text)
		c.Sample(families[0].gen(3))
	}
}
