package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"reflect"
	"sort"
	"strings"
	"unicode/utf8"

	"github.com/vim-jp/go-vimlparser/ast"
)

func init() {
	register(&Prop{
		ID: "P13",
		Rule: "The calls a recording visitor gets from Walk and Inspect, for ASTs of generated, mutated and recorded scripts and expressions, also with children taken out of them, with random choices of nodes to decline and of visitors to hand to the children, are compared call by call with the sequence a reflective model of the tree prescribes. " +
			"Distinct: different sequences of node types.",
		Units: units(400, 12000),
		Run:   runP13,
	})
	register(&Prop{
		ID: "P20",
		Rule: "ASTs of generated, mutated and recorded scripts and expressions are encoded as JSON; the document is decoded and compared with the AST field by field, by reflection on the field names. " +
			"Distinct: different sequences of node types.",
		Units:  units(400, 12000),
		Run:    runP20,
		Assume: []string{"JSON has no way to write bytes that are not UTF-8: each is expected as U+FFFD."},
	})
}

// kids are the children of a node: the nodes its fields hold, in source
// order, which is the order of their leftmost positions.
func kids(n ast.Node) []ast.Node {
	type kid struct {
		n ast.Node
		p ast.Pos
		f int
	}
	var ks []kid
	t := reflect.TypeOf(n).Elem()
	v := reflect.ValueOf(n).Elem()
	var add func(v reflect.Value, f int)
	add = func(v reflect.Value, f int) {
		switch v.Kind() {
		case reflect.Ptr, reflect.Interface:
			if v.IsNil() {
				return
			}
			if x, ok := v.Interface().(ast.Node); ok {
				ks = append(ks, kid{n: x, f: f})
			}
		case reflect.Slice:
			for i := 0; i < v.Len(); i++ {
				add(v.Index(i), f)
			}
		case reflect.Struct:
			if v.Type() != tPos && v.Type() != tExArg {
				for i := 0; i < v.NumField(); i++ {
					add(v.Field(i), f)
				}
			}
		}
	}
	for i := 0; i < v.NumField(); i++ {
		if ft := t.Field(i); !ft.Anonymous && ft.PkgPath == "" {
			f := i
			if _, ok := n.(*ast.Function); ok {
				// The parameters are a list and so are their defaults.
				f = map[string]int{"Name": 0, "Params": 1, "DefaultArgs": 2, "Body": 3, "EndFunction": 4}[ft.Name]
			}
			add(v.Field(i), f)
		}
	}
	_, isFunc := n.(*ast.Function)
	for i := range ks {
		ks[i].p = leftmost(ks[i].n)
	}
	sort.SliceStable(ks, func(i, j int) bool {
		a, b := ks[i], ks[j]
		if isFunc && a.f != b.f {
			return a.f < b.f
		}
		if a.p.Line != b.p.Line {
			return a.p.Line < b.p.Line
		}
		return a.p.Column < b.p.Column
	})
	r := make([]ast.Node, len(ks))
	for i := range ks {
		r[i] = ks[i].n
	}
	return r
}

func leftmost(n ast.Node) ast.Pos {
	p := n.Pos()
	eachNode(reflect.ValueOf(n), func(x ast.Node) {
		q := x.Pos()
		if q.Line < p.Line || q.Line == p.Line && q.Column < p.Column {
			p = q
		}
	})
	return p
}

// tree is the model of an AST for Walk.
type tree struct {
	n    ast.Node
	id   int
	kids []*tree
}

func newTree(n ast.Node, ids map[ast.Node]int) *tree {
	t := &tree{n: n, id: len(ids)}
	ids[n] = t.id
	for _, k := range kids(n) {
		if _, twice := ids[k]; twice {
			return nil
		}
		kt := newTree(k, ids)
		if kt == nil {
			return nil
		}
		t.kids = append(t.kids, kt)
	}
	return t
}

// What the recording visitor does with each node.
type walkPlan struct {
	decline map[int]bool
	change  map[int]bool // hand another visitor to the children
}

type event struct {
	visitor int
	node    int // -1 for nil
}

type recorder struct {
	id   int
	ids  map[ast.Node]int
	plan *walkPlan
	log  *[]event
	max  int
}

func (v *recorder) Visit(n ast.Node) ast.Visitor {
	if len(*v.log) > v.max {
		panic("too many calls")
	}
	if n == nil {
		*v.log = append(*v.log, event{v.id, -1})
		return nil
	}
	id, ok := v.ids[n]
	if !ok {
		id = -2
	}
	*v.log = append(*v.log, event{v.id, id})
	if v.plan.decline[id] {
		return nil
	}
	if v.plan.change[id] {
		w := *v
		w.id = 1000 + id
		return &w
	}
	return v
}

func (t *tree) expect(visitor int, plan *walkPlan, log *[]event) {
	*log = append(*log, event{visitor, t.id})
	if plan.decline[t.id] {
		return
	}
	if plan.change[t.id] {
		visitor = 1000 + t.id
	}
	for _, k := range t.kids {
		k.expect(visitor, plan, log)
	}
	*log = append(*log, event{visitor, -1})
}

func runP13(c *Ctx, unit int) {
	if unit == 0 {
		for _, n := range corpusNames {
			if res := parseFile(c, corpusText[n], strings.Contains(n, "neo"), n); res.File != nil {
				judgeWalk(c, res.File, corpusText[n])
				c.Count("whole recorded scripts")
			}
		}
	}
	if unit%100 == 1 {
		src := hugeSource(c.R)
		if res := parseFile(c, src, false, fname); res.File != nil {
			judgeWalk(c, res.File, src)
			c.Count("scripts of very many lines")
		}
	}
	for i := 0; i < 30; i++ {
		n, src := someNode(c)
		judgeWalk(c, n, src)
		if c.R.P(0.5) {
			c.Add("children taken away", prune(c.R, n))
			judgeWalk(c, n, src)
		}
	}
}

// prune takes children out of an AST, as a program that builds or changes one
// may leave them out.
func prune(r *Rng, n ast.Node) (cut int) {
	share := pick(r, []float64{0.02, 0.1, 0.3})
	tNode := reflect.TypeOf((*ast.Node)(nil)).Elem()
	eachNode(reflect.ValueOf(n), func(x ast.Node) {
		v := reflect.ValueOf(x).Elem()
		for i := 0; i < v.NumField(); i++ {
			f := v.Field(i)
			k := f.Kind()
			if v.Type().Field(i).Anonymous || !f.CanSet() || f.IsZero() || !r.P(share) {
				continue
			}
			if (k == reflect.Ptr || k == reflect.Interface) && f.Type().Implements(tNode) || k == reflect.Slice {
				f.Set(reflect.Zero(f.Type()))
				cut++
			}
		}
	})
	return
}

func judgeWalk(c *Ctx, n ast.Node, src string) {
	r := c.R
	ids := map[ast.Node]int{}
	t := newTree(n, ids)
	c.Eval(Shape(n), len(ids) > 2)
	if t == nil {
		c.Viol("a node is reachable twice", Dump(n, cmpStruct), src)
		return
	}
	for k := 0; k < 4; k++ {
		plan := &walkPlan{map[int]bool{}, map[int]bool{}}
		pd, pc := 0.0, 0.0
		if k > 0 {
			pd, pc = pick(r, []float64{0, 0.02, 0.1, 0.3}), pick(r, []float64{0, 0.1, 0.5})
		}
		for id := 0; id < len(ids); id++ {
			if r.P(pd) {
				plan.decline[id] = true
			}
			if r.P(pc) {
				plan.change[id] = true
			}
		}
		if k == 3 {
			plan.change = map[int]bool{}
		}
		var want, got []event
		t.expect(0, plan, &want)
		name := "Walk"
		rec := &recorder{ids: ids, plan: plan, log: &got, max: 2*len(ids) + 100}
		p, _, _ := guarded(len(src)+1000, func() {
			if k < 3 {
				ast.Walk(rec, n)
			} else {
				name = "Inspect"
				ast.Inspect(n, func(x ast.Node) bool { return rec.Visit(x) != nil })
			}
		})
		c.Add("visitor calls observed", len(got))
		c.Add("nodes declined", len(plan.decline))
		c.Count(name + " traces")
		show := func(evs []event, i int) string {
			var b strings.Builder
			for j := max(0, i-3); j < min(len(evs), i+4); j++ {
				mark := ""
				if j == i {
					mark = ">>"
				}
				e := evs[j]
				what := "nil"
				if e.node == -2 {
					what = "a node the model does not have"
				}
				for x, id := range ids {
					if id == e.node {
						what = fmt.Sprintf("%T at %s", x, x.Pos())
					}
				}
				fmt.Fprintf(&b, " %s[visitor %d: %s]", mark, e.visitor, what)
			}
			return b.String()
		}
		if p != "" {
			c.Viol(name+" panics", p, src)
			return
		}
		for i := 0; i < len(want) || i < len(got); i++ {
			if i >= len(want) || i >= len(got) || want[i] != got[i] {
				c.Viol("wrong calls of "+name, fmt.Sprintf("call %d of %d (of %d expected)\nwant%s\ngot %s\ndeclined: %d nodes", i, len(got), len(want), show(want, i), show(got, i), len(plan.decline)), src)
				return
			}
		}
		if k == 1 && len(src) < 300 {
			c.Sample(fmt.Sprintf("%q: %d calls, %d declined", src, len(got), len(plan.decline)))
		}
	}
}

func runP20(c *Ctx, unit int) {
	if unit == 0 {
		for _, n := range corpusNames {
			if res := parseFile(c, corpusText[n], strings.Contains(n, "neo"), n); res.File != nil {
				judgeJSON(c, res.File, corpusText[n])
				c.Count("whole recorded scripts")
			}
		}
	}
	if unit%100 == 1 {
		src := hugeSource(c.R)
		if res := parseFile(c, src, false, fname); res.File != nil {
			judgeJSON(c, res.File, src)
			c.Count("scripts of very many lines")
		}
	}
	for i := 0; i < 40; i++ {
		n, src := someNode(c)
		judgeJSON(c, n, src)
	}
}

func judgeJSON(c *Ctx, n ast.Node, src string) {
	var b []byte
	var err error
	c.Eval(Shape(n), true)
	how := c.R.N(3)
	p, _, _ := guarded(len(src)+1000, func() {
		switch how {
		case 0:
			b, err = json.Marshal(n)
		case 1:
			b, err = json.MarshalIndent(n, "", "    ")
		default:
			var buf bytes.Buffer
			e := json.NewEncoder(&buf)
			e.SetIndent("", "    ")
			err = e.Encode(n)
			b = buf.Bytes()
		}
	})
	if err != nil || p != "" {
		c.Viol("encoding fails", fmt.Sprintf("%v %s", err, p), src)
		return
	}
	if d := jsonDiff(c, b, n); d != "" {
		c.Viol("the document differs from the AST", d, src)
		return
	}
	c.Add("bytes of JSON", len(b))
	if len(src) < 200 {
		c.Sample(src)
	}
}

// jsonDiff compares a JSON document, and nothing behind it, with an AST.
func jsonDiff(c *Ctx, b []byte, n any) string {
	d := json.NewDecoder(bytes.NewReader(b))
	d.UseNumber()
	var x any
	if err := d.Decode(&x); err != nil {
		return fmt.Sprintf("no JSON: %v", err)
	}
	if _, err := d.Token(); err != io.EOF {
		return "text behind the document"
	}
	return jsonv(c, x, reflect.ValueOf(n), "")
}

func jsonString(s string) string {
	var b strings.Builder
	for i := 0; i < len(s); {
		r, n := utf8.DecodeRuneInString(s[i:])
		b.WriteRune(r) // U+FFFD for an invalid byte
		i += n
	}
	return b.String()
}

func jsonv(c *Ctx, x any, v reflect.Value, path string) string {
	for v.Kind() == reflect.Ptr || v.Kind() == reflect.Interface {
		if v.IsNil() {
			if x != nil {
				return fmt.Sprintf("%s: want null, got %v", path, x)
			}
			return ""
		}
		v = v.Elem()
	}
	switch v.Kind() {
	case reflect.Struct:
		m, ok := x.(map[string]any)
		if !ok {
			return fmt.Sprintf("%s: want an object (%s), got %v", path, v.Type(), x)
		}
		for i := 0; i < v.NumField(); i++ {
			f := v.Type().Field(i)
			if f.Anonymous || f.PkgPath != "" {
				continue
			}
			y, ok := m[f.Name]
			if !ok {
				return fmt.Sprintf("%s: no %q in the object of a %s", path, f.Name, v.Type())
			}
			c.Count("fields compared")
			if d := jsonv(c, y, v.Field(i), path+"/"+f.Name); d != "" {
				return d
			}
		}
	case reflect.Slice:
		if x == nil && v.Len() == 0 {
			return ""
		}
		l, ok := x.([]any)
		if !ok || len(l) != v.Len() {
			return fmt.Sprintf("%s: want a list of %d, got %v", path, v.Len(), x)
		}
		for i := range l {
			if d := jsonv(c, l[i], v.Index(i), fmt.Sprintf("%s[%d]", path, i)); d != "" {
				return d
			}
		}
	case reflect.String:
		if s, ok := x.(string); !ok || s != jsonString(v.String()) {
			return fmt.Sprintf("%s: want %q, got %#v", path, v.String(), x)
		}
	case reflect.Bool:
		if y, ok := x.(bool); !ok || y != v.Bool() {
			return fmt.Sprintf("%s: want %v, got %#v", path, v.Bool(), x)
		}
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		if y, ok := x.(json.Number); !ok || y.String() != fmt.Sprint(v.Int()) {
			return fmt.Sprintf("%s: want %d, got %#v", path, v.Int(), x)
		}
	case reflect.Map:
		m, _ := x.(map[string]any)
		if len(m) != v.Len() {
			return fmt.Sprintf("%s: want %d entries, got %v", path, v.Len(), x)
		}
		for _, k := range v.MapKeys() {
			if d := jsonv(c, m[fmt.Sprint(k)], v.MapIndex(k), path+"/"+fmt.Sprint(k)); d != "" {
				return d
			}
		}
	default:
		return fmt.Sprintf("%s: a field of kind %s is not known to the monitor", path, v.Kind())
	}
	return ""
}
