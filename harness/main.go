// Command vmon runs the real parser, compiler, printer and command of /repo
// under generated, hostile and recorded workloads and watches them with
// monitors. One property per run; see /verif/DESIGN.md.
package main

import (
	"encoding/binary"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"github.com/vim-jp/go-vimlparser/verifmon"
)

// Prop is one property's workload and monitor. A unit is a part of the
// workload which depends on nothing but the seed and the number of the unit.
type Prop struct {
	ID     string
	Rule   string
	Units  func(tier string) int
	Run    func(c *Ctx, unit int)
	Finish func(r *Report) // in the supervisor: checks on the totals
	Procs  int             // worker processes, 8 by default
	Assume []string
}

var props = map[string]*Prop{}

func register(p *Prop) { props[p.ID] = p }

func units(quick, thorough int) func(string) int {
	return func(t string) int {
		if t == "thorough" {
			return thorough
		}
		return quick
	}
}

// Viol is an observed violation.
type Viol struct {
	Key, Detail, Input string
	Unit               int
}

// Report is what a worker found; the supervisor adds them up.
type Report struct {
	Evals    int64
	Counters map[string]int64
	Samples  []string
	Viols    []Viol
	NViols   int64
	Known    map[string]string
	Hits     []byte
	Inconcl  []string
	shapes   map[uint64]bool
}

// Ctx is what the workload of a unit gets.
type Ctx struct {
	*Report
	Tier    string
	Seed    uint64
	Unit    int
	R       *Rng
	journal *os.File
	Self    string
	known   map[string]bool // "property key" of the known findings
	prop    string
}

func (c *Ctx) Prop() *Prop    { return props[c.prop] }
func (c *Ctx) Thorough() bool { return c.Tier == "thorough" }

// Begin records the input which is going to be run, so that it is known if
// the process dies.
func (c *Ctx) Begin(input string) {
	if c.journal == nil {
		return
	}
	if len(input) > 1<<16 {
		input = input[:1<<16]
	}
	b := make([]byte, 8, 8+len(input))
	binary.LittleEndian.PutUint32(b, uint32(c.Unit))
	binary.LittleEndian.PutUint32(b[4:], uint32(len(input)))
	c.journal.WriteAt(append(b, input...), 0)
}

// Viol reports a violation. Only a few with the same key are kept.
func (c *Ctx) Viol(key, detail, input string) {
	c.NViols++
	n := 0
	for _, v := range c.Viols {
		if v.Key == key {
			n++
		}
	}
	if n >= 2 || len(c.Viols) >= 40 {
		return
	}
	if len(detail) > 8000 {
		detail = detail[:8000] + "..."
	}
	if len(input) > 1<<16 {
		input = input[:1<<16]
	}
	c.Viols = append(c.Viols, Viol{key, detail, input, c.Unit})
}

// KnownOr reports a failure which may be one of the known findings.
func (c *Ctx) KnownOr(key, detail, input string) {
	if c.known[c.prop+" "+key] {
		c.Known[key] = detail
		c.Count("known finding observed: " + key)
		return
	}
	c.Viol(key, detail, input)
}

func (c *Ctx) Count(k string)      { c.Counters[k]++ }
func (c *Ctx) Add(k string, n int) { c.Counters[k] += int64(n) }
func (c *Ctx) Max(k string, n int64) { // a counter named max...
	if c.Counters[k] < n {
		c.Counters[k] = n
	}
}

// Eval counts an execution the monitor judged; shape identifies what kind of
// execution it was.
func (c *Ctx) Eval(shape uint64, nontrivial bool) {
	c.Evals++
	if nontrivial && len(c.shapes) < 4000000 {
		c.shapes[shape] = true
	}
}

func (c *Ctx) Sample(s string) {
	if len(c.Samples) < 4 {
		if len(s) > 400 {
			s = s[:400] + "..."
		}
		c.Samples = append(c.Samples, s)
	}
}

func newReport() *Report {
	return &Report{Counters: map[string]int64{}, Known: map[string]string{}, shapes: map[uint64]bool{}}
}

var (
	fProp   = flag.String("prop", "", "property")
	fTier   = flag.String("tier", "quick", "quick or thorough")
	fSeed   = flag.Uint64("seed", 1, "seed")
	fEvid   = flag.String("evidence", "", "directory of the evidence files")
	fWorker = flag.Bool("worker", false, "")
	fShard  = flag.Int("shard", 0, "")
	fShards = flag.Int("shards", 1, "")
	fOut    = flag.String("out", "", "")
	fUnit   = flag.Int("unit", -1, "run this unit only, in this process")
	fKnown  = flag.String("known", "", "known findings file")
	fRepo   = flag.String("repo", "/repo", "")
	fTmp    = flag.String("tmp", "", "scratch directory")
	fChild  = flag.String("child", "", "internal: run one hostile input")
)

func main() {
	flag.Parse()
	if *fChild != "" {
		runChild(*fChild)
		return
	}
	p := props[*fProp]
	if p == nil {
		fmt.Fprintln(os.Stderr, "no such property:", *fProp)
		os.Exit(2)
	}
	if *fWorker {
		work(p)
		return
	}
	if *fUnit >= 0 {
		r := newReport()
		runUnit(p, r, *fUnit, nil)
		for _, v := range r.Viols {
			fmt.Printf("%s\n  %s\n--- input\n%s\n---\n", v.Key, v.Detail, v.Input)
		}
		fmt.Println("evaluations", r.Evals, "violations", r.NViols)
		return
	}
	os.Exit(supervise(p))
}

func loadKnown() map[string]bool {
	m := map[string]bool{}
	b, _ := os.ReadFile(*fKnown)
	for _, l := range strings.Split(string(b), "\n") {
		// finding: property=P02 key=... text
		f := strings.Fields(l)
		if len(f) >= 3 && f[0] == "finding:" {
			m[strings.TrimPrefix(f[1], "property=")+" "+strings.TrimPrefix(f[2], "key=")] = true
		}
	}
	return m
}

func runUnit(p *Prop, r *Report, u int, journal *os.File) {
	self, _ := os.Executable()
	c := &Ctx{Report: r, Tier: *fTier, Seed: *fSeed, Unit: u, R: NewRng(*fSeed, hashStr(p.ID), uint64(u)),
		journal: journal, Self: self, known: loadKnown(), prop: p.ID}
	p.Run(c, u)
}

func work(p *Prop) {
	debug.SetMaxStack(512 << 20)
	debug.SetGCPercent(400)
	debug.SetMemoryLimit(2 << 30)
	j, err := os.Create(*fOut + ".journal")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	r := newReport()
	n := p.Units(*fTier)
	for u := *fShard; u < n; u += *fShards {
		runUnit(p, r, u, j)
	}
	r.Hits = append([]byte(nil), verifmon.Hits[:]...)
	b, err := json.Marshal(r)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	sh := make([]byte, 0, 8*len(r.shapes))
	for k := range r.shapes {
		sh = binary.LittleEndian.AppendUint64(sh, k)
	}
	if os.WriteFile(*fOut+".shapes", sh, 0o644) != nil || os.WriteFile(*fOut, b, 0o644) != nil {
		os.Exit(2)
	}
}

func supervise(p *Prop) int {
	start := time.Now()
	tmp := *fTmp
	if tmp == "" {
		tmp, _ = os.MkdirTemp("", "vmon")
		defer os.RemoveAll(tmp)
	}
	self, err := os.Executable()
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	procs := p.Procs
	if procs == 0 {
		procs = 8
	}
	if n := p.Units(*fTier); n < procs {
		procs = n
	}
	total := newReport()
	var mu sync.Mutex
	var wg sync.WaitGroup
	for i := 0; i < procs; i++ {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			out := filepath.Join(tmp, fmt.Sprintf("%s.%d.json", p.ID, i))
			cmd := exec.Command(self, "-worker", "-prop", p.ID, "-tier", *fTier, "-seed", strconv.FormatUint(*fSeed, 10),
				"-shard", strconv.Itoa(i), "-shards", strconv.Itoa(procs), "-out", out, "-known", *fKnown, "-repo", *fRepo, "-tmp", tmp)
			var log tail
			cmd.Stdout, cmd.Stderr = &log, &log
			err := cmd.Start()
			hung := false
			if err == nil {
				limit := 780 * time.Second
				if *fTier == "thorough" {
					limit = 3 * time.Hour
				}
				t := time.AfterFunc(limit, func() { hung = true; cmd.Process.Kill() })
				err = cmd.Wait()
				t.Stop()
			}
			mu.Lock()
			defer mu.Unlock()
			b, rerr := os.ReadFile(out)
			if rerr == nil {
				r := newReport()
				if json.Unmarshal(b, r) == nil {
					total.merge(r)
					sh, _ := os.ReadFile(out + ".shapes")
					for k := 0; k+8 <= len(sh); k += 8 {
						total.shapes[binary.LittleEndian.Uint64(sh[k:])] = true
					}
					if err == nil {
						return
					}
				}
			}
			if hung {
				total.Inconcl = append(total.Inconcl, "a worker did not finish in time")
				return
			}
			text := log.String()
			// Something in the process died in a way no recover() can stop, or
			// the monitor itself panicked.
			unit, input := -1, ""
			if j, err := os.ReadFile(out + ".journal"); err == nil && len(j) >= 8 {
				unit = int(binary.LittleEndian.Uint32(j))
				n := int(binary.LittleEndian.Uint32(j[4:]))
				if 8+n <= len(j) {
					input = string(j[8 : 8+n])
				}
			}
			key := "the process died"
			if strings.Contains(text, "DATA RACE") {
				key = "data race"
			}
			total.NViols++
			total.Viols = append(total.Viols, Viol{key, fmt.Sprintf("%v\n%s", err, text), input, unit})
		}(i)
	}
	wg.Wait()
	if p.Finish != nil && len(total.Viols) == 0 && len(total.Inconcl) == 0 {
		p.Finish(total)
	}
	return finish(p, total, start)
}

// tail keeps the first and the last part of a log.
type tail struct {
	mu   sync.Mutex
	head []byte
	last []byte
}

func (t *tail) Write(b []byte) (int, error) {
	t.mu.Lock()
	defer t.mu.Unlock()
	n := len(b)
	if room := 4000 - len(t.head); room > 0 {
		if room > len(b) {
			room = len(b)
		}
		t.head = append(t.head, b[:room]...)
		b = b[room:]
	}
	t.last = append(t.last, b...)
	if len(t.last) > 8000 {
		t.last = append([]byte(nil), t.last[len(t.last)-3000:]...)
	}
	return n, nil
}

func (t *tail) String() string { return string(t.head) + string(t.last) }

func (r *Report) merge(o *Report) {
	r.Evals += o.Evals
	r.NViols += o.NViols
	for k, v := range o.Counters {
		if strings.HasPrefix(k, "max ") {
			if r.Counters[k] < v {
				r.Counters[k] = v
			}
		} else {
			r.Counters[k] += v
		}
	}
	for k, v := range o.Known {
		r.Known[k] = v
	}
	if len(r.Samples) < 12 {
		r.Samples = append(r.Samples, o.Samples...)
	}
	r.Viols = append(r.Viols, o.Viols...)
	r.Inconcl = append(r.Inconcl, o.Inconcl...)
	if len(r.Hits) < len(o.Hits) {
		r.Hits = append(r.Hits, make([]byte, len(o.Hits)-len(r.Hits))...)
	}
	for i, h := range o.Hits {
		r.Hits[i] |= h
	}
}

func finish(p *Prop, r *Report, start time.Time) int {
	sort.SliceStable(r.Viols, func(i, j int) bool { return r.Viols[i].Unit < r.Viols[j].Unit })
	rc := 0
	var replays []string
	if *fEvid != "" {
		dir := filepath.Join(*fEvid, "replay")
		os.MkdirAll(dir, 0o755)
		old, _ := filepath.Glob(filepath.Join(dir, p.ID+"-*"))
		for _, f := range old {
			os.Remove(f)
		}
	}
	for i, v := range r.Viols {
		rc = 1
		if i >= 5 {
			break
		}
		name := filepath.Join(*fEvid, "replay", fmt.Sprintf("%s-%d.txt", p.ID, i+1))
		text := fmt.Sprintf("property %s: %s\nunit %d seed %d tier %s (to run it again: check.sh %s %s with VERIF_SEED=%d; one unit only: vmon -prop %s -tier %s -seed %d -unit %d)\n\n%s\n\n--- input (%d bytes)\n%s\n--- input, quoted\n%q\n",
			p.ID, v.Key, v.Unit, *fSeed, *fTier, p.ID, *fTier, *fSeed, p.ID, *fTier, *fSeed, v.Unit, v.Detail, len(v.Input), v.Input, v.Input)
		os.WriteFile(name, []byte(text), 0o644)
		replays = append(replays, name)
		fmt.Printf("VIOLATION property=%s replay=%s\n", p.ID, name)
		d := v.Detail
		if len(d) > 600 {
			d = d[:600] + "..."
		}
		fmt.Printf("  %s: %s\n", v.Key, strings.ReplaceAll(d, "\n", "\n    "))
	}
	keys := make([]string, 0)
	for k := range r.Known {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		fmt.Printf("KNOWN-FINDING: property=%s %s: %s\n", p.ID, k, strings.ReplaceAll(r.Known[k], "\n", "; "))
	}
	if rc == 0 && len(r.Inconcl) > 0 {
		for _, s := range r.Inconcl {
			fmt.Println("INCONCLUSIVE:", s)
		}
		rc = 2
	}
	if rc == 0 && r.Evals == 0 {
		fmt.Println("INCONCLUSIVE: nothing was observed")
		rc = 2
	}
	sites, hit := len(verifmon.Sites), 0
	var missed []string
	for i, s := range verifmon.Sites {
		if i < len(r.Hits) && r.Hits[i] != 0 {
			hit++
		} else if len(missed) < 40 && len(r.Hits) > 1 {
			missed = append(missed, s)
		}
	}
	if f := os.Getenv("VMON_HITS"); f != "" { // for those who extend the workloads
		var b strings.Builder
		for i, s := range verifmon.Sites {
			if i < len(r.Hits) && r.Hits[i] != 0 {
				fmt.Fprintln(&b, s)
			}
		}
		os.WriteFile(f, []byte(b.String()), 0o644)
		os.WriteFile(f+".all", []byte(strings.Join(verifmon.Sites, "\n")), 0o644)
	}
	samples := make([]any, 0)
	for i, s := range r.Samples {
		if i < 12 {
			samples = append(samples, s)
		}
	}
	if len(samples) == 0 {
		samples = append(samples, "none recorded")
	}
	cov := map[string]any{
		"evaluations":         r.Evals,
		"distinct_nontrivial": len(r.shapes),
		"rule":                p.Rule,
		"samples":             samples,
		"observed_events":     r.Counters,
	}
	if len(r.Hits) > 1 {
		cov["code_sites_hit"] = hit
		cov["code_sites"] = sites
		cov["code_sites_not_hit_sample"] = missed
	}
	if len(replays) > 0 {
		cov["replays"] = replays
	}
	ev := map[string]any{
		"property": p.ID, "tier": *fTier, "seed": *fSeed, "level": "exploration",
		"coverage": cov, "wall_s": float64(int(time.Since(start).Seconds()*100)) / 100,
		"violations": r.NViols,
		"assumptions": append([]string{
			"Held on the executions counted here; nothing is claimed about inputs this workload does not produce.",
		}, p.Assume...),
	}
	if *fEvid != "" {
		b, _ := json.MarshalIndent(ev, "", " ")
		if err := os.WriteFile(filepath.Join(*fEvid, p.ID+".json"), append(b, '\n'), 0o644); err != nil {
			fmt.Fprintln(os.Stderr, err)
			rc = 2
		}
	}
	fmt.Printf("%s %s: %d evaluations, %d distinct, %d violations, %d/%d code sites, %.1fs\n", p.ID, *fTier, r.Evals, len(r.shapes), r.NViols, hit, sites, time.Since(start).Seconds())
	return rc
}
