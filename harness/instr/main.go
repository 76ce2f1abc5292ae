// Command instr writes instrumented copies of the Go sources of the library
// and a "go build -overlay" file that puts them in place of the originals.
// Every function, loop, branch and case gets a call of verifmon.S(site) on
// the line where it starts, so that the monitors can count the steps a parse
// takes, stop a run away parse and tell which parts of the code a workload
// reached. The sources in the repository are not touched.
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

const monPath = "github.com/vim-jp/go-vimlparser/verifmon"

type insertion struct {
	at   int
	text string
}

func fatal(err error) {
	fmt.Fprintln(os.Stderr, "instr:", err)
	os.Exit(3)
}

func main() {
	repo := flag.String("repo", "/repo", "repository")
	out := flag.String("out", "", "output directory")
	mode := flag.String("mode", "step", "step or race")
	extra := flag.String("extra", "", "FROM=TO,... more overlay entries")
	regen := flag.String("regen", "", "directory with the regenerated package")
	target := flag.String("target", "", "where the regenerated package goes")
	flag.Parse()
	if err := os.MkdirAll(*out, 0o755); err != nil {
		fatal(err)
	}
	overlay := map[string]string{}
	var sites []string
	dirs := []string{".", "go", "ast", "compiler", "printer", "token"}
	if *regen != "" {
		dirs = append(dirs, "regen")
	}
	for _, dir := range dirs {
		from, to := filepath.Join(*repo, dir), filepath.Join(*repo, dir)
		if dir == "regen" {
			from, to = *regen, *target
		}
		ents, err := os.ReadDir(from)
		if err != nil {
			continue
		}
		for _, e := range ents {
			n := e.Name()
			if e.IsDir() || !strings.HasSuffix(n, ".go") || strings.HasSuffix(n, "_test.go") {
				continue
			}
			path := filepath.Join(from, n)
			src, err := os.ReadFile(path)
			if err != nil {
				fatal(err)
			}
			fset := token.NewFileSet()
			f, err := parser.ParseFile(fset, path, src, parser.ParseComments)
			if err != nil {
				fatal(err)
			}
			var ins []insertion
			off := func(p token.Pos) int { return fset.Position(p).Offset }
			site := func(p token.Pos, kind string) string {
				pos := fset.Position(p)
				sites = append(sites, fmt.Sprintf("%s:%d:%s", filepath.Join(dir, n), pos.Line, kind))
				return fmt.Sprintf("verifmon.S(%d);", len(sites)-1)
			}
			block := func(b *ast.BlockStmt, kind string) {
				if b != nil && b.Lbrace.IsValid() {
					ins = append(ins, insertion{off(b.Lbrace) + 1, site(b.Lbrace, kind)})
				}
			}
			ast.Inspect(f, func(nd ast.Node) bool {
				switch x := nd.(type) {
				case *ast.FuncDecl:
					block(x.Body, "func "+x.Name.Name)
				case *ast.FuncLit:
					block(x.Body, "func")
				case *ast.ForStmt:
					block(x.Body, "for")
				case *ast.RangeStmt:
					block(x.Body, "for")
				case *ast.IfStmt:
					block(x.Body, "if")
					if b, ok := x.Else.(*ast.BlockStmt); ok {
						block(b, "else")
					}
				case *ast.CaseClause:
					ins = append(ins, insertion{off(x.Colon) + 1, site(x.Colon, "case")})
				}
				return true
			})
			if len(ins) == 0 {
				if dir == "regen" {
					overlay[filepath.Join(to, n)] = path
				}
				continue
			}
			ins = append(ins, insertion{off(f.Name.End()), "; import verifmon \"" + monPath + "\""})
			sort.SliceStable(ins, func(i, j int) bool { return ins[i].at < ins[j].at })
			var b strings.Builder
			last := 0
			for _, x := range ins {
				b.Write(src[last:x.at])
				b.WriteString(x.text)
				last = x.at
			}
			b.Write(src[last:])
			file := filepath.Join(*out, strings.ReplaceAll(filepath.Join("src", dir, n), "/", "_"))
			if err := os.WriteFile(file, []byte(b.String()), 0o644); err != nil {
				fatal(err)
			}
			overlay[filepath.Join(to, n)] = file
		}
	}
	var mon strings.Builder
	mon.WriteString("// Package verifmon is generated, see /verif/harness/instr.\npackage verifmon\n\n")
	if *mode == "race" {
		mon.WriteString("import (\n\t\"math/rand/v2\"\n\t\"runtime\"\n)\n\n")
		mon.WriteString("// S now and then yields the processor. It shares no memory.\nfunc S(id int) {\n\tif rand.Uint32()&1023 == 0 {\n\t\truntime.Gosched()\n\t}\n}\n")
		mon.WriteString("\nvar Steps, Limit int64\nvar Exceeded bool\nvar Hits [1]uint8\n\ntype StepLimit struct{}\n")
	} else {
		fmt.Fprintf(&mon, `var (
	Steps    int64
	Limit    int64 = 1 << 62
	Exceeded bool
	Hits     [%d]uint8
)

// StepLimit is the value S panics with.
type StepLimit struct{}

func S(id int) {
	Steps++
	Hits[id] = 1
	if Steps > Limit {
		stop()
	}
}

//go:noinline
func stop() {
	Exceeded = true
	panic(StepLimit{})
}
`, len(sites)+1)
	}
	mon.WriteString("\nvar Sites = []string{\n")
	for _, s := range sites {
		fmt.Fprintf(&mon, "\t%q,\n", s)
	}
	mon.WriteString("}\n")
	mf := filepath.Join(*out, "verifmon.go")
	if err := os.WriteFile(mf, []byte(mon.String()), 0o644); err != nil {
		fatal(err)
	}
	overlay[filepath.Join(*repo, "verifmon", "verifmon.go")] = mf
	for _, kv := range strings.Split(*extra, ",") {
		if from, to, ok := strings.Cut(kv, "="); ok {
			overlay[from] = to
		}
	}
	js, _ := json.MarshalIndent(map[string]any{"Replace": overlay}, "", " ")
	if err := os.WriteFile(filepath.Join(*out, "overlay.json"), js, 0o644); err != nil {
		fatal(err)
	}
}
