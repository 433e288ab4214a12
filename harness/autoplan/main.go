// autoplan evaluates the build constraints of the autoversion package for
// every Go release on every platform, and type-checks what they select.
// Standard library only.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/build"
	"go/build/constraint"
	"go/constant"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

type fakeImporter struct{}

func (fakeImporter) Import(path string) (*types.Package, error) {
	p := types.NewPackage(path, filepath.Base(path))
	p.MarkComplete()
	return p, nil
}

// check counts the definitions of the scanner and evaluates the version.
func check(dir string, files []string) (defs, version int, problems []string) {
	fset := token.NewFileSet()
	var asts []*ast.File
	for _, f := range files {
		a, err := parser.ParseFile(fset, filepath.Join(dir, f), nil, parser.SkipObjectResolution)
		if err != nil {
			problems = append(problems, err.Error())
			continue
		}
		asts = append(asts, a)
		for _, d := range a.Decls {
			switch d := d.(type) {
			case *ast.FuncDecl:
				if d.Recv == nil && d.Name.Name == "ScanGraphemeClusters" {
					defs++
				}
			case *ast.GenDecl:
				for _, s := range d.Specs {
					if v, ok := s.(*ast.ValueSpec); ok {
						for _, n := range v.Names {
							if n.Name == "ScanGraphemeClusters" {
								defs++
							}
						}
					}
				}
			}
		}
	}
	conf := types.Config{Importer: fakeImporter{}, Error: func(err error) {
		if strings.Contains(err.Error(), "redeclared") {
			problems = append(problems, err.Error())
		}
	}}
	pkg, _ := conf.Check("p", fset, asts, nil)
	version = -1
	if pkg != nil {
		if c, ok := pkg.Scope().Lookup("UnicodeMajorVersion").(*types.Const); ok {
			if v, ok := constant.Int64Val(constant.ToInt(c.Val())); ok {
				version = int(v)
			}
		}
	}
	return
}

func main() {
	dir := os.Args[1]
	platforms := strings.Fields(os.Args[2])
	// other tags that constraints mention
	tags := map[string]bool{}
	es, err := os.ReadDir(dir)
	must(err)
	for _, e := range es {
		if !strings.HasSuffix(e.Name(), ".go") {
			continue
		}
		b, err := os.ReadFile(filepath.Join(dir, e.Name()))
		must(err)
		for _, l := range strings.Split(string(b), "\n") {
			if strings.HasPrefix(l, "package ") {
				break
			}
			if x, err := constraint.Parse(l); err == nil {
				var walk func(constraint.Expr)
				walk = func(x constraint.Expr) {
					switch x := x.(type) {
					case *constraint.AndExpr:
						walk(x.X)
						walk(x.Y)
					case *constraint.OrExpr:
						walk(x.X)
						walk(x.Y)
					case *constraint.NotExpr:
						walk(x.X)
					case *constraint.TagExpr:
						if !strings.HasPrefix(x.Tag, "go1.") && x.Tag != "ignore" {
							tags[x.Tag] = true
						}
					}
				}
				walk(x)
			}
		}
	}
	var extra []string
	for t := range tags {
		extra = append(extra, t)
	}
	sort.Strings(extra)
	type sel struct {
		Release  int      `json:"release"`
		Platform string   `json:"platform"`
		Tags     string   `json:"tags"`
		Files    []string `json:"files"`
		Defs     int      `json:"defs"`
		Version  int      `json:"version"`
		Problems []string `json:"problems"`
	}
	var out []sel
	type res struct {
		d, v int
		p    []string
	}
	memo := map[string]res{}
	for r := 1; r <= 40; r++ {
		var rel []string
		for k := 1; k <= r; k++ {
			rel = append(rel, fmt.Sprintf("go1.%d", k))
		}
		for _, p := range platforms {
			goos, arch, _ := strings.Cut(p, "/")
			for m := 0; m < 1<<min(len(extra), 6); m++ {
				for _, cgo := range []bool{false, true} {
					ctx := build.Default
					ctx.GOOS, ctx.GOARCH, ctx.ReleaseTags, ctx.CgoEnabled = goos, arch, rel, cgo
					ctx.BuildTags = nil
					for k, t := range extra {
						if k < 6 && m>>k&1 == 1 {
							ctx.BuildTags = append(ctx.BuildTags, t)
						}
					}
					s := sel{Release: r, Platform: p, Tags: strings.Join(ctx.BuildTags, " ")}
					for _, e := range es {
						if strings.HasSuffix(e.Name(), "_test.go") {
							continue
						}
						ok, err := ctx.MatchFile(dir, e.Name())
						must(err)
						if ok {
							s.Files = append(s.Files, e.Name())
						}
					}
					key := strings.Join(s.Files, " ")
					if _, ok := memo[key]; !ok {
						d, v, pr := check(dir, s.Files)
						memo[key] = res{d, v, pr}
					}
					x := memo[key]
					s.Defs, s.Version, s.Problems = x.d, x.v, x.p
					out = append(out, s)
				}
			}
		}
	}
	b, err := json.Marshal(out)
	must(err)
	os.Stdout.Write(b)
}

func must(err error) {
	if err != nil {
		fmt.Fprintln(os.Stderr, "HARNESS-ERROR:", err)
		os.Exit(2)
	}
}
