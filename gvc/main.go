package main

import (
	"flag"
	"fmt"
	"go/ast"
	"go/parser"
	"math/big"
	"os"
	"path/filepath"
	"strings"
	"time"
)

func parseExpr(s string) (ast.Expr, error) { return parser.ParseExpr(s) }

func newRanges() map[*Term][2]*big.Int  { return map[*Term][2]*big.Int{} }
func mkRange(a, b *big.Int) [2]*big.Int { return [2]*big.Int{a, b} }

func main() {
	if len(os.Args) < 2 {
		fmt.Println("usage: gvc check|fn|show ...")
		os.Exit(2)
	}
	fs := flag.NewFlagSet("gvc", flag.ExitOnError)
	dir := fs.String("contracts", "/verif/contracts", "")
	repo := fs.String("repo", "/repo", "")
	root := fs.String("verif", "/verif", "")
	dbg := fs.Int("v", 0, "")
	prop := fs.String("prop", "", "")
	long := fs.Int("long", 15000, "")
	quick := fs.Int("quick", 3000, "")
	fs.Parse(os.Args[2:])
	switch os.Args[1] {
	case "check":
		tier := os.Getenv("VERIF_TIER")
		if tier == "" {
			tier = "quick"
		}
		os.Exit(checkCmd(*root, *repo, fs.Arg(0), tier))
	case "show":
		v, err := LoadProgram(*repo, filepath.Join(filepath.Dir(strings.TrimSuffix(*dir, "/")), "clients", *prop))
		if err != nil {
			fmt.Println(err)
			os.Exit(2)
		}
		for _, a := range fs.Args() {
			for k, f := range v.Funcs {
				if ok, _ := filepath.Match(a, k); ok {
					fmt.Println("==", k)
					f.WriteTo(os.Stdout)
				}
			}
		}
	case "fn":
		t0 := time.Now()
		v, err := LoadProgram(*repo, filepath.Join(filepath.Dir(strings.TrimSuffix(*dir, "/")), "clients", *prop))
		if err != nil {
			fmt.Println(err)
			os.Exit(2)
		}
		v.Debug = *dbg
		v.LongMs = *long
		v.QuickMs = *quick
		v.WorkDir = "/tmp/gvcwork"
		os.MkdirAll(v.WorkDir, 0o755)
		v.Spec = LoadSpec(*dir, *prop)
		fmt.Printf("load %.1fs\n", time.Since(t0).Seconds())
		names := fs.Args()
		if len(names) == 0 {
			names = v.Spec.Checks[*prop]
		}
		res, tr := v.RunCheck(names, 8)
		bad := 0
		for _, r := range res {
			s := "OK"
			if r.Unsup != "" || len(r.Failed) > 0 {
				s = "FAIL"
				bad++
			}
			fmt.Printf("%-4s %-60s obl=%d ok=%d ends=%d paths=%d q=%d solver=%.1fs wall=%.1fs %s\n", s, r.Key, len(r.Obls), r.Proved, r.Ends, r.Paths, r.Queries, r.SolverSec, r.Wall, r.Unsup)
			for _, o := range r.Failed {
				fmt.Printf("       - %s at %s: %s [%s]\n", o.Name, o.Pos, o.Goal, o.Res)
			}
		}
		for _, t := range tr {
			fmt.Println("trusted:", t)
		}
		fmt.Printf("%d functions, %d bad, %.1fs\n", len(res), bad, time.Since(t0).Seconds())
	}
}
