package main

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	goast "go/ast"
	goparser "go/parser"
	"go/token"
	"go/types"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// gvc check P: prove the obligations of property P from the current source of /repo, run the
// replay harness on the real code, write the evidence file, print the verdict lines.

type harnessRes struct {
	Ran      bool
	Note     string
	Fails    []harnessFail
	Evals    int
	Distinct int
	Samples  []string
	Rule     string
	Wall     float64
	Out      string
	Cmd      string
}

type harnessFail struct{ Key, Desc string }

type finding struct{ Kind, Prop, Key, Desc string }

func loadFindings(path string) (out []finding) {
	b, err := os.ReadFile(path)
	if err != nil {
		return nil
	}
	re := regexp.MustCompile(`^finding: property=(\S+) key=(\S+) (.*)$`)
	for _, l := range strings.Split(string(b), "\n") {
		if m := re.FindStringSubmatch(strings.TrimSpace(l)); m != nil {
			out = append(out, finding{"finding", m[1], m[2], m[3]})
		}
	}
	return
}

// sourceConsts collects the integer and string literals of the non-test sources.
func sourceConsts(repo string) (ints []string, strs []string) {
	si, ss := map[string]bool{}, map[string]bool{}
	for _, d := range []string{".", "codec", "common", "utils", "hsms", "gem", "lib-secs2-hsms-go/pkg/ast", "lib-secs2-hsms-go/pkg/parser/hsms"} {
		fl, _ := filepath.Glob(filepath.Join(repo, d, "*.go"))
		for _, f := range fl {
			if strings.HasSuffix(f, "_test.go") {
				continue
			}
			af, err := goparser.ParseFile(token.NewFileSet(), f, nil, 0)
			if err != nil {
				continue
			}
			goast.Inspect(af, func(n goast.Node) bool {
				if b, ok := n.(*goast.BasicLit); ok {
					switch b.Kind {
					case token.INT, token.CHAR:
						s := b.Value
						if b.Kind == token.CHAR {
							if r, _, _, err := strconv.UnquoteChar(strings.Trim(s, "'"), '\''); err == nil {
								s = fmt.Sprint(int(r))
							}
						}
						if n, err := strconv.ParseInt(s, 0, 64); err == nil {
							si[fmt.Sprint(n)] = true
						}
					case token.STRING:
						if u, err := strconv.Unquote(b.Value); err == nil && len(u) < 60 {
							ss[u] = true
						}
					}
				}
				return true
			})
		}
	}
	for k := range si {
		ints = append(ints, k)
	}
	for k := range ss {
		strs = append(strs, k)
	}
	sort.Strings(ints)
	sort.Strings(strs)
	return
}

var vfFail = regexp.MustCompile(`VERIF-FAIL key=(\S+) (.*)`)
var vfStat = regexp.MustCompile(`VERIF-STAT evaluations=(\d+) distinct=(\d+)`)
var vfSample = regexp.MustCompile(`VERIF-SAMPLE (.*)`)
var vfRule = regexp.MustCompile(`VERIF-RULE (.*)`)
var vfTail = regexp.MustCompile(`^\s*\S+\.go:\d+: `)

// runHarness overlays /verif/harness/<dir>/*_verif_test.go of property P (and common files) into
// /repo/<dir> and runs them with go test.
func runHarness(verif, repo, prop, tier, work string) (hr harnessRes) {
	t0 := time.Now()
	hd := filepath.Join(verif, "harness")
	lc := strings.ToLower(prop)
	var dirs []string
	filepath.Walk(hd, func(p string, i os.FileInfo, err error) error {
		if err == nil && !i.IsDir() && strings.HasPrefix(filepath.Base(p), lc+"_") && strings.HasSuffix(p, "_verif_test.go") {
			r, _ := filepath.Rel(hd, filepath.Dir(p))
			dirs = append(dirs, r)
		}
		return nil
	})
	if len(dirs) == 0 {
		hr.Note = "no replay harness"
		return
	}
	sort.Strings(dirs)
	ints, strs := sourceConsts(repo)
	cj, _ := json.Marshal(map[string]any{"ints": ints, "strs": strs})
	cf := filepath.Join(work, "consts.json")
	os.WriteFile(cf, cj, 0o644)
	last := ""
	for _, d := range dirs {
		if d == last {
			continue
		}
		last = d
		rep := map[string]string{}
		fl, _ := filepath.Glob(filepath.Join(hd, d, "*_verif_test.go"))
		for _, f := range fl {
			b := filepath.Base(f)
			if strings.HasPrefix(b, lc+"_") || strings.HasPrefix(b, "common_") {
				rep[filepath.Join(repo, d, "zz_"+b)] = f
			}
		}
		zf, _ := filepath.Glob(filepath.Join(hd, "zzvf", "*.go"))
		for _, f := range zf {
			rep[filepath.Join(repo, "zzvf", filepath.Base(f))] = f
		}
		ob, _ := json.Marshal(map[string]any{"Replace": rep})
		of := filepath.Join(work, "overlay_"+fileSafe(d)+".json")
		os.WriteFile(of, ob, 0o644)
		lim := 300 * time.Second
		if tier == "thorough" {
			lim = 1500 * time.Second
		}
		ctx, cancel := context.WithTimeout(context.Background(), lim)
		args := []string{"test", "-vet=off", "-overlay", of, "-count=1", "-run", "^TestVerif" + prop + "($|_)", "-timeout", "0", "-v", "./" + d}
		if prop == "C11" || prop == "C28" || prop == "C18" {
			args = append(args[:1], append([]string{"-race"}, args[1:]...)...)
		}
		cmd := exec.CommandContext(ctx, "go", args...)
		cmd.Dir = repo
		cmd.Env = append(os.Environ(), "VERIF_CONSTS="+cf, "VERIF_TIER="+tier)
		cmd.WaitDelay = 5 * time.Second
		var buf bytes.Buffer
		cmd.Stdout = &buf
		cmd.Stderr = &buf
		err := cmd.Run()
		timedOut := ctx.Err() != nil
		cancel()
		out := buf.String()
		hr.Out += out
		hr.Cmd += "cd " + repo + " && VERIF_SEED=" + os.Getenv("VERIF_SEED") + " VERIF_CONSTS=" + cf + " go " + strings.Join(args, " ") + "\n"
		compiled := strings.Contains(out, "=== RUN")
		if !compiled {
			hr.Note += fmt.Sprintf("harness for %s did not build: %s; ", d, firstLines(out, 4))
			continue
		}
		hr.Ran = true
		nf := 0
		for _, m := range vfFail.FindAllStringSubmatch(out, -1) {
			hr.Fails = append(hr.Fails, harnessFail{m[1], m[2]})
			nf++
		}
		for _, m := range vfStat.FindAllStringSubmatch(out, -1) {
			a, _ := strconv.Atoi(m[1])
			b, _ := strconv.Atoi(m[2])
			hr.Evals += a
			hr.Distinct += b
		}
		for _, m := range vfSample.FindAllStringSubmatch(out, -1) {
			hr.Samples = append(hr.Samples, m[1])
		}
		for _, m := range vfRule.FindAllStringSubmatch(out, -1) {
			hr.Rule += m[1] + " "
		}
		if timedOut {
			hr.Note += "harness for " + d + " stopped at its time limit; "
		} else if err != nil && nf == 0 {
			if strings.Contains(out, "panic: ") || strings.Contains(out, "fatal error: ") {
				hr.Fails = append(hr.Fails, harnessFail{"crash", "the process crashed while running the harness: " + firstLines(out[strings.Index(out, firstOf(out, "panic: ", "fatal error: ")):], 6)})
			} else if strings.Contains(out, "DATA RACE") {
				hr.Fails = append(hr.Fails, harnessFail{"race", "data race detected: " + firstLines(out[strings.Index(out, "DATA RACE"):], 14)})
			} else {
				hr.Note += "harness for " + d + " ended with " + err.Error() + "; "
			}
		}
	}
	hr.Wall = time.Since(t0).Seconds()
	return
}

func firstOf(s string, xs ...string) string {
	for _, x := range xs {
		if strings.Contains(s, x) {
			return x
		}
	}
	return ""
}

// unproved: the theorems that no function of the check proves.
func unproved(v *Verifier, res []*FuncResult) (out []string) {
	for _, ax := range v.Spec.Axioms {
		ok := !ax.Theorem
		for _, r := range res {
			if con := v.Spec.Contracts[r.Key]; con != nil && contains(con.Proves, ax.Name) {
				ok = true
			}
		}
		if !ok {
			out = append(out, "theorem:"+ax.Name+" is proved by no function of this check")
		}
	}
	return
}

func firstLines(s string, n int) string {
	l := strings.Split(strings.TrimSpace(s), "\n")
	if len(l) > n {
		l = l[:n]
	}
	return strings.Join(l, " | ")
}

func checkCmd(verif, repo, prop, tier string) int {
	t0 := time.Now()
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	if os.Getenv("VERIF_SEED") == "" {
		seed = 1
		os.Setenv("VERIF_SEED", "1")
	}
	work := filepath.Join(verif, "work", prop)
	os.MkdirAll(work, 0o755)
	os.MkdirAll(filepath.Join(verif, "evidence"), 0o755)
	find := loadFindings(filepath.Join(verif, "known-findings.txt"))
	known := func(key string) *finding {
		for i := range find {
			if find[i].Prop == prop && find[i].Key == key {
				return &find[i]
			}
		}
		return nil
	}
	hc := make(chan harnessRes, 1)
	go func() { hc <- runHarness(verif, repo, prop, tier, work) }()

	v, err := LoadProgram(repo, filepath.Join(verif, "clients", prop))
	if err != nil {
		fmt.Println("cannot load the source:", err)
		return 2
	}
	v.QuickMs, v.LongMs, v.MaxFail = 4000, 45000, 2
	if tier == "thorough" {
		v.QuickMs, v.LongMs, v.MaxFail = 8000, 120000, 4
	}
	v.Deadline = t0.Add(560 * time.Second)
	if tier == "thorough" {
		v.Deadline = t0.Add(3000 * time.Second)
	}
	v.WorkDir = filepath.Join(work, "smt")
	os.RemoveAll(v.WorkDir)
	os.MkdirAll(v.WorkDir, 0o755)
	v.Spec = LoadSpec(filepath.Join(verif, "contracts"), prop)
	names := v.Spec.Checks[prop]
	if len(names) == 0 {
		fmt.Println("no check list for", prop)
		return 2
	}
	res, trusted := v.RunCheck(names, 8)
	// what the check relies on from other checks of its include list is verified here, too
	included := map[string]bool{}
	var failed []string
	extra := []complRes{}
	incl := append([]string{}, v.Spec.Includes[prop]...)
	for _, q := range incl {
		w, err := LoadProgram(repo, filepath.Join(verif, "clients", q))
		if err != nil {
			fmt.Println("cannot load the source:", err)
			return 2
		}
		w.QuickMs, w.LongMs, w.MaxFail, w.Deadline, w.WorkDir = v.QuickMs, v.LongMs, v.MaxFail, v.Deadline, v.WorkDir
		w.Spec = LoadSpec(filepath.Join(verif, "contracts"), q)
		r2, t2 := w.RunCheck(w.Spec.Checks[q], 8)
		included[q] = true
		trusted = append(trusted, t2...)
		failed = append(failed, unproved(w, r2)...)
		extra = append(extra, w.completeness(q, r2)...)
		for _, r := range r2 {
			r.Key += " (" + q + ")"
			res = append(res, r)
		}
		for _, t := range w.Spec.Trust {
			if !contains(v.Spec.Trust, t) {
				v.Spec.Trust = append(v.Spec.Trust, t)
			}
		}
	}
	failed = append(failed, unproved(v, res)...)
	extra = append(v.completeness(prop, res), extra...)
	hr := <-hc

	obl, dis := 0, 0
	solver := 0.0
	back := map[string]int{}
	var fns []map[string]any
	tset := map[string]bool{}
	var samples []string
	nq := 0
	for _, r := range res {
		obl += len(r.Obls)
		dis += r.Proved
		solver += r.SolverSec
		nq += r.Queries
		for b, n := range r.Backends {
			back[b] += n
		}
		for _, t := range r.Trust {
			tset[t] = true
		}
		fns = append(fns, map[string]any{"function": r.Key, "at": r.Pos, "obligations": len(r.Obls), "discharged": r.Proved, "solver_s": round2(r.SolverSec), "paths": r.Paths})
		if r.Unsup != "" {
			failed = append(failed, r.Key+": "+r.Unsup)
		}
		for _, o := range r.Failed {
			failed = append(failed, fmt.Sprintf("%s at %s: %s [%s]", o.Name, o.Pos, o.Goal, o.Res))
		}
		for i, o := range r.Obls {
			if i == len(r.Obls)-1 && o.OK && len(samples) < 8 {
				samples = append(samples, o.Name+": "+o.Goal+" ["+o.Backend+"]")
			}
		}
	}
	for _, f := range extra {
		obl++
		if f.Bad == "" {
			dis++
		} else {
			failed = append(failed, f.Bad)
		}
		samples = append(samples, f.What)
	}
	for _, t := range trusted {
		tset[t] = true
	}
	for t := range tset {
		if j := strings.LastIndex(t, "proved by the check of "); j >= 0 && (included[t[j+len("proved by the check of "):]] || t[j+len("proved by the check of "):] == prop) {
			delete(tset, t)
		}
	}
	var tb []string
	for t := range tset {
		tb = append(tb, t)
	}
	sort.Strings(tb)
	viol := 0
	var lines []string
	seenKey := map[string]bool{}
	for i, f := range hr.Fails {
		if k := known(f.Key); k != nil {
			if !seenKey[f.Key] {
				lines = append(lines, fmt.Sprintf("KNOWN-FINDING: property=%s %s (%s)", prop, k.Desc, f.Key))
				seenKey[f.Key] = true
			}
			continue
		}
		if viol == 0 {
			rp := filepath.Join(work, "replay.txt")
			var b strings.Builder
			fmt.Fprintf(&b, "property %s violated on the real code\nfailing input: [%s] %s\n\nreplay with:\n%s\n", prop, f.Key, f.Desc, hr.Cmd)
			for _, g := range hr.Fails[i+1:] {
				fmt.Fprintf(&b, "also: [%s] %s\n", g.Key, g.Desc)
			}
			fmt.Fprintf(&b, "\nproof obligations not discharged:\n%s\n", strings.Join(failed, "\n"))
			os.WriteFile(rp, []byte(b.String()), 0o644)
			fmt.Printf("failing input: [%s] %s\n", f.Key, cut(f.Desc, 600))
			lines = append(lines, fmt.Sprintf("VIOLATION property=%s replay=%s", prop, rp))
		}
		viol++
	}
	if len(failed) > 0 {
		for _, f := range failed {
			fmt.Println("not discharged:", cut(f, 500))
		}
		if viol == 0 {
			rp := filepath.Join(work, "replay.txt")
			var b strings.Builder
			fmt.Fprintf(&b, "property %s: proof obligations generated from the current source are not discharged\n\n%s\n\nverifier: %s check %s\n(SMT scripts of failed obligations: %s)\nreplay harness: %d evaluations on the real code, none failing %s\n", prop, strings.Join(failed, "\n"), os.Args[0], prop, v.WorkDir, hr.Evals, hr.Note)
			os.WriteFile(rp, []byte(b.String()), 0o644)
			lines = append(lines, fmt.Sprintf("VIOLATION property=%s replay=%s no-failing-input-found", prop, rp))
			viol++
		}
	}
	ass := append([]string{}, v.Spec.Trust...)
	ass = append(ass, tb...)
	cov := map[string]any{
		"obligations": obl, "discharged": dis, "checker_cmd": "/verif/bin/gvc check " + prop,
		"trusted_base": tb, "functions": fns, "functions_under_contract": len(fns), "backends": back,
		"solver_s": round2(solver), "solver_queries": nq, "failed": append([]string{}, failed...), "samples": samples,
	}
	if hr.Ran {
		cov["replay_harness"] = map[string]any{"evaluations": hr.Evals, "distinct_nontrivial": hr.Distinct, "rule": hr.Rule, "samples": hr.Samples, "wall_s": round2(hr.Wall), "failing": len(hr.Fails), "note": hr.Note, "role": "bounded search for a concrete failing input on the real code; not counted as proved"}
	} else {
		cov["replay_harness"] = hr.Note
	}
	ev := map[string]any{"property": prop, "tier": tier, "seed": seed, "level": "proof", "coverage": cov, "assumptions": ass, "wall_s": round2(time.Since(t0).Seconds()), "violations": viol}
	eb, _ := json.MarshalIndent(ev, "", " ")
	os.WriteFile(filepath.Join(verif, "evidence", prop+".json"), eb, 0o644)
	fmt.Printf("%s: %d functions under contract, %d obligations, %d discharged, solver %.1fs, replay %d cases (%d failing) %s, %.1fs\n", prop, len(fns), obl, dis, solver, hr.Evals, len(hr.Fails), hr.Note, time.Since(t0).Seconds())
	for _, l := range lines {
		fmt.Println(l)
	}
	if viol > 0 {
		return 1
	}
	return 0
}

func cut(s string, n int) string {
	if len(s) > n {
		return s[:n] + "…"
	}
	return s
}

func round2(f float64) float64 { return float64(int(f*100+0.5)) / 100 }

type complRes struct{ What, Bad string }

// completeness: for a monitor declared complete for the property, every function of the program that
// touches a field it guards was verified, or its body was verified as part of a caller.
func (v *Verifier) completeness(prop string, res []*FuncResult) (out []complRes) {
	done := map[string]bool{}
	for _, r := range res {
		done[r.Key] = true
	}
	for _, tn := range sortedKeys(v.Spec.Monitors) {
		for _, m := range v.Spec.Monitors[tn] {
			if !m.Complete[prop] {
				continue
			}
			c := complRes{What: "access:" + m.Type + "." + m.Mu + ": every function that touches the guarded fields is verified"}
			for _, k := range sortedKeys(v.Funcs) {
				fn := v.Funcs[k]
				if done[k] || v.inlined[funcKey(fn)] {
					continue
				}
				for _, b := range fn.Blocks {
					for _, in := range b.Instrs {
						for _, op := range in.Operands(nil) {
							if f, ok := (*op).(*ssa.Function); ok {
								for _, ck := range m.Callers {
									if funcKey(f) == ck {
										c.Bad = fmt.Sprintf("access:%s.%s at %s: %s uses %s but is not under contract", m.Type, m.Mu, v.pos(in.Pos()), k, ck)
									}
								}
							}
						}
						var t types.Type
						fi := 0
						switch a := in.(type) {
						case *ssa.FieldAddr:
							if al, ok := a.X.(*ssa.Alloc); ok && al.Comment == "complit" {
								continue // a constructor filling in the object it makes
							}
							t, fi = a.X.Type().Underlying().(*types.Pointer).Elem(), a.Field
						case *ssa.Field:
							t, fi = a.X.Type(), a.Field
						default:
							continue
						}
						n, ok := t.(*types.Named)
						if !ok {
							continue
						}
						fnm := n.Underlying().(*types.Struct).Field(fi).Name()
						if !(typeKey(n) == m.Type && m.Fields[fnm]) && !m.also(typeKey(n), fnm) {
							continue
						}
						c.Bad = fmt.Sprintf("access:%s.%s at %s: %s touches a guarded field but is not under contract", m.Type, m.Mu, v.pos(in.Pos()), k)
					}
				}
			}
			out = append(out, c)
		}
	}
	return
}
