package main

import (
	"bufio"
	"context"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
	"sync"
	"time"
)

// Ctx is one incremental solver context: declarations, an assertion stack, one z3 process.
type Ctx struct {
	p        *Pool
	prelude  []string // raw SMT-LIB lines (sorts, datatypes, spec functions, axioms)
	declared map[string]bool
	decls    []string // emitted declarations / definitions in order
	named    map[*Term]string
	stack    [][]*Term

	cmd   *exec.Cmd
	in    io.WriteCloser
	out   *bufio.Reader
	alive bool

	Queries   int
	SolverSec float64
}

var solverBin = "z3-new"

func NewCtx(p *Pool, prelude []string) *Ctx {
	return &Ctx{p: p, prelude: prelude, declared: map[string]bool{}, named: map[*Term]string{}, stack: [][]*Term{nil}}
}

func (c *Ctx) start() {
	c.cmd = exec.Command(solverBin, "-in", "-smt2")
	in, _ := c.cmd.StdinPipe()
	out, _ := c.cmd.StdoutPipe()
	c.cmd.Stderr = nil
	if err := c.cmd.Start(); err != nil {
		panic("cannot start solver: " + err.Error())
	}
	c.in, c.out, c.alive = in, bufio.NewReader(out), true
	w := func(s string) { io.WriteString(c.in, s); io.WriteString(c.in, "\n") }
	w("(set-option :global-declarations true)")
	w("(set-option :smt.mbqi false)")
	w("(set-option :auto_config false)")
	for _, l := range c.prelude {
		w(l)
	}
	for _, d := range c.decls {
		w(d)
	}
	for i, lv := range c.stack {
		if i > 0 {
			w("(push)")
		}
		for _, t := range lv {
			w("(assert " + c.render(t) + ")")
		}
	}
}

func (c *Ctx) Close() {
	if c.alive {
		c.alive = false
		c.in.Close()
		c.cmd.Process.Kill()
		c.cmd.Wait()
	}
}

func (c *Ctx) send(s string) {
	if !c.alive {
		return
	}
	io.WriteString(c.in, s)
	io.WriteString(c.in, "\n")
}

func (c *Ctx) emit(decl string) {
	c.decls = append(c.decls, decl)
	c.send(decl)
}

// prepare declares all symbols of t and names large shared subterms.
func (c *Ctx) prepare(t *Term) {
	seen := map[*Term]bool{}
	var walk func(t *Term)
	walk = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		if _, ok := c.named[t]; ok {
			return
		}
		for _, a := range t.Args {
			walk(a)
		}
		if sg, ok := c.p.sigs[t.Op]; ok && !c.declared[t.Op] {
			c.declared[t.Op] = true
			c.emit(fmt.Sprintf("(declare-fun %s (%s) %s)", symName(t.Op), strings.Join(sg.Args, " "), sg.Ret))
		}
		if !t.bound && t.Vars == nil && len(t.Args) > 0 && c.localSize(t) > 24 {
			n := fmt.Sprintf("d!%d", t.id)
			var sb strings.Builder
			t.writeTop(&sb, c.named)
			c.emit(fmt.Sprintf("(define-fun %s () %s %s)", n, t.Sort, sb.String()))
			c.named[t] = n
		}
	}
	walk(t)
}

// define introduces the fresh constant n as an abbreviation of t.
func (c *Ctx) define(n, t *Term) {
	r := c.render(t)
	c.declared[n.Op] = true
	c.emit(fmt.Sprintf("(define-fun %s () %s %s)", symName(n.Op), n.Sort, r))
}

func (c *Ctx) localSize(t *Term) int {
	if _, ok := c.named[t]; ok {
		return 1
	}
	n := 1
	for _, a := range t.Args {
		n += c.localSize(a)
		if n > 24 {
			return n
		}
	}
	return n
}

func (c *Ctx) render(t *Term) string {
	c.prepare(t)
	var sb strings.Builder
	t.write(&sb, c.named)
	return sb.String()
}

func (c *Ctx) Assert(t *Term) {
	if t == c.p.tru {
		return
	}
	l := len(c.stack) - 1
	c.stack[l] = append(c.stack[l], t)
	if c.alive {
		c.send("(assert " + c.render(t) + ")")
	} else {
		c.prepare(t)
	}
}
func (c *Ctx) Push() { c.stack = append(c.stack, nil); c.send("(push)") }
func (c *Ctx) Pop() {
	c.stack = c.stack[:len(c.stack)-1]
	c.send("(pop)")
}

func (c *Ctx) readLine(limit time.Duration) (string, bool) {
	type r struct {
		s   string
		err error
	}
	ch := make(chan r, 1)
	go func() {
		s, err := c.out.ReadString('\n')
		ch <- r{s, err}
	}()
	select {
	case x := <-ch:
		if x.err != nil {
			return "", false
		}
		return strings.TrimSpace(x.s), true
	case <-time.After(limit):
		return "", false
	}
}

// Check returns "sat", "unsat" or "unknown" for the current stack plus extra.
func (c *Ctx) Check(ms int, extra ...*Term) string {
	if !c.alive {
		c.start()
	}
	c.Queries++
	t0 := time.Now()
	defer func() { c.SolverSec += time.Since(t0).Seconds() }()
	if len(extra) > 0 {
		c.Push()
		for _, e := range extra {
			c.Assert(e)
		}
		defer c.Pop()
	}
	c.send(fmt.Sprintf("(set-option :timeout %d)", ms))
	c.send("(check-sat)")
	if d := os.Getenv("GVC_SLOW"); d != "" {
		defer func() {
			if time.Since(t0).Seconds() > 0.3 {
				slowN++
				os.WriteFile(fmt.Sprintf("%s/slow%d.smt2", d, slowN), []byte(c.Script()), 0o644)
			}
		}()
	}
	for {
		s, ok := c.readLine(time.Duration(ms)*time.Millisecond*4 + 20*time.Second)
		if !ok {
			c.Close()
			return "unknown"
		}
		switch s {
		case "sat", "unsat", "unknown":
			return s
		case "timeout":
			return "unknown"
		}
		if strings.HasPrefix(s, "(error") {
			if os.Getenv("GVC_DEBUG") != "" {
				fmt.Fprintln(os.Stderr, "SMT:", s)
			}
			solverErrMu.Lock()
			solverErr = s
			solverErrMu.Unlock()
		}
	}
}

var solverErrMu sync.Mutex
var solverErr string
var slowN int

// Script renders the current context plus extra assertions as a standalone script.
func (c *Ctx) Script(extra ...*Term) string {
	var rs []string
	for _, e := range extra {
		rs = append(rs, c.render(e))
	}
	var as []string
	for _, lv := range c.stack {
		for _, t := range lv {
			as = append(as, c.render(t))
		}
	}
	var sb strings.Builder
	sb.WriteString("(set-logic ALL)\n")
	for _, l := range c.prelude {
		sb.WriteString(l + "\n")
	}
	for _, d := range c.decls {
		sb.WriteString(d + "\n")
	}
	for _, a := range as {
		sb.WriteString("(assert " + a + ")\n")
	}
	for _, r := range rs {
		sb.WriteString("(assert " + r + ")\n")
	}
	sb.WriteString("(check-sat)\n")
	return sb.String()
}

type backend struct {
	name string
	args []string
}

func portfolio(ms int) []backend {
	s := fmt.Sprintf("%d", (ms+999)/1000)
	return []backend{
		{"z3-new", []string{"z3-new", "-T:" + s, "smt.mbqi=false", "auto_config=false"}},
		{"z3-new-seed7", []string{"z3-new", "-T:" + s, "smt.mbqi=false", "auto_config=false", "smt.random_seed=7", "smt.qi.eager_threshold=20"}},
		{"z3-new-arith2", []string{"z3-new", "-T:" + s, "smt.mbqi=false", "auto_config=false", "smt.arith.solver=2", "smt.random_seed=3"}},
		{"z3-new-mbqi", []string{"z3-new", "-T:" + s}},
		{"z3-4.8", []string{"z3", "-T:" + s, "smt.mbqi=false", "auto_config=false"}},
		{"cvc5", []string{"cvc5", fmt.Sprintf("--tlimit=%d", ms), "--full-saturate-quant"}},
	}
}

var portSem = make(chan struct{}, 6)

var constArrRe = regexp.MustCompile(`\(\(as const (\(Array \S+ (?:Any|Str)\))\) (anynil|\|str!\|)\)`)

// cvc5Script replaces constant arrays over declared constants, which cvc5 rejects, by
// axiomatised constants.
func cvc5Script(s string) string {
	seen := map[string]string{}
	decl := ""
	s = constArrRe.ReplaceAllStringFunc(s, func(m string) string {
		if n, ok := seen[m]; ok {
			return n
		}
		g := constArrRe.FindStringSubmatch(m)
		n := fmt.Sprintf("carr!%d", len(seen))
		seen[m] = n
		k := strings.Fields(g[1])[1]
		decl += fmt.Sprintf("(declare-const %s %s)\n(assert (forall ((i %s)) (! (= (select %s i) %s) :pattern ((select %s i)))))\n", n, g[1], k, n, g[2], n)
		return n
	})
	if decl == "" {
		return s
	}
	mark := "(assert (= (slen |str!|) 0))\n"
	i := strings.Index(s, mark)
	if i < 0 {
		return s
	}
	i += len(mark)
	return s[:i] + decl + s[i:]
}

// Portfolio runs all back ends on a standalone script; first decisive answer wins.
func Portfolio(script string, ms int, dir, name string) (res, who string, sec float64) {
	portSem <- struct{}{}
	defer func() { <-portSem }()
	f := filepath.Join(dir, name+".smt2")
	os.WriteFile(f, []byte(script), 0o644)
	fc := f
	if sc := cvc5Script(script); sc != script {
		fc = filepath.Join(dir, name+".cvc5.smt2")
		os.WriteFile(fc, []byte(sc), 0o644)
	}
	ctx, cancel := context.WithTimeout(context.Background(), time.Duration(ms+3000)*time.Millisecond)
	defer cancel()
	type r struct {
		res, who string
		d        float64
	}
	bs := portfolio(ms)
	ch := make(chan r, len(bs))
	for _, b := range bs {
		go func(b backend) {
			t0 := time.Now()
			in := f
			if b.name == "cvc5" {
				in = fc
			}
			out, _ := exec.CommandContext(ctx, b.args[0], append(b.args[1:], in)...).Output()
			x := "unknown"
			for _, l := range strings.Split(string(out), "\n") {
				l = strings.TrimSpace(l)
				if l == "sat" || l == "unsat" {
					x = l
				}
			}
			ch <- r{x, b.name, time.Since(t0).Seconds()}
		}(b)
	}
	res = "unknown"
	satBy := ""
	for range bs {
		x := <-ch
		sec += x.d
		if x.res == "unsat" {
			return "unsat", x.who, sec
		}
		if x.res == "sat" {
			satBy = x.who
			if x.who == "z3-new-mbqi" || x.who == "cvc5" {
				return "sat", x.who, sec
			}
		}
	}
	if satBy != "" {
		return "sat", satBy, sec
	}
	return res, "", sec
}

func sortedKeys[V any](m map[string]V) []string {
	ks := make([]string, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}
