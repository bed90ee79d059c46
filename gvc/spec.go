package main

import (
	"fmt"
	"go/ast"
	"go/constant"
	"go/parser"
	"go/token"
	"go/types"
	"math/big"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Clause is one specification expression.
type Clause struct {
	Name string
	Src  string
	E    ast.Expr
	File string
	Line int
	Tags []string
	Only bool // panics only when: an upper bound
}

type Split struct {
	Param string
	Vals  []string
}

type Contract struct {
	Key      string
	Fn       *ssa.Function
	Params   []string
	Results  []string
	Req      []*Clause
	Ens      []*Clause
	Mod      []*Clause
	ModAll   bool
	PanWhen  []*Clause
	PanMay   bool
	Loops    map[int][]*Clause
	Splits   []Split
	Ghosts   []ghostParam
	Trusted  bool
	Where    [][2]string
	owner    types.Type
	NoBody   bool
	Impl     string // interface method contract refined by this function
	NoFrame  bool
	Volatile bool
	Locked   []lockedReq // locks the caller holds
	Sets     []ghostSet  // ghost code run on entry
	Records  []ghostSet  // ghost code run on return
	Proves   []string
	Spawns   []ghostSet // ghost code run when a go statement starts it
	Iface    bool
	Asserts  map[int][]*Clause
	File     string
	Line     int
	Derived  bool
	Lemmas   []*Clause // extra facts to prove first, then assume (at return)
	Hints    []*Clause
	Quiet    bool
	Frames   bool       // only effects are proved, not the untagged postconditions
	RelyOn   string     // with Frames: the property whose check proves the functional part of the contract
	OwnTags  [][]string // the tags of its clauses tagged for the property being checked
}

type lockedReq struct {
	Mu string  // T.mu
	C  *Clause // its owner; nil: any
}

type ghostSet struct {
	Name string
	C    *Clause
}

type ghostParam struct{ Name, Type string }

type Monitor struct {
	Type     string // typeKey of the owner
	Mu       string
	Fields   map[string]bool
	Inv      []*Clause
	Self     string
	Havoc    bool
	Ghosts   []string        // ghost state that other goroutines may change
	Within   string          // T.mu: other goroutines change the fields only while holding this lock of the given type
	Also     []alsoFields    // fields of other objects that the lock guards as well
	Callers  []string        // functions whose users count as touching the fields
	Complete map[string]bool // in the check of these properties every function touching the fields must be verified
}

type alsoFields struct {
	Type   string
	Fields map[string]bool
}

func (m *Monitor) also(typ, field string) bool {
	for _, a := range m.Also {
		if a.Type == typ && a.Fields[field] {
			return true
		}
	}
	return false
}

type specFun struct {
	Name string
	Args []string
	Ret  string
}

type macro struct {
	Params []string
	E      ast.Expr
}

type axiomDecl struct {
	Name  string
	Vars  []ghostParam
	Trig  []ast.Expr
	Multi bool
	E     ast.Expr
	Src   string
	File  string
	Line  int

	Theorem bool   // proved, in the contract that lists it under "proves"
	Helper  bool   // a theorem used only by the theorems after it
	Induct  string // by induction on this variable
}

type typeInv struct {
	Type string
	Self string
	Cl   []*Clause
}

type Spec struct {
	Contracts  map[string]*Contract
	Immutable  map[string]bool
	Sealed     map[string][]string
	NonNilBox  map[string]bool
	Macros     map[string]*macro
	Funs       map[string]*specFun
	Axioms     []*axiomDecl
	Monitors   map[string][]*Monitor
	SendsOpen  bool
	Ghosts     map[string]string // name -> sort/type
	Invs       map[string]*typeInv
	Checks     map[string][]string
	Includes   map[string][]string
	FrameNames map[string][]string
	Prop       string
	Prelude    []string
	Trust      []string
	Pure       map[string]bool // external functions treated as pure uninterpreted
}

func newSpec() *Spec {
	return &Spec{Contracts: map[string]*Contract{}, Immutable: map[string]bool{}, Sealed: map[string][]string{}, NonNilBox: map[string]bool{},
		Macros: map[string]*macro{}, Funs: map[string]*specFun{}, Monitors: map[string][]*Monitor{}, Ghosts: map[string]string{}, Invs: map[string]*typeInv{}, Checks: map[string][]string{}, Includes: map[string][]string{}, FrameNames: map[string][]string{}, Pure: map[string]bool{}}
}

var tagRe = regexp.MustCompile(`^([a-z-]+)\[([A-Za-z0-9, ]+)\]`)
var funcRe = regexp.MustCompile(`^([^\s(]+)\s*\(([^)]*)\)\s*(?:\(?([^)]*)\)?)?$`)

func splitNames(s string) (r []string) {
	for _, p := range strings.Split(s, ",") {
		p = strings.TrimSpace(p)
		if p != "" {
			r = append(r, p)
		}
	}
	return
}

// LoadSpec reads all contract files; clauses tagged for other properties are dropped.
func LoadSpec(dir, prop string) *Spec {
	sp := newSpec()
	files, _ := filepath.Glob(filepath.Join(dir, "*.gvc"))
	sort.Strings(files)
	for _, f := range files {
		b, err := os.ReadFile(f)
		if err != nil {
			panic(err)
		}
		sp.Prop = prop
		sp.parseFile(f, string(b), prop)
	}
	return sp
}

func (sp *Spec) parseFile(file, src, prop string) {
	lines := strings.Split(src, "\n")
	var cur *Contract
	var mon *Monitor
	bad := func(ln int, msg string) {
		panic(fmt.Sprintf("%s:%d: %s", file, ln+1, msg))
	}
	expr := func(ln int, s string) ast.Expr {
		e, err := parser.ParseExpr(arrows(s))
		if err != nil {
			bad(ln, "cannot parse expression "+s+": "+err.Error())
		}
		return e
	}
	skip := false
	for i := 0; i < len(lines); i++ {
		ln := i
		l := stripComment(lines[i])
		// only P1, P2 ... endonly: clauses used for these properties only; except P1 ... endonly: not for these
		if w := strings.Fields(strings.ReplaceAll(l, ",", " ")); len(w) > 0 {
			switch w[0] {
			case "only":
				skip, cur, mon = !contains(w[1:], prop), nil, nil
				continue
			case "except":
				skip, cur, mon = contains(w[1:], prop), nil, nil
				continue
			case "endonly":
				skip, cur, mon = false, nil, nil
				continue
			}
		}
		if skip {
			continue
		}
		for strings.HasSuffix(strings.TrimRight(l, " \t"), "\\") && i+1 < len(lines) {
			l = strings.TrimSuffix(strings.TrimRight(l, " \t"), "\\")
			i++
			l += " " + strings.TrimSpace(stripComment(lines[i]))
		}
		// continuation: deeper lines until parens balance
		for unbalanced(l) && i+1 < len(lines) {
			i++
			l += " " + strings.TrimSpace(stripComment(lines[i]))
		}
		t := strings.TrimSpace(l)
		if t == "" {
			continue
		}
		if unbalanced(l) {
			bad(ln, "unbalanced parentheses")
		}
		kw, rest := t, ""
		if j := strings.IndexAny(t, " \t"); j >= 0 {
			kw, rest = t[:j], strings.TrimSpace(t[j:])
		}
		tags := []string(nil)
		if m := tagRe.FindStringSubmatch(t); m != nil {
			for _, g := range splitNames(m[2]) {
				if ts, ok := tagSets[g]; ok {
					tags = append(tags, ts...)
				} else {
					tags = append(tags, g)
				}
			}
			kw = m[1]
			rest = strings.TrimSpace(t[len(m[0]):])
		}
		if tags != nil && prop != "" {
			ok := false
			for _, g := range tags {
				ok = ok || g == prop
			}
			if !ok {
				if kw == "func" || kw == "iface" {
					bad(ln, "func cannot be tagged")
				}
				continue
			}
			if cur != nil && (kw == "ensures" || kw == "requires" || kw == "panics" || kw == "modifies") {
				cur.OwnTags = append(cur.OwnTags, tags)
			}
		}
		clause := func(s string) *Clause {
			nm := ""
			if m := regexp.MustCompile(`^([A-Za-z_][A-Za-z0-9_-]*):\s+`).FindStringSubmatch(s); m != nil {
				nm = m[1]
				s = s[len(m[0]):]
			}
			return &Clause{Name: nm, Src: s, E: expr(ln, s), File: file, Line: ln + 1, Tags: tags}
		}
		switch kw {
		case "func", "iface":
			m := funcRe.FindStringSubmatch(rest)
			if m == nil {
				bad(ln, "bad func header")
			}
			cur = &Contract{Key: m[1], Params: splitNames(m[2]), Results: splitNames(m[3]), Loops: map[int][]*Clause{}, File: file, Line: ln + 1, Iface: kw == "iface", Asserts: map[int][]*Clause{}}
			if _, dup := sp.Contracts[cur.Key]; dup {
				bad(ln, "duplicate contract "+cur.Key)
			}
			sp.Contracts[cur.Key] = cur
			mon = nil
		case "field":
			// what every function stored in a struct field does: field pkg.T.f(self, args...) (results)
			m := funcRe.FindStringSubmatch(rest)
			if m == nil {
				bad(ln, "bad field header")
			}
			cur = &Contract{Key: "field:" + m[1], Params: splitNames(m[2]), Results: splitNames(m[3]), Loops: map[int][]*Clause{}, File: file, Line: ln + 1, Trusted: true, Asserts: map[int][]*Clause{}}
			sp.Contracts[cur.Key] = cur
			mon = nil
		case "functype":
			// what every function value of a named function type does (assumed): functype pkg.T(args...) (results)
			m := funcRe.FindStringSubmatch(rest)
			if m == nil {
				bad(ln, "bad functype header")
			}
			cur = &Contract{Key: "functype:" + m[1], Params: splitNames(m[2]), Results: splitNames(m[3]), Loops: map[int][]*Clause{}, File: file, Line: ln + 1, Trusted: true, Asserts: map[int][]*Clause{}}
			sp.Contracts[cur.Key] = cur
			mon = nil
		case "requires":
			cur.Req = append(cur.Req, clause(rest))
		case "ensures":
			cur.Ens = append(cur.Ens, clause(rest))
		case "lemma":
			cur.Lemmas = append(cur.Lemmas, clause(rest))
		case "modifies":
			if rest == "*" {
				cur.ModAll = true
			} else {
				for _, s := range splitTop(rest) {
					cur.Mod = append(cur.Mod, clause(s))
				}
			}
		case "panics":
			if rest == "may" {
				cur.PanMay = true
			} else {
				only := strings.HasPrefix(rest, "only when")
				c := clause(strings.TrimSpace(strings.TrimPrefix(strings.TrimPrefix(rest, "only "), "when")))
				c.Only = only
				cur.PanWhen = append(cur.PanWhen, c)
			}
		case "loop":
			f := strings.SplitN(rest, " ", 3)
			n, err := strconv.Atoi(f[0])
			if err != nil || f[1] != "invariant" {
				bad(ln, "loop N invariant E")
			}
			cur.Loops[n] = append(cur.Loops[n], clause(f[2]))
		case "split":
			j := strings.Index(rest, ":")
			cur.Splits = append(cur.Splits, Split{strings.TrimSpace(rest[:j]), splitNames(rest[j+1:])})
		case "ghost":
			f := strings.Fields(rest)
			if cur != nil && len(f) == 2 && strings.HasPrefix(lines[ln], " ") {
				cur.Ghosts = append(cur.Ghosts, ghostParam{f[0], f[1]})
			} else {
				sp.Ghosts[f[0]] = strings.Join(f[1:], " ")
			}
		case "proves":
			// proves t1, t2: theorems, each from the axioms and the theorems before it
			cur.Proves = append(cur.Proves, splitNames(rest)...)
		case "trusted":
			cur.Trusted = true
		case "inline":
			cur.NoBody = true
		case "records":
			// records g := E   ghost code on return of the function (E may use the results)
			j := strings.Index(rest, ":=")
			if j < 0 {
				bad(ln, "records g := E")
			}
			cur.Records = append(cur.Records, ghostSet{strings.TrimSpace(rest[:j]), clause(strings.TrimSpace(rest[j+2:]))})
		case "sets":
			// sets g := E   ghost code on entry of the function (E sees the state before)
			j := strings.Index(rest, ":=")
			if j < 0 {
				bad(ln, "sets g := E")
			}
			g := strings.TrimSpace(rest[:j])
			cur.Sets = append(cur.Sets, ghostSet{g, clause(strings.TrimSpace(rest[j+2:]))})
		case "spawn":
			// spawn g := E   ghost code when a go statement starts the function
			j := strings.Index(rest, ":=")
			if j < 0 {
				bad(ln, "spawn g := E")
			}
			cur.Spawns = append(cur.Spawns, ghostSet{strings.TrimSpace(rest[:j]), clause(strings.TrimSpace(rest[j+2:]))})
		case "volatile":
			// other goroutines may change every atomic at any time
			cur.Volatile = true
		case "noframe":
			cur.NoFrame = true
		case "where":
			// where NAME: VAR   NAME(self) is the value that the functions stored in self captured as VAR
			f := strings.SplitN(rest, ":", 2)
			cur.Where = append(cur.Where, [2]string{strings.TrimSpace(f[0]), strings.TrimSpace(f[1])})
		case "implements":
			cur.Impl = rest
		case "immutable":
			for _, n := range splitNames(rest) {
				sp.Immutable[n] = true
			}
		case "nonnil":
			for _, n := range splitNames(rest) {
				sp.NonNilBox[n] = true
			}
		case "sealed":
			j := strings.Index(rest, ":")
			sp.Sealed[strings.TrimSpace(rest[:j])] = splitNames(rest[j+1:])
		case "def":
			j := strings.Index(rest, "=")
			m := funcRe.FindStringSubmatch(strings.TrimSpace(rest[:j]))
			if sp.Macros[m[1]] != nil {
				bad(ln, "def "+m[1]+" is defined twice")
			}
			sp.Macros[m[1]] = &macro{splitNames(m[2]), expr(ln, strings.TrimSpace(rest[j+1:]))}
			cur = nil
		case "specfun":
			m := regexp.MustCompile(`^(\w+)\(([^)]*)\)\s+(.+)$`).FindStringSubmatch(rest)
			if m == nil {
				bad(ln, "specfun")
			}
			sp.Funs[m[1]] = &specFun{m[1], splitTop(m[2]), m[3]}
			cur = nil
		case "axiom", "theorem", "helper":
			// theorem name (a T, b T) [induct b] trig e : E     is an axiom that some contract proves
			induct := ""
			if m := regexp.MustCompile(`\)\s*induct\s+(\w+)\s`).FindStringSubmatch(rest); m != nil {
				induct = m[1]
				rest = strings.Replace(rest, m[0], ") ", 1)
			}
			// axiom name (a T, b T) trig e, e : E      or      axiom name () : E
			if m := regexp.MustCompile(`^(\w+)\s*\(\)\s*:\s+(.*)$`).FindStringSubmatch(rest); m != nil {
				sp.Axioms = append(sp.Axioms, &axiomDecl{Name: m[1], Src: m[2], E: expr(ln, m[2]), File: file, Line: ln + 1, Theorem: kw != "axiom", Helper: kw == "helper"})
				cur = nil
				break
			}
			m := regexp.MustCompile(`^(\w+)\s*\(([^)]*)\)\s*(trig|mtrig)\s+(.*?)\s+:\s+(.*)$`).FindStringSubmatch(rest)
			if m == nil {
				bad(ln, "axiom name(vars) trig T : E")
			}
			ax := &axiomDecl{Name: m[1], Src: m[5], E: expr(ln, m[5]), Multi: m[3] == "mtrig", File: file, Line: ln + 1, Theorem: kw != "axiom", Helper: kw == "helper", Induct: induct}
			for _, v := range splitTop(m[2]) {
				f := strings.Fields(v)
				ax.Vars = append(ax.Vars, ghostParam{f[0], strings.Join(f[1:], " ")})
			}
			for _, s := range splitTop(m[4]) {
				ax.Trig = append(ax.Trig, expr(ln, s))
			}
			if tags == nil || prop == "" || contains(tags, prop) {
				sp.Axioms = append(sp.Axioms, ax)
			}
			cur = nil
		case "invariant":
			if mon != nil {
				mon.Inv = append(mon.Inv, clause(rest))
				continue
			}
			m := regexp.MustCompile(`^(\S+)\((\w+)\)\s*:?\s+(.*)$`).FindStringSubmatch(rest)
			if m == nil {
				bad(ln, "invariant T(x): E")
			}
			ti := sp.Invs[m[1]]
			if ti == nil {
				ti = &typeInv{Type: m[1], Self: m[2]}
				sp.Invs[m[1]] = ti
			}
			if ti.Self != m[2] {
				bad(ln, "use the same self name")
			}
			ti.Cl = append(ti.Cl, clause(m[3]))
			cur = nil
		case "monitor", "guarded":
			// monitor T.mu (self): f1, f2
			m := regexp.MustCompile(`^(\S+)\.(\w+)\s*\((\w+)\)\s*:\s*(.*)$`).FindStringSubmatch(rest)
			if m == nil {
				bad(ln, "monitor T.mu (self): fields")
			}
			mon = &Monitor{Type: m[1], Mu: m[2], Self: m[3], Fields: map[string]bool{}, Havoc: kw == "monitor"}
			for _, f := range splitNames(m[4]) {
				if g := strings.TrimPrefix(f, "ghost "); g != f {
					mon.Ghosts = append(mon.Ghosts, strings.TrimSpace(g))
					continue
				}
				mon.Fields[f] = true
			}
			sp.Monitors[m[1]] = append(sp.Monitors[m[1]], mon)
			cur = nil
		case "within":
			if mon == nil {
				bad(ln, "within: inside a monitor")
			}
			mon.Within = rest
		case "also":
			// also T: f1, f2   these fields of every T change only under the lock
			j := strings.Index(rest, ":")
			if mon == nil || j < 0 {
				bad(ln, "also T: fields (inside a monitor)")
			}
			a := alsoFields{strings.TrimSpace(rest[:j]), map[string]bool{}}
			for _, f := range splitNames(rest[j+1:]) {
				a.Fields[f] = true
			}
			mon.Also = append(mon.Also, a)
		case "locked":
			// locked T.mu(obj)   the caller holds this lock; T.mu(_): of some T
			m := regexp.MustCompile(`^(\S+)\((.*)\)$`).FindStringSubmatch(rest)
			if cur == nil || m == nil {
				bad(ln, "locked T.mu(obj)")
			}
			l := lockedReq{Mu: m[1]}
			if m[2] != "_" {
				l.C = clause(m[2])
			}
			cur.Locked = append(cur.Locked, l)
		case "complete":
			if mon == nil {
				bad(ln, "complete: inside a monitor")
			}
			if mon.Complete == nil {
				mon.Complete = map[string]bool{}
			}
			for _, q := range splitNames(rest) {
				mon.Complete[q] = true
			}
		case "callers":
			// under complete: every function using one of these must be verified as well
			if mon == nil {
				bad(ln, "callers: inside a monitor")
			}
			mon.Callers = append(mon.Callers, splitNames(rest)...)
		case "sendsopen":
			// every send on a channel is proved not to happen on a closed one
			sp.SendsOpen = true
		case "check":
			j := strings.Index(rest, ":")
			p := strings.TrimSpace(rest[:j])
			if f := strings.TrimSuffix(p, " frames"); f != p {
				// only what the functions change: postconditions not tagged for this property are proved elsewhere
				p = f
				sp.FrameNames[p] = append(sp.FrameNames[p], splitNames(rest[j+1:])...)
			}
			sp.Checks[p] = append(sp.Checks[p], splitNames(rest[j+1:])...)
			cur = nil
		case "include":
			// include P: Q1, Q2    the check of P verifies what the checks of Q1 and Q2 verify, too
			j := strings.Index(rest, ":")
			p := strings.TrimSpace(rest[:j])
			sp.Includes[p] = append(sp.Includes[p], splitNames(rest[j+1:])...)
			cur = nil
		case "assume":
			sp.Trust = append(sp.Trust, rest)
		case "end":
			cur, mon = nil, nil
		default:
			bad(ln, "unknown clause "+kw)
		}
	}
}

// tagSets abbreviates groups of properties.
var tagSets = map[string][]string{"GEM": {"C18", "C19", "C20", "C21", "C22", "C23", "C24", "C25", "C26", "C27", "C30"}}

// ownFor: the contract has a clause for the property being checked that the check of p does not see.
func (c *Contract) ownFor(p string) bool {
	for _, t := range c.OwnTags {
		if !contains(t, p) {
			return true
		}
	}
	return false
}

func contains(xs []string, s string) bool {
	for _, x := range xs {
		if x == s {
			return true
		}
	}
	return false
}

func stripComment(s string) string {
	in := byte(0)
	for i := 0; i < len(s); i++ {
		c := s[i]
		if in != 0 {
			if c == '\\' {
				i++
			} else if c == in {
				in = 0
			}
			continue
		}
		if c == '"' || c == '\'' || c == '`' {
			in = c
		}
		if c == '#' {
			return s[:i]
		}
	}
	return s
}

func unbalanced(s string) bool {
	d := 0
	in := byte(0)
	for i := 0; i < len(s); i++ {
		c := s[i]
		if in != 0 {
			if c == '\\' {
				i++
			} else if c == in {
				in = 0
			}
			continue
		}
		switch c {
		case '"', '\'', '`':
			in = c
		case '(', '[', '{':
			d++
		case ')', ']', '}':
			d--
		}
	}
	return d > 0
}

func splitTop(s string) (r []string) {
	d, st := 0, 0
	in := byte(0)
	for i := 0; i < len(s); i++ {
		c := s[i]
		if in != 0 {
			if c == '\\' {
				i++
			} else if c == in {
				in = 0
			}
			continue
		}
		switch c {
		case '"', '\'', '`':
			in = c
		case '(', '[', '{':
			d++
		case ')', ']', '}':
			d--
		case ',':
			if d == 0 {
				r = append(r, strings.TrimSpace(s[st:i]))
				st = i + 1
			}
		}
	}
	if t := strings.TrimSpace(s[st:]); t != "" {
		r = append(r, t)
	}
	return
}

// evaluation -----------------------------------------------------------------

type SVal struct {
	T  *Term
	Ty types.Type
	V  Val // original value (closures, addresses)
}

type SEnv struct {
	x    *Exec
	st   *State
	old  *State
	acq  *State
	vars map[string]SVal
	pkg  *types.Package
	loop *loopEnv
}

type loopEnv struct {
	fid  int
	fn   *ssa.Function
	lp   *Loop
	phis map[*ssa.Phi]Val
	it   *Term
	cr   *cutRec
	up   []frame
}

// frames: the function of the loop and, when the loop was moved out of the function under contract, its callers.
func (l *loopEnv) frames() []frame { return append([]frame{{l.fid, l.fn}}, l.up...) }

func (e *SEnv) sub(vars map[string]SVal) *SEnv {
	n := *e
	n.vars = vars
	return &n
}

func specErr(format string, a ...any) {
	panic(&Unsupported{"spec: " + fmt.Sprintf(format, a...)})
}

func (e *SEnv) Bool(n ast.Expr) *Term {
	v := e.eval(n)
	if v.T == nil || v.T.Sort != "Bool" {
		specErr("boolean expected: %s", exprStr(n))
	}
	return v.T
}

func exprStr(n ast.Expr) string { return types.ExprString(n) }

func (e *SEnv) Int(n ast.Expr) *Term {
	v := e.eval(n)
	if v.T == nil || v.T.Sort != "Int" {
		specErr("integer expected: %s", exprStr(n))
	}
	return v.T
}

var tInt = types.Typ[types.Int]
var tBool = types.Typ[types.Bool]
var tString = types.Typ[types.String]

func (e *SEnv) eval(n ast.Expr) SVal {
	x, p := e.x, e.x.P
	switch n := n.(type) {
	case *ast.ParenExpr:
		return e.eval(n.X)
	case *ast.BasicLit:
		switch n.Kind {
		case token.INT:
			b, ok := new(big.Int).SetString(n.Value, 0)
			if !ok {
				specErr("int %s", n.Value)
			}
			return SVal{T: p.Big(b), Ty: types.Typ[types.UntypedInt]}
		case token.CHAR:
			r, _, _, _ := strconv.UnquoteChar(n.Value[1:], '\'')
			return SVal{T: p.Int(int64(r)), Ty: types.Typ[types.UntypedRune]}
		case token.STRING:
			s, _ := strconv.Unquote(n.Value)
			return SVal{T: x.Str(s), Ty: tString}
		}
	case *ast.Ident:
		return e.ident(n.Name)
	case *ast.UnaryExpr:
		switch n.Op {
		case token.NOT:
			return SVal{T: p.Not(e.Bool(n.X)), Ty: tBool}
		case token.SUB:
			return SVal{T: p.Neg(e.Int(n.X)), Ty: tInt}
		}
	case *ast.BinaryExpr:
		return e.binary(n)
	case *ast.SelectorExpr:
		return e.selector(n)
	case *ast.StarExpr:
		v := e.eval(n.X)
		t := deref(v.Ty)
		if a := v.V.A; a != nil {
			if a.K == aField && len(a.Path) == 0 {
				return SVal{T: x.sel(x.heap(e.st, x.fieldHeapName(a.Owner0(), a.Field), x.fieldHeapSort(a.Owner0(), a.Field)), a.Ref), Ty: t}
			}
			return SVal{T: x.term(e.st, x.loadRoot(e.st, a), t), Ty: t}
		}
		if _, ok := t.Underlying().(*types.Struct); ok {
			return SVal{T: x.loadWhole(e.st, v.T, t), Ty: t}
		}
		h := x.heap(e.st, "B!"+typeKey(t), ArrSort("Int", x.Sort(t)))
		return SVal{T: x.sel(h, v.T), Ty: t}
	case *ast.IndexExpr:
		return e.index(n)
	case *ast.SliceExpr:
		v := e.eval(n.X)
		lo := p.Int(0)
		if n.Low != nil {
			lo = e.Int(n.Low)
		}
		if v.T.Sort == "Str" {
			hi := x.SLen(v.T)
			if n.High != nil {
				hi = e.Int(n.High)
			}
			if lo.bound || hi.bound || v.T.bound {
				return SVal{T: p.Fun("substr", "Str", v.T, lo, hi), Ty: v.Ty}
			}
			return SVal{T: x.substr(v.T, lo, hi), Ty: v.Ty}
		}
		hi := x.sLen(v.T)
		if n.High != nil {
			hi = e.Int(n.High)
		}
		return SVal{T: x.mkSlice(x.sBase(v.T), p.Add(x.sOff(v.T), lo), p.Sub(hi, lo), p.Sub(x.sCap(v.T), lo)), Ty: v.Ty}
	case *ast.CallExpr:
		return e.call(n)
	}
	specErr("cannot evaluate %s", exprStr(n))
	return SVal{}
}

func (e *SEnv) ident(name string) SVal {
	x, p := e.x, e.x.P
	switch name {
	case "true":
		return SVal{T: p.tru, Ty: tBool}
	case "false":
		return SVal{T: p.fal, Ty: tBool}
	case "nil":
		return SVal{T: nil, Ty: types.Typ[types.UntypedNil]}
	}
	if v, ok := e.vars[name]; ok {
		return v
	}
	if e.loop != nil && name == "iter" {
		return SVal{T: e.loop.it, Ty: tInt}
	}
	if so, ok := x.V.Spec.Ghosts[name]; ok {
		t, ty := x.ghostVal(e.st, name, so)
		return SVal{T: t, Ty: ty}
	}
	if e.pkg != nil {
		if o := e.pkg.Scope().Lookup(name); o != nil {
			return e.object(o)
		}
	}
	if m, ok := x.V.Spec.Macros[name]; ok && len(m.Params) == 0 {
		return e.sub(map[string]SVal{}).eval(m.E)
	}
	specErr("unknown name %s", name)
	return SVal{}
}

func (e *SEnv) object(o types.Object) SVal {
	x, p := e.x, e.x.P
	switch o := o.(type) {
	case *types.Const:
		switch o.Val().Kind() {
		case constant.Int:
			b, _ := new(big.Int).SetString(o.Val().ExactString(), 10)
			return SVal{T: p.Big(b), Ty: o.Type()}
		case constant.String:
			return SVal{T: x.Str(constant.StringVal(o.Val())), Ty: o.Type()}
		case constant.Bool:
			return SVal{T: p.Bool(constant.BoolVal(o.Val())), Ty: o.Type()}
		}
	case *types.Var:
		g := x.V.global(o)
		if g != nil {
			v := x.loadRoot(e.st, &Addr{K: aGlobal, G: g, Typ: deref(g.Type())})
			return SVal{T: x.term(e.st, v, o.Type()), Ty: o.Type()}
		}
	}
	specErr("cannot use %s", o)
	return SVal{}
}

func (x *Exec) ghostSort(so string) (string, types.Type) {
	switch so {
	case "Int", "int":
		return "Int", tInt
	case "Bool", "bool":
		return "Bool", tBool
	case "Str", "string":
		return "Str", tString
	case "Any":
		return "Any", x.V.anyType
	case "Bytes":
		return ArrSort("Int", "Int"), nil
	case "Counts":
		return ArrSort("Any", "Int"), nil
	case "Strs":
		return ArrSort("Int", "Str"), nil
	case "Ids":
		return ArrSort("Int", x.Sort(x.V.lookupType("gem.idInfo"))), nil
	case "Names":
		return ArrSort("Str", "Bool"), nil
	case "Vals":
		return ArrSort("Str", "Any"), nil
	}
	if strings.HasPrefix(so, "(") {
		return so, nil
	}
	ty := x.V.lookupType(so)
	return x.Sort(ty), ty
}

func (x *Exec) ghostVal(st *State, name, so string) (*Term, types.Type) {
	s, ty := x.ghostSort(so)
	t, ok := st.ghost[name]
	if !ok {
		t = x.P.Const("ghost0!"+name, s)
		st.ghost[name] = t
	}
	return t, ty
}

func (e *SEnv) coerce(a, b SVal) (SVal, SVal) {
	x := e.x
	fix := func(v, o SVal) SVal {
		if v.T == nil && v.V.F != nil {
			v.T = x.term(e.st, v.V, v.Ty)
		}
		if v.T == nil && v.V.A != nil {
			v.T = x.term(e.st, v.V, v.Ty)
		}
		if v.T != nil {
			return v
		}
		// nil
		switch o.T.Sort {
		case "Any":
			return SVal{T: x.anyNil(), Ty: o.Ty}
		case "Slice":
			return SVal{T: x.nilSlice(), Ty: o.Ty}
		case "Int":
			return SVal{T: x.P.Int(0), Ty: o.Ty}
		}
		specErr("nil of sort %s", o.T.Sort)
		return v
	}
	if a.T != nil {
		b = fix(b, a)
	}
	if b.T != nil {
		a = fix(a, b)
	}
	if a.T == nil || b.T == nil {
		specErr("nil compared with nil")
	}
	if a.T.Sort != b.T.Sort {
		if a.T.Sort == "Any" && b.Ty != nil {
			b = SVal{T: x.Box(b.Ty, b.T), Ty: a.Ty}
		} else if b.T.Sort == "Any" && a.Ty != nil {
			a = SVal{T: x.Box(a.Ty, a.T), Ty: b.Ty}
		}
	}
	return a, b
}

func (e *SEnv) binary(n *ast.BinaryExpr) SVal {
	x, p := e.x, e.x.P
	switch n.Op {
	case token.LAND:
		return SVal{T: p.And(e.Bool(n.X), e.Bool(n.Y)), Ty: tBool}
	case token.LOR:
		return SVal{T: p.Or(e.Bool(n.X), e.Bool(n.Y)), Ty: tBool}
	case token.EQL, token.NEQ:
		a, b := e.coerce(e.eval(n.X), e.eval(n.Y))
		var r *Term
		if a.T.Sort == "Slice" {
			if b.T.Op == "mk!Slice" && b.T.Args[0] == p.Int(0) {
				r = p.Eq(x.sBase(a.T), p.Int(0))
			} else {
				r = p.And(p.Eq(x.sBase(a.T), x.sBase(b.T)), p.Eq(x.sOff(a.T), x.sOff(b.T)), p.Eq(x.sLen(a.T), x.sLen(b.T)))
			}
		} else {
			if a.T.Sort != b.T.Sort {
				specErr("cannot compare %s: %s and %s", exprStr(n), a.T.Sort, b.T.Sort)
			}
			r = p.Eq(a.T, b.T)
		}
		if n.Op == token.NEQ {
			r = p.Not(r)
		}
		return SVal{T: r, Ty: tBool}
	case token.ADD:
		a, b := e.eval(n.X), e.eval(n.Y)
		if a.T.Sort == "Str" {
			return SVal{T: x.sconcat(a.T, b.T), Ty: tString}
		}
		return SVal{T: p.Add(a.T, b.T), Ty: tInt}
	}
	a, b := e.Int(n.X), e.Int(n.Y)
	switch n.Op {
	case token.SUB:
		return SVal{T: p.Sub(a, b), Ty: tInt}
	case token.MUL:
		return SVal{T: p.Mul(a, b), Ty: tInt}
	case token.QUO:
		return SVal{T: p.Div(a, b), Ty: tInt}
	case token.REM:
		return SVal{T: p.Mod(a, b), Ty: tInt}
	case token.LSS:
		return SVal{T: p.Lt(a, b), Ty: tBool}
	case token.LEQ:
		return SVal{T: p.Le(a, b), Ty: tBool}
	case token.GTR:
		return SVal{T: p.Gt(a, b), Ty: tBool}
	case token.GEQ:
		return SVal{T: p.Ge(a, b), Ty: tBool}
	}
	specErr("operator %s", n.Op)
	return SVal{}
}

func (e *SEnv) selector(n *ast.SelectorExpr) SVal {
	x := e.x
	if id, ok := n.X.(*ast.Ident); ok {
		if _, isVar := e.vars[id.Name]; !isVar {
			if pk := x.V.pkgByKey(id.Name); pk != nil {
				if o := pk.Scope().Lookup(n.Sel.Name); o != nil {
					return e.object(o)
				}
				specErr("no %s in package %s", n.Sel.Name, id.Name)
			}
		}
	}
	v := e.eval(n.X)
	return e.field(v, n.Sel.Name)
}

func (e *SEnv) field(v SVal, name string) SVal {
	x := e.x
	if v.Ty == nil {
		specErr("field %s of a value without Go type", name)
	}
	var pk *types.Package
	if nt, ok := deref(v.Ty).(*types.Named); ok {
		pk = nt.Obj().Pkg()
	}
	o, path, _ := types.LookupFieldOrMethod(v.Ty, true, pk, name)
	fv, ok := o.(*types.Var)
	if !ok {
		specErr("no field %s in %s", name, v.Ty)
	}
	cur := v
	for _, i := range path {
		t := deref(cur.Ty)
		s := t.Underlying().(*types.Struct)
		ft := s.Field(i).Type()
		if _, isP := cur.Ty.Underlying().(*types.Pointer); isP {
			if cur.V.A != nil {
				whole := x.loadRoot(e.st, cur.V.A)
				cur = SVal{T: x.structGet(t, whole.T, i), Ty: ft}
				continue
			}
			cur = SVal{T: e.heapField(t, cur.T, i), Ty: ft}
		} else {
			cur = SVal{T: x.structGet(t, cur.T, i), Ty: ft}
		}
	}
	_ = fv
	if !cur.T.bound && cur.T.num == nil {
		x.typeFacts(e.st, cur.T, cur.Ty, 0)
	}
	return cur
}

// heapField reads a field without lock checks.
func (e *SEnv) heapField(owner types.Type, ref *Term, i int) *Term {
	x := e.x
	if n, ok := owner.(*types.Named); ok && x.isImmutable(n) {
		s := owner.Underlying().(*types.Struct)
		if loc, ok := e.st.fresh[ref]; ok {
			if v, ok := loc[i]; ok {
				return x.term(e.st, v, s.Field(i).Type())
			}
			return x.zero(s.Field(i).Type())
		}
		return x.immField(e.st, n, ref, i)
	}
	h := x.heap(e.st, x.fieldHeapName(owner, i), x.fieldHeapSort(owner, i))
	return x.sel(h, ref)
}

func (e *SEnv) index(n *ast.IndexExpr) SVal {
	x, p := e.x, e.x.P
	v := e.eval(n.X)
	if v.Ty == nil {
		if strings.HasPrefix(v.T.Sort, "(Array") {
			k := e.eval(n.Index)
			return e.retype(SVal{T: p.Select(v.T, k.T)})
		}
		specErr("index of %s", exprStr(n.X))
	}
	switch u := v.Ty.Underlying().(type) {
	case *types.Slice:
		i := e.Int(n.Index)
		r := SVal{T: x.elemGet(e.st, u.Elem(), x.sBase(v.T), p.Add(x.sOff(v.T), i)), Ty: u.Elem()}
		if !r.T.bound && r.T.num == nil {
			x.typeFacts(e.st, r.T, r.Ty, 0)
		}
		return r
	case *types.Array:
		return SVal{T: x.sel(v.T, e.Int(n.Index)), Ty: u.Elem()}
	case *types.Map:
		k := e.eval(n.Index)
		k = e.asType(k, u.Key())
		_, val := x.mapGet(e.st, u, v.T, k.T)
		if !val.bound && val.num == nil {
			x.typeFacts(e.st, val, u.Elem(), 0)
		}
		return SVal{T: val, Ty: u.Elem()}
	case *types.Basic:
		return SVal{T: p.mk("sat", "Int", v.T, e.Int(n.Index)), Ty: types.Typ[types.Uint8]}
	}
	specErr("index of %s", v.Ty)
	return SVal{}
}

func (e *SEnv) retype(v SVal) SVal {
	switch v.T.Sort {
	case "Int":
		v.Ty = tInt
	case "Bool":
		v.Ty = tBool
	case "Str":
		v.Ty = tString
	case "Any":
		v.Ty = e.x.V.anyType
	case "F64":
		v.Ty = types.Typ[types.Float64]
	default:
		if strings.HasPrefix(v.T.Sort, "S!") {
			if ty := e.x.V.lookupType(strings.TrimPrefix(v.T.Sort, "S!")); ty != nil {
				v.Ty = ty
			}
		}
	}
	return v
}

func (e *SEnv) asType(v SVal, t types.Type) SVal {
	x := e.x
	if types.IsInterface(t) && v.T != nil && v.T.Sort != "Any" {
		return SVal{T: x.Box(defTy(v.Ty), v.T), Ty: t}
	}
	return v
}

func defTy(t types.Type) types.Type { return types.Default(t) }

func (e *SEnv) typeArg(n ast.Expr) types.Type {
	if l, ok := n.(*ast.BasicLit); ok && l.Kind == token.STRING {
		s, _ := strconv.Unquote(l.Value)
		return e.x.V.lookupType(s)
	}
	specErr("type name in quotes expected, got %s", exprStr(n))
	return nil
}

func (e *SEnv) withVar(name string, v SVal) *SEnv {
	m := cp(e.vars)
	m[name] = v
	return e.sub(m)
}

func (e *SEnv) call(n *ast.CallExpr) SVal {
	x, p := e.x, e.x.P
	id, ok := n.Fun.(*ast.Ident)
	if !ok {
		specErr("call %s", exprStr(n))
	}
	a := n.Args
	need := func(k int) {
		if len(a) < k {
			specErr("%s needs %d arguments", id.Name, k)
		}
	}
	b := func(t *Term) SVal { return SVal{T: t, Ty: tBool} }
	switch id.Name {
	case "old":
		need(1)
		n := *e
		n.st = e.old
		return n.eval(a[0])
	case "holding":
		// holding("T.mu"): the running goroutine holds that mutex (of some T) exclusively
		nm := strings.Trim(exprStr(a[0]), "\"")
		r := p.fal
		for _, h := range e.st.held {
			if h.mode == 2 && h.mon.Type+"."+h.mon.Mu == nm {
				r = p.tru
			}
		}
		return b(r)
	case "acquired":
		// acquired("T.mu"): that lock (of any T) was taken at least once
		if e.st.snaps["acq:"+strings.Trim(exprStr(a[0]), "\"")] != nil {
			return b(p.tru)
		}
		return b(p.fal)
	case "acqof", "rel":
		// acqof("T.mu", E): E when that lock (of any T) was first acquired; rel: when it was last released
		need(2)
		key := "acq:"
		if id.Name == "rel" {
			key = "rel:"
		}
		n := *e
		if sn := e.st.snaps[key+strings.Trim(exprStr(a[0]), "\"")]; sn != nil {
			n.st = sn
		} else if id.Name == "acqof" {
			n.st = e.old
		}
		return n.eval(a[1])
	case "acq":
		need(1)
		n := *e
		if e.acq == nil {
			n.st = e.old
		} else {
			n.st = e.acq
		}
		return n.eval(a[0])
	case "len":
		v := e.eval(a[0])
		switch v.T.Sort {
		case "Slice":
			return SVal{T: x.sLen(v.T), Ty: tInt}
		case "Str":
			return SVal{T: x.SLen(v.T), Ty: tInt}
		}
		if m, ok := v.Ty.Underlying().(*types.Map); ok {
			if v.T.bound {
				ln, ls := x.mapHeap("ML", m)
				return SVal{T: x.sel(x.heap(e.st, ln, ls), v.T), Ty: tInt}
			}
			return SVal{T: x.mapLen(e.st, m, v.T), Ty: tInt}
		}
		specErr("len of %s", v.Ty)
	case "cap":
		return SVal{T: x.sCap(e.eval(a[0]).T), Ty: tInt}
	case "base":
		return SVal{T: x.sBase(e.eval(a[0]).T), Ty: tInt}
	case "off":
		return SVal{T: x.sOff(e.eval(a[0]).T), Ty: tInt}
	case "has":
		need(2)
		v := e.eval(a[0])
		if v.Ty == nil || v.T.Sort != "Int" {
			k := e.eval(a[1])
			return b(p.Select(v.T, k.T))
		}
		m := v.Ty.Underlying().(*types.Map)
		k := e.asType(e.eval(a[1]), m.Key())
		h, _ := x.mapGet(e.st, m, v.T, k.T)
		return b(h)
	case "implies":
		need(2)
		c := e.Bool(a[0])
		if c == p.fal {
			return b(p.tru)
		}
		return b(p.Implies(c, e.Bool(a[1])))
	case "iff":
		return b(p.Eq(e.Bool(a[0]), e.Bool(a[1])))
	case "ite":
		c := e.Bool(a[0])
		if c == p.tru {
			return e.eval(a[1])
		}
		if c == p.fal {
			return e.eval(a[2])
		}
		u, v := e.coerce(e.eval(a[1]), e.eval(a[2]))
		return SVal{T: p.Ite(c, u.T, v.T), Ty: u.Ty}
	case "forall", "exists":
		// forall(i, lo, hi, P [, trig...])
		need(4)
		q := x.bv("Int")
		lo, hi := e.Int(a[1]), e.Int(a[2])
		if lo.num != nil && hi.num != nil && new(big.Int).Sub(hi.num, lo.num).Cmp(big.NewInt(16)) <= 0 {
			var cs []*Term
			for v := lo.num.Int64(); v < hi.num.Int64(); v++ {
				cs = append(cs, e.withVar(a[0].(*ast.Ident).Name, SVal{T: p.Int(v), Ty: tInt}).Bool(a[3]))
			}
			if id.Name == "forall" {
				return b(p.And(cs...))
			}
			return b(p.Or(cs...))
		}
		e2 := e.withVar(a[0].(*ast.Ident).Name, SVal{T: q, Ty: tInt})
		body := e2.Bool(a[3])
		g := p.And(p.Le(lo, q), p.Lt(q, hi))
		if id.Name == "exists" {
			return b(p.Exists([]*Term{q}, p.And(g, body)))
		}
		var trig []*Term
		for _, t := range a[4:] {
			trig = append(trig, e2.eval(t).T)
		}
		return b(x.mkForall(q, g, body, trig))
	case "all", "some":
		// all(v, "type", P, trig...)
		need(3)
		ty := e.typeArg(a[1])
		q := x.bv(x.Sort(ty))
		e2 := e.withVar(a[0].(*ast.Ident).Name, SVal{T: q, Ty: ty})
		body := e2.Bool(a[2])
		g := p.tru
		if lo, hi, ok := intRange(ty); ok && ty != tInt {
			g = p.And(p.Le(p.Big(lo), q), p.Le(q, p.Big(hi)))
		}
		if id.Name == "some" {
			return b(p.Exists([]*Term{q}, p.And(g, body)))
		}
		var trig []*Term
		for _, t := range a[3:] {
			trig = append(trig, e2.eval(t).T)
		}
		if len(trig) == 0 {
			trig = x.findTrig(q, body)
		}
		return b(p.Forall([]*Term{q}, p.Implies(g, body), trig...))
	case "allk":
		// allk(k, m, P): for every key of map m
		need(3)
		mv := e.eval(a[1])
		m := mv.Ty.Underlying().(*types.Map)
		q := x.bv(x.Sort(m.Key()))
		e2 := e.withVar(a[0].(*ast.Ident).Name, SVal{T: q, Ty: m.Key()})
		h, _ := x.mapGet(e.st, m, mv.T, q)
		body := e2.Bool(a[2])
		var trig []*Term
		for _, t := range a[3:] {
			trig = append(trig, e2.eval(t).T)
		}
		if len(trig) == 0 && h.Op == "select" {
			trig = []*Term{h}
		}
		return b(p.Forall([]*Term{q}, p.Implies(h, body), trig...))
	case "is":
		need(2)
		v := e.eval(a[0])
		return b(x.TagIs(v.T, e.typeArg(a[1])))
	case "as":
		need(2)
		v := e.eval(a[0])
		ty := e.typeArg(a[1])
		if v.T.Sort != "Any" {
			return SVal{T: v.T, Ty: ty}
		}
		u := x.Unbox(ty, v.T)
		if !u.bound && u.num == nil {
			x.typeFactsIf(e.st, x.TagIs(v.T, ty), u, ty)
		}
		return SVal{T: u, Ty: ty}
	case "box":
		v := e.eval(a[0])
		return SVal{T: x.Box(defTy(v.Ty), v.T), Ty: x.V.anyType}
	case "live":
		// allocated by now
		v := e.eval(a[0])
		return b(p.And(p.Le(p.Int(0), v.T), p.Lt(v.T, e.st.alloc)))
	case "fresh":
		v := e.eval(a[0])
		r := v.T
		if r.Sort == "Slice" {
			r = x.sBase(r)
		}
		al := x.alloc0
		if e.old != nil {
			al = e.old.alloc
		}
		return b(p.Or(p.Eq(r, p.Int(0)), p.Ge(r, al)))
	case "load":
		v := e.eval(a[0])
		h := x.heap(e.st, atomHeap(v.Ty), ArrSort("Int", atomSort(v.Ty)))
		return e.retype(SVal{T: x.sel(h, v.T)})
	case "sent":
		// how many values this goroutine sent on a channel
		v := e.eval(a[0])
		return SVal{T: x.sel(x.heap(e.st, "CH!sent", ArrSort("Int", "Int")), v.T), Ty: tInt}
	case "closed":
		v := e.eval(a[0])
		h := x.heap(e.st, "CH!closed", ArrSort("Int", "Bool"))
		return b(x.sel(h, v.T))
	case "sliceEq":
		u, v := e.eval(a[0]), e.eval(a[1])
		el := u.Ty.Underlying().(*types.Slice).Elem()
		q := x.bv("Int")
		l := x.elemGet(e.st, el, x.sBase(u.T), p.Add(x.sOff(u.T), q))
		r := x.elemGet(e.st, el, x.sBase(v.T), p.Add(x.sOff(v.T), q))
		return b(p.And(p.Eq(x.sLen(u.T), x.sLen(v.T)), x.mkForall(q, p.And(p.Le(p.Int(0), q), p.Lt(q, x.sLen(u.T))), p.Eq(l, r), nil)))
	case "acc":
		// acc("type"[, n]): the loop-carried variable of that type
		if e.loop == nil {
			specErr("acc outside a loop")
		}
		ty := e.typeArg(a[0])
		want := 0
		if len(a) > 1 {
			want = int(e.Int(a[1]).num.Int64())
		}
		k := 0
		for _, in := range e.loop.lp.hdr.Instrs {
			ph, ok := in.(*ssa.Phi)
			if !ok {
				break
			}
			if ph.Comment == "rangeindex" || !types.Identical(ph.Type(), ty) {
				continue
			}
			if k == want {
				return SVal{T: e.loop.phis[ph].T, Ty: ty}
			}
			k++
		}
		for i, fr := range e.loop.frames() {
			moved := len(e.loop.up) > 0 && i < len(e.loop.up)
			// otherwise a variable of an earlier loop of the same function, at its current value
			for _, b := range fr.fn.Blocks {
				for _, in := range b.Instrs {
					ph, ok := in.(*ssa.Phi)
					if !ok {
						break
					}
					if b == e.loop.lp.hdr || ph.Comment == "rangeindex" || !types.Identical(ph.Type(), ty) {
						continue
					}
					vv, ok := e.st.env[fr.fid][ph]
					if !ok {
						continue
					}
					if k == want {
						return SVal{T: x.term(e.st, vv, ty), Ty: ty}
					}
					k++
				}
			}
			for _, pr := range fr.fn.Params {
				if !moved || !types.Identical(pr.Type(), ty) {
					continue
				}
				if vv, ok := e.st.env[fr.fid][pr]; ok {
					if k == want {
						return SVal{T: x.term(e.st, vv, ty), Ty: ty}
					}
					k++
				}
			}
			// or a variable kept in memory (captured by a closure, or of struct type)
			for _, b := range fr.fn.Blocks {
				for _, in := range b.Instrs {
					al, ok := in.(*ssa.Alloc)
					if !ok || al.Comment == "" || al.Comment == "complit" || !types.Identical(deref(al.Type()), ty) {
						continue
					}
					vv, ok := e.st.env[fr.fid][al]
					if !ok || vv.A == nil && vv.T == nil {
						continue
					}
					if k == want && vv.A == nil {
						// a struct: its reference, whose fields are read in the current heap
						return SVal{T: vv.T, Ty: al.Type()}
					}
					if k == want {
						return SVal{T: x.term(e.st, x.load(e.st, vv.A), ty), Ty: ty}
					}
					k++
				}
			}
		}
		specErr("no loop variable of type %s", ty)
	case "res":
		// res("pkg.F"[, k]): the k-th result of the call of F made before the loop
		if e.loop == nil {
			specErr("res outside a loop")
		}
		key := ""
		if l, ok := a[0].(*ast.BasicLit); ok {
			key, _ = strconv.Unquote(l.Value)
		}
		for _, fr := range e.loop.frames() {
			for _, b := range fr.fn.Blocks {
				for _, in := range b.Instrs {
					c, ok := in.(*ssa.Call)
					if !ok || c.Call.StaticCallee() == nil || funcKey(c.Call.StaticCallee()) != key {
						continue
					}
					vv, ok := e.st.env[fr.fid][c]
					if !ok {
						continue
					}
					if tu, ok := c.Type().(*types.Tuple); ok {
						k := 0
						if len(a) > 1 {
							k = int(e.Int(a[1]).num.Int64())
						}
						return SVal{T: x.term(e.st, vv.Tup[k], tu.At(k).Type()), Ty: tu.At(k).Type()}
					}
					return SVal{T: x.term(e.st, vv, c.Type()), Ty: c.Type()}
				}
			}
		}
		specErr("no call of %s before the loop", key)
	case "mk":
		// mk("type"[, n]): the n-th map, slice or channel made by this function
		if e.loop == nil {
			specErr("mk outside a loop")
		}
		ty := e.typeArg(a[0])
		want := 0
		if len(a) > 1 {
			want = int(e.Int(a[1]).num.Int64())
		}
		k := 0
		for _, fr := range e.loop.frames() {
			for _, b := range fr.fn.Blocks {
				for _, in := range b.Instrs {
					var v ssa.Value
					switch in := in.(type) {
					case *ssa.MakeMap:
						v = in
					case *ssa.MakeSlice:
						v = in
					case *ssa.MakeChan:
						v = in
					case *ssa.Slice:
						// make([]T, constant) is a slice of a new array
						if a, ok := in.X.(*ssa.Alloc); !ok || a.Comment != "makeslice" {
							continue
						}
						v = in
					default:
						continue
					}
					if !types.Identical(v.Type(), ty) {
						continue
					}
					if k == want {
						vv, ok := e.st.env[fr.fid][v]
						if !ok {
							specErr("mk: value of type %s not computed yet", ty)
						}
						return SVal{T: x.term(e.st, vv, ty), Ty: ty}
					}
					k++
				}
			}
		}
		specErr("nothing of type %s is made here", ty)
	case "rangekeys":
		// the set of keys already visited by the map range of this loop
		if e.loop == nil {
			specErr("rangekeys outside a loop")
		}
		for _, in := range e.loop.lp.hdr.Instrs {
			if nx, ok := in.(*ssa.Next); ok && !nx.IsString {
				it := x.val(e.st, e.loop.fid, nx.Iter)
				return SVal{T: e.st.cells[it.A.Cell].T}
			}
		}
		specErr("loop is not a map range")
	case "iterof":
		// iterof(n): how many iterations of the enclosing loop n are complete
		need(1)
		if e.loop == nil {
			specErr("iterof outside a loop")
		}
		for _, fr := range e.loop.frames() {
			for _, lp := range x.V.loops(fr.fn) {
				n := lp.index
				if con, m, _ := x.loopOwner(fr.fn, lp.index); con != nil {
					n = m
				}
				if strconv.Itoa(n) == exprStr(a[0]) {
					if ls := e.st.loops[loopKey{fr.fid, lp.hdr}]; ls != nil {
						return SVal{T: ls.iter, Ty: tInt}
					}
				}
			}
		}
		specErr("no enclosing loop %s", exprStr(a[0]))
	case "rangepos":
		for _, in := range e.loop.lp.hdr.Instrs {
			if nx, ok := in.(*ssa.Next); ok && nx.IsString {
				it := x.val(e.st, e.loop.fid, nx.Iter)
				return SVal{T: e.st.cells[it.A.Cell].T, Ty: tInt}
			}
		}
		specErr("loop is not a string range")
	case "pow2":
		v := e.Int(a[0])
		if v.num == nil {
			specErr("pow2 of symbolic value")
		}
		return SVal{T: p.Big(big2(uint(v.num.Uint64()))), Ty: tInt}
	case "entry":
		// value of an expression at loop entry
		if e.loop == nil {
			specErr("entry outside loop")
		}
		n := *e
		n.st = e.loop.cr.entry
		le := *e.loop
		le.phis = e.loop.cr.entPhi
		n.loop = &le
		return n.eval(a[0])
	case "min", "max":
		u, v := e.Int(a[0]), e.Int(a[1])
		if id.Name == "min" {
			return SVal{T: p.Ite(p.Le(u, v), u, v), Ty: tInt}
		}
		return SVal{T: p.Ite(p.Le(u, v), v, u), Ty: tInt}
	case "store":
		u, k, v := e.eval(a[0]), e.eval(a[1]), e.eval(a[2])
		return SVal{T: p.Store(u.T, k.T, v.T), Ty: u.Ty}
	case "raw":
		// raw("op", "Sort", args...): an uninterpreted function of the execution model
		need(2)
		str := func(n ast.Expr) string { s, _ := strconv.Unquote(n.(*ast.BasicLit).Value); return s }
		var as []*Term
		for _, y := range a[2:] {
			as = append(as, e.eval(y).T)
		}
		return e.retype(SVal{T: p.Fun(str(a[0]), str(a[1]), as...)})
	case "flt":
		s, _ := strconv.Unquote(a[0].(*ast.BasicLit).Value)
		return SVal{T: x.fltConst(constant.ToFloat(constant.MakeFromLiteral(s, token.FLOAT, 0)).ExactString())}
	case "call":
		// call("pkg.F", args...): what the code of a function of the repository computes (one path, no effects)
		key, _ := strconv.Unquote(a[0].(*ast.BasicLit).Value)
		fn := x.V.Funcs[key]
		if fn == nil {
			specErr("no function %s", key)
		}
		var args []Val
		for _, q := range a[1:] {
			args = append(args, Val{T: e.eval(q).T})
		}
		for i := range args {
			if args[i].T.num != nil && fn.Params[i].Type().Underlying() == nil {
				specErr("bad argument")
			}
		}
		n := 0
		var out *Term
		x.quiet++
		x.V.noteInline(x, fn)
		x.callFn(e.st.clone(), fn, args, nil, K{ret: func(s *State, r []Val) {
			n++
			out = r[0].T
		}, pan: func(*State, Val) { n++ }})
		x.quiet--
		if n != 1 || out == nil {
			specErr("function %s has more than one path", key)
		}
		return SVal{T: out, Ty: fn.Signature.Results().At(0).Type()}
	case "errOf", "isErr":
		return b(p.Not(p.Eq(e.eval(a[0]).T, x.anyNil())))
	case "frozen":
		// argument of make-frozen lemma
		return b(p.tru)
	}
	if m, ok := x.V.Spec.Macros[id.Name]; ok {
		if len(m.Params) != len(a) {
			specErr("macro %s takes %d arguments", id.Name, len(m.Params))
		}
		vars := map[string]SVal{}
		for i, pn := range m.Params {
			vars[pn] = e.eval(a[i])
		}
		return e.sub(vars).eval(m.E)
	}
	if f, ok := x.V.Spec.Funs[id.Name]; ok {
		var as []*Term
		for i, s := range f.Args {
			need(len(f.Args))
			so, ty := x.ghostSort(s)
			v := e.eval(a[i])
			if v.T == nil {
				if v.V.F != nil || v.V.A != nil {
					v.T = x.term(e.st, v.V, v.Ty)
				} else {
					v, _ = e.coerce(v, SVal{T: x.P.Const("nilof!"+so, so), Ty: ty})
				}
			}
			if so == "Any" && v.T.Sort != "Any" {
				v = SVal{T: x.Box(defTy(v.Ty), v.T)}
			}
			if v.T.Sort != so {
				specErr("argument %d of %s: sort %s, want %s", i, id.Name, v.T.Sort, so)
			}
			as = append(as, v.T)
		}
		rs, rt := x.ghostSort(f.Ret)
		t := p.Fun("spec!"+f.Name, rs, as...)
		return SVal{T: t, Ty: rt}
	}
	if id.Name == "mapdom" || id.Name == "mapval" {
		// the key set, the values of a map, as mathematical arrays
		v := e.eval(a[0])
		m := v.Ty.Underlying().(*types.Map)
		k := "MD"
		if id.Name == "mapval" {
			k = "MV"
		}
		n, so := x.mapHeap(k, m)
		return SVal{T: x.refRow(e.st, n, so, v.T)}
	}
	if id.Name == "fieldmap" {
		// one field of every object, as an array: fieldmap("pkg.T.f")
		nm := strings.Trim(exprStr(a[0]), "\"")
		j := strings.LastIndex(nm, ".")
		ty := x.V.lookupType(nm[:j])
		s := ty.Underlying().(*types.Struct)
		for i := 0; i < s.NumFields(); i++ {
			if s.Field(i).Name() == nm[j+1:] {
				return SVal{T: x.heap(e.st, x.fieldHeapName(ty, i), x.fieldHeapSort(ty, i))}
			}
		}
		specErr("no field %s", nm)
	}
	if id.Name == "row" {
		// content array of a slice's backing store
		v := e.eval(a[0])
		el := v.Ty.Underlying().(*types.Slice).Elem()
		return SVal{T: x.rowOf(e.st, el, x.sBase(v.T))}
	}
	if id.Name == "elem" {
		// element at an absolute position of a slice's backing store
		v := e.eval(a[0])
		el := v.Ty.Underlying().(*types.Slice).Elem()
		return SVal{T: x.elemGet(e.st, el, x.sBase(v.T), e.Int(a[1])), Ty: el}
	}
	specErr("unknown function %s", id.Name)
	return SVal{}
}

// mkForall builds a quantified range formula with array-friendly triggers.
func (x *Exec) mkForall(q, guard, body *Term, trig []*Term) *Term {
	p := x.P
	if body == p.tru {
		return p.tru
	}
	var alts []*Term
	if len(trig) == 0 {
		// select(row, off+q) with a non-bound offset: quantify over the position, once per
		// distinct offset (the variants are equivalent; only their triggers differ)
		var offs []*Term
		seen := map[*Term]bool{}
		plain := false
		var walk func(t *Term)
		walk = func(t *Term) {
			if !t.bound || seen[t] {
				return
			}
			seen[t] = true
			if t.Op == "select" || t.Op == "sat" {
				ix := t.Args[1]
				if ix == q {
					plain = true
				} else if ix.Op == "+" && len(ix.Args) == 2 {
					o := (*Term)(nil)
					if ix.Args[1] == q && !ix.Args[0].bound {
						o = ix.Args[0]
					} else if ix.Args[0] == q && !ix.Args[1].bound {
						o = ix.Args[1]
					}
					if o != nil && o.num == nil {
						dup := false
						for _, e := range offs {
							dup = dup || e == o
						}
						if !dup {
							offs = append(offs, o)
						}
					}
				}
			}
			for _, a := range t.Args {
				walk(a)
			}
		}
		walk(body)
		shift := func(o *Term) *Term {
			q2 := x.bv("Int")
			m := map[*Term]*Term{q: p.Sub(q2, o)}
			g2, b2 := p.Subst(guard, m), p.Subst(body, m)
			return p.Forall([]*Term{q2}, p.Implies(g2, b2), x.findTrig(q2, b2)...)
		}
		if len(offs) > 4 {
			offs = offs[:4]
		}
		for _, o := range offs {
			alts = append(alts, shift(o))
		}
		if !plain && len(alts) > 0 {
			if len(alts) > 1 {
				x.altForall[alts[0]] = alts[1:]
			}
			return alts[0]
		}
		trig = x.findTrig(q, body)
	}
	r := p.Forall([]*Term{q}, p.Implies(guard, body), trig...)
	if len(alts) > 0 {
		x.altForall[r] = alts
	}
	return r
}

// withAlts conjoins to every range formula its equivalent variants (more triggers).
func (x *Exec) withAlts(t *Term) *Term {
	if len(x.altForall) == 0 {
		return t
	}
	var walk func(t *Term) *Term
	walk = func(t *Term) *Term {
		if t.Sort != "Bool" && !t.bound {
			return t
		}
		if r, ok := x.altMemo[t]; ok {
			return r
		}
		r := t
		if alts, ok := x.altForall[t]; ok {
			r = x.P.And(append([]*Term{t}, alts...)...)
		} else if t.Sort == "Bool" && len(t.Args) > 0 {
			switch t.Op {
			case "and", "or", "not", "=>", "ite", "=":
				as := make([]*Term, len(t.Args))
				ch := false
				for i, a := range t.Args {
					as[i] = walk(a)
					ch = ch || as[i] != a
				}
				if ch {
					r = x.P.rebuild(t, as)
				}
			default:
				if t.Vars != nil {
					b := walk(t.Args[0])
					if b != t.Args[0] {
						if strings.HasPrefix(t.Op, "forall") {
							r = x.P.Forall(t.Vars, b, t.Args[1:]...)
						} else {
							r = x.P.Exists(t.Vars, b)
						}
					}
				}
			}
		}
		x.altMemo[t] = r
		return r
	}
	return walk(t)
}

// findTrig picks single-term triggers: applications directly over the bound variable.
func (x *Exec) findTrig(q, body *Term) []*Term {
	var out []*Term
	seen := map[*Term]bool{}
	isApp := func(t *Term) bool {
		switch t.Op {
		case "select", "sat":
			return true
		}
		_, ok := x.P.sigs[t.Op]
		return ok || strings.HasPrefix(t.Op, "unbox!") || strings.HasPrefix(t.Op, "box!")
	}
	inner := map[*Term]bool{}
	var mentions func(t *Term) bool
	mentions = func(t *Term) bool {
		if !t.bound {
			return false
		}
		if inner[t] {
			return true
		}
		for _, a := range t.Args {
			if mentions(a) {
				return true
			}
		}
		return false
	}
	var walk func(t *Term)
	walk = func(t *Term) {
		if !t.bound || seen[t] {
			return
		}
		seen[t] = true
		if t.Vars != nil {
			for _, v := range t.Vars {
				inner[v] = true
			}
			walk(t.Args[0])
			return
		}
		if isApp(t) {
			for _, a := range t.Args {
				if a == q {
					ok := true
					for _, b := range t.Args {
						if b != q && b.bound && !patternOK(b) {
							ok = false
						}
					}
					if ok && len(inner) > 0 && mentions(t) {
						ok = false
					}
					if ok {
						out = append(out, t)
						return
					}
				}
			}
		}
		for _, a := range t.Args {
			walk(a)
		}
	}
	walk(body)
	if len(out) > 4 {
		out = out[:4]
	}
	return out
}

func patternOK(t *Term) bool {
	switch t.Op {
	case "+", "-", "*", "div", "mod", "ite", "and", "or", "not", "=", "<=", "<", "=>":
		return false
	}
	for _, a := range t.Args {
		if !patternOK(a) {
			return false
		}
	}
	return true
}
