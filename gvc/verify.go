package main

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const modPath = "github.com/younglifestyle/secs4go"

type Verifier struct {
	Prog    *ssa.Program
	Pkgs    []*packages.Package
	SPkgs   []*ssa.Package
	Spec    *Spec
	Funcs   map[string]*ssa.Function
	anyType types.Type

	FeasMs   int
	Sem      chan struct{}
	CandMs   int
	QuickMs  int
	LongMs   int
	MaxPaths int
	MaxFail  int
	Deadline time.Time
	Debug    int
	WorkDir  string

	globalMutated map[*ssa.Global]bool
	globalStores  map[*ssa.Global][]ssa.Value
	globalErr     map[*ssa.Global]bool

	mu      sync.Mutex
	loopMem map[*ssa.Function]map[*ssa.BasicBlock]*Loop
	recMem  map[*ssa.Function]bool
	tyMem   map[string]types.Type
	keyTy   map[string]types.Type
	ssaMu   sync.Mutex
	inlined map[string]bool
}

// LoadProgram loads the packages of repo, with the Go files below clients (if any) added to the packages of the same
// directories: programs over the real code whose contracts are proved from the contracts of what they call.
func LoadProgram(repo, clients string) (*Verifier, error) {
	overlay := map[string][]byte{}
	filepath.WalkDir(clients, func(f string, d os.DirEntry, err error) error {
		if err == nil && strings.HasSuffix(f, ".go") {
			if src, err := os.ReadFile(f); err == nil {
				rel, _ := filepath.Rel(clients, f)
				overlay[filepath.Join(repo, rel)] = src
			}
		}
		return nil
	})
	cfg := &packages.Config{Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports | packages.NeedTypes | packages.NeedTypesSizes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedExportFile, Dir: repo, Overlay: overlay}
	ps, err := packages.Load(cfg, "./", "./codec", "./common", "./utils", "./hsms", "./gem", "./lib-secs2-hsms-go/pkg/ast", "./lib-secs2-hsms-go/pkg/parser/hsms")
	if err != nil {
		return nil, err
	}
	for _, p := range ps {
		if len(p.Errors) > 0 {
			return nil, fmt.Errorf("%v", p.Errors[0])
		}
	}
	prog, pk := ssautil.Packages(ps, ssa.GlobalDebug|ssa.InstantiateGenerics)
	v := &Verifier{Prog: prog, Pkgs: ps, SPkgs: pk, Funcs: map[string]*ssa.Function{}, FeasMs: 400, CandMs: 1200, QuickMs: 3000, LongMs: 15000, MaxFail: 4, MaxPaths: 6000,
		globalMutated: map[*ssa.Global]bool{}, globalStores: map[*ssa.Global][]ssa.Value{}, globalErr: map[*ssa.Global]bool{}, loopMem: map[*ssa.Function]map[*ssa.BasicBlock]*Loop{}, recMem: map[*ssa.Function]bool{},
		tyMem: map[string]types.Type{}, keyTy: map[string]types.Type{}, inlined: map[string]bool{}}
	v.anyType = types.NewInterfaceType(nil, nil)
	for _, p := range pk {
		if p == nil {
			return nil, fmt.Errorf("package without SSA")
		}
		p.Build()
	}
	for fn := range ssautil.AllFunctions(prog) {
		if fn.Pkg == nil && fn.Parent() == nil {
			continue
		}
		k := funcKey(fn)
		if fn.Synthetic != "" && fn.Parent() == nil && fn.Name() != "init" {
			continue
		}
		v.Funcs[k] = fn
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if s, ok := in.(*ssa.Store); ok {
					if g, ok := s.Addr.(*ssa.Global); ok {
						if fn.Name() == "init" {
							v.globalStores[g] = append(v.globalStores[g], s.Val)
							if c, ok := s.Val.(*ssa.Call); ok {
								if f := c.Call.StaticCallee(); f != nil && (f.String() == "errors.New" || f.String() == "fmt.Errorf") {
									v.globalErr[g] = true
								}
							}
						} else {
							v.globalMutated[g] = true
						}
						continue
					}
				}
				for _, op := range in.Operands(nil) {
					if g, ok := (*op).(*ssa.Global); ok {
						switch u := in.(type) {
						case *ssa.UnOp:
						case *ssa.Store:
							if u.Val == ssa.Value(g) {
								v.globalMutated[g] = true
							}
						case *ssa.DebugRef:
						default:
							v.globalMutated[g] = true
						}
					}
				}
			}
		}
	}
	// methods reachable only by name
	for _, p := range pk {
		for _, m := range p.Members {
			if t, ok := m.(*ssa.Type); ok {
				for _, ty := range []types.Type{t.Type(), types.NewPointer(t.Type())} {
					ms := prog.MethodSets.MethodSet(ty)
					for i := 0; i < ms.Len(); i++ {
						f := prog.MethodValue(ms.At(i))
						if f != nil && f.Synthetic == "" {
							v.Funcs[funcKey(f)] = f
						}
					}
				}
			}
		}
	}
	return v, nil
}

func (v *Verifier) noteInline(x *Exec, fn *ssa.Function) {
	v.mu.Lock()
	v.inlined[funcKey(fn)] = true
	v.mu.Unlock()
}

func (v *Verifier) loops(fn *ssa.Function) map[*ssa.BasicBlock]*Loop {
	v.mu.Lock()
	defer v.mu.Unlock()
	l, ok := v.loopMem[fn]
	if !ok {
		l = findLoops(fn)
		v.loopMem[fn] = l
	}
	return l
}

func (v *Verifier) recovers(fn *ssa.Function) bool {
	v.mu.Lock()
	defer v.mu.Unlock()
	if r, ok := v.recMem[fn]; ok {
		return r
	}
	r := false
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if d, ok := in.(*ssa.Defer); ok {
				if f := d.Call.StaticCallee(); f != nil {
					for _, b2 := range f.Blocks {
						for _, i2 := range b2.Instrs {
							if c, ok := i2.(*ssa.Call); ok {
								if bi, ok := c.Call.Value.(*ssa.Builtin); ok && bi.Name() == "recover" {
									r = true
								}
							}
						}
					}
				}
			}
		}
	}
	v.recMem[fn] = r
	return r
}

func (v *Verifier) pkgByKey(k string) *types.Package {
	for _, p := range v.SPkgs {
		if pkgKey(p.Pkg) == k {
			return p.Pkg
		}
	}
	for _, p := range v.SPkgs {
		for _, i := range p.Pkg.Imports() {
			if i.Name() == k && !strings.HasPrefix(i.Path(), modPath) {
				return i
			}
		}
	}
	return nil
}

func (v *Verifier) pkgOf(t types.Type) *types.Package {
	if n, ok := deref(t).(*types.Named); ok {
		return n.Obj().Pkg()
	}
	return nil
}

func (v *Verifier) global(o *types.Var) *ssa.Global {
	for _, p := range v.SPkgs {
		if p.Pkg == o.Pkg() {
			return p.Var(o.Name())
		}
	}
	return nil
}

func (v *Verifier) lookupType(name string) types.Type {
	v.mu.Lock()
	defer v.mu.Unlock()
	return v.lookupType0(name)
}

func (v *Verifier) lookupType0(name string) types.Type {
	if t, ok := v.tyMem[name]; ok {
		return t
	}
	var t types.Type
	switch {
	case strings.HasPrefix(name, "*"):
		t = types.NewPointer(v.lookupType0(name[1:]))
	case strings.HasPrefix(name, "[]"):
		t = types.NewSlice(v.lookupType0(name[2:]))
	case strings.HasPrefix(name, "chan "):
		t = types.NewChan(types.SendRecv, v.lookupType0(name[5:]))
	case strings.HasPrefix(name, "map["):
		j := strings.Index(name, "]")
		t = types.NewMap(v.lookupType0(name[4:j]), v.lookupType0(name[j+1:]))
	case name == "any" || name == "interface{}" || name == "Any":
		t = v.anyType
	case name == "error":
		t = types.Universe.Lookup("error").Type()
	case name == "byte":
		t = types.Universe.Lookup("byte").Type()
	case name == "struct{}":
		t = types.NewStruct(nil, nil)
	default:
		if o := types.Universe.Lookup(name); o != nil {
			t = o.Type()
			break
		}
		f := strings.SplitN(name, ".", 2)
		if len(f) == 2 {
			if p := v.pkgByKey(f[0]); p != nil {
				if o := p.Scope().Lookup(f[1]); o != nil {
					t = o.Type()
				}
			}
		}
	}
	if t == nil {
		panic(&Unsupported{"unknown type in specification: " + name})
	}
	v.tyMem[name] = t
	return t
}

func (v *Verifier) typeByKey(k string) types.Type {
	v.mu.Lock()
	defer v.mu.Unlock()
	return v.keyTy[k]
}

func (v *Verifier) regType(k string, t types.Type) {
	v.mu.Lock()
	defer v.mu.Unlock()
	v.keyTy[k] = t
}

func (v *Verifier) method(t types.Type, m *types.Func) *ssa.Function {
	v.ssaMu.Lock()
	defer v.ssaMu.Unlock()
	f := v.Prog.LookupMethod(t, m.Pkg(), m.Name())
	if f == nil {
		return nil
	}
	if f.Synthetic != "" && f.Object() != nil {
		// promoted / pointer wrappers keep their synthetic body; value-receiver wrappers resolve to the declared method when receivers agree
		return f
	}
	return f
}

func (v *Verifier) boundTarget(fn *ssa.Function) *ssa.Function { return nil }

// function verification --------------------------------------------------------

type FuncResult struct {
	Key       string
	Obls      []*Oblig
	Failed    []*Oblig
	Unsup     string
	Trust     []string
	Used      []string
	Ends      int
	Paths     int
	Queries   int
	SolverSec float64
	Wall      float64
	Proved    int
	Backends  map[string]int
	Pos       string
}

type abortFn struct{}

func (v *Verifier) newExec(con *Contract, fn *ssa.Function) *Exec {
	p := NewPool()
	x := &Exec{V: v, P: p, Con: con, Fn: fn, sortMemo: map[types.Type]string{}, sortDecl: map[string]bool{}, strs: map[string]*Term{}, strOf: map[*Term]string{}, typeIDs: map[string]int{},
		ranges: nil, cellT: map[int]types.Type{}, cache: map[string]*cutRec{}, Trust: map[string]bool{}, Used: map[string]bool{}, skipFail: map[string]bool{}, specNeed: map[string]bool{}, hbase: map[string]*Term{}, defMap: map[*Term]*Term{},
		freshRef: map[*Term]bool{}, immSeen: map[*Term]bool{}, immOwner: map[*Term]*types.Named{}, closures: map[*Term]*Closure{}, addrs: map[*Term]*Addr{}, frameFn: map[int]*ssa.Function{}, altForall: map[*Term][]*Term{}, altMemo: map[*Term]*Term{}}
	x.ranges = newRanges()
	x.C = NewCtx(p, basePrelude)
	return x
}

func (v *Verifier) VerifyFunc(con *Contract) (fr *FuncResult) {
	t0 := time.Now()
	fr = &FuncResult{Key: con.Key, Backends: map[string]int{}}
	fn := v.Funcs[con.Key]
	if fn == nil {
		fr.Unsup = "function " + con.Key + " does not exist in the current source"
		return
	}
	fr.Pos = v.pos(fn.Pos())
	cases := v.cases(con)
	var mu sync.Mutex
	var wg sync.WaitGroup
	stop := false
	for _, cs := range cases {
		cs := cs
		wg.Add(1)
		v.Sem <- struct{}{}
		go func() {
			defer wg.Done()
			defer func() { <-v.Sem }()
			mu.Lock()
			quit := stop
			mu.Unlock()
			if quit {
				return
			}
			x := v.newExec(con, fn)
			for _, c := range cs {
				x.caseName += c[0] + "=" + c[1] + " "
			}
			fc := &FuncResult{}
			v.runCase(x, con, fn, cs, fc)
			x.C.Close()
			mu.Lock()
			defer mu.Unlock()
			if fc.Unsup != "" && fr.Unsup == "" {
				fr.Unsup = fc.Unsup
			}
			fr.Queries += x.C.Queries
			fr.SolverSec += x.C.SolverSec
			fr.Ends += x.ends
			fr.Paths += x.paths
			for _, o := range x.Obls {
				if x.caseName != "" {
					o.Name += " [" + strings.TrimSpace(x.caseName) + "]"
				}
				fr.Obls = append(fr.Obls, o)
				if o.OK {
					fr.Proved++
					fr.Backends[o.Backend]++
				} else {
					fr.Failed = append(fr.Failed, o)
				}
			}
			for t := range x.Trust {
				if !contains(fr.Trust, t) {
					fr.Trust = append(fr.Trust, t)
				}
			}
			for t := range x.Used {
				if !contains(fr.Used, t) {
					fr.Used = append(fr.Used, t)
				}
			}
			if fr.Unsup != "" || len(fr.Failed) > 6 {
				stop = true
			}
		}()
	}
	wg.Wait()
	sort.Slice(fr.Failed, func(i, j int) bool { return fr.Failed[i].Name < fr.Failed[j].Name })
	if fr.Unsup == "" && fr.Ends == 0 {
		fr.Unsup = "no execution of the function reaches an end: the contract's preconditions or assumptions are contradictory"
	}
	sort.Strings(fr.Trust)
	sort.Strings(fr.Used)
	fr.Wall = time.Since(t0).Seconds()
	return
}

func (v *Verifier) cases(con *Contract) [][][2]string {
	res := [][][2]string{nil}
	for _, s := range con.Splits {
		var nr [][][2]string
		for _, r := range res {
			for _, val := range s.Vals {
				nr = append(nr, append(append([][2]string{}, r...), [2]string{s.Param, val}))
			}
		}
		res = nr
	}
	return res
}

func (v *Verifier) pos(p token.Pos) string {
	if !p.IsValid() {
		return ""
	}
	ps := v.Prog.Fset.Position(p)
	f := ps.Filename
	if r, err := filepath.Rel("/repo", f); err == nil && !strings.HasPrefix(r, "..") {
		f = r
	}
	return fmt.Sprintf("%s:%d", f, ps.Line)
}

func (v *Verifier) runCase(x *Exec, con *Contract, fn *ssa.Function, cs [][2]string, fr *FuncResult) {
	defer func() {
		if r := recover(); r != nil {
			switch u := r.(type) {
			case *Unsupported:
				fr.Unsup = u.Msg
				if x.cur != nil {
					fr.Unsup += " at " + v.pos(x.cur.Pos())
				}
			case *abortFn:
			default:
				fr.Unsup = fmt.Sprint("internal error: ", r)
				if v.Debug > 0 {
					debug.PrintStack()
				}
			}
		}
	}()
	p := x.P
	st := &State{heaps: map[string]*Term{}, cells: map[int]Val{}, glob: map[*ssa.Global]Val{}, ghost: map[string]*Term{}, env: map[int]map[ssa.Value]Val{}, defers: map[int][]deferred{}, fresh: map[*Term]map[int]Val{},
		known: map[*Term]*Term{}, loops: map[loopKey]*loopSt{}, held: map[string]heldLock{}, owned: map[*Term]bool{}, snaps: map[string]*State{}}
	x.alloc0 = p.Const("alloc0", "Int")
	st.alloc = x.alloc0
	x.assume(p.Ge(x.alloc0, p.Int(1)))
	for g, so := range v.Spec.Ghosts {
		x.ghostVal(st, g, so)
	}
	for _, l := range v.Spec.Prelude {
		x.C.emit(l)
	}
	var args []Val
	for i, pa := range fn.Params {
		nm := fmt.Sprintf("p%d", i)
		if i < len(con.Params) {
			nm = con.Params[i]
		}
		t := p.Const("arg!"+nm, x.Sort(pa.Type()))
		x.typeFacts(st, t, pa.Type(), 0)
		args = append(args, Val{T: t})
	}
	var bind []Val
	for i, fv := range fn.FreeVars {
		// free variables of a closure verified on its own: captured by reference
		et := deref(fv.Type())
		c := p.Const(fmt.Sprintf("free!%s", fv.Name()), x.Sort(et))
		_ = i
		x.typeFacts(st, c, et, 0)
		if _, isP := fv.Type().Underlying().(*types.Pointer); isP && x.capturedByRef(fn, fv) {
			bind = append(bind, Val{A: x.newCell(st, et, Val{T: c})})
		} else {
			c2 := p.Const(fmt.Sprintf("freev!%s", fv.Name()), x.Sort(fv.Type()))
			x.typeFacts(st, c2, fv.Type(), 0)
			bind = append(bind, Val{T: c2})
		}
	}
	vars := x.bindParams(con, fn.Signature, args, false, st)
	for i, fv := range fn.FreeVars {
		if _, dup := vars[fv.Name()]; !dup {
			vars[fv.Name()] = SVal{T: bind[i].T, Ty: fv.Type(), V: bind[i]}
		}
	}
	for _, g := range con.Ghosts {
		so, ty := x.ghostSort(g.Type)
		t := p.Const("gh!"+g.Name, so)
		if ty != nil {
			x.typeFacts(st, t, ty, 0)
		}
		vars[g.Name] = SVal{T: t, Ty: ty}
	}
	// pointer receivers are non-nil (callers prove it)
	if rv := fn.Signature.Recv(); rv != nil {
		if _, isP := rv.Type().Underlying().(*types.Pointer); isP {
			x.assume(p.Not(p.Eq(args[0].T, p.Int(0))))
		}
	}
	pk := x.specPkg(con, fn)
	x.axioms(st, pk)
	env0 := &SEnv{x: x, st: st, old: st, vars: vars, pkg: pk}
	for _, c := range cs {
		val := c[1]
		if val == "" {
			continue
		}
		pe := env0.evalSrc(c[0])
		if strings.HasPrefix(val, "*") {
			x.assume(x.TagIs(pe.T, v.lookupType(val)))
			continue
		}
		if val == "else" {
			for _, s := range con.Splits {
				if s.Param == c[0] {
					for _, o := range s.Vals {
						if o != "else" {
							ov := env0.evalSrc(o)
							ov, _ = env0.coerce(ov, pe)
							x.assume(p.Not(p.Eq(pe.T, ov.T)))
						}
					}
				}
			}
			continue
		}
		ve := env0.evalSrc(val)
		ve, _ = env0.coerce(ve, pe)
		x.assume(p.Eq(pe.T, ve.T))
		st.known[pe.T] = ve.T
	}
	for _, r := range con.Req {
		t := env0.Bool(r.E)
		x.assume(t)
		x.learnEq(st, t)
		x.learnRange(t)
	}
	x.lockedIn = nil
	for _, l := range con.Locked {
		mon := v.monitor(l.Mu)
		obj := x.fresh("lockowner", "Int")
		if l.C != nil {
			obj = env0.eval(l.C.E).T
		}
		k := l.Mu + "@" + obj.String()
		st.held[k] = heldLock{2, mon, obj}
		x.lockedIn = append(x.lockedIn, k)
	}
	var ifc *Contract
	ifvars := map[string]SVal{}
	if con.Impl != "" {
		ifc = v.Spec.Contracts[con.Impl]
		if ifc == nil {
			specErr("no interface contract %s", con.Impl)
		}
		for i, n := range ifc.Params {
			a := SVal{T: args[i].T, Ty: fn.Params[i].Type()}
			if i == 0 {
				a = SVal{T: x.Box(fn.Params[0].Type(), args[0].T), Ty: x.V.anyType}
			}
			ifvars[n] = a
		}
		ie := &SEnv{x: x, st: st, old: st, vars: ifvars, pkg: pk}
		for _, r := range ifc.Req {
			x.assume(ie.Bool(r.E))
		}
	}
	x.params = vars
	x.frameCon, x.framePkg, x.frameTgts = con, pk, nil
	x.entry = st.clone()
	x.allowPan = con.PanMay || len(con.PanWhen) > 0
	for i, a := range args {
		if a.T != nil {
			if l, ok := st.known[a.T]; ok {
				args[i].T = l
			}
		}
	}
	if x.C.Check(v.QuickMs) == "unsat" {
		if len(cs) == 0 {
			panic(&Unsupported{"the precondition is contradictory"})
		}
		x.ends++
		return
	}
	x.C.Push()
	x.theorems(st, pk)
	x.ghostSet = x.runSets(st, con, &SEnv{x: x, st: x.entry, old: x.entry, vars: vars, pkg: pk})
	x.callFn(st, fn, args, bind, K{
		ret: func(st *State, res []Val) { x.atReturn(st, con, fn, res, vars, pk, ifc, ifvars) },
		pan: func(st *State, _ Val) { x.atPanic(st, con, vars, pk) },
	})
	x.C.Pop()
}

func (x *Exec) capturedByRef(fn *ssa.Function, fv *ssa.FreeVar) bool {
	// SSA captures variables by reference: the free variable is a pointer to the variable.
	return true
}

func (x *Exec) learnRange(t *Term) {
	if t.Op == "and" {
		for _, a := range t.Args {
			x.learnRange(a)
		}
		return
	}
	if t.Op == "<=" {
		a, b := t.Args[0], t.Args[1]
		if a.num != nil && b.num == nil {
			if r, ok := x.ranges[b]; ok && r[0].Cmp(a.num) < 0 {
				x.ranges[b] = mkRange(a.num, r[1])
			}
		}
		if b.num != nil && a.num == nil {
			if r, ok := x.ranges[a]; ok && r[1].Cmp(b.num) > 0 {
				x.ranges[a] = mkRange(r[0], b.num)
			}
		}
	}
}

// axiomTerm is the axiom as a formula; variables in fix have these values.
func (x *Exec) axiomTerm(st *State, pk *types.Package, ax *axiomDecl, fix map[string]*Term) *Term {
	p := x.P
	vars := map[string]SVal{}
	var qs []*Term
	for _, d := range ax.Vars {
		so, ty := x.ghostSort(d.Type)
		q := fix[d.Name]
		if q == nil {
			q = x.bv(so)
			qs = append(qs, q)
		}
		vars[d.Name] = SVal{T: q, Ty: ty}
	}
	e := &SEnv{x: x, st: st, old: st, vars: vars, pkg: pk}
	body := e.Bool(ax.E)
	if len(qs) == 0 {
		return body
	}
	var trig []*Term
	for _, t := range ax.Trig {
		trig = append(trig, e.eval(t).T)
	}
	if ax.Multi {
		trig = []*Term{p.mk("multi", "Bool", trig...)}
	}
	return p.Forall(qs, body, trig...)
}

// theorems proves the theorems of a contract.
func (x *Exec) theorems(st *State, pk *types.Package) {
	p := x.P
	for _, n := range x.Con.Proves {
		found := false
		for _, ax := range x.V.Spec.Axioms {
			if ax.Name != n || !ax.Theorem {
				continue
			}
			found = true
			fix := map[string]*Term{}
			for _, d := range ax.Vars {
				so, _ := x.ghostSort(d.Type)
				fix[d.Name] = x.fresh("thm", so)
			}
			x.C.Push()
			if only := os.Getenv("GVC_THM"); only != "" && !contains(strings.Split(only, ","), n) {
				x.Obls = append(x.Obls, &Oblig{Name: "theorem:" + n + ":skipped"}) // development only: never accepted
			} else if ax.Induct == "" {
				x.oblige(st, x.axiomTerm(st, pk, ax, fix), "theorem:"+n, ax.Src)
			} else {
				zero, step := map[string]*Term{}, map[string]*Term{}
				for k, t := range fix {
					zero[k], step[k] = t, t
				}
				k := fix[ax.Induct]
				step[ax.Induct] = p.Add(k, p.Int(1))
				x.oblige(st, p.Implies(p.Le(k, p.Int(0)), x.axiomTerm(st, pk, ax, zero)), "theorem:"+n+":base", ax.Src)
				hyp := x.axiomTerm(st, pk, ax, map[string]*Term{ax.Induct: k})
				x.oblige(st, p.Implies(p.And(p.Le(p.Int(0), k), hyp), x.axiomTerm(st, pk, ax, step)), "theorem:"+n+":step", ax.Src)
			}
			x.C.Pop()
			x.assume(x.axiomTerm(st, pk, ax, nil))
		}
		if !found {
			specErr("no theorem %s", n)
		}
	}
}

func (x *Exec) axioms(st *State, pk *types.Package) {
	p := x.P
	hide := false
	for _, ax := range x.V.Spec.Axioms {
		if ax.Theorem {
			hide = hide || contains(x.Con.Proves, ax.Name)
			if hide || ax.Helper {
				continue
			}
		}
		x.C.emitAssert(x.axiomTerm(st, pk, ax, nil))
	}
	for _, k := range sortedKeys(x.V.Spec.Invs) {
		ti := x.V.Spec.Invs[k]
		ty := x.V.lookupType(ti.Type)
		n, ok := ty.(*types.Named)
		if !ok || !x.isImmutable(n) {
			specErr("invariant of non-immutable type %s", k)
		}
		for _, c := range ti.Cl {
			q := x.bv("Int")
			e := &SEnv{x: x, st: st, old: st, vars: map[string]SVal{ti.Self: {T: q, Ty: types.NewPointer(ty)}}, pkg: x.V.pkgOf(ty)}
			body := e.Bool(c.E)
			trig := x.invTrig(q, body)
			if len(trig) == 0 {
				specErr("invariant of %s has no trigger: %s", k, c.Src)
			}
			x.C.emitAssert(p.Forall([]*Term{q}, body, trig...))
		}
	}
}

// invTrig: field functions applied directly to the object.
func (x *Exec) invTrig(q, body *Term) (out []*Term) {
	seen := map[*Term]bool{}
	var walk func(t *Term)
	walk = func(t *Term) {
		if !t.bound || seen[t] {
			return
		}
		seen[t] = true
		if strings.HasPrefix(t.Op, "f!") && len(t.Args) == 1 && t.Args[0] == q {
			out = append(out, t)
		}
		if strings.HasPrefix(t.Op, "spec!") && len(t.Args) == 1 && len(t.Args[0].Args) == 1 && t.Args[0].Args[0] == q {
			out = append(out, t)
		}
		for _, a := range t.Args {
			walk(a)
		}
	}
	walk(body)
	return
}

func effectObligation(name string) bool {
	for _, p := range []string{"frame:", "owned:", "immutable", "ensures:", "implements:", "loopinv-auto:"} {
		if strings.HasPrefix(name, p) {
			return true
		}
	}
	return false
}

func (x *Exec) oblige(st *State, goal *Term, name, what string) {
	x.inTime()
	if goal == x.P.tru {
		return
	}
	if x.quiet > 0 {
		x.assume(goal)
		return
	}
	if x.Con.RelyOn != "" && !effectObligation(name) {
		x.trust(fmt.Sprintf("functional contract of %s is relied on here and proved by the check of %s", x.Con.Key, x.Con.RelyOn))
		x.assume(goal)
		return
	}
	pos := ""
	if x.cur != nil {
		pos = x.V.pos(x.cur.Pos())
	}
	o := &Oblig{Name: x.Con.Key + "/" + name, Pos: pos, Goal: what}
	key := name + "@" + pos
	if x.skipFail[key] {
		x.assume(goal)
		return
	}
	if goal.Op == "and" {
		for _, g := range goal.Args {
			x.oblige(st, g, name, what)
		}
		return
	}
	x.Obls = append(x.Obls, o)
	t0 := time.Now()
	quick := x.V.QuickMs
	if strings.HasPrefix(name, "theorem:") {
		quick = 1500
	}
	r := x.C.Check(quick, x.P.Not(goal))
	o.Backend = "z3-new (incremental)"
	o.Res = r
	if r != "unsat" && x.splitGoal(goal) {
		o.Backend, o.Res, r = "z3-new (incremental, case split)", "unsat", "unsat"
	}
	if r != "unsat" {
		script := x.C.Script(x.P.Not(goal))
		r, who, _ := Portfolio(script, x.V.longMs(), x.V.WorkDir, fileSafe(fmt.Sprintf("%s-%s-%d", o.Name, x.caseName, len(x.Obls))))
		o.Backend, o.Res = who, r
		if r == "unsat" {
			o.OK = true
		} else {
			x.skipFail[key] = true
			o.Script = fileSafe(fmt.Sprintf("%s-%s-%d", o.Name, x.caseName, len(x.Obls))) + ".smt2"
			if x.V.Debug > 0 {
				fmt.Printf("  FAILED %s at %s: %s [%s]\n", o.Name, pos, what, r)
			}
		}
	} else {
		o.OK = true
	}
	o.Sec = time.Since(t0).Seconds()
	if os.Getenv("GVC_SLOWOBL") != "" && o.Sec > 1.2 {
		fmt.Printf("  SLOW %.1fs %s [%s] %s\n", o.Sec, o.Name, x.caseName, o.Backend)
	}
	if x.V.Debug > 2 {
		fmt.Printf("  obl %s %s %.2fs\n", o.Name, o.Res, o.Sec)
	}
	if !o.OK {
		n := 0
		for _, o := range x.Obls {
			if !o.OK {
				n++
			}
		}
		if n >= x.V.MaxFail {
			panic(&abortFn{})
		}
	}
	if goal != x.P.fal {
		x.assume(goal)
	} else if !o.OK {
		panic(&abortFn{})
	}
}

// splitGoal retries a universally quantified goal by cases: the bound index is one of the
// positions just written (a store in an array it selects from), or none of them.
func (x *Exec) splitGoal(goal *Term) bool {
	p := x.P
	var hyps []*Term
	g := goal
	var sk *Term
	for {
		if g.Op == "=>" {
			hyps = append(hyps, g.Args[0])
			g = g.Args[1]
			continue
		}
		if strings.HasPrefix(g.Op, "forall ") && len(g.Vars) == 1 && g.Vars[0].Sort == "Int" && sk == nil {
			sk = x.fresh("case", "Int")
			g = p.Subst(g.Args[0], map[*Term]*Term{g.Vars[0]: sk})
			continue
		}
		break
	}
	if sk == nil {
		return false
	}
	var conds []*Term
	seen := map[*Term]bool{}
	add := func(c *Term) {
		if c == p.tru || c == p.fal || len(conds) > 24 {
			return
		}
		for _, d := range conds {
			if d == c {
				return
			}
		}
		conds = append(conds, c)
	}
	var mentions func(t *Term, s map[*Term]bool) bool
	mentions = func(t *Term, s map[*Term]bool) bool {
		if t == sk {
			return true
		}
		if s[t] {
			return false
		}
		s[t] = true
		for _, a := range t.Args {
			if mentions(a, s) {
				return true
			}
		}
		return false
	}
	var walk func(t *Term)
	walk = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		if t.Op == "select" && mentions(t.Args[1], map[*Term]bool{}) {
			for a := t.Args[0]; a.Op == "store"; a = a.Args[0] {
				add(p.Eq(t.Args[1], a.Args[1]))
			}
		}
		if t.Op == "ite" && t.Args[0].Op == "=" && t.Args[0].Args[0].Sort == "Int" && mentions(t.Args[0], map[*Term]bool{}) {
			add(t.Args[0])
		}
		if !strings.HasPrefix(t.Op, "forall ") && !strings.HasPrefix(t.Op, "exists ") {
			for _, a := range t.Args {
				walk(a)
			}
		}
	}
	walk(g)
	if len(conds) < 2 {
		// the last eight positions of the range
		conds = nil
		for _, h := range hyps {
			hs := []*Term{h}
			if h.Op == "and" {
				hs = h.Args
			}
			for _, h := range hs {
				if h.Op != "not" || h.Args[0].Op != "<=" {
					continue
				}
				hi, e := h.Args[0].Args[0], h.Args[0].Args[1]
				if mentions(e, map[*Term]bool{}) && !mentions(hi, map[*Term]bool{}) {
					for c := int64(1); c <= 8; c++ {
						add(p.Eq(e, p.Sub(hi, p.Int(c))))
					}
				}
			}
		}
		if len(conds) < 2 {
			return false
		}
	}
	base := append(append([]*Term{}, hyps...), p.Not(g))
	var rest []*Term
	for _, c := range conds {
		if x.C.Check(x.V.QuickMs, append([]*Term{c}, base...)...) != "unsat" {
			return false
		}
		rest = append(rest, p.Not(c))
	}
	return x.C.Check(x.V.QuickMs, append(rest, base...)...) == "unsat"
}

func (v *Verifier) longMs() int {
	if !v.Deadline.IsZero() {
		left := int(time.Until(v.Deadline).Milliseconds())
		if left < 1500 {
			return 1500
		}
		if left < v.LongMs {
			return left
		}
	}
	return v.LongMs
}

func fileSafe(s string) string {
	r := strings.Map(func(c rune) rune {
		if c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' || c == '-' || c == '.' || c == '_' {
			return c
		}
		return '_'
	}, s)
	if len(r) > 120 {
		r = r[:120]
	}
	return r
}

func recorded(con *Contract, g string) bool {
	for _, r := range con.Records {
		if r.Name == g {
			return true
		}
	}
	return false
}

// obligeGhostFrame: a ghost recorded on return is not changed by the body itself.
func (x *Exec) obligeGhostFrame(st *State, con *Contract, e *SEnv) {
	for _, r := range con.Records {
		ok := false
		for _, m := range con.Mod {
			ok = ok || m.Src == r.Name
		}
		if ok || st.ghost[r.Name] == x.entry.ghost[r.Name] {
			continue
		}
		x.oblige(st, x.P.Eq(st.ghost[r.Name], x.entry.ghost[r.Name]), "frame:ghost "+r.Name, "ghost state "+r.Name+" changes")
	}
}

func (x *Exec) atReturn(st *State, con *Contract, fn *ssa.Function, res []Val, vars map[string]SVal, pk *types.Package, ifc *Contract, ifvars map[string]SVal) {
	if x.quiet > 0 {
		return
	}
	if x.C.Check(x.V.FeasMs) == "unsat" {
		return
	}
	x.ends++
	p := x.P
	for _, r := range res {
		if r.T != nil {
			x.publishTerm(st, r.T)
		}
	}
	left := 0
	for _, k := range x.lockedIn {
		if _, ok := st.held[k]; !ok {
			x.oblige(st, p.fal, "lock-dropped", "returns without the lock it was called with")
		} else {
			left++
		}
	}
	if len(st.held) > left {
		x.oblige(st, p.fal, "lock-leak", "returns while holding a lock")
	}
	v2 := cp(vars)
	for i := range res {
		if res[i].T == nil && (res[i].F != nil || res[i].A != nil) {
			res[i].T = x.term(st, res[i], fn.Signature.Results().At(i).Type())
		}
	}
	x.bindResults(con, fn.Signature, res, v2)
	e := &SEnv{x: x, st: st, old: x.entry, acq: st.snaps["acq"], vars: v2, pkg: pk}
	if len(con.Records) > 0 {
		before := st.clone()
		x.obligeGhostFrame(before, con, e)
		e2 := *e
		e2.st = before
		x.runGhost(st, con.Records, &e2)
	}
	x.cur = nil
	for _, c := range con.PanWhen {
		if c.Only || con.Frames {
			continue
		}
		oe := *e
		oe.st = x.entry
		x.oblige(st, p.Not(oe.Bool(c.E)), "must-panic", "a call that should panic returns normally: "+c.Src)
	}
	for i, c := range con.Lemmas {
		x.oblige(st, e.Bool(c.E), "lemma:"+clauseName(c, i), c.Src)
	}
	for i, c := range con.Ens {
		if con.Frames && len(c.Tags) == 0 {
			continue
		}
		x.oblige(st, e.Bool(c.E), "ensures:"+clauseName(c, i), c.Src)
	}
	if ifc != nil {
		iv := cp(ifvars)
		x.bindResults(ifc, fn.Signature, res, iv)
		ie := &SEnv{x: x, st: st, old: x.entry, vars: iv, pkg: pk}
		for i, c := range ifc.Ens {
			if con.Frames && len(c.Tags) == 0 {
				continue
			}
			x.oblige(st, ie.Bool(c.E), "implements:"+ifc.Key+":"+clauseName(c, i), c.Src)
		}
	}
	x.frame(st, con, vars, pk)
}

func clauseName(c *Clause, i int) string {
	if c.Name != "" {
		return c.Name
	}
	return fmt.Sprint(i)
}

func (x *Exec) atPanic(st *State, con *Contract, vars map[string]SVal, pk *types.Package) {
	if x.quiet > 0 {
		return
	}
	if x.C.Check(x.V.FeasMs) == "unsat" {
		return
	}
	x.ends++
	if con.PanMay || con.Frames {
		return
	}
	if len(con.PanWhen) == 0 {
		x.oblige(st, x.P.fal, "nopanic:explicit", "the function panics")
		return
	}
	e := &SEnv{x: x, st: x.entry, old: x.entry, acq: st.snaps["acq"], vars: vars, pkg: pk}
	var cs []*Term
	for _, c := range con.PanWhen {
		cs = append(cs, e.Bool(c.E))
	}
	x.oblige(st, x.P.Or(cs...), "panics-only-when", "the function panics although: not ("+con.PanWhen[0].Src+")")
}

// frame: pre-existing data changes only where the contract says so.
func (x *Exec) frame(st *State, con *Contract, vars map[string]SVal, pk *types.Package) {
	if con.ModAll || con.NoFrame {
		return
	}
	p := x.P
	e := &SEnv{x: x, st: x.entry, old: x.entry, vars: vars, pkg: pk}
	var tgs []modTarget
	for _, m := range con.Mod {
		tgs = append(tgs, e.modTargets(m)...)
	}
	for _, g := range sortedKeys(st.ghost) {
		if recorded(con, g) {
			continue
		}
		g0 := x.entry.ghost[g]
		if t, ok := x.ghostSet[g]; ok {
			g0 = t
		}
		if st.ghost[g] == g0 {
			continue
		}
		ok := false
		for _, t := range tgs {
			ok = ok || t.ghost == g
		}
		if !ok {
			x.oblige(st, p.Eq(st.ghost[g], g0), "frame:ghost "+g, "ghost state "+g+" changes")
		}
	}
	for g, v := range st.glob {
		v0, ok := x.entry.glob[g]
		if x.V.globalMutated[g] && v.T != nil && (!ok || v0.T != v.T) {
			v0 = x.globalInit(st, g)
			if v0.T != v.T {
				x.oblige(st, p.Eq(v.T, v0.T), "frame:global "+g.Name(), "package variable "+g.Name()+" changes")
			}
		}
	}
	for _, nm := range sortedKeys(st.heaps) {
		h := st.heaps[nm]
		h0 := x.hbaseOf(x.entry, nm)
		if h == h0 || h0 == nil {
			continue
		}
		skip := false
		var refs []modTarget
		for _, t := range tgs {
			if t.heap == nm {
				if t.ref == nil {
					skip = true
				}
				refs = append(refs, t)
			}
		}
		if skip || strings.HasPrefix(nm, "AT!once") {
			continue
		}
		if x.onlyFreshStores(h, h0) {
			continue
		}
		q := x.fresh("fr", "Int")
		cond := []*Term{p.Lt(q, x.alloc0)}
		var goal *Term = p.Eq(p.Select(h, q), p.Select(h0, q))
		for _, t := range refs {
			if t.lo == nil {
				cond = append(cond, p.Not(p.Eq(q, t.ref)))
			}
		}
		isRow := strings.HasPrefix(nm, "E!")
		if isRow {
			cond = append(cond, p.Not(p.Eq(q, p.Int(0)))) // the nil slice has no elements
			qi := x.fresh("fi", "Int")
			goal = p.Eq(p.Select(p.Select(h, q), qi), p.Select(p.Select(h0, q), qi))
			for _, t := range refs {
				if t.lo != nil {
					cond = append(cond, p.Not(p.And(p.Eq(q, t.ref), p.Le(t.lo, qi), p.Lt(qi, t.hi))))
				}
			}
		}
		x.oblige(st, p.Implies(p.And(cond...), goal), "frame:"+nm, "pre-existing data in "+nm+" may change only as declared")
	}
}

func (e *SEnv) evalSrc(s string) SVal {
	ex, err := parseExpr(s)
	if err != nil {
		specErr("cannot parse %s", s)
	}
	return e.eval(ex)
}

func (x *Exec) evalInv(c *Clause, st *State, fid int, fn *ssa.Function, lp *Loop, phis map[*ssa.Phi]Val, it *Term, cr *cutRec) *Term {
	vars := map[string]SVal{}
	con, _, up := x.loopOwner(fn, lp.index)
	env := st.env[fid]
	if con != nil {
		own, oenv := fn, env
		if len(up) > 0 {
			own = up[len(up)-1].fn
			oenv = st.env[up[len(up)-1].fid]
		}
		for i, n := range con.Params {
			if i < len(own.Params) {
				if v, ok := oenv[own.Params[i]]; ok {
					vars[n] = SVal{T: v.T, Ty: own.Params[i].Type(), V: v}
				}
			}
		}
		for _, g := range con.Ghosts {
			if v, ok := x.params[g.Name]; ok {
				vars[g.Name] = v
			}
		}
	}
	for i, fv := range fn.FreeVars {
		_ = i
		if v, ok := env[fv]; ok {
			vars[fv.Name()] = SVal{T: v.T, Ty: fv.Type(), V: v}
		}
	}
	e := &SEnv{x: x, st: st, old: x.entry, acq: st.snaps["acq"], vars: vars, pkg: x.specPkg(con, fn), loop: &loopEnv{fid, fn, lp, phis, it, cr, up}}
	return e.Bool(c.E)
}

// worklist ------------------------------------------------------------------------

func (v *Verifier) Expand(names []string) (out []string, errs []string) {
	for _, n := range names {
		if strings.Contains(n, "*") {
			m := false
			for _, k := range sortedKeys(v.Spec.Contracts) {
				if ok, _ := filepath.Match(n, k); ok {
					out = append(out, k)
					m = true
				}
			}
			if !m {
				errs = append(errs, "no contract matches "+n)
			}
			continue
		}
		out = append(out, n)
	}
	return
}

func (v *Verifier) RunCheck(names []string, workers int) (res []*FuncResult, trusted []string) {
	todo, errs := v.Expand(names)
	for _, e := range errs {
		res = append(res, &FuncResult{Key: e, Unsup: e})
	}
	seen := map[string]bool{}
	var mu sync.Mutex
	var wg sync.WaitGroup
	v.Sem = make(chan struct{}, workers)
	tr := map[string]bool{}
	// contracts proved by another property's check are relied on, not proved again here
	other, otherImpl := map[string]string{}, map[string]string{}
	for _, p := range sortedKeys(v.Spec.Checks) {
		if p == v.Spec.Prop || v.Spec.Prop == "" {
			continue
		}
		ks, _ := v.Expand(v.Spec.Checks[p])
		for _, k := range ks {
			if other[k] == "" {
				other[k] = p
			}
			if otherImpl[k] == "" {
				otherImpl[k] = p
			}
			if c := v.Spec.Contracts[k]; c != nil && c.Iface {
				j := strings.LastIndex(k, ".")
				for _, tn := range v.Spec.Sealed[k[:j]] {
					if ik := strings.TrimPrefix(tn, "*") + k[j:]; otherImpl[ik] == "" {
						otherImpl[ik] = p
					}
				}
			}
		}
	}
	own := map[string]bool{}
	frames := map[string]bool{}
	fks, _ := v.Expand(v.Spec.FrameNames[v.Spec.Prop])
	for _, k := range fks {
		frames[k] = true
	}
	var add func(k string)
	add = func(k string) {
		if seen[k] {
			return
		}
		seen[k] = true
		con := v.Spec.Contracts[k]
		if con == nil {
			res = append(res, &FuncResult{Key: k, Unsup: "no contract for " + k})
			return
		}
		if p := other[k]; p != "" && !own[k] && !con.ownFor(p) {
			tr[fmt.Sprintf("contract of %s is relied on here and proved by the check of %s", k, p)] = true
			return
		}
		if frames[k] {
			con.Frames = true
			con.RelyOn = otherImpl[k]
		}
		if con.Iface {
			// every implementation in the sealed set must refine it
			j := strings.LastIndex(k, ".")
			if len(v.Spec.Sealed[k[:j]]) == 0 {
				tr[fmt.Sprintf("contract of interface method %s is assumed for every implementation (%s:%d)", k, filepath.Base(con.File), con.Line)] = true
			}
			for _, tn := range v.Spec.Sealed[k[:j]] {
				ik := strings.TrimPrefix(tn, "*") + k[j:]
				ic := v.Spec.Contracts[ik]
				if ic == nil {
					ic = &Contract{Key: ik, Impl: k, Loops: map[int][]*Clause{}, Derived: true}
					if f := v.Funcs[ik]; f != nil {
						for i := range f.Params {
							ic.Params = append(ic.Params, fmt.Sprintf("a%d", i))
						}
					}
					ic.Mod = nil
					v.Spec.Contracts[ik] = ic
				}
				if ic.Impl == "" {
					ic.Impl = k
				}
				if ic.Impl != k {
					res = append(res, &FuncResult{Key: ik, Unsup: "contract of " + ik + " does not refine " + k})
					continue
				}
				frames[ik] = frames[k]
				add(ik)
			}
			return
		}
		if strings.HasPrefix(k, "field:") {
			tr["contract of "+k+" is proved where functions are stored in the field"] = true
			return
		}
		if con.Trusted {
			tr[fmt.Sprintf("contract of %s is assumed, not proved (%s:%d)", k, filepath.Base(con.File), con.Line)] = true
			return
		}
		wg.Add(1)
		go func() {
			defer wg.Done()
			fr := v.VerifyFunc(con)
			if v.Debug > 0 {
				fmt.Printf("%-60s obl=%d ok=%d ends=%d paths=%d q=%d solver=%.1fs wall=%.1fs %s\n", k, len(fr.Obls), fr.Proved, fr.Ends, fr.Paths, fr.Queries, fr.SolverSec, fr.Wall, fr.Unsup)
			}
			mu.Lock()
			res = append(res, fr)
			for _, u := range fr.Used {
				add(u)
			}
			mu.Unlock()
		}()
	}
	mu.Lock()
	// pre-create derived contracts before starting (the map is read concurrently)
	for _, k := range sortedKeys(v.Spec.Contracts) {
		if c := v.Spec.Contracts[k]; c.Iface {
			j := strings.LastIndex(k, ".")
			for _, tn := range v.Spec.Sealed[k[:j]] {
				ik := strings.TrimPrefix(tn, "*") + k[j:]
				if ic := v.Spec.Contracts[ik]; ic != nil && ic.Impl == "" {
					ic.Impl = k
				}
				if v.Spec.Contracts[ik] == nil {
					ic := &Contract{Key: ik, Impl: k, Loops: map[int][]*Clause{}, Derived: true}
					if f := v.Funcs[ik]; f != nil {
						for i := range f.Params {
							ic.Params = append(ic.Params, fmt.Sprintf("a%d", i))
						}
					}
					v.Spec.Contracts[ik] = ic
				}
			}
		}
	}
	for _, k := range todo {
		own[k] = true
	}
	for _, k := range todo {
		add(k)
	}
	mu.Unlock()
	wg.Wait()
	for t := range tr {
		trusted = append(trusted, t)
	}
	sort.Strings(trusted)
	sort.Slice(res, func(i, j int) bool { return res[i].Key < res[j].Key })
	return
}

var _ ast.Node
var _ = os.Args

// onlyFreshStores: h is h0 updated only at references allocated during this execution.
func (x *Exec) onlyFreshStores(h, h0 *Term) bool {
	for h != h0 {
		d := h
		if n, ok := x.defMap[h]; ok {
			d = n
		}
		if d.Op != "store" || !x.freshRef[d.Args[1]] {
			return false
		}
		h = d.Args[0]
	}
	return true
}
