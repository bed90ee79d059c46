package main

import (
	"fmt"
	"go/ast"
	"go/types"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func (x *Exec) havocVal(st *State, name string, t types.Type) Val {
	if tp, ok := t.(*types.Tuple); ok {
		var vs []Val
		for i := 0; i < tp.Len(); i++ {
			vs = append(vs, x.havocVal(st, name, tp.At(i).Type()))
		}
		return Val{Tup: vs}
	}
	v := x.fresh(name, x.Sort(t))
	x.typeFacts(st, v, t, 0)
	return Val{T: v}
}

func (x *Exec) havocResults(st *State, name string, sig *types.Signature) []Val {
	var res []Val
	for i := 0; i < sig.Results().Len(); i++ {
		res = append(res, x.havocVal(st, name, sig.Results().At(i).Type()))
	}
	return res
}

func (x *Exec) growAlloc(st *State) {
	a := x.fresh("alloc", "Int")
	x.assume(x.P.Ge(a, st.alloc))
	st.alloc = a
	x.note("alloc")
}

// callArgs evaluates the operands of a call.
func (x *Exec) callArgs(st *State, fid int, c *ssa.CallCommon) (args []Val, f Val) {
	if c.IsInvoke() {
		args = append(args, x.val(st, fid, c.Value))
	} else if _, ok := c.Value.(*ssa.Builtin); !ok {
		f = x.val(st, fid, c.Value)
	}
	for _, a := range c.Args {
		args = append(args, x.val(st, fid, a))
	}
	return
}

func (x *Exec) doCall(st *State, fid int, c *ssa.CallCommon, f Val, args []Val, kind string, k K, in ssa.Instruction) {
	p := x.P
	if b, ok := c.Value.(*ssa.Builtin); ok {
		x.builtin(st, fid, b.Name(), c, args, kind, k)
		return
	}
	if c.IsInvoke() {
		x.invoke(st, fid, c, args, k)
		return
	}
	if f.F == nil && f.T != nil {
		if cl, ok := x.closures[f.T]; ok {
			f = Val{F: cl}
		}
	}
	if f.F != nil {
		x.callStatic(st, fid, f.F.Fn, args, f.F.Bind, c.Signature(), k)
		return
	}
	if f.T == nil {
		panic(&Unsupported{"call of unknown function value " + c.String()})
	}
	rp := x.canRec > 0 || x.allowPan
	x.must(st, fid, p.Not(p.Eq(f.T, p.Int(0))), "nilfunc", "call of a nil function", k, func(s *State) {
		if !rp {
			s = st
		}
		if con, self := x.fieldContract(st, fid, c.Value); con != nil {
			x.applyContract(s, fid, con, nil, fieldSig(c.Signature(), con.owner), append([]Val{self}, args...), k)
			return
		}
		if con := x.V.Spec.Contracts["functype:"+typeKey(c.Value.Type())]; con != nil {
			x.trust("every function value of type " + typeKey(c.Value.Type()) + " (user code) changes at most what its contract says")
			sg := types.NewSignatureType(nil, nil, nil, types.NewTuple(append([]*types.Var{types.NewVar(0, nil, "fn", c.Value.Type())}, tupleVars(c.Signature().Params())...)...), c.Signature().Results(), false)
			x.applyContract(s, fid, con, nil, sg, append([]Val{f}, args...), k)
			return
		}
		x.unknownCall(s, "a function value of type "+c.Signature().String(), args, c.Signature(), k)
	})
}

// fieldContract finds the contract of the struct field a function value was read from.
func (x *Exec) fieldContract(st *State, fid int, v ssa.Value) (*Contract, Val) {
	ld, ok := v.(*ssa.UnOp)
	if !ok {
		return nil, Val{}
	}
	fa, ok := ld.X.(*ssa.FieldAddr)
	if !ok {
		return nil, Val{}
	}
	ot := deref(fa.X.Type())
	con := x.V.Spec.Contracts["field:"+typeKey(ot)+"."+ot.Underlying().(*types.Struct).Field(fa.Field).Name()]
	if con == nil {
		return nil, Val{}
	}
	con.owner = ot
	self := x.val(st, fid, fa.X)
	if self.T == nil {
		self.T = x.term(st, self, fa.X.Type())
	}
	return con, self
}

func tupleVars(t *types.Tuple) (r []*types.Var) {
	for i := 0; i < t.Len(); i++ {
		r = append(r, t.At(i))
	}
	return
}

func fieldSig(s *types.Signature, owner types.Type) *types.Signature {
	vs := []*types.Var{types.NewVar(0, nil, "self", types.NewPointer(owner))}
	for i := 0; i < s.Params().Len(); i++ {
		vs = append(vs, s.Params().At(i))
	}
	return types.NewSignatureType(nil, nil, nil, types.NewTuple(vs...), s.Results(), s.Variadic())
}

// stored obliges a function put into a field with a contract to satisfy that contract.
func (x *Exec) stored(st *State, owner types.Type, ref *Term, i int, v *Term) {
	f := owner.Underlying().(*types.Struct).Field(i)
	sig, ok := f.Type().Underlying().(*types.Signature)
	if !ok || v == nil {
		return
	}
	key := typeKey(owner) + "." + f.Name()
	con := x.V.Spec.Contracts["field:"+key]
	if con == nil || x.quiet > 0 || v.num != nil && v.num.Sign() == 0 {
		return
	}
	cl := x.closures[v]
	if cl == nil && con.NoFrame {
		x.trust("functions stored in " + key + " are user code and keep its contract")
		return
	}
	if cl == nil {
		x.oblige(st, x.P.fal, "funcfield:"+key, "a function stored in "+key+" must be known")
		return
	}
	we := &SEnv{x: x, st: st, old: st, vars: map[string]SVal{"self": {T: ref, Ty: types.NewPointer(owner)}}, pkg: x.specPkg(con, cl.Fn)}
	for _, w := range con.Where {
		for bi, fv := range cl.Fn.FreeVars {
			if fv.Name() != w[1] {
				continue
			}
			b := cl.Bind[bi]
			if b.A != nil {
				b = x.load(st, b.A)
			}
			// defined by the first function stored in the object, obliged for the others
			d := x.P.Eq(we.evalSrc(w[0]+"(self)").T, b.T)
			dk := w[0] + fmt.Sprint(ref.id)
			if st.defd[dk] {
				x.oblige(st, d, "funcfield:"+key+":"+w[0], "the functions stored in one object capture the same "+w[1])
			}
			if st.defd == nil {
				st.defd = map[string]bool{}
			}
			st.defd[dk] = true
			x.assume(d)
		}
	}
	x.C.Push()
	s2 := st.clone()
	s2.held = map[string]heldLock{}
	args := []Val{{T: ref}}
	for j := 0; j < sig.Params().Len(); j++ {
		args = append(args, x.havocVal(s2, "arg", sig.Params().At(j).Type()))
	}
	fs := fieldSig(sig, owner)
	vars := x.bindParams(con, fs, args, false, s2)
	pk := x.specPkg(con, cl.Fn)
	e := &SEnv{x: x, st: s2, old: s2, vars: vars, pkg: pk}
	for _, r := range con.Req {
		x.assume(e.Bool(r.E))
	}
	pre := s2.clone()
	se, sa, sr, sp := x.entry, x.alloc0, x.canRec, x.allowPan
	x.canRec, x.allowPan = 0, false
	x.callStatic(s2, 0, cl.Fn, args[1:], cl.Bind, sig, K{ret: func(st *State, res []Val) {
		v2 := cp(vars)
		x.bindResults(con, fs, res, v2)
		e2 := &SEnv{x: x, st: st, old: pre, vars: v2, pkg: pk}
		for i, c := range con.Ens {
			x.oblige(st, e2.Bool(c.E), "funcfield:"+key+":"+clauseName(c, i), "a function stored in "+key+": "+c.Src)
		}
		x.entry, x.alloc0 = pre, pre.alloc
		x.frame(st, con, vars, pk)
		x.entry, x.alloc0 = se, sa
	}, pan: func(st *State, v Val) {
		x.oblige(st, x.P.fal, "funcfield:"+key+":nopanic", "a function stored in "+key+" panics")
	}})
	x.canRec, x.allowPan = sr, sp
	x.C.Pop()
}

func (x *Exec) unknownCall(st *State, what string, args []Val, sig *types.Signature, k K) {
	x.trust("call of " + what + ": result arbitrary, assumed to modify nothing the contracts mention")
	for _, a := range args {
		x.escape(st, a)
	}
	x.growAlloc(st)
	// user callbacks are counted in ghost state when declared
	if g, ok := x.V.Spec.Ghosts["callbacks"]; ok {
		t, _ := x.ghostVal(st, "callbacks", g)
		st.ghost["callbacks"] = x.P.Add(t, x.P.Int(1))
		x.note("X:callbacks")
	}
	k.ret(st, x.havocResults(st, "unk", sig))
}

// funcKey is the name used in contract files.
func funcKey(fn *ssa.Function) string {
	if fn.Parent() != nil {
		nm := fn.Name()
		if i := strings.LastIndex(nm, "$"); i >= 0 {
			return funcKey(fn.Parent()) + nm[strings.LastIndex(nm, "$"):]
		}
	}
	pk := ""
	if fn.Pkg != nil {
		pk = pkgKey(fn.Pkg.Pkg)
	} else if fn.Object() != nil && fn.Object().Pkg() != nil {
		pk = pkgKey(fn.Object().Pkg())
	}
	if r := fn.Signature.Recv(); r != nil {
		t := deref(r.Type())
		if n, ok := t.(*types.Named); ok {
			if n.Obj().Pkg() != nil {
				pk = pkgKey(n.Obj().Pkg())
			}
			return pk + "." + n.Obj().Name() + "." + fn.Name()
		}
	}
	return pk + "." + fn.Name()
}

func pkgKey(p *types.Package) string {
	if strings.HasSuffix(p.Path(), "parser/hsms") {
		return "phsms"
	}
	return p.Name()
}

func (x *Exec) inRepo(fn *ssa.Function) bool {
	for fn.Parent() != nil {
		fn = fn.Parent()
	}
	if fn.Pkg != nil {
		return strings.HasPrefix(fn.Pkg.Pkg.Path(), modPath)
	}
	if o := fn.Object(); o != nil && o.Pkg() != nil {
		return strings.HasPrefix(o.Pkg().Path(), modPath)
	}
	return false
}

func (x *Exec) callStatic(st *State, fid int, fn *ssa.Function, args []Val, bind []Val, sig *types.Signature, k K) {
	if fn.Synthetic != "" && strings.Contains(fn.Synthetic, "bound method") && len(bind) == 1 {
		// method value: receiver is bound
		if m := x.V.boundTarget(fn); m != nil {
			x.callStatic(st, fid, m, append([]Val{bind[0]}, args...), nil, sig, k)
			return
		}
	}
	key := fn.String()
	if con := x.V.Spec.Contracts[funcKey(fn)]; con != nil && con.Trusted && !x.inRepo(fn) {
		x.applyContract(st, fid, con, fn, fn.Signature, args, k)
		return
	}
	if m, ok := models[key]; ok {
		if m(x, st, fid, fn, args, k) {
			return
		}
	}
	if con := x.V.Spec.Contracts[funcKey(fn)]; con != nil && !con.NoBody && !x.onUnpublished(st, fn, args) {
		x.applyContract(st, fid, con, fn, fn.Signature, args, k)
		return
	}
	if x.inRepo(fn) && len(fn.Blocks) > 0 {
		x.V.noteInline(x, fn)
		x.callFn(st, fn, args, bind, k)
		return
	}
	x.external(st, key, fn.Signature, args, k)
}

// onUnpublished: a short loop-free method of an immutable object that is still being built is
// inlined, so that the call does not publish the object.
func (x *Exec) onUnpublished(st *State, fn *ssa.Function, args []Val) bool {
	if fn.Signature.Recv() == nil || len(args) == 0 || args[0].T == nil || !x.inRepo(fn) || len(fn.Blocks) == 0 || len(fn.Blocks) > 4 {
		return false
	}
	if _, ok := st.fresh[args[0].T]; !ok {
		return false
	}
	for _, b := range fn.Blocks {
		for _, s := range b.Succs {
			if s.Index <= b.Index {
				return false
			}
		}
		for _, in := range b.Instrs {
			if c, ok := in.(ssa.CallInstruction); ok {
				if _, ok := c.Common().Value.(*ssa.Builtin); ok {
					continue
				}
				return false
			}
		}
	}
	return true
}

func (x *Exec) external(st *State, key string, sig *types.Signature, args []Val, k K) {
	x.trust("external " + key + ": result arbitrary, no panic, no effect on the program's own data")
	for _, a := range args {
		x.escape(st, a)
	}
	x.growAlloc(st)
	k.ret(st, x.havocResults(st, "ext", sig))
}

func (x *Exec) invoke(st *State, fid int, c *ssa.CallCommon, args []Val, k K) {
	p := x.P
	recv := args[0].T
	if recv == nil {
		panic(&Unsupported{"invoke on non-term receiver"})
	}
	it := c.Value.Type()
	rp := x.canRec > 0 || x.allowPan
	x.must(st, fid, p.Not(p.Eq(recv, x.anyNil())), "nil", "method call on nil interface "+typeKey(it), k, func(s *State) {
		if !rp {
			s = st
		}
		x.invoke2(s, fid, c, it, args, k)
	})
}

func (x *Exec) invoke2(st *State, fid int, c *ssa.CallCommon, it types.Type, args []Val, k K) {
	recv := args[0].T
	p := x.P
	if strings.HasPrefix(recv.Op, "box!") {
		if ty := x.V.typeByKey(strings.TrimPrefix(recv.Op, "box!")); ty != nil {
			if m := x.V.method(ty, c.Method); m != nil {
				x.callStatic(st, fid, m, append([]Val{{T: recv.Args[0]}}, args[1:]...), nil, c.Signature(), k)
				return
			}
		}
	}
	ik := typeKey(it) + "." + c.Method.Name()
	if con := x.V.Spec.Contracts[ik]; con != nil && con.Iface {
		x.applyContract(st, fid, con, nil, c.Signature(), args, k)
		return
	}
	if sl, ok := x.V.Spec.Sealed[typeKey(it)]; ok {
		var go1 func(i int, st *State)
		go1 = func(i int, st *State) {
			if i == len(sl) {
				return // sealed: no other dynamic type
			}
			ty := x.V.lookupType(sl[i])
			x.fork(st, x.TagIs(recv, ty), func(s *State) {
				u := x.Unbox(ty, recv)
				m := x.V.method(ty, c.Method)
				if m == nil {
					panic(&Unsupported{"no method " + c.Method.Name() + " on " + sl[i]})
				}
				if _, isP := ty.Underlying().(*types.Pointer); isP {
					x.typeFacts(s, u, ty, 0)
				}
				x.callStatic(s, fid, m, append([]Val{{T: u}}, args[1:]...), nil, c.Signature(), k)
			}, func(s *State) { go1(i+1, s) })
		}
		_ = p
		go1(0, st)
		return
	}
	if m, ok := models["I:"+ik]; ok {
		if m(x, st, fid, nil, args, k) {
			return
		}
	}
	x.trust("interface call " + ik + ": result arbitrary, no panic, no effect on the program's own data")
	for _, a := range args {
		x.escape(st, a)
	}
	x.growAlloc(st)
	k.ret(st, x.havocResults(st, "ext", c.Signature()))
}

func (x *Exec) goStmt(st *State, fid int, in *ssa.Go, f Val, args []Val) {
	name := "a function value"
	if f.F != nil {
		name = funcKey(f.F.Fn)
	}
	x.trust("go statement in " + x.Fn.Name() + ": the started goroutine (" + name + ") is verified separately or not at all; its interference is limited to monitor-protected state")
	if g, ok := x.V.Spec.Ghosts["goroutines"]; ok {
		t, _ := x.ghostVal(st, "goroutines", g)
		st.ghost["goroutines"] = x.P.Add(t, x.P.Int(1))
		x.note("X:goroutines")
	}
	if f.F == nil {
		return
	}
	con := x.V.Spec.Contracts[funcKey(f.F.Fn)]
	if con == nil || con.NoBody || len(f.F.Fn.FreeVars) > 0 {
		return
	}
	sig := f.F.Fn.Signature
	for i := range args {
		if args[i].T == nil {
			t := sig.Recv()
			if j := i - b2i(t != nil); j >= 0 {
				t = sig.Params().At(j)
			}
			args[i].T = x.term(st, args[i], t.Type())
		}
	}
	if len(con.Spawns) == 0 {
		if len(con.Req) > 0 {
			x.trust("preconditions of " + con.Key + " where a go statement starts it (" + x.Fn.Name() + ")")
		}
		return
	}
	// the started function is entitled to its preconditions
	env := &SEnv{x: x, st: st, old: st, vars: x.bindParams(con, sig, args, false, st), pkg: x.specPkg(con, f.F.Fn)}
	for i, r := range con.Req {
		nm := r.Name
		if nm == "" {
			nm = fmt.Sprint(i)
		}
		x.oblige(st, env.Bool(r.E), "pre:"+con.Key+":"+nm, "precondition of "+con.Key+", started by a go statement: "+r.Src)
	}
	x.runGhost(st, con.Spawns, env)
}

func (x *Exec) chanSend(st *State, fid int, in *ssa.Send) {
	x.escape(st, x.val(st, fid, in.X))
	x.openChan(st, x.tv(st, fid, in.Chan))
	x.ghostSend(st, x.tv(st, fid, in.Chan), x.val(st, fid, in.X), in.X.Type())
}

// openChan: a send on a closed channel panics.
func (x *Exec) openChan(st *State, ch *Term) {
	if !x.V.Spec.SendsOpen {
		x.trust("channels sent on are not closed")
		return
	}
	h := x.heap(st, "CH!closed", ArrSort("Int", "Bool"))
	x.oblige(st, x.P.Not(x.sel(h, ch)), "nopanic:send", "send on a closed channel")
}

// ghostSend records a send on a channel in ghost state: chsent[ch] counts, chlast[ch] is the last value (boxed).
func (x *Exec) ghostSend(st *State, ch *Term, v Val, t types.Type) {
	p := x.P
	cn := "CH!sent"
	h := x.heap(st, cn, ArrSort("Int", "Int"))
	x.setHeap(st, cn, p.Store(h, ch, p.Add(x.sel(h, ch), p.Int(1))))
	ln := "CH!last"
	h2 := x.heap(st, ln, ArrSort("Int", "Any"))
	tv := x.term(st, v, t)
	if tv.Sort != "Any" {
		tv = x.Box(t, tv)
	}
	x.setHeap(st, ln, p.Store(h2, ch, tv))
}

// builtins --------------------------------------------------------------------

func (x *Exec) builtin(st *State, fid int, name string, c *ssa.CallCommon, args []Val, kind string, k K) {
	p := x.P
	one := func(v Val) { k.ret(st, []Val{v}) }
	targ := func(i int) *Term { return x.term(st, args[i], c.Args[i].Type()) }
	switch name {
	case "len":
		v := targ(0)
		switch u := c.Args[0].Type().Underlying().(type) {
		case *types.Slice:
			l := x.sLen(v)
			if kn, ok := st.known[l]; ok {
				l = kn
			}
			one(Val{T: l})
		case *types.Basic:
			l := x.SLen(v)
			if kn, ok := st.known[l]; ok {
				l = kn
			}
			one(Val{T: l})
		case *types.Map:
			one(Val{T: x.mapLen(st, u, v)})
		case *types.Pointer:
			one(Val{T: p.Int(u.Elem().Underlying().(*types.Array).Len())})
		case *types.Array:
			one(Val{T: p.Int(u.Len())})
		case *types.Chan:
			one(x.havocVal(st, "chlen", tInt))
		default:
			panic(&Unsupported{"len"})
		}
	case "cap":
		v := targ(0)
		if v.Sort == "Slice" {
			one(Val{T: x.sCap(v)})
		} else {
			one(x.havocVal(st, "cap", tInt))
		}
	case "append":
		one(Val{T: x.appendOp(st, c, args)})
	case "copy":
		one(Val{T: x.copyOp(st, c, args)})
	case "delete":
		m := c.Args[0].Type().Underlying().(*types.Map)
		x.mapSet(st, m, targ(0), targ(1), nil, true)
		k.ret(st, nil)
	case "panic":
		x.panicNow(st, fid, args[0], k)
	case "recover":
		if st.pan != nil && kind != "defer" {
			v := st.pan.val
			st.pan.recovered = true
			if v.T == nil {
				v = Val{T: x.fresh("panval", "Any")}
			}
			x.assume(p.Not(p.Eq(v.T, x.anyNil())))
			one(v)
			return
		}
		one(Val{T: x.anyNil()})
	case "print", "println":
		k.ret(st, nil)
	case "min", "max":
		r := targ(0)
		for i := 1; i < len(args); i++ {
			b := targ(i)
			if r.Sort != "Int" {
				panic(&Unsupported{name})
			}
			if name == "min" {
				r = p.Ite(p.Le(r, b), r, b)
			} else {
				r = p.Ite(p.Le(r, b), b, r)
			}
		}
		one(Val{T: r})
	case "close":
		ch := targ(0)
		h := x.heap(st, "CH!closed", ArrSort("Int", "Bool"))
		rp := x.canRec > 0 || x.allowPan
		x.must(st, fid, p.And(p.Not(p.Eq(ch, p.Int(0))), p.Not(x.sel(h, ch))), "close", "close of a nil or already closed channel", k, func(s *State) {
			if !rp {
				s = st
			}
			x.setHeap(s, "CH!closed", p.Store(x.heap(s, "CH!closed", ArrSort("Int", "Bool")), ch, p.tru))
			k.ret(s, nil)
		})
	case "ssa:wrapnilchk":
		one(args[0])
	default:
		panic(&Unsupported{"builtin " + name})
	}
}

func (x *Exec) rowOf(st *State, el types.Type, base *Term) *Term {
	nm, hs := x.elemHeapName(el), x.elemHeapSort(el)
	if isImmBase(base) {
		x.heap(st, nm, hs)
		return x.P.Select(x.hbase[nm], base)
	}
	return x.sel(x.heap(st, nm, hs), base)
}

func isImmBase(b *Term) bool {
	return strings.HasPrefix(b.Op, "f!") && (strings.HasSuffix(b.Op, ".base") || strings.HasSuffix(b.Op, ".map"))
}

func (x *Exec) appendOp(st *State, c *ssa.CallCommon, args []Val) *Term {
	p := x.P
	s := x.term(st, args[0], c.Args[0].Type())
	el := c.Args[0].Type().Underlying().(*types.Slice).Elem()
	if s.Op == "s!nil" {
		s = x.nilSlice()
	}
	t := x.term(st, args[1], c.Args[1].Type())
	isStr := t.Sort == "Str"
	var l2 *Term
	if isStr {
		l2 = x.SLen(t)
	} else {
		l2 = x.sLen(t)
	}
	if kn, ok := st.known[l2]; ok {
		l2 = kn
	}
	if l2.num != nil && l2.num.Sign() == 0 {
		return s
	}
	base, off, ln, cp := x.sBase(s), x.sOff(s), x.sLen(s), x.sCap(s)
	if kn, ok := st.known[ln]; ok {
		ln = kn
	}
	nl := p.Add(ln, l2)
	srcAt := func(j *Term) *Term {
		if isStr {
			return p.mk("sat", "Int", t, j)
		}
		return x.elemGet(st, el, x.sBase(t), p.Add(x.sOff(t), j))
	}
	nm, hs := x.elemHeapName(el), x.elemHeapSort(el)
	// publish appended references
	if l2.num != nil && l2.num.Cmp(big.NewInt(64)) <= 0 {
		for j := int64(0); j < l2.num.Int64(); j++ {
			v := srcAt(p.Int(j))
			x.publishTerm(st, v)
			x.disown(st, v)
		}
	}
	row := x.rowOf(st, el, base)
	var nb, ncap *Term
	always := base == p.Int(0) || ln == cp || isImmBase(base)
	r := x.newRef(st)
	if always {
		nb = r
	} else {
		fits := p.Le(nl, cp)
		nb = p.Ite(fits, base, r)
		if nb.Op == "ite" {
			x.frozenIf(st, fits, base)
			n := x.fresh("base", "Int")
			x.assume(p.mk("=", "Bool", n, nb))
			nb = n
		} else if nb == base {
			x.notFrozen(st, base, "append")
		}
	}
	ncap = x.fresh("cap", "Int")
	x.assume(p.And(p.Ge(ncap, nl), p.Le(ncap, p.Big(big2(40)))))
	if !always {
		x.assume(p.Implies(p.Le(nl, cp), p.Eq(ncap, cp)))
	}
	x.ranges[ncap] = [2]*big.Int{new(big.Int), big2(40)}
	x.trust("slices never exceed 2^40 elements (memory is finite)")
	h := x.heap(st, nm, hs)
	var nrow *Term
	start := p.Add(off, ln)
	if always && isImmBase(base) || always && row.Op == "constarr" {
		start = p.Add(off, ln)
	}
	if l2.num != nil && l2.num.Cmp(big.NewInt(64)) <= 0 {
		nrow = row
		for j := int64(0); j < l2.num.Int64(); j++ {
			nrow = x.rowStore(nrow, p.Add(start, p.Int(j)), srcAt(p.Int(j)))
		}
	} else {
		nrow = x.fresh("row", row.Sort)
		q := x.bv("Int")
		at := p.Select(nrow, q)
		lo, hi := start, p.Add(start, l2)
		x.assume(p.Forall([]*Term{q}, p.Implies(p.Or(p.Lt(q, lo), p.Ge(q, hi)), p.Eq(at, p.Select(row, q))), at))
		x.assume(p.Forall([]*Term{q}, p.Implies(p.And(p.Le(lo, q), p.Lt(q, hi)), p.Eq(at, srcAt(p.Sub(q, lo)))), at))
		// the other direction: facts about the source reach the result
		if !isStr {
			q2 := x.bv("Int")
			so := x.sOff(t)
			src := p.Select(x.rowOf(st, el, x.sBase(t)), q2)
			if src.bound {
				x.assume(p.Forall([]*Term{q2}, p.Implies(p.And(p.Le(so, q2), p.Lt(q2, p.Add(so, l2))), p.Eq(p.Select(nrow, p.Add(p.Sub(q2, so), lo)), src)), src))
			}
		}
	}
	x.setHeap(st, nm, p.Store(h, nb, nrow))
	return x.mkSlice(nb, off, nl, ncap)
}

func (x *Exec) frozenIf(st *State, c, base *Term) {
	p := x.P
	cs := []*Term{p.Ge(base, p.Int(0))}
	for _, f := range st.frozen {
		cs = append(cs, p.Or(p.Not(p.Eq(base, f)), p.Eq(f, p.Int(0))))
	}
	x.oblige(st, p.Implies(c, p.And(cs...)), "immutable-storage:append", "append must not write into storage owned by an immutable object")
}

func (x *Exec) copyOp(st *State, c *ssa.CallCommon, args []Val) *Term {
	p := x.P
	d := x.term(st, args[0], c.Args[0].Type())
	t := x.term(st, args[1], c.Args[1].Type())
	el := c.Args[0].Type().Underlying().(*types.Slice).Elem()
	isStr := t.Sort == "Str"
	var l2 *Term
	if isStr {
		l2 = x.SLen(t)
	} else {
		l2 = x.sLen(t)
	}
	n := p.Ite(p.Le(x.sLen(d), l2), x.sLen(d), l2)
	if kn, ok := st.known[n]; ok {
		n = kn
	}
	if n.num == nil {
		if x.proveQuick(p.Eq(n, l2)) {
			n = l2
		} else if x.proveQuick(p.Eq(n, x.sLen(d))) {
			n = x.sLen(d)
		}
	}
	srcAt := func(j *Term) *Term {
		if isStr {
			return p.mk("sat", "Int", t, j)
		}
		return x.elemGet(st, el, x.sBase(t), p.Add(x.sOff(t), j))
	}
	if n.num != nil && n.num.Sign() == 0 {
		return n
	}
	x.notFrozen(st, x.sBase(d), "copy")
	nm, hs := x.elemHeapName(el), x.elemHeapSort(el)
	h := x.heap(st, nm, hs)
	row := x.sel(h, x.sBase(d))
	var nrow *Term
	do := x.sOff(d)
	if lo, hi := x.bounds(n); n.num == nil && lo != nil && hi != nil && hi.Cmp(big.NewInt(8)) <= 0 {
		// small symbolic count: conditional stores
		nrow = row
		for j := int64(0); j < hi.Int64(); j++ {
			ix := p.Add(do, p.Int(j))
			nrow = x.rowStore(nrow, ix, p.Ite(p.Lt(p.Int(j), n), srcAt(p.Int(j)), x.sel(nrow, ix)))
		}
	} else if n.num != nil && n.num.Cmp(big.NewInt(64)) <= 0 {
		nrow = row
		var vs []*Term
		for j := int64(0); j < n.num.Int64(); j++ {
			vs = append(vs, srcAt(p.Int(j)))
		}
		for j := int64(0); j < n.num.Int64(); j++ {
			nrow = x.rowStore(nrow, p.Add(do, p.Int(j)), vs[j])
		}
	} else {
		nrow = x.fresh("row", row.Sort)
		q := x.bv("Int")
		at := p.Select(nrow, q)
		hi := p.Add(do, n)
		x.assume(p.Forall([]*Term{q}, p.Implies(p.Or(p.Lt(q, do), p.Ge(q, hi)), p.Eq(at, p.Select(row, q))), at))
		x.assume(p.Forall([]*Term{q}, p.Implies(p.And(p.Le(do, q), p.Lt(q, hi)), p.Eq(at, srcAt(p.Sub(q, do)))), at))
		if !isStr {
			q2 := x.bv("Int")
			so := x.sOff(t)
			src := p.Select(x.rowOf(st, el, x.sBase(t)), q2)
			if src.bound {
				x.assume(p.Forall([]*Term{q2}, p.Implies(p.And(p.Le(so, q2), p.Lt(q2, p.Add(so, n))), p.Eq(p.Select(nrow, p.Add(p.Sub(q2, so), do)), src)), src))
			}
		}
	}
	x.setHeap(st, nm, p.Store(h, x.sBase(d), nrow))
	return n
}

// contracts ---------------------------------------------------------------------

func (x *Exec) bindParams(con *Contract, sig *types.Signature, args []Val, iface bool, st *State) map[string]SVal {
	vars := map[string]SVal{}
	var tys []types.Type
	if r := sig.Recv(); r != nil {
		tys = append(tys, r.Type())
	}
	for i := 0; i < sig.Params().Len(); i++ {
		tys = append(tys, sig.Params().At(i).Type())
	}
	if len(tys) != len(args) && len(args) == len(tys)+1 {
		// interface method signature without receiver
		tys = append([]types.Type{x.V.anyType}, tys...)
	}
	if len(tys) == len(args) && iface {
		tys[0] = x.V.anyType
	}
	if len(con.Params) != len(args) {
		specErr("contract %s declares %d parameters, the function has %d", con.Key, len(con.Params), len(args))
	}
	for i, n := range con.Params {
		vars[n] = SVal{T: args[i].T, Ty: tys[i], V: args[i]}
	}
	return vars
}

func (x *Exec) bindResults(con *Contract, sig *types.Signature, res []Val, vars map[string]SVal) {
	for i, r := range res {
		sv := SVal{T: r.T, Ty: sig.Results().At(i).Type(), V: r}
		vars[fmt.Sprintf("result%d", i)] = sv
		if i == 0 {
			vars["result"] = sv
		}
		if i < len(con.Results) {
			vars[con.Results[i]] = sv
		}
	}
}

func (x *Exec) specPkg(con *Contract, fn *ssa.Function) *types.Package {
	if fn != nil {
		f := fn
		for f.Parent() != nil {
			f = f.Parent()
		}
		if f.Pkg != nil {
			return f.Pkg.Pkg
		}
	}
	return x.V.pkgByKey(strings.TrimPrefix(strings.TrimPrefix(strings.SplitN(con.Key, ".", 2)[0], "field:"), "functype:"))
}

func (x *Exec) applyContract(st *State, fid int, con *Contract, fn *ssa.Function, sig *types.Signature, args []Val, k K) {
	p := x.P
	x.Used[con.Key] = true
	for i := range args {
		if args[i].T == nil && (args[i].A != nil || args[i].F != nil) {
			var t types.Type
			off := 0
			if sig.Recv() != nil {
				off = 1
			}
			if i < off {
				t = sig.Recv().Type()
			} else {
				t = sig.Params().At(i - off).Type()
			}
			args[i].T = x.term(st, args[i], t)
		}
	}
	for _, a := range args {
		x.escape(st, a)
	}
	vars := x.bindParams(con, sig, args, con.Iface, st)
	for _, g := range con.Ghosts {
		// an unspecified ghost argument is universally quantified only through explicit ghostarg; arbitrary here
		so, ty := x.ghostSort(g.Type)
		vars[g.Name] = SVal{T: x.fresh("ghostarg", so), Ty: ty}
	}
	env := &SEnv{x: x, st: st, old: st, vars: vars, pkg: x.specPkg(con, fn)}
	if sig.Recv() != nil && !con.Iface && !con.Trusted {
		if _, isP := sig.Recv().Type().Underlying().(*types.Pointer); isP {
			x.oblige(st, p.Not(p.Eq(args[0].T, p.Int(0))), "nopanic:nilrecv", "nil receiver in call of "+con.Key)
		}
	}
	for i, r := range con.Req {
		nm := r.Name
		if nm == "" {
			nm = fmt.Sprint(i)
		}
		x.oblige(st, env.Bool(r.E), "pre:"+con.Key+":"+nm, "precondition of "+con.Key+": "+r.Src)
	}
	for _, l := range con.Locked {
		mon := x.V.monitor(l.Mu)
		ok := p.fal
		for _, h := range st.held {
			if h.mon != mon || h.mode != 2 {
				continue
			}
			if l.C == nil {
				ok = p.tru
			} else {
				ok = p.Or(ok, p.Eq(h.obj, env.eval(l.C.E).T))
			}
		}
		x.oblige(st, ok, "pre:"+con.Key+":locked:"+l.Mu, "precondition of "+con.Key+": "+l.Mu+" is held")
	}
	taken, maybe := x.calleeLocks(st, con, env)
	view := x.acquireView(st, append(append([]*Monitor(nil), taken...), maybe...))
	after1 := func(st *State, taken []*Monitor) {
		pre := st.clone()
		acq := view
		if len(taken) == 0 {
			acq = nil
		}
		x.growAlloc(st)
		x.havocMods(st, pre, con, env)
		{
			se := *env
			se.st, se.old = pre, pre
			sets := con.Sets
			if len(sets) > 0 {
				c2 := *con
				c2.Sets = nil
				for _, s := range sets {
					also := false
					for _, m := range con.Mod {
						also = also || m.Src == s.Name
					}
					if !also {
						c2.Sets = append(c2.Sets, s)
					}
				}
				x.runSets(st, &c2, &se)
			}
		}
		res := x.havocResults(st, "res_"+shortKey(con.Key), sig)
		v2 := cp(vars)
		x.bindResults(con, sig, res, v2)
		e2 := &SEnv{x: x, st: st, old: pre, acq: acq, vars: v2, pkg: env.pkg}
		if len(con.Records) > 0 {
			e3 := *e2
			e3.st = st.clone()
			x.runGhost(st, con.Records, &e3)
		}
		// the callee's own view of its locks: what they guarded when it took them and when it let go
		e2.st = st.clone()
		e2.st.snaps = map[string]*State{}
		if len(taken) > 0 {
			rel := st.clone()
			rel.snaps = map[string]*State{}
			for _, m := range taken {
				e2.st.snaps["acq:"+m.Type+"."+m.Mu] = acq
				e2.st.snaps["rel:"+m.Type+"."+m.Mu] = rel
			}
		}
		for _, c := range con.Ens {
			x.assume(e2.Bool(c.E))
		}
		if len(taken) > 0 {
			if st.snaps["acq"] == nil {
				st.snaps["acq"] = acq
			}
			for _, m := range taken {
				k := m.Type + "." + m.Mu
				if st.snaps["acq:"+k] == nil {
					st.snaps["acq:"+k] = acq
				}
				st.snaps["rel:"+k] = e2.st.snaps["rel:"+k]
			}
		}
		if ifc := x.V.Spec.Contracts[con.Impl]; con.Impl != "" && ifc != nil {
			iv := map[string]SVal{}
			for i, n := range ifc.Params {
				a := vars[con.Params[i]]
				if i == 0 && a.T != nil && sig.Recv() != nil {
					a = SVal{T: x.Box(sig.Recv().Type(), a.T), Ty: x.V.anyType}
				}
				iv[n] = a
			}
			for _, r := range ifc.Req {
				ie := &SEnv{x: x, st: pre, old: pre, vars: iv, pkg: env.pkg}
				x.oblige(pre, ie.Bool(r.E), "pre:"+ifc.Key, "precondition of "+ifc.Key+": "+r.Src)
			}
			x.bindResults(ifc, sig, res, iv)
			e3 := &SEnv{x: x, st: st, old: pre, vars: iv, pkg: env.pkg}
			for _, c := range ifc.Ens {
				x.assume(e3.Bool(c.E))
			}
		}
		for i := range res {
			if res[i].T != nil {
				if l := x.resolveKnown(st, res[i].T); l != nil {
					res[i].T = l
				}
			}
		}
		k.ret(st, res)
	}
	var choose func(st *State, taken, maybe []*Monitor)
	choose = func(st *State, taken, maybe []*Monitor) {
		if len(maybe) == 0 {
			after1(st, taken)
			return
		}
		x.fork(st, x.fresh("locks", "Bool"), func(s *State) {
			choose(s, append(append([]*Monitor(nil), taken...), maybe[0]), maybe[1:])
		}, func(s *State) { choose(s, taken, maybe[1:]) })
	}
	after := func(st *State) { choose(st, taken, maybe) }
	if con.PanMay {
		if x.canRec > 0 || x.allowPan {
			x.fork(st, x.fresh("calleepanics", "Bool"), func(s *State) { k.pan(s, Val{T: x.fresh("panval", "Any")}) }, after)
			return
		}
		x.oblige(st, p.fal, "nopanic:call "+con.Key, "callee may panic")
		after(st)
		return
	}
	if len(con.PanWhen) > 0 {
		var cs []*Term
		penv := *env
		penv.acq = view
		for _, c := range con.PanWhen {
			t := penv.Bool(c.E)
			if c.Only && (x.canRec > 0 || x.allowPan) {
				t = p.And(t, x.fresh("maypanic", "Bool"))
			}
			cs = append(cs, t)
		}
		c := p.Or(cs...)
		if x.canRec > 0 || x.allowPan {
			x.fork(st, c, func(s *State) { k.pan(s, Val{T: x.fresh("panval", "Any")}) }, after)
			return
		}
		x.oblige(st, p.Not(c), "nopanic:call "+con.Key, "callee panics when "+con.PanWhen[0].Src)
		after(st)
		return
	}
	after(st)
}

// mentions collects the locks a clause speaks of: acquired("T.mu"), acqof / rel("T.mu", E), acq(E).
func (x *Exec) mentions(n ast.Expr, out map[string]bool, depth int) {
	if n == nil || depth > 20 {
		return
	}
	ast.Inspect(n, func(n ast.Node) bool {
		c, ok := n.(*ast.CallExpr)
		if !ok {
			return true
		}
		id, ok := c.Fun.(*ast.Ident)
		if !ok {
			return true
		}
		switch id.Name {
		case "acquired", "acqof", "rel":
			out[id.Name+":"+strings.Trim(exprStr(c.Args[0]), "\"")] = true
		case "acq":
			out["acq"] = true
		}
		if m := x.V.Spec.Macros[id.Name]; m != nil {
			x.mentions(m.E, out, depth+1)
		}
		return true
	})
}

// calleeLocks: the monitors whose locks a callee takes according to its contract: those guarding fields it
// modifies, or that its clauses speak of. Those it says it may not have taken (acquired) are returned apart.
func (x *Exec) calleeLocks(st *State, con *Contract, env *SEnv) (taken, maybe []*Monitor) {
	ment := map[string]bool{}
	for _, c := range con.Ens {
		x.mentions(c.E, ment, 0)
	}
	if ifc := x.V.Spec.Contracts[con.Impl]; con.Impl != "" && ifc != nil {
		for _, c := range ifc.Ens {
			x.mentions(c.E, ment, 0)
		}
	}
	if len(ment) == 0 {
		return
	}
	mods := map[string]bool{}
	if !con.ModAll {
		for _, m := range con.Mod {
			if c, ok := m.E.(*ast.CallExpr); ok {
				if id, ok := c.Fun.(*ast.Ident); ok && (id.Name == "anyof" || id.Name == "anydeep") {
					mods[strings.Trim(exprStr(c.Args[0]), "\"")] = true
				}
			}
			if s, ok := m.E.(*ast.SelectorExpr); ok {
				if v := env.eval(s.X); v.Ty != nil {
					mods[typeKey(deref(v.Ty))+"."+s.Sel.Name] = true
				}
			}
		}
	}
	for _, tk := range sortedKeys(x.V.Spec.Monitors) {
		for _, m := range x.V.Spec.Monitors[tk] {
			if !m.Havoc {
				continue
			}
			k := m.Type + "." + m.Mu
			is := ment["acqof:"+k] || ment["rel:"+k] || con.ModAll && ment["acq"]
			for f := range m.Fields {
				is = is || mods[m.Type+"."+f]
			}
			for _, a := range m.Also {
				for f := range a.Fields {
					is = is || mods[a.Type+"."+f]
				}
			}
			held := false
			for _, h := range st.held {
				held = held || h.mon == m
			}
			switch {
			case held:
			case ment["acquired:"+k]:
				maybe = append(maybe, m)
			case is:
				taken = append(taken, m)
			}
		}
	}
	return
}

// acquireView is the state a callee finds when it takes the given locks: other goroutines may have changed
// what they guard since the call was made.
func (x *Exec) acquireView(pre *State, taken []*Monitor) *State {
	if len(taken) == 0 {
		return nil
	}
	st := pre.clone()
	st.snaps = map[string]*State{}
	for _, m := range taken {
		t, _ := x.V.lookupType(m.Type).(*types.Named)
		if t == nil || x.isImmutable(t) {
			continue
		}
		inside := false
		for _, h := range pre.held {
			inside = inside || m.Within != "" && h.mon != nil && h.mon.Type+"."+h.mon.Mu == m.Within
		}
		if inside {
			continue
		}
		s := t.Underlying().(*types.Struct)
		hv := func(nm, so string) {
			old := x.heap(st, nm, so)
			h := x.havocHeap(st, nm, old)
			st.heaps[nm] = h
			for r := range st.owned {
				x.assume(x.P.Eq(x.P.Select(h, r), x.sel(old, r)))
			}
		}
		for i := 0; i < s.NumFields(); i++ {
			f := s.Field(i)
			if !m.Fields[f.Name()] {
				continue
			}
			hv(x.fieldHeapName(t, i), x.fieldHeapSort(t, i))
			switch u := f.Type().Underlying().(type) {
			case *types.Map:
				for _, k := range []string{"MD", "MV", "ML"} {
					hv(x.mapHeap(k, u))
				}
			case *types.Slice:
				en := x.elemHeapName(u.Elem())
				old := x.heap(st, en, x.elemHeapSort(u.Elem()))
				hv(en, x.elemHeapSort(u.Elem()))
				x.keepHeld(pre, en, old, st.heaps[en], nil)
			}
		}
		for _, a := range m.Also {
			x.havocAlso(st, m, a)
		}
		for _, g := range m.Ghosts {
			so, _ := x.ghostSort(x.V.Spec.Ghosts[g])
			st.ghost[g] = x.fresh("monghost_"+g, so)
		}
	}
	return st
}

// runSets performs the ghost assignments of a contract; they see the state before the call.
func (x *Exec) runSets(st *State, con *Contract, env *SEnv) map[string]*Term {
	return x.runGhost(st, con.Sets, env)
}

func (x *Exec) runGhost(st *State, sets []ghostSet, env *SEnv) map[string]*Term {
	out := map[string]*Term{}
	for _, s := range sets {
		so, ok := x.V.Spec.Ghosts[s.Name]
		if !ok {
			specErr("no ghost %s", s.Name)
		}
		sort, _ := x.ghostSort(so)
		v := env.eval(s.C.E)
		if v.T.Sort != sort {
			specErr("ghost %s: sort %s, have %s", s.Name, sort, v.T.Sort)
		}
		st.ghost[s.Name] = v.T
		x.note("X:" + s.Name)
		out[s.Name] = v.T
	}
	return out
}

func shortKey(k string) string {
	if i := strings.LastIndex(k, "."); i >= 0 {
		return k[i+1:]
	}
	return k
}

func (x *Exec) resolveKnown(st *State, t *Term) *Term {
	if l, ok := st.known[t]; ok {
		return l
	}
	return nil
}

// havocMods forgets what a contract allows to change.
func (x *Exec) havocMods(st, pre *State, con *Contract, env *SEnv) {
	if con.ModAll {
		x.havocAll(st, pre)
		return
	}
	e := *env
	e.st = pre
	for _, m := range con.Mod {
		for _, tg := range e.modTargets(m) {
			switch {
			case tg.ghost != "":
				so, _ := x.ghostSort(x.V.Spec.Ghosts[tg.ghost])
				st.ghost[tg.ghost] = x.fresh("ghost_"+tg.ghost, so)
				x.note("X:" + tg.ghost)
			case tg.ref == nil:
				old := x.heap(st, tg.heap, tg.sort)
				x.note("H:" + tg.heap)
				st.heaps[tg.heap] = x.havocHeap(st, tg.heap, old)
				if tg.deep {
					x.keepHeld(pre, tg.heap, old, st.heaps[tg.heap], nil)
				}
			default:
				h := x.heap(st, tg.heap, tg.sort)
				nv := x.fresh("mod", elemSort(tg.sort))
				if tg.typ != nil {
					x.typeFacts(st, nv, tg.typ, 0)
				}
				if tg.lo != nil {
					q := x.bv("Int")
					s := x.P.Select(nv, q)
					x.assume(x.P.Forall([]*Term{q}, x.P.Implies(x.P.Or(x.P.Lt(q, tg.lo), x.P.Ge(q, tg.hi)), x.P.Eq(s, x.P.Select(x.sel(h, tg.ref), q))), s))
				}
				if strings.HasPrefix(tg.heap, "MD!") || strings.HasPrefix(tg.heap, "E!") {
					// a nil map stays empty, a nil slice has no elements
					x.assume(x.P.Implies(x.P.Eq(tg.ref, x.P.Int(0)), x.P.Eq(nv, x.sel(h, tg.ref))))
				}
				x.setHeap(st, tg.heap, x.P.Store(h, tg.ref, nv))
			}
		}
	}
}

func (x *Exec) havocAll(st, pre *State) {
	names := map[string]string{}
	for n, h := range st.heaps {
		names[n] = h.Sort
	}
	for n, h := range x.hbase {
		names[n] = h.Sort
	}
	for _, n := range sortedKeys(names) {
		old := x.heap(st, n, names[n])
		x.note("H:" + n)
		st.heaps[n] = x.havocHeap(st, n, old)
		h := st.heaps[n]
		for r := range st.owned {
			x.assume(x.P.Eq(x.P.Select(h, r), x.sel(old, r)))
		}
	}
	x.trust("a callee with 'modifies *' does not touch data first accessed after the call in this function")
	for g := range st.ghost {
		so, _ := x.ghostSort(x.V.Spec.Ghosts[g])
		st.ghost[g] = x.fresh("ghost_"+g, so)
		x.note("X:" + g)
	}
}

type modTarget struct {
	heap, sort string
	ref        *Term
	lo, hi     *Term
	typ        types.Type
	ghost      string
	deep       bool // the storage behind a field of unknown objects
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}
