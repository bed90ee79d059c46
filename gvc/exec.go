package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math/big"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// K is the continuation of a function activation.
type K struct {
	ret func(st *State, res []Val)
	pan func(st *State, v Val)
}

type Loop struct {
	hdr   *ssa.BasicBlock
	body  map[*ssa.BasicBlock]bool
	index int
	pos   token.Pos
}

func findLoops(fn *ssa.Function) map[*ssa.BasicBlock]*Loop {
	res := map[*ssa.BasicBlock]*Loop{}
	for _, b := range fn.Blocks {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				lp := res[s]
				if lp == nil {
					lp = &Loop{hdr: s, body: map[*ssa.BasicBlock]bool{s: true}}
					res[s] = lp
				}
				work := []*ssa.BasicBlock{b}
				for len(work) > 0 {
					n := work[len(work)-1]
					work = work[:len(work)-1]
					if lp.body[n] {
						continue
					}
					lp.body[n] = true
					work = append(work, n.Preds...)
				}
			}
		}
	}
	// ordinal by source position of the header's first positioned instruction in the body
	var hs []*ssa.BasicBlock
	for h := range res {
		hs = append(hs, h)
	}
	pos := func(h *ssa.BasicBlock) token.Pos {
		best := token.Pos(1 << 40)
		for b := range res[h].body {
			for _, in := range b.Instrs {
				if p := in.Pos(); p.IsValid() && p < best {
					best = p
				}
			}
		}
		return best
	}
	for i := range hs {
		for j := i + 1; j < len(hs); j++ {
			pi, pj := pos(hs[i]), pos(hs[j])
			if pj < pi || pj == pi && len(res[hs[j]].body) > len(res[hs[i]].body) {
				hs[i], hs[j] = hs[j], hs[i]
			}
		}
	}
	for i, h := range hs {
		res[h].index, res[h].pos = i, pos(h)
	}
	return res
}

func (x *Exec) val(st *State, fid int, v ssa.Value) Val {
	switch c := v.(type) {
	case *ssa.Const:
		return x.constVal(c)
	case *ssa.Global:
		return Val{A: &Addr{K: aGlobal, G: c, Typ: deref(c.Type())}}
	case *ssa.Function:
		return Val{F: &Closure{Fn: c}}
	case *ssa.Builtin:
		return Val{}
	}
	r, ok := st.env[fid][v]
	if !ok {
		panic(&Unsupported{fmt.Sprintf("value %s (%s) not available in %s", v.Name(), v, v.Parent())})
	}
	if r.T != nil {
		if l, ok := st.known[r.T]; ok {
			r.T = l
		}
	}
	return r
}

func (x *Exec) tv(st *State, fid int, v ssa.Value) *Term {
	return x.term(st, x.val(st, fid, v), v.Type())
}

func (x *Exec) set(st *State, fid int, v ssa.Value, r Val) {
	st.env[fid][v] = r
	if r.T != nil {
		x.rangeOf(r.T, v.Type())
	}
}

// feasible tells whether a branch condition can hold (true when undecided).
func (x *Exec) feasible(c *Term) bool {
	x.inTime()
	if c == x.P.tru {
		return true
	}
	if c == x.P.fal {
		return false
	}
	return x.C.Check(x.V.FeasMs, c) != "unsat"
}

func (x *Exec) learn(st *State, c *Term) {
	x.assume(c)
	x.learnEq(st, c)
}
func (x *Exec) learnEq(st *State, c *Term) {
	if c.Op == "and" {
		for _, a := range c.Args {
			x.learnEq(st, a)
		}
	}
	if c.Op == "=" {
		a, b := c.Args[0], c.Args[1]
		if a.num != nil || strings.HasPrefix(a.Op, "str!") {
			a, b = b, a
		}
		if (b.num != nil || strings.HasPrefix(b.Op, "str!")) && len(a.Args) >= 0 && a.num == nil {
			st.known[a] = b
		}
	}
}

// fork explores both outcomes of c.
func (x *Exec) fork(st *State, c *Term, yes, no func(st *State)) {
	if c == x.P.tru {
		yes(st)
		return
	}
	if c == x.P.fal {
		no(st)
		return
	}
	fy := x.feasible(c)
	fn := true
	if fy {
		fn = x.feasible(x.P.Not(c))
	}
	switch {
	case fy && fn:
		x.paths++
		if x.paths > x.V.MaxPaths {
			panic(&Unsupported{"too many paths"})
		}
		s2 := st.clone()
		x.C.Push()
		x.learn(st, c)
		yes(st)
		x.C.Pop()
		x.C.Push()
		x.learn(s2, x.P.Not(c))
		no(s2)
		x.C.Pop()
	case fy:
		x.learn(st, c)
		yes(st)
	default:
		x.learn(st, x.P.Not(c))
		no(st)
	}
}

// must requires c to hold: a violated c is a run-time panic.
func (x *Exec) must(st *State, fid int, c *Term, kind, what string, k K, next func(st *State)) {
	if c == x.P.tru {
		next(st)
		return
	}
	if x.canRec > 0 || x.allowPan {
		x.fork(st, c, next, func(st *State) { x.panicNow(st, fid, Val{T: x.fresh("rtpanic", "Any")}, k) })
		return
	}
	x.oblige(st, c, "nopanic:"+kind, what)
	next(st)
}

func (x *Exec) panicNow(st *State, fid int, v Val, k K) {
	for _, c := range x.cuts {
		if c.fid == fid && c.phaseA {
			return // leaves the loop being analysed
		}
	}
	// run deferred calls of this frame
	st.pan = &panState{val: v}
	x.runDefers(st, fid, K{
		ret: func(st *State, _ []Val) {
			if st.pan != nil && st.pan.recovered {
				st.pan = nil
				fn := x.frameFn[fid]
				if fn.Recover != nil {
					x.run(fid, fn, fn.Recover, nil, 0, st, k)
				} else {
					res := make([]Val, 0)
					rs := fn.Signature.Results()
					for i := 0; i < rs.Len(); i++ {
						res = append(res, Val{T: x.zero(rs.At(i).Type())})
					}
					k.ret(st, res)
				}
				return
			}
			st.pan = nil
			k.pan(st, v)
		},
		pan: k.pan,
	})
}

func (x *Exec) runDefers(st *State, fid int, k K) {
	ds := st.defers[fid]
	if len(ds) == 0 {
		k.ret(st, nil)
		return
	}
	d := ds[len(ds)-1]
	st.defers[fid] = ds[:len(ds)-1]
	x.doCall(st, fid, d.call, d.fn, d.args, "defer", K{
		ret: func(st *State, _ []Val) { x.runDefers(st, fid, k) },
		pan: k.pan,
	}, nil)
}

// callFn inlines fn.
func (x *Exec) callFn(st *State, fn *ssa.Function, args []Val, bind []Val, k K) {
	if len(fn.Blocks) == 0 {
		panic(&Unsupported{"function without body: " + fn.String()})
	}
	for _, f := range x.stack {
		if f == fn {
			panic(&Unsupported{"recursive function without contract: " + fn.String()})
		}
	}
	if len(x.stack) > 14 {
		panic(&Unsupported{"inlining too deep at " + fn.String()})
	}
	x.nfid++
	fid := x.nfid
	x.frameFn[fid] = fn
	env := map[ssa.Value]Val{}
	st.env[fid] = env
	for i, p := range fn.Params {
		env[p] = args[i]
	}
	for i, f := range fn.FreeVars {
		env[f] = bind[i]
	}
	rec := x.V.recovers(fn)
	stk, fids := x.stack, x.fids
	x.stack = append(append([]*ssa.Function{}, stk...), fn)
	x.fids = append(append([]int{}, fids...), fid)
	if rec {
		x.canRec++
	}
	leave := func(f func()) {
		s, fs := x.stack, x.fids
		x.stack, x.fids = stk, fids
		if rec {
			x.canRec--
		}
		f()
		if rec {
			x.canRec++
		}
		x.stack, x.fids = s, fs
	}
	x.run(fid, fn, fn.Blocks[0], nil, 0, st, K{
		ret: func(st *State, res []Val) {
			e := st.env[fid]
			delete(st.env, fid)
			leave(func() { k.ret(st, res) })
			_ = e
		},
		pan: func(st *State, v Val) { leave(func() { k.pan(st, v) }) },
	})
	x.stack, x.fids = stk, fids
	if rec {
		x.canRec--
	}
}

func (x *Exec) run(fid int, fn *ssa.Function, b *ssa.BasicBlock, pred *ssa.BasicBlock, start int, st *State, k K) {
	for {
		x.inTime()
		if start == 0 && pred != nil {
			// leaving a loop under phase A analysis?
			for _, c := range x.cuts {
				if c.phaseA && c.fid == fid && !c.lp.body[b] {
					return
				}
			}
			if lp := x.V.loops(fn)[b]; lp != nil {
				x.atHeader(fid, fn, lp, pred, st, k)
				return
			}
			// phis
			x.phis(st, fid, b, pred)
			for start < len(b.Instrs) {
				if _, ok := b.Instrs[start].(*ssa.Phi); !ok {
					break
				}
				start++
			}
		}
		for i := start; i < len(b.Instrs); i++ {
			in := b.Instrs[i]
			x.cur = in
			switch in := in.(type) {
			case *ssa.Jump:
				pred, b = b, b.Succs[0]
				start = 0
				goto next
			case *ssa.If:
				c := x.tv(st, fid, in.Cond)
				bb := b
				x.fork(st, c,
					func(st *State) { x.run(fid, fn, bb.Succs[0], bb, 0, st, k) },
					func(st *State) { x.run(fid, fn, bb.Succs[1], bb, 0, st, k) })
				return
			case *ssa.Return:
				for _, c := range x.cuts {
					if c.phaseA && c.fid == fid {
						return
					}
				}
				var res []Val
				for _, r := range in.Results {
					res = append(res, x.val(st, fid, r))
				}
				k.ret(st, res)
				return
			case *ssa.Panic:
				x.panicNow(st, fid, x.val(st, fid, in.X), k)
				return
			}
			idx := i + 1
			bb, pp := b, pred
			if !x.step(fid, fn, in, st, k, func(s *State) { x.run(fid, fn, bb, pp, idx, s, k) }) {
				return
			}
		}
		panic("block without terminator")
	next:
	}
}

func (x *Exec) phis(st *State, fid int, b, pred *ssa.BasicBlock) {
	pi := -1
	for i, p := range b.Preds {
		if p == pred {
			pi = i
		}
	}
	var vs []Val
	var ps []*ssa.Phi
	for _, in := range b.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		ps = append(ps, ph)
		vs = append(vs, x.val(st, fid, ph.Edges[pi]))
	}
	for i, ph := range ps {
		x.set(st, fid, ph, vs[i])
	}
}

// step executes one non-terminator.  It returns true when execution simply
// continues with the next instruction in the same state; otherwise it has
// invoked next (possibly several times) itself.
func (x *Exec) step(fid int, fn *ssa.Function, in ssa.Instruction, st *State, k K, next func(*State)) bool {
	p := x.P
	switch in := in.(type) {
	case *ssa.DebugRef:
		return true
	case *ssa.Alloc:
		t := deref(in.Type())
		if s, ok := t.Underlying().(*types.Struct); ok && x.Sort(t)[:1] != "O" && !strings.HasPrefix(x.Sort(t), "|O!") {
			_ = s
			r := x.newRef(st)
			n, named := t.(*types.Named)
			if named && x.isImmutable(n) {
				st.fresh[r] = map[int]Val{}
				x.immOwner[r] = n
			} else {
				for i := 0; i < s.NumFields(); i++ {
					x.setField(st, t, r, i, x.zero(s.Field(i).Type()))
				}
			}
			x.set(st, fid, in, Val{T: r})
			return true
		}
		if a, ok := t.Underlying().(*types.Array); ok {
			r := x.newRef(st)
			nm := x.elemHeapName(a.Elem())
			h := x.heap(st, nm, x.elemHeapSort(a.Elem()))
			x.setHeap(st, nm, p.Store(h, r, p.ConstArr(ArrSort("Int", x.Sort(a.Elem())), x.zero(a.Elem()))))
			x.set(st, fid, in, Val{T: r})
			return true
		}
		ad := x.newCell(st, t, Val{T: x.zero(t)})
		x.set(st, fid, in, Val{A: ad})
		return true
	case *ssa.Store:
		a, ok := x.addrOf(st, fid, in.Addr, k)
		if !ok {
			return false
		}
		v := x.val(st, fid, in.Val)
		if a == nil { // whole struct / array store through pointer
			x.storeWhole(st, x.tv(st, fid, in.Addr), deref(in.Addr.Type()), x.term(st, v, in.Val.Type()))
			return true
		}
		if a.K != aCell && v.T != nil {
			x.publishTerm(st, v.T)
			if !(a.K == aField && st.owned[a.Ref]) {
				x.disown(st, v.T)
			}
		}
		if a.K == aCell && v.T == nil && v.F == nil && v.A == nil {
			panic(&Unsupported{"store of tuple"})
		}
		x.store(st, a, v)
		return true
	case *ssa.UnOp:
		return x.unop(fid, in, st, k, next)
	case *ssa.BinOp:
		return x.binop(fid, in, st, k, next)
	case *ssa.Call:
		args, f := x.callArgs(st, fid, &in.Call)
		x.doCall(st, fid, &in.Call, f, args, "call", K{
			ret: func(s *State, res []Val) {
				switch len(res) {
				case 0:
				case 1:
					x.set(s, fid, in, res[0])
				default:
					x.set(s, fid, in, Val{Tup: res})
				}
				next(s)
			},
			pan: func(s *State, v Val) { x.panicNow(s, fid, v, k) },
		}, in)
		return false
	case *ssa.Defer:
		args, f := x.callArgs(st, fid, &in.Call)
		st.defers[fid] = append(st.defers[fid], deferred{&in.Call, args, f})
		return true
	case *ssa.RunDefers:
		x.runDefers(st, fid, K{ret: func(s *State, _ []Val) { next(s) }, pan: func(s *State, v Val) { x.panicNow(s, fid, v, k) }})
		return false
	case *ssa.Go:
		args, f := x.callArgs(st, fid, &in.Call)
		for _, a := range args {
			x.escape(st, a)
		}
		x.escape(st, f)
		x.goStmt(st, fid, in, f, args)
		return true
	case *ssa.Extract:
		t := x.val(st, fid, in.Tuple)
		if t.Tup == nil {
			panic(&Unsupported{"extract from non tuple"})
		}
		x.set(st, fid, in, t.Tup[in.Index])
		return true
	case *ssa.Field:
		v := x.tv(st, fid, in.X)
		r := x.structGet(in.X.Type(), v, in.Field)
		if r.Op[:1] != "#" {
			x.typeFacts(st, r, in.Type(), 0)
		}
		x.set(st, fid, in, Val{T: r})
		return true
	case *ssa.FieldAddr:
		base := x.val(st, fid, in.X)
		st0 := deref(in.X.Type())
		str := st0.Underlying().(*types.Struct)
		ft := str.Field(in.Field).Type()
		if base.A != nil {
			a := *base.A
			a.Path = append(append([]int{}, a.Path...), in.Field)
			a.PTyp = append(append([]types.Type{}, a.PTyp...), ft)
			x.set(st, fid, in, Val{A: &a})
			return true
		}
		ref := base.T
		if ia, ok := x.addrs[ref]; ok {
			a := *ia
			a.Path = append(append([]int{}, a.Path...), in.Field)
			a.PTyp = append(append([]types.Type{}, a.PTyp...), ft)
			x.set(st, fid, in, Val{A: &a})
			return true
		}
		rp := x.canRec > 0 || x.allowPan
		x.must(st, fid, p.Not(p.Eq(ref, p.Int(0))), "nil", "nil pointer dereference of "+in.X.Type().String(), k, func(s *State) {
			ad := &Addr{K: aField, Ref: ref, Field: in.Field, Typ: ft}
			if n, ok := st0.(*types.Named); ok {
				ad.Owner = n
			} else {
				ad.Str = str
			}
			x.set(s, fid, in, Val{A: ad})
			if rp {
				next(s)
			}
		})
		return !rp
	case *ssa.IndexAddr:
		idx := x.tv(st, fid, in.Index)
		xt := in.X.Type().Underlying()
		var base, off, ln *Term
		var el types.Type
		switch u := xt.(type) {
		case *types.Slice:
			s := x.tv(st, fid, in.X)
			base, off, ln, el = x.sBase(s), x.sOff(s), x.sLen(s), u.Elem()
			if l, ok := st.known[ln]; ok {
				ln = l
			}
		case *types.Pointer:
			arr := u.Elem().Underlying().(*types.Array)
			bv := x.val(st, fid, in.X)
			if bv.A != nil {
				panic(&Unsupported{"index into array field"})
			}
			base, off, ln, el = bv.T, p.Int(0), p.Int(arr.Len()), arr.Elem()
		}
		c := p.And(p.Le(p.Int(0), idx), p.Lt(idx, ln))
		ad := &Addr{K: aElem, Ref: base, Idx: p.Add(off, idx), Typ: el}
		rp := x.canRec > 0 || x.allowPan
		x.must(st, fid, c, "index", "index in range", k, func(s *State) {
			x.set(s, fid, in, Val{A: ad})
			if rp {
				next(s)
			}
		})
		return !rp
	case *ssa.Index:
		idx := x.tv(st, fid, in.Index)
		rp := x.canRec > 0 || x.allowPan
		switch u := in.X.Type().Underlying().(type) {
		case *types.Basic:
			s := x.tv(st, fid, in.X)
			x.must(st, fid, p.And(p.Le(p.Int(0), idx), p.Lt(idx, x.SLen(s))), "index", "string index in range", k, func(s2 *State) {
				x.set(s2, fid, in, Val{T: p.mk("sat", "Int", s, idx)})
				if rp {
					next(s2)
				}
			})
		case *types.Array:
			a := x.tv(st, fid, in.X)
			x.must(st, fid, p.And(p.Le(p.Int(0), idx), p.Lt(idx, p.Int(u.Len()))), "index", "array index in range", k, func(s2 *State) {
				x.set(s2, fid, in, Val{T: x.sel(a, idx)})
				if rp {
					next(s2)
				}
			})
		default:
			panic(&Unsupported{"index of " + in.X.Type().String()})
		}
		return !rp
	case *ssa.Slice:
		return x.sliceOp(fid, in, st, k, next)
	case *ssa.MakeSlice:
		el := in.Type().Underlying().(*types.Slice).Elem()
		ln, cp := x.tv(st, fid, in.Len), x.tv(st, fid, in.Cap)
		rp := x.canRec > 0 || x.allowPan
		x.must(st, fid, p.And(p.Le(p.Int(0), ln), p.Le(ln, cp), p.Le(cp, p.Big(big2(45)))), "makeslice", "make with valid length and capacity", k, func(s *State) {
			r := x.newRef(s)
			nm := x.elemHeapName(el)
			h := x.heap(s, nm, x.elemHeapSort(el))
			x.setHeap(s, nm, p.Store(h, r, p.ConstArr(ArrSort("Int", x.Sort(el)), x.zero(el))))
			x.set(s, fid, in, Val{T: x.mkSlice(r, p.Int(0), ln, cp)})
			if rp {
				next(s)
			}
		})
		return !rp
	case *ssa.MakeMap:
		m := in.Type().Underlying().(*types.Map)
		r := x.newRef(st)
		dn, ds := x.mapHeap("MD", m)
		ln, ls := x.mapHeap("ML", m)
		x.setHeap(st, dn, p.Store(x.heap(st, dn, ds), r, p.ConstArr(ArrSort(x.Sort(m.Key()), "Bool"), p.fal)))
		x.setHeap(st, ln, p.Store(x.heap(st, ln, ls), r, p.Int(0)))
		x.set(st, fid, in, Val{T: r})
		return true
	case *ssa.MakeChan:
		r := x.newRef(st)
		x.assume(p.Not(x.sel(x.heap(st, "CH!closed", ArrSort("Int", "Bool")), r)))
		x.set(st, fid, in, Val{T: r})
		return true
	case *ssa.MapUpdate:
		m := in.Map.Type().Underlying().(*types.Map)
		ref := x.tv(st, fid, in.Map)
		kk, v := x.tv(st, fid, in.Key), x.val(st, fid, in.Value)
		vt := x.term(st, v, in.Value.Type())
		x.publishTerm(st, vt)
		if !st.owned[ref] {
			x.disown(st, vt)
		}
		rp := x.canRec > 0 || x.allowPan
		nn := p.Not(p.Eq(ref, p.Int(0)))
		if x.freshRef[ref] {
			nn = p.tru
		}
		x.must(st, fid, nn, "nilmap", "assignment to entry in nil map", k, func(s *State) {
			x.mapSet(s, m, ref, kk, vt, false)
			if rp {
				next(s)
			}
		})
		return !rp
	case *ssa.Lookup:
		if m, ok := in.X.Type().Underlying().(*types.Map); ok {
			ref, kk := x.tv(st, fid, in.X), x.tv(st, fid, in.Index)
			has, v := x.mapGet(st, m, ref, kk)
			x.typeFactsIf(st, has, v, m.Elem())
			r := x.P.Ite(has, v, x.zero(m.Elem()))
			if in.CommaOk {
				x.set(st, fid, in, Val{Tup: []Val{{T: r}, {T: has}}})
			} else {
				x.set(st, fid, in, Val{T: r})
			}
			return true
		}
		panic(&Unsupported{"lookup"})
	case *ssa.MakeClosure:
		var bs []Val
		for _, b := range in.Bindings {
			bs = append(bs, x.val(st, fid, b))
		}
		x.set(st, fid, in, Val{F: &Closure{Fn: in.Fn.(*ssa.Function), Bind: bs}})
		return true
	case *ssa.MakeInterface:
		v := x.val(st, fid, in.X)
		t := x.term(st, v, in.X.Type())
		x.set(st, fid, in, Val{T: x.Box(in.X.Type(), t)})
		return true
	case *ssa.ChangeInterface:
		x.set(st, fid, in, x.val(st, fid, in.X))
		return true
	case *ssa.ChangeType:
		v := x.val(st, fid, in.X)
		if v.T != nil && x.Sort(in.X.Type()) != x.Sort(in.Type()) {
			// struct conversion
			s := in.X.Type().Underlying().(*types.Struct)
			vals := make([]*Term, s.NumFields())
			for i := range vals {
				vals[i] = x.structGet(in.X.Type(), v.T, i)
			}
			v = Val{T: x.mkStruct(in.Type(), vals)}
		}
		x.set(st, fid, in, v)
		return true
	case *ssa.TypeAssert:
		return x.typeAssert(fid, in, st, k, next)
	case *ssa.Convert:
		return x.convert(fid, in, st)
	case *ssa.Range:
		x.set(st, fid, in, x.mkIter(st, fid, in))
		return true
	case *ssa.Next:
		x.nextIter(st, fid, in)
		return true
	case *ssa.Send:
		x.chanSend(st, fid, in)
		return true
	case *ssa.Select:
		x.selectOp(st, fid, in, next)
		return false
	case *ssa.SliceToArrayPointer, *ssa.MultiConvert:
		panic(&Unsupported{in.String()})
	}
	panic(&Unsupported{fmt.Sprintf("instruction %T %s", in, in)})
}

func (x *Exec) typeFactsIf(st *State, c, v *Term, t types.Type) {
	if v.num != nil || v.bound {
		return
	}
	for _, f := range x.typeFactList(st, v, t, 0) {
		x.assume(x.P.Implies(c, f))
	}
}

// addrOf resolves a pointer operand; nil Addr means "pointer to whole struct or array object".
func (x *Exec) addrOf(st *State, fid int, v ssa.Value, k K) (*Addr, bool) {
	pv := x.val(st, fid, v)
	if pv.A != nil {
		return pv.A, true
	}
	if pv.T == nil {
		panic(&Unsupported{"store through function value"})
	}
	if a, ok := x.addrs[pv.T]; ok {
		return a, true
	}
	t := deref(v.Type())
	if _, ok := t.Underlying().(*types.Struct); ok && !strings.Contains(x.Sort(t), "O!") {
		return nil, true
	}
	if _, ok := t.Underlying().(*types.Array); ok {
		return nil, true
	}
	// boxed scalar
	if x.canRec == 0 && !x.allowPan {
		x.oblige(st, x.P.Not(x.P.Eq(pv.T, x.P.Int(0))), "nopanic:nil", "nil pointer dereference")
	}
	return &Addr{K: aBox, Ref: pv.T, Typ: t}, true
}

func (x *Exec) storeWhole(st *State, ref *Term, t types.Type, v *Term) {
	switch u := t.Underlying().(type) {
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			x.setField(st, t, ref, i, x.structGet(t, v, i))
		}
	case *types.Array:
		nm := x.elemHeapName(u.Elem())
		h := x.heap(st, nm, x.elemHeapSort(u.Elem()))
		x.setHeap(st, nm, x.P.Store(h, ref, v))
	}
}

func (x *Exec) loadWhole(st *State, ref *Term, t types.Type) *Term {
	switch u := t.Underlying().(type) {
	case *types.Struct:
		vs := make([]*Term, u.NumFields())
		for i := range vs {
			vs[i] = x.getField(st, t, ref, i)
		}
		return x.mkStruct(t, vs)
	case *types.Array:
		h := x.heap(st, x.elemHeapName(u.Elem()), x.elemHeapSort(u.Elem()))
		return x.sel(h, ref)
	}
	panic("loadWhole")
}

func (x *Exec) unop(fid int, in *ssa.UnOp, st *State, k K, next func(*State)) bool {
	p := x.P
	switch in.Op {
	case token.MUL:
		a, _ := x.addrOf(st, fid, in.X, k)
		if a == nil {
			ref := x.tv(st, fid, in.X)
			rp := x.canRec > 0 || x.allowPan
			x.must(st, fid, p.Not(p.Eq(ref, p.Int(0))), "nil", "nil pointer dereference", k, func(s *State) {
				v := x.loadWhole(s, ref, deref(in.X.Type()))
				x.typeFacts(s, v, deref(in.X.Type()), 0)
				x.set(s, fid, in, Val{T: v})
				if rp {
					next(s)
				}
			})
			return !rp
		}
		x.set(st, fid, in, x.load(st, a))
		return true
	case token.NOT:
		x.set(st, fid, in, Val{T: p.Not(x.tv(st, fid, in.X))})
		return true
	case token.SUB:
		v := x.tv(st, fid, in.X)
		if v.Sort == "F64" {
			x.set(st, fid, in, Val{T: x.fltOp("neg", v)})
			return true
		}
		x.set(st, fid, in, Val{T: x.wrap(st, p.Neg(v), in.Type())})
		return true
	case token.XOR:
		v := x.tv(st, fid, in.X)
		_, sg := intWidth(in.Type())
		if sg {
			x.set(st, fid, in, Val{T: p.Sub(p.Int(-1), v)})
		} else {
			_, hi, _ := intRange(in.Type())
			x.set(st, fid, in, Val{T: p.Sub(p.Big(hi), v)})
		}
		return true
	case token.ARROW:
		ct := in.X.Type().Underlying().(*types.Chan)
		v := x.havocVal(st, "recv", ct.Elem())
		if in.CommaOk {
			x.set(st, fid, in, Val{Tup: []Val{v, {T: x.fresh("recvok", "Bool")}}})
		} else {
			x.set(st, fid, in, v)
		}
		x.trust("channel receive yields an arbitrary value of the element type")
		return true
	}
	panic(&Unsupported{"unop " + in.String()})
}

// wrap reduces a mathematical integer to the range of a Go type.
func (x *Exec) wrap(st *State, v *Term, t types.Type) *Term {
	p := x.P
	lo, hi, ok := intRange(t)
	if !ok {
		return v
	}
	if v.num != nil {
		m := big2(uint(new(big.Int).Sub(hi, lo).BitLen()))
		r := new(big.Int).Mod(new(big.Int).Sub(v.num, lo), m)
		return p.Big(r.Add(r, lo))
	}
	a, b := x.bounds(v)
	if a != nil && b != nil && a.Cmp(lo) >= 0 && b.Cmp(hi) <= 0 {
		return v
	}
	// solver check that no overflow happens
	inr := p.And(p.Le(p.Big(lo), v), p.Le(v, p.Big(hi)))
	w, _ := intWidth(t)
	if w >= 32 {
		if x.C.Check(x.V.FeasMs, p.Not(inr)) == "unsat" {
			x.ranges[v] = [2]*big.Int{lo, hi}
			return v
		}
	}
	m := p.Big(big2(w))
	if lo.Sign() == 0 {
		return p.Mod(v, m)
	}
	h := p.Big(big2(w - 1))
	return p.Sub(p.Mod(p.Add(v, h), m), h)
}

func (x *Exec) fltOp(op string, as ...*Term) *Term {
	ret := "F64"
	switch op {
	case "lt", "le":
		ret = "Bool"
	}
	return x.P.Fun("f."+op, ret, as...)
}

func (x *Exec) binop(fid int, in *ssa.BinOp, st *State, k K, next func(*State)) bool {
	p := x.P
	av, bv := x.val(st, fid, in.X), x.val(st, fid, in.Y)
	a, b := x.term(st, av, in.X.Type()), x.term(st, bv, in.Y.Type())
	var r *Term
	isF := a.Sort == "F64"
	switch in.Op {
	case token.ADD:
		switch {
		case isF:
			r = x.fltOp("add", a, b)
		case a.Sort == "Str":
			r = x.sconcat(a, b)
		default:
			r = x.wrap(st, p.Add(a, b), in.Type())
		}
	case token.SUB:
		if isF {
			r = x.fltOp("sub", a, b)
		} else {
			r = x.wrap(st, p.Sub(a, b), in.Type())
		}
	case token.MUL:
		if isF {
			r = x.fltOp("mul", a, b)
		} else {
			r = x.wrap(st, p.Mul(a, b), in.Type())
		}
	case token.QUO, token.REM:
		if isF {
			r = x.fltOp("div", a, b)
			break
		}
		rp := x.canRec > 0 || x.allowPan
		x.must(st, fid, p.Not(p.Eq(b, p.Int(0))), "div", "division by zero", k, func(s *State) {
			x.set(s, fid, in, Val{T: x.goDiv(s, in.Op, a, b, in.Type())})
			if rp {
				next(s)
			}
		})
		return !rp
	case token.EQL, token.NEQ:
		r = x.eqVals(st, a, b, in.X.Type(), in.Y.Type())
		if in.Op == token.NEQ {
			r = p.Not(r)
		}
	case token.LSS, token.LEQ, token.GTR, token.GEQ:
		op := in.Op
		if op == token.GTR || op == token.GEQ {
			a, b = b, a
			if op == token.GTR {
				op = token.LSS
			} else {
				op = token.LEQ
			}
		}
		switch {
		case isF:
			if op == token.LSS {
				r = x.fltOp("lt", a, b)
			} else {
				r = x.fltOp("le", a, b)
			}
		case a.Sort == "Str":
			r = p.Fun("s.lt", "Bool", a, b)
			if op == token.LEQ {
				r = p.Or(r, p.Eq(a, b))
			}
		case op == token.LSS:
			r = p.Lt(a, b)
		default:
			r = p.Le(a, b)
		}
	case token.SHL:
		if b.num != nil && b.num.Sign() >= 0 {
			n := b.num.Uint64()
			w, _ := intWidth(in.Type())
			if uint(n) >= w {
				r = p.Int(0)
			} else {
				r = x.wrap(st, p.Mul(a, p.Big(big2(uint(n)))), in.Type())
			}
		} else {
			r = x.symShift(st, "shl", a, b, in.Type())
		}
	case token.SHR:
		if b.num != nil && b.num.Sign() >= 0 {
			n := uint(b.num.Uint64())
			if n > 128 {
				n = 128
			}
			r = p.Div(a, p.Big(big2(n)))
		} else {
			r = x.symShift(st, "shr", a, b, in.Type())
		}
	case token.AND, token.OR, token.XOR, token.AND_NOT:
		if a.Sort == "Bool" {
			panic(&Unsupported{"bool bitop"})
		}
		r = x.bitop(st, in.Op, a, b, in.Type())
	default:
		panic(&Unsupported{"binop " + in.String()})
	}
	x.set(st, fid, in, Val{T: r})
	return true
}

func (x *Exec) goDiv(st *State, op token.Token, a, b *Term, t types.Type) *Term {
	p := x.P
	lo, _ := x.bounds(a)
	if lo != nil && lo.Sign() >= 0 && b.num != nil && b.num.Sign() > 0 {
		if op == token.QUO {
			return p.Div(a, b)
		}
		return p.Mod(a, b)
	}
	// truncated division
	absA := p.Ite(p.Lt(a, p.Int(0)), p.Neg(a), a)
	absB := p.Ite(p.Lt(b, p.Int(0)), p.Neg(b), b)
	q := p.Div(absA, absB)
	if op == token.QUO {
		sg := p.Eq(p.Lt(a, p.Int(0)), p.Lt(b, p.Int(0)))
		return x.wrap(st, p.Ite(sg, q, p.Neg(q)), t)
	}
	m := p.Mod(absA, absB)
	return p.Ite(p.Lt(a, p.Int(0)), p.Neg(m), m)
}

func (x *Exec) symShift(st *State, op string, a, b *Term, t types.Type) *Term {
	w, _ := intWidth(t)
	lo, hi := x.bounds(b)
	p := x.P
	if lo != nil && hi != nil && lo.Sign() >= 0 && hi.Cmp(big.NewInt(64)) <= 0 {
		r := p.Int(0)
		for n := int64(hi.Int64()); n >= lo.Int64(); n-- {
			var v *Term
			if op == "shl" {
				if uint(n) >= w {
					v = p.Int(0)
				} else {
					v = x.wrap(st, p.Mul(a, p.Big(big2(uint(n)))), t)
				}
			} else {
				v = p.Div(a, p.Big(big2(uint(n))))
			}
			r = p.Ite(p.Eq(b, p.Int(n)), v, r)
		}
		return r
	}
	r := p.Fun(op, "Int", a, b)
	lo2, hi2, _ := intRange(t)
	x.assume(p.And(p.Le(p.Big(lo2), r), p.Le(r, p.Big(hi2))))
	return r
}

// bitop: exact for masks that are runs of ones and for disjoint operands, otherwise uninterpreted within range.
func (x *Exec) bitop(st *State, op token.Token, a, b *Term, t types.Type) *Term {
	p := x.P
	if a.num != nil && b.num != nil {
		r := new(big.Int)
		switch op {
		case token.AND:
			r.And(a.num, b.num)
		case token.OR:
			r.Or(a.num, b.num)
		case token.XOR:
			r.Xor(a.num, b.num)
		case token.AND_NOT:
			r.AndNot(a.num, b.num)
		}
		return p.Big(r)
	}
	if a.num != nil && op != token.AND_NOT {
		a, b = b, a
	}
	alo, ahi := x.bounds(a)
	if b.num != nil && b.num.Sign() >= 0 && alo != nil && alo.Sign() >= 0 {
		andc := func(m *big.Int) *Term {
			// sum over runs of ones
			r := p.Int(0)
			i := uint(0)
			n := uint(m.BitLen())
			for i < n {
				if m.Bit(int(i)) == 0 {
					i++
					continue
				}
				j := i
				for j < n && m.Bit(int(j)) == 1 {
					j++
				}
				r = p.Add(r, p.Mul(p.Mod(p.Div(a, p.Big(big2(i))), p.Big(big2(j-i))), p.Big(big2(i))))
				i = j
			}
			return r
		}
		switch op {
		case token.AND:
			return andc(b.num)
		case token.AND_NOT:
			return p.Sub(a, andc(b.num))
		case token.OR:
			return p.Add(p.Sub(a, andc(b.num)), b)
		case token.XOR:
			m := andc(b.num)
			return p.Add(p.Sub(a, m), p.Sub(b, m))
		}
	}
	if op == token.OR || op == token.XOR {
		blo, bhi := x.bounds(b)
		if alo != nil && blo != nil && alo.Sign() >= 0 && blo.Sign() >= 0 {
			if bhi != nil && uint(bhi.BitLen()) <= pow2div(a) || ahi != nil && uint(ahi.BitLen()) <= pow2div(b) {
				return p.Add(a, b)
			}
		}
	}
	r := p.Fun("bit"+op.String(), "Int", a, b)
	lo, hi, _ := intRange(t)
	x.assume(p.And(p.Le(p.Big(lo), r), p.Le(r, p.Big(hi))))
	return r
}

func (x *Exec) sconcat(a, b *Term) *Term {
	if a.Op == "str!" {
		return b
	}
	if b.Op == "str!" {
		return a
	}
	if sa, ok := x.strOf[a]; ok {
		if sb, ok := x.strOf[b]; ok {
			return x.Str(sa + sb)
		}
	}
	return x.P.mk("sconcat", "Str", a, b)
}

func (x *Exec) eqVals(st *State, a, b *Term, ta, tb types.Type) *Term {
	p := x.P
	if a.Sort == "Slice" {
		// only comparison with nil is legal
		if b.Op == "mk!Slice" && b.Args[0] == p.Int(0) {
			return p.Eq(x.sBase(a), p.Int(0))
		}
		return p.Eq(x.sBase(b), p.Int(0))
	}
	if a.Sort != b.Sort {
		if a.Sort == "Any" {
			b = x.Box(tb, b)
		} else if b.Sort == "Any" {
			a = x.Box(ta, a)
		}
	}
	if a.Sort == "F64" {
		return p.Fun("f.eq", "Bool", a, b)
	}
	return p.Eq(a, b)
}

func (x *Exec) sliceOp(fid int, in *ssa.Slice, st *State, k K, next func(*State)) bool {
	p := x.P
	var lo, hi *Term
	lo = p.Int(0)
	if in.Low != nil {
		lo = x.tv(st, fid, in.Low)
	}
	if in.High != nil {
		hi = x.tv(st, fid, in.High)
	}
	rp := x.canRec > 0 || x.allowPan
	switch u := in.X.Type().Underlying().(type) {
	case *types.Slice:
		s := x.tv(st, fid, in.X)
		if hi == nil {
			hi = x.sLen(s)
		}
		cp := x.sCap(s)
		mx := cp
		if in.Max != nil {
			mx = x.tv(st, fid, in.Max)
		}
		c := p.And(p.Le(p.Int(0), lo), p.Le(lo, hi), p.Le(hi, mx), p.Le(mx, cp))
		x.must(st, fid, c, "slice", "slice bounds", k, func(s2 *State) {
			ln := p.Sub(hi, lo)
			if l, ok := s2.known[ln]; ok {
				ln = l
			}
			r := x.mkSlice(x.sBase(s), p.Add(x.sOff(s), lo), ln, p.Sub(mx, lo))
			x.set(s2, fid, in, Val{T: r})
			if rp {
				next(s2)
			}
		})
		return !rp
	case *types.Pointer:
		arr := u.Elem().Underlying().(*types.Array)
		bv := x.val(st, fid, in.X)
		if bv.A != nil {
			// the array of a field that is only ever used through slices: storage of its own
			a := bv.A
			if a.K != aField || len(a.Path) > 0 || !x.V.onlySliced(a.Owner0(), a.Field) {
				panic(&Unsupported{"slice of array field"})
			}
			bv = Val{T: x.addrTerm(st, a)}
			x.assume(p.Gt(bv.T, p.Int(0)))
		}
		n := p.Int(arr.Len())
		if hi == nil {
			hi = n
		}
		x.must(st, fid, p.And(p.Le(p.Int(0), lo), p.Le(lo, hi), p.Le(hi, n)), "slice", "slice bounds", k, func(s2 *State) {
			x.set(s2, fid, in, Val{T: x.mkSlice(bv.T, lo, p.Sub(hi, lo), p.Sub(n, lo))})
			if rp {
				next(s2)
			}
		})
		return !rp
	case *types.Basic:
		s := x.tv(st, fid, in.X)
		if hi == nil {
			hi = x.SLen(s)
		}
		x.must(st, fid, p.And(p.Le(p.Int(0), lo), p.Le(lo, hi), p.Le(hi, x.SLen(s))), "slice", "string slice bounds", k, func(s2 *State) {
			x.set(s2, fid, in, Val{T: x.substr(s, lo, hi)})
			if rp {
				next(s2)
			}
		})
		return !rp
	}
	panic(&Unsupported{"slice of " + in.X.Type().String()})
}

func (x *Exec) substr(s, lo, hi *Term) *Term {
	p := x.P
	if lo == p.Int(0) && hi == x.SLen(s) {
		return s
	}
	if v, ok := x.strOf[s]; ok && lo.num != nil && hi.num != nil {
		return x.Str(v[lo.num.Int64():hi.num.Int64()])
	}
	r := p.Fun("substr", "Str", s, lo, hi)
	x.assume(p.Eq(x.SLen(r), p.Sub(hi, lo)))
	q := x.bv("Int")
	at := p.mk("sat", "Int", r, q)
	x.assume(p.Forall([]*Term{q}, p.Implies(p.And(p.Le(p.Int(0), q), p.Lt(q, p.Sub(hi, lo))), p.Eq(at, p.mk("sat", "Int", s, p.Add(lo, q)))), at))
	return r
}

func (x *Exec) typeAssert(fid int, in *ssa.TypeAssert, st *State, k K, next func(*State)) bool {
	p := x.P
	a := x.tv(st, fid, in.X)
	var ok, v *Term
	if types.IsInterface(in.AssertedType) {
		v = a
		it := in.AssertedType.Underlying().(*types.Interface)
		if it.NumMethods() == 0 {
			ok = p.Not(p.Eq(a, x.anyNil()))
		} else {
			ok = x.implements(st, a, in.AssertedType)
		}
		if in.CommaOk {
			v = p.Ite(ok, a, x.anyNil())
		}
	} else {
		ok = x.TagIs(a, in.AssertedType)
		v = x.Unbox(in.AssertedType, a)
		x.typeFactsIf(st, ok, v, in.AssertedType)
		if _, isP := in.AssertedType.Underlying().(*types.Pointer); isP && x.V.Spec.NonNilBox[typeKey(in.AssertedType)] {
			x.assume(p.Implies(ok, p.Gt(v, p.Int(0))))
		}
		if in.CommaOk {
			v = p.Ite(ok, v, x.zero(in.AssertedType))
		}
	}
	if in.CommaOk {
		x.set(st, fid, in, Val{Tup: []Val{{T: v}, {T: ok}}})
		// keep the precise value when the branch is taken
		return true
	}
	rp := x.canRec > 0 || x.allowPan
	x.must(st, fid, ok, "typeassert", "type assertion to "+in.AssertedType.String(), k, func(s *State) {
		x.set(s, fid, in, Val{T: v})
		if rp {
			next(s)
		}
	})
	return !rp
}

// implements: does the dynamic type of a implement interface t?
func (x *Exec) implements(st *State, a *Term, t types.Type) *Term {
	p := x.P
	it := t.Underlying().(*types.Interface)
	if strings.HasPrefix(a.Op, "box!") {
		if ty := x.V.typeByKey(strings.TrimPrefix(a.Op, "box!")); ty != nil {
			return p.Bool(types.Implements(ty, it))
		}
	}
	if sl, ok := x.V.Spec.Sealed[typeKey(t)]; ok {
		var alts []*Term
		for _, n := range sl {
			ty := x.V.lookupType(n)
			c := x.TagIs(a, ty)
			if _, isP := ty.(*types.Pointer); isP {
				c = p.And(c)
			}
			alts = append(alts, c)
		}
		r := p.Or(alts...)
		for _, n := range sl {
			ty := x.V.lookupType(n)
			if _, isP := ty.(*types.Pointer); isP {
				ub := x.Unbox(ty, a)
				if !ub.bound {
					x.assume(p.Implies(x.TagIs(a, ty), p.And(p.Gt(ub, p.Int(0)), p.Lt(ub, st.alloc))))
				}
			}
		}
		return r
	}
	r := p.Fun("impl!"+typeKey(t), "Bool", p.mk("tag", "Int", a))
	x.assume(p.Implies(p.Eq(a, x.anyNil()), p.Not(r)))
	for _, k := range sortedKeys(x.typeIDs) {
		if ty := x.V.typeByKey(k); ty != nil {
			x.assume(p.Eq(p.Fun("impl!"+typeKey(t), "Bool", p.Int(int64(x.typeIDs[k]))), p.Bool(types.Implements(ty, it))))
		}
	}
	return r
}

func (x *Exec) convert(fid int, in *ssa.Convert, st *State) bool {
	p := x.P
	v := x.tv(st, fid, in.X)
	from, to := in.X.Type().Underlying(), in.Type().Underlying()
	fb, fok := from.(*types.Basic)
	tb, tok := to.(*types.Basic)
	isI := func(b *types.Basic) bool { return b.Info()&types.IsInteger != 0 }
	isF := func(b *types.Basic) bool { return b.Info()&types.IsFloat != 0 }
	var r *Term
	switch {
	case fok && tok && isI(fb) && isI(tb):
		x.rangeOf(v, in.X.Type())
		r = x.wrap(st, v, in.Type())
	case fok && tok && isI(fb) && isF(tb):
		if v.num != nil {
			r = x.fltConst(v.num.String())
		} else {
			r = p.Fun("i2f", "F64", v)
		}
	case fok && tok && isF(fb) && isI(tb):
		r = p.Fun("f2i", "Int", v)
		lo, hi, _ := intRange(in.Type())
		r = p.Fun("f2i."+tb.Name(), "Int", v)
		x.assume(p.And(p.Le(p.Big(lo), r), p.Le(r, p.Big(hi))))
	case fok && tok && isF(fb) && isF(tb):
		if tb.Kind() == types.Float32 && fb.Kind() != types.Float32 {
			r = p.Fun("f32round", "F64", v)
		} else {
			r = v
		}
	case fok && tok && fb.Info()&types.IsString != 0 && tb.Info()&types.IsString != 0:
		r = v
	case fok && tok && isI(fb) && tb.Info()&types.IsString != 0:
		// string(rune)
		r = p.Fun("runestr", "Str", v)
		asc := p.And(p.Le(p.Int(0), v), p.Lt(v, p.Int(128)))
		x.assume(p.Implies(asc, p.And(p.Eq(x.SLen(r), p.Int(1)), p.Eq(p.mk("sat", "Int", r, p.Int(0)), v))))
		x.assume(p.Implies(p.Not(asc), p.And(p.Ge(x.SLen(r), p.Int(2)), p.Le(x.SLen(r), p.Int(4)), p.Ge(p.mk("sat", "Int", r, p.Int(0)), p.Int(128)))))
	case fok && fb.Info()&types.IsString != 0: // []byte(s)
		sl, ok := to.(*types.Slice)
		if !ok {
			panic(&Unsupported{in.String()})
		}
		ref := x.newRef(st)
		nm := x.elemHeapName(sl.Elem())
		h := x.heap(st, nm, x.elemHeapSort(sl.Elem()))
		if x.Sort(sl.Elem()) != "Int" || typeKey(sl.Elem()) != "byte" && typeKey(sl.Elem()) != "uint8" {
			row := x.fresh("runes", ArrSort("Int", "Int"))
			x.setHeap(st, nm, p.Store(h, ref, row))
			n := x.fresh("nrunes", "Int")
			x.assume(p.And(p.Le(p.Int(0), n), p.Le(n, x.SLen(v))))
			r = x.mkSlice(ref, p.Int(0), n, n)
			break
		}
		row := p.Fun("bytesof", ArrSort("Int", "Int"), v)
		q := x.bv("Int")
		at := p.Select(row, q)
		x.assume(p.Forall([]*Term{q}, p.Implies(p.And(p.Le(p.Int(0), q), p.Lt(q, x.SLen(v))), p.Eq(at, p.mk("sat", "Int", v, q))), at))
		x.setHeap(st, nm, p.Store(h, ref, row))
		r = x.mkSlice(ref, p.Int(0), x.SLen(v), x.SLen(v))
	case tok && tb.Info()&types.IsString != 0: // string(bytes)
		sl, ok := from.(*types.Slice)
		if !ok || x.Sort(sl.Elem()) != "Int" {
			panic(&Unsupported{in.String()})
		}
		if !(typeKey(sl.Elem()) == "byte" || typeKey(sl.Elem()) == "uint8") {
			r = x.fresh("strofrunes", "Str")
			break
		}
		h := x.heap(st, x.elemHeapName(sl.Elem()), x.elemHeapSort(sl.Elem()))
		row := x.sel(h, x.sBase(v))
		r = p.mk("sfromb", "Str", row, x.sOff(v), x.sLen(v))
		q := x.bv("Int")
		at := p.Select(row, q)
		x.assume(p.Forall([]*Term{q}, p.Implies(p.And(p.Le(x.sOff(v), q), p.Lt(q, p.Add(x.sOff(v), x.sLen(v)))), p.Eq(at, p.mk("sat", "Int", r, p.Sub(q, x.sOff(v))))), at))
	default:
		if x.Sort(in.X.Type()) == x.Sort(in.Type()) {
			r = v
		} else {
			panic(&Unsupported{in.String()})
		}
	}
	x.set(st, fid, in, Val{T: r})
	return true
}

// iterators -----------------------------------------------------------------

func (x *Exec) mkIter(st *State, fid int, in *ssa.Range) Val {
	v := x.tv(st, fid, in.X)
	switch u := in.X.Type().Underlying().(type) {
	case *types.Basic:
		a := x.newCell(st, types.Typ[types.Int], Val{T: x.P.Int(0)})
		return Val{A: a, Tup: []Val{{T: v}}}
	case *types.Map:
		dn, ds := x.mapHeap("MD", u)
		dom := x.sel(x.heap(st, dn, ds), v)
		ks := x.Sort(u.Key())
		a := x.newCell(st, nil, Val{T: x.P.ConstArr(ArrSort(ks, "Bool"), x.P.fal)})
		return Val{A: a, Tup: []Val{{T: v}, {T: dom}}}
	}
	panic(&Unsupported{"range over " + in.X.Type().String()})
}

func (x *Exec) nextIter(st *State, fid int, in *ssa.Next) {
	p := x.P
	it := x.val(st, fid, in.Iter)
	cur := st.cells[it.A.Cell].T
	if in.IsString {
		s := it.Tup[0].T
		ok := p.Lt(cur, x.SLen(s))
		c := p.mk("sat", "Int", s, cur)
		asc := p.Lt(c, p.Int(128))
		rn := p.Fun("runeat", "Int", s, cur)
		rw := p.Fun("runew", "Int", s, cur)
		x.assume(p.And(p.Ge(rn, p.Int(128)), p.Le(rn, p.Int(0x10FFFF)), p.Ge(rw, p.Int(1)), p.Le(rw, p.Int(4)), p.Implies(ok, p.Le(p.Add(cur, p.Ite(asc, p.Int(1), rw)), x.SLen(s)))))
		v := p.Ite(asc, c, rn)
		x.note(fmt.Sprintf("C:%d", it.A.Cell))
		st.cells[it.A.Cell] = Val{T: p.Ite(ok, p.Add(cur, p.Ite(asc, p.Int(1), rw)), cur)}
		x.set(st, fid, in, Val{Tup: []Val{{T: ok}, {T: cur}, {T: v}}})
		return
	}
	m := in.Iter.(*ssa.Range).X.Type().Underlying().(*types.Map)
	ref, dom0 := it.Tup[0].T, it.Tup[1].T
	dn, ds := x.mapHeap("MD", m)
	now := x.sel(x.heap(st, dn, ds), ref)
	ks := x.Sort(m.Key())
	ok := x.fresh("mapnext", "Bool")
	key := x.fresh("mapkey", ks)
	x.typeFactsIf(st, ok, key, m.Key())
	q := x.bv(ks)
	x.assume(p.Implies(ok, p.And(p.Select(now, key), p.Not(p.Select(cur, key)))))
	body := p.Implies(p.And(p.Select(now, q), p.Select(dom0, q)), p.Select(cur, q))
	if body != p.tru {
		var trig []*Term
		if s := p.Select(now, q); s.Op == "select" {
			trig = append(trig, s)
		}
		x.assume(p.Implies(p.Not(ok), p.Forall([]*Term{q}, body, trig...)))
	}
	_, v := x.mapGet(st, m, ref, key)
	x.typeFactsIf(st, ok, v, m.Elem())
	x.note(fmt.Sprintf("C:%d", it.A.Cell))
	st.cells[it.A.Cell] = Val{T: p.Ite(ok, p.Store(cur, key, p.tru), cur)}
	x.set(st, fid, in, Val{Tup: []Val{{T: ok}, {T: key}, {T: v}}})
}

func (x *Exec) selectOp(st *State, fid int, in *ssa.Select, next func(*State)) {
	// nondeterministic choice of a ready case
	n := len(in.States)
	mk := func(s *State, idx int) {
		tup := []Val{{T: x.P.Int(int64(idx))}, {T: x.fresh("recvok", "Bool")}}
		for i, c := range in.States {
			if c.Dir == types.RecvOnly {
				et := c.Chan.Type().Underlying().(*types.Chan).Elem()
				if i == idx {
					tup = append(tup, x.havocVal(s, "recv", et))
				} else {
					tup = append(tup, Val{T: x.zero(et)})
				}
			}
		}
		if idx >= 0 && in.States[idx].Dir == types.SendOnly {
			x.escape(s, x.val(s, fid, in.States[idx].Send))
			ch := x.tv(s, fid, in.States[idx].Chan)
			x.openChan(s, ch)
			x.ghostSend(s, ch, x.val(s, fid, in.States[idx].Send), in.States[idx].Send.Type())
		}
		x.set(s, fid, in, Val{Tup: tup})
		next(s)
	}
	first := 0
	if !in.Blocking {
		first = -1
	}
	for i := first; i < n; i++ {
		s := st
		if i < n-1 {
			s = st.clone()
		}
		x.C.Push()
		mk(s, i)
		x.C.Pop()
	}
	x.trust("select chooses an arbitrary ready case; received values are arbitrary")
}

// inTime gives the function up when the time of the check is used up: it counts as not verified.
func (x *Exec) inTime() {
	if !x.V.Deadline.IsZero() && time.Now().After(x.V.Deadline.Add(15*time.Second)) {
		panic(&Unsupported{"not verified within the time of the check"})
	}
}
