package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math/big"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// atHeader handles arrival at a loop header (from outside or over a back edge).
func (x *Exec) atHeader(fid int, fn *ssa.Function, lp *Loop, pred *ssa.BasicBlock, st *State, k K) {
	key := loopKey{fid, lp.hdr}
	inside := lp.body[pred]
	ls := st.loops[key]
	if inside && ls != nil && ls.cut != nil {
		x.backEdge(fid, fn, lp, pred, st, ls)
		return
	}
	if !inside {
		ls = &loopSt{}
		st.loops[key] = ls
	}
	// concrete unrolling
	x.phis(st, fid, lp.hdr, pred)
	c := x.peek(st, fid, lp)
	if c == nil && len(x.loopInvs(fn, lp.index)) == 0 {
		c = x.peekDeep(st, fid, lp)
	}
	nonphi := 0
	for nonphi < len(lp.hdr.Instrs) {
		if _, ok := lp.hdr.Instrs[nonphi].(*ssa.Phi); !ok {
			break
		}
		nonphi++
	}
	if c != nil && ls.unroll < 80 {
		if c == x.P.tru || c == x.P.fal {
			ls.unroll++
			x.run(fid, fn, lp.hdr, nil, nonphi, st, k)
			return
		}
		// small range of the bound: split
		if sp := x.smallSplit(c); sp != nil {
			lo, hi := x.bounds(sp)
			for v := lo.Int64(); v <= hi.Int64(); v++ {
				e := x.P.Eq(sp, x.P.Int(v))
				if !x.feasible(e) {
					continue
				}
				s2 := st.clone()
				x.C.Push()
				x.learn(s2, e)
				s2.known[sp] = x.P.Int(v)
				s2.loops[key].unroll++
				x.run(fid, fn, lp.hdr, nil, nonphi, s2, k)
				x.C.Pop()
			}
			return
		}
	}
	x.cutLoop(fid, fn, lp, nonphi, st, k)
}

func (x *Exec) smallSplit(c *Term) *Term {
	if c.Op == "not" {
		c = c.Args[0]
	}
	if c.Op == "<=" || c.Op == "=" {
		for i := 0; i < 2; i++ {
			t, o := c.Args[i], c.Args[1-i]
			if o.num == nil || t.num != nil {
				continue
			}
			b, _ := x.P.offset(t)
			lo, hi := x.bounds(b)
			if lo != nil && hi != nil && new(big.Int).Sub(hi, lo).Cmp(big.NewInt(9)) <= 0 {
				return b
			}
		}
	}
	return nil
}

// peek evaluates the header's branch condition when it is a pure expression.
func (x *Exec) peek(st *State, fid int, lp *Loop) *Term {
	ins := lp.hdr.Instrs
	iff, ok := ins[len(ins)-1].(*ssa.If)
	if !ok {
		return nil
	}
	local := map[ssa.Value]*Term{}
	get := func(v ssa.Value) *Term {
		if t, ok := local[v]; ok {
			return t
		}
		defer func() { recover() }()
		w := x.val(st, fid, v)
		return w.T
	}
	for _, in := range ins {
		switch in := in.(type) {
		case *ssa.Phi, *ssa.DebugRef, *ssa.If:
		case *ssa.BinOp:
			a, b := get(in.X), get(in.Y)
			if a == nil || b == nil || a.Sort != "Int" {
				return nil
			}
			var r *Term
			switch in.Op {
			case token.ADD:
				r = x.P.Add(a, b)
			case token.SUB:
				r = x.P.Sub(a, b)
			case token.LSS:
				r = x.P.Lt(a, b)
			case token.LEQ:
				r = x.P.Le(a, b)
			case token.GTR:
				r = x.P.Lt(b, a)
			case token.GEQ:
				r = x.P.Le(b, a)
			case token.NEQ:
				r = x.P.Not(x.P.Eq(a, b))
			case token.EQL:
				r = x.P.Eq(a, b)
			default:
				return nil
			}
			local[in] = r
		case *ssa.Call:
			if b, ok := in.Call.Value.(*ssa.Builtin); ok && b.Name() == "len" {
				a := get(in.Call.Args[0])
				if a == nil {
					return nil
				}
				var l *Term
				if a.Sort == "Slice" {
					l = x.sLen(a)
				} else if a.Sort == "Str" {
					l = x.SLen(a)
				} else {
					return nil
				}
				if kn, ok := st.known[l]; ok {
					l = kn
				}
				local[in] = l
				continue
			}
			return nil
		default:
			return nil
		}
	}
	return get(iff.Cond)
}

// peekDeep evaluates the header's branch condition when it reads fields or calls one-line functions.
func (x *Exec) peekDeep(st *State, fid int, lp *Loop) (c *Term) {
	iff, ok := lp.hdr.Instrs[len(lp.hdr.Instrs)-1].(*ssa.If)
	if !ok {
		return nil
	}
	x.quiet++
	x.C.Push()
	defer func() {
		x.C.Pop()
		x.quiet--
		if recover() != nil {
			c = nil
		}
	}()
	local := map[ssa.Value]Val{}
	for ph, v := range x.phiVals(st, fid, lp.hdr) {
		local[ph] = v
	}
	v, ok := x.pureVal(st, fid, lp, iff.Cond, local, 0)
	if !ok {
		return nil
	}
	// only a condition over values known from outside the evaluation decides an unrolling
	if v.T == x.P.tru || v.T == x.P.fal {
		return v.T
	}
	return nil
}

// pureVal evaluates an expression of a loop in the given state without running it:
// constants, values from outside the loop, field reads, arithmetic, len and one-line functions.
func (x *Exec) pureVal(st *State, fid int, lp *Loop, v ssa.Value, local map[ssa.Value]Val, depth int) (Val, bool) {
	none := Val{}
	if w, ok := local[v]; ok {
		return w, w.T != nil || w.A != nil
	}
	in, isIn := v.(ssa.Instruction)
	if depth == 0 && (!isIn || !lp.body[in.Block()]) {
		w := x.val(st, fid, v)
		return w, w.T != nil || w.A != nil
	}
	if _, ok := v.(*ssa.Const); ok {
		return x.val(st, fid, v), true
	}
	sub := func(u ssa.Value) (Val, bool) { return x.pureVal(st, fid, lp, u, local, depth) }
	done := func(w Val) (Val, bool) {
		local[v] = w
		return w, w.T != nil || w.A != nil
	}
	switch e := v.(type) {
	case *ssa.FieldAddr:
		b, ok := sub(e.X)
		if !ok {
			return none, false
		}
		st0 := deref(e.X.Type())
		str := st0.Underlying().(*types.Struct)
		ft := str.Field(e.Field).Type()
		from := b.A
		if from == nil {
			if ia, ok := x.addrs[b.T]; ok {
				from = ia
			}
		}
		if from != nil {
			a := *from
			a.Path = append(append([]int{}, a.Path...), e.Field)
			a.PTyp = append(append([]types.Type{}, a.PTyp...), ft)
			return done(Val{A: &a})
		}
		ad := &Addr{K: aField, Ref: b.T, Field: e.Field, Typ: ft}
		if n, ok := st0.(*types.Named); ok {
			ad.Owner = n
		} else {
			ad.Str = str
		}
		return done(Val{A: ad})
	case *ssa.UnOp:
		b, ok := sub(e.X)
		if !ok {
			return none, false
		}
		switch {
		case e.Op == token.MUL && b.A != nil:
			return done(x.load(st, b.A))
		case e.Op == token.NOT && b.T != nil:
			return done(Val{T: x.P.Not(b.T)})
		}
	case *ssa.BinOp:
		a, ok1 := sub(e.X)
		b, ok2 := sub(e.Y)
		if !ok1 || !ok2 || a.T == nil || b.T == nil || a.T.Sort != "Int" || b.T.Sort != "Int" {
			return none, false
		}
		switch e.Op {
		case token.ADD:
			return done(Val{T: x.P.Add(a.T, b.T)})
		case token.SUB:
			return done(Val{T: x.P.Sub(a.T, b.T)})
		case token.LSS:
			return done(Val{T: x.P.Lt(a.T, b.T)})
		case token.LEQ:
			return done(Val{T: x.P.Le(a.T, b.T)})
		case token.GTR:
			return done(Val{T: x.P.Lt(b.T, a.T)})
		case token.GEQ:
			return done(Val{T: x.P.Le(b.T, a.T)})
		case token.NEQ:
			return done(Val{T: x.P.Not(x.P.Eq(a.T, b.T))})
		case token.EQL:
			return done(Val{T: x.P.Eq(a.T, b.T)})
		}
	case *ssa.Call:
		if b, ok := e.Call.Value.(*ssa.Builtin); ok && b.Name() == "len" {
			a, ok := sub(e.Call.Args[0])
			if !ok || a.T == nil {
				return none, false
			}
			var l *Term
			switch a.T.Sort {
			case "Slice":
				l = x.sLen(a.T)
			case "Str":
				l = x.SLen(a.T)
			default:
				return none, false
			}
			if kn, ok := st.known[l]; ok {
				l = kn
			}
			return done(Val{T: l})
		}
		fn := e.Call.StaticCallee()
		if fn == nil || depth > 2 || len(fn.Blocks) != 1 || len(fn.FreeVars) != 0 {
			return none, false
		}
		ret, ok := fn.Blocks[0].Instrs[len(fn.Blocks[0].Instrs)-1].(*ssa.Return)
		if !ok || len(ret.Results) != 1 {
			return none, false
		}
		inner := map[ssa.Value]Val{}
		for i, prm := range fn.Params {
			a, ok := sub(e.Call.Args[i])
			if !ok {
				return none, false
			}
			inner[prm] = a
		}
		w, ok := x.pureVal(st, fid, lp, ret.Results[0], inner, depth+1)
		if !ok {
			return none, false
		}
		return done(w)
	}
	return none, false
}

func (x *Exec) phiVals(st *State, fid int, h *ssa.BasicBlock) map[*ssa.Phi]Val {
	m := map[*ssa.Phi]Val{}
	for _, in := range h.Instrs {
		if ph, ok := in.(*ssa.Phi); ok {
			m[ph] = st.env[fid][ph]
		}
	}
	return m
}

func (x *Exec) backEdge(fid int, fn *ssa.Function, lp *Loop, pred *ssa.BasicBlock, st *State, ls *loopSt) {
	cr := ls.cut
	if !cr.phaseA && x.quiet == 0 {
		x.ends++ // a loop iteration completes
	}
	x.phis(st, fid, lp.hdr, pred)
	phis := x.phiVals(st, fid, lp.hdr)
	it := x.P.Add(ls.iter, x.P.Int(1))
	if cr.phaseA {
		for _, c := range cr.cands {
			if cr.dead[c.id] {
				continue
			}
			g := x.candEval(c, st, phis, it)
			if g == nil || x.proveQuick(g) == false {
				if x.V.Debug > 1 {
					fmt.Printf("    cand %s of %s dropped at back edge: %v\n", c.id, fn, g)
				}
				cr.dead[c.id] = true
				cr.newDead = true
			}
		}
		return
	}
	for _, c := range cr.cands {
		if cr.dead[c.id] {
			continue
		}
		g := x.candEval(c, st, phis, it)
		if g == nil {
			g = x.P.fal
		}
		x.oblige(st, g, fmt.Sprintf("loopinv-auto:%s#%d:%s", fn.Name(), lp.index, c.id), "inferred loop invariant is preserved")
	}
	for i, inv := range x.loopInvs(fn, lp.index) {
		g := x.evalInv(inv, st, fid, fn, lp, phis, it, cr)
		x.oblige(st, g, fmt.Sprintf("loopinv:%s#%d.%d", fn.Name(), lp.index, i), "loop invariant is preserved: "+inv.Src)
	}
}

func (x *Exec) candEval(c *Cand, st *State, phis map[*ssa.Phi]Val, it *Term) (g *Term) {
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(*Unsupported); ok {
				g = nil
				return
			}
			panic(r)
		}
	}()
	return c.f(st, phis, it)
}

func (x *Exec) proveQuick(g *Term) bool {
	if g == x.P.tru {
		return true
	}
	if g == x.P.fal {
		return false
	}
	return x.C.Check(x.V.CandMs, x.P.Not(g)) == "unsat"
}

func (x *Exec) cutLoop(fid int, fn *ssa.Function, lp *Loop, nonphi int, st *State, k K) {
	key := loopKey{fid, lp.hdr}
	entPhi := x.phiVals(st, fid, lp.hdr)
	entry := st.clone()
	stk := ""
	for _, f := range x.stack {
		stk += "/" + f.Name()
	}
	ck := fmt.Sprintf("%s|%s#%d", stk, fn.String(), lp.index)
	base := x.cache[ck]
	if base == nil {
		base = &cutRec{dead: map[string]bool{}, mods: map[string]bool{}}
		x.cache[ck] = base
	}
	cands := x.makeCands(fid, fn, lp, entry, entPhi)
	// user invariants hold on entry
	dead := map[string]bool{}
	for d := range base.dead {
		dead[d] = true
	}
	for _, c := range cands {
		if dead[c.id] {
			continue
		}
		g := x.candEval(c, entry, entPhi, x.P.Int(0))
		if g == nil || !x.proveQuick(g) {
			dead[c.id] = true
		}
	}
	zero := x.P.Int(0)
	cr0 := &cutRec{lp: lp, fid: fid, entry: entry, entPhi: entPhi}
	for i, inv := range x.loopInvs(fn, lp.index) {
		g := x.evalInv(inv, entry, fid, fn, lp, entPhi, zero, cr0)
		x.oblige(st, g, fmt.Sprintf("loopinv-init:%s#%d.%d", fn.Name(), lp.index, i), "loop invariant holds on entry: "+inv.Src)
	}
	mods := base.mods
	for round := 0; ; round++ {
		if round > 12 {
			panic(&Unsupported{"loop analysis does not converge in " + fn.String()})
		}
		cr := &cutRec{lp: lp, fid: fid, phaseA: true, entry: entry, entPhi: entPhi, cands: cands, dead: dead, mods: mods}
		rec := map[string]bool{}
		x.recs = append(x.recs, rec)
		x.cuts = append(x.cuts, cr)
		x.quiet++
		x.C.Push()
		s := entry.clone()
		x.startIter(fid, fn, lp, s, cr)
		x.run(fid, fn, lp.hdr, nil, nonphi, s, k)
		x.C.Pop()
		x.quiet--
		x.cuts = x.cuts[:len(x.cuts)-1]
		x.recs = x.recs[:len(x.recs)-1]
		grown := false
		for m := range rec {
			for _, r := range x.recs {
				r[m] = true
			}
			if !mods[m] {
				mods[m] = true
				grown = true
			}
		}
		if grown {
			// heaps first touched inside the loop need frame candidates too
			have := map[string]bool{}
			for _, c := range cands {
				have[c.id] = true
			}
			for _, c := range x.makeCands(fid, fn, lp, entry, entPhi) {
				if have[c.id] {
					continue
				}
				cands = append(cands, c)
				g := x.candEval(c, entry, entPhi, zero)
				if g == nil || !x.proveQuick(g) {
					dead[c.id] = true
				}
			}
		}
		if !grown && !cr.newDead {
			break
		}
	}
	base.mods = mods
	for d := range dead {
		base.dead[d] = true
	}
	cr := &cutRec{lp: lp, fid: fid, entry: entry, entPhi: entPhi, cands: cands, dead: dead, mods: mods}
	x.C.Push()
	x.startIter(fid, fn, lp, st, cr)
	st.loops[key].cut = cr
	x.run(fid, fn, lp.hdr, nil, nonphi, st, k)
	x.C.Pop()
}

// startIter havocs what the loop modifies and assumes the invariants.
func (x *Exec) startIter(fid int, fn *ssa.Function, lp *Loop, st *State, cr *cutRec) {
	p := x.P
	key := loopKey{fid, lp.hdr}
	ls := &loopSt{cut: cr, iter: x.fresh("iter", "Int")}
	st.loops[key] = ls
	x.assume(p.And(p.Ge(ls.iter, p.Int(0)), p.Le(ls.iter, p.Big(big2(48)))))
	x.ranges[ls.iter] = [2]*big.Int{new(big.Int), big2(48)}
	if cr.mods["L:fresh"] && len(cr.entry.fresh) > 0 {
		// objects published inside the loop: publish them before it (values are then fixed)
		x.publishAll(st)
	}
	if cr.mods["alloc"] {
		a := x.fresh("alloc", "Int")
		x.assume(p.Ge(a, cr.entry.alloc))
		st.alloc = a
	}
	for _, m := range sortedKeys(cr.mods) {
		switch {
		case strings.HasPrefix(m, "H:"):
			nm := m[2:]
			old, ok := cr.entry.heaps[nm]
			if !ok {
				if b, ok2 := x.hbase[nm]; ok2 {
					old = b
					cr.entry.heaps[nm] = b
				} else {
					continue
				}
			}
			st.heaps[nm] = x.havocHeap(st, nm, old)
		case strings.HasPrefix(m, "C:"):
			var c int
			fmt.Sscanf(m[2:], "%d", &c)
			old, ok := cr.entry.cells[c]
			if !ok {
				continue
			}
			if old.T == nil {
				panic(&Unsupported{"loop modifies a variable holding a function or address"})
			}
			nv := x.fresh("cell", old.T.Sort)
			if t := x.cellT[c]; t != nil {
				x.typeFacts(st, nv, t, 0)
			}
			st.cells[c] = Val{T: nv}
		case strings.HasPrefix(m, "G:"):
			for g := range cr.entry.glob {
				if g.String() == m[2:] {
					delete(st.glob, g)
					st.glob[g] = x.havocVal(st, "glob", deref(g.Type()))
				}
			}
		case strings.HasPrefix(m, "X:"):
			if old, ok := st.ghost[m[2:]]; ok {
				st.ghost[m[2:]] = x.fresh("ghost", old.Sort)
			}
		}
	}
	for _, in := range lp.hdr.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		ev := cr.entPhi[ph]
		if ev.T == nil {
			if x.phiConst(ph, lp) {
				continue
			}
			panic(&Unsupported{"loop-carried function or address value " + ph.Comment})
		}
		v := x.fresh("phi_"+ph.Comment, x.Sort(ph.Type()))
		x.typeFacts(st, v, ph.Type(), 0)
		x.set(st, fid, ph, Val{T: v})
	}
	phis := x.phiVals(st, fid, lp.hdr)
	for _, c := range cr.cands {
		if cr.dead[c.id] {
			continue
		}
		if g := x.candEval(c, st, phis, ls.iter); g != nil {
			x.assume(g)
			x.inferRange(g)
		}
	}
	for _, inv := range x.loopInvs(fn, lp.index) {
		x.assume(x.evalInv(inv, st, fid, fn, lp, phis, ls.iter, cr))
	}
}

func (x *Exec) inferRange(g *Term) {
	// c <= v facts for range propagation
	if g.Op == "<=" && g.Args[0].num != nil && g.Args[1].num == nil {
		v := g.Args[1]
		if r, ok := x.ranges[v]; ok && r[0].Cmp(g.Args[0].num) < 0 {
			x.ranges[v] = [2]*big.Int{g.Args[0].num, r[1]}
		}
	}
}

// havocHeap returns a new unknown heap that agrees with old on immutable storage (negative references).
func (x *Exec) havocHeap(st *State, nm string, old *Term) *Term {
	p := x.P
	h := x.fresh("hv!"+nm, old.Sort)
	if strings.HasPrefix(nm, "E!") || strings.HasPrefix(nm, "M") {
		q := x.bv("Int")
		s := p.Select(h, q)
		x.assume(p.Forall([]*Term{q}, p.Implies(p.Lt(q, p.Int(0)), p.Eq(s, p.Select(old, q))), s))
	}
	if strings.HasPrefix(nm, "MD!") {
		es := elemSort(old.Sort)
		ks := es[len("(Array ") : len(es)-len(" Bool)")]
		x.assume(p.Eq(p.Select(h, p.Int(0)), p.ConstArr(ArrSort(ks, "Bool"), p.fal)))
	}
	return h
}

func (x *Exec) phiConst(ph *ssa.Phi, lp *Loop) bool {
	for i, e := range ph.Edges {
		if lp.body[ph.Block().Preds[i]] && e != ph {
			return false
		}
	}
	return true
}

func (x *Exec) makeCands(fid int, fn *ssa.Function, lp *Loop, entry *State, ent map[*ssa.Phi]Val) []*Cand {
	p := x.P
	var out []*Cand
	add := func(id string, f func(st *State, phis map[*ssa.Phi]Val, it *Term) *Term) {
		out = append(out, &Cand{id, f})
	}
	// induction variables
	for _, in := range lp.hdr.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		ev := ent[ph]
		if ev.T == nil {
			continue
		}
		ph2 := ph
		nm := ph.Name()
		switch u := ph.Type().Underlying().(type) {
		case *types.Basic:
			if u.Info()&types.IsInteger == 0 {
				continue
			}
			var step *big.Int
			uniform := true
			for i, e := range ph.Edges {
				if !lp.body[ph.Block().Preds[i]] {
					continue
				}
				b, ok := e.(*ssa.BinOp)
				if !ok || b.Op != token.ADD && b.Op != token.SUB || b.X != ssa.Value(ph) {
					uniform = false
					continue
				}
				c, ok := b.Y.(*ssa.Const)
				if !ok {
					uniform = false
					continue
				}
				s := x.constVal(c).T.num
				if s == nil {
					uniform = false
					continue
				}
				if b.Op == token.SUB {
					s = new(big.Int).Neg(s)
				}
				if step != nil && step.Cmp(s) != 0 {
					uniform = false
				}
				step = s
			}
			if uniform && step != nil {
				add("ind:"+nm, func(st *State, phis map[*ssa.Phi]Val, it *Term) *Term {
					return p.Eq(phis[ph2].T, p.Add(ev.T, p.Mul(it, p.Big(step))))
				})
			}
			add("ge:"+nm, func(st *State, phis map[*ssa.Phi]Val, it *Term) *Term { return p.Ge(phis[ph2].T, ev.T) })
			add("le:"+nm, func(st *State, phis map[*ssa.Phi]Val, it *Term) *Term { return p.Le(phis[ph2].T, ev.T) })
			add("ge0:"+nm, func(st *State, phis map[*ssa.Phi]Val, it *Term) *Term { return p.Ge(phis[ph2].T, p.Int(0)) })
			add("inc1:"+nm, func(st *State, phis map[*ssa.Phi]Val, it *Term) *Term {
				return p.Le(phis[ph2].T, p.Add(ev.T, it))
			})
		case *types.Slice:
			el := u.Elem()
			add("own:"+nm, func(st *State, phis map[*ssa.Phi]Val, it *Term) *Term {
				b := x.sBase(phis[ph2].T)
				return p.Or(p.Eq(b, p.Int(0)), p.Ge(b, x.alloc0))
			})
			add("own2:"+nm, func(st *State, phis map[*ssa.Phi]Val, it *Term) *Term {
				b := x.sBase(phis[ph2].T)
				return p.Or(p.Eq(b, x.sBase(ev.T)), p.Ge(b, entry.alloc))
			})
			add("off:"+nm, func(st *State, phis map[*ssa.Phi]Val, it *Term) *Term {
				return p.Eq(x.sOff(phis[ph2].T), x.sOff(ev.T))
			})
			add("len:"+nm, func(st *State, phis map[*ssa.Phi]Val, it *Term) *Term {
				return p.Eq(x.sLen(phis[ph2].T), p.Add(x.sLen(ev.T), it))
			})
			add("lenge:"+nm, func(st *State, phis map[*ssa.Phi]Val, it *Term) *Term {
				return p.Ge(x.sLen(phis[ph2].T), x.sLen(ev.T))
			})
			add("lenle:"+nm, func(st *State, phis map[*ssa.Phi]Val, it *Term) *Term {
				return p.Le(x.sLen(phis[ph2].T), p.Add(x.sLen(ev.T), it))
			})
			add("samecap:"+nm, func(st *State, phis map[*ssa.Phi]Val, it *Term) *Term {
				return p.And(p.Eq(x.sCap(phis[ph2].T), x.sCap(ev.T)), p.Eq(x.sBase(phis[ph2].T), x.sBase(ev.T)))
			})
			hn, hs := x.elemHeapName(el), x.elemHeapSort(el)
			add("prefix:"+nm, func(st *State, phis map[*ssa.Phi]Val, it *Term) *Term {
				h, h0 := x.heap(st, hn, hs), x.heap(entry, hn, hs)
				v := phis[ph2].T
				n := x.sLen(ev.T)
				if n.num != nil && n.num.Sign() == 0 {
					return p.tru
				}
				if n.num != nil && n.num.Cmp(big.NewInt(24)) <= 0 {
					var cs []*Term
					for i := int64(0); i < n.num.Int64(); i++ {
						cs = append(cs, p.Eq(x.sel(x.sel(h, x.sBase(v)), p.Add(x.sOff(v), p.Int(i))), x.sel(x.sel(h0, x.sBase(ev.T)), p.Add(x.sOff(ev.T), p.Int(i)))))
					}
					return p.And(cs...)
				}
				q := x.bv("Int")
				l := p.Select(x.sel(h, x.sBase(v)), q)
				o := x.sOff(v)
				return p.Forall([]*Term{q}, p.Implies(p.And(p.Le(o, q), p.Lt(q, p.Add(o, n))),
					p.Eq(l, p.Select(x.sel(h0, x.sBase(ev.T)), p.Add(q, p.Sub(x.sOff(ev.T), o))))), l)
			})
		}
	}
	// loop bound
	if iff, ok := lp.hdr.Instrs[len(lp.hdr.Instrs)-1].(*ssa.If); ok {
		if c, ok := iff.Cond.(*ssa.BinOp); ok {
			x.boundCand(fid, lp, entry, ent, c, add)
		}
	}
	// string iterators
	var cellIDs []int
	for c := range entry.cells {
		cellIDs = append(cellIDs, c)
	}
	sort.Ints(cellIDs)
	for _, c := range cellIDs {
		v := entry.cells[c]
		if v.T != nil && v.T == p.Int(0) && x.cellT[c] == types.Typ[types.Int] {
			c := c
			add(fmt.Sprintf("itpos:%d", c), func(st *State, phis map[*ssa.Phi]Val, it *Term) *Term {
				cv := st.cells[c].T
				return p.And(p.Ge(cv, p.Int(0)))
			})
			add(fmt.Sprintf("iteq:%d", c), func(st *State, phis map[*ssa.Phi]Val, it *Term) *Term {
				return p.Eq(st.cells[c].T, it)
			})
		}
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if r, ok := in.(*ssa.Range); ok {
				if rv, ok := entry.env[fid][r]; ok && rv.A != nil && len(rv.Tup) == 1 {
					c, s := rv.A.Cell, rv.Tup[0].T
					add("itle:"+r.Name(), func(st *State, phis map[*ssa.Phi]Val, it *Term) *Term {
						return p.Le(st.cells[c].T, x.SLen(s))
					})
				}
			}
		}
	}
	// frames: heaps only change on objects allocated here
	names := map[string]bool{}
	for n := range entry.heaps {
		names[n] = true
	}
	for n := range x.hbase {
		names[n] = true
	}
	excl := []*Term{}
	for _, in := range lp.hdr.Instrs {
		if ph, ok := in.(*ssa.Phi); ok {
			if ev := ent[ph]; ev.T != nil && ev.T.Sort == "Slice" {
				excl = append(excl, x.sBase(ev.T))
			}
		}
	}
	for _, nm := range sortedKeys(names) {
		nm := nm
		frame := func(lim *Term, ex []*Term) func(st *State, phis map[*ssa.Phi]Val, it *Term) *Term {
			return func(st *State, phis map[*ssa.Phi]Val, it *Term) *Term {
				h, ok := st.heaps[nm]
				h0 := x.hbaseOf(entry, nm)
				if !ok || h == h0 {
					return p.tru
				}
				q := x.bv("Int")
				s := p.Select(h, q)
				g := p.Lt(q, lim)
				for _, e := range ex {
					g = p.And(g, p.Not(p.Eq(q, e)))
				}
				return p.Forall([]*Term{q}, p.Implies(g, p.Eq(s, p.Select(h0, q))), s)
			}
		}
		add("frame0:"+nm, frame(x.alloc0, nil))
		add("frame1:"+nm, frame(entry.alloc, nil))
		if g := x.declaredFrame(nm); g != nil {
			add("frame3:"+nm, func(st *State, phis map[*ssa.Phi]Val, it *Term) *Term { return g(st) })
		}
		if len(excl) > 0 {
			add("frame2:"+nm, frame(entry.alloc, excl))
		}
	}
	return out
}

// declaredFrame: with respect to function entry, heap nm differs only where the contract's modifies clauses allow.
func (x *Exec) declaredFrame(nm string) func(st *State) *Term {
	con := x.frameCon
	if con == nil || con.ModAll || con.NoFrame || len(con.Mod) == 0 || x.entry == nil {
		return nil
	}
	if x.frameTgts == nil {
		e := &SEnv{x: x, st: x.entry, old: x.entry, vars: x.params, pkg: x.framePkg}
		x.frameTgts = []modTarget{}
		for _, m := range con.Mod {
			x.frameTgts = append(x.frameTgts, e.modTargets(m)...)
		}
	}
	var refs []modTarget
	for _, t := range x.frameTgts {
		if t.heap == nm {
			if t.ref == nil {
				return nil
			}
			refs = append(refs, t)
		}
	}
	if len(refs) == 0 {
		return nil
	}
	p := x.P
	return func(st *State) *Term {
		h, ok := st.heaps[nm]
		h0 := x.hbaseOf(x.entry, nm)
		if !ok || h0 == nil || h == h0 {
			return p.tru
		}
		q := x.bv("Int")
		g := p.Lt(q, x.alloc0)
		if strings.HasPrefix(nm, "E!") {
			g = p.And(g, p.Not(p.Eq(q, p.Int(0))))
		}
		var rows []*Term
		for _, t := range refs {
			if t.lo == nil {
				g = p.And(g, p.Not(p.Eq(q, t.ref)))
				continue
			}
			// outside the declared rows everything is unchanged, inside them only the declared range changes
			g = p.And(g, p.Not(p.Eq(q, t.ref)))
			qi := x.bv("Int")
			s := p.Select(p.Select(h, t.ref), qi)
			c := p.Eq(s, p.Select(p.Select(h0, t.ref), qi))
			ex := p.fal
			for _, u := range refs {
				if u.lo == nil {
					ex = p.Or(ex, p.Eq(u.ref, t.ref))
				} else {
					ex = p.Or(ex, p.And(p.Eq(u.ref, t.ref), p.Le(u.lo, qi), p.Lt(qi, u.hi)))
				}
			}
			rows = append(rows, p.Forall([]*Term{qi}, p.Implies(p.Not(ex), c), s))
		}
		s := p.Select(h, q)
		return p.And(append(rows, p.Forall([]*Term{q}, p.Implies(g, p.Eq(s, p.Select(h0, q))), s))...)
	}
}

func (x *Exec) hbaseOf(st *State, nm string) *Term {
	if h, ok := st.heaps[nm]; ok {
		return h
	}
	return x.hbase[nm]
}

// boundCand: i < n style bounds for an induction variable compared in the header.
func (x *Exec) boundCand(fid int, lp *Loop, entry *State, ent map[*ssa.Phi]Val, c *ssa.BinOp, add func(string, func(*State, map[*ssa.Phi]Val, *Term) *Term)) {
	p := x.P
	type side struct {
		ph  *ssa.Phi
		off *Term
	}
	asPhi := func(v ssa.Value) *side {
		if ph, ok := v.(*ssa.Phi); ok && ph.Block() == lp.hdr {
			return &side{ph, p.Int(0)}
		}
		if b, ok := v.(*ssa.BinOp); ok && b.Op == token.ADD {
			if ph, ok := b.X.(*ssa.Phi); ok && ph.Block() == lp.hdr {
				if k, ok := b.Y.(*ssa.Const); ok {
					return &side{ph, x.constVal(k).T}
				}
			}
		}
		return nil
	}
	outer := func(v ssa.Value) func() *Term {
		return func() (t *Term) {
			defer func() {
				if recover() != nil {
					t = nil
				}
			}()
			if in, ok := v.(ssa.Instruction); ok && lp.body[in.Block()] {
				if w, ok := x.pureVal(entry, fid, lp, v, map[ssa.Value]Val{}, 0); ok {
					return w.T
				}
				if call, ok := v.(*ssa.Call); ok {
					if b, ok := call.Call.Value.(*ssa.Builtin); ok && b.Name() == "len" {
						a := x.val(entry, fid, call.Call.Args[0]).T
						if i2, ok := call.Call.Args[0].(ssa.Instruction); ok && lp.body[i2.Block()] {
							return nil
						}
						if a.Sort == "Slice" {
							return x.sLen(a)
						}
						if a.Sort == "Str" {
							return x.SLen(a)
						}
					}
				}
				return nil
			}
			return x.val(entry, fid, v).T
		}
	}
	try := func(a, b ssa.Value, kind string, slack int64) {
		s := asPhi(a)
		if s == nil {
			return
		}
		n := outer(b)()
		if n == nil || n.Sort != "Int" {
			return
		}
		ev := ent[s.ph]
		if ev.T == nil {
			return
		}
		id := kind + ":" + s.ph.Name()
		add(id, func(st *State, phis map[*ssa.Phi]Val, it *Term) *Term {
			v := p.Add(phis[s.ph].T, s.off)
			e := p.Add(ev.T, s.off)
			if kind == "ub" {
				// v <= max(n+slack, e)
				m := p.Add(n, p.Int(slack))
				return p.Or(p.Le(v, m), p.Le(v, e))
			}
			m := p.Add(n, p.Int(-slack))
			return p.Or(p.Ge(v, m), p.Ge(v, e))
		})
	}
	switch c.Op {
	case token.LSS, token.NEQ:
		try(c.X, c.Y, "ub", 0)
		try(c.Y, c.X, "lb", 0)
	case token.LEQ:
		try(c.X, c.Y, "ub", 1)
		try(c.Y, c.X, "lb", 1)
	case token.GTR:
		try(c.Y, c.X, "ub", 0)
		try(c.X, c.Y, "lb", 0)
	case token.GEQ:
		try(c.Y, c.X, "ub", 1)
		try(c.X, c.Y, "lb", 1)
	}
}

type loopAt struct {
	fn  *ssa.Function
	idx int
}

type frame struct {
	fid int
	fn  *ssa.Function
}

// loopOwner finds the contract that states the invariants of a loop of fn: its own, or, for a loop moved into
// a function without a contract, the contract of the function it is called from.
// The frames between the two are returned, innermost first, when they differ.
func (x *Exec) loopOwner(fn *ssa.Function, idx int) (*Contract, int, []frame) {
	for i := len(x.stack) - 1; i >= 0; i-- {
		f := x.stack[i]
		con := x.V.Spec.Contracts[funcKey(f)]
		if con == nil {
			continue
		}
		m, ok := x.spl[f]
		if !ok {
			m = x.splice(f, con)
			if x.spl == nil {
				x.spl = map[*ssa.Function]map[loopAt]int{}
			}
			x.spl[f] = m
		}
		var up []frame
		if f != fn {
			for j := len(x.stack) - 2; j >= i; j-- {
				up = append(up, frame{x.fids[j], x.stack[j]})
			}
		}
		if m == nil {
			if f != fn {
				return nil, 0, nil
			}
			return con, idx, nil
		}
		if n, ok := m[loopAt{fn, idx}]; ok {
			return con, n, up
		}
		return nil, 0, nil
	}
	return nil, 0, nil
}

func (x *Exec) loopInvs(fn *ssa.Function, idx int) []*Clause {
	con, n, _ := x.loopOwner(fn, idx)
	if con == nil {
		return nil
	}
	return con.Loops[n]
}

// splice numbers the loops of a function together with those of the functions without contract it calls,
// when the contract speaks of more loops than the function itself has left.
func (x *Exec) splice(f *ssa.Function, con *Contract) map[loopAt]int {
	most := -1
	for n := range con.Loops {
		if n > most {
			most = n
		}
	}
	if most < len(x.V.loops(f)) {
		return nil
	}
	type ent struct {
		at  loopAt
		pos token.Pos
		in  *ssa.Function
	}
	var seq []loopAt
	seen := map[*ssa.Function]bool{}
	twice := false
	var build func(g *ssa.Function, depth int)
	build = func(g *ssa.Function, depth int) {
		if seen[g] {
			twice = twice || len(x.V.loops(g)) > 0
			return
		}
		seen[g] = true
		var es []ent
		for _, lp := range x.V.loops(g) {
			es = append(es, ent{at: loopAt{g, lp.index}, pos: lp.pos})
		}
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				c, ok := in.(*ssa.Call)
				if !ok {
					continue
				}
				h := c.Call.StaticCallee()
				if h == nil || len(h.Blocks) == 0 || h.Pkg == nil || h.Pkg != f.Pkg || x.V.Spec.Contracts[funcKey(h)] != nil || depth > 3 {
					continue
				}
				es = append(es, ent{pos: c.Pos(), in: h})
			}
		}
		sort.SliceStable(es, func(i, j int) bool {
			if es[i].pos != es[j].pos {
				return es[i].pos < es[j].pos
			}
			return es[i].at.idx < es[j].at.idx
		})
		for _, e := range es {
			if e.in != nil {
				build(e.in, depth+1)
			} else {
				seq = append(seq, e.at)
			}
		}
	}
	build(f, 0)
	if twice || len(seq) <= most {
		return nil
	}
	m := map[loopAt]int{}
	for i, a := range seq {
		m[a] = i
	}
	return m
}
