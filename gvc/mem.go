package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"

	"golang.org/x/tools/go/ssa"
)

func (x *Exec) zero(t types.Type) *Term {
	if n, ok := t.(*types.Named); ok {
		if _, isS := n.Underlying().(*types.Struct); isS && x.opaque(n) {
			s := x.Sort(t)
			return x.P.Const("zero!"+typeKey(t), s)
		}
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return x.P.fal
		case u.Info()&types.IsInteger != 0:
			return x.P.Int(0)
		case u.Info()&types.IsFloat != 0:
			return x.fltConst("0")
		case u.Info()&types.IsString != 0:
			return x.Str("")
		case u.Kind() == types.UntypedNil:
			return x.anyNil()
		}
		return x.P.Int(0)
	case *types.Pointer, *types.Map, *types.Chan, *types.Signature:
		return x.P.Int(0)
	case *types.Slice:
		return x.nilSlice()
	case *types.Interface:
		return x.anyNil()
	case *types.Array:
		return x.P.ConstArr(x.Sort(t), x.zero(u.Elem()))
	case *types.Struct:
		vs := make([]*Term, u.NumFields())
		for i := range vs {
			vs[i] = x.zero(u.Field(i).Type())
		}
		return x.mkStruct(t, vs)
	}
	panic(&Unsupported{"zero value of " + t.String()})
}

func (x *Exec) fltConst(s string) *Term {
	n := "flt!" + s
	if _, ok := x.P.sigs[n]; !ok {
		t := x.P.Const(n, "F64")
		x.C.emitAssert(x.P.mk("=", "Bool", x.P.Fun("fltid", "Int", t), x.P.Int(int64(len(x.fltIDs)+1))))
		x.fltIDs = append(x.fltIDs, s)
		x.C.emitAssert(x.P.Fun("f.eq", "Bool", t, t))
	}
	return x.P.Const(n, "F64")
}

func (x *Exec) constVal(c *ssa.Const) Val {
	t := c.Type()
	if c.Value == nil {
		return Val{T: x.zero(t)}
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return Val{T: x.P.Bool(constant.BoolVal(c.Value))}
		case u.Info()&types.IsInteger != 0:
			v := constant.ToInt(c.Value)
			b, ok := new(big.Int).SetString(v.ExactString(), 10)
			if !ok {
				panic(&Unsupported{"constant " + c.String()})
			}
			return Val{T: x.P.Big(b)}
		case u.Info()&types.IsString != 0:
			return Val{T: x.Str(constant.StringVal(c.Value))}
		case u.Info()&types.IsFloat != 0:
			return Val{T: x.fltConst(constant.ToFloat(c.Value).ExactString())}
		}
	}
	panic(&Unsupported{"constant of type " + t.String()})
}

// typeFacts asserts that a term is a well-typed value of its Go type in state st.
func (x *Exec) typeFacts(st *State, v *Term, t types.Type, deep int) {
	for _, f := range x.typeFactList(st, v, t, deep) {
		x.assume(f)
	}
}

func (x *Exec) rangeOf(v *Term, t types.Type) {
	if lo, hi, ok := intRange(t); ok {
		if v.num == nil {
			if _, have := x.ranges[v]; !have {
				x.ranges[v] = [2]*big.Int{lo, hi}
			}
		}
	}
}

func (x *Exec) typeFactList(st *State, v *Term, t types.Type, deep int) (fs []*Term) {
	p := x.P
	if n, ok := t.(*types.Named); ok {
		if _, isS := n.Underlying().(*types.Struct); isS && x.opaque(n) {
			return
		}
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if lo, hi, ok := intRange(t); ok && v.num == nil {
			x.rangeOf(v, t)
			fs = append(fs, p.Le(p.Big(lo), v), p.Le(v, p.Big(hi)))
		}
		if u.Info()&types.IsString != 0 && v.Op != "str!" {
			l := x.SLen(v)
			fs = append(fs, p.Ge(l, p.Int(0)))
		}
	case *types.Pointer:
		fs = append(fs, p.Ge(v, p.Int(0)), p.Lt(v, st.alloc))
	case *types.Map:
		fs = append(fs, p.Lt(v, st.alloc))
	case *types.Chan, *types.Signature:
	case *types.Slice:
		if v.Op == "mk!Slice" && v.Args[0].num != nil {
			return
		}
		z := p.Int(0)
		b, o, l, c := x.sBase(v), x.sOff(v), x.sLen(v), x.sCap(v)
		mx := p.Big(big2(40))
		fs = append(fs, p.Lt(b, st.alloc), p.Ge(o, z), p.Ge(l, z), p.Le(l, c), p.Le(c, mx), p.Le(o, mx),
			p.Implies(p.Eq(b, z), p.And(p.Eq(c, z), p.Eq(l, z), p.Eq(o, z))))
	case *types.Interface:
		if sl, ok := x.V.Spec.Sealed[typeKey(t)]; ok {
			var alts []*Term
			alts = append(alts, p.Eq(v, x.anyNil()))
			for _, tn := range sl {
				ty := x.V.lookupType(tn)
				alts = append(alts, x.TagIs(v, ty))
				if _, isP := ty.(*types.Pointer); isP {
					ub := x.Unbox(ty, v)
					fs = append(fs, p.Implies(x.TagIs(v, ty), p.And(p.Gt(ub, p.Int(0)), p.Lt(ub, st.alloc))))
				}
			}
			fs = append(fs, p.Or(alts...))
		}
	case *types.Struct:
		if deep > 3 {
			return
		}
		for i := 0; i < u.NumFields(); i++ {
			fs = append(fs, x.typeFactList(st, x.structGet(t, v, i), u.Field(i).Type(), deep+1)...)
		}
	}
	return
}

func (x *Exec) fieldHeapName(owner types.Type, i int) string {
	s := owner.Underlying().(*types.Struct)
	return "F!" + typeKey(owner) + "." + s.Field(i).Name()
}
func (x *Exec) fieldHeapSort(owner types.Type, i int) string {
	s := owner.Underlying().(*types.Struct)
	return ArrSort("Int", x.Sort(s.Field(i).Type()))
}
func (x *Exec) elemHeapName(el types.Type) string { return "E!" + typeKey(el) }
func (x *Exec) elemHeapSort(el types.Type) string {
	return ArrSort("Int", ArrSort("Int", x.Sort(el)))
}

func deref(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

// getField reads field i of the object at ref.
func (x *Exec) getField(st *State, owner types.Type, ref *Term, i int) *Term {
	s := owner.Underlying().(*types.Struct)
	ft := s.Field(i).Type()
	if n, ok := owner.(*types.Named); ok && x.isImmutable(n) {
		if loc, ok := st.fresh[ref]; ok {
			if v, ok := loc[i]; ok {
				return v.T
			}
			return x.zero(ft)
		}
		return x.immField(st, n, ref, i)
	}
	x.lockCheck(st, owner, ref, i, false)
	h := x.heap(st, x.fieldHeapName(owner, i), x.fieldHeapSort(owner, i))
	return x.sel(h, ref)
}

// immField is the (heap independent) value of a field of a published immutable object.
func (x *Exec) immField(st *State, n *types.Named, ref *Term, i int) *Term {
	s := n.Underlying().(*types.Struct)
	ft := s.Field(i).Type()
	nm := "f!" + typeKey(n) + "." + s.Field(i).Name()
	switch ft.Underlying().(type) {
	case *types.Slice:
		ln := x.P.Fun(nm+".len", "Int", ref)
		isnil := x.P.Fun(nm+".nil", "Bool", ref)
		b := x.P.Fun(nm+".base", "Int", ref)
		if !x.immSeen[ln] && !ref.bound {
			x.immSeen[ln] = true
			x.ranges[ln] = [2]*big.Int{new(big.Int), big2(40)}
			x.C.emitAssert(x.P.And(x.P.Ge(ln, x.P.Int(0)), x.P.Le(ln, x.P.Big(big2(40))), x.P.Lt(b, x.P.Int(0)), x.P.Implies(isnil, x.P.Eq(ln, x.P.Int(0)))))
		}
		z := x.P.Int(0)
		_ = isnil
		return x.mkSlice(b, z, ln, ln)
	case *types.Map:
		m := x.P.Fun(nm+".map", "Int", ref)
		if !x.immSeen[m] && !ref.bound {
			x.immSeen[m] = true
			x.C.emitAssert(x.P.Lt(m, x.P.Int(0)))
		}
		return m
	}
	v := x.P.Fun(nm, x.Sort(ft), ref)
	if !x.immSeen[v] && !ref.bound {
		x.immSeen[v] = true
		x.typeFacts(st, v, ft, 0)
		x.immSeen[v] = false
	}
	return v
}

func (x *Exec) setField(st *State, owner types.Type, ref *Term, i int, v *Term) {
	if n, ok := owner.(*types.Named); ok && x.isImmutable(n) {
		if loc, ok := st.fresh[ref]; ok {
			x.note("L:fresh")
			loc[i] = Val{T: v}
			return
		}
		x.oblige(st, x.P.fal, "immutable:"+typeKey(n)+"."+owner.Underlying().(*types.Struct).Field(i).Name(), "write to a published immutable object")
		return
	}
	x.lockCheck(st, owner, ref, i, true)
	x.private(st, owner, ref, i, v)
	x.stored(st, owner, ref, i, v)
	nm := x.fieldHeapName(owner, i)
	h := x.heap(st, nm, x.fieldHeapSort(owner, i))
	x.setHeap(st, nm, x.P.Store(h, ref, v))
}

// publish freezes a locally built immutable object.
func (x *Exec) publish(st *State, ref *Term) {
	loc, ok := st.fresh[ref]
	if !ok {
		return
	}
	n := x.immOwner[ref]
	s := n.Underlying().(*types.Struct)
	for i := 0; i < s.NumFields(); i++ {
		if l, ok := loc[i]; ok {
			x.publishTerm(st, l.T)
		}
	}
	if ti := x.V.Spec.Invs[typeKey(n)]; ti != nil {
		e := &SEnv{x: x, st: st, old: st, vars: map[string]SVal{ti.Self: {T: ref, Ty: types.NewPointer(n)}}, pkg: n.Obj().Pkg()}
		for i, c := range ti.Cl {
			x.oblige(st, e.Bool(c.E), "typeinv:"+typeKey(n)+":"+clauseName(c, i), "invariant of "+typeKey(n)+": "+c.Src)
		}
	}
	for i := 0; i < s.NumFields(); i++ {
		if l, ok := loc[i]; ok {
			x.stored(st, n, ref, i, l.T)
		}
	}
	delete(st.fresh, ref)
	x.note("L:fresh")
	p := x.P
	z := p.Int(0)
	for i := 0; i < s.NumFields(); i++ {
		ft := s.Field(i).Type()
		var v *Term
		if l, ok := loc[i]; ok {
			v = l.T
		} else {
			v = x.zero(ft)
		}
		x.publishTerm(st, v)
		fv := x.immField(st, n, ref, i)
		nm := typeKey(n) + "." + s.Field(i).Name()
		switch u := ft.Underlying().(type) {
		case *types.Slice:
			b := x.sBase(v)
			x.oblige(st, p.Or(p.Le(b, z), p.Ge(b, x.alloc0)), "owned:"+nm, "slice stored in an immutable object must be freshly built")
			hn, hs := x.elemHeapName(u.Elem()), x.elemHeapSort(u.Elem())
			h := x.heap(st, hn, hs)
			q := x.bv("Int")
			fb := x.sBase(fv)
			row := x.refRow(st, hn, hs, fb)
			src := x.refRow(st, hn, hs, b)
			_ = h
			x.assume(p.Eq(x.sLen(fv), x.sLen(v)))
			l := x.sLen(v)
			if l.num != nil && l.num.IsInt64() && l.num.Int64() <= 16 {
				for k := int64(0); k < l.num.Int64(); k++ {
					x.assume(p.Eq(x.sel(row, p.Int(k)), x.sel(src, p.Add(x.sOff(v), p.Int(k)))))
				}
			} else {
				lhs := p.Select(row, q)
				x.assume(p.Forall([]*Term{q}, p.Implies(p.And(p.Le(z, q), p.Lt(q, l)), p.Eq(lhs, p.Select(src, p.Add(x.sOff(v), q)))), lhs))
			}
			st.frozen = append(st.frozen, b)
		case *types.Map:
			x.oblige(st, p.Or(p.Le(v, z), p.Ge(v, x.alloc0)), "owned:"+nm, "map stored in an immutable object must be freshly built")
			for _, k := range []string{"MD", "MV", "ML"} {
				hn, hs := x.mapHeap(k, u)
				x.assume(p.Eq(x.refRow(st, hn, hs, fv), x.refRow(st, hn, hs, v)))
			}
			st.frozen = append(st.frozen, v)
		default:
			x.assume(p.Eq(fv, v))
		}
	}
}

// publishTerm freezes objects whose references occur directly in a value.
func (x *Exec) publishTerm(st *State, v *Term) {
	if len(st.fresh) == 0 || v == nil {
		return
	}
	if _, ok := st.fresh[v]; ok {
		x.publish(st, v)
		return
	}
	if v.Sort == "Any" || len(v.Op) > 3 && v.Op[:3] == "mk!" {
		for _, a := range v.Args {
			x.publishTerm(st, a)
		}
	}
}

func (x *Exec) publishAll(st *State) {
	for len(st.fresh) > 0 {
		for r := range st.fresh {
			x.publish(st, r)
			break
		}
	}
}

func (x *Exec) mapHeap(k string, m *types.Map) (string, string) {
	ks, vs := x.Sort(m.Key()), x.Sort(m.Elem())
	nm := k + "!" + typeKey(m.Key()) + "," + typeKey(m.Elem())
	switch k {
	case "MD":
		return nm, ArrSort("Int", ArrSort(ks, "Bool"))
	case "MV":
		return nm, ArrSort("Int", ArrSort(ks, vs))
	}
	return nm, ArrSort("Int", "Int")
}

// refRow reads a heap at a reference; storage of immutable objects never changes, so it is read from the initial heap.
func (x *Exec) refRow(st *State, nm, sort string, ref *Term) *Term {
	if isImmBase(ref) {
		x.heap(st, nm, sort)
		return x.P.Select(x.hbase[nm], ref)
	}
	return x.sel(x.heap(st, nm, sort), ref)
}

func (x *Exec) mapGet(st *State, m *types.Map, ref, key *Term) (has, val *Term) {
	dn, ds := x.mapHeap("MD", m)
	vn, vs := x.mapHeap("MV", m)
	has = x.sel(x.refRow(st, dn, ds, ref), key)
	val = x.sel(x.refRow(st, vn, vs, ref), key)
	return
}

func (x *Exec) mapLen(st *State, m *types.Map, ref *Term) *Term {
	ln, ls := x.mapHeap("ML", m)
	dn, ds := x.mapHeap("MD", m)
	l := x.refRow(st, ln, ls, ref)
	p := x.P
	if l.num == nil && !l.bound {
		d := x.refRow(st, dn, ds, ref)
		q := x.bv(x.Sort(m.Key()))
		qd := p.Select(d, q)
		x.assume(p.And(p.Ge(l, p.Int(0)), p.Le(l, p.Big(big2(40)))))
		x.ranges[l] = [2]*big.Int{new(big.Int), big2(40)}
		if qd.bound {
			x.assume(p.Forall([]*Term{q}, p.Implies(qd, p.Ge(l, p.Int(1))), qd))
		}
		w := x.fresh("mw", x.Sort(m.Key()))
		x.assume(p.Implies(p.Ge(l, p.Int(1)), p.Select(d, w)))
	}
	return l
}

// immOwns: some immutable type has a field of this (map or slice) type.
func (v *Verifier) immOwns(t types.Type) bool {
	for n := range v.Spec.Immutable {
		s, ok := v.lookupType(n).Underlying().(*types.Struct)
		if !ok {
			continue
		}
		for i := 0; i < s.NumFields(); i++ {
			if types.Identical(s.Field(i).Type().Underlying(), t) {
				return true
			}
		}
	}
	return false
}

func (x *Exec) notFrozen(st *State, base *Term, what string) {
	// a write must not hit storage owned by an immutable object
	var cs []*Term
	for _, f := range st.frozen {
		if x.P.distinctVals(base, f) {
			continue
		}
		cs = append(cs, x.P.Not(x.P.And(x.P.Eq(base, f), x.P.Not(x.P.Eq(f, x.P.Int(0))))))
	}
	if !x.freshRef[base] {
		cs = append(cs, x.P.Ge(base, x.P.Int(0)))
	}
	x.oblige(st, x.P.And(cs...), "immutable-storage:"+what, "write to storage owned by an immutable object")
}

func (x *Exec) mapSet(st *State, m *types.Map, ref, key, val *Term, del bool) {
	if x.V.immOwns(m) {
		x.notFrozen(st, ref, "map")
	}
	p := x.P
	dn, ds := x.mapHeap("MD", m)
	vn, vs := x.mapHeap("MV", m)
	ln, ls := x.mapHeap("ML", m)
	hd, hv, hl := x.heap(st, dn, ds), x.heap(st, vn, vs), x.heap(st, ln, ls)
	rd, rv, rl := x.sel(hd, ref), x.sel(hv, ref), x.sel(hl, ref)
	had := x.sel(rd, key)
	if del {
		x.setHeap(st, dn, p.Store(hd, ref, x.rowStore(rd, key, p.fal)))
		x.setHeap(st, ln, p.Store(hl, ref, p.Sub(rl, p.Ite(had, p.Int(1), p.Int(0)))))
		return
	}
	x.setHeap(st, dn, p.Store(hd, ref, x.rowStore(rd, key, p.tru)))
	x.setHeap(st, vn, p.Store(hv, ref, x.rowStore(rv, key, val)))
	x.setHeap(st, ln, p.Store(hl, ref, p.Add(rl, p.Ite(had, p.Int(0), p.Int(1)))))
}

func (x *Exec) newRef(st *State) *Term {
	r := st.alloc
	st.alloc = x.P.Add(st.alloc, x.P.Int(1))
	x.note("alloc")
	st.owned[r] = true
	x.freshRef[r] = true
	return r
}

func (x *Exec) newCell(st *State, t types.Type, v Val) *Addr {
	x.ncell++
	x.cellT[x.ncell] = t
	st.cells[x.ncell] = v
	return &Addr{K: aCell, Cell: x.ncell, Typ: t}
}

func (x *Exec) elemGet(st *State, el types.Type, base, idx *Term) *Term {
	return x.sel(x.rowOf(st, el, base), idx)
}

func (x *Exec) elemSet(st *State, el types.Type, base, idx, v *Term) {
	x.notFrozen(st, base, "slice")
	nm := x.elemHeapName(el)
	h := x.heap(st, nm, x.elemHeapSort(el))
	x.setHeap(st, nm, x.P.Store(h, base, x.rowStore(x.sel(h, base), idx, v)))
}

func (x *Exec) loadRoot(st *State, a *Addr) Val {
	switch a.K {
	case aCell:
		v, ok := st.cells[a.Cell]
		if !ok {
			panic(&Unsupported{"load from dead cell"})
		}
		return v
	case aField:
		t := x.getField(st, a.Owner0(), a.Ref, a.Field)
		return Val{T: t}
	case aElem:
		return Val{T: x.elemGet(st, a.Typ, a.Ref, a.Idx)}
	case aGlobal:
		if v, ok := st.glob[a.G]; ok {
			return v
		}
		v := x.globalInit(st, a.G)
		st.glob[a.G] = v
		return v
	case aBox:
		h := x.heap(st, "B!"+typeKey(a.Typ), ArrSort("Int", x.Sort(a.Typ)))
		return Val{T: x.sel(h, a.Ref)}
	}
	panic("addr")
}

func (a *Addr) Owner0() types.Type {
	if a.Owner != nil {
		return a.Owner
	}
	return a.Str
}

func (x *Exec) globalInit(st *State, g *ssa.Global) Val {
	t := deref(g.Type())
	v := x.P.Const("g!"+g.String(), x.Sort(t))
	x.rangeOf(v, t)
	if !x.V.globalMutated[g] {
		if c := x.V.globalConst(g, 0); c != nil {
			return x.constVal(ssa.NewConst(c, t))
		}
		if types.IsInterface(t) && t.String() == "error" && x.V.globalErr[g] {
			id := x.typeID(types.Typ[types.UnsafePointer])
			_ = id
			x.assume(x.P.Not(x.P.Eq(v, x.anyNil())))
			x.assume(x.P.mk("=", "Bool", x.P.Fun("errid", "Int", v), x.P.Int(int64(len(g.String())+1000*int(g.Pos())))))
		}
	}
	for _, f := range x.typeFactList(&State{alloc: x.alloc0}, v, t, 0) {
		x.assume(f)
	}
	return Val{T: v}
}

// globalConst is the value of a basic global that is set once, by its initialiser, to a constant
// expression over constants and other such globals.
func (v *Verifier) globalConst(g *ssa.Global, depth int) constant.Value {
	bt, ok := deref(g.Type()).Underlying().(*types.Basic)
	if !ok || bt.Info()&(types.IsString|types.IsInteger|types.IsBoolean) == 0 || depth > 10 || v.globalMutated[g] {
		return nil
	}
	if len(v.globalStores[g]) != 1 {
		return nil
	}
	var ev func(s ssa.Value) constant.Value
	ev = func(s ssa.Value) constant.Value {
		switch s := s.(type) {
		case *ssa.Const:
			return s.Value
		case *ssa.UnOp:
			if h, ok := s.X.(*ssa.Global); ok && s.Op == token.MUL {
				return v.globalConst(h, depth+1)
			}
		case *ssa.BinOp:
			a, b := ev(s.X), ev(s.Y)
			if a != nil && b != nil && s.Op == token.ADD && bt.Info()&types.IsString != 0 {
				return constant.BinaryOp(a, token.ADD, b)
			}
		}
		return nil
	}
	return ev(v.globalStores[g][0])
}

func (x *Exec) storeRoot(st *State, a *Addr, v Val) {
	switch a.K {
	case aCell:
		x.note(fmt.Sprintf("C:%d", a.Cell))
		st.cells[a.Cell] = v
	case aField:
		x.setField(st, a.Owner0(), a.Ref, a.Field, x.term(st, v, a.Typ))
	case aElem:
		x.elemSet(st, a.Typ, a.Ref, a.Idx, x.term(st, v, a.Typ))
	case aGlobal:
		x.note("G:" + a.G.String())
		st.glob[a.G] = v
	case aBox:
		nm := "B!" + typeKey(a.Typ)
		h := x.heap(st, nm, ArrSort("Int", x.Sort(a.Typ)))
		x.setHeap(st, nm, x.P.Store(h, a.Ref, x.term(st, v, a.Typ)))
	}
}

// load reads through an address; the result is asserted well typed.
func (x *Exec) load(st *State, a *Addr) Val {
	v := x.loadRoot(st, a)
	t := a.Typ
	for i, f := range a.Path {
		v = Val{T: x.structGet(t, x.term(st, v, t), f)}
		t = a.PTyp[i]
	}
	if v.T != nil && !v.T.bound && v.T.num == nil && v.T.Op != "true" && v.T.Op != "false" {
		x.typeFacts(st, v.T, t, 0)
		if l, ok := st.known[v.T]; ok {
			v.T = l
		}
	}
	return v
}

func (x *Exec) store(st *State, a *Addr, v Val) {
	if len(a.Path) == 0 {
		x.storeRoot(st, a, v)
		return
	}
	root := x.loadRoot(st, a)
	var upd func(t types.Type, cur *Term, i int) *Term
	upd = func(t types.Type, cur *Term, i int) *Term {
		if i == len(a.Path) {
			return x.term(st, v, t)
		}
		f := a.Path[i]
		return x.structSet(t, cur, f, upd(a.PTyp[i], x.structGet(t, cur, f), i+1))
	}
	x.storeRoot(st, a, Val{T: upd(a.Typ, x.term(st, root, a.Typ), 0)})
}

// term turns a value into an SMT term (function values and addresses get opaque identities).
func (x *Exec) term(st *State, v Val, t types.Type) *Term {
	if v.T != nil {
		return v.T
	}
	if v.F != nil {
		n := "fn!" + v.F.Fn.String()
		var as []*Term
		for _, b := range v.F.Bind {
			if b.T != nil {
				as = append(as, b.T)
			}
			if b.A != nil {
				as = append(as, x.addrTerm(st, b.A))
			}
		}
		r := x.P.Fun(fmt.Sprintf("%s/%d", n, len(as)), "Int", as...)
		x.closures[r] = v.F
		x.assume(x.P.Gt(r, x.P.Int(0)))
		for _, b := range v.F.Bind {
			x.escape(st, b)
		}
		return r
	}
	if v.A != nil {
		return x.addrTerm(st, v.A)
	}
	panic(&Unsupported{"value has no term: " + t.String()})
}

func (x *Exec) addrTerm(st *State, a *Addr) *Term {
	var r *Term
	switch a.K {
	case aCell:
		r = x.P.Const(fmt.Sprintf("cell!%d", a.Cell), "Int")
	case aField:
		r = x.P.Fun(fmt.Sprintf("addr!%s.%d%v", typeKey(a.Owner0()), a.Field, a.Path), "Int", a.Ref)
	case aElem:
		r = x.P.Fun("addr!"+typeKey(a.Typ)+fmt.Sprint(a.Path), "Int", a.Ref, a.Idx)
	case aGlobal:
		r = x.P.Const("addr!"+a.G.String(), "Int")
	case aBox:
		return a.Ref
	}
	x.assume(x.P.Gt(r, x.P.Int(0)))
	x.addrs[r] = a
	return r
}

// escape marks a value as shared with unknown code.
func (x *Exec) escape(st *State, v Val) {
	if v.T != nil {
		x.publishTerm(st, v.T)
		x.disown(st, v.T)
	}
	if v.F != nil {
		for _, b := range v.F.Bind {
			x.escape(st, b)
		}
	}
}

func (x *Exec) disown(st *State, t *Term) {
	if len(st.owned) == 0 {
		return
	}
	if st.owned[t] {
		delete(st.owned, t)
		return
	}
	if t.Sort == "Any" || len(t.Op) > 3 && t.Op[:3] == "mk!" {
		for _, a := range t.Args {
			x.disown(st, a)
		}
	}
}

// onlySliced: every access to this field in the program is the operand of a slice expression.
func (v *Verifier) onlySliced(owner types.Type, field int) bool {
	for _, fn := range v.Funcs {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				fa, ok := in.(*ssa.FieldAddr)
				if !ok || fa.Field != field || typeKey(deref(fa.X.Type())) != typeKey(owner) {
					continue
				}
				for _, r := range *fa.Referrers() {
					if _, ok := r.(*ssa.Slice); !ok {
						if _, ok := r.(*ssa.DebugRef); !ok {
							return false
						}
					}
				}
			}
		}
	}
	return true
}
