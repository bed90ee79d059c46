package main

import (
	"fmt"
	"go/ast"
	"go/types"
	"math/big"
	"os"
	"regexp"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// modTargets interprets a modifies expression.
func (e *SEnv) modTargets(c *Clause) (out []modTarget) {
	x := e.x
	switch n := c.E.(type) {
	case *ast.Ident:
		if _, ok := x.V.Spec.Ghosts[n.Name]; ok {
			return []modTarget{{ghost: n.Name}}
		}
	case *ast.CallExpr:
		id := n.Fun.(*ast.Ident)
		switch id.Name {
		case "elems":
			v := e.eval(n.Args[0])
			el := v.Ty.Underlying().(*types.Slice).Elem()
			return []modTarget{{heap: x.elemHeapName(el), sort: x.elemHeapSort(el), ref: x.sBase(v.T), lo: x.sOff(v.T), hi: x.P.Add(x.sOff(v.T), x.sLen(v.T))}}
		case "backing":
			v := e.eval(n.Args[0])
			el := v.Ty.Underlying().(*types.Slice).Elem()
			return []modTarget{{heap: x.elemHeapName(el), sort: x.elemHeapSort(el), ref: x.sBase(v.T)}}
		case "map", "entries":
			v := e.eval(n.Args[0])
			m := v.Ty.Underlying().(*types.Map)
			for _, k := range []string{"MD", "MV", "ML"} {
				nm, so := x.mapHeap(k, m)
				out = append(out, modTarget{heap: nm, sort: so, ref: v.T})
			}
			return
		case "allmaps":
			m := e.typeArg(n.Args[0]).Underlying().(*types.Map)
			for _, k := range []string{"MD", "MV", "ML"} {
				nm, so := x.mapHeap(k, m)
				out = append(out, modTarget{heap: nm, sort: so})
			}
			return
		case "allfields":
			// every field of every object of a type
			ty := e.typeArg(n.Args[0])
			s := ty.Underlying().(*types.Struct)
			for i := 0; i < s.NumFields(); i++ {
				out = append(out, modTarget{heap: x.fieldHeapName(ty, i), sort: x.fieldHeapSort(ty, i)})
			}
			return
		case "anyof", "anydeep":
			// one field of every object: anyof("pkg.T.f")
			nm := strings.Trim(exprStr(n.Args[0]), "\"")
			j := strings.LastIndex(nm, ".")
			ty := x.V.lookupType(nm[:j])
			s := ty.Underlying().(*types.Struct)
			for i := 0; i < s.NumFields(); i++ {
				if s.Field(i).Name() == nm[j+1:] {
					out = append(out, modTarget{heap: x.fieldHeapName(ty, i), sort: x.fieldHeapSort(ty, i)})
					if id.Name == "anydeep" {
						// and the storage of such a slice or map
						switch u := s.Field(i).Type().Underlying().(type) {
						case *types.Slice:
							out = append(out, modTarget{heap: x.elemHeapName(u.Elem()), sort: x.elemHeapSort(u.Elem()), deep: true})
						case *types.Map:
							for _, k := range []string{"MD", "MV", "ML"} {
								nm, so := x.mapHeap(k, u)
								out = append(out, modTarget{heap: nm, sort: so})
							}
						}
					}
				}
			}
			if len(out) == 0 {
				specErr("no field %s", nm)
			}
			return
		case "anyatom":
			// every atomic cell of one type
			ty := e.typeArg(n.Args[0])
			return []modTarget{{heap: "AT!" + typeKey(ty), sort: ArrSort("Int", atomSort(types.NewPointer(ty)))}}
		case "allelems":
			ty := e.typeArg(n.Args[0])
			return []modTarget{{heap: x.elemHeapName(ty), sort: x.elemHeapSort(ty)}}
		case "load":
			v := e.eval(n.Args[0])
			return []modTarget{{heap: atomHeap(v.Ty), sort: ArrSort("Int", atomSort(v.Ty)), ref: v.T}}
		case "chan", "channel":
			v := e.eval(n.Args[0])
			return []modTarget{{heap: "CH!sent", sort: ArrSort("Int", "Int"), ref: v.T}, {heap: "CH!last", sort: ArrSort("Int", "Any"), ref: v.T}, {heap: "CH!closed", sort: ArrSort("Int", "Bool"), ref: v.T}}
		case "chans":
			return []modTarget{{heap: "CH!sent", sort: ArrSort("Int", "Int")}, {heap: "CH!last", sort: ArrSort("Int", "Any")}}
		}
	case *ast.StarExpr:
		v := e.eval(n.X)
		t := deref(v.Ty)
		if a := v.V.A; a != nil && a.K == aField && len(a.Path) == 0 {
			return []modTarget{{heap: x.fieldHeapName(a.Owner0(), a.Field), sort: x.fieldHeapSort(a.Owner0(), a.Field), ref: a.Ref, typ: t}}
		}
		if s, ok := t.Underlying().(*types.Struct); ok {
			for i := 0; i < s.NumFields(); i++ {
				out = append(out, modTarget{heap: x.fieldHeapName(t, i), sort: x.fieldHeapSort(t, i), ref: v.T, typ: s.Field(i).Type()})
			}
			return
		}
		return []modTarget{{heap: "B!" + typeKey(t), sort: ArrSort("Int", x.Sort(t)), ref: v.T, typ: t}}
	case *ast.SelectorExpr:
		v := e.eval(n.X)
		o, path, _ := types.LookupFieldOrMethod(v.Ty, true, x.V.pkgOf(v.Ty), n.Sel.Name)
		if o == nil {
			specErr("modifies %s", c.Src)
		}
		t := deref(v.Ty)
		s := t.Underlying().(*types.Struct)
		return []modTarget{{heap: x.fieldHeapName(t, path[0]), sort: x.fieldHeapSort(t, path[0]), ref: v.T, typ: s.Field(path[0]).Type()}}
	}
	specErr("modifies %s", c.Src)
	return nil
}

type model func(x *Exec, st *State, fid int, fn *ssa.Function, a []Val, k K) bool

func ret1(k K, st *State, t *Term) bool { k.ret(st, []Val{{T: t}}); return true }

func atomSort(t types.Type) string {
	switch {
	case strings.HasSuffix(typeKey(deref(t)), "Bool"):
		return "Bool"
	}
	return "Int"
}
func atomHeap(t types.Type) string { return "AT!" + typeKey(deref(t)) }

func (x *Exec) newErr(st *State, what string) *Term {
	e := x.fresh(what, "Any")
	x.assume(x.P.Not(x.P.Eq(e, x.anyNil())))
	return e
}

// atom access through a pointer value
func atomOps(typ, sort string) {
	h := func(x *Exec, st *State) *Term { return x.heap(st, "AT!"+typ, ArrSort("Int", sort)) }
	pre := "(*go.uber.org/" + typ + ")."
	nn := func(x *Exec, st *State, fid int, r *Term, k K, f func(*State)) {
		rp := x.canRec > 0 || x.allowPan
		x.must(st, fid, x.P.Not(x.P.Eq(r, x.P.Int(0))), "nil", "nil atomic", k, func(s *State) {
			if !rp {
				s = st
			}
			f(s)
		})
	}
	models[pre+"Load"] = func(x *Exec, st *State, fid int, fn *ssa.Function, a []Val, k K) bool {
		r := x.term(st, a[0], nil)
		nn(x, st, fid, r, k, func(st *State) {
			if x.Con != nil && x.Con.Volatile {
				v := x.fresh("atomic", sort)
				if sort == "Int" {
					x.assume(x.P.And(x.P.Le(x.P.Int(0), v), x.P.Lt(v, x.P.Big(big2(32)))))
				}
				ret1(k, st, v)
				return
			}
			v := x.sel(h(x, st), r)
			if l, ok := st.known[v]; ok {
				v = l
			}
			ret1(k, st, v)
		})
		return true
	}
	models[pre+"Store"] = func(x *Exec, st *State, fid int, fn *ssa.Function, a []Val, k K) bool {
		r := x.term(st, a[0], nil)
		nn(x, st, fid, r, k, func(st *State) {
			x.setHeap(st, "AT!"+typ, x.P.Store(h(x, st), r, a[1].T))
			k.ret(st, nil)
		})
		return true
	}
	models[pre+"CompareAndSwap"] = func(x *Exec, st *State, fid int, fn *ssa.Function, a []Val, k K) bool {
		r := x.term(st, a[0], nil)
		nn(x, st, fid, r, k, func(st *State) {
			p := x.P
			cur := x.sel(h(x, st), r)
			if x.Con != nil && x.Con.Volatile {
				cur = x.fresh("atomic", sort)
			}
			ok := p.Eq(cur, a[1].T)
			x.setHeap(st, "AT!"+typ, p.Store(h(x, st), r, p.Ite(ok, a[2].T, cur)))
			ret1(k, st, ok)
		})
		return true
	}
	models[pre+"Inc"] = func(x *Exec, st *State, fid int, fn *ssa.Function, a []Val, k K) bool {
		r := x.term(st, a[0], nil)
		nn(x, st, fid, r, k, func(st *State) {
			p := x.P
			cur := x.sel(h(x, st), r)
			if x.Con != nil && x.Con.Volatile {
				cur = x.fresh("atomic", sort)
			}
			x.assume(p.And(p.Le(p.Int(0), cur), p.Lt(cur, p.Big(big2(32)))))
			v := p.Mod(p.Add(cur, p.Int(1)), p.Big(big2(32)))
			x.setHeap(st, "AT!"+typ, p.Store(h(x, st), r, v))
			ret1(k, st, v)
		})
		return true
	}
	nm := strings.TrimPrefix(typ, "atomic.")
	models["go.uber.org/atomic.New"+nm] = func(x *Exec, st *State, fid int, fn *ssa.Function, a []Val, k K) bool {
		r := x.newRef(st)
		x.setHeap(st, "AT!"+typ, x.P.Store(h(x, st), r, a[0].T))
		return ret1(k, st, r)
	}
}

var models = map[string]model{}

func nop(x *Exec, st *State, fid int, fn *ssa.Function, a []Val, k K) bool {
	var res []Val
	if fn != nil {
		res = x.havocResults(st, "r", fn.Signature)
	}
	k.ret(st, res)
	return true
}

func init() {
	atomOps("atomic.Bool", "Bool")
	atomOps("atomic.Uint32", "Int")
	for _, n := range []string{"fmt.Printf", "fmt.Println", "fmt.Fprintln", "(*log.Logger).Println", "(*go.uber.org/zap.SugaredLogger).Debugw",
		"(*go.uber.org/zap.SugaredLogger).Errorw", "(*go.uber.org/zap.SugaredLogger).Infow", "(*go.uber.org/zap.SugaredLogger).Warnw", "time.Sleep"} {
		models[n] = nop
	}
	for _, n := range []string{"Debug", "Error", "Info", "Warn"} {
		models["I:common.Logger."+n] = func(x *Exec, st *State, fid int, fn *ssa.Function, a []Val, k K) bool {
			x.trust("logging has no effect on program data")
			k.ret(st, nil)
			return true
		}
	}
	models["I:error.Error"] = func(x *Exec, st *State, fid int, fn *ssa.Function, a []Val, k K) bool {
		return ret1(k, st, x.P.Fun("errmsg", "Str", a[0].T))
	}
	errNew := func(x *Exec, st *State, fid int, fn *ssa.Function, a []Val, k K) bool {
		x.growAlloc(st)
		return ret1(k, st, x.newErr(st, "err"))
	}
	models["fmt.Errorf"] = errNew
	models["errors.New"] = errNew
	models["fmt.Sprintf"] = sprintf
	models["fmt.Sprint"] = func(x *Exec, st *State, fid int, fn *ssa.Function, a []Val, k K) bool {
		p, sl := x.P, a[0].T
		if n := x.sLen(sl); n.num == nil || n.num.Int64() != 1 {
			return ret1(k, st, x.fresh("sprint", "Str"))
		}
		x.trust("fmt.Sprint of one value is a function of the value; of a text, the text")
		at := x.elemGet(st, x.V.anyType, x.sBase(sl), x.sOff(sl))
		r := p.Fun("sprint", "Str", at)
		is := x.TagIs(at, types.Typ[types.String])
		x.assume(p.Implies(is, p.Eq(r, x.Unbox(types.Typ[types.String], at))))
		return ret1(k, st, r)
	}
	models["math.Float32bits"] = func(x *Exec, st *State, fid int, fn *ssa.Function, a []Val, k K) bool {
		r := x.P.Fun("f32bits", "Int", a[0].T)
		x.assume(x.P.And(x.P.Le(x.P.Int(0), r), x.P.Lt(r, x.P.Big(big2(32)))))
		x.ranges[r] = [2]*big.Int{new(big.Int), new(big.Int).Sub(big2(32), big.NewInt(1))}
		return ret1(k, st, r)
	}
	models["math.Float64bits"] = func(x *Exec, st *State, fid int, fn *ssa.Function, a []Val, k K) bool {
		r := x.P.Fun("f64bits", "Int", a[0].T)
		x.assume(x.P.And(x.P.Le(x.P.Int(0), r), x.P.Lt(r, x.P.Big(big2(64)))))
		x.ranges[r] = [2]*big.Int{new(big.Int), new(big.Int).Sub(big2(64), big.NewInt(1))}
		return ret1(k, st, r)
	}
	models["math.Float32frombits"] = func(x *Exec, st *State, fid int, fn *ssa.Function, a []Val, k K) bool {
		return ret1(k, st, x.P.Fun("f32frombits", "F64", a[0].T))
	}
	models["math.Float64frombits"] = func(x *Exec, st *State, fid int, fn *ssa.Function, a []Val, k K) bool {
		return ret1(k, st, x.P.Fun("f64frombits", "F64", a[0].T))
	}
	models["math.IsNaN"] = func(x *Exec, st *State, fid int, fn *ssa.Function, a []Val, k K) bool {
		return ret1(k, st, x.P.Fun("f.isnan", "Bool", a[0].T))
	}
	models["math.IsInf"] = func(x *Exec, st *State, fid int, fn *ssa.Function, a []Val, k K) bool {
		return ret1(k, st, x.P.Fun("f.isinf", "Bool", a[0].T, a[1].T))
	}
	for _, n := range []string{"MutexLock", "RWMutexLock", "RWMutexRLock", "MutexUnlock", "RWMutexUnlock", "RWMutexRUnlock"} {
		n := n
		ty, op := "Mutex", strings.TrimPrefix(n, "Mutex")
		if strings.HasPrefix(n, "RW") {
			ty, op = "RWMutex", strings.TrimPrefix(n, "RWMutex")
		}
		models["(*sync."+ty+")."+op] = func(x *Exec, st *State, fid int, fn *ssa.Function, a []Val, k K) bool {
			x.lockOp(st, fid, a[0], op, k)
			return true
		}
	}
	models["(*sync.WaitGroup).Add"] = nop
	models["(*sync.WaitGroup).Done"] = nop
	models["(*sync.WaitGroup).Wait"] = nop
	models["(*sync.Once).Do"] = func(x *Exec, st *State, fid int, fn *ssa.Function, a []Val, k K) bool {
		p := x.P
		r := x.term(st, a[0], nil)
		h := x.heap(st, "AT!once", ArrSort("Int", "Bool"))
		done := x.sel(h, r)
		f := a[1]
		x.fork(st, done, func(s *State) { k.ret(s, nil) }, func(s *State) {
			h := x.heap(s, "AT!once", ArrSort("Int", "Bool"))
			x.setHeap(s, "AT!once", p.Store(h, r, p.tru))
			if f.F == nil {
				x.unknownCall(s, "once function", nil, types.NewSignatureType(nil, nil, nil, nil, nil, false), K{ret: func(s *State, _ []Val) { k.ret(s, nil) }, pan: k.pan})
				return
			}
			x.callStatic(s, fid, f.F.Fn, nil, f.F.Bind, f.F.Fn.Signature, K{ret: func(s *State, _ []Val) { k.ret(s, nil) }, pan: k.pan})
		})
		return true
	}
	be := func(name string, n int) {
		get := func(x *Exec, st *State, fid int, fn *ssa.Function, a []Val, k K) bool {
			p := x.P
			s := a[len(a)-1].T
			rp := x.canRec > 0 || x.allowPan
			x.must(st, fid, p.Ge(x.sLen(s), p.Int(int64(n))), "index", name+" needs enough bytes", k, func(s2 *State) {
				if !rp {
					s2 = st
				}
				r := p.Int(0)
				for i := 0; i < n; i++ {
					b := x.elemGet(s2, types.Typ[types.Uint8], x.sBase(s), p.Add(x.sOff(s), p.Int(int64(i))))
					x.typeFacts(s2, b, types.Typ[types.Uint8], 0)
					r = p.Add(r, p.Mul(b, p.Big(big2(uint(8*(n-1-i))))))
				}
				ret1(k, s2, r)
			})
			return true
		}
		models["(encoding/binary.bigEndian)."+name] = get
		put := func(x *Exec, st *State, fid int, fn *ssa.Function, a []Val, k K) bool {
			p := x.P
			s := a[len(a)-2].T
			v := a[len(a)-1].T
			rp := x.canRec > 0 || x.allowPan
			x.must(st, fid, p.Ge(x.sLen(s), p.Int(int64(n))), "index", "Put"+name+" needs enough bytes", k, func(s2 *State) {
				if !rp {
					s2 = st
				}
				for i := 0; i < n; i++ {
					x.elemSet(s2, types.Typ[types.Uint8], x.sBase(s), p.Add(x.sOff(s), p.Int(int64(i))), p.Mod(p.Div(v, p.Big(big2(uint(8*(n-1-i))))), p.Int(256)))
				}
				k.ret(s2, nil)
			})
			return true
		}
		models["(encoding/binary.bigEndian).Put"+name] = put
	}
	be("Uint16", 2)
	be("Uint32", 4)
	be("Uint64", 8)
	pure := func(key, name, ret string) {
		models[key] = func(x *Exec, st *State, fid int, fn *ssa.Function, a []Val, k K) bool {
			var ts []*Term
			for i, v := range a {
				ts = append(ts, x.term(st, v, fn.Signature.Params().At(i).Type()))
			}
			allc := true
			var cs []string
			for _, t := range ts {
				s, ok := x.strOf[t]
				if t.Op == "str!" {
					s, ok = "", true
				}
				if !ok {
					allc = false
				}
				cs = append(cs, s)
			}
			if allc {
				switch name {
				case "s.lower":
					return ret1(k, st, x.Str(strings.ToLower(cs[0])))
				case "s.upper":
					return ret1(k, st, x.Str(strings.ToUpper(cs[0])))
				case "s.trim":
					return ret1(k, st, x.Str(strings.TrimSpace(cs[0])))
				case "s.contains":
					return ret1(k, st, x.P.Bool(strings.Contains(cs[0], cs[1])))
				case "s.hasprefix":
					return ret1(k, st, x.P.Bool(strings.HasPrefix(cs[0], cs[1])))
				}
			}
			r := x.P.Fun(name, ret, ts...)
			return ret1(k, st, r)
		}
	}
	pure("strings.ToLower", "s.lower", "Str")
	pure("strings.ToUpper", "s.upper", "Str")
	pure("strings.TrimSpace", "s.trim", "Str")
	pure("strings.TrimSuffix", "s.trimsuffix", "Str")
	pure("strings.Contains", "s.contains", "Bool")
	pure("strings.HasPrefix", "s.hasprefix", "Bool")
	pure("unicode.IsSpace", "u.isspace", "Bool")
	models["regexp.MustCompile"] = func(x *Exec, st *State, fid int, fn *ssa.Function, a []Val, k K) bool {
		pat, ok := x.strOf[a[0].T]
		if !ok {
			return false
		}
		if _, err := regexp.Compile(pat); err != nil {
			return false
		}
		x.trust("regexp: matching is a function of the pattern and the text")
		r := x.P.Fun("re.compile", "Int", a[0].T)
		x.assume(x.P.Gt(r, x.P.Int(0)))
		return ret1(k, st, r)
	}
	models["(*regexp.Regexp).MatchString"] = func(x *Exec, st *State, fid int, fn *ssa.Function, a []Val, k K) bool {
		return ret1(k, st, x.P.Fun("re.match", "Bool", a[0].T, a[1].T))
	}
	models["strconv.ParseInt"] = func(x *Exec, st *State, fid int, fn *ssa.Function, a []Val, k K) bool {
		p := x.P
		v := p.Fun("parseint", "Int", a[0].T, a[1].T, a[2].T)
		ok := p.Fun("parseint.ok", "Bool", a[0].T, a[1].T, a[2].T)
		x.assume(p.And(p.Le(p.Neg(p.Big(big2(63))), v), p.Lt(v, p.Big(big2(63)))))
		x.rangeOf(v, types.Typ[types.Int64])
		e := x.fresh("err", "Any")
		x.assume(p.Eq(p.Eq(e, x.anyNil()), ok))
		k.ret(st, []Val{{T: v}, {T: e}})
		return true
	}
	models["time.Now"] = func(x *Exec, st *State, fid int, fn *ssa.Function, a []Val, k K) bool {
		k.ret(st, x.havocResults(st, "now", fn.Signature))
		return true
	}
	models["(time.Time).Format"] = func(x *Exec, st *State, fid int, fn *ssa.Function, a []Val, k K) bool {
		return ret1(k, st, x.P.Fun("time.format", "Str", a[0].T, a[1].T))
	}
	models["sort.Slice"] = func(x *Exec, st *State, fid int, fn *ssa.Function, a []Val, k K) bool {
		p, v := x.P, a[0].T
		if v == nil || !strings.HasPrefix(v.Op, "box!") {
			return false
		}
		sl, ok := x.V.typeByKey(strings.TrimPrefix(v.Op, "box!")).(*types.Slice)
		if !ok {
			return false
		}
		x.trust("sort.Slice permutes the elements of its slice (the resulting order is not used)")
		s, el := v.Args[0], sl.Elem()
		base, lo := x.sBase(s), x.sOff(s)
		hi := p.Add(lo, x.sLen(s))
		x.notFrozen(st, base, "sort.Slice")
		hn := x.elemHeapName(el)
		h := x.heap(st, hn, x.elemHeapSort(el))
		row := x.rowOf(st, el, base)
		nrow := x.fresh("row", row.Sort)
		pi, pv := x.fresh("perm", ArrSort("Int", "Int")), x.fresh("perm", ArrSort("Int", "Int"))
		in := func(q *Term) *Term { return p.And(p.Le(lo, q), p.Lt(q, hi)) }
		q := x.bv("Int")
		at, pq := p.Select(nrow, q), p.Select(pi, q)
		x.assume(p.Forall([]*Term{q}, p.Implies(in(q), p.And(in(pq), p.Eq(p.Select(pv, pq), q), p.Eq(at, p.Select(row, pq)))), at))
		x.assume(p.Forall([]*Term{q}, p.Implies(p.Not(in(q)), p.Eq(at, p.Select(row, q))), at))
		q2 := x.bv("Int")
		src, pr := p.Select(row, q2), p.Select(pv, q2)
		if src.bound {
			x.assume(p.Forall([]*Term{q2}, p.Implies(in(q2), p.And(in(pr), p.Eq(p.Select(pi, pr), q2), p.Eq(p.Select(nrow, pr), src))), src))
		}
		x.setHeap(st, hn, p.Store(h, base, nrow))
		k.ret(st, nil)
		return true
	}
}

// sprintf: exact for constant formats with %d / %s / %v verbs over known arguments, otherwise a fresh string.
func sprintf(x *Exec, st *State, fid int, fn *ssa.Function, a []Val, k K) bool {
	p := x.P
	f, ok := x.strOf[a[0].T]
	var args []*Term
	sl := a[1].T
	if n := x.sLen(sl); n.num != nil {
		for i := int64(0); i < n.num.Int64(); i++ {
			args = append(args, x.elemGet(st, x.V.anyType, x.sBase(sl), p.Add(x.sOff(sl), p.Int(i))))
		}
	} else {
		ok = false
	}
	if ok {
		res := x.Str("")
		i := 0
		norm, ints, sep := "", []*Term{}, true
		for len(f) > 0 {
			j := strings.IndexByte(f, '%')
			if j < 0 {
				res = x.sconcat(res, x.Str(f))
				break
			}
			res = x.sconcat(res, x.Str(f[:j]))
			if j == 0 && i > 0 || j > 0 && i > 0 && (f[0] >= '0' && f[0] <= '9' || f[0] == '-') {
				sep = false
			}
			norm += f[:j] + "%"
			f = f[j+1:]
			if len(f) == 0 {
				res = nil
				break
			}
			pad := ""
			if len(f) > 2 && f[0] == '0' && f[1] >= '1' && f[1] <= '9' && f[2] == 'd' {
				pad, f = f[:2], f[2:]
			}
			v := f[0]
			f = f[1:]
			if v == '%' {
				res = x.sconcat(res, x.Str("%"))
				continue
			}
			if i >= len(args) {
				res = nil
				break
			}
			at := args[i]
			i++
			var piece *Term
			if os.Getenv("GVC_DEBUG") != "" {
				fmt.Fprintln(os.Stderr, "sprintf arg", at.Op, at)
			}
			if strings.HasPrefix(at.Op, "box!") {
				c := at.Args[0]
				switch {
				case c.Sort == "Int" && (v == 'd' || v == 'v'):
					ints = append(ints, c)
					norm += "d"
					if pad != "" {
						piece = p.Fun("itoa"+pad, "Str", c)
						x.assume(p.And(p.Ge(x.SLen(piece), p.Int(1)), p.Le(x.SLen(piece), p.Int(20))))
					} else if c.num != nil {
						piece = x.Str(c.num.String())
					} else {
						piece = p.Fun("itoa", "Str", c)
						x.assume(p.And(p.Ge(x.SLen(piece), p.Int(1)), p.Le(x.SLen(piece), p.Int(20))))
						q := p.Fun("atoi!", "Int", piece)
						x.assume(p.Eq(q, c))
					}
				case c.Sort == "Int" && v == 'b':
					piece = p.Fun("itob", "Str", c)
				case c.Sort == "Str" && (v == 's' || v == 'v') && at.Op == "box!string":
					piece = c
				}
			}
			if piece == nil {
				piece = x.fresh("fmt", "Str")
			}
			res = x.sconcat(res, piece)
		}
		if res != nil && sep && len(ints) == i && i > 0 && res.num == nil {
			if _, lit := x.strOf[res]; !lit && (len(f) == 0 || !(f[0] >= '0' && f[0] <= '9')) {
				// the numbers can be read back from the text: each numeral ends at a non-digit
				for n, c := range ints {
					x.assume(p.Eq(p.Fun(fmt.Sprintf("spf!%d:%s", n, norm+f), "Int", res), c))
				}
			}
		}
		if res != nil {
			return ret1(k, st, res)
		}
	}
	return ret1(k, st, x.fresh("sprintf", "Str"))
}

var _ = strconv.Itoa

// havocWithin forgets the fields of a monitor nested in a lock that is being acquired.
func (x *Exec) havocWithin(st *State, m *Monitor) {
	t, _ := x.V.lookupType(m.Type).(*types.Named)
	if t == nil {
		return
	}
	s := t.Underlying().(*types.Struct)
	for i := 0; i < s.NumFields(); i++ {
		if m.Fields[s.Field(i).Name()] {
			nm := x.fieldHeapName(t, i)
			x.setHeap(st, nm, x.fresh("within_"+s.Field(i).Name(), x.fieldHeapSort(t, i)))
		}
	}
}

// private: what is stored in a slice field guarded by a lock is its own array or a new one.
func (x *Exec) private(st *State, owner types.Type, ref *Term, i int, v *Term) {
	f := owner.Underlying().(*types.Struct).Field(i)
	if _, ok := f.Type().Underlying().(*types.Slice); !ok {
		return
	}
	for _, tk := range sortedKeys(x.V.Spec.Monitors) {
		for _, m := range x.V.Spec.Monitors[tk] {
			if !(tk == typeKey(owner) && m.Fields[f.Name()] || m.also(typeKey(owner), f.Name())) || !m.Havoc {
				continue
			}
			p := x.P
			old := x.sel(x.heap(st, x.fieldHeapName(owner, i), x.fieldHeapSort(owner, i)), ref)
			b := x.sBase(v)
			x.oblige(st, p.Or(p.Eq(b, x.sBase(old)), p.Eq(b, p.Int(0)), p.Ge(b, x.alloc0)), "private:"+typeKey(owner)+"."+f.Name(), "the array stored in "+f.Name()+" is its own or new")
			return
		}
	}
}

// keepHeld: an array behind a slice field guarded by one lock is reached through that field only, so what
// happens to storage guarded by other locks leaves the arrays guarded by the held locks alone.
func (x *Exec) keepHeld(st *State, heap string, old, now *Term, except *Monitor) {
	p := x.P
	for _, k := range sortedKeys(st.held) {
		h := st.held[k]
		if h.mon == nil || h.mon == except {
			continue
		}
		each := func(typ, field string, ref *Term) {
			t, _ := x.V.lookupType(typ).(*types.Named)
			if t == nil || x.isImmutable(t) {
				return
			}
			s := t.Underlying().(*types.Struct)
			for i := 0; i < s.NumFields(); i++ {
				u, ok := s.Field(i).Type().Underlying().(*types.Slice)
				if !ok || s.Field(i).Name() != field || x.elemHeapName(u.Elem()) != heap {
					continue
				}
				x.trust("an array behind a slice field guarded by one lock is reached only through that field")
				fh := x.heap(st, x.fieldHeapName(t, i), x.fieldHeapSort(t, i))
				eq := func(b *Term) *Term { return p.Eq(p.Select(now, b), p.Select(old, b)) }
				if ref != nil {
					x.assume(eq(x.sBase(x.sel(fh, ref))))
					continue
				}
				q := x.bv("Int")
				sl := p.Select(fh, q)
				x.assume(p.Forall([]*Term{q}, eq(x.sBase(sl)), sl))
			}
		}
		for _, f := range sortedKeys(h.mon.Fields) {
			each(h.mon.Type, f, h.obj)
		}
		for _, a := range h.mon.Also {
			for _, f := range sortedKeys(a.Fields) {
				each(a.Type, f, nil)
			}
		}
	}
}

// havocAlso forgets the listed fields of every object that this execution did not make itself, and the
// elements of every slice they may hold.
func (x *Exec) havocAlso(st *State, mon *Monitor, a alsoFields) {
	t, _ := x.V.lookupType(a.Type).(*types.Named)
	if t == nil {
		specErr("also: unknown type %s", a.Type)
	}
	s := t.Underlying().(*types.Struct)
	for i := 0; i < s.NumFields(); i++ {
		f := s.Field(i)
		if !a.Fields[f.Name()] {
			continue
		}
		nm := x.fieldHeapName(t, i)
		old := x.heap(st, nm, x.fieldHeapSort(t, i))
		h := x.havocHeap(st, nm, old)
		for r := range st.owned {
			x.assume(x.P.Eq(x.P.Select(h, r), x.sel(old, r)))
		}
		x.setHeap(st, nm, h)
		switch u := f.Type().Underlying().(type) {
		case *types.Slice:
			en, es := x.elemHeapName(u.Elem()), x.elemHeapSort(u.Elem())
			eo := x.heap(st, en, es)
			eh := x.havocHeap(st, en, eo)
			x.setHeap(st, en, eh)
			x.keepHeld(st, en, eo, eh, mon)
		case *types.Map:
			specErr("also: map field %s", f.Name())
		}
	}
}

func (v *Verifier) monitor(mu string) *Monitor {
	for _, ms := range v.Spec.Monitors {
		for _, m := range ms {
			if m.Type+"."+m.Mu == mu {
				return m
			}
		}
	}
	specErr("no monitor %s", mu)
	return nil
}

// lockOp handles Lock / Unlock according to the declared monitors.
func (x *Exec) lockOp(st *State, fid int, mu Val, op string, k K) {
	if mu.A == nil || mu.A.K != aField || len(mu.A.Path) > 0 {
		x.trust("lock operations on undeclared mutexes are ignored")
		k.ret(st, nil)
		return
	}
	owner := mu.A.Owner0()
	s := owner.Underlying().(*types.Struct)
	fname := s.Field(mu.A.Field).Name()
	var mon *Monitor
	for _, m := range x.V.Spec.Monitors[typeKey(owner)] {
		if m.Mu == fname {
			mon = m
		}
	}
	if mon == nil {
		x.trust("lock operations on undeclared mutexes are ignored")
		k.ret(st, nil)
		return
	}
	p := x.P
	key := mon.Type + "." + mon.Mu + "@" + mu.A.Ref.String()
	x.note("K:" + key)
	switch op {
	case "Lock", "RLock":
		mode := 2
		if op == "RLock" {
			mode = 1
		}
		if h, ok := st.held[key]; ok && (h.mode == 2 || mode == 2) {
			x.oblige(st, p.fal, "deadlock:"+mon.Type+"."+mon.Mu, "lock is already held by this goroutine")
		}
		inside := false
		for _, h := range st.held {
			if mon.Within != "" && h.mon != nil && h.mon.Type+"."+h.mon.Mu == mon.Within {
				inside = true
				x.trust("fields guarded by " + mon.Type + "." + mon.Mu + " change only while " + mon.Within + " is held")
			}
		}
		st.held[key] = heldLock{mode, mon, mu.A.Ref}
		for _, ms := range x.V.Spec.Monitors {
			for _, m := range ms {
				if m.Within == mon.Type+"."+mon.Mu {
					x.havocWithin(st, m)
				}
			}
		}
		if mon.Havoc && !inside && !st.owned[mu.A.Ref] {
			for i := 0; i < s.NumFields(); i++ {
				if !mon.Fields[s.Field(i).Name()] {
					continue
				}
				ft := s.Field(i).Type()
				if n, ok := owner.(*types.Named); ok && x.isImmutable(n) {
					continue
				}
				nm := x.fieldHeapName(owner, i)
				h := x.heap(st, nm, x.fieldHeapSort(owner, i))
				nv := x.fresh("mon_"+s.Field(i).Name(), x.Sort(ft))
				x.typeFacts(st, nv, ft, 0)
				x.setHeap(st, nm, p.Store(h, mu.A.Ref, nv))
				if m, ok := ft.Underlying().(*types.Map); ok {
					for _, kk := range []string{"MD", "MV", "ML"} {
						hn, hs := x.mapHeap(kk, m)
						hh := x.heap(st, hn, hs)
						r := x.fresh("monmap", elemSort(hs))
						if kk == "MD" {
							x.assume(p.Implies(p.Eq(nv, p.Int(0)), p.Eq(r, x.sel(hh, nv))))
						}
						x.setHeap(st, hn, p.Store(hh, nv, r))
					}
				}
				if sl, ok := ft.Underlying().(*types.Slice); ok {
					hn, hs := x.elemHeapName(sl.Elem()), x.elemHeapSort(sl.Elem())
					hh := x.heap(st, hn, hs)
					x.setHeap(st, hn, p.Store(hh, x.sBase(nv), x.fresh("monrow", elemSort(hs))))
					x.keepHeld(st, hn, hh, x.heap(st, hn, hs), mon)
				}
			}
			for _, a := range mon.Also {
				x.havocAlso(st, mon, a)
			}
			for _, g := range mon.Ghosts {
				so, _ := x.ghostSort(x.V.Spec.Ghosts[g])
				st.ghost[g] = x.fresh("monghost_"+g, so)
			}
			x.growAlloc(st)
		}
		if mon.Havoc && !st.owned[mu.A.Ref] {
			env := &SEnv{x: x, st: st, old: st, vars: map[string]SVal{mon.Self: {T: mu.A.Ref, Ty: types.NewPointer(owner)}}, pkg: x.V.pkgOf(owner)}
			for _, c := range mon.Inv {
				x.assume(env.Bool(c.E))
			}
		}
		if _, ok := st.snaps["acq"]; !ok {
			sn := st.clone()
			sn.snaps = map[string]*State{}
			st.snaps["acq"] = sn
		}
		if ak := "acq:" + mon.Type + "." + mon.Mu; st.snaps[ak] == nil {
			sn := st.clone()
			sn.snaps = map[string]*State{}
			st.snaps[ak] = sn
		}
	case "Unlock", "RUnlock":
		h, ok := st.held[key]
		want := 2
		if op == "RUnlock" {
			want = 1
		}
		if !ok || h.mode != want {
			x.oblige(st, p.fal, "unlock:"+mon.Type+"."+mon.Mu, "unlock of a lock that is not held")
			k.ret(st, nil)
			return
		}
		if mon.Havoc && op == "Unlock" {
			env := &SEnv{x: x, st: st, old: st, vars: map[string]SVal{mon.Self: {T: mu.A.Ref, Ty: types.NewPointer(owner)}}, pkg: x.V.pkgOf(owner)}
			for i, c := range mon.Inv {
				nm := c.Name
				if nm == "" {
					nm = strconv.Itoa(i)
				}
				x.oblige(st, env.Bool(c.E), "monitor:"+mon.Type+"."+mon.Mu+":"+nm, "monitor invariant at unlock: "+c.Src)
			}
		}
		delete(st.held, key)
		sn := st.clone()
		sn.snaps = map[string]*State{}
		st.snaps["rel:"+mon.Type+"."+mon.Mu] = sn
	}
	k.ret(st, nil)
}

// lockCheck enforces the lock discipline on guarded fields.
func (x *Exec) lockCheck(st *State, owner types.Type, ref *Term, i int, write bool) {
	if st.owned[ref] {
		return
	}
	f := owner.Underlying().(*types.Struct).Field(i).Name()
	for _, ms := range x.V.Spec.Monitors {
		for _, m := range ms {
			if !m.also(typeKey(owner), f) {
				continue
			}
			ok := x.P.fal
			for _, h := range st.held {
				if h.mon == m && (h.mode == 2 || !write) {
					ok = x.P.tru
				}
			}
			acc := "read"
			if write {
				acc = "write"
			}
			x.oblige(st, ok, "lock:"+typeKey(owner)+"."+f+":"+acc, acc+" of "+f+" without holding "+m.Type+"."+m.Mu)
		}
	}
	ms := x.V.Spec.Monitors[typeKey(owner)]
	if len(ms) == 0 {
		return
	}
	for _, m := range ms {
		if !m.Fields[f] {
			continue
		}
		ok := false
		for _, h := range st.held {
			if h.mon == m && h.obj == ref && (h.mode == 2 || !write) {
				ok = true
			}
		}
		if !ok {
			var alts []*Term
			for _, h := range st.held {
				if h.mon == m && (h.mode == 2 || !write) {
					alts = append(alts, x.P.Eq(h.obj, ref))
				}
			}
			acc := "read"
			if write {
				acc = "write"
			}
			x.oblige(st, x.P.Or(alts...), "lock:"+m.Type+"."+f+":"+acc, acc+" of "+f+" without holding "+m.Mu)
		}
	}
}
