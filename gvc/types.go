package main

import (
	"fmt"
	"go/types"
	"math/big"
	"regexp"
	"strings"
	"unicode"

	"golang.org/x/tools/go/ssa"
)

// Val is a symbolic Go value.
type Val struct {
	T   *Term    // term (most values)
	Tup []Val    // tuple
	A   *Addr    // interior pointer / cell address
	F   *Closure // statically known function value
}

type Closure struct {
	Fn   *ssa.Function
	Bind []Val
	// method value on interface etc. not supported
}

const (
	aCell = iota
	aField
	aElem
	aGlobal
	aBox
)

// Addr is the address of a cell, a struct field, a slice element, a global or a boxed scalar.
type Addr struct {
	K     int
	Cell  int
	Ref   *Term // object / slice base / box reference
	Idx   *Term // element index (absolute)
	Owner *types.Named
	Str   *types.Struct
	Field int
	G     *ssa.Global
	Typ   types.Type // type of the root location
	Path  []int      // further struct field selections
	PTyp  []types.Type
}

func (a *Addr) target() types.Type {
	if len(a.PTyp) > 0 {
		return a.PTyp[len(a.PTyp)-1]
	}
	return a.Typ
}

func (x *Exec) isImmutable(n *types.Named) bool {
	return n != nil && x.V.Spec.Immutable[typeKey(n)]
}

func typeKey(t types.Type) string {
	s := types.TypeString(t, pkgKey)
	if strings.Contains(s, "any") || strings.Contains(s, "byte") || strings.Contains(s, "rune") {
		s = aliasRe.ReplaceAllStringFunc(s, func(m string) string {
			i := strings.IndexFunc(m, func(r rune) bool { return r >= 'a' && r <= 'z' })
			switch m[i:] {
			case "any":
				return m[:i] + "interface{}"
			case "byte":
				return m[:i] + "uint8"
			}
			return m[:i] + "int32"
		})
	}
	return s
}

// any, byte and rune are aliases: one key per type
var aliasRe = regexp.MustCompile(`(^|[^.\w])(any|byte|rune)\b`)

func (x *Exec) opaque(n *types.Named) bool {
	p := n.Obj().Pkg()
	if p == nil {
		return false
	}
	return !strings.HasPrefix(p.Path(), modPath)
}

func (x *Exec) Sort(t types.Type) string {
	if s, ok := x.sortMemo[t]; ok {
		return s
	}
	s := x.sort0(t)
	x.sortMemo[t] = s
	return s
}

func (x *Exec) sort0(t types.Type) string {
	if n, ok := t.(*types.Named); ok {
		if _, isS := n.Underlying().(*types.Struct); isS && x.opaque(n) {
			return x.opaqueSort("O!" + typeKey(n))
		}
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return "Bool"
		case u.Info()&types.IsInteger != 0:
			return "Int"
		case u.Info()&types.IsFloat != 0:
			return "F64"
		case u.Info()&types.IsString != 0:
			return "Str"
		case u.Kind() == types.UnsafePointer:
			return "Int"
		case u.Kind() == types.UntypedNil:
			return "Any"
		}
		return x.opaqueSort("O!" + u.Name())
	case *types.Pointer, *types.Map, *types.Chan, *types.Signature:
		return "Int"
	case *types.Slice:
		return "Slice"
	case *types.Interface:
		return "Any"
	case *types.Array:
		return ArrSort("Int", x.Sort(u.Elem()))
	case *types.Struct:
		return x.structSort(t, u)
	case *types.TypeParam:
		return "Any"
	}
	panic(&Unsupported{"type " + t.String()})
}

func (x *Exec) opaqueSort(n string) string {
	q := symName(n)
	if !x.sortDecl[q] {
		x.sortDecl[q] = true
		x.C.emit("(declare-sort " + q + " 0)")
	}
	return q
}

func fieldSym(sortName string, i int, f string) string {
	return fmt.Sprintf("%s.%d.%s", sortName, i, f)
}

func (x *Exec) structSort(t types.Type, s *types.Struct) string {
	name := "S!" + typeKey(t)
	q := symName(name)
	if x.sortDecl[q] {
		return q
	}
	var fs []string
	for i := 0; i < s.NumFields(); i++ {
		fs = append(fs, x.Sort(s.Field(i).Type()))
	}
	x.sortDecl[q] = true
	var sb strings.Builder
	fmt.Fprintf(&sb, "(declare-datatype %s ((%s", q, symName("mk!"+name))
	for i := 0; i < s.NumFields(); i++ {
		fmt.Fprintf(&sb, " (%s %s)", symName(fieldSym(name, i, s.Field(i).Name())), fs[i])
	}
	sb.WriteString(")))")
	x.C.emit(sb.String())
	return q
}

func (x *Exec) mkStruct(t types.Type, vals []*Term) *Term {
	s := x.Sort(t)
	return x.P.mk("mk!S!"+typeKey(t), s, vals...)
}

func (x *Exec) structGet(t types.Type, v *Term, i int) *Term {
	s := t.Underlying().(*types.Struct)
	if v.Op == "mk!S!"+typeKey(t) {
		return v.Args[i]
	}
	return x.P.mk(fieldSym("S!"+typeKey(t), i, s.Field(i).Name()), x.Sort(s.Field(i).Type()), v)
}

func (x *Exec) structSet(t types.Type, v *Term, i int, nv *Term) *Term {
	s := t.Underlying().(*types.Struct)
	vals := make([]*Term, s.NumFields())
	for j := range vals {
		if j == i {
			vals[j] = nv
		} else {
			vals[j] = x.structGet(t, v, j)
		}
	}
	return x.mkStruct(t, vals)
}

// slices
func (x *Exec) mkSlice(base, off, ln, cp *Term) *Term {
	return x.P.mk("mk!Slice", "Slice", base, off, ln, cp)
}
func (x *Exec) ssel(i int, name string, s *Term) *Term {
	if s.Op == "mk!Slice" {
		return s.Args[i]
	}
	if s.Op == "ite" && s.Args[1].Op == "mk!Slice" && s.Args[2].Op == "mk!Slice" {
		return x.P.Ite(s.Args[0], s.Args[1].Args[i], s.Args[2].Args[i])
	}
	return x.P.mk(name, "Int", s)
}
func (x *Exec) sBase(s *Term) *Term { return x.ssel(0, "s!base", s) }
func (x *Exec) sOff(s *Term) *Term  { return x.ssel(1, "s!off", s) }
func (x *Exec) sLen(s *Term) *Term  { return x.ssel(2, "s!len", s) }
func (x *Exec) sCap(s *Term) *Term  { return x.ssel(3, "s!cap", s) }
func (x *Exec) nilSlice() *Term {
	z := x.P.Int(0)
	return x.mkSlice(z, z, z, z)
}

var basePrelude = []string{
	"(declare-sort Str 0)", "(declare-sort Any 0)", "(declare-sort F64 0)",
	"(declare-datatype Slice ((mk!Slice (s!base Int) (s!off Int) (s!len Int) (s!cap Int))))",
	"(declare-fun tag (Any) Int)", "(declare-const anynil Any)",
	"(assert (= (tag anynil) 0))",
	"(assert (forall ((a Any)) (! (=> (= (tag a) 0) (= a anynil)) :pattern ((tag a)))))",
	"(declare-fun slen (Str) Int)", "(declare-fun sat (Str Int) Int)", "(declare-fun strid (Str) Int)",
	"(declare-const |str!| Str)", "(assert (= (strid |str!|) 0))",
	"(assert (forall ((s Str)) (! (and (>= (slen s) 0) (< (slen s) 1099511627776) (=> (= (slen s) 0) (= s |str!|))) :pattern ((slen s)))))",
	"(assert (= (slen |str!|) 0))",
	"(assert (forall ((s Str) (i Int)) (! (and (>= (sat s i) 0) (< (sat s i) 256)) :pattern ((sat s i)))))",
	"(declare-fun sconcat (Str Str) Str)",
	"(assert (forall ((a Str) (b Str)) (! (and (= (slen (sconcat a b)) (+ (slen a) (slen b)))) :pattern ((sconcat a b)))))",
	"(assert (forall ((a Str) (b Str) (i Int)) (! (=> (and (<= 0 i) (< i (+ (slen a) (slen b)))) (= (sat (sconcat a b) i) (ite (< i (slen a)) (sat a i) (sat b (- i (slen a)))))) :pattern ((sat (sconcat a b) i)))))",
	"(declare-fun sfromb ((Array Int Int) Int Int) Str)",
	"(assert (forall ((a (Array Int Int)) (o Int) (n Int)) (! (=> (>= n 0) (= (slen (sfromb a o n)) n)) :pattern ((sfromb a o n)))))",
	"(assert (forall ((a (Array Int Int)) (o Int) (n Int) (i Int)) (! (=> (and (<= 0 i) (< i n)) (= (sat (sfromb a o n) i) (select a (+ o i)))) :pattern ((sat (sfromb a o n) i)))))",
}

func (x *Exec) Str(s string) *Term {
	if s == "" {
		return x.P.mk("str!", "Str")
	}
	if t, ok := x.strs[s]; ok {
		return t
	}
	id := len(x.strs) + 1
	short := s
	if len(short) > 24 {
		short = short[:24]
	}
	short = strings.Map(func(r rune) rune {
		if r < 32 || r > 126 || r == '|' || r == '\\' {
			return '_'
		}
		return r
	}, short)
	name := fmt.Sprintf("str!%d:%s", id, short)
	t := x.P.mk(name, "Str")
	x.strs[s] = t
	x.strOf[t] = s
	q := symName(name)
	x.C.emit("(declare-const " + q + " Str)")
	x.C.emit(fmt.Sprintf("(assert (and (= (strid %s) %d) (= (slen %s) %d)))", q, id, q, len(s)))
	if len(s) <= 40 {
		var sb strings.Builder
		sb.WriteString("(assert (and true")
		for i := 0; i < len(s); i++ {
			fmt.Fprintf(&sb, " (= (sat %s %d) %d)", q, i, s[i])
		}
		sb.WriteString("))")
		x.C.emit(sb.String())
	}
	if _, ok := x.V.Spec.Funs["spaceFrom"]; ok {
		// the value of the recursive predicate spaceFrom for a constant
		f := x.P.Fun("spec!spaceFrom", "Bool", t, x.P.Int(0))
		if strings.IndexFunc(s, unicode.IsSpace) < 0 {
			f = x.P.Not(f)
		}
		x.C.emit("(assert " + x.C.render(f) + ")")
	}
	return t
}

func (x *Exec) SLen(s *Term) *Term {
	if s.Op == "str!" {
		return x.P.Int(0)
	}
	if v, ok := x.strOf[s]; ok {
		return x.P.Int(int64(len(v)))
	}
	return x.P.mk("slen", "Int", s)
}

// boxing
func (x *Exec) typeID(t types.Type) int {
	k := typeKey(t)
	if id, ok := x.typeIDs[k]; ok {
		return id
	}
	id := len(x.typeIDs) + 1
	x.typeIDs[k] = id
	x.V.regType(k, t)
	s := x.Sort(t)
	bq, uq := symName("box!"+k), symName("unbox!"+k)
	x.C.emit(fmt.Sprintf("(declare-fun %s (%s) Any)", bq, s))
	x.C.emit(fmt.Sprintf("(declare-fun %s (Any) %s)", uq, s))
	x.C.emit(fmt.Sprintf("(assert (forall ((x %s)) (! (and (= (tag (%s x)) %d) (= (%s (%s x)) x)) :pattern ((%s x)))))", s, bq, id, uq, bq, bq))
	x.C.emit(fmt.Sprintf("(assert (forall ((a Any)) (! (=> (= (tag a) %d) (= (%s (%s a)) a)) :pattern ((%s a)))))", id, bq, uq, uq))
	return id
}

func (x *Exec) Box(t types.Type, v *Term) *Term {
	x.typeID(t)
	k := typeKey(t)
	if v.Op == "unbox!"+k && false {
		return v.Args[0]
	}
	return x.P.mk("box!"+k, "Any", v)
}
func (x *Exec) Unbox(t types.Type, a *Term) *Term {
	x.typeID(t)
	k := typeKey(t)
	if a.Op == "box!"+k {
		return a.Args[0]
	}
	return x.P.mk("unbox!"+k, x.Sort(t), a)
}
func (x *Exec) TagIs(a *Term, t types.Type) *Term {
	id := x.typeID(t)
	if strings.HasPrefix(a.Op, "box!") {
		return x.P.Bool(a.Op == "box!"+typeKey(t))
	}
	if a.Op == "anynil" {
		return x.P.fal
	}
	return x.P.Eq(x.P.mk("tag", "Int", a), x.P.Int(int64(id)))
}
func (x *Exec) anyNil() *Term { return x.P.mk("anynil", "Any") }
func (x *Exec) IsNil(a *Term) *Term {
	return x.P.Eq(a, x.anyNil())
}

// integer ranges
func intRange(t types.Type) (lo, hi *big.Int, ok bool) {
	b, isb := t.Underlying().(*types.Basic)
	if !isb || b.Info()&types.IsInteger == 0 {
		return nil, nil, false
	}
	one := big.NewInt(1)
	sg := func(n uint) (*big.Int, *big.Int, bool) {
		h := new(big.Int).Lsh(one, n-1)
		return new(big.Int).Neg(h), new(big.Int).Sub(h, one), true
	}
	us := func(n uint) (*big.Int, *big.Int, bool) {
		return new(big.Int), new(big.Int).Sub(new(big.Int).Lsh(one, n), one), true
	}
	switch b.Kind() {
	case types.Int8:
		return sg(8)
	case types.Int16:
		return sg(16)
	case types.Int32:
		return sg(32)
	case types.Int, types.Int64, types.UntypedInt, types.UntypedRune:
		return sg(64)
	case types.Uint8:
		return us(8)
	case types.Uint16:
		return us(16)
	case types.Uint32:
		return us(32)
	case types.Uint, types.Uint64, types.Uintptr:
		return us(64)
	}
	return nil, nil, false
}

func intWidth(t types.Type) (bits uint, signed bool) {
	lo, hi, _ := intRange(t)
	signed = lo.Sign() < 0
	n := hi.BitLen()
	if signed {
		n++
	}
	return uint(n), signed
}

// bounds computes a conservative interval of an Int term.
func (x *Exec) bounds(t *Term) (lo, hi *big.Int) {
	if t.num != nil {
		return t.num, t.num
	}
	if r, ok := x.ranges[t]; ok {
		return r[0], r[1]
	}
	switch t.Op {
	case "mod":
		if m := t.Args[1].num; m != nil && m.Sign() > 0 {
			return new(big.Int), new(big.Int).Sub(m, big.NewInt(1))
		}
	case "+":
		a, b := x.bounds(t.Args[0])
		c, d := x.bounds(t.Args[1])
		if a != nil && c != nil {
			lo = new(big.Int).Add(a, c)
		}
		if b != nil && d != nil {
			hi = new(big.Int).Add(b, d)
		}
		return
	case "-":
		if len(t.Args) == 2 {
			a, b := x.bounds(t.Args[0])
			c, d := x.bounds(t.Args[1])
			if a != nil && d != nil {
				lo = new(big.Int).Sub(a, d)
			}
			if b != nil && c != nil {
				hi = new(big.Int).Sub(b, c)
			}
			return
		}
	case "*":
		if k := t.Args[1].num; k != nil && k.Sign() > 0 {
			a, b := x.bounds(t.Args[0])
			if a != nil {
				lo = new(big.Int).Mul(a, k)
			}
			if b != nil {
				hi = new(big.Int).Mul(b, k)
			}
			return
		}
	case "div":
		if k := t.Args[1].num; k != nil && k.Sign() > 0 {
			a, b := x.bounds(t.Args[0])
			if a != nil {
				lo, _ = new(big.Int).DivMod(a, k, new(big.Int))
			}
			if b != nil {
				hi, _ = new(big.Int).DivMod(b, k, new(big.Int))
			}
			return
		}
	case "ite":
		a, b := x.bounds(t.Args[1])
		c, d := x.bounds(t.Args[2])
		if a != nil && c != nil {
			lo = a
			if c.Cmp(a) < 0 {
				lo = c
			}
		}
		if b != nil && d != nil {
			hi = b
			if d.Cmp(b) > 0 {
				hi = d
			}
		}
		return
	case "slen", "s!len", "s!cap":
		return new(big.Int), new(big.Int).Lsh(big.NewInt(1), 40)
	case "s!off":
		return new(big.Int), new(big.Int).Lsh(big.NewInt(1), 41)
	case "sat":
		return new(big.Int), big.NewInt(255)
	}
	return nil, nil
}

// pow2div: largest k such that 2^k syntactically divides t
func pow2div(t *Term) uint {
	if t.num != nil {
		if t.num.Sign() == 0 {
			return 64
		}
		return t.num.TrailingZeroBits()
	}
	switch t.Op {
	case "*":
		if t.Args[1].num != nil {
			return pow2div(t.Args[0]) + t.Args[1].num.TrailingZeroBits()
		}
	case "+":
		a, b := pow2div(t.Args[0]), pow2div(t.Args[1])
		if b < a {
			a = b
		}
		return a
	case "mod":
		if t.Args[1].num != nil {
			a, b := pow2div(t.Args[0]), t.Args[1].num.TrailingZeroBits()
			if b < a {
				a = b
			}
			return a
		}
	}
	return 0
}

func big2(n uint) *big.Int { return new(big.Int).Lsh(big.NewInt(1), n) }
