package main

import (
	"math/big"
	"strconv"
	"strings"
)

// Term is a hash-consed SMT term.  All terms of one verification task live in one Pool.
type Term struct {
	Op    string
	Args  []*Term
	Sort  string
	id    int
	num   *big.Int // numeral value
	bound bool     // mentions a bound variable
	size  int      // tree size (saturating)
	// quantifiers: Op=="forall"/"exists"; Vars are the bound variables, Args[0] the body, Args[1:] trigger terms
	Vars []*Term
}

type Pool struct {
	tab  map[string]*Term
	n    int
	tru  *Term
	fal  *Term
	sigs map[string]*Sig // declared functions / constants
}

type Sig struct {
	Args []string
	Ret  string
}

func NewPool() *Pool {
	p := &Pool{tab: map[string]*Term{}, sigs: map[string]*Sig{}}
	p.tru = p.mk("true", "Bool")
	p.fal = p.mk("false", "Bool")
	return p
}

func (p *Pool) mk(op, sort string, args ...*Term) *Term {
	var sb strings.Builder
	sb.WriteString(op)
	sb.WriteByte('|')
	sb.WriteString(sort)
	for _, a := range args {
		sb.WriteByte(',')
		sb.WriteString(strconv.Itoa(a.id))
	}
	k := sb.String()
	if t, ok := p.tab[k]; ok {
		return t
	}
	p.n++
	t := &Term{Op: op, Args: args, Sort: sort, id: p.n, size: 1}
	for _, a := range args {
		t.bound = t.bound || a.bound
		t.size += a.size
	}
	if t.size > 1<<20 {
		t.size = 1 << 20
	}
	p.tab[k] = t
	return t
}

func (p *Pool) Int(v int64) *Term { return p.Big(big.NewInt(v)) }
func (p *Pool) Big(v *big.Int) *Term {
	t := p.mk("#"+v.String(), "Int")
	if t.num == nil {
		t.num = new(big.Int).Set(v)
	}
	return t
}
func (p *Pool) Bool(b bool) *Term {
	if b {
		return p.tru
	}
	return p.fal
}

// Const declares (if needed) and returns a constant symbol.
func (p *Pool) Const(name, sort string) *Term {
	if _, ok := p.sigs[name]; !ok {
		p.sigs[name] = &Sig{nil, sort}
	}
	return p.mk(name, sort)
}

func (p *Pool) BoundVar(name, sort string) *Term {
	t := p.mk("?"+name, sort)
	t.bound = true
	return t
}

// Fun declares a function symbol if needed and applies it.
func (p *Pool) Fun(name, ret string, args ...*Term) *Term {
	if _, ok := p.sigs[name]; !ok {
		s := &Sig{Ret: ret}
		for _, a := range args {
			s.Args = append(s.Args, a.Sort)
		}
		p.sigs[name] = s
	}
	return p.mk(name, ret, args...)
}

func (p *Pool) Forall(vars []*Term, body *Term, trig ...*Term) *Term {
	return p.quant("forall", vars, body, trig)
}
func (p *Pool) Exists(vars []*Term, body *Term) *Term { return p.quant("exists", vars, body, nil) }
func (p *Pool) quant(q string, vars []*Term, body *Term, trig []*Term) *Term {
	if body == p.tru || body == p.fal {
		return body
	}
	op := q
	for _, v := range vars {
		op += " " + v.Op + ":" + v.Sort
	}
	args := append([]*Term{body}, trig...)
	t := p.mk(op, "Bool", args...)
	t.Vars = vars
	t.bound = false
	// recompute free bound variables
	t.bound = p.hasFree(t, map[*Term]bool{}, nil)
	return t
}

func (p *Pool) hasFree(t *Term, seen map[*Term]bool, binders []*Term) bool {
	if !t.bound && t.Vars == nil {
		return false
	}
	if strings.HasPrefix(t.Op, "?") {
		for _, b := range binders {
			if b == t {
				return false
			}
		}
		return true
	}
	if t.Vars != nil {
		binders = append(append([]*Term{}, binders...), t.Vars...)
	}
	for _, a := range t.Args {
		if a.bound || a.Vars != nil {
			if p.hasFree(a, seen, binders) {
				return true
			}
		}
	}
	return false
}

func (p *Pool) Not(a *Term) *Term {
	switch {
	case a == p.tru:
		return p.fal
	case a == p.fal:
		return p.tru
	case a.Op == "not":
		return a.Args[0]
	}
	return p.mk("not", "Bool", a)
}

func (p *Pool) And(xs ...*Term) *Term {
	var out []*Term
	seen := map[*Term]bool{}
	var add func(x *Term) bool
	add = func(x *Term) bool {
		if x == p.tru || seen[x] {
			return true
		}
		if x == p.fal {
			return false
		}
		if x.Op == "and" {
			for _, a := range x.Args {
				if !add(a) {
					return false
				}
			}
			return true
		}
		if seen[p.Not(x)] {
			return false
		}
		seen[x] = true
		out = append(out, x)
		return true
	}
	for _, x := range xs {
		if !add(x) {
			return p.fal
		}
	}
	if len(out) == 0 {
		return p.tru
	}
	if len(out) == 1 {
		return out[0]
	}
	return p.mk("and", "Bool", out...)
}

func (p *Pool) Or(xs ...*Term) *Term {
	ys := make([]*Term, len(xs))
	for i, x := range xs {
		ys[i] = p.Not(x)
	}
	t := p.And(ys...)
	if t.Op == "and" {
		zs := make([]*Term, len(t.Args))
		for i, a := range t.Args {
			zs[i] = p.Not(a)
		}
		return p.mk("or", "Bool", zs...)
	}
	return p.Not(t)
}

func (p *Pool) Implies(a, b *Term) *Term {
	if a == p.tru {
		return b
	}
	if a == p.fal || b == p.tru {
		return p.tru
	}
	if b == p.fal {
		return p.Not(a)
	}
	return p.mk("=>", "Bool", a, b)
}

// offset splits a term into base + constant
func (p *Pool) offset(t *Term) (*Term, *big.Int) {
	if t.num != nil {
		return nil, t.num
	}
	if t.Op == "+" && len(t.Args) == 2 && t.Args[1].num != nil {
		return t.Args[0], t.Args[1].num
	}
	return t, new(big.Int)
}

func (p *Pool) distinctVals(a, b *Term) bool {
	if a.num != nil && b.num != nil {
		return a.num.Cmp(b.num) != 0
	}
	if a.Sort == "Int" {
		x, c := p.offset(a)
		y, d := p.offset(b)
		if x == y && c.Cmp(d) != 0 {
			return true
		}
	}
	if strings.HasPrefix(a.Op, "str!") && strings.HasPrefix(b.Op, "str!") && a != b {
		return true
	}
	if a.Sort == "Any" && strings.HasPrefix(a.Op, "box!") && strings.HasPrefix(b.Op, "box!") && a.Op != b.Op {
		return true
	}
	if a.Sort == "Any" && ((a.Op == "anynil" && strings.HasPrefix(b.Op, "box!")) || (b.Op == "anynil" && strings.HasPrefix(a.Op, "box!"))) {
		return true
	}
	return false
}

func (p *Pool) Eq(a, b *Term) *Term {
	if a == b {
		return p.tru
	}
	if a.Sort != b.Sort {
		panic(&Unsupported{"equality between sorts " + a.Sort + " and " + b.Sort + ": " + a.String() + " / " + b.String()})
	}
	if p.distinctVals(a, b) {
		return p.fal
	}
	if a.Sort == "Bool" {
		if a == p.tru {
			return b
		}
		if b == p.tru {
			return a
		}
		if a == p.fal {
			return p.Not(b)
		}
		if b == p.fal {
			return p.Not(a)
		}
	}
	if strings.HasPrefix(a.Op, "box!") && a.Op == b.Op {
		return p.Eq(a.Args[0], b.Args[0])
	}
	if strings.HasPrefix(a.Op, "mk!") && a.Op == b.Op {
		var cs []*Term
		for i := range a.Args {
			cs = append(cs, p.Eq(a.Args[i], b.Args[i]))
		}
		return p.And(cs...)
	}
	if a.Op == "ite" && a.Args[1].num != nil && a.Args[2].num != nil && b.num != nil {
		return p.Ite(a.Args[0], p.Eq(a.Args[1], b), p.Eq(a.Args[2], b))
	}
	if b.Op == "ite" && b.Args[1].num != nil && b.Args[2].num != nil && a.num != nil {
		return p.Ite(b.Args[0], p.Eq(b.Args[1], a), p.Eq(b.Args[2], a))
	}
	if a.id > b.id {
		a, b = b, a
	}
	return p.mk("=", "Bool", a, b)
}

func (p *Pool) Ite(c, a, b *Term) *Term {
	if c == p.tru || a == b {
		return a
	}
	if c == p.fal {
		return b
	}
	if a.Sort == "Bool" {
		if a == p.tru && b == p.fal {
			return c
		}
		if a == p.fal && b == p.tru {
			return p.Not(c)
		}
		if a == p.tru {
			return p.Or(c, b)
		}
		if b == p.fal {
			return p.And(c, a)
		}
		if a == p.fal {
			return p.And(p.Not(c), b)
		}
		if b == p.tru {
			return p.Or(p.Not(c), a)
		}
	}
	return p.mk("ite", a.Sort, c, a, b)
}

func (p *Pool) Add(a, b *Term) *Term {
	if a.num != nil && b.num != nil {
		return p.Big(new(big.Int).Add(a.num, b.num))
	}
	if a.num != nil {
		a, b = b, a
	}
	if b.num != nil {
		if b.num.Sign() == 0 {
			return a
		}
		x, c := p.offset(a)
		if c.Sign() != 0 {
			return p.Add(x, p.Big(new(big.Int).Add(c, b.num)))
		}
		return p.mk("+", "Int", a, b)
	}
	// pull constants out
	x, c := p.offset(a)
	y, d := p.offset(b)
	if c.Sign() != 0 || d.Sign() != 0 {
		s := new(big.Int).Add(c, d)
		return p.Add(p.Add(x, y), p.Big(s))
	}
	return p.mk("+", "Int", a, b)
}
func (p *Pool) Neg(a *Term) *Term {
	if a.num != nil {
		return p.Big(new(big.Int).Neg(a.num))
	}
	return p.mk("-", "Int", a)
}
func (p *Pool) Sub(a, b *Term) *Term {
	if b.num != nil {
		return p.Add(a, p.Big(new(big.Int).Neg(b.num)))
	}
	if a == b {
		return p.Int(0)
	}
	x, c := p.offset(a)
	y, d := p.offset(b)
	if x == y && x != nil {
		return p.Big(new(big.Int).Sub(c, d))
	}
	// (x+y)-x
	if x != nil && x.Op == "+" && y != nil {
		if x.Args[0] == y {
			return p.Add(x.Args[1], p.Big(new(big.Int).Sub(c, d)))
		}
		if x.Args[1] == y {
			return p.Add(x.Args[0], p.Big(new(big.Int).Sub(c, d)))
		}
	}
	if c.Sign() != 0 && x != nil {
		return p.Add(p.Sub(x, b), p.Big(c))
	}
	if d.Sign() != 0 && y != nil {
		return p.Add(p.Sub(a, y), p.Big(new(big.Int).Neg(d)))
	}
	return p.mk("-", "Int", a, b)
}
func (p *Pool) Mul(a, b *Term) *Term {
	if a.num != nil && b.num != nil {
		return p.Big(new(big.Int).Mul(a.num, b.num))
	}
	if a.num != nil {
		a, b = b, a
	}
	if b.num != nil {
		if b.num.Sign() == 0 {
			return p.Int(0)
		}
		if b.num.Cmp(big.NewInt(1)) == 0 {
			return a
		}
	}
	return p.mk("*", "Int", a, b)
}
func (p *Pool) Div(a, b *Term) *Term { // SMT div (Euclidean)
	if a.num != nil && b.num != nil && b.num.Sign() != 0 {
		q, _ := new(big.Int).DivMod(a.num, b.num, new(big.Int))
		return p.Big(q)
	}
	if b.num != nil && b.num.Cmp(big.NewInt(1)) == 0 {
		return a
	}
	// div(div(x,a),b) = div(x,a*b) for positive constants
	if b.num != nil && b.num.Sign() > 0 && a.Op == "div" && a.Args[1].num != nil && a.Args[1].num.Sign() > 0 {
		return p.Div(a.Args[0], p.Big(new(big.Int).Mul(b.num, a.Args[1].num)))
	}
	return p.mk("div", "Int", a, b)
}
func (p *Pool) Mod(a, b *Term) *Term {
	if a.num != nil && b.num != nil && b.num.Sign() != 0 {
		_, m := new(big.Int).DivMod(a.num, b.num, new(big.Int))
		return p.Big(m)
	}
	if b.num != nil && b.num.Sign() > 0 && a.Op == "mod" && a.Args[1].num != nil {
		// mod(mod(x,m),b) = mod(x,b) when b | m
		if new(big.Int).Mod(a.Args[1].num, b.num).Sign() == 0 {
			return p.Mod(a.Args[0], b)
		}
		if a.Args[1].num.Cmp(b.num) <= 0 {
			return a
		}
	}
	return p.mk("mod", "Int", a, b)
}
func (p *Pool) Le(a, b *Term) *Term {
	if a.num != nil && b.num != nil {
		return p.Bool(a.num.Cmp(b.num) <= 0)
	}
	x, c := p.offset(a)
	y, d := p.offset(b)
	if x == y {
		return p.Bool(c.Cmp(d) <= 0)
	}
	return p.mk("<=", "Bool", a, b)
}
func (p *Pool) Lt(a, b *Term) *Term { return p.Not(p.Le(b, a)) }
func (p *Pool) Ge(a, b *Term) *Term { return p.Le(b, a) }
func (p *Pool) Gt(a, b *Term) *Term { return p.Not(p.Le(a, b)) }

func elemSort(arr string) string { // "(Array K V)" -> V
	s := arr[len("(Array ") : len(arr)-1]
	// skip first sort
	d := 0
	for i := 0; i < len(s); i++ {
		switch s[i] {
		case '(':
			d++
		case ')':
			d--
		case ' ':
			if d == 0 {
				return s[i+1:]
			}
		}
	}
	panic("bad array sort " + arr)
}
func ArrSort(k, v string) string { return "(Array " + k + " " + v + ")" }

func (p *Pool) Select(a, i *Term) *Term {
	if a.Op == "ite" && a.size < 400 && !a.bound {
		// leave
	}
	for a.Op == "store" {
		if a.Args[1] == i {
			return a.Args[2]
		}
		if p.distinctVals(a.Args[1], i) {
			a = a.Args[0]
			continue
		}
		break
	}
	if a.Op == "constarr" {
		return a.Args[0]
	}
	return p.mk("select", elemSort(a.Sort), a, i)
}
func (p *Pool) Store(a, i, v *Term) *Term {
	if a.Op == "store" && a.Args[1] == i {
		a = a.Args[0]
	}
	if elemSort(a.Sort) != v.Sort {
		panic(&Unsupported{"store sort mismatch " + a.Sort + " <- " + v.Sort})
	}
	return p.mk("store", a.Sort, a, i, v)
}
func (p *Pool) ConstArr(sort string, v *Term) *Term { return p.mk("constarr", sort, v) }

// String renders the term without sharing (diagnostics only).
func (t *Term) String() string {
	if t.size > 4000 {
		return t.Op + "<...>"
	}
	var sb strings.Builder
	t.write(&sb, nil)
	return sb.String()
}

func symName(op string) string {
	if op[0] == '#' {
		v := op[1:]
		if v[0] == '-' {
			return "(- " + v[1:] + ")"
		}
		return v
	}
	if op[0] == '?' {
		return "|" + op + "|"
	}
	for i := 0; i < len(op); i++ {
		c := op[i]
		if !(c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' || strings.IndexByte("_!.<>=+-*/~@$%^&", c) >= 0) {
			return "|" + op + "|"
		}
	}
	return op
}

func (t *Term) write(sb *strings.Builder, named map[*Term]string) {
	if named != nil {
		if n, ok := named[t]; ok {
			sb.WriteString(n)
			return
		}
	}
	t.writeTop(sb, named)
}

func (t *Term) writeTop(sb *strings.Builder, named map[*Term]string) {
	if t.Vars != nil {
		q := t.Op[:6]
		sb.WriteString("(" + q + " (")
		for _, v := range t.Vars {
			sb.WriteString("(" + symName(v.Op) + " " + v.Sort + ")")
		}
		sb.WriteString(") ")
		if len(t.Args) > 1 {
			sb.WriteString("(! ")
		}
		t.Args[0].write(sb, named)
		if len(t.Args) > 1 {
			for _, tr := range t.Args[1:] {
				sb.WriteString(" :pattern (")
				if tr.Op == "multi" {
					for i, m := range tr.Args {
						if i > 0 {
							sb.WriteByte(' ')
						}
						m.write(sb, nil)
					}
				} else {
					tr.write(sb, nil)
				}
				sb.WriteString(")")
			}
			sb.WriteString(")")
		}
		sb.WriteString(")")
		return
	}
	if t.Op == "constarr" {
		sb.WriteString("((as const " + t.Sort + ") ")
		t.Args[0].write(sb, named)
		sb.WriteString(")")
		return
	}
	if len(t.Args) == 0 {
		sb.WriteString(symName(t.Op))
		return
	}
	sb.WriteByte('(')
	sb.WriteString(symName(t.Op))
	for _, a := range t.Args {
		sb.WriteByte(' ')
		a.write(sb, named)
	}
	sb.WriteByte(')')
}

// Subst replaces bound-variable / constant terms.
func (p *Pool) Subst(t *Term, m map[*Term]*Term) *Term {
	memo := map[*Term]*Term{}
	var f func(t *Term) *Term
	f = func(t *Term) *Term {
		if r, ok := m[t]; ok {
			return r
		}
		if len(t.Args) == 0 {
			return t
		}
		if r, ok := memo[t]; ok {
			return r
		}
		args := make([]*Term, len(t.Args))
		ch := false
		for i, a := range t.Args {
			args[i] = f(a)
			ch = ch || args[i] != a
		}
		r := t
		if ch {
			r = p.rebuild(t, args)
		}
		memo[t] = r
		return r
	}
	return f(t)
}

func (p *Pool) rebuild(t *Term, args []*Term) *Term {
	if t.Vars != nil {
		return p.quant(t.Op[:6], t.Vars, args[0], args[1:])
	}
	switch t.Op {
	case "not":
		return p.Not(args[0])
	case "and":
		return p.And(args...)
	case "or":
		return p.Or(args...)
	case "=>":
		return p.Implies(args[0], args[1])
	case "=":
		return p.Eq(args[0], args[1])
	case "ite":
		return p.Ite(args[0], args[1], args[2])
	case "+":
		if len(args) == 2 {
			return p.Add(args[0], args[1])
		}
	case "-":
		if len(args) == 1 {
			return p.Neg(args[0])
		}
		return p.Sub(args[0], args[1])
	case "*":
		return p.Mul(args[0], args[1])
	case "div":
		return p.Div(args[0], args[1])
	case "mod":
		return p.Mod(args[0], args[1])
	case "<=":
		return p.Le(args[0], args[1])
	case "select":
		return p.Select(args[0], args[1])
	case "store":
		return p.Store(args[0], args[1], args[2])
	}
	return p.mk(t.Op, t.Sort, args...)
}

type Unsupported struct{ Msg string }

func (u *Unsupported) Error() string { return u.Msg }
