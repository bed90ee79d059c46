package ast_test

import (
	"fmt"
	"testing"

	"github.com/younglifestyle/secs4go/lib-secs2-hsms-go/pkg/ast"
	vf "github.com/younglifestyle/secs4go/zzvf"
)

func c08Copy(it *vf.Item) *vf.Item {
	c := *it
	c.I, c.U, c.F, c.O = append([]int64{}, it.I...), append([]uint64{}, it.U...), append([]float64{}, it.F...), append([]bool{}, it.O...)
	c.Vars = map[int]string{}
	for k, v := range it.Vars {
		c.Vars[k] = v
	}
	c.L = nil
	for _, x := range it.L {
		c.L = append(c.L, c08Copy(x))
	}
	return &c
}

// c08Fill chooses values for some of the variables of it and returns it with those values in place.
func c08Fill(it *vf.Item, m map[string]interface{}) *vf.Item {
	r := c08Copy(it)
	for p, n := range it.Vars {
		switch k := vf.R.Intn(8); {
		case k < 3:
			continue
		case k == 3:
			r.Vars[p] = vf.FreshName()
			m[n] = r.Vars[p]
			continue
		}
		delete(r.Vars, p)
		switch it.K {
		case "B":
			v := vf.R.Intn(256)
			r.I[p] = int64(v)
			m[n] = v
			if vf.R.Intn(2) == 0 {
				m[n] = fmt.Sprintf("0b%b", v)
			}
		case "BOOLEAN":
			r.O[p] = vf.R.Intn(2) == 0
			m[n] = r.O[p]
		case "I":
			v := vf.FitInt(vf.RandInt64(), it.W)
			r.I[p] = v
			m[n] = v
			if v >= 0 && vf.R.Intn(2) == 0 {
				m[n] = uint64(v)
			} else if v == int64(int8(v)) {
				m[n] = int8(v)
			}
		case "U":
			v := uint64(vf.RandInt64()) << uint(64-8*it.W) >> uint(64-8*it.W)
			r.U[p] = v
			m[n] = v
			if v < 128 && vf.R.Intn(2) == 0 {
				m[n] = int8(v)
			} else if v < 1<<31 && vf.R.Intn(2) == 0 {
				m[n] = int(v)
			}
		case "F":
			v := float64(vf.R.Intn(2000)-1000) / 8
			r.F[p] = v
			m[n] = v
			if vf.R.Intn(2) == 0 {
				m[n] = float32(v)
			}
		}
	}
	if it.K == "A" && it.IsV && vf.R.Intn(2) == 0 {
		r.IsV = false
		l := it.Min
		if it.Max < 0 {
			l += vf.R.Intn(5)
		} else {
			l += vf.R.Intn(it.Max - it.Min + 1)
		}
		r.S = vf.RandText(l)
		m[it.Name] = r.S
	}
	for i, c := range it.L {
		if c.K != "V" {
			r.L[i] = c08Fill(c, m)
			continue
		}
		switch vf.R.Intn(4) {
		case 0:
			r.L[i] = &vf.Item{K: "V", Name: vf.FreshName()}
			m[c.Name] = r.L[i].Name
		case 1, 2:
			r.L[i] = vf.Gen(1, 30, 4)
			m[c.Name] = r.L[i].Build()
		}
	}
	return r
}

func c08Limits(it *vf.Item) {
	if it.K == "A" && it.IsV {
		it.Min = vf.R.Intn(3)
		it.Max = -1
		if vf.R.Intn(2) == 0 {
			it.Max = it.Min + vf.R.Intn(4)
		}
	}
	for _, c := range it.L {
		c08Limits(c)
	}
}

func c08Names(r *vf.Item, m map[string]interface{}, sfx string) *vf.Item {
	c := c08Copy(r)
	for p, n := range c.Vars {
		c.Vars[p] = n + sfx
	}
	if c.K == "V" || c.IsV {
		c.Name += sfx
	}
	for i := range c.L {
		c.L[i] = c08Names(c.L[i], m, sfx)
	}
	return c
}

func TestVerifC08(t *testing.T) {
	for i := 0; i < vf.N(6000); i++ {
		it := vf.Gen(vf.R.Intn(4), 70, 6)
		c08Limits(it)
		m := map[string]interface{}{}
		want := c08Fill(it, m)
		for k := 0; k < vf.R.Intn(3); k++ {
			m["zz_unused"+fmt.Sprint(k)] = []interface{}{1, "0b1", true, ast.NewIntNode(1, 5)}[vf.R.Intn(4)]
		}
		node := it.Build()
		vf.Case(fmt.Sprintf("%s <- %v", it, m))
		var r ast.ItemNode
		if p := vf.Try(func() { r = node.FillVariables(m) }); p != nil {
			vf.Fail("fill", "%s filled with %v panics: %v", it, m, p)
			continue
		}
		if s := vf.Same(r, want); s != "" {
			vf.Fail("fill", "%s filled with %v: %s", it, vf.Cut(fmt.Sprint(m), 200), s)
		}
		if s := vf.Same(node, it); s != "" {
			vf.Fail("original", "%s filled with %v: the item itself now has %s", it, vf.Cut(fmt.Sprint(m), 200), s)
		}
		// through a message
		w, st, fn := vf.R.Intn(3), vf.R.Intn(128), 2*vf.R.Intn(128)+1
		msg := ast.NewDataMessage("m", st, fn, w, "H<-E", node)
		if vf.R.Intn(2) == 0 {
			msg = msg.SetSessionIDAndSystemBytes(vf.R.Intn(65536), []byte{1, 2, 3, byte(i)})
		}
		f := msg.FillVariables(m)
		if f.Name() != "m" || f.StreamCode() != st || f.FunctionCode() != fn || f.WaitBit() != msg.WaitBit() || f.Direction() != "H<-E" || f.SessionID() != msg.SessionID() || string(f.SystemBytes()) != string(msg.SystemBytes()) {
			vf.Fail("message", "filling changes the header of %v to %v", msg, f)
		}
		if a, b := fmt.Sprint(f.Variables()), fmt.Sprint(r.Variables()); a != b {
			vf.Fail("message", "filled message has variables %s, its item %s", a, b)
		}
	}
	// a list variable replaced by an item that has variables of its own, some with names of the assignment
	for i := 0; i < vf.N(300); i++ {
		m := map[string]interface{}{"b": 1 + vf.R.Intn(100), "c": 7}
		in := &vf.Item{K: "U", W: 2, U: []uint64{5, 0}, Vars: map[int]string{1: []string{"a", "b", "c", "d"}[vf.R.Intn(4)]}}
		inner := []*vf.Item{in, {K: "L", L: []*vf.Item{in}}, {K: "L", L: []*vf.Item{{K: "V", Name: in.Vars[1]}}}}[vf.R.Intn(3)]
		m["a"] = inner.Build()
		it := &vf.Item{K: "L", L: []*vf.Item{{K: "V", Name: "a"}, {K: "U", W: 1, U: []uint64{0}, Vars: map[int]string{0: "b"}}, {K: "I", W: 1, I: []int64{3}}}}
		want := &vf.Item{K: "L", L: []*vf.Item{inner, {K: "U", W: 1, U: []uint64{uint64(m["b"].(int))}}, it.L[2]}}
		if vf.R.Intn(2) == 0 {
			it, want = &vf.Item{K: "L", L: []*vf.Item{it}}, &vf.Item{K: "L", L: []*vf.Item{want}}
		}
		vf.Case(fmt.Sprintf("%s <- %v", it, m))
		var r ast.ItemNode
		if p := vf.Try(func() { r = it.Build().FillVariables(m) }); p != nil {
			vf.Fail("fill", "%s filled with %v panics: %v", it, m, p)
		} else if s := vf.Same(r, want); s != "" {
			vf.Fail("fill", "%s filled with %v: %s", it, m, s)
		}
	}
	// a text outside the limits of its variable does not replace it
	for i := 0; i < vf.N(300); i++ {
		it := &vf.Item{K: "A", IsV: true, Name: "a", Min: vf.R.Intn(3)}
		it.Max = it.Min + vf.R.Intn(3)
		l := it.Max + 1 + vf.R.Intn(3)
		if it.Min > 0 && vf.R.Intn(2) == 0 {
			l = vf.R.Intn(it.Min)
		}
		m := map[string]interface{}{"a": vf.RandText(l)}
		vf.Case(fmt.Sprintf("%s <- %v", it, m))
		var r ast.ItemNode
		if p := vf.Try(func() { r = it.Build().FillVariables(m) }); p == nil {
			if s := vf.Same(r, it); s != "" {
				vf.Fail("limits", "a text variable of %d to %d characters was filled with %q", it.Min, it.Max, m["a"])
			}
		}
	}
	// a repeated list: the elements before "..." n+1 times, with [0] .. [n] added to their names
	for i := 0; i < vf.N(800); i++ {
		it := vf.Gen(0, 70, 4)
		l := &vf.Item{K: "L", L: []*vf.Item{it}}
		for k := 0; k < vf.R.Intn(3); k++ {
			if vf.R.Intn(3) == 0 {
				l.L = append(l.L, &vf.Item{K: "V", Name: vf.FreshName()})
			} else {
				l.L = append(l.L, vf.Gen(1, 60, 4))
			}
		}
		n := vf.R.Intn(5)
		args, want := l.Args(), &vf.Item{K: "L"}
		args = append(args, "...")
		for j := 0; j <= n; j++ {
			for _, c := range l.L {
				if n == 0 {
					want.L = append(want.L, c)
				} else {
					want.L = append(want.L, c08Names(c, nil, fmt.Sprintf("[%d]", j)))
				}
			}
		}
		if vf.R.Intn(2) == 0 {
			c := vf.Gen(1, 60, 4)
			args, want.L = append(args, c.Build()), append(want.L, c)
		}
		vf.Case(fmt.Sprintf("%d %s", n, l))
		var r ast.ItemNode
		if p := vf.Try(func() { r = ast.NewListNode(args...).FillVariables(map[string]interface{}{"...": n}) }); p != nil {
			vf.Fail("ellipsis", "%s ... repeated %d times panics: %v", l, n, p)
			continue
		}
		if s := vf.Same(r, want); s != "" {
			vf.Fail("ellipsis", "%s ... repeated %d times: %s", l, n, s)
		}
	}
	vf.Done("random items with variables; random partial assignments including renames and unused names; bounded repetition of lists")
}
