package gem_test

import (
	"fmt"
	"testing"

	"github.com/younglifestyle/secs4go/gem"
	vf "github.com/younglifestyle/secs4go/zzvf"
)

// TestVerifC27 names registered entries by every kind of identifier item.
func TestVerifC27(t *testing.T) {
	defer vf.Done("a distinct (request, kind and width of the identifier item, registered or not)")
	for n := 0; n < vf.N(3); n++ {
		if !c27Run() {
			return
		}
	}
}

func c27Run() bool {
	h, q, err := gComm(gem.DeviceEquipment, nil, nil)
	defer gStop(h, q)
	if err != nil {
		vf.Fail("start", "%v", err)
		return false
	}
	all := map[string]gID{}
	for _, n := range gNums {
		d := gID{n: n}
		all[d.key()] = d
	}
	for _, s := range gTexts {
		d := gID{s: s, isTxt: true}
		all[d.key()] = d
	}
	index := map[string]int{}
	var ids, out []gID
	for k, d := range all {
		if vf.R.Intn(5) == 0 {
			out = append(out, d)
			continue
		}
		index[k] = len(ids) + 1
		ids = append(ids, d)
	}
	for i, d := range ids {
		for try := 0; try < 2; try++ {
			val := gU(4, uint64(i+1+1000*try)).Build()
			sv, err := gem.NewStatusVariable(d.app(), "n", "u", gem.WithStatusValue(val))
			if err == nil {
				err = h.RegisterStatusVariable(sv)
			}
			ec, err2 := gem.NewEquipmentConstant(d.app(), "n", val)
			if err2 == nil {
				err2 = h.RegisterEquipmentConstant(ec)
			}
			ce, err3 := gem.NewCollectionEvent(d.app(), "n")
			if err3 == nil {
				err3 = h.RegisterCollectionEvent(ce)
			}
			var err4 error
			if try == 0 {
				err4 = h.RegisterProcessProgram(d.app(), fmt.Sprint(i+1))
			}
			if try == 0 && (err != nil || err2 != nil || err3 != nil || err4 != nil) {
				vf.Fail("register", "registering %v: %v, %v, %v, %v", d, err, err2, err3, err4)
				return false
			}
			if try == 1 && (err == nil || err2 == nil || err3 == nil) {
				vf.Fail("register", "the identifier %v is registered twice", d)
				return false
			}
		}
	}
	for _, v := range []interface{}{-1, int8(-1), int64(-1) << 63, 1.5, nil, true, "\x80", "a\xff", []byte("a"), float32(1)} {
		if _, err := gem.NewStatusVariable(v, "n", "u"); err == nil {
			vf.Fail("register", "the identifier %v (%T) is accepted", v, v)
			return false
		}
	}
	for k := 0; k < 400; k++ {
		var it *vf.Item
		var key string
		ok := true
		switch vf.R.Intn(6) {
		case 0:
			it, ok = gBadID(), false
		case 1:
			if len(out) == 0 {
				continue
			}
			d := out[vf.R.Intn(len(out))]
			it, key = d.item(), d.key()
		default:
			d := ids[vf.R.Intn(len(ids))]
			it, key = d.item(), d.key()
		}
		want := index[key]
		if !ok {
			want = 0
		}
		sig := fmt.Sprint(it.K, it.W, want > 0, ok)
		switch vf.R.Intn(5) {
		case 0, 1:
			s, fn := 1, 3
			if vf.R.Intn(2) == 0 {
				s, fn = 2, 13
			}
			f, b := q.ask(s, fn, gL(it).Encode())
			vf.Case(fmt.Sprint("S", s, "F", fn, " ", sig))
			got := vf.Decode(b)
			exp := gL()
			if want > 0 {
				exp = gU(4, uint64(want))
			}
			if f != fn+1 || got == nil || got.K != "L" || len(got.L) != 1 || !gEq(got.L[0], exp) {
				vf.Fail("entry", "S%dF%d %v is answered by function %d %v, must be the value %v of %s", s, fn, it, f, got, exp, key)
				return false
			}
		case 2:
			if it.K == "L" {
				continue
			}
			f, b := q.ask(7, 5, it.Encode())
			vf.Case("S7F5 " + sig)
			got := vf.Decode(b)
			exp := ""
			if want > 0 {
				exp = fmt.Sprint(want)
			}
			s := ""
			good := f == 6 && got != nil && got.K == "L" && len(got.L) == 3
			if good {
				s = got.L[1].S
			}
			if !good || s != exp {
				vf.Fail("program", "S7F5 %v is answered by function %d %v, must be the program %q of %s", it, f, got, exp, key)
				return false
			}
		case 3:
			f, b := q.ask(6, 15, it.Encode())
			vf.Case("S6F15 " + sig)
			got := vf.Decode(b)
			if f != 16 || got == nil || got.K != "L" || len(got.L) != 3 || ok && it.K != "L" && !gIsID(got.L[1], key) {
				vf.Fail("event", "S6F15 %v is answered by function %d %v", it, f, got)
				return false
			}
		default:
			// define a report under the identifier with a variable of the identifier, link it, enable it
			f1, b1 := q.ask(2, 33, gL(gU(1, 1), gL(gL(it, gL(it)))).Encode())
			f2, b2 := q.ask(2, 35, gL(gU(1, 1), gL(gL(it, gL(it)))).Encode())
			f3, b3 := q.ask(2, 37, gL(gO(true), gL(it)).Encode())
			f4, b4 := q.ask(6, 15, gL(it).Encode())
			vf.Case("S2F33 " + sig)
			c1, c2, c3, got := vf.Decode(b1), vf.Decode(b2), vf.Decode(b3), vf.Decode(b4)
			if f1 != 34 || f2 != 36 || f3 != 38 || f4 != 16 || c1 == nil || c2 == nil || c3 == nil || got == nil {
				vf.Fail("report", "reports for the identifier %v: answered by S2F%d, S2F%d, S2F%d, S6F%d", it, f1, f2, f3, f4)
				return false
			}
			all := gEq(c1, gB(0)) && gEq(c2, gB(0)) && gEq(c3, gB(0))
			if all != (want > 0) {
				vf.Fail("report", "a report for the identifier %v (registered: %v): S2F34 %v, S2F36 %v, S2F38 %v", it, want > 0, c1, c2, c3)
				return false
			}
			if want > 0 {
				good := got.K == "L" && len(got.L) == 3 && gIsID(got.L[1], key) && got.L[2].K == "L" && len(got.L[2].L) == 1
				if good {
					r := got.L[2].L[0]
					good = r.K == "L" && len(r.L) == 2 && gIsID(r.L[0], key) && gEq(r.L[1], gL(gU(4, uint64(want))))
				}
				if !good {
					vf.Fail("report", "the event report for %v is %v, must hold the value %d", it, got, want)
					return false
				}
			}
			q.ask(2, 33, gL(gU(1, 1), gL()).Encode())
		}
	}
	// malformed identifiers in every request that takes one
	for k := 0; k < 60; k++ {
		it := gBadID()
		for _, m := range []struct {
			s, f int
			d    *vf.Item
		}{{1, 3, gL(it)}, {1, 11, gL(it, it)}, {2, 13, gL(it)}, {2, 15, gL(gL(it, gU(1, 1)))}, {2, 29, gL(it)}, {2, 41, gL(it, gL())}, {2, 41, gL(gA("x"), gL(gL(it, it)))},
			{5, 3, gL(gB(128), gL(it))}, {5, 3, gL(it, it)}, {7, 3, gL(it, gA("x"))}, {7, 5, it}, {2, 37, gL(gO(true), gL(it))}} {
			f, b := q.ask(m.s, m.f, m.d.Encode())
			vf.Case(fmt.Sprint("malformed S", m.s, "F", m.f, it.K, it.W))
			if f != m.f+1 || vf.Decode(b) == nil {
				vf.Fail("malformed", "S%dF%d %v is answered by function %d", m.s, m.f, m.d, f)
				return false
			}
		}
	}
	return true
}
