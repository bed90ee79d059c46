package gem_test

import (
	"errors"
	"fmt"
	"testing"

	"github.com/younglifestyle/secs4go/gem"
	"github.com/younglifestyle/secs4go/lib-secs2-hsms-go/pkg/ast"
	vf "github.com/younglifestyle/secs4go/zzvf"
)

type ecModel struct {
	id             gID
	name, unit     string
	lo, hi, def    *vf.Item
	held           *vf.Item
	prov           *vf.Item // value of the provider, if there is one
	provFail       bool
	hasV, hasU     bool
	noV, noU       map[string]bool // encodings refused
	refuseV, refuU bool            // refuse everything
	took           []string
	c              *gem.EquipmentConstant
}

func (m *ecModel) want() *vf.Item {
	if m.prov != nil {
		if m.provFail {
			return gL()
		}
		return m.prov
	}
	return m.held
}

func ecMake(id gID) *ecModel {
	m := &ecModel{id: id, name: gWord(), def: vf.Gen(2, 0, 3)}
	m.held = m.def
	var opts []gem.EquipmentConstantOption
	if vf.R.Intn(2) == 0 {
		m.unit = gWord()
		opts = append(opts, gem.WithEquipmentConstantUnit(m.unit))
	}
	if vf.R.Intn(2) == 0 {
		m.lo = vf.Gen(1, 0, 2)
		opts = append(opts, gem.WithEquipmentConstantMin(m.lo.Build()))
	}
	if vf.R.Intn(2) == 0 {
		m.hi = vf.Gen(1, 0, 2)
		opts = append(opts, gem.WithEquipmentConstantMax(m.hi.Build()))
	}
	if vf.R.Intn(4) == 0 {
		m.prov = vf.Gen(1, 0, 2)
		opts = append(opts, gem.WithEquipmentConstantValueProvider(func() (ast.ItemNode, error) {
			if m.provFail {
				return nil, errors.New("x")
			}
			return m.prov.Build(), nil
		}))
	}
	if vf.R.Intn(2) == 0 {
		m.hasV = true
		opts = append(opts, gem.WithEquipmentConstantValidator(func(ast.ItemNode) error {
			if m.refuseV {
				return errors.New("x")
			}
			return nil
		}))
	}
	if vf.R.Intn(2) == 0 {
		m.hasU = true
		opts = append(opts, gem.WithEquipmentConstantValueUpdater(func(v ast.ItemNode) error {
			if m.refuU {
				return errors.New("x")
			}
			m.took = append(m.took, string(v.ToBytes()))
			return nil
		}))
	}
	c, err := gem.NewEquipmentConstant(id.app(), m.name, m.def.Build(), opts...)
	if err != nil {
		vf.Fail("register", "NewEquipmentConstant(%v): %v", id, err)
		return nil
	}
	m.c = c
	return m
}

// TestVerifC24 asks equipments for their constants and sends them new ones.
func TestVerifC24(t *testing.T) {
	defer vf.Done("a distinct (query, size of the registry and of the request, outcome)")
	for n := 0; n < vf.N(4); n++ {
		c24Run(n)
	}
}

func c24Run(n int) {
	h, q, err := gComm(gem.DeviceEquipment, nil, nil)
	defer gStop(h, q)
	if err != nil {
		vf.Fail("start", "%v", err)
		return
	}
	var all []*ecModel
	byKey := map[string]*ecModel{}
	var ids []gID
	more := gIDs(10)
	for k := 0; k < 150; k++ {
		if n > 0 && len(all) < len(more) && vf.R.Intn(4) == 0 {
			m := ecMake(more[len(all)])
			if m == nil {
				return
			}
			if err := h.RegisterEquipmentConstant(m.c); err != nil {
				vf.Fail("register", "registering the constant %v: %v", m.id, err)
				return
			}
			all, ids, byKey[m.id.key()] = append(all, m), append(ids, m.id), m
		}
		if len(all) > 0 && vf.R.Intn(10) == 0 {
			m := ecMake(all[vf.R.Intn(len(all))].id)
			if m == nil {
				return
			}
			if h.RegisterEquipmentConstant(m.c) == nil {
				vf.Fail("register", "two constants have the identifier %v", m.id)
				return
			}
		}
		for _, m := range all {
			m.refuseV, m.refuU = m.hasV && vf.R.Intn(6) == 0, m.hasU && vf.R.Intn(6) == 0
			m.provFail = vf.R.Intn(5) == 0
		}
		if !c24Set(q, ids, byKey, all) || !c24Ask(q, 13, gReq(ids, 5), byKey, all) {
			return
		}
		// every constant holds what it must
		if !c24Ask(q, 13, gL(), byKey, all) || !c24Ask(q, 29, gReq(ids, 5), byKey, all) {
			return
		}
		if vf.R.Intn(10) == 0 && !c24Ask(q, 13+16*vf.R.Intn(2), []*vf.Item{gBadID(), nil, gA("x"), gU(4, 1)}[vf.R.Intn(4)], byKey, all) {
			return
		}
	}
}

func c24Set(q *gPeer, ids []gID, byKey map[string]*ecModel, all []*ecModel) bool {
	type upd struct {
		m *ecModel
		v *vf.Item
	}
	var us []upd
	known := true
	req := gL()
	for n := vf.R.Intn(5); n > 0; n-- {
		var id *vf.Item
		switch {
		case vf.R.Intn(20) == 0:
			id = gBadID()
		case vf.R.Intn(14) == 0 || len(ids) == 0:
			id = gAnyID().item()
		default:
			id = ids[vf.R.Intn(len(ids))].item()
		}
		v := vf.Gen(2, 0, 3)
		e := gL(id, v)
		switch vf.R.Intn(40) {
		case 0:
			e = gL(id)
		case 1:
			e = id
		case 2:
			e = gL()
		}
		req.L = append(req.L, e)
		k, ok := "", e.K == "L" && len(e.L) >= 2
		if ok {
			k, ok = gKeyOf(e.L[0])
		}
		if m := byKey[k]; ok && m != nil {
			us = append(us, upd{m, e.L[1]})
		} else {
			known = false
		}
	}
	bad := false
	if vf.R.Intn(25) == 0 {
		req, us, bad = []*vf.Item{gBadID(), nil, gA("x"), gU(4, 1)}[vf.R.Intn(4)], nil, true
		if req != nil && req.K == "L" {
			bad = false
			known = len(req.L) == 0
		}
	}
	valid, took := true, true
	for _, u := range us {
		valid = valid && !u.m.refuseV
		took = took && !u.m.refuU
	}
	want := known && valid && took && !bad
	var text []byte
	if req != nil {
		text = req.Encode()
	}
	for _, m := range all {
		m.took = nil
	}
	f, b := q.ask(2, 15, text)
	got := vf.Decode(b)
	vf.Case(fmt.Sprint(15, len(all), len(us), known, valid, took))
	if f != 16 || got == nil || got.K != "B" || len(got.I) != 1 {
		vf.Fail("answer", "S2F15 %v is answered by function %d %x", req, f, b)
		return false
	}
	if (got.I[0] == 0) != want {
		vf.Fail("code", "S2F15 %v is answered with %d (all constants known: %v, all values valid: %v, all taken: %v)", req, got.I[0], known, valid, took)
		return false
	}
	if !want {
		if !known || !valid {
			for _, m := range all {
				if len(m.took) > 0 {
					vf.Fail("partial", "S2F15 %v is refused with %d, but the constant %v has been given a new value", req, got.I[0], m.id)
					return false
				}
			}
		}
		return true
	}
	last := map[*ecModel]*vf.Item{}
	for _, u := range us {
		last[u.m] = u.v
	}
	for m, v := range last {
		m.held = v
		if m.hasU && (len(m.took) == 0 || m.took[len(m.took)-1] != string(v.Encode())) {
			vf.Fail("updater", "S2F15 %v is accepted, but the updater of the constant %v was not given the value %v last", req, m.id, v)
			return false
		}
	}
	return true
}

func c24Ask(q *gPeer, fn int, req *vf.Item, byKey map[string]*ecModel, all []*ecModel) bool {
	var text []byte
	if req != nil {
		text = req.Encode()
	}
	f, b := q.ask(2, fn, text)
	got := vf.Decode(b)
	vf.Case(fmt.Sprint(fn, len(all), req != nil && req.K == "L", req != nil && len(req.L) > 0))
	if f != fn+1 || got == nil || got.K != "L" {
		vf.Fail("answer", "S2F%d %v is answered by function %d %x", fn, req, f, b)
		return false
	}
	type entry struct {
		m   *ecModel
		key string
	}
	var want []entry
	if req != nil && req.K == "L" {
		for _, r := range req.L {
			k, ok := gKeyOf(r)
			if !ok {
				k = "?"
			}
			want = append(want, entry{byKey[k], k})
		}
		if len(req.L) == 0 {
			for _, m := range all {
				want = append(want, entry{m, m.id.key()})
			}
		}
	}
	if len(got.L) != len(want) {
		vf.Fail("count", "S2F%d %v is answered with %d entries, must be %d: %v", fn, req, len(got.L), len(want), got)
		return false
	}
	or := func(v *vf.Item) *vf.Item {
		if v == nil {
			return gL()
		}
		return v
	}
	for i, w := range want {
		g := got.L[i]
		if fn == 13 {
			v := gL()
			if w.m != nil {
				v = w.m.want()
			}
			if !gEq(g, v) {
				vf.Fail("value", "S2F13 %v: entry %d of the answer is %v, must be %v (constant %s)", req, i, g, v, w.key)
				return false
			}
			continue
		}
		m := w.m
		if m == nil {
			m = &ecModel{}
		}
		ok := g.K == "L" && len(g.L) == 6 && gEq(g.L[1], gA(m.name)) && gEq(g.L[2], or(m.lo)) && gEq(g.L[3], or(m.hi)) &&
			gEq(g.L[4], or(m.def)) && gEq(g.L[5], gA(m.unit))
		if ok && w.key == "?" {
			ok = gEq(g.L[0], gL())
		} else if ok {
			ok = gIsID(g.L[0], w.key)
		}
		if !ok {
			vf.Fail("name", "S2F29 %v: entry %d of the answer is %v, must describe the constant %s %q", req, i, g, w.key, m.name)
			return false
		}
	}
	return true
}
