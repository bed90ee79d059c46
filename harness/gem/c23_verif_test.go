package gem_test

import (
	"errors"
	"fmt"
	"testing"

	"github.com/younglifestyle/secs4go/gem"
	"github.com/younglifestyle/secs4go/lib-secs2-hsms-go/pkg/ast"
	vf "github.com/younglifestyle/secs4go/zzvf"
)

type svModel struct {
	id         gID
	name, unit string
	v          *gem.StatusVariable
	prov       bool
	fail       bool
	val        *vf.Item // nil: none
	asks       int
}

func (m *svModel) give() (ast.ItemNode, error) {
	m.asks++
	if m.fail {
		return nil, errors.New("x")
	}
	if m.val == nil {
		return nil, nil
	}
	return m.val.Build(), nil
}

func (m *svModel) want() *vf.Item {
	if m.prov && m.fail || m.val == nil {
		return gL()
	}
	return m.val
}

func svMake(id gID) *svModel {
	m := &svModel{id: id, name: gWord(), unit: gWord()}
	var opts []gem.StatusVariableOption
	if vf.R.Intn(6) > 0 {
		m.val = vf.Gen(2, 0, 3)
		opts = append(opts, gem.WithStatusValue(m.val.Build()))
	}
	if m.prov = vf.R.Intn(3) == 0; m.prov {
		opts = append(opts, gem.WithStatusValueProvider(m.give))
		m.fail = vf.R.Intn(3) == 0
	}
	v, err := gem.NewStatusVariable(id.app(), m.name, m.unit, opts...)
	if err != nil {
		vf.Fail("register", "NewStatusVariable(%v): %v", id, err)
		return nil
	}
	m.v = v
	return m
}

// TestVerifC23 asks equipments for status variables and their names.
func TestVerifC23(t *testing.T) {
	defer vf.Done("a distinct (query, size of the registry and of the request, kinds of identifiers)")
	for n := 0; n < vf.N(4); n++ {
		c23Run(n)
	}
}

func c23Run(n int) {
	h, q, err := gComm(gem.DeviceEquipment, nil, nil)
	defer gStop(h, q)
	if err != nil {
		vf.Fail("start", "%v", err)
		return
	}
	var all []*svModel
	byKey := map[string]*svModel{}
	var ids []gID
	more := gIDs(12)
	for k := 0; k < 120; k++ {
		if n > 0 && len(all) < len(more) && vf.R.Intn(5) == 0 {
			m := svMake(more[len(all)])
			if m == nil {
				return
			}
			if err := h.RegisterStatusVariable(m.v); err != nil {
				vf.Fail("register", "registering the status variable %v: %v", m.id, err)
				return
			}
			all, ids, byKey[m.id.key()] = append(all, m), append(ids, m.id), m
		}
		if len(all) > 0 && vf.R.Intn(8) == 0 {
			// the same identifier again is refused and changes nothing
			m := svMake(all[vf.R.Intn(len(all))].id)
			if m == nil {
				return
			}
			if h.RegisterStatusVariable(m.v) == nil {
				vf.Fail("register", "two status variables have the identifier %v", m.id)
				return
			}
		}
		if len(all) > 0 && vf.R.Intn(2) == 0 {
			m := all[vf.R.Intn(len(all))]
			if m.val = vf.Gen(2, 0, 3); vf.R.Intn(5) == 0 {
				m.val = nil
			}
			m.fail = vf.R.Intn(4) == 0
			if !m.prov {
				if m.val == nil {
					m.v.SetValue(nil)
				} else {
					m.v.SetValue(m.val.Build())
				}
			}
			if vf.R.Intn(6) == 0 {
				if m.prov = !m.prov; m.prov {
					m.v.SetValueProvider(m.give)
				} else {
					m.v.SetValueProvider(nil)
					if m.val == nil {
						m.v.SetValue(nil)
					} else {
						m.v.SetValue(m.val.Build())
					}
				}
			}
		}
		req := gReq(ids, 6)
		if vf.R.Intn(12) == 0 {
			req = []*vf.Item{gBadID(), nil, gA("x"), gU(4, 1)}[vf.R.Intn(4)]
		}
		var text []byte
		if req != nil {
			text = req.Encode()
		}
		names := vf.R.Intn(2) == 0
		fn := 3
		if names {
			fn = 11
		}
		f, b := q.ask(1, fn, text)
		got := vf.Decode(b)
		vf.Case(fmt.Sprint(fn, len(all), req != nil && req.K == "L", req != nil && len(req.L) > 0))
		if f != fn+1 || got == nil || got.K != "L" {
			vf.Fail("answer", "S1F%d %v is answered by function %d %x", fn, req, f, b)
			return
		}
		type entry struct {
			want *vf.Item
			m    *svModel
			key  string
		}
		var want []entry
		if req != nil && req.K == "L" {
			for _, r := range req.L {
				k, ok := gKeyOf(r)
				e := entry{want: gL(), key: k}
				if !ok {
					e.key = "?"
				} else if m := byKey[k]; m != nil {
					e.m, e.want = m, m.want()
				}
				want = append(want, e)
			}
			if len(req.L) == 0 {
				for _, m := range all {
					want = append(want, entry{m.want(), m, m.id.key()})
				}
			}
		}
		if len(got.L) != len(want) {
			vf.Fail("count", "S1F%d %v is answered with %d entries, must be %d: %v", fn, req, len(got.L), len(want), got)
			return
		}
		for i, w := range want {
			g := got.L[i]
			if !names {
				if !gEq(g, w.want) {
					vf.Fail("value", "S1F3 %v: entry %d of the answer is %v, must be %v (identifier %s)", req, i, g, w.want, w.key)
					return
				}
				continue
			}
			nm, un := "", ""
			if w.m != nil {
				nm, un = w.m.name, w.m.unit
			}
			ok := g.K == "L" && len(g.L) == 3 && gEq(g.L[1], gA(nm)) && gEq(g.L[2], gA(un))
			if ok && w.key == "?" {
				ok = gEq(g.L[0], gL())
			} else if ok {
				ok = gIsID(g.L[0], w.key)
			}
			if !ok {
				vf.Fail("name", "S1F11 %v: entry %d of the answer is %v, must be (%s, %q, %q)", req, i, g, w.key, nm, un)
				return
			}
		}
	}
}
