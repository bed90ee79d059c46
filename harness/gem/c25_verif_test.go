package gem_test

import (
	"errors"
	"fmt"
	"sync"
	"testing"

	"github.com/younglifestyle/secs4go/gem"
	"github.com/younglifestyle/secs4go/lib-secs2-hsms-go/pkg/ast"
	vf "github.com/younglifestyle/secs4go/zzvf"
)

// TestVerifC25 sends commands, well formed or not, to handlers with every kind of outcome.
func TestVerifC25(t *testing.T) {
	defer vf.Done("a distinct (body shape, handler, parameters, result codes, acknowledges)")
	for n := 0; n < vf.N(15); n++ {
		c25Run()
	}
}

// rcParamItem is one item of a parameter list and the parameter it stands for, if any.
func rcParamItem() (it *vf.Item, id gID, ok bool, val *vf.Item) {
	id = gAnyID()
	switch vf.R.Intn(10) {
	case 0:
		return gL(), id, false, nil
	case 1:
		return gL(gBadID(), gA("x")), id, false, nil
	case 2:
		return gA(gWord()), id, false, nil
	case 3:
		return gL(id.item()), id, true, nil
	case 4:
		val = gL(gA("deep"), gL(gU(2, 7)))
		return gL(id.item(), val, gA("more")), id, true, val
	}
	val = vf.Gen(2, 0, 40)
	return gL(id.item(), val), id, true, val
}

func c25Run() {
	var mu sync.Mutex
	var calls int
	var last gem.RemoteCommandRequest
	var next gem.RemoteCommandResult
	var fail error
	h, q, err := gComm(gem.DeviceEquipment, nil, nil)
	defer func() { gStop(h, q) }()
	if err != nil {
		vf.Fail("start", "%v", err)
		return
	}
	q.sync()
	q.drain()
	handler := false
	for k := 0; k < vf.N(40); k++ {
		if k > 3 && !handler {
			handler = true
			h.SetRemoteCommandHandler(func(r gem.RemoteCommandRequest) (gem.RemoteCommandResult, error) {
				mu.Lock()
				defer mu.Unlock()
				calls++
				last = r
				return next, fail
			})
		}
		cmd := gAnyID()
		var body *vf.Item
		good := true
		type want struct {
			id  gID
			val *vf.Item
		}
		var params []want
		shape := vf.R.Intn(12)
		switch shape {
		case 0:
			body, good = nil, false
		case 1:
			body, good = gL(), false
		case 2:
			body, good = gL(gBadID(), gL()), false
		case 3:
			body, good = gA("START"), false
		case 4:
			body = gL(cmd.item())
		case 5:
			body = gL(cmd.item(), gU(1, 3))
		default:
			list := gL()
			for i := vf.R.Intn(6); i > 0; i-- {
				it, id, ok, val := rcParamItem()
				list.L = append(list.L, it)
				if ok {
					params = append(params, want{id, val})
				}
			}
			body = gL(cmd.item(), list)
			if shape == 6 {
				body.L = append(body.L, gA("extra"))
			}
		}
		mu.Lock()
		before := calls
		next = gem.RemoteCommandResult{HCACK: gem.HCACKCode([]int{0, 0, 1, 2, 3, 4, 5, 6, 7, 64, 255}[vf.R.Intn(11)])}
		fail = nil
		if vf.R.Intn(4) == 0 {
			fail = errors.New("refused")
		}
		named := true
		var keys []string
		for i := vf.R.Intn(4); i > 0; i-- {
			id := gAnyID()
			a := gem.RemoteCommandParameterAck{Name: id.app(), Ack: gem.CPACKCode([]int{0, 1, 2, 3, 4, 63, 64, 255}[vf.R.Intn(8)])}
			if vf.R.Intn(12) == 0 {
				a.Name, named = []interface{}{nil, 1.5, -3, "caf\u00e9"}[vf.R.Intn(4)], false
			}
			keys = append(keys, id.key())
			next.ParameterAcks = append(next.ParameterAcks, a)
		}
		mu.Unlock()
		var text []byte
		if body != nil {
			text = body.Encode()
		}
		fn, b := q.ask(2, 41, text)
		got := vf.Decode(b)
		mu.Lock()
		n, req := calls-before, last
		mu.Unlock()
		vf.Case(fmt.Sprint(shape, handler, len(params), next.HCACK, fail != nil, len(next.ParameterAcks), named))
		if fn != 42 || got == nil || got.K != "L" || len(got.L) != 2 || got.L[0].K != "B" || len(got.L[0].I) != 1 || got.L[1].K != "L" {
			vf.Fail("answer", "S2F41 with %v is answered by function %d %x", body, fn, b)
			return
		}
		code := int(got.L[0].I[0])
		if !good || !handler {
			if n != 0 {
				vf.Fail("called", "the handler is called for %v", body)
			}
			if code == 0 || good && code != 1 {
				vf.Fail("refused", "%v (handler installed: %v) is answered %d", body, handler, code)
			}
			continue
		}
		if n != 1 {
			vf.Fail("once", "the handler is called %d times for %v", n, body)
			continue
		}
		if !rcIs(req.CommandID, cmd) {
			vf.Fail("command", "the handler is given the command %v (%T) for %v", req.CommandID, req.CommandID, body)
		}
		if req.Command != fmt.Sprint(req.CommandID) {
			vf.Fail("name", "the handler is given the name %q of the command %v", req.Command, req.CommandID)
		}
		if len(req.Parameters) != len(params) {
			vf.Fail("params", "%v: %d parameters are handed on, %d are well formed", body, len(req.Parameters), len(params))
		} else {
			for i, p := range req.Parameters {
				if !rcIs(p.Identifier, params[i].id) || p.Name != fmt.Sprint(p.Identifier) {
					vf.Fail("param", "%v: parameter %d is %q, %v", body, i, p.Name, p.Identifier)
				}
				if w := params[i].val; w == nil && len(valueBytes(p.Value)) != 0 || w != nil && string(valueBytes(p.Value)) != string(w.Encode()) {
					vf.Fail("value", "%v: parameter %d has the value %v", body, i, p.Value)
				}
			}
		}
		exp := int(next.HCACK)
		if exp > 6 {
			exp = 1
		}
		if fail != nil && exp == 0 {
			exp = 2
		}
		if !named {
			if code != 1 {
				vf.Fail("unnamed", "a result with a name that is no identifier is answered %d", code)
			}
			continue
		}
		if code != exp {
			vf.Fail("code", "the handler's %d (error: %v) is answered %d, want %d", next.HCACK, fail, code, exp)
		}
		if len(got.L[1].L) != len(next.ParameterAcks) {
			vf.Fail("acks", "%d parameter acknowledges become %v", len(next.ParameterAcks), got.L[1])
			continue
		}
		for i, e := range got.L[1].L {
			w := int64(next.ParameterAcks[i].Ack)
			if w < 1 || w > 63 {
				w = 1
			}
			if e.K != "L" || len(e.L) != 2 || !gIsID(e.L[0], keys[i]) || e.L[1].K != "B" || len(e.L[1].I) != 1 || e.L[1].I[0] != w {
				vf.Fail("ack", "the acknowledge %v becomes %v", next.ParameterAcks[i], e)
			}
		}
	}
}

func rcIs(v interface{}, id gID) bool {
	if id.isTxt {
		s, ok := v.(string)
		return ok && s == id.s
	}
	return fmt.Sprint(v) == fmt.Sprint(id.n)
}

func valueBytes(x ast.ItemNode) []byte {
	if x == nil {
		return nil
	}
	return x.ToBytes()
}
