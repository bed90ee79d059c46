package ast_test

import (
	"fmt"
	"testing"

	"github.com/younglifestyle/secs4go/lib-secs2-hsms-go/pkg/ast"
	"github.com/younglifestyle/secs4go/lib-secs2-hsms-go/pkg/parser/hsms"
	vf "github.com/younglifestyle/secs4go/zzvf"
)

// c07Scribble overwrites everything a caller can reach through v.
func c07Scribble(v interface{}) {
	switch s := v.(type) {
	case []byte:
		for i := range s {
			s[i] ^= 0xA5
		}
		c07Tail(cap(s) > len(s), func() { s = s[:cap(s)]; s[len(s)-1] ^= 0x5A })
	case []int:
		for i := range s {
			s[i] = 77
		}
	case []int64:
		for i := range s {
			s[i] = -77
		}
	case []uint64:
		for i := range s {
			s[i] = 77
		}
	case []float64:
		for i := range s {
			s[i] = 7.5
		}
	case []bool:
		for i := range s {
			s[i] = !s[i]
		}
	case []string:
		for i := range s {
			s[i] = "scribbled"
		}
	case []ast.ItemNode:
		for i := range s {
			s[i] = ast.NewASCIINode("scribbled")
		}
	case []interface{}:
		for i := range s {
			s[i] = "scribbled"
		}
	}
}

func c07Tail(b bool, f func()) {
	if b {
		f()
	}
}

func c07Item(n ast.ItemNode) string {
	s := fmt.Sprintf("%s|%d|%v|%x|%v", n.Type(), n.Size(), n.Variables(), n.ToBytes(), n)
	if l, ok := n.Values().([]ast.ItemNode); ok {
		for _, c := range l {
			s += "{" + c07Item(c) + "}"
		}
		return s
	}
	return s + fmt.Sprintf("|%#v", n.Values())
}

func c07Msg(m ast.HSMSMessage) string {
	s := fmt.Sprintf("%s %x %x", m.Type(), m.SystemBytes(), m.ToBytes())
	if d, ok := m.(*ast.DataMessage); ok {
		it, _ := d.Get()
		s += fmt.Sprintf(" %s %d %d %s %s %d %v %s", d.Name(), d.StreamCode(), d.FunctionCode(), d.WaitBit(), d.Direction(), d.SessionID(), d.Variables(), c07Item(it))
	}
	if c, ok := m.(*ast.ControlMessage); ok {
		s += fmt.Sprint(c.SessionID(), c.Status())
	}
	return s
}

func c07Touch(key string, n ast.ItemNode, what string) {
	before := c07Item(n)
	for k := 0; k < 6; k++ {
		var op string
		p := vf.Try(func() {
			switch vf.R.Intn(6) {
			case 0:
				op = "Values"
				c07Scribble(n.Values())
			case 1:
				op = "ToBytes"
				c07Scribble(n.ToBytes())
			case 2:
				op = "Variables"
				c07Scribble(n.Variables())
			case 3:
				op = "FillVariables"
				m := map[string]interface{}{"...": 1 + vf.R.Intn(3)}
				for _, v := range n.Variables() {
					if v != "..." && vf.R.Intn(3) > 0 {
						m[v] = []interface{}{"renamed" + fmt.Sprint(vf.R.Intn(1000)), 1, true, "0b11", ast.NewListNode()}[vf.R.Intn(5)]
					}
				}
				r := n.FillVariables(m)
				c07Scribble(r.Values())
				c07Scribble(r.Variables())
				c07Scribble(r.ToBytes())
				for k := range m {
					delete(m, k)
				}
			case 4:
				op = "String"
				_ = fmt.Sprint(n, n.Size(), n.Type())
			case 5:
				op = "Get"
				if n.Size() > 0 {
					if c, err := n.Get(vf.R.Intn(n.Size())); err == nil {
						c07Scribble(c.Values())
					}
				}
			}
		})
		_ = p
		if s := c07Item(n); s != before {
			vf.Fail(key, "%s: after %s the item is %s, it was %s", what, op, vf.Cut(s, 200), vf.Cut(before, 200))
			return
		}
	}
}

func TestVerifC07(t *testing.T) {
	var all []ast.HSMSMessage
	var snap, desc []string
	keep := func(m ast.HSMSMessage, d string) {
		all, snap, desc = append(all, m), append(snap, c07Msg(m)), append(desc, d)
	}
	for i := 0; i < vf.N(2500); i++ {
		it := vf.Gen(vf.R.Intn(4), []int{0, 60}[i%2], 6)
		vf.Case(it.String())
		// the argument slices belong to the caller
		var n ast.ItemNode
		switch it.K {
		case "I", "U", "F", "B", "BOOLEAN", "L":
			a := it.Args()
			switch it.K {
			case "I":
				n = ast.NewIntNode(it.W, a...)
			case "U":
				n = ast.NewUintNode(it.W, a...)
			case "F":
				n = ast.NewFloatNode(it.W, a...)
			case "B":
				n = ast.NewBinaryNode(a...)
			case "BOOLEAN":
				n = ast.NewBooleanNode(a...)
			default:
				n = ast.NewListNode(a...)
			}
			b := c07Item(n)
			c07Scribble(a)
			if s := c07Item(n); s != b {
				vf.Fail("args", "%s changes when the arguments it was made from are overwritten: %s", it, vf.Cut(s, 200))
			}
		default:
			n = it.Build()
		}
		if vf.R.Intn(8) == 0 && len(n.Variables()) == 0 {
			// lists with "..."
			n = ast.NewListNode(ast.NewASCIINodeVariable("a", 0, -1), ast.NewListNode(n, "x"), "...")
		}
		c07Touch("item", n, it.String())
		// messages
		sys := []byte{byte(i), byte(i >> 8), 3, 4, 5, 6}[:vf.R.Intn(7)]
		var m *ast.DataMessage
		if len(n.Variables()) == 0 && vf.R.Intn(2) == 0 {
			m = ast.NewHSMSDataMessage("m", 1, 1+2*vf.R.Intn(100), vf.R.Intn(2), "H<-E", n, vf.R.Intn(65536), sys)
		} else {
			m = ast.NewDataMessage("m", 1, 1+2*vf.R.Intn(100), vf.R.Intn(3), "H->E", n)
		}
		keep(m, "message")
		b := c07Msg(m)
		c07Scribble(sys)
		sys2 := []byte{9, 8, 7, 6}
		m2 := m.SetSessionIDAndSystemBytes(5, sys2)
		keep(m2, "SetSessionIDAndSystemBytes")
		b2 := c07Msg(m2)
		sys2[0] = 1
		m3 := m2.SetWaitBit(vf.R.Intn(2) == 0)
		keep(m3, "SetWaitBit")
		m4 := m3
		vf.Try(func() { m4 = m3.FillVariables(map[string]interface{}{"v1": 1, "...": 2}) })
		for _, q := range []*ast.DataMessage{m, m2, m3, m4} {
			c07Scribble(q.SystemBytes())
			c07Scribble(q.ToBytes())
			c07Scribble(q.Variables())
			x, _ := q.Get()
			c07Scribble(x.Values())
			_ = q.String()
			_ = q.SetSessionIDAndSystemBytes(6, []byte{1, 1, 1, 1})
			if q.WaitBit() != "optional" {
				_ = q.SetWaitBit(true)
			}
		}
		if s := c07Msg(m); s != b {
			vf.Fail("message", "message %s became %s", vf.Cut(b, 200), vf.Cut(s, 200))
		}
		if s := c07Msg(m2); s != b2 {
			vf.Fail("message", "message %s became %s", vf.Cut(b2, 200), vf.Cut(s, 200))
		}
		// decoded messages and the receive buffer
		if len(n.Variables()) == 0 && m3.WaitBit() != "optional" {
			buf := m3.ToBytes()
			if d, ok := hsms.Parse(buf); ok && d != nil {
				bd := c07Msg(d)
				for j := range buf {
					buf[j] ^= 0xFF
				}
				if s := c07Msg(d); s != bd {
					vf.Fail("buffer", "decoded message %s became %s when the buffer was overwritten", vf.Cut(bd, 200), vf.Cut(s, 200))
				}
				keep(d, "decoded")
			}
		}
		// control messages
		h := make([]byte, 10)
		vf.R.Read(h)
		h[4], h[5] = 0, []byte{1, 3, 5}[vf.R.Intn(3)]
		c := ast.NewHSMSControlMessage(h)
		bc := c07Msg(c)
		keep(c, "control")
		t0 := h[5]
		c07Scribble(h)
		var r ast.HSMSMessage
		switch t0 {
		case 1:
			r = ast.NewHSMSMessageSelectRsp(c, byte(i))
		case 3:
			r = ast.NewHSMSMessageDeselectRsp(c, byte(i))
		default:
			r = ast.NewHSMSMessageLinktestRsp(c)
		}
		keep(r, "response")
		br := c07Msg(r)
		r2 := ast.NewHSMSMessageRejectReqFromMsg(c, byte(1+vf.R.Intn(4)))
		sb := []byte{1, 2, 3, 4}
		r3 := ast.NewHSMSMessageSelectReq(7, sb)
		b3 := c07Msg(r3)
		sb[1] = 99
		for _, q := range []ast.HSMSMessage{r, r2, r3, c} {
			c07Scribble(q.SystemBytes())
			c07Scribble(q.ToBytes())
		}
		if s := c07Msg(c); s != bc {
			vf.Fail("control", "control message %s became %s", bc, s)
		}
		if s := c07Msg(r); s != br {
			vf.Fail("control", "control response %s became %s", br, s)
		}
		if s := c07Msg(r3); s != b3 {
			vf.Fail("control", "control request %s became %s", b3, s)
		}
		if len(all) > 400 {
			for j := range all {
				if s := c07Msg(all[j]); s != snap[j] {
					vf.Fail("later", "%s %s became %s", desc[j], vf.Cut(snap[j], 200), vf.Cut(s, 200))
				}
			}
			all, snap, desc = nil, nil, nil
		}
	}
	vf.Done("items and messages are re-read after every operation and after overwriting everything reachable from arguments, results and buffers")
}
