package ast_test

import (
	"bytes"
	"fmt"
	"testing"

	"github.com/younglifestyle/secs4go/lib-secs2-hsms-go/pkg/ast"
	vf "github.com/younglifestyle/secs4go/zzvf"
)

func c06Frame(h ...byte) []byte { return append([]byte{0, 0, 0, 10}, h...) }

var c06Types = map[byte]string{1: "select.req", 2: "select.rsp", 3: "deselect.req", 4: "deselect.rsp", 5: "linktest.req", 6: "linktest.rsp", 7: "reject.req", 9: "separate.req"}

func c06Type(h []byte) string {
	if h[4] != 0 || c06Types[h[5]] == "" {
		return "undefined"
	}
	return c06Types[h[5]]
}

func c06See(key, what string, f func() ast.HSMSMessage, want []byte) {
	vf.Case(what)
	var m ast.HSMSMessage
	p := vf.Try(func() { m = f() })
	if want == nil {
		if p == nil {
			vf.Fail(key, "%s is accepted (%v), must be refused by a panic", what, m.ToBytes())
		}
		return
	}
	if p != nil {
		vf.Fail(key, "%s panics: %v", what, p)
		return
	}
	h := want[4:]
	if !bytes.Equal(m.ToBytes(), want) || !bytes.Equal(m.SystemBytes(), h[6:]) || m.Type() != c06Type(h) {
		vf.Fail(key, "%s: frame %x system bytes %x type %s, want frame %x type %s", what, m.ToBytes(), m.SystemBytes(), m.Type(), want, c06Type(h))
	}
	c := m.(*ast.ControlMessage)
	if int(c.SessionID()) != int(h[0])<<8|int(h[1]) || c.Status() != h[3] {
		vf.Fail(key, "%s: session %d status %d of %x", what, c.SessionID(), c.Status(), want)
	}
}

func c06Reply(r ast.HSMSMessage, h []byte, st byte, d string) {
	want := func(t byte, s0, s1, b3 byte, of string) []byte {
		if h == nil || c06Type(h) != of {
			return nil
		}
		return c06Frame(s0, s1, 0, b3, 0, t, h[6], h[7], h[8], h[9])
	}
	var s0, s1 byte
	if h != nil {
		s0, s1 = h[0], h[1]
	}
	c06See("reply", fmt.Sprintf("SelectRsp(%s,%d)", d, st), func() ast.HSMSMessage { return ast.NewHSMSMessageSelectRsp(r, st) }, want(2, s0, s1, st, "select.req"))
	c06See("reply", fmt.Sprintf("DeselectRsp(%s,%d)", d, st), func() ast.HSMSMessage { return ast.NewHSMSMessageDeselectRsp(r, st) }, want(4, s0, s1, st, "deselect.req"))
	c06See("reply", fmt.Sprintf("LinktestRsp(%s)", d), func() ast.HSMSMessage { return ast.NewHSMSMessageLinktestRsp(r) }, want(6, 255, 255, 0, "linktest.req"))
	var w []byte
	if h != nil {
		b2 := h[5]
		if st == 2 {
			b2 = h[4]
		}
		w = c06Frame(h[0], h[1], b2, st, 0, 7, h[6], h[7], h[8], h[9])
	}
	c06See("reply", fmt.Sprintf("RejectReqFromMsg(%s,%d)", d, st), func() ast.HSMSMessage { return ast.NewHSMSMessageRejectReqFromMsg(r, st) }, w)
}

func TestVerifC06(t *testing.T) {
	dm := ast.NewDataMessage("x", 1, 1, 1, "H->E", ast.NewEmptyItemNode())
	for st := 0; st < 256; st++ {
		c06Reply(dm, nil, byte(st), "data message")
	}
	for i := 0; i < vf.N(20000); i++ {
		ses := uint16(vf.R.Intn(65536))
		if vf.R.Intn(6) == 0 {
			ses = []uint16{0, 1, 255, 256, 65535, 0x00ff, 0xff00, 0x8000}[vf.R.Intn(8)]
		}
		sys := make([]byte, 4+vf.R.Intn(2)*vf.R.Intn(4))
		vf.R.Read(sys)
		if vf.R.Intn(20) == 0 {
			sys = sys[:vf.R.Intn(4)]
		}
		s0, s1 := byte(ses>>8), byte(ses)
		fr := func(a, b, b2, b3, ty byte) []byte {
			if len(sys) < 4 {
				return nil
			}
			return c06Frame(a, b, b2, b3, 0, ty, sys[0], sys[1], sys[2], sys[3])
		}
		d := fmt.Sprintf("(%d,%x)", ses, sys)
		c06See("request", "SelectReq"+d, func() ast.HSMSMessage { return ast.NewHSMSMessageSelectReq(ses, sys) }, fr(s0, s1, 0, 0, 1))
		c06See("request", "DeselectReq"+d, func() ast.HSMSMessage { return ast.NewHSMSMessageDeselectReq(ses, sys) }, fr(s0, s1, 0, 0, 3))
		c06See("request", "SeparateReq"+d, func() ast.HSMSMessage { return ast.NewHSMSMessageSeparateReq(ses, sys) }, fr(s0, s1, 0, 0, 9))
		c06See("request", "LinktestReq"+d, func() ast.HSMSMessage { return ast.NewHSMSMessageLinktestReq(sys) }, fr(255, 255, 0, 0, 5))
		pt, sty, rc := byte(vf.R.Intn(256)), byte(vf.R.Intn(256)), byte(vf.R.Intn(256))
		if vf.R.Intn(2) == 0 {
			rc = byte(vf.R.Intn(6))
		}
		b2 := sty
		if rc == 2 {
			b2 = pt
		}
		c06See("request", fmt.Sprintf("RejectReq%s pType %d sType %d reason %d", d, pt, sty, rc), func() ast.HSMSMessage { return ast.NewHSMSMessageRejectReq(ses, pt, sty, sys, rc) }, fr(s0, s1, b2, rc, 7))
		// raw headers
		raw := make([]byte, 10)
		vf.R.Read(raw)
		if vf.R.Intn(4) > 0 {
			raw[4] = 0
			raw[5] = byte(vf.R.Intn(11))
		}
		n := 10
		if vf.R.Intn(5) == 0 {
			n = vf.R.Intn(16)
		}
		in := append(append([]byte{}, raw...), 9, 9, 9, 9, 9, 9)[:n]
		want := make([]byte, 10)
		copy(want, in)
		c06See("raw", fmt.Sprintf("ControlMessage(%x)", in), func() ast.HSMSMessage { return ast.NewHSMSControlMessage(in) }, c06Frame(want...))
		if m := ast.NewHSMSControlMessage(raw); true {
			st := byte(vf.R.Intn(256))
			if vf.R.Intn(2) == 0 {
				st = byte(vf.R.Intn(4))
			}
			c06Reply(m, raw, st, fmt.Sprintf("raw %x", raw))
		}
	}
	for _, s := range []byte{0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 255} {
		for p := 0; p < 256; p++ {
			raw := []byte{1, 2, 3, 4, byte(p), s, 5, 6, 7, 8}
			c06Reply(ast.NewHSMSControlMessage(raw), raw, byte(p), fmt.Sprintf("raw %x", raw))
		}
	}
	vf.Done("every constructor with random and boundary sessions, system bytes, status and reason codes; replies to random headers; distinct by printed call")
}
