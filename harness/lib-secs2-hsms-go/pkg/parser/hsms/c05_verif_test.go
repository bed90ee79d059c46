package hsms_test

import (
	"bytes"
	"fmt"
	"testing"

	"github.com/younglifestyle/secs4go/lib-secs2-hsms-go/pkg/ast"
	"github.com/younglifestyle/secs4go/lib-secs2-hsms-go/pkg/parser/hsms"
	vf "github.com/younglifestyle/secs4go/zzvf"
)

// c05Data encodes and decodes a data message with this item (nil: no item).
func c05Data(it *vf.Item, why string) {
	st, fn, sess := vf.R.Intn(128), vf.R.Intn(256), vf.R.Intn(65536)
	wait := 0
	if fn%2 == 1 {
		wait = vf.R.Intn(2)
	}
	switch vf.R.Intn(8) {
	case 0:
		st, sess = 127, 65535
	case 1:
		st, fn, wait, sess = 0, 0, 0, 0
	case 2:
		sess = 32768 + vf.R.Intn(256)
	}
	sys := make([]byte, 4)
	vf.R.Read(sys)
	desc := fmt.Sprintf("S%dF%d wait %d session %d system bytes %x item %s (%s)", st, fn, wait, sess, sys, vf.Cut(fmt.Sprint(it), 300), why)
	vf.Case(why)
	p := vf.Try(func() {
		var node ast.ItemNode = ast.NewEmptyItemNode()
		if it != nil {
			node = it.Build()
		}
		var m *ast.DataMessage
		switch vf.R.Intn(3) {
		case 0:
			m = ast.NewHSMSDataMessage("", st, fn, wait, "H<->E", node, sess, sys)
		case 1:
			m = ast.NewDataMessage("", st, fn, wait, "H->E", node).SetSessionIDAndSystemBytes(sess, sys)
		default:
			if fn%2 == 0 {
				m = ast.NewHSMSDataMessage("", st, fn, wait, "H<-E", node, sess, sys)
			} else {
				m = ast.NewDataMessage("", st, fn, 2, "H<->E", node).SetWaitBit(wait == 1).SetSessionIDAndSystemBytes(sess, sys)
			}
		}
		b := m.ToBytes()
		if len(b) < 14 {
			vf.Fail("encode", "%s encodes to %d bytes", desc, len(b))
			return
		}
		r, ok := hsms.Parse(b)
		if !ok {
			vf.Fail("decode", "%s: its %d bytes are refused: % x", desc, len(b), b[:14])
			return
		}
		d, isD := r.(*ast.DataMessage)
		if !isD {
			vf.Fail("decode", "%s comes back as %T", desc, r)
			return
		}
		wb := "false"
		if wait == 1 {
			wb = "true"
		}
		if d.StreamCode() != st || d.FunctionCode() != fn || d.WaitBit() != wb || d.SessionID() != sess || !bytes.Equal(d.SystemBytes(), sys) {
			vf.Fail("header", "%s comes back as S%dF%d wait %s session %d system bytes %x", desc, d.StreamCode(), d.FunctionCode(), d.WaitBit(), d.SessionID(), d.SystemBytes())
			return
		}
		x, err := d.Get()
		if it == nil {
			if err == nil && x != nil && x.Type() != "empty" {
				vf.Fail("item", "%s comes back with an item %s", desc, x.Type())
			}
		} else if err != nil {
			vf.Fail("item", "%s comes back with no item: %v", desc, err)
		} else if s := vf.Same(x, it); s != "" {
			vf.Fail("item", "%s comes back with another item: %s", desc, s)
		}
		if c := d.ToBytes(); !bytes.Equal(b, c) {
			vf.Fail("again", "%s: what comes back encodes to other bytes (%d, first %d)", desc, len(c), len(b))
		}
	})
	if p != nil {
		vf.Fail("panic", "%s panicked: %v", desc, p)
	}
}

func c05Control(m ast.HSMSMessage, why string) {
	vf.Case("control " + why)
	b := m.ToBytes()
	r, ok := hsms.Parse(b)
	if !ok {
		vf.Fail("control", "%s %x is refused", why, b)
		return
	}
	if r.Type() != m.Type() || !bytes.Equal(r.SystemBytes(), m.SystemBytes()) || !bytes.Equal(r.ToBytes(), b) {
		vf.Fail("control", "%s %x comes back as %s %x", why, b, r.Type(), r.ToBytes())
	}
}

func TestVerifC05(t *testing.T) {
	c05Data(nil, "no item")
	// every kind around the lengths where the header or the values change
	for _, n := range []int{0, 1, 2, 3, 7, 127, 128, 200, 255, 256, 257, 511, 512, 32767, 32768, 65535, 65536, 70000} {
		for _, k := range []string{"A", "B", "BOOLEAN", "I1", "I2", "I4", "I8", "U1", "U2", "U4", "U8", "F4", "F8"} {
			w := 0
			kind := k
			if len(k) == 2 {
				kind, w = k[:1], int(k[1]-'0')
			}
			c05Data(vf.Big(kind, w, n), k)
			if w > 1 {
				c05Data(vf.Big(kind, w, n/w), k)
				c05Data(vf.Big(kind, w, n/w+1), k)
			}
		}
		l := &vf.Item{K: "L"}
		for i := 0; i < n; i++ {
			l.L = append(l.L, vf.Gen(0, 0, 2))
		}
		c05Data(l, "L")
	}
	for i := 0; i < vf.N(60000); i++ {
		c05Data(vf.Gen(1+vf.R.Intn(5), 0, 12), "random")
	}
	for i := 0; i < vf.N(300); i++ {
		c05Data(vf.Gen(1+vf.R.Intn(3), 0, 400), "long")
	}
	for _, depth := range []int{10, 100, 1000, 4000, 4096} {
		it := &vf.Item{K: "U", W: 1, U: []uint64{7}, Vars: map[int]string{}}
		for i := 0; i < depth; i++ {
			it = &vf.Item{K: "L", L: []*vf.Item{it}}
		}
		c05Deep(it, depth)
	}
	for i := 0; i < vf.N(3000); i++ {
		s := uint16(vf.R.Intn(65536))
		sys := make([]byte, 4)
		vf.R.Read(sys)
		sel, des, lt := ast.NewHSMSMessageSelectReq(s, sys), ast.NewHSMSMessageDeselectReq(s, sys), ast.NewHSMSMessageLinktestReq(sys)
		st := byte(vf.R.Intn(256))
		c05Control(sel, "select.req")
		c05Control(des, "deselect.req")
		c05Control(lt, "linktest.req")
		c05Control(ast.NewHSMSMessageSeparateReq(s, sys), "separate.req")
		c05Control(ast.NewHSMSMessageSelectRsp(sel, st), "select.rsp")
		c05Control(ast.NewHSMSMessageDeselectRsp(des, st), "deselect.rsp")
		c05Control(ast.NewHSMSMessageLinktestRsp(lt), "linktest.rsp")
		h := make([]byte, 10)
		vf.R.Read(h)
		h[4], h[5] = 0, []byte{1, 2, 3, 4, 5, 6, 7, 9}[vf.R.Intn(8)]
		c05Control(ast.NewHSMSControlMessage(h), "raw header")
	}
	vf.Done("each case encodes a message of the real library, decodes the bytes with hsms.Parse and compares header, item (kind, width, length, values, depth) and the re-encoded bytes")
}

// c05Deep: nested lists, compared by their bytes (an item has exactly one encoding).
func c05Deep(it *vf.Item, depth int) {
	vf.Case("deep")
	p := vf.Try(func() {
		b := ast.NewHSMSDataMessage("", 1, 1, 0, "H<->E", it.Build(), 1, []byte{1, 2, 3, 4}).ToBytes()
		r, ok := hsms.Parse(b)
		if !ok || !bytes.Equal(r.ToBytes(), b) {
			vf.Fail("deep", "%d nested lists do not come back (accepted %v)", depth, ok)
		}
	})
	if p != nil {
		vf.Fail("panic", "%d nested lists panicked: %v", depth, p)
	}
}
