package hsms_test

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"testing"

	"github.com/younglifestyle/secs4go/lib-secs2-hsms-go/pkg/ast"
	"github.com/younglifestyle/secs4go/lib-secs2-hsms-go/pkg/parser/hsms"
	vf "github.com/younglifestyle/secs4go/zzvf"
)

func c04Frame(hdr []byte, text []byte) []byte {
	b := make([]byte, 4, 14+len(text))
	binary.BigEndian.PutUint32(b, uint32(10+len(text)))
	return append(append(b, hdr...), text...)
}

func c04Header() []byte {
	h := make([]byte, 10)
	vf.R.Read(h)
	h[4] = 0
	h[5] = 0
	if h[3]%2 == 0 && vf.R.Intn(4) > 0 {
		h[2] &= 0x7f
	}
	return h
}

// c04Check compares hsms.Parse with the reference decoder.
func c04Check(b []byte, why string) {
	want := false
	var item *vf.Item
	if len(b) >= 14 && binary.BigEndian.Uint32(b) == uint32(len(b)-4) && b[8] == 0 {
		switch {
		case b[9] == 0:
			want = len(b) == 14
			if !want {
				item = vf.Decode(b[14:])
				want = item != nil
			}
			if b[6] >= 128 && b[7]%2 == 0 {
				want = false
			}
		case b[9] <= 7 || b[9] == 9:
			want = true
		}
	}
	show := vf.Cut(fmt.Sprintf("% x", b), 400)
	keep := append([]byte{}, b...)
	var m ast.HSMSMessage
	var ok bool
	if p := vf.Try(func() { m, ok = hsms.Parse(b) }); p != nil {
		vf.Fail("panic", "Parse(%s) (%s) panicked: %v", show, why, p)
		return
	}
	if !bytes.Equal(keep, b) {
		vf.Fail("input", "Parse(%s) (%s) changed its input", show, why)
		return
	}
	if ok != want {
		vf.Fail("accept", "Parse(%s) (%s, %d bytes) reports %v, want %v", show, why, len(b), ok, want)
		return
	}
	if !ok {
		vf.Case("refused " + why)
		return
	}
	vf.Case("accepted " + why)
	if b[9] != 0 {
		c, isC := m.(*ast.ControlMessage)
		if !isC {
			vf.Fail("control", "Parse(%s) gives %T, want a control message", show, m)
		} else if !bytes.Equal(c.ToBytes(), b[:14]) && len(b) == 14 {
			vf.Fail("control", "Parse(%s) gives the header % x", show, c.ToBytes())
		}
		return
	}
	d, isD := m.(*ast.DataMessage)
	if !isD {
		vf.Fail("header", "Parse(%s) gives %T, want a data message", show, m)
		return
	}
	wb := "false"
	if b[6] >= 128 {
		wb = "true"
	}
	if d.StreamCode() != int(b[6]&127) || d.FunctionCode() != int(b[7]) || d.WaitBit() != wb || d.SessionID() != int(b[4])<<8|int(b[5]) || !bytes.Equal(d.SystemBytes(), b[10:14]) {
		vf.Fail("header", "Parse(%s) gives S%dF%d wait %s session %d system bytes %x", show, d.StreamCode(), d.FunctionCode(), d.WaitBit(), d.SessionID(), d.SystemBytes())
		return
	}
	it, err := d.Get()
	if item == nil {
		if err == nil && it != nil && it.Type() != "empty" && len(it.ToBytes()) != 0 {
			vf.Fail("text", "Parse(%s) gives the item %v for an empty text", show, it)
		}
		return
	}
	if err != nil {
		vf.Fail("text", "Parse(%s): Get reports %v", show, err)
	} else if s := vf.Same(it, item); s != "" {
		vf.Fail("text", "Parse(%s) (%s) gives another item: %s", show, why, s)
	}
}

func c04Nest(depth int) []byte {
	b := make([]byte, 0, 2*depth+2)
	for i := 0; i < depth; i++ {
		b = append(b, 1, 1)
	}
	return append(b, 0xA5, 1, 7)
}

func TestVerifC04(t *testing.T) {
	// every short text: one and two bytes, and all format bytes with short bodies
	for a := 0; a < 256; a++ {
		c04Check(c04Frame(c04Header(), []byte{byte(a)}), "one byte")
		for n := 0; n < 12; n++ {
			for nl := 0; nl < 4; nl++ {
				for over := -1; over <= 1; over++ {
					body := make([]byte, n)
					vf.R.Read(body)
					if n > 0 && vf.R.Intn(2) == 0 {
						body[0] = []byte{0, 1, 0x7f, 0x80, 0xff}[vf.R.Intn(5)]
					}
					l := n + over
					if l < 0 {
						continue
					}
					t := []byte{byte(a&^3 | nl)}
					for i := nl - 1; i >= 0; i-- {
						t = append(t, byte(l>>(8*uint(i))))
					}
					if a&3 == 0 {
						c04Check(c04Frame(c04Header(), append(t, body...)), "short body")
					}
				}
			}
		}
	}
	// lists of items, cut short, extended or with one byte changed
	n := vf.N(4000)
	for i := 0; i < n; i++ {
		size := 6
		if i%40 == 0 {
			size = 300
		}
		it := vf.Gen(vf.R.Intn(4), 0, size)
		text := it.Encode()
		c04Check(c04Frame(c04Header(), text), "valid")
		for k := 0; k < 3 && len(text) > 0; k++ {
			m := append([]byte{}, text...)
			j := vf.R.Intn(len(m))
			if vf.R.Intn(2) == 0 && j > 6 {
				j = vf.R.Intn(6)
			}
			switch vf.R.Intn(3) {
			case 0:
				m[j] ^= 1 << uint(vf.R.Intn(8))
			case 1:
				m[j] = byte(vf.R.Intn(256))
			case 2:
				m[j] += byte(1 - 2*vf.R.Intn(2))
			}
			c04Check(c04Frame(c04Header(), m), "one byte changed")
		}
		if len(text) > 0 {
			cut := text[:vf.R.Intn(len(text))]
			c04Check(c04Frame(c04Header(), cut), "cut short")
			// the bytes cut off still lie behind the end of the slice
			f := c04Frame(c04Header(), text)
			k := 1 + vf.R.Intn(len(text))
			f = f[:len(f)-k]
			binary.BigEndian.PutUint32(f, uint32(len(f)-4))
			c04Check(f, "cut short with the rest behind")
		}
		ext := append(append([]byte{}, text...), byte(vf.R.Intn(256)))
		c04Check(c04Frame(c04Header(), ext), "one byte more")
		c04Check(c04Frame(c04Header(), append(append([]byte{}, text...), 0x01, 0x00)), "one item more")
	}
	// numbers whose length does not match the width, values at the edges
	for _, fc := range []int{24, 25, 26, 28, 32, 36, 40, 41, 42, 44} {
		for l := 0; l <= 40; l++ {
			for _, fill := range []byte{0, 0x7f, 0x80, 0xff, 0x7e} {
				body := bytes.Repeat([]byte{fill}, l)
				c04Check(c04Frame(c04Header(), append([]byte{byte(fc<<2 | 1), byte(l)}, body...)), "numbers")
				if l > 1 && fill != 0 {
					body[vf.R.Intn(l)] ^= 0x81
					c04Check(c04Frame(c04Header(), append([]byte{byte(fc<<2 | 2), 0, byte(l)}, body...)), "numbers")
				}
			}
		}
	}
	// long items: two and three length bytes
	for _, l := range []int{255, 256, 257, 511, 512, 65535, 65536, 65537, 70000} {
		for _, fc := range []int{8, 9, 16, 25, 26, 28, 24, 41, 42, 44, 40, 36, 32} {
			body := make([]byte, l)
			for i := range body {
				body[i] = byte(i * 7 % 128)
			}
			t := append([]byte{byte(fc<<2 | 3), byte(l >> 16), byte(l >> 8), byte(l)}, body...)
			c04Check(c04Frame(c04Header(), t), "long")
			c04Check(c04Frame(c04Header(), t[:len(t)-1]), "long cut short")
			if l < 65536 {
				t := append([]byte{byte(fc<<2 | 2), byte(l >> 8), byte(l)}, body...)
				c04Check(c04Frame(c04Header(), t), "long")
			}
		}
		big := vf.Big("L", 1, l).Encode()
		c04Check(c04Frame(c04Header(), big), "long list")
		c04Check(c04Frame(c04Header(), big[:len(big)-2]), "long list cut short")
	}
	// many elements, none like another
	for _, l := range []int{131072, 262144, 1 << 20} {
		for _, fc := range []int{8, 16, 25, 26, 28, 24, 41, 42, 44, 40, 36, 32} {
			body := make([]byte, l)
			vf.R.Read(body)
			if fc == 16 || fc == 36 || fc == 32 {
				for i := range body {
					body[i] &= 0x3f
				}
			}
			c04Check(c04Frame(c04Header(), append([]byte{byte(fc<<2 | 3), byte(l >> 16), byte(l >> 8), byte(l)}, body...)), "many")
		}
	}
	// nesting
	for _, d := range []int{1, 2, 100, 4095, 4096, 4097, 100000} {
		c04Check(c04Frame(c04Header(), c04Nest(d)), "nested")
	}
	for _, d := range []int{4095, 4096} { // side by side: depth must go down again
		in := c04Nest(d - 1)
		c04Check(c04Frame(c04Header(), append(append([]byte{1, 2}, in...), in...)), "nested side by side")
		c04Check(c04Frame(c04Header(), append(append([]byte{1, 2}, in...), c04Nest(d)...)), "nested side by side")
	}
	// headers and frame lengths
	for st := 0; st < 256; st++ {
		for pt := 0; pt < 3; pt++ {
			h := c04Header()
			h[4], h[5] = byte(pt*127), byte(st)
			c04Check(c04Frame(h, nil), "header")
			c04Check(c04Frame(h, []byte{0x01, 0x00}), "header with text")
		}
	}
	for l := 0; l < 40; l++ {
		for d := -3; d <= 3; d++ {
			b := make([]byte, l, l+8)
			vf.R.Read(b)
			if l >= 4 {
				binary.BigEndian.PutUint32(b, uint32(l-4+d))
			}
			if l >= 14 {
				h := c04Header()
				copy(b[4:], h)
			}
			c04Check(b, "frame length")
			if l >= 4 {
				binary.BigEndian.PutUint32(b, uint32(l-4)+1<<uint(8*(d+4)%32))
				c04Check(b, "frame length")
			}
		}
	}
	m := vf.N(20000)
	for i := 0; i < m; i++ {
		b := make([]byte, vf.R.Intn(30))
		vf.R.Read(b)
		for j := range b {
			if vf.R.Intn(3) == 0 {
				b[j] = byte(vf.R.Intn(3))
			}
		}
		c04Check(b, "random")
		c04Check(c04Frame(c04Header(), b), "random text")
	}
	vf.Done("hsms.Parse was compared with an independent decoder on valid frames, frames with a byte changed, frames cut short or extended, random bytes, every format byte with short bodies, all header types, nesting up to and beyond the limit")
}
