package codec_test

import (
	"bytes"
	"encoding/binary"
	"errors"
	"fmt"
	"io"
	"math"
	"testing"

	link "github.com/younglifestyle/secs4go"
	"github.com/younglifestyle/secs4go/codec"
	vf "github.com/younglifestyle/secs4go/zzvf"
)

type c10Conn struct {
	in, out []byte
	pos     int
	piece   int
	calls   int
	werr    error
}

func (c *c10Conn) Read(p []byte) (int, error) {
	if c.pos >= len(c.in) {
		return 0, io.EOF
	}
	n := len(p)
	if c.piece > 0 && n > c.piece {
		n = c.piece
	}
	n = copy(p[:n], c.in[c.pos:])
	c.pos += n
	return n, nil
}

func (c *c10Conn) Write(p []byte) (int, error) {
	c.calls++
	if c.werr != nil {
		return 0, c.werr
	}
	c.out = append(c.out, p...)
	return len(p), nil
}

type c10Raw struct{ rw io.ReadWriter }

type c10Proto struct{}

func (c10Proto) NewCodec(rw io.ReadWriter) (link.Codec, error) { return &c10Raw{rw}, nil }
func (r *c10Raw) Receive() (interface{}, error) {
	b, err := io.ReadAll(r.rw)
	return b, err
}
func (r *c10Raw) Send(m interface{}) error {
	if e, ok := m.(error); ok {
		return e
	}
	b := m.([]byte)
	for len(b) > 0 { // in several writes
		k := 1 + vf.R.Intn(len(b))
		if _, err := r.rw.Write(b[:k]); err != nil {
			return err
		}
		b = b[k:]
	}
	return nil
}
func (r *c10Raw) Close() error { return nil }

func c10Enc(n int, o binary.ByteOrder, v uint64) []byte {
	b := make([]byte, n)
	switch n {
	case 1:
		b[0] = byte(v)
	case 2:
		o.PutUint16(b, uint16(v))
	case 4:
		o.PutUint32(b, uint32(v))
	case 8:
		o.PutUint64(b, v)
	}
	return b
}

func c10Lim(n, max int) int {
	w := map[int]int{1: math.MaxUint8, 2: math.MaxUint16, 4: math.MaxUint32, 8: math.MaxInt64}[n]
	if max > w {
		return w
	}
	return max
}

func TestVerifC10(t *testing.T) {
	for _, n := range []int{-1, 0, 3, 5, 6, 7, 9, 16} {
		if p := vf.Try(func() { codec.FixLen(c10Proto{}, n, binary.BigEndian, 1, 1) }); p == nil {
			vf.Fail("width", "FixLen accepts a header of %d bytes", n)
		}
		vf.Case("bad width")
	}
	lims := []int{0, 1, 5, 100, 254, 255, 256, 300, 65534, 65535, 65536, 70000, 1 << 20, math.MaxUint32, math.MaxUint32 + 5}
	for _, v := range vf.Ints {
		lims = append(lims, int(v))
	}
	sizes := []int{0, 1, 2, 4, 5, 6, 99, 100, 101, 127, 128, 129, 253, 254, 255, 256, 257, 299, 300, 301, 511, 512, 65533, 65534, 65535, 65536, 65537, 69999, 70000, 70001}
	for _, n := range []int{1, 2, 4, 8} {
		for _, o := range []binary.ByteOrder{binary.BigEndian, binary.LittleEndian} {
			for _, l := range lims {
				if l > 1<<33 || l < -1<<33 {
					continue
				}
				other := lims[vf.R.Intn(8)]
				cfg := fmt.Sprintf("FixLen(%d, %v, limit %d, other limit %d)", n, o, l, other)
				sc := &c10Conn{piece: vf.R.Intn(7)}
				cs, err := codec.FixLen(c10Proto{}, n, o, other, l).NewCodec(sc)
				if err != nil {
					t.Fatal(err)
				}
				lim := c10Lim(n, l)
				all := append([]int{}, sizes...)
				for d := -2; d <= 2; d++ {
					if lim+d >= 0 && lim+d < 1<<21 {
						all = append(all, lim+d)
					}
				}
				for _, z := range all {
					b := make([]byte, z)
					vf.R.Read(b)
					sc.out, sc.calls, sc.werr = nil, 0, nil
					var err error
					if p := vf.Try(func() { err = cs.Send(b) }); p != nil {
						vf.Fail("sendpanic", "%s: sending %d bytes panicked: %v", cfg, z, p)
						continue
					}
					want := z <= lim
					if want != (err == nil) || !want && len(sc.out) > 0 {
						vf.Fail("sendlimit", "%s: sending %d bytes reports %v and writes %d bytes", cfg, z, err, len(sc.out))
					} else if want && !bytes.Equal(sc.out, append(c10Enc(n, o, uint64(z)), b...)) {
						vf.Fail("sendbytes", "%s: sending %d bytes writes %s", cfg, z, vf.Cut(fmt.Sprintf("% x", sc.out), 80))
					}
					vf.Case("send")
					if want {
						sc.werr = errors.New("broken")
						if err := cs.Send(b); err == nil {
							vf.Fail("senderr", "%s: a failed write is not reported", cfg)
						}
						sc.werr = nil
					}
				}
				if err := cs.Send(errors.New("base refuses")); err == nil || len(sc.out) > 0 && sc.calls == 0 {
					vf.Fail("senderr", "%s: the error of the wrapped codec is not reported", cfg)
				}
				// receiving: the connection holds the header, what it announces and more
				heads := []uint64{0, 1, 5, 99, 100, 101, 254, 255, 256, 300, 65535, 65536, 70000, 70001, uint64(lim - 1), uint64(lim), uint64(lim + 1), 1 << 31, 1<<32 - 1, 1 << 32, 1<<63 - 1, 1 << 63, 1<<63 + 5, 1<<64 - 1, 1<<64 - 128}
				rc := &c10Conn{}
				cr, err := codec.FixLen(c10Proto{}, n, o, l, other).NewCodec(rc)
				if err != nil {
					t.Fatal(err)
				}
				for _, h := range heads {
					if n < 8 && h >= 1<<uint(8*n) {
						continue
					}
					want := h <= uint64(math.MaxInt64) && int64(h) <= int64(lim)
					if want && h > 1<<21 {
						continue // would allocate
					}
					var body []byte
					if want {
						body = make([]byte, h)
						vf.R.Read(body)
					}
					rc.in, rc.pos, rc.piece = append(append(c10Enc(n, o, h), body...), 9, 9, 9), 0, vf.R.Intn(3000)
					var m interface{}
					var err error
					if p := vf.Try(func() { m, err = cr.Receive() }); p != nil {
						vf.Fail("recvpanic", "%s: a header announcing %d panicked: %v", cfg, h, p)
						continue
					}
					if want != (err == nil) {
						vf.Fail("recvlimit", "%s: a header announcing %d reports %v", cfg, h, err)
						continue
					}
					if want {
						if b, ok := m.([]byte); !ok || !bytes.Equal(b, body) || rc.pos != n+len(body) {
							vf.Fail("recvbytes", "%s: a header announcing %d consumed %d bytes and returned other bytes", cfg, h, rc.pos)
						}
					} else if rc.pos > n {
						vf.Fail("recvbytes", "%s: a refused header announcing %d consumed %d bytes", cfg, h, rc.pos)
					}
					vf.Case("receive")
					if want && h > 0 { // ends early
						rc.in, rc.pos = rc.in[:n+int(h)-1], 0
						if _, err := cr.Receive(); err == nil {
							vf.Fail("early", "%s: a packet announcing %d bytes cut short is accepted", cfg, h)
						}
					}
				}
			}
		}
	}
	vf.Done("every header width and byte order with limits around the width's largest value, payloads and announced lengths around the limits, over scripted connections")
}
