package codec_test

import (
	"bytes"
	"encoding/binary"
	"errors"
	"fmt"
	"io"
	"testing"

	link "github.com/younglifestyle/secs4go"
	"github.com/younglifestyle/secs4go/codec"
	"github.com/younglifestyle/secs4go/lib-secs2-hsms-go/pkg/ast"
	"github.com/younglifestyle/secs4go/lib-secs2-hsms-go/pkg/parser/hsms"
	vf "github.com/younglifestyle/secs4go/zzvf"
)

var errC09 = errors.New("link broken")

// c09Conn delivers a byte stream in pieces and fails at its end; it records what is written.
type c09Conn struct {
	in    []byte
	pos   int
	piece int
	err   error
	out   []byte
	calls int
	werr  error
	short bool
}

func (c *c09Conn) Read(p []byte) (int, error) {
	if c.pos == len(c.in) {
		return 0, c.err
	}
	n := len(p)
	if c.piece > 0 && n > c.piece {
		n = 1 + vf.R.Intn(c.piece)
	}
	if n > len(c.in)-c.pos {
		n = len(c.in) - c.pos
	}
	copy(p, c.in[c.pos:c.pos+n])
	c.pos += n
	if c.pos == len(c.in) && vf.R.Intn(2) == 0 {
		return n, c.err // data and error together
	}
	return n, nil
}

func (c *c09Conn) Write(p []byte) (int, error) {
	c.calls++
	if c.werr != nil {
		n := len(p) / 2
		c.out = append(c.out, p[:n]...)
		return n, c.werr
	}
	c.out = append(c.out, p...)
	return len(p), nil
}

type c09M struct {
	bytes []byte
	ok    bool
}

func c09Frame(size int) []byte {
	h := make([]byte, 10)
	vf.R.Read(h)
	h[4], h[5] = 0, 0
	if h[3]%2 == 0 {
		h[2] &= 0x7f
	}
	if vf.R.Intn(3) == 0 {
		h[5] = []byte{1, 2, 3, 4, 5, 6, 7, 9}[vf.R.Intn(8)]
	}
	var text []byte
	if h[5] == 0 {
		text = vf.Gen(vf.R.Intn(3), 0, size).Encode()
	}
	b := make([]byte, 4)
	binary.BigEndian.PutUint32(b, uint32(10+len(text)))
	return append(append(b, h...), text...)
}

func c09Show(m interface{}) string {
	switch v := m.(type) {
	case *ast.DataMessage:
		return fmt.Sprintf("data % x %v", v.ToBytes(), v)
	case *ast.ControlMessage:
		return fmt.Sprintf("control % x", v.ToBytes())
	case nil:
		return "nothing"
	}
	return fmt.Sprintf("%T", m)
}

func TestVerifC09(t *testing.T) {
	mk := func(c *c09Conn) link.Codec {
		cd, err := codec.SECSII().NewCodec(c)
		if err != nil {
			t.Fatal(err)
		}
		return cd
	}
	// streams of frames, some malformed, cut anywhere
	for i := 0; i < vf.N(3000); i++ {
		var in []byte
		var fs [][]byte
		n := 1 + vf.R.Intn(5)
		for k := 0; k < n; k++ {
			size := 5
			if vf.R.Intn(30) == 0 {
				size = 400
			}
			f := c09Frame(size)
			switch vf.R.Intn(8) {
			case 0: // text damaged
				if len(f) > 14 {
					f[14] ^= byte(1 + vf.R.Intn(255))
				}
			case 1:
				f[8] = byte(vf.R.Intn(3))
			case 2: // announces one more byte than the item has
				f = append(f, byte(vf.R.Intn(256)))
				binary.BigEndian.PutUint32(f, uint32(len(f)-4))
			}
			fs = append(fs, f)
			in = append(in, f...)
		}
		end := len(in)
		if vf.R.Intn(2) == 0 {
			end = vf.R.Intn(len(in) + 1)
		}
		c := &c09Conn{in: in[:end], piece: vf.R.Intn(6), err: []error{io.EOF, errC09}[vf.R.Intn(2)]}
		cd := mk(c)
		at := 0
		var kept []interface{}
		var shows []string
		for k := 0; k <= n; k++ {
			var m interface{}
			var err error
			desc := fmt.Sprintf("stream % x cut at %d of %d, receive number %d", vf.Cut(fmt.Sprintf("% x", in), 300), end, len(in), k+1)
			if p := vf.Try(func() { m, err = cd.Receive() }); p != nil {
				vf.Fail("panic", "%s panicked: %v", desc, p)
				break
			}
			if k == n || end < at+len(fs[k]) {
				if err == nil {
					vf.Fail("early", "%s: the connection ended inside the frame, yet a message was returned: %s", desc, c09Show(m))
				}
				if c.pos != end {
					vf.Fail("consumed", "%s: consumed up to %d, the connection ended at %d", desc, c.pos, end)
				}
				vf.Case("connection ended")
				break
			}
			at += len(fs[k])
			want, ok := hsms.Parse(append([]byte{}, fs[k]...))
			if ok != (err == nil) {
				vf.Fail("error", "%s: frame % x well formed %v, Receive reports %v", desc, vf.Cut(fmt.Sprintf("% x", fs[k]), 200), ok, err)
			}
			if c.pos != at {
				vf.Fail("consumed", "%s: consumed up to byte %d of the stream, the frame ends at %d", desc, c.pos, at)
				break
			}
			if ok && err == nil {
				if c09Show(m) != c09Show(want) {
					vf.Fail("message", "%s: got %s want %s", desc, vf.Cut(c09Show(m), 300), vf.Cut(c09Show(want), 300))
				}
				kept = append(kept, m)
				shows = append(shows, c09Show(want))
				vf.Case("message")
			} else {
				vf.Case("malformed")
			}
		}
		for k, m := range kept { // messages do not change when later ones arrive
			if c09Show(m) != shows[k] {
				vf.Fail("message", "message %d changed after later frames arrived: %s, was %s", k, vf.Cut(c09Show(m), 300), vf.Cut(shows[k], 300))
			}
		}
	}
	// frames announcing fewer than ten bytes
	for l := 0; l < 10; l++ {
		c := &c09Conn{in: append([]byte{0, 0, 0, byte(l)}, make([]byte, 30)...), err: io.EOF}
		m, err := mk(c).Receive()
		if err == nil {
			vf.Fail("short", "a frame announcing %d bytes was accepted: %s", l, c09Show(m))
		}
		vf.Case("short frame")
	}
	// every split of one long frame
	f := c09Frame(4)
	for len(f) < 200 {
		f = c09Frame(60)
	}
	for cut := 0; cut < len(f); cut++ {
		c := &c09Conn{in: f[:cut], err: io.EOF, piece: 3}
		if m, err := mk(c).Receive(); err == nil {
			vf.Fail("early", "frame % x cut at %d accepted: %s", f, cut, c09Show(m))
		}
		vf.Case("cut")
	}
	for _, hi := range []int{1, 256, 65536, 300000} {
		text := vf.Big("B", 1, hi).Encode()
		b := make([]byte, 14)
		binary.BigEndian.PutUint32(b, uint32(10+len(text)))
		b = append(b, text...)
		c := &c09Conn{in: append(append([]byte{}, b...), 1, 2, 3), err: io.EOF, piece: 70000}
		m, err := mk(c).Receive()
		if err != nil || c.pos != len(b) {
			vf.Fail("consumed", "a frame of %d bytes: error %v, %d bytes consumed", len(b), err, c.pos)
		} else if d, ok := m.(*ast.DataMessage); !ok || !bytes.Equal(d.ToBytes(), b) {
			vf.Fail("message", "a frame of %d bytes was not returned unchanged", len(b))
		}
		vf.Case("long frame")
	}
	// frames of very different sizes on one connection
	for i := 0; i < vf.N(6); i++ {
		sizes := []int{1, 256, 65536, 300000, 70000, 140000, 5, 66000}
		vf.R.Shuffle(len(sizes), func(a, b int) { sizes[a], sizes[b] = sizes[b], sizes[a] })
		var in []byte
		var fs [][]byte
		for _, n := range sizes {
			text := vf.Big([]string{"B", "A", "U"}[vf.R.Intn(3)], 1, n).Encode()
			b := make([]byte, 14)
			binary.BigEndian.PutUint32(b, uint32(10+len(text)))
			b = append(b, text...)
			if vf.R.Intn(6) == 0 { // the text ends before the frame does
				b = append(b, byte(i))
				binary.BigEndian.PutUint32(b, uint32(len(b)-4))
			}
			in, fs = append(in, b...), append(fs, b)
		}
		c := &c09Conn{in: in, err: io.EOF, piece: 70000}
		cd := mk(c)
		at := 0
		for k, f := range fs {
			at += len(f)
			_, ok := hsms.Parse(append([]byte{}, f...))
			m, err := cd.Receive()
			if ok != (err == nil) {
				vf.Fail("error", "sizes %v, frame %d of %d bytes: well formed %v, Receive reports %v", sizes, k, len(f), ok, err)
			}
			if c.pos != at {
				vf.Fail("consumed", "sizes %v, frame %d of %d bytes: consumed up to byte %d of the stream, the frame ends at %d", sizes, k, len(f), c.pos, at)
				break
			}
			if err == nil && ok {
				if d, is := m.(*ast.DataMessage); !is || !bytes.Equal(d.ToBytes(), f) {
					vf.Fail("message", "sizes %v, frame %d of %d bytes was not returned unchanged", sizes, k, len(f))
				}
			}
			vf.Case("mixed sizes")
		}
	}
	// sending
	for i := 0; i < vf.N(500); i++ {
		b := c09Frame(20)
		c := &c09Conn{}
		err := mk(c).Send(append([]byte{}, b...))
		if err != nil || !bytes.Equal(c.out, b) || c.calls != 1 {
			vf.Fail("send", "Send(% x) reported %v and wrote % x in %d writes", b, err, c.out, c.calls)
		}
		c = &c09Conn{werr: errC09}
		if err := mk(c).Send(b); err == nil {
			vf.Fail("senderr", "Send(% x) reports no error although the write failed", b)
		}
		vf.Case("send")
	}
	for _, v := range []interface{}{nil, "text", 3, []int{1}, []interface{}{byte(1)}} {
		c := &c09Conn{}
		var err error
		if p := vf.Try(func() { err = mk(c).Send(v) }); p != nil || err == nil || len(c.out) > 0 {
			vf.Fail("send", "Send(%T) reported %v, panic %v, wrote % x", v, err, p, c.out)
		}
		vf.Case("send other")
	}
	vf.Done("the codec was run over scripted connections: streams of well-formed and malformed frames, read in pieces, cut at every point, and writes that succeed or fail")
}
