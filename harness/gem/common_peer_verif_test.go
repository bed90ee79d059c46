package gem_test

import (
	"encoding/binary"
	"fmt"
	"io"
	"net"
	"sync"
	"time"

	"github.com/younglifestyle/secs4go/gem"
	"github.com/younglifestyle/secs4go/hsms"
	vf "github.com/younglifestyle/secs4go/zzvf"
)

const gSession = 257

// gPeer is a hand-written HSMS entity at the other end of a loopback connection to a GEM handler.
type gPeer struct {
	conn  net.Conn
	prims chan []byte // primary messages of the handler (function odd), except S1F1 and S1F13
	gone  chan bool
	h     *gem.GemHandler
	p     *hsms.HsmsProtocol

	mu     sync.Mutex
	wmu    sync.Mutex
	sys    uint32
	waits  map[uint32]chan []byte
	silent map[int]bool   // stream*256+function of primaries not to be answered
	body   map[int][]byte // the text of the answer to a primary that wants one
	seen   map[int]int    // how often each primary was received
	abort  map[int]bool   // primaries to be answered by function 0
}

func gKey(stream, function int) int { return stream*256 + function }

func gNew(conn net.Conn) *gPeer {
	q := &gPeer{conn: conn, prims: make(chan []byte, 10000), gone: make(chan bool), sys: 1 << 20,
		waits: map[uint32]chan []byte{}, silent: map[int]bool{}, body: map[int][]byte{}, seen: map[int]int{}, abort: map[int]bool{}}
	q.body[gKey(1, 13)] = []byte{1, 2, 0x21, 1, 0, 1, 0}
	q.body[gKey(1, 1)] = []byte{1, 0}
	q.body[gKey(5, 1)] = []byte{0x21, 1, 0}
	q.body[gKey(6, 11)] = []byte{0x21, 1, 0}
	go func() {
		defer close(q.gone)
		for {
			var l [4]byte
			if _, err := io.ReadFull(conn, l[:]); err != nil {
				return
			}
			n := binary.BigEndian.Uint32(l[:])
			if n > 1<<25 || n < 10 {
				return
			}
			b := make([]byte, n)
			if _, err := io.ReadFull(conn, b); err != nil {
				return
			}
			sys := binary.BigEndian.Uint32(b[6:])
			if b[5] == 5 {
				r := append([]byte{}, b...)
				r[5] = 6
				q.raw(r)
				continue
			}
			if b[5] != 0 || b[3]%2 == 0 {
				q.mu.Lock()
				w := q.waits[sys]
				q.mu.Unlock()
				if w != nil {
					select {
					case w <- b:
					default:
					}
				}
				continue
			}
			k := gKey(int(b[2]&127), int(b[3]))
			q.mu.Lock()
			q.seen[k]++
			text, ok := q.body[k]
			mute, abort := q.silent[k], q.abort[k]
			q.mu.Unlock()
			if k != gKey(1, 1) && k != gKey(1, 13) {
				select {
				case q.prims <- b:
				default:
				}
			}
			if abort && b[2]&128 != 0 {
				q.raw(gData(false, int(b[2]&127), 0, sys, nil))
				continue
			}
			if ok && !mute && b[2]&128 != 0 {
				q.raw(gData(false, int(b[2]&127), int(b[3])+1, sys, text))
			}
		}
	}()
	return q
}

func (q *gPeer) raw(b []byte) {
	f := make([]byte, 4+len(b))
	binary.BigEndian.PutUint32(f, uint32(len(b)))
	copy(f[4:], b)
	q.wmu.Lock()
	defer q.wmu.Unlock()
	q.conn.SetWriteDeadline(time.Now().Add(5 * time.Second))
	q.conn.Write(f)
}

func gCtl(b2, b3, stype byte, sys uint32) []byte {
	b := make([]byte, 10)
	binary.BigEndian.PutUint16(b, gSession)
	b[2], b[3], b[5] = b2, b3, stype
	binary.BigEndian.PutUint32(b[6:], sys)
	return b
}

func gData(w bool, stream, function int, sys uint32, text []byte) []byte {
	b := gCtl(byte(stream), byte(function), 0, sys)
	if w {
		b[2] |= 128
	}
	return append(b, text...)
}

func (q *gPeer) set(stream, function int, text []byte) {
	q.mu.Lock()
	q.body[gKey(stream, function)] = text
	q.mu.Unlock()
}

func (q *gPeer) mute(stream, function int, m bool) {
	q.mu.Lock()
	q.silent[gKey(stream, function)] = m
	q.mu.Unlock()
}

func (q *gPeer) count(stream, function int) int {
	q.mu.Lock()
	defer q.mu.Unlock()
	return q.seen[gKey(stream, function)]
}

func (q *gPeer) call(mk func(sys uint32) []byte, d time.Duration) []byte {
	q.mu.Lock()
	q.sys++
	sys := q.sys
	w := make(chan []byte, 1)
	q.waits[sys] = w
	q.mu.Unlock()
	defer func() {
		q.mu.Lock()
		delete(q.waits, sys)
		q.mu.Unlock()
	}()
	q.raw(mk(sys))
	select {
	case f := <-w:
		return f
	case <-q.gone:
		return nil
	case <-time.After(d):
		return nil
	}
}

// ask sends a primary that wants an answer and returns the answer's function and text; the
// function is -1 when no answer comes.
func (q *gPeer) ask(stream, function int, text []byte) (int, []byte) {
	f := q.call(func(sys uint32) []byte { return gData(true, stream, function, sys, text) }, 8*time.Second)
	if f == nil {
		return -1, nil
	}
	if int(f[2]) != stream {
		return -2, f[10:]
	}
	return int(f[3]), f[10:]
}

// sync waits until the handler answered a linktest, hence has taken everything sent before it.
func (q *gPeer) sync() bool {
	return q.call(func(sys uint32) []byte { b := gCtl(0, 0, 5, sys); b[0], b[1] = 255, 255; return b }, 5*time.Second) != nil
}

// prim is the next primary the handler sends, or nil.
func (q *gPeer) prim(d time.Duration) []byte {
	select {
	case f := <-q.prims:
		return f
	default:
	}
	select {
	case f := <-q.prims:
		return f
	case <-time.After(d):
		return nil
	}
}

func (q *gPeer) drain() {
	for {
		select {
		case <-q.prims:
			continue
		default:
		}
		return
	}
}

// gStart starts a GEM handler on a passive entity, connects to it and selects it.
func gStart(dev gem.DeviceType, opt func(*gem.Options), setup func(*gem.GemHandler)) (*gem.GemHandler, *gPeer, error) {
	var last error
	for try := 0; try < 4; try++ {
		l, err := net.Listen("tcp", "127.0.0.1:0")
		if err != nil {
			return nil, nil, err
		}
		port := l.Addr().(*net.TCPAddr).Port
		l.Close()
		p := hsms.NewHsmsProtocol("127.0.0.1", port, false, gSession, "verif")
		p.Timeouts().SetLinktest(1000)
		o := gem.Options{Protocol: p, DeviceType: dev, DeviceID: gSession, MDLN: "MD", SOFTREV: "1"}
		if opt != nil {
			opt(&o)
		}
		h, err := gem.NewGemHandler(o)
		if err != nil {
			return nil, nil, err
		}
		if setup != nil {
			setup(h)
		}
		h.Enable()
		q, err := gConnect(p, port)
		if err == nil {
			q.h, q.p = h, p
			return h, q, nil
		}
		last = err
		gStop(h, q)
	}
	return nil, nil, last
}

func gConnect(p *hsms.HsmsProtocol, port int) (*gPeer, error) {
	for i := 0; i < 400; i++ {
		c, err := net.Dial("tcp", fmt.Sprintf("127.0.0.1:%d", port))
		if err != nil {
			time.Sleep(5 * time.Millisecond)
			continue
		}
		q := gNew(c)
		for k := 0; k < 400 && p.CurrentState() == hsms.StateNotConnected; k++ {
			time.Sleep(5 * time.Millisecond)
		}
		f := q.call(func(sys uint32) []byte { return gCtl(0, 0, 1, sys) }, 5*time.Second)
		if f == nil || f[5] != 2 || f[3] != 0 {
			return q, fmt.Errorf("select.req was not accepted: %x", f)
		}
		if !q.sync() {
			return q, fmt.Errorf("no linktest.rsp after selecting")
		}
		return q, nil
	}
	return nil, fmt.Errorf("the passive entity never listened")
}

// gComm additionally establishes communication.
func gComm(dev gem.DeviceType, opt func(*gem.Options), setup func(*gem.GemHandler)) (*gem.GemHandler, *gPeer, error) {
	h, q, err := gStart(dev, opt, setup)
	if err != nil {
		return h, q, err
	}
	if f, b := q.ask(1, 13, []byte{1, 0}); f != 14 || len(b) < 5 || b[4] != 0 {
		return h, q, fmt.Errorf("S1F13 answered by S1F%d %x", f, b)
	}
	return h, q, nil
}

func gStop(h *gem.GemHandler, q *gPeer) {
	if q != nil {
		q.conn.Close()
	}
	if h != nil {
		done := make(chan bool)
		go func() { h.Disable(); close(done) }()
		select {
		case <-done:
		case <-time.After(8 * time.Second):
		}
	}
}

// oracle items

func gL(xs ...*vf.Item) *vf.Item       { return &vf.Item{K: "L", L: xs} }
func gA(s string) *vf.Item             { return &vf.Item{K: "A", S: s} }
func gB(xs ...int64) *vf.Item          { return &vf.Item{K: "B", I: xs} }
func gO(xs ...bool) *vf.Item           { return &vf.Item{K: "BOOLEAN", O: xs} }
func gU(w int, xs ...uint64) *vf.Item  { return &vf.Item{K: "U", W: w, U: xs} }
func gI(w int, xs ...int64) *vf.Item   { return &vf.Item{K: "I", W: w, I: xs} }
func gF(w int, xs ...float64) *vf.Item { return &vf.Item{K: "F", W: w, F: xs} }
