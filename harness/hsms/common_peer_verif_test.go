package hsms

import (
	"encoding/binary"
	"fmt"
	"io"
	"net"
	"time"
)

// vPeer is a hand-written HSMS entity at the other end of a loopback connection.
type vPeer struct {
	conn   net.Conn
	frames chan []byte // without their length bytes; linktest.req frames are answered and dropped
	gone   chan bool
	mute   bool // do not answer linktest.req
}

func vPort() int {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		return 1
	}
	defer l.Close()
	return l.Addr().(*net.TCPAddr).Port
}

func vNew(conn net.Conn, mute bool) *vPeer {
	q := &vPeer{conn: conn, frames: make(chan []byte, 1000), gone: make(chan bool), mute: mute}
	go func() {
		defer close(q.gone)
		for {
			var l [4]byte
			if _, err := io.ReadFull(conn, l[:]); err != nil {
				return
			}
			n := binary.BigEndian.Uint32(l[:])
			if n > 1<<25 {
				return
			}
			b := make([]byte, n)
			if _, err := io.ReadFull(conn, b); err != nil {
				return
			}
			if n == 10 && b[4] == 0 && b[5] == 5 {
				if !mute {
					r := append([]byte{}, b...)
					r[5] = 6
					q.raw(r)
				}
				continue
			}
			q.frames <- b
		}
	}()
	return q
}

// raw sends one frame, putting the length in front.
func (q *vPeer) raw(b []byte) {
	f := make([]byte, 4+len(b))
	binary.BigEndian.PutUint32(f, uint32(len(b)))
	copy(f[4:], b)
	q.conn.SetWriteDeadline(time.Now().Add(5 * time.Second))
	q.conn.Write(f)
}

func vCtl(session int, b2, b3, stype byte, sys uint32) []byte {
	b := make([]byte, 10)
	binary.BigEndian.PutUint16(b, uint16(session))
	b[2], b[3], b[5] = b2, b3, stype
	binary.BigEndian.PutUint32(b[6:], sys)
	return b
}

func vData(session int, w bool, stream, function byte, sys uint32, text []byte) []byte {
	b := vCtl(session, stream, function, 0, sys)
	if w {
		b[2] |= 128
	}
	return append(b, text...)
}

// next is the next frame, or nil when there is none in time or the connection ends first.
func (q *vPeer) next(d time.Duration) []byte {
	select {
	case f := <-q.frames:
		return f
	default:
	}
	select {
	case f := <-q.frames:
		return f
	case <-q.gone:
		select {
		case f := <-q.frames:
			return f
		default:
		}
		return nil
	case <-time.After(d):
		return nil
	}
}

// barrier sends a linktest.req and returns every frame that arrives before its answer; ok is
// false when the answer never comes.
func (q *vPeer) barrier(sys uint32) (fs [][]byte, ok bool) {
	q.raw(vCtl(0xFFFF, 0, 0, 5, sys))
	for {
		f := q.next(5 * time.Second)
		if f == nil {
			return fs, false
		}
		if len(f) == 10 && f[5] == 6 && binary.BigEndian.Uint32(f[6:]) == sys {
			return fs, true
		}
		fs = append(fs, f)
	}
}

// vPassive starts a passive entity with the given session and connects to it.
func vPassive(session int, setup func(*HsmsProtocol)) (*HsmsProtocol, *vPeer, error) {
	for try := 0; ; try++ {
		port := vPort()
		p := NewHsmsProtocol("127.0.0.1", port, false, session, "verif")
		p.Timeouts().SetLinktest(1000)
		if setup != nil {
			setup(p)
		}
		p.Enable()
		for i := 0; i < 300; i++ {
			c, err := net.Dial("tcp", fmt.Sprintf("127.0.0.1:%d", port))
			if err != nil {
				time.Sleep(5 * time.Millisecond)
				continue
			}
			q := vNew(c, false)
			for k := 0; k < 400 && p.CurrentState() == StateNotConnected; k++ {
				time.Sleep(5 * time.Millisecond)
			}
			return p, q, nil
		}
		p.Disable()
		if try == 3 {
			return nil, nil, fmt.Errorf("the passive entity never listened")
		}
	}
}

// vActive starts an active entity that connects to us.
func vActive(session int, setup func(*HsmsProtocol)) (*HsmsProtocol, *vPeer, error) {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		return nil, nil, err
	}
	defer l.Close()
	p := NewHsmsProtocol("127.0.0.1", l.Addr().(*net.TCPAddr).Port, true, session, "verif")
	p.Timeouts().SetLinktest(1000)
	if setup != nil {
		setup(p)
	}
	p.Enable()
	l.(*net.TCPListener).SetDeadline(time.Now().Add(10 * time.Second))
	c, err := l.Accept()
	if err != nil {
		p.Disable()
		return nil, nil, fmt.Errorf("the active entity never connected: %v", err)
	}
	return p, vNew(c, false), nil
}

// vSelected starts a passive entity and selects it.
func vSelected(session int, setup func(*HsmsProtocol)) (*HsmsProtocol, *vPeer, error) {
	p, q, err := vPassive(session, setup)
	if err != nil {
		return nil, nil, err
	}
	q.raw(vCtl(session, 0, 0, 1, 7))
	f := q.next(5 * time.Second)
	if f == nil || f[5] != 2 || f[3] != 0 {
		return p, q, fmt.Errorf("select.req was not accepted: %x", f)
	}
	if _, ok := q.barrier(8); !ok {
		return p, q, fmt.Errorf("no linktest.rsp after selecting")
	}
	return p, q, nil
}

func vStop(p *HsmsProtocol, q *vPeer) {
	if q != nil {
		q.conn.Close()
	}
	if p != nil {
		done := make(chan bool)
		go func() { p.Disable(); close(done) }()
		select {
		case <-done:
		case <-time.After(8 * time.Second):
		}
	}
}
