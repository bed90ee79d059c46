package hsms

import (
	"bytes"
	"fmt"
	"sync"
	"testing"
	"time"

	"github.com/younglifestyle/secs4go/lib-secs2-hsms-go/pkg/ast"
	vf "github.com/younglifestyle/secs4go/zzvf"
)

// TestVerifC14 runs concurrent transactions and answers them in every order, between other messages.
func TestVerifC14(t *testing.T) {
	defer vf.Done("a distinct (number of transactions, reply order, message in between)")
	for h := 0; h < vf.N(8); h++ {
		c14Concurrent()
	}
	c14Storm()
	c14Ends()
	c14Select()
}

type c14Seen struct {
	mu  sync.Mutex
	got []*ast.DataMessage
}

func (s *c14Seen) handler(m *ast.DataMessage) (*ast.DataMessage, error) {
	s.mu.Lock()
	s.got = append(s.got, m)
	s.mu.Unlock()
	return nil, nil
}

func (s *c14Seen) take() []*ast.DataMessage {
	s.mu.Lock()
	defer s.mu.Unlock()
	r := s.got
	s.got = nil
	return r
}

func c14Start(t3 int) (int, *HsmsProtocol, *vPeer, *c14Seen) {
	seen := &c14Seen{}
	sess := c13Sess()
	p, q, err := vSelected(sess, func(p *HsmsProtocol) {
		p.Timeouts().SetT3ReplyTimeout(t3)
		p.RegisterDefaultHandler(seen.handler)
	})
	if err != nil {
		vf.Fail("setup", "%v", err)
		vStop(p, q)
		return 0, nil, nil, nil
	}
	return sess, p, q, seen
}

// c14Settle waits until a message with these system bytes reaches the handlers: the goroutine that waited
// for the answer to a control transaction ends it on its own time.
func c14Settle(sess int, q *vPeer, seen *c14Seen, sys []byte) {
	for k := 0; k < 100; k++ {
		seen.take()
		q.raw(append(append([]byte{byte(sess >> 8), byte(sess), 5, 2, 0, 0}, sys...), 0xA5, 1, 98))
		if _, ok := q.barrier(0x44000005); !ok || len(seen.take()) > 0 {
			return
		}
		time.Sleep(20 * time.Millisecond)
	}
}

// c14Reach: a data message with these system bytes reaches the handlers.
func c14Reach(key, what string, sess int, q *vPeer, seen *c14Seen, sys []byte) bool {
	seen.take()
	m := append([]byte{byte(sess >> 8), byte(sess), 5, 2, 0, 0}, sys...)
	q.raw(append(m, 0xA5, 1, 99))
	if _, ok := q.barrier(0x44000000); !ok {
		vf.Fail("dead", "%s: the entity no longer answers", what)
		return false
	}
	if got := seen.take(); len(got) != 1 || !bytes.Equal(got[0].SystemBytes(), sys) {
		vf.Fail(key, "%s: a later message with system bytes %x did not reach the handlers", what, sys)
	}
	return true
}

func c14Concurrent() {
	sess, p, q, seen := c14Start(20)
	if p == nil {
		return
	}
	defer vStop(p, q)
	n := 2 + vf.R.Intn(12)
	type res struct {
		k   int
		m   *ast.DataMessage
		err error
	}
	out := make(chan res, n)
	for k := 0; k < n; k++ {
		k := k
		m := ast.NewDataMessage("T", 1+vf.R.Intn(20), 1+2*vf.R.Intn(60), 1+vf.R.Intn(2), "H<->E", ast.NewUintNode(4, 1000+k))
		go func() {
			r, err := p.SendAndWait(m)
			out <- res{k, r, err}
		}()
	}
	frames := map[int][]byte{}
	ids := map[string]int{}
	for len(frames) < n {
		f := q.next(5 * time.Second)
		if len(f) != 16 || f[10] != 0xB1 {
			vf.Fail("sent", "a primary was sent as %x", f)
			return
		}
		k := (int(f[14])<<8 | int(f[15])) - 1000
		if o, dup := ids[string(f[6:10])]; dup {
			vf.Fail("unique", "two outstanding transactions (%d and %d) have the system bytes %x", o, k, f[6:10])
		}
		if int(f[0])*256+int(f[1]) != sess || f[2]&128 == 0 {
			vf.Fail("sent", "session %d: a primary was sent as %x", sess, f)
		}
		ids[string(f[6:10])] = k
		frames[k] = f
	}
	if len(ids) != n {
		return
	}
	reply := func(f []byte, v byte) []byte {
		r := append([]byte{}, f[:10]...)
		r[2] &= 127
		r[3]++
		return append(r, 0x21, 2, v, f[15])
	}
	unknown := func(f []byte) []byte {
		for {
			x := append([]byte{}, f[6:10]...)
			x[vf.R.Intn(4)] ^= byte(1 + vf.R.Intn(255))
			if _, used := ids[string(x)]; !used {
				return x
			}
		}
	}
	order := vf.R.Perm(n)
	between := 0
	for _, k := range order {
		f := frames[k]
		for vf.R.Intn(2) == 0 {
			x := unknown(f)
			switch vf.R.Intn(3) {
			case 0:
				vf.Case(fmt.Sprintf("%d/unknown reply", n))
				r := reply(f, 200)
				copy(r[6:], x)
				q.raw(r)
				between++
			case 1:
				vf.Case(fmt.Sprintf("%d/unknown primary", n))
				q.raw(append(append([]byte{f[0], f[1], 0x81, 1, 0, 0}, x...), 0xA5, 1, 7))
				between++
			case 2:
				vf.Case(fmt.Sprintf("%d/linktest", n))
				q.raw(append([]byte{255, 255, 0, 0, 0, 5}, f[6:10]...))
				if g := q.next(5 * time.Second); !bytes.Equal(g, append([]byte{255, 255, 0, 0, 0, 6}, f[6:10]...)) {
					vf.Fail("control", "a linktest.req with system bytes %x was answered with %x", f[6:10], g)
				}
			}
		}
		vf.Case(fmt.Sprintf("%d/reply", n))
		q.raw(reply(f, byte(k)))
		if vf.R.Intn(4) == 0 {
			q.raw(reply(f, 201))
		}
	}
	left := map[int]bool{}
	for k := 0; k < n; k++ {
		left[k] = true
	}
	for range order {
		select {
		case r := <-out:
			delete(left, r.k)
			f := frames[r.k]
			if r.err != nil {
				vf.Fail("answered", "transaction %d of %d was answered but failed with %v", r.k, n, r.err)
				continue
			}
			b := r.m.ToBytes()
			if !bytes.Equal(b[4:], reply(f, byte(r.k))) {
				vf.Fail("reply", "request %x was answered with %x but its caller received %x", f, reply(f, byte(r.k)), b[4:])
			}
		case <-time.After(8 * time.Second):
			vf.Fail("answered", "transactions %v were answered but are still waiting", left)
			return
		}
	}
	if _, ok := q.barrier(0x44000001); !ok {
		vf.Fail("dead", "the entity no longer answers")
		return
	}
	rest := 0
	for _, m := range seen.take() {
		if _, own := ids[string(m.SystemBytes())]; !own {
			rest++
		}
	}
	if rest != between {
		vf.Fail("others", "%d messages with other system bytes were sent and %d reached the handlers", between, rest)
	}
	for _, k := range order {
		if !c14Reach("trace", "an answered transaction", sess, q, seen, frames[k][6:10]) {
			return
		}
	}
}

// c14Storm: many callers at once, each with one transaction after the other, answered as they come.
func c14Storm() {
	_, p, q, _ := c14Start(20)
	if p == nil {
		return
	}
	defer vStop(p, q)
	callers, each := 16, vf.N(300)
	var wg sync.WaitGroup
	for k := 0; k < callers; k++ {
		wg.Add(1)
		go func(k int) {
			defer wg.Done()
			for i := 0; i < each; i++ {
				tok := k*each + i
				r, err := p.SendAndWait(ast.NewDataMessage("T", 1, 1, 1, "H<->E", ast.NewUintNode(4, tok)))
				if err != nil {
					vf.Fail("answered", "transaction %d was answered but failed with %v", tok, err)
					return
				}
				if b := r.ToBytes(); len(b) != 20 || int(b[16])<<24|int(b[17])<<16|int(b[18])<<8|int(b[19]) != tok {
					vf.Fail("reply", "the caller of transaction %d received %x", tok, b)
					return
				}
			}
		}(k)
	}
	end := make(chan bool)
	go func() { wg.Wait(); close(end) }()
	ids := map[string]int{}
	for n := 0; n < callers*each; n++ {
		f := q.next(5 * time.Second)
		if len(f) != 16 || f[10] != 0xB1 {
			vf.Fail("sent", "primary %d of %d was sent as %x", n, callers*each, f)
			return
		}
		tok := int(f[12])<<24 | int(f[13])<<16 | int(f[14])<<8 | int(f[15])
		if o, dup := ids[string(f[6:10])]; dup {
			vf.Fail("unique", "transactions %d and %d, sent by concurrent callers, have the system bytes %x", o, tok, f[6:10])
			return
		}
		ids[string(f[6:10])] = tok
		r := append([]byte{}, f...)
		r[2] &= 127
		r[3]++
		q.raw(r)
	}
	vf.Case("storm")
	select {
	case <-end:
	case <-time.After(10 * time.Second):
		vf.Fail("answered", "transactions were answered but their callers are still waiting")
	}
}

// c14Ends: a transaction that ends with a reply, a timeout, an unusable reply, a panic or a lost
// connection leaves nothing behind.
func c14Ends() {
	sess, p, q, seen := c14Start(1)
	if p == nil {
		return
	}
	defer vStop(p, q)
	send := func(m *ast.DataMessage) (chan error, []byte) {
		done := make(chan error, 1)
		go func() {
			defer func() {
				if e := recover(); e != nil {
					done <- fmt.Errorf("panic %v", e)
				}
			}()
			_, err := p.SendAndWait(m)
			done <- err
		}()
		f := q.next(700 * time.Millisecond)
		return done, f
	}
	prim := ast.NewDataMessage("T", 1, 1, 1, "H<->E", ast.NewListNode())
	vf.Case("timeout")
	done, f := send(prim)
	if len(f) < 10 {
		vf.Fail("sent", "a primary was sent as %x", f)
		return
	}
	select {
	case err := <-done:
		if err == nil {
			vf.Fail("reply", "a transaction without reply succeeded")
		}
	case <-time.After(6 * time.Second):
		vf.Fail("timeout", "a transaction with T3 = 1 s has not ended after 6 s")
		return
	}
	q.barrier(0x44000002)
	if !c14Reach("trace", "a timed out transaction", sess, q, seen, f[6:10]) {
		return
	}
	vf.Case("answered after another timed out")
	done, g := send(prim)
	if len(g) < 10 || bytes.Equal(g[6:10], f[6:10]) {
		vf.Fail("unique", "the next transaction was sent as %x", g)
		return
	}
	late := append(append([]byte{}, f[:10]...), 1, 0)
	late[2], late[3] = 1, 2
	q.raw(late)
	r := append(append([]byte{}, g[:10]...), 1, 0)
	r[2], r[3] = 1, 2
	q.raw(r)
	if err := <-done; err != nil {
		vf.Fail("answered", "a transaction answered after the late reply of another failed with %v", err)
	}
	c14Reach("trace", "an answered transaction", sess, q, seen, g[6:10])
	c14Reach("trace", "the transaction before", sess, q, seen, f[6:10])

	// an optional wait bit on a reply: SendAndWait refuses it by panicking, on the base commit too
	vf.Case("refused")
	var before []byte
	if err := p.SendDataMessage(ast.NewDataMessage("T", 1, 1, 0, "H<->E", ast.NewListNode())); err == nil {
		before = q.next(5 * time.Second)
	}
	if len(before) < 10 {
		vf.Fail("sent", "a message was sent as %x", before)
		return
	}
	func() {
		defer func() { recover() }()
		bad := ast.NewDataMessage("T", 1, 2, 2, "H<->E", ast.NewListNode())
		p.SendAndWait(bad)
	}()
	q.barrier(0x44000003)
	for k := byte(1); k < 4; k++ {
		x := append([]byte{}, before[6:10]...)
		x[3] += k
		if x[3] >= k {
			c14Reach("trace", "a refused transaction", sess, q, seen, x)
		}
	}
	vf.Case("lost connection")
	p.Timeouts().SetT3ReplyTimeout(3)
	done, f = send(prim)
	q.conn.Close()
	select {
	case err := <-done:
		if err == nil {
			vf.Fail("reply", "a transaction without reply succeeded")
		}
	case <-time.After(8 * time.Second):
		vf.Fail("timeout", "a transaction with T3 = 3 s has not ended after 8 s")
	}
	if err := func() error { _, err := p.SendAndWait(prim); return err }(); err == nil {
		vf.Fail("reply", "a transaction without connection succeeded")
	}
}

// c14Select: the entity's own control transactions.
func c14Select() {
	sess := c13Sess()
	seen := &c14Seen{}
	p, q, err := vActive(sess, func(p *HsmsProtocol) {
		p.Timeouts().SetAutoReconnect(false)
		p.RegisterDefaultHandler(seen.handler)
	})
	defer vStop(p, q)
	if err != nil {
		vf.Fail("setup", "%v", err)
		return
	}
	f := q.next(5 * time.Second)
	if len(f) != 10 || f[5] != 1 {
		vf.Fail("sent", "a select.req was sent as %x", f)
		return
	}
	r := append([]byte{}, f...)
	r[5] = 2
	q.raw(r)
	q.barrier(0x44000004)
	for k := 0; k < 200 && p.CurrentState() != StateConnectedSelected; k++ {
		time.Sleep(5 * time.Millisecond)
	}
	vf.Case("select")
	c14Settle(sess, q, seen, f[6:10])
	c14Reach("trace", "an answered select", sess, q, seen, f[6:10])
}
