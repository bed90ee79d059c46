package link_test

import (
	"errors"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	link "github.com/younglifestyle/secs4go"
	vf "github.com/younglifestyle/secs4go/zzvf"
)

type c11Codec struct {
	mu     sync.Mutex
	closes int
	sends  int
	err    error
	bad    bool
	recv   chan bool
}

func (c *c11Codec) Receive() (interface{}, error) {
	if <-c.recv {
		return 1, nil
	}
	return nil, errors.New("gone")
}
func (c *c11Codec) Send(interface{}) error {
	c.mu.Lock()
	defer c.mu.Unlock()
	if c.closes > 0 {
		return errors.New("closed")
	}
	c.sends++
	if c.bad {
		return errors.New("broken")
	}
	return nil
}
func (c *c11Codec) Close() error {
	c.mu.Lock()
	defer c.mu.Unlock()
	c.closes++
	return c.err
}

// TestVerifC11 closes sessions from many goroutines, with callbacks added and removed before and meanwhile.
func TestVerifC11(t *testing.T) {
	defer vf.Done("a distinct (kind of session, number of closers, way of closing) history")
	for h := 0; h < vf.N(400); h++ {
		c11Callbacks()
	}
	for h := 0; h < vf.N(300); h++ {
		c11Race()
	}
	for h := 0; h < vf.N(1500); h++ {
		c11Duel()
	}
}

type c11Cb struct {
	h, k interface{}
	id   int
}

func c11Callbacks() {
	codec := &c11Codec{recv: make(chan bool, 1)}
	var s *link.Session
	var m *link.Manager
	size := []int{0, 0, 1, 8}[vf.R.Intn(4)]
	kind := "sync"
	if size > 0 {
		kind = "async"
	}
	if vf.R.Intn(2) == 0 {
		m = link.NewManager()
		s = m.NewSession(codec, size)
		kind += "/managed"
	} else {
		s = link.NewSession(codec, size)
	}
	var mu sync.Mutex
	var ran []int
	var want []c11Cb
	hs := []interface{}{nil, "a", "b", 1, 2.5}
	n := vf.R.Intn(14)
	var log []interface{}
	for i := 0; i < n; i++ {
		h, k := hs[vf.R.Intn(3)], hs[vf.R.Intn(5)]
		if vf.R.Intn(3) > 0 {
			i := i
			log = append(log, "add", h, k, i)
			s.AddCloseCallback(h, k, func() { mu.Lock(); ran = append(ran, i); mu.Unlock() })
			want = append(want, c11Cb{h, k, i})
		} else {
			log = append(log, "remove", h, k)
			s.RemoveCloseCallback(h, k)
			for j, c := range want {
				if c.h == h && c.k == k {
					want = append(want[:j:j], want[j+1:]...)
					break
				}
			}
		}
	}
	done := make(chan bool)
	s.AddCloseCallback("end", "end", func() { close(done) })
	closers := 1 + vf.R.Intn(5)
	vf.Case(kind + "/callbacks")
	codec.err = []error{nil, errors.New("codec")}[vf.R.Intn(2)]
	var wg sync.WaitGroup
	var won, lost int32
	start := make(chan bool)
	for i := 0; i < closers; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			<-start
			switch err := s.Close(); err {
			case link.SessionClosedError:
				atomic.AddInt32(&lost, 1)
			default:
				if err != codec.err {
					vf.Fail("result", "%s: Close returned %v, the codec %v", kind, err, codec.err)
				}
				atomic.AddInt32(&won, 1)
			}
		}()
	}
	close(start)
	wg.Wait()
	// an asynchronous session may be closed by its sender only after a close
	if won != 1 || int(lost) != closers-1 {
		vf.Fail("once", "%s: of %d closers %d succeeded and %d were told the session is closed", kind, closers, won, lost)
	}
	c11Closed(kind, s, codec)
	select {
	case <-done:
	case <-time.After(5 * time.Second):
		vf.Fail("callbacks", "%s: history %v: the last callback has not run 5 s after the close", kind, log)
		return
	}
	time.Sleep(time.Millisecond)
	s.Close()
	mu.Lock()
	got := append([]int{}, ran...)
	mu.Unlock()
	same := len(got) == len(want)
	for i := 0; same && i < len(want); i++ {
		same = got[i] == want[i].id
	}
	if !same {
		ids := []int{}
		for _, c := range want {
			ids = append(ids, c.id)
		}
		vf.Fail("callbacks", "%s: history %v: callbacks %v ran, must be %v", kind, log, got, ids)
	}
	if m != nil {
		for i := 0; i < 500 && m.GetSession(s.ID()) != nil; i++ {
			time.Sleep(time.Millisecond)
		}
		if m.GetSession(s.ID()) != nil {
			vf.Fail("manager", "a closed session is still managed")
		}
	}
}

func c11Closed(kind string, s *link.Session, codec *c11Codec) {
	if !s.IsClosed() {
		vf.Fail("closed", "%s: a session is not closed after its close", kind)
	}
	codec.mu.Lock()
	before := codec.sends
	codec.mu.Unlock()
	if err := vf.Try(func() {
		if err := s.Send(1); err == nil {
			vf.Fail("send", "%s: Send on a closed session succeeded", kind)
		}
	}); err != nil {
		vf.Fail("send", "%s: Send on a closed session: %v", kind, err)
	}
	if err := s.Close(); err != link.SessionClosedError {
		vf.Fail("again", "%s: closing again returned %v", kind, err)
	}
	codec.mu.Lock()
	defer codec.mu.Unlock()
	if codec.closes != 1 || codec.sends != before {
		vf.Fail("codec", "%s: the codec was closed %d times and given %d messages after the close", kind, codec.closes, codec.sends-before)
	}
}

// c11Race closes while others send, receive and register.
func c11Race() {
	codec := &c11Codec{recv: make(chan bool, 1)}
	size := []int{0, 1, 4}[vf.R.Intn(3)]
	s := link.NewSession(codec, size)
	kind := map[bool]string{true: "async", false: "sync"}[size > 0]
	way := []string{"close", "receive", "send"}[vf.R.Intn(3)]
	vf.Case(kind + "/race/" + way)
	var runs int32
	done := make(chan bool)
	s.AddCloseCallback("main", "main", func() {
		if atomic.AddInt32(&runs, 1) == 1 {
			close(done)
		}
	})
	var wg sync.WaitGroup
	var won int32
	for i := 0; i < 3; i++ {
		i := i
		wg.Add(1)
		go func() {
			defer wg.Done()
			for k := 0; k < 20; k++ {
				if e := vf.Try(func() { s.Send(k) }); e != nil {
					vf.Fail("panic", "%s: Send while closing: %v", kind, e)
				}
				s.AddCloseCallback(i, k, func() {})
				s.RemoveCloseCallback(i, k)
			}
		}()
	}
	for i := 0; i < 2; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			switch way {
			case "close":
				if s.Close() != link.SessionClosedError {
					atomic.AddInt32(&won, 1)
				}
			case "receive":
				codec.recv <- false
				if _, err := s.Receive(); err == nil {
					vf.Fail("receive", "%s: a failed Receive succeeded", kind)
				}
			case "send":
				codec.mu.Lock()
				codec.bad = true
				codec.mu.Unlock()
				for !s.IsClosed() {
					s.Send(1)
				}
			}
		}()
	}
	wg.Wait()
	if way == "close" && won > 1 {
		vf.Fail("once", "%s: two closers succeeded", kind)
	}
	select {
	case <-done:
	case <-time.After(5 * time.Second):
		vf.Fail("callbacks", "%s: a close callback has not run 5 s after a close by %s", kind, way)
		return
	}
	for i := 0; i < 1000; i++ {
		codec.mu.Lock()
		n := codec.closes
		codec.mu.Unlock()
		if n > 0 {
			break
		}
		time.Sleep(time.Millisecond)
	}
	c11Closed(kind, s, codec)
	if r := atomic.LoadInt32(&runs); r != 1 {
		vf.Fail("callbacks", "%s: a close callback ran %d times", kind, r)
	}
}

// c11Duel: goroutines that close the session at the same moment.
func c11Duel() {
	codec := &c11Codec{recv: make(chan bool, 1)}
	s := link.NewSession(codec, []int{0, 1}[vf.R.Intn(2)])
	var runs, won, ready int32
	s.AddCloseCallback("main", "main", func() { atomic.AddInt32(&runs, 1) })
	n := 2 + vf.R.Intn(4)
	var wg sync.WaitGroup
	for i := 0; i < n; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			atomic.AddInt32(&ready, 1)
			for k := 0; k < 20000 && atomic.LoadInt32(&ready) < int32(n); k++ {
			}
			var err error
			if e := vf.Try(func() { err = s.Close() }); e != nil {
				vf.Fail("panic", "%d goroutines close a session at once: %v", n, e)
			} else if err != link.SessionClosedError {
				atomic.AddInt32(&won, 1)
			}
		}()
	}
	wg.Wait()
	vf.Case("duel")
	if won != 1 {
		vf.Fail("once", "%d goroutines close a session at once: %d of them succeed", n, won)
	}
	for i := 0; i < 1000; i++ {
		codec.mu.Lock()
		c := codec.closes
		codec.mu.Unlock()
		if c > 0 && atomic.LoadInt32(&runs) > 0 {
			break
		}
		time.Sleep(time.Millisecond)
	}
	codec.mu.Lock()
	c := codec.closes
	codec.mu.Unlock()
	if r := atomic.LoadInt32(&runs); r != 1 || c != 1 {
		vf.Fail("callbacks", "%d goroutines close a session at once: the close callback ran %d times, the codec was closed %d times", n, r, c)
	}
}
