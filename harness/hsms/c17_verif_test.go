package hsms

import (
	"fmt"
	"math/big"
	"net"
	"strings"
	"sync"
	"testing"
	"time"

	vf "github.com/younglifestyle/secs4go/zzvf"
)

// want is the delay after k failed attempts in a row, computed with unbounded integers.
func c17Want(base, max, k int) time.Duration {
	v := new(big.Int).Lsh(big.NewInt(int64(base)), uint(k-1))
	if v.Cmp(big.NewInt(int64(max))) > 0 {
		v = big.NewInt(int64(max))
	}
	return time.Duration(v.Int64()) * time.Second
}

// c17Log sees the delays the retry loop announces and the failures it reports.
type c17Log struct {
	mu     sync.Mutex
	delays []time.Duration
	fails  []time.Time
	on     func()
}

func (l *c17Log) rec(msg string, kv []interface{}, isErr bool) {
	l.mu.Lock()
	got := false
	if isErr && strings.Contains(msg, "connect") {
		l.fails = append(l.fails, time.Now())
	}
	for _, v := range kv {
		if d, ok := v.(time.Duration); ok {
			l.delays = append(l.delays, d)
			got = true
		}
	}
	f := l.on
	l.mu.Unlock()
	if got && f != nil {
		f()
	}
}
func (l *c17Log) Debug(m string, kv ...interface{}) { l.rec(m, kv, false) }
func (l *c17Log) Info(m string, kv ...interface{})  { l.rec(m, kv, false) }
func (l *c17Log) Warn(m string, kv ...interface{})  { l.rec(m, kv, false) }
func (l *c17Log) Error(m string, kv ...interface{}) { l.rec(m, kv, true) }

func c17Port() int {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		return 1
	}
	defer l.Close()
	return l.Addr().(*net.TCPAddr).Port
}

func c17Proto(base, max, start int) (*HsmsProtocol, *c17Log) {
	p := NewHsmsProtocol("127.0.0.1", c17Port(), true, 0, "c17")
	p.timeouts.SetReconnectBackoffBase(base)
	p.timeouts.SetReconnectBackoffMax(max)
	p.timeouts.SetMaxReconnectAttempts(0)
	p.timeouts.SetT5ConnSeparateTimeout(1)
	p.reconnectAttempts = start
	l := &c17Log{}
	p.SetLogger(l)
	return p, l
}

func TestVerifC17(t *testing.T) {
	defer vf.Done("a distinct (base, max, attempt) triple, or retry history")
	var bm [][2]int
	add := func(b, m int) {
		if 1 <= b && b <= m && m <= 9223372036 {
			bm = append(bm, [2]int{b, m})
		}
	}
	d := NewSecsTimeout()
	if b, m := d.ReconnectBackoffBase(), d.ReconnectBackoffMax(); b < 1 || b > m || m > 9223372036 {
		vf.Fail("defaults", "default configuration has initial delay %d s and maximum %d s", b, m)
	}
	for b := 1; b <= 12; b++ {
		for _, m := range []int{b, b + 1, 2*b - 1, 2 * b, 2*b + 1, 30, 60, 61, 64, 300, 3600, 86400} {
			add(b, m)
		}
	}
	for _, x := range vf.Ints {
		add(int(x), 9223372036)
		add(1, int(x))
		add(3, int(x))
		add(int(x), int(x)+7)
		add(int(x), 2*int(x))
	}
	for i := 0; i < vf.N(200); i++ {
		b := 1 + vf.R.Intn(1<<uint(1+vf.R.Intn(30)))
		add(b, b+vf.R.Intn(1<<uint(1+vf.R.Intn(33))))
	}
	steps := []int{1023, 1024, 1025, 1026, 2000, 5000, 1 << 20, 1 << 31, 1 << 40, 1 << 53, 1 << 62}
	for i := 1; i <= 200; i++ {
		steps = append([]int{201 - i}, steps...)
	}
	for _, x := range vf.Ints {
		if x >= 1 && x < 1<<62 {
			steps = append(steps, int(x))
		}
	}
	for _, c := range bm {
		p, _ := c17Proto(c[0], c[1], 0)
		if p.timeouts.ReconnectBackoffBase() != c[0] || p.timeouts.ReconnectBackoffMax() != c[1] {
			vf.Fail("config", "configured initial delay %d and maximum %d read back as %d and %d", c[0], c[1], p.timeouts.ReconnectBackoffBase(), p.timeouts.ReconnectBackoffMax())
		}
		for _, k := range steps {
			p.reconnectAttempts = k
			k2 := k
			if k2 > 5000 {
				k2 = 5000
			}
			vf.Case(fmt.Sprintf("%d/%d/%d", c[0], c[1], k))
			if g, w := p.calculateBackoffDelay(), c17Want(c[0], c[1], k2); g != w {
				vf.Fail("delay", "initial delay %d s, maximum %d s: the delay before retry %d is %v, must be %v", c[0], c[1], k, g, w)
			}
		}
	}
	// one pass of the real retry loop from many counts; it is stopped as soon as the delay is announced
	var wg sync.WaitGroup
	sem := make(chan bool, 16)
	for i, c := range bm {
		if i%5 != 0 {
			continue
		}
		for _, start := range []int{0, 1, 2, 5, 30, 70, 1100} {
			wg.Add(1)
			sem <- true
			go func(b, m, start int) {
				defer wg.Done()
				defer func() { <-sem }()
				p, l := c17Proto(b, m, start)
				got := make(chan bool, 8)
				l.on = func() { p.enabled.Store(false); got <- true }
				p.Enable()
				select {
				case <-got:
				case <-time.After(20 * time.Second):
					return // nothing announced: nothing observed
				}
				vf.Case(fmt.Sprintf("loop %d/%d/%d", b, m, start))
				l.mu.Lock()
				g := l.delays[0]
				l.mu.Unlock()
				if w := c17Want(b, m, start+1); g != w {
					vf.Fail("loop", "initial delay %d s, maximum %d s, %d failed attempts: the retry loop waits %v, must wait %v", b, m, start+1, g, w)
				}
			}(c[0], c[1], start)
		}
	}
	wg.Wait()
	// whole histories in real time
	check := func(name string, l *c17Log, base, max int, from time.Time, n int) {
		l.mu.Lock()
		defer l.mu.Unlock()
		for i := 0; i+1 < len(l.fails) && i < n; i++ {
			d := l.fails[i+1].Sub(l.fails[i])
			w := c17Want(base, max, i+1)
			vf.Case(fmt.Sprintf("%s step %d", name, i))
			if d < w-20*time.Millisecond {
				vf.Fail("history", "%s: initial delay %d s, maximum %d s: retry %d came %v after the failure before it, must wait %v", name, base, max, i+1, d, w)
			}
		}
		for i, g := range l.delays {
			if i >= n {
				break
			}
			if w := c17Want(base, max, i+1); g != w {
				vf.Fail("history", "%s: initial delay %d s, maximum %d s: delay %d is %v, must be %v", name, base, max, i+1, g, w)
			}
		}
	}
	for _, c := range [][2]int{{1, 1}, {1, 2}, {1, 3}, {2, 3}} {
		wg.Add(1)
		go func(c [2]int) {
			defer wg.Done()
			p, l := c17Proto(c[0], c[1], 0)
			from := time.Now()
			p.Enable()
			time.Sleep(7 * time.Second)
			p.enabled.Store(false)
			check("refused connections", l, c[0], c[1], from, 99)
		}(c)
	}
	// two refusals, one success, refusals again: the delays start over
	wg.Add(1)
	go func() {
		defer wg.Done()
		p, l := c17Proto(1, 60, 0)
		p.Enable()
		time.Sleep(1500 * time.Millisecond)
		ln, err := net.Listen("tcp", fmt.Sprintf("127.0.0.1:%d", p.remotePort))
		if err != nil {
			return
		}
		ln.(*net.TCPListener).SetDeadline(time.Now().Add(4 * time.Second))
		conn, err := ln.Accept()
		ln.Close()
		if err != nil {
			return
		}
		conn.Close()
		l.mu.Lock()
		l.delays, l.fails = nil, nil
		l.mu.Unlock()
		time.Sleep(4500 * time.Millisecond)
		p.enabled.Store(false)
		l.mu.Lock()
		defer l.mu.Unlock()
		vf.Case("reset after success")
		var ds []time.Duration
		for _, x := range l.delays {
			if x != 45*time.Second {
				ds = append(ds, x)
			}
		}
		if len(ds) > 0 && ds[0] != time.Second {
			vf.Fail("reset", "after a successful connection the first retry delay is %v, must be 1s", ds[0])
		}
	}()
	wg.Wait()
}
