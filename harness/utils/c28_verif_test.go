package utils

import (
	"runtime"
	"sync"
	"testing"
	"time"

	vf "github.com/younglifestyle/secs4go/zzvf"
)

// TestVerifC28: every value put is taken once and in order, and a waiting consumer gets a value
// put before its deadline.
func TestVerifC28(t *testing.T) {
	// one goroutine: any mix of puts and gets behaves like a first-in first-out list
	n := 60
	if vf.Thor {
		n = 600
	}
	for it := 0; it < n; it++ {
		q := NewDeque()
		next, want := 0, 0
		for step := 0; step < 40; step++ {
			if next == want || vf.R.Intn(2) == 0 {
				q.Put(next)
				next++
				continue
			}
			v, err := q.Get(1)
			vf.Case("sequential")
			if err != nil || v != want {
				vf.Fail("fifo", "values 0..%d were put and %d taken; Get then returned %v, %v instead of %d", next-1, want, v, err, want)
				return
			}
			want++
		}
		for want < next {
			v, err := q.Get(1)
			if err != nil || v != want {
				vf.Fail("fifo", "draining: Get returned %v, %v instead of %d", v, err, want)
				return
			}
			want++
		}
	}
	// an empty queue: an error, and not before the time is up
	{
		q := NewDeque()
		start := time.Now()
		v, err := q.Get(1)
		vf.Case("timeout")
		if err == nil {
			vf.Fail("ghost", "Get on an empty queue returned %v without an error", v)
		} else if d := time.Since(start); d < 900*time.Millisecond {
			vf.Fail("early", "Get(1) on an empty queue gave up after %v", d)
		}
	}
	// a value put while the consumer waits
	for _, d := range []time.Duration{20 * time.Millisecond, 700 * time.Millisecond} {
		q := NewDeque()
		go func(d time.Duration) { time.Sleep(d); q.Put("late") }(d)
		start := time.Now()
		v, err := q.Get(2)
		vf.Case("waiting")
		if err != nil || v != "late" {
			vf.Fail("wakeup", "a value put %v after Get(2) began: Get returned %v, %v after %v", d, v, err, time.Since(start))
		}
	}
	// producers against one consumer
	rounds := 3
	if vf.Thor {
		rounds = 30
	}
	for r := 0; r < rounds; r++ {
		q := NewDeque()
		const P, M = 4, 400
		var wg sync.WaitGroup
		for p := 0; p < P; p++ {
			wg.Add(1)
			go func(p int) {
				defer wg.Done()
				for i := 0; i < M; i++ {
					q.Put([2]int{p, i})
					if i%37 == 0 {
						runtime.Gosched()
					}
				}
			}(p)
		}
		var last [P]int
		for i := 0; i < P*M; i++ {
			v, err := q.Get(2)
			vf.Case("producers")
			if err != nil {
				vf.Fail("lost", "%d producers put %d values each; Get failed after %d values: %v", P, M, i, err)
				break
			}
			x := v.([2]int)
			if x[1] != last[x[0]] {
				vf.Fail("order", "producer %d: value %d arrived where %d was due", x[0], x[1], last[x[0]])
				break
			}
			last[x[0]]++
		}
		wg.Wait()
	}
	// many pairs in lock step: the put falls anywhere around the moment the consumer begins to wait
	rounds = 3000
	if vf.Thor {
		rounds = 60000
	}
	var wg sync.WaitGroup
	var mu sync.Mutex
	bad := 0
	for g := 0; g < 16; g++ {
		wg.Add(1)
		seed := vf.R.Int63()
		go func() {
			defer wg.Done()
			q, back := NewDeque(), NewDeque()
			go func() {
				for i := 0; i < rounds; i++ {
					v, err := back.Get(2)
					if err != nil || v != i {
						mu.Lock()
						bad++
						if bad == 1 {
							vf.Fail("wakeup", "ping-pong round %d: the answer was put but Get(2) returned %v, %v", i, v, err)
						}
						mu.Unlock()
						return
					}
					q.Put(i + 1)
				}
			}()
			back.Put(0)
			for i := 0; i < rounds; i++ {
				v, err := q.Get(2)
				if err != nil || v != i+1 {
					mu.Lock()
					bad++
					if bad == 1 {
						vf.Fail("wakeup", "ping-pong round %d: the value was put but Get(2) returned %v, %v", i, v, err)
					}
					mu.Unlock()
					return
				}
				for k := seed % int64(i+1) % 50; k > 0; k-- {
					runtime.Gosched()
				}
				if i+1 < rounds {
					back.Put(i + 1)
				}
			}
		}()
	}
	wg.Wait()
	vf.Case("pingpong")
	vf.Done("values taken = values put, in order; a value put before the deadline is delivered")
}
