package gem_test

import (
	"fmt"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"github.com/younglifestyle/secs4go/gem"
	"github.com/younglifestyle/secs4go/hsms"
	vf "github.com/younglifestyle/secs4go/zzvf"
)

const cComm = gem.CommunicationStateCommunicating

type ecAnswer struct {
	text   []byte
	accept bool
}

func ecAnswers() []ecAnswer {
	return []ecAnswer{
		{gL(gB(0), gL()).Encode(), true},
		{gL(gB(0)).Encode(), true},
		{gL(gB(1), gL()).Encode(), false},
		{gL(gB(2), gL()).Encode(), false},
		{gL(gB(255), gL()).Encode(), false},
		{gL(gB(128), gL()).Encode(), false},
		{gL(gB(), gL()).Encode(), false},
		{gL(gL(), gB(0)).Encode(), false},
		{gL(gU(1, 1), gL()).Encode(), false},
		{gL().Encode(), false},
		{gA("0").Encode(), false},
		{gB(1).Encode(), false},
		{nil, false},
		{gL(gB(1, 0), gL()).Encode(), false},
	}
}

func ecOpt(o *gem.Options) { o.EstablishCommunicationWait = 30 * time.Millisecond }

func ecWait(d time.Duration, ok func() bool) bool {
	for end := time.Now().Add(d); time.Now().Before(end); time.Sleep(5 * time.Millisecond) {
		if ok() {
			return true
		}
	}
	return ok()
}

// TestVerifC19 establishes, refuses, disables and drops communication in both roles.
func TestVerifC19(t *testing.T) {
	defer vf.Done("a distinct (role, scenario, answer)")
	var wg sync.WaitGroup
	room := make(chan bool, 12)
	run := func(f func()) {
		wg.Add(1)
		room <- true
		go func() {
			defer func() { <-room; wg.Done() }()
			f()
		}()
	}
	for _, dev := range []gem.DeviceType{gem.DeviceHost, gem.DeviceEquipment} {
		dev := dev
		for i := range ecAnswers() {
			a := ecAnswers()[i]
			run(func() { ecOwn(dev, i, a) })
			run(func() { ecTold(dev, i, a) })
		}
		for i := 0; i < vf.N(4); i++ {
			i := i
			run(func() { ecDrop(dev, i%2 == 1) })
			run(func() { ecFlood(dev) })
			run(func() { ecLate(dev, i) })
		}
	}
	wg.Wait()
}

// ecOwn lets the handler ask, and answers.
func ecOwn(dev gem.DeviceType, i int, a ecAnswer) {
	h, q, err := gStart(dev, ecOpt, nil)
	defer func() { gStop(h, q) }()
	if err != nil {
		vf.Fail("start", "%v", err)
		return
	}
	if q.count(1, 13) > 0 {
		return // it was asked before the answer could be set
	}
	if h.State() == cComm {
		vf.Fail("early", "communicating before any exchange")
		return
	}
	q.set(1, 13, a.text)
	vf.Case(fmt.Sprint("own ", dev, i))
	if !ecWait(3*time.Second, func() bool { return q.count(1, 13) > 0 }) {
		return
	}
	got := ecWait(400*time.Millisecond, func() bool { return h.State() == cComm })
	if got != a.accept {
		vf.Fail("answer", "device %v: an establish request answered %x leaves the handler in state %v", dev, a.text, h.State())
	}
}

// ecTold sends requests and unsolicited answers to the handler.
func ecTold(dev gem.DeviceType, i int, a ecAnswer) {
	var entered int32
	h, q, err := gStart(dev, ecOpt, func(h *gem.GemHandler) {
		h.Events().HandlerCommunicating.AddCallback(func(map[string]interface{}) { atomic.AddInt32(&entered, 1) })
	})
	defer func() { gStop(h, q) }()
	if err != nil {
		vf.Fail("start", "%v", err)
		return
	}
	q.mute(1, 13, true)
	if q.count(1, 13) > 0 {
		return
	}
	vf.Case(fmt.Sprint("told ", dev, i))
	q.raw(gData(false, 1, 14, 99, a.text))
	got := ecWait(300*time.Millisecond, func() bool { return h.State() == cComm })
	if got && !a.accept {
		vf.Fail("told", "device %v: an answer %x makes the handler communicating", dev, a.text)
		return
	}
	fn, b := q.ask(1, 13, [][]byte{{1, 0}, nil, gL(gA("m"), gA("s")).Encode()}[i%3])
	it := vf.Decode(b)
	if fn != 14 || it == nil || it.K != "L" || len(it.L) != 2 || it.L[0].K != "B" || len(it.L[0].I) != 1 {
		vf.Fail("commack", "device %v: S1F13 is answered by function %d %x", dev, fn, b)
		return
	}
	// an entered state may already have been left again: a retry timer may have run out meanwhile
	now := h.State() == cComm
	if acc := it.L[0].I[0] == 0; acc && !now && atomic.LoadInt32(&entered) == 0 || !acc && now {
		vf.Fail("agree", "device %v: S1F13 is answered with COMMACK %d, the state is %v", dev, it.L[0].I[0], h.State())
	}
	if it.L[0].I[0] != 0 {
		vf.Fail("enabled", "device %v: an enabled handler answers S1F13 with COMMACK %d", dev, it.L[0].I[0])
	}
	// a refusal after that
	if !a.accept {
		return
	}
	h.Disable()
	if h.State() == cComm {
		vf.Fail("disabled", "device %v: still communicating after Disable", dev)
	}
}

// ecDrop loses the connection and, if back, replaces it at once by another.
func ecDrop(dev gem.DeviceType, back bool) {
	h, q, err := gComm(dev, ecOpt, nil)
	defer func() { gStop(h, q) }()
	if err != nil {
		vf.Fail("start", "%v", err)
		return
	}
	addr := q.conn.RemoteAddr().String()
	p := q.p
	vf.Case(fmt.Sprint("drop ", dev, back))
	q.conn.Close()
	if back {
		var port int
		fmt.Sscanf(addr[len("127.0.0.1:"):], "%d", &port)
		start := time.Now()
		if !ecWait(time.Second, func() bool { return p.CurrentState() == hsms.StateNotConnected }) {
			return
		}
		r, err := gConnect(p, port)
		if r != nil {
			defer r.conn.Close()
			r.mute(1, 13, true)
		}
		if err != nil || time.Since(start) > 400*time.Millisecond || r.count(1, 13) > 0 {
			vf.Case("slow")
			if err != nil {
				return
			}
		}
	}
	if !ecWait(5*time.Second, func() bool { return h.State() != cComm }) {
		vf.Fail("lost", "device %v: communicating 5 s after the connection was lost (replaced: %v)", dev, back)
	}
}

// ecFlood disables the handler while requests keep arriving.
func ecFlood(dev gem.DeviceType) {
	h, q, err := gComm(dev, ecOpt, nil)
	defer func() { gStop(h, q) }()
	if err != nil {
		vf.Fail("start", "%v", err)
		return
	}
	vf.Case(fmt.Sprint("flood ", dev))
	stop := make(chan bool)
	go func() {
		for n := uint32(0); n < 3000; n++ {
			select {
			case <-stop:
				return
			case <-q.gone:
				return
			default:
			}
			q.raw(gData(true, 1, 13, 1<<24+n, []byte{1, 0}))
		}
	}()
	time.Sleep(3 * time.Millisecond)
	h.Disable()
	close(stop)
	time.Sleep(60 * time.Millisecond)
	if h.State() == cComm {
		vf.Fail("disabled", "device %v: communicating after Disable, with requests arriving meanwhile", dev)
	}
}

// ecLate answers the handler's request while it is being disabled.
func ecLate(dev gem.DeviceType, i int) {
	h, q, err := gStart(dev, ecOpt, nil)
	defer func() { gStop(h, q) }()
	if err != nil {
		vf.Fail("start", "%v", err)
		return
	}
	vf.Case(fmt.Sprint("late ", dev))
	if !ecWait(3*time.Second, func() bool { return q.count(1, 13) > 0 }) {
		return
	}
	time.Sleep(time.Duration(i%8) * 20 * time.Microsecond)
	h.Disable()
	time.Sleep(60 * time.Millisecond)
	if h.State() == cComm {
		vf.Fail("disabled", "device %v: communicating after Disable, with the answer arriving meanwhile", dev)
	}
}
