package gem_test

import (
	"fmt"
	"sync"
	"testing"
	"time"

	"github.com/younglifestyle/secs4go/gem"
	vf "github.com/younglifestyle/secs4go/zzvf"
)

const (
	cEO = gem.ControlStateEquipmentOffline
	cAO = gem.ControlStateAttemptOnline
	cHO = gem.ControlStateHostOffline
	cOL = gem.ControlStateOnlineLocal
	cOR = gem.ControlStateOnlineRemote
)

// cmModel is the GEM control state model, written from its definition.
type cmModel struct {
	s gem.ControlState
	m gem.OnlineControlMode
}

func (c *cmModel) online() bool { return c.s == cOL || c.s == cOR }
func (c *cmModel) enter() {
	c.s = cOR
	if c.m == gem.OnlineModeLocal {
		c.s = cOL
	}
}

var cmOps = []string{"SwitchOnline", "SwitchOffline", "SwitchOnlineLocal", "SwitchOnlineRemote", "AttemptOnlineFailEquipmentOffline", "AttemptOnlineFailHostOffline", "AttemptOnlineSuccess", "RemoteOffline", "RemoteOnline", "Start"}

func (c *cmModel) do(op string) (ok bool) {
	switch op {
	case "Start":
		return true
	case "SwitchOnline":
		if ok = c.s == cEO || c.s == cAO; ok {
			c.s = cAO
		}
	case "SwitchOffline":
		if ok = c.online(); ok {
			c.s = cEO
		}
	case "SwitchOnlineLocal":
		if ok = c.online(); ok {
			c.s, c.m = cOL, gem.OnlineModeLocal
		}
	case "SwitchOnlineRemote":
		if ok = c.online(); ok {
			c.s, c.m = cOR, gem.OnlineModeRemote
		}
	case "AttemptOnlineFailEquipmentOffline":
		if ok = c.s == cAO || c.s == cEO; ok {
			c.s = cEO
		}
	case "AttemptOnlineFailHostOffline":
		if ok = c.s == cAO || c.s == cHO; ok {
			c.s = cHO
		}
	case "AttemptOnlineSuccess":
		if ok = c.s == cAO || c.online(); ok && c.s == cAO {
			c.enter()
		}
	case "RemoteOffline":
		if ok = c.online(); ok {
			c.s = cHO
		}
	case "RemoteOnline":
		if ok = c.s == cHO; ok {
			c.enter()
		}
	}
	return
}

func cmDo(sm *gem.ControlStateMachine, op string) error {
	switch op {
	case "SwitchOnline":
		return sm.SwitchOnline()
	case "SwitchOffline":
		return sm.SwitchOffline()
	case "SwitchOnlineLocal":
		return sm.SwitchOnlineLocal()
	case "SwitchOnlineRemote":
		return sm.SwitchOnlineRemote()
	case "AttemptOnlineFailEquipmentOffline":
		return sm.AttemptOnlineFailEquipmentOffline()
	case "AttemptOnlineFailHostOffline":
		return sm.AttemptOnlineFailHostOffline()
	case "AttemptOnlineSuccess":
		return sm.AttemptOnlineSuccess()
	case "RemoteOffline":
		return sm.RemoteOffline()
	case "RemoteOnline":
		return sm.RemoteOnline()
	}
	sm.Start()
	return nil
}

func cmNew() (*gem.ControlStateMachine, *cmModel, string) {
	is := []gem.ControlState{"", cEO, cAO, cHO, gem.ControlStateOnline, cOL, cOR, gem.ControlStateInit, "X", gem.ControlStateOffline}
	ms := []gem.OnlineControlMode{"", gem.OnlineModeLocal, gem.OnlineModeRemote, "X"}
	i, m := is[vf.R.Intn(len(is))], ms[vf.R.Intn(len(ms))]
	c := &cmModel{s: cAO, m: gem.OnlineModeRemote}
	if m == gem.OnlineModeLocal {
		c.m = m
	}
	switch i {
	case cEO, cHO:
		c.s = i
	case gem.ControlStateOnline:
		c.enter()
	}
	return gem.NewControlStateMachine(gem.ControlStateMachineOptions{InitialState: i, InitialOnlineMode: m}), c, fmt.Sprintf("initial state %q mode %q", i, m)
}

// TestVerifC18 drives the state machine and whole handlers against the control model.
func TestVerifC18(t *testing.T) {
	defer vf.Done("a distinct (state, mode, operation) of the machine or of a handler")
	for h := 0; h < vf.N(300); h++ {
		c18Machine()
	}
	for h := 0; h < vf.N(20); h++ {
		c18Concurrent()
	}
	var wg sync.WaitGroup
	seeds := vf.N(10)
	plans := make([][]int, seeds)
	for i := range plans {
		for k := 0; k < 30; k++ {
			plans[i] = append(plans[i], vf.R.Intn(1000))
		}
	}
	for i := range plans {
		wg.Add(1)
		go func(pl []int) { defer wg.Done(); c18Handler(pl) }(plans[i])
	}
	wg.Wait()
	for h := 0; h < vf.N(3); h++ {
		c18Notify()
	}
}

func c18Machine() {
	sm, c, hist := cmNew()
	for k := 0; k < 20; k++ {
		if sm.State() != c.s || sm.OnlineMode() != c.m || sm.IsOnlineState() != c.online() {
			vf.Fail("state", "%s: the state is %s/%s, must be %s/%s", hist, sm.State(), sm.OnlineMode(), c.s, c.m)
			return
		}
		op := cmOps[vf.R.Intn(len(cmOps))]
		vf.Case(string(c.s) + string(c.m) + op)
		hist += ", " + op
		ok := c.do(op)
		if err := cmDo(sm, op); (err == nil) != ok {
			vf.Fail("refusal", "%s: the operation returns %v, must succeed: %v", hist, err, ok)
			return
		}
	}
}

// c18Concurrent: remote offline and remote online alternate whatever the interleaving, and so do the
// two operator switches; every observed state is one of the five.
func c18Concurrent() {
	sm := gem.NewControlStateMachine(gem.ControlStateMachineOptions{InitialState: gem.ControlStateOnline, InitialOnlineMode: gem.OnlineModeLocal})
	var wg sync.WaitGroup
	var mu sync.Mutex
	n := map[string]int{}
	for g := 0; g < 8; g++ {
		wg.Add(1)
		op := []string{"RemoteOffline", "RemoteOnline"}[g%2]
		go func() {
			defer wg.Done()
			for k := 0; k < 300; k++ {
				if cmDo(sm, op) == nil {
					mu.Lock()
					n[op]++
					mu.Unlock()
				}
				switch s := sm.State(); s {
				case cOL, cHO:
				default:
					vf.Fail("concurrent-state", "under concurrent remote requests of an ONLINE_LOCAL machine the state reads %s", s)
					return
				}
			}
		}()
	}
	wg.Wait()
	d := n["RemoteOffline"] - n["RemoteOnline"]
	if s := sm.State(); !(d == 0 && s == cOL || d == 1 && s == cHO) {
		vf.Fail("concurrent", "%d remote offline and %d remote online requests succeeded from ONLINE_LOCAL, and the machine ends in %s", n["RemoteOffline"], n["RemoteOnline"], s)
	}
	vf.Case("concurrent")
}

type c18Note struct{ a, b gem.ControlState }

// c18Handler drives one equipment handler over loopback, one operation at a time.
func c18Handler(pl []int) {
	inits := []gem.ControlState{cEO, cAO, cHO, gem.ControlStateOnline}
	modes := []gem.OnlineControlMode{gem.OnlineModeLocal, gem.OnlineModeRemote}
	c := &cmModel{m: modes[pl[1]%2]}
	init := inits[pl[0]%4]
	var mu sync.Mutex
	var notes []c18Note
	hist := fmt.Sprintf("initial %s %s", init, c.m)
	h, q, err := gStart(gem.DeviceEquipment, func(o *gem.Options) {
		o.InitialControlState, o.InitialOnlineMode = init, c.m
	}, func(h *gem.GemHandler) {
		h.Events().ControlStateChanged.AddCallback(func(d map[string]interface{}) {
			mu.Lock()
			notes = append(notes, c18Note{d["previous"].(gem.ControlState), d["current"].(gem.ControlState)})
			mu.Unlock()
		})
	})
	defer gStop(h, q)
	if err != nil {
		vf.Fail("start", "%v", err)
		return
	}
	q.prims = make(chan []byte, 10000)
	// establishing communication makes an equipment in any offline state try to go online
	if f, _ := q.ask(1, 13, []byte{1, 0}); f != 14 {
		vf.Fail("s1f13", "S1F13 is answered by function %d", f)
		return
	}
	settle := func() gem.ControlState {
		for k := 0; k < 400; k++ {
			if s := h.ControlState(); s != cAO && s != cEO {
				return s
			}
			time.Sleep(5 * time.Millisecond)
		}
		return h.ControlState()
	}
	c.s = settle()
	if !c.online() && init != gem.ControlStateOnline && c.s != cHO {
		vf.Fail("attempt", "%s: after communication is established and S1F1 answered the state is %s", hist, c.s)
		return
	}
	time.Sleep(30 * time.Millisecond)
	mu.Lock()
	notes = nil
	mu.Unlock()
	want := func(a gem.ControlState, path ...gem.ControlState) bool {
		var w []c18Note
		for _, b := range path {
			if a != b {
				w = append(w, c18Note{a, b})
			}
			a = b
		}
		for k := 0; k < 200; k++ {
			mu.Lock()
			n := len(notes)
			mu.Unlock()
			if n >= len(w) && h.ControlState() == a {
				break
			}
			time.Sleep(5 * time.Millisecond)
		}
		mu.Lock()
		got := notes
		notes = nil
		mu.Unlock()
		if s := h.ControlState(); s != a {
			vf.Fail("handler-state", "%s: the state is %s, must be %s", hist, s, a)
			return false
		}
		if fmt.Sprint(got) != fmt.Sprint(w) {
			vf.Fail("notification", "%s: the notifications are %v, must be %v", hist, got, w)
			return false
		}
		c.s = a
		return true
	}
	ops := []string{"online", "offline", "local", "remote", "S1F15", "S1F17", "online-denied"}
	for k := 2; k < len(pl); k++ {
		op := ops[pl[k]%len(ops)]
		vf.Case("handler " + string(c.s) + string(c.m) + op)
		hist += ", " + op
		before := c.s
		var path []gem.ControlState
		switch op {
		case "online", "online-denied":
			q.mu.Lock()
			q.abort[gKey(1, 1)] = op == "online-denied"
			q.mu.Unlock()
			if before == cEO {
				path = append(path, cAO)
				if op == "online" {
					d := &cmModel{m: c.m}
					d.enter()
					path = append(path, d.s)
				} else {
					path = append(path, cHO)
				}
			}
			err := h.SwitchControlOnline()
			if before == cEO && err != nil {
				vf.Fail("switch", "%s: refused in %s: %v", hist, before, err)
				return
			}
		case "offline":
			if c.online() {
				path = append(path, cEO)
			}
			if err := h.SwitchControlOffline(); c.online() && err != nil {
				vf.Fail("switch", "%s: refused in %s: %v", hist, before, err)
				return
			}
		case "local", "remote":
			m, s, f := gem.OnlineModeLocal, cOL, h.SwitchControlOnlineLocal
			if op == "remote" {
				m, s, f = gem.OnlineModeRemote, cOR, h.SwitchControlOnlineRemote
			}
			ok := c.online()
			if ok {
				c.m = m
				path = append(path, s)
			}
			if err := f(); (err == nil) != ok {
				vf.Fail("switch", "%s: returns %v in %s", hist, err, before)
				return
			}
		case "S1F15":
			if c.online() {
				path = append(path, cHO)
			}
			if f, b := q.ask(1, 15, []byte{1, 0}); f != 16 || len(b) == 0 || b[len(b)-1] != 0 {
				vf.Fail("s1f15", "%s: answered by function %d %x in %s", hist, f, b, before)
				return
			}
		case "S1F17":
			ack := byte(1)
			if c.online() {
				ack = 2
			} else if before == cHO {
				ack = 0
				d := &cmModel{m: c.m}
				d.enter()
				path = append(path, d.s)
			}
			if f, b := q.ask(1, 17, []byte{1, 0}); f != 18 || len(b) == 0 || b[len(b)-1] != ack {
				vf.Fail("s1f17", "%s: answered by function %d %x in %s, must be code %d", hist, f, b, before, ack)
				return
			}
		}
		if !want(before, path...) {
			return
		}
	}
}

// c18Notify: operators and the host act at once; every notification is a transition of the model and
// together they form one path from the first state to the last.
func c18Notify() {
	var mu sync.Mutex
	var notes []c18Note
	h, q, err := gComm(gem.DeviceEquipment, func(o *gem.Options) { o.InitialControlState = gem.ControlStateOnline }, nil)
	defer gStop(h, q)
	if err != nil {
		vf.Fail("start", "%v", err)
		return
	}
	time.Sleep(50 * time.Millisecond)
	first := h.ControlState()
	h.Events().ControlStateChanged.AddCallback(func(d map[string]interface{}) {
		mu.Lock()
		notes = append(notes, c18Note{d["previous"].(gem.ControlState), d["current"].(gem.ControlState)})
		mu.Unlock()
	})
	var wg sync.WaitGroup
	for g := 0; g < 6; g++ {
		wg.Add(1)
		go func(g int) {
			defer wg.Done()
			for k := 0; k < 40; k++ {
				switch (g + k) % 6 {
				case 0:
					h.SwitchControlOnline()
				case 1:
					h.SwitchControlOffline()
				case 2:
					h.SwitchControlOnlineLocal()
				case 3:
					h.SwitchControlOnlineRemote()
				case 4:
					q.ask(1, 15, []byte{1, 0})
				case 5:
					q.ask(1, 17, []byte{1, 0})
				}
			}
		}(g)
	}
	wg.Wait()
	for k := 0; k < 200 && h.ControlState() == cAO; k++ {
		time.Sleep(5 * time.Millisecond)
	}
	time.Sleep(50 * time.Millisecond)
	vf.Case("notify")
	last := h.ControlState()
	mu.Lock()
	defer mu.Unlock()
	on := func(s gem.ControlState) bool { return s == cOL || s == cOR }
	bal := map[gem.ControlState]int{}
	for _, n := range notes {
		bal[n.a]--
		bal[n.b]++
		if n.a == n.b || !(on(n.a) || n.a == cEO && n.b == cAO || n.a == cAO && (on(n.b) || n.b == cHO) || n.a == cHO && on(n.b)) || on(n.a) && n.b == cAO {
			vf.Fail("transition", "a notification reports %s to %s, which is no transition of the control model", n.a, n.b)
			return
		}
	}
	bal[first]++
	bal[last]--
	for s, n := range bal {
		if n != 0 {
			vf.Fail("path", "the %d notifications are no path from %s to %s: state %s is entered %d times more than left", len(notes), first, last, s, n)
			return
		}
	}
}
