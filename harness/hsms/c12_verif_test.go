package hsms

import (
	"fmt"
	"testing"

	vf "github.com/younglifestyle/secs4go/zzvf"
)

// TestVerifC12 compares the state machine, alone and inside a connection, with the HSMS state model.
func TestVerifC12(t *testing.T) {
	defer vf.Done("a distinct event in a state, reached through a random history")
	NC, NS, SE := "NOT-CONNECTED", "CONNECTED_NOT-SELECTED", "CONNECTED_SELECTED"
	if StateNotConnected != NC || StateConnectedNotSelected != NS || StateConnectedSelected != SE {
		vf.Fail("names", "states are named %q, %q, %q", StateNotConnected, StateConnectedNotSelected, StateConnectedSelected)
	}
	next := map[string]map[string]string{
		NC: {"connect": NS},
		NS: {"disconnect": NC, "select": SE, "timeoutT7": NC},
		SE: {"disconnect": NC, "deselect": NS},
	}
	evs := []string{"connect", "disconnect", "select", "deselect", "timeoutT7"}
	for h := 0; h < vf.N(300); h++ {
		cs := NewConnectionStateMachine(nil)
		if h%2 == 1 {
			cs = NewHsmsProtocol("127.0.0.1", 1, false, 0, "c12").connectionState
		}
		st := NC
		var log []string
		if g := cs.CurrentState(); g != st {
			vf.Fail("initial", "initial state is %s", g)
			break
		}
		for i := 0; i < 12; i++ {
			e := evs[vf.R.Intn(len(evs))]
			log = append(log, e)
			var err error
			switch e {
			case "connect":
				err = cs.Connect()
			case "disconnect":
				err = cs.Disconnect()
			case "select":
				err = cs.Select()
			case "deselect":
				err = cs.Deselect()
			case "timeoutT7":
				err = cs.TimeoutT7()
			}
			vf.Case(fmt.Sprintf("%s in %s", e, st))
			to, ok := next[st][e]
			if !ok {
				to = st
			}
			if g := cs.CurrentState(); g != to {
				vf.Fail("transition", "events %v from the start lead to %s, must lead to %s", log, g, to)
				return
			}
			if (err == nil) != ok {
				vf.Fail("result", "events %v: the last one in state %s returned %v", log, st, err)
			}
			st = to
		}
	}
	hist(t, vf.N(8), "C12")
}
