package hsms

import (
	"bytes"
	"fmt"
	"testing"
	"time"

	vf "github.com/younglifestyle/secs4go/zzvf"
)

func c13Sess() int {
	s := []int{1, 2, 255, 256, 511, 4660, 0x7FFF, 0x8000, 0xFFFE, vf.R.Intn(65535), vf.R.Intn(65535)}[vf.R.Intn(11)]
	if s == 0 || s == 0xFFFF {
		return 1
	}
	return s
}

func c13Sys() uint32 {
	switch vf.R.Intn(4) {
	case 0:
		return uint32(vf.R.Intn(300)) + 1
	case 1:
		return 0x80000000 | vf.R.Uint32()
	}
	return vf.R.Uint32()
}

// hist plays random histories against a passive entity and compares every answer and state with the model.
func hist(t *testing.T, n int, id string) {
	for h := 0; h < n; h++ {
		sess := c13Sess()
		p, q, err := vPassive(sess, nil)
		if err != nil {
			vf.Fail("setup", "%v", err)
			return
		}
		state := StateConnectedNotSelected
		var log []string
		say := func(key, f string, a ...interface{}) {
			vf.Fail(key, "session %d, history %v: %s", sess, log, fmt.Sprintf(f, a...))
		}
		if g := p.CurrentState(); g != state {
			say("initial", "state after the connection was made is %s", g)
			vStop(p, q)
			continue
		}
		over := false
		for step := 0; step < 14 && !over; step++ {
			var m []byte
			sys := c13Sys()
			st := []byte{1, 1, 1, 3, 3, 5, 2, 4, 4, 6, 7, 9, 5, 1, 3}[vf.R.Intn(15)]
			if st == 9 && step < 6 || st == 2 && step < 3 {
				st = 1
			}
			ms := sess
			rel := "same"
			switch vf.R.Intn(8) {
			case 0:
				ms, rel = 0xFFFF, "wild"
			case 1:
				if step > 8 {
					ms, rel = (sess+1+vf.R.Intn(60000))%65535, "other"
					if ms == sess {
						ms, rel = sess, "same"
					}
				}
			}
			if st == 5 || st == 6 {
				ms, rel = 0xFFFF, "wild"
			}
			status := byte(0)
			if (st == 2 || st == 4) && vf.R.Intn(3) == 0 {
				status = byte(1 + vf.R.Intn(4))
			}
			b2 := byte(0)
			m = vCtl(ms, b2, status, st, sys)
			log = append(log, fmt.Sprintf("%d/%s/%d in %s", st, rel, status, state))
			vf.Case(log[len(log)-1])
			q.raw(m)
			want := []byte(nil)
			next := state
			closes := false
			rsp := func(t, status byte) {
				want = append([]byte{}, m...)
				want[2], want[3], want[5] = 0, status, t
			}
			switch st {
			case 1:
				switch {
				case rel == "other":
					rsp(2, 1)
					next, closes = StateNotConnected, true
				case state == StateConnectedSelected:
					rsp(2, 1)
				default:
					rsp(2, 0)
					next = StateConnectedSelected
				}
			case 2:
				if status != 0 {
					next, closes = StateNotConnected, true
				} else {
					next = StateConnectedSelected
				}
			case 3:
				if state == StateConnectedSelected {
					rsp(4, 0)
					next = StateConnectedNotSelected
				} else {
					rsp(4, 1)
				}
			case 4:
				if status == 0 && state == StateConnectedSelected {
					next = StateConnectedNotSelected
				}
			case 5:
				rsp(6, 0)
			case 9:
				next, closes = StateNotConnected, true
			}
			var got [][]byte
			if closes {
				over = true
				for {
					f := q.next(3 * time.Second)
					if f == nil {
						break
					}
					got = append(got, f)
				}
				select {
				case <-q.gone:
				default:
					say("closed", "the connection is still open")
				}
				for k := 0; k < 200 && p.CurrentState() != next; k++ {
					time.Sleep(5 * time.Millisecond)
				}
			} else {
				fs, ok := q.barrier(0x12340000 + uint32(step))
				got = fs
				if !ok {
					say("dead", "no answer to a linktest.req afterwards")
					over = true
				}
				for k := 0; k < 20 && p.CurrentState() != next; k++ {
					time.Sleep(2 * time.Millisecond)
				}
			}
			switch {
			case want == nil && len(got) > 0:
				say("extra", "message %x was answered with %x, must not be answered", m, got[0])
				over = true
			case want != nil && len(got) != 1:
				say("count", "request %x got %d answers, must get one", m, len(got))
				over = true
			case want != nil && st == 1 && rel == "other":
				if got[0][3] == 0 || !bytes.Equal(got[0][:3], want[:3]) || !bytes.Equal(got[0][4:], want[4:]) {
					say("answer", "request %x for another session was answered with %x", m, got[0])
				}
			case want != nil && !bytes.Equal(want, got[0]):
				say("answer", "request %x was answered with %x, must be %x", m, got[0], want)
				over = true
			}
			if g := p.CurrentState(); g != next {
				say("state", "state is %s, must be %s", g, next)
				over = true
			}
			state = next
		}
		vStop(p, q)
	}
}

