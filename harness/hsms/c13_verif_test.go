package hsms

import (
	"testing"
	"time"

	vf "github.com/younglifestyle/secs4go/zzvf"
)

// TestVerifC13 drives the real protocol over loopback with random histories of control messages.
func TestVerifC13(t *testing.T) {
	defer vf.Done("a distinct (state, request, session relation, status) step of a history")
	hist(t, vf.N(24), "C13")
	c13Active()
}

// c13Active: the entity's own select.req is completed by the response with its system bytes only.
func c13Active() {
	for _, mode := range []string{"accept", "others first", "refuse"} {
		sess := c13Sess()
		p, q, err := vActive(sess, func(p *HsmsProtocol) { p.Timeouts().SetAutoReconnect(false) })
		if err != nil {
			vf.Fail("setup", "%v", err)
			return
		}
		f := q.next(5 * time.Second)
		vf.Case("active/" + mode)
		if len(f) != 10 || f[5] != 1 || int(f[0])*256+int(f[1]) != sess || f[2] != 0 || f[3] != 0 || f[4] != 0 {
			vf.Fail("select", "the select.req of an entity with session %d is %x", sess, f)
			vStop(p, q)
			continue
		}
		r := append([]byte{}, f...)
		r[5] = 2
		if mode == "others first" {
			o := append([]byte{}, f...)
			o[5] = 6
			o[9] ^= 0x55
			q.raw(o)
		}
		if mode == "refuse" {
			r[3] = 2
			q.raw(r)
			if x := q.next(3 * time.Second); x != nil {
				vf.Fail("extra", "a refused select was followed by %x", x)
			}
			for k := 0; k < 200 && p.CurrentState() != StateNotConnected; k++ {
				time.Sleep(5 * time.Millisecond)
			}
			if g := p.CurrentState(); g != StateNotConnected {
				vf.Fail("state", "state after a refused select is %s", g)
			}
			vStop(p, q)
			continue
		}
		q.raw(r)
		fs, ok := q.barrier(99)
		if !ok || len(fs) != 0 {
			vf.Fail("extra", "a select.rsp was answered with %x (alive: %v)", fs, ok)
		}
		if g := p.CurrentState(); g != StateConnectedSelected {
			vf.Fail("state", "state after an accepted select is %s", g)
		}
		vStop(p, q)
	}
}
