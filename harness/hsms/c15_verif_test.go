package hsms

import (
	"bytes"
	"errors"
	"sync"
	"testing"
	"time"

	"github.com/younglifestyle/secs4go/lib-secs2-hsms-go/pkg/ast"
	vf "github.com/younglifestyle/secs4go/zzvf"
)

// TestVerifC15 sends random primaries to entities with random handler tables.
func TestVerifC15(t *testing.T) {
	defer vf.Done("a distinct (registration, handler result, wait bit, session relation) of an incoming message")
	for h := 0; h < vf.N(24); h++ {
		c15Table()
	}
}

type c15Call struct {
	which int
	msg   *ast.DataMessage
}

func c15Table() {
	sess := c13Sess()
	p, q, err := vSelected(sess, nil)
	defer vStop(p, q)
	if err != nil {
		vf.Fail("setup", "%v", err)
		return
	}
	var mu sync.Mutex
	var calls []c15Call
	results := map[int]string{}
	handler := func(n int) DataMessageHandler {
		return func(m *ast.DataMessage) (*ast.DataMessage, error) {
			mu.Lock()
			calls = append(calls, c15Call{n, m})
			mu.Unlock()
			rep := func(w int) *ast.DataMessage {
				f := 0
				if m.FunctionCode() < 255 && w != 1 {
					f = m.FunctionCode() + 1
				}
				if w == 1 {
					f = 1
				}
				return ast.NewDataMessage("R", m.StreamCode(), f, w, "H<->E", ast.NewUintNode(4, n))
			}
			switch results[n] {
			case "nothing":
				return nil, nil
			case "error":
				return nil, errors.New("no")
			case "both":
				return rep(0), errors.New("no")
			case "optional":
				return rep(2), nil
			case "wait":
				return rep(1), nil
			}
			if results[n] == "addressed" { // the handler has filled in a session and system bytes by itself
				return rep(0).SetSessionIDAndSystemBytes(n%65536, []byte{1, byte(n), 3, 4}), nil
			}
			return rep(0), nil
		}
	}
	kinds := []string{"reply", "reply", "addressed", "optional", "nothing", "error", "both", "wait"}
	// streams and functions whose decimal digits run together are the interesting neighbours
	pool := [][2]int{{1, 11}, {11, 1}, {1, 1}, {1, 13}, {11, 3}, {12, 1}, {1, 21}, {2, 11}, {21, 1}, {2, 1}, {22, 13}, {2, 213}, {9, 5}, {127, 255}, {12, 7}, {1, 27}, {64, 3}, {6, 43}, {0, 1}, {0, 11}, {7, 3}}
	// and so are those that a sum of the two numbers would confuse
	bs, bf := 2+vf.R.Intn(120), 1+2*vf.R.Intn(128)
	var near [][2]int
	for _, d := range [][2]int{{0, 0}, {1, -100}, {-1, 100}, {1, -10}, {-1, 10}, {1, -128}, {-1, 128}, {0, 128}, {0, -128}, {64, 0}, {-64, 0}, {1, -64}, {-1, 64}, {2, -2}, {-2, 2}} {
		if s, f := bs+d[0], bf+d[1]; s >= 0 && s < 128 && f > 0 && f < 256 {
			near = append(near, [2]int{s, f})
		}
	}
	if vf.R.Intn(3) > 0 {
		pool = near
	}
	want := map[[2]int]int{}
	n := 0
	for k := 0; k < 4+vf.R.Intn(14); k++ {
		sf := pool[vf.R.Intn(len(pool))]
		if vf.R.Intn(5) == 0 {
			p.RegisterHandler(sf[0], sf[1], nil)
			delete(want, sf)
			continue
		}
		n++
		results[n] = kinds[vf.R.Intn(len(kinds))]
		p.RegisterHandler(sf[0], sf[1], handler(n))
		want[sf] = n
	}
	dflt := 0
	if vf.R.Intn(3) > 0 {
		n++
		dflt = n
		results[n] = kinds[vf.R.Intn(len(kinds))]
		p.RegisterDefaultHandler(handler(n))
		if vf.R.Intn(4) == 0 {
			dflt = 0
			p.RegisterDefaultHandler(nil)
		}
	}
	for k := 0; k < 16; k++ {
		sf := pool[vf.R.Intn(len(pool))]
		w := vf.R.Intn(3) > 0
		ms, rel := sess, "same"
		if vf.R.Intn(3) == 0 {
			ms, rel = vf.R.Intn(65536), "other"
		}
		sys := c13Sys()
		body := []byte{0xA9, 2, byte(k), byte(sys)}
		m := vData(ms, w, byte(sf[0]), byte(sf[1]), sys, body)
		which := want[sf]
		how := "registered"
		if which == 0 {
			which, how = dflt, "default"
		}
		if which == 0 {
			how = "none"
		}
		res := results[which]
		vf.Case(how + "/" + res + "/" + map[bool]string{true: "W", false: "-"}[w] + "/" + rel)
		mu.Lock()
		calls = nil
		mu.Unlock()
		q.raw(m)
		fs, ok := q.barrier(0x77000000 + uint32(k))
		if !ok {
			vf.Fail("dead", "after S%dF%d %x (handler: %s %s) the entity no longer answers", sf[0], sf[1], m, how, res)
			return
		}
		mu.Lock()
		got := calls
		mu.Unlock()
		if which == 0 {
			if len(got) != 0 {
				vf.Fail("handler", "S%dF%d has no handler, yet handler %d ran", sf[0], sf[1], got[0].which)
			}
			continue
		}
		if len(got) != 1 || got[0].which != which {
			vf.Fail("handler", "S%dF%d must be given to handler %d once, but ran %v (table %v, default %d)", sf[0], sf[1], which, len(got), want, dflt)
			return
		}
		g := got[0].msg
		if g.StreamCode() != sf[0] || g.FunctionCode() != sf[1] || (g.WaitBit() == "true") != w || g.SessionID() != ms || !bytes.Equal(g.ToBytes()[4:], m) {
			vf.Fail("given", "message %x was given to its handler as %x", m, g.ToBytes())
		}
		reply := w && (res == "reply" || res == "addressed" || res == "optional" || res == "wait")
		if !reply {
			if len(fs) != 0 {
				vf.Fail("unasked", "request %x (reply asked: %v, handler result: %s) was answered with %x", m, w, res, fs[0])
			}
			continue
		}
		if len(fs) != 1 {
			vf.Fail("count", "request %x (handler result: %s) got %d answers", m, res, len(fs))
			continue
		}
		f := fs[0]
		if len(f) < 10 || !bytes.Equal(f[:2], m[:2]) || !bytes.Equal(f[6:10], m[6:10]) || f[4] != 0 || f[5] != 0 {
			vf.Fail("mirror", "request %x was answered with %x: not its session and system bytes", m, f)
			continue
		}
		fn := byte(0)
		if sf[1] < 255 {
			fn = byte(sf[1]) + 1
		}
		if res == "wait" {
			fn = 1
		}
		text := []byte{0xB1, 4, 0, 0, byte(which >> 8), byte(which)}
		if f[2]&127 != byte(sf[0]) || f[3] != fn || !bytes.Equal(f[10:], text) {
			vf.Fail("content", "handler %d answered %x with S%dF%d %x, but %x was sent", which, m, sf[0], fn, text, f)
		}
	}
	// the answer of an application that replies by itself
	sys := c13Sys()
	id := []byte{byte(sys >> 24), byte(sys >> 16), byte(sys >> 8), byte(sys)}
	vf.Case("SendResponse")
	if err := p.SendResponse(ast.NewDataMessage("R", 1, 2, 2, "H<->E", ast.NewUintNode(1, 9)), id); err != nil {
		vf.Fail("response", "SendResponse: %v", err)
		return
	}
	f := q.next(5 * time.Second)
	if len(f) < 10 || int(f[0])*256+int(f[1]) != sess || !bytes.Equal(f[6:10], id) || f[2] != 1 || f[3] != 2 {
		vf.Fail("response", "SendResponse for system bytes %x sent %x", id, f)
	}
}
