package hsms

import (
	"bytes"
	"sync"
	"testing"
	"time"

	"github.com/younglifestyle/secs4go/lib-secs2-hsms-go/pkg/ast"
	vf "github.com/younglifestyle/secs4go/zzvf"
)

var c16Known = map[int]bool{1: true, 2: true, 3: true, 4: true, 5: true, 6: true, 7: true, 8: true, 10: true, 12: true, 13: true, 14: true, 15: true, 16: true, 17: true, 21: true}

// TestVerifC16 sends messages nobody handles and lets transactions time out.
func TestVerifC16(t *testing.T) {
	defer vf.Done("a distinct (stream, wait bit, session relation) of an unhandled message or timed out transaction")
	for h := 0; h < vf.N(10); h++ {
		c16Unhandled()
	}
	for h := 0; h < vf.N(3); h++ {
		c16Timeout()
	}
}

// c16Report compares one frame with the stream 9 report it must be; sys == nil: any system bytes.
func c16Report(what string, sess int, fn byte, f, header, sys []byte) {
	if len(f) != 22 || f[2] != 9 || f[3] != fn || f[4] != 0 || f[5] != 0 || int(f[0])*256+int(f[1]) != sess {
		vf.Fail("report", "%s is reported with %x, must be S9F%d without wait bit for session %d", what, f, fn, sess)
		return
	}
	if f[10] != 0x21 || f[11] != 10 || !bytes.Equal(f[12:], header) {
		vf.Fail("header", "%s with header %x is reported with text %x", what, header, f[10:])
	}
	if sys != nil && !bytes.Equal(sys, f[6:10]) {
		vf.Fail("system", "%s with header %x is reported with system bytes %x", what, header, f[6:10])
	}
}

func c16Unhandled() {
	sess := c13Sess()
	var mu sync.Mutex
	var infos []*S9ErrorInfo
	handled := 0
	callback := vf.R.Intn(3) > 0
	p, q, err := vSelected(sess, func(p *HsmsProtocol) {
		if callback {
			p.OnS9Error = func(i *S9ErrorInfo) {
				mu.Lock()
				infos = append(infos, i)
				mu.Unlock()
			}
		}
		p.RegisterHandler(1, 13, func(*ast.DataMessage) (*ast.DataMessage, error) {
			mu.Lock()
			handled++
			mu.Unlock()
			return nil, nil
		})
	})
	defer vStop(p, q)
	if err != nil {
		vf.Fail("setup", "%v", err)
		return
	}
	for k := 0; k < 50; k++ {
		s, fn := vf.R.Intn(128), vf.R.Intn(256)
		switch vf.R.Intn(5) {
		case 0:
			s = []int{9, 9, 11, 12, 17, 18, 19, 20, 21, 22, 0, 127}[vf.R.Intn(12)]
		case 1:
			s, fn = 9, []int{1, 3, 5, 7, 9, 11, 13, 0, 2}[vf.R.Intn(9)]
		case 2:
			s = vf.R.Intn(23)
		}
		w := vf.R.Intn(2) == 0
		if w && fn%2 == 0 {
			fn = (fn + 1) % 256
		}
		ms, rel := sess, "same"
		if vf.R.Intn(3) == 0 {
			ms, rel = vf.R.Intn(65536), "other"
		}
		sys := c13Sys()
		m := vData(ms, w, byte(s), byte(fn), sys, [][]byte{nil, {0xA5, 1, 7}, {1, 0}, {0x21, 3, 1, 2, 3}}[vf.R.Intn(4)])
		vf.Case("stream " + string(rune('0'+s/10)) + string(rune('0'+s%10)) + map[bool]string{true: "W", false: "-"}[w] + rel)
		mu.Lock()
		infos, handled = nil, 0
		mu.Unlock()
		q.raw(m)
		fs, ok := q.barrier(0x66000000 + uint32(k))
		if !ok {
			vf.Fail("dead", "after %x the entity no longer answers", m)
			return
		}
		mu.Lock()
		is, hs := infos, handled
		mu.Unlock()
		if s == 9 {
			if len(fs) != 0 {
				vf.Fail("quiet", "stream 9 message %x was answered with %x", m, fs[0])
			}
			if callback && (len(is) != 1 || is[0].ErrorCode != fn || !bytes.Equal(is[0].SystemBytes, m[6:10])) {
				vf.Fail("callback", "stream 9 message %x: %d callbacks", m, len(is))
			}
			continue
		}
		if len(is) != 0 {
			vf.Fail("callback", "message %x raised the stream 9 callback", m)
		}
		if s == 1 && fn == 13 {
			if hs != 1 || len(fs) != 0 {
				vf.Fail("handled", "handled message %x: %d handler calls, frames %x", m, hs, fs)
			}
			continue
		}
		if len(fs) != 1 {
			vf.Fail("count", "unhandled message %x was reported %d times: %x", m, len(fs), fs)
			continue
		}
		code := byte(3)
		if c16Known[s] {
			code = 5
		}
		c16Report("an unhandled message", sess, code, fs[0], m[:10], m[6:10])
	}
}

func c16Timeout() {
	sess := c13Sess()
	p, q, err := vSelected(sess, func(p *HsmsProtocol) { p.Timeouts().SetT3ReplyTimeout(1) })
	defer vStop(p, q)
	if err != nil {
		vf.Fail("setup", "%v", err)
		return
	}
	var heads [][]byte
	n := 6
	var wg sync.WaitGroup
	for k := 0; k < n; k++ {
		w := 1 + vf.R.Intn(2)
		m := ast.NewDataMessage("T", vf.R.Intn(128), vf.R.Intn(128)*2+1, w, "H<->E", ast.NewUintNode(1, k))
		wg.Add(1)
		go func() {
			defer wg.Done()
			if r, err := p.SendAndWait(m); err == nil {
				vf.Fail("reply", "no reply was sent, yet SendAndWait returned %v", r)
			}
		}()
		f := q.next(5 * time.Second)
		if len(f) < 10 {
			vf.Fail("sent", "a primary was sent as %x", f)
			return
		}
		heads = append(heads, f[:10])
	}
	wg.Wait()
	fs, ok := q.barrier(0x55000001)
	if !ok {
		vf.Fail("dead", "after timeouts the entity no longer answers")
		return
	}
	left := append([][]byte{}, heads...)
	for _, f := range fs {
		vf.Case("timeout")
		best := heads[0]
		for i, h := range left {
			if len(f) == 22 && bytes.Equal(f[12:], h) {
				best = h
				left = append(left[:i:i], left[i+1:]...)
				break
			}
		}
		c16Report("a timed out transaction", sess, 9, f, best, nil)
	}
	if len(fs) != n || len(left) != 0 {
		vf.Fail("count", "%d transactions timed out and %d reports were sent; not reported: %x", n, len(fs), left)
	}
}
