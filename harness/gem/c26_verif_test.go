package gem_test

import (
	"fmt"
	"testing"
	"time"

	"github.com/younglifestyle/secs4go/gem"
	vf "github.com/younglifestyle/secs4go/zzvf"
)

func ppText() string {
	n := vf.R.Intn(40)
	switch vf.R.Intn(12) {
	case 0:
		n = 0
	case 1:
		n = 255 + vf.R.Intn(3)
	case 2:
		n = 65535 + vf.R.Intn(3)
	}
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(vf.R.Intn(128))
	}
	if n > 0 && vf.R.Intn(2) == 0 {
		for k := 0; k < 1+n/8; k++ {
			b[vf.R.Intn(n)] = byte(vf.R.Intn(256))
		}
	}
	switch pad := "\x00 \t\n\r\xff"; vf.R.Intn(8) {
	case 0:
		b = append(b, pad[vf.R.Intn(len(pad))])
	case 1:
		b = append([]byte{pad[vf.R.Intn(len(pad))]}, b...)
	}
	return string(b)
}

// ppNear is a content that differs a little from the one stored before.
func ppNear(old string, known bool) string {
	if !known || len(old) == 0 || vf.R.Intn(2) == 0 {
		return ppText()
	}
	b := []byte(old)
	switch i := vf.R.Intn(len(b)); vf.R.Intn(4) {
	case 0:
		b[i] ^= byte(1 << vf.R.Intn(8))
	case 1:
		b = append(b, b[i])
	case 2:
		b = append(b[:i], b[i+1:]...)
	}
	return string(b)
}

// ppBin is the content as a binary item, or as ASCII where that is possible.
func ppItem(s string) *vf.Item {
	txt := true
	var v []int64
	for i := 0; i < len(s); i++ {
		txt = txt && s[i] < 128
		v = append(v, int64(s[i]))
	}
	if txt && vf.R.Intn(3) > 0 {
		return gA(s)
	}
	return gB(v...)
}

func ppBytes(it *vf.Item) (string, bool) {
	if it == nil {
		return "", false
	}
	switch it.K {
	case "A":
		return it.S, true
	case "B":
		b := make([]byte, len(it.I))
		for i, v := range it.I {
			b[i] = byte(v)
		}
		return string(b), true
	}
	return "", false
}

func ppShort(s string) string {
	if len(s) > 24 {
		return fmt.Sprintf("%q... (%d bytes)", s[:24], len(s))
	}
	return fmt.Sprintf("%q", s)
}

// TestVerifC26 uploads and fetches process programs over the wire.
func TestVerifC26(t *testing.T) {
	defer vf.Done("a distinct (operation, stored programs, kind of identifier and content, size class)")
	for n := 0; n < vf.N(4); n++ {
		c26Equipment()
	}
	c26Host()
}

func c26Equipment() {
	h, q, err := gComm(gem.DeviceEquipment, nil, nil)
	defer gStop(h, q)
	if err != nil {
		vf.Fail("start", "%v", err)
		return
	}
	stored := map[string]string{}
	ids := gIDs(8)
	for k := 0; k < 150; k++ {
		id := ids[vf.R.Intn(len(ids))]
		switch vf.R.Intn(5) {
		case 0:
			s := ppText()
			if err := h.RegisterProcessProgram(id.app(), s); err != nil {
				vf.Fail("register", "registering the program %v: %v", id, err)
				return
			}
			stored[id.key()] = s
		case 1, 2:
			old, known := stored[id.key()]
			s := ppNear(old, known)
			it := ppItem(s)
			msg := gL(id.item(), it)
			good := true
			switch vf.R.Intn(14) {
			case 0:
				msg.L[0], good = gBadID(), false
			case 1:
				msg.L[1], good = []*vf.Item{gL(), gU(1, 1), gO(true), gL(gA("x")), gF(4, 1)}[vf.R.Intn(5)], false
			case 2:
				msg, good = gL(id.item()), false
			case 3:
				msg, good = []*vf.Item{gL(), gA("x"), gB(1), gU(4)}[vf.R.Intn(4)], false
			case 4:
				msg.L = append(msg.L, gA("y")) // ignored
			}
			f, b := q.ask(7, 3, msg.Encode())
			got := vf.Decode(b)
			vf.Case(fmt.Sprint("S7F3 ", good, len(stored), id.isTxt, it.K, len(s)/200))
			if f != 4 || got == nil || got.K != "B" || len(got.I) != 1 {
				vf.Fail("answer", "S7F3 of %v is answered by function %d %x", id, f, b)
				return
			}
			if (got.I[0] == 0) != good {
				vf.Fail("ack", "S7F3 of %v %s, well-formed: %v, is answered with code %d", id, ppShort(s), good, got.I[0])
				return
			}
			if good {
				stored[id.key()] = s
			}
		default:
			it := id.item()
			ask := it
			if vf.R.Intn(3) == 0 {
				ask = gL(it)
			}
			key, ok := id.key(), true
			if vf.R.Intn(12) == 0 {
				ask = gBadID()
				for ask.K == "L" && len(ask.L) > 0 {
					ask = gBadID()
				}
				ok = false
			}
			f, b := q.ask(7, 5, ask.Encode())
			got := vf.Decode(b)
			want, known := stored[key]
			known = known && ok
			vf.Case(fmt.Sprint("S7F5 ", known, len(stored), id.isTxt, len(want)/200))
			if f != 6 || got == nil || got.K != "L" || len(got.L) != 3 {
				vf.Fail("answer", "S7F5 %v is answered by function %d %s", ask, f, ppShort(string(b)))
				return
			}
			s, isText := ppBytes(got.L[1])
			code, isCode := ppBytes(got.L[2])
			if !known {
				want = ""
			}
			if !isText || !isCode || len(code) != 1 || (code[0] == 0) != known || s != want || ok && !gIsID(got.L[0], key) {
				vf.Fail("content", "S7F5 %v is answered with content %s and code %x; the program stored under it is %s (stored: %v)", ask, ppShort(s), code, ppShort(want), known)
				return
			}
		}
	}
	// what is stored is what was uploaded
	n := 0
	for _, p := range h.ListProcessPrograms() {
		key := ""
		switch id := p.ID().(type) {
		case uint64:
			key = gID{n: id}.key()
		case string:
			key = gID{s: id, isTxt: true}.key()
		}
		if s, ok := stored[key]; !ok || s != p.Body {
			vf.Fail("list", "the program listed under %s has the content %s, must be %s", key, ppShort(p.Body), ppShort(s))
			return
		}
		n++
	}
	if n != len(stored) {
		vf.Fail("list", "%d programs are listed, %d are stored", n, len(stored))
	}
}

func c26Host() {
	h, q, err := gComm(gem.DeviceHost, nil, nil)
	defer gStop(h, q)
	if err != nil {
		vf.Fail("start", "%v", err)
		return
	}
	for k := 0; k < vf.N(60); k++ {
		id, s := gAnyID(), ppText()
		if vf.R.Intn(2) == 0 {
			code := vf.R.Intn(7)
			q.mu.Lock()
			q.body[gKey(7, 3)] = gB(int64(code)).Encode()
			q.mu.Unlock()
			q.drain()
			ack, err := h.UploadProcessProgram(id.app(), s)
			f := q.prim(3 * time.Second)
			var got *vf.Item
			if f != nil {
				got = vf.Decode(f[10:])
			}
			vf.Case(fmt.Sprint("upload ", code, len(s)/200))
			if err != nil || ack != code {
				vf.Fail("host-ack", "UploadProcessProgram(%v, %s) gives %d, %v; the answer was %d", id, ppShort(s), ack, err, code)
				return
			}
			body := ""
			ok := got != nil && got.K == "L" && len(got.L) == 2 && gIsID(got.L[0], id.key())
			if ok {
				body, ok = ppBytes(got.L[1])
			}
			if !ok || body != s {
				vf.Fail("host-upload", "UploadProcessProgram(%v, %s) sends the content %s", id, ppShort(s), ppShort(body))
				return
			}
			continue
		}
		code := int64(vf.R.Intn(2))
		q.mu.Lock()
		q.body[gKey(7, 5)] = gL(id.item(), ppItem(s), gB(code)).Encode()
		q.mu.Unlock()
		body, ack, err := h.RequestProcessProgram(id.app())
		vf.Case(fmt.Sprint("request ", code, len(s)/200))
		if err != nil || body != s || ack != int(code) {
			vf.Fail("host-request", "RequestProcessProgram(%v) gives %s, %d, %v; the answer was %s, %d", id, ppShort(body), ack, err, ppShort(s), code)
			return
		}
	}
}
