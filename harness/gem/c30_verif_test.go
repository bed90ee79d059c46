package gem_test

import (
	"bytes"
	"errors"
	"fmt"
	"sync"
	"testing"
	"time"

	"github.com/younglifestyle/secs4go/gem"
	vf "github.com/younglifestyle/secs4go/zzvf"
)

// c30Parse reads YYYYMMDDhhmmss or YYYYMMDDhhmmsscc.
func c30Parse(s string) (time.Time, bool) {
	if len(s) != 14 && len(s) != 16 {
		return time.Time{}, false
	}
	n := func(i, k int) (v int) {
		for _, c := range []byte(s[i : i+k]) {
			v = v*10 + int(c-'0')
		}
		return
	}
	for i := 0; i < len(s); i++ {
		if s[i] < '0' || s[i] > '9' {
			return time.Time{}, false
		}
	}
	y, mo, d, h, mi, se := n(0, 4), n(4, 2), n(6, 2), n(8, 2), n(10, 2), n(12, 2)
	dim := []int{31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31}
	if y%4 == 0 && (y%100 != 0 || y%400 == 0) {
		dim[1] = 29
	}
	if mo < 1 || mo > 12 || d < 1 || d > dim[mo-1] || h > 23 || mi > 59 || se > 59 {
		return time.Time{}, false
	}
	cc := 0
	if len(s) == 16 {
		cc = n(14, 2)
	}
	return time.Date(y, time.Month(mo), d, h, mi, se, cc*10000000, time.UTC), true
}

func c30Text() string {
	t := time.Date(vf.R.Intn(10000), time.Month(1+vf.R.Intn(12)), 1+vf.R.Intn(28), vf.R.Intn(24), vf.R.Intn(60), vf.R.Intn(60), 0, time.UTC)
	s := t.Format("20060102150405")
	if vf.R.Intn(3) > 0 {
		s += fmt.Sprintf("%02d", vf.R.Intn(100))
	}
	b := []byte(s)
	switch vf.R.Intn(5) {
	case 0:
		// one field out of its range or at its edge
		f := [][]int{{4, 13}, {4, 0}, {6, 32}, {6, 0}, {6, 29}, {6, 31}, {6, 30}, {8, 24}, {10, 60}, {12, 60}, {12, 61}, {4, 2}}[vf.R.Intn(12)]
		copy(b[f[0]:], fmt.Sprintf("%02d", f[1]))
		if vf.R.Intn(3) == 0 {
			copy(b[4:], "0229")
		}
	case 1:
		// one character replaced
		b[vf.R.Intn(len(b))] = "aZ :-+.,/T\x00;"[vf.R.Intn(12)]
	case 2:
		// shorter or longer
		switch vf.R.Intn(4) {
		case 0:
			b = b[:vf.R.Intn(len(b)+1)]
		case 1:
			b = append(b, "0123456789abcd"[:1+vf.R.Intn(14)]...)
		case 2:
			b = b[:14]
			b = append(b, "0.5,x"[vf.R.Intn(5)])
		case 3:
			b = append(b[:14], []string{".5", "zz", "-1", " 0", "0x"}[vf.R.Intn(5)]...)
		}
	}
	return string(b)
}

// TestVerifC30 asks equipments for their time and sets it.
func TestVerifC30(t *testing.T) {
	defer vf.Done("a distinct (request, handler behaviour, validity of the text)")
	for i := 0; i < vf.N(2000); i++ {
		s := c30Text()
		w, ok := c30Parse(s)
		g, err := gem.ParseSEMITime(s)
		vf.Case(fmt.Sprint("parse", len(s), ok))
		if (err == nil) != ok || ok && !g.Equal(w) {
			vf.Fail("parse", "ParseSEMITime(%q) is %v, %v; the text is valid: %v, and means %v", s, g, err, ok, w)
			return
		}
	}
	for h := 0; h < vf.N(4); h++ {
		c30Run(h)
	}
}

func c30Run(n int) {
	var mu sync.Mutex
	var got []time.Time
	var code byte
	var fail error
	now := time.Now()
	asks := 0
	h, q, err := gComm(gem.DeviceEquipment, nil, nil)
	defer gStop(h, q)
	if err != nil {
		vf.Fail("start", "%v", err)
		return
	}
	sync := func(t time.Time) (byte, error) {
		mu.Lock()
		defer mu.Unlock()
		got = append(got, t)
		return code, fail
	}
	prov := func() time.Time {
		mu.Lock()
		defer mu.Unlock()
		asks++
		return now
	}
	handler, provider := n%4 != 0, n%2 == 0
	if handler {
		h.SetClockSyncHandler(sync)
	}
	if provider {
		h.SetTimeProvider(prov)
	}
	for k := 0; k < 40; k++ {
		if vf.R.Intn(12) == 0 {
			handler = !handler
			if handler {
				h.SetClockSyncHandler(sync)
			} else {
				h.SetClockSyncHandler(nil)
			}
		}
		if vf.R.Intn(12) == 0 {
			provider = !provider
			if provider {
				h.SetTimeProvider(prov)
			} else {
				h.SetTimeProvider(nil)
			}
		}
		if vf.R.Intn(3) == 0 {
			zone := []*time.Location{time.UTC, time.FixedZone("x", 3600*(vf.R.Intn(25)-12)+60*vf.R.Intn(60))}[vf.R.Intn(2)]
			mu.Lock()
			now = time.Date(1000+vf.R.Intn(8000), time.Month(1+vf.R.Intn(12)), 1+vf.R.Intn(28), vf.R.Intn(24), vf.R.Intn(60), vf.R.Intn(60), vf.R.Intn(1000000000), zone)
			asks = 0
			mu.Unlock()
			lo := time.Now()
			f, b := q.ask(2, 17, nil)
			hi := time.Now()
			it := vf.Decode(b)
			vf.Case(fmt.Sprint("S2F17", provider))
			if f != 18 || it == nil || it.K != "A" || len(it.S) != 16 {
				vf.Fail("s2f17", "S2F17 is answered by function %d %x, must be a text of 16 digits", f, b)
				return
			}
			if provider {
				w := fmt.Sprintf("%04d%02d%02d%02d%02d%02d00", now.Year(), int(now.Month()), now.Day(), now.Hour(), now.Minute(), now.Second())
				if it.S != w {
					vf.Fail("time", "at equipment time %v S2F17 is answered %q, must be %q", now, it.S, w)
					return
				}
			} else if s := it.S[:14]; s < lo.Format("20060102150405") || s > hi.Format("20060102150405") {
				vf.Fail("time", "between %v and %v S2F17 is answered %q", lo, hi, it.S)
				return
			}
			continue
		}
		mu.Lock()
		got = nil
		code, fail = byte(vf.R.Intn(4)), nil
		switch vf.R.Intn(6) {
		case 0:
			fail = errors.New("x")
		case 1:
			code = byte(vf.R.Intn(256))
		}
		mu.Unlock()
		s := c30Text()
		w, ok := c30Parse(s)
		text := gA(s).Encode()
		switch vf.R.Intn(10) {
		case 0:
			text, ok = nil, false
		case 1:
			text, ok = []*vf.Item{gL(gA(s)), gB(1, 2), gU(8, 20200101000000), gL()}[vf.R.Intn(4)].Encode(), false
		}
		if bytes.IndexFunc([]byte(s), func(r rune) bool { return r > 126 }) >= 0 {
			continue
		}
		f, b := q.ask(2, 31, text)
		vf.Case(fmt.Sprint("S2F31", handler, ok, fail != nil))
		want := byte(1)
		calls := 0
		if ok && handler {
			calls = 1
			if fail == nil {
				want = code
			}
		}
		mu.Lock()
		calledWith := got
		mu.Unlock()
		if f != 32 || !bytes.Equal(b, gB(int64(want)).Encode()) {
			vf.Fail("s2f31", "S2F31 %q (%x), handler %v code %d error %v: answered by function %d %x, must be code %d", s, text, handler, code, fail, f, b, want)
			return
		}
		if len(calledWith) != calls {
			vf.Fail("handler", "S2F31 %q (%x): the handler is called %d times with %v, must be %d", s, text, len(calledWith), calledWith, calls)
			return
		}
		if calls == 1 && !calledWith[0].Equal(w) {
			vf.Fail("exact", "S2F31 %q: the handler gets %v, must be %v", s, calledWith[0], w)
			return
		}
	}
}
