package gem_test

import (
	"bytes"
	"fmt"
	"strings"

	vf "github.com/younglifestyle/secs4go/zzvf"
)

// gID is an identifier: a number or a text.
type gID struct {
	n     uint64
	s     string
	isTxt bool
}

func (d gID) key() string {
	if d.isTxt {
		return "text " + d.s
	}
	return fmt.Sprint("number ", d.n)
}

var gNums = []uint64{0, 1, 2, 9, 10, 127, 128, 255, 256, 257, 1000, 32767, 32768, 65535, 65536, 65537, 1 << 24, 1<<31 - 1, 1 << 31, 1<<32 - 1, 1 << 32, 1<<32 + 1, 1<<53 + 1, 1<<63 - 1, 1 << 63, 1<<64 - 1}
var gTexts = []string{"", "1", "10", "255", "N:1", "S:1", "01", "a", "A", "a ", " a", "%d", "257", "id", "-1", "0", "1.0", strings.Repeat("x", 255), strings.Repeat("x", 256), "\x00", "\x7f", "a\nb"}

func gAnyID() gID {
	if vf.R.Intn(3) == 0 {
		return gID{s: gTexts[vf.R.Intn(len(gTexts))], isTxt: true}
	}
	return gID{n: gNums[vf.R.Intn(len(gNums))]}
}

// gIDs draws n identifiers without repetition.
func gIDs(n int) (r []gID) {
	seen := map[string]bool{}
	for len(r) < n {
		d := gAnyID()
		if !seen[d.key()] {
			seen[d.key()] = true
			r = append(r, d)
		}
	}
	return
}

// app is the identifier as an application gives it, in any Go type it fits.
func (d gID) app() interface{} {
	if d.isTxt {
		return d.s
	}
	n := d.n
	for {
		switch vf.R.Intn(10) {
		case 0:
			if n < 1<<8 {
				return uint8(n)
			}
		case 1:
			if n < 1<<16 {
				return uint16(n)
			}
		case 2:
			if n < 1<<32 {
				return uint32(n)
			}
		case 3:
			return n
		case 4:
			return uint(n)
		case 5:
			if n < 1<<7 {
				return int8(n)
			}
		case 6:
			if n < 1<<15 {
				return int16(n)
			}
		case 7:
			if n < 1<<31 {
				return int32(n)
			}
		case 8:
			if n < 1<<63 {
				return int64(n)
			}
		case 9:
			if n < 1<<63 {
				return int(n)
			}
		}
	}
}

// item is the identifier as an item of any kind and width that can carry it.
func (d gID) item() *vf.Item {
	if d.isTxt {
		return gA(d.s)
	}
	more := 0
	if vf.R.Intn(8) == 0 {
		more = 1 + vf.R.Intn(2)
	}
	for {
		w := []int{1, 2, 4, 8}[vf.R.Intn(4)]
		if vf.R.Intn(2) == 0 {
			if w < 8 && d.n >= 1<<(8*w) {
				continue
			}
			u := []uint64{d.n}
			for i := 0; i < more; i++ {
				u = append(u, uint64(vf.R.Intn(256)))
			}
			return gU(w, u...)
		}
		if d.n >= 1<<(8*w-1) {
			continue
		}
		v := []int64{int64(d.n)}
		for i := 0; i < more; i++ {
			v = append(v, int64(vf.R.Intn(256)-128))
		}
		return gI(w, v...)
	}
}

// gBadID is an item that is no identifier.
func gBadID() *vf.Item {
	w := []int{1, 2, 4, 8}[vf.R.Intn(4)]
	return []*vf.Item{gL(), gB(1), gB(), gO(true), gU(w), gI(w), gI(w, -1), gI(w, -128, 5), gF(4, 1), gF(8), gL(gU(1, 1)), gL(gA("a"), gA("b"))}[vf.R.Intn(12)]
}

// gKeyOf is what an item identifies.
func gKeyOf(it *vf.Item) (string, bool) {
	if it == nil {
		return "", false
	}
	switch it.K {
	case "A":
		return gID{s: it.S, isTxt: true}.key(), true
	case "U":
		if len(it.U) > 0 {
			return gID{n: it.U[0]}.key(), true
		}
	case "I":
		if len(it.I) > 0 && it.I[0] >= 0 {
			return gID{n: uint64(it.I[0])}.key(), true
		}
	}
	return "", false
}

func gEq(a, b *vf.Item) bool {
	if a == nil || b == nil {
		return a == b
	}
	return bytes.Equal(a.Encode(), b.Encode())
}

// gIsID says whether an answer's item identifies key.
func gIsID(it *vf.Item, key string) bool {
	k, ok := gKeyOf(it)
	return ok && k == key
}

// gWord is a short ASCII text.
func gWord() string {
	b := make([]byte, vf.R.Intn(6))
	for i := range b {
		b[i] = byte(32 + vf.R.Intn(95))
	}
	return string(b)
}

// gReq draws a list of identifier items: known, unknown, repeated and malformed ones.
func gReq(known []gID, max int) *vf.Item {
	l := gL()
	for n := vf.R.Intn(max + 1); n > 0; n-- {
		switch {
		case vf.R.Intn(10) == 0:
			l.L = append(l.L, gBadID())
		case vf.R.Intn(6) == 0 || len(known) == 0:
			l.L = append(l.L, gAnyID().item())
		default:
			l.L = append(l.L, known[vf.R.Intn(len(known))].item())
		}
	}
	return l
}
