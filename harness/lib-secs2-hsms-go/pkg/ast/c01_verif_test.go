package ast_test

import (
	"bytes"
	"fmt"
	"testing"

	vf "github.com/younglifestyle/secs4go/zzvf"
)

func c01One(it *vf.Item, key string) {
	var got []byte
	want := it.Encode()
	if p := vf.Try(func() { got = it.Build().ToBytes() }); p != nil {
		vf.Fail(key, "encoding %s panics: %v", it, p)
		return
	}
	vf.Case(fmt.Sprintf("%s %s", key, it))
	if !bytes.Equal(got, want) {
		i := 0
		for i < len(got) && i < len(want) && got[i] == want[i] {
			i++
		}
		hi := func(b []byte) []byte {
			if i+12 < len(b) {
				return b[i : i+12]
			}
			if i < len(b) {
				return b[i:]
			}
			return nil
		}
		vf.Fail(key, "%s encodes to %d bytes, want %d; first difference at byte %d: got % x want % x", it, len(got), len(want), i, hi(got), hi(want))
	}
}

func TestVerifC01(t *testing.T) {
	// boundaries of the length field for every kind and width
	for _, k := range vf.Kinds {
		for _, n := range []int{0, 1, 2, 3, 255, 256, 257, 65535, 65536, 65537} {
			for _, w := range []int{1, k.W} {
				c01One(vf.Big(k.K, k.W, n/w), "boundary")
				if n%w != 0 {
					c01One(vf.Big(k.K, k.W, n/w+1), "boundary")
				}
			}
		}
		for _, n := range vf.Ints {
			if n > 0 && n < 200000 && (k.K == "A" || k.K == "B" || k.K == "I" && k.W == 2) {
				c01One(vf.Big(k.K, k.W, int(n)), "const-size")
			}
		}
		if k.K != "L" {
			c01One(vf.Big(k.K, k.W, (1<<24-1)/k.W), "limit")
		}
	}
	for _, v := range vf.Ints {
		for _, w := range []int{1, 2, 4, 8} {
			c01One(&vf.Item{K: "I", W: w, I: []int64{vf.FitInt(v, w), vf.FitInt(-v, w)}}, "const-value")
			c01One(&vf.Item{K: "U", W: w, U: []uint64{uint64(v) << uint(64-8*w) >> uint(64-8*w)}}, "const-value")
		}
	}
	for v := 0; v < 65536; v++ {
		c01One(&vf.Item{K: "I", W: 2, I: []int64{int64(int16(v))}}, "all-i2")
		c01One(&vf.Item{K: "U", W: 2, U: []uint64{uint64(v)}}, "all-u2")
	}
	for i := 0; i < vf.N(6000); i++ {
		c01One(vf.Gen(3, 0, 600), "random")
		c01One(vf.Gen(3, 30, 40), "random-var")
	}
	vf.Done("length-field boundaries per kind and width, every 16-bit value, source constants, random item trees; a case is distinct by its printed tree")
}
