package ast_test

import (
	"bytes"
	"fmt"
	"testing"
	"unicode"

	"github.com/younglifestyle/secs4go/lib-secs2-hsms-go/pkg/ast"
	vf "github.com/younglifestyle/secs4go/zzvf"
)

type c03M struct {
	name          string
	s, f, w       int
	dir           string
	it            *vf.Item
	node          ast.ItemNode
	ses           int
	sys           []byte
	hsms, hasVars bool
}

func (m *c03M) desc() string {
	return fmt.Sprintf("%q S%dF%d w%d %q session %d sys %v hsms %v vars %v item %s", m.name, m.s, m.f, m.w, m.dir, m.ses, m.sys, m.hsms, m.hasVars, vf.Cut(fmt.Sprint(m.node), 80))
}

func c03Space(s string) bool {
	for _, r := range s {
		if unicode.IsSpace(r) {
			return true
		}
	}
	return false
}

func (m *c03M) ok() bool {
	if c03Space(m.name) || m.s < 0 || m.s > 127 || m.f < 0 || m.f > 255 || m.w < 0 || m.w > 2 || m.w == 1 && m.f%2 == 0 {
		return false
	}
	if m.dir != "H->E" && m.dir != "H<-E" && m.dir != "H<->E" {
		return false
	}
	if m.hsms && (m.w == 2 || m.ses < 0 || m.ses > 65535 || m.hasVars) {
		return false
	}
	return true
}

func (m *c03M) make() (d *ast.DataMessage, p interface{}) {
	p = vf.Try(func() {
		if m.hsms {
			d = ast.NewHSMSDataMessage(m.name, m.s, m.f, m.w, m.dir, m.node, m.ses, m.sys)
		} else {
			d = ast.NewDataMessage(m.name, m.s, m.f, m.w, m.dir, m.node)
		}
	})
	return
}

func c03Sys(s []byte) []byte {
	r := make([]byte, 4)
	copy(r, s)
	return r
}

func c03Look(key, what string, d *ast.DataMessage, m *c03M, w, ses int, sys []byte) {
	wb := []string{"false", "true", "optional"}[w]
	if d.Name() != m.name || d.StreamCode() != m.s || d.FunctionCode() != m.f || d.WaitBit() != wb || d.Direction() != m.dir || d.SessionID() != ses || !bytes.Equal(d.SystemBytes(), sys) {
		vf.Fail(key, "%s of %s: holds %q S%dF%d %s %s session %d sys %v", what, m.desc(), d.Name(), d.StreamCode(), d.FunctionCode(), d.WaitBit(), d.Direction(), d.SessionID(), d.SystemBytes())
	}
	if d.Type() != "data message" {
		vf.Fail(key, "type %q", d.Type())
	}
	got := d.ToBytes()
	if w == 2 || ses == -1 || m.hasVars {
		if len(got) != 0 {
			vf.Fail(key, "%s of %s: incomplete message encodes to %d bytes", what, m.desc(), len(got))
		}
		return
	}
	b := m.it.Encode()
	n := len(b) + 10
	c := byte(m.s)
	if w == 1 {
		c |= 0x80
	}
	want := append([]byte{byte(n >> 24), byte(n >> 16), byte(n >> 8), byte(n), byte(ses >> 8), byte(ses), c, byte(m.f), 0, 0, sys[0], sys[1], sys[2], sys[3]}, b...)
	if !bytes.Equal(got, want) {
		vf.Fail(key, "%s of %s: frame %v, want %v", what, m.desc(), vf.Cut(fmt.Sprintf("%x", got), 80), vf.Cut(fmt.Sprintf("%x", want), 80))
	}
}

func c03Run(key string, m *c03M) {
	vf.Case(m.desc())
	ok := m.ok()
	d, p := m.make()
	if (p == nil) != ok {
		vf.Fail(key, "creating %s: panic %v, want success %v", m.desc(), p, ok)
		return
	}
	if !ok {
		return
	}
	w, ses, sys := m.w, -1, make([]byte, 4)
	if m.hsms {
		ses, sys = m.ses, c03Sys(m.sys)
	}
	c03Look(key, "creation", d, m, w, ses, sys)
	// setters
	for k := 0; k < 2; k++ {
		if vf.R.Intn(2) == 0 {
			b := vf.R.Intn(2) == 0
			bad := w == 2 && b && m.f%2 == 0
			var e *ast.DataMessage
			p := vf.Try(func() { e = d.SetWaitBit(b) })
			if (p != nil) != bad {
				vf.Fail(key, "SetWaitBit(%v) on wait %d of %s: panic %v", b, w, m.desc(), p)
				return
			}
			if p == nil {
				if w == 2 {
					w = 0
					if b {
						w = 1
					}
				}
				d = e
				c03Look(key, "SetWaitBit", d, m, w, ses, sys)
			}
		} else {
			s2 := []int{-2, -1, 0, 1, 255, 256, 65535, 65536, 1 << 32, vf.R.Intn(65536)}[vf.R.Intn(10)]
			b2 := make([]byte, vf.R.Intn(7))
			vf.R.Read(b2)
			bad := s2 < -1 || s2 > 65535
			var e *ast.DataMessage
			p := vf.Try(func() { e = d.SetSessionIDAndSystemBytes(s2, b2) })
			if (p != nil) != bad {
				vf.Fail(key, "SetSessionIDAndSystemBytes(%d,%v) on %s: panic %v", s2, b2, m.desc(), p)
				return
			}
			if p == nil {
				d, ses, sys = e, s2, c03Sys(b2)
				c03Look(key, fmt.Sprintf("SetSessionIDAndSystemBytes(%d,%v)", s2, b2), d, m, w, ses, sys)
			}
		}
	}
}

func TestVerifC03(t *testing.T) {
	dirs := []string{"H->E", "H<-E", "H<->E"}
	one := &vf.Item{K: "U", W: 1, U: []uint64{7}}
	node := one.Build()
	// every stream, function and wait bit around the legal ranges
	for s := -2; s < 260; s++ {
		for _, f := range []int{-1, 0, 1, 2, 127, 128, 254, 255, 256, 257, vf.R.Intn(256)} {
			for w := -1; w < 4; w++ {
				c03Run("codes", &c03M{s: s, f: f, w: w, dir: dirs[vf.R.Intn(3)], it: one, node: node, ses: vf.R.Intn(65536), sys: []byte{1, 2, 3, 4}, hsms: vf.R.Intn(2) == 0})
			}
		}
	}
	for f := -2; f < 300; f++ {
		for w := 0; w < 3; w++ {
			for h := 0; h < 2; h++ {
				c03Run("codes", &c03M{s: vf.R.Intn(128), f: f, w: w, dir: dirs[vf.R.Intn(3)], it: one, node: node, ses: vf.R.Intn(65536), sys: []byte{1, 2, 3, 4}, hsms: h == 0})
			}
		}
	}
	for _, x := range vf.Ints {
		c03Run("consts", &c03M{s: int(x), f: 1, w: 1, dir: "H->E", it: one, node: node, ses: 1, sys: []byte{1, 2, 3, 4}, hsms: true})
		c03Run("consts", &c03M{s: 1, f: int(x), w: 0, dir: "H->E", it: one, node: node, ses: 1, sys: []byte{1, 2, 3, 4}, hsms: true})
		c03Run("consts", &c03M{s: 1, f: 1, w: int(x), dir: "H->E", it: one, node: node, ses: 1, sys: []byte{1, 2, 3, 4}, hsms: vf.R.Intn(2) == 0})
		c03Run("consts", &c03M{s: 1, f: 1, w: 1, dir: "H->E", it: one, node: node, ses: int(x), sys: []byte{1, 2, 3, 4}, hsms: true})
	}
	for ses := -3; ses < 65540; ses += 1 + vf.R.Intn(40) {
		c03Run("session", &c03M{s: 1, f: 1, w: 1, dir: "H->E", it: one, node: node, ses: ses, sys: []byte{255, 254, 128, 127}, hsms: true})
	}
	names := append([]string{"", "x", "a b", " a", "a ", "a\tb", "a\nb", "名前", "a\u00a0", "\u2003x", "a\u0085", "\xff", "é", "\xc2\x85", "x\xa0"}, vf.Strs...)
	for _, n := range names {
		for h := 0; h < 2; h++ {
			c03Run("name", &c03M{name: n, s: 1, f: 1, w: 1, dir: "H->E", it: one, node: node, ses: 5, sys: []byte{1, 2, 3, 4}, hsms: h == 0})
			c03Run("direction", &c03M{s: 1, f: 1, w: 1, dir: n, it: one, node: node, ses: 5, sys: []byte{1, 2, 3, 4}, hsms: h == 0})
		}
	}
	for _, d := range []string{"H->e", "E->H", "H<- E", "->", "H", "E", "H<->E ", "H->EH", "xH->E", "h->e", "H<-E"} {
		c03Run("direction", &c03M{s: 1, f: 1, w: 1, dir: d, it: one, node: node, ses: 5, sys: []byte{1, 2, 3, 4}, hsms: false})
	}
	for i := 0; i < vf.N(15000); i++ {
		vars := 0
		if vf.R.Intn(4) == 0 {
			vars = 40
		}
		it := vf.Gen(vf.R.Intn(4), vars, 6)
		m := &c03M{s: vf.R.Intn(128), f: vf.R.Intn(256), w: vf.R.Intn(3), dir: dirs[vf.R.Intn(3)], it: it, ses: vf.R.Intn(65536), hsms: vf.R.Intn(3) > 0}
		if p := vf.Try(func() { m.node = it.Build() }); p != nil {
			continue
		}
		m.hasVars = len(m.node.Variables()) > 0
		if vf.R.Intn(3) > 0 {
			m.w = vf.R.Intn(2)
			m.f |= m.w
		}
		m.sys = make([]byte, vf.R.Intn(8))
		vf.R.Read(m.sys)
		c03Run("random", m)
	}
	for _, n := range []int{0, 1, 240, 245, 246, 255, 256, 65520, 65526, 65535, 65536, 1<<24 - 20, 1<<24 - 1} {
		it := &vf.Item{K: "A", S: string(bytes.Repeat([]byte("q"), n))}
		c03Run("large", &c03M{s: 1, f: 1, w: 1, dir: "H->E", it: it, node: it.Build(), ses: 5, sys: []byte{1, 2, 3, 4}, hsms: true})
	}
	c03Run("empty", &c03M{s: 1, f: 1, w: 1, dir: "H->E", it: &vf.Item{K: "E"}, node: ast.NewEmptyItemNode(), ses: 5, sys: []byte{1, 2, 3, 4}, hsms: true})
	// a message longer than 16 MB: the fourth length byte
	big := &vf.Item{K: "L"}
	for i := 0; i < 3; i++ {
		big.L = append(big.L, &vf.Item{K: "A", S: string(bytes.Repeat([]byte("q"), 1<<23))})
	}
	c03Run("large", &c03M{s: 1, f: 1, w: 1, dir: "H->E", it: big, node: big.Build(), ses: 5, sys: []byte{1, 2, 3, 4}, hsms: true})
	vf.Done("messages with every stream/function/wait bit around the limits, sessions, names, directions, random items, then setters; distinct by the printed message")
}
