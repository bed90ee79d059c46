package gem_test

import (
	"fmt"
	"math"
	"testing"
	"time"

	"github.com/younglifestyle/secs4go/gem"
	vf "github.com/younglifestyle/secs4go/zzvf"
)

type alModel struct {
	text    string
	enabled bool
	set     bool
}

func alID() int {
	switch vf.R.Intn(8) {
	case 0:
		return []int{0, -1, 127, 128, 255, 256, 65535, 65536, math.MaxInt32, math.MaxUint32, math.MaxUint32 + 1, math.MaxInt64, math.MinInt64, -129, -32769}[vf.R.Intn(15)]
	case 1:
		return int(vf.R.Uint64())
	}
	return vf.R.Intn(3000)
}

// alNum reads an identifier item.
func alNum(it *vf.Item) (int, bool) {
	switch {
	case it.K == "U" && len(it.U) == 1 && it.U[0] <= math.MaxInt64:
		return int(it.U[0]), true
	case it.K == "I" && len(it.I) == 1:
		return int(it.I[0]), true
	}
	return 0, false
}

// alItem is an item for an identifier, in some width that holds it.
func alItem(id int) *vf.Item {
	w := []int{1, 2, 4, 8}
	for {
		k := w[vf.R.Intn(4)]
		if vf.R.Intn(2) == 0 && id >= 0 {
			if k == 8 || uint64(id) < 1<<(8*uint(k)) {
				return gU(k, uint64(id))
			}
			continue
		}
		if k == 8 || int64(id) >= -(1<<(8*uint(k)-1)) && int64(id) < 1<<(8*uint(k)-1) {
			return gI(k, int64(id))
		}
	}
}

func alCheck(it *vf.Item, model map[int]*alModel, code func(*alModel) int64) (int, string) {
	if it == nil || it.K != "L" || len(it.L) != 3 || it.L[0].K != "B" || len(it.L[0].I) != 1 || it.L[2].K != "A" {
		return 0, fmt.Sprintf("the entry is %v", it)
	}
	id, ok := alNum(it.L[1])
	m := model[id]
	if !ok || m == nil {
		return 0, fmt.Sprintf("the entry names the alarm %v, which is not known", it.L[1])
	}
	if it.L[0].I[0] != code(m) {
		return id, fmt.Sprintf("alarm %d has code %#x, want %#x", id, it.L[0].I[0], code(m))
	}
	if it.L[2].S != m.text {
		return id, fmt.Sprintf("alarm %d has text %q, want %q", id, it.L[2].S, m.text)
	}
	return id, ""
}

// TestVerifC20 raises, clears, enables, disables and queries alarms over the wire.
func TestVerifC20(t *testing.T) {
	defer vf.Done("a distinct (operation, alarms known, alarms enabled, known or not, outcome)")
	for n := 0; n < vf.N(3); n++ {
		c20Run()
	}
}

func c20Run() {
	h, q, err := gComm(gem.DeviceEquipment, nil, nil)
	defer func() { gStop(h, q) }()
	if err != nil {
		vf.Fail("start", "%v", err)
		return
	}
	q.sync()
	q.drain()
	model := map[int]*alModel{}
	var ids []int
	pick := func() int {
		if len(ids) == 0 || vf.R.Intn(8) == 0 {
			return alID()
		}
		return ids[vf.R.Intn(len(ids))]
	}
	reg := func() {
		id, m := alID(), &alModel{text: gWord(), enabled: true, set: vf.R.Intn(4) == 0}
		if vf.R.Intn(6) == 0 {
			id = pick()
		}
		if model[id] == nil {
			ids = append(ids, id)
		}
		model[id] = m
		h.RegisterAlarm(gem.Alarm{ID: id, Text: m.text, Set: m.set})
	}
	for k := 0; k < 4; k++ {
		reg()
	}
	enabled := func() (n int) {
		for _, m := range model {
			if m.enabled {
				n++
			}
		}
		return
	}
	list := func(fn int) bool {
		var body []byte
		if vf.R.Intn(2) == 0 {
			body = gL().Encode()
		}
		f, b := q.ask(5, fn, body)
		got := vf.Decode(b)
		vf.Case(fmt.Sprint("list ", fn, len(model), enabled()))
		if f != fn+1 || got == nil || got.K != "L" {
			vf.Fail("answer", "S5F%d is answered by function %d %x", fn, f, b)
			return false
		}
		seen := map[int]bool{}
		for _, e := range got.L {
			id, bad := alCheck(e, model, func(m *alModel) (c int64) {
				if m.set {
					c |= 128
				}
				if m.enabled {
					c |= 64
				}
				return
			})
			if bad == "" && seen[id] {
				bad = fmt.Sprintf("alarm %d is listed twice", id)
			}
			if bad == "" && fn == 7 && !model[id].enabled {
				bad = fmt.Sprintf("alarm %d is disabled", id)
			}
			if bad != "" {
				vf.Fail("list", "answer to S5F%d: %s", fn, bad)
				return false
			}
			seen[id] = true
		}
		want := len(model)
		if fn == 7 {
			want = enabled()
		}
		if len(seen) != want {
			vf.Fail("list", "S5F%d lists %d alarms of %d", fn, len(seen), want)
			return false
		}
		return true
	}
	for k := 0; k < 260; k++ {
		switch vf.R.Intn(8) {
		case 0:
			if len(model) < 12 || vf.R.Intn(4) == 0 {
				reg()
			}
		case 1:
			id, on := pick(), vf.R.Intn(2) == 0
			var err error
			if on {
				err = h.EnableAlarm(id)
			} else {
				err = h.DisableAlarm(id)
			}
			vf.Case(fmt.Sprint("api ", on, model[id] != nil, len(model)))
			if (err == nil) != (model[id] != nil) {
				vf.Fail("api", "enabling alarm %d (%v), known: %v: %v", id, on, model[id] != nil, err)
				return
			}
			if err == nil {
				model[id].enabled = on
			}
		case 2, 3:
			id, set := pick(), vf.R.Intn(2) == 0
			var err error
			if set || vf.R.Intn(2) == 0 {
				err = h.RaiseAlarm(id, set)
			} else {
				err = h.ClearAlarm(id)
			}
			m := model[id]
			if m != nil {
				m.set = set
			}
			vf.Case(fmt.Sprint("raise ", set, m != nil, m != nil && m.enabled, len(model)))
			if (err == nil) != (m != nil) {
				vf.Fail("raise", "raising alarm %d (%v), known: %v: %v", id, set, m != nil, err)
				return
			}
			var f []byte
			if m != nil && m.enabled {
				if f = q.prim(5 * time.Second); f == nil {
					vf.Fail("silent", "changing the enabled alarm %d to %v sends no report", id, set)
					return
				}
				if f[2]&0x7f != 5 || f[3] != 1 {
					vf.Fail("report", "changing alarm %d sends S%dF%d", id, f[2]&0x7f, f[3])
					return
				}
				gid, bad := alCheck(vf.Decode(f[10:]), model, func(m *alModel) int64 {
					if m.set {
						return 128
					}
					return 0
				})
				if bad == "" && gid != id {
					bad = fmt.Sprintf("it names alarm %d", gid)
				}
				if bad != "" {
					vf.Fail("report", "report of alarm %d set to %v: %s", id, set, bad)
					return
				}
			}
			if vf.R.Intn(3) == 0 || m == nil || !m.enabled {
				q.sync()
				if f = q.prim(0); f != nil {
					vf.Fail("extra", "changing alarm %d (known: %v) sends S%dF%d %x", id, m != nil, f[2]&0x7f, f[3], f[10:])
					return
				}
			}
		case 4, 5:
			aled := int64([]int{128, 0, 1, 127, 129, 255, 64, 128, 0, 128}[vf.R.Intn(10)])
			req := gL()
			good := true
			var names []int
			for n := vf.R.Intn(5); n > 0; n-- {
				id := pick()
				if vf.R.Intn(3) > 0 && len(ids) > 0 {
					id = ids[vf.R.Intn(len(ids))]
				}
				names = append(names, id)
				good = good && model[id] != nil
				req.L = append(req.L, alItem(id))
			}
			ed := gB(aled)
			if vf.R.Intn(4) == 0 {
				ed = gL(ed)
			}
			if vf.R.Intn(9) == 0 {
				ed = gB(aled, 128-aled/2)
			}
			msg := gL(ed, req)
			switch vf.R.Intn(12) {
			case 0:
				msg.L[0], good = []*vf.Item{gB(), gU(1, 128), gL(), gA("x"), gL(gL())}[vf.R.Intn(5)], false
			case 1:
				msg.L[1], good = []*vf.Item{gU(4, 1), gA("x"), gB(1)}[vf.R.Intn(3)], false
			case 2:
				req.L, good = append(req.L, []*vf.Item{gA("7"), gL(gU(4, 1)), gU(4), gU(4, 1, 2), gI(2), gU(8, math.MaxInt64+1), gF(4, 1)}[vf.R.Intn(7)]), false
				vf.R.Shuffle(len(req.L), func(i, j int) { req.L[i], req.L[j] = req.L[j], req.L[i] })
			case 3:
				msg, good = []*vf.Item{gL(), gL(gB(128)), gB(128), gU(4)}[vf.R.Intn(4)], false
			case 4:
				msg.L = append(msg.L, gU(4, 9))
			}
			f, b := q.ask(5, 3, msg.Encode())
			got := vf.Decode(b)
			vf.Case(fmt.Sprint("S5F3 ", good, aled == 128, len(names), len(model)))
			if got != nil && got.K == "L" && len(got.L) == 1 {
				got = got.L[0]
			}
			if f != 4 || got == nil || got.K != "B" || len(got.I) != 1 {
				vf.Fail("answer", "S5F3 %v is answered by function %d %x", msg, f, b)
				return
			}
			if (got.I[0] == 0) != good {
				vf.Fail("ack", "S5F3 %v, all alarms known and well-formed: %v, is answered with code %d", msg, good, got.I[0])
				return
			}
			if good {
				for _, id := range names {
					model[id].enabled = aled == 128
				}
			}
			if vf.R.Intn(3) == 0 && !list(7) {
				return
			}
		case 6:
			if !list(5) {
				return
			}
		case 7:
			if !list(7) {
				return
			}
		}
	}
	// without a host nothing is sent and nothing changes
	if len(ids) > 0 {
		gStop(h, q)
		if err := h.RaiseAlarm(ids[0], true); err == nil {
			vf.Fail("away", "raising an alarm without a host reports success")
		}
		h, q = nil, nil
	}
}
