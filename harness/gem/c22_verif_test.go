package gem_test

import (
	"fmt"
	"sort"
	"strings"
	"testing"
	"time"

	vf "github.com/younglifestyle/secs4go/zzvf"
)

// TestVerifC22 triggers events and requests their reports.
func TestVerifC22(t *testing.T) {
	defer vf.Done("a distinct (operation, event known, number of reports, of definitions and of links, number of messages)")
	for n := 0; n < vf.N(8); n++ {
		c22Run()
	}
}

func c22Run() {
	w := evNew()
	defer gStop(w.h, w.q)
	for i := 0; i < 20 && !w.failed; i++ {
		w.grow()
	}
	for i := 0; i < 60 && !w.failed; i++ {
		if vf.R.Intn(10) == 0 {
			w.grow()
		}
		w.stir()
		var defined []gID
		for _, r := range w.rpts {
			if w.defs[r.key()] != nil {
				defined = append(defined, r)
			}
		}
		switch {
		case vf.R.Intn(15) == 0 || len(w.vids) == 0 || len(w.evIDs) == 0:
			w.define(evReq(w.rpts, w.vids, true))
		case len(defined) < 3:
			for _, r := range w.rpts {
				if w.defs[r.key()] == nil {
					l := gL()
					for n := 1 + vf.R.Intn(4); n > 0; n-- {
						l.L = append(l.L, w.vids[vf.R.Intn(len(w.vids))].item())
					}
					w.define(gL(gU(1, 0), gL(gL(r.item(), l))))
				}
			}
		case vf.R.Intn(2) == 0:
			w.link(evReq(w.evIDs, defined, true))
		case vf.R.Intn(3) == 0:
			w.enable()
		}
		w.compare("answer")
		w.ask("answer", []*vf.Item{gBadID(), nil, gAnyID().item(), gL(gBadID())}[vf.R.Intn(4)])
		w.trigger()
	}
}

// trigger triggers events and compares the messages sent.
func (w *evWorld) trigger() {
	if w.failed || !w.q.sync() {
		return
	}
	w.q.drain()
	var ids []interface{}
	want := map[string]int{}
	total, bad := 0, false
	var names []string
	for n := vf.R.Intn(4); n > 0; n-- {
		id := gAnyID()
		if len(w.evIDs) > 0 && vf.R.Intn(6) > 0 {
			id = w.evIDs[vf.R.Intn(len(w.evIDs))]
		}
		names = append(names, id.key())
		ids = append(ids, id.app())
		if vf.R.Intn(40) == 0 {
			bad = true
			ids = append(ids, []interface{}{-1, 1.5, nil, "\u00e9", []byte("a")}[vf.R.Intn(5)])
		}
		if l := w.links[id.key()]; l != nil && l.on {
			want[id.key()]++
			total++
		}
	}
	if bad || len(ids) == 0 {
		total = 0
	}
	err := w.h.TriggerCollectionEvent(ids...)
	if (err != nil) != (bad || len(ids) == 0) {
		w.bad("trigger", "triggering %v: %v", names, err)
		return
	}
	got := map[string]int{}
	for i := 0; i < total; i++ {
		f := w.q.prim(3 * time.Second)
		if f == nil {
			w.bad("trigger", "triggering %v sends %d messages, for %d enabled events; links: %s", names, i, total, w.show())
			return
		}
		if f[2]&127 != 6 || f[3] != 11 {
			w.bad("trigger", "triggering %v sends S%dF%d", names, f[2]&127, f[3])
			return
		}
		d := vf.Decode(f[10:])
		if d == nil || d.K != "L" || len(d.L) != 3 {
			w.bad("trigger", "triggering %v sends %v", names, d)
			return
		}
		_, ok0 := gKeyOf(d.L[0])
		k, ok := gKeyOf(d.L[1])
		if !ok || !ok0 || want[k] == got[k] {
			w.bad("trigger", "triggering %v sends %v; links: %s", names, d, w.show())
			return
		}
		got[k]++
		if s := w.report(k, d.L[2]); s != "" {
			w.bad("trigger", "triggering %v sends %s; links: %s", names, s, w.show())
			return
		}
	}
	if total < len(ids) || vf.R.Intn(8) == 0 {
		wait := 2 * time.Millisecond
		if vf.R.Intn(10) == 0 {
			wait = 30 * time.Millisecond
		}
		if f := w.q.prim(wait); f != nil {
			w.bad("trigger", "triggering %v sends one more message, %v, than the %d enabled events; links: %s", names, vf.Decode(f[10:]), total, w.show())
			return
		}
	}
	sort.Strings(names)
	vf.Case(fmt.Sprint("trigger ", len(ids), " ", total, " ", bad, " ", len(w.links), " ", strings.Count(w.show(), " ")))
}
