package gem_test

import (
	"testing"

	vf "github.com/younglifestyle/secs4go/zzvf"
)

// TestVerifC21 defines, links and enables reports and compares what is reported.
func TestVerifC21(t *testing.T) {
	defer vf.Done("a distinct (request, code, number of entries, of reports and of links)")
	for n := 0; n < vf.N(20); n++ {
		c21Run()
	}
}

func c21Run() {
	w := evNew()
	defer gStop(w.h, w.q)
	for i := 0; i < 16 && !w.failed; i++ {
		w.grow()
	}
	for i := 0; i < 150 && !w.failed; i++ {
		if vf.R.Intn(8) == 0 {
			w.grow()
		}
		switch vf.R.Intn(9) {
		case 8:
			w.life()
		case 0, 1, 2:
			w.define(evReq(w.rpts, w.vids, vf.R.Intn(2) == 0))
		case 3, 4, 5:
			if len(w.evIDs) == 0 {
				continue
			}
			subs := w.rpts
			if vf.R.Intn(3) > 0 {
				subs = nil
				for _, r := range w.rpts {
					if w.defs[r.key()] != nil {
						subs = append(subs, r)
					}
				}
			}
			w.link(evReq(w.evIDs, subs, vf.R.Intn(2) == 0))
		default:
			w.enable()
		}
		w.compare("tables")
	}
	// everything on, so that links that were disabled show
	w.define(gL())
	w.compare("tables")
}

// life takes one event and the reports it is linked to through a life: linked, enabled, its reports deleted, linked again.
func (w *evWorld) life() {
	if len(w.evIDs) == 0 || len(w.rpts) == 0 || len(w.vids) == 0 {
		return
	}
	e, v := w.evIDs[vf.R.Intn(len(w.evIDs))].item(), w.vids[vf.R.Intn(len(w.vids))].item()
	rs := []gID{w.rpts[vf.R.Intn(len(w.rpts))]}
	if r := w.rpts[vf.R.Intn(len(w.rpts))]; r.key() != rs[0].key() {
		rs = append(rs, r)
	}
	one := gU(1, 1)
	w.link(gL(one, gL(gL(e, gL()))))
	for round := 0; round < 2; round++ {
		sub := gL()
		for _, r := range rs {
			w.define(gL(one, gL(gL(r.item(), gL()))))
			w.define(gL(one, gL(gL(r.item(), gL(v)))))
			sub.L = append(sub.L, r.item())
		}
		w.link(gL(one, gL(gL(e, sub))))
		w.compare("tables")
		if round == 0 {
			w.enable(e)
			w.compare("tables")
			for _, r := range rs {
				w.define(gL(one, gL(gL(r.item(), gL()))))
				w.compare("tables")
			}
			if vf.R.Intn(2) == 0 {
				w.enable(e)
			}
		}
	}
}
