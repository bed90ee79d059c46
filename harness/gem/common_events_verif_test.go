package gem_test

import (
	"errors"
	"fmt"
	"sort"
	"strings"

	"github.com/younglifestyle/secs4go/gem"
	"github.com/younglifestyle/secs4go/lib-secs2-hsms-go/pkg/ast"
	vf "github.com/younglifestyle/secs4go/zzvf"
)

// evVar is a status or data variable of the application.
type evVar struct {
	id   gID
	val  *vf.Item // nil: no value
	prov *vf.Item
	fail bool
	set  func(ast.ItemNode)
}

func (v *evVar) want() *vf.Item {
	if v.prov != nil {
		if v.fail {
			return gL()
		}
		return v.prov
	}
	if v.val == nil {
		return gL()
	}
	return v.val
}

type evLink struct {
	rpts []string
	on   bool
}

// evWorld is an equipment with events and variables, and what its tables must hold.
type evWorld struct {
	h           *gem.GemHandler
	q           *gPeer
	svs, dvs    map[string]*evVar
	events      map[string]bool
	evIDs, vids []gID
	rpts        []gID // identifiers used for reports
	defs        map[string][]string
	links       map[string]*evLink
	all         []*evVar
	failed      bool
}

func evNew() *evWorld {
	h, q, err := gComm(gem.DeviceEquipment, nil, nil)
	w := &evWorld{h: h, q: q, svs: map[string]*evVar{}, dvs: map[string]*evVar{}, events: map[string]bool{}, defs: map[string][]string{}, links: map[string]*evLink{}}
	if err != nil {
		vf.Fail("start", "%v", err)
		w.failed = true
		return w
	}
	w.rpts = gIDs(6)
	return w
}

func (w *evWorld) bad(key, f string, a ...interface{}) {
	if !w.failed {
		vf.Fail(key, f, a...)
	}
	w.failed = true
}

// grow registers something.
func (w *evWorld) grow() {
	id := gAnyID()
	if n := len(w.vids); n > 0 && vf.R.Intn(3) == 0 {
		id = w.vids[vf.R.Intn(n)]
	}
	switch vf.R.Intn(3) {
	case 0:
		e, err := gem.NewCollectionEvent(id.app(), gWord())
		if err != nil {
			w.bad("register", "NewCollectionEvent(%v): %v", id, err)
			return
		}
		if err := w.h.RegisterCollectionEvent(e); (err == nil) == w.events[id.key()] {
			w.bad("register", "registering the event %v, already there: %v, gives %v", id, w.events[id.key()], err)
			return
		}
		if !w.events[id.key()] {
			w.events[id.key()] = true
			w.evIDs = append(w.evIDs, id)
		}
	case 1:
		v := w.variable(id)
		var opts []gem.StatusVariableOption
		if v.prov != nil {
			opts = append(opts, gem.WithStatusValueProvider(func() (ast.ItemNode, error) {
				if v.fail {
					return nil, errors.New("x")
				}
				return v.prov.Build(), nil
			}))
		} else if v.val != nil {
			opts = append(opts, gem.WithStatusValue(v.val.Build()))
		}
		sv, err := gem.NewStatusVariable(id.app(), gWord(), gWord(), opts...)
		if err != nil {
			w.bad("register", "NewStatusVariable(%v): %v", id, err)
			return
		}
		v.set = sv.SetValue
		w.add(w.svs, v, w.h.RegisterStatusVariable(sv))
	default:
		v := w.variable(id)
		var opts []gem.DataVariableOption
		if v.prov != nil {
			opts = append(opts, gem.WithDataValueProvider(func() (ast.ItemNode, error) {
				if v.fail {
					return nil, errors.New("x")
				}
				return v.prov.Build(), nil
			}))
		} else if v.val != nil {
			opts = append(opts, gem.WithDataValue(v.val.Build()))
		}
		dv, err := gem.NewDataVariable(id.app(), gWord(), opts...)
		if err != nil {
			w.bad("register", "NewDataVariable(%v): %v", id, err)
			return
		}
		v.set = dv.SetValue
		w.add(w.dvs, v, w.h.RegisterDataVariable(dv))
	}
}

func (w *evWorld) variable(id gID) *evVar {
	v := &evVar{id: id}
	if vf.R.Intn(6) > 0 {
		v.val = vf.Gen(2, 0, 3)
	}
	if vf.R.Intn(4) == 0 {
		v.prov = vf.Gen(1, 0, 2)
	}
	return v
}

func (w *evWorld) add(m map[string]*evVar, v *evVar, err error) {
	k := v.id.key()
	if (err == nil) == (m[k] != nil) {
		w.bad("register", "registering the variable %v, already there: %v, gives %v", v.id, m[k] != nil, err)
		return
	}
	if m[k] == nil {
		m[k] = v
		w.all = append(w.all, v)
		w.vids = append(w.vids, v.id)
	}
}

// stir changes the values.
func (w *evWorld) stir() {
	for _, v := range w.all {
		if vf.R.Intn(3) == 0 {
			v.val = vf.Gen(1, 0, 2)
			v.set(v.val.Build())
		}
		if v.prov != nil {
			v.prov = vf.Gen(1, 0, 2)
			v.fail = vf.R.Intn(4) == 0
		}
	}
}

func (w *evWorld) hasVar(k string) bool { return w.svs[k] != nil || w.dvs[k] != nil }

func (w *evWorld) value(k string) *vf.Item {
	if v := w.svs[k]; v != nil {
		return v.want()
	}
	return w.dvs[k].want()
}

func evCode(f, want int, b []byte) (int, string) {
	if f != want {
		return -1, fmt.Sprintf("answered by function %d", f)
	}
	d := vf.Decode(b)
	if d == nil || d.K != "B" || len(d.I) != 1 {
		return -1, fmt.Sprintf("answered with %x", b)
	}
	return int(d.I[0]), ""
}

type evEntry struct {
	id   string
	subs []string
}

// entries reads an S2F33 or S2F35.
func evEntries(req *vf.Item) (es []evEntry, ok bool) {
	if req == nil || req.K != "L" {
		return nil, false
	}
	if len(req.L) == 0 {
		return nil, true
	}
	l := req
	if req.L[0].K != "L" {
		if len(req.L) < 2 || req.L[1].K != "L" {
			return nil, false
		}
		l = req.L[1]
	}
	for _, e := range l.L {
		if e.K != "L" || len(e.L) < 2 || e.L[1].K != "L" {
			return nil, false
		}
		k, ok := gKeyOf(e.L[0])
		if !ok {
			return nil, false
		}
		x := evEntry{id: k}
		for _, s := range e.L[1].L {
			k, ok := gKeyOf(s)
			if !ok {
				return nil, false
			}
			x.subs = append(x.subs, k)
		}
		es = append(es, x)
	}
	return es, true
}

func evPick(from []gID, odd int) *vf.Item {
	switch {
	case vf.R.Intn(12*odd) == 0:
		return gBadID()
	case vf.R.Intn(8*odd) == 0 || len(from) == 0:
		return gAnyID().item()
	}
	return from[vf.R.Intn(len(from))].item()
}

func evReq(ids, subs []gID, sure bool) *vf.Item {
	odd := 1
	if sure {
		odd = 20
	}
	l := gL()
	seen := map[int]bool{}
	for n := vf.R.Intn(4); n > 0; n-- {
		e := gL(evPick(ids, odd))
		if i := vf.R.Intn(len(ids) + 1); i < len(ids) && vf.R.Intn(8) > 0 {
			if seen[i] {
				continue
			}
			seen[i] = true
			e = gL(ids[i].item())
		}
		sl := gL()
		if vf.R.Intn(5) > 0 {
			dup := map[int]bool{}
			for m := vf.R.Intn(4); m > 0; m-- {
				if i := vf.R.Intn(len(subs) + 1); i < len(subs) && vf.R.Intn(8) > 0 {
					if dup[i] {
						continue
					}
					dup[i] = true
					sl.L = append(sl.L, subs[i].item())
					continue
				}
				sl.L = append(sl.L, evPick(subs, odd))
			}
		}
		e.L = append(e.L, sl)
		if vf.R.Intn(10) == 0 {
			e.L = append(e.L, vf.Gen(1, 0, 2))
		}
		switch vf.R.Intn(120) {
		case 0:
			e = gL()
		case 1:
			e = gL(e.L[0])
		case 2:
			e = gL(e.L[0], e.L[0])
		case 3:
			e = e.L[0]
		}
		l.L = append(l.L, e)
	}
	switch vf.R.Intn(60) {
	case 0:
		return nil
	case 1:
		return gU(1, 1)
	case 2:
		return gL(gU(1, 1))
	case 3:
		return gL(gU(1, 1), gU(1, 1))
	}
	if len(l.L) > 0 && l.L[0].K == "L" && vf.R.Intn(4) == 0 {
		return l
	}
	if len(l.L) == 0 && vf.R.Intn(3) > 0 {
		return gL(gU(1, 1), gL(gL(ids[0].item(), gL())))
	}
	return gL(gU(1, uint64(vf.R.Intn(256))), l)
}

func evText(d *vf.Item) []byte {
	if d == nil {
		return nil
	}
	return d.Encode()
}

// define sends an S2F33.
func (w *evWorld) define(req *vf.Item) {
	if w.failed {
		return
	}
	es, ok := evEntries(req)
	may := map[int]bool{}
	seen := map[string]bool{}
	for _, e := range es {
		if seen[e.id] || len(e.subs) > 0 && w.defs[e.id] != nil {
			may[3] = true
		}
		seen[e.id] = true
		for _, s := range e.subs {
			if !w.hasVar(s) {
				may[4] = true
			}
		}
	}
	if !ok {
		may = map[int]bool{2: true}
	}
	f, b := w.q.ask(2, 33, evText(req))
	c, s := evCode(f, 34, b)
	vf.Case(fmt.Sprint("S2F33 ", c, " ", len(es), " ", len(w.defs), " ", len(w.links)))
	if s != "" {
		w.bad("define", "S2F33 %v is %s", req, s)
		return
	}
	if len(may) == 0 && c != 0 || len(may) > 0 && !may[c] {
		w.bad("define", "S2F33 %v is answered with code %d; codes that apply: %v; reports %v", req, c, may, w.defs)
		return
	}
	if c != 0 {
		return
	}
	if len(es) == 0 {
		w.defs, w.links = map[string][]string{}, map[string]*evLink{}
		return
	}
	for _, e := range es {
		if len(e.subs) > 0 {
			w.defs[e.id] = e.subs
			continue
		}
		delete(w.defs, e.id)
		for k, l := range w.links {
			var left []string
			for _, r := range l.rpts {
				if r != e.id {
					left = append(left, r)
				}
			}
			l.rpts = left
			if len(left) == 0 {
				delete(w.links, k)
			}
		}
	}
}

// link sends an S2F35.
func (w *evWorld) link(req *vf.Item) {
	if w.failed {
		return
	}
	es, ok := evEntries(req)
	may := map[int]bool{}
	seen := map[string]bool{}
	for _, e := range es {
		if !w.events[e.id] {
			may[4] = true
		}
		if seen[e.id] {
			may[3] = true
		}
		seen[e.id] = true
		sub := map[string]bool{}
		for _, s := range e.subs {
			if w.defs[s] == nil {
				may[5] = true
			}
			if sub[s] {
				may[3] = true
			}
			sub[s] = true
			if l := w.links[e.id]; l != nil {
				for _, r := range l.rpts {
					if r == s {
						may[3] = true
					}
				}
			}
		}
	}
	if !ok {
		may = map[int]bool{2: true}
	}
	f, b := w.q.ask(2, 35, evText(req))
	c, s := evCode(f, 36, b)
	vf.Case(fmt.Sprint("S2F35 ", c, " ", len(es), " ", len(w.defs), " ", len(w.links)))
	if s != "" {
		w.bad("link", "S2F35 %v is %s", req, s)
		return
	}
	if len(may) == 0 && c != 0 || len(may) > 0 && !may[c] {
		w.bad("link", "S2F35 %v is answered with code %d; codes that apply: %v; reports %v, links %v", req, c, may, w.defs, w.show())
		return
	}
	if c != 0 {
		return
	}
	for _, e := range es {
		if len(e.subs) == 0 {
			delete(w.links, e.id)
			continue
		}
		l := w.links[e.id]
		if l == nil {
			l = &evLink{on: true}
			w.links[e.id] = l
		}
		l.rpts = append(l.rpts, e.subs...)
	}
}

func (w *evWorld) show() string {
	var ks []string
	for k, l := range w.links {
		ks = append(ks, fmt.Sprintf("%s:%v,%v", k, l.rpts, l.on))
	}
	sort.Strings(ks)
	return strings.Join(ks, " ")
}

// enable sends an S2F37, for the given events if there are any.
func (w *evWorld) enable(only ...*vf.Item) {
	if w.failed {
		return
	}
	on := vf.R.Intn(3) > 0
	var d *vf.Item
	if vf.R.Intn(2) == 0 {
		n := int64(0)
		if on {
			n = int64(1 + vf.R.Intn(255))
		}
		d = gB(n)
	} else {
		d = gO(on)
	}
	l := gL()
	if vf.R.Intn(4) > 0 {
		var linked []gID
		for _, id := range w.evIDs {
			if w.links[id.key()] != nil || vf.R.Intn(10) == 0 {
				linked = append(linked, id)
			}
		}
		for n := vf.R.Intn(3); n > 0; n-- {
			l.L = append(l.L, evPick(linked, 2))
		}
	}
	shape := vf.R.Intn(40)
	if len(only) > 0 {
		on, d, l, shape = true, gO(true), gL(only...), 39
	}
	req := gL(d, l)
	switch shape {
	case 0:
		req = gL(gB(), l)
	case 1:
		req = gL(d)
	case 2:
		req = gL(d, gU(1, 1))
	case 3:
		req = gL(gU(1, 1), l)
	case 4:
		req = nil
	}
	ok := req != nil && len(req.L) == 2 && (len(req.L[0].I) > 0 || req.L[0].K == "BOOLEAN") && req.L[1].K == "L"
	var ks []string
	if ok {
		for _, x := range l.L {
			k, good := gKeyOf(x)
			ok = ok && good && w.links[k] != nil
			ks = append(ks, k)
		}
	}
	f, b := w.q.ask(2, 37, evText(req))
	c, s := evCode(f, 38, b)
	vf.Case(fmt.Sprint("S2F37 ", c, " ", len(ks), " ", len(w.links)))
	if s != "" {
		w.bad("enable", "S2F37 %v is %s", req, s)
		return
	}
	if (c == 0) != ok {
		w.bad("enable", "S2F37 %v is answered with code %d; links: %s", req, c, w.show())
		return
	}
	if c != 0 {
		return
	}
	for k, l := range w.links {
		if len(ks) == 0 {
			l.on = on
		}
		for _, x := range ks {
			if x == k {
				l.on = on
			}
		}
	}
}

// report checks a list of reports about event k.
func (w *evWorld) report(k string, l *vf.Item) string {
	e := w.links[k]
	if e == nil || !e.on {
		e = &evLink{}
	}
	if l.K != "L" || len(l.L) != len(e.rpts) {
		return fmt.Sprintf("reports %v, for the links %v", l, e.rpts)
	}
	for i, r := range e.rpts {
		x := l.L[i]
		if x.K != "L" || len(x.L) != 2 || !gIsID(x.L[0], r) || x.L[1].K != "L" || len(x.L[1].L) != len(w.defs[r]) {
			return fmt.Sprintf("report %v, for the report %s of %v", x, r, w.defs[r])
		}
		for j, v := range w.defs[r] {
			if !gEq(x.L[1].L[j], w.value(v)) {
				return fmt.Sprintf("value %v of the variable %s, which is %v", x.L[1].L[j], v, w.value(v))
			}
		}
	}
	return ""
}

// ask requests the report of an event.
func (w *evWorld) ask(key string, it *vf.Item) {
	if w.failed {
		return
	}
	req := it
	if vf.R.Intn(3) == 0 && it != nil {
		req = gL(it)
		if vf.R.Intn(3) == 0 {
			req.L = append(req.L, vf.Gen(1, 0, 2))
		}
	}
	id := req
	if req != nil && req.K == "L" {
		id = nil
		if len(req.L) > 0 {
			id = req.L[0]
		}
	}
	k, ok := gKeyOf(id)
	f, b := w.q.ask(6, 15, evText(req))
	d := vf.Decode(b)
	if f != 16 || d == nil || d.K != "L" || len(d.L) != 3 || d.L[0].K != "U" && d.L[0].K != "I" || d.L[2].K != "L" {
		w.bad(key, "S6F15 %v is answered by S6F%d %v", req, f, d)
		return
	}
	n := len(d.L[2].L)
	vf.Case(fmt.Sprint("S6F15 ", ok, w.events[k], " ", n, " ", len(w.defs), " ", len(w.links)))
	if !ok || !w.events[k] {
		if n != 0 {
			w.bad(key, "S6F15 %v, not a known event, is answered with the reports %v", req, d.L[2])
		}
		return
	}
	if !gIsID(d.L[1], k) {
		w.bad(key, "S6F15 %v is answered for the event %v", req, d.L[1])
		return
	}
	if s := w.report(k, d.L[2]); s != "" {
		w.bad(key, "S6F15 %v is answered with %s; links: %s", req, s, w.show())
	}
}

// compare asks for every event's report.
func (w *evWorld) compare(key string) {
	for _, id := range w.evIDs {
		w.ask(key, id.item())
	}
}
