package main

import (
	"fmt"
	"go/types"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type loopKey struct {
	fid int
	hdr *ssa.BasicBlock
}

type loopSt struct {
	unroll int
	cut    *cutRec
	iter   *Term
}

type cutRec struct {
	lp      *Loop
	fid     int
	phaseA  bool
	entry   *State
	entPhi  map[*ssa.Phi]Val
	cands   []*Cand
	dead    map[string]bool
	mods    map[string]bool
	newMods map[string]bool
	newDead bool
	base    int // number of cells at entry
}

type Cand struct {
	id string
	f  func(st *State, phis map[*ssa.Phi]Val, iter *Term) *Term
}

type deferred struct {
	call *ssa.CallCommon
	args []Val
	fn   Val
}

type State struct {
	heaps  map[string]*Term
	cells  map[int]Val
	glob   map[*ssa.Global]Val
	alloc  *Term
	ghost  map[string]*Term
	env    map[int]map[ssa.Value]Val
	defers map[int][]deferred
	fresh  map[*Term]map[int]Val
	frozen []*Term
	known  map[*Term]*Term
	loops  map[loopKey]*loopSt
	held   map[string]heldLock
	owned  map[*Term]bool // refs allocated locally and not yet shared (lock discipline)
	snaps  map[string]*State
	pan    *panState
	defd   map[string]bool
	events int
}

type panState struct {
	val       Val
	recovered bool
}

type heldLock struct {
	mode int
	mon  *Monitor
	obj  *Term
}

func (s *State) clone() *State {
	n := &State{alloc: s.alloc, events: s.events}
	n.heaps = cp(s.heaps)
	n.cells = cp(s.cells)
	n.glob = cp(s.glob)
	n.ghost = cp(s.ghost)
	n.env = make(map[int]map[ssa.Value]Val, len(s.env))
	for k, v := range s.env {
		n.env[k] = cp(v)
	}
	n.defers = make(map[int][]deferred, len(s.defers))
	for k, v := range s.defers {
		n.defers[k] = append([]deferred(nil), v...)
	}
	n.fresh = make(map[*Term]map[int]Val, len(s.fresh))
	for k, v := range s.fresh {
		n.fresh[k] = cp(v)
	}
	n.frozen = append([]*Term(nil), s.frozen...)
	n.known = cp(s.known)
	n.loops = make(map[loopKey]*loopSt, len(s.loops))
	for k, v := range s.loops {
		c := *v
		n.loops[k] = &c
	}
	n.held = cp(s.held)
	n.owned = cp(s.owned)
	n.snaps = cp(s.snaps)
	n.defd = cp(s.defd)
	if s.pan != nil {
		c := *s.pan
		n.pan = &c
	}
	return n
}

func cp[K comparable, V any](m map[K]V) map[K]V {
	n := make(map[K]V, len(m))
	for k, v := range m {
		n[k] = v
	}
	return n
}

// Exec verifies one function.
type Exec struct {
	V        *Verifier
	P        *Pool
	C        *Ctx
	Con      *Contract
	Fn       *ssa.Function
	sortMemo map[types.Type]string
	sortDecl map[string]bool
	strs     map[string]*Term
	strOf    map[*Term]string
	typeIDs  map[string]int
	ranges   map[*Term][2]*big.Int
	nfresh   int
	nfid     int
	ncell    int
	cellT    map[int]types.Type
	quiet    int // >0: phase A, obligations are not checked
	recs     []map[string]bool
	cuts     []*cutRec // active phase A cuts
	stack    []*ssa.Function
	canRec   int // number of frames with a recovering defer
	allowPan bool
	lockedIn []string // locks the function under verification is entered with
	cache    map[string]*cutRec

	entry     *State
	ghostSet  map[string]*Term // ghosts assigned on entry
	params    map[string]SVal
	frameCon  *Contract
	framePkg  *types.Package
	frameTgts []modTarget
	alloc0    *Term
	Obls      []*Oblig
	Trust     map[string]bool
	Used      map[string]bool
	paths     int
	ends      int
	pends     int
	skipFail  map[string]bool
	specNeed  map[string]bool
	hbase     map[string]*Term
	caseName  string
	defMap    map[*Term]*Term
	immSeen   map[*Term]bool
	freshRef  map[*Term]bool // references allocated by this execution
	immOwner  map[*Term]*types.Named
	fltIDs    []string
	closures  map[*Term]*Closure
	addrs     map[*Term]*Addr
	frameFn   map[int]*ssa.Function
	fids      []int // frames of stack
	spl       map[*ssa.Function]map[loopAt]int
	cur       ssa.Instruction
	altForall map[*Term][]*Term
	altMemo   map[*Term]*Term
}

type Oblig struct {
	Name    string  `json:"name"`
	Pos     string  `json:"pos,omitempty"`
	OK      bool    `json:"ok"`
	Backend string  `json:"backend"`
	Sec     float64 `json:"sec"`
	Res     string  `json:"res,omitempty"`
	Script  string  `json:"script,omitempty"`
	Goal    string  `json:"goal,omitempty"`
}

func (x *Exec) fresh(name, sort string) *Term {
	x.nfresh++
	return x.P.Const(fmt.Sprintf("%s!%d", name, x.nfresh), sort)
}

func (x *Exec) bv(sort string) *Term {
	x.nfresh++
	return x.P.BoundVar(fmt.Sprintf("q%d", x.nfresh), sort)
}

func (x *Exec) assume(t *Term) {
	x.C.Assert(x.withAlts(t))
}

func (x *Exec) note(w string) {
	for _, r := range x.recs {
		r[w] = true
	}
}

func (x *Exec) trust(s string) { x.Trust[s] = true }

// heap access ---------------------------------------------------------------

func (x *Exec) heap(st *State, name, sort string) *Term {
	if h, ok := st.heaps[name]; ok {
		return h
	}
	h, ok := x.hbase[name]
	if !ok {
		h = x.P.Const("H0!"+name, sort)
		x.hbase[name] = h
		if strings.HasPrefix(name, "MD!") {
			es := elemSort(sort)
			ks := es[len("(Array ") : len(es)-len(" Bool)")]
			x.C.emitAssert(x.P.Eq(x.P.Select(h, x.P.Int(0)), x.P.ConstArr(ArrSort(ks, "Bool"), x.P.fal)))
		}
	}
	st.heaps[name] = h
	return h
}

// emitAssert adds a permanent fact (valid in every path).
func (c *Ctx) emitAssert(t *Term) {
	r := c.render(t)
	c.emit("(assert " + r + ")")
}

func (x *Exec) setHeap(st *State, name string, h *Term) {
	x.note("H:" + name)
	if h.Op == "store" {
		n := x.fresh("h", h.Sort)
		x.C.define(n, h)
		x.defMap[n] = h
		h = n
	}
	st.heaps[name] = h
}

// sel is select with look-through of named store terms.
func (x *Exec) sel(a, i *Term) *Term {
	for {
		d := a
		if n, ok := x.defMap[a]; ok {
			d = n
		}
		if d.Op == "store" {
			if d.Args[1] == i {
				return d.Args[2]
			}
			if x.P.distinctVals(d.Args[1], i) {
				a = d.Args[0]
				continue
			}
		}
		if d.Op == "constarr" {
			return d.Args[0]
		}
		break
	}
	return x.P.Select(a, i)
}

// store names the result of an inner (row) store so that rows stay small.
func (x *Exec) rowStore(row, i, v *Term) *Term {
	h := x.P.Store(row, i, v)
	n := x.fresh("row", h.Sort)
	x.C.define(n, h)
	x.defMap[n] = h
	return n
}
