# HSMS connection state model (C12): hsms/connectionStateMachine.go over github.com/looplab/fsm.
# fcur[f] is the current state of machine f; hasTr/trTo is its transition table.
ghost fcur (Array Int Str)
ghost fevents int
ghost goroutines int
specfun hasTr(Int, string, string) bool
specfun trTo(Int, string, string) string
func fsm.NewFSM(initial, events, callbacks) (f)
  trusted
  modifies fcur
  ensures fresh(f) && fcur == store(old(fcur), f, initial)
  ensures forall(i, 0, len(events), forall(j, 0, len(events[i].Src), hasTr(f, events[i].Name, events[i].Src[j])))
  ensures all(e, "string", all(s, "string", hasTr(f, e, s) ==> \
    exists(i, 0, len(events), exists(j, 0, len(events[i].Src), events[i].Name == e && events[i].Src[j] == s && trTo(f, e, s) == events[i].Dst)), hasTr(f, e, s)))
func fsm.FSM.Current(f) (s)
  trusted
  ensures s == fcur[f]
func fsm.FSM.Event(f, ctx, event, args) (err)
  trusted
  modifies fcur, fevents, goroutines, anyof("hsms.HsmsProtocol.t7Timer"), chans(), anyatom("atomic.Bool")
  ensures fevents == old(fevents) + 1
  ensures hasTr(f, event, old(fcur)[f]) ==> fcur == store(old(fcur), f, trTo(f, event, old(fcur)[f])) 
  ensures hasTr(f, event, old(fcur)[f]) && trTo(f, event, old(fcur)[f]) != old(fcur)[f] ==> err == nil
  ensures !hasTr(f, event, old(fcur)[f]) ==> fcur == old(fcur) && err != nil

# the HSMS state model (SEMI E37): states, events, and where each event leads
def NC() = "NOT-CONNECTED"
def NS() = "CONNECTED_NOT-SELECTED"
def SE() = "CONNECTED_SELECTED"
def state(f) = fcur[f]
def aState(s) = s == NC() || s == NS() || s == SE()
def table(f) = \
  all(s, "string", hasTr(f, "connect", s) == (s == NC()) && (s == NC() ==> trTo(f, "connect", s) == NS()), hasTr(f, "connect", s)) && \
  all(s, "string", hasTr(f, "disconnect", s) == (s == NS() || s == SE()) && (s == NS() || s == SE() ==> trTo(f, "disconnect", s) == NC()), hasTr(f, "disconnect", s)) && \
  all(s, "string", hasTr(f, "select", s) == (s == NS()) && (s == NS() ==> trTo(f, "select", s) == SE()), hasTr(f, "select", s)) && \
  all(s, "string", hasTr(f, "deselect", s) == (s == SE()) && (s == SE() ==> trTo(f, "deselect", s) == NS()), hasTr(f, "deselect", s)) && \
  all(s, "string", hasTr(f, "timeoutT7", s) == (s == NS()) && (s == NS() ==> trTo(f, "timeoutT7", s) == NC()), hasTr(f, "timeoutT7", s))
def machine(cs) = cs.fsm != nil && table(cs.fsm) && aState(state(cs.fsm))
def moved(cs, from, to, err) = ite(from, fcur == store(old(fcur), cs.fsm, to) && err == nil, fcur == old(fcur) && err != nil)

func hsms.NewConnectionStateMachine(callbacks) (cs)
  modifies fcur
  ensures fresh(cs) && fresh(cs.fsm) && table(cs.fsm) && fcur == store(old(fcur), cs.fsm, NC())
func hsms.ConnectionStateMachine.CurrentState(cs) (s)
  requires machine(cs)
  ensures s == state(cs.fsm)
func hsms.ConnectionStateMachine.Connect(cs) (err)
  requires machine(cs)
  modifies fcur, fevents, goroutines, anyof("hsms.HsmsProtocol.t7Timer"), chans(), anyatom("atomic.Bool")
  ensures moved(cs, old(state(cs.fsm)) == NC(), NS(), err)
func hsms.ConnectionStateMachine.Disconnect(cs) (err)
  requires machine(cs)
  modifies fcur, fevents, goroutines, anyof("hsms.HsmsProtocol.t7Timer"), chans(), anyatom("atomic.Bool")
  ensures moved(cs, old(state(cs.fsm)) == NS() || old(state(cs.fsm)) == SE(), NC(), err)
func hsms.ConnectionStateMachine.Select(cs) (err)
  requires machine(cs)
  modifies fcur, fevents, goroutines, anyof("hsms.HsmsProtocol.t7Timer"), chans(), anyatom("atomic.Bool")
  ensures moved(cs, old(state(cs.fsm)) == NS(), SE(), err)
func hsms.ConnectionStateMachine.Deselect(cs) (err)
  requires machine(cs)
  modifies fcur, fevents, goroutines, anyof("hsms.HsmsProtocol.t7Timer"), chans(), anyatom("atomic.Bool")
  ensures moved(cs, old(state(cs.fsm)) == SE(), NS(), err)
func hsms.ConnectionStateMachine.TimeoutT7(cs) (err)
  requires machine(cs)
  modifies fcur, fevents, goroutines, anyof("hsms.HsmsProtocol.t7Timer"), chans(), anyatom("atomic.Bool")
  ensures moved(cs, old(state(cs.fsm)) == NS(), NC(), err)

# what the state machine's callbacks of a connection may change
func hsms.HsmsProtocol.onStateConnectedNotSelected(p, ctx, e)
  requires protoOk(p)
  modifies fevents, goroutines, p.t7Timer
func hsms.HsmsProtocol.onStateSelect(p, ctx, e)
  requires protoOk(p)
  modifies fevents, goroutines, p.t7Timer
func hsms.HsmsProtocol.onStateDisconnect(p, ctx, e)
  requires protoOk(p)
  modifies fevents, goroutines, p.t7Timer, chans(), anyatom("atomic.Bool")
func hsms.HsmsProtocol.onStateConnect(p, ctx, e)
  requires protoOk(p)
  modifies fevents, goroutines
check C12: hsms.NewConnectionStateMachine, hsms.ConnectionStateMachine.*, hsms.HsmsProtocol.onState*
func fsm.FSM.SetState(f, s)
  trusted
  modifies fcur
  ensures fcur == store(old(fcur), f, s)
func fsm.Event.Cancel(e, errs)
  trusted
  requires never_cancelled: 1 == 0
func fsm.Event.Async(e) (err)
  trusted
  requires never_delayed: 1 == 0
