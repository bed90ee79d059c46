# GEM control state model (C18): gem/control_state_machine.go and the operations of gem/handler.go that use it
def EO() = "EQUIPMENT_OFFLINE"
def AO() = "ATTEMPT_ONLINE"
def HO() = "HOST_OFFLINE"
def OL() = "ONLINE_LOCAL"
def ORM() = "ONLINE_REMOTE"
def cOnline(s) = s == OL() || s == ORM()
def cState(s) = s == EO() || s == AO() || s == HO() || cOnline(s)
def cMode(m) = m == "LOCAL" || m == "REMOTE"
def onlineOf(m) = ite(m == "LOCAL", OL(), ORM())

monitor gem.GemHandler.controlMu (self):
end
# the handler's transitions hold controlMu around the state machine's own lock
monitor gem.ControlStateMachine.mu (self): state, onlineMode
  within gem.GemHandler.controlMu
  complete C18
  invariant state: cState(self.state)
  invariant mode: cMode(self.onlineMode)
end
assume the control state machine of a handler is changed only through the handler while a handler operation runs (the application does not call ControlStateMachine() operations concurrently with it)

# from(a, b): in a state in which a holds the operation leads to b and succeeds; elsewhere it is refused and changes nothing
def csm(c, ok, to, err) = ite(ok, c.state == to && err == nil, c.state == acq(c.state))
def csmMode(c) = c.onlineMode == acq(c.onlineMode)

func gem.NewControlStateMachine(opts) (c)
  ensures fresh(c) && c != nil
  ensures mode: c.onlineMode == ite(cMode(opts.InitialOnlineMode), opts.InitialOnlineMode, "REMOTE")
  ensures initial: c.state == ite(opts.InitialState == EO() || opts.InitialState == HO(), opts.InitialState, ite(opts.InitialState == "ONLINE", onlineOf(c.onlineMode), AO()))
func gem.ControlStateMachine.Start(c)
  inline
  modifies c.state, c.onlineMode
  ensures c.state == acq(c.state) && csmMode(c)
func gem.ControlStateMachine.State(c) (r)
  inline
  modifies c.state, c.onlineMode
  ensures r == acq(c.state) && c.state == acq(c.state) && csmMode(c)
func gem.ControlStateMachine.OnlineMode(c) (r)
  inline
  modifies c.state, c.onlineMode
  ensures r == acq(c.onlineMode) && c.state == acq(c.state) && csmMode(c)
func gem.ControlStateMachine.IsOnlineState(c) (r)
  inline
  modifies c.state, c.onlineMode
  ensures r == cOnline(acq(c.state)) && c.state == acq(c.state) && csmMode(c)
func gem.ControlStateMachine.SwitchOnline(c) (err)
  inline
  modifies c.state, c.onlineMode
  ensures move: csm(c, acq(c.state) == EO() || acq(c.state) == AO(), AO(), err) && csmMode(c)
  ensures refused: acq(c.state) != EO() && acq(c.state) != AO() ==> err != nil
func gem.ControlStateMachine.SwitchOffline(c) (err)
  inline
  modifies c.state, c.onlineMode
  ensures move: csm(c, cOnline(acq(c.state)), EO(), err) && csmMode(c)
  ensures refused: !cOnline(acq(c.state)) ==> err != nil
func gem.ControlStateMachine.SwitchOnlineLocal(c) (err)
  inline
  modifies c.state, c.onlineMode
  ensures move: csm(c, cOnline(acq(c.state)), OL(), err) && c.onlineMode == ite(cOnline(acq(c.state)), "LOCAL", acq(c.onlineMode))
  ensures refused: !cOnline(acq(c.state)) ==> err != nil
func gem.ControlStateMachine.SwitchOnlineRemote(c) (err)
  inline
  modifies c.state, c.onlineMode
  ensures move: csm(c, cOnline(acq(c.state)), ORM(), err) && c.onlineMode == ite(cOnline(acq(c.state)), "REMOTE", acq(c.onlineMode))
  ensures refused: !cOnline(acq(c.state)) ==> err != nil
func gem.ControlStateMachine.AttemptOnlineFailEquipmentOffline(c) (err)
  inline
  modifies c.state, c.onlineMode
  ensures move: csm(c, acq(c.state) == AO() || acq(c.state) == EO(), EO(), err) && csmMode(c)
  ensures refused: acq(c.state) != AO() && acq(c.state) != EO() ==> err != nil
func gem.ControlStateMachine.AttemptOnlineFailHostOffline(c) (err)
  inline
  modifies c.state, c.onlineMode
  ensures move: csm(c, acq(c.state) == AO() || acq(c.state) == HO(), HO(), err) && csmMode(c)
  ensures refused: acq(c.state) != AO() && acq(c.state) != HO() ==> err != nil
func gem.ControlStateMachine.AttemptOnlineSuccess(c) (err)
  inline
  modifies c.state, c.onlineMode
  ensures move: csm(c, acq(c.state) == AO(), onlineOf(acq(c.onlineMode)), err) && csmMode(c)
  ensures stays: cOnline(acq(c.state)) ==> err == nil
  ensures refused: acq(c.state) != AO() && !cOnline(acq(c.state)) ==> err != nil
func gem.ControlStateMachine.RemoteOffline(c) (err)
  inline
  modifies c.state, c.onlineMode
  ensures move: csm(c, cOnline(acq(c.state)), HO(), err) && csmMode(c)
  ensures refused: !cOnline(acq(c.state)) ==> err != nil
func gem.ControlStateMachine.RemoteOnline(c) (err)
  inline
  modifies c.state, c.onlineMode
  ensures move: csm(c, acq(c.state) == HO(), onlineOf(acq(c.onlineMode)), err) && csmMode(c)
  ensures refused: acq(c.state) != HO() ==> err != nil
check C18: gem.NewControlStateMachine, gem.ControlStateMachine.*

# notifications: the last one fired, where, and the states it reported
ghost fires int
ghost firedOn int
ghost firedPrev Any
ghost firedCur Any
monitor common.Event.mutex (self): callbacks
  invariant present: forall(i, 0, len(self.callbacks), self.callbacks[i] != nil) && base(self.callbacks) >= 0
end
ghost callbacks int
func common.Event.AddCallback(e, callback)
  requires e != nil && callback != nil
  modifies anydeep("common.Event.callbacks")
  ensures len(e.callbacks) == len(acq(e.callbacks)) + 1 && e.callbacks[len(e.callbacks) - 1] == callback
  ensures kept: forall(i, 0, len(acq(e.callbacks)), e.callbacks[i] == acq(e.callbacks[i]))
func common.Event.Len(e) (n)
  requires e != nil
  modifies anydeep("common.Event.callbacks")
  ensures n == len(acq(e.callbacks))
assume the application registers no nil callback with an event
func common.Event.Fire(e, data)
  requires e != nil
  modifies anydeep("common.Event.callbacks"), callbacks
  ensures each: callbacks == old(callbacks) + len(acq(e.callbacks))
  loop 0 invariant callbacks == old(callbacks) + iter
  sets fires := fires + 1
  sets firedOn := e
  sets firedPrev := data["previous"]
  sets firedCur := data["current"]
def gOk(g) = g != nil && g.control != nil && g.controlAttemptInProgress != nil && g.handshakeInProgress != nil && g.enabled != nil && g.state != nil && g.protocol != nil && g.logger != nil
def stAny(s, v) = is(s, "gem.ControlState") && as(s, "gem.ControlState") == v
def told(ev, a, b) = (a == b ==> fires == old(fires)) && (a != b && ev != nil ==> fires == old(fires) + 1 && firedOn == ev && stAny(firedPrev, a) && stAny(firedCur, b))
func gem.GemHandler.onControlStateTransition(g, prev, next)
  modifies anyof("gem.ControlStateMachine.state"), anyof("gem.ControlStateMachine.onlineMode"), anydeep("common.Event.callbacks"), anyatom("atomic.Bool"), callbacks, goroutines, fires, firedOn, firedPrev, firedCur
  requires gOk(g)
  ensures told(old(g.events.ControlStateChanged), prev, next)
def cBefore(g) = acqof("gem.GemHandler.controlMu", g.control.state)
def cModeB(g) = acqof("gem.GemHandler.controlMu", g.control.onlineMode)
def cAfter(g) = rel("gem.GemHandler.controlMu", g.control.state)
def cModeA(g) = rel("gem.GemHandler.controlMu", g.control.onlineMode)
# one transition of the handler: where the model allows it the state moves to `to` and the
# notification says so; elsewhere the state stays and nothing is reported
def step(g, ok, to) = cAfter(g) == ite(ok, to, cBefore(g)) && told(old(g.events.ControlStateChanged), cBefore(g), cAfter(g))
def sameMode(g) = cModeA(g) == cModeB(g)
func gem.GemHandler.SwitchControlOnline(g) (err)
  modifies anyof("gem.ControlStateMachine.state"), anyof("gem.ControlStateMachine.onlineMode"), anydeep("common.Event.callbacks"), anyatom("atomic.Bool"), callbacks, goroutines, fires, firedOn, firedPrev, firedCur
  requires gOk(g)
  ensures move: step(g, cBefore(g) == EO(), AO()) && sameMode(g)
func gem.GemHandler.SwitchControlOffline(g) (err)
  modifies anyof("gem.ControlStateMachine.state"), anyof("gem.ControlStateMachine.onlineMode"), anydeep("common.Event.callbacks"), anyatom("atomic.Bool"), callbacks, goroutines, fires, firedOn, firedPrev, firedCur
  requires gOk(g)
  ensures move: step(g, cOnline(cBefore(g)), EO()) && sameMode(g)
func gem.GemHandler.SwitchControlOnlineLocal(g) (err)
  modifies anyof("gem.ControlStateMachine.state"), anyof("gem.ControlStateMachine.onlineMode"), anydeep("common.Event.callbacks"), anyatom("atomic.Bool"), callbacks, goroutines, fires, firedOn, firedPrev, firedCur
  requires gOk(g)
  ensures move: step(g, cOnline(cBefore(g)), OL()) && cModeA(g) == ite(cOnline(cBefore(g)), "LOCAL", cModeB(g))
  ensures refused: (err == nil) == cOnline(cBefore(g))
func gem.GemHandler.SwitchControlOnlineRemote(g) (err)
  modifies anyof("gem.ControlStateMachine.state"), anyof("gem.ControlStateMachine.onlineMode"), anydeep("common.Event.callbacks"), anyatom("atomic.Bool"), callbacks, goroutines, fires, firedOn, firedPrev, firedCur
  requires gOk(g)
  ensures move: step(g, cOnline(cBefore(g)), ORM()) && cModeA(g) == ite(cOnline(cBefore(g)), "REMOTE", cModeB(g))
  ensures refused: (err == nil) == cOnline(cBefore(g))
check C18: gem.GemHandler.onControlStateTransition, gem.GemHandler.SwitchControl*, common.Event.Fire, common.Event.AddCallback, common.Event.Len

# host requests: S1F15 (go offline) and S1F17 (go online) and their answers
def binIs(d, k) = is(d, "*ast.BinaryNode") && len(as(d, "*ast.BinaryNode").values) == 1 && as(d, "*ast.BinaryNode").values[0] == k
# a text of one code: the bare binary item, or a list with just it
def codeIs(d, k) = binIs(d, k) || is(d, "*ast.ListNode") && len(as(d, "*ast.ListNode").values) == 1 && binIs(as(d, "*ast.ListNode").values[0], k)
def answer(m, s, f) = m != nil && m.stream == s && m.function == f && m.waitBit == 0
func gem.GemHandler.buildS1F16(g, k) (m)
  requires g != nil && 0 <= k && k <= 255
  ensures answer(m, 1, 16) && codeIs(m.dataItem, k)
func gem.GemHandler.buildS1F18(g, k) (m)
  requires g != nil && 0 <= k && k <= 255
  ensures answer(m, 1, 18) && codeIs(m.dataItem, k)
func gem.GemHandler.onS1F15(g, msg) (r, err)
  requires gOk(g)
  modifies *
  ensures answered: err == nil && answer(r, 1, 16)
  ensures move: g.deviceType != 0 ==> step(g, cOnline(cBefore(g)), HO()) && sameMode(g)
  ensures ack: g.deviceType != 0 ==> codeIs(r.dataItem, 0)
func gem.GemHandler.onS1F17(g, msg) (r, err)
  requires gOk(g)
  modifies *
  ensures answered: err == nil && answer(r, 1, 18)
  ensures move: g.deviceType != 0 ==> step(g, cBefore(g) == HO(), onlineOf(cModeB(g))) && sameMode(g)
  ensures ack: g.deviceType != 0 ==> codeIs(r.dataItem, ite(cOnline(cBefore(g)), 2, ite(cBefore(g) == HO(), 0, 1)))
# the equipment's attempt to go online, and what a change of the communication state does
def mayMove(g, ok) = acquired("gem.GemHandler.controlMu") ==> (cAfter(g) == cBefore(g) || ok) && told(old(g.events.ControlStateChanged), cBefore(g), cAfter(g)) && sameMode(g)
def mute() = !acquired("gem.GemHandler.controlMu") ==> fires == old(fires)
func gem.GemHandler.initiateAttemptOnline$1()
  requires gOk(*g) && transOk((*g).protocol) && machine((*g).protocol.connectionState)
  modifies *
  ensures move: mayMove(*g, cBefore(*g) == AO() && (cAfter(*g) == HO() || cOnline(cAfter(*g))))
  ensures asked: acquired("gem.GemHandler.controlMu") && cOnline(cAfter(*g)) && !cOnline(cBefore(*g)) ==> hsends == old(hsends) + 1
  ensures mute()
func gem.GemHandler.onCommunicationStateChanged(g, prev, next)
  requires gOk(g)
  modifies anyof("gem.ControlStateMachine.state"), anyof("gem.ControlStateMachine.onlineMode"), anydeep("common.Event.callbacks"), anyatom("atomic.Bool"), callbacks, goroutines, fires, firedOn, firedPrev, firedCur
  ensures move: mayMove(g, next == 4 && cBefore(g) == EO() && cAfter(g) == AO() || next == 1 && (cOnline(cBefore(g)) || cBefore(g) == AO()) && cAfter(g) == EO())
  ensures leaves: next == 1 && prev != 1 && cOnline(cBefore(g)) ==> acquired("gem.GemHandler.controlMu") && cAfter(g) == EO()
  ensures mute()
check C18: gem.GemHandler.buildS1F16, gem.GemHandler.buildS1F18, gem.GemHandler.onS1F15, gem.GemHandler.onS1F17, gem.GemHandler.initiateAttemptOnline$1, gem.GemHandler.onCommunicationStateChanged
