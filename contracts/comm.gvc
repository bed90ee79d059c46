# GEM communication state (C19): gem/communication_state.go and its users in gem/handler.go
# what this goroutine did to the state: times written, the last value written, times communicating was entered
ghost commSets int
ghost commLast int
ghost commEnters int
# whether the handler was enabled when it last changed the state itself
ghost commOn bool
# the connection for which communicating was last entered
ghost commConn int
monitor gem.stateMachine.mu (self): state, connection, waitCRATimer, waitDelayTimer
  complete C19
  callers gem.stateMachine.setState, gem.stateMachine.setStateWithWaitCRA, gem.stateMachine.setStateWithWaitDelay, gem.stateMachine.enterCommunicating, gem.GemHandler.setCommunicating, gem.GemHandler.setCommunicationState
  invariant state: 0 <= self.state && self.state <= 4
end
def cmWas(sm) = acqof("gem.stateMachine.mu", sm.state)
def cmNow(sm) = rel("gem.stateMachine.mu", sm.state)
func gem.newStateMachine() (sm)
  ensures sm != nil && fresh(sm) && sm.state == 0
func gem.stateMachine.State(sm) (r)
  requires sm != nil
  modifies anyof("gem.stateMachine.state"), anyof("gem.stateMachine.connection"), anyof("gem.stateMachine.waitCRATimer"), anyof("gem.stateMachine.waitDelayTimer")
  ensures r == acq(sm.state) && 0 <= r && r <= 4
# only enterCommunicating makes the state communicating
func gem.stateMachine.setState(sm, state) (prev)
  requires sm != nil && 0 <= state && state < 4
  modifies anyof("gem.stateMachine.state"), anyof("gem.stateMachine.connection"), anyof("gem.stateMachine.waitCRATimer"), anyof("gem.stateMachine.waitDelayTimer")
  sets commSets := commSets + 1
  sets commLast := state
  ensures prev == acq(sm.state) && rel("gem.stateMachine.mu", sm.state) == state
func gem.stateMachine.setStateWithWaitCRA(sm, state, duration, timeout)
  requires sm != nil && 0 <= state && state < 4
  modifies anyof("gem.stateMachine.state"), anyof("gem.stateMachine.connection"), anyof("gem.stateMachine.waitCRATimer"), anyof("gem.stateMachine.waitDelayTimer")
  sets commSets := commSets + 1
  sets commLast := state
  ensures rel("gem.stateMachine.mu", sm.state) == state
func gem.stateMachine.setStateWithWaitDelay(sm, state, duration, timeout)
  requires sm != nil && 0 <= state && state < 4
  modifies anyof("gem.stateMachine.state"), anyof("gem.stateMachine.connection"), anyof("gem.stateMachine.waitCRATimer"), anyof("gem.stateMachine.waitDelayTimer")
  sets commSets := commSets + 1
  sets commLast := state
  ensures rel("gem.stateMachine.mu", sm.state) == state
func gem.stateMachine.stopTimers(sm)
  requires sm != nil
  modifies anyof("gem.stateMachine.state"), anyof("gem.stateMachine.connection"), anyof("gem.stateMachine.waitCRATimer"), anyof("gem.stateMachine.waitDelayTimer")
  ensures cmNow(sm) == cmWas(sm)
# under the lock: refused once the handler has been disabled
func gem.stateMachine.enterCommunicating(sm, enabled, connection) (prev, ok)
  requires sm != nil && enabled != nil
  modifies anyof("gem.stateMachine.state"), anyof("gem.stateMachine.connection"), anyof("gem.stateMachine.waitCRATimer"), anyof("gem.stateMachine.waitDelayTimer")
  records commEnters := commEnters + ite(ok, 1, 0)
  records commLast := ite(ok, 4, commLast)
  records commConn := ite(ok, connection, commConn)
  ensures asked: ok == acq(load(enabled)) && prev == acq(sm.state)
  ensures entered: ok ==> cmNow(sm) == 4 && rel("gem.stateMachine.mu", sm.connection) == connection
  ensures refused: !ok ==> cmNow(sm) == acq(sm.state)
func gem.stateMachine.establishedBefore(sm, connection) (r)
  requires sm != nil
  modifies anyof("gem.stateMachine.state"), anyof("gem.stateMachine.connection"), anyof("gem.stateMachine.waitCRATimer"), anyof("gem.stateMachine.waitDelayTimer")
  ensures established: r ==> acq(sm.state) == 4 && connection != acq(sm.connection)
  ensures earlier: acq(sm.state) == 4 && 0 < connection - acq(sm.connection) && connection - acq(sm.connection) < 2147483648 ==> r
# the acknowledge code of a reply: its first item's first byte, -1 without one
def commAck(m) = ite(m != nil && inList(m.dataItem, 0) && is(listAt(m.dataItem, 0), "*ast.BinaryNode") && len(as(listAt(m.dataItem, 0), "*ast.BinaryNode").values) > 0, as(listAt(m.dataItem, 0), "*ast.BinaryNode").values[0], -1)
func gem.readCommAck(msg) (k)
  ensures k == commAck(msg)
func gem.GemHandler.setCommunicationState(g, state)
  requires gOk(g) && 0 <= state && state < 4
  modifies anyof("gem.stateMachine.state"), anyof("gem.stateMachine.connection"), anyof("gem.stateMachine.waitCRATimer"), anyof("gem.stateMachine.waitDelayTimer"), anyof("gem.ControlStateMachine.state"), anyof("gem.ControlStateMachine.onlineMode"), anydeep("common.Event.callbacks"), anyatom("atomic.Bool"), callbacks, goroutines, fires, firedOn, firedPrev, firedCur, commLast, commSets
  sets commOn := load(g.enabled)
  ensures commSets == old(commSets) + 1 && commLast == state && commEnters == old(commEnters)
func gem.GemHandler.setCommunicating(g, connection) (ok)
  volatile
  requires gOk(g)
  modifies anyof("gem.stateMachine.state"), anyof("gem.stateMachine.connection"), anyof("gem.stateMachine.waitCRATimer"), anyof("gem.stateMachine.waitDelayTimer"), anyof("gem.ControlStateMachine.state"), anyof("gem.ControlStateMachine.onlineMode"), anydeep("common.Event.callbacks"), anyatom("atomic.Bool"), callbacks, goroutines, fires, firedOn, firedPrev, firedCur, commLast, commEnters, commConn, anydeep("gem.GemHandler.waiters"), chans()
  ensures ok == acqof("gem.stateMachine.mu", load(g.enabled))
  ensures commEnters == old(commEnters) + ite(ok, 1, 0) && (ok ==> commConn == connection)
# the answer accepts exactly when the state was entered
func gem.GemHandler.onS1F13(g, msg) (r, err)
  volatile
  requires cmOk(g) && shortText(g.mdln) && shortText(g.softrev)
  modifies *
  ensures answered: err == nil && answer(r, 1, 14) && inList(r.dataItem, 0)
  ensures accepted: commEnters == old(commEnters) + 1 ==> binIs(listAt(r.dataItem, 0), 0)
  ensures refused: commEnters != old(commEnters) + 1 ==> binIs(listAt(r.dataItem, 0), 1) && commEnters == old(commEnters)
  ensures enabled: acqof("gem.stateMachine.mu", load(g.enabled)) ==> commEnters == old(commEnters) + 1
def cmOk(g) = gOk(g) && transOk(g.protocol) && machine(g.protocol.connectionState) && g.protocol.connections != nil && g.protocol.connected != nil && g.protocol.enabled != nil && g.protocol.connectThreadRunning != nil && g.protocol.connectionState != nil
monitor gem.GemHandler.stopMu (self): stopCh
  invariant open: self.stopCh == nil || !closed(self.stopCh)
end
monitor gem.GemHandler.waitersMu (self): waiters
end
def quiet() = commEnters == old(commEnters)
func gem.GemHandler.onS1F14(g, msg) (r, err)
  volatile
  requires cmOk(g)
  modifies *
  ensures silent: r == nil && err == nil
  ensures accepted: commEnters == old(commEnters) || commAck(msg) == 0
  ensures refused: msg != nil && commAck(msg) != 0 && old(load(g.enabled)) ==> commSets == old(commSets) + 1 && commLast == 3
func gem.GemHandler.initiateHandshake$1()
  requires cmOk(*g)
  modifies *
  ensures same_connection: quiet() || commConn == old(load((*g).protocol.connections))
  ensures accepted: quiet() || hsends == old(hsends) + 1 && commAck(waitReply) == 0
func gem.GemHandler.initiateEstablishCommunication$1()
  requires cmOk(*g)
  modifies *
  ensures same_connection: quiet() || commConn == old(load((*g).protocol.connections))
  ensures accepted: quiet() || hsends == old(hsends) + 1 && commAck(waitReply) == 0
func gem.GemHandler.scheduleRetry(g)
  requires gOk(g)
  modifies anyof("gem.stateMachine.state"), anyof("gem.stateMachine.connection"), anyof("gem.stateMachine.waitCRATimer"), anyof("gem.stateMachine.waitDelayTimer"), commSets, commLast
  ensures quiet() && (old(load(g.enabled)) ==> commSets == old(commSets) + 1 && commLast == 3)
func gem.GemHandler.initiateHandshake(g)
  requires cmOk(g)
  modifies *
  ensures quiet() && commSets == old(commSets)
func gem.GemHandler.initiateEstablishCommunication(g)
  requires cmOk(g)
  modifies *
  ensures quiet() && commSets == old(commSets)
func gem.GemHandler.onWaitCRATimeout(g)
  requires cmOk(g)
  modifies *
  ensures quiet()
func gem.GemHandler.onWaitDelayTimeout(g)
  requires cmOk(g)
  modifies *
  ensures quiet()
# a lost connection, or one replaced by another, leaves the state not communicating
func gem.GemHandler.observe(g)
  requires cmOk(g)
  modifies *
  ensures quiet()
  ensures lost: old(load(g.enabled)) && !old(load(g.protocol.connected)) ==> commSets == old(commSets) + 1 && commLast == 1
  ensures replaced: old(load(g.enabled)) && acqof("gem.stateMachine.mu", g.state.state) == 4 && 0 < old(load(g.protocol.connections)) - acqof("gem.stateMachine.mu", g.state.connection) && old(load(g.protocol.connections)) - acqof("gem.stateMachine.mu", g.state.connection) < 2147483648 && acquired("gem.stateMachine.mu") ==> commLast == 1
# a disabled handler: the flag is cleared before the state is
# stopping the listener closes its sessions (C11) and touches nothing of the handler
func link.Server.Stop(s)
  trusted
func gem.GemHandler.Disable(g)
  requires cmOk(g) && g.protocol.hsmsConnection.hp == g.protocol
  modifies *
  ensures quiet()
  ensures left: old(load(g.enabled)) ==> commSets == old(commSets) + 1 && commLast == 1 && !commOn
func gem.GemHandler.Enable(g)
  requires cmOk(g)
  modifies *
  ensures quiet()
  ensures begin: !old(load(g.enabled)) ==> commSets == old(commSets) + 1 && commLast == 1
func gem.Options.applyDefaults(o)
  requires o != nil
  modifies o.Logging, o.MDLN, o.SOFTREV, o.EstablishCommunicationWait, o.InitialControlState, o.InitialOnlineMode
func gem.LoggingOptions.toConfig(o, w) (cfg)
func hsms.HsmsProtocol.ConfigureLogging(p, cfg)
  requires p != nil
  modifies p.logCfg
func gem.NewGemHandler(opts) (g, err)
  requires opts.Protocol == nil || transOk(opts.Protocol) && opts.Protocol.handlers != nil
  modifies *
  modifies callbacks, fires, firedCur, firedOn, firedPrev, commSets, commLast, commOn, goroutines
  ensures made: (err == nil) == (opts.Protocol != nil) && (err == nil ==> g != nil)
  ensures quiet()
check C19: gem.NewGemHandler, gem.Options.applyDefaults, gem.LoggingOptions.toConfig, hsms.HsmsProtocol.ConfigureLogging, gem.newStateMachine, gem.stateMachine.*, gem.readCommAck, gem.GemHandler.setCommunicationState, gem.GemHandler.setCommunicating, gem.GemHandler.onS1F13, gem.GemHandler.onS1F14, gem.GemHandler.initiateHandshake*, gem.GemHandler.initiateEstablishCommunication*, gem.GemHandler.scheduleRetry, gem.GemHandler.onWait*Timeout, gem.GemHandler.observe, gem.GemHandler.Disable, gem.GemHandler.Enable
