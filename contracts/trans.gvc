# Transactions (C14), handlers (C15), stream 9 (C16): hsms/protocol.go, connection.go, protocol_s9_helpers.go, error_messages.go

# ---- stream 9
def mhdr(m, i) = frameAt(m, 4 + i)
def isBin(x) = is(x, "*ast.BinaryNode")
def binv(x) = as(x, "*ast.BinaryNode").values
def header10(x, m) = isBin(x) && len(as(x, "*ast.BinaryNode").variables) == 0 && len(binv(x)) == 10 && forall(i, 0, 10, binv(x)[i] == mhdr(m, i))
func hsms.messageHeader(originalMsg) (r)
  requires originalMsg != nil && originalMsg.sessionID >= 0
  ensures len(r) == 10 && fresh(r) && forall(i, 0, 10, r[i] == mhdr(originalMsg, i))
def isS9(r, fn, s) = r != nil && r.name == "" && r.stream == 9 && r.function == fn && r.waitBit == 0 && r.sessionID == 0 && forall(i, 0, 4, r.systemBytes[i] == sysOf(s, i))
func hsms.buildS9WithHeader(function, message) (r)
  requires message != nil && message.sessionID >= 0 && 0 <= function && function <= 255
  ensures r != nil && r.stream == 9 && r.function == function && r.waitBit == 0 && r.sessionID == 0 && forall(i, 0, 4, r.systemBytes[i] == message.systemBytes[i])
  ensures header10(r.dataItem, message)
  loop 0 invariant len(acc("[]interface{}")) == iter && forall(i, 0, iter, is(acc("[]interface{}")[i], "uint8") && as(acc("[]interface{}")[i], "uint8") == mhdr(message, i))
func hsms.BuildS9F9(sHeader, systemBytes) (r)
  panics only when len(sHeader) > MAXB()
  ensures isS9(r, 9, systemBytes)
  ensures isBin(r.dataItem) && len(as(r.dataItem, "*ast.BinaryNode").variables) == 0 && len(binv(r.dataItem)) == len(sHeader) && forall(i, 0, len(sHeader), binv(r.dataItem)[i] == sHeader[i])
  loop 0 invariant forall(i, 0, iter, is(mk("[]interface{}")[i], "uint8") && as(mk("[]interface{}")[i], "uint8") == sHeader[i] && 0 <= sHeader[i] && sHeader[i] <= 255)

# one stream 9 message was sent: no wait bit, its text the ten header bytes of m
def sentS9(p, m, fn) = hsends == old(hsends) + 1 && hsendTo == p.hsmsConnection && is(hsendMsg, "[]byte") && hsendLen == 26 && \
  sentB(0) == 0 && sentB(1) == 0 && sentB(2) == 0 && sentB(3) == 22 && sentB(4) == p.sessionID / 256 && sentB(5) == p.sessionID % 256 && sentB(6) == 9 && sentB(7) == fn && sentB(8) == 0 && sentB(9) == 0 && \
  sentB(14) == 33 && sentB(15) == 10 && forall(i, 0, 10, sentB(16 + i) == mhdr(m, i))
def knownStream(s) = s == 1 || s == 2 || s == 3 || s == 4 || s == 5 || s == 6 || s == 7 || s == 8 || s == 9 || s == 10 || s == 12 || s == 13 || s == 14 || s == 15 || s == 16 || s == 17 || s == 21
func hsms.HsmsProtocol.isKnownStream(p, stream) (r)
  ensures r == knownStream(stream)
func hsms.HsmsProtocol.sendS9ErrorForUnrecognized(p, message)
  requires protoOk(p) && 0 <= p.sessionID && p.sessionID <= 65535 && message != nil && message.sessionID >= 0
  modifies ssends, ssendTo, ssendMsg, hsends, hsendTo, hsendMsg, hsendB, hsendOff, hsendLen
  ensures never_about_s9: message.stream == 9 ==> hsends == old(hsends)
  ensures fault: message.stream != 9 ==> sentS9(p, message, ite(knownStream(message.stream), 5, 3))
  ensures addressed: message.stream != 9 ==> forall(i, 0, 4, sentB(10 + i) == message.systemBytes[i])
func hsms.HsmsProtocol.sendS9F9TransactionTimeout(p, originalMsg)
  requires protoOk(p) && 0 <= p.sessionID && p.sessionID <= 65535 && originalMsg != nil && originalMsg.sessionID >= 0
  modifies ssends, ssendTo, ssendMsg, hsends, hsendTo, hsendMsg, hsendB, hsendOff, hsendLen, load(p.systemCounter), draws, drawn, drawnFrom
  ensures timeout: sentS9(p, originalMsg, 9)

# the error callback
ghost s9calls int
ghost s9code int
ghost s9sys Bytes
ghost s9off int
field hsms.HsmsProtocol.OnS9Error(self, info)
  noframe
  sets s9calls := s9calls + 1
  sets s9code := info.ErrorCode
  sets s9sys := row(info.SystemBytes)
  sets s9off := off(info.SystemBytes)
func hsms.HsmsProtocol.triggerS9ErrorCallback(p, msg)
  requires msg != nil
  modifies s9calls, s9code, s9sys, s9off
  ensures p.OnS9Error == nil ==> s9calls == old(s9calls)
  ensures p.OnS9Error != nil ==> s9calls == old(s9calls) + 1 && s9code == msg.function && forall(i, 0, 4, s9sys[s9off + i] == msg.systemBytes[i])
check C16: hsms.messageHeader, hsms.buildS9WithHeader, hsms.BuildS9F9, hsms.HsmsProtocol.isKnownStream, hsms.HsmsProtocol.sendS9*, hsms.HsmsProtocol.triggerS9ErrorCallback

# ---- handlers
guarded hsms.HsmsProtocol.handlerMu (self): handlers, defaultHandler
# what the handlers were given and what they returned (user code); hAfter: messages sent when the handler returned
ghost hcalls int
ghost hfn int
ghost hmsg int
ghost hresp Any
ghost hfailed bool
ghost hAfter int
assume a message handler may send messages and use the clock; it leaves the other state of the connection alone
functype hsms.DataMessageHandler(fn, msg) (resp, err)
  modifies hresp, hfailed, hAfter, ssends, ssendTo, ssendMsg, hsends, hsendTo, hsendMsg, hsendB, hsendOff, hsendLen
  sets hcalls := hcalls + 1
  sets hfn := fn
  sets hmsg := msg
  ensures hresp == box(resp) && hfailed == (err != nil) && hAfter == hsends

def hkey(s, f) = call("hsms.streamFunctionKey", s, f)
func hsms.streamFunctionKey(stream, function) (r)
  ghost s2 int
  ghost f2 int
  inline
  ensures injective: r == hkey(s2, f2) ==> s2 == stream && f2 == function
func hsms.HsmsProtocol.lookupHandler(p, stream, function) (h)
  ensures has(p.handlers, hkey(stream, function)) ==> h == p.handlers[hkey(stream, function)]
  ensures !has(p.handlers, hkey(stream, function)) ==> h == nil
func hsms.HsmsProtocol.RegisterHandler(p, stream, function, handler)
  ghost s2 int
  ghost f2 int
  requires p.handlers != nil
  modifies entries(p.handlers)
  ensures registered: handler != nil ==> has(p.handlers, hkey(stream, function)) && p.handlers[hkey(stream, function)] == handler
  ensures removed: handler == nil ==> !has(p.handlers, hkey(stream, function))
  ensures others: s2 != stream || f2 != function ==> has(p.handlers, hkey(s2, f2)) == old(has(p.handlers, hkey(s2, f2))) && (has(p.handlers, hkey(s2, f2)) ==> p.handlers[hkey(s2, f2)] == old(p.handlers[hkey(s2, f2)]))
func hsms.HsmsProtocol.RegisterDefaultHandler(p, handler)
  modifies p.defaultHandler
  ensures p.defaultHandler == handler

# the reply sent: the handler's message with the session and the system bytes of the request
def rmsg() = as(hresp, "*ast.DataMessage")
func hsms.HsmsProtocol.invokeHandler(p, handler, msg)
  requires handler != nil && protoOk(p) && msg != nil
  modifies hcalls, hfn, hmsg, hresp, hfailed, hAfter, ssends, ssendTo, ssendMsg, hsends, hsendTo, hsendMsg, hsendB, hsendOff, hsendLen
  ensures given: hcalls == old(hcalls) + 1 && hfn == handler && hmsg == msg
  ensures unasked: msg.waitBit != 1 || hfailed || rmsg() == nil ==> hsends == hAfter
  ensures answered: msg.waitBit == 1 && !hfailed && rmsg() != nil ==> hsends == hAfter + 1 && hsendTo == p.hsmsConnection && is(hsendMsg, "[]byte")
  ensures mirrors: hsends != hAfter && 14 <= hsendLen && hsendLen < 4294967296 ==> sentB(4) * 256 + sentB(5) == msg.sessionID && forall(i, 0, 4, sentB(10 + i) == msg.systemBytes[i])
  ensures content: hsends != hAfter && 14 <= hsendLen && hsendLen < 4294967296 ==> sentB(6) % 128 == rmsg().stream && sentB(7) == rmsg().function && hsendLen == 14 + encLen(rmsg().dataItem) && forall(i, 14, hsendLen, sentB(i) == encAt(rmsg().dataItem, i - 14))
check C15: hsms.streamFunctionKey, hsms.HsmsProtocol.lookupHandler, hsms.HsmsProtocol.Register*, hsms.HsmsProtocol.invokeHandler

def dflt(p) = old(p.defaultHandler)
def hnd(p, m) = ite(old(has(p.handlers, hkey(m.stream, m.function))) && old(p.handlers[hkey(m.stream, m.function)]) != 0, old(p.handlers[hkey(m.stream, m.function)]), dflt(p))
func hsms.HsmsProtocol.handleDataMessage(p, message)
  sets hdms := hdms + 1
  sets hdmMsg := box(message)
  requires protoOk(p) && message != nil && 0 <= p.sessionID && p.sessionID <= 65535 && message.sessionID >= 0
  modifies hcalls, hfn, hmsg, hresp, hfailed, hAfter, ssends, ssendTo, ssendMsg, hsends, hsendTo, hsendMsg, hsendB, hsendOff, hsendLen, s9calls, s9code, s9sys, s9off
  ensures[C15] handled: hnd(p, message) != 0 ==> hcalls == old(hcalls) + 1 && hfn == hnd(p, message) && hmsg == message
  ensures[C15] unhandled: hnd(p, message) == 0 ==> hcalls == old(hcalls)
  ensures[C16] quiet: hnd(p, message) == 0 && message.stream == 9 ==> hsends == old(hsends)
  ensures[C16] reported: hnd(p, message) == 0 && message.stream != 9 ==> sentS9(p, message, ite(knownStream(message.stream), 5, 3)) && forall(i, 0, 4, sentB(10 + i) == message.systemBytes[i])
  ensures[C16] callback: s9calls == old(s9calls) + ite(message.stream == 9 && p.OnS9Error != nil, 1, 0) && (s9calls != old(s9calls) ==> s9code == message.function)
check C15: hsms.HsmsProtocol.handleDataMessage, hsms.HsmsProtocol.SendResponse
check C16: hsms.HsmsProtocol.handleDataMessage

# ---- transactions. The counter is drawn from by atomic increments: two draws never give the same
# number (before 2^32 of them), whatever other goroutines do.
ghost draws int
ghost drawn int
ghost drawnFrom int
# the last draw used for a transaction, and its number
ghost claimed int
ghost claimKey int
func atomic.Uint32.Inc(x) (n)
  trusted
  modifies load(x), drawn
  sets draws := draws + 1
  sets drawnFrom := x
  ensures n == drawn && load(x) == n
func atomic.Uint32.Add(x, delta) (n)
  trusted
  requires step: delta == 1
  modifies load(x), drawn
  sets draws := draws + 1
  sets drawnFrom := x
  ensures n == drawn && load(x) == n
func atomic.Uint32.Store(x, v)
  trusted
  requires[C14] never_reset: 1 == 0
  modifies load(x)


# the queue is gone, every other one is as it was
def noTrace(p) = all(k, "uint32", has(p.systemQueues, k) == (old(has(p.systemQueues, k)) && k != claimKey))
def sameQueues(p) = all(k, "uint32", has(p.systemQueues, k) ==> p.systemQueues[k] == old(p.systemQueues[k]), has(p.systemQueues, k))
def t3ok(p) = 0 <= p.timeouts.t3ReplyTimeout && p.timeouts.t3ReplyTimeout <= 9000000000 && 0 <= p.timeouts.t6ControlTransTimeout && p.timeouts.t6ControlTransTimeout <= 9000000000
def transOk(p) = protoOk(p) && p.systemQueues != nil && 0 <= p.sessionID && p.sessionID <= 65535 && claimed <= draws && t3ok(p)
func hsms.HsmsProtocol.SendAndWait(p, message) (r, err)
  requires transOk(p) && machine(p.connectionState)
  panics only when message.waitBit == 2 && message.function % 2 == 0
  # meanwhile the connection may be lost and replaced
  modifies load(p.connections)
  modifies entries(p.systemQueues), load(p.systemCounter), draws, drawn, drawnFrom, claimed, claimKey, lkey, lrow, llo, lhi, takes, takeList, takeVal, puts, emptyAt, emptyList, clock, chans(), \
    ssends, ssendTo, ssendMsg, hsends, hsendTo, hsendMsg, hsendB, hsendOff, hsendLen
  records waitReply := r
  ensures reply: err == nil ==> r != nil && hsends == old(hsends) + 1
  ensures own_session: hsends != old(hsends) && 14 <= hsendLen && hsendLen < 4294967296 ==> sentB(4) * 256 + sentB(5) == p.sessionID
  ensures matching: err == nil && 14 <= hsendLen && hsendLen < 4294967296 ==> forall(i, 0, 4, r.systemBytes[i] == sentB(10 + i))
  ensures no_trace: claimed != old(claimed) ==> noTrace(p) && sameQueues(p)
  ensures untouched: claimed == old(claimed) ==> all(k, "uint32", has(p.systemQueues, k) == old(has(p.systemQueues, k))) && sameQueues(p)
# a control request: the number its reply is awaited under is the number it was sent with
def sentReq(kind) = hsendLen == 14 && sentB(0) == 0 && sentB(1) == 0 && sentB(2) == 0 && sentB(3) == 10 && sentB(6) == 0 && sentB(8) == 0 && sentB(9) == kind && \
  claimKey == sentB(10) * 16777216 + sentB(11) * 65536 + sentB(12) * 256 + sentB(13)
func hsms.HsmsConnection.sendLinktestReq(c)
  requires c.hp != nil && transOk(c.hp)
  modifies entries(c.hp.systemQueues), load(c.hp.systemCounter), draws, drawn, drawnFrom, claimed, claimKey, lkey, lrow, llo, lhi, takes, takeList, takeVal, puts, emptyAt, emptyList, clock, chans(), \
    ssends, ssendTo, ssendMsg, hsends, hsendTo, hsendMsg, hsendB, hsendOff, hsendLen
  ensures awaited: hsends != old(hsends) ==> sentReq(5)
  ensures no_trace: noTrace(c.hp)
  ensures others: sameQueues(c.hp)
func hsms.HsmsConnection.sendSelectReq(c) (err)
  requires c.hp != nil && transOk(c.hp)
  modifies entries(c.hp.systemQueues), load(c.hp.systemCounter), draws, drawn, drawnFrom, claimed, claimKey, lkey, lrow, llo, lhi, takes, takeList, takeVal, puts, emptyAt, emptyList, clock, chans(), \
    ssends, ssendTo, ssendMsg, hsends, hsendTo, hsendMsg, hsendB, hsendOff, hsendLen
  ensures accepted: err == nil ==> isC(takeVal) && asC(takeVal)[3] == 0 && forall(i, 0, 4, asC(takeVal)[6 + i] == sentB(10 + i))
  ensures awaited: hsends != old(hsends) ==> sentReq(1)
  ensures no_trace: noTrace(c.hp)
  ensures others: sameQueues(c.hp)
func hsms.HsmsConnection.sendDeselectReq(c) (err)
  requires c.hp != nil && transOk(c.hp)
  modifies entries(c.hp.systemQueues), load(c.hp.systemCounter), draws, drawn, drawnFrom, claimed, claimKey, lkey, lrow, llo, lhi, takes, takeList, takeVal, puts, emptyAt, emptyList, clock, chans(), \
    ssends, ssendTo, ssendMsg, hsends, hsendTo, hsendMsg, hsendB, hsendOff, hsendLen
  ensures accepted: err == nil ==> isC(takeVal) && asC(takeVal)[3] == 0 && forall(i, 0, 4, asC(takeVal)[6 + i] == sentB(10 + i))
  ensures awaited: hsends != old(hsends) ==> sentReq(3)
  ensures no_trace: noTrace(c.hp)
  ensures others: sameQueues(c.hp)
# every primary message handed over for sending without waiting for the reply
ghost gsends int
ghost gsendMsg Any
ghost waitReply *ast.DataMessage
func hsms.HsmsProtocol.SendDataMessage(p, message) (err)
  sets gsends := gsends + 1
  sets gsendMsg := box(message)
  requires transOk(p) && machine(p.connectionState)
  modifies load(p.systemCounter), draws, drawn, drawnFrom, ssends, ssendTo, ssendMsg, hsends, hsendTo, hsendMsg, hsendB, hsendOff, hsendLen
  ensures own_session: hsends != old(hsends) && 14 <= hsendLen && hsendLen < 4294967296 ==> sentB(4) * 256 + sentB(5) == p.sessionID
  ensures own_number: hsends != old(hsends) && 14 <= hsendLen && hsendLen < 4294967296 ==> draws == old(draws) + 1 && sentB(10) * 16777216 + sentB(11) * 65536 + sentB(12) * 256 + sentB(13) == drawn
func hsms.HsmsProtocol.SendResponse(p, message, systemBytes) (err)
  requires transOk(p) && machine(p.connectionState)
  modifies ssends, ssendTo, ssendMsg, hsends, hsendTo, hsendMsg, hsendB, hsendOff, hsendLen
  ensures own_session: hsends != old(hsends) && 14 <= hsendLen && hsendLen < 4294967296 ==> sentB(4) * 256 + sentB(5) == p.sessionID
  ensures request_number: hsends != old(hsends) && 14 <= hsendLen && hsendLen < 4294967296 ==> forall(i, 0, 4, sentB(10 + i) == sysOf(systemBytes, i))

# ---- the receiver: every message received is given to exactly one place
ghost rx int
ghost rxMsg Any
ghost rxPuts int
ghost rxReqs int
ghost rxHdms int
ghost reqs int
ghost reqMsg Any
ghost hdms int
ghost hdmMsg Any
assume the codec of an HSMS connection delivers HSMS messages only (C09)
except C11
func link.Session.Receive(s) (msg, err)
  trusted
  modifies rx, rxMsg, rxPuts, rxReqs, rxHdms
  ensures err != nil ==> rx == old(rx) && rxMsg == old(rxMsg) && rxPuts == old(rxPuts) && rxReqs == old(rxReqs) && rxHdms == old(rxHdms)
  ensures err == nil ==> rx == old(rx) + 1 && rxMsg == msg && rxPuts == puts && rxReqs == reqs && rxHdms == hdms
  ensures err == nil ==> msg != nil && (isC(msg) || is(msg, "*ast.DataMessage") && as(msg, "*ast.DataMessage") != nil && as(msg, "*ast.DataMessage").sessionID >= 0)
func link.Session.Codec(s) (r)
  trusted
endonly
def rxD() = as(rxMsg, "*ast.DataMessage")
def rxKey() = b4(rxD().systemBytes)
def toNobody() = puts == rxPuts && reqs == rxReqs && hdms == rxHdms
def toQueue(p) = reqs == rxReqs && hdms == rxHdms && puts == rxPuts + 1 && putVal == rxMsg && has(p.systemQueues, rxKey()) && putList == p.systemQueues[rxKey()].container
def toHandler(p) = reqs == rxReqs && puts == rxPuts && hdms == rxHdms + 1 && hdmMsg == rxMsg && !has(p.systemQueues, rxKey())
def routed(p) = ite(isC(rxMsg), hdms == rxHdms && reqs == rxReqs + 1 && reqMsg == rxMsg, toNobody() && now(p) != SE() || toQueue(p) || toHandler(p))
def recvOk(p) = protoOk(p) && machine(p.connectionState) && p.hsmsConnection != nil && p.hsmsConnection.hp == p && queuesOk(p) && 0 <= p.sessionID && p.sessionID <= 65535
func hsms.HsmsProtocol.OnConnectionEstablished(p)
  requires protoOk(p) && machine(p.connectionState)
  modifies load(p.connected), load(p.connections), draws, drawn, drawnFrom, fcur, fevents, goroutines, anyof("hsms.HsmsProtocol.t7Timer"), chans(), anyatom("atomic.Bool")
  ensures machine(p.connectionState)
func hsms.HsmsProtocol.OnConnectionEstablishedAndStartReceiver(p, connection)
  requires recvOk(p) && connection != nil && p.timeouts.t8NetworkIntercharTimeout >= 0
  modifies *
  noframe
  volatile
  loop 0 invariant r1: protoOk(p)
  loop 0 invariant r2: machine(p.connectionState)
  loop 0 invariant r3: p.hsmsConnection != nil && p.hsmsConnection.hp == p && 0 <= p.sessionID && p.sessionID <= 65535
  loop 0 invariant r4: queuesOk(p)
  loop 0 invariant !closed(mk("chan struct{}"))
  loop 0 invariant each: rx == old(rx) || routed(p)
check C14: hsms.HsmsProtocol.SendAndWait, hsms.HsmsProtocol.SendDataMessage, hsms.HsmsProtocol.SendResponse, hsms.HsmsProtocol.createQueue, hsms.HsmsProtocol.removeQueue, hsms.HsmsProtocol.fetchQueue, hsms.HsmsProtocol.getNextSystemCounter, hsms.HsmsProtocol.encodeSystemID, hsms.HsmsConnection.sendLinktestReq, hsms.HsmsConnection.sendSelectReq, hsms.HsmsConnection.sendDeselectReq, hsms.HsmsProtocol.OnConnectionEstablished*
