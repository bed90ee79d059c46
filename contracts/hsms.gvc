# HSMS protocol (C13-C16): hsms/protocol.go, hsms/connection.go, protocol_s9_helpers.go
assume other goroutines do not change the fields of a connection in the middle of one step of it (handling one received message, sending one message)

# what was handed to the session / the connection last, and how often (ghost code of Send)
ghost ssends int
ghost ssendTo int
ghost ssendMsg Any
ghost hsends int
ghost hsendTo int
ghost hsendMsg Any
ghost hsendB Bytes
ghost hsendOff int
ghost hsendLen int
ghost rejects int
ghost hcloses int
except C11
func link.Session.Send(session, msg) (err)
  trusted
  sets ssends := ssends + 1
  sets ssendTo := session
  sets ssendMsg := msg
func link.Session.Close(session) (err)
  trusted
func link.Session.IsClosed(session) (r)
  trusted
endonly
func hsms.HsmsConnection.Send(c, msg) (err)
  modifies ssends, ssendTo, ssendMsg
  sets hsends := hsends + 1
  sets hsendTo := c
  sets hsendMsg := msg
  sets hsendB := row(as(msg, "[]byte"))
  sets hsendOff := off(as(msg, "[]byte"))
  sets hsendLen := len(as(msg, "[]byte"))
  ensures[C13] none: c.connection == nil ==> err != nil && ssends == old(ssends)
  ensures[C13] once: c.connection != nil ==> ssends == old(ssends) + 1 && ssendTo == c.connection && ssendMsg == msg
func hsms.HsmsConnection.Close(c) (err)
  sets hcloses := hcloses + 1
func hsms.HsmsConnection.Session(c) (s)
  ensures s == c.connection
func hsms.HsmsConnection.SetSession(c, session)
  modifies c.connection
  ensures c.connection == session

# logging has no effect on the protocol
func hsms.HsmsProtocol.logControlMessage(p, direction, message)
  trusted
func hsms.HsmsProtocol.logDataMessage(p, direction, message)
  trusted

# the bytes of the last message sent by this goroutine
def sentB(i) = hsendB[hsendOff + i]
# one control frame was sent: header bytes 0 to 5, and the system bytes of the received message
def sentCtl(c, m, s0, s1, b2, b3, t) = hsends == old(hsends) + 1 && hsendTo == c && is(hsendMsg, "[]byte") && hsendLen == 14 && \
  sentB(0) == 0 && sentB(1) == 0 && sentB(2) == 0 && sentB(3) == 10 && sentB(4) == s0 && sentB(5) == s1 && sentB(6) == b2 && sentB(7) == b3 && sentB(8) == 0 && sentB(9) == t && \
  forall(i, 6, 10, sentB(4 + i) == asC(m)[i])
def nothingSent() = hsends == old(hsends)
def connOk(c) = c.hp != nil && c.hp.logger != nil
def sess0(m) = asC(m)[0]
def sess1(m) = asC(m)[1]

func hsms.HsmsConnection.sendSelectRsp(c, message, status)
  requires isC(message) && ctype(asC(message)) == "select.req" && connOk(c) && 0 <= status && status <= 255
  modifies ssends, ssendTo, ssendMsg, hsends, hsendTo, hsendMsg, hsendB, hsendOff, hsendLen
  ensures sentCtl(c, message, sess0(message), sess1(message), 0, status, 2)
func hsms.HsmsConnection.sendDeselectRsp(c, message, status)
  requires isC(message) && ctype(asC(message)) == "deselect.req" && connOk(c) && 0 <= status && status <= 255
  modifies ssends, ssendTo, ssendMsg, hsends, hsendTo, hsendMsg, hsendB, hsendOff, hsendLen
  ensures sentCtl(c, message, sess0(message), sess1(message), 0, status, 4)
func hsms.HsmsConnection.sendLinkTestRsp(c, message)
  requires isC(message) && ctype(asC(message)) == "linktest.req" && connOk(c)
  modifies ssends, ssendTo, ssendMsg, hsends, hsendTo, hsendMsg, hsendB, hsendOff, hsendLen
  ensures sentCtl(c, message, 255, 255, 0, 0, 6)
func hsms.HsmsConnection.sendReject(c, message, reason)
  requires isC(message) && connOk(c) && 0 <= reason && reason <= 255
  modifies ssends, ssendTo, ssendMsg, hsends, hsendTo, hsendMsg, hsendB, hsendOff, hsendLen
  ensures sentCtl(c, message, sess0(message), sess1(message), ite(reason == 2, asC(message)[4], asC(message)[5]), reason, 7)

# open transactions: the queue of a transaction takes only messages with its system bytes
def b4(s) = s[0] * 16777216 + s[1] * 65536 + s[2] * 256 + s[3]
axiom[C13,C14,C12,C15,C16] good_sys(v Any, k Int) trig goodFor(v, k) : k != -1 ==> (goodFor(v, k) <==> (isC(v) && sysNum(v) == k) || (is(v, "*ast.DataMessage") && b4(as(v, "*ast.DataMessage").systemBytes) == k))
guarded hsms.HsmsProtocol.queueMu (self): systemQueues
func hsms.HsmsProtocol.fetchQueue(p, systemID) (q, ok)
  ensures ok == has(p.systemQueues, systemID)
  ensures ok ==> q == p.systemQueues[systemID]
func hsms.HsmsProtocol.getNextSystemCounter(p) (id)
  requires p.systemCounter != nil
  modifies load(p.systemCounter), draws, drawn, drawnFrom
  ensures draws == old(draws) + 1 && id == drawn && drawnFrom == p.systemCounter
func hsms.HsmsProtocol.encodeSystemID(p, num) (r)
  ensures len(r) == 4 && fresh(r) && r[0] == num / 16777216 && r[1] == (num / 65536) % 256 && r[2] == (num / 256) % 256 && r[3] == num % 256
func hsms.HsmsProtocol.createQueue(p, systemID) (q)
  requires p.systemQueues != nil
  requires[C14] own: systemID == drawn && claimed < draws
  modifies entries(p.systemQueues), lkey, llo, lhi
  sets claimed := draws
  sets claimKey := systemID
  records lkey := store(lkey, q.container, systemID)
  ensures q != nil && q.container != nil && fresh(q) && fresh(q.container) && lkey == store(old(lkey), q.container, systemID)
  ensures all(k, "uint32", has(p.systemQueues, k) && k != systemID ==> p.systemQueues[k] == old(p.systemQueues[k]), has(p.systemQueues, k))
  ensures has(p.systemQueues, systemID) && p.systemQueues[systemID] == q
  ensures all(k, "uint32", k != systemID ==> has(p.systemQueues, k) == old(has(p.systemQueues, k)))
func hsms.HsmsProtocol.removeQueue(p, systemID)
  modifies entries(p.systemQueues)
  ensures !has(p.systemQueues, systemID)
  ensures all(k, "uint32", k != systemID ==> has(p.systemQueues, k) == old(has(p.systemQueues, k)))
  ensures all(k, "uint32", has(p.systemQueues, k) ==> p.systemQueues[k] == old(p.systemQueues[k]), has(p.systemQueues, k))
func hsms.HsmsProtocol.stopLinktestTimer(p)
  modifies chans()
func hsms.HsmsProtocol.onDisconnection(p)
  requires p.logger != nil
  modifies p.lastDisconnectTime, clock

def queuesOk(p) = allk(k, p.systemQueues, p.systemQueues[k] != nil && p.systemQueues[k].container != nil && lkey[p.systemQueues[k].container] == k)
def sysNum(m) = asC(m)[6] * 16777216 + asC(m)[7] * 65536 + asC(m)[8] * 256 + asC(m)[9]
# the message went into the queue of the transaction with its system bytes, if there is one
def completes(p, m) = ite(has(old(p.systemQueues), sysNum(m)), puts == old(puts) + 1 && putVal == m && putList == old(p.systemQueues[sysNum(m)]).container, puts == old(puts))
def st0(p) = old(fcur[p.connectionState.fsm])
def now(p) = fcur[p.connectionState.fsm]
def online(p) = old(load(p.connected))
def msess(m) = asC(m)[0] * 256 + asC(m)[1]
def u16(n) = n % 65536
def foreign(p, m) = msess(m) != u16(old(p.sessionID)) && msess(m) != 65535 && u16(old(p.sessionID)) != 0 && u16(old(p.sessionID)) != 65535
def stays(p) = now(p) == st0(p)
def c0(p) = old(p.hsmsConnection)
func hsms.HsmsProtocol.handleHsmsRequests(p, message)
  sets reqs := reqs + 1
  sets reqMsg := message
  requires isC(message) && protoOk(p) && machine(p.connectionState) && p.hsmsConnection.hp == p && queuesOk(p) && -1 <= p.sessionID && p.sessionID <= 65535
  modifies p.sessionID, p.hsmsConnection.sessionID, p.hsmsConnection.connection, p.t7Timer, p.lastDisconnectTime, chans(), anyatom("atomic.Bool"), anyof("hsms.HsmsProtocol.t7Timer"), \
    ssends, ssendTo, ssendMsg, hsends, hsendTo, hsendMsg, hsendB, hsendOff, hsendLen, hcloses, fcur, fevents, goroutines, lrow, llo, lhi, puts, putList, putVal, clock, emptyAt, emptyList
  ensures machine(p.connectionState)
  ensures 0 <= old(p.sessionID) ==> 0 <= p.sessionID && p.sessionID <= 65535
  ensures other_session: ctype(asC(message)) == "select.req" && foreign(p, message) ==> sentCtl(c0(p), message, sess0(message), sess1(message), 0, 1, 2) && now(p) == NC() && hcloses == old(hcloses) + 1
  ensures select: ctype(asC(message)) == "select.req" && !foreign(p, message) && online(p) ==> sentCtl(c0(p), message, sess0(message), sess1(message), 0, ite(st0(p) == SE(), 1, 0), 2) && \
    (st0(p) != NC() ==> now(p) == SE()) && (st0(p) == NC() ==> stays(p))
  ensures select_early: ctype(asC(message)) == "select.req" && !foreign(p, message) && !online(p) ==> sentCtl(c0(p), message, sess0(message), sess1(message), 1, 4, 7) && stays(p)
  ensures deselect: ctype(asC(message)) == "deselect.req" && online(p) ==> sentCtl(c0(p), message, sess0(message), sess1(message), 0, ite(st0(p) == SE(), 0, 1), 4) && now(p) == ite(st0(p) == SE(), NS(), st0(p))
  ensures deselect_early: ctype(asC(message)) == "deselect.req" && !online(p) ==> sentCtl(c0(p), message, sess0(message), sess1(message), 3, 4, 7) && stays(p)
  ensures linktest: ctype(asC(message)) == "linktest.req" && online(p) ==> sentCtl(c0(p), message, 255, 255, 0, 0, 6) && stays(p)
  ensures linktest_early: ctype(asC(message)) == "linktest.req" && !online(p) ==> sentCtl(c0(p), message, sess0(message), sess1(message), 5, 4, 7) && stays(p)
  ensures separate: ctype(asC(message)) == "separate.req" ==> nothingSent() && now(p) == NC() && hcloses == old(hcloses) + 1
  ensures requests_only: ctype(asC(message)) == "select.req" || ctype(asC(message)) == "deselect.req" || ctype(asC(message)) == "linktest.req" || ctype(asC(message)) == "separate.req" ==> puts == old(puts)
  ensures select_rsp: ctype(asC(message)) == "select.rsp" ==> nothingSent() && completes(p, message) && \
    ite(asC(message)[3] == 0, now(p) == ite(st0(p) == NS(), SE(), st0(p)), now(p) == NC() && hcloses == old(hcloses) + 1)
  ensures deselect_rsp: ctype(asC(message)) == "deselect.rsp" ==> nothingSent() && completes(p, message) && now(p) == ite(asC(message)[3] == 0 && st0(p) == SE(), NS(), st0(p))
  ensures other_rsp: ctype(asC(message)) == "linktest.rsp" || ctype(asC(message)) == "reject.req" || ctype(asC(message)) == "undefined" ==> nothingSent() && completes(p, message) && stays(p)
check C13: hsms.HsmsConnection.Send, hsms.HsmsConnection.Close, hsms.HsmsConnection.Session, hsms.HsmsConnection.SetSession, hsms.HsmsConnection.send*Rsp, hsms.HsmsConnection.sendReject, hsms.HsmsProtocol.fetchQueue, hsms.HsmsProtocol.stopLinktestTimer, hsms.HsmsProtocol.onDisconnection, hsms.HsmsProtocol.handleHsmsRequests
check C13: hsms.HsmsConnection.sendLinktestReq, hsms.HsmsConnection.sendSelectReq, hsms.HsmsConnection.sendDeselectReq
check C12: hsms.HsmsProtocol.handleHsmsRequests
