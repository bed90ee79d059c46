# Contracts for HSMS messages (lib-secs2-hsms-go/pkg/ast/ast.go, hsms.go)

sealed ast.HSMSMessage: *ast.DataMessage, *ast.ControlMessage

# message names contain no white space, read rune by rune from byte position p
specfun spaceFrom(Str, Int) Bool
def runeOf(s, p) = ite(s[p] < 128, s[p], raw("runeat", "Int", s, p))
def widthOf(s, p) = ite(s[p] < 128, 1, raw("runew", "Int", s, p))
axiom[C03,C04,C07,C08,C14,C15,C16] space_step(s Str, p Int) mtrig spaceFrom(s, p), s[p] : 0 <= p && p < len(s) ==> spaceFrom(s, p) == (raw("u.isspace", "Bool", runeOf(s, p)) || spaceFrom(s, p + widthOf(s, p)))
axiom[C03,C04,C07,C08,C14,C15,C16] space_end(s Str, p Int) trig spaceFrom(s, p) : p >= len(s) ==> !spaceFrom(s, p)
axiom[C03,C04,C07,C08,C14,C15,C16] space_empty() : !spaceFrom("", 0)

def okDir(d) = d == "H->E" || d == "H<-E" || d == "H<->E"
invariant ast.DataMessage(x): !spaceFrom(x.name, 0)
invariant ast.DataMessage(x): 0 <= x.stream && x.stream < 128 && 0 <= x.function && x.function < 256 && 0 <= x.waitBit && x.waitBit <= 2 && !(x.waitBit == 1 && x.function % 2 == 0)
invariant ast.DataMessage(x): -1 <= x.sessionID && x.sessionID < 65536 && len(x.systemBytes) == 4 && okDir(x.direction)
invariant ast.DataMessage(x): x.dataItem != nil
invariant ast.ControlMessage(x): len(x.header) == 10

func ast.DataMessage.checkRep(node)
  inline
  loop 0 invariant spaceFrom(node.name, 0) == spaceFrom(node.name, rangepos())

def badHeader(name, stream, function, waitBit, direction) = spaceFrom(name, 0) || !(0 <= stream && stream < 128) || !(0 <= function && function < 256) || (waitBit == 1 && function % 2 == 0) || !(0 <= waitBit && waitBit <= 2) || !okDir(direction)
# byte i of the system bytes given by a caller: the first four, zero padded
def sysOf(s, i) = ite(i < len(s), s[i], 0)
def sameBut(r, n) = r.name == n.name && r.stream == n.stream && r.function == n.function && r.direction == n.direction

func ast.NewDataMessage(name, stream, function, waitBit, direction, dataItem) (r)
  requires dataItem != nil
  panics when badHeader(name, stream, function, waitBit, direction)
  ensures r != nil && r.name == name && r.stream == stream && r.function == function && r.waitBit == waitBit && r.direction == direction && r.dataItem == dataItem
  ensures r.sessionID == -1 && forall(i, 0, 4, r.systemBytes[i] == 0)

func ast.NewHSMSDataMessage(name, stream, function, waitBit, direction, dataItem, sessionID, systemBytes) (r)
  requires dataItem != nil
  panics when header: badHeader(name, stream, function, waitBit, direction)
  panics when wait: waitBit != 0 && waitBit != 1
  panics when session: sessionID < 0 || sessionID > 65535
  panics when variables: nvars(dataItem) != 0
  ensures r != nil && r.name == name && r.stream == stream && r.function == function && r.waitBit == waitBit && r.direction == direction && r.dataItem == dataItem
  ensures r.sessionID == sessionID && forall(i, 0, 4, r.systemBytes[i] == sysOf(systemBytes, i))
  loop 0 invariant iter <= 4 && forall(i, 0, iter, mk("[]byte")[i] == systemBytes[i]) && forall(i, iter, 4, mk("[]byte")[i] == 0)

func ast.DataMessage.SetWaitBit(node, waitBit) (r)
  panics when node.waitBit == 2 && waitBit && node.function % 2 == 0
  ensures node.waitBit != 2 ==> r == node
  ensures r != nil
  ensures sameBut(r, node) && r.dataItem == node.dataItem && r.sessionID == node.sessionID && forall(i, 0, 4, r.systemBytes[i] == node.systemBytes[i])
  ensures node.waitBit == 2 ==> r.waitBit == ite(waitBit, 1, 0)

func ast.DataMessage.SetSessionIDAndSystemBytes(node, sessionID, systemBytes) (r)
  panics when sessionID < -1 || sessionID > 65535
  ensures r != nil && sameBut(r, node) && r.waitBit == node.waitBit && r.dataItem == node.dataItem && r.sessionID == sessionID && forall(i, 0, 4, r.systemBytes[i] == sysOf(systemBytes, i))
  loop 0 invariant iter <= 4 && forall(i, 0, iter, mk("[]byte")[i] == systemBytes[i]) && forall(i, iter, 4, mk("[]byte")[i] == 0)

func ast.DataMessage.Name(node) (r)
  ensures r == node.name
func ast.DataMessage.StreamCode(node) (r)
  ensures r == node.stream
func ast.DataMessage.FunctionCode(node) (r)
  ensures r == node.function
func ast.DataMessage.WaitBit(node) (r)
  ensures r == ite(node.waitBit == 0, "false", ite(node.waitBit == 1, "true", "optional"))
func ast.DataMessage.Direction(node) (r)
  ensures r == node.direction
func ast.DataMessage.SessionID(node) (r)
  ensures r == node.sessionID
func ast.DataMessage.SystemBytes(node) (r)
  ensures len(r) == 4 && forall(i, 0, 4, r[i] == node.systemBytes[i])
  ensures fresh(r)

# frame: 4 length bytes, session, wait bit and stream, function, two zero bytes, system bytes, item
def be4(n, i) = (n / pow256(3 - i)) % 256
def frameAt(m, i) = ite(i < 4, be4(encLen(m.dataItem) + 10, i), ite(i == 4, m.sessionID / 256, ite(i == 5, m.sessionID % 256,
  ite(i == 6, m.stream + ite(m.waitBit == 1, 128, 0), ite(i == 7, m.function, ite(i == 8 || i == 9, 0, ite(i < 14, m.systemBytes[i - 10], encAt(m.dataItem, i - 14))))))))
def sendable(m) = m.waitBit != 2 && nvars(m.dataItem) == 0 && m.sessionID != -1
func ast.DataMessage.ToBytes(node) (r)
  ensures !sendable(node) ==> len(r) == 0
  ensures sendable(node) ==> len(r) == 14 + encLen(node.dataItem)
  ensures sendable(node) && encLen(node.dataItem) + 10 < 4294967296 ==> forall(i, 0, 14, r[i] == frameAt(node, i))
  ensures sendable(node) && encLen(node.dataItem) + 10 < 4294967296 ==> forall(i, 14, len(r), r[i] == encAt(node.dataItem, i - 14))
  ensures[C05] sendable(node) && encLen(node.dataItem) + 10 < 4294967296 ==> hold(row(r), off(r) + 14, node.dataItem)
  ensures[C05] sendable(node) && encLen(node.dataItem) + 10 < 4294967296 ==> dig4(row(r), off(r), encLen(node.dataItem) + 10)
  ensures[C05] complete(node.dataItem) ==> rt(node.dataItem) && es(node.dataItem)
  ensures fresh(r)

check C03: ast.DataMessage.Variables, ast.NewDataMessage, ast.NewHSMSDataMessage, ast.DataMessage.SetWaitBit, ast.DataMessage.SetSessionIDAndSystemBytes, ast.DataMessage.Name, ast.DataMessage.StreamCode, ast.DataMessage.FunctionCode, ast.DataMessage.WaitBit, ast.DataMessage.Direction, ast.DataMessage.SessionID, ast.DataMessage.SystemBytes, ast.DataMessage.ToBytes, ast.DataMessage.Type

# ---- control messages (hsms.go)
def h16(n, i) = ite(i == 0, n / 256, n % 256)
def asC(m) = as(m, "*ast.ControlMessage").header
def isC(m) = is(m, "*ast.ControlMessage")
# header: session hi, lo, byte 2, status, 0, type, system bytes (four bytes at sys)
def ctl(r, s0, s1, b2, b3, t) = isC(r) && asC(r)[0] == s0 && asC(r)[1] == s1 && asC(r)[2] == b2 && asC(r)[3] == b3 && asC(r)[4] == 0 && asC(r)[5] == t
def sysIs(r, s, o) = asC(r)[6] == s[o] && asC(r)[7] == s[o + 1] && asC(r)[8] == s[o + 2] && asC(r)[9] == s[o + 3]
def ctype(h) = ite(h[4] != 0, "undefined", ite(h[5] == 1, "select.req", ite(h[5] == 2, "select.rsp", ite(h[5] == 3, "deselect.req", ite(h[5] == 4, "deselect.rsp",
  ite(h[5] == 5, "linktest.req", ite(h[5] == 6, "linktest.rsp", ite(h[5] == 7, "reject.req", ite(h[5] == 9, "separate.req", "undefined")))))))))

iface ast.HSMSMessage.Type(self) (r)
  ensures is(self, "*ast.DataMessage") ==> r == "data message"
  ensures isC(self) ==> r == ctype(asC(self))
iface ast.HSMSMessage.ToBytes(self) (r)
  ensures isC(self) ==> len(r) == 14 && r[0] == 0 && r[1] == 0 && r[2] == 0 && r[3] == 10 && forall(i, 0, 10, r[4 + i] == asC(self)[i])
  ensures fresh(r)
iface ast.HSMSMessage.SystemBytes(self) (r)
  ensures len(r) == 4 && fresh(r)
  ensures isC(self) ==> forall(i, 0, 4, r[i] == asC(self)[6 + i])
  ensures is(self, "*ast.DataMessage") ==> forall(i, 0, 4, r[i] == as(self, "*ast.DataMessage").systemBytes[i])

func ast.NewHSMSControlMessage(header) (r)
  ensures isC(r) && forall(i, 0, 10, asC(r)[i] == ite(i < len(header), header[i], 0))
  loop 0 invariant iter <= 10 && forall(i, 0, iter, mk("[]byte")[i] == header[i]) && forall(i, iter, 10, mk("[]byte")[i] == 0)
func ast.NewHSMSMessageSelectReq(sessionID, systemBytes) (r)
  panics when len(systemBytes) < 4
  ensures ctl(r, sessionID / 256, sessionID % 256, 0, 0, 1) && sysIs(r, systemBytes, 0)
func ast.NewHSMSMessageDeselectReq(sessionID, systemBytes) (r)
  panics when len(systemBytes) < 4
  ensures ctl(r, sessionID / 256, sessionID % 256, 0, 0, 3) && sysIs(r, systemBytes, 0)
func ast.NewHSMSMessageSeparateReq(sessionID, systemBytes) (r)
  panics when len(systemBytes) < 4
  ensures ctl(r, sessionID / 256, sessionID % 256, 0, 0, 9) && sysIs(r, systemBytes, 0)
func ast.NewHSMSMessageLinktestReq(systemBytes) (r)
  panics when len(systemBytes) < 4
  ensures ctl(r, 255, 255, 0, 0, 5) && sysIs(r, systemBytes, 0)
func ast.NewHSMSMessageRejectReq(sessionID, pType, sType, systemBytes, reasonCode) (r)
  panics when len(systemBytes) < 4
  ensures ctl(r, sessionID / 256, sessionID % 256, ite(reasonCode == 2, pType, sType), reasonCode, 7) && sysIs(r, systemBytes, 0)
func ast.NewHSMSMessageSelectRsp(selectReq, selectStatus) (r)
  requires selectReq != nil
  panics when !isC(selectReq) || ctype(asC(selectReq)) != "select.req"
  ensures ctl(r, asC(selectReq)[0], asC(selectReq)[1], 0, selectStatus, 2) && sysIs(r, asC(selectReq), 6)
func ast.NewHSMSMessageDeselectRsp(deselectReq, deselectStatus) (r)
  requires deselectReq != nil
  panics when !isC(deselectReq) || ctype(asC(deselectReq)) != "deselect.req"
  ensures ctl(r, asC(deselectReq)[0], asC(deselectReq)[1], 0, deselectStatus, 4) && sysIs(r, asC(deselectReq), 6)
func ast.NewHSMSMessageLinktestRsp(linktestReq) (r)
  requires linktestReq != nil
  panics when !isC(linktestReq) || ctype(asC(linktestReq)) != "linktest.req"
  ensures ctl(r, 255, 255, 0, 0, 6) && sysIs(r, asC(linktestReq), 6)
func ast.NewHSMSMessageRejectReqFromMsg(rejectReq, reasonCode) (r)
  panics when !isC(rejectReq)
  ensures ctl(r, asC(rejectReq)[0], asC(rejectReq)[1], ite(reasonCode == 2, asC(rejectReq)[4], asC(rejectReq)[5]), reasonCode, 7) && sysIs(r, asC(rejectReq), 6)
func ast.ControlMessage.SessionID(msg) (r)
  ensures r == msg.header[0] * 256 + msg.header[1]
func ast.ControlMessage.Status(msg) (r)
  ensures r == msg.header[3]

check C06: ast.HSMSMessage.*, ast.NewHSMSControlMessage, ast.NewHSMSMessage*, ast.ControlMessage.*
