# GEM process programs (C26): gem/process_program_handlers.go, process_programs.go
immutable gem.ProcessProgram
# ppPuts counts the programs put into a store
ghost ppPuts int
ghost ppUps int
ghost ppUpFn int
ghost ppUpBody string
ghost ppUpId Any
ghost ppUpAck int
ghost ppAsks int
ghost ppAskFn int
ghost ppAskId Any
ghost ppAskBody string
ghost ppAskAck int
functype gem.ProcessProgramUploadHandler(fn, id, body) (ack)
  sets ppUps := ppUps + 1
  sets ppUpFn := fn
  sets ppUpId := id
  sets ppUpBody := body
  modifies ppUpAck
  ensures ppUpAck == ack
functype gem.ProcessProgramRequestHandler(fn, id) (body, ack)
  sets ppAsks := ppAsks + 1
  sets ppAskFn := fn
  sets ppAskId := id
  modifies ppAskBody, ppAskAck
  ensures ppAskBody == body && ppAskAck == ack && len(body) <= MAXB()
monitor gem.processProgramStore.mu (self): items
  complete C26
  invariant map: self.items != nil
  invariant keyed: allk(k, self.items, self.items[k] != nil && idIs(self.items[k].info, k))
end
func gem.newProcessProgramStore() (s)
  ensures s != nil && fresh(s) && all(k, "string", !has(s.items, k))
func gem.newProcessProgram(id, body) (pp, err)
  panics only when is(id, "string") && len(as(id, "string")) > MAXB()
  ensures (err == nil) == (isNumber(id) || is(id, "string") && ascii(as(id, "string")))
  ensures err == nil ==> pp != nil && fresh(pp) && idIs(pp.info, keyOf(id)) && pp.Body == body
func gem.processProgramStore.put(s, pp)
  requires s != nil && pp != nil && idWell(pp.info)
  modifies anydeep("gem.processProgramStore.items")
  sets ppPuts := ppPuts + 1
  ensures put: rel("gem.processProgramStore.mu", s.items[pp.info.key]) == pp && rel("gem.processProgramStore.mu", has(s.items, pp.info.key))
  ensures others: all(k, "string", k != pp.info.key ==> rel("gem.processProgramStore.mu", has(s.items, k)) == acq(has(s.items, k)) && rel("gem.processProgramStore.mu", s.items[k]) == acq(s.items[k]))
func gem.processProgramStore.get(s, key) (pp, ok)
  requires s != nil
  modifies anydeep("gem.processProgramStore.items")
  ensures ok == acq(has(s.items, key)) && (ok ==> pp == acq(s.items[key]) && pp != nil && idIs(pp.info, key))
func gem.processProgramStore.delete(s, key)
  requires s != nil
  modifies anydeep("gem.processProgramStore.items")
  ensures all(k, "string", rel("gem.processProgramStore.mu", has(s.items, k)) == (k != key && acq(has(s.items, k))) && (k != key ==> rel("gem.processProgramStore.mu", s.items[k]) == acq(s.items[k])))
func gem.processProgramStore.list(s) (r)
  requires s != nil
  modifies anydeep("gem.processProgramStore.items")
  ensures known: forall(i, 0, len(r), r[i] != nil && rel("gem.processProgramStore.mu", has(s.items, r[i].info.key) && s.items[r[i].info.key] == r[i]))
  loop 0 invariant forall(i, 0, len(acc("[]*gem.ProcessProgram")), acc("[]*gem.ProcessProgram")[i] != nil && has(s.items, acc("[]*gem.ProcessProgram")[i].info.key) && s.items[acc("[]*gem.ProcessProgram")[i].info.key] == acc("[]*gem.ProcessProgram")[i])
func gem.GemHandler.RegisterProcessProgram(g, id, body) (err)
  requires g != nil && g.processStore != nil
  panics only when is(id, "string") && len(as(id, "string")) > MAXB()
  modifies *
  ensures refused: (err == nil) == (g.deviceType == 1 && (isNumber(id) || is(id, "string") && ascii(as(id, "string"))))
  ensures stored: err == nil ==> ppPuts == old(ppPuts) + 1 && rel("gem.processProgramStore.mu", has(g.processStore.items, keyOf(id))) && rel("gem.processProgramStore.mu", g.processStore.items[keyOf(id)]).Body == body
  ensures kept: err != nil ==> ppPuts == old(ppPuts)
# the bytes an item carries
def isBody(x) = isText(x) || is(x, "*ast.BinaryNode")
def bytesAre(x, s) = ite(isText(x), textOf(x) == s, len(s) == len(as(x, "*ast.BinaryNode").values) && forall(i, 0, len(s), s[i] == as(x, "*ast.BinaryNode").values[i]))
func gem.processProgramBody(x) (body, ok)
  requires x == nil || plain(x)
  ensures ok == isBody(x)
  ensures ok ==> bytesAre(x, body) && len(body) <= MAXB()
  loop 0 invariant len(mk("[]byte")) == len(as(x, "*ast.BinaryNode").values) && forall(i, 0, iter, mk("[]byte")[i] == as(x, "*ast.BinaryNode").values[i])
func gem.processProgramBodyNode(body) (x)
  panics only when len(body) > MAXB()
  ensures isBody(x) && plain(x) && bytesAre(x, body)
  loop 0 invariant forall(i, 0, iter, body[i] < 128)
  loop 1 invariant forall(i, 0, iter, is(mk("[]interface{}")[i], "byte") && as(mk("[]interface{}")[i], "byte") == body[i])
# the numeral NewBinaryNode reads back
def bOk(s) = raw("parseint.ok", "Bool", s, 0, 0)
def bVal(s) = raw("parseint", "Int", s, 0, 0)
axiom[C26] bin_lit(n Int) trig "0b" + raw("itob", "Str", n) : 0 <= n && n <= 255 ==> raw("s.hasprefix", "Bool", "0b" + raw("itob", "Str", n), "0b") && bOk("0b" + raw("itob", "Str", n)) && bVal("0b" + raw("itob", "Str", n)) == n
func gem.GemHandler.buildS7F4(g, k) (m)
  requires 0 <= k && k <= 255
  ensures answer(m, 7, 4) && codeIs(m.dataItem, k)
def ppAck(k) = min(max(k, 0), 255)
func gem.GemHandler.buildS7F6(g, id, body, k) (m)
  requires id == nil || plain(id)
  panics only when len(body) > MAXB()
  ensures answer(m, 7, 6) && isList(m.dataItem) && listLen(m.dataItem) == 3
  ensures id: id != nil ==> listAt(m.dataItem, 0) == id
  ensures content: isBody(listAt(m.dataItem, 1)) && bytesAre(listAt(m.dataItem, 1), ite(k == 0, body, ""))
  ensures code: binIs(listAt(m.dataItem, 2), ppAck(k))
# S7F3: identifier and content
def ppGood(msg) = msg != nil && inList(msg.dataItem, 0) && inList(msg.dataItem, 1) && idOk(listAt(msg.dataItem, 0)) && isBody(listAt(msg.dataItem, 1))
def ppKept(s, k) = rel("gem.processProgramStore.mu", s.items[k])
func gem.GemHandler.onS7F3(g, msg) (r, err)
  requires g != nil && g.processStore != nil && wire(msg)
  modifies *
  ensures answered: err == nil && answer(r, 7, 4) && exists(k, 0, 256, codeIs(r.dataItem, k))
  ensures malformed: !ppGood(msg) ==> codeIs(r.dataItem, 1) && ppPuts == old(ppPuts) && ppUps == old(ppUps)
  ensures asked: ppGood(msg) && old(g.processUploadHandler) != nil ==> ppUps == old(ppUps) + 1 && ppUpFn == old(g.processUploadHandler) && rawKey(ppUpId) == idKey(listAt(msg.dataItem, 0)) && bytesAre(listAt(msg.dataItem, 1), ppUpBody)
  ensures code: ppGood(msg) && old(g.processUploadHandler) != nil && 0 <= ppUpAck && ppUpAck <= 255 ==> codeIs(r.dataItem, ppUpAck)
  ensures free: ppGood(msg) && old(g.processUploadHandler) == nil ==> codeIs(r.dataItem, 0)
  ensures stored: codeIs(r.dataItem, 0) ==> ppPuts == old(ppPuts) + 1 && ppKept(g.processStore, idKey(listAt(msg.dataItem, 0))) != nil && bytesAre(listAt(msg.dataItem, 1), ppKept(g.processStore, idKey(listAt(msg.dataItem, 0))).Body)
  ensures kept: !codeIs(r.dataItem, 0) ==> ppPuts == old(ppPuts)
# S7F5: the identifier is the item, or the first of a list
def ppAskOk(msg) = msg != nil && ite(isList(msg.dataItem), listLen(msg.dataItem) > 0 && idOk(listAt(msg.dataItem, 0)), idOk(msg.dataItem))
def ppAskKey(msg) = ite(isList(msg.dataItem), idKey(listAt(msg.dataItem, 0)), idKey(msg.dataItem))
def ppNone(r) = bytesAre(listAt(r.dataItem, 1), "") && binIs(listAt(r.dataItem, 2), 1)
func gem.GemHandler.onS7F5(g, msg) (r, err)
  requires g != nil && g.processStore != nil && wire(msg)
  panics only when old(g.processRequestHandler) == nil && ppAskOk(msg) && acq(has(g.processStore.items, ppAskKey(msg))) && len(acq(g.processStore.items[ppAskKey(msg)]).Body) > MAXB()
  modifies *
  ensures answered: err == nil && answer(r, 7, 6) && isList(r.dataItem) && listLen(r.dataItem) == 3 && isBody(listAt(r.dataItem, 1))
  ensures malformed: !ppAskOk(msg) ==> ppNone(r) && ppAsks == old(ppAsks)
  ensures id: ppAskOk(msg) ==> idOk(listAt(r.dataItem, 0)) && idKey(listAt(r.dataItem, 0)) == ppAskKey(msg)
  ensures unknown: ppAskOk(msg) && old(g.processRequestHandler) == nil && !acq(has(g.processStore.items, ppAskKey(msg))) ==> ppNone(r)
  ensures found: ppAskOk(msg) && old(g.processRequestHandler) == nil && acq(has(g.processStore.items, ppAskKey(msg))) ==> bytesAre(listAt(r.dataItem, 1), acq(g.processStore.items[ppAskKey(msg)]).Body) && binIs(listAt(r.dataItem, 2), 0)
  ensures handler: ppAskOk(msg) && old(g.processRequestHandler) != nil ==> ppAsks == old(ppAsks) + 1 && ppAskFn == old(g.processRequestHandler) && rawKey(ppAskId) == ppAskKey(msg) && bytesAre(listAt(r.dataItem, 1), ite(ppAskAck == 0, ppAskBody, ""))
# the host's side of the exchange
func gem.GemHandler.buildS7F3(g, id, body) (m)
  requires idWell(id)
  panics only when len(body) > MAXB()
  ensures m != nil && m.stream == 7 && m.function == 3 && ppGood(m) && idKey(listAt(m.dataItem, 0)) == id.key && bytesAre(listAt(m.dataItem, 1), body)
func gem.GemHandler.buildS7F5(g, id) (m)
  requires idWell(id)
  ensures m != nil && m.stream == 7 && m.function == 5 && ppAskOk(m) && ppAskKey(m) == id.key
func gem.parseProcessProgramResponse(msg) (body, ack, err)
  requires wire(msg)
  ensures content: err == nil ==> inList(msg.dataItem, 1) && isBody(listAt(msg.dataItem, 1)) && bytesAre(listAt(msg.dataItem, 1), body)
  ensures some: msg != nil && inList(msg.dataItem, 1) && isBody(listAt(msg.dataItem, 1)) && listLen(msg.dataItem) == 2 ==> err == nil
  loop 0 invariant len(mk("[]byte")) == len(as(listAt(msg.dataItem, 1), "*ast.BinaryNode").values) && forall(i, 0, iter, mk("[]byte")[i] == as(listAt(msg.dataItem, 1), "*ast.BinaryNode").values[i])
check C26: gem.GemHandler.buildS7F3, gem.GemHandler.buildS7F5, gem.parseProcessProgramResponse
check C26: gem.newProcessProgram*, gem.processProgramStore.*, gem.GemHandler.RegisterProcessProgram, gem.processProgramBody*, gem.GemHandler.buildS7F4, gem.GemHandler.buildS7F6, gem.GemHandler.onS7F3, gem.GemHandler.onS7F5
